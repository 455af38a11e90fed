// Reference models, written from the standards (GOST R 34.12-2015, GOST R 34.13-2015,
// GOST 28147-89), independent of the library: no library header is included here.
// selftest() compares them with the examples printed in the standards.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace ref {

using Bytes = std::vector<uint8_t>;

inline uint64_t le64(const uint8_t *p)
{
	uint64_t v = 0;
	for (int i = 0; i < 8; i++) v |= uint64_t(p[i]) << (8 * i);
	return v;
}
inline void put_le64(uint8_t *p, uint64_t v)
{
	for (int i = 0; i < 8; i++) p[i] = uint8_t(v >> (8 * i));
}

// ---------------------------------------------------------------- Magma / GOST 28147-89

// rows[i][x]: what nibble i (0 = least significant) of value x is replaced by
using Rows = std::array<std::array<uint8_t, 16>, 8>;

inline const Rows &rows_z()
{
	// id-tc26-gost-28147-param-Z
	static const Rows r = {{
		{{0xc, 0x4, 0x6, 0x2, 0xa, 0x5, 0xb, 0x9, 0xe, 0x8, 0xd, 0x7, 0x0, 0x3, 0xf, 0x1}},
		{{0x6, 0x8, 0x2, 0x3, 0x9, 0xa, 0x5, 0xc, 0x1, 0xe, 0x4, 0x7, 0xb, 0xd, 0x0, 0xf}},
		{{0xb, 0x3, 0x5, 0x8, 0x2, 0xf, 0xa, 0xd, 0xe, 0x1, 0x7, 0x4, 0xc, 0x9, 0x6, 0x0}},
		{{0xc, 0x8, 0x2, 0x1, 0xd, 0x4, 0xf, 0x6, 0x7, 0x0, 0xa, 0x5, 0x3, 0xe, 0x9, 0xb}},
		{{0x7, 0xf, 0x5, 0xa, 0x8, 0x1, 0x6, 0xd, 0x0, 0x9, 0x3, 0xe, 0xb, 0x4, 0x2, 0xc}},
		{{0x5, 0xd, 0xf, 0x6, 0x9, 0x2, 0xc, 0xa, 0xb, 0x7, 0x8, 0x1, 0x4, 0x3, 0xe, 0x0}},
		{{0x8, 0xe, 0x2, 0x5, 0x6, 0x9, 0x1, 0xc, 0xf, 0x4, 0xb, 0x0, 0xd, 0xa, 0x3, 0x7}},
		{{0x1, 0x7, 0xe, 0xd, 0x0, 0x5, 0x8, 0x3, 0x4, 0xf, 0xa, 0x6, 0x9, 0xc, 0xb, 0x2}},
	}};
	return r;
}

// the collapsed form: byte 4*x+j holds row 2j in its low and row 2j+1 in its high nibble
inline Bytes collapse(const Rows &r)
{
	Bytes b(64);
	for (int x = 0; x < 16; x++)
		for (int j = 0; j < 4; j++) b[size_t(4 * x + j)] = uint8_t(r[size_t(2 * j)][size_t(x)] | r[size_t(2 * j + 1)][size_t(x)] << 4);
	return b;
}
inline Rows expand(const Bytes &b)
{
	Rows r;
	for (size_t x = 0; x < 16; x++)
		for (size_t j = 0; j < 4; j++) {
			r[2 * j][x] = b[4 * x + j] & 15;
			r[2 * j + 1][x] = b[4 * x + j] >> 4;
		}
	return r;
}

// the table of the examples published for GOST 28147-89 implementations (test/gost89)
inline const Rows &rows_test()
{
	static const Rows r = expand(Bytes{
		0xc4, 0xed, 0x83, 0xc9, 0x92, 0x98, 0xfe, 0x6b, 0xff, 0xbe, 0x65, 0x5c, 0xe5, 0x2c, 0xb9, 0x20,
		0x89, 0x57, 0x16, 0xb3, 0x11, 0xf3, 0x98, 0x06, 0x30, 0x79, 0xc0, 0x97, 0xa8, 0x1a, 0x5d, 0xd5,
		0x2e, 0x01, 0xda, 0x34, 0x73, 0xd5, 0x3b, 0xe8, 0x4b, 0xc2, 0x77, 0x7e, 0xdc, 0x64, 0xac, 0xaf,
		0x6d, 0xa6, 0x02, 0xf1, 0x07, 0x4f, 0xe1, 0x4a, 0xba, 0x30, 0x2f, 0x12, 0x56, 0x8b, 0x44, 0x8d});
	return r;
}

inline uint32_t substitute(const Rows &r, uint32_t v)
{
	uint32_t o = 0;
	for (int i = 7; i >= 0; i--) o = o << 4 | r[size_t(i)][v >> (4 * i) & 15];
	return o;
}
inline uint32_t rol11(uint32_t v) { return uint32_t((uint64_t(v) * 2048) | (uint64_t(v) * 2048 >> 32)); }

// round function of word and key index 0..7
using Round = std::function<uint32_t(uint32_t, int)>;

// The Feistel network over an arbitrary round function. Block as in GOST 28147-89:
// N1 = low word, N2 = high word; the last round does not swap.
template <class F> uint64_t feistel(const F &f, uint64_t block, bool decrypt, int rounds = 32)
{
	uint32_t n1 = uint32_t(block), n2 = uint32_t(block >> 32);
	for (int r = 0; r < rounds; r++) {
		int ki;
		if (decrypt) ki = r < 8 ? r : 7 - r % 8;
		else ki = r < 24 ? r % 8 : 7 - r % 8;
		const uint32_t t = f(n1, ki) ^ n2;
		n2 = n1;
		n1 = t;
	}
	if (rounds == 32) std::swap(n1, n2);
	return uint64_t(n2) << 32 | n1;
}

struct Magma {
	std::array<uint32_t, 8> key{};
	Rows rows = rows_z();

	Magma() { prepare(); }
	Magma(const std::array<uint32_t, 8> &k, const Rows &r) : key(k), rows(r) { prepare(); }
	uint32_t operator()(uint32_t v, int i) const
	{
		const uint32_t s = key[size_t(i)] + v;
		return tab[0][s & 255] ^ tab[1][s >> 8 & 255] ^ tab[2][s >> 16 & 255] ^ tab[3][s >> 24];
	}
	uint64_t enc(uint64_t b) const { return feistel(*this, b, false); }
	uint64_t dec(uint64_t b) const { return feistel(*this, b, true); }
	uint64_t imit16(uint64_t b) const { return feistel(*this, b, false, 16); }

private:
	std::array<std::array<uint32_t, 256>, 4> tab;
	void prepare()
	{
		for (size_t j = 0; j < 4; j++)
			for (uint32_t x = 0; x < 256; x++) {
				const uint32_t s = uint32_t(rows[2 * j][x & 15] | rows[2 * j + 1][x >> 4] << 4) << (8 * j);
				tab[j][x] = rol11(s);
			}
	}
};

// E: uint64 -> uint64 (block encryption, little-endian integer of the 8 bytes)
template <class E> Bytes ecb(const E &e, const Bytes &in)
{
	Bytes out(in.size());
	for (size_t i = 0; i + 8 <= in.size(); i += 8) put_le64(&out[i], e(le64(&in[i])));
	return out;
}
// CFB with a register of n blocks and full-block feedback
template <class E> Bytes cfb(const E &e, std::vector<uint64_t> reg, const Bytes &in, bool decrypt)
{
	Bytes out(in.size());
	for (size_t i = 0; i < in.size(); i += 8) {
		uint8_t gamma[8], c[8] = {0};
		put_le64(gamma, e(reg[0]));
		for (size_t j = 0; j < 8 && i + j < in.size(); j++) {
			out[i + j] = in[i + j] ^ gamma[j];
			c[j] = decrypt ? in[i + j] : out[i + j];
		}
		reg.erase(reg.begin());
		reg.push_back(le64(c));
	}
	return out;
}
inline uint64_t dbl64(uint64_t v) { return v << 1 ^ (v >> 63 ? 0x1b : 0); }

// OMAC of whole 8-byte blocks followed by one last block already padded
template <class E> uint64_t omac64(const E &e, const std::vector<uint64_t> &blocks, bool last_complete)
{
	const uint64_t k1 = dbl64(e(0)), k2 = dbl64(k1);
	uint64_t c = 0;
	for (size_t i = 0; i + 1 < blocks.size(); i++) c = e(c ^ blocks[i]);
	return e(c ^ blocks.back() ^ (last_complete ? k1 : k2));
}

struct Tags {  // acceptable tags of a message with an incomplete last block
	uint64_t standard_order = 0;  // 1-bit padding, bytes aligned at the most significant end
	uint64_t stream_order = 0;    // 1-bit padding after the last byte in stream order
	uint64_t zero = 0;            // zero padding: not injective
};

template <class E> uint64_t omac64_whole(const E &e, const Bytes &m)
{
	std::vector<uint64_t> b;
	for (size_t i = 0; i < m.size(); i += 8) b.push_back(le64(&m[i]));
	return omac64(e, b, true);
}
template <class E> Tags omac64_partial(const E &e, const Bytes &m)
{
	std::vector<uint64_t> b;
	const size_t k = m.size() % 8, n = m.size() - k;
	for (size_t i = 0; i < n; i += 8) b.push_back(le64(&m[i]));
	uint64_t v = 0;
	for (size_t i = 0; i < k; i++) v |= uint64_t(m[n + i]) << (8 * i);
	Tags t;
	b.push_back(v);
	t.zero = omac64(e, b, false);
	b.back() = v | uint64_t(0x80) << (8 * k);
	t.stream_order = omac64(e, b, false);
	b.back() = (k ? v << (8 * (8 - k)) : 0) | uint64_t(0x80) << (8 * (7 - k));
	t.standard_order = omac64(e, b, false);
	return t;
}

template <class M> Bytes imit89(const M &m, Bytes data)
{
	data.resize(std::max<size_t>(16, (data.size() + 7) / 8 * 8), 0);
	uint64_t s = 0;
	for (size_t i = 0; i < data.size(); i += 8) s = feistel(m, s ^ le64(&data[i]), false, 16);
	Bytes out(8);
	put_le64(&out[0], s);
	return out;
}

// ---------------------------------------------------------------- Kuznyechik

struct B128 {
	uint64_t lo = 0, hi = 0;
	bool operator==(const B128 &o) const { return lo == o.lo && hi == o.hi; }
	bool operator!=(const B128 &o) const { return !(*this == o); }
	bool operator<(const B128 &o) const { return hi != o.hi ? hi < o.hi : lo < o.lo; }
	B128 operator^(const B128 &o) const { return {lo ^ o.lo, hi ^ o.hi}; }
	uint8_t at(int i) const { return uint8_t(i < 8 ? lo >> (8 * i) : hi >> (8 * (i - 8))); }
	void set(int i, uint8_t v)
	{
		uint64_t &w = i < 8 ? lo : hi;
		const int s = 8 * (i & 7);
		w = (w & ~(uint64_t(255) << s)) | uint64_t(v) << s;
	}
};
inline B128 inc(B128 b) { if (++b.lo == 0) ++b.hi; return b; }
inline B128 shl(B128 b, int n)
{
	for (int i = 0; i < n; i++) b = {b.lo << 1, b.hi << 1 | b.lo >> 63};
	return b;
}
inline B128 dbl128(B128 b)
{
	const bool m = b.hi >> 63;
	b = shl(b, 1);
	if (m) b.lo ^= 0x87;
	return b;
}

inline const std::array<uint8_t, 256> &pi()
{
	static const std::array<uint8_t, 256> t = {{
		0xfc, 0xee, 0xdd, 0x11, 0xcf, 0x6e, 0x31, 0x16, 0xfb, 0xc4, 0xfa, 0xda, 0x23, 0xc5, 0x04, 0x4d,
		0xe9, 0x77, 0xf0, 0xdb, 0x93, 0x2e, 0x99, 0xba, 0x17, 0x36, 0xf1, 0xbb, 0x14, 0xcd, 0x5f, 0xc1,
		0xf9, 0x18, 0x65, 0x5a, 0xe2, 0x5c, 0xef, 0x21, 0x81, 0x1c, 0x3c, 0x42, 0x8b, 0x01, 0x8e, 0x4f,
		0x05, 0x84, 0x02, 0xae, 0xe3, 0x6a, 0x8f, 0xa0, 0x06, 0x0b, 0xed, 0x98, 0x7f, 0xd4, 0xd3, 0x1f,
		0xeb, 0x34, 0x2c, 0x51, 0xea, 0xc8, 0x48, 0xab, 0xf2, 0x2a, 0x68, 0xa2, 0xfd, 0x3a, 0xce, 0xcc,
		0xb5, 0x70, 0x0e, 0x56, 0x08, 0x0c, 0x76, 0x12, 0xbf, 0x72, 0x13, 0x47, 0x9c, 0xb7, 0x5d, 0x87,
		0x15, 0xa1, 0x96, 0x29, 0x10, 0x7b, 0x9a, 0xc7, 0xf3, 0x91, 0x78, 0x6f, 0x9d, 0x9e, 0xb2, 0xb1,
		0x32, 0x75, 0x19, 0x3d, 0xff, 0x35, 0x8a, 0x7e, 0x6d, 0x54, 0xc6, 0x80, 0xc3, 0xbd, 0x0d, 0x57,
		0xdf, 0xf5, 0x24, 0xa9, 0x3e, 0xa8, 0x43, 0xc9, 0xd7, 0x79, 0xd6, 0xf6, 0x7c, 0x22, 0xb9, 0x03,
		0xe0, 0x0f, 0xec, 0xde, 0x7a, 0x94, 0xb0, 0xbc, 0xdc, 0xe8, 0x28, 0x50, 0x4e, 0x33, 0x0a, 0x4a,
		0xa7, 0x97, 0x60, 0x73, 0x1e, 0x00, 0x62, 0x44, 0x1a, 0xb8, 0x38, 0x82, 0x64, 0x9f, 0x26, 0x41,
		0xad, 0x45, 0x46, 0x92, 0x27, 0x5e, 0x55, 0x2f, 0x8c, 0xa3, 0xa5, 0x7d, 0x69, 0xd5, 0x95, 0x3b,
		0x07, 0x58, 0xb3, 0x40, 0x86, 0xac, 0x1d, 0xf7, 0x30, 0x37, 0x6b, 0xe4, 0x88, 0xd9, 0xe7, 0x89,
		0xe1, 0x1b, 0x83, 0x49, 0x4c, 0x3f, 0xf8, 0xfe, 0x8d, 0x53, 0xaa, 0x90, 0xca, 0xd8, 0x85, 0x61,
		0x20, 0x71, 0x67, 0xa4, 0x2d, 0x2b, 0x09, 0x5b, 0xcb, 0x9b, 0x25, 0xd0, 0xbe, 0xe5, 0x6c, 0x52,
		0x59, 0xa6, 0x74, 0xd2, 0xe6, 0xf4, 0xb4, 0xc0, 0xd1, 0x66, 0xaf, 0xc2, 0x39, 0x4b, 0x63, 0xb6,
	}};
	return t;
}

// product in GF(2)[x]/(x^8+x^7+x^6+x+1)
inline uint8_t gf(uint8_t a, uint8_t b)
{
	unsigned p = 0;
	for (int i = 0; i < 8; i++) if (b >> i & 1) p ^= unsigned(a) << i;
	for (int i = 14; i >= 8; i--) if (p >> i & 1) p ^= 0x1c3u << (i - 8);
	return uint8_t(p);
}
inline B128 step_s(B128 b)
{
	B128 o;
	for (int i = 0; i < 16; i++) o.set(i, pi()[b.at(i)]);
	return o;
}
inline B128 step_r(B128 b)
{
	// l(a15..a0) = 148 a15 + 32 a14 + 133 a13 + 16 a12 + 194 a11 + 192 a10 + 1 a9 + 251 a8 + ...
	static const uint8_t c[16] = {148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1};
	uint8_t l = 0;
	for (int i = 0; i < 16; i++) l ^= gf(b.at(15 - i), c[i]);
	return {b.lo >> 8 | b.hi << 56, b.hi >> 8 | uint64_t(l) << 56};
}
inline B128 step_l_slow(B128 b)
{
	for (int i = 0; i < 16; i++) b = step_r(b);
	return b;
}
struct LTab {
	B128 t[16][256];
	LTab()
	{
		for (int i = 0; i < 16; i++)
			for (int v = 0; v < 256; v++) {
				B128 b;
				b.set(i, uint8_t(v));
				t[i][v] = step_l_slow(b);
			}
	}
};
inline B128 step_l(B128 b)
{
	static const LTab tab;
	B128 o;
	for (int i = 0; i < 16; i++) o = o ^ tab.t[i][b.at(i)];
	return o;
}
// iteration constants C_first..C_last applied to the pair (k1, k2)
inline std::pair<B128, B128> key_steps(B128 a1, B128 a0, int first, int last)
{
	for (int i = first; i <= last; i++) {
		const B128 ci = step_l({uint64_t(i), 0});
		const B128 t = step_l(step_s(a1 ^ ci)) ^ a0;
		a0 = a1;
		a1 = t;
	}
	return {a1, a0};
}
struct Kuznyechik {
	std::array<B128, 10> k;
	Kuznyechik(B128 k1, B128 k2)
	{
		k[0] = k1;
		k[1] = k2;
		for (int i = 1; i <= 4; i++) {
			const auto p = key_steps(k[size_t(2 * i - 2)], k[size_t(2 * i - 1)], 8 * i - 7, 8 * i);
			k[size_t(2 * i)] = p.first;
			k[size_t(2 * i + 1)] = p.second;
		}
	}
	B128 enc(B128 b) const
	{
		for (size_t i = 0; i < 9; i++) b = step_l(step_s(b ^ k[i]));
		return b ^ k[9];
	}
	// MAC over blocks; the last one is complete or (already padded) incomplete
	B128 omac(const std::vector<B128> &blocks, bool last_complete) const
	{
		const B128 k1 = dbl128(enc({0, 0})), k2 = dbl128(k1);
		B128 c;
		for (size_t i = 0; i + 1 < blocks.size(); i++) c = enc(c ^ blocks[i]);
		return enc(c ^ blocks.back() ^ (last_complete ? k1 : k2));
	}
	B128 ctr(uint64_t iv, uint64_t n) const { return enc({n, iv}); }
};

inline B128 hex128(const std::string &s)
{
	return {std::stoull(s.substr(16, 16), nullptr, 16), std::stoull(s.substr(0, 16), nullptr, 16)};
}

inline std::string selftest()
{
	// Magma, GOST R 34.12 A.2, GOST R 34.13 A.2 (as integers)
	const Magma m({{0xffeeddcc, 0xbbaa9988, 0x77665544, 0x33221100, 0xf0f1f2f3, 0xf4f5f6f7, 0xf8f9fafb, 0xfcfdfeff}}, rows_z());
	auto e = [&](uint64_t b) { return m.enc(b); };
	if (m.enc(0xfedcba9876543210) != 0x4ee901e5c2d8ca3d) return "magma enc";
	if (m.dec(0x4ee901e5c2d8ca3d) != 0xfedcba9876543210) return "magma dec";
	const uint64_t p[4] = {0x92def06b3c130a59, 0xdb54c704f8189d20, 0x4a98fb2e67a8024c, 0x8912409b17b57e41};
	const uint64_t ce[4] = {0x2b073f0494f372a0, 0xde70e715d3556e48, 0x11d8d9e9eacfbc1e, 0x7c68260996c67efb};
	const uint64_t cf[4] = {0xdb37e0e266903c83, 0x0d46644c1f9a089c, 0x24bdd2035315d38b, 0xbcc0321421075505};
	Bytes pb(32), eb(32), fb(32);
	for (size_t i = 0; i < 4; i++) { put_le64(&pb[8 * i], p[i]); put_le64(&eb[8 * i], ce[i]); put_le64(&fb[8 * i], cf[i]); }
	if (ecb(e, pb) != eb) return "ecb";
	if (cfb(e, {0x1234567890abcdef, 0x234567890abcdef1}, pb, false) != fb) return "cfb";
	if (cfb(e, {0x1234567890abcdef, 0x234567890abcdef1}, fb, true) != pb) return "cfb dec";
	if (omac64_whole(e, pb) != 0x154e72102030c5bb) return "magma mac";
	if (rol11(substitute(rows_z(), 0x87654321 + 0xfefdfcfbu - 0xfefdfcfbu)) != rol11(substitute(rows_z(), 0x87654321))) return "sub";
	// t-transformation examples of GOST R 34.12 A.2.1
	if (substitute(rows_z(), 0xfdb97531) != 0x2a196f34 || substitute(rows_z(), 0x2a196f34) != 0xebd9f03a ||
		substitute(rows_z(), 0xebd9f03a) != 0xb039bb3d || substitute(rows_z(), 0xb039bb3d) != 0x68695433) return "t";
	// g-transformation examples of A.2.2
	auto g = [](uint32_t k, uint32_t a) { return rol11(substitute(rows_z(), k + a)); };
	if (g(0x87654321, 0xfedcba98) != 0xfdcbc20c || g(0xfdcbc20c, 0x87654321) != 0x7e791a4b) return "g";
	// GOST 28147-89 with its test table
	const Magma t({{0xE0F67504, 0xFAFB3850, 0x90C3C7D2, 0x3DCAB3ED, 0x42124715, 0x8A1EAE91, 0x9ECD792F, 0xBDEFBCD2}}, rows_test());
	auto et = [&](uint64_t b) { return t.enc(b); };
	if (t.enc(0x0001020304050607) != 0xea4af215984c8c4b || t.enc(0x08090a0b0c0d0e0f) != 0xd12ebcb30957c31e) return "gost89 enc";
	Bytes q(16), c(16);
	put_le64(&q[0], 0x33333333CCCCCCCC); put_le64(&q[8], 0xCCCCCCCC33333333);
	put_le64(&c[0], 0x4B64BD1043224C3B); put_le64(&c[8], 0x0FAA6CD95548EB99);
	if (cfb(et, {0x47E3A8FFC3A7802A}, q, false) != c) return "gost89 cfb";
	// both forms of both tables, and the rows are permutations
	for (const Rows &r : {rows_z(), rows_test()}) {
		if (expand(collapse(r)) != r) return "collapse";
		for (const auto &row : r) {
			unsigned seen = 0;
			for (uint8_t x : row) seen |= 1u << x;
			if (seen != 0xffff) return "row is not a permutation";
		}
	}
	// 16 rounds: undoing them with the reversed key order gives the block back
	for (uint64_t b : {uint64_t(0), uint64_t(0x0123456789abcdef)}) {
		uint64_t x = m.imit16(b);
		uint32_t n1 = uint32_t(x >> 32), n2 = uint32_t(x);
		for (int r = 15; r >= 0; r--) { const uint32_t v = m(n1, r % 8) ^ n2; n2 = n1; n1 = v; }
		if ((uint64_t(n1) << 32 | n2) != b) return "imit16";
	}
	// Kuznyechik, GOST R 34.12 A.1
	auto H = hex128;
	if (step_s(H("ffeeddccbbaa99881122334455667700")) != H("b66cd8887d38e8d77765aeea0c9a7efc")) return "S";
	if (step_s(H("b66cd8887d38e8d77765aeea0c9a7efc")) != H("559d8dd7bd06cbfe7e7b262523280d39")) return "S";
	if (step_s(H("559d8dd7bd06cbfe7e7b262523280d39")) != H("0c3322fed531e4630d80ef5c5a81c50b")) return "S";
	if (step_r(H("00000000000000000000000000000100")) != H("94000000000000000000000000000001")) return "R";
	if (step_r(H("94000000000000000000000000000001")) != H("a5940000000000000000000000000000")) return "R";
	if (step_r(H("64a59400000000000000000000000000")) != H("0d64a594000000000000000000000000")) return "R";
	if (step_l(H("64a59400000000000000000000000000")) != H("d456584dd0e3e84cc3166e4b7fa2890d")) return "L";
	if (step_l(H("d456584dd0e3e84cc3166e4b7fa2890d")) != H("79d26221b87b584cd42fbc4ffea5de9a")) return "L";
	if (step_l(H("0e93691a0cfc60408b7b68f66b513c13")) != H("e6a8094fee0aa204fd97bcb0b44b8580")) return "L";
	unsigned seen[256] = {0};
	for (uint8_t x : pi()) if (seen[x]++) return "pi is not a permutation";
	const Kuznyechik k(H("8899aabbccddeeff0011223344556677"), H("fedcba98765432100123456789abcdef"));
	const char *rk[10] = {"8899aabbccddeeff0011223344556677", "fedcba98765432100123456789abcdef",
		"db31485315694343228d6aef8cc78c44", "3d4553d8e9cfec6815ebadc40a9ffd04", "57646468c44a5e28d3e59246f429f1ac",
		"bd079435165c6432b532e82834da581b", "51e640757e8745de705727265a0098b1", "5a7925017b9fdd3ed72a91a22286f984",
		"bb44e25378c73123a5f32f73cdb6e517", "72e9dd7416bcf45b755dbaa88e4a4043"};
	for (size_t i = 0; i < 10; i++) if (k.k[i] != H(rk[i])) return "key schedule";
	const char *kp[4] = {"1122334455667700ffeeddccbbaa9988", "00112233445566778899aabbcceeff0a",
		"112233445566778899aabbcceeff0a00", "2233445566778899aabbcceeff0a0011"};
	const char *kc[4] = {"7f679d90bebc24305a468d42b9d4edcd", "b429912c6e0032f9285452d76718d08b",
		"f0ca33549d247ceef3f5a5313bd4b157", "d0b09ccde830b9eb3a02c4c5aa8ada98"};
	const char *kt[4] = {"f195d8bec10ed1dbd57b5fa240bda1b8", "85eee733f6a13e5df33ce4b33c45dee4",
		"a5eae88be6356ed3d5e877f13564a3a5", "cb91fab1f20cbab6d1c6d15820bdba73"};
	std::vector<B128> msg;
	for (uint64_t i = 0; i < 4; i++) {
		if (k.enc(H(kp[i])) != H(kc[i])) return "kuznyechik enc";
		if ((k.ctr(0x1234567890abcef0, i) ^ H(kp[i])) != H(kt[i])) return "kuznyechik ctr";
		msg.push_back(H(kp[i]));
	}
	if (k.omac(msg, true).hi != 0x336f4d296059fbe3) return "kuznyechik mac";
	if (inc({~uint64_t(0), 5}) != B128{0, 6} || inc({~uint64_t(0), ~uint64_t(0)}) != B128{0, 0}) return "inc";
	return "";
}

}  // namespace ref
