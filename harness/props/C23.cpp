// Keys, tables, containers and byte blocks of a wrong size.
#include "../gens.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
using namespace gen;
using std::make_shared;

const char *const PBT_HERE(property_id) = "C23";
const char *const PBT_HERE(property_rule) =
	"key material of any size is generated: 0..20 native key words (plain, cached, in a key used by every mode, block operation and MAC), collapsed tables of 0..140 bytes (whole, or assembled from four lookups of different "
	"sizes, single, rotated, or in a key), nibble rows of 0..24 entries each, containers with key and table of any size, byte blocks of 0..24 bytes; contents are special at the end (zeros, repeated) so that "
	"a padded or truncated reading gives the answer of some other key. An operation that needs a word or entry which was not given must throw, at construction or at each of several uses; with enough given the "
	"right answer is required, or an exception when the size is not the right one. Non-trivial: a size that is not the right one.";

namespace {

// what a use gave: nothing (refused) or its bytes
struct Out {
	bool refused = false;
	Bytes d;
};
template <class F> Out attempt(F f)
{
	Out o;
	try {
		o.d = f();
	} catch (const pbt::Failure &) {
		throw;
	} catch (const std::exception &) {
		o.refused = true;
	}
	return o;
}
enum class Need { exact, exact_or_refused, refused };
void judge(Case &c, Need need, const Out &o, const Bytes &want, const std::string &what)
{
	if (o.refused) {
		c.label("refused");
		c.check(need != Need::exact, what + ": refused though the sizes are right");
		return;
	}
	c.check(need != Need::refused, what + ": used though something it needs was not given; result " + hex(o.d));
	same(c, o.d, want, what);
}
Bytes le64(uint64_t v) { Bytes b(8); ref::put_le64(&b[0], v); return b; }

size_t size(Case &c, size_t right, size_t most)
{
	switch (c.below(8)) {
	case 0: return right;
	case 1: return right - 1;
	case 2: return right + 1;
	case 3: return 0;
	case 4: return right / 2;
	case 5: return std::min(most, right * 2);
	default: return c.below(most + 1);
	}
}
Bytes some(Case &c, size_t n)
{
	Bytes b = content(c, n);
	if (n && c.chance(1, 3)) {
		const size_t k = c.below(n) + 1;
		for (size_t i = n - k; i < n; i++) b[i] = 0;
	}
	return b;
}

// the round of a key with a table that may lack entries
struct Partial {
	std::vector<uint32_t> key;
	std::array<Bytes, 4> col;      // the collapsed table, one copy per lookup
	mutable bool missing = false;
	uint32_t substitute(uint32_t v) const
	{
		uint32_t r = 0;
		for (unsigned j = 0; j < 4; j++) {
			const unsigned b = v >> (8 * j) & 255;
			const size_t lo = (b & 15) * 4 + j, hi = (b >> 4) * 4 + j;
			if (lo >= col[j].size() || hi >= col[j].size()) { missing = true; continue; }
			r |= uint32_t((col[j][lo] & 15) | (col[j][hi] & 0xf0)) << (8 * j);
		}
		return r;
	}
	uint32_t round(uint32_t v, int i) const
	{
		if (size_t(i) >= key.size()) { missing = true; return 0; }
		return ref::rol11(substitute(v + key[size_t(i)]));
	}
	bool right() const
	{
		bool r = key.size() == 8;
		for (const auto &x : col) r = r && x.size() == 64;
		return r;
	}
};
Need need(const Partial &p) { return p.missing || p.key.size() < 8 ? Need::refused : p.right() ? Need::exact : Need::exact_or_refused; }

// all 32 rounds by hand: one known use of the key
uint64_t crypt(const Partial &p, uint64_t b, bool enc)
{
	uint32_t a = uint32_t(b), h = uint32_t(b >> 32);
	for (int i = 0; i < 32; i++) {
		const int k = enc ? (i < 24 ? i % 8 : 7 - i % 8) : (i < 8 ? i : 7 - i % 8);
		const uint32_t t = h ^ p.round(a, k);
		h = a;
		a = t;
	}
	return uint64_t(a) << 32 | h;
}

void native_words(Case &c)
{
	const size_t n = size(c, 8, 20);
	std::vector<uint32_t> w(n);
	{
		uint64_t s = c.word64();
		for (auto &x : w) x = uint32_t(pbt::splitmix(s));
		if (n && c.chance(1, 3)) for (size_t i = c.below(n); i < n; i++) w[i] = 0;
	}
	const bool cached = c.below(2);
	c.note([&](auto &o) { o << n << " native words" << (cached ? ", cached" : ""); });
	c.nontrivial(n != 8);
	SP<gm::KeyData> kd;
	if (refuses([&] {
		if (cached) kd = make_shared<gm::KeyCachedData>(std::make_unique<gm::KeyDataNative>(w));
		else kd = make_shared<gm::KeyDataNative>(w);
	})) {
		c.check(n != 8, "eight key words were refused");
		return;
	}
	const size_t asks = c.range(1, 12);
	for (size_t i = 0; i < asks; i++) {
		const int index = c.chance(1, 8) ? int(c.u32()) : int(c.below(n + 4)) - 1;
		const Out o = attempt([&] { return le64(kd->key(index)); });
		const bool given = index >= 0 && size_t(index) < n;
		const Need nd = !given || (index >= 8 && n == 8) ? Need::refused : n == 8 ? Need::exact : Need::exact_or_refused;
		judge(c, nd, o, given ? le64(w[size_t(index)]) : Bytes(), "word " + std::to_string(index) + " of " + std::to_string(n) + (cached ? ", cached" : ""));
	}
}

// a key of any number of words with a table that may be short, in everything that uses a key
void whole_key(Case &c)
{
	Partial p;
	p.key.resize(c.below(3) == 0 ? 8 : size(c, 8, 20));
	{
		uint64_t s = c.word64();
		for (auto &x : p.key) x = uint32_t(pbt::splitmix(s));
		if (p.key.size() && c.chance(1, 3)) for (size_t i = c.below(p.key.size()); i < p.key.size(); i++) p.key[i] = 0;
	}
	const size_t ts = c.below(3) == 0 ? size(c, 64, 140) : 64;
	const bool full = ts == 64;
	const Bytes t = full ? ref::collapse(rows(c)) : some(c, ts);
	p.col.fill(t);
	c.nontrivial(!p.right());
	const uint64_t form = c.below(3);
	c.note([&](auto &o) { o << p.key.size() << " key words, table of " << ts << " bytes, form " << form; });
	SP<gm::LazyKey> key;
	const bool at_ctor = refuses([&] {
		const SP<gm::Sbox> sbox = make_shared<gm::SboxTwisted>(std::make_unique<gm::SboxByte>(t));
		if (form == 0) key = make_shared<gm::LazyKey>(p.key, sbox);
		else if (form == 1) key = make_shared<gm::LazyKey>(std::make_unique<gm::KeyDataNative>(p.key), sbox);
		else key = make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataNative>(p.key)), sbox);
	});
	if (at_ctor) {
		c.check(!p.right(), "a key of the right size was refused");
		return;
	}
	const uint64_t b = c.u64();
	const Bytes data = content(c, c.range(1, 30));
	const std::vector<uint64_t> regs{c.u64(), c.u64()};
	const auto blk = make_shared<gm::BlkRaw>(b);
	auto enc = [&](uint64_t x) { return crypt(p, x, true); };
	const size_t uses = c.range(1, 4);
	for (size_t u = 0; u < uses; u++) {
		const uint64_t op = c.below(8);
		for (int again = 0; again < 2; again++) {
			p.missing = false;
			Bytes want;
			Out o;
			std::string what = "use " + std::to_string(op);
			switch (op) {
			case 0: want = le64(crypt(p, b, true)); o = attempt([&] { return le64(val(gm::BlkEncrypted(blk, key))); }); break;
			case 1: want = le64(crypt(p, b, false)); o = attempt([&] { return le64(val(gm::BlkDecrypted(blk, key))); }); break;
			case 2: want = le64(crypt(p, b, true)); o = attempt([&] { return le64(gm::EncryptionBase(key).transform(b)); }); break;
			case 3:
			case 4: {
				const bool old = op == 4;
				const std::vector<uint64_t> r(regs.begin(), regs.begin() + (old ? 1 : 2));
				want = ref::cfb(enc, r, data, false);
				o = attempt([&] {
					SP<goost::Sink> s;
					if (old) s = make_shared<goost::gost89::CFBSink>(make_shared<MemSink>(), key, regs[0]);
					else s = make_shared<gm::CFBSink>(make_shared<MemSink>(), key, regs[0], regs[1]);
					return record(c, s->write(to_data(data))->finalize(), "CFB");
				});
				break;
			}
			case 5: {
				want = ref::cfb(enc, regs, data, true);
				o = attempt([&] { return to_bytes(gm::CFBSource(make_shared<MemSource>(data), key, regs[0], regs[1]).read(SIZE_MAX).first); });
				break;
			}
			case 6: {
				const Bytes first(data.size() < 8 ? 8 : 8 * (data.size() / 8), uint8_t(b));
				want = ref::ecb(enc, first);
				o = attempt([&] { return record(c, make_shared<gm::ECBSink>(make_shared<MemSink>(), key)->write(to_data(first))->finalize(), "ECB"); });
				break;
			}
			default: {
				// the GOST 28147-89 MAC uses every word as well: sixteen rounds per block
				Bytes m = data;
				m.resize(std::max<size_t>(16, (m.size() + 7) / 8 * 8));
				uint64_t chain = 0;
				for (size_t i = 0; i < m.size(); i += 8) {
					chain ^= ref::le64(&m[i]);
					uint32_t lo = uint32_t(chain), hi = uint32_t(chain >> 32);
					for (int k = 0; k < 16; k++) {
						const uint32_t x = hi ^ p.round(lo, k % 8);
						hi = lo;
						lo = x;
					}
					chain = uint64_t(hi) << 32 | lo;
				}
				want = le64(chain);
				o = attempt([&] { return goost::gost89::DataImit(data, key).value(); });
				break;
			}
			}
			judge(c, need(p), o, want, what + " of a key with " + std::to_string(p.key.size()) + " words and a table of " + std::to_string(ts) + " bytes");
		}
	}
}

void tables(Case &c)
{
	Partial p;
	const uint64_t form = c.below(3);
	const Bytes t = some(c, size(c, 64, 140));
	for (auto &x : p.col) {
		x = t;
		if (form == 1) x = some(c, c.below(3) == 0 ? 64 : size(c, 64, 140));
	}
	c.note([&](auto &o) { o << "table of " << p.col[0].size() << ", " << p.col[1].size() << ", " << p.col[2].size() << ", " << p.col[3].size() << " bytes, form " << form; });
	SP<gm::Sbox> s;
	bool right = true;
	for (const auto &x : p.col) right = right && x.size() == 64;
	c.nontrivial(!right);
	const bool at_ctor = refuses([&] {
		auto make = [&]() -> std::unique_ptr<const gm::Sbox> {
			if (form == 1) return std::make_unique<gm::SboxByte>(
				std::make_unique<gm::SboxByte64Tab>(p.col[0], 0), std::make_unique<gm::SboxByte64Tab>(p.col[1], 1),
				std::make_unique<gm::SboxByte64Tab>(p.col[2], 2), std::make_unique<gm::SboxByte64Tab>(p.col[3], 3));
			return std::make_unique<gm::SboxByte>(t);
		};
		if (form == 2) s = make_shared<gm::SboxTwisted>(make());
		else s = make();
	});
	if (at_ctor) {
		c.check(!right, "a table of 64 bytes was refused");
		return;
	}
	const size_t n = c.range(1, 10);
	for (size_t i = 0; i < n; i++) {
		const uint32_t v = c.chance(1, 3) ? uint32_t(0x11111111u * c.below(16)) : c.u32();
		p.missing = false;
		uint32_t want = p.substitute(v);
		if (form == 2) want = ref::rol11(want);
		judge(c, p.missing ? Need::refused : right ? Need::exact : Need::exact_or_refused, attempt([&] { return le64(s->transform(v)); }), le64(want), "word " + hex(v, 8));
	}
	// one lookup on its own
	const int col = int(c.below(4));
	SP<gm::SboxByte64Tab> tab;
	const Bytes &x = p.col[size_t(col)];
	if (refuses([&] { tab = make_shared<gm::SboxByte64Tab>(x, col); })) {
		c.check(x.size() != 64, "a lookup of 64 bytes was refused");
		return;
	}
	const int index = int(c.byte());
	const size_t lo = size_t((index & 15) * 4 + col), hi = size_t((index >> 4) * 4 + col);
	const bool missing = lo >= x.size() || hi >= x.size();
	judge(c, missing ? Need::refused : x.size() == 64 ? Need::exact : Need::exact_or_refused, attempt([&] { return le64(tab->translate(index)); }),
		missing ? Bytes() : le64(uint64_t((x[lo] & 15) | (x[hi] & 0xf0))), "byte " + std::to_string(index) + " of a lookup of " + std::to_string(x.size()) + " bytes");
}

void nibble_rows(Case &c)
{
	std::vector<std::vector<int>> r(8);
	bool right = true;
	const bool one = c.below(2);
	const size_t which = c.below(8);
	uint64_t s = c.word64();
	for (size_t j = 0; j < 8; j++) {
		r[j].resize(one && j != which ? 16 : size(c, 16, 24));
		right = right && r[j].size() == 16;
		for (auto &x : r[j]) x = int(pbt::splitmix(s) & 15);
	}
	c.nontrivial(!right);
	c.note([&](auto &o) { o << "rows of"; for (auto &x : r) o << " " << x.size(); });
	SP<gm::Sbox> b;
	if (refuses([&] { b = make_shared<gm::SboxNibble>(r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]); })) {
		c.check(!right, "rows of 16 were refused");
		return;
	}
	const size_t n = c.range(1, 10);
	for (size_t i = 0; i < n; i++) {
		const uint32_t v = c.chance(1, 3) ? uint32_t(0x11111111u * c.below(16)) : c.u32();
		bool missing = false;
		uint32_t want = 0;
		for (unsigned j = 0; j < 8; j++) {
			const size_t k = v >> (4 * j) & 15;
			if (k >= r[j].size()) missing = true;
			else want |= uint32_t(r[j][k]) << (4 * j);
		}
		judge(c, missing ? Need::refused : right ? Need::exact : Need::exact_or_refused, attempt([&] { return le64(b->transform(v)); }), le64(want), "word " + hex(v, 8));
	}
}

class AnyContainer final : public gm::Container {
public:
	AnyContainer(const Bytes &k, const Bytes &t) : k(k), t(t) {}
	Data key() const override { return to_data(k); }
	Data mask() const override { return Data(32, std::byte(0)); }
	Data sbox() const override { return to_data(t); }
private:
	const Bytes k, t;
};
void container(Case &c)
{
	const uint64_t wrong = c.below(4);  // key, table, both, none
	const size_t kn = wrong == 0 || wrong == 2 ? size(c, 32, 70) : 32, tn = wrong == 1 || wrong == 2 ? size(c, 64, 140) : 64;
	Bytes k = some(c, kn), t = tn == 64 ? ref::collapse(rows(c)) : some(c, tn);
	const bool right = kn == 32 && tn == 64;
	c.nontrivial(!right);
	c.note([&](auto &o) { o << "container with a key of " << kn << " bytes and a table of " << tn; });
	const Bytes data = content(c, 8 * c.range(1, 3));
	SP<goost::Source> s;
	if (refuses([&] { s = make_shared<gm::ECBSource>(make_shared<MemSource>(data), make_shared<AnyContainer>(k, t)); })) {
		c.check(!right, "a container of the right sizes was refused");
		return;
	}
	Bytes want;
	if (right) {
		Partial p;
		for (size_t i = 0; i < 32; i += 4) p.key.push_back(uint32_t(k[i]) << 24 | uint32_t(k[i + 1]) << 16 | uint32_t(k[i + 2]) << 8 | k[i + 3]);
		p.col.fill(t);
		want = ref::ecb([&](uint64_t b) { return crypt(p, b, false); }, data);
	}
	for (int i = 0; i < 2; i++) {
		const Out o = attempt([&] {
			Bytes all;
			SP<goost::Source> q = s;
			while (true) {
				const auto r = q->read(SIZE_MAX);
				if (r.first.empty()) break;
				const Bytes x = to_bytes(r.first);
				all.insert(all.end(), x.begin(), x.end());
				q = r.second;
			}
			return all;
		});
		judge(c, right ? Need::exact : Need::refused, o, want, "container with a key of " + std::to_string(kn) + " bytes and a table of " + std::to_string(tn));
	}
}

void byte_block(Case &c)
{
	const Bytes b = some(c, size(c, 8, 24));
	c.nontrivial(b.size() != 8);
	c.note([&](auto &o) { o << "block of " << hex(b); });
	SP<gm::Block> x;
	if (refuses([&] { x = make_shared<gm::BlkRaw>(b); })) {
		c.check(b.size() != 8, "a block of eight bytes was refused");
		return;
	}
	const Need nd = b.size() < 8 ? Need::refused : b.size() == 8 ? Need::exact : Need::exact_or_refused;
	for (int i = 0; i < 2; i++)
		judge(c, nd, attempt([&] { return le64(val(*x)); }), b.size() < 8 ? Bytes() : Bytes(b.begin(), b.begin() + 8), "block of " + std::to_string(b.size()) + " bytes");
}

}  // namespace

void PBT_HERE(property)(Case &c)
{
	switch (c.below(8)) {
	case 0: c.label("native words"); native_words(c); break;
	case 1:
	case 2: c.label("key"); whole_key(c); break;
	case 3:
	case 4: c.label("collapsed table"); tables(c); break;
	case 5: c.label("nibble rows"); nibble_rows(c); break;
	case 6: c.label("container"); container(c); break;
	default: c.label("byte block"); byte_block(c); break;
	}
}

std::string PBT_HERE(property_once)()
{
	// every size of everything once
	Case c(nullptr, 0);
	uint64_t n = 0;
	Bytes t(200);
	fill(t, 3);
	for (size_t k = 0; k <= 130; k++) {
		const Bytes x(t.begin(), t.begin() + long(k));
		for (int col = 0; col < 4; col++)
			for (int i = 0; i < 256; i++) {
				const size_t lo = size_t((i & 15) * 4 + col), hi = size_t((i >> 4) * 4 + col);
				const bool missing = lo >= k || hi >= k;
				const Out o = attempt([&] { return le64(gm::SboxByte64Tab(x, col).translate(i)); });
				judge(c, missing ? Need::refused : k == 64 ? Need::exact : Need::exact_or_refused, o,
					missing ? Bytes() : le64(uint64_t((x[lo] & 15) | (x[hi] & 0xf0))), "byte " + std::to_string(i) + " of a lookup of " + std::to_string(k) + " bytes");
				n++;
			}
	}
	for (size_t k = 0; k <= 24; k++)
		for (int i = -3; i < 30; i++) {
			std::vector<uint32_t> w(k);
			for (size_t j = 0; j < k; j++) w[j] = uint32_t(j * 77 + 1);
			const bool given = i >= 0 && size_t(i) < k;
			for (int cached = 0; cached < 2; cached++) {
				const Out o = attempt([&] {
					return le64(cached ? gm::KeyCachedData(std::make_unique<gm::KeyDataNative>(w)).key(i) : gm::KeyDataNative(w).key(i));
				});
				judge(c, !given || (k == 8 && i >= 8) ? Need::refused : k == 8 ? Need::exact : Need::exact_or_refused, o, given ? le64(w[size_t(i)]) : Bytes(), "word " + std::to_string(i) + " of " + std::to_string(k));
				n++;
			}
		}
	for (size_t k = 0; k <= 70; k++)
		for (size_t s = 0; s <= 130; s++) {
			const Out o = attempt([&] {
				return to_bytes(gm::ECBSource(make_shared<MemSource>(Bytes(8, 1)), make_shared<AnyContainer>(Bytes(k, 7), Bytes(s, 9))).read(8).first);
			});
			c.check(o.refused != (k == 32 && s == 64), "container with a key of " + std::to_string(k) + " and a table of " + std::to_string(s) + " bytes");
			n++;
		}
	for (size_t row = 0; row < 8; row++)
		for (size_t k = 0; k <= 20; k++)
			for (unsigned v = 0; v < 16; v++) {
				std::vector<std::vector<int>> r(8, std::vector<int>(16, 5));
				r[row] = std::vector<int>(k, 6);
				const Out o = attempt([&] { return le64(gm::SboxNibble(r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]).transform(v << (4 * row))); });
				const uint32_t want = (0x55555555u & ~(15u << (4 * row))) | 6u << (4 * row);
				judge(c, v >= k ? Need::refused : k == 16 ? Need::exact : Need::exact_or_refused, o, le64(want), "entry " + std::to_string(v) + " of a row of " + std::to_string(k));
				n++;
			}
	return std::to_string(n) + " fixed uses: lookups of 0..130 bytes with every byte, 0..24 key words with every index -3..29, containers of every pair of sizes up to 70 and 130 bytes, rows of 0..20 entries";
}
