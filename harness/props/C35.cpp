// Answers do not depend on how library and program are built.
#include "../scenes.h"
#include <cstring>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
// what scenes do not do: MACs of the empty message and of messages with an incomplete block, and key material of a wrong size
#undef PBT_HERE
#define PBT_HERE(name) name
namespace c13 {
#include "C13.cpp"
}
namespace c14 {
#include "C14.cpp"
}
namespace c23 {
#include "C23.cpp"
}
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C35";
const char *const pbt::property_rule =
	"a scene of ordinary use (block expressions, piped sinks and sources, MACs, streams, parts of keys, refusals), one to three in a row, or key or block text with any "
	"byte value anywhere in it, or blocks made of memory that holds objects of eleven types and is overwritten, or MACs of any message (C13, C14), or key material of any size (C23), is generated and run in each of nine builds of library and program: GCC and Clang, the one's library under the other's program, no to "
	"full optimisation, for size, at link time, assertions on in one, both or neither, plain char unsigned, other language standards, filled automatic variables, "
	"fortified and with the assertions of the standard library, static library, shared library, wholly static program. The answers must be the reference's in every build. Non-trivial: an answer was compared or a "
	"refusal seen, in a scene with at least two steps, a text with at least one digit, memory that is not all the same.";

namespace {

class Counting final : public scene::Env {
public:
	explicit Counting(Case &c) : Env(c) {}
	void attempt(const std::function<void()> &f) override { n++; f(); }
	size_t n = 0;
};

bool digits(const std::string &s) { return s.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos; }

// hex text of n digits as the number it spells, most significant word first
uint64_t number(const std::string &s, size_t at, size_t n)
{
	uint64_t r = 0;
	for (size_t i = at; i < at + n; i++) {
		const char ch = s[i];
		r = r << 4 | uint64_t(ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' ? ch - 'a' + 10 : ch - 'A' + 10);
	}
	return r;
}

// 0: Magma key, 1: Kuznyechik key, 2: Magma block, 3: Kuznyechik block
void text_means(Case &c, unsigned kind, const std::string &s)
{
	const size_t most = kind < 2 ? 64 : kind == 2 ? 16 : 32;
	const bool good = digits(s) && s.size() <= most && (kind >= 2 || s.size() == 64);
	std::string shown;
	for (unsigned char ch : s) shown += ch > 32 && ch < 127 ? std::string(1, char(ch)) : "\\x" + hex(Bytes{ch});
	std::string full = s;
	if (good) full.insert(0, most - s.size(), '0');
	switch (kind) {
	case 0: {
		const auto use = [&] { return val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(7), make_shared<gm::LazyKey>(s))); };
		if (!good) { c.check(refuses(use), "key text " + shown + " was not refused"); return; }
		ref::Magma m({}, ref::rows_z());
		for (size_t i = 0; i < 8; i++) m.key[i] = uint32_t(number(full, 8 * i, 8));
		same(c, use(), m.enc(7), "encryption with key text " + shown);
		return;
	}
	case 1: {
		const auto use = [&] { return val(*make_shared<gk::Key>(s)->encrypt(make_shared<gk::BlkRaw>(7, 9))); };
		if (!good) { c.check(refuses(use), "key text " + shown + " was not refused"); return; }
		same(c, use(), ref::Kuznyechik({number(full, 16, 16), number(full, 0, 16)}, {number(full, 48, 16), number(full, 32, 16)}).enc({7, 9}), "encryption with key text " + shown);
		return;
	}
	case 2: {
		const auto use = [&] { return val(gm::BlkString(s)); };
		if (!good) c.check(refuses(use), "block text " + shown + " was not refused");
		else same(c, use(), number(full, 0, 16), "block text " + shown);
		return;
	}
	default: {
		const auto use = [&] { return val(gk::BlkString(s)); };
		if (!good) c.check(refuses(use), "block text " + shown + " was not refused");
		else same(c, use(), B128{number(full, 16, 16), number(full, 0, 16)}, "block text " + shown);
		return;
	}
	}
}

struct Mixed { uint16_t a; uint8_t b; int8_t d; float e; };

// writes the words as objects of type T, one assignment each
template <class T> void put(T *v, size_t n, uint64_t x, uint64_t y)
{
	constexpr size_t each = 8 / sizeof(T);
	for (size_t i = 0; i < n; i++) v[i] = T((i < each ? x : y) >> (i % each * 8 * sizeof(T) % 64));
}
void put(Mixed *v, size_t n, uint64_t x, uint64_t y)
{
	for (size_t i = 0; i < n; i++) {
		const uint64_t w = i ? y : x;
		v[i].a = uint16_t(w);
		v[i].b = uint8_t(w >> 16);
		v[i].d = int8_t(w >> 24);
		v[i].e = float(w >> 48);
	}
}
void put(float *v, size_t n, uint64_t x, uint64_t y)
{
	for (size_t i = 0; i < n; i++) v[i] = float(i < 2 ? x : y) + float(i);
}

// A block made of memory that holds objects of type T, which are overwritten and read again
template <class T, class Blk, class V> __attribute__((noinline)) void typed(Case &c, uint64_t x, uint64_t y, const V &value, const char *type)
{
	constexpr size_t n = Blk::size / sizeof(T);
	static_assert(n >= 1, "fits");
	alignas(16) T v[n];
	put(v, n, x, y);
	const SP<const Blk> first = make_shared<const Blk>(static_cast<const void *>(v));
	put(v, n, ~y, x * 3);
	const auto second = Blk(static_cast<const void *>(v)).value();
	const SP<const Blk> third = make_shared<const Blk>(static_cast<const void *>(v));
	put(v, n, 0, 0);
	const auto fourth = Blk(static_cast<const void *>(v)).value();
	uint64_t words[3][2] = {{x, y}, {~y, x * 3}, {0, 0}};
	for (auto &w : words) {
		volatile T copy[n];
		T plain[n];
		put(plain, n, w[0], w[1]);
		for (size_t i = 0; i < sizeof plain; i++) reinterpret_cast<volatile char *>(copy)[i] = reinterpret_cast<const char *>(plain)[i];
		w[1] = 0;
		for (size_t i = 0; i < sizeof plain; i++) reinterpret_cast<char *>(w)[i] = reinterpret_cast<volatile char *>(copy)[i];
	}
	const std::string what = std::string("block made of memory holding ") + type;
	same(c, value(first->value()), value(words[0]), what);
	same(c, value(second), value(words[1]), what + " overwritten");
	same(c, value(third->value()), value(words[1]), what + " overwritten (copied)");
	same(c, value(fourth), value(words[2]), what + " overwritten again");
}

struct MagmaBlocks {
	uint64_t operator()(const std::pair<uint32_t, uint32_t> &v) const { return v.first | uint64_t(v.second) << 32; }
	uint64_t operator()(const uint64_t (&w)[2]) const { return w[0]; }
};
struct KuzBlocks {
	B128 operator()(const std::pair<uint64_t, uint64_t> &v) const { return {v.first, v.second}; }
	B128 operator()(const uint64_t (&w)[2]) const { return {w[0], w[1]}; }
};

template <class Blk, class V> void memory(Case &c, unsigned type, uint64_t x, uint64_t y, const V &v)
{
	switch (type) {
	case 0: typed<uint8_t, Blk>(c, x, y, v, "bytes"); return;
	case 1: typed<uint16_t, Blk>(c, x, y, v, "16-bit words"); return;
	case 2: typed<int32_t, Blk>(c, x, y, v, "signed words"); return;
	case 3: typed<uint32_t, Blk>(c, x, y, v, "words"); return;
	case 4: typed<uint64_t, Blk>(c, x, y, v, "64-bit words"); return;
	case 5: typed<unsigned long long, Blk>(c, x, y, v, "long long words"); return;
	case 6: typed<Mixed, Blk>(c, x, y, v, "structures"); return;
	case 7: typed<std::byte, Blk>(c, x, y, v, "std::byte"); return;
	case 8: {  // anywhere in a longer run of bytes
		std::vector<uint8_t> run(48, 0x5a);
		const uint64_t w[2] = {x, y};
		const size_t at = y % 17;
		memcpy(&run[at], w, 16);
		const Blk b(static_cast<const void *>(&run[at]));
		run.assign(48, 1);
		same(c, v(b.value()), v(w), "block made of bytes at " + std::to_string(at));
		return;
	}
	case 9: typed<float, Blk>(c, x, y, v, "floats"); return;
	default: typed<wchar_t, Blk>(c, x, y, v, "wide characters"); return;
	}
}

std::string some_digits(Case &c, size_t n)
{
	std::string s;
	for (size_t i = 0; i < n; i++) s += "0123456789abcdefABCDEF"[c.byte() % 22];
	return s;
}

}  // namespace

void pbt::property(Case &c)
{
	if (c.chance(1, 5)) {
		const unsigned kind = unsigned(c.below(4));
		std::string s = some_digits(c, kind < 2 ? 64 : c.below(kind == 2 ? 17 : 33));
		const size_t n = s.empty() ? 0 : c.below(3);
		for (size_t i = 0; i < n; i++) s[c.below(s.size())] = char(c.byte());
		c.label(digits(s) ? "well-formed text" : "malformed text");
		c.note([&](auto &o) { o << "text " << kind << ": " << hex(Bytes(s.begin(), s.end())); });
		text_means(c, kind, s);
		c.nontrivial(!s.empty());
		return;
	}
	if (c.chance(1, 8)) {
		const unsigned kind = unsigned(c.below(22));
		const uint64_t x = c.word64(), y = c.word64();
		c.label("blocks made of memory");
		c.note([&](auto &o) { o << "memory " << kind << " " << hex(x) << " " << hex(y); });
		if (kind < 11) memory<gm::BlkRaw>(c, kind, x, y, MagmaBlocks());
		else memory<gk::BlkRaw>(c, kind - 11, x, y, KuzBlocks());
		c.nontrivial(x != y);
		return;
	}
	if (c.chance(1, 6)) {
		const unsigned kind = unsigned(c.below(4));
		c.label(kind == 0 ? "Kuznyechik MAC of any message" : kind == 1 ? "Magma MAC of any message" : "key material of any size");
		if (kind == 0) c13::property(c);
		else if (kind == 1) c14::property(c);
		else c23::property(c);
		c.known.clear();  // C13 and C14 are about the padding
		return;
	}
	Counting e(c);
	const size_t n = c.below(4) ? 1 : c.range(2, 3);
	for (size_t i = 0; i < n; i++) {
		const unsigned kind = unsigned(c.below(scene::kinds));
		c.note([&](auto &o) { o << scene::name(kind); });
		c.label(scene::name(kind));
		scene::run(e, kind);
	}
	c.nontrivial(e.n >= 2);
}

std::string pbt::property_once()
{
	Case c(nullptr, 0);
	uint64_t n = 0;
	for (unsigned kind = 0; kind < 4; kind++) {
		const size_t most = kind < 2 ? 64 : kind == 2 ? 16 : 32;
		for (size_t at : {size_t(0), most / 2 - 1, most / 2, most - 1}) {
			for (unsigned b = 0; b < 256; b++) {
				std::string s;
				for (size_t i = 0; i < most; i++) s += "0123456789abcdefABCDEF"[(i * 7 + 3) % 22];
				s[at] = char(b);
				text_means(c, kind, s);
				n++;
			}
		}
	}
	return std::to_string(n) + " fixed texts (every byte value at four places of every kind of text); " + c13::property_once() + "; " + c14::property_once() + "; " + c23::property_once();
}
