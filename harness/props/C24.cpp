// Block text.
#include "../gens.h"
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkXored.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C24";
const char *const pbt::property_rule =
	"text of 0..16 (Magma) or 0..32 (Kuznyechik) hexadecimal digits in lower, upper or mixed case is generated and must have the value it spells, leading zeros assumed, directly and inside copies, xors, caches and encryption; "
	"or it is made malformed: more digits than a block has (one to 150, leading zeros too), or one or several characters that are not digits (blanks, signs, x, NUL, any other byte) inserted, replaced, put in front or "
	"behind, at the boundary of the halves and in text of every length; malformed text must be refused at construction or by every use, again and again, directly and inside other blocks. Non-trivial: malformed, or not all zeros.";

namespace {

const char bad_chars[] = " \t\n\r\v\f+-xXgGhzZ.,;:/@`_'\"OolI|{}[]()%$#!?*&^~=<>\\";

bool digit(char ch) { return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'); }
bool well_formed(const std::string &s, size_t most)
{
	if (s.size() > most) return false;
	for (char ch : s) if (!digit(ch)) return false;
	return true;
}
std::string digits(Case &c, size_t n)
{
	static const char alphabet[] = "0123456789abcdefABCDEF";
	std::string s;
	const uint64_t kind = c.below(6);
	uint64_t r = kind < 4 ? c.word64() : 0;
	const char one = alphabet[c.below(22)];
	for (size_t i = 0; i < n; i++) s += kind < 4 ? alphabet[pbt::splitmix(r) % 22] : kind == 4 ? one : '0';
	if (kind == 5 && n) s[c.below(n)] = one;
	if (kind == 0) for (size_t i = 0; i < n / 2; i++) s[i] = '0';
	return s;
}
char odd_char(Case &c)
{
	if (c.below(3) != 0) return bad_chars[c.below(sizeof bad_chars - 1)];
	unsigned char ch = c.byte();
	while (isxdigit(ch)) ch = static_cast<unsigned char>(ch + 71);
	return char(ch);
}
std::string malformed(Case &c, size_t most, std::string &how)
{
	size_t n = c.below(2) ? most : c.below(most + 1);
	std::string s = digits(c, n);
	switch (c.below(8)) {
	case 0: {  // too long, digits only
		const size_t more = c.below(3) ? c.range(1, 4) : c.range(1, 150);
		s = digits(c, most + more);
		if (c.below(3) == 0) for (size_t i = 0; i < more; i++) s[i] = '0';
		how = std::to_string(more) + " digits too many";
		break;
	}
	case 1: {  // one put in
		const size_t p = c.below(n + 1);
		s.insert(p, 1, odd_char(c));
		if (c.below(2)) s.resize(std::min(s.size(), most));
		how = "a character put in at " + std::to_string(p);
		break;
	}
	case 2: {  // in front or behind
		static const char *const x[] = {" ", "\n", "0x", "0X", "\t", "+", "-", " 0x", "  ", "h"};
		const std::string w = x[c.below(10)];
		const bool front = c.below(2);
		if (s.size() + w.size() > most && c.below(2)) s.resize(most - w.size());
		s = front ? w + s : s + w;
		how = "surrounded";
		break;
	}
	case 3: {  // at the halves
		static const char *const x[] = {" ", "+", "-", "0x", "0X", " -", "\t", "  "};
		const std::string w = x[c.below(8)];
		s = digits(c, most);
		const size_t p = c.below(3) == 0 ? 0 : c.below(2) ? most / 2 : most / 2 - w.size();
		s.replace(p, w.size(), w);
		how = "damaged at the half, " + std::to_string(p);
		break;
	}
	case 4: {  // several
		const size_t k = c.range(2, 8);
		for (size_t i = 0; i < k && n; i++) s[c.below(n)] = odd_char(c);
		how = "several bad characters";
		break;
	}
	case 5: {  // NUL: the text a C string would end at is well-formed
		s.insert(c.below(n + 1), 1, '\0');
		how = "NUL inside";
		break;
	}
	default: {
		if (n == 0) s = digits(c, n = 1);
		const size_t p = c.below(4) == 0 ? n - 1 : c.below(n);
		s[p] = odd_char(c);
		how = "bad character at " + std::to_string(p);
		break;
	}
	}
	if (well_formed(s, most)) {
		if (s.empty()) s = "g";
		else s[s.size() - 1] = 'g';
	}
	return s;
}

}  // namespace

void pbt::property(Case &c)
{
	const bool kuz = c.below(2);
	const size_t most = kuz ? 32 : 16;
	c.label(kuz ? "Kuznyechik" : "Magma");
	const bool good = c.below(3) == 0;
	std::string how = "well-formed";
	const std::string t = good ? digits(c, c.below(3) ? c.below(most + 1) : most) : malformed(c, most, how);
	c.label(good ? "well-formed" : "malformed");
	c.label(!good && t.size() <= most, "malformed, not too long");
	c.note([&](auto &o) { o << (kuz ? "Kuznyechik" : "Magma") << " text " << hex(Bytes(t.begin(), t.end()), 200) << ": " << how; });
	c.nontrivial(!good || t.find_first_not_of('0') != std::string::npos);
	const B128 want = good ? ref::hex128(std::string(32 - t.size(), '0') + t) : B128{};
	const std::string what = "block text (" + how + ")";
	const uint64_t use = c.below(5);
	const B128 other = u128(c);
	if (kuz) {
		SP<gk::Block> b;
		if (refuses([&] { b = make_shared<gk::BlkString>(t); })) { c.check(!good, what + " refused"); return; }
		SP<gk::Block> x = b;
		B128 expect = want;
		const bool at_ctor = refuses([&] {
			switch (use) {
			case 1: x = make_shared<gk::BlkRaw>(b); break;
			case 2: x = make_shared<gk::BlkXored>(b, make_shared<gk::BlkRaw>(other.lo, other.hi)); expect = want ^ other; break;
			case 3: x = make_shared<gk::BlkCached>(b); break;
			case 4:
				if (c.below(6) == 0) {
					x = make_shared<gk::BlkEncrypted>(b, make_shared<gk::Key>(hex(other) + hex(other)));
					expect = ref::Kuznyechik(other, other).enc(want);
				}
				break;
			default: break;
			}
		});
		if (at_ctor) { c.check(!good, what + " refused inside another block"); return; }
		for (int i = 1; i <= 3; i++) {
			B128 got;
			const bool r = refuses([&] { got = val(*x); });
			if (good) { c.check(!r, what + " refused"); same(c, got, expect, what); }
			else c.check(r, what + " was used, use " + std::to_string(i) + ": " + hex(got));
		}
		return;
	}
	SP<gm::Block> b;
	if (refuses([&] { b = make_shared<gm::BlkString>(t); })) { c.check(!good, what + " refused"); return; }
	SP<gm::Block> x = b;
	uint64_t expect = want.lo;
	const bool at_ctor = refuses([&] {
		switch (use) {
		case 1: x = make_shared<gm::BlkRaw>(b); break;
		case 2: x = make_shared<gm::BlkXored>(b, make_shared<gm::BlkRaw>(other.lo)); expect = want.lo ^ other.lo; break;
		case 3: x = make_shared<gm::BlkSwapped>(b); expect = want.lo << 32 | want.lo >> 32; break;
		case 4: {
			const std::array<uint32_t, 8> k{{1, 2, 3, 4, 5, 6, 7, uint32_t(other.hi)}};
			x = make_shared<gm::BlkEncrypted>(b, make_shared<gm::LazyKey>(key_text(k)));
			expect = ref::Magma(k, ref::rows_z()).enc(want.lo);
			break;
		}
		default: break;
		}
	});
	if (at_ctor) { c.check(!good, what + " refused inside another block"); return; }
	for (int i = 1; i <= 3; i++) {
		uint64_t got = 0;
		const bool r = refuses([&] { got = val(*x); });
		if (good) { c.check(!r, what + " refused"); same(c, got, expect, what); }
		else c.check(r, what + " was used, use " + std::to_string(i) + ": " + hex(got));
	}
}

std::string pbt::property_once()
{
	// every byte at every position of text of every length; every length up to 200
	Case c(nullptr, 0);
	uint64_t n = 0;
	auto probe = [&](const std::string &s) {
		n++;
		for (size_t most : {size_t(16), size_t(32)}) {
			const bool good = well_formed(s, most);
			B128 got;
			const bool r = refuses([&] { got = most == 16 ? B128{val(gm::BlkString(s)), 0} : val(gk::BlkString(s)); });
			c.check(r != good, (most == 16 ? "Magma " : "Kuznyechik ") + std::string(good ? "refuses good" : "accepts malformed") + " block text " + hex(Bytes(s.begin(), s.end()), 200));
			if (good) same(c, got, ref::hex128(std::string(32 - s.size(), '0') + s), "block text " + s);
		}
	};
	const std::string digits32 = "0123456789abcdefFEDCBA9876543210";
	for (size_t len = 1; len <= 33; len++)
		for (size_t p = 0; p < len; p++)
			for (int b = 0; b < 256; b++) {
				std::string s = (digits32 + "7").substr(0, len);
				s[p] = char(b);
				probe(s);
			}
	for (size_t len = 1; len <= 200; len++) {
		probe(std::string(len, '0'));
		probe(std::string(len - 1, '0') + "1");
		probe("1" + std::string(len - 1, '0'));
	}
	return std::to_string(n) + " block texts: every byte value at every position of every length up to 33, every length up to 200";
}
