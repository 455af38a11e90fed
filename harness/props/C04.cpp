// Key text.
#include "../gens.h"
#include <climits>
#include <goost/magma/BlkEncrypted.h>
using namespace gen;

const char *const pbt::property_id = "C04";
const char *const pbt::property_rule =
	"a 64-digit key text in lower, upper or mixed case is generated; it is used well-formed (key words, key halves, round functions and a "
	"ciphertext of both ciphers compared with the number it spells; word indices outside 0..7 must be refused) or made malformed: digits "
	"removed or added (any length 0..200, in particular 63, 65, 32, 128), or one or several characters replaced by non-digits (spaces, signs, x, g, NUL, "
	"bytes above 127, at word boundaries and anywhere); malformed text must be refused by every use, again and again. Non-trivial: malformed, or not all zero digits.";

static const char bad_chars[] = " \t\n\r\v\f+-xXgGhzZ.,;:/@`_'\"OolI|{}[]()%$#!?*&^~=<>\\";

static std::string malform(Case &c, const std::string &good, std::string &how)
{
	std::string s = good;
	switch (c.below(9)) {
	case 0: {  // shorter
		const size_t n = c.below(3) ? c.below(64) : (c.below(2) ? 63 : 32);
		s.resize(n);
		how = "cut to " + std::to_string(n);
		break;
	}
	case 1: {  // longer, digits only
		const size_t n = c.below(3) ? c.range(1, 130) : (c.below(2) ? 1 : 64);
		for (size_t i = 0; i < n; i++) s += good[i % 64];
		how = std::to_string(n) + " more digits";
		break;
	}
	case 2: {  // a character removed or inserted somewhere
		const size_t p = c.below(64);
		if (c.below(2)) s.erase(p, 1);
		else s.insert(p, 1, good[c.below(64)]);
		how = "one digit more or less at " + std::to_string(p);
		break;
	}
	case 3: {  // surrounding white space, prefix
		const char *x[] = {" ", "\n", "0x", "\t", "+", "-"};
		const std::string w = x[c.below(6)];
		if (c.below(2)) s = w + s; else s += w;
		if (c.below(2)) s.resize(64);
		// when the cut removed only what was appended the text is good again: make it bad for certain
		if (s == good) s[c.below(64)] = ' ';
		if (s.size() == 64 && s.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos) s[63] = ' ';
		how = "white space, sign or prefix added";
		break;
	}
	case 4: {  // sign, blank or prefix where a word or half begins (or ends)
		const size_t word = c.below(8) * 8;
		const char *x[] = {" ", "+", "-", "0x", "0X", " -", "\t", "  "};
		const std::string w = x[c.below(8)];
		const size_t p = c.below(4) ? word : word + 8 - w.size();
		s.replace(p, w.size(), w);
		how = "word boundary damaged at " + std::to_string(p);
		break;
	}
	case 5: {  // any non-digit byte
		const size_t p = c.below(64);
		unsigned char ch = c.byte();
		while (isxdigit(ch)) ch = static_cast<unsigned char>(ch + 71);
		s[p] = char(ch);
		how = "byte " + std::to_string(ch) + " at " + std::to_string(p);
		break;
	}
	case 6: {  // several
		const size_t n = c.range(2, 12);
		for (size_t i = 0; i < n; i++) s[c.below(64)] = bad_chars[c.below(sizeof bad_chars - 1)];
		how = "several bad characters";
		break;
	}
	case 7: {  // the tail of a word or of the text
		const size_t p = c.below(8) * 8 + 7;
		s[p] = bad_chars[c.below(sizeof bad_chars - 1)];
		how = "last digit of a word damaged";
		break;
	}
	default: {
		const size_t p = c.below(64);
		s[p] = bad_chars[c.below(sizeof bad_chars - 1)];
		how = "bad character at " + std::to_string(p);
		break;
	}
	}
	return s;
}

void pbt::property(Case &c)
{
	const auto k = words(c);
	const std::string good = spell(c, key_text(k));
	const SP<gm::Sbox> sbox = std::make_shared<gm::SboxR3412>();
	const uint64_t b = c.u64();
	if (c.below(3) == 0) {  // well-formed
		c.label("well-formed");
		c.note([&](auto &o) { o << "key text " << good; });
		c.nontrivial(good.find_first_not_of('0') != std::string::npos);
		const ref::Magma m(k, ref::rows_z());
		const gm::KeyDataString kd(good);
		const gm::KeyCachedData kc(std::make_unique<gm::KeyDataString>(good));
		for (int i = 7; i >= 0; i--) {
			same(c, uint64_t(kd.key(i)), uint64_t(k[size_t(i)]), "key word " + std::to_string(i + 1));
			same(c, uint64_t(kc.key(i)), uint64_t(k[size_t(i)]), "cached key word " + std::to_string(i + 1));
		}
		const auto lk = std::make_shared<gm::LazyKey>(good);
		const auto lk2 = std::make_shared<gm::LazyKey>(good, sbox);
		same(c, val(gm::BlkEncrypted(std::make_shared<gm::BlkRaw>(b), lk)), m.enc(b), "encryption with the text key");
		same(c, val(gm::BlkEncrypted(std::make_shared<gm::BlkRaw>(b), lk2)), m.enc(b), "encryption with the text key and table");
		const gk::KeyDataString kk(good);
		const B128 h = {uint64_t(k[2]) << 32 | k[3], uint64_t(k[0]) << 32 | k[1]};
		const B128 l = {uint64_t(k[6]) << 32 | k[7], uint64_t(k[4]) << 32 | k[5]};
		same(c, val(*kk.high()), h, "left half");
		same(c, val(*kk.low()), l, "right half");
		if (c.below(6) == 0)
			same(c, val(*gk::Key(good).encrypt(std::make_shared<gk::BlkRaw>(b, ~b))), ref::Kuznyechik(h, l).enc({b, ~b}), "Kuznyechik with the text key");
		int idx = 0;
		switch (c.below(6)) {
		case 0: idx = -1; break;
		case 1: idx = 8; break;
		case 2: idx = INT_MAX; break;
		case 3: idx = INT_MIN; break;
		case 4: idx = int(c.range(8, 100)); break;
		default: idx = -int(c.range(1, 100)); break;
		}
		c.check(refuses([&] { kd.key(idx); }), "key word index " + std::to_string(idx) + " was not refused");
		same(c, uint64_t(kd.key(3)), uint64_t(k[3]), "key word after a refused index");
		return;
	}
	std::string how;
	const std::string bad = malform(c, good, how);
	c.label("malformed");
	c.label(bad.size() == 64, "malformed with 64 characters");
	c.note([&](auto &o) { o << "key text " << hex(Bytes(bad.begin(), bad.end()), 140) << ": " << how; });
	c.nontrivial();
	// Magma, every way to give text: refused at construction or at the first use, and at every later use
	for (int form = 0; form < 4; form++) {
		SP<gm::LazyKey> key;
		const bool at_ctor = refuses([&] {
			if (form == 0) key = std::make_shared<gm::LazyKey>(bad);
			if (form == 1) key = std::make_shared<gm::LazyKey>(bad, sbox);
			if (form == 2) key = std::make_shared<gm::LazyKey>(std::make_unique<gm::KeyDataString>(bad), sbox);
			if (form == 3) key = std::make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataString>(bad)), sbox);
		});
		if (at_ctor) continue;
		for (int use = 1; use <= 3; use++)
			c.check(refuses([&] { val(gm::BlkEncrypted(std::make_shared<gm::BlkRaw>(b), key)); }),
				"Magma used malformed key text (" + how + "), use " + std::to_string(use) + ", form " + std::to_string(form));
	}
	// no word of the text itself can be had, whichever is asked for first; nor a round made with it
	{
		SP<gm::KeyDataString> kd;
		if (!refuses([&] { kd = std::make_shared<gm::KeyDataString>(bad); })) {
			const int first = int(c.below(8));
			for (int i = 0; i < 8; i++) {
				const int w = (first + i) % 8;
				c.check(refuses([&] { kd->key(w); }), "malformed key text (" + how + ") yields key word " + std::to_string(w + 1));
			}
		}
		SP<gm::KeyCachedData> kc;
		const int w = int(c.below(8));
		if (!refuses([&] { kc = std::make_shared<gm::KeyCachedData>(std::make_unique<gm::KeyDataString>(bad)); }))
			c.check(refuses([&] { kc->key(w); }), "malformed key text (" + how + "), cached, yields key word " + std::to_string(w + 1));
	}
	{
		SP<gk::Key> key;
		if (!refuses([&] { key = std::make_shared<gk::Key>(bad); }))
			for (int use = 1; use <= 2; use++)
				c.check(refuses([&] { val(*key->encrypt(std::make_shared<gk::BlkRaw>(b, b))); }),
					"Kuznyechik used malformed key text (" + how + "), use " + std::to_string(use));
		SP<gk::KeyDataString> kd;
		if (!refuses([&] { kd = std::make_shared<gk::KeyDataString>(bad); })) {
			const bool high_first = c.below(2);
			for (int i = 0; i < 2; i++)
				c.check(refuses([&] { val((i == 0) == high_first ? *kd->high() : *kd->low()); }), "malformed key text (" + how + ") yields a Kuznyechik key half");
		}
	}
}

std::string pbt::property_once()
{
	// every byte value at every position; every length 0..200
	Case c(nullptr, 0);
	uint64_t n = 0;
	const std::string good = "0123456789abcdefFEDCBA98765432100f1e2d3c4b5a69788796a5b4c3d2e1f0";
	auto probe = [&](const std::string &s, bool well) {
		n++;
		bool m = refuses([&] {
			const auto key = std::make_shared<gm::LazyKey>(s);
			val(gm::BlkEncrypted(std::make_shared<gm::BlkRaw>(uint64_t(1)), key));
		});
		if (well) m |= refuses([&] { gm::KeyDataString(s).key(0); });
		const bool k = refuses([&] {
			const gk::KeyDataString kd(s);
			const bool l = refuses([&] { val(*kd.low()); });
			const bool h = refuses([&] { val(*kd.high()); });
			c.check(l == h, "one Kuznyechik key half of " + hex(Bytes(s.begin(), s.end()), 200) + " is refused, the other is not");
			if (l) throw std::runtime_error("refused");
		});
		if (!well)
			for (int w = 0; w < 8; w++)
				c.check(refuses([&] { gm::KeyDataString(s).key(w); }), "key word " + std::to_string(w + 1) + " of malformed text " + hex(Bytes(s.begin(), s.end()), 200));
		c.check(m != well, std::string("Magma ") + (well ? "refuses good" : "accepts malformed") + " key text " + hex(Bytes(s.begin(), s.end()), 200));
		c.check(k != well, std::string("Kuznyechik ") + (well ? "refuses good" : "accepts malformed") + " key text " + hex(Bytes(s.begin(), s.end()), 200));
	};
	for (size_t p = 0; p < 64; p++)
		for (int b = 0; b < 256; b++) {
			std::string s = good;
			s[p] = char(b);
			const bool digit = (b >= '0' && b <= '9') || (b >= 'a' && b <= 'f') || (b >= 'A' && b <= 'F');
			probe(s, digit);
			if (digit) {
				const uint32_t w = uint32_t(std::stoul(s.substr(p / 8 * 8, 8), nullptr, 16));
				same(c, uint64_t(gm::KeyDataString(s).key(int(p / 8))), uint64_t(w), "key word of " + s);
				const gk::KeyDataString kd(s);
				same(c, val(p < 32 ? *kd.high() : *kd.low()), ref::hex128(s.substr(p / 32 * 32, 32)), "key half of " + s);
			}
		}
	std::string s;
	for (size_t l = 0; l <= 200; l++) {
		probe(s, l == 64);
		s += "0123456789abcdef"[l % 16];
	}
	return std::to_string(n) + " key texts: every byte value at every position, every length 0..200";
}
