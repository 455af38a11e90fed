// Kuznyechik encryption and key schedule.
#include "../gens.h"
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIterKey.h>
using namespace gen;

const char *const pbt::property_id = "C05";
const char *const pbt::property_rule =
	"a 256-bit key (standard, equal halves, special patterns, random) in text or user-supplied form and 1..4 blocks are generated; each ciphertext is compared with "
	"the reference cipher, by Key::encrypt and by the encrypted-block object, with repetitions; or two halves and a range of 0..9 iteration constants (also above the 32 of the cipher) are "
	"generated and the derived round key compared with the reference schedule. Non-trivial: key or block not all zero.";

void pbt::property(Case &c)
{
	if (c.below(4) == 0) {  // key schedule steps
		c.label("key schedule");
		const B128 a = u128(c), b = u128(c);
		int c1, c2;
		if (c.chance(1, 3)) {  // beyond the 32 the cipher itself uses: still C_i = L(i)
			c1 = c.chance(1, 4) ? int(c.range(32, 0x7fffff00)) : int(c.range(25, 600));
			c2 = c1 + int(c.below(10)) - 1;
			c.label("constants above 32");
		} else {
			c1 = int(c.range(1, 32));
			c2 = std::min(32, c1 + int(c.below(10)) - 1);
		}
		c.note([&](auto &o) { o << "halves " << hex(a) << " " << hex(b) << " constants " << c1 << ".." << c2; });
		c.nontrivial(!(a == B128{}) || !(b == B128{}));
		const gk::BlkIterKey k(block128(c, a), block128(c, b), c1, c2);
		const B128 want = ref::key_steps(a, b, c1, c2).first;
		same(c, val(k), want, "round key");
		if (c.chance(1, 4)) same(c, val(k), want, "round key again");
		return;
	}
	const KuzSpec s = kuz_spec(c);
	const ref::Kuznyechik r(s.k1, s.k2);
	const auto key = kuz_key(c, s);
	const size_t nb = c.range(1, 4);
	const size_t rounds = c.chance(1, 12) ? c.range(2, 5) : 1;
	c.note([&](auto &o) { o << "key " << s.text(); });
	bool zero = s.k1 == B128{} && s.k2 == B128{};
	std::vector<B128> blocks;
	for (size_t i = 0; i < nb; i++) {
		blocks.push_back(u128(c));
		zero &= blocks.back() == B128{};
		c.note([&](auto &o) { o << "block " << hex(blocks.back()); });
	}
	c.nontrivial(!zero);
	c.label("encryption");
	for (size_t n = 0; n < rounds; n++)
		for (const B128 &b : blocks) {
			const B128 want = r.enc(b);
			const auto in = block128(c, b);
			if (c.below(2)) same(c, val(*key->encrypt(in)), want, "encryption of " + hex(b));
			else {
				const gk::BlkEncrypted e(in, key);
				same(c, val(e), want, "encrypted block of " + hex(b));
				if (c.chance(1, 5)) same(c, val(e), want, "encrypted block again");
			}
		}
}

std::string pbt::property_once()
{
	Case c(nullptr, 0);
	uint64_t n = 0;
	// every single-byte block value at one position each, one key: all substitution entries on the first round
	const KuzSpec s{{0, 0}, {0, 0}};
	const ref::Kuznyechik r(s.k1, s.k2);
	const auto key = std::make_shared<gk::Key>(s.text());
	for (int v = 0; v < 256; v++) {
		B128 b;
		b.set(v % 16, uint8_t(v));
		b.set((v + 5) % 16, uint8_t(~v));
		same(c, val(*key->encrypt(std::make_shared<gk::BlkRaw>(b.lo, b.hi))), r.enc(b), "block " + hex(b));
		n++;
	}
	// single-bit keys
	for (int bit = 0; bit < 256; bit += 5) {
		KuzSpec t;
		B128 &h = bit < 128 ? t.k1 : t.k2;
		h.set(bit % 128 / 8, uint8_t(1 << (bit % 8)));
		const gk::Key k(t.text());
		same(c, val(*k.encrypt(std::make_shared<gk::BlkRaw>())), ref::Kuznyechik(t.k1, t.k2).enc({}), "key " + t.text());
		n++;
	}
	// all 32 constants, alone and in fours
	for (int i = 1; i <= 32; i++) {
		const B128 a{uint64_t(i) * 0x123456789, 7}, b{3, ~uint64_t(i)};
		const auto ba = std::make_shared<gk::BlkRaw>(a.lo, a.hi), bb = std::make_shared<gk::BlkRaw>(b.lo, b.hi);
		same(c, val(gk::BlkIterKey(ba, bb, i, i)), ref::key_steps(a, b, i, i).first, "constant " + std::to_string(i));
		const int to = std::min(32, i + 3);
		same(c, val(gk::BlkIterKey(ba, bb, i, to)), ref::key_steps(a, b, i, to).first, "constants from " + std::to_string(i));
		n += 2;
	}
	B128 x;
	for (int i = 0; i < 3000; i++) {
		const B128 y = val(*key->encrypt(std::make_shared<gk::BlkRaw>(x.lo, x.hi)));
		same(c, y, r.enc(x), "use number " + std::to_string(i) + " of one key");
		x = y;
		n++;
	}
	return std::to_string(n) + " fixed vectors (substitution entries, single-bit keys, all 32 constants, a chain of 3000 with one key)";
}
