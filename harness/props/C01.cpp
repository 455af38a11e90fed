// Magma block encryption conforms.
#include "../gens.h"
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/EncryptionBase.h>
using namespace gen;

const char *const pbt::property_id = "C01";
const char *const pbt::property_rule =
	"key words, substitution table (standard, test, random permutations, arbitrary or degenerate nibbles) and 1..6 blocks "
	"are generated; 1..3 key objects are built for them in different ways (text, native words, own key data, cached; nibble, "
	"collapsed, own or built-in table) and blocks in different ways; every ciphertext of the block and of the integer interface is "
	"compared with the reference cipher, with repetitions. Non-trivial: the key or a block is not all zero and at least two "
	"(key form, interface, block) combinations are compared.";

void pbt::property(Case &c)
{
	const ref::Magma m = magma(c);
	std::vector<KeyObject> keys;
	const size_t nk = c.range(1, 3);
	for (size_t i = 0; i < nk; i++) keys.push_back(lazy_key(c, m));
	std::vector<uint64_t> blocks;
	const size_t nb = c.range(1, 6);
	for (size_t i = 0; i < nb; i++) blocks.push_back(c.u64());
	size_t rounds = 1;
	switch (c.below(40)) {
	case 37: rounds = c.range(2, 300); break;
	case 38: case 39: rounds = c.range(2, 9); break;
	}
	c.note([&](auto &o) {
		o << describe(m) << "; keys:";
		for (auto &k : keys) o << " [" << k.form << "]";
		o << "; blocks:";
		for (auto b : blocks) o << " " << hex(b);
		o << "; repeated " << rounds;
	});
	bool zero = true;
	for (auto w : m.key) zero &= w == 0;
	for (auto b : blocks) zero &= b == 0;
	c.nontrivial(!zero);
	c.label(rounds > 1, "repeated");
	c.label(m.rows == ref::rows_z() ? "standard table" : "other table");
	for (auto &k : keys) c.label(k.form);

	std::vector<uint64_t> want;
	for (auto b : blocks) want.push_back(m.enc(b));
	for (auto &k : keys)
		for (int i = 0; i < 2; i++) {
			const int ki = int(c.below(8));
			const uint32_t v = c.u32();
			same(c, uint64_t(k.key->transform(v, ki)), uint64_t(m(v, ki)), "round function of key word " + std::to_string(ki + 1) + " [" + k.form + "]");
		}
	std::vector<SP<gm::Block>> kept;
	for (size_t r = 0; r < rounds; r++)
		for (auto &k : keys)
			for (size_t i = 0; i < nb; i++) {
				const auto e = std::make_shared<gm::BlkEncrypted>(block64(c, blocks[i]), k.key);
				same(c, val(*e), want[i], "block encryption of " + hex(blocks[i]) + " [" + k.form + "]");
				const gm::EncryptionBase base(k.key);
				same(c, base.transform(blocks[i]), want[i], "integer encryption of " + hex(blocks[i]) + " [" + k.form + "]");
				if (r == 0) {
					kept.push_back(e);
					same(c, base.transform(blocks[nb - 1 - i]), want[nb - 1 - i], "second use of the encryption object");
				}
			}
	for (size_t i = 0; i < kept.size(); i++) same(c, val(*kept[i]), want[i % nb], "repeated value of an encrypted block");
}

std::string pbt::property_once()
{
	// every key word, every bit of the block and of the key, through both interfaces; then many uses of one key
	uint64_t n = 0;
	Case c(nullptr, 0);
	for (int bit = 0; bit < 256 + 64; bit++) {
		std::array<uint32_t, 8> k{};
		uint64_t b = 0;
		if (bit < 256) k[size_t(bit / 32)] = 1u << (bit % 32);
		else b = uint64_t(1) << (bit - 256);
		const ref::Magma m(k, ref::rows_z());
		const auto key = std::make_shared<gm::LazyKey>(key_text(k));
		same(c, val(gm::BlkEncrypted(std::make_shared<gm::BlkRaw>(b), key)), m.enc(b), "single-bit vector, block interface");
		same(c, gm::EncryptionBase(key).transform(b), m.enc(b), "single-bit vector, integer interface");
		n += 2;
	}
	const ref::Magma m({{1, 2, 3, 4, 5, 6, 7, 0x80000000}}, ref::rows_z());
	const SP<gm::LazyKey> text = std::make_shared<gm::LazyKey>(key_text(m.key));
	const SP<gm::LazyKey> native = std::make_shared<gm::LazyKey>(std::vector<uint32_t>(m.key.begin(), m.key.end()), std::make_shared<gm::SboxR3412>());
	uint64_t x = 1;
	for (int i = 0; i < 70000; i++) {
		const uint64_t want = m.enc(x);
		same(c, val(gm::BlkEncrypted(std::make_shared<gm::BlkRaw>(x), i & 1 ? text : native)), want, "use number " + std::to_string(i) + " of one key");
		same(c, gm::EncryptionBase(i & 1 ? native : text).transform(x), want, "use number " + std::to_string(i) + " of one key (integer)");
		x = want;
		n += 2;
	}
	return std::to_string(n) + " fixed encryptions (every single-bit key and block; a chain of 70000 with one key)";
}
