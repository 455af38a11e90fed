// Magma decryption is the inverse of encryption.
#include "../gens.h"
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/EncryptionBase.h>
using namespace gen;

const char *const pbt::property_id = "C02";
const char *const pbt::property_rule =
	"key, table (bijective or not), key form(s) and 1..5 blocks are generated; D(b) is compared with the reference decryption, "
	"D(E(b)) and E(D(b)) with b (also across two key objects of different form and with the integer interface), and "
	"swap-backward-swap-forward with b. Non-trivial: key or block not all zero.";

void pbt::property(Case &c)
{
	const ref::Magma m = magma(c);
	const auto k1 = lazy_key(c, m), k2 = lazy_key(c, m);
	const size_t nb = c.range(1, 5);
	const size_t rounds = c.chance(1, 30) ? c.range(2, 200) : 1;
	bool zero = true;
	for (auto w : m.key) zero &= w == 0;
	c.note([&](auto &o) { o << describe(m) << " [" << k1.form << "] [" << k2.form << "] repeated " << rounds; });
	c.label(m.rows == ref::rows_z() ? "standard table" : "other table");
	c.label(k1.form);
	for (size_t i = 0; i < nb; i++) {
		const uint64_t b = c.u64();
		zero &= b == 0;
		c.note([&](auto &o) { o << "block " << hex(b); });
		const uint64_t d = m.dec(b), e = m.enc(b);
		for (size_t r = 0; r < rounds; r++) {
			const auto in = block64(c, b);
			const auto dec = std::make_shared<gm::BlkDecrypted>(in, k1.key);
			same(c, val(*dec), d, "decryption of " + hex(b));
			same(c, val(gm::BlkDecrypted(std::make_shared<gm::BlkEncrypted>(in, k2.key), k1.key)), b, "decryption of the encryption");
			same(c, val(gm::BlkEncrypted(dec, k2.key)), b, "encryption of the decryption");
			same(c, gm::EncryptionBase(k1.key).transform(val(*dec)), b, "integer encryption of the decryption");
			same(c, val(gm::BlkDecrypted(block64(c, e), k2.key)), b, "decryption of the reference ciphertext");
			const auto f = std::make_shared<gm::BlkForwarded>(in, k1.key);
			const auto back = std::make_shared<gm::BlkBackwarded>(std::make_shared<gm::BlkSwapped>(f), k2.key);
			same(c, val(gm::BlkSwapped(back)), b, "swap, backward, swap after forward");
			const auto bw = std::make_shared<gm::BlkBackwarded>(in, k1.key);
			const auto forth = std::make_shared<gm::BlkForwarded>(std::make_shared<gm::BlkSwapped>(bw), k2.key);
			same(c, val(gm::BlkSwapped(forth)), b, "swap, forward, swap after backward");
			same(c, val(*dec), d, "second value of the decrypted block");
		}
	}
	c.nontrivial(!zero);
}

std::string pbt::property_once()
{
	Case c(nullptr, 0);
	uint64_t n = 0;
	for (int bit = 0; bit < 256 + 64; bit++) {
		std::array<uint32_t, 8> k{};
		uint64_t b = 0;
		if (bit < 256) k[size_t(bit / 32)] = 1u << (bit % 32);
		else b = uint64_t(1) << (bit - 256);
		const ref::Magma m(k, ref::rows_z());
		const auto key = std::make_shared<gm::LazyKey>(key_text(k));
		same(c, val(gm::BlkDecrypted(std::make_shared<gm::BlkRaw>(b), key)), m.dec(b), "single-bit vector");
		n++;
	}
	const ref::Magma m({{0x10, 2, 3, 4, 5, 6, 7, 0x80000001}}, ref::rows_test());
	const SP<gm::LazyKey> key = std::make_shared<gm::LazyKey>(key_text(m.key), std::make_shared<UserSbox>(m.rows));
	uint64_t x = 1;
	for (int i = 0; i < 70000; i++) {
		const uint64_t want = m.dec(x);
		same(c, val(gm::BlkDecrypted(std::make_shared<gm::BlkRaw>(x), key)), want, "use number " + std::to_string(i) + " of one key");
		x = want;
		n++;
	}
	return std::to_string(n) + " fixed decryptions (every single-bit key and block; a chain of 70000 with one key)";
}
