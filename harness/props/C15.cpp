// GOST 28147-89 MAC.
#include "../gens.h"
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C15";
const char *const pbt::property_rule =
	"key, table, key form and data of 0 bytes to 64 KiB are generated (special contents or chosen chaining values); the MAC is compared with the reference (16 rounds, zero padding to whole blocks and to at "
	"least two), and the 16-round transformation of generated blocks with the reference rounds. Non-trivial: at least one byte of data or a non-zero block.";

void pbt::property(Case &c)
{
	const ref::Magma m = magma(c);
	const auto key = lazy_key(c, m);
	note_magma(c, m, key);
	if (c.below(4) == 0) {
		const uint64_t b = c.u64();
		c.note([&](auto &o) { o << "block " << hex(b); });
		c.nontrivial(b != 0);
		c.label("single block transformation");
		const goost::gost89::ImitedBlock ib(gm::BlkRaw(b), key.key);
		same(c, val(ib.value()), m.imit16(b), "16 rounds of " + hex(b));
		same(c, val(ib.value()), m.imit16(b), "16 rounds again");
		return;
	}
	Bytes d = bytes(c, 8, 66000);
	if (c.below(4) == 3) {
		uint64_t chain = 0;
		for (size_t i = 0; i + 8 <= d.size(); i += 8) {
			const uint64_t v = ref::le64(&d[i]);
			ref::put_le64(&d[i], v ^ chain);
			chain = m.imit16(v);
		}
		c.label("chosen chaining values");
	}
	c.note([&](auto &o) { o << "data " << hex(d); });
	c.nontrivial(!d.empty());
	c.label(d.size() % 8 ? "incomplete last block" : "whole blocks");
	c.label(d.size() <= 8, "at most one block");
	const Bytes want = ref::imit89(m, d);
	const goost::gost89::DataImit mac(d, key.key);
	same(c, mac.value(), want, "MAC");
	same(c, mac.value(), want, "MAC computed again");
}

std::string pbt::property_once()
{
	Case c(nullptr, 0);
	uint64_t n = 0;
	Bytes d(8 * 66000 + 3);
	fill(d, 5);
	const ref::Magma m({{1, 2, 3, 4, 5, 6, 7, 8}}, ref::rows_test());
	const auto key = make_shared<gm::LazyKey>(std::vector<uint32_t>(m.key.begin(), m.key.end()), make_shared<UserSbox>(m.rows));
	auto one = [&](size_t len) {
		const Bytes x(d.begin(), d.begin() + long(len));
		same(c, goost::gost89::DataImit(x, key).value(), ref::imit89(m, x), "MAC of " + std::to_string(len) + " bytes");
		n++;
	};
	for (size_t len = 0; len <= 400; len++) one(len);
	for (size_t len : {4095u, 4096u, 32768u, 65535u, 65536u, 70000u, 8 * 66000u, 8 * 66000u + 3}) one(len);
	return std::to_string(n) + " fixed messages (every length 0..400; up to 66000 blocks)";
}
