// All forms of a substitution table substitute the same way.
#include "../gens.h"
using namespace gen;

const char *const pbt::property_id = "C03";
const char *const pbt::property_rule =
	"a table and 1..24 words are generated; every form of the table (nibble rows, collapsed bytes, four lookup objects of the library "
	"or of the user, the latter good for indexes 0..255 only), plain and rotated, is applied to every word and compared with the reference substitution. Non-trivial: the table is not "
	"degenerate (at least two rows differ or a row is not constant) and some word is non-zero.";

// A lookup object over a table of 256 entries, as a user writes it: the index is a byte.
class ByteTab final : public gm::SboxByte::Tab {
public:
	ByteTab(const std::array<uint8_t, 16> &lo, const std::array<uint8_t, 16> &hi) : t(256)
	{
		for (size_t i = 0; i < 256; i++) t[i] = uint32_t(lo[i & 15] | hi[i >> 4] << 4);
	}
	uint32_t translate(int index) const override
	{
		if (index < 0 || index > 255) throw pbt::Failure{"a lookup object was asked for entry " + std::to_string(index) + " of its 256"};
		return t[size_t(index)];
	}
private:
	std::vector<uint32_t> t;
};

void pbt::property(Case &c)
{
	const Rows r = rows(c);
	const Bytes uz = ref::collapse(r);
	std::vector<std::pair<std::string, SP<gm::Sbox>>> plain, rotated;
	auto nib = [&] {
		return std::make_unique<gm::SboxNibble>(row_of(r, 0), row_of(r, 1), row_of(r, 2), row_of(r, 3), row_of(r, 4), row_of(r, 5), row_of(r, 6), row_of(r, 7));
	};
	auto tab = [&](int i) { return std::make_unique<gm::SboxByte64Tab>(uz, i); };
	auto own = [&](size_t i) { return std::make_unique<UserTab>(r[2 * i], r[2 * i + 1]); };
	auto full = [&](size_t i) { return std::make_unique<ByteTab>(r[2 * i], r[2 * i + 1]); };
	auto mixed = [&] { return std::make_unique<gm::SboxByte>(own(0), tab(1), own(2), tab(3)); };
	plain.emplace_back("nibble rows", nib());
	plain.emplace_back("collapsed", std::make_shared<gm::SboxByte>(uz));
	plain.emplace_back("four library lookups", std::make_shared<gm::SboxByte>(tab(0), tab(1), tab(2), tab(3)));
	plain.emplace_back("four own lookups", std::make_shared<gm::SboxByte>(own(0), own(1), own(2), own(3)));
	plain.emplace_back("four own tables of 256 entries", std::make_shared<gm::SboxByte>(full(0), full(1), full(2), full(3)));
	plain.emplace_back("mixed lookups", mixed());
	rotated.emplace_back("rotated nibble rows", std::make_shared<gm::SboxTwisted>(nib()));
	rotated.emplace_back("rotated collapsed", std::make_shared<gm::SboxTwisted>(std::make_unique<gm::SboxByte>(uz)));
	rotated.emplace_back("rotated mixed", std::make_shared<gm::SboxTwisted>(mixed()));
	if (r == ref::rows_z()) rotated.emplace_back("built-in", std::make_shared<gm::SboxR3412>());
	const size_t n = c.range(1, 24);
	c.note([&](auto &o) { o << "table " << hex(uz, 64) << "; words"; });
	bool nz = false, degenerate = true;
	for (size_t i = 1; i < 64; i++) degenerate &= uz[i] == uz[0];
	for (size_t i = 0; i < n; i++) {
		const uint32_t v = c.u32();
		nz |= v != 0;
		c.note([&](auto &o) { o << hex(v, 8); });
		const uint32_t s = ref::substitute(r, v);
		for (int rep = 0; rep < 2; rep++) {
			for (auto &p : plain) same(c, uint64_t(p.second->transform(v)), uint64_t(s), p.first + " of " + hex(v, 8));
			for (auto &p : rotated) same(c, uint64_t(p.second->transform(v)), uint64_t(ref::rol11(s)), p.first + " of " + hex(v, 8));
		}
		for (int j = 0; j < 4; j++) same(c, uint64_t(tab(j)->translate(int(v >> (8 * j) & 255))), uint64_t(s >> (8 * j) & 255), "lookup " + std::to_string(j));
	}
	c.nontrivial(nz && !degenerate);
	c.label(r == ref::rows_z() ? "standard table" : "other table");
}

std::string pbt::property_once()
{
	// the built-in table, standard and test table: every byte at every position, over several backgrounds
	Case c(nullptr, 0);
	uint64_t n = 0;
	const gm::SboxR3412 z;
	for (const Rows &r : {ref::rows_z(), ref::rows_test()}) {
		const gm::SboxByte byte(ref::collapse(r));
		const gm::SboxNibble nib(row_of(r, 0), row_of(r, 1), row_of(r, 2), row_of(r, 3), row_of(r, 4), row_of(r, 5), row_of(r, 6), row_of(r, 7));
		for (uint32_t bg : {0u, 0xffffffffu, 0x13579bdfu, 0xfedcba98u})
			for (int pos = 0; pos < 4; pos++)
				for (uint32_t x = 0; x < 65536; x++) {
					const uint32_t v = (bg & ~(0xffffu << (8 * pos))) | x << (8 * pos);
					const uint32_t s = ref::substitute(r, v);
					same(c, uint64_t(byte.transform(v)), uint64_t(s), "collapsed of " + hex(v, 8));
					same(c, uint64_t(nib.transform(v)), uint64_t(s), "nibble of " + hex(v, 8));
					if (r == ref::rows_z()) same(c, uint64_t(z.transform(v)), uint64_t(ref::rol11(s)), "built-in of " + hex(v, 8));
					n += 3;
				}
	}
	return std::to_string(n) + " substitutions: every 16-bit value at every byte position over four backgrounds, both published tables";
}
