// Block algebra and nesting.
#include "../gens.h"
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkXored.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C06";
const char *const pbt::property_rule =
	"a random expression graph (2..14 nodes, sharing allowed) over the blocks of one cipher is generated: leaves are blocks built every way (words, pair, block, "
	"possibly unaligned memory, bytes, 0..16/32 hex digits), inner nodes xor of 2..6 blocks, shift by 0..63/127, swap, increment, S, R, L, caching, "
	"iteration key, encryption, decryption, 8 rounds forward/backward; every node is compared with the same function on integers. Non-trivial: some leaf is "
	"non-zero and a node has another inner node as argument.";

static uint64_t eight(const ref::Magma &m, uint64_t b, bool back)
{
	uint32_t n1 = uint32_t(b), n2 = uint32_t(b >> 32);
	for (int i = 0; i < 8; i++) {
		const uint32_t t = m(n1, back ? 7 - i : i) ^ n2;
		n2 = n1;
		n1 = t;
	}
	return uint64_t(n2) << 32 | n1;
}

static void magma_graph(Case &c)
{
	struct Node { SP<gm::Block> b; uint64_t v; bool inner; };
	std::vector<Node> g;
	const ref::Magma m = magma(c);
	const auto key = lazy_key(c, m).key;
	const size_t n = c.range(2, 14);
	bool nz = false, nested = false;
	for (size_t i = 0; i < n; i++) {
		const uint64_t op = g.empty() ? 0 : c.below(12);
		std::string what;
		if (op <= 2) {  // leaf
			uint64_t v = c.u64();
			SP<gm::Block> b;
			switch (c.below(4)) {
			case 0: {  // text with fewer digits
				const size_t d = c.below(17);
				const uint64_t t = d == 0 ? 0 : d == 16 ? v : v & ((uint64_t(1) << (4 * d)) - 1);
				const std::string s = d == 0 ? "" : spell(c, hex(t, int(d)));
				v = t;
				b = make_shared<gm::BlkString>(s);
				what = "text '" + s + "'";
				break;
			}
			case 1: {  // memory at any alignment, exact size
				const size_t off = c.below(8);
				const auto mem = std::make_unique<uint8_t[]>(off + 8);
				ref::put_le64(mem.get() + off, v);
				b = make_shared<gm::BlkRaw>(static_cast<const void *>(mem.get() + off));
				what = "memory";
				break;
			}
			default: b = block64(c, v); what = "raw"; break;
			}
			nz |= v != 0;
			g.push_back({b, v, false});
			what += " " + hex(v);
		} else {
			auto arg = [&]() -> const Node & { const auto &a = g[g.size() - 1 - c.below(g.size())]; nested |= a.inner; return a; };
			const Node a = arg();
			switch (op) {
			case 3: case 4: {
				const size_t k = c.range(2, 6);
				const Node b = arg();
				uint64_t v = a.v ^ b.v;
				Node x[4];
				for (size_t j = 0; j + 2 < k; j++) { x[j] = arg(); v ^= x[j].v; }
				SP<gm::Block> r;
				if (k == 2) r = make_shared<gm::BlkXored>(a.b, b.b);
				if (k == 3) r = make_shared<gm::BlkXored>(a.b, b.b, x[0].b);
				if (k == 4) r = make_shared<gm::BlkXored>(a.b, b.b, x[0].b, x[1].b);
				if (k == 5) r = make_shared<gm::BlkXored>(a.b, b.b, x[0].b, x[1].b, x[2].b);
				if (k == 6) r = make_shared<gm::BlkXored>(a.b, b.b, x[0].b, x[1].b, x[2].b, x[3].b);
				g.push_back({r, v, true});
				what = "xor of " + std::to_string(k);
				break;
			}
			case 5: case 6: {
				const int s = int(c.below(3) ? c.range(1, 31) : c.below(64));
				g.push_back({make_shared<gm::BlkShifted>(a.b, s), a.v << s, true});
				what = "shift by " + std::to_string(s);
				break;
			}
			case 7: g.push_back({make_shared<gm::BlkSwapped>(a.b), a.v << 32 | a.v >> 32, true}); what = "swap"; break;
			case 8: g.push_back({make_shared<gm::BlkEncrypted>(a.b, key), m.enc(a.v), true}); what = "encrypt"; break;
			case 9: g.push_back({make_shared<gm::BlkDecrypted>(a.b, key), m.dec(a.v), true}); what = "decrypt"; break;
			case 10:
				if (c.below(2)) { g.push_back({make_shared<gm::BlkForwarded>(a.b, key), eight(m, a.v, false), true}); what = "forward"; }
				else { g.push_back({make_shared<gm::BlkBackwarded>(a.b, key), eight(m, a.v, true), true}); what = "backward"; }
				break;
			default: g.push_back({make_shared<gm::BlkRaw>(a.b), a.v, true}); what = "raw of block"; break;
			}
		}
		c.note([&](auto &o) { o << what; });
		c.label("magma " + what.substr(0, what.find(' ')));
		same(c, val(*g.back().b), g.back().v, "magma node " + std::to_string(i) + " (" + what + ")");
	}
	for (size_t i = 0; i < g.size(); i++) same(c, val(*g[i].b), g[i].v, "magma node " + std::to_string(i) + " evaluated again");
	c.nontrivial(nz && nested);
}

static void kuz_graph(Case &c)
{
	struct Node { SP<gk::Block> b; B128 v; bool inner; double cost; };
	std::vector<Node> g;
	KuzSpec spec;
	SP<gk::Key> key;
	std::unique_ptr<ref::Kuznyechik> r;
	const size_t n = c.range(2, 12);
	bool nz = false, nested = false;
	for (size_t i = 0; i < n; i++) {
		const uint64_t op = g.empty() ? 0 : c.below(16);
		std::string what;
		if (op <= 2) {
			B128 v = u128(c);
			SP<gk::Block> b;
			switch (c.below(4)) {
			case 0: {
				const size_t d = c.below(33);
				const std::string s = spell(c, hex(v)).substr(32 - d);
				v = ref::hex128(std::string(32 - d, '0') + s);
				b = make_shared<gk::BlkString>(s);
				what = "text '" + s + "'";
				break;
			}
			case 1: {
				const size_t off = c.below(8);
				const auto mem = std::make_unique<uint8_t[]>(off + 16);
				ref::put_le64(mem.get() + off, v.lo);
				ref::put_le64(mem.get() + off + 8, v.hi);
				b = make_shared<gk::BlkRaw>(static_cast<const void *>(mem.get() + off));
				what = "memory";
				break;
			}
			default: b = block128(c, v); what = "raw"; break;
			}
			nz |= !(v == B128{});
			g.push_back({b, v, false, 0});
			what += " " + hex(v);
		} else {
			auto arg = [&]() -> const Node & { const auto &a = g[g.size() - 1 - c.below(g.size())]; nested |= a.inner; return a; };
			const Node a = arg();
			switch (op) {
			case 3: case 4: {
				const size_t k = c.range(2, 6);
				const Node b = arg();
				B128 v = a.v ^ b.v;
				double cost = a.cost + b.cost;
				Node x[4];
				for (size_t j = 0; j + 2 < k; j++) { x[j] = arg(); v = v ^ x[j].v; cost += x[j].cost; }
				SP<gk::Block> r2;
				if (k == 2) r2 = make_shared<gk::BlkXored>(a.b, b.b);
				if (k == 3) r2 = make_shared<gk::BlkXored>(a.b, b.b, x[0].b);
				if (k == 4) r2 = make_shared<gk::BlkXored>(a.b, b.b, x[0].b, x[1].b);
				if (k == 5) r2 = make_shared<gk::BlkXored>(a.b, b.b, x[0].b, x[1].b, x[2].b);
				if (k == 6) r2 = make_shared<gk::BlkXored>(a.b, b.b, x[0].b, x[1].b, x[2].b, x[3].b);
				g.push_back({r2, v, true, cost});
				what = "xor of " + std::to_string(k);
				break;
			}
			case 5: case 6: {
				const int s = int(c.below(3) ? c.range(1, 63) : c.below(128));
				g.push_back({make_shared<gk::BlkShifted>(a.b, s), ref::shl(a.v, s), true, a.cost});
				what = "shift by " + std::to_string(s);
				break;
			}
			case 7: case 8: g.push_back({make_shared<gk::BlkIncremented>(a.b), ref::inc(a.v), true, a.cost}); what = "increment"; break;
			case 9: g.push_back({make_shared<gk::BlkS>(a.b), ref::step_s(a.v), true, a.cost}); what = "S"; break;
			case 10: g.push_back({make_shared<gk::BlkR>(a.b), ref::step_r(a.v), true, a.cost + 1}); what = "R"; break;
			case 11: g.push_back({make_shared<gk::BlkL>(a.b), ref::step_l(a.v), true, a.cost + 16}); what = "L"; break;
			case 12: g.push_back({make_shared<gk::BlkCached>(a.b), a.v, true, 0}); what = "cached"; break;
			case 13:
				if (!key) { spec = kuz_spec(c); key = kuz_key(c, spec); r = std::make_unique<ref::Kuznyechik>(spec.k1, spec.k2); }
				g.push_back({make_shared<gk::BlkEncrypted>(a.b, key), r->enc(a.v), true, a.cost + 150});
				what = "encrypt";
				break;
			case 14: {
				const Node b = arg();
				const int c1 = int(c.range(1, 32)), c2 = std::min(32, c1 + int(c.below(3)));
				g.push_back({make_shared<gk::BlkIterKey>(a.b, b.b, c1, c2), ref::key_steps(a.v, b.v, c1, c2).first, true, 4 * (a.cost + b.cost) + 200});
				what = "iteration key";
				break;
			}
			default: g.push_back({make_shared<gk::BlkRaw>(a.b), a.v, true, 0}); what = "raw of block"; break;
			}
			if (g.back().cost > 2000) g.back() = {make_shared<gk::BlkCached>(g.back().b), g.back().v, true, 0};
		}
		c.note([&](auto &o) { o << what; });
		c.label("kuznyechik " + what.substr(0, what.find(' ')));
		same(c, val(*g.back().b), g.back().v, "kuznyechik node " + std::to_string(i) + " (" + what + ")");
	}
	for (size_t i = 0; i < g.size(); i++) same(c, val(*g[i].b), g[i].v, "kuznyechik node " + std::to_string(i) + " evaluated again");
	c.nontrivial(nz && nested);
}

void pbt::property(Case &c)
{
	if (c.below(2)) magma_graph(c);
	else kuz_graph(c);
}

std::string pbt::property_once()
{
	Case c(nullptr, 0);
	uint64_t n = 0;
	auto raw = [](B128 b) { return make_shared<gk::BlkRaw>(b.lo, b.hi); };
	for (int pos = 0; pos < 16; pos++)
		for (int v = 0; v < 256; v++)
			for (int bg = 0; bg < 2; bg++) {
				B128 b = bg ? B128{0xa5a5a5a55a5a5a5a, 0x0123456789abcdef} : B128{};
				b.set(pos, uint8_t(v));
				same(c, val(gk::BlkS(raw(b))), ref::step_s(b), "S of " + hex(b));
				same(c, val(gk::BlkR(raw(b))), ref::step_r(b), "R of " + hex(b));
				same(c, val(gk::BlkL(raw(b))), ref::step_l(b), "L of " + hex(b));
				n += 3;
			}
	for (int s = 0; s < 128; s++)
		for (int bit = 0; bit < 128; bit++) {
			B128 b;
			b.set(bit / 8, uint8_t(1 << (bit % 8)));
			for (int inv = 0; inv < 2; inv++) {
				const B128 x = inv ? B128{~b.lo, ~b.hi} : b;
				same(c, val(gk::BlkShifted(raw(x), s)), ref::shl(x, s), "shift of " + hex(x) + " by " + std::to_string(s));
				if (s < 64) {
					same(c, val(gm::BlkShifted(make_shared<gm::BlkRaw>(x.lo ^ x.hi), s)), (x.lo ^ x.hi) << s, "shift of " + hex(x.lo ^ x.hi) + " by " + std::to_string(s));
					n++;
				}
				n++;
			}
		}
	for (int bit = 0; bit <= 128; bit++)
		for (int d = -2; d <= 2; d++) {
			// 2^bit + d modulo 2^128
			B128 x = bit == 128 ? B128{} : bit < 64 ? B128{uint64_t(1) << bit, 0} : B128{0, uint64_t(1) << (bit - 64)};
			for (int i = 0; i < -d; i++) { if (x.lo-- == 0) x.hi--; }
			for (int i = 0; i < d; i++) x = ref::inc(x);
			same(c, val(gk::BlkIncremented(raw(x))), ref::inc(x), "increment of " + hex(x));
			n++;
		}
	return std::to_string(n) + " fixed evaluations: S, R, L of every byte value at every position, every shift of every bit, increments around every power of two";
}
