// Kuznyechik MAC.
#include "../gens.h"
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
using namespace gen;
using std::make_shared;

const char *const PBT_HERE(property_id) = "C13";
const char *const PBT_HERE(property_rule) =
	"key and a message of 0..12 blocks (sometimes up to 400), the last one complete or not, are generated, with block contents chosen to make chaining values special in part of the cases; the "
	"MAC over a memory stream, a user stream (with anything behind an incomplete last block) or a once or twice CTR-encrypted stream is compared with the reference MAC (incomplete last block: with the set of tags injective padding allows, zero padding being "
	"the recorded finding). Non-trivial: at least one block.";

void PBT_HERE(property)(Case &c)
{
	const KuzSpec s = kuz_spec(c);
	const ref::Kuznyechik r(s.k1, s.k2);
	const auto key = kuz_key(c, s);
	const size_t n = c.chance(1, 60) ? c.range(13, 400) : c.below(13);
	std::vector<UserStream::Item> items;
	B128 chain;
	const uint64_t mode = c.below(5);
	uint64_t seed = c.word64();
	for (size_t i = 0; i < n; i++) {
		B128 v;
		if (n > 20 || mode < 2) { v.lo = pbt::splitmix(seed); v.hi = pbt::splitmix(seed); }
		else if (mode == 2) v = chain ^ B128{c.below(2), 0};  // the cipher sees 0 or 1 again
		else v = u128(c);
		items.push_back({v, 16});
		chain = r.enc(chain ^ v);
	}
	size_t part = 16;
	if (n && c.below(3) == 0) {
		part = c.below(2) ? 8 : c.range(1, 15);
		for (int i = int(part); i < 16; i++) items.back().v.set(i, 0);
		items.back().size = part;
	}
	std::vector<uint64_t> w;
	for (auto &i : items) { w.push_back(i.v.lo); if (i.size == 16) w.push_back(i.v.hi); }
	SP<gk::Stream> st;
	const uint64_t kind = c.below(4);
	const bool mem_ok = part == 16 || part == 8;
	if (mem_ok && kind >= 2) st = make_shared<gk::StMemory>(w);
	else st = make_shared<UserStream>(items);
	if (part < 16 && !(mem_ok && kind >= 2) && c.below(2)) {  // what lies behind an incomplete block is not part of the message
		auto junk = items;
		for (int i = int(part); i < 16; i++) junk.back().v.set(i, c.byte());
		st = make_shared<UserStream>(junk);
		c.label("junk behind the last block");
	}
	if (kind % 2) {  // the message is the stream through CTR, or the same stream through CTR twice
		const uint64_t iv = c.u64();
		const KuzSpec s2 = c.below(2) ? s : kuz_spec(c);
		const auto k2 = c.below(2) ? kuz_key(c, s2) : make_shared<const gk::Key>(s2.text());
		if (c.below(2)) {
			st = make_shared<gk::StCTREncrypted>(make_shared<gk::StCTREncrypted>(st, k2, iv), k2, iv);
			c.label("through CTR twice");
		} else {
			st = make_shared<gk::StCTREncrypted>(st, k2, iv);
			const ref::Kuznyechik r2(s2.k1, s2.k2);
			for (size_t i = 0; i < n; i++) {
				items[i].v = items[i].v ^ r2.ctr(iv, i);
				for (int j = int(items[i].size); j < 16; j++) items[i].v.set(j, 0);
			}
			w.clear();
			for (auto &i : items) { w.push_back(i.v.lo); if (i.size == 16) w.push_back(i.v.hi); }
			c.label("through CTR once");
		}
	}
	c.note([&](auto &o) {
		o << "key " << s.text() << "; " << n << " blocks, last of " << (n ? part : 0) << " bytes:";
		for (size_t i = 0; i < n && i < 4; i++) o << " " << hex(items[i].v);
	});
	c.nontrivial(n > 0);
	c.label(n == 0 ? "empty" : part == 16 ? "whole blocks" : "incomplete last block");
	c.label(n == 1, "single block");
	const gk::Imit mac(st, key);
	if (n == 0) {
		B128 got;
		try {
			got = val(mac);
		} catch (const std::exception &) {
			return;
		}
		c.check(got == r.omac({B128{}}, false) || got == r.omac({B128{0, uint64_t(1) << 63}}, false) || got == r.omac({B128{0x80, 0}}, false), "MAC of the empty message: " + hex(got));
		return;
	}
	const B128 got = val(mac);
	std::vector<B128> msg;
	for (auto &i : items) msg.push_back(i.v);
	if (part == 16) same(c, got, r.omac(msg, true), "MAC of " + std::to_string(n) + " whole blocks");
	else {
		const B128 zero = r.omac(msg, false);
		const B128 v = msg.back();
		B128 a = v;  // 1-bit after the last byte in stream order
		a.set(int(part), 0x80);
		B128 b;  // the standard's order: bytes at the most significant end
		for (int i = 0; i < int(part); i++) b.set(16 - int(part) + i, v.at(i));
		b.set(15 - int(part), 0x80);
		msg.back() = a;
		const B128 ta = r.omac(msg, false);
		msg.back() = b;
		const B128 tb = r.omac(msg, false);
		if (got == zero) c.finding("kuznyechik-imit-zero-padding", "incomplete last block is zero padded: the MAC of a message ending in a block of " +
			std::to_string(part) + " bytes is that of the message with zero bytes appended inside the block");
		else c.check(got == ta || got == tb, "MAC of a message with an incomplete last block: got " + hex(got) + ", expected " + hex(tb) + ", " + hex(ta) + " or (known finding) " + hex(zero));
	}
	if (c.chance(1, 6)) same(c, val(mac), got, "MAC computed again");
	if (mem_ok && c.chance(1, 4)) same(c, val(gk::Imit(make_shared<gk::StMemory>(w), key)), got, "MAC over another kind of stream");
}

std::string PBT_HERE(property_once)()
{
	// every number of whole blocks 1..70, four keys (both values of both subkey carries), and two long messages
	Case c(nullptr, 0);
	uint64_t n = 0;
	bool seen[2][2] = {{false, false}, {false, false}};
	for (uint64_t k = 1; k <= 12; k++) {
		const KuzSpec s{{k, 0}, {0, k}};
		const ref::Kuznyechik r(s.k1, s.k2);
		const auto key = make_shared<gk::Key>(s.text());
		const B128 e = r.enc({});
		seen[e.hi >> 63][ref::dbl128(e).hi >> 63] = true;
		for (size_t len = 1; len <= (k == 1 ? 70u : 3u); len++) {
			std::vector<uint64_t> w;
			std::vector<B128> msg;
			for (uint64_t i = 0; i < len; i++) { w.push_back(i + k); w.push_back(~i); msg.push_back({i + k, ~i}); }
			same(c, val(gk::Imit(make_shared<gk::StMemory>(w), key)), r.omac(msg, true), std::to_string(len) + " blocks");
			n++;
		}
	}
	const KuzSpec s{{5, 0}, {0, 5}};
	const ref::Kuznyechik r(s.k1, s.k2);
	const auto key = make_shared<gk::Key>(s.text());
	for (size_t len : {256u, 257u, 4096u, 4097u, 66000u}) {
		std::vector<uint64_t> w(2 * len, 3);
		same(c, val(gk::Imit(make_shared<gk::StMemory>(w), key)), r.omac(std::vector<B128>(len, B128{3, 3}), true), std::to_string(len) + " blocks");
		n++;
	}
	c.check(seen[0][0] && seen[0][1] && seen[1][0] && seen[1][1], "the fixed keys do not cover both carries of both subkeys");
	return std::to_string(n) + " fixed messages (every number of blocks 1..70, up to 66000; all subkey carries)";
}
