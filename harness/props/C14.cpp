// Magma MAC.
#include "../gens.h"
#include <goost/magma/Imit.h>
using namespace gen;
using std::make_shared;

const char *const PBT_HERE(property_id) = "C14";
const char *const PBT_HERE(property_rule) =
	"key, table, key form and a message of 0 bytes to 64 KiB are generated (special contents, or contents chosen so that chaining values are special); the MAC over a memory source is compared "
	"with the reference MAC (incomplete last block: with the set of tags injective padding allows, zero padding being the recorded finding); in part of the cases the MACs of two different messages, one "
	"extending the other by zero bytes, are compared with each other. Non-trivial: at least one byte.";

static const char *finding_id = "magma-imit-zero-padding";

static void one(Case &c, const ref::Magma &m, const SP<gm::LazyKey> &key, const Bytes &msg)
{
	auto enc = [&](uint64_t b) { return m.enc(b); };
	const gm::Imit mac(make_shared<MemSource>(msg), key);
	uint64_t got;
	try {
		got = val(mac);
	} catch (const std::exception &) {
		if (msg.empty()) return;  // refusing the empty message is as good as a tag
		throw;
	}
	if (!msg.empty() && msg.size() % 8 == 0) same(c, got, ref::omac64_whole(enc, msg), "MAC of " + std::to_string(msg.size()) + " bytes");
	else {
		const auto t = ref::omac64_partial(enc, msg);
		if (got == t.zero) c.finding(finding_id, "an incomplete last block is zero padded: the MAC of " + std::to_string(msg.size()) +
			" bytes is that of the message with a zero byte appended (unless that completes the block)");
		else c.check(got == t.standard_order || got == t.stream_order, "MAC of " + std::to_string(msg.size()) + " bytes: got " + hex(got) + ", expected " +
			hex(t.standard_order) + ", " + hex(t.stream_order) + " or (known finding) " + hex(t.zero));
	}
	if (c.chance(1, 5)) same(c, val(mac), got, "MAC computed again");
}

void PBT_HERE(property)(Case &c)
{
	const ref::Magma m = magma(c);
	const auto key = lazy_key(c, m);
	note_magma(c, m, key);
	Bytes msg = bytes(c, 8, 66000);
	if (c.below(4) == 3) {  // chaining values take the generated contents
		uint64_t chain = 0;
		for (size_t i = 0; i + 8 <= msg.size(); i += 8) {
			const uint64_t v = ref::le64(&msg[i]);
			ref::put_le64(&msg[i], v ^ chain);
			chain = m.enc(v);
		}
		c.label("chosen chaining values");
	}
	c.note([&](auto &o) { o << "message " << hex(msg); });
	c.nontrivial(!msg.empty());
	c.label(msg.empty() ? "empty" : msg.size() % 8 ? "incomplete last block" : "whole blocks");
	c.label(msg.size() == 8, "single block");
	one(c, m, key.key, msg);
	if (c.below(4) == 0 && msg.size() < 1000) {
		Bytes longer = msg;
		longer.resize(msg.size() + c.range(1, 9), 0);
		c.note([&](auto &o) { o << "extended by zeros to " << longer.size(); });
		c.label("extended by zeros");
		one(c, m, key.key, longer);
		// never equal by construction, except for the recorded finding: both end in an incomplete block of the same number
		auto tag = [&](const Bytes &x, bool &ok) {
			ok = true;
			try { return val(gm::Imit(make_shared<MemSource>(x), key.key)); } catch (const std::exception &) { ok = false; return uint64_t(0); }
		};
		bool ok1, ok2;
		const uint64_t t1 = tag(msg, ok1), t2 = tag(longer, ok2);
		if (ok1 && ok2 && t1 == t2) {
			const bool listed = msg.size() / 8 == longer.size() / 8;
			// an equality the reference MAC itself has (degenerate tables) is a coincidence of the cipher, not of the padding
			auto enc = [&](uint64_t b) { return m.enc(b); };
			auto rt = [&](const Bytes &x) { return !x.empty() && x.size() % 8 == 0 ? ref::omac64_whole(enc, x) : ref::omac64_partial(enc, x).zero; };
			auto rs = [&](const Bytes &x) { return !x.empty() && x.size() % 8 == 0 ? ref::omac64_whole(enc, x) : ref::omac64_partial(enc, x).stream_order; };
			auto rg = [&](const Bytes &x) { return !x.empty() && x.size() % 8 == 0 ? ref::omac64_whole(enc, x) : ref::omac64_partial(enc, x).standard_order; };
			if (listed) c.finding(finding_id, "messages of " + std::to_string(msg.size()) + " and " + std::to_string(longer.size()) + " bytes, one extending the other by zeros, have equal MACs");
			else c.check(rt(msg) == rt(longer) || rs(msg) == rs(longer) || rg(msg) == rg(longer), "messages of " + std::to_string(msg.size()) + " and " + std::to_string(longer.size()) + " bytes have equal MACs");
		}
	}
}

std::string PBT_HERE(property_once)()
{
	Case c(nullptr, 0);
	uint64_t n = 0;
	bool seen[2][2] = {{false, false}, {false, false}};
	Bytes d(8 * 66000 + 3);
	fill(d, 5);
	for (uint32_t k = 1; k <= 12; k++) {
		const ref::Magma m({{k, 0, 0, 0, 0, 0, 0, k}}, ref::rows_z());
		const auto key = make_shared<gm::LazyKey>(key_text(m.key));
		const uint64_t e = m.enc(0);
		seen[e >> 63][ref::dbl64(e) >> 63] = true;
		for (size_t len = 0; len <= 200; len++) { one(c, m, key, Bytes(d.begin(), d.begin() + long(len))); n++; }
		if (k == 1) for (size_t len : {4096u, 32768u, 65536u, 70000u, 8 * 66000u, 8 * 66000u + 3}) { one(c, m, key, Bytes(d.begin(), d.begin() + long(len))); n++; }
	}
	c.check(seen[0][0] && seen[0][1] && seen[1][0] && seen[1][1], "the fixed keys do not cover both carries of both subkeys");
	return std::to_string(n) + " fixed messages (every length 0..200 under 12 keys covering all subkey carries; up to 66000 blocks)";
}
