// Stages put on top of one another.
#include "../gens.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/ECBSink.h>
#include <goost/gost89/ECBSource.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/Imit.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C25";
const char *const pbt::property_rule =
	"a pipeline of 1..4 stages (magma CFB, GOST 28147-89 CFB, ECB, each with its own or a shared key object, table and register, registers and keys related or equal in part of the cases) and data are generated (whole blocks if an ECB stage is among them, any length otherwise); it is "
	"built of sinks, written in any split and finalized stage by stage, and of sources, read in any sizes, and the results compared with the composition of the reference functions and, source over sink, with the data; the Magma MAC over a decrypting "
	"pipeline is compared with the MAC of the data, CTR streams over CTR streams (one key object in several stages) and the Kuznyechik MAC over them with the xor of the reference key streams. Non-trivial: at least two stages.";

namespace {

struct Stage {
	int kind;  // 0 magma CFB, 1 gost89 CFB, 2 ECB
	std::shared_ptr<ref::Magma> m;
	SP<gm::LazyKey> key;
	std::vector<uint64_t> regs;
	Bytes apply(const Bytes &d, bool decrypt) const
	{
		auto enc = [&](uint64_t b) { return m->enc(b); };
		if (kind == 2) return decrypt ? ref::ecb([&](uint64_t b) { return m->dec(b); }, d) : ref::ecb(enc, d);
		return ref::cfb(enc, regs, d, decrypt);
	}
	SP<goost::Sink> sink(const SP<goost::Sink> &s) const
	{
		if (kind == 0) return make_shared<gm::CFBSink>(s, key, regs[0], regs[1]);
		if (kind == 1) return make_shared<goost::gost89::CFBSink>(s, key, regs[0]);
		return make_shared<goost::gost89::ECBSink>(s, key);
	}
	SP<goost::Source> source(const SP<goost::Source> &s) const
	{
		if (kind == 0) return make_shared<gm::CFBSource>(s, key, regs[0], regs[1]);
		if (kind == 1) return make_shared<goost::gost89::CFBSource>(s, key, regs[0]);
		return make_shared<goost::gost89::ECBSource>(s, key);
	}
};

Bytes read_all(Case &c, SP<goost::Source> s, size_t least, size_t most)
{
	Bytes got;
	const uint64_t mode = c.below(4);
	for (size_t turn = 0; turn < 100000; turn++) {
		const size_t k = std::max<size_t>(least, mode == 0 ? SIZE_MAX : mode == 1 ? 8 : mode == 2 ? c.range(1, 30) : c.range(1, 400));
		const auto r = s->read(k);
		if (r.first.empty()) return got;
		c.check(r.first.size() <= k, "more than asked for");
		const Bytes x = to_bytes(r.first);
		got.insert(got.end(), x.begin(), x.end());
		c.check(got.size() <= most, "the pipeline of sources delivers more than there is");
		s = r.second;
	}
	c.fail("the pipeline of sources does not end");
}

void pipeline(Case &c)
{
	const size_t n = c.below(6) == 0 ? 1 : c.range(2, 4);
	std::vector<Stage> st;
	bool blocks = false;
	for (size_t i = 0; i < n; i++) {
		Stage s;
		s.kind = int(c.below(3));
		if (i && c.below(2)) {
			const Stage &o = st[c.below(i)];
			s.m = o.m;
			s.key = o.key;
		} else {
			s.m = make_shared<ref::Magma>(magma(c));
			s.key = lazy_key(c, *s.m).key;
		}
		if (i && c.below(3) == 0) s.regs = st[c.below(i)].regs;
		while (s.regs.size() < 2) s.regs.push_back(c.u64());
		st.push_back(s);
		blocks = blocks || s.kind == 2;
	}
	for (Stage &s : st) {
		s.regs.resize(s.kind == 0 ? 2 : s.kind == 1 ? 1 : 0);
		c.note([&](auto &o) { o << (s.kind == 0 ? "magma CFB " : s.kind == 1 ? "gost89 CFB " : "ECB ") << describe(*s.m); for (auto r : s.regs) o << " reg " << hex(r); });
	}
	Bytes d = bytes(c, 8, 6000);
	if (blocks) d.resize(d.size() / 8 * 8);
	c.nontrivial(n >= 2 && d.size() > 0);
	c.label(std::to_string(n) + " stages");
	c.label(blocks ? "with ECB" : "CFB only");
	// the data goes through stage 0 first
	Bytes want = d;
	for (const Stage &s : st) want = s.apply(want, false);
	SP<goost::Sink> sink = make_shared<MemSink>();
	for (size_t i = n; i-- > 0;) sink = st[i].sink(sink);
	const bool ecb_first = st[0].kind == 2;
	const auto pieces = split(c, d.size(), ecb_first ? 8 : 1, true);
	c.note([&](auto &o) { o << "data " << hex(d) << " written as " << text(pieces); });
	sink = write_all(sink, d, pieces);
	for (size_t i = 0; i < n; i++) {
		c.check(dynamic_cast<const MemSink *>(sink.get()) == nullptr, "finalizing stage " + std::to_string(i) + " finalized the stage below as well");
		sink = sink->finalize();
	}
	same(c, record(c, sink, "pipeline"), want, "data through " + std::to_string(n) + " sinks");
	// and back
	SP<goost::Source> src = make_shared<MemSource>(want);
	size_t least = 1;
	for (size_t i = n; i-- > 0;) {
		src = st[i].source(src);
		least = st[i].kind == 2 ? 8 : 1;
	}
	same(c, read_all(c, src, least, d.size()), d, "ciphertext through " + std::to_string(n) + " sources");
	if (c.below(3) == 0) {  // MAC of what the sources deliver
		const auto m = make_shared<ref::Magma>(magma(c));
		const auto key = c.below(2) ? st[0].key : lazy_key(c, *m).key;
		same(c, val(gm::Imit(src, key)), val(gm::Imit(make_shared<MemSource>(d), key)), "MAC over the pipeline of sources");
		c.label("MAC over sources");
	}
	if (c.below(3) == 0) {  // decrypt arbitrary data
		Bytes plain = d;
		for (size_t i = n; i-- > 0;) plain = st[i].apply(plain, true);
		SP<goost::Source> q = make_shared<PieceSource>(d, c.range(1, 30), c.word64());
		for (size_t i = n; i-- > 0;) q = st[i].source(q);
		same(c, read_all(c, q, least, d.size()), plain, "data, delivered in pieces, through " + std::to_string(n) + " sources");
	}
}

void ctr(Case &c)
{
	const size_t n = c.range(1, 4), words = c.below(5) == 0 ? c.range(1, 60) : c.range(1, 12);
	std::vector<uint64_t> w(words);
	for (auto &x : w) x = c.u64();
	std::vector<B128> want;
	for (size_t i = 0; i < words; i += 2) want.push_back({w[i], i + 1 < words ? w[i + 1] : 0});
	SP<gk::Stream> st = make_shared<gk::StMemory>(w);
	std::vector<KuzSpec> spec;
	std::vector<SP<gk::Key>> keys;
	std::vector<uint64_t> ivs;
	for (size_t i = 0; i < n; i++) {
		const size_t o = i ? c.below(i) : 0;
		if (i && c.below(2)) { spec.push_back(spec[o]); keys.push_back(keys[o]); }
		else { spec.push_back(kuz_spec(c)); keys.push_back(kuz_key(c, spec.back())); }
		ivs.push_back(i && c.below(4) == 0 ? ivs[o] : c.u64());
		st = make_shared<gk::StCTREncrypted>(st, keys[i], ivs[i]);
		const ref::Kuznyechik r(spec[i].k1, spec[i].k2);
		for (size_t j = 0; j < want.size(); j++) want[j] = want[j] ^ r.ctr(ivs[i], j);
	}
	if (words % 2) want.back().hi = 0;
	c.note([&](auto &o) { o << n << " CTR stages over " << words << " words"; for (size_t i = 0; i < n; i++) o << "; " << spec[i].text() << " iv " << hex(ivs[i]); });
	c.nontrivial(n >= 2);
	c.label(std::to_string(n) + " CTR stages");
	size_t j = 0;
	const uint64_t mode = c.below(3);
	std::vector<SP<gk::Iterator>> kept;
	for (SP<gk::Iterator> it = st->iter(); it; it = it->next(), j++) {
		c.check(j < want.size(), "more blocks than there are");
		if (mode == 1 && c.below(2)) continue;
		if (mode == 2) { kept.push_back(it); continue; }
		B128 got = val(*it);
		if (it->size() == 8) got.hi = 0;
		same(c, got, want[j], "block " + std::to_string(j) + " through " + std::to_string(n) + " CTR stages");
	}
	c.check(j == want.size(), "fewer blocks than there are");
	while (!kept.empty()) {
		B128 got = val(*kept.back());
		if (kept.back()->size() == 8) got.hi = 0;
		same(c, got, want[kept.size() - 1], "block " + std::to_string(kept.size() - 1) + " in reverse through " + std::to_string(n) + " CTR stages");
		kept.pop_back();
	}
	std::vector<uint64_t> ww;
	for (auto &b : want) { ww.push_back(b.lo); ww.push_back(b.hi); }
	ww.resize(words);
	const auto mk = c.below(2) ? keys[0] : kuz_key(c, kuz_spec(c));
	same(c, val(gk::Imit(st, mk)), val(gk::Imit(make_shared<gk::StMemory>(ww), mk)), "MAC over CTR stages");
	if (words % 2 == 0 && mk == keys[0]) same(c, val(gk::Imit(st, mk)), ref::Kuznyechik(spec[0].k1, spec[0].k2).omac(want, true), "MAC over CTR stages");
}

}  // namespace

void pbt::property(Case &c)
{
	if (c.below(6) == 5) ctr(c);
	else pipeline(c);
}

std::string pbt::property_once()
{
	// every pipeline of up to three stages with one key, every length up to 33
	Case c(nullptr, 0);
	uint64_t n = 0;
	const auto m = make_shared<ref::Magma>(std::array<uint32_t, 8>{{1, 2, 3, 4, 5, 6, 7, 8}}, ref::rows_z());
	const auto key = make_shared<gm::LazyKey>(key_text(m->key));
	Bytes all(33);
	fill(all, 12);
	for (size_t code = 0; code < 39; code++) {
		std::vector<Stage> st;
		size_t k = code;
		const size_t count = code < 3 ? 1 : code < 12 ? 2 : 3;
		k -= code < 3 ? 0 : code < 12 ? 3 : 12;
		bool blocks = false;
		for (size_t i = 0; i < count; i++, k /= 3) {
			Stage s{int(k % 3), m, key, {}};
			if (s.kind != 2) s.regs.push_back(77);
			if (s.kind == 0) s.regs.push_back(88);
			blocks = blocks || s.kind == 2;
			st.push_back(s);
		}
		for (size_t len = 0; len <= 33; len++) {
			if (blocks && len % 8) continue;
			const Bytes d(all.begin(), all.begin() + long(len));
			Bytes want = d;
			for (const Stage &s : st) want = s.apply(want, false);
			const size_t unit = st[0].kind == 2 ? 8 : 1;
			for (size_t at = 0; at <= len; at += unit) {
				SP<goost::Sink> s = make_shared<MemSink>();
				for (size_t i = count; i-- > 0;) s = st[i].sink(s);
				s = s->write(to_data(d.data(), at))->write(to_data(d.data() + at, len - at));
				for (size_t i = 0; i < count; i++) s = s->finalize();
				same(c, record(c, s, "pipeline"), want, "pipeline " + std::to_string(code) + ", " + std::to_string(len) + " bytes split at " + std::to_string(at));
				n++;
			}
			SP<goost::Source> q = make_shared<MemSource>(want);
			for (size_t i = count; i-- > 0;) q = st[i].source(q);
			same(c, read_all(c, q, 8, len), d, "pipeline of sources " + std::to_string(code));
			n++;
		}
	}
	return std::to_string(n) + " fixed histories: every pipeline of up to three stages, every length up to 33 with every split";
}
