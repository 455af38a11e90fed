// Immutability: branching, reuse, several keys side by side.
#include "../gens.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C16";
const char *const pbt::property_rule =
	"a sequence of 2..10 objects of one kind made of nearly the same things and asked one after the other, or a history of 4..60 operations on a pool of live objects is generated: keys of both ciphers (unrelated, or differing in one word, one bit or only the table), blocks, sinks and sources of every "
	"mode, MACs, streams and iterators are created, used again at any earlier state (branching), destroyed and recreated; every answer is compared with a model that knows only that object's own inputs. "
	"Non-trivial: at least two keys, at least one object used after a continuation was made from it.";

struct MKey {
	ref::Magma m;
	SP<gm::LazyKey> key;
};
struct KKey {
	KuzSpec spec;
	std::shared_ptr<ref::Kuznyechik> r;
	SP<gk::Key> key;
};
struct SinkObj { SP<goost::Sink> s; int kind; MKey k; std::vector<uint64_t> regs; Bytes data; bool continued; };
struct SourceObj { SP<goost::Source> s; int kind; Bytes want; size_t pos; bool continued; };
struct Cont { std::shared_ptr<UserContainer> c; ref::Magma m; };
struct BlockObj { SP<gm::Block> b; uint64_t v; };
struct KBlockObj { SP<gk::Block> b; B128 v; };
struct IterObj { SP<gk::Iterator> it; std::shared_ptr<std::vector<B128>> want; size_t at; bool continued; };

static Bytes cipher_of(const SinkObj &s)
{
	auto enc = [&](uint64_t b) { return s.k.m.enc(b); };
	return s.kind == 2 ? ref::ecb(enc, s.data) : ref::cfb(enc, s.regs, s.data, false);
}

struct World {
	Case &c;
	std::vector<MKey> mk;
	std::vector<KKey> kk;
	std::vector<Cont> conts;
	std::vector<SinkObj> sinks;
	std::vector<SourceObj> sources;
	std::vector<BlockObj> blocks;
	std::vector<KBlockObj> kblocks;
	std::vector<IterObj> iters;
	bool reused = false;
	size_t made_m = 0, made_k = 0;

	template <class T> T &pick(std::vector<T> &v) { return v[c.below(v.size())]; }
	template <class T> void push(std::vector<T> &v, T x) { if (v.size() >= 10) v[c.below(v.size())] = x; else v.push_back(x); }

	void new_mkey()
	{
		ref::Magma m = magma(c);
		if (!mk.empty() && c.below(2)) {  // related to an existing one
			const ref::Magma &o = pick(mk).m;
			auto k = o.key;
			Rows r = o.rows;
			switch (c.below(4)) {
			case 0: r = rows(c); break;
			case 1: k[c.below(8)] ^= 1u << c.below(32); break;
			case 2: std::swap(k[c.below(8)], k[c.below(8)]); break;
			default: break;  // the same key and table in another object
			}
			m = ref::Magma(k, r);
		}
		const auto o = lazy_key(c, m);
		c.note([&](auto &n) { n << "magma key " << key_text(m.key).substr(0, 16) << ".. [" << o.form << "]"; });
		push(mk, MKey{m, o.key});
		made_m++;
	}
	void new_kkey()
	{
		KuzSpec s = kuz_spec(c);
		if (!kk.empty() && c.below(2)) {
			s = pick(kk).spec;
			switch (c.below(6)) {
			case 4: s.k1.hi ^= uint64_t(1) << c.below(64); break;
			case 5: s.k2.hi = c.u64(); break;
			case 0: s.k1 = u128(c); break;
			case 1: s.k2.lo ^= uint64_t(1) << c.below(64); break;
			case 2: std::swap(s.k1, s.k2); break;
			default: break;
			}
		}
		c.note([&](auto &n) { n << "kuznyechik key " << s.text().substr(0, 16) << ".."; });
		push(kk, KKey{s, make_shared<ref::Kuznyechik>(s.k1, s.k2), kuz_key(c, s)});
		made_k++;
	}
	void new_sink()
	{
		SinkObj o;
		o.kind = int(c.below(3));
		o.k = pick(mk);
		o.continued = false;
		for (int i = 0; i < 2 - o.kind; i++) o.regs.push_back(c.u64());
		const auto base = make_shared<MemSink>();
		if (o.kind == 0) o.s = make_shared<gm::CFBSink>(base, o.k.key, o.regs[0], o.regs[1]);
		if (o.kind == 1) o.s = make_shared<goost::gost89::CFBSink>(base, o.k.key, o.regs[0]);
		if (o.kind == 2) o.s = make_shared<gm::ECBSink>(base, o.k.key);
		push(sinks, o);
		c.note([&](auto &n) { n << "sink " << o.kind; });
	}
	void new_source()
	{
		SourceObj o;
		o.kind = int(c.below(3));
		o.continued = false;
		o.pos = 0;
		const MKey k = pick(mk);
		std::vector<uint64_t> regs;
		for (int i = 0; i < 2 - o.kind; i++) regs.push_back(c.u64());
		const Bytes d = content(c, o.kind == 2 ? 8 * c.below(6) : c.below(50));
		const auto base = make_shared<MemSource>(d);
		auto enc = [&](uint64_t b) { return k.m.enc(b); };
		auto dec = [&](uint64_t b) { return k.m.dec(b); };
		if (o.kind == 0) o.s = make_shared<gm::CFBSource>(base, k.key, regs[0], regs[1]);
		if (o.kind == 1) o.s = make_shared<goost::gost89::CFBSource>(base, k.key, regs[0]);
		if (o.kind == 2) {
			if (c.below(2)) o.s = make_shared<gm::ECBSource>(base, k.key);
			else {
				if (conts.empty() || c.below(2)) push(conts, Cont{make_shared<UserContainer>(k.m.key, k.m.rows), k.m});
				const Cont &u = c.below(2) ? conts.back() : pick(conts);
				o.s = make_shared<gm::ECBSource>(base, u.c);
				o.want = ref::ecb([&](uint64_t b) { return u.m.dec(b); }, d);
				push(sources, o);
				c.note([&](auto &n) { n << "source of " << d.size() << " bytes with a container"; });
				return;
			}
		}
		o.want = o.kind == 2 ? ref::ecb(dec, d) : ref::cfb(enc, regs, d, true);
		push(sources, o);
		c.note([&](auto &n) { n << "source " << o.kind << " of " << d.size() << " bytes"; });
	}
	void new_block()
	{
		const MKey &k = pick(mk);
		const uint64_t v = c.u64();
		BlockObj a = blocks.empty() || c.below(2) ? BlockObj{block64(c, v), v} : pick(blocks);
		switch (c.below(7)) {
		case 0: push(blocks, BlockObj{make_shared<gm::BlkEncrypted>(a.b, k.key), k.m.enc(a.v)}); break;
		case 1: push(blocks, BlockObj{make_shared<gm::BlkDecrypted>(a.b, k.key), k.m.dec(a.v)}); break;
		case 2: push(blocks, BlockObj{make_shared<gm::BlkSwapped>(a.b), a.v << 32 | a.v >> 32}); break;
		case 3: push(blocks, BlockObj{make_shared<gm::BlkXored>(a.b, block64(c, v)), a.v ^ v}); break;
		case 4: push(blocks, BlockObj{make_shared<gm::BlkShifted>(a.b, 7), a.v << 7}); break;
		case 5: {  // MAC
			const Bytes d = content(c, 8 * c.range(1, 4));
			push(blocks, BlockObj{make_shared<gm::Imit>(make_shared<MemSource>(d), k.key), ref::omac64_whole([&](uint64_t b) { return k.m.enc(b); }, d)});
			break;
		}
		default: push(blocks, a); break;
		}
		c.note([&](auto &n) { n << "magma block"; });
		check(blocks.back());
	}
	void new_kblock()
	{
		const KKey &k = pick(kk);
		const B128 v = u128(c);
		KBlockObj a = kblocks.empty() || c.below(2) ? KBlockObj{block128(c, v), v} : pick(kblocks);
		switch (c.below(8)) {
		case 0: case 1: push(kblocks, KBlockObj{make_shared<gk::BlkEncrypted>(a.b, k.key), k.r->enc(a.v)}); break;
		case 2: push(kblocks, KBlockObj{make_shared<gk::BlkCached>(a.b), a.v}); break;
		case 3: push(kblocks, KBlockObj{make_shared<gk::BlkXored>(a.b, block128(c, v)), a.v ^ v}); break;
		case 4: push(kblocks, KBlockObj{make_shared<gk::BlkIncremented>(a.b), ref::inc(a.v)}); break;
		case 5: push(kblocks, KBlockObj{make_shared<gk::BlkL>(make_shared<gk::BlkS>(a.b)), ref::step_l(ref::step_s(a.v))}); break;
		case 6: {
			std::vector<uint64_t> w;
			std::vector<B128> msg;
			const size_t n = c.range(1, 3);
			for (size_t i = 0; i < n; i++) { const B128 x = u128(c); msg.push_back(x); w.push_back(x.lo); w.push_back(x.hi); }
			push(kblocks, KBlockObj{make_shared<gk::Imit>(make_shared<gk::StMemory>(w), k.key), k.r->omac(msg, true)});
			break;
		}
		default: push(kblocks, a); break;
		}
		c.note([&](auto &n) { n << "kuznyechik block"; });
		check(kblocks.back());
	}
	void new_iter()
	{
		const KKey &k = pick(kk);
		std::vector<uint64_t> w;
		auto want = make_shared<std::vector<B128>>();
		const size_t n = c.range(1, 5);
		const uint64_t iv = c.u64();
		const bool ctr = c.below(3) != 0;
		for (size_t i = 0; i < n; i++) {
			const B128 x = u128(c);
			w.push_back(x.lo);
			w.push_back(x.hi);
			want->push_back(ctr ? x ^ k.r->ctr(iv, i) : x);
		}
		SP<gk::Stream> st = make_shared<gk::StMemory>(w);
		if (ctr) st = make_shared<gk::StCTREncrypted>(st, k.key, iv);
		push(iters, IterObj{st->iter(), want, 0, false});
		if (c.below(3) == 0) push(iters, IterObj{st->iter(), want, 0, false});
		c.note([&](auto &o) { o << "stream of " << n << (ctr ? " CTR" : " plain") << " blocks"; });
	}
	void check(const BlockObj &o) { same(c, val(*o.b), o.v, "magma block value"); }
	void check(const KBlockObj &o) { same(c, val(*o.b), o.v, "kuznyechik block value"); }
	void check(const IterObj &o)
	{
		same(c, val(*o.it), (*o.want)[o.at], "stream block " + std::to_string(o.at));
		c.check(o.it->last() == (o.at + 1 == o.want->size()), "end of stream at block " + std::to_string(o.at));
	}
	void check(const SinkObj &o)
	{
		same(c, record(c, o.s->finalize(), "sink"), cipher_of(o), "ciphertext of sink kind " + std::to_string(o.kind));
	}
	void write()
	{
		SinkObj &o = pick(sinks);
		reused |= o.continued;
		const Bytes d = content(c, o.kind == 2 ? 8 * c.below(5) : c.below(30));
		c.note([&](auto &n) { n << "write " << d.size() << (o.continued ? " to an older state" : ""); });
		SinkObj next = o;
		next.s = o.s->write(to_data(d));
		next.data.insert(next.data.end(), d.begin(), d.end());
		next.continued = false;
		o.continued = true;
		push(sinks, next);
		if (c.below(3) == 0) check(next);
	}
	void read()
	{
		SourceObj &o = pick(sources);
		reused |= o.continued;
		const size_t k = c.below(8) == 0 ? SIZE_MAX : o.kind == 2 ? 8 : c.below(20);
		c.note([&](auto &n) { n << "read " << k << (o.continued ? " from an older state" : ""); });
		const auto r = o.s->read(k);
		const Bytes got = to_bytes(r.first);
		SourceObj next = o;
		if (o.kind == 2) {  // one or more blocks at a time
			const size_t left = o.want.size() - o.pos;
			c.check(got.size() <= std::min(k, left) && (left == 0) == got.empty() && got.size() % 8 == 0, "ECB source returned " + std::to_string(got.size()) + " bytes");
		} else c.check(got.size() == std::min(k, o.want.size() - o.pos), "source returned " + std::to_string(got.size()) + " bytes");
		same(c, got, Bytes(o.want.begin() + long(o.pos), o.want.begin() + long(o.pos + got.size())), "plaintext of source kind " + std::to_string(o.kind));
		next.pos += got.size();
		next.s = r.second;
		next.continued = false;
		o.continued = true;
		if (o.kind != 2 || !got.empty()) push(sources, next);
	}
	void step()
	{
		IterObj &o = pick(iters);
		reused |= o.continued;
		check(o);
		const auto n = o.it->next();
		c.check(bool(n) == (o.at + 1 < o.want->size()), "successor of block " + std::to_string(o.at));
		IterObj next{n, o.want, o.at + 1, false};
		o.continued = true;
		if (n) push(iters, next);
		c.note([&](auto &x) { x << "next"; });
	}
	void integer()
	{
		const MKey &k = pick(mk);
		const uint64_t v = c.u64();
		same(c, gm::EncryptionBase(k.key).transform(v), k.m.enc(v), "integer encryption");
		if (c.below(2)) {
			const Bytes d = content(c, c.below(30));
			const goost::gost89::DataImit mac(d, k.key);
			same(c, mac.value(), ref::imit89(k.m, d), "GOST 28147-89 MAC");
			same(c, mac.value(), ref::imit89(k.m, d), "GOST 28147-89 MAC again");
		}
		c.note([&](auto &n) { n << "integer and MAC"; });
	}
	void drop()
	{
		c.note([&](auto &n) { n << "drop"; });
		switch (c.below(9)) {
		case 0: if (mk.size() > 1) { mk.erase(mk.begin() + long(c.below(mk.size()))); } break;
		case 1: if (kk.size() > 1) { kk.erase(kk.begin() + long(c.below(kk.size()))); } break;
		case 2: if (!sinks.empty()) sinks.erase(sinks.begin() + long(c.below(sinks.size()))); break;
		case 3: if (!sources.empty()) sources.erase(sources.begin() + long(c.below(sources.size()))); break;
		case 4: if (!blocks.empty()) blocks.erase(blocks.begin() + long(c.below(blocks.size()))); break;
		case 5: if (!kblocks.empty()) kblocks.erase(kblocks.begin() + long(c.below(kblocks.size()))); break;
		case 6: if (!conts.empty()) conts.erase(conts.begin() + long(c.below(conts.size()))); break;
		case 7: if (!iters.empty()) iters.erase(iters.begin() + long(c.below(iters.size()))); break;
		default:  // a whole family at once, so that addresses are used again
			conts.clear(); sinks.clear(); sources.clear(); blocks.clear(); kblocks.clear(); iters.clear();
			mk.clear(); kk.clear();
			new_mkey(); new_kkey();
			break;
		}
	}
};

// ------------------------------------------------------------------ related objects

// Objects of one kind made of nearly the same things, asked one after the other: what was
// found for one of them must not be given for another that differs in a single place.
struct Things {
	std::array<uint32_t, 8> key;
	Rows rows;
	KuzSpec kuz;
	uint64_t a, b;
	B128 x, y;
	Bytes data;
	int first, last, shift;
};
static Bytes b64(uint64_t v) { Bytes o(8); ref::put_le64(&o[0], v); return o; }
static Bytes b128(B128 v) { Bytes o(16); ref::put_le64(&o[0], v.lo); ref::put_le64(&o[8], v.hi); return o; }
static void alter64(Case &c, uint64_t &v)
{
	switch (c.below(4)) {
	case 0: v ^= uint64_t(1) << c.below(64); break;
	case 1: v ^= uint64_t(1 + c.below(255)) << 8 * c.below(8); break;
	case 2: v = c.u64(); break;
	default: v = v << 32 | v >> 32; break;
	}
}
static void alter128(Case &c, B128 &v)
{
	switch (c.below(4)) {
	case 0: std::swap(v.lo, v.hi); break;
	case 1: alter64(c, v.lo); break;
	default: alter64(c, v.hi); break;
	}
}
static std::string alter(Case &c, Things &t)
{
	switch (c.below(11)) {
	case 0: t.key[c.below(8)] ^= 1u << c.below(32); return "key bit";
	case 1: std::swap(t.key[c.below(8)], t.key[c.below(8)]); return "key words";
	case 2: t.rows = rows(c); return "table";
	case 3: {
		auto &r = t.rows[c.below(8)];
		std::swap(r[c.below(16)], r[c.below(16)]);
		return "table row";
	}
	case 4: alter128(c, t.kuz.k1); return "upper half";
	case 5: alter128(c, t.kuz.k2); return "lower half";
	case 6: alter64(c, t.a); return "first value";
	case 7: alter64(c, t.b); return "second value";
	case 8: alter128(c, c.below(2) ? t.x : t.y); return "block";
	case 9:
		if (t.data.empty() || c.below(3) == 0) t.data = content(c, 8 * c.range(1, 5));
		else if (c.below(3) == 0) t.data.insert(t.data.end(), 8, 0);
		else t.data[c.below(t.data.size())] ^= uint8_t(1 + c.below(255));
		return "data";
	default:
		switch (c.below(3)) {
		case 0: t.first = int(c.range(1, 9)); break;
		case 1: t.last = int(c.range(1, 9)); break;
		default: t.shift = int(c.below(64)); break;
		}
		return "number";
	}
}
struct Asked {
	std::function<Bytes()> ask;
	Bytes want;
};
const unsigned related_kinds = 24;
static Asked related_object(Case &c, unsigned kind, const Things &t)
{
	const ref::Magma m(t.key, t.rows);
	const auto lazy = [&] { return lazy_key(c, m).key; };
	const auto kuz = [&] { return kuz_key(c, t.kuz); };
	const auto enc = [m](uint64_t v) { return m.enc(v); };
	const auto dec = [m](uint64_t v) { return m.dec(v); };
	const auto blk = [&] { return block64(c, t.a); };
	const auto ask64 = [](SP<gm::Block> o) { return [o] { return b64(val(*o)); }; };
	const auto ask128 = [](SP<gk::Block> o) { return [o] { return b128(val(*o)); }; };
	const auto source = [&]() -> SP<goost::Source> { return make_shared<MemSource>(t.data); };
	const auto drain = [](SP<goost::Source> o, bool blocks) {
		return [=] {
			Bytes out;
			for (SP<goost::Source> s = o;;) {
				const auto r = s->read(blocks ? 8 : 11);
				if (r.first.empty()) return out;
				const Bytes d = to_bytes(r.first);
				out.insert(out.end(), d.begin(), d.end());
				s = r.second;
			}
		};
	};
	const auto pour = [](SP<goost::Sink> o, const Bytes &d) { return [=] { const auto f = o->write(to_data(d))->finalize(); return dynamic_cast<const MemSink &>(*f).record(); }; };
	switch (kind) {
	case 0: return {ask64(make_shared<gm::BlkEncrypted>(blk(), lazy())), b64(m.enc(t.a))};
	case 1: return {ask64(make_shared<gm::BlkDecrypted>(blk(), lazy())), b64(m.dec(t.a))};
	case 2: { const auto k = lazy(); const uint64_t v = t.a; return {[=] { return b64(gm::EncryptionBase(k).transform(v)); }, b64(m.enc(t.a))}; }
	case 3: return {pour(make_shared<gm::CFBSink>(make_shared<MemSink>(), lazy(), t.a, t.b), t.data), ref::cfb(enc, {t.a, t.b}, t.data, false)};
	case 4: return {pour(make_shared<goost::gost89::CFBSink>(make_shared<MemSink>(), lazy(), t.a), t.data), ref::cfb(enc, {t.a}, t.data, false)};
	case 5: return {pour(make_shared<gm::ECBSink>(make_shared<MemSink>(), lazy()), t.data), ref::ecb(enc, t.data)};
	case 6: return {drain(make_shared<gm::CFBSource>(source(), lazy(), t.a, t.b), false), ref::cfb(enc, {t.a, t.b}, t.data, true)};
	case 7: return {drain(make_shared<goost::gost89::CFBSource>(source(), lazy(), t.a), false), ref::cfb(enc, {t.a}, t.data, true)};
	case 8: return {drain(make_shared<gm::ECBSource>(source(), lazy()), true), ref::ecb(dec, t.data)};
	case 9: return {drain(make_shared<gm::ECBSource>(source(), make_shared<UserContainer>(t.key, t.rows)), true), ref::ecb(dec, t.data)};
	case 10: return {ask64(make_shared<gm::Imit>(source(), lazy())), b64(ref::omac64_whole(enc, t.data))};
	case 11: { const auto mac = make_shared<goost::gost89::DataImit>(t.data, lazy()); return {[=] { return mac->value(); }, ref::imit89(m, t.data)}; }
	case 12: return {ask64(make_shared<gm::BlkXored>(blk(), block64(c, t.b))), b64(t.a ^ t.b)};
	case 13: return {ask64(make_shared<gm::BlkShifted>(blk(), t.shift)), b64(t.a << t.shift)};
	case 14: { const SP<gm::Sbox> o = plain_sbox(c, t.rows); const uint32_t v = uint32_t(t.a); return {[=] { return b64(o->transform(v)); }, b64(ref::substitute(t.rows, v))}; }
	case 15: return {ask128(make_shared<gk::BlkIterKey>(block128(c, t.kuz.k1), block128(c, t.kuz.k2), t.first, t.last)), b128(ref::key_steps(t.kuz.k1, t.kuz.k2, t.first, t.last).first)};
	case 16: return {ask128(make_shared<gk::BlkEncrypted>(block128(c, t.x), kuz())), b128(ref::Kuznyechik(t.kuz.k1, t.kuz.k2).enc(t.x))};
	case 17: return {ask128(make_shared<gk::BlkL>(block128(c, t.x))), b128(ref::step_l(t.x))};
	case 18: return {ask128(make_shared<gk::BlkR>(block128(c, t.x))), b128(ref::step_r(t.x))};
	case 19: return {ask128(make_shared<gk::BlkS>(block128(c, t.x))), b128(ref::step_s(t.x))};
	case 20: return {ask128(make_shared<gk::BlkXored>(block128(c, t.x), block128(c, t.y))), b128(t.x ^ t.y)};
	case 21: return {ask128(make_shared<gk::BlkShifted>(make_shared<gk::BlkIncremented>(block128(c, t.x)), t.shift)), b128(ref::shl(ref::inc(t.x), t.shift))};
	case 22: return {ask128(make_shared<gk::Imit>(make_shared<gk::StMemory>(std::vector<uint64_t>{t.x.lo, t.x.hi, t.y.lo, t.y.hi}), kuz())), b128(ref::Kuznyechik(t.kuz.k1, t.kuz.k2).omac({t.x, t.y}, true))};
	default: {
		const ref::Kuznyechik r(t.kuz.k1, t.kuz.k2);
		const SP<gk::Stream> st = make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(std::vector<uint64_t>{t.x.lo, t.x.hi, t.y.lo, t.y.hi}), kuz(), t.a);
		Bytes want = b128(t.x ^ r.ctr(t.a, 0)), more = b128(t.y ^ r.ctr(t.a, 1));
		want.insert(want.end(), more.begin(), more.end());
		return {[=] {
			Bytes out;
			for (SP<gk::Iterator> i = st->iter(); i; i = i->next()) { const Bytes d = b128(val(*i)); out.insert(out.end(), d.begin(), d.end()); }
			return out;
		}, want};
	}
	}
}
static void related(Case &c)
{
	const unsigned kind = unsigned(c.below(related_kinds));
	Things t{};
	t.key = words(c);
	t.rows = rows(c);
	t.kuz = kuz_spec(c);
	t.a = c.u64();
	t.b = c.u64();
	t.x = u128(c);
	t.y = u128(c);
	t.data = content(c, 8 * c.range(1, 5));
	t.first = int(c.range(1, 3));
	t.last = int(c.range(1, 9));
	t.shift = int(c.below(64));
	std::vector<Asked> kept;
	std::vector<Things> seen{t};
	const size_t n = c.range(2, 10);
	c.note([&](auto &o) { o << "related objects of kind " << kind << ", differing in"; });
	for (size_t i = 0; i < n; i++) {
		if (i) {
			t = seen[c.below(4) ? seen.size() - 1 : c.below(seen.size())];
			for (size_t k = c.below(8) ? 1 : c.below(3); k > 0; k--) { const std::string what = alter(c, t); c.note([&](auto &o) { o << what; }); }
			seen.push_back(t);
		}
		const Asked o = related_object(c, c.below(10) ? kind : unsigned(c.below(related_kinds)), t);
		for (size_t k = c.below(8) ? 1 : 2; k > 0; k--) same(c, o.ask(), o.want, "object " + std::to_string(i + 1) + " of kind " + std::to_string(kind));
		if (c.below(3) == 0) kept.push_back(o);
		if (!kept.empty() && c.below(3) == 0) {
			const Asked &q = kept[c.below(kept.size())];
			same(c, q.ask(), q.want, "an older object of kind " + std::to_string(kind));
		}
	}
	c.label("related objects");
	c.nontrivial();
}

void pbt::property(Case &c)
{
	if (c.below(5) == 4) return related(c);
	World w{c, {}, {}, {}, {}, {}, {}, {}, {}};
	w.new_mkey();
	w.new_kkey();
	const size_t ops = c.range(4, 60);
	for (size_t i = 0; i < ops; i++) {
		switch (c.below(24)) {
		case 0: w.new_mkey(); break;
		case 1: if (c.below(2)) w.new_kkey(); break;
		case 2: case 3: w.new_sink(); break;
		case 4: case 5: w.new_source(); break;
		case 6: case 7: w.new_block(); break;
		case 8: w.new_kblock(); break;
		case 9: w.new_iter(); break;
		case 10: case 11: case 12: case 13: if (w.sinks.empty()) w.new_sink(); w.write(); break;
		case 14: case 15: case 16: if (w.sources.empty()) w.new_source(); w.read(); break;
		case 17: case 18: if (w.iters.empty()) w.new_iter(); w.step(); break;
		case 19: w.integer(); break;
		case 20: w.drop(); break;
		case 21: if (!w.sinks.empty()) w.check(w.pick(w.sinks)); break;
		case 22: if (!w.blocks.empty()) w.check(w.pick(w.blocks)); break;
		default: if (!w.kblocks.empty()) w.check(w.pick(w.kblocks)); break;
		}
	}
	for (auto &o : w.sinks) w.check(o);
	for (auto &o : w.blocks) w.check(o);
	for (auto &o : w.kblocks) w.check(o);
	for (auto &o : w.iters) w.check(o);
	for (auto &o : w.sources) {
		Bytes got;
		SP<goost::Source> s = o.s;
		while (got.size() < o.want.size() - o.pos) {
			const auto r = s->read(16);
			if (r.first.empty()) break;
			const Bytes d = to_bytes(r.first);
			got.insert(got.end(), d.begin(), d.end());
			s = r.second;
		}
		same(c, got, Bytes(o.want.begin() + long(o.pos), o.want.end()), "the rest of a source");
	}
	c.label(w.reused, "older state used again");
	c.label(w.made_m + w.made_k > 3, "several keys");
	c.nontrivial(w.reused && w.made_m + w.made_k > 2);
}

std::string pbt::property_once()
{
	// many keys built and destroyed at the same addresses, alternating with living ones
	Case c(nullptr, 0);
	uint64_t n = 0;
	const ref::Magma live({{9, 8, 7, 6, 5, 4, 3, 2}}, ref::rows_z());
	const auto live_key = make_shared<gm::LazyKey>(key_text(live.key));
	const KuzSpec ls{{1, 1}, {2, 2}};
	const ref::Kuznyechik lr(ls.k1, ls.k2);
	const auto lk = make_shared<gk::Key>(ls.text());
	for (uint32_t i = 0; i < 2000; i++) {
		const ref::Magma m({{i, 8, 7, 6, 5, 4, 3, i}}, i % 2 ? ref::rows_z() : ref::rows_test());
		const auto k = make_shared<gm::LazyKey>(key_text(m.key), make_shared<UserSbox>(m.rows));
		same(c, val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(uint64_t(7)), k)), m.enc(7), "short-lived Magma key");
		same(c, val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(uint64_t(7)), live_key)), live.enc(7), "long-lived Magma key");
		n += 2;
		if (i % 4 == 0) {
			Bytes d(8);
			ref::put_le64(&d[0], i);
			const auto r = gm::ECBSource(make_shared<MemSource>(d), make_shared<UserContainer>(m.key, m.rows)).read(8);
			same(c, to_bytes(r.first), ref::ecb([&](uint64_t b) { return m.dec(b); }, d), "short-lived key container");
			n++;
		}
		if (i % 10 == 0) {
			const KuzSpec s{{i, 1}, {2, i}};
			const auto q = make_shared<gk::Key>(s.text());
			same(c, val(*q->encrypt(make_shared<gk::BlkRaw>(7, 7))), ref::Kuznyechik(s.k1, s.k2).enc({7, 7}), "short-lived Kuznyechik key");
			same(c, val(*lk->encrypt(make_shared<gk::BlkRaw>(7, 7))), lr.enc({7, 7}), "long-lived Kuznyechik key");
			n += 2;
		}
	}
	return std::to_string(n) + " fixed encryptions alternating between a living key and 2200 short-lived ones";
}
