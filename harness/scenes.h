// Scenes: generated pieces of ordinary use of every part of the library, each step with its
// expected answer. What is done around the steps (things of the caller destroyed, memory
// running out, unusual process state, memory counted) is decided by the Env they run in.
#pragma once
#include "gens.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>

namespace scene {

using namespace gen;
using std::make_shared;
using std::make_unique;

inline Bytes b64(uint64_t v) { Bytes b(8); ref::put_le64(&b[0], v); return b; }
inline Bytes b128(B128 v) { Bytes b(16); ref::put_le64(&b[0], v.lo); ref::put_le64(&b[8], v.hi); return b; }

// ------------------------------------------------------------------ what the caller owns

// Overwrites a thing of the caller with something else that is as valid, then destroys it.
inline void wreck(std::string &s) { for (auto &ch : s) ch = ch == '3' ? '4' : '3'; std::string().swap(s); }
template <class T> void wreck(std::vector<T> &v)
{
	for (auto &x : v) x = T(int(x) ^ 5);
	std::vector<T>().swap(v);
}
template <class T> void wreck(std::shared_ptr<T> &p) { p.reset(); }

class Env {
public:
	explicit Env(Case &c, uint64_t salt = 0) : c(c), salt(salt) {}
	virtual ~Env() = default;
	Env(const Env &) = delete;
	Env &operator=(const Env &) = delete;

	Case &c;
	const uint64_t salt;  // changes contents (keys, data), not sizes or shapes

	// a thing of the caller that the library is given
	template <class T> T &own(T v)
	{
		auto t = make_unique<Held<T>>(std::move(v));
		T &r = t->v;
		things.push_back(std::move(t));
		return r;
	}
	template <class T> SP<T> &handle(SP<T> v) { return own<SP<T>>(std::move(v)); }

	// everything the next steps use exists: the caller may drop what it owns
	virtual void built() {}
	// runs f, which changes nothing unless it ends normally
	virtual void attempt(const std::function<void()> &f) { f(); }

	template <class F> auto make(const F &f) -> decltype(f())
	{
		decltype(f()) r;
		attempt([&] { r = f(); });
		return r;
	}
	// the same for something that may be refused already here: nothing then
	template <class F> auto make_unless_refused(const F &f) -> decltype(f())
	{
		decltype(f()) r;
		attempt([&] {
			try {
				r = f();
			} catch (const std::bad_alloc &) {
				throw;
			} catch (const std::exception &) {
				r = nullptr;
			}
		});
		return r;
	}
	virtual void step(const std::string &what, const std::function<Bytes()> &f, const Bytes &want)
	{
		Bytes got;
		attempt([&] { got = f(); });
		same(c, got, want, what);
		steps++;
	}
	virtual void refused(const std::string &what, const std::function<void()> &f)
	{
		bool no = false;
		attempt([&] { no = refuses(f); });
		c.check(no, what + " was not refused");
		steps++;
	}

	uint64_t u64() { return c.u64() ^ salt; }
	uint64_t word() { return c.word64() ^ salt; }
	B128 w128() { B128 b = u128(c); return {b.lo ^ salt, b.hi ^ salt * 3}; }
	Bytes data(size_t n)
	{
		Bytes d = content(c, n);
		if (salt) for (size_t i = 0; i < n; i++) d[i] ^= uint8_t(salt >> (8 * (i & 7)));
		return d;
	}
	ref::Magma magma()
	{
		auto k = words(c);
		for (size_t i = 0; i < 8; i++) k[i] ^= uint32_t(salt >> (i * 4));
		return ref::Magma(k, rows(c));
	}
	KuzSpec kuz()
	{
		KuzSpec s = kuz_spec(c);
		s.k1.lo ^= salt;
		s.k2.hi ^= salt;
		return s;
	}

	// while a step goes on: uses the very objects of the step once more, from the state the
	// step found them in (only where asked for)
	bool reentrant = false;
	std::function<void()> again{};

	size_t steps = 0;

protected:
	struct Thing {
		virtual ~Thing() = default;
		virtual void destroy() = 0;
	};
	template <class T> struct Held final : Thing {
		explicit Held(T v) : v(std::move(v)) {}
		void destroy() override { wreck(v); }
		T v;
	};
	std::vector<std::unique_ptr<Thing>> things;
};

// ------------------------------------------------------------------ keys

// A Magma key made of things the caller owns
inline SP<gm::LazyKey> own_key(Env &e, const ref::Magma &m)
{
	Case &c = e.c;
	const bool z = m.rows == ref::rows_z();
	if (c.below(4) == 0) return e.make([&, form = c.word64()] {
		uint64_t s = form;
		Bytes tape(64);
		fill(tape, s);
		Case k(tape.data(), tape.size());
		return lazy_key(k, m).key;
	});
	const Bytes &uz = e.own(ref::collapse(m.rows));
	const auto sform = e.reentrant && c.below(2) ? c.below(2) * 3 : c.below(z ? 6 : 5);  // of the user, for choice
	std::vector<std::vector<int> *> row;
	if (sform == 1) for (size_t i = 0; i < 8; i++) row.push_back(&e.own(row_of(m.rows, i)));
	const SP<gm::Sbox> &sbox = e.handle<gm::Sbox>(e.make([&]() -> SP<gm::Sbox> {
		switch (sform) {
		case 0: return make_shared<UserSbox>(m.rows);
		case 1: return make_shared<gm::SboxTwisted>(make_unique<gm::SboxNibble>(*row[0], *row[1], *row[2], *row[3], *row[4], *row[5], *row[6], *row[7]));
		case 2: return make_shared<gm::SboxTwisted>(make_unique<gm::SboxByte>(make_unique<gm::SboxByte64Tab>(uz, 0), make_unique<gm::SboxByte64Tab>(uz, 1),
			make_unique<gm::SboxByte64Tab>(uz, 2), make_unique<gm::SboxByte64Tab>(uz, 3)));
		case 3: return make_shared<gm::SboxTwisted>(make_unique<gm::SboxByte>(make_unique<UserTab>(m.rows[0], m.rows[1]), make_unique<gm::SboxByte64Tab>(uz, 1),
			make_unique<UserTab>(m.rows[4], m.rows[5]), make_unique<gm::SboxByte64Tab>(uz, 3)));
		case 5: return make_shared<gm::SboxR3412>();
		default: return make_shared<gm::SboxTwisted>(make_unique<gm::SboxByte>(uz));
		}
	}));
	const std::string &text = e.own(spell(c, key_text(m.key)));
	const std::vector<uint32_t> &native = e.own(std::vector<uint32_t>(m.key.begin(), m.key.end()));
	const auto kform = c.below(z ? 7 : 6);
	return e.make([&]() -> SP<gm::LazyKey> {
		switch (kform) {
		case 0: return make_shared<gm::LazyKey>(text, sbox);
		case 1: return make_shared<gm::LazyKey>(native, sbox);
		case 2: return make_shared<gm::LazyKey>(make_unique<gm::KeyDataString>(text), sbox);
		case 3: return make_shared<gm::LazyKey>(make_unique<gm::KeyDataNative>(native), sbox);
		case 4: return make_shared<gm::LazyKey>(make_unique<gm::KeyCachedData>(make_unique<gm::KeyDataString>(text)), sbox);
		case 6: return make_shared<gm::LazyKey>(text);
		default: return make_shared<gm::LazyKey>(make_unique<gm::KeyCachedData>(make_unique<gm::KeyDataNative>(native)), sbox);
		}
	});
}
inline SP<gk::Key> own_kuz_key(Env &e, const KuzSpec &s)
{
	const std::string &text = e.own(spell(e.c, s.text()));
	const auto form = e.c.below(5);
	if (form == 4) {
		const SP<gk::Block> &h = e.handle<gk::Block>(e.make([&]() -> SP<gk::Block> { return make_shared<gk::BlkString>(text.substr(0, 32)); }));
		const SP<gk::Block> &l = e.handle<gk::Block>(e.make([&]() -> SP<gk::Block> { return make_shared<gk::BlkRaw>(s.k2.lo, s.k2.hi); }));
		const SP<gk::Key::Data> &d = e.handle<gk::Key::Data>(make_shared<UserKuzData>(h, l));
		return e.make([&]() -> SP<gk::Key> { return make_shared<gk::Key>(d); });
	}
	if (form == 3) {
		const SP<gk::Key::Data> &d = e.handle<gk::Key::Data>(e.make([&]() -> SP<gk::Key::Data> { return make_shared<gk::KeyDataString>(text); }));
		return e.make([&]() -> SP<gk::Key> { return make_shared<gk::Key>(d); });
	}
	return e.make([&]() -> SP<gk::Key> { return make_shared<gk::Key>(text); });
}

// ------------------------------------------------------------------ blocks

// perhaps without (some of) the leading zeros
inline std::string short_text(Case &c, const std::string &t)
{
	const size_t zeros = std::min(t.find_first_not_of('0'), t.size());
	if (zeros == 0 || c.below(4) == 0) return t;
	return t.substr(c.below(2) ? zeros : c.below(zeros + 1));
}
inline SP<gm::Block> &own_block64(Env &e, uint64_t v)
{
	const auto form = e.reentrant && e.c.below(2) ? 8 : e.c.below(9);
	const Bytes &bytes = e.own(b64(v));
	const std::string &text = e.own(spell(e.c, short_text(e.c, hex(v))));
	return e.handle<gm::Block>(e.make([&]() -> SP<gm::Block> {
		const uint32_t lo = uint32_t(v), hi = uint32_t(v >> 32);
		switch (form) {
		case 0: return make_shared<gm::BlkRaw>(v);
		case 1: return make_shared<gm::BlkRaw>(lo, hi);
		case 2: return make_shared<gm::BlkRaw>(std::make_pair(lo, hi));
		case 3: { const SP<gm::Block> b = make_shared<UserBlock64>(v); return make_shared<gm::BlkRaw>(b); }
		case 4:
		case 5: return make_shared<gm::BlkRaw>(bytes);
		case 6: {
			const auto mem = make_unique<uint32_t[]>(2);
			mem[0] = lo;
			mem[1] = hi;
			return make_shared<gm::BlkRaw>(static_cast<const void *>(mem.get()));
		}
		case 7: return make_shared<gm::BlkString>(text);
		default: return make_shared<UserBlock64>(v);
		}
	}));
}
inline SP<gk::Block> &own_block128(Env &e, B128 v)
{
	const auto form = e.reentrant && e.c.below(2) ? 2 : e.c.below(6);
	const std::string &text = e.own(spell(e.c, short_text(e.c, hex(v))));
	return e.handle<gk::Block>(e.make([&]() -> SP<gk::Block> {
		switch (form) {
		case 0: return make_shared<gk::BlkRaw>(v.lo, v.hi);
		case 1: return make_shared<gk::BlkRaw>(std::make_pair(v.lo, v.hi));
		case 2: return make_shared<UserBlock128>(v);
		case 3: { const SP<gk::Block> b = make_shared<UserBlock128>(v); return make_shared<gk::BlkRaw>(b); }
		case 4: {
			const auto mem = make_unique<uint64_t[]>(2);
			mem[0] = v.lo;
			mem[1] = v.hi;
			return make_shared<gk::BlkRaw>(static_cast<const void *>(mem.get()));
		}
		default: return make_shared<gk::BlkString>(text);
		}
	}));
}

// Block expressions of Magma: later ones over earlier ones
inline void magma_blocks(Env &e)
{
	Case &c = e.c;
	const ref::Magma m = e.magma();
	SP<gm::LazyKey> lazy = own_key(e, m);
	const SP<gm::Key> &key = e.handle<gm::Key>(lazy);
	std::vector<std::pair<SP<gm::Block> *, uint64_t>> b;
	for (size_t i = 0; i < 2; i++) { const uint64_t v = e.u64(); b.emplace_back(&own_block64(e, v), v); }
	const size_t n = c.range(1, 5);
	std::vector<std::pair<SP<gm::Block>, uint64_t>> show;
	for (size_t i = 0; i < n; i++) {
		const auto x = b[c.below(b.size())], y = b[c.below(b.size())], z = b[c.below(b.size())];
		const auto op = c.below(8);
		const int sh = int(c.below(64));
		uint64_t v = 0;
		const SP<gm::Block> r = e.make([&]() -> SP<gm::Block> {
			switch (op) {
			case 0: v = m.enc(x.second); return make_shared<gm::BlkEncrypted>(*x.first, key);
			case 1: v = m.dec(x.second); return make_shared<gm::BlkDecrypted>(*x.first, key);
			case 2: v = x.second ^ y.second; return make_shared<gm::BlkXored>(*x.first, *y.first);
			case 3: v = x.second ^ y.second ^ z.second; return make_shared<gm::BlkXored>(*x.first, *y.first, *z.first);
			case 4: v = x.second << 32 | x.second >> 32; return make_shared<gm::BlkSwapped>(*x.first);
			case 5: v = x.second << sh; return make_shared<gm::BlkShifted>(*x.first, sh);
			case 6: v = ref::feistel(m, x.second, false, 8); return make_shared<gm::BlkForwarded>(*x.first, key);
			default: v = x.second; return make_shared<gm::BlkBackwarded>(
				make_shared<gm::BlkSwapped>(make_shared<gm::BlkForwarded>(make_shared<gm::BlkSwapped>(make_shared<gm::BlkSwapped>(*x.first)), key)), key);
			}
		});
		if (op == 7) v = x.second << 32 | x.second >> 32;
		b.emplace_back(&e.handle<gm::Block>(r), v);
		show.emplace_back(r, v);
		c.label("magma block " + std::to_string(op));
	}
	const auto base = e.make([&] { return std::shared_ptr<const gm::EncryptionBase>(make_shared<gm::EncryptionBase>(key)); });
	const uint64_t q = e.u64();
	const auto imited = e.make([&] { return std::shared_ptr<const goost::gost89::ImitedBlock>(make_shared<goost::gost89::ImitedBlock>(gm::BlkRaw(q), lazy)); });
	lazy.reset();
	b.clear();
	e.built();
	for (int rep = 0; rep < 2; rep++) {
		for (const auto &s : show) e.step("magma block expression", [&] { return b64(val(*s.first)); }, b64(s.second));
		e.step("EncryptionBase", [&] { return b64(base->transform(q)); }, b64(m.enc(q)));
		e.step("ImitedBlock", [&] { return b64(val(imited->value())); }, b64(m.imit16(q)));
	}
}

inline void kuz_blocks(Env &e)
{
	Case &c = e.c;
	const KuzSpec s = e.kuz();
	const ref::Kuznyechik r(s.k1, s.k2);
	const SP<gk::Key> &key = e.handle<gk::Key>(own_kuz_key(e, s));
	std::vector<std::pair<SP<gk::Block> *, B128>> b;
	for (size_t i = 0; i < 2; i++) { const B128 v = e.w128(); b.emplace_back(&own_block128(e, v), v); }
	const size_t n = c.range(1, 5);
	std::vector<std::pair<SP<gk::Block>, B128>> show;
	for (size_t i = 0; i < n; i++) {
		const auto x = b[c.below(b.size())], y = b[c.below(b.size())], z = b[c.below(b.size())];
		const auto op = c.below(11);
		const int sh = int(c.below(128)), from = int(c.range(1, 30)), to = from + int(c.below(4));
		B128 v;
		const SP<gk::Block> o = e.make([&]() -> SP<gk::Block> {
			switch (op) {
			case 0: v = r.enc(x.second); return make_shared<gk::BlkEncrypted>(*x.first, key);
			case 1: v = r.enc(x.second); return SP<gk::Block>(key->encrypt(*x.first));
			case 2: v = x.second ^ y.second; return make_shared<gk::BlkXored>(*x.first, *y.first);
			case 3: v = x.second ^ y.second ^ z.second; return make_shared<gk::BlkXored>(*x.first, *y.first, *z.first);
			case 4: v = ref::inc(x.second); return make_shared<gk::BlkIncremented>(*x.first);
			case 5: v = ref::shl(x.second, sh); return make_shared<gk::BlkShifted>(*x.first, sh);
			case 6: v = ref::step_s(x.second); return make_shared<gk::BlkS>(*x.first);
			case 7: v = ref::step_r(x.second); return make_shared<gk::BlkR>(*x.first);
			case 8: v = ref::step_l(x.second); return make_shared<gk::BlkL>(*x.first);
			case 9: v = ref::key_steps(x.second, y.second, from, to).first; return make_shared<gk::BlkIterKey>(*x.first, *y.first, from, to);
			default: v = x.second; return make_shared<gk::BlkCached>(*x.first);
			}
		});
		b.emplace_back(&e.handle<gk::Block>(o), v);
		show.emplace_back(o, v);
		c.label("kuznyechik block " + std::to_string(op));
	}
	b.clear();
	e.built();
	for (int rep = 0; rep < 2; rep++)
		for (const auto &o : show) e.step("kuznyechik block expression", [&] { return b128(val(*o.first)); }, b128(o.second));
}

// ------------------------------------------------------------------ streams

struct Stage {
	int kind;  // 0 magma CFB, 1 gost89 CFB, 2 ECB
	std::shared_ptr<ref::Magma> m;
	SP<gm::Key> *key;
	std::vector<uint64_t> regs;
	SP<gm::Container> *container;
	Bytes apply(const Bytes &d, bool decrypt) const
	{
		auto enc = [&](uint64_t b) { return m->enc(b); };
		if (kind == 2) return decrypt ? ref::ecb([&](uint64_t b) { return m->dec(b); }, d) : ref::ecb(enc, d);
		return ref::cfb(enc, regs, d, decrypt);
	}
	SP<goost::Sink> sink(const SP<goost::Sink> &s) const
	{
		if (kind == 0) return make_shared<gm::CFBSink>(s, *key, regs[0], regs[1]);
		if (kind == 1) return make_shared<goost::gost89::CFBSink>(s, *key, regs[0]);
		return make_shared<gm::ECBSink>(s, *key);
	}
	SP<goost::Source> source(const SP<goost::Source> &s) const
	{
		if (kind == 0) return make_shared<gm::CFBSource>(s, *key, regs[0], regs[1]);
		if (kind == 1) return make_shared<goost::gost89::CFBSource>(s, *key, regs[0]);
		if (container) return make_shared<gm::ECBSource>(s, *container);
		return make_shared<gm::ECBSource>(s, *key);
	}
};
inline std::vector<Stage> stages(Env &e, bool source, bool &blocks)
{
	Case &c = e.c;
	std::vector<Stage> st;
	const size_t n = c.below(3) ? 1 : c.range(2, 3);
	for (size_t i = 0; i < n; i++) {
		Stage s;
		s.kind = int(c.below(3));
		s.container = nullptr;
		if (i && c.below(3) == 0) {
			s.m = st[0].m;
			s.key = st[0].key;
		} else {
			s.m = make_shared<ref::Magma>(e.magma());
			s.key = &e.handle<gm::Key>(own_key(e, *s.m));
		}
		if (s.kind == 2 && source && c.below(2)) s.container = &e.handle<gm::Container>(make_shared<UserContainer>(s.m->key, s.m->rows));
		for (int r = 0; r < 2 - s.kind; r++) s.regs.push_back(e.u64());
		blocks = blocks || s.kind == 2;
		st.push_back(s);
		c.label(std::string(s.kind == 0 ? "magma CFB " : s.kind == 1 ? "gost89 CFB " : s.container ? "ECB container " : "ECB ") + (source ? "source" : "sink"));
	}
	return st;
}
inline void sinks(Env &e)
{
	Case &c = e.c;
	bool blocks = false;
	const auto st = stages(e, false, blocks);
	size_t n = c.below(3) ? c.below(60) : c.below(400);
	if (blocks) n = n / 8 * 8;
	const Bytes d = e.data(n);
	Bytes want = d;
	for (const Stage &s : st) want = s.apply(want, false);
	auto pieces = split(c, n, st[0].kind == 2 ? 8 : 1, true);
	SP<goost::Sink> cur = e.handle<goost::Sink>(make_shared<MemSink>());
	for (size_t i = st.size(); i-- > 0;) cur = e.handle<goost::Sink>(e.make([&] { return st[i].sink(cur); }));
	e.built();
	const bool twice = c.chance(1, 6);  // the history from the first object on is run again
	const auto first = twice ? cur : nullptr;
	for (int rep = 0; rep < (twice ? 2 : 1); rep++) {
		if (rep) cur = first;
		size_t pos = 0;
		for (size_t k : pieces) {
			if (e.reentrant) e.again = [&, from = cur, pos] {
				SP<goost::Sink> s = from->write(to_data(d.data() + pos, n - pos));
				for (size_t i = 0; i < st.size(); i++) s = s->finalize();
				same(c, dynamic_cast<const MemSink &>(*s).record(), want, "the sink in use, written to once more");
			};
			e.step("write", [&] {
				const auto piece = make_unique<Data>(to_data(d.data() + pos, k));
				auto next = cur->write(*piece);
				for (auto &x : *piece) x ^= std::byte(0x55);  // the caller reuses its buffer
				cur = std::move(next);
				return Bytes();
			}, {});
			pos += k;
		}
		for (size_t i = 0; i + 1 < st.size(); i++) e.step("finalize", [&] { cur = cur->finalize(); return Bytes(); }, {});
		e.step("finalize", [&] {
			const auto f = cur->finalize();
			const auto *ms = dynamic_cast<const MemSink *>(f.get());
			if (!ms) throw pbt::Failure{"finalize did not return the underlying sink"};
			return ms->record();
		}, want);
	}
}
inline SP<goost::Source> base_source(Env &e, const Bytes &d)
{
	if (e.c.below(2)) return make_shared<MemSource>(d);
	const size_t most = e.c.range(1, 40);
	return make_shared<PieceSource>(d, most, e.c.word64());
}
inline void sources(Env &e)
{
	Case &c = e.c;
	bool blocks = false;
	const auto st = stages(e, true, blocks);
	size_t n = c.below(3) ? c.below(60) : c.below(400);
	if (blocks) n = n / 8 * 8;
	const Bytes d = e.data(n);
	Bytes want = d;
	for (const Stage &s : st) want = s.apply(want, true);
	SP<goost::Source> cur = e.handle<goost::Source>(base_source(e, d));
	for (const Stage &s : st) cur = e.handle<goost::Source>(e.make([&] { return s.source(cur); }));
	e.built();
	const bool ecb = st.back().kind == 2;
	const bool twice = c.chance(1, 6);
	const auto first = twice ? cur : nullptr;
	const size_t lim = c.below(2) ? 24 : 200;
	for (int rep = 0; rep < (twice ? 2 : 1); rep++) {
		if (rep) cur = first;
		size_t pos = 0;
		for (int turn = 0; turn < 60 && pos <= n; turn++) {
			size_t k = turn > 50 || c.below(6) == 0 ? everything(c) : c.range(ecb ? 8 : 1, lim);
			// the ECB source may deliver less than asked for: it is asked for what is left to compare
			Bytes all;
			size_t was = pos;
			if (e.reentrant) e.again = [&, from = cur, was] {
				SP<goost::Source> s = from;
				Bytes x;
				while (true) {
					const auto r = s->read(SIZE_MAX);
					if (r.first.empty()) break;
					for (auto b : r.first) x.push_back(uint8_t(b));
					c.check(x.size() <= n, "the source in use, read once more, does not end");
					s = r.second;
				}
				same(c, x, Bytes(want.begin() + long(was), want.end()), "the source in use, read once more");
			};
			e.step("read", [&] {
				const auto r = cur->read(k);
				Bytes x = to_bytes(r.first);
				if (x.size() > k || x.size() > n - was) throw pbt::Failure{"more was read than there is"};
				if (x.empty() && was < n) throw pbt::Failure{"nothing was read before the end"};
				pos = was + x.size();
				// compared inside, as the length is the library's choice
				if (!std::equal(x.begin(), x.end(), want.begin() + long(was))) throw pbt::Failure{"read wrong data: " + hex(x) + " at " + std::to_string(was) + " of " + hex(want)};
				cur = r.second;
				return Bytes();
			}, {});
			if (was == n) break;
		}
		c.check(pos == n, "the source did not end");
	}
}

// ------------------------------------------------------------------ MACs

inline void macs(Env &e)
{
	Case &c = e.c;
	const ref::Magma m = e.magma();
	const SP<gm::LazyKey> &key = e.own<SP<gm::LazyKey>>(own_key(e, m));
	if (c.below(2)) {
		c.label("gost89 MAC");
		const size_t n = c.below(3) ? c.below(40) : c.below(200);
		const Bytes &d = e.own(e.data(n));
		const Bytes tag = ref::imit89(m, d);
		const auto mac = e.make([&] { return std::shared_ptr<const goost::gost89::DataImit>(make_shared<goost::gost89::DataImit>(d, key)); });
		e.built();
		for (int i = 0; i < 2; i++) e.step("gost89 MAC", [&] { return mac->value(); }, tag);
	} else {
		c.label("magma MAC");
		const size_t n = 8 * (c.below(3) ? c.range(1, 5) : c.range(1, 25));
		const Bytes d = e.data(n);
		const Bytes tag = b64(ref::omac64_whole([&](uint64_t b) { return m.enc(b); }, d));
		const SP<goost::Source> &src = e.handle<goost::Source>(base_source(e, d));
		const auto mac = e.make([&]() -> SP<gm::Block> { return make_shared<gm::Imit>(src, key); });
		e.built();
		for (int i = 0; i < 2; i++) e.step("magma MAC", [&] { return b64(val(*mac)); }, tag);
	}
}

inline void kuz_streams(Env &e)
{
	Case &c = e.c;
	const size_t n = c.below(3) ? c.range(1, 7) : c.range(1, 40);
	std::vector<uint64_t> w(n);
	for (auto &x : w) x = e.u64();
	std::vector<B128> v;
	for (size_t i = 0; i < n; i += 2) v.push_back({w[i], i + 1 < n ? w[i + 1] : 0});
	SP<gk::Stream> st;
	if (c.below(3)) {
		const std::vector<uint64_t> &mine = e.own(w);
		st = e.handle<gk::Stream>(e.make([&]() -> SP<gk::Stream> { return make_shared<gk::StMemory>(mine); }));
		c.label("memory stream");
	} else {
		std::vector<UserStream::Item> items;
		for (size_t i = 0; i < v.size(); i++) items.push_back({v[i], i + 1 == v.size() && n % 2 ? size_t(8) : size_t(16)});
		st = e.handle<gk::Stream>(make_shared<UserStream>(items));
		c.label("user stream");
	}
	const KuzSpec s = e.kuz();
	const ref::Kuznyechik r(s.k1, s.k2);
	const SP<gk::Key> &key = e.handle<gk::Key>(own_kuz_key(e, s));
	const size_t layers = c.below(3);
	for (size_t l = 0; l < layers; l++) {
		const uint64_t iv = e.u64();
		st = e.handle<gk::Stream>(e.make([&]() -> SP<gk::Stream> { return make_shared<gk::StCTREncrypted>(st, key, iv); }));
		for (size_t i = 0; i < v.size(); i++) v[i] = v[i] ^ r.ctr(iv, i);
		c.label("CTR stream");
	}
	if (n % 2 == 0 && c.below(3) == 0) {
		c.label("kuznyechik MAC");
		const auto mac = e.make([&]() -> SP<gk::Block> { return make_shared<gk::Imit>(st, key); });
		const Bytes tag = b128(r.omac(v, true));
		st.reset();
		e.built();
		for (int i = 0; i < 2; i++) e.step("kuznyechik MAC", [&] { return b128(val(*mac)); }, tag);
		return;
	}
	SP<gk::Iterator> it;
	e.built();
	const bool keep = c.below(3) == 0;
	auto first = [&](const SP<gk::Iterator> &x, size_t i) {
		Bytes b = b128(val(*x)), w = b128(v[i]);
		const size_t size = i + 1 == v.size() && n % 2 ? 8 : 16;
		b.resize(size);
		w.resize(size);
		same(c, b, w, "the stream in use, walked once more");
	};
	if (e.reentrant) e.again = [&, st] { first(st->iter(), 0); };
	e.step("iter", [&] { it = st->iter(); return Bytes(); }, {});
	if (!keep) st.reset();
	for (size_t i = 0; i < v.size(); i++) {
		const size_t size = i + 1 == v.size() && n % 2 ? 8 : 16;
		if (c.below(4)) e.step("value of an iterator", [&] { Bytes b = b128(val(*it)); b.resize(size); return b; }, [&] { Bytes b = b128(v[i]); b.resize(size); return b; }());
		e.step("shape of an iterator", [&] { return Bytes{uint8_t(it->last()), uint8_t(it->size())}; }, {uint8_t(i + 1 == v.size()), uint8_t(size)});
		if (e.reentrant) e.again = [&, it, i] { const auto x = it->next(); if (x) first(x, i + 1); else c.check(i + 1 == v.size(), "the stream in use ends early"); };
		if (i + 1 < v.size()) e.step("next", [&] { it = it->next(); return Bytes(); }, {});
	}
	if (keep) e.step("iter again", [&] { Bytes b = b128(val(*st->iter())); b.resize(8); return b; }, [&] { Bytes b = b128(v[0]); b.resize(8); return b; }());
}

// ------------------------------------------------------------------ refusals

template <class T> const T &there(const T &p)
{
	if (!p) throw std::runtime_error("refused when it was made");
	return p;
}
inline void refusals(Env &e)
{
	Case &c = e.c;
	const ref::Magma m = e.magma();
	const uint64_t v = e.u64();
	const KuzSpec s = e.kuz();
	const auto kind = c.below(9);
	c.label("refusal " + std::to_string(kind));
	std::string text = kind < 2 ? key_text(m.key) : kind == 2 ? s.text() : kind == 3 ? hex(v) : hex(s.k1);
	if (kind < 5) {
		const auto at = c.below(text.size());
		switch (kind >= 3 ? 1 + c.below(2) : c.below(3)) {
		case 0: text.erase(at, 1); break;
		case 1: text.insert(at, 1, '7'); break;
		default: text[at] = "gGx -+z."[c.below(8)]; break;
		}
	}
	const std::string &mine = e.own(text);
	const int twice = int(c.range(1, 3));
	switch (kind) {
	case 0: {
		const auto kd = e.make_unless_refused([&] { return SP<gm::KeyData>(make_shared<gm::KeyDataString>(mine)); });
		e.built();
		for (int i = 0; i < twice; i++) e.refused("key text " + text, [&] { for (int j = 0; j < 8; j++) there(kd)->key(j); });
		return;
	}
	case 1: {
		for (int i = 0; i < twice; i++) e.refused("key text " + text, [&] {
			const SP<gm::LazyKey> key = make_shared<gm::LazyKey>(mine);
			val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(v), key));
		});
		return;
	}
	case 2: {
		for (int i = 0; i < twice; i++) e.refused("key text " + text, [&] {
			const SP<gk::Key> key = make_shared<gk::Key>(mine);
			val(*key->encrypt(make_shared<gk::BlkRaw>(v)));
		});
		return;
	}
	case 3:
	case 4: {
		const bool small = kind == 3;
		const SP<gm::Block> a = small ? e.make_unless_refused([&]() -> SP<gm::Block> { return make_shared<gm::BlkString>(mine); }) : nullptr;
		const SP<gk::Block> b = small ? nullptr : e.make_unless_refused([&]() -> SP<gk::Block> { return make_shared<gk::BlkCached>(make_shared<gk::BlkString>(mine)); });
		e.built();
		for (int i = 0; i < twice; i++) e.refused("block text " + text, [&] { if (small) val(*there(a)); else val(*there(b)); });
		return;
	}
	case 5: {  // a key or table with something missing
		std::vector<uint32_t> &w = e.own(std::vector<uint32_t>(m.key.begin(), m.key.end()));
		w.resize(c.below(8));
		const auto cached = c.below(2);
		const SP<gm::Sbox> &sbox = e.handle<gm::Sbox>(make_shared<UserSbox>(m.rows));
		const auto key = e.make_unless_refused([&]() -> SP<gm::Key> {
			if (cached) return make_shared<gm::LazyKey>(make_unique<gm::KeyCachedData>(make_unique<gm::KeyDataNative>(w)), sbox);
			return make_shared<gm::LazyKey>(w, sbox);
		});
		const auto blk = e.make_unless_refused([&]() -> SP<gm::Block> { return make_shared<gm::BlkEncrypted>(make_shared<gm::BlkRaw>(v), there(key)); });
		e.built();
		for (int i = 0; i < twice; i++) e.refused("a key of too few words", [&] { val(*there(blk)); });
		return;
	}
	case 6: {  // ECB: misaligned write, then on
		const SP<gm::Key> &key = e.handle<gm::Key>(own_key(e, m));
		const Bytes d = e.data(16);
		const size_t odd = c.range(1, 3) * 8 - c.range(1, 7);
		SP<goost::Sink> cur = e.make([&]() -> SP<goost::Sink> { return make_shared<gm::ECBSink>(make_shared<MemSink>(), key); });
		e.built();
		for (int i = 0; i < twice; i++) e.refused("a write of " + std::to_string(odd) + " bytes to the ECB sink", [&] { cur->write(Data(odd)); });
		e.step("write", [&] { cur = cur->write(to_data(d)); return Bytes(); }, {});
		e.step("finalize", [&] { const auto f = cur->finalize(); return dynamic_cast<const MemSink &>(*f).record(); }, ref::ecb([&](uint64_t b) { return m.enc(b); }, d));
		return;
	}
	case 7: {  // ECB: ciphertext that ends inside a block
		const SP<gm::Key> &key = e.handle<gm::Key>(own_key(e, m));
		const Bytes d = e.data(c.below(3) * 8 + c.range(1, 7));
		const SP<goost::Source> &base = e.handle<goost::Source>(base_source(e, d));
		const SP<goost::Source> src = e.make([&]() -> SP<goost::Source> { return make_shared<gm::ECBSource>(base, key); });
		e.built();
		for (int i = 0; i < twice; i++) e.refused("ciphertext that ends inside a block", [&] { SP<goost::Source> s = src; for (int j = 0; j < 4; j++) s = s->read(8).second; });
		return;
	}
	default: {  // a stream of nothing has no block
		const SP<gk::Key> &key = e.handle<gk::Key>(own_kuz_key(e, s));
		const std::string &bad = e.own(std::string("xyz"));
		const SP<gk::Block> x = e.make_unless_refused([&]() -> SP<gk::Block> { return make_shared<gk::BlkEncrypted>(make_shared<gk::BlkXored>(make_shared<gk::BlkRaw>(v), make_shared<gk::BlkString>(bad)), key); });
		e.built();
		for (int i = 0; i < twice; i++) e.refused("a block over malformed text", [&] { val(*there(x)); });
		return;
	}
	}
}

// Parts of keys used by themselves: key data, lookup tables, tables; a key made of them late
inline void parts(Env &e)
{
	Case &c = e.c;
	const ref::Magma m = e.magma();
	const KuzSpec k = e.kuz();
	const ref::Kuznyechik r(k.k1, k.k2);
	const std::string &text = e.own(spell(c, key_text(m.key)));
	const std::vector<uint32_t> &native = e.own(std::vector<uint32_t>(m.key.begin(), m.key.end()));
	const Bytes &uz = e.own(ref::collapse(m.rows));
	const std::string &kuz_text = e.own(spell(c, k.text()));
	std::vector<std::vector<int> *> row;
	for (size_t i = 0; i < 8; i++) row.push_back(&e.own(row_of(m.rows, i)));
	std::vector<SP<gm::KeyData>> data;
	std::vector<SP<gm::Sbox>> tables;
	std::vector<std::pair<SP<gm::SboxByte::Tab>, unsigned>> tabs;
	SP<gk::Key::Data> kuz;
	SP<gm::LazyKey> key;
	const uint64_t which = c.range(1, 31);
	if (which & 1) data.push_back(e.make([&]() -> SP<gm::KeyData> {
		switch (which / 2 % 3) {
		case 0: return make_shared<gm::KeyDataString>(text);
		case 1: return make_shared<gm::KeyDataNative>(native);
		default: return make_shared<gm::KeyCachedData>(make_unique<gm::KeyDataString>(text));
		}
	}));
	if (which & 2) tables.push_back(e.make([&]() -> SP<gm::Sbox> {
		switch (which / 4 % 3) {
		case 0: return make_shared<gm::SboxNibble>(*row[0], *row[1], *row[2], *row[3], *row[4], *row[5], *row[6], *row[7]);
		case 1: return make_shared<gm::SboxByte>(uz);
		default: return make_shared<gm::SboxByte>(make_unique<gm::SboxByte64Tab>(uz, 0), make_unique<gm::SboxByte64Tab>(uz, 1), make_unique<UserTab>(m.rows[4], m.rows[5]), make_unique<gm::SboxByte64Tab>(uz, 3));
		}
	}));
	if (which & 4) {
		const unsigned j = unsigned(c.below(4));
		tabs.emplace_back(e.make([&]() -> SP<gm::SboxByte::Tab> { return make_shared<gm::SboxByte64Tab>(uz, int(j)); }), j);
	}
	if (which & 8) kuz = e.make([&]() -> SP<gk::Key::Data> { return make_shared<gk::KeyDataString>(kuz_text); });
	if (which & 16) key = own_key(e, m);
	e.built();
	const size_t n = c.range(1, 3);
	for (size_t rep = 0; rep < n; rep++) {
		const uint64_t v = e.word();
		const int i = int(v >> 40 & 7);
		const uint32_t w = uint32_t(v);
		auto b32 = [](uint32_t x) { return b64(x); };
		for (const auto &d : data) e.step("word of key data", [&] { return b32(d->key(i)); }, b32(m.key[size_t(i)]));
		for (const auto &t : tables) e.step("table", [&] { return b32(t->transform(w)); }, b32(ref::substitute(m.rows, w)));
		for (const auto &t : tabs) e.step("lookup", [&] { return b32(t.first->translate(int(w & 255))); },
			b32(uint32_t(m.rows[t.second * 2][w & 15] | m.rows[t.second * 2 + 1][w >> 4 & 15] << 4)));
		if (key) e.step("transform of a key", [&] { return b32(key->transform(w, i)); }, b32(ref::rol11(ref::substitute(m.rows, w + m.key[size_t(i)]))));
		if (kuz) {
			e.step("high half of a key", [&] { return b128(val(*kuz->high())); }, b128(k.k1));
			e.step("low half of a key", [&] { return b128(val(*kuz->low())); }, b128(k.k2));
			const B128 b = e.w128();
			e.step("a key made now", [&] { return b128(val(*gk::Key(kuz).encrypt(make_shared<gk::BlkRaw>(b.lo, b.hi)))); }, b128(r.enc(b)));
		}
	}
}

constexpr unsigned kinds = 8;
inline void run(Env &e, unsigned kind)
{
	switch (kind % kinds) {
	case 0: magma_blocks(e); return;
	case 1: sinks(e); return;
	case 2: sources(e); return;
	case 3: macs(e); return;
	case 4: kuz_blocks(e); return;
	case 5: kuz_streams(e); return;
	case 6: refusals(e); return;
	default: parts(e); return;
	}
}
inline const char *name(unsigned kind)
{
	static const char *const n[] = {"magma blocks", "sinks", "sources", "MACs", "kuznyechik blocks", "kuznyechik streams", "refusals", "parts of keys"};
	return n[kind % kinds];
}

}  // namespace scene
