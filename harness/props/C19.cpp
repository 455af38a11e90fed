// Objects shared between threads: every thread gets the single-threaded answer.
#include "../gens.h"
#include <sched.h>
#include <thread>
#include <time.h>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C19";
const char *const pbt::property_rule =
	"2..4 threads are generated, each with 1..6 operations on shared, freshly built objects (cached key data, Magma and Kuznyechik keys, cached blocks, streams and iterators, MACs, sinks, sources) or on objects of "
	"its own; the user's key data, containers, tables, blocks, streams, sources and sinks behind the shared object pause at generated points until the other threads have moved on (or 3 ms), and fail for the threads chosen to fail, "
	"so that the other threads meet a half-finished or failed first evaluation; every result is compared with the reference model. Built once plain and once with ThreadSanitizer (any reported race fails the case). "
	"Non-trivial: at least two threads use one shared lazily evaluated object for the first time.";

namespace {

// Progress of the threads. All accesses are relaxed so that the stand-ins order nothing
// between the threads: ThreadSanitizer still sees races in the library.
struct Board {
	std::atomic<unsigned> ready{0};
	std::atomic<unsigned> ticks{0};     // operations begun or finished by anyone
	unsigned threads = 0;
	std::atomic<unsigned> pauses{0};
};
thread_local bool t_fails = false;   // this thread's evaluations fail

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define WITH_TSAN 1
#endif
#endif

void nap() { timespec t{0, 20000}; nanosleep(&t, nullptr); }

struct Gate {
	std::shared_ptr<Board> board;
	std::vector<unsigned> when;      // evaluation steps at which to wait
	unsigned limit_us = 3000;
	std::shared_ptr<std::atomic<unsigned>> step = make_shared<std::atomic<unsigned>>(0);
	unsigned fail_at = ~0u;          // step (modulo 16) at which failing threads fail
	void pass() const
	{
		if (!board) return;
		const unsigned n = step->fetch_add(1, std::memory_order_relaxed);
		for (unsigned w : when) if (w == n) {
			const unsigned seen = board->ticks.load(std::memory_order_relaxed);
			board->pauses.fetch_add(1, std::memory_order_relaxed);
			timespec a, b;
			clock_gettime(CLOCK_MONOTONIC, &a);
			do {
				nap();
				clock_gettime(CLOCK_MONOTONIC, &b);
			} while (board->ticks.load(std::memory_order_relaxed) < seen + 2 &&
				(b.tv_sec - a.tv_sec) * 1000000 + (b.tv_nsec - a.tv_nsec) / 1000 < long(limit_us));
		}
		if (t_fails && n % 16 >= fail_at % 16) throw Fault(n);
	}
};
class GatedKeyData final : public gm::KeyData {
public:
	GatedKeyData(const std::array<uint32_t, 8> &k, const Gate &g) : k(k), g(g) {}
	uint32_t key(int index) const override { g.pass(); return k.at(size_t(index)); }
private:
	const std::array<uint32_t, 8> k;
	const Gate g;
};
class GatedBlock128 final : public gk::Block {
public:
	GatedBlock128(const B128 &v, const Gate &g) : v(v), g(g) {}
	std::pair<uint64_t, uint64_t> value() const override { g.pass(); return {v.lo, v.hi}; }
private:
	const B128 v;
	const Gate g;
};
class GatedSbox final : public gm::Sbox {
public:
	GatedSbox(const Rows &r, const Gate &g) : rows(r), g(g) {}
	uint32_t transform(uint32_t v) const override { g.pass(); return ref::rol11(ref::substitute(rows, v)); }
private:
	const Rows rows;
	const Gate g;
};
class GatedStream final : public gk::Stream {
public:
	GatedStream(const std::vector<B128> &v, const Gate &g) : v(make_shared<std::vector<B128>>(v)), g(g) {}
	SP<gk::Iterator> iter() const override { g.pass(); return make_shared<It>(v, 0, g); }
private:
	class It final : public gk::Iterator {
	public:
		It(std::shared_ptr<const std::vector<B128>> v, size_t i, const Gate &g) : v(v), i(i), g(g) {}
		std::pair<uint64_t, uint64_t> value() const override { g.pass(); return {(*v)[i].lo, (*v)[i].hi}; }
		bool last() const override { g.pass(); return i + 1 == v->size(); }
		size_t size() const override { g.pass(); return 16; }
		SP<gk::Iterator> next() const override
		{
			g.pass();
			if (i + 1 >= v->size()) return {};
			return make_shared<It>(v, i + 1, g);
		}
	private:
		const std::shared_ptr<const std::vector<B128>> v;
		const size_t i;
		const Gate g;
	};
	const std::shared_ptr<const std::vector<B128>> v;
	const Gate g;
};
class GatedSource final : public goost::Source {
public:
	GatedSource(const Bytes &b, const Gate &g) : d(make_shared<Bytes>(b)), pos(0), g(g) {}
	std::pair<Data, SP<goost::Source>> read(size_t size) const override
	{
		g.pass();
		const size_t n = std::min(size, d->size() - pos);
		return {to_data(d->data() + pos, n), std::shared_ptr<const Source>(new GatedSource(d, pos + n, g))};
	}
private:
	GatedSource(std::shared_ptr<const Bytes> d, size_t pos, const Gate &g) : d(d), pos(pos), g(g) {}
	const std::shared_ptr<const Bytes> d;
	const size_t pos;
	const Gate g;
};
class GatedContainer final : public gm::Container {
public:
	GatedContainer(const std::array<uint32_t, 8> &k, const Rows &r, const Gate &g) : c(k, r), g(g) {}
	Data key() const override { g.pass(); return c.key(); }
	Data mask() const override { g.pass(); return c.mask(); }
	Data sbox() const override { g.pass(); return c.sbox(); }
private:
	const UserContainer c;
	const Gate g;
};
class GatedKuzData final : public gk::Key::Data {
public:
	GatedKuzData(const SP<gk::Block> &h, const SP<gk::Block> &l, const Gate &g) : h(h), l(l), g(g) {}
	SP<gk::Block> high() const override { g.pass(); return h; }
	SP<gk::Block> low() const override { g.pass(); return l; }
private:
	const SP<gk::Block> h, l;
	const Gate g;
};
// A sink with nothing shared and nothing mutable
class PlainSink final : public goost::Sink {
public:
	explicit PlainSink(const Bytes &d, const Gate &g = {}) : d(d), g(g) {}
	SP<goost::Sink> write(const Data &x) const override
	{
		g.pass();
		Bytes n = d;
		for (std::byte b : x) n.push_back(uint8_t(b));
		return make_shared<PlainSink>(n, g);
	}
	SP<goost::Sink> finalize() const override { g.pass(); return make_shared<PlainSink>(d, g); }
	const Bytes d;
private:
	const Gate g;
};
Bytes got_of(const SP<goost::Sink> &s)
{
	const auto *p = dynamic_cast<const PlainSink *>(s.get());
	return p ? p->d : Bytes{0xde, 0xad};
}

struct World {
	explicit World(Case &c) : c(c) {}
	Case &c;
	std::shared_ptr<Board> board = make_shared<Board>();
	bool may_fail = false;
	ref::Magma m{{{0}}, ref::rows_z()};
	KuzSpec spec{};
	std::shared_ptr<ref::Kuznyechik> r;

	// shared objects
	std::shared_ptr<gm::KeyData> data;
	SP<gm::LazyKey> key;
	SP<gk::Key> kkey;
	SP<gk::Block> cached;
	B128 cached_v;
	SP<gk::Stream> stream;
	std::vector<B128> plain, ctr;
	SP<gk::Iterator> iter;
	SP<goost::Sink> sinks[3];
	SP<goost::Source> sources[3];
	SP<gm::Block> mac;
	SP<gk::Block> kmac;
	std::shared_ptr<const goost::gost89::DataImit> mac89;
	Bytes msg, msg8;
	std::vector<uint64_t> regs{0, 0};
	uint64_t iv = 0;

	Gate gate(unsigned steps)
	{
		Gate g;
		g.board = board;
		const uint64_t n = c.below(4);
		for (uint64_t i = 0; i < n; i++) g.when.push_back(unsigned(c.below(steps)));
		if (may_fail) g.fail_at = unsigned(c.below(steps));
		return g;
	}
	SP<gm::Sbox> sbox()
	{
		if (m.rows == ref::rows_z() && c.below(2)) return make_shared<gm::SboxR3412>();
		if (c.below(2)) return make_shared<gm::SboxTwisted>(plain_sbox(c, m.rows));
		return make_shared<GatedSbox>(m.rows, gate(40));
	}
	SP<gm::LazyKey> magma_key()
	{
		switch (c.below(4)) {
		case 0: return make_shared<gm::LazyKey>(key_text(m.key), sbox());
		case 1: return make_shared<gm::LazyKey>(std::vector<uint32_t>(m.key.begin(), m.key.end()), sbox());
		default: return make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<GatedKeyData>(m.key, gate(9))), sbox());
		}
	}
	SP<gk::Key> kuz_key_object()
	{
		switch (c.below(4)) {
		case 0: return make_shared<gk::Key>(spec.text());
		case 1: return make_shared<gk::Key>(make_shared<GatedKuzData>(make_shared<GatedBlock128>(spec.k1, gate(2)), make_shared<GatedBlock128>(spec.k2, gate(2)), gate(2)));
		default: break;
		}
		return make_shared<gk::Key>(make_shared<UserKuzData>(make_shared<GatedBlock128>(spec.k1, gate(2)), make_shared<GatedBlock128>(spec.k2, gate(2))));
	}
	SP<goost::Source> source(const Bytes &b)
	{
		if (c.below(2)) return make_shared<MemSource>(b);
		return make_shared<GatedSource>(b, gate(6));
	}
	void build()
	{
		m = magma(c);
		spec = kuz_spec(c);
		r = make_shared<ref::Kuznyechik>(spec.k1, spec.k2);
		data = make_shared<gm::KeyCachedData>(std::make_unique<GatedKeyData>(m.key, gate(9)));
		key = magma_key();
		kkey = kuz_key_object();
		cached_v = u128(c);
		switch (c.below(4)) {
		case 0: cached = make_shared<gk::BlkCached>(make_shared<GatedBlock128>(cached_v, gate(2))); break;
		case 1: cached = make_shared<gk::BlkCached>(make_shared<gk::BlkL>(make_shared<GatedBlock128>(cached_v, gate(2)))); cached_v = ref::step_l(cached_v); break;
		case 2: cached = make_shared<gk::BlkCached>(make_shared<gk::BlkEncrypted>(make_shared<gk::BlkRaw>(cached_v.lo, cached_v.hi), kkey)); cached_v = r->enc(cached_v); break;
		default: cached = make_shared<gk::BlkCached>(make_shared<gk::BlkCached>(make_shared<GatedBlock128>(cached_v, gate(2)))); break;
		}
		const size_t n = c.range(1, 4);
		std::vector<uint64_t> w;
		iv = c.u64();
		for (size_t i = 0; i < n; i++) {
			const B128 x = u128(c);
			plain.push_back(x);
			ctr.push_back(x ^ r->ctr(iv, i));
			w.push_back(x.lo);
			w.push_back(x.hi);
		}
		SP<gk::Stream> mem;
		if (c.below(2)) mem = make_shared<gk::StMemory>(w);
		else mem = make_shared<GatedStream>(plain, gate(unsigned(4 * n)));
		stream = make_shared<gk::StCTREncrypted>(mem, kkey, iv);
		if (c.below(2)) iter = stream->iter();  // else the threads are the first to ask
		kmac = make_shared<gk::Imit>(mem, kkey);
		msg = content(c, c.below(40));
		msg8 = content(c, 8 * c.range(1, 4));
		for (auto &x : regs) x = c.u64();
		const auto base = c.below(2) ? make_shared<PlainSink>(Bytes()) : make_shared<PlainSink>(Bytes(), gate(4));
		sinks[0] = make_shared<gm::CFBSink>(base, key, regs[0], regs[1]);
		sinks[1] = make_shared<goost::gost89::CFBSink>(base, key, regs[0]);
		sinks[2] = make_shared<gm::ECBSink>(base, key);
		const auto source = this->source(msg);
		sources[0] = make_shared<gm::CFBSource>(source, key, regs[0], regs[1]);
		sources[1] = make_shared<goost::gost89::CFBSource>(source, key, regs[0]);
		if (c.below(2)) sources[2] = make_shared<gm::ECBSource>(this->source(msg8), key);
		else sources[2] = make_shared<gm::ECBSource>(this->source(msg8), make_shared<GatedContainer>(m.key, m.rows, gate(3)));
		mac = make_shared<gm::Imit>(this->source(msg8), key);
		mac89 = make_shared<goost::gost89::DataImit>(msg, key);
	}

	// one operation: gives the bytes of the answer; the expected bytes are computed beforehand
	struct Op {
		int kind;
		Bytes want;
		std::function<Bytes()> run;
	};
	static Bytes b64(uint64_t v) { Bytes b(8); ref::put_le64(&b[0], v); return b; }
	static Bytes b128(const B128 &v) { Bytes b = b64(v.lo), h = b64(v.hi); b.insert(b.end(), h.begin(), h.end()); return b; }
	Op op(int focus)
	{
		auto enc = [&](uint64_t b) { return m.enc(b); };
		auto dec = [&](uint64_t b) { return m.dec(b); };
		const int kind = c.below(4) ? focus : int(c.below(14));
		switch (kind) {
		case 0: { const int i = int(c.below(8)); return {kind, b64(m.key[size_t(i)]), [this, i] { return b64(data->key(i)); }}; }
		case 1: return {kind, b128(cached_v), [this] { return b128(val(*cached)); }};
		case 2: { const uint64_t v = c.u64(); return {kind, b64(m.enc(v)), [this, v] { return b64(val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(v), key))); }}; }
		case 3: { const uint64_t v = c.u64(); return {kind, b64(m.dec(v)), [this, v] { return b64(val(gm::BlkDecrypted(make_shared<gm::BlkRaw>(v), key))); }}; }
		case 4: { const B128 v = u128(c); return {kind, b128(r->enc(v)), [this, v] { return b128(val(*kkey->encrypt(make_shared<gk::BlkRaw>(v.lo, v.hi)))); }}; }
		case 5: {
			Bytes want;
			for (auto &x : ctr) { const Bytes b = b128(x); want.insert(want.end(), b.begin(), b.end()); }
			const bool shared = iter && c.below(2);
			return {kind, want, [this, shared] {
				Bytes out;
				for (SP<gk::Iterator> it = shared ? iter : stream->iter(); it; it = it->next()) { const Bytes b = b128(val(*it)); out.insert(out.end(), b.begin(), b.end()); }
				return out;
			}};
		}
		case 6: return {kind, b64(ref::omac64_whole(enc, msg8)), [this] { return b64(val(*mac)); }};
		case 7: return {kind, b128(r->omac(plain, true)), [this] { return b128(val(*kmac)); }};
		case 8: return {kind, ref::imit89(m, msg), [this] { return mac89->value(); }};
		case 9: {
			const size_t k = c.below(3);
			const Bytes d = content(c, k == 2 ? 8 * c.range(1, 3) : c.below(30));
			const Bytes want = k == 2 ? ref::ecb(enc, d) : ref::cfb(enc, std::vector<uint64_t>(regs.begin(), regs.begin() + (k == 0 ? 2 : 1)), d, false);
			return {kind, want, [this, k, d] { return got_of(sinks[k]->write(to_data(d))->finalize()); }};
		}
		case 10: {
			const size_t k = c.below(3);
			const Bytes want = k == 2 ? ref::ecb(dec, msg8) : ref::cfb(enc, std::vector<uint64_t>(regs.begin(), regs.begin() + (k == 0 ? 2 : 1)), msg, true);
			return {kind, want, [this, k] {
				Bytes out;
				SP<goost::Source> s = sources[k];
				while (true) {
					const auto x = s->read(9);
					if (x.first.empty()) break;
					for (std::byte b : x.first) out.push_back(uint8_t(b));
					s = x.second;
				}
				return out;
			}};
		}
		case 11: { const uint64_t v = c.u64(); return {kind, b64(m.enc(v)), [this, v] { return b64(gm::EncryptionBase(key).transform(v)); }}; }
		case 12: {  // objects of this thread alone: a Magma key
			auto k = words(c);
			const ref::Magma own(k, m.rows);
			const uint64_t v = c.u64();
			const bool z = m.rows == ref::rows_z();
			return {kind, b64(own.enc(v)), [own, v, z] {
				const auto q = z ? make_shared<gm::LazyKey>(key_text(own.key)) : make_shared<gm::LazyKey>(key_text(own.key), make_shared<gm::SboxTwisted>(std::make_unique<gm::SboxByte>(ref::collapse(own.rows))));
				return b64(val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(v), q)));
			}};
		}
		default: {  // and a Kuznyechik key
			const KuzSpec s = kuz_spec(c);
			const ref::Kuznyechik own(s.k1, s.k2);
			const B128 v = u128(c);
			return {kind, b128(own.enc(v)), [s, v] {
				const gk::Key q(s.text());
				return b128(val(*q.encrypt(make_shared<gk::BlkRaw>(v.lo, v.hi))));
			}};
		}
		}
	}
};
const char *const op_names[] = {"cached key data", "cached block", "Magma encryption", "Magma decryption", "Kuznyechik encryption", "CTR stream", "Magma MAC", "Kuznyechik MAC",
	"GOST 28147-89 MAC", "sinks", "sources", "integer interface", "own Magma key", "own Kuznyechik key"};

}  // namespace

void pbt::property(Case &c)
{
	World w(c);
	w.may_fail = c.chance(1, 3);
#ifdef WITH_TSAN
	// ThreadSanitizer's pthread_once does not survive an exception, so a library using
	// std::call_once would hang here though it is right; the plain build covers failures.
	w.may_fail = false;
#endif
	w.build();
	const unsigned threads = unsigned(c.range(2, 4));
	const int focus = int(c.below(14));
	struct Thread {
		std::vector<World::Op> ops;
		bool fails = false;
		unsigned delay = 0;
		std::vector<Bytes> got;
		std::vector<int> how;  // 0 result, 1 injected fault, 2 other exception
		std::string other;
	};
	std::vector<Thread> ts(threads);
	for (auto &t : ts) {
		const size_t n = c.range(1, 6);
		for (size_t i = 0; i < n; i++) t.ops.push_back(w.op(focus));
		t.delay = unsigned(c.chance(1, 3) ? c.below(60) : 0);
	}
	if (w.may_fail) ts[c.below(threads)].fails = true;
	c.note([&](auto &o) {
		o << threads << " threads on " << op_names[focus] << (w.may_fail ? ", one of them failing" : "") << ":";
		for (auto &t : ts) { o << " ["; for (auto &p : t.ops) o << " " << p.kind; o << " ]" << (t.fails ? "F" : ""); }
	});
	const auto board = w.board;
	board->threads = threads;
	std::vector<std::thread> pool;
	for (auto &t : ts) pool.emplace_back([&t, board, threads] {
		t_fails = t.fails;
		board->ready.fetch_add(1, std::memory_order_relaxed);
		for (unsigned spins = 0; board->ready.load(std::memory_order_relaxed) < threads; spins++) if (spins > 1000) sched_yield();
		for (unsigned i = 0; i < t.delay; i++) for (volatile int k = 0; k < 50; k = k + 1) {}
		for (auto &o : t.ops) {
			board->ticks.fetch_add(1, std::memory_order_relaxed);
			try {
				t.got.push_back(o.run());
				t.how.push_back(0);
			} catch (const Fault &) {
				t.got.emplace_back();
				t.how.push_back(1);
			} catch (const std::exception &e) {
				t.got.emplace_back();
				t.how.push_back(2);
				t.other = e.what();
			}
			board->ticks.fetch_add(1, std::memory_order_relaxed);
		}
	});
	for (auto &p : pool) p.join();
	t_fails = false;
	for (size_t i = 0; i < ts.size(); i++) for (size_t k = 0; k < ts[i].ops.size(); k++) {
		const std::string what = std::string(op_names[ts[i].ops[k].kind]) + " in thread " + std::to_string(i);
		c.check(ts[i].how[k] != 2, what + ": exception " + ts[i].other);
		if (ts[i].how[k] == 1) { c.check(ts[i].fails, what + ": the failure of another thread's evaluation"); continue; }
		same(c, ts[i].got[k], ts[i].ops[k].want, what);
	}
	// and afterwards, in this thread
	for (auto &t : ts) for (auto &o : t.ops) same(c, o.run(), o.want, std::string(op_names[o.kind]) + " afterwards");
	c.label(op_names[focus]);
	c.label(w.may_fail, "a thread fails");
	c.label(board->pauses.load() > 0, "paused in the middle of an evaluation");
	c.nontrivial(focus != 12 && focus != 13);
}

std::string pbt::property_once() { return ""; }
