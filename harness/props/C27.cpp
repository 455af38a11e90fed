// The work of streaming is proportional to the message, its memory constant.
#include "../gens.h"
#include <cstdlib>
#include <malloc.h>
#include <new>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/Imit.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C27";
const char *const pbt::property_rule =
	"an operation (CFB and ECB sinks written in one piece, in pieces of 1..200 bytes or in large ones; sources read the same ways, over a generating source; the three MACs; CTR and memory streams walked; one or two stages) is run with messages of n, 2n and 4n "
	"blocks (n of 40..260) in a build that counts the control-flow edges the library executes and the bytes it copies and allocates; each of the three counts may at most grow as a linear function does (increment from 2n to 4n at most 2.8 times that from n to 2n, "
	"where 2 is linear and 4 quadratic). 2 to 12 blocks are encrypted with a fresh Kuznyechik key: each block after the first may take at most half of the edges of the first, which includes the key schedule, and at most twice those of nine rounds done by hand. For operations in pieces the peak of live heap memory may not grow from n to 4n by more than 2 KiB and a 32nd of the growth of the message. Non-trivial: every case.";

// ---------------------------------------------------------------- counters

static uint64_t edges = 0, copied = 0, allocated = 0, live = 0, peak = 0;

extern "C" {
void __sanitizer_cov_trace_pc() { edges++; }
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { copied += n; return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { copied += n; return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { copied += n; return __real_memset(d, v, n); }
}
void *operator new(size_t n)
{
	void *p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	allocated += n;
	live += malloc_usable_size(p);
	if (live > peak) peak = live;
	return p;
}
void operator delete(void *p) noexcept
{
	if (!p) return;
	live -= malloc_usable_size(p);
	free(p);
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

namespace {

struct Cost {
	uint64_t edges, copied, allocated, peak;
};
template <class F> Cost measure(const F &f)
{
	const Cost a{edges, copied, allocated, live};
	peak = live;
	f();
	return {edges - a.edges, copied - a.copied, allocated - a.allocated, peak - a.peak};
}

class NullSink final : public goost::Sink {
public:
	explicit NullSink(size_t n = 0) : n(n) {}
	SP<goost::Sink> write(const Data &d) const override { return make_shared<NullSink>(n + d.size()); }
	SP<goost::Sink> finalize() const override { return make_shared<NullSink>(n); }
	size_t size() const { return n; }
private:
	const size_t n;
};
// bytes that are a function of their position
class GenSource final : public goost::Source {
public:
	GenSource(size_t n, uint64_t seed, size_t pos = 0) : n(n), seed(seed), pos(pos) {}
	std::pair<Data, SP<goost::Source>> read(size_t size) const override
	{
		const size_t k = std::min(size, n - pos);
		Data d(k);
		for (size_t i = 0; i < k; i++) d[i] = std::byte(uint8_t((pos + i) * 0x9d + seed) ^ uint8_t((pos + i) >> 8));
		return {std::move(d), make_shared<GenSource>(n, seed, pos + k)};
	}
private:
	const size_t n;
	const uint64_t seed;
	const size_t pos;
};

SP<goost::Sink> sink_of(int kind, const SP<goost::Sink> &base, const SP<gm::Key> &key)
{
	if (kind == 0) return make_shared<gm::CFBSink>(base, key, 1, 2);
	if (kind == 1) return make_shared<goost::gost89::CFBSink>(base, key, 1);
	return make_shared<gm::ECBSink>(base, key);
}
SP<goost::Source> source_of(int kind, const SP<goost::Source> &base, const SP<gm::Key> &key)
{
	if (kind == 0) return make_shared<gm::CFBSource>(base, key, 1, 2);
	if (kind == 1) return make_shared<goost::gost89::CFBSource>(base, key, 1);
	return make_shared<gm::ECBSource>(base, key);
}
const char *const names[] = {"magma CFB", "gost89 CFB", "ECB"};

struct Op {
	std::string name;
	bool pieces;                        // works in pieces of a fixed size: constant memory
	std::function<Cost(size_t)> run;    // number of 8-byte blocks
};

Op op(Case &c)
{
	const ref::Magma m(words(c), ref::rows_z());
	const auto w = std::vector<uint32_t>(m.key.begin(), m.key.end());
	const uint64_t form = c.below(3), seed = c.word64();
	auto fresh = [=]() -> SP<gm::LazyKey> {
		const auto sbox = make_shared<gm::SboxR3412>();
		if (form == 0) return make_shared<gm::LazyKey>(w, sbox);
		if (form == 1) return make_shared<gm::LazyKey>(key_text(m.key), sbox);
		return make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataNative>(w)), sbox);
	};
	const uint64_t what = c.below(16);
	const size_t stages = c.below(3) == 0 ? 2 : 1;
	int kinds[2] = {int(c.below(3)), int(c.below(3))};
	bool blocks = false;
	for (size_t i = 0; i < stages; i++) blocks = blocks || kinds[i] == 2;
	const uint64_t how = c.below(4);
	size_t piece = how == 0 ? SIZE_MAX : how == 1 ? c.range(1, 12) : how == 2 ? c.range(1, 200) : 8 * c.range(1, 25);
	if (blocks && piece != SIZE_MAX) piece = 8 * c.range(1, 25);
	const std::string desc = names[kinds[0]] + std::string(stages == 2 ? std::string(" over ") + names[kinds[1]] : "") + (piece == SIZE_MAX ? ", in one" : ", in pieces of " + std::to_string(piece));
	const size_t tail = blocks ? 0 : c.below(8);
	if (what < 6) {
		return {"sink " + desc, piece != SIZE_MAX, [=](size_t n) {
			Data d(std::min(n * 8 + tail, piece));
			for (size_t i = 0; i < d.size(); i++) d[i] = std::byte(uint8_t(i * 31 + seed));
			return measure([&] {
				SP<goost::Sink> s = make_shared<NullSink>();
				const auto key = fresh();
				for (size_t i = stages; i-- > 0;) s = sink_of(kinds[i], s, key);
				size_t left = n * 8 + tail;
				while (left) {
					if (left < d.size()) d.resize(left);
					s = s->write(d);
					left -= d.size();
				}
				for (size_t i = 0; i < stages; i++) s = s->finalize();
				const auto *r = dynamic_cast<const NullSink *>(s.get());
				if (!r || r->size() != n * 8 + tail) throw pbt::Failure{"not everything arrived"};
			});
		}};
	}
	if (what < 11) {
		return {"source " + desc, piece != SIZE_MAX || kinds[stages - 1] == 2, [=](size_t n) {
			return measure([&] {
				SP<goost::Source> s = make_shared<GenSource>(n * 8 + tail, seed);
				const auto key = fresh();
				for (size_t i = 0; i < stages; i++) s = source_of(kinds[i], s, key);
				size_t got = 0;
				while (true) {
					const auto r = s->read(piece == SIZE_MAX ? n * 8 + 8 : std::max<size_t>(piece, kinds[stages - 1] == 2 ? 8 : 1));
					if (r.first.empty()) break;
					got += r.first.size();
					s = r.second;
				}
				if (got != n * 8 + tail) throw pbt::Failure{"not everything was returned"};
			});
		}};
	}
	if (what == 11) return {"magma MAC", true, [=](size_t n) {
		return measure([&] { val(gm::Imit(make_shared<GenSource>(n * 8 + tail, seed), fresh())); });
	}};
	if (what == 12) return {"gost89 MAC", false, [=](size_t n) {
		const Bytes d(n * 8 + tail, uint8_t(seed));
		return measure([&] { goost::gost89::DataImit(d, fresh()).value(); });
	}};
	if (what == 13) return {"blocks with one key", true, [=](size_t n) {
		return measure([&] {
			const auto key = fresh();
			for (size_t i = 0; i < n; i++) {
				val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(uint64_t(i)), key));
				val(gm::BlkDecrypted(make_shared<gm::BlkRaw>(uint64_t(i)), key));
			}
		});
	}};
	const KuzSpec spec = kuz_spec(c);
	const size_t layers = what == 14 ? c.range(1, 2) : c.below(2);
	const bool mac = what == 15;
	const auto key = make_shared<gk::Key>(spec.text());
	val(*key->encrypt(make_shared<gk::BlkRaw>()));  // the key schedule is done
	return {(mac ? "Kuznyechik MAC of " : "walk of ") + std::to_string(layers) + " CTR layers over memory", true, [=](size_t n) {
		std::vector<uint64_t> words(n / 4 * 2 + (tail & 1), seed);
		const SP<gk::Stream> mem = make_shared<gk::StMemory>(words);
		return measure([&] {
			SP<gk::Stream> st = mem;
			for (size_t i = 0; i < layers; i++) st = make_shared<gk::StCTREncrypted>(st, key, seed);
			if (mac) { val(gk::Imit(st, key)); return; }
			size_t got = 0;
			for (SP<gk::Iterator> it = st->iter(); it; it = it->next()) {
				val(*it);
				it->last();
				got += it->size();
			}
			if (got != words.size() * 8) throw pbt::Failure{"not everything was walked"};
		});
	}};
}

// The key schedule is worked out once per key object: later blocks cost a fraction of the first
void schedule(Case &c)
{
	const KuzSpec spec = kuz_spec(c);
	SP<gk::Key> key;
	const Cost made = measure([&] { key = kuz_key(c, spec); });
	const auto copy = make_shared<gk::Key>(spec.text());
	const size_t n = c.range(2, 12);
	val(*copy->encrypt(make_shared<gk::BlkRaw>()));  // whatever is set up once per process
	const auto shape = c.below(3);
	uint64_t first = 0;
	// nine rounds and the last key, without any key object
	const auto any = make_shared<gk::BlkRaw>(c.word64(), c.word64());
	const Cost rounds = measure([&] {
		SP<gk::Block> b = any;
		for (int i = 0; i < 9; i++) b = make_shared<gk::BlkL>(make_shared<gk::BlkS>(make_shared<gk::BlkXored>(b, any)));
		val(gk::BlkXored(b, any));
	});
	for (size_t i = 0; i < n; i++) {
		const B128 b = u128(c);
		const Cost x = measure([&] {
			const SP<gk::Block> raw = make_shared<gk::BlkRaw>(b.lo, b.hi);
			if (shape == 0) val(*key->encrypt(raw));
			else if (shape == 1) val(gk::BlkEncrypted(raw, key));
			else val(*make_shared<gk::StCTREncrypted>(make_shared<gk::StMemory>(std::vector<uint64_t>{b.lo, b.hi}), key, b.hi)->iter());
		});
		if (i == 0) first = made.edges + x.edges;  // whenever the schedule is worked out
		c.note([&](auto &out) { out << x.edges; });
		if (i > 0) c.check(x.edges < rounds.edges * 2 + 2000, "block " + std::to_string(i + 1) + " of a Kuznyechik key takes " + std::to_string(x.edges) + " edges, nine rounds take " + std::to_string(rounds.edges));
		if (i > 0) c.check(x.edges * 2 < first, "block " + std::to_string(i + 1) + " of a Kuznyechik key takes " + std::to_string(x.edges) + " edges, the first took " + std::to_string(first) + " with the key schedule");
	}
}

void judge(Case &c, const Op &o, size_t n)
{
	const Cost a = o.run(n), b = o.run(2 * n), d = o.run(4 * n);
	auto linear = [&](const char *what, uint64_t x, uint64_t y, uint64_t z, uint64_t slack) {
		c.note([&](auto &out) { out << what << " " << x << " " << y << " " << z; });
		const double first = double(y) - double(x), second = double(z) - double(y);
		c.check(second <= 2.8 * (first < 0 ? 0 : first) + double(slack), o.name + ": " + what + " grow faster than the message: " + std::to_string(x) + ", " + std::to_string(y) + ", " + std::to_string(z) + " for " +
			std::to_string(n) + ", " + std::to_string(2 * n) + ", " + std::to_string(4 * n) + " blocks");
	};
	linear("edges executed", a.edges, b.edges, d.edges, 2000);
	// vectors that double their capacity make these jump by up to the size of the message
	linear("bytes copied", a.copied, b.copied, d.copied, 2000 + 8 * 12 * n);
	linear("bytes allocated", a.allocated, b.allocated, d.allocated, 2000 + 8 * 24 * n);
	if (o.pieces) {
		c.label("in pieces");
		c.note([&](auto &out) { out << "peak " << a.peak << " " << d.peak; });
		if (d.peak > a.peak + 2048 + 3 * n * 8 / 32) {
			// a buffer of bounded size may have filled up: messages beyond any such
			const size_t m = 16384;
			const Cost e = o.run(m), f = o.run(4 * m);
			c.check(f.peak <= e.peak + 2048 + 3 * m * 8 / 32, o.name + ": memory grows with the message: peak of " + std::to_string(a.peak) + " bytes for " + std::to_string(n) + " blocks, " +
				std::to_string(d.peak) + " for " + std::to_string(4 * n) + ", " + std::to_string(e.peak) + " for " + std::to_string(m) + ", " + std::to_string(f.peak) + " for " + std::to_string(4 * m));
		}
	}
}

}  // namespace

void pbt::property(Case &c)
{
	if (c.below(8) == 0) {
		c.note([](auto &out) { out << "edges per block of one Kuznyechik key"; });
		c.label("key schedule");
		schedule(c);
		c.nontrivial();
		return;
	}
	const Op o = op(c);
	const size_t n = c.range(40, 260);
	c.note([&](auto &out) { out << o.name << ", " << n << " blocks"; });
	c.label(o.name.substr(0, o.name.find(' ')));
	o.run(8);  // whatever is set up once
	judge(c, o, n);
	c.nontrivial();
}

std::string pbt::property_once()
{
	// the counters count
	Case c(nullptr, 0);
	const Cost x = measure([] {
		val(gm::BlkEncrypted(make_shared<gm::BlkRaw>(uint64_t(1)), make_shared<gm::LazyKey>(std::string(64, '1'))));
		std::vector<uint8_t> v(100, 1);
		v.insert(v.begin(), 3);
	});
	if (x.edges < 100) throw std::runtime_error("edges are not counted");
	if (x.allocated < 200) throw std::runtime_error("allocations are not counted");
	// long messages
	uint64_t n = 0;
	for (int kind = 0; kind < 3; kind++)
		for (size_t piece : {size_t(8), size_t(4096), SIZE_MAX}) {
			const auto key = make_shared<gm::LazyKey>(std::string(64, '7'));
			for (bool sink : {true, false}) {
				const Op o{names[kind] + std::string(sink ? " sink" : " source") + " in pieces of " + (piece == SIZE_MAX ? "everything" : std::to_string(piece)), false, [=](size_t blocks) {
					Data d(std::min(blocks * 8, piece));
					return measure([&] {
						if (sink) {
							SP<goost::Sink> s = sink_of(kind, make_shared<NullSink>(), key);
							for (size_t left = blocks * 8; left > 0;) {
								if (left < d.size()) d.resize(left);
								s = s->write(d);
								left -= d.size();
							}
							s->finalize();
						} else {
							SP<goost::Source> s = source_of(kind, make_shared<GenSource>(blocks * 8, 3), key);
							while (true) {
								const auto r = s->read(std::min(piece, blocks * 8 + 8));
								if (r.first.empty()) break;
								s = r.second;
							}
						}
					});
				}};
				o.run(8);
				judge(c, o, 4000);
				n++;
			}
		}
	return std::to_string(n) + " fixed operations on 4000, 8000 and 16000 blocks; the counters were seen to count";
}
