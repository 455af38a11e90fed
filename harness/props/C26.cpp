// Streaming is incremental and passes once.
#include "../gens.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C26";
const char *const pbt::property_rule =
	"CFB and ECB sinks written in any split over sinks that are good for one write each and journal what arrives (after every write all but the bytes of an incomplete block must have arrived, in order, and the right bytes); CFB and ECB sources "
	"and the Magma MAC read in any sizes over sources that are good for one read each and count (never more than the block in progress taken ahead of what was asked for, nothing read twice), stacks of two of them; CTR "
	"streams over a user stream that journals (no block evaluated before the walk reaches it); construction of every class over counting stand-ins (nothing read, written or evaluated by constructing). "
	"Non-trivial: at least two writes, reads or blocks, or a construction.";

namespace {

struct Journal {
	Bytes d;
	uint64_t twice = 0, calls = 0, finalized = 0;
};
class OnceSink final : public goost::Sink {
public:
	explicit OnceSink(std::shared_ptr<Journal> j) : j(j), used(make_shared<bool>(false)) {}
	SP<goost::Sink> write(const Data &d) const override
	{
		j->calls++;
		if (*used) j->twice++;
		*used = true;
		for (std::byte b : d) j->d.push_back(uint8_t(b));
		return make_shared<OnceSink>(j);
	}
	SP<goost::Sink> finalize() const override { j->finalized++; return make_shared<OnceSink>(j); }
private:
	const std::shared_ptr<Journal> j;
	const std::shared_ptr<bool> used;
};
struct Taken {
	uint64_t bytes = 0, twice = 0, calls = 0, most = 0;
};
class OnceSource final : public goost::Source {
public:
	OnceSource(std::shared_ptr<const Bytes> d, std::shared_ptr<Taken> t, size_t pos, size_t piece) : d(d), t(t), pos(pos), piece(piece), used(make_shared<bool>(false)) {}
	std::pair<Data, SP<goost::Source>> read(size_t size) const override
	{
		t->calls++;
		if (*used) t->twice++;
		*used = true;
		const size_t n = std::min({size, d->size() - pos, piece});
		t->bytes += n;
		return {to_data(d->data() + pos, n), make_shared<OnceSource>(d, t, pos + n, piece)};
	}
private:
	const std::shared_ptr<const Bytes> d;
	const std::shared_ptr<Taken> t;
	const size_t pos, piece;
	const std::shared_ptr<bool> used;
};

SP<goost::Sink> sink_of(int kind, const SP<goost::Sink> &base, const SP<gm::Key> &key, const std::vector<uint64_t> &r)
{
	if (kind == 0) return make_shared<gm::CFBSink>(base, key, r[0], r[1]);
	if (kind == 1) return make_shared<goost::gost89::CFBSink>(base, key, r[0]);
	return make_shared<gm::ECBSink>(base, key);
}
SP<goost::Source> source_of(int kind, const SP<goost::Source> &base, const SP<gm::Key> &key, const std::vector<uint64_t> &r)
{
	if (kind == 0) return make_shared<gm::CFBSource>(base, key, r[0], r[1]);
	if (kind == 1) return make_shared<goost::gost89::CFBSource>(base, key, r[0]);
	return make_shared<gm::ECBSource>(base, key);
}
const char *const names[] = {"magma CFB", "gost89 CFB", "ECB"};
Bytes apply(int kind, const ref::Magma &m, const std::vector<uint64_t> &r, const Bytes &d, bool decrypt)
{
	auto enc = [&](uint64_t b) { return m.enc(b); };
	if (kind == 2) return decrypt ? ref::ecb([&](uint64_t b) { return m.dec(b); }, d) : ref::ecb(enc, d);
	return ref::cfb(enc, std::vector<uint64_t>(r.begin(), r.begin() + 2 - kind), d, decrypt);
}

void sinks(Case &c)
{
	const ref::Magma m = magma(c);
	const auto key = lazy_key(c, m).key;
	const size_t n = c.range(1, 2);
	std::vector<int> kinds;
	for (size_t i = 0; i < n; i++) kinds.push_back(int(c.below(3)));
	const std::vector<uint64_t> regs{c.u64(), c.u64()};
	Bytes d = bytes(c, 8, 3000);
	bool blocks = false;
	for (int k : kinds) blocks = blocks || k == 2;
	if (blocks) d.resize(d.size() / 8 * 8);
	Bytes want = d;
	for (int k : kinds) want = apply(k, m, regs, want, false);
	const auto j = make_shared<Journal>();
	SP<goost::Sink> s = make_shared<OnceSink>(j);
	for (size_t i = n; i-- > 0;) s = sink_of(kinds[i], s, key, regs);
	const auto pieces = split(c, d.size(), kinds[0] == 2 ? 8 : 1, true);
	c.note([&](auto &o) { for (int k : kinds) o << names[k] << " "; o << "sink, " << d.size() << " bytes as " << text(pieces); });
	c.label("sink");
	c.nontrivial(pieces.size() > 1);
	c.check(j->calls + j->finalized == 0, "constructing a sink wrote to the sink below");
	size_t pos = 0;
	for (size_t k : pieces) {
		s = s->write(to_data(d.data() + pos, k));
		pos += k;
		const std::string what = std::to_string(pos) + " bytes written, " + std::to_string(j->d.size()) + " delivered";
		// the stages may hold the bytes of one incomplete block back
		c.check(j->d.size() <= pos, what + ": more than was written");
		c.check(j->d.size() + (kinds[0] == 2 ? 0 : 7) >= pos, what + ": held back");
		same(c, j->d, Bytes(want.begin(), want.begin() + long(j->d.size())), what);
		c.check(j->finalized == 0, "a write finalized the sink below");
	}
	for (size_t i = 0; i < n; i++) {
		c.check(j->finalized == 0, "finalizing a stage finalized the sink below it");
		s = s->finalize();
	}
	same(c, j->d, want, "delivered in the end");
	c.check(j->finalized == 0, "finalizing a stage finalized the sink below it");
	c.check(j->twice == 0, "a sink object below was written to twice in one pass");
}

void sources(Case &c)
{
	const ref::Magma m = magma(c);
	const auto key = lazy_key(c, m).key;
	const size_t n = c.range(1, 2);
	std::vector<int> kinds;
	for (size_t i = 0; i < n; i++) kinds.push_back(int(c.below(3)));
	const std::vector<uint64_t> regs{c.u64(), c.u64()};
	const auto d = make_shared<Bytes>(bytes(c, 8, 3000));
	for (int k : kinds) if (k == 2) d->resize(d->size() / 8 * 8);
	const auto t = make_shared<Taken>();
	const size_t piece = c.below(3) == 0 ? c.range(1, 12) : SIZE_MAX;
	SP<goost::Source> s = make_shared<OnceSource>(d, t, 0, piece);
	Bytes want = *d;
	for (int k : kinds) { s = source_of(k, s, key, regs); want = apply(k, m, regs, want, true); }
	if (c.below(4) == 0) {
		c.label("MAC");
		c.note([&](auto &o) { o << "MAC over "; for (int k : kinds) o << names[k] << " "; o << "source of " << d->size() << " bytes"; });
		const gm::Imit mac(s, key);
		c.check(t->calls == 0, "constructing a MAC read the source");
		const uint64_t got = val(mac);
		same(c, got, val(gm::Imit(make_shared<MemSource>(want), key)), "MAC over sources good for one read");
		c.check(t->bytes == d->size(), "computing a MAC took " + std::to_string(t->bytes) + " bytes of a message of " + std::to_string(d->size()));
		c.check(t->twice == 0, "a source object below was read twice in one pass");
		c.nontrivial(d->size() > 8);
		return;
	}
	const bool blocks = kinds.back() == 2;
	const auto sizes = reads(c, d->size(), blocks ? 8 : 0);
	c.note([&](auto &o) { for (int k : kinds) o << names[k] << " "; o << "source of " << d->size() << " bytes, read as " << text(sizes); });
	c.label("source");
	c.nontrivial(sizes.size() > 1);
	c.check(t->calls == 0, "constructing a source read the source below");
	size_t pos = 0;
	for (size_t k : sizes) {
		const auto r = s->read(k);
		const Bytes x = to_bytes(r.first);
		c.check(x.size() <= want.size() - pos, "too much");
		same(c, x, Bytes(want.begin() + long(pos), want.begin() + long(pos + x.size())), "read at " + std::to_string(pos));
		pos += x.size();
		s = r.second;
		const std::string what = std::to_string(pos) + " bytes returned, " + std::to_string(t->bytes) + " taken from the source below";
		c.check(t->bytes <= (pos + 7) / 8 * 8, what);
		if (x.empty() && k > 0) break;
	}
	c.check(t->twice == 0, "a source object below was read twice in one pass");
}

struct Walk { size_t furthest = 0; bool any = false; uint64_t calls = 0, steps = 0; };
class LogStream final : public gk::Stream {
public:
	LogStream(const std::vector<UserStream::Item> &items, std::shared_ptr<Walk> w) : items(make_shared<std::vector<UserStream::Item>>(items)), w(w) {}
	SP<gk::Iterator> iter() const override
	{
		w->calls++;
		if (items->empty()) return {};
		return make_shared<It>(items, 0, w);
	}
private:
	class It final : public gk::Iterator {
	public:
		It(std::shared_ptr<const std::vector<UserStream::Item>> items, size_t i, std::shared_ptr<Walk> w) : items(items), i(i), w(w) {}
		std::pair<uint64_t, uint64_t> value() const override
		{
			w->any = true;
			w->furthest = std::max(w->furthest, i);
			return {(*items)[i].v.lo, (*items)[i].v.hi};
		}
		bool last() const override { return i + 1 == items->size(); }
		size_t size() const override { return (*items)[i].size; }
		SP<gk::Iterator> next() const override
		{
			w->steps++;
			if (i + 1 >= items->size()) return {};
			return make_shared<It>(items, i + 1, w);
		}
	private:
		const std::shared_ptr<const std::vector<UserStream::Item>> items;
		const size_t i;
		const std::shared_ptr<Walk> w;
	};
	const std::shared_ptr<const std::vector<UserStream::Item>> items;
	const std::shared_ptr<Walk> w;
};

void streams(Case &c)
{
	const KuzSpec spec = kuz_spec(c);
	const ref::Kuznyechik r(spec.k1, spec.k2);
	const auto plan = make_shared<Plan>();
	const bool counted = c.below(2);
	const SP<gk::Key> key = counted ? make_shared<const gk::Key>(make_shared<UserKuzData>(make_shared<UserBlock128>(spec.k1, plan), make_shared<UserBlock128>(spec.k2, plan))) : kuz_key(c, spec);
	c.check(plan->calls == 0, "constructing a key evaluated a half");
	const size_t n = c.range(1, 12), layers = c.range(1, 2);
	std::vector<UserStream::Item> items;
	for (size_t i = 0; i < n; i++) items.push_back({u128(c), 16});
	const auto w = make_shared<Walk>();
	SP<gk::Stream> st = make_shared<LogStream>(items, w);
	const uint64_t iv = c.u64();
	for (size_t i = 0; i < layers; i++) st = make_shared<gk::StCTREncrypted>(st, key, iv + i);
	const gk::Imit mac(st, key);
	c.check(w->calls == 0 && !w->any && plan->calls == 0, "constructing a CTR stream or a MAC used the stream or key below");
	c.note([&](auto &o) { o << layers << " CTR layers over " << n << " blocks"; });
	c.label("CTR");
	c.nontrivial(n > 1);
	size_t i = 0;
	for (SP<gk::Iterator> it = st->iter(); it; it = it->next(), i++) {
		c.check(!w->any || w->furthest < i, "block " + std::to_string(w->furthest) + " was evaluated before the walk asked for it (at " + std::to_string(i) + ")");
		c.check(w->steps == i, std::to_string(w->steps) + " steps were taken on the stream below when " + std::to_string(i) + " were asked for");
		it->last();
		it->size();
		c.check(w->steps == i, "asking for size or end went on in the stream below");
		c.check(!w->any || w->furthest < i, "asking for size or end evaluated block " + std::to_string(w->furthest));
		if (c.below(4) == 0) continue;
		B128 want = items[i].v;
		for (size_t l = 0; l < layers; l++) want = want ^ r.ctr(iv + l, i);
		same(c, val(*it), want, "block " + std::to_string(i));
		c.check(w->furthest == i, "the value of block " + std::to_string(i) + " came without evaluating it or with another one");
	}
	c.check(w->calls == 1, "the stream below was begun " + std::to_string(w->calls) + " times for one walk");
	// a MAC walks over its stream once
	w->calls = w->steps = 0;
	val(mac);
	c.check(w->calls == 1 && w->steps <= n, "the MAC of " + std::to_string(n) + " blocks began the stream " + std::to_string(w->calls) + " times and went on " + std::to_string(w->steps) + " times");
	c.check(i == n, "the walk has " + std::to_string(i) + " blocks of " + std::to_string(n));
}

void constructions(Case &c)
{
	const auto plan = make_shared<Plan>();
	const ref::Magma m = magma(c);
	const uint64_t v = c.u64();
	const B128 v2 = u128(c);
	const SP<gm::Block> b = make_shared<UserBlock64>(v, plan);
	const SP<gk::Block> k = make_shared<UserBlock128>(v2, plan);
	const SP<gm::Key> round = make_shared<UserKey>([](uint32_t x, int) { return x; }, plan);
	const auto lazy = make_shared<gm::LazyKey>(std::make_unique<UserKeyData>(m.key, plan), make_shared<UserSbox>(m.rows, plan));
	const auto lazy2 = make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<UserKeyData>(m.key, plan)), make_shared<gm::SboxTwisted>(std::make_unique<UserSbox>(m.rows, plan)));
	c.check(plan->calls == 0, "constructing a key read a key word or used the table");
	const uint64_t kind = c.below(17);
	c.note([&](auto &o) { o << "construction " << kind; });
	c.label("construction");
	c.nontrivial();
	SP<gm::Block> x;
	SP<gk::Block> y;
	SP<goost::gost89::ImitedBlock> z;
	const SP<gm::Key> key = c.below(2) ? SP<gm::Key>(lazy) : round;
	const auto zero = make_shared<UserKuzData>(k, k);
	switch (kind) {
	case 0: x = make_shared<gm::BlkEncrypted>(b, lazy); break;
	case 1: x = make_shared<gm::BlkDecrypted>(b, lazy2); break;
	case 2: x = make_shared<gm::BlkForwarded>(b, key); break;
	case 3: x = make_shared<gm::BlkBackwarded>(b, key); break;
	case 4: x = make_shared<gm::BlkShifted>(b, 3); break;
	case 5: x = make_shared<gm::BlkSwapped>(b); break;
	case 6: x = make_shared<gm::BlkXored>(b, b, b); break;
	case 7: z = make_shared<goost::gost89::ImitedBlock>(gm::BlkRaw(v), lazy); break;
	case 8: y = make_shared<gk::BlkCached>(k); break;
	case 9: y = make_shared<gk::BlkEncrypted>(k, make_shared<gk::Key>(zero)); break;
	case 10: y = make_shared<gk::BlkIncremented>(k); break;
	case 11: y = make_shared<gk::BlkIterKey>(k, k, 1, 8); break;
	case 12: y = make_shared<gk::BlkL>(k); break;
	case 13: y = make_shared<gk::BlkR>(k); break;
	case 14: y = make_shared<gk::BlkS>(k); break;
	case 15: y = make_shared<gk::BlkShifted>(k, 3); break;
	default: y = make_shared<gk::BlkXored>(k, k, k); break;
	}
	c.check(plan->calls == 0, "constructing evaluated something " + std::to_string(plan->calls) + " times (construction " + std::to_string(kind) + ")");
	const gm::EncryptionBase e(key);
	const auto sink = make_shared<gm::CFBSink>(make_shared<MemSink>(plan), key, v, v);
	const auto sink2 = make_shared<gm::ECBSink>(sink, key);
	const auto sink3 = make_shared<goost::gost89::CFBSink>(sink2, key, v);
	const auto src = make_shared<gm::CFBSource>(make_shared<MemSource>(Bytes(20), plan), key, v, v);
	const auto src2 = make_shared<gm::ECBSource>(src, key);
	const auto src3 = make_shared<goost::gost89::CFBSource>(src2, key, v);
	const auto mac = make_shared<gm::Imit>(src3, lazy);
	c.check(plan->calls == 0, "constructing a mode used something " + std::to_string(plan->calls) + " times");
	// and the value is asked for when it is wanted
	if (x) val(*x);
	if (y) val(*y);
	if (z) z->value();
	c.check(plan->calls > 0, "a value came without evaluating anything");
}

}  // namespace

void pbt::property(Case &c)
{
	switch (c.below(8)) {
	case 0: case 1: case 2: sinks(c); break;
	case 3: case 4: case 5: sources(c); break;
	case 6: streams(c); break;
	default: constructions(c); break;
	}
}

std::string pbt::property_once()
{
	// long data: byte by byte, nothing is held back or taken ahead
	Case c(nullptr, 0);
	uint64_t n = 0;
	const ref::Magma m({{1, 2, 3, 4, 5, 6, 7, 8}}, ref::rows_z());
	const auto key = make_shared<gm::LazyKey>(key_text(m.key));
	const auto d = make_shared<Bytes>(20000);
	fill(*d, 13);
	for (int kind = 0; kind < 3; kind++) {
		const size_t unit = kind == 2 ? 8 : 1;
		for (size_t piece : {unit, size_t(8), size_t(16), size_t(24), size_t(1000), size_t(4096), size_t(4104)}) {
			const auto j = make_shared<Journal>();
			SP<goost::Sink> s = sink_of(kind, make_shared<OnceSink>(j), key, {3, 4});
			for (size_t pos = 0; pos < d->size(); pos += piece) {
				const size_t k = std::min(piece, d->size() - pos);
				s = s->write(to_data(d->data() + pos, k));
				c.check(j->d.size() + 7 >= pos + k, names[kind] + std::string(" sink holds data back: ") + std::to_string(pos + k - j->d.size()));
				n++;
			}
			const auto t = make_shared<Taken>();
			SP<goost::Source> q = source_of(kind, make_shared<OnceSource>(d, t, 0, SIZE_MAX), key, {3, 4});
			size_t got = 0;
			while (got < d->size()) {
				const auto r = q->read(std::max<size_t>(piece, kind == 2 ? 8 : 1));
				got += r.first.size();
				c.check(!r.first.empty() && t->bytes <= got + 8, names[kind] + std::string(" source takes data ahead: ") + std::to_string(t->bytes - got));
				q = r.second;
				n++;
			}
			c.check(t->twice + j->twice == 0, "used twice");
		}
	}
	return std::to_string(n) + " fixed writes and reads of 20000 bytes in seven sizes";
}
