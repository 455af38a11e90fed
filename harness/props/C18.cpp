// Long messages on a small stack: correct results, and stack use that does not grow.
#include "../gens.h"
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/Imit.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C18";
const char *const pbt::property_rule =
	"an operation (MACs of the three kinds, CTR stream walked block by block, MAC of a CTR stream, CFB and ECB sinks and sources written or read in one piece, in blocks or in odd pieces) is generated and run with a short "
	"(64 to 128 blocks) and a long message (1500 to 60000 blocks) keeping the first iterator, sink or source to the end in a third of the cases, on a thread whose 1 MiB stack is filled with a pattern; results are compared with the reference model, and the stack high-water marks of both runs, "
	"destruction of all objects included, may differ by at most 24 KiB (a walk that nests once per block, or even once per 64 blocks, differs by more). Non-trivial: a long message of at least 10000 blocks.";

namespace {

constexpr size_t STACK = 1 << 20;
constexpr size_t SLACK = 24 << 10;

struct Region {
	uint8_t *base;
	Region()
	{
		const size_t page = size_t(sysconf(_SC_PAGESIZE));
		void *p = mmap(nullptr, STACK + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED) throw std::runtime_error("mmap");
		mprotect(p, page, PROT_NONE);  // running off the end is a crash, not a silent overwrite
		base = static_cast<uint8_t *>(p) + page;
	}
};

// Runs f on the small stack; returns the number of stack bytes it touched
size_t on_small_stack(const std::function<void()> &f)
{
	static Region r;
	memset(r.base, 0xa5, STACK);
	struct Job {
		const std::function<void()> *f;
		std::string error;
		bool failed = false;
	} job{&f, {}};
	pthread_attr_t attr;
	pthread_attr_init(&attr);
	pthread_attr_setstack(&attr, r.base, STACK);
	pthread_t t;
	const int rc = pthread_create(&t, &attr, [](void *p) -> void * {
		Job &j = *static_cast<Job *>(p);
		try {
			(*j.f)();
		} catch (const std::exception &e) {
			j.failed = true;
			j.error = e.what();
		} catch (...) {
			j.failed = true;
			j.error = "unknown exception";
		}
		return nullptr;
	}, &job);
	pthread_attr_destroy(&attr);
	if (rc != 0) throw std::runtime_error("pthread_create");
	pthread_join(t, nullptr);
	if (job.failed) throw pbt::Failure{"exception with a long message: " + job.error};
	size_t i = 0;
	while (i < STACK && r.base[i] == 0xa5) i++;
	return STACK - i;
}

Data slice(const Bytes &d, size_t pos, size_t n) { return to_data(d.data() + pos, std::min(n, d.size() - pos)); }

struct Setup {
	ref::Magma m{{{0}}, ref::rows_z()};
	SP<gm::LazyKey> key;
	KuzSpec spec;
	std::shared_ptr<ref::Kuznyechik> r;
	SP<gk::Key> kkey;
	std::vector<uint64_t> regs;
	uint64_t seed, iv;
	int kind;
	size_t piece;
	bool odd;
	bool keep = false;  // keep the first iterator, sink or source until everything else is gone
};
const char *const names[] = {"kuznyechik MAC", "kuznyechik MAC of a CTR stream", "kuznyechik CTR stream", "magma MAC", "gost89 MAC",
	"magma CFB sink", "gost89 CFB sink", "ECB sink", "magma CFB source", "gost89 CFB source", "ECB source", "kuznyechik double CTR stream"};
constexpr int KINDS = 12;
bool kuz(int kind) { return kind < 3 || kind == 11; }

// The operation on n blocks; computes the expected result first (on the ordinary stack)
size_t run(Case &c, const Setup &s, size_t n)
{
	const std::string what = std::string(names[s.kind]) + " of " + std::to_string(n) + " blocks";
	uint64_t seed = s.seed;
	auto enc = [&](uint64_t b) { return s.m.enc(b); };
	auto dec = [&](uint64_t b) { return s.m.dec(b); };
	if (kuz(s.kind)) {
		std::vector<uint64_t> w(2 * n);
		for (auto &x : w) x = pbt::splitmix(seed);
		std::vector<B128> msg(n);
		for (size_t i = 0; i < n; i++) msg[i] = {w[2 * i], w[2 * i + 1]};
		if (s.kind == 1 || s.kind == 2) for (size_t i = 0; i < n; i++) msg[i] = msg[i] ^ s.r->ctr(s.iv, i);
		std::vector<B128> got;
		got.reserve(n);
		const size_t used = on_small_stack([&] {
			SP<gk::Stream> st = make_shared<gk::StMemory>(w);
			if (s.kind != 0) st = make_shared<gk::StCTREncrypted>(st, s.kkey, s.iv);
			if (s.kind == 11) st = make_shared<gk::StCTREncrypted>(st, s.kkey, s.iv);
			SP<gk::Iterator> first;
			if (s.keep && s.kind >= 2) {
				first = st->iter();
				st.reset();
				for (SP<gk::Iterator> it = first; it; it = it->next()) got.push_back(val(*it));
				same(c, val(*first), got.at(0), what + ", first block again");
			} else if (s.kind < 2) got.push_back(val(gk::Imit(st, s.kkey)));
			else if (s.odd) {  // walk to the end first, then look at the last block
				SP<gk::Iterator> it = st->iter();
				for (SP<gk::Iterator> next = it; next; next = next->next()) it = next;
				got.assign(n - 1, B128());
				got.push_back(val(*it));
			} else for (SP<gk::Iterator> it = st->iter(); it; it = it->next()) got.push_back(val(*it));
		});
		if (s.kind < 2) same(c, got.at(0), s.r->omac(msg, true), what);
		else {
			c.check(got.size() == n, what + ": " + std::to_string(got.size()) + " blocks");
			for (size_t i = s.odd && !s.keep ? n - 1 : 0; i < n; i++) same(c, got[i], msg[i], what + ", block " + std::to_string(i));
		}
		return used;
	}
	Bytes d(8 * n - (s.odd && s.kind != 3 && s.kind != 7 && s.kind != 10 ? 3 : 0));
	fill(d, seed);
	Bytes got, want;
	if (s.kind == 3) { want.resize(8); ref::put_le64(&want[0], ref::omac64_whole(enc, d)); }
	else if (s.kind == 4) want = ref::imit89(s.m, d);
	else if (s.kind == 7) want = ref::ecb(enc, d);
	else if (s.kind == 10) want = ref::ecb(dec, d);
	else want = ref::cfb(enc, s.regs, d, s.kind >= 8);
	const size_t piece = s.piece ? s.piece : d.size();
	const Data whole = to_data(d);
	const size_t used = on_small_stack([&] {
		const auto base_sink = make_shared<MemSink>();
		const auto base_source = make_shared<MemSource>(d);
		SP<goost::Sink> sink;
		SP<goost::Source> source;
		switch (s.kind) {
		case 3: got.resize(8); ref::put_le64(&got[0], val(gm::Imit(base_source, s.key))); return;
		case 4: got = goost::gost89::DataImit(d, s.key).value(); return;
		case 5: sink = make_shared<gm::CFBSink>(base_sink, s.key, s.regs[0], s.regs[1]); break;
		case 6: sink = make_shared<goost::gost89::CFBSink>(base_sink, s.key, s.regs[0]); break;
		case 7: sink = make_shared<gm::ECBSink>(base_sink, s.key); break;
		case 8: source = make_shared<gm::CFBSource>(base_source, s.key, s.regs[0], s.regs[1]); break;
		case 9: source = make_shared<goost::gost89::CFBSource>(base_source, s.key, s.regs[0]); break;
		default: source = make_shared<gm::ECBSource>(base_source, s.key); break;
		}
		const SP<goost::Sink> first_sink = s.keep ? sink : nullptr;
		const SP<goost::Source> first_source = s.keep ? source : nullptr;
		if (sink) {
			for (size_t p = 0; p < d.size(); p += piece) sink = sink->write(piece >= d.size() ? whole : slice(d, p, piece));
			sink = sink->finalize();
			if (const auto *m = dynamic_cast<const MemSink *>(sink.get())) got = m->record();
		} else {
			got.reserve(d.size());
			while (true) {
				const auto r = source->read(piece);
				if (r.first.empty()) break;
				for (std::byte b : r.first) got.push_back(uint8_t(b));
				source = r.second;
			}
		}
	});
	same(c, got, want, what);
	return used;
}

size_t both(Case &c, const Setup &s, size_t small, size_t large)
{
	run(c, s, small);  // first use of everything
	const size_t a = run(c, s, small), b = run(c, s, large);
	c.check(b <= a + SLACK, std::string(names[s.kind]) + ": stack use grows with the message: " + std::to_string(a) + " bytes for " + std::to_string(small) +
		" blocks, " + std::to_string(b) + " bytes for " + std::to_string(large));
	return b;
}

}  // namespace

void pbt::property(Case &c)
{
	Setup s;
	s.kind = int(c.below(KINDS));
	s.m = magma(c);
	s.key = lazy_key(c, s.m).key;
	s.spec = kuz_spec(c);
	s.r = make_shared<ref::Kuznyechik>(s.spec.k1, s.spec.k2);
	s.kkey = kuz_key(c, s.spec);
	const bool two = s.kind == 5 || s.kind == 8;
	for (int i = 0; i < (two ? 2 : 1); i++) s.regs.push_back(c.u64());
	s.seed = c.word64();
	s.iv = c.u64();
	s.odd = c.below(2);
	s.keep = c.below(3) == 0;
	switch (c.below(4)) {
	case 0: s.piece = 0; break;
	case 1: s.piece = 8; break;
	case 2: s.piece = 8 * c.range(1, 60); break;
	default: s.piece = s.kind == 7 || s.kind == 10 ? 16 : c.range(1, 40); break;
	}
	if (s.kind == 10 && s.piece == 0) s.piece = 8;
	const size_t small = c.range(64, 128);
	size_t large;
	if (kuz(s.kind)) large = c.chance(1, 5) ? c.range(20000, 30000) : c.range(1500, 6000);
	else large = c.chance(1, 3) ? c.range(20000, 60000) : c.range(3000, 20000);
	c.note([&](auto &o) { o << names[s.kind] << ", pieces of " << s.piece << ", " << small << " and " << large << " blocks"; });
	const size_t used = both(c, s, small, large);
	c.note([&](auto &o) { o << used << " bytes of stack"; });
	c.label(names[s.kind]);
	c.label(large >= 10000, "10000 blocks or more");
	c.nontrivial(large >= 10000);
}

std::string pbt::property_once()
{
	Case c(nullptr, 0);
	Setup s;
	s.m = ref::Magma({{1, 2, 3, 4, 5, 6, 7, 8}}, ref::rows_z());
	s.key = make_shared<gm::LazyKey>(key_text(s.m.key));
	s.spec = {{1, 2}, {3, 4}};
	s.r = make_shared<ref::Kuznyechik>(s.spec.k1, s.spec.k2);
	s.kkey = make_shared<gk::Key>(s.spec.text());
	s.seed = 3;
	s.iv = 0x1234567890abcdef;
	s.odd = false;
	size_t most = 0;
	for (s.kind = 0; s.kind < KINDS; s.kind++) {
		s.regs.assign(s.kind == 5 || s.kind == 8 ? 2 : 1, 77);
		for (size_t piece : {size_t(0), size_t(8), size_t(24)}) {
			if (kuz(s.kind) && piece > 8) continue;
			s.keep = piece == 8;
			s.piece = s.kind == 10 && piece == 0 ? 8 : piece;
			most = std::max(most, both(c, s, 100, kuz(s.kind) ? 25000 : 50000));
		}
	}
	return "every operation with 100 and 25000 (Kuznyechik) or 50000 (Magma) blocks; at most " + std::to_string(most) + " bytes of stack used";
}
