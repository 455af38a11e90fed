// Caches evaluate once.
#include "../gens.h"
#include <atomic>
#include <thread>
#include <time.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C21";
const char *const pbt::property_rule =
	"a cached block, cached key data or a Kuznyechik key over stand-ins that count evaluations, give a different (generated) answer each time and may fail at first, and a sequence of 1..20 requests, or 2..4 threads asking at once while the first evaluation waits for them, are generated; number "
	"of evaluations, laziness and answers are compared with an evaluate-once model. Non-trivial: at least two requests.";

struct Log {
	std::vector<B128> answers;   // successive answers; the last one for ever
	size_t fail_first = 0;       // this many evaluations throw
	size_t calls = 0, good = 0;
};
class Changing final : public gk::Block {
public:
	explicit Changing(const std::shared_ptr<Log> &log) : log(log) {}
	std::pair<uint64_t, uint64_t> value() const override
	{
		const size_t n = log->calls++;
		if (n < log->fail_first) throw Fault(n);
		const B128 v = log->answers[std::min(log->good++, log->answers.size() - 1)];
		return {v.lo, v.hi};
	}
private:
	const std::shared_ptr<Log> log;
};
struct KLog {
	uint64_t seed = 0;
	std::array<uint32_t, 8> first{};
	size_t calls = 0;
	std::array<std::vector<uint32_t>, 8> reads;
	std::vector<size_t> failing;
};
class ChangingKey final : public gm::KeyData {
public:
	explicit ChangingKey(const std::shared_ptr<KLog> &log) : log(log) {}
	uint32_t key(int index) const override
	{
		const size_t n = log->calls++;
		for (size_t f : log->failing) if (f == n) throw Fault(n);
		auto &r = log->reads.at(size_t(index));
		uint64_t s = log->seed + r.size() * 77 + uint64_t(index);
		const uint32_t v = r.empty() ? log->first[size_t(index)] : uint32_t(pbt::splitmix(s));
		r.push_back(v);
		return v;
	}
private:
	const std::shared_ptr<KLog> log;
};

// The same with several threads asking at once: the first evaluation waits until the other
// threads have begun to ask (or some time has passed), and every evaluation has another answer.
struct Crowd {
	std::atomic<unsigned> asking{0}, calls{0}, good{0};
	unsigned threads = 0, fail_first = 0, patience = 0;
	// the number of this evaluation, counting the successful ones only
	unsigned evaluated()
	{
		const unsigned n = calls++;
		for (unsigned i = 0; i < patience && asking < threads; i++) nap();
		for (unsigned i = 0; i < 3 && patience; i++) nap();  // and have got to where they wait, if they do
		if (n < fail_first) throw Fault(n);
		return good++;
	}
	static void nap() { const timespec t{0, 50000}; nanosleep(&t, nullptr); }
};
class CrowdBlock final : public gk::Block {
public:
	CrowdBlock(const std::shared_ptr<Crowd> &w, B128 v) : w(w), v(v) {}
	std::pair<uint64_t, uint64_t> value() const override { const unsigned n = w->evaluated(); return {v.lo + n, v.hi}; }
private:
	const std::shared_ptr<Crowd> w;
	const B128 v;
};
class CrowdKey final : public gm::KeyData {
public:
	CrowdKey(const std::shared_ptr<std::array<Crowd, 8>> &w, const std::array<uint32_t, 8> &k, bool steady) : w(w), k(k), steady(steady) {}
	uint32_t key(int index) const override
	{
		// after a failure the words read before it may be read again, and are what they were
		Crowd &c = (*w).at(size_t(index));
		const unsigned n = c.evaluated();
		return k.at(size_t(index)) + (steady ? 0 : n);
	}
private:
	const std::shared_ptr<std::array<Crowd, 8>> w;
	const std::array<uint32_t, 8> k;
	const bool steady;
};
static void crowd(Case &c)
{
	const unsigned threads = unsigned(c.range(2, 4)), fails = unsigned(c.below(3) == 0 ? c.range(1, 2) : 0);
	const unsigned patience = unsigned(c.below(4) ? 10 : 0);
	const bool words_of_key = c.below(2);
	const B128 v = u128(c);
	const auto k = words(c);
	std::vector<std::vector<int>> asks(threads);
	for (auto &a : asks) for (size_t n = c.range(1, 3); n > 0; n--) a.push_back(int(c.below(8)));
	if (c.below(2)) for (auto &a : asks) a[0] = asks[0][0];
	c.label(words_of_key ? "cached key data, several threads" : "cached block, several threads");
	c.note([&](auto &o) { o << threads << " threads on a cached " << (words_of_key ? "key" : "block") << ", " << fails << " failures first"; });
	const auto one = make_shared<Crowd>();
	const auto eight = make_shared<std::array<Crowd, 8>>();
	auto prepare = [&](Crowd &w) { w.threads = threads; w.fail_first = fails; w.patience = patience; };
	prepare(*one);
	for (auto &w : *eight) prepare(w);
	if (fails) for (size_t i = 1; i < 8; i++) (*eight)[i].fail_first = 0;
	const gk::BlkCached block(make_shared<CrowdBlock>(one, v));
	const gm::KeyCachedData data(std::make_unique<CrowdKey>(eight, k, fails != 0));
	std::vector<std::string> wrong(threads);
	std::vector<std::thread> pool;
	for (size_t t = 0; t < threads; t++) pool.emplace_back([&, t] {
		one->asking++;
		for (auto &w : *eight) w.asking++;
		for (int i : asks[t]) try {
			if (words_of_key) {
				if (data.key(i) != k[size_t(i)]) wrong[t] = "word " + std::to_string(i) + " is not the one first read";
			} else if (!(val(block) == v)) wrong[t] = "the value is not the one of the first evaluation";
		} catch (const Fault &) {
			if (!fails) wrong[t] = "a failure nobody caused";
		} catch (const std::exception &e) {
			wrong[t] = e.what();
		}
	});
	for (auto &p : pool) p.join();
	for (auto &m : wrong) c.check(m.empty(), m);
	if (!words_of_key) c.check(one->good <= 1, "the block was evaluated " + std::to_string(one->good) + " times");
	else if (!fails) for (auto &w : *eight) c.check(w.good <= 1, "a word was read " + std::to_string(w.good) + " times");
	c.nontrivial();
}

static void property_alone(Case &c, uint64_t kind)
{
	if (kind <= 1) {
		c.label("cached block");
		const auto log = make_shared<Log>();
		const size_t na = c.range(1, 4);
		for (size_t i = 0; i < na; i++) log->answers.push_back(c.below(3) == 0 ? B128{} : u128(c));
		log->fail_first = c.below(3) == 0 ? c.range(1, 3) : 0;
		const auto inner = make_shared<Changing>(log);
		const auto b = make_shared<gk::BlkCached>(inner);
		const size_t layered = c.below(3);
		SP<gk::Block> o = b;
		for (size_t i = 0; i < layered; i++) o = make_shared<gk::BlkCached>(o);
		c.check(log->calls == 0, "the block was evaluated before it was asked for");
		const size_t n = c.range(1, 20);
		c.note([&](auto &x) { x << "cached block of " << hex(log->answers[0]) << ", " << n << " requests, " << log->fail_first << " failures first, " << layered << " more layers"; });
		c.nontrivial(n >= 2);
		size_t failed = 0;
		for (size_t i = 0; i < n; i++) {
			const SP<gk::Block> ask = c.below(2) ? o : SP<gk::Block>(b);
			try {
				same(c, val(*ask), log->answers[0], "answer " + std::to_string(i + 1));
			} catch (const Fault &) {
				failed++;
				c.check(failed <= log->fail_first, "a failure after a successful evaluation");
				continue;
			}
			c.check(log->good == 1, "the block was evaluated " + std::to_string(log->good) + " times");
			c.check(log->calls == log->fail_first + 1, "the block was asked " + std::to_string(log->calls) + " times");
		}
		return;
	}
	if (kind <= 3) {
		c.label("cached key data");
		const auto log = make_shared<KLog>();
		log->seed = c.word64();
		log->first = words(c);
		if (c.below(3) == 0) {
			size_t at = c.below(8);
			const size_t k = c.range(1, 3);
			for (size_t i = 0; i < k; i++) { log->failing.push_back(at); at += c.range(1, 8); }
		}
		const gm::KeyCachedData kd(std::make_unique<ChangingKey>(log));
		const size_t n = c.range(1, 20);
		c.note([&](auto &x) { x << "cached key data " << key_text(log->first) << ", failing reads " << text(log->failing) << ", requests"; });
		c.nontrivial(n >= 2);
		c.label(!log->failing.empty(), "reads fail at first");
		bool have[8] = {false};
		uint32_t got[8] = {0};
		for (size_t i = 0; i < n; i++) {
			const int idx = int(c.below(8));
			c.note([&](auto &x) { x << idx; });
			const size_t before = log->reads[size_t(idx)].size();
			uint32_t v;
			try {
				v = kd.key(idx);
			} catch (const Fault &) {
				c.check(!have[idx], "a failure for a word already answered");
				continue;
			}
			const auto &r = log->reads[size_t(idx)];
			c.check(!r.empty(), "word " + std::to_string(idx) + " was answered without being read");
			if (have[idx]) {
				same(c, uint64_t(v), uint64_t(got[idx]), "word " + std::to_string(idx) + " asked again");
				c.check(r.size() == before, "word " + std::to_string(idx) + " was read again");
			} else {
				bool known = false;
				for (uint32_t x : r) known |= x == v;
				c.check(known, "word " + std::to_string(idx) + ": got " + hex(v, 8) + ", which was never read for it");
				if (log->failing.empty()) same(c, uint64_t(v), uint64_t(log->first[size_t(idx)]), "word " + std::to_string(idx));
			}
			if (log->failing.empty()) c.check(r.size() == 1, "word " + std::to_string(idx) + " was read " + std::to_string(r.size()) + " times");
			have[idx] = true;
			got[idx] = v;
		}
		if (log->failing.empty()) for (auto &r : log->reads) c.check(r.size() <= 1, "a word was read " + std::to_string(r.size()) + " times");
		return;
	}
	c.label("kuznyechik key");
	const KuzSpec s = kuz_spec(c);
	const auto l1 = make_shared<Log>(), l2 = make_shared<Log>();
	l1->answers = {s.k1, u128(c), u128(c)};
	l2->answers = {s.k2, u128(c), u128(c)};
	const bool fail = c.below(3) == 0;
	if (fail) { l1->fail_first = c.below(2); l2->fail_first = c.below(3); }
	SP<gk::Key> key;
	for (int i = 0; i < 8 && !key; i++) {
		try {
			key = make_shared<gk::Key>(make_shared<UserKuzData>(make_shared<Changing>(l1), make_shared<Changing>(l2)));
		} catch (const Fault &) {
			l1->good = l2->good = 0;  // the next key is another object
		}
	}
	c.check(bool(key), "a Kuznyechik key could not be built");
	const ref::Kuznyechik r(s.k1, s.k2);
	const size_t n = c.range(1, 8);
	c.note([&](auto &x) { x << "kuznyechik key " << s.text() << ", " << n << " blocks, failures first " << l1->fail_first << " " << l2->fail_first; });
	c.nontrivial(n >= 2);
	for (size_t i = 0; i < n; i++) {
		const B128 b = u128(c);
		try {
			same(c, val(*key->encrypt(make_shared<gk::BlkRaw>(b.lo, b.hi))), r.enc(b), "block " + std::to_string(i + 1));
		} catch (const Fault &) {
			c.check(fail, "a failure nobody caused");
		}
		c.check(l1->good <= 1 && l2->good <= 1, "a key half was evaluated more than once (" + std::to_string(l1->good) + ", " + std::to_string(l2->good) + ")");
	}
}

void pbt::property(Case &c)
{
	const uint64_t kind = c.below(61);
	if (kind == 60) return crowd(c);
	property_alone(c, kind % 5);
}

std::string pbt::property_once()
{
	// every order in which two of the eight words are first asked for
	Case c(nullptr, 0);
	uint64_t n = 0;
	for (int a = 0; a < 8; a++)
		for (int b = 0; b < 8; b++)
			for (int z = 0; z < 2; z++) {
				const auto log = make_shared<KLog>();
				for (uint32_t i = 0; i < 8; i++) log->first[i] = z ? 0 : 0x1000u + i;
				const gm::KeyCachedData kd(std::make_unique<ChangingKey>(log));
				for (int i = 0; i < 3; i++) {
					same(c, uint64_t(kd.key(a)), uint64_t(log->first[size_t(a)]), "word " + std::to_string(a));
					same(c, uint64_t(kd.key(b)), uint64_t(log->first[size_t(b)]), "word " + std::to_string(b));
				}
				for (auto &r : log->reads) c.check(r.size() <= 1, "a word was read more than once");
				n++;
			}
	return std::to_string(n) + " fixed request orders";
}
