// Everything is given back.
#include "../alloc.h"
#include "../scenes.h"
using namespace gen;

const char *const pbt::property_id = "C30";
const char *const pbt::property_rule =
	"a script of 1..3 scenes of ordinary use (block expressions, piped sinks and sources, MACs, streams, refusals; in part of the cases with failing allocations, the failed step being repeated; sinks, sources and iterators given up half way) is run 8 times, each time with other "
	"keys and data of the same sizes, and the heap memory in use is read after every run. It may not grow in each of the last six runs; if it does, the script is run 250 times more, and growth that goes on to the end is a violation. Non-trivial: at least four steps.";

namespace {

struct Abandon {};

class Counted final : public scene::Env {
public:
	Counted(Case &c, uint64_t salt, uint64_t failing, size_t most) : Env(c, salt), failing(failing), most(most) {}
	void attempt(const std::function<void()> &f) override
	{
		if (failing) {
			const uint64_t n = at++ % failing == failing - 1 ? c.below(200) : UINT64_MAX;
			if (n != UINT64_MAX) {
				try {
					const alloc::Failing now(n);
					f();
					return;
				} catch (const std::exception &) {
					if (!alloc::fired) throw;
				}
			}
		}
		if (taken++ == most) throw Abandon();
		f();
	}
	uint64_t at = 0;
private:
	const uint64_t failing;
	const size_t most;
	size_t taken = 0;
};

}  // namespace

void pbt::property(Case &c)
{
	const size_t scenes = c.range(1, 3);
	const uint64_t failing = c.below(3) == 0 ? c.range(1, 3) : 0;  // which attempts meet a failing allocation
	const size_t most = c.below(5) == 0 ? c.range(1, 12) : SIZE_MAX;  // where the script is given up
	Bytes script(c.range(16, 300));
	for (auto &b : script) b = c.byte();
	uint64_t salts = c.word64();
	size_t steps = 0;
	auto run = [&](uint64_t salt, bool tell) {
		const Bytes mine(script);
		Case k(mine.data(), mine.size());
		for (size_t i = 0; i < scenes; i++) {
			const unsigned kind = unsigned(k.below(scene::kinds));
			if (tell) {
				c.label(scene::name(kind));
				c.note([&](auto &o) { o << scene::name(kind); });
			}
			Counted e(k, salt, failing, most);
			try {
				scene::run(e, kind);
			} catch (const Abandon &) {
			}
			steps += e.steps;
		}
	};
	run(0, true);
	const size_t one = steps;
	c.note([&](auto &o) { o << one << " steps" << (failing ? ", failing allocations" : ""); });
	c.label(failing, "failing allocations");
	c.label(most != SIZE_MAX, "given up half way");
	c.nontrivial(one >= 4);
	uint64_t before = alloc::live, at_first = 0;
	int grown = 0;
	auto again = [&] {
		run(pbt::splitmix(salts), false);
		const uint64_t now = alloc::live;
		const bool more = now > before;
		before = now;
		return more;
	};
	for (int i = 1; i < 8; i++) {
		if (i == 2) at_first = before;
		grown = again() ? grown + 1 : 0;
	}
	if (grown < 6) return;
	for (int i = 0; i < 250; i++) grown = again() ? grown + 1 : 0;
	// a bounded cache has stopped by now
	c.check(grown < 100, "memory in use grows with every repetition of the script: " + std::to_string(at_first) + " bytes after 2 runs, " + std::to_string(before) + " after 258");
}

std::string pbt::property_once()
{
	// the counter counts
	const uint64_t a = alloc::live;
	auto p = std::make_unique<std::vector<int>>(1000);
	if (alloc::live < a + 4000) throw std::runtime_error("allocations are not counted");
	p.reset();
	if (alloc::live != a) throw std::runtime_error("releases are not counted");
	return "the counter was seen to count";
}
