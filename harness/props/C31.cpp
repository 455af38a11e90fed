// Running out of memory.
#include "../alloc.h"
#include "../scenes.h"
using namespace gen;

const char *const pbt::property_id = "C31";
const char *const pbt::property_rule =
	"a scene of ordinary use is generated and run with allocations that fail: in constructing objects and in every step (write, read, value, next, finalize, iter) allocation number 0, 1, 2, ... fails one after the other until the step gets by (at most 40), or allocations of generated numbers up to some thousands fail; an "
	"attempt that meets the failure must end in an exception or in the right answer; after it the same call on the same objects is repeated and must give the reference answer, as must all later steps; refusals stay refusals. Non-trivial: at least three failures.";

namespace {

class Short final : public scene::Env {
public:
	Short(Case &c, uint64_t mode) : Env(c), mode(mode) {}
	void attempt(const std::function<void()> &f) override
	{
		const uint64_t top = mode == 0 ? 40 : mode == 1 ? c.below(4) : mode == 2 ? c.below(2) : 3;
		for (uint64_t i = 0; i < top; i++) {
			const uint64_t n = mode == 0 ? i : c.below(uint64_t(1) << c.below(13));
			try {
				const alloc::Failing now(n);
				f();
				if (alloc::fired) survived++;
				return;
			} catch (const std::exception &) {
				if (!alloc::fired) throw;
				failures++;
			}
		}
		f();
	}
	uint64_t failures = 0, survived = 0;
private:
	const uint64_t mode;
};

}  // namespace

void pbt::property(Case &c)
{
	const unsigned kind = unsigned(c.below(scene::kinds));
	const uint64_t mode = c.below(4);
	c.note([&](auto &o) { o << scene::name(kind) << ", " << (mode == 0 ? "every allocation of every step fails in turn" : "some allocations fail"); });
	c.label(scene::name(kind));
	c.label(mode == 0 ? "failing in turn" : "failing at random");
	Short e(c, mode);
	scene::run(e, kind);
	c.nontrivial(e.failures >= 3);
	c.note([&](auto &o) { o << e.steps << " steps, " << e.failures << " failures"; });
}

std::string pbt::property_once()
{
	bool thrown = false;
	try {
		const alloc::Failing now(2);
		std::vector<std::string> v;
		for (int i = 0; i < 10; i++) v.push_back(std::string(100, 'x'));
	} catch (const std::bad_alloc &) {
		thrown = alloc::fired;
	}
	if (!thrown) throw std::runtime_error("allocations do not fail");
	return "allocations were seen to fail";
}
