// The library may be used from within the calls it makes.
#include "../scenes.h"
using namespace gen;

const char *const pbt::property_id = "C34";
const char *const pbt::property_rule =
	"a scene of ordinary use (block expressions, piped sinks and sources, MACs, streams and iterators, parts of keys, refusals) is generated with tables, lookups, key data, blocks, sources, sinks and streams of the user's among its objects. Whenever the library calls one of them, "
	"that object, in generated calls, uses the library itself before it answers: a whole scene with other objects, or the very objects in use once more from where the call in progress found them (not out of what a cache is being filled from); nested up to three deep. Every answer, "
	"inside and outside, must be the reference's. Non-trivial: two or more nested uses.";

namespace {

class Nested final : public scene::Env {
public:
	explicit Nested(Case &c, unsigned depth, size_t &left, size_t &done, std::string &bad) : Env(c), left(left), done(done), bad(bad), depth(depth)
	{
		reentrant = true;
		period = c.range(1, 12);
		phase = c.below(period);
		call = [this](bool same) { called(same); };
		before = on_call;
		on_call = depth < 3 ? &call : nullptr;
	}
	~Nested() override { on_call = before; }
	void step(const std::string &what, const std::function<Bytes()> &f, const Bytes &want) override
	{
		if (!want.empty()) again = [&] { same(c, f(), want, what + " (once more)"); };
		Env::step(what, f, want);
		again = nullptr;
		if (!bad.empty()) throw pbt::Failure{bad};
	}
	void refused(const std::string &what, const std::function<void()> &f) override
	{
		again = nullptr;
		Env::refused(what, f);
		if (!bad.empty()) throw pbt::Failure{bad};
	}

private:
	// from within the library
	void called(bool same)
	{
		if (busy || !left || ++calls % period != phase || !bad.empty()) return;
		left--;
		done++;
		busy = true;
		try {
			if (same && again && c.below(3)) {
				c.label("the same objects");
				const auto use = again;
				use();
			} else {
				const unsigned kind = unsigned(c.below(scene::kinds));
				c.label("other objects");
				Nested e(c, depth + 1, left, done, bad);
				scene::run(e, kind);
			}
		}
		catch (const pbt::Failure &f) { bad = "used from within a call: " + f.message; }
		catch (const std::exception &f) { bad = std::string("used from within a call, the library throws: ") + f.what(); }
		busy = false;
	}
	size_t &left, &done;
	std::string &bad;
	const unsigned depth;
	size_t period = 1, phase = 0, calls = 0;
	bool busy = false;
	std::function<void(bool)> call{};
	std::function<void(bool)> *before = nullptr;
};

}  // namespace

void pbt::property(Case &c)
{
	const unsigned kind = unsigned(c.below(scene::kinds));
	c.note([&](auto &o) { o << scene::name(kind); });
	c.label(scene::name(kind));
	size_t left = c.range(1, 8), done = 0;
	std::string bad;
	{
		Nested e(c, 0, left, done, bad);
		scene::run(e, kind);
	}
	if (!bad.empty()) throw pbt::Failure{bad};
	c.note([&](auto &o) { o << done << " uses from within calls"; });
	c.nontrivial(done >= 2);
}

std::string pbt::property_once() { return ""; }
