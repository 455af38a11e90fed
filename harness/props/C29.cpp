// Objects keep what they were made of.
#include "../scenes.h"
using namespace gen;

const char *const pbt::property_id = "C29";
const char *const pbt::property_rule =
	"a scene of ordinary use (block expressions, piped sinks and sources, MACs, streams and iterators of both ciphers, refusals) is generated in which every vector, string and handle given to the library is the caller's own; before, between and after the steps the caller overwrites and frees "
	"its things, in a generated order (all at once, some, one at a time), so that the objects under test live on alone; every step must give the reference answer, every refusal must stay one. Also run under ASan. Non-trivial: at least three things were gone before a step.";

namespace {

class Caller final : public scene::Env {
public:
	Caller(Case &c, uint64_t mode) : Env(c), mode(mode) {}
	void built() override
	{
		ready = true;
		drop();
	}
	void step(const std::string &what, const std::function<Bytes()> &f, const Bytes &want) override
	{
		if (ready) drop();
		Env::step(what, f, want);
	}
	void refused(const std::string &what, const std::function<void()> &f) override
	{
		if (ready) drop();
		Env::refused(what, f);
	}
	size_t gone = 0;

private:
	// destroys some of the things the caller has
	void drop()
	{
		switch (mode) {
		case 0: while (!things.empty()) destroy(things.size() - 1); break;  // the youngest first
		case 1: while (!things.empty()) destroy(0); break;                  // the oldest first
		case 2: if (!things.empty()) destroy(c.below(things.size())); break;
		default: for (uint64_t n = c.below(4); n > 0 && !things.empty(); n--) destroy(c.below(things.size())); break;
		}
	}
	void destroy(size_t i)
	{
		things[i]->destroy();
		things.erase(things.begin() + long(i));
		gone++;
	}
	const uint64_t mode;
	bool ready = false;
};

}  // namespace

void pbt::property(Case &c)
{
	const unsigned kind = unsigned(c.below(scene::kinds));
	const uint64_t mode = c.below(4);
	c.note([&](auto &o) { o << scene::name(kind) << ", the caller drops its things " << (mode == 0 ? "at once, youngest first" : mode == 1 ? "at once, oldest first" : mode == 2 ? "one before every step" : "some before every step"); });
	c.label(scene::name(kind));
	Caller e(c, mode);
	scene::run(e, kind);
	c.nontrivial(e.gone >= 3 && e.steps > 0);
	c.note([&](auto &o) { o << e.steps << " steps, " << e.gone << " things gone"; });
}

std::string pbt::property_once() { return ""; }
