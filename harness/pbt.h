// A small property-based testing engine.
//
// A property is a function of a Case. Every random decision a property takes comes
// from the Case, as a sequence of bytes ("choices"). The same property can therefore be
// driven by a seeded random generator, replayed from a file, shrunk (by shrinking the
// choice bytes), and mutated by libFuzzer, with no second source of randomness.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

// where a property is defined: C35 takes some in as parts of its own
#define PBT_HERE(name) pbt::name

namespace pbt {

struct Failure {
	std::string message;
};

inline uint64_t splitmix(uint64_t &s)
{
	uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

// Recording buffer that survives a crash of the process (it can live in a mapped file).
struct Tape {
	uint8_t *data = nullptr;
	size_t cap = 0;
	volatile uint64_t *len = nullptr;
};

class Case {
public:
	// random mode: choices come from the seed and are recorded on the tape
	Case(uint64_t seed, Tape tape) : rng(seed), random(true), tape(tape) { if (tape.len) *tape.len = 0; }
	// replay mode: choices come from the bytes; when they run out every choice is 0
	Case(const uint8_t *d, size_t n) : in(d), in_len(n) {}

	uint64_t raw(int nbytes)
	{
		uint64_t v = 0;
		if (random) {
			v = splitmix(rng);
			if (nbytes < 8) v &= (uint64_t(1) << (8 * nbytes)) - 1;
			return v;
		}
		for (int i = 0; i < nbytes; i++) {
			const uint64_t b = pos < in_len ? in[pos] : 0;
			pos++;
			v |= b << (8 * i);
		}
		return v;
	}

	// uniform in [0, n), n >= 1
	uint64_t below(uint64_t n)
	{
		if (n <= 1) return 0;
		const uint64_t m = n - 1;
		int nb = 1;
		while (nb < 8 && (m >> (8 * nb)) != 0) nb++;
		uint64_t v = random ? splitmix(rng) : raw(nb);
		v %= n;
		rec(v, nb);
		return v;
	}
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  // 0 means "no"
	uint64_t word64() { const uint64_t v = raw(8); rec(v, 8); return v; }
	uint32_t word32() { const uint32_t v = uint32_t(raw(4)); rec(v, 4); return v; }
	uint8_t byte() { const uint8_t v = uint8_t(raw(1)); rec(v, 1); return v; }

	// --- interesting integers
	uint64_t u64() { const uint64_t v = shaped(64); pool.push_back(v); return v; }
	uint32_t u32() { const uint32_t v = uint32_t(shaped(32)); pool.push_back(v); return v; }

	// --- reporting
	bool verbose = false;
	std::ostringstream notes;
	std::map<std::string, uint64_t> labels;
	std::map<std::string, std::string> known;  // finding id -> what was seen
	bool interesting = false;

	void label(const std::string &l) { labels[l]++; }
	void label(bool on, const char *l) { if (on) labels[l]++; }
	void nontrivial(bool on = true) { if (on) interesting = true; }
	void finding(const std::string &id, const std::string &what) { known.emplace(id, what); }
	[[noreturn]] void fail(const std::string &m) { throw Failure{m}; }
	void check(bool ok, const std::string &m) { if (!ok) fail(m); }
	template <class F> void note(F f) { if (verbose) { f(notes); notes << "; "; } }

private:
	uint64_t shaped(int bits)
	{
		const uint64_t mask = bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
		switch (below(16)) {
		case 0: return 0;
		case 1: return mask;
		case 2: return uint64_t(1) << below(bits);
		case 3: return (uint64_t(1) << below(bits)) - 1;
		case 4: return 0x0101010101010101ULL * byte() & mask;
		case 5: return below(300);
		case 6: return (mask - below(300)) & mask;
		case 7: return mask & ~(uint64_t(1) << below(bits));
		case 8:
		case 9: {  // related to an earlier value of this case
			if (pool.empty()) break;
			const uint64_t v = pool[below(pool.size())];
			switch (below(7)) {
			case 0: return v & mask;
			case 1: return (v + 1) & mask;
			case 2: return (v - 1) & mask;
			case 3: return ~v & mask;
			case 4: return (v ^ (uint64_t(1) << below(bits))) & mask;
			case 5: return (0 - v) & mask;
			default: return ((v << 32) | (v >> 32)) & mask;
			}
		}
		case 10: {  // half words of special form
			const uint64_t a = below(2) ? (uint64_t(1) << (bits / 2)) - 1 : 0;
			const uint64_t b = bits == 64 ? word32() : word32() & 0xffff;
			return below(2) ? (a << (bits / 2) | b) & mask : (b << (bits / 2) | a) & mask;
		}
		default: break;
		}
		return bits == 64 ? word64() : word32();
	}

	void rec(uint64_t v, int nb)
	{
		if (!random || !tape.len) return;
		uint64_t l = *tape.len;
		for (int i = 0; i < nb && l < tape.cap; i++) tape.data[l++] = uint8_t(v >> (8 * i));
		*tape.len = l;
	}

	uint64_t rng = 0;
	bool random = false;
	Tape tape;
	const uint8_t *in = nullptr;
	size_t in_len = 0;
	size_t pos = 0;
	std::vector<uint64_t> pool;
};

// Defined by the one property file linked into the binary.
extern const char *const property_id;
extern const char *const property_rule;  // how cases are made, what makes one non-trivial
void property(Case &c);
// Deterministic part, run once per run (may be empty); returns what it covered.
std::string property_once();

}  // namespace pbt
