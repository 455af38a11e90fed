// Kuznyechik CTR streams, memory streams and iterators.
#include "../gens.h"
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C12";
const char *const pbt::property_rule =
	"key, IV and a stream (memory stream of 0..60 words, even or odd, sometimes up to 140000; or a user stream of blocks, the last one or any of them short, with anything behind the end of a short one) are generated, 0..2 CTR layers put on it, and "
	"a history of operations run on a pool of iterators: begin again, advance, read value, size, last, drop an iterator, drop the stream; every answer is compared with a list model "
	"(bytes of a short block beyond its size are not compared). Non-trivial: a CTR layer or a memory stream with at least two blocks.";

struct Model {
	std::vector<UserStream::Item> items;
};
static B128 masked(B128 v, size_t size)
{
	for (int i = int(size); i < 16; i++) v.set(i, 0);
	return v;
}

void pbt::property(Case &c)
{
	// --- the plain stream
	Model m;
	SP<gk::Stream> st;
	const bool memory = c.below(4) != 0;
	bool huge = false;
	std::vector<uint64_t> w;
	SP<gk::StMemory> mem;
	if (memory) {
		size_t n;
		if (c.chance(1, 150)) { n = c.range(200, 140000); huge = true; }
		else n = c.below(5) == 0 ? c.below(61) : c.below(12);
		w.resize(n);
		uint64_t s = c.word64();
		const uint64_t mode = huge ? 0 : c.below(3);
		for (auto &x : w) x = mode == 0 ? pbt::splitmix(s) : mode == 1 ? c.u64() : 0;
		for (size_t i = 0; i < n; i += 2)
			if (i + 1 < n) m.items.push_back({{w[i], w[i + 1]}, 16});
			else m.items.push_back({{w[i], 0}, 8});
		mem = make_shared<gk::StMemory>(w);
		st = mem;
		c.note([&](auto &o) { o << "memory stream of " << n << " words"; for (size_t i = 0; i < n && i < 6; i++) o << " " << hex(w[i]); });
		c.label(n % 2, "half block at the end");
		c.label(n == 0, "empty stream");
	} else {
		const size_t n = c.below(9);
		for (size_t i = 0; i < n; i++) m.items.push_back({u128(c), 16});
		if (n && c.below(2)) {
			m.items.back().size = c.range(1, 15);
			if (c.below(2)) m.items.back().v = masked(m.items.back().v, m.items.back().size);
		}
		if (n > 1 && c.below(3) == 0) {  // incomplete blocks inside, too
			for (size_t i = 0; i + 1 < n; i++) if (c.below(2)) m.items[i].size = c.range(1, 15);
			c.label("incomplete blocks inside");
		}
		st = make_shared<UserStream>(m.items);
		c.note([&](auto &o) { o << "own stream of " << n << " blocks, last of " << (n ? m.items.back().size : 0); });
		c.label("own stream");
		c.label(n == 0, "empty stream");
	}
	// --- CTR layers
	const size_t layers = c.below(8) == 0 ? 0 : c.below(3) == 0 ? 2 : 1;
	std::vector<std::unique_ptr<ref::Kuznyechik>> ks;
	std::vector<uint64_t> ivs;
	for (size_t i = 0; i < layers; i++) {
		if (i == 1 && c.below(2)) {  // the same key and IV again: restores the stream
			ks.push_back(std::make_unique<ref::Kuznyechik>(*ks[0]));
			ivs.push_back(ivs[0]);
			const KuzSpec s{ks[0]->k[0], ks[0]->k[1]};
			st = make_shared<gk::StCTREncrypted>(st, kuz_key(c, s), ivs[0]);
			c.label("encrypted twice");
			c.note([&](auto &o) { o << "CTR again with the same key and IV"; });
			continue;
		}
		const KuzSpec s = kuz_spec(c);
		ks.push_back(std::make_unique<ref::Kuznyechik>(s.k1, s.k2));
		ivs.push_back(c.u64());
		st = make_shared<gk::StCTREncrypted>(st, kuz_key(c, s), ivs.back());
		c.note([&](auto &o) { o << "CTR key " << s.text() << " iv " << hex(ivs.back()); });
	}
	c.nontrivial(m.items.size() >= 2 && (layers > 0 || memory));
	c.label("layers " + std::to_string(layers));
	auto want = [&](size_t i) {
		B128 v = m.items[i].v;
		for (size_t l = 0; l < layers; l++) v = v ^ ks[l]->ctr(ivs[l], i);
		return masked(v, m.items[i].size);
	};
	struct It { SP<gk::Iterator> it; size_t at; };
	std::vector<It> pool;
	auto begin = [&](const SP<gk::Stream> &s) {
		const auto it = s->iter();
		c.check(bool(it) == !m.items.empty(), it ? "an empty stream has a first block" : "a non-empty stream has no first block");
		if (it) pool.push_back({it, 0});
	};
	auto look = [&](const It &x, uint64_t what) {
		const std::string at = " of block " + std::to_string(x.at) + " of " + std::to_string(m.items.size());
		if (what == 0 || what > 2) same(c, masked(val(*x.it), m.items[x.at].size), want(x.at), "value" + at);
		if (what == 1 || what > 2) c.check(x.it->size() == m.items[x.at].size, "size" + at + ": " + std::to_string(x.it->size()) + " instead of " + std::to_string(m.items[x.at].size));
		if (what == 2 || what > 2) c.check(x.it->last() == (x.at + 1 == m.items.size()), "last" + at + " is wrong");
	};
	auto advance = [&](const It &x) -> It {
		const auto n = x.it->next();
		const bool end = x.at + 1 == m.items.size();
		c.check(bool(n) == !end, n ? "a successor after the last block" : "no successor of block " + std::to_string(x.at) + " of " + std::to_string(m.items.size()));
		return {n, x.at + 1};
	};
	begin(st);
	if (huge) {  // walk far, looking closely near powers of two and at the end
		c.label("long stream");
		if (c.below(3) == 0) st.reset();
		mem.reset();
		It x = pool[0];
		pool.clear();
		while (true) {
			const size_t i = x.at, b = i & (i - 1), d = (i + 1) & i, e = (i + 2) & (i + 1);
			const bool closely = b == 0 || d == 0 || e == 0 || i + 2 >= m.items.size() || i % 1021 == 0;
			if (closely) look(x, 3);
			else if (x.it->size() != 16) c.fail("size in the middle of a stream");
			const It n = advance(x);
			if (!n.it) break;
			x = n;
		}
		return;
	}
	if (memory && !w.empty() && c.below(4) == 0) {  // direct access to the block at an offset
		const size_t i = c.below(m.items.size() + 2);
		const auto it = mem->next_iter(i * 16);
		c.check(bool(it) == (i < m.items.size()), "block at offset " + std::to_string(i * 16));
		if (it) {
			same(c, masked(val(*it), m.items[i].size), m.items[i].v, "block at an offset");
			c.check(it->size() == m.items[i].size && it->last() == (i + 1 == m.items.size()), "size or end of the block at an offset");
		}
	}
	if (c.below(2)) {  // one pass over everything first
		if (c.below(3) == 0) { st.reset(); mem.reset(); c.label("stream dropped"); }
		size_t n = 0;
		if (!pool.empty()) {
			It x = pool[0];
			while (true) {
				look(x, 3);
				n++;
				const It y = advance(x);
				if (!y.it) break;
				x = y;
			}
		}
		c.check(n == m.items.size(), "number of blocks");
	}
	const size_t ops = c.below(30);
	for (size_t k = 0; k < ops; k++) {
		const uint64_t op = c.below(10);
		if (op == 0 && st) { begin(st); continue; }
		if (op == 1) { if (c.below(3) == 0) { st.reset(); mem.reset(); c.label("stream dropped"); } continue; }
		if (pool.empty()) continue;
		const size_t i = c.below(pool.size());
		if (op == 2) { pool.erase(pool.begin() + long(i)); continue; }
		if (op <= 5) {
			const It n = advance(pool[i]);
			if (n.it) { if (c.below(3)) pool[i] = n; else if (pool.size() < 12) pool.push_back(n); }
			continue;
		}
		look(pool[i], c.below(4));
	}
	for (const auto &x : pool) look(x, 3);
}

std::string pbt::property_once()
{
	// one long walk over 70000 blocks, looking at the blocks near powers of two; every number of words 0..40
	Case c(nullptr, 0);
	const KuzSpec s{{1, 2}, {3, 4}};
	const ref::Kuznyechik r(s.k1, s.k2);
	const auto key = make_shared<gk::Key>(s.text());
	uint64_t n = 0;
	for (size_t words = 0; words <= 40; words++) {
		std::vector<uint64_t> w;
		for (size_t i = 0; i < words; i++) w.push_back(i * 0x9e3779b97f4a7c15 + 1);
		const gk::StCTREncrypted st(make_shared<gk::StMemory>(w), key, words);
		size_t i = 0;
		for (auto it = st.iter(); it; it = it->next(), i += 2) {
			const bool half = i + 1 == words;
			const B128 p{w[i], half ? 0 : w[i + 1]};
			const size_t size = half ? 8 : 16;
			same(c, masked(val(*it), size), masked(p ^ r.ctr(words, i / 2), size), std::to_string(words) + " words, block " + std::to_string(i / 2));
			c.check(it->size() == size && it->last() == (i + 2 >= words), std::to_string(words) + " words: shape of block " + std::to_string(i / 2));
			n++;
		}
		c.check(i == (words + 1) / 2 * 2, std::to_string(words) + " words: number of blocks");
	}
	const uint64_t iv = 0x8000000000000001;
	const gk::StCTREncrypted st(make_shared<gk::StMemory>(std::vector<uint64_t>(140000, 5)), key, iv);
	size_t i = 0;
	for (auto it = st.iter(); it; it = it->next(), i++)
		if ((i & (i + 1)) == 0 || (i & (i - 1)) == 0 || i % 257 == 0 || i > 69990) {
			same(c, val(*it), B128{5, 5} ^ r.ctr(iv, i), "block " + std::to_string(i) + " of 70000");
			n++;
		}
	c.check(i == 70000, "length of a long stream");
	return std::to_string(n) + " fixed blocks compared (every stream of 0..40 words; a walk over 70000 blocks)";
}
