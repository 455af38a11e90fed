// Sources that deliver in pieces.
#include "../gens.h"
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/ECBSource.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/Imit.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C28";
const char *const pbt::property_rule =
	"key, data of any length and an underlying source that delivers it in pieces (at most 1..40 bytes at a time, in fixed, random or alternating sizes, sometimes the whole of it in one read, never nothing before its end) are generated; CFB and ECB "
	"sources of both standards (key object or container) and the Magma MAC are run over it with any sequence of read sizes and must give what they give over a source that delivers in full, byte for byte, and refuse a ciphertext that ends inside a "
	"block; reading again from kept source objects must repeat. Non-trivial: a piece ended inside a block before the end of the data.";

namespace {

struct Log { bool inside = false; };
// pieces from a list of sizes, used in turn
class ListSource final : public goost::Source {
public:
	ListSource(const Bytes &b, const std::vector<size_t> &sizes, std::shared_ptr<Log> log) : d(make_shared<Bytes>(b)), sizes(make_shared<std::vector<size_t>>(sizes)), log(log), pos(0), turn(0) {}
	std::pair<Data, SP<goost::Source>> read(size_t size) const override
	{
		const size_t n = std::min({size, d->size() - pos, (*sizes)[turn % sizes->size()]});
		if ((pos + n) % 8 && pos + n < d->size()) log->inside = true;
		Data out = to_data(d->data() + pos, n);
		return {std::move(out), std::shared_ptr<const Source>(new ListSource(*this, n))};
	}
private:
	ListSource(const ListSource &o, size_t n) : d(o.d), sizes(o.sizes), log(o.log), pos(o.pos + n), turn(o.turn + 1) {}
	const std::shared_ptr<const Bytes> d;
	const std::shared_ptr<const std::vector<size_t>> sizes;
	const std::shared_ptr<Log> log;
	const size_t pos, turn;
};

std::vector<size_t> piece_sizes(Case &c)
{
	std::vector<size_t> r;
	switch (c.below(5)) {
	case 0: r = {c.range(1, 9)}; break;
	case 1: r = {c.range(1, 9), c.range(1, 40)}; break;
	case 2: r = {8, c.range(1, 7)}; break;
	case 3: for (size_t i = c.range(1, 12); i > 0; i--) r.push_back(c.range(1, 20)); break;
	default: for (size_t i = c.range(0, 20); i > 0; i--) r.push_back(1000000); r.push_back(c.range(1, 7)); break;
	}
	return r;
}

}  // namespace

void pbt::property(Case &c)
{
	const ref::Magma m = magma(c);
	const auto key = lazy_key(c, m);
	note_magma(c, m, key);
	auto enc = [&](uint64_t b) { return m.enc(b); };
	const uint64_t kind = c.below(7);
	static const char *const names[] = {"magma CFB", "gost89 CFB", "ECB", "ECB with container", "MAC", "gost89 CFB over ECB", "ECB over magma CFB"};
	c.label(names[kind]);
	Bytes d = kind == 4 ? bytes(c, 8, 2000) : bytes(c, 8, 10000);
	const bool aligned = kind == 2 || kind == 3 || kind == 5 || kind == 6;
	bool cut = false;
	if (aligned) {
		if (d.size() % 8 && c.below(4) == 0) cut = true;
		else d.resize(d.size() / 8 * 8);
	}
	const auto pieces = piece_sizes(c);
	const auto log = make_shared<Log>();
	const SP<goost::Source> base = make_shared<ListSource>(d, pieces, log);
	const std::vector<uint64_t> regs{c.u64(), c.u64()};
	c.note([&](auto &o) { o << names[kind] << "; data " << hex(d) << " in pieces of " << text(pieces) << (cut ? "; cut inside a block" : ""); });
	if (kind == 4) {
		uint64_t got = val(gm::Imit(base, key.key));
		same(c, got, val(gm::Imit(make_shared<MemSource>(d), key.key)), "MAC of " + std::to_string(d.size()) + " bytes delivered in pieces");
		if (d.size() && d.size() % 8 == 0) same(c, got, ref::omac64_whole(enc, d), "MAC");
		c.nontrivial(log->inside);
		return;
	}
	SP<goost::Source> s;
	Bytes want;
	auto dec = [&](uint64_t b) { return m.dec(b); };
	const std::vector<uint64_t> one{regs[0]};
	const auto make = [&](const SP<goost::Source> &from) -> SP<goost::Source> {
		switch (kind) {
		case 0: return make_shared<gm::CFBSource>(from, key.key, regs[0], regs[1]);
		case 1: return make_shared<goost::gost89::CFBSource>(from, key.key, regs[0]);
		case 2: return make_shared<goost::gost89::ECBSource>(from, key.key);
		case 3: return make_shared<gm::ECBSource>(from, make_shared<UserContainer>(m.key, m.rows));
		case 5: return make_shared<goost::gost89::CFBSource>(make_shared<gm::ECBSource>(from, key.key), key.key, regs[0]);
		default: return make_shared<gm::ECBSource>(make_shared<gm::CFBSource>(from, key.key, regs[0], regs[1]), key.key);
		}
	};
	s = make(base);
	switch (kind) {
	case 0: want = ref::cfb(enc, regs, d, true); break;
	case 1: want = ref::cfb(enc, one, d, true); break;
	case 2:
	case 3: want = ref::ecb(dec, d); break;
	case 5: want = ref::cfb(enc, one, ref::ecb(dec, d), true); break;
	default: want = ref::ecb(dec, ref::cfb(enc, regs, d, true)); break;
	}
	want.resize(cut ? d.size() / 8 * 8 : d.size());
	const bool blocks = kind != 0 && kind != 1 && kind != 5;  // returns a block at a time, refuses less
	const auto sizes = reads(c, want.size(), blocks ? 8 : 0);
	c.note([&](auto &o) { o << "read as " << text(sizes); });
	size_t pos = 0, turn = 0;
	SP<goost::Source> again;
	size_t again_pos = 0, again_size = 0;
	while (true) {
		const size_t k = turn < sizes.size() ? sizes[turn] : 64;
		turn++;
		std::pair<Data, SP<goost::Source>> r;
		const bool refused = refuses([&] { r = s->read(k); });
		const std::string what = "read of " + (k == SIZE_MAX ? std::string("all") : std::to_string(k)) + " at " + std::to_string(pos);
		if (refused) {
			// a stack may take the end in before it hands out what was before it
			c.check(cut && (pos == want.size() || kind == 5 || k > want.size() - pos), what + ": refused");
			if (pos < want.size() && kind != 5) {
				// a read that reaches into the incomplete block may be refused as a whole - over a source that delivers in full, too
				SP<goost::Source> q = make(make_shared<MemSource>(d));
				for (size_t i = 0; i < pos; i += 8) q = q->read(8).second;
				c.check(refuses([&] { q->read(k); }), what + ": refused, over a source that delivers in full it is not");
			}
			break;
		}
		const Bytes x = to_bytes(r.first);
		c.check(x.size() <= k && x.size() <= want.size() - pos, what + ": too much: " + hex(x));
		same(c, x, Bytes(want.begin() + long(pos), want.begin() + long(pos + x.size())), what);
		if (!blocks && !cut) c.check(x.size() == std::min(k, want.size() - pos), what + ": " + std::to_string(x.size()) + " bytes only");
		if (c.chance(1, 10)) { again = s; again_pos = pos; again_size = k; }
		s = r.second;
		pos += x.size();
		if (x.empty() && k > 0) {
			c.check(!cut, "a ciphertext that ends inside a block was taken for complete");
			c.check(pos == want.size(), what + ": ends " + std::to_string(want.size() - pos) + " bytes before the end");
			break;
		}
	}
	if (again) {
		const Bytes x = to_bytes(again->read(again_size).first);
		same(c, x, Bytes(want.begin() + long(again_pos), want.begin() + long(again_pos + x.size())), "reading again");
		c.check(blocks || x.size() == std::min(again_size, want.size() - again_pos), "reading again: " + std::to_string(x.size()) + " bytes only");
	}
	c.nontrivial(log->inside);
	c.label(log->inside, "a piece ended inside a block");
}

std::string pbt::property_once()
{
	// every length 0..40, every pair of piece sizes 1..9, read in one and byte by byte
	Case c(nullptr, 0);
	uint64_t n = 0;
	const ref::Magma m({{1, 2, 3, 4, 5, 6, 7, 8}}, ref::rows_z());
	const auto key = make_shared<gm::LazyKey>(key_text(m.key));
	auto enc = [&](uint64_t b) { return m.enc(b); };
	Bytes all(40);
	fill(all, 11);
	const auto log = make_shared<Log>();
	for (size_t len = 0; len <= 40; len++) {
		const Bytes d(all.begin(), all.begin() + long(len));
		const Bytes w2 = ref::cfb(enc, {5, 6}, d, true), w1 = ref::cfb(enc, {5}, d, true), we = ref::ecb([&](uint64_t b) { return m.dec(b); }, d);
		const uint64_t mac = val(gm::Imit(make_shared<MemSource>(d), key));
		for (size_t a = 1; a <= 9; a++)
			for (size_t b = 1; b <= 9; b++) {
				const std::string what = std::to_string(len) + " bytes in pieces of " + std::to_string(a) + " and " + std::to_string(b);
				const SP<goost::Source> base = make_shared<ListSource>(d, std::vector<size_t>{a, b}, log);
				const SP<goost::Source> s2 = make_shared<gm::CFBSource>(base, key, 5, 6), s1 = make_shared<goost::gost89::CFBSource>(base, key, 5);
				same(c, to_bytes(s2->read(SIZE_MAX).first), w2, what);
				same(c, to_bytes(s1->read(SIZE_MAX).first), w1, what);
				same(c, val(gm::Imit(base, key)), mac, what);
				Bytes got;
				SP<goost::Source> q = s2;
				for (size_t i = 0; i < len; i++) { auto r = q->read(1); got.push_back(uint8_t(r.first.at(0))); q = r.second; }
				same(c, got, w2, what + ", read byte by byte");
				got.clear();
				q = make_shared<gm::ECBSource>(base, key);
				bool refused = false;
				while (!refused) {
					std::pair<Data, SP<goost::Source>> r;
					if ((refused = refuses([&] { r = q->read(8); })) || r.first.empty()) break;
					const Bytes x = to_bytes(r.first);
					got.insert(got.end(), x.begin(), x.end());
					q = r.second;
				}
				c.check(refused == (len % 8 != 0), what + ": the end of the ECB data");
				same(c, got, Bytes(we.begin(), we.begin() + long(len / 8 * 8)), what + ", ECB");
				n += 5;
			}
	}
	return std::to_string(n) + " fixed histories: every length 0..40 in every pair of piece sizes 1..9";
}
