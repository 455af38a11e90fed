// Memory safety of every operation, whatever the lengths. Decided by the sanitizers this
// property is built with (and valgrind); the oracle here makes every byte of every result
// take part in a decision, so that reading outside a buffer cannot stay unnoticed either.
#include "../gens.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C17";
const char *const pbt::property_rule =
	"1..4 operations are generated from all parts of the library (sinks and sources of every mode with any length, split, read sizes, short reads of the underlying source and early destruction; memory and CTR streams of any number "
	"of words with iterators outliving the stream; MACs of any length; blocks from exactly sized heap buffers; keys and blocks from any text, well-formed or not; tables in every form; keys, tables, containers and byte blocks of any size; sources that give more or less than they are asked for), every buffer allocated "
	"with exactly its size; each operation runs twice and must either throw a standard exception or give the same bytes both times; built with AddressSanitizer and UBSan (bounds, shift distance, object size), part of the cases "
	"under valgrind (uninitialised memory). Non-trivial: a length that is not a whole number of blocks, or malformed text, or an object used after its parents were dropped.";

namespace {

// Gives more than it was asked for (which no caller can use), or less, or a lot.
class WildSource final : public goost::Source {
public:
	explicit WildSource(uint64_t seed) : seed(seed) {}
	std::pair<Data, SP<goost::Source>> read(size_t size) const override
	{
		uint64_t s = seed;
		const uint64_t kind = pbt::splitmix(s) % 8;
		const size_t n = kind == 0 ? 0 : kind < 3 ? size + 1 + pbt::splitmix(s) % 20 : kind == 3 ? pbt::splitmix(s) % 64 : std::min<size_t>(size, 64);
		Bytes b(n);
		fill(b, s);
		Data d = to_data(b);
		d.shrink_to_fit();
		return {std::move(d), make_shared<WildSource>(s)};
	}
private:
	const uint64_t seed;
};

Data exact(const Bytes &b)
{
	Data d(b.size());
	d.shrink_to_fit();
	for (size_t i = 0; i < b.size(); i++) d[i] = std::byte(b[i]);
	return d;
}

std::string any_text(Case &c, size_t digits)
{
	static const char alphabet[] = "0123456789abcdefABCDEF";
	static const char odd[] = {' ', '\t', '\n', '+', '-', 'x', 'X', 'g', 'G', '.', '\0', '/', ':', '@', '`', char(0x80), char(0xff)};
	size_t n = digits;
	switch (c.below(6)) {
	case 0: n = c.below(digits + 1); break;
	case 1: n = c.below(3 * digits); break;
	case 2: n = digits + c.range(1, 3); break;
	case 3: n = digits - c.range(1, 3); break;
	default: break;
	}
	std::string s;
	uint64_t r = c.word64();
	for (size_t i = 0; i < n; i++) s += alphabet[pbt::splitmix(r) % 22];
	const uint64_t bad = c.below(4);
	for (uint64_t i = 0; i < bad && n; i++) s[c.below(n)] = odd[c.below(sizeof odd)];
	if (c.chance(1, 12)) s = "0x" + s;
	if (c.chance(1, 12)) s = " " + s;
	return std::string(s.data(), s.size());
}

// What an operation gave: bytes or the fact that it threw
struct Result {
	Bytes out;
	bool threw = false;
	bool operator==(const Result &o) const { return threw == o.threw && out == o.out; }
};
void put(Bytes &b, uint64_t v) { for (int i = 0; i < 8; i++) b.push_back(uint8_t(v >> (8 * i))); }
void put(Bytes &b, const B128 &v) { put(b, v.lo); put(b, v.hi); }

Result guarded(Case &c, const std::function<void(Bytes &)> &op)
{
	Result r;
	try {
		op(r.out);
	} catch (const pbt::Failure &) {
		throw;
	} catch (const std::exception &) {
		r.threw = true;
		r.out.clear();
	} catch (...) {
		c.fail("an exception that is not a std::exception");
	}
	return r;
}

struct Op {
	const char *name;
	bool odd;
	std::function<void(Bytes &)> run;
	bool may_throw;
	Bytes want;       // expected bytes, when has_want
	bool has_want = false;
};

SP<goost::Sink> sink_of(int kind, const SP<goost::Sink> &base, const SP<gm::Key> &key, const std::vector<uint64_t> &regs)
{
	if (kind == 0) return make_shared<gm::CFBSink>(base, key, regs[0], regs[1]);
	if (kind == 1) return make_shared<goost::gost89::CFBSink>(base, key, regs[0]);
	return make_shared<gm::ECBSink>(base, key);
}
SP<goost::Source> source_of(int kind, const SP<goost::Source> &base, const SP<gm::Key> &key, const std::vector<uint64_t> &regs)
{
	if (kind == 0) return make_shared<gm::CFBSource>(base, key, regs[0], regs[1]);
	if (kind == 1) return make_shared<goost::gost89::CFBSource>(base, key, regs[0]);
	return make_shared<gm::ECBSource>(base, key);
}

Op op_sink(Case &c)
{
	const int kind = int(c.below(3));
	const auto m = make_shared<ref::Magma>(magma(c));
	const auto key = lazy_key(c, *m).key;
	std::vector<uint64_t> regs;
	for (int i = 0; i < 2 - kind; i++) regs.push_back(c.u64());
	const Bytes d = bytes(c, 8, 3000);
	const bool aligned = kind == 2 && c.below(2);
	const Bytes p(d.begin(), d.end() - (aligned ? long(d.size() % 8) : 0));
	const auto pieces = split(c, p.size(), aligned ? 8 : 1, true);
	const bool drop = c.chance(1, 8);  // never finalized
	c.note([&](auto &o) { o << (kind == 0 ? "magma CFB" : kind == 1 ? "gost89 CFB" : "ECB") << " sink, " << p.size() << " bytes as " << text(pieces) << (drop ? ", dropped" : ""); });
	Op o{"sink", p.size() % 8 != 0 || drop, {}, kind == 2, {}, false};
	auto enc = [&](uint64_t b) { return m->enc(b); };
	if (kind != 2) { o.want = drop ? Bytes() : ref::cfb(enc, regs, p, false); o.has_want = true; }
	o.run = [=](Bytes &out) {
		SP<goost::Sink> s = sink_of(kind, make_shared<MemSink>(), key, regs);
		size_t pos = 0;
		for (size_t k : pieces) {
			s = s->write(exact(Bytes(p.begin() + long(pos), p.begin() + long(pos + k))));
			pos += k;
		}
		if (drop) return;
		s = s->finalize();
		if (const auto *r = dynamic_cast<const MemSink *>(s.get())) out = r->record();
	};
	return o;
}

Op op_source(Case &c)
{
	const int kind = int(c.below(3));
	const auto m = make_shared<ref::Magma>(magma(c));
	const auto key = lazy_key(c, *m).key;
	std::vector<uint64_t> regs;
	for (int i = 0; i < 2 - kind; i++) regs.push_back(c.u64());
	const auto d = make_shared<Bytes>(bytes(c, 8, 3000));
	if (kind == 2 && c.below(2)) d->resize(d->size() / 8 * 8);
	d->shrink_to_fit();
	const bool hiccup = c.chance(1, 4);
	const uint64_t seed = c.word64();
	const auto sizes = reads(c, d->size(), 0);
	const bool container = kind == 2 && c.below(2);
	const size_t stop = c.chance(1, 6) ? c.below(sizes.size() + 1) : sizes.size();
	c.note([&](auto &o) { o << (kind == 0 ? "magma CFB" : kind == 1 ? "gost89 CFB" : "ECB") << " source of " << d->size() << " bytes, reads " << text(sizes) << (hiccup ? ", short reads" : ""); });
	Op o{"source", d->size() % 8 != 0 || hiccup, {}, kind == 2, {}, false};
	if (kind != 2) {
		auto enc = [&](uint64_t b) { return m->enc(b); };
		const Bytes all = ref::cfb(enc, regs, *d, true);
		size_t n = 0;
		for (size_t i = 0; i < stop; i++) n += std::min(sizes[i], all.size() - n);
		o.want.assign(all.begin(), all.begin() + long(n));
		o.has_want = true;
	}
	o.run = [=](Bytes &out) {
		SP<goost::Source> base = hiccup ? SP<goost::Source>(make_shared<PieceSource>(*d, 1 + seed % 12, seed)) : SP<goost::Source>(make_shared<MemSource>(*d));
		SP<goost::Source> s = container
			? SP<goost::Source>(make_shared<gm::ECBSource>(base, make_shared<UserContainer>(m->key, m->rows)))
			: source_of(kind, base, key, regs);
		base.reset();
		for (size_t i = 0; i < stop; i++) {
			const auto r = s->read(kind == 2 ? std::max<size_t>(8, sizes[i]) : sizes[i]);
			const Bytes b = to_bytes(r.first);
			out.insert(out.end(), b.begin(), b.end());
			s = r.second;
		}
	};
	return o;
}

Op op_wild(Case &c)
{
	const int kind = int(c.below(4));
	const auto m = make_shared<ref::Magma>(magma(c));
	const auto key = lazy_key(c, *m).key;
	const std::vector<uint64_t> regs{c.u64(), c.u64()};
	const uint64_t seed = c.word64();
	const auto sizes = reads(c, c.below(100), 0);
	c.note([&](auto &o) { o << "source kind " << kind << " over one that gives more or less than it is asked for, reads " << text(sizes); });
	Op o{"wild source", true, {}, true, {}, false};
	o.run = [=](Bytes &out) {
		if (kind == 3) { put(out, val(gm::Imit(make_shared<WildSource>(seed), key))); return; }
		SP<goost::Source> s = source_of(kind, make_shared<WildSource>(seed), key, regs);
		for (size_t k : sizes) {
			const auto r = s->read(std::min<size_t>(kind == 2 ? std::max<size_t>(8, k) : k, 200));
			const Bytes b = to_bytes(r.first);
			out.insert(out.end(), b.begin(), b.end());
			s = r.second;
		}
	};
	return o;
}

// key words, tables, containers and byte blocks of any size
Bytes any_bytes(Case &c, size_t right)
{
	const size_t n = c.below(4) == 0 ? c.below(2 * right + 8) : c.below(3) ? right - std::min<size_t>(right, c.below(12)) : right + c.below(9);
	Bytes b(n);
	fill(b, c.word64());
	b.shrink_to_fit();
	return b;
}
class AnyContainer final : public gm::Container {
public:
	AnyContainer(const Bytes &k, const Bytes &t) : k(k), t(t) {}
	Data key() const override { return exact(k); }
	Data mask() const override { return Data(32, std::byte(0)); }
	Data sbox() const override { return exact(t); }
private:
	const Bytes k, t;
};
Op op_material(Case &c)
{
	const uint64_t kind = c.below(6);
	const Bytes a = any_bytes(c, kind == 3 ? 8 : 32), t = any_bytes(c, 64);
	const uint64_t v = c.u64();
	const int index = c.chance(1, 4) ? int(c.u32()) : int(c.below(16));
	std::vector<uint32_t> w(a.size() / 4);
	for (size_t i = 0; i < w.size(); i++) w[i] = uint32_t(a[i * 4]) * 0x01020305;
	w.shrink_to_fit();
	std::vector<std::vector<int>> r(8);
	uint64_t s = v;
	for (auto &row : r) { row.resize(c.chance(1, 3) ? c.below(20) : 16); for (auto &x : row) x = int(pbt::splitmix(s) & 15); row.shrink_to_fit(); }
	c.note([&](auto &o) { o << "material " << kind << ": " << a.size() << " bytes, table of " << t.size() << ", word " << index; });
	Op o{"material of any size", true, {}, true, {}, false};
	o.run = [=](Bytes &out) {
		const auto blk = make_shared<gm::BlkRaw>(v);
		switch (kind) {
		case 0: put(out, val(gm::BlkEncrypted(blk, make_shared<gm::LazyKey>(w, make_shared<UserSbox>(ref::rows_z()))))); break;
		case 1: put(out, gm::KeyDataNative(w).key(index)); break;
		case 2: put(out, gm::KeyCachedData(std::make_unique<gm::KeyDataNative>(w)).key(index)); break;
		case 3: put(out, val(gm::BlkRaw(a))); break;
		case 4: {
			const gm::ECBSource src(make_shared<MemSource>(Bytes(16, uint8_t(v))), make_shared<AnyContainer>(a, t));
			const Bytes d = to_bytes(src.read(8).first);
			out.insert(out.end(), d.begin(), d.end());
			break;
		}
		default:
			if (index & 1) put(out, gm::SboxByte(t).transform(uint32_t(v)));
			else put(out, gm::SboxNibble(r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]).transform(uint32_t(v)));
			break;
		}
	};
	return o;
}

Op op_stream(Case &c)
{
	const KuzSpec spec = kuz_spec(c);
	const auto key = kuz_key(c, spec);
	const size_t n = c.chance(1, 20) ? c.below(80) : c.below(14);
	std::vector<uint64_t> w(n);
	uint64_t s = c.word64();
	for (auto &x : w) x = pbt::splitmix(s);
	w.shrink_to_fit();
	const uint64_t iv = c.u64();
	const uint64_t kind = c.below(3);
	const bool drop = c.below(2);
	c.note([&](auto &o) { o << (kind == 0 ? "memory stream" : kind == 1 ? "CTR stream" : "MAC") << " of " << n << " words" << (drop ? ", stream dropped" : ""); });
	Op o{"stream", n % 2 != 0 || drop, {}, kind == 2 && n == 0, {}, false};
	o.run = [=](Bytes &out) {
		SP<gk::Stream> st;
		{
			auto words = std::make_unique<std::vector<uint64_t>>(w);
			st = make_shared<gk::StMemory>(*words);
		}
		if (kind == 2) { put(out, val(gk::Imit(st, key))); return; }
		if (kind == 1) st = make_shared<gk::StCTREncrypted>(st, key, iv);
		SP<gk::Iterator> it = st->iter(), first = it;
		if (drop) st.reset();
		while (it) {
			put(out, val(*it));
			put(out, it->size());
			put(out, it->last());
			it = it->next();
		}
		if (first) put(out, val(*first));
	};
	return o;
}

Op op_mac(Case &c)
{
	const auto m = make_shared<ref::Magma>(magma(c));
	const auto key = lazy_key(c, *m).key;
	auto d = bytes(c, 8, 2000);
	d.shrink_to_fit();
	const bool old = c.below(2);
	const bool hiccup = c.chance(1, 5);
	const uint64_t seed = c.word64();
	c.note([&](auto &o) { o << (old ? "gost89 MAC" : "magma MAC") << " of " << d.size() << " bytes"; });
	Op o{"MAC", d.size() % 8 != 0, {}, false, {}, false};
	if (old) { o.want = ref::imit89(*m, d); o.has_want = true; }
	o.run = [=](Bytes &out) {
		if (old) out = goost::gost89::DataImit(d, key).value();
		else {
			SP<goost::Source> base = hiccup ? SP<goost::Source>(make_shared<PieceSource>(d, 1 + seed % 12, seed)) : SP<goost::Source>(make_shared<MemSource>(d));
			put(out, val(gm::Imit(base, key)));
		}
	};
	return o;
}

Op op_text(Case &c)
{
	const uint64_t kind = c.below(6);
	const size_t digits = kind < 4 ? 64 : kind == 4 ? 16 : 32;
	const std::string t = any_text(c, digits);
	const int index = c.chance(1, 3) ? int(c.u32()) : int(c.below(8));
	const uint64_t v = c.u64();
	c.note([&](auto &o) { o << "text kind " << kind << " of " << t.size() << " characters, word " << index; });
	Op o{"text", t.size() != digits || t.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos, {}, true, {}, false};
	o.run = [=](Bytes &out) {
		auto copy = std::make_unique<std::string>(t);
		switch (kind) {
		case 0: put(out, gm::KeyDataString(*copy).key(index)); break;
		case 1: { const gm::LazyKey k(*copy); copy.reset(); put(out, k.transform(uint32_t(v), index & 7)); break; }
		case 2: { const gk::KeyDataString k(*copy); copy.reset(); const auto h = k.high(), l = k.low(); put(out, val(*h)); put(out, val(*l)); break; }
		case 3: { const gk::Key k(*copy); copy.reset(); put(out, val(*k.encrypt(make_shared<gk::BlkRaw>(v, v)))); break; }
		case 4: { const gm::BlkString b(*copy); copy.reset(); put(out, val(b)); break; }
		default: { const gk::BlkString b(*copy); copy.reset(); put(out, val(b)); break; }
		}
	};
	return o;
}

Op op_block(Case &c)
{
	const auto m = make_shared<ref::Magma>(magma(c));
	const auto key = lazy_key(c, *m).key;
	const uint64_t v = c.u64(), w = c.u64();
	const int n = int(c.below(64)), n2 = int(c.below(128));
	const uint64_t kind = c.below(12);
	const int first = int(c.range(1, 30)), last = first + int(c.below(3));
	const size_t offset = c.below(9);
	c.note([&](auto &o) { o << "block operation " << kind << " on " << hex(v); });
	Op o{"block", kind >= 9, {}, false, {}, false};
	o.run = [=](Bytes &out) {
		auto mem = std::make_unique<uint32_t[]>(2);
		mem[0] = uint32_t(v);
		mem[1] = uint32_t(v >> 32);
		SP<gm::Block> b = make_shared<gm::BlkRaw>(static_cast<const void *>(mem.get()));
		mem.reset();
		auto mem2 = std::make_unique<uint64_t[]>(2);
		mem2[0] = v;
		mem2[1] = w;
		SP<gk::Block> k = make_shared<gk::BlkRaw>(static_cast<const void *>(mem2.get()));
		mem2.reset();
		switch (kind) {
		case 0: put(out, val(gm::BlkEncrypted(b, key))); put(out, val(gm::BlkDecrypted(b, key))); break;
		case 1: put(out, val(gm::BlkForwarded(b, key))); put(out, val(gm::BlkBackwarded(b, key))); break;
		case 2: put(out, val(gm::BlkShifted(b, n))); put(out, val(gm::BlkSwapped(b))); break;
		case 3: put(out, val(gk::BlkShifted(k, n2))); put(out, val(gk::BlkIncremented(k))); break;
		case 4: put(out, val(gk::BlkS(k))); put(out, val(gk::BlkL(k))); put(out, val(gk::BlkR(k))); break;
		case 5: put(out, gm::EncryptionBase(key).transform(v)); break;
		case 6: put(out, val(gk::BlkXored(k, make_shared<gk::BlkRaw>(w, v), k))); put(out, val(gm::BlkXored(b, b, make_shared<gm::BlkRaw>(w)))); break;
		case 7: put(out, val(gk::BlkIterKey(k, make_shared<gk::BlkRaw>(w, v), first, last))); break;
		case 8: { Bytes e(8); e.shrink_to_fit(); ref::put_le64(&e[0], v); put(out, val(gm::BlkRaw(e))); break; }
		case 9: {  // a buffer at any address: exactly 8 (16) bytes, the rest of the allocation does not exist
			const auto raw = std::make_unique<char[]>(offset + 8);
			memcpy(raw.get() + offset, &v, 8);
			if (offset % 4 == 0) put(out, val(gm::BlkRaw(static_cast<const void *>(raw.get() + offset))));
			break;
		}
		case 10: {  // a cached block outlives everything it was made from
			SP<gk::Block> cached = make_shared<gk::BlkCached>(make_shared<gk::BlkL>(k));
			k.reset();
			put(out, val(*cached));
			put(out, val(*cached));
			break;
		}
		default: {
			SP<gm::Block> e;
			{
				const auto tmp = make_shared<gm::LazyKey>(std::vector<uint32_t>(m->key.begin(), m->key.end()), make_shared<UserSbox>(m->rows));
				e = make_shared<gm::BlkEncrypted>(b, tmp);
				b.reset();
			}
			put(out, val(*e));
			break;
		}
		}
	};
	return o;
}

Op op_table(Case &c)
{
	const Rows r = rows(c);
	const uint32_t v = c.u32();
	const uint64_t kind = c.below(3);
	c.note([&](auto &o) { o << "table form " << kind << " on " << hex(v, 8); });
	Op o{"table", false, {}, false, {}, false};
	put(o.want, ref::substitute(r, v));
	o.has_want = true;
	o.run = [=](Bytes &out) {
		std::unique_ptr<const gm::Sbox> s;
		{
			Bytes uz = ref::collapse(r);
			uz.shrink_to_fit();
			if (kind == 0) s = std::make_unique<gm::SboxByte>(uz);
			else if (kind == 1) s = std::make_unique<gm::SboxByte>(
				std::make_unique<gm::SboxByte64Tab>(uz, 0), std::make_unique<gm::SboxByte64Tab>(uz, 1),
				std::make_unique<gm::SboxByte64Tab>(uz, 2), std::make_unique<gm::SboxByte64Tab>(uz, 3));
			else s = std::make_unique<gm::SboxNibble>(row_of(r, 0), row_of(r, 1), row_of(r, 2), row_of(r, 3), row_of(r, 4), row_of(r, 5), row_of(r, 6), row_of(r, 7));
		}
		put(out, s->transform(v));
	};
	return o;
}

}  // namespace

void pbt::property(Case &c)
{
	const size_t n = c.range(1, 4);
	for (size_t i = 0; i < n; i++) {
		Op o;
		switch (c.below(18)) {
		case 16: o = op_wild(c); break;
		case 17: o = op_material(c); break;
		case 0: case 1: case 2: case 3: o = op_sink(c); break;
		case 4: case 5: case 6: case 7: o = op_source(c); break;
		case 8: case 9: o = op_stream(c); break;
		case 10: case 11: o = op_mac(c); break;
		case 12: case 13: o = op_text(c); break;
		case 14: o = op_block(c); break;
		default: o = op_table(c); break;
		}
		const Result a = guarded(c, o.run);
		{  // other contents for the memory the next run gets
			Bytes junk(1 + c.below(300), uint8_t(c.byte()));
			std::vector<Bytes> small(8, Bytes(24, uint8_t(0x5a + i)));
			c.check(!junk.empty() && small.size() == 8, "");
		}
		const Result b = guarded(c, o.run);
		c.check(o.may_throw || (!a.threw && !b.threw), std::string(o.name) + ": unexpected exception");
		c.check(a == b, std::string(o.name) + ": the same operation gave different results: " + (a.threw ? "exception" : hex(a.out)) + " and " + (b.threw ? "exception" : hex(b.out)));
		if (o.has_want && !a.threw) same(c, a.out, o.want, o.name);
		c.label(o.name);
		c.label(a.threw, "refused with an exception");
		c.nontrivial(o.odd);
	}
}

std::string pbt::property_once()
{
	Case c(nullptr, 0);
	uint64_t n = 0;
	const ref::Magma m({{1, 2, 3, 4, 5, 6, 7, 8}}, ref::rows_z());
	const auto key = make_shared<gm::LazyKey>(key_text(m.key));
	auto enc = [&](uint64_t b) { return m.enc(b); };
	const auto kkey = make_shared<gk::Key>(std::string(64, '7'));
	Bytes d(200);
	fill(d, 5);
	const std::vector<uint64_t> regs2{11, 12}, regs1{11};
	for (size_t len = 0; len <= 100; len++) {
		const Bytes p(d.begin(), d.begin() + long(len));
		for (int kind = 0; kind < 2; kind++) {
			const auto &regs = kind ? regs1 : regs2;
			const auto s = sink_of(kind, make_shared<MemSink>(), key, regs)->write(exact(p))->finalize();
			same(c, record(c, s, "CFB"), ref::cfb(enc, regs, p, false), "CFB");
			const auto r = source_of(kind, make_shared<MemSource>(p), key, regs)->read(SIZE_MAX);
			same(c, to_bytes(r.first), ref::cfb(enc, regs, p, true), "CFB");
			for (size_t k = 1; k <= 20; k++) {
				SP<goost::Source> q = source_of(kind, make_shared<MemSource>(p), key, regs);
				for (size_t i = 0; i < len + 2; i += k) q = q->read(k).second;
				n++;
			}
		}
		same(c, goost::gost89::DataImit(p, key).value(), ref::imit89(m, p), "MAC");
		gm::Imit(make_shared<MemSource>(p), key).value();
		n += 6;
	}
	for (size_t words = 0; words <= 40; words++) {
		std::vector<uint64_t> w(words, 5);
		SP<gk::Stream> st = make_shared<gk::StMemory>(w);
		size_t got = 0;
		for (SP<gk::Iterator> it = st->iter(); it; it = it->next()) got += it->size();
		c.check(got == words * 8, "bytes of a stream of " + std::to_string(words) + " words");
		if (words) gk::Imit(st, kkey).value();
		st = make_shared<gk::StCTREncrypted>(st, kkey, 5);
		for (SP<gk::Iterator> it = st->iter(); it; it = it->next()) it->value();
		n += 3;
	}
	return std::to_string(n) + " fixed operations: every length 0..100 through CFB and the MACs with every read size 1..20, every stream of 0..40 words";
}
