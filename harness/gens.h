// Generators of keys, tables, data and histories, and stand-ins for the interfaces a user
// of the library implements.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <goost/Sink.h>
#include <goost/Source.h>
#include <goost/magma/Block.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/Container.h>
#include <goost/magma/Key.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/Sbox.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxByte64Tab.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>
#include <goost/kuznyechik/Block.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/Key.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/Stream.h>
#include "pbt.h"
#include "ref.h"

namespace gen {

using pbt::Case;
using ref::B128;
using ref::Bytes;
using ref::Rows;
namespace gm = goost::magma;
namespace gk = goost::kuznyechik;
template <class T> using SP = std::shared_ptr<const T>;
using Data = std::vector<std::byte>;

// ------------------------------------------------------------------ small helpers

inline std::string hex(uint64_t v, int digits = 16)
{
	char b[32];
	snprintf(b, sizeof b, "%0*llx", digits, static_cast<unsigned long long>(v));
	return b;
}
inline std::string hex(const B128 &b) { return hex(b.hi) + hex(b.lo); }
inline std::string hex(const Bytes &d, size_t max = 48)
{
	std::string s;
	for (size_t i = 0; i < d.size() && i < max; i++) s += hex(d[i], 2);
	if (d.size() > max) s += "...";
	return s + " (" + std::to_string(d.size()) + " bytes)";
}
inline Data to_data(const uint8_t *p, size_t n)
{
	Data d;
	d.reserve(n);
	for (size_t i = 0; i < n; i++) d.push_back(std::byte(p[i]));
	return d;
}
inline Data to_data(const Bytes &b) { return to_data(b.data(), b.size()); }
inline Bytes to_bytes(const Data &d)
{
	Bytes b;
	b.reserve(d.size());
	for (std::byte x : d) b.push_back(uint8_t(x));
	return b;
}
inline uint64_t val(const gm::Block &b)
{
	const auto v = b.value();
	return uint64_t(v.second) << 32 | v.first;
}
inline B128 val(const gk::Block &b)
{
	const auto v = b.value();
	return {v.first, v.second};
}
inline void same(Case &c, const Bytes &got, const Bytes &want, const std::string &what)
{
	if (got == want) return;
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	c.fail(what + ": differs at byte " + std::to_string(i) + " of " + std::to_string(want.size()) + " (got " +
		std::to_string(got.size()) + " bytes): got " + hex(got) + ", expected " + hex(want));
}
inline void same(Case &c, uint64_t got, uint64_t want, const std::string &what)
{
	if (got != want) c.fail(what + ": got " + hex(got) + ", expected " + hex(want));
}
inline void same(Case &c, const B128 &got, const B128 &want, const std::string &what)
{
	if (got != want) c.fail(what + ": got " + hex(got) + ", expected " + hex(want));
}

template <class F> bool refuses(const F &f)
{
	try {
		f();
	} catch (const pbt::Failure &) {
		throw;
	} catch (const std::exception &) {
		return true;
	}
	return false;
}

// ------------------------------------------------------------------ data

// mostly short, often next to a block boundary, sometimes long
inline size_t length(Case &c, size_t block, size_t big)
{
	switch (c.below(12)) {
	case 0: return 0;
	case 1: return c.below(block);
	case 2: return block * c.range(1, 3);
	case 3:
	case 4: return block * c.range(1, 8) + c.below(block);
	case 5: return block * c.range(1, 40) + block - 1;
	case 6: return block * c.range(1, 40) + 1;
	case 7: return c.below(block * 64);
	case 8: return c.below(block * 6);
	case 9: {
		if (!c.chance(1, 4)) return block * c.range(1, 16);
		// around a power of two
		const size_t p = size_t(1) << c.range(4, 13);
		const size_t l = p + c.below(2 * block + 1);
		return std::min(l > block ? l - block : l, big);
	}
	case 10: return c.chance(1, 8) ? std::min<size_t>(big, c.below(big + 1)) : c.below(block * 5);
	default: return block * c.range(1, 12) + c.below(block);
	}
}

inline void fill(Bytes &d, uint64_t seed) { for (auto &x : d) x = uint8_t(pbt::splitmix(seed)); }

inline Bytes content(Case &c, size_t n)
{
	Bytes d(n);
	switch (c.below(9)) {
	case 0: break;
	case 1: std::fill(d.begin(), d.end(), uint8_t(0xff)); break;
	case 2: std::fill(d.begin(), d.end(), c.byte()); break;
	case 3: if (n <= 96) { for (auto &x : d) x = c.byte(); break; } [[fallthrough]];
	case 4:
	case 5: fill(d, c.word64()); break;
	case 6: {  // few distinct values, long equal stretches
		uint64_t s = c.word64();
		const uint8_t alphabet[4] = {0, 0xff, 0x80, uint8_t(pbt::splitmix(s))};
		for (auto &x : d) x = alphabet[pbt::splitmix(s) & 3];
		break;
	}
	case 7: {  // a repeated 8-byte pattern
		const uint64_t w = c.u64();
		for (size_t i = 0; i < n; i++) d[i] = uint8_t(w >> (8 * (i % 8)));
		break;
	}
	default: {  // random with a special tail or head
		fill(d, c.word64());
		const size_t k = std::min<size_t>(n, c.below(20));
		const uint8_t v = c.below(2) ? 0 : 0x80;
		if (c.below(2)) std::fill(d.end() - long(k), d.end(), v);
		else std::fill(d.begin(), d.begin() + long(k), v);
		if (v && k) std::fill(c.below(2) ? d.end() - long(k) + 1 : d.end(), d.end(), uint8_t(0));
		break;
	}
	}
	return d;
}
inline Bytes bytes(Case &c, size_t block, size_t big) { const size_t n = length(c, block, big); return content(c, n); }

// a split of n bytes into pieces (empty ones included); pieces are multiples of unit
inline std::vector<size_t> split(Case &c, size_t n, size_t unit, bool empties)
{
	std::vector<size_t> r;
	const uint64_t mode = c.below(8);
	size_t left = n;
	while (left > 0) {
		size_t k;
		if (r.size() > 300 && mode != 1) k = left;
		else switch (mode) {
			case 0: k = left; break;
			case 1: k = unit; break;
			case 2: k = unit * c.range(1, 9); break;
			case 3: k = unit * c.range(1, 24); break;
			case 4: k = unit * (r.empty() ? c.range(1, 9) : 8); break;
			case 5: k = c.below(left / unit + 1) * unit; break;
			case 6: k = r.size() % 2 ? unit : unit * c.range(1, 16); break;
			default: k = unit * c.range(7, 9); break;
		}
		if (empties && r.size() < 100 && c.chance(1, 12)) r.push_back(0);
		k = std::min(k, left);
		if (k == 0 && !empties) continue;
		if (k == 0) { r.push_back(0); k = std::min(left, unit); }
		r.push_back(k);
		left -= k;
	}
	if (empties && c.chance(1, 6)) r.push_back(0);
	return r;
}
inline std::string text(const std::vector<size_t> &v, size_t max = 24)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size() && i < max; i++) s += (i ? " " : "") + (v[i] == SIZE_MAX ? "all" : std::to_string(v[i]));
	return s + (v.size() > max ? " ...]" : "]");
}

// ------------------------------------------------------------------ faults and counters

struct Fault : std::exception {
	uint64_t id;
	explicit Fault(uint64_t id) : id(id) {}
	const char *what() const noexcept override { return "injected fault"; }
};
// The same in the classes that user code throws.
template <class Base> struct FaultOf final : Base {
	uint64_t id;
	explicit FaultOf(uint64_t id) : Base("injected fault"), id(id) {}
};
struct FaultAlloc final : std::bad_alloc {
	uint64_t id;
	explicit FaultAlloc(uint64_t id) : id(id) {}
};
struct FaultPlain { uint64_t id; };  // not a std::exception
constexpr unsigned fault_kinds = 9;
[[noreturn]] inline void raise(unsigned kind, uint64_t id)
{
	switch (kind % fault_kinds) {
	case 1: throw FaultOf<std::runtime_error>(id);
	case 2: throw FaultOf<std::logic_error>(id);
	case 3: throw FaultOf<std::out_of_range>(id);
	case 4: throw FaultOf<std::invalid_argument>(id);
	case 5: throw FaultOf<std::overflow_error>(id);
	case 6: throw FaultAlloc(id);
	case 7: throw FaultPlain{id};
	case 8: throw int(id);
	default: throw Fault(id);
	}
}
// Calls f; tells which fault arrived, if one did. Anything else goes on.
struct Caught { bool fault = false; unsigned kind = 0; uint64_t id = 0; };
template <class F> Caught catching(const F &f)
{
	try {
		f();
		return {};
	}
	catch (const Fault &e) { return {true, 0, e.id}; }
	catch (const FaultOf<std::runtime_error> &e) { return {true, 1, e.id}; }
	catch (const FaultOf<std::logic_error> &e) { return {true, 2, e.id}; }
	catch (const FaultOf<std::out_of_range> &e) { return {true, 3, e.id}; }
	catch (const FaultOf<std::invalid_argument> &e) { return {true, 4, e.id}; }
	catch (const FaultOf<std::overflow_error> &e) { return {true, 5, e.id}; }
	catch (const FaultAlloc &e) { return {true, 6, e.id}; }
	catch (const FaultPlain &e) { return {true, 7, e.id}; }
	catch (int id) { return {true, 8, uint64_t(id)}; }
}
// Counts the calls into the stand-ins; throws on the calls listed.
struct Plan {
	uint64_t calls = 0;
	std::vector<uint64_t> when;  // call numbers that fail
	bool armed = true;
	unsigned kind = 0;           // class of the next fault
	void hit()
	{
		const uint64_t n = calls++;
		if (!armed) return;
		for (uint64_t w : when) if (w == n) raise(kind, n);
	}
};
using PlanP = std::shared_ptr<Plan>;
// What else the stand-ins do when they are called (C34): told whether the very objects
// in use may be used again from there, which a cache being filled does not allow.
inline std::function<void(bool)> *on_call = nullptr;
inline void hit(const PlanP &p, bool again = true)
{
	if (on_call) (*on_call)(again);
	if (p) p->hit();
}

// ------------------------------------------------------------------ Magma stand-ins

class UserSbox final : public gm::Sbox {
public:
	explicit UserSbox(const Rows &r, PlanP plan = {}) : rows(r), plan(plan) {}
	uint32_t transform(uint32_t v) const override { hit(plan); return ref::rol11(ref::substitute(rows, v)); }
private:
	const Rows rows;
	const PlanP plan;
};
class UserTab final : public gm::SboxByte::Tab {
public:
	UserTab(const std::array<uint8_t, 16> &lo, const std::array<uint8_t, 16> &hi, PlanP plan = {}) : lo(lo), hi(hi), plan(plan) {}
	uint32_t translate(int index) const override
	{
		hit(plan);
		const unsigned i = unsigned(index);
		return uint32_t(lo[i & 15] | hi[i >> 4 & 15] << 4);
	}
private:
	const std::array<uint8_t, 16> lo, hi;
	const PlanP plan;
};
class UserKeyData final : public gm::KeyData {
public:
	explicit UserKeyData(const std::array<uint32_t, 8> &k, PlanP plan = {}) : k(k), plan(plan) {}
	uint32_t key(int index) const override { hit(plan, false); return k.at(size_t(index)); }
private:
	const std::array<uint32_t, 8> k;
	const PlanP plan;
};
class UserBlock64 final : public gm::Block {
public:
	explicit UserBlock64(uint64_t v, PlanP plan = {}) : v(v), plan(plan) {}
	std::pair<uint32_t, uint32_t> value() const override { hit(plan); return {uint32_t(v), uint32_t(v >> 32)}; }
private:
	const uint64_t v;
	const PlanP plan;
};
class UserContainer final : public gm::Container {
public:
	UserContainer(const std::array<uint32_t, 8> &k, const Rows &r, PlanP plan = {}) : k(k), rows(r), plan(plan) {}
	Data key() const override
	{
		hit(plan);
		Data d;
		for (uint32_t w : k) for (int i = 3; i >= 0; i--) d.push_back(std::byte(w >> (8 * i) & 255));
		return d;
	}
	Data mask() const override { if (plan) hit(plan); return Data(32, std::byte(0)); }
	Data sbox() const override { if (plan) hit(plan); return to_data(ref::collapse(rows)); }
private:
	const std::array<uint32_t, 8> k;
	const Rows rows;
	const PlanP plan;
};

// any function of word and index
class UserKey final : public gm::Key {
public:
	explicit UserKey(ref::Round f, PlanP plan = {}) : f(f), plan(plan) {}
	uint32_t transform(uint32_t v, int index) const override { hit(plan); return f(v, index); }
private:
	const ref::Round f;
	const PlanP plan;
};

inline Rows rows(Case &c)
{
	switch (c.below(8)) {
	case 0:
	case 1:
	case 2: return ref::rows_z();
	case 3: return ref::rows_test();
	case 4:
	case 5: {  // random permutations
		Rows r;
		uint64_t s = c.word64();
		for (auto &row : r) {
			for (size_t i = 0; i < 16; i++) row[i] = uint8_t(i);
			for (size_t i = 15; i > 0; i--) std::swap(row[i], row[pbt::splitmix(s) % (i + 1)]);
		}
		return r;
	}
	case 6: {  // any nibbles
		Rows r;
		uint64_t s = c.word64();
		for (auto &row : r) for (auto &x : row) x = uint8_t(pbt::splitmix(s) & 15);
		return r;
	}
	default: {  // degenerate: identity, constant, reversed, one row differs
		Rows r;
		const uint64_t kind = c.below(4);
		const uint8_t k = c.byte() & 15;
		for (size_t j = 0; j < 8; j++) for (size_t i = 0; i < 16; i++)
			r[j][i] = uint8_t(kind == 0 ? i : kind == 1 ? k : kind == 2 ? 15 - i : (j == (k & 7u) ? 15 - i : i));
		return r;
	}
	}
}
inline std::array<uint32_t, 8> words(Case &c)
{
	std::array<uint32_t, 8> k;
	switch (c.below(8)) {
	case 0: k.fill(0); break;
	case 1: k.fill(c.u32()); break;
	case 2: {
		const std::array<uint32_t, 8> std_key = {{0xffeeddcc, 0xbbaa9988, 0x77665544, 0x33221100, 0xf0f1f2f3, 0xf4f5f6f7, 0xf8f9fafb, 0xfcfdfeff}};
		k = std_key;
		break;
	}
	case 3:
	case 4: for (auto &w : k) w = c.u32(); break;
	default: {
		uint64_t s = c.word64();
		for (auto &w : k) w = uint32_t(pbt::splitmix(s));
		if (c.chance(1, 3)) k[c.below(8)] = c.u32();
		break;
	}
	}
	return k;
}
// digits in lower, upper or mixed case
inline std::string spell(Case &c, const std::string &lower)
{
	std::string s = lower;
	const uint64_t mode = c.below(3);
	uint64_t r = mode == 2 ? c.word64() : 0;
	for (auto &ch : s) if (ch >= 'a' && (mode == 1 || (mode == 2 && (pbt::splitmix(r) & 1)))) ch = char(ch - 'a' + 'A');
	return s;
}
inline std::string key_text(const std::array<uint32_t, 8> &k)
{
	std::string s;
	for (uint32_t w : k) s += hex(w, 8);
	return s;
}

inline std::vector<int> row_of(const Rows &r, size_t i) { return std::vector<int>(r[i].begin(), r[i].end()); }
inline std::unique_ptr<const gm::Sbox> plain_sbox(Case &c, const Rows &r, PlanP plan = {})
{
	switch (c.below(4)) {
	case 0: return std::make_unique<gm::SboxByte>(ref::collapse(r));
	case 1: return std::make_unique<gm::SboxByte>(
			std::make_unique<UserTab>(r[0], r[1], plan), std::make_unique<UserTab>(r[2], r[3], plan),
			std::make_unique<UserTab>(r[4], r[5], plan), std::make_unique<UserTab>(r[6], r[7], plan));
	case 2: {
		const Bytes uz = ref::collapse(r);
		return std::make_unique<gm::SboxByte>(
			std::make_unique<gm::SboxByte64Tab>(uz, 0), std::make_unique<gm::SboxByte64Tab>(uz, 1),
			std::make_unique<gm::SboxByte64Tab>(uz, 2), std::make_unique<gm::SboxByte64Tab>(uz, 3));
	}
	default: return std::make_unique<gm::SboxNibble>(row_of(r, 0), row_of(r, 1), row_of(r, 2), row_of(r, 3),
			row_of(r, 4), row_of(r, 5), row_of(r, 6), row_of(r, 7));
	}
}
// A library key object for the key words and table, in one of the ways to build it
struct KeyObject {
	SP<gm::LazyKey> key;
	std::string form;
};
inline KeyObject lazy_key(Case &c, const ref::Magma &m, PlanP plan = {})
{
	const bool z = m.rows == ref::rows_z();
	SP<gm::Sbox> sbox;
	std::string form;
	switch (c.below(z ? 5 : 4)) {
	case 0: sbox = std::make_shared<UserSbox>(m.rows, plan); form = "own table"; break;
	case 4: sbox = std::make_shared<gm::SboxR3412>(); form = "built-in table"; break;
	default: sbox = std::make_shared<gm::SboxTwisted>(plain_sbox(c, m.rows, plan)); form = "given table"; break;
	}
	const std::string text = key_text(m.key);
	const std::vector<uint32_t> native(m.key.begin(), m.key.end());
	switch (c.below(z ? 9 : 8)) {
	case 0: return {std::make_shared<gm::LazyKey>(spell(c, text), sbox), form + ", text key"};
	case 1:
	case 2: return {std::make_shared<gm::LazyKey>(native, sbox), form + ", native key"};
	case 3: return {std::make_shared<gm::LazyKey>(std::make_unique<gm::KeyDataString>(spell(c, text)), sbox), form + ", key data text"};
	case 4: return {std::make_shared<gm::LazyKey>(std::make_unique<gm::KeyDataNative>(native), sbox), form + ", key data native"};
	case 5: return {std::make_shared<gm::LazyKey>(std::make_unique<UserKeyData>(m.key, plan), sbox), form + ", own key data"};
	case 6: return {std::make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<gm::KeyDataNative>(native)), sbox), form + ", cached native key"};
	case 7: return {std::make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<UserKeyData>(m.key, plan)), sbox), form + ", cached own key data"};
	default: return {std::make_shared<gm::LazyKey>(spell(c, text)), "text key only"};
	}
}
inline ref::Magma magma(Case &c) { const auto k = words(c); return ref::Magma(k, rows(c)); }

inline std::string describe(const ref::Magma &m)
{
	return "key " + key_text(m.key) + " table " + (m.rows == ref::rows_z() ? "Z" : m.rows == ref::rows_test() ? "test" : hex(ref::collapse(m.rows), 64));
}
template <class M> void note_magma(Case &c, const M &m, const KeyObject &k)
{
	c.note([&](auto &o) { o << describe(m) << " [" << k.form << "]"; });
}

// ways to build a block of a given value
inline SP<gm::Block> block64(Case &c, uint64_t v, PlanP plan = {})
{
	const uint32_t lo = uint32_t(v), hi = uint32_t(v >> 32);
	switch (c.below(9)) {
	case 0: return std::make_shared<gm::BlkRaw>(v);
	case 1: return std::make_shared<gm::BlkRaw>(lo, hi);
	case 2: return std::make_shared<gm::BlkRaw>(std::make_pair(lo, hi));
	case 3: return std::make_shared<UserBlock64>(v, plan);
	case 4: { const SP<gm::Block> b = std::make_shared<UserBlock64>(v); return std::make_shared<gm::BlkRaw>(b); }
	case 5: { Bytes b(8); ref::put_le64(&b[0], v); return std::make_shared<gm::BlkRaw>(b); }
	case 6: {
		const auto mem = std::make_unique<uint32_t[]>(2);
		mem[0] = lo;
		mem[1] = hi;
		return std::make_shared<gm::BlkRaw>(static_cast<const void *>(mem.get()));
	}
	case 7: return std::make_shared<gm::BlkString>(spell(c, hex(v)));
	default: if (v == 0) return std::make_shared<gm::BlkRaw>(); return std::make_shared<gm::BlkRaw>(v);
	}
}

// ------------------------------------------------------------------ sinks and sources

// Immutable recording sink: every write gives a new sink with the longer record.
// Sinks on the same branch share one growing buffer.
class MemSink final : public goost::Sink {
public:
	explicit MemSink(PlanP plan = {}) : log(std::make_shared<Log>()), n(0), plan(plan) {}
	SP<goost::Sink> write(const Data &d) const override
	{
		hit(plan);
		return std::shared_ptr<const Sink>(new MemSink(*this, d));
	}
	SP<goost::Sink> finalize() const override { hit(plan); return std::shared_ptr<const Sink>(new MemSink(*this, {})); }
	Bytes record() const
	{
		const std::lock_guard<std::mutex> l(log->m);
		return Bytes(log->d.begin(), log->d.begin() + long(n));
	}
private:
	struct Log {
		std::mutex m;
		Bytes d;
	};
	MemSink(const MemSink &o, const Data &d) : log(o.log), n(o.n), plan(o.plan)
	{
		const std::lock_guard<std::mutex> l(o.log->m);
		if (o.log->d.size() != n) {  // another branch went on: copy
			auto copy = std::make_shared<Log>();
			copy->d.assign(o.log->d.begin(), o.log->d.begin() + long(n));
			log = copy;
		}
		for (std::byte b : d) log->d.push_back(uint8_t(b));
		n += d.size();
	}
	std::shared_ptr<Log> log;
	size_t n;
	const PlanP plan;
};
inline Bytes record(Case &c, const SP<goost::Sink> &s, const char *what)
{
	const auto *m = dynamic_cast<const MemSink *>(s.get());
	if (!m) c.fail(std::string(what) + ": finalize did not return the underlying sink");
	return m->record();
}

// Immutable source over memory: short only at its end.
class MemSource final : public goost::Source {
public:
	explicit MemSource(const Bytes &b, PlanP plan = {}) : d(std::make_shared<Bytes>(b)), pos(0), plan(plan) {}
	std::pair<Data, SP<goost::Source>> read(size_t size) const override
	{
		hit(plan);
		const size_t n = std::min(size, d->size() - pos);
		return {to_data(d->data() + pos, n), std::shared_ptr<const Source>(new MemSource(d, pos + n, plan))};
	}
private:
	MemSource(std::shared_ptr<const Bytes> d, size_t pos, PlanP plan) : d(d), pos(pos), plan(plan) {}
	const std::shared_ptr<const Bytes> d;
	const size_t pos;
	const PlanP plan;
};

// Delivers in pieces: up to `most` bytes at a time (the sizes follow from the seed), never
// nothing before its end. Not stateful, as every source: a read says the same every time.
class PieceSource final : public goost::Source {
public:
	PieceSource(const Bytes &b, size_t most, uint64_t seed, PlanP plan = {}) : d(std::make_shared<Bytes>(b)), pos(0), most(most), seed(seed), plan(plan) {}
	std::pair<Data, SP<goost::Source>> read(size_t size) const override
	{
		hit(plan);
		uint64_t s = seed;
		const size_t n = std::min({size, d->size() - pos, size_t(1 + pbt::splitmix(s) % most)});
		Data out = to_data(d->data() + pos, n);
		out.shrink_to_fit();
		return {std::move(out), std::shared_ptr<const Source>(new PieceSource(d, pos + n, most, s, plan))};
	}
private:
	PieceSource(std::shared_ptr<const Bytes> d, size_t pos, size_t most, uint64_t seed, PlanP plan) : d(d), pos(pos), most(most), seed(seed), plan(plan) {}
	const std::shared_ptr<const Bytes> d;
	const size_t pos, most;
	const uint64_t seed;
	const PlanP plan;
};

inline SP<goost::Sink> write_all(SP<goost::Sink> s, const Bytes &d, const std::vector<size_t> &pieces)
{
	size_t pos = 0;
	for (size_t k : pieces) {
		s = s->write(to_data(d.data() + pos, k));
		pos += k;
	}
	return s;
}

// more than any message has: the size of a read of everything
inline size_t everything(Case &c)
{
	switch (c.below(8)) {
	case 0: return size_t(1) << 32;
	case 1: return (size_t(1) << 32) + c.below(40);
	case 2: return size_t(1) << (20 + c.below(44));
	case 3: return (size_t(c.below(3) + 1) << (31 + c.below(2))) - c.below(9);
	case 4: return SIZE_MAX - c.below(20);
	default: return SIZE_MAX;
	}
}

// read sizes; the last ones go past the end
inline std::vector<size_t> reads(Case &c, size_t n, size_t least)
{
	std::vector<size_t> r;
	const uint64_t mode = c.below(9);
	size_t total = 0;
	while (total < n && r.size() < 3000) {
		size_t k;
		switch (mode) {
		case 0: k = c.chance(1, 2) ? everything(c) : n; break;
		case 1: k = 1; break;
		case 2: k = c.range(0, 9); break;
		case 3: k = c.range(0, 24); break;
		case 4: k = 8; break;
		case 5: k = c.below(n + 9); break;
		case 6: k = 7 + c.below(3); break;
		case 7: k = r.size() % 2 ? 1 : c.range(1, 40); break;
		default: k = c.chance(1, 10) ? everything(c) : 8 * c.range(1, 5); break;
		}
		if (r.size() > 1500) k = everything(c);
		k = std::max(k, least);
		r.push_back(k);
		total = k > n - total ? n : total + k;
	}
	const uint64_t more = c.below(4);
	for (uint64_t i = 0; i < more; i++) r.push_back(std::max<size_t>(least, c.below(3) == 0 ? everything(c) : c.below(20)));
	return r;
}

// ------------------------------------------------------------------ Kuznyechik

class UserBlock128 final : public gk::Block {
public:
	explicit UserBlock128(B128 v, PlanP plan = {}) : v(v), plan(plan) {}
	std::pair<uint64_t, uint64_t> value() const override { hit(plan, false); return {v.lo, v.hi}; }
private:
	const B128 v;
	const PlanP plan;
};
inline SP<gk::Block> block128(Case &c, B128 v, PlanP plan = {})
{
	switch (c.below(8)) {
	case 0: return std::make_shared<gk::BlkRaw>(v.lo, v.hi);
	case 1: return std::make_shared<gk::BlkRaw>(std::make_pair(v.lo, v.hi));
	case 2: return std::make_shared<UserBlock128>(v, plan);
	case 3: { const SP<gk::Block> b = std::make_shared<UserBlock128>(v); return std::make_shared<gk::BlkRaw>(b); }
	case 4: {
		const auto mem = std::make_unique<uint64_t[]>(2);
		mem[0] = v.lo;
		mem[1] = v.hi;
		return std::make_shared<gk::BlkRaw>(static_cast<const void *>(mem.get()));
	}
	case 5: return std::make_shared<gk::BlkString>(spell(c, hex(v)));
	case 6: if (v.hi == 0) return std::make_shared<gk::BlkRaw>(v.lo); return std::make_shared<gk::BlkRaw>(v.lo, v.hi);
	default: if (v == B128{}) return std::make_shared<gk::BlkRaw>(); return std::make_shared<gk::BlkRaw>(v.lo, v.hi);
	}
}
inline B128 u128(Case &c)
{
	switch (c.below(6)) {
	case 0: { const uint64_t w = c.u64(); return {w, w}; }
	case 1: return {c.u64(), 0};
	case 2: return {~uint64_t(0), c.u64()};
	case 3: { B128 b; b.set(int(c.below(16)), c.byte()); return b; }
	default: { const uint64_t a = c.u64(); return {a, c.u64()}; }
	}
}
class UserKuzData final : public gk::Key::Data {
public:
	UserKuzData(SP<gk::Block> high, SP<gk::Block> low, PlanP plan = {}) : h(high), l(low), plan(plan) {}
	SP<gk::Block> low() const override { hit(plan, false); return l; }
	SP<gk::Block> high() const override { hit(plan, false); return h; }
private:
	const SP<gk::Block> h, l;
	const PlanP plan;
};
struct KuzSpec {
	B128 k1, k2;
	std::string text() const { return hex(k1) + hex(k2); }
};
inline KuzSpec kuz_spec(Case &c)
{
	switch (c.below(6)) {
	case 0: return {ref::hex128("8899aabbccddeeff0011223344556677"), ref::hex128("fedcba98765432100123456789abcdef")};
	case 1: { const B128 a = u128(c); return {a, a}; }
	case 2: { uint64_t s = c.word64(); KuzSpec k; k.k1.lo = pbt::splitmix(s); k.k1.hi = pbt::splitmix(s); k.k2.lo = pbt::splitmix(s); k.k2.hi = pbt::splitmix(s); return k; }
	default: { const B128 a = u128(c); return {a, u128(c)}; }
	}
}
inline SP<gk::Key> kuz_key(Case &c, const KuzSpec &s, PlanP plan = {})
{
	switch (c.below(4)) {
	case 0: return std::make_shared<gk::Key>(std::make_shared<UserKuzData>(block128(c, s.k1, plan), block128(c, s.k2, plan), plan));
	case 1: return std::make_shared<gk::Key>(std::make_shared<gk::KeyDataString>(spell(c, s.text())));
	default: return std::make_shared<gk::Key>(spell(c, s.text()));
	}
}

// Stream over any sequence of blocks; sizes all 16 but perhaps the last.
class UserStream final : public gk::Stream {
public:
	struct Item {
		B128 v;
		size_t size;
	};
	explicit UserStream(const std::vector<Item> &items, PlanP plan = {}) : items(std::make_shared<std::vector<Item>>(items)), plan(plan) {}
	SP<gk::Iterator> iter() const override
	{
		hit(plan);
		if (items->empty()) return {};
		return std::make_shared<It>(items, 0, plan);
	}
private:
	class It final : public gk::Iterator {
	public:
		It(std::shared_ptr<const std::vector<Item>> items, size_t i, PlanP plan) : items(items), i(i), plan(plan) {}
		std::pair<uint64_t, uint64_t> value() const override { hit(plan); return {(*items)[i].v.lo, (*items)[i].v.hi}; }
		bool last() const override { hit(plan); return i + 1 == items->size(); }
		size_t size() const override { hit(plan); return (*items)[i].size; }
		SP<gk::Iterator> next() const override
		{
			hit(plan);
			if (i + 1 >= items->size()) return {};
			return std::make_shared<It>(items, i + 1, plan);
		}
	private:
		const std::shared_ptr<const std::vector<Item>> items;
		const size_t i;
		const PlanP plan;
	};
	const std::shared_ptr<const std::vector<Item>> items;
	const PlanP plan;
};

}  // namespace gen
