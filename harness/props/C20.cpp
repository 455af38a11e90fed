// Faults of user-supplied objects.
#include "../gens.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C20";
const char *const pbt::property_rule =
	"a scenario (sink, source, container, MAC, block, integer interface, cached key data, Kuznyechik key, stream, and one behind another) over stand-ins that count their calls is generated; it runs undisturbed against the reference, then again on fresh "
	"objects with an exception at a call number - every call number when there are at most 40, else 12 generated ones - and up to three repeated faults at the retries; the exceptions are of nine classes (runtime, logic, range and allocation errors, a class of its own, types that are not std::exception); the very exception must arrive and the retried "
	"construction or step and all later steps give the undisturbed answers. Non-trivial: a fault was thrown.";

// A scenario: steps on objects made by its constructor; a step that throws changes nothing.
struct Scenario {
	std::vector<std::function<Bytes()>> steps;
};
using Make = std::function<Scenario(const PlanP &)>;

static Bytes b64(uint64_t v) { Bytes b(8); ref::put_le64(&b[0], v); return b; }
static Bytes b128(B128 v) { Bytes b(16); ref::put_le64(&b[0], v.lo); ref::put_le64(&b[8], v.hi); return b; }

// the form of the key is chosen once; the objects are made anew for every run
static std::function<SP<gm::LazyKey>(const PlanP &)> key_maker(Case &c, const ref::Magma &m)
{
	const uint64_t form = c.below(7);
	return [=](const PlanP &p) -> SP<gm::LazyKey> {
		const std::vector<uint32_t> native(m.key.begin(), m.key.end());
		const auto plain = make_shared<UserSbox>(m.rows);
		const auto faulty = make_shared<UserSbox>(m.rows, p);
		switch (form) {
		case 0: return make_shared<gm::LazyKey>(std::make_unique<UserKeyData>(m.key, p), plain);
		case 1: return make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<UserKeyData>(m.key, p)), plain);
		case 2: return make_shared<gm::LazyKey>(native, faulty);
		case 3: return make_shared<gm::LazyKey>(native, plain);
		case 4: case 5: {  // a table of failing byte look-ups, kept or not
			auto tab = [&](size_t i) { return std::make_unique<UserTab>(m.rows[2 * i], m.rows[2 * i + 1], p); };
			const auto t = make_shared<gm::SboxTwisted>(std::make_unique<gm::SboxByte>(tab(0), tab(1), tab(2), tab(3)));
			if (form == 4) return make_shared<gm::LazyKey>(native, t);
			return make_shared<gm::LazyKey>(std::make_unique<UserKeyData>(m.key, p), t);
		}
		default: return make_shared<gm::LazyKey>(std::make_unique<gm::KeyCachedData>(std::make_unique<UserKeyData>(m.key, p)), faulty);
		}
	};
}

static Make magma_scenario(Case &c, std::vector<Bytes> &want, std::string &name)
{
	const ref::Magma m = magma(c);
	const auto mk = key_maker(c, m);
	auto enc = [m](uint64_t b) { return m.enc(b); };
	auto dec = [m](uint64_t b) { return m.dec(b); };
	const int kind = int(c.below(3));
	std::vector<uint64_t> regs{c.u64(), c.u64()};
	if (kind) regs.resize(1);
	switch (c.below(8)) {
	case 0: case 1: {  // sink
		name = std::string("sink ") + (kind == 0 ? "magma CFB" : kind == 1 ? "GOST-89 CFB" : "ECB");
		const Bytes d = content(c, kind == 2 ? 8 * c.range(1, 4) : c.range(1, 36));
		const auto pieces = split(c, d.size(), kind == 2 ? 8 : 1, true);
		std::vector<size_t> p(pieces.begin(), pieces.begin() + long(std::min<size_t>(pieces.size(), 6)));
		size_t n = 0;
		for (size_t k : p) { n += k; want.push_back({}); }
		const Bytes used(d.begin(), d.begin() + long(n));
		want.push_back(kind == 2 ? ref::ecb(enc, used) : ref::cfb(enc, regs, used, false));
		return [=](const PlanP &plan) {
			const auto key = mk(plan);
			const auto base = make_shared<MemSink>(plan);
			SP<goost::Sink> first;
			if (kind == 0) first = make_shared<gm::CFBSink>(base, key, regs[0], regs[1]);
			if (kind == 1) first = make_shared<goost::gost89::CFBSink>(base, key, regs[0]);
			if (kind == 2) first = make_shared<gm::ECBSink>(base, key);
			const auto cur = make_shared<SP<goost::Sink>>(first);
			Scenario s;
			size_t pos = 0;
			for (size_t k : p) {
				const Data piece = to_data(d.data() + pos, k);
				s.steps.push_back([=] { *cur = (*cur)->write(piece); return Bytes(); });
				pos += k;
			}
			s.steps.push_back([=] {
				const auto f = (*cur)->finalize();
				const auto *ms = dynamic_cast<const MemSink *>(f.get());
				if (!ms) throw std::runtime_error("finalize did not return the underlying sink");
				return ms->record();
			});
			return s;
		};
	}
	case 2: case 3: {  // source
		name = std::string("source ") + (kind == 0 ? "magma CFB" : kind == 1 ? "GOST-89 CFB" : "ECB");
		const Bytes d = content(c, kind == 2 ? 8 * c.range(1, 4) : c.range(1, 36));
		const Bytes all = kind == 2 ? ref::ecb(dec, d) : ref::cfb(enc, regs, d, true);
		std::vector<size_t> sizes;
		if (kind == 2) sizes.assign(d.size() / 8 + 1, 8);
		else { sizes = reads(c, d.size(), 0); if (sizes.size() > 6) sizes.resize(6); }
		size_t pos = 0;
		for (size_t k : sizes) {
			const size_t n = std::min(k, all.size() - pos);
			want.push_back(Bytes(all.begin() + long(pos), all.begin() + long(pos + n)));
			pos += n;
		}
		const bool container = kind == 2 && c.below(2);
		const size_t most = c.below(2) ? c.range(1, 20) : 0;
		const uint64_t cuts = c.word64();
		if (container) name += " with a container";
		return [=](const PlanP &plan) {
			SP<goost::Source> base = make_shared<MemSource>(d, plan);
			if (most) base = make_shared<PieceSource>(d, most, cuts, plan);
			const auto key = container ? SP<gm::LazyKey>() : mk(plan);
			SP<goost::Source> first;
			if (container) first = make_shared<gm::ECBSource>(base, make_shared<UserContainer>(m.key, m.rows, plan));
			else if (kind == 0) first = make_shared<gm::CFBSource>(base, key, regs[0], regs[1]);
			else if (kind == 1) first = make_shared<goost::gost89::CFBSource>(base, key, regs[0]);
			else first = make_shared<gm::ECBSource>(base, key);
			const auto cur = make_shared<SP<goost::Source>>(first);
			Scenario s;
			for (size_t k : sizes) s.steps.push_back([=] {
				const auto r = (*cur)->read(k);
				*cur = r.second;
				return to_bytes(r.first);
			});
			return s;
		};
	}
	case 4: {  // MACs
		const bool old = c.below(2);
		name = old ? "GOST-89 MAC" : "magma MAC";
		const Bytes d = content(c, old ? c.below(40) : 8 * c.range(1, 4));
		const Bytes tag = old ? ref::imit89(m, d) : b64(ref::omac64_whole(enc, d));
		want = {tag, tag};
		return [=](const PlanP &plan) {
			const auto key = mk(plan);
			Scenario s;
			std::function<Bytes()> f;
			if (old) {
				const auto mac = make_shared<goost::gost89::DataImit>(d, key);
				f = [=] { return mac->value(); };
			} else {
				const auto mac = make_shared<gm::Imit>(make_shared<MemSource>(d, plan), key);
				f = [=] { return b64(val(*mac)); };
			}
			s.steps = {f, f};
			return s;
		};
	}
	case 5: {  // a MAC of what a deciphering source yields; a sink behind a sink
		const bool out = c.below(2);
		name = out ? "sink behind a sink" : "magma MAC of a deciphering source";
		const ref::Magma m2 = magma(c);
		const auto mk2 = key_maker(c, m2);
		const Bytes d = content(c, 8 * c.range(1, 3));
		const Bytes once = out ? ref::ecb(enc, d) : ref::cfb(enc, regs, d, true);
		auto enc2 = [m2](uint64_t b) { return m2.enc(b); };
		if (!out) {
			const Bytes tag = b64(ref::omac64_whole(enc2, once));
			want = {tag, tag};
			return [=](const PlanP &plan) {
				const auto key = mk(plan), key2 = mk2(plan);
				const auto base = make_shared<MemSource>(d, plan);
				SP<goost::Source> from;
				if (regs.size() == 2) from = make_shared<gm::CFBSource>(base, key, regs[0], regs[1]);
				else from = make_shared<goost::gost89::CFBSource>(base, key, regs[0]);
				const auto mac = make_shared<gm::Imit>(from, key2);
				Scenario s;
				s.steps.assign(2, [=] { return b64(val(*mac)); });
				return s;
			};
		}
		const Bytes twice = ref::cfb(enc2, regs, once, false);
		want = {{}, twice};
		return [=](const PlanP &plan) {
			const auto key = mk(plan), key2 = mk2(plan);
			const auto base = make_shared<MemSink>(plan);
			SP<goost::Sink> inner;
			if (regs.size() == 2) inner = make_shared<gm::CFBSink>(base, key2, regs[0], regs[1]);
			else inner = make_shared<goost::gost89::CFBSink>(base, key2, regs[0]);
			const auto cur = make_shared<SP<goost::Sink>>(make_shared<gm::ECBSink>(inner, key));
			Scenario s;
			s.steps.push_back([=] { *cur = (*cur)->write(to_data(d)); return Bytes(); });
			s.steps.push_back([=] {
				SP<goost::Sink> f = (*cur)->finalize();
				const auto *ms = dynamic_cast<const MemSink *>(f.get());
				if (!ms) f = f->finalize();
				ms = dynamic_cast<const MemSink *>(f.get());
				if (!ms) throw std::runtime_error("finalize did not return the underlying sink");
				return ms->record();
			});
			return s;
		};
	}
	case 6: {  // what lies below the blocks: key and rounds, the integer interface, the MAC's step
		name = "magma key, integer interface and MAC step";
		const uint64_t a = c.u64();
		const uint32_t v = c.u32();
		const size_t at = c.below(8);
		Bytes one(4);
		for (size_t i = 0; i < 4; i++) one[i] = uint8_t(m(v, int(at)) >> 8 * i);
		want = {one, b64(m.enc(a)), b64(m.imit16(a)), one};
		return [=](const PlanP &plan) {
			const auto key = mk(plan);
			const auto step = make_shared<goost::gost89::ImitedBlock>(gm::BlkRaw(a), key);
			const auto base = make_shared<gm::EncryptionBase>(key);
			Scenario s;
			auto f = [=] {
				const uint32_t r = key->transform(v, int(at));
				Bytes b(4);
				for (size_t i = 0; i < 4; i++) b[i] = uint8_t(r >> 8 * i);
				return b;
			};
			s.steps = {f, [=] { return b64(base->transform(a)); }, [=] { return b64(val(step->value())); }, f};
			return s;
		};
	}
	default: {  // block expression over failing blocks; cached key data
		name = "magma blocks and cached key data";
		const uint64_t a = c.u64(), b = c.u64();
		want = {b64(m.enc(a)), b64(m.dec(b)), b64((a ^ b) << 3), b64(a << 32 | a >> 32), b64(m.key[2]), b64(m.key[7]), b64(m.key[0])};
		return [=](const PlanP &plan) {
			const auto key = mk(plan);
			const SP<gm::Block> ba = make_shared<UserBlock64>(a, plan), bb = make_shared<UserBlock64>(b, plan);
			const SP<gm::Block> e = make_shared<gm::BlkEncrypted>(ba, key), d = make_shared<gm::BlkDecrypted>(bb, key);
			const SP<gm::Block> x = make_shared<gm::BlkShifted>(make_shared<gm::BlkXored>(ba, bb), 3), w = make_shared<gm::BlkSwapped>(ba);
			const auto kd = make_shared<gm::KeyCachedData>(std::make_unique<UserKeyData>(m.key, plan));
			Scenario s;
			for (const auto &o : {e, d, x, w}) s.steps.push_back([=] { return b64(val(*o)); });
			for (int i : {2, 7, 0}) s.steps.push_back([=] { return b64(kd->key(i)); });
			return s;
		};
	}
	}
}

static Make kuz_scenario(Case &c, std::vector<Bytes> &want, std::string &name)
{
	const KuzSpec ks = kuz_spec(c);
	const auto r = make_shared<ref::Kuznyechik>(ks.k1, ks.k2);
	auto mk = [=](const PlanP &p) { return make_shared<gk::Key>(make_shared<UserKuzData>(make_shared<UserBlock128>(ks.k1, p), make_shared<UserBlock128>(ks.k2, p), p)); };
	const B128 a = u128(c), b = u128(c);
	switch (c.below(5)) {
	case 0: {
		name = "kuznyechik key";
		want = {b128(r->enc(a)), b128(r->enc(b)), b128(r->enc(r->enc(a)))};
		return [=](const PlanP &plan) {
			const auto key = mk(plan);
			const SP<gk::Block> ba = make_shared<UserBlock128>(a, plan), bb = make_shared<UserBlock128>(b, plan);
			Scenario s;
			s.steps.push_back([=] { return b128(val(*key->encrypt(ba))); });
			s.steps.push_back([=] { return b128(val(gk::BlkEncrypted(bb, key))); });
			s.steps.push_back([=] { return b128(val(gk::BlkEncrypted(make_shared<gk::BlkEncrypted>(ba, key), key))); });
			return s;
		};
	}
	case 1: {
		name = "kuznyechik cached and other blocks";
		const B128 x = ref::inc(a) ^ b;
		const size_t n = c.below(4);
		want = {b128(a), b128(a), b128(ref::shl(x, 5)), b128(ref::step_l(b)), b128(b), b128(a), b128(ref::step_s(b)), b128(ref::step_r(a)), b128(r->k[2 * n + 2]), b128(r->k[2 * n + 2])};
		const KuzSpec pair{r->k[2 * n], r->k[2 * n + 1]};
		return [=](const PlanP &plan) {
			const SP<gk::Block> ba = make_shared<gk::BlkCached>(make_shared<UserBlock128>(a, plan));
			const SP<gk::Block> raw = make_shared<UserBlock128>(b, plan);
			const SP<gk::Block> bb = make_shared<gk::BlkCached>(raw);
			const SP<gk::Block> sh = make_shared<gk::BlkShifted>(make_shared<gk::BlkXored>(make_shared<gk::BlkIncremented>(ba), bb), 5);
			const SP<gk::Block> l = make_shared<gk::BlkL>(raw);
			Scenario s;
			const SP<gk::Block> sb = make_shared<gk::BlkS>(raw), rb = make_shared<gk::BlkR>(ba);
			const SP<gk::Block> ik = make_shared<gk::BlkIterKey>(make_shared<UserBlock128>(pair.k1, plan), make_shared<UserBlock128>(pair.k2, plan), int(8 * n + 1), int(8 * n + 8));
			for (const auto &o : {ba, ba, sh, l, bb, ba, sb, rb, ik, ik}) s.steps.push_back([=] { return b128(val(*o)); });
			return s;
		};
	}
	case 2: {
		name = "kuznyechik CTR stream";
		const size_t n = c.range(1, 4);
		std::vector<UserStream::Item> items;
		const uint64_t iv = c.u64();
		for (size_t i = 0; i < n; i++) {
			items.push_back({u128(c), 16});
			want.push_back(b128(items[i].v ^ r->ctr(iv, i)));
		}
		return [=](const PlanP &plan) {
			const auto key = mk(plan);
			const auto st = make_shared<gk::StCTREncrypted>(make_shared<UserStream>(items, plan), key, iv);
			const auto cur = make_shared<SP<gk::Iterator>>();
			Scenario s;
			for (size_t i = 0; i < n; i++) s.steps.push_back([=] {
				SP<gk::Iterator> it = i == 0 ? st->iter() : (*cur)->next();
				const Bytes v = b128(val(*it));
				if (it->last() != (i + 1 == n) || it->size() != 16) throw std::runtime_error("wrong shape");
				*cur = it;
				return v;
			});
			return s;
		};
	}
	default: {
		const bool of_ctr = c.below(2);
		name = of_ctr ? "kuznyechik MAC of a CTR stream" : "kuznyechik MAC";
		const size_t n = c.range(1, 4);
		const uint64_t iv = c.u64();
		std::vector<UserStream::Item> items;
		std::vector<B128> msg;
		for (size_t i = 0; i < n; i++) {
			const B128 x = u128(c);
			items.push_back({x, 16});
			msg.push_back(of_ctr ? x ^ r->ctr(iv, i) : x);
		}
		want = {b128(r->omac(msg, true)), b128(r->omac(msg, true))};
		return [=](const PlanP &plan) {
			const auto key = mk(plan);
			SP<gk::Stream> st = make_shared<UserStream>(items, plan);
			if (of_ctr) st = make_shared<gk::StCTREncrypted>(st, key, iv);
			const auto mac = make_shared<gk::Imit>(st, key);
			Scenario s;
			s.steps.assign(2, [=] { return b128(val(*mac)); });
			return s;
		};
	}
	}
}

// runs the history; the calls listed fail; returns how many faults were thrown
static size_t disturbed(Case &c, const Make &make, const std::vector<Bytes> &want, uint64_t at, uint64_t again, unsigned kind, const std::string &name)
{
	const auto plan = make_shared<Plan>();
	plan->when = {at};
	plan->kind = kind % fault_kinds;
	size_t thrown = 0;
	Scenario s;
	auto retried = [&](const std::string &what, const std::function<void()> &step) {
		for (size_t attempt = 0;; attempt++) {
			const uint64_t before = plan->calls;
			Caught f;
			try {
				f = catching(step);
			} catch (const pbt::Failure &) {
				throw;
			} catch (const std::exception &e) {
				c.fail(name + ", " + what + ": an exception that no stand-in threw arrived after a fault at call " + std::to_string(at) + ": " + e.what());
			}
			if (f.fault) {
				thrown++;
				c.check(f.kind == plan->kind && f.id >= before && f.id + 1 == plan->calls, name + ": a fault arrived that is not the one just thrown");
				plan->kind = (plan->kind + kind) % fault_kinds;
				// perhaps the retry fails too
				if (again > 0 && attempt < 3) plan->when = {plan->calls + again - 1};
				else plan->when.clear();
				continue;
			}
			bool lost = false;
			for (uint64_t w : plan->when) lost |= w >= before && w < plan->calls;
			c.check(!lost, name + ": the exception of call " + std::to_string(at) + " was swallowed in " + what);
			return attempt;
		}
	};
	// making the objects may ask the user's objects too, and is then tried again as well
	retried("construction", [&] { s = make(plan); });
	for (size_t i = 0; i < s.steps.size(); i++) {
		const std::string what = "step " + std::to_string(i + 1);
		Bytes got;
		const size_t attempts = retried(what, [&] { got = s.steps[i](); });
		same(c, got, want[i], name + ", " + what + " of " + std::to_string(s.steps.size()) + (attempts ? " retried" : "") + " after a fault at call " + std::to_string(at));
	}
	return thrown;
}

void pbt::property(Case &c)
{
	std::vector<Bytes> want;
	std::string name;
	const Make make = c.below(4) == 0 ? kuz_scenario(c, want, name) : magma_scenario(c, want, name);
	c.label(name);
	const auto plan = make_shared<Plan>();
	plan->armed = false;
	const Scenario s = make(plan);
	for (size_t i = 0; i < s.steps.size(); i++) same(c, s.steps[i](), want[i], name + ", undisturbed step " + std::to_string(i + 1));
	const uint64_t calls = plan->calls;
	const uint64_t again = c.below(3) == 0 ? c.range(1, 20) : 0;
	c.note([&](auto &o) { o << name << ", " << s.steps.size() << " steps, " << calls << " calls, retry faults " << again; });
	c.label(calls <= 40, "every call fails once");
	size_t thrown = 0;
	// classes of the faults: one class for the whole case, or another one at every call
	const unsigned kind = unsigned(c.below(fault_kinds));
	const bool mixed = c.below(2);
	c.label("fault class " + std::to_string(kind));
	if (calls <= 40) for (uint64_t k = 0; k < calls; k++) thrown += disturbed(c, make, want, k, again, kind + (mixed ? unsigned(k) : 0), name);
	else for (int i = 0; i < 12; i++) {
		const uint64_t k = i == 0 ? 0 : i == 1 ? calls - 1 : c.below(calls);
		thrown += disturbed(c, make, want, k, again, kind + (mixed ? unsigned(k) : 0), name);
	}
	c.nontrivial(thrown > 0);
	for (size_t i = 0; i < thrown && i < 1; i++) c.label("fault thrown");
}

std::string pbt::property_once() { return ""; }
