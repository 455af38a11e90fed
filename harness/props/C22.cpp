// Any implementation of the key interface.
#include "../gens.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
using namespace gen;
using std::make_shared;

const char *const pbt::property_id = "C22";
const char *const pbt::property_rule =
	"a user implementation of the key interface with a generated round function (hash of word and index, table substitution, constant, identity, index only, 32-bit linear, counting calls) is put into a generated mode: ECB or "
	"CFB sink or source, block or integer interface; the result is compared with the reference mode over the same function, and, for table substitution, with the library's own key. Non-trivial: the round function depends on the word.";

void pbt::property(Case &c)
{
	ref::Round f;
	const ref::Magma m = magma(c);
	std::string fname;
	bool deep = true;
	const uint64_t seed = c.word64();
	switch (c.below(7)) {
	case 0: case 1: f = [seed](uint32_t v, int i) { uint64_t s = seed ^ (uint64_t(v) << 8) ^ uint64_t(unsigned(i)); return uint32_t(pbt::splitmix(s)); }; fname = "hash"; break;
	case 2: case 3: f = [m](uint32_t v, int i) { return m(v, i); }; fname = "table substitution"; break;
	case 4: f = [seed](uint32_t, int i) { return uint32_t(seed >> (i * 4)); }; fname = "index only"; deep = false; break;
	case 5: f = [](uint32_t v, int) { return v; }; fname = "identity"; break;
	default: f = [seed](uint32_t v, int i) { return v * uint32_t(seed | 1) + uint32_t(i) * 0x9e3779b9u; }; fname = "linear"; break;
	}
	// an index outside 0..7 is not in the contract
	bool bad_index = false;
	const ref::Round guarded = [&bad_index, f](uint32_t v, int i) { if (i < 0 || i > 7) { bad_index = true; return 0u; } return f(v, i); };
	const SP<gm::Key> key = make_shared<UserKey>(guarded);
	auto enc = [&](uint64_t b) { return ref::feistel(f, b, false); };
	auto dec = [&](uint64_t b) { return ref::feistel(f, b, true); };
	c.nontrivial(deep);
	c.label("round function: " + fname);
	const uint64_t op = c.below(8);
	std::vector<uint64_t> regs{c.u64(), c.u64()};
	const bool lazy = fname == "table substitution" && c.below(2);
	c.note([&](auto &o) { o << "round function " << fname << " " << hex(seed) << (fname[0] == 't' ? " " + describe(m) : "") << "; operation " << op; });
	SP<gm::Key> other;
	if (lazy) other = lazy_key(c, m).key;
	switch (op) {
	case 0: case 1: {
		const uint64_t b = c.u64();
		c.note([&](auto &o) { o << "block " << hex(b); });
		c.label("blocks");
		same(c, val(gm::BlkEncrypted(block64(c, b), key)), enc(b), "block encryption");
		same(c, val(gm::BlkDecrypted(block64(c, b), key)), dec(b), "block decryption");
		same(c, gm::EncryptionBase(key).transform(b), enc(b), "integer encryption");
		uint32_t n1 = uint32_t(b), n2 = uint32_t(b >> 32), q1 = n1, q2 = n2;
		for (int i = 0; i < 8; i++) {
			uint32_t t = f(n1, i) ^ n2; n2 = n1; n1 = t;
			t = f(q1, 7 - i) ^ q2; q2 = q1; q1 = t;
		}
		same(c, val(gm::BlkForwarded(block64(c, b), key)), uint64_t(n2) << 32 | n1, "eight rounds forward");
		same(c, val(gm::BlkBackwarded(block64(c, b), key)), uint64_t(q2) << 32 | q1, "eight rounds backward");
		break;
	}
	case 2: {
		const Bytes d = content(c, 8 * c.below(20));
		c.label("ECB sink");
		const auto pieces = split(c, d.size(), 8, true);
		const Bytes got = record(c, write_all(make_shared<gm::ECBSink>(make_shared<MemSink>(), key), d, pieces)->finalize(), "ECB");
		same(c, got, ref::ecb(enc, d), "ECB sink");
		if (lazy) same(c, record(c, write_all(make_shared<gm::ECBSink>(make_shared<MemSink>(), other), d, pieces)->finalize(), "ECB"), got, "ECB sink with the library's key");
		break;
	}
	case 3: {
		const Bytes d = content(c, 8 * c.below(20));
		c.label("ECB source");
		SP<goost::Source> s = make_shared<gm::ECBSource>(make_shared<MemSource>(d), key);
		Bytes got;
		for (size_t i = 0; i <= d.size() / 8; i++) {
			const auto r = s->read(8 + c.below(9));
			const Bytes x = to_bytes(r.first);
			if (x.empty()) break;
			got.insert(got.end(), x.begin(), x.end());
			s = r.second;
		}
		same(c, got, ref::ecb(dec, d), "ECB source");
		break;
	}
	case 4: case 5: {
		const bool old = op == 5;
		if (old) regs.resize(1);
		const Bytes d = bytes(c, 8, 5000);
		c.label(old ? "GOST-89 CFB sink" : "magma CFB sink");
		const auto pieces = split(c, d.size(), 1, true);
		auto mk = [&](const SP<gm::Key> &k) -> SP<goost::Sink> {
			if (old) return make_shared<goost::gost89::CFBSink>(make_shared<MemSink>(), k, regs[0]);
			return make_shared<gm::CFBSink>(make_shared<MemSink>(), k, regs[0], regs[1]);
		};
		same(c, record(c, write_all(mk(key), d, pieces)->finalize(), "CFB"), ref::cfb(enc, regs, d, false), "CFB sink");
		if (lazy) same(c, record(c, write_all(mk(other), d, pieces)->finalize(), "CFB"), ref::cfb(enc, regs, d, false), "CFB sink with the library's key");
		break;
	}
	default: {
		const bool old = op == 7;
		if (old) regs.resize(1);
		const Bytes d = bytes(c, 8, 5000);
		c.label(old ? "GOST-89 CFB source" : "magma CFB source");
		SP<goost::Source> s;
		if (old) s = make_shared<goost::gost89::CFBSource>(make_shared<MemSource>(d), key, regs[0]);
		else s = make_shared<gm::CFBSource>(make_shared<MemSource>(d), key, regs[0], regs[1]);
		const Bytes want = ref::cfb(enc, regs, d, true);
		Bytes got;
		for (size_t k : reads(c, d.size(), 0)) {
			const auto r = s->read(k);
			const Bytes x = to_bytes(r.first);
			got.insert(got.end(), x.begin(), x.end());
			s = r.second;
		}
		const Bytes x = to_bytes(s->read(SIZE_MAX).first);
		got.insert(got.end(), x.begin(), x.end());
		same(c, got, want, "CFB source");
		break;
	}
	}
	c.check(!bad_index, "the key was asked for a word outside 0..7");
}

std::string pbt::property_once() { return ""; }
