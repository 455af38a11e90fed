// ECB sink and source.
#include "../gens.h"
#include <goost/gost89/ECBSink.h>
#include <goost/gost89/ECBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
using namespace gen;

const char *const pbt::property_id = "C07";
const char *const pbt::property_rule =
	"key, table, data of whole blocks (0 bytes to 64 KiB), a block-aligned split into writes (empty ones included) and a sequence of read sizes >= 8 are generated; the "
	"sink's output is compared with reference ECB encryption, the source's with reference decryption, the source over the sink's output with the plaintext, with a key "
	"object or a container; in a third of the cases a misaligned write, a read below 8 or a truncated ciphertext is inserted and must raise. Non-trivial: at least two "
	"blocks, or a refused operation.";

void pbt::property(Case &c)
{
	const ref::Magma m = magma(c);
	const auto key = lazy_key(c, m);
	note_magma(c, m, key);
	const size_t nblocks = length(c, 8, 8 * 8192) / 8;
	const Bytes plain = content(c, nblocks * 8);
	const auto pieces = split(c, plain.size(), 8, true);
	c.note([&](auto &o) { o << "data " << hex(plain) << " written as " << text(pieces); });
	c.nontrivial(nblocks >= 2);
	c.label(nblocks >= 512, "4 KiB or more");
	c.label(pieces.size() > 1, "several writes");
	const Bytes want = ref::ecb([&](uint64_t b) { return m.enc(b); }, plain);

	SP<goost::Sink> s = std::make_shared<goost::gost89::ECBSink>(std::make_shared<MemSink>(), key.key);
	const size_t refuse_at = c.below(3) == 0 ? c.below(pieces.size() + 1) : SIZE_MAX;
	size_t pos = 0;
	for (size_t i = 0; i <= pieces.size(); i++) {
		if (i == refuse_at) {
			const size_t n = 8 * c.below(4) + c.range(1, 7);
			c.note([&](auto &o) { o << "misaligned write of " << n << " before write " << i; });
			c.label("misaligned write");
			c.nontrivial();
			const Data d = to_data(content(c, n));
			c.check(refuses([&] { s->write(d); }), "a write of " + std::to_string(n) + " bytes was accepted");
		}
		if (i == pieces.size()) break;
		s = s->write(to_data(plain.data() + pos, pieces[i]));
		pos += pieces[i];
		if (c.chance(1, 20)) same(c, record(c, s->finalize(), "ECB sink"), Bytes(want.begin(), want.begin() + long(pos)), "ECB ciphertext so far");
	}
	const Bytes cipher = record(c, s->finalize(), "ECB sink");
	same(c, cipher, want, "ECB ciphertext");

	// reading: the sink's output or arbitrary ciphertext, whole or cut
	const bool own = c.below(2) != 0;
	Bytes in = own ? cipher : plain;
	const Bytes expect = own ? plain : ref::ecb([&](uint64_t b) { return m.dec(b); }, in);
	size_t cut = 0;
	if (c.below(4) == 0) {
		cut = c.range(1, 7);
		const Bytes tail = content(c, cut);
		in.insert(in.end(), tail.begin(), tail.end());
		c.label("truncated ciphertext");
		c.nontrivial();
	}
	const bool container = c.below(3) == 0;
	c.label(container ? "container" : "key object");
	SP<goost::Source> src;
	if (container) src = std::make_shared<goost::magma::ECBSource>(std::make_shared<MemSource>(in), std::make_shared<UserContainer>(m.key, m.rows));
	else src = std::make_shared<goost::gost89::ECBSource>(std::make_shared<MemSource>(in), key.key);
	const SP<goost::Source> first = src;
	Bytes got;
	const uint64_t mode = c.below(5);
	const size_t small_at = c.below(3) == 0 ? c.below(nblocks + 1) : SIZE_MAX;
	c.note([&](auto &o) { o << (own ? "read back" : "read the data as ciphertext") << (container ? " with container" : "") << ", cut " << cut << ", read mode " << mode; });
	bool ended = false;
	for (size_t step = 0; step <= nblocks + 2; step++) {
		if (step == small_at && got.size() < expect.size()) {
			const size_t k = c.below(8);
			c.note([&](auto &o) { o << "read of " << k << " at step " << step; });
			c.label("read below a block");
			c.nontrivial();
			c.check(refuses([&] { src->read(k); }), "a read of " + std::to_string(k) + " bytes was accepted");
		}
		const size_t k = mode == 0 ? 8 : mode == 1 ? everything(c) : mode == 2 ? c.range(8, 40) : mode == 3 ? c.range(8, 15) : 8 * c.range(1, 6);
		std::pair<Data, SP<goost::Source>> r;
		const bool refused = refuses([&] { r = src->read(k); });
		if (refused) {
			c.check(cut != 0, "reading whole blocks raised an exception");
			ended = true;
			break;
		}
		c.check(r.first.size() <= k, "the source returned more than asked for");
		const Bytes d = to_bytes(r.first);
		got.insert(got.end(), d.begin(), d.end());
		c.check(got.size() <= expect.size() && std::equal(got.begin(), got.end(), expect.begin()), "the source returned wrong plaintext after " +
			std::to_string(got.size() - d.size()) + " bytes: " + hex(d));
		src = r.second;
		if (d.empty()) {
			c.check(cut == 0, "ciphertext ending inside a block was accepted");
			ended = true;
			for (int i = 0; i < 2; i++) {
				r = src->read(8 + c.below(20));
				c.check(r.first.empty(), "data after the end");
				src = r.second;
			}
			break;
		}
	}
	c.check(ended, "the source does not come to an end");
	if (cut == 0) same(c, got, expect, "ECB plaintext");
	if (!expect.empty()) {  // the first source object still answers with the first block
		const auto r = first->read(8);
		same(c, to_bytes(r.first), Bytes(expect.begin(), expect.begin() + 8), "first block read again");
	}
}

std::string pbt::property_once()
{
	// every misalignment 1..63 of writes, every read size 0..7, every truncation
	Case c(nullptr, 0);
	uint64_t n = 0;
	const ref::Magma m({{1, 2, 3, 4, 5, 6, 7, 8}}, ref::rows_z());
	const auto key = std::make_shared<gm::LazyKey>(key_text(m.key));
	const Bytes d = [] { Bytes b(66000 * 8); fill(b, 7); return b; }();
	for (size_t k = 0; k < 64; k++) {
		const auto s = std::make_shared<gm::ECBSink>(std::make_shared<MemSink>(), key);
		const bool r = refuses([&] { s->write(to_data(d.data(), k)); });
		c.check(r == (k % 8 != 0), "write of " + std::to_string(k) + " bytes");
		const auto src = std::make_shared<gm::ECBSource>(std::make_shared<MemSource>(Bytes(d.begin(), d.begin() + long(k))), key);
		if (k >= 8) for (size_t q = 0; q < 8; q++) c.check(refuses([&] { src->read(q); }), "read of " + std::to_string(q) + " bytes");
		if (k > 0 && k < 8) c.check(refuses([&] { src->read(8); }), "ciphertext of " + std::to_string(k) + " bytes");
		n += 10;
	}
	// long, in one write and block by block
	const Bytes want = ref::ecb([&](uint64_t b) { return m.enc(b); }, d);
	for (size_t piece : {d.size(), size_t(8), size_t(4096)}) {
		SP<goost::Sink> s = std::make_shared<gm::ECBSink>(std::make_shared<MemSink>(), key);
		for (size_t p = 0; p < d.size(); p += piece) s = s->write(to_data(&d[p], std::min(piece, d.size() - p)));
		same(c, record(c, s->finalize(), "long"), want, "long ECB");
		n++;
	}
	SP<goost::Source> src = std::make_shared<gm::ECBSource>(std::make_shared<MemSource>(want), key);
	Bytes got;
	while (true) {
		const auto r = src->read(SIZE_MAX);
		if (r.first.empty()) break;
		const Bytes x = to_bytes(r.first);
		got.insert(got.end(), x.begin(), x.end());
		src = r.second;
	}
	same(c, got, d, "long ECB decryption");
	return std::to_string(n) + " fixed operations (every misalignment below 64, every short read, 66000 blocks in three splits)";
}
