// Shared by C08 and C10. Needs: make_sink(sink, key, regs), REGS (number of registers)
void pbt::property(Case &c)
{
	const ref::Magma m = magma(c);
	const auto key = lazy_key(c, m);
	note_magma(c, m, key);
	std::vector<uint64_t> regs;
	for (int i = 0; i < REGS; i++) regs.push_back(c.u64());
	Bytes plain = bytes(c, 8, 66000);
	auto enc = [&](uint64_t b) { return m.enc(b); };
	if (c.below(4) == 3) {  // let the ciphertext, not the plaintext, have the special content
		plain = ref::cfb(enc, regs, plain, true);
		c.label("chosen ciphertext");
	}
	const Bytes want = ref::cfb(enc, regs, plain, false);
	c.note([&](auto &o) { o << "register"; for (auto r : regs) o << " " << hex(r); o << "; data " << hex(plain); });
	c.nontrivial(plain.size() > 8);
	c.label(plain.size() % 8 ? "partial last block" : "whole blocks");
	c.label(plain.size() >= 4096, "4 KiB or more");
	const auto base = std::make_shared<MemSink>();
	const size_t nsplits = c.range(1, 2);
	for (size_t k = 0; k < nsplits; k++) {
		const auto pieces = split(c, plain.size(), 1, true);
		c.note([&](auto &o) { o << "written as " << text(pieces); });
		c.label(pieces.size() > 1, "several writes");
		SP<goost::Sink> s = make_sink(base, key.key, regs);
		size_t pos = 0;
		for (size_t p : pieces) {
			s = s->write(to_data(plain.data() + pos, p));
			pos += p;
			if (plain.size() < 2000 && c.chance(1, 12)) {  // the ciphertext of the prefix is the prefix of the ciphertext
				c.label("finalized in the middle");
				same(c, record(c, s->finalize(), "CFB sink"), Bytes(want.begin(), want.begin() + long(pos)), "ciphertext of the first " + std::to_string(pos) + " bytes");
			}
		}
		same(c, record(c, s->finalize(), "CFB sink"), want, "CFB ciphertext");
		if (c.chance(1, 3)) same(c, record(c, s->finalize(), "CFB sink"), want, "CFB ciphertext, finalized again");
	}
	same(c, base->record(), Bytes(), "the underlying sink given by the caller");
}

std::string pbt::property_once()
{
	// every length 0..130 with every position of a single split; byte by byte; long data
	Case c(nullptr, 0);
	uint64_t n = 0;
	const ref::Magma m({{0xffeeddcc, 2, 3, 4, 5, 6, 7, 8}}, ref::rows_z());
	const auto key = std::make_shared<gm::LazyKey>(key_text(m.key));
	auto enc = [&](uint64_t b) { return m.enc(b); };
	std::vector<uint64_t> regs;
	for (int i = 0; i < REGS; i++) regs.push_back(0x1122334455667788 * uint64_t(i + 1));
	Bytes d(8 * 66000 + 5);
	fill(d, 99);
	for (size_t len = 0; len <= 130; len++) {
		const Bytes p(d.begin(), d.begin() + long(len));
		const Bytes want = ref::cfb(enc, regs, p, false);
		for (size_t at = 0; at <= len; at++) {
			SP<goost::Sink> s = make_sink(std::make_shared<MemSink>(), key, regs);
			s = s->write(to_data(p.data(), at))->write(to_data(p.data() + at, len - at));
			same(c, record(c, s->finalize(), "CFB"), want, std::to_string(len) + " bytes split at " + std::to_string(at));
			n++;
		}
		SP<goost::Sink> s = make_sink(std::make_shared<MemSink>(), key, regs);
		for (size_t i = 0; i < len; i++) s = s->write(to_data(&p[i], 1));
		same(c, record(c, s->finalize(), "CFB"), want, std::to_string(len) + " bytes one by one");
		n++;
	}
	for (size_t piece : {size_t(1), size_t(13), size_t(8), size_t(4096), d.size()}) {
		SP<goost::Sink> s = make_sink(std::make_shared<MemSink>(), key, regs);
		for (size_t p = 0; p < d.size(); p += piece) s = s->write(to_data(&d[p], std::min(piece, d.size() - p)));
		same(c, record(c, s->finalize(), "CFB"), ref::cfb(enc, regs, d, false), "long data in pieces of " + std::to_string(piece));
		n++;
	}
	return std::to_string(n) + " fixed histories: every length 0..130 with every single split and byte by byte; 66000 blocks and 5 bytes in five splits";
}
