// Shared by C09 and C11. Needs: make_source, make_sink, REGS
static void read_through(Case &c, SP<goost::Source> s, const std::vector<size_t> &sizes, const Bytes &want)
{
	size_t pos = 0;
	for (size_t i = 0; i < sizes.size(); i++) {
		const size_t k = sizes[i];
		const auto r = s->read(k);
		const size_t expect = std::min(k, want.size() - pos);
		const std::string what = "read " + std::to_string(i + 1) + " of " + (k == SIZE_MAX ? "all" : std::to_string(k)) + " at " + std::to_string(pos);
		same(c, to_bytes(r.first), Bytes(want.begin() + long(pos), want.begin() + long(pos + expect)), what);
		pos += expect;
		s = r.second;
	}
	const auto rest = s->read(SIZE_MAX);
	same(c, to_bytes(rest.first), Bytes(want.begin() + long(pos), want.end()), "the rest");
	same(c, to_bytes(rest.second->read(9).first), Bytes(), "after the end");
}

void pbt::property(Case &c)
{
	const ref::Magma m = magma(c);
	const auto key = lazy_key(c, m);
	note_magma(c, m, key);
	std::vector<uint64_t> regs;
	for (int i = 0; i < REGS; i++) regs.push_back(c.u64());
	Bytes cipher = bytes(c, 8, 66000);
	auto enc = [&](uint64_t b) { return m.enc(b); };
	Bytes want = ref::cfb(enc, regs, cipher, true);
	c.nontrivial(cipher.size() > 8);
	c.label(cipher.size() % 8 ? "partial last block" : "whole blocks");
	c.label(cipher.size() >= 4096, "4 KiB or more");
	const bool own = c.below(3) == 0;
	if (own) {  // round trip: the data is a plaintext, put through the sink first
		c.label("round trip");
		want = cipher;
		const auto s = write_all(make_sink(std::make_shared<MemSink>(), key.key, regs), want, split(c, want.size(), 1, true));
		cipher = record(c, s->finalize(), "CFB sink");
	}
	const auto sizes = reads(c, cipher.size(), 0);
	c.note([&](auto &o) {
		o << "register";
		for (auto r : regs) o << " " << hex(r);
		o << (own ? "; round trip; " : "; ") << "ciphertext " << hex(cipher) << "; read as " << text(sizes);
	});
	c.label(sizes.size() > 3, "several reads");
	bool zero = false;
	for (size_t k : sizes) zero |= k == 0;
	c.label(zero, "read of nothing");
	const auto src = make_source(std::make_shared<MemSource>(cipher), key.key, regs);
	read_through(c, src, sizes, want);
	if (c.chance(1, 4)) read_through(c, src, reads(c, cipher.size(), 0), want);
}

std::string pbt::property_once()
{
	Case c(nullptr, 0);
	uint64_t n = 0;
	const ref::Magma m({{0xffeeddcc, 2, 3, 4, 5, 6, 7, 8}}, ref::rows_z());
	const auto key = std::make_shared<gm::LazyKey>(key_text(m.key));
	auto enc = [&](uint64_t b) { return m.enc(b); };
	std::vector<uint64_t> regs;
	for (int i = 0; i < REGS; i++) regs.push_back(0x1122334455667788 * uint64_t(i + 1));
	Bytes d(8 * 66000 + 5);
	fill(d, 98);
	for (size_t len = 0; len <= 66; len++) {
		const Bytes p(d.begin(), d.begin() + long(len));
		const auto src = make_source(std::make_shared<MemSource>(p), key, regs);
		const Bytes want = ref::cfb(enc, regs, p, true);
		for (size_t a = 0; a <= len + 1; a++)
			for (size_t b : {size_t(0), size_t(1), size_t(7), size_t(8), size_t(9)}) {
				read_through(c, src, {a, b}, want);
				n++;
			}
		read_through(c, src, std::vector<size_t>(len + 2, 1), want);
		n++;
	}
	for (size_t piece : {size_t(1), size_t(13), size_t(8), size_t(4096), d.size(), SIZE_MAX}) {
		const size_t k = piece == SIZE_MAX ? 1 : d.size() / piece + 1;
		read_through(c, make_source(std::make_shared<MemSource>(d), key, regs), std::vector<size_t>(k, piece), ref::cfb(enc, regs, d, true));
		n++;
	}
	return std::to_string(n) + " fixed histories: every length 0..66 with every first read size; 66000 blocks and 5 bytes with six read sizes";
}
