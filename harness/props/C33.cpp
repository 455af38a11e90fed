// Programs of a user: headers in any combination, names of their own.
// No header of the library is included here: what is wrong with one is for
// the generated programs to show.
#include "../pbt.h"
#include "../ref.h"
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <mutex>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

const char *const pbt::property_id = "C33";
const char *const pbt::property_rule =
	"a program of 1..3 source files is generated: each includes standard headers, uses 0..4 parts of the library (13 kinds, with generated keys and data and the reference answers as constants), includes the headers of what it uses and any others, in any order, some several times, and declares things of its own "
	"in the global namespace under names the library uses inside its own. It is compiled by GCC or Clang as C++17, 20 or 23 without further options, in part of the cases linked with the library and run; every compilation, the link and every answer must succeed. Fixed: every header alone, twice; two programs with classes of their own under the names of all of the library's and of standard ones, linked with all of it. Non-trivial: two or more headers.";

namespace {

// The standard headers come first: which of them a header of the library
// brings along is its own affair (and its build here gives some by -include).
const char *const preamble =
	"#include <array>\n#include <cstddef>\n#include <cstdint>\n#include <cstring>\n#include <memory>\n#include <string>\n#include <vector>\n#include <utility>\n#include <tuple>\n"
	"#include <functional>\n#include <algorithm>\n#include <numeric>\n#include <iterator>\n#include <limits>\n#include <stdexcept>\n#include <type_traits>\n#include <optional>\n";

using pbt::Case;
using ref::B128;
using ref::Bytes;

std::string hex(uint64_t v, int digits = 16)
{
	char b[32];
	snprintf(b, sizeof b, "%0*llx", digits, static_cast<unsigned long long>(v));
	return b;
}
std::string hex(const B128 &b) { return hex(b.hi) + hex(b.lo); }

std::string env(const char *n) { const char *v = getenv(n); return v ? v : ""; }

// ---------------------------------------------------------------- running a compiler

struct Ran { int status; std::string out; };  // status: exit code, or -1
Ran spawn(const std::vector<std::string> &cmd, const std::string &log)
{
	const pid_t pid = fork();
	if (pid < 0) return {-1, ""};
	if (pid == 0) {
		const int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(fd, 1);
		dup2(fd, 2);
		setenv("LC_ALL", "C", 1);
		unsetenv("MALLOC_PERTURB_");
		std::vector<char *> a;
		for (const auto &s : cmd) a.push_back(const_cast<char *>(s.c_str()));
		a.push_back(nullptr);
		alarm(0);
		execvp(a[0], a.data());
		_exit(127);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) return {-1, ""};
	std::ifstream in(log);
	std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
	return {WIFEXITED(st) ? WEXITSTATUS(st) : -1, s};
}
// a verdict about the program, not a compiler that broke down
bool rejected(const Ran &r)
{
	if (r.status != 1) return false;
	for (const char *s : {"error: ", "undefined reference", "multiple definition"})
		if (r.out.find(s) != std::string::npos)
			return r.out.find("internal compiler error") == std::string::npos && r.out.find("No space left") == std::string::npos && r.out.find("out of memory") == std::string::npos;
	return false;
}
std::string reason(const std::string &out)
{
	std::istringstream in(out);
	std::string l, r;
	while (std::getline(in, l) && r.size() < 500)
		if (l.find("error: ") != std::string::npos || l.find("undefined reference") != std::string::npos || l.find("multiple definition") != std::string::npos) r += l + "; ";
	return r;
}

class Scratch {
public:
	Scratch()
	{
		const std::string w = env("PBT_WORK");
		std::string t = (w.empty() ? "/tmp" : w) + "/prog.XXXXXX";
		if (!mkdtemp(&t[0])) throw std::runtime_error("no scratch directory");
		dir = t;
	}
	~Scratch()
	{
		for (const auto &f : files) unlink(f.c_str());
		rmdir(dir.c_str());
	}
	Scratch(const Scratch &) = delete;
	Scratch &operator=(const Scratch &) = delete;
	std::string file(const std::string &n)
	{
		std::lock_guard<std::mutex> l(m);
		files.insert(dir + "/" + n);
		return dir + "/" + n;
	}
private:
	std::mutex m{};
	std::string dir{};
	std::set<std::string> files{};
};

// ---------------------------------------------------------------- the library's headers

std::vector<std::string> files(const std::string &last)
{
	std::vector<std::string> r;
	std::function<void(std::string)> walk = [&](const std::string &d) {
		DIR *p = opendir((env("PBT_REPO") + "/" + d).c_str());
		if (!p) return;
		while (const dirent *e = readdir(p)) {
			const std::string n = e->d_name;
			if (n[0] == '.') continue;
			struct stat st{};
			if (stat((env("PBT_REPO") + "/" + d + "/" + n).c_str(), &st)) continue;
			if (S_ISDIR(st.st_mode)) walk(d + "/" + n);
			else if (n.size() > last.size() && n.substr(n.size() - last.size()) == last) r.push_back(d + "/" + n);
		}
		closedir(p);
	};
	walk("goost");
	std::sort(r.begin(), r.end());
	return r;
}
std::vector<std::string> sources()
{
	auto r = files(".cpp");
	const auto h = files(".h");
	r.insert(r.end(), h.begin(), h.end());
	return r;
}
const std::vector<std::string> &headers()
{
	static const std::vector<std::string> all = files(".h");
	if (all.size() < 20) throw std::runtime_error("headers not found");
	return all;
}

// ---------------------------------------------------------------- what a program does

struct Use {
	std::string code;                   // statements; OK(condition)
	std::vector<std::string> needs;     // headers under goost/
};
std::string q(const std::string &s) { return "\"" + s + "\""; }
std::string x64(uint64_t v) { return "0x" + hex(v) + "u"; }
std::string x128(B128 v) { return "std::make_pair(uint64_t(" + x64(v.lo) + "), uint64_t(" + x64(v.hi) + "))"; }
std::string x32(uint64_t v) { return "std::make_pair(uint32_t(" + x64(v & 0xffffffff) + "), uint32_t(" + x64(v >> 32) + "))"; }
template <class T> std::string list(const T &d, const std::string &type)
{
	std::string r;
	for (const auto x : d) r += (r.empty() ? "" : ", ") + type + "(" + std::to_string(uint64_t(x)) + "u)";
	return "{" + r + "}";
}

Use use(Case &c)
{
	std::array<uint32_t, 8> words;
	std::string text;
	uint64_t seed = c.word64();
	for (auto &w : words) {
		w = uint32_t(pbt::splitmix(seed));
		text += hex(w, 8);
	}
	const ref::Magma m(words, ref::rows_z());
	const std::string mkey = "std::make_shared<goost::magma::LazyKey>(std::string(" + q(text) + "))";
	const B128 k1{c.word64(), c.word64()}, k2{c.word64(), c.word64()};
	const ref::Kuznyechik k(k1, k2);
	const std::string kkey = "std::make_shared<goost::kuznyechik::Key>(std::string(" + q(hex(k1) + hex(k2)) + "))";
	const uint64_t v = c.word64(), iv = c.word64();
	const B128 b{c.word64(), v};
	const auto enc = [&](uint64_t x) { return m.enc(x); };
	Bytes d(c.below(20));
	for (auto &x : d) x = c.byte();
	switch (c.below(13)) {
	case 0: return {"OK(goost::magma::BlkEncrypted(std::make_shared<goost::magma::BlkRaw>(uint64_t(" + x64(v) + ")), " + mkey + ").value() == " + x32(m.enc(v)) + ");\n",
		{"magma/BlkEncrypted.h", "magma/BlkRaw.h", "magma/LazyKey.h"}};
	case 1: return {"OK(goost::magma::BlkDecrypted(std::make_shared<goost::magma::BlkString>(" + q(hex(v)) + "), " + mkey + ").value() == " + x32(m.dec(v)) + ");\n",
		{"magma/BlkDecrypted.h", "magma/BlkString.h", "magma/LazyKey.h"}};
	case 2: return {"OK(goost::kuznyechik::BlkEncrypted(std::make_shared<goost::kuznyechik::BlkString>(" + q(hex(b)) + "), " + kkey + ").value() == " + x128(k.enc(b)) + ");\n",
		{"kuznyechik/BlkEncrypted.h", "kuznyechik/BlkString.h", "kuznyechik/Key.h"}};
	case 3: {
		const B128 w = b ^ k.enc({0, iv});
		return {"OK(std::make_shared<goost::kuznyechik::StCTREncrypted>(std::make_shared<goost::kuznyechik::StMemory>(std::vector<uint64_t>{" + x64(b.lo) + ", " + x64(b.hi) + "}), " + kkey + ", " + x64(iv) +
			")->iter()->value() == " + x128(w) + ");\n", {"kuznyechik/StCTREncrypted.h", "kuznyechik/StMemory.h", "kuznyechik/Iterator.h", "kuznyechik/Key.h"}};
	}
	case 4: {
		// a sink of the user's own, and the library's on it
		const Bytes e = ref::cfb(enc, {iv, v}, d, false);
		return {"struct My final : goost::Sink {\n  std::vector<std::byte> d; explicit My(std::vector<std::byte> d) : d(d) {}\n"
			"  std::shared_ptr<const goost::Sink> write(const std::vector<std::byte> &x) const override { auto n = d; n.insert(n.end(), x.begin(), x.end()); return std::make_shared<My>(n); }\n"
			"  std::shared_ptr<const goost::Sink> finalize() const override { return std::make_shared<My>(d); }\n};\n"
			"const std::shared_ptr<const goost::Sink> s = std::make_shared<goost::magma::CFBSink>(std::make_shared<My>(std::vector<std::byte>{}), " + mkey + ", " + x64(iv) + ", " + x64(v) + ");\n"
			"const auto r = s->write(std::vector<std::byte>" + list(d, "std::byte") + ")->finalize();\n"
			"OK(dynamic_cast<const My &>(*r).d == std::vector<std::byte>(" + list(e, "std::byte") + "));\n", {"Sink.h", "magma/CFBSink.h", "magma/LazyKey.h"}};
	}
	case 5: {
		const Bytes e = ref::cfb(enc, {iv}, d, true);
		return {"struct My final : goost::Source {\n  std::vector<std::byte> d; explicit My(std::vector<std::byte> d) : d(d) {}\n"
			"  std::pair<std::vector<std::byte>, std::shared_ptr<const goost::Source>> read(size_t n) const override { n = n < d.size() ? n : d.size(); return {std::vector<std::byte>(d.begin(), d.begin() + n), "
			"std::make_shared<My>(std::vector<std::byte>(d.begin() + n, d.end()))}; }\n};\n"
			"const std::shared_ptr<const goost::Source> s = std::make_shared<goost::gost89::CFBSource>(std::make_shared<My>(std::vector<std::byte>" + list(d, "std::byte") + "), " + mkey + ", " + x64(iv) + ");\n"
			"OK(s->read(1000).first == std::vector<std::byte>(" + list(e, "std::byte") + "));\n", {"Source.h", "gost89/CFBSource.h", "magma/LazyKey.h"}};
	}
	case 6: return {"OK(goost::gost89::DataImit(std::vector<uint8_t>" + list(d, "uint8_t") + ", " + mkey + ").value() == std::vector<uint8_t>(" + list(ref::imit89(m, d), "uint8_t") + "));\n",
		{"gost89/DataImit.h", "magma/LazyKey.h"}};
	case 7: {
		// a table of the user's own
		return {"struct My final : goost::magma::Sbox { uint32_t transform(uint32_t v) const override { return v ^ 5; } };\n"
			"OK(goost::magma::LazyKey(std::string(" + q(text) + "), std::make_shared<My>()).transform(" + std::to_string(uint32_t(v)) + "u, 3) == " + std::to_string((uint32_t(v) + m.key[3]) ^ 5u) + "u);\n", {"magma/Sbox.h", "magma/LazyKey.h"}};
	}
	case 8: {
		// lookups of the user's own
		return {"struct My final : goost::magma::SboxByte::Tab { uint32_t translate(int i) const override { return uint32_t(i) ^ 1; } };\n"
			"OK(goost::magma::SboxByte(std::make_unique<My>(), std::make_unique<My>(), std::make_unique<My>(), std::make_unique<goost::magma::SboxByte64Tab>(std::vector<uint8_t>(64, 0x21), 3)).transform(" +
			std::to_string(uint32_t(v)) + "u) == " + std::to_string(((uint32_t(v) ^ 0x010101u) & 0xffffffu) | 0x21000000u) + "u);\n", {"magma/SboxByte.h", "magma/SboxByte64Tab.h"}};
	}
	case 9: {
		// key data of the user's own behind a cache
		return {"struct My final : goost::magma::KeyData { uint32_t key(int i) const override { return uint32_t(i * 7); } };\n"
			"OK(goost::magma::KeyCachedData(std::make_unique<My>()).key(" + std::to_string(v & 7) + ") == " + std::to_string((v & 7) * 7) + "u);\n"
			"OK(goost::magma::KeyDataString(" + q(text) + ").key(2) == " + std::to_string(m.key[2]) + "u);\n", {"magma/KeyData.h", "magma/KeyCachedData.h", "magma/KeyDataString.h"}};
	}
	case 10: {
		// a block of the user's own
		return {"struct My final : goost::kuznyechik::Block { std::pair<uint64_t, uint64_t> value() const override { return " + x128(b) + "; } };\n"
			"const auto my = std::make_shared<My>();\n"
			"OK(goost::kuznyechik::BlkXored(my, std::make_shared<goost::kuznyechik::BlkCached>(my), std::make_shared<goost::kuznyechik::BlkIncremented>(my)).value() == " + x128(ref::inc(b)) + ");\n",
			{"kuznyechik/Block.h", "kuznyechik/BlkXored.h", "kuznyechik/BlkCached.h", "kuznyechik/BlkIncremented.h"}};
	}
	case 11: {
		// a key of the user's own
		return {"struct My final : goost::magma::Key { uint32_t transform(uint32_t v, int) const override { return v; } };\n"
			"OK(goost::magma::EncryptionBase(std::make_shared<My>()).transform(" + x64(v) + ") == " + x64(ref::feistel([](uint32_t x, int) { return x; }, v, false)) + ");\n", {"magma/Key.h", "magma/EncryptionBase.h"}};
	}
	default: {
		std::vector<uint64_t> w{b.lo, b.hi, v, iv};
		Bytes msg(32);
		for (size_t i = 0; i < 4; i++) ref::put_le64(&msg[i * 8], w[i]);
		return {"OK(goost::kuznyechik::Imit(std::make_shared<goost::kuznyechik::StMemory>(std::vector<uint64_t>{" + x64(w[0]) + ", " + x64(w[1]) + ", " + x64(w[2]) + ", " + x64(w[3]) + "}), " + kkey + ").value() == " +
			x128(k.omac({{b.lo, b.hi}, {v, iv}}, true)) + ");\n", {"kuznyechik/Imit.h", "kuznyechik/StMemory.h", "kuznyechik/Key.h"}};
	}
	}
}

// the library's classes
const char *const classes[] = {"BlkBackwarded", "BlkCached", "BlkDecrypted", "BlkEncrypted", "BlkForwarded", "BlkHead", "BlkImitFinalKey", "BlkImitShifted", "BlkIncremented", "BlkIterKey", "BlkL", "BlkR", "BlkRaw", "BlkS", "BlkShifted",
	"BlkString", "BlkSwapped", "BlkXored", "BlkXoredIfHighBit", "Block", "CFBSink", "CFBSource", "Container", "DataImit", "ECBSink", "ECBSource", "EncryptionBase", "Imit", "ImitedBlock", "ItCTREncrypted", "ItMemory", "Iterator", "Key",
	"KeyCachedData", "KeyData", "KeyDataNative", "KeyDataString", "LazyKey", "Sbox", "SboxByte", "SboxByte64Tab", "SboxNibble", "SboxR3412", "SboxTwisted", "Sink", "Source", "SourceBlock", "StCTREncrypted", "StMemory", "Stream"};
// names the library uses in its own namespaces: the user may use them outside
const char *const taken[] = {"ItCTREncrypted", "ItMemory", "BlkXoredIfHighBit", "BlkHead", "BlkImitShifted", "BlkImitFinalKey", "SourceBlock", "Block", "Key", "KeyData", "Sbox", "Sink", "Source", "Stream", "Iterator", "Imit", "BlkRaw",
	"BlkString", "BlkShifted", "BlkXored", "BlkEncrypted", "BlkCached", "BlockCache", "CachedData", "LazyKey", "KeyDataString", "KeyDataNative", "Container", "CFBSink", "ECBSource", "StMemory", "byte", "vector", "magma", "kuznyechik", "gost89", "Data", "Tab"};

struct Unit {
	std::string before, after;  // declarations ahead of and behind the headers
	std::string code;
	std::vector<std::string> includes;
	std::string text(size_t index) const
	{
		std::string s = preamble + before;
		for (const auto &i : includes) s += "#include " + i + "\n";
		s += after;
		s += "#define OK(...) do { if (!(__VA_ARGS__)) return false; } while (0)\n";
		s += "bool part" + std::to_string(index) + "();\nbool part" + std::to_string(index) + "() {\n" + code + "return true;\n}\n";
		return s;
	}
};

Unit unit(Case &c, std::string &desc, std::set<std::string> &used)
{
	Unit u;
	std::vector<std::string> h;
	const size_t uses = c.below(5);
	for (size_t i = 0; i < uses; i++) {
		const Use x = use(c);
		u.code += "{\n" + x.code + "}\n";
		for (const auto &n : x.needs) h.push_back("goost/" + n);
	}
	const size_t extra = uses ? c.below(6) : c.range(1, 8);
	for (size_t i = 0; i < extra; i++) h.push_back(headers()[c.below(headers().size())]);
	const size_t again = c.below(3) ? c.below(3) : 0;
	for (size_t i = 0; i < again; i++) h.push_back(h[c.below(h.size())]);
	for (size_t i = h.size(); i > 1; i--) std::swap(h[i - 1], h[c.below(i)]);
	for (const auto &n : h) {
		u.includes.push_back(c.chance(1, 8) ? q(n) : "<" + n + ">");
		desc += n.substr(6) + " ";
	}
	// things of the user's own
	const size_t own = c.below(4);
	bool it = false;
	for (size_t i = 0; i < own; i++) {
		const std::string n = taken[c.below(sizeof taken / sizeof *taken)];
		if (!used.insert(n).second) continue;
		const std::string t = std::to_string(c.below(60000));
		switch (c.below(4)) {
		case 0:
			(c.below(2) ? u.before : u.after) += "namespace { struct " + n + " { int v; int value() const { return v; } }; }\n";
			u.code += "OK((" + n + "{" + t + "}).value() == " + t + ");\n";
			break;
		case 1:
			(c.below(2) ? u.before : u.after) += "namespace my { enum class " + n + " { one = " + t + " }; }\nusing my::" + n + ";\n";
			u.code += "OK(int(" + n + "::one) == " + t + ");\n";
			break;
		default: {
			// an iterator: the interface of a class of the library
			it = true;
			const std::string id = n;
			u.after += "struct " + id + " : goost::kuznyechik::Iterator {\n  std::pair<uint64_t, uint64_t> value() const override { return {" + t + ", 7}; }\n  bool last() const override { return false; }\n"
				"  size_t size() const override { return " + t + "; }\n  std::shared_ptr<const goost::kuznyechik::Iterator> next() const override { return std::make_shared<" + id + ">(); }\n};\n";
			u.code += "{ const std::shared_ptr<const goost::kuznyechik::Iterator> i = std::make_shared<" + id + ">(); OK(i->value().first == " + t + "); OK(!i->last()); OK(i->size() == " + t + "); OK(i->next()->value().second == 7); }\n";
		}
		}
		desc += "own:" + n + " ";
	}
	if (it) u.includes.push_back("<goost/kuznyechik/Iterator.h>");
	return u;
}

}  // namespace

void pbt::property(Case &c)
{
	const char *const cxx = c.below(3) ? "g++" : "clang++";
	const char *const stds[] = {"-std=c++17", "-std=c++20", "-std=c++2b"};
	const char *const std_v = stds[c.below(5) % 3];
	const bool link = c.below(2);
	const size_t n = link ? c.range(1, 3) : 1;
	std::vector<std::string> text;
	std::string desc;
	size_t most = 0;
	std::set<std::string> used;
	for (size_t i = 0; i < n; i++) {
		const Unit u = unit(c, desc, used);
		most = std::max(most, u.includes.size());
		text.push_back(u.text(i));
		desc += "| ";
	}
	c.note([&](auto &o) { o << cxx << " " << std_v << (link ? ", linked and run: " : ": ") << desc; });
	c.label(std::string(cxx) + " " + std_v);
	c.label(link ? "linked and run" : "compiled only");
	if (most > 1) c.nontrivial();
	Scratch s;
	std::vector<std::string> objs;
	auto write = [&](const std::string &name, const std::string &t) {
		const std::string f = s.file(name);
		std::ofstream(f) << t;
		return f;
	};
	const std::string log = s.file("log");
	if (link) {
		std::string main;
		for (size_t i = 0; i < n; i++) main += "bool part" + std::to_string(i) + "();\n";
		main += "int main() {\n";
		for (size_t i = 0; i < n; i++) main += "if (!part" + std::to_string(i) + "()) return " + std::to_string(i + 40) + ";\n";
		text.push_back(main + "return 0;\n}\n");
	}
	for (size_t i = 0; i < text.size(); i++) {
		const std::string f = write("u" + std::to_string(i) + ".cpp", text[i]), o = s.file("u" + std::to_string(i) + ".o");
		std::vector<std::string> cmd{cxx, std_v, "-w", "-I" + env("PBT_REPO")};
		if (link) { cmd.insert(cmd.end(), {"-O0", "-c", f, "-o", o}); objs.push_back(o); }
		else cmd.insert(cmd.end(), {"-fsyntax-only", f});
		const Ran r = spawn(cmd, log);
		c.check(!rejected(r), "a program does not compile (" + std::string(cxx) + " " + std_v + "): " + reason(r.out) + "\n" + text[i]);
		if (r.status != 0) { c.label("the compiler gave no verdict"); return; }
	}
	if (!link) return;
	std::vector<std::string> cmd{cxx};
	cmd.insert(cmd.end(), objs.begin(), objs.end());
	const std::string exe = s.file("exe");
	cmd.insert(cmd.end(), {env("PBT_LIB"), "-pthread", "-o", exe});
	const Ran r = spawn(cmd, log);
	auto all = [&] { std::string t; for (const auto &x : text) t += "// ----\n" + x; return t; };
	c.check(!rejected(r), "a program does not link: " + reason(r.out) + "\n" + all());
	if (r.status != 0) { c.label("the linker gave no verdict"); return; }
	const Ran x = spawn({exe}, log);
	c.check(x.status == 0, "a program gives a wrong answer (status " + std::to_string(x.status) + "):\n" + all());
}

// One program that has everything of the library in it, and for every class of
// the library one of its own of the same name outside the library's namespaces.
void namesakes(Scratch &s, bool derived)
{
	std::string head = preamble, defs, code;
	for (const auto &h : headers()) head += "#include <" + h + ">\n";
	std::vector<std::string> names(std::begin(classes), std::end(classes));
	// and what a header must not drag into the global namespace
	if (!derived) names.insert(names.end(), {"vector", "byte", "pair", "string", "array", "list", "tuple", "function", "shared_ptr", "unique_ptr", "hash", "data", "size", "move", "copy", "count", "begin", "end", "make_pair", "optional", "range_error",
		"logic_error", "numeric_limits", "accumulate", "transform", "magma", "kuznyechik", "gost89"});
	int v = 100;
	for (const auto &id : names) {
		const std::string t = std::to_string(++v);
		if (derived) {
			defs += "struct " + id + " : goost::kuznyechik::Iterator {\n  int x; explicit " + id + "(int x) : x(x) {}\n  std::pair<uint64_t, uint64_t> value() const override { return {x, 7}; }\n  bool last() const override { return false; }\n"
				"  size_t size() const override { return x; }\n  std::shared_ptr<const goost::kuznyechik::Iterator> next() const override { return std::make_shared<" + id + ">(x + 1); }\n};\n";
			code += "{ const std::shared_ptr<const goost::kuznyechik::Iterator> i = std::make_shared<" + id + ">(" + t + "); OK(" + id + ", i->value().first == " + t + " && !i->last() && i->size() == " + t + " && i->next()->value().first == " + t +
				" + 1); }\n";
		} else {
			defs += "struct " + id + " { int x; explicit " + id + "(int x); int value() const; int key(int) const; int iter() const; int next() const; int last() const; };\n" +
				id + "::" + id + "(int x) : x(x) {}\n";
			for (const char *m : {"value()", "iter()", "next()", "last()", "key(int)"})
				if (std::string(m).find(id + "(") != 0) defs += "int " + id + "::" + m + " const { return x; }\n";
			code += "{ const " + id + " i(" + t + "); OK(" + id + ", i.value() == " + t + " && i.key(1) == " + t + " && i.iter() == " + t + " && i.next() == " + t + " && i.last() == " + t + "); }\n";
		}
	}
	const std::string text = "#include <cstdio>\n" + head + defs + "#define OK(n, ...) do { if (!(__VA_ARGS__)) { puts(#n); return 20; } } while (0)\nint main() {\n" + code + "return 0;\n}\n";
	const std::string tag = derived ? "namesakes1" : "namesakes2", f = s.file(tag + ".cpp"), log = s.file(tag + ".log"), exe = s.file(tag);
	std::ofstream(f) << text;
	const Ran r = spawn({"g++", "-std=c++17", "-w", "-I" + env("PBT_REPO"), f, "-Wl,--whole-archive", env("PBT_LIB"), "-Wl,--no-whole-archive", "-pthread", "-o", exe}, log);
	if (rejected(r)) throw pbt::Failure{"a program with classes of its own under the library's names does not build: " + reason(r.out)};
	if (r.status != 0) return;
	const Ran x = spawn({exe}, log);
	if (x.status != 0) throw pbt::Failure{"in a program that has a class of its own under the name of each of the library's, this one does not act as written: " + x.out};
}

// Every word the library's files have, as the name of a class of the program: macros, global helpers and what else a header may leak.
// A program with the same classes and without the library tells which words are the language's or the standard library's.
size_t any_word(Scratch &s)
{
	std::set<std::string> words, guards;
	for (std::string name : sources()) {
		std::ifstream in(env("PBT_REPO") + "/" + name);
		std::string text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()), code;
		for (size_t i = 0; i < text.size(); i++) {  // without comments
			if (text.compare(i, 2, "//") == 0) i = std::min(text.find('\n', i), text.size());
			else if (text.compare(i, 2, "/*") == 0) { i = text.find("*/", i + 2); if (i == std::string::npos) break; i++; continue; }
			if (i < text.size()) code += text[i];
		}
		for (size_t i = 0; i < code.size();) {
			if (!isalpha(static_cast<unsigned char>(code[i])) && code[i] != '_') {
				if (!isdigit(static_cast<unsigned char>(code[i]))) { i++; continue; }
				while (i < code.size() && (isalnum(static_cast<unsigned char>(code[i])) || code[i] == '_')) i++;  // a number
				continue;
			}
			size_t e = i;
			while (e < code.size() && (isalnum(static_cast<unsigned char>(code[e])) || code[e] == '_')) e++;
			const std::string w = code.substr(i, e - i);
			if (i >= 8 && code.compare(i - 8, 8, "#ifndef ") == 0) guards.insert(w);
			words.insert(w);
			i = e;
		}
	}
	std::vector<std::string> names;
	for (const auto &w : words)
		if (w[0] != '_' && w.find("__") == std::string::npos && w.compare(0, 6, "GOOST_") != 0 && w != "goost" && !guards.count(w)) names.push_back(w);
	const std::string f = s.file("words.cpp"), log = s.file("words.log"), exe = s.file("words");
	std::string head;
	for (const auto &h : headers()) head += "#include <" + h + ">\n";
	// a line of definitions and one of statements for each name
	auto program = [&](int library) {
		std::string defs, code;
		int v = 100;
		for (const auto &id : names) {
			const std::string t = std::to_string(++v);
			defs += "struct " + id + " { int own_; explicit " + id + "(int n_) : own_(n_) {} int own_value_() const { return own_; } };\n";
			code += "{ const " + id + " o_(" + t + "); if (o_.own_value_() != " + t + ") { puts(\"" + id + "\"); return 20; } }\n";
		}
		return std::string("#include <cstdio>\n") + preamble + (library == 1 ? head : "") + "#line 1000000\n" + defs + (library == 2 ? "#line 1\n" + head : "") + "#line 2000000\nint main() {\n" + code + "return 0;\n}\n";
	};
	for (int turn = 0;; turn++) {
		std::ofstream(f) << program(0);
		const Ran r = spawn({"g++", "-std=c++17", "-w", "-fmax-errors=0", "-O0", f, "-o", exe}, log);
		if (r.status == 0) break;
		if (turn == 8) return 0;
		std::ifstream in(log);
		std::set<size_t> bad;
		for (std::string line; std::getline(in, line);) {
			if (line.find("error") == std::string::npos) continue;
			const size_t at = line.find("words.cpp:");
			if (at == std::string::npos) continue;
			const size_t n = strtoul(line.c_str() + at + 10, nullptr, 10);
			if (n >= 1000000 && n < 2000000) bad.insert(n - 1000000);
			else if (n > 2000000) bad.insert(n - 2000001);
		}
		std::vector<std::string> good;
		for (size_t i = 0; i < names.size(); i++) if (!bad.count(i)) good.push_back(names[i]);
		if (good.size() == names.size()) return 0;
		names.swap(good);
	}
	for (int where : {1, 2}) {
		std::ofstream(f) << program(where);
		const Ran r = spawn({"g++", "-std=c++17", "-w", "-O0", "-I" + env("PBT_REPO"), f, "-Wl,--whole-archive", env("PBT_LIB"), "-Wl,--no-whole-archive", "-pthread", "-o", exe}, log);
		if (rejected(r)) throw pbt::Failure{"a program with classes under words of the library's files does not build, though it does without the library's headers: " + reason(r.out)};
		if (r.status != 0) return 0;
		const Ran x = spawn({exe}, log);
		if (x.status != 0) throw pbt::Failure{"in a program that has classes under words of the library's files, this one does not act as written: " + x.out};
	}
	return names.size();
}

std::string pbt::property_once()
{
	Scratch s;
	std::mutex m;
	std::string bad;
	size_t next = 0, done = 0;
	const auto &h = headers();
	auto work = [&] {
		while (true) {
			size_t i;
			{
				std::lock_guard<std::mutex> l(m);
				i = next++;
			}
			if (i >= h.size()) return;
			const std::string f = s.file(std::to_string(i) + ".cpp");
			std::ofstream(f) << preamble << "#include <" << h[i] << ">\n#include <" << h[i] << ">\n";
			const Ran r = spawn({"g++", "-std=c++17", "-w", "-fsyntax-only", "-I" + env("PBT_REPO"), f}, s.file(std::to_string(i) + ".log"));
			std::lock_guard<std::mutex> l(m);
			if (rejected(r)) bad += h[i] + " included twice does not compile: " + reason(r.out) + "\n";
			else if (r.status == 0) done++;
		}
	};
	std::vector<std::thread> t;
	for (int i = 0; i < 4; i++) t.emplace_back(work);
	for (auto &x : t) x.join();
	if (!bad.empty()) throw pbt::Failure{bad};
	namesakes(s, true);
	namesakes(s, false);
	const size_t words = any_word(s);
	return std::to_string(done) + " headers included twice, alone; two programs with a namesake of every class; two with a class for each of " + std::to_string(words) + " words of the library's files";
}
