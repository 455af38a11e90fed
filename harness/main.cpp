// Driver: run / one / describe / shrink / dump / once / fuzz. See check.py.
#include "pbt.h"
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <iterator>
#include <random>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include "ref.h"

using namespace std;
using namespace pbt;

// Exit codes of a worker
enum { OK = 0, FAILED = 10, UNEXPECTED = 11, HANG = 12, STUCK = 13, USAGE = 2 };

static int cpu_limit = 30;    // seconds of CPU one case may use (normal: milliseconds)
static int wall_limit = 100;  // seconds of wall time one case may use

static void on_prof(int) { static const char m[] = "case used up its CPU limit\n"; (void)!write(2, m, sizeof(m) - 1); _exit(HANG); }
static void on_alrm(int) { static const char m[] = "case made no progress\n"; (void)!write(2, m, sizeof(m) - 1); _exit(STUCK); }

static void arm()
{
	itimerval t{};
	t.it_value.tv_sec = cpu_limit;
	setitimer(ITIMER_PROF, &t, nullptr);
	alarm(wall_limit);
}
static void disarm()
{
	itimerval t{};
	setitimer(ITIMER_PROF, &t, nullptr);
	alarm(0);
}

struct Outcome {
	int code;
	string message;
};

static Outcome run_case(Case &c)
{
	try {
		property(c);
		return {OK, ""};
	} catch (const Failure &f) {
		return {FAILED, f.message};
	} catch (const exception &e) {
		return {UNEXPECTED, string("unexpected exception: ") + e.what()};
	} catch (...) {
		return {UNEXPECTED, "unexpected exception of unknown type"};
	}
}

static string esc(const string &s)
{
	string r;
	for (unsigned char ch : s) {
		char b[8];
		if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
		else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
		else r += char(ch);
	}
	return r;
}

static uint64_t fnv(const uint8_t *d, size_t n)
{
	uint64_t h = 1469598103934665603ULL;
	for (size_t i = 0; i < n; i++) { h ^= d[i]; h *= 1099511628211ULL; }
	return h;
}

static vector<uint8_t> slurp(const char *f)
{
	ifstream in(f, ios::binary);
	if (!in) { cerr << "cannot read " << f << endl; exit(USAGE); }
	return vector<uint8_t>((istreambuf_iterator<char>(in)), istreambuf_iterator<char>());
}
static void spit(const string &f, const vector<uint8_t> &d)
{
	ofstream out(f, ios::binary);
	out.write(reinterpret_cast<const char *>(d.data()), streamsize(d.size()));
}

static uint64_t case_seed(uint64_t seed, uint64_t index)
{
	uint64_t s = seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
	for (const char *p = property_id; *p; p++) s = s * 131 + uint64_t(*p);
	s ^= index * 0xd1342543de82ef95ULL;
	splitmix(s);
	return splitmix(s);
}

static constexpr size_t HEADER = 64;
static constexpr size_t TAPE = 1 << 22;

struct Mapped {
	uint8_t *base;
	Tape tape() { return {base + HEADER, TAPE - HEADER, reinterpret_cast<volatile uint64_t *>(base)}; }
	volatile uint64_t *index() { return reinterpret_cast<volatile uint64_t *>(base + 8); }
	volatile uint64_t *hb() { return reinterpret_cast<volatile uint64_t *>(base + 16); }
};

static Mapped map_file(const char *f)
{
	const int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0644);
	if (fd < 0 || ftruncate(fd, TAPE) != 0) { perror(f); exit(USAGE); }
	void *p = mmap(nullptr, TAPE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(USAGE); }
	close(fd);
	return {static_cast<uint8_t *>(p)};
}

// run SEED START COUNT SECONDS OUT.json TAPE HASHES
static int cmd_run(char **a)
{
	const uint64_t seed = strtoull(a[0], nullptr, 0), start = strtoull(a[1], nullptr, 0), count = strtoull(a[2], nullptr, 0);
	const double seconds = atof(a[3]);
	Mapped m = map_file(a[5]);
	map<string, uint64_t> labels;
	map<string, string> known;
	map<string, uint64_t> known_n;
	unordered_set<uint64_t> seen;
	vector<string> samples;
	uint64_t done = 0, interesting = 0;
	Outcome o{OK, ""};
	const auto t0 = chrono::steady_clock::now();
	for (uint64_t i = start; i < start + count; i++) {
		if ((done & 15) == 0 && chrono::duration<double>(chrono::steady_clock::now() - t0).count() > seconds) break;
		*m.index() = i;
		Case c(case_seed(seed, i), m.tape());
		arm();
		o = run_case(c);
		done++;
		for (const auto &l : c.labels) labels[l.first]++;
		for (const auto &k : c.known) { known.insert(k); known_n[k.first]++; }
		if (o.code != OK) break;
		if (c.interesting) {
			interesting++;
			const bool fresh = seen.insert(fnv(m.tape().data, *m.tape().len)).second;
			if (fresh && samples.size() < 3 && (interesting == 1 || interesting == 20 || interesting == 100)) {
				const vector<uint8_t> rec(m.tape().data, m.tape().data + *m.tape().len);
				Case d(rec.data(), rec.size());
				d.verbose = true;
				run_case(d);
				samples.push_back(d.notes.str().substr(0, 1200));
			}
		}
	}
	disarm();
	ofstream out(a[4]);
	out << "{\"done\":" << done << ",\"nontrivial\":" << interesting << ",\"code\":" << o.code
		<< ",\"index\":" << *m.index() << ",\"message\":\"" << esc(o.message) << "\",\"labels\":{";
	const char *sep = "";
	for (const auto &l : labels) { out << sep << '"' << esc(l.first) << "\":" << l.second; sep = ","; }
	out << "},\"known\":{"; sep = "";
	for (const auto &k : known) { out << sep << '"' << esc(k.first) << "\":{\"n\":" << known_n[k.first] << ",\"what\":\"" << esc(k.second) << "\"}"; sep = ","; }
	out << "},\"samples\":["; sep = "";
	for (const auto &s : samples) { out << sep << '"' << esc(s) << '"'; sep = ","; }
	out << "]}" << endl;
	ofstream hs(a[6], ios::binary);
	for (uint64_t h : seen) hs.write(reinterpret_cast<const char *>(&h), 8);
	return o.code;
}

static int cmd_one(const char *file, bool verbose)
{
	const auto d = slurp(file);
	Case c(d.data(), d.size());
	c.verbose = verbose;
	arm();
	const auto o = run_case(c);
	disarm();
	if (verbose) cout << "case: " << c.notes.str() << endl;
	if (o.code != OK) cout << "FAILED: " << o.message << endl;
	for (const auto &k : c.known) cout << "known " << k.first << ": " << k.second << endl;
	if (o.code == OK && verbose) cout << "property holds for this case" << endl;
	return o.code;
}

// 0: passes; otherwise the kind of failure
static int attempt(const vector<uint8_t> &d)
{
	fflush(nullptr);
	const pid_t p = fork();
	if (p == 0) {
		const int null = open("/dev/null", O_WRONLY);
		dup2(null, 1);
		dup2(null, 2);
		const rlimit core{0, 0};
		setrlimit(RLIMIT_CORE, &core);
		Case c(d.data(), d.size());
		arm();
		const auto o = run_case(c);
		_exit(o.code);
	}
	int st = 0;
	waitpid(p, &st, 0);
	if (WIFSIGNALED(st)) return 1000;
	return WEXITSTATUS(st) ? (WEXITSTATUS(st) == FAILED || WEXITSTATUS(st) == UNEXPECTED ? WEXITSTATUS(st) : 1000) : 0;
}

// shrink IN OUT SECONDS
static int cmd_shrink(char **a)
{
	cpu_limit = 10;
	wall_limit = 30;
	const double seconds = atof(a[2]);
	vector<uint8_t> best = slurp(a[0]);
	const int kind = attempt(best);
	if (kind == 0) { cerr << "does not fail" << endl; return USAGE; }
	const auto t0 = chrono::steady_clock::now();
	uint64_t tries = 0;
	auto time_left = [&] { return chrono::duration<double>(chrono::steady_clock::now() - t0).count() < seconds; };
	auto better = [&](const vector<uint8_t> &d) {
		if (!time_left()) return false;
		tries++;
		if (attempt(d) != kind) return false;
		best = d;
		spit(a[1], best);
		return true;
	};
	spit(a[1], best);
	while (!best.empty() && best.back() == 0) best.pop_back();
	spit(a[1], best);
	bool changed = true;
	while (changed && time_left()) {
		changed = false;
		// truncate
		for (size_t n = best.size() / 2; n >= 1 && time_left(); n /= 2)
			while (best.size() >= n) {
				vector<uint8_t> d(best.begin(), best.end() - long(n));
				if (!better(d)) break;
				changed = true;
			}
		// delete chunks, alone or together with a decrement of an earlier byte (a length)
		for (size_t n : {256, 64, 32, 16, 8, 4, 2, 1}) {
			for (size_t i = best.size(); i-- > 0 && time_left();) {
				if (i + n > best.size()) continue;
				vector<uint8_t> d(best);
				d.erase(d.begin() + long(i), d.begin() + long(i + n));
				if (better(d)) { changed = true; continue; }
				if (n <= 16) for (size_t back = 1; back <= 2 && back <= i; back++) {
					vector<uint8_t> e(d);
					if (e[i - back] == 0) continue;
					e[i - back]--;
					if (better(e)) { changed = true; break; }
				}
			}
		}
		// zero chunks
		for (size_t n : {64, 16, 8, 4, 2, 1})
			for (size_t i = 0; i + n <= best.size() && time_left(); i += n) {
				vector<uint8_t> d(best);
				bool nz = false;
				for (size_t j = i; j < i + n; j++) { nz |= d[j] != 0; d[j] = 0; }
				if (nz && better(d)) changed = true;
			}
		// lower single bytes
		for (size_t i = 0; i < best.size() && time_left(); i++) {
			uint8_t lo = 0;
			while (best[i] > lo && time_left()) {
				vector<uint8_t> d(best);
				d[i] = uint8_t((unsigned(lo) + best[i]) / 2);
				if (d[i] == best[i]) break;
				if (better(d)) changed = true; else lo = uint8_t(d[i] + 1);
			}
		}
		while (!best.empty() && best.back() == 0) best.pop_back();
		spit(a[1], best);
	}
	cout << "shrunk to " << best.size() << " choice bytes in " << tries << " attempts" << endl;
	return 0;
}

// dump SEED COUNT DIR
static int cmd_dump(char **a)
{
	const uint64_t seed = strtoull(a[0], nullptr, 0), count = strtoull(a[1], nullptr, 0);
	vector<uint8_t> buf(1 << 16);
	for (uint64_t i = 0; i < count; i++) {
		uint64_t len = 0;
		Case c(case_seed(seed, i), Tape{buf.data(), buf.size(), &len});
		arm();
		const auto o = run_case(c);
		disarm();
		if (o.code != OK) return o.code;
		if (len <= 4000) spit(string(a[2]) + "/seed" + to_string(i), vector<uint8_t>(buf.begin(), buf.begin() + long(len)));
	}
	return 0;
}

#ifdef PBT_FUZZ
static uint64_t fuzz_done = 0, fuzz_interesting = 0;
static unordered_set<uint64_t> *fuzz_seen = nullptr;
static const char *fuzz_stats = nullptr;
static map<string, string> *fuzz_known = nullptr;

static void fuzz_flush()
{
	if (!fuzz_stats) return;
	ofstream out(fuzz_stats);
	out << "{\"done\":" << fuzz_done << ",\"nontrivial\":" << fuzz_interesting << ",\"distinct\":" << fuzz_seen->size() << ",\"known\":[";
	const char *sep = "";
	for (const auto &k : *fuzz_known) { out << sep << '"' << esc(k.first) << '"'; sep = ","; }
	out << "]}" << endl;
}

static int fuzz_one(const uint8_t *d, size_t n)
{
	Case c(d, n);
	const auto o = run_case(c);
	fuzz_done++;
	if (c.interesting) { fuzz_interesting++; fuzz_seen->insert(fnv(d, n)); }
	fuzz_known->insert(c.known.begin(), c.known.end());
	if ((fuzz_done & 255) == 0) fuzz_flush();
	if (o.code != OK) {
		cerr << "FUZZ FAILED: " << o.message << endl;
		fuzz_flush();
		abort();
	}
	return 0;
}
extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv, int (*cb)(const uint8_t *data, size_t size));
#endif

int main(int argc, char **argv)
{
	if (argc < 2) return USAGE;
	signal(SIGPROF, on_prof);
	signal(SIGALRM, on_alrm);
	const string cmd = argv[1];
	if (cmd == "selftest") {
		const string e = ref::selftest();
		cout << (e.empty() ? "reference model agrees with the standards' vectors" : e) << endl;
		return e.empty() ? 0 : USAGE;
	}
	if (cmd == "rule") { cout << property_rule << endl; return 0; }
	if (cmd == "run" && argc == 9) return cmd_run(argv + 2);
	if (cmd == "one" && argc == 3) return cmd_one(argv[2], false);
	if (cmd == "describe" && argc == 3) return cmd_one(argv[2], true);
	if (cmd == "shrink" && argc == 5) return cmd_shrink(argv + 2);
	if (cmd == "dump" && argc == 5) return cmd_dump(argv + 2);
	if (cmd == "once") {
		cpu_limit = 600;
		wall_limit = 600;
		arm();
		try {
			cout << property_once() << endl;
			return OK;
		} catch (const Failure &f) {
			cout << "FAILED: " << f.message << endl;
			return FAILED;
		} catch (const exception &e) {
			cout << "FAILED: unexpected exception: " << e.what() << endl;
			return UNEXPECTED;
		}
	}
#ifdef PBT_FUZZ
	if (cmd == "fuzz" && argc >= 3) {  // fuzz STATS libfuzzer-args...
		fuzz_stats = argv[2];
		fuzz_seen = new unordered_set<uint64_t>;
		fuzz_known = new map<string, string>;
		vector<char *> args{argv[0]};
		for (int i = 3; i < argc; i++) args.push_back(argv[i]);
		args.push_back(nullptr);
		int n = int(args.size()) - 1;
		char **p = args.data();
		atexit(fuzz_flush);
		return LLVMFuzzerRunDriver(&n, &p, fuzz_one);
	}
#endif
	cerr << "usage" << endl;
	return USAGE;
}
