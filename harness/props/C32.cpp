// Answers do not depend on the state of the process, and nothing in it is changed.
#include "../scenes.h"
#include <cfenv>
#include <chrono>
#include <cstring>
#include <ctime>
#include <clocale>
#include <cerrno>
#include <csignal>
#include <iostream>
#include <locale>
#include <optional>
#include <pthread.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>
using namespace gen;

const char *const pbt::property_id = "C32";
const char *const pbt::property_rule =
	"a scene of ordinary use is generated and every object made and every step taken in a generated state of the process: an unusual global C++ locale (grouping digits, other character classes), C locale, errno left over, rounding and flush modes, any environment variables, clocks that stand still or go back, no file to be opened, while an exception is handled, while the stack is unwound, on another thread, "
	"at the end of a thread, in a forked child - or the whole scene before main, ahead of the library's own initialisers, or at exit, behind its destructors. The answers must be the reference ones; locale, rounding mode, stream formats, signal handlers, files, environment and the state of rand must be left as they were and nothing may be printed. Non-trivial: at least three steps in "
	"an unusual state.";

// ------------------------------------------------------------------ states of the process

// What anybody in this process learns of its environment variables and of the time
static const char *volatile odd_variables = nullptr;  // the value of every variable, if not null
static volatile int odd_time = 0;                     // 1 stands still, 2 goes back, 3 is far in the future, 4 is the beginning of time
static volatile long odd_calls = 0;
static volatile long odd_reads = 0;

extern "C" char *getenv(const char *name) noexcept
{
	if (const char *v = odd_variables) { odd_reads = odd_reads + 1; return const_cast<char *>(v); }
	const size_t n = strlen(name);
	for (char **e = environ; e && *e; e++) if (strncmp(*e, name, n) == 0 && (*e)[n] == '=') return *e + n + 1;
	return nullptr;
}
extern "C" char *secure_getenv(const char *name) noexcept { return getenv(name); }
extern "C" int clock_gettime(clockid_t id, timespec *t) noexcept
{
	if (!odd_time) return int(syscall(SYS_clock_gettime, id, t));
	odd_calls = odd_calls + 1;
	t->tv_nsec = odd_time == 2 ? 999999999 - odd_calls % 1000 : 0;
	t->tv_sec = odd_time == 1 ? 1000000 : odd_time == 2 ? 2000000 - odd_calls : odd_time == 3 ? 0x7fffffffffL : 0;
	return 0;
}
extern "C" time_t time(time_t *p) noexcept
{
	timespec t{};
	clock_gettime(CLOCK_REALTIME, &t);
	if (p) *p = t.tv_sec;
	return t.tv_sec;
}
extern "C" int gettimeofday(timeval *p, void *) noexcept
{
	timespec t{};
	clock_gettime(CLOCK_REALTIME, &t);
	p->tv_sec = t.tv_sec;
	p->tv_usec = t.tv_nsec / 1000;
	return 0;
}
extern "C" clock_t clock() noexcept
{
	timespec t{};
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
	return clock_t(t.tv_sec * 1000000 + t.tv_nsec / 1000);
}

namespace {

enum State { ordinary, cxx_locale, c_locale, left_errno, rounding, handling, unwinding, other_thread, thread_end, environment, clocks, no_files, states };
const char *const state_names[] = {"ordinary", "C++ locale", "C locale", "errno left over", "rounding mode", "inside a handler", "while unwinding", "another thread", "end of a thread", "environment variables", "clocks", "no more files"};

struct Grouping final : std::numpunct<char> {
	char do_thousands_sep() const override { return '7'; }
	char do_decimal_point() const override { return 'a'; }
	std::string do_grouping() const override { return "\1"; }
	std::string do_truename() const override { return "0"; }
};
struct Classes final : std::ctype<char> {
	static const mask *table()
	{
		static mask t[table_size];
		for (size_t i = 0; i < table_size; i++) t[i] = classic_table()[i];
		for (char ch : {'3', 'b', 'C'}) t[size_t(ch)] = std::ctype_base::space | std::ctype_base::punct;
		for (char ch : {'g', 'Z', ' '}) t[size_t(ch)] = std::ctype_base::xdigit | std::ctype_base::digit;
		return t;
	}
	Classes() : std::ctype<char>(table()) {}
	char do_toupper(char ch) const override { return ch == 'a' ? 'b' : std::ctype<char>::do_toupper(ch); }
	char do_tolower(char ch) const override { return ch == 'A' ? 'b' : std::ctype<char>::do_tolower(ch); }
};

using Work = std::function<void()>;

struct InDestructor {
	const Work &f;
	std::exception_ptr &error;
	std::optional<pbt::Failure> &failure;
	~InDestructor()
	{
		try {
			f();
		} catch (const pbt::Failure &x) {
			failure = x;
		} catch (...) {
			error = std::current_exception();
		}
	}
};
struct AtThreadEnd {
	const Work *f = nullptr;
	std::exception_ptr *error = nullptr;
	~AtThreadEnd()
	{
		if (!f) return;
		try {
			(*f)();
		} catch (...) {
			*error = std::current_exception();
		}
	}
};
thread_local AtThreadEnd at_thread_end;

void on_thread(const Work &f)
{
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 512 << 10);
	pthread_t t;
	if (pthread_create(&t, &a, [](void *p) -> void * { (*static_cast<const Work *>(p))(); return nullptr; }, const_cast<Work *>(&f)) != 0) f();
	else pthread_join(t, nullptr);
	pthread_attr_destroy(&a);
}

void in_state(Case &c, State s, unsigned how, const Work &f)
{
	switch (s) {
	case cxx_locale: {
		const std::locale odd = how % 3 == 0 ? std::locale(std::locale::classic(), new Grouping) :
			how % 3 == 1 ? std::locale(std::locale::classic(), new Classes) : std::locale(std::locale(std::locale::classic(), new Grouping), new Classes);
		const std::locale was = std::locale::global(odd);
		const auto back = [&] { const bool same = std::locale() == odd; std::locale::global(was); return same; };
		try {
			f();
		} catch (...) {
			back();
			throw;
		}
		c.check(back(), "the global locale was changed");
		return;
	}
	case c_locale: {
		if (how & 1) {  // of this thread alone
			const locale_t mine = newlocale(LC_ALL_MASK, "C.UTF-8", nullptr);
			const locale_t was = uselocale(mine);
			const auto back = [&] { const bool same = uselocale(was) == mine; freelocale(mine); return same; };
			try {
				f();
			} catch (...) {
				back();
				throw;
			}
			c.check(back(), "the locale of the thread was changed");
			return;
		}
		setlocale(LC_ALL, "C.UTF-8");
		try {
			f();
		} catch (...) {
			setlocale(LC_ALL, "C");
			throw;
		}
		const std::string now = setlocale(LC_ALL, nullptr);
		setlocale(LC_ALL, "C");
		c.check(now.find("UTF-8") != std::string::npos || now == "C", "the C locale was changed to " + now);
		return;
	}
	case left_errno: {
		errno = how % 3 == 0 ? ERANGE : how % 3 == 1 ? EINVAL : ENOMEM;
		f();
		errno = 0;
		return;
	}
	case rounding: {
		static const int modes[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
		const unsigned csr = _mm_getcsr();
		fesetround(modes[how % 3]);
		if (how & 4) _mm_setcsr(_mm_getcsr() | 0x8040);
		const unsigned set = _mm_getcsr() & 0xffc0;
		const auto back = [&] { const bool same = (_mm_getcsr() & 0xffc0) == set && fegetround() == modes[how % 3]; fesetround(FE_TONEAREST); _mm_setcsr(csr); return same; };
		try {
			f();
		} catch (...) {
			back();
			throw;
		}
		c.check(back(), "the floating-point mode was changed");
		return;
	}
	case handling:
		try {
			if (how & 1) throw std::runtime_error("handled while working");
			throw 42;
		} catch (...) {
			f();
			return;
		}
	case unwinding: {
		std::exception_ptr error;
		std::optional<pbt::Failure> failure;
		try {
			const InDestructor d{f, error, failure};
			throw std::runtime_error("unwinds");
		} catch (const std::runtime_error &) {
		}
		if (failure) throw *failure;
		if (error) std::rethrow_exception(error);
		return;
	}
	case other_thread: {
		std::exception_ptr error;
		on_thread([&] {
			try {
				f();
			} catch (...) {
				error = std::current_exception();
			}
		});
		if (error) std::rethrow_exception(error);
		return;
	}
	case environment: {
		static const char *const values[] = {"1", "", "yes", "0", "/nowhere", "0x10", "tr_TR.UTF-8", "-1"};
		odd_variables = values[how % 8];
		try {
			f();
		} catch (...) {
			odd_variables = nullptr;
			throw;
		}
		odd_variables = nullptr;
		return;
	}
	case clocks: {
#ifndef PBT_FUZZ
		odd_time = int(1 + how % 4);  // (the fuzzer's own watch uses the clock)
#endif
		try {
			f();
		} catch (...) {
			odd_time = 0;
			throw;
		}
		odd_time = 0;
		return;
	}
	case no_files: {
		rlimit was{}, none{};
		getrlimit(RLIMIT_NOFILE, &was);
		none = was;
		none.rlim_cur = 0;
		setrlimit(RLIMIT_NOFILE, &none);
		try {
			f();
		} catch (...) {
			setrlimit(RLIMIT_NOFILE, &was);
			throw;
		}
		setrlimit(RLIMIT_NOFILE, &was);
		return;
	}
	case thread_end: {
		std::exception_ptr error;
		on_thread([&] {
			at_thread_end.f = &f;
			at_thread_end.error = &error;
		});
		if (error) std::rethrow_exception(error);
		return;
	}
	default:
		f();
		return;
	}
}

class Strange final : public scene::Env {
public:
	Strange(Case &c, State s, bool mixed) : Env(c), state(s), mixed(mixed) {}
	void attempt(const std::function<void()> &f) override
	{
		const State s = mixed ? State(c.below(states)) : state;
		unusual += s != ordinary;
		in_state(c, s, unsigned(c.below(8)), f);
	}
	size_t unusual = 0;
private:
	const State state;
	const bool mixed;
};
void scenes(Case &c, State s, bool mixed, size_t &unusual)
{
	const unsigned kind = unsigned(c.below(scene::kinds));
	c.note([&](auto &o) { o << scene::name(kind); });
	c.label(scene::name(kind));
	Strange e(c, s, mixed);
	scene::run(e, kind);
	unusual += e.unusual;
}

// runs a scene on the choices; returns what was wrong
std::string scene_of(const Bytes &choices)
{
	Case c(choices.data(), choices.size());
	size_t n = 0;
	try {
		scenes(c, ordinary, false, n);
		return "";
	} catch (const pbt::Failure &f) {
		return f.message;
	} catch (const std::exception &e) {
		return std::string("unexpected exception: ") + e.what();
	} catch (...) {
		return "unexpected exception";
	}
}

// ------------------------------------------------------------------ before main and at exit

bool all(ssize_t (*op)(int, void *, size_t), int fd, void *p, size_t n)
{
	for (size_t at = 0; at < n;) {
		const ssize_t k = op(fd, static_cast<char *>(p) + at, n - at);
		if (k <= 0) return false;
		at += size_t(k);
	}
	return true;
}
bool get(int fd, void *p, size_t n) { return all([](int f, void *q, size_t k) { return read(f, q, k); }, fd, p, n); }
bool put(int fd, const void *p, size_t n) { return all([](int f, void *q, size_t k) { return write(f, q, k); }, fd, const_cast<void *>(p), n); }
bool get_bytes(int fd, Bytes &b)
{
	uint32_t n;
	if (!get(fd, &n, 4)) return false;
	b.resize(n);
	return n == 0 || get(fd, b.data(), n);
}
bool put_bytes(int fd, const void *p, size_t k) { const uint32_t n = uint32_t(k); return put(fd, &n, 4) && (n == 0 || put(fd, p, n)); }

// A child that never gets to main: every request is worked on by a fork of it.
struct Early {
	int fd = -1;
	pid_t owner = getpid(), server = -1;
	Early()
	{
		int s[2];
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s) != 0) return;
		const pid_t p = fork();
		if (p < 0) { close(s[0]); close(s[1]); return; }
		if (p > 0) { server = p; close(s[1]); fd = s[0]; return; }
		close(s[0]);
		Bytes choices;
		while (get_bytes(s[1], choices)) {
			int r[2];
			if (pipe(r) != 0) _exit(1);
			const pid_t q = fork();
			if (q == 0) {
				alarm(60);
				const std::string m = scene_of(choices);
				put_bytes(r[1], m.data(), m.size());
				_exit(0);
			}
			close(r[1]);
			Bytes m;
			const bool answered = q > 0 && get_bytes(r[0], m);
			close(r[0]);
			int st = 0;
			waitpid(q, &st, 0);
			const std::string died = "the process died (status " + std::to_string(st) + ")";
			if (!answered) m.assign(died.begin(), died.end());
			if (!put_bytes(s[1], m.data(), m.size())) break;
		}
		_exit(0);
	}
	~Early()
	{
		if (server < 0 || getpid() != owner) return;
		kill(server, SIGKILL);
		waitpid(server, nullptr, 0);
	}
	Early(const Early &) = delete;
	Early &operator=(const Early &) = delete;
};
Early early __attribute__((init_priority(101)));

int late_fd = -1;
const Bytes *late_choices = nullptr;
__attribute__((destructor(101))) void at_exit()
{
	if (late_fd < 0) return;
	const std::string m = scene_of(*late_choices);
	put_bytes(late_fd, m.data(), m.size());
	_exit(0);
}

std::string before_main(const Bytes &choices, bool &done)
{
	Bytes m;
	if (early.fd < 0 || !put_bytes(early.fd, choices.data(), choices.size()) || !get_bytes(early.fd, m)) { done = false; return ""; }
	return std::string(m.begin(), m.end());
}
std::string in_child(const Bytes &choices, bool leaving, bool &done)
{
	int r[2];
	fflush(nullptr);
	if (pipe(r) != 0) { done = false; return ""; }
	const pid_t p = fork();
	if (p == 0) {
		close(r[0]);
		alarm(60);
		if (leaving) {
			late_choices = new Bytes(choices);
			late_fd = r[1];
			exit(0);
		}
		const std::string m = scene_of(choices);
		put_bytes(r[1], m.data(), m.size());
		_exit(0);
	}
	close(r[1]);
	Bytes m;
	const bool answered = p > 0 && get_bytes(r[0], m);
	close(r[0]);
	int st = 0;
	if (p > 0) waitpid(p, &st, 0);
	else done = false;
	if (p > 0 && !answered) return "the process died (status " + std::to_string(st) + ")";
	return std::string(m.begin(), m.end());
}

// What is printed while one is alive goes to a file of its own
class Output {
public:
	Output() : file(memfd_create("output", MFD_CLOEXEC)), out(dup(1)), err(dup(2))
	{
		flush();
		dup2(file, 1);
		dup2(file, 2);
	}
	~Output() { close_all(); }
	Output(const Output &) = delete;
	Output &operator=(const Output &) = delete;
	size_t size()
	{
		flush();
		const off_t n = lseek(file, 0, SEEK_END);
		close_all();
		return n > 0 ? size_t(n) : 0;
	}
private:
	static void flush()
	{
		std::cout.flush();
		std::cerr.flush();
		std::clog.flush();
		fflush(stdout);
		fflush(stderr);
	}
	void close_all()
	{
		if (file < 0) return;
		flush();
		dup2(out, 1);
		dup2(err, 2);
		close(out);
		close(err);
		close(file);
		file = -1;
	}
	int file, out, err;
};

// What of the process the library has no business with
class Surroundings {
public:
	Surroundings()
	{
		srand(7);
		number = rand();
		srand(7);
		take(now);
	}
	// the name of the first thing that is not as it was
	std::string changed() const
	{
		Snapshot s;
		take(s);
		if (memcmp(s.signals, now.signals, sizeof s.signals) != 0) return "a signal handler";
		if (s.mask != now.mask) return "the signal mask";
		if (s.files != now.files) return "the open files";
		if (s.umask != now.umask) return "the file mode mask";
		if (s.cwd != now.cwd) return "the working directory";
		if (s.variables != now.variables) return "the environment variables";
		if (s.terminate != now.terminate) return "the terminate handler";
		if (s.handler != now.handler) return "the new handler";
		if (s.locale != now.locale || std::locale() != std::locale::classic()) return "the locale";
		if (rand() != number) return "the state of rand";
		return "";
	}
private:
	struct Snapshot {
		const void *signals[32] = {};
		uint64_t mask = 0, files = 0, variables = 0;
		mode_t umask = 0;
		std::string cwd, locale;
		std::terminate_handler terminate = nullptr;
		std::new_handler handler = nullptr;
	};
	static void take(Snapshot &s)
	{
		for (int i = 1; i < 32; i++) {
			struct sigaction a{};
			if (sigaction(i, nullptr, &a) == 0) s.signals[i] = reinterpret_cast<const void *>(a.sa_handler);
		}
		sigset_t m;
		pthread_sigmask(SIG_SETMASK, nullptr, &m);
		for (int i = 1; i < 64; i++) if (sigismember(&m, i) == 1) s.mask |= uint64_t(1) << i;
		for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) s.files |= uint64_t(1) << i;
		s.umask = ::umask(0);
		::umask(s.umask);
		char b[4096];
		if (getcwd(b, sizeof b)) s.cwd = b;
		for (char **e = environ; e && *e; e++) for (const char *q = *e;; q++) {
			s.variables = (s.variables ^ uint8_t(*q)) * 0x100000001b3;
			if (!*q) break;
		}
		s.locale = setlocale(LC_ALL, nullptr);
		s.terminate = std::get_terminate();
		s.handler = std::get_new_handler();
	}
	int number;
	Snapshot now{};
};

}  // namespace

void pbt::property(Case &c)
{
	uint64_t where = c.below(states + 3);
#ifdef PBT_FUZZ
	if (where >= states) where = 0;  // forks would take the fuzzer's own handlers along
#endif
	if (where >= states) {
		Bytes choices(c.range(16, 300));
		for (auto &b : choices) b = c.byte();
		const char *const what = where == states ? "before main" : where == states + 1 ? "at exit" : "in a forked child";
		c.label(what);
		c.note([&](auto &o) { o << "a scene " << what; });
		bool done = true;
		const std::string m = where == states ? before_main(choices, done) : in_child(choices, where == states + 1, done);
		c.check(m.empty(), std::string(what) + ": " + m);
		if (c.verbose) {
			Case k(choices.data(), choices.size());
			k.verbose = true;
			size_t n = 0;
			scenes(k, ordinary, false, n);
			c.note([&](auto &o) { o << k.notes.str(); });
		}
		c.nontrivial(done);
		c.label(!done, "could not be run");
		return;
	}
	const bool mixed = where == 0;
	const State s = State(where);
	c.label(mixed ? "mixed states" : state_names[where]);
	c.note([&](auto &o) { o << (mixed ? "mixed states" : state_names[where]); });
	size_t unusual = 0, printed = 0;
	const auto flags = std::cout.flags();
	const auto fill = std::cout.fill();
	const auto precision = std::cout.precision();
	const Surroundings surroundings;
	if (c.below(8) == 0) {
		Output o;
		scenes(c, s, mixed, unusual);
		printed = o.size();
		c.label("output watched");
	} else scenes(c, s, mixed, unusual);
	c.check(printed == 0, std::to_string(printed) + " bytes were printed");
	c.check(std::cout.flags() == flags && std::cout.fill() == fill && std::cout.precision() == precision && std::cout.good() && std::cerr.good(), "the format of cout was changed");
	const std::string changed = surroundings.changed();
	c.check(changed.empty(), changed + " was changed");
	c.nontrivial(unusual >= 3);
}

std::string pbt::property_once()
{
	// the states take effect
	Case c(nullptr, 0);
	bool ok[10] = {};
	in_state(c, cxx_locale, 0, [&] { std::ostringstream o; o << 123; ok[0] = o.str() == "17273"; });
	in_state(c, rounding, 0, [&] { volatile double a = 1, b = 3; ok[1] = a / b != 1 / 3.0; });
	in_state(c, unwinding, 0, [&] { ok[2] = std::uncaught_exceptions() == 1; });
	const pthread_t me = pthread_self();
	in_state(c, other_thread, 0, [&] { ok[3] = !pthread_equal(me, pthread_self()); });
	in_state(c, thread_end, 0, [&] { ok[4] = !pthread_equal(me, pthread_self()); });
	{
		Output o;
		std::cout << "x";
		printf("y");
		ok[5] = o.size() == 2;
	}
	in_state(c, environment, 0, [&] { const char *v = getenv("SOMETHING"); ok[6] = v && *v == '1'; });
	ok[7] = getenv("SOMETHING_UNHEARD_OF") == nullptr;
	{
		const auto before = std::chrono::system_clock::now();
		in_state(c, clocks, 0, [&] { ok[8] = time(nullptr) == 1000000 && std::chrono::system_clock::now() < before; });
#ifdef PBT_FUZZ
		ok[8] = true;
#endif
	}
	in_state(c, no_files, 0, [&] { ok[9] = open("/dev/null", O_RDONLY) < 0; });
	for (size_t i = 0; i < 10; i++) if (!ok[i]) throw std::runtime_error("state " + std::to_string(i) + " has no effect");
	return "the states were seen to take effect";
}
