// Deterministic simulation driver: plans, workers, minimiser, replay.  See sim.hpp and DESIGN.md.
#include "sim.hpp"

#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <exception>
#include <new>
#include <stdexcept>
#include <typeinfo>

extern "C" char const* __asan_default_options()
{
	return "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
	       "max_malloc_fill_size=4096:malloc_fill_byte=190:max_free_fill_size=4096:free_fill_byte=85:"
	       "detect_stack_use_after_return=0:quarantine_size_mb=16:handle_abort=0:print_summary=1:log_exe_name=0:"
	       "strict_init_order=0:check_initialization_order=0:symbolize=0";
}
extern "C" char const* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=77:abort_on_error=0"; }

namespace sim
{
	bool g_verbose = false;

	// ---- shared state --------------------------------------------------------------------------
	constexpr int max_counters = 256;
	constexpr std::size_t cover_bits = 22;

	enum Status : int { st_idle = 0, st_running, st_ok, st_violation, st_hang, st_memory, st_exception };

	struct Counter { char name[64]; std::uint64_t n; };

	struct Slot // one per worker
	{
		std::uint64_t run;
		std::uint64_t hash;
		std::uint64_t clock;
		std::uint64_t step;
		int status;
		char tag[96];
		char what[3000];
		// totals
		std::uint64_t runs, steps, total_clock, faulty_steps, nontrivial, recheck, recheck_bad;
		int ncounters;
		Counter counters[max_counters];
	};

	struct Shared
	{
		std::atomic<std::uint64_t> stop_at;     // no run with a larger index needs to start
		std::atomic<std::uint64_t> distinct_states, distinct_runs;
		std::atomic<std::uint32_t> cover[std::size_t(1) << cover_bits];
		std::atomic<std::uint32_t> runs_seen[std::size_t(1) << cover_bits];
		Slot slots[64];
	};

	static Shared* g_sh;
	static Slot* g_slot;

	static bool insert_hash(std::atomic<std::uint32_t>* t, std::uint64_t h)
	{
		std::uint32_t key = static_cast<std::uint32_t>(h >> 32);
		if (key == 0) key = 1;
		std::size_t i = h & ((std::size_t(1) << cover_bits) - 1);
		for (int probe = 0; probe < 64; ++probe, i = (i + 1) & ((std::size_t(1) << cover_bits) - 1))
		{
			std::uint32_t cur = t[i].load(std::memory_order_relaxed);
			if (cur == key) return false;
			if (cur == 0)
			{
				if (t[i].compare_exchange_strong(cur, key)) return true;
				if (cur == key) return false;
			}
		}
		return false; // table crowded: not counted
	}

	// ---- reporting -----------------------------------------------------------------------------
	void violate(char const* tag, char const* fmt, ...)
	{
		AllocFault off(-1);
		char buf[2900];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		throw Violation{ tag, buf };
	}

	void history(std::uint64_t h) { g_slot->hash = mix(g_slot->hash ^ 0x5bd1e995u, h); }

	void log(char const* fmt, ...)
	{
		char buf[4000];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		history(hash_bytes(buf, std::strlen(buf)));
		if (g_verbose) { std::fprintf(stderr, "  [%llu] %s\n", (unsigned long long)g_slot->step, buf); }
	}

	void cover(std::uint64_t s)
	{
		if (insert_hash(g_sh->cover, mix(s, 0x1234567))) g_sh->distinct_states.fetch_add(1, std::memory_order_relaxed);
	}

	void count(char const* what, std::uint64_t n)
	{
		Slot& s = *g_slot;
		for (int i = 0; i < s.ncounters; ++i)
			if (std::strcmp(s.counters[i].name, what) == 0) { s.counters[i].n += n; return; }
		if (s.ncounters == max_counters) return;
		Counter& c = s.counters[s.ncounters++];
		std::snprintf(c.name, sizeof c.name, "%s", what);
		c.n = n;
	}

	static std::string g_known; // ",sig,sig,"
	bool known(char const* signature)
	{
		char b[96];
		std::snprintf(b, sizeof b, ",%s,", signature);
		if (g_known.find(b) == std::string::npos) return false;
		std::snprintf(b, sizeof b, "known:%s", signature);
		count(b);
		return true;
	}

	void tick(std::uint64_t n) { g_slot->clock += n; }
	std::uint64_t now() { return g_slot->clock; }

	std::uint64_t hash_bytes(void const* p, std::size_t n, std::uint64_t seed)
	{
		unsigned char const* b = static_cast<unsigned char const*>(p);
		std::uint64_t h = 0xcbf29ce484222325ull ^ seed * 0x9E3779B97F4A7C15ull;
		for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
		return h ^ (h >> 29);
	}

	template <typename V>
	static std::string show_(V s)
	{
		std::string out = "\"";
		for (auto c : s)
		{
			std::uint32_t u = static_cast<std::uint32_t>(c);
			if (sizeof(c) == 1) u &= 0xFF;
			char b[16];
			if (0x20 <= u && u < 0x7F && u != '"' && u != '\\') { out.push_back(static_cast<char>(u)); continue; }
			if (sizeof(c) == 1) std::snprintf(b, sizeof b, "\\x%02X", u);
			else std::snprintf(b, sizeof b, "\\u{%X}", u);
			out += b;
			if (out.size() > 1200) { out += "..."; break; }
		}
		return out + "\"";
	}
	std::string show(std::string_view s) { return show_(s); }
	std::string show(std::u32string_view s) { return show_(s); }
	std::string show(std::u16string_view s) { return show_(s); }

	// ---- allocation ----------------------------------------------------------------------------
	static std::int64_t g_countdown = -1;
	static bool g_fired = false;
	static std::int64_t g_live = 0, g_live_bytes = 0;
	static std::uint64_t g_made = 0;
	constexpr std::size_t single_limit = std::size_t(256) << 20;
	constexpr std::int64_t live_limit = std::int64_t(1) << 30;

	AllocFault::AllocFault(std::int64_t countdown) { g_countdown = countdown; g_fired = false; }
	AllocFault::~AllocFault() { g_countdown = -1; }
	bool AllocFault::fired() const { return g_fired; }
	void AllocFault::disarm() { g_countdown = -1; }
	std::int64_t live_allocations() { return g_live; }
	std::int64_t live_bytes() { return g_live_bytes; }
	std::uint64_t allocations_made() { return g_made; }

	static void* allocate(std::size_t n)
	{
		++g_made;
		if (g_countdown >= 0 && g_countdown-- == 0)
		{
			g_fired = true;
			g_countdown = -1;
			count("fault:allocation_failure");
			return nullptr;
		}
		if (n > single_limit) { if (g_slot) count("refused_huge_allocation"); return nullptr; }
		void* p = std::malloc(n == 0 ? 1 : n);
		if (p)
		{
			++g_live;
			g_live_bytes += static_cast<std::int64_t>(malloc_usable_size(p));
			if (g_live_bytes > live_limit && g_slot && g_slot->status == st_running)
			{
				g_slot->status = st_memory;
				_exit(78);
			}
		}
		return p;
	}

	static void deallocate(void* p)
	{
		if (!p) return;
		--g_live;
		g_live_bytes -= static_cast<std::int64_t>(malloc_usable_size(p));
		std::free(p);
	}

	// ---- registry ------------------------------------------------------------------------------
	static std::vector<Registration*>& registry() { static std::vector<Registration*> v; return v; }
	Registration::Registration(char const* p, std::unique_ptr<World> (*m)()) : property(p), make(m) { registry().push_back(this); }

	static std::vector<Registration*> worlds_of(std::string const& property)
	{
		std::vector<Registration*> v;
		for (auto* r : registry()) if (property == r->property) v.push_back(r);
		return v;
	}

	// ---- plans ---------------------------------------------------------------------------------
	struct Step { std::uint64_t seed; bool faults; };
	struct Plan
	{
		std::string property;
		unsigned world = 0;
		std::uint64_t cfg = 0;
		std::vector<Step> steps;
	};

	static Plan make_plan(std::string const& property, std::uint64_t seed, std::uint64_t run)
	{
		auto ws = worlds_of(property);
		Plan p;
		p.property = property;
		Rng r(mix(mix(hash_str(property), seed), run));
		p.world = static_cast<unsigned>(run % ws.size());
		p.cfg = r.next();
		Rng cfg(p.cfg);
		auto w = ws[p.world]->make();
		Rng sizing(mix(p.cfg, 77));
		int n = w->length(sizing);
		int percent = w->fault_percent(sizing);
		for (int i = 0; i < n; ++i) p.steps.push_back({ r.next(), r.chance(percent, 100) });
		return p;
	}

	// Runs the plan in this process.  Result is in the slot.
	static void execute(Plan const& p)
	{
		Slot& s = *g_slot;
		s.hash = mix(p.cfg, p.world);
		s.clock = 0;
		s.step = 0;
		s.tag[0] = s.what[0] = 0;
		s.status = st_running;
		auto ws = worlds_of(p.property);
		std::int64_t live0 = 0;
		try
		{
			bool leaks = false;
			ws.at(p.world)->make()->warm();
			live0 = g_live;
			{
				auto w = ws.at(p.world)->make();
				leaks = w->leak_check();
				Rng cfg(p.cfg);
				w->start(cfg);
				for (Step const& st : p.steps)
				{
					++s.step;
					++s.steps;
					if (st.faults) ++s.faulty_steps;
					tick(1);
					Rng r(st.seed);
					w->step(r, st.faults);
				}
				++s.step;
				w->finish();
			}
			if (leaks && g_live != live0)
				violate("leak", "%lld blocks still allocated after the run destroyed every object", (long long)(g_live - live0));
			s.status = st_ok;
		}
		catch (Violation const& v)
		{
			std::snprintf(s.tag, sizeof s.tag, "%s", v.tag.c_str());
			std::snprintf(s.what, sizeof s.what, "%s", v.what.c_str());
			s.status = st_violation;
		}
		catch (std::exception const& e)
		{
			std::snprintf(s.tag, sizeof s.tag, "unexpected-exception");
			std::snprintf(s.what, sizeof s.what, "unexpected exception %s: %s", typeid(e).name(), e.what());
			s.status = st_violation;
		}
		catch (...)
		{
			std::snprintf(s.tag, sizeof s.tag, "unexpected-exception");
			std::snprintf(s.what, sizeof s.what, "unexpected exception");
			s.status = st_violation;
		}
	}

	// ---- watchdog ------------------------------------------------------------------------------
	static int g_cpu_limit = 20;
	static void on_alarm(int)
	{
		if (g_slot && g_slot->status == st_running) { g_slot->status = st_hang; _exit(79); }
	}
	static void arm()
	{
		signal(SIGVTALRM, on_alarm);
		itimerval t{};
		t.it_value.tv_sec = g_cpu_limit;
		setitimer(ITIMER_VIRTUAL, &t, nullptr);
	}
	static void disarm()
	{
		itimerval t{};
		setitimer(ITIMER_VIRTUAL, &t, nullptr);
	}

	struct Outcome { bool bad = false; std::string tag, what; std::uint64_t hash = 0, step = 0; };

	static Outcome outcome_of(Slot const& s, int wstatus)
	{
		Outcome o;
		o.hash = s.hash;
		o.step = s.step;
		if (s.status == st_ok) return o;
		o.bad = true;
		if (s.status == st_violation) { o.tag = s.tag; o.what = s.what; return o; }
		if (s.status == st_hang) { o.tag = "hang"; o.what = "no progress: the step used its whole CPU budget"; return o; }
		if (s.status == st_memory) { o.tag = "runaway-memory"; o.what = "live memory passed 1 GiB"; return o; }
		char buf[200];
		if (WIFSIGNALED(wstatus))
		{
			int sig = WTERMSIG(wstatus);
			std::snprintf(buf, sizeof buf, "the process died with signal %d (%s)%s", sig, strsignal(sig), sig == SIGABRT ? ": failed assertion or std::terminate" : "");
			o.tag = sig == SIGABRT ? "abort" : "crash";
		}
		else
		{
			std::snprintf(buf, sizeof buf, "the process exited with status %d (memory error reported by the sanitizer)", WEXITSTATUS(wstatus));
			o.tag = "crash";
		}
		o.what = std::string(buf) + " in step " + std::to_string(s.step);
		return o;
	}

	// Runs the plan in a forked child.
	static Outcome run_forked(Plan const& p, bool quiet)
	{
		Slot& s = g_sh->slots[63];
		std::memset(static_cast<void*>(&s), 0, sizeof s);
		s.status = st_running;
		std::fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0)
		{
			if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
			g_slot = &s;
			arm();
			execute(p);
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		return outcome_of(s, st);
	}

	static double wall()
	{
		timespec t;
		clock_gettime(CLOCK_MONOTONIC, &t);
		return t.tv_sec + t.tv_nsec * 1e-9;
	}

	// ---- minimisation --------------------------------------------------------------------------
	static Plan minimise(Plan p, std::string const& tag, double deadline)
	{
		auto still = [&](Plan const& q) { auto o = run_forked(q, true); return o.bad && o.tag == tag; };
		// cut the tail behind the failing step
		{
			auto o = run_forked(p, true);
			if (o.bad && o.tag == tag && o.step < p.steps.size())
			{
				Plan q = p;
				q.steps.resize(o.step);
				if (still(q)) p = q;
			}
		}
		std::size_t n = 2;
		while (p.steps.size() >= 1 && wall() < deadline)
		{
			std::size_t len = p.steps.size(), chunk = std::max<std::size_t>(1, len / n);
			bool reduced = false;
			for (std::size_t at = 0; at < len && wall() < deadline; at += chunk)
			{
				Plan q = p;
				q.steps.erase(q.steps.begin() + at, q.steps.begin() + std::min(len, at + chunk));
				if (still(q)) { p = q; reduced = true; break; }
			}
			if (reduced) { n = std::max<std::size_t>(2, n - 1); continue; }
			if (chunk == 1) break;
			n = std::min(len, n * 2);
		}
		for (std::size_t i = 0; i < p.steps.size() && wall() < deadline; ++i)
		{
			if (!p.steps[i].faults) continue;
			Plan q = p;
			q.steps[i].faults = false;
			if (still(q)) p = q;
		}
		return p;
	}

	// ---- replay files --------------------------------------------------------------------------
	static std::string one_line(std::string s) { for (char& c : s) if (c == '\n') c = ' '; return s; }

	static void write_replay(std::string const& path, Plan const& p, Outcome const& o, std::uint64_t seed, std::uint64_t run, std::size_t original)
	{
		FILE* f = std::fopen(path.c_str(), "w");
		if (!f) { std::perror(path.c_str()); _exit(2); }
		std::fprintf(f, "property %s\n", p.property.c_str());
		std::fprintf(f, "found-by VERIF_SEED %llu run %llu (%zu steps before minimisation)\n", (unsigned long long)seed, (unsigned long long)run, original);
		std::fprintf(f, "violation %s: %s\n", o.tag.c_str(), one_line(o.what).c_str());
		std::fprintf(f, "tag %s\n", o.tag.c_str());
		std::fprintf(f, "hash %016llx\n", (unsigned long long)o.hash);
		std::fprintf(f, "world %u\ncfg %llu\n", p.world, (unsigned long long)p.cfg);
		for (auto const& s : p.steps) std::fprintf(f, "step %llu %d\n", (unsigned long long)s.seed, s.faults ? 1 : 0);
		std::fclose(f);
	}

	static bool read_replay(std::string const& path, Plan& p, std::string& tag, std::uint64_t& hash)
	{
		FILE* f = std::fopen(path.c_str(), "r");
		if (!f) return false;
		char line[8192];
		while (std::fgets(line, sizeof line, f))
		{
			char a[256];
			unsigned long long x;
			int b;
			if (std::sscanf(line, "property %255s", a) == 1) p.property = a;
			else if (std::sscanf(line, "tag %255s", a) == 1) tag = a;
			else if (std::sscanf(line, "hash %llx", &x) == 1) hash = x;
			else if (std::sscanf(line, "world %llu", &x) == 1) p.world = static_cast<unsigned>(x);
			else if (std::sscanf(line, "cfg %llu", &x) == 1) p.cfg = x;
			else if (std::sscanf(line, "step %llu %d", &x, &b) == 2) p.steps.push_back({ x, b != 0 });
		}
		std::fclose(f);
		return !p.property.empty() && p.world < worlds_of(p.property).size();
	}

	static std::string json(std::string const& s)
	{
		std::string o = "\"";
		for (unsigned char c : s)
		{
			char b[8];
			if (c == '"' || c == '\\') { o.push_back('\\'); o.push_back(static_cast<char>(c)); }
			else if (c < 0x20 || c >= 0x7F) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
			else o.push_back(static_cast<char>(c));
		}
		return o + "\"";
	}
}

void* operator new(std::size_t n) { if (void* p = sim::allocate(n)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { if (void* p = sim::allocate(n)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return sim::allocate(n); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return sim::allocate(n); }
void operator delete(void* p) noexcept { sim::deallocate(p); }
void operator delete[](void* p) noexcept { sim::deallocate(p); }
void operator delete(void* p, std::size_t) noexcept { sim::deallocate(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::deallocate(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim::deallocate(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim::deallocate(p); }

using namespace sim;

static int usage()
{
	std::fprintf(stderr, "usage: PROG --property P --seed N --runs N [--max-seconds S] [--jobs J] [--out FILE] [--replay-dir DIR]\n"
	                     "       PROG --replay FILE [-v]\n       PROG --property P --seed N --hashes N   (prints run hashes)\n");
	return 2;
}

int main(int argc, char** argv)
{
	std::string property, out, replay, replay_dir = ".";
	std::uint64_t seed = 1, runs = 1000, hashes = 0, first = 0;
	double max_seconds = 120;
	int jobs = 8;
	bool verbose = false, trace = false;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--property") property = val();
		else if (a == "--seed") seed = std::strtoull(val().c_str(), nullptr, 10);
		else if (a == "--runs") runs = std::strtoull(val().c_str(), nullptr, 10);
		else if (a == "--first") first = std::strtoull(val().c_str(), nullptr, 10);
		else if (a == "--hashes") hashes = std::strtoull(val().c_str(), nullptr, 10);
		else if (a == "--max-seconds") max_seconds = std::atof(val().c_str());
		else if (a == "--jobs") jobs = std::clamp(std::atoi(val().c_str()), 1, 60);
		else if (a == "--cpu-limit") g_cpu_limit = std::atoi(val().c_str());
		else if (a == "--out") out = val();
		else if (a == "--replay") replay = val();
		else if (a == "--replay-dir") replay_dir = val();
		else if (a == "--known") g_known = "," + val() + ",";
		else if (a == "--trace") { trace = true; first = std::strtoull(val().c_str(), nullptr, 10); }
		else if (a == "-v") verbose = true;
		else return usage();
	}

	g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (g_sh == MAP_FAILED) { std::perror("mmap"); return 2; }
	g_slot = &g_sh->slots[62];

	if (!replay.empty())
	{
		Plan p;
		std::string tag;
		std::uint64_t hash = 0;
		if (!read_replay(replay, p, tag, hash)) { std::fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
		g_verbose = verbose;
		Outcome o = run_forked(p, !verbose);
		if (!o.bad) { std::printf("replay: no violation (hash %016llx)\n", (unsigned long long)o.hash); return 0; }
		std::printf("replay: %s: %s\nreplay: hash %016llx %s, tag %s\n", o.tag.c_str(), o.what.c_str(), (unsigned long long)o.hash,
		            o.hash == hash ? "identical" : "DIFFERENT", o.tag == tag ? "identical" : "DIFFERENT");
		return 1;
	}

	if (worlds_of(property).empty()) { std::fprintf(stderr, "no world for property %s\n", property.c_str()); return 2; }

	if (trace)
	{
		g_verbose = true;
		Outcome o = run_forked(make_plan(property, seed, first), false);
		std::printf("run %llu: %s, history hash %016llx\n", (unsigned long long)first, o.bad ? o.tag.c_str() : "held", (unsigned long long)o.hash);
		return o.bad ? 1 : 0;
	}

	if (hashes)
	{
		for (std::uint64_t i = 0; i < hashes; ++i)
		{
			Outcome o = run_forked(make_plan(property, seed, first + i), true);
			std::printf("%llu %016llx %s\n", (unsigned long long)(first + i), (unsigned long long)o.hash, o.bad ? o.tag.c_str() : "ok");
		}
		return 0;
	}

	double t0 = wall();
	g_sh->stop_at = ~std::uint64_t(0);
	std::vector<pid_t> pids(jobs);
	std::fflush(nullptr);
	for (int j = 0; j < jobs; ++j)
	{
		pid_t pid = fork();
		if (pid < 0) { std::perror("fork"); return 2; }
		if (pid == 0)
		{
			int fd = open("/dev/null", O_WRONLY);
			dup2(fd, 2);
			dup2(fd, 1);
			g_slot = &g_sh->slots[j];
			for (std::uint64_t run = j; run < runs; run += jobs)
			{
				if (run > g_sh->stop_at.load()) break;
				if (wall() - t0 > max_seconds) break;
				g_slot->run = run;
				Plan p = make_plan(property, seed, run);
				arm();
				execute(p);
				if (g_slot->status == st_violation)
				{
					std::uint64_t cur = g_sh->stop_at.load();
					while (run < cur && !g_sh->stop_at.compare_exchange_weak(cur, run)) {}
					_exit(0);
				}
				++g_slot->runs;
				g_slot->total_clock += g_slot->clock;
				if (insert_hash(g_sh->runs_seen, g_slot->hash)) g_sh->distinct_runs.fetch_add(1);
				if (run % 101 == 7) // determinism: same plan, same history
				{
					std::uint64_t h = g_slot->hash;
					execute(p);
					++g_slot->recheck;
					if (g_slot->status != st_ok || g_slot->hash != h) ++g_slot->recheck_bad;
					g_slot->status = st_ok;
				}
				disarm();
			}
			g_slot->status = st_ok;
			_exit(0);
		}
		pids[j] = pid;
	}

	std::vector<std::pair<std::uint64_t, Outcome>> found;
	for (int left = jobs; left > 0; --left)
	{
		int st = 0;
		pid_t pid = wait(&st);
		int j = static_cast<int>(std::find(pids.begin(), pids.end(), pid) - pids.begin());
		if (j == jobs) { ++left; continue; }
		Slot& s = g_sh->slots[j];
		Outcome o = outcome_of(s, st);
		if (!o.bad) continue;
		found.emplace_back(s.run, o);
		std::uint64_t cur = g_sh->stop_at.load();
		while (s.run < cur && !g_sh->stop_at.compare_exchange_weak(cur, s.run)) {}
	}
	double t1 = wall();
	std::sort(found.begin(), found.end(), [](auto const& a, auto const& b) { return a.first < b.first; });

	// ---- violations: gate, minimise, replay ----
	std::string replay_path;
	Outcome reported;
	std::uint64_t reported_run = 0;
	std::size_t steps_before = 0, steps_after = 0;
	bool gate_failed = false;
	for (auto const& [run, first_outcome] : found)
	{
		Plan p = make_plan(property, seed, run);
		Outcome a = run_forked(p, true), b = run_forked(p, true);
		if (!a.bad || !b.bad)
		{
			// a memory error may depend on what the worker's heap held before: not repeatable on its own
			gate_failed = true;
			continue;
		}
		Plan m = minimise(p, a.tag, wall() + 60);
		Outcome c = run_forked(m, true), d = run_forked(m, true);
		if (!c.bad || !d.bad || c.hash != d.hash) { m = p; c = a; }
		std::string path = replay_dir + "/" + property + "-" + std::to_string(seed) + "-" + std::to_string(run) + ".replay";
		write_replay(path, m, c, seed, run, p.steps.size());
		// fresh process
		std::string cmd = std::string(argv[0]) + " --replay '" + path + "' --cpu-limit " + std::to_string(g_cpu_limit) + " >/dev/null 2>&1";
		int rc = std::system(cmd.c_str());
		if (!WIFEXITED(rc) || WEXITSTATUS(rc) != 1) { gate_failed = true; continue; }
		replay_path = path;
		reported = c;
		reported_run = run;
		steps_before = p.steps.size();
		steps_after = m.steps.size();
		break;
	}

	// ---- totals ----
	std::uint64_t total_runs = 0, total_steps = 0, clock = 0, faulty = 0, recheck = 0, recheck_bad = 0;
	std::map<std::string, std::uint64_t> counters;
	for (int j = 0; j < jobs; ++j)
	{
		Slot& s = g_sh->slots[j];
		total_runs += s.runs;
		total_steps += s.steps;
		clock += s.total_clock;
		faulty += s.faulty_steps;
		recheck += s.recheck;
		recheck_bad += s.recheck_bad;
		for (int i = 0; i < s.ncounters; ++i) counters[s.counters[i].name] += s.counters[i].n;
	}

	if (!out.empty())
	{
		FILE* f = std::fopen(out.c_str(), "w");
		if (!f) { std::perror(out.c_str()); return 2; }
		std::fprintf(f, "{\"property\":%s,\"seed\":%llu,\"runs\":%llu,\"runs_planned\":%llu,\"steps\":%llu,\"fault_enabled_steps\":%llu,\"simulated_us\":%llu,",
		             json(property).c_str(), (unsigned long long)seed, (unsigned long long)total_runs, (unsigned long long)runs, (unsigned long long)total_steps,
		             (unsigned long long)faulty, (unsigned long long)clock);
		std::fprintf(f, "\"distinct_states\":%llu,\"distinct_runs\":%llu,\"determinism_rechecks\":%llu,\"determinism_mismatches\":%llu,\"wall\":%.3f,\"jobs\":%d,\"worlds\":%zu,",
		             (unsigned long long)g_sh->distinct_states.load(), (unsigned long long)g_sh->distinct_runs.load(), (unsigned long long)recheck,
		             (unsigned long long)recheck_bad, t1 - t0, jobs, worlds_of(property).size());
		std::fprintf(f, "\"counters\":{");
		bool comma = false;
		for (auto const& [k, v] : counters) { std::fprintf(f, "%s%s:%llu", comma ? "," : "", json(k).c_str(), (unsigned long long)v); comma = true; }
		std::fprintf(f, "},\"gate_failed\":%s,", gate_failed ? "true" : "false");
		if (replay_path.empty()) std::fprintf(f, "\"violation\":null}\n");
		else std::fprintf(f, "\"violation\":{\"run\":%llu,\"tag\":%s,\"what\":%s,\"replay\":%s,\"steps_before\":%zu,\"steps_after\":%zu}}\n",
		                  (unsigned long long)reported_run, json(reported.tag).c_str(), json(reported.what).c_str(), json(replay_path).c_str(), steps_before, steps_after);
		std::fclose(f);
	}
	if (!replay_path.empty())
	{
		std::printf("%s: %s\n", reported.tag.c_str(), reported.what.c_str());
		return 1;
	}
	if (gate_failed) { std::fprintf(stderr, "a violation was seen but did not reproduce\n"); return 3; }
	return 0;
}
