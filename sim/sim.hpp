// Deterministic simulation core.
//
// One run = one Plan: a configuration seed and a list of steps.  Each step carries its own PRNG seed
// and a flag saying whether the simulator may inject faults in it, so dropping a step during
// minimisation leaves the random draws of every other step alone.  A plan is a pure function of
// (property, VERIF_SEED, run index); executing a plan is a pure function of the plan and the code.
#pragma once

#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace sim
{
	// ---- pseudo random numbers -----------------------------------------------------------------
	struct Rng
	{
		std::uint64_t s;
		explicit Rng(std::uint64_t seed = 0) : s(seed) {}
		std::uint64_t next()
		{
			std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		std::uint32_t below(std::uint32_t n) { return n == 0 ? 0 : static_cast<std::uint32_t>((next() >> 32) * n >> 32); }
		int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<std::uint32_t>(hi - lo + 1))); }
		bool chance(std::uint32_t num, std::uint32_t den) { return below(den) < num; }
		template <typename C> auto const& pick(C const& c) { return c[below(static_cast<std::uint32_t>(std::size(c)))]; }
	};

	inline std::uint64_t mix(std::uint64_t a, std::uint64_t b)
	{
		Rng r(a * 0xD1342543DE82EF95ull + b);
		return r.next();
	}

	// ---- violations ----------------------------------------------------------------------------
	struct Violation
	{
		std::string tag;  // class of the violation, stable under minimisation
		std::string what; // full description
	};

	[[noreturn]] void violate(char const* tag, char const* fmt, ...) __attribute__((format(printf, 2, 3)));

#define SIM_REQUIRE(cond, tag, ...) do { if (!(cond)) ::sim::violate(tag, __VA_ARGS__); } while (0)

	// ---- history, coverage ---------------------------------------------------------------------
	extern bool g_verbose;             // replay -v prints the history
	void history(std::uint64_t h);     // mixes a value in the history hash
	void log(char const* fmt, ...) __attribute__((format(printf, 1, 2))); // history line: hashed; printed when verbose
	void cover(std::uint64_t state);   // a reached state or interleaving
	void count(char const* what, std::uint64_t n = 1); // how often a fault kind or probe fired
	bool known(char const* signature); // the signature is listed in known_findings.txt: counts the hit and returns true
	void tick(std::uint64_t n);        // simulated time (microseconds) passes
	std::uint64_t now();
	std::uint64_t hash_bytes(void const* p, std::size_t n, std::uint64_t seed = 0);
	template <typename S> std::uint64_t hash_str(S const& s, std::uint64_t seed = 0)
	{
		return hash_bytes(s.data(), s.size() * sizeof(s[0]), seed);
	}
	std::string show(std::string_view s);
	std::string show(std::u32string_view s);
	std::string show(std::u16string_view s);

	// ---- allocation faults ---------------------------------------------------------------------
	// While armed, the n-th allocation (0 = the next one) made by the code under test fails with std::bad_alloc.
	struct AllocFault
	{
		explicit AllocFault(std::int64_t countdown); // negative: nothing fails
		~AllocFault();
		bool fired() const;
		void disarm();
	};
	std::int64_t live_allocations();     // blocks alive (for leak checks)
	std::int64_t live_bytes();           // bytes alive
	std::uint64_t allocations_made();    // total number of allocations so far

	// ---- worlds --------------------------------------------------------------------------------
	struct World
	{
		virtual ~World() = default;
		virtual void start(Rng& cfg) = 0;
		virtual int  length(Rng& cfg) = 0;            // number of steps of this run
		virtual void step(Rng& r, bool faults) = 0;
		virtual void finish() = 0;
		virtual bool leak_check() const { return false; }
		virtual void warm() {}                        // fills tables that live as long as the process
		// share of steps in which faults are allowed, in percent; drawn per run (swarm)
		virtual int fault_percent(Rng& cfg) { static int const t[] = { 0, 10, 30, 60 }; return t[cfg.below(4)]; }
	};

	struct Registration
	{
		char const* property;
		std::unique_ptr<World> (*make)();
		Registration(char const* p, std::unique_ptr<World> (*m)());
	};

#define SIM_WORLD(property, T) static ::sim::Registration sim_reg_##T##_##__LINE__(property, []() -> std::unique_ptr<::sim::World> { return std::make_unique<T>(); })
}
