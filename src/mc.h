// Stateless model checker: explores the choice tree of a scenario exhaustively
// (depth first) and keeps a set of distinct abstract states.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {
	struct Prune { };
	struct Violation {
		std::string msg;
	};

	/// Enumerated choice: returns every value of 0..n-1 over the exploration.
	int choose(int n);
	template <typename T>
	const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
	template <typename T>
	T pick(std::initializer_list<T> l)
	{
		int i = choose((int)l.size());
		return *(l.begin() + i);
	}
	/// Shard boundary: the sub-trees below are distributed over the workers.
	void split();
	/// Abandon the current execution (state already seen, or infeasible).
	[[noreturn]] void prune();
	/// Record a state (by hash); true if it has not been seen before.
	bool state(uint64_t hash);
	/// Record an observed outcome (by hash), to detect vacuous exploration.
	void outcome(uint64_t hash);
	/// Count real-code steps compared with the oracle.
	void transition(uint64_t n = 1);
	/// Append to the description of the current execution.
	void note(const std::string& s);
	bool noting();
	[[noreturn]] void fail(const std::string& msg);
	inline void check(bool ok, const char* msg)
	{
		if (!ok)
			fail(msg);
	}
	template <typename F>
	inline void check(bool ok, F&& f, int = 0)
	{
		if (!ok)
			fail(f());
	}
	bool thorough();

	/// Random draws: sequence of 64-bit draws handed to the engines. When a
	/// source is installed, it is called for every draw.
	void setRandomSource(std::function<uint64_t()> src);

	struct Reg {
		Reg(const char* prop, const char* name, int tier, void (*fn)());
	};

	inline uint64_t mix(uint64_t h, uint64_t v)
	{
		h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
		h *= 0xff51afd7ed558ccdull;
		h ^= h >> 32;
		return h;
	}
	inline uint64_t mixd(uint64_t h, double d)
	{
		uint64_t v;
		if (d == 0)
			d = 0;
		memcpy(&v, &d, 8);
		return mix(h, v);
	}
	inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
	{
		const unsigned char* c = (const unsigned char*)p;
		for (size_t i = 0; i < n; i++)
			h = (h ^ c[i]) * 1099511628211ull;
		return mix(h, n);
	}

	struct Str {
		std::ostringstream o;
		Str() { o.precision(17); }
		template <typename T>
		Str& operator<<(const T& t)
		{
			o << t;
			return *this;
		}
		operator std::string() const { return o.str(); }
	};
}

// tier: 0 = quick and thorough, 1 = thorough only
#define MC_SCENARIO(prop, name, tier)                            \
	static void scen_##prop##_##name();                          \
	static mc::Reg reg_##prop##_##name(#prop, #name, tier, scen_##prop##_##name); \
	static void scen_##prop##_##name()

#define MC_CHECK(cond, expr)                                     \
	do {                                                         \
		if (!(cond))                                             \
			mc::fail((std::string)(mc::Str() << expr));           \
	} while (0)
namespace mc {
	/// Depth-bounded explicit-state pruning: true if (state, remaining depth)
	/// has not been covered by an earlier visit with at least that depth.
	bool visit(uint64_t hash, int remaining);
}
