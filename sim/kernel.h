// Simulation kernel: PRNG, recorded decisions, simulated clock, history hash, counters.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {
typedef int64_t i64;
typedef uint64_t u64;

u64 mix(u64 a, u64 b);
u64 hashBytes(u64 h, void const* p, size_t n);

class Rng {
public:
	explicit Rng(u64 seed);
	u64 next();
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
	bool chance(i64 permille) { return (i64)below(1000) < permille; }
	// Index chosen by weight; all zero gives 0.
	size_t weighted(std::vector<i64> const& w);
	template <typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }

private:
	u64 m_s[4];
};

// One recorded scheduler/fault/workload decision.
struct Op {
	std::string kind;
	std::vector<i64> a;
	i64 dt = 0; // simulated us that elapse before the step
	Op() {}
	Op(char const* k, std::vector<i64> args = {}) : kind(k), a(std::move(args)) {}
	i64 arg(size_t i, i64 def = 0) const { return i < a.size() ? a[i] : def; }
	bool is(char const* k) const { return kind == k; }
};

struct Config {
	std::map<std::string, i64> v;
	i64 get(char const* k, i64 def = 0) const
	{
		auto it = v.find(k);
		return it == v.end() ? def : it->second;
	}
	i64& operator[](char const* k) { return v[k]; }
};

class Ctx {
public:
	u64 hash = 0x5eed;
	bool failed = false;
	bool verbose = false;
	std::string cls, msg;
	i64 now = 0; // us
	u64 step = 0;
	bool nontrivial = false;
	char const* only = nullptr; // only report violations of which the class starts with this

	// Adds an event to the history (hash).
	__attribute__((format(printf, 2, 3))) void log(char const* fmt, ...);
	void logBytes(char const* what, i64 who, void const* p, size_t n);
	// Records a violation; only the first counts.
	__attribute__((format(printf, 3, 4))) void fail(char const* cls, char const* fmt, ...);
	void fault(char const* name); // a fault was injected
	void probe(char const* name); // a rare condition was hit
	void state(u64 h);	      // an abstract state was reached
};

class World {
public:
	explicit World(Ctx& c, Config const& cfg) : ctx(c), cfg(cfg) {}
	virtual ~World() {}
	virtual Op gen(Rng& rng) = 0;
	virtual void exec(Op const& op) = 0;
	virtual void finish() = 0; // stop faults, bounded progress, final checks

	Ctx& ctx;
	Config const& cfg;
};

struct Family {
	char const* property;
	void (*config)(Rng&, Config&);
	World* (*make)(Ctx&, Config const&);
	int minOps, maxOps;
};

extern Family const families[];
extern size_t const familyCount;
extern char const* const binaryName;

std::string hex(void const* p, size_t n);
// Deterministic message contents.
std::string content(u64 key, size_t len, int style = 0);

// Arena for libstored's allocator (Config::Allocator): fixed address, never reused within a run,
// red zones, poisoned after free, deterministic fill. Allocation failures can be injected.
void* arenaAlloc(size_t n);
void arenaFree(void* p, size_t n) noexcept;
void arenaReset();
void arenaKeep(); // what is allocated now survives arenaReset()
size_t arenaLive();
extern i64 arenaFailAfter; // <0: never; else number of allocations that still succeed
extern u64 arenaFailed;
bool inArena(void const* p);
} // namespace sim
