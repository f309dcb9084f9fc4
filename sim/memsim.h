// Two simulated threads on one real one. Code that is compiled with -fsanitize=thread calls the runtime in memsim.cpp
// for every memory access; it decides every interleaving, gives atomic loads any value that the C++ memory model allows,
// and detects data races with vector clocks. Only accesses within the watched region take part.
#pragma once
#include "kernel.h"

namespace sim {
namespace mm {
struct Schedule {
	// Explicit: after d accesses, do s: 0 switch thread, 1 next load reads the oldest value allowed.
	std::vector<std::pair<i64, i64>> points;
	int first = 1;
	// Random.
	bool random = false;
	u64 seed = 0;
	i64 switchPermille = 0, stalePermille = 0;
};

void watch(void* p, size_t n);
// Runs both to completion.
void run(Ctx& ctx, Schedule const& s, void (*a)(void*), void* aarg, void (*b)(void*), void* barg);
int self();  // 0: no simulated thread is running
void yield(); // other thread may run; pending stores become visible
u64 accesses();
u64 switches();
u64 staleReads();
} // namespace mm
} // namespace sim
