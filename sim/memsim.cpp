// The runtime that replaces ThreadSanitizer's. Compiled without instrumentation.
#include "memsim.h"

#include <algorithm>
#include <cstdlib>
#include <ucontext.h>
#include <unistd.h>

extern "C" {
void* __real_memcpy(void* d, void const* s, size_t n);
void* __real_memmove(void* d, void const* s, size_t n);
void* __real_memset(void* d, int c, size_t n);
}

namespace sim {
namespace mm {

enum { Threads = 3, MaxRegion = 65536 };
typedef uint32_t Clk;

struct VC {
	Clk c[Threads] = {};
	void join(VC const& o)
	{
		for(int i = 0; i < Threads; i++)
			c[i] = std::max(c[i], o.c[i]);
	}
};

struct Cell { // per byte, non-atomic accesses
	uint32_t phase;
	Clk w;
	Clk r[Threads];
	uint8_t wt;
};

struct Store {
	u64 val;
	int tid;
	Clk clk;
	bool rel;
	VC vc;
};

struct Loc {
	uintptr_t at;
	size_t size;
	std::vector<Store> h;
	size_t seen[Threads] = {};
	int stale[Threads] = {};
	size_t sc = 0;
	Clk acc[Threads] = {};
	Clk wr[Threads] = {};
};

static char* s_base;
static size_t s_size;
static Cell s_cells[MaxRegion];
static uint32_t s_phase;
static std::vector<Loc> s_locs;
static VC s_vc[Threads], s_rel[Threads], s_acq[Threads], s_scfence;
static bool s_hasRel[Threads];

static Ctx* s_ctx;
static Schedule const* s_sched;
static Rng* s_rng;
static int s_self;
static bool s_done[Threads];
static size_t s_point;
static i64 s_count;
static bool s_staleNext;
static u64 s_accesses, s_switches, s_stale;

static ucontext_t s_main, s_co[Threads];
alignas(64) static char s_stack[Threads][512 * 1024];
static void (*s_fn[Threads])(void*);
static void* s_arg[Threads];

void watch(void* p, size_t n)
{
	if(n > MaxRegion)
		abort();
	s_base = static_cast<char*>(p);
	s_size = n;
}

int self()
{
	return s_self;
}
u64 accesses()
{
	return s_accesses;
}
u64 switches()
{
	return s_switches;
}
u64 staleReads()
{
	return s_stale;
}

static void entry(int t)
{
	s_fn[t](s_arg[t]);
	s_done[t] = true;
	int o = 3 - t;
	if(!s_done[o]) {
		s_self = o;
		setcontext(&s_co[o]);
	}
	s_self = 0;
	setcontext(&s_main);
}

static void switchTo(int o)
{
	int t = s_self;
	if(o == t || s_done[o])
		return;
	s_switches++;
	s_self = o;
	swapcontext(&s_co[t], &s_co[o]);
}

void run(Ctx& ctx, Schedule const& s, void (*a)(void*), void* aarg, void (*b)(void*), void* barg)
{
	s_phase++;
	s_locs.clear();
	for(int i = 0; i < Threads; i++) {
		s_vc[i] = VC();
		s_rel[i] = VC();
		s_acq[i] = VC();
		s_hasRel[i] = false;
		s_vc[i].c[i] = 1;
		s_done[i] = false;
	}
	s_scfence = VC();
	Rng rng(s.seed);
	s_rng = &rng;
	s_ctx = &ctx;
	s_sched = &s;
	s_point = 0;
	s_count = s.points.empty() ? -1 : s.points[0].first;
	s_staleNext = false;
	s_fn[1] = a;
	s_arg[1] = aarg;
	s_fn[2] = b;
	s_arg[2] = barg;
	for(int t = 1; t < Threads; t++) {
		getcontext(&s_co[t]);
		s_co[t].uc_stack.ss_sp = s_stack[t];
		s_co[t].uc_stack.ss_size = sizeof(s_stack[t]);
		s_co[t].uc_link = nullptr;
		makecontext(&s_co[t], (void (*)())entry, 1, t);
	}
	s_self = s.first == 2 ? 2 : 1;
	swapcontext(&s_main, &s_co[s_self]);
	s_self = 0;
	s_rng = nullptr;
	s_ctx = nullptr;
	s_sched = nullptr;
}

static void point()
{
	s_accesses++;
	if(s_sched->random) {
		if(s_sched->switchPermille && s_rng->chance(s_sched->switchPermille))
			switchTo(3 - s_self);
		return;
	}
	while(s_point < s_sched->points.size() && s_count <= 0) {
		i64 what = s_sched->points[s_point].second;
		s_point++;
		if(s_point < s_sched->points.size())
			s_count = s_sched->points[s_point].first;
		if(what)
			s_staleNext = true;
		else
			switchTo(3 - s_self);
	}
	s_count--;
}

void yield()
{
	if(!s_self)
		return;
	s_accesses++;
	switchTo(3 - s_self);
}

static bool inRegion(void const volatile* p)
{
	return s_self && (size_t)((char*)p - s_base) < s_size;
}

static void race(char const* what, void const volatile* p)
{
	int t = s_self;
	s_self = 0;
	s_ctx->fail("race", "data race: %s by %s at offset %zu of the object, not ordered after the other thread's access", what,
		    t == 1 ? "the first thread" : "the second thread", (size_t)((char*)p - s_base));
	s_self = t;
}

static void plain(void const volatile* p_, size_t n, bool write)
{
	if(!s_self)
		return;
	char* p = (char*)p_;
	if(p >= s_base + s_size || p + n <= s_base)
		return;
	if(p < s_base) {
		n -= (size_t)(s_base - p);
		p = s_base;
	}
	n = std::min(n, (size_t)(s_base + s_size - p));
	point();
	int t = s_self;
	VC& vc = s_vc[t];
	int o = 3 - t;
	for(size_t i = 0; i < n; i++) {
		Cell& c = s_cells[p - s_base + i];
		if(c.phase != s_phase) {
			c = Cell();
			c.phase = s_phase;
		}
		if(c.wt && c.wt != t && c.w > vc.c[c.wt]) {
			race(write ? "write after write" : "read after write", p + i);
			return;
		}
		if(write) {
			if(c.r[o] > vc.c[o]) {
				race("write after read", p + i);
				return;
			}
			c.wt = (uint8_t)t;
			c.w = vc.c[t];
		} else
			c.r[t] = vc.c[t];
	}
	for(auto& l : s_locs)
		if((uintptr_t)p < l.at + l.size && l.at < (uintptr_t)p + n) {
			if((write ? l.acc[o] : l.wr[o]) > vc.c[o])
				race("plain access to an atomic", p);
			if(write) {
				// Continue with this value.
				l.h.clear();
			}
		}
}

static Loc& loc(void const volatile* p, size_t size)
{
	for(auto& l : s_locs)
		if(l.at == (uintptr_t)p) {
			if(!l.h.empty())
				return l;
			s_locs.erase(s_locs.begin() + (&l - &s_locs[0]));
			break;
		}
	s_locs.emplace_back();
	Loc& l = s_locs.back();
	l.at = (uintptr_t)p;
	l.size = size;
	Store s = {};
	__real_memcpy(&s.val, (void const*)p, size);
	s.tid = 0;
	s.clk = 0;
	// The value may be written by plain code of this thread.
	Cell& c = s_cells[(char*)p - s_base];
	if(c.phase == s_phase && c.wt) {
		s.tid = c.wt;
		s.clk = c.w;
		if(c.wt != s_self && c.w > s_vc[s_self].c[c.wt])
			race("atomic access after plain write", p);
	}
	l.h.push_back(s);
	return l;
}

static bool acq(int mo)
{
	return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
static bool rel(int mo)
{
	return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

static void observe(Store const& s, int mo)
{
	if(!s.rel)
		return;
	if(acq(mo))
		s_vc[s_self].join(s.vc);
	else
		s_acq[s_self].join(s.vc);
}

static u64 load(void const volatile* p, size_t size, int mo)
{
	point();
	int t = s_self;
	Loc& l = loc(p, size);
	VC& vc = s_vc[t];
	size_t lo = l.seen[t];
	for(size_t i = l.h.size(); i-- > lo;)
		if(l.h[i].tid == t || l.h[i].clk <= vc.c[l.h[i].tid]) {
			lo = i;
			break;
		}
	if(mo == __ATOMIC_SEQ_CST)
		lo = std::max(lo, l.sc);
	size_t hi = l.h.size() - 1;
	size_t pick = hi;
	if(lo < hi && l.stale[t] < 12) {
		if(s_sched->random) {
			if(s_rng->chance(s_sched->stalePermille))
				pick = lo + s_rng->below(hi - lo + 1);
		} else if(s_staleNext) {
			pick = lo;
		}
	}
	if(lo < hi)
		s_staleNext = false;
	if(pick < hi) {
		l.stale[t]++;
		s_stale++;
	} else
		l.stale[t] = 0;
	l.seen[t] = pick;
	l.acc[t] = vc.c[t];
	observe(l.h[pick], mo);
	return l.h[pick].val;
}

static void put(Loc& l, u64 val, int mo, Store const* chain)
{
	int t = s_self;
	VC& vc = s_vc[t];
	vc.c[t]++;
	Store s = {};
	s.val = val;
	s.tid = t;
	s.clk = vc.c[t];
	if(rel(mo)) {
		s.rel = true;
		s.vc = vc;
	} else if(s_hasRel[t]) {
		s.rel = true;
		s.vc = s_rel[t];
	}
	if(chain && chain->rel) {
		// An RMW continues the release sequence.
		s.rel = true;
		s.vc.join(chain->vc);
	}
	if(mo == __ATOMIC_SEQ_CST)
		l.sc = l.h.size();
	l.h.push_back(s);
	l.seen[t] = l.h.size() - 1;
	l.acc[t] = l.wr[t] = vc.c[t];
	vc.c[t]++;
	__real_memcpy((void*)l.at, &val, l.size);
}

static void store(void volatile* p, size_t size, u64 val, int mo)
{
	point();
	Loc& l = loc(p, size);
	put(l, val, mo, nullptr);
}

template <typename F>
static u64 rmw(void volatile* p, size_t size, int mo, F&& f)
{
	point();
	Loc& l = loc(p, size);
	Store old = l.h.back();
	l.seen[s_self] = l.h.size() - 1;
	observe(old, mo);
	put(l, f(old.val), mo, &old);
	return old.val;
}

static bool cas(void volatile* p, size_t size, u64& expected, u64 val, int mo, int fail)
{
	point();
	Loc& l = loc(p, size);
	Store old = l.h.back();
	l.seen[s_self] = l.h.size() - 1;
	l.acc[s_self] = s_vc[s_self].c[s_self];
	if(old.val != expected) {
		observe(old, fail);
		expected = old.val;
		return false;
	}
	observe(old, mo);
	put(l, val, mo, &old);
	return true;
}

static void fence(int mo)
{
	if(!s_self)
		return;
	point();
	int t = s_self;
	if(acq(mo))
		s_vc[t].join(s_acq[t]);
	if(mo == __ATOMIC_SEQ_CST) {
		s_vc[t].join(s_scfence);
		s_scfence.join(s_vc[t]);
	}
	if(rel(mo)) {
		s_rel[t] = s_vc[t];
		s_hasRel[t] = true;
	}
}
} // namespace mm
} // namespace sim

using namespace sim::mm;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void* p) { plain(p, n, false); } \
	void __tsan_write##n(void* p) { plain(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { plain(p, n, false); } \
	void __tsan_unaligned_write##n(void* p) { plain(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { plain(p, n, false); } \
	void __tsan_volatile_write##n(void* p) { plain(p, n, true); } \
	void __tsan_unaligned_volatile_read##n(void* p) { plain(p, n, false); } \
	void __tsan_unaligned_volatile_write##n(void* p) { plain(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { plain(p, n, false); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, true); }
void __tsan_vptr_update(void** p, void*) { plain(p, 8, true); }
void __tsan_vptr_read(void** p) { plain(p, 8, false); }

#define AT(bits, T) \
	T __tsan_atomic##bits##_load(T const volatile* p, int mo) \
	{ \
		return inRegion(p) ? (T)load(p, sizeof(T), mo) : *p; \
	} \
	void __tsan_atomic##bits##_store(T volatile* p, T v, int mo) \
	{ \
		if(inRegion(p)) \
			store(p, sizeof(T), v, mo); \
		else \
			*p = v; \
	} \
	T __tsan_atomic##bits##_exchange(T volatile* p, T v, int mo) \
	{ \
		if(inRegion(p)) \
			return (T)rmw(p, sizeof(T), mo, [&](uint64_t) { return (uint64_t)v; }); \
		T r = *p; \
		*p = v; \
		return r; \
	} \
	int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* e, T v, int mo, int fmo) \
	{ \
		if(inRegion(p)) { \
			uint64_t x = *e; \
			bool r = cas(p, sizeof(T), x, v, mo, fmo); \
			*e = (T)x; \
			return r; \
		} \
		if(*p == *e) { \
			*p = v; \
			return 1; \
		} \
		*e = *p; \
		return 0; \
	} \
	int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* e, T v, int mo, int fmo) \
	{ \
		return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); \
	} \
	T __tsan_atomic##bits##_compare_exchange_val(T volatile* p, T e, T v, int mo, int fmo) \
	{ \
		__tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); \
		return e; \
	}
#define ATOP(bits, T, name, expr) \
	T __tsan_atomic##bits##_fetch_##name(T volatile* p, T v, int mo) \
	{ \
		if(inRegion(p)) \
			return (T)rmw(p, sizeof(T), mo, [&](uint64_t x_) { \
				T x = (T)x_; \
				return (uint64_t)(T)(expr); \
			}); \
		T x = *p; \
		*p = (T)(expr); \
		return x; \
	}
#define ATALL(bits, T) \
	AT(bits, T) \
	ATOP(bits, T, add, x + v) ATOP(bits, T, sub, x - v) ATOP(bits, T, and, x & v) ATOP(bits, T, or, x | v) \
	ATOP(bits, T, xor, x ^ v) ATOP(bits, T, nand, ~(x & v))
ATALL(8, uint8_t)
ATALL(16, uint16_t)
ATALL(32, uint32_t)
ATALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

void* __wrap_memcpy(void* d, void const* s, size_t n)
{
	plain(s, n, false);
	plain(d, n, true);
	return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, void const* s, size_t n)
{
	plain(s, n, false);
	plain(d, n, true);
	return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
	plain(d, n, true);
	return __real_memset(d, c, n);
}
}
