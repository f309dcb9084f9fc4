#include "kernel.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__has_feature)
#	if __has_feature(address_sanitizer)
#		define SIM_ASAN 1
#	endif
#elif defined(__SANITIZE_ADDRESS__)
#	define SIM_ASAN 1
#endif
#if defined(__SANITIZE_ADDRESS__) && !defined(SIM_ASAN)
#	define SIM_ASAN 1
#endif
#ifdef SIM_ASAN
#	include <sanitizer/asan_interface.h>
#	define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#	define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#	define POISON(p, n) ((void)0)
#	define UNPOISON(p, n) ((void)0)
#endif

namespace sim {

u64 mix(u64 a, u64 b)
{
	u64 x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
	x ^= x >> 30;
	x *= 0xbf58476d1ce4e5b9ull;
	x ^= x >> 27;
	x *= 0x94d049bb133111ebull;
	x ^= x >> 31;
	return x;
}

u64 hashBytes(u64 h, void const* p, size_t n)
{
	auto b = static_cast<unsigned char const*>(p);
	for(size_t i = 0; i < n; i++)
		h = (h ^ b[i]) * 0x100000001b3ull;
	return mix(h, n);
}

Rng::Rng(u64 seed)
{
	for(auto& s : m_s)
		s = seed = mix(seed, 0x1234567);
}

u64 Rng::next()
{
	auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
	u64 r = rotl(m_s[1] * 5, 7) * 9, t = m_s[1] << 17;
	m_s[2] ^= m_s[0];
	m_s[3] ^= m_s[1];
	m_s[1] ^= m_s[2];
	m_s[0] ^= m_s[3];
	m_s[2] ^= t;
	m_s[3] = rotl(m_s[3], 45);
	return r;
}

size_t Rng::weighted(std::vector<i64> const& w)
{
	i64 sum = 0;
	for(auto x : w)
		sum += x;
	if(sum <= 0)
		return 0;
	i64 r = (i64)below((u64)sum);
	for(size_t i = 0; i < w.size(); i++)
		if((r -= w[i]) < 0)
			return i;
	return 0;
}

std::string hex(void const* p, size_t n)
{
	static char const d[] = "0123456789abcdef";
	std::string s;
	auto b = static_cast<unsigned char const*>(p);
	for(size_t i = 0; i < n && i < 96; i++) {
		s += d[b[i] >> 4];
		s += d[b[i] & 15];
	}
	if(n > 96)
		s += "..(" + std::to_string(n) + ")";
	return s;
}

std::string content(u64 key, size_t len, int style)
{
	static char const special[] = {
		0x1b, '_', '\\', 0x7f, '\r', '\n', 'E', 'C', 0, (char)0x80, (char)0xff, '@', 0x40, 'P'};
	std::string s(len, '\0');
	u64 x = mix(key, 77);
	for(size_t i = 0; i < len; i++) {
		x = mix(x, i);
		switch(style) {
		case 0: // binary
			s[i] = (char)x;
			break;
		case 1: // special characters
			s[i] = (x & 7) ? special[(x >> 8) % sizeof(special)] : (char)(x >> 16);
			break;
		case 2: // printable
			s[i] = (char)(' ' + (x >> 8) % 95);
			break;
		default: // few distinct values
			s[i] = (char)((x >> 8) & 1);
		}
	}
	return s;
}

////////////////////////////////////////////////////////////////////////////////////////
// Counters and history

struct Shared {
	u64 seed, step, hash;
};
static Shared s_dummy;
static Shared* s_shared = &s_dummy;
static std::map<std::string, u64> s_faults, s_probes;
static std::unordered_set<u64> s_states;

void Ctx::log(char const* fmt, ...)
{
	char buf[512];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	size_t len = std::min<size_t>((size_t)n, sizeof(buf) - 1);
	hash = hashBytes(hash, buf, len);
	s_shared->hash = hash;
	if(verbose)
		fprintf(stderr, "[%6llu %10lld] %s\n", (unsigned long long)step, (long long)now, buf);
}

void Ctx::logBytes(char const* what, i64 who, void const* p, size_t n)
{
	hash = hashBytes(mix(hash, (u64)who), p, n);
	hash = hashBytes(hash, what, strlen(what));
	s_shared->hash = hash;
	if(verbose)
		fprintf(stderr, "[%6llu %10lld] %s %lld: %s\n", (unsigned long long)step, (long long)now,
			what, (long long)who, hex(p, n).c_str());
}

void Ctx::fail(char const* c, char const* fmt, ...)
{
	if(failed || (only && strncmp(c, only, strlen(only))))
		return;
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	failed = true;
	cls = c;
	msg = buf;
	if(verbose)
		fprintf(stderr, "[%6llu %10lld] VIOLATION %s: %s\n", (unsigned long long)step,
			(long long)now, c, buf);
}

void Ctx::fault(char const* name)
{
	s_faults[name]++;
	nontrivial = true;
}
void Ctx::probe(char const* name)
{
	s_probes[name]++;
}
void Ctx::state(u64 h)
{
	if(s_states.size() < 4000000)
		s_states.insert(h);
}

////////////////////////////////////////////////////////////////////////////////////////
// Arena

static char* const ArenaBase = reinterpret_cast<char*>(0x180000000000ull);
static size_t const ArenaSize = 512u << 20;
static size_t s_arenaTop, s_arenaHigh, s_arenaFloor;
static size_t s_arenaLive;
static bool s_arenaInit;
i64 arenaFailAfter = -1;
u64 arenaFailed;

static void arenaInit()
{
	void* p = mmap(ArenaBase, ArenaSize, PROT_READ | PROT_WRITE,
		       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if(p != ArenaBase) {
		fprintf(stderr, "SIM-ERROR: cannot map arena\n");
		_exit(98);
	}
	s_arenaInit = true;
	s_arenaTop = s_arenaHigh = 0;
}

bool inArena(void const* p)
{
	auto c = static_cast<char const*>(p);
	return c >= ArenaBase && c < ArenaBase + ArenaSize;
}

void* arenaAlloc(size_t n)
{
	if(!s_arenaInit)
		arenaInit();
	if(arenaFailAfter >= 0) {
		if(arenaFailAfter == 0) {
			arenaFailed++;
			throw std::bad_alloc();
		}
		arenaFailAfter--;
	}
	size_t pos = (s_arenaTop + 16 + 15) & ~(size_t)15;
	if(pos + n + 32 > ArenaSize) {
		fprintf(stderr, "SIM-ERROR: arena exhausted\n");
		_exit(98);
	}
	s_arenaTop = pos + ((n + 15) & ~(size_t)15) + 16;
	if(s_arenaTop > s_arenaHigh) {
		POISON(ArenaBase + s_arenaHigh, s_arenaTop - s_arenaHigh);
		s_arenaHigh = s_arenaTop;
	}
	char* p = ArenaBase + pos;
	UNPOISON(p, n);
	memset(p, 0xa7, n);
	s_arenaLive += n;
	return p;
}

void arenaFree(void* p, size_t n) noexcept
{
	if(!p)
		return;
	memset(p, 0xd7, n);
	POISON(p, (n + 15) & ~(size_t)15);
	s_arenaLive -= n;
}

void arenaReset()
{
	if(!s_arenaInit)
		arenaInit();
	POISON(ArenaBase + s_arenaFloor, s_arenaHigh - s_arenaFloor);
	s_arenaTop = s_arenaFloor;
	s_arenaLive = 0;
	arenaFailAfter = -1;
}

void arenaKeep()
{
	s_arenaFloor = s_arenaTop;
}

size_t arenaLive()
{
	return s_arenaLive;
}

////////////////////////////////////////////////////////////////////////////////////////
// Runs

struct Scenario {
	std::string property;
	u64 seed = 0;
	Config cfg;
	std::vector<Op> ops;
};

static u64 runSeed(u64 base, char const* prop, u64 i)
{
	return mix(mix(base, hashBytes(0, prop, strlen(prop))), i);
}

static Family const* findFamily(std::string const& prop)
{
	for(size_t i = 0; i < familyCount; i++)
		if(prop == families[i].property)
			return &families[i];
	fprintf(stderr, "SIM-ERROR: unknown property %s\n", prop.c_str());
	exit(99);
}

static void writeHead(FILE* f, Scenario const& s)
{
	fprintf(f, "# libstored simulation replay v1\nbinary %s\nproperty %s\nseed %llu\n", binaryName,
		s.property.c_str(), (unsigned long long)s.seed);
	for(auto const& c : s.cfg.v)
		fprintf(f, "config %s %lld\n", c.first.c_str(), (long long)c.second);
	fflush(f);
}

static void writeOp(FILE* f, Op const& op)
{
	fprintf(f, "op %lld %s", (long long)op.dt, op.kind.c_str());
	for(auto x : op.a)
		fprintf(f, " %lld", (long long)x);
	fprintf(f, "\n");
	fflush(f);
}

static void armTimer(int secs)
{
	struct itimerval t = {};
	t.it_value.tv_sec = secs;
	setitimer(ITIMER_PROF, &t, nullptr);
}

static void onHang(int)
{
	static char const m[] = "SIM-HANG: step does not terminate\n";
	if(write(2, m, sizeof(m) - 1)) {
	}
	_exit(97);
}

// ops == nullptr: generate from rng, else execute those.
static void run(Family const& f, Scenario& s, Ctx& ctx, bool generate, Rng* rng, FILE* record)
{
	arenaReset();
	s_shared->seed = s.seed;
	s_shared->step = 0;
	armTimer(30);
	{
		std::unique_ptr<World> w(f.make(ctx, s.cfg));
		size_t n = generate ? (size_t)s.cfg.get("nops") : s.ops.size();
		for(size_t i = 0; i < n && !ctx.failed; i++) {
			Op g;
			if(generate) {
				g = w->gen(*rng);
				if(record)
					writeOp(record, g);
			}
			Op const& op = generate ? g : s.ops[i];
			ctx.step = i + 1;
			s_shared->step = ctx.step;
			ctx.now += op.dt;
			if(ctx.verbose) {
				std::string a;
				for(auto x : op.a)
					a += " " + std::to_string(x);
				fprintf(stderr, "[%6llu %10lld] == %s%s\n", (unsigned long long)ctx.step,
					(long long)ctx.now, op.kind.c_str(), a.c_str());
			}
			ctx.hash = hashBytes(ctx.hash, op.kind.data(), op.kind.size());
			w->exec(op);
		}
		if(!ctx.failed) {
			ctx.step = n + 1;
			w->finish();
		}
	}
	armTimer(0);
	ctx.hash = mix(ctx.hash, ctx.failed);
}

static std::string json(std::string const& s)
{
	std::string r = "\"";
	for(char ch : s) {
		auto c = (unsigned char)ch;
		if(c == '"' || c == '\\') {
			r += '\\';
			r += ch;
		} else if(c < 0x20 || c >= 0x7f) {
			char b[8];
			snprintf(b, sizeof(b), "\\u%04x", c);
			r += b;
		} else
			r += ch;
	}
	return r + "\"";
}

static void genScenario(Family const& f, u64 base, u64 index, Scenario& s, std::unique_ptr<Rng>& rng)
{
	s.property = f.property;
	s.seed = index;
	rng.reset(new Rng(runSeed(base, f.property, index)));
	// Mostly short runs; some long.
	i64 span = f.maxOps - f.minOps;
	i64 r = (i64)rng->below(100);
	i64 n = f.minOps + (r < 50 ? rng->range(0, span / 8) : r < 85 ? rng->range(0, span / 3)
							      : rng->range(0, span));
	s.cfg["nops"] = n;
	f.config(*rng, s.cfg);
}

static void result(Ctx const& ctx, u64 seed)
{
	printf("{\"seed\":%llu,\"hash\":\"%016llx\",\"failed\":%d,\"steps\":%llu,\"now\":%lld,\"cls\":%s,\"msg\":%s}\n",
	       (unsigned long long)seed, (unsigned long long)ctx.hash, (int)ctx.failed,
	       (unsigned long long)ctx.step, (long long)ctx.now, json(ctx.cls).c_str(),
	       json(ctx.msg).c_str());
	fflush(stdout);
}

static int batch(Family const& f, u64 base, u64 first, u64 stride, u64 count, double secs, char const* dump)
{
	auto t0 = std::chrono::steady_clock::now();
	u64 runs = 0, steps = 0, nontrivial = 0;
	i64 simus = 0;
	std::unordered_set<u64> hashes;
	for(u64 k = 0; k < count; k++) {
		if(secs > 0
		   && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs)
			break;
		Scenario s;
		std::unique_ptr<Rng> rng;
		genScenario(f, base, first + k * stride, s, rng);
		Ctx ctx;
		run(f, s, ctx, true, rng.get(), nullptr);
		runs++;
		steps += ctx.step;
		simus += ctx.now;
		if(ctx.nontrivial) {
			nontrivial++;
			hashes.insert(ctx.hash);
		}
		if(secs <= 0 || ctx.failed)
			result(ctx, s.seed);
		if(ctx.failed)
			break;
	}
	if(dump) {
		FILE* o = fopen(dump, "wb");
		if(o) {
			for(auto h : hashes)
				fwrite(&h, 8, 1, o);
			fclose(o);
			std::string sd = std::string(dump) + ".states";
			if((o = fopen(sd.c_str(), "wb"))) {
				for(auto h : s_states)
					fwrite(&h, 8, 1, o);
				fclose(o);
			}
		}
	}
	printf("{\"summary\":1,\"runs\":%llu,\"steps\":%llu,\"sim_us\":%lld,\"nontrivial\":%llu,\"faults\":{",
	       (unsigned long long)runs, (unsigned long long)steps, (long long)simus,
	       (unsigned long long)nontrivial);
	char const* sep = "";
	for(auto const& x : s_faults) {
		printf("%s%s:%llu", sep, json(x.first).c_str(), (unsigned long long)x.second);
		sep = ",";
	}
	printf("},\"probes\":{");
	sep = "";
	for(auto const& x : s_probes) {
		printf("%s%s:%llu", sep, json(x.first).c_str(), (unsigned long long)x.second);
		sep = ",";
	}
	printf("}}\n");
	fflush(stdout);
	return 0;
}

static bool load(char const* fn, Scenario& s)
{
	std::ifstream in(fn);
	if(!in)
		return false;
	std::string line;
	while(std::getline(in, line)) {
		std::istringstream l(line);
		std::string k;
		l >> k;
		if(k == "property")
			l >> s.property;
		else if(k == "seed")
			l >> s.seed;
		else if(k == "config") {
			std::string n;
			i64 v = 0;
			l >> n >> v;
			s.cfg.v[n] = v;
		} else if(k == "op") {
			Op op;
			l >> op.dt >> op.kind;
			i64 v;
			while(l >> v)
				op.a.push_back(v);
			s.ops.push_back(op);
		}
	}
	return true;
}
} // namespace sim

int main(int argc, char** argv)
{
	using namespace sim;
	signal(SIGPROF, onHang);
	signal(SIGPIPE, SIG_IGN);
	if(char const* sf = getenv("SIM_STATE")) {
		int fd = open(sf, O_RDWR | O_CREAT, 0666);
		if(fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) {
			void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if(p != MAP_FAILED)
				s_shared = static_cast<Shared*>(p);
		}
	}
	std::string cmd = argc > 1 ? argv[1] : "";
	bool verbose = getenv("SIM_VERBOSE") != nullptr;
	if(cmd == "batch" && argc >= 8)
		// batch PROP BASE FIRST STRIDE COUNT SECS [DUMP]
		return batch(*findFamily(argv[2]), strtoull(argv[3], nullptr, 0),
			     strtoull(argv[4], nullptr, 0), strtoull(argv[5], nullptr, 0),
			     strtoull(argv[6], nullptr, 0), atof(argv[7]), argc > 8 ? argv[8] : nullptr);
	if(cmd == "gen" && argc >= 6) {
		// gen PROP BASE INDEX FILE
		Family const& f = *findFamily(argv[2]);
		Scenario s;
		std::unique_ptr<Rng> rng;
		genScenario(f, strtoull(argv[3], nullptr, 0), strtoull(argv[4], nullptr, 0), s, rng);
		FILE* o = fopen(argv[5], "w");
		if(!o)
			return 99;
		writeHead(o, s);
		Ctx ctx;
		ctx.verbose = verbose;
		run(f, s, ctx, true, rng.get(), o);
		fclose(o);
		result(ctx, s.seed);
		return 0;
	}
	if(cmd == "replay" && argc >= 3) {
		Scenario s;
		if(!load(argv[2], s))
			return 99;
		Ctx ctx;
		ctx.verbose = verbose;
		run(*findFamily(s.property), s, ctx, false, nullptr, nullptr);
		result(ctx, s.seed);
		return 0;
	}
	fprintf(stderr, "usage: %s batch PROP BASE FIRST STRIDE COUNT SECS [DUMP] | gen PROP BASE INDEX FILE | replay FILE\n",
		argv[0]);
	return 99;
}
