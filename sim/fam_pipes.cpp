// P24: networks of pipes, with simulated clocks for the rate limits, against a reference model.
#include "kernel.h"

#include <stored>
#include <libstored/pipes.h>

#include <chrono>
#include <functional>

namespace sim {
namespace {
enum { Nodes = 10 };

// Every clock is simulated; jumps are decided by the scheduler.
struct SimClock {
	typedef i64 rep;
	typedef std::micro period;
	typedef std::chrono::duration<rep, period> duration;
	typedef std::chrono::time_point<SimClock> time_point;
	static bool const is_steady = false;
	static i64 t;
	static time_point now() { return time_point(duration(t)); }
};
i64 SimClock::t;

template <typename T>
T val(i64 x);
template <>
int val<int>(i64 x)
{
	return (int)x;
}
template <>
std::string val<std::string>(i64 x)
{
	return x ? "a value that does not fit in a small string " + std::to_string(x) : std::string();
}
i64 num(int x) { return x; }
i64 num(std::string const& s)
{
	return s.empty() ? 0 : strncmp(s.c_str(), "a value", 7) ? -1 : atoll(s.c_str() + s.rfind(' '));
}

// Values are the same if they are close. This is not transitive.
bool near(i64 a, i64 b) { return a - b <= 4 && b - a <= 4; }
template <typename T>
struct Near {
	bool operator()(T const& a, T const& b) const { return near(num(a), num(b)); }
};

template <typename T>
struct Plus3 {
	T exit_cast(T x) const { return val<T>(num(x) + 3); }
	T entry_cast(T x) const { return val<T>(num(x) - 3); }
};

// Something that lives outside of the pipes, such as a variable in a store.
template <typename T>
struct Object {
	T x{};
	std::function<void(T const&)> onSet;
	T get() const { return x; }
	void set(T const& v)
	{
		x = v;
		onSet(v);
	}
};

enum Kind { KSink, KRate, KRateNear, KChanges, KTriggered, KTee, KOpen, KOpenRate, KRateRate, KMuxed, KTransistor, KPlain,
	KChangesNear, KOpenTriggered, KConvert, KGate, KGateInv, KSet, KSignal, KindCount };

// The reference of one node.
struct Model {
	Kind kind = KSink;
	int t[2] = {-1, -1};
	i64 interval = 0;  // us
	i64 interval2 = 0; // of the second rate limit in the same pipe
	bool buffered = true;
	i64 buf = 0; // what extract() gives
	i64 prev = 0;	// last value, to determine changes
	bool held = false;
	i64 deadline = INT64_MIN;
	bool changed = false;
	i64 pass2prev = 0;
	bool held2 = false;
	i64 deadline2 = INT64_MIN;
	int conn = -1;
	int aux = 0; // which gate, object, signal
};

template <typename T>
struct PipeWorld : public World {
	typedef stored::pipes::Pipe<T, T> P;
	typedef std::chrono::milliseconds ms;
	stored::pipes::Group heap; // owns the pipes
	stored::pipes::Group groups[2];
	unsigned inGroup[2] = {0, 0};
	P* node[Nodes] = {};
	Model m[Nodes];
	int count = 0;
	std::vector<std::pair<int, i64>> got, want;
	stored::pipes::Pipe<size_t, T>* mux = nullptr;
	size_t muxSel = 0;
	int muxNode[2] = {0, 0};
	stored::pipes::Pipe<bool, bool>* gate[2] = {};
	bool gateM[2] = {false, false};
	Object<T> obj[2];
	i64 objM[2] = {0, 0};
	stored::pipes::Pipe<bool, T>* getter = nullptr;
	int getNode = 0;
	typedef stored::Signal<void*, void*, T> Sig;
	Sig sig[2]; // [0] is used by key, [1] is called for all
	unsigned conns[2][2] = {};
	i64 nextVal = 10;
	u64 passed = 0, heldBack = 0;

	PipeWorld(Ctx& c, Config const& g) : World(c, g)
	{
		using namespace stored::pipes;
		SimClock::t = 1000000;
		for(int i = 0; i < 2; i++) {
			gate[i] = &(Entry<bool>{} >> Buffer<bool>{} >> Ref{heap});
			obj[i].onSet = [this, i](T const& v) { got.emplace_back(200 + i, num(v)); };
		}
		count = (int)std::min<i64>(std::max<i64>(2, cfg.get("nodes", 4)), Nodes);
		for(int i = 0; i < count; i++) {
			char k[4] = {'k', (char)('0' + i), 0, 0};
			Model& x = m[i];
			x.kind = i ? (Kind)(std::max<i64>(0, cfg.get(k)) % KindCount) : KSink;
			k[0] = 't';
			u64 h = (u64)cfg.get(k);
			if(i) {
				x.t[0] = (int)(h % (u64)i);
				x.t[1] = (int)(h / 16 % (u64)i);
			}
			i64 iv = (i64)(h / 256 % 50);
			i64 iv2 = (i64)(h / 16384 % 50);
			i64 init = (h >> 24) & 1 ? (i64)(h >> 25) % 30 : 0;
			x.interval = iv * 1000;
			x.interval2 = iv2 * 1000;
			x.prev = init;
			auto& t0 = i ? *node[x.t[0]] : *(P*)nullptr;
			auto& t1 = i ? *node[x.t[1]] : *(P*)nullptr;
			switch(x.kind) {
			case KSink:
				node[i] = &(Entry<T>{} >> Call<T, void(T const&)>{[this, i](T const& v) { got.emplace_back(i, num(v)); }} >> Buffer<T>{val<T>(init)}
					    >> Ref{heap});
				x.buf = init;
				break;
			case KRate:
				node[i] = &(Entry<T>{} >> RateLimit<T, std::equal_to<T>, ms, SimClock>{t0, ms(iv), val<T>(init)} >> Buffer<T>{} >> Ref{heap});
				break;
			case KRateNear:
				node[i] = &(Entry<T>{} >> Buffer<T>{} >> RateLimit<T, Near<T>, ms, SimClock>{t0, ms(iv), val<T>(init)} >> Ref{heap});
				break;
			case KChanges:
				node[i] = &(Entry<T>{} >> Changes<T>{t0, val<T>(init)} >> Buffer<T>{} >> Ref{heap});
				break;
			case KTriggered:
				node[i] = &(Entry<T>{} >> Triggered<T, std::equal_to<T>, 2>{val<T>(init), t0, t1} >> Ref{heap});
				x.buf = init;
				break;
			case KTee:
				node[i] = &(Entry<T>{} >> Buffer<T>{} >> Tee<T, 2>{t0, t1} >> Ref{heap});
				break;
			case KOpen: {
				typedef decltype(Entry<T>{} >> Buffer<T>{val<T>(init)} >> Exit{}) Open;
				auto p = new Open(Entry<T>{} >> Buffer<T>{val<T>(init)} >> Exit{});
				x.buf = init;
				node[i] = p;
				heap.add(*p);
				break;
			}
			case KOpenRate: {
				typedef RateLimit<T, std::equal_to<T>, ms, SimClock> R;
				auto p = new auto(Entry<T>{} >> R{t0, ms(iv), val<T>(init)} >> Exit{});
				x.buffered = false;
				node[i] = p;
				heap.add(*p);
				break;
			}
			case KRateRate:
				// One pipe on a rate limit in between: Triggered, which feeds the rate limit when triggered.
				node[i] = &(Entry<T>{} >> Triggered<T>{val<T>(init), t0} >> RateLimit<T, std::equal_to<T>, ms, SimClock>{t1, ms(iv2), T{}}
					    >> Ref{heap});
				x.buf = init;
				break;
			case KMuxed:
				node[i] = &(Entry<T>{} >> Tee<T, 1>{t0} >> Changes<T>{t1, val<T>(init)} >> Ref{heap});
				x.buffered = false;
				break;
			case KTransistor:
				node[i] = &(Entry<T>{} >> Call<T, T(T)>{[](T v) { return val<T>(num(v) + 1); }} >> Tee<T, 1>{t0} >> Buffer<T>{val<T>(init)} >> Ref{heap});
				x.buf = init;
				break;
			case KChangesNear:
				node[i] = &(Entry<T>{} >> Changes<T, Near<T>>{t0, val<T>(init)} >> Buffer<T>{} >> Ref{heap});
				break;
			case KOpenTriggered: {
				auto p = new auto(Entry<T>{} >> Triggered<T>{val<T>(init), t0} >> Exit{});
				x.buf = init;
				node[i] = p;
				heap.add(*p);
				break;
			}
			case KConvert:
				node[i] = &(Entry<T>{} >> Buffer<T>{val<T>(init)} >> Convert<Plus3<T>>{} >> Tee<T, 1>{t0} >> Ref{heap});
				x.buf = init + 3;
				break;
			case KGate:
			case KGateInv:
				x.aux = (int)(h >> 23 & 1);
				if(x.kind == KGate)
					node[i] = &(Entry<T>{} >> Transistor<T>{*gate[x.aux]} >> Buffer<T>{} >> Tee<T, 1>{t0} >> Ref{heap});
				else
					node[i] = &(Entry<T>{} >> Transistor<T, true>{*gate[x.aux]} >> Buffer<T>{} >> Tee<T, 1>{t0} >> Ref{heap});
				break;
			case KSet:
				x.aux = (int)(h >> 23 & 1);
				node[i] = &(Entry<T>{} >> Set<T, Object<T>&>{obj[x.aux]} >> Tee<T, 1>{t0} >> Ref{heap});
				break;
			case KSignal:
				x.aux = (int)(h >> 22 & 3);
				node[i] = x.aux < 2
						? &(Entry<T>{} >> Buffer<T>{val<T>(init)} >> stored::pipes::Signal<T>{sig[0], (void*)(size_t)(16 + x.aux)} >> Tee<T, 1>{t0}
						    >> Ref{heap})
						: &(Entry<T>{} >> Buffer<T>{val<T>(init)} >> stored::pipes::Signal<T>{sig[1]} >> Tee<T, 1>{t0} >> Ref{heap});
				x.buf = init;
				x.buffered = false;
				break;
			default:
				x.kind = KPlain;
				node[i] = &(Entry<T>{} >> Tee<T, 2>{t0, t1} >> Identity<T>{} >> Exit{} >> Ref2{heap});
				x.buffered = false;
			}
		}
		for(int i = 0; i < 2; i++)
			muxNode[i] = (int)(((u64)cfg.get("mux") >> (8 * i)) % (u64)count);
		getNode = (int)(((u64)cfg.get("mux") >> 16) % (u64)count);
		getter = &(Entry<bool>{} >> Get<T, Object<T>&>{obj[0]} >> Tee<T, 1>{*node[getNode]} >> Ref{heap});
		mux = &(Entry<size_t>{} >> Mux<T, 2>{*node[muxNode[0]], *node[muxNode[1]]} >> Ref{heap});
	}
	// An open pipe on the heap
	struct Ref2 {
		stored::pipes::Group& g;
		template <typename Open>
		friend P& operator>>(Open&& o, Ref2 r)
		{
			auto p = new std::decay_t<Open>(std::move(o));
			r.g.add(*p);
			return *p;
		}
	};
	~PipeWorld() override { heap.destroy(); }

	///////////////////////////////////////////////////////////////
	// Reference

	void rate(i64 x, bool same, i64& prev, bool& held, i64& deadline, i64 interval, int target)
	{
		if(same)
			return;
		prev = x;
		if(SimClock::t > deadline) {
			held = false;
			deadline = SimClock::t + interval;
			passed++;
			inject(target, x);
		} else {
			held = true;
			heldBack++;
		}
	}

	void signalled(Model const& x, i64 v)
	{
		int s = x.aux < 2 ? 0 : 1;
		unsigned n = s ? conns[1][0] + conns[1][1] : conns[0][x.aux];
		for(unsigned i = 0; i < n; i++)
			want.emplace_back(s ? 110 : 100 + x.aux, v);
	}

	// What extract() gives, if that is specified.
	bool extracted(int i, i64& v)
	{
		Model const& x = m[i];
		v = x.kind == KSet ? objM[x.aux] : x.buf;
		if(x.kind == KSignal) {
			// Extraction signals too.
			signalled(x, v);
			return true;
		}
		return x.buffered && x.kind != KRateRate;
	}

	bool isOpen(int i) const { return m[i].kind == KOpen || m[i].kind == KOpenRate || m[i].kind == KPlain || m[i].kind == KOpenTriggered; }

	void connectTo(int i, int t)
	{
		m[i].conn = t;
		// A buffer forwards its contents immediately.
		if(m[i].kind == KOpen || m[i].kind == KOpenTriggered)
			inject(t, m[i].buf);
	}

	// What comes out of the node
	i64 inject(int i, i64 v)
	{
		Model& x = m[i];
		switch(x.kind) {
		case KSink:
			want.emplace_back(i, v);
			x.buf = v;
			break;
		case KRate:
			rate(v, x.prev == v, x.prev, x.held, x.deadline, x.interval, x.t[0]);
			x.buf = v;
			break;
		case KRateNear:
			x.buf = v;
			rate(v, near(x.prev, v), x.prev, x.held, x.deadline, x.interval, x.t[0]);
			break;
		case KChanges:
			if(x.prev != v) {
				x.prev = v;
				inject(x.t[0], v);
			}
			x.buf = v;
			break;
		case KTriggered:
			if(x.buf != v)
				x.changed = true;
			x.buf = v;
			break;
		case KTee:
			x.buf = v;
			inject(x.t[0], v);
			inject(x.t[1], v);
			break;
		case KOpen:
			x.buf = v;
			break;
		case KOpenRate:
			rate(v, x.prev == v, x.prev, x.held, x.deadline, x.interval, x.t[0]);
			break;
		case KRateRate:
			if(x.buf != v)
				x.changed = true;
			x.buf = v;
			rate(v, x.pass2prev == v, x.pass2prev, x.held2, x.deadline2, x.interval2, x.t[1]);
			break;
		case KMuxed:
			inject(x.t[0], v);
			if(x.prev != v) {
				x.prev = v;
				inject(x.t[1], v);
			}
			break;
		case KTransistor:
			v++;
			inject(x.t[0], v);
			x.buf = v;
			break;
		case KChangesNear:
			if(!near(x.prev, v)) {
				x.prev = v;
				inject(x.t[0], v);
			}
			x.buf = v;
			break;
		case KOpenTriggered:
			if(x.buf != v)
				x.changed = true;
			x.buf = v;
			break;
		case KConvert:
			v += 3;
			x.buf = v;
			inject(x.t[0], v);
			break;
		case KGate:
		case KGateInv:
			if(gateM[x.aux] == (x.kind == KGateInv))
				v = 0;
			x.buf = v;
			inject(x.t[0], v);
			break;
		case KSet:
			want.emplace_back(200 + x.aux, v);
			objM[x.aux] = v;
			inject(x.t[0], v);
			break;
		case KSignal:
			x.buf = v;
			signalled(x, v);
			inject(x.t[0], v);
			break;
		default:
			inject(x.t[0], v);
			inject(x.t[1], v);
		}
		if(x.conn >= 0)
			inject(x.conn, v);
		return v;
	}

	// True if something was passed; v is what comes out
	bool trigger(int i, i64& v, bool& known)
	{
		Model& x = m[i];
		known = true;
		switch(x.kind) {
		case KRate:
		case KRateNear:
		case KOpenRate: {
			bool t = x.held && x.deadline < SimClock::t;
			v = x.prev;
			if(t) {
				x.held = false;
				passed++;
				inject(x.t[0], v);
				if(x.kind == KRate)
					x.buf = v;
				if(x.conn >= 0)
					inject(x.conn, v);
			}
			return t;
		}
		case KTriggered:
		case KOpenTriggered:
		case KRateRate: {
			bool t = x.changed;
			v = x.buf;
			if(t) {
				x.changed = false;
				inject(x.t[0], v);
				if(x.kind == KTriggered)
					inject(x.t[1], v);
				else if(x.kind == KOpenTriggered) {
					if(x.conn >= 0)
						inject(x.conn, v);
				} else
					rate(v, x.pass2prev == v, x.pass2prev, x.held2, x.deadline2, x.interval2, x.t[1]);
			}
			return t;
		}
		default:
			known = false;
			return false;
		}
	}

	///////////////////////////////////////////////////////////////

	i64 someOpen(Rng& rng, int below)
	{
		if(below < 1)
			return 0;
		i64 x = (i64)rng.below((u64)below);
		for(int k = 0; k < below && !isOpen((int)x); k++)
			x = (x + 1) % below;
		return x;
	}

	Op gen(Rng& rng) override
	{
		switch(rng.weighted({40, 20, 6, 20, 6, 5, 5, 3, 5, 3, 3, 4, 3})) {
		case 0: return Op("inject", {(i64)rng.below((u64)count), rng.chance(400) ? rng.range(0, 40) : 0});
		case 1: return Op("trigger", {(i64)rng.below((u64)count), (i64)rng.below(2)});
		case 2: return Op("gtrigger", {(i64)rng.below(2)});
		case 3:
			return Op("clock", {rng.chance(100)   ? -rng.range(1, 60000)
					    : rng.chance(300) ? rng.range(0, 1000)
					    : rng.chance(500) ? 1000 * rng.range(0, 50) + rng.range(-1, 1)
							      : rng.range(0, 60000)});
		case 4: return Op("group", {(i64)rng.below(2), (i64)rng.below(1u << Nodes), (i64)rng.below(2)});
		case 5: {
			i64 i = someOpen(rng, count);
			return Op("connect", {i, (i64)rng.below((u64)(rng.chance(800) ? std::max<i64>(1, i) : count)), (i64)rng.chance(300)});
		}
		case 6: return Op("mux", {(i64)rng.below(4), (i64)rng.below(3)});
		case 7: return Op("copy", {(i64)rng.below((u64)count)});
		case 8: {
			i64 i = someOpen(rng, count);
			return Op("extend", {i, someOpen(rng, (int)i)});
		}
		case 9: return Op("gate", {(i64)rng.below(2), (i64)rng.below(2)});
		case 10: return Op("object", {(i64)rng.below(2), rng.range(0, 40)});
		case 11: return Op("get", {(i64)rng.below(4)});
		default: return Op("signal", {(i64)rng.below(2), (i64)rng.below(2), (i64)rng.below(3)});
		}
	}

	// What happens when the interval is over exactly now is not specified.
	void settle()
	{
		for(bool again = true; again;) {
			again = false;
			for(int i = 0; i < count; i++)
				if(m[i].deadline == SimClock::t || m[i].deadline2 == SimClock::t) {
					SimClock::t++;
					again = true;
				}
		}
	}

	void check(char const* what)
	{
		if(got.size() != want.size() || got != want) {
			size_t i = 0;
			while(i < got.size() && i < want.size() && got[i] == want[i])
				i++;
			if(i < got.size() && i < want.size())
				ctx.fail("output", "%s: value %lld comes out of pipe %d, expected %lld out of pipe %d", what, (long long)got[i].second, got[i].first,
					(long long)want[i].second, want[i].first);
			else if(i < got.size())
				ctx.fail("output", "%s: value %lld comes out of pipe %d, while it should not (yet)", what, (long long)got[i].second, got[i].first);
			else
				ctx.fail("output", "%s: value %lld does not come out of pipe %d", what, (long long)want[i].second, want[i].first);
		}
		got.clear();
		want.clear();
		for(int i = 0; i < count && !ctx.failed; i++) {
			i64 w;
			if(m[i].kind == KSignal || !extracted(i, w))
				continue;
			i64 v = num(node[i]->extract().get());
			if(v != w)
				ctx.fail("extract", "%s: pipe %d holds %lld, expected %lld", what, i, (long long)v, (long long)w);
		}
	}

	void exec(Op const& op) override
	{
		int i = (int)((u64)op.arg(0) % (u64)count);
		settle();
		if(op.is("inject")) {
			i64 v = op.arg(1) > 0 ? op.arg(1) : nextVal++;
			if(v > 1000000)
				return;
			i64 w = inject(i, v);
			T y = val<T>(v);
			auto r = node[i]->inject(y);
			if(num(r.get()) != w)
				ctx.fail("return", "injecting %lld gives %lld", (long long)v, (long long)num(r.get()));
			ctx.log("inject %d %lld", i, (long long)v);
			check("inject");
			ctx.nontrivial = true;
		} else if(op.is("trigger")) {
			bool t = false, known;
			i64 v = 0;
			bool tr = trigger(i, v, known);
			T out = val<T>(77);
			if(op.arg(1))
				static_cast<stored::pipes::PipeExit<T>*>(node[i])->trigger(&t, out);
			else
				static_cast<stored::pipes::PipeEntry<T>*>(node[i])->trigger(&t);
			ctx.log("trigger %d -> %d", i, t);
			if(t != tr)
				ctx.fail("trigger", "a trigger reports %d, expected %d", t, tr);
			if(known && op.arg(1) && num(out) != v)
				ctx.fail("trigger", "a trigger gives %lld, expected %lld", (long long)num(out), (long long)v);
			check("trigger");
		} else if(op.is("gtrigger")) {
			int g = (int)((u64)op.arg(0) % 2);
			// The order is not specified (a set of pointers); it may matter when they feed each other.
			bool tr = false;
			for(auto* p : groups[g])
				for(int k = 0; k < count; k++)
					if(node[k] == p) {
						i64 v;
						bool known;
						if(trigger(k, v, known))
							tr = true;
					}
			bool t = !tr;
			groups[g].trigger(&t);
			ctx.log("gtrigger %d -> %d", g, t);
			if(t != tr)
				ctx.fail("trigger", "a trigger of a group reports %d, expected %d", t, tr);
			check("group trigger");
		} else if(op.is("clock")) {
			i64 d = std::min<i64>(std::max<i64>(-10000000, op.arg(0)), 10000000);
			if(d < 0)
				ctx.fault("clock-backwards");
			SimClock::t = std::max<i64>(1, SimClock::t + d);
			ctx.now += std::max<i64>(0, d);
		} else if(op.is("group")) {
			int g = (int)((u64)op.arg(0) % 2);
			for(int k = 0; k < count; k++)
				if(op.arg(1) >> k & 1) {
					if(op.arg(2)) {
						groups[g].add(*node[k]);
						inGroup[g] |= 1u << k;
					} else {
						groups[g].remove(*node[k]);
						inGroup[g] &= ~(1u << k);
					}
				}
			if(groups[g].size() != (size_t)__builtin_popcount(inGroup[g]))
				ctx.fail("group", "a group has %zu pipes, expected %d", groups[g].size(), __builtin_popcount(inGroup[g]));
		} else if(op.is("connect")) {
			Model& x = m[i];
			int t = (int)((u64)op.arg(1) % (u64)count);
			if(!isOpen(i))
				return;
			if(op.arg(2) || t >= i) {
				x.conn = -1;
				node[i]->disconnect();
			} else {
				connectTo(i, t);
				node[i]->connect(*node[t]);
			}
			if(node[i]->connected() != (x.conn >= 0))
				ctx.fail("connect", "a pipe reports that it is connected: %d", node[i]->connected());
			ctx.log("connect %d %d", i, x.conn);
			check("connect");
		} else if(op.is("mux")) {
			size_t s = (size_t)(u64)op.arg(0) % 4;
			i64 w = 0;
			if(op.arg(1) == 0) {
				muxSel = s;
				bool known = s < 2 && extracted(muxNode[s], w);
				auto r = mux->inject(s);
				if(known && num(r.get()) != w)
					ctx.fail("mux", "a multiplexer gives %lld, expected %lld", (long long)num(r.get()), (long long)w);
				if(s >= 2 && num(r.get()))
					ctx.fail("mux", "a multiplexer gives %lld, while nothing is selected", (long long)num(r.get()));
			} else if(op.arg(1) == 1) {
				bool known = muxSel < 2 && extracted(muxNode[muxSel], w);
				auto r = mux->extract();
				if(known && num(r.get()) != w)
					ctx.fail("mux", "a multiplexer gives %lld, expected %lld", (long long)num(r.get()), (long long)w);
			} else {
				bool t = false, known = false, tr = false;
				i64 v = 0;
				if(muxSel < 2)
					tr = trigger(muxNode[muxSel], v, known);
				static_cast<stored::pipes::PipeBase*>(mux)->trigger(&t);
				if(t != tr)
					ctx.fail("trigger", "a trigger of a multiplexer reports %d, expected %d", t, tr);
			}
			check("mux");
		} else if(op.is("copy")) {
			// Whatever comes out can be moved along.
			i64 w;
			if(m[i].kind == KSignal || !extracted(i, w))
				return;
			auto a = node[i]->extract();
			auto b = std::move(a);
			T x{};
			*node[i] >> x;
			if(num(b.get()) != w || num(x) != w)
				ctx.fail("extract", "a moved value is %lld, expected %lld", (long long)num(b.get()), (long long)w);
			check("copy");
		} else if(op.is("extend")) {
			// Insert an open pipe in between.
			int p = (int)((u64)op.arg(1) % (u64)count);
			if(!isOpen(i) || !isOpen(p) || p >= i || m[i].conn >= p)
				return;
			if(m[i].conn >= 0)
				connectTo(p, m[i].conn);
			else
				m[p].conn = -1;
			connectTo(i, p);
			node[i]->extend(*node[p]);
			for(int k : {i, p})
				if(node[k]->connection() != (m[k].conn < 0 ? nullptr : static_cast<stored::pipes::PipeEntry<T>*>(node[m[k].conn])))
					ctx.fail("connect", "a pipe is not connected as expected after inserting one");
			ctx.log("extend %d %d", i, p);
			ctx.probe("extend");
			check("extend");
		} else if(op.is("gate")) {
			int g = (int)((u64)op.arg(0) % 2);
			gateM[g] = op.arg(1) & 1;
			gate[g]->inject(gateM[g]);
			check("gate");
		} else if(op.is("object")) {
			int o = (int)((u64)op.arg(0) % 2);
			objM[o] = std::max<i64>(0, op.arg(1) % 1000);
			obj[o].x = val<T>(objM[o]);
			check("object");
		} else if(op.is("get")) {
			i64 v = objM[0];
			bool t = false;
			switch((u64)op.arg(0) % 4) {
			case 0: {
				inject(getNode, v);
				auto r = getter->inject(false);
				if(num(r.get()) != v)
					ctx.fail("get", "injecting a getter gives %lld, expected %lld", (long long)num(r.get()), (long long)v);
				break;
			}
			case 1: {
				auto r = getter->extract();
				if(num(r.get()) != v)
					ctx.fail("get", "a getter gives %lld, expected %lld", (long long)num(r.get()), (long long)v);
				break;
			}
			case 2: {
				inject(getNode, v);
				T out = val<T>(77);
				static_cast<stored::pipes::PipeExit<T>*>(getter)->trigger(&t, out);
				if(num(out) != v || !t)
					ctx.fail("get", "triggering a getter gives %lld (%d), expected %lld", (long long)num(out), t, (long long)v);
				break;
			}
			default:
				inject(getNode, v);
				static_cast<stored::pipes::PipeEntry<bool>*>(getter)->trigger(&t);
				if(!t)
					ctx.fail("get", "triggering a getter is not reported");
			}
			check("get");
		} else if(op.is("signal")) {
			int s = (int)((u64)op.arg(0) % 2);
			int k = (int)((u64)op.arg(1) % 2);
			void* key = (void*)(size_t)(16 + k);
			if(op.arg(2)) {
				if(conns[s][k] >= 3)
					return;
				conns[s][k]++;
				sig[s].connect(key, [this, s, k](T v) { got.emplace_back(s ? 110 : 100 + k, num(v)); });
			} else {
				conns[s][k] = 0;
				sig[s].disconnect(key);
			}
			if(sig[s].connected(key) != (conns[s][k] > 0))
				ctx.fail("signal", "a signal reports that it is connected: %d", sig[s].connected(key));
		}
		u64 h = (u64)count;
		for(int k = 0; k < count; k++)
			h = mix(h, (u64)m[k].kind * 8 + m[k].held * 4 + m[k].changed * 2 + (m[k].deadline > SimClock::t));
		ctx.state(h % 1000000);
		if(passed)
			ctx.probe("passed");
		if(heldBack)
			ctx.probe("held-back");
	}

	void finish() override
	{
		// When the clock goes on, and everything is triggered, nothing is held back.
		for(int round = 0; round < Nodes && !ctx.failed; round++) {
			i64 d = SimClock::t;
			for(int i = 0; i < count; i++)
				d = std::max(d, std::max(m[i].deadline, m[i].deadline2));
			SimClock::t = d + 1;
			for(int i = count - 1; i >= 0 && !ctx.failed; i--)
				exec(Op("trigger", {i, 0}));
		}
	}
};
} // namespace

static void pipeConfig(Rng& rng, Config& c)
{
	c["str"] = rng.chance(400);
	c["nodes"] = rng.range(2, Nodes);
	for(int i = 0; i < Nodes; i++) {
		char k[4] = {'k', (char)('0' + i), 0, 0};
		static Kind const open[] = {KOpen, KOpenRate, KPlain, KOpenTriggered};
		c[k] = rng.chance(350) ? rng.range(KRate, KRateNear) : rng.chance(200) ? open[rng.below(4)] : rng.range(0, KindCount - 1);
		k[0] = 't';
		c[k] = (i64)rng.below(1ull << 31);
	}
	c["mux"] = (i64)rng.below(1u << 24);
}
static World* makePipe(Ctx& c, Config const& cfg)
{
	if(cfg.get("str"))
		return new PipeWorld<std::string>(c, cfg);
	return new PipeWorld<int>(c, cfg);
}

char const* const binaryName = "pipes";
Family const families[] = {
	{"P24", pipeConfig, makePipe, 4, 100},
};
size_t const familyCount = sizeof(families) / sizeof(families[0]);
} // namespace sim
