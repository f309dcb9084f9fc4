// P18, P19: FIFOs between two simulated threads. This file and the library are compiled with -fsanitize=thread; memsim.cpp
// decides every interleaving and every value an atomic load returns.
#include "kernel.h"
#include "memsim.h"

#include <stored>
#include <libstored/fifo.h>

#include <algorithm>
#include <deque>
#include <functional>
#include <numeric>

using namespace sim;

namespace {

alignas(64) char s_obj[60000];

mm::Schedule schedule(Op const& o)
{
	mm::Schedule s;
	if(o.is("rnd")) {
		s.random = true;
		s.seed = (u64)o.arg(0);
		s.switchPermille = std::max<i64>(0, std::min<i64>(1000, o.arg(1)));
		s.stalePermille = std::max<i64>(0, std::min<i64>(1000, o.arg(2)));
		s.first = o.arg(3) == 2 ? 2 : 1;
	} else {
		s.first = o.arg(0) == 2 ? 2 : 1;
		for(size_t i = 1; i + 1 < o.a.size(); i += 2)
			s.points.emplace_back(std::max<i64>(0, o.a[i]), o.a[i + 1]);
	}
	return s;
}

Op genSchedule(Rng& r)
{
	if(r.chance(400)) {
		static i64 const sw[] = {2, 10, 30, 100, 300, 500};
		static i64 const st[] = {0, 0, 100, 500, 900};
		return Op("rnd", {(i64)(r.next() >> 1), sw[r.below(6)], st[r.below(5)], r.range(1, 2)});
	}
	Op o("go", {r.range(1, 2)});
	i64 n = r.range(1, 6);
	for(i64 i = 0; i < n; i++) {
		o.a.push_back(r.chance(300) ? r.range(0, 3) : r.chance(500) ? r.range(0, 20) : r.range(0, 120));
		o.a.push_back(r.chance(250));
	}
	return o;
}

void countSchedule(Ctx& ctx, u64 sw0, u64 st0)
{
	ctx.log("switches %llu stale %llu", (unsigned long long)(mm::switches() - sw0), (unsigned long long)(mm::staleReads() - st0));
	if(mm::switches() > sw0)
		ctx.fault("preemption");
	if(mm::staleReads() > st0)
		ctx.fault("stale-read");
}

// ---------------------------------------------------------------- P18

// Element types. Every value is derived from its sequence number.
struct Cell {
	u64 a = 0, b = 0;
	uint32_t c = 0;
};
struct Obj {
	static int live;
	Obj() : me(this) { live++; }
	explicit Obj(u64 x) : v(x), me(this), w(~x) { live++; }
	Obj(Obj const& o) : v(o.v), me(this), w(o.w) { live++; }
	Obj& operator=(Obj const& o)
	{
		if(me != this)
			broken = true;
		v = o.v;
		w = o.w;
		return *this;
	}
	~Obj()
	{
		if(me != this)
			broken = true;
		me = nullptr;
		live--;
	}
	u64 v = 0;
	Obj* me;
	u64 w = ~(u64)0;
	static bool broken;
};
int Obj::live;
bool Obj::broken;

template <typename T> T make(u64 i);
template <typename T> bool same(T const& x, u64 i);
template <> uint8_t make(u64 i) { return (uint8_t)(i * 7 + 3); }
template <> bool same(uint8_t const& x, u64 i) { return x == (uint8_t)(i * 7 + 3); }
template <> Cell make(u64 i) { Cell c; c.a = i; c.b = mix(i, 1); c.c = (uint32_t)mix(i, 2); return c; }
template <> bool same(Cell const& x, u64 i) { return x.a == i && x.b == mix(i, 1) && x.c == (uint32_t)mix(i, 2); }
template <> Obj make(u64 i) { return Obj(i + 1); }
template <> bool same(Obj const& x, u64 i) { return x.v == i + 1 && x.w == ~(i + 1) && x.me == &x; }

template <typename F> struct Emplace { static void go(F& f, u64 i) { f.emplace_back(make<typename F::type>(i)); } };
template <size_t C, bool S> struct Emplace<stored::Fifo<Obj, C, S>> { static void go(stored::Fifo<Obj, C, S>& f, u64 i) { f.emplace_back(i + 1); } };

struct FifoBase {
	u64 pushing = 0, pushed = 0;   // started, completed
	u64 popping = 0, popped = 0;
	bool unknown = false; // popped is a lower bound
	u64 popMax() const { return unknown ? pushing : popping; }
	u64 phasePopped = 0, phasePushed = 0; // completed before this phase
	i64 cap = 0; // <0: unbounded
	size_t waits = 0;
	virtual ~FifoBase() {}
	virtual void produce(Ctx& ctx, Op const& o) = 0;
	virtual void consume(Ctx& ctx, Op const& o) = 0;
	virtual void idle(Ctx& ctx) = 0;
	virtual void refill(Ctx& ctx) = 0;
};

template <typename T, size_t C>
struct FifoT : public FifoBase {
	typedef stored::Fifo<T, C> F;
	F* f;

	FifoT()
	{
		static_assert(sizeof(F) <= sizeof(s_obj), "");
		memset(s_obj, 0xa5, sizeof(F));
		f = new(s_obj) F();
		mm::watch(s_obj, sizeof(F));
		cap = C ? (i64)C : -1;
	}
	~FifoT() override { f->~F(); }

	// What the producer may see.
	size_t spaceP(Ctx& ctx)
	{
		u64 popped0 = phasePopped;
		size_t s = f->space();
		size_t a = f->available();
		if(C) {
			if(s > C)
				ctx.fail("space", "%zu elements of space in a FIFO of %zu", s, C);
			if(a > C)
				ctx.fail("available", "%zu elements are in a FIFO of %zu", a, C);
			if(s > C - (pushed - popMax()))
				ctx.fail("space", "%zu elements of space, while %llu of %zu are in use", s, (unsigned long long)(pushed - popMax()), C);
			if(s + pushed < C + popped0)
				ctx.fail("space", "only %zu elements of space, while at most %llu of %zu are in use", s, (unsigned long long)(pushed - popped0), C);
			if(f->full() && popped0 + C > pushed)
				ctx.fail("full", "full, with %llu of %zu elements", (unsigned long long)(pushed - popped0), C);
		} else if(s < 1000000)
			ctx.fail("space", "an unbounded FIFO has space for %zu elements", s);
		if(a < pushed - popMax() || a > pushed - popped0)
			ctx.fail("available", "the producer sees %zu elements, instead of %llu to %llu", a, (unsigned long long)(pushed - popMax()), (unsigned long long)(pushed - popped0));
		if(f->empty() && pushed > popMax())
			ctx.fail("empty", "empty with %llu elements", (unsigned long long)(pushed - popMax()));
		return s;
	}

	size_t availableC(Ctx& ctx)
	{
		size_t a = f->available();
		if((C && a > C) || popped + a > pushing)
			ctx.fail("available", "the consumer sees %zu elements, while %llu were pushed and %llu popped", a, (unsigned long long)pushing, (unsigned long long)popped);
		if(popped + a < phasePushed)
			ctx.fail("available", "the consumer sees %zu elements, instead of at least %llu", a, (unsigned long long)(phasePushed - popped));
		if(a && f->empty())
			ctx.fail("empty", "empty, but %zu elements are available", a);
		return a;
	}

	void produce(Ctx& ctx, Op const& o) override
	{
		size_t n = (size_t)std::max<i64>(0, std::min<i64>(o.arg(0), C ? (i64)C : 400));
		i64 how = o.arg(1) % 6;
		if(how == 3)
			n = std::min<size_t>(n, 4);
		if(how < 2 || how == 4) {
			// One by one.
			for(size_t i = 0; i < n && !ctx.failed; i++) {
				if(!spaceP(ctx) || ctx.failed) {
					ctx.probe("full");
					mm::yield();
					if(!spaceP(ctx) || ctx.failed)
						return;
				}
				pushing++;
				if(how == 0)
					f->push_back(make<T>(pushing - 1));
				else if(how == 1)
					Emplace<F>::go(*f, pushing - 1);
				else {
					T x[1] = {make<T>(pushing - 1)};
					f->push_back(&x[0], &x[1]);
				}
				pushed++;
			}
			return;
		}
		if(spaceP(ctx) < n) {
			ctx.probe("full");
			mm::yield();
			if(spaceP(ctx) < n)
				return;
		}
		if(ctx.failed)
			return;
		u64 at = pushing;
		if(how == 3) {
			pushing += n;
			switch(n) {
			case 0: f->push_back({}); break;
			case 1: f->push_back({make<T>(at)}); break;
			case 2: f->push_back({make<T>(at), make<T>(at + 1)}); break;
			case 3: f->push_back({make<T>(at), make<T>(at + 1), make<T>(at + 2)}); break;
			default: f->push_back({make<T>(at), make<T>(at + 1), make<T>(at + 2), make<T>(at + 3)});
			}
		} else {
			std::vector<T> v;
			v.reserve(n);
			for(size_t i = 0; i < n; i++)
				v.push_back(make<T>(at + i));
			pushing += n;
			f->push_back(v.data(), n);
		}
		pushed += n;
	}

	void check(Ctx& ctx, T const& x, u64 i, char const* how)
	{
		if(i >= pushing)
			ctx.fail("not-pushed", "element %llu is received, but only %llu were pushed", (unsigned long long)i, (unsigned long long)pushing);
		else if(!same(x, i))
			ctx.fail("wrong-element", "%s gives something else than element %llu", how, (unsigned long long)i);
	}

	// After clear, determine the position.
	void locate(Ctx& ctx)
	{
		if(!unknown || f->empty())
			return;
		T const& x = f->front();
		u64 i = popped;
		while(i < pushing && !same(x, i))
			i++;
		if(i == pushing) {
			ctx.fail("wrong-element", "something else than what was pushed after clear");
			return;
		}
		popped = popping = i;
		unknown = false;
	}

	void consume(Ctx& ctx, Op const& o) override
	{
		locate(ctx);
		if(unknown || ctx.failed)
			return;
		size_t a = availableC(ctx);
		if(ctx.failed)
			return;
		size_t n = (size_t)std::max<i64>(0, std::min<i64>(o.arg(0), (i64)a));
		if(!a)
			ctx.probe("empty");
		switch(o.arg(1) % 8) {
		case 0:
		case 1:
			for(size_t i = 0; i < n && !ctx.failed; i++) {
				if(f->empty()) {
					ctx.fail("empty", "empty, but %zu elements were available", n - i);
					return;
				}
				check(ctx, o.arg(1) & 1 ? f->front() : static_cast<F const&>(*f).front(), popped, "front");
				popping++;
				f->pop_front();
				popped++;
			}
			break;
		case 2:
		case 3:
			for(size_t i = 0; i < n && !ctx.failed; i++)
				check(ctx, o.arg(1) & 1 ? static_cast<F const&>(*f).peek(i) : (*f)[i], popped + i, "peek");
			popping += n;
			f->pop_front(n);
			popped += n;
			break;
		case 4: {
			typename F::View v = f->view();
			if(v.size() < a || popped + v.size() > pushing)
				ctx.fail("view", "a view has %zu elements, while %zu are available", v.size(), a);
			n = v.size();
			std::vector<T> d(n + 1), s(n + 1);
			v.copy(d.data());
			T const* c = v.contiguous(s.data());
			for(size_t i = 0; i < n && !ctx.failed; i++) {
				check(ctx, v[i], popped + i, "view");
				if(!std::is_same<T, Obj>::value || true)
					check(ctx, d[i], popped + i, "view copy");
				check(ctx, c[i], popped + i, "contiguous view");
			}
			u64 k = popped;
			for(auto it = v.begin(); it != v.end() && !ctx.failed; ++it)
				check(ctx, *it, k++, "view iterator");
			if(k != popped + n && !ctx.failed)
				ctx.fail("view", "iterating a view of %zu gives %llu", n, (unsigned long long)(k - popped));
			size_t l = n ? (size_t)o.arg(0) % (n + 1) : 0;
			typename F::View w = v;
			w.lstrip(l);
			if(w.size() != n - l || v.subview(l).size() != n - l || v.subview(0, l).size() != l)
				ctx.fail("view", "a part of a view has the wrong size");
			for(size_t i = 0; i < w.size() && !ctx.failed; i++)
				check(ctx, w[i], popped + l + i, "stripped view");
			w.rstrip(w.size() / 2);
			if(w.size() != (n - l) - (n - l) / 2)
				ctx.fail("view", "a stripped view has the wrong size");
			if(!w.empty() && !ctx.failed)
				check(ctx, w[w.size() - 1], popped + l + w.size() - 1, "stripped view");
			popping += l;
			f->pop_front(l);
			popped += l;
			break;
		}
		case 5: {
			size_t k = 0;
			for(auto it = f->begin(); it != f->end() && !ctx.failed; ) {
				check(ctx, *it, popped, "iterator");
				popping++;
				if(o.arg(0) & 1)
					++it;
				else {
					T x = *it++;
					check(ctx, x, popped, "iterator value");
				}
				popped++;
				k++;
			}
			if(k < a && !ctx.failed)
				ctx.fail("iterator", "iterating gives %zu of %zu elements", k, a);
			break;
		}
		case 6:
			if(std::is_same<T, uint8_t>::value)
				break;
			// What comes next tells how many were dropped.
			popped += a;
			unknown = true;
			f->clear();
			locate(ctx);
			break;
		default:
			break;
		}
	}

	void idle(Ctx& ctx) override
	{
		// Both threads are stopped; everything is visible.
		if(unknown) {
			locate(ctx);
			if(unknown) {
				popped = popping = pushed;
				unknown = false;
			}
		}
		if(f->available() != pushed - popped)
			ctx.fail("available", "%zu elements, instead of %llu", f->available(), (unsigned long long)(pushed - popped));
		else if(f->empty() != (pushed == popped))
			ctx.fail("empty", "empty() is %d, with %llu elements", (int)f->empty(), (unsigned long long)(pushed - popped));
		else if(C && f->space() != C - (pushed - popped))
			ctx.fail("space", "%zu of %zu elements of space with %llu elements", f->space(), C, (unsigned long long)(pushed - popped));
		else if(C && f->full() != (pushed - popped == C))
			ctx.fail("full", "full() is %d, with %llu elements", (int)f->full(), (unsigned long long)(pushed - popped));
	}

	void refill(Ctx& ctx) override
	{
		Op all("c", {1 << 30, 0});
		consume(ctx, all);
		if(!ctx.failed)
			idle(ctx);
		if(ctx.failed)
			return;
		if(pushed != popped) {
			ctx.fail("lost", "%llu elements did not come out", (unsigned long long)(pushed - popped));
			return;
		}
		produce(ctx, Op("p", {C ? (i64)C : 100, 0}));
		if(!ctx.failed && pushed - popped != (C ? C : 100))
			ctx.fail("space", "only %llu elements fit after draining", (unsigned long long)(pushed - popped));
		if(!ctx.failed)
			idle(ctx);
		if(!ctx.failed)
			consume(ctx, all);
		if(!ctx.failed)
			idle(ctx);
	}
};

template <typename T>
FifoBase* makeFifo(i64 c)
{
	switch(c) {
	case 0: return new FifoT<T, 0>();
	case 1: return new FifoT<T, 1>();
	case 2: return new FifoT<T, 2>();
	case 3: return new FifoT<T, 3>();
	case 4: return new FifoT<T, 7>();
	case 5: return new FifoT<T, 8>();
	case 6: return new FifoT<T, 200>();
	case 7: return new FifoT<T, 254>();
	case 8: return new FifoT<T, 255>();
	default: return new FifoT<T, 256>();
	}
}

class FifoWorld : public World {
public:
	std::unique_ptr<FifoBase> f;
	std::vector<Op> script[3];

	FifoWorld(Ctx& c, Config const& cfg_) : World(c, cfg_)
	{
		Obj::live = 0;
		Obj::broken = false;
		switch(cfg.get("type")) {
		case 0: f.reset(makeFifo<uint8_t>(cfg.get("cap"))); break;
		case 1: f.reset(makeFifo<Cell>(cfg.get("cap"))); break;
		default: f.reset(makeFifo<Obj>(cfg.get("cap")));
		}
	}
	~FifoWorld() override
	{
		f.reset();
	}

	virtual Op gen(Rng& r) override
	{
		i64 c = f->cap < 0 ? 200 : f->cap;
		i64 n = r.chance(600) ? r.range(0, 4) : r.chance(800) ? r.range(0, c) : c;
		switch(r.weighted({40, 40, 20})) {
		case 0: return Op("p", {n, r.range(0, 5)});
		case 1: return Op("c", {n, r.range(0, 7)});
		default: return genSchedule(r);
		}
	}

	static void side(FifoWorld* w, int t)
	{
		for(auto const& o : w->script[t]) {
			if(w->ctx.failed)
				break;
			if(t == 1)
				w->f->produce(w->ctx, o);
			else
				w->f->consume(w->ctx, o);
		}
	}

	void go(Op const& o)
	{
		u64 sw = mm::switches(), st = mm::staleReads();
		f->phasePopped = f->popped;
		f->phasePushed = f->pushed;
		if(f->cap < 0) {
			// Not for two threads.
			side(this, 1);
			if(!ctx.failed)
				side(this, 2);
		} else {
			mm::Schedule s = schedule(o);
			mm::run(
				ctx, s, [](void* w) { side(static_cast<FifoWorld*>(w), 1); }, this,
				[](void* w) { side(static_cast<FifoWorld*>(w), 2); }, this);
		}
		script[1].clear();
		script[2].clear();
		if(!ctx.failed)
			f->idle(ctx);
		f->phasePopped = f->popped;
		f->phasePushed = f->pushed;
		countSchedule(ctx, sw, st);
		ctx.log("pushed %llu popped %llu", (unsigned long long)f->pushed, (unsigned long long)f->popped);
		ctx.state(mix(mix((u64)cfg.get("type") * 16 + (u64)cfg.get("cap"), f->pushed - f->popped), mix(mm::switches() - sw, (f->pushed % (u64)(std::max<i64>(f->cap, 0) + 1)))));
		if(f->pushed > f->popped || f->popped)
			ctx.nontrivial = true;
	}

	virtual void exec(Op const& o) override
	{
		if(o.is("p"))
			script[1].push_back(o);
		else if(o.is("c"))
			script[2].push_back(o);
		else
			go(o);
		if(!ctx.failed && Obj::broken)
			ctx.fail("construction", "an element is assigned or destroyed that was not constructed");
	}

	virtual void finish() override
	{
		go(Op("go", {1, 0, 0}));
		if(!ctx.failed)
			f->refill(ctx);
		if(!ctx.failed && Obj::broken)
			ctx.fail("construction", "an element is assigned or destroyed that was not constructed");
		f.reset();
		if(!ctx.failed && Obj::live)
			ctx.fail("construction", "%d elements are not destroyed", Obj::live);
	}
};

void fifoConfig(Rng& r, Config& c)
{
	c["type"] = r.range(0, 2);
	c["cap"] = r.chance(150) ? 0 : r.chance(700) ? r.range(1, 5) : r.range(6, 9);
}

// ---------------------------------------------------------------- P19

struct MsgBase {
	size_t cap = 0, msgs = 0;
	std::vector<std::string> sent;      // completed
	size_t pushing = 0;		    // started
	std::string partial;
	size_t popping = 0, popped = 0, phasePopped = 0, phasePushed = 0;
	u64 key = 0;
	virtual ~MsgBase() {}
	virtual void produce(Ctx& ctx, Op const& o) = 0;
	virtual void consume(Ctx& ctx, Op const& o) = 0;
	virtual void idle(Ctx& ctx) = 0;

	void check(Ctx& ctx, std::string const& m, size_t i)
	{
		if(i >= sent.size())
			ctx.fail("not-pushed", "message %zu of %zu bytes is received, while %zu were pushed", i, m.size(), sent.size());
		else if(m != sent[i])
			ctx.fail("wrong-message", "message %zu of %zu bytes is received as %zu bytes %s", i, sent[i].size(), m.size(),
				 m.size() == sent[i].size() ? "with other contents" : "");
	}
};

template <size_t C, size_t M>
struct MsgT : public MsgBase {
	typedef stored::MessageFifo<C, M> F;
	F* f;
	MsgT()
	{
		static_assert(sizeof(F) <= sizeof(s_obj), "");
		memset(s_obj, 0xa5, sizeof(F));
		f = new(s_obj) F();
		mm::watch(s_obj, sizeof(F));
		cap = C;
		msgs = M;
	}
	~MsgT() override { f->~F(); }

	size_t inUse() const { return pushing - popping; }

	void failed(Ctx& ctx, size_t len, size_t space, bool msg)
	{
		ctx.probe("does-not-fit");
		if(!C) {
			ctx.fail("refused", "an unbounded message FIFO refuses %zu bytes", len);
			return;
		}
		if(msg && sent.size() - phasePopped >= M)
			return; // may not know yet that there is room
		if(len <= space)
			ctx.fail("refused", "%zu bytes are refused, while there is space for %zu", len, space);
		else if(sent.size() == phasePopped && partial.size() + len < C)
			ctx.fail("refused", "%zu bytes are refused, while the FIFO is empty", len);
	}

	void produce(Ctx& ctx, Op const& o) override
	{
		size_t len = (size_t)std::max<i64>(0, std::min<i64>(o.arg(0), C ? (i64)C : 300));
		size_t popping0 = popping;
		if(f->empty() && sent.size() > popping && popping0 == popping)
			ctx.fail("empty", "empty, with %zu messages", sent.size() - popping);
		if(C && f->available() > M)
			ctx.fail("available", "%zu messages in a FIFO for %zu", f->available(), M);
		size_t space = f->space();
		if(C && (space >= C || space + partial.size() > C))
			ctx.fail("space", "space for %zu bytes, of %zu", space, C);
		if(ctx.failed)
			return;
		switch(o.arg(1) % 6) {
		case 0:
		case 1: {
			std::string d = content(key++, len, 0);
			bool throws = C && len + partial.size() > C && len;
			if(throws)
				break;
			pushing++;
			sent.push_back(partial + d);
			bool r = o.arg(1) & 1 ? f->push_back(d.data(), d.size()) : f->push_back(stored::MessageView(d));
			if(r)
				partial.clear();
			else {
				sent.pop_back();
				pushing--;
				failed(ctx, len, space, true);
			}
			break;
		}
		case 2:
		case 3: {
			std::string d = content(key++, len, 0);
			if(C && len + partial.size() > C)
				break;
			if(f->append_back(d.data(), d.size()))
				partial += d;
			else
				failed(ctx, len, f->available() >= M ? 0 : space, false);
			break;
		}
		case 4: {
			pushing++;
			sent.push_back(partial);
			if(f->push_back())
				partial.clear();
			else {
				sent.pop_back();
				pushing--;
				failed(ctx, 0, space, true);
			}
			break;
		}
		default:
			if(o.arg(0) & 1) {
				f->reset_back();
				partial.clear();
			} else {
				std::string d = content(key++, std::min<size_t>(len, 5), 0), e = content(key++, std::min<size_t>(len, 3), 0);
				if(C && d.size() + partial.size() > C)
					break;
				pushing += 2;
				sent.push_back(partial + d);
				sent.push_back(e);
				size_t n = 0;
				if(o.arg(0) & 2)
					n = f->push_back({stored::MessageView(d), stored::MessageView(e)});
				else {
					stored::MessageView v[] = {stored::MessageView(d), stored::MessageView(e)};
					n = f->push_back(&v[0], &v[2]);
				}
				if(n)
					partial.clear();
				for(; n < 2; n++) {
					sent.pop_back();
					pushing--;
				}
			}
		}
	}

	void consume(Ctx& ctx, Op const& o) override
	{
		size_t a = f->available();
		if((C && a > M) || popped + a > pushing)
			ctx.fail("available", "%zu messages are available, while %zu were pushed and %zu popped", a, pushing, popped);
		else if(popped + a < phasePushed)
			ctx.fail("available", "%zu messages are available, instead of at least %zu", a, phasePushed - popped);
		if(ctx.failed)
			return;
		size_t n = std::min<size_t>(a, (size_t)std::max<i64>(0, o.arg(0)));
		if(!a)
			ctx.probe("empty");
		if(o.arg(1) % 4 == 3) {
			for(auto m : *f) {
				std::string s;
				for(size_t k = 0; k < m.size(); k++)
					s += m.data()[k];
				check(ctx, s, popped);
				popping++;
				popped++;
				if(ctx.failed)
					break;
			}
			popping = popped;
			return;
		}
		for(size_t i = 0; i < n && !ctx.failed; i++) {
			if(f->empty()) {
				ctx.fail("empty", "empty, while %zu messages were available", n - i);
				return;
			}
			std::string s;
			if(o.arg(1) & 1) {
				auto m = f->front();
				s.assign(m.data(), m.size());
				memset(m.data(), 0xee, m.size()); // the message is ours
			} else {
				auto m = static_cast<F const&>(*f).front();
				for(size_t k = 0; k < m.size(); k++)
					s += m.data()[k];
			}
			check(ctx, s, popped);
			popping++;
			f->pop_front();
			popped++;
		}
	}

	void idle(Ctx& ctx) override
	{
		if(f->available() != sent.size() - popped)
			ctx.fail("available", "%zu messages, instead of %zu", f->available(), sent.size() - popped);
		else if(f->empty() != (sent.size() == popped))
			ctx.fail("empty", "empty() is %d, with %zu messages", (int)f->empty(), sent.size() - popped);
	}
};

// Both directions of a loopback; thread 1 is at side a.
struct Side : public stored::ProtocolLayer {
	std::function<void(char const*, size_t)> f;
	void decode(void* b, size_t n) override { f(static_cast<char const*>(b), n); }
	using stored::ProtocolLayer::encode;
};

template <size_t C, size_t M>
struct LoopT : public MsgBase {
	typedef stored::FifoLoopback<C, M> F;
	F* f;
	Side side[2];
	struct Dir {
		std::vector<std::string> sent;
		size_t pushing = 0, popped = 0, phasePushed = 0, phasePopped = 0;
		std::string partial;
		bool dropped = false, any = false; // part of the message was dropped, a part was sent
		int retries = 0;
		bool handler = false, enomem = false;
	} dir[2];
	Ctx* ctx = nullptr;
	int budget[2] = {};
	bool gave[2] = {};

	LoopT(i64 handlers)
	{
		static_assert(sizeof(F) <= sizeof(s_obj), "");
		memset(s_obj, 0xa5, sizeof(F));
		f = new(s_obj) F(side[0], side[1]);
		mm::watch(s_obj, sizeof(F));
		cap = C;
		msgs = M;
		for(int d = 0; d < 2; d++) {
			// Messages of direction d arrive at the other side.
			side[1 - d].f = [this, d](char const* b, size_t n) {
				std::string s;
				for(size_t i = 0; i < n; i++)
					s += b[i];
				Dir& x = dir[d];
				if(x.popped >= x.sent.size())
					ctx->fail("not-pushed", "a message of %zu bytes is received, while %zu were sent", n, x.sent.size());
				else if(s != x.sent[x.popped])
					ctx->fail("wrong-message", "message %zu of %zu bytes is received as %zu bytes %s", x.popped, x.sent[x.popped].size(), n,
						  n == x.sent[x.popped].size() ? "with other contents" : "");
				x.popped++;
			};
			if(handlers >> d & 1) {
				dir[d].handler = true;
				at(d).setOverflowHandler([this, d]() {
					if(budget[d]-- <= 0) {
						gave[d] = true;
						return false;
					}
					ctx->probe("overflow-retry");
					mm::yield();
					return true;
				});
			}
		}
	}
	~LoopT() override { f->~F(); }
	typename F::FifoLoopback1_type& at(int d) { return d ? f->b2a() : f->a2b(); }

	void encode(int d, Op const& o)
	{
		Dir& x = dir[d];
		size_t len = (size_t)std::max<i64>(0, o.arg(0));
		bool last = o.arg(1) % 3 != 0;
		size_t mtu = side[d].mtu();
		if(x.partial.size() + len > mtu)
			len = x.partial.size() < mtu ? mtu - x.partial.size() : 0;
		std::string p = content(mix(d, key++), len, 0);
		budget[d] = (int)std::max<i64>(0, std::min<i64>(20, o.arg(2)));
		gave[d] = false;
		x.partial += p;
		bool fresh = !x.any;
		bool was = x.dropped;
		if(last && !was) {
			x.sent.push_back(x.partial);
			x.pushing++;
		}
		int err0 = at(d).lastError();
		if(!x.handler && err0 && fresh) {
			at(d).reset();
			if(at(d).lastError())
				ctx->fail("last-error", "still error %d after reset", at(d).lastError());
		}
		size_t had = x.sent.size() - (last && !was);
		side[d].encode(p.data(), p.size(), last);
		bool drop = x.handler ? gave[d] : at(d).lastError() == ENOMEM;
		if(drop) {
			ctx->probe("dropped");
			x.dropped = true;
			if(last && !was) {
				x.sent.pop_back();
				x.pushing--;
			}
			if(fresh && last && had == x.phasePopped)
				ctx->fail("refused", "a message of %zu bytes is dropped, while the FIFO is empty", p.size());
		}
		x.any = !last;
		if(last) {
			x.partial.clear();
			x.dropped = false;
		}
	}

	void recv(int d, Op const& o)
	{
		// Side d receives what direction 1-d has sent.
		Dir& x = dir[1 - d];
		auto& l = at(1 - d);
		size_t a = l.available();
		if(a > M || x.popped + a > x.pushing)
			ctx->fail("available", "%zu messages are available, while %zu were sent and %zu received", a, x.pushing, x.popped);
		if(ctx->failed)
			return;
		if(o.arg(1) % 4 == 0) {
			l.recvAll();
			return;
		}
		for(i64 i = 0; i < o.arg(0) && i < 50 && !ctx->failed; i++) {
			size_t n = x.popped;
			int r = l.recv();
			if(r == EAGAIN) {
				if(n != x.popped)
					ctx->fail("recv", "a message is received, while the result is that there is none");
				if(x.popped < x.phasePushed)
					ctx->fail("recv", "nothing is received, while %zu messages are there", x.phasePushed - x.popped);
				break;
			}
			if(r)
				ctx->fail("recv", "recv returned %d", r);
			else if(x.popped != n + 1)
				ctx->fail("recv", "recv succeeded, but %zu messages were received", x.popped - n);
		}
	}

	// Thread 1 is side a, thread 2 side b.
	void both(Ctx& c, Op const& o, int d)
	{
		ctx = &c;
		if(o.is("e"))
			encode(d, o);
		else
			recv(d, o);
	}
	void produce(Ctx& c, Op const& o) override { both(c, o, 0); }
	void consume(Ctx& c, Op const& o) override { both(c, o, 1); }
	void idle(Ctx& c) override
	{
		for(int d = 0; d < 2; d++)
			if(at(d).available() != dir[d].sent.size() - dir[d].popped)
				c.fail("available", "%zu messages, instead of %zu", at(d).available(), dir[d].sent.size() - dir[d].popped);
	}
};

template <template <size_t, size_t> class X, typename... A>
MsgBase* makeMsg(i64 c, A... a)
{
	switch(c) {
	case 1: return new X<8, 2>(a...);
	case 2: return new X<8, 8>(a...);
	case 3: return new X<16, 3>(a...);
	case 4: return new X<33, 5>(a...);
	case 5: return new X<64, 8>(a...);
	case 6: return new X<255, 31>(a...);
	case 7: return new X<256, 200>(a...);
	default: return new X<300, 4>(a...);
	}
}

class MsgWorld : public World {
public:
	std::unique_ptr<MsgBase> f;
	std::vector<Op> script[3];
	bool loop;

	MsgWorld(Ctx& c, Config const& cfg_) : World(c, cfg_), loop(cfg.get("loop"))
	{
		if(loop)
			f.reset(makeMsg<LoopT>(cfg.get("cap"), cfg.get("handlers")));
		else if(!cfg.get("cap"))
			f.reset(new MsgT<0, 0>());
		else
			f.reset(makeMsg<MsgT>(cfg.get("cap")));
	}

	i64 genLen(Rng& r)
	{
		i64 c = f->cap ? (i64)f->cap : 100;
		switch(r.weighted({30, 30, 20, 8, 12})) {
		case 0: return r.range(0, 3);
		case 1: return r.range(1, std::max<i64>(1, c / 2));
		case 2: return r.range(1, c);
		case 3: return 0;
		default: return c - r.range(0, 2);
		}
	}

	virtual Op gen(Rng& r) override
	{
		if(loop)
			switch(r.weighted({25, 15, 25, 15, 20})) {
			case 0: return Op("e", {genLen(r), (i64)r.below(6), r.chance(500) ? 0 : r.range(1, 20), 1});
			case 1: return Op("r", {r.range(1, 6), r.range(0, 3), 0, 1});
			case 2: return Op("e", {genLen(r), (i64)r.below(6), r.chance(500) ? 0 : r.range(1, 20), 2});
			case 3: return Op("r", {r.range(1, 6), r.range(0, 3), 0, 2});
			default: return genSchedule(r);
			}
		switch(r.weighted({45, 35, 20})) {
		case 0: return Op("p", {genLen(r), r.range(0, 5)});
		case 1: return Op("c", {r.range(1, 6), r.range(0, 3)});
		default: return genSchedule(r);
		}
	}

	static void side(MsgWorld* w, int t)
	{
		for(auto const& o : w->script[t]) {
			if(w->ctx.failed)
				break;
			if(t == 1)
				w->f->produce(w->ctx, o);
			else
				w->f->consume(w->ctx, o);
		}
	}

	template <typename L>
	void phaseDirs(L* l)
	{
		for(auto& d : l->dir) {
			d.phasePopped = d.popped;
			d.phasePushed = d.sent.size();
		}
	}

	virtual void phase() {}

	void mark()
	{
		f->phasePopped = f->popped;
		f->phasePushed = f->sent.size();
		if(loop)
			switch(cfg.get("cap")) {
			case 1: phaseDirs(static_cast<LoopT<8, 2>*>(f.get())); break;
			case 2: phaseDirs(static_cast<LoopT<8, 8>*>(f.get())); break;
			case 3: phaseDirs(static_cast<LoopT<16, 3>*>(f.get())); break;
			case 4: phaseDirs(static_cast<LoopT<33, 5>*>(f.get())); break;
			case 5: phaseDirs(static_cast<LoopT<64, 8>*>(f.get())); break;
			case 6: phaseDirs(static_cast<LoopT<255, 31>*>(f.get())); break;
			case 7: phaseDirs(static_cast<LoopT<256, 200>*>(f.get())); break;
			default: phaseDirs(static_cast<LoopT<300, 4>*>(f.get()));
			}
	}

	void go(Op const& o)
	{
		u64 sw = mm::switches(), st = mm::staleReads();
		mark();
		if(!f->cap) {
			side(this, 1);
			if(!ctx.failed)
				side(this, 2);
		} else {
			mm::Schedule s = schedule(o);
			mm::run(
				ctx, s, [](void* w) { side(static_cast<MsgWorld*>(w), 1); }, this,
				[](void* w) { side(static_cast<MsgWorld*>(w), 2); }, this);
		}
		script[1].clear();
		script[2].clear();
		mark();
		countSchedule(ctx, sw, st);
		ctx.log("sent %zu popped %zu partial %zu", f->sent.size(), f->popped, f->partial.size());
		ctx.state(mix(mix((u64)cfg.get("cap") * 2 + loop, f->sent.size() - f->popped), mix(mm::switches() - sw, f->partial.size())));
		ctx.nontrivial = true;
		if(!ctx.failed)
			f->idle(ctx);
	}

	virtual void exec(Op const& o) override
	{
		if(o.is("p"))
			script[1].push_back(o);
		else if(o.is("c"))
			script[2].push_back(o);
		else if(o.is("e") || o.is("r"))
			script[o.arg(3) == 2 ? 2 : 1].push_back(o);
		else
			go(o);
	}

	virtual void finish() override
	{
		Op plain("go", {1, 0, 0});
		go(plain);
		i64 c = (i64)f->cap;
		for(int i = 0; i < 3 && !ctx.failed; i++) {
			// Drain, and see if all space is available.
			if(loop) {
				for(int t = 1; t < 3; t++) {
					exec(Op("r", {50, 1, 0, t}));
					exec(Op("r", {50, 0, 0, t}));
				}
				go(plain);
				for(int t = 1; t < 3 && !ctx.failed; t++) {
					exec(Op("e", {0, 1, 0, t}));		   // end what is incomplete
					go(plain);
					exec(Op("r", {50, 0, 0, 3 - t}));
					go(plain);
					exec(Op("e", {c, 1, 0, t}));
					go(plain);
				}
			} else {
				exec(Op("c", {1000, 1}));
				go(plain);
				exec(Op("p", {1, 5})); // reset
				go(plain);
				if(!c)
					continue;
				size_t n = f->sent.size();
				exec(Op("p", {c - 1, 0}));
				go(plain);
				if(!ctx.failed && f->sent.size() != n + 1)
					ctx.fail("refused", "a message of %d bytes is refused, while the FIFO of %d is empty", (int)c - 1, (int)c);
			}
		}
		if(loop) {
			exec(Op("r", {50, 0, 0, 1}));
			exec(Op("r", {50, 0, 0, 2}));
		} else
			exec(Op("c", {1000, 1}));
		go(plain);
	}
};

void msgConfig(Rng& r, Config& c)
{
	c["loop"] = r.chance(500);
	c["cap"] = !c["loop"] && r.chance(100) ? 0 : r.chance(700) ? r.range(1, 5) : r.range(6, 8);
	c["handlers"] = r.range(0, 3);
}

} // namespace

namespace sim {
char const* const binaryName = "fifo";
Family const families[] = {
	{"P18", fifoConfig, [](Ctx& c, Config const& cfg) -> World* { return new FifoWorld(c, cfg); }, 4, 120},
	{"P19", msgConfig, [](Ctx& c, Config const& cfg) -> World* { return new MsgWorld(c, cfg); }, 4, 120},
};
size_t const familyCount = 2;
} // namespace sim
