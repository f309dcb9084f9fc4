// P21: pollers. The real pollers, with every outcome of the underlying system call.
#include "kernel.h"
#include "simos.h"

#include <stored>
#include <libstored/poller.h>

#include <cerrno>
#include <set>

namespace sim {
namespace {
typedef stored::Pollable Pollable;

enum Kind { KFd, KLayer, KCallback, KZmq, KZmqLayer, KindCount };
enum { Sources = 10, Keys = 4 };

struct FakeLayer : public stored::PolledFileLayer {
	int f = -1;
	~FakeLayer() override {}
	fd_type fd() const override { return f; }
	int recv(long) override { return 0; }
};

struct PollWorld;
PollWorld* s_world;

template <typename T>
T* as(Pollable* p)
{
	return dynamic_cast<T*>(static_cast<stored::TypedPollable*>(p));
}

struct Source {
	Kind kind = KFd;
	int id = 0;
	std::unique_ptr<stored::TypedPollable> p;
	bool added = false;
};

// A key of the deprecated interface.
struct Old {
	bool added = false;
	unsigned long events = 0;
	void* user = nullptr;
};

struct PollWorld : public World, public Os {
	std::vector<Source> src;
	std::unique_ptr<FakeLayer> layers[Sources];
	FakeLayer oldLayer[Keys];
	char zsock[Sources + Keys];
	int ctxDummy;
#ifdef STORED_HAVE_ZMQ
	std::unique_ptr<stored::ZmqLayer> zlayers[Sources];
#endif
	typedef stored::CustomPoller<stored::LoopPoller> LoopP;
	typedef stored::CustomPoller<stored::PollPoller> PollP;
	std::unique_ptr<stored::Poller> poller;
	std::unique_ptr<LoopP> loop;
	std::unique_ptr<PollP> pollp;
	std::map<std::pair<int, int>, Old> old; // (kind, key)

	// Readiness of the simulated objects, by (kind, id), as Pollable flags; id of old keys is 100 + key.
	std::map<std::pair<int, int>, unsigned long> ready;
	std::set<std::pair<int, int>> bad; // invalid file descriptors
	// The plan for the next poll
	int failWith = 0;
	int failItem = -1;
	i64 arriveAfter = -1; // in ms, or calls of poll_once for the loop
	std::pair<int, int> arriveWho;
	unsigned long arriveMask = 0;
	// What happened
	int sysCalls = 0;
	stored::TypedPollable const* firstOnce = nullptr; // arrivals for the loop are in between two rounds
	i64 gotTimeout = 0;
	bool again = false;

	PollWorld(Ctx& c, Config const& g) : World(c, g)
	{
		s_world = this;
		os = this;
		for(int i = 0; i < Sources; i++) {
			Source s;
			s.kind = (Kind)cfg.get(("k" + std::to_string(i)).c_str());
			s.id = i;
			unsigned long ev = (unsigned long)cfg.get(("e" + std::to_string(i)).c_str(), 1);
			Pollable::Events e(ev);
			void* user = (void*)(intptr_t)(1000 + i);
			int fd = 10 + (int)(cfg.get("samefd") ? i / 2 : i);
			switch(s.kind) {
			case KLayer:
				layers[i].reset(new FakeLayer());
				layers[i]->f = fd;
				s.p.reset(new stored::PollableFileLayer(*layers[i], e, user));
				break;
			case KCallback: {
				auto f = [this, i](Pollable const& p) -> Pollable::Events {
					if(cfg.get("throws") && i == failItem) {
						ctx.fault("callback-exception");
						throw std::runtime_error("");
					}
					return Pollable::Events(readiness(KCallback, i)) & p.events;
				};
				s.p.reset(new stored::PollableCallback<decltype(f)>(f, e, user));
				break;
			}
#ifdef STORED_HAVE_ZMQ
			case KZmq: s.p.reset(new stored::PollableZmqSocket(&zsock[i], e, user)); break;
			case KZmqLayer:
				zlayers[i].reset(new stored::ZmqLayer(&ctxDummy, i));
				s.p.reset(new stored::PollableZmqLayer(*zlayers[i], e, user));
				break;
#endif
			default: s.kind = KFd; s.p.reset(new stored::PollableFd(fd, e, user)); break;
			}
			src.push_back(std::move(s));
		}
		for(int i = 0; i < Keys; i++)
			oldLayer[i].f = 200 + i;
		switch(cfg.get("poller")) {
		case 1: loop.reset(new LoopP()); break;
		case 2: pollp.reset(new PollP()); break;
		default: poller.reset(new stored::Poller());
		}
	}
	~PollWorld() override
	{
		arenaFailAfter = -1;
		poller.reset();
		loop.reset();
		pollp.reset();
#ifdef STORED_HAVE_ZMQ
		for(auto& z : zlayers)
			z.reset();
#endif
		os = nullptr;
		s_world = nullptr;
	}

	void* zsocket(void*, int type) override { return &zsock[type]; } // type is abused as index
	int zclose(void*) override { return 0; }
	int zterm(void*) override { return 0; }

	bool supports(Kind k) const
	{
		switch(cfg.get("poller")) {
		case 1: return true;
		case 2: return k == KFd || k == KLayer;
		default:
#ifdef STORED_HAVE_ZMQ
			return k != KCallback;
#else
			return k == KFd || k == KLayer;
#endif
		}
	}
	bool zmqPoller() const
	{
#ifdef STORED_HAVE_ZMQ
		return cfg.get("poller") == 0;
#else
		return false;
#endif
	}

	unsigned long readiness(int kind, int id)
	{
		auto it = ready.find({kind, id});
		return it == ready.end() ? 0 : it->second;
	}

	// Object key of a file descriptor or socket.
	unsigned long fdReady(int fd, bool& nval)
	{
		unsigned long r = 0;
		nval = false;
		auto one = [&](std::pair<int, int> k) {
			r |= readiness(k.first, k.second);
			if(bad.count(k))
				nval = true;
		};
		if(fd >= 200) {
			one({KLayer, 100 + fd - 200});
		} else if(fd >= 100) {
			one({KFd, fd});
		} else
			for(auto const& s : src)
				if((s.kind == KFd && static_cast<stored::PollableFd&>(*s.p).fd == fd)
				   || (s.kind == KLayer && layers[s.id]->f == fd))
					one({s.kind, s.id});
		return r;
	}
	unsigned long sockReady(void* s)
	{
		int i = (int)((char*)s - zsock);
		if(i >= Sources)
			return readiness(KZmq, 100 + i - Sources);
		return readiness(src[(size_t)i].kind, i);
	}

	enum : unsigned long { In = 1, Out = 2, Err = 4, Pri = 8, Hup = 16 };

	// Which events are reported for something that is ready and of interest.
	unsigned long effective(unsigned long r, unsigned long ev) const
	{
		if(cfg.get("poller") == 1)
			return r & ev;
		if(zmqPoller())
			return r & ((ev & (In | Out)) | Err); // no other flags exist
		return r & (ev | Err | Hup);
	}

	bool arrive()
	{
		if(arriveAfter < 0 || !arriveMask)
			return false;
		ready[arriveWho] |= arriveMask;
		ctx.log("arrives %d/%d %lu", arriveWho.first, arriveWho.second, arriveMask);
		arriveMask = 0;
		return true;
	}

	template <typename F>
	int sysPoll(i64 timeout, F const& scan)
	{
		sysCalls++;
		gotTimeout = timeout;
		if(failWith) {
			ctx.fault(failWith == EINTR ? "poll-interrupted" : "poll-error");
			errno = failWith;
			return -1;
		}
		int n = scan();
		if(!n && timeout && arriveAfter >= 0 && (timeout < 0 || arriveAfter <= timeout)) {
			ctx.now += arriveAfter * 1000;
			ctx.fault("arrival-while-polling");
			arrive();
			n = scan();
		}
		if(!n) {
			if(timeout < 0) {
				// It would block forever, so end it with a signal.
				failWith = EINTR;
				ctx.fault("poll-interrupted");
				errno = EINTR;
				return -1;
			}
			ctx.now += timeout * 1000;
			ctx.probe("timeout");
		}
		return n;
	}

	int poll(struct pollfd* fds, nfds_t n, int timeout) override
	{
		return sysPoll(timeout, [&]() {
			int cnt = 0;
			for(nfds_t i = 0; i < n; i++) {
				bool nval;
				unsigned long r = fdReady(fds[i].fd, nval);
				short e = 0;
				if(nval) {
					e = POLLNVAL;
				} else {
					if(r & In) e |= POLLIN;
					if(r & Out) e |= POLLOUT;
					if(r & Err) e |= POLLERR;
					if(r & Pri) e |= POLLPRI;
					if(r & Hup) e |= POLLHUP;
					e &= (short)(fds[i].events | POLLERR | POLLHUP);
				}
				fds[i].revents = e;
				cnt += !!e;
			}
			return cnt;
		});
	}
	int zpoll(zmq_pollitem_t* items, int n, long timeout) override
	{
		return sysPoll(timeout, [&]() {
			int cnt = 0;
			for(int i = 0; i < n; i++) {
				bool nval = false;
				unsigned long r = items[i].socket ? sockReady(items[i].socket) : fdReady(items[i].fd, nval);
				short e = 0;
				if(r & In) e |= ZMQ_POLLIN;
				if(r & Out) e |= ZMQ_POLLOUT;
				e &= items[i].events;
				if((r & Err) || nval) e |= ZMQ_POLLERR;
				items[i].revents = e;
				cnt += !!e;
			}
			return cnt;
		});
	}

	// The application's poll_once() for the LoopPoller.
	int once(stored::TypedPollable const& p, Pollable::Events& revents)
	{
		sysCalls++;
		if(sysCalls == 1)
			firstOnce = &p;
		if(arriveMask && arriveAfter >= 0 && sysCalls > arriveAfter && &p == firstOnce) {
			ctx.fault("arrival-while-polling");
			arrive();
		}
		if(sysCalls > 2000) {
			// Avoid blocking forever.
			failWith = EINTR;
			return EINTR;
		}
		if(failWith && sysCalls > 3) {
			ctx.fault("poll-error");
			return failWith;
		}
		Source* s = nullptr;
		for(auto& x : src)
			if(x.p.get() == &p)
				s = &x;
		if(!s) {
			ctx.fail("unknown-source", "a source is polled that was not added");
			return EINVAL;
		}
		if(!s->added)
			ctx.fail("unknown-source", "source %d is polled, which is not registered", s->id);
		if(s->kind == KCallback)
			return stored::poll_once_default(p, revents);
		unsigned long e = readiness(s->kind, s->id) & p.events.to_ulong();
		if(!e && (s->id & 1))
			return EAGAIN;
		revents = Pollable::Events(e);
		return 0;
	}

	///////////////////////////////////////////////////////////////

	Op gen(Rng& rng) override
	{
		auto who = [&]() { return rng.range(0, Sources - 1); };
		auto key = [&]() { return rng.range(0, 2) * 10 + rng.range(0, Keys - 1); };
		bool oldApi = cfg.get("old");
		switch(rng.weighted({12, 8, 4, 24, 30, 3, 2, oldApi ? 8 : 0, oldApi ? 5 : 0, oldApi ? 6 : 0, 3})) {
		case 0: return Op("add", {who(), cfg.get("mem") && rng.chance(300) ? rng.range(0, 3) : -1});
		case 1: return Op("rm", {who()});
		case 2: return Op("list", {who(), who(), who(), rng.range(1, 3), cfg.get("mem") && rng.chance(300) ? rng.range(0, 3) : -1});
		case 3:
			return Op("ready", {rng.chance(oldApi ? 300 : 0) ? 100 + key() : who(), rng.chance(400) ? 0 : rng.range(0, 31), rng.chance(40)});
		case 4: {
			Op op("poll", {rng.pick(std::vector<i64>{0, 0, 0, 1, 10, 1000, -1, -1}), 0, -1, 0, 0, 0});
			if(rng.chance(100))
				op.a[1] = rng.pick(std::vector<i64>{EINTR, EINTR, ENOMEM, EINVAL, EFAULT, ETERM});
			if(rng.chance(400)) {
				op.a[2] = rng.range(0, 20);
				op.a[3] = who();
				op.a[4] = rng.range(1, 31);
			}
			if(rng.chance(100))
				op.a[5] = who() + 1;
			return op;
		}
		case 5: return Op("user", {who(), rng.range(0, 9)});
		case 6: return Op("clear");
		case 7: return Op("oadd", {key(), rng.range(1, 3), rng.range(0, 9), cfg.get("mem") && rng.chance(300) ? rng.range(0, 3) : -1});
		case 8: return Op("omod", {key(), rng.range(1, 3)});
		case 9: return Op("orm", {key()});
		default: return Op("empty");
		}
	}

	template <typename F>
	auto with(F f) -> decltype(f(*poller))
	{
		if(loop)
			return f(*loop);
		if(pollp)
			return f(*pollp);
		return f(*poller);
	}

	void mem(i64 after) { arenaFailAfter = after < 0 ? -1 : after; }
	bool memDone()
	{
		bool failed = arenaFailAfter >= 0 && arenaFailed != 0;
		arenaFailAfter = -1;
		return failed;
	}

	// Adds or registers one or more sources.
	void add(std::vector<size_t> const& ids, i64 failAfter, bool list)
	{
		for(size_t i = 0; i < ids.size(); i++) {
			if(src[ids[i]].added)
				return; // once only
			for(size_t j = 0; j < i; j++)
				if(ids[i] == ids[j])
					return;
		}
		arenaFailed = 0;
		mem(failAfter);
		int res = 0;
		if(!list) {
			auto& p = *src[ids[0]].p;
			res = with([&](auto& x) { return x.add(p); });
		} else if(ids.size() == 1) {
			auto& a = *src[ids[0]].p;
			res = with([&](auto& x) { return x.add({a}); });
		} else if(ids.size() == 2) {
			auto& a = *src[ids[0]].p;
			auto& b = *src[ids[1]].p;
			res = with([&](auto& x) { return x.add({a, b}); });
		} else {
			auto& a = *src[ids[0]].p;
			auto& b = *src[ids[1]].p;
			auto& c = *src[ids[2]].p;
			res = with([&](auto& x) { return x.add({a, b, c}); });
		}
		bool failed = memDone();
		if(failed)
			ctx.fault("allocation-failure");
		bool sup = true;
		for(auto i : ids)
			sup = sup && supports(src[i].kind);
		ctx.log("add %zu -> %d", ids.size(), res);
		if(res == 0) {
			if(!sup)
				ctx.fail("add", "a source was added that the poller does not support");
			for(auto i : ids)
				src[i].added = true;
		} else if(sup && !failed)
			ctx.fail("add", "adding sources failed with error %d", res);
		else
			ctx.probe("add-refused");
	}

	static int okind(i64 key) { return (key / 10) % 3 == 0 ? KFd : (key / 10) % 3 == 1 ? KLayer : KZmq; }

	void exec(Op const& op) override
	{
		ctx.now += op.dt;
		if(op.is("add")) {
			add({(size_t)op.arg(0) % Sources}, op.arg(1, -1), false);
		} else if(op.is("list")) {
			std::vector<size_t> ids;
			for(i64 i = 0; i < op.arg(3) && i < 3; i++)
				ids.push_back((size_t)op.arg((size_t)i) % Sources);
			if(!ids.empty())
				add(ids, op.arg(4, -1), true);
		} else if(op.is("rm")) {
			auto& s = src[(size_t)op.arg(0) % Sources];
			int res = with([&](auto& x) { return x.remove(*s.p); });
			ctx.log("remove %d -> %d", s.id, res);
			if((res == 0) != s.added)
				ctx.fail("remove", "removing a source that is%s registered gives %d", s.added ? "" : " not", res);
			s.added = false;
		} else if(op.is("user")) {
			src[(size_t)op.arg(0) % Sources].p->user_data = (void*)(intptr_t)(2000 + op.arg(1));
		} else if(op.is("clear")) {
			with([&](auto& x) { x.clear(); return 0; });
			for(auto& s : src)
				s.added = false;
			old.clear();
		} else if(op.is("empty")) {
			bool any = false;
			for(auto& s : src)
				any = any || s.added;
			for(auto& o : old)
				any = any || o.second.added;
			if(with([&](auto& x) { return x.empty(); }) == any)
				ctx.fail("empty", "empty() is %d while there are%s sources", !any ? 0 : 1, any ? "" : " no");
		} else if(op.is("ready")) {
			i64 w = op.arg(0);
			std::pair<int, int> k;
			if(w >= 100) {
				k = {okind(w - 100), 100 + (int)((w - 100) % 10) % Keys};
			} else
				k = {src[(size_t)w % Sources].kind, (int)(w % Sources)};
			ready[k] = (unsigned long)op.arg(1) & 31;
			if(op.arg(2))
				bad.insert(k);
			else
				bad.erase(k);
		} else if(op.is("poll"))
			doPoll(op);
		else if(op.is("oadd") || op.is("omod") || op.is("orm"))
			oldApi(op);
	}

#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
	void oldApi(Op const& op)
	{
		if(!poller || op.arg(0) < 0)
			return;
		int k = okind(op.arg(0));
		int i = (int)(op.arg(0) % 10) % Keys;
#ifndef STORED_HAVE_ZMQ
		if(k == KZmq)
			return;
#endif
		Old& o = old[{k, i}];
		unsigned long ev = (unsigned long)op.arg(1) & 3;
		int res = 0;
		bool threw = false, failed = false;
		if(op.is("oadd")) {
			if(o.added)
				return;
			void* user = (void*)(intptr_t)(3000 + op.arg(2));
			arenaFailed = 0;
			mem(op.arg(3, -1));
			try {
				if(k == KFd)
					res = poller->add(100 + i, user, ev);
				else if(k == KLayer)
					res = poller->add(static_cast<stored::PolledFileLayer&>(oldLayer[i]), user, ev);
#ifdef STORED_HAVE_ZMQ
				else
					res = poller->add((void*)&zsock[Sources + i], user, ev);
#endif
			} catch(std::bad_alloc&) {
				threw = true;
			}
			failed = memDone();
			if(failed)
				ctx.fault("allocation-failure");
			ctx.log("old add %d/%d -> %d", k, i, threw ? -1 : res);
			if(!threw && !res)
				o = {true, ev, user};
			else if(!failed)
				ctx.fail("add", "adding a source failed with error %d", res);
		} else if(op.is("omod")) {
			if(k == KFd)
				res = poller->modify(100 + i, ev);
			else if(k == KLayer)
				res = poller->modify(static_cast<stored::PolledFileLayer&>(oldLayer[i]), ev);
#ifdef STORED_HAVE_ZMQ
			else
				res = poller->modify((void*)&zsock[Sources + i], ev);
#endif
			ctx.log("old modify %d/%d -> %d", k, i, res);
			if((res == 0) != o.added)
				ctx.fail("modify", "modifying a source that is%s registered gives %d", o.added ? "" : " not", res);
			if(o.added)
				o.events = ev;
		} else {
			if(k == KFd)
				res = poller->remove(100 + i);
			else if(k == KLayer)
				res = poller->remove(static_cast<stored::PolledFileLayer&>(oldLayer[i]));
#ifdef STORED_HAVE_ZMQ
			else
				res = poller->remove((void*)&zsock[Sources + i]);
#endif
			ctx.log("old remove %d/%d -> %d", k, i, res);
			if((res == 0) != o.added)
				ctx.fail("remove", "removing a source that is%s registered gives %d", o.added ? "" : " not", res);
			o.added = false;
		}
	}
#pragma GCC diagnostic pop

	struct Seen {
		unsigned long revents;
		void* user;
		Pollable* p;
	};

	void doPoll(Op const& op)
	{
		i64 timeout = op.arg(0);
		failWith = (int)op.arg(1);
		arriveAfter = op.arg(2, -1);
		size_t a = (size_t)op.arg(3) % Sources;
		arriveWho = {src[a].kind, (int)a};
		arriveMask = (unsigned long)op.arg(4) & 31;
		failItem = (int)op.arg(5) - 1;
		sysCalls = 0;
		gotTimeout = -12345;
		std::vector<Seen> seen;
		int e = 0;
		bool registered = false;
		for(auto& s : src)
			registered = registered || s.added;
		if(loop && !registered && timeout < 0)
			return; // It would block forever.
		with([&](auto& x) {
			auto const& r = x.poll((int)timeout);
			e = errno;
			for(auto const& y : r) {
				if constexpr(std::is_same<typename std::decay<decltype(y)>::type, Pollable*>::value)
					seen.push_back({y->revents.to_ulong(), y->user_data, y});
				else {
					seen.push_back({y.revents, y.user_data, &*y});
					if(y.events != y->events.to_ulong())
						ctx.fail("result", "the events are %lu instead of %lu", (unsigned long)y.events, y->events.to_ulong());
					if(y.revents != y->revents.to_ulong() || y.user_data != y->user_data)
						ctx.fail("result", "the result differs from the source");
				}
			}
			return 0;
		});
		ctx.log("poll %lld -> %zu errno %d, calls %d", (long long)timeout, seen.size(), e, sysCalls);

		// Expectation.
		size_t expected = 0;
		bool nvalAny = false, excItem = false, unsupported = false;
		auto expect = [&](int kind, int id, unsigned long ev, void* user, Pollable* p) {
			unsigned long r;
			bool nval = false;
			if(kind == KFd || kind == KLayer) {
				if(loop)
					r = readiness(kind, id);
				else
					r = fdReady(id >= 100 ? (kind == KFd ? id : 100 + id) : kind == KFd ? static_cast<stored::PollableFd&>(*src[(size_t)id].p).fd : layers[id]->f, nval);
			} else
				r = readiness(kind, id);
			unsigned long want = effective(r, ev);
			if(kind == KCallback && cfg.get("throws") && id == failItem)
				want = Err;
			if(nval && !loop) {
				nvalAny = true;
				if(!zmqPoller())
					want = 0;
			}
			size_t n = 0;
			for(auto& s : seen)
				if(p ? s.p == p
				     : (kind == KFd ? (as<stored::PollableFd>(s.p) && as<stored::PollableFd>(s.p)->fd == id)
					: kind == KLayer ? (as<stored::PollableFileLayer>(s.p) && as<stored::PollableFileLayer>(s.p)->layer == &oldLayer[id - 100])
#ifdef STORED_HAVE_ZMQ
							 : (as<stored::PollableZmqSocket>(s.p) && as<stored::PollableZmqSocket>(s.p)->socket == &zsock[Sources + id - 100])
#else
							 : false
#endif
						)) {
					n++;
					if(nval) {
						if(s.revents & ~(Err | want))
							ctx.fail("events", "an invalid descriptor is reported with events %lu", s.revents);
					} else if(s.revents != want)
						ctx.fail("events", "source %d/%d is reported with events %lu instead of %lu", kind, id, s.revents, want);
					if(s.user != user)
						ctx.fail("user-data", "source %d/%d is reported with other user data", kind, id);
				}
			if(nval) {
				if(n > 1)
					ctx.fail("duplicate", "source %d/%d is reported %zu times", kind, id, n);
				expected += n;
				return;
			}
			if(!failWith) {
				if(want && n == 0)
					ctx.fail("missing", "source %d/%d is ready for %lu, but not reported (%zu are, error %d)", kind, id, want, seen.size(), e);
				if(n > 1)
					ctx.fail("duplicate", "source %d/%d is reported %zu times", kind, id, n);
				if(!want && n)
					ctx.fail("not-ready", "source %d/%d is not ready, but reported", kind, id);
			}
			expected += n;
		};
		if(failWith && (sysCalls > 3 || !loop)) {
			if(!seen.empty())
				ctx.fail("error", "sources are reported while the poll failed");
			if(e != failWith)
				ctx.fail("error", "the poll failed with error %d, but %d is reported", failWith, e);
			ctx.probe("error");
			return;
		}
		failWith = 0;
		for(auto& s : src)
			if(s.added)
				expect(s.kind, s.id, s.p->events.to_ulong(), s.p->user_data, s.p.get());
		for(auto& o : old)
			if(o.second.added)
				expect(o.first.first, 100 + o.first.second, o.second.events, o.second.user, nullptr);
		(void)excItem;
		(void)unsupported;
		if(expected != seen.size())
			ctx.fail("unknown-source", "%zu sources are reported, of which %zu are registered", seen.size(), expected);
		if(seen.empty() && !nvalAny && e != EAGAIN)
			ctx.fail("timeout", "nothing is ready, but error %d is reported", e);
		if(!seen.empty() && e)
			ctx.fail("error", "sources are reported with error %d", e);
		if(!loop && gotTimeout != timeout)
			ctx.fail("timeout", "the timeout is %lld instead of %lld", (long long)gotTimeout, (long long)timeout);
		ctx.state(mix(mix(seen.size(), (u64)cfg.get("poller")), mix((u64)timeout, (u64)e)));
		ctx.probe(seen.size() > 2 ? "many" : seen.empty() ? "none" : "some");
		if(seen.size() > 1)
			ctx.nontrivial = true;
	}

	void finish() override
	{
		for(int i = 0; i < Sources; i++)
			exec(Op("ready", {i, 31, 0}));
		if(!ctx.failed)
			exec(Op("poll", {0, 0, -1, 0, 0, 0}));
		for(auto& o : old)
			if(!ctx.failed && o.second.added && o.first.first != KZmq)
				exec(Op("orm", {(o.first.first == KFd ? 0 : 10) + o.first.second}));
		for(int i = 0; i < Sources && !ctx.failed; i++)
			if(src[(size_t)i].added)
				exec(Op("rm", {i}));
		if(!ctx.failed)
			exec(Op("poll", {0, 0, -1, 0, 0, 0}));
		if(!ctx.failed)
			exec(Op("clear"));
		if(!ctx.failed)
			exec(Op("empty"));
	}
};
} // namespace

void pollConfig(Rng& rng, Config& c)
{
#ifdef STORED_HAVE_ZMQ
	bool z = true;
#else
	bool z = false;
#endif
	c["poller"] = (i64)rng.weighted({6, 3, z ? 2 : 0});
	for(int i = 0; i < Sources; i++) {
		i64 k = c["poller"] == 1 ? rng.pick(std::vector<i64>{KFd, KLayer, KCallback, KCallback, KZmq})
			: rng.pick(std::vector<i64>{KFd, KFd, KFd, KLayer, KLayer, KCallback, KZmq, KZmqLayer});
		if(!z && k >= KZmq)
			k = KFd;
		if(k == KCallback && c["poller"] != 1 && rng.chance(600))
			k = KFd;
		c[("k" + std::to_string(i)).c_str()] = k;
		c[("e" + std::to_string(i)).c_str()] = rng.chance(700) ? rng.range(1, 3) : rng.range(1, 31);
	}
	c["samefd"] = rng.chance(200);
	c["old"] = c["poller"] == 0 && rng.chance(500);
	c["mem"] = rng.chance(300);
	c["throws"] = rng.chance(200);
}
World* makePoll(Ctx& c, Config const& cfg) { return new PollWorld(c, cfg); }
} // namespace sim

// The application may supply this function.
namespace stored {
int poll_once(TypedPollable const& p, Pollable::Events& revents) noexcept
{
	return sim::s_world ? sim::s_world->once(p, revents) : EINVAL;
}
} // namespace stored
