// P22: transports on ZeroMQ sockets, with a simulated libzmq.
#include "kernel.h"
#include "simos.h"

#ifdef STORED_HAVE_ZMQ
#include <stored>
#include <libstored/protocol.h>
#include <libstored/zmq.h>

#include <cerrno>
#include <deque>
#include <list>
#include <set>

namespace sim {
namespace {
typedef std::vector<std::string> Parts;

struct Incoming {
	Parts parts;
	bool shared = false;
};

struct Msg {
	std::string data;
	std::unique_ptr<char[]> buf;
	bool more = false, shared = false;
};

struct ZmqWorld;

struct ZSink : public stored::ProtocolLayer {
	ZmqWorld& w;
	explicit ZSink(ZmqWorld& w_) : w(w_) {}
	~ZSink() override {}
	void decode(void* buffer, size_t len) override;
};

struct ZmqWorld : public World, public Os {
	bool rep = false;
	std::unique_ptr<stored::ZmqLayer> layer;
	ZSink sink;
	char ctxA, ctxB, sock;
	void* ownCtx = nullptr;
	bool ctxUp = false, ctxTerm = false, sockUp = false, closed = false;
	int type = -1;
	std::string bound, connected_;
	bool usable = true;

	// The socket
	std::deque<Incoming> in;
	size_t inPart = 0; // of in.front()
	bool repSend = false;
	Parts outPart;	   // parts of the message being sent
	bool outMid = false;
	std::deque<std::string> out; // complete messages, not yet taken by the peer
	size_t hwm = 4;
	bool up = true; // peer connected
	std::set<Msg*> open;
	std::deque<int> recvFault, sendFault, pollFault;
	struct Sched {
		i64 t;
		Op op;
	};
	std::list<Sched> sched;

	// The model
	std::deque<std::string> expectIn;  // to be decoded
	std::deque<std::string> expectOut; // to be received by the peer
	int dropped = 0;		   // that many may be lost, reported by an error
	std::string sofar;		   // parts of the message that is sent, which were accepted
	bool msgFailed = false, msgStarted = false;
	int perm = 0;
	bool intr = false;
	int pollErr = 0;
	bool inDecode = false;
	int marks = 0, efsm = 0;
	int decodes = 0;
	u64 key = 1;
	int forced = 0;
	i64 maxTimeout = 0;
	bool zpolled = false;
	std::deque<std::string> late;
	bool recvFailed = false;

	ZmqWorld(Ctx& c, Config const& g) : World(c, g), sink(*this)
	{
		os = this;
		reallocFailAfter = -1;
		reallocFailed = false;
		hwm = (size_t)std::max<i64>(1, cfg.get("hwm", 4));
		rep = cfg.get("rep");
		up = cfg.get("up", 1);
		void* x = cfg.get("ctx") ? (void*)&ctxB : nullptr;
		if(rep) {
			int port = (int)cfg.get("port", 19026);
			layer.reset(new stored::DebugZmqLayer(x, port));
			if(!cfg.get("ctorerr") && (bound != "tcp://*:" + std::to_string((unsigned)port & 0xffffu) || !connected_.empty()))
				ctx.fail("construct", "the socket is bound to %s", bound.c_str());
		} else {
			layer.reset(new stored::SyncZmqLayer(x, "tcp://a:1", cfg.get("listen")));
			if(!cfg.get("ctorerr") && (cfg.get("listen") ? bound : connected_) != "tcp://a:1")
				ctx.fail("construct", "the socket is bound to '%s' and connected to '%s'", bound.c_str(), connected_.c_str());
		}
		layer->wrap(sink);
		if(!!cfg.get("ctorerr") != !!layer->lastError())
			ctx.fail("construct", "error %d is reported after construction, while error %d occurred", layer->lastError(), (int)cfg.get("ctorerr"));
		if(!cfg.get("ctorerr")) {
			if(type != (rep ? ZMQ_REP : ZMQ_DEALER))
				ctx.fail("construct", "the socket is of type %d", type);
			if(layer->fd() != 77)
				ctx.fail("construct", "the file descriptor of the socket is %d", layer->fd());
			if(layer->socket() != &sock || layer->context() != (x ? x : (void*)&ctxA))
				ctx.fail("construct", "the layer has another socket or context");
		} else
			usable = false;
	}
	~ZmqWorld() override
	{
		destroy();
		for(auto m : open)
			delete m;
		os = nullptr;
	}
	void destroy()
	{
		layer.reset();
	}

	///////////////////////////////////////////////////////////////
	// libzmq

	void* zctx() override
	{
		ctxUp = true;
		return &ctxA;
	}
	int zterm(void* x) override
	{
		if(x != &ctxA || !ctxUp || ctxTerm)
			ctx.fail("context", "a context is terminated that is not the layer's own");
		if(sockUp)
			ctx.fail("context", "terminating the context blocks, as the socket is not closed");
		ctxTerm = true;
		return 0;
	}
	void* zsocket(void* x, int t) override
	{
		if(x != &ctxA && x != &ctxB)
			ctx.fail("context", "a socket is created in an unknown context");
		if(cfg.get("ctorerr") == EMFILE) {
			errno = EMFILE;
			return nullptr;
		}
		type = t;
		sockUp = true;
		return &sock;
	}
	int zclose(void* s) override
	{
		if(!s) {
			errno = ENOTSOCK;
			return -1;
		}
		if(s != &sock || !sockUp) {
			ctx.fail("socket", "a socket is closed that is not open");
			errno = ENOTSOCK;
			return -1;
		}
		sockUp = false;
		closed = true;
		return 0;
	}
	int zbind(void* s, char const* ep) override
	{
		if(s != &sock || cfg.get("ctorerr")) {
			errno = (int)cfg.get("ctorerr");
			return -1;
		}
		bound = ep;
		return 0;
	}
	int zconnect(void* s, char const* ep) override
	{
		if(s != &sock || cfg.get("ctorerr")) {
			errno = (int)cfg.get("ctorerr");
			return -1;
		}
		connected_ = ep;
		return 0;
	}
	int zgetsockopt(void* s, int opt, void* v, size_t* n) override
	{
		if(s != &sock || opt != ZMQ_FD || *n < sizeof(int)) {
			errno = EINVAL;
			return -1;
		}
		int fd = 77;
		memcpy(v, &fd, sizeof(fd));
		*n = sizeof(fd);
		return 0;
	}

	Msg*& get(zmq_msg_t* m) { return *reinterpret_cast<Msg**>(m); }
	Msg* get(zmq_msg_t const* m) { return *reinterpret_cast<Msg* const*>(m); }
	int zmsgInit(zmq_msg_t* m) override
	{
		auto x = new Msg();
		x->buf.reset(new char[0]);
		open.insert(x);
		get(m) = x;
		return 0;
	}
	int zmsgRecv(zmq_msg_t* m, void* s, int flags) override
	{
		if(!open.count(get(m)))
			ctx.fail("message", "a message is received that is not initialised");
		if(s != &sock || !sockUp) {
			errno = ENOTSOCK;
			return -1;
		}
		int e = recvFault.empty() ? 0 : recvFault.front();
		if(e) {
			recvFault.pop_front();
			ctx.fault("recv-error");
			if(e == EINTR)
				intr = true;
			else
				perm = e;
			recvFailed = true;
			errno = e;
			return -1;
		}
		if(rep && repSend) {
			efsm++;
			errno = EFSM;
			return -1;
		}
		if(in.empty()) {
			if(flags & ZMQ_DONTWAIT) {
				errno = EAGAIN;
				return -1;
			}
			ctx.fail("blocks", "a receive blocks");
			perm = errno = ETERM;
			return -1;
		}
		auto& f = in.front();
		auto x = get(m);
		x->data = f.parts[inPart];
		x->buf.reset(new char[x->data.size()]);
		if(!x->data.empty())
			memcpy(x->buf.get(), x->data.data(), x->data.size());
		x->shared = f.shared;
		x->more = ++inPart < f.parts.size();
		if(!x->more) {
			in.pop_front();
			inPart = 0;
			if(rep)
				repSend = true;
		}
		return (int)x->data.size();
	}
	int zmsgMore(zmq_msg_t const* m) override { return get(m)->more; }
	size_t zmsgSize(zmq_msg_t const* m) override { return get(m)->data.size(); }
	void* zmsgData(zmq_msg_t* m) override { return get(m)->buf.get(); }
	int zmsgGet(zmq_msg_t const* m, int prop) override
	{
		if(prop == ZMQ_SHARED)
			return get(m)->shared;
		if(prop == ZMQ_MORE)
			return get(m)->more;
		errno = EINVAL;
		return -1;
	}
	int zmsgClose(zmq_msg_t* m) override
	{
		auto x = get(m);
		if(!open.count(x)) {
			ctx.fail("message", "a message is closed that is not open");
			return 0;
		}
		open.erase(x);
		if(x->shared && x->data.compare(0, std::string::npos, x->buf.get(), x->data.size()))
			ctx.fail("shared", "a shared message is modified");
		delete x;
		return 0;
	}

	bool writable() const { return rep ? repSend : outMid || (up && out.size() < hwm); }
	bool readable() const { return !in.empty() && !(rep && repSend); }

	int zsend(void* s, void const* buf, size_t n, int flags) override
	{
		if(s != &sock || !sockUp) {
			errno = ENOTSOCK;
			return -1;
		}
		// Within a message, nothing goes wrong.
		int e = sendFault.empty() ? 0 : sendFault.front();
		if(e && !outMid) {
			sendFault.pop_front();
			ctx.fault("send-error");
			if(e != EAGAIN) {
				perm = e;
				errno = e;
				return -1;
			}
			if(flags & ZMQ_DONTWAIT) {
				errno = e;
				return -1;
			}
		}
		if(rep && !repSend) {
			ctx.fault("out-of-state");
			perm = errno = EFSM;
			return -1;
		}
		for(int i = 0; !writable(); i++) {
			if(flags & ZMQ_DONTWAIT) {
				ctx.fault("would-block");
				errno = EAGAIN;
				return -1;
			}
			if(i > 1000) {
				ctx.fail("blocks", "a send blocks forever");
				perm = errno = ETERM;
				return -1;
			}
			force(false);
		}
		std::string x((char const*)buf, n);
		outPart.push_back(x);
		outMid = flags & ZMQ_SNDMORE;
		if(!outMid) {
			std::string all;
			for(auto const& p : outPart)
				all += p;
			outPart.clear();
			ctx.log("out %zu", all.size());
			if(!inDecode && !msgStarted && usable) {
				// Sent by the layer itself
				marks++;
				if(all != "?" || !rep)
					ctx.fail("invented", "a message of %zu bytes is sent that nobody asked for", all.size());
				expectOut.push_back(all);
			}
			out.push_back(all);
			if(rep)
				repSend = false;
		}
		return (int)n;
	}

	void force(bool reading)
	{
		forced++;
		ctx.now += 1000;
		if(reading) {
			if(rep && repSend) {
				// Cannot be resolved.
				return;
			}
			peer(Op("peer", {0, forced % 3 + 1, forced * 7919LL, 0}));
		} else {
			up = true;
			take(1);
		}
	}

	int zpoll(zmq_pollitem_t* p, int n, long timeout) override
	{
		if(n != 1 || p->socket != &sock) {
			ctx.fail("poll", "%d sources are polled, or another socket", n);
			errno = EINVAL;
			return -1;
		}
		zpolled = true;
		maxTimeout = std::max<i64>(maxTimeout, timeout < 0 ? (i64)1 << 40 : timeout);
		i64 end = timeout < 0 ? -1 : ctx.now + timeout * 1000;
		auto scan = [&]() {
			p->revents = 0;
			if((p->events & ZMQ_POLLIN) && readable())
				p->revents |= ZMQ_POLLIN;
			if((p->events & ZMQ_POLLOUT) && writable())
				p->revents |= ZMQ_POLLOUT;
			return p->revents ? 1 : 0;
		};
		for(int guard = 0; guard < 10000; guard++) {
			if(!pollFault.empty()) {
				int e = pollFault.front();
				pollFault.pop_front();
				ctx.fault(e == EINTR ? "poll-interrupted" : "poll-error");
				if(e == EINTR)
					intr = true;
				else
					perm = e;
				errno = e;
				return -1;
			}
			int x = scan();
			if(x || !timeout)
				return x;
			ctx.fault("blocked");
			if(!sched.empty() && (end < 0 || sched.front().t <= end)) {
				auto s = sched.front();
				sched.pop_front();
				ctx.now = std::max(ctx.now, s.t);
				peer(s.op);
			} else if(end >= 0) {
				ctx.now = end;
				return scan();
			} else {
				if(guard > 100) {
					// For example, a REP socket that is waited for while it has to send first.
					perm = errno = ETERM;
					return -1;
				}
				force(p->events & ZMQ_POLLIN);
			}
		}
		perm = errno = ETERM;
		return -1;
	}

	///////////////////////////////////////////////////////////////
	// The peer

	void take(size_t n)
	{
		for(; n && !out.empty(); n--) {
			auto m = out.front();
			out.pop_front();
			if(expectOut.empty() || expectOut.front() != m) {
				// It may be the one that is being sent right now.
				ctx.fail(expectOut.empty() ? "invented" : "message", "a message of %zu bytes arrives, expected %zu", m.size(),
					expectOut.empty() ? (size_t)0 : expectOut.front().size());
				return;
			}
			expectOut.pop_front();
			ctx.log("peer gets %zu", m.size());
		}
	}

	void peer(Op const& op)
	{
		switch(op.arg(0)) {
		case 0: { // send
			if(in.size() > 20 || (rep && !in.empty() && !cfg.get("clients")))
				break;
			Incoming m;
			size_t parts = (size_t)std::min<i64>(std::max<i64>(1, op.arg(1)), 5);
			Rng r((u64)op.arg(2));
			std::string all;
			for(size_t i = 0; i < parts; i++) {
				size_t n = r.chance(150) ? 0 : r.chance(100) ? (size_t)r.range(100, 700) : (size_t)r.range(1, 60);
				m.parts.push_back(content(mix(key++, 0xabc), n, (int)(key & 1)));
				all += m.parts.back();
			}
			m.shared = r.chance(300);
			in.push_back(m);
			expectIn.push_back(all);
			ctx.log("peer sends %zu parts, %zu bytes", parts, all.size());
			break;
		}
		case 1: // receive
			take((size_t)std::max<i64>(0, op.arg(1)));
			break;
		case 2: // (dis)connect
			if(!rep && !outMid) {
				up = !up;
				ctx.fault("peer-connection");
			}
			break;
		}
	}

	Op gen(Rng& rng) override
	{
		switch(rng.weighted({25, 20, 30, 10, 10})) {
		case 0:
			return Op("send", {rng.chance(500) ? 1 : rng.range(1, 4), (i64)rng.below(1000000)});
		case 1: return Op("recv", {rng.pick(std::vector<i64>{0, 0, 0, 500, 1000, 20000, -1, -1})});
		case 2: {
			Op op("peer", {(i64)rng.weighted({10, 8, 1}), rng.chance(500) ? 1 : rng.range(1, 4), (i64)rng.below(1000000), 0});
			if(rng.chance(400))
				op.a[3] = rng.range(0, 30000);
			return op;
		}
		case 3: {
			i64 w = (i64)rng.weighted({4, 6, 8, cfg.get("oom") ? 6 : 0});
			std::vector<i64> e;
			switch(w) {
			case 0: e = {EINTR, EINTR, cfg.get("perm") ? ETERM : EINTR}; break;
			case 1: e = {EAGAIN, EAGAIN, EAGAIN, cfg.get("perm") ? EINTR : EAGAIN, cfg.get("perm") ? EHOSTUNREACH : EAGAIN}; break;
			case 2: e = {EINTR, EINTR, cfg.get("perm") ? EFAULT : EINTR}; break;
			default: e = {1, 1, 2, 3};
			}
			return Op("fault", {w, rng.pick(e)});
		}
		default: return Op("wait", {rng.range(0, 20000)});
		}
	}

	void call()
	{
		perm = 0;
		intr = recvFailed = false;
		maxTimeout = 0;
		zpolled = false;
	}

	// One message, in parts.
	void send(size_t parts, u64 seed)
	{
		Rng r(seed);
		msgStarted = true;
		msgFailed = false;
		sofar.clear();
		for(size_t i = 0; i < parts; i++) {
			size_t n = r.chance(150) ? 0 : r.chance(100) ? (size_t)r.range(100, 700) : (size_t)r.range(1, 60);
			std::string s = content(mix(key++, seed), n, (int)(seed & 1));
			bool last = i + 1 == parts;
			std::unique_ptr<char[]> copy(new char[n]);
			if(n)
				memcpy(copy.get(), s.data(), n);
			int p0 = perm;
			perm = 0;
			// When it gets out, the peer may get it immediately.
			bool push = last && !msgFailed;
			if(push)
				expectOut.push_back(sofar + s);
			size_t outs = out.size();
			layer->encode(copy.get(), n, last);
			(void)outs;
			int e = layer->lastError();
			ctx.log("send %zu%s -> %d", n, last ? "" : "+", e);
			if(n && memcmp(copy.get(), s.data(), n))
				ctx.fail("changed", "encoding changes the buffer");
			if(e && push)
				expectOut.pop_back();
			if(e && !perm && !msgFailed)
				ctx.fail("refused", "error %d is reported, while nothing permanent happened", e);
			if(!e && perm)
				ctx.fail("unreported", "error %d is not reported", perm);
			if(!e && msgFailed)
				ctx.fail("truncated", "part %d is sent, while an earlier part of the same message was not", (int)i);
			if(e && perm && e != perm)
				ctx.fail("error", "error %d is reported as %d", perm, e);
			if(e == EAGAIN)
				ctx.fail("refused", "sending gives EAGAIN");
			if(e) {
				msgFailed = true;
				ctx.probe("send-failed");
			}
			sofar += s;
			perm = p0;
			if(ctx.failed)
				break;
		}
		msgStarted = false;
		if(msgFailed && outMid && !ctx.failed)
			ctx.probe("stuck");
	}

	void decoded(void* buffer, size_t len)
	{
		std::string s((char const*)buffer, len);
		if(len)
			memset(buffer, 0x55, len);
		decodes++;
		ctx.log("decode %zu", len);
		for(; dropped && !expectIn.empty() && expectIn.front() != s; dropped--)
			expectIn.pop_front();
		if(expectIn.empty() || expectIn.front() != s) {
			ctx.fail(expectIn.empty() ? "invented" : "message", "%zu bytes are received, expected a message of %zu bytes", len,
				expectIn.empty() ? (size_t)0 : expectIn.front().size());
			return;
		}
		expectIn.pop_front();
		if(rep || cfg.get("echo")) {
			u64 h = mix(key++, (u64)cfg.get("rseed"));
			if(h % 16 == 0) {
				ctx.probe("no-reply");
				return;
			}
			bool d = inDecode;
			inDecode = true;
			send(1 + h % 4, h);
			inDecode = d;
		}
	}

	void recv(i64 timeout)
	{
		call();
		int d0 = decodes, m0 = marks, e0 = efsm;
		reallocFailed = false;
		size_t pending = in.size();
		i64 start = ctx.now;
		bool stuck = rep && repSend;
		int e = layer->recv(timeout);
		ctx.log("recv %lld -> %d", (long long)timeout, e);
		if(!rep && e != layer->lastError())
			ctx.fail("error", "recv() gives %d, while the last error is %d", e, layer->lastError());
		bool got = decodes != d0;
		bool oom = reallocFailed;
		if(oom) {
			ctx.fault("allocation-failure");
			dropped++;
		}
		if(!e && !got)
			ctx.fail("nothing", "success is reported, while nothing is received");
		if(e == EAGAIN && got)
			ctx.fail("error", "data is received, but EAGAIN is reported");
		if(e == EAGAIN && timeout < 0)
			ctx.fail("timeout", "an infinite receive ends with EAGAIN");
		if(e == EAGAIN && timeout >= 1000 && ctx.now - start < timeout / 1000 * 1000)
			ctx.fail("timeout", "a receive of %lld us ends after %lld us", (long long)timeout, (long long)(ctx.now - start));
		if(e && e != EAGAIN && !recvFailed && !perm && !oom && efsm == e0 && !intr)
			ctx.fail("error", "a receive gives error %d, while nothing happened", e);
		if(!e && oom)
			ctx.fail("unreported", "a message is dropped without an error");
		if(timeout == 0 && maxTimeout && !got && !zsendBlocked())
			ctx.fail("blocks", "a receive without timeout blocks");
		if(efsm > e0 && !rep)
			ctx.fail("error", "out of state");
		if(rep && marks - m0 > (efsm - e0))
			ctx.fail("invented", "%d error replies are sent", marks - m0);
		if(rep && stuck && !recvFailed && !perm && repSend && !got)
			ctx.fail("out-of-step", "the server does not answer while it is out of step");
		if(!e && !recvFailed && !oom && pending && !in.empty() && !rep && timeout >= 0 && !perm && sched.empty() && decodes - d0 < (int)pending)
			ctx.fail("left", "%zu messages are left", in.size());
		reallocFailAfter = -1;
	}
	bool zsendBlocked() const { return rep || cfg.get("echo"); }

	void exec(Op const& op) override
	{
		ctx.now += op.dt;
		if(!usable) {
			call();
			if(op.is("send") && cfg.get("ctorerr") == EMFILE) {
				layer->encode("x", 1, true);
				if(!layer->lastError())
					ctx.fail("unreported", "success is reported, while there is no socket");
			} else if(op.is("recv") && cfg.get("ctorerr") == EMFILE) {
				if(!layer->recv(0))
					ctx.fail("unreported", "success is reported, while there is no socket");
			}
			return;
		}
		while(!sched.empty() && sched.front().t <= ctx.now) {
			auto s = sched.front();
			sched.pop_front();
			peer(s.op);
		}
		if(op.is("send")) {
			if(outMid)
				return; // Stuck halfway a message, after a permanent error
			call();
			send((size_t)std::min<i64>(std::max<i64>(1, op.arg(0)), 5), (u64)op.arg(1));
		} else if(op.is("recv")) {
			if(outMid)
				return;
			recv(std::max<i64>(-1, op.arg(0)));
		} else if(op.is("peer")) {
			if(op.arg(3) > 0 && sched.size() < 50) {
				Sched s{ctx.now + op.arg(3), op};
				auto it = sched.begin();
				while(it != sched.end() && it->t <= s.t)
					++it;
				sched.insert(it, s);
			} else
				peer(op);
		} else if(op.is("fault")) {
			int e = (int)op.arg(1);
			if(e <= 0 || e > 1000000000)
				return;
			if(op.arg(0) == 3)
				reallocFailAfter = std::min(e, 10) - 1;
			else {
				auto& q = op.arg(0) == 0 ? recvFault : op.arg(0) == 1 ? sendFault : pollFault;
				if(e == EAGAIN && op.arg(0) != 1)
					return;
				if(q.size() < 20)
					q.push_back(e);
			}
		} else if(op.is("wait"))
			ctx.now += std::max<i64>(0, op.arg(0));
		ctx.state(mix(mix((u64)rep, (u64)layer->lastError()), mix(in.size() * 64 + out.size(), (u64)repSend * 4 + (u64)up * 2 + (u64)outMid)));
		if(decodes > 1)
			ctx.nontrivial = true;
	}

	void finish() override
	{
		if(usable && !outMid) {
			recvFault.clear();
			sendFault.clear();
			pollFault.clear();
			sched.clear();
			reallocFailAfter = -1;
			up = true;
			take(out.size());
			// After all faults, it works again.
			for(int i = 0; i < 60 && !ctx.failed; i++) {
				if(i < 3)
					peer(Op("peer", {0, i + 1, i * 31LL}));
				recv(0);
				take(out.size());
				if(i >= 3 && in.empty() && !repSend)
					break;
			}
			if(!ctx.failed) {
				if(!in.empty())
					ctx.fail("lost", "%zu messages are not received", in.size());
				if(rep && repSend)
					ctx.fail("out-of-step", "a request is never answered");
				// An allocation failure may have dropped the last one.
				if((int)expectIn.size() > dropped)
					ctx.fail("lost", "%zu messages are not decoded", expectIn.size());
			}
			if(!rep && !ctx.failed) {
				call();
				send(2, 99);
				if(msgFailed)
					ctx.fail("refused", "sending fails, while all faults are gone");
				take(out.size());
			}
			if(!ctx.failed && !expectOut.empty())
				ctx.fail("lost", "%zu messages do not arrive, while success is reported", expectOut.size());
		}
		bool own = !cfg.get("ctx");
		bool had = sockUp;
		destroy();
		if(!open.empty())
			ctx.fail("leak", "%zu messages are never closed", open.size());
		if(had && !closed)
			ctx.fail("leak", "the socket is never closed");
		if(own != ctxTerm)
			ctx.fail("context", own ? "the context is never terminated" : "somebody else's context is terminated");
	}
};

void ZSink::decode(void* buffer, size_t len)
{
	w.decoded(buffer, len);
}
} // namespace

void zmqConfig(Rng& rng, Config& c)
{
	c["rep"] = rng.chance(400);
	c["hwm"] = rng.range(1, 5);
	c["up"] = rng.chance(800);
	c["ctx"] = rng.chance(500);
	c["listen"] = rng.chance(500);
	c["port"] = rng.pick(std::vector<i64>{19026, 1, 65535});
	c["ctorerr"] = rng.chance(30) ? rng.pick(std::vector<i64>{EMFILE, EADDRINUSE}) : 0;
	c["perm"] = rng.chance(300);
	c["oom"] = rng.chance(400);
	c["echo"] = rng.chance(300);
	c["clients"] = rng.chance(500);
	c["rseed"] = (i64)rng.below(1u << 20);
}
World* makeZmq(Ctx& c, Config const& cfg) { return new ZmqWorld(c, cfg); }
} // namespace sim
#endif
