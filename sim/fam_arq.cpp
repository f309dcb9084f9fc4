// P01, P02: ArqLayer over a lossy, delaying FIFO line.
#include "kernel.h"

#include <stored>

#include <deque>
#include <set>

using namespace sim;

namespace {

struct Frame {
	std::string data;
	i64 sentAt;
};

class ArqWorld;

// Application on top of the ARQ layer.
class App : public stored::ProtocolLayer {
public:
	App(ArqWorld& w, int id) : w(w), id(id) {}
	virtual void decode(void* buffer, size_t len) override;
	virtual void connected() override;
	ArqWorld& w;
	int id;
};

// The line below the ARQ layer.
class Port : public stored::ProtocolLayer {
public:
	Port(ArqWorld& w, int id) : w(w), id(id) {}
	virtual void encode(void const* buffer, size_t len, bool last = true) override;
	using stored::ProtocolLayer::encode;
	ArqWorld& w;
	int id;
	std::string partial;
};

struct Peer {
	std::unique_ptr<App> app;
	std::unique_ptr<stored::ArqLayer> arq;
	std::unique_ptr<Port> port;
};

class ArqWorld : public World {
public:
	bool withResets;
	bool patient; // retransmit only when nothing is in flight
	bool keepLineOnRestart;
	Peer peer[2];
	std::deque<Frame> line[2]; // line[p]: frames sent by p
	// direction d: from peer d to peer !d
	struct Msg {
		std::string data;
		int epoch; // incarnation of the sender's queue
	};
	std::vector<Msg> sent[2];
	std::set<size_t> pos[2]; // possible positions of the receiver in sent[d]
	int epoch[2] = {0, 0};
	int dupBudget[2] = {1, 1}; // repeats allowed; the initial handshake is a reset
	bool assembling[2] = {false, false};
	std::string assembly[2];
	int reconnects[2] = {0, 0};
	int retransmitEvents[2] = {0, 0};
	int overflowEvents[2] = {0, 0};
	int connects[2] = {0, 0};
	u64 delivered[2] = {0, 0};
	u64 quiet = 0;
	int depth = 0;
	int sending[2] = {0, 0};
	bool finishing = false;
	int replies = 0; // within one step
	bool resetPending[2] = {true, true}; // p retransmits its reset
	u64 frames = 0;
	i64 replyMod;
	size_t maxbuf;

	ArqWorld(Ctx& c, Config const& cfg)
		: World(c, cfg), withResets(cfg.get("resets")), patient(cfg.get("patient")),
		  keepLineOnRestart(cfg.get("keepline")), replyMod(cfg.get("replymod")),
		  maxbuf((size_t)cfg.get("maxbuf"))
	{
		for(int p = 0; p < 2; p++) {
			pos[p].insert(0);
			construct(p);
		}
	}

	void construct(int p)
	{
		Peer& q = peer[p];
		q.app.reset(new App(*this, p));
		q.arq.reset(new stored::ArqLayer(maxbuf, q.app.get(), nullptr));
		q.port.reset(new Port(*this, p));
		q.port->wrap(*q.arq);
		q.arq->setEventCallback([this, p](stored::ArqLayer&, stored::ArqLayer::Event e) {
			ctx.log("event %d %d", p, (int)e);
			switch(e) {
			case stored::ArqLayer::EventReconnect:
				reconnects[p]++;
				ctx.probe("reconnect");
				allowDup();
				break;
			case stored::ArqLayer::EventRetransmit:
				retransmitEvents[p]++;
				ctx.probe("retransmit-event");
				break;
			case stored::ArqLayer::EventEncodeBufferOverflow:
				overflowEvents[p]++;
				ctx.probe("overflow-event");
				break;
			default:
				break;
			}
		});
	}

	void allowDup()
	{
		dupBudget[0]++;
		dupBudget[1]++;
	}

	void onFrame(int p, std::string const& f)
	{
		frames++;
		// Does it end with a reset message?
		size_t h = 0;
		while(h < f.size() && ((unsigned char)f[h] & 0x80u))
			h++;
		resetPending[p] = h < f.size() && f[h] == 0x40;
		ctx.logBytes("frame", p, f.data(), f.size());
		line[p].push_back({f, ctx.now});
		if(cfg.get("sync") && !finishing && depth < 4 && line[p].size() == 1) {
			depth++;
			deliver(p);
			depth--;
		}
	}

	void deliver(int p)
	{
		if(line[p].empty())
			return;
		// Some bytes behind the frame, so overreads are seen.
		Frame f = line[p].front();
		line[p].pop_front();
		std::vector<char> buf(f.data.begin(), f.data.end());
		if(ctx.now - f.sentAt > 100000)
			ctx.fault("delay");
		peer[!p].arq->decode(buf.data(), buf.size());
		abstract();
	}

	void abstract()
	{
		u64 h = 0;
		for(int p = 0; p < 2; p++) {
			h = mix(h, std::min<size_t>(line[p].size(), 6));
			for(size_t i = 0; i < line[p].size() && i < 6; i++)
				for(size_t j = 0; j < line[p][i].data.size() && j < 2; j++)
					h = mix(h, (unsigned char)line[p][i].data[j]);
			h = mix(h, peer[p].arq->waitingForAck());
			h = mix(h, std::min<size_t>(peer[p].arq->retransmits(), 12));
			h = mix(h, std::min<size_t>(sent[p].size() - *pos[p].rbegin(), 5));
			h = mix(h, (u64)assembling[p]);
		}
		ctx.state(h);
	}

	void onDecode(int p, std::string const& m)
	{
		// Peer p received m; direction d.
		int d = !p;
		ctx.logBytes("recv", p, m.data(), m.size());
		delivered[d]++;
		std::set<size_t> n;
		for(size_t j : pos[d])
			for(size_t k = j; k < sent[d].size(); k++) {
				if(sent[d][k].data == m)
					n.insert(k + 1);
				// Messages lost by a restart of their sender may be skipped.
				if(sent[d][k].epoch == epoch[d])
					break;
			}
		bool dup = false;
		if(n.empty() && dupBudget[d] > 0) {
			for(size_t j : pos[d])
				if(j > 0 && sent[d][j - 1].data == m) {
					n.insert(j);
					dup = true;
				}
			if(dup)
				dupBudget[d]--;
		}
		if(n.empty()) {
			// Classify for the report.
			size_t at = *pos[d].begin();
			char const* what = "corrupted or unknown message";
			for(size_t k = 0; k < sent[d].size(); k++)
				if(sent[d][k].data == m)
					what = k < at ? "message repeated" : "message skipped or reordered";
			ctx.fail(k_order, "peer %d received an unexpected message (%s), expected #%zu of %zu, len %zu",
				 p, what, at, sent[d].size(), m.size());
			return;
		}
		if(dup) {
			ctx.probe("duplicate-around-reset");
			// Keep the non-rewound alternatives too.
		}
		pos[d] = n;
		if(replyMod && !assembling[p] && !finishing && replies++ < 50
		   && (i64)(hashBytes(1, m.data(), m.size()) % (u64)replyMod) == 0)
			send(p, (size_t)(mix(m.size(), sent[p].size()) % 9), 1, 0);
	}
	static constexpr char const* k_order = "delivery-order";

	std::string make(int p, size_t len, int style)
	{
		std::string s = content(mix((u64)p + 10, sent[p].size()), len, style);
		// Make them unique where possible.
		u64 id = sent[p].size();
		for(size_t i = 0; i < len && i < 4; i++)
			s[i] = (char)(id >> (8 * (i < 2 ? i : 0)) ^ (i >= 2 ? 0x5a : 0));
		return s;
	}

	void send(int p, size_t len, size_t parts, int style)
	{
		std::string m = make(p, len, style);
		ctx.logBytes("send", p, m.data(), m.size());
		sent[p].push_back({m, epoch[p]});
		int before = overflowEvents[p];
		size_t out = outstanding(p);
		bool empty = !cfg.get("sync") && !peer[p].arq->waitingForAck() && !sending[p];
		bool nested = sending[p] > 0;
		sending[p]++;
		size_t at = 0;
		assembling[p] = true;
		for(size_t i = 0; i < parts; i++) {
			if(i + 1 == parts)
				assembling[p] = false;
			size_t n = i + 1 == parts ? len - at : std::min(len - at, len / parts);
			// Exact-size heap copy.
			std::vector<char> b(m.begin() + (long)at, m.begin() + (long)(at + n));
			peer[p].arq->encode(b.data(), n, i + 1 == parts);
			at += n;
		}
		sending[p]--;
		if(!nested)
			checkOverflow(p, before, out, empty && len + 2 <= maxbuf);
	}

	// Bytes of messages that were sent by p, but not received at the other side.
	size_t outstanding(int p)
	{
		size_t n = 0;
		for(size_t i = *pos[p].rbegin(); i < sent[p].size(); i++)
			if(sent[p][i].epoch == epoch[p])
				n += sent[p][i].data.size() + 1;
		return n;
	}

	void checkOverflow(int p, int before, size_t out, bool mustFit)
	{
		if(!maxbuf)
			return;
		bool ev = overflowEvents[p] > before;
		if(!ev && out > maxbuf)
			ctx.fail("overflow-event",
				 "peer %d queued %zu bytes with a limit of %zu, but no overflow was reported", p,
				 out, maxbuf);
		if(ev && mustFit)
			ctx.fail("overflow-event", "overflow reported with an empty queue and a fitting message");
	}

	virtual Op gen(Rng& r) override
	{
		int p = (int)r.below(2);
		std::vector<i64> w = {cfg.get("w_send"), cfg.get("w_deliver"), cfg.get("w_drop"),
				      cfg.get("w_flush"), cfg.get("w_keep"), cfg.get("w_part"),
				      withResets ? cfg.get("w_restart") : 0, withResets ? cfg.get("w_reset") : 0,
				      cfg.get("w_shrink"), cfg.get("w_drain"), cfg.get("w_burst"), cfg.get("w_lossburst")};
		Op o;
		switch(r.weighted(w)) {
		case 0:
			o = Op("send", {p, (i64)r.below((u64)cfg.get("maxlen") + 1), r.chance(300) ? r.range(1, 4) : 1,
					r.range(0, 3)});
			break;
		case 1:
			o = Op("deliver", {p});
			break;
		case 2:
			o = Op("drop", {p});
			break;
		case 3:
			o = Op("flush", {p});
			break;
		case 4:
			o = Op("keepalive", {p});
			break;
		case 5:
			o = Op("part", {p, (i64)r.below(20), r.chance(500)});
			break;
		case 6:
			o = Op("restart", {p});
			break;
		case 7:
			o = Op("reset", {p});
			break;
		case 8:
			o = Op("shrink", {p});
			break;
		case 9:
			o = Op("drain", {r.range(1, 40)});
			break;
		case 10:
			o = Op("burst", {p, r.range(2, 20), (i64)r.below(12)});
			break;
		default:
			o = Op("lossburst", {p, r.range(1, 12)});
		}
		o.dt = r.chance(50) ? r.range(0, 1000000) : r.range(0, 20000);
		return o;
	}

	bool mayRetransmit(int)
	{
		// Retransmitting during the handshake is a known finding, see known-findings.txt.
		if(line[0].empty() && line[1].empty())
			return true;
		return !patient && (cfg.get("storm") || !(resetPending[0] || resetPending[1]));
	}

	virtual void exec(Op const& o) override
	{
		replies = 0;
		int p = (int)o.arg(0) & 1;
		if(o.is("send")) {
			if(!assembling[p] && mayRetransmit(p))
				send(p, (size_t)o.arg(1), (size_t)std::max<i64>(1, o.arg(2, 1)), (int)o.arg(3));
		} else if(o.is("burst")) {
			for(i64 i = 0; i < o.arg(1) && !assembling[p]; i++)
				if(mayRetransmit(p))
					send(p, (size_t)(o.arg(2) + i % 3), 1, 0);
		} else if(o.is("deliver")) {
			deliver(p);
		} else if(o.is("drop")) {
			drop(p);
		} else if(o.is("lossburst")) {
			// Everything of p is lost while it keeps trying.
			for(i64 i = 0; i < o.arg(1); i++) {
				while(!line[p].empty())
					drop(p);
				if(!mayRetransmit(p))
					for(int k = 0; k < 20 && !line[!p].empty(); k++)
						deliver(!p);
				if(!assembling[p] && mayRetransmit(p))
					peer[p].arq->keepAlive();
			}
		} else if(o.is("flush")) {
			if(mayRetransmit(p))
				peer[p].arq->flush();
		} else if(o.is("keepalive")) {
			if(mayRetransmit(p) && !assembling[p])
				peer[p].arq->keepAlive();
		} else if(o.is("part")) {
			if(!mayRetransmit(p))
				return;
			std::string s = content(mix((u64)p + 20, sent[p].size() * 100 + assembly[p].size()),
						(size_t)o.arg(1));
			assembly[p] += s;
			bool last = o.arg(2) != 0;
			assembling[p] = !last;
			if(last) {
				sent[p].push_back({assembly[p], epoch[p]});
				ctx.logBytes("send", p, assembly[p].data(), assembly[p].size());
				assembly[p].clear();
			}
			std::vector<char> b(s.begin(), s.end());
			peer[p].arq->encode(b.data(), b.size(), last);
			ctx.probe("partial-encode");
		} else if(o.is("shrink")) {
			peer[p].arq->shrink_to_fit();
		} else if(o.is("drain")) {
			for(i64 i = 0; i < o.arg(0) && !ctx.failed; i++) {
				deliver(0);
				deliver(1);
			}
		} else if(o.is("restart") || o.is("reset")) {
			resetPeer(p, o.is("restart"));
		}
		abstract();
	}

	void drop(int p)
	{
		if(line[p].empty())
			return;
		ctx.log("drop %d", p);
		ctx.fault(finishing ? "flush-loss" : "loss");
		line[p].pop_front();
	}

	void resetPeer(int p, bool restart)
	{
		ctx.log("%s %d", restart ? "restart" : "reset", p);
		ctx.fault(restart ? "peer-restart" : "peer-reset");
		// Its queue is lost.
		epoch[p]++;
		assembling[p] = false;
		assembly[p].clear();
		allowDup();
		if(!keepLineOnRestart) {
			// What was on the wire is gone.
			line[0].clear();
			line[1].clear();
		}
		if(restart) {
			if(line[p].size() || line[!p].size())
				ctx.probe("restart-with-frames-in-flight");
			// Construction transmits the first reset.
			peer[p].arq.reset();
			peer[p].port.reset();
			peer[p].app.reset();
			construct(p);
		} else {
			int before = retransmitEvents[p];
			peer[p].arq->reset();
			if(retransmitEvents[p] != before || peer[p].arq->retransmits() != 0)
				ctx.fail("retransmit-count", "retransmits of before the reset are reported (%zu)", peer[p].arq->retransmits());
		}
	}

	bool idle(int p)
	{
		return !peer[p].arq->waitingForAck();
	}

	bool complete(int d)
	{
		// All messages of the current incarnation are received.
		for(size_t j : pos[d]) {
			bool ok = true;
			for(size_t k = j; k < sent[d].size(); k++)
				if(sent[d][k].epoch == epoch[d])
					ok = false;
			if(ok)
				return true;
		}
		return false;
	}

	// Deliver until silent; false if it does not become silent.
	bool settle(u64 limit)
	{
		u64 n = 0;
		while(!line[0].empty() || !line[1].empty()) {
			if(n++ > limit || ctx.failed)
				return false;
			ctx.now += 1000;
			deliver(0);
			if(ctx.failed)
				return false;
			deliver(1);
		}
		return true;
	}

	void quiesce(char const* phase)
	{
		u64 queued = 0;
		for(int d = 0; d < 2; d++)
			queued += sent[d].size() - *pos[d].begin();
		u64 rounds = 0;
		u64 maxRounds = 12;
		while(!ctx.failed) {
			if(!settle(6 * queued + 200)) {
				ctx.fail("ping-pong",
					 "%s: the peers keep exchanging frames on a perfect line without application activity", phase);
				return;
			}
			if(complete(0) && complete(1) && idle(0) && idle(1))
				return;
			if(rounds++ > maxRounds) {
				ctx.fail("no-progress",
					 "%s: not everything is delivered and acknowledged after %llu flushes over a perfect line (a->b %d, b->a %d)",
					 phase, (unsigned long long)rounds, (int)complete(0), (int)complete(1));
				return;
			}
			ctx.now += 100000;
			peer[0].arq->flush();
			if(!settle(6 * queued + 200)) {
				ctx.fail("ping-pong", "%s: frame exchange does not end", phase);
				return;
			}
			peer[1].arq->flush();
		}
	}

	virtual void finish() override
	{
		finishing = true;
		for(int p = 0; p < 2; p++)
			if(assembling[p]) {
				assembling[p] = false;
				sent[p].push_back({assembly[p], epoch[p]});
				assembly[p].clear();
				peer[p].arq->encode(nullptr, 0, true);
			}
		// In case of resets, the current state may need a keep-alive to find out.
		quiesce("after faults stopped");
		if(ctx.failed)
			return;

		// The other side must find out about lost connections.
		if(withResets)
			for(int p = 0; p < 2 && !ctx.failed; p++) {
				peer[p].arq->keepAlive();
				quiesce("keep-alive");
			}
		if(ctx.failed)
			return;

		// Exactly once from now on.
		dupBudget[0] = dupBudget[1] = 0;
		int rc0 = reconnects[0], rc1 = reconnects[1];
		for(int i = 0; i < 70 && !ctx.failed; i++) {
			send(i & 1, (size_t)(i % 13), 1, 0);
			if(i % 3 == 0)
				settle(1000);
		}
		quiesce("traffic after recovery");
		if(!ctx.failed && (rc0 != reconnects[0] || rc1 != reconnects[1]))
			ctx.fail("spurious-reset", "connection was reset on a perfect line after recovery");
		if(ctx.failed)
			return;
		for(int d = 0; d < 2; d++)
			if(!pos[d].count(sent[d].size()))
				ctx.fail("lost", "direction %d: not all messages arrived", d);

		// A dead line must be reported, a living one not.
		int p = (int)(sent[0].size() & 1);
		int before = retransmitEvents[p];
		send(p, 3, 1, 0);
		while(!line[p].empty())
			line[p].pop_front();
		for(int i = 1; i <= 20; i++) {
			if((i64)peer[p].arq->retransmits() != i - 1)
				ctx.fail("retransmit-count", "%d retransmits were done, but %zu are reported", i - 1,
					 peer[p].arq->retransmits());
			bool ev = retransmitEvents[p] > before;
			if(ev && i < (int)stored::ArqLayer::RetransmitCallbackThreshold)
				ctx.fail("retransmit-event", "retransmit event after %d transmissions", i);
			if(!ev && i > (int)stored::ArqLayer::RetransmitCallbackThreshold)
				ctx.fail("retransmit-event", "no retransmit event after %d transmissions", i);
			if(i % 2)
				peer[p].arq->flush();
			else
				peer[p].arq->keepAlive();
			if(line[p].empty())
				ctx.fail("no-retransmit", "flush/keep-alive does not retransmit the unacknowledged message");
			while(line[p].size() > 1 || (i < 20 && !line[p].empty()))
				line[p].pop_front();
		}
		quiesce("after dead line");
		if(!ctx.failed && peer[p].arq->retransmits() != 0)
			ctx.fail("retransmit-count", "retransmits not reset by an ack");
		for(int d = 0; d < 2 && !ctx.failed; d++)
			if(!pos[d].count(sent[d].size()))
				ctx.fail("lost", "direction %d: not all messages arrived", d);
		ctx.log("delivered %llu %llu", (unsigned long long)delivered[0], (unsigned long long)delivered[1]);
	}
};

void App::decode(void* buffer, size_t len)
{
	w.onDecode(id, std::string(static_cast<char*>(buffer), len));
}

void App::connected()
{
	w.ctx.log("connected %d", id);
	w.connects[id]++;
}

void Port::encode(void const* buffer, size_t len, bool last)
{
	if(len)
		partial.append(static_cast<char const*>(buffer), len);
	if(last) {
		std::string f;
		f.swap(partial);
		w.onFrame(id, f);
	}
}

void common(Rng& r, Config& c)
{
	c["maxlen"] = r.chance(300) ? r.range(0, 4) : r.range(5, 60);
	c["w_send"] = r.range(2, 20);
	c["w_deliver"] = r.range(10, 60);
	c["w_drop"] = r.chance(250) ? 0 : r.range(1, 25);
	c["w_flush"] = r.range(0, 12);
	c["w_keep"] = r.range(0, 8);
	c["w_part"] = r.chance(500) ? 0 : r.range(1, 8);
	c["w_shrink"] = r.chance(700) ? 0 : 2;
	c["w_drain"] = r.range(0, 6);
	c["w_burst"] = r.chance(600) ? 0 : r.range(1, 3);
	c["w_lossburst"] = r.chance(600) ? 0 : r.range(1, 3);
	c["replymod"] = r.chance(500) ? 0 : r.range(1, 4);
	c["sync"] = r.chance(100);
	c["maxbuf"] = r.chance(800) ? 0 : r.range(8, 200);
	c["patient"] = r.chance(300);
}

void configP01(Rng& r, Config& c)
{
	common(r, c);
	c["resets"] = 0;
	c["storm"] = 0;
}

void configP02(Rng& r, Config& c)
{
	common(r, c);
	c["resets"] = 1;
	c["storm"] = 0;
	c["w_restart"] = r.range(0, 4);
	c["w_reset"] = r.range(0, 4);
	c["sync"] = 0;
	c["keepline"] = 0;
}

World* make(Ctx& c, Config const& cfg)
{
	return new ArqWorld(c, cfg);
}
} // namespace

namespace sim {
char const* const binaryName = "arq";
Family const families[] = {
	{"P01", configP01, make, 10, 600},
	{"P02", configP02, make, 10, 400},
};
size_t const familyCount = sizeof(families) / sizeof(families[0]);
} // namespace sim
