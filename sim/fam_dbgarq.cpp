// P03: DebugArqLayer (target) against a reference client, over a lossy, delaying FIFO line.
#include "kernel.h"

#include <stored>

#include <algorithm>
#include <deque>
#include <functional>

using namespace sim;

namespace {

std::vector<uint32_t> const startSeqs = {0, 1, 0x3d, 0x3e, 0x3f, 0x1ffd, 0x1ffe, 0x1fff, 0xffffd, 0xffffe, 0xfffff, 0x7fffffc, 0x7fffffd, 0x7fffffe};

// Sequence numbers as documented (VLQ, reset flag in the first byte).
std::string seqEncode(uint32_t seq, bool reset)
{
	std::string s;
	if(seq < 0x40)
		s = {(char)seq};
	else if(seq < 0x2000)
		s = {(char)(0x40 | (seq >> 7)), (char)(seq & 0x7f)};
	else if(seq < 0x100000)
		s = {(char)(0x40 | (seq >> 14)), (char)(0x80 | (seq >> 7 & 0x7f)), (char)(seq & 0x7f)};
	else
		s = {(char)(0x40 | (seq >> 21)), (char)(0x80 | (seq >> 14 & 0x7f)), (char)(0x80 | (seq >> 7 & 0x7f)), (char)(seq & 0x7f)};
	if(reset)
		s[0] = (char)(s[0] | 0x80);
	return s;
}

bool seqDecode(std::string const& f, uint32_t& seq, bool& reset, std::string& rest)
{
	if(f.empty())
		return false;
	unsigned char b = (unsigned char)f[0];
	reset = b & 0x80;
	seq = b & 0x3f;
	size_t i = 1;
	bool more = b & 0x40;
	while(more) {
		if(i >= f.size() || i >= 4)
			return false;
		b = (unsigned char)f[i++];
		seq = seq << 7 | (b & 0x7f);
		more = b & 0x80;
	}
	rest = f.substr(i);
	return true;
}

uint32_t seqNext(uint32_t s)
{
	s = (s + 1) % 0x8000000;
	return s ? s : 1;
}

struct Request {
	std::string msg;
	int kind; // 0: precious, 1: may be regenerated
	size_t respLen;
	i64 respParts;
	int executed = 0;
	bool answered = false;
	bool abandoned = false;
	int incarnation = 0; // of the target at the first execution
};

class DbgWorld;

class Exec : public stored::ProtocolLayer {
public:
	explicit Exec(DbgWorld& w) : w(w) {}
	DbgWorld& w;
	virtual void decode(void* buffer, size_t len) override;
};

class Port : public stored::ProtocolLayer {
public:
	explicit Port(DbgWorld& w) : w(w) {}
	DbgWorld& w;
	std::string partial;
	virtual void encode(void const* buffer, size_t len, bool last = true) override;
	using stored::ProtocolLayer::encode;
	virtual size_t mtu() const override;
	virtual void reset() override { partial.clear(); }
};

class DbgWorld : public World {
public:
	// Target
	std::unique_ptr<Exec> exec_;
	std::unique_ptr<stored::SegmentationLayer> seg;
	std::unique_ptr<stored::DebugArqLayer> arq;
	std::unique_ptr<Port> port;
	int incarnation = 0;

	std::deque<std::string> line[2]; // 0: client to target, 1: target to client
	std::vector<Request> reqs;

	// Client
	bool syncing = true;
	uint32_t syncSeq = 0;
	uint32_t encodeSeq = 0;
	uint32_t decodeSeq = 1, decodeSeqStart = 1;
	std::vector<std::string> frames; // of current request
	int current = -1;
	std::string response;
	bool keep; // keep what was received upon timeout
	bool patient;
	u64 timeouts = 0;
	size_t mtu;
	size_t maxbuf;
	bool segmented;

	DbgWorld(Ctx& c, Config const& cfg)
		: World(c, cfg), keep(cfg.get("keep")), patient(cfg.get("patient")), mtu((size_t)cfg.get("mtu")),
		  maxbuf((size_t)cfg.get("maxbuf")), segmented(cfg.get("segmented"))
	{
		construct();
		clientSync((uint32_t)startSeqs[(size_t)cfg.get("seq0") % startSeqs.size()]);
	}

	void construct()
	{
		exec_.reset(new Exec(*this));
		stored::ProtocolLayer* up = exec_.get();
		if(segmented) {
			seg.reset(new stored::SegmentationLayer((size_t)cfg.get("segmtu")));
			seg->wrap(*up);
			up = seg.get();
		}
		arq.reset(new stored::DebugArqLayer(maxbuf));
		arq->wrap(*up);
		port.reset(new Port(*this));
		port->wrap(*arq);
	}

	// --- line
	void toTarget(std::string const& f)
	{
		ctx.logBytes("c2t", 0, f.data(), f.size());
		line[0].push_back(f);
	}

	void deliver(int d)
	{
		if(line[d].empty())
			return;
		std::string f = line[d].front();
		line[d].pop_front();
		if(d == 0) {
			std::vector<char> b(f.begin(), f.end());
			arq->decode(b.data(), b.size());
		} else
			clientDecode(f);
		abstract();
	}

	void abstract()
	{
		u64 h = mix(syncing, current >= 0);
		for(int d = 0; d < 2; d++) {
			h = mix(h, std::min<size_t>(line[d].size(), 6));
			for(size_t i = 0; i < line[d].size() && i < 4; i++)
				h = mix(h, mix((unsigned char)line[d][i][0], line[d][i].size() > 4));
		}
		h = mix(h, frames.size());
		h = mix(h, response.size());
		ctx.state(h);
	}

	// --- target application
	static size_t segments(size_t len, size_t m) { return m < 2 ? 1 : (len + m - 2) / (m - 1) + 1; }

	bool mustBePrecious(Request const& r)
	{
		if(r.kind)
			return false;
		if(!maxbuf)
			return true;
		size_t m = segmented && mtu ? mtu - 4 : 0;
		if(segmented && cfg.get("segmtu"))
			m = m ? std::min(m, (size_t)cfg.get("segmtu")) : (size_t)cfg.get("segmtu");
		size_t total = r.respLen + (m ? segments(r.respLen, m) : 1) * 5;
		return total <= maxbuf;
	}

	static std::string responseOf(size_t id, int k, size_t len) { return content(mix(id + 1000, (u64)k), len, 0); }

	void execute(std::string const& m)
	{
		ctx.logBytes("exec", 0, m.data(), m.size());
		// Must be the current request.
		if(current < 0 || m != reqs[(size_t)current].msg) {
			for(size_t i = 0; i < reqs.size(); i++)
				if(reqs[i].msg == m) {
					ctx.fail("old-request", "request #%zu is executed while it is not outstanding anymore", i);
					return;
				}
			ctx.fail("unknown-request", "a request of %zu bytes is executed that was never sent", m.size());
			return;
		}
		Request& r = reqs[(size_t)current];
		if(r.executed && r.incarnation == incarnation && mustBePrecious(r)) {
			ctx.fail("executed-twice", "request #%d was executed more than once, but its response should have been kept", current);
			return;
		}
		if(r.executed)
			ctx.probe("re-executed");
		r.incarnation = incarnation;
		r.executed++;
		std::string resp = responseOf((size_t)current, r.executed, r.kind ? r.respLen + (size_t)(r.executed * 7 % 5) : r.respLen);
		if(r.kind)
			exec_->setPurgeableResponse();
		size_t at = 0;
		i64 n = std::max<i64>(1, r.respParts);
		for(i64 i = 0; i < n; i++) {
			size_t l = i + 1 == n ? resp.size() - at : std::min(resp.size() - at, resp.size() / (size_t)n);
			std::vector<char> b(resp.begin() + (long)at, resp.begin() + (long)(at + l));
			exec_->encode(b.data(), l, i + 1 == n);
			at += l;
		}
	}

	// --- client
	void clientSync(uint32_t seq)
	{
		syncing = true;
		syncSeq = encodeSeq = seq;
		frames.clear();
		response.clear();
		toTarget(seqEncode(seq, true));
	}

	void clientRequest(std::string const& m)
	{
		frames.clear();
		response.clear();
		std::vector<std::string> segs;
		if(segmented) {
			size_t m1 = (size_t)cfg.get("clientmtu") - 1;
			size_t at = 0;
			do {
				size_t l = std::min(m1, m.size() - at);
				segs.push_back(m.substr(at, l) + (at + l == m.size() ? "E" : "C"));
				at += l;
			} while(at < m.size());
		} else
			segs.push_back(m);
		for(auto const& s : segs) {
			encodeSeq = seqNext(encodeSeq);
			frames.push_back(seqEncode(encodeSeq, false) + s);
		}
		if(segs.size() > 1)
			ctx.probe("multi-segment-request");
		decodeSeqStart = decodeSeq;
		if(!syncing)
			for(auto const& f : frames)
				toTarget(f);
	}

	bool mayTimeout()
	{
		if(line[0].empty() && line[1].empty())
			return true;
		return !patient;
	}

	void clientTimeout()
	{
		if(!mayTimeout() || (current < 0 && !syncing))
			return;
		timeouts++;
		if(!line[0].empty() || !line[1].empty())
			ctx.probe("early-timeout");
		ctx.log("timeout");
		if(syncing) {
			toTarget(seqEncode(syncSeq, true));
			return;
		}
		if(!keep) {
			response.clear();
			decodeSeq = decodeSeqStart;
		}
		for(auto const& f : frames)
			toTarget(f);
	}

	void clientDecode(std::string const& f)
	{
		ctx.logBytes("t2c", 0, f.data(), f.size());
		uint32_t s = 0;
		bool reset = false;
		std::string data;
		if(!seqDecode(f, s, reset, data)) {
			ctx.fail("response-format", "malformed response frame");
			return;
		}
		if(reset && s == 0 && data.empty()) {
			// Response to reset.
			decodeSeq = decodeSeqStart = 1;
			response.clear();
			if(syncing) {
				syncing = false;
				for(auto const& x : frames)
					toTarget(x);
			}
			return;
		}
		if(syncing) {
			if(patient)
				ctx.fail("unsynced-response", "a response without being synchronised");
			return;
		}
		if(reset) {
			ctx.probe("response-seq-reset");
			decodeSeq = s;
			response.clear();
		}
		if(s != decodeSeq) {
			ctx.probe("response-dropped");
			return;
		}
		decodeSeq = seqNext(decodeSeq);
		if(current < 0) {
			ctx.fail("extra-response", "an acceptable response arrives without an outstanding request");
			return;
		}
		bool last = true;
		if(segmented) {
			if(data.empty() || (data.back() != 'E' && data.back() != 'C')) {
				ctx.fail("response-format", "response segment without marker");
				return;
			}
			last = data.back() == 'E';
			data.pop_back();
		}
		response += data;
		if(!last)
			return;
		Request& r = reqs[(size_t)current];
		bool ok = false;
		for(int k = 1; k <= r.executed; k++)
			if(response == responseOf((size_t)current, k, r.kind ? r.respLen + (size_t)(k * 7 % 5) : r.respLen))
				ok = true;
		if(!ok) {
			ctx.fail("wrong-response", "the response of %zu bytes to request #%d (executed %d times) is not what the target answered", response.size(), current, r.executed);
			return;
		}
		r.answered = true;
		ctx.log("answered %d", current);
		current = -1;
		response.clear();
	}

	void newRequest(size_t len, int kind, size_t resp, i64 parts)
	{
		if(current >= 0)
			return;
		Request r;
		r.msg = "#" + std::to_string(reqs.size()) + ":" + content(mix(reqs.size(), 5), len, (int)(len & 3));
		r.kind = kind;
		r.respLen = resp;
		r.respParts = parts;
		current = (int)reqs.size();
		reqs.push_back(r);
		ctx.logBytes("request", current, r.msg.data(), r.msg.size());
		clientRequest(r.msg);
	}

	virtual Op gen(Rng& r) override
	{
		std::vector<i64> w = {cfg.get("w_request"), cfg.get("w_deliver"), cfg.get("w_drop"), cfg.get("w_timeout"),
				      cfg.get("w_crestart"), cfg.get("w_trestart"), cfg.get("w_exchange"), cfg.get("w_dropall")};
		Op o;
		switch(r.weighted(w)) {
		case 0: o = Op("request", {r.range(0, cfg.get("maxreq")), cfg.get("purge") ? r.chance(400) : 0, r.chance(100) ? 0 : r.range(0, cfg.get("maxresp")), r.range(1, 4)}); break;
		case 1: o = Op("deliver", {(i64)r.below(2), r.range(1, 4)}); break;
		case 2: o = Op("drop", {(i64)r.below(2)}); break;
		case 3: o = Op("timeout", {}); break;
		case 4: o = Op("client-restart", {(i64)r.below(startSeqs.size())}); break;
		case 5: o = Op("target-restart", {(i64)r.below(startSeqs.size()), r.chance(500)}); break;
		case 6: o = Op("exchange", {r.range(1, 20)}); break;
		default: o = Op("dropall", {(i64)r.below(2)}); break;
		}
		o.dt = r.range(0, 20000);
		return o;
	}

	virtual void exec(Op const& o) override
	{
		if(o.is("request")) {
			newRequest((size_t)std::max<i64>(0, o.arg(0)), o.arg(1) != 0, (size_t)std::max<i64>(0, o.arg(2)), o.arg(3));
		} else if(o.is("deliver")) {
			for(i64 i = 0; i < o.arg(1); i++)
				deliver((int)o.arg(0) & 1);
		} else if(o.is("exchange")) {
			for(i64 i = 0; i < o.arg(0); i++) {
				deliver(0);
				deliver(1);
			}
		} else if(o.is("drop") || o.is("dropall")) {
			int d = (int)o.arg(0) & 1;
			while(!line[d].empty()) {
				ctx.fault("loss");
				ctx.log("drop %d", d);
				line[d].pop_front();
				if(o.is("drop"))
					break;
			}
		} else if(o.is("timeout")) {
			ctx.fault("retransmit");
			clientTimeout();
		} else if(o.is("client-restart")) {
			// Whatever it was waiting for is abandoned.
			ctx.fault("client-restart");
			if(current >= 0)
				reqs[(size_t)current].abandoned = true;
			current = -1;
			line[0].clear();
			line[1].clear();
			clientSync((uint32_t)startSeqs[(size_t)o.arg(0) % startSeqs.size()]);
		} else if(o.is("target-restart")) {
			ctx.fault("target-restart");
			line[0].clear();
			line[1].clear();
			incarnation++;
			if(o.arg(1))
				exec_->reset();
			else
				construct();
			// The client finds out and starts over with the same request.
			std::string m = current >= 0 ? reqs[(size_t)current].msg : "";
			clientSync((uint32_t)startSeqs[(size_t)o.arg(0) % startSeqs.size()]);
			if(current >= 0)
				clientRequest(m);
		}
	}

	void settle()
	{
		for(int i = 0; i < 3000000 && !ctx.failed && (!line[0].empty() || !line[1].empty()); i++) {
			deliver(0);
			if(!ctx.failed)
				deliver(1);
		}
		if(!line[0].empty() || !line[1].empty())
			ctx.fail("runaway", "frames keep being exchanged");
	}

	virtual void finish() override
	{
		settle();
		for(int i = 0; i < 3 && !ctx.failed && (current >= 0 || syncing); i++) {
			clientTimeout();
			settle();
		}
		if(ctx.failed)
			return;
		if(current >= 0 || syncing) {
			ctx.fail("no-answer", "the outstanding request #%d is not answered after the line works again", current);
			return;
		}
		for(int i = 0; i < 6 && !ctx.failed; i++) {
			newRequest((size_t)(i * 5), i == 3 && cfg.get("purge"), (size_t)(i * 11), i % 3 + 1);
			settle();
			if(!ctx.failed && current >= 0)
				ctx.fail("no-answer", "a request over a perfect line is not answered");
			if(!ctx.failed && reqs.back().executed != 1)
				ctx.fail("executed-twice", "a request over a perfect line is executed %d times", reqs.back().executed);
		}
		for(auto const& r : reqs)
			if(!ctx.failed && !r.abandoned && !r.answered)
				ctx.fail("no-answer", "a request was not answered");
	}
};

void Exec::decode(void* buffer, size_t len)
{
	w.execute(std::string(static_cast<char*>(buffer), len));
}

void Port::encode(void const* buffer, size_t len, bool last)
{
	if(len)
		partial.append(static_cast<char const*>(buffer), len);
	if(last) {
		if(w.mtu && w.segmented && partial.size() > w.mtu)
			w.ctx.fail("mtu", "a frame of %zu bytes, while the maximum is %zu", partial.size(), w.mtu);
		w.line[1].push_back(partial);
		w.ctx.logBytes("target", 0, partial.data(), partial.size());
		partial.clear();
	}
}

size_t Port::mtu() const
{
	return w.mtu;
}

void configP03(Rng& r, Config& c)
{
	c["segmented"] = r.chance(850);
	c["mtu"] = r.chance(300) ? 0 : r.range(6, 40);
	c["segmtu"] = r.chance(600) ? 0 : r.range(2, 40);
	c["clientmtu"] = r.range(2, 40);
	c["patient"] = r.chance(650);
	c["purge"] = c["patient"] && r.chance(700);
	c["maxbuf"] = c["patient"] && r.chance(500) ? r.range(8, 150) : 0;
	c["keep"] = r.chance(500);
	c["seq0"] = (i64)r.below(startSeqs.size());
	c["maxreq"] = r.range(1, 60);
	c["maxresp"] = r.chance(30) ? r.range(1000, 20000) : r.range(1, 150);
	c["w_request"] = 10;
	c["w_deliver"] = r.range(10, 60);
	c["w_drop"] = r.chance(150) ? 0 : r.range(1, 15);
	c["w_timeout"] = r.range(2, 20);
	c["w_crestart"] = r.chance(600) ? 0 : r.range(1, 3);
	c["w_trestart"] = r.chance(600) ? 0 : r.range(1, 3);
	c["w_exchange"] = r.range(0, 10);
	c["w_dropall"] = r.chance(500) ? 0 : r.range(1, 4);
}

// P05 for the responses of this layer, of which the frames grow with the sequence number.
void configP05(Rng& r, Config& c)
{
	configP03(r, c);
	c["segmented"] = 1;
	c["mtu"] = r.range(6, 30);
	c["maxbuf"] = 0;
	c["w_drop"] = c["w_dropall"] = 0;
	c["w_exchange"] = 10;
	if(r.chance(300)) {
		// Long enough to need more bytes for the sequence number.
		c["mtu"] = r.range(6, 10);
		c["segmtu"] = 0;
		c["maxresp"] = r.range(10000, 60000);
	}
}

World* make(Ctx& c, Config const& cfg)
{
	return new DbgWorld(c, cfg);
}
} // namespace

namespace sim {
char const* const binaryName = "dbgarq";
Family const families[] = {
	{"P03", configP03, make, 10, 400},
	{"P05", configP05, make, 5, 100},
};
size_t const familyCount = sizeof(families) / sizeof(families[0]);
} // namespace sim
