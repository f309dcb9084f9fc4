// P07, P17: a real debugger at the end of a complete protocol stack.
// P07: over a byte line that corrupts and loses bytes, against a reference client, and a twin of the target that sees every request once.
// P17: any garbage, at any level of any stack, followed by resynchronisation and a valid request.
#include "kernel.h"

#include "SimDbg.h"

#include <stored>

#include <algorithm>
#include <functional>
#include <set>

using namespace sim;

namespace {

bool const compressed = stored::Config::CompressStreams;

// stored::list() has a static name buffer. Give it enough room once, and clear it at every run.
void resetNameBuffer(char const* prefix)
{
	uint8_t const dir[] = {0};
	char x = 0;
	stored::list(nullptr, &x, dir, [](void*, char const*, stored::Type::type, void*, size_t, void*) {}, nullptr, prefix);
}
struct NameBuffer {
	NameBuffer()
	{
		resetNameBuffer(std::string(4000, 'x').c_str());
		arenaKeep();
	}
} nameBuffer;

// ---------------------------------------------------------------- Reference of the layers, from the documentation

std::string seqEncode(uint32_t seq, bool reset)
{
	std::string s;
	if(seq < 0x40)
		s = {(char)seq};
	else if(seq < 0x2000)
		s = {(char)(0x40 | (seq >> 7)), (char)(seq & 0x7f)};
	else if(seq < 0x100000)
		s = {(char)(0x40 | (seq >> 14)), (char)(0x80 | (seq >> 7 & 0x7f)), (char)(seq & 0x7f)};
	else
		s = {(char)(0x40 | (seq >> 21)), (char)(0x80 | (seq >> 14 & 0x7f)), (char)(0x80 | (seq >> 7 & 0x7f)), (char)(seq & 0x7f)};
	if(reset)
		s[0] = (char)(s[0] | 0x80);
	return s;
}

bool seqDecode(std::string const& f, uint32_t& seq, bool& reset, std::string& rest)
{
	if(f.empty())
		return false;
	unsigned char b = (unsigned char)f[0];
	reset = b & 0x80;
	seq = b & 0x3f;
	size_t i = 1;
	bool more = b & 0x40;
	while(more) {
		if(i >= f.size() || i >= 4)
			return false;
		b = (unsigned char)f[i++];
		seq = seq << 7 | (b & 0x7f);
		more = b & 0x80;
	}
	rest = f.substr(i);
	return true;
}

uint32_t seqNext(uint32_t s)
{
	s = (s + 1) % 0x8000000;
	return s ? s : 1;
}

unsigned crcRef(std::string const& s, int bits, unsigned poly)
{
	unsigned crc = (1u << bits) - 1;
	for(unsigned char c : s) {
		crc ^= (unsigned)c << (bits - 8);
		for(int i = 0; i < 8; i++)
			crc = (crc & (1u << (bits - 1)) ? (crc << 1) ^ poly : crc << 1) & ((1u << bits) - 1);
	}
	return crc;
}

std::string withCrc(std::string const& s, int kind)
{
	if(kind == 2) {
		unsigned c = crcRef(s, 16, 0xbaad);
		return s + (char)(c >> 8) + (char)c;
	}
	if(kind == 1)
		return s + (char)crcRef(s, 8, 0xa6);
	return s;
}

std::string escape(std::string const& s, bool all)
{
	std::string o;
	for(unsigned char c : s) {
		bool e = c < 0x20 && (all || c == 0 || c == 0x11 || c == 0x13 || c == 0x1b || c == '\r');
		if(c == 0x7f) {
			o += '\x7f';
			o += '\x7f';
		} else if(e) {
			o += '\x7f';
			o += (char)(c | 0x40);
		} else
			o += (char)c;
	}
	return o;
}

std::string unescape(std::string const& s)
{
	std::string o;
	for(size_t i = 0; i < s.size(); i++)
		if(s[i] == '\x7f' && i + 1 < s.size()) {
			i++;
			o += s[i] == '\x7f' ? s[i] : (char)(s[i] & 0x1f);
		} else if(s[i] != '\r' || i + 1 == s.size())
			o += s[i];
	return o;
}

std::string const sof = "\x1b_";
std::string const eof = "\x1b\\";

// Frames out of bytes.
struct RefTerminal {
	bool in = false, esc = false;
	std::string frame;
	std::string text;
	template <typename F>
	void push(std::string const& s, F f)
	{
		for(char c : s) {
			if(!in) {
				if(esc && c == '_') {
					in = true;
					esc = false;
					frame.clear();
				} else {
					if(esc)
						text += '\x1b';
					esc = c == '\x1b';
					if(!esc)
						text += c;
				}
			} else if(esc) {
				esc = false;
				if(c == '\\') {
					in = false;
					f(frame);
				} else {
					frame += '\x1b';
					frame += c;
				}
			} else if(c == '\x1b')
				esc = true;
			else
				frame += c;
		}
	}
};

// ---------------------------------------------------------------- Target

struct FnCounter {
	std::map<int, u64> n;
	std::map<int, std::string> v;
	u64 calls = 0;
	void call(int id, bool set, void* p, size_t len)
	{
		calls = mix(calls, mix((u64)id * 2 + set, len));
		std::string& s = v[id];
		if(set) {
			s.assign((char*)p, len);
			calls = hashBytes(calls, p, len);
		} else {
			s.resize(len);
			if(len)
				s[0]++; // reading has a side effect
			memcpy(p, s.data(), len);
		}
	}
};

class FullStore : public STORE_T(FullStore, stored::SimDbgBase) {
	STORE_CLASS(FullStore, stored::SimDbgBase)
public:
	FullStore() is_default
	FnCounter fn;
	void __now(bool set, uint32_t& v) { fn.call(0, set, &v, sizeof(v)); }
	void __fd(bool set, double& v) { fn.call(1, set, &v, sizeof(v)); }
	size_t __fs(bool set, char* v, size_t len)
	{
		fn.call(2, set, v, len);
		return len;
	}
	size_t __fb(bool set, void* v, size_t len)
	{
		fn.call(3, set, v, len);
		return len;
	}
	void __fbool(bool set, bool& v)
	{
		uint8_t b = set ? v : 0;
		fn.call(4, set, &b, 1);
		v = b & 1;
	}
	void __wide(bool set, uint16_t& v) { fn.call(5, set, &v, sizeof(v)); }
	void __long_one(bool set, int64_t& v) { fn.call(6, set, &v, sizeof(v)); }
	std::string image() { return std::string((char*)buffer(), Base::BufferSize); }
};

struct Collect : public stored::ProtocolLayer {
	std::string cur;
	std::vector<std::string> got;
	bool purgeable = false;
	virtual void encode(void const* b, size_t n, bool last = true) override
	{
		if(n)
			cur.append((char const*)b, n);
		if(last) {
			got.push_back(cur);
			cur.clear();
		}
	}
	using stored::ProtocolLayer::encode;
	virtual void decode(void* b, size_t n) override { got.push_back(n ? std::string((char*)b, n) : std::string()); }
	virtual void setPurgeableResponse(bool p = true) override { purgeable = p; }
};

struct Spy : public stored::ProtocolLayer {
	std::function<void(std::string const&)> onDecode, onEncode;
	std::string cur;
	virtual void decode(void* b, size_t n) override
	{
		if(onDecode)
			onDecode(n ? std::string((char*)b, n) : std::string());
		stored::ProtocolLayer::decode(b, n);
	}
	virtual void encode(void const* b, size_t n, bool last = true) override
	{
		if(n)
			cur.append((char const*)b, n);
		if(last) {
			if(onEncode)
				onEncode(cur);
			cur.clear();
		}
		stored::ProtocolLayer::encode(b, n, last);
	}
	using stored::ProtocolLayer::encode;
};

struct TopDebugger : public stored::Debugger {
	size_t nMacros() { return macros().size(); }
	size_t nAliases() { return aliases().size(); }
	std::function<void(std::string const&)> pre;
	virtual void decode(void* b, size_t n) override
	{
		if(pre)
			pre(n ? std::string((char*)b, n) : std::string());
		// Detect any access outside of the message.
		std::unique_ptr<char[]> x(new char[n]);
		if(n)
			memcpy(x.get(), b, n);
		stored::Debugger::decode(x.get(), n);
	}

	// Well-formed memory requests may access any memory, by design. Only malformed ones are processed.
	static bool isMemory(std::string const& r)
	{
		if(r.size() < 2 || (r[0] != 'R' && r[0] != 'W'))
			return false;
		auto isHex = [](std::string const& s) {
			for(char c : s)
				if(!isxdigit((unsigned char)c))
					return false;
			return !s.empty();
		};
		size_t sp = r.find(' ', 2);
		std::string a = r.substr(1, sp == std::string::npos ? sp : sp - 1);
		std::string arg = sp == std::string::npos ? "" : r.substr(sp + 1);
		if(!isHex(a) || a.size() > 2 * sizeof(void*))
			return false;
		if(r[0] == 'R')
			return arg.empty() || (isHex(arg) && arg.size() <= 8);
		else
			return isHex(arg) && arg.size() % 2 == 0;
	}

	virtual void process(void const* frame, size_t len, stored::ProtocolLayer& response) override
	{
		if(len > 1 && isMemory(std::string((char const*)frame, len)))
			response.encode("?", 1, true);
		else
			stored::Debugger::process(frame, len, response);
	}
};

struct BytePort : public stored::ProtocolLayer {
	std::string* out = nullptr;
	std::vector<std::string>* frames = nullptr;
	std::string cur;
	size_t m = 0;
	virtual void encode(void const* b, size_t n, bool last = true) override
	{
		if(n) {
			if(out)
				out->append((char const*)b, n);
			cur.append((char const*)b, n);
		}
		if(last) {
			if(frames)
				frames->push_back(cur);
			cur.clear();
		}
	}
	using stored::ProtocolLayer::encode;
	virtual size_t mtu() const override { return m; }
	virtual void reset() override
	{
		cur.clear();
		stored::ProtocolLayer::reset();
	}
};

char const streamChars[] = "ABCD";

// Requests that are valid, mostly.
std::string makeRequest(Rng& g, bool bad)
{
	static char const* const names[] = {"/i8", "/i16", "/u32", "/u64", "/fl", "/bo", "/blob", "/str", "/value", "/scope/alpha", "/sc/alpi",
					    "/scope/nest/deep", "/arr[1]", "/big", "/long text", "/now", "/fd", "/fs", "/fb", "/fbool", "/wide",
					    "/long one", "a", "b", "/nothing", "/s"};
	auto name = [&]() { return std::string(names[g.below(26)]); };
	auto hexs = [&](size_t n) {
		std::string s;
		for(size_t i = 0; i < n; i++)
			s += "0123456789abcdef"[g.below(16)];
		return s;
	};
	auto write = [&]() {
		std::string n = name();
		size_t k = n == "/big" ? 140 : n == "/blob" || n == "/fb" ? 10 : n == "/str" || n == "/fs" ? 8 : n == "/bo" || n == "/fbool" ? 1 : n == "/i8" || n == "/arr[1]" ? 2 : 4;
		return "w" + hexs(k) + n;
	};
	auto ch = [&](char const* s) { return std::string(1, s[g.below(strlen(s))]); };
	switch(g.weighted({10, 10, 4, 3, 3, 4, 4, 2, 2, 6, 2, 3, 1, 1})) {
	case 0: return "r" + name();
	case 1: return write();
	case 2: return "e" + content(g.next(), (size_t)g.below(bad ? 600 : 200), (int)g.below(2));
	case 3: return "l";
	case 4: return "a" + ch("abc") + (g.chance(200) ? "" : name());
	case 5: {
		std::string m = "m" + ch("MNO") + "|";
		i64 n = g.range(0, 3);
		for(i64 i = 0; i <= n; i++)
			m += (i ? "|" : "")
			     + (g.chance(400) ? "r" + name() : g.chance(500) ? write() : g.chance(500) ? "e" + hexs(3) : bad && g.chance(600) ? "s" + ch(streamChars) : g.chance(300) ? ch("MNO") : "r/now");
		return m;
	}
	case 6: return ch("MNO");
	case 7: return "?";
	case 8: return g.chance(500) ? "i" : "v";
	case 9: return "s" + (g.chance(200) ? "" : ch(streamChars) + (g.chance(200) ? "!" : ""));
	case 10: return "f" + (g.chance(500) ? "" : ch(streamChars));
	case 11: return "t" + (g.chance(200) ? "" : ch("MNO") + ch(streamChars) + (g.chance(500) ? "" : hexs(1)));
	case 12:
		if(bad && g.chance(700)) {
			// Malformed memory requests.
			std::string r = ch("RW") + hexs(1 + g.below(18));
			if(g.chance(800))
				r += " ";
			if(g.chance(500))
				r += hexs(g.chance(500) ? 1 : 1 + g.below(150));
			if(g.chance(300))
				r[g.below(r.size())] = (char)g.next();
			return r;
		}
		return ch("qRWrwamt");
	default: return "m" + ch("MNO");
	}
}

void appWrite(FullStore& s, u64 seed)
{
	Rng g(seed);
	switch(g.below(6)) {
	case 0: s.u32 = (uint32_t)g.next(); break;
	case 1: s.i8 = (int8_t)g.next(); break;
	case 2: {
		std::string b = content(g.next(), 70, 0);
		s.big.set(b.data(), b.size());
		break;
	}
	case 3: s.value = (uint32_t)g.next(); break;
	case 4: {
		std::string b = content(g.next(), (size_t)g.below(11), 1);
		s.str.set(b.data(), b.size());
		break;
	}
	default: s.scope__alpha = (uint8_t)g.next(); break;
	}
}

#ifndef SIM_FULL_PARTS
// ---------------------------------------------------------------- P07

class LineWorld : public World {
public:
	FullStore store, twinStore;
	TopDebugger dbg;
	stored::Debugger twin;
	Collect twinPort;
	std::unique_ptr<stored::SegmentationLayer> seg;
	std::unique_ptr<stored::DebugArqLayer> arq;
	Spy spyArq, spyRaw;
	std::unique_ptr<stored::Crc16Layer> crc;
	std::unique_ptr<stored::AsciiEscapeLayer> esc;
	std::unique_ptr<stored::TerminalLayer> term;
	std::unique_ptr<stored::BufferLayer> buf;
	BytePort port;

	std::string line[2]; // bytes: 0 to target, 1 to client
	bool voided = false;

	// Frames on their way to the target, with CRC.
	std::vector<std::string> sent;
	size_t acceptedUpTo = 0;
	std::set<std::string> targetSent;

	// Client
	RefTerminal rx;
	bool syncing = true;
	uint32_t syncSeq = 0, encodeSeq = 0, decodeSeq = 1;
	std::vector<std::string> frames;
	bool outstanding = false;
	std::string request_, response;
	int executed = 0;
	bool precious = false;
	std::vector<std::string> expected;
	bool all;
	size_t clientMtu;
	u64 answered = 0;

	LineWorld(Ctx& c, Config const& cfg_)
		: World(c, cfg_), all(cfg.get("all")), clientMtu((size_t)std::max<i64>(2, cfg.get("clientmtu", 20)))
	{
		resetNameBuffer("");
		dbg.map(store);
		twin.map(twinStore);
		dbg.setIdentification("sim");
		twin.setIdentification("sim");
		twinPort.wrap(twin);
		seg.reset(new stored::SegmentationLayer((size_t)cfg.get("segmtu")));
		seg->wrap(dbg);
		arq.reset(new stored::DebugArqLayer());
		arq->wrap(*seg);
		spyArq.wrap(*arq);
		crc.reset(new stored::Crc16Layer());
		crc->wrap(spyArq);
		spyRaw.wrap(*crc);
		esc.reset(new stored::AsciiEscapeLayer(all));
		esc->wrap(spyRaw);
		term.reset(new stored::TerminalLayer([](void*, size_t) {}));
		term->wrap(*esc);
		stored::ProtocolLayer* up = term.get();
		if(cfg.get("buffer")) {
			buf.reset(new stored::BufferLayer(cfg.get("buffer") > 1 ? (size_t)cfg.get("buffer") : 0));
			buf->wrap(*up);
			up = buf.get();
		}
		port.m = (size_t)cfg.get("mtu");
		port.out = &line[1];
		port.wrap(*up);

		dbg.pre = [this](std::string const& s) { onExecute(s); };
		spyRaw.onDecode = [this](std::string const& s) { onRaw(s); };
		spyArq.onDecode = [this](std::string const& s) { onAccept(s); };
		spyArq.onEncode = [this](std::string const& s) { targetSent.insert(s); };
		clientSync(1 + (uint32_t)cfg.get("seq0"));
	}

	// --- Target side
	void onRaw(std::string const& s)
	{
		if(voided)
			return;
		bool ok = s.size() >= 2 && withCrc(s.substr(0, s.size() - 2), 2) == s;
		bool known = false;
		for(size_t i = acceptedUpTo; i < sent.size() && !known; i++)
			known = sent[i] == s;
		if(ok && !known) {
			// Damaged beyond what can be detected, or an old frame that came back.
			bool old = std::find(sent.begin(), sent.end(), s) != sent.end();
			if(old)
				ctx.fail("frame-twice", "a frame is received again, or out of order");
			else {
				voided = true;
				ctx.probe("undetectable");
			}
		}
		rawOk = ok;
	}
	bool rawOk = false;

	void onAccept(std::string const& s)
	{
		if(voided)
			return;
		if(!rawOk) {
			ctx.fail("crc", "a damaged frame of %zu bytes is accepted", s.size());
			return;
		}
		std::string f = withCrc(s, 2);
		while(acceptedUpTo < sent.size() && sent[acceptedUpTo] != f)
			acceptedUpTo++;
		if(acceptedUpTo == sent.size()) {
			ctx.fail("frame-twice", "a frame is accepted that was not sent (again)");
			return;
		}
		acceptedUpTo++;
	}

	void onExecute(std::string const& s)
	{
		ctx.logBytes("exec", 0, s.data(), s.size());
		if(voided)
			return;
		if(!outstanding || s != request_) {
			ctx.fail("unknown-request", "a request of %zu bytes is executed, which is not the outstanding one", s.size());
			return;
		}
		if(executed && precious) {
			ctx.fail("executed-twice", "the request '%c' was executed again, but has side effects", s[0]);
			return;
		}
		if(executed)
			ctx.probe("re-executed");
		executed++;
		twinPort.purgeable = false;
		twinPort.got.clear();
		std::vector<char> b(s.begin(), s.end());
		twin.decode(b.data(), b.size());
		precious = !twinPort.purgeable;
		if(twinPort.got.size() != 1)
			ctx.fail("harness", "twin gives %zu responses", twinPort.got.size());
		else
			expected.push_back(twinPort.got[0]);
	}

	void compare()
	{
		if(voided || ctx.failed)
			return;
		if(store.image() != twinStore.image())
			ctx.fail("store", "the store differs from what it would be over a perfect line");
		else if(store.fn.calls != twinStore.fn.calls)
			ctx.fail("function", "functions are called differently than over a perfect line");
		else
			for(char const* c = streamChars; *c; c++) {
				auto const* a = static_cast<stored::Debugger const&>(dbg).stream(*c);
				auto const* b = static_cast<stored::Debugger const&>(twin).stream(*c);
				std::string sa, sb;
				if(a)
					sa.assign(a->buffer().data(), a->buffer().size());
				if(b)
					sb.assign(b->buffer().data(), b->buffer().size());
				if(sa != sb)
					ctx.fail("stream", "stream %c has %zu bytes, instead of %zu over a perfect line", *c, sa.size(), sb.size());
			}
	}

	// --- Client side
	void transmit(std::string const& f)
	{
		ctx.logBytes("c2t", 0, f.data(), f.size());
		std::string raw = withCrc(f, 2);
		sent.push_back(raw);
		line[0] += sof + escape(raw, all) + eof;
	}

	void clientSync(uint32_t seq)
	{
		syncing = true;
		syncSeq = encodeSeq = seq;
		transmit(seqEncode(seq, true));
	}

	void clientRequest(std::string const& m)
	{
		request_ = m;
		outstanding = true;
		executed = 0;
		expected.clear();
		response.clear();
		frames.clear();
		size_t at = 0;
		do {
			size_t l = std::min(clientMtu - 1, m.size() - at);
			encodeSeq = seqNext(encodeSeq);
			frames.push_back(seqEncode(encodeSeq, false) + m.substr(at, l) + (at + l == m.size() ? "E" : "C"));
			at += l;
		} while(at < m.size());
		if(!syncing)
			for(auto const& f : frames)
				transmit(f);
	}

	void timeout()
	{
		if(!line[0].empty() || !line[1].empty() || (!outstanding && !syncing))
			return;
		ctx.fault("retransmit");
		if(syncing)
			transmit(seqEncode(syncSeq, true));
		else
			for(auto const& f : frames)
				transmit(f);
	}

	void clientFrame(std::string const& x)
	{
		std::string raw = unescape(x);
		if(raw.size() < 2 || withCrc(raw.substr(0, raw.size() - 2), 2) != raw) {
			ctx.probe("client-dropped-frame");
			return;
		}
		std::string f = raw.substr(0, raw.size() - 2);
		if(!targetSent.count(f)) {
			voided = true;
			ctx.probe("undetectable");
			return;
		}
		ctx.logBytes("t2c", 0, f.data(), f.size());
		uint32_t s = 0;
		bool reset = false;
		std::string data;
		if(!seqDecode(f, s, reset, data)) {
			ctx.fail("response-format", "malformed response frame");
			return;
		}
		if(reset && s == 0 && data.empty()) {
			if(!syncing)
				return;
			syncing = false;
			decodeSeq = 1;
			response.clear();
			for(auto const& fr : frames)
				transmit(fr);
			return;
		}
		if(syncing)
			return;
		if(reset) {
			decodeSeq = s;
			response.clear();
		}
		if(s != decodeSeq)
			return;
		decodeSeq = seqNext(decodeSeq);
		if(!outstanding) {
			ctx.fail("extra-response", "a response without request");
			return;
		}
		if(data.empty() || (data.back() != 'E' && data.back() != 'C')) {
			ctx.fail("response-format", "response segment without marker");
			return;
		}
		bool last = data.back() == 'E';
		data.pop_back();
		response += data;
		if(!last)
			return;
		if(std::find(expected.begin(), expected.end(), response) == expected.end()) {
			ctx.fail("wrong-response", "the response of %zu bytes to '%c...' differs from the one over a perfect line", response.size(), request_[0]);
			return;
		}
		ctx.log("answered");
		answered++;
		outstanding = false;
		frames.clear();
	}

	void deliver(int d, size_t n)
	{
		n = std::min(n, line[d].size());
		if(!n)
			return;
		std::string c = line[d].substr(0, n);
		line[d].erase(0, n);
		if(d == 0) {
			std::unique_ptr<char[]> b(new char[n]);
			memcpy(b.get(), c.data(), n);
			buf ? buf->decode(b.get(), n) : term->decode(b.get(), n);
		} else
			rx.push(c, [this](std::string const& f) {
				if(!ctx.failed && !voided)
					clientFrame(f);
			});
	}

	void settle()
	{
		for(int i = 0; i < 100000 && !ctx.failed && !voided && (!line[0].empty() || !line[1].empty()); i++) {
			deliver(0, 4000);
			deliver(1, 4000);
		}
		if(!ctx.failed && !voided && (!line[0].empty() || !line[1].empty()))
			ctx.fail("runaway", "frames keep being exchanged");
		compare();
	}

	virtual Op gen(Rng& r) override
	{
		Op o;
		switch(r.weighted({12, cfg.get("w_dl", 40), cfg.get("w_ex", 10), cfg.get("w_cor", 8), 8, 6, 6, 4, 2, cfg.get("w_sync", 1)})) {
		case 0: o = Op("rq", {(i64)(r.next() >> 1)}); break;
		case 1: o = Op("dl", {(i64)r.below(2), r.range(1, cfg.get("chunk", 30))}); break;
		case 2: o = Op("ex", {}); break;
		case 3: o = Op("cor", {(i64)r.below(2), (i64)r.below(100000), (i64)r.below(6), (i64)r.below(256), r.range(1, 12)}); break;
		case 4: o = Op("to", {}); break;
		case 5: o = Op("aw", {(i64)(r.next() >> 1)}); break;
		case 6: o = Op("st", {(i64)r.below(4), r.range(1, 60)}); break;
		case 7: o = Op("tr", {r.range(1, 5)}); break;
		case 8: o = Op("text", {(i64)r.below(2), r.range(1, 20)}); break;
		default: o = Op("sync", {(i64)r.below(0x8000000)}); break;
		}
		o.dt = r.range(0, 20000);
		return o;
	}

	virtual void exec(Op const& o) override
	{
		if(voided)
			return;
		if(o.is("rq")) {
			if(outstanding)
				return;
			Rng g((u64)o.arg(0));
			std::string m = makeRequest(g, false);
			if(ctx.verbose)
				ctx.log("  request %s", m.c_str());
			clientRequest(m);
		} else if(o.is("dl")) {
			deliver((int)o.arg(0) & 1, (size_t)std::max<i64>(1, o.arg(1)));
		} else if(o.is("ex")) {
			settle();
		} else if(o.is("cor")) {
			std::string& l = line[o.arg(0) & 1];
			if(l.empty())
				return;
			size_t at = (size_t)o.arg(1) % l.size();
			char v = (char)o.arg(3);
			size_t n = std::min((size_t)std::max<i64>(1, o.arg(4)), l.size() - at);
			switch(o.arg(2) % 6) {
			case 0:
				ctx.fault("bit-flip");
				l[at] = (char)(l[at] ^ (1 << (v & 7)));
				break;
			case 1:
				ctx.fault("byte-lost");
				l.erase(at, 1);
				break;
			case 2:
				ctx.fault("burst-lost");
				l.erase(at, n);
				break;
			case 3:
				ctx.fault("noise-inserted");
				l.insert(at, content((u64)o.arg(3), n, 1));
				break;
			case 4:
				ctx.fault("byte-changed");
				l[at] = v;
				break;
			default:
				ctx.fault("rest-lost");
				l.resize(at);
				break;
			}
			ctx.nontrivial = true;
		} else if(o.is("to")) {
			timeout();
		} else if(o.is("aw")) {
			appWrite(store, (u64)o.arg(0));
			appWrite(twinStore, (u64)o.arg(0));
		} else if(o.is("st")) {
			std::string d = content(mix((u64)ctx.step, 3), (size_t)std::max<i64>(0, o.arg(1)), 0);
			char c = streamChars[o.arg(0) & 3];
			size_t a = dbg.stream(c, d.data(), d.size());
			size_t b = twin.stream(c, d.data(), d.size());
			if(a != b)
				ctx.fail("stream", "stream %c accepts %zu instead of %zu over a perfect line", c, a, b);
		} else if(o.is("tr")) {
			for(i64 i = 0; i < o.arg(0) && i < 100; i++) {
				dbg.trace();
				twin.trace();
			}
		} else if(o.is("text")) {
			// Terminal output or input, that is no frame.
			std::string t = content(mix((u64)ctx.step, 9), (size_t)std::max<i64>(1, o.arg(1)), 0);
			for(auto& c : t)
				if(c == '\x1b')
					c = '.';
			line[o.arg(0) & 1] += t;
			ctx.fault("text-between-frames");
		} else if(o.is("sync")) {
			if(!line[0].empty() || !line[1].empty() || outstanding)
				return;
			ctx.fault("client-restart");
			rx = RefTerminal();
			frames.clear();
			clientSync((uint32_t)o.arg(0) % 0x8000000);
		}
		compare();
		u64 h = mix(syncing * 2 + outstanding, std::min<size_t>(executed, 3));
		h = mix(h, frames.size());
		h = mix(h, outstanding ? (u64)request_[0] : 0);
		h = mix(h, std::min<size_t>(response.size() / 8, 8));
		ctx.state(mix(h, mix(!line[0].empty(), !line[1].empty())));
	}

	virtual void finish() override
	{
		// The line works again.
		if(!voided)
			settle();
		for(int i = 0; i < 6 && !ctx.failed && !voided && (outstanding || syncing); i++) {
			timeout();
			settle();
		}
		if(ctx.failed || voided)
			return;
		if(outstanding || syncing) {
			ctx.fail("no-answer", "the outstanding request '%c...' is not answered after 6 retransmits over a perfect line", request_.empty() ? '-' : request_[0]);
			return;
		}
		if(compressed) {
			clientRequest("f");
			finishOne();
		}
		for(int i = 0; i < 7 && !ctx.failed; i++) {
			if(i < 4)
				clientRequest(std::string("s") + streamChars[i]);
			else {
				Rng g(mix(77, (u64)i));
				clientRequest(makeRequest(g, false));
			}
			finishOne();
		}
	}

	void finishOne()
	{
		settle();
		// The very first one may be swallowed by the remainder of a damaged frame.
		for(int i = 0; i < 2 && !ctx.failed && !voided && outstanding; i++) {
			timeout();
			settle();
		}
		if(!ctx.failed && !voided && outstanding)
			ctx.fail("no-answer", "the request '%c...' is not answered over a perfect line", request_[0]);
	}
};

void configP07(Rng& r, Config& c)
{
	c["all"] = r.chance(300);
	c["segmtu"] = r.chance(300) ? 0 : r.range(4, 100);
	c["clientmtu"] = r.chance(200) ? 200 : r.range(2, 60);
	c["buffer"] = r.chance(300) ? 0 : r.chance(500) ? 1 : r.range(2, 100);
	c["mtu"] = r.chance(600) ? 0 : r.range(40, 600);
	c["seq0"] = r.pick(std::vector<i64>{0, 0x3c, 0x1ffc, 0xffffc, 0x7fffffa});
	c["chunk"] = r.pick(std::vector<i64>{1, 4, 30, 300});
	c["w_dl"] = r.range(20, 120);
	c["w_ex"] = r.range(0, 20);
	c["w_cor"] = r.chance(100) ? 0 : r.range(1, 20);
	c["w_sync"] = r.chance(600) ? 0 : 1;
}

World* makeP07(Ctx& c, Config const& cfg)
{
	return new LineWorld(c, cfg);
}

// ---------------------------------------------------------------- P17

// Client side of the debug ARQ, as a layer.
struct RefArq : public stored::ProtocolLayer {
	bool syncing = false;
	uint32_t encodeSeq = 0, decodeSeq = 1;
	std::vector<std::string> frames;
	std::string cur;
	bool first = true;
	void down(std::string const& f)
	{
		std::vector<char> b(f.begin(), f.end());
		stored::ProtocolLayer::encode(b.data(), b.size(), true);
	}
	void sync(uint32_t seq)
	{
		syncing = true;
		encodeSeq = seq;
		frames.clear();
		cur.clear();
		down(seqEncode(seq, true));
	}
	virtual void encode(void const* b, size_t n, bool last = true) override
	{
		if(n)
			cur.append((char const*)b, n);
		if(!last)
			return;
		encodeSeq = seqNext(encodeSeq);
		frames.push_back(seqEncode(encodeSeq, false) + cur);
		cur.clear();
		if(!syncing)
			down(frames.back());
	}
	using stored::ProtocolLayer::encode;
	virtual void decode(void* b, size_t n) override
	{
		uint32_t s = 0;
		bool reset = false;
		std::string data;
		if(!seqDecode(n ? std::string((char*)b, n) : std::string(), s, reset, data))
			return;
		if(reset && s == 0 && data.empty()) {
			if(syncing) {
				syncing = false;
				decodeSeq = 1;
				auto f = frames;
				for(auto const& x : f)
					down(x);
			}
			return;
		}
		if(syncing)
			return;
		if(reset)
			decodeSeq = s;
		if(s != decodeSeq)
			return;
		decodeSeq = seqNext(decodeSeq);
		std::vector<char> d(data.begin(), data.end());
		stored::ProtocolLayer::decode(d.data(), d.size());
	}
	virtual size_t mtu() const override { return stored::ProtocolLayer::mtu() ? std::max<size_t>(5, stored::ProtocolLayer::mtu()) - 4 : 0; }
};

struct Stack {
	std::vector<std::unique_ptr<stored::ProtocolLayer>> layers;
	BytePort port;
	stored::ProtocolLayer* bottom = nullptr;
	RefArq* ref = nullptr;
	stored::ArqLayer* arq = nullptr;

	template <typename L>
	L& add(L* l, stored::ProtocolLayer*& up)
	{
		layers.emplace_back(l);
		l->wrap(*up);
		up = l;
		return *l;
	}

	void build(stored::ProtocolLayer& top, Config const& cfg, bool client)
	{
		stored::ProtocolLayer* up = &top;
		if(cfg.get("compress"))
			add(new stored::CompressLayer(), up);
		if(cfg.get("seg"))
			add(new stored::SegmentationLayer((size_t)cfg.get("segmtu")), up);
		if(cfg.get("arq") == 1) {
			if(client)
				ref = &add(new RefArq(), up);
			else
				add(new stored::DebugArqLayer((size_t)cfg.get("maxbuf")), up);
		} else if(cfg.get("arq") == 2)
{
			arq = &add(new stored::ArqLayer(cfg.get("maxbuf") ? (size_t)cfg.get("maxbuf") * 5 + 700 : 0), up);
			if(cfg.get("maxbuf")) {
				// By default, an overflow aborts by design.
				i64 on = cfg.get("arqreset");
				arq->setEventCallback([on](stored::ArqLayer& l, stored::ArqLayer::Event e) {
					if(e == stored::ArqLayer::EventEncodeBufferOverflow && on)
						l.reset();
				});
			}
		}
		if(cfg.get("crc") == 1)
			add(new stored::Crc8Layer(), up);
		else if(cfg.get("crc") == 2)
			add(new stored::Crc16Layer(), up);
		if(cfg.get("term")) {
			add(new stored::AsciiEscapeLayer(cfg.get("all")), up);
			add(new stored::TerminalLayer([](void*, size_t) {}), up);
		}
		if(cfg.get("buffer"))
			add(new stored::BufferLayer(), up);
		port.wrap(*up);
		port.m = (size_t)cfg.get("mtu");
		bottom = up == &top ? nullptr : up;
		if(!bottom)
			bottom = &top;
	}

	~Stack()
	{
		// From the bottom up.
		while(!layers.empty())
			layers.pop_back();
	}
};

class GarbageWorld : public World {
public:
	FullStore store;
	TopDebugger dbg;
	Collect client;
	Stack ts, cs;
	std::vector<std::string> toTarget, toClient;
	std::string lineToTarget, lineToClient;
	std::vector<std::string> corpus; // frames seen on the line
	uint32_t guess = 1;
	u64 echoes = 0;
	bool term;

	GarbageWorld(Ctx& c, Config const& cfg_) : World(c, cfg_), term(cfg.get("term"))
	{
		resetNameBuffer("");
		dbg.map(store);
		dbg.setIdentification("sim");
		ts.build(dbg, cfg, false);
		cs.build(client, cfg, true);
		ts.port.frames = &toClient;
		cs.port.frames = &toTarget;
	}

	void feed(std::string const& s)
	{
		ctx.logBytes("in", 0, s.data(), s.size());
		std::unique_ptr<char[]> b(new char[s.size()]);
		if(!s.empty())
			memcpy(b.get(), s.data(), s.size());
		ts.bottom->decode(b.get(), s.size());
		size_t n = 0;
		for(auto const& f : toClient)
			n += f.size();
		if(n > 4000000)
			ctx.fail("flood", "%zu bytes of responses after %zu bytes of input", n, s.size());
	}

	static std::string mutate(std::string s, Rng& g)
	{
		i64 n = g.range(1, 3);
		for(i64 i = 0; i < n; i++) {
			size_t at = g.below(s.size() + 1);
			switch(g.below(7)) {
			case 0: s = s.substr(0, at); break;
			case 1: s.insert(at, content(g.next(), (size_t)g.range(1, 8), 1)); break;
			case 2:
				if(at < s.size())
					s[at] = (char)g.next();
				break;
			case 3:
				if(at < s.size())
					s[at] = (char)(s[at] ^ (1 << g.below(8)));
				break;
			case 4: s.erase(at, (size_t)g.range(1, 5)); break;
			case 5: s += s.substr(at); break;
			default: s = content(g.next(), (size_t)g.below(40), 1); break;
			}
		}
		return s;
	}

	// A frame with garbage at some level.
	std::string garbage(Rng& g)
	{
		i64 rate = cfg.get("mutate", 150);
		std::string s = makeRequest(g, true);
		// No macros that call others multiple times; these may take exponentially long.
		if(g.chance(rate))
			s = mutate(s, g);
		if(s.size() > 1 && s[0] == 'm' && std::count_if(s.begin() + 2, s.end(), [](char c) { return c == 'M' || c == 'N' || c == 'O'; }) > 1)
			s = "r/now";
		if(s.size() > 3 && s[0] == 'm' && !strchr("MNO", s[1]))
			s = "r/now";
		if(cfg.get("compress") && g.chance(300))
			s = content(g.next(), (size_t)g.below(60), 0);
		if(cfg.get("seg"))
			s += g.chance(850) ? "E" : g.chance(700) ? "C" : std::string(1, (char)g.next());
		if(g.chance(rate))
			s = mutate(s, g);
		if(cfg.get("arq") == 1) {
			uint32_t q = guess;
			switch(g.weighted({60, 12, 5, 3})) {
			case 0: break;
			case 1: q = guess ? guess - 1 : 0; break;
			case 2: q = guess + (uint32_t)g.below(4); break;
			default: q = (uint32_t)g.below(0x8000000); break;
			}
			bool rst = g.chance(60);
			if(q == guess)
				guess = seqNext(guess);
			if(rst)
				guess = seqNext(q);
			s = seqEncode(q, rst) + s;
		} else if(cfg.get("arq") == 2)
			s = std::string(1, (char)(g.chance(700) ? g.below(64) : g.next())) + s;
		if(g.chance(rate))
			s = mutate(s, g);
		s = withCrc(s, (int)cfg.get("crc"));
		if(g.chance(rate / 2))
			s = mutate(s, g);
		if(term) {
			s = escape(s, cfg.get("all"));
			if(g.chance(rate / 2))
				s = mutate(s, g);
			s = sof + s + eof;
			if(g.chance(rate / 2))
				s = mutate(s, g);
		}
		return s;
	}

	void pump(int limit)
	{
		for(int i = 0; i < limit && !ctx.failed && (!toTarget.empty() || !toClient.empty()); i++) {
			if(!toTarget.empty()) {
				std::string f = toTarget.front();
				toTarget.erase(toTarget.begin());
				if(term && f.size() > 3) {
					// In two parts.
					size_t n = (f.size() * 7 + (size_t)i) % f.size();
					feed(f.substr(0, n));
					feed(f.substr(n));
				} else
					feed(f);
			}
			if(!toClient.empty()) {
				std::string f = toClient.front();
				toClient.erase(toClient.begin());
				std::unique_ptr<char[]> b(new char[f.size()]);
				if(!f.empty())
					memcpy(b.get(), f.data(), f.size());
				cs.bottom->decode(b.get(), f.size());
			}
		}
		toTarget.clear();
		toClient.clear();
	}

	void echo()
	{
		toClient.clear();
		toTarget.clear();
		client.got.clear();
		cs.port.cur.clear();
		// Resynchronise.
		if(term) {
			// End what may be a frame, in any state.
			feed("\x1b");
			feed("\\" + eof);
		}
		cs.bottom->reset();
		toTarget.clear();
		if(!cs.layers.empty())
			for(auto& l : cs.layers)
				(void)l;
		bool ok = false;
		std::string exp;
		for(int i = 0; i < 3 && !ok && !ctx.failed; i++) {
			toClient.clear();
			client.got.clear();
			if(cs.ref)
				cs.ref->sync((uint32_t)(echoes * 3 % 0x8000000));
			if(cs.arq) {
				cs.arq->reset();
				pump(2000);
			}
			exp = content(mix(0xec0, echoes++), 10 + echoes * 13 % 300, 0);
			std::string r = "e" + exp;
			std::vector<char> b(r.begin(), r.end());
			client.stored::ProtocolLayer::encode(b.data(), b.size(), true);
			pump(4000);
			for(int k = 0; k < 4 && cs.arq && !ctx.failed; k++) {
				cs.arq->flush();
				pump(2000);
			}
			ok = !client.got.empty() && client.got.back() == exp;
			if(!ok)
				ctx.probe("second-attempt");
		}
		ctx.log("echo %d", ok);
		if(!ok && !ctx.failed)
			ctx.fail("not-served", "a valid request is not served after garbage and resynchronisation (%zu responses)", client.got.size());
		if(cs.ref)
			guess = seqNext(cs.ref->encodeSeq);
		ctx.nontrivial = true;
	}

	virtual Op gen(Rng& r) override
	{
		switch(r.weighted({60, 8, 6, 6, 3, 4})) {
		case 0: return Op("g", {(i64)(r.next() >> 1), (i64)r.below(8)});
		case 1: return Op("raw", {(i64)(r.next() >> 1), r.range(0, 60)});
		case 2: return Op("st", {(i64)r.below(4), r.range(0, 150)});
		case 3: return Op("tr", {r.range(1, 10)});
		case 4: return Op("echo", {});
		default: return Op("replay", {(i64)r.below(1000), (i64)(r.next() >> 1), (i64)r.below(2)});
		}
	}

	virtual void exec(Op const& o) override
	{
		if(o.is("g")) {
			Rng g((u64)o.arg(0));
			std::string s = garbage(g);
			if(ctx.verbose)
				ctx.log("  garbage %s", hex(s.data(), s.size()).c_str());
			ctx.fault("garbage-frame");
			corpus.push_back(s);
			if(term && o.arg(1) > 2) {
				size_t n = s.empty() ? 0 : (size_t)g.below(s.size());
				feed(s.substr(0, n));
				feed(s.substr(n));
			} else
				feed(s);
		} else if(o.is("raw")) {
			ctx.fault("random-bytes");
			feed(content((u64)o.arg(0), (size_t)std::max<i64>(0, o.arg(1)), (int)(o.arg(0) & 1)));
		} else if(o.is("replay")) {
			if(corpus.empty())
				return;
			ctx.fault("old-frame");
			std::string s = corpus[(size_t)o.arg(0) % corpus.size()];
			Rng g((u64)o.arg(1));
			feed(o.arg(2) ? mutate(s, g) : s);
		} else if(o.is("st")) {
			std::string d = content(mix((u64)ctx.step, 3), (size_t)std::max<i64>(0, o.arg(1)), 0);
			dbg.stream(streamChars[o.arg(0) & 3], d.data(), d.size());
		} else if(o.is("tr")) {
			for(i64 i = 0; i < o.arg(0) && i < 100; i++)
				dbg.trace();
		} else if(o.is("echo"))
			echo();
		u64 h = mix((u64)cfg.get("arq") * 8 + (u64)cfg.get("crc"), (u64)cfg.get("term") * 4 + (u64)cfg.get("seg") * 2 + (u64)cfg.get("compress"));
		size_t n = 0;
		for(auto const& f : toClient)
			n += f.size();
		h = mix(h, std::min<size_t>(toClient.size(), 5) * 100 + std::min<size_t>(n, 20));
		h = mix(h, dbg.nMacros() * 10 + dbg.nAliases());
		ctx.state(mix(h, dbg.tracing()));
		toClient.clear();
		toTarget.clear();
	}

	virtual void finish() override
	{
		echo();
		if(!ctx.failed)
			echo();
	}
};

void configP17(Rng& r, Config& c)
{
	c["seg"] = r.chance(650);
	c["arq"] = r.weighted({3, 5, 3});
	c["crc"] = r.weighted({4, 1, 3});
	c["term"] = r.chance(500);
	c["all"] = r.chance(300);
	c["buffer"] = r.chance(400);
	c["compress"] = r.chance(200);
	if(c["compress"] || c["crc"])
		c["seg"] = 1;
	c["segmtu"] = c["seg"] ? (c["compress"] || r.chance(500) ? r.range(8, 100) : 0) : 0;
	c["mtu"] = c["seg"] && r.chance(400) ? r.range(60, 400) : 0;
	c["maxbuf"] = r.chance(500) ? 0 : r.range(10, 400);
	c["arqreset"] = r.range(0, 1);
	c["mutate"] = r.pick(std::vector<i64>{20, 150, 400});
}

World* makeP17(Ctx& c, Config const& cfg)
{
	return new GarbageWorld(c, cfg);
}

} // namespace

namespace sim {
Family const families[] = {
	{"P07", configP07, makeP07, 30, 400},
	{"P17", configP17, makeP17, 10, 200},
};
size_t const familyCount = sizeof(families) / sizeof(families[0]);
#ifdef SIM_DBG_ALT
char const* const binaryName = "fullalt";
#else
char const* const binaryName = "full";
#endif
} // namespace sim
#else
} // namespace
#endif // SIM_FULL_PARTS
