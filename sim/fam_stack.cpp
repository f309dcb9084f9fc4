// P04: checksum layers; P05: segmentation and stack composition; P06: terminal framing.
#include "kernel.h"

#include <stored>

#include <algorithm>
#include <deque>
#include <functional>

using namespace sim;

namespace {

// Top of a stack: the application.
class Top : public stored::ProtocolLayer {
public:
	std::function<void(std::string const&)> cb;
	virtual void decode(void* buffer, size_t len) override
	{
		cb(std::string(static_cast<char*>(buffer), len));
	}
};

// Bottom of a stack: assembles the frames that are put on the line.
class Bottom : public stored::ProtocolLayer {
public:
	size_t m = 0;
	std::string partial;
	std::function<void(std::string const&)> cb;
	virtual void encode(void const* buffer, size_t len, bool last = true) override
	{
		if(len)
			partial.append(static_cast<char const*>(buffer), len);
		if(last) {
			std::string f;
			f.swap(partial);
			cb(f);
		}
	}
	using stored::ProtocolLayer::encode;
	virtual size_t mtu() const override { return m; }
	virtual void reset() override { partial.clear(); }
};

void push(stored::ProtocolLayer& l, std::string const& s)
{
	// Exact-size heap copy, so overreads are seen.
	std::vector<char> b(s.begin(), s.end());
	l.decode(b.data(), b.size());
}

// Encode in up to 4 pieces.
void pull(stored::ProtocolLayer& l, std::string const& s, i64 parts, u64 cut)
{
	std::vector<size_t> at;
	for(i64 i = 1; i < parts; i++)
		at.push_back((size_t)(mix(cut, (u64)i) % (s.size() + 1)));
	at.push_back(s.size());
	std::sort(at.begin(), at.end());
	size_t p = 0;
	for(size_t i = 0; i < at.size(); i++) {
		std::vector<char> b(s.begin() + (long)p, s.begin() + (long)at[i]);
		l.encode(b.data(), b.size(), i + 1 == at.size());
		p = at[i];
	}
}

// ---------------------------------------------------------------- P04

// Bitwise reference, polynomials as documented.
unsigned refCrc(std::string const& s, int bits)
{
	unsigned poly = bits == 8 ? 0xA6u : 0xBAADu;
	unsigned crc = bits == 8 ? 0xffu : 0xffffu;
	unsigned top = 1u << (bits - 1);
	for(unsigned char c : s) {
		crc ^= (unsigned)c << (bits - 8);
		for(int i = 0; i < 8; i++)
			crc = (crc & top ? (crc << 1) ^ poly : crc << 1) & ((top << 1) - 1);
	}
	return crc;
}

class CrcWorld : public World {
public:
	int bits;
	Top top[2];
	Bottom bottom[2];
	std::unique_ptr<stored::ProtocolLayer> crc[2];
	std::string frame;
	bool haveFrame = false;
	std::vector<std::string> got;
	u64 n = 0;
	std::string partial;

	CrcWorld(Ctx& c, Config const& cfg) : World(c, cfg), bits(cfg.get("bits16") ? 16 : 8)
	{
		for(int i = 0; i < 2; i++) {
			if(bits == 16)
				crc[i].reset(new stored::Crc16Layer(&top[i], nullptr));
			else
				crc[i].reset(new stored::Crc8Layer(&top[i], nullptr));
			top[i].setDown(crc[i].get());
			bottom[i].wrap(*crc[i]);
			bottom[i].m = (size_t)cfg.get("mtu");
			top[i].cb = [this](std::string const& s) { got.push_back(s); };
			bottom[i].cb = [this](std::string const& s) {
				if(haveFrame)
					ctx.fail("frames", "more than one frame for a message");
				haveFrame = true;
				frame = s;
				if(bottom[0].m && s.size() > bottom[0].m && s.size() > (size_t)bits / 8 + 1)
					ctx.fail("frame-size", "a frame of %zu bytes for a transport with a maximum of %zu", s.size(), bottom[0].m);
			};
		}
		limit = crc[0]->mtu();
		// Two flipped bits are detected in up to 256 bytes, as documented.
		if(!limit || limit > 256)
			ctx.fail("frame-limit", "messages of %zu bytes are allowed, but at most 256 can be protected", limit);
		if(limit > 256)
			limit = 256;
	}

	// The size of a message that the layer advertises to protect.
	size_t limit = 256;

	virtual Op gen(Rng& r) override
	{
		i64 maxlen = cfg.get("maxlen");
		i64 len = r.chance(100) ? r.range(0, 3) : r.chance(100) ? r.range(250, 256) : r.range(0, maxlen);
		if(len > (i64)limit)
			len = (i64)limit - (i64)r.below(3);
		std::vector<i64> w = {30, 25, 25, 20, 5, 5, 5, 5};
		switch(r.weighted(w)) {
		case 0: return Op("intact", {len, r.range(0, 3), r.range(1, 4), (i64)r.below(1000)});
		case 1: return Op("flip1", {len, r.range(0, 3), r.range(1, 4), (i64)r.below(1000), (i64)r.below(1u << 20)});
		case 2: return Op("flip2", {len, r.range(0, 3), r.range(1, 4), (i64)r.below(1000), (i64)r.below(1u << 20), (i64)r.below(1u << 20)});
		case 3: return Op("burst", {len, r.range(0, 3), r.range(1, 4), (i64)r.below(1000), (i64)r.below(1u << 20), r.range(1, bits == 16 ? 16 : 7), (i64)r.below(1u << 16)});
		case 4: return Op("empty", {len, r.range(0, 3), r.range(1, 4), (i64)r.below(1000)});
		case 5: return Op("drop", {len, r.range(0, 3), r.range(1, 4), (i64)r.below(1000)});
		case 6: return Op("part", {len / 4, r.range(0, 3)});
		default: return Op("reset", {});
		}
	}

	virtual void exec(Op const& o) override
	{
		std::string m = content(mix(n++, 77), (size_t)std::min<i64>((i64)limit, std::max<i64>(0, o.arg(0))), (int)o.arg(1));
		if(o.is("part")) {
			// First half of a message.
			if(partial.size() + m.size() > limit)
				return;
			partial += m;
			std::vector<char> b(m.begin(), m.end());
			top[0].encode(b.data(), b.size(), false);
			ctx.probe("partial-encode");
			return;
		}
		if(o.is("reset")) {
			// Mid-message reset; both stacks.
			ctx.fault("reset");
			for(int i = 0; i < 2; i++)
				crc[i]->reset();
			if(!partial.empty())
				ctx.probe("reset-mid-message");
			partial.clear();
			return;
		}
		if(partial.size() + m.size() > limit)
			m.resize(limit - partial.size());
		std::string full = partial + m;
		partial.clear();
		haveFrame = false;
		pull(top[0], m, std::max<i64>(1, o.arg(2)), (u64)o.arg(3));
		ctx.logBytes("send", 0, full.data(), full.size());
		size_t crcLen = (size_t)bits / 8;
		if(!haveFrame || frame.size() != full.size() + crcLen || frame.compare(0, full.size(), full)) {
			ctx.fail("frames", "a message of %zu bytes does not give one frame with the message and the checksum", full.size());
			return;
		}
		unsigned ref = refCrc(full, bits);
		unsigned is = 0;
		for(size_t i = 0; i < crcLen; i++)
			is = is << 8 | (unsigned char)frame[full.size() + i];
		if(ref != is)
			ctx.fail("checksum", "checksum of a message of %zu bytes is 0x%x instead of 0x%x", full.size(), is, ref);

		std::string f = frame;
		u64 nbits = f.size() * 8;
		auto flip = [&](u64 b) {
			b %= nbits;
			f[b / 8] = (char)(f[b / 8] ^ (0x80 >> (b % 8)));
		};
		got.clear();
		if(o.is("drop")) {
			ctx.fault("loss");
		} else if(o.is("empty")) {
			ctx.fault("truncate");
			f.clear();
		} else if(o.is("flip1")) {
			ctx.fault("bit-flip");
			flip((u64)o.arg(4));
		} else if(o.is("flip2")) {
			u64 a = (u64)o.arg(4) % nbits, b = (u64)o.arg(5) % nbits;
			if(a > b)
				std::swap(a, b);
			if(a == b)
				b = (a + 1) % nbits;
			// The 8-bit polynomial misses two bits at multiples of 127 bits, see known-findings.txt.
			if(!cfg.get("all") && bits == 8 && (b - a) % 127 == 0)
				return;
			ctx.fault("bit-flip-2");
			flip(a);
			flip(b);
		} else if(o.is("burst")) {
			ctx.fault("burst");
			u64 l = (u64)std::max<i64>(1, std::min<i64>(o.arg(5), bits == 16 ? 16 : 7));
			u64 s = (u64)o.arg(4) % (nbits - l + 1);
			flip(s);
			for(u64 i = 1; i < l; i++)
				if((o.arg(6) >> i) & 1)
					flip(s + i);
		}
		bool expect = f == frame && !o.is("drop");
		if(!o.is("drop"))
			push(*crc[1], f);
		ctx.state(mix(mix(f.size(), (u64)o.kind[0] + (u64)o.kind.size()), f.empty() ? 0 : (unsigned char)f.back()));
		if(expect) {
			if(got.size() != 1 || got[0] != full)
				ctx.fail("intact-lost", "an intact frame of %zu bytes was not delivered unchanged", f.size());
		} else if(!got.empty())
			ctx.fail("corrupt-delivered", "a corrupted frame of %zu bytes was delivered (%s)", f.size(), o.kind.c_str());
		ctx.log("got %zu", got.size());
	}

	virtual void finish() override
	{
		exec(Op("intact", {20, 0, 2, 3}));
		exec(Op("intact", {(i64)limit, 0, 2, 3}));
		exec(Op("intact", {0, 0, 1, 3}));
	}
};

void configP04(Rng& r, Config& c)
{
	c["bits16"] = r.chance(500);
	c["maxlen"] = r.chance(300) ? 30 : 256;
	c["mtu"] = r.chance(500) ? 0 : r.chance(300) ? r.range(250, 270) : r.chance(300) ? r.range(2, 40) : r.range(4, 2000);
}

World* makeP04(Ctx& c, Config const& cfg)
{
	return new CrcWorld(c, cfg);
}

// ---------------------------------------------------------------- P05

enum LayerKind { LArq, LCrc8, LCrc16, LAscii, LAsciiAll, LTerm, LBuffer, LIdle, LCallback, LPrint, LSeg, LBufferSmall, LKinds };

class StackWorld : public World {
public:
	struct Side {
		Top top;
		Bottom bottom;
		std::unique_ptr<stored::CompressLayer> compress;
		stored::SegmentationLayer* seg = nullptr;
		std::vector<std::unique_ptr<stored::ProtocolLayer>> layers; // from bottom to top
		std::deque<std::string> line; // sent by this side
		std::vector<std::string> sent;
		std::string assembly;
		bool assembling = false;
		size_t received = 0;
		stored::ArqLayer* arq = nullptr;
		stored::ProtocolLayer* last = nullptr;
		stored::ProtocolLayer& bottom0() { return *last; }
	};
	Side side[2];
	FILE* devnull = nullptr;
	size_t lineMtu;
	bool hasArq = false;
	bool finishing = false;
	std::unique_ptr<stored::Loopback> loopback;
	u64 frames = 0;

	static std::vector<int> kinds(Config const& cfg)
	{
		std::vector<int> v;
		for(i64 k = cfg.get("layers"); k > 0; k /= 16)
			v.push_back((int)(k % 16) - 1);
		return v;
	}

	StackWorld(Ctx& c, Config const& cfg) : World(c, cfg), lineMtu((size_t)cfg.get("mtu"))
	{
		for(int i = 0; i < 2; i++)
			build(i);
		if(cfg.get("loopback"))
			loopback.reset(new stored::Loopback(side[0].bottom0(), side[1].bottom0()));
		// The ARQ handshake is P01's.
		for(int k = 0; k < 5 && hasArq; k++) {
			settle();
			if(!k)
				for(int i = 0; i < 2; i++)
					if(side[i].arq->waitingForAck())
						side[i].arq->flush();
		}
	}

	~StackWorld() override
	{
		loopback.reset();
		if(devnull)
			fclose(devnull);
	}

	void build(int i)
	{
		Side& s = side[i];
		std::vector<stored::ProtocolLayer*> st; // top to bottom
		std::vector<int> ks = kinds(cfg); // bottom to top
		auto add = [&](stored::ProtocolLayer* l) {
			s.layers.emplace_back(l);
			st.push_back(l);
		};
		if(cfg.get("compress"))
			add(new stored::CompressLayer());
		add(s.seg = new stored::SegmentationLayer((size_t)cfg.get("segmtu")));
		for(size_t k = ks.size(); k-- > 0;) {
			switch(ks[k]) {
			case LArq: add(s.arq = new stored::ArqLayer()); hasArq = true; break;
			case LCrc8: add(new stored::Crc8Layer()); break;
			case LCrc16: add(new stored::Crc16Layer()); break;
			case LAscii: add(new stored::AsciiEscapeLayer(false)); break;
			case LAsciiAll: add(new stored::AsciiEscapeLayer(true)); break;
			case LTerm:
				add(new stored::TerminalLayer([this](void*, size_t len) {
					ctx.fail("terminal-leak", "%zu bytes outside of frames", len);
				}));
				break;
			case LBuffer: add(new stored::BufferLayer()); break;
			case LBufferSmall: add(new stored::BufferLayer((size_t)cfg.get("bufsize"))); break;
			case LIdle: add(new stored::IdleCheckLayer()); break;
			case LCallback: {
				auto cb = stored::make_callback([](void*, size_t) {}, [](void const*, size_t, bool) {});
				add(new decltype(cb)(std::move(cb)));
				break;
			}
			case LPrint:
				if(!devnull)
					devnull = fopen("/dev/null", "w");
				add(new stored::PrintLayer(devnull, "print"));
				break;
			case LSeg: add(new stored::SegmentationLayer((size_t)cfg.get("segmtu2"))); break;
			default: break;
			}
		}
		s.bottom.m = lineMtu;
		s.top.cb = [this, i](std::string const& m) { onRecv(i, m); };
		s.bottom.cb = [this, i](std::string const& f) { onFrame(i, f); };
		// wrap() from the top, as users do.
		stored::ProtocolLayer* up = &s.top;
		for(stored::ProtocolLayer* l : st) {
			l->wrap(*up);
			up = l;
		}
		if(!cfg.get("loopback"))
			s.bottom.wrap(*up);
		s.last = up;
	}

	void onFrame(int i, std::string const& f)
	{
		frames++;
		ctx.logBytes("frame", i, f.data(), f.size());
		if(lineMtu && f.size() > lineMtu)
			ctx.fail("mtu", "a frame of %zu bytes is handed to a transport with a maximum of %zu", f.size(), lineMtu);
		side[i].line.push_back(f);
		if(frames > 2000000)
			ctx.fail("runaway", "too many frames");
	}

	void onRecv(int i, std::string const& m)
	{
		Side& from = side[!i];
		ctx.logBytes("recv", i, m.data(), m.size());
		if(from.received >= from.sent.size())
			ctx.fail("phantom", "side %d received a message of %zu bytes that was not sent", i, m.size());
		else if(from.sent[from.received] != m)
			ctx.fail("different", "side %d received a message of %zu bytes instead of %zu bytes, or with different contents", i, m.size(), from.sent[from.received].size());
		else
			from.received++;
	}

	void deliver(int i)
	{
		if(side[i].line.empty())
			return;
		std::string f = side[i].line.front();
		side[i].line.pop_front();
		push(side[!i].bottom, f);
	}

	void settle()
	{
		for(int k = 0; k < 100000 && !ctx.failed && (!side[0].line.empty() || !side[1].line.empty()); k++) {
			deliver(0);
			deliver(1);
		}
	}

	void send(int i, size_t len, int style, i64 parts, u64 cut)
	{
		Side& s = side[i];
		if(s.assembling)
			return;
		std::string m = content(mix((u64)i + 3, s.sent.size()), len, style);
		s.sent.push_back(m);
		ctx.logBytes("send", i, m.data(), m.size());
		pull(s.top, m, parts, cut);
	}

	virtual Op gen(Rng& r) override
	{
		i64 p = (i64)r.below(2);
		std::vector<i64> w = {10, cfg.get("loopback") ? 0 : 30, 8, hasArq ? 0 : 3, 3};
		i64 len;
		size_t m = side[0].seg->lowerMtu();
		if(m && m < 4000 && r.chance(500))
			// Around multiples of the segment size.
			len = std::max<i64>(0, (i64)(m - 1) * r.range(0, 4) + r.range(-2, 2));
		else
			len = r.chance(100) ? 0 : r.range(0, cfg.get("maxlen"));
		switch(r.weighted(w)) {
		case 0: return Op("send", {p, len, r.range(0, 3), r.range(1, 4), (i64)r.below(1000)});
		case 1: return Op("deliver", {p, r.range(1, 6)});
		case 2: return Op("part", {p, r.chance(500) ? len : (i64)r.below(20), r.range(0, 3), r.chance(400)});
		case 3: return Op("reset", {});
		default: return Op("drain", {});
		}
	}

	virtual void exec(Op const& o) override
	{
		int p = (int)o.arg(0) & 1;
		if(o.is("send")) {
			send(p, (size_t)std::max<i64>(0, o.arg(1)), (int)o.arg(2), std::max<i64>(1, o.arg(3)), (u64)o.arg(4));
		} else if(o.is("deliver")) {
			for(i64 k = 0; k < o.arg(1); k++)
				deliver(p);
		} else if(o.is("drain")) {
			settle();
		} else if(o.is("part")) {
			Side& s = side[p];
			std::string m = content(mix((u64)p + 5, s.sent.size() * 31 + s.assembly.size()), (size_t)std::max<i64>(0, o.arg(1)), (int)o.arg(2));
			s.assembly += m;
			s.assembling = true;
			if(o.arg(3)) {
				s.assembling = false;
				s.sent.push_back(s.assembly);
				s.assembly.clear();
			}
			ctx.probe("partial-encode");
			std::vector<char> b(m.begin(), m.end());
			s.top.encode(b.data(), b.size(), o.arg(3) != 0);
		} else if(o.is("reset")) {
			if(hasArq)
				return;
			ctx.fault("reset");
			for(int i = 0; i < 2; i++) {
				Side& s = side[i];
				if(s.assembling)
					ctx.probe("reset-mid-message");
				if(!s.line.empty())
					ctx.probe("reset-with-frames-in-flight");
				s.line.clear();
				s.assembly.clear();
				s.assembling = false;
				s.received = s.sent.size();
				s.top.reset();
			}
		}
		u64 h = (u64)cfg.get("layers");
		for(int i = 0; i < 2; i++) {
			h = mix(h, std::min<size_t>(side[i].line.size(), 8));
			h = mix(h, side[i].assembling);
			h = mix(h, side[i].line.empty() ? 0 : side[i].line.front().size());
		}
		ctx.state(h);
	}

	virtual void finish() override
	{
		finishing = true;
		auto drainAll = [&]() {
			for(int k = 0; k < 6 && !ctx.failed; k++) {
				settle();
				for(int i = 0; i < 2; i++)
					if(side[i].arq && side[i].arq->waitingForAck())
						side[i].arq->flush();
				if(side[0].line.empty() && side[1].line.empty())
					break;
			}
		};
		for(int i = 0; i < 2; i++) {
			Side& s = side[i];
			if(s.assembling) {
				s.assembling = false;
				s.sent.push_back(s.assembly);
				s.assembly.clear();
				s.top.encode(nullptr, 0, true);
			}
		}
		drainAll();
		size_t m = side[0].seg->lowerMtu();
		for(int i = 0; i < 2; i++) {
			send(i, 0, 0, 1, 0);
			send(i, 7, 0, 2, 5);
			if(m && m < 4000)
				for(size_t d = 0; d < 3; d++)
					send(i, m * 2 - 3 + d, (int)d, 1, 0);
		}
		drainAll();
		for(int i = 0; i < 2 && !ctx.failed; i++)
			if(side[i].received != side[i].sent.size())
				ctx.fail("lost", "only %zu of %zu messages of side %d arrived", side[i].received, side[i].sent.size(), i);
	}
};

size_t lower(std::vector<int> const& ks, size_t m, Config& c)
{
	// What is left for the segmentation layer.
	for(int k : ks) {
		switch(k) {
		case LArq: m = m ? (m > 2 ? m - 2 : 0) : 0; if(!m) m = m; break;
		case LCrc8: m = m == 0 ? 256 : std::min<size_t>(m, 257) - 1; break;
		case LCrc16: m = m == 0 ? 256 : std::min<size_t>(m, 258) - (m > 2 ? 2 : m); break;
		case LAscii:
		case LAsciiAll: m /= 2; break;
		case LTerm: m = m > 4 ? m - 4 : (m ? 1 : 0); break;
		case LSeg: m = 0; break;
		default:;
		}
	}
	(void)c;
	return m;
}

void configP05(Rng& r, Config& c)
{
	std::vector<int> ks;
	size_t n = (size_t)r.range(0, 5);
	bool term = false, arq = false;
	for(size_t i = 0; i < n; i++) {
		int k = (int)r.below(LKinds);
		if(k == LArq && arq)
			continue;
		if(k == LTerm) {
			if(term)
				continue;
			// The terminal needs escaped data.
			term = true;
			ks.push_back(LTerm);
			if(r.chance(300))
				ks.push_back(LBuffer);
			ks.push_back(r.chance(500) ? LAscii : LAsciiAll);
			continue;
		}
		if(k == LArq)
			arq = true;
		ks.push_back(k);
	}
	c["bufsize"] = r.range(1, 40);
	c["segmtu"] = r.chance(400) ? 0 : r.range(2, 60);
	c["segmtu2"] = r.chance(400) ? 0 : r.range(8, 300);
	size_t mtu = r.chance(200) ? 0 : r.chance(400) ? (size_t)r.range(250, 270) : r.chance(100) ? (size_t)r.range(500, 560) : (size_t)r.range(2, 80);
	bool lb = r.chance(100) && !arq;
	if(lb)
		mtu = 0;
	// Prevent degenerate combinations, where there is no room for data; every prefix must have room.
	while(true) {
		bool ok = true;
		size_t m = mtu;
		for(size_t i = 0; i < ks.size() && ok; i++) {
			std::vector<int> one(1, ks[i]);
			size_t l = lower(one, m, c);
			if(ks[i] == LSeg && m < 2)
				ok = false;
			if((m || ks[i] == LCrc8 || ks[i] == LCrc16) && l < 2 && ks[i] != LSeg)
				ok = false;
			m = l;
		}
		if(ok && (m == 0 || m >= 2))
			break;
		mtu = mtu ? mtu + 5 : 4000;
		if(mtu > 3000) {
			// Capped by a checksum layer; use fewer layers.
			ks.clear();
			mtu = 20;
		}
	}
	// Layers may limit what is below segmentation too.
	if(c["segmtu2"] && c["segmtu2"] < 40)
		c["segmtu2"] = 40;
	i64 layers = 0;
	for(size_t i = ks.size(); i-- > 0;)
		layers = layers * 16 + ks[i] + 1;
	c["layers"] = layers;
	c["mtu"] = (i64)mtu;
	c["loopback"] = lb;
	c["compress"] = r.chance(150);
	c["maxlen"] = r.chance(200) && (mtu == 0 || mtu > 80) ? r.range(1000, 6000) : r.range(1, 300);
}

World* makeP05(Ctx& c, Config const& cfg)
{
	return new StackWorld(c, cfg);
}

// ---------------------------------------------------------------- P06

class TermWorld : public World {
public:
	Top top[2];
	Bottom bottom;
	std::unique_ptr<stored::AsciiEscapeLayer> ascii[2];
	std::unique_ptr<stored::TerminalLayer> term[2];
	std::unique_ptr<stored::BufferLayer> buffer;
	std::string line; // bytes on their way
	std::vector<std::string> sent;
	size_t received = 0;
	// Text outside frames.
	std::string text;
	size_t textGot = 0;
	bool all;
	bool crlf;
	bool inFrame = false;
	std::string assembly;
	bool assembling = false;
	// After noise: exact expectations resume at a later frame.
	bool unsynced = false;
	size_t unsyncedAt = 0; // frame number from which everything must arrive
	std::string frameBytes;
	bool needResync = false;
	u64 n = 0;

	TermWorld(Ctx& c, Config const& cfg) : World(c, cfg), all(cfg.get("all")), crlf(cfg.get("crlf"))
	{
		for(int i = 0; i < 2; i++) {
			if(!cfg.get("noescape")) {
				ascii[i].reset(new stored::AsciiEscapeLayer(all));
				ascii[i]->wrap(top[i]);
			}
			term[i].reset(new stored::TerminalLayer([this, i](void* b, size_t len) { onText(i, std::string((char*)b, len)); }));
			if(ascii[i])
				term[i]->wrap(*ascii[i]);
			else
				term[i]->wrap(top[i]);
		}
		if(cfg.get("buffer")) {
			buffer.reset(new stored::BufferLayer(cfg.get("buffer") > 1 ? (size_t)cfg.get("buffer") : 0));
			buffer->wrap(*term[0]);
			bottom.wrap(*buffer);
		} else
			bottom.wrap(*term[0]);
		bottom.cb = [this](std::string const& s) { onLine(s); };
		top[1].cb = [this](std::string const& s) { onRecv(s); };
		top[0].cb = [](std::string const&) {};
	}

	void onLine(std::string const& s)
	{
		ctx.logBytes("line", 0, s.data(), s.size());
		if(inFrame) {
			if(s.size() < 4 || s.compare(0, 2, "\x1b_") || s.compare(s.size() - 2, 2, "\x1b\\"))
				ctx.fail("frame-delimiters", "a frame is not delimited properly");
			for(size_t i = 2; i + 2 < s.size(); i++) {
				unsigned char c = (unsigned char)s[i];
				if(cfg.get("noescape"))
					break;
				bool bad = all ? c < 0x20 : c == 0 || c == 0x11 || c == 0x13 || c == 0x1b || c == '\r';
				if(bad)
					ctx.fail("control-character", "control character 0x%02x within a frame on the line", c);
			}
		}
		for(char c : s) {
			if(crlf && c == '\n')
				line += '\r';
			line += c;
		}
	}

	void onText(int i, std::string const& s)
	{
		if(i == 0) {
			ctx.fail("text", "unexpected text");
			return;
		}
		ctx.logBytes("text", 0, s.data(), s.size());
		if(unsynced)
			return;
		if(textGot + s.size() > text.size() || text.compare(textGot, s.size(), s)) {
			ctx.fail("text", "%zu bytes of text reach the terminal, which are not the next bytes that were written outside of frames", s.size());
			return;
		}
		textGot += s.size();
	}

	void onRecv(std::string const& m)
	{
		ctx.logBytes("recv", 0, m.data(), m.size());
		if(unsynced) {
			// Anything may come, until a proper frame.
			if(unsyncedAt < sent.size() && sent[unsyncedAt] == m) {
				received = unsyncedAt + 1;
				unsynced = false;
				textGot = textAt[unsyncedAt];
				ctx.probe("resynchronised");
			}
			return;
		}
		if(received >= sent.size())
			ctx.fail("phantom", "a frame was received that was not sent");
		else if(sent[received] != m)
			ctx.fail("different", "frame %zu of %zu bytes is received as different one of %zu bytes", received, sent[received].size(), m.size());
		else
			received++;
	}
	std::vector<size_t> textAt; // text written before the end of the frame

	void frame(size_t len, int style, i64 parts, u64 cut)
	{
		std::string m = content(mix(n++, 99), len, style);
		if(cfg.get("esc") && style == 3)
			for(size_t i = 0; i < m.size(); i++)
				if(i % 3 == 0)
					m[i] = "\x1b_\\\x7f\r\n\x3f\x40"[i / 3 % 8];
		// Unique, so resynchronisation is certain.
		if(cfg.get("prefix"))
			m = std::to_string(sent.size()) + "#" + m;
		else
			m += "#" + std::to_string(sent.size());
		if(cfg.get("noescape")) {
			// The layer does not need the escaping, as long as the data does not look like an end of a frame.
			for(size_t i = 0; i < m.size(); i++)
				if(m[i] == '\x1b' && (i + 1 == m.size() || m[i + 1] == '\x1b' || m[i + 1] == '\\' || m[i + 1] == '_'))
					m[i] = '\x1a';
		}
		sent.push_back(m);
		inFrame = true;
		ctx.logBytes("send", 0, m.data(), m.size());
		pull(top[0], m, parts, cut);
		inFrame = false;
		textAt.push_back(text.size());
	}

	std::string makeText(size_t len, int style)
	{
		std::string s = content(mix(n++, 55), len, style & 3);
		for(size_t i = 0; i < s.size(); i++)
			if(style >= 2 && i % 5 == 0)
				s[i] = "\x1b[\x1b\\\r\n_\x7f"[i / 5 % 8];
		// A start of frame is not text.
		for(size_t i = 0; i + 1 < s.size(); i++)
			if(s[i] == '\x1b' && s[i + 1] == '_')
				s[i + 1] = '-';
		return s;
	}

	void writeText(std::string const& s)
	{
		if(s.empty())
			return;
		std::string t = s;
		if(!text.empty() && text.back() == '\x1b' && t[0] == '_' && textEscLast)
			t[0] = '-';
		size_t before = line.size();
		std::vector<char> b(t.begin(), t.end());
		if(cfg.get("rawtext"))
			onLine(t);
		else
			term[0]->nonDebugEncode(b.data(), b.size());
		text += line.substr(before);
		textEscLast = t.back() == '\x1b';
	}
	bool textEscLast = false;

	void deliver(size_t k)
	{
		k = std::min(k, line.size());
		if(!k) {
			// An empty read.
			push(*term[1], "");
			return;
		}
		std::string s = line.substr(0, k);
		line.erase(0, k);
		push(*term[1], s);
		ctx.state(mix(mix((unsigned char)s.back(), line.empty() ? 256 : (unsigned char)line[0]), unsynced));
	}

	virtual Op gen(Rng& r) override
	{
		std::vector<i64> w = {cfg.get("w_frame"), cfg.get("w_text"), cfg.get("w_cut"), cfg.get("w_noise"), cfg.get("w_trunc"), 2};
		i64 len = r.chance(100) ? 0 : r.range(0, cfg.get("maxlen"));
		switch(r.weighted(w)) {
		case 0: return Op("frame", {len, r.range(0, 3), r.range(1, 4), (i64)r.below(1000)});
		case 1: return Op("text", {r.range(1, 20), r.range(0, 3)});
		case 2: return Op("deliver", {r.chance(500) ? r.range(0, 4) : r.range(1, 60)});
		case 3: return Op("noise", {r.range(1, 20), r.range(0, 3)});
		case 4: return Op("truncated", {r.range(0, 20), r.range(0, 3)});
		default: return Op("deliver", {100000});
		}
	}

	virtual void exec(Op const& o) override
	{
		if(o.is("frame")) {
			textEscLast = false;
			frame((size_t)std::max<i64>(0, o.arg(0)), (int)o.arg(1), std::max<i64>(1, o.arg(2)), (u64)o.arg(3));
		} else if(o.is("text")) {
			writeText(makeText((size_t)std::max<i64>(0, o.arg(0)), (int)o.arg(1)));
		} else if(o.is("deliver")) {
			deliver((size_t)std::max<i64>(0, o.arg(0)));
		} else if(o.is("noise") || o.is("truncated")) {
			// Everything before is fine.
			settle();
			if(ctx.failed)
				return;
			ctx.fault(o.kind.c_str());
			std::string s = o.is("truncated") ? "\x1b_" : "";
			s += content(mix(n++, 44), (size_t)std::max<i64>(0, o.arg(0)), (int)o.arg(1));
			if(o.is("noise"))
				for(size_t i = 0; i < s.size(); i++)
					if(i % 3 == 0)
						s[i] = "\x1b_\\\x1b"[mix(n, i) % 4];
			unsynced = true;
			// At most one frame may get lost after it.
			unsyncedAt = sent.size() + 1;
			line += s;
			ctx.logBytes("noise", 0, s.data(), s.size());
		}
	}

	void settle()
	{
		deliver(line.size());
		if(ctx.failed)
			return;
		if(!unsynced) {
			if(received != sent.size())
				ctx.fail("lost", "only %zu of %zu frames were received", received, sent.size());
			// A single ESC may be held back.
			size_t t = text.size();
			if(textGot != t && !(textGot + 1 == t && text.back() == '\x1b'))
				ctx.fail("text", "only %zu of %zu bytes of text were received", textGot, t);
		} else if(sent.size() > unsyncedAt) {
			ctx.fail("no-resync", "a complete frame after noise was not received");
		}
	}

	virtual void finish() override
	{
		settle();
		for(int i = 0; i < 2; i++)
			exec(Op("frame", {10 + i, 0, 1, 0}));
		settle();
		if(ctx.failed)
			return;
		exec(Op("frame", {30, 3, 3, 2}));
		textEscLast = false;
		exec(Op("text", {10, 0}));
		exec(Op("frame", {5, 1, 1, 0}));
		while(!line.empty() && !ctx.failed)
			deliver(1);
		settle();
		if(!ctx.failed && unsynced)
			ctx.fail("no-resync", "no resynchronisation");
	}
};

void configP06(Rng& r, Config& c)
{
	c["all"] = r.chance(500);
	c["crlf"] = r.chance(500);
	c["prefix"] = r.chance(500);
	c["noescape"] = r.chance(150);
	if(c["noescape"])
		// Carriage returns are only removed by the escape layer.
		c["crlf"] = 0;
	c["buffer"] = r.chance(500) ? 0 : r.chance(500) ? 1 : r.range(2, 30);
	c["maxlen"] = r.chance(800) ? r.range(1, 40) : r.range(100, 1500);
	c["w_frame"] = 10;
	c["w_text"] = r.chance(300) ? 0 : r.range(1, 10);
	c["w_cut"] = r.range(5, 40);
	c["w_noise"] = r.chance(600) ? 0 : r.range(1, 3);
	c["w_trunc"] = r.chance(600) ? 0 : r.range(1, 3);
	c["esc"] = r.chance(700);
	c["rawtext"] = r.chance(300);
}

World* makeP06(Ctx& c, Config const& cfg)
{
	return new TermWorld(c, cfg);
}
} // namespace

namespace sim {
char const* const binaryName = "stack";
Family const families[] = {
	{"P04", configP04, makeP04, 10, 300},
	{"P05", configP05, makeP05, 5, 200},
	{"P06", configP06, makeP06, 5, 200},
};
size_t const familyCount = sizeof(families) / sizeof(families[0]);
} // namespace sim
