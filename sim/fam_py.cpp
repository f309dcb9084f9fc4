// P23: the real Python client stack (embedded interpreter) against the real target stack, over a simulated line.
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#define SIM_FULL_PARTS
#include "fam_full.cpp"

#include <deque>

extern "C" int __lsan_is_turned_off()
{
	return 1; // the interpreter never frees everything
}

namespace {

// ---------------------------------------------------------------- Embedded interpreter

class PyWorld;
PyWorld* s_world;
PyObject* s_module;
std::string pyError();
PyObject* sinkFunction(PyObject*, PyObject* args);

PyMethodDef s_sinkDef = {"sink", sinkFunction, METH_VARARGS, nullptr};

void pyInit()
{
	if(s_module)
		return;
	PyConfig config;
	PyConfig_InitPythonConfig(&config);
	config.use_hash_seed = 1;
	config.hash_seed = 0;
	config.write_bytecode = 0;
	config.site_import = 1;
	config.install_signal_handlers = 0;
	PyConfig_SetBytesString(&config, &config.program_name, "/opt/vp/venv/bin/python3");
	PyStatus st = Py_InitializeFromConfig(&config);
	PyConfig_Clear(&config);
	if(PyStatus_Exception(st)) {
		fprintf(stderr, "SIM-ERROR: python does not start\n");
		_exit(99);
	}
	PyRun_SimpleString("import sys\nsys.path[:0] = ['" SIM_HERE "/sim/py', '/opt/vp/venv/lib/python3.12/site-packages']");
	s_module = PyImport_ImportModule("client");
	PyObject* r = s_module ? PyObject_CallMethod(s_module, "load", "s", SIM_REPO_DIR) : nullptr;
	if(!r) {
		PyErr_Print();
		fprintf(stderr, "SIM-ERROR: cannot load the python stack\n");
		_exit(99);
	}
	Py_DECREF(r);
}

std::string pyError()
{
	PyObject *t, *v, *b;
	PyErr_Fetch(&t, &v, &b);
	PyErr_NormalizeException(&t, &v, &b);
	std::string s = t ? ((PyTypeObject*)t)->tp_name : "?";
	if(PyObject* x = v ? PyObject_Str(v) : nullptr) {
		if(char const* c = PyUnicode_AsUTF8(x))
			s += std::string(": ") + c;
		Py_DECREF(x);
	}
	Py_XDECREF(t);
	Py_XDECREF(v);
	Py_XDECREF(b);
	PyErr_Clear();
	return s;
}

// ---------------------------------------------------------------- P23

class PyWorld : public World {
public:
	FullStore store, twinStore;
	std::unique_ptr<TopDebugger> dbg;
	std::unique_ptr<stored::Debugger> twin;
	Collect twinPort;
	std::vector<std::unique_ptr<stored::ProtocolLayer>> layers; // top down
	Spy *spyArq = nullptr, *spyRaw = nullptr;
	BytePort port;
	bool bytes, arq, escape_;
	int crc;
	size_t pyMtu;

	PyObject* client = nullptr;

	// 0: to target, 1: to client
	std::string line[2];
	std::deque<std::string> frames[2];
	std::vector<std::string> targetFrames;
	std::set<std::string> sentFrames[2]; // between ARQ and CRC
	std::string rawNow[2];
	bool rawOk[2] = {true, true};
	bool voided = false, corrupted = false, damaged = false;

	std::string text[2], wantText[2], pending[2]; // Terminal text

	bool outstanding = false;
	std::string request_;
	int executed = 0;
	bool precious = false;
	std::vector<std::string> expected;
	u64 answered = 0;

	PyWorld(Ctx& c, Config const& cfg_)
		: World(c, cfg_), bytes(cfg.get("bytes")), arq(cfg.get("arq")), escape_(bytes || cfg.get("escape")), crc((int)((u64)cfg.get("crc") % 3)),
		  pyMtu((size_t)std::max<i64>(0, cfg.get("pymtu")))
	{
		pyInit();
		s_world = this;
		resetNameBuffer("");
		if(!arq)
			crc = (int)((u64)cfg.get("crc") % 3);
		startTarget();
		startClient();
	}

	~PyWorld() override
	{
		stopClient();
		s_world = nullptr;
	}

	bool faulty() const { return arq; }

	template <typename T, typename... A>
	T* layer(A&&... a)
	{
		T* l = new T(std::forward<A>(a)...);
		stored::ProtocolLayer* up = layers.empty() ? (stored::ProtocolLayer*)dbg.get() : layers.back().get();
		layers.emplace_back(l);
		l->wrap(*up);
		return l;
	}

	void startTarget()
	{
		layers.clear();
		dbg.reset(new TopDebugger());
		twin.reset(new stored::Debugger());
		dbg->map(store);
		twin->map(twinStore);
		dbg->setIdentification("sim");
		twin->setIdentification("sim");
		twinPort.wrap(*twin);
		dbg->pre = [this](std::string const& s) { onExecute(s); };
		layer<stored::SegmentationLayer>((size_t)cfg.get("segmtu"));
		if(arq)
			layer<stored::DebugArqLayer>();
		spyArq = layer<Spy>();
		if(crc == 2)
			layer<stored::Crc16Layer>();
		else if(crc == 1)
			layer<stored::Crc8Layer>();
		spyRaw = layer<Spy>();
		if(escape_)
			layer<stored::AsciiEscapeLayer>(cfg.get("all") != 0);
		if(bytes) {
			layer<stored::TerminalLayer>([this](void* b, size_t n) { text[0].append((char*)b, n); });
		}
		if(cfg.get("buffer"))
			layer<stored::BufferLayer>(cfg.get("buffer") > 1 ? (size_t)cfg.get("buffer") : 0);
		port.m = (size_t)cfg.get("mtu");
		port.frames = &targetFrames;
		port.wrap(*layers.back());

		spyRaw->onDecode = [this](std::string const& s) { onRaw(0, s); };
		spyArq->onDecode = [this](std::string const& s) { onAccept(0, s); };
		spyArq->onEncode = [this](std::string const& s) {
			sentFrames[1].insert(s);
			if(s.size() > 3 && s[0] & 0x40)
				ctx.probe(s[1] & 0x80 ? "sequence-3-bytes" : "sequence-2-bytes");
		};
	}

	void startClient()
	{
		std::string d = "segment";
		if(cfg.get("pyseg"))
			d += "=" + std::to_string(cfg.get("pyseg"));
		if(arq)
			d += ",arq";
		d += ",simspy=0";
		if(crc)
			d += crc == 2 ? ",crc16" : ",crc8";
		d += ",simspy=1";
		if(escape_)
			d += ",ascii";
		if(bytes)
			d += cfg.get("pub") ? ",pubterm" : ",term";
		d += ",simport=" + std::to_string(pyMtu);
		PyObject* f = PyCFunction_New(&s_sinkDef, nullptr);
		client = PyObject_CallMethod(s_module, "Client", "sO", d.c_str(), f);
		Py_DECREF(f);
		if(!client)
			ctx.fail("exception", "constructing the client stack '%s' raises %s", d.c_str(), pyError().c_str());
	}

	void stopClient()
	{
		if(client) {
			call("close");
			Py_XDECREF(client);
			client = nullptr;
		}
	}

	// --- Calls of Python

	bool call(char const* name)
	{
		if(!client)
			return false;
		PyObject* r = PyObject_CallMethod(client, name, nullptr);
		return result(r, name);
	}
	bool call(char const* name, std::string const& s)
	{
		if(!client)
			return false;
		PyObject* r = PyObject_CallMethod(client, name, "y#", s.data(), (Py_ssize_t)s.size());
		return result(r, name);
	}
	bool result(PyObject* r, char const* name)
	{
		if(!r) {
			std::string e = pyError();
			if(!voided)
				ctx.fail("exception", "%s in the client raises %s", name, e.c_str());
			return false;
		}
		Py_DECREF(r);
		return true;
	}

	void sink(int what, std::string const& s)
	{
		switch(what) {
		case 0:
			ctx.logBytes("c2t", 0, s.data(), s.size());
			if(pyMtu && s.size() > pyMtu && !injecting)
				ctx.fail("mtu", "a frame of %zu bytes is sent, while the line is limited to %zu", s.size(), pyMtu);
			if(bytes)
				line[0] += s;
			else
				frames[0].push_back(s);
			break;
		case 1: onResponse(s); break;
		case 2: text[1] += s; break;
		case 10:
			sentFrames[0].insert(s);
			if(!arq || s.empty() || !((unsigned char)s[0] & 0x80))
				onlyReset = false;
			break;
		case 11:
			ctx.logBytes("t2c", 0, s.data(), s.size());
			onAccept(1, s);
			break;
		case 13: onRaw(1, s); break;
		default: break;
		}
	}
	bool injecting = false;
	bool onlyReset = true; // nothing has been sent, but the reset of the connection

	// --- Frames

	// d: 0: at the target, 1: at the client.
	void onRaw(int d, std::string const& s)
	{
		if(voided)
			return;
		size_t n = crc == 2 ? 2 : crc == 1 ? 1 : 0;
		rawOk[d] = s.size() >= n && withCrc(s.substr(0, s.size() - n), crc) == s;
		if(rawOk[d] && crc && !sentFrames[d].count(s.substr(0, s.size() - n)) && corrupted) {
			voided = true;
			ctx.probe("undetectable");
		}
	}

	void onAccept(int d, std::string const& s)
	{
		if(voided)
			return;
		if(!rawOk[d])
			ctx.fail("crc", "a damaged frame of %zu bytes is accepted by the %s", s.size(), d ? "client" : "target");
		else if(!sentFrames[d].count(s))
			ctx.fail("frame", "the %s receives a frame of %zu bytes that was not sent", d ? "client" : "target", s.size());
	}

	void onExecute(std::string const& s)
	{
		ctx.logBytes("exec", 0, s.data(), s.size());
		if(voided)
			return;
		if(!outstanding || s != request_) {
			ctx.fail("unknown-request", "a request of %zu bytes is executed, which is not the outstanding one of %zu", s.size(), request_.size());
			return;
		}
		if(executed && precious) {
			ctx.fail("executed-twice", "the request '%c' was executed again, but has side effects", s.empty() ? '-' : s[0]);
			return;
		}
		if(executed)
			ctx.probe("re-executed");
		executed++;
		twinPort.purgeable = false;
		twinPort.got.clear();
		std::vector<char> b(s.begin(), s.end());
		twin->decode(b.data(), b.size());
		precious = !twinPort.purgeable;
		if(twinPort.got.size() != 1)
			ctx.fail("harness", "twin gives %zu responses", twinPort.got.size());
		else
			expected.push_back(twinPort.got[0]);
	}

	void onResponse(std::string const& s)
	{
		ctx.logBytes("resp", 0, s.data(), s.size());
		if(voided)
			return;
		if(!outstanding) {
			ctx.fail("extra-response", "a response of %zu bytes is returned, without request", s.size());
			return;
		}
		if(std::find(expected.begin(), expected.end(), s) == expected.end()) {
			ctx.fail("wrong-response", "the response of %zu bytes to '%c...' differs from the one over a perfect line", s.size(), request_.empty() ? '-' : request_[0]);
			return;
		}
		answered++;
		outstanding = false;
		if(answered > 1)
			ctx.probe("answered");
	}

	void compare()
	{
		if(voided || ctx.failed)
			return;
		if(store.image() != twinStore.image())
			ctx.fail("store", "the store differs from what it would be over a perfect line");
		else if(store.fn.calls != twinStore.fn.calls)
			ctx.fail("function", "functions are called differently than over a perfect line");
	}

	// --- Line

	bool quiet() const { return line[0].empty() && line[1].empty() && frames[0].empty() && frames[1].empty(); }

	// A terminal may insert carriage returns.
	std::string terminal(std::string const& s)
	{
		if(!cfg.get("crlf"))
			return s;
		std::string o;
		for(char c : s) {
			if(c == '\n') {
				// Twice if it passes two terminals.
				o.append(cfg.get("crlf") == 2 ? 2 : 1, '\r');
				ctx.fault("carriage-return");
			}
			o += c;
		}
		return o;
	}

	void collect()
	{
		for(auto& f : targetFrames) {
			if(bytes)
				line[1] += terminal(f);
			else
				frames[1].push_back(f);
		}
		targetFrames.clear();
	}

	void deliver(int d, size_t n)
	{
		if(ctx.failed || voided)
			return;
		std::string c;
		if(bytes) {
			c = line[d].substr(0, n);
			line[d].erase(0, n);
		} else if(!frames[d].empty()) {
			c = frames[d].front();
			frames[d].pop_front();
			if(c.empty())
				return;
		}
		if(c.empty())
			return;
		if(d == 0) {
			std::unique_ptr<char[]> b(new char[c.size()]);
			memcpy(b.get(), c.data(), c.size());
			layers.back()->decode(b.get(), c.size());
			collect();
		} else
			call("deliver", c);
	}

	void settle()
	{
		for(int i = 0; i < 20000 && !ctx.failed && !voided && !quiet(); i++) {
			deliver(0, 4000);
			deliver(1, 4000);
		}
		if(!ctx.failed && !voided && !quiet())
			ctx.fail("runaway", "frames keep being exchanged");
		compare();
		if(!corrupted && !ctx.failed && !voided && bytes)
			for(int d = 0; d < 2; d++)
				if(text[d] != wantText[d])
					ctx.fail("text", "the %s prints %zu bytes of text, while %zu are sent", d ? "client" : "target", text[d].size(), wantText[d].size());
	}

	void request(std::string const& m)
	{
		request_ = m;
		outstanding = true;
		executed = 0;
		precious = false;
		expected.clear();
		onlyReset = true;
		call("request", m);
	}

	void timeout()
	{
		if(outstanding) {
			damaged = true;
			doTimeout();
		}
	}

	void doTimeout()
	{
		if(!quiet()) {
			// The client may be too fast, but a response that is regenerated cannot be told apart from one that is late.
			if(!(executed == 1 && precious) && !onlyReset)
				return;
			ctx.fault("early-timeout");
		}
		ctx.fault("timeout");
		call("timeout");
	}

	Op gen(Rng& r) override
	{
		Op o;
		switch(r.weighted({12, cfg.get("w_dl", 40), cfg.get("w_ex", 10), cfg.get("w_cor", 8), 8, 6, 6, 4, 2, cfg.get("w_restart", 1)})) {
		case 0: o = Op("rq", {(i64)(r.next() >> 1)}); break;
		case 1: o = Op("dl", {(i64)r.below(2), r.range(1, cfg.get("chunk", 30))}); break;
		case 2: o = Op("ex", {}); break;
		case 3: o = Op("cor", {(i64)r.below(2), (i64)r.below(100000), (i64)r.below(7), (i64)r.below(256), r.range(1, 12)}); break;
		case 4: o = Op("to", {}); break;
		case 5: o = Op("aw", {(i64)(r.next() >> 1)}); break;
		case 6: o = Op("st", {(i64)r.below(4), r.range(1, 60)}); break;
		case 7: o = Op("tr", {r.range(1, 5)}); break;
		case 8: o = Op("text", {(i64)r.below(2), r.range(1, 20)}); break;
		default: o = Op("restart", {(i64)r.below(2)}); break;
		}
		o.dt = r.range(0, 200000);
		return o;
	}

	void exec(Op const& o) override
	{
		if(voided || ctx.failed)
			return;
		if(o.is("rq")) {
			if(outstanding || (!faulty() && !quiet()))
				return;
			Rng g((u64)o.arg(0));
			std::string m = makeRequest(g, false);
			if(ctx.verbose)
				ctx.log("  request %s", m.c_str());
			request(m);
		} else if(o.is("dl")) {
			deliver((int)o.arg(0) & 1, (size_t)std::max<i64>(1, o.arg(1)));
		} else if(o.is("ex")) {
			settle();
		} else if(o.is("cor")) {
			corrupt(o);
		} else if(o.is("to")) {
			if(faulty())
				timeout();
		} else if(o.is("aw")) {
			appWrite(store, (u64)o.arg(0));
			appWrite(twinStore, (u64)o.arg(0));
		} else if(o.is("st")) {
			std::string d = content(mix((u64)ctx.step, 3), (size_t)std::max<i64>(0, o.arg(1)), 0);
			char c = streamChars[o.arg(0) & 3];
			dbg->stream(c, d.data(), d.size());
			twin->stream(c, d.data(), d.size());
		} else if(o.is("tr")) {
			for(i64 i = 0; i < o.arg(0) && i < 100; i++) {
				dbg->trace();
				twin->trace();
			}
		} else if(o.is("text")) {
			// Terminal output or input, that is no frame.
			if(!bytes)
				return;
			int d = (int)o.arg(0) & 1;
			std::string t = content(mix((u64)ctx.step, 9), (size_t)std::max<i64>(1, o.arg(1)), 0);
			for(auto& c : t)
				if(c == '\x1b' || c == '\r')
					c = '.';
			if(ctx.step % 4 == 0)
				t += "\x1b[0m"; // a color code
			if(d)
				t = terminal(t);
			wantText[d] += t;
			if(d == 0) {
				injecting = true;
				call("inject", t);
				injecting = false;
			} else
				line[1] += t;
			ctx.fault("text-between-frames");
		} else if(o.is("restart")) {
			if(!quiet() || !faulty())
				return;
			outstanding = false;
			wantText[1] = text[1] = wantText[0] = text[0] = "";
			stopClient();
			if(o.arg(0) & 1) {
				ctx.fault("target-restart");
				startTarget();
			} else
				ctx.fault("client-restart");
			startClient();
		}
		compare();
		u64 h = mix(outstanding, std::min<size_t>((size_t)executed, 3));
		h = mix(h, outstanding && !request_.empty() ? (u64)request_[0] : 0);
		h = mix(h, (u64)(bytes * 8 + arq * 4 + crc));
		ctx.state(mix(h, mix(std::min<size_t>(line[0].size() / 16 + frames[0].size(), 6), std::min<size_t>(line[1].size() / 16 + frames[1].size(), 6))));
	}

	// The encoding of any sequence number is as documented.
	void seqs(uint32_t seq)
	{
		if(!client)
			return;
		PyObject* r = PyObject_CallMethod(client, "seqs", "I", (unsigned)seq);
		char const* p = nullptr;
		Py_ssize_t n = 0;
		int ok = 1;
		bool some = r && r != Py_None;
		if(some && PyArg_ParseTuple(r, "y#p", &p, &n, &ok)) {
			uint32_t x = 0;
			bool reset = false;
			std::string rest;
			if(!seqDecode(std::string(p, (size_t)n), x, reset, rest) || reset || !rest.empty() || x != seq)
				ctx.fail("sequence", "sequence number %u is encoded as %s", seq, hex(p, (size_t)n).c_str());
			else if(!ok)
				ctx.fail("sequence", "sequence number %u is not decoded properly", seq);
		}
		result(r, "seqs");
	}

	void corrupt(Op const& o)
	{
		if(!faulty())
			return;
		int d = (int)o.arg(0) & 1;
		char v = (char)o.arg(3);
		std::string* l = &line[d];
		if(!bytes) {
			if(frames[d].empty())
				return;
			size_t f = (size_t)o.arg(3) % frames[d].size();
			if(!crc || o.arg(2) % 6 == 2) {
				ctx.fault("frame-lost");
				damaged = true;
				frames[d].erase(frames[d].begin() + (long)f);
				ctx.nontrivial = true;
				return;
			}
			l = &frames[d][f];
		}
		if(l->empty() || !crc)
			return;
		corrupted = damaged = true;
		size_t at = (size_t)o.arg(1) % l->size();
		size_t n = std::min((size_t)std::max<i64>(1, o.arg(4)), l->size() - at);
		switch(o.arg(2) % 7) {
		case 6: {
			// The line is cut half-way an escape code.
			size_t e = l->find('\x1b', at);
			if(e == std::string::npos)
				return;
			ctx.fault("cut-in-escape");
			l->resize(e + 1);
			break;
		}
		case 0:
			ctx.fault("bit-flip");
			(*l)[at] = (char)((*l)[at] ^ (1 << (v & 7)));
			break;
		case 1:
			ctx.fault("byte-lost");
			l->erase(at, 1);
			break;
		case 2:
			ctx.fault("burst-lost");
			l->erase(at, n);
			break;
		case 3:
			ctx.fault("noise-inserted");
			l->insert(at, content((u64)o.arg(3), n, 1));
			break;
		case 4:
			ctx.fault("byte-changed");
			(*l)[at] = v;
			break;
		default:
			ctx.fault("rest-lost");
			l->resize(at);
			break;
		}
		ctx.nontrivial = true;
	}

	void finish() override
	{
		seqs((uint32_t)cfg.get("seq") & 0x7ffffff);
		// The line works again.
		finishOne(damaged ? 6 : 0);
		if(ctx.failed || voided)
			return;
		for(int i = 0; i < 6 && !ctx.failed && !voided; i++) {
			Rng g(mix(77, (u64)i));
			request(makeRequest(g, false));
			// The very first one may be swallowed by the remainder of a damaged frame.
			finishOne(i == 0 && damaged ? 2 : 0);
		}
		if(bytes && cfg.get("pub") && !corrupted && client && !ctx.failed && !voided) {
			PyObject* r = PyObject_CallMethod(client, "published", nullptr);
			std::string p;
			if(r)
				p.assign(PyBytes_AsString(r), (size_t)PyBytes_Size(r));
			if(result(r, "published") && p != text[1])
				ctx.fail("text", "%zu bytes of text are published, while %zu are printed", p.size(), text[1].size());
		}
		if(client && !ctx.failed && !voided) {
			// The moment of the last activity is known.
			PyObject* r = PyObject_CallMethod(client, "last", nullptr);
			double l = r ? PyFloat_AsDouble(r) : 0;
			if(result(r, "lastActivity()") && answered && l <= 0)
				ctx.fail("activity", "no activity is reported");
		}
	}

	void finishOne(int retransmits)
	{
		settle();
		for(int i = 0; i < retransmits && faulty() && !ctx.failed && !voided && outstanding; i++) {
			timeout();
			settle();
		}
		if(!ctx.failed && !voided && outstanding)
			ctx.fail("no-answer", "the request '%c...' is not answered after %d retransmits over a perfect line", request_.empty() ? '-' : request_[0], retransmits);
	}
};

PyObject* sinkFunction(PyObject*, PyObject* args)
{
	int what = 0;
	char const* p = nullptr;
	Py_ssize_t n = 0;
	if(!PyArg_ParseTuple(args, "iy#", &what, &p, &n))
		return nullptr;
	if(s_world)
		s_world->sink(what, std::string(p, (size_t)n));
	Py_RETURN_NONE;
}

void configP23(Rng& r, Config& c)
{
	c["bytes"] = r.chance(600);
	c["arq"] = r.chance(850);
	c["escape"] = r.chance(300);
	// A byte line that is damaged needs a checksum.
	c["crc"] = r.chance(550) ? 2 : r.range(0, 2);
	c["all"] = r.chance(300);
	c["pub"] = r.chance(200);
	c["seq"] = r.pick(std::vector<i64>{0x3e, 0x1ffe, 0xffffe, 0x7fffffd, (i64)(r.next() & 0x7ffffff)}) + r.range(0, 3);
	c["segmtu"] = r.chance(300) ? 0 : r.range(6, 100);
	c["pyseg"] = r.chance(400) ? 0 : r.range(2, 60);
	c["pymtu"] = c.get("pyseg") ? 0 : r.chance(400) ? 0 : r.chance(500) && !c.get("bytes") && !c.get("escape") ? r.range(12, 40) : r.range(30, 300);
	c["crlf"] = r.chance(200) ? r.range(1, 2) : 0;
	c["buffer"] = r.chance(300) ? 0 : r.chance(500) ? 1 : r.range(2, 100);
	if(!c.get("bytes") && c.get("buffer") == 0)
		c["buffer"] = 1; // a frame in a message
	if(!c.get("bytes") && c.get("buffer") > 1)
		c["buffer"] = 1;
	c["mtu"] = r.chance(600) ? 0 : r.range(40, 600);
	c["chunk"] = r.pick(std::vector<i64>{1, 4, 30, 300});
	c["w_dl"] = r.range(20, 120);
	c["w_ex"] = r.range(0, 20);
	c["w_cor"] = r.chance(100) ? 0 : r.range(1, 20);
	c["w_restart"] = r.chance(600) ? 0 : 1;
}

World* makeP23(Ctx& c, Config const& cfg)
{
	return new PyWorld(c, cfg);
}
} // namespace

namespace sim {
Family const families[] = {
	{"P23", configP23, makeP23, 20, 250},
};
size_t const familyCount = sizeof(families) / sizeof(families[0]);
char const* const binaryName = "py";
} // namespace sim
