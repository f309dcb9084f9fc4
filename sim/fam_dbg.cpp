// P13-P16: the Debugger, with mapped stores, streams and traces, against a model written from the protocol documentation.
#include "kernel.h"

#include "SimDbg.h"
#include "SimSmall.h"

#include <stored>

extern "C" {
#include <heatshrink_decoder.h>
}

#include <algorithm>
#include <functional>
#include <set>

using namespace sim;

namespace {

struct Slot;
struct DbgWorld;

struct VarInfo {
	char const* name;
	unsigned type;
	size_t size;
	bool fn() const { return type & 0x40; }
	bool fixed() const { return type & 0x20; }
	bool isInt() const { return fixed() && (type & 0x10); }
	bool isBool() const { return (type & 0x3f) == 0x20; }
	bool isString() const { return (type & 0x3f) == 0x02; }
};

#define DBG_VARS(V, F)                                                                                                             \
	V(i8, "/i8", 0x38, 1)                                                                                                      \
	V(i16, "/i16", 0x39, 2)                                                                                                    \
	V(i32, "/i32", 0x3b, 4)                                                                                                    \
	V(i64, "/i64", 0x3f, 8)                                                                                                    \
	V(u8, "/u8", 0x30, 1)                                                                                                      \
	V(u16, "/u16", 0x31, 2)                                                                                                    \
	V(u32, "/u32", 0x33, 4)                                                                                                    \
	V(u64, "/u64", 0x37, 8)                                                                                                    \
	V(fl, "/fl", 0x2b, 4)                                                                                                      \
	V(db, "/db", 0x2f, 8)                                                                                                      \
	V(bo, "/bo", 0x20, 1)                                                                                                      \
	F(p32, "/p32", 0x23, 4)                                                                                                    \
	V(p64, "/p64", 0x27, 8)                                                                                                    \
	V(blob, "/blob", 0x01, 5)                                                                                                  \
	V(str, "/str", 0x02, 10)                                                                                                   \
	V(value, "/value", 0x33, 4)                                                                                                \
	V(valve, "/valve", 0x33, 4)                                                                                                \
	V(scope__alpha, "/scope/alpha", 0x30, 1)                                                                                   \
	V(scope__alpine, "/scope/alpine", 0x30, 1)                                                                                 \
	V(scope__nest__deep, "/scope/nest/deep", 0x3b, 4)                                                                          \
	V(scope__nest__deeper, "/scope/nest/deeper", 0x3b, 4)                                                                      \
	V(scout__on, "/scout/on", 0x20, 1)                                                                                         \
	V(arr_0, "/arr[0]", 0x20, 1)                                                                                               \
	V(arr_1, "/arr[1]", 0x20, 1)                                                                                               \
	V(arr_2, "/arr[2]", 0x20, 1)                                                                                               \
	V(big, "/big", 0x01, 70)                                                                                                   \
	V(long_text, "/long text", 0x02, 33)                                                                                       \
	F(now, "/now", 0x73, 4)                                                                                                    \
	F(fd, "/fd", 0x6f, 8)                                                                                                      \
	F(fs, "/fs", 0x42, 8)                                                                                                      \
	F(fb, "/fb", 0x41, 5)                                                                                                      \
	F(fbool, "/fbool", 0x60, 1)                                                                                                \
	F(wide, "/wide", 0x71, 2)                                                                                                  \
	F(long_one, "/long one", 0x7f, 8)

#define SMALL_VARS(V, F)                                                                                                           \
	V(a, "/a", 0x33, 4)                                                                                                        \
	V(b, "/b", 0x31, 2)                                                                                                        \
	V(c, "/c", 0x30, 1)                                                                                                        \
	V(d, "/d", 0x20, 1)                                                                                                        \
	V(e, "/e", 0x3f, 8)                                                                                                        \
	V(f, "/f", 0x02, 6)                                                                                                        \
	V(g, "/g", 0x01, 9)                                                                                                        \
	V(h, "/h", 0x2b, 4)                                                                                                        \
	V(i_0, "/i[0]", 0x3b, 4)                                                                                                   \
	V(i_1, "/i[1]", 0x3b, 4)                                                                                                   \
	V(i_2, "/i[2]", 0x3b, 4)                                                                                                   \
	V(j, "/j", 0x02, 4)

#define ENUM(c, n, t, s) E_##c,
#define INFO(c, n, t, s) {n, t, s},
enum { DBG_VARS(ENUM, ENUM) E_count };
std::vector<VarInfo> const dbgVars = {DBG_VARS(INFO, INFO)};
#undef ENUM
#define ENUM(c, n, t, s) S_##c,
enum { SMALL_VARS(ENUM, ENUM) S_count };
std::vector<VarInfo> const smallVars = {SMALL_VARS(INFO, INFO)};

struct FnCall {
	int slot;
	int var;
	bool set;
	std::string value;
	bool operator==(FnCall const& o) const { return slot == o.slot && var == o.var && set == o.set && value == o.value; }
};

// What is behind the functions; the store and the model have one each.
struct FnState {
	std::map<int, std::string> v;
	std::string get(int var, size_t size)
	{
		std::string& s = v[var];
		bool str = dbgVars[(size_t)var].isString();
		if(!str && s.size() < size)
			s.resize(size);
		if(var == E_now) {
			uint32_t x;
			memcpy(&x, s.data(), 4);
			x++;
			memcpy(&s[0], &x, 4);
		}
		return s.substr(0, size);
	}
	void set(int var, std::string const& s)
	{
		if(dbgVars[(size_t)var].fixed())
			v[var] = s;
		else {
			std::string& o = v[var];
			if(dbgVars[(size_t)var].isString())
				o = s;
			else {
				o.resize(5);
				o.replace(0, s.size(), s);
			}
		}
	}
};

std::vector<FnCall>* fnLog;

class DbgStore : public STORE_T(DbgStore, stored::SimDbgBase) {
	STORE_CLASS(DbgStore, stored::SimDbgBase)
public:
	DbgStore() is_default
	FnState fn;
	int slot = 0;

	size_t call(int var, bool set, void* buf, size_t len)
	{
		std::string v;
		if(set) {
			v.assign((char*)buf, len);
			fn.set(var, v);
		} else {
			v = fn.get(var, len);
			memcpy(buf, v.data(), v.size());
		}
		if(fnLog)
			fnLog->push_back({slot, var, set, v});
		return v.size();
	}
	void __now(bool set, uint32_t& v) { call(E_now, set, &v, sizeof(v)); }
	void __fd(bool set, double& v) { call(E_fd, set, &v, sizeof(v)); }
	size_t __fs(bool set, char* v, size_t len) { return call(E_fs, set, v, len); }
	size_t __fb(bool set, void* v, size_t len) { return call(E_fb, set, v, len); }
	void __fbool(bool set, bool& v) { call(E_fbool, set, &v, sizeof(v)); }
	void __wide(bool set, uint16_t& v) { call(E_wide, set, &v, sizeof(v)); }
	void __long_one(bool set, int64_t& v) { call(E_long_one, set, &v, sizeof(v)); }

	stored::Variant<DbgStore> raw(int i)
	{
		switch(i) {
#define RAW(c, n, t, s)                                                                                                            \
	case E_##c:                                                                                                                \
		return this->c.variant();
#define NONE(c, n, t, s)
			DBG_VARS(RAW, NONE)
#undef RAW
		case E_p32:
			return this->find("/p32");
		default:
			return stored::Variant<DbgStore>();
		}
	}
};

class SmallStore : public STORE_T(SmallStore, stored::SimSmallBase) {
	STORE_CLASS(SmallStore, stored::SimSmallBase)
public:
	SmallStore() is_default
	stored::Variant<SmallStore> raw(int i)
	{
		switch(i) {
#define RAW(c, n, t, s)                                                                                                            \
	case S_##c:                                                                                                                \
		return this->c.variant();
			SMALL_VARS(RAW, NONE)
		default:
			return stored::Variant<SmallStore>();
		}
	}
};

struct Slot {
	int id = 0;
	bool small = false;
	std::unique_ptr<DbgStore> dbg;
	std::unique_ptr<SmallStore> sml;
	std::vector<std::string> model;
	FnState fn;

	std::vector<VarInfo> const& vars() const { return small ? smallVars : dbgVars; }
	std::string real(size_t i)
	{
		VarInfo const& v = vars()[i];
		std::string s(v.size + 1, '\xcc');
		size_t n = small ? sml->raw((int)i).get(&s[0], v.size) : dbg->raw((int)i).get(&s[0], v.size);
		s.resize(v.isString() ? n : v.size);
		return s;
	}
	void create(int id_)
	{
		id = id_;
		fn = FnState();
		if(small)
			sml.reset(new SmallStore());
		else {
			dbg.reset(new DbgStore());
			dbg->slot = id;
		}
		model.clear();
		for(size_t i = 0; i < vars().size(); i++)
			model.push_back(vars()[i].fn() ? std::string() : real(i));
	}
};

// stored::list() has a static name buffer. Give it enough room once, and clear it at every run.
void resetNameBuffer(char const* prefix)
{
	uint8_t const dir[] = {0};
	char x = 0;
	stored::list(nullptr, &x, dir, [](void*, char const*, stored::Type::type, void*, size_t, void*) {}, nullptr, prefix);
}
struct NameBuffer {
	NameBuffer()
	{
		resetNameBuffer(std::string(4000, 'x').c_str());
		arenaKeep();
	}
} nameBuffer;

struct DbgUnderTest : public stored::Debugger {
	using stored::Debugger::Debugger;
};

struct Port : public stored::ProtocolLayer {
	std::string cur;
	std::vector<std::string> resp;
	bool purgeable = false;
	size_t encodes = 0;
	std::function<void()> hook;
	virtual void encode(void const* b, size_t n, bool last = true) override
	{
		encodes++;
		if(n)
			cur.append((char const*)b, n);
		if(last) {
			resp.push_back(cur);
			cur.clear();
		}
		if(hook) {
			auto h = hook;
			hook = nullptr;
			h();
		}
	}
	using stored::ProtocolLayer::encode;
	virtual void setPurgeableResponse(bool p = true) override { purgeable = p; }
};

struct Part {
	bool stream;
	char name;
	std::string lit;
};

typedef std::vector<Part> Parts;
void add(Parts& p, std::string const& s)
{
	if(p.empty() || p.back().stream)
		p.push_back({false, 0, s});
	else
		p.back().lit += s;
}

bool const compressed = stored::Config::CompressStreams;
size_t const streamMax = stored::Config::DebuggerStreamBuffer;
size_t const streamOverflow = stored::Config::DebuggerStreamBufferOverflow;
size_t const streamCount = stored::Config::DebuggerStreams;

struct StreamModel {
	std::string data;	 // accepted, and (compressed) not finished
	size_t decoded = 0;	 // of data, received by the client
	bool flushed = false;	 // end of compressed stream is next
	bool blocked = false;
	bool used = false;
	heatshrink_decoder* dec = nullptr;
	~StreamModel()
	{
		if(dec)
			heatshrink_decoder_free(dec);
	}
	std::string out; // everything decoded of this segment
	void sink(std::string const& c, bool fin)
	{
		if(!dec)
			dec = heatshrink_decoder_alloc(256, 8, 4);
		size_t at = 0;
		auto poll = [&]() {
			for(;;) {
				uint8_t b[256];
				size_t n = 0;
				HSD_poll_res r = heatshrink_decoder_poll(dec, b, sizeof(b), &n);
				out.append((char*)b, n);
				if(r != HSDR_POLL_MORE)
					break;
			}
		};
		while(at < c.size()) {
			size_t n = 0;
			heatshrink_decoder_sink(dec, (uint8_t*)&c[at], c.size() - at, &n);
			at += n;
			poll();
		}
		if(fin)
			while(heatshrink_decoder_finish(dec) == HSDR_FINISH_MORE)
				poll();
	}
	bool pending() const { return !data.empty(); }
};

char const* const mapNames[] = {"/SimDbg", "/aa", "/ab", "/b", "/b2", "/caa", "/cb", "/SimSmall", "/scope", "/a"};
char const* const badMapNames[] = {"noslash", "/two/parts", "", "/x/"};
char const* const ids[] = {"", "sim target", "x"};
char const* const vers[] = {"", "r1", "r243+trunk beta"};
char const aliasChars[] = "abc12XYZ~ ";
char const macroChars[] = "MNOPZ019";
char const streamChars[] = "ABCDr ";
char const seps[] = "\n\t|;";

struct DbgWorld : public World {
	int prop;
	std::vector<FnCall> calls, expCalls;
	std::vector<Slot> slots;
	std::unique_ptr<DbgUnderTest> d;
	Port port;

	// Model
	std::map<std::string, int> mapped;
	std::map<char, std::pair<int, int>> aliases;
	std::map<char, std::string> macros;
	std::set<char> running;
	int id = 0, ver = 0;
	std::map<char, StreamModel> streams;
	bool traceOn = false;
	char traceMacro = 0, traceStream = 0;
	u64 decimate = 0;
	bool synced = false;
	u64 since = 0; // calls since last execution (synced), or since configured
	u64 sinceFull = 0;
	u64 streamSeq = 0;
	// Memory
	std::string memModel;
	char* mem = nullptr;
	size_t memSize = 0;

	DbgWorld(Ctx& c, Config const& cfg_, int p)
		: World(c, cfg_), prop(p)
	{
		fnLog = &calls;
		resetNameBuffer("");
		slots.resize((size_t)std::max<i64>(1, std::min<i64>(4, cfg.get("slots", 1))));
		for(size_t i = 0; i < slots.size(); i++) {
			slots[i].small = cfg.get("small") >> i & 1;
			slots[i].create((int)i);
		}
		d.reset(new DbgUnderTest());
		port.wrap(*d);
		map(0, 0);
		if(prop == 14) {
			memSize = (size_t)cfg.get("memsize", 512);
			mem = (char*)arenaAlloc(memSize);
			memModel = content(cfg.get("mem"), memSize, 0);
			memcpy(mem, memModel.data(), memSize);
		}
	}

	~DbgWorld()
	{
		fnLog = nullptr;
		d.reset();
		if(mem)
			arenaFree(mem, memSize);
	}

	void map(size_t s, size_t n)
	{
		if(slots[s].small)
			d->map(*slots[s].sml, mapNames[n]);
		else
			d->map(*slots[s].dbg, mapNames[n]);
		auto it = mapped.find(mapNames[n]);
		if(it != mapped.end())
			dropAliases(it->second);
		mapped[mapNames[n]] = (int)s;
	}

	void dropAliases(int s)
	{
		for(auto it = aliases.begin(); it != aliases.end();)
			if(it->second.first == s)
				it = aliases.erase(it);
			else
				++it;
	}

	// --- Names
	enum { None = -1, Lenient = -2 };
	static int lookup(std::vector<VarInfo> const& vars, std::string const& path)
	{
		if(path.empty() || path[0] != '/')
			return Lenient;
		std::vector<std::string> comp;
		size_t at = 1;
		for(;;) {
			size_t n = path.find('/', at);
			comp.push_back(path.substr(at, n == std::string::npos ? n : n - at));
			if(n == std::string::npos)
				break;
			at = n + 1;
		}
		std::string scope = "/";
		for(size_t l = 0; l < comp.size(); l++) {
			std::set<std::string> cand; // with trailing / for scopes
			for(auto const& v : vars) {
				std::string n = v.name;
				if(n.compare(0, scope.size(), scope) != 0)
					continue;
				size_t e = n.find('/', scope.size());
				cand.insert(n.substr(scope.size(), e == std::string::npos ? e : e + 1 - scope.size()));
			}
			if(comp[l].empty())
				return Lenient;
			bool lastc = l + 1 == comp.size();
			std::string m;
			if(cand.count(comp[l]))
				m = comp[l];
			else if(cand.count(comp[l] + "/"))
				m = comp[l] + "/";
			else {
				int k = 0;
				for(auto const& c : cand)
					if(c.compare(0, comp[l].size(), comp[l]) == 0) {
						k++;
						m = c;
					}
				if(k == 0)
					return Lenient;
				if(k > 1)
					return None;
			}
			bool isScope = m.back() == '/';
			if(isScope == lastc)
				return Lenient;
			scope += m;
		}
		for(size_t i = 0; i < vars.size(); i++)
			if(scope == vars[i].name)
				return (int)i;
		return Lenient;
	}

	int find(std::string const& name, int& slot)
	{
		slot = -1;
		if(name.empty())
			return None;
		if(name.size() == 1 && name[0] != '/') {
			auto it = aliases.find(name[0]);
			if(it != aliases.end()) {
				slot = it->second.first;
				return it->second.second;
			}
			return None;
		}
		if(mapped.empty())
			return None;
		if(name[0] != '/')
			return Lenient;
		if(mapped.size() == 1) {
			slot = mapped.begin()->second;
			int v = lookup(slots[(size_t)slot].vars(), name);
			if(v == None && std::count(name.begin(), name.end(), '/') > 1)
				return Lenient;
			return v;
		}
		size_t e = name.find('/', 1);
		if(e == std::string::npos)
			return None;
		std::string prefix = name.substr(0, e);
		auto it = mapped.find(prefix);
		if(it == mapped.end()) {
			int k = 0;
			for(auto i = mapped.begin(); i != mapped.end(); ++i)
				if(i->first.compare(0, prefix.size(), prefix) == 0) {
					k++;
					it = i;
				}
			if(k != 1)
				return None;
		}
		slot = it->second;
		return lookup(slots[(size_t)slot].vars(), name.substr(e));
	}

	// --- Values
	static std::string hexOf(VarInfo const& v, std::string const& b)
	{
		static char const* h = "0123456789abcdef";
		std::string s;
		if(v.isBool() && !v.fn())
			return b[0] ? "1" : "0";
		for(size_t i = 0; i < b.size(); i++) {
			unsigned char c = (unsigned char)b[v.fixed() ? b.size() - 1 - i : i];
			s += h[c >> 4];
			s += h[c & 15];
		}
		if(v.isInt())
			while(s.size() > 1 && s[0] == '0')
				s.erase(0, 1);
		return s;
	}

	static bool unhex(VarInfo const& v, std::string t, std::string& b)
	{
		if(t.empty())
			return false;
		for(char c : t)
			if(!isxdigit((unsigned char)c))
				return false;
		if(v.fixed()) {
			if(t.size() > v.size * 2)
				return false;
			t = std::string(v.size * 2 - t.size(), '0') + t;
		} else if(t.size() & 1)
			return false;
		b.clear();
		for(size_t i = 0; i < t.size(); i += 2)
			b += (char)strtoul(t.substr(i, 2).c_str(), nullptr, 16);
		if(v.fixed())
			std::reverse(b.begin(), b.end());
		if(v.isBool())
			b[0] = b[0] ? 1 : 0;
		return true;
	}

	void write(Slot& s, int i, std::string b)
	{
		VarInfo const& v = s.vars()[(size_t)i];
		if(b.size() > v.size)
			b.resize(v.size);
		if(v.fn()) {
			s.fn.set(i, b);
			expCalls.push_back({s.id, i, true, b});
			return;
		}
		std::string& m = s.model[(size_t)i];
		if(v.isString()) {
			b = b.substr(0, b.find('\0'));
			m = b;
		} else
			m.replace(0, b.size(), b);
	}

	// --- Undo
	struct Saved {
		std::vector<std::vector<std::string>> model;
		std::vector<FnState> fn;
		std::map<char, std::pair<int, int>> aliases;
		std::map<char, std::string> macros;
		struct Str {
			std::string data;
			bool flushed, blocked, used;
		};
		std::map<char, Str> streams;
	};

	void save(Saved& x)
	{
		for(auto const& s : slots) {
			x.model.push_back(s.model);
			x.fn.push_back(s.fn);
		}
		x.aliases = aliases;
		x.macros = macros;
		for(auto const& s : streams)
			x.streams[s.first] = {s.second.data, s.second.flushed, s.second.blocked, s.second.used};
	}

	void restore(Saved const& x)
	{
		for(size_t i = 0; i < slots.size(); i++) {
			slots[i].model = x.model[i];
			slots[i].fn = x.fn[i];
		}
		aliases = x.aliases;
		macros = x.macros;
		for(auto const& s : x.streams) {
			StreamModel& m = streams[s.first];
			m.data = s.second.data;
			m.flushed = s.second.flushed;
			m.blocked = s.second.blocked;
			m.used = s.second.used;
		}
		running.clear();
		expCalls.clear();
	}

	// --- Execution of a request by the model. false: no definite answer
	bool run(std::string const& r, Parts& out, int depth = 0)
	{
		if(r.empty())
			return true;
		char const* const ack = "!";
		char const* const nack = "?";
		std::string rest = r.substr(1);
		switch(r[0]) {
		case '?': {
			add(out, "?rwelamvRWst");
			return false;
		}
		case 'r': {
			int s = 0;
			int i = find(rest, s);
			if(i == Lenient)
				return false;
			if(i == None) {
				add(out, nack);
				return true;
			}
			Slot& sl = slots[(size_t)s];
			VarInfo const& v = sl.vars()[(size_t)i];
			std::string b;
			if(v.fn()) {
				b = sl.fn.get(i, v.size);
				expCalls.push_back({s, i, false, b});
			} else
				b = sl.model[(size_t)i];
			add(out, hexOf(v, b));
			return true;
		}
		case 'w': {
			size_t at = rest.find('/');
			if(rest.empty()) {
				add(out, nack);
				return true;
			}
			if(at == std::string::npos)
				at = rest.size() - 1;
			int s = 0;
			int i = find(rest.substr(at), s);
			if(i == Lenient)
				return false;
			std::string b;
			if(i == None || !unhex(slots[(size_t)s].vars()[(size_t)i], rest.substr(0, at), b)) {
				add(out, nack);
				return true;
			}
			write(slots[(size_t)s], i, b);
			add(out, ack);
			return true;
		}
		case 'e':
			add(out, rest);
			return true;
		case 'a': {
			if(rest.empty() || rest[0] < 0x20 || rest[0] > 0x7e || rest[0] == '/') {
				add(out, nack);
				return true;
			}
			char a = rest[0];
			if(rest.size() == 1) {
				aliases.erase(a);
				add(out, ack);
				return true;
			}
			int s = 0;
			int i = find(rest.substr(1), s);
			if(i == Lenient)
				return false;
			if(i == None || (!aliases.count(a) && aliases.size() >= (size_t)stored::Config::DebuggerAlias)) {
				add(out, nack);
				return true;
			}
			aliases[a] = {s, i};
			add(out, ack);
			return true;
		}
		case 'm': {
			if(rest.empty()) {
				add(out, nack);
				return true;
			}
			char m = rest[0];
			if(running.count(m)) {
				add(out, nack);
				return true;
			}
			size_t total = 0;
			for(auto const& x : macros)
				if(x.first != m)
					total += x.second.size();
			if(rest.size() == 1)
				macros.erase(m);
			else if(total + rest.size() - 1 > (size_t)stored::Config::DebuggerMacro) {
				add(out, nack);
				return true;
			} else
				macros[m] = rest.substr(1);
			add(out, ack);
			return true;
		}
		case 'i':
			add(out, ids[id][0] ? ids[id] : nack);
			return true;
		case 'v':
			add(out, "2");
			if(vers[ver][0])
				add(out, std::string(" ") + vers[ver]);
			if(stored::Config::Debug)
				add(out, " debug");
			return true;
		case 's': {
			if(rest.empty())
				return false;
			auto it = streams.find(rest[0]);
			if(it == streams.end() || !it->second.used) {
				add(out, nack);
				return true;
			}
			StreamModel& st = it->second;
			if(!st.pending()) {
				// May have been removed.
				if(distinct() > streamCount || !compressed)
					return false;
			}
			if(compressed) {
				out.push_back({true, rest[0], ""});
			} else {
				add(out, st.data);
				st.data.clear();
			}
			add(out, rest.substr(1));
			return true;
		}
		case 'f': {
			if(!compressed || rest.size() > 1) {
				add(out, nack);
				return true;
			}
			for(auto& s : streams)
				if((rest.empty() || rest[0] == s.first) && s.second.pending()) {
					s.second.flushed = true;
					s.second.blocked = true;
				}
			add(out, ack);
			return true;
		}
		case 'R':
		case 'W':
		case 'l':
		case 't':
			return false;
		default: {
			auto it = macros.find(r[0]);
			if(it == macros.end() || running.count(r[0])) {
				add(out, nack);
				return true;
			}
			std::string def = it->second;
			running.insert(r[0]);
			char sep = def[0];
			size_t at = 1;
			bool ok = true;
			while(ok && depth < 20) {
				size_t n = def.find(sep, at);
				ok = run(def.substr(at, n == std::string::npos ? n : n - at), out, depth + 1);
				if(n == std::string::npos)
					break;
				at = n + 1;
			}
			running.erase(r[0]);
			if(out.empty())
				add(out, "");
			return ok;
		}
		}
	}

	size_t distinct()
	{
		size_t n = 0;
		for(auto& s : streams)
			n += s.second.used;
		return n;
	}

	// --- Checks
	void checkStores(char const* what, int exceptSlot = -1, int exceptVar = -1)
	{
		for(auto& s : slots)
			for(size_t i = 0; i < s.vars().size(); i++) {
				if(s.vars()[i].fn() || (s.id == exceptSlot && (int)i == exceptVar))
					continue;
				std::string r = s.real(i);
				if(r != s.model[i]) {
					ctx.fail("store", "after %s, %s of store %d is %s instead of %s", what, s.vars()[i].name, s.id,
						 hex(r.data(), r.size()).c_str(), hex(s.model[i].data(), s.model[i].size()).c_str());
					return;
				}
			}
		if(mem && memcmp(mem, memModel.data(), memModel.size()) != 0) {
			size_t i = 0;
			while(mem[i] == memModel[i])
				i++;
			ctx.fail("memory", "after %s, the byte at offset %zu is %02x instead of %02x", what, i, (unsigned char)mem[i],
				 (unsigned char)memModel[i]);
		}
	}

	void checkCalls(char const* what)
	{
		if(calls != expCalls)
			ctx.fail("function", "%s gives %zu function calls (first: %d %s) instead of %zu", what, calls.size(),
				 calls.empty() ? -1 : calls[0].var, calls.empty() ? "" : calls[0].set ? "set" : "get", expCalls.size());
		calls.clear();
		expCalls.clear();
	}

	static std::string show(std::string const& s)
	{
		std::string o;
		for(char c : s.substr(0, 60))
			if(c >= 0x20 && c < 0x7f)
				o += c;
			else {
				char b[8];
				snprintf(b, sizeof(b), "\\x%02x", (unsigned char)c);
				o += b;
			}
		return s.size() > 60 ? o + "..." : o;
	}

	std::string process(std::string const& r)
	{
		calls.clear();
		port.resp.clear();
		port.cur.clear();
		port.purgeable = false;
		// Exact-size copy, such that overruns are detected.
		std::unique_ptr<char[]> b(new char[r.size()]);
		memcpy(b.get(), r.data(), r.size());
		d->decode(b.get(), r.size());
		ctx.logBytes("req", 0, r.data(), r.size());
		if(port.resp.size() != 1 || !port.cur.empty()) {
			ctx.fail("responses", "request '%s' gets %zu complete responses and %zu bytes of another one", show(r).c_str(),
				 port.resp.size(), port.cur.size());
			return "";
		}
		ctx.logBytes("rsp", 0, port.resp[0].data(), port.resp[0].size());
		return port.resp[0];
	}

	// Response to a compressed stream read.
	void chunk(char name, std::string const& c)
	{
		StreamModel& s = streams[name];
		s.sink(c, s.flushed);
		if(s.out.size() > s.data.size() || s.data.compare(0, s.out.size(), s.out) != 0) {
			ctx.fail("stream", "what is received from stream %c differs from what was written", name);
			return;
		}
		if(s.flushed) {
			if(s.out != s.data) {
				ctx.fail("stream-lost", "flushed stream %c gave %zu of %zu bytes", name, s.out.size(), s.data.size());
				return;
			}
			ctx.probe("flushed-stream");
			s.data.clear();
			s.out.clear();
			s.flushed = s.blocked = false;
			heatshrink_decoder_reset(s.dec);
		}
	}

	void request(std::string const& r)
	{
		Parts exp;
		expCalls.clear();
		if(ctx.verbose)
			ctx.log("  request %s", show(r).c_str());
		switch(r[0]) {
		case '?':
			return capabilities();
		case 'l':
			return list();
		case 't':
			return trace(r);
		case 'R':
		case 'W':
			return memory(r);
		case 's':
			if(r.size() == 1)
				return streamList();
			{
				auto it = streams.find(r[1]);
				if(it != streams.end() && it->second.used && !it->second.pending())
					return emptyStream(r);
			}
			break;
		default:;
		}

		// Names that are no proper name may give an error, or another object.
		if(r[0] == 'r' || r[0] == 'w' || r[0] == 'a') {
			int s = 0;
			std::string n = r.substr(1);
			if(r[0] == 'a')
				n = n.empty() ? n : n.substr(1);
			if(r[0] == 'w') {
				size_t at = n.find('/');
				n = at == std::string::npos ? n.substr(n.empty() ? 0 : n.size() - 1) : n.substr(at);
			}
			if(find(n, s) == Lenient)
				return lenient(r);
		}

		Saved saved;
		if(macros.count(r[0]))
			save(saved);
		bool ok = run(r, exp);
		if(!ok && macros.count(r[0])) {
			// The macro has names (by now) that may be accepted or not.
			ctx.probe("lenient-macro");
			restore(saved);
			return;
		}
		std::string p = process(r);
		if(ctx.failed)
			return;
		if(!ok)
			ctx.fail("harness", "no definite answer to '%s'", show(r).c_str());
		compare(r, exp, p);
		if(!ctx.failed)
			checkCalls("a request");
	}

	void compare(std::string const& r, Parts const& exp, std::string p)
	{
		std::string orig = p;
		size_t n = 0;
		char name = 0;
		std::string pre, post;
		for(auto const& x : exp)
			if(x.stream) {
				n++;
				name = x.name;
			} else
				(n ? post : pre) += x.lit;
		if(n == 0) {
			if(p != pre)
				ctx.fail("response", "request '%s' gives '%s' instead of '%s'", show(r).c_str(), show(p).c_str(), show(pre).c_str());
			return;
		}
		if(n > 1) {
			ctx.fail("harness", "too many streams");
			return;
		}
		if(p.size() < pre.size() + post.size() || p.compare(0, pre.size(), pre) != 0
		   || p.compare(p.size() - post.size(), post.size(), post) != 0) {
			ctx.fail("response", "request '%s' gives '%s' instead of '%s' <stream> '%s'", show(r).c_str(), show(p).c_str(),
				 show(pre).c_str(), show(post).c_str());
			return;
		}
		chunk(name, p.substr(pre.size(), p.size() - pre.size() - post.size()));
	}

	void emptyStream(std::string const& r)
	{
		std::string p = process(r);
		if(ctx.failed)
			return;
		bool evicted = distinct() > streamCount;
		std::string suffix = r.substr(2);
		if(p != suffix && !(evicted && p == "?"))
			ctx.fail("response", "request '%s' of empty stream gives '%s'", show(r).c_str(), show(p).c_str());
		streams[r[1]].blocked = false;
		checkCalls("a request");
	}

	void lenient(std::string const& r)
	{
		ctx.probe("lenient-name");
		std::string p = process(r);
		if(ctx.failed)
			return;
		if(p == "?") {
			checkCalls("a refused request");
			return;
		}
		if(r[0] == 'w') {
			if(p != "!") {
				ctx.fail("response", "write '%s' gives '%s'", show(r).c_str(), show(p).c_str());
				return;
			}
			size_t at = r.find('/');
			std::string val = r.substr(1, at == std::string::npos ? r.size() - 2 : at - 1);
			// At most one object changed, to that value.
			size_t n = calls.size();
			for(auto& c : calls)
				if(c.set)
					slots[(size_t)c.slot].fn.set(c.var, c.value);
				else
					n = 99;
			for(auto& s : slots)
				for(size_t i = 0; i < s.vars().size(); i++) {
					if(s.vars()[i].fn())
						continue;
					std::string now = s.real(i);
					if(now == s.model[i])
						continue;
					n++;
					std::string b;
					if(!unhex(s.vars()[i], val, b)) {
						n = 99;
						break;
					}
					size_t c = expCalls.size();
					write(s, (int)i, b);
					expCalls.resize(c);
				}
			if(n > 1)
				ctx.fail("write", "write '%s' changed something unexpected", show(r).c_str());
		} else if(r[0] == 'a') {
			// It is unclear what the alias refers to, so remove it again.
			std::string q = p == "!" ? process("a" + r.substr(1, 1)) : "";
			if(ctx.failed)
				return;
			if(q != "!")
				ctx.fail("response", "'%s' gives '%s'", show(r).c_str(), show(p).c_str());
			aliases.erase(r[1]);
		} else if(r[0] == 'r') {
			bool any = false;
			for(auto& c : calls) {
				if(c.set) {
					ctx.fail("write", "read '%s' sets a function", show(r).c_str());
					return;
				}
				std::string v = slots[(size_t)c.slot].fn.get(c.var, dbgVars[(size_t)c.var].size);
				any = any || p == hexOf(dbgVars[(size_t)c.var], v);
			}
			for(auto& s : slots)
				for(size_t i = 0; i < s.vars().size() && !any; i++)
					if(!s.vars()[i].fn())
						any = p == hexOf(s.vars()[i], s.model[i]);
			if(!any)
				ctx.fail("response", "read '%s' gives '%s', which is no value", show(r).c_str(), show(p).c_str());
		}
		calls.clear();
		expCalls.clear();
	}

	void capabilities()
	{
		std::string p = process("?");
		std::string exp = "?rwelamvst";
		if(stored::Config::DebuggerReadMem)
			exp += "R";
		if(stored::Config::DebuggerWriteMem)
			exp += "W";
		if(ids[id][0])
			exp += "i";
		if(compressed)
			exp += "f";
		std::sort(exp.begin(), exp.end());
		std::sort(p.begin(), p.end());
		if(p != exp)
			ctx.fail("response", "capabilities are %s instead of %s", p.c_str(), exp.c_str());
		checkCalls("capabilities");
	}

	void list()
	{
		std::string p = process("l");
		std::multiset<std::string> exp, got;
		for(auto const& m : mapped)
			for(auto const& v : slots[(size_t)m.second].vars()) {
				char b[200];
				snprintf(b, sizeof(b), "%02x%zx%s%s", v.type, v.size, mapped.size() > 1 ? m.first.c_str() : "", v.name);
				exp.insert(b);
			}
		if(ctx.failed)
			return;
		if(mapped.empty()) {
			if(p != "?")
				ctx.fail("list", "list without stores gives '%s'", show(p).c_str());
			return;
		}
		size_t at = 0;
		while(at < p.size()) {
			size_t n = p.find('\n', at);
			if(n == std::string::npos) {
				ctx.fail("list", "last line of list is not terminated");
				return;
			}
			got.insert(p.substr(at, n - at));
			at = n + 1;
		}
		if(got != exp) {
			for(auto const& g : got)
				if(!exp.count(g)) {
					ctx.fail("list", "list has unexpected '%s'", show(g).c_str());
					return;
				}
			ctx.fail("list", "list has %zu of %zu lines", got.size(), exp.size());
		}
		checkCalls("list");
	}

	void streamList()
	{
		std::string p = process("s");
		if(ctx.failed)
			return;
		std::string exp;
		for(auto& s : streams)
			if(s.second.pending())
				exp += s.first;
		if(exp.size() > streamCount)
			ctx.fail("stream-count", "more streams than configured");
		if(exp.empty())
			exp = "?";
		std::sort(exp.begin(), exp.end());
		std::sort(p.begin(), p.end());
		if(p != exp)
			ctx.fail("streams", "streams with data are '%s' instead of '%s'", show(p).c_str(), show(exp).c_str());
	}

	// --- Streams
	size_t fill(char c)
	{
		auto const* s = static_cast<stored::Debugger const&>(*d).stream(c);
		return s ? s->buffer().size() : 0;
	}

	size_t pendingOthers(char c)
	{
		size_t n = 0;
		for(auto& s : streams)
			n += s.first != c && s.second.pending();
		return n;
	}

	void append(char c, std::string const& data)
	{
		StreamModel& s = streams[c];
		s.data += data;
	}

	void appWrite(char c, size_t len, int style)
	{
		std::string data = content(mix(0xabc, streamSeq++), len, style);
		size_t before = fill(c);
		bool room = streams[c].pending() || pendingOthers(c) < streamCount;
		size_t n = 0;
		std::string copy = data;
		n = d->stream(c, copy.data(), copy.size());
		ctx.log("stream %c %zu -> %zu", c, len, n);
		if(n > len || (n && !room && !streams[c].used)) {
			ctx.fail("stream-accept", "write of %zu to stream %c returns %zu", len, c, n);
			return;
		}
		if(room)
			streams[c].used = true;
		bool blocked = compressed && streams[c].blocked;
		if(blocked && n) {
			ctx.fail("stream-accept", "write of %zu to stream %c, which drops everything till it is read, returns %zu", len, c, n);
			return;
		}
		if(blocked)
			ctx.probe("refused-while-blocked");
		size_t limit = blocked || before >= streamMax ? 0 : streamMax - before;
		if(n < len && n < limit && room) {
			ctx.fail("stream-refused", "write of %zu to stream %c with %zu in its buffer returns %zu", len, c, before, n);
			return;
		}
		if(n < len)
			ctx.probe("stream-full");
		if(n) {
			streams[c].used = true;
			append(c, data.substr(0, n));
		}
		size_t after = fill(c);
		// The compressor may put out all it has at once.
		if(after > streamMax + streamOverflow + (compressed ? 2 * 256 * 9 / 8 : 0) && after > before)
			ctx.fail("stream-memory", "stream %c grows to %zu bytes", c, after);
	}

	// --- Trace
	void trace(std::string const& r)
	{
		bool wasOn = traceOn;
		char s = r.size() > 2 ? r[2] : 0;
		bool own = s && streams[s].pending();
		bool full = s && !own && pendingOthers(s) >= streamCount;
		bool okArgs = r.size() == 1 || (r.size() >= 3);
		u64 dec = 1;
		if(r.size() > 3) {
			dec = 0;
			for(size_t i = 3; i < r.size(); i++) {
				if(!isxdigit((unsigned char)r[i]))
					okArgs = false;
				dec = dec * 16 + (u64)strtoul(r.substr(i, 1).c_str(), nullptr, 16);
			}
		}
		std::string p = process(r);
		if(ctx.failed)
			return;
		checkCalls("trace setup");
		if(p != "!" && p != "?") {
			ctx.fail("response", "'%s' gives '%s'", show(r).c_str(), show(p).c_str());
			return;
		}
		if(p == "!" ? !okArgs || (full && !streams[s].used) : okArgs && !full) {
			ctx.fail("response", "'%s' gives '%s'", show(r).c_str(), show(p).c_str());
			return;
		}
		if(s && !full)
			streams[s].used = true;
		if(p == "?") {
			// Either kept or disabled.
			traceOn = d->tracing();
			if(traceOn && !wasOn)
				ctx.fail("trace", "tracing is enabled by a refused request");
			synced = false;
			since = 0;
			return;
		}
		if(r.size() == 1 || dec == 0) {
			traceOn = false;
		} else {
			traceOn = true;
			traceMacro = r[1];
			traceStream = r[2];
			streams[traceStream].used = true;
			decimate = dec;
			synced = false;
			since = 0;
		}
		if(d->tracing() != traceOn)
			ctx.fail("trace", "tracing is %s after '%s'", d->tracing() ? "on" : "off", show(r).c_str());
	}

	void traceCall()
	{
		calls.clear();
		expCalls.clear();
		size_t before = traceOn ? fill(traceStream) : 0;
		bool room = traceOn && (streams[traceStream].pending() || pendingOthers(traceStream) < streamCount);
		bool full = before + std::max<size_t>(1, streamOverflow) > streamMax;
		bool defined = traceOn && macros.count(traceMacro) && macros[traceMacro].size() > 1;
		size_t resp = port.encodes;
		d->trace();
		if(port.encodes != resp) {
			ctx.fail("trace-response", "trace() sends something to the client");
			return;
		}
		bool executed = !calls.empty();
		if(!traceOn || !defined) {
			if(executed || (traceOn && fill(traceStream) != before))
				ctx.fail("trace", "trace() while %s", traceOn ? "the macro does not exist" : "disabled");
			synced = false;
			since = 0;
			return;
		}
		since++;
		ctx.log("trace %d", executed);
		if(executed) {
			if(synced && since != decimate) {
				ctx.fail("trace-rate", "trace() samples after %llu calls instead of %llu", (unsigned long long)since,
					 (unsigned long long)decimate);
				return;
			}
			if(before >= streamMax + streamOverflow) {
				ctx.fail("trace-full", "trace() samples into a full stream");
				return;
			}
			synced = true;
			since = 0;
			Parts out;
			if(!run(std::string(1, traceMacro), out)) {
				ctx.fail("harness", "trace macro");
				return;
			}
			streams[traceStream].used = true;
			std::string sample;
			for(auto const& x : out)
				sample += x.lit;
			if(compressed && streams[traceStream].blocked)
				// Everything is dropped till it is read.
				ctx.probe("dropped-while-blocked");
			else
				append(traceStream, sample);
			checkCalls("trace()");
			ctx.probe("trace-sample");
			return;
		}
		if(since >= decimate) {
			// Due.
			if(synced ? since == decimate && room && !full : since >= decimate + sinceFull && room && !full && since > 2 * decimate) {
				ctx.fail("trace-missing", "trace() does not sample, %zu bytes in stream", before);
				return;
			}
			if(!room || full)
				ctx.probe("trace-dropped");
			if(synced)
				since = 0;
			else
				// The first sample may be due anywhere within decimate calls.
				since = !room || full ? 0 : since;
		} else if(!synced && (!room || full))
			since = 0;
	}

	// --- Memory
	static std::string hexBytes(std::string const& b)
	{
		VarInfo const blob = {"", 1, 0};
		return hexOf(blob, b);
	}

	void memory(std::string const& r)
	{
		std::string rest = r.substr(1);
		size_t sp = rest.find(' ');
		std::string a = rest.substr(0, sp);
		bool hasArg = sp != std::string::npos;
		std::string arg = hasArg ? rest.substr(sp + 1) : "";
		auto isHex = [](std::string const& s) {
			for(char c : s)
				if(!isxdigit((unsigned char)c))
					return false;
			return !s.empty();
		};
		bool addrOk = isHex(a) && a.size() <= 16;
		uintptr_t addr = addrOk ? (uintptr_t)strtoull(a.c_str(), nullptr, 16) : 0;
		size_t off = (size_t)(addr - (uintptr_t)mem);
		std::string exp = "?";
		std::string alt = "?";
		if(r[0] == 'R') {
			u64 len = sizeof(void*);
			bool ok = addrOk;
			if(hasArg && !arg.empty()) {
				ok = ok && isHex(arg) && arg.size() <= 8;
				len = ok ? strtoull(arg.c_str(), nullptr, 16) : 0;
				ok = ok && len;
			}
			if(ok) {
				exp.clear();
				if(off > memModel.size() || off + len > memModel.size())
					return; // not ours
				exp = hexBytes(memModel.substr(off, (size_t)len));
				alt = hasArg && arg.empty() ? "?" : exp;
			}
		} else {
			bool ok = addrOk && isHex(arg) && arg.size() % 2 == 0;
			if(ok) {
				if(off > memModel.size() || off + arg.size() / 2 > memModel.size())
					return;
				for(size_t i = 0; i < arg.size(); i += 2)
					memModel[off + i / 2] = (char)strtoul(arg.substr(i, 2).c_str(), nullptr, 16);
				exp = alt = "!";
			} else if(addrOk && (off > memModel.size() || off + arg.size() / 2 > memModel.size()))
				return;
		}
		std::string p = process(r);
		if(!ctx.failed && p != exp && p != alt)
			ctx.fail("response", "request '%s' gives '%s' instead of '%s'", show(r).c_str(), show(p).c_str(), show(exp).c_str());
		checkCalls("a memory request");
	}

	// --- Generation of requests
	static std::string pick(char const* s, Rng& g) { return std::string(1, s[g.below(strlen(s))]); }

	std::string varName(Rng& g, int slot, int var, int style)
	{
		// style 0: full, 1: abbreviated, 2: cut at random
		std::string n = slots[(size_t)slot].vars()[(size_t)var].name;
		if(style == 1) {
			// Drop characters from random components, as long as it is unambiguous.
			for(int k = 0; k < 6; k++) {
				size_t e = n.size();
				if(g.chance(500)) {
					std::vector<size_t> s;
					for(size_t i = 1; i < n.size(); i++)
						if(n[i] == '/')
							s.push_back(i);
					if(!s.empty())
						e = g.pick(s);
				}
				std::string m = n;
				if(e < 2)
					continue;
				m.erase(e - 1, 1);
				if(lookup(slots[(size_t)slot].vars(), m) == var)
					n = m;
			}
		} else if(style == 2)
			n.resize(g.below(n.size() + 1));
		return n;
	}

	std::string target(Rng& g, bool strict = false)
	{
		if(!aliases.empty() && g.chance(300))
			return std::string(1, std::next(aliases.begin(), (long)g.below(aliases.size()))->first);
		if(!strict && g.chance(40))
			return pick(aliasChars, g);
		if(mapped.empty())
			return strict ? "/x" : "/i32";
		auto it = std::next(mapped.begin(), (long)g.below(mapped.size()));
		int slot = it->second;
		int var = (int)g.below(slots[(size_t)slot].vars().size());
		std::string n = varName(g, slot, var, strict ? (int)g.below(2) : (int)g.weighted({5, 4, 1}));
		if(mapped.size() > 1) {
			std::string p = it->first;
			if(g.chance(400)) {
				int k = 0;
				size_t cut = (size_t)g.range(1, (i64)p.size());
				std::string q = p.substr(0, cut);
				for(auto const& m : mapped)
					k += m.first.compare(0, cut, q) == 0;
				if(!strict || k == 1)
					p = q;
			}
			n = p + n;
		} else if(!strict && g.chance(60))
			n = it->first + n;
		if(!strict && g.chance(30) && n.size() > 1)
			n[1 + g.below(n.size() - 1)] = (char)g.range(0x20, 0x7e);
		return n;
	}

	std::string value(Rng& g, std::string const& t)
	{
		int s = 0;
		int i = find(t, s);
		static char const* h = "0123456789abcdefABCDEF";
		std::string v;
		size_t n = 0;
		if(i < 0)
			n = (size_t)g.below(6);
		else {
			VarInfo const& x = slots[(size_t)s].vars()[(size_t)i];
			n = x.fixed() ? (size_t)g.range(1, (i64)x.size * 2) : (size_t)g.range(1, (i64)x.size) * 2;
			if(g.chance(60))
				n = (size_t)g.below(x.size * 2 + 4);
		}
		for(size_t k = 0; k < n; k++)
			v += g.chance(400) ? '0' : h[g.below(22)];
		if(g.chance(200))
			v = std::string(n, '0');
		if(g.chance(40) && n)
			v[g.below(n)] = "gG :x"[g.below(5)];
		return v;
	}

	std::string traceMacroDef(Rng& g)
	{
		std::string def = "\n";
		std::string n = mapped.size() > 1 ? "" : "/now";
		for(auto const& m : mapped)
			if(n.empty() && !slots[(size_t)m.second].small)
				n = m.first + "/now";
		def += "r" + n;
		i64 k = g.range(0, 4);
		for(i64 i = 0; i < k; i++)
		{
			std::string e = content(g.next(), (size_t)g.range(1, 20), 1);
			for(auto& c : e)
				if(c == '\n')
					c = '.';
			def += g.chance(500) ? "\ne" + e : "\nr" + target(g, true);
		}
		return def;
	}

	std::string macroDef(Rng& g)
	{
		char sep = seps[g.below(4)];
		std::string def;
		i64 n = g.weighted({1, 6, 6, 4, 2}) ;
		bool haveStream = false;
		if(n == 0)
			return std::string(1, sep);
		for(i64 i = 0; i < n; i++) {
			std::string c;
			switch(g.weighted({6, 4, 4, 1, 1, 1, 3, 1, 1, 1})) {
			case 0: c = "r" + target(g, true); break;
			case 1: {
				std::string t = target(g, true);
				c = "w" + value(g, t) + t;
				break;
			}
			case 2: c = "e" + std::string((size_t)g.below(4), (char)('a' + g.below(5))); break;
			case 3: c = "i"; break;
			case 4: c = "a" + pick(aliasChars, g) + (g.chance(500) ? target(g, true) : ""); break;
			case 5: c = "m" + pick(macroChars, g) + (g.chance(500) ? "=e1" : ""); break;
			case 6: c = pick(macroChars, g); break;
			case 7: c = ""; break;
			case 8: c = "q"; break;
			case 9:
				if(haveStream)
					break;
				haveStream = true;
				c = prop == 15 ? "e." : "v";
				break;
			default:;
			}
			for(auto& x : c)
				if(x == sep)
					x = '.';
			def += sep;
			def += c;
		}
		return def;
	}

	std::string makeReq(int kind, u64 seed)
	{
		Rng g(seed);
		switch(kind) {
		case 0: return "r" + target(g);
		case 1: {
			std::string t = target(g);
			return "w" + value(g, t) + t;
		}
		case 2: return "e" + content(g.next(), (size_t)g.below(40), 0);
		case 3: return "l";
		case 4: return "a" + (g.chance(40) ? std::string(1, "/\x1f\x7f\xff"[g.below(4)]) : pick(aliasChars, g)) + target(g);
		case 5: return "a" + pick(aliasChars, g);
		case 6: return "m" + pick(macroChars, g) + (prop == 16 ? traceMacroDef(g) : macroDef(g));
		case 7: return "m" + (g.chance(50) ? "" : pick(macroChars, g));
		case 8: return pick(macroChars, g);
		case 9: return "?";
		case 10: return "i";
		case 11: return "v";
		case 12: {
			static char const* const b[] = {"r", "w", "w1", "a", "m", "w/", "r/", "q", "x/i32", "!", "r//", "w11//", "a/", "aa/"};
			return b[g.below(14)];
		}
		case 13: return "s";
		case 14: return "s" + pick(streamChars, g) + std::string((size_t)g.below(3), '/');
		case 15: return compressed || g.chance(50) ? "f" + (g.chance(300) ? "" : pick(streamChars, g)) + (g.chance(20) ? "x" : "") : "s";
		case 16: {
			std::string t = "t" + pick(macroChars, g) + pick(streamChars, g);
			if(g.chance(600)) {
				char b[16];
				snprintf(b, sizeof(b), g.chance(900) ? "%llx" : g.chance(500) ? "%08llX" : "%05llx",
					(unsigned long long)(g.chance(100) ? g.below(70) : g.below(6)));
				t += b;
			}
			if(g.chance(40) && t.size() < 10)
				t += "g";
			if(g.chance(20))
				t.resize(2);
			return t;
		}
		case 17: return "t";
		case 18:
		case 19: {
			if(!mem)
				return kind == 18 ? "R" : "W";
			size_t len = (size_t)g.weighted({1, 0, 0, 0}) + (size_t)(g.chance(300) ? g.range(1, 8) : g.chance(500) ? g.range(28, 70) : g.range(1, 150));
			if(memModel.size() > 512 && g.chance(300))
				len = (size_t)(g.chance(500) ? std::min<i64>((i64)memModel.size(), g.range(150, 2500)) : g.range(1, (i64)memModel.size()));
			size_t off = (size_t)g.below(memModel.size() - len + 1);
			char b[40];
			snprintf(b, sizeof(b), g.chance(500) ? "%llx" : "%016llX", (unsigned long long)(uintptr_t)(mem + off));
			std::string r = (kind == 18 ? "R" : "W") + std::string(b);
			if(kind == 18) {
				if(g.chance(850)) {
					snprintf(b, sizeof(b), " %zx", len);
					r += b;
				} else if(off + 8 > memModel.size())
					r = "R";
				if(g.chance(20))
					r += g.chance(500) ? "00000000000" : "g";
				if(g.chance(20))
					r = r.substr(0, r.find(' ')) + " 0";
			} else {
				std::string v = content(g.next(), len, 0);
				std::string h = hexBytes(v);
				if(g.chance(120)) {
					switch(g.below(3)) {
					case 0: h[g.below(h.size())] = "gG x"[g.below(4)]; break;
					case 1: h.pop_back(); break;
					default: h.clear(); break;
					}
				}
				r += (g.chance(20) ? "" : " ") + h;
			}
			if(g.chance(20))
				r.insert(1, g.chance(500) ? "z" : "000000000000000000");
			return r;
		}
		default: return "?";
		}
	}

	virtual Op gen(Rng& rng) override
	{
		switch(prop) {
		case 13:
			switch(rng.weighted({80, 12, 5, 4, 2, 1})) {
			case 0: return Op("q", {(i64)rng.weighted({14, 14, 2, 2, 7, 2, 8, 2, 10, 1, 1, 1, 2, 1, 2, 1}), (i64)(rng.next() >> 1)});
			case 1: return Op("aw", {(i64)rng.below(slots.size()), (i64)rng.below(40), (i64)(rng.next() >> 1)});
			case 2: return Op("map", {(i64)rng.below(slots.size()), (i64)rng.below(10)});
			case 3: return Op("unmap", {(i64)rng.below(10), (i64)rng.chance(400)});
			case 4: return Op("id", {(i64)rng.below(3), (i64)rng.below(3)});
			default: return Op("badmap", {(i64)rng.below(4)});
			}
		case 14: return rng.chance(900) ? Op("q", {(i64)(rng.chance(500) ? 18 : 19), (i64)(rng.next() >> 1)})
						: Op("q", {(i64)rng.below(4), (i64)(rng.next() >> 1)});
		case 15:
			switch(rng.weighted({50, 60})) {
			case 0:
				if(rng.chance(60))
					return Op("q", {(i64)rng.weighted({1, 1, 1, 0, 0, 0, 1, 1, 2}), (i64)(rng.next() >> 1)});
				if(rng.chance(400))
					return Op("si", {(i64)rng.below(6), (i64)rng.below(6), rng.chance(700) ? rng.range(1, 40) : rng.range(30, 130), (i64)rng.below(2)});
				return Op("q", {(i64)rng.weighted({0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 10, cfg.get("flush")}), (i64)(rng.next() >> 1)});
			default: return Op("st", {(i64)rng.below((u64)cfg.get("names", 3)), rng.chance(700) ? rng.range(1, cfg.get("chunk", 20)) : rng.range(0, 300), (i64)rng.below(2)});
			}
		default:
			switch(rng.weighted({25, 50, 8, 4})) {
			case 0:
				return Op("q", {(i64)rng.weighted({1, 1, 0, 0, 1, 0, 5, 1, 1, 0, 0, 0, 0, 2, 8, 3, 5, 1}), (i64)(rng.next() >> 1)});
			case 1: return Op("tr", {rng.range(1, cfg.get("burst", 8))});
			case 2: return Op("st", {(i64)rng.below(6), rng.range(1, 60), (i64)rng.below(2)});
			default: return Op("aw", {(i64)rng.below(slots.size()), (i64)rng.below(40), (i64)(rng.next() >> 1)});
			}
		}
	}

	// The application calls a function by its Variant, with a buffer at any address.
	void function(Slot& s, int v, u64 seed)
	{
		VarInfo const& x = s.vars()[(size_t)v];
		Rng g(seed);
		bool set = g.chance(500);
		alignas(8) char buf[40];
		memset(buf, 0x55, sizeof(buf));
		char* b = buf + 8 + g.below(8);
		stored::Variant<DbgStore> f = s.dbg->find(x.name);
		std::string val = content(g.next(), x.size, 0);
		if(x.isBool())
			val[0] &= 1;
		calls.clear();
		expCalls.clear();
		if(set) {
			memcpy(b, val.data(), x.size);
			f.set(b, x.size);
			s.fn.set(v, val);
		} else {
			f.get(b, x.size);
			val = s.fn.get(v, x.size);
			if(memcmp(b, val.data(), val.size()) != 0)
				ctx.fail("function", "reading %s gives %s instead of %s", x.name, hex(b, val.size()).c_str(),
					 hex(val.data(), val.size()).c_str());
		}
		ctx.log("function %s %s %zu", set ? "set" : "get", x.name, (size_t)(b - buf) - 8);
		expCalls.push_back({s.id, v, set, val});
		checkCalls("calling a function");
	}

	virtual void exec(Op const& op) override
	{
		if(op.is("q")) {
			std::string r = makeReq((int)op.arg(0), (u64)op.arg(1));
			if(r.empty())
				return;
			request(r);
			if(!ctx.failed)
				checkStores(("request '" + show(r) + "'").c_str());
			u64 h = mix((unsigned char)r[0], port.resp.empty() ? 0 : port.resp[0].size() > 1 ? 2 : (u64)(unsigned char)port.resp[0][0]);
			h = mix(h, mapped.size() * 1000 + aliases.size() * 10 + macros.size());
			h = mix(h, r.size() > 2 ? r.size() : 0);
			ctx.state(h);
			ctx.nontrivial = true;
		} else if(op.is("aw")) {
			Slot& s = slots[(size_t)op.arg(0) % slots.size()];
			int v = (int)((size_t)op.arg(1) % s.vars().size());
			VarInfo const& x = s.vars()[(size_t)v];
			if(x.fn()) {
				function(s, v, (u64)op.arg(2));
				return;
			}
			std::string b = content((u64)op.arg(2), x.isString() ? (size_t)op.arg(2) % (x.size + 1) : x.size, 0);
			if(x.isBool())
				b[0] &= 1;
			if(s.small)
				s.sml->raw(v).set(b.data(), b.size());
			else
				s.dbg->raw(v).set(b.data(), b.size());
			write(s, v, b);
			expCalls.clear();
			checkStores("a write by the application");
		} else if(op.is("map")) {
			map((size_t)op.arg(0) % slots.size(), (size_t)op.arg(1) % 10);
			ctx.log("map %s", mapNames[op.arg(1) % 10]);
			ctx.fault("map");
		} else if(op.is("badmap")) {
			if(slots[0].small)
				d->map(*slots[0].sml, badMapNames[op.arg(0) & 3]);
			else
				d->map(*slots[0].dbg, badMapNames[op.arg(0) & 3]);
		} else if(op.is("unmap")) {
			auto it = mapped.find(mapNames[op.arg(0) % 10]);
			d->unmap(mapNames[op.arg(0) % 10]);
			if(it == mapped.end())
				return;
			int s = it->second;
			mapped.erase(it);
			dropAliases(s);
			ctx.log("unmap");
			ctx.fault("unmap");
			bool used = false;
			for(auto const& m : mapped)
				used = used || m.second == s;
			if(!used && op.arg(1)) {
				ctx.fault("store-destroyed");
				slots[(size_t)s].create(s);
			}
		} else if(op.is("id")) {
			id = (int)(op.arg(0) % 3);
			ver = (int)(op.arg(1) % 3);
			d->setIdentification(ids[id]);
			d->setVersions(vers[ver]);
		} else if(op.is("st")) {
			appWrite(streamChars[(size_t)op.arg(0) % 6], (size_t)std::max<i64>(0, op.arg(1)), (int)op.arg(2) & 1);
		} else if(op.is("si")) {
			// Read a stream, while the application writes during the response.
			char c = streamChars[(size_t)op.arg(0) % 6];
			char w = streamChars[(size_t)op.arg(1) % 6];
			std::string r = std::string("s") + c;
			auto it = streams.find(c);
			if(it == streams.end() || !it->second.pending())
				return;
			ctx.fault("write-while-reading");
			bool wasBlocked = it->second.blocked;
			std::string data = compressed ? "" : it->second.data;
			bool done = false;
			size_t n = 0;
			std::string wd = content(mix(0xabc, streamSeq++), (size_t)std::max<i64>(0, op.arg(2)), (int)op.arg(3) & 1);
			port.hook = [&]() {
				done = true;
				n = d->stream(w, wd.data(), wd.size());
			};
			std::string p = process(r);
			port.hook = nullptr;
			if(ctx.failed)
				return;
			if(compressed)
				chunk(c, p);
			else {
				if(p != data)
					ctx.fail("response", "stream read gives %zu instead of %zu bytes", p.size(), data.size());
				it->second.data.clear();
			}
			if(done && n) {
				streams[w].used = true;
				if(!(compressed && w == c && wasBlocked))
					append(w, wd.substr(0, n));
			}
			ctx.nontrivial = true;
		} else if(op.is("tr")) {
			for(i64 i = 0; i < op.arg(0) && i < 100 && !ctx.failed; i++)
				traceCall();
			ctx.nontrivial = true;
		}
	}

	virtual void finish() override
	{
		// Everything still works, and all data comes out.
		if(compressed)
			request("f");
		for(auto& s : streams) {
			if(ctx.failed)
				return;
			if(s.second.used && s.second.pending()) {
				request(std::string("s") + s.first);
				if(!ctx.failed && s.second.pending())
					ctx.fail("stream-lost", "data of stream %c does not come out", s.first);
			}
		}
		if(prop == 15 || prop == 16) {
			// Nothing is left: there must be room for new streams.
			for(size_t i = 0; i < streamCount && !ctx.failed; i++)
				appWrite((char)('0' + i), 5, 0);
			for(size_t i = 0; i < streamCount && !ctx.failed; i++)
				if(streams[(char)('0' + i)].data.size() != 5)
					ctx.fail("stream-refused", "no room for a new stream");
			if(!ctx.failed)
				request("s");
		}
		for(size_t i = 0; i < 6 && !ctx.failed; i++) {
			request(i == 0 ? "l" : i == 1 ? "?" : "eok");
			checkStores("the run");
		}
		ctx.fault("requests");
	}
};

void config13(Rng& g, Config& c)
{
	c["slots"] = g.range(1, 4);
	c["small"] = (i64)g.below(16);
}
void config14(Rng& g, Config& c)
{
	c["slots"] = 1;
	c["mem"] = (i64)g.below(1000000);
	c["memsize"] = g.chance(900) ? 512 : g.range(513, 6000);
}
void config15(Rng& g, Config& c)
{
	c["slots"] = 1;
	c["flush"] = (i64)g.below(8);
	c["names"] = g.range(1, 6);
	c["chunk"] = g.pick(std::vector<i64>{3, 10, 40, 120});
}
void config16(Rng& g, Config& c)
{
	c["slots"] = 1;
	c["burst"] = g.pick(std::vector<i64>{2, 8, 30});
}
template <int P>
World* make(Ctx& c, Config const& cfg)
{
	return new DbgWorld(c, cfg, P);
}
} // namespace

namespace sim {
Family const families[] = {
	{"P13", config13, make<13>, 20, 200},
	{"P14", config14, make<14>, 10, 60},
	{"P15", config15, make<15>, 20, 200},
	{"P16", config16, make<16>, 20, 200},
};
size_t const familyCount = sizeof(families) / sizeof(families[0]);
#ifdef SIM_DBG_ALT
char const* const binaryName = "dbgalt";
#elif defined(SIM_DBG_DYN)
char const* const binaryName = "dbgdyn";
#else
char const* const binaryName = "dbg";
#endif
} // namespace sim
