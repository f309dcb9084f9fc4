// P08-P12: trees of real Synchronizers over simulated links; journal against a reference model.
#include "kernel.h"

#include <stored>
#include <libstored/synchronizer.h>

#include "SimMid.h"
#include "SimSmall.h"

#include <algorithm>
#include <deque>
#include <functional>
#include <set>

using namespace sim;

static bool s_newInArena = false;
void* operator new(size_t n)
{
	if(s_newInArena)
		return arenaAlloc(n);
	void* p = malloc(n ? n : 1);
	if(!p)
		abort();
	return p;
}
void operator delete(void* p) noexcept
{
	if(!inArena(p))
		free(p);
}
void operator delete(void* p, size_t n) noexcept
{
	if(inArena(p))
		arenaFree(p, n);
	else
		free(p);
}

// Stores of a given size with variables of various lengths, of which the buffer is a separate allocation.
template <size_t N, size_t Vars>
struct RawTag {};

namespace stored {
template <size_t N, size_t Vars>
class Synchronizable<RawTag<N, Vars>> {
public:
	enum {
		MaxMessageSize = (1 + 40 + 1 + 2 > 1 + 2 + (int)N + (int)Vars * 8) ? 1 + 40 + 1 + 2 : 1 + 2 + (int)N + (int)Vars * 8
	};
	class Cb : public StoreJournal::StoreCallback {
	public:
		explicit Cb(Synchronizable& s) : s(s) {}
		Synchronizable& s;
		void hookEntryRO() noexcept override {}
		void hookExitRO() noexcept override {}
		void hookChanged() noexcept override
		{
			if(s.onAll)
				s.onAll();
		}
		void hookEntryRO(Type::type, void* b, size_t n) noexcept override { s.check(b, n); }
		void hookExitRO(Type::type, void* b, size_t n) noexcept override { s.check(b, n); }
		void hookChanged(Type::type, void* b, size_t n) noexcept override
		{
			s.check(b, n);
			if(s.onChanged)
				s.onChanged((size_t)((char*)b - s.buf), n);
		}
		bool doHookEntryRO() noexcept override { return true; }
		bool doHookExitRO() noexcept override { return true; }
		bool doHookChanged() noexcept override { return true; }
		bool doHooks() noexcept override { return true; }
	};
	explicit Synchronizable(bool hooked)
		: cb(*this), buf((char*)arenaAlloc(N)), j(hash(), buf, N, hooked ? &cb : nullptr)
	{
		memset(buf, 0, N);
	}
	~Synchronizable() { arenaFree(buf, N); }
	static char const* hash()
	{
		static std::string const h = "raw-store-of-size-" + std::to_string(N);
		return h.c_str();
	}
	StoreJournal& journal() { return j; }
	void check(void* b, size_t n) noexcept
	{
		if(n && ((char*)b < buf || (char*)b + n > buf + N))
			outside++;
	}
	Cb cb;
	char* buf;
	StoreJournal j;
	int outside = 0;
	std::function<void()> onAll;
	std::function<void(size_t, size_t)> onChanged;
};
} // namespace stored

namespace {

struct Var {
	std::string name;
	size_t key, len;
	bool str, blob, boolean;
};

// What the application sees (P25).
struct Note {
	int var; // -1: not a variable
	size_t len;
	std::string value;
	bool operator==(Note const& n) const { return var == n.var; }
};

struct IStore {
	virtual ~IStore() {}
	virtual stored::StoreJournal& journal() = 0;
	virtual char* buffer() = 0;
	virtual size_t size() = 0;
	virtual void set(size_t var, std::string const& value) = 0;
	virtual void map(stored::Synchronizer& s) = 0;
	virtual void unmap(stored::Synchronizer& s) = 0;
	virtual void syncFrom(stored::Synchronizer& s, stored::ProtocolLayer& p) = 0;
	virtual int outside() { return 0; }
	std::vector<Var> vars;

	bool notifies = false; // of changes by messages
	bool notifiesLocal = false;
	bool signals = false;
	bool locks = false;
	char const* only = nullptr; // the only variable that is watched
	std::vector<Note> notes;
	std::vector<int> signalled;
	std::string shadow;
	std::string unpaired;
	std::vector<std::pair<void*, std::pair<size_t, bool>>> entered;

	virtual void watch() {}
	std::string get(size_t v) { return std::string(buffer() + vars[v].key, vars[v].str ? strnlen(buffer() + vars[v].key, vars[v].len) : vars[v].len); }
	std::string shadowed(size_t v)
	{
		char const* p = shadow.data() + vars[v].key;
		return std::string(p, vars[v].str ? strnlen(p, vars[v].len) : vars[v].len);
	}
	void note(size_t key, size_t len)
	{
		for(size_t v = 0; v < vars.size(); v++)
			if(vars[v].key == key) {
				notes.push_back(Note{(int)v, len, get(v)});
				return;
			}
		notes.push_back(Note{-1, len, ""});
	}
	void named(char const* name)
	{
		for(size_t v = 0; v < vars.size(); v++)
			if(vars[v].name == name) {
				notes.push_back(Note{(int)v, 0, get(v)});
				return;
			}
	}
	void enter(void* b, size_t n, bool x)
	{
		for(auto const& e : entered)
			if((x || e.second.second) && (char*)b < (char*)e.first + e.second.first && (char*)e.first < (char*)b + n)
				unpaired = "access is given while there is exclusive access";
		entered.push_back({b, {n, x}});
	}
	void leave(void* b, size_t n, bool x)
	{
		auto it = std::find(entered.begin(), entered.end(), std::make_pair(b, std::make_pair(n, x)));
		if(it == entered.end())
			unpaired = "access is released that was not given";
		else
			entered.erase(it);
	}
};

class SmallStore : public STORE_T(SmallStore, stored::Synchronizable, stored::SimSmallBase) {
	STORE_CLASS(SmallStore, stored::Synchronizable, stored::SimSmallBase)
public:
	SmallStore() = default;
};

class MidStore : public STORE_T(MidStore, stored::Synchronizable, stored::SimMidBase) {
	STORE_CLASS(MidStore, stored::Synchronizable, stored::SimMidBase)
public:
	MidStore() = default;
	IStore* owner = nullptr;

protected:
	void __hookChanged(stored::Type::type type, void* buffer, size_t len) noexcept
	{
		size_t key = bufferToKey(buffer);
		if(owner)
			owner->note(key, len);
	}
};

#define NAMED(n, s)                     \
	void __##n##__changed() noexcept    \
	{                                   \
		if(owner)                       \
			owner->named(s);            \
	}
#define NAMED_ALL \
	NAMED(a, "/a") \
	NAMED(b, "/b") \
	NAMED(c, "/c") \
	NAMED(d, "/d") \
	NAMED(e, "/e") \
	NAMED(f, "/f") \
	NAMED(g, "/g") \
	NAMED(h, "/h") \
	NAMED(i_0, "/i[0]") \
	NAMED(i_1, "/i[1]") \
	NAMED(i_2, "/i[2]") \
	NAMED(j, "/j")

// Per variable.
class NamedStore : public STORE_T(NamedStore, stored::Synchronizable, stored::SimSmallBase) {
	STORE_CLASS(NamedStore, stored::Synchronizable, stored::SimSmallBase)
public:
	NamedStore() = default;
	IStore* owner = nullptr;

protected:
NAMED_ALL
};

// Only one variable is watched.
#define NAMED_ONE(T, n, s)                                                      \
	class T : public STORE_T(T, stored::Synchronizable, stored::SimSmallBase) { \
		STORE_CLASS(T, stored::Synchronizable, stored::SimSmallBase)            \
	public:                                                                     \
		T() = default;                                                          \
		IStore* owner = nullptr;                                                \
		static char const* only() { return s; }                                 \
                                                                                \
	protected:                                                                  \
		NAMED(n, s)                                                             \
	};
NAMED_ONE(NamedA, a, "/a")
NAMED_ONE(NamedG, g, "/g")
NAMED_ONE(NamedJ, j, "/j")
#undef NAMED_ONE

class SignalStore : public STORE_T(SignalStore, stored::Signalling, stored::Synchronizable, stored::SimSmallBase) {
	STORE_CLASS(SignalStore, stored::Signalling, stored::Synchronizable, stored::SimSmallBase)
public:
	SignalStore() = default;
	IStore* owner = nullptr;

protected:
	NAMED_ALL
};

class LockedStore : public STORE_T(LockedStore, stored::Synchronizable, stored::SimMidBase) {
	STORE_CLASS(LockedStore, stored::Synchronizable, stored::SimMidBase)
public:
	LockedStore() = default;
	IStore* owner = nullptr;

protected:
	void __hookEntryX(stored::Type::type type, void* buffer, size_t len) noexcept
	{
		base::__hookEntryX(type, buffer, len);
		if(owner)
			owner->enter(buffer, len, true);
	}
	void __hookExitX(stored::Type::type type, void* buffer, size_t len, bool changed) noexcept
	{
		if(owner)
			owner->leave(buffer, len, true);
		base::__hookExitX(type, buffer, len, changed);
	}
	void __hookEntryRO(stored::Type::type type, void* buffer, size_t len) noexcept
	{
		base::__hookEntryRO(type, buffer, len);
		if(owner)
			owner->enter(buffer, len, false);
	}
	void __hookExitRO(stored::Type::type type, void* buffer, size_t len) noexcept
	{
		if(owner)
			owner->leave(buffer, len, false);
		base::__hookExitRO(type, buffer, len);
	}
	void __hookChanged(stored::Type::type type, void* buffer, size_t len) noexcept
	{
		if(owner)
			owner->note(bufferToKey(buffer), len);
	}
};
void watchStore(IStore&, SmallStore&) {}
void watchStore(IStore& o, MidStore& s)
{
	s.owner = &o;
	o.notifies = o.notifiesLocal = true;
}
void watchStore(IStore& o, NamedStore& s)
{
	s.owner = &o;
	o.notifies = o.notifiesLocal = true;
}
template <typename S>
void watchStore(IStore& o, S& s)
{
	s.owner = &o;
	o.notifies = o.notifiesLocal = true;
	o.only = S::only();
}
void watchStore(IStore& o, LockedStore& s)
{
	s.owner = &o;
	o.locks = true;
	o.notifies = o.notifiesLocal = true;
}
void watchStore(IStore& o, SignalStore& s)
{
	s.owner = &o;
	o.notifies = o.notifiesLocal = true;
	o.signals = true;
	auto cb = [&o](char const* name) {
		return [&o, name] {
			for(size_t v = 0; v < o.vars.size(); v++)
				if(o.vars[v].name == name)
					o.signalled.push_back((int)v);
		};
	};
	s.connect(s.a, cb("/a"));
	s.connect(s.b, cb("/b"));
	s.connect(s.c, cb("/c"));
	s.connect(s.d, cb("/d"));
	s.connect(s.e, cb("/e"));
	s.connect(s.f, cb("/f"));
	s.connect(s.g, cb("/g"));
	s.connect(s.h, cb("/h"));
	s.connect(s.i_0, cb("/i[0]"));
	s.connect(s.i_1, cb("/i[1]"));
	s.connect(s.i_2, cb("/i[2]"));
	s.connect(s.j, cb("/j"));
}

template <typename S>
struct GenStore : IStore {
	S* s;
	std::vector<stored::Variant<S>> v;
	GenStore()
	{
		s = ::new(arenaAlloc(sizeof(S))) S;
		s->list([](void* c, char const* name, stored::Type::type t, void* b, size_t len, void* arg) {
			auto* self = static_cast<GenStore*>(arg);
			if(stored::Type::isFunction(t))
				return;
			self->v.emplace_back(stored::Variant<S>(*static_cast<S*>(c), t, b, len));
			size_t n = stored::Type::isFixed(t) ? stored::Type::size(t) : len;
			self->vars.push_back(Var{name, (size_t)((char*)b - self->buffer()), n, t == stored::Type::String,
				t == stored::Type::Blob, t == stored::Type::Bool});
		}, (void*)this, "");
	}
	~GenStore()
	{
		s->~S();
		arenaFree(s, sizeof(S));
	}
	stored::StoreJournal& journal() override { return s->journal(); }
	char* buffer() override { return static_cast<char*>(s->journal().keyToBuffer(0)); }
	size_t size() override { return S::BufferSize; }
	void watch() override { watchStore(*this, *s); }
	void set(size_t var, std::string const& value) override
	{
		std::string x(value);
		if(stored::Type::isFixed(v[var].type()) && stored::Type::isStoreSwapped(v[var].type()))
			std::reverse(x.begin(), x.end()); // values are as in the store
		v[var].set(x.data(), x.size());
	}
	void map(stored::Synchronizer& sy) override { sy.map(*s); }
	void unmap(stored::Synchronizer& sy) override { sy.unmap(*s); }
	void syncFrom(stored::Synchronizer& sy, stored::ProtocolLayer& p) override { sy.syncFrom(*s, p); }
};

template <size_t N, size_t Vars>
struct RawStore : IStore {
	typedef stored::Synchronizable<RawTag<N, Vars>> S;
	S* s;
	explicit RawStore(bool hooked) : hooked(hooked)
	{
		s = ::new(arenaAlloc(sizeof(S))) S(hooked);
		for(size_t i = 0; i < Vars; i++) {
			size_t k = N * i / Vars, e = N * (i + 1) / Vars;
			// Some gaps.
			if(e - k > 3 && i % 3 == 1)
				e--;
			vars.push_back(Var{"v" + std::to_string(i), k, e - k, false, true, false});
		}
	}
	~RawStore()
	{
		s->~S();
		arenaFree(s, sizeof(S));
	}
	stored::StoreJournal& journal() override { return s->journal(); }
	char* buffer() override { return s->buf; }
	size_t size() override { return N; }
	void set(size_t var, std::string const& value) override
	{
		Var& v = vars[var];
		size_t n = std::min(v.len, value.size());
		if(n && memcmp(s->buf + v.key, value.data(), n)) {
			memcpy(s->buf + v.key, value.data(), n);
			s->j.changed((stored::StoreJournal::Key)v.key, n);
		}
	}
	void map(stored::Synchronizer& sy) override { sy.map(*s); }
	void unmap(stored::Synchronizer& sy) override { sy.unmap(*s); }
	void syncFrom(stored::Synchronizer& sy, stored::ProtocolLayer& p) override { sy.syncFrom(*s, p); }
	int outside() override { return s->outside; }
	bool const hooked;
	void watch() override
	{
		notifies = hooked;
		s->onAll = [this] {
			for(auto const& v : vars)
				note(v.key, v.len);
		};
		s->onChanged = [this](size_t k, size_t n) { note(k, n); };
	}
};

enum { StoreTypes = 16 };

IStore* makeStore(int type)
{
	switch(type % StoreTypes) {
	default:
	case 0: return new GenStore<SmallStore>;
	case 1: return new GenStore<MidStore>;
	case 2: return new RawStore<12, 5>(true);
	case 3: return new RawStore<255, 9>(false);
	case 4: return new RawStore<256, 9>(true);
	case 5: return new RawStore<1000, 24>(false);
	case 6: return new RawStore<65535, 11>(true);
	case 7: return new RawStore<65536, 11>(false);
	case 8: return new RawStore<70001, 13>(true);
	case 9: return new RawStore<1, 1>(true);
	case 10: return new GenStore<NamedStore>;
	case 11: return new GenStore<SignalStore>;
	case 12: return new GenStore<LockedStore>;
	case 13: return new GenStore<NamedA>;
	case 14: return new GenStore<NamedG>;
	case 15: return new GenStore<NamedJ>;
	}
}

size_t keySizeOf(size_t n)
{
	return n <= 255 ? 1 : n <= 65535 ? 2 : 4;
}

#ifdef SIM_BE
bool const LittleEndian = false;
#else
bool const LittleEndian = true;
#endif

u64 number(char const* p, size_t n)
{
	u64 v = 0;
	for(size_t i = 0; i < n; i++)
		v |= (u64)(unsigned char)p[LittleEndian ? i : n - 1 - i] << (8 * i);
	return v;
}

std::string numberEncode(u64 v, size_t n)
{
	std::string s(n, 0);
	for(size_t i = 0; i < n; i++)
		s[LittleEndian ? i : n - 1 - i] = (char)(v >> (8 * i));
	return s;
}

char cmdOf(std::string const& m)
{
	if(m.empty())
		return 0;
	char c = m[0];
	if(LittleEndian ? (c >= 'A' && c <= 'Z') : (c >= 'a' && c <= 'z'))
		return 0; // the other byte order
	return (char)(c | 0x20);
}

char cmdEnc(char c)
{
	return LittleEndian ? c : (char)(c & ~0x20);
}

class SyncWorld;

class Spy : public stored::ProtocolLayer {
public:
	Spy(SyncWorld& w, int link, int end) : w(w), link(link), end(end) {}
	SyncWorld& w;
	int link, end;
	std::string partial;
	virtual void encode(void const* buffer, size_t len, bool last = true) override;
	using stored::ProtocolLayer::encode;
	virtual void decode(void* buffer, size_t len) override;
	virtual void reset() override
	{
		partial.clear();
		stored::ProtocolLayer::reset();
	}
};

class Wire : public stored::ProtocolLayer {
public:
	Wire(SyncWorld& w, int link, int end) : w(w), link(link), end(end) {}
	SyncWorld& w;
	int link, end;
	std::string partial;
	bool cut = false; // crash: nothing gets out
	virtual void encode(void const* buffer, size_t len, bool last = true) override;
	using stored::ProtocolLayer::encode;
	virtual void reset() override { partial.clear(); }
};

// What was sent over a link, above the protocol stack.
struct Sent {
	std::string msg;
	int store;   // -1: none
	u64 hash;    // of the sender's variables
	int session; // of the sender
};

struct EndPoint {
	std::unique_ptr<Spy> spy;
	std::unique_ptr<stored::SegmentationLayer> seg;
	std::unique_ptr<stored::ArqLayer> arq;
	std::unique_ptr<Wire> wire;
	bool connected = false;
	std::map<u64, int> ids;  // id that peer uses to send to us -> store type index
	std::map<int, int> wIn, wOut; // per store: number of Welcomes decoded, sent
	std::map<int, u64> mark;      // per store: sequence number up to which this end sent its updates
	stored::ProtocolLayer* bottom() { return wire.get(); }
};

struct Link {
	int node[2];
	EndPoint end[2];
	std::deque<std::string> line[2]; // from end d
	std::deque<Sent> sent[2];	 // from end d
	bool disturbed = false;
	bool renewed = false; // by a new connection, which reuses ids
	std::set<int> synced;
	bool arq = false, lossy = false;
	bool direct = false; // synchronous delivery
	size_t mtu = 0;
};

struct Node {
	std::unique_ptr<stored::Synchronizer> sync;
	std::vector<std::unique_ptr<IStore>> stores; // by index in SyncWorld::types
	std::vector<bool> mapped;
	std::vector<std::map<size_t, std::string>> last; // per store: var -> what this node wrote last
};

class SyncWorld : public World {
public:
	int prop;
	std::vector<int> types;
	std::vector<int> root;		       // per store
	std::vector<std::vector<bool>> member; // per store, per node
	std::vector<std::vector<int>> writer;  // per store, per var
	std::vector<Node> nodes;
	std::vector<std::unique_ptr<Link>> links;
	u64 version = 0;
	bool finishing = false;
	bool early = false;    // something is written before it was synchronised
	bool advanced = false; // the journal went beyond its window: it may be less precise
	bool faulty = false;   // P10: things come and go
	u64 messages = 0, receives = 0;
	int attackLink = -1;   // P11
	std::vector<bool> exposed; // P11: stores with a session on the attacked link
	std::deque<std::string> captured;
	int expectSilence = 0;

	SyncWorld(Ctx& c, Config const& cfg, int prop) : World(c, cfg), prop(prop)
	{
		faulty = prop == 10 || (prop == 25 && cfg.get("faulty"));
		if(prop == 25)
			ctx.only = "notify"; // other properties are decided by others
		int n = std::max<int>(2, std::min<int>(6, (int)cfg.get("nodes", 2)));
		int st = std::max<int>(1, std::min<int>(3, (int)cfg.get("stores", 1)));
		for(int i = 0; i < st; i++) {
			int t = (int)cfg.get(("type" + std::to_string(i)).c_str()) % StoreTypes;
			// Stores of the same kind cannot be distinguished.
			auto same = [](int x) { return x == 10 || x == 11 || x >= 13 ? 0 : x == 12 ? 1 : x; };
			if(std::find_if(types.begin(), types.end(), [&](int x) { return same(x) == same(t); }) == types.end())
				types.push_back(t);
		}
		Rng r(mix((u64)cfg.get("layout"), 77));
		nodes.resize((size_t)n);
		for(int i = 1; i < n; i++) {
			links.emplace_back(new Link);
			Link& l = *links.back();
			l.node[0] = (int)r.below((u64)i);
			l.node[1] = i;
			if(cfg.get("chain"))
				l.node[0] = i - 1;
			l.arq = cfg.get("arq") && r.chance(700);
			l.lossy = l.arq && cfg.get("lossy");
			l.direct = !l.arq && cfg.get("direct") && r.chance(700);
			l.mtu = r.chance((i64)cfg.get("seg")) ? (size_t)r.pick(std::vector<i64>{l.arq ? 8 : 2, 9, 17, 64, 300, 5000}) : 0;
			if(l.mtu && l.mtu < 300)
				for(int t : types)
					if(t >= 6 && t <= 8)
						l.mtu = 3000;
			if(faulty && !l.arq && cfg.get("loss"))
				l.mtu = 0; // a lost fragment would go undetected
			if(l.mtu)
				l.direct = false; // SegmentationLayer is not reentrant
		}
		for(size_t s = 0; s < types.size(); s++) {
			root.push_back((int)r.below((u64)n));
			std::vector<bool> m((size_t)n, true);
			if(r.chance(300)) {
				// Drop some leaves.
				for(int k = 0; k < n; k++) {
					int x = (int)r.below((u64)n);
					int deg = 0;
					for(auto& l : links)
						if((l->node[0] == x || l->node[1] == x) && m[(size_t)l->node[0]] && m[(size_t)l->node[1]])
							deg++;
					if(m[(size_t)x] && deg <= 1 && std::count(m.begin(), m.end(), true) > 2 && x != root[s])
						m[(size_t)x] = false;
				}
			}
			member.push_back(m);
		}
		for(int i = 0; i < n; i++)
			boot(i);
		for(size_t s = 0; s < types.size(); s++) {
			std::vector<int> w;
			auto& vars = nodes[(size_t)root[s]].stores[s]->vars;
			for(size_t v = 0; v < vars.size(); v++) {
				int x;
				do
					x = (int)r.below((u64)n);
				while(!member[s][(size_t)x]);
				if(cfg.get("rootwrites"))
					x = root[s];
				w.push_back(x);
			}
			writer.push_back(w);
		}
		exposed.resize(types.size());
		for(size_t i = 0; i < links.size(); i++)
			{
				makeEnd((int)i, 0);
				makeEnd((int)i, 1);
				handshake((int)i);
				connect((int)i, 0);
				connect((int)i, 1);
			}
		if(prop == 11) {
			// A hostile Hello reverses the direction, after which syncFrom() may not be called anymore.
			for(size_t s = 0; s < types.size(); s++)
				if(r.chance(700))
					syncFrom(0, (int)s);
			attackLink = 0;
			for(size_t s = 0; s < types.size(); s++)
				exposed[s] = links[0]->synced.count((int)s) &&
					     (links[0]->direct || links[0]->node[downEnd(0, (int)s)] == attackVictim());
		}
	}

	~SyncWorld()
	{
		for(auto& l : links)
			for(int e = 0; e < 2; e++)
				if(l->end[e].wire)
					l->end[e].wire->cut = true;
		for(size_t i = 0; i < nodes.size(); i++)
			nodes[i].sync.reset();
		for(auto& l : links)
			for(int e = 0; e < 2; e++) {
				l->end[e].spy.reset();
				l->end[e].seg.reset();
				l->end[e].arq.reset();
				l->end[e].wire.reset();
			}
		nodes.clear();
	}

	// --- topology

	int downEnd(int link, int s) const
	{
		// End that is farther from the store's root.
		Link const& l = *links[(size_t)link];
		// Remove the link; is node[0] in the component of the root?
		return reach(l.node[0], root[(size_t)s], link) ? 1 : 0;
	}

	bool reach(int from, int to, int without) const
	{
		if(from == to)
			return true;
		std::vector<bool> seen(nodes.size());
		std::vector<int> q = {from};
		seen[(size_t)from] = true;
		while(!q.empty()) {
			int x = q.back();
			q.pop_back();
			if(x == to)
				return true;
			for(size_t i = 0; i < links.size(); i++) {
				if((int)i == without)
					continue;
				for(int e = 0; e < 2; e++)
					if(links[i]->node[e] == x && !seen[(size_t)links[i]->node[1 - e]]) {
						seen[(size_t)links[i]->node[1 - e]] = true;
						q.push_back(links[i]->node[1 - e]);
					}
			}
		}
		return false;
	}

	bool carries(int link, int s) const
	{
		Link const& l = *links[(size_t)link];
		return member[(size_t)s][(size_t)l.node[0]] && member[(size_t)s][(size_t)l.node[1]];
	}

	bool onSide(int link, int end, int s, size_t var) const
	{
		return reach(writer[(size_t)s][var], links[(size_t)link]->node[end], link);
	}

	std::map<std::pair<int, int>, std::vector<bool>> sideCache;
	std::vector<bool> const& side(int link, int end, int s)
	{
		auto key = std::make_pair(link * 2 + end, s);
		auto it = sideCache.find(key);
		if(it != sideCache.end())
			return it->second;
		std::vector<bool> r;
		for(size_t v = 0; v < writer[(size_t)s].size(); v++)
			r.push_back(onSide(link, end, s, v));
		return sideCache[key] = r;
	}

	std::string value(int node, int s, size_t v)
	{
		IStore& st = *nodes[(size_t)node].stores[(size_t)s];
		Var& x = st.vars[v];
		if(x.str)
			return std::string(st.buffer() + x.key, strnlen(st.buffer() + x.key, x.len));
		return std::string(st.buffer() + x.key, x.len);
	}

	u64 hashSide(int node, int link, int end, int s)
	{
		auto const& sd = side(link, end, s);
		u64 h = 1;
		for(size_t v = 0; v < sd.size(); v++)
			if(sd[v]) {
				std::string x = value(node, s, v);
				h = hashBytes(h, x.data(), x.size());
			}
		return h;
	}

	// --- lifecycle

	void boot(int n)
	{
		Node& x = nodes[(size_t)n];
		x.stores.clear();
		x.stores.resize(types.size());
		x.mapped.assign(types.size(), false);
		x.last.assign(types.size(), {});
		x.sync.reset(new stored::Synchronizer);
		for(size_t s = 0; s < types.size(); s++)
			if(member[s][(size_t)n]) {
				x.stores[s].reset(makeStore(types[s]));
				if(prop == 25)
					x.stores[s]->watch();
				x.stores[s]->map(*x.sync);
				x.mapped[s] = true;
			}
	}

	void makeEnd(int l, int e)
	{
		Link& k = *links[(size_t)l];
		EndPoint& p = k.end[e];
		p.spy.reset(new Spy(*this, l, e));
		p.seg.reset();
		p.arq.reset();
		stored::ProtocolLayer* up = p.spy.get();
		if(k.mtu) {
			p.seg.reset(new stored::SegmentationLayer(k.mtu));
			p.seg->wrap(*up);
			up = p.seg.get();
		}
		if(k.arq) {
			p.arq.reset(new stored::ArqLayer);
			p.arq->wrap(*up);
			up = p.arq.get();
		}
		p.wire.reset(new Wire(*this, l, e));
		p.wire->wrap(*up);
	}

	// Queueing messages during the handshake is a known finding of P01.
	void handshake(int l)
	{
		Link& k = *links[(size_t)l];
		if(!k.arq)
			return;
		k.end[l % 2].arq->keepAlive();
		for(int i = 0; i < 40 && (deliver(l, 0) || deliver(l, 1)); i++)
			;
	}

	void connect(int l, int e)
	{
		Link& k = *links[(size_t)l];
		EndPoint& p = k.end[e];
		if(p.connected)
			return;
		s_newInArena = true;
		nodes[(size_t)k.node[e]].sync->connect(*p.spy);
		s_newInArena = false;
		p.connected = true;
		p.ids.clear();
		p.wIn.clear();
		p.wOut.clear();
		p.mark.clear();
	}

	void disconnect(int l, int e)
	{
		Link& k = *links[(size_t)l];
		EndPoint& p = k.end[e];
		if(!p.connected)
			return;
		k.disturbed = k.renewed = true;
		nodes[(size_t)k.node[e]].sync->disconnect(*p.spy);
		p.connected = false;
	}

	void syncFrom(int l, int s)
	{
		if(!carries(l, s))
			return;
		Link& k = *links[(size_t)l];
		int d = downEnd(l, s);
		if(!k.end[d].connected || !nodes[(size_t)k.node[d]].mapped[(size_t)s])
			return;
		if(l == attackLink && k.node[d] == attackVictim())
			return;
		k.synced.insert(s);
		nodes[(size_t)k.node[d]].stores[(size_t)s]->syncFrom(*nodes[(size_t)k.node[d]].sync, *k.end[d].spy);
	}

	// --- P11: node[1] of link 0 is hostile, node[0] is attacked.
	// Nodes of which no path to the attacked node passes the hostile one.
	bool trusted(int n) const { return prop != 11 || reach(n, attackVictim(), attackLink); }
	int attackVictim() const { return attackLink < 0 ? -1 : links[(size_t)attackLink]->node[0]; }

	// --- traffic

	int storeByHash(std::string const& h)
	{
		for(size_t s = 0; s < types.size(); s++)
			for(auto& n : nodes)
				if(n.stores[s]) {
					if(h == n.stores[s]->journal().hash())
						return (int)s;
					break;
				}
		return -1;
	}

	// Store that a message refers to, given the ids known at the receiver.
	int parse(std::string const& m, int l, int from, bool sending)
	{
		Link& k = *links[(size_t)l];
		EndPoint& me = k.end[from];
		EndPoint& peer = k.end[1 - from];
		switch(cmdOf(m)) {
		case 'h': {
			size_t z = m.find('\0', 1);
			if(z == std::string::npos || m.size() < z + 3)
				return -1;
			int s = storeByHash(m.substr(1, z - 1));
			if(sending && s >= 0)
				me.ids[number(m.data() + z + 1, 2)] = s;
			return s;
		}
		case 'w': {
			if(m.size() < 5)
				return -1;
			auto it = peer.ids.find(number(m.data() + 1, 2));
			if(it == peer.ids.end())
				return -1;
			if(sending)
				me.ids[number(m.data() + 3, 2)] = it->second;
			return it->second;
		}
		case 'u': {
			if(m.size() < 3)
				return -1;
			auto it = peer.ids.find(number(m.data() + 1, 2));
			return it == peer.ids.end() ? -1 : it->second;
		}
		default:
			return -1;
		}
	}

	void onSend(int l, int from, std::string const& m)
	{
		Link& k = *links[(size_t)l];
		messages++;
		if(k.end[from].wire->cut)
			return;
		ctx.logBytes("msg", l * 2 + from, m.data(), m.size());
		ctx.state(mix(mix((u64)(l * 2 + from), (u64)(unsigned char)m[0]), k.line[1 - from].size() * 16 + k.line[from].size()));
		Sent s{m, parse(m, l, from, true), 0, 0};
		if(cmdOf(m) == 'b' && m.size() > 3) {
			// The source ends the session, such that the other end has to ask for the contents again.
			int st = storeByHash(m.substr(1, m.find('\0', 1) - 1));
			if(st >= 0 && downEnd(l, st) != from)
				++k.end[from].wOut[st];
		} else if(cmdOf(m) == 'b' && m.size() == 3) {
			auto it = k.end[from].ids.find(number(m.data() + 1, 2));
			if(it != k.end[from].ids.end() && downEnd(l, it->second) != from)
				++k.end[from].wOut[it->second];
		}
		if(s.store >= 0) {
			s.hash = hashSide(k.node[from], l, from, s.store);
			EndPoint& me = k.end[from];
			if(cmdOf(m) == 'w') {
				s.session = ++me.wOut[s.store];
				setMark(l, from, s.store);
			} else
				s.session = me.wIn[s.store];
			if(cmdOf(m) == 'u' && !k.disturbed && prop != 11 && !confused(true)) {
				// What is in the update?
				IStore& st = *nodes[(size_t)k.node[from]].stores[(size_t)s.store];
				auto const& sd = side(l, from, s.store);
				size_t ks = keySizeOf(st.size()), i = 3;
				int entries = 0;
				bool ok = true;
				while(i < m.size() && ok) {
					if(i + 2 * ks > m.size()) {
						ok = false;
						break;
					}
					u64 key = number(m.data() + i, ks), len = number(m.data() + i + ks, ks);
					i += 2 * ks + len;
					ok = i <= m.size();
					entries++;
					size_t v = 0;
					for(; v < st.vars.size() && st.vars[v].key != key; v++)
						;
					if(v == st.vars.size())
						ctx.fail("bad-update", "link %d end %d: update of unknown key %d", l, from, (int)key);
					else if(!sd[v] && !advanced && !faulty)
						ctx.fail("echo", "link %d end %d: variable %s of store %d is sent back to where it was written", l, from,
							st.vars[v].name.c_str(), s.store);
				}
				if(!ok)
					ctx.fail("bad-update", "link %d end %d: malformed update", l, from);
				else if(!entries && !advanced)
					ctx.fail("empty-update", "link %d end %d: update without contents", l, from);
			}
			if(cmdOf(m) == 'u' && expectSilence && !advanced && prop != 11)
				ctx.fail("not-silent", "link %d end %d sends an update although nothing changed", l, from);
		}
		if(s.store >= 0 && cmdOf(m) == 'u' && confused(true) && nodes[(size_t)k.node[from]].stores[(size_t)s.store])
			checkPolluted(k.node[from], s.store, m);
		k.sent[from].push_back(s);
	}

	void onReceive(Spy& spy, void* buffer, size_t len)
	{
		int l = spy.link, to = spy.end, from = 1 - to;
		Link& k = *links[(size_t)l];
		std::string m((char*)buffer, len);
		u64 const nr = ++receives;
		ctx.logBytes("got", l * 2 + to, buffer, len);
		Sent s{"", -1, 0, 0};
		bool track = !k.disturbed && l != attackLink;
		if(track) {
			if(k.sent[from].empty() || k.sent[from].front().msg != m) {
				ctx.fail("transport", "link %d end %d: message differs from what was sent", l, to);
				return;
			}
			s = k.sent[from].front();
			k.sent[from].pop_front();
		}
		int n = k.node[to];
		if(l == attackLink && n == attackVictim())
			beforeAttack(m);
		if(cmdOf(m) == 'w') {
			if(s.store >= 0)
				nodes[(size_t)n].last[(size_t)s.store].clear();
			else
				for(auto& x : nodes[(size_t)n].last)
					x.clear();
		}
		receiving.resize(nodes.size());
		if(prop == 25 && !receiving[(size_t)n]++)
			snapshot(n);
		spy.stored::ProtocolLayer::decode(buffer, len);
		if(prop == 25 && !--receiving[(size_t)n])
			checkNotified(n, m, nr == receives && !confused(true) && track && (s.store >= 0 || (cmdOf(m) != 'w' && cmdOf(m) != 'u')), s.store);
		if(ctx.failed)
			return;
		if(l == attackLink && n == attackVictim() && nr == receives)
			afterAttack(m);
		EndPoint& me = k.end[to];
		char c = cmdOf(m);
		if(c == 'w' && s.store >= 0) {
			me.wIn[s.store] = s.session;
			setMark(l, to, s.store);
		}
		if(track && s.store >= 0 && (c == 'w' || c == 'u')) {
			bool down = downEnd(l, s.store) == to;
			EndPoint& peer = k.end[from];
			// Down: valid once welcomed. Up: valid when the sender was welcomed by our last Welcome.
			bool valid = down ? me.wIn[s.store] > 0 && me.wIn[s.store] == peer.wOut[s.store]
					  : s.session > 0 && s.session == me.wOut[s.store];
			if(valid) {
				ctx.nontrivial = true;
				u64 h = hashSide(n, l, from, s.store);
				if(h != s.hash && !(prop == 11 && exposed[(size_t)s.store]))
					ctx.fail("snapshot", "node %d, store %d: contents after a '%c' message over link %d are not what the sender had", n,
						s.store, c, l);
			}
		}
		checkOwn(n);
	}

	// One end was set up again and reuses ids, and the other end does not know that yet. An update may be
	// taken as one of another store, until both ends are reset.
	bool restored = false;
	bool confused(bool ever = false) const
	{
		if(restored && !ever)
			return false;
		for(auto& l : links)
			if(l->renewed)
				return true;
		return false;
	}

	// Parts of an update of another store are remembered by the journal as if these are variables. This
	// cannot be undone; the variables around it are sent along from then on.
	bool polluted = false;
	void checkPolluted(int n, int s, std::string const& m)
	{
		IStore& st = *nodes[(size_t)n].stores[(size_t)s];
		size_t ks = keySizeOf(st.size()), i = 3;
		while(i + 2 * ks <= m.size()) {
			size_t key = (size_t)number(m.data() + i, ks), len = (size_t)number(m.data() + i + ks, ks);
			bool found = false;
			for(auto const& v : st.vars)
				found |= v.key == key && len <= v.len + (v.str ? 1U : 0U);
			if(!found) {
				polluted = true;
				return;
			}
			i += 2 * ks + len;
		}
	}

	// A node's own variables are only changed by the node itself, once synchronised.
	void checkOwn(int n)
	{
		if(prop == 11 || confused() || polluted)
			return;
		for(size_t s = 0; s < types.size(); s++)
			for(auto& x : nodes[(size_t)n].last[s])
				if(value(n, (int)s, x.first) != x.second) {
					ctx.fail("overwritten", "node %d, store %d: variable %s, which only this node writes, is changed by a message", n, (int)s,
						nodes[(size_t)n].stores[s]->vars[x.first].name.c_str());
					return;
				}
	}

	// --- P25: what the application is told

	std::vector<int> receiving; // per node: depth
	std::map<std::pair<int, int>, int> told;

	void snapshot(int n, int only = -1)
	{
		for(size_t s = 0; s < types.size(); s++) {
			auto& st = nodes[(size_t)n].stores[s];
			if(!st || (only >= 0 && only != (int)s))
				continue;
			st->shadow.assign(st->buffer(), st->size());
			st->notes.clear();
			st->signalled.clear();
		}
	}

	void checkPaired(IStore& st, int n, int s)
	{
		if(!st.unpaired.empty())
			ctx.fail("notify-unpaired", "node %d, store %d: %s", n, s, st.unpaired.c_str());
		else if(!st.entered.empty())
			ctx.fail("notify-unpaired", "node %d, store %d: access is given but not released", n, s);
	}

	// The full contents are about to be copied.
	void checkAccess(int n, void const* buffer, size_t len)
	{
		for(size_t s = 0; s < types.size(); s++) {
			auto& st = nodes[(size_t)n].stores[s];
			if(!st || !st->locks || !len || (char const*)buffer < st->buffer() || (char const*)buffer >= st->buffer() + st->size())
				continue;
			for(auto const& v : st->vars)
				if(std::find_if(st->entered.begin(), st->entered.end(), [&](std::pair<void*, std::pair<size_t, bool>> const& e) {
					   return e.first == (void*)(st->buffer() + v.key);
				   }) == st->entered.end()) {
					ctx.fail("notify-access", "node %d, store %d: variable %s is sent without access to it", n, (int)s, v.name.c_str());
					return;
				}
			ctx.probe("sent-in-full");
		}
	}

	void checkNotified(int n, std::string const& m, bool precise, int store)
	{
		char c = cmdOf(m);
		for(size_t s = 0; s < types.size() && !ctx.failed; s++) {
			auto& st = nodes[(size_t)n].stores[s];
			if(!st)
				continue;
			checkPaired(*st, n, (int)s);
			if(!st->notifies)
				continue;
			std::map<size_t, size_t> keys;
			if(c == 'u' && store == (int)s) {
				size_t ks = keySizeOf(st->size()), i = 3;
				while(i + 2 * ks <= m.size()) {
					keys[(size_t)number(m.data() + i, ks)] = (size_t)number(m.data() + i + ks, ks);
					i += 2 * ks + (size_t)number(m.data() + i + ks, ks);
				}
			}
			std::map<int, int> cnt;
			for(auto const& x : st->notes) {
				if(x.var < 0 && precise) {
					ctx.fail("notify-unknown", "node %d, store %d: something changed that is not a variable", n, (int)s);
					return;
				}
				cnt[x.var]++;
				if(precise && c == 'u' && x.var >= 0 && x.len) {
					auto it = keys.find(st->vars[(size_t)x.var].key);
					if(it != keys.end() && it->second != x.len) {
						ctx.fail("notify-length", "node %d, store %d: %d bytes of variable %s are notified, while %d are received", n, (int)s,
							(int)x.len, st->vars[(size_t)x.var].name.c_str(), (int)it->second);
						return;
					}
				}
			}
			for(size_t v = 0; v < st->vars.size(); v++) {
				if(st->only && st->vars[v].name != st->only)
					continue;
				int k = cnt.count((int)v) ? cnt[(int)v] : 0;
				// An update of another store may be applied to parts of variables, and the journals remember
				// such parts.
				if(st->get(v) != st->shadowed(v) && !confused(true)) {
					ctx.probe("changed-by-message");
					ctx.nontrivial = true;
					auto it = std::find(st->notes.rbegin(), st->notes.rend(), Note{(int)v, 0, ""});
					if(!k)
						ctx.fail("notify-missed", "node %d, store %d: variable %s is changed by a '%c' message, without being notified", n, (int)s,
							st->vars[v].name.c_str(), c);
					else if(it->value != st->get(v))
						ctx.fail("notify-early", "node %d, store %d: the new value of variable %s is not there when notified", n, (int)s,
							st->vars[v].name.c_str());
				}
				if(precise && k > 1)
					ctx.fail("notify-twice", "node %d, store %d: variable %s is notified %d times for one message", n, (int)s, st->vars[v].name.c_str(),
						k);
				if(precise && k && !(store == (int)s && (c == 'w' || keys.count(st->vars[v].key))))
					ctx.fail("notify-other", "node %d, store %d: variable %s is notified while it is not in the '%c' message", n, (int)s,
						st->vars[v].name.c_str(), c);
			}
		}
	}

	void checkWritten(int n, int s, size_t v)
	{
		IStore& st = *nodes[(size_t)n].stores[(size_t)s];
		checkPaired(st, n, s);
		if(st.vars[v].str && confused(true))
			return; // the string may have been overwritten by data of another store
		bool changed = st.get(v) != st.shadowed(v);
		if(st.notifiesLocal && (!st.only || st.vars[v].name == st.only)) {
			if(changed ? st.notes.size() != 1 || st.notes[0].var != (int)v || st.notes[0].value != st.get(v) : !st.notes.empty())
				ctx.fail("notify-write", "node %d, store %d: writing variable %s (%schanged) gives %d notifications", n, s, st.vars[v].name.c_str(),
					changed ? "" : "un", (int)st.notes.size());
		}
		if(st.signals) {
			if(changed ? st.signalled.size() != 1 || st.signalled[0] != (int)v : !st.signalled.empty())
				ctx.fail("notify-signal", "node %d, store %d: writing variable %s (%schanged) gives %d signals", n, s, st.vars[v].name.c_str(),
					changed ? "" : "un", (int)st.signalled.size());
		}
	}

	std::vector<std::string> before;
	std::string beforeMsg;
	void beforeAttack(std::string const& m)
	{
		if(cmdOf(m) == 'h') {
			size_t z = m.find('\0', 1);
			if(z != std::string::npos && m.size() >= z + 3) {
				int s = storeByHash(m.substr(1, z - 1));
				if(s >= 0)
					exposed[(size_t)s] = true;
			}
		}
		before.clear();
		Node& v = nodes[(size_t)attackVictim()];
		for(size_t s = 0; s < types.size(); s++)
			before.push_back(!v.stores[s] ? std::string() : std::string(v.stores[s]->buffer(), v.stores[s]->size()));
	}
	void afterAttack(std::string const& m)
	{
		Node& v = nodes[(size_t)attackVictim()];
		if(cmdOf(m) == 'w')
			for(size_t s = 0; s < types.size(); s++)
				if(v.stores[s] && !links[(size_t)attackLink]->synced.count((int)s) &&
				   before[s] != std::string(v.stores[s]->buffer(), v.stores[s]->size()))
					ctx.fail("wrong-direction", "store %d is replaced by a peer that is not the source", (int)s);
		for(size_t s = 0; s < types.size(); s++)
			if(v.stores[s] && !exposed[s] && before[s] != std::string(v.stores[s]->buffer(), v.stores[s]->size()))
				ctx.fail("unrelated-store", "store %d has no session on the link but is modified", (int)s);
		for(size_t s = 0; s < types.size(); s++)
			if(v.stores[s] && v.stores[s]->outside())
				ctx.fail("outside", "store %d: a hook was called for memory outside of the store", (int)s);
	}

	bool wPending(int l, int s)
	{
		Link& k = *links[(size_t)l];
		int d = downEnd(l, s);
		return k.end[d].wIn[s] == 0 || k.end[d].wIn[s] != k.end[1 - d].wOut[s];
	}

	// May node n write to store s? Only when all links up to the root are in sync.
	bool writable(int n, int s)
	{
		if(n == root[(size_t)s])
			return true;
		for(size_t i = 0; i < links.size(); i++) {
			if(!carries((int)i, s))
				continue;
			// On the path from n to the root?
			if(reach(n, root[(size_t)s], (int)i))
				continue;
			if(wPending((int)i, s))
				return false;
		}
		return true;
	}

	void setMark(int l, int e, int s)
	{
		auto& st = nodes[(size_t)links[(size_t)l]->node[e]].stores[(size_t)s];
		if(st)
			links[(size_t)l]->end[e].mark[s] = st->journal().seq();
	}

	// How many sequence numbers may pass, such that the journal still knows what is to be sent over every link?
	// Beyond that, it is documented to send more than required.
	i64 room(int n, int s)
	{
		i64 r = 30000;
		i64 seq = (i64)nodes[(size_t)n].stores[(size_t)s]->journal().seq();
		for(auto& l : links)
			for(int e = 0; e < 2; e++)
				if(l->node[e] == n && (l->end[e].wIn[s] || l->end[e].wOut[s]))
					r = std::min(r, 30000 - (seq - (i64)l->end[e].mark[s]));
		return std::max<i64>(0, r);
	}

	// Node n did not exchange contents of store s yet.
	bool unconnected(int n, int s)
	{
		for(size_t i = 0; i < links.size(); i++)
			if(carries((int)i, s))
				for(int e = 0; e < 2; e++)
					if(links[i]->node[e] == n && (links[i]->end[e].wIn[s] || links[i]->end[e].wOut[s]))
						return false;
		return true;
	}

	void write(int n, int s, size_t var, i64 style)
	{
		Node& x = nodes[(size_t)n];
		if(!x.stores[(size_t)s])
			return;
		IStore& st = *x.stores[(size_t)s];
		if(st.vars.empty())
			return;
		var %= st.vars.size();
		Var& v = st.vars[var];
		std::string d = content(++version, v.len + 8).substr(0, v.len);
		if(v.boolean)
			d = std::string(1, (char)(version & 1));
		if(v.str) {
			for(auto& ch : d)
				ch = (char)('a' + (unsigned char)ch % 26);
			size_t n2 = (size_t)(style / 4) % (v.len + 1);
			d = d.substr(0, n2);
			if(style % 4 == 1)
				d = value(n, s, var).substr(0, n2); // shorter
			else if(prop == 25 && style % 4 == 2)
				d = value(n, s, var);
		} else if(v.blob && style % 4 == 1) {
			// Partial write of a blob.
			size_t n2 = (size_t)(style / 4) % (v.len + 1);
			d = d.substr(0, n2);
			if(d.empty())
				return;
		} else if(style % 4 == 2)
			d = value(n, s, var); // same value
		if(prop == 25)
			snapshot(n, s);
		st.set(var, d);
		if(prop == 25)
			checkWritten(n, s, var);
		if(value(n, s, var).substr(0, v.str ? v.len : d.size()) != d && !(v.str && confused(true)))
			ctx.fail(prop == 25 ? "notify-write" : "write", "node %d, store %d: variable %s does not have the value that was just written", n, s, v.name.c_str());
		x.last[(size_t)s][var] = value(n, s, var);
		ctx.log("w %d %d %d", n, s, (int)var);
	}

	bool deliver(int l, int d)
	{
		Link& k = *links[(size_t)l];
		if(k.line[d].empty())
			return false;
		std::string f = k.line[d].front();
		k.line[d].pop_front();
		ctx.log("dl %d %d %d %02x", l, d, (int)f.size(), f.empty() ? 0 : (unsigned char)f[0]);
		char* b = (char*)arenaAlloc(f.size() + 3);
		size_t off = (size_t)(version % 4) % 4; // any alignment
		memcpy(b + off % 4, f.data(), f.size());
		k.end[1 - d].wire->decode(b + off % 4, f.size());
		arenaFree(b, f.size() + 3);
		return true;
	}

	bool drop(int l, int d)
	{
		Link& k = *links[(size_t)l];
		if(k.line[d].empty())
			return false;
		if(!k.lossy) {
			if(!faulty || finishing || (k.mtu && !k.arq))
				return false;
			k.disturbed = true;
		}
		k.line[d].pop_front();
		ctx.fault("lost-frame");
		ctx.log("drop %d %d", l, d);
		return true;
	}

	int depth = 0;
	void process(int n, i64 mode, i64 sel)
	{
		Node& x = nodes[(size_t)n];
		std::vector<int> mine;
		for(size_t i = 0; i < links.size(); i++)
			for(int e = 0; e < 2; e++)
				if(links[i]->node[e] == n && links[i]->end[e].connected)
					mine.push_back((int)i * 2 + e);
		std::vector<int> st;
		for(size_t s = 0; s < types.size(); s++)
			if(x.stores[s] && x.mapped[s])
				st.push_back((int)s);
		ctx.log("p %d %d", n, (int)mode);
		if(mode % 4 == 0 || mine.empty() || st.empty()) {
			x.sync->process();
			for(int m : mine)
				for(int s : st)
					setMark(m / 2, m % 2, s);
		} else {
			int m = mine[(size_t)sel % mine.size()];
			stored::ProtocolLayer& p = *links[(size_t)m / 2]->end[m % 2].spy;
			int s = st[(size_t)(sel / 7) % st.size()];
			if(mode % 4 == 1)
				x.sync->process(p);
			else if(mode % 4 == 2)
				x.sync->process(x.stores[(size_t)s]->journal());
			else
				x.sync->process(p, x.stores[(size_t)s]->journal());
			for(int m2 : mine)
				for(int s2 : st)
					if((mode % 4 == 2 || m2 == m) && (mode % 4 == 1 || s2 == s))
						setMark(m2 / 2, m2 % 2, s2);
		}
	}

	void resetLink(int l, int e)
	{
		Link& k = *links[(size_t)l];
		if(!k.end[e].connected)
			return;
		k.disturbed = true;
		k.end[e].spy->up()->reset();
	}

	void restart(int n, bool crash, bool keepFrames)
	{
		for(auto& l : links)
			for(int e = 0; e < 2; e++)
				if(l->node[e] == n) {
					l->disturbed = l->renewed = true;
					l->end[e].wire->cut = crash;
				}
		Node& x = nodes[(size_t)n];
		x.sync.reset();
		x.stores.clear();
		boot(n);
		for(size_t i = 0; i < links.size(); i++)
			for(int e = 0; e < 2; e++)
				if(links[i]->node[e] == n) {
					makeEnd((int)i, e);
					links[i]->end[e].connected = false;
					if(!keepFrames || links[i]->arq) {
						links[i]->line[0].clear();
						links[i]->line[1].clear();
					}
				}
	}

	// --- steps

	Op gen(Rng& rng) override
	{
		int nl = (int)links.size();
		std::vector<i64> w = {cfg.get("w_write"), cfg.get("w_proc"), cfg.get("w_dl"), cfg.get("w_drop"), cfg.get("w_tick"), cfg.get("w_sync"),
			cfg.get("w_drain"), cfg.get("w_fault"), cfg.get("w_attack"), cfg.get("w_adv")};
		switch(rng.weighted(w)) {
		default:
		case 0: {
			int s = (int)rng.below(types.size());
			return Op("write", {rng.chance(300) ? root[(size_t)s] : (i64)rng.below(nodes.size()), s, (i64)rng.below(64), (i64)rng.below(4000)});
		}
		case 1: return Op("proc", {(i64)rng.below(nodes.size()), (i64)rng.below(4), (i64)rng.below(64)});
		case 2: return Op("dl", {(i64)rng.below((u64)nl), (i64)rng.below(2), (i64)(rng.chance(300) ? rng.below(6) : 1)});
		case 3: return Op("drop", {(i64)rng.below((u64)nl), (i64)rng.below(2)});
		case 4: return Op("tick", {(i64)rng.below((u64)nl), (i64)rng.below(2)});
		case 5: return Op("sync", {(i64)rng.below((u64)nl), (i64)rng.below(types.size())});
		case 6: return Op("drain", {(i64)rng.below(3)});
		case 7: {
			int v = (int)cfg.get("victim") % nl;
			int l = rng.chance(cfg.get("focus")) ? v : (int)rng.below((u64)nl);
			static char const* const kinds[] = {"disc", "conn", "reset", "restart", "unmap", "cut"};
			std::vector<i64> fw = {cfg.get("f_disc"), cfg.get("f_conn"), cfg.get("f_reset"), cfg.get("f_restart"), cfg.get("f_unmap"), cfg.get("f_cut")};
			size_t k = rng.weighted(fw);
			return Op(kinds[k], {l, (i64)rng.below(2), (i64)rng.below(4), (i64)rng.below(types.size())});
		}
		case 8: return Op("attack", {(i64)rng.below(16), (i64)rng.below(1 << 30), (i64)rng.below(1 << 30)});
		case 9: {
			int s = (int)rng.below(types.size());
			return Op("adv", {(i64)rng.below(nodes.size()), s, rng.range(100, 40000)});
		}
		}
	}

	void exec(Op const& op) override
	{
		int nl = (int)links.size();
		int l = (int)((u64)op.arg(0) % (u64)nl);
		int e = (int)((u64)op.arg(1) & 1);
		if(op.is("write")) {
			int n = (int)((u64)op.arg(0) % nodes.size());
			int s = (int)((u64)op.arg(1) % types.size());
			IStore* st = nodes[(size_t)n].stores[(size_t)s].get();
			if(!st)
				return;
			// The n-th variable of this node.
			std::vector<size_t> mine;
			for(size_t v = 0; v < st->vars.size(); v++)
				if(writer[(size_t)s][v] == n)
					mine.push_back(v);
			if(!faulty && prop != 11 && !writable(n, s)) {
				if(advanced || !unconnected(n, s) || st->vars.empty())
					return;
				early = true;
				// Any variable may have got any value before the store is synchronised.
				size_t v = (size_t)op.arg(2) % st->vars.size();
				write(n, s, v, op.arg(3));
				nodes[(size_t)n].last[(size_t)s].erase(v);
				ctx.probe("write-before-synchronised");
				return;
			}
			if(mine.empty())
				return;
			write(n, s, mine[(size_t)op.arg(2) % mine.size()], op.arg(3));
		} else if(op.is("adv")) {
			// Many sequence numbers pass.
			int n = (int)((u64)op.arg(0) % nodes.size());
			int s = (int)((u64)op.arg(1) % types.size());
			Node& x = nodes[(size_t)n];
			if(!x.stores[(size_t)s] || (!faulty && !writable(n, s)))
				return;
			std::vector<size_t> mine;
			for(size_t v = 0; v < x.stores[(size_t)s]->vars.size(); v++)
				if(writer[(size_t)s][v] == n)
					mine.push_back(v);
			if(mine.empty())
				return;
			i64 cnt = std::min<i64>(op.arg(2), 70000);
			if(!faulty && prop != 11 && (early || !cfg.get("rootwrites")))
				cnt = std::min(cnt, room(n, s));
			else
				advanced = true;
			for(i64 i = 0; i < cnt; i++) {
				x.stores[(size_t)s]->journal().changed(
					(stored::StoreJournal::Key)x.stores[(size_t)s]->vars[mine[0]].key, x.stores[(size_t)s]->vars[mine[0]].len);
				x.stores[(size_t)s]->journal().bumpSeq();
			}
			ctx.probe("many-sequence-numbers");
		} else if(op.is("proc"))
			process((int)((u64)op.arg(0) % nodes.size()), op.arg(1), op.arg(2));
		else if(op.is("dl")) {
			for(i64 i = 0; i < std::min<i64>(8, std::max<i64>(1, op.arg(2))) && !ctx.failed; i++)
				if(!deliver(l, e))
					break;
		} else if(op.is("drop"))
			drop(l, e);
		else if(op.is("tick")) {
			if(links[(size_t)l]->arq && !links[(size_t)l]->end[e].wire->cut) {
				// Keep the line from filling up with retransmits.
				if(links[(size_t)l]->line[e].empty() && links[(size_t)l]->line[1 - e].empty()) {
					ctx.fault("retransmit");
					links[(size_t)l]->end[e].arq->flush();
				}
			}
		} else if(op.is("sync"))
			syncFrom(l, (int)((u64)op.arg(1) % types.size()));
		else if(op.is("drain")) {
			for(int i = 0; i < 200 && !ctx.failed; i++) {
				bool any = false;
				for(int k = 0; k < nl; k++)
					for(int d = 0; d < 2; d++)
						if(deliver(k, d))
							any = true;
				if(op.arg(0) == 0)
					for(size_t n = 0; n < nodes.size(); n++)
						nodes[n].sync->process();
				if(!any)
					break;
			}
		} else if(faulty && op.is("disc")) {
			ctx.fault("disconnect");
			disconnect(l, e);
		} else if(faulty && op.is("conn")) {
			if(!links[(size_t)l]->end[e].connected) {
				ctx.fault("reconnect");
				connect(l, e);
				if(op.arg(2))
					syncAll(l, e);
			}
		} else if(faulty && op.is("reset")) {
			ctx.fault("link-reset");
			resetLink(l, e);
		} else if(faulty && op.is("restart")) {
			ctx.fault(op.arg(2) & 1 ? "node-crash-restart" : "node-restart");
			int n = links[(size_t)l]->node[e];
			restart(n, op.arg(2) & 1, op.arg(2) & 2);
			for(size_t i = 0; i < links.size(); i++)
				for(int k = 0; k < 2; k++)
					if(links[i]->node[k] == n && (op.arg(3) || i % 2)) {
						connect((int)i, k);
						syncAll((int)i, k);
					}
		} else if(faulty && op.is("unmap")) {
			int n = links[(size_t)l]->node[e];
			int s = (int)((u64)op.arg(3) % types.size());
			if(nodes[(size_t)n].stores[(size_t)s]) {
				for(auto& k : links)
					if(k->node[0] == n || k->node[1] == n)
						k->disturbed = true;
				ctx.fault("unmap-remap");
				if(nodes[(size_t)n].mapped[(size_t)s])
					nodes[(size_t)n].stores[(size_t)s]->unmap(*nodes[(size_t)n].sync);
				else
					mapAgain(n, s);
				nodes[(size_t)n].mapped[(size_t)s] = !nodes[(size_t)n].mapped[(size_t)s];
			}
		} else if(faulty && op.is("cut")) {
			if(links[(size_t)l]->arq || links[(size_t)l]->mtu)
				return; // a lost fragment would go undetected
			ctx.fault("line-cut");
			links[(size_t)l]->disturbed = true;
			links[(size_t)l]->line[e].clear();
		} else if(op.is("attack"))
			attack(op);
	}

	void mapAgain(int n, int s)
	{
		nodes[(size_t)n].stores[(size_t)s]->map(*nodes[(size_t)n].sync);
		for(size_t i = 0; i < links.size(); i++)
			for(int e = 0; e < 2; e++)
				if(links[i]->node[e] == n && carries((int)i, s) && downEnd((int)i, s) == e && links[i]->end[e].connected)
					nodes[(size_t)n].stores[(size_t)s]->syncFrom(*nodes[(size_t)n].sync, *links[i]->end[e].spy);
	}

	void syncAll(int l, int e)
	{
		for(size_t s = 0; s < types.size(); s++)
			if(carries(l, (int)s) && downEnd(l, (int)s) == e)
				syncFrom(l, (int)s);
	}

	void attack(Op const& op)
	{
		if(attackLink < 0)
			return;
		Link& k = *links[(size_t)attackLink];
		if(finishing)
			return;
		Rng r(mix((u64)op.arg(1), (u64)op.arg(2)));
		ctx.fault("hostile-message");
		auto id = [&]() { return numberEncode(r.chance(850) ? r.below(6) : r.below(65536), 2); };
		int s = (int)r.below(types.size());
		IStore* st = nodes[(size_t)attackVictim()].stores[(size_t)s].get();
		std::string hash = st ? st->journal().hash() : "nope";
		size_t size = st ? st->size() : 100;
		size_t ks = keySizeOf(size);
		auto edge = [&](u64 around) -> u64 {
			static i64 const d[] = {-2, -1, 0, 1, 2, 8};
			switch(r.below(6)) {
			case 0: return (u64)((i64)around + d[r.below(6)]);
			case 1: return r.below(size);
			case 2: return ks == 1 ? 255 : ks == 2 ? 65535 : 0xffffffffu;
			case 3: return r.below(8);
			case 4: return st && !st->vars.empty() ? st->vars[r.below(st->vars.size())].key : 0;
			default: return ks == 4 ? 0xffffffffu - r.below(300) : r.below(ks == 1 ? 256 : 65536);
			}
		};
		std::string m;
		switch(op.arg(0) % 16) {
		case 0: m = std::string(1, cmdEnc('h')) + hash + std::string(1, 0) + id(); break;
		case 1: m = std::string(1, cmdEnc('h')) + hash.substr(0, r.below(hash.size() + 1)); break;
		case 2: m = std::string(1, cmdEnc('w')) + id() + id() + content(r.next(), r.chance(500) ? size : r.below(size + 10)); break;
		case 3: m = std::string(1, cmdEnc('b')); break;
		case 4: m = std::string(1, cmdEnc('b')) + id(); break;
		case 5: m = std::string(1, cmdEnc('b')) + hash + (r.chance(700) ? std::string(1, 0) : std::string()); break;
		case 6: case 7: case 8: case 9: case 10: {
			m = std::string(1, cmdEnc('u')) + id();
			int cnt = (int)r.range(0, r.chance(200) ? 40 : 4);
			for(int i = 0; i < cnt; i++) {
				u64 key = edge(size);
				u64 len = r.chance(400) ? r.below(std::min<size_t>(size, 64) + 1) : key < size && r.chance(500) ? size - key : edge(size - std::min<u64>(key, size));
				m += numberEncode(key, ks) + numberEncode(len, ks);
				u64 have = r.chance(850) ? len : r.below(len + 1);
				m += content(r.next(), (size_t)std::min<u64>(have, 200000));
				if(m.size() > 300000)
					break;
			}
			break;
		}
		case 11: m = content(r.next(), r.below(40)); break;
		case 12: m = ""; break;
		default:
			// Mutation of something that was sent before.
			if(captured.empty())
				return;
			m = captured[r.below(captured.size())];
			mutate(m, r);
		}
		k.line[1].push_back(m);
		while(!k.line[1].empty() && op.arg(1) % 3)
			deliver(attackLink, 1);
	}

	static void mutate(std::string& m, Rng& r)
	{
		int n = (int)r.range(0, 3);
		for(int i = 0; i < n && !m.empty(); i++)
			switch(r.below(5)) {
			case 0: m[r.below(m.size())] = (char)r.below(256); break;
			case 1: m[r.below(m.size())] ^= (char)(1 << r.below(8)); break;
			case 2: m.resize(r.below(m.size() + 1)); break;
			case 3: m.insert(r.below(m.size() + 1), content(r.next(), r.below(6))); break;
			case 4: m.erase(r.below(m.size()), r.below(4)); break;
			}
	}

	// All links have nothing to do anymore.
	bool quiesce(char const* what)
	{
		for(int i = 0; i < 400 + 10 * (int)nodes.size() && !ctx.failed; i++) {
			bool any = false;
			u64 before = messages;
			for(size_t n = 0; n < nodes.size(); n++)
				nodes[n].sync->process();
			for(size_t k = 0; k < links.size(); k++)
				for(int x = 0; x < 20000; x++) {
					bool a = deliver((int)k, 0);
					bool b = deliver((int)k, 1);
					if(!a && !b)
						break;
					any = true;
				}
			// Retransmits
			for(auto& k : links)
				for(int d = 0; d < 2; d++)
					if(k->arq && k->line[0].empty() && k->line[1].empty() && k->end[d].arq->waitingForAck()) {
						ctx.log("retransmit %d", d);
						if(!k->end[d].arq->flush())
							any = true;
					}
			if(!any && messages == before)
				return true;
		}
		if(!ctx.failed)
			ctx.fail("no-quiescence", "%s: the links keep exchanging messages", what);
		return false;
	}

	void checkEqual(char const* what, bool all = false)
	{
		for(size_t s = 0; s < types.size() && !ctx.failed; s++)
			for(size_t n = 0; n < nodes.size() && !ctx.failed; n++) {
				if(!member[s][n])
					continue;
				// Hostile updates make a node send variables of others, so these are not single-writer
				// anymore until all are written again, one at a time.
				if(prop == 11 && exposed[s] && !all)
					continue;
				int ref = prop == 11 ? attackVictim() : root[s];
				if(!trusted((int)n) || !member[s][(size_t)ref])
					continue;
				for(size_t v = 0; v < writer[s].size(); v++)
					if(value((int)n, (int)s, v) != value(ref, (int)s, v)) {
						ctx.fail("diverged", "%s: variable %s of store %d differs between node %d and node %d", what,
							nodes[n].stores[s]->vars[v].name.c_str(), (int)s, (int)n, ref);
						break;
					}
			}
	}

	void finish() override
	{
		finishing = true;
		if(prop == 11)
			links[(size_t)attackLink]->line[0].clear();
		if(faulty) {
			// Everything is put up again.
			Rng r(mix((u64)cfg.get("layout"), 99));
			for(size_t n = 0; n < nodes.size(); n++)
				for(size_t s = 0; s < types.size(); s++)
					if(nodes[n].stores[s] && !nodes[n].mapped[s]) {
						nodes[n].mapped[s] = true;
						mapAgain((int)n, (int)s);
					}
			for(size_t l = 0; l < links.size(); l++)
				for(int e = 0; e < 2; e++)
					if(!links[l]->end[e].connected)
						connect((int)l, e);
			for(size_t l = 0; l < links.size(); l++)
				for(int e = 0; e < 2; e++)
					links[l]->end[e].wire->cut = false;
			if(!cfg.get("latefinish") && !quiesce("before the links are restored"))
				return;
			for(size_t l = 0; l < links.size(); l++) {
				bool early = r.chance(500);
				// Frames of the previous connection are lost.
				if(links[l]->disturbed) {
					links[l]->line[0].clear();
					links[l]->line[1].clear();
				}
				if(early) {
					syncAll((int)l, 0);
					syncAll((int)l, 1);
				}
				if(links[l]->disturbed) {
					// Both ends notice that the connection has been set up again; one may be enough.
					int e = (int)r.below(2);
					resetLink((int)l, e);
					if(links[l]->mtu || links[l]->renewed || r.chance(300)) {
						if(links[l]->renewed || r.chance(500)) {
							links[l]->line[0].clear();
							links[l]->line[1].clear();
							resetLink((int)l, 1 - e);
							resetLink((int)l, e);
						} else
							resetLink((int)l, 1 - e);
					}
				}
				syncAll((int)l, 0);
				syncAll((int)l, 1);
			}
			if(confused())
				for(auto& n : nodes)
					for(auto& x : n.last)
						x.clear();
			restored = true;
		} else
			for(size_t l = 0; l < links.size(); l++)
				for(size_t s = 0; s < types.size(); s++)
					if(prop != 11 || (int)l != attackLink)
						syncFrom((int)l, (int)s);
		if(!quiesce("after the faults stopped"))
			return;
		if(polluted) {
			ctx.probe("polluted");
			return;
		}
		checkEqual("after the faults stopped");
		if(ctx.failed)
			return;
		// New changes get everywhere.
		for(size_t s = 0; s < types.size(); s++)
			for(size_t v = 0; v < writer[s].size(); v++)
				if(cfg.get("layout") % 3 != (i64)v % 3 && trusted(writer[s][v]))
					write(writer[s][v], (int)s, v, 4 * (i64)(v + 3));
		if(!quiesce("after the last writes"))
			return;
		if(polluted) {
			ctx.probe("polluted");
			return;
		}
		checkEqual("after the last writes");
		if(prop == 11 && !ctx.failed) {
			for(size_t s = 0; s < types.size(); s++)
				if(exposed[s] && member[s][(size_t)attackVictim()])
					for(size_t v = 0; v < writer[s].size(); v++) {
						int n = trusted(writer[s][v]) ? writer[s][v] : attackVictim();
						// At least one of these changes the value.
						write(n, (int)s, v, 4 * (i64)(v + 4));
						write(n, (int)s, v, 4 * (i64)(v + 5));
						if(!quiesce("after a write"))
							return;
					}
			checkEqual("after all is written again", true);
		}
		for(size_t n = 0; n < nodes.size() && !ctx.failed; n++)
			checkOwn((int)n);
		if(ctx.failed)
			return;
		expectSilence = 1;
		for(size_t n = 0; n < nodes.size(); n++)
			nodes[n].sync->process();
		expectSilence = 0;
		if(messages > 3)
			ctx.nontrivial = true;
	}
};

void Spy::encode(void const* buffer, size_t len, bool last)
{
	if(w.prop == 25)
		w.checkAccess(w.links[(size_t)link]->node[end], buffer, len);
	partial.append((char const*)buffer, len);
	if(last) {
		std::string m;
		m.swap(partial);
		if(w.prop == 11 && w.captured.size() < 40 && m.size() < 3000)
			w.captured.push_back(m);
		w.onSend(link, end, m);
	}
	stored::ProtocolLayer::encode(buffer, len, last);
}

void Spy::decode(void* buffer, size_t len)
{
	w.onReceive(*this, buffer, len);
}

void Wire::encode(void const* buffer, size_t len, bool last)
{
	if(cut)
		return;
	partial.append((char const*)buffer, len);
	if(!last)
		return;
	std::string f;
	f.swap(partial);
	if(link == w.attackLink && w.links[(size_t)link]->node[end] != w.attackVictim()) {
		// The hostile node's own messages get damaged.
		Rng r(mix(w.messages, w.version));
		if(r.chance(300) && !w.finishing) {
			SyncWorld::mutate(f, r);
			w.ctx.fault("damaged-message");
		}
	}
	Link& k = *w.links[(size_t)link];
	if(k.line[end].size() < 100000)
		k.line[end].push_back(f);
	if(k.direct && k.end[0].wire && k.end[1].wire && k.end[0].spy->up() && k.end[1].spy->up())
		while(w.deliver(link, end))
			;
}

// --- P12

class Journal : public stored::StoreJournal {
public:
	using stored::StoreJournal::StoreJournal;
};

class JournalWorld : public World {
public:
	std::unique_ptr<Journal> j;
	char* buf;
	size_t size;
	struct Entry {
		u64 seq, len;
	};
	std::map<u64, Entry> model;
	u64 seq = 1;
	bool partial = false;
	u64 cleaned = 0; // entries below this may be gone
	u64 anyMax = 0;	 // highest seq ever touched
	std::vector<u64> pool;

	JournalWorld(Ctx& c, Config const& cfg) : World(c, cfg)
	{
		size = (size_t)std::max<i64>(8, std::min<i64>(cfg.get("size"), 100000));
		buf = (char*)arenaAlloc(size);
		memset(buf, 0, size);
		j.reset(new Journal("0123456789", buf, size));
		Rng r(mix((u64)cfg.get("layout"), 5));
		i64 n = std::max<i64>(1, std::min<i64>(cfg.get("keys"), 200));
		for(i64 i = 0; i < n; i++)
			pool.push_back(r.below(size));
		std::sort(pool.begin(), pool.end());
		pool.erase(std::unique(pool.begin(), pool.end()), pool.end());
	}
	~JournalWorld()
	{
		j.reset();
		arenaFree(buf, size);
	}

	u64 key(i64 i) const { return pool[(size_t)((u64)i % pool.size())]; }

	void changed(u64 k, u64 len, bool insert)
	{
		len = std::min<u64>(len, size - k);
		j->changed((stored::StoreJournal::Key)k, (size_t)len, insert);
		partial = true;
		if(insert || model.count(k)) {
			Entry& e = model[k];
			e.seq = seq;
			e.len = len;
		} else
			forgotten.insert(k);
		anyMax = seq;
	}
	std::set<u64> forgotten; // changed without being recorded
	std::set<u64> maybe;	 // cleaned in the model, but possibly still around

	void bump()
	{
		if(partial)
			seq++;
		partial = false;
		u64 s = j->bumpSeq();
		if(s != seq)
			ctx.fail("seq", "sequence number %llu, expected %llu", (unsigned long long)s, (unsigned long long)seq);
	}

	static u64 const W = 65536;

	void query(u64 since)
	{
		if(since > seq + 1)
			since = seq + 1;
		bool exactAge = since + W / 2 > seq;
		bool must = false;
		std::map<u64, int> got;
		j->iterateChanged(since, [&](stored::StoreJournal::Key k) { got[k]++; });
		u64 prev = 0;
		bool first = true;
		(void)prev;
		(void)first;
		for(auto& m : model) {
			bool is = m.second.seq >= since;
			bool has = j->hasChanged((stored::StoreJournal::Key)m.first, since);
			if(is && (since >= cleaned || m.second.seq >= cleaned)) {
				must = true;
				if(!has || !got.count(m.first)) {
					ctx.fail("missed", "change of key %llu at %llu (now %llu) is not reported since %llu", (unsigned long long)m.first,
						(unsigned long long)m.second.seq, (unsigned long long)seq, (unsigned long long)since);
					return;
				}
			} else if(!is && exactAge && (has || got.count(m.first))) {
				ctx.fail("resurrected", "key %llu, changed at %llu (now %llu), is reported as changed since %llu", (unsigned long long)m.first,
					(unsigned long long)m.second.seq, (unsigned long long)seq, (unsigned long long)since);
				return;
			}
		}
		for(auto& g : got) {
			if(g.second != 1)
				ctx.fail("twice", "key %llu is reported %d times", (unsigned long long)g.first, g.second);
			if(!model.count(g.first) && !maybe.count(g.first) && exactAge)
				ctx.fail("unknown", "key %llu is reported but was not recorded", (unsigned long long)g.first);
		}
		bool any = j->hasChanged(since);
		if(must && !any)
			ctx.fail("missed", "nothing is reported since %llu (now %llu)", (unsigned long long)since, (unsigned long long)seq);
		if(any && exactAge && !must && anyMax < since)
			ctx.fail("resurrected", "something is reported since %llu (now %llu), although nothing changed", (unsigned long long)since,
				(unsigned long long)seq);
	}

	Op gen(Rng& rng) override
	{
		switch(rng.weighted({cfg.get("w_ch"), cfg.get("w_bump"), cfg.get("w_adv"), cfg.get("w_clean"), cfg.get("w_q"), cfg.get("w_buf"), cfg.get("w_upd")})) {
		default:
		case 0: return Op("ch", {(i64)rng.below(256), rng.range(0, 40), rng.chance(cfg.get("noinsert")) ? 0 : 1});
		case 1: return Op("bump");
		case 2: {
			static i64 const edges[] = {16384, 32768, 49152, 65536, 81920};
			return Op("adv", {(i64)rng.below(256), rng.chance(400) ? edges[rng.below(5)] + rng.range(-3, 3) : rng.range(1, rng.chance(500) ? 300 : 70000)});
		}
		case 3: return Op("clean", {rng.chance(400) ? 0 : rng.range(1, 70000)});
		case 4: return Op("q", {rng.range(0, 9), (i64)rng.below(100000)});
		case 5: return Op("buf");
		case 6: return Op("upd", {(i64)rng.below(256), rng.range(0, 9), (i64)rng.below(2), (i64)rng.below(256)});
		}
	}

	void exec(Op const& op) override
	{
		if(op.is("ch"))
			changed(key(op.arg(0)), (u64)std::min<i64>(40, op.arg(1)), op.arg(2));
		else if(op.is("bump"))
			bump();
		else if(op.is("adv")) {
			i64 n = std::min<i64>(op.arg(1), 90000);
			u64 k = key(op.arg(0));
			for(i64 i = 0; i < n && !ctx.failed; i++) {
				changed(k, 1, true);
				bump();
			}
			ctx.fault("time-passes");
		} else if(op.is("clean")) {
			ctx.fault("clean");
			u64 oldest;
			if(op.arg(0) == 0) {
				j->clean();
				oldest = seq > W / 2 ? seq - W / 2 : 0;
			} else {
				u64 back = (u64)op.arg(0);
				oldest = seq > back ? seq - back : 1;
				j->clean(oldest);
			}
			cleaned = std::max(cleaned, oldest);
			for(auto it = model.begin(); it != model.end();)
				if(it->second.seq < oldest) {
					maybe.insert(it->first);
					it = model.erase(it);
				}
				else
					++it;
		} else if(op.is("buf")) {
			std::string b = content(seq, size);
			void* p = &b[0];
			size_t n = b.size();
			u64 s = j->decodeBuffer(p, n);
			for(auto& m : model)
				m.second.seq = seq;
			anyMax = seq;
			seq++;
			partial = false;
			if(s != seq)
				ctx.fail("seq", "sequence number %llu after the full buffer, expected %llu", (unsigned long long)s, (unsigned long long)seq);
		} else if(op.is("upd")) {
			u64 k[2] = {key(op.arg(0)), key(op.arg(3))};
			size_t ks = keySizeOf(size);
			std::string m(3, 0);
			for(int i = 0; i < 2; i++) {
				u64 len = std::min<u64>((u64)std::min<i64>(40, op.arg(1)), size - k[i]);
				m += numberEncode(k[i], ks) + numberEncode(len, ks) + content(seq + (u64)i, (size_t)len);
				if(op.arg(2) || model.count(k[i])) {
					model[k[i]].seq = seq;
					model[k[i]].len = len;
				} else
					forgotten.insert(k[i]);
			}
			anyMax = seq;
			seq++;
			partial = false;
			void* p = &m[3];
			size_t n = m.size() - 3;
			u64 s = j->decodeUpdates(p, n, op.arg(2), &m[0]);
			if(s != seq)
				ctx.fail("seq", "sequence number %llu after updates, expected %llu", (unsigned long long)s, (unsigned long long)seq);
		}
		if(ctx.failed)
			return;
		u64 x = (u64)op.arg(1);
		u64 since = seq;
		if(op.is("q"))
			switch(op.arg(0)) {
			case 0: since = seq; break;
			case 1: since = seq - std::min<u64>(seq, x % 5); break;
			case 2: since = seq - std::min<u64>(seq, W / 2 - 1 - x % 3); break;
			case 3: since = seq - std::min<u64>(seq, x); break;
			case 4: since = 0; break;
			case 5: since = 1; break;
			case 6: since = model.empty() ? seq : std::next(model.begin(), (long)(x % model.size()))->second.seq; break;
			case 7: since = model.empty() ? seq : std::next(model.begin(), (long)(x % model.size()))->second.seq + 1; break;
			case 8: since = seq - std::min<u64>(seq, W * 3 / 4 + x % 7); break;
			default: since = seq - std::min<u64>(seq, W - 2 + x % 5); break;
			}
		ctx.log("q %llu %llu", (unsigned long long)seq, (unsigned long long)since);
		ctx.state(mix(seq / 4096, model.size()));
		if(seq > W)
			ctx.nontrivial = true;
		query(since);
	}

	void finish() override
	{
		query(0);
		for(auto& m : std::map<u64, Entry>(model)) {
			query(m.second.seq);
			query(m.second.seq + 1);
			if(ctx.failed)
				return;
		}
		query(seq);
		query(seq + 1);
	}
};

void configCommon(Rng& r, Config& c)
{
	c["nodes"] = r.chance(400) ? 2 : r.range(2, 5);
	c["stores"] = r.range(1, 3);
	for(int i = 0; i < 3; i++)
		c[("type" + std::to_string(i)).c_str()] = r.chance(600) ? r.range(0, 1) : r.chance(700) ? r.range(2, 5) : r.range(6, 9);
	c["layout"] = (i64)r.below(1 << 20);
	c["chain"] = r.chance(400);
	c["rootwrites"] = r.chance(200);
	c["arq"] = r.chance(400);
	c["lossy"] = r.chance(700);
	c["seg"] = r.range(0, 1) * 700;
	c["direct"] = r.chance(300);
	c["w_write"] = r.range(2, 20);
	c["w_proc"] = r.range(2, 20);
	c["w_dl"] = r.range(3, 30);
	c["w_drop"] = c["lossy"] && c["arq"] ? r.range(0, 6) : 0;
	c["w_tick"] = c["arq"] ? r.range(2, 8) : 0;
	c["w_sync"] = r.range(1, 8);
	c["w_drain"] = r.range(1, 3);
}
void config8(Rng& r, Config& c)
{
	configCommon(r, c);
	c["w_adv"] = r.chance(8) ? 1 : 0;
}
void config9(Rng& r, Config& c)
{
	configCommon(r, c);
}
void config10(Rng& r, Config& c)
{
	configCommon(r, c);
	c["arq"] = 0; // the reset handshake is a known finding of P01
	c["lossy"] = 0;
	c["w_drop"] = c["w_tick"] = 0;
	c["victim"] = (i64)r.below(6);
	c["focus"] = r.chance(500) ? 1000 : r.range(0, 1000);
	c["w_fault"] = r.range(1, 6);
	for(char const* k : {"f_disc", "f_conn", "f_reset", "f_restart", "f_unmap", "f_cut"})
		c[k] = r.chance(500) ? r.range(0, 5) : 0;
	c["f_conn"] = r.range(1, 6);
	c["loss"] = r.chance(400);
	if(c["loss"])
		c["w_drop"] = r.range(1, 5);
	c["latefinish"] = r.chance(500);
}
void config25(Rng& r, Config& c)
{
	if(r.chance(500)) {
		config8(r, c);
		c["w_adv"] = 0;
	} else {
		config10(r, c);
		c["faulty"] = 1;
	}
	for(int i = 0; i < 3; i++)
		c[("type" + std::to_string(i)).c_str()] = r.pick(std::vector<i64>{1, 2, 4, 6, 8, 9, 10, 10, 11, 12, 12, 13, 14, 15});
}
void config11(Rng& r, Config& c)
{
	configCommon(r, c);
	c["arq"] = 0;
	c["lossy"] = 0;
	c["w_drop"] = c["w_tick"] = 0;
	c["seg"] = 0;
	c["w_attack"] = r.range(3, 20);
	if(r.chance(300))
		c["nodes"] = 3;
}
void config12(Rng& r, Config& c)
{
	c["size"] = r.pick(std::vector<i64>{8, 100, 255, 256, 1000, 65535, 70000});
	c["keys"] = r.chance(300) ? r.range(1, 4) : r.range(1, 60);
	c["layout"] = (i64)r.below(1 << 20);
	c["noinsert"] = r.chance(300) ? 300 : 0;
	c["w_ch"] = r.range(5, 30);
	c["w_bump"] = r.range(2, 20);
	c["w_adv"] = r.range(1, 4);
	c["w_clean"] = r.chance(500) ? 1 : 0;
	c["w_q"] = r.range(4, 20);
	c["w_buf"] = r.chance(300) ? 1 : 0;
	c["w_upd"] = r.chance(500) ? r.range(1, 5) : 0;
}

template <int P>
World* make(Ctx& c, Config const& cfg)
{
	return new SyncWorld(c, cfg, P);
}
World* make12(Ctx& c, Config const& cfg)
{
	return new JournalWorld(c, cfg);
}

} // namespace

namespace sim {
Family const families[] = {
	{"P08", config8, make<8>, 30, 250},
	{"P09", config9, make<9>, 30, 250},
	{"P10", config10, make<10>, 30, 200},
	{"P11", config11, make<11>, 20, 120},
	{"P25", config25, make<25>, 30, 200},
	{"P12", config12, make12, 10, 80},
};
size_t const familyCount = sizeof(families) / sizeof(families[0]);
#ifdef SIM_BE
char const* const binaryName = "syncbe";
#else
char const* const binaryName = "sync";
#endif
} // namespace sim
