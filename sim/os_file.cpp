// P20: file, pipe, stdio and serial transports, on a simulated POSIX kernel.
#include "kernel.h"
#include "simos.h"

#include <stored>
#include <libstored/protocol.h>

#include <cerrno>
#include <deque>
#include <fcntl.h>
#include <list>
#include <unistd.h>

namespace sim {
// In os_tty.cpp, as <termios.h> defines B0, which libstored uses as name.
struct Tty {
	void* t;
	Tty();
	~Tty();
	void scramble(u64 seed);
	void get(struct termios* x) const;
	void set(struct termios const* x);
	bool input(unsigned char& c) const;      // false: swallowed
	std::string output(std::string const& s) const;
	bool canonical() const;
	bool echo() const;
	bool readsZero() const;
	bool baudIs(unsigned long baud) const;
};

namespace {
enum Layer { LPipes, LDuplex, LFiles, LFilesDev, LInbound, LOutbound, LDouble, LXsim, LStdio, LSerial, LayerCount };

struct Chan {
	std::string name;
	std::string buf;	// in the kernel
	size_t cap = 64;
	bool regular = false, fifo = false;
	int readers = 0, writers = 0;
	bool everWriter = false;
	std::string written; // accepted from the layer (or, regular files: the contents)
	std::string given;   // given to the layer
	u64 consumed = 0;    // by the peer
	Tty* tty = nullptr;
};

struct Fd {
	Chan* r = nullptr;
	Chan* w = nullptr;
	bool null = false;
	bool nonblock = false;
	size_t off = 0;
	int id = 0;
};

struct FileWorld;

struct Sink : public stored::ProtocolLayer {
	FileWorld& w;
	explicit Sink(FileWorld& w_) : w(w_) {}
	~Sink() override {}
	void decode(void* buffer, size_t len) override;
	void connected() override;
};

struct FileWorld : public World, public Os {
	std::map<std::string, Chan> chans; // by path or name
	std::map<int, Fd> fds;
	int nextFd = 10;
	std::deque<int> readFault, writeFault, pollFault, closeFault, openFault, ttyFault;
	struct Sched {
		i64 t;
		Op op;
	};
	std::list<Sched> sched;
	sighandler_t sigpipe = SIG_DFL;
	Tty tty;

	std::unique_ptr<stored::PolledFileLayer> layer;
	Sink sink;
	std::string rxPath, txPath, reqPath;
	Chan *rx = nullptr, *tx = nullptr, *req = nullptr;
	Layer kind;
	bool usable = true;

	// What happened during the current call.
	int perm = 0;	    // permanent error that was returned
	int permFd = -1;
	bool eof = false, spurious = false, intr = false;
	i64 maxTimeout = 0; // of poll()
	int calls = 0;
	std::string decoded;
	int decodes = 0;
	u64 msgKey = 1, peerKey = 1;
	int depth = 0;
	bool broken = false; // a permanent error hit the layer
	bool xsimRestarted = false;
	u64 echoed = 0;
	int forced = 0;
	bool partial = false;

	FileWorld(Ctx& c, Config const& g) : World(c, g), sink(*this)
	{
		os = this;
		kind = (Layer)(cfg.get("layer") % LayerCount);
		size_t cap = (size_t)std::max<i64>(1, cfg.get("cap", 64));
		auto mk = [&](char const* n) {
			auto& x = chans[n];
			x.name = n;
			x.cap = cap;
			return &x;
		};
		size_t bs = (size_t)std::max<i64>(1, cfg.get("bufsize", 128));
		switch(kind) {
		case LPipes:
		case LDuplex:
		case LStdio: {
			rx = mk("rx");
			tx = mk("tx");
			rx->readers = tx->writers = 0;
			rx->writers = tx->readers = 1;
			rx->everWriter = true;
			sigpipe = SIG_IGN;
			if(kind == LStdio) {
				install(0, rx, nullptr);
				install(1, nullptr, tx);
				layer.reset(new stored::StdioLayer(bs));
				if(!fds[0].nonblock)
					ctx.probe("stdin-blocking");
			} else if(kind == LPipes) {
				int r = install(nextFd++, rx, nullptr);
				int w = install(nextFd++, nullptr, tx);
				layer.reset(new stored::FileLayer(r, w, bs));
			} else {
				int f = install(nextFd++, rx, tx);
				layer.reset(new stored::FileLayer(f, -1, bs));
			}
			break;
		}
		case LFiles:
			rx = mk("/r");
			tx = mk("/w");
			rx->regular = tx->regular = true;
			layer.reset(new stored::FileLayer("/r", "/w", bs));
			break;
		case LFilesDev:
			rx = mk("/dev/d.rx");
			tx = mk("/dev/d.tx");
			rx->writers = tx->readers = 1;
			rx->everWriter = true;
			layer.reset(new stored::FileLayer(
				"/dev/d", cfg.get("flag") == 2   ? "/dev/dw"
					  : cfg.get("flag") == 1 ? "/dev/d"
								 : nullptr,
				bs));
			break;
		case LSerial:
			rx = mk("/dev/t.rx");
			tx = mk("/dev/t.tx");
			rx->writers = tx->readers = 1;
			rx->everWriter = true;
			rx->tty = tx->tty = &tty;
			tty.scramble((u64)cfg.get("ttyseed"));
			tx->cap = std::max<size_t>(tx->cap, 2);
			call();
			layer.reset(new stored::SerialLayer(
				"/dev/t", (unsigned long)cfg.get("baud", 115200), cfg.get("rtscts"), cfg.get("xonxoff")));
			break;
		case LInbound:
			layer.reset(new stored::NamedPipeLayer("/in", stored::NamedPipeLayer::Inbound));
			rxPath = "/in";
			break;
		case LOutbound:
			layer.reset(new stored::NamedPipeLayer("/out", stored::NamedPipeLayer::Outbound));
			txPath = "/out";
			break;
		case LDouble:
			layer.reset(new stored::DoublePipeLayer("/in", "/out"));
			rxPath = "/in";
			txPath = "/out";
			break;
		default:
			kind = LXsim;
			layer.reset(new stored::XsimLayer("/x"));
			rxPath = "/x_from_xsim";
			txPath = "/x_to_xsim";
			reqPath = "/x_req_xsim";
		}
		if(!rxPath.empty())
			rx = mk(rxPath.c_str());
		if(!txPath.empty())
			tx = mk(txPath.c_str());
		if(!reqPath.empty()) {
			req = mk(reqPath.c_str());
			req->cap = 4096;
		}
		layer->wrap(sink);
		if(layer->lastError()) {
			ctx.log("construct -> %d", layer->lastError());
			bool expected = kind == LSerial && cfg.get("badbaud");
			if(!expected)
				ctx.fail("construct", "the transport reports error %d when it is constructed", layer->lastError());
			usable = false;
		} else if(kind == LSerial) {
			if(cfg.get("badbaud"))
				ctx.fail("construct", "baud rate %d is accepted", (int)cfg.get("baud"));
			else if(!tty.baudIs((unsigned long)cfg.get("baud", 115200)))
				ctx.fail("construct", "the serial port got another baud rate than %d", (int)cfg.get("baud"));
			if(tx->written != "\x11")
				ctx.fail("construct", "no auto-baud character is sent");
		}
		if(perm)
			perm = 0;
	}
	~FileWorld() override
	{
		layer.reset();
		os = nullptr;
	}

	int install(int n, Chan* r, Chan* w)
	{
		Fd f;
		f.r = r;
		f.w = w;
		f.id = n;
		fds[n] = f;
		if(r)
			r->readers++;
		if(w) {
			w->writers++;
			w->everWriter = true;
		}
		return n;
	}

	static int take(std::deque<int>& q)
	{
		if(q.empty())
			return 0;
		int x = q.front();
		q.pop_front();
		return x;
	}

	void permanent(int e, int fd)
	{
		if(!perm) {
			perm = e;
			permFd = fd;
		}
	}

	///////////////////////////////////////////////////////////////
	// The kernel

	int open(char const* path, int flags) override
	{
		calls++;
		std::string p = path;
		if(int e = take(openFault)) {
			ctx.fault("open-error");
			permanent(e, -1);
			errno = e;
			return -1;
		}
		if(p == "/dev/null") {
			int n = nextFd++;
			fds[n].null = true;
			fds[n].nonblock = flags & O_NONBLOCK;
			return n;
		}
		int acc = flags & O_ACCMODE;
		if(p == "/dev/dw" || (p == "/dev/d" && acc != O_RDWR)) {
			// Two devices, one for every direction.
			bool w = acc != O_RDONLY;
			int n = install(nextFd++, w ? nullptr : &chans["/dev/d.rx"], w ? &chans["/dev/d.tx"] : nullptr);
			fds[n].nonblock = flags & O_NONBLOCK;
			return n;
		}
		if(p == "/dev/d" || p == "/dev/t") {
			int n = install(nextFd++, &chans[p + ".rx"], &chans[p + ".tx"]);
			fds[n].nonblock = flags & O_NONBLOCK;
			return n;
		}
		auto it = chans.find(p);
		if(it == chans.end()) {
			if(!(flags & O_CREAT)) {
				permanent(ENOENT, -1);
				errno = ENOENT;
				return -1;
			}
			chans[p].name = p;
			chans[p].regular = true;
			it = chans.find(p);
		}
		Chan& c = it->second;
		if(c.fifo && acc == O_WRONLY && !c.readers) {
			if(!(flags & O_NONBLOCK)) {
				ctx.fail("blocks", "opening %s blocks until there is a reader", path);
				_exit(0);
			}
			ctx.fault("no-reader");
			permanent(ENXIO, -1);
			errno = ENXIO;
			return -1;
		}
		if(c.regular && acc != O_RDONLY && !(flags & O_APPEND))
			ctx.fail("truncate", "%s is not opened for appending", path);
		int n = install(nextFd++, acc != O_WRONLY ? &c : nullptr, acc != O_RDONLY ? &c : nullptr);
		fds[n].nonblock = flags & O_NONBLOCK;
		return n;
	}

	int mkfifo(char const* path) override
	{
		if(cfg.get("exists") || chans.count(path)) {
			chans[path].fifo = true;
			errno = EEXIST;
			return -1;
		}
		auto& c = chans[path];
		c.name = path;
		c.fifo = true;
		return 0;
	}

	int close(int fd) override
	{
		auto it = fds.find(fd);
		if(fd < 0) {
			errno = EBADF;
			return -1;
		}
		if(it == fds.end()) {
			ctx.fail("bad-fd", "a file descriptor is closed that is not open");
			errno = EBADF;
			return -1;
		}
		ctx.log("close %d", fd);
		Fd f = it->second;
		fds.erase(it);
		if(f.r) {
			if(!--f.r->readers && f.r->fifo && !f.r->writers)
				f.r->buf.clear();
		}
		if(f.w)
			f.w->writers--;
		if(int e = take(closeFault)) {
			ctx.fault("close-error");
			errno = e;
			return -1;
		}
		return 0;
	}

	int fcntl(int fd, int cmd, long arg) override
	{
		auto it = fds.find(fd);
		if(it == fds.end()) {
			errno = EBADF;
			return -1;
		}
		if(cmd == F_SETFL)
			it->second.nonblock = arg & O_NONBLOCK;
		if(cmd == F_GETFL)
			return (it->second.nonblock ? O_NONBLOCK : 0) | O_RDWR;
		return 0;
	}

	ssize_t read(int fd, void* b, size_t n) override
	{
		calls++;
		auto it = fds.find(fd);
		if(it == fds.end() || (!it->second.r && !it->second.null)) {
			ctx.fail("bad-fd", "a file descriptor is read that is not open for reading");
			permanent(EBADF, fd);
			errno = EBADF;
			return -1;
		}
		Fd& f = it->second;
		if(f.null)
			return 0;
		Chan& c = *f.r;
		int e = take(readFault);
		size_t limit = n;
		if(e < 0) {
			limit = std::min<size_t>(n, (size_t)-e);
			ctx.fault("short-read");
		} else if(e == EINTR) {
			ctx.fault("read-interrupted");
			errno = e;
			return -1;
		} else if(e == EAGAIN) {
			if(!f.nonblock)
				return 0;
			ctx.fault("spurious-wakeup");
			spurious = true;
			errno = e;
			return -1;
		} else if(e) {
			ctx.fault("read-error");
			permanent(e, fd);
			errno = e;
			return -1;
		}
		if(c.regular) {
			size_t m = std::min(limit, c.written.size() - std::min(f.off, c.written.size()));
			if(!m) {
				eof = true;
				return 0;
			}
			memcpy(b, c.written.data() + f.off, m);
			c.given.append(c.written, f.off, m);
			f.off += m;
			return (ssize_t)m;
		}
		if(c.buf.empty()) {
			if(!c.writers || (c.tty && c.tty->readsZero())) {
				eof = true;
				return 0;
			}
			if(!f.nonblock) {
				ctx.fail("blocks", "a read blocks on %s", c.name.c_str());
				eof = true;
				return 0;
			}
			errno = EAGAIN;
			return -1;
		}
		size_t m = std::min(limit, c.buf.size());
		memcpy(b, c.buf.data(), m);
		c.given.append(c.buf, 0, m);
		c.buf.erase(0, m);
		ctx.log("read %zu of %s", m, c.name.c_str());
		return (ssize_t)m;
	}

	ssize_t write(int fd, void const* b, size_t n) override
	{
		calls++;
		auto it = fds.find(fd);
		if(it == fds.end() || (!it->second.w && !it->second.null)) {
			ctx.fail("bad-fd", "a file descriptor is written that is not open for writing");
			permanent(EBADF, fd);
			errno = EBADF;
			return -1;
		}
		Fd& f = it->second;
		if(f.null)
			return (ssize_t)n;
		Chan& c = *f.w;
		int e = take(writeFault);
		size_t limit = n;
		if(e < 0) {
			limit = std::min<size_t>(n, (size_t)-e);
			ctx.fault("short-write");
		} else if(e == EINTR) {
			ctx.fault("write-interrupted");
			errno = e;
			return -1;
		} else if(e == EAGAIN) {
			if(f.nonblock && !c.regular) {
				ctx.fault("spurious-block");
				spurious = true;
				errno = e;
				return -1;
			}
		} else if(e == 1000) {
			ctx.fault("zero-write");
			permanent(EIO, fd);
			return 0;
		} else if(e) {
			ctx.fault("write-error");
			permanent(e, fd);
			errno = e;
			return -1;
		}
		if(!c.regular && !c.readers) {
			ctx.fault("broken-pipe");
			if(sigpipe == SIG_DFL)
				ctx.fail("sigpipe", "a write to a broken pipe kills the process");
			permanent(EPIPE, fd);
			errno = EPIPE;
			return -1;
		}
		size_t space = c.regular ? limit : c.buf.size() >= c.cap ? 0 : c.cap - c.buf.size();
		if(!space) {
			if(!f.nonblock) {
				ctx.fail("blocks", "a write blocks on %s", c.name.c_str());
				permanent(EIO, fd);
				errno = EIO;
				return -1;
			}
			ctx.probe("full");
			errno = EAGAIN;
			return -1;
		}
		size_t m = std::min(limit, space);
		std::string s((char const*)b, m);
		c.written += s;
		if(!c.regular)
			c.buf += c.tty ? c.tty->output(s) : s;
		ctx.log("write %zu to %s", m, c.name.c_str());
		return (ssize_t)m;
	}

	short pollOne(int fd, short events)
	{
		auto it = fds.find(fd);
		if(it == fds.end()) {
			ctx.fail("bad-fd", "a file descriptor is polled that is not open");
			return POLLNVAL;
		}
		Fd& f = it->second;
		short r = 0;
		if(f.null)
			return (short)(events & (POLLIN | POLLOUT));
		if(f.r) {
			if(f.r->regular || !f.r->buf.empty())
				r |= POLLIN;
			if(!f.r->regular && !f.r->writers && f.r->everWriter)
				r |= POLLHUP;
		}
		if(f.w) {
			if(f.w->regular || f.w->buf.size() < f.w->cap)
				r |= POLLOUT;
			if(!f.w->regular && !f.w->readers)
				r |= POLLERR;
		}
		return (short)(r & (events | POLLERR | POLLHUP));
	}

	// One peer action, because the layer blocks forever.
	void force(int fd, short events)
	{
		forced++;
		auto it = fds.find(fd);
		if(it == fds.end())
			return;
		if((events & POLLOUT) && it->second.w)
			peerRead(*it->second.w, 1 + (size_t)forced % 40);
		if((events & POLLIN) && it->second.r) {
			if(it->second.r->fifo && !it->second.r->writers) {
				it->second.r->writers = 1;
				it->second.r->everWriter = true;
			}
			if(forced % 3 == 0 && it->second.r->writers > 0 && kind != LDuplex && kind != LFilesDev && kind != LSerial)
				it->second.r->writers--;
			else
				peerWrite(*it->second.r, 1 + (size_t)forced % 5);
		}
	}

	template <typename F>
	int blockPoll(i64 timeout, int fd, short events, F const& scan)
	{
		calls++;
		maxTimeout = std::max(maxTimeout, timeout < 0 ? (i64)1 << 40 : timeout);
		i64 end = timeout < 0 ? -1 : ctx.now + timeout * 1000;
		for(int guard = 0; guard < 10000; guard++) {
			if(int e = take(pollFault)) {
				ctx.fault(e == EINTR ? "poll-interrupted" : "poll-error");
				if(e != EINTR)
					permanent(e, fd);
				else
					intr = true;
				errno = e;
				return -1;
			}
			int n = scan();
			if(n || !timeout)
				return n;
			ctx.fault("blocked");
			// Sleep until something happens.
			if(!sched.empty() && (end < 0 || sched.front().t <= end)) {
				auto s = sched.front();
				sched.pop_front();
				ctx.now = std::max(ctx.now, s.t);
				peer(s.op);
			} else if(end >= 0) {
				ctx.now = end;
				return scan();
			} else {
				ctx.now += 1000;
				force(fd, events);
			}
		}
		ctx.fail("hang", "the transport keeps on blocking");
		errno = EIO;
		permanent(EIO, fd);
		return -1;
	}

	int poll(struct pollfd* p, nfds_t n, int timeout) override
	{
		if(n != 1) {
			ctx.fail("poll", "%d descriptors are polled", (int)n);
			errno = EINVAL;
			return -1;
		}
		return blockPoll(timeout, p->fd, p->events, [&]() {
			p->revents = pollOne(p->fd, p->events);
			return p->revents ? 1 : 0;
		});
	}
	int zpoll(zmq_pollitem_t* p, int n, long timeout) override
	{
		if(n != 1 || p->socket) {
			ctx.fail("poll", "%d descriptors are polled", n);
			errno = EINVAL;
			return -1;
		}
		short ev = (short)((p->events & ZMQ_POLLIN ? POLLIN : 0) | (p->events & ZMQ_POLLOUT ? POLLOUT : 0));
		return blockPoll(timeout, p->fd, ev, [&]() {
			short r = pollOne(p->fd, ev);
			p->revents = (short)((r & POLLIN ? ZMQ_POLLIN : 0) | (r & POLLOUT ? ZMQ_POLLOUT : 0)
					     | (r & ~(POLLIN | POLLOUT) ? ZMQ_POLLERR : 0));
			return p->revents ? 1 : 0;
		});
	}

	sighandler_t signal(int sig, sighandler_t h) override
	{
		if(sig != SIGPIPE)
			ctx.fail("signal", "the handler of signal %d is changed", sig);
		sighandler_t o = sigpipe;
		sigpipe = h;
		return o;
	}

	int isatty(int fd) override { return fds.count(fd) && fds[fd].r && fds[fd].r->tty; }
	int tcgetattr(int fd, struct termios* t) override
	{
		if(!isatty(fd)) {
			errno = ENOTTY;
			return -1;
		}
		tty.get(t);
		return 0;
	}
	int tcsetattr(int fd, struct termios const* t) override
	{
		if(!isatty(fd)) {
			errno = ENOTTY;
			return -1;
		}
		tty.set(t);
		return 0;
	}
	int tcdrain(int) override { return 0; }
	int tcsendbreak(int) override
	{
		if(int e = take(ttyFault)) {
			ctx.fault("break-error");
			errno = e;
			return -1;
		}
		return 0;
	}
	int usleep(unsigned us) override
	{
		ctx.now += us;
		maxTimeout = std::max<i64>(maxTimeout, us / 1000);
		return 0;
	}

	///////////////////////////////////////////////////////////////
	// The other side

	void peerWrite(Chan& c, size_t n)
	{
		std::string s = content(mix(peerKey++, 0xbee), n, (int)(peerKey & 1));
		if(kind == LXsim)
			for(auto& x : s)
				if(x == 0x16)
					x = 0;
		if(c.regular) {
			c.written += s;
			return;
		}
		if(!c.writers)
			return;
		for(auto x : s) {
			if(c.buf.size() >= c.cap)
				break;
			unsigned char u = (unsigned char)x;
			if(c.tty && cfg.get("xonxoff") && (u == 0x11 || u == 0x13))
				u = 'x';
			unsigned char o = u;
			if(c.tty) {
				if(!c.tty->input(u)) {
					ctx.fail("terminal", "the serial port swallows byte %02x", o);
					continue;
				}
				if(u != o)
					ctx.fail("terminal", "the serial port changes byte %02x to %02x", o, u);
				if(c.tty->canonical() || c.tty->echo())
					ctx.fail("terminal", "the serial port is in canonical mode or echoes");
			}
			c.buf += (char)u;
		}
		ctx.log("peer writes %zu to %s", n, c.name.c_str());
	}
	void peerRead(Chan& c, size_t n)
	{
		n = std::min(n, c.buf.size());
		if(!n)
			return;
		std::string s = c.buf.substr(0, n);
		// What is read is the next part of what is written.
		if(c.written.compare((size_t)std::min<u64>(c.consumed, c.written.size()), n, s))
			ctx.fail("terminal", "other bytes arrive at the other side than are written");
		c.consumed += n;
		c.buf.erase(0, n);
		ctx.log("peer reads %zu of %s", n, c.name.c_str());
		if(c.consumed + c.buf.size() > c.written.size())
			ctx.fail("terminal", "the serial port inserts bytes");
		if(kind == LXsim && req && &c == tx && req->writers > 0) {
			req->buf += s;
			echoed += n;
		}
	}

	void peer(Op const& op)
	{
		size_t n = (size_t)std::min<i64>(std::max<i64>(0, op.arg(1)), 4000);
		switch(op.arg(0)) {
		case 0:
			if(rx && (rx->writers || rx->regular))
				peerWrite(*rx, n);
			break;
		case 1:
			if(tx && tx->readers)
				peerRead(*tx, n);
			break;
		case 2: // open or close the write end
			if(!rx || !rx->fifo)
				break;
			if(!rx->writers) {
				if(rx->readers) {
					rx->writers = 1;
					rx->everWriter = true;
				}
			} else if(rx->writers == 1) {
				ctx.fault("peer-closes-write");
				rx->writers = 0;
				xsimRestarted = true;
			}
			break;
		case 3: // open or close the read end
			if(!tx || !(tx->fifo || kind == LPipes || kind == LStdio))
				break;
			if(!tx->readers) {
				if(tx->fifo)
					tx->readers = 1;
			} else {
				ctx.fault("peer-closes-read");
				tx->readers = 0;
				xsimRestarted = true;
				lostInPipe();
			}
			if(req && tx->readers && !req->writers)
				req->writers = 1;
			break;
		case 4: // hang up a plain pipe
			if(rx && (kind == LPipes || kind == LStdio) && rx->writers) {
				ctx.fault("peer-closes-write");
				rx->writers = 0;
			}
			break;
		}
	}
	void lostInPipe()
	{
		tx->consumed += tx->buf.size();
		tx->buf.clear();
	}

	///////////////////////////////////////////////////////////////

	Op gen(Rng& rng) override
	{
		switch(rng.weighted({20, 20, 25, 12, 3, 2, 3, 1})) {
		case 0:
			return Op("send", {rng.chance(50) ? 0 : rng.chance(200) ? rng.range(100, 600) : rng.range(1, 60), rng.chance(800), (i64)rng.below(1000000)});
		case 1: return Op("recv", {rng.pick(std::vector<i64>{0, 0, 0, 500, 1000, 20000, -1, -1})});
		case 2: {
			Op op("peer", {(i64)rng.weighted({10, 10, 2, 2, 1}), rng.chance(100) ? 4000 : rng.range(1, 80), 0});
			if(rng.chance(400))
				op.a[2] = rng.range(0, 30000);
			return op;
		}
		case 3: {
			i64 w = (i64)rng.weighted({10, 10, 6, 3, cfg.get("openerr") ? 3 : 0, 1});
			std::vector<i64> e;
			switch(w) {
			case 0: e = {EINTR, EINTR, EAGAIN, -1, -2, -5, cfg.get("perm") ? EIO : -3, cfg.get("perm") ? ECONNRESET : -1}; break;
			case 1: e = {EINTR, EINTR, EAGAIN, -1, -2, -5, cfg.get("perm") ? EIO : -3, cfg.get("perm") ? ENOSPC : -1, cfg.get("perm") ? 1000 : -4}; break;
			case 2: e = {EINTR, EINTR, EINTR, cfg.get("perm") ? ENOMEM : EINTR}; break;
			case 3: e = {EINTR, EIO}; break;
			case 4: e = {EMFILE, ENOENT, EACCES}; break;
			default: e = {EINTR, EIO};
			}
			return Op("fault", {w, rng.pick(e), rng.range(0, 3)});
		}
		case 4: return Op("reset");
		case 5: return Op("reopen");
		case 6: return Op("wait", {rng.range(0, 20000)});
		default: return Op("baud");
		}
	}

	void call()
	{
		perm = 0;
		permFd = -1;
		eof = spurious = intr = false;
		maxTimeout = 0;
		calls = 0;
	}

	static std::string strip(std::string const& s)
	{
		std::string r;
		for(auto x : s)
			if(x != 0x16)
				r += x;
		return r;
	}

	// Encodes via the layer, and checks what arrived.
	void send(std::string s, bool last)
	{
		if(kind == LXsim)
			for(auto& x : s)
				if(x == 0x16)
					x = 1;
		if(kind == LSerial && cfg.get("xonxoff"))
			for(auto& x : s)
				if(x == 0x11 || x == 0x13)
					x = 2;
		bool was = layer->isOpen();
		size_t before = tx ? tx->written.size() : 0;
		std::unique_ptr<char[]> copy(new char[s.size()]);
		memcpy(copy.get(), s.data(), s.size());
		layer->encode(copy.get(), s.size(), last);
		int e = layer->lastError();
		ctx.log("send %zu -> %d", s.size(), e);
		if(memcmp(copy.get(), s.data(), s.size()))
			ctx.fail("changed", "encoding changes the buffer");
		if(kind == LInbound)
			return; // To /dev/null
		std::string x = tx->written.substr(before);
		if(kind == LXsim)
			x = strip(x);
		if(x.size() > s.size() || s.compare(0, x.size(), x))
			ctx.fail("bytes", "other bytes are written (%zu, expected %zu)", x.size(), s.size());
		if(!e) {
			if(x.size() != s.size())
				ctx.fail("lost", "only %zu of %zu bytes are written, without an error", x.size(), s.size());
			if(perm && was && permFd >= 0 && kind != LXsim && kind != LDouble)
				ctx.fail("unreported", "error %d is not reported", perm);
		} else {
			bool closed = !was && (kind == LPipes || kind == LDuplex || kind == LStdio || kind == LFiles || kind == LFilesDev || kind == LSerial);
			if(!perm && !closed)
				ctx.fail("refused", "error %d is reported, while nothing permanent happened (%zu of %zu written)", e, x.size(), s.size());
			if(e == EAGAIN || e == EINTR)
				ctx.fail("refused", "sending %zu bytes gives error %d, after %zu", s.size(), e, x.size());
			if(perm && permFd >= 0 && fds.count(permFd))
				ctx.fail("not-closed", "after error %d, the transport is still open", perm);
			if(perm && permFd >= 0 && !closed && e != perm && kind != LXsim)
				ctx.fail("error", "error %d is reported as %d", perm, e);
			ctx.probe("send-error");
		}
		if(perm && permFd >= 0)
			broken = true;
	}

	void checkDecoded()
	{
		if(!rx)
			return;
		// Everything that is read goes up, in order.
		if(decoded != rx->given)
			ctx.fail("bytes", "%zu bytes are decoded, %zu are read", decoded.size(), rx->given.size());
	}

	void recv(i64 timeout)
	{
		bool was = layer->isOpen();
		call();
		i64 start = ctx.now;
		int d0 = decodes;
		size_t given0 = rx ? rx->given.size() : 0;
		size_t req0 = req ? req->given.size() : 0;
		size_t forced0 = (size_t)forced;
		int e = layer->recv(timeout);
		ctx.log("recv %lld -> %d", (long long)timeout, e);
		if(e != layer->lastError() && kind != LXsim)
			ctx.fail("error", "recv() gives %d, while the last error is %d", e, layer->lastError());
		bool outOnly = kind == LOutbound;
		if(!outOnly) {
			checkDecoded();
			if(e == 0 && decodes == d0)
				ctx.fail("nothing", "data is reported, while there is none");
			if(e != 0 && decodes != d0 && kind != LXsim)
				ctx.fail("error", "data is received, but error %d is reported", e);
		}
		if(timeout == 0 && maxTimeout && decodes == d0 && kind != LXsim)
			ctx.fail("blocks", "a receive without timeout blocks");
		bool got = rx && rx->given.size() > given0;
		if(!got && !outOnly) {
			if((e == EAGAIN) && timeout < 0 && !eof)
				ctx.fail("timeout", "an infinite receive ends with error %d", e);
			if((e == EAGAIN) && timeout >= 1000 && !eof && ctx.now - start < timeout / 1000 * 1000)
				ctx.fail("timeout", "a receive of %lld us ends after %lld us", (long long)timeout, (long long)(ctx.now - start));
			if(e == EINTR && !intr)
				ctx.fail("error", "a receive is interrupted out of nothing");
			if(e && e != EAGAIN && e != EINTR && !perm && was && !broken)
				ctx.fail("error", "a receive gives error %d, while nothing permanent happened", e);
			if(perm && permFd >= 0 && fds.count(permFd))
				ctx.fail("not-closed", "after error %d, the transport is still open", perm);
			if(perm && permFd >= 0 && !e)
				ctx.fail("unreported", "error %d is not reported", perm);
			if(perm && permFd >= 0 && e != perm && kind != LXsim)
				ctx.fail("error", "error %d is reported as %d", perm, e);
		}
		if(!perm && was && !layer->isOpen() && decodes == d0)
			ctx.fail("closed", "the transport closes, while nothing permanent happened");
		if(timeout > 0 && kind != LXsim && !spurious && !intr && ctx.now - start > timeout + 1000 && decodes == d0)
			ctx.fail("timeout", "a receive of %lld us takes %lld us", (long long)timeout, (long long)(ctx.now - start));
		if(perm && permFd >= 0)
			broken = true;
		if(kind == LXsim && req && req->given.size() > req0 && !broken && !perm && !xsimRestarted && !layer->lastError()) {
			ctx.probe("keep-alive");
			if(tx->buf.size() + req->buf.size() == 0)
				ctx.fail("keep-alive", "there is nothing to read for the simulator");
		}
		if((size_t)forced > forced0)
			ctx.probe("forced");
	}

	void exec(Op const& op) override
	{
		ctx.now += op.dt;
		if(!usable)
			return;
		while(!sched.empty() && sched.front().t <= ctx.now) {
			auto s = sched.front();
			sched.pop_front();
			peer(s.op);
		}
		if(op.is("send")) {
			size_t n = (size_t)std::min<i64>(std::max<i64>(0, op.arg(0)), 2000);
			call();
			send(content(mix(msgKey++, (u64)op.arg(2)), n, (int)(op.arg(2) & 1)), op.arg(1, 1));
			partial = !op.arg(1, 1);
		} else if(op.is("recv")) {
			recv(std::max<i64>(-1, op.arg(0)));
		} else if(op.is("peer")) {
			if(op.arg(2) > 0 && sched.size() < 50) {
				Sched s{ctx.now + op.arg(2), op};
				auto it = sched.begin();
				while(it != sched.end() && it->t <= s.t)
					++it;
				sched.insert(it, s);
			} else
				peer(op);
		} else if(op.is("fault")) {
			int e = (int)op.arg(1);
			// In one in four, some calls succeed first.
			auto& q = op.arg(0) == 0   ? readFault
				  : op.arg(0) == 1 ? writeFault
				  : op.arg(0) == 2 ? pollFault
				  : op.arg(0) == 3 ? closeFault
				  : op.arg(0) == 4 ? openFault
						   : ttyFault;
			if(e < -2000 || (!e) || q.size() > 20)
				return;
			q.push_back(e);
		} else if(op.is("reset")) {
			call();
			layer->reset();
			ctx.log("reset -> %d", layer->lastError());
			if(perm)
				broken = broken || permFd >= 0;
		} else if(op.is("reopen")) {
			call();
			if(auto n = dynamic_cast<stored::NamedPipeLayer*>(layer.get()))
				n->reopen();
			else if(auto d = dynamic_cast<stored::DoublePipeLayer*>(layer.get()))
				d->reopen();
			xsimRestarted = true;
		} else if(op.is("wait")) {
			ctx.now += std::max<i64>(0, op.arg(0));
		} else if(op.is("baud") && kind == LSerial) {
			call();
			size_t before = tx->written.size();
			bool was = layer->isOpen();
			if(was) {
				static_cast<stored::SerialLayer&>(*layer).resetAutoBaud();
				if(!perm && tx->written.substr(before) != "\x11")
					ctx.fail("baud", "no auto-baud character is sent");
				if(perm && permFd >= 0)
					broken = true;
			}
		}
		checkDecoded();
		ctx.state(mix(mix((u64)kind, (u64)layer->isOpen()), mix(tx ? tx->buf.size() : 0, (u64)layer->lastError())));
	}

	void finish() override
	{
		if(!usable)
			return;
		readFault.clear();
		writeFault.clear();
		pollFault.clear();
		closeFault.clear();
		openFault.clear();
		sched.clear();
		// Without faults, everything arrives.
		if(rx && rx->fifo && rx->readers && !rx->writers) {
			rx->writers = 1;
			rx->everWriter = true;
		}
		if(tx && tx->fifo && !tx->readers)
			peer(Op("peer", {3, 0}));
		bool open = layer->isOpen();
		if(kind == LPipes || kind == LStdio)
			open = open && tx->readers && rx->writers;
		bool fifoOut = kind == LOutbound || kind == LDouble || kind == LXsim;
		if(kind != LInbound && (open || fifoOut)) {
			for(int i = 0; i < 3 && !ctx.failed; i++) {
				call();
				send(content(mix(msgKey++, 5), 40 + 100 * (size_t)i), true);
				if(i && layer->lastError() && !ctx.failed)
					ctx.fail("refused", "error %d is reported, while all faults are gone", layer->lastError());
			}
		}
		if(ctx.failed)
			return;
		if(rx && kind != LOutbound && (fds.size() && rx->readers)) {
			for(int i = 0; i < 20000 && !ctx.failed; i++) {
				if(i < 3)
					peerWrite(*rx, 30);
				if(layer->recv(0) == EAGAIN && rx->buf.empty() && i >= 3)
					break;
				if(kind == LXsim)
					peerRead(*tx, tx->buf.size());
			}
			checkDecoded();
			if(!rx->regular && !rx->buf.empty() && rx->readers)
				ctx.fail("lost", "%zu bytes are not received", rx->buf.size());
			if(rx->regular && rx->given != rx->written && rx->readers)
				ctx.fail("lost", "%zu of %zu bytes are received", rx->given.size(), rx->written.size());
		}
		if(tx && !ctx.failed) {
			peerRead(*tx, tx->buf.size());
			if(!tx->regular && tx->consumed != tx->written.size())
				ctx.fail("terminal", "%zu bytes arrive, %zu are written", (size_t)tx->consumed, tx->written.size());
		}
		layer.reset();
		for(auto const& f : fds)
			ctx.fail("leak", "file descriptor %d is never closed", f.first);
	}
};

void Sink::decode(void* buffer, size_t len)
{
	w.decoded.append((char*)buffer, len);
	w.decodes++;
	w.ctx.log("decode %zu", len);
	if(!len)
		w.ctx.fail("nothing", "empty data is decoded");
	// The buffer may be changed by the layers on top of it.
	memset(buffer, 0x55, len);
	if(w.cfg.get("echo") && w.depth < 1 && w.kind != LInbound) {
		w.depth++;
		int p = w.perm, pf = w.permFd;
		w.perm = 0;
		w.send(content(mix(w.msgKey++, 9), len + 3), true);
		w.perm = p;
		w.permFd = pf;
		w.depth--;
	}
}

void Sink::connected()
{
	w.ctx.log("connected");
}
} // namespace

void fileConfig(Rng& rng, Config& c)
{
	c["layer"] = rng.range(0, LayerCount - 1);
	c["cap"] = rng.pick(std::vector<i64>{1, 5, 16, 64, 64, 64, 64, 300, 300, 300, 4096, 4096});
	c["bufsize"] = rng.pick(std::vector<i64>{1, 2, 5, 16, 128, 128});
	c["flag"] = rng.range(0, 2);
	c["perm"] = rng.chance(300);
	c["openerr"] = rng.chance(200);
	c["exists"] = rng.chance(500);
	c["echo"] = rng.chance(200);
	c["ttyseed"] = (i64)rng.below(1u << 30);
	c["badbaud"] = rng.chance(50);
	c["baud"] = c["badbaud"] ? rng.range(1, 40) : rng.pick(std::vector<i64>{50, 300, 1200, 9600, 19200, 38400, 57600, 115200, 115200, 230400, 921600, 4000000});
	c["xonxoff"] = rng.chance(300);
	c["rtscts"] = rng.chance(300);
}
World* makeFile(Ctx& c, Config const& cfg) { return new FileWorld(c, cfg); }
} // namespace sim
