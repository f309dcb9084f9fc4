// A simulated operating system and ZeroMQ library: the calls of libstored are redirected (linker --wrap) to the current Os.
#pragma once
#include <csignal>
#include <poll.h>
#include <sys/types.h>
#include <zmq.h>

struct termios;

namespace sim {
struct Os {
	virtual ~Os() {}
	virtual int open(char const* path, int flags);
	virtual int close(int fd);
	virtual ssize_t read(int fd, void* buf, size_t n);
	virtual ssize_t write(int fd, void const* buf, size_t n);
	virtual int poll(struct pollfd* fds, nfds_t n, int timeout);
	virtual int fcntl(int fd, int cmd, long arg);
	virtual int mkfifo(char const* path);
	virtual sighandler_t signal(int sig, sighandler_t h);
	virtual int isatty(int fd);
	virtual int tcgetattr(int fd, struct termios* t);
	virtual int tcsetattr(int fd, struct termios const* t);
	virtual int tcdrain(int fd);
	virtual int tcsendbreak(int fd);
	virtual int usleep(unsigned us);

	virtual void* zctx();
	virtual int zterm(void* ctx);
	virtual void* zsocket(void* ctx, int type);
	virtual int zclose(void* s);
	virtual int zbind(void* s, char const* ep);
	virtual int zconnect(void* s, char const* ep);
	virtual int zgetsockopt(void* s, int opt, void* v, size_t* n);
	virtual int zmsgInit(zmq_msg_t* m);
	virtual int zmsgRecv(zmq_msg_t* m, void* s, int flags);
	virtual int zmsgMore(zmq_msg_t const* m);
	virtual size_t zmsgSize(zmq_msg_t const* m);
	virtual void* zmsgData(zmq_msg_t* m);
	virtual int zmsgGet(zmq_msg_t const* m, int prop);
	virtual int zmsgClose(zmq_msg_t* m);
	virtual int zsend(void* s, void const* buf, size_t n, int flags);
	virtual int zpoll(zmq_pollitem_t* items, int n, long timeout);
};
extern Os* os; // null: the real calls
// malloc/realloc of libstored itself (not of its Allocator): number of calls that still succeed (<0: all).
extern long reallocFailAfter;
extern bool reallocFailed;
} // namespace sim
