#include "simos.h"

#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <termios.h>
#include <unistd.h>

namespace sim {
Os* os;
long reallocFailAfter = -1;
bool reallocFailed;

#define NOSYS(T, sig, v)                                                                                               \
	T Os::sig                                                                                                      \
	{                                                                                                              \
		errno = ENOSYS;                                                                                        \
		return v;                                                                                              \
	}
NOSYS(int, open(char const*, int), -1)
NOSYS(int, close(int), -1)
NOSYS(ssize_t, read(int, void*, size_t), -1)
NOSYS(ssize_t, write(int, void const*, size_t), -1)
NOSYS(int, poll(struct pollfd*, nfds_t, int), -1)
NOSYS(int, fcntl(int, int, long), -1)
NOSYS(int, mkfifo(char const*), -1)
NOSYS(sighandler_t, signal(int, sighandler_t), SIG_ERR)
NOSYS(int, isatty(int), 0)
NOSYS(int, tcgetattr(int, struct termios*), -1)
NOSYS(int, tcsetattr(int, struct termios const*), -1)
NOSYS(int, tcdrain(int), -1)
NOSYS(int, tcsendbreak(int), -1)
NOSYS(int, usleep(unsigned), -1)
NOSYS(void*, zctx(), nullptr)
NOSYS(int, zterm(void*), -1)
NOSYS(void*, zsocket(void*, int), nullptr)
NOSYS(int, zclose(void*), -1)
NOSYS(int, zbind(void*, char const*), -1)
NOSYS(int, zconnect(void*, char const*), -1)
NOSYS(int, zgetsockopt(void*, int, void*, size_t*), -1)
NOSYS(int, zmsgInit(zmq_msg_t*), -1)
NOSYS(int, zmsgRecv(zmq_msg_t*, void*, int), -1)
NOSYS(int, zmsgMore(zmq_msg_t const*), 0)
NOSYS(size_t, zmsgSize(zmq_msg_t const*), 0)
NOSYS(void*, zmsgData(zmq_msg_t*), nullptr)
NOSYS(int, zmsgGet(zmq_msg_t const*, int), -1)
NOSYS(int, zmsgClose(zmq_msg_t*), -1)
NOSYS(int, zsend(void*, void const*, size_t, int), -1)
NOSYS(int, zpoll(zmq_pollitem_t*, int, long), -1)

namespace {
Os none;
Os& cur() { return os ? *os : none; }
} // namespace
} // namespace sim
using sim::os;

extern "C" {
int __real_open(char const*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, void const*, size_t);
int __real_poll(struct pollfd*, nfds_t, int);
int __real_fcntl(int, int, ...);
sighandler_t __real_signal(int, sighandler_t);
void* __real_realloc(void*, size_t);
void* __real_malloc(size_t);

int __wrap_open(char const* p, int f, ...)
{
	va_list a;
	va_start(a, f);
	int mode = (f & O_CREAT) ? va_arg(a, int) : 0;
	va_end(a);
	return os ? os->open(p, f) : __real_open(p, f, mode);
}
int __wrap_close(int fd) { return os ? os->close(fd) : __real_close(fd); }
ssize_t __wrap_read(int fd, void* b, size_t n) { return os ? os->read(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, void const* b, size_t n) { return os && fd != 2 ? os->write(fd, b, n) : __real_write(fd, b, n); }
int __wrap_poll(struct pollfd* f, nfds_t n, int t) { return os ? os->poll(f, n, t) : __real_poll(f, n, t); }
int __wrap_fcntl(int fd, int cmd, ...)
{
	va_list a;
	va_start(a, cmd);
	long arg = va_arg(a, long);
	va_end(a);
	return os ? os->fcntl(fd, cmd, arg) : __real_fcntl(fd, cmd, arg);
}
sighandler_t __wrap_signal(int s, sighandler_t h) { return os ? os->signal(s, h) : __real_signal(s, h); }
void* __wrap_realloc(void* p, size_t n)
{
	if(os && sim::reallocFailAfter >= 0 && sim::reallocFailAfter-- == 0) {
		sim::reallocFailed = true;
		errno = ENOMEM;
		return nullptr;
	}
	return __real_realloc(p, n);
}
void* __wrap_malloc(size_t n)
{
	if(os && sim::reallocFailAfter >= 0 && sim::reallocFailAfter-- == 0) {
		sim::reallocFailed = true;
		errno = ENOMEM;
		return nullptr;
	}
	return __real_malloc(n);
}
int __wrap_mkfifo(char const* p, mode_t) { return sim::cur().mkfifo(p); }
int __wrap_isatty(int fd) { return sim::cur().isatty(fd); }
int __wrap_tcgetattr(int fd, struct termios* t) { return sim::cur().tcgetattr(fd, t); }
int __wrap_tcsetattr(int fd, int, struct termios const* t) { return sim::cur().tcsetattr(fd, t); }
int __wrap_tcdrain(int fd) { return sim::cur().tcdrain(fd); }
int __wrap_tcsendbreak(int fd, int) { return sim::cur().tcsendbreak(fd); }
int __wrap_usleep(useconds_t us) { return sim::cur().usleep(us); }

void* zmq_ctx_new(void) { return sim::cur().zctx(); }
int zmq_ctx_term(void* c) { return sim::cur().zterm(c); }
void* zmq_socket(void* c, int t) { return sim::cur().zsocket(c, t); }
int zmq_close(void* s) { return sim::cur().zclose(s); }
int zmq_bind(void* s, char const* e) { return sim::cur().zbind(s, e); }
int zmq_connect(void* s, char const* e) { return sim::cur().zconnect(s, e); }
int zmq_getsockopt(void* s, int o, void* v, size_t* n) { return sim::cur().zgetsockopt(s, o, v, n); }
int zmq_msg_init(zmq_msg_t* m) { return sim::cur().zmsgInit(m); }
int zmq_msg_recv(zmq_msg_t* m, void* s, int f) { return sim::cur().zmsgRecv(m, s, f); }
int zmq_msg_more(zmq_msg_t const* m) { return sim::cur().zmsgMore(m); }
size_t zmq_msg_size(zmq_msg_t const* m) { return sim::cur().zmsgSize(m); }
void* zmq_msg_data(zmq_msg_t* m) { return sim::cur().zmsgData(m); }
int zmq_msg_get(zmq_msg_t const* m, int p) { return sim::cur().zmsgGet(m, p); }
int zmq_msg_close(zmq_msg_t* m) { return sim::cur().zmsgClose(m); }
int zmq_send(void* s, void const* b, size_t n, int f) { return sim::cur().zsend(s, b, n, f); }
int zmq_poll(zmq_pollitem_t* i, int n, long t) { return sim::cur().zpoll(i, n, t); }
int zmq_errno(void) { return errno; }
char const* zmq_strerror(int) { return "error"; }
int zmq_recv(void* s, void* b, size_t n, int f)
{
	// Equivalent to receiving a message and copying (truncating) it.
	zmq_msg_t m;
	if(sim::cur().zmsgInit(&m))
		return -1;
	int r = sim::cur().zmsgRecv(&m, s, f);
	if(r >= 0) {
		auto d = (char const*)sim::cur().zmsgData(&m);
		for(size_t i = 0; i < n && i < (size_t)r; i++)
			((char*)b)[i] = d[i];
	}
	int e = errno;
	sim::cur().zmsgClose(&m);
	errno = e;
	return r;
}
}
