// A simulated serial port: what a terminal with the given settings does to the bytes.
#include "kernel.h"
#include <termios.h>

namespace sim {
struct Tty {
	void* t;
	Tty();
	~Tty();
	void scramble(u64 seed);
	void get(struct termios* x) const;
	void set(struct termios const* x);
	bool input(unsigned char& c) const;
	std::string output(std::string const& s) const;
	bool canonical() const;
	bool echo() const;
	bool readsZero() const;
	bool baudIs(unsigned long baud) const;
	struct termios& T() const { return *static_cast<struct termios*>(t); }
};
Tty::Tty() : t(new struct termios()) {}
Tty::~Tty() { delete static_cast<struct termios*>(t); }
void Tty::scramble(u64 seed)
{
	Rng r(seed);
	auto& x = T();
	memset(&x, 0, sizeof(x));
	auto flag = [&](tcflag_t& f, std::vector<tcflag_t> const& bits) {
		for(auto b : bits)
			if(r.chance(500))
				f |= b;
	};
	flag(x.c_iflag, {BRKINT, ICRNL, INLCR, IGNCR, PARMRK, INPCK, ISTRIP, IXON, IXOFF, IXANY, IGNBRK, IGNPAR, IMAXBEL, IUCLC});
	flag(x.c_oflag, {OPOST, ONLCR, OCRNL, ONLRET, OLCUC});
	flag(x.c_lflag, {ECHO, ECHONL, ICANON, IEXTEN, ISIG, ECHOE});
	flag(x.c_cflag, {CSTOPB, CREAD, PARENB, HUPCL, CLOCAL});
	if(!(seed & 1))
		x.c_iflag &= (tcflag_t)~IGNCR;
	x.c_cflag |= CREAD;
	x.c_cflag |= std::vector<tcflag_t>{CS5, CS6, CS7, CS8}[r.below(4)];
	cfsetispeed(&x, B9600);
	cfsetospeed(&x, B9600);
	x.c_cc[VINTR] = 3;
	x.c_cc[VQUIT] = 28;
	x.c_cc[VSUSP] = 26;
	x.c_cc[VEOF] = 4;
	x.c_cc[VSTART] = 0x11;
	x.c_cc[VSTOP] = 0x13;
	x.c_cc[VLNEXT] = 22;
	x.c_cc[VMIN] = (cc_t)r.below(3);
	x.c_cc[VTIME] = (cc_t)r.below(3);
}
void Tty::get(struct termios* x) const { *x = T(); }
void Tty::set(struct termios const* x) { T() = *x; }
bool Tty::input(unsigned char& c) const
{
	auto& x = T();
	switch(x.c_cflag & CSIZE) {
	case CS5: c &= 0x1f; break;
	case CS6: c &= 0x3f; break;
	case CS7: c &= 0x7f; break;
	}
	if(x.c_iflag & ISTRIP)
		c &= 0x7f;
	else if(c == 0xff && (x.c_iflag & PARMRK) && !(x.c_iflag & IGNPAR))
		return false; // it is doubled
	if((x.c_lflag & ISIG) && (c == x.c_cc[VINTR] || c == x.c_cc[VQUIT] || c == x.c_cc[VSUSP]))
		return false;
	if((x.c_iflag & IXON) && (c == x.c_cc[VSTART] || c == x.c_cc[VSTOP]))
		return false;
	if(c == '\r') {
		if(x.c_iflag & IGNCR)
			return false;
		if(x.c_iflag & ICRNL)
			c = '\n';
	} else if(c == '\n' && (x.c_iflag & INLCR))
		c = '\r';
	if((x.c_iflag & IUCLC) && (x.c_lflag & IEXTEN) && c >= 'A' && c <= 'Z')
		c = (unsigned char)(c + 32);
	if((x.c_lflag & (ICANON | IEXTEN)) == (ICANON | IEXTEN) && c == x.c_cc[VLNEXT])
		return false;
	return true;
}
std::string Tty::output(std::string const& s) const
{
	auto& x = T();
	if(!(x.c_oflag & OPOST))
		return s;
	std::string r;
	for(auto c : s) {
		if(c == '\n' && (x.c_oflag & ONLCR))
			r += '\r';
		if(c == '\r' && (x.c_oflag & OCRNL))
			c = '\n';
		r += c;
	}
	return r;
}
bool Tty::canonical() const { return T().c_lflag & ICANON; }
bool Tty::echo() const { return T().c_lflag & ECHO; }
bool Tty::readsZero() const { return !(T().c_lflag & ICANON) && !T().c_cc[VMIN] && !T().c_cc[VTIME]; }
bool Tty::baudIs(unsigned long baud) const
{
	static std::map<unsigned long, speed_t> const m = {{50, B50}, {300, B300}, {1200, B1200}, {9600, B9600}, {19200, B19200}, {38400, B38400},
		{57600, B57600}, {115200, B115200}, {230400, B230400}, {921600, B921600}, {4000000, B4000000}};
	auto it = m.find(baud);
	return it != m.end() && cfgetispeed(&T()) == it->second && cfgetospeed(&T()) == it->second;
}
} // namespace sim
