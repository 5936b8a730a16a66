// P29: the serial port over histories of operations, on a pseudo terminal.
#include "pbt.h"
#include <utUtil/Exception.h>
#include <fcntl.h>
#include <poll.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <termios.h>
#include <unistd.h>
#include <cerrno>
#include <cstring>
#include <deque>
#include <memory>
#include <dlfcn.h>
#include <utUtil/SerialPort.h>
#undef N
#undef O
#undef E
using namespace Ubitrack;
namespace {
termios lastSet;
int sets = 0, breaks = 0, breakFd = -1;
bool failWrite = false, failGet = false, failSet = false;
}
// stand-ins: a pseudo terminal ignores character size and parity, so requests are recorded before they reach it
extern "C" int tcsetattr(int fd, int when, const termios* t) __THROW {
    static auto real = (int (*)(int, int, const termios*))dlsym(RTLD_NEXT, "tcsetattr");
    if (failSet) { errno = EIO; return -1; }
    lastSet = *t;
    ++sets;
    return real(fd, when, t);
}
extern "C" int tcgetattr(int fd, termios* t) __THROW {
    static auto real = (int (*)(int, termios*))dlsym(RTLD_NEXT, "tcgetattr");
    if (failGet) { errno = EIO; return -1; }
    return real(fd, t);
}
extern "C" int tcsendbreak(int fd, int) __THROW { ++breaks; breakFd = fd; return 0; }
extern "C" ssize_t write(int fd, const void* b, size_t n) {
    if (failWrite) { errno = EIO; return -1; }
    return syscall(SYS_write, fd, b, n);
}
namespace {
struct Pty {
    int master, slave;
    std::string name;
    Pty() : master(-1), slave(-1) {
        master = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
        if (master < 0) return;
        grantpt(master);
        unlockpt(master);
        char b[128];
        if (ptsname_r(master, b, sizeof b) == 0) { name = b; slave = ::open(b, O_RDWR | O_NOCTTY | O_CLOEXEC); }
    }
    bool ok() const { return master >= 0 && slave >= 0; }
    ~Pty() { if (slave >= 0) ::close(slave); if (master >= 0) ::close(master); }
};
bool waitFor(const std::function<int()>& have, int want) {
    for (int i = 0; i < 4000; ++i) { if (have() == want) return true; if (have() > want) return false; usleep(i < 100 ? 20 : 500); }
    return false;
}
int pending(int fd) { int n = 0; ioctl(fd, FIONREAD, &n); return n; }
int openFiles() { int n = 0; for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) >= 0; return n; }
std::string bytes(pbt::Ctx& g, int n) {
    std::string s;
    bool text = g.oneIn(3);
    for (int i = 0; i < n; ++i) s += char(g.oneIn(3) ? g.pick(std::vector<int>{0, 3, 4, 10, 13, 17, 19, 26, 28, 127, 128, 255}) : text ? g.range(32, 126) : g.range(0, 255));
    return s;
}
template <class F> bool throws(F f) { try { f(); } catch (const Util::Exception&) { return true; } return false; }
const unsigned long good[] = {9600, 19200, 38400, 57600, 115200, 230400};
const speed_t speeds[] = {B9600, B19200, B38400, B57600, B115200, B230400};
}
PROP(history, 1500, 30000, "data in both directions and a reopened port") {
    Pty pty;
    g.assume(pty.ok());
    int before = openFiles();
    int b = g.range(0, 5);
    auto port = std::unique_ptr<Util::SerialPort>(new Util::SerialPort(pty.name, good[b]));
    REQ(port->getBaudRate() == good[b], "baud rate");
    termios start;
    tcgetattr(pty.slave, &start);
    bool open = false;
    std::deque<char> in;
    int ops = g.range(1, 45), sent = 0, received = 0, opens = 0;
    g.note() << good[b] << ":";
    for (int o = 0; o < ops; ++o) {
        int k = g.range(0, 9);
        if (!open && g.coin()) k = 0;
        unsigned char buf[600];
        g.note() << " " << k;
        switch (k) {
        case 0: case 1:
            if (k == 1) {
                // the port is opened a second time without effect
                if (!open) break;
            }
            { int s = sets; port->open(0, 0); if (open) REQ(sets == s, "an open port is configured again"); }
            if (!open) {
                ++opens;
                REQ(openFiles() == before + 1, "an opened port has " << openFiles() - before << " descriptors");
                // what came in before, with other settings, does not count
                tcflush(pty.slave, TCIFLUSH);
                in.clear();
            }
            open = true;
            break;
        case 2:
            port->close();
            open = false;
            REQ(openFiles() == before, "a closed port holds " << openFiles() - before << " descriptors");
            { termios now; tcgetattr(pty.slave, &now); REQ(now.c_iflag == start.c_iflag && now.c_oflag == start.c_oflag && now.c_lflag == start.c_lflag && now.c_cflag == start.c_cflag, "closing does not restore the settings"); }
            break;
        case 3: case 4: {
            std::string s = bytes(g, g.size(1, 300));
            if (!open) { REQ(throws([&] { port->send((const unsigned char*)s.data(), s.size()); }), "a closed port sends"); break; }
            unsigned long n = port->send((const unsigned char*)s.data(), s.size());
            REQ(n == s.size(), "sent " << n << " of " << s.size() << " bytes");
            std::string got;
            for (int i = 0; i < 2000 && got.size() < n; ++i) { pollfd p = {pty.master, POLLIN, 0}; if (poll(&p, 1, 10) > 0) { ssize_t r = ::read(pty.master, buf, sizeof buf); if (r > 0) got.append((char*)buf, r); } }
            REQ(got == s, "sent " << s.size() << " bytes, " << got.size() << " arrived, " << (got.size() == s.size() ? "changed" : "not all"));
            ++sent;
            break;
        }
        case 5: {
            if (!open || in.size() > 2000) break;
            std::string s = bytes(g, g.size(1, 300));
            REQ(::write(pty.master, s.data(), s.size()) == ssize_t(s.size()), "harness");
            for (char c : s) in.push_back(c);
            REQ(waitFor([&] { return pending(pty.slave); }, int(in.size())), in.size() << " bytes are waiting, " << pending(pty.slave) << " of them visible");
            break;
        }
        case 6: case 7: {
            unsigned long n = g.coin() ? sizeof buf : g.range(1, 50);
            if (!open) { REQ(throws([&] { port->read(buf, n); }), "a closed port reads"); break; }
            std::memset(buf, 0xee, sizeof buf);
            unsigned long r = port->read(buf, n), want = std::min<unsigned long>(n, in.size());
            REQ(r == want, "read " << r << " bytes instead of " << want);
            for (unsigned long i = 0; i < r; ++i) { REQ((char)buf[i] == in.front(), "byte " << i << " is read as " << int(buf[i]) << " instead of " << int((unsigned char)in.front())); in.pop_front(); }
            for (unsigned long i = r; i < sizeof buf; ++i) REQ(buf[i] == 0xee, "byte " << i << " behind the data is changed");
            if (r) ++received;
            break;
        }
        case 8:
            if (!open) { REQ(throws([&] { port->bytesOnRead(); }), "a closed port has data"); break; }
            REQ(port->bytesOnRead() == in.size(), port->bytesOnRead() << " bytes reported, " << in.size() << " are waiting");
            break;
        default:
            if (g.coin()) {
                if (!open) { REQ(throws([&] { port->flush(); }), "a closed port is flushed"); break; }
                port->flush();
                in.clear();
                REQ(port->bytesOnRead() == 0, port->bytesOnRead() << " bytes after flush");
            } else {
                int was = breaks;
                if (!open) { REQ(throws([&] { port->sendBreak(); }) && breaks == was, "a closed port sends a break"); break; }
                port->sendBreak();
                REQ(breaks == was + 1, "break is not sent");
            }
        }
    }
    // somebody else uses the descriptor of a closed port
    if (!open && opens) {
        int other = ::open("/dev/null", O_RDWR | O_CLOEXEC);
        REQ(throws([&] { unsigned char c; port->read(&c, 1); }), "a closed port reads from another file");
        if (g.coin()) port->close();
        port.reset();
        REQ(fcntl(other, F_GETFD) >= 0, "the port closes a descriptor it does not own");
        ::close(other);
        g.cls("descriptor reused");
    }
    port.reset();
    REQ(openFiles() == before, "a destroyed port holds " << openFiles() - before << " descriptors");
    termios now;
    tcgetattr(pty.slave, &now);
    REQ(now.c_iflag == start.c_iflag && now.c_oflag == start.c_oflag && now.c_lflag == start.c_lflag, "destroying does not restore the settings");
    g.nontrivial(sent > 0 && received > 0 && opens > 1);
    if (sent) g.cls("sent"); if (received) g.cls("received"); if (opens > 1) g.cls("reopened");
}
PROP(settings, 400, 8000, "not 8N1") {
    Pty pty;
    g.assume(pty.ok());
    int b = g.range(0, 5), bits = g.range(5, 8), parity = g.range(0, 2), stop = g.range(1, 2), vtime = g.range(0, 1) ? g.range(0, 255) : 5, vmin = g.coin() ? 0 : g.range(0, 255);
    g.nontrivial(bits != 8 || parity || stop != 1);
    g.note() << good[b] << " " << bits << "NOE"[parity] << stop << " " << vtime << "," << vmin;
    bool simple = bits == 8 && parity == 0 && stop == 1 && g.coin();
    Util::SerialPort p1(pty.name, good[b]), p2(pty.name, good[b], bits, parity, stop);
    Util::SerialPort& port = simple ? p1 : p2;
    int was = sets;
    if (vtime == 5 && vmin == 0 && g.coin()) port.open(); else port.open(vtime, vmin);
    REQ(sets > was, "the port is not configured");
    termios t = lastSet;
    static const tcflag_t sizes[] = {CS5, CS6, CS7, CS8};
    REQ((t.c_cflag & CSIZE) == sizes[bits - 5], bits << " data bits are set as " << (t.c_cflag & CSIZE));
    REQ(bool(t.c_cflag & PARENB) == (parity != 0), (parity ? "no parity" : "parity") << " although " << "NOE"[parity] << " is requested");
    if (parity) REQ(bool(t.c_cflag & PARODD) == (parity == 1), "wrong kind of parity");
    REQ(bool(t.c_cflag & CSTOPB) == (stop == 2), "stop bits");
    REQ((t.c_cflag & CREAD) && (t.c_cflag & CLOCAL), "receiver or local mode is off");
    REQ(cfgetospeed(&t) == speeds[b] && cfgetispeed(&t) == speeds[b], "speed");
    REQ(t.c_cc[VTIME] == vtime && t.c_cc[VMIN] == vmin, "timeouts are " << int(t.c_cc[VTIME]) << "," << int(t.c_cc[VMIN]));
    REQ(!(t.c_lflag & (ICANON | ECHO | ISIG)) && !(t.c_oflag & OPOST) && !(t.c_iflag & (IXON | ICRNL | INLCR | IGNCR | ISTRIP | PARMRK)), "the line is not raw");
}
PROP(faults, 400, 8000, "the port exists") {
    int before = openFiles();
    {
        Pty pty;
        g.assume(pty.ok());
        int inside = openFiles(), k = g.range(0, 4);
        g.nontrivial(k != 0);
        g.note() << k << " " << g.draw(1000000);
        unsigned long rate = k == 1 ? g.pick(std::vector<unsigned long>{0, 1, 9601, 4800, 300, 1000000, ~0UL}) : good[g.range(0, 5)];
        Util::SerialPort port(k == 0 ? "/nonexistent/port" : k == 4 && g.coin() ? "/dev/null" : pty.name, rate);
        failGet = k == 2;
        failSet = k == 3;
        bool thrown;
        try { port.open(0, 0); thrown = false; } catch (const Util::Exception&) { thrown = true; } catch (...) { failGet = failSet = false; throw; }
        failGet = failSet = false;
        if (k < 4) {
            REQ(thrown, (k == 0 ? "a port that does not exist" : k == 1 ? "an unsupported rate" : "a failing configuration") << " is accepted");
            REQ(openFiles() == inside, "a port that failed to open holds " << openFiles() - inside << " descriptors");
            unsigned char c = 0;
            REQ(throws([&] { port.read(&c, 1); }) && throws([&] { port.send(&c, 1); }) && throws([&] { port.bytesOnRead(); }), "a port that failed to open is used");
            port.close();
            if (k >= 2) { port.open(0, 0); REQ(port.send(&c, 1) == 1, "second attempt"); }
        } else if (!thrown) {
            unsigned char c[3] = {1, 2, 3};
            failWrite = true;
            bool t2 = false;
            unsigned long n = 0;
            try { n = port.send(c, 3); } catch (const Util::Exception&) { t2 = true; }
            failWrite = false;
            REQ(t2 || n == 0, "a failing line accepts " << n << " bytes");
        }
    }
    REQ(openFiles() == before, openFiles() - before << " descriptors leak");
}
