// Histories of socket objects (C26, C27) over a simulated operating system: the socket calls of this
// program are replaced by a small kernel which splits transfers, interrupts calls and fails them.
#include "hist.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>
#include <klepsydra/socket_core/connect_socket.h>
#include <klepsydra/socket_core/data_socket.h>
#include <klepsydra/socket_core/protocol_simple.h>
#include <klepsydra/socket_core/server_socket.h>
using ksim::rnd;
using namespace kpsr::socket_mdlw;

static bool g_fake = false; // a call under test is on
static int g_faults = 0;    // percent of system calls with a fault

static const char *ename(int e)
{
    switch (e) {
#define N(x)                                                                                       \
    case x:                                                                                        \
        return #x;
        N(EINTR) N(EAGAIN) N(ETIMEDOUT) N(ECONNRESET) N(ENOTCONN) N(EPIPE) N(EIO) N(ENOSPC) N(EBADF)
        N(ENOBUFS) N(ENOMEM) N(EINVAL) N(ENXIO) N(EDQUOT) N(EFBIG) N(ENETDOWN) N(ENETUNREACH) N(EFAULT)
        N(EMFILE) N(EACCES) N(EADDRINUSE) N(ECONNREFUSED) N(ENOENT) N(ECONNABORTED) N(EPROTO)
#undef N
    }
    return "E?";
}

struct Kernel
{
    struct Fd
    {
        int peer = -1;
        std::deque<unsigned char> in;
        bool eof = false, reset = false, wrShut = false, listening = false, bound = false;
        int passing = 0, idle = 0;
    };
    std::map<int, Fd> fds;
    int base = 0;
    int alloc()
    {
        int f = base;
        while (fds.count(f))
            f++;
        fds[f] = Fd();
        return f;
    }
};
static Kernel K;

static void sys(const char *o, int fd, long n, const std::vector<long> &b, long r, const char *err)
{
    ksim::log("\"e\":\"sys\",\"t\":0,\"o\":\"" + std::string(o) + "\",\"fd\":" + std::to_string(fd)
              + ",\"n\":" + std::to_string(n) + ",\"b\":" + hist::arr(b) + ",\"r\":" + std::to_string(r)
              + ",\"err\":\"" + err + "\"");
}
static int failWith(const char *o, int fd, long n, int e, const std::vector<long> &b = {})
{
    sys(o, fd, n, b, -1, ename(e));
    errno = e;
    return -1;
}
static bool fault()
{
    return (int) rnd(100) < g_faults;
}
template<size_t N> static int pick(const int (&e)[N])
{
    return e[rnd(N)];
}
static std::vector<long> addrOf(const sockaddr *a, socklen_t len)
{
    if (a->sa_family == AF_INET)
        return {4, ntohs(((const sockaddr_in *) a)->sin_port)};
    std::string p = ((const sockaddr_un *) a)->sun_path;
    return {1, p.size() ? atol(p.c_str() + p.find_last_of('k') + 1) : -1};
}
// a buffer of the harness itself which must not be overrun
static const char *g_lo = nullptr, *g_hi = nullptr;

static ssize_t doRead(int fd, void *buf, size_t n)
{
    if (!K.fds.count(fd))
        return failWith("read", fd, n, EBADF);
    auto &f = K.fds[fd];
    const char *b = (const char *) buf;
    if (b >= g_lo && b < g_hi && b + n > g_hi)
        ksim::impossible("read past the end of the buffer");
    if (fault()) {
        static const int hard[] = {EIO, ENOBUFS, ENOMEM, EINVAL, ENXIO, EFAULT, ENETDOWN};
        static const int soft[] = {EINTR, EAGAIN, ETIMEDOUT};
        static const int gone[] = {ECONNRESET, ENOTCONN};
        int k = (int) rnd(20);
        if (k == 0)
            return failWith("read", fd, n, pick(hard));
        if (k == 1) {
            f.reset = f.eof = true;
            f.in.clear();
            return failWith("read", fd, n, pick(gone));
        }
        if (++f.passing <= 3)
            return failWith("read", fd, n, pick(soft));
    }
    f.passing = 0;
    if (f.in.empty() && !f.eof && f.peer != -1) {
        // nothing there yet: the connection breaks if nobody ever sends
        if (++f.idle <= 2)
            return failWith("read", fd, n, EAGAIN);
        f.reset = f.eof = true;
        return failWith("read", fd, n, ECONNRESET);
    }
    f.idle = 0;
    size_t k = std::min(n, f.in.size());
    if (k > 1 && rnd(2))
        k = 1 + rnd(k);
    std::vector<long> v;
    for (size_t i = 0; i < k; i++) {
        ((unsigned char *) buf)[i] = f.in.front();
        v.push_back(f.in.front());
        f.in.pop_front();
    }
    sys("read", fd, n, v, k, "");
    return k;
}
static ssize_t doWrite(int fd, const void *buf, size_t n)
{
    if (!K.fds.count(fd))
        return failWith("write", fd, n, EBADF);
    auto &f = K.fds[fd];
    if (f.wrShut || f.reset)
        return failWith("write", fd, n, EPIPE);
    if (fault()) {
        static const int hard[] = {EIO, ENOSPC, EINVAL, ENXIO, EPIPE, ECONNRESET, EDQUOT, EFBIG, ENETDOWN,
                                   ENETUNREACH, ENOMEM};
        static const int soft[] = {EINTR, EAGAIN};
        if (rnd(12) == 0)
            return failWith("write", fd, n, pick(hard));
        if (++f.passing <= 3)
            return failWith("write", fd, n, pick(soft));
    }
    f.passing = 0;
    size_t k = n;
    if (k > 1 && rnd(2))
        k = 1 + rnd(k);
    std::vector<long> v;
    for (size_t i = 0; i < k; i++)
        v.push_back(((const unsigned char *) buf)[i]);
    if (f.peer != -1 && K.fds.count(f.peer) && !K.fds[f.peer].reset)
        for (auto x : v)
            K.fds[f.peer].in.push_back((unsigned char) x);
    sys("write", fd, n, v, k, "");
    return k;
}
static int doAccept(int fd)
{
    if (!K.fds.count(fd))
        return failWith("accept", fd, 0, EBADF);
    if (!K.fds[fd].listening)
        return failWith("accept", fd, 0, EINVAL);
    if (fault()) {
        static const int e[] = {EINTR, EAGAIN, ECONNABORTED, EMFILE, ENOBUFS, EPROTO};
        return failWith("accept", fd, 0, pick(e));
    }
    int r = K.alloc();
    sys("accept", fd, 0, {}, r, "");
    return r;
}
// is anybody waiting: 0 timed out, -1 interrupted
static int doWait(int fd)
{
    if (!K.fds.count(fd))
        return failWith("wait", fd, 0, EBADF);
    if (fault())
        return failWith("wait", fd, 0, EINTR);
    if (fault()) {
        sys("wait", fd, 0, {}, 0, "timeout");
        return 0;
    }
    sys("wait", fd, 0, {}, 1, "");
    return 1;
}

extern "C" {
int socket(int d, int t, int p) noexcept
{
    if (!g_fake)
        return syscall(SYS_socket, d, t, p);
    if (fault()) {
        static const int e[] = {EMFILE, EACCES, ENOBUFS};
        return failWith("socket", -1, 0, pick(e));
    }
    int f = K.alloc();
    sys("socket", -1, 0, {}, f, "");
    return f;
}
int connect(int fd, const sockaddr *a, socklen_t len)
{
    if (!g_fake)
        return syscall(SYS_connect, fd, a, len);
    auto x = addrOf(a, len);
    if (!K.fds.count(fd))
        return failWith("connect", fd, 0, EBADF, x);
    if (fault()) {
        static const int e[] = {ECONNREFUSED, ETIMEDOUT, ENETUNREACH, ENOENT};
        return failWith("connect", fd, 0, pick(e), x);
    }
    sys("connect", fd, 0, x, 0, "");
    return 0;
}
int bind(int fd, const sockaddr *a, socklen_t len) noexcept
{
    if (!g_fake)
        return syscall(SYS_bind, fd, a, len);
    auto x = addrOf(a, len);
    if (!K.fds.count(fd))
        return failWith("bind", fd, 0, EBADF, x);
    if (fault()) {
        static const int e[] = {EADDRINUSE, EACCES};
        return failWith("bind", fd, 0, pick(e), x);
    }
    K.fds[fd].bound = true;
    sys("bind", fd, 0, x, 0, "");
    return 0;
}
int listen(int fd, int n) noexcept
{
    if (!g_fake)
        return syscall(SYS_listen, fd, n);
    if (!K.fds.count(fd))
        return failWith("listen", fd, 0, EBADF);
    if (fault())
        return failWith("listen", fd, 0, EADDRINUSE);
    K.fds[fd].listening = K.fds[fd].bound;
    sys("listen", fd, 0, {}, 0, "");
    return 0;
}
int accept(int fd, sockaddr *a, socklen_t *len)
{
    if (!g_fake)
        return syscall(SYS_accept, fd, a, len);
    return doAccept(fd);
}
int accept4(int fd, sockaddr *a, socklen_t *len, int fl)
{
    if (!g_fake)
        return syscall(SYS_accept4, fd, a, len, fl);
    return doAccept(fd);
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, timeval *tv)
{
    if (!g_fake)
        return syscall(SYS_select, n, r, w, x, tv);
    int fd = -1;
    for (int i = 0; r && i < n; i++)
        if (FD_ISSET(i, r))
            fd = i;
    int k = doWait(fd);
    if (k == 0)
        FD_ZERO(r);
    return k;
}
int poll(pollfd *p, nfds_t n, int ms)
{
    if (!g_fake)
        return syscall(SYS_poll, p, n, ms);
    int k = doWait(n ? p[0].fd : -1);
    if (n)
        p[0].revents = k == 1 ? p[0].events & POLLIN : 0;
    return k;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!g_fake)
        return syscall(SYS_fcntl, fd, cmd, arg);
    if (!K.fds.count(fd))
        return failWith("fcntl", fd, 0, EBADF);
    sys("fcntl", fd, 0, {}, 0, "");
    return 0;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) noexcept
{
    if (!g_fake)
        return syscall(SYS_setsockopt, fd, l, o, v, n);
    if (!K.fds.count(fd))
        return failWith("setsockopt", fd, 0, EBADF);
    sys("setsockopt", fd, 0, {}, 0, "");
    return 0;
}
int shutdown(int fd, int how) noexcept
{
    if (!g_fake)
        return syscall(SYS_shutdown, fd, how);
    if (!K.fds.count(fd))
        return failWith("shutdown", fd, how, EBADF);
    auto &f = K.fds[fd];
    if (f.peer == -1 || f.reset || fault())
        return failWith("shutdown", fd, how, ENOTCONN);
    f.wrShut = true;
    if (K.fds.count(f.peer))
        K.fds[f.peer].eof = true;
    sys("shutdown", fd, how, {}, 0, "");
    return 0;
}
ssize_t read(int fd, void *b, size_t n)
{
    return g_fake ? doRead(fd, b, n) : syscall(SYS_read, fd, b, n);
}
ssize_t recv(int fd, void *b, size_t n, int fl)
{
    return g_fake ? doRead(fd, b, n) : syscall(SYS_recvfrom, fd, b, n, fl, 0, 0);
}
ssize_t write(int fd, const void *b, size_t n)
{
    return g_fake ? doWrite(fd, b, n) : syscall(SYS_write, fd, b, n);
}
ssize_t send(int fd, const void *b, size_t n, int fl)
{
    return g_fake ? doWrite(fd, b, n) : syscall(SYS_sendto, fd, b, n, fl, 0, 0);
}
int close(int fd)
{
    if (!g_fake)
        return syscall(SYS_close, fd);
    if (!K.fds.count(fd))
        return failWith("close", fd, 0, EBADF);
    int p = K.fds[fd].peer;
    if (p != -1 && K.fds.count(p)) {
        K.fds[p].eof = true;
        K.fds[p].peer = -1;
    }
    K.fds.erase(fd);
    if (fault()) { // the descriptor is released all the same
        static const int e[] = {EINTR, EINTR, EIO, ENOSPC};
        return failWith("close", fd, 0, pick(e));
    }
    // errno keeps whatever an earlier call has left there
    sys("close", fd, 0, {}, 0, "");
    return 0;
}
}

static void ev(const std::string &e, const std::string &rest)
{
    ksim::log("\"e\":\"" + e + "\",\"t\":0" + rest);
}
template<class F> static void op(const char *o, const std::vector<long> &a, const std::vector<long> &b, F f)
{
    ev("call", std::string(",\"o\":\"") + o + "\",\"a\":" + hist::arr(a) + ",\"b\":" + hist::arr(b));
    std::vector<long> r;
    static const int stale[] = {0, EINTR, EIO, EBADF, EAGAIN, ENOENT};
    g_fake = true;
    errno = pick(stale);
    try {
        r = f();
    } catch (const std::exception &) {
        g_fake = false;
        ev("ret", ",\"r\":[],\"x\":\"exception\"");
        return;
    }
    g_fake = false;
    ev("ret", ",\"r\":" + hist::arr(r) + ",\"x\":\"\"");
}
static std::vector<long> bytes(const std::string &s)
{
    std::vector<long> v;
    for (unsigned char c : s)
        v.push_back(c);
    return v;
}

struct Rig
{
    std::map<long, std::shared_ptr<DataSocket>> data;
    std::map<long, std::shared_ptr<ServerSocket>> serv;
    long objects = 0;
    unsigned char next = 0;

    std::string message()
    {
        static const int sizes[] = {0, 1, 2, 13, 14, 15, 16, 29, 30, 31, 32, 40, 60};
        int n = rnd(3) ? (int) rnd(20) : pick(sizes);
        std::string s;
        for (int i = 0; i < n; i++)
            s += (char) (next += 7);
        return s;
    }
    template<class M> long any(M &m)
    {
        auto it = m.begin();
        std::advance(it, rnd(m.size()));
        return it->first;
    }
    void destroy(long o)
    {
        op("destroy", {o}, {}, [&]() -> std::vector<long> {
            if (data.count(o))
                data.erase(o);
            else
                serv.erase(o);
            return {};
        });
    }
    void adopt(int fd)
    {
        long o = ++objects;
        op("adopt", {o, fd}, {}, [&]() -> std::vector<long> {
            data[o] = std::make_shared<DataSocket>(fd);
            return {};
        });
    }
    void pair()
    {
        int x = K.alloc(), y = K.alloc();
        K.fds[x].peer = y;
        K.fds[y].peer = x;
        op("pair", {x, y}, {}, []() -> std::vector<long> { return {}; });
        adopt(x);
        adopt(y);
    }
    void open()
    {
        long o = ++objects, kind = rnd(2) ? 4 : 1, at = 1000 + (long) rnd(1000);
        std::string path = "/nowhere/k" + std::to_string(at);
        if (rnd(2))
            op("connect", {o, kind, at}, {}, [&]() -> std::vector<long> {
                auto p = kind == 4 ? std::make_shared<ConnectSocket>("127.0.0.1", (int) at)
                                   : std::make_shared<ConnectSocket>(path);
                data[o] = p;
                return {};
            });
        else
            op("server", {o, kind, at}, {}, [&]() -> std::vector<long> {
                auto p = kind == 4 ? std::make_shared<ServerSocket>((int) at)
                                   : std::make_shared<ServerSocket>(path);
                serv[o] = p;
                return {};
            });
    }
    template<class T> void moves(std::map<long, std::shared_ptr<T>> &m)
    {
        long x = any(m), y = any(m), o;
        switch (rnd(3)) {
        case 0:
            o = ++objects;
            op("move", {o, y}, {}, [&]() -> std::vector<long> {
                m[o] = std::make_shared<T>(std::move(*m[y]));
                return {};
            });
            break;
        case 1:
            op("assign", {x, y}, {}, [&]() -> std::vector<long> {
                *m[x] = std::move(*m[y]);
                return {};
            });
            break;
        default:
            op("swap", {x, y}, {}, [&]() -> std::vector<long> {
                m[x]->swap(*m[y]);
                return {};
            });
        }
    }
    void transfer()
    {
        long o = any(data);
        auto p = data[o];
        switch (rnd(8)) {
        case 0:
        case 1: {
            auto s = message();
            op("put", {o}, bytes(s), [&]() -> std::vector<long> {
                p->putMessageData(s.data(), s.size());
                return {};
            });
            break;
        }
        case 2:
        case 3: {
            auto s = message();
            op("send", {o}, bytes(s), [&]() -> std::vector<long> {
                ProtocolSimple ps(p);
                ps.sendMessage(s);
                return {};
            });
            break;
        }
        case 4:
            op("end", {o}, {}, [&]() -> std::vector<long> {
                p->putMessageClose();
                return {};
            });
            break;
        case 5: {
            long size = rnd(4) ? 1 + (long) rnd(20) : (long) rnd(60),
                 stop = rnd(2) ? 0 : 1 + (long) rnd(size + 2);
            std::vector<char> buf(size + 16, 'x');
            op("get", {o, size, stop}, {}, [&]() -> std::vector<long> {
                g_lo = buf.data(), g_hi = buf.data() + size;
                size_t n = p->getMessageData(buf.data(), size, [stop](size_t k) {
                    return stop && (long) k >= stop;
                });
                if (n > (size_t) size)
                    ksim::impossible("more received than asked for");
                return bytes(std::string(buf.data(), n));
            });
            g_lo = g_hi = nullptr;
            break;
        }
        default: {
            std::string m = message();
            op("receive", {o}, {}, [&]() -> std::vector<long> {
                ProtocolSimple ps(p);
                ps.recvMessage(m);
                return bytes(m);
            });
        }
        }
    }
    void step(bool streams)
    {
        int k = (int) rnd(20);
        if (data.empty() || k == 0)
            pair();
        else if (streams ? k < 15 : k < 4)
            transfer();
        else if (k == 15 || (k < 8 && !streams)) {
            moves(data);
            if (!serv.empty() && rnd(3) == 0)
                moves(serv);
        } else if (k == 16)
            destroy(serv.empty() || rnd(2) ? any(data) : any(serv));
        else if (k < 12) {
            open();
        } else if (k == 17) {
            if (rnd(4) == 0)
                adopt(-1);
        } else if (k == 18) {
            long o = serv.empty() || rnd(2) ? any(data) : any(serv);
            op("close", {o}, {}, [&]() -> std::vector<long> {
                if (data.count(o))
                    data[o]->close();
                else
                    serv[o]->close();
                return {};
            });
        } else if (!serv.empty() && !streams) {
            long o = ++objects, sv = any(serv);
            op("accept", {o, sv}, {}, [&]() -> std::vector<long> {
                data[o] = serv[sv]->accept(1);
                return {};
            });
        }
    }
};

static void scenario(const ksim::Params &p)
{
    K = Kernel();
    K.base = rnd(2) ? 0 : 3;
    static const int fl[] = {0, 10, 25, 50};
    g_faults = pick(fl);
    g_lo = g_hi = nullptr;
    g_fake = false;
    hist::cfg("\"base\":" + std::to_string(K.base));
    Rig r;
    int k = 5 + (int) rnd(20);
    for (int i = 0; i < k; i++)
        r.step(p.scen == "streams");
    while (!r.data.empty())
        r.destroy(r.data.begin()->first);
    while (!r.serv.empty())
        r.destroy(r.serv.begin()->first);
    for (auto &f : K.fds)
        ev("open", ",\"a\":[" + std::to_string(f.first) + "]");
}
int main(int argc, char **argv)
{
    return ksim::driverMain(argc, argv, scenario);
}
