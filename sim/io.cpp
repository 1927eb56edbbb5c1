// Simulated descriptors: stdin/tty, pipes, eventfd, timerfd, epoll, TCP sockets.
#include "io.h"
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <cstdarg>
#include <algorithm>

namespace sim {
namespace detail {
std::vector<std::shared_ptr<Ofd>> fdtab;
static int g_bad_closes; static uint64_t g_epseq;

struct EpollFile : Ofd {
    std::map<int, EpItem> items;
    EpollFile() { kind = "epoll"; }
    uint32_t ready() override { for (auto& i : items) if (hit(i.second)) return EPOLLIN; return 0; }
    static uint32_t mask(EpItem& i) { return i.f->ready() & (i.events | EPOLLERR | EPOLLHUP) & 0x3fffffff & ~(uint32_t)EPOLLET; }
    static bool hit(EpItem& i) { if (i.disabled) return false; if ((i.events & EPOLLET) && !i.pending) return false; return mask(i) != 0; }
    void last_close() override { for (auto& i : items) { auto& w = i.second.f->watch; w.erase(std::remove(w.begin(), w.end(), std::make_pair(this, i.first)), w.end()); } items.clear(); }
};
void Ofd::edge() { for (auto& w : watch) { auto i = w.first->items.find(w.second); if (i != w.first->items.end()) { i->second.pending = true; w.first->edge(); } } }

int fd_new(std::shared_ptr<Ofd> f)
{
    size_t i = 0;
    while (i == 1 || i == 2 || (i < fdtab.size() && fdtab[i])) ++i;
    if (i >= fdtab.size()) fdtab.resize(i + 1);
    f->refs++; fdtab[i] = f;
    return (int)i;
}
std::shared_ptr<Ofd> fd_get(int fd) { if (fd < 0 || (size_t)fd >= fdtab.size()) return nullptr; return fdtab[(size_t)fd]; }
int fd_close(int fd)
{
    auto f = fd_get(fd); if (!f) return -EBADF;
    fdtab[(size_t)fd] = nullptr;
    // an epoll registration made through this number goes with the last reference of the description
    if (--f->refs == 0)
    {
        for (auto& w : f->watch) w.first->items.erase(w.second);
        f->watch.clear();
        f->last_close();
    }
    return 0;
}

// ------------------------------------------------------------ stdin
struct StdinFile : Ofd {
    bool tty, file = false; bool can_poll() override { return !file; } termios t{}; std::deque<char> avail; std::string line; bool eof = false, err = false, hup = false; uint64_t reads = 0;
    explicit StdinFile(bool y) : tty(y)
    {
        kind = "stdin"; refs = 1;
        t.c_iflag = ICRNL | IXON; t.c_oflag = OPOST | ONLCR; t.c_cflag = CS8 | CREAD; t.c_lflag = ICANON | ECHO | ECHOE | ECHOK | ISIG | IEXTEN;
        t.c_cc[VMIN] = 1; t.c_cc[VTIME] = 0; t.c_cc[VERASE] = 127; t.c_cc[VEOF] = 4; t.c_cc[VINTR] = 3; t.c_cc[VKILL] = 21;
    }
    bool canon() const { return tty && (t.c_lflag & ICANON); }
    void put(char c)
    {
        if (!tty) { avail.push_back(c); return; }
        if (c == '\r' && (t.c_iflag & ICRNL)) c = '\n';
        if (canon())
        {
            if (c == (char)t.c_cc[VERASE]) { if (!line.empty()) line.pop_back(); return; }
            line += c;
            if (c == '\n') { for (char x : line) avail.push_back(x); line.clear(); }
        }
        else avail.push_back(c);
    }
    void set(const termios& n, bool flush)
    {
        bool was = canon(); t = n;
        if (flush) { if (!avail.empty() || !line.empty()) probe("tty_flush_discards"); avail.clear(); line.clear(); }
        if (was && !canon()) { bool had = !line.empty(); for (char x : line) avail.push_back(x); line.clear(); if (had) edge(); }
    }
    uint32_t ready() override { uint32_t m = EPOLLOUT; if (!avail.empty() || eof || err) m |= EPOLLIN; if (hup || (eof && !tty)) m |= EPOLLHUP; if (err) m |= EPOLLERR; return m; }
    ssize_t rd(char* b, size_t n) override
    {
        if (err && avail.empty()) { reads++; return -EIO; }
        if (avail.empty()) { if (eof) { reads++; return 0; } return -EAGAIN; }
        size_t k = 0; bool c = canon();
        while (k < n && !avail.empty()) { char x = avail.front(); avail.pop_front(); b[k++] = x; if (c && x == '\n') break; }
        reads++;
        return (ssize_t)k;
    }
    ssize_t wr(const char*, size_t n, bool) override { return (ssize_t)n; }
};
static std::shared_ptr<StdinFile> g_stdin;

struct PipeBuf { std::deque<char> q; bool wopen = true, ropen = true; Ofd *r = nullptr, *w = nullptr; };
struct PipeR : Ofd {
    std::shared_ptr<PipeBuf> p; PipeR() { kind = "pipe"; }
    uint32_t ready() override { return (p->q.empty() ? 0u : (uint32_t)EPOLLIN) | (p->wopen ? 0u : (uint32_t)(EPOLLHUP)); }
    ssize_t rd(char* b, size_t n) override { if (p->q.empty()) return p->wopen ? -EAGAIN : 0; size_t k = 0; while (k < n && !p->q.empty()) { b[k++] = p->q.front(); p->q.pop_front(); } if (p->w) p->w->edge(); return (ssize_t)k; }
    void last_close() override { p->ropen = false; p->r = nullptr; if (p->w) p->w->edge(); }
};
struct PipeW : Ofd {
    std::shared_ptr<PipeBuf> p; PipeW() { kind = "pipe"; }
    uint32_t ready() override { return (p->q.size() < 65536 ? (uint32_t)EPOLLOUT : 0u) | (p->ropen ? 0u : (uint32_t)EPOLLERR); }
    ssize_t wr(const char* b, size_t n, bool) override
    {
        if (!p->ropen) { struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa); if (sa.sa_handler == SIG_DFL) violation("*", "sigpipe", "a write to a pipe nobody reads kills the process with SIGPIPE"); return -EPIPE; }
        if (p->q.size() >= 65536) return -EAGAIN;
        p->q.insert(p->q.end(), b, b + n); if (p->r) p->r->edge(); return (ssize_t)n;
    }
    void last_close() override { p->wopen = false; p->w = nullptr; if (p->r) p->r->edge(); }
};
struct EventFile : Ofd {
    uint64_t v = 0; bool semaphore = false; EventFile() { kind = "eventfd"; }
    uint32_t ready() override { return (v ? (uint32_t)EPOLLIN : 0u) | EPOLLOUT; }
    ssize_t rd(char* b, size_t n) override { if (n < 8) return -EINVAL; if (!v) return -EAGAIN; uint64_t x = semaphore ? 1 : v; v -= x; memcpy(b, &x, 8); return 8; }
    ssize_t wr(const char* b, size_t n, bool) override { if (n < 8) return -EINVAL; uint64_t x; memcpy(&x, b, 8); v += x; edge(); return 8; }
};
struct TimerFile : Ofd {
    uint64_t exp = 0, interval = 0; TimerFile() { kind = "timerfd"; }
    uint32_t ready() override { return exp && now_ns() >= exp ? (uint32_t)EPOLLIN : 0u; }
    ssize_t rd(char* b, size_t n) override { if (n < 8) return -EINVAL; if (!ready()) return -EAGAIN; uint64_t x = 1; exp = interval ? exp + interval : 0; memcpy(b, &x, 8); return 8; }
};
} // detail
using namespace detail;

// ------------------------------------------------------------ TCP
struct Conn {
    unsigned short port = 0; int id = 0;
    std::deque<char> rx; bool rx_fin = false; size_t inflight = 0; uint64_t last_arrival = 0;
    std::string tx; size_t cap = 65536; bool tx_fin = false, tx_rst = false;
    bool client_closed = false, rst = false; int err = 0; bool dead = false, accepted = false, server_closed = false;
    Ofd* srv = nullptr; bool client_rst = false, client_fin = false;
    void edge() { if (srv) srv->edge(); }
};
namespace detail {
static size_t g_window = 65536; static int g_connid; 
struct Sock : Ofd {
    bool listening = false, bound = false; unsigned short port = 0; std::deque<std::shared_ptr<Conn>> backlog; std::shared_ptr<Conn> c;
    bool shut_r = false, shut_w = false; bool lingerz = false; int family = AF_INET;
    Sock() { kind = "socket"; }
    uint32_t ready() override
    {
        if (listening) return backlog.empty() ? 0u : (uint32_t)EPOLLIN;
        if (!c) return EPOLLOUT | EPOLLHUP;
        uint32_t m = 0;
        if (!c->rx.empty() || c->rx_fin || c->err || c->dead || shut_r) m |= EPOLLIN;
        if (c->rx_fin || c->dead || shut_r) m |= EPOLLRDHUP;
        if (c->tx.size() < c->cap || c->err || c->dead || shut_w) m |= EPOLLOUT;
        if (c->err) m |= EPOLLERR;
        if (c->dead || c->err || (c->rx_fin && shut_w)) m |= EPOLLHUP;
        return m;
    }
    ssize_t rd(char* b, size_t n) override
    {
        if (!c) return -ENOTCONN;
        if (!c->rx.empty() && !shut_r) { size_t k = 0; while (k < n && !c->rx.empty()) { b[k++] = c->rx.front(); c->rx.pop_front(); } return (ssize_t)k; }
        if (c->err) { int e = c->err; c->err = 0; return -(e == EPIPE ? ECONNRESET : e); }
        if (c->rx_fin || c->dead || shut_r) return 0;
        return -EAGAIN;
    }
    ssize_t wr(const char* b, size_t n, bool nosig) override
    {
        if (!c) return -ENOTCONN;
        if (c->err && !shut_w) { int e = c->err; c->err = 0; if (e != EPIPE) return -e; }
        if (shut_w || c->dead)
        {
            if (!nosig) { struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa); if (sa.sa_handler == SIG_DFL) violation("*", "sigpipe", "a write to a closed connection kills the process with SIGPIPE"); }
            return -EPIPE;
        }
        if (c->client_closed)
        {
            auto cc = c; event_at(now_ns() + 1000ull * (1 + choose(F, 200)), [cc] { if (!cc->dead) { cc->dead = true; cc->err = cc->rx_fin ? EPIPE : ECONNRESET; cc->edge(); } });
            return (ssize_t)n;
        }
        if (fault(F_WRITE_RST)) { c->client_rst = c->client_closed = true; c->dead = true; edge(); return -ECONNRESET; }
        size_t fr = c->tx.size() < c->cap ? c->cap - c->tx.size() : 0;
        if (!fr) { probe("net_send_buffer_full"); return -EAGAIN; }
        size_t k = std::min(n, fr);
        if (k > 1 && fault(F_SHORT_WRITE)) k = 1 + choose(F, (uint32_t)k - 1);
        c->tx.append(b, k);
        return (ssize_t)k;
    }
    void last_close() override
    {
        if (listening) { for (auto& x : backlog) { x->tx_rst = true; x->server_closed = true; x->dead = true; } backlog.clear(); listening = false; }
        if (c) { c->server_closed = true; c->srv = nullptr; if (!c->rx.empty() || lingerz) c->tx_rst = true; c->tx_fin = true; c->dead = true; }
    }
};
static std::shared_ptr<Sock> listener(unsigned short port)
{
    for (auto& f : fdtab) if (auto s = std::dynamic_pointer_cast<Sock>(f)) if (s->listening && s->port == port) return s;
    return nullptr;
}
void io_reset()
{
    fdtab.clear(); g_bad_closes = 0; g_epseq = 0; g_connid = 0; g_window = 65536;
    g_stdin = std::make_shared<StdinFile>(true);
    fdtab.push_back(g_stdin);
}
} // detail

void detail::io_kill() { for (size_t k = 1; k < fdtab.size(); ++k) if (fdtab[k]) fd_close((int)k); }
void net_set_window(size_t n) { g_window = n; }
bool port_listening(unsigned short p) { return (bool)listener(p); }
size_t backlog(unsigned short p) { auto l = listener(p); return l ? l->backlog.size() : 0; }

bool Client::connect(unsigned short port)
{
    point(OP_ENV, 1); InCore ic;
    auto l = listener(port); if (!l) return false;
    c = std::make_shared<Conn>(); c->port = port; c->id = ++g_connid; c->cap = g_window;
    l->backlog.push_back(c); l->edge();
    return true;
}
void Client::send(const std::string& d, uint64_t delay)
{
    point(OP_ENV, 2); InCore ic;
    if (d.empty()) return;
    auto cc = c; uint64_t t = std::max(now_ns() + delay * 1000, cc->last_arrival); cc->last_arrival = t; cc->inflight += d.size();
    auto fn = [cc, d] { cc->inflight -= d.size(); if (cc->server_closed) { cc->tx_rst = true; return; } if (cc->dead || cc->rst) return; cc->rx.insert(cc->rx.end(), d.begin(), d.end()); cc->edge(); };
    if (t <= now_ns()) fn(); else event_at(t, fn);
}
void Client::fin(uint64_t delay)
{
    point(OP_ENV, 3); InCore ic; auto cc = c; cc->client_fin = true;
    uint64_t t = std::max(now_ns() + delay * 1000, cc->last_arrival); cc->last_arrival = t;
    event_at(t, [cc] { cc->rx_fin = true; cc->edge(); });
}
void Client::close(uint64_t delay)
{
    point(OP_ENV, 4); InCore ic; auto cc = c; cc->client_fin = true;
    if (!cc->tx.empty()) { // unread data: a reset is sent
        cc->client_closed = true; cc->client_rst = true;
        uint64_t t = std::max(now_ns() + delay * 1000, cc->last_arrival); cc->last_arrival = t;
        event_at(t, [cc] { cc->rst = true; cc->dead = true; cc->err = ECONNRESET; cc->edge(); }); return; }
    cc->client_closed = true;
    uint64_t t = std::max(now_ns() + delay * 1000, cc->last_arrival); cc->last_arrival = t;
    event_at(t, [cc] { cc->rx_fin = true; cc->edge(); });
}
void Client::rst(uint64_t delay)
{
    point(OP_ENV, 5); InCore ic; auto cc = c; cc->client_rst = true; cc->client_closed = true; count_fault(F_RST);
    uint64_t t = std::max(now_ns() + delay * 1000, cc->last_arrival); cc->last_arrival = t; bool drop = choose(F, 4) == 1;
    event_at(t, [cc, drop] { cc->rst = true; if (drop) cc->rx.clear(); cc->dead = true; cc->err = cc->rx_fin ? EPIPE : ECONNRESET; cc->edge(); });
}
std::string Client::take(size_t n)
{
    point(OP_ENV, 6); InCore ic;
    std::string r = c->tx.substr(0, n); bool full = c->tx.size() >= c->cap; c->tx.erase(0, r.size());
    if (!r.empty() && full) c->edge();
    return r;
}
size_t Client::available() const { return c ? c->tx.size() : 0; }
bool Client::peer_closed() const { return c && (c->tx_fin || c->tx_rst); }
bool Client::peer_reset() const { return c && c->tx_rst; }
bool Client::accepted() const { return c && c->accepted; }
size_t Client::unread_by_server() const { return c ? c->rx.size() + c->inflight : 0; }
bool Client::gone() const { return c && (c->client_closed || c->client_rst); }

void stdin_reset(bool tty, bool file) { InCore ic; g_stdin = std::make_shared<StdinFile>(tty); g_stdin->file = file; if (fdtab.empty()) fdtab.resize(1); fdtab[0] = g_stdin; }
void stdin_type(const std::string& b) { point(OP_ENV, 7); InCore ic; for (char c : b) g_stdin->put(c); g_stdin->edge(); }
void stdin_eof() { point(OP_ENV, 8); InCore ic; g_stdin->eof = true; if (g_stdin->tty) g_stdin->hup = true; g_stdin->edge(); count_fault(F_STDIN_EOF); }
void stdin_error() { point(OP_ENV, 9); InCore ic; g_stdin->err = true; g_stdin->edge(); count_fault(F_STDIN_EIO); }
size_t stdin_pending() { return g_stdin->avail.size() + g_stdin->line.size(); }
bool tty_canonical() { return g_stdin->canon(); }
bool tty_echo() { return (g_stdin->t.c_lflag & ECHO) != 0; }
termios tty_attr() { return g_stdin->t; }
void tty_set_attr(const termios& t) { g_stdin->set(t, false); }
uint64_t stdin_reads() { return g_stdin->reads; }
int stdin_refs() { return g_stdin->refs; }
bool stdin_open() { return g_stdin->refs > 0 && fd_get(0) == g_stdin; }
void stdin_set_nonblock(bool v) { g_stdin->nonblock = v; }
bool stdin_nonblock() { return g_stdin->nonblock; }
std::vector<int> open_fds() { std::vector<int> r; for (size_t i = 0; i < fdtab.size(); ++i) if (fdtab[i]) r.push_back((int)i); return r; }
int bad_closes() { return g_bad_closes; }
} // sim

using namespace sim;
using namespace sim::detail;

static int fail(int e) { errno = e; return -1; }
static long raw_ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
static bool is_std(int fd) { return fd == 1 || fd == 2; }

static ssize_t do_read(int fd, char* b, size_t n, bool nonblock)
{
    point(OP_READ, (uint64_t)fd);
    auto f = fd_get(fd); if (!f) { probe("read_bad_fd"); return fail(EBADF); }
    InCore ic;
    if (n > 1 && !f->disk() && fault(F_SHORT_READ)) n = 1 + choose(F, (uint32_t)std::min<size_t>(n, 4) - 1);
    if (f->can_poll() && (f->nonblock || nonblock) && f->kind[0] == 's' && fault(F_EAGAIN)) { auto ff = f; event_at(now_ns() + 1000ull * (1 + choose(F, 100)), [ff] { ff->edge(); }); return fail(EAGAIN); }
    if (f == g_stdin && fault(F_EINTR)) return fail(EINTR);
    for (;;)
    {
        ssize_t r = f->rd(b, n);
        if (r == -EAGAIN && !f->nonblock && !nonblock)
        {
            Ofd* p = f.get(); std::function<bool()> pr = [p] { return (p->ready() & (EPOLLIN | EPOLLHUP | EPOLLERR)) || p->refs == 0; };
            self->in_core--; bool ok = block(OP_READ, "read", pr, INF, true); self->in_core++;
            if (!ok) return fail(EINTR);
            if (f->refs == 0) return fail(EBADF);
            continue;
        }
        trace(OP_READ, (uint64_t)fd, (uint64_t)r);
        if (r < 0) return fail((int)-r);
        if (r > 0) acq(f.get());
        return r;
    }
}
static ssize_t do_write(int fd, const char* b, size_t n, bool nonblock, bool nosig)
{
    point(OP_WRITE, (uint64_t)fd);
    auto f = fd_get(fd); if (!f) { probe("write_bad_fd"); return fail(EBADF); }
    InCore ic;
    rel(f.get());
    if (auto* pw = dynamic_cast<PipeW*>(f.get())) if (pw->p->r) rel(pw->p->r);
    if (f->can_poll() && (f->nonblock || nonblock) && f->kind[0] == 's' && fault(F_EAGAIN)) { auto ff = f; event_at(now_ns() + 1000ull * (1 + choose(F, 100)), [ff] { ff->edge(); }); return fail(EAGAIN); }
    for (;;)
    {
        ssize_t r = f->wr(b, n, nosig);
        if (r == -EAGAIN && !f->nonblock && !nonblock)
        {
            Ofd* p = f.get(); std::function<bool()> pr = [p] { return (p->ready() & (EPOLLOUT | EPOLLHUP | EPOLLERR)) || p->refs == 0; };
            self->in_core--; bool ok = block(OP_WRITE, "write", pr, INF, true); self->in_core++;
            if (!ok) return fail(EINTR);
            if (f->refs == 0) return fail(EBADF);
            continue;
        }
        trace(OP_WRITE, (uint64_t)fd, (uint64_t)r);
        if (r < 0) return fail((int)-r);
        return r;
    }
}

extern "C" {
ssize_t read(int fd, void* b, size_t n) { if (!active() || is_std(fd)) return raw_ret(raw_syscall(SYS_read, fd, (long)b, (long)n)); return do_read(fd, (char*)b, n, false); }
ssize_t write(int fd, const void* b, size_t n) { if (!active() || is_std(fd)) return raw_ret(raw_syscall(SYS_write, fd, (long)b, (long)n)); return do_write(fd, (const char*)b, n, false, false); }
ssize_t readv(int fd, const iovec* v, int k)
{
    if (!active() || is_std(fd)) return raw_ret(raw_syscall(SYS_readv, fd, (long)v, k));
    size_t tot = 0; for (int i = 0; i < k; ++i) tot += v[i].iov_len;
    std::string b(tot, 0); ssize_t r = do_read(fd, &b[0], tot, false);
    size_t off = 0; for (int i = 0; i < k && r > 0 && off < (size_t)r; ++i) { size_t m = std::min(v[i].iov_len, (size_t)r - off); memcpy(v[i].iov_base, b.data() + off, m); off += m; }
    return r;
}
static std::string gather(const iovec* v, size_t k) { std::string b; for (size_t i = 0; i < k; ++i) b.append((const char*)v[i].iov_base, v[i].iov_len); return b; }
ssize_t writev(int fd, const iovec* v, int k)
{
    if (!active() || is_std(fd)) return raw_ret(raw_syscall(SYS_writev, fd, (long)v, k));
    std::string b = gather(v, (size_t)k); return do_write(fd, b.data(), b.size(), false, false);
}
ssize_t recv(int fd, void* b, size_t n, int fl) { if (!active()) return REAL(recv)(fd, b, n, fl); return do_read(fd, (char*)b, n, fl & MSG_DONTWAIT); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, sockaddr* a, socklen_t* l) { if (!active()) return REAL(recvfrom)(fd, b, n, fl, a, l); return do_read(fd, (char*)b, n, fl & MSG_DONTWAIT); }
ssize_t recvmsg(int fd, msghdr* m, int fl)
{
    if (!active()) return REAL(recvmsg)(fd, m, fl);
    size_t tot = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) tot += m->msg_iov[i].iov_len;
    std::string b(tot, 0); ssize_t r = do_read(fd, &b[0], tot, fl & MSG_DONTWAIT);
    size_t off = 0; for (size_t i = 0; i < m->msg_iovlen && r > 0 && off < (size_t)r; ++i) { size_t k = std::min(m->msg_iov[i].iov_len, (size_t)r - off); memcpy(m->msg_iov[i].iov_base, b.data() + off, k); off += k; }
    return r;
}
ssize_t send(int fd, const void* b, size_t n, int fl) { if (!active()) return REAL(send)(fd, b, n, fl); return do_write(fd, (const char*)b, n, fl & MSG_DONTWAIT, fl & MSG_NOSIGNAL); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const sockaddr* a, socklen_t l) { if (!active()) return REAL(sendto)(fd, b, n, fl, a, l); return do_write(fd, (const char*)b, n, fl & MSG_DONTWAIT, fl & MSG_NOSIGNAL); }
ssize_t sendmsg(int fd, const msghdr* m, int fl)
{
    if (!active()) return REAL(sendmsg)(fd, m, fl);
    std::string b = gather(m->msg_iov, m->msg_iovlen); return do_write(fd, b.data(), b.size(), fl & MSG_DONTWAIT, fl & MSG_NOSIGNAL);
}
int close(int fd)
{
    if (!active() || is_std(fd)) return (int)raw_ret(raw_syscall(SYS_close, fd));
    point(OP_CLOSE, (uint64_t)fd);
    InCore ic;
    auto f = fd_get(fd);
    if (!f) { g_bad_closes++; probe("close_bad_fd"); return fail(EBADF); }
    bool d = f->disk();
    fd_close(fd);
    if (d && fault(F_CLOSE_EIO)) { disk_close_failed(f.get()); return fail(EIO); }
    return 0;
}
int pipe2(int* p, int fl) noexcept
{
    if (!active()) return (int)raw_ret(raw_syscall(SYS_pipe2, (long)p, fl));
    point(OP_PIPE); InCore ic;
    if (fault(F_PIPE_FAIL)) return fail(EMFILE);
    auto b = std::make_shared<PipeBuf>(); auto r = std::make_shared<PipeR>(); auto w = std::make_shared<PipeW>();
    r->p = w->p = b; b->r = r.get(); b->w = w.get(); r->nonblock = w->nonblock = fl & O_NONBLOCK;
    p[0] = fd_new(r); p[1] = fd_new(w); return 0;
}
int pipe(int* p) noexcept { if (!active()) return (int)raw_ret(raw_syscall(SYS_pipe, (long)p)); return pipe2(p, 0); }
int eventfd(unsigned v, int fl) noexcept
{
    if (!active()) return (int)raw_ret(raw_syscall(SYS_eventfd2, v, fl));
    point(OP_PIPE); InCore ic; auto f = std::make_shared<EventFile>(); f->v = v; f->nonblock = fl & EFD_NONBLOCK; f->semaphore = fl & EFD_SEMAPHORE; return fd_new(f);
}
int timerfd_create(clockid_t c, int fl) noexcept
{
    if (!active()) return (int)raw_ret(raw_syscall(SYS_timerfd_create, c, fl));
    point(OP_PIPE); InCore ic; auto f = std::make_shared<TimerFile>(); f->nonblock = fl & TFD_NONBLOCK; return fd_new(f);
}
int timerfd_settime(int fd, int fl, const itimerspec* n, itimerspec* o) noexcept
{
    if (!active()) return (int)raw_ret(raw_syscall(SYS_timerfd_settime, fd, fl, (long)n, (long)o));
    point(OP_PIPE); InCore ic; auto f = std::dynamic_pointer_cast<TimerFile>(fd_get(fd)); if (!f) return fail(EBADF);
    if (o) memset(o, 0, sizeof *o);
    uint64_t t = (uint64_t)n->it_value.tv_sec * 1000000000ull + (uint64_t)n->it_value.tv_nsec;
    f->interval = (uint64_t)n->it_interval.tv_sec * 1000000000ull + (uint64_t)n->it_interval.tv_nsec;
    f->exp = t ? (fl & TFD_TIMER_ABSTIME ? t : now_ns() + t) : 0;
    if (f->exp) { auto ff = f; uint64_t e = f->exp; event_at(f->exp, [ff, e] { if (ff->exp == e) ff->edge(); }); }
    return 0;
}
int dup(int fd) noexcept
{
    if (!active() || is_std(fd)) return (int)raw_ret(raw_syscall(SYS_dup, fd));
    point(OP_FCNTL); InCore ic; auto f = fd_get(fd); if (!f) return fail(EBADF);
    if (fault(F_DUP_FAIL)) return fail(EMFILE);
    return fd_new(f);
}
int dup2(int a, int b) noexcept
{
    if (!active()) return (int)raw_ret(raw_syscall(SYS_dup2, a, b));
    point(OP_FCNTL); InCore ic; auto f = fd_get(a); if (!f) return fail(EBADF); if (a == b) return b;
    if (fd_get(b)) fd_close(b);
    if ((size_t)b >= fdtab.size()) fdtab.resize((size_t)b + 1);
    f->refs++; fdtab[(size_t)b] = f; return b;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (!active() || is_std(fd)) return (int)raw_ret(raw_syscall(SYS_fcntl, fd, cmd, a));
    point(OP_FCNTL); InCore ic; auto f = fd_get(fd); if (!f) return fail(EBADF);
    switch (cmd)
    {
        case F_GETFL: return f->oflags | (f->nonblock ? O_NONBLOCK : 0);
        case F_SETFL: f->nonblock = a & O_NONBLOCK; return 0;
        case F_GETFD: return FD_CLOEXEC; case F_SETFD: return 0;
        case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_new(f);
        default: return fail(EINVAL);
    }
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
    if (!active() || is_std(fd)) return (int)raw_ret(raw_syscall(SYS_ioctl, fd, (long)req, (long)a));
    point(OP_FCNTL); InCore ic; auto f = fd_get(fd); if (!f) return fail(EBADF);
    if (req == FIONBIO) { f->nonblock = *(int*)a != 0; return 0; }
    if (req == FIONREAD) { int n = 0; if (auto s = std::dynamic_pointer_cast<StdinFile>(f)) n = (int)s->avail.size(); else if (auto k = std::dynamic_pointer_cast<Sock>(f)) n = k->c ? (int)k->c->rx.size() : 0; else if (auto p = std::dynamic_pointer_cast<PipeR>(f)) n = (int)p->p->q.size(); else if (f->disk()) n = (int)disk_size(f.get()); *(int*)a = n; return 0; }
    return fail(ENOTTY);
}
// ------------------------------------------------------------ readiness
static uint32_t rdy(int fd) { auto f = fd_get(fd); return f ? f->ready() : 0; }
int select(int n, fd_set* r, fd_set* w, fd_set* x, timeval* tv)
{
    if (!active()) return (int)raw_ret(raw_syscall(SYS_select, n, (long)r, (long)w, (long)x, (long)tv));
    fd_set ri, wi; FD_ZERO(&ri); FD_ZERO(&wi); if (r) ri = *r; if (w) wi = *w;
    { InCore ic; for (int i = 0; i < n; ++i) if (((r && FD_ISSET(i, &ri)) || (w && FD_ISSET(i, &wi))) && !fd_get(i)) { probe("select_bad_fd"); return fail(EBADF); } }
    std::function<bool()> p = [&] { for (int i = 0; i < n; ++i) { if (r && FD_ISSET(i, &ri) && (rdy(i) & (EPOLLIN | EPOLLHUP | EPOLLERR))) return true; if (w && FD_ISSET(i, &wi) && (rdy(i) & (EPOLLOUT | EPOLLERR))) return true; } return false; };
    bool ok;
    if (tv && tv->tv_sec == 0 && tv->tv_usec == 0) { point(OP_POLL); InCore ic; ok = p(); }
    else ok = block(OP_SELECT, "select", p, tv ? now_ns() + (uint64_t)tv->tv_sec * 1000000000ull + (uint64_t)tv->tv_usec * 1000 : INF, true);
    if (!ok && self->interrupted) { self->interrupted = false; return fail(EINTR); } // the sets stay unmodified, as on Linux
    int c = 0; if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x);
    InCore ic;
    for (int i = 0; i < n; ++i)
    {
        if (r && FD_ISSET(i, &ri) && (rdy(i) & (EPOLLIN | EPOLLHUP | EPOLLERR))) { FD_SET(i, r); c++; }
        if (w && FD_ISSET(i, &wi) && (rdy(i) & (EPOLLOUT | EPOLLERR))) { FD_SET(i, w); c++; }
    }
    return c;
}
int pselect(int n, fd_set* r, fd_set* w, fd_set* x, const timespec* ts, const sigset_t* s)
{
    if (!active()) return REAL(pselect)(n, r, w, x, ts, s);
    timeval tv; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; }
    return select(n, r, w, x, ts ? &tv : nullptr);
}
static int do_poll(pollfd* v, nfds_t n, uint64_t timeout_ns)
{
    auto scan = [&](bool set) { int c = 0; for (nfds_t i = 0; i < n; ++i) { if (set) v[i].revents = 0; if (v[i].fd < 0) continue; auto f = fd_get(v[i].fd); short m = 0; if (!f) m = POLLNVAL; else m = (short)(f->ready() & ((uint32_t)v[i].events | POLLERR | POLLHUP) & (POLLIN | POLLOUT | POLLERR | POLLHUP | POLLRDHUP)); if (m) { c++; if (set) v[i].revents = m; } } return c; };
    std::function<bool()> p = [&] { return scan(false) > 0; };
    bool ok;
    if (timeout_ns == 0) { point(OP_POLL); InCore ic; ok = p(); }
    else ok = block(OP_POLL, "poll", p, timeout_ns == INF ? INF : now_ns() + timeout_ns, true);
    if (!ok && self->interrupted) { self->interrupted = false; return fail(EINTR); }
    InCore ic; return scan(true);
}
int poll(pollfd* v, nfds_t n, int to) { if (!active()) return (int)raw_ret(raw_syscall(SYS_poll, (long)v, (long)n, to)); return do_poll(v, n, to < 0 ? INF : (uint64_t)to * 1000000ull); }
int ppoll(pollfd* v, nfds_t n, const timespec* ts, const sigset_t* s) { if (!active()) return REAL(ppoll)(v, n, ts, s); return do_poll(v, n, ts ? (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec : INF); }
int epoll_create1(int fl) noexcept { if (!active()) return (int)raw_ret(raw_syscall(SYS_epoll_create1, fl)); point(OP_PIPE); InCore ic; return fd_new(std::make_shared<EpollFile>()); }
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, epoll_event* ev) noexcept
{
    if (!active()) return (int)raw_ret(raw_syscall(SYS_epoll_ctl, ep, op, fd, (long)ev));
    point(OP_EPCTL, (uint64_t)fd); InCore ic;
    auto e = std::dynamic_pointer_cast<EpollFile>(fd_get(ep)); auto f = fd_get(fd);
    if (!e || !f) return fail(EBADF);
    if (!f->can_poll()) return fail(EPERM);
    auto it = e->items.find(fd); bool have = it != e->items.end() && it->second.f == f.get();
    if (op == EPOLL_CTL_ADD)
    {
        if (have) return fail(EEXIST);
        if (it != e->items.end()) { auto& w = it->second.f->watch; w.erase(std::remove(w.begin(), w.end(), std::make_pair(e.get(), fd)), w.end()); }
        e->items[fd] = EpItem{ fd, f.get(), ev->events, ev->data.u64, true, false, g_epseq++ };
        f->watch.emplace_back(e.get(), fd);
    }
    else if (!have) return fail(ENOENT);
    else if (op == EPOLL_CTL_MOD) { it->second.events = ev->events; it->second.data = ev->data.u64; it->second.pending = true; it->second.disabled = false; }
    else { auto& w = f->watch; w.erase(std::remove(w.begin(), w.end(), std::make_pair(e.get(), fd)), w.end()); e->items.erase(fd); }
    return 0;
}
static int do_epwait(int ep, epoll_event* out, int max, uint64_t to)
{
    std::shared_ptr<EpollFile> e; { InCore ic; e = std::dynamic_pointer_cast<EpollFile>(fd_get(ep)); }
    if (!e) return fail(EBADF);
    EpollFile* x = e.get();
    std::function<bool()> p = [x] { return x->ready() != 0; };
    bool ok;
    if (to == 0) { point(OP_EPWAIT); InCore ic; ok = p(); }
    else ok = block(OP_EPWAIT, "epoll_wait", p, to == INF ? INF : now_ns() + to, true);
    if (!ok && self->interrupted) { self->interrupted = false; return fail(EINTR); }
    if (!ok) return 0;
    InCore ic;
    std::vector<EpItem*> v; for (auto& i : x->items) if (EpollFile::hit(i.second)) v.push_back(&i.second);
    std::sort(v.begin(), v.end(), [](EpItem* a, EpItem* b) { return a->seq < b->seq; });
    if (v.size() > 1) std::rotate(v.begin(), v.begin() + choose(S, (uint32_t)v.size()), v.end());
    int k = 0;
    for (auto i : v) { if (k >= max) break; out[k].events = EpollFile::mask(*i); out[k].data.u64 = i->data; k++; i->pending = false; if (i->events & EPOLLONESHOT) i->disabled = true; acq(i->f); }
    trace(OP_EPWAIT, (uint64_t)k);
    return k;
}
int epoll_wait(int ep, epoll_event* out, int max, int to) { if (!active()) return (int)raw_ret(raw_syscall(SYS_epoll_wait, ep, (long)out, max, to)); return do_epwait(ep, out, max, to < 0 ? INF : (uint64_t)to * 1000000ull); }
int epoll_pwait(int ep, epoll_event* out, int max, int to, const sigset_t* s) { if (!active()) return REAL(epoll_pwait)(ep, out, max, to, s); return do_epwait(ep, out, max, to < 0 ? INF : (uint64_t)to * 1000000ull); }

// ------------------------------------------------------------ sockets
int socket(int fam, int type, int proto) noexcept
{
    if (!active()) return REAL(socket)(fam, type, proto);
    point(OP_SOCK); InCore ic;
    if ((type & 0xf) != SOCK_STREAM || (fam != AF_INET && fam != AF_INET6)) return fail(EAFNOSUPPORT);
    auto s = std::make_shared<Sock>(); s->family = fam; s->nonblock = type & SOCK_NONBLOCK; return fd_new(s);
}
static std::shared_ptr<Sock> sk(int fd) { return std::dynamic_pointer_cast<Sock>(fd_get(fd)); }
int bind(int fd, const sockaddr* a, socklen_t l) noexcept
{
    if (!active()) return REAL(bind)(fd, a, l);
    point(OP_SOCK); InCore ic; auto s = sk(fd); if (!s) return fail(fd_get(fd) ? ENOTSOCK : EBADF);
    unsigned short p = a->sa_family == AF_INET6 ? ntohs(((const sockaddr_in6*)a)->sin6_port) : ntohs(((const sockaddr_in*)a)->sin_port);
    for (auto& f : fdtab) if (auto o = std::dynamic_pointer_cast<Sock>(f)) if (o != s && o->listening && o->port == p) return fail(EADDRINUSE);
    s->bound = true; s->port = p; return 0;
}
int listen(int fd, int) noexcept { if (!active()) return REAL(listen)(fd, 128); point(OP_SOCK); InCore ic; auto s = sk(fd); if (!s) return fail(EBADF); s->listening = true; return 0; }
static int do_accept(int fd, sockaddr* a, socklen_t* l, int fl)
{
    point(OP_ACCEPT); InCore ic; auto s = sk(fd); if (!s) return fail(EBADF); if (!s->listening) return fail(EINVAL);
    for (;;)
    {
        if (!s->backlog.empty())
        {
            if (fault(F_ACCEPT_ERR))
            {
                static const int es[] = { EMFILE, ECONNABORTED, ENFILE, ENOBUFS, ENOMEM, EINTR };
                int e = es[choose(F, 6)];
                if (e == ECONNABORTED) { auto c = s->backlog.front(); s->backlog.pop_front(); c->tx_rst = true; c->server_closed = true; c->dead = true; auto ss = s; event_at(now_ns() + 1000, [ss] { ss->edge(); }); /* asio waits for the next edge after this error */ }
                return fail(e);
            }
            auto c = s->backlog.front(); s->backlog.pop_front();
            auto n = std::make_shared<Sock>(); n->c = c; n->port = s->port; c->srv = n.get(); c->accepted = true; n->nonblock = fl & SOCK_NONBLOCK;
            if (a && l) { sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons((uint16_t)(40000 + c->id)); x.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(a, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x; }
            int r = fd_new(n); trace(OP_ACCEPT, (uint64_t)r); return r;
        }
        if (s->nonblock) return fail(EAGAIN);
        Sock* p = s.get(); std::function<bool()> pr = [p] { return !p->backlog.empty() || p->refs == 0; };
        self->in_core--; bool ok = block(OP_ACCEPT, "accept", pr, INF, true); self->in_core++;
        if (!ok) return fail(EINTR);
        if (p->refs == 0) return fail(EBADF);
    }
}
int accept(int fd, sockaddr* a, socklen_t* l) { if (!active()) return REAL(accept)(fd, a, l); return do_accept(fd, a, l, 0); }
int accept4(int fd, sockaddr* a, socklen_t* l, int fl) { if (!active()) return REAL(accept4)(fd, a, l, fl); return do_accept(fd, a, l, fl); }
int connect(int fd, const sockaddr* a, socklen_t l) { if (!active()) return REAL(connect)(fd, a, l); point(OP_CONNECT); return fail(ECONNREFUSED); }
int shutdown(int fd, int how) noexcept
{
    if (!active()) return REAL(shutdown)(fd, how);
    point(OP_SHUTDOWN); InCore ic; auto s = sk(fd); if (!s) return fail(EBADF);
    if (!s->c || s->c->dead) return fail(ENOTCONN);
    if (how == SHUT_RD || how == SHUT_RDWR) s->shut_r = true;
    if (how == SHUT_WR || how == SHUT_RDWR) { s->shut_w = true; s->c->tx_fin = true; }
    s->edge(); return 0;
}
int setsockopt(int fd, int lv, int nm, const void* v, socklen_t l) noexcept
{
    if (!active()) return REAL(setsockopt)(fd, lv, nm, v, l);
    point(OP_SOCKOPT); InCore ic; auto s = sk(fd); if (!s) return fail(EBADF);
    if (lv == SOL_SOCKET && nm == SO_LINGER) { auto* g = (const linger*)v; s->lingerz = g->l_onoff && g->l_linger == 0; }
    return 0;
}
int getsockopt(int fd, int lv, int nm, void* v, socklen_t* l) noexcept
{
    if (!active()) return REAL(getsockopt)(fd, lv, nm, v, l);
    point(OP_SOCKOPT); InCore ic; auto s = sk(fd); if (!s) return fail(EBADF);
    if (*l >= sizeof(int)) { int r = 0; if (lv == SOL_SOCKET && nm == SO_ERROR && s->c) { r = s->c->err; s->c->err = 0; } if (lv == SOL_SOCKET && nm == SO_TYPE) r = SOCK_STREAM; memcpy(v, &r, sizeof r); }
    return 0;
}
static int addr_of(unsigned short port, sockaddr* a, socklen_t* l) { sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(port); x.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(a, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x; return 0; }
int getsockname(int fd, sockaddr* a, socklen_t* l) noexcept { if (!active()) return REAL(getsockname)(fd, a, l); point(OP_SOCKOPT); InCore ic; auto s = sk(fd); if (!s) return fail(EBADF); return addr_of(s->port, a, l); }
int getpeername(int fd, sockaddr* a, socklen_t* l) noexcept { if (!active()) return REAL(getpeername)(fd, a, l); point(OP_SOCKOPT); InCore ic; auto s = sk(fd); if (!s) return fail(EBADF); if (!s->c || s->c->dead) return fail(ENOTCONN); return addr_of((unsigned short)(40000 + s->c->id), a, l); }

// ------------------------------------------------------------ terminal
int tcgetattr(int fd, termios* t) noexcept
{
    if (!active()) return REAL(tcgetattr)(fd, t);
    point(OP_TTY); InCore ic; auto s = std::dynamic_pointer_cast<StdinFile>(fd_get(fd));
    if (!s) return fail(fd_get(fd) || is_std(fd) ? ENOTTY : EBADF);
    if (!s->tty) return fail(ENOTTY);
    *t = s->t; return 0;
}
int tcsetattr(int fd, int act, const termios* t) noexcept
{
    if (!active()) return REAL(tcsetattr)(fd, act, t);
    point(OP_TTY); InCore ic; auto s = std::dynamic_pointer_cast<StdinFile>(fd_get(fd));
    if (!s) return fail(fd_get(fd) || is_std(fd) ? ENOTTY : EBADF);
    if (!s->tty) return fail(ENOTTY);
    s->set(*t, act == TCSAFLUSH); trace(OP_TTY, t->c_lflag); return 0;
}
int tcflush(int fd, int q) noexcept { if (!active()) return REAL(tcflush)(fd, q); point(OP_TTY); InCore ic; auto s = std::dynamic_pointer_cast<StdinFile>(fd_get(fd)); if (!s) return fail(ENOTTY); if (q != TCOFLUSH) { s->avail.clear(); s->line.clear(); } return 0; }
int isatty(int fd) noexcept { if (!active() || is_std(fd)) { termios t; return raw_syscall(SYS_ioctl, fd, TCGETS, (long)&t) == 0; } InCore ic; auto s = std::dynamic_pointer_cast<StdinFile>(fd_get(fd)); if (s && s->tty) return 1; errno = ENOTTY; return 0; }
} // extern "C"
