#include "core.h"
#include "net.h"
#include "fs.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>
#include <algorithm>

#define REAL(name, type) static auto real = (type)dlsym(RTLD_NEXT, name)

namespace sim {
NetCfg net;
static Vfd *fdt[65536];
static uint64_t vfd_seq;

Vfd *vfd(int fd) { return fd >= 0 && fd < 65536 ? fdt[fd] : nullptr; }
int vfd_new(Vfd *v, FdKind k, int node) {
    int fd = v->fd;
    if (fd < 0) fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
    if (fd < 0 || fd >= 65536) harness_error("out of real descriptors");
    v->fd = fd; v->kind = k; v->node = node; v->id = ++vfd_seq;
    fdt[fd] = v;
    return fd;
}

// ------------------------------------------------------------ epoll
struct Epoll : Vfd {
    struct Item { Vfd *v; uint32_t events; epoll_data_t data; bool pending; bool queued; };
    std::map<int, Item> items;
    std::deque<int> q;
    void mark(int fd) {
        auto it = items.find(fd);
        if (it == items.end()) return;
        it->second.pending = true;
        if (!it->second.queued) { it->second.queued = true; q.push_back(fd); }
        wake(this);
    }
    uint32_t ready() override { return 0; }
};
void vfd_notify(Vfd *v) {
    for (Epoll *e : v->pollers) e->mark(v->fd);
    wake(v);
}

extern "C" int epoll_create1(int) {
    if (!insim()) { errno = ENOSYS; return -1; }
    return vfd_new(new Epoll(), FD_EPOLL, self->node);
}
extern "C" int epoll_create(int) { return epoll_create1(0); }
extern "C" int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    point(20);
    Epoll *e = dynamic_cast<Epoll *>(vfd(ep));
    Vfd *v = vfd(fd);
    if (!e || !v || v->kind == FD_FILE) { errno = v ? EPERM : EBADF; return -1; }
    auto it = e->items.find(fd);
    if (op == EPOLL_CTL_ADD) {
        if (it != e->items.end()) { errno = EEXIST; return -1; }
        e->items[fd] = Epoll::Item{v, ev->events, ev->data, false, false};
        v->pollers.push_back(e);
        if (v->ready() & (ev->events | EPOLLERR | EPOLLHUP)) e->mark(fd);
    } else if (op == EPOLL_CTL_MOD) {
        if (it == e->items.end()) { errno = ENOENT; return -1; }
        it->second.events = ev->events; it->second.data = ev->data;
        if (v->ready() & (ev->events | EPOLLERR | EPOLLHUP)) e->mark(fd);
    } else {
        if (it == e->items.end()) { errno = ENOENT; return -1; }
        e->items.erase(it);
        e->q.erase(std::remove(e->q.begin(), e->q.end(), fd), e->q.end());
        v->pollers.erase(std::remove(v->pollers.begin(), v->pollers.end(), e), v->pollers.end());
    }
    return 0;
}
extern "C" int epoll_wait(int ep, struct epoll_event *evs, int maxev, int timeout) {
    point(21);
    Epoll *e = dynamic_cast<Epoll *>(vfd(ep));
    if (!e) { errno = EBADF; return -1; }
    int64_t deadline = timeout < 0 ? -1 : now_ns + timeout * 1000000LL;
    for (;;) {
        int n = 0;
        size_t todo = e->q.size();
        while (todo-- && n < maxev) {
            int fd = e->q.front(); e->q.pop_front();
            auto it = e->items.find(fd);
            if (it == e->items.end()) continue;
            Epoll::Item &x = it->second;
            x.queued = false;
            uint32_t r = x.v->ready() & (x.events | EPOLLERR | EPOLLHUP);
            x.pending = false;
            if (!r) continue;
            evs[n].events = r; evs[n].data = x.data; n++;
            if (!(x.events & EPOLLET)) { x.pending = true; x.queued = true; e->q.push_back(fd); }
        }
        if (n) { hash_mix(0xe9011 + n); return n; }
        if (timeout == 0) return 0;
        if (deadline >= 0 && now_ns >= deadline) return 0;
        block(e, deadline);
    }
}
extern "C" int epoll_pwait(int ep, struct epoll_event *evs, int m, int t, const sigset_t *) { return epoll_wait(ep, evs, m, t); }

// ------------------------------------------------------------ eventfd, timerfd, pipe
struct EventFd : Vfd { uint64_t v = 0; uint32_t ready() override { return (v ? EPOLLIN : 0) | EPOLLOUT; } };
struct TimerFd : Vfd { uint64_t exp = 0; uint64_t gen = 0; uint32_t ready() override { return exp ? EPOLLIN : 0; } };
struct Pipe : Vfd { std::string buf; Pipe *other = nullptr; bool wr = false; bool hup = false; uint32_t ready() override { return wr ? EPOLLOUT : (buf.size() ? EPOLLIN : 0) | (hup ? EPOLLHUP : 0); } };

extern "C" int eventfd(unsigned init, int flags) {
    if (!insim()) { errno = ENOSYS; return -1; }
    EventFd *e = new EventFd(); e->v = init; e->nonblock = flags & EFD_NONBLOCK;
    return vfd_new(e, FD_EVENT, self->node);
}
extern "C" int timerfd_create(int, int) {
    if (!insim()) { errno = ENOSYS; return -1; }
    return vfd_new(new TimerFd(), FD_TIMER, self->node);
}
extern "C" int timerfd_settime(int fd, int flags, const struct itimerspec *nv, struct itimerspec *) {
    point(22);
    TimerFd *t = dynamic_cast<TimerFd *>(vfd(fd));
    if (!t) { errno = EBADF; return -1; }
    t->gen++; t->exp = 0;
    int64_t d = nv->it_value.tv_sec * 1000000000LL + nv->it_value.tv_nsec;
    if (d == 0) return 0;
    int64_t when = (flags & TFD_TIMER_ABSTIME) ? d : now_ns + d;    // asio uses ABSTIME 1ns for "now"
    uint64_t gen = t->gen; int rfd = fd; uint64_t id = t->id;
    at(when, false, [rfd, id, gen]() {
        Vfd *v = vfd(rfd);
        if (!v || v->id != id) return;
        TimerFd *t = (TimerFd *)v;
        if (t->gen != gen) return;
        t->exp = 1;
        vfd_notify(t);
    });
    return 0;
}
extern "C" int timerfd_gettime(int, struct itimerspec *) { errno = ENOSYS; return -1; }
static int mkpipe(int p[2]) {
    Pipe *r = new Pipe(), *w = new Pipe(); r->other = w; w->other = r; w->wr = true;
    p[0] = vfd_new(r, FD_PIPE, self->node); p[1] = vfd_new(w, FD_PIPE, self->node);
    return 0;
}
extern "C" int pipe(int p[2]) { if (!insim()) return syscall(SYS_pipe2, p, 0); return mkpipe(p); }
extern "C" int pipe2(int p[2], int f) { if (!insim()) return syscall(SYS_pipe2, p, f); return mkpipe(p); }

// ------------------------------------------------------------ sockets
enum SState { SS_NEW, SS_LISTEN, SS_CONNECTING, SS_EST, SS_DEAD };
struct Sock : Vfd {
    SState st = SS_NEW;
    Addr local, remote;
    Sock *peer = nullptr;
    std::string tx;                 // accepted by send(), still in the network
    bool fin_queued = false, fin_sent = false, delivering = false;
    std::string rx;
    bool rx_fin = false, rst = false, rst_reported = false;
    bool shut_rd = false, shut_wr = false, app_closed = false;
    int err = 0;
    std::deque<Sock *> acceptq;
    int backlog = 0;
    bool bound = false;
    size_t sndcap, rcvcap;
    bool inbound = false;
    Sock() : sndcap(net.sndcap), rcvcap(net.rcvcap) {}
    bool nospace = false;
    uint32_t ready() override {
        uint32_t r = 0;
        switch (st) {
        case SS_NEW: return bound ? 0 : (EPOLLOUT | EPOLLHUP);
        case SS_LISTEN: return acceptq.empty() ? 0 : EPOLLIN;
        case SS_CONNECTING: return 0;
        case SS_DEAD: return EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLERR;
        case SS_EST:
            if (rx.size() || rx_fin || rst || shut_rd) r |= EPOLLIN;
            if (rx_fin || rst) r |= EPOLLRDHUP;
            if (rst || shut_wr || (!nospace && tx.size() < sndcap - sndcap / 4)) r |= EPOLLOUT;
            if (rst || (rx_fin && shut_wr)) r |= EPOLLHUP;
            if (err) r |= EPOLLERR;
            return r;
        }
        return r;
    }
};
struct Udp : Vfd {
    Addr local; bool bound = false;
    std::deque<std::pair<Addr, std::string>> q; size_t bytes = 0;
    size_t cap = 1 << 20;
    int err = 0;
    uint32_t ready() override { return (q.size() || err ? EPOLLIN : 0) | EPOLLOUT; }
};
static std::vector<Sock *> conns;                  // all established or connecting sockets
static std::map<std::pair<uint32_t, int>, Sock *> listeners;
static std::map<std::pair<uint32_t, int>, Udp *> udps;
static std::set<std::pair<uint32_t, uint32_t>> parts;
static std::set<std::pair<int, int>> refused;
static uint16_t next_port = 30000;
static int64_t udp_dropped;

std::string ipstr(uint32_t ip) { return fmt("%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255); }
static uint32_t my_ip(int node) { return node >= 0 ? node_ip(node) : client_ip(1); }
static int64_t latency() { return net.lat_min + (net.lat_jitter ? (int64_t)choose(ST_N, 1000) * net.lat_jitter / 1000 : 0); }
bool net_partitioned(uint32_t a, uint32_t b) { return parts.count({std::min(a, b), std::max(a, b)}) > 0; }

static void schedule_delivery(Sock *s, int64_t d);
static void sock_reset(Sock *s, int e) {
    if (s->rst) return;
    s->rst = true; s->err = e; s->tx.clear(); s->fin_queued = false;
    vfd_notify(s);
}
static void drop_conn(Sock *s) { conns.erase(std::remove(conns.begin(), conns.end(), s), conns.end()); }

static void deliver(Sock *s) {
    s->delivering = false;
    if (s->st != SS_EST || !s->peer) return;
    Sock *p = s->peer;
    if (net_partitioned(s->local.ip, s->remote.ip)) return;      // heal reschedules
    if (s->tx.size()) {
        if (p->app_closed || p->st == SS_DEAD) {   // data to a closed socket: reset comes back
            s->tx.clear();
            sock_reset(s, ECONNRESET);
            return;
        }
        if (p->rst) { s->tx.clear(); return; }
        if (p->shut_rd) { s->tx.clear(); s->nospace = false; vfd_notify(s); }
        else {
            size_t room = p->rcvcap > p->rx.size() ? p->rcvcap - p->rx.size() : 0;
            size_t n = std::min(room, s->tx.size());
            if (n > 1 && net.seg_ppm && chance(ST_N, net.seg_ppm)) {
                size_t c = 1 + choose(ST_N, n < 64 ? n : (choose(ST_N, 2) ? 64 : (uint32_t)std::min<size_t>(n, 1u << 30)));
                if (c < n) { n = c; g_counts["net_segments_cut"]++; }
            }
            if (n == 0) return;      // the receiver's read reschedules
            bool was_full = s->nospace || s->tx.size() >= s->sndcap - s->sndcap / 4;
            p->rx.append(s->tx, 0, n);
            s->tx.erase(0, n);
            g_counts["net_bytes"] += n;
            vfd_notify(p);
            if (was_full && s->tx.size() < s->sndcap - s->sndcap / 4) { s->nospace = false; vfd_notify(s); }
        }
    }
    if (s->tx.empty() && s->fin_queued && !s->fin_sent) {
        s->fin_sent = true;
        p->rx_fin = true;
        vfd_notify(p);
        if (s->app_closed && p->app_closed) { drop_conn(s); drop_conn(p); }
    }
    if (s->tx.size()) schedule_delivery(s, latency() / 4 + 1000);
}
static void schedule_delivery(Sock *s, int64_t d) {
    if (s->delivering) return;
    s->delivering = true;
    after(d, true, [s]() { deliver(s); });
}
static void app_close(Sock *s) {
    // close(): unread data makes it a reset, otherwise an orderly end after the queued data
    s->app_closed = true;
    if (s->st == SS_LISTEN) {
        listeners.erase({s->local.ip, s->local.port});
        for (Sock *c : s->acceptq) { c->app_closed = true; if (c->peer) { Sock *p = c->peer; after(latency(), true, [p]() { sock_reset(p, ECONNRESET); }); } }
        s->acceptq.clear();
        return;
    }
    if (s->st == SS_EST && s->peer) {
        Sock *p = s->peer;
        if (s->rx.size() && !s->rst) { s->rst = true; s->tx.clear(); after(latency(), true, [p]() { if (!net_partitioned(p->local.ip, p->remote.ip)) sock_reset(p, ECONNRESET); }); }
        else if (!s->rst) { s->fin_queued = true; schedule_delivery(s, latency()); }
    }
    if (s->st == SS_CONNECTING) s->st = SS_DEAD;
}
void vfd_forget(int fd) { fdt[fd] = nullptr; }
int vfd_close(int fd) {
    Vfd *v = vfd(fd);
    if (!v) { errno = EBADF; return -1; }
    for (Epoll *e : v->pollers) { e->items.erase(fd); e->q.erase(std::remove(e->q.begin(), e->q.end(), fd), e->q.end()); }
    v->pollers.clear();
    fdt[fd] = nullptr;
    syscall(SYS_close, fd);
    wake(v);
    if (Sock *s = dynamic_cast<Sock *>(v)) { app_close(s); return 0; }   // kept: may still drain
    if (Udp *u = dynamic_cast<Udp *>(v)) { if (u->bound) udps.erase({u->local.ip, u->local.port}); }
    if (Epoll *e = dynamic_cast<Epoll *>(v)) for (auto &i : e->items) { auto &p = i.second.v->pollers; p.erase(std::remove(p.begin(), p.end(), e), p.end()); }
    if (Pipe *p = dynamic_cast<Pipe *>(v)) if (p->other) { p->other->hup = true; p->other->other = nullptr; vfd_notify(p->other); }
    // objects are small and runs are short: not freed, so that stale events stay harmless
    return 0;
}
void net_node_killed(int node) {
    for (int i = 0; i < 65536; i++) if (fdt[i] && fdt[i]->node == node && fdt[i]->kind != FD_FILE) vfd_close(i);
}
int node_fds(int k) { int n = 0; for (int i = 0; i < 65536; i++) if (fdt[i] && fdt[i]->node == k) n++; return n; }
static const char *kindname(FdKind k) { static const char *n[] = {"none", "tcp", "udp", "epoll", "event", "timer", "file", "pipe"}; return n[k]; }
std::string node_fd_list(int k) {
    std::map<std::string, int> m;
    for (int i = 0; i < 65536; i++) if (fdt[i] && fdt[i]->node == k) {
        std::string d = kindname(fdt[i]->kind);
        if (Sock *s = dynamic_cast<Sock *>(fdt[i])) d += fmt(":%u->%u%s%s", s->local.port, s->remote.port, s->rx_fin ? " fin" : "", s->rst ? " rst" : "");
        if (FileFd *f = dynamic_cast<FileFd *>(fdt[i])) d += ":" + f->path;
        m[d]++;
    }
    std::string r;
    for (auto &x : m) r += x.first + (x.second > 1 ? fmt(" x%d", x.second) : "") + "; ";
    return r;
}
int64_t net_inflight(uint32_t from, uint32_t to) {
    int64_t n = 0;
    for (Sock *s : conns) if (s->st == SS_EST && s->local.ip == from && s->remote.ip == to) n += s->tx.size() + (s->peer ? s->peer->rx.size() : 0);
    return n;
}
int net_conns(int node, uint16_t port) {
    int n = 0;
    for (int i = 0; i < 65536; i++) if (fdt[i] && fdt[i]->node == node) if (Sock *s = dynamic_cast<Sock *>(fdt[i])) if (s->st == SS_EST && s->local.port == port) n++;
    return n;
}
void net_partition(uint32_t a, uint32_t b, bool on) {
    std::pair<uint32_t, uint32_t> k(std::min(a, b), std::max(a, b));
    note("partition %s-%s %d", ipstr(a).c_str(), ipstr(b).c_str(), on);
    if (on) { parts.insert(k); fault("net_partition"); return; }
    parts.erase(k);
    for (Sock *s : conns) if (s->st == SS_EST && ((s->local.ip == a && s->remote.ip == b) || (s->local.ip == b && s->remote.ip == a)))
        if (s->tx.size() || s->fin_queued) schedule_delivery(s, latency());
}
int net_reset_between(uint32_t a, uint32_t b) {
    int n = 0;
    for (Sock *s : std::vector<Sock *>(conns)) if (s->st == SS_EST && !s->rst && ((s->local.ip == a && s->remote.ip == b) || (s->local.ip == b && s->remote.ip == a))) { sock_reset(s, ECONNRESET); n++; }
    if (n) fault("net_reset");
    return n;
}
void net_refuse(int node, uint16_t port, bool on) { if (on) refused.insert({node, port}); else refused.erase({node, port}); }
int64_t net_udp_dropped() { return udp_dropped; }

static Addr from_sa(const sockaddr *sa) { const sockaddr_in *i = (const sockaddr_in *)sa; Addr a; a.ip = ntohl(i->sin_addr.s_addr); a.port = ntohs(i->sin_port); return a; }
static void to_sa(const Addr &a, sockaddr *sa, socklen_t *len) {
    if (!sa || !len) return;
    sockaddr_in i; memset(&i, 0, sizeof i); i.sin_family = AF_INET; i.sin_addr.s_addr = htonl(a.ip); i.sin_port = htons(a.port);
    memcpy(sa, &i, std::min<size_t>(*len, sizeof i)); *len = sizeof i;
}
static Sock *sock(int fd) { return dynamic_cast<Sock *>(vfd(fd)); }

extern "C" int socket(int dom, int type, int) {
    if (!insim()) { errno = EACCES; return -1; }
    point(30);
    if (dom != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    int t = type & 0xf;
    Vfd *v;
    if (t == SOCK_STREAM) v = new Sock(); else v = new Udp();
    v->nonblock = type & SOCK_NONBLOCK;
    return vfd_new(v, t == SOCK_STREAM ? FD_TCP : FD_UDP, self->node);
}
static uint32_t bind_ip(uint32_t ip) { return ip == 0 || (ip >> 24) == 127 ? 0 : ip; }
extern "C" int bind(int fd, const struct sockaddr *sa, socklen_t) {
    point(31);
    Addr a = from_sa(sa);
    uint32_t host = my_ip(self->node);
    (void)bind_ip;
    if (a.ip == 0 || (a.ip >> 24) == 127) a.ip = host;
    if (a.ip != host) { errno = EADDRNOTAVAIL; return -1; }
    if (Sock *s = sock(fd)) {
        if (listeners.count({a.ip, a.port})) { errno = EADDRINUSE; return -1; }
        s->local = a; s->bound = true; return 0;
    }
    if (Udp *u = dynamic_cast<Udp *>(vfd(fd))) {
        if (udps.count({a.ip, a.port})) { errno = EADDRINUSE; return -1; }
        u->local = a; u->bound = true; udps[{a.ip, a.port}] = u; return 0;
    }
    errno = EBADF; return -1;
}
extern "C" int listen(int fd, int backlog) {
    point(32);
    Sock *s = sock(fd);
    if (!s) { errno = EBADF; return -1; }
    if (listeners.count({s->local.ip, s->local.port})) { errno = EADDRINUSE; return -1; }
    s->st = SS_LISTEN; s->backlog = backlog > 0 ? backlog : 1;
    listeners[{s->local.ip, s->local.port}] = s;
    return 0;
}
static void do_connect(Sock *s, Addr a) {
    if (s->local.port == 0) { if (!s->local.ip) s->local.ip = my_ip(s->node); s->local.port = next_port++; if (next_port > 60000) next_port = 30000; }
    s->remote = a;
    if ((a.ip >> 24) == 127) s->remote.ip = s->local.ip;
    s->st = SS_CONNECTING;
    conns.push_back(s);
    int64_t l = latency() * 2;
    bool part = net_partitioned(s->local.ip, s->remote.ip);
    bool act = !part;
    if (part) l = net.connect_timeout;
    after(l, act, [s, part]() {
        if (s->st != SS_CONNECTING || s->app_closed) return;
        if (part || net_partitioned(s->local.ip, s->remote.ip)) { s->st = SS_DEAD; s->err = ETIMEDOUT; fault("connect_timeout"); drop_conn(s); vfd_notify(s); return; }
        auto it = listeners.find({s->remote.ip, s->remote.port});
        Sock *l = it == listeners.end() ? nullptr : it->second;
        if (l && refused.count({l->node, (int)s->remote.port})) { l = nullptr; fault("connect_refused"); }
        if (!l || l->acceptq.size() > (size_t)l->backlog + 1) {
            s->st = SS_DEAD; s->err = l ? ETIMEDOUT : ECONNREFUSED; drop_conn(s); vfd_notify(s); return;
        }
        Sock *p = new Sock();
        p->st = SS_EST; p->local = s->remote; p->remote = s->local; p->peer = s; p->node = l->node; p->kind = FD_TCP; p->inbound = true;
        s->peer = p; s->st = SS_EST;
        conns.push_back(p);
        l->acceptq.push_back(p);
        g_counts["net_connections"]++;
        vfd_notify(s);
        vfd_notify(l);
    });
}
extern "C" int connect(int fd, const struct sockaddr *sa, socklen_t) {
    point(33);
    Sock *s = sock(fd);
    if (!s) { if (vfd(fd) && vfd(fd)->kind == FD_UDP) return 0; errno = EBADF; return -1; }
    if (s->st == SS_EST) { errno = EISCONN; return -1; }
    if (s->st == SS_CONNECTING) { errno = EALREADY; return -1; }
    do_connect(s, from_sa(sa));
    if (s->nonblock) { errno = EINPROGRESS; return -1; }
    while (s->st == SS_CONNECTING) block(s, -1);
    if (s->st == SS_DEAD) { errno = s->err; s->err = 0; return -1; }
    return 0;
}
static int do_accept(int fd, sockaddr *sa, socklen_t *len, int flags) {
    point(34);
    Sock *l = sock(fd);
    if (!l || l->st != SS_LISTEN) { errno = l ? EINVAL : EBADF; return -1; }
    while (l->acceptq.empty()) {
        if (l->nonblock) { errno = EAGAIN; return -1; }
        block(l, -1);
        if (vfd(fd) != l) { errno = EBADF; return -1; }
    }
    if (sut() && net.accept_err_ppm && chance(ST_F, net.accept_err_ppm)) {
        // transient resource exhaustion, or the client went away first
        if (choose(ST_F, 2)) { fault("accept_ECONNABORTED"); errno = ECONNABORTED; }
        else { fault("accept_EMFILE"); errno = EMFILE; }
        if (errno == ECONNABORTED) { int e = errno; Sock *s = l->acceptq.front(); l->acceptq.pop_front(); app_close(s); if (s->peer) sock_reset(s->peer, ECONNRESET); errno = e; }
        return -1;
    }
    Sock *s = l->acceptq.front(); l->acceptq.pop_front();
    s->nonblock = flags & SOCK_NONBLOCK;
    int nfd = vfd_new(s, FD_TCP, self->node);
    to_sa(s->remote, sa, len);
    return nfd;
}
extern "C" int accept(int fd, struct sockaddr *sa, socklen_t *len) { return do_accept(fd, sa, len, 0); }
extern "C" int accept4(int fd, struct sockaddr *sa, socklen_t *len, int f) { return do_accept(fd, sa, len, f); }

static ssize_t sock_send(Sock *s, const char *d, size_t n, int flags) {
    for (;;) {
        if (s->rst) {
            if (!s->rst_reported) { s->rst_reported = true; s->err = 0; errno = ECONNRESET; return -1; }
            errno = EPIPE; return -1;
        }
        if (s->st == SS_CONNECTING) {   // as Linux does in SYN_SENT
            if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
            block(s, -1); continue;
        }
        if (s->st != SS_EST) { errno = s->st == SS_DEAD && s->err ? s->err : ENOTCONN; return -1; }
        if (s->shut_wr) { errno = EPIPE; return -1; }
        // a short send means that the send buffer is full: it drains before there is room again
        size_t room = !s->nospace && s->sndcap > s->tx.size() ? s->sndcap - s->tx.size() : 0;
        if (!room) {
            s->nospace = true;
            if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; g_counts["net_send_full"]++; return -1; }
            block(s, -1);
            continue;
        }
        size_t k = std::min(room, n);
        if (k > 1 && net.short_send_ppm && chance(ST_N, net.short_send_ppm)) { k = 1 + choose(ST_N, k - 1); fault("short_send"); }
        if (k < n) s->nospace = true;
        s->tx.append(d, k);
        schedule_delivery(s, latency());
        return k;
    }
}
static ssize_t sock_recv(Sock *s, char *d, size_t n, int flags) {
    for (;;) {
        if (s->rx.size()) {
            size_t k = std::min(n, s->rx.size());
            if (k > 1 && net.short_recv_ppm && chance(ST_N, net.short_recv_ppm)) { k = 1 + choose(ST_N, k - 1); g_counts["short_recv"]++; }
            memcpy(d, s->rx.data(), k);
            if (!(flags & MSG_PEEK)) {
                bool was_full = s->rx.size() >= s->rcvcap;
                s->rx.erase(0, k);
                if (s->rx.size() && k < n) vfd_notify(s);   // a short read is followed by another edge
                if (was_full && s->peer && s->peer->tx.size()) schedule_delivery(s->peer, latency());
            }
            return k;
        }
        if (s->rst) {
            if (!s->rst_reported) { s->rst_reported = true; s->err = 0; errno = ECONNRESET; return -1; }
            return 0;
        }
        if (s->rx_fin || s->shut_rd) return 0;
        if (s->st != SS_EST && s->st != SS_CONNECTING) { errno = s->st == SS_DEAD && s->err ? s->err : ENOTCONN; return -1; }
        if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        block(s, -1);
    }
}
static ssize_t gsend(int fd, const char *d, size_t n, int flags) {
    Sock *s = sock(fd);
    if (!s) { errno = EBADF; return -1; }
    ssize_t r = sock_send(s, d, n, flags);
    if (r < 0 && errno == EPIPE && !(flags & MSG_NOSIGNAL) && sut()) { if (!nodes[self->node].may_exit) violation("exit", fmt("node %d is ended by SIGPIPE", self->node)); node_kill(self->node, "SIGPIPE"); }
    return r;
}
static void udp_deliver(Addr from, Addr to, std::string data) {
    auto it = udps.find({to.ip, to.port});
    if (it == udps.end()) return;
    Udp *u = it->second;
    if (u->bytes + data.size() > u->cap) { udp_dropped++; fault("udp_rcvbuf_drop"); return; }
    u->bytes += data.size() + 64;
    u->q.push_back({from, data});
    vfd_notify(u);
}
static void udp_send(Addr from, Addr to, const std::string &data) {
    if (net_partitioned(from.ip, to.ip)) { udp_dropped++; return; }
    if (chance(ST_N, net.udp_loss_ppm)) { udp_dropped++; fault("udp_loss"); return; }
    int64_t l = latency();
    if (chance(ST_N, net.udp_reorder_ppm)) { l += 1000000LL * choose(ST_N, 100); fault("udp_reorder"); }
    after(l, true, [=]() { udp_deliver(from, to, data); });
    if (chance(ST_N, net.udp_dup_ppm)) { fault("udp_dup"); after(l * 2, true, [=]() { udp_deliver(from, to, data); }); }
}
extern "C" ssize_t send(int fd, const void *d, size_t n, int f) { point(35); return gsend(fd, (const char *)d, n, f); }
extern "C" ssize_t sendto(int fd, const void *d, size_t n, int f, const struct sockaddr *sa, socklen_t) {
    point(35);
    if (Udp *u = dynamic_cast<Udp *>(vfd(fd))) { Addr from = u->local; if (!from.ip) from.ip = my_ip(self->node); udp_send(from, from_sa(sa), std::string((const char *)d, n)); return n; }
    return gsend(fd, (const char *)d, n, f);
}
extern "C" ssize_t sendmsg(int fd, const struct msghdr *m, int f) {
    point(35);
    std::string b;
    for (size_t i = 0; i < m->msg_iovlen; i++) b.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return gsend(fd, b.data(), b.size(), f);
}
static ssize_t udp_recv(Udp *u, char *d, size_t n, sockaddr *sa, socklen_t *len) {
    for (;;) {
        if (u->err) { errno = u->err; u->err = 0; return -1; }
        if (u->q.size()) {
            auto x = u->q.front(); u->q.pop_front(); u->bytes -= x.second.size() + 64;
            size_t k = std::min(n, x.second.size());
            memcpy(d, x.second.data(), k);
            to_sa(x.first, sa, len);
            return k;
        }
        if (u->nonblock) { errno = EAGAIN; return -1; }
        block(u, -1);
    }
}
extern "C" ssize_t recv(int fd, void *d, size_t n, int f) {
    point(36);
    if (Udp *u = dynamic_cast<Udp *>(vfd(fd))) return udp_recv(u, (char *)d, n, 0, 0);
    Sock *s = sock(fd);
    if (!s) { errno = EBADF; return -1; }
    return sock_recv(s, (char *)d, n, f);
}
extern "C" ssize_t recvfrom(int fd, void *d, size_t n, int f, struct sockaddr *sa, socklen_t *len) {
    point(36);
    if (Udp *u = dynamic_cast<Udp *>(vfd(fd))) return udp_recv(u, (char *)d, n, sa, len);
    Sock *s = sock(fd);
    if (!s) { errno = EBADF; return -1; }
    return sock_recv(s, (char *)d, n, f);
}
extern "C" ssize_t recvmsg(int fd, struct msghdr *m, int f) {
    point(36);
    std::string b; size_t tot = 0;
    for (size_t i = 0; i < m->msg_iovlen; i++) tot += m->msg_iov[i].iov_len;
    b.resize(tot ? tot : 1);
    ssize_t r;
    if (Udp *u = dynamic_cast<Udp *>(vfd(fd))) { r = udp_recv(u, &b[0], tot, (sockaddr *)m->msg_name, &m->msg_namelen); }
    else { Sock *s = sock(fd); if (!s) { errno = EBADF; return -1; } r = sock_recv(s, &b[0], tot, f); }
    if (r <= 0) return r;
    size_t off = 0;
    for (size_t i = 0; i < m->msg_iovlen && off < (size_t)r; i++) { size_t k = std::min<size_t>(m->msg_iov[i].iov_len, r - off); memcpy(m->msg_iov[i].iov_base, b.data() + off, k); off += k; }
    m->msg_flags = 0; m->msg_controllen = 0;
    return r;
}
extern "C" int shutdown(int fd, int how) {
    point(37);
    Sock *s = sock(fd);
    if (!s) { errno = EBADF; return -1; }
    if (s->st != SS_EST || s->rst) { errno = ENOTCONN; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) { s->shut_rd = true; vfd_notify(s); }
    if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shut_wr) { s->shut_wr = true; s->fin_queued = true; schedule_delivery(s, latency()); vfd_notify(s); }
    return 0;
}
extern "C" int getsockopt(int fd, int level, int opt, void *v, socklen_t *len) {
    point(38);
    if (level == SOL_SOCKET && opt == SO_ERROR) {
        int e = 0;
        if (Sock *s = sock(fd)) { e = s->err; s->err = 0; if (e && s->rst) s->rst_reported = true; }
        *(int *)v = e; *len = sizeof(int); return 0;
    }
    if (*len >= sizeof(int)) { *(int *)v = opt == SO_TYPE ? (sock(fd) ? SOCK_STREAM : SOCK_DGRAM) : 65536; *len = sizeof(int); }
    return 0;
}
extern "C" int setsockopt(int fd, int level, int opt, const void *v, socklen_t len) {
    point(38);
    if (!vfd(fd)) { errno = EBADF; return -1; }
    if (level == SOL_SOCKET && opt == SO_RCVBUF && len >= sizeof(int)) if (Udp *u = dynamic_cast<Udp *>(vfd(fd))) u->cap = (size_t)std::max(*(const int *)v, 2048) * 2;
    return 0;
}
extern "C" int getsockname(int fd, struct sockaddr *sa, socklen_t *len) {
    if (Sock *s = sock(fd)) { to_sa(s->local, sa, len); return 0; }
    if (Udp *u = dynamic_cast<Udp *>(vfd(fd))) { to_sa(u->local, sa, len); return 0; }
    errno = EBADF; return -1;
}
extern "C" int getpeername(int fd, struct sockaddr *sa, socklen_t *len) {
    point(38);
    if (Sock *s = sock(fd)) { if (s->st != SS_EST || s->rst) { errno = ENOTCONN; return -1; } to_sa(s->remote, sa, len); return 0; }
    errno = EBADF; return -1;
}
extern "C" int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap);
    Vfd *v = insim() ? vfd(fd) : nullptr;
    if (!v) return syscall(SYS_ioctl, fd, req, p);
    if (req == FIONBIO) { v->nonblock = *(int *)p; return 0; }
    if (req == FIONREAD) { Sock *s = sock(fd); Udp *u = dynamic_cast<Udp *>(v); *(int *)p = s ? s->rx.size() : u && u->q.size() ? u->q.front().second.size() : 0; return 0; }
    if (v->kind == FD_FILE) return syscall(SYS_ioctl, fd, req, p);
    return 0;
}
static int do_fcntl(int fd, int cmd, long arg) {
    Vfd *v = insim() ? vfd(fd) : nullptr;
    if (!v) return syscall(SYS_fcntl, fd, cmd, arg);
    if (cmd == F_GETFL) return (v->nonblock ? O_NONBLOCK : 0) | O_RDWR;
    if (cmd == F_SETFL) { v->nonblock = arg & O_NONBLOCK; return 0; }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
extern "C" int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
extern "C" int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

extern "C" int poll(struct pollfd *p, nfds_t n, int timeout) {
    if (!insim()) return syscall(SYS_poll, p, n, timeout);
    point(39);
    int64_t deadline = timeout < 0 ? -1 : now_ns + timeout * 1000000LL;
    for (;;) {
        int r = 0;
        for (nfds_t i = 0; i < n; i++) {
            Vfd *v = vfd(p[i].fd);
            uint32_t m = v ? v->ready() : POLLNVAL;
            p[i].revents = m & (p[i].events | POLLERR | POLLHUP | POLLNVAL);
            if (p[i].revents) r++;
        }
        if (r || timeout == 0) return r;
        if (deadline >= 0 && now_ns >= deadline) return 0;
        if (n == 1 && vfd(p[0].fd)) block(vfd(p[0].fd), deadline);
        else sleep_ns(1000000);
    }
}
// select(): used by the splitter only; waits on every descriptor by a channel of its own
static int g_selchan;
extern "C" int select(int n, fd_set *rd, fd_set *wr, fd_set *ex, struct timeval *tv) {
    if (!insim()) { errno = ENOSYS; return -1; }
    point(40);
    (void)g_selchan;
    int64_t deadline = tv ? now_ns + tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : -1;
    fd_set r0, w0; FD_ZERO(&r0); FD_ZERO(&w0);
    if (rd) r0 = *rd;
    if (wr) w0 = *wr;
    for (;;) {
        int c = 0;
        fd_set r1, w1; FD_ZERO(&r1); FD_ZERO(&w1);
        std::vector<Vfd *> vs;
        for (int i = 0; i < n; i++) {
            bool a = rd && FD_ISSET(i, &r0), b = wr && FD_ISSET(i, &w0);
            if (!a && !b) continue;
            Vfd *v = vfd(i);
            if (!v) { errno = EBADF; return -1; }
            vs.push_back(v);
            uint32_t m = v->ready();
            if (a && (m & (EPOLLIN | EPOLLHUP | EPOLLERR))) { FD_SET(i, &r1); c++; }
            if (b && (m & (EPOLLOUT | EPOLLERR))) { FD_SET(i, &w1); c++; }
        }
        if (c || (deadline >= 0 && now_ns >= deadline)) { if (rd) *rd = r1; if (wr) *wr = w1; if (ex) FD_ZERO(ex); return c; }
        Epoll tmp;
        for (Vfd *v : vs) v->pollers.push_back(&tmp);
        for (Vfd *v : vs) tmp.items[v->fd] = Epoll::Item{v, 0, {}, false, false};
        block(&tmp, deadline);
        for (Vfd *v : vs) v->pollers.erase(std::remove(v->pollers.begin(), v->pollers.end(), &tmp), v->pollers.end());
    }
}

// ------------------------------------------------------------ names
static bool parse_ip(const char *h, uint32_t &ip) {
    in_addr a;
    if (inet_pton(AF_INET, h, &a) == 1) { ip = ntohl(a.s_addr); return true; }
    if (!strcmp(h, "localhost")) { ip = 0x7f000001; return true; }
    int k; char c;
    if (sscanf(h, "node%d%c", &k, &c) == 1 && k >= 0 && k < 64) { ip = node_ip(k); return true; }
    return false;
}
extern "C" int getaddrinfo(const char *host, const char *serv, const struct addrinfo *hints, struct addrinfo **res) {
    if (!insim()) return EAI_FAIL;
    point(41);
    uint32_t ip = 0;
    if (host && *host && !parse_ip(host, ip)) return EAI_NONAME;
    int port = serv ? atoi(serv) : 0;
    struct Both { addrinfo a; sockaddr_in s; };
    Both *b = (Both *)calloc(1, sizeof(Both));
    b->s.sin_family = AF_INET; b->s.sin_port = htons(port); b->s.sin_addr.s_addr = htonl(ip);
    b->a.ai_family = AF_INET; b->a.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM; b->a.ai_protocol = IPPROTO_TCP;
    b->a.ai_addr = (sockaddr *)&b->s; b->a.ai_addrlen = sizeof b->s;
    *res = &b->a;
    if (sut()) sleep_ns(20000);
    return 0;
}
extern "C" void freeaddrinfo(struct addrinfo *a) { free(a); }
extern "C" int getnameinfo(const struct sockaddr *sa, socklen_t, char *h, socklen_t hl, char *s, socklen_t sl, int) {
    Addr a = from_sa(sa);
    if (h) snprintf(h, hl, "%s", ipstr(a.ip).c_str());
    if (s) snprintf(s, sl, "%u", a.port);
    return 0;
}
extern "C" struct hostent *gethostbyname2(const char *name, int) {
    static struct hostent he; static uint32_t addr; static char *list[2];
    uint32_t ip;
    if (!parse_ip(name, ip)) return nullptr;
    addr = htonl(ip); list[0] = (char *)&addr; list[1] = nullptr;
    he.h_name = (char *)name; he.h_addrtype = AF_INET; he.h_length = 4; he.h_addr_list = list; he.h_aliases = list + 1;
    return &he;
}
extern "C" int gethostname(char *n, size_t l) { snprintf(n, l, "node%d", self ? self->node : 0); return 0; }

// ------------------------------------------------------------ generic descriptor calls (see fs.cpp for files)
ssize_t vfd_read(Vfd *v, void *d, size_t n) {
    if (EventFd *e = dynamic_cast<EventFd *>(v)) {
        if (n < 8) { errno = EINVAL; return -1; }
        while (!e->v) { if (e->nonblock) { errno = EAGAIN; return -1; } block(e, -1); }
        memcpy(d, &e->v, 8); e->v = 0; return 8;
    }
    if (TimerFd *t = dynamic_cast<TimerFd *>(v)) {
        if (!t->exp) { errno = EAGAIN; return -1; }
        memcpy(d, &t->exp, 8); t->exp = 0; return 8;
    }
    if (Sock *s = dynamic_cast<Sock *>(v)) return sock_recv(s, (char *)d, n, 0);
    if (Udp *u = dynamic_cast<Udp *>(v)) return udp_recv(u, (char *)d, n, 0, 0);
    if (Pipe *p = dynamic_cast<Pipe *>(v)) {
        while (p->buf.empty()) { if (p->hup) return 0; if (p->nonblock) { errno = EAGAIN; return -1; } block(p, -1); }
        size_t k = std::min(n, p->buf.size()); memcpy(d, p->buf.data(), k); p->buf.erase(0, k); return k;
    }
    errno = EINVAL; return -1;
}
ssize_t vfd_write(Vfd *v, const void *d, size_t n) {
    if (EventFd *e = dynamic_cast<EventFd *>(v)) { uint64_t x; memcpy(&x, d, 8); e->v += x; vfd_notify(e); return 8; }
    if (v->kind == FD_TCP) return gsend(v->fd, (const char *)d, n, 0);
    if (Pipe *p = dynamic_cast<Pipe *>(v)) { if (!p->other) { errno = EPIPE; return -1; } p->other->buf.append((const char *)d, n); vfd_notify(p->other); return n; }
    errno = EINVAL; return -1;
}

// ------------------------------------------------------------ harness clients
int c_connect(uint32_t from, uint32_t ip, uint16_t port, int64_t timeout) {
    Sock *s = new Sock();
    int fd = vfd_new(s, FD_TCP, self->node);
    s->local.ip = from; s->sndcap = 1 << 20;
    Addr a; a.ip = ip; a.port = port;
    do_connect(s, a);
    int64_t dl = now_ns + timeout;
    while (s->st == SS_CONNECTING && now_ns < dl) block(s, dl);
    if (s->st != SS_EST) { vfd_close(fd); return -1; }
    return fd;
}
bool c_send(int fd, const std::string &data, int64_t timeout) {
    Sock *s = sock(fd);
    size_t off = 0;
    int64_t dl = now_ns + timeout;
    while (off < data.size()) {
        if (s->rst || s->st != SS_EST) return false;
        // a short send means that the send buffer is full: it drains before there is room again
        size_t room = !s->nospace && s->sndcap > s->tx.size() ? s->sndcap - s->tx.size() : 0;
        if (!room) {
            s->nospace = true; if (now_ns >= dl) return false; block(s, dl); continue; }
        size_t k = std::min(room, data.size() - off);
        s->tx.append(data, off, k); off += k;
        schedule_delivery(s, latency());
    }
    point(50);
    return true;
}
int c_recv(int fd, std::string &out, int64_t timeout, size_t max) {
    Sock *s = sock(fd);
    int64_t dl = now_ns + timeout;
    for (;;) {
        if (s->rx.size() || s->rx_fin || s->rst) {
            std::string b; b.resize(std::min<size_t>(max, 65536));
            bool nb = s->nonblock; s->nonblock = true;
            ssize_t r = sock_recv(s, &b[0], b.size(), 0);
            s->nonblock = nb;
            if (r > 0) { out.append(b, 0, r); point(51); return r; }
            return r;
        }
        if (now_ns >= dl) return -2;
        block(s, dl);
    }
}
void c_close(int fd) { vfd_close(fd); point(52); }
void c_reset(int fd) {
    Sock *s = sock(fd);
    if (s && s->peer && s->st == SS_EST) { Sock *p = s->peer; s->rst = true; s->tx.clear(); after(latency(), true, [p]() { sock_reset(p, ECONNRESET); }); fault("client_reset"); }
    vfd_close(fd); point(52);
}
void c_shut_wr(int fd) { shutdown(fd, SHUT_WR); }
int c_listen(uint32_t ip, uint16_t port) {
    Sock *s = new Sock(); int fd = vfd_new(s, FD_TCP, self->node);
    s->local.ip = ip; s->local.port = port; s->st = SS_LISTEN; s->backlog = 64; listeners[{ip, port}] = s;
    return fd;
}
int c_accept(int lfd, int64_t timeout) {
    Sock *l = sock(lfd);
    int64_t dl = now_ns + timeout;
    while (l->acceptq.empty()) { if (now_ns >= dl) return -1; block(l, dl); }
    Sock *s = l->acceptq.front(); l->acceptq.pop_front();
    return vfd_new(s, FD_TCP, self->node);
}
void c_udp(uint32_t from, uint32_t ip, uint16_t port, const std::string &data) { Addr f, t; f.ip = from; f.port = 5555; t.ip = ip; t.port = port; udp_send(f, t, data); point(53); }
size_t c_unsent(int fd) { Sock *s = sock(fd); return s ? s->tx.size() : 0; }
std::string c_local(int fd) { Sock *s = sock(fd); return s ? ipstr(s->local.ip) + fmt(":%u", s->local.port) : ""; }
uint32_t c_peer_ip(int fd) { Sock *s = sock(fd); return s ? s->remote.ip : 0; }
}
