#include "core.h"
#include "net.h"
#include "fs.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <queue>
#include <unordered_map>
#include <exception>
#include <cxxabi.h>

namespace sim {

Choices g_ch[ST_COUNT];
__thread Thread *self;
int64_t now_ns;
int64_t wall_base_ns = 1400000000LL * 1000000000LL;
int64_t node_skew_ns[64];
Node nodes[64];
SchedCfg sched;
std::map<std::string, int64_t> g_counts, g_faults, g_probes, g_known;
uint64_t g_hash = 1469598103934665603ULL, g_schedhash = 1469598103934665603ULL, g_steps, g_switches;
bool g_verbose;
uint64_t g_max_steps = 6000000;
std::string g_root, g_libdir;
static int64_t g_countdown = 1 << 30;     // basic blocks until the next slow callback
static int64_t g_slice;                   // value g_countdown was loaded with
static int64_t g_until_preempt;           // preemption distance left
static int64_t stalled_ns;                // total length of thread stalls
static std::vector<Thread *> all_threads;
static std::vector<Thread *> runq;
static std::unordered_map<const void *, std::vector<Thread *>> waiters;
static std::vector<Thread *> idlers;
static int g_activity;
static uint64_t g_evseq;
static bool g_ended;
extern void finish_run(const char *status, const std::string &cls, const std::string &msg);  // main.cpp

uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

void hash_mix(uint64_t v) { g_hash = (g_hash ^ v) * 1099511628211ULL; g_hash ^= g_hash >> 29; }

uint32_t choose(Stream s, uint32_t n) {
    if (n <= 1) return 0;
    Choices &c = g_ch[s];
    uint32_t i = c.next++;
    uint32_t v;
    if (c.replay) {
        auto it = c.rec.find(i);
        v = it == c.rec.end() ? 0 : it->second % n;
    } else {
        v = (uint32_t)((splitmix(c.rng) >> 11) % n);
        if (v) c.rec[i] = v;
    }
    hash_mix(((uint64_t)s << 56) ^ ((uint64_t)i << 24) ^ v);
    return v;
}

std::string fmt(const char *f, ...) {
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}

void note(const char *f, ...) {
    if (!g_verbose) return;
    char buf[4096];
    va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    char pre[96];
    int m = snprintf(pre, sizeof pre, "[%12.6f] t%d n%d | ", now_ns / 1e9, self ? self->id : -1, self ? self->node : -9);
    static char out[8192];
    int o = 0, rl = g_root.size();
    memcpy(out, pre, m); o = m;
    for (int i = 0; i < n && o < 8000;) {
        if (rl && i + rl <= n && !memcmp(buf + i, g_root.data(), rl)) { memcpy(out + o, "/sim", 4); o += 4; i += rl; }
        else out[o++] = buf[i++];
    }
    out[o++] = '\n';
    syscall(SYS_write, 2, out, o);
}
void count(const std::string &k, int64_t n) { g_counts[k] += n; }
void fault(const std::string &k) { g_faults[k]++; hash_mix(0xfa17); note("FAULT %s", k.c_str()); }
void probe(const std::string &k) { g_probes[k]++; }

void violation(const std::string &cls, const std::string &msg) { g_ended = true; note("VIOLATION %s: %s", cls.c_str(), msg.c_str()); finish_run("violation", cls, msg); _exit(99); }
void harness_error(const std::string &msg) { g_ended = true; note("HARNESS ERROR %s", msg.c_str()); finish_run("error", "harness", msg); _exit(98); }
void run_end() { g_ended = true; finish_run("ok", "", ""); _exit(0); }
void check(bool ok, const char *cls, const std::string &msg) { if (!ok) violation(cls, msg); }

int64_t wall_ns(int node) { return wall_base_ns + now_ns + (node >= 0 ? node_skew_ns[node] : 0); }

// ------------------------------------------------------------ events
struct Ev { int64_t t; uint64_t seq; bool act; Fn fn; };
struct EvCmp { bool operator()(Ev *a, Ev *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> evq;

void at(int64_t t, bool act, Fn fn) {
    Ev *e = new Ev{t < now_ns ? now_ns : t, g_evseq++, act, fn};
    if (act) g_activity++;
    evq.push(e);
}
static bool fire_due() {
    bool any = false;
    while (!evq.empty() && evq.top()->t <= now_ns) {
        Ev *e = evq.top(); evq.pop();
        if (e->act) g_activity--;
        e->fn();
        delete e;
        any = true;
    }
    return any;
}

// ------------------------------------------------------------ parking
static void futex_wait(volatile int *p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); }
static void futex_wake(volatile int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void load_slice() {
    // the next slow callback comes when the preemption distance is used up, at the latest after 4096 blocks
    int64_t s = g_until_preempt < 4096 ? g_until_preempt : 4096;
    if (s < 1) s = 1;
    g_slice = s; g_countdown = s;
}
static void draw_preempt() {
    uint32_t k = choose(ST_S, sched.preempt_log2 + 1);      // 0: long
    if (k == 0) { g_until_preempt = 8192; return; }
    g_until_preempt = 1 + choose(ST_S, 1u << k);
}

static void make_runnable(Thread *t) {
    if (t->dead) return;
    t->state = T_RUN; t->chan = nullptr; t->chan_mutex = false;
    runq.push_back(t);
}

static Thread *pick_next() {
    for (;;) {
        fire_due();
        static std::vector<Thread *> cand;
        cand.clear();
        int64_t min_stall = INT64_MAX;
        for (Thread *t : runq) {
            if (t->stall_until > now_ns) { if (t->stall_until < min_stall) min_stall = t->stall_until; continue; }
            cand.push_back(t);
        }
        if (!cand.empty()) {
            Thread *p = cand[0];
            if (cand.size() > 1) {
                if (sched.policy == 1) p = cand[choose(ST_S, cand.size())];
                else if (sched.policy == 2) { for (Thread *t : cand) if (t->prio > p->prio) p = t; }
            }
            runq.erase(std::find(runq.begin(), runq.end(), p));
            return p;
        }
        if (runq.empty() && g_activity == 0 && !idlers.empty()) {
            for (Thread *t : idlers) { t->idle_wait = false; make_runnable(t); }
            idlers.clear();
            continue;
        }
        int64_t nx = min_stall;
        if (!evq.empty() && evq.top()->t < nx) nx = evq.top()->t;
        if (nx == INT64_MAX) {
            violation("stuck", "no thread can run and no event is pending");
        }
        if (nx > now_ns) now_ns = nx;
    }
}

static void switch_to(Thread *n) {
    Thread *me = self;
    if (n == me) return;
    g_switches++;
    g_schedhash = (g_schedhash ^ (uint64_t)(n->id * 131 + (g_steps & 0xffff))) * 1099511628211ULL;
    hash_mix(0x5000 + n->id);
    hash_mix((uint64_t)now_ns);
    me->go = 0;
    futex_wake(&n->go);
    futex_wait(&me->go);
}

static void account() {
    // time passes with computation
    int64_t used = g_slice - g_countdown;
    if (used < 0) used = 0;
    Thread *t = self;
    t->bb += used;
    now_ns += sched.tick_ns + used;
    g_until_preempt -= used;
    if (t->node >= 0) {
        Node &nd = nodes[t->node];
        if (nd.kill_bbs >= 0 && !t->nopreempt) {
            nd.kill_bbs -= used + 1;
            if (nd.kill_bbs < 0) { fault("kill"); node_kill(t->node, "killed at instruction"); }
        }
        if (t->bb > 600000000) violation("hang", fmt("thread '%s' of node %d ran 600M basic blocks without blocking", t->name.c_str(), t->node));
    }
    if (++g_steps > g_max_steps) { finish_run("budget", "", "step budget"); _exit(0); }
}

static void maybe_switch() {
    fire_due();
    Thread *t = self;
    if (t->nopreempt || g_ended) { load_slice(); return; }
    if (g_until_preempt <= 0) {
        draw_preempt();
        uint32_t act = choose(ST_S, 4);
        if (act) {
            // at most a fifth of the time, or long computations would take ever longer
            if (sched.stall_ppm && t->node >= 0 && stalled_ns <= 5000000000LL + now_ns / 5 && chance(ST_S, sched.stall_ppm)) {
                int64_t d = 1000LL << choose(ST_S, 24);
                if (d > sched.stall_max_ns) d = sched.stall_max_ns;
                t->stall_until = now_ns + d; stalled_ns += d;
                g_faults["thread_stall"]++;
                t->prio = 0;
            } else if (sched.policy == 2) t->prio = choose(ST_S, 1000);
            runq.push_back(t);
            Thread *n = pick_next();
            load_slice();
            switch_to(n);
            load_slice();
            return;
        }
    }
    load_slice();
}

void point(int kind) {
    if (!self || g_ended) return;
    int e = errno;
    hash_mix(kind);
    account();
    g_until_preempt -= 1;
    if (g_until_preempt < 0) g_until_preempt = 0;
    maybe_switch();
    errno = e;
}

// the thread does not get on for a while (slow I/O); others do
void stall(int64_t d, const char *what) {
    Thread *t = self;
    if (t->nopreempt || g_ended || stalled_ns > 5000000000LL + now_ns / 5) return;
    account();
    fault(what);
    t->stall_until = now_ns + d; stalled_ns += d;
    runq.push_back(t);
    Thread *n = pick_next();
    load_slice();
    switch_to(n);
    load_slice();
}

static void slow_bb() {
    if (!self || g_ended) { g_countdown = 1 << 20; return; }
    int e = errno;
    account();
    maybe_switch();
    errno = e;
}

bool block(const void *chan, int64_t deadline, bool is_mutex) {
    Thread *t = self;
    if (g_ended) { for (;;) pause(); }
    account();
    t->bb = 0;
    t->state = T_BLOCK; t->chan = chan; t->chan_mutex = is_mutex; t->timedout = false;
    uint64_t gen = ++t->wait_gen;
    waiters[chan].push_back(t);
    if (deadline >= 0) {
        at(deadline, false, [t, gen, chan]() {
            if (t->state == T_BLOCK && t->wait_gen == gen) {
                auto it = waiters.find(chan);
                if (it != waiters.end()) { auto &v = it->second; v.erase(std::remove(v.begin(), v.end(), t), v.end()); if (v.empty()) waiters.erase(it); }
                t->timedout = true;
                make_runnable(t);
            }
        });
    }
    Thread *n = pick_next();
    load_slice();
    switch_to(n);
    load_slice();
    return !t->timedout;
}

void wake(const void *chan) {
    auto it = waiters.find(chan);
    if (it == waiters.end()) return;
    std::vector<Thread *> v; v.swap(it->second);
    waiters.erase(it);
    for (Thread *t : v) make_runnable(t);
}
void wake_one(const void *chan) {
    auto it = waiters.find(chan);
    if (it == waiters.end() || it->second.empty()) return;
    auto &v = it->second;
    size_t i = v.size() > 1 ? choose(ST_S, v.size()) : 0;
    Thread *t = v[i];
    v.erase(v.begin() + i);
    if (v.empty()) waiters.erase(it);
    make_runnable(t);
}
void sleep_ns(int64_t d) { block(&self->wait_gen, now_ns + (d < 0 ? 0 : d)); }
void settle() {
    Thread *t = self;
    account();
    t->bb = 0;
    t->state = T_BLOCK; t->idle_wait = true; t->chan = nullptr; ++t->wait_gen;
    idlers.push_back(t);
    Thread *n = pick_next();
    load_slice();
    switch_to(n);
    load_slice();
}

// ------------------------------------------------------------ thread creation
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void *trampoline(void *p) {
    Thread *t = (Thread *)p;
    futex_wait(&t->go);
    self = t;
    load_slice();
    if (t->body) t->body(); else t->ret = t->fn(t->arg);
    t->state = T_DONE;
    wake(t);
    t->bb = 0;
    Thread *n = pick_next();
    load_slice();
    t->go = 0;
    futex_wake(&n->go);
    futex_wait(&t->go);   // parked for good
    return 0;
}
static Thread *new_thread(int node, const char *name) {
    Thread *t = new Thread();
    t->id = all_threads.size(); t->node = node; t->inc = node >= 0 ? nodes[node].inc : 0;
    t->state = T_RUN; t->go = 0; t->name = name; t->prio = sched.policy == 2 ? choose(ST_S, 1000) : 500;
    all_threads.push_back(t);
    return t;
}
static void start_os_thread(Thread *t) {
    static pc_t real = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    int e = real(&t->pt, &a, trampoline, t);
    pthread_attr_destroy(&a);
    if (e) harness_error("pthread_create failed");
}
Thread *spawn(int node, const char *name, std::function<void()> fn) {
    Thread *t = new_thread(node, name);
    t->body = fn;
    start_os_thread(t);
    runq.push_back(t);
    return t;
}
bool thread_done(Thread *t) { return t->state == T_DONE; }
void join(Thread *t) { while (t->state != T_DONE && !t->dead) block(t, -1); }

extern "C" int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!sut()) { static pc_t real = (pc_t)dlsym(RTLD_NEXT, "pthread_create"); return real(pt, a, fn, arg); }
    point(1);
    Thread *t = new_thread(self->node, "worker");
    t->fn = fn; t->arg = arg;
    if (a) { int ds = 0; pthread_attr_getdetachstate(a, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; }
    start_os_thread(t);
    *pt = t->pt;
    runq.push_back(t);
    point(1);
    return 0;
}
extern "C" int pthread_join(pthread_t pt, void **ret) {
    if (!insim()) { static auto real = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join"); return real(pt, ret); }
    point(2);
    for (Thread *t : all_threads) if (pthread_equal(t->pt, pt) && t->id) { join(t); if (ret) *ret = t->ret; return 0; }
    return ESRCH;
}
extern "C" int pthread_detach(pthread_t pt) {
    if (!insim()) { static auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach"); return real(pt); }
    return 0;
}

// ------------------------------------------------------------ mutexes and conditions
static int &m_owner(pthread_mutex_t *m) { return m->__data.__owner; }
static unsigned &m_count(pthread_mutex_t *m) { return m->__data.__count; }
static int m_kind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static Thread *thr(int owner) { return owner > 0 && owner <= (int)all_threads.size() ? all_threads[owner - 1] : nullptr; }

static void deadlock_check(pthread_mutex_t *m) {
    Thread *me = self;
    pthread_mutex_t *x = m;
    for (int i = 0; i < 100; i++) {
        Thread *o = thr(m_owner(x));
        if (!o) return;
        if (o == me) violation("deadlock", fmt("threads of node %d wait for each other's locks in a cycle of length %d", me->node, i + 1));
        if (o->state != T_BLOCK || !o->chan_mutex) return;
        x = (pthread_mutex_t *)o->chan;
    }
}
static int do_lock(pthread_mutex_t *m, bool tryl) {
    int me = self->id + 1;
    if (m_owner(m) == me) {
        if (m_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP) { m_count(m)++; return 0; }
        if (tryl) return EBUSY;
        if (m_kind(m) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        violation("deadlock", "thread locks a plain mutex it already holds");
    }
    while (m_owner(m)) {
        if (tryl) return EBUSY;
        g_counts["lock_contention"]++;
        deadlock_check(m);
        block(m, -1, true);
    }
    m_owner(m) = me; m_count(m) = 1; m->__data.__lock = 1;
    self->held.push_back(m);
    return 0;
}
static void do_unlock(pthread_mutex_t *m) {
    if (m_kind(m) == PTHREAD_MUTEX_RECURSIVE_NP && m_count(m) > 1) { m_count(m)--; return; }
    m_owner(m) = 0; m_count(m) = 0; m->__data.__lock = 0;
    auto &h = self->held;
    for (size_t i = h.size(); i-- > 0;) if (h[i] == m) { h.erase(h.begin() + i); break; }
    wake(m);
}
#define REAL(name, type) static auto real = (type)dlsym(RTLD_NEXT, name)
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!insim()) { REAL("pthread_mutex_lock", int (*)(pthread_mutex_t *)); return real(m); }
    point(3);
    return do_lock(m, false);
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!insim()) { REAL("pthread_mutex_trylock", int (*)(pthread_mutex_t *)); return real(m); }
    point(3);
    return do_lock(m, true);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!insim()) { REAL("pthread_mutex_unlock", int (*)(pthread_mutex_t *)); return real(m); }
    do_unlock(m);
    point(4);
    return 0;
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (!insim()) { REAL("pthread_mutex_destroy", int (*)(pthread_mutex_t *)); return real(m); }
    return m_owner(m) ? EBUSY : 0;
}
// A readers/writer lock is simulated as an exclusive one (only libstdc++ uses them here).
extern "C" int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!insim()) { REAL("pthread_once", int (*)(pthread_once_t *, void (*)(void))); return real(o, fn); }
    NoPreempt np;
    REAL("pthread_once", int (*)(pthread_once_t *, void (*)(void)));
    return real(o, fn);
}
static std::unordered_map<void *, int> cond_clock;
extern "C" int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
    if (!insim()) { REAL("pthread_cond_init", int (*)(pthread_cond_t *, const pthread_condattr_t *)); return real(c, a); }
    memset(c, 0, sizeof *c);
    clockid_t k = CLOCK_REALTIME;
    if (a) pthread_condattr_getclock(a, &k);
    if (k != CLOCK_REALTIME) cond_clock[c] = k; else cond_clock.erase(c);
    return 0;
}
extern "C" int pthread_cond_destroy(pthread_cond_t *c) {
    if (!insim()) { REAL("pthread_cond_destroy", int (*)(pthread_cond_t *)); return real(c); }
    cond_clock.erase(c);
    return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline) {
    point(5);
    unsigned cnt = m_count(m);
    m_owner(m) = 0; m_count(m) = 0; m->__data.__lock = 0;
    auto &h = self->held;
    h.erase(std::remove(h.begin(), h.end(), m), h.end());
    wake(m);
    if (sched.spurious && chance(ST_S, 20000)) { int64_t d = now_ns + 1000; if (deadline < 0 || d < deadline) { block(c, d); do_lock(m, false); m_count(m) = cnt; return 0; } }
    bool ok = block(c, deadline);
    do_lock(m, false);
    m_count(m) = cnt;
    return ok ? 0 : ETIMEDOUT;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!insim()) { REAL("pthread_cond_wait", int (*)(pthread_cond_t *, pthread_mutex_t *)); return real(c, m); }
    return cond_wait(c, m, -1);
}
static int64_t abs_to_mono(const timespec *ts, int clk) {
    int64_t t = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    if (clk == CLOCK_REALTIME) t -= wall_ns(self->node) - now_ns;
    return t < now_ns ? now_ns : t;
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
    if (!insim()) { REAL("pthread_cond_timedwait", int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)); return real(c, m, ts); }
    auto it = cond_clock.find(c);
    return cond_wait(c, m, abs_to_mono(ts, it == cond_clock.end() ? CLOCK_REALTIME : it->second));
}
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const timespec *ts) {
    if (!insim()) { REAL("pthread_cond_clockwait", int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)); return real(c, m, clk, ts); }
    return cond_wait(c, m, abs_to_mono(ts, clk));
}
extern "C" int pthread_cond_signal(pthread_cond_t *c) {
    if (!insim()) { REAL("pthread_cond_signal", int (*)(pthread_cond_t *)); return real(c); }
    wake_one(c);
    point(6);
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!insim()) { REAL("pthread_cond_broadcast", int (*)(pthread_cond_t *)); return real(c); }
    wake(c);
    point(6);
    return 0;
}
// function-local statics
extern "C" int __cxa_guard_acquire(uint64_t *g) {
    char *b = (char *)g;
    for (;;) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
        if (!b[1]) { b[1] = 1; if (self) self->guards.push_back(g); return 1; }
        if (!insim()) return 1;
        block(g, -1);
    }
}
static void guard_done(uint64_t *g, bool ok) {
    char *b = (char *)g;
    b[1] = 0; if (ok) b[0] = 1;
    if (self) { auto &v = self->guards; v.erase(std::remove(v.begin(), v.end(), (void *)g), v.end()); wake(g); }
}
extern "C" void __cxa_guard_release(uint64_t *g) { guard_done(g, true); }
extern "C" void __cxa_guard_abort(uint64_t *g) { guard_done(g, false); }

extern "C" int sched_yield(void) { if (insim()) { g_until_preempt = 0; point(7); now_ns += 10000; } return 0; }

// ------------------------------------------------------------ basic-block callback
extern "C" void __sanitizer_cov_trace_pc(void) { if (__builtin_expect(--g_countdown <= 0, 0)) slow_bb(); }

// ------------------------------------------------------------ clocks
extern "C" int gettimeofday(struct timeval *tv, void *) {
    if (!insim()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    point(8);
    int64_t w = wall_ns(self->node); tv->tv_sec = w / 1000000000LL; tv->tv_usec = w % 1000000000LL / 1000; return 0;
}
extern "C" time_t time(time_t *t) {
    time_t r;
    if (!insim()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    else { point(8); r = wall_ns(self->node) / 1000000000LL; }
    if (t) *t = r;
    return r;
}
extern "C" int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!insim()) return syscall(SYS_clock_gettime, c, ts);
    point(8);
    int64_t w = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_ns(self->node) : now_ns + 1000000000LL;
    ts->tv_sec = w / 1000000000LL; ts->tv_nsec = w % 1000000000LL; return 0;
}
extern "C" int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!insim()) return syscall(SYS_nanosleep, a, b);
    sleep_ns(a->tv_sec * 1000000000LL + a->tv_nsec); return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *a, struct timespec *b) { return nanosleep(a, b); }
extern "C" int usleep(useconds_t u) { if (!insim()) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return syscall(SYS_nanosleep, &ts, 0); } sleep_ns(u * 1000LL); return 0; }
extern "C" unsigned sleep(unsigned s) { if (!insim()) { struct timespec ts = {(time_t)s, 0}; syscall(SYS_nanosleep, &ts, 0); return 0; } sleep_ns(s * 1000000000LL); return 0; }
extern "C" int pause(void) { if (!insim()) return syscall(SYS_pause); for (;;) block((const void *)&self->go, -1); }

// ------------------------------------------------------------ nodes
static int g_libs_used;
int node_start(int k, std::vector<std::string> args, const char *lib) {
    Node &n = nodes[k];
    if (n.alive) harness_error("node already running");
    if (g_libs_used >= 12) { count("runs_out_of_incarnations"); run_end(); }
    n.id = k; n.inc++; n.alive = true; n.exited = false; n.exit_code = -1; n.how.clear();
    n.kill_fsops = n.kill_bbs = -1; n.fsops = 0;
    n.pid = 1000 + k * 100 + n.inc;
    if (n.initial_cwd.empty()) { n.initial_cwd = g_root + "/n" + std::to_string(k); }
    n.cwd = n.initial_cwd;
    std::string path = g_libdir + "/" + (lib ? lib : "libsut") + "_" + std::to_string(g_libs_used++) + ".so";
    note("node %d start (incarnation %d)", k, n.inc);
    count("node_starts");
    std::vector<std::string> *av = new std::vector<std::string>(args);
    spawn(k, "main", [k, path, av]() {
        void *h; int (*mainfn)(int, char const **);
        {
            NoPreempt np;
            h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) harness_error(std::string("dlopen: ") + dlerror());
            mainfn = (int (*)(int, char const **))dlsym(h, "main");
            if (!mainfn) harness_error("no main in system under test");
        }
        std::vector<char const *> *argv = new std::vector<char const *>();
        for (auto &s : *av) argv->push_back(s.c_str());
        argv->push_back(nullptr);
        int rc = mainfn((int)argv->size() - 1, argv->data());
        note("node %d main returned %d", k, rc);
        nodes[k].exit_code = rc;
        if (!nodes[k].may_exit) violation("exit", fmt("the daemon of node %d returned %d from main", k, rc));
        node_kill(k, "main returned");
    });
    return 0;
}
void node_kill(int k, const char *how) {
    Node &n = nodes[k];
    if (!n.alive) return;
    note("node %d dies: %s", k, how);
    n.alive = false; n.exited = true; n.how = how; n.died_ns = now_ns;
    for (Thread *t : all_threads) if (t->node == k && !t->dead) {
        t->dead = true;
        for (auto m : t->held) { m_owner(m) = 0; m_count(m) = 0; m->__data.__lock = 0; wake(m); }
        t->held.clear();
        for (auto g : t->guards) { ((char *)g)[1] = 0; wake(g); }
        t->guards.clear();
        runq.erase(std::remove(runq.begin(), runq.end(), t), runq.end());
        if (t->state == T_BLOCK && t->chan) {
            auto it = waiters.find(t->chan);
            if (it != waiters.end()) { auto &v = it->second; v.erase(std::remove(v.begin(), v.end(), t), v.end()); if (v.empty()) waiters.erase(it); }
        }
        t->wait_gen++;
        wake(t);
    }
    net_node_killed(k);
    fs_node_killed(k);
    wake(&n);
    if (self && self->node == k) {
        Thread *t = self;
        t->state = T_DONE;
        Thread *nx = pick_next();
        load_slice();
        t->go = 0;
        futex_wake(&nx->go);
        for (;;) { futex_wait(&t->go); t->go = 0; }
    }
}

static std::string demangle_current_exception() {
    std::string r = "no exception";
    if (std::type_info *ti = abi::__cxa_current_exception_type()) {
        int st; char *d = abi::__cxa_demangle(ti->name(), 0, 0, &st);
        r = d ? d : ti->name();
        try { throw; } catch (std::exception const &e) { r += std::string(": ") + e.what(); } catch (...) {}
    }
    return r;
}
extern "C" void abort(void) {
    if (!sut()) { signal_abort: syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), 6); _exit(134); goto signal_abort; }
    violation("crash", "the daemon aborted: " + demangle_current_exception());
}
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    if (!sut()) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); _exit(97); }
    violation("crash", fmt("the daemon failed an assertion: %s (%s:%u %s)", e, f, l, fn));
}
extern "C" void exit(int code) {
    if (!sut()) { REAL("exit", void (*)(int)); real(code); _exit(code); }
    nodes[self->node].exit_code = code;
    if (!nodes[self->node].may_exit) violation("exit", fmt("the daemon of node %d called exit(%d)", self->node, code));
    node_kill(self->node, fmt("exit(%d)", code).c_str());
    _exit(96);
}

// ------------------------------------------------------------ run
void core_init(uint64_t seed, bool replay) {
    uint64_t s = seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
    for (int i = 0; i < ST_COUNT; i++) { uint64_t x = s + i * 0x517cc1b727220a95ULL; splitmix(x); g_ch[i].rng = x; g_ch[i].replay = replay; g_ch[i].next = 0; }
}
void run_main(std::function<void()> director) {
    Thread *t = new_thread(-1, "director");
    t->pt = pthread_self();
    self = t;
    draw_preempt();
    load_slice();
    director();
    run_end();
}
}
