// Deterministic simulator core: choices, clock, events, threads, scheduling.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <pthread.h>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// The harness' own memory: apart from the allocator of the system under test, whose
// addresses must not depend on what the harness does.
void *arena_alloc(size_t n);
void arena_free(void *p);
bool in_arena(const void *p);
template <class T> struct ArenaAlloc {
    typedef T value_type;
    ArenaAlloc() {}
    template <class U> ArenaAlloc(const ArenaAlloc<U> &) {}
    T *allocate(size_t n) { return (T *)arena_alloc(n * sizeof(T)); }
    void deallocate(T *p, size_t) { arena_free(p); }
    template <class U> bool operator==(const ArenaAlloc<U> &) const { return true; }
    template <class U> bool operator!=(const ArenaAlloc<U> &) const { return false; }
};
typedef std::map<uint32_t, uint32_t, std::less<uint32_t>, ArenaAlloc<std::pair<const uint32_t, uint32_t>>> Rec;

// ---------------------------------------------------------------- choices
// Every decision of a run is drawn from one of these streams. A stream in
// "generate" mode draws from a PRNG seeded by the run's seed and records all
// non-zero choices; in "replay" mode it returns the recorded values, and 0 for
// every index that is not recorded. 0 is always the simplest choice.
enum Stream { ST_W = 0, ST_S, ST_F, ST_N, ST_COUNT };
struct Choices {
    bool replay = false;
    uint64_t rng = 0;
    uint32_t next = 0;
    Rec rec;
};
extern Choices g_ch[ST_COUNT];
uint32_t choose(Stream s, uint32_t n);                 // 0..n-1
inline bool chance(Stream s, uint32_t ppm) { return ppm && choose(s, 1000000) >= 1000000 - (ppm > 999999 ? 999999 : ppm); }
inline int64_t range(Stream s, int64_t lo, int64_t hi) { return lo + choose(s, (uint32_t)(hi - lo + 1)); }
template <class T> T pick(Stream s, std::initializer_list<T> l) { return *(l.begin() + choose(s, l.size())); }
uint64_t splitmix(uint64_t &x);

// ---------------------------------------------------------------- threads
enum TState { T_RUN, T_BLOCK, T_DONE };
struct Thread {
    int id;
    int node;            // -1: harness
    int inc;             // node incarnation
    TState state;
    volatile int go;
    const void *chan;
    bool chan_mutex;
    bool timedout;
    uint64_t wait_gen;
    bool idle_wait;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    bool detached;
    pthread_t pt;
    int nopreempt;
    int64_t stall_until;
    uint64_t bb;         // basic blocks since last block
    uint32_t prio;
    bool dead;
    std::vector<pthread_mutex_t *> held;
    std::vector<void *> guards;
    std::string name;
    std::function<void()> body;
};
extern __thread Thread *self;
inline bool insim() { return self != nullptr; }
inline bool sut() { return self != nullptr && self->node >= 0; }

extern int64_t now_ns;                    // simulated monotonic time
extern int64_t wall_base_ns;              // wall time at now_ns == 0
extern int64_t node_skew_ns[64];
int64_t wall_ns(int node);

// events
typedef std::function<void()> Fn;
void at(int64_t t, bool activity, Fn fn);  // run fn in scheduler context
inline void after(int64_t d, bool activity, Fn fn) { at(now_ns + (d < 0 ? 0 : d), activity, fn); }

// blocking
bool block(const void *chan, int64_t deadline, bool is_mutex = false);  // false: timed out
void wake(const void *chan);
void wake_one(const void *chan);
void sleep_ns(int64_t d);
void settle();                            // until nothing is runnable and nothing is in flight
void point(int kind);                     // a preemption point (intercepted call)
void stall(int64_t d, const char *what);  // the calling thread is held up (a slow disk)
Thread *spawn(int node, const char *name, std::function<void()> fn);
bool thread_done(Thread *t);
void join(Thread *t);
struct NoPreempt { NoPreempt() { if (self) self->nopreempt++; } ~NoPreempt() { if (self) self->nopreempt--; } };

// nodes
struct Node {
    int id;
    int inc = 0;
    bool alive = false;
    bool exited = false;
    int exit_code = 0;
    std::string how;
    std::string cwd;
    std::string lib;
    std::string initial_cwd;
    int64_t kill_fsops = -1;   // countdown of file operations until a kill
    int64_t kill_bbs = -1;     // countdown of basic blocks until a kill
    bool may_exit = false;     // the scenario expects the process to end by itself
    int64_t fsops = 0;
    int pid = 0;
    int64_t died_ns = 0;
};
extern Node nodes[64];
int node_start(int k, std::vector<std::string> args, const char *lib = nullptr);
void node_kill(int k, const char *how);   // does not return if called from a thread of k
int node_fds(int k);                      // open descriptors of the node
std::string node_fd_list(int k);
extern uint64_t (*g_trace_cb)();

// schedule configuration of the run
struct SchedCfg {
    int policy = 0;         // 0 fifo, 1 random, 2 priorities
    uint32_t preempt_log2 = 12; // mean distance of preemption points, 2^n basic blocks
    uint32_t stall_ppm = 0; // of preemptions that stall the thread
    int64_t stall_max_ns = 0;
    int64_t tick_ns = 200;
    bool spurious = false;
};
extern SchedCfg sched;

// outcome
[[noreturn]] void violation(const std::string &cls, const std::string &msg);
[[noreturn]] void harness_error(const std::string &msg);
[[noreturn]] void run_end();
void check(bool ok, const char *cls, const std::string &msg);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));    // trace log
void count(const std::string &k, int64_t n = 1);                          // statistics, faults
void fault(const std::string &k);                                         // a fault fired
void probe(const std::string &k);                                         // rare condition reached
void hash_mix(uint64_t v);
extern std::map<std::string, int64_t> g_counts, g_faults, g_probes;
extern uint64_t g_hash, g_schedhash, g_steps, g_switches;
extern bool g_verbose;
extern uint64_t g_max_steps;
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

void core_init(uint64_t seed, bool replay);
void run_main(std::function<void()> director);   // becomes sim thread 0, never returns

extern std::string g_root;     // scratch directory of this run
extern std::string g_libdir;   // where libsut_N.so are
}

// implemented in net.cpp / fs.cpp
namespace sim {
void net_node_killed(int node);
void fs_node_killed(int node);
extern std::map<std::string, int64_t> g_known;   // known findings seen in this run
}
