// Driver of simulated runs: one process per run, forked from a zygote.
#include "core.h"
#include "net.h"
#include "fs.h"
#include "scen.h"
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <new>
#include <sstream>
#include <sched.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" void __asan_set_error_report_callback(void (*)(const char *));

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:detect_odr_violation=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:quarantine_size_mb=32:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=2048:allocator_release_to_os_interval_ms=-1";
}
namespace sim {
static int g_resfd = -1;
static std::string g_scenario;
static uint64_t g_seed;
static std::string g_asan;
static bool g_want_choices;
std::map<std::string, std::string> g_params;
int g_fill = 0;
static volatile bool g_finishing;

std::string param(const std::string &k, const std::string &d) { auto it = g_params.find(k); return it == g_params.end() ? d : it->second; }

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string jmap(const std::map<std::string, int64_t> &m) {
    std::string o = "{"; bool f = true;
    for (auto &x : m) { if (!f) o += ","; f = false; o += jstr(x.first) + ":" + std::to_string(x.second); }
    return o + "}";
}
static void put(const std::string &s) { size_t off = 0; while (off < s.size()) { ssize_t w = syscall(SYS_write, g_resfd, s.data() + off, s.size() - off); if (w <= 0) break; off += w; } }

static std::string jchoices() {
    static const char *n[] = {"W", "S", "F", "N"};
    std::string o = "{";
    for (int s = 0; s < ST_COUNT; s++) {
        if (s) o += ",";
        o += std::string("\"") + n[s] + "\":[";
        bool f = true;
        for (auto &x : g_ch[s].rec) { if (g_ch[s].replay && x.first >= g_ch[s].next) break; if (!f) o += ","; f = false; o += std::to_string(x.first) + "," + std::to_string(x.second); }
        o += "]";
    }
    return o + "}";
}
}
void prof_dump();
namespace sim {
void finish_run(const char *status, const std::string &cls, const std::string &msg) {
    if (g_finishing) _exit(95);
    g_finishing = true;
    if (getenv("SIM_PROF")) prof_dump();
    std::string o = "{\"scenario\":" + jstr(g_scenario) + ",\"seed\":" + std::to_string(g_seed) + ",\"status\":" + jstr(status) + ",\"cls\":" + jstr(cls) + ",\"msg\":" + jstr(msg);
    o += fmt(",\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"sim_ns\":%lld", (unsigned long long)g_hash, (unsigned long long)g_schedhash, (unsigned long long)g_steps, (unsigned long long)g_switches, (long long)now_ns);
    o += ",\"counts\":" + jmap(g_counts) + ",\"faults\":" + jmap(g_faults) + ",\"probes\":" + jmap(g_probes) + ",\"known\":" + jmap(g_known);
    std::string ps = "{"; for (auto &p : g_params) { if (ps.size() > 1) ps += ","; ps += jstr(p.first) + ":" + jstr(p.second); }
    o += ",\"params\":" + ps + "}";
    if (g_want_choices || !strcmp(status, "violation")) o += ",\"choices\":" + jchoices();
    if (g_asan.size()) o += ",\"report\":" + jstr(g_asan.substr(0, 6000));
    o += "}\n";
    put(o);
    syscall(SYS_exit_group, 0);
}
static std::string asan_summary() {
    std::string sum = "memory error";
    size_t p = g_asan.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) { size_t e = g_asan.find_first_of(" \n", p + 25); sum = g_asan.substr(p + 25, e - p - 25); }
    // first frame in the system under test
    size_t q = 0; int frames = 0;
    while ((q = g_asan.find("    #", q)) != std::string::npos && frames < 12) {
        size_t e = g_asan.find('\n', q);
        std::string line = g_asan.substr(q, e - q);
        q = e;
        size_t in = line.find(" in ");
        if (in == std::string::npos) continue;
        std::string fn = line.substr(in + 4);
        if (fn.find("/repo/") == std::string::npos && fn.find("daemon/") == std::string::npos && fn.find("lib/") == std::string::npos) continue;
        size_t sp = fn.find_last_of(' ');
        std::string where = sp == std::string::npos ? "" : fn.substr(sp + 1);
        size_t sl = where.find_last_of('/');
        if (sl != std::string::npos) where = where.substr(sl + 1);
        sum += " in " + fn.substr(0, fn.find('(')) + " " + where;
        frames++;
        if (frames >= 3) break;
    }
    return sum;
}
static void on_report(const char *r) { g_asan += r; }
static void on_death() {
    if (g_finishing) return;
    bool h = !sut();
    if (g_verbose) { syscall(SYS_write, 2, g_asan.data(), g_asan.size()); }
    finish_run(h ? "error" : "violation", h ? "harness" : "crash", asan_summary());
}
}
using namespace sim;

namespace sim {
// size classes: multiples of 16 to 1024, then powers of two
static char *ar_base, *ar_cur, *ar_end;
static void *ar_free[128];
static int ar_lock;
static int ar_class(size_t n, size_t &sz) {
    if (n <= 1024) { sz = (n + 15) & ~15ul; if (!sz) sz = 16; return sz / 16; }
    int c = 65; sz = 2048; while (sz < n) { sz <<= 1; c++; }
    return c;
}
void *arena_alloc(size_t n) {
    size_t sz; int c = ar_class(n, sz);
    while (__atomic_exchange_n(&ar_lock, 1, __ATOMIC_ACQUIRE)) {}
    if (!ar_base) {
        ar_base = (char *)mmap((void *)0x300000000000ul, 16ul << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (ar_base == MAP_FAILED) _exit(97);
        ar_cur = ar_base; ar_end = ar_base + (16ul << 30);
    }
    char *p = (char *)ar_free[c];
    if (p) ar_free[c] = *(void **)p;
    else { p = ar_cur + 16; ar_cur += sz + 16; if (ar_cur > ar_end) _exit(97); *(long *)(p - 16) = c; }
    __atomic_store_n(&ar_lock, 0, __ATOMIC_RELEASE);
    return p;
}
bool in_arena(const void *p) { return (char *)p >= ar_base && (char *)p < ar_end && ar_base; }
void arena_free(void *p) {
    int c = *(long *)((char *)p - 16);
    while (__atomic_exchange_n(&ar_lock, 1, __ATOMIC_ACQUIRE)) {}
    *(void **)p = ar_free[c]; ar_free[c] = p;
    __atomic_store_n(&ar_lock, 0, __ATOMIC_RELEASE);
}
}
static void *do_new(size_t n) {
    if (!sut()) return arena_alloc(n);
    if (sut() && n > (256u << 20)) { count("huge_allocation_refused"); throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (sut()) memset(p, g_fill, n);
    return p;
}
static void do_delete(void *p) { if (in_arena(p)) arena_free(p); else free(p); }
void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return do_new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return do_new(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }

// developer aid: SIM_PROF=1 samples program counters
static void *prof_pc[20000]; static int prof_n;
static void on_prof(int, siginfo_t *, void *u) { if (prof_n < 20000) prof_pc[prof_n++] = (void *)((ucontext_t *)u)->uc_mcontext.gregs[REG_RIP]; }
static void prof_start() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_prof; sa.sa_flags = SA_SIGINFO | SA_RESTART;
    sigaction(SIGPROF, &sa, 0);
    struct itimerval it = {{0, 1000}, {0, 1000}}; setitimer(ITIMER_PROF, &it, 0);
}
void prof_dump() {
    struct itimerval it = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &it, 0);
    static char b[1 << 20]; int o = 0;
    for (int i = 0; i < prof_n && o < (1 << 20) - 300; i++) { Dl_info d; if (dladdr(prof_pc[i], &d)) o += snprintf(b + o, 300, "%.100s %.180s\n", d.dli_fname, d.dli_sname ? d.dli_sname : "?"); }
    int f = syscall(SYS_openat, AT_FDCWD, "/tmp/simprof", O_CREAT | O_TRUNC | O_WRONLY, 0666); syscall(SYS_write, f, b, o);
}
static double mono() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }

struct Job { std::string scenario; uint64_t seed; bool replay = false; Rec rec[ST_COUNT]; std::map<std::string, std::string> params; bool verbose = false; std::string trace_to; };
static std::string g_base;     // scratch parent
static int g_slot;

// without allocations of the C library: the heap of the parent is the heap of the next run
static void rm_rf(const std::string &p) {
    if (p.compare(0, g_base.size(), g_base) || g_base.size() < 8) return;
    int d = open(p.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
    if (d >= 0) {
        std::vector<std::string> names;
        static char buf[65536] __attribute__((aligned(16)));
        long n;
        while ((n = syscall(SYS_getdents64, d, buf, sizeof buf)) > 0)
            for (long o = 0; o < n;) { struct dirent64 *e = (struct dirent64 *)(buf + o); o += e->d_reclen; if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name); }
        close(d);
        for (auto &x : names) {
            std::string q = p + "/" + x;
            if (unlink(q.c_str()) && errno != ENOENT) rm_rf(q);
        }
    }
    rmdir(p.c_str());
}
struct Child { pid_t pid; int fd; std::string root; double start; };
static Child start_child(const Job &j, int slot) {
    Child c;
    c.fd = memfd_create("res", 0);
    c.root = g_base + "/r" + std::to_string(slot);
    c.start = mono();
    c.pid = fork();
    if (c.pid) return c;
    // ---- child: one simulated run
    // the same descriptors in every run
    dup2(c.fd, 900);
    for (int f = 3; f < 64; f++) close(f);
    g_resfd = 900; g_root = c.root; g_scenario = j.scenario; g_seed = j.seed; g_params = j.params; g_verbose = j.verbose;
    mkdir(g_root.c_str(), 0777);
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 0); dup2(dn, 1);
    if (j.trace_to.size()) { int t = open(j.trace_to.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(t, 2); close(t); }
    else if (!j.verbose) dup2(dn, 2);
    close(dn);
    if (getenv("SIM_PROF")) prof_start();
    core_init(j.seed, j.replay);
    if (j.replay) for (int s = 0; s < ST_COUNT; s++) g_ch[s].rec = j.rec[s];
    Scenario const *sc = find_scenario(j.scenario);
    if (!sc) { finish_run("error", "harness", "unknown scenario " + j.scenario); }
    for (int i = 0; i < 64; i++) fs_free_bytes[i] = 1LL << 40;
    run_main([sc]() { scenario_prologue(); sc->fn(); scenario_epilogue(); });
    _exit(94);
}
static std::string finish_child(Child &c, double limit) {
    int st = 0; bool timeout = false;
    for (;;) {
        pid_t r = waitpid(c.pid, &st, WNOHANG);
        if (r == c.pid) break;
        if (mono() - c.start > limit) { kill(c.pid, SIGKILL); waitpid(c.pid, &st, 0); timeout = true; break; }
        struct timespec ts = {0, mono() - c.start < 0.05 ? 300000 : 2000000}; syscall(SYS_nanosleep, &ts, 0);
    }
    std::string out; char b[65536]; ssize_t r;
    lseek(c.fd, 0, SEEK_SET);
    while ((r = read(c.fd, b, sizeof b)) > 0) out.append(b, r);
    close(c.fd);
    rm_rf(c.root);
    return timeout ? "TIMEOUT" : out.empty() ? fmt("DIED %d", st) : out;
}
static std::string run_job(const Job &j, double limit = 240) {
    Child c = start_child(j, g_slot);
    std::string o = finish_child(c, limit);
    if (o == "TIMEOUT") return fmt("{\"scenario\":\"%s\",\"seed\":%llu,\"status\":\"budget\",\"cls\":\"wallclock\",\"msg\":\"wall-clock limit\",\"counts\":{},\"faults\":{},\"probes\":{},\"known\":{},\"steps\":0,\"switches\":0,\"sim_ns\":0,\"hash\":\"\",\"sched\":\"\"}\n", j.scenario.c_str(), (unsigned long long)j.seed);
    if (o.compare(0, 4, "DIED") == 0) return fmt("{\"scenario\":\"%s\",\"seed\":%llu,\"status\":\"error\",\"cls\":\"harness\",\"msg\":\"%s\",\"counts\":{},\"faults\":{},\"probes\":{},\"known\":{},\"steps\":0,\"switches\":0,\"sim_ns\":0,\"hash\":\"\",\"sched\":\"\"}\n", j.scenario.c_str(), (unsigned long long)j.seed, o.c_str());
    return o;
}
// -------- tiny JSON field access for our own output
static std::string field(const std::string &j, const std::string &k) {
    size_t p = j.find("\"" + k + "\":");
    if (p == std::string::npos) return "";
    p += k.size() + 3;
    if (j[p] == '"') {
        std::string o; p++;
        while (p < j.size() && j[p] != '"') {
            if (j[p] == '\\') { p++; if (j[p] == 'u') { o += (char)strtol(j.substr(p + 1, 4).c_str(), 0, 16); p += 5; continue; } }
            o += j[p++];
        }
        return o;
    }
    size_t e = p; while (e < j.size() && j[e] != ',' && j[e] != '}') e++;
    return j.substr(p, e - p);
}
static void parse_choices(const std::string &j, Rec *rec) {
    static const char *n[] = {"W", "S", "F", "N"};
    size_t c = j.find("\"choices\":");
    if (c == std::string::npos) return;
    for (int s = 0; s < ST_COUNT; s++) {
        size_t p = j.find(std::string("\"") + n[s] + "\":[", c);
        if (p == std::string::npos) continue;
        p += 5;
        while (j[p] != ']') {
            char *e; uint32_t a = strtoul(&j[p], &e, 10); p = e - j.data(); p++;
            uint32_t b = strtoul(&j[p], &e, 10); p = e - j.data(); if (j[p] == ',') p++;
            rec[s][a] = b;
        }
    }
}
static void parse_params(const std::string &j, std::map<std::string, std::string> &m) {
    size_t c = j.find("\"params\":{");
    if (c == std::string::npos) return;
    c += 10;
    while (j[c] == '"' || j[c] == ',') {
        if (j[c] == ',') { c++; continue; }
        size_t e = j.find('"', c + 1); std::string k = j.substr(c + 1, e - c - 1);
        size_t v = e + 3, f = j.find('"', v); m[k] = j.substr(v, f - v);
        c = f + 1;
    }
}
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static Job load_replay(const char *file) {
    std::string t = slurp(file);
    Job j; j.scenario = field(t, "scenario"); j.seed = strtoull(field(t, "seed").c_str(), 0, 10); j.replay = true;
    parse_choices(t, j.rec); parse_params(t, j.params);
    return j;
}
static size_t total(const Rec *r) { size_t n = 0; for (int i = 0; i < ST_COUNT; i++) n += r[i].size(); return n; }

static int minimise(const char *in, const char *out, double seconds) {
    Job best = load_replay(in);
    std::string src = slurp(in), cls = field(src, "cls");
    double end = mono() + seconds;
    int tries = 0, ok = 0;
    size_t before = total(best.rec);
    auto attempt = [&](std::vector<Job> &cand) -> int {
        // run candidates in parallel; the first (lowest index) that still fails the same way wins
        std::vector<Child> cs;
        for (size_t i = 0; i < cand.size(); i++) cs.push_back(start_child(cand[i], 10 + i));
        int win = -1;
        for (size_t i = 0; i < cand.size(); i++) {
            std::string o = finish_child(cs[i], 60);
            tries++;
            if (win < 0 && field(o, "status") == "violation" && field(o, "cls") == cls) {
                win = i;
                for (int s = 0; s < ST_COUNT; s++) cand[i].rec[s].clear();
                parse_choices(o, cand[i].rec);
            }
        }
        return win;
    };
    std::string first = run_job(best, 120);
    if (field(first, "status") != "violation" || field(first, "cls") != cls) { printf("{\"minimise\":\"not reproduced\"}\n"); return 1; }
    static const int order[] = {ST_S, ST_N, ST_F, ST_W};
    // whole streams first
    for (int s : order) { if (best.rec[s].empty() || mono() > end) continue; std::vector<Job> c(1, best); c[0].rec[s].clear(); if (attempt(c) == 0) { best = c[0]; ok++; } }
    bool progress = true;
    for (int round = 0; round < 4 && progress && mono() < end; round++) {
        progress = false;
        for (int s : order) {
            size_t chunk = (best.rec[s].size() + 1) / 2;
            while (chunk >= 1 && mono() < end && !best.rec[s].empty()) {
                size_t pos = 0;
                while (pos < best.rec[s].size() && mono() < end) {
                    std::vector<Job> c;
                    std::vector<std::pair<uint32_t, uint32_t>> items(best.rec[s].begin(), best.rec[s].end());
                    size_t p = pos;
                    while (c.size() < 8 && p < items.size()) {
                        Job j = best;
                        for (size_t i = p; i < p + chunk && i < items.size(); i++) j.rec[s].erase(items[i].first);
                        c.push_back(j); p += chunk;
                    }
                    int w = attempt(c);
                    if (w >= 0) { size_t b4 = total(best.rec); best = c[w]; ok++; progress = true; pos += chunk * w; if (total(best.rec) >= b4) pos += chunk; }
                    else pos = p;
                }
                chunk = chunk == 1 ? 0 : (chunk + 1) / 2;
            }
        }
        // smaller values
        for (int s : {ST_W, ST_F}) {
            std::vector<std::pair<uint32_t, uint32_t>> items(best.rec[s].begin(), best.rec[s].end());
            for (auto &it : items) {
                if (mono() > end) break;
                if (it.second <= 1 || !best.rec[s].count(it.first) || best.rec[s][it.first] != it.second) continue;
                std::vector<Job> c;
                for (uint32_t v : {1u, it.second / 8, it.second / 2, it.second - 1}) if (v && v < it.second) { Job j = best; j.rec[s][it.first] = v; c.push_back(j); }
                int w = attempt(c);
                if (w >= 0) { best = c[w]; ok++; progress = true; }
            }
        }
    }
    best.trace_to = std::string(out) + ".trace"; best.verbose = true;
    std::string fin = run_job(best, 120);
    if (field(fin, "status") != "violation") { printf("{\"minimise\":\"lost\"}\n"); return 1; }
    std::ofstream o(out); o << fin; o.close();
    printf("{\"minimise\":\"ok\",\"before\":%zu,\"after\":%zu,\"tries\":%d,\"accepted\":%d}\n", before, total(best.rec), tries, ok);
    return 0;
}

int main(int argc, char **argv) {
    // the same addresses in every process
    if (!getenv("SIM_REEXEC")) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    unsetenv("SIM_REEXEC");
    static char outbuf[1 << 16];
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
    __asan_set_error_report_callback(on_report);
    __sanitizer_set_death_callback(on_death);
    std::string mode = argc > 1 ? argv[1] : "";
    std::vector<std::string> pos;
    Job j; std::string replay, out, trace; int cpu = -1; double seconds = 1e9; uint64_t count_ = 1, stride = 1; bool choices = false;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "-v") j.verbose = true;
        else if (a == "--replay") replay = nx();
        else if (a == "--out") out = nx();
        else if (a == "--trace") trace = nx();
        else if (a == "--libdir") g_libdir = nx();
        else if (a == "--cpu") cpu = atoi(nx().c_str());
        else if (a == "--seconds") seconds = atof(nx().c_str());
        else if (a == "--count") count_ = strtoull(nx().c_str(), 0, 10);
        else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10);
        else if (a == "--choices") choices = true;
        else if (a == "-p") { std::string kv = nx(); size_t e = kv.find('='); j.params[kv.substr(0, e)] = kv.substr(e + 1); }
        else pos.push_back(a);
    }
    if (g_libdir.empty()) g_libdir = "/verif/.build/cur";
    g_want_choices = choices;
    if (cpu >= 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
    struct stat st;
    g_base = stat("/dev/shm", &st) == 0 && access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    g_base += fmt("/istatdsim.%07d", (int)getpid());
    mkdir(g_base.c_str(), 0777);
    preload_libs();
    int rc = 0;
    if (mode == "list") { list_scenarios(); }
    else if (mode == "one") {
        if (replay.size()) { bool v = j.verbose; j = load_replay(replay.c_str()); j.verbose = v; }
        else { j.scenario = pos.at(0); j.seed = strtoull(pos.at(1).c_str(), 0, 10); }
        j.trace_to = trace; if (trace.size()) j.verbose = true;
        std::string o = run_job(j, 600);
        if (out.size()) { std::ofstream f(out); f << o; }
        fputs(o.c_str(), stdout);
        rc = field(o, "status") == "violation" ? 1 : field(o, "status") == "error" ? 2 : 0;
    } else if (mode == "batch") {
        j.scenario = pos.at(0);
        uint64_t seed = strtoull(pos.at(1).c_str(), 0, 10);
        double end = mono() + seconds;
        for (uint64_t i = 0; i < count_ && mono() < end; i++) { j.seed = seed + i * stride; std::string o = run_job(j); fputs(o.c_str(), stdout); fflush(stdout); }
    } else if (mode == "min") rc = minimise(pos.at(0).c_str(), pos.at(1).c_str(), seconds);
    else { fprintf(stderr, "usage: simrun one|batch|min|list ...\n"); rc = 2; }
    rm_rf(g_base);
    fflush(stdout);
    _exit(rc);
}
