// Scenario registry, per-run environment and server start-up.
#include "scen.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
static std::vector<Scenario> &regs() { static std::vector<Scenario> v; return v; }
Reg::Reg(const char *n, void (*f)()) { regs().push_back(Scenario{n, f}); }
Scenario const *find_scenario(const std::string &name) { for (auto &s : regs()) if (name == s.name) return &s; return nullptr; }
void list_scenarios() { for (auto &s : regs()) printf("%s\n", s.name); }
void preload_libs() {}

void scenario_prologue() {
    // the environment of this run: schedule policy, timing, segmentation, memory contents
    sched.policy = choose(ST_S, 3);
    sched.preempt_log2 = 12 - choose(ST_S, 8);
    sched.stall_ppm = pick<uint32_t>(ST_S, {0, 0, 1000, 20000, 100000});
    sched.stall_max_ns = (1 * MS) << choose(ST_S, 10);
    sched.spurious = choose(ST_S, 4) == 3;
    sched.tick_ns = pick<int64_t>(ST_S, {200, 200, 2000});
    net.lat_min = 20000LL << choose(ST_N, 7);
    net.lat_jitter = net.lat_min * choose(ST_N, 20);
    net.seg_ppm = pick<uint32_t>(ST_N, {0, 100000, 500000, 950000});
    net.short_send_ppm = pick<uint32_t>(ST_N, {0, 0, 200000, 800000});
    net.short_recv_ppm = pick<uint32_t>(ST_N, {0, 0, 200000, 800000});
    net.sndcap = pick<size_t>(ST_N, {256 << 10, 64 << 10, 4 << 10});
    net.rcvcap = pick<size_t>(ST_N, {128 << 10, 16 << 10, 2 << 10});
    g_fill = pick<int>(ST_S, {0, 0xff, 0x01, 0xbe});
    wall_base_ns = (1400000000LL + 10 * (int64_t)choose(ST_W, 300000)) * SEC + (int64_t)choose(ST_W, 1000) * MS;
    fs_shuffle_readdir = choose(ST_F, 2);
    if (sched.stall_ppm) { fs_slow_ppm = pick<uint32_t>(ST_F, {0, 20000, 300000}); fs_slow_max_ns = std::min<int64_t>(sched.stall_max_ns, 64 * MS); }
    if (param("policy").size()) sched.policy = atoi(param("policy").c_str());
    if (param("preempt").size()) sched.preempt_log2 = atoi(param("preempt").c_str());
    note("environment: policy %d preempt 2^%u stall %u ppm max %lld us, latency %lld+%lld us, seg %u ppm, fill %02x", sched.policy, sched.preempt_log2, sched.stall_ppm, (long long)sched.stall_max_ns / 1000, (long long)net.lat_min / 1000, (long long)net.lat_jitter / 1000, net.seg_ppm, g_fill);
}
void scenario_epilogue() {
    if (g_fs_denied) violation("escape", "the daemon tried to write outside its directories: " + g_fs_denied_path);
}
int pick_threads() { return pick<int>(ST_W, {1, 2, 3, 4}); }

Strs Server::args() const {
    Strs a = {"istatd", "--num-files", "1024", "--log-level", param("loglevel", "0")};
    auto add = [&](const Str &k, const Str &v) { a.push_back(k); a.push_back(v); };
    add("--thread-count", std::to_string(threads ? threads : 1));
    add("--http-port", std::to_string(http ? P_HTTP : 0));
    add("--stat-port", std::to_string(stat ? P_STAT : 0));
    if (admin) add("--admin-port", std::to_string(P_ADMIN));
    if (prom) add("--prometheus-port", std::to_string(P_PROM));
    if (repl) add("--replica-port", std::to_string(P_REPL));
    if (store.size()) { add("--store", store); add("--retention", retention); add("--flush", std::to_string(flush)); add("--prune-empty-directories-interval", std::to_string(prune)); if (min_space >= 0) add("--min-space", std::to_string(min_space)); }
    if (!recursive) a.push_back("--dont-recursively-create-counters");
    Str ag = agent_addr;
    if (master >= 0) ag = "node" + std::to_string(master) + ":" + std::to_string(P_STAT);
    if (ag.size()) { add("--agent", ag); add("--agentCount", std::to_string(agent_count)); add("--agent-interval", std::to_string(agent_interval)); }
    add("--settings", settings.size() ? settings : "/sim/settings-none");
    if (blacklist.size()) { add("--blacklist-path", blacklist); add("--blacklist-period", std::to_string(blacklist_period)); }
    if (files_dir.size()) add("--files-dir", files_dir);
    for (auto &x : extra) a.push_back(x);
    return a;
}
Str store_dir(int node, const Server &s) { return g_root + "/n" + std::to_string(node) + "/" + s.store; }
bool start_try(int k, const Server &s, int64_t wait) {
    h_mkdirs(g_root + "/n" + std::to_string(k));
    if (s.store.size()) h_mkdirs(store_dir(k, s));
    h_mkdirs(g_root + "/settings-none");
    node_start(k, s.args());
    int64_t end = now_ns + wait;
    // the metrics port is the last one to be opened
    int port = s.prom ? P_PROM : s.admin ? P_ADMIN : s.http ? P_HTTP : P_STAT;
    while (now_ns < end && nodes[k].alive) {
        int fd = c_connect(client_ip(200), node_ip(k), port, 5 * SEC);
        if (fd >= 0) { c_close(fd); return true; }
        sleep_ns(5 * MS);
    }
    return false;
}
void start(int k, const Server &s) {
    if (!start_try(k, s, 120 * SEC)) violation("no_start", fmt("the daemon of node %d does not start", k));
}
void crash(int k) { fault("kill"); node_kill(k, "killed by the scenario"); }
int64_t wall_s(int node) { return wall_ns(node) / SEC; }
void wait_until(int64_t t) { while (now_ns < t) sleep_ns(t - now_ns); }
void sleep_s(double s) { sleep_ns((int64_t)(s * 1e9)); }
}
