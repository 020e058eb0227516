// C24: the system clock is stepped. Nothing is lost or damaged, and everything periodic goes on.
#include "../scen.h"
SCENARIO(clock) {
    Server s; s.threads = pick_threads(); s.flush = pick<int>(ST_W, {10, 2}); s.settings = "settings"; s.prom = true;
    s.blacklist = g_root + "/n0/bl"; s.blacklist_period = 3; h_mkdirs(g_root + "/n0/settings"); h_write_file(s.blacklist, "");
    bool trail = choose(ST_W, 3) == 2; if (trail) s.retention = pick<const char *>(ST_W, {"1s:1m,10s:10m,10s:1h:ma:0.5", "1s:1m,10s:10m,1s:10m:ma:0.9,10s:1d:mb:0.25"});
    start(0, s);
    Server ag; ag.store = ""; ag.master = 0; ag.threads = pick_threads(); ag.agent_interval = pick<int>(ST_W, {10, 5});
    bool agent = choose(ST_W, 3) == 2; if (agent) start(1, ag);
    int64_t slack = sched.stall_ppm || fs_slow_ppm ? 8 : 2;
    Strs names = random_names(1 + choose(ST_W, 3)); for (auto &n : names) n = "g." + n;
    std::map<Str, Rings> m; Sender x; x.open(0); double vmin = 0, vmax = 1; int64_t t_lo = wall_s(0), t_hi = 0;
    sleep_ns(SEC - wall_ns(0) % SEC + 100 * MS);
    {
        int64_t t = wall_s(0); Str buf;
        for (auto &n : names) { buf += fmt("%s %lld 1\n", n.c_str(), (long long)t); Rings &r = m[n]; if (trail) { r.iv = {1, 10}; r.n = {512, 512}; } r.create(t); r.add(t, 1); }
        x.send(buf); settle(); if (wall_s(0) != t) { count("abandoned"); return; }
    }
    std::map<Str, int64_t> ev_hi;
    auto step = [&](int node) {
        if (!node) t_hi = std::max(t_hi, wall_s(0));
        int64_t d = pick<int64_t>(ST_F, {1, 2, 30, 61, 600, 3600, 5000, 90000, 400 * 86400LL});
        if (choose(ST_F, 2)) { d = -d; fault("clock_step_back"); } else fault("clock_step_forward");
        int64_t ns = choose(ST_F, 3) == 2 ? range(ST_F, -999, 999) * MS : 0;
        node_skew_ns[node] += d * SEC + ns; note("clock of node %d stepped by %lld s %lld ns", node, (long long)d, (long long)ns);
    };
    auto ask = [&](const Str &n, int64_t st, int64_t en, const char *when) { if (trail && m[n].expected_ring(st) == -1) return; QRes q = query(0, n, st, en); Str e = m[n].check(q, st, en, 0); if (e.size()) violation("buckets", fmt("%s, %s (now %lld): ", n.c_str(), when, (long long)wall_s(0)) + e); count("checked"); };
    auto second = [&]() { int64_t ph = wall_ns(0) % SEC; if (ph < 50 * MS) sleep_ns(50 * MS - ph); else if (ph > 600 * MS) sleep_ns(SEC - ph + 50 * MS); };
    int evn = 0, rounds = 2 + choose(ST_W, 5);
    for (int rd = 0; rd < rounds; rd++) {
        int ops = 1 + choose(ST_W, 6);
        for (int i = 0; i < ops; i++) {
            second(); int64_t now = wall_s(0); Str buf;
            for (int j = choose(ST_W, 8); j >= 0; j--) { const Str &n = names[choose(ST_W, names.size())]; int64_t t = now - choose(ST_W, pick<int>(ST_W, {1, 1, 40, 700})) + (choose(ST_W, 4) == 3 ? choose(ST_W, 50) : 0); int v = range(ST_W, -30, 30); buf += fmt("%s %lld %d\n", n.c_str(), (long long)t, v); m[n].add(t, v); vmin = std::min<double>(vmin, v); vmax = std::max<double>(vmax, v); t_lo = std::min(t_lo, t); t_hi = std::max(t_hi, t); }
            if (!x.send(buf)) violation("connect", "samples are not taken"); settle();
            if (choose(ST_W, 3) == 2) { const Str &n = names[choose(ST_W, names.size())]; ask(n, now - pick<int>(ST_W, {10, 100, 500, 3000}), now + 60, "after samples"); }
            if (trail && choose(ST_W, 3) == 2) {
                const Str &n = names[choose(ST_W, names.size())]; int64_t st = now - pick<int>(ST_W, {100, 3000, 90000});
                Resp r = must_http(0, "GET", fmt("/%s?start=%lld&end=%lld&trailing=1", n.c_str(), (long long)st, (long long)now + 60)); J j;
                if (r.code == 200 && json_parse(r.body, j) && j.get("buckets")) for (auto &b : j.get("buckets")->a) {
                    double c = b.num("count", 0), mn = b.num("min"), mx = b.num("max"), sum = b.num("sum"); if (!(c > 0)) continue;
                    if (!(mn >= vmin - 1e-3 && mx <= vmax + 1e-3) || !(fabs(sum) < 1e7)) violation("trailing", fmt("%s: a seasonal bucket holds ", n.c_str()) + text(r.body, 400));
                    count("trailing_buckets");
                }
            }
            if (choose(ST_W, 3) == 2) sleep_ns(choose(ST_W, 3000) * MS);
            if (choose(ST_W, 6) == 5) flush_node(0);
        }
        step(0); if (agent && choose(ST_F, 2)) { if (choose(ST_F, 2)) step(1); else node_skew_ns[1] = node_skew_ns[0]; }
        if (choose(ST_F, 3) == 2) { sleep_ns(choose(ST_W, 12000) * MS); step(0); }
        if (choose(ST_W, 2)) continue;
        // everything goes on, in bounded time of any clock that does not jump
        second(); int64_t now = wall_s(0); Str tag = fmt("%d", rd), buf;
        Str fresh = "f.n" + tag, ev = "e.n" + fmt("%d", evn++ / 2);
        if (ev_hi.count(ev) && ev_hi[ev] > now + 400) ev = "e.x" + fmt("%d", rd);   // (its ring holds the last 512 s)
        ev_hi[ev] = now + 10;
        buf = fmt("%s %lld 5\n*%s %lld 7\n", fresh.c_str(), (long long)now, ev.c_str(), (long long)now);
        bool known = true; for (auto &n : names) { Rings &r = m[n]; (void)r; }
        std::vector<std::pair<Str, int64_t>> put; for (auto &n : names) { buf += fmt("%s %lld 9\n", n.c_str(), (long long)now); known = m[n].add(now, 9) && known; vmax = std::max<double>(vmax, 9); }
        if (!x.send(buf)) violation("connect", "samples are not taken"); settle();
        if (must_http(0, "POST", "/?s=set", fmt("{\"k\":\"%d\"}", rd)).code != 200) violation("stalled", "a setting is not taken");
        if (agent) { Sender y; if (!y.open(1)) violation("connect", "the agent does not take samples"); Str b; for (int k = 0; k < 40; k += 5) b += fmt("a.n%d %lld 2\n", rd, (long long)wall_s(1) - k); y.send(b); settle(); y.close(); }
        int64_t wall0 = wall_s(0), wait = std::max<int64_t>(s.flush + 3 * 40, agent ? 2 * ag.agent_interval + 5 : 0) + slack + 15; bool moved = false;
        sleep_s(wait);
        // the collated window is open for another 5 s
        QRes q = query(0, "istatd.statserver.connected", wall_s(0) - 9 - slack, wall_s(0) + 1);
        if (q.b.empty() && wall_s(0) >= t_hi - 400) violation("stalled", fmt("%lld s after the clock was stepped the number of connections is not reported any more (now %lld)", (long long)wait, (long long)wall_s(0)));
        QRes e = query(0, ev, wall0 - 3, wall0 + 2); double sum = 0; for (auto &b : e.b) sum += b.second.sum;
        if (sum != 7) violation("events", fmt("%s: 7 events were sent for %lld, after the clock was stepped; reported are %g", ev.c_str(), (long long)now, sum));
        if (agent && llabs(node_skew_ns[0] - node_skew_ns[1]) < 40 * SEC && listed(0, "a.n" + tag).empty()) violation("stalled", fmt("%lld s after the clock was stepped the agent has not forwarded its samples", (long long)wait));
        (void)known; (void)moved;
        if (choose(ST_F, 2)) {
            x.close(); crash(0); start(0, s); settle(); x.open(0); probe("restart_after_step");
            QRes f = query(0, fresh, now - 2, now + 2); if (f.b.size() != 1 || f.b[now].sum != 5) violation("stalled", fmt("%s is not in the store %lld s after it was recorded", fresh.c_str(), (long long)wait));
            for (auto &n : names) ask(n, now, now + 1, "after a restart");
            Resp r = must_http(0, "GET", "/?s=set&sk=k"); if (r.body.find(fmt("\"%d\"", rd)) == Str::npos) violation("stalled", fmt("the setting is not saved %lld s after it was made: ", (long long)wait) + text(r.body, 100));
        }
        count("checked");
    }
    for (auto &r : m) for (int64_t back : {400, 4000, 12000}) { int64_t st = std::min<int64_t>(wall_s(0), r.second.last[0]) - back, en = std::max<int64_t>(wall_s(0), r.second.last[0]) + 60; ask(r.first, st, en, "at the end"); }
    flush_node(0);
}
