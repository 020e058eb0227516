// C02: event counters report the exact event rate in every retention.
#include "../scen.h"
SCENARIO(events) {
    Server s; s.threads = pick_threads();
    bool ten = choose(ST_W, 2);
    int64_t iv = ten ? 10 : 1;
    if (ten) s.retention = "10s:10m,1m:1h,5m:10h";
    const int64_t ivs[3] = {ten ? 10 : 1, ten ? 60 : 10, ten ? 300 : 60};
    s.flush = pick<int>(ST_W, {300, 30, 5});
    if (!ten) sched.stall_max_ns = std::min<int64_t>(sched.stall_max_ns, 20 * MS);   // samples must not age in the daemon
    start(0, s);
    Strs names;
    for (auto &n : random_names(1 + choose(ST_W, 4))) names.push_back("*" + n);
    if (choose(ST_W, 2)) names.push_back("*ev^h1^h2");
    std::map<Str, std::map<int64_t, double>> want;     // counter -> second -> events
    int ticks = 3 + choose(ST_W, 18);
    std::vector<Sender> x(1 + choose(ST_W, 3));
    for (auto &y : x) y.open(0, client_ip(10 + (&y - &x[0])));
    int64_t newest = 0;
    int64_t t_begin = wall_s(0);
    for (int k = 0; k < ticks; k++) {
        // the first third of an interval: what is sent now is handled in this interval
        int64_t ns = wall_ns(0) % (iv * SEC);
        if (ns > iv * SEC / 2) sleep_ns(iv * SEC - ns + 1 * MS);
        int64_t cur = wall_s(0) - wall_s(0) % iv;
        std::vector<Thread *> th;
        for (size_t j = 0; j < x.size(); j++) th.push_back(spawn(-1, "sender", [&, j]() {
            Str buf; int n = choose(ST_W, 25);
            for (int i = 0; i < n; i++) {
                const Str &nm = names[choose(ST_W, names.size())];
                int64_t t = cur + iv * range(ST_W, -2, 1) + choose(ST_W, iv);
                if (choose(ST_W, 3) == 0) t = cur;
                if (t > cur + iv) t = cur + iv;
                int v = choose(ST_W, 4) ? 1 : range(ST_W, 1, 50);
                buf += fmt("%s %lld %d\n", nm.c_str(), (long long)t, v);
                for (auto &c : expand(nm.substr(1))) want[c][t] += v;
                if (t > newest) newest = t;
                if (choose(ST_W, 8) == 0) { x[j].send(buf); buf.clear(); }
            }
            if (buf.size()) x[j].send(buf);
        }));
        if (choose(ST_W, 6) == 0) th.push_back(spawn(-1, "other", [&]() { leafs(0, "*"); query(0, expand(names[0].substr(1))[0], cur - 60, cur + 10); }));
        for (auto t : th) join(t);
        settle();
        switch (choose(ST_W, 12)) {
        case 10: sleep_ns(iv * SEC * 7); break;                                            // a gap
        case 11: flush_node(0); wait_until(now_ns + std::max<int64_t>(0, (newest - wall_s(0) + 4 * iv)) * SEC); count("early_flush"); break;   // closes the window
        default: if (choose(ST_W, 3)) sleep_ns(iv * SEC);
        }
    }
    int64_t t_end = wall_s(0);
    if (choose(ST_W, 2)) flush_node(0);
    else { sleep_s(7 * iv + 3 * (names.size() + 30) + s.flush); }     // every counter has its turn
    for (auto &w : want) {
        for (int r = 0; r < 3; r++) {
            int64_t back[3] = {0, ten ? 5000 : 500, ten ? 50000 : 5000};
            int64_t st = t_begin - 3 * iv - back[r], en = t_end + 120;
            st -= st % ivs[2]; en += ivs[2] - en % ivs[2];
            QRes q = query(0, w.first, st, en);
            if (q.interval <= 0 || !q.found) violation("events", w.first + ": not found");
            count(fmt("at_%llds", (long long)q.interval));
            std::map<int64_t, double> exp, got;
            for (auto &e : w.second) if (e.first >= st) exp[e.first - e.first % q.interval] += e.second;
            for (auto &b : q.b) { double ev = b.second.sum / b.second.n * q.interval; if (fabs(ev) > 1e-9) got[b.first] = ev; }
            for (auto &e : exp) {
                double g = got.count(e.first) ? got[e.first] : 0;
                if (fabs(g - e.second) > 1e-3 + 1e-5 * e.second) violation("events", fmt("%s: the %lld s bucket %lld reports %g events, %g were sent (query of %lld..%lld)", w.first.c_str(), (long long)q.interval, (long long)e.first, g, e.second, (long long)st, (long long)en));
            }
            for (auto &g : got) if (!exp.count(g.first)) violation("events", fmt("%s: the %lld s bucket %lld reports %g events, none were sent", w.first.c_str(), (long long)q.interval, (long long)g.first, g.second));
            count("checked");
        }
    }
}
