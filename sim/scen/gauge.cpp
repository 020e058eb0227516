// C01: every accepted gauge sample is aggregated exactly once at every retention.
#include "../scen.h"
#include <memory>
SCENARIO(gauge) {
    Server s; s.threads = pick_threads();
    s.flush = pick<int>(ST_W, {300, 300, 30, 5, 1});
    s.prune = pick<int>(ST_W, {120, 5});
    // files of more pages than are kept in memory
    bool pages = choose(ST_W, 3) == 2;
    if (pages) { s.retention = "1s:20m,10s:4h,1m:1h"; probe("paging"); }
    start(0, s);
    Strs names = random_names(1 + choose(ST_W, 6));
    // names that expand to several counters
    if (choose(ST_W, 2)) names.push_back(names[0] + "^h1^h2");
    if (choose(ST_W, 3) == 1) names.push_back("grp^a^b^c");
    std::map<Str, Series> want;
    std::map<Str, Agg> untimed;       // samples without a time: the daemon's clock decides
    std::map<Str, std::pair<int64_t, int64_t>> when;
    int64_t newest = 0, oldest = 0;
    int phases = 1 + choose(ST_W, 3);
    for (int ph = 0; ph < phases; ph++) {
        int senders = 1 + choose(ST_W, 4), per = 1 + choose(ST_W, 60);
        int64_t base = wall_s(0);
        int back = pages ? pick<int>(ST_W, {0, 45, 900}) : pick<int>(ST_W, {0, 3, 45}), ahead = pick<int>(ST_W, {0, 3, 50});
        std::vector<Thread *> th;
        for (int k = 0; k < senders; k++) th.push_back(spawn(-1, "sender", [&, k]() {
            Sender x; bool udp = choose(ST_W, 5) == 4;
            if (!udp && !x.open(0, client_ip(10 + k))) violation("connect", "the sample port does not accept a connection");
            Str buf;
            for (int i = 0; i < per; i++) {
                const Str &n = names[choose(ST_W, names.size())];
                int64_t t = base + range(ST_W, -back, ahead);
                int v = range(ST_W, -30, 30);
                Strs to = expand(n);
                switch (choose(ST_W, 4)) {
                case 0: case 1:
                    buf += fmt("%s %lld %d\n", n.c_str(), (long long)t, v);
                    for (auto &c : to) want[c][t].add(v);
                    break;
                case 2: {
                    int a = range(ST_W, -9, 9), b = range(ST_W, -9, 9), c3 = range(ST_W, -9, 9);
                    int mn = std::min(a, std::min(b, c3)), mx = std::max(a, std::max(b, c3));
                    buf += fmt("%s %lld %d %d %d %d 3\r\n", n.c_str(), (long long)t, a + b + c3, a * a + b * b + c3 * c3, mn, mx);
                    for (auto &c : to) want[c][t].add(3, a + b + c3, a * a + b * b + c3 * c3, mn, mx);
                    break; }
                default: {
                    Str u = "now." + n;
                    buf += fmt("%s %d\n", u.c_str(), v);
                    for (auto &c : expand(u)) { untimed[c].add(v); auto &w = when[c]; if (!w.first) w.first = wall_s(0); }
                    t = base; }
                }
                if (t > newest) newest = t;
                if (!oldest || t < oldest) oldest = t;
                if (udp) { if (buf.size() > 400 || i == per - 1 || choose(ST_W, 3) == 0) { c_udp(client_ip(10 + k), node_ip(0), P_STAT, buf); buf.clear(); sleep_ns(choose(ST_W, 50) * MS); } }
                else if (buf.size() > 1500 || choose(ST_W, 4) == 0) { if (!x.send(buf)) violation("connect", "samples are not taken"); buf.clear(); if (choose(ST_W, 4) == 0) sleep_ns(choose(ST_W, 200) * MS); }
            }
            if (buf.size()) { if (udp) c_udp(client_ip(10 + k), node_ip(0), P_STAT, buf); else if (!x.send(buf)) violation("connect", "samples are not taken"); }
            settle();
            x.close();
        }));
        // things that run next to the senders
        int others = choose(ST_W, 3);
        for (int k = 0; k < others; k++) th.push_back(spawn(-1, "other", [&]() {
            for (int i = 1 + choose(ST_W, 4); i > 0; i--) {
                switch (choose(ST_W, 5)) {
                case 0: flush_node(0); break;
                case 1: leafs(0, "*"); break;
                case 2: { int64_t now = wall_s(0); query(0, expand(names[choose(ST_W, names.size())])[0], now - 60, now + 1); break; }
                case 3: admin_stats(0); break;
                default: { int64_t now = wall_s(0); Strs l; for (auto &n : names) l.push_back(expand(n)[0]); mquery(0, l, now - 30, now); }
                }
                sleep_ns(choose(ST_W, 100) * MS);
            }
        }));
        for (auto t : th) join(t);
        settle();
        for (auto &w : when) w.second.second = wall_s(0);
        int64_t tref = wall_s(0);
        for (auto &w : want) { Verify v; v.multi = choose(ST_W, 4) == 3; if (pages) v.span = 1150; verify_counter(0, w.first, w.second, tref, v); }
        for (auto &u : untimed) {
            auto w = when[u.first];
            for (int64_t b : {pages ? 1100 : 300, 3000, 20000}) {
                QRes q = query(0, u.first, w.first - b, w.second + 120);
                Agg a; for (auto &x : q.b) { a.add(x.second); if (x.first + q.interval <= w.first - 1 || x.first > w.second) violation("count", fmt("%s: bucket %lld outside %lld..%lld when the samples arrived", u.first.c_str(), (long long)x.first, (long long)w.first, (long long)w.second)); }
                if (!(a == u.second)) violation("count", u.first + fmt(" (%lld s buckets): reported ", (long long)q.interval) + a.str() + ", expected " + u.second.str());
            }
            count("checked");
        }
        // later phases: the next second, minute, or beyond the finest span
        if (ph + 1 < phases) {
            sleep_s(pick<int>(ST_W, {1, 1, 7, 20, 65, 200}));
            if (wall_s(0) - oldest > (pages ? 1050 : 340)) break;    // the first samples may leave the finest file
        }
    }
}
