// C08: an agent forwards every sample to its master exactly once.
// C09: a broken link never duplicates or corrupts data, and recovers.
// C10: the flush command of an agent.
#include "../scen.h"
#include <math.h>
static const char *RET = "10s:1h,1m:10h,5m:2d";
static const int64_t IVS[3] = {10, 60, 300}, BACK[3] = {0, 10000, 60000};
static Server master_cfg() { Server m; m.threads = pick_threads(); m.retention = RET; m.flush = pick<int>(ST_W, {300, 60}); return m; }
static Server agent_cfg(int master) {
    Server a; a.threads = pick_threads(); a.store = ""; a.master = master;
    a.agent_count = pick<int>(ST_W, {1, 1, 2, 3}); a.agent_interval = pick<int>(ST_W, {10, 1, 3});
    if (choose(ST_W, 4) == 3) { a.store = "store"; a.retention = RET; }
    return a;
}
// gauges of a node, in every ring, against what was sent
static void verify_gauges(int node, const std::map<Str, Series> &want, int64_t t0, const char *what) {
    for (auto &w : want) for (int r = 0; r < 3; r++) {
        int64_t st = (r ? wall_s(node) - BACK[r] : t0 - 60), en = wall_s(node) + 120; st -= st % 300;
        QRes q = query(node, w.first, st, en);
        if (q.interval != IVS[r]) violation("agent", fmt("%s, %s: interval %lld reported, expected %lld", w.first.c_str(), what, (long long)q.interval, (long long)IVS[r]));
        Str d = diff(fold(w.second, IVS[r]), q.b);
        if (d.size()) violation("agent", fmt("%s, %s, %lld s buckets: ", w.first.c_str(), what, (long long)q.interval) + d);
        count("checked");
    }
}
static void verify_events(int node, const std::map<Str, std::map<int64_t, double>> &want, int64_t t0, const char *what) {
    for (auto &w : want) for (int r = 0; r < 3; r++) {
        int64_t st = (r ? wall_s(node) - BACK[r] : t0 - 60), en = wall_s(node) + 120; st -= st % 300;
        QRes q = query(node, w.first, st, en);
        std::map<int64_t, double> exp, got;
        for (auto &e : w.second) exp[e.first - e.first % IVS[r]] += e.second;
        for (auto &b : q.b) { double ev = b.second.sum / b.second.n * q.interval; if (fabs(ev) > 1e-9) got[b.first] = ev; }
        for (auto &e : exp) { double g = got.count(e.first) ? got[e.first] : 0; if (fabs(g - e.second) > 1e-3 + 1e-5 * e.second) violation("agent", fmt("%s, %s: the %lld s bucket %lld reports %g events, %g were sent", w.first.c_str(), what, (long long)IVS[r], (long long)e.first, g, e.second)); }
        for (auto &g : got) if (!exp.count(g.first)) violation("agent", fmt("%s, %s: the %lld s bucket %lld reports %g events, none were sent", w.first.c_str(), what, (long long)IVS[r], (long long)g.first, g.second));
        count("checked"); count("event_checks");
    }
}

SCENARIO(agent) {
    Server m = master_cfg(), a = agent_cfg(0);
    start(0, m); start(1, a);
    if (choose(ST_W, 2)) { int64_t end = now_ns + 60 * SEC; while (net_conns(0, P_STAT) < a.agent_count && now_ns < end) sleep_ns(20 * MS); if (net_conns(0, P_STAT) < a.agent_count) violation("agent", fmt("%d of %d forwarding connections after a minute", net_conns(0, P_STAT), a.agent_count)); }
    Strs g = random_names(1 + choose(ST_W, 8)), ev;
    if (choose(ST_W, 3) == 2) g.push_back("grp^a^b^c");
    for (auto &n : random_names(1 + choose(ST_W, 4))) ev.push_back("ev." + n);
    std::map<Str, Series> want; std::map<Str, Agg> untimed; std::map<Str, std::map<int64_t, double>> wantev;
    int64_t t0 = wall_s(1);
    bool events = choose(ST_W, 2), big = choose(ST_W, 4) == 3;
    int phases = 1 + choose(ST_W, 4);
    for (int ph = 0; ph < phases; ph++) {
        int senders = 1 + choose(ST_W, 3), per = 1 + choose(ST_W, ph ? 40 : 150);
        std::vector<Thread *> th;
        for (int k = 0; k < senders; k++) th.push_back(spawn(-1, "sender", [&, k]() {
            Sender x; if (!x.open(1, client_ip(10 + k))) violation("connect", "the sample port does not accept a connection");
            Str buf;
            for (int i = 0; i < per; i++) {
                int64_t now = wall_s(1);
                int v = big ? range(ST_W, -3000000, 3000000) : range(ST_W, -30, 30);
                if (events && choose(ST_W, 3) == 2) {
                    const Str &n = ev[choose(ST_W, ev.size())]; int64_t t = now - choose(ST_W, 3); v = abs(v) + 1;
                    buf += fmt("*%s %lld %d\n", n.c_str(), (long long)t, v); wantev[n][t] += v;
                } else {
                    const Str &n = g[choose(ST_W, g.size())]; Strs to = expand(n);
                    int64_t t = now - choose(ST_W, 12);
                    switch (choose(ST_W, 4)) {
                    case 0: case 1: buf += fmt("%s %lld %d\n", n.c_str(), (long long)t, v); for (auto &c : to) want[c][t].add(1, v, big ? 0 : v * v, v, v); break;
                    case 2: {
                        int b = range(ST_W, -9, 9), c2 = range(ST_W, -9, 9), mn = std::min(b, c2), mx = std::max(b, c2);
                        buf += fmt("%s %lld %d %d %d %d 2\r\n", n.c_str(), (long long)t, b + c2, b * b + c2 * c2, mn, mx);
                        for (auto &c : to) want[c][t].add(2, b + c2, big ? 0 : b * b + c2 * c2, mn, mx);
                        break; }
                    default: buf += fmt("now.%s %d\n", n.c_str(), v); for (auto &c : expand("now." + n)) untimed[c].add(1, v, big ? 0 : v * v, v, v);
                    }
                }
                if (buf.size() > 1200 || choose(ST_W, 4) == 0) { if (!x.send(buf)) violation("connect", "samples are not taken"); buf.clear(); if (choose(ST_W, 3) == 0) sleep_ns(choose(ST_W, 300) * MS); }
            }
            if (buf.size() && !x.send(buf)) violation("connect", "samples are not taken");
            settle(); x.close();
        }));
        if (choose(ST_W, 3) == 2) th.push_back(spawn(-1, "flush", [&]() { for (int i = 1 + choose(ST_W, 3); i > 0; i--) { flush_node(1); sleep_ns(choose(ST_W, 200) * MS); } }));
        if (choose(ST_W, 3) == 2) th.push_back(spawn(-1, "direct", [&]() {
            // the master has other clients
            Sender x; x.open(0, client_ip(30)); Str buf;
            for (int i = 0; i < 10; i++) { const Str &n = g[choose(ST_W, g.size())]; int64_t t = wall_s(0); int v = range(ST_W, -30, 30); buf += fmt("%s %lld %d\n", n.c_str(), (long long)t, v); for (auto &c : expand(n)) want[c][t].add(1, v, big ? 0 : v * v, v, v); }
            x.send(buf); settle(); x.close();
        }));
        for (auto t : th) join(t);
        if (choose(ST_W, 2)) sleep_ns(choose(ST_W, 24000) * MS);
    }
    settle();
    bool flushed = choose(ST_W, 2);
    if (flushed) { flush_node(1); settle(); } else { sleep_s(a.agent_interval + 2 + (sched.stall_ppm ? 6 : 0)); settle(); }
    if (events) { flush_node(0); settle(); }
    auto check = [&](int node, const char *what) {
        for (auto &w : want) if (big) for (int r = 0; r < 3; r++) {
            // squares of big values are beyond the precision of a float
            int64_t st = (r ? wall_s(node) - BACK[r] : t0 - 60), en = wall_s(node) + 120; st -= st % 300;
            QRes q = query(node, w.first, st, en); Series got = q.b; for (auto &b : got) b.second.sq = 0;
            Str d = diff(fold(w.second, IVS[r]), got);
            if (d.size()) violation("agent", fmt("%s, %s, %lld s buckets: ", w.first.c_str(), what, (long long)q.interval) + d);
            count("checked"); count("big_checks");
        }
        if (!big) verify_gauges(node, want, t0, what);
        for (auto &u : untimed) {
            QRes q = query(node, u.first, t0 - 600, wall_s(node) + 120); Agg s; for (auto &b : q.b) { s.add(b.second); if (b.first + 10 <= t0 || b.first > wall_s(node)) violation("agent", u.first + fmt(": bucket %lld was never current", (long long)b.first)); }
            if (big) s.sq = 0;
            if (!(s == u.second)) violation("agent", u.first + ", " + what + ": " + s.str() + " reported, " + u.second.str() + " sent");
            count("checked");
        }
        verify_events(node, wantev, t0, what);
    };
    check(0, flushed ? "at the master after a flush" : "at the master after the forwarding interval");
}

// Values are powers of three: the sum of a bucket tells which samples it has, and how often.
static bool digits(double s, std::vector<int> &d) {
    if (s < 0 || s != floor(s)) return false;
    int64_t v = (int64_t)s; d.clear();
    for (; v; v /= 3) d.push_back(v % 3);
    return true;
}
SCENARIO(link) {
    Server m = master_cfg(), a = agent_cfg(0);
    a.store = "";
    start(0, m);
    if (choose(ST_F, 4) == 3) net_refuse(0, P_STAT, true);
    start(1, a); net_refuse(0, P_STAT, false);
    Strs g = random_names(2 + choose(ST_W, 8)), ev; for (auto &n : random_names(1 + choose(ST_W, 3))) ev.push_back("ev." + n);
    std::map<Str, std::map<int64_t, std::map<int, int>>> sent;       // counter, decade, digit -> times sent (1)
    std::map<Str, std::map<int64_t, Agg>> sure;                    // must have arrived
    int64_t t0 = wall_s(1);
    std::map<Str, std::map<int64_t, int>> nd;
    auto make = [&](int n, Str &buf, bool must) {
        int64_t now = wall_s(1);
        for (int i = 0; i < n; i++) {
            bool e = choose(ST_W, 4) == 3; const Str &c = e ? ev[choose(ST_W, ev.size())] : g[choose(ST_W, g.size())];
            int64_t t = now - (e ? 0 : choose(ST_W, 8)), d = t - t % 10;
            int &k = nd[c][d]; if (k >= 11) continue;
            int64_t v = llround(pow(3, k)); sent[c][d][k] = 1; if (must) sure[c][d].add(v); k++;
            buf += fmt("%s%s %lld %lld\n", e ? "*" : "", c.c_str(), (long long)t, (long long)v);
        }
    };
    // batches that do not fit in a socket buffer, and info lines of which the agent has to throw away the oldest
    int fat = choose(ST_W, 3) == 2 ? 20 + choose(ST_W, 300) : 0, fl = 20 + choose(ST_W, 120); std::map<Str, std::map<int64_t, int>> nf;
    bool info = choose(ST_W, 6) == 5;
    auto filler = [&](Str &buf) {
        int64_t now = wall_s(1);
        for (int i = 0; i < fat; i++) { Str n = fmt("fat%d.", i) + Str(fl, 'x'); if (nf[n][now - now % 10]++) { nf[n][now - now % 10]--; continue; } buf += n + fmt(" %lld 1\n", (long long)now); }
    };
    auto infos = [&](Sender &x) {
        Str l = "#i " + Str(60 + choose(ST_W, 60), 'b') + " 5\n", b; for (int k = 0; k < 100; k++) b += l;
        size_t tot = 560000 + choose(ST_W, 300000); for (size_t k = 0; k < tot; k += b.size()) if (!x.send(b)) violation("connect", "the agent does not take info");
        probe("much_info");
    };
    auto verify = [&](const char *when, bool sure_too) {
        flush_node(0); settle();
        for (auto &e : listing(0, "*")) if (e.leaf && !sent.count(e.name) && !nf.count(e.name) && e.name.compare(0, 7, "istatd.")) violation("link", text(e.name, 100) + ", " + when + ": the master has a counter that was never sent");
        if (nf.size()) for (int k = 0; k < 5; k++) {
            auto it = nf.begin(); std::advance(it, choose(ST_W, nf.size()));
            int64_t st = t0 - 60; st -= st % 300; QRes q = query(0, it->first, st, wall_s(0) + 120);
            for (auto &b : q.b) if (b.second.n > it->second[b.first] || b.second.sum != b.second.n) violation("link", fmt("%s, %s: bucket %lld: ", it->first.c_str(), when, (long long)b.first) + b.second.str() + fmt(", %d samples of 1 were sent", it->second[b.first]));
            count("filler_checks");
        }
        for (auto &c : sent) {
            bool e = c.first.compare(0, 3, "ev.") == 0;
            int64_t st = t0 - 60; st -= st % 300;
            QRes q = query(0, c.first, st, wall_s(0) + 120);
            Series seen;
            for (auto &b : q.b) {
                double sum = e ? b.second.sum / b.second.n * q.interval : b.second.sum;
                sum = e ? floor(sum + 0.5) : sum;
                if (sum == 0) continue;
                seen[b.first] = b.second;
                std::vector<int> d; Str what = fmt("%s, %s: the bucket %lld adds up to %.17g", c.first.c_str(), when, (long long)b.first, sum); what += fmt(" (n=%lld sum=%.17g, %d samples sent)", (long long)b.second.n, b.second.sum, nd[c.first][b.first]);
                if (!digits(sum, d)) violation("link", what + ", which no samples do");
                auto s = c.second.find(b.first);
                if (s == c.second.end()) violation("link", what + ", nothing was sent for it");
                Agg x;
                for (size_t k = 0; k < d.size(); k++) { if (d[k] > 1) violation("link", what + fmt(": the sample %lld was counted twice", (long long)llround(pow(3, k)))); if (d[k] && !s->second.count(k)) violation("link", what + ", which was not sent"); if (d[k]) x.add(pow(3, k)); }
                if (!e && !(x.n == b.second.n && x.mn == b.second.mn && x.mx == b.second.mx && fabs(x.sq - b.second.sq) <= x.sq * 1e-6)) violation("link", what + ": " + b.second.str() + " reported, the samples would give " + x.str());
                count("checked");
            }
            if (sure_too) for (auto &s : sure[c.first]) {
                auto it = seen.find(s.first);
                if (it == seen.end()) violation("link", fmt("%s, %s: the bucket %lld is missing, samples were sent over a healthy connection", c.first.c_str(), when, (long long)s.first));
                double sum = e ? floor(it->second.sum / it->second.n * q.interval + 0.5) : it->second.sum; std::vector<int> d; digits(sum, d);
                std::vector<int> w; digits(s.second.sum, w);
                for (size_t k = 0; k < w.size(); k++) if (w[k] && (k >= d.size() || !d[k])) violation("link", fmt("%s, %s: the sample %lld of the bucket %lld is missing, it was sent over a healthy connection", c.first.c_str(), when, (long long)llround(pow(3, k)), (long long)s.first));
                count("sure_checks");
            }
        }
    };
    uint32_t A = node_ip(0), B = node_ip(1);
    Sender x; x.open(1);
    int rounds = 1 + choose(ST_W, 3);
    for (int r = 0; r < rounds; r++) {
        int faults_n = 1 + choose(ST_F, 4);
        for (int f = 0; f < faults_n; f++) {
            Str buf; make(1 + choose(ST_W, 25), buf, false); filler(buf); if (!x.send(buf)) violation("connect", "the agent does not take samples");
            bool il = info && choose(ST_W, 2); if (il && choose(ST_W, 3) == 2) infos(x);
            auto hold = [&](int ms) { int64_t end = now_ns + (int64_t)ms * MS; if (il) { sleep_ns(choose(ST_W, 1000) * MS); infos(x); } if (fat && choose(ST_W, 2)) { sleep_ns(choose(ST_W, ms) * MS); Str b; filler(b); x.send(b); } if (now_ns < end) sleep_ns(end - now_ns); };
            switch (choose(ST_F, 6)) {
            case 0: if (choose(ST_F, 3)) {      // while something is under way
                    int64_t end = now_ns + (a.agent_interval + 1) * SEC; while (!net_inflight(B, A) && now_ns < end) sleep_ns(200000);
                    if (net_inflight(B, A)) { sleep_ns(choose(ST_F, 1 << (4 + choose(ST_F, 9))) * 1000LL); probe("reset_under_way"); } }
                if (net_reset_between(A, B)) fault("net_reset"); break;
            case 1: net_partition(A, B, true); hold(choose(ST_F, 40000)); net_partition(A, B, false); break;
            case 2: crash(0); hold(choose(ST_F, 30000)); start(0, m); probe("master_restart"); break;
            case 3: net_refuse(0, P_STAT, true); fault("refuse"); net_reset_between(A, B); hold(choose(ST_F, 50000)); net_refuse(0, P_STAT, false); break;
            case 4: net_partition(A, B, true); hold(choose(ST_F, 15000)); if (net_reset_between(A, B)) fault("net_reset"); net_partition(A, B, false); break;
            default: if (nodes[0].inc < 9) { if (choose(ST_F, 2)) nodes[0].kill_bbs = 100LL << choose(ST_F, 14); else nodes[0].kill_fsops = choose(ST_F, 50);
                int64_t end = now_ns + (1 + choose(ST_F, 12)) * SEC; while (nodes[0].alive && now_ns < end) sleep_ns(50 * MS);
                nodes[0].kill_bbs = nodes[0].kill_fsops = -1;
                if (!nodes[0].alive) { fault("master_kill"); start(0, m); } }
            }
            sleep_ns(choose(ST_W, 3) ? choose(ST_W, 3000) * MS : choose(ST_W, 30000) * MS);
            if (!nodes[0].alive) violation("link", "the master died");
            if (choose(ST_W, 4) == 3) verify("while the link is being broken", false);
            if (choose(ST_W, 6) == 5) { Str ans = admin(1, "flush", 1 * SEC); (void)ans; count("flush_during_faults"); }
        }
        // healthy from now on: reconnects within its back-off (at most 195 s)
        int64_t end = now_ns + 220 * SEC; int64_t t_heal = now_ns;
        do { while (net_conns(0, P_STAT) < a.agent_count && now_ns < end) sleep_ns(200 * MS); settle(); }
        while (net_conns(0, P_STAT) < a.agent_count && now_ns < end);
        if (net_conns(0, P_STAT) != a.agent_count) violation("reconnect", fmt("%d of %d forwarding connections %lld s after the network recovered", net_conns(0, P_STAT), a.agent_count, (long long)((now_ns - t_heal) / SEC)));
        if (now_ns - t_heal > 20 * SEC) probe("long_backoff");
        // one forwarding round, for what was collected meanwhile
        sleep_s(a.agent_interval + 1); sleep_s(10 - wall_s(1) % 10); settle();
        if (net_conns(0, P_STAT) != a.agent_count) violation("reconnect", "the forwarding connections do not last");
        for (int k = 1 + choose(ST_W, 2); k > 0; k--) { Str buf; make(3 + choose(ST_W, 25), buf, true); if (!x.send(buf)) violation("connect", "the agent does not take samples"); sleep_ns(choose(ST_W, 2000) * MS); }
        sleep_s(a.agent_interval + 2 + (sched.stall_ppm ? 6 : 0)); settle();
        verify("after the link recovered", true);
    }
}

// C10 with a master made of bare sockets: what was handed to the connection outlives the agent.
SCENARIO(agentflush) {
    nodes[0].id = 0;
    bool down = choose(ST_F, 3) == 2;      // there is no master at first
    int lfd = down ? -1 : c_listen(client_ip(60), P_STAT);
    Server a = agent_cfg(-1); a.store = ""; a.agent_addr = ipstr(client_ip(60)) + ":" + std::to_string(P_STAT);
    a.agent_interval = pick<int>(ST_W, {10, 1, 60}); if (down && a.agent_interval == 1) a.agent_interval = 10;
    start(1, a);
    std::vector<int> conn; std::vector<Str> got; bool slow = choose(ST_W, 2); bool stop = false;
    std::vector<Thread *> rd;
    int64_t pause = slow ? choose(ST_W, 400) * MS : 0;
    auto take = [&]() {
    for (int i = 0; i < a.agent_count; i++) { int fd = c_accept(lfd, 60 * SEC); if (fd < 0 && !nodes[1].alive) break; if (fd < 0) violation("agent", "the agent does not connect"); conn.push_back(fd); got.push_back(""); }
    for (int i = 0; i < (int)conn.size(); i++) rd.push_back(spawn(-1, "reader", [&, i]() {
        for (;;) {
            if (pause && !stop) sleep_ns(pause);
            Str d; bool fin = stop; int r = c_recv(conn[i], d, fin ? 20 * SEC : 200 * MS, pause && !stop ? 512 : 65536);
            if (r == -2) { if (fin) violation("agent", "the connection of a dead agent does not end"); continue; }
            if (r <= 0) break;
            got[i] += d;
        }
    }));
    };
    if (!down) take();
    Strs names = random_names(1 + choose(ST_W, 12));
    if (choose(ST_W, 2)) for (int i = 0; i < 300; i++) names.push_back(fmt("many.c%d", i));
    std::map<Str, Agg> before; int64_t answered = 0;
    int rounds = 1 + choose(ST_W, 4);
    Sender x; x.open(1);
    for (int r = 0; r < rounds; r++) {
        sleep_s(10 - wall_s(1) % 10 + 0.05);
        Str buf; int64_t t = wall_s(1);
        for (int i = 1 + choose(ST_W, 500); i > 0; i--) { const Str &n = names[choose(ST_W, names.size())]; int v = range(ST_W, -30, 30); buf += fmt("%s %lld %d\n", n.c_str(), (long long)t, v); before[n].add(v); }
        if (!x.send(buf)) violation("connect", "the agent does not take samples");
        settle();
        std::vector<Thread *> th; int fl = 1 + choose(ST_W, 3); int done = 0; bool last = r + 1 == rounds;
        for (int k = 0; k < fl; k++) th.push_back(spawn(-1, "flush", [&]() {
            int64_t f0 = now_ns;
            Str s = admin(1, "flush", 600 * SEC);
            if (!nodes[1].alive) return;
            if (s.empty()) violation("flush", fmt("the flush command was not answered within %lld s although the connections are healthy", (long long)((now_ns - f0) / SEC)));
            if (s != "ok\n") violation("flush", "flush answered " + text(s));
            done++; answered++;
            if (last && nodes[1].alive) crash(1);
        }));
        if (down && !r) {
            sleep_ns(choose(ST_F, 15000) * MS);
            if (done) violation("flush", "the flush command was answered although the master was never reachable");
            lfd = c_listen(client_ip(60), P_STAT); probe("flush_without_master"); take();
        }
        // samples that come while the flush is under way may or may not be in it
        for (auto h : th) join(h);
        if (!nodes[1].alive) break;
        count("checked");
        if (choose(ST_W, 3) == 2) sleep_ns(choose(ST_W, 12000) * MS);
    }
    stop = true;
    for (auto h : rd) join(h);
    std::map<Str, Agg> at;
    for (auto &g : got) {
        size_t p = 0;
        while (p < g.size()) {
            size_t e = g.find('\n', p); if (e == Str::npos) break;     // cut off by the crash
            Str l = g.substr(p, e - p); p = e + 1; if (l.size() && l.back() == '\r') l.pop_back();
            if (l.empty() || l[0] == '#') continue;
            char nm[512]; long long t, n; double s, q, lo, hi;
            if (sscanf(l.c_str(), "%500s %lld %lf %lf %lf %lf %lld", nm, &t, &s, &q, &lo, &hi, &n) != 7) violation("agent", "the agent sent " + text(l));
            at[nm].add(n, s, q, lo, hi);
        }
    }
    for (auto &b : before) if (!(at[b.first] == b.second)) violation("flush", b.first + ": " + at[b.first].str() + " was sent to the master when the flush command was answered, " + b.second.str() + " was received before it");
    count("checked");
    if (answered > 1) count("several_flushes");
}
