// C04, C05, C07: what a store holds after the daemon is killed and restarted.
// For every counter, ring and bucket the model keeps the state at the start of the daemon and the batches of samples
// since then, with the time by which the daemon had handled each batch. The samples of a batch may be handled in any
// order, one batch after the other. After a restart a bucket must be in one of the states this allows, and not in an
// older one than the property allows.
#include "../scen.h"
#include <algorithm>
namespace {
struct Batch { std::vector<double> v; int64_t ack = INT64_MAX; };          // ack: simulated time by which it was handled
struct Bkt {
    Agg base; bool has_base = false; std::vector<Batch> h; int64_t durable = 0;   // the first batches that must be there
    Agg upto(size_t k) const { Agg a = base; for (size_t i = 0; i < k; i++) for (double v : h[i].v) a.add(v); return a; }
    Agg last() const { return upto(h.size()); }
    // an allowed state with at least the first k batches?
    bool allowed(const Agg &x, size_t k) const {
        for (size_t i = k; i <= h.size(); i++) {
            Agg a = upto(i);
            if (a == x) return true;
            if (i == h.size()) break;
            size_t n = std::min<size_t>(h[i].v.size(), 14);
            for (size_t m = 1; m < (1u << n); m++) { Agg c = a; for (size_t j = 0; j < n; j++) if (m >> j & 1) c.add(h[i].v[j]); if (c == x) return true; }
        }
        return false;
    }
};
struct Ctr { std::map<int64_t, Bkt> ring[3]; int64_t known_since = INT64_MAX, lo = INT64_MAX; };
const int64_t IVS[3] = {1, 10, 60};
struct Model {
    std::map<Str, Ctr> c;
    void add(const Str &n, int64_t t, double v) {
        Ctr &x = c[n]; x.lo = std::min(x.lo, t);
        for (int r = 0; r < 3; r++) {
            Bkt &b = x.ring[r][t - t % IVS[r]];
            if (b.h.empty() || b.h.back().ack != INT64_MAX) b.h.push_back(Batch());
            b.h.back().v.push_back(v);
        }
    }
    void ack() {
        for (auto &x : c) {
            bool any = false;
            for (auto &ring : x.second.ring) for (auto &b : ring) for (auto &h : b.second.h) if (h.ack == INT64_MAX) { h.ack = now_ns; any = true; }
            if (any && x.second.known_since == INT64_MAX) x.second.known_since = now_ns;
        }
    }
    // everything handled until t is in the files
    void barrier(int64_t t) {
        for (auto &x : c) for (auto &ring : x.second.ring) for (auto &b : ring)
            for (size_t i = 0; i < b.second.h.size(); i++) if (b.second.h[i].ack <= t) b.second.durable = std::max<int64_t>(b.second.durable, i + 1);
    }
};
}
SCENARIO(durable) {
    Str focus = param("focus", "age");
    Server s; s.threads = pick_threads();
    s.flush = pick<int>(ST_W, {2, 1, 5, 10});
    s.prune = pick<int>(ST_W, {120, 3});
    if (choose(ST_W, 4) == 3) s.recursive = false;
    // files of more pages than are kept in memory: pages are written when others are needed
    bool pages = choose(ST_W, 3) == 2; int back = 20;
    if (pages) { s.retention = "1s:20m,10s:4h,1m:1h"; back = 1000; probe("paging"); }
    Strs names = random_names(1 + choose(ST_W, 5));
    if (!s.recursive) { Strs k; for (auto &n : names) { Str m = n; for (auto &ch : m) if (ch == '.') ch = '_'; k.push_back("r." + m); } names = k; }
    Model m;
    int cycles = 1 + choose(ST_W, 3);
    int64_t oldest = INT64_MAX, newest = 0, fresh = 0;
    for (int cyc = 0; cyc <= cycles; cyc++) {
        // start, possibly with kills while the store is being loaded
        for (int k = cyc && focus != "flush" ? choose(ST_F, 3) : 0; k > 0; k--) {
            nodes[0].kill_fsops = -1; nodes[0].kill_bbs = -1;
            node_start(0, s.args());
            if (choose(ST_F, 2)) nodes[0].kill_fsops = choose(ST_F, 400); else nodes[0].kill_bbs = 1000LL << choose(ST_F, 14);
            int64_t end = now_ns + 5 * SEC;
            while (nodes[0].alive && now_ns < end) sleep_ns(10 * MS);
            if (nodes[0].alive) crash(0);
        }
        nodes[0].kill_fsops = nodes[0].kill_bbs = -1;
        start(0, s);
        settle();
        if (cyc) {
            // what is there
            std::map<Str, int> names_now = listed(0, "*");
            for (auto &x : m.c) {
                Ctr &ct = x.second;
                if (focus != "garbage" && ct.known_since <= fresh && !names_now.count(x.first)) violation("durable", x.first + " is not listed after the restart");
                int64_t back[3] = {0, 3000, 20000};
                for (int r = 0; r < 3; r++) {
                    int64_t st = r ? wall_s(0) - back[r] : ct.ring[0].empty() ? wall_s(0) - 60 : ct.ring[0].begin()->first, en = std::max(wall_s(0), newest) + 120;
                    st -= st % 60 * (r > 0);
                    // (a page may be newer than the header: a query finds its buckets if it starts within the ring of the header)
                    if (!r && ct.lo < st) st = std::min(st, std::max(ct.lo, newest - (pages ? 1200 : 450)));
                    QRes q = query(0, x.first, st, en);
                    Series got; if (q.interval == IVS[r]) got = q.b;
                    for (auto &g : got) if (!ct.ring[r].count(g.first)) violation("garbage", fmt("%s: %lld s bucket %lld reported after the restart, nothing was sent to it: ", x.first.c_str(), (long long)IVS[r], (long long)g.first) + g.second.str());
                    for (auto &b : ct.ring[r]) {
                        auto it = got.find(b.first);
                        Agg is; if (it != got.end()) is = it->second;
                        Bkt &k = b.second;
                        Str what = fmt("%s: %lld s bucket %lld ", x.first.c_str(), (long long)IVS[r], (long long)b.first);
                        if (!k.allowed(is, 0)) {
                            if (it == got.end()) violation("durable", what + "is missing after the restart, it was " + k.base.str() + " after the one before");
                            violation("garbage", what + "is " + is.str() + " after the restart, which it never was; at last it was " + k.last().str());
                        }
                        if (!k.allowed(is, k.durable)) violation("durable", what + (it == got.end() ? Str("is missing") : "is back to " + is.str()) + " after the restart, " + k.upto(k.durable).str() + " was in the files");
                        if (k.durable > 0 || k.has_base) { count("checked"); count("durable_buckets"); }
                        // from now on this is what it holds
                        k = Bkt(); k.base = is; k.has_base = it != got.end();
                    }
                    for (auto b = ct.ring[r].begin(); b != ct.ring[r].end();) if (!b->second.has_base) b = ct.ring[r].erase(b); else ++b;
                }
                ct.known_since = names_now.count(x.first) ? 0 : INT64_MAX;
            }
            if (focus == "garbage") count("checked");
        }
        // every counter takes samples
        {
            Sender x; if (!x.open(0)) violation("connect", "the sample port does not accept a connection");
            Str buf; int64_t t = wall_s(0);
            for (auto &n : names) { int v = range(ST_W, -30, 30); buf += fmt("%s %lld %d\n", n.c_str(), (long long)t, v); m.add(n, t, v); }
            newest = std::max(newest, t); oldest = std::min(oldest, t);
            x.send(buf); settle(); m.ack(); x.close();
            for (auto &n : names) {
                QRes q = query(0, n, t, t + 1);
                Agg want = m.c[n].ring[0][t].last();
                if (!(q.b[t] == want)) violation("unusable", fmt("%s after start %d: bucket %lld is ", n.c_str(), cyc + 1, (long long)t) + q.b[t].str() + ", expected " + want.str());
            }
        }
        if (cyc == cycles) break;
        note("cycle %d flush %d", cyc, s.flush);
        // work, then a kill
        int ops = 2 + choose(ST_W, 14);
        int kill_at = choose(ST_F, 3) == 0 ? ops : (int)choose(ST_F, ops + 1);
        Strs extra;
        Sender x; x.open(0);
        for (int i = 0; i < ops && nodes[0].alive; i++) {
            if (i == kill_at) { if (choose(ST_F, 2)) nodes[0].kill_fsops = choose(ST_F, 60); else nodes[0].kill_bbs = 100LL << choose(ST_F, 16); }
            switch (choose(ST_W, 4)) {
            case 0: case 1: {
                Str buf; int64_t now = wall_s(0);
                if (focus == "age" && i == 0 && choose(ST_W, 3) == 2) {
                    // counters that get just one sample
                    for (int j = 10 + choose(ST_W, 40); j > 0; j--) { Str nn = fmt("once%d.c%d", cyc, j); buf += fmt("%s %lld %d\n", nn.c_str(), (long long)now, j); m.add(nn, now, j); }
                    probe("one_shot_counters");
                }
                for (int j = 1 + choose(ST_W, 8); j > 0; j--) {
                    if (choose(ST_W, 12) == 11) { Str nn = fmt("new%d.", i) + names[0]; if (s.recursive) { names.push_back(nn); } }
                    const Str &n = names[choose(ST_W, names.size())];
                    int64_t t = now + range(ST_W, -back, 30); int v = range(ST_W, -30, 30);
                    buf += fmt("%s %lld %d\n", n.c_str(), (long long)t, v); m.add(n, t, v);
                    newest = std::max(newest, t); oldest = std::min(oldest, t);
                }
                if (!nodes[0].alive) break;
                note("send %s", text(buf, 2000).c_str()); x.send(buf); settle();
                if (nodes[0].alive) { m.ack(); note("handled"); }
                break; }
            case 2: sleep_ns(choose(ST_W, 4000) * MS); break;
            default:
                if (focus == "flush" || choose(ST_W, 3) == 2) {
                    settle(); if (!nodes[0].alive) break;
                    int64_t t = now_ns; int n = 1 + (choose(ST_W, 3) == 2) * choose(ST_W, 3);
                    std::vector<Thread *> th; int okc = 0;
                    for (int k = 0; k < n; k++) th.push_back(spawn(-1, "flush", [&]() { Str r = admin(0, "flush", 300 * SEC); if (r == "ok\n") okc++; else if (nodes[0].alive) violation("flush", r.empty() ? Str("flush command not answered") : "flush command answered " + text(r)); }));
                    if (focus == "flush" && choose(ST_W, 2)) {
                        // more samples while the flush is going on
                        Str buf; int64_t now = wall_s(0);
                        for (int j = 1 + choose(ST_W, 5); j > 0; j--) { const Str &nn = names[choose(ST_W, names.size())]; int v = range(ST_W, -30, 30); buf += fmt("%s %lld %d\n", nn.c_str(), (long long)now, v); m.add(nn, now, v); newest = std::max(newest, now); }
                        x.send(buf);
                    }
                    for (auto h : th) join(h);
                    if (okc && focus != "age") m.barrier(t);
                    settle(); if (nodes[0].alive) m.ack();
                } else { sleep_ns(choose(ST_W, 1500) * MS); }
            }
        }
        if (nodes[0].alive && kill_at >= ops) sleep_ns(choose(ST_W, (s.flush * 2 + 2) * 1000) * MS);
        else if (nodes[0].alive && nodes[0].kill_fsops >= 0) { int64_t end = now_ns + 20 * SEC; while (nodes[0].alive && now_ns < end) sleep_ns(100 * MS); }
        if (nodes[0].alive) crash(0);
        x.close();
        // thread stalls delay the rounds of the flush timer
        // (a store that was empty waits 3 s before its first round)
        fresh = nodes[0].died_ns - (int64_t)(s.flush * (sched.stall_ppm ? 3 : 1.2) * SEC) - (sched.stall_ppm ? 8 : 4) * SEC;
        if (focus == "age") m.barrier(fresh);
        sleep_ns(choose(ST_W, 3000) * MS);
    }
}
