// C17: queries while samples arrive: each bucket is a set of whole samples, later answers never hold less.
#include "../scen.h"
#include <algorithm>
namespace {
struct Smp { int64_t t; int v; };
// exact: the samples of a second are different powers of two; else three values, which count, sum and sum of squares tell apart
struct Ctr { Str name; bool exact; std::vector<Smp> s; size_t known = 0; std::map<int64_t, int> used; };
struct Seen { std::map<std::pair<int64_t, int64_t>, Agg> b; };     // (interval, bucket) -> last reported
const int V[3] = {-3, 1, 7};
}
SCENARIO(readers) {
    Server s; s.threads = pick_threads(); s.flush = pick<int>(ST_W, {300, 5, 1}); s.prune = pick<int>(ST_W, {120, 5});
    bool pages = choose(ST_W, 3) == 2; if (pages) s.retention = "1s:20m,10s:4h,1m:1h";
    start(0, s);
    int writers = 1 + choose(ST_W, 3), rounds = 1 + choose(ST_W, 3);
    std::vector<Ctr> c; for (auto &n : random_names(1 + choose(ST_W, 3))) { Ctr x; x.name = n; x.exact = choose(ST_W, 2); c.push_back(x); }
    if (choose(ST_W, 3) == 2) { Ctr x; x.name = "grp.m1"; x.exact = true; c.push_back(x); x.name = "grp.m2"; c.push_back(x); }
    std::vector<Seen> seen(4);
    int busy = 0; size_t overlapped = 0;
    int64_t span = pages ? 900 : 200;
    // is what was reported for the bucket the sum of some of the first hi samples, with all of the first lo?
    auto whole = [&](const Ctr &x, int64_t iv, int64_t b, const Agg &g, size_t lo, size_t hi) -> Str {
        std::vector<int> v; size_t must = 0;
        for (size_t i = 0; i < hi; i++) if (x.s[i].t - x.s[i].t % iv == b) { v.push_back(x.s[i].v); if (i < lo) must++; }
        if (g.n < (int64_t)must) return fmt("%zu samples are recorded for certain", must);
        if (g.n > (int64_t)v.size()) return fmt("%zu samples have been sent", v.size());
        if (!g.n) return "";
        if (x.exact) {
            if (iv > 1) return "";
            int64_t sum = g.sum, all = 0, sure = 0; for (size_t i = 0; i < v.size(); i++) { all |= v[i]; if (i < must) sure |= v[i]; }
            double sq = 0; int64_t mn = 0, mx = 0; int n = 0;
            for (int k = 0; k < 20; k++) if (sum >> k & 1) { n++; sq += ldexp(1, 2 * k); if (!mn) mn = 1 << k; mx = 1 << k; }
            if (g.sum != sum || sum & ~all) return "the sum is not one of samples that were sent";
            if (sure & ~sum) return "the sum is without samples that are recorded for certain";
            if (n != g.n) return fmt("the sum is one of %d samples", n);
            if (g.mn != mn || g.mx != mx) return fmt("the sum is one of %lld..%lld", (long long)mn, (long long)mx);
            if (fabs(g.sq - sq) > 1e-5 * sq) return fmt("the sum of the squares is %g", sq);
            return "";
        }
        // n0 + n1 + n2 = n, ...
        double D = 1.0 * (V[1] - V[0]) * (V[2] - V[0]) * (V[2] - V[1]);
        int64_t n[3], s_[3], h[3]; for (int k = 0; k < 3; k++) { s_[k] = h[k] = 0; for (size_t i = 0; i < v.size(); i++) if (v[i] == V[k]) { h[k]++; if (i < must) s_[k]++; } }
        double c0 = (g.sq - (V[1] + V[2]) * g.sum + 1.0 * V[1] * V[2] * g.n) / ((V[0] - V[1]) * (V[0] - V[2])), c1 = (g.sq - (V[0] + V[2]) * g.sum + 1.0 * V[0] * V[2] * g.n) / ((V[1] - V[0]) * (V[1] - V[2]));
        (void)D; n[0] = llround(c0); n[1] = llround(c1); n[2] = g.n - n[0] - n[1];
        if (fabs(c0 - n[0]) > 1e-6 || fabs(c1 - n[1]) > 1e-6) return "count, sum and sum of squares do not belong together";
        int lo_ = 0, hi_ = 0; bool any = false;
        for (int k = 0; k < 3; k++) { if (n[k] < s_[k] || n[k] > h[k]) return fmt("%lld samples of %d, recorded for certain are %lld, sent %lld", (long long)n[k], V[k], (long long)s_[k], (long long)h[k]); if (n[k]) { if (!any) lo_ = V[k]; hi_ = V[k]; any = true; } }
        if (g.mn != lo_ || g.mx != hi_) return fmt("the samples are %d..%d", lo_, hi_);
        return "";
    };
    auto look = [&](int who, const std::vector<size_t> &which, bool multi, int64_t st, int64_t en, bool quiet) {
        std::vector<size_t> lo; for (auto i : which) lo.push_back(c[i].known);
        bool was = busy > 0;
        std::map<Str, QRes> r; HttpOpt o; o.ip = client_ip(40 + who); o.gzip = choose(ST_W, 4) == 3;
        if (multi) { Strs n; for (auto i : which) n.push_back(c[i].name); r = mquery(0, n, st, en, 0, false, o); } else r[c[which[0]].name] = query(0, c[which[0]].name, st, en, 0, o);
        if (was) overlapped++;
        for (size_t k = 0; k < which.size(); k++) {
            if (!multi && k) break;
            const Ctr &x = c[which[k]]; const QRes &q = r[x.name]; size_t hi = x.s.size();
            int64_t iv = q.interval; if (!q.found || iv <= 0) { if (lo[k]) violation("missing", x.name + " is not found: " + q.err); continue; }
            // every bucket of the range, reported or not
            std::map<int64_t, Agg> b; for (auto &z : q.b) b[z.first] = z.second;
            for (auto &z : x.s) { int64_t t = z.t - z.t % iv; if (t >= st && t + iv <= en) b[t]; }
            for (auto &z : b) {
                const Agg &g = z.second;
                Str e = whole(x, iv, z.first, g, z.first < st || z.first + iv > en ? 0 : lo[k], hi);
                if (e.size()) violation("torn", fmt("%s: the %lld s bucket %lld reports ", x.name.c_str(), (long long)iv, (long long)z.first) + (g.n ? g.str() : Str("nothing")) + ": " + e);
                if (z.first < st || z.first + iv > en) continue;
                Agg &old = seen[who].b[{iv, z.first * 16 + (int64_t)which[k]}];
                if (g.n < old.n) violation("back", fmt("%s: the %lld s bucket %lld reports %lld samples after %lld", x.name.c_str(), (long long)iv, (long long)z.first, (long long)g.n, (long long)old.n));
                old = g; count("checked");
            }
            (void)quiet;
        }
    };
    int64_t first = wall_s(0);
    for (int rd = 0; rd < rounds; rd++) {
        std::vector<Thread *> th; int left = busy = writers;
        int64_t base = wall_s(0), back = pick<int>(ST_W, {0, 3, 40}), ahead = pick<int>(ST_W, {0, 3, 50});
        for (int w = 0; w < writers; w++) th.push_back(spawn(-1, "writer", [&, w]() {
            Sender x; if (!x.open(0, client_ip(10 + w))) violation("connect", "no connection");
            for (int i = 2 + choose(ST_W, 40); i > 0; i--) {
                Str buf; int k = 1 + choose(ST_W, 8);
                for (; k > 0; k--) {
                    Ctr &x = c[choose(ST_W, c.size())]; Smp m; m.t = base + range(ST_W, -back, ahead);
                    if (x.exact) { int &u = x.used[m.t]; if (u >= 19) continue; m.v = 1 << u++; buf += fmt("%s %lld %d\n", x.name.c_str(), (long long)m.t, m.v); }
                    else if (choose(ST_W, 3) == 2) { m.v = V[choose(ST_W, 3)]; int b = V[choose(ST_W, 3)]; buf += fmt("%s %lld %d %d %d %d 2\n", x.name.c_str(), (long long)m.t, m.v + b, m.v * m.v + b * b, std::min(m.v, b), std::max(m.v, b)); x.s.push_back(m); m.v = b; }
                    else { m.v = V[choose(ST_W, 3)]; buf += fmt("%s %lld %d\n", x.name.c_str(), (long long)m.t, m.v); }
                    x.s.push_back(m);
                }
                if (!x.send(buf)) violation("connect", "samples are not taken");
                if (choose(ST_W, 3)) sleep_ns(choose(ST_W, 120) * MS);
            }
            settle(); left--; busy--; x.close();
        }));
        for (int k = 1 + choose(ST_W, 3); k > 0; k--) th.push_back(spawn(-1, "reader", [&, k]() {
            do {
                int64_t now = wall_s(0), st = now - pick<int>(ST_W, {60, 60, 3000, 20000}), en = now + 120;
                if (st < now - 100) { st -= st % 60; en += 60 - en % 60; }
                std::vector<size_t> w; for (size_t i = 0; i < c.size(); i++) w.push_back((i + k) % c.size());
                look(k, w, choose(ST_W, 3) == 2, st, en, false);
                sleep_ns(choose(ST_W, 60) * MS);
            } while (left);
        }));
        if (choose(ST_W, 2)) th.push_back(spawn(-1, "other", [&]() { while (left) { switch (choose(ST_W, 4)) { case 0: flush_node(0); break; case 1: leafs(0, "*"); break; case 2: admin_stats(0); break; default: { Sender x; if (x.open(0)) { x.send(fmt("o.n%d 1\n", (int)choose(ST_W, 30))); x.close(); } } } sleep_ns(choose(ST_W, 150) * MS); } }));
        for (auto t : th) join(t);
        settle();
        for (auto &x : c) x.known = x.s.size();
        std::vector<size_t> w; for (size_t i = 0; i < c.size(); i++) w.push_back(i);
        for (size_t i = 0; i < c.size(); i++) { std::vector<size_t> one(1, i); int64_t now = wall_s(0); look(0, one, false, std::max(now - span, first - 60), now + 120, true); }
        look(0, w, true, wall_s(0) - 100, wall_s(0) + 60, true);
        if (rd + 1 < rounds) { sleep_s(pick<int>(ST_W, {1, 3, 31})); if (wall_s(0) - first > span) break; }
    }
    count("overlapped", overlapped);
}
