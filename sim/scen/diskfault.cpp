// C06: disk operations fail for a while. Values are powers of two, so that the sum of a bucket tells which samples it holds.
#include "../scen.h"
#include <set>
namespace {
struct Smp { int64_t t; double v; bool must; bool seen[3]; };
struct Ctr { std::vector<Smp> s; bool victim = false; std::map<int64_t, int> per; };    // per minute: so many samples
const int64_t IVS[3] = {1, 10, 60};
}
SCENARIO(diskfault) {
    Server s; s.threads = pick_threads(); s.flush = pick<int>(ST_W, {300, 2, 5}); s.prune = pick<int>(ST_W, {120, 3});
    if (choose(ST_W, 5) == 4) s.min_space = 0;
    // files of more pages than are kept in memory are read and written all the time
    bool pages = choose(ST_W, 3) > 0; int keep = 500;
    if (pages) { s.retention = "1s:20m,10s:4h,1m:1h"; keep = 1250; probe("paging"); }
    start(0, s);
    std::map<Str, Ctr> c; Strs names;
    auto fresh = [&](const char *pre) { Str n = fmt("%s%d.%s%d", pre, (int)choose(ST_W, 3), choose(ST_W, 2) ? "x" : "y.z", (int)c.size()); c[n]; return n; };
    int nc = 2 + choose(ST_W, 4);
    for (int i = 0; i < nc; i++) names.push_back(fresh("d"));
    Sender x; if (!x.open(0)) violation("connect", "the sample port does not accept a connection");
    // the samples of a round all have to be there if must
    auto give = [&](const Strs &l, bool must) {
        Str buf; int64_t now = wall_s(0);
        for (auto &n : l) {
            Ctr &k = c[n];
            for (int i = 1 + (pages && choose(ST_W, 2)) * 3; i > 0; i--) {
                int64_t t = now + range(ST_W, pages ? -1000 : -12, 3);
                int &p = k.per[t / 60]; if (p >= 12) continue;
                double v = 1 << p++;
                buf += fmt("%s %lld %.0f\n", n.c_str(), (long long)t, v); k.s.push_back(Smp{t, v, must, {}});
            }
        }
        if (buf.empty()) return;
        note("send %s", text(buf, 900).c_str());
        if (!x.send(buf)) violation("connect", "the connection of a sender was ended");
    };
    bool sticky = false;      // only writing fails: what was seen once, stays
    auto check = [&](const char *when, bool failing = false) {
        for (auto &x : c) {
            if (x.second.s.empty()) continue;
            std::map<int64_t, std::vector<Smp *>> bk[3];
            int64_t lo = INT64_MAX, hi = 0; for (auto &m : x.second.s) hi = std::max(hi, m.t);
            for (auto &m : x.second.s) { for (int r = m.t < hi - keep; r < 3; r++) bk[r][m.t - m.t % IVS[r]].push_back(&m); if (m.t >= hi - keep) lo = std::min(lo, m.t); }
            int64_t back[3] = {0, 3000, 20000};
            for (int r = 0; r < 3; r++) {
                int64_t st = r ? wall_s(0) - back[r] : lo; st -= st % IVS[r];
                QRes q = query(0, x.first, st, std::max(wall_s(0), hi) + 120);
                if (q.err.size()) violation("query", fmt("%s %s: %s", x.first.c_str(), when, q.err.c_str()));
                if (q.b.size() && q.interval != IVS[r]) { if (!x.second.victim) violation("interval", fmt("%s %s: interval %lld instead of %lld", x.first.c_str(), when, (long long)q.interval, (long long)IVS[r])); continue; }
                for (auto &g : q.b) if (!bk[r].count(g.first)) violation("garbage", fmt("%s %s: %lld s bucket %lld is ", x.first.c_str(), when, (long long)IVS[r], (long long)g.first) + g.second.str() + ", nothing was sent to it");
                for (auto &b : bk[r]) {
                    Agg is = q.b.count(b.first) ? q.b[b.first] : Agg(), ex; Str what = fmt("%s %s: %lld s bucket %lld is ", x.first.c_str(), when, (long long)IVS[r], (long long)b.first) + is.str();
                    double left = is.sum; Str in;
                    for (auto m = b.second.rbegin(); m != b.second.rend(); ++m) {
                        if (left >= (*m)->v) { left -= (*m)->v; ex.add((*m)->v); if (sticky) (*m)->seen[r] = true; }
                        else if (sticky && (*m)->seen[r]) violation("lost", what + fmt(", without the sample %g that had been reported before, only writing failed", (*m)->v));
                        else if ((*m)->must && !(failing && x.second.victim)) violation("lost", what + fmt(", without the sample %g that had to be recorded", (*m)->v));
                    }
                    if (left != 0 || !(ex == is)) violation("garbage", what + ", which no samples sent to it add up to");
                    count("buckets");
                }
            }
        }
        count("checked");
    };
    int rounds = 1 + choose(ST_W, 2);
    for (int round = 0; round < rounds; round++) {
        Str w = round ? "again" : "";
        for (int i = choose(ST_W, 3); i >= 0; i--) give(names, true);
        settle();
        check("before disk errors");
        if (choose(ST_W, 3) == 2) { flush_node(0); } else sleep_ns(choose(ST_W, 3000) * MS);
        bool flushed = false, restarted = false;
        if (choose(ST_W, 2)) { flush_node(0); flushed = true; }
        if (choose(ST_W, 5) == 4) sleep_s(600);       // the files move on when the next samples come
        // what was written before the errors stays; what was only in memory may be lost with the counters concerned
        bool global = choose(ST_F, 3) == 0; Strs match;
        if (global) { match.push_back(""); for (auto &k : c) k.second.victim = true; }
        else { int i = choose(ST_F, names.size()); Str p = names[i]; for (auto &ch : p) if (ch == '.') ch = '/'; match.push_back("store/" + p + "/"); c[names[i]].victim = true; if (choose(ST_F, 2)) match.push_back("/new"); }
        if (!flushed) for (auto &k : c) if (k.second.victim) for (auto &m : k.second.s) m.must = false;
        int nf = 1 + choose(ST_F, 2); bool wonly = choose(ST_F, 2);
        for (int i = 0; i < nf; i++) for (auto &mm : match) {
            FsFault f; f.kind = wonly ? pick<FsFaultKind>(ST_F, {FF_ENOSPC, FF_EIO_WRITE, FF_SHORT_WRITE}) : pick<FsFaultKind>(ST_F, {FF_ENOSPC, FF_EIO_WRITE, FF_EIO_READ, FF_SHORT_WRITE, FF_EMFILE, FF_EACCES, FF_EIO_STAT, FF_UNLINK, FF_ENOENT_DIR, FF_RENAME});
            f.node = 0; f.match = mm; f.ppm = pick<uint32_t>(ST_F, {1000000, 500000, 100000}); f.left = choose(ST_F, 3) ? INT64_MAX : 1 + choose(ST_F, 4);
            fs_faults.push_back(f);
        }
        for (auto &k : c) for (auto &m : k.second.s) m.seen[0] = m.seen[1] = m.seen[2] = false;
        sticky = wonly; if (wonly) probe("only_writing_fails");
        if (!global && choose(ST_F, 4) == 3) {        // the daemon is restarted while operations on the files of a counter fail
            if (!flushed) for (auto &k : c) for (auto &m : k.second.s) m.must = false;
            auto keepf = fs_faults; fs_faults.clear(); settle(); if (!flushed) flush_node(0); fs_faults = keepf;
            if (!flushed) for (auto &k : c) if (!k.second.victim) for (auto &m : k.second.s) m.must = true;
            sticky = false; crash(0); x.close(); start(0, s); if (!x.open(0)) violation("connect", "the sample port does not accept a connection after a restart");
            restarted = true; probe("restart_while_failing");
        }
        int64_t fb = fs_free_bytes[0]; bool full = choose(ST_F, 6) == 5; if (full) { fs_free_bytes[0] = choose(ST_F, 5) * 1000; fault("disk_full"); for (auto &k : c) { k.second.victim = true; if (!flushed) for (auto &m : k.second.s) m.must = false; } }
        for (int i = 1 + choose(ST_W, 4); i > 0; i--) {
            Strs l = names;
            if (choose(ST_W, 2)) { Str n = fresh("new"); c[n].victim = true; l.push_back(n); names.push_back(n); }
            // bystanders lose nothing
            Strs by, vi; for (auto &n : l) (c[n].victim ? vi : by).push_back(n);
            if (full) { vi = l; by.clear(); }
            give(vi, false); give(by, true);
            switch (choose(ST_W, 6)) {
            case 0: sleep_ns(choose(ST_W, 8000) * MS); break;
            case 1: settle(); must_answer(0, "while disk operations fail"); break;
            case 2: { settle(); for (auto &n : by) { QRes q = query(0, n, wall_s(0) - 100, wall_s(0) + 60); if (q.err.size() || !q.found) violation("query", fmt("%s while the disk operations of others fail: %s", n.c_str(), q.err.c_str())); } break; }
            case 3: settle(); listing(0, "*"); break;
            case 4: {
                settle(); std::map<Str, Series> was; Str r;
                bool chk = choose(ST_W, 2) && nodes[0].inc < 9;
                if (chk) for (auto &n : names) { QRes q = query(0, n, wall_s(0) - 400, wall_s(0) + 60); if (q.err.empty() && q.interval == 1) was[n] = q.b; }
                r = admin(0, "flush", pick<int>(ST_W, {3, 10}) * SEC);
                if (!chk || r != "ok\n") break;
                // what had been reported before the flush is in the store, or it is not "ok"
                fs_clear_faults(0); fs_free_bytes[0] = fb; sticky = false; restarted = true; i = 0;
                for (auto &k : c) for (auto &m : k.second.s) m.must = false;
                crash(0); x.close(); start(0, s); if (!x.open(0)) violation("connect", "the sample port does not accept a connection after a restart"); settle();
                for (auto &w : was) if (w.second.size()) {
                    QRes q = query(0, w.first, w.second.begin()->first, wall_s(0) + 60);
                    for (auto &b : w.second) { int64_t is = q.b.count(b.first) ? (int64_t)q.b[b.first].sum : 0, wv = (int64_t)b.second.sum; if ((is & wv) != wv) violation("flush", fmt("%s: bucket %lld was reported as %lld, then the flush command was answered with ok although operations on files failed; after a restart it is %lld", w.first.c_str(), (long long)b.first, (long long)wv, (long long)is)); }
                }
                count("flush_while_failing"); break;
            }
            default: settle(); check("while disk operations fail", true); break;
            }
        }
        settle();
        must_answer(0, "while disk operations fail");
        fs_clear_faults(0); fs_free_bytes[0] = fb;
        note("the errors end");
        sleep_ns(choose(ST_W, 3000) * MS);
        settle();
        check("after the disk errors", restarted);   // what could not be loaded comes back with its next sample
    }
    // service resumes for old counters, those that were new during the errors, and new ones
    Strs l = names; for (int i = 0; i < 2; i++) { Str n = fresh("late"); l.push_back(n); names.push_back(n); }
    give(l, true); settle(); if (choose(ST_W, 2)) { give(l, true); settle(); }
    check("when service has resumed");
    for (auto &n : l) { bool leaf = false; for (auto &e : listing(0, n)) if (e.name == n && e.leaf) leaf = true; if (!leaf && c[n].s.size() && c[n].s.back().must) violation("listing", n + " is not listed after the disk errors"); }
    if (choose(ST_W, 2) || s.flush == 300) flush_node(0);
    else { sleep_s(s.flush * (sched.stall_ppm || fs_slow_ppm ? 3 : 1.2) + (sched.stall_ppm || fs_slow_ppm ? 10 : 6)); settle(); }
    crash(0); x.close();
    start(0, s);
    check("after a restart");
    settle();
}
