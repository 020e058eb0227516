// C13, C14, C25: counters are created, listed, deleted and created again while directories are pruned and others do the same.
#include "../scen.h"
#include <memory>
#include <set>
namespace {
struct Ctr { bool ev = false, loose = false; int64_t sent = 0; Series s; double evsum = 0; };
struct Owner {
    Str pre; std::map<Str, Ctr> live;          // with data
    std::set<Str> exist;                       // counters, also without data
    std::set<Str> flux;                        // being created or deleted
    std::set<Str> ever;
};
bool glob(const char *s, const char *p) { if (!*p) return !*s; if (*p == '*') { for (;; s++) { if (glob(s, p + 1)) return true; if (!*s) return false; } } return *s && *s == *p && glob(s + 1, p + 1); }
Str parent(const Str &n) { size_t p = n.rfind('.'); return p == Str::npos ? "" : n.substr(0, p); }
}
SCENARIO(lifecycle) {
    Server s; s.threads = pick_threads(); s.flush = pick<int>(ST_W, {300, 5});
    bool prune = param("prune") == "1", list = param("list") == "1", crashes = param("crash") == "1";
    s.prune = prune ? pick<int>(ST_W, {1, 1, 2}) : pick<int>(ST_W, {120, 120, 3});
    start(0, s);
    int no = 1 + choose(ST_W, 4);
    std::vector<Owner> own(no);
    std::vector<Series> marks(no);
    bool stop = false, down = false; int busy = no;
    auto bounded = [&](const std::function<Str()> &f, const char *cls, int64_t limit = 20 * SEC) {
        int64_t e = now_ns + limit; Str why;
        for (;;) { why = f(); if (why.empty()) return; if (now_ns > e || down) break; sleep_ns(100 * MS); }
        if (!down) violation(cls, why);
    };
    static const char *W[] = {"a", "b", "c", "10x"};
    auto name_in = [&](Owner &o) { Str n = o.pre; for (int d = 1 + choose(ST_W, 3); d > 0; d--) n += Str(".") + W[choose(ST_W, 4)]; return n; };
    auto adopt = [&](Owner &o, const Str &n) {      // a record for n creates n and what is above it
        if (o.exist.count(n)) return;
        for (Str p = n; p.size(); p = parent(p)) { if (o.exist.count(p)) break; o.exist.insert(p); }
    };
    auto keys = [&](const std::set<Str> &ex) { std::map<Str, bool> r; for (auto &n : ex) r[n] = true; for (auto &n : ex) for (Str p = parent(n); p.size(); p = parent(p)) r[p] = false; return r; };   // name -> leaf
    bool evexact = false;                             // events show up in full when they have been flushed
    auto data = [&](Owner &o, const Str &n) -> Str {
        Ctr &c = o.live[n];
        QRes q = query(0, n, wall_s(0) - 50, wall_s(0) + 2);
        if (q.err.size()) return fmt("%s: %s", n.c_str(), q.err.c_str());
        if (!q.found) return fmt("%s: not found although it has samples", n.c_str());
        if (c.ev) {
            double g = 0; for (auto &x : q.b) g += x.second.sum;
            // events that a stalled daemon handles late are refused
            if (evexact && g < c.evsum && (sched.stall_ppm || fs_slow_ppm)) { c.loose = true; count("late_events"); }
            if (c.loose || !evexact ? g > c.evsum : g != c.evsum) return fmt("%s: events add up to %g, %g were sent since it was created", n.c_str(), g, c.evsum);
            return "";
        }
        Str d = diff(c.s, q.b); return d.empty() ? "" : fmt("%s: %s", n.c_str(), d.c_str());
    };
    auto gone = [&](const Str &n) -> Str {
        QRes q = query(0, n, wall_s(0) - 50, wall_s(0) + 2);
        if (q.err.size()) return fmt("%s: %s", n.c_str(), q.err.c_str());
        if (q.b.size()) return fmt("%s was deleted, but a query reports %s", n.c_str(), diff(Series(), q.b).c_str());
        return "";
    };
    auto check_list = [&](const Str &pat, const std::map<Str, bool> &must, const std::set<Str> &ignore, bool exact) -> Str {
        std::map<Str, Listed> got;
        for (auto &l : listing(0, pat)) { if (got.count(l.name)) { violation("duplicate", fmt("%s is listed twice for %s", l.name.c_str(), pat.c_str())); } got[l.name] = l; }
        for (auto &m : must) {
            if (ignore.count(m.first) || !glob(m.first.c_str(), pat.c_str())) continue;
            if (!got.count(m.first)) return fmt("the listing of %s lacks %s", pat.c_str(), m.first.c_str());
            if (exact && got[m.first].leaf != m.second) return fmt("the listing of %s shows %s as a %s", pat.c_str(), m.first.c_str(), m.second ? "branch" : "leaf");
        }
        if (exact) for (auto &g : got) if (!must.count(g.first) && !ignore.count(g.first)) return fmt("the listing of %s has %s, which does not exist", pat.c_str(), g.first.c_str());
        return "";
    };
    int64_t tq0 = wall_s(0);
    auto owner = [&](int k) {
        Owner &o = own[k]; Sender x; bool open = false;
        for (int ops = 3 + choose(ST_W, 10); ops > 0 && !down; ops--) {
            int op = choose(ST_W, 8);
            if (op < 4) {                                         // samples
                std::set<Str> ns; for (int i = 1 + choose(ST_W, 3); i > 0; i--) ns.insert(name_in(o));
                Str buf;
                for (auto &n : ns) o.flux.insert(n);
                for (auto &n : ns) { Str p = n; while (p.size() && !o.exist.count(p)) { o.flux.insert(p); p = parent(p); } }
                // (kinds do not mix below one owner: a parent takes the kind of the child that created it)
                for (auto &n : ns) {
                    Ctr &c = o.live[n]; c.ev = k % 2; c.sent = now_ns;
                    int64_t t = wall_s(0) - (c.ev ? 0 : choose(ST_W, 20));
                    for (int i = 1 + choose(ST_W, 4); i > 0; i--) { int v = range(ST_W, 1, 20); buf += fmt("%s%s %lld %d\n", c.ev ? "*" : "", n.c_str(), (long long)t, v); if (c.ev) c.evsum += v; else c.s[t].add(v); }
                    adopt(o, n); o.ever.insert(n);
                }
                int64_t mt = wall_s(0); marks[k][mt].add(k); buf += fmt("mark.%d %lld %d\n", k, (long long)mt, k);
                if (choose(ST_W, 4) == 3 && buf.size() < 1400 && !crashes) c_udp(client_ip(20 + k), node_ip(0), P_STAT, buf);
                else {
                    if (!open) { if (!x.open(0, client_ip(10 + k))) { if (down) break; violation("connect", "the sample port does not accept a connection"); } open = true; }
                    if (!x.send(buf)) { if (down) break; violation("connect", "the daemon ended a connection that sends samples"); }
                }
                // the mark is recorded when all that was sent before it is under way
                bounded([&]() { return diff(marks[k], query(0, fmt("mark.%d", k), wall_s(0) - 50, wall_s(0) + 2).b); }, "recreated");
                for (auto &n : ns) bounded([&]() { return data(o, n); }, "recreated");
                if (down) break;
                bounded([&]() { return check_list(o.pre + "*", keys(o.exist), {}, true); }, "listing");
                o.flux.clear(); count("created", ns.size());
            } else if (op < 7) {                                   // deletion
                std::vector<Str> vic; Str cmd;
                if (op == 6) {
                    Str pat = choose(ST_W, 3) ? name_in(o) + "*" : choose(ST_W, 2) ? o.pre + ".*" + W[choose(ST_W, 4)] : o.pre + ".*." + W[choose(ST_W, 4)] + ".*";
                    // branches match too, and are counters
                    for (auto &n : o.exist) if (glob(n.c_str(), pat.c_str())) vic.push_back(n);
                    cmd = "delete.pattern " + pat;
                } else {
                    std::set<Str> v; for (int i = 1 + choose(ST_W, 2); i > 0; i--) v.insert(o.exist.size() && choose(ST_W, 5) ? *std::next(o.exist.begin(), choose(ST_W, o.exist.size())) : name_in(o));
                    cmd = "delete.ctr ";
                    for (auto &n : v) { vic.push_back(n); cmd += (cmd.back() == ' ' ? "" : ",") + n; }
                }
                for (auto &n : vic) o.flux.insert(n);
                Str a = admin(0, cmd);
                if (down) break;
                if (a.size() < 3 || a.substr(a.size() - 3) != "ok\n") violation("unanswered", fmt("%s: answered \"%s\"", cmd.c_str(), text(a).c_str()));
                for (auto &n : vic) { o.live.erase(n); o.exist.erase(n); }
                count("deleted", vic.size());
                if (choose(ST_W, 2)) {
                    for (auto &n : vic) bounded([&]() { return gone(n); }, "deleted");
                    if (down) break;
                    bounded([&]() { return check_list(o.pre + "*", keys(o.exist), {}, true); }, "listing");
                    o.flux.clear();
                }
                for (auto &l : o.live) { if (down) break; bounded([&]() { return data(o, l.first); }, "others"); }
            } else if (choose(ST_W, 3) == 2) h_mkdirs(store_dir(0, s) + "/" + o.pre + "/empty" + std::to_string(choose(ST_W, 3)) + "/x");
            else sleep_ns(choose(ST_W, 1500) * MS);
            if (wall_s(0) > tq0 + 30) break;                       // samples stay within the range of the queries
        }
        if (open) x.close();
        busy--;
    };
    for (int k = 0; k < no; k++) own[k].pre = fmt("o%d", k);
    std::vector<Thread *> th;
    for (int k = 0; k < no; k++) th.push_back(spawn(-1, "owner", [&, k]() { try { owner(k); } catch (NodeDown &) { busy--; } }));
    g_throw_when_down = true;
    if (list) for (int l = 1 + choose(ST_W, 2); l > 0; l--) th.push_back(spawn(-1, "lister", [&]() { try {
        while (busy > 0 && !down) {
            std::set<Str> st0; for (auto &o : own) for (auto &n : o.exist) if (!o.flux.count(n)) st0.insert(n);
            Str pat = choose(ST_W, 2) ? Str("*") : choose(ST_W, 2) ? Str("o*a") : fmt("o%d.*", (int)choose(ST_W, no));
            std::map<Str, int> got; int r = 0; (void)r;
            for (auto &l : listing(0, pat)) if (got[l.name]++) violation("duplicate", fmt("%s is listed twice for %s", l.name.c_str(), pat.c_str()));
            if (down) break;
            std::set<Str> st1; for (auto &o : own) for (auto &n : o.exist) if (!o.flux.count(n)) st1.insert(n);
            for (auto &n : st0) if (st1.count(n) && glob(n.c_str(), pat.c_str()) && !got.count(n)) violation("listing", fmt("the listing of %s lacks %s, which exists", pat.c_str(), n.c_str()));
            for (auto &g : got) { bool any = g.first.compare(0, 6, "istatd") == 0 || g.first.compare(0, 4, "mark") == 0; for (auto &o : own) { if (o.ever.count(g.first)) any = true; else for (auto &e : o.ever) if (e.compare(0, g.first.size() + 1, g.first + ".") == 0) any = true; for (auto &f : o.flux) if (f == g.first || f.compare(0, g.first.size() + 1, g.first + ".") == 0) any = true; } if (!any) violation("listing", fmt("the listing of %s has %s, which never existed", pat.c_str(), g.first.c_str())); }
            count("listings");
            sleep_ns(choose(ST_W, 300) * MS);
        }
    } catch (NodeDown &) {} }));
    bool crashed = false;
    if (crashes && choose(ST_F, 4) != 3) { sleep_ns(choose(ST_F, 15000) * MS); if (busy > 0) { down = true; crashed = true; crash(0); } }
    for (auto t : th) join(t);
    g_throw_when_down = false;
    auto final_check = [&](const char *when) {
        for (auto &o : own) {
            Str e;
            std::set<Str> ign; if (crashed) for (auto &n : o.flux) for (Str p = n; p.size(); p = parent(p)) ign.insert(p);
            bounded([&]() { Str w = check_list(o.pre + "*", keys(o.exist), ign, true); return w.empty() ? "" : w + ", " + when; }, "listing");
            for (auto &l : o.live) if (!crashed) bounded([&]() { Str w = data(o, l.first); return w.empty() ? "" : w + ", " + when; }, "others");
            for (auto &n : o.ever) if (!o.exist.count(n) && !ign.count(n)) bounded([&]() { return gone(n); }, "deleted");
        }
        count("checked");
    };
    if (!crashed) {
        flush_node(0); evexact = true;
        final_check("at the end");
        if (prune) {
            bounded([&]() -> Str {
                for (auto &d : h_list_dirs(store_dir(0, s))) { bool any = false; for (auto &f : h_list_tree(store_dir(0, s))) if (f.compare(0, d.size() + 1, d + "/") == 0) any = true; if (!any) return "the empty directory " + d + " is not pruned"; }
                return ""; }, "prune", (3 * s.prune + 5) * SEC);
            if (!h_exists(store_dir(0, s))) violation("prune", "the store itself was removed");
            probe("pruned");
        }
        flush_node(0);
        crash(0);
    }
    down = false;
    start(0, s); settle();
    // loading a counter creates what is above it
    for (auto &o : own) { std::set<Str> e = o.exist; for (auto &n : e) for (Str p = parent(n); p.size(); p = parent(p)) o.exist.insert(p); }
    final_check("after a restart");
    must_answer(0, "after a restart");
}
