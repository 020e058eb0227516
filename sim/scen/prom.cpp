// C18: what the metrics port exports: cumulative events, live gauges, one well-formed document.
#include "../scen.h"
#include <set>
#include <ctype.h>
#include <string.h>
namespace {
struct Line { Str name, labels; double v = 0; int64_t ts = 0; };
// the exposition format; labels are sorted
struct Doc { Str err, grp; std::map<Str, Str> type; std::vector<Line> l; };
bool name_ok(const Str &s) { if (s.empty() || isdigit((unsigned char)s[0])) return false; for (char c : s) if (!isalnum((unsigned char)c) && c != '_' && c != ':') return false; return true; }
Doc parse(const Str &body) {
    Doc d; size_t p = 0; std::set<Str> closed; Str cur;
    auto bad = [&](const Str &l, const char *why) { if (d.err.empty()) d.err = Str(why) + ": " + text(l, 200); };
    auto grp = [&](const Str &l, const char *why) { if (d.grp.empty()) d.grp = Str(why) + ": " + text(l, 200); };
    auto group = [&](const Str &n, const Str &l) { if (n == cur) return; if (closed.count(n)) grp(l, "the lines of a metric are not together"); if (cur.size()) closed.insert(cur); cur = n; };
    while (p < body.size()) {
        size_t e = body.find('\n', p); if (e == Str::npos) { bad(body.substr(p), "the last line does not end"); break; }
        Str l = body.substr(p, e - p); p = e + 1;
        if (l.compare(0, 7, "# TYPE ") == 0) {
            size_t sp = l.find(' ', 7); if (sp == Str::npos) { bad(l, "bad TYPE line"); continue; }
            Str n = l.substr(7, sp - 7), t = l.substr(sp + 1);
            if (!name_ok(n) || (t != "gauge" && t != "counter")) bad(l, "bad TYPE line");
            group(n, l); if (d.type.count(n)) { if (d.type[n] != t) bad(l, "another type of the same metric"); else grp(l, "second TYPE line"); } d.type[n] = t; continue;
        }
        if (l.empty() || l[0] == '#') continue;
        size_t i = 0; Line x; while (i < l.size() && l[i] != '{' && l[i] != ' ') i++;
        x.name = l.substr(0, i); if (!name_ok(x.name)) { bad(l, "bad name"); continue; }
        std::set<Str> labs;
        if (i < l.size() && l[i] == '{') {
            i++; bool ok = false;
            while (i < l.size()) {
                size_t eq = l.find('=', i); if (eq == Str::npos || !name_ok(l.substr(i, eq - i)) || eq + 1 >= l.size() || l[eq + 1] != '"') break;
                Str k = l.substr(i, eq - i), v; i = eq + 2; bool end = false;
                while (i < l.size()) { char c = l[i++]; if (c == '"') { end = true; break; } if (c == '\\') { if (i >= l.size() || !strchr("\\\"n", l[i])) break; v += l[i++]; } else v += c; }
                if (!end || i >= l.size()) break;
                labs.insert(k + "=" + v); if (l[i] == ',') { i++; continue; } if (l[i] == '}') { i++; ok = true; } break;
            }
            if (!ok) { bad(l, "bad labels"); continue; }
        }
        for (auto &s : labs) x.labels += s + ";";
        char *e1, *e2; const char *c = l.c_str() + i;
        if (*c != ' ') { bad(l, "bad line"); continue; }
        x.v = strtod(c + 1, &e1); if (e1 == c + 1 || *e1 != ' ') { bad(l, "bad value"); continue; }
        x.ts = strtoll(e1 + 1, &e2, 10); if (e2 == e1 + 1 || *e2) { bad(l, "bad time"); continue; }
        group(x.name, l); if (!d.type.count(x.name)) bad(l, "no TYPE line ahead");
        d.l.push_back(x);
    }
    return d;
}
Str munge(const Str &n) { Str r; for (char c : n) r += isalnum((unsigned char)c) ? tolower(c) : '_'; if (r.size() && isdigit((unsigned char)r[0])) r = "_" + r; return r; }
struct Ev { double v; int64_t from, to; };               // sent, handled for certain
struct Ga { Str key; int64_t ts; double v; int64_t from, to; };
struct Ctr { Str sent; Str name; std::vector<Str> series; bool event; };   // what is on the line, and what is exported
}
SCENARIO(prom) {
    Server s; s.threads = pick_threads(); s.prom = true; if (choose(ST_W, 3) == 2) s.flush = 5;
    start(0, s);
    // one TYPE line for each metric, its lines together (a known finding: an existing test expects otherwise)
    bool strict = param("strict") == "1";
    std::vector<Ctr> ctrs; int n = 1 + choose(ST_W, 6);
    static const char *TV[] = {"h1", "h2.example", "a b", "q\"x", "back\\slash", "h-3"};
    for (int i = 0; i < n; i++) {
        Ctr c; c.event = choose(ST_W, 3) > 0; Str base = fmt(choose(ST_W, 4) ? "m%d.n" : "%d.Up-n", i); Str mark = c.event ? "counter=1;" : "";
        auto val = [&]() { Str v = TV[choose(ST_W, 6)]; for (auto &ch : v) if (ch == ' ') ch = '_'; return v; };
        switch (choose(ST_W, 5)) {
        case 0: case 1: c.sent = base; c.name = munge(base); c.series = {mark}; ctrs.push_back(c); break;
        case 2: {  // one metric of several hosts
            c.name = munge(base); std::set<Str> used;
            for (int k = 1 + choose(ST_W, 3); k > 0; k--) { Ctr x = c; Str v = val(); if (!used.insert(v).second) continue; x.sent = base + "^host." + v; x.series = {mark.size() ? mark + "host=" + v + ";" : "host=" + v + ";"}; ctrs.push_back(x); }
            break; }
        case 3: { Str v = val(), w = val(); c.sent = base + "^host." + v + "^pool." + w; c.name = munge(base); c.series = {mark + "host=" + v + ";pool=" + w + ";"}; ctrs.push_back(c); break; }
        default: { Str v = val(), w = val(); if (v == w) w += "2"; c.sent = base + "^host." + v + "^host." + w; c.name = munge(base); c.series = {mark + "host=" + v + ";", mark + "host=" + w + ";"}; ctrs.push_back(c); }
        }
    }
    std::map<Str, std::vector<Ev>> ev; std::vector<Ga> ga; std::map<Str, double> seen[4]; std::map<Str, int> seen_n;
    int64_t slack = (sched.stall_ppm || fs_slow_ppm ? 8 : 2) * SEC;
    // of the clean-up rounds of 30 s
    auto check = [&](int who, const Resp &r, int64_t t0, int64_t t1, int64_t w0, int64_t w1, bool quiet) {
        if (r.code != 200) violation("scrape", fmt("/metrics is answered with %d", r.code));
        Doc d = parse(r.body);
        if (d.err.size()) violation("format", d.err);
        if (strict && d.grp.size()) violation("grouping", d.grp);
        std::map<Str, double> got; std::map<Str, int> gg;
        for (auto &x : d.l) {
            Str t = d.type[x.name];
            if (t == "counter") { Str k = x.name + "{" + x.labels + "}"; if (got.count(k)) violation("twice", k + " is exported twice in a scrape"); got[k] = x.v; if (x.ts < (w0 - 5) * 1000 || x.ts > w1 * 1000) violation("stamp", fmt("%s: time stamp %lld, scraped at %lld", k.c_str(), (long long)x.ts, (long long)w0)); }
            else gg[x.name + "{" + x.labels + "}" + fmt(" %.15g %lld", x.v, (long long)x.ts)]++;
        }
        for (auto &e : ev) {
            double lo = 0, hi = 0; for (auto &x : e.second) { if (x.from <= t1) hi += x.v; if (x.to && x.to + slack <= t0) lo += x.v; }
            auto it = got.find(e.first); double v = it == got.end() ? 0 : it->second;
            if (quiet && (it == got.end() || v != hi)) violation("sum", fmt("%s: exported %.15g%s, %zu events of together %.15g have been received", e.first.c_str(), v, it == got.end() ? " (absent)" : "", e.second.size(), hi));
            if (v > hi || v < lo) violation("sum", fmt("%s: exported %.15g, events received for certain %.15g, at most %.15g", e.first.c_str(), v, lo, hi));
            if (v < seen[who][e.first]) violation("decrease", fmt("%s: exported %.15g after %.15g", e.first.c_str(), v, seen[who][e.first]));
            seen[who][e.first] = v; count("checked");
        }
        for (auto &g : got) if (!ev.count(g.first) && g.first.compare(0, 7, "istatd_")) violation("unknown", g.first + " is exported, but was not sent");
        std::map<Str, int> must, may;
        for (auto &g : ga) {
            if (g.from > t1) continue;
            bool live = g.ts >= w1 - 29; Str k = g.key + fmt(" %.15g %lld", g.v, (long long)g.ts * 1000);
            may[k]++; if (g.to && g.to + slack <= t0 && live) must[k]++;
            // gone after the clean-up round that follows the 30 s
            if (g.ts < w0 - 62 - slack / SEC && g.to && g.to + 31 * SEC + slack < t0) may[k]--;
        }
        for (auto &m : must) if (gg[m.first] < m.second) violation("gauge", fmt("%s is exported %d times, %d were received", m.first.c_str(), gg[m.first], m.second)); else count("gauges");
        for (auto &g : gg) if (g.first.compare(0, 7, "istatd_") && g.second > may[g.first]) violation("gauge", fmt("%s is exported %d times, %d may be", g.first.c_str(), g.second, may[g.first]));
    };
    auto scrape = [&](int who, bool quiet) {
        HttpOpt o; o.port = P_PROM; o.ip = client_ip(60 + who); if (choose(ST_W, 3) == 2) { o.pieces = choose(ST_W, 4); o.gap = choose(ST_W, 30) * MS; } o.gzip = choose(ST_W, 3) == 2;
        if (choose(ST_W, 4) == 3) { o.rd_chunk = 1 + choose(ST_W, 700); o.rd_gap = choose(ST_W, 20) * MS; }
        int64_t t0 = now_ns, w0 = wall_s(0); Resp r = must_http(0, "GET", "/metrics", "", o); check(who, r, t0, now_ns, w0, wall_s(0), quiet);
    };
    for (int ph = 1 + choose(ST_W, 3); ph > 0; ph--) {
        int senders = 1 + choose(ST_W, 3), left = senders; std::vector<Thread *> th;
        bool big = choose(ST_W, 3) == 2;
        for (int k = 0; k < senders; k++) th.push_back(spawn(-1, "sender", [&, k]() {
            Sender x; if (!x.open(0, client_ip(10 + k))) violation("connect", "no connection");
            bool fresh = true;
            for (int i = choose(ST_W, 60); i >= 0; i--) {
                Str line; std::vector<std::pair<Str, size_t>> evs; std::vector<size_t> gas;
                for (int j = choose(ST_W, 4); j >= 0; j--) {
                    const Ctr &c = ctrs[choose(ST_W, ctrs.size())]; double v = big ? range(ST_W, 1, 1400000) : range(ST_W, 0, 40) / 2.0; int64_t t = wall_s(0) - range(ST_W, 0, 20); bool timed = choose(ST_W, 3) > 0;
                    if (c.event) {
                        for (auto &l : c.series) { Str key = c.name + "{" + l + "}"; Ev e; e.v = v; e.from = now_ns; e.to = 0; ev[key].push_back(e); evs.push_back({key, ev[key].size() - 1}); }
                        line += timed ? fmt("*%s %lld %.15g\n", c.sent.c_str(), (long long)t, v) : fmt("*%s %.15g\n", c.sent.c_str(), v);
                    } else {
                        for (auto &l : c.series) { Ga g; g.key = c.name + "{" + l + "}"; g.ts = t; g.v = v; g.from = now_ns; g.to = 0; ga.push_back(g); gas.push_back(ga.size() - 1); }
                        line += choose(ST_W, 3) ? fmt("%s %lld %.15g\n", c.sent.c_str(), (long long)t, v) : fmt("%s %lld %.15g %.15g %.15g %.15g 1\n", c.sent.c_str(), (long long)t, v, v * v, v, v);
                    }
                    if (choose(ST_W, 12) == 11) line += pick<const char *>(ST_W, {"* 4\n", "*^host.a 1\n", "bad line here now\n", "# nothing\n"}) + Str();
                }
                if (!x.send(line)) violation("connect", "samples are not taken");
                for (auto &e : evs) ev[e.first][e.second].to = now_ns;
                for (auto g : gas) ga[g].to = now_ns;
                if (choose(ST_W, 4) == 0) sleep_ns(choose(ST_W, 300) * MS);
                if (choose(ST_W, 15) == 14) sleep_ns(choose(ST_W, 12000) * MS);
                (void)fresh;
            }
            settle(); x.close(); left--;
        }));
        for (int k = 1 + choose(ST_W, 3); k > 0; k--) th.push_back(spawn(-1, "scraper", [&, k]() { while (left) { scrape(k, false); sleep_ns(choose(ST_W, 3000) * MS); } }));
        if (choose(ST_W, 4) == 3) th.push_back(spawn(-1, "broken scraper", [&]() { while (left) { int fd = c_connect(client_ip(70), node_ip(0), P_PROM, 20 * SEC); if (fd >= 0) { c_send(fd, choose(ST_W, 2) ? "GET /metrics HTTP/1.0\r\nA: b\r\n\r\n" : "GET /met", SEC); if (choose(ST_F, 2)) sleep_ns(choose(ST_F, 40) * MS); c_reset(fd); fault("scraper_reset"); } sleep_ns(choose(ST_W, 900) * MS); } }));
        for (auto t : th) join(t);
        settle(); if (slack > 2 * SEC) sleep_ns(slack);
        scrape(0, true);
        if (ph > 1) { sleep_s(pick<int>(ST_W, {0, 1, 31, 70, 100})); settle(); scrape(0, true); }
    }
}
