// C27: every admin command line has its documented answer, once, in order; and nobody else notices.
#include "../scen.h"
#include <functional>
namespace {
struct Cmd { Str line; bool async; std::function<Str(const Str &)> check; };   // "" if the answer is right
std::function<Str(const Str &)> is(Str w) { return [w](const Str &a) { return a == w ? Str() : "instead of " + text(w); }; }
std::function<Str(const Str &)> huh() { return [](const Str &a) { return a.compare(0, 4, "huh?") == 0 && a.find('\n') == a.size() - 1 ? Str() : Str("instead of huh?"); }; }
int g_del;
Cmd command(bool store, const Str &pre, bool settings) {
    static const char *OPT[] = {"admin", "http", "statServer", "statStore", "statCounter", "promServer"};
    switch (choose(ST_W, 20)) {
    case 0: return {"help", false, [](const Str &a) { for (auto w : {"help", "stats", "flush", "faketime", "purge", "debug", "loglevel", "delete.ctr", "flush.setting", "load.setting", "quit"}) if (a.find(Str("\n") + w + " ") == Str::npos) return Str("without ") + w; return a.compare(0, 10, "Commands:\n") == 0 ? Str() : Str("no help"); }};
    case 1: case 2: return {"stats", false, [](const Str &a) { return a.find("http.port=8000\nhttp.current=") == 0 ? Str() : Str("no statistics"); }};
    case 3: return {"debug", false, [](const Str &a) { size_t n = 0, p = 0; while (p < a.size()) { size_t e = a.find('\n', p); Str l = a.substr(p, e - p); p = e + 1; if (l == "ok") break; if (l.size() < 4 || (l.substr(l.size() - 4) != ": on" && l.substr(l.size() - 5) != ": off")) return "line " + l; n++; } return n > 3 ? Str() : Str("no options"); }};
    case 4: { Str o = "admin"; bool on = choose(ST_W, 2); return {"debug " + o + "," + (on ? "on" : "off"), false, is(o + (on ? ": on\nok\n" : ": off\nok\n"))}; }
    case 5: return {Str("debug ") + OPT[choose(ST_W, 6)] + Str(pick<const char *>(ST_W, {",x", ",on,off", ",,"})), false, [](const Str &a) { return a.compare(0, 4, "huh?") == 0 || a == "ok\n" ? Str() : Str("instead of huh?"); }};
    case 6: { Str l = fmt("%d", (int)choose(ST_W, 6)); return {"loglevel " + l, false, [l](const Str &a) { return a.compare(0, 11, "loglevel " + l + " ") == 0 && a.size() == 16 ? Str() : Str("wrong level"); }}; }
    case 7: return {Str("loglevel ") + pick<const char *>(ST_W, {"6", "-1", "x", "1,2,3", "3,9", "99999999999"}), false, huh()};
    case 8: return {Str("purge") + pick<const char *>(ST_W, {"", " 0", " 100,90000", " 5", " 1,0"}), false, is("ok\n")};
    case 9: return {"purge x", false, [](const Str &a) { return a.compare(0, 7, "x, \nhuh?") == 0 || a.find("\nhuh?") != Str::npos ? Str() : Str("no complaint"); }};
    case 10: return {Str("faketime") + pick<const char *>(ST_W, {"", " 1", " x"}), false, huh()};
    case 11: return {Str(pick<const char *>(ST_W, {"", "HELP", "nonsense", "flushx", "stat", "he lp", "ok", "\t", "%s%n", "help,help", "delete", "quit_"})), false, huh()};
    case 12: return {Str(pick<int>(ST_W, {1000, 1023, 1024, 1025, 5000, 60000}), 'z'), false, huh()};
    case 13: case 14: return {"flush", true, is("ok\n")};
    case 15: case 16: {
        Str l = "delete.ctr ", e;
        for (int i = 0, n = 1 + choose(ST_W, 3); i < n; i++) { Str c = choose(ST_W, 3) ? fmt("%s.del%d", pre.c_str(), (int)choose(ST_W, 4)) : pre + ".none"; l += (i ? "," : "") + c; e += c + "\n"; }
        return {l, true, store ? is(e + "ok\n") : huh()};
    }
    case 17: { Str p = pre + (choose(ST_W, 2) ? ".del*" : ".no*"); return {"delete.pattern " + p, true, store ? is(p + "\nok\n") : huh()}; }
    case 18: return {choose(ST_W, 2) ? "flush.setting" : "load.setting a,b", false, huh()};
    default: return {Str(choose(ST_W, 2) ? "flush.setting " : "load.setting ") + pick<const char *>(ST_W, {"set", "other"}), true, is("ok\n")};
    }
}
}
SCENARIO(admincmd) {
    bool agent = choose(ST_W, 4) == 3; int self = agent ? 1 : 0;
    Server m; m.threads = pick_threads(); if (choose(ST_W, 2)) m.settings = "settings";
    Server a; a.store = ""; a.master = 0; a.threads = pick_threads();
    start(0, m); if (agent) start(1, a);
    bool set = agent ? false : m.settings.size();
    Strs names = random_names(2 + choose(ST_W, 3)); std::map<Str, Series> want; bool stop = false;
    Thread *snd = spawn(-1, "samples", [&]() {
        Sender s; if (!s.open(self)) { violation("disturb", "the sample port does not accept"); }
        for (int i = 0; !stop && i < 400; i++) {
            Str o; int64_t t = wall_s(0) - 1;
            for (auto &n : names) if (choose(ST_W, 3)) { int v = choose(ST_W, 8); want[n][t].add(v); o += fmt("%s %lld %d\n", n.c_str(), (long long)t, v); }
            for (int c = 0; c < 4; c++) if (choose(ST_W, 12) == 11) for (int k = 0; k < 3; k++) o += fmt("c%d.del%d 1\n", k, c);
            if (!s.send(o)) violation("disturb", "the connection of samples broke");
            sleep_ns(pick<int>(ST_W, {50, 300, 1000}) * MS);
        }
        s.close();
    });
    int clients = 1 + choose(ST_W, 3), left = clients; std::vector<Thread *> th;
    for (int c = 0; c < clients; c++) th.push_back(spawn(-1, "admin", [&, c]() {
        Str pre = fmt("c%d", c);
        for (int sess = 1 + choose(ST_W, 4); sess > 0; sess--) {
            Admin ad; if (!ad.open(self, client_ip(2 + c))) violation("answer", "the admin port does not accept");
            bool pipe = choose(ST_W, 2), cr = choose(ST_W, 2); int n = 1 + choose(ST_W, pipe ? 12 : 6);
            std::vector<Cmd> cmds; for (int i = 0; i < n; i++) cmds.push_back(command(!agent, pre, set));
            auto put = [&](const Str &s) {
                for (size_t p = 0; p < s.size();) { size_t k = choose(ST_W, 3) ? 1 + choose(ST_W, 20) : s.size() - p; if (s.size() > 2000) k = std::max<size_t>(k, s.size() / (1 + choose(ST_W, 30))); if (!ad.send(s.substr(p, k))) violation("answer", "the admin connection broke"); p += k; if (choose(ST_W, 4) == 3) sleep_ns(choose(ST_W, 400) * MS); }
            };
            auto bad = [&](const Cmd &c, const Str &got, const Str &why) { violation("answer", "\"" + text(c.line, 60) + "\" is answered with \"" + text(got, 200) + "\", " + why); };
            if (!pipe) {
                for (auto &c : cmds) {
                    put(c.line + (cr ? "\r\n" : "\n")); Str out, e;
                    if (!ad.answer(out, 300 * SEC)) violation("answer", "\"" + text(c.line, 60) + "\" is not answered" + (out.size() ? " completely: " + text(out) : ""));
                    if ((e = c.check(out)).size()) bad(c, out, e);
                    if (!ad.buf.empty()) violation("answer", "\"" + text(c.line, 60) + "\" has more than one answer: " + text(ad.buf));
                    count("checked");
                }
            } else {
                Str all; bool order = true; for (auto &c : cmds) { all += c.line + (cr ? "\r\n" : "\n"); order = order && (!c.async || &c == &cmds.back()); }
                bool quit = order && !cmds.back().async && choose(ST_W, 3) == 2; if (quit) all += "quit\n";
                bool half = !quit && choose(ST_W, 8) == 7;      // leaves with a command half written, or does not wait
                if (half) { all.resize(choose(ST_W, all.size())); put(all); if (choose(ST_W, 2)) { c_reset(ad.fd); ad.fd = -1; } ad.close(); count("abandoned"); continue; }
                put(all);
                std::vector<Str> got;
                for (auto &c : cmds) {
                    Str out, e; if (!ad.answer(out, 300 * SEC)) violation("answer", fmt("%d answers for %d commands: ", (int)got.size(), (int)cmds.size()) + text(all, 600) + " then " + text(out));
                    if (order && (e = c.check(out)).size()) bad(c, out, e);
                    got.push_back(out);
                }
                if (!order) {      // answers to slow commands come when they come, but as a whole
                    size_t g = 0;
                    for (auto &x : got) { Str k; for (size_t p = 0; p < x.size();) { size_t e = x.find('\n', p) + 1; if (x.compare(p, pre.size() + 1, pre + ".")) k += x.substr(p, e - p); p = e; } x = k; }
                    for (auto &c : cmds) if (!c.async) { size_t b = g; while (g < got.size() && c.check(got[g]).size()) g++; if (g++ == got.size()) bad(c, b < got.size() ? got[b] : Str("(nothing)"), "or late"); }
                }
                if (quit) { Str rest = ad.buf; int k = c_recv(ad.fd, rest, 30 * SEC); if (k != 0 || rest.size()) violation("answer", k < 0 ? Str("not disconnected after quit") : "more answers than commands: " + text(rest)); }
                else { sleep_ns(2 * SEC); Str rest = ad.buf; int k = c_recv(ad.fd, rest, 1 * SEC); if (rest.size()) violation("answer", "more answers than commands: " + text(rest)); if (k == 0) violation("answer", "disconnected"); }
                count("checked"); count("pipelined");
            }
            if (choose(ST_W, 3) == 2) { ad.send("quit\n"); Str rest; if (ad.fd >= 0 && c_recv(ad.fd, rest, 30 * SEC) > 0) violation("answer", "quit is answered with " + text(rest)); }
            ad.close();
            sleep_ns(choose(ST_W, 3000) * MS);
        }
        left--;
    }));
    Thread *http_ = spawn(-1, "http", [&]() {
        while (left) { QRes q = query(0, names[choose(ST_W, names.size())], wall_s(0) - 20, wall_s(0)); if (q.err.size() && q.found) violation("disturb", q.err); if (!agent) must_answer(0, "while commands are given"); else if (!http(self, "GET", "/").ok()) violation("disturb", "the agent does not answer"); sleep_ns(choose(ST_W, 3000) * MS); }
    });
    for (auto t : th) join(t);
    stop = true; join(snd); join(http_);
    settle(); flush_node(self); if (agent) { settle(); flush_node(0); }
    Verify v; v.cls = "disturb"; v.span = 20;
    for (auto &n : names) {
        if (!agent) { verify_counter(0, n, want[n], wall_s(0), v); continue; }
        // the agent makes one sample of those of 10 s, on the master
        double sum = 0, got = 0; int64_t n1 = 0, n2 = 0; for (auto &x : want[n]) { sum += x.second.sum; n1 += x.second.n; }
        if (!n1) continue;
        QRes q = query(0, n, wall_s(0) - 450, wall_s(0) + 60, 1000); for (auto &x : q.b) { got += x.second.sum; n2 += x.second.n; }
        if (got != sum || n1 != n2) violation("disturb", fmt("%s: the master has %lld samples, sum %g of %lld, sum %g", n.c_str(), (long long)n2, got, (long long)n1, sum));
    }
    count("checked");
}
