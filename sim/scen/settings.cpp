// C15: settings. Every writer has keys of its own in shared files; a key is written by one request at a time.
#include "../scen.h"
#include <set>
namespace {
struct Val { Str v; int64_t ack; };                    // ack: INT64_MAX while not answered
struct Key { std::vector<Val> h; size_t durable = 0; }; // h[0] is what was there at the start; at least h[durable] is on the disk
typedef std::map<Str, Key> File;
Str value() {
    static const char *V[] = {"v", "1", "", "true", " lead", "trail ", "  both  ", "a b", "a=b", "=", "#x", "# istatd settings 2", "\\", "\\\\n", "'q'", "\"", "100%", "under_score", "line\nbreak", "x\ny=z\n", "\r\n", "tab\t", "\t", " ",
        "\xc3\xa4\xe2\x82\xac", "*", "a\\", "\\ ", "\x1a", "\b", "trail\\ ", " \\", "null", "0.5"};
    switch (choose(ST_W, 6)) {
    case 0: { Str s; for (int i = 1 + choose(ST_W, 20); i > 0; i--) s += (char)(1 + choose(ST_W, 127)); return s; }
    case 1: return Str(pick<int>(ST_W, {100, 1000, 9000}), "ab \\"[choose(ST_W, 4)]) + fmt("%d", (int)choose(ST_W, 100));
    case 2: return fmt("%d", (int)choose(ST_W, 1000000));
    default: return V[choose(ST_W, sizeof V / sizeof *V)];
    }
}
}
SCENARIO(settings) {
    Server s; s.threads = pick_threads(); s.settings = "settings";
    Strs files = {"set", "user.1", "a-b_C"}; files.resize(1 + choose(ST_W, 3));
    std::map<Str, File> m;
    static const char *W[] = {"k", "key.x", "K", "a@b", "x_y", "1", "k<>", "a,b", "\xc3\xa9"};
    auto get_all = [&](const Str &f, std::map<Str, Str> &out) -> Str {
        Resp r = must_http(0, "GET", "/?s=" + f + "&sk=*");
        out.clear();
        if (r.code == 404) return "";
        if (r.code != 200) return fmt("answer %d", r.code);
        J j; if (!json_parse(r.body, j) || j.t != J::OBJ) return "no JSON: " + text(r.body);
        for (auto &x : j.o) { if (out.count(x.first)) return "key " + x.first + " twice"; out[x.first] = x.second.s; }
        return "";
    };
    auto show = [&](const Str &v) { return v.empty() ? Str("(nothing)") : "\"" + text(v, 60) + "\""; };
    int cycles = choose(ST_W, 3);
    for (int cyc = 0; cyc <= cycles; cyc++) {
        for (int k = cyc ? choose(ST_F, 2) : 0; k > 0; k--) {         // kills while it starts
            node_start(0, s.args()); if (choose(ST_F, 2)) nodes[0].kill_fsops = choose(ST_F, 60); else nodes[0].kill_bbs = 1000LL << choose(ST_F, 12);
            int64_t end = now_ns + 3 * SEC; while (nodes[0].alive && now_ns < end) sleep_ns(10 * MS);
            if (nodes[0].alive) crash(0);
            nodes[0].kill_fsops = nodes[0].kill_bbs = -1;
        }
        start(0, s);
        for (auto &f : m) {
            std::map<Str, Str> got; Str e = get_all(f.first, got);
            if (e.size()) violation("read", f.first + " after a restart: " + e);
            for (auto &g : got) if (!f.second.count(g.first)) violation("torn", fmt("%s: key %s = %s after a restart, it was never set", f.first.c_str(), g.first.c_str(), show(g.second).c_str()));
            for (auto &k : f.second) {
                Str v = got.count(k.first) ? got[k.first] : ""; Key &h = k.second; bool ok = false, older = false;
                for (size_t i = 0; i < h.h.size(); i++) if (h.h[i].v == v) (i >= h.durable ? ok : older) = true;
                if (!ok) violation(older ? "durable" : "torn", fmt("%s: %s is %s after a restart, ", f.first.c_str(), k.first.c_str(), show(v).c_str()) + "it " + (older ? "was " + show(h.h[h.durable].v) + " on the disk already" : "never was; at last " + show(h.h.back().v)));
                if (h.durable || h.h[0].v.size()) count("durable_values");
                h.h.assign(1, Val{v, 0}); h.durable = 0;
            }
        }
        if (cyc) count("checked");
        // work
        bool faults = choose(ST_F, 3) == 2, stop = false; int writers = 1 + choose(ST_W, 3), left = writers;
        bool die = cyc < cycles && choose(ST_F, 2);
        auto barrier = [&](int64_t t) { for (auto &f : m) for (auto &k : f.second) for (size_t i = 0; i < k.second.h.size(); i++) if (k.second.h[i].ack <= t) k.second.durable = std::max(k.second.durable, i); };
        auto writer = [&](int w) {
            for (int i = 1 + choose(ST_W, 8); i > 0 && nodes[0].alive; i--) {
                Str f = files[choose(ST_W, files.size())]; J dummy; Str body = "{"; std::map<Str, Str> set;
                for (int n = 1 + choose(ST_W, 3); n > 0; n--) set[fmt("%s%d", W[choose(ST_W, sizeof W / sizeof *W)], w)] = value();
                for (auto &x : set) { body += (body.size() > 1 ? "," : "") + json_str(x.first) + ":" + json_str(x.second); Key &k = m[f][x.first]; if (k.h.empty()) k.h.push_back(Val{"", 0}); k.h.push_back(Val{x.second, INT64_MAX}); }
                body += "}"; note("%s gets %s", f.c_str(), text(body, 800).c_str());
                Resp r = http(0, "POST", "/?s=" + f, body);
                if (!nodes[0].alive) return;
                if (!r.ok()) violation("answer", "no answer when settings are stored: " + r.err);
                if (r.code != 200) { if (fs_faults.empty() && !faults) violation("answer", fmt("%s could not be stored: %d ", f.c_str(), r.code) + text(r.body)); for (auto &x : set) m[f][x.first].h.pop_back(); count("refused"); }
                else {
                    for (auto &x : set) m[f][x.first].h.back().ack = now_ns;
                    // is it there for everyone?
                    std::map<Str, Str> got; HttpOpt o; Resp q = http(0, "GET", "/?s=" + f + "&sk=*");
                    if (!nodes[0].alive) return;
                    J j; if (q.ok() && q.code == 200 && json_parse(q.body, j)) for (auto &x : j.o) got[x.first] = x.second.s; else if (q.code != 404) { if (!faults) violation("read", fmt("%s can not be read: %d %s", f.c_str(), q.code, q.err.c_str())); continue; }
                    for (auto &k : m[f]) if (k.first.back() == '0' + w) {
                        Str v = got.count(k.first) ? got[k.first] : "";
                        if (v != k.second.h.back().v) { if (q.code == 404 && faults) continue; violation("read", fmt("%s: %s is %s, stored was %s", f.c_str(), k.first.c_str(), show(v).c_str(), show(k.second.h.back().v).c_str())); }
                    }
                    count("checked");
                }
                if (choose(ST_W, 2)) sleep_ns(choose(ST_W, 5000) * MS);
            }
        };
        std::vector<Thread *> th;
        for (int w = 0; w < writers; w++) th.push_back(spawn(-1, "writer", [&, w]() { writer(w); left--; }));
        th.push_back(spawn(-1, "other", [&]() {
            while (left && nodes[0].alive) {
                switch (choose(ST_W, 5)) {
                case 0: if (!faults) { int64_t t = now_ns; if (admin(0, "flush") == "ok\n") { if (!faults) barrier(t); } else if (nodes[0].alive) violation("flush", "flush is not answered with ok"); } break;
                case 1: { Str f = files[choose(ST_W, files.size())]; int64_t t = now_ns; if (admin(0, "flush.setting " + f) == "ok\n") { if (!faults) for (auto &k : m[f]) for (size_t i = 0; i < k.second.h.size(); i++) if (k.second.h[i].ack <= t) k.second.durable = std::max(k.second.durable, i); } break; }
                case 2: http(0, "GET", "/?s=" + files[choose(ST_W, files.size())] + "&sk=*"); break;
                default: break;
                }
                sleep_ns(choose(ST_W, 4000) * MS);
            }
        }));
        if (faults) {
            sleep_ns(choose(ST_F, 6000) * MS);
            for (int i = 1 + choose(ST_F, 2); i > 0; i--) {
                FsFault f; f.kind = pick<FsFaultKind>(ST_F, {FF_ENOSPC, FF_EIO_WRITE, FF_SHORT_WRITE, FF_RENAME, FF_EMFILE, FF_EACCES, FF_EIO_READ, FF_UNLINK, FF_EIO_STAT}); f.node = 0; f.match = "settings"; f.ppm = pick<uint32_t>(ST_F, {1000000, 500000});
                fs_faults.push_back(f);
            }
        }
        if (die) { sleep_ns(choose(ST_F, 14000) * MS); if (choose(ST_F, 2)) nodes[0].kill_fsops = choose(ST_F, 20); else nodes[0].kill_bbs = 100LL << choose(ST_F, 16); }
        for (auto t : th) join(t);
        (void)stop;
        if (faults) { if (nodes[0].alive) sleep_ns(choose(ST_F, 25000) * MS); fs_clear_faults(0); }
        if (nodes[0].alive) { settle(); }
        int64_t ended = now_ns;
        // all is as it was set
        if (nodes[0].alive && !die) for (auto &f : m) {
            std::map<Str, Str> got; Str e = get_all(f.first, got);
            if (e.size()) violation("read", f.first + ": " + e);
            for (auto &k : f.second) { Str v = got.count(k.first) ? got[k.first] : ""; if (v != k.second.h.back().v) violation("read", fmt("%s: %s is %s, stored was %s", f.first.c_str(), k.first.c_str(), show(v).c_str(), show(k.second.h.back().v).c_str())); }
            for (auto &g : got) if (!f.second.count(g.first)) violation("torn", fmt("%s: key %s was never set", f.first.c_str(), g.first.c_str()));
            count("checked");
        }
        if (cyc == cycles && nodes[0].alive && choose(ST_W, 40) == 39) {
            Resp r = must_http(0, "POST", "/?s=nul", "{\"k\":\"a\\u0000b\"}"); std::map<Str, Str> got; get_all("nul", got);
            if (r.code == 200 && got["k"] != Str("a\0b", 3)) violation("nul", "a value with a NUL character comes back as " + show(got["k"]));
        }
        if (cyc == cycles) break;
        if (choose(ST_W, 2)) sleep_ns(choose(ST_W, 30000) * MS);
        if (nodes[0].alive) { int64_t end = now_ns + choose(ST_W, 3000) * MS; while (nodes[0].alive && now_ns < end) sleep_ns(100 * MS); }
        if (nodes[0].alive) crash(0);
        nodes[0].kill_fsops = nodes[0].kill_bbs = -1;
        // saved 10 s later; after failures it is tried again every 10 s
        int64_t slack = (sched.stall_ppm || fs_slow_ppm ? 8 : 2) * SEC;
        if (!faults) barrier(nodes[0].died_ns - 10 * SEC - slack);
        else if (nodes[0].died_ns > ended + 12 * SEC + slack) { barrier(ended); barrier(nodes[0].died_ns - 10 * SEC - slack); }
        sleep_ns(choose(ST_W, 1000) * MS);
    }
}
