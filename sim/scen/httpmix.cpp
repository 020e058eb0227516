// C16: one complete, right response per request, whatever else is requested, and however slowly.
#include "../scen.h"
#include <algorithm>
#include <string.h>
namespace {
Str canon(const J &j) {
    switch (j.t) {
    case J::NUL: return "null"; case J::BOOL: return j.b ? "true" : "false"; case J::NUM: return fmt("%.9g", j.n); case J::STR: return json_str(j.s);
    case J::ARR: { Strs v; Str o = "["; for (auto &x : j.a) v.push_back(canon(x)); if (j.a.size() && j.a[0].has("name")) std::sort(v.begin(), v.end()); for (auto &x : v) o += x + ","; return o + "]"; }
    default: { Strs v; Str o = "{"; for (auto &x : j.o) if (x.first != "elapsed") v.push_back(json_str(x.first) + ":" + canon(x.second)); std::sort(v.begin(), v.end()); for (auto &x : v) o += x + ","; return o + "}"; }
    }
}
struct Req { Str method, target, body, extra; int port = P_HTTP; int code = 0; Str want; int kind = 0; };   // kind 0: exact body, 1: JSON, 2: only the code and the form
Str shape(const Req &q, const Resp &r) {
    if (q.kind == 0) return r.body;
    if (q.kind == 1) { J j; if (!json_parse(r.body, j)) return "no JSON: " + text(r.body, 120); return canon(j); }
    return "";
}
}
SCENARIO(httpmix) {
    Server s; s.threads = pick_threads(); s.prom = true; s.files_dir = "files"; if (choose(ST_W, 2)) s.settings = "settings";
    std::map<Str, Str> files;
    for (auto n : {"index.html", "x.js", "big.bin", "empty.txt"}) {
        Str b; size_t len = !strcmp(n, "big.bin") ? pick<int>(ST_W, {70000, 300000, 1048576}) : !strcmp(n, "empty.txt") ? 0 : 10 + choose(ST_W, 3000);
        uint32_t x = choose(ST_W, 1000000); for (size_t i = 0; i < len; i++) { x = x * 1103515245 + 12345; b += (char)(x >> 16); }
        files[n] = b;
    }
    Str dir = store_dir(0, s); dir = dir.substr(0, dir.rfind('/')) + "/files"; h_mkdirs(dir); for (auto &f : files) h_write_file(dir + "/" + f.first, f.second);
    start(0, s);
    // some data that stays as it is
    Sender snd; if (!snd.open(0)) violation("setup", "no connection");
    Strs names = {"a.one", "a.two", "b.c.d", "b.c.e", "z"}; int64_t t0 = wall_s(0) - 40;
    for (auto &n : names) { Str o; for (int i = 0; i < 30; i++) if (choose(ST_W, 4)) o += fmt("%s %lld %d\n", n.c_str(), (long long)t0 + i, (int)choose(ST_W, 100)); snd.send(o); }
    Str many; int nmany = pick<int>(ST_W, {0, 50, 600}); for (int i = 0; i < nmany; i++) many += fmt("many.c%d.value 1\n", i); if (nmany) snd.send(many);
    snd.close(); settle(); flush_node(0); settle();
    if (s.settings.size()) must_http(0, "POST", "/?s=set", "{\"k1\":\"v1\",\"k2\":\"some \\\" value\",\"other\":\"x\"}");
    sleep_ns(15 * SEC);
    std::vector<Req> reqs;
    auto add = [&](const char *m, Str t, int kind, Str body = "", int port = P_HTTP, Str extra = "") { Req r; r.method = m; r.target = t; r.kind = kind; r.body = body; r.port = port; r.extra = extra; reqs.push_back(r); };
    Str range = fmt("start=%lld&end=%lld", (long long)t0 - 5, (long long)t0 + 35), jr = fmt("\"start\":%lld,\"stop\":%lld", (long long)t0 - 5, (long long)t0 + 35);
    for (auto &n : names) { add("GET", "/" + n + "?" + range, 1); add("GET", "/" + n + "?" + range + "&format=csv", 0); }
    add("GET", "/a.one?" + range + "&samples=4", 1); add("GET", "/nonesuch?" + range, 2); add("GET", "/a.one?start=x", 2);
    add("POST", "/*", 1, "{" + jr + ",\"keys\":[\"a.one\",\"a.two\",\"b.c.d\",\"nonesuch\",\"z\"]}");
    add("POST", "/*", 1, "{" + jr + ",\"keys\":[\"b.c.e\",\"a.one\"],\"maxSamples\":5}");
    if (nmany) { Str k; for (int i = 0; i < nmany; i++) k += fmt("%s\"many.c%d.value\"", i ? "," : "", i); add("POST", "/*", 1, "{" + jr + ",\"keys\":[" + k + "]}"); }
    add("POST", "/*", 2, "{\"keys\":"); add("POST", "/*", 2, "[]"); add("POST", "/*", 2, "{}"); add("POST", "/other", 2, "x");
    add("GET", "/?q=a.*", 1); add("GET", "/?q=b.c.*", 1); add("GET", "/?q=many*", 1); add("GET", "/?a=*", 2);
    for (auto &f : files) add("GET", "/files/" + f.first, 0); add("GET", "/", 0); add("GET", "/files/nonesuch", 2); add("GET", "/files/../store", 2);
    add("OPTIONS", "/*", 0); add("PUT", "/a.one", 2, "x"); add("DELETE", "/a.one", 2); add("GET", "/?s=set&sk=k*", 1); add("GET", "/?s=none&sk=*", 2);
    add("GET", "/metrics", 2, "", P_PROM); add("GET", "/metricsx", 2, "", P_PROM); add("POST", "/metrics", 2, "x", P_PROM);
    for (auto &r : reqs) {
        HttpOpt o; o.port = r.port; Resp a = must_http(0, r.method, r.target, r.body, o);
        r.code = a.code; r.want = shape(r, a);
        if (r.target.compare(0, 7, "/files/") == 0 && files.count(r.target.substr(7)) && a.body != files[r.target.substr(7)]) violation("body", r.target + fmt(" has %zu bytes instead of %zu", a.body.size(), files[r.target.substr(7)].size()));
        if (r.target == "/" && a.body != files["index.html"]) violation("body", "the index file is not as it was written");
    }
    count("requests", reqs.size());
    int clients = 1 + choose(ST_W, 6), left = clients; std::vector<Thread *> th;
    for (int c = 0; c < clients; c++) th.push_back(spawn(-1, "client", [&, c]() {
        bool slow = choose(ST_W, 3) == 2;
        for (int n = 2 + choose(ST_W, 12); n > 0; n--) {
            const Req &q = reqs[choose(ST_W, reqs.size())]; HttpOpt o; o.port = q.port; o.ip = client_ip(c); o.gzip = choose(ST_W, 3) == 2; o.timeout = 600 * SEC;
            if (choose(ST_W, 2)) { o.pieces = 1 + choose(ST_W, 12); o.gap = choose(ST_W, 2) ? choose(ST_W, 800) * MS : 0; }
            if (slow) { o.rd_chunk = pick<int>(ST_W, {1000, 7000, 30000}); o.rd_gap = choose(ST_W, 20) * MS; }
            Str txt = http_request(q.method, q.target, q.body, o);
            switch (choose(ST_W, 8)) {
            case 7: {                                  // does not do what it should
                int fd = c_connect(client_ip(c), node_ip(0), q.port, 30 * SEC); if (fd < 0) violation("accept", "connection refused");
                int how = choose(ST_W, 5); Str part = how < 3 ? txt.substr(0, choose(ST_W, txt.size())) : txt;
                c_send(fd, part, 60 * SEC); sleep_ns(choose(ST_W, 2) ? choose(ST_W, 3000) * MS : 0);
                if (how == 3) { Str in; c_recv(fd, in, 10 * SEC, 1 + choose(ST_W, 500)); }
                if (choose(ST_W, 2)) { if (how == 0) { c_shut_wr(fd); sleep_ns(choose(ST_W, 2000) * MS); } c_close(fd); } else c_reset(fd);
                count("abandoned"); note("abandoned: %d of %d bytes, how %d: %s %s", (int)part.size(), (int)txt.size(), how, q.method.c_str(), text(q.target, 80).c_str()); break;
            }
            case 6: {                                  // tells that it has nothing more to say
                int fd = c_connect(client_ip(c), node_ip(0), q.port, 30 * SEC); if (fd < 0) violation("accept", "connection refused");
                c_send(fd, txt, 60 * SEC); c_shut_wr(fd); Resp r = http_read(fd, o); c_close(fd);
                if (!r.ok()) violation("answer", q.method + " " + q.target + ": " + r.err);
                if (r.code != q.code || shape(q, r) != q.want) violation("body", q.method + " " + q.target + fmt(": status %d after %d: ", r.code, q.code) + text(shape(q, r), 300) + " instead of " + text(q.want, 300));
                count("checked"); count("half_closed"); break;
            }
            default: {
                Resp r = http_raw(0, txt, o);
                if (!r.ok()) violation("answer", q.method + " " + q.target + (o.gzip ? " (gzip)" : "") + ": " + r.err);
                if (r.code != q.code) violation("answer", q.method + " " + q.target + fmt(" has status %d, before it had %d", r.code, q.code));
                if (shape(q, r) != q.want) violation("body", q.method + " " + q.target + (o.gzip ? " (gzip)" : "") + " is answered " + text(shape(q, r), 300) + " instead of " + text(q.want, 300));
                count("checked");
            }
            }
            if (choose(ST_W, 3) == 2) sleep_ns(choose(ST_W, 1000) * MS);
        }
        left--;
    }));
    th.push_back(spawn(-1, "samples", [&]() { Sender x; if (!x.open(0)) return; while (left) { x.send(fmt("other.k%d 1\n*other.e 1\n", (int)choose(ST_W, 5))); sleep_ns(choose(ST_W, 500) * MS); if (choose(ST_W, 20) == 19) admin(0, "flush"); } x.close(); }));
    for (auto t : th) join(t);
    settle(); sleep_ns(2 * SEC);
    for (int i = 0; i < 3; i++) {
        auto st = admin_stats(0);
        if (st["http.current"] != "0") violation("current", "http.current is " + st["http.current"] + " though there are no requests");
    }
    // and the self counter tells it, too
    sleep_ns(5 * SEC); int64_t from = wall_s(0) + 1; sleep_ns(2 * SEC);
    for (int i = 0; i < 4; i++) { HttpOpt o; o.port = i % 2 ? P_HTTP : P_PROM; must_http(0, "GET", i % 2 ? "/?q=a*" : "/metrics", "", o); settle(); sleep_ns(1500 * MS); }
    QRes g = query(0, "istatd.http.current", from, wall_s(0), 0);
    for (auto &b : g.b) if (b.second.mx > 1 || b.second.mn < 0) violation("current", fmt("istatd.http.current has %g requests in progress, there was one at most", b.second.mx));
    if (g.b.empty() && !sched.stall_ppm && !fs_slow_ppm) violation("current", "istatd.http.current has no values");
    count("checked");
}
