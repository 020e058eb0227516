// C12: no input on any port stops the daemon from serving others.
#include "../scen.h"
#include <memory>
static Str rbytes(int maxlen) { Str s; for (int i = choose(ST_W, maxlen + 1); i > 0; i--) s += (char)choose(ST_W, 256); return s; }
static Str rnum() {
    static const char *N[] = {"0", "1", "-1", "2", "10", "60", "512", "1400000000", "-1400000000", "2147483647", "-2147483648", "2147483648", "4294967296",
        "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "99999999999999999999999", "1e308", "-1e308", "1e400", "inf", "-inf", "nan", "NaN",
        "0.1", "1e-320", "", "x", "0x10", "007", "+5", "--5", " ", "%31", "1.5", "true"};
    if (choose(ST_W, 3)) return N[choose(ST_W, sizeof N / sizeof *N)];
    int64_t now = wall_s(0);
    return fmt("%lld", (long long)(now + range(ST_W, -4000, 4000)));
}
static Str rname() {
    static const char *N[] = {"a", "a.b", "a.b.c", "*ev", "*ev.x", "*", "**", "", ".", "..", "...", "a..b", ".a", "a.", "../x", "a/b", "/etc", "a^b", "a^b^c", "a^", "^", "^a", "a^^b", "a.^b", "*a^b^c", "A.B", "x y",
        "a.b.c.d.e.f.g.h.i.j.k.l", "%2e%2e", "a%00b", "a*", "a.*", "?", "*.*", "cpu.\xc3\xa4", "#a", "@a", "a:b", "a;b=c", "a\"b", "a\\b", "a'b", "<b>", "10s", "a.10s", "a.1s.b"};
    switch (choose(ST_W, 12)) {
    case 0: return Str(pick<int>(ST_W, {200, 255, 256, 1000, 5000}), 'n');
    case 1: { Str s; for (int i = 1 + choose(ST_W, 200); i > 0; i--) s += "a."; return s + "z"; }
    case 2: return text(rbytes(8));
    case 3: return rbytes(12);
    case 4: { Str s = "m"; for (int i = 1 + choose(ST_W, 20); i > 0; i--) s += fmt("^c%d", i); return s; }
    default: return N[choose(ST_W, sizeof N / sizeof *N)];
    }
}
static Str mutate(Str s) {
    for (int i = choose(ST_W, 3) ? 0 : 1 + choose(ST_W, 4); i > 0 && s.size(); i--) {
        size_t p = choose(ST_W, s.size());
        switch (choose(ST_W, 5)) {
        case 0: s[p] = (char)choose(ST_W, 256); break;
        case 1: s.erase(p, 1 + choose(ST_W, 5)); break;
        case 2: s.insert(p, rbytes(4)); break;
        case 3: s.insert(p, s.substr(p, 1 + choose(ST_W, 20))); break;
        default: s.resize(p);
        }
    }
    return s;
}
static Str stat_input() {
    Str o;
    for (int i = 1 + choose(ST_W, 30); i > 0; i--) {
        Str l;
        switch (choose(ST_W, 10)) {
        case 0: l = rbytes(60); break;
        case 1: l = "#" + text(rbytes(6)) + " " + rbytes(10); break;
        case 2: case 3: l = rname() + " " + rnum(); break;
        case 4: case 5: case 6: l = rname() + " " + rnum() + " " + rnum(); break;
        case 7: l = rname() + " " + rnum() + " " + rnum() + " " + rnum() + " " + rnum() + " " + rnum() + " " + rnum(); break;
        case 8: l = Str(choose(ST_W, 3000), ' ') + rname(); break;
        default: l = (choose(ST_W, 2) ? "*ev" : "*ev.x") + fmt(" %lld ", (long long)wall_s(0) + range(ST_W, -3, 1)) + rnum();
        }
        o += mutate(l) + (choose(ST_W, 8) ? "\n" : "\r\n");
    }
    if (choose(ST_W, 12) == 11) o += Str(pick<int>(ST_W, {16384, 60000, 200000}), 'q');
    return o;
}
static Str http_input() {
    if (choose(ST_W, 14) == 13) return Str(pick<const char *>(ST_W, {"\r\n\r\n", "\n\r\n\r\n", " \r\n\r\n", "GET\r\n\r\n", "\r\n\r\n\r\n", ":\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "\r\nGET / HTTP/1.1\r\na:b\r\n\r\n", "\0\r\n\r\n"}));
    if (choose(ST_W, 60) == 59) return "GET / HTTP/1.1\r\nx: " + Str(3000000, 'y');
    Str name = rname(), url; bool post = choose(ST_W, 3) == 2; Str body;
    auto q = [&]() { Str s; static const char *K[] = {"start", "end", "samples", "format", "trailing", "x", ""};
        for (int i = choose(ST_W, 5); i > 0; i--) { Str k = K[choose(ST_W, 7)]; s += (s.empty() ? "" : "&") + k + "=" + (k == "format" ? Str(choose(ST_W, 2) ? "json" : "csv") : rnum()); }
        return s; };
    switch (choose(ST_W, 15)) {
    case 12: url = pick<const char *>(ST_W, {"/?f", "?f", "?", "/?", "/?f=", "/?&", "/?=", "/?q", "/?s", "/?a", "/?s=set", "/files/", "/files", "//", "/%"}); break;
    case 0: url = "/?a=" + rname(); break;
    case 1: url = "/?q=" + rname(); break;
    case 2: url = "/?q=*"; break;
    case 3: url = "/?s=" + rname() + "&sk=" + rname(); break;
    case 4: url = "/files/" + rname(); break;
    case 5: url = "/?f=" + rname(); break;
    case 6: url = choose(ST_W, 2) ? "/" : "/favicon.ico"; break;
    case 7: url = rbytes(20); break;
    case 8: url = "/metrics"; break;
    case 9: url = Str(pick<int>(ST_W, {500, 4000, 20000}), 'u'); break;
    case 10: url = "/*"; post = true; break;
    case 11: url = "/?s=set" + Str(choose(ST_W, 2) ? "" : "tings"); post = true; break;
    default: url = "/" + name + "?" + q();
    }
    for (auto &c : url) if (c == ' ' || c == '\r' || c == '\n') c = '+';
    if (post) {
        switch (choose(ST_W, 8)) {
        case 0: body = rbytes(100); break;
        case 1: body = "{}"; break;
        case 2: body = Str(pick<int>(ST_W, {100, 1000, 20000}), "[{"[choose(ST_W, 2)]); break;       // nested deep
        case 3: body = "{\"" + rname() + "\":\"" + rname() + "\"}"; break;
        case 4: body = pick<const char *>(ST_W, {"", "[]", "5", "\"x\"", "null", "true", "[{}]", "-", "{}{}"}); break;
        default: {
            auto js = [&]() { switch (choose(ST_W, 6)) { case 0: return Str("null"); case 1: return "\"" + rname() + "\""; case 2: return Str("[]"); case 3: return Str("true"); default: return rnum(); } };
            body = "{\"start\":" + js() + ",\"stop\":" + js() + ",\"maxSamples\":" + js() + ",\"keys\":";
            if (choose(ST_W, 4)) { body += "["; for (int i = choose(ST_W, 5); i > 0; i--) body += (choose(ST_W, 6) ? "\"" + rname() + "\"" : js()) + (i > 1 ? "," : ""); body += "]"; } else body += js();
            if (choose(ST_W, 3) == 0) body += ",\"compact\":" + js();
            if (choose(ST_W, 3) == 0) body += ",\"trailing\":" + js();
            body += "}"; }
        }
    }
    static const char *M[] = {"GET", "POST", "OPTIONS", "PUT", "HEAD", "get", "", "G\tT"};
    Str method = choose(ST_W, 8) == 7 ? Str(M[choose(ST_W, 8)]) : Str(post ? "POST" : "GET");
    Str r = method + " " + url + (choose(ST_W, 12) ? " HTTP/1.1" : choose(ST_W, 2) ? "" : " HTTP/9.9 x") + "\r\n";
    if (choose(ST_W, 8)) r += "Host: x\r\n";
    if (choose(ST_W, 4) == 3) r += "Accept-Encoding: " + Str(pick<const char *>(ST_W, {"gzip", "deflate", ",", ";", " , ", "gzip;q=0", "gzip;q=x, deflate;q=1.5", ",,;;", "*;q=0.1", "identity;q=0, *;q=0", "gzip;q="})) + "\r\n";
    if (choose(ST_W, 6) == 5) r += rbytes(6) + ": " + text(rbytes(10)) + "\r\n";
    if (choose(ST_W, 10) == 9) r += " continued\r\n";
    if (choose(ST_W, 10) == 9) r += "Referer: " + Str(pick<const char *>(ST_W, {"http://a/b/c", "x", "///", ""})) + "\r\n";
    if (post || choose(ST_W, 10) == 9) switch (choose(ST_W, 8)) {
        case 0: break;
        case 1: r += "Content-Length: " + Str(pick<const char *>(ST_W, {"", "x", "-1", "-5", "0", "5", "100000", "67108864", "10000000000", "9223372036854775807", "1x", "99999999999999999999", "0x10"})) + "\r\n"; break;
        case 2: r += fmt("Content-Length: %zu\r\nContent-Length: %zu\r\n", body.size(), body.size()); break;
        default: r += fmt("Content-Length: %zu\r\n", body.size());
    }
    r += "\r\n" + body;
    if (choose(ST_W, 10) == 9) r += rbytes(30);
    return mutate(r);
}
static Str admin_input() {
    Str o; static const char *C[] = {"help", "stats", "flush", "purge", "debug", "loglevel", "delete.ctr", "delete.pattern", "flush.setting", "load.setting", "", " ", ",", "foo", "faketime"};
    for (int i = 1 + choose(ST_W, 8); i > 0; i--) {
        Str l = C[choose(ST_W, 15)];
        for (int k = choose(ST_W, 4); k > 0; k--) l += (choose(ST_W, 2) ? " " : ",") + (choose(ST_W, 3) ? rname() : rnum());
        if (choose(ST_W, 10) == 9) l += Str(pick<int>(ST_W, {900, 1016, 1023, 1024, 1025, 2000, 5000, 65535, 65536, 65537, 140000}), 'z');
        if (choose(ST_W, 12) == 11) l = rbytes(50);
        if (l.compare(0, 4, "quit") == 0) l = "x" + l;
        o += mutate(l) + (choose(ST_W, 2) ? "\n" : "\r\n");
    }
    size_t p; while ((p = o.find("quit")) != Str::npos) o[p] = 'x';       // the one command that is meant to end things
    return o;
}
static Str repl_input() {
    Str o;
    auto u32 = [&](uint32_t v) { o.append((char *)&v, 4); };
    for (int i = 1 + choose(ST_W, 4); i > 0; i--) {
        u32(pick<uint32_t>(ST_W, {0, 1, 2, 3, 4, 5, 0x101, 0xffffffff}));
        uint32_t sz = pick<uint32_t>(ST_W, {0, 1, 4, 8, 20, 24, 100, 1000, 70000, 0x7fffffff, 0xffffffff});
        u32(sz);
        size_t n = choose(ST_W, 4) ? std::min<uint32_t>(sz, 3000) : choose(ST_W, 30);
        for (size_t k = 0; k < n; k++) o += (char)(k < 40 ? choose(ST_W, 256) : 0);
    }
    return mutate(o);
}
SCENARIO(fuzz) {
    Server s; s.threads = pick_threads(); s.prom = true; s.repl = true;
    s.flush = pick<int>(ST_W, {300, 5, 1}); s.prune = pick<int>(ST_W, {120, 5});
    s.settings = "settings"; s.files_dir = choose(ST_W, 2) ? "files" : "";
    start(0, s);
    Str only = param("port");
    Sender keep; if (!keep.open(0, client_ip(3))) violation("connect", "the sample port does not accept a connection");
    int64_t t0 = wall_s(0); int sent = 0;
    auto probe_all = [&](const char *when) {
        must_answer(0, when);
        Str st = admin(0, "stats");
        if (st.empty()) violation("unresponsive", fmt("the admin port does not answer %s", when));
        // hostile commands may delete the counter at any time
        int64_t until = now_ns + 30 * SEC; Str name = fmt("probe.x%d", ++sent);
        for (int i = 0;; i++) {
            if (i % 10 == 0 && !keep.send(fmt("%s %lld 1\n", name.c_str(), (long long)t0))) violation("unresponsive", fmt("an honest sample connection is dead %s", when));
            settle();
            QRes q = query(0, name, t0 - 50, t0 + 10);
            if (q.b[t0].n > 0 && q.b[t0].n <= i / 10 + 1) break;
            if (q.b[t0].n || now_ns > until) violation("unresponsive", fmt("%d samples of an honest client are recorded %s, %d were sent", (int)q.b[t0].n, when, i / 10 + 1));
            sleep_ns(200 * MS);
        }
        count("checked");
    };
    probe_all("at the start");
    int rounds = 1 + choose(ST_W, 3);
    for (int r = 0; r < rounds; r++) {
        int k = 1 + choose(ST_W, 5); std::vector<Thread *> th; std::vector<int> open;
        for (int c = 0; c < k; c++) th.push_back(spawn(-1, "fuzzer", [&, c]() {
            for (int n = 1 + choose(ST_W, 4); n > 0; n--) {
                int kind = only.size() ? atoi(only.c_str()) : (int)choose(ST_W, 12); int port; Str d;
                if (kind < 3) { port = P_STAT; d = stat_input(); }
                else if (kind < 8) { port = P_HTTP; d = http_input(); }
                else if (kind < 10) { port = P_ADMIN; d = admin_input(); }
                else if (kind < 11) { port = P_REPL; d = repl_input(); }
                else { port = P_PROM; d = http_input(); }
                if (choose(ST_W, 16) == 15) d = rbytes(200);
                if (choose(ST_W, 10) == 9) d.resize(choose(ST_W, d.size() + 1));
                note("port %d gets %s", port, text(d, 1500).c_str());
                if (port == P_STAT && choose(ST_W, 3) == 2) { c_udp(client_ip(20 + c), node_ip(0), P_STAT, d.substr(0, 60000)); count("datagrams"); sleep_ns(choose(ST_W, 100) * MS); continue; }
                int fd = c_connect(client_ip(20 + c), node_ip(0), port, 30 * SEC);
                if (fd < 0) violation("unresponsive", fmt("port %d does not accept a connection", port));
                count("hostile_connections");
                size_t cut = choose(ST_W, 2) ? d.size() : choose(ST_W, d.size() + 1);
                c_send(fd, d.substr(0, cut), 5 * SEC); if (choose(ST_W, 2)) sleep_ns(choose(ST_W, 300) * MS); if (cut < d.size()) c_send(fd, d.substr(cut), 5 * SEC);
                switch (choose(ST_W, 6)) {
                case 0: c_reset(fd); break;
                case 1: c_shut_wr(fd); { Str o; c_recv(fd, o, 1 * SEC); } c_close(fd); break;
                case 2: sleep_ns(choose(ST_W, 1000) * MS); c_close(fd); break;
                case 3: { Str o; while (c_recv(fd, o, 2 * SEC) > 0); c_close(fd); break; }
                case 4: open.push_back(fd); break;                                   // left open while others are served
                default: c_close(fd);
                }
            }
        }));
        if (choose(ST_W, 2)) probe_all("while hostile clients are at work");
        for (auto t : th) join(t);
        sleep_s(1 + choose(ST_W, 8)); 
        probe_all("while hostile connections are open");
        for (int fd : open) { if (choose(ST_W, 2)) c_reset(fd); else c_close(fd); }
        sleep_s(1); 
        probe_all("after hostile connections ended");
    }
    flush_node(0);
    sleep_s(choose(ST_W, 40));
    probe_all("at the end");
    keep.close();
}
