// C11: streams of lines mean the same in any segmentation; bad lines do not affect the lines around them.
#include "../scen.h"
#include <memory>
static Str word(int maxlen) { Str s; for (int i = 1 + choose(ST_W, maxlen); i > 0; i--) s += "abcdefgXYZ0189_-"[choose(ST_W, 16)]; return s; }
static Str spaces() { static const char *S[] = {" ", " ", " ", "  ", "\t", " \t ", "     "}; return S[choose(ST_W, 7)]; }
// a line that no counter may be changed by; junk names never are the checked ones
static Str bad_line(int64_t t, const Strs &names) {
    const Str &n = names[choose(ST_W, names.size())];
    switch (choose(ST_W, 18)) {
    case 0: return "";
    case 1: return "\r";
    case 2: return n;                                                            // no value
    case 3: return n + " ";
    case 4: return fmt("%s %lld x%d", n.c_str(), (long long)t, (int)choose(ST_W, 99));
    case 5: return fmt("%s now %d", n.c_str(), (int)choose(ST_W, 99));
    case 6: return fmt("%s %lld 1 2", n.c_str(), (long long)t);                  // 4, 5, 6 fields
    case 7: return fmt("%s %lld 1 2 3", n.c_str(), (long long)t);
    case 8: return fmt("%s %lld 1 2 3 4", n.c_str(), (long long)t);
    case 9: return fmt("%s %lld 9 9 5 1 3", n.c_str(), (long long)t);             // minimum above the maximum
    case 10: return fmt("%s %lld 0 0 0 0 0", n.c_str(), (long long)t);            // no samples
    case 11: return Str(1, "@$%&;:"[choose(ST_W, 6)]) + n + fmt(" %lld 7", (long long)t);
    case 12: return "#" + word(6) + (choose(ST_W, 2) ? " " + word(10) : "");
    case 13: { Str g; for (int i = 1 + choose(ST_W, 60); i > 0; i--) { unsigned char c = choose(ST_W, 256); g += c == '\n' ? 'q' : (char)c; } return "\x01" + g; }
    case 14: return Str(pick<int>(ST_W, {255, 300, 5000, 16383, 16384, 40000}), 'a');                // over-long
    case 15: return Str(pick<int>(ST_W, {256, 1000, 20000}), 'a') + fmt(" %lld 3", (long long)t);
    case 16: return fmt("%s %lld %d", n.c_str(), (long long)t + 5000, (int)choose(ST_W, 99));          // too far ahead
    default: return Str(1, (char)(33 + choose(ST_W, 90)));                         // one character
    }
}
SCENARIO(lines) {
    Server s; s.threads = pick_threads(); s.flush = pick<int>(ST_W, {300, 5});
    start(0, s);
    Strs names = random_names(1 + choose(ST_W, 5));
    std::map<Str, Series> want;
    int64_t t0 = wall_s(0);
    std::map<Str, Agg> untimed;          // lines without a time, of few characters
    auto short_line = [&]() { Str n(1, "klmNO"[choose(ST_W, 5)]); if (choose(ST_W, 2)) n += "." + Str(1, "pq"[choose(ST_W, 2)]); int v = choose(ST_W, 12); untimed[n].add(v); count("short_lines"); return n + fmt(" %d", v); };
    auto good_line = [&](int64_t t) {
        const Str &n = names[choose(ST_W, names.size())]; Str l; bool multi = choose(ST_W, 6) == 5;
        Strs to = multi ? Strs{n + ".p", n + ".q"} : Strs{n};
        Str nm = multi ? n + "^p^q" : n;
        if (choose(ST_W, 5) == 4) l += spaces();
        if (choose(ST_W, 3)) { int v = range(ST_W, -30, 30); l += nm + spaces() + fmt("%lld", (long long)t) + spaces() + fmt("%d", v); for (auto &c : to) want[c][t].add(v); }
        else {
            int a = range(ST_W, -9, 9), b = range(ST_W, -9, 9), mn = std::min(a, b), mx = std::max(a, b);
            l += nm; for (int64_t f : {t, (int64_t)a + b, (int64_t)a * a + b * b, (int64_t)mn, (int64_t)mx, (int64_t)2}) l += spaces() + fmt("%lld", (long long)f);
            for (auto &c : to) want[c][t].add(2, a + b, a * a + b * b, mn, mx);
        }
        if (choose(ST_W, 12) == 11) l += Str(pick<int>(ST_W, {3, 100, 5000, 17000}), ' ');
        if (choose(ST_W, 3) == 2) l += "\r";
        return l;
    };
    std::vector<Thread *> th;
    int conns = 1 + choose(ST_W, 4);
    for (int k = 0; k < conns; k++) th.push_back(spawn(-1, "sender", [&, k]() {
        bool udp = choose(ST_W, 4) == 3;
        Str buf; int per = 1 + choose(ST_W, 40); int badp = pick<int>(ST_W, {0, 1, 3, 6});
        for (int i = 0; i < per; i++) {
            if ((int)choose(ST_W, 8) < badp) { Str b = bad_line(t0, names); if (udp && b.size() > 2000) b.resize(2000); buf += b + "\n"; count("bad_lines"); }
            else if (choose(ST_W, 6) == 5) buf += short_line() + "\n";
            else { buf += good_line(t0 + range(ST_W, -20, 20)) + "\n"; count("good_lines"); }
        }
        Str cut = choose(ST_W, 2) ? "" : fmt("%s %lld 1", names[0].c_str(), (long long)t0);      // a last line without its end
        if (udp) {
            // whole lines in each datagram; datagrams that are not lines in between
            size_t p = 0;
            while (p < buf.size()) {
                size_t e = p; for (int k2 = 1 + choose(ST_W, 8); k2 > 0 && e < buf.size(); k2--) e = buf.find('\n', e) + 1;
                Str d = buf.substr(p, e - p); p = e;
                while (d.size() < 5) d += "\n";
                if (d.size() > 60000) violation("harness", "datagram too long");
                c_udp(client_ip(10 + k), node_ip(0), P_STAT, d); count("datagrams");
                switch (choose(ST_W, 8)) {
                case 7: c_udp(client_ip(10 + k), node_ip(0), P_STAT, fmt("%s %lld 1", names[0].c_str(), (long long)t0)); count("bad_datagrams"); break;   // no line end
                case 6: c_udp(client_ip(10 + k), node_ip(0), P_STAT, choose(ST_W, 2) ? Str("") : Str("a\n")); count("bad_datagrams"); break;
                }
                sleep_ns(choose(ST_W, 30) * MS);
            }
            return;
        }
        buf += cut;
        Sender x; if (!x.open(0, client_ip(10 + k))) violation("connect", "the sample port does not accept a connection");
        int mode = choose(ST_W, 5); size_t p = 0;
        while (p < buf.size()) {
            size_t k2;
            switch (mode) {
            case 0: k2 = buf.size(); break;
            case 1: k2 = 1 + choose(ST_W, 3); break;                                  // tiny
            case 2: k2 = 1 + choose(ST_W, 200); break;
            case 3: k2 = buf.find('\n', p); k2 = k2 == Str::npos ? buf.size() : k2 - p + choose(ST_W, 3); if (!k2) k2 = 1; break;   // about the ends of lines
            default: k2 = 1 + choose(ST_W, 20000);
            }
            if (mode == 1 && buf.size() > 3000) k2 += 300;
            k2 = std::min(k2, buf.size() - p);
            if (!x.send(buf.substr(p, k2))) violation("connect", "the daemon ended a connection that sends samples");
            p += k2;
            if (choose(ST_W, 4) == 0) sleep_ns(choose(ST_W, 20) * MS);
        }
        if (choose(ST_W, 2)) settle();
        x.close();
    }));
    for (auto t : th) join(t);
    settle(); sleep_s(5); settle();          // datagrams that wait behind a bad one
    if (net_udp_dropped()) return;
    for (auto &w : want) verify_counter(0, w.first, w.second, wall_s(0));
    for (auto &n : names) if (!want.count(n)) { Verify v; verify_counter(0, n, Series(), wall_s(0), v); }
    for (auto &u : untimed) {
        QRes q = query(0, u.first, t0 - 10, wall_s(0) + 5); Agg got; for (auto &b : q.b) got.add(b.second);
        if (!(got == u.second)) violation("lines", u.first + ": " + got.str() + " is reported for lines without a time, " + u.second.str() + " were sent");
        count("checked");
    }
    if (want.empty()) count("checked");
}
