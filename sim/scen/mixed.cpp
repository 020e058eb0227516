// C23: everything at once, with few names, so that the parts meet: no crash, no bad access, no deadlock, and everybody is answered.
#include "../scen.h"
#include <set>
SCENARIO(mixed) {
    int nodes_n = 1 + (choose(ST_W, 3) == 2);
    Server s; s.threads = pick<int>(ST_W, {2, 3, 4, 4}); s.flush = pick<int>(ST_W, {1, 1, 5, 300}); s.prune = pick<int>(ST_W, {1, 2, 120}); s.prom = s.repl = true; s.settings = "settings";
    s.blacklist = g_root + "/n0/bl"; s.blacklist_period = 1 + choose(ST_W, 3); h_mkdirs(g_root + "/n0/settings"); h_write_file(s.blacklist, "badhost\n");
    bool trail = choose(ST_W, 3) == 2; if (trail) s.retention = "1s:1m,10s:10m,10s:1h:ma:0.5";
    start(0, s);
    Server a; a.store = ""; a.master = 0; a.threads = pick_threads(); a.agent_interval = pick<int>(ST_W, {1, 10}); a.agent_count = 1 + choose(ST_W, 2);
    if (nodes_n == 2) start(1, a);
    int pool = pick<int>(ST_W, {3, 8, 40}), depth = 1 + choose(ST_W, 2), work = 6 + choose(ST_W, 50);
    bool pile = choose(ST_W, 2);          // everybody acts in the same moments
    auto nm = [&]() { Str n = "s"; for (int i = choose(ST_W, depth + 1); i >= 0; i--) n += fmt(".%c%d", 'a' + i, (int)choose(ST_W, pool)); return n; };
    auto pause = [&]() { if (pile) { int64_t t = now_ns - now_ns % (100 * MS) + 100 * MS; if (choose(ST_W, 3) == 0) sleep_ns(t - now_ns); } else if (choose(ST_W, 3)) sleep_ns(choose(ST_W, 60) * MS); };
    auto lines = [&]() {
        Str o; for (int i = choose(ST_W, 12); i >= 0; i--) switch (choose(ST_W, 8)) {
        case 0: o += "#class c" + fmt("%d\n", (int)choose(ST_W, 5)); break;
        case 1: o += "#hostname " + Str(pick<const char *>(ST_W, {"h1", "badhost", "h2"})) + "\n"; break;
        case 2: case 3: o += "*" + nm() + "^host.h" + fmt("%d %lld %d\n", (int)choose(ST_W, 3), (long long)(wall_s(0) - choose(ST_W, 9)), (int)choose(ST_W, 9)); break;
        case 4: o += nm() + fmt("^x^y %d\n", (int)choose(ST_W, 9)); break;
        case 5: o += nm() + fmt(" %lld %d\n", (long long)(wall_s(0) - choose(ST_W, 700) + choose(ST_W, 70)), (int)choose(ST_W, 9)); break;
        default: o += nm() + fmt(" %d\n", (int)choose(ST_W, 9)); }
        return o;
    };
    HttpOpt o; o.timeout = 120 * SEC; int64_t fl = 0;
    std::vector<Thread *> th;
    for (int k = 3 + choose(ST_W, 6); k > 0; k--) th.push_back(spawn(-1, "client", [&, k]() {
        Sender x; Admin ad; HttpOpt h = o; h.ip = client_ip(20 + k);
        for (int i = 0; i < work; i++) {
            pause();
            int n = nodes_n == 2 ? (int)choose(ST_W, 2) : 0; int64_t now = wall_s(0);
            switch (choose(ST_W, 16)) {
            case 0: case 1: case 2: if (x.fd < 0 && !x.open(n, client_ip(20 + k))) { violation("connect", "the sample port does not accept"); } if (!x.send(lines())) x.close(); if (choose(ST_W, 5) == 4) { choose(ST_F, 2) ? c_reset(x.fd) : c_close(x.fd); x.fd = -1; } break;
            case 3: c_udp(client_ip(20 + k), node_ip(n), P_STAT, nm() + " 1\n" + nm() + " 2\n"); break;
            case 4: must_http(0, "GET", "/" + nm() + fmt("?start=%lld&end=%lld&samples=%d%s", (long long)now - (choose(ST_W, 2) ? 50 : 900), (long long)now + 5, (int)choose(ST_W, 90), trail && choose(ST_W, 2) ? "&trailing=1" : ""), "", h); break;
            case 5: { std::set<Str> u; for (int j = choose(ST_W, 5); j >= 0; j--) u.insert(nm()); Strs l(u.begin(), u.end()); mquery(0, l, now - 60, now, 100, false, h); break; }
            case 6: must_http(0, "GET", "/?q=" + Str(pick<const char *>(ST_W, {"*", "s.a1*", "s.*", "none*", "istatd*"})), "", h); break;
            case 7: must_http(n, "GET", "/?a=*", "", h); break;
            case 8: if (choose(ST_W, 2)) must_http(0, "GET", "/?s=set&sk=*", "", h); else must_http(0, "POST", "/?s=set", fmt("{\"k%d\":\"v%d\"}", (int)choose(ST_W, 4), (int)choose(ST_W, 99)), h); break;
            case 9: { HttpOpt p = h; p.port = P_PROM; must_http(0, "GET", "/metrics", "", p); break; }
            case 10: case 11: { Str c = choose(ST_W, 4) ? "delete.ctr " + nm() : "delete.pattern " + nm().substr(0, 4) + "*"; if (admin(0, c, 300 * SEC).empty()) violation("admin", c + " is not answered"); count("deletes"); break; }
            case 12: { Str c = pick<const char *>(ST_W, {"flush", "stats", "flush.setting set", "load.setting set", "purge 1,1", "debug statStore,off", "loglevel 0"}); if (admin(n, c, 600 * SEC).empty() && n == 0) violation("admin", c + " is not answered"); break; }
            case 13: { int fd = c_connect(client_ip(20 + k), node_ip(0), pick<int>(ST_W, {P_HTTP, P_PROM, P_ADMIN, P_REPL, P_STAT}), 30 * SEC); if (fd < 0) break; c_send(fd, pick<const char *>(ST_W, {"GET /?q=* HTTP/1.0\r\n\r\n", "stats\r\n", "flush\r\n", "POST /* HTTP/1.0\r\nContent-Length: 9\r\n\r\n{", "\1\0\0\0\x40"}), SEC); if (choose(ST_W, 2)) sleep_ns(choose(ST_W, 30) * MS); choose(ST_F, 2) ? c_reset(fd) : c_close(fd); fault("client_gone"); break; }
            case 14: h_write_file(s.blacklist, choose(ST_W, 2) ? "h1\nbadhost\n" : ""); h_touch_mtime(s.blacklist, choose(ST_W, 2000) * MS); break;
            default: if (choose(ST_F, 4) == 3) { FsFault f; f.kind = pick<FsFaultKind>(ST_F, {FF_ENOSPC, FF_EIO_WRITE, FF_EMFILE, FF_EACCES, FF_EIO_READ, FF_SHORT_WRITE}); f.node = 0; f.match = "/n0/store/s"; f.ppm = pick<uint32_t>(ST_F, {1000000, 300000}); f.until = now_ns + choose(ST_F, 4000) * MS; fs_faults.push_back(f); fl = std::max(fl, f.until); }
                     else if (nodes_n == 2 && choose(ST_F, 3) == 2) { net_reset_between(0, 1); }
            }
            count("actions");
        }
        x.close();
    }));
    for (auto t : th) join(t);
    if (fl > now_ns) wait_until(fl);
    fs_clear_faults(0);
    settle();
    // everything is still served
    must_answer(0, "after the clients"); if (nodes_n == 2) admin_stats(1);
    flush_node(0, 900 * SEC);
    HttpOpt p = o; p.port = P_PROM; if (must_http(0, "GET", "/metrics", "", p).code != 200) violation("unresponsive", "the metrics are not served");
    int64_t t = wall_s(0); Sender x; if (!x.open(0)) violation("connect", "the sample port does not accept");
    x.send(fmt("final.ctr %lld 7\n*final.ev %lld 3\n", (long long)t, (long long)t)); settle(); sleep_s(2);
    QRes q = query(0, "final.ctr", t - 3, t + 1); if (q.b.size() != 1 || q.b[t].sum != 7) violation("wedged", "a sample is not recorded any more: " + diff(Series(), q.b) + q.err);
    if (!listed(0, "final*").count("final.ev")) violation("wedged", "a new counter is not listed");
    if (must_http(0, "POST", "/?s=set", "{\"end\":\"1\"}", o).code != 200) violation("wedged", "a setting is not taken");
    count("checked");
}
