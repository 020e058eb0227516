// C20, C21, C22: connections come and go, are listed on the blacklist, and everything they held is released.
#include "../scen.h"
#include <set>
#include <algorithm>
#include <ctype.h>
namespace {
struct State { int64_t t; std::set<Str> hosts; bool readable = true; };          // what the file says from t on
struct Smp { int64_t sec; int64_t sent, done; Str host; bool after_host; };
struct Conn { int fd = -1; Str host; std::map<Str, Str> meta; bool spoke = false; };
Str lower(Str s) { for (auto &c : s) c = tolower(c); return s; }
}
SCENARIO(conns) {
    Server s; s.threads = pick_threads(); s.prom = s.repl = true; s.flush = pick<int>(ST_W, {300, 5});
    bool bl = param("bl") == "1", churn = param("churn") == "1";
    int period = 1; std::vector<State> hist; Str path;
    Strs hosts = {"h1", "h10", "h2.example", "H3"};
    auto file_of = [&](const std::set<Str> &h, bool nl) { Str o; for (auto &x : h) { Str y = x; if (x.size() > 1 && choose(ST_W, 4) == 3) y[0] = toupper(y[0]); o += y + "\n"; if (choose(ST_W, 5) == 4) o += "\n"; } if (!nl && o.size()) o.pop_back(); return o; };
    auto parse = [&](const Str &c) { std::set<Str> r; Str x; for (char ch : c + "\n") if (ch == '\n') { if (x.size()) r.insert(lower(x)); x = ""; } else x += ch; return r; };
    auto random_set = [&]() { std::set<Str> r; for (auto &h : hosts) if (choose(ST_W, 2)) r.insert(lower(h)); for (int i = choose(ST_W, 3); i > 0; i--) r.insert(fmt("other%d", i)); return r; };
    if (bl) {
        s.blacklist = "blacklist"; period = s.blacklist_period = pick<int>(ST_W, {1, 3, 10, 40000});
        path = store_dir(0, s); path = path.substr(0, path.rfind('/')); h_mkdirs(path); path += "/blacklist";
        State st; st.t = 0;
        if (choose(ST_W, 4)) { Str c = file_of(random_set(), choose(ST_W, 2)); h_write_file(path, c); st.hosts = parse(c); }
        hist.push_back(st);
    }
    start(0, s);
    int nc = 1 + choose(ST_W, 4); int64_t slack = (sched.stall_ppm || fs_slow_ppm ? 8 : 2) * SEC;
    std::vector<std::vector<Smp>> smp(nc); std::vector<Conn> conn(nc);
    auto ctr = [](int c) { return fmt("cl.c%d", c); };
    { Sender x; if (!x.open(0, client_ip(90))) violation("setup", "no connection"); Str o; for (int c = 0; c < nc; c++) o += fmt("%s %lld 7\n", ctr(c).c_str(), (long long)wall_s(0) - 100); x.send(o + "#warm up\n"); x.close(); }
    // descriptors in a quiet state, apart from those of the counters
    auto quiet_fds = [&](Str &list) -> int {
        settle();
        int n = node_fds(0); list = node_fd_list(0);
        int files = 0; for (size_t p = 0; (p = list.find("file:", p)) != Str::npos; p++) { size_t e = list.find(';', p); Str x = list.substr(p, e - p); size_t m = x.rfind(" x"); if (x.find("/" + s.store + "/") != Str::npos) files += m == Str::npos ? 1 : atoi(x.c_str() + m + 2); }
        return n - files;
    };
    http(0, "GET", "/?q=*"); admin(0, "stats"); { HttpOpt o; o.port = P_PROM; http(0, "GET", "/metrics", "", o); }
    for (int p : {P_STAT, P_HTTP, P_ADMIN, P_PROM, P_REPL}) { int fd = c_connect(client_ip(91), node_ip(0), p, 20 * SEC); if (fd >= 0) { sleep_ns(100 * MS); c_close(fd); } }
    sleep_s(12); Str l0, l1; int base = quiet_fds(l0);
    // hosts on the file between two times, as the daemon may know it
    auto possible = [&](const Str &h, int64_t from, int64_t to, bool &yes, bool &no) {
        yes = no = false; int64_t need = from - period * SEC - slack; Str x = lower(h);
        for (size_t i = hist.size(); i-- > 0;) {
            if (hist[i].t > to + slack) continue;
            int64_t end = i + 1 < hist.size() ? hist[i + 1].t : INT64_MAX;
            if (end < need) break;
            if (!hist[i].readable) { if (end != INT64_MAX) need = std::min(need, hist[i].t - period * SEC - slack); else need = std::min(need, hist[i].t - period * SEC - slack); continue; }
            (hist[i].hosts.count(x) ? yes : no) = true;
        }
    };
    int left = nc; bool stop = false; int rounds = 3 + choose(ST_W, 12); std::vector<Thread *> th;
    auto check_conn = [&](int c, Smp &m) {
        Conn &k = conn[c];
        if (!bl || !m.after_host) { return; }
        sleep_ns(slack); Str b; int r = c_recv(k.fd, b, 1 * MS); bool closed = r == 0 || r == -1;
        bool yes, no; possible(m.host, m.sent, m.done, yes, no);
        if (yes && !no) { if (!closed) violation("open", m.host + " is on the blacklist, but its connection is still open after it sent a sample"); count("checked"); count("cut"); }
        if (no && !yes) { if (closed) violation("cut", m.host + " is not on the blacklist, but its connection was closed"); count("checked"); count("let_in"); }
        if (closed) { c_close(k.fd); k = Conn(); }
    };
    for (int c = 0; c < nc; c++) th.push_back(spawn(-1, "client", [&, c]() {
        Conn &k = conn[c]; int64_t last = 0;
        for (int i = 0; i < rounds; i++) {
            if (k.fd < 0) {
                k = Conn(); k.fd = c_connect(client_ip(1 + c), node_ip(0), P_STAT, 30 * SEC);
                if (k.fd < 0) { violation("accept", "a connection is not accepted"); }
            }
            int what = choose(ST_W, 8);
            if (what <= 1 || (bl && k.host.empty() && what < 6)) {
                Str o;
                if (k.host.empty() || choose(ST_W, 3) == 2) { k.host = hosts[choose(ST_W, hosts.size())]; k.meta["hostname"] = k.host; o += "#hostname " + k.host + "\n"; }
                for (int n = pick<int>(ST_W, {0, 1, 2, 3, 20}); n > 0; n--) { Str key = fmt("k%d", (int)choose(ST_W, 25)), v = Str(pick<int>(ST_W, {1, 5, 40, 300}), 'a' + choose(ST_W, 26)); k.meta[key] = v; o += "#" + key + " " + v + "\n"; }
                if (o.empty()) continue;
                k.spoke = true; bool was = true;
                // a connection of a listed host ends with whatever it sends
                bool yes, no; int64_t t = now_ns; was = c_send(k.fd, o, 30 * SEC); (void)was;
                if (bl) { sleep_ns(slack); Str b; int r = c_recv(k.fd, b, 1 * MS); if (r == 0 || r == -1) { possible(k.host, t, now_ns, yes, no); bool y2 = false; for (auto &h : hosts) { bool a, d; possible(h, t, now_ns, a, d); y2 |= a; } if (!y2) violation("cut", "a connection was closed, none of the hosts is on the blacklist"); c_close(k.fd); k = Conn(); } }
            } else if (what <= 4) {
                while (wall_s(0) <= last) sleep_ns(200 * MS);
                Smp m; m.sec = last = wall_s(0); m.host = k.host; m.after_host = k.host.size(); m.sent = now_ns; k.spoke = true;
                bool ok = c_send(k.fd, fmt("%s %lld 1\n", ctr(c).c_str(), (long long)m.sec), 30 * SEC); m.done = now_ns;
                if (!ok && !bl) violation("cut", "a connection was closed by the daemon");
                smp[c].push_back(m); check_conn(c, m);
            } else if (what == 5) { sleep_ns(choose(ST_W, 15000) * MS); }
            else if (what == 6 && k.fd >= 0) {
                switch (choose(ST_F, 4)) { case 0: c_close(k.fd); break; case 1: sleep_ns(slack); c_reset(k.fd); fault("client_reset"); break; case 2: if (choose(ST_F, 2)) { c_send(k.fd, "half.a.line 1", SEC); sleep_ns(choose(ST_F, 200) * MS); } c_close(k.fd); break;
                case 3: c_shut_wr(k.fd); sleep_ns(slack); { Str b; int r = c_recv(k.fd, b, SEC); if (r == -2) violation("eof", "the daemon does not close a connection whose other end is closed"); } c_close(k.fd); break; }
                k = Conn(); if (choose(ST_W, 2)) sleep_ns(choose(ST_W, 100) * MS);
            } else if (k.fd >= 0) { sleep_ns(slack); net_reset_between(client_ip(1 + c), node_ip(0)); fault("net_reset"); c_close(k.fd); k = Conn(); }
        }
        left--;
    }));
    if (bl) th.push_back(spawn(-1, "editor", [&]() {
        auto write = [&](const Str &c) {
            State st; st.hosts = parse(c); st.t = now_ns; note("blacklist is now %s", text(c).c_str());
            hist.push_back(st); h_write_file(path, c); sleep_ns(MS);
        };
        while (left) {
            switch (choose(ST_F, 9)) {
            case 0: case 1: case 2: write(file_of(random_set(), choose(ST_W, 2))); break;
            case 3: { Str c = file_of(random_set(), true); size_t cut = choose(ST_F, c.size() + 1); write(c.substr(0, cut)); sleep_ns(pick<int>(ST_F, {0, 1, 300}) * MS); write(c); break; }      // in place, in two steps
            case 4: { Str c = file_of(random_set(), true); State st; st.hosts = parse(c); st.t = now_ns; hist.push_back(st); h_write_file(path + ".new", c); h_touch_mtime(path + ".new", -(int64_t)choose(ST_F, 5000) * SEC); ::rename((path + ".new").c_str(), path.c_str()); note("blacklist replaced by %s", text(c).c_str()); fault("older_file"); break; }
            case 5: { State st; st.t = now_ns; st.readable = false; hist.push_back(st); h_unlink(path); fault("blacklist_removed"); break; }
            default: { FsFault f; f.kind = pick<FsFaultKind>(ST_F, {FF_EACCES, FF_EMFILE, FF_EIO_READ, FF_EIO_STAT}); f.node = 0; f.match = "blacklist"; f.ppm = 1000000; State st = hist.back(); State u; u.t = now_ns; u.readable = false; hist.push_back(u); fs_faults.push_back(f); sleep_ns(choose(ST_F, choose(ST_F, 2) ? 10 : 10000) * MS); if (choose(ST_F, 4) && st.readable) { Str c = file_of(random_set(), true); h_write_file(path, c); st.hosts = parse(c); } sleep_ns(choose(ST_F, choose(ST_F, 2) ? 3000 : 15000) * MS); fs_clear_faults(0); st.t = now_ns; hist.push_back(st); break; }
            }
            int64_t d = pick<int64_t>(ST_F, {20, 400, 3000, 12000, 30000}); sleep_ns((10 + choose(ST_F, d)) * MS);
        }
    }));
    int made = 0;
    if (choose(ST_W, 2)) th.push_back(spawn(-1, "watcher", [&]() { while (left) {
        HttpOpt wo; wo.ip = client_ip(95); Resp r = must_http(0, "GET", "/?a=*", "", wo); J j; if (r.code != 200 || !json_parse(r.body, j)) violation("agents", "no list of agents: " + text(r.body, 300));
        sleep_ns(pick<int>(ST_W, {0, 1, 20, 400}) * MS);
    } }));
    if (churn) {
        for (int i = 1 + choose(ST_W, 3); i > 0; i--) th.push_back(spawn(-1, "churn", [&, i]() {
            int port = pick<int>(ST_W, {P_HTTP, P_ADMIN, P_STAT, P_PROM, P_REPL});
            while (left) {
                int fd = c_connect(client_ip(20 + i), node_ip(0), port, 30 * SEC);
                if (fd < 0) { sleep_ns(SEC); continue; }
                static const char *M[] = {"", "GET /metrics HTTP/1.0\r\n\r\n", "GET /?q=* HTTP/1.0\r\n\r\n", "POST /* HTTP/1.1\r\nContent-Length: 100\r\n\r\nabc", "GET /", "stats\r\n", "flush\r\n", "x", "GET /none HTTP/1.0\r\nHost: x\r\n\r\n", "\r\n\r\n", "a.b 1\n#x y\n"};
                c_send(fd, M[choose(ST_W, sizeof M / sizeof *M)], SEC);
                if (choose(ST_W, 2)) sleep_ns(choose(ST_W, 500) * MS);
                switch (choose(ST_F, 4)) { case 0: c_close(fd); break; case 1: c_reset(fd); break; case 2: c_shut_wr(fd); sleep_ns(100 * MS); c_close(fd); break; default: { Str b; c_recv(fd, b, 2 * SEC); c_close(fd); } }
                count("churned"); sleep_ns(choose(ST_W, 1500) * MS);
            }
        }));
        th.push_back(spawn(-1, "counters", [&]() {
            while (left) {
                bool flt = choose(ST_F, 3) == 2;
                if (flt) { FsFault f; f.kind = pick<FsFaultKind>(ST_F, {FF_ENOSPC, FF_EIO_WRITE, FF_EMFILE, FF_EACCES, FF_SHORT_WRITE, FF_EIO_READ}); f.node = 0; f.match = "/churn/"; f.ppm = pick<uint32_t>(ST_F, {1000000, 300000}); fs_faults.push_back(f); }
                Sender x; if (x.open(0, client_ip(30))) { Str o; for (int i = choose(ST_W, 6); i >= 0; i--) o += fmt("%schurn.n%d 1\n", choose(ST_W, 3) ? "" : "*", made++ % 40); x.send(o); x.close(); }
                sleep_ns(choose(ST_W, 2000) * MS);
                if (choose(ST_W, 3) == 2 && !flt) admin(0, "flush", 20 * SEC);
                if (flt) for (size_t i = fs_faults.size(); i-- > 0;) if (fs_faults[i].match == "/churn/") fs_faults.erase(fs_faults.begin() + i);
                if (choose(ST_W, 2)) admin(0, choose(ST_W, 4) ? fmt("delete.ctr churn.n%d", (int)choose(ST_W, 40)) : Str("delete.pattern churn.*"), 20 * SEC);
                sleep_ns(choose(ST_W, 2000) * MS);
            }
        }));
    }
    for (auto t : th) join(t);
    (void)stop;
    settle(); sleep_ns(slack);
    // what is listed
    if (choose(ST_W, 3) == 2) sleep_s(12);
    auto listing_ok = [&]() {
        Resp r = must_http(0, "GET", "/?a=*"); J j; if (r.code != 200 || !json_parse(r.body, j) || !j.get("agents")) violation("agents", "no list of agents: " + text(r.body, 300));
        std::map<Str, const J *> on; size_t n = 0; const J *ag = j.get("agents");
        for (auto &a : ag->a) { n++; const J *o = a.get("_online"); if (!o || o->t != J::BOOL) violation("agents", "an agent without state"); if (!o->b) continue; Str p = a.str("_peer"); if (on.count(p)) violation("agents", p + " is online twice"); on[p] = &a; }
        if (j.num("count") != n) violation("agents", fmt("count says %g, %zu are listed", j.num("count"), n));
        int open = 0;
        for (int c = 0; c < nc; c++) if (conn[c].fd >= 0) {
            open++; Str p = c_local(conn[c].fd);
            if (!on.count(p)) { if (conn[c].spoke) violation("agents", "the connection from " + p + " is not listed as online"); continue; }
            for (auto &m : conn[c].meta) { Str v = on[p]->str(m.first); bool same = m.first == "hostname" && bl ? lower(v) == lower(m.second) : v == m.second; if (!same) violation("meta", p + ": " + m.first + " is \"" + text(v, 60) + "\", announced was \"" + text(m.second, 60) + "\""); }
            for (auto &x : on[p]->o) if (x.first[0] != '_' && !conn[c].meta.count(x.first)) violation("meta", p + " has " + x.first + ", which it did not announce");
            on.erase(p); count("agents_checked");
        }
        for (auto &x : on) violation("agents", x.first + " is listed as online, but not connected");
        return open;
    };
    int open = listing_ok();
    sleep_s(14);
    auto connected = [&](int want) {
        int64_t t = wall_s(0); QRes q = query(0, "istatd.statserver.connected", t - 9 - slack / SEC, t + 1);
        if (q.b.empty()) { if (slack <= 2 * SEC) violation("connected", "no report of the number of connections: " + q.err); return; }
        Agg a = q.b.rbegin()->second; if (a.mn != want || a.mx != want) violation("connected", fmt("%d connections are open, reported are ", want) + a.str());
        count("checked");
    };
    connected(open);
    if (net_conns(0, P_STAT) != open) violation("leak", fmt("%d connections are open at the daemon, %d at the clients", net_conns(0, P_STAT), open));
    for (auto &k : conn) if (k.fd >= 0) { choose(ST_W, 2) ? c_close(k.fd) : c_reset(k.fd); k = Conn(); }
    sleep_s(14); listing_ok(); connected(0);
    for (int p : {P_STAT, P_HTTP, P_ADMIN, P_PROM, P_REPL}) if (net_conns(0, p)) violation("leak", fmt("%d connections are open on port %d after all clients have closed theirs", net_conns(0, p), p));
    int end = quiet_fds(l1);
    if (end != base) violation("leak", fmt("%d descriptors before, %d after:\n%s\n%s", base, end, l0.c_str(), l1.c_str()));
    // one descriptor for each file of each counter that is listed
    std::map<Str, int> want = listed(0, "*"), have; 
    { Str key = "/" + s.store + "/"; for (size_t p = 0; (p = l1.find("file:", p)) != Str::npos; p++) { size_t e = l1.find(';', p); Str x = l1.substr(p + 5, e - p - 5); int n = 1; size_t m = x.rfind(" x"); if (m != Str::npos) { n = atoi(x.c_str() + m + 2); x = x.substr(0, m); } size_t q = x.find(key); if (q == Str::npos) continue; Str c = x.substr(q + key.size()); c = c.substr(0, c.rfind('/')); std::replace(c.begin(), c.end(), '/', '.'); if (n > 1) violation("leak", fmt("%s is open %d times", x.c_str(), n)); have[c] += n; } }
    for (auto &h : have) if (!want.count(h.first)) violation("leak", fmt("%d files of %s are open, which is not listed", h.second, h.first.c_str()));
    for (auto &h : have) if (h.second > 3) violation("leak", fmt("%d files of %s are open", h.second, h.first.c_str()));
    count("checked");
    // what is recorded
    for (int c = 0; c < nc; c++) if (smp[c].size()) {
        int64_t a = smp[c].front().sec, b = smp[c].back().sec; if (wall_s(0) - a > 480) a = wall_s(0) - 480;
        QRes q = query(0, ctr(c), a, b + 1); if (!q.found) violation("lost", ctr(c) + " is not found: " + q.err);
        if (q.interval != 1) harness_error("coarse answer");
        for (auto &m : smp[c]) if (m.sec >= a) {
            bool have = q.b.count(m.sec), yes = false, no = true; if (bl && m.after_host) possible(m.host, m.sent, m.done, yes, no);
            if (have && q.b[m.sec].n != 1) violation("lost", fmt("one sample was sent for %lld: ", (long long)m.sec) + q.b[m.sec].str());
            if (no && !yes && !have) violation("lost", fmt("the sample for %lld of ", (long long)m.sec) + (m.host.empty() ? Str("a client") : m.host) + " is not recorded, it is not on the blacklist");
            if (yes && !no && have) violation("recorded", fmt("the sample for %lld of ", (long long)m.sec) + m.host + " is recorded, it is on the blacklist");
            if (yes != no) count("samples_checked");
        }
    }
}
