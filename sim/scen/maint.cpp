// C19: operations of all kinds fail for a while. Afterwards everything periodic is still done.
#include "../scen.h"
SCENARIO(maint) {
    Server s; s.threads = pick_threads(); s.flush = pick<int>(ST_W, {2, 5, 10}); s.prune = pick<int>(ST_W, {3, 5}); s.settings = "settings"; s.prom = true;
    s.blacklist = g_root + "/n0/bl"; s.blacklist_period = pick<int>(ST_W, {2, 3}); h_mkdirs(g_root + "/n0/settings");
    bool bl0 = choose(ST_W, 3) > 0; if (bl0) h_write_file(s.blacklist, "badhost0\n");
    Str store = store_dir(0, s);
    bool early = choose(ST_F, 3) == 2;             // the failures start with the daemon
    auto fail = [&]() {
        int n = 1 + choose(ST_F, 3);
        for (int i = 0; i < n; i++) {
            FsFault f; f.kind = pick<FsFaultKind>(ST_F, {FF_ENOSPC, FF_EIO_WRITE, FF_EIO_READ, FF_SHORT_WRITE, FF_EMFILE, FF_EACCES, FF_EIO_STAT, FF_UNLINK, FF_ENOENT_DIR, FF_RENAME});
            f.node = 0; f.ppm = pick<uint32_t>(ST_F, {1000000, 500000, 100000}); f.match = pick<const char *>(ST_F, {"", "", "store", "istatd", "settings", "/bl"});
            fs_faults.push_back(f); note("failing: kind %d, %u ppm, %s", (int)f.kind, f.ppm, f.match.c_str());
        }
        if (choose(ST_F, 5) == 4) { fs_free_bytes[0] = choose(ST_F, 5) * 1000; fault("disk_full"); }
    };
    int64_t fb = fs_free_bytes[0];
    if (early) {
        // only files and directories that do not exist yet cannot be made: the daemon starts
        FsFault f; f.kind = pick<FsFaultKind>(ST_F, {FF_ENOSPC, FF_EACCES, FF_EMFILE}); f.node = 0; f.match = "/istatd/"; f.left = choose(ST_F, 2) ? INT64_MAX : 1 + choose(ST_F, 40); fs_faults.push_back(f);
    }
    start(0, s);
    Server ag; ag.store = choose(ST_W, 2) ? "" : "store"; ag.master = 0; ag.threads = pick_threads(); ag.agent_interval = pick<int>(ST_W, {10, 3});
    bool agent = choose(ST_W, 3) == 2; if (agent) start(1, ag);
    int64_t slow = sched.stall_ppm || fs_slow_ppm ? 6 : 0;
    Sender x; if (!x.open(0)) violation("connect", "the sample port does not accept a connection");
    Strs names = random_names(1 + choose(ST_W, 4)); for (auto &n : names) n = "g." + n;
    auto give = [&](Sender &to, int node) { Str b; for (int j = 1 + choose(ST_W, 6); j > 0; j--) b += fmt("%s%s %lld %d\n", choose(ST_W, 3) == 2 ? "*e." : "", names[choose(ST_W, names.size())].c_str(), (long long)wall_s(node) - choose(ST_W, 5), range(ST_W, 1, 9)); return to.send(b); };
    int rounds = 1 + choose(ST_W, 2), nn = 0;
    for (int rd = 0; rd < rounds; rd++) {
        for (int i = choose(ST_W, 3); i > 0; i--) { give(x, 0); sleep_ns(choose(ST_W, 2000) * MS); }
        // ---- failures
        if (!early || rd) fail();
        Sender y; if (agent) y.open(1);
        if (agent && choose(ST_F, 3) == 2) { net_partition(0x0a000001, 0x0a000002, true); fault("partition"); }
        int64_t end = now_ns + pick<int>(ST_F, {1, 6, 12, 40}) * SEC;
        while (now_ns < end) {
            switch (choose(ST_W, 9)) {
            case 0: case 1: { if (choose(ST_W, 2)) names.push_back(fmt("new%d.x%d", (int)choose(ST_W, 3), nn++)); if (!give(x, 0)) { x.close(); x.open(0); } break; }
            case 2: if (agent) give(y, 1); break;
            case 3: { Resp r = http(0, "POST", "/?s=set", fmt("{\"a\":\"%d\"}", (int)choose(ST_W, 100))); (void)r; break; }
            case 4: h_write_file(s.blacklist, fmt("badhost%d\n", (int)choose(ST_W, 50) + 100)); break;
            case 5: if (choose(ST_F, 3) == 2) { h_unlink(s.blacklist); fault("blacklist_missing"); } break;
            case 6: { Str r = admin(0, pick<const char *>(ST_W, {"stats", "flush", "purge", "delete.pattern new0.*"}), 2 * SEC); (void)r; break; }
            case 7: { HttpOpt o; o.timeout = 5 * SEC; Resp r = http(0, "GET", "/?q=*", "", o); (void)r; break; }
            default: h_mkdirs(store + fmt("/emptydir%d/sub", (int)choose(ST_W, 5)));
            }
            sleep_ns(range(ST_W, 1, 3000) * MS);
        }
        fs_clear_faults(0); fs_free_bytes[0] = fb; if (agent) { net_partition(0x0a000001, 0x0a000002, false); y.close(); }
        note("no more failures"); must_answer(0, "after the failures");
        // ---- everything is done again
        sleep_s(choose(ST_W, 3));
        Str tag = fmt("r%d", rd); int64_t t0 = now_ns, w0 = wall_s(0);
        x.close(); if (!x.open(0)) violation("connect", "the sample port does not accept a connection");
        Str ga = "after." + tag, host = "BadHost-" + tag;
        x.send(fmt("%s %lld 5\n", ga.c_str(), (long long)w0)); settle();
        h_mkdirs(store + "/empty-" + tag + "/a/b"); h_write_file(s.blacklist, host + "\n");
        if (must_http(0, "POST", "/?s=set", "{\"key." + tag + "\":\"val" + tag + "\"}").code != 200) violation("stalled", "a setting is not taken");
        int ncmd = 1 + choose(ST_W, 4); for (int i = 0; i < ncmd; i++) admin(0, "stats", 20 * SEC);
        if (agent) { Sender z; if (!z.open(1)) violation("connect", "the agent does not take samples"); z.send(fmt("fwd.%s %lld 2\n", tag.c_str(), (long long)wall_s(1))); settle(); z.close(); }
        auto passed = [&]() { return (long long)((now_ns - t0) / SEC); };
        sleep_s(s.blacklist_period + 2 + slow);
        { Sender b; b.open(0, client_ip(40)); b.send("#hostname " + host + "\n"); settle(); b.send(fmt("no.%s %lld 1\n", tag.c_str(), (long long)wall_s(0))); Str in; int r = c_recv(b.fd, in, 5 * SEC); if (r != 0 && r != -1) violation("stalled", fmt("%lld s after the blacklist was changed a host on it is served", passed())); b.close(); count("checked"); }
        sleep_s(s.prune + 2 + slow);
        if (h_exists(store + "/empty-" + tag)) violation("stalled", fmt("%lld s after the failures an empty directory is not removed", passed())); count("checked");
        // (the 5 s the report takes, the 5 s an event stays in memory)
        if (passed() < 14 + slow) sleep_s(14 + slow - passed());
        { QRes q = query(0, "istatd.statserver.connected", wall_s(0) - 9 - slow, wall_s(0) + 1); if (q.b.empty()) violation("stalled", fmt("%lld s after the failures the number of connections is not reported", passed())); count("checked"); }
        { QRes q = query(0, "istatd.admin.commands", w0 - 1, wall_s(0) + 1); double sum = 0; for (auto &b : q.b) sum += b.second.sum; if (sum < ncmd) violation("stalled", fmt("%lld s after the failures the count of admin commands is reported as %g, there were %d", passed(), sum, ncmd)); count("checked"); }
        if (agent) { // (it may be waiting to reconnect)
            int64_t lim = t0 + (200 + 2 * ag.agent_interval + slow) * SEC; while (now_ns < lim && listed(0, "fwd." + tag).empty()) sleep_s(2);
            // what was queued while there was no connection may be gone; what is sent now is not
            if (listed(0, "fwd." + tag).empty()) { Sender z; z.open(1); z.send(fmt("fwd.again.%s %lld 2\n", tag.c_str(), (long long)wall_s(1))); settle(); z.close(); sleep_s(2 * ag.agent_interval + 5 + slow); if (listed(0, "fwd.again." + tag).empty()) violation("stalled", fmt("%lld s after the failures an agent forwards nothing", passed())); }
            count("checked");
        }
        // exported gauges go after 30 to 60 s, settings are saved after 10 s, files are written after the flush interval
        if (passed() < 62 + slow) sleep_s(62 + slow - passed());
        { HttpOpt o; o.port = 8114; Resp r = http(0, "GET", "/metrics", "", o); if (r.code != 200) violation("stalled", fmt("/metrics is answered with %d", r.code)); if (r.body.find("after_" + tag + " 5 ") != Str::npos) violation("stalled", fmt("%lld s after it was received a gauge sample is still exported", passed())); count("checked"); }
        if (choose(ST_F, 2)) {
            sleep_s(std::max<int64_t>(0, s.flush * (slow ? 3 : 1) + 6 + slow - passed()));
            crash(0); x.close(); start(0, s); settle(); x.open(0);
            QRes q = query(0, ga, w0, w0 + 1); if (q.b.size() != 1 || q.b[w0].sum != 5) violation("stalled", fmt("a sample is not in the store %lld s after the failures", passed()));
            Resp r = must_http(0, "GET", "/?s=set&sk=key." + tag); if (r.body.find("val" + tag) == Str::npos) violation("stalled", fmt("a setting is not saved %lld s after the failures: ", passed()) + text(r.body, 100));
            count("checked");
        }
    }
}
