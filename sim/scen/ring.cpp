// C03: queries report only data of the asked range, never recycled ring data.
#include "../scen.h"
SCENARIO(ring) {
    Server s; s.threads = pick_threads();
    s.flush = pick<int>(ST_W, {300, 60});
    bool back_steps = param("clock") == "1";
    // rings of two pages of 256 buckets, or of more pages than are kept in memory
    int64_t n0 = 512, n1 = 512;
    switch (choose(ST_W, 4)) { case 2: s.retention = "1s:20m,10s:10m,1m:1h"; n0 = 1280; break; case 3: s.retention = "1s:20m,10s:4h,1m:1h"; n0 = 1280; n1 = 1536; break; default: break; }
    start(0, s);
    Strs names = random_names(1 + choose(ST_W, 3));
    std::map<Str, Rings> m;
    Sender x; x.open(0);
    // the first samples make the files; their creation time is the daemon's clock, away from the turn of a second
    sleep_ns(SEC - wall_ns(0) % SEC + 100 * MS);
    {
        int64_t t = wall_s(0); Str buf;
        for (auto &n : names) { buf += fmt("%s %lld 1\n", n.c_str(), (long long)t); m[n].n = {n0, n1, 512}; m[n].create(t); m[n].add(t, 1); }
        x.send(buf); settle();
        if (wall_s(0) != t) { count("abandoned"); return; }
    }
    int ops = 4 + choose(ST_W, 30);
    int64_t oldest = wall_s(0);
    for (int i = 0; i < ops; i++) {
        int64_t now = wall_s(0);
        switch (choose(ST_W, 7)) {
        case 0: case 1: case 2: {     // samples
            Str buf;
            int k = 1 + choose(ST_W, 12);
            int64_t span = pick<int64_t>(ST_W, {1, 30, 200, n0 - 1, n0, n0 + 1, 3000, n1 * 10 + 10, 20000, 30720});
            for (int j = 0; j < k; j++) {
                const Str &n = names[choose(ST_W, names.size())];
                int64_t t = now - choose(ST_W, span);
                if (choose(ST_W, 4) == 0) t = now + choose(ST_W, 60);
                if (choose(ST_W, 8) == 0) t = now - span;
                int v = range(ST_W, -30, 30);
                buf += fmt("%s %lld %d\n", n.c_str(), (long long)t, v);
                m[n].add(t, v);
                if (t < oldest) oldest = t;
            }
            note("send %s", text(buf, 900).c_str()); x.send(buf); settle();
            break; }
        case 3: sleep_s(pick<int>(ST_W, {1, 5, 30})); break;
        case 4: {                     // time passes: the clock is stepped
            int64_t d = pick<int64_t>(ST_W, {61, 200, n0 - 1, n0 + 1, 3000, n1 * 10 + 5, 10000});
            if (back_steps && choose(ST_W, 2)) { d = -pick<int64_t>(ST_W, {1, 59, 100, 1000, 5000}); fault("clock_step_back"); }
            else fault("clock_step_forward");
            node_skew_ns[0] += d * SEC;
            sleep_s(1);
            break; }
        default: {                    // queries
            const Str &n = names[choose(ST_W, names.size())];
            Rings const &r = m[n];
            int64_t ref = choose(ST_W, 2) ? now : r.last[0];
            int64_t st = ref - pick<int64_t>(ST_W, {0, 1, 10, 59, 200, 500, n0 - 2, n0 - 1, n0, n0 + 1, 3000, n1 * 10 - 10, n1 * 10, n1 * 10 + 10, 20000, 30700, 30780});
            if (choose(ST_W, 2)) st += range(ST_W, -30, 30);
            int64_t len = pick<int64_t>(ST_W, {60, 1, 0, 9, 100, 512, 600, 5120, 31000});
            int64_t en = choose(ST_W, 3) ? st + len : now + 1;
            if (en < st) en = st;
            int samples = pick<int>(ST_W, {0, 0, 0, 2, 5, 60, 100, 500, 1});
                Str err;
            if (choose(ST_W, 3) == 2) {
                Strs all = names; all.push_back("no.such.counter");
                bool compact = choose(ST_W, 4) == 3;
                auto q = mquery(0, all, st, en, samples ? samples : 1000000, false);
                for (auto &c : all) if (err.empty()) {
                    if (!m.count(c)) { if (q[c].found && q[c].b.size()) err = c + " has data, none was sent"; continue; }
                    err = m[c].check(q[c], st, en, samples);
                    if (err.size()) err = c + " (multi-counter query): " + err;
                }
                (void)compact;
            } else { QRes q = query(0, n, st, en, samples); err = r.check(q, st, en, samples); if (err.size()) err = n + ": " + err; }
            if (err.size()) violation("ring", fmt("query %lld..%lld (%d samples, now %lld): ", (long long)st, (long long)en, samples, (long long)now) + err);
            count("checked"); if (r.expected_ring(st) >= 0) count(fmt("ring_%d", r.expected_ring(st)));
        } }
    }
    for (auto &r : m) for (int64_t back : {400, 1000, 4000, 12000, 25000}) {
        int64_t st = std::min<int64_t>(wall_s(0), r.second.last[0]) - back, en = std::max<int64_t>(wall_s(0), r.second.last[0]) + 60;
        QRes q = query(0, r.first, st, en);
        Str err = r.second.check(q, st, en, 0);
        if (err.size()) violation("ring", r.first + ", at the end: " + err);
        count("checked");
    }
}
