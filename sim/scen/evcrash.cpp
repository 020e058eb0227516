// C07 for event counters: an answered flush is a durability barrier; later events do not undo it.
#include "../scen.h"
#include <set>
SCENARIO(evcrash) {
    Server s; s.threads = pick_threads();
    s.flush = pick<int>(ST_W, {300, 5, 2});
    Strs names = random_names(1 + choose(ST_W, 3));
    for (auto &n : names) n = "ev." + n;
    std::map<Str, std::map<int64_t, double>> want;     // what must be there, per second
    std::map<Str, std::map<int64_t, bool>> unsure;     // seconds with events that may have been lost
    start(0, s);
    int cycles = 1 + choose(ST_W, 3);
    int64_t t0 = wall_s(0), closed = 0;
    // the second of an event: this one, or one of the last, unless a flush has closed it
    auto when = [&]() { int64_t t = wall_s(0); if (choose(ST_W, 4) == 3) { int64_t o = t - range(ST_W, 1, 2); if (o > closed && o >= t0) { probe("late_event"); return o; } } return t; };
    auto verify = [&](const char *when) {
        for (auto &n : names) for (int r = 0; r < 2; r++) {
            int64_t iv = r ? 10 : 1, st = (r ? wall_s(0) - 3000 : t0 - 5); st -= st % iv;
            QRes q = query(0, n, st, wall_s(0) + 20);
            bool some = false; for (auto &x : want[n]) if (x.second) some = true;
            if (!some) continue;
            if (q.interval != iv) violation("evflush", fmt("%s, %s: interval %lld reported, expected %lld", n.c_str(), when, (long long)q.interval, (long long)iv));
            std::map<int64_t, double> w; std::map<int64_t, bool> skip;
            for (auto &x : want[n]) w[x.first - x.first % iv] += x.second;
            for (auto &x : unsure[n]) skip[x.first - x.first % iv] = true;
            for (auto &x : w) if (!skip.count(x.first)) {
                double got = q.b.count(x.first) ? q.b[x.first].sum : 0;
                if (got != x.second) violation("evflush", fmt("%s, %s: the %lld s bucket %lld adds up to %g, %g was sent and flushed", n.c_str(), when, (long long)iv, (long long)x.first, got, x.second));
                count("checked");
            }
            for (auto &x : q.b) if (x.second.sum != 0 && !w.count(x.first) && !skip.count(x.first)) violation("evflush", fmt("%s, %s: the %lld s bucket %lld adds up to %g, nothing was sent", n.c_str(), when, (long long)iv, (long long)x.first, x.second.sum));
        }
    };
    // away from the turn of a second, so that the daemon's clock and ours agree
    auto align = [&]() { int64_t ph = wall_ns(0) % SEC; if (ph < 50 * MS) sleep_ns(50 * MS - ph); else if (ph > 500 * MS) sleep_ns(SEC - ph + 50 * MS); };
    for (int cyc = 0; cyc < cycles; cyc++) {
        Sender x; x.open(0);
        for (int i = 1 + choose(ST_W, 5); i > 0; i--) {
            align();
            int64_t t = wall_s(0); Str buf; std::vector<std::pair<Str, std::pair<int64_t, int>>> sent;
            for (int j = 1 + choose(ST_W, 6); j > 0; j--) {
                const Str &n = names[choose(ST_W, names.size())]; int v = 1 + choose(ST_W, 9); int64_t te = when();
                buf += fmt("*%s %lld %d\n", n.c_str(), (long long)te, v); sent.push_back({n, {te, v}});
            }
            x.send(buf); settle();
            if (wall_s(0) != t) { for (auto &e : sent) unsure[e.first][e.second.first] = true; }
            for (auto &e : sent) want[e.first][e.second.first] += e.second.second;
            sleep_ns(choose(ST_W, 1200) * MS);
        }
        settle();
        int64_t fl = wall_s(0);
        flush_node(0);
        if (choose(ST_W, 3) == 2) verify("after the flush");
        bool dokill = choose(ST_F, 4) != 3;
        if (dokill) {
            if (choose(ST_W, 3) == 2) {
                // events that were not flushed
                sleep_ns(SEC - wall_ns(0) % SEC + 50 * MS);
                int64_t t = wall_s(0);
                Str buf; for (auto &n : names) { buf += fmt("*%s %lld 5\n", n.c_str(), (long long)t); want[n][t] += 0; unsure[n][t] = true; }
                x.send(buf); if (choose(ST_W, 2)) settle();
            }
            crash(0); sleep_ns(choose(ST_W, 3) == 2 ? choose(ST_W, 5000) * MS : choose(ST_W, 300) * MS);
            start(0, s); settle(); closed = 0;
            verify("after a restart");
            probe("event_restart");
        } else { closed = fl + 1; if (wall_s(0) <= fl + 1) sleep_ns(SEC - wall_ns(0) % SEC + 50 * MS); }     // seconds that were flushed are closed
        x.close();
    }
    // new events, then everything once more
    Sender x; x.open(0);
    for (int i = 1 + choose(ST_W, 3); i > 0; i--) {
        align();
        int64_t t = wall_s(0); Str buf; std::set<int64_t> used;
        for (auto &n : names) if (choose(ST_W, 3)) { int v = 1 + choose(ST_W, 9); int64_t te = when(); buf += fmt("*%s %lld %d\n", n.c_str(), (long long)te, v); want[n][te] += v; used.insert(te); }
        x.send(buf); settle();
        if (wall_s(0) != t) for (auto &n : names) for (auto te : used) unsure[n][te] = true;
        sleep_ns(choose(ST_W, 1500) * MS);
    }
    if (choose(ST_W, 2)) sleep_s(s.flush < 300 ? 3 * s.flush + 12 : 10);
    flush_node(0);
    verify("after new events");
}
