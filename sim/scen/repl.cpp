// C28: the replication port: units under any segmentation, one answer each, connections are counted.
#include "../scen.h"
#include <string.h>
namespace {
Str u32(uint32_t v) { return Str((const char *)&v, 4); }
Str unit(uint32_t type, const Str &p) { return u32(type) + u32(p.size()) + p; }
Str conn_unit(uint32_t version, const Str &id, size_t extra) { return unit(1, u32(version) + id + Str(extra, '\x5a')); }
const char *BADV = "Unsupported protocol version";
size_t times(const Str &s, const Str &w) { size_t n = 0, p = 0; while ((p = s.find(w, p)) != Str::npos) { n++; p += w.size(); } return n; }
}
SCENARIO(repl) {
    Server s; s.threads = pick_threads(); s.repl = true; s.flush = pick<int>(ST_W, {300, 2});
    start(0, s);
    size_t idsize = strtoul(param("idsize", "16").c_str(), 0, 10);
    int left = 1 + choose(ST_W, 4);
    int64_t slack = sched.stall_ppm || fs_slow_ppm ? 8 * SEC : 2 * SEC;
    auto current = [&](int want, const char *when) {
        int64_t end = now_ns + 2 * SEC + slack; int got = -1;
        do { settle(); got = atoi(admin_stats(0)["replicaServer.current"].c_str()); if (got == want) break; sleep_ns(100 * MS); } while (now_ns < end);
        if (got != want) violation("count", fmt("%s: %d replication connections are reported, %d are open", when, got, want));
        if (net_conns(0, P_REPL) != want) violation("count", fmt("%s: the daemon holds %d replication connections, %d are open", when, net_conns(0, P_REPL), want));
        count("checked");
    };
    current(0, "at the start");
    std::vector<Thread *> th; int clients = left; std::vector<int> keep;
    for (int k = 0; k < clients; k++) th.push_back(spawn(-1, "replica", [&, k]() {
        for (int round = 1 + choose(ST_W, 6); round > 0; round--) {
            int fd = c_connect(client_ip(30 + k), node_ip(0), P_REPL, 30 * SEC);
            if (fd < 0) violation("connect", "the replication port does not accept a connection");
            Str out; int answers = 0; bool bad = false; bool partial = false, half = false; std::vector<Str> us;
            for (int i = choose(ST_W, 12); i > 0 && !bad; i--) {
                Str id; for (size_t j = 0; j < idsize; j++) id += (char)choose(ST_W, 256);
                switch (choose(ST_W, 12)) {
                case 0: case 1: case 2: case 3: case 4: us.push_back(conn_unit(choose(ST_W, 2) ? 2 : 2 + choose(ST_W, 1 << 30), id, choose(ST_W, 3) ? 0 : choose(ST_W, 9000))); answers++; break;
                case 5: case 6: case 7: case 8: us.push_back(conn_unit(1, id, choose(ST_W, 3) ? 0 : choose(ST_W, 300))); break;
                case 9: if (choose(ST_W, 3) == 2) { us.push_back(unit(choose(ST_W, 2) ? 3 : 4 + choose(ST_W, 1000), Str(choose(ST_W, 40), 'x'))); bad = true; } break;      // not now, or not known
                case 10: if (choose(ST_W, 3) == 2) { us.push_back(unit(1, Str(choose(ST_W, 4 + idsize), 'y'))); bad = true; } break;                                      // too short
                default: if (i == 1) { Str u = conn_unit(2, id, 100); us.push_back(u.substr(0, choose(ST_W, u.size()))); partial = true; } }
            }
            for (auto &u : us) out += u;
            if (!bad && !partial && choose(ST_W, 8) == 7) { out += u32(1) + u32(pick<uint32_t>(ST_W, {0xffffffffu, 0x7fffffffu, 0x80000000u, 1 << 20})) + Str(choose(ST_W, 3000), 'z'); partial = true; probe("huge_unit"); }
            // in pieces
            Str in; bool sent = true; size_t p = 0;
            int mode = choose(ST_W, 4);
            while (p < out.size() && sent) {
                size_t n = mode == 0 ? out.size() : mode == 1 ? 1 + choose(ST_W, 12) : 1 + choose(ST_W, 900);
                if (mode == 1 && p > 300) n = out.size();
                n = std::min(n, out.size() - p); sent = c_send(fd, out.substr(p, n), 30 * SEC); p += n;
                if (choose(ST_W, 3) == 0) sleep_ns(choose(ST_W, 40) * MS);
            }
            if (!sent && !bad) violation("dropped", "the daemon ends the connection after correct units");
            if (!partial && !bad && choose(ST_W, 3) == 2) { c_shut_wr(fd); half = true; }   // answers that are not out yet are lost with it
            else if (choose(ST_F, 5) == 4) { if (choose(ST_F, 2)) c_reset(fd); else c_close(fd); fault("replica_disconnect"); continue; }
            int64_t end = now_ns + slack; Str b; bool over = false;
            while (now_ns < end) { b.clear(); int r = c_recv(fd, b, end - now_ns); in += b; if (r <= 0) { if (now_ns < end) over = true; break; } if (!bad && times(in, BADV) > (size_t)answers) break; }
            size_t got = times(in, BADV);
            if (got > (size_t)answers || (!bad && !half && got < (size_t)answers)) violation("answers", fmt("%d units ask for an unsupported version, %zu answers came", answers, got));
            if (bad && !over) violation("bad_unit", "the connection stays after a malformed unit");
            count("checked"); if (answers && !half) count("answered", answers);
            if (!bad && !half && !over && choose(ST_W, 6) == 5) { keep.push_back(fd); continue; }
            choose(ST_W, 2) ? c_close(fd) : c_reset(fd);
        }
        left--;
    }));
    th.push_back(spawn(-1, "other", [&]() { Sender x; x.open(0); while (left) { x.send(fmt("r.n%d %d\n", (int)choose(ST_W, 20), (int)choose(ST_W, 9))); if (choose(ST_W, 5) == 4) flush_node(0); sleep_ns(choose(ST_W, 400) * MS); } x.close(); }));
    for (auto t : th) join(t);
    current(keep.size(), "with those left open");
    for (int fd : keep) choose(ST_F, 2) ? c_close(fd) : c_reset(fd);
    current(0, "at the end");
    must_answer(0, "after the replicas");
}
