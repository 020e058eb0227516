// Scenario framework and client library.
#pragma once
#include "core.h"
#include "net.h"
#include "fs.h"
#include <map>
#include <string>
#include <vector>
#include <utility>
#include <math.h>

namespace sim {
struct Scenario { const char *name; void (*fn)(); };
Scenario const *find_scenario(const std::string &name);
void list_scenarios();
void preload_libs();
void scenario_prologue();
void scenario_epilogue();
extern int g_fill;
extern std::map<std::string, std::string> g_params;
std::string param(const std::string &k, const std::string &d = "");
struct Reg { Reg(const char *n, void (*f)()); };
#define SCENARIO(n) static void scen_##n(); static sim::Reg reg_##n(#n, scen_##n); static void scen_##n()

typedef std::string Str;
typedef std::vector<std::string> Strs;
static const int64_t SEC = 1000000000LL, MS = 1000000LL;
enum { P_STAT = 8111, P_HTTP = 8000, P_ADMIN = 8112, P_REPL = 8113, P_PROM = 8114, P_SPLIT = 8115 };

// ---------------------------------------------------------------- JSON
struct J {
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false; double n = 0; Str s; std::vector<J> a; std::vector<std::pair<Str, J>> o;
    J const *get(const Str &k) const;
    bool has(const Str &k) const { return get(k) != nullptr; }
    double num(const Str &k, double d = NAN) const { J const *x = get(k); return x && x->t == NUM ? x->n : d; }
    Str str(const Str &k) const { J const *x = get(k); return x && x->t == STR ? x->s : ""; }
};
bool json_parse(const Str &s, J &out);
Str json_str(const Str &s);

// ---------------------------------------------------------------- HTTP
struct Resp {
    int code = 0;                 // 0: none
    Str err;                      // why there is no well-formed response
    std::map<Str, Str> hdr;       // lower-case names
    Str body, raw;
    bool ok() const { return err.empty(); }
};
struct HttpOpt {
    int64_t timeout = 60 * SEC;
    bool gzip = false;
    int port = P_HTTP;
    int pieces = 0;               // extra cuts of the request
    int64_t gap = 0;              // between pieces
    size_t rd_chunk = 65536; int64_t rd_gap = 0;
    Str extra_headers;
    uint32_t ip = 0;
};
Str http_request(const Str &method, const Str &target, const Str &body, const HttpOpt &o);
Resp http_read(int fd, const HttpOpt &o);
Resp http_raw(int node, const Str &req, const HttpOpt &o);
Resp http(int node, const Str &method, const Str &target, const Str &body = "", HttpOpt o = HttpOpt());
// like http(), but no well-formed response is a violation (NodeDown is thrown instead when the node has been killed meanwhile, if asked for)
struct NodeDown {};
extern bool g_throw_when_down;
// response is a violation
Resp must_http(int node, const Str &method, const Str &target, const Str &body = "", HttpOpt o = HttpOpt());

// ---------------------------------------------------------------- counters
struct Agg {
    int64_t n = 0; double sum = 0, sq = 0, mn = 0, mx = 0;
    void add(double v) { add(1, v, v * v, v, v); }
    void add(int64_t c, double s, double q, double lo, double hi) { if (!n) { mn = lo; mx = hi; } else { if (lo < mn) mn = lo; if (hi > mx) mx = hi; } n += c; sum += s; sq += q; }
    void add(const Agg &a) { if (a.n) add(a.n, a.sum, a.sq, a.mn, a.mx); }
    bool operator==(const Agg &o) const { return n == o.n && sum == o.sum && sq == o.sq && mn == o.mn && mx == o.mx; }
    Str str() const { return fmt("n=%lld sum=%g sq=%g min=%g max=%g", (long long)n, sum, sq, mn, mx); }
};
typedef std::map<int64_t, Agg> Series;     // bucket time -> aggregate
Series fold(const Series &s, int64_t interval);
struct QRes {
    bool found = false; Str err; int64_t start = 0, end = 0, interval = 0;
    Series b;                               // buckets with a count
    Str raw;
};
QRes query(int node, const Str &name, int64_t start, int64_t end, int samples = 0, HttpOpt o = HttpOpt());
std::map<Str, QRes> mquery(int node, const Strs &names, int64_t start, int64_t end, int samples = 0, bool compact = false, HttpOpt o = HttpOpt());
struct Listed { Str name; bool leaf; int type; };
std::vector<Listed> listing(int node, const Str &pattern, HttpOpt o = HttpOpt());
std::map<Str, int> leafs(int node, const Str &pattern);   // name -> times listed
std::map<Str, int> listed(int node, const Str &pattern);  // with branches
// compares what the node reports for a counter with the samples sent to it (1 s resolution), at every retention
struct Verify { int64_t span = 50; const char *cls = "count"; bool multi = false; bool all = true; HttpOpt o; };
void verify_counter(int node, const Str &name, const Series &want, int64_t tref, Verify v = Verify());
// what the circular files of one counter hold: samples are added in the order in which the daemon handles them
struct Rings {
    std::vector<int64_t> iv = {1, 10, 60}, n = {512, 512, 512};
    std::vector<Series> s; std::vector<int64_t> last;
    Rings() {}
    void create(int64_t t);                // when the daemon makes the files
    bool empty() const { return s.empty(); }
    bool add(int64_t t, const Agg &a);     // false: too old for every ring
    bool add(int64_t t, double v) { Agg a; a.add(v); return add(t, a); }
    int expected_ring(int64_t start) const;   // -1: none
    // "" if the answer is what the rings hold for the range
    Str check(const QRes &q, int64_t start, int64_t end, int samples) const;
};
Str random_name(int maxdepth = 4);
Strs random_names(int n);
Strs expand(const Str &name);             // a^b^c -> a.b, a.c
Str diff(const Series &want, const Series &got, size_t max = 4);

// ---------------------------------------------------------------- admin
struct Admin {
    int fd = -1; Str buf;
    bool open(int node, uint32_t ip = 0);
    bool send(const Str &s);
    // reads lines up to and including the one that ends an answer; false on time-out or disconnect
    bool answer(Str &out, int64_t timeout = 120 * SEC);
    void close();
};
Str admin(int node, const Str &cmd, int64_t timeout = 120 * SEC);   // "" if not answered
void flush_node(int node, int64_t timeout = 300 * SEC);             // violation if not answered ok
std::map<Str, Str> admin_stats(int node);

// ---------------------------------------------------------------- samples
struct Sender {
    int fd = -1; int node = 0; uint32_t ip = 0;
    bool open(int node, uint32_t ip = 0, int64_t timeout = 30 * SEC);
    bool send(const Str &s, int64_t timeout = 60 * SEC);
    void close();
};

// ---------------------------------------------------------------- servers
struct Server {
    Str store = "store";              // empty: agent without store
    Str retention = "1s:1m,10s:10m,1m:1h";
    int flush = 300, threads = 0, prune = 120, min_space = -1;
    bool recursive = true;
    int master = -1; Str agent_addr; int agent_count = 1, agent_interval = 10;
    bool http = true, admin = true, prom = false, repl = false, stat = true;
    Str settings, blacklist; int blacklist_period = 60; Str files_dir;
    Strs extra;
    Strs args() const;
};
int pick_threads();
void start(int node, const Server &s);                    // and waits until it listens
bool start_try(int node, const Server &s, int64_t wait);
void crash(int node);                                      // kills it now
Str store_dir(int node, const Server &s);                  // harness path
int64_t wall_s(int node = -1);                             // seconds
Str text(const Str &s, size_t max = 200);                  // printable
bool answers(int node, int64_t timeout = 60 * SEC);        // serves a well-formed request
void must_answer(int node, const char *when);
void wait_until(int64_t t);                                // simulated monotonic ns
extern bool g_settle_ok;
void sleep_s(double s);
}
using namespace sim;
