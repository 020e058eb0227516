// JSON, HTTP, admin and sample clients of the harness.
#include "scen.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <zlib.h>
#include <algorithm>

namespace sim {
// ---------------------------------------------------------------- JSON
J const *J::get(const Str &k) const { for (auto &x : o) if (x.first == k) return &x.second; return nullptr; }
struct JP {
    const char *p, *e; bool bad = false;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
    bool lit(const char *s) { size_t n = strlen(s); if ((size_t)(e - p) >= n && !memcmp(p, s, n)) { p += n; return true; } return false; }
    bool str(Str &o) {
        if (p >= e || *p != '"') return false;
        p++;
        while (p < e && *p != '"') {
            unsigned char c = *p++;
            if (c == '\\') {
                if (p >= e) return false;
                char d = *p++;
                switch (d) {
                case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
                case '"': case '\\': case '/': o += d; break;
                case 'u': { if (e - p < 4) return false; unsigned v = strtoul(Str(p, 4).c_str(), 0, 16); p += 4; if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xc0 | v >> 6); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xe0 | v >> 12); o += (char)(0x80 | ((v >> 6) & 63)); o += (char)(0x80 | (v & 63)); } break; }
                default: return false;
                }
            } else if (c < 0x20) return false;
            else o += c;
        }
        if (p >= e) return false;
        p++;
        return true;
    }
    bool val(J &j, int depth) {
        if (depth > 64) return false;
        ws();
        if (p >= e) return false;
        if (*p == '{') {
            p++; j.t = J::OBJ; ws();
            if (p < e && *p == '}') { p++; return true; }
            for (;;) {
                ws(); Str k; if (!str(k)) return false;
                ws(); if (p >= e || *p++ != ':') return false;
                j.o.emplace_back(k, J()); if (!val(j.o.back().second, depth + 1)) return false;
                ws(); if (p >= e) return false;
                if (*p == ',') { p++; continue; }
                if (*p == '}') { p++; return true; }
                return false;
            }
        }
        if (*p == '[') {
            p++; j.t = J::ARR; ws();
            if (p < e && *p == ']') { p++; return true; }
            for (;;) {
                j.a.emplace_back(); if (!val(j.a.back(), depth + 1)) return false;
                ws(); if (p >= e) return false;
                if (*p == ',') { p++; continue; }
                if (*p == ']') { p++; return true; }
                return false;
            }
        }
        if (*p == '"') { j.t = J::STR; return str(j.s); }
        if (lit("true")) { j.t = J::BOOL; j.b = true; return true; }
        if (lit("false")) { j.t = J::BOOL; return true; }
        if (lit("null")) return true;
        char *q; Str t(p, std::min<size_t>(e - p, 64)); double d = strtod(t.c_str(), &q);
        if (q == t.c_str() || !(*p == '-' || (*p >= '0' && *p <= '9'))) return false;
        p += q - t.c_str(); j.t = J::NUM; j.n = d; return true;
    }
};
bool json_parse(const Str &s, J &out) { out = J(); JP p{s.data(), s.data() + s.size()}; if (!p.val(out, 0)) return false; p.ws(); return p.p == p.e; }
Str json_str(const Str &s) {
    Str o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { o += fmt("\\u%04x", c); } else o += c; }
    return o + "\"";
}
Str text(const Str &s, size_t max) {
    Str o;
    for (unsigned char c : s) { if (o.size() >= max) { o += "..."; break; } if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c < 32 || c > 126) o += fmt("\\x%02x", c); else o += c; }
    return o;
}

// ---------------------------------------------------------------- HTTP
Str http_request(const Str &method, const Str &target, const Str &body, const HttpOpt &o) {
    Str r = method + " " + target + " HTTP/1.1\r\nHost: x\r\n";
    if (o.gzip) r += "Accept-Encoding: gzip\r\n";
    r += o.extra_headers;
    if (body.size() || method == "POST") r += fmt("Content-Length: %zu\r\n", body.size());
    return r + "\r\n" + body;
}
static bool gunzip(const Str &in, Str &out) {
    z_stream z; memset(&z, 0, sizeof z);
    if (inflateInit2(&z, 15 + 32) != Z_OK) return false;
    z.next_in = (Bytef *)in.data(); z.avail_in = in.size();
    char b[16384]; int r;
    do { z.next_out = (Bytef *)b; z.avail_out = sizeof b; r = inflate(&z, Z_NO_FLUSH); if (r != Z_OK && r != Z_STREAM_END) { inflateEnd(&z); return false; } out.append(b, sizeof b - z.avail_out); } while (r != Z_STREAM_END && (z.avail_in || !z.avail_out));
    inflateEnd(&z);
    return r == Z_STREAM_END && z.avail_in == 0;
}
Resp http_read(int fd, const HttpOpt &o) {
    Resp r; Str in;
    int64_t dl = now_ns + o.timeout;
    int k;
    for (;;) {
        k = c_recv(fd, in, std::max<int64_t>(dl - now_ns, 0), o.rd_chunk);
        if (k <= 0) break;
        if (o.rd_gap) sleep_ns(o.rd_gap);
    }
    r.raw = in;
    if (k == -2) { r.err = in.empty() ? "no response in time" : "response not finished in time"; return r; }
    if (k < 0) { r.err = in.empty() ? "connection reset without a response" : "connection reset in the response"; }
    if (in.empty()) { if (r.err.empty()) r.err = "connection closed without a response"; return r; }
    size_t h = in.find("\r\n\r\n");
    if (h == Str::npos) { r.err = "response header incomplete: " + text(in); return r; }
    if (in.compare(0, 9, "HTTP/1.1 ") && in.compare(0, 9, "HTTP/1.0 ")) { r.err = "no status line: " + text(in); return r; }
    r.code = atoi(in.c_str() + 9);
    if (r.code < 100 || r.code > 599) { r.err = "bad status: " + text(in, 60); return r; }
    size_t p = in.find("\r\n") + 2;
    while (p < h) {
        size_t e = in.find("\r\n", p); Str l = in.substr(p, e - p); p = e + 2;
        size_t c = l.find(':');
        if (c == Str::npos) { r.err = "malformed header line: " + text(l); return r; }
        Str n = l.substr(0, c), v = l.substr(c + 1);
        for (auto &ch : n) ch = tolower(ch);
        while (v.size() && v[0] == ' ') v.erase(0, 1);
        if (n == "content-length" && r.hdr.count(n)) { r.err = "two content-length headers"; return r; }
        r.hdr[n] = v;
    }
    r.body = in.substr(h + 4);
    if (r.hdr.count("content-length")) {
        size_t want = strtoull(r.hdr["content-length"].c_str(), 0, 10);
        if (r.body.size() < want) { r.err = fmt("body of %zu bytes cut off at %zu", want, r.body.size()) + (k < 0 ? " by a reset" : ""); return r; }
        if (r.body.size() > want) { r.err = fmt("%zu bytes after the body of %zu", r.body.size() - want, want) + ": " + text(r.body.substr(want)); return r; }
        r.err.clear();
    } else if (k < 0) return r;
    if (r.hdr.count("content-encoding") && r.hdr["content-encoding"] == "gzip") { Str u; if (!gunzip(r.body, u)) { r.err = "body is not valid gzip"; return r; } r.body = u; }
    return r;
}
Resp http_raw(int node, const Str &req, const HttpOpt &o) {
    Resp r;
    int fd = c_connect(o.ip ? o.ip : client_ip(1), node_ip(node), o.port, 30 * SEC);
    if (fd < 0) { r.err = "cannot connect"; return r; }
    if (o.pieces) {
        size_t off = 0;
        for (int i = 0; i <= o.pieces; i++) {
            size_t k = i == o.pieces ? req.size() - off : std::min<size_t>(req.size() - off, 1 + choose(ST_W, std::max<size_t>(1, 2 * req.size() / (o.pieces + 1))));
            if (k) c_send(fd, req.substr(off, k), 30 * SEC);
            off += k;
            if (o.gap && off < req.size()) sleep_ns(o.gap);
        }
    } else c_send(fd, req, 30 * SEC);
    r = http_read(fd, o);
    c_close(fd);
    count("http_requests");
    return r;
}
Resp http(int node, const Str &method, const Str &target, const Str &body, HttpOpt o) { return http_raw(node, http_request(method, target, body, o), o); }
bool g_throw_when_down = false;
Resp must_http(int node, const Str &method, const Str &target, const Str &body, HttpOpt o) {
    int inc = nodes[node].inc; bool up = nodes[node].alive;
    Resp r = http(node, method, target, body, o);
    if (!r.ok() && g_throw_when_down && (!up || !nodes[node].alive || nodes[node].inc != inc)) throw NodeDown();
    if (!r.ok()) violation("http", fmt("%s %s: %s", method.c_str(), text(target, 100).c_str(), r.err.c_str()));
    return r;
}

// ---------------------------------------------------------------- counters
Series fold(const Series &s, int64_t iv) { Series r; for (auto &x : s) { int64_t t = x.first - x.first % iv; r[t].add(x.second); } return r; }
static bool bucket(const J &d, Agg &a, Str &err) {
    for (const char *k : {"count", "min", "max", "sum", "sumsq", "avg", "sdev"}) if (std::isnan(d.num(k))) { err = fmt("bucket without %s", k); return false; }
    double c = d.num("count");
    if (c != floor(c)) { err = fmt("bucket with count %g", c); return false; }
    a.n = (int64_t)c; a.sum = d.num("sum"); a.sq = d.num("sumsq"); a.mn = d.num("min"); a.mx = d.num("max");
    return true;
}
static void put_bucket(QRes &q, int64_t t, const Agg &a) {
    if (a.n == 0) return;
    if (q.b.count(t)) { q.err = fmt("bucket %lld reported twice", (long long)t); return; }
    q.b[t] = a;
}
QRes query(int node, const Str &name, int64_t start, int64_t end, int samples, HttpOpt o) {
    QRes q;
    Str path; for (char c : name) if (c == '.') path += '.'; else path += c;
    Resp r = must_http(node, "GET", "/" + path + fmt("?start=%lld&end=%lld&samples=%d&format=json", (long long)start, (long long)end, samples), "", o);
    q.raw = r.body;
    if (r.code == 404) return q;
    if (r.code != 200) { violation("http", fmt("query of %s answered %d: %s", name.c_str(), r.code, text(r.body).c_str())); }
    J j;
    if (!json_parse(r.body, j) || j.t != J::OBJ) violation("http", "query answered with invalid JSON: " + text(r.body));
    q.found = true;
    q.start = j.num("start", -1); q.end = j.num("end", -1); q.interval = j.num("interval", -1);
    J const *b = j.get("buckets");
    if (b) for (auto &x : b->a) { Agg a; J const *d = x.get("data"); if (!d || !bucket(*d, a, q.err)) { violation("http", "malformed bucket in query answer: " + text(r.body)); } put_bucket(q, x.num("time"), a); }
    if (q.err.size()) violation("query", name + ": " + q.err);
    return q;
}
std::map<Str, QRes> mquery(int node, const Strs &names, int64_t start, int64_t end, int samples, bool compact, HttpOpt o) {
    Str body = fmt("{\"start\":%lld,\"stop\":%lld,\"maxSamples\":%d,", (long long)start, (long long)end, samples ? samples : 1000000);
    if (compact) body += "\"compact\":true,";
    body += "\"keys\":[";
    for (size_t i = 0; i < names.size(); i++) body += (i ? "," : "") + json_str(names[i]);
    body += "]}";
    Resp r = must_http(node, "POST", "/*", body, o);
    J j;
    if (r.code != 200 || !json_parse(r.body, j) || j.t != J::OBJ) violation("http", fmt("multi-counter query answered %d: %s", r.code, text(r.body).c_str()));
    std::map<Str, QRes> out;
    for (auto &x : j.o) {
        if (x.first == "start" || x.first == "stop" || x.first == "interval") continue;
        QRes q;
        if (out.count(x.first)) violation("query", "multi-counter query answers twice for " + x.first);
        if (x.second.t == J::STR) { out[x.first] = q; continue; }
        q.found = true; q.start = x.second.num("start", -1); q.end = x.second.num("end", -1); q.interval = x.second.num("interval", -1);
        J const *d = x.second.get("data");
        if (d) for (auto &b : d->a) { Agg a; if (!bucket(b, a, q.err)) violation("http", "malformed bucket in multi-counter answer: " + text(r.body)); put_bucket(q, b.num("time"), a); }
        if (q.err.size()) violation("query", x.first + ": " + q.err);
        out[x.first] = q;
    }
    for (auto &n : names) if (!out.count(n)) violation("query", "multi-counter query has no answer for " + n);
    return out;
}
std::vector<Listed> listing(int node, const Str &pattern, HttpOpt o) {
    Resp r = must_http(node, "GET", "/?q=" + pattern, "", o);
    J j;
    if (r.code != 200 || !json_parse(r.body, j) || !j.get("matching_names")) violation("http", fmt("listing answered %d: %s", r.code, text(r.body).c_str()));
    std::vector<Listed> v;
    for (auto &x : j.get("matching_names")->a) { Listed l; l.name = x.str("name"); J const *b = x.get("is_leaf"); l.leaf = b && b->b; l.type = (int)x.num("type", -1); v.push_back(l); }
    return v;
}
std::map<Str, int> leafs(int node, const Str &pattern) { std::map<Str, int> m; for (auto &l : listing(node, pattern)) if (l.leaf) m[l.name]++; return m; }
std::map<Str, int> listed(int node, const Str &pattern) { std::map<Str, int> m; for (auto &l : listing(node, pattern)) m[l.name]++; return m; }
static Series cut(const Series &s, int64_t from, int64_t to) { Series r; for (auto it = s.lower_bound(from); it != s.end() && it->first < to; ++it) r.insert(*it); return r; }
void verify_counter(int node, const Str &name, const Series &want, int64_t tref, Verify v) {
    static const int64_t IV[] = {1, 10, 60}, BACK[] = {50, 3000, 20000};
    for (int i = 0; i < 3; i++) {
        if (!v.all && i != (int)choose(ST_W, 3)) continue;
        int64_t st = tref - (i ? BACK[i] : v.span), en = tref + 120;
        st -= st % 60; en += 60 - en % 60;
        QRes q;
        if (v.multi) q = mquery(node, {name}, st, en, 0, false, v.o)[name];
        else q = query(node, name, st, en, 0, v.o);
        int64_t iv = q.interval > 0 ? q.interval : IV[i];
        Series w = cut(fold(want, iv), st, en);
        Str d = diff(w, cut(q.b, st, en));
        if (d.size()) violation(v.cls, fmt("%s, %lld s buckets from %lld: ", name.c_str(), (long long)iv, (long long)st) + d + (q.found ? "" : " (counter not found)"));
        if (w.size()) { note("checked %s %lld: %s", name.c_str(), (long long)iv, text(q.raw,150).c_str()); count("checked"); count(fmt("checked_%llds", (long long)iv)); }
    }
}
void Rings::create(int64_t t) { s.resize(iv.size()); last.clear(); for (auto i : iv) last.push_back(t / i); }
bool Rings::add(int64_t t, const Agg &a) {
    bool any = false;
    for (size_t i = 0; i < iv.size(); i++) {
        int64_t b = t / iv[i];
        if (b <= last[i] - n[i]) { probe("sample_older_than_ring"); continue; }
        any = true;
        if (b > last[i]) {
            last[i] = b;
            while (!s[i].empty() && s[i].begin()->first / iv[i] <= b - n[i]) { s[i].erase(s[i].begin()); probe("ring_bucket_recycled"); }
        }
        s[i][b * iv[i]].add(a);
    }
    return any;
}
int Rings::expected_ring(int64_t start) const {
    for (size_t i = 0; i < s.size(); i++) { int64_t b = start / iv[i]; if (b <= last[i] && b > last[i] - n[i]) return i; }
    return -1;
}
Str Rings::check(const QRes &q, int64_t start, int64_t end, int samples) const {
    int r = expected_ring(start);
    if (r < 0) {
        // nothing is kept for the start of the range: nothing, or what the rings hold, may be reported
        if (!q.b.empty()) for (auto &x : q.b) { bool any = false; for (auto &k : s) if (k.count(x.first)) any = true; if (!any) return fmt("bucket %lld reported, nothing is held for it: ", (long long)x.first) + x.second.str(); }
        return "";
    }
    if (q.interval <= 0) return fmt("interval %lld", (long long)q.interval);
    if (q.start < 0 || q.start > start || q.end < end) return fmt("the answer covers %lld..%lld, asked for %lld..%lld", (long long)q.start, (long long)q.end, (long long)start, (long long)end);
    int64_t from = q.start, to = q.end > q.start ? q.end : q.start + q.interval;
    Series w;
    if (samples == 1 && end > start) {
        // one bucket: the kept ones that lie wholly in the range; those it cuts may or may not be in it
        std::vector<Agg> alts(1);
        for (auto &x : s[r]) {
            if (x.first >= from && x.first + iv[r] <= to) for (auto &a : alts) a.add(x.second);
            else if (x.first < to && x.first + iv[r] > from) { size_t k = alts.size(); for (size_t i = 0; i < k; i++) { alts.push_back(alts[i]); alts.back().add(x.second); } }
        }
        if (q.b.size() > 1) return "more than one bucket for one sample";
        Agg g; for (auto &x : q.b) g = x.second;
        for (auto &a : alts) if (a.n == g.n && (!a.n || a == g)) return "";
        return "one bucket: " + g.str() + ", expected " + alts[0].str();
    }
    if (q.interval % iv[r]) return fmt("interval %lld from a %lld s ring", (long long)q.interval, (long long)iv[r]);
    if (samples == 0 && q.interval != iv[r]) return fmt("interval %lld, expected the %lld s ring", (long long)q.interval, (long long)iv[r]);
    for (auto &x : cut(s[r], from, to)) { int64_t t = q.start + (x.first - q.start) / q.interval * q.interval; w[t].add(x.second); }
    return diff(w, cut(q.b, from, to)) + (q.b.size() != cut(q.b, from, to).size() ? " (buckets outside the range)" : "");
}
Str random_name(int maxdepth) {
    static const char *c[] = {"a", "b", "cpu", "x1", "load", "net_in", "q-z"};
    Str n; int d = 1 + choose(ST_W, maxdepth);
    for (int i = 0; i < d; i++) n += (i ? "." : "") + Str(c[choose(ST_W, 7)]);
    return n;
}
Strs random_names(int n) {
    Strs v;
    for (int i = 0; i < n; i++) { Str x = random_name(); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }
    return v;
}
Strs expand(const Str &name) {
    Strs v; size_t p = name.find('^');
    if (p == Str::npos) { v.push_back(name); return v; }
    Str base = name.substr(0, p);
    while (p != Str::npos) { size_t e = name.find('^', p + 1); Str piece = name.substr(p + 1, e == Str::npos ? e : e - p - 1); if (piece.size()) v.push_back(base + "." + piece); p = e; }
    return v;
}
Str diff(const Series &want, const Series &got, size_t max) {
    Str o; size_t n = 0;
    auto add = [&](const Str &s) { if (n++ < max) o += (o.empty() ? "" : "; ") + s; };
    for (auto &x : want) { auto it = got.find(x.first); if (it == got.end()) add(fmt("bucket %lld missing, expected ", (long long)x.first) + x.second.str()); else if (!(it->second == x.second)) add(fmt("bucket %lld is ", (long long)x.first) + it->second.str() + ", expected " + x.second.str()); }
    for (auto &x : got) if (!want.count(x.first)) add(fmt("bucket %lld unexpected: ", (long long)x.first) + x.second.str());
    if (n > max) o += fmt("; and %zu more", n - max);
    return o;
}

// ---------------------------------------------------------------- admin
bool Admin::open(int node, uint32_t ip) { fd = c_connect(ip ? ip : client_ip(2), node_ip(node), P_ADMIN, 30 * SEC); buf.clear(); return fd >= 0; }
bool Admin::send(const Str &s) { return c_send(fd, s, 60 * SEC); }
bool Admin::answer(Str &out, int64_t timeout) {
    out.clear();
    int64_t dl = now_ns + timeout;
    for (;;) {
        size_t e;
        while ((e = buf.find("\r\n")) != Str::npos) {
            Str l = buf.substr(0, e); buf.erase(0, e + 2);
            out += l + "\n";
            if (l == "ok" || l.compare(0, 4, "huh?") == 0) return true;
        }
        int k = c_recv(fd, buf, std::max<int64_t>(dl - now_ns, 0));
        if (k <= 0) return false;
    }
}
void Admin::close() { if (fd >= 0) c_close(fd); fd = -1; }
Str admin(int node, const Str &cmd, int64_t timeout) {
    Admin a; Str out;
    if (!a.open(node)) return "";
    a.send(cmd + "\n");
    bool ok = a.answer(out, timeout);
    a.close();
    count("admin_commands");
    return ok ? out : "";
}
void flush_node(int node, int64_t timeout) {
    Str r = admin(node, "flush", timeout);
    if (r != "ok\n") violation("flush", r.empty() ? Str("flush command not answered") : "flush command answered " + text(r));
    count("flushes");
}
std::map<Str, Str> admin_stats(int node) {
    Str r = admin(node, "stats");
    if (r.empty()) violation("admin", "stats command not answered");
    std::map<Str, Str> m; size_t p = 0;
    while (p < r.size()) { size_t e = r.find('\n', p); Str l = r.substr(p, e - p); p = e + 1; size_t q = l.find('='); if (q != Str::npos) m[l.substr(0, q)] = l.substr(q + 1); }
    return m;
}

// ---------------------------------------------------------------- samples
bool Sender::open(int n, uint32_t i, int64_t timeout) { node = n; ip = i ? i : client_ip(3); fd = c_connect(ip, node_ip(n), P_STAT, timeout); return fd >= 0; }
bool Sender::send(const Str &s, int64_t timeout) { return c_send(fd, s, timeout); }
void Sender::close() { if (fd >= 0) c_close(fd); fd = -1; }

static Str why_not(int node, int64_t timeout) {
    HttpOpt o; o.timeout = timeout; Resp r = http(node, "GET", "/?a=*", "", o); J j;
    if (!r.ok()) return r.err;
    if (r.code != 200) return fmt("status %d", r.code);
    if (!json_parse(r.body, j)) return "invalid JSON: " + text(r.body, 2000);
    return "";
}
bool answers(int node, int64_t timeout) { return why_not(node, timeout).empty(); }
void must_answer(int node, const char *when) { Str w = why_not(node, 60 * SEC); if (w.size()) violation("unresponsive", fmt("node %d does not answer a well-formed request %s: ", node, when) + w); }
}
