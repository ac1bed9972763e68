// C17: posting a query.  A scripted server on the loopback network plays every reply of a bounded space.
#include <arpa/inet.h>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include "vc.h"
#include "sdfg/util/utils_curl.h"

enum After { KEEP, CLOSE, RESET };
struct Plan { std::vector<std::string> chunks; After after = KEEP; bool at_accept = false; int gap_us = 0; };
struct Seen { std::string head, body; };
struct Server {
    int ls = -1, port = 0; std::mutex m; Plan plan; std::vector<Seen> seen; std::atomic<int> epoch{0};
    struct Conn { int fd; std::string buf; bool cont = false; };
    std::vector<Conn> conns;
    void start() {
        ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; setsockopt(ls, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (bind(ls, (sockaddr*) &a, sizeof a) || listen(ls, 128)) throw std::runtime_error("no loopback network");
        socklen_t l = sizeof a; getsockname(ls, (sockaddr*) &a, &l); port = ntohs(a.sin_port);
        std::thread([this] { loop(); }).detach();
    }
    void set(Plan p) { std::lock_guard<std::mutex> g(m); plan = p; seen.clear(); }
    std::vector<Seen> take() { std::lock_guard<std::mutex> g(m); return seen; }
    static void end(int fd, After a) { if (a == RESET) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(fd); }
    static bool put(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (n <= 0) return false; o += n; } return true; }
    bool reply(Conn& c) { // false: the connection ended
        Plan p; { std::lock_guard<std::mutex> g(m); p = plan; }
        for (auto& s : p.chunks) { if (!put(c.fd, s)) { close(c.fd); return false; } if (p.gap_us) usleep(p.gap_us); }
        if (p.after == KEEP) return true;
        end(c.fd, p.after); return false;
    }
    bool feed(Conn& c) {
        char b[65536]; ssize_t n = recv(c.fd, b, sizeof b, 0);
        if (n <= 0) { close(c.fd); return false; }
        c.buf.append(b, n);
        auto h = c.buf.find("\r\n\r\n"); if (h == std::string::npos) return true;
        std::string low = c.buf.substr(0, h + 2); for (auto& ch : low) ch = tolower(ch);
        size_t len = 0; auto cl = low.find("\r\ncontent-length:"); if (cl != std::string::npos) len = strtoull(low.c_str() + cl + 17, 0, 10);
        if (low.find("\r\nexpect: 100-continue") != std::string::npos && !c.cont) { c.cont = true; put(c.fd, "HTTP/1.1 100 Continue\r\n\r\n"); }
        if (c.buf.size() < h + 4 + len) return true;
        { std::lock_guard<std::mutex> g(m); seen.push_back({c.buf.substr(0, h + 2), c.buf.substr(h + 4)}); }
        c.buf.clear(); c.cont = false;
        return reply(c);
    }
    void loop() {
        for (;;) {
            std::vector<pollfd> p{{ls, POLLIN, 0}}; for (auto& c : conns) p.push_back({c.fd, POLLIN, 0});
            if (poll(p.data(), p.size(), -1) < 0) continue;
            std::vector<Conn> keep;
            for (size_t i = 0; i < conns.size(); i++) if (!p[i + 1].revents || feed(conns[i])) keep.push_back(conns[i]);
            if (p[0].revents & POLLIN) {
                int fd = accept(ls, 0, 0); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
                bool now; After a; { std::lock_guard<std::mutex> g(m); now = plan.at_accept; a = plan.after; }
                if (now) end(fd, a); else keep.push_back({fd, ""});
            }
            conns = keep;
        }
    }
};
static Server* srv;
enum Framing { LENGTH, CHUNKED, UNTIL_CLOSE };
static std::string reply_text(int status, const std::string& body, Framing f, const std::string& extra = "", int piece = 3) {
    std::string s = "HTTP/1.1 " + std::to_string(status) + " Some Reason\r\n" + extra;
    bool none = status == 204 || status == 304 || status < 200;
    if (none) return s + "\r\n";
    if (f == LENGTH) return s + "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    if (f == UNTIL_CLOSE) return s + "Connection: close\r\n\r\n" + body;
    s += "Transfer-Encoding: chunked\r\n\r\n";
    for (size_t i = 0; i < body.size(); i += piece) { auto t = body.substr(i, piece); char b[20]; snprintf(b, sizeof b, "%zx\r\n", t.size()); s += b + t + "\r\n"; }
    return s + "0\r\n\r\n";
}
static CURL* handle() { CURL* c = curl_easy_init(); curl_easy_setopt(c, CURLOPT_TIMEOUT_MS, 20000L); curl_easy_setopt(c, CURLOPT_NOPROXY, "*"); curl_easy_setopt(c, CURLOPT_NOSIGNAL, 1L); return c; }
struct Box { alignas(HttpResult) char mem[sizeof(HttpResult)]; HttpResult* r; ~Box() { r->~HttpResult(); } }; // result written over a known pattern
typedef std::vector<std::pair<std::string, std::string>> Hdrs;
struct Slist { curl_slist* l = nullptr; Slist(const Hdrs& h) { for (auto& [k, v] : h) l = curl_slist_append(l, (k + ": " + v).c_str()); } ~Slist() { curl_slist_free_all(l); } };
static std::string show(const std::string& s) { return vc::jstr(s.size() > 120 ? s.substr(0, 120) + "..." : s); }

struct Expect { int kind; int status; std::string body; }; // kind 0: complete reply; 1: failed transfer; 2: cut where nobody can tell
static void judge(vc::Run& r, const char* what, const HttpResult& g, const Expect& e, const std::string& k) {
    bool ok = g.error_message.empty();
    std::string got = std::string(ok ? "success" : "error \"" + g.error_message.substr(0, 100) + "\"") + ", transfer code " + std::to_string(g.curl_code) + ", status " + std::to_string(g.http_status) + ", body " + show(g.body);
    if (e.kind == 0) {
        bool want = e.status >= 200 && e.status <= 203;
        if (ok != want) r.fail(k + ":classified", std::string(what) + ": a complete reply with status " + std::to_string(e.status) + " gives " + got);
        if (g.curl_code != CURLE_OK || g.http_status != e.status) r.fail(k + ":status", std::string(what) + ": a complete reply with status " + std::to_string(e.status) + " gives " + got);
        if (g.body != e.body) r.fail(k + ":body", std::string(what) + ": the server sent " + show(e.body) + " (" + std::to_string(e.body.size()) + " bytes), the caller gets " + show(g.body) + " (" + std::to_string(g.body.size()) + " bytes)");
    } else if (e.kind == 1) {
        if (ok) r.fail(k + ":failure", std::string(what) + ": a failed transfer gives " + got);
        if (g.http_status != 0 && g.http_status != e.status) r.fail(k + ":failure status", std::string(what) + ": a failed transfer gives " + got);
        if (g.curl_code == CURLE_OK) r.fail(k + ":failure code", std::string(what) + ": a failed transfer gives " + got);
    }
    r.outcome(vc::mix(vc::mix(g.curl_code, ok), e.kind == 0 ? g.http_status : 0)); r.count(8);
}
static std::vector<std::pair<std::string, std::string>> parse_head(const std::string& h, std::string& line) {
    std::vector<std::pair<std::string, std::string>> v; size_t i = h.find("\r\n"); line = h.substr(0, i); i += 2;
    while (i < h.size()) { auto e = h.find("\r\n", i); auto l = h.substr(i, e - i); auto c = l.find(':'); auto x = l.find_first_not_of(' ', c + 1); v.push_back({l.substr(0, c), x == std::string::npos ? "" : l.substr(x)}); i = e + 2; }
    return v;
}
static void request_ok(vc::Run& r, const Seen& s, const std::string& path, const std::string& payload, const Hdrs& given, const std::string& k) {
    std::string line; auto v = parse_head(s.head, line);
    if (line != "POST " + path + " HTTP/1.1") r.fail(k + ":line", "request line is " + show(line) + ", expected a POST of " + path);
    if (s.body != payload) r.fail(k + ":payload", "payload received " + show(s.body) + " (" + std::to_string(s.body.size()) + " bytes), given " + show(payload) + " (" + std::to_string(payload.size()) + " bytes)");
    for (auto& [n, val] : given) { int c = 0; for (auto& [a, b] : v) if (a == n) { c++; if (b != val) r.fail(k + ":header", "header " + n + " is sent as " + show(b) + ", given " + show(val)); } if (c != 1) r.fail(k + ":header", "header " + n + " is sent " + std::to_string(c) + " times"); }
    for (auto& [a, b] : v) { bool g = false; for (auto& [n, x] : given) g |= a == n; std::string l = a; for (auto& ch : l) ch = tolower(ch);
        if (!g && l != "host" && l != "accept" && l != "content-length" && l != "content-type" && l != "user-agent" && l != "expect") r.fail(k + ":stale header", "header " + a + ": " + b + " is sent but was not given"); }
}
struct Req { std::string path = "/docc/transfertune", payload = "{\"a\":1}"; Hdrs h{{"Content-Type", "application/json"}}; };
static void exchange(vc::Run& r, CURL* c, const char* what, const Plan& p, const Expect& e, const Req& q, const std::string& k, int port = 0) {
    srv->set(p);
    Box b; memset(b.mem, 0, sizeof b.mem); for (size_t i = 0; i + sizeof(long) <= sizeof b.mem; i += sizeof(long)) { long v = 200; memcpy(b.mem + i, &v, sizeof v); }
    {
        Slist l(q.h);
        b.r = new (b.mem) HttpResult(post_json(c, "http://127.0.0.1:" + std::to_string(port ? port : srv->port) + q.path, q.payload, l.l));
    }
    judge(r, what, *b.r, e, k);
    if (!p.at_accept && !port) {
        auto s = srv->take();
        if (e.kind == 0 && s.size() != 1) r.fail(k + ":requests", std::to_string(s.size()) + " requests reached the server for one query");
        for (auto& x : s) request_ok(r, x, q.path, q.payload, q.h, k);
    }
}
static void explore(vc::Run& r) {
    for (auto v : {"http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY", "no_proxy"}) unsetenv(v);
    srv = new Server; srv->start();
    std::vector<std::string> bodies{"", "x", "{\"sdfg_result\":{}}", std::string("a\0b\0", 4), std::string("\0", 1), "line\r\n\r\nHTTP/1.1 500 no\r\n\r\n", std::string(5000, 'y') + "z", "\xff\xfe\x80"};
    const char* fn[] = {"length", "chunked", "until close"};
    // every status, every framing
    for (int st = 100; st <= 599; st++) r.kase([=] { return "replies with status " + std::to_string(st); }, [&] {
        for (int f = 0; f < 3; f++) for (int b = 0; b < 3; b++) {
            if (st < 200) { if (st == 101) continue; // an informational reply announces another one
                CURL* c = handle(); std::string fin = reply_text(b == 0 ? 200 : b == 1 ? 404 : 203, "final", (Framing) f);
                exchange(r, c, "informational reply before the final one", {{reply_text(st, "", LENGTH) + fin}, f == 2 ? CLOSE : KEEP}, {0, b == 0 ? 200 : b == 1 ? 404 : 203, "final"}, {}, "informational"); curl_easy_cleanup(c); continue; }
            bool none = st == 204 || st == 304;
            CURL* c = handle();
            exchange(r, c, fn[f], {{reply_text(st, bodies[b], (Framing) f)}, f == 2 ? CLOSE : KEEP}, {0, st, none ? "" : bodies[b]}, {}, "status " + std::to_string(st));
            curl_easy_cleanup(c);
        }
        if (st >= 200) { // redirections and authentication challenges are replies, nothing is sent again
            CURL* c = handle(); exchange(r, c, "with Location and challenge headers", {{reply_text(st, "b", LENGTH, "Location: /other\r\nWWW-Authenticate: Basic realm=\"x\"\r\nRetry-After: 1\r\nSet-Cookie: a=b\r\n")}, KEEP}, {0, st, st == 204 || st == 304 ? "" : "b"}, {}, "status " + std::to_string(st) + " with headers"); curl_easy_cleanup(c); }
        r.nontrivial(st); r.count(vc::Run::STATES); });
    // bodies: content, framing, piece sizes, how they are split on the wire
    for (size_t b = 0; b < bodies.size(); b++) for (int f = 0; f < 3; f++) r.kase([=] { return "body #" + std::to_string(b) + ", framing " + fn[f]; }, [&] {
        for (int st : {200, 203, 401, 500}) for (int piece : {1, 2, 7}) for (int split : {0, 1, 3}) {
            if (f != 1 && piece > 1) continue; if (bodies[b].size() > 100 && (piece < 7 || split)) { if (split) continue; }
            std::string t = reply_text(st, bodies[b], (Framing) f, "", bodies[b].size() > 100 ? piece * 100 : piece);
            Plan p{{}, f == 2 ? CLOSE : KEEP}; if (split) { p.gap_us = 30; size_t n = t.size() / (split + 1); for (int i = 0; i <= split; i++) p.chunks.push_back(i == split ? t.substr(i * n) : t.substr(i * n, n)); } else p.chunks = {t};
            CURL* c = handle(); exchange(r, c, "body", p, {0, st, bodies[b]}, {}, "body " + std::to_string(b)); curl_easy_cleanup(c);
            r.nontrivial(vc::mix(vc::mix(b, f), vc::mix(st, piece * 4 + split)));
        } });
    for (int len : {16383, 16384, 16385, 65536, 1000000}) r.kase([=] { return "body of " + std::to_string(len) + " bytes"; }, [&] {
        std::string s(len, 0); for (int i = 0; i < len; i++) s[i] = i * 131 + i / 251;
        for (int f = 0; f < 3; f++) { CURL* c = handle(); exchange(r, c, "large body", {{reply_text(200, s, (Framing) f, "", 4096)}, f == 2 ? CLOSE : KEEP}, {0, 200, s}, {}, "large body"); curl_easy_cleanup(c); } r.nontrivial(len + 1000); });
    // the connection ends after every byte of the reply
    for (int st : {200, 202, 401, 404, 500}) for (int f = 0; f < 3; f++) for (int a = CLOSE; a <= RESET; a++) r.kase([=] { return std::string("connection ") + (a == CLOSE ? "closed" : "reset") + " within a reply with status " + std::to_string(st) + ", framing " + fn[f]; }, [&] {
        std::string body = "0123456789", t = reply_text(st, body, (Framing) f, "X-A: b\r\n", 4);
        size_t head = t.find("\r\n\r\n") + 4;
        for (size_t cut = 0; cut < t.size(); cut++) {
            CURL* c = handle();
            // a reset may overtake data, a body that ends with the connection cannot be told from a shorter one, and a reply without
            // complete headers is left to the transfer library
            bool doubt = (f == UNTIL_CLOSE && cut >= head) || (cut < head && cut >= 12) || (f == CHUNKED && cut + 2 >= t.size());
            exchange(r, c, ("cut after " + std::to_string(cut) + " of " + std::to_string(t.size()) + " bytes").c_str(), {cut ? std::vector<std::string>{t.substr(0, cut)} : std::vector<std::string>{}, (After) a}, {doubt ? 2 : 1, st, ""}, {}, "cut");
            curl_easy_cleanup(c); r.alive(); r.count(vc::Run::STATES);
            r.nontrivial(vc::mix(vc::mix(st, f), vc::mix(a, cut)) | 1);
        } });
    r.kase([] { return std::string("no server, server that hangs up"); }, [&] {
        int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in ad{}; ad.sin_family = AF_INET; ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(s, (sockaddr*) &ad, sizeof ad)) return; socklen_t l = sizeof ad; getsockname(s, (sockaddr*) &ad, &l);
        CURL* c = handle(); exchange(r, c, "connection refused", {}, {1, 0, ""}, {}, "refused", ntohs(ad.sin_port)); curl_easy_cleanup(c); close(s);
        for (After a : {CLOSE, RESET}) { CURL* c = handle(); Plan p; p.at_accept = true; p.after = a; exchange(r, c, "connection ended at once", p, {1, 0, ""}, {}, "hang up"); curl_easy_cleanup(c); }
        for (const char* u : {"nosuchscheme://x/", "http://127.0.0.1:1:2/", "", "http://"}) { CURL* c = handle(); Box b; memset(b.mem, 0, sizeof b.mem); for (size_t i = 0; i + 8 <= sizeof b.mem; i += 8) { long v = 200; memcpy(b.mem + i, &v, 8); } b.r = new (b.mem) HttpResult(post_json(c, u, "{}")); judge(r, "malformed address", *b.r, {1, 0, ""}, "address"); curl_easy_cleanup(c); }
        r.nontrivial(1); });
    r.kase([] { return std::string("server that answers no HTTP"); }, [&] {
        for (const char* t : {"garbage\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "\r\n\r\n", "SSH-2.0-x\r\n"}) { CURL* c = handle(); exchange(r, c, t, {{t}, CLOSE}, {1, 0, ""}, {}, "no http"); curl_easy_cleanup(c); }
        r.nontrivial(2); });
    // payloads and headers
    std::vector<std::string> pays{"", "{}", std::string("a\0b", 3), std::string("\0", 1), "a=b&c=%20 +", std::string(100000, 'p'), std::string(2000000, 'q'), "@/etc/hostname", "\xc3\xa4"};
    std::vector<Hdrs> hss{{}, {{"Content-Type", "application/json"}}, {{"Authorization", "Token secret"}, {"X-Hint", "a: b, c"}}, {{"Accept", "x/y"}, {"Content-Type", "text/plain"}}};
    std::vector<std::string> paths{"/docc/transfertune", "/", "/a?b=c&d=e", "/a%20b"};
    for (size_t p = 0; p < pays.size(); p++) r.kase([=] { return "payload #" + std::to_string(p); }, [&] {
        for (auto& h : hss) for (auto& u : paths) for (int st : {200, 500}) { CURL* c = handle(); exchange(r, c, "request", {{reply_text(st, "ok", LENGTH)}, KEEP}, {0, st, "ok"}, {u, pays[p], h}, "payload " + std::to_string(p)); curl_easy_cleanup(c); r.alive(); }
        r.nontrivial(p + 200); });
    // sequences of queries on one handle
    struct Act { const char* n; Plan p; Expect e; Req q; };
    std::vector<Act> acts; Hdrs A{{"Content-Type", "application/json"}, {"X-One", "1"}}, B{{"X-Two", "two"}};
    acts.push_back({"ok, headers A", {{reply_text(200, "first", LENGTH)}, KEEP}, {0, 200, "first"}, {"/a", "long payload ................", A}});
    acts.push_back({"ok, no headers", {{reply_text(203, "", LENGTH)}, KEEP}, {0, 203, ""}, {"/b", "p", {}}});
    acts.push_back({"500, headers B", {{reply_text(500, "bad", CHUNKED)}, KEEP}, {0, 500, "bad"}, {"/c", "", B}});
    acts.push_back({"401 then close, headers A", {{reply_text(401, "who", UNTIL_CLOSE)}, CLOSE}, {0, 401, "who"}, {"/a", "pq", A}});
    acts.push_back({"cut, headers B", {{reply_text(200, "0123456789", LENGTH).substr(0, 53)}, CLOSE}, {1, 200, ""}, {"/a", "x", B}});
    acts.push_back({"hang up", {{}, CLOSE}, {1, 0, ""}, {"/a", "y", A}});
    int D = r.thorough ? 5 : 4; int n = acts.size(), tot = 1; for (int i = 0; i < D; i++) tot *= n;
    for (int m = 0; m < tot; m++) r.kase([&, m] { std::string s; int x = m; for (int i = 0; i < D; i++) { s += (i ? "; " : "one handle: ") + std::string(acts[x % n].n); x /= n; } return s; }, [&] {
        CURL* c = handle(); int x = m;
        for (int i = 0; i < D; i++) { Act& a = acts[x % n]; x /= n; exchange(r, c, ("query " + std::to_string(i + 1)).c_str(), a.p, a.e, a.q, "sequence"); r.count(vc::Run::TRANS); }
        curl_easy_cleanup(c); r.nontrivial(m + 10000); r.count(vc::Run::TRACES); });
}
int main(int argc, char** argv) {
    curl_global_init(CURL_GLOBAL_ALL);
    vc::Options o; o.coverage_rule = "distinct server behaviours and query sequences"; o.extra_counters = {{8, "queries judged"}}; return vc::main_impl(argc, argv, explore, o);
}
