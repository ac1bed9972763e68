// C16: where the optimization service's address, endpoint and headers come from.
#include <dlfcn.h>
#include <iostream>
#include <optional>
#include <stdarg.h>
#include "vc.h"
#include "sdfg/passes/rpc/daisytuner_rpc_context.h"
#include "sdfg/passes/rpc/rpc_context.h"
using namespace sdfg::passes::rpc;
namespace fs = std::filesystem;

// /var/lib/daisytuner is redirected into the scratch directory
static char session_root[512];
static const char* redirect(const char* p, char* buf) {
    static const char pre[] = "/var/lib/daisytuner";
    if (!p || strncmp(p, pre, sizeof pre - 1)) return p;
    snprintf(buf, 1024, "%s%s", session_root, p + sizeof pre - 1);
    return buf;
}
#define NEXT(f) ((decltype(&f)) dlsym(RTLD_NEXT, #f))
extern "C" {
FILE* fopen(const char* p, const char* m) { char b[1024]; return NEXT(fopen)(redirect(p, b), m); }
FILE* fopen64(const char* p, const char* m) { char b[1024]; return NEXT(fopen64)(redirect(p, b), m); }
int open(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); char b[1024]; return NEXT(open)(redirect(p, b), f, m); }
int open64(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); char b[1024]; return NEXT(open64)(redirect(p, b), f, m); }
int openat(int d, const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); char b[1024]; return NEXT(openat)(d, redirect(p, b), f, m); }
int stat(const char* p, struct stat* s) { char b[1024]; return NEXT(stat)(redirect(p, b), s); }
int lstat(const char* p, struct stat* s) { char b[1024]; return NEXT(lstat)(redirect(p, b), s); }
int access(const char* p, int m) { char b[1024]; return NEXT(access)(redirect(p, b), m); }
}
static const std::string NONE = "\1none", DIRECTORY = "\1dir";
static void put(const std::string& path, const std::string& content) {
    fs::remove_all(path);
    if (content == NONE) return;
    fs::create_directories(fs::path(path).parent_path());
    if (content == DIRECTORY) { fs::create_directories(path); return; }
    std::ofstream f(path, std::ios::binary); f << content;
}
static void env(const char* n, const std::string& v) { if (v == NONE) unsetenv(n); else setenv(n, v.c_str(), 1); }
static std::string strip(std::string s) { while (!s.empty() && strchr(" \n\r\t", s.back()) && s.back()) s.pop_back(); return s; }

struct Env { std::string job, acc, home, session, server; // home: NONE, "" (empty variable), or the token file's content with '=' before it
    std::string text() const { auto t = [](const std::string& s) { return s == NONE ? std::string("unset") : s == DIRECTORY ? "a directory" : vc::jstr(s); };
        return "DOCC_JOB_TOKEN " + t(job) + ", DOCC_ACCESS_TOKEN " + t(acc) + ", home token " + (home == NONE || home.empty() ? "HOME " + t(home) : t(home.substr(1))) + ", session file " + t(session) + ", RPC_SERVER " + t(server); }
    void apply(const std::string& scratch) const {
        env("DOCC_JOB_TOKEN", job); env("DOCC_ACCESS_TOKEN", acc); env("RPC_SERVER", server);
        std::string h = scratch + "/home";
        env("HOME", home == NONE || home.empty() ? home : h);
        put(h + "/.config/docc/token", home == NONE || home.empty() ? "WRONG-HOME" : home.substr(1));
        put(std::string(session_root) + "/session", session);
    }
    std::optional<std::pair<std::string, bool>> auth() const {
        auto set = [](const std::string& s) { return s != NONE && !s.empty(); };
        if (set(job)) return std::pair(job, true);
        if (set(acc)) return std::pair(acc, false);
        if (set(home)) { auto c = home.substr(1); if (c != NONE && c != DIRECTORY && !strip(c).empty()) return std::pair(strip(c), false); }
        if (session != NONE && session != DIRECTORY && !strip(session).empty()) return std::pair(strip(session), false);
        return std::nullopt;
    }
    std::string srv() const { return server != NONE && !server.empty() ? server : std::string(DaisytunerRpcContext::DEFAULT_SERVER); }
};
typedef std::map<std::string, std::string> Hs;
static Hs hs(const std::unordered_map<std::string, std::string>& m) { return Hs(m.begin(), m.end()); }
static std::string show(const Hs& h) { std::string o = "{"; for (auto& [k, v] : h) o += vc::jstr(k) + ": " + vc::jstr(v) + " "; return o + "}"; }
struct Quiet { // collects what is printed
    std::ostringstream s; std::streambuf *a, *b, *c;
    Quiet() { a = std::cerr.rdbuf(s.rdbuf()); b = std::cout.rdbuf(s.rdbuf()); c = std::clog.rdbuf(s.rdbuf()); }
    ~Quiet() { std::cerr.rdbuf(a); std::cout.rdbuf(b); std::clog.rdbuf(c); }
};
static void no_leak(vc::Run& r, const std::string& out, const Hs& h) {
    for (auto& [k, v] : h) if (v.size() >= 4) {
        std::string core = v; // neither the whole value nor its secret part
        if (out.find(core) != std::string::npos) r.fail("print:" + k, "the value of header " + k + " is printed: " + out);
        if (core.find(' ') != std::string::npos) { auto t = core.substr(core.find(' ') + 1); if (t.size() >= 4 && out.find(t) != std::string::npos) r.fail("print:" + k, "the credential in header " + k + " is printed: " + out); }
    }
}
static std::string auth_text(const std::pair<std::string, bool>& a) { return (a.second ? "Job " : "Token ") + a.first; }
static void check_ctx(vc::Run& r, const char* who, const RpcContext& c, const std::string& server, const std::string& endpoint, const Hs& h) {
    if (c.get_remote_address() != server + "/" + endpoint) r.fail(std::string(who) + ":address", std::string(who) + ": address " + c.get_remote_address() + ", expected " + server + "/" + endpoint);
    if (hs(c.get_auth_headers()) != h) r.fail(std::string(who) + ":headers", std::string(who) + ": headers " + show(hs(c.get_auth_headers())) + ", expected " + show(h));
    r.count(8);
}
static const char* DE = DaisytunerRpcContext::DEFAULT_ENDPOINT;
static void default_client(vc::Run& r, const Env& e) {
    e.apply(r.scratch);
    auto want = e.auth();
    auto got = DaisytunerRpcContext::find_docc_auth();
    auto t = [](const std::optional<std::pair<std::string, bool>>& a) { return a ? (a->second ? "job token " : "token ") + vc::jstr(a->first) : std::string("none"); };
    if (got != want) r.fail("auth:" + t(want).substr(0, 5), "credential found: " + t(got) + ", expected " + t(want));
    Hs h; if (want) h["Authorization"] = auth_text(*want);
    Quiet q;
    for (int way = 0; way < 2; way++) {
        std::shared_ptr<RpcContext> c; bool threw = false; std::string what;
        try { if (way) c = build_rpc_context_from_docc_config(); else c = DaisytunerRpcContext::from_docc_config(); } catch (std::exception& x) { threw = true; what = x.what(); }
        if (threw != !want) r.fail("client:" + std::string(threw ? "refused" : "no credential"), std::string("building the default client ") + (threw ? "fails: " + what : "succeeds") + " with credential " + t(want));
        if (c) check_ctx(r, "default client", *c, e.srv(), DE, h);
    }
    if (want) { DaisytunerRpcContext c(want->first, want->second); check_ctx(r, "client of a given token", c, e.srv(), DE, h);
        if (DaisytunerRpcContext::build_auth_header_content(*want) != auth_text(*want)) r.fail("header text", "authorization header text"); }
    no_leak(r, q.s.str(), h);
    r.outcome(vc::hash_str(t(want) + e.srv()));
}
// ---- builder
struct Model { std::string server, endpoint; Hs headers; };
struct Step { std::string name; std::function<void(SimpleRpcContextBuilder&)> run; std::function<int(Model&, const Env&)> model; }; // model: 0 ok, 1 throws, 2 either (no change)
static std::vector<Step> steps;
static void make_steps(const std::string& dir) {
    auto file = [&](const std::string& n, const std::string& c) { put(dir + "/" + n, c); return dir + "/" + n; };
    auto add = [&](const std::string& n, std::function<void(SimpleRpcContextBuilder&)> f, std::function<int(Model&, const Env&)> m) { steps.push_back({n, f, m}); };
    add("local_default", [](auto& b) { b.initialize_local_default(); }, [](Model& m, const Env&) { m.server = "http://localhost:8080/docc"; m.endpoint = "transfertune"; return 0; });
    struct F { const char *n, *c; std::function<int(Model&)> m; };
    std::vector<F> fsv{
        {"empty", "{}", [](Model&) { return 0; }},
        {"server", R"({"SERVER":"http://f1"})", [](Model& m) { m.server = "http://f1"; return 0; }},
        {"endpoint", R"({"ENDPOINT":"ef"})", [](Model& m) { m.endpoint = "ef"; return 0; }},
        {"full", R"({"SERVER":"http://f2/a","ENDPOINT":"e2","HEADERS":{"A":"secretA1","B":"secretB1"}})", [](Model& m) { m.server = "http://f2/a"; m.endpoint = "e2"; m.headers["A"] = "secretA1"; m.headers["B"] = "secretB1"; return 0; }},
        {"wrong types", R"({"SERVER":5,"ENDPOINT":null,"HEADERS":{"A":7,"C":"secretC2","B":["x"]},"OTHER":"y"})", [](Model& m) { m.headers["C"] = "secretC2"; return 0; }},
        {"wrong types 2", R"({"SERVER":["http://no"],"ENDPOINT":{"a":"b"},"HEADERS":["A","x"]})", [](Model&) { return 0; }},
        {"headers only", R"({"HEADERS":{"Authorization":"Token fileSecret","A":""}})", [](Model& m) { m.headers["Authorization"] = "Token fileSecret"; m.headers["A"] = ""; return 0; }},
        {"lower case keys", R"({"server":"http://no","endpoint":"no","headers":{"A":"no"}})", [](Model&) { return 0; }},
        {"empty server", R"({"SERVER":"","ENDPOINT":""})", [](Model& m) { m.server = ""; m.endpoint = ""; return 0; }},
        {"array", "[1,2]", [](Model&) { return 2; }},
        {"broken", R"({"SERVER":"http://broken","HEAD)", [](Model&) { return 1; }}};
    for (auto& f : fsv) { auto p = file(std::string("cfg-") + f.n, f.c); auto m = f.m;
        add(std::string("from_file(") + f.n + ")", [p](auto& b) { b.from_file(p); }, [m](Model& x, const Env&) { return m(x); }); }
    add("from_file(missing)", [dir](auto& b) { b.from_file(dir + "/none"); }, [](Model&, const Env&) { return 1; });
    auto pf = file("cfg-env", R"({"SERVER":"http://fromenv","HEADERS":{"E":"secretE1"}})");
    auto penv = [](Model& m, const Env&) { m.server = "http://fromenv"; m.headers["E"] = "secretE1"; return 0; };
    add("from_env(set)", [pf](auto& b) { setenv("SDFG_RPC_CONFIG", pf.c_str(), 1); b.from_env(); }, penv);
    add("from_env(custom)", [pf](auto& b) { unsetenv("SDFG_RPC_CONFIG"); setenv("VC_CUSTOM", pf.c_str(), 1); b.from_env("VC_CUSTOM"); }, penv);
    add("from_env(other set)", [pf](auto& b) { setenv("SDFG_RPC_CONFIG", pf.c_str(), 1); unsetenv("VC_CUSTOM"); b.from_env("VC_CUSTOM"); }, [](Model&, const Env&) { return 0; });
    add("from_env(unset)", [](auto& b) { unsetenv("SDFG_RPC_CONFIG"); b.from_env(); }, [](Model&, const Env&) { return 0; });
    add("from_env(empty)", [](auto& b) { setenv("SDFG_RPC_CONFIG", "", 1); b.from_env(); }, [](Model&, const Env&) { return 0; });
    add("from_env(missing file)", [dir](auto& b) { setenv("SDFG_RPC_CONFIG", (dir + "/none").c_str(), 1); b.from_env(); }, [](Model&, const Env&) { return 1; });
    struct H { const char *v, *k, *w; };
    for (H h : std::vector<H>{{"A:secretA3", "A", "secretA3"}, {"X-Y: secret v", "X-Y", " secret v"}, {"justhint", "RPC-Hint", "justhint"}, {"a:b:secret", "a", "b:secret"}, {"K:", "K", ""}, {":secretnokey", "", "secretnokey"}})
        add(std::string("from_header_env(") + h.v + ")", [h](auto& b) { setenv("RPC_HEADER", h.v, 1); b.from_header_env(); }, [h](Model& m, const Env&) { m.headers[h.k] = h.w; return 0; });
    add("from_header_env(unset)", [](auto& b) { unsetenv("RPC_HEADER"); b.from_header_env(); }, [](Model&, const Env&) { return 0; });
    add("from_header_env(empty)", [](auto& b) { setenv("RPC_HEADER", "", 1); b.from_header_env(); }, [](Model&, const Env&) { return 0; });
    add("from_header_env(custom)", [](auto& b) { setenv("RPC_HEADER", "no:no", 1); setenv("VC_CUSTOM", "Q:secretQ4", 1); b.from_header_env("VC_CUSTOM"); }, [](Model& m, const Env&) { m.headers["Q"] = "secretQ4"; return 0; });
    add("add_header(A)", [](auto& b) { b.add_header("A", "secretA5"); }, [](Model& m, const Env&) { m.headers["A"] = "secretA5"; return 0; });
    add("add_header(Authorization)", [](auto& b) { b.add_header("Authorization", "Token mySecret"); }, [](Model& m, const Env&) { m.headers["Authorization"] = "Token mySecret"; return 0; });
    add("from_docc_config", [](auto& b) { b.from_docc_config(); }, [](Model& m, const Env& e) { auto a = e.auth(); if (a) { m.server = e.srv(); m.endpoint = DE; m.headers["Authorization"] = auth_text(*a); } return 0; });
}
static std::string names(const std::vector<int>& seq) { std::string o; for (int s : seq) o += (o.empty() ? "" : " . ") + steps[s].name; return o; }
static void builder(vc::Run& r, const Env& e, const std::vector<int>& seq) {
    SimpleRpcContextBuilder b; Model m; Quiet q;
    std::shared_ptr<SimpleRpcContext> early; Model early_m;
    for (size_t i = 0; i < seq.size(); i++) {
        Model before = m; int want = steps[seq[i]].model(m, e); bool threw = false; std::string what;
        try { steps[seq[i]].run(b); } catch (std::exception& x) { threw = true; what = x.what(); no_leak(r, what, m.headers); }
        if (want != 2 && threw != (want == 1)) r.fail("step:" + steps[seq[i]].name, steps[seq[i]].name + (threw ? " fails: " + what : " does not fail"));
        if (want) m = before;
        if (b.server != m.server || b.endpoint != m.endpoint || hs(b.headers) != m.headers)
            r.fail("builder:" + steps[seq[i]].name, "after " + steps[seq[i]].name + " the builder holds " + b.server + " / " + b.endpoint + " " + show(hs(b.headers)) + ", expected " + m.server + " / " + m.endpoint + " " + show(m.headers));
        if (i == 0 && !m.server.empty()) { early = b.build(false); early_m = m; }
    }
    for (int print = 0; print < 2; print++) {
        std::shared_ptr<SimpleRpcContext> c; bool threw = false;
        try { c = b.build(print); } catch (std::exception& x) { threw = true; no_leak(r, x.what(), m.headers); }
        if (threw != m.server.empty()) r.fail("build", std::string("building ") + (threw ? "fails with server " + m.server : "succeeds with no server"));
        if (c) check_ctx(r, "built client", *c, m.server, m.endpoint, m.headers);
    }
    if (early) check_ctx(r, "client built earlier", *early, early_m.server, early_m.endpoint, early_m.headers);
    no_leak(r, q.s.str(), m.headers);
    r.outcome(vc::hash_str(m.server + m.endpoint + show(m.headers)));
}
static void explore(vc::Run& r) {
    snprintf(session_root, sizeof session_root, "%s/session", r.scratch.c_str());
    std::string dir = r.scratch + "/cfg"; fs::create_directories(dir);
    make_steps(dir);
    std::vector<std::string> toks{NONE, "", "J-secret1"}, accs{NONE, "", "A-secret2", "A b:c"},
        homes{NONE, "", "=" + NONE, "=" + DIRECTORY, "=H-secret3", "=H-secret3\n", "=H secret3 \r\n\t ", "=", "= \n", "= lead", "=two\nlines\n", "=H\n\n\n"},
        sess{NONE, DIRECTORY, "S-secret4", "S-secret4\n \t", "", "\n\n"}, srvs{NONE, "", "http://override:1/x"};
    std::vector<Env> envs;
    for (auto& j : toks) for (auto& a : accs) for (auto& h : homes) for (auto& s : sess) for (auto& v : srvs) {
        Env e{j, a, h, s, v}; envs.push_back(e);
        r.kase([=] { return e.text(); }, [&] { default_client(r, e); r.nontrivial(vc::hash_str(e.text())); r.count(vc::Run::STATES); });
    }
    // builder step sequences, in a few environments
    std::vector<Env> some{{NONE, NONE, NONE, NONE, NONE}, {"J-secret1", "A-secret2", "=H-secret3", "S-secret4", NONE}, {NONE, "A-secret2", "=H-secret3", NONE, "http://override:1/x"}, {"", "", "=H-secret3\n", "S-secret4", ""}, {NONE, NONE, "= \n", "S-secret4\n", "http://override:1/x"}, {NONE, NONE, "=", "", NONE}};
    int D = r.thorough ? 4 : 3;
    for (auto& e : some) {
        // what the environment says must hold whatever the custom variables were
        for (int len = 0; len <= D; len++) {
            std::vector<int> seq(len, 0);
            // one case per prefix of all but the last step
            for (;;) {
                if (len == 0 || seq[len - 1] == 0) r.kase([&, seq] { auto s = seq; if (!s.empty()) s.pop_back(); return "builder: " + names(s) + (len ? " . (any step)" : "") + ", " + e.text(); }, [&] {
                    e.apply(r.scratch);
                    auto s = seq;
                    int n = len ? (int) steps.size() : 1;
                    for (int k = 0; k < n; k++) { if (len) s[len - 1] = k; builder(r, e, s); r.nontrivial(vc::hash_str(names(s) + e.text())); r.count(vc::Run::TRANS, len); r.count(vc::Run::TRACES); r.alive(); }
                });
                int i = len - 2; // the last position is enumerated inside the case
                while (i >= 0 && seq[i] + 1 == (int) steps.size()) seq[i--] = 0;
                if (i < 0) break;
                seq[i]++;
            }
        }
        r.kase([&] { return "ready-made clients, " + e.text(); }, [&] {
            e.apply(r.scratch); Quiet q;
            auto pf = dir + "/cfg-full";
            check_ctx(r, "local client", *build_rpc_context_local(), "http://localhost:8080/docc", "transfertune", {});
            check_ctx(r, "client from a file", *build_rpc_context_from_file(pf), "http://f2/a", "e2", {{"A", "secretA1"}, {"B", "secretB1"}});
            for (int cfg = 0; cfg < 3; cfg++) for (int h = 0; h < 3; h++) {
                env("SDFG_RPC_CONFIG", cfg == 0 ? NONE : cfg == 1 ? "" : pf); env("RPC_HEADER", h == 0 ? NONE : h == 1 ? "" : "A:secretOver");
                Hs want; if (cfg == 2) want = {{"A", "secretA1"}, {"B", "secretB1"}}; if (h == 2) want["A"] = "secretOver";
                check_ctx(r, "automatic client", *build_rpc_context_auto(), cfg == 2 ? "http://f2/a" : "http://localhost:8080/docc", cfg == 2 ? "e2" : "transfertune", want);
            }
            no_leak(r, q.s.str(), {{"A", "secretA1"}, {"B", "secretB1"}, {"C", "secretOver"}}); });
    }
}
int main(int argc, char** argv) { vc::Options o; o.coverage_rule = "distinct environments and (environment, builder step sequence) pairs"; o.extra_counters = {{8, "clients compared with the model"}}; return vc::main_impl(argc, argv, explore, o); }
