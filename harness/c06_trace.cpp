// C06: the trace of every short well-formed history of the instrumentation interface.
#include "instr.h"
using namespace in;
static std::string cfg(const Config& c) {
    std::string s = c.aggregate ? "[aggregate" : "[trace"; s += " cpu=" + std::to_string(c.cpu.size()) + " cuda=" + std::to_string(c.cuda.size()) + " kinds=";
    for (auto k : c.kinds) s += char('0' + k); s += " profile=" + std::to_string(c.profile); for (auto& m : c.metas) if (m.null_mask) s += " null=" + std::to_string(m.null_mask); for (auto& m : c.metas) if (m.func.find_first_of("\"\\\n") != std::string::npos) s += " func=" + m.func; return s + "]";
}
static void explore(vc::Run& r) {
    auto go = [&](const Config& c, const std::vector<Op>& h) {
        r.kase([&] { return cfg(c) + show(h); }, [&] { run_history(r, c, h); r.nontrivial(vc::hash_str(cfg(c) + show(h))); });
    };
    std::vector<std::string> E1{"PAPI_TOT_CYC"}, E2{"PAPI_TOT_CYC", "perf::INSTR:u=1"}, E3{"a", "b", "c"};
    auto conf = [&](std::vector<std::string> cpu, std::vector<std::string> cuda, std::vector<int> kinds, int profile) { Config c; c.cpu = cpu; c.cuda = cuda; c.kinds = kinds; c.profile = profile; c.metas = metas(kinds.size()); return c; };
    // optional metadata absent, with and without measurements
    for (unsigned m = 0; m < 64; m++) for (int n = 0; n < 3; n++) { auto c = conf(E1, {}, {0}, 0); c.metas[0].null_mask = m; std::vector<Op> h{{INIT, 0}}; for (int i = 0; i < n; i++) { h.push_back({ENTER, 0}); h.push_back({EXIT, 0}); } h.push_back({FIN, 0}); go(c, h); }
    for (std::string t : {"operator\"\"", "a\\b", "tab\there", "line\nbreak", "\x01"}) for (int f = 0; f < 9; f++) {
        auto c = conf(E1, {}, {0}, 0); auto& m = c.metas[0]; std::string* p[] = {&m.func, &m.file, &m.sdfg, &m.sdfg_file, &m.cap, &m.feat, &m.rep, &m.elem, &m.target}; *p[f] = f == 1 ? "/src/" + t : t;
        go(c, {{INIT, 0}, {ENTER, 0}, {EXIT, 0}, {FIN, 0}});
    }
    struct Plan { Config c; int len, live, open; };
    std::vector<Plan> ps;
    int L = r.thorough ? 4 : 2;
    for (int prof = 0; prof < 4; prof++) {
        ps.push_back({conf(E1, E2, {0, 1}, prof), (prof ? 7 : 8) + L, 1, 1});
        ps.push_back({conf(E3, {}, {0}, prof), 10 + L, 1, 1});
        ps.push_back({conf(E2, {}, {0}, prof), 8 + L, 2, 3});
    }
    ps.push_back({conf({}, E1, {0, 1, 2}, 0), 7 + L, 1, 1});
    ps.push_back({conf(E1, E1, {2, 0, 1}, 0), 7 + L, 1, 1});
    ps.push_back({conf(E1, E3, {1, 1}, 2), 7 + L, 1, 2});
    ps.push_back({conf(E1, E2, {0, 0, 1}, 0), 7 + L, 1, 1});
    for (auto& p : ps) { Gen g{(int) p.c.kinds.size(), p.live, p.open, false, 0}; g.all(p.len, [&](const std::vector<Op>& h) { if (!h.empty()) go(p.c, h); }); }
    // longer runs of complete uses (as generated code makes them), over more regions than are cached
    for (int n : {1, 3, 12}) { auto c = conf(E1, E2, std::vector<int>(n), 0); for (int i = 0; i < n; i++) c.kinds[i] = i % 3; std::vector<Op> h; for (int k = 0; k < 40; k++) { int q = (k * k + k / 3) % n; h.push_back({INIT, q}); h.push_back({ENTER, q}); h.push_back({EXIT, q}); h.push_back({FIN, q}); } go(c, h); }
}
int main(int c, char** v) {
    vc::Options o;
    o.coverage_rule = "a case is one well-formed history of init/enter/exit/finalize over up to three regions (length up to 12, thorough 14; recursion and registration while live included) in one configuration of event sets, time profile and metadata; distinct by configuration and history; states: traces compared with the model";
    return vc::main_impl(c, v, explore, o);
}
