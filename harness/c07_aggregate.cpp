// C07: aggregate statistics of every short history, and of every short sequence of measured values.
#include "instr.h"
using namespace in;
static std::string cfg(const Config& c) { std::string s = "[cpu=" + std::to_string(c.cpu.size()) + " cuda=" + std::to_string(c.cuda.size()) + " kinds="; for (auto k : c.kinds) s += char('0' + k); return s + " profile=" + std::to_string(c.profile) + " null=" + std::to_string(c.metas[0].null_mask) + "]"; }
static void explore(vc::Run& r) {
    auto go = [&](const Config& c, const std::vector<Op>& h) { r.kase([&] { return cfg(c) + show(h); }, [&] { run_history(r, c, h); r.nontrivial(vc::hash_str(cfg(c) + show(h))); }); };
    std::vector<std::string> E1{"PAPI_TOT_CYC"}, E2{"PAPI_TOT_CYC", "perf::INSTR:u=1"}, E3{"a", "b", "c"};
    auto conf = [&](std::vector<std::string> cpu, std::vector<std::string> cuda, std::vector<int> kinds, int profile) { Config c; c.aggregate = true; c.cpu = cpu; c.cuda = cuda; c.kinds = kinds; c.profile = profile; c.metas = metas(kinds.size()); return c; };
    for (unsigned m = 0; m < 64; m++) for (int n = 0; n < 3; n++) { auto c = conf(E1, {}, {0}, 0); c.metas[0].null_mask = m; std::vector<Op> h{{INIT, 0}}; for (int i = 0; i < n; i++) { h.push_back({ENTER, 0}); h.push_back({EXIT, 0}); } h.push_back({FIN, 0}); go(c, h); }
    for (std::string t : {"operator\"\"", "a\\b", "tab\there"}) { auto c = conf(E1, {}, {0}, 0); c.metas[0].func = t; go(c, {{INIT, 0}, {ENTER, 0}, {EXIT, 0}, {METRIC, 0, 2, 1.0}, {FIN, 0}}); }
    // every sequence of user metrics over boundary values
    std::vector<double> vals{0, 1, -1, 0.1, 1e15, 1e-9, -123456789.25};
    int ml = r.thorough ? 6 : 5;
    { auto c = conf(E1, {}, {0}, 0); std::vector<std::vector<double>> seq{{}}; for (size_t at = 0, l = 0; (int) l < ml; l++) { size_t end = seq.size(); for (; at < end; at++) for (auto v : vals) { auto s = seq[at]; s.push_back(v); seq.push_back(s); } }
      for (auto& s : seq) { if ((int) s.size() == ml && !r.thorough && seq.size() > 30000 && (&s - &seq[0]) % 2) continue; std::vector<Op> h{{INIT, 0}}; for (auto v : s) h.push_back({METRIC, 0, 0, v}); h.push_back({FIN, 0}); go(c, h); } }
    for (double bad : {std::nan(""), (double) INFINITY, -(double) INFINITY}) for (int pos = 0; pos < 3; pos++) { auto c = conf(E1, {}, {0}, 0); std::vector<Op> h{{INIT, 0}}; for (int i = 0; i < 3; i++) h.push_back({METRIC, 0, 0, i == pos ? bad : 1.0 + i}); h.push_back({FIN, 0}); go(c, h); }
    struct Plan { Config c; int len, live, open; bool m; };
    std::vector<Plan> ps;
    int L = r.thorough ? 2 : 0;
    for (int prof = 0; prof < 5; prof++) {
        ps.push_back({conf(E1, E2, {0, 1}, prof), 9 + L, 1, 1, false});
        ps.push_back({conf(E3, {}, {0}, prof), 14 + L, 1, 1, false});
        ps.push_back({conf(E2, {}, {0}, prof), 10 + L, 2, 3, false});
        ps.push_back({conf(E1, {}, {0}, prof), 8 + L, 1, 1, true});
    }
    ps.push_back({conf({}, E1, {0, 1, 2}, 0), 8 + L, 1, 1, false});
    ps.push_back({conf(E1, E3, {1, 1}, 2), 8 + L, 1, 2, false});
    ps.push_back({conf(E1, E2, {0, 1}, 0), 6 + L, 1, 1, true});
    for (auto& p : ps) { Gen g{(int) p.c.kinds.size(), p.live, p.open, p.m, 0}; g.all(p.len, [&](const std::vector<Op>& h) { if (!h.empty()) go(p.c, h); }); }
    for (int n : {1, 3, 12}) for (int prof = 0; prof < 4; prof++) { auto c = conf(E1, E2, std::vector<int>(n), prof); for (int i = 0; i < n; i++) c.kinds[i] = i % 3; std::vector<Op> h; for (int k = 0; k < 60; k++) { int q = (k * k + k / 3) % n; h.push_back({INIT, q}); h.push_back({ENTER, q}); h.push_back({EXIT, q}); h.push_back({METRIC, q, k & 1, 0.25 * k * k}); h.push_back({FIN, q}); } go(c, h); }
}
int main(int c, char** v) {
    vc::Options o;
    o.coverage_rule = "a case is one well-formed history in aggregate mode (length up to 14, thorough 16; with user metrics up to 8, thorough 10) or one sequence of up to 5 (thorough 6) user metric values over 7 boundary values; distinct by configuration and history";
    return vc::main_impl(c, v, explore, o);
}
