// C29: every small control-flow graph is converted to a structured program; both are run on every sequence of branch outcomes.
#include "corekit.h"
#include <sdfg/builder/sdfg_builder.h>
#include <sdfg/builder/structured_sdfg_builder.h>
#include <sdfg/sdfg.h>
using namespace sdfg; using PT = types::PrimitiveType; namespace df = data_flow;

// A graph: states 0..n-1 in the order a breadth-first walk from the start finds them, then the returns (-1: returns e, -2: a constant).
struct G { std::vector<std::vector<int>> out; int extra = -99; };  // extra: a state nobody enters, with an edge to that target
enum Mode { Full, Padded, Plain, Bare };  // Padded: empty states before the first one; Plain: only the edges of branches assign; Bare: and only branches hold data flow
static const char* mode_name[] = {"full", "padded", "plain", "bare"};
static std::string str(const G& g, Mode m) {
    std::string s = mode_name[m]; int i = 0;
    for (auto& o : g.out) { s += " " + std::to_string(i++) + ":"; for (auto t : o) s += t == -1 ? "r" : t == -2 ? "k" : std::to_string(t); }
    if (g.extra != -99) s += " x:" + std::to_string(g.extra);
    return s;
}
static void gen(int n, int deg, int rets, G& g, int seen, std::vector<G>& all) {
    int i = (int)g.out.size();
    if (i > seen) { if (i == n) all.push_back(g); return; }
    if (i == n) return;
    // targets: any state found so far, the next new one, a return
    std::function<void(int, int)> pick = [&](int left, int s) {
        if (!left) { auto keep = g; gen(n, deg, rets, g, s, all); g = keep; return; }
        for (int t = -rets; t <= std::min(s + 1, n - 1); t++) { g.out[i].push_back(t); pick(left - 1, std::max(s, t)); g.out[i].pop_back(); }
    };
    for (int d = 1; d <= deg; d++) { g.out.push_back({}); pick(d, seen); g.out.pop_back(); }
}
const int W = 64, MAX = 60;  // trace slots per state, steps
struct Res { std::vector<int64_t> B; int64_t ret = 0; int used = 0, need = 0; bool end = false; };
static int slot(const G& g, int s) { return s >= 0 ? s : (int)g.out.size() - 1 - s; }
// What the graph does, by definition. Every state writes 1 to its own slot of the current time step.
static Res direct(const G& g, Mode m, uint64_t bits, int len) {
    Res r; r.B.assign(W * (g.out.size() + 2), 0); int64_t e = 0, t = 0; int s = 0;
    for (int k = 0; k < MAX; k++) {
        auto& o = g.out[s]; size_t d = o.size(), i = 0;
        if (m != Bare || d > 1) r.B[W * s + t] = 1;
        if (d > 1) {
            int w = d == 3 ? 2 : 1; if (r.used + w > len) { r.need = w; return r; }
            int v = bits & ((1 << w) - 1); bits >>= w; r.used += w; i = d == 2 ? (v == 1 ? 0 : 1) : std::min(v, 2);
        }
        if (d > 1 || m == Full || m == Padded) { t++; e = (7 * e + 3 * s + (int)i + 1) % 1009; }
        s = o[i];
        if (s < 0) { if (m != Bare) r.B[W * slot(g, s) + t] = 1; r.end = true; r.ret = s == -1 ? e : 77; return r; }
    }
    return r;
}
static std::unique_ptr<SDFG> build(const G& g, Mode m) {
    types::Scalar i64(PT::Int64); types::Pointer ptr(i64);
    builder::SDFGBuilder b("g", FunctionType_CPU, i64);
    b.add_container("B", ptr, true); for (auto n : {"N", "e", "t"}) b.add_container(n, i64, true);
    auto N = symbolic::symbol("N"), e = symbolic::symbol("e"), t = symbolic::symbol("t");
    auto body = [&](control_flow::State& s, int id) {
        auto& k = b.add_tasklet(s, df::TaskletCode::assign, "_o", {"_a"});
        b.add_computational_memlet(s, b.add_constant(s, "1", i64), k, "_a", {});
        b.add_computational_memlet(s, k, "_o", b.add_access(s, "B"), {symbolic::add(symbolic::integer(W * id), t)}, ptr);
    };
    size_t n = g.out.size(); std::vector<control_flow::State*> st; std::map<int, control_flow::State*> ret;
    for (size_t i = 0; i < n; i++) { auto& s = b.add_state(i == 0 && m != Padded); st.push_back(&s); if (m != Bare || g.out[i].size() > 1) body(s, (int)i); }
    auto target = [&](int x) -> control_flow::State& {
        if (x >= 0) return *st[x];
        if (!ret.count(x)) { auto& s = x == -1 ? b.add_return_state("e") : b.add_constant_return_state("77", i64); if (m != Bare) body(s, slot(g, x)); ret[x] = &s; }
        return *ret[x];
    };
    for (size_t i = 0; i < n; i++) {
        size_t d = g.out[i].size();
        for (size_t k = 0; k < d; k++) {
            control_flow::Assignments a;
            if (d > 1 || m == Full || m == Padded) { a.insert({t, symbolic::add(t, symbolic::one())}); a.insert({e, symbolic::mod(symbolic::add(symbolic::mul(symbolic::integer(7), e), symbolic::integer(3 * i + k + 1)), symbolic::integer(1009))}); }
            if (d > 1) a.insert({N, symbolic::div(N, symbolic::integer(d == 2 ? 2 : 4))});
            auto v = symbolic::mod(N, symbolic::integer(d == 2 ? 2 : 4));
            symbolic::Condition q = symbolic::__true__();
            if (d == 2) q = k == 0 ? symbolic::Eq(v, symbolic::one()) : symbolic::Ne(v, symbolic::one());
            if (d == 3) q = k < 2 ? symbolic::Eq(v, symbolic::integer(k)) : symbolic::Ge(v, symbolic::integer(2));
            b.add_edge(*st[i], target(g.out[i][k]), a, q);
        }
    }
    if (m == Padded) { control_flow::State* last = nullptr; for (int i = 0; i < 4; i++) { auto& s = b.add_state(i == 0); if (last) b.add_edge(*last, s); last = &s; } b.add_edge(*last, *st[0]); }
    if (g.extra != -99) b.add_edge(b.add_state(), target(g.extra));
    b.subject().validate();
    return b.move();
}
// straight lines, two-way branches, while and do-while loops, one inside the other: always convertible
static const std::set<std::string> simple{"padded 0:r", "padded 0:1 1:k", "padded 0:1r 1:r", "padded 0:12 1:r 2:r", "padded 0:kr", "padded 0:12 1:k 2:r", "padded 0:0r", "padded 0:r0", "padded 0:1r 1:0", "padded 0:1 1:0r", "padded 0:1 1:21 2:r", "padded 0:12 1:0 2:r", "padded 0:1 1:2r 2:1"};
int main(int argc, char** argv) {
    vk::init();
    vc::Options opt; opt.coverage_rule = "every control-flow graph up to the stated number of states, each run on every sequence of branch outcomes up to the stated length"; opt.extra_counters = {{8, "refused"}, {9, "accepted"}};
    return vc::main_impl(argc, argv, [](vc::Run& r) {
        const int REF = vc::Run::AUX0, ACC = vc::Run::AUX0 + 1;
        auto one = [&](const G& g, Mode m) {
            const int L = r.thorough ? 8 : 6;
            r.kase([&] { return str(g, m); }, [&] {
                auto s = build(g, m); std::unique_ptr<StructuredSDFG> q;
                r.nontrivial(vc::hash_str(str(g, m)));
                try { builder::StructuredSDFGBuilder sb(*s); q = sb.move(); }
                catch (UnstructuredControlFlowException&) { r.count(REF, 1); r.outcome(0); if (m == Padded && simple.count(str(g, m))) r.fail("refused", "a straight line, branch or loop is refused"); return; }
                catch (std::exception& x) { r.fail("throws", std::string("conversion throws ") + x.what()); return; }
                r.count(ACC, 1);
                try { q->validate(); } catch (std::exception& x) { r.fail("invalid", std::string("the result is not valid: ") + x.what() + ": " + vk::print(*q)); return; }
                // all branch sequences the graph needs to end
                std::vector<std::pair<uint64_t, int>> todo{{0, 0}}; 
                while (!todo.empty()) {
                    auto [bits, len] = todo.back(); todo.pop_back();
                    auto d = direct(g, m, bits, len);
                    if (!d.end) { if (d.need && len + d.need <= L) for (uint64_t v = 0; v < (1u << d.need); v++) todo.push_back({bits | v << len, len + d.need}); continue; }
                    r.count(vc::Run::EVAL, 1); r.count(vc::Run::TRACES, 1);
                    vi::Interp in(*q); in.max_steps = 3000; std::string why, where; int64_t ret = 0; bool has = false;
                    try {
                        uint64_t B = in.m.alloc(8 * d.B.size(), "B"); vi::Value z; z.t = PT::Int64; z.i = 0; for (size_t i = 0; i < d.B.size(); i++) in.store_raw(B + 8 * i, z);
                        in.bind_ptr("B", B); in.bind("N", (int64_t)bits); in.bind("e", 0); in.bind("t", 0);
                        in.execute(); has = in.has_ret; ret = (int64_t)in.ret.i;
                        for (size_t i = 0; i < d.B.size(); i++) if ((int64_t)in.load_raw(B + 8 * i, PT::Int64).i != d.B[i]) where = "state " + std::to_string(i / W) + " at step " + std::to_string(i % W);
                    } catch (std::exception& x) { why = x.what(); }
                    r.outcome(vc::hash_str(std::to_string(d.ret) + "," + std::to_string(d.used)));
                    std::string w = "branch outcomes " + std::to_string(bits) + ": ";
                    if (!why.empty()) { r.fail("run", w + "running the structured program: " + why + ": " + vk::print(*q)); return; }
                    if (!where.empty()) { r.fail("trace", w + "the structured program runs other states (" + where + "): " + vk::print(*q)); return; }
                    if (!has || ret != d.ret) { r.fail("return", w + "the structured program returns " + (has ? std::to_string(ret) : "nothing") + ", not " + std::to_string(d.ret) + ": " + vk::print(*q)); return; }
                }
            });
            r.alive();
        };
        auto graphs = [&](int n, int deg, int rets) { std::vector<G> v; G g; gen(n, deg, rets, g, 0, v); return v; };
        for (int n = 1; n <= 3; n++) for (auto& g : graphs(n, 2, 2)) {
            for (Mode m : {Full, Padded, Plain, Bare}) one(g, m);
            for (int t = -1; t < n; t++) { auto x = g; x.extra = t; one(x, Padded); }
        }
        for (int n = 1; n <= (r.thorough ? 3 : 2); n++) for (auto& g : graphs(n, 3, 2)) { bool three = false; for (auto& o : g.out) three |= o.size() == 3; if (three) one(g, Padded); }
        for (auto& g : graphs(4, 2, r.thorough ? 2 : 1)) one(g, Padded);
        if (r.thorough) for (auto& g : graphs(5, 2, 1)) one(g, Padded);
    }, opt);
}
