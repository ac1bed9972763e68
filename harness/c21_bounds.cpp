// C21: bounds, signs, monotonicity and contiguity derived under assumptions hold for every assignment that satisfies them.
#include "symkit.h"
#include <sdfg/symbolic/extreme_values.h>
#include <sdfg/symbolic/maps.h>
#include <sdfg/symbolic/series.h>
using namespace sk;
using symbolic::Assumption; using symbolic::Assumptions;
struct Side { std::string name; E e; };
struct Bound { std::string name; std::vector<E> lo, up; };  // of one symbol
struct World { std::string name; Assumptions a; std::vector<char> sat; std::vector<size_t> ids; };
struct Space { Family fam; std::vector<std::vector<int>> next[3]; std::vector<World> worlds; std::map<std::array<i128, 3>, size_t> where; };
static Space W[2];  // small numbers, and numbers around the limits of 32 bits
static const char* SYM[3] = {"i", "j", "N"};
static bool infinite(const E& e, int& sign) { if (!SymEngine::is_a<SymEngine::Infty>(*e)) return false; sign = SymEngine::eq(*e, *SymEngine::Inf) ? 1 : -1; return true; }
static bool endless(const E& e) { if (SymEngine::is_a<SymEngine::Infty>(*e) || SymEngine::is_a<SymEngine::NaN>(*e)) return true; for (auto& a : e->get_args()) if (endless(a)) return true; return false; }
static int cmp(const Rat& a, i128 b) { i128 x = a.n, y = I::mulchk(b, a.d); return x < y ? -1 : x > y; }

static Assumptions build(const std::vector<Bound>& bs, int constants, bool tight) {
    Assumptions a; int k = 0;
    for (auto& b : bs) {
        auto s = symbolic::symbol(SYM[k]); Assumption x(s);
        for (auto& e : b.lo) x.add_lower_bound(e); for (auto& e : b.up) x.add_upper_bound(e);
        if (!b.lo.empty()) { E m = b.lo[0]; for (auto& e : b.lo) m = symbolic::max(m, e); x.lower_bound_deprecated(m); if (tight) x.tight_lower_bound(m); }
        if (!b.up.empty()) { E m = b.up[0]; for (auto& e : b.up) m = symbolic::min(m, e); x.upper_bound_deprecated(m); if (tight) x.tight_upper_bound(m); }
        x.constant(constants >> k & 1); a.insert({s, x}); k++;
    }
    return a;
}
static bool holds(const std::vector<Bound>& bs, const Env& v) {
    int k = 0; for (auto& b : bs) { Rat x{v.get(SYM[k++]), 1}; for (auto& e : b.lo) { Rat y = eval(e, v); if (y.n > x.n * y.d) return false; } for (auto& e : b.up) { Rat y = eval(e, v); if (y.n < x.n * y.d) return false; } }
    return true;
}
static std::string one(Space& w, World& A, size_t t, long& n, long& claims) {
    auto& T = w.fam.all[t]; auto& env = w.fam.env;
    for (int ps = 0; ps < 4; ps++) {
        symbolic::SymbolSet params; std::vector<std::string> pn; for (int k = 0; k < 3; k++) if ((ps == 1 && k == 2) || (ps == 2 && k > 0) || (ps == 3 && k == 0)) { params.insert(symbolic::symbol(SYM[k])); pn.push_back(SYM[k]); }
        for (int f = 0; f < 6; f++) {
            static const char* names[] = {"minimum", "maximum", "minimum_new", "maximum_new", "tight minimum_new", "tight maximum_new"};
            E b = f == 0 ? symbolic::minimum(T.e, params, A.a) : f == 1 ? symbolic::maximum(T.e, params, A.a) : f == 2 ? symbolic::minimum_new(T.e, params, A.a, false) : f == 3 ? symbolic::maximum_new(T.e, params, A.a, false) : f == 4 ? symbolic::minimum_new(T.e, params, A.a, true) : symbolic::maximum_new(T.e, params, A.a, true);
            if (b.is_null()) continue; bool low = f % 2 == 0; int sign;
            std::string what = std::string(names[f]) + "{" + (pn.empty() ? "" : pn.size() == 1 ? pn[0] : pn[0] + "," + pn[1]) + "} is " + b->__str__();
            if (infinite(b, sign)) { if (sign == (low ? -1 : 1)) continue; for (size_t k : A.ids) if (T.val[k]) return what + ", but " + num(*T.val[k]) + " is reached for " + env[k].str(); continue; }
            if (SymEngine::is_a<SymEngine::NaN>(*b)) return what;
            if (endless(b)) continue;
            for (auto& s : symbolic::atoms(b)) if (!params.contains(s)) return what + ", which is not made of the parameters";
            claims++;
            if (SymEngine::is_a<SymEngine::Integer>(*b)) { i128 v = I::integer_value(b); for (size_t k : A.ids) if (T.val[k]) { n++; if (low ? *T.val[k] < v : *T.val[k] > v) return what + ", but " + num(*T.val[k]) + " is reached for " + env[k].str(); } continue; }
            std::map<std::vector<i128>, std::optional<Rat>> memo;
            for (size_t k : A.ids) if (T.val[k]) {
                std::vector<i128> key; for (auto& s : pn) key.push_back(env[k].get(s)); auto it = memo.find(key);
                if (it == memo.end()) { std::optional<Rat> x; try { x = eval(b, env[k]); } catch (vi::Undefined&) {} it = memo.insert({key, x}).first; }
                if (!it->second) continue; n++; int c = cmp(*it->second, *T.val[k]);
                if (low ? c > 0 : c < 0) return what + ", but " + num(*T.val[k]) + " is reached for " + env[k].str();
            }
        }
    }
    for (int s = 0; s < 3; s++) {
        auto sym = symbolic::symbol(SYM[s]);
        if (symbolic::maps::is_monotonic(T.e, sym, A.a)) {
            claims++;
            for (auto& line : w.next[s]) { int last = -1; for (int k : line) if (A.sat[k] && T.val[k]) { n++; if (last >= 0 && *T.val[k] <= *T.val[last]) return "said to grow with " + std::string(SYM[s]) + ", but is " + num(*T.val[last]) + " for " + env[last].str() + " and " + num(*T.val[k]) + " for " + env[k].str(); last = k; } }
        }
        bool mono = symbolic::series::is_monotonic(T.e, sym, A.a), cont = symbolic::series::is_contiguous(T.e, sym, A.a); auto [aff, co] = symbolic::series::affine_int_coeffs(T.e, sym, A.a);
        claims += mono + cont + aff; if (!mono && !cont && !aff) continue;
        for (size_t k : A.ids) if (T.val[k]) {
            n++; i128 x = env[k].get(SYM[s]), y = *T.val[k];
            if (cont && y != x + 1) return "said to be contiguous in " + std::string(SYM[s]) + ", but goes from " + num(x) + " to " + num(y) + " for " + env[k].str();
            if (aff && y != x * I::integer_value(co.first) + I::integer_value(co.second)) return "said to be " + co.first->__str__() + "*" + SYM[s] + "+" + co.second->__str__() + ", but is " + num(y) + " for " + env[k].str();
            if (mono) { int dir = 0; Env e = env[k]; for (int step = 0; step < 3; step++) { i128 p = e.get(SYM[s]), q; try { Rat r = eval(T.e, e); q = I::whole(r); } catch (vi::Undefined&) { break; } int d = q < p ? -1 : q > p; if (d && dir && d != dir) return "said to be a monotonic series in " + std::string(SYM[s]) + ", but turns back at " + num(p) + " from " + env[k].str(); if (d) dir = d; e = e.with(SYM[s], q); if (q < -1000 || q > 1000) break; auto z = w.where.find({e.get("i"), e.get("j"), e.get("N")}); if (z == w.where.end() || !A.sat[z->second]) break; } }
        }
    }
    return "";
}
static void worlds(Space& w, const std::vector<std::vector<Bound>>& per, const std::vector<std::pair<int, bool>>& modes, bool thorough) {
    for (size_t s = 0; s < 3; s++) { std::map<std::string, std::vector<int>> lines; for (size_t k = 0; k < w.fam.env.size(); k++) { std::string key; for (int q = 0; q < 3; q++) if (q != (int)s) key += num(w.fam.env[k].get(SYM[q])) + ","; lines[key].push_back(k); } for (auto& l : lines) w.next[s].push_back(l.second); }
    for (size_t k = 0; k < w.fam.env.size(); k++) { auto& e = w.fam.env[k]; w.where[{e.get("i"), e.get("j"), e.get("N")}] = k; }
    size_t c = 0;
    for (auto& a : per[0]) for (auto& b : per[1]) for (auto& d : per[2]) {
        std::vector<Bound> bs{a, b, d}; bool circular = false;
        // bounds may refer to other symbols, but not around a circle
        auto refs = [&](int k) { std::set<std::string> r; for (auto* v : {&bs[k].lo, &bs[k].up}) for (auto& e : *v) for (auto& s : symbolic::atoms(e)) r.insert(s->get_name()); return r; };
        auto ri = refs(0), rj = refs(1), rn = refs(2); if ((ri.count("j") && rj.count("i")) || (ri.count("N") && rn.count("i")) || (rj.count("N") && rn.count("j")) || (ri.count("j") && rj.count("N") && rn.count("i")) || (ri.count("N") && rn.count("j") && rj.count("i"))) circular = true;
        if (circular) continue;
        for (auto& [constants, tight] : modes) {
            if (!thorough && modes.size() > 1 && c++ % 3) continue;
            World x; x.name = a.name + " " + b.name + " " + d.name + (tight ? " tight" : ""); x.a = build(bs, constants, tight); x.sat.assign(w.fam.env.size(), 0);
            for (size_t k = 0; k < w.fam.env.size(); k++) if (holds(bs, w.fam.env[k])) { x.sat[k] = 1; x.ids.push_back(k); }
            if (!x.ids.empty()) w.worlds.push_back(x);
        }
    }
}
static void types_case(vc::Run& r) {
    using PT = types::PrimitiveType;
    struct { PT t; i128 lo, hi; } ts[] = {{PT::Bool, 0, 1}, {PT::Int8, -128, 127}, {PT::UInt8, 0, 255}, {PT::Int16, -32768, 32767}, {PT::UInt16, 0, 65535}, {PT::Int32, -((i128)1 << 31), ((i128)1 << 31) - 1}, {PT::UInt32, 0, ((i128)1 << 32) - 1}, {PT::Int64, -((i128)1 << 63), ((i128)1 << 63) - 1}, {PT::UInt64, 0, ((i128)1 << 64) - 1}};
    for (auto t : ts) r.kase([=] { return std::string("type ") + types::primitive_type_to_string(t.t); }, [&r, t] {
        auto a = Assumption::create(symbolic::symbol("i"), types::Scalar(t.t)); int s;
        for (E e : {a.lower_bound(), a.lower_bound_deprecated(), a.lower_bounds().empty() ? E(SymEngine::NegInf) : *a.lower_bounds().begin()}) if (infinite(e, s) ? s > 0 : I::integer_value(e) > t.lo) r.report("type|low", "the lower bound " + e->__str__() + " excludes values of the type");
        for (E e : {a.upper_bound(), a.upper_bound_deprecated(), a.upper_bounds().empty() ? E(SymEngine::Inf) : *a.upper_bounds().begin()}) if (infinite(e, s) ? s < 0 : I::integer_value(e) < t.hi) r.report("type|high", "the upper bound " + e->__str__() + " excludes values of the type");
        r.nontrivial(vc::hash_str(std::string("t") + types::primitive_type_to_string(t.t)));
    });
}
static void space(vc::Run& r) {
    vk::init(); W[0] = {}; W[1] = {};
    auto n = [](int64_t k) { return E(symbolic::integer(k)); }; E S = symbolic::symbol("i"), J = symbolic::symbol("j"), N = symbolic::symbol("N");
    {
        auto& w = W[0]; w.fam.env = grid({{"i", {-4, -3, -2, -1, 0, 1, 2, 3, 4, 6}}, {"j", {-3, -2, -1, 0, 1, 2, 3, 5}}, {"N", {-3, -2, -1, 0, 1, 2, 3, 4, 5}}});
        auto& f = w.fam; f.folded = true; for (auto s : SYM) f.symbol(s); for (int k : {-2, -1, 1, 2, 3}) f.number(k);
        size_t l0 = f.all.size(); f.grow(0, l0, 0, l0, "+-*/%<>", 4); size_t l1 = f.all.size();
        // two operations: without the repeated ones
        if (r.thorough) f.grow(l0, l1, 0, l0, "+-*<>/", 1); else { f.grow(l0, l1, 0, 3, "+-*<>", 0); f.grow(l0, l1, 4, 7, "*+", 0); }
        std::vector<std::vector<Bound>> per(3);
        per[0] = {{"i?", {}, {}}, {"0<=i", {n(0)}, {}}, {"i<=3", {}, {n(3)}}, {"-2<=i<=3", {n(-2)}, {n(3)}}, {"1<=i<=2", {n(1)}, {n(2)}}, {"-3<=i<=-1", {n(-3)}, {n(-1)}}, {"0<=i<N", {n(0)}, {symbolic::sub(N, n(1))}}, {"j<=i<=j+2", {J}, {symbolic::add(J, n(2))}}, {"0,j<=i<=3,N", {n(0), J}, {n(3), N}}, {"-N<=i<=2N", {symbolic::sub(n(0), N)}, {symbolic::mul(n(2), N)}}};
        per[1] = {{"j?", {}, {}}, {"0<=j<=3", {n(0)}, {n(3)}}, {"-3<=j<=-1", {n(-3)}, {n(-1)}}, {"1<=j<=N", {n(1)}, {N}}, {"i<=j<=5", {S}, {n(5)}}};
        per[2] = {{"N?", {}, {}}, {"1<=N", {n(1)}, {}}, {"-1<=N<=4", {n(-1)}, {n(4)}}, {"N<=-1", {}, {n(-1)}}, {"1<=N<=2", {n(1)}, {n(2)}}};
        worlds(w, per, {{4, true}, {6, false}}, r.thorough);
    }
    {
        auto& w = W[1]; std::vector<Env> g{{}}; i128 B = (i128)1 << 31;
        auto add = [&](const char* s, std::vector<i128> vals) { std::vector<Env> q; for (auto& e : g) for (auto x : vals) { auto f = e; f.v.push_back({s, x}); q.push_back(f); } g = q; };
        add("i", {-2 * B - 1, -B - 1, -B, -1, 0, 1, B - 1, B, 2 * B - 1, 2 * B, 2 * B + 5}); add("j", {-B, -1, 0, 2, B - 1}); add("N", {0, 1, B - 1, B, 2 * B + 1}); w.fam.env = g;
        // values of extension and truncation follow the evaluator: 64-bit and 32-bit two's complement
        auto& f = w.fam; f.folded = true; for (auto s : SYM) f.symbol(s); for (int k : {-1, 1, 2}) f.number(k);
        size_t l0 = f.all.size(); f.grow(0, l0, 0, l0, "+-*<>", 0); size_t l1 = f.all.size();
        for (size_t k = 0; k < l1; k++) { auto T = f.all[k]; for (int u = 0; u < 2; u++) { Values v; for (auto& x : T.val) v.push_back(x ? std::optional<i128>(u ? (i128)(int32_t)(int64_t)*x : (i128)(int64_t)*x) : x); f.put((u ? "trunc(" : "zext(") + T.name + ")", u ? symbolic::trunc_i32(T.e) : symbolic::zext_i64(T.e), v); } }
        size_t l2 = f.all.size(); f.grow(l1, l2, 0, l0, "+*<", 0);
        std::vector<std::vector<Bound>> per(3); int64_t b = (int64_t)B;
        per[0] = {{"i?", {}, {}}, {"0<=i<2^32+6", {n(0)}, {n(2 * b + 5)}}, {"int32 i", {n(-b)}, {n(b - 1)}}, {"0<=i<N", {n(0)}, {symbolic::sub(N, n(1))}}, {"-2^32-1<=i<=0", {n(-2 * b - 1)}, {n(0)}}, {"2^31<=i<=2^32-1", {n(b)}, {n(2 * b - 1)}}};
        per[1] = {{"j?", {}, {}}, {"0<=j", {n(0)}, {}}, {"int32 j", {n(-b)}, {n(b - 1)}}};
        per[2] = {{"N?", {}, {}}, {"0<=N<2^31", {n(0)}, {n(b - 1)}}, {"1<=N<=2^32+1", {n(1)}, {n(2 * b + 1)}}};
        worlds(w, per, {{4, true}}, true);
    }
    types_case(r);
    size_t block = 60;
    for (int s = 0; s < 2; s++) for (size_t a = 0; a < W[s].worlds.size(); a++) for (size_t b = 0; b < W[s].fam.all.size(); b += block)
        r.kase([=] { return W[s].worlds[a].name + " terms " + std::to_string(b); }, [&r, s, a, b, block] {
            auto& w = W[s]; long n = 0, claims = 0;
            for (size_t t = b; t < b + block && t < w.fam.all.size(); t++) {
                std::string m; try { m = one(w, w.worlds[a], t, n, claims); } catch (std::exception& e) { m = std::string("throws ") + e.what(); }
                if (!m.empty()) r.report("bound|" + w.worlds[a].name + "|" + w.fam.all[t].name, w.fam.all[t].name + " under " + w.worlds[a].name + ": " + m);
            }
            r.count(vc::Run::TRANS, n); r.count(vc::Run::AUX0, claims); if (claims) r.nontrivial(vc::hash_str(w.worlds[a].name + std::to_string(b)));
        });
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every set of assumptions on i, j, N x every term up to two operations x every derived bound, monotonicity and contiguity claim x every assignment of a window that satisfies the assumptions";
    o.extra_counters = {{8, "claims"}};
    return vc::main_impl(argc, argv, space, o);
}
