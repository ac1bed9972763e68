// C22: claims that index maps do not meet, that one covers another, and multi-dimensional forms of accesses, against all assignments of a window.
#include "symkit.h"
#include <sdfg/symbolic/maps.h>
#include <sdfg/symbolic/sets.h>
#include <sdfg/symbolic/utils.h>
using namespace sk;
using symbolic::Assumption; using symbolic::Assumptions; using symbolic::MultiExpression;
struct Spec { std::string name; bool constant; E lo, up; int step = 0; };  // step 0: no loop
struct Side { Assumptions a; std::vector<size_t> ids; std::vector<size_t> reach[4]; bool finite = true; };  // reach: assignments as constrained for an index over i (1), j (2)
struct World { std::string name; Side s[2]; std::vector<int> shared; bool same; };
static std::vector<Env> env; static std::vector<World> worlds;
struct Index { std::string name; MultiExpression e; int mask = 0; std::vector<std::vector<std::optional<i128>>> val; };
static std::vector<Index> pool;
static const char* SYM[4] = {"i", "j", "N", "M"};

static Assumptions build(const std::vector<Spec>& ss) {
    Assumptions a; int k = 0;
    for (auto& s : ss) {
        auto x = symbolic::symbol(SYM[k++]); Assumption q(x);
        if (!s.lo.is_null()) { q.add_lower_bound(s.lo); q.lower_bound_deprecated(s.lo); if (s.step) q.tight_lower_bound(s.lo); }
        if (!s.up.is_null()) { q.add_upper_bound(s.up); q.upper_bound_deprecated(s.up); if (s.step == 1) q.tight_upper_bound(s.up); }
        if (s.step) q.map(symbolic::add(x, symbolic::integer(s.step)));
        q.constant(s.constant); a.insert({x, q});
    }
    return a;
}
// Constraints of loops an index does not depend on say nothing about it: it may be outside of them. mask: the non-constant ones that count; others are pinned to 0.
static bool holds(const std::vector<Spec>& ss, const Env& v, int mask = 3) {
    int k = 0;
    for (auto& s : ss) { int at = k; i128 x = v.get(SYM[k++]); if (at < 2 && !s.constant && !(mask >> at & 1)) { if (x) return false; continue; } if (!s.lo.is_null() && I::whole(eval(s.lo, v)) > x) return false; if (!s.up.is_null() && I::whole(eval(s.up, v)) < x) return false; if (s.step > 1 && (x - I::whole(eval(s.lo, v))) % s.step) return false; }
    return true;
}
typedef std::vector<i128> Key;
struct KeyHash { size_t operator()(const Key& k) const { size_t h = 7; for (auto x : k) h = h * 1000003 ^ (size_t)(int64_t)x; return h; } };
static bool value(const MultiExpression& e, const Env& v, Key& out) { try { for (auto& d : e) { Rat r = eval(d, v); if (r.d != 1) return false; out.push_back(r.n); } return true; } catch (vi::Undefined&) { return false; } }
static bool key(const World& w, const Index& x, size_t k, Key& out) { for (int s : w.shared) out.push_back(env[k].get(SYM[s])); for (auto& d : x.val) { if (!d[k]) return false; out.push_back(*d[k]); } return true; }
static bool key(const World& w, const MultiExpression& x, size_t k, Key& out) { for (int s : w.shared) out.push_back(env[k].get(SYM[s])); return value(x, env[k], out); }
static std::string text(const MultiExpression& m) { std::string r; for (auto& d : m) r += (r.empty() ? "" : ", ") + d->__str__(); return "(" + r + ")"; }

// Two assignments of the sides at which the indices meet (with different iterations, if asked)
static std::string meet(const World& w, const Index& a, const Index& b, bool different, long& n) {
    std::unordered_map<Key, std::array<int, 2>, KeyHash> seen;  // two environments with different i
    for (size_t k : w.s[0].ids) { Key q; if (!key(w, a, k, q)) continue; n++; auto [it, fresh] = seen.insert({q, {(int)k, -1}}); if (!fresh && it->second[1] < 0 && env[it->second[0]].get("i") != env[k].get("i")) it->second[1] = k; }
    for (size_t k : w.s[1].ids) { Key q; if (!key(w, b, k, q)) continue; n++; auto it = seen.find(q); if (it == seen.end()) continue; for (int z : it->second) if (z >= 0 && (!different || env[z].get("i") != env[k].get("i"))) return env[z].str() + " and " + env[k].str(); }
    return "";
}
// An assignment of the first side that no assignment of the second equals
static std::string missing(const World& w, const Index& a, const Index& b, long& n) {
    std::unordered_set<Key, KeyHash> have; for (size_t k : w.s[1].reach[b.mask]) { Key q; n++; if (key(w, b, k, q)) have.insert(q); }
    for (size_t k : w.s[0].reach[a.mask]) { Key q; n++; if (key(w, a, k, q) && !have.count(q)) return env[k].str(); }
    return "";
}
// The multi-dimensional form tells the same elements apart
static std::string form(const World& w, int s1, const Index& a, const MultiExpression& f, int s2, const Index& b, const MultiExpression& g, long& n) {
    if (f.size() != g.size() || a.val.size() != b.val.size()) return f.size() == a.e.size() && g.size() == b.e.size() ? "" : "has different numbers of dimensions";
    std::unordered_map<Key, std::pair<Key, int>, KeyHash> by_form, by_index;
    for (int z = 0; z < 2; z++) for (size_t k : w.s[z ? s2 : s1].ids) {
        Key q, p; if (!key(w, z ? b : a, k, q)) continue; n++; if (!key(w, z ? g : f, k, p)) return "has no value for " + env[k].str();
        auto it = by_form.insert({p, {q, (int)k}}).first; if (it->second.first != q) return "is the same for different elements: " + env[it->second.second].str() + " and " + env[k].str();
        auto jt = by_index.insert({q, {p, (int)k}}).first; if (jt->second.first != p) return "tells one element apart: " + env[jt->second.second].str() + " and " + env[k].str();
    }
    return "";
}
static bool eqs(const MultiExpression& a, const MultiExpression& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); k++) if (!symbolic::eq(a[k], b[k])) return false; return true; }
static void pair(vc::Run& r, const World& w, const Index& a, const Index& b, long& n, long* claims) {
    std::string where = a.name + " and " + b.name + " under " + w.name, m; auto indvar = symbolic::symbol("i");
    auto bad = [&](const std::string& kind, const std::string& t) { r.report(kind + "|" + w.name + "|" + a.name + "|" + b.name, where + ": " + t); };
    auto [f, g] = symbolic::delinearize(a.e, b.e, w.s[0].a, w.s[1].a);
    if (!eqs(f, a.e) || !eqs(g, b.e)) { claims[3]++; if (!(m = form(w, 0, a, f, 1, b, g, n)).empty()) { bad("form", "the form " + text(f) + ", " + text(g) + " " + m); return; } }
    if (a.e.size() == b.e.size()) {
        if (!symbolic::maps::intersects(a.e, b.e, indvar, w.s[0].a, w.s[1].a)) { claims[0]++; if (!(m = meet(w, a, b, true, n)).empty()) bad("intersects", "said not to meet across iterations, but do for " + m); }
        if (symbolic::is_disjoint(a.e, b.e, w.s[0].a, w.s[1].a)) { claims[1]++; if (!(m = meet(w, a, b, false, n)).empty()) bad("disjoint", "said to be disjoint, but meet for " + m); }
        bool known = w.s[1].finite; if (b.mask & 2 && w.s[1].a.at(symbolic::symbol("j")).constant() && std::find(w.shared.begin(), w.shared.end(), 1) == w.shared.end()) known = false;  // j of the second side is some constant the first does not know
        if (known && symbolic::is_subset(a.e, b.e, w.s[0].a, w.s[1].a)) { claims[2]++; if (!(m = missing(w, a, b, n)).empty()) bad("subset", "the first is said to be a part of the second, which does not have its element for " + m); }
    } else if (symbolic::is_subset(a.e, b.e, w.s[0].a, w.s[1].a) || symbolic::is_disjoint(a.e, b.e, w.s[0].a, w.s[1].a)) claims[4]++;
}
static void single(vc::Run& r, const World& w, const Index& a, long& n, long* claims) {
    for (int s = 0; s < 2; s++) { auto f = symbolic::delinearize(a.e, w.s[s].a); if (eqs(f, a.e)) continue; claims[3]++; auto m = form(w, s, a, f, s, a, f, n); if (!m.empty()) r.report("form|" + w.name + "|" + a.name, a.name + " under " + w.name + ": the form " + text(f) + " " + m); }
}
static void space(vc::Run& r) {
    vk::init(); env = grid({{"i", {-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7}}, {"j", {-2, -1, 0, 1, 2, 3, 4, 5, 6, 7}}, {"N", {-1, 0, 1, 2, 3, 4, 6}}, {"M", {0, 1, 2, 3, 5}}}); worlds.clear(); pool.clear();
    auto n = [](int64_t k) { return E(symbolic::integer(k)); }; E S = symbolic::symbol("i"), J = symbolic::symbol("j"), N = symbolic::symbol("N"), M = symbolic::symbol("M"), none;
    auto plus = [](E a, E b) { return symbolic::add(a, b); }; auto minus = [](E a, E b) { return symbolic::sub(a, b); }; auto times = [](E a, E b) { return symbolic::mul(a, b); }; auto over = [](E a, E b) { return symbolic::div(a, b); };
    std::vector<Spec> is{{"0<=i<N", false, n(0), minus(N, n(1)), 1}, {"0<=i<=5", false, n(0), n(5), 1}, {"-3<=i<=3", false, n(-3), n(3), 1}, {"0<=i<=7:2", false, n(0), n(7), 2}, {"1<=i<N:3", false, n(1), minus(N, n(1)), 3}, {"i?", false, none, none, 0}, {"M<=i<=7:2", false, M, n(7), 2}};
    std::vector<Spec> js{{"0<=j<=3", false, n(0), n(3), 1}, {"0<=j<M", false, n(0), minus(M, n(1)), 1}, {"0<=j<=i", false, n(0), S, 1}, {"outer 0<=j<=3", true, n(0), n(3), 1}, {"parameter j", true, none, none, 0}, {"j?", false, none, none, 0}, {"1<=j<=5:2", false, n(1), n(5), 2}, {"4<=j<=7", false, n(4), n(7), 1}, {"0<=j<N", false, n(0), minus(N, n(1)), 1}, {"i<j<=7", false, plus(S, n(1)), n(7), 1}, {"-2<=j<=2", false, n(-2), n(2), 1}};
    std::vector<Spec> ns{{"1<=N", true, n(1), none}, {"N", true, none, none}, {"2<=N<=4", true, n(2), n(4)}, {"M<=N", true, M, none}};
    std::vector<Spec> ms{{"1<=M", true, n(1), none}, {"M", true, none, none}, {"M<=N", true, n(1), N}};
    struct W2 { int i, j1, j2, n, m; }; std::vector<W2> ws;
    for (int i = 0; i < (int)is.size(); i++) for (int j = 0; j < (int)js.size(); j++) for (int a = 0; a < (int)ns.size(); a++) for (int b = 0; b < (int)ms.size(); b++) {
        if (a == 3 && b == 2) continue;
        if (r.thorough ? (i + j + a + b) % 2 == 0 : (i * 5 + j * 3 + a * 2 + b) % 17 == 0 || (i == 0 && a == 0 && b == 0 && j != 2)) ws.push_back({i, j, j, a, b});
    }
    for (auto [a, b] : std::vector<std::pair<int, int>>{{0, 5}, {5, 0}, {0, 7}, {7, 0}, {1, 8}, {8, 1}, {2, 0}, {2, 9}, {9, 2}, {6, 0}, {3, 0}, {0, 3}, {4, 0}, {5, 4}}) for (int i : {0, 1, 3}) for (int q = 0; q < 2; q++) if (r.thorough || (a + b + i + q) % 4 == 1) ws.push_back({i, a, b, q, q});
    for (auto& q : ws) {
        World w; w.name = is[q.i].name + " " + js[q.j1].name + (q.j1 == q.j2 ? "" : " / " + js[q.j2].name) + " " + ns[q.n].name + " " + ms[q.m].name; w.same = q.j1 == q.j2;
        for (int s = 0; s < 2; s++) {
            std::vector<Spec> sp{is[q.i], js[s ? q.j2 : q.j1], ns[q.n], ms[q.m]}; w.s[s].a = build(sp); bool in = false; for (E b : {sp[1].lo, sp[1].up}) in |= !b.is_null() && symbolic::uses(b, "i");
            for (size_t k = 0; k < env.size(); k++) { if (holds(sp, env[k])) w.s[s].ids.push_back(k); for (int q = 0; q < 4; q++) if (holds(sp, env[k], q | (in && q & 2 ? 1 : 0))) w.s[s].reach[q].push_back(k); }
            w.s[s].finite = !sp[0].up.is_null() && (sp[1].constant || !sp[1].up.is_null());
        }
        for (int k = 1; k < 4; k++) { auto x = symbolic::symbol(SYM[k]); if (w.s[0].a.at(x).constant() && w.s[1].a.at(x).constant()) w.shared.push_back(k); }
        if (!w.s[0].ids.empty() && !w.s[1].ids.empty()) worlds.push_back(w);
    }
    auto put = [&](MultiExpression e) { Index x; x.e = e; x.name = text(e); for (auto& d : e) x.mask |= (symbolic::uses(d, "i") ? 1 : 0) | (symbolic::uses(d, "j") ? 2 : 0); for (auto& d : e) { std::vector<std::optional<i128>> v; for (auto& q : env) { try { Rat z = eval(d, q); v.push_back(z.d == 1 ? std::optional<i128>(z.n) : std::nullopt); } catch (vi::Undefined&) { v.push_back({}); } } x.val.push_back(v); } pool.push_back(x); };
    std::vector<E> one{S, plus(S, n(1)), times(n(2), S), plus(times(n(2), S), n(1)), minus(N, S), times(N, S), plus(times(N, S), J), plus(plus(times(N, S), J), n(1)), plus(S, J), minus(S, J), plus(times(n(4), S), J), plus(times(M, S), J), times(S, S), times(S, J), J, n(5), over(S, n(2)), over(plus(S, n(1)), n(2)), over(minus(S, n(1)), n(2)), symbolic::mod(S, n(2)), plus(times(N, J), S), symbolic::abs(S), symbolic::abs(minus(S, n(2))), symbolic::min(S, n(3)), symbolic::max(minus(S, J), n(0)), plus(times(times(N, M), S), times(M, J)), plus(times(N, minus(S, n(1))), J), plus(S, N), plus(minus(times(N, S), n(1)), J), minus(n(0), S), symbolic::zext_i64(S), plus(times(M, J), S)};
    for (auto& e : one) put({e});
    size_t d1 = pool.size();
    std::vector<E> d2s{S, J, plus(S, n(1)), n(0), over(S, n(2)), symbolic::mod(S, n(2)), plus(S, J), plus(J, n(1)), plus(times(N, S), J), symbolic::abs(S)};
    std::vector<std::pair<int, int>> two{{0, 1}, {1, 0}, {2, 1}, {0, 7}, {0, 3}, {3, 1}, {4, 1}, {4, 5}, {6, 1}, {0, 0}, {1, 1}, {8, 0}, {9, 1}, {5, 0}}; for (auto& [a, b] : two) put({d2s[a], d2s[b]});
    size_t d2 = pool.size();
    put({S, J, plus(S, J)}); put({J, plus(times(N, S), J), n(1)}); size_t d3 = pool.size();
    auto run = [&r](size_t w, size_t a, size_t b0, size_t b1) { long n = 0, c[5] = {0, 0, 0, 0, 0}; auto& W = worlds[w]; for (size_t b = b0; b <= b1; b++) try { if (b == b1) single(r, W, pool[a], n, c); else pair(r, W, pool[a], pool[b], n, c); } catch (std::exception& e) { auto o = b == b1 ? pool[a].name : pool[a].name + " and " + pool[b].name; r.report("throws|" + W.name + "|" + o, o + " under " + W.name + ": throws " + e.what()); } r.count(vc::Run::TRANS, n); for (int k = 0; k < 4; k++) r.count(vc::Run::AUX0 + k, c[k]); if (c[0] + c[1] + c[2] + c[3]) r.nontrivial(vc::hash_str(W.name + pool[a].name)); };
    for (size_t w = 0; w < worlds.size(); w++) {
        for (size_t a = 0; a < d1; a++) r.kase([=] { return worlds[w].name + ": " + pool[a].name + " against all"; }, [=] { run(w, a, 0, d1); });
        for (size_t a = d1; a < d2; a++) r.kase([=] { return worlds[w].name + ": " + pool[a].name + " against all"; }, [=] { run(w, a, d1, d2); });
        for (size_t a = d2; a < d3; a++) r.kase([=] { return worlds[w].name + ": " + pool[a].name + " against all"; }, [=] { run(w, a, d2, d3); run(w, a, d1, d1 + 1); run(w, d1, a, a + 1); run(w, 0, a, a + 1); });
    }
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every pair of a pool of index maps x every set of assumptions x every claim of disjointness, overlap, inclusion and multi-dimensional form x every pair of assignments of a window";
    o.extra_counters = {{8, "claims_apart"}, {9, "claims_disjoint"}, {10, "claims_subset"}, {11, "claims_form"}};
    return vc::main_impl(argc, argv, space, o);
}
