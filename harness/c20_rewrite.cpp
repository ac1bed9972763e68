// C20: rewriting keeps the value of expressions and the truth of conditions.
#include "symkit.h"
#include <sdfg/symbolic/conjunctive_normal_form.h>
#include <sdfg/symbolic/polynomials.h>
using namespace sk;
static Family fam; static std::vector<std::pair<std::string, C>> cs; static std::vector<std::vector<char>> truth;  // truth: 2 = undefined
static std::vector<E> fs; static std::vector<std::string> fn;
static std::unordered_map<E, size_t, SymEngine::RCPBasicHash, SymEngine::RCPBasicKeyEq> first;

// Does e have the values v (where those are defined)?
static std::string check(const char* what, const E& e, const Values& v, long& n) {
    if (e.is_null()) return std::string(what) + " gives nothing";
    for (size_t k = 0; k < fam.env.size(); k++) {
        if (!v[k]) continue; n++;
        try { Rat r = eval(e, fam.env[k]); if (r.d == 1 && r.n == *v[k]) continue; return std::string(what) + " gives " + e->__str__() + ", which is " + num(r.n) + (r.d != 1 ? "/" + num(r.d) : "") + " instead of " + num(*v[k]) + " for " + fam.env[k].str(); }
        catch (vi::Undefined& u) { return std::string(what) + " gives " + e->__str__() + ", which is undefined (" + u.what() + ") for " + fam.env[k].str(); }
    }
    return "";
}
static bool opaque(const E& e) { if (SymEngine::is_a<SymEngine::FunctionSymbol>(*e) && symbolic::atoms(e).empty()) return true; for (auto& a : e->get_args()) if (opaque(a)) return true; return false; }
static std::string terms(size_t i, bool few, long& n) {
    auto& t = fam.all[i]; std::string m; auto J = symbolic::symbol("j"), N = symbolic::symbol("N"), S = symbolic::symbol("i");
    if (!(m = check("construction", t.e, t.val, n)).empty()) return m;
    auto f = first.find(t.e); if (f != first.end() && f->second != i) for (size_t k = 0; k < t.val.size(); k++) if (t.val[k] && fam.all[f->second].val[k] && *t.val[k] != *fam.all[f->second].val[k]) return "equal to " + fam.all[f->second].name + ", but " + num(*t.val[k]) + " is not " + num(*fam.all[f->second].val[k]) + " for " + fam.env[k].str();
    if (f != first.end() && f->second != i) return "";  // its rewrites are those of the first such term
    auto simple = symbolic::simplify(t.e), wide = symbolic::expand(t.e);
    if (!(m = check("simplify()", simple, t.val, n)).empty()) return m;
    if (!(m = check("simplify() twice", symbolic::simplify(simple), t.val, n)).empty()) return m;
    if (!(m = check("expand()", wide, t.val, n)).empty()) return m;
    if (!(m = check("simplify() of expand()", symbolic::simplify(wide), t.val, n)).empty()) return m;
    serializer::JSONSerializer js; auto text = js.expression(t.e);
    if (!(m = check("printing and parsing", symbolic::parse(text), t.val, n)).empty()) return m;
    // uses
    for (auto& s : {S, J, N}) { bool u = symbolic::uses(t.e, s), a = symbolic::atoms(t.e).contains(s), b = symbolic::uses(t.e, s->get_name()); if (u != a || u != b) return "uses() and atoms() disagree about " + s->get_name();
        if (!u) for (size_t k = 0; k < fam.env.size(); k++) for (size_t l = 0; l < k; l++) if (t.val[k] && t.val[l] && *t.val[k] != *t.val[l]) { bool only = true; for (size_t q = 0; q < fam.env[k].v.size(); q++) if (fam.env[k].v[q].first != s->get_name() && fam.env[k].v[q].second != fam.env[l].v[q].second) only = false; if (only) return "its value depends on " + s->get_name() + ", which it is said not to use"; } }
    // substitution
    for (size_t q = 0; q < fs.size(); q++) for (auto& s : {S, N}) {
        if (!symbolic::uses(t.e, s)) continue;
        Values v; for (auto& e : fam.env) { std::optional<i128> x; try { Rat r = eval(t.e, e.with(s->get_name(), I::whole(eval(fs[q], e)))); x = I::whole(r); } catch (vi::Undefined&) {} v.push_back(x); }
        auto sub = symbolic::subs(t.e, s, fs[q]); if (!(m = check(("replacing " + s->get_name() + " by " + fn[q]).c_str(), sub, v, n)).empty()) return m;
        if (!symbolic::uses(fs[q], s) && symbolic::uses(sub, s)) return s->get_name() + " is still used after it was replaced by " + fn[q];
        if (!few) if (!(m = check(("simplify() after replacing " + s->get_name() + " by " + fn[q]).c_str(), symbolic::simplify(sub), v, n)).empty()) return m;
    }
    // linear decomposition
    for (auto syms : {symbolic::SymbolVec{S}, {S, J}, {J, S}, {N, J, S}, {S, N, J}, {N}}) {
        auto poly = symbolic::polynomial(t.e, syms); if (poly.is_null()) continue;
        auto c = symbolic::affine_coefficients(poly, syms); if (c.empty()) continue;
        E sum = c.at(symbolic::symbol("__daisy_constant__")); for (auto& s : syms) { sum = symbolic::add(sum, symbolic::mul(c.at(s), s)); }
        for (auto& [s, e] : c) for (auto& o : syms) if (symbolic::uses(e, o)) return "the coefficient " + e->__str__() + " of " + s->get_name() + " is not free of " + o->get_name();
        if (!(m = check("the sum of its linear parts", sum, t.val, n)).empty()) return m;
    }
    // inverse of a map
    for (auto& s : {S, N}) {
        auto inv = symbolic::inverse(t.e, s); if (inv.is_null()) continue;
        for (size_t k = 0; k < fam.env.size(); k++) if (t.val[k]) { n++; try { Rat r = eval(inv, fam.env[k].with(s->get_name(), *t.val[k])); if (r.d != 1 || r.n != fam.env[k].get(s->get_name())) return "the inverse for " + s->get_name() + " is " + inv->__str__() + ", which gives " + num(r.n) + " instead of " + num(fam.env[k].get(s->get_name())) + " for " + fam.env[k].str(); } catch (vi::Undefined&) {} }
    }
    // polynomial division
    std::vector<E> ds{symbolic::integer(1), symbolic::integer(2), symbolic::integer(-3), N, J, symbolic::add(N, symbolic::one()), symbolic::mul(N, symbolic::integer(2)), symbolic::mul(N, J), symbolic::sub(N, J), symbolic::max(N, symbolic::one()), symbolic::mul(N, symbolic::max(J, symbolic::one()))};
    // (for functions of constants the quotient is a nest of a hundred divisions, too large to evaluate)
    bool open = !opaque(t.e);
    if (open) for (auto& d : ds) {
        auto [q, r] = symbolic::polynomial_div(t.e, d);
        for (size_t k = 0; k < fam.env.size(); k++) if (t.val[k]) { n++; try { if (eval(d, fam.env[k]).n == 0) continue; Rat a = eval(q, fam.env[k]), b = eval(d, fam.env[k]), c = eval(r, fam.env[k]), w = I::add(I::mul(a, b), c); if (w.d != 1 || w.n != *t.val[k]) return "division by " + d->__str__() + " gives " + q->__str__() + ", remainder " + r->__str__() + ": wrong for " + fam.env[k].str(); } catch (vi::Undefined&) {} }
    }
    for (auto& d : {E(symbolic::integer(1)), E(symbolic::integer(2)), E(symbolic::integer(4)), E(N), E(symbolic::add(N, symbolic::one()))}) {
        auto q = symbolic::divide_ceil(t.e, d);
        for (size_t k = 0; k < fam.env.size(); k++) if (t.val[k] && *t.val[k] >= 0) { i128 y = eval(d, fam.env[k]).n; if (y <= 0) continue; n++; i128 w = (*t.val[k] + y - 1) / y; try { Rat r = eval(q, fam.env[k]); if (r.d != 1 || r.n != w) return "divide_ceil by " + d->__str__() + " gives " + q->__str__() + ": " + num(r.n) + " instead of " + num(w) + " for " + fam.env[k].str(); } catch (vi::Undefined& u) { return "divide_ceil by " + d->__str__() + " is undefined for " + fam.env[k].str(); } }
    }
    return "";
}
static std::string same(const char* what, const E& e, const std::vector<char>& t, long& n) {
    for (size_t k = 0; k < fam.env.size(); k++) { if (t[k] == 2) continue; n++; try { if (cond(e, fam.env[k]) != (bool)t[k]) return std::string(what) + " gives " + e->__str__() + ", which is " + (t[k] ? "false" : "true") + " for " + fam.env[k].str(); } catch (vi::Undefined& u) { return std::string(what) + " gives " + e->__str__() + ", which is undefined for " + fam.env[k].str(); } }
    return "";
}
static std::string conditions(size_t i, long& n, bool& refused) {
    auto& [name, c] = cs[i]; std::string m; auto& t = truth[i]; std::vector<char> neg; for (char x : t) neg.push_back(x == 2 ? 2 : !x);
    if (!(m = same("construction", c, t, n)).empty()) return m;
    if (!(m = same("Not()", symbolic::Not(c), neg, n)).empty()) return m;
    if (!(m = same("simplify()", symbolic::simplify(c), t, n)).empty()) return m;
    bool all = true, none = true; for (char x : t) { if (x == 0) all = false; if (x == 1) none = false; }
    if (symbolic::is_true(c) && !all) return "is_true(), but it is not"; if (symbolic::is_false(c) && !none) return "is_false(), but it is not";
    serializer::JSONSerializer js; auto p = symbolic::parse(js.expression(c)); if (!(m = same("printing and parsing", p, t, n)).empty()) return m;
    for (auto& s : {symbolic::symbol("i"), symbolic::symbol("N")}) for (size_t q = 0; q < fs.size(); q++) {
        std::vector<char> v; for (auto& e : fam.env) { try { v.push_back(cond(c, e.with(s->get_name(), I::whole(eval(fs[q], e))))); } catch (vi::Undefined&) { v.push_back(2); } }
        if (!(m = same(("replacing " + s->get_name() + " by " + fn[q]).c_str(), symbolic::subs(c, s, fs[q]), v, n)).empty()) return m;
    }
    for (int form = 0; form < 2; form++) try {
        auto cnf = symbolic::conjunctive_normal_form(form ? symbolic::Not(c) : c);
        for (size_t k = 0; k < fam.env.size(); k++) {
            if (t[k] == 2) continue; n++; bool v = true; for (auto& clause : cnf) { bool any = false; for (auto& l : clause) any |= cond(l, fam.env[k]); v &= any; }
            if (v != (bool)(form ? neg[k] : t[k])) return std::string("the normal form of ") + (form ? "its negation" : "it") + " is " + (v ? "true" : "false") + " for " + fam.env[k].str();
        }
        for (auto& clause : cnf) for (auto& l : clause) if (SymEngine::is_a<SymEngine::And>(*l) || SymEngine::is_a<SymEngine::Or>(*l)) return "a clause of the normal form holds " + l->__str__();
    } catch (symbolic::CNFException&) { refused = true; }
    return "";
}
static void space(vc::Run& r) {
    vk::init(); fam = {}; cs.clear(); truth.clear(); first.clear(); fs.clear(); fn.clear();
    fam.env = grid({{"i", {-3, -1, 0, 2, 5}}, {"j", {-2, 0, 1, 3}}, {"N", {-2, 0, 1, 4, 7}}});
    for (auto s : {"i", "j", "N"}) fam.symbol(s); for (int k : {-2, -1, 0, 1, 2, 3}) fam.number(k);
    size_t l0 = fam.all.size(); fam.grow(0, l0, 0, l0, "+-*/%<>", 4); size_t l1 = fam.all.size();
    fam.grow(l0, l1, 0, l0, "+-*/<>%", 4); fam.grow(0, l0, l0, l1, "-/%"); size_t l2 = fam.all.size(); (void)l2;
    // sums and products of terms of one level
    std::vector<size_t> some; for (size_t k = l0; k < l1; k++) if (!SymEngine::is_a<SymEngine::Integer>(*fam.all[k].e) && (r.thorough || k % 3 == 0)) some.push_back(k);
    for (size_t a = 0; a < some.size(); a++) for (size_t b = 0; b <= a; b++) { fam.binary('+', some[a], some[b]); fam.binary('*', some[a], some[b]); if (r.thorough) { fam.binary('-', some[a], some[b]); fam.binary('>', some[a], some[b]); fam.binary('/', some[a], some[b]); } }
    for (size_t k = 0; k < fam.all.size(); k++) first.insert({fam.all[k].e, k});
    auto S = symbolic::symbol("i"), J = symbolic::symbol("j"), N = symbolic::symbol("N");
    auto f = [&](E e) { fs.push_back(e); fn.push_back(e->__str__()); };
    f(symbolic::integer(2)); f(symbolic::add(J, symbolic::one())); f(symbolic::mul(N, J)); f(symbolic::min(J, N)); f(symbolic::div(symbolic::add(S, J), symbolic::integer(2)));
    // conditions
    std::vector<size_t> ps; for (auto n : {"i", "j", "N", "0", "1", "(-1)", "2", "(i+1)", "(N-1)", "(i*2)", "(j*i)", "min(N,i)", "max(j,0)", "(i/2)", "(i-j)", "(i%2)", "abs(j)"}) for (size_t k = 0; k < l1; k++) if (fam.all[k].name == n) ps.push_back(k);
    auto put = [&](std::string n, C c, std::vector<char> t) { cs.push_back({n, c}); truth.push_back(t); };
    for (size_t a : ps) for (size_t b : ps) for (int op = 0; op < 6; op++) {
        auto &x = fam.all[a], &y = fam.all[b]; C c; static const char* o[] = {"==", "!=", "<", "<=", ">", ">="};
        switch (op) { case 0: c = symbolic::Eq(x.e, y.e); break; case 1: c = symbolic::Ne(x.e, y.e); break; case 2: c = symbolic::Lt(x.e, y.e); break; case 3: c = symbolic::Le(x.e, y.e); break; case 4: c = symbolic::Gt(x.e, y.e); break; default: c = symbolic::Ge(x.e, y.e); }
        std::vector<char> t; for (size_t k = 0; k < fam.env.size(); k++) { if (!x.val[k] || !y.val[k]) { t.push_back(2); continue; } i128 p = *x.val[k], q = *y.val[k]; t.push_back(op == 0 ? p == q : op == 1 ? p != q : op == 2 ? p < q : op == 3 ? p <= q : op == 4 ? p > q : p >= q); }
        put(x.name + o[op] + y.name, c, t);
    }
    size_t lit = cs.size(); std::vector<size_t> ls; for (auto n : {"i<N", "i<=N", "i==0", "i!=0", "0<=j", "j>=N", "i<1", "1<i", "j!=N", "(i+1)<N", "i>j", "N>1"}) for (size_t k = 0; k < lit; k++) if (cs[k].first == n) ls.push_back(k);
    auto both = [&](size_t a, size_t b, bool and_) { std::vector<char> t; for (size_t k = 0; k < fam.env.size(); k++) t.push_back(truth[a][k] == 2 || truth[b][k] == 2 ? 2 : and_ ? truth[a][k] && truth[b][k] : truth[a][k] || truth[b][k]); put("(" + cs[a].first + (and_ ? " & " : " | ") + cs[b].first + ")", and_ ? symbolic::And(cs[a].second, cs[b].second) : symbolic::Or(cs[a].second, cs[b].second), t); };
    for (size_t a : ls) for (size_t b : ls) for (bool w : {false, true}) both(a, b, w);
    size_t two = cs.size();
    for (size_t a = lit; a < two; a++) {
        { std::vector<char> t; for (char x : truth[a]) t.push_back(x == 2 ? 2 : !x); put("!" + cs[a].first, symbolic::Not(cs[a].second), t); }
        std::vector<char> t = truth[a]; put(cs[a].first + "==true", symbolic::Eq(cs[a].second, symbolic::__true__()), t);
        for (char& x : t) if (x != 2) x = !x; put(cs[a].first + "!=true", symbolic::Ne(cs[a].second, symbolic::__true__()), t); put(cs[a].first + "==false", symbolic::Eq(cs[a].second, symbolic::__false__()), t);
    }
    for (size_t a : ls) { std::vector<char> t = truth[a]; put("(" + cs[a].first + ")==true", symbolic::Eq(cs[a].second, symbolic::__true__()), t); put("(" + cs[a].first + ")!=false", symbolic::Ne(symbolic::__false__(), cs[a].second), t); for (char& x : t) if (x != 2) x = !x; put("(" + cs[a].first + ")!=true", symbolic::Ne(cs[a].second, symbolic::__true__()), t); put("(" + cs[a].first + ")==false", symbolic::Eq(symbolic::__false__(), cs[a].second), t); }
    size_t three = cs.size();
    for (size_t a = lit; a < two; a++) for (size_t b = 0; b < ls.size(); b++) if (r.thorough || (a + b) % 2 == 0) for (bool w : {false, true}) both(a, ls[b], w);
    for (size_t a = lit; a < two; a += r.thorough ? 1 : 5) for (size_t b = lit; b < a; b += r.thorough ? 3 : 7) for (bool w : {false, true}) both(a, b, w);
    for (size_t a = two; a < three; a += r.thorough ? 1 : 3) for (size_t b = 0; b < 3; b++) for (bool w : {false, true}) both(a, ls[b], w);
    bool thorough = r.thorough;
    for (size_t k = 0; k < fam.all.size(); k++) r.kase([=] { return fam.all[k].name; }, [&, k] { long n = 0; std::string m; try { m = terms(k, !thorough && k > l1, n); } catch (std::exception& e) { m = std::string("throws ") + e.what(); } catch (vi::Undefined& u) { m = std::string("undefined: ") + u.what(); } if (!m.empty()) r.report("term|" + fam.all[k].name, m); r.count(vc::Run::TRANS, n); r.nontrivial(vc::hash_str(fam.all[k].e->__str__())); });
    for (size_t k = 0; k < cs.size(); k++) r.kase([=] { return cs[k].first; }, [&, k] { long n = 0; std::string m; bool ref = false; try { m = conditions(k, n, ref); } catch (std::exception& e) { m = std::string("throws ") + e.what(); } catch (vi::Undefined& u) { m = std::string("undefined: ") + u.what(); } if (ref) r.count(vc::Run::AUX0); if (!m.empty()) r.report("condition|" + cs[k].first, m); r.count(vc::Run::TRANS, n); r.nontrivial(vc::hash_str(cs[k].second->__str__())); });
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every term up to two operations (and sums and products of such terms) and every condition up to three connectives over i, j, N and small numbers x every rewrite x every assignment of a grid";
    o.extra_counters = {{8, "normal_forms_refused"}};
    return vc::main_impl(argc, argv, space, o);
}
