// Symbolic expressions and conditions, printed by the generators and evaluated by the compiled code.
#pragma once
#include "cgen.h"
namespace se {
using namespace sdfg; using E = symbolic::Expression;
struct Item { E e; symbolic::Condition c; std::string name; };
inline std::vector<std::pair<std::string, E>> leaves() {
    std::vector<std::pair<std::string, E>> r;
    for (auto n : {"N", "M", "p"}) r.push_back({n, symbolic::symbol(n)});
    for (int c : {-7, -1, 2, 3}) r.push_back({"(" + std::to_string(c) + ")", symbolic::integer(c)});
    return r;
}
inline std::vector<std::pair<std::string, E>> grow(const std::vector<std::pair<std::string, E>>& a, const std::vector<std::pair<std::string, E>>& b) {
    std::vector<std::pair<std::string, E>> r;
    for (auto& [n, x] : a) {
        r.push_back({"iabs(" + n + ")", symbolic::abs(x)}); r.push_back({n + "^2", symbolic::pow(x, symbolic::integer(2))}); r.push_back({n + "^3", symbolic::pow(x, symbolic::integer(3))}); r.push_back({"-" + n, symbolic::sub(symbolic::zero(), x)});
        r.push_back({"zext(" + n + ")", symbolic::zext_i64(x)}); r.push_back({"trunc(" + n + ")", symbolic::trunc_i32(x)});
        for (auto& [m, y] : b) {
            r.push_back({"(" + n + "+" + m + ")", symbolic::add(x, y)}); r.push_back({"(" + n + "-" + m + ")", symbolic::sub(x, y)}); r.push_back({"(" + n + "*" + m + ")", symbolic::mul(x, y)});
            if (!symbolic::eq(y, symbolic::zero())) { r.push_back({"(" + n + "/" + m + ")", symbolic::div(x, y)}); r.push_back({"(" + n + "%" + m + ")", symbolic::mod(x, y)}); }
            r.push_back({"min(" + n + "," + m + ")", symbolic::min(x, y)}); r.push_back({"max(" + n + "," + m + ")", symbolic::max(x, y)});
        }
    }
    return r;
}
inline std::vector<Item> items(bool thorough) {
    std::vector<Item> r; std::set<std::string> seen;
    auto add = [&](const std::string& n, const E& e) { if (seen.insert(e->__str__()).second) r.push_back({e, SymEngine::null, n}); };
    auto l0 = leaves(), l1 = grow(l0, l0);
    auto l0s = std::vector<std::pair<std::string, E>>{l0[0], l0[1], l0[5]};
    auto l1s = l1; if (!thorough) { l1s.clear(); auto some = std::vector<std::pair<std::string, E>>{l0[0], l0[1], l0[3], l0[6]}; l1s = grow(some, some); }
    for (auto& [n, e] : l0) add(n, e);
    for (auto& [n, e] : l1) add(n, e);
    for (auto& [n, e] : grow(l1s, l0s)) add(n, e);
    for (auto& [n, e] : grow(l0s, l1s)) add(n, e);
    auto few = grow({l0[0], l0[1]}, {l0[1], l0[6]});
    for (auto& [n, e] : grow(few, few)) add(n, e);
    std::vector<std::pair<std::string, symbolic::Condition>> cs; std::set<std::string> cseen;
    auto cond = [&](const std::string& n, const symbolic::Condition& c) { if (cseen.insert(c->__str__()).second) cs.push_back({n, c}); };
    auto rel = [&](const std::pair<std::string, E>& x, const std::pair<std::string, E>& y) {
        cond(x.first + "<" + y.first, symbolic::Lt(x.second, y.second)); cond(x.first + "<=" + y.first, symbolic::Le(x.second, y.second)); cond(x.first + ">" + y.first, symbolic::Gt(x.second, y.second));
        cond(x.first + ">=" + y.first, symbolic::Ge(x.second, y.second)); cond(x.first + "==" + y.first, symbolic::Eq(x.second, y.second)); cond(x.first + "!=" + y.first, symbolic::Ne(x.second, y.second));
    };
    for (auto& x : l0) for (auto& y : l0) rel(x, y);
    for (auto& x : few) for (auto& y : l0) { rel(x, y); if (thorough) rel(y, x); }
    auto base = cs; size_t step = thorough ? 3 : 9;
    cs.push_back({"true", symbolic::__true__()}); cs.push_back({"false", symbolic::__false__()});
    for (size_t i = 0; i < base.size(); i += thorough ? 1 : 2) cond("!(" + base[i].first + ")", symbolic::Not(base[i].second));
    std::vector<std::pair<std::string, symbolic::Condition>> pairs;
    for (size_t i = 0; i < base.size() && i < 160; i += step) for (size_t j = 0; j < base.size() && j < 160; j += step) {
        pairs.push_back({"(" + base[i].first + " && " + base[j].first + ")", symbolic::And(base[i].second, base[j].second)}); pairs.push_back({"(" + base[i].first + " || " + base[j].first + ")", symbolic::Or(base[i].second, base[j].second)});
    }
    for (auto& [n, c] : pairs) cond(n, c);
    for (size_t i = 0; i < pairs.size(); i += 5) for (size_t j = 0; j < base.size(); j += 41) {
        cond("(" + pairs[i].first + " && " + base[j].first + ")", symbolic::And(pairs[i].second, base[j].second)); cond("(" + pairs[i].first + " || " + base[j].first + ")", symbolic::Or(pairs[i].second, base[j].second));
        cond("!" + pairs[i].first + " && " + base[j].first, symbolic::And(symbolic::Not(pairs[i].second), base[j].second));
    }
    for (auto& [n, c] : cs) r.push_back({SymEngine::null, c, n});
    return r;
}
inline std::string text(const Item& x) { return (x.e.is_null() ? "condition " + x.name + " = " + x.c->__str__() : "expression " + x.name + " = " + x.e->__str__()); }
inline std::unique_ptr<StructuredSDFG> build(const Item& x) {
    types::Scalar i64(types::PrimitiveType::Int64), i32(types::PrimitiveType::Int32); builder::StructuredSDFGBuilder b("prog", FunctionType_CPU, i64);
    b.add_container("N", i64, true); b.add_container("M", i64, true); b.add_container("p", i32, true); b.add_container("k", i64);
    auto k = symbolic::symbol("k"); auto& root = b.subject().root();
    if (!x.e.is_null()) b.add_block(root, {{k, x.e}});
    else { auto& br = b.add_if_else(root); auto& t = b.add_case(br, x.c); b.add_block(t, {{k, symbolic::one()}}); auto& f = b.add_case(br, symbolic::Not(x.c)); b.add_block(f, {{k, symbolic::zero()}}); }
    b.add_return(root, "k");
    return b.move();
}
inline std::string run(const Item& x, cg::Unit& u, long& n) {
    static const std::vector<int64_t> Ns{-9, -3, -2, -1, 0, 1, 2, 3, 7, 2000, 3000000000ll, -3000000000ll, 4294967301ll}, Ms{-8, -2, -1, 0, 1, 2, 5, 4000000000ll, -4294967299ll}; static const std::vector<int32_t> ps{-2147483647 - 1, -3, -1, 0, 1, 2, 40, 2147483647};
    bool sN = false, sM = false, sp = false; for (auto& s : symbolic::atoms(x.e.is_null() ? (E)x.c : x.e)) { sN |= s->get_name() == "N"; sM |= s->get_name() == "M"; sp |= s->get_name() == "p"; }
    auto s = build(x);
    for (auto N : sN ? Ns : std::vector<int64_t>{3}) for (auto M : sM ? Ms : std::vector<int64_t>{2}) for (auto p : sp ? ps : std::vector<int32_t>{1}) {
        vi::Interp in(*s); in.bind("N", (vi::i128)N); in.bind("M", (vi::i128)M); in.bind("p", (vi::i128)p); in.declare_rest();
        vi::i128 want; bool big = false;
        try {
            want = x.e.is_null() ? (vi::i128)in.cond(x.c) : in.sym(x.e);
            // what a term of the expression cannot represent in its C type is out of scope
            std::function<void(const SymEngine::RCP<const SymEngine::Basic>&)> all = [&](const SymEngine::RCP<const SymEngine::Basic>& e) {
                if (!SymEngine::is_a_Boolean(*e)) { auto q = in.eval(e); if (q.d != 1 || q.n > INT64_MAX || q.n < INT64_MIN) big = true; bool wide = false; for (auto& a : symbolic::atoms(e)) wide |= a->get_name() != "p"; if (!wide && (q.n > INT32_MAX || q.n < INT32_MIN)) big = true; }
                for (auto& a : e->get_args()) {
                    all(a);
                    if (auto f = SymEngine::is_a_sub<SymEngine::FunctionSymbol>(*a) ? dynamic_cast<const SymEngine::FunctionSymbol*>(a.get()) : nullptr; f && f->get_name() == "trunc_i32") { auto q = in.eval(a); if (q.n > 1000 || q.n < -1000) big = true; }  // arithmetic on it is in 32 bits
                }
                // partial sums and products
                if (SymEngine::is_a<SymEngine::Mul>(*e) || SymEngine::is_a<SymEngine::Pow>(*e) || SymEngine::is_a<SymEngine::Add>(*e)) { long double m = SymEngine::is_a<SymEngine::Add>(*e) ? 0 : 1; bool add = m == 0, wide = false; for (auto& a : symbolic::atoms(e)) wide |= a->get_name() != "p"; for (auto& a : e->get_args()) { auto q = in.eval(a); long double v = fabsl((long double)q.n); if (add) m += v; else if (v > 1) m *= v; } if (m > (wide ? 9.2e18L : 2147483647.0L)) big = true; }
                // terms of 32-bit symbols and constants alone are computed in 32 bits first
                if (SymEngine::is_a<SymEngine::Mul>(*e) || SymEngine::is_a<SymEngine::Add>(*e)) { bool add = SymEngine::is_a<SymEngine::Add>(*e); long double m = add ? 0 : 1; for (auto& a : e->get_args()) { bool narrow = true; for (auto& x : symbolic::atoms(a)) narrow &= x->get_name() == "p"; if (!narrow) continue; auto q = in.eval(a); long double v = std::abs((long double)q.n); if (add) m += v; else m *= v; } if (m > INT32_MAX) big = true; }
                if (SymEngine::is_a<SymEngine::Pow>(*e)) { auto b = in.eval(e->get_args()[0]); auto q = in.eval(e->get_args()[1]); if (q.n > 3 || q.n < 0) big = true; }
            };
            all(x.e.is_null() ? SymEngine::RCP<const SymEngine::Basic>(x.c) : SymEngine::RCP<const SymEngine::Basic>(x.e));
        } catch (vi::Undefined&) { continue; }
        if (big || want > INT64_MAX || want < INT64_MIN) continue;
        n++;
        int64_t got = -77, a = N, b = M; int32_t c = p; std::vector<void*> args{&a, &b, &c}; u.f(args.data(), &got);
        if (got != (int64_t)want) return "with N=" + std::to_string(N) + " M=" + std::to_string(M) + " p=" + std::to_string(p) + " it is " + std::to_string(got) + " instead of " + std::to_string((int64_t)want);
    }
    return "";
}
}  // namespace se
