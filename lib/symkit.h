// Symbolic expressions: an evaluator over exact rationals that knows nothing of docc's rewrites, and families of terms
// whose values are computed along their construction.
#pragma once
#include "corekit.h"
#include <sdfg/symbolic/symbolic.h>
namespace sk {
using namespace sdfg; using vi::i128; using Rat = vi::Interp::Rat; using I = vi::Interp; using E = symbolic::Expression; using C = symbolic::Condition;
struct Env {
    std::vector<std::pair<std::string, i128>> v;
    i128* find(const std::string& n) { for (auto& x : v) if (x.first == n) return &x.second; return nullptr; }
    i128 get(const std::string& n) const { for (auto& x : v) if (x.first == n) return x.second; throw vi::Undefined("symbol without value: " + n); }
    Env with(const std::string& n, i128 x) const { Env r = *this; if (auto p = r.find(n)) *p = x; else r.v.push_back({n, x}); return r; }
    std::string str() const { std::string r; for (auto& x : v) r += (r.empty() ? "" : " ") + x.first + "=" + std::to_string((int64_t)x.second); return r; }
};
inline bool cond(const E& e, const Env& v);
inline i128 word(i128 x) { if (x != (i128)(int64_t)x) throw vi::Undefined("overflow"); return x; }
inline Rat eval(const E& e, const Env& v) {
    using namespace SymEngine;
    switch (e->get_type_code()) {
        case SE_INTEGER: return {I::integer_value(e), 1};
        case SE_RATIONAL: { auto& r = static_cast<const Rational&>(*e); return I::norm(I::mpz(r.num()), I::mpz(r.den())); }
        case SE_SYMBOL: return {v.get(static_cast<const SymEngine::Symbol&>(*e).get_name()), 1};
        case SE_ADD: { auto& a = static_cast<const Add&>(*e); Rat r = eval(a.get_coef(), v); for (auto& t : a.get_dict()) r = I::add(r, I::mul(eval(t.second, v), eval(t.first, v))); return r; }
        case SE_MUL: { auto& a = static_cast<const Mul&>(*e); Rat r = eval(a.get_coef(), v); for (auto& t : a.get_dict()) r = I::mul(r, I::power(eval(t.first, v), eval(t.second, v))); return r; }
        case SE_POW: { auto& p = static_cast<const Pow&>(*e); return I::power(eval(p.get_base(), v), eval(p.get_exp(), v)); }
        case SE_MAX: case SE_MIN: { auto a = e->get_args(); Rat r = eval(a[0], v); for (size_t i = 1; i < a.size(); i++) { Rat x = eval(a[i], v); bool lt = x.n * r.d < r.n * x.d; if (lt == (e->get_type_code() == SE_MIN)) r = x; } return r; }
        case SE_CEILING: { Rat x = eval(static_cast<const Ceiling&>(*e).get_arg(), v); i128 q = x.n / x.d; if (q * x.d < x.n) q++; return {q, 1}; }
        case SE_FUNCTIONSYMBOL: {
            auto& fs = static_cast<const FunctionSymbol&>(*e); auto a = fs.get_args(); auto& n = fs.get_name();
            if (n == "idiv" || n == "imod") { i128 x = I::whole(eval(a[0], v)), y = I::whole(eval(a[1], v)); if (!y) throw vi::Undefined("division by zero"); return {n == "idiv" ? x / y : x % y, 1}; }
            if (n == "iabs") { i128 x = I::whole(eval(a[0], v)); return {x < 0 ? -x : x, 1}; }
            if (n == "zext_i64") return {word(I::whole(eval(a[0], v))), 1};
            if (n == "trunc_i32") return {(i128)(int32_t)(int64_t)word(I::whole(eval(a[0], v))), 1};
            throw vi::Unsupported("function " + n);
        }
        default:
            if (SymEngine::is_a_Boolean(*e)) return {cond(e, v) ? 1 : 0, 1};
            throw vi::Unsupported("symbolic kind " + e->__str__());
    }
}
inline bool cond(const E& e, const Env& v) {
    using namespace SymEngine;
    switch (e->get_type_code()) {
        case SE_BOOLEAN_ATOM: return static_cast<const BooleanAtom&>(*e).get_val();
        case SE_AND: { bool r = true; for (auto& x : e->get_args()) r &= cond(x, v); return r; }
        case SE_OR: { bool r = false; for (auto& x : e->get_args()) r |= cond(x, v); return r; }
        case SE_NOT: return !cond(static_cast<const Not&>(*e).get_arg(), v);
        case SE_EQUALITY: case SE_UNEQUALITY: case SE_LESSTHAN: case SE_STRICTLESSTHAN: {
            auto a = e->get_args(); Rat x = eval(a[0], v), y = eval(a[1], v); i128 p = I::mulchk(x.n, y.d), q = I::mulchk(y.n, x.d);
            switch (e->get_type_code()) { case SE_EQUALITY: return p == q; case SE_UNEQUALITY: return p != q; case SE_LESSTHAN: return p <= q; default: return p < q; }
        }
        default: return eval(e, v).n != 0;
    }
}
typedef std::vector<std::optional<i128>> Values;
inline std::vector<Env> grid(const std::vector<std::pair<std::string, std::vector<int>>>& dims) {
    std::vector<Env> r{{}};
    for (auto& [n, vals] : dims) { std::vector<Env> q; for (auto& e : r) for (int x : vals) { auto f = e; f.v.push_back({n, x}); q.push_back(f); } r = q; }
    return r;
}
struct Term { E e; std::string name; Values val; };
// Terms by level over a grid of environments; the values follow the meaning of the operations, not docc's expressions.
struct Family {
    bool folded = false;  // leave out operations on two numbers
    std::vector<Env> env; std::vector<Term> all; std::set<std::string> seen;
    size_t level_end[4] = {0, 0, 0, 0};
    bool put(std::string n, E e, Values v) { if (!seen.insert(n).second) return false; all.push_back({e, std::move(n), std::move(v)}); return true; }
    void symbol(const std::string& s) { Values v; for (auto& e : env) v.push_back(e.get(s)); put(s, symbolic::symbol(s), v); }
    void number(int k) { put(k < 0 ? "(" + std::to_string(k) + ")" : std::to_string(k), symbolic::integer(k), Values(env.size(), (i128)k)); }
    static std::optional<i128> bin(char op, i128 a, i128 b) {
        switch (op) {
            case '+': return a + b; case '-': return a - b; case '*': return a * b; case '<': return a < b ? a : b; case '>': return a > b ? a : b;
            case '/': if (!b) return {}; return a / b; case '%': if (!b) return {}; return a % b;
        }
        return {};
    }
    void binary(char op, size_t ai, size_t bi) {
        if ((op == '/' || op == '%') && all[bi].name == "0") return;
        if (folded && SymEngine::is_a<SymEngine::Integer>(*all[ai].e) && SymEngine::is_a<SymEngine::Integer>(*all[bi].e)) return;
        Term a = all[ai], b = all[bi]; E e; std::string n;
        switch (op) { case '+': e = symbolic::add(a.e, b.e); break; case '-': e = symbolic::sub(a.e, b.e); break; case '*': e = symbolic::mul(a.e, b.e); break; case '<': e = symbolic::min(a.e, b.e); break; case '>': e = symbolic::max(a.e, b.e); break; case '/': e = symbolic::div(a.e, b.e); break; case '%': e = symbolic::mod(a.e, b.e); break; }
        n = op == '<' ? "min(" + a.name + "," + b.name + ")" : op == '>' ? "max(" + a.name + "," + b.name + ")" : "(" + a.name + op + b.name + ")";
        Values v; for (size_t k = 0; k < env.size(); k++) { v.push_back(a.val[k] && b.val[k] ? bin(op, *a.val[k], *b.val[k]) : std::optional<i128>()); if (v.back() && *v.back() != (i128)(int64_t)*v.back()) v.back().reset(); }
        put(n, e, v);
    }
    void unary(int op, size_t ai) {
        Term a = all[ai]; E e; std::string n; Values v = a.val;
        if (op == 0) { e = symbolic::abs(a.e); n = "abs(" + a.name + ")"; for (auto& x : v) if (x && *x < 0) x = -*x; }
        if (op == 1) { e = symbolic::pow(a.e, symbolic::integer(2)); n = a.name + "^2"; for (auto& x : v) if (x) x = *x * *x; }
        if (op == 2) { e = symbolic::zext_i64(a.e); n = "zext(" + a.name + ")"; }
        if (op == 3) { e = symbolic::trunc_i32(a.e); n = "trunc(" + a.name + ")"; }
        put(n, e, v);
    }
    // operations between two ranges of terms
    void grow(size_t a0, size_t a1, size_t b0, size_t b1, const std::string& ops, int unaries = 0) {
        for (size_t a = a0; a < a1; a++) {
            for (int u = 0; u < unaries; u++) unary(u, a);
            for (size_t b = b0; b < b1; b++) for (char op : ops) { if (a1 > b0 && b > a && b < a1 && a >= b0 && (op == '+' || op == '*' || op == '<' || op == '>')) continue; binary(op, a, b); }
        }
    }
};
inline std::string num(i128 x) { return std::to_string((int64_t)x); }
}  // namespace sk
