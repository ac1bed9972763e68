// Reference interpreter of structured SDFGs: byte memory with bounds and definedness, C arithmetic, hooks for tracing.
#pragma once
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include <sdfg/data_flow/access_node.h>
#include <sdfg/data_flow/data_flow_graph.h>
#include <sdfg/data_flow/library_node.h>
#include <sdfg/data_flow/library_nodes/stdlib/stdlib.h>
#include <sdfg/data_flow/memlet.h>
#include <sdfg/data_flow/tasklet.h>
#include <sdfg/structured_control_flow/block.h>
#include <sdfg/structured_control_flow/for.h>
#include <sdfg/structured_control_flow/if_else.h>
#include <sdfg/structured_control_flow/map.h>
#include <sdfg/structured_control_flow/return.h>
#include <sdfg/structured_control_flow/sequence.h>
#include <sdfg/structured_control_flow/while.h>
#include <sdfg/structured_sdfg.h>
#include <sdfg/symbolic/symbolic.h>
#include <sdfg/types/array.h>
#include <sdfg/types/pointer.h>
#include <sdfg/types/scalar.h>
#include <sdfg/types/structure.h>
#include <sdfg/types/type.h>

namespace vi {
using namespace sdfg;
namespace df = sdfg::data_flow;
namespace scf = sdfg::structured_control_flow;
typedef __int128 i128;
typedef unsigned __int128 u128;
typedef types::PrimitiveType PT;

struct Undefined : std::runtime_error { using std::runtime_error::runtime_error; };    // the program has no meaning here
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };  // the interpreter has none
struct Timeout : std::runtime_error { using std::runtime_error::runtime_error; };

struct Value { PT t = PT::Void; bool poison = false; i128 i = 0; double d = 0; };

inline int width(PT t) { return t == PT::Bool ? 8 : (int)types::bit_width(t); }
inline bool fp(PT t) { return types::is_floating_point(t); }
inline i128 wrap(i128 v, PT t) {
    if (t == PT::Bool) return v != 0;
    int w = width(t);
    if (w >= 128) return v;
    u128 m = ((u128)1 << w) - 1, u = (u128)v & m;
    if (types::is_signed(t) && (u >> (w - 1))) return (i128)(u | ~m);
    return (i128)u;
}
inline Value conv(const Value& v, PT t) {
    Value r; r.t = t; r.poison = v.poison;
    if (fp(t)) { r.d = fp(v.t) ? v.d : (double)v.i; if (t == PT::Float) r.d = (float)r.d; else if (t != PT::Double) throw Unsupported("float kind"); return r; }
    if (fp(v.t)) {
        if (t == PT::Bool) { r.i = v.d != 0; return r; }
        if (r.poison) return r;
        double lo = types::is_signed(t) ? -std::ldexp(1.0, width(t) - 1) : 0, hi = std::ldexp(1.0, types::is_signed(t) ? width(t) - 1 : width(t));
        if (std::isnan(v.d) || std::trunc(v.d) < lo || std::trunc(v.d) >= hi) throw Undefined("float to integer out of range");
        r.i = (i128)v.d; return r;
    }
    r.i = wrap(v.i, t); return r;
}

struct Memory {
    struct Obj { std::vector<unsigned char> b, def; bool live = true; std::string name; };
    std::vector<Obj> o;
    static constexpr uint64_t BIAS = 1ull << 30;
    uint64_t alloc(size_t n, const std::string& name = "") { o.push_back({std::vector<unsigned char>(n, 0xA5), std::vector<unsigned char>(n, 0), true, name}); return addr(o.size() - 1); }
    static uint64_t addr(size_t id) { return ((uint64_t)(id + 1) << 32) + BIAS; }
    Obj& at(uint64_t a, size_t n, size_t& off) {
        size_t id = (a >> 32); int64_t f = (int64_t)(a & 0xffffffffull) - (int64_t)BIAS;
        if (!id || id > o.size()) throw Undefined("access through an invalid pointer");
        Obj& x = o[id - 1];
        if (!x.live) throw Undefined("access to freed memory (" + x.name + ")");
        if (f < 0 || (size_t)f + n > x.b.size()) throw Undefined("access out of bounds of " + x.name + " (byte " + std::to_string(f) + " of " + std::to_string(x.b.size()) + ")");
        off = f; return x;
    }
};

struct Interp {
    const Function& f;
    const StructuredSDFG* s;
    Memory m;
    std::map<std::string, uint64_t> var;  // address of each container's own storage
    long steps = 0, max_steps = 4000;
    bool returned = false; Value ret; bool has_ret = false;
    std::vector<uint64_t> result_objs;
    // hooks
    std::function<std::vector<size_t>(const scf::Map&, size_t)> order;
    std::function<void(uint64_t, size_t, bool, const Element*, const std::string&)> on_access;  // address, bytes, write, element, container
    std::function<void(const scf::ControlFlowNode&)> on_node;
    std::function<void(const scf::StructuredLoop&, int64_t)> on_iter;      // at the start of each iteration
    std::function<void(const scf::ControlFlowNode&, bool)> on_loop;         // loop entered (true) / left (false)
    std::function<bool(Interp&, const df::LibraryNode&)> library;          // true: handled
    std::map<std::string, i128> extra;  // symbols without a container
    const Element* cur = nullptr;

    Interp(const StructuredSDFG& p) : f(p), s(&p) {}
    Interp(const Function& p) : f(p), s(nullptr) {}

    // ---- layout ----
    size_t align_of(const types::IType& t) {
        switch (t.type_id()) {
            case types::TypeID::Scalar: return std::max(1, width(t.primitive_type()) / 8);
            case types::TypeID::Array: return align_of(static_cast<const types::Array&>(t).element_type());
            case types::TypeID::Pointer: return 8;
            case types::TypeID::Structure: { auto& d = f.structure(static_cast<const types::Structure&>(t).name()); size_t a = 1; if (!d.is_packed()) for (size_t i = 0; i < d.num_members(); i++) a = std::max(a, align_of(d.member_type(symbolic::integer(i)))); return a; }
            default: throw Unsupported("type " + t.print());
        }
    }
    size_t size_of(const types::IType& t) {
        switch (t.type_id()) {
            case types::TypeID::Scalar: return std::max(t.primitive_type() == PT::Void ? 0 : 1, width(t.primitive_type()) / 8);
            case types::TypeID::Array: { auto& a = static_cast<const types::Array&>(t); i128 n = sym(a.num_elements()); if (n < 0 || n > 100000) throw Undefined("array size"); return (size_t)n * size_of(a.element_type()); }
            case types::TypeID::Pointer: return 8;
            case types::TypeID::Structure: { auto& d = f.structure(static_cast<const types::Structure&>(t).name()); size_t o = member_offset(d, d.num_members()), a = align_of(t); return d.is_packed() ? o : (o + a - 1) / a * a; }
            default: throw Unsupported("type " + t.print());
        }
    }
    size_t member_offset(const types::StructureDefinition& d, size_t k) {
        size_t o = 0;
        for (size_t i = 0; i < d.num_members() && i <= k; i++) {
            auto& t = d.member_type(symbolic::integer(i)); size_t a = d.is_packed() ? 1 : align_of(t);
            o = (o + a - 1) / a * a;
            if (i == k) return o;
            o += size_of(t);
        }
        return o;
    }

    // ---- memory ----
    void trace(uint64_t a, size_t n, bool w, const std::string& c) { if (on_access) on_access(a, n, w, cur, c); }
    Value load_raw(uint64_t a, PT t) {
        Value v; v.t = t; size_t off, n = width(t) / 8; auto& x = m.at(a, n, off);
        for (size_t i = 0; i < n; i++) if (!x.def[off + i]) v.poison = true;
        if (t == PT::Float) { float q; memcpy(&q, &x.b[off], 4); v.d = q; }
        else if (t == PT::Double) memcpy(&v.d, &x.b[off], 8);
        else if (fp(t)) throw Unsupported("float kind");
        else { u128 u = 0; memcpy(&u, &x.b[off], n); v.i = wrap((i128)u, t); }
        return v;
    }
    void store_raw(uint64_t a, const Value& v) {
        size_t off, n = width(v.t) / 8; auto& x = m.at(a, n, off);
        if (v.t == PT::Float) { float q = v.d; memcpy(&x.b[off], &q, 4); }
        else if (v.t == PT::Double) memcpy(&x.b[off], &v.d, 8);
        else if (fp(v.t)) throw Unsupported("float kind");
        else memcpy(&x.b[off], &v.i, n);
        memset(&x.def[off], v.poison ? 0 : 1, n);
    }
    uint64_t load_ptr(uint64_t a) { Value v = load_raw(a, PT::UInt64); if (v.poison) throw Undefined("undefined pointer"); return (uint64_t)v.i; }
    void store_ptr(uint64_t a, uint64_t p) { Value v; v.t = PT::UInt64; v.i = p; store_raw(a, v); }
    Value load(uint64_t a, PT t, const std::string& c) { trace(a, width(t) / 8, false, c); return load_raw(a, t); }
    void store(uint64_t a, const Value& v, const std::string& c) { trace(a, width(v.t) / 8, true, c); store_raw(a, v); }
    uint64_t storage(const std::string& c) { auto it = var.find(c); if (it == var.end()) throw Undefined("no storage for " + c); return it->second; }

    // ---- symbolic expressions (exact rationals; C truncating division) ----
    struct Rat { i128 n, d; };
    static i128 chk(i128 v) { if (v > ((i128)1 << 100) || v < -((i128)1 << 100)) throw Undefined("symbolic overflow"); return v; }
    static Rat norm(i128 n, i128 d) { if (d == 0) throw Undefined("symbolic division by zero"); if (d < 0) { n = -n; d = -d; } i128 a = n < 0 ? -n : n, b = d; while (b) { i128 t = a % b; a = b; b = t; } if (a > 1) { n /= a; d /= a; } return {chk(n), chk(d)}; }
    std::function<i128(const std::string&)> lookup;  // overrides symbol values
    i128 symbol_value(const std::string& n) {
        if (lookup) return lookup(n);
        if (n == "__daisy_nullptr") return 0;
        auto e = extra.find(n); if (e != extra.end()) return e->second;
        if (!f.exists(n)) throw Undefined("symbol without value: " + n);
        if (f.is_external(n)) return storage(n);
        auto& t = f.type(n);
        if (t.type_id() == types::TypeID::Pointer) { trace(storage(n), 8, false, n); return load_ptr(storage(n)); }
        if (t.type_id() != types::TypeID::Scalar) throw Undefined("symbol of composite type: " + n);
        Value v = load(storage(n), t.primitive_type(), n);
        if (v.poison) throw Undefined("undefined symbol " + n);
        if (fp(v.t)) throw Undefined("float symbol " + n);
        return v.i;
    }
    bool is_bool(const symbolic::Expression& e) { return SymEngine::is_a_Boolean(*e); }
    Rat eval(const symbolic::Expression& e) {
        using namespace SymEngine;
        switch (e->get_type_code()) {
            case SE_INTEGER: return {integer_value(e), 1};
            case SE_RATIONAL: { auto& r = static_cast<const Rational&>(*e); return norm(mpz(r.num()), mpz(r.den())); }
            case SE_SYMBOL: return {symbol_value(static_cast<const SymEngine::Symbol&>(*e).get_name()), 1};
            case SE_ADD: { auto& a = static_cast<const Add&>(*e); Rat r = eval(a.get_coef()); for (auto& t : a.get_dict()) { Rat c = eval(t.second), x = eval(t.first); r = add(r, mul(c, x)); } return r; }
            case SE_MUL: { auto& a = static_cast<const Mul&>(*e); Rat r = eval(a.get_coef()); for (auto& t : a.get_dict()) r = mul(r, power(eval(t.first), eval(t.second))); return r; }
            case SE_POW: { auto& p = static_cast<const Pow&>(*e); return power(eval(p.get_base()), eval(p.get_exp())); }
            case SE_MAX: case SE_MIN: { auto v = e->get_args(); Rat r = eval(v[0]); for (size_t i = 1; i < v.size(); i++) { Rat x = eval(v[i]); bool lt = x.n * r.d < r.n * x.d; if (lt == (e->get_type_code() == SE_MIN)) r = x; } return r; }
            case SE_CEILING: { Rat x = eval(static_cast<const Ceiling&>(*e).get_arg()); i128 q = x.n / x.d; if (q * x.d < x.n) q++; return {q, 1}; }
            case SE_FUNCTIONSYMBOL: {
                auto& fs = static_cast<const FunctionSymbol&>(*e); auto v = fs.get_args(); auto& n = fs.get_name();
                if (n == "idiv" || n == "imod") { i128 a = whole(eval(v[0])), b = whole(eval(v[1])); if (!b) throw Undefined("division by zero"); return {n == "idiv" ? a / b : a % b, 1}; }
                if (n == "iabs") { i128 a = whole(eval(v[0])); return {a < 0 ? -a : a, 1}; }
                if (n == "zext_i64") { auto x = whole(eval(v[0])); return {(i128)(int64_t)(uint64_t)zext_arg(v[0], x), 1}; }
                if (n == "trunc_i32") return {(i128)(int32_t)(int64_t)whole(eval(v[0])), 1};
                if (n == "sizeof") { auto* so = dynamic_cast<const symbolic::SizeOfTypeFunction*>(&fs); if (!so) throw Unsupported("sizeof without a type"); return {(i128)size_of(so->get_type()), 1}; }
                throw Unsupported("function " + n);
            }
            default:
                if (is_bool(e)) return {cond(e) ? 1 : 0, 1};
                if (e->get_type_code() == SE_INFTY || e->get_type_code() == SE_NAN) throw Undefined("infinite symbolic value");
                throw Unsupported("symbolic kind " + e->__str__());
        }
    }
    i128 zext_arg(const symbolic::Expression& a, i128 x) { return x; }
    static i128 mpz(const SymEngine::int_t& v) { if (v.fits_slong_p()) return v.get_si(); std::string t = v.get_str(); bool neg = t[0] == '-'; if (t.size() > 30) throw Undefined("symbolic overflow"); i128 r = 0; for (char c : t) if (c != '-') r = r * 10 + (c - '0'); return neg ? -r : r; }
    static i128 integer_value(const symbolic::Expression& e) { return mpz(static_cast<const SymEngine::Integer&>(*e).value()); }
    static Rat add(Rat a, Rat b) { return a.d == 1 && b.d == 1 ? Rat{chk(a.n + b.n), 1} : norm(chk(a.n * b.d) + chk(b.n * a.d), chk(a.d * b.d)); }
    static i128 mulchk(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) throw Undefined("symbolic overflow"); return chk(r); }
    static Rat mul(Rat a, Rat b) { return a.d == 1 && b.d == 1 ? Rat{mulchk(a.n, b.n), 1} : norm(mulchk(a.n, b.n), mulchk(a.d, b.d)); }
    static Rat power(Rat b, Rat e) {
        i128 k = whole(e); Rat r{1, 1}; bool neg = k < 0; if (neg) k = -k; if (k > 64) throw Undefined("symbolic power");
        for (i128 i = 0; i < k; i++) r = mul(r, b);
        if (neg) return norm(r.d, r.n);
        return r;
    }
    static i128 whole(Rat r) { if (r.d != 1) throw Undefined("symbolic value is not an integer"); return r.n; }
    i128 sym(const symbolic::Expression& e) { return whole(eval(e)); }
    bool cond(const symbolic::Expression& e) {
        using namespace SymEngine;
        switch (e->get_type_code()) {
            case SE_BOOLEAN_ATOM: return static_cast<const BooleanAtom&>(*e).get_val();
            case SE_AND: for (auto& x : e->get_args()) if (!cond(x)) return false; return true;
            case SE_OR: for (auto& x : e->get_args()) if (cond(x)) return true; return false;
            case SE_NOT: return !cond(static_cast<const Not&>(*e).get_arg());
            case SE_EQUALITY: case SE_UNEQUALITY: case SE_LESSTHAN: case SE_STRICTLESSTHAN: {
                auto v = e->get_args(); Rat a = eval(v[0]), b = eval(v[1]); i128 x = mulchk(a.n, b.d), y = mulchk(b.n, a.d);
                switch (e->get_type_code()) { case SE_EQUALITY: return x == y; case SE_UNEQUALITY: return x != y; case SE_LESSTHAN: return x <= y; default: return x < y; }
            }
            default: return eval(e).n != 0;
        }
    }

    // ---- places ----
    // an index below zero, or beyond the declared extent of an array, was used
    bool* outside = nullptr;
    i128 index(const symbolic::Expression& e, const symbolic::Expression* n = nullptr) { i128 i = sym(e); if (i < 0 || (n && i >= sym(*n))) { if (outside) *outside = true; } return i; }
    // address of the element of "container" that a memlet of this base type and subset denotes; sets the element type
    uint64_t step_into(uint64_t a, const types::IType& t, const df::Subset& sub, size_t k, const types::IType*& out) {
        if (k == sub.size()) { out = &t; return a; }
        switch (t.type_id()) {
            case types::TypeID::Scalar: out = &t; return a;
            case types::TypeID::Array: { auto& at = static_cast<const types::Array&>(t); auto n = at.num_elements(); return step_into(a + (int64_t)(index(sub[k], &n) * (i128)size_of(at.element_type())), at.element_type(), sub, k + 1, out); }
            case types::TypeID::Structure: { auto& d = f.structure(static_cast<const types::Structure&>(t).name()); i128 i = sym(sub[k]); if (i < 0 || i >= (i128)d.num_members()) throw Undefined("member index"); return step_into(a + member_offset(d, (size_t)i), d.member_type(symbolic::integer((int64_t)i)), sub, k + 1, out); }
            case types::TypeID::Pointer: { auto& pt = static_cast<const types::Pointer&>(t); uint64_t p = load_ptr(a); return step_into(p + (int64_t)(index(sub[k]) * (i128)size_of(pt.pointee_type())), pt.pointee_type(), sub, k + 1, out); }
            default: throw Unsupported("type " + t.print());
        }
    }
    bool is_const(const df::AccessNode& n) { return dynamic_cast<const df::ConstantNode*>(&n) != nullptr; }
    // the value of a container used as a pointer
    uint64_t pointer_value(const df::AccessNode& n) {
        if (auto c = dynamic_cast<const df::ConstantNode*>(&n)) { if (n.data() == "__daisy_nullptr") return 0; return (uint64_t)std::stoull(c->data()); }
        auto& c = n.data();
        if (f.is_external(c)) return storage(c);
        switch (f.type(c).type_id()) {
            case types::TypeID::Pointer: trace(storage(c), 8, false, c); return load_ptr(storage(c));
            case types::TypeID::Array: return storage(c);
            default: throw Undefined("container " + c + " is no pointer");
        }
    }
    uint64_t place(const df::AccessNode& n, const types::IType& base, const df::Subset& sub, const types::IType*& out) {
        auto& c = n.data();
        if (base.type_id() == types::TypeID::Pointer) {
            if (sub.empty()) { out = &base; return f.is_external(c) ? throw Unsupported("address of an external as a value") : storage(c); }
            auto& pt = static_cast<const types::Pointer&>(base);
            uint64_t p = pointer_value(n);
            if (!pt.has_pointee_type()) throw Undefined("index into an opaque pointer");
            return step_into(p + (int64_t)(index(sub[0]) * (i128)size_of(pt.pointee_type())), pt.pointee_type(), sub, 1, out);
        }
        if (base.type_id() == types::TypeID::Array && !f.is_external(c) && f.type(c).type_id() == types::TypeID::Pointer) throw Unsupported("array memlet on a pointer");
        return step_into(storage(c), base, sub, 0, out);
    }
    static std::optional<i128> limit(const std::string& d) {  // the limits of <stdint.h>
        for (int w : {8, 16, 32, 64}) { auto s = std::to_string(w); if (d == "INT" + s + "_MIN") return -((i128)1 << (w - 1)); if (d == "INT" + s + "_MAX") return ((i128)1 << (w - 1)) - 1; if (d == "UINT" + s + "_MAX") return ((i128)1 << w) - 1; }
        return {};
    }
    Value constant(const df::ConstantNode& n) {
        Value v; v.t = n.type().primitive_type(); auto& d = n.data();
        if (fp(v.t)) {
            if (d == "INFINITY") v.d = INFINITY; else if (d == "-INFINITY") v.d = -INFINITY; else if (d == "NAN") v.d = NAN; else v.d = std::stod(d);
            if (v.t == PT::Float) v.d = (float)v.d; return v;
        }
        if (d == "true") v.i = 1; else if (d == "false") v.i = 0;
        else if (d == "INFINITY" || d == "-INFINITY") throw Undefined("infinite integer constant");
        else if (auto m = limit(d)) v.i = *m;
        else if (types::is_unsigned(v.t)) v.i = (i128)std::stoull(d); else v.i = (i128)std::stoll(d);
        v.i = wrap(v.i, v.t); return v;
    }
    Value read(const df::Memlet& e) {
        auto& n = dynamic_cast<const df::AccessNode&>(e.src()); cur = &e;
        if (auto c = dynamic_cast<const df::ConstantNode*>(&n)) { if (e.base_type().type_id() != types::TypeID::Pointer || e.subset().empty()) { Value v = constant(*c); return v; } }
        const types::IType* t; uint64_t a = place(n, e.base_type(), e.subset(), t); cur = &e;
        if (t->type_id() == types::TypeID::Pointer) { Value v; v.t = PT::UInt64; trace(a, 8, false, n.data()); return load_raw(a, PT::UInt64); }
        if (t->type_id() != types::TypeID::Scalar) throw Unsupported("read of a composite value");
        return load(a, t->primitive_type(), n.data());
    }
    void write(const df::Memlet& e, const Value& v0) {
        auto& n = dynamic_cast<const df::AccessNode&>(e.dst()); cur = &e;
        const types::IType* t; uint64_t a = place(n, e.base_type(), e.subset(), t); cur = &e;
        if (t->type_id() == types::TypeID::Pointer) { Value v = v0; v.t = PT::UInt64; store(a, v, n.data()); return; }
        if (t->type_id() != types::TypeID::Scalar) throw Unsupported("write of a composite value");
        store(a, conv(v0, t->primitive_type()), n.data());
    }
    static PT promote(PT t) { return width(t) < 32 ? PT::Int32 : t; }
    static PT common(PT a, PT b) {
        if (fp(a) || fp(b)) { if (a == PT::Double || b == PT::Double) return PT::Double; return PT::Float; }
        a = promote(a); b = promote(b);
        if (a == b) return a;
        int wa = width(a), wb = width(b); bool ua = types::is_unsigned(a), ub = types::is_unsigned(b);
        if (wa == wb) return ua ? a : b;
        PT big = wa > wb ? a : b; (void)ub;
        return big;
    }
    static Value iv(PT t, i128 v) {
        if (!fp(t) && types::is_signed(t) && wrap(v, t) != v) throw Undefined("signed overflow");
        Value r; r.t = t; r.i = wrap(v, t); return r;
    }
    static Value fv(PT t, double d) { Value r; r.t = t; r.d = t == PT::Float ? (double)(float)d : d; return r; }
    static Value bv(bool b) { Value r; r.t = PT::Int32; r.i = b; return r; }
    Value compute(df::TaskletCode c, std::vector<Value> in) {
        using T = df::TaskletCode;
        bool poison = false; for (auto& v : in) poison |= v.poison;
        if (poison && (c == T::int_sdiv || c == T::int_srem || c == T::int_udiv || c == T::int_urem)) throw Undefined("division with an undefined value");
        Value r;
        if (c == T::assign) return in.at(0);
        if (poison) { r = in[0]; r.poison = true; return r; }
        if (df::is_floating_point(c)) {
            PT t = in[0].t; for (auto& v : in) t = common(t, v.t);
            for (auto& v : in) if (!fp(v.t)) v = conv(v, t);
            double a = in[0].d, b = in.size() > 1 ? in[1].d : 0; bool u = std::isnan(a) || std::isnan(b);
            auto F = [&](double x) { return fv(t, x); };
            switch (c) {
                case T::fp_neg: return F(-a);
                case T::fp_add: return t == PT::Float ? F((float)a + (float)b) : F(a + b);
                case T::fp_sub: return t == PT::Float ? F((float)a - (float)b) : F(a - b);
                case T::fp_mul: return t == PT::Float ? F((float)a * (float)b) : F(a * b);
                case T::fp_div: return t == PT::Float ? F((float)a / (float)b) : F(a / b);
                case T::fp_rem: return F(std::fmod(a, b));
                case T::fp_fma: return F(a * b + in[2].d);
                case T::fp_oeq: return bv(!u && a == b); case T::fp_one: return bv(!u && a != b);
                case T::fp_oge: return bv(a >= b); case T::fp_ogt: return bv(a > b); case T::fp_ole: return bv(a <= b); case T::fp_olt: return bv(a < b);
                case T::fp_ord: return bv(!u); case T::fp_uno: return bv(u);
                case T::fp_ueq: return bv(u || a == b); case T::fp_une: return bv(u || a != b); case T::fp_ugt: return bv(u || a > b);
                case T::fp_uge: return bv(u || a >= b); case T::fp_ult: return bv(u || a < b); case T::fp_ule: return bv(u || a <= b);
                default: throw Unsupported("tasklet");
            }
        }
        // integer operations: signedness comes from the operation, width from the operands
        bool uns = df::is_unsigned(c);
        auto cast = [&](Value v, bool to_unsigned) { return conv(v, to_unsigned ? types::as_unsigned(v.t) : v.t); };
        for (auto& v : in) if (uns) v = cast(v, true);
        if (df::is_signed(c)) for (auto& v : in) v = conv(v, types::as_signed(v.t));
        PT t = promote(in[0].t); if (in.size() > 1) t = common(in[0].t, in[1].t);
        i128 a = conv(in[0], t).i, b = in.size() > 1 ? conv(in[1], t).i : 0;
        switch (c) {
            case T::int_add: return iv(t, a + b); case T::int_sub: return iv(t, a - b);
            case T::int_mul: { i128 p; if (__builtin_mul_overflow(a, b, &p)) throw Undefined("overflow"); return iv(t, p); }
            case T::int_sdiv: case T::int_udiv: if (!b) throw Undefined("division by zero"); return iv(t, a / b);
            case T::int_srem: case T::int_urem: if (!b) throw Undefined("division by zero"); if (wrap(a / b, t) != a / b) throw Undefined("remainder overflow"); return iv(t, a % b);
            case T::int_and: return iv(t, a & b); case T::int_or: return iv(t, a | b); case T::int_xor: return iv(t, a ^ b);
            case T::int_shl: { i128 k = in[1].i; PT l = promote(in[0].t); if (k < 0 || k >= width(l)) throw Undefined("shift amount"); i128 x = conv(in[0], l).i; Value q; q.t = l; q.i = wrap((i128)((u128)x << (int)k), l); return q; }
            case T::int_ashr: case T::int_lshr: { i128 k = in[1].i; PT l = promote(in[0].t); if (k < 0 || k >= width(l)) throw Undefined("shift amount"); i128 x = conv(in[0], l).i; Value q; q.t = l; q.i = wrap(x >> (int)k, l); return q; }
            case T::int_smin: case T::int_umin: return iv(t, a < b ? a : b); case T::int_smax: case T::int_umax: return iv(t, a > b ? a : b);
            case T::int_scmp: case T::int_ucmp: return iv(PT::Int32, a < b ? -1 : a > b);
            case T::int_abs: return iv(t, a < 0 ? -a : a);
            case T::int_eq: return bv(a == b); case T::int_ne: return bv(a != b);
            case T::int_sge: case T::int_uge: return bv(a >= b); case T::int_sgt: case T::int_ugt: return bv(a > b);
            case T::int_sle: case T::int_ule: return bv(a <= b); case T::int_slt: case T::int_ult: return bv(a < b);
            default: throw Unsupported("tasklet");
        }
    }
    void run_dataflow(const df::DataFlowGraph& g) {
        for (auto* n : g.topological_sort()) {
            if (++steps > max_steps) throw Timeout("too many steps");
            if (auto t = dynamic_cast<const df::Tasklet*>(n)) {
                std::vector<Value> in;
                for (auto& name : t->inputs()) {
                    const df::Memlet* found = nullptr;
                    for (auto& e : g.in_edges(*t)) if (e.dst_conn() == name) found = &e;
                    if (!found) throw Undefined("tasklet input without memlet");
                    in.push_back(read(*found));
                }
                for (auto& e : g.out_edges(*t)) {  // the connector has the type of the first out edge
                    const Value v = compute(t->code(), in);
                    write(e, v);
                }
            } else if (auto l = dynamic_cast<const df::LibraryNode*>(n)) {
                cur = l;
                if (!(library && library(*this, *l)) && !stdlib(*l)) throw Unsupported("library node " + l->code().value());
            } else if (auto a = dynamic_cast<const df::AccessNode*>(n)) {
                for (auto& e : g.out_edges(*a)) {
                    if (e.type() == df::MemletType::Reference) reference(*a, e);
                    else if (e.type() == df::MemletType::Dereference_Src) deref_src(*a, e);
                    else if (e.type() == df::MemletType::Dereference_Dst) deref_dst(*a, e);
                }
            }
        }
    }
    void reference(const df::AccessNode& src, const df::Memlet& e) {
        auto& dst = dynamic_cast<const df::AccessNode&>(e.dst()); cur = &e;
        uint64_t p;
        if (is_const(src)) p = pointer_value(src);
        else if (e.base_type().type_id() == types::TypeID::Pointer && !e.subset().empty()) { const types::IType* t; p = place(src, e.base_type(), e.subset(), t); }
        else { const types::IType* t; p = step_into(storage(src.data()), e.base_type(), e.subset(), 0, t); }
        cur = &e; trace(storage(dst.data()), 8, true, dst.data());
        store_ptr(storage(dst.data()), p);
    }
    void copy_bytes(uint64_t to, uint64_t from, size_t n, const std::string& cto, const std::string& cfrom) {
        if (!n) return;
        trace(from, n, false, cfrom); trace(to, n, true, cto);
        size_t a, b; auto* x = &m.at(to, n, a); auto* y = &m.at(from, n, b);
        std::vector<unsigned char> t(y->b.begin() + b, y->b.begin() + b + n), d(y->def.begin() + b, y->def.begin() + b + n);
        memcpy(&x->b[a], t.data(), n); memcpy(&x->def[a], d.data(), n);
    }
    void deref_src(const df::AccessNode& src, const df::Memlet& e) {
        auto& dst = dynamic_cast<const df::AccessNode&>(e.dst()); cur = &e;
        uint64_t p = pointer_value(src); auto& t = f.type(dst.data());
        auto& pt = static_cast<const types::Pointer&>(e.base_type()).pointee_type();
        if (t.type_id() == types::TypeID::Scalar && pt.type_id() == types::TypeID::Scalar) { store(storage(dst.data()), conv(load(p, pt.primitive_type(), "*"), t.primitive_type()), dst.data()); return; }
        copy_bytes(storage(dst.data()), p, size_of(t), dst.data(), "*");
    }
    void deref_dst(const df::AccessNode& src, const df::Memlet& e) {
        auto& dst = dynamic_cast<const df::AccessNode&>(e.dst()); cur = &e;
        uint64_t p = pointer_value(dst); auto& pt = static_cast<const types::Pointer&>(e.base_type()).pointee_type();
        if (auto c = dynamic_cast<const df::ConstantNode*>(&src)) {
            if (c->type().type_id() == types::TypeID::Pointer) { Value v; v.t = PT::UInt64; v.i = pointer_value(src); store(p, v, "*"); }
            else store(p, conv(constant(*c), pt.type_id() == types::TypeID::Scalar ? pt.primitive_type() : PT::UInt64), "*");
            return;
        }
        if (f.is_external(src.data())) { Value v; v.t = PT::UInt64; v.i = storage(src.data()); store(p, v, "*"); return; }
        auto& t = f.type(src.data());
        if (t.type_id() == types::TypeID::Scalar && pt.type_id() == types::TypeID::Scalar) { store(p, conv(load(storage(src.data()), t.primitive_type(), src.data()), pt.primitive_type()), "*"); return; }
        copy_bytes(p, storage(src.data()), size_of(t), "*", src.data());
    }
    bool stdlib(const df::LibraryNode& l) {
        auto& g = l.get_parent();
        auto in = [&](const std::string& c) -> const df::Memlet* { for (auto& e : g.in_edges(l)) if (e.dst_conn() == c) return &e; return nullptr; };
        auto out = [&]() -> const df::Memlet* { for (auto& e : g.out_edges(l)) return &e; return nullptr; };
        auto ptr_in = [&](const df::Memlet& e) -> uint64_t { auto& n = dynamic_cast<const df::AccessNode&>(e.src()); cur = &l; return pointer_value(n); };
        auto ptr_out = [&](const df::Memlet& e) -> uint64_t { auto& n = dynamic_cast<const df::AccessNode&>(e.dst()); cur = &l; return pointer_value(n); };
        auto setp = [&](uint64_t p) { auto* o = out(); if (!o) return; auto& n = dynamic_cast<const df::AccessNode&>(o->dst()); cur = o; trace(storage(n.data()), 8, true, n.data()); store_ptr(storage(n.data()), p); };
        auto size = [&](const symbolic::Expression& e) -> size_t { i128 n = sym(e); if (n < 0 || n > 1000000) throw Undefined("allocation size"); return (size_t)n; };
        (void)ptr_out;
        if (auto x = dynamic_cast<const stdlib::MallocNode*>(&l)) { setp(m.alloc(size(x->size()), "malloc")); return true; }
        if (auto x = dynamic_cast<const stdlib::AllocaNode*>(&l)) { setp(m.alloc(size(x->size()), "alloca")); return true; }
        if (auto x = dynamic_cast<const stdlib::CallocNode*>(&l)) { size_t n = size(symbolic::mul(x->num(), x->size())); uint64_t p = m.alloc(n, "calloc"); auto& o = m.o.back(); std::fill(o.b.begin(), o.b.end(), 0); std::fill(o.def.begin(), o.def.end(), 1); setp(p); return true; }
        if (dynamic_cast<const stdlib::FreeNode*>(&l)) { for (auto& e : g.in_edges(l)) { uint64_t p = ptr_in(e); if (p) { size_t off; auto& o = m.at(p, 0, off); if (off) throw Undefined("free of an inner pointer"); o.live = false; } } return true; }
        if (auto x = dynamic_cast<const stdlib::MemsetNode*>(&l)) {
            size_t n = size(x->num()); i128 v = sym(x->value()); uint64_t p = ptr_out(*out());
            if (n) { size_t off; auto& o = m.at(p, n, off); trace(p, n, true, "*"); memset(&o.b[off], (int)(v & 255), n); memset(&o.def[off], 1, n); }
            return true;
        }
        if (auto x = dynamic_cast<const stdlib::MemcpyNode*>(&l)) { size_t n = size(x->count()); for (auto& e : g.in_edges(l)) { copy_bytes(ptr_out(*out()), ptr_in(e), n, "*", "*"); break; } return true; }
        (void)in;
        return false;
    }

    // ---- control flow ----
    enum Flow { Next, Brk, Cont, Ret };
    Flow run(const scf::ControlFlowNode& n) {
        if (++steps > max_steps) throw Timeout("too many steps");
        if (on_node) on_node(n);
        if (auto b = dynamic_cast<const scf::Block*>(&n)) { run_dataflow(b->dataflow()); return Next; }
        if (auto q = dynamic_cast<const scf::Sequence*>(&n)) return run_seq(*q);
        if (auto i = dynamic_cast<const scf::IfElse*>(&n)) {
            for (size_t k = 0; k < i->size(); k++) { cur = i; if (cond(i->at(k).second)) return run_seq(i->at(k).first); }
            return Next;
        }
        if (auto w = dynamic_cast<const scf::While*>(&n)) {
            if (on_loop) on_loop(*w, true);
            Flow r = Next;
            while (true) { if (++steps > max_steps) throw Timeout("too many steps"); Flow x = run_seq(w->root()); if (x == Brk) break; if (x == Ret) { r = Ret; break; } }
            if (on_loop) on_loop(*w, false);
            return r;
        }
        if (auto l = dynamic_cast<const scf::StructuredLoop*>(&n)) {
            if (on_loop) on_loop(*l, true);
            Flow r = run_loop(*l);
            if (on_loop) on_loop(*l, false);
            return r;
        }
        if (dynamic_cast<const scf::Break*>(&n)) return Brk;
        if (dynamic_cast<const scf::Continue*>(&n)) return Cont;
        if (auto t = dynamic_cast<const scf::Return*>(&n)) {
            returned = true;
            if (t->is_data() && t->data().empty()) { cur = t; } else if (t->is_data()) {
                auto& ty = f.type(t->data()); cur = t;
                if (ty.type_id() == types::TypeID::Scalar) { ret = load(storage(t->data()), ty.primitive_type(), t->data()); has_ret = true; if (f.return_type().type_id() == types::TypeID::Scalar && f.return_type().primitive_type() != PT::Void) ret = conv(ret, f.return_type().primitive_type()); }
                else if (ty.type_id() == types::TypeID::Pointer) { ret.t = PT::UInt64; ret.i = f.is_external(t->data()) ? storage(t->data()) : load_ptr(storage(t->data())); has_ret = true; }
            } else if (t->is_constant() && t->data() != "" && t->type().type_id() == types::TypeID::Scalar && t->type().primitive_type() != PT::Void) {
                Value v; v.t = t->type().primitive_type(); if (fp(v.t)) v.d = std::stod(t->data()); else v.i = t->data() == "true" ? 1 : t->data() == "false" ? 0 : std::stoll(t->data());
                ret = conv(v, f.return_type().type_id() == types::TypeID::Scalar && f.return_type().primitive_type() != PT::Void ? f.return_type().primitive_type() : v.t); has_ret = true;
            }
            return Ret;
        }
        throw Unsupported("control flow node");
    }
    void assign(const symbolic::Symbol& s, i128 v) {
        auto& n = s->get_name(); auto& t = f.type(n);
        Value x; x.t = t.type_id() == types::TypeID::Pointer ? PT::UInt64 : t.primitive_type();
        x.i = wrap(v, x.t); store(storage(n), x, n);
    }
    Flow run_seq(const scf::Sequence& q) {
        for (size_t i = 0; i < q.size(); i++) {
            auto c = q.at(i);
            Flow r = run(c.first);
            if (r != Next) return r;
            if (!c.second.empty()) {  // simultaneous: every right-hand side is evaluated first
                std::vector<std::pair<symbolic::Symbol, i128>> a;
                if (c.second.size() > 1) for (auto& p : c.second.assignments()) for (auto& o : c.second.assignments())
                    if (!symbolic::eq(p.first, o.first) && symbolic::uses(p.second, o.first)) throw Undefined("assignments of one transition depend on each other");
                for (auto& p : c.second.assignments()) { cur = &c.second; a.push_back({p.first, sym(p.second)}); }
                for (auto& p : a) { cur = &c.second; assign(p.first, p.second); }
            }
        }
        return Next;
    }
    Flow run_loop(const scf::StructuredLoop& l) {
        auto m_ = dynamic_cast<const scf::Map*>(&l);
        cur = &l; assign(l.indvar(), sym(l.init()));
        if (m_ && order) {
            std::vector<i128> vals;
            while (true) {
                if (++steps > max_steps) throw Timeout("too many steps");
                cur = &l; if (!cond(l.condition())) break;
                vals.push_back(sym(l.indvar())); assign(l.indvar(), sym(l.update()));
            }
            i128 last = sym(l.indvar());
            for (size_t k : order(*m_, vals.size())) {
                assign(l.indvar(), vals[k]);
                if (on_iter) on_iter(l, (int64_t)vals[k]);
                Flow r = run_seq(l.root());
                if (r == Brk || r == Ret) throw Undefined("leaving a map early");
            }
            (void)last; forget(l.indvar());
            return Next;
        }
        while (true) {
            if (++steps > max_steps) throw Timeout("too many steps");
            cur = &l; if (!cond(l.condition())) break;
            if (on_iter) on_iter(l, (int64_t)sym(l.indvar()));
            Flow r = run_seq(l.root());
            if (r == Brk) break;
            if (r == Ret) return Ret;
            cur = &l; assign(l.indvar(), sym(l.update()));
        }
        if (m_) forget(l.indvar());
        return Next;
    }
    // the iterations of a map have their own induction variable: no value is left behind
    void forget(const symbolic::Symbol& v) {
        auto it = var.find(v->get_name()); if (it == var.end()) return;
        size_t off, n = size_of(f.type(v->get_name())); auto& x = m.at(it->second, n, off);
        for (size_t i = 0; i < n; i++) x.def[off + i] = false;
    }

    // ---- set-up ----
    // Storage of every container; call after the argument scalars that array sizes depend on are known.
    void declare(const std::string& n) { auto& t = f.type(n); size_t sz = f.is_external(n) ? (t.type_id() == types::TypeID::Pointer && static_cast<const types::Pointer&>(t).has_pointee_type() ? size_of(static_cast<const types::Pointer&>(t).pointee_type()) : 8) : size_of(t); var[n] = m.alloc(sz, n); }
    void bind(const std::string& n, i128 v) { if (!var.count(n)) declare(n); Value x; x.t = f.type(n).primitive_type(); x.i = wrap(v, x.t); store_raw(var[n], x); }
    void bind(const std::string& n, const Value& v) { if (!var.count(n)) declare(n); store_raw(var[n], conv(v, f.type(n).primitive_type())); }
    void bind_ptr(const std::string& n, uint64_t p) { if (!var.count(n)) { var[n] = m.alloc(8, n); } store_ptr(var[n], p); }
    void declare_rest() {
        for (auto& n : f.containers()) if (!var.count(n) && f.type(n).type_id() == types::TypeID::Scalar) declare(n);
        for (auto& n : f.containers()) {
            if (var.count(n) || f.type(n).type_id() == types::TypeID::Function) continue;
            declare(n);
            auto& t = f.type(n);
            if (!f.is_external(n) && !f.is_argument(n) && t.storage_type().allocation() == types::StorageType::AllocationType::Managed && t.type_id() == types::TypeID::Pointer) {
                i128 sz = sym(t.storage_type().allocation_size()); if (sz < 0 || sz > 1000000) throw Undefined("allocation size");
                uint64_t p = m.alloc((size_t)sz, n + "'s memory"); store_ptr(var[n], p);
            }
        }
    }
    void execute() { declare_rest(); Flow r = run_seq(s->root()); if (r == Brk || r == Cont) throw Undefined("break outside a loop"); }
};
}  // namespace vi
