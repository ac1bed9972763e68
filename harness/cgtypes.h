// Kernels of one tasklet over arrays of operands, and hand-built programs over composite types.
#pragma once
#include "cgen.h"
namespace tk {
using namespace sdfg; using T = data_flow::TaskletCode; using PT = types::PrimitiveType; typedef __int128 i128;
struct Kernel { T code; PT a, b, o; std::string konst; };  // konst: the second operand is this constant
inline const char* names[] = {"assign", "fp_neg", "fp_add", "fp_sub", "fp_mul", "fp_div", "fp_rem", "fp_fma", "fp_oeq", "fp_one", "fp_oge", "fp_ogt", "fp_ole", "fp_olt", "fp_ord", "fp_ueq", "fp_une", "fp_ugt", "fp_uge", "fp_ult", "fp_ule", "fp_uno", "int_add", "int_sub", "int_mul", "int_sdiv", "int_srem", "int_udiv", "int_urem", "int_and", "int_or", "int_xor", "int_shl", "int_ashr", "int_lshr", "int_smin", "int_smax", "int_scmp", "int_umin", "int_umax", "int_ucmp", "int_eq", "int_ne", "int_sge", "int_sgt", "int_sle", "int_slt", "int_uge", "int_ugt", "int_ule", "int_ult", "int_abs"};
inline const PT INTS[] = {PT::Int8, PT::UInt8, PT::Int16, PT::UInt16, PT::Int32, PT::UInt32, PT::Int64, PT::UInt64};
inline bool cmp(T c) { return (c >= T::int_eq && c <= T::int_ult) || (c >= T::fp_oeq && c <= T::fp_uno); }
inline bool signed_op(T c) { switch (c) { case T::int_sdiv: case T::int_srem: case T::int_ashr: case T::int_smin: case T::int_smax: case T::int_scmp: case T::int_sge: case T::int_sgt: case T::int_sle: case T::int_slt: case T::int_abs: return true; default: return false; } }
inline std::string tn(PT t) { return cg::spelled(t); }
inline std::string text(const Kernel& k) { return std::string("O[i] = ") + names[k.code] + "(A[i]" + (k.konst.empty() ? data_flow::arity(k.code) > 1 ? ", B[i]" : "" : ", " + k.konst) + "), A:" + tn(k.a) + " B:" + tn(k.b) + " O:" + tn(k.o); }
inline std::vector<Kernel> kernels(bool thorough) {
    std::vector<Kernel> r;
    for (int c = T::int_add; c <= T::int_abs; c++) {
        T code = (T)c; bool un = data_flow::arity(code) == 1;
        for (auto a : INTS) for (auto b : INTS) {
            if (vi::width(a) != vi::width(b) || (un && (a != b || types::is_unsigned(a)))) continue;  // the absolute value of an unsigned number is left open
            if ((code == T::int_eq || code == T::int_ne) && a != b && vi::width(a) < 32) continue;  // equal values or equal bits? left open
            std::set<PT> outs{types::as_signed(a), types::as_unsigned(a)};
            if (cmp(code)) outs.insert({PT::Bool, PT::Int32, PT::Int64});
            if (code == T::int_scmp || code == T::int_ucmp) outs.insert({PT::Int32, PT::Int64});
            for (auto o : outs) r.push_back({code, a, b, o, ""});
            if (un || (!thorough && a != b)) continue;
            std::vector<std::string> ks{"0", "1", "2", "7", "-1", "-3"};
            int w = vi::width(b);
            if (types::is_unsigned(b)) { ks = {"0", "1", "2", "7", w == 8 ? "255" : w == 16 ? "65535" : w == 32 ? "4294967295" : "9223372036854775807", w == 8 ? "128" : w == 16 ? "32768" : w == 32 ? "2147483648" : "4611686018427387904"}; }
            else { ks.push_back(w == 8 ? "127" : w == 16 ? "32767" : w == 32 ? "2147483647" : "9223372036854775807"); ks.push_back(w == 8 ? "-128" : w == 16 ? "-32768" : w == 32 ? "-2147483648" : "-9223372036854775808"); }
            for (auto& k : ks) r.push_back({code, a, b, a, k});
        }
    }
    for (int c = T::fp_neg; c <= T::fp_uno; c++) for (auto a : {PT::Float, PT::Double}) {
        T code = (T)c; if (code == T::fp_fma) continue;
        for (auto o : cmp(code) ? std::vector<PT>{PT::Bool, PT::Int32, PT::Int64} : std::vector<PT>{PT::Float, PT::Double}) {
            if (code == T::fp_rem && a == PT::Float && o == PT::Double) {}
            r.push_back({code, a, a, o, ""});
            if (data_flow::arity(code) == 2) for (auto k : {"0.0", "-0.0", "1.5", "-2.0", "1e30", "INFINITY", "-INFINITY", "NAN"}) r.push_back({code, a, a, o, k});
        }
    }
    std::vector<PT> all(std::begin(INTS), std::end(INTS)); all.insert(all.end(), {PT::Bool, PT::Float, PT::Double});
    for (auto a : all) for (auto o : all) r.push_back({T::assign, a, a, o, ""});
    return r;
}
inline std::unique_ptr<StructuredSDFG> build(const Kernel& k) {
    types::Scalar v(PT::Void), i64(PT::Int64); builder::StructuredSDFGBuilder b("prog", FunctionType_CPU, v);
    types::Scalar ta(k.a), tb(k.b), to(k.o); types::Pointer pa(ta), pb(tb), po(to);
    b.add_container("A", pa, true); b.add_container("B", pb, true); b.add_container("O", po, true); b.add_container("n", i64, true); b.add_container("i", i64);
    auto i = symbolic::symbol("i");
    auto& loop = b.add_for(b.subject().root(), i, symbolic::Lt(i, symbolic::symbol("n")), symbolic::zero(), symbolic::add(i, symbolic::one()));
    auto& blk = b.add_block(loop.root());
    auto& A = b.add_access(blk, "A"); auto& O = b.add_access(blk, "O"); bool two = data_flow::arity(k.code) == 2;
    auto& t = b.add_tasklet(blk, k.code, "_out", two ? std::vector<std::string>{"_in1", "_in2"} : std::vector<std::string>{"_in1"});
    b.add_computational_memlet(blk, A, t, "_in1", {i}, pa);
    if (two && k.konst.empty()) { auto& B = b.add_access(blk, "B"); b.add_computational_memlet(blk, B, t, "_in2", {i}, pb); }
    else if (two) { auto& B = b.add_constant(blk, k.konst, tb); b.add_computational_memlet(blk, B, t, "_in2", {}); }
    b.add_computational_memlet(blk, t, "_out", O, {i}, po);
    auto s = b.move(); s->validate(); return s;
}
// ---- the meaning of a tasklet, written from the documentation of TaskletCode: w-bit integers whose sign is the operation's ----
struct V { i128 i = 0; double d = 0; bool ok = true; };
inline i128 sx(i128 v, int w) { unsigned __int128 u = (unsigned __int128)v << (128 - w); return (i128)u >> (128 - w); }
inline i128 zx(i128 v, int w) { return (i128)((unsigned __int128)v & ((((unsigned __int128)1 << (w - 1)) << 1) - 1)); }
inline V convert(V x, PT from, PT to) {  // documented conversions: zext, sext, trunc, fptoui, fptosi, uitofp, sitofp, fpext, fptrunc
    V r = x; if (!x.ok) return r;
    if (vi::fp(from)) {
        if (to == PT::Double) return r;
        if (to == PT::Float) { r.d = (float)x.d; return r; }
        if (to == PT::Bool) { r.i = x.d != 0; return r; }
        double lo = types::is_signed(to) ? -std::ldexp(1, vi::width(to) - 1) : 0, hi = std::ldexp(1, types::is_signed(to) ? vi::width(to) - 1 : vi::width(to)), q = std::trunc(x.d);
        if (!(q >= lo && q < hi)) { r.ok = false; return r; }
        r.i = (i128)q; return r;
    }
    if (to == PT::Double) { r.d = types::is_unsigned(from) || from == PT::Bool ? (double)(uint64_t)x.i : (double)(int64_t)x.i; return r; }
    if (to == PT::Float) { r.d = types::is_unsigned(from) || from == PT::Bool ? (float)(uint64_t)x.i : (float)(int64_t)x.i; return r; }
    if (to == PT::Bool) { r.i = x.i != 0; return r; }
    r.i = types::is_unsigned(to) ? zx(x.i, vi::width(to)) : sx(x.i, vi::width(to)); return r;
}
inline V meaning(const Kernel& k, V a, V b) {
    T c = k.code; V r;
    if (c == T::assign) return convert(a, k.a, k.o);
    if (data_flow::is_floating_point(c)) {
        bool u = std::isnan(a.d) || std::isnan(b.d), f = k.a == PT::Float; double x = a.d, y = b.d; bool q = false;
        auto R = [&](double d) { V v; v.d = f ? (float)d : d; return convert(v, k.a, k.o); };
        switch (c) {
            case T::fp_neg: return R(-x); case T::fp_add: return f ? R((float)x + (float)y) : R(x + y); case T::fp_sub: return f ? R((float)x - (float)y) : R(x - y); case T::fp_mul: return f ? R((float)x * (float)y) : R(x * y); case T::fp_div: return f ? R((float)x / (float)y) : R(x / y); case T::fp_rem: return R(std::fmod(x, y));
            case T::fp_oeq: q = !u && x == y; break; case T::fp_one: q = !u && x != y; break; case T::fp_oge: q = !u && x >= y; break; case T::fp_ogt: q = !u && x > y; break; case T::fp_ole: q = !u && x <= y; break; case T::fp_olt: q = !u && x < y; break;
            case T::fp_ord: q = !u; break; case T::fp_uno: q = u; break;
            case T::fp_ueq: q = u || x == y; break; case T::fp_une: q = u || x != y; break; case T::fp_uge: q = u || x >= y; break; case T::fp_ugt: q = u || x > y; break; case T::fp_ule: q = u || x <= y; break; case T::fp_ult: q = u || x < y; break;
            default: r.ok = false; return r;
        }
        r.i = q; return r;
    }
    int w = vi::width(k.a); i128 s = sx(a.i, w), t = sx(b.i, w), u = zx(a.i, w), v = zx(b.i, w), lo = -((i128)1 << (w - 1)), hi = ((i128)1 << (w - 1)) - 1;
    bool sg = types::is_signed(k.a) && types::is_signed(k.b);
    // arithmetic whose operands are of signed type must not overflow; any other wraps
    auto arith = [&](i128 x) { if (sg && (x < lo || x > hi)) r.ok = false; r.i = x; };
    switch (c) {
        case T::int_add: arith(sg ? s + t : u + v); break; case T::int_sub: arith(sg ? s - t : u - v); break; case T::int_mul: arith(sg ? s * t : (i128)((unsigned __int128)u * (unsigned __int128)v)); break;
        case T::int_sdiv: if (!t || (s == lo && t == -1)) r.ok = false; else r.i = s / t; break;
        case T::int_srem: if (!t || (s == lo && t == -1)) r.ok = false; else r.i = s % t; break;
        case T::int_udiv: if (!v) r.ok = false; else r.i = u / v; break; case T::int_urem: if (!v) r.ok = false; else r.i = u % v; break;
        case T::int_and: r.i = u & v; break; case T::int_or: r.i = u | v; break; case T::int_xor: r.i = u ^ v; break;
        case T::int_shl: if (v >= w) r.ok = false; else r.i = (i128)((unsigned __int128)u << (int)v); break;
        case T::int_ashr: if (v >= w) r.ok = false; else r.i = s >> (int)v; break; case T::int_lshr: if (v >= w) r.ok = false; else r.i = u >> (int)v; break;
        case T::int_smin: r.i = std::min(s, t); break; case T::int_smax: r.i = std::max(s, t); break; case T::int_scmp: r.i = s < t ? -1 : s > t; break;
        case T::int_umin: r.i = std::min(u, v); break; case T::int_umax: r.i = std::max(u, v); break; case T::int_ucmp: r.i = u < v ? -1 : u > v; break;
        case T::int_abs: if (s == lo) r.ok = false; else r.i = s < 0 ? -s : s; break;
        case T::int_eq: r.i = u == v; break; case T::int_ne: r.i = u != v; break;
        case T::int_sge: r.i = s >= t; break; case T::int_sgt: r.i = s > t; break; case T::int_sle: r.i = s <= t; break; case T::int_slt: r.i = s < t; break;
        case T::int_uge: r.i = u >= v; break; case T::int_ugt: r.i = u > v; break; case T::int_ule: r.i = u <= v; break; case T::int_ult: r.i = u < v; break;
        default: r.ok = false;
    }
    if (r.ok) r.i = k.o == PT::Bool ? r.i != 0 : types::is_unsigned(k.o) ? zx(r.i, vi::width(k.o)) : sx(r.i, vi::width(k.o));
    return r;
}
inline std::vector<V> operands(PT t) {
    std::vector<V> r; auto I = [&](i128 x) { V v; v.i = x; r.push_back(v); }; auto D = [&](double x) { V v; v.d = t == PT::Float ? (float)x : x; r.push_back(v); };
    if (t == PT::Bool) { I(0); I(1); return r; }
    if (vi::fp(t)) { for (double x : {0.0, -0.0, 0.5, 1.0, 1.5, -1.0, -1.5, -2.0, 2.0, 3.0, 0.1, 7.9, -7.9, 100.0, 127.0, 128.0, 255.0, 256.0, 32767.0, 65535.0, 1e9, 2147483647.0, 2147483648.0, 4294967295.0, -2147483648.0, 1e15, 9e18, 1.8e19, 1e30, 1e300, -1e30, 1e-30, 1e-310}) D(x); D(INFINITY); D(-INFINITY); D(NAN); return r; }
    int w = vi::width(t); i128 lo = types::is_signed(t) ? -((i128)1 << (w - 1)) : 0, hi = types::is_signed(t) ? ((i128)1 << (w - 1)) - 1 : ((i128)1 << w) - 1;
    if (w == 8) { for (i128 x = lo; x <= hi; x++) I(x); return r; }
    std::set<i128> s; for (i128 x : {(i128)0, (i128)1, (i128)2, (i128)3, (i128)5, (i128)7, (i128)8, (i128)15, (i128)31, (i128)63, (i128)100, (i128)127, (i128)128, (i128)255}) { s.insert(x); if (lo) s.insert(-x); }
    for (int k = 7; k < w; k++) for (int d = -1; d <= 1; d++) { i128 x = ((i128)1 << k) + d; for (i128 y : {x, -x}) if (y >= lo && y <= hi && (k % 8 == 7 || k % 8 == 0)) s.insert(y); }
    for (i128 x : {lo, lo + 1, hi, hi - 1}) s.insert(x);
    for (i128 x : s) if (x >= lo && x <= hi) I(x);
    return r;
}
inline void put(std::vector<unsigned char>& b, size_t k, V v, PT t) { size_t w = vi::width(t) / 8; if (t == PT::Double) memcpy(&b[k * w], &v.d, 8); else if (t == PT::Float) { float f = v.d; memcpy(&b[k * w], &f, 4); } else memcpy(&b[k * w], &v.i, w); }
inline V get(const std::vector<unsigned char>& b, size_t k, PT t) { V v; size_t w = vi::width(t) / 8; if (t == PT::Double) memcpy(&v.d, &b[k * w], 8); else if (t == PT::Float) { float f; memcpy(&f, &b[k * w], 4); v.d = f; } else { unsigned __int128 u = 0; memcpy(&u, &b[k * w], w); v.i = types::is_unsigned(t) || t == PT::Bool ? (i128)u : sx((i128)u, vi::width(t)); } return v; }
inline std::string str(V v, PT t) { if (vi::fp(t)) { char b[40]; snprintf(b, 40, "%.17g", v.d); return b; } std::string s; i128 x = v.i; bool n = x < 0; if (n) x = -x; do s = char('0' + (int)(x % 10)) + s; while (x /= 10); return n ? "-" + s : s; }
inline V parse(const std::string& s, PT t) { V v; if (vi::fp(t)) { v.d = s == "INFINITY" ? INFINITY : s == "-INFINITY" ? -INFINITY : s == "NAN" ? NAN : std::stod(s); if (t == PT::Float) v.d = (float)v.d; return v; } bool n = s[0] == '-'; for (char c : s) if (c != '-') v.i = v.i * 10 + (c - '0'); if (n) v.i = -v.i; return v; }
inline std::string run(const Kernel& k, cg::Unit& u, long& n) {
    std::vector<V> as, bs, want; auto A = operands(k.a);
    std::vector<V> B; if (!k.konst.empty()) B.push_back(parse(k.konst, k.b)); else if (data_flow::arity(k.code) == 2) B = operands(k.b); else B.push_back(V());
    for (auto& a : A) for (auto& b : B) { V m = meaning(k, a, b); if (!m.ok) continue; as.push_back(a); bs.push_back(b); want.push_back(m); }
    int64_t cnt = n = as.size(); if (!cnt) return "";
    std::vector<unsigned char> ba(cnt * 8 + 8), bb(cnt * 8 + 8), bo(cnt * 8 + 8, 0xA5);
    for (int64_t j = 0; j < cnt; j++) { put(ba, j, as[j], k.a); put(bb, j, bs[j], k.b); }
    // which of the containers are arguments that are used decides nothing: all four are parameters
    auto s = build(k); std::vector<void*> args; int64_t len = cnt;
    for (auto& nme : s->arguments()) args.push_back(nme == "A" ? (void*)ba.data() : nme == "B" ? (void*)bb.data() : nme == "O" ? (void*)bo.data() : (void*)&len);
    u.f(args.data(), nullptr);
    for (int64_t j = 0; j < cnt; j++) {
        V g = get(bo, j, k.o); bool same = vi::fp(k.o) ? (std::isnan(g.d) && std::isnan(want[j].d)) || (g.d == want[j].d && std::signbit(g.d) == std::signbit(want[j].d)) : g.i == want[j].i;
        if (!same) return "for " + str(as[j], k.a) + (data_flow::arity(k.code) == 2 ? " and " + str(bs[j], k.b) : "") + " it stores " + str(g, k.o) + " instead of " + str(want[j], k.o);
    }
    return "";
}
}  // namespace tk
namespace ty {
using namespace sdfg; using PT = types::PrimitiveType; namespace df = sdfg::data_flow;
struct Case { std::string name; std::function<std::unique_ptr<StructuredSDFG>(size_t)> make; std::function<std::string(cg::Unit&, cg::Lang, long&, const StructuredSDFG&)> run; std::string prefix; };
typedef std::vector<std::pair<std::string, std::vector<unsigned char>>> Bytes;  // a pointer argument and what it points to
inline bool is_ptr(const vi::Memory& m, uint64_t v) { uint64_t id = v >> 32, f = v & 0xffffffffull; return id >= 1 && id <= m.o.size() && f >= (1ull << 30) - 64 && f < (1ull << 30) + 4096; }
// Runs the program in the interpreter and natively on the same memory and compares all of it.
inline std::string both(cg::Unit& u, const StructuredSDFG& s, const Bytes& in, const std::map<std::string, int64_t>& scal, PT ret, long& n, std::function<void(vi::Interp&)> prep = {}, std::function<void()> before = {}) {
    vi::Interp ip(s); ip.max_steps = 20000; std::map<std::string, uint64_t> at;
    for (auto& [k, v] : scal) if (s.exists(k) && s.is_argument(k)) ip.bind(k, (vi::i128)v);
    for (auto& [k, b] : in) { at[k] = ip.m.alloc(b.size(), k); auto& o = ip.m.o[(at[k] >> 32) - 1]; o.b = b; std::fill(o.def.begin(), o.def.end(), 1); if (s.exists(k)) ip.bind_ptr(k, at[k]); }
    try { if (prep) prep(ip); ip.execute(); } catch (vi::Undefined& x) { return ""; } catch (vi::Unsupported& x) { return std::string("the interpreter does not support ") + x.what(); } catch (vi::Timeout&) { return ""; }
    n++;
    std::list<std::vector<unsigned char>> bufs; std::map<std::string, std::vector<unsigned char>*> by; std::vector<void*> args; std::list<int64_t> sc; alignas(16) unsigned char rv[64] = {0};
    for (auto& [k, b] : in) { bufs.push_back(b); by[k] = &bufs.back(); }
    for (auto& k : s.arguments()) if (by.count(k)) args.push_back(by[k]->data()); else { auto x = scal.find(k); sc.push_back(x == scal.end() ? 0 : x->second); args.push_back(&sc.back()); }
    if (before) before();
    u.f(args.data(), rv);
    for (auto& [k, b] : in) {
        auto& o = ip.m.o[(at[k] >> 32) - 1]; auto& g = *by[k]; std::vector<bool> mask(o.b.size());
        for (size_t i = 0; i + 8 <= o.b.size(); i++) { uint64_t v; memcpy(&v, &o.b[i], 8); if (is_ptr(ip.m, v)) for (int j = 0; j < 8; j++) mask[i + j] = true; }
        for (size_t i = 0; i < o.b.size(); i++) if (!mask[i] && o.def[i] && o.b[i] != g[i]) return "byte " + std::to_string(i) + " of " + k + " is " + std::to_string((int)g[i]) + " instead of " + std::to_string((int)o.b[i]);
    }
    if (ret != PT::Void && ip.has_ret && !ip.ret.poison) { std::vector<unsigned char> x(16, 0), y(16, 0); tk::V v; v.i = ip.ret.i; v.d = ip.ret.d; tk::put(x, 0, v, ret); memcpy(y.data(), rv, vi::width(ret) / 8); if (memcmp(x.data(), y.data(), vi::width(ret) / 8)) return "it returns another value"; }
    return "";
}
inline std::vector<unsigned char> fill(size_t n, int seed) { std::vector<unsigned char> r(n); for (size_t i = 0; i < n; i++) r[i] = (unsigned char)((i * 11 + seed) % 97 + 1); return r; }
typedef std::vector<symbolic::Expression> Path;
struct Leaf { Path path; PT t; bool ptr = false; };
// a member type by number; structures get names of their own
enum { I8, U8, I16, I32, U32, I64, F32, F64, A3S, A22, INNER, AINNER, PTR, SELF, BOOL, NTYPES };
inline const char* mnames[] = {"i8", "u8", "i16", "i32", "u32", "i64", "f32", "f64", "i16[3]", "i32[2][2]", "inner", "inner[2]", "i32*", "self*", "bool"};
struct Layout { std::vector<int> m; bool packed; };
inline std::string text(const Layout& l) { std::string r = l.packed ? "packed {" : "{"; for (int x : l.m) r += std::string(mnames[x]) + ";"; return r + "}"; }
inline int ival(const symbolic::Expression& e) { return SymEngine::rcp_static_cast<const SymEngine::Integer>(e)->as_int(); }
struct Maker {
    builder::StructuredSDFGBuilder b; std::string sn, in; bool inner = false;
    Maker(size_t id, PT ret = PT::Void) : b("prog", FunctionType_CPU, types::Scalar(ret)), sn("S" + std::to_string(id)), in("In" + std::to_string(id)) {}
    std::unique_ptr<types::IType> member(int k) {
        auto S = [](PT t) { return types::Scalar(t); };
        switch (k) {
            case I8: return S(PT::Int8).clone(); case U8: return S(PT::UInt8).clone(); case I16: return S(PT::Int16).clone(); case I32: return S(PT::Int32).clone(); case U32: return S(PT::UInt32).clone(); case I64: return S(PT::Int64).clone(); case F32: return S(PT::Float).clone(); case F64: return S(PT::Double).clone(); case BOOL: return S(PT::Bool).clone();
            case A3S: return types::Array(S(PT::Int16), symbolic::integer(3)).clone(); case A22: return types::Array(types::Array(S(PT::Int32), symbolic::integer(2)), symbolic::integer(2)).clone();
            case INNER: need_inner(); return types::Structure(in).clone(); case AINNER: need_inner(); return types::Array(types::Structure(in), symbolic::integer(2)).clone();
            case PTR: return types::Pointer(S(PT::Int32)).clone(); case SELF: return types::Pointer(types::Structure(sn)).clone();
        }
        abort();
    }
    void need_inner() { if (inner) return; inner = true; auto& d = b.add_structure(in, false); d.add_member(types::Scalar(PT::Int8)); d.add_member(types::Scalar(PT::Double)); }
    std::vector<Leaf> leaves;
    void collect(const types::IType& t, Path p) {
        switch (t.type_id()) {
            case types::TypeID::Scalar: leaves.push_back({p, t.primitive_type()}); break;
            case types::TypeID::Array: for (int i = 0; i < 3; i++) { auto& a = static_cast<const types::Array&>(t); if (i >= ival(a.num_elements())) break; auto q = p; q.push_back(symbolic::integer(i)); collect(a.element_type(), q); } break;
            case types::TypeID::Structure: { auto& d = b.subject().structure(static_cast<const types::Structure&>(t).name()); for (size_t i = 0; i < d.num_members(); i++) { auto q = p; q.push_back(symbolic::integer(i)); collect(d.member_type(symbolic::integer(i)), q); } break; }
            case types::TypeID::Pointer: leaves.push_back({p, PT::Int32, true}); break;
            default: abort();
        }
    }
    void define(const Layout& l) { std::vector<std::unique_ptr<types::IType>> ms; for (int k : l.m) ms.push_back(member(k)); auto& d = b.add_structure(sn, l.packed); for (auto& m : ms) d.add_member(*m); collect(types::Structure(sn), {}); }
    std::map<PT, int> used; 
    std::string io(const char* pre, PT t) { std::string n = std::string(pre) + cg::spelled(t); if (!b.subject().exists(n)) b.add_container(n, types::Pointer(types::Scalar(t)), true); return n; }
    structured_control_flow::Block& block() { return b.add_block(b.subject().root()); }
    // dst[..] = src[..]
    void assign(const std::string& dst, const Path& ds, const types::IType& dt, const std::string& src, const Path& ss, const types::IType& st) {
        auto& k = block(); auto& a = b.add_access(k, src); auto& o = b.add_access(k, dst); auto& t = b.add_tasklet(k, df::TaskletCode::assign, "_out", {"_in"});
        b.add_computational_memlet(k, a, t, "_in", ss, st); b.add_computational_memlet(k, t, "_out", o, ds, dt);
    }
    void read(PT t, const std::string& src, const Path& ss, const types::IType& st) { auto o = io("O", t); assign(o, {symbolic::integer(used[t]++)}, types::Pointer(types::Scalar(t)), src, ss, st); }
    void write(PT t, const std::string& dst, const Path& ds, const types::IType& dt) { auto i = io("I", t); assign(dst, ds, dt, i, {symbolic::integer(used[t]++)}, types::Pointer(types::Scalar(t))); }
    void ref(const std::string& dst, const std::string& src, const Path& ss, const types::IType& st) { auto& k = block(); auto& a = b.add_access(k, src); auto& o = b.add_access(k, dst); b.add_reference_memlet(k, a, o, ss, st); }
    void deref(const std::string& dst, const std::string& src, bool s, const types::IType& t) { auto& k = block(); auto& a = b.add_access(k, src); auto& o = b.add_access(k, dst); b.add_dereference_memlet(k, a, o, s, t); }
    std::unique_ptr<StructuredSDFG> done() { auto s = b.move(); s->validate(); return s; }
};
inline Path at(symbolic::Expression e, const Path& p) { Path r{e}; r.insert(r.end(), p.begin(), p.end()); return r; }
inline symbolic::Expression num(int k) { return symbolic::integer(k); }
enum Kind { MEMBERS, LOCAL, REFS, COPY, ARRAY, NKINDS };
inline const char* knames[] = {"members", "local structure", "references to members", "copies through pointers", "arrays of structures"};
inline std::unique_ptr<StructuredSDFG> build(const Layout& l, int kind, size_t id) {
    Maker m(id); m.define(l); auto& b = m.b; types::Structure st(m.sn); types::Pointer ps(st);
    b.add_container("S", ps, true); b.add_container("Q", types::Pointer(types::Scalar(PT::Int32)), true);
    types::Pointer i32p{(const types::IType&)types::Scalar(PT::Int32)}, i32pp((const types::IType&)i32p), psp((const types::IType&)ps);
    auto leaves = m.leaves;
    auto set_ptr = [&](const Leaf& f, const std::string& c, const Path& p, const types::IType& base) {  // the pointer member points to Q (or to S)
        bool self = l.m[ival(f.path[0])] == SELF; const types::IType& pp = self ? (const types::IType&)psp : i32pp; std::string pn = self ? "PS" : "PQ";
        if (!b.subject().exists(pn)) b.add_container(pn, pp); m.ref(pn, c, p, base); m.deref(pn, self ? "S" : "Q", false, pp);
        std::string rn = self ? "RS" : "RQ"; if (!b.subject().exists(rn)) b.add_container(rn, self ? (const types::IType&)ps : i32p); m.deref(rn, pn, true, pp);
        return self;
    };
    switch (kind) {
        case MEMBERS: for (auto& f : leaves) if (!f.ptr) { m.read(f.t, "S", at(num(1), f.path), ps); m.write(f.t, "S", at(num(2), f.path), ps); }
            else if (!set_ptr(f, "S", at(num(1), f.path), ps)) { m.read(PT::Int32, "RQ", {num(2)}, i32p); m.write(PT::Int32, "RQ", {num(3)}, i32p); }
            else for (auto& g : leaves) if (!g.ptr) m.read(g.t, "RS", at(num(2), g.path), ps);
            break;
        case LOCAL: b.add_container("loc", st); for (auto& f : leaves) if (!f.ptr) m.write(f.t, "loc", f.path, st); else set_ptr(f, "loc", f.path, st);
            for (auto& f : leaves) if (!f.ptr) m.read(f.t, "loc", f.path, st); else if (l.m[ival(f.path[0])] == PTR) m.read(PT::Int32, "RQ", {num(1)}, i32p);
            break;
        case REFS: for (auto& f : leaves) if (!f.ptr) { std::string r = std::string("R") + cg::spelled(f.t); types::Pointer pt{(const types::IType&)types::Scalar(f.t)}; if (!b.subject().exists(r)) b.add_container(r, pt); m.ref(r, "S", at(num(1), f.path), ps); m.read(f.t, r, {num(0)}, pt); m.write(f.t, r, {num(0)}, pt); }
            break;
        case COPY: b.add_container("loc", st); b.add_container("P", ps); m.ref("P", "S", {num(1)}, ps); m.deref("loc", "P", true, ps);
            for (auto& f : leaves) if (!f.ptr) { m.read(f.t, "loc", f.path, st); m.write(f.t, "loc", f.path, st); }
            m.ref("P", "S", {num(2)}, ps); m.deref("P", "loc", false, ps); break;
        case ARRAY: { types::Array as(st, num(3)); b.add_container("arr", as); for (auto& f : leaves) if (!f.ptr) for (int k = 0; k < 3; k++) m.write(f.t, "arr", at(num(k), f.path), as); for (auto& f : leaves) if (!f.ptr) for (int k = 2; k >= 0; k--) m.read(f.t, "arr", at(num(k), f.path), as); break; }
    }
    return m.done();
}
inline std::string run(cg::Unit& u, long& n, const StructuredSDFG& s) {
    Bytes in; in.push_back({"S", fill(400, 3)}); in.push_back({"Q", fill(64, 40)});
    for (auto& k : s.arguments()) if (k[0] == 'I' || k[0] == 'O') in.push_back({k, fill(1200, k[0] + (int)k.size())});
    for (auto& [k, b] : in) if (k == "Obool" || k == "Ibool") for (auto& x : b) x &= 1;
    auto* sb = &in[0].second; (void)sb;
    return both(u, s, in, {}, PT::Void, n);
}
// Locals of array and pointer-to-array type, returns, managed storage, externals
std::vector<Case> misc();
inline std::vector<Case> cases(bool thorough) {
    std::vector<Case> r;
    std::vector<Layout> ls;
    for (bool p : {false, true}) for (int a = 0; a < NTYPES; a++) { ls.push_back({{a}, p}); for (int b = 0; b < NTYPES; b++) { ls.push_back({{a, b}, p}); for (int c = 0; c < NTYPES; c++) if (thorough || (c == I8 && a != b) || (a == I8 && c == F64)) ls.push_back({{a, b, c}, p}); } }
    for (auto& l : ls) for (int k = 0; k < NKINDS; k++) {
        bool boolean = std::count(l.m.begin(), l.m.end(), (int)BOOL) > 0; if (boolean && k != LOCAL && k != ARRAY) continue;  // other bytes than 0 and 1 are no bool
        if (k != LOCAL && k != MEMBERS && l.m.size() == 1 && (l.m[0] == PTR || l.m[0] == SELF)) continue;
        if (k == REFS && l.packed) continue;  // a pointer into a packed structure has no alignment of its own
        r.push_back({std::string(knames[k]) + " of " + text(l), [l, k](size_t id) { return build(l, k, id); }, [](cg::Unit& u, cg::Lang, long& n, const StructuredSDFG& s) { return run(u, n, s); }});
    }
    for (auto& c : misc()) r.push_back(c);
    return r;
}
inline std::unique_ptr<types::IType> sized(PT t, int alloc, symbolic::Expression bytes) {
    using ST = types::StorageType;
    types::Scalar e(t); ST st = alloc == 0 ? ST("CPU_Stack", bytes, ST::Managed, ST::Unmanaged) : ST::CPU_Heap(bytes, ST::Managed, alloc == 1 ? ST::Managed : ST::Unmanaged);
    return types::Pointer(st, 0, "", e).clone();
}
inline std::vector<Case> misc() {
    std::vector<Case> r; auto N = symbolic::symbol("N"), M = symbolic::symbol("M"), i = symbolic::symbol("i"), j = symbolic::symbol("j");
    static const types::Scalar i64(PT::Int64); static const types::Pointer p64{(const types::IType&)i64};
    auto loop = [](Maker& m, structured_control_flow::Sequence& q, symbolic::Symbol v, symbolic::Expression n) -> structured_control_flow::Sequence& { return m.b.add_for(q, v, symbolic::Lt(v, n), symbolic::zero(), symbolic::add(v, symbolic::one())).root(); };
    auto put = [](Maker& m, structured_control_flow::Sequence& q, const std::string& d, Path ds, const types::IType& dt, const std::string& s, Path ss, const types::IType& st, df::TaskletCode c = df::TaskletCode::assign) {
        auto& k = m.b.add_block(q); auto& a = m.b.add_access(k, s); auto& o = m.b.add_access(k, d); bool two = df::arity(c) == 2;
        auto& t = m.b.add_tasklet(k, c, "_out", two ? std::vector<std::string>{"_in", "_k"} : std::vector<std::string>{"_in"});
        if (two) { auto& one = m.b.add_constant(k, "1", types::Scalar(PT::Int64)); m.b.add_computational_memlet(k, one, t, "_k", {}); }
        m.b.add_computational_memlet(k, a, t, "_in", ss, st); m.b.add_computational_memlet(k, t, "_out", o, ds, dt);
    };
    // memory managed by the program: one or two allocations, with or without an early return
    for (int a1 = 0; a1 < 3; a1++) for (int a2 = -1; a2 < 3; a2++) for (int early = 0; early < 3; early++) for (int pre = 0; pre < 2; pre++) {
        static const char* an[] = {"stack", "heap", "heap, not freed"};
        std::string name = std::string("memory of the program on the ") + an[a1] + (a2 >= 0 ? std::string(" and the ") + an[a2] : "") + (early == 1 ? ", early return" : early == 2 ? ", return at the end" : "") + (pre ? ", prefix" : "");
        if (!pre && (a1 || a2 > 0)) continue;  // heap functions are watched under the prefix only
        r.push_back({name, [=](size_t id) {
            Maker m(id); auto& b = m.b; b.add_container("N", i64, true); b.add_container("A", p64, true); b.add_container("O", p64, true); b.add_container("i", i64); b.add_container("j", i64);
            auto bytes = symbolic::mul(symbolic::add(N, symbolic::one()), symbolic::integer(8));
            b.add_container("T", *sized(PT::Int64, a1, bytes)); if (a2 >= 0) b.add_container("U", *sized(PT::Int64, a2, symbolic::max(bytes, symbolic::integer(32))));
            auto& root = b.subject().root();
            put(m, loop(m, root, i, N), "T", {i}, p64, "A", {i}, p64, df::TaskletCode::int_add);
            if (early == 1) { auto& br = b.add_if_else(root); auto& c = b.add_case(br, symbolic::Lt(N, symbolic::integer(2))); put(m, c, "O", {num(7)}, p64, "A", {num(0)}, p64); b.add_return(c, ""); }
            if (a2 >= 0) { put(m, loop(m, root, i, N), "U", {i}, p64, "T", {symbolic::sub(symbolic::sub(N, i), symbolic::one())}, p64); put(m, loop(m, root, i, N), "O", {i}, p64, "U", {i}, p64); }
            else put(m, loop(m, root, i, N), "O", {i}, p64, "T", {symbolic::sub(symbolic::sub(N, i), symbolic::one())}, p64);
            if (early == 2) b.add_return(root, "");
            return m.done();
        }, [=](cg::Unit& u, cg::Lang, long& n, const StructuredSDFG& s) -> std::string {
            for (int64_t N : {0, 1, 2, 3, 6}) {
                auto stat = (int*)dlsym(u.lib, "pre_stat"); if (stat) stat[0] = stat[1] = stat[2] = 0;
                auto m = both(u, s, {{"A", fill(80, 1)}, {"O", fill(80, 9)}}, {{"N", N}}, PT::Void, n); if (!m.empty()) return "with N=" + std::to_string(N) + ": " + m;
                if (!stat || !pre) continue;
                int freed = (a1 == 1) + (a2 == 1), heap = (a1 > 0) + (a2 > 0);
                if (stat[2]) return "with N=" + std::to_string(N) + ": memory is freed that is not allocated";
                if (stat[0] != heap || stat[1] != freed) return "with N=" + std::to_string(N) + ": " + std::to_string(stat[0]) + " allocations, " + std::to_string(stat[1]) + " frees; expected " + std::to_string(heap) + " and " + std::to_string(freed);
            }
            return "";
        }, pre ? "pre_" : ""});
    }
    // returns
    for (auto t : {PT::Bool, PT::Int8, PT::UInt8, PT::Int16, PT::UInt16, PT::Int32, PT::UInt32, PT::Int64, PT::UInt64, PT::Float, PT::Double}) {
        r.push_back({std::string("return of a ") + cg::spelled(t), [=](size_t id) { Maker m(id, t); types::Scalar st(t); types::Pointer pt{(const types::IType&)st}; m.b.add_container("A", pt, true); m.b.add_container("x", st); put(m, m.b.subject().root(), "x", {}, st, "A", {num(1)}, pt); m.b.add_return(m.b.subject().root(), "x"); return m.done(); },
            [=](cg::Unit& u, cg::Lang, long& n, const StructuredSDFG& s) -> std::string { for (int f : {0, 1, 129, 200, 255}) { std::vector<unsigned char> b(64, f); if (t == PT::Bool) for (auto& x : b) x &= 1; if (vi::fp(t) && f == 255) continue; auto m = both(u, s, {{"A", b}}, {}, t, n); if (!m.empty()) return m; } return ""; }, ""});
        std::vector<std::string> ks{"0", "1", "7"}; if (t == PT::Bool) ks = {"true", "false"}; if (types::is_signed(t)) ks.push_back("-7"); if (t == PT::UInt8) ks.push_back("200"); if (t == PT::UInt32) ks.push_back("4294967295"); if (t == PT::Int64) ks.push_back("-9223372036854775808"); if (vi::fp(t)) ks = {"0.0", "-0.0", "1.5", "-2.5e10", "INFINITY", "-INFINITY"};
        for (auto& k : ks) r.push_back({std::string("return of the ") + cg::spelled(t) + " constant " + k, [=](size_t id) { Maker m(id, t); m.b.add_constant_return(m.b.subject().root(), k, types::Scalar(t)); return m.done(); },
            [=](cg::Unit& u, cg::Lang, long& n, const StructuredSDFG& s) -> std::string {
                n++; alignas(16) unsigned char rv[16] = {0}; std::vector<unsigned char> w(16, 0); tk::V v; if (t == PT::Bool) v.i = k == "true"; else v = tk::parse(k, t); tk::put(w, 0, v, t);
                u.f(nullptr, rv); return memcmp(rv, w.data(), vi::width(t) / 8) ? "it returns another value" : ""; }, ""});
    }
    // arrays of several dimensions, sizes known and not
    for (int sizes = 0; sizes < 3; sizes++) for (int order = 0; order < 2; order++) r.push_back({std::string("local array ") + (sizes == 0 ? "[3][4]" : sizes == 1 ? "[N][4]" : "[N][M]") + (order ? " transposed" : ""), [=](size_t id) {
        Maker m(id); auto& b = m.b; b.add_container("N", i64, true); b.add_container("M", i64, true); b.add_container("A", p64, true); b.add_container("O", p64, true); b.add_container("i", i64); b.add_container("j", i64);
        symbolic::Expression d0 = sizes == 0 ? (symbolic::Expression)num(3) : (symbolic::Expression)N, d1 = sizes < 2 ? (symbolic::Expression)num(4) : (symbolic::Expression)M;
        types::Array a1(i64, d1), a2((const types::IType&)a1, d0); b.add_container("T", a2);
        auto at2 = symbolic::add(symbolic::mul(i, d1), j);
        put(m, loop(m, loop(m, b.subject().root(), i, d0), j, d1), "T", {i, j}, a2, "A", {at2}, p64);
        put(m, loop(m, loop(m, b.subject().root(), i, d0), j, d1), "O", {at2}, p64, "T", order ? Path{symbolic::sub(symbolic::sub(d0, i), symbolic::one()), symbolic::sub(symbolic::sub(d1, j), symbolic::one())} : Path{i, j}, a2);
        return m.done();
    }, [](cg::Unit& u, cg::Lang, long& n, const StructuredSDFG& s) -> std::string { for (int64_t N : {1, 2, 3}) for (int64_t M : {1, 2, 4}) { auto m = both(u, s, {{"A", fill(160, 1)}, {"O", fill(160, 9)}}, {{"N", N}, {"M", M}}, PT::Void, n); if (!m.empty()) return m; } return ""; }, ""});
    // pointers to arrays
    for (int sizes = 0; sizes < 2; sizes++) r.push_back({std::string("pointer to ") + (sizes ? "[M]" : "[4]"), [=](size_t id) {
        Maker m(id); auto& b = m.b; b.add_container("N", i64, true); b.add_container("M", i64, true); symbolic::Expression d1 = sizes ? (symbolic::Expression)M : (symbolic::Expression)num(4);
        types::Array a1(i64, d1); types::Pointer pa{(const types::IType&)a1}; b.add_container("A", pa, true); b.add_container("O", types::Pointer(), true); b.add_container("i", i64); b.add_container("j", i64); b.add_container("R", p64);
        put(m, loop(m, loop(m, b.subject().root(), i, N), j, d1), "O", {symbolic::sub(symbolic::sub(N, i), symbolic::one()), j}, pa, "A", {i, j}, pa, df::TaskletCode::int_add);
        m.ref("R", "A", {num(0), symbolic::sub(d1, symbolic::one())}, pa); put(m, b.subject().root(), "O", {num(0), num(0)}, pa, "R", {num(0)}, p64);
        return m.done();
    }, [](cg::Unit& u, cg::Lang, long& n, const StructuredSDFG& s) -> std::string { for (int64_t N : {1, 2, 3}) for (int64_t M : {1, 2, 4}) { auto m = both(u, s, {{"A", fill(160, 1)}, {"O", fill(160, 9)}}, {{"N", N}, {"M", M}}, PT::Void, n); if (!m.empty()) return m; } return ""; }, ""});
    // globals: their own initial values, and those of another unit
    for (int kind = 0; kind < 6; kind++) for (auto pre : {"", "pre_"}) {
        static const char* gn[] = {"static number", "static array", "number of another unit", "array of another unit", "function result through a pointer to a global", "static without a value"};
        if (*pre && (kind == 0 || kind == 1 || kind == 5)) {}
        r.push_back({std::string("global: ") + gn[kind] + (*pre ? ", prefix" : ""), [=](size_t id) {
            Maker m(id); auto& b = m.b; b.add_container("O", p64, true); std::string g = (kind == 2 || kind == 4 ? std::string("ext_n") : kind == 3 ? std::string("ext_a") : "G" + std::to_string(id));
            types::Array arr(i64, num(3)); auto& root = b.subject().root();
            if (kind == 0 || kind == 5) b.add_external(g, types::Pointer(types::StorageType::CPU_Stack(), 0, kind ? "" : "17", (const types::IType&)i64), LinkageType_Internal);
            if (kind == 1) b.add_external(g, types::Pointer(types::StorageType::CPU_Stack(), 0, "{4, 5, 6}", (const types::IType&)arr), LinkageType_Internal);
            if (kind == 2 || kind == 4) b.add_external(g, p64, LinkageType_External);
            types::Pointer pa{(const types::IType&)arr}; if (kind == 3) b.add_external(g, pa, LinkageType_External);
            bool ar = kind == 1 || kind == 3;
            if (kind == 4) { b.add_container("R", p64); m.ref("R", g, {num(0)}, p64); put(m, root, "O", {num(0)}, p64, "R", {num(0)}, p64); put(m, root, "R", {num(0)}, p64, "R", {num(0)}, p64, df::TaskletCode::int_add); put(m, root, "O", {num(1)}, p64, g, {num(0)}, p64); return m.done(); }
            for (int k = 0; k < (ar ? 3 : 1); k++) put(m, root, "O", {num(k)}, p64, g, ar ? Path{num(0), num(k)} : Path{num(0)}, ar ? (const types::IType&)pa : p64);
            put(m, root, g, ar ? Path{num(0), num(1)} : Path{num(0)}, ar ? (const types::IType&)pa : p64, "O", {num(5)}, p64);
            put(m, root, "O", {num(4)}, p64, g, ar ? Path{num(0), num(1)} : Path{num(0)}, ar ? (const types::IType&)pa : p64);
            return m.done();
        }, [=](cg::Unit& u, cg::Lang, long& n, const StructuredSDFG& s) -> std::string {
            int64_t o[6] = {-1, -1, -1, -1, -1, 77}; std::vector<void*> a{o}; n++;
            if (auto x = (int64_t*)dlsym(u.lib, (std::string(pre) + "ext_n").c_str())) *x = 31; if (auto x = (int64_t*)dlsym(u.lib, (std::string(pre) + "ext_a").c_str())) { x[0] = 7; x[1] = 8; x[2] = 9; }
            u.f(a.data(), nullptr);
            int64_t w[6] = {-1, -1, -1, -1, -1, 77};
            switch (kind) { case 0: w[0] = 17; w[4] = 77; break; case 5: w[0] = 0; w[4] = 77; break; case 1: w[0] = 4; w[1] = 5; w[2] = 6; w[4] = 77; break; case 2: w[0] = 31; w[4] = 77; break; case 3: w[0] = 7; w[1] = 8; w[2] = 9; w[4] = 77; break; case 4: w[0] = 31; w[1] = 32; break; }
            for (int k = 0; k < 6; k++) if (o[k] != w[k]) return "O[" + std::to_string(k) + "] is " + std::to_string(o[k]) + " instead of " + std::to_string(w[k]);
            return "";
        }, pre});
    }
    return r;
}
inline const char* support = R"(
#include <stdint.h>
#include <stdlib.h>
#ifdef __cplusplus
int64_t ext_n, ext_a[3], pre_ext_n, pre_ext_a[3];
extern "C" {
#else
long long ext_n, ext_a[3], pre_ext_n, pre_ext_a[3];
#endif
int pre_stat[3];
static void* pre_live[16];
void* pre_malloc(size_t n) { void* p = malloc(n); pre_stat[0]++; for (int i = 0; i < 16; i++) if (!pre_live[i]) { pre_live[i] = p; break; } return p; }
void pre_free(void* p) { for (int i = 0; i < 16; i++) if (p && pre_live[i] == p) { pre_live[i] = 0; pre_stat[1]++; free(p); return; } pre_stat[2]++; }
#ifdef __cplusplus
}
#endif
)";
}  // namespace ty
