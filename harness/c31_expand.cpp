// C31: a program around one library operation, expanded, run and compared with the operation's definition.
#include "corekit.h"
#include <sdfg/passes/dataflow/tensor_to_pointer_conversion.h>
#include <sdfg/passes/pipeline.h>
#include <sdfg/passes/schedules/expansion_pass.h>
#include <sdfg/types/tensor.h>
#include "libzoo.h"
using namespace sdfg;
using E = symbolic::Expression; using vi::i128; using vi::Value; using PT = types::PrimitiveType; typedef std::vector<Value> Vals; typedef std::vector<int> Dims; using MX = symbolic::MultiExpression;
namespace t = math::tensor; namespace bl = math::blas; namespace cm = math::cmath; namespace scf = structured_control_flow;
static bool fp(PT p) { return vi::fp(p); }
static Value num(PT p, double d) { Value v; v.t = p; if (fp(p)) v.d = p == PT::Float ? (double)(float)d : d; else v.i = (i128)d; return v; }
static double as_d(const Value& v) { return fp(v.t) ? v.d : (double)v.i; }
// libm
static double cmath(cm::CMathFunction f, const std::vector<double>& a) {
    using F = cm::CMathFunction; double x = a[0], y = a.size() > 1 ? a[1] : 0, z = a.size() > 2 ? a[2] : 0;
    switch (f) {
        case F::sin: return std::sin(x); case F::cos: return std::cos(x); case F::tan: return std::tan(x); case F::asin: return std::asin(x); case F::acos: return std::acos(x); case F::atan: return std::atan(x); case F::atan2: return std::atan2(x, y);
        case F::sinh: return std::sinh(x); case F::cosh: return std::cosh(x); case F::tanh: return std::tanh(x); case F::asinh: return std::asinh(x); case F::acosh: return std::acosh(x); case F::atanh: return std::atanh(x);
        case F::exp: return std::exp(x); case F::exp2: return std::exp2(x); case F::exp10: return std::pow(10.0, x); case F::expm1: return std::expm1(x); case F::log: return std::log(x); case F::log10: return std::log10(x); case F::log2: return std::log2(x); case F::log1p: return std::log1p(x);
        case F::pow: return std::pow(x, y); case F::sqrt: return std::sqrt(x); case F::cbrt: return std::cbrt(x); case F::hypot: return std::hypot(x, y); case F::erf: return std::erf(x); case F::erfc: return std::erfc(x); case F::tgamma: return std::tgamma(x); case F::lgamma: return std::lgamma(x);
        case F::fabs: return std::fabs(x); case F::ceil: return std::ceil(x); case F::floor: return std::floor(x); case F::trunc: return std::trunc(x); case F::round: return std::round(x); case F::lround: return std::lround(x); case F::llround: return std::llround(x);
        case F::roundeven: case F::nearbyint: case F::rint: case F::lrint: case F::llrint: return std::nearbyint(x); case F::fmod: return std::fmod(x, y); case F::remainder: return std::remainder(x, y); case F::logb: return std::logb(x); case F::ilogb: return std::ilogb(x);
        case F::nextafter: return std::nextafter(x, y); case F::copysign: return std::copysign(x, y); case F::fmax: return std::fmax(x, y); case F::fmin: return std::fmin(x, y); case F::fdim: return std::fdim(x, y); case F::fma: return x * y + z;
        default: throw vi::Unsupported("function");
    }
}
static bool library(vi::Interp& in, const data_flow::LibraryNode& l) {
    auto& g = l.get_parent(); std::map<std::string, const data_flow::Memlet*> ins; for (auto& e : g.in_edges(l)) ins[e.dst_conn()] = &e;
    if (auto c = dynamic_cast<const cm::CMathNode*>(&l)) {
        std::vector<double> a; bool poison = false; for (auto& n : c->inputs()) { if (!ins.count(n)) throw vi::Undefined("function input without memlet"); auto v = in.read(*ins[n]); poison |= v.poison; a.push_back(as_d(v)); if (c->primitive_type() == PT::Float) a.back() = (float)a.back(); }
        Value r = num(c->primitive_type(), cmath(c->function(), a)); r.poison = poison; for (auto& e : g.out_edges(l)) in.write(e, r); return true;
    }
    if (auto m = dynamic_cast<const bl::GEMMNode*>(&l)) {
        if (m->implementation_type() != bl::ImplementationType_BLAS || m->layout() != bl::RowMajor) return false;
        PT p = m->precision() == bl::s ? PT::Float : PT::Double; size_t w = vi::width(p) / 8;
        auto ptr = [&](const char* c) { return in.pointer_value(dynamic_cast<const data_flow::AccessNode&>(ins.at(c)->src())); };
        uint64_t A = ptr("__A"), B = ptr("__B"), C = ptr("__C"); double al = as_d(in.read(*ins.at("__alpha"))), be = as_d(in.read(*ins.at("__beta"))); i128 M = in.sym(m->m()), N = in.sym(m->n()), K = in.sym(m->k()), la = in.sym(m->lda()), lb = in.sym(m->ldb()), lc = in.sym(m->ldc());
        bool ta = m->trans_a() != bl::No, tb = m->trans_b() != bl::No;
        if (M > 0 && N > 0 && (la < std::max<i128>(1, ta ? M : K) || lb < std::max<i128>(1, tb ? K : N) || lc < std::max<i128>(1, N))) throw vi::Undefined("illegal leading dimension");
        for (int64_t i = 0; i < M; i++) for (int64_t j = 0; j < N; j++) {
            double s = 0; bool poison = false; for (int64_t k = 0; k < K; k++) { auto a = in.load_raw(A + (int64_t)(ta ? la * k + i : la * i + k) * w, p), b = in.load_raw(B + (int64_t)(tb ? lb * j + k : lb * k + j) * w, p); poison |= a.poison | b.poison; s += a.d * b.d; }
            double c = 0; if (be != 0) { auto v = in.load_raw(C + (int64_t)(lc * i + j) * w, p); poison |= v.poison; c = be * v.d; }
            Value v = num(p, al * s + c); v.poison = poison; in.store_raw(C + (int64_t)(lc * i + j) * w, v);
        }
        return true;
    }
    return false;
}

struct Dim { int n; std::string s; };  // an extent: its value and, where extents are symbols, its name
typedef std::vector<Dim> Shape;
static size_t count(const Shape& s) { size_t r = 1; for (auto& d : s) r *= d.n; return r; }
static std::vector<std::vector<int>> indices(const Shape& s) { std::vector<std::vector<int>> r{{}}; for (auto& d : s) { std::vector<std::vector<int>> q; for (auto& p : r) for (int i = 0; i < d.n; i++) { q.push_back(p); q.back().push_back(i); } r = q; } return r; }
static size_t flat(const Shape& s, const std::vector<int>& ix) { size_t r = 0; for (size_t i = 0; i < s.size(); i++) r = r * s[i].n + ix[i]; return r; }
enum Kind { Tensor, ScalarArg, Const, FlatPtr };
struct Operand { std::string conn; Shape shape; PT pt = PT::Double; Kind kind = Tensor; std::string text = ""; };
typedef std::function<E(const Dim&)> Ext;
struct Op {
    std::string name; std::vector<Operand> in; Operand out; std::function<data_flow::LibraryNode&(builder::StructuredSDFGBuilder&, scf::Block&, Ext)> add; std::function<Vals(const std::vector<Vals>&)> def;
    bool must = true; int data = 0;  // data: which values are legal: 0 any, 1 no zero in the last operand, 2 in (0,1], 3 >= 1, 4 positive base
    std::vector<int> layouts{0, 1, 2, 3, 4, 5}; bool elementwise = false; double tol = 1e-9; int inout = -1;
};
static const char* layout_name[] = {"dense", "offset", "padded", "reversed", "flipped", "stride 2", "zero stride"};
template <class X> static X pick(const std::vector<X>& v, size_t k) { return v[k % v.size()]; }

static MX exts(const Shape& s, const Ext& X) { MX r; for (auto& d : s) r.push_back(X(d)); return r; }
static std::string text(const Shape& s) { std::string r = "["; for (auto& d : s) r += (r.size() > 1 ? "," : "") + std::to_string(d.n); return r + "]"; }

struct Placed { std::string name; Shape shape; PT pt; Kind kind; std::vector<int64_t> strides; int64_t offset; bool out; int use; };
struct Case { const Op* op; std::vector<int> lay; bool sym; int ctx; };
static const char* ctx_name[] = {"", " in a loop", " beside another statement in its block", " twice in one block", " in place", " with one operand for all inputs", " in a branch"};
static std::string describe(const Case& c) {
    std::string s = c.op->name; for (auto& o : c.op->in) s += " " + text(o.shape) + (o.kind == ScalarArg ? "scalar" : o.kind == Const ? "=" + o.text : ""); s += " -> " + text(c.op->out.shape) + " " + types::primitive_type_to_string(c.op->out.pt) + ";"; for (int l : c.lay) s += std::string(" ") + layout_name[l];
    return s + (c.sym ? "; symbolic" : "; constant") + ctx_name[c.ctx];
}
constexpr int LO = 16;
struct Built { std::unique_ptr<StructuredSDFG> s; std::vector<Placed> ops; std::map<std::string, int64_t> args; };
static Built make(const Case& c) {
    Built r; auto& op = *c.op; types::Scalar i64(PT::Int64); builder::StructuredSDFGBuilder b("prog", FunctionType_CPU, i64);
    b.add_container("k", i64); auto k = symbolic::symbol("k");
    Ext X = [&](const Dim& d) -> E { if (!c.sym || d.s.empty()) return symbolic::integer(d.n); if (!r.args.count(d.s)) { b.add_container(d.s, i64, true); r.args[d.s] = d.n; } return symbolic::symbol(d.s); };
    bool loop = c.ctx == 1; scf::Sequence* where = &b.subject().root(); E iv = symbolic::zero();
    if (loop) { b.add_container("it", i64); iv = symbolic::symbol("it"); auto& f = b.add_for(*where, symbolic::symbol("it"), symbolic::Lt(symbolic::symbol("it"), symbolic::integer(2)), symbolic::zero(), symbolic::add(iv, symbolic::one())); where = &f.root(); }
    if (c.ctx == 6) { auto& ie = b.add_if_else(*where); where = &b.add_case(ie, symbolic::Le(symbolic::zero(), symbolic::zero())); b.add_container("other", i64, true); r.args["other"] = 1; }
    control_flow::Assignments as; as[k] = symbolic::integer(5);
    auto& blk = b.add_block(*where, as);
    int n = 0; std::vector<data_flow::AccessNode*> nodes; const types::IType* first = nullptr; std::vector<std::unique_ptr<types::IType>> keep;
    auto layout = [&](const Operand& o, int l, std::vector<int64_t>& st, int64_t& off) -> std::unique_ptr<types::IType> {
        types::Scalar el(o.pt); size_t d = o.shape.size(); MX sh = exts(o.shape, X), s(d, symbolic::one()); E of = symbolic::zero(); st.assign(d, 1); off = 0;
        E acc = symbolic::one(); int64_t a = 1; if (l == 5) { acc = symbolic::integer(2); a = 2; }
        auto dim = [&](size_t i) { s[i] = acc; st[i] = a; int pad = l == 2 ? 1 : 0; acc = symbolic::mul(acc, symbolic::add(sh[i], symbolic::integer(pad))); a *= o.shape[i].n + pad; };
        if (l == 3) for (size_t i = 0; i < d; i++) dim(i); else for (size_t i = d; i-- > 0;) dim(i);
        if (l == 1) { of = symbolic::integer(2); off = 2; }
        if (l == 4 && d) { of = symbolic::mul(symbolic::sub(sh[0], symbolic::one()), s[0]); off = (o.shape[0].n - 1) * st[0]; s[0] = symbolic::sub(symbolic::zero(), s[0]); st[0] = -st[0]; }
        if (l == 6 && d) { s[0] = symbolic::zero(); st[0] = 0; }
        if (loop) of = symbolic::add(of, symbolic::mul(iv, symbolic::integer(40)));
        return std::make_unique<types::Tensor>(el, sh, s, of);
    };
    std::vector<std::unique_ptr<types::IType>> ty; std::vector<std::string> names;
    for (size_t q = 0; q <= op.in.size(); q++) {
        bool out = q == op.in.size(); auto& o = out ? op.out : op.in[q]; Placed p{out ? "OUT" : "IN" + std::to_string(q), o.shape, o.pt, o.kind, {}, 0, out, (int)q};
        if (out && c.ctx == 4) p.name = "IN0"; if (!out && q && c.ctx == 5) { p.name = "IN0"; p.use = 0; } if (out && op.inout >= 0) p.name = "IN" + std::to_string(op.inout);
        types::Scalar el(o.pt); types::Pointer ptr{(const types::IType&)el};
        if (o.kind == FlatPtr) { ty.push_back(ptr.clone()); p.strides.assign(o.shape.size(), 1); int64_t a = 1; for (size_t i = o.shape.size(); i-- > 0;) { p.strides[i] = a; a *= o.shape[i].n; } }
        else if (o.kind == ScalarArg || o.kind == Const) { if (o.text == "scalar type") ty.push_back(el.clone()); else ty.push_back(std::make_unique<types::Tensor>(el, MX{})); }
        else ty.push_back(layout(o, c.lay[q], p.strides, p.offset));
        if (!b.subject().exists(p.name) && o.kind != Const) b.add_container(p.name, o.kind == ScalarArg ? (const types::IType&)el : ptr, !(o.kind == ScalarArg && out));
        r.ops.push_back(p);
    }
    auto wire = [&](scf::Block& k2, const std::string& outname) {
        auto& node = op.add(b, k2, X); data_flow::AccessNode* shared = nullptr;
        for (size_t q = 0; q < op.in.size(); q++) {
            auto& o = op.in[q]; data_flow::AccessNode* a; if (o.kind == Const) a = &b.add_constant(k2, o.text == "scalar type" ? "3" : o.text, types::Scalar(o.pt)); else if (c.ctx == 5 && shared) a = shared; else a = &b.add_access(k2, r.ops[q].name);
            if (!shared) shared = a; b.add_computational_memlet(k2, *a, node, o.conn, {}, *ty[q], DebugInfo());
        }
        b.add_computational_memlet(k2, node, op.out.conn, b.add_access(k2, outname), {}, *ty.back(), DebugInfo());
    };
    wire(blk, r.ops.back().name);
    if (c.ctx == 3) { types::Scalar el(op.out.pt); b.add_container("OUT2", types::Pointer((const types::IType&)el), true); wire(blk, "OUT2"); }
    if (c.ctx == 2) { types::Scalar d(PT::Double); b.add_container("side", d, false); auto& s = b.add_tasklet(blk, data_flow::TaskletCode::assign, "_out", {"_in"}); b.add_computational_memlet(blk, b.add_constant(blk, "9.0", d), s, "_in", {}, d); b.add_computational_memlet(blk, s, "_out", b.add_access(blk, "side"), {}, d); }
    if (op.out.kind == ScalarArg) {  // a scalar result: stored
        types::Scalar el(op.out.pt); b.add_container("RES", types::Pointer((const types::IType&)el), true); auto& k2 = b.add_block(*where); auto& s = b.add_tasklet(k2, data_flow::TaskletCode::assign, "_out", {"_in"});
        b.add_computational_memlet(k2, b.add_access(k2, r.ops.back().name), s, "_in", {}, el); b.add_computational_memlet(k2, s, "_out", b.add_access(k2, "RES"), {loop ? iv : symbolic::zero()}, types::Pointer((const types::IType&)el));
    }
    if (c.ctx == 2) { types::Scalar d(PT::Double); b.add_container("SIDE", types::Pointer((const types::IType&)d), true); auto& k2 = b.add_block(*where); auto& s = b.add_tasklet(k2, data_flow::TaskletCode::assign, "_out", {"_in"}); b.add_computational_memlet(k2, b.add_access(k2, "side"), s, "_in", {}, d); b.add_computational_memlet(k2, s, "_out", b.add_access(k2, "SIDE"), {symbolic::zero()}, types::Pointer((const types::IType&)d)); }
    b.add_return(b.subject().root(), "k"); r.s = b.move(); return r;
}
static Value input_value(PT p, const Op& op, size_t operand, size_t at, int pattern) {
    static const std::vector<double> any[] = {{1, -2, 3, 0, -1, 2, 5, -3, 4, -4}, {-3, -1, -2, -5, -4, -6}, {0.5, 2.25, -1.5, 0, 3.75, -0.25, 1, -2}};
    static const std::vector<double> nz[] = {{1, -2, 3, -1, 2, 4, -4}, {-3, -1, -2, -5, -4}, {0.5, 2, -1.5, 0.25, -4}}, unit[] = {{1, 0.5, 0.25, 0.75}, {0.125, 0.5, 0.9}, {0.25, 1}}, big[] = {{1, 2, 3, 4, 1.5}, {2, 5, 1}, {1.25, 3}};
    const std::vector<double>* s = any; if (op.data == 1 && operand + 1 == op.in.size()) s = nz; else if (op.data == 2) s = unit; else if (op.data == 3) s = big; else if (op.data == 4 && operand == 0) s = big;
    double d = s[pattern][(at + operand * 3) % s[pattern].size()]; if (!fp(p)) d = std::trunc(d); if (types::is_unsigned(p) || p == PT::Bool) d = std::fabs(d); if (p == PT::Bool) d = d != 0; if (!fp(p) && op.data == 1 && operand + 1 == op.in.size() && d == 0) d = 2;
    return num(p, d);
}
// element number k of an operand's buffer
static Value content(const Case& c, const Placed& p, int64_t k, int pattern) { if (p.out) return num(p.pt, p.pt == PT::Bool ? 1 : 77 - (int)(k % 5)); return input_value(p.pt, *c.op, p.use, (size_t)(k + LO), pattern); }
static bool same(const Value& a, const Value& b, double tol) {
    if (!fp(a.t)) return a.i == b.i; if (std::isnan(a.d) || std::isnan(b.d)) return std::isnan(a.d) && std::isnan(b.d); if (std::isinf(a.d) || std::isinf(b.d)) return a.d == b.d;
    if (a.t == PT::Float) tol = std::max(tol, 2e-5); return std::fabs(a.d - b.d) <= tol * std::max({1.0, std::fabs(a.d), std::fabs(b.d)});
}
static void check(vc::Run& r, const Case& c) {
    auto built = make(c); auto& op = *c.op; std::string fn = op.name.substr(0, op.name.find(' '));
    try { built.s->validate(); } catch (std::exception& x) { r.nontrivial(vc::hash_str("invalid original")); r.outcome(1); if (op.must) r.fail("original." + fn, std::string("the program is not valid: ") + x.what()); return; }
    builder::StructuredSDFGBuilder b(built.s); analysis::AnalysisManager am(b.subject());
    for (int i = 0; i < 40; i++) { passes::Expansion e(b, am); bool a = e.visit(); am.invalidate_all(); if (!a) break; if (i == 39) { r.fail("endless." + fn, "the expansion does not come to an end"); return; } }
    bool left = false; std::vector<scf::ControlFlowNode*> all_nodes; vk::nodes(b.subject().root(), all_nodes); for (auto* nd : all_nodes) if (auto* blk = dynamic_cast<scf::Block*>(nd)) for (auto* l : blk->dataflow().library_nodes()) if (l->implementation_type() == data_flow::ImplementationType_NONE && dynamic_cast<const math::MathNode*>(l) && !dynamic_cast<const cm::CMathNode*>(l)) left = true;
    if (left) { r.count(8, 1); r.outcome(2); if (op.must && c.ctx != 2 && c.ctx != 3) r.fail("refused." + fn, "the operation is not expanded"); return; }
    { passes::TensorToPointerConversion p(b, am); p.visit(); am.invalidate_all(); }
    try { b.subject().validate(); } catch (std::exception& x) { r.fail("invalid." + fn, std::string("the expanded program is not valid: ") + x.what()); return; }
    r.nontrivial(vc::hash_str(describe(c).substr(0, describe(c).find(';')))); r.outcome(3);
    for (int pattern = 0; pattern < (r.thorough ? 3 : 3); pattern++) {
        r.count(vc::Run::EVAL, 1); vi::Interp in(b.subject()); in.max_steps = 200000; in.library = library;
        for (auto& [n, v] : built.args) in.bind(n, v);
        std::map<std::string, uint64_t> obj; std::map<std::string, std::vector<Value>> want; std::map<std::string, const Placed*> of; constexpr int SIZE = 200; std::vector<Vals> logical(op.in.size());
        auto buffer = [&](const std::string& name, PT pt, const std::function<Value(int64_t)>& v) { size_t w = vi::width(pt) / 8; uint64_t a = in.m.alloc(SIZE * w, name); obj[name] = a; for (int q = 0; q < SIZE; q++) { Value x = v(q - LO); in.store_raw(a + q * w, x); want[name].push_back(x); } in.bind_ptr(name, a + LO * w); };
        for (auto& p : built.ops) {
            if (p.kind == Const || (p.kind == ScalarArg && p.out)) continue; if (p.kind == ScalarArg) { Value v = input_value(p.pt, op, p.use, 0, pattern); in.declare(p.name); in.store_raw(in.var[p.name], v); continue; }
            if (!obj.count(p.name)) { of[p.name] = &p; buffer(p.name, p.pt, [&](int64_t q) { return content(c, p, q, pattern); }); }
        }
        if (c.ctx == 3) buffer("OUT2", op.out.pt, [&](int64_t q) { return content(c, built.ops.back(), q, pattern); });
        if (c.ctx == 2) buffer("SIDE", PT::Double, [&](int64_t) { return num(PT::Double, 1); });
        if (op.out.kind == ScalarArg) buffer("RES", op.out.pt, [&](int64_t) { return num(op.out.pt, 1); });
        for (int it = 0; it < (c.ctx == 1 ? 2 : 1); it++) {
            auto place = [&](const Placed& p, const std::vector<int>& ix) { int64_t a = LO + p.offset + it * (p.kind == FlatPtr ? 0 : 40); for (size_t d = 0; d < ix.size(); d++) a += p.strides[d] * ix[d]; return (size_t)a; };
            std::vector<Vals> v;
            for (size_t q = 0; q < op.in.size(); q++) {
                auto& p = built.ops[q]; v.emplace_back();
                if (p.kind == Const) { v[q].push_back(num(p.pt, op.in[q].text == "scalar type" ? 3 : std::stod(op.in[q].text))); continue; }
                if (p.kind == ScalarArg) { v[q].push_back(input_value(p.pt, op, p.use, 0, pattern)); continue; }
                for (auto& ix : indices(p.shape)) v[q].push_back(want[p.name].at(place(p, ix)));
            }
            Vals res = op.def(v); auto& p = built.ops.back(); size_t n = 0;
            if (p.kind == ScalarArg) want["RES"].at(LO + it) = res.at(0);
            else for (auto& ix : indices(p.shape)) { want[p.name].at(place(p, ix)) = res.at(n); if (c.ctx == 3) want["OUT2"].at(place(p, ix)) = res.at(n); n++; }
            if (c.ctx == 2) want["SIDE"].at(LO) = num(PT::Double, 9);
        }
        try { in.execute(); }
        catch (vi::Undefined& x) { r.fail("undefined." + fn, std::string("the expanded program is undefined: ") + x.what()); return; }
        catch (vi::Unsupported& x) { r.fail("unsupported." + fn, std::string("the interpreter does not know: ") + x.what()); return; }
        catch (vi::Timeout& x) { r.fail("slow." + fn, x.what()); return; }
        if (!in.has_ret || in.ret.i != 5) { r.fail("transition." + fn, "the assignments after the block are not executed"); return; }
        for (auto& [name, w] : want) for (size_t q = 0; q < w.size(); q++) {
            size_t wd = vi::width(w[q].t) / 8; Value got = in.load_raw(obj[name] + q * wd, w[q].t); r.count(vc::Run::TRACES, 1);
            if (got.poison || !same(got, w[q], op.tol)) { r.fail("value." + fn + (name != "OUT" && name != "RES" ? "." + name : ""), "element " + std::to_string((int)q - LO) + " of " + name + " is " + (got.poison ? "undefined" : std::to_string(as_d(got))) + ", by definition " + std::to_string(as_d(w[q])) + " (data " + std::to_string(pattern) + ")"); return; }
        }
    }
}

// ---- the operations ----
static std::vector<Shape> shapes(bool thorough) {
    std::vector<Shape> r{{}, {{1, "S0"}}, {{3, "S0"}}, {{2, "S0"}, {3, "S1"}}, {{3, "S0"}, {1, "S1"}}, {{2, "S0"}, {3, "S1"}, {2, "S2"}}};
    if (thorough) for (auto& s : std::vector<Shape>{{{0, "S0"}}, {{1, "S0"}, {3, "S1"}}, {{3, "S0"}, {2, "S0b"}}, {{2, "S0"}, {1, "S1"}, {3, "S2"}}, {{1, "S0"}, {2, "S1"}, {2, "S2"}}, {{2, "S0"}, {0, "S1"}}, {{2, "S0"}, {2, "S1"}, {1, "S2"}, {2, "S3"}}}) r.push_back(s);
    else r.push_back({{2, "S0"}, {0, "S1"}});
    return r;
}
template <class N, class... A> static auto adder(std::vector<Shape> ss, A... a) { return [=](builder::StructuredSDFGBuilder& b, scf::Block& k, Ext X) -> data_flow::LibraryNode& { if constexpr (true) { if (ss.size() == 1) { auto s = exts(ss[0], X); if constexpr (std::is_constructible_v<N, size_t, const DebugInfo&, const graph::Vertex, data_flow::DataFlowGraph&, const MX&, A...>) return b.add_library_node<N>(k, DebugInfo(), s, a...); } } throw std::runtime_error("adder"); }; }
static Vals map1(const Vals& x, std::function<double(double)> f, PT out) { Vals r; for (auto& v : x) r.push_back(num(out, f(as_d(v)))); return r; }
static const Value& at(const Vals& v, size_t i) { return v.size() == 1 ? v[0] : v.at(i); }
static std::vector<Op> ops(bool thorough) {
    std::vector<Op> r; using F = std::function<double(double)>; using G = std::function<double(double, double)>; auto D = PT::Double;
    std::vector<PT> ints{PT::Int64, PT::Int32, PT::Int8, PT::Int16, PT::UInt8, PT::UInt16, PT::UInt32, PT::UInt64};
    for (auto& sh : shapes(thorough)) {
        size_t n = count(sh); auto S = sh;
        auto un = [&]<class N>(std::type_identity<N>, const char* nm, F f, int data, std::vector<PT> ps) { for (PT p : ps) { Op o{nm, {{"X", S, p}}, {"Y", S, p}, adder<N>({S}), [f, p](const std::vector<Vals>& v) { return map1(v[0], f, p); }}; o.data = data; o.elementwise = true; if (S.empty()) o.out.kind = o.in[0].kind = ScalarArg; r.push_back(o); } };
        std::vector<PT> fps{PT::Double, PT::Float}; auto all = fps; all.insert(all.end(), ints.begin(), ints.end()); std::vector<PT> sig{PT::Double, PT::Float, PT::Int8, PT::Int32, PT::Int64};
        un(std::type_identity<t::AbsNode>{}, "abs", [](double x) { return std::fabs(x); }, 0, sig); un(std::type_identity<t::ErfNode>{}, "erf", [](double x) { return std::erf(x); }, 0, fps); un(std::type_identity<t::ExpNode>{}, "exp", [](double x) { return std::exp(x); }, 0, fps); un(std::type_identity<t::ReLUNode>{}, "relu", [](double x) { return std::max(x, 0.0); }, 0, fps); un(std::type_identity<t::SigmoidNode>{}, "sigmoid", [](double x) { return 1 / (1 + std::exp(-x)); }, 0, fps); un(std::type_identity<t::SqrtNode>{}, "sqrt", [](double x) { return std::sqrt(x); }, 3, fps); un(std::type_identity<t::TanhNode>{}, "tanh", [](double x) { return std::tanh(x); }, 0, fps);
        for (PT p : fps) for (int v = 0; v < 3; v++) {  // with the parameters as inputs
            const char* nm = v == 0 ? "elu" : v == 1 ? "leaky_relu" : "hard_sigmoid"; Op o{nm, {{"X", S, p}, {"alpha", {}, p, Const, "3.0"}}, {"Y", S, p}, {}, [v, p](const std::vector<Vals>& x) {
                double al = as_d(x[1][0]), be = v == 2 ? as_d(x[2][0]) : 0; return map1(x[0], [=](double d) { return v == 0 ? (d > 0 ? d : al * (std::exp(d) - 1)) : v == 1 ? (d > 0 ? d : al * d) : std::max(0.0, std::min(1.0, al * d + be)); }, p); }};
            if (v == 0) o.add = adder<t::EluNode>({S}); else if (v == 1) o.add = adder<t::LeakyReLUNode>({S}); else o.add = adder<t::HardSigmoidNode>({S});
            if (v == 2) o.in.push_back({"beta", {}, p, Const, "0.5"}); if (S.empty()) o.out.kind = o.in[0].kind = ScalarArg; o.layouts = {0, 1}; r.push_back(o);
        }
        auto bi = [&]<class N>(std::type_identity<N>, const char* nm, G f, int data, std::vector<PT> ps) { for (PT p : ps) for (int v = 0; v < 5; v++) {  // both tensors; a scalar or a constant on either side
            if (S.empty() && v) continue; Op o{nm, {{"A", S, p}, {"B", S, p}}, {"C", S, p}, adder<N>({S}), [f, p, n](const std::vector<Vals>& x) { Vals r; for (size_t i = 0; i < n; i++) r.push_back(num(p, f(as_d(at(x[0], i)), as_d(at(x[1], i))))); return r; }}; o.data = data; o.elementwise = v == 0;
            if (S.empty()) { o.out.kind = o.in[0].kind = o.in[1].kind = ScalarArg; } if (v == 1 || v == 2) { o.in[v - 1].kind = ScalarArg; o.in[v - 1].shape = {}; } if (v > 2) { auto& q = o.in[v - 3]; q.kind = Const; q.shape = {}; q.text = fp(p) ? "3.0" : "3"; } r.push_back(o); } };
        bi(std::type_identity<t::AddNode>{}, "add", [](double a, double b) { return a + b; }, 0, all); bi(std::type_identity<t::SubNode>{}, "sub", [](double a, double b) { return a - b; }, 0, sig); bi(std::type_identity<t::MulNode>{}, "mul", [](double a, double b) { return a * b; }, 0, all);
        for (PT p : all) bi(std::type_identity<t::DivNode>{}, "div", [p](double a, double b) { return fp(p) ? a / b : std::trunc(a / b); }, 1, {p});
        bi(std::type_identity<t::PowNode>{}, "pow", [](double a, double b) { return std::pow(a, b); }, 4, fps); bi(std::type_identity<t::MinimumNode>{}, "minimum", [](double a, double b) { return std::min(a, b); }, 0, all); bi(std::type_identity<t::MaximumNode>{}, "maximum", [](double a, double b) { return std::max(a, b); }, 0, all);
        for (PT p : all) for (int v = 0; v < 2; v++) { Op o{"fill", {{"X", {}, p, v ? Const : ScalarArg, "scalar type"}}, {"Y", S, p}, adder<t::FillNode>({S}), [n](const std::vector<Vals>& x) { return Vals(n, x[0][0]); }}; o.must = !S.empty(); if (S.empty()) o.out.kind = ScalarArg; r.push_back(o); }
        for (PT p : {PT::Double, PT::Float, PT::Int64, PT::Int8, PT::UInt16}) for (PT q : {PT::Double, PT::Float, PT::Int64, PT::Int32, PT::UInt8, PT::Bool}) if (fp(q) || !types::is_unsigned(q) || types::is_unsigned(p) || q == PT::Bool) { if (q == PT::Bool) continue; Op o{"cast", {{"X", S, p}}, {"Y", S, q}, adder<t::CastNode>({S}, q), [q](const std::vector<Vals>& x) { Vals r; for (auto& v : x[0]) r.push_back(vi::conv(v, q)); return r; }}; if (S.empty()) o.out.kind = o.in[0].kind = ScalarArg; r.push_back(o); }
        for (int f = 0; f <= (int)cm::CMathFunction::fma; f++) for (PT p : fps) {
            auto fn = (cm::CMathFunction)f; size_t ar; std::string nm; try { nm = cm::cmath_function_to_stem(fn); ar = cm::cmath_function_to_arity(fn); cmath(fn, std::vector<double>(ar, 0.5)); cm::get_cmath_intrinsic_name(fn, p); } catch (std::exception&) { continue; }
            if (p == PT::Float && (S.size() != 2 && f % 7)) continue; std::vector<std::string> ins; for (size_t i = 0; i < ar; i++) ins.push_back("X" + std::to_string(i));
            for (size_t v = 0; v < (S.empty() ? 1 : 1 + ar); v++) { Op o{"cmath " + nm, {}, {"Y", S, p}, {}, [fn, p, n](const std::vector<Vals>& x) { Vals r; for (size_t i = 0; i < n; i++) { std::vector<double> a; for (auto& q : x) a.push_back(as_d(at(q, i))); r.push_back(num(p, cmath(fn, a))); } return r; }};
            for (size_t q = 0; q < ar; q++) { o.in.push_back({ins[q], S, p}); if (v == q + 1) { o.in.back().kind = ScalarArg; o.in.back().shape = {}; } if (S.empty()) o.in.back().kind = ScalarArg; } if (S.empty()) o.out.kind = ScalarArg;
            o.data = f >= (int)cm::CMathFunction::asin && f <= (int)cm::CMathFunction::acos ? 2 : nm == "atanh" ? 2 : nm == "acosh" || nm.find("log") == 0 || nm == "sqrt" ? 3 : nm == "tgamma" || nm == "lgamma" || nm == "pow" ? 3 : nm == "fmod" || nm == "remainder" ? 1 : 0; if (nm == "ilogb" || nm == "logb") o.data = 3; o.elementwise = v == 0; o.layouts = {0, 3};
            o.add = [=](builder::StructuredSDFGBuilder& b, scf::Block& k, Ext X) -> data_flow::LibraryNode& { return b.add_library_node<t::CMathTensorNode>(k, DebugInfo(), fn, std::vector<std::string>{"Y"}, ins, exts(S, X)); }; r.push_back(o); }
        }
        for (int code = 0; code <= (int)data_flow::TaskletCode::int_abs; code++) {
            auto tc = (data_flow::TaskletCode)code; size_t ar = data_flow::arity(tc); bool f = data_flow::is_floating_point(tc); std::string nm = "tasklet " + std::to_string(code); if (!ar) continue;
            std::vector<PT> ps = tc == data_flow::TaskletCode::assign ? std::vector<PT>{D} : f ? fps : data_flow::is_unsigned(tc) ? std::vector<PT>{PT::UInt8, PT::UInt64} : std::vector<PT>{PT::Int8, PT::Int64}; std::vector<std::string> ins; for (size_t i = 0; i < ar; i++) ins.push_back("_in" + std::to_string(i + 1));
            bool shift = tc == data_flow::TaskletCode::int_shl || tc == data_flow::TaskletCode::int_ashr || tc == data_flow::TaskletCode::int_lshr; if (shift) continue;
            bool div = tc == data_flow::TaskletCode::int_sdiv || tc == data_flow::TaskletCode::int_udiv || tc == data_flow::TaskletCode::int_srem || tc == data_flow::TaskletCode::int_urem || tc == data_flow::TaskletCode::fp_div || tc == data_flow::TaskletCode::fp_rem;
            for (PT p : ps) for (size_t v = 0; v < (S.empty() ? 1 : 1 + ar); v++) { Op o{nm, {}, {"_out", S, p}, {}, [tc, p, n](const std::vector<Vals>& x) { builder::StructuredSDFGBuilder e("e", FunctionType_CPU); auto s = e.move(); vi::Interp in(*s); Vals r; for (size_t i = 0; i < n; i++) { Vals a; for (auto& q : x) a.push_back(at(q, i)); r.push_back(vi::conv(in.compute(tc, a), p)); } return r; }};
                for (size_t q = 0; q < ar; q++) { o.in.push_back({ins[q], S, p}); if (v == q + 1) { o.in.back().kind = ScalarArg; o.in.back().shape = {}; } if (S.empty()) o.in.back().kind = ScalarArg; } if (S.empty()) o.out.kind = ScalarArg; o.data = div ? 1 : 0; o.elementwise = v == 0; o.layouts = {0, 3}; o.must = false;
                o.add = [=](builder::StructuredSDFGBuilder& b, scf::Block& k, Ext X) -> data_flow::LibraryNode& { return b.add_library_node<t::TaskletTensorNode>(k, DebugInfo(), tc, std::vector<std::string>{"_out"}, ins, exts(S, X)); }; r.push_back(o); }
        }
        // reductions
        typedef std::vector<int64_t> X; std::vector<X> axes; for (int m = 1; m < (1 << S.size()); m++) { X a; for (size_t i = 0; i < S.size(); i++) if (m >> i & 1) a.push_back(i); axes.push_back(a); if (a.size() > 1) { std::reverse(a.begin(), a.end()); axes.push_back(a); } a.back() -= (int64_t)S.size(); axes.push_back(a); }
        for (auto& ax : axes) for (bool keep : {false, true}) for (std::string which : {"sum", "max", "min", "mean", "std", "softmax"}) {
            std::set<size_t> red; for (auto a : ax) red.insert(a < 0 ? a + S.size() : a); Shape out; bool soft = which == "softmax"; if (soft && keep) continue; for (size_t i = 0; i < S.size(); i++) { if (soft || !red.count(i)) out.push_back(S[i]); else if (keep) out.push_back({1, ""}); }
            size_t m = 1; for (auto a : red) m *= S[a].n; if (!m && which != "sum") continue; if (!n && soft) continue; std::string nm = which + " axes" + dp::list(ax) + (keep ? " keep" : "");
            for (PT p : which == "sum" || which == "max" || which == "min" ? all : fps) {
                Shape o2 = out; Op o{nm, {{"X", S, p}}, {"Y", out, p}, {}, [=](const std::vector<Vals>& x) {
                    std::map<std::vector<int>, std::vector<double>> g; size_t q = 0; auto key = [&](std::vector<int> ix) { std::vector<int> k; for (size_t i = 0; i < ix.size(); i++) { if (!red.count(i)) k.push_back(ix[i]); else if (keep) k.push_back(0); } return k; }; for (auto& ix : indices(S)) g[key(ix)].push_back(as_d(x[0][q++]));
                    auto one = [&](const std::vector<double>& v) { double s = 0, s2 = 0; for (double d : v) { s += d; s2 += d * d; } if (which == "sum") return s; if (which == "max") return *std::max_element(v.begin(), v.end()); if (which == "min") return *std::min_element(v.begin(), v.end()); if (which == "mean") return s / v.size(); double mu = s / v.size(), q = 0; for (double d : v) q += (d - mu) * (d - mu); return std::sqrt(q / v.size()); };
                    Vals r; if (soft) { q = 0; for (auto& ix : indices(S)) { auto& v = g[key(ix)]; double mx = *std::max_element(v.begin(), v.end()), s = 0; for (double d : v) s += std::exp(d - mx); r.push_back(num(p, std::exp(as_d(x[0][q++]) - mx) / s)); } }
                    else for (auto& ix : indices(o2)) { r.push_back(num(p, one(g[ix]))); } return r; }};
                if (out.empty()) o.out.kind = ScalarArg; o.tol = which == "std" ? 1e-6 : 1e-9; if (which == "std" && p == PT::Float) o.tol = 2e-3;
                if (p != D && p != PT::Float && p != PT::Int32 && p != PT::UInt8 && !thorough && S.size() != 2) continue; if (p == PT::UInt8 || p == PT::UInt16 || p == PT::UInt32 || p == PT::UInt64 || fp(p) || true) {}
                o.add = [=](builder::StructuredSDFGBuilder& b, scf::Block& k, Ext X) -> data_flow::LibraryNode& { auto s = exts(S, X); DebugInfo d; if (which == "sum") return b.add_library_node<t::SumNode>(k, d, s, ax, keep); if (which == "max") return b.add_library_node<t::MaxNode>(k, d, s, ax, keep); if (which == "min") return b.add_library_node<t::MinNode>(k, d, s, ax, keep); if (which == "mean") return b.add_library_node<t::MeanNode>(k, d, s, ax, keep); if (which == "std") return b.add_library_node<t::StdNode>(k, d, s, ax, keep); return b.add_library_node<t::SoftmaxNode>(k, d, s, ax, keep); };
                r.push_back(o);
            }
        }
        X perm; for (size_t i = 0; i < S.size(); i++) perm.push_back(i); if (!S.empty())
        do for (PT p : {PT::Double, PT::Int32}) { Shape out; for (auto q : perm) out.push_back(S[q]); auto pm = perm; Op o{"transpose " + dp::list(perm), {{"X", S, p}}, {"Y", out, p}, adder<t::TransposeNode>({S}, perm), [=](const std::vector<Vals>& x) { Vals r; for (auto& ix : indices(out)) { std::vector<int> src(ix.size()); for (size_t i = 0; i < ix.size(); i++) src[pm[i]] = ix[i]; r.push_back(x[0][flat(S, src)]); } return r; }}; r.push_back(o); } while (std::next_permutation(perm.begin(), perm.end()));
        // broadcasts into this shape
        if (!S.empty()) for (int m = 0; m < (1 << S.size()); m++) for (PT p : {PT::Double, PT::Int16}) for (int scalar = 0; scalar < (m ? 1 : 2); scalar++) {
            Shape in = S; for (size_t i = 0; i < S.size(); i++) if (m >> i & 1) in[i] = {1, ""}; if (scalar) in = {}; Op o{"broadcast", {{"X", in, p}}, {"Y", S, p}, [=](builder::StructuredSDFGBuilder& b, scf::Block& k, Ext X) -> data_flow::LibraryNode& { return b.add_library_node<t::BroadcastNode>(k, DebugInfo(), exts(in, X), exts(S, X)); },
                [=](const std::vector<Vals>& x) { Vals r; for (auto& ix : indices(S)) { auto q = ix; for (size_t i = 0; i < in.size(); i++) if (m >> i & 1) q[i] = 0; r.push_back(in.empty() ? x[0][0] : x[0][flat(in, q)]); } return r; }}; if (scalar) o.in[0].kind = ScalarArg; r.push_back(o); }
    }
    // matrix products, with and without batches
    struct MM { Shape a, b, y; }; Dim M{2, "S0"}, N{3, "S1"}, K{2, "S2"}, B{2, "S3"}, C{3, "S4"}, one{1, ""}; std::vector<MM> mms{{{M, K}, {K, N}, {M, N}}, {{B, M, K}, {B, K, N}, {B, M, N}}, {{M, K}, {B, K, N}, {B, M, N}}, {{B, M, K}, {K, N}, {B, M, N}}, {{B, C, M, K}, {B, C, K, N}, {B, C, M, N}}, {{C, M, K}, {B, C, K, N}, {B, C, M, N}}, {{B, C, M, K}, {C, K, N}, {B, C, M, N}}, {{one, M, K}, {B, K, N}, {B, M, N}}, {{B, M, K}, {one, K, N}, {B, M, N}}, {{B, one, M, K}, {C, K, N}, {B, C, M, N}}, {{one, one}, {one, one}, {one, one}}, {{M, one}, {one, N}, {M, N}}, {{one, K}, {K, one}, {one, one}}};
    for (auto& mm : mms) for (PT p : {PT::Double, PT::Float}) for (int la = 0; la < 3; la++) for (int lb = 0; lb < 3; lb++) {
        auto q = mm; Op o{"matmul " + std::to_string(la) + std::to_string(lb), {{"A", q.a, p}, {"B", q.b, p}}, {"Y", q.y, p}, {}, [=](const std::vector<Vals>& x) { Vals r; int kk = q.a.back().n; for (auto& ix : indices(q.y)) { double s = 0; for (int k = 0; k < kk; k++) { auto pos = [&](const Shape& sh, int u, int v) { std::vector<int> z; for (size_t i = 0; i + 2 < sh.size(); i++) { int b = ix[q.y.size() - sh.size() + i]; z.push_back(sh[i].n == 1 ? 0 : b); } z.push_back(u); z.push_back(v); return flat(sh, z); }; s += as_d(x[0][pos(q.a, ix[ix.size() - 2], k)]) * as_d(x[1][pos(q.b, k, ix.back())]); } r.push_back(num(p, s)); } return r; }};
        auto lay = [=](const Shape& s, int l, Ext X, MX& st, E& off) { off = symbolic::zero(); if (!l) return; st.assign(s.size(), symbolic::one()); E acc = symbolic::one(); for (size_t i = s.size(); i-- > 0;) { st[i] = acc; acc = symbolic::mul(acc, symbolic::add(X(s[i]), symbolic::integer(l == 2 ? 1 : 0))); } if (l == 1) off = symbolic::integer(2); };
        o.layouts = {-1}; o.data = 100 + la * 10 + lb;
        o.add = [=](builder::StructuredSDFGBuilder& b, scf::Block& k, Ext X) -> data_flow::LibraryNode& { MX sa, sb; E oa, ob; lay(q.a, la, X, sa, oa); lay(q.b, lb, X, sb, ob); return b.add_library_node<t::MatMulNode>(k, DebugInfo(), exts(q.a, X), exts(q.b, X), sa, sb, oa, ob); };
        r.push_back(o);
    }
    // convolutions
    for (int d = 1; d <= 2; d++) for (int v = 0; v < (thorough ? 64 : 32); v++) for (int bias = 0; bias < 2; bias++) {
        int st = v & 1 ? 2 : 1, pb = v >> 1 & 1, pe = v >> 2 & 1, dil = v >> 3 & 1 ? 2 : 1, grp = v >> 4 & 1 ? 2 : 1; bool deflt = v >> 5 & 1; if (deflt && (v & 31)) continue; int kk = 2, in = d == 1 ? 5 : 4; int ci = 2, co = grp == 2 ? 4 : 3; int od = (in + pb + pe - dil * (kk - 1) - 1) / st + 1; if (od <= 0) continue;
        Shape x{{2, "S0"}, {ci, ""}}, w{{co, ""}, {ci / grp, ""}}, y{{2, "S0"}, {co, ""}}; for (int i = 0; i < d; i++) { x.push_back({in, ""}); w.push_back({kk, ""}); y.push_back({od, ""}); }
        if (count(x) > 150 || count(y) > 150 || count(w) > 150) { x[0] = y[0] = {1, "S0"}; } if (count(x) > 150 || count(y) > 150 || count(w) > 150) continue;
        PT p = PT::Double; Op o{"conv stride" + std::to_string(st) + " pad" + std::to_string(pb) + std::to_string(pe) + " dilation" + std::to_string(dil) + " group" + std::to_string(grp) + (deflt ? " default" : ""), {{"X", x, p}, {"W", w, p}}, {"Y", y, p}, {}, [=](const std::vector<Vals>& a) {
            Vals r; for (auto& ix : indices(y)) { double s = bias ? as_d(a[2][ix[1]]) : 0; Shape ks(w.begin() + 1, w.end()); for (auto& kx : indices(ks)) { std::vector<int> xi{ix[0], ix[1] / (co / grp) * (ci / grp) + kx[0]}, wi{ix[1]}; wi.insert(wi.end(), kx.begin(), kx.end()); bool inside = true; for (int i = 0; i < d; i++) { int z = ix[2 + i] * st - pb + kx[1 + i] * dil; if (z < 0 || z >= in) inside = false; xi.push_back(z); } if (inside) s += as_d(a[0][flat(x, xi)]) * as_d(a[1][flat(w, wi)]); } r.push_back(num(p, s)); } return r; }};
        if (bias) o.in.push_back({"B", {{co, ""}}, p}); o.layouts = {0, 3};
        o.add = [=](builder::StructuredSDFGBuilder& b, scf::Block& k, Ext X) -> data_flow::LibraryNode& { auto I = [](int q) -> E { return symbolic::integer(q); }; MX ks(d, I(kk)), sts(d, I(st)), pads, dils(d, I(dil)); for (int i = 0; i < d; i++) pads.push_back(I(pb)); for (int i = 0; i < d; i++) pads.push_back(I(pe)); if (deflt) { sts.clear(); pads.clear(); dils.clear(); } return b.add_library_node<t::ConvNode>(k, DebugInfo(), exts(x, X), ks, sts, pads, dils, I(co), I(grp)); };
        r.push_back(o);
    }
    // BLAS
    for (auto pr : {bl::s, bl::d}) for (auto l : {bl::RowMajor, bl::ColMajor}) for (auto ta : {bl::No, bl::Trans}) for (auto tb : {bl::No, bl::Trans}) for (int ld = 0; ld < 2; ld++) for (int be = 0; be < 2; be++) for (int al = 0; al < 2; al++) {
        PT p = pr == bl::s ? PT::Float : PT::Double; int m = 2, n = 3, kk = 2; bool row = l == bl::RowMajor; int ar = ta == bl::No ? m : kk, ac = ta == bl::No ? kk : m, br = tb == bl::No ? kk : n, bc = tb == bl::No ? n : kk; int lda = (row ? ac : ar) + ld, ldb = (row ? bc : br) + ld, ldc = (row ? n : m) + ld;
        auto sh = [&](int r, int c, int ldx) { return row ? Shape{{r, ""}, {ldx, ""}} : Shape{{c, ""}, {ldx, ""}}; };
        Op o{std::string("gemm ") + (row ? "row" : "column") + (ta == bl::No ? " N" : " T") + (tb == bl::No ? "N" : "T"), {{"__A", sh(ar, ac, lda), p, FlatPtr}, {"__B", sh(br, bc, ldb), p, FlatPtr}, {"__C", sh(m, n, ldc), p, FlatPtr}, {"__alpha", {}, p, al ? ScalarArg : Const, "scalar type"}, {"__beta", {}, p, be ? ScalarArg : Const, "scalar type"}}, {"__C", sh(m, n, ldc), p, FlatPtr}, {}, [=](const std::vector<Vals>& x) {
            Vals r = x[2]; auto ix = [&](int i, int j, int ldx) { return row ? i * ldx + j : j * ldx + i; }; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < kk; k++) s += as_d(x[0][ta == bl::No ? ix(i, k, lda) : ix(k, i, lda)]) * as_d(x[1][tb == bl::No ? ix(k, j, ldb) : ix(j, k, ldb)]); r[ix(i, j, ldc)] = num(p, as_d(x[3][0]) * s + as_d(x[4][0]) * as_d(x[2][ix(i, j, ldc)])); } return r; }};
        o.must = ta == bl::No && tb == bl::No && row; o.layouts = {0}; o.data = 50; o.inout = 2;
        o.add = [=](builder::StructuredSDFGBuilder& b, scf::Block& k, Ext) -> data_flow::LibraryNode& { auto I = [](int q) -> E { return symbolic::integer(q); }; return b.add_library_node<bl::GEMMNode>(k, DebugInfo(), data_flow::ImplementationType_NONE, pr, l, ta, tb, I(m), I(n), I(kk), I(lda), I(ldb), I(ldc)); };
        r.push_back(o);
    }
    for (auto pr : {bl::s, bl::d}) for (int n : {0, 1, 4}) for (int ix : {1, 2}) for (int iy : {1, 3}) {
        PT p = pr == bl::s ? PT::Float : PT::Double; Op o{"dot", {{"__x", {{n * ix, ""}}, p, FlatPtr}, {"__y", {{n * iy, ""}}, p, FlatPtr}}, {"__out", {}, p, ScalarArg, "scalar type"}, {}, [=](const std::vector<Vals>& x) { double s = 0; for (int i = 0; i < n; i++) s += as_d(x[0][i * ix]) * as_d(x[1][i * iy]); return Vals{num(p, s)}; }}; o.layouts = {0}; o.data = 60;
        o.add = [=](builder::StructuredSDFGBuilder& b, scf::Block& k, Ext) -> data_flow::LibraryNode& { return b.add_library_node<bl::DotNode>(k, DebugInfo(), data_flow::ImplementationType_NONE, pr, symbolic::integer(n), symbolic::integer(ix), symbolic::integer(iy)); }; r.push_back(o);
    }
    return r;
}
static void space(vc::Run& r) {
    vk::init(); auto all = ops(r.thorough);
    for (auto& op : all) {
        size_t k = op.in.size() + 1; bool ranked = false; for (auto& o : op.in) ranked |= o.kind == Tensor && !o.shape.empty(); ranked |= op.out.kind == Tensor && !op.out.shape.empty();
        std::vector<std::vector<int>> lays; auto can = [&](size_t q) { auto& o = q < op.in.size() ? op.in[q] : op.out; return o.kind == Tensor && !o.shape.empty(); };
        if (op.layouts[0] < 0) { auto w = [&](int l) { return l == 0 ? 0 : l == 1 ? 1 : 2; }; for (int z = 0; z < 3; z++) lays.push_back({w(op.data / 10 % 10), w(op.data % 10), z}); }
        else {
            lays.push_back(std::vector<int>(k, 0));
            for (int l : op.layouts) if (l) for (size_t q = 0; q < k; q++) if (can(q)) { auto v = lays[0]; v[q] = l; lays.push_back(v); }
            if (ranked && op.layouts.size() > 2) { std::vector<int> v(k, 0); for (size_t q = 0; q < k; q++) if (can(q)) v[q] = op.layouts[1 + q % (op.layouts.size() - 1)]; lays.push_back(v); for (size_t q = 0; q + 1 < k; q++) if (can(q)) { auto z = lays[0]; z[q] = 6; lays.push_back(z); } }
        }
        auto go = [&](const Case& c) { r.kase([&] { return describe(c); }, [&] { check(r, c); }); };
        for (auto& lay : lays) for (int sym = 0; sym < (ranked ? 2 : 1); sym++) go({&op, lay, (bool)sym, 0});
        bool flat = false; for (auto& o : op.in) flat |= o.kind == FlatPtr;
        if (!flat && op.layouts[0] >= 0 && count(op.out.shape) <= 24 && (op.in.empty() || count(op.in[0].shape) <= 18)) go({&op, lays[0], true, 1}); if (!flat && op.layouts[0] >= 0 && lays.size() > 3 && count(op.out.shape) <= 12 && count(op.in[0].shape) <= 12) go({&op, lays.back()[0] == 6 ? lays[1] : lays.back(), false, 1});
        go({&op, lays[0], false, 2}); if (op.out.kind == Tensor) go({&op, lays[0], false, 3}); go({&op, lays[0], false, 6});
        if (op.elementwise && op.out.kind == Tensor && op.in[0].kind == Tensor) go({&op, lays[0], false, 4}); 
        if (op.elementwise && op.in.size() > 1 && op.data != 4 && op.data != 1) go({&op, lays[0], false, 5});
    }
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every library operation x every shape, layout, element type, way of passing operands and place in a program within the bounds x 3 fillings, the whole memory compared";
    o.extra_counters = {{8, "not_expanded"}}; o.hang_s = 20;
    return vc::main_impl(argc, argv, space, o);
}
