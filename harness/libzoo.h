// One of every library operation, in every variant of its fields.
#pragma once
#include "dump.h"
#include <sdfg/targets/cuda/cuda_data_offloading_node.h>
namespace zoo {
using namespace sdfg; namespace t = math::tensor; namespace bl = math::blas; using PT = types::PrimitiveType; using scf_block = structured_control_flow::Block;
typedef symbolic::MultiExpression Shape;
struct Entry { std::string name; std::function<data_flow::LibraryNode&(builder::StructuredSDFGBuilder&, scf_block&)> add; };
inline std::string text(const Shape& s) { std::string r = "["; for (auto& e : s) r += e->__str__() + ","; return r + "]"; }
template <class N, class... A> Entry entry(const std::string& name, A... a) { return {name, [a...](builder::StructuredSDFGBuilder& b, scf_block& k) -> data_flow::LibraryNode& { return b.add_library_node<N>(k, DebugInfo("lib.c", "fn", 3, 4, 5, 6), a...); }}; }
inline std::vector<Entry> entries() {
    std::vector<Entry> r; auto N = symbolic::symbol("N"), M = symbolic::symbol("M"); auto I = [](int i) -> symbolic::Expression { return symbolic::integer(i); };
    std::vector<symbolic::Expression> es{I(0), I(1), I(64), N, symbolic::mul(N, I(8)), symbolic::add(symbolic::mul(N, M), I(4)), symbolic::div(N, M), symbolic::mod(N, I(3)), symbolic::min(N, M), symbolic::max(symbolic::max(N, M), I(2)), symbolic::abs(symbolic::sub(N, M)), symbolic::zext_i64(N), symbolic::trunc_i32(M), symbolic::pow(N, I(2)), symbolic::dynamic_sizeof(symbolic::symbol("A")), symbolic::size_of_type(*new types::Scalar(PT::Int32)), symbolic::mul(N, symbolic::size_of_type(*new types::Pointer(types::Scalar(PT::Double))))};
    for (auto& e : es) {
        auto s = " " + e->__str__();
        r.push_back(entry<stdlib::AllocaNode>("alloca" + s, e)); r.push_back(entry<stdlib::MallocNode>("malloc" + s, e)); r.push_back(entry<stdlib::MemcpyNode>("memcpy" + s, e)); r.push_back(entry<stdlib::MemmoveNode>("memmove" + s, e));
        for (auto& f : {es[0], es[3], es[5]}) { r.push_back(entry<stdlib::CallocNode>("calloc" + s + f->__str__(), e, f)); r.push_back(entry<stdlib::MemsetNode>("memset" + s + f->__str__(), e, f)); }
    }
    r.push_back(entry<stdlib::FreeNode>("free")); r.push_back(entry<stdlib::TrapNode>("trap")); r.push_back(entry<stdlib::UnreachableNode>("unreachable")); r.push_back(entry<data_flow::BarrierLocalNode>("barrier"));
    typedef std::vector<std::string> S;
    for (auto o : {S{}, S{"_ret"}, S{"_ret", "_out"}}) for (auto i : {S{}, S{"_a"}, S{"_b", "_a", "_c"}}) {
        auto s = dp::list(o) + dp::list(i);
        r.push_back(entry<data_flow::CallNode>("call" + s, std::string("callee"), o, i)); r.push_back(entry<data_flow::InvokeNode>("invoke" + s, std::string("callee"), o, i));
        for (auto m : {std::unordered_map<std::string, std::string>{}, {{"key", "value"}}, {{"k", "v"}, {"line", "a\"b\\c\n"}, {"", "x"}}}) r.push_back(entry<data_flow::MetadataNode>("metadata" + s + std::to_string(m.size()), o, i, m));
    }
    for (int n : {0, 1, 3, 4, 256}) for (int type = 0; type < 3; type++) for (int file = 0; file < 2; file++) r.push_back({"load const " + std::to_string(n) + " bytes of type " + std::to_string(type) + (file ? " of a file" : ""), [=](builder::StructuredSDFGBuilder& b, scf_block& k) -> data_flow::LibraryNode& {
        std::vector<uint8_t> d; for (int i = 0; i < n; i++) d.push_back(i * 37 + 200);
        std::unique_ptr<data_flow::ConstSource> s; if (file) s = std::make_unique<data_flow::RawFileConstSource>("dir/some file.bin", n); else s = std::make_unique<data_flow::InMemoryConstSource>(std::move(d));
        types::Scalar u8(PT::UInt8), f(PT::Float); std::unique_ptr<types::IType> ty; if (type == 0) ty = u8.clone(); else if (type == 1) ty = types::Array(f, symbolic::integer(n)).clone(); else ty = types::Pointer((const types::IType&)f).clone();
        auto& g = k.dataflow(); (void)g;
        return b.add_library_node<data_flow::LoadConstNode, std::unique_ptr<types::IType>, std::unique_ptr<data_flow::ConstSource>>(k, DebugInfo("lib.c", "fn", 3, 4, 5, 6), std::move(ty), std::move(s));
    }});
    data_flow::ImplementationType none("");
    for (auto impl : {data_flow::ImplementationType(""), data_flow::ImplementationType("BLAS"), data_flow::ImplementationType("CUBLASWithTransfers")}) for (auto p : {bl::h, bl::s, bl::d, bl::c, bl::z}) {
        auto s = impl.value() + (char)p;
        r.push_back(entry<bl::DotNode>("dot" + s, impl, p, es[3], es[1], es[1])); r.push_back(entry<bl::DotNode>("dot strided" + s, impl, p, es[5], es[3], es[2]));
        for (auto l : {bl::RowMajor, bl::ColMajor}) for (auto ta : {bl::No, bl::Trans, bl::ConjTrans}) for (auto tb : {bl::No, bl::Trans, bl::ConjTrans}) r.push_back(entry<bl::GEMMNode>("gemm" + s + std::to_string(l) + std::to_string(ta) + std::to_string(tb), impl, p, l, ta, tb, es[3], (symbolic::Expression)M, es[5], es[2], es[8], es[9]));
    }
    auto xs = [](size_t n) { S r; for (size_t i = 0; i < n; i++) r.push_back("X" + std::to_string(i)); return r; };
    for (int f = 0; f <= (int)math::cmath::CMathFunction::fma; f++) {
        std::string nm; try { nm = math::cmath::cmath_function_to_stem((math::cmath::CMathFunction)f); } catch (std::exception&) { break; }
        for (auto p : {PT::Float, PT::Double, PT::Half, PT::X86_FP80}) { std::string n2; try { n2 = math::cmath::get_cmath_intrinsic_name((math::cmath::CMathFunction)f, p); } catch (std::exception&) { continue; } r.push_back(entry<math::cmath::CMathNode>("cmath " + n2, (math::cmath::CMathFunction)f, p)); }
        r.push_back(entry<t::CMathTensorNode>("tensor cmath " + nm, (math::cmath::CMathFunction)f, S{"Y"}, xs(math::cmath::cmath_function_to_arity((math::cmath::CMathFunction)f)), Shape{N, I(4)}));
    }
    for (int c = 0; c <= (int)data_flow::TaskletCode::int_abs; c++) for (auto sh : {Shape{}, Shape{N}, Shape{I(2), M}}) r.push_back(entry<t::TaskletTensorNode>("tensor tasklet " + std::to_string(c) + text(sh), (data_flow::TaskletCode)c, S{"Y"}, xs(data_flow::arity((data_flow::TaskletCode)c)), sh));
    std::vector<Shape> shapes{{}, {I(3)}, {N}, {N, I(4)}, {I(2), M, es[5]}, {I(1), I(2), I(3), N}};
    for (auto& sh : shapes) {
        auto s = " " + text(sh);
        r.push_back(entry<t::AbsNode>("abs" + s, sh)); r.push_back(entry<t::EluNode>("elu" + s, sh)); r.push_back(entry<t::ErfNode>("erf" + s, sh)); r.push_back(entry<t::ExpNode>("exp" + s, sh)); r.push_back(entry<t::HardSigmoidNode>("hardsigmoid" + s, sh)); r.push_back(entry<t::LeakyReLUNode>("leakyrelu" + s, sh)); r.push_back(entry<t::ReLUNode>("relu" + s, sh)); r.push_back(entry<t::SigmoidNode>("sigmoid" + s, sh)); r.push_back(entry<t::SqrtNode>("sqrt" + s, sh)); r.push_back(entry<t::TanhNode>("tanh" + s, sh));
        r.push_back(entry<t::AddNode>("add" + s, sh)); r.push_back(entry<t::SubNode>("sub" + s, sh)); r.push_back(entry<t::MulNode>("mul" + s, sh)); r.push_back(entry<t::DivNode>("div" + s, sh)); r.push_back(entry<t::PowNode>("pow" + s, sh)); r.push_back(entry<t::MinimumNode>("minimum" + s, sh)); r.push_back(entry<t::MaximumNode>("maximum" + s, sh)); r.push_back(entry<t::FillNode>("fill" + s, sh));
        for (auto p : {PT::Bool, PT::Int8, PT::Int64, PT::UInt32, PT::Half, PT::Float, PT::Double}) r.push_back(entry<t::CastNode>("cast " + std::to_string((int)p) + s, sh, p));
        typedef std::vector<int64_t> X;
        for (auto ax : {X{}, X{0}, X{-1}, X{0, 1}, X{1, 0}, X{0, 1, 2}, X{-2, 2}}) {
            if (!ax.empty() && ((int64_t)sh.size() <= *std::max_element(ax.begin(), ax.end()) || (int64_t)sh.size() < -*std::min_element(ax.begin(), ax.end()))) continue;
            for (bool keep : {false, true}) {
                auto a = s + dp::list(ax) + (keep ? " keep" : "");
                r.push_back(entry<t::SumNode>("sum" + a, sh, ax, keep)); r.push_back(entry<t::MaxNode>("max" + a, sh, ax, keep)); r.push_back(entry<t::MinNode>("min" + a, sh, ax, keep)); r.push_back(entry<t::MeanNode>("mean" + a, sh, ax, keep)); r.push_back(entry<t::StdNode>("std" + a, sh, ax, keep)); if (!keep) r.push_back(entry<t::SoftmaxNode>("softmax" + a, sh, ax, keep));
            }
        }
        X perm; for (size_t i = 0; i < sh.size(); i++) perm.push_back(i);
        do r.push_back(entry<t::TransposeNode>("transpose" + s + dp::list(perm), sh, perm)); while (std::next_permutation(perm.begin(), perm.end()));
    }
    r.push_back(entry<t::BroadcastNode>("broadcast 1", Shape{I(1)}, Shape{N})); r.push_back(entry<t::BroadcastNode>("broadcast 2", Shape{N, I(1)}, Shape{N, M})); r.push_back(entry<t::BroadcastNode>("broadcast 3", Shape{I(1), es[5], I(1)}, Shape{I(2), es[5], M}));
    for (int v = 0; v < 4; v++) r.push_back(entry<t::MatMulNode>("matmul " + std::to_string(v), v & 1 ? Shape{I(2), N, M} : Shape{N, M}, v & 1 ? Shape{I(2), M, I(4)} : Shape{M, I(4)}, v & 1 ? Shape{es[5], M, I(1)} : v ? Shape{M, I(1)} : Shape{}, v & 1 ? Shape{es[4], I(1), M} : v ? Shape{I(1), M} : Shape{}, v & 2 ? es[5] : I(0), v & 2 ? es[4] : I(0)));
    for (int v = 0; v < 8; v++) r.push_back(entry<t::ConvNode>("conv " + std::to_string(v), Shape{I(1), I(2), N, M}, v & 1 ? Shape{I(3), I(2)} : Shape{I(3), I(3)}, v & 2 ? Shape{I(2), I(1)} : Shape{I(1), I(1)}, v & 4 ? Shape{I(1), I(2), I(0), I(1)} : Shape{I(0), I(0), I(0), I(0)}, v & 1 ? Shape{I(1), I(2)} : Shape{I(1), I(1)}, v & 2 ? es[5] : I(4), v & 4 ? I(2) : I(1)));
    for (auto d : {offloading::DataTransferDirection::H2D, offloading::DataTransferDirection::D2H, offloading::DataTransferDirection::NONE}) for (auto l : {offloading::BufferLifecycle::NO_CHANGE, offloading::BufferLifecycle::ALLOC, offloading::BufferLifecycle::FREE})
        for (auto& e : {es[4], es[8]}) if (!(d == offloading::DataTransferDirection::H2D && l == offloading::BufferLifecycle::FREE) && !(d == offloading::DataTransferDirection::D2H && l == offloading::BufferLifecycle::ALLOC)) r.push_back({"offloading " + std::to_string((int)d) + std::to_string((int)l) + e->__str__(), [=](builder::StructuredSDFGBuilder& b, scf_block& k) -> data_flow::LibraryNode& { return b.add_library_node<cuda::CUDADataOffloadingNode>(k, DebugInfo("lib.c", "fn", 3, 4, 5, 6), e, (symbolic::Expression)N, d, l); }});
    return r;
}
// The shape of every operand of a tensor operation; no entry: not a tensor.
inline std::map<std::string, Shape> shapes(const data_flow::LibraryNode& n) {
    std::map<std::string, Shape> r; std::optional<Shape> sh;
    if (auto x = dynamic_cast<const t::FillNode*>(&n)) { r[n.output(0)] = x->shape(); return r; }
    if (auto x = dynamic_cast<const t::ElementWiseUnaryNode*>(&n)) sh = x->shape(); if (auto x = dynamic_cast<const t::ElementWiseBinaryNode*>(&n)) sh = x->shape();
    if (auto x = dynamic_cast<const t::CMathTensorNode*>(&n)) sh = x->shape(); if (auto x = dynamic_cast<const t::TaskletTensorNode*>(&n)) sh = x->shape();
    if (sh) { for (auto& c : n.inputs()) r[c] = *sh; for (auto& c : n.outputs()) r[c] = *sh; return r; }
    if (auto x = dynamic_cast<const t::ReduceNode*>(&n)) {
        Shape in = x->shape(), out; std::set<int64_t> ax; for (auto a : x->axes()) ax.insert(a < 0 ? a + (int64_t)in.size() : a);
        bool soft = n.code().value().find("Softmax") != std::string::npos;
        for (size_t i = 0; i < in.size(); i++) { if (soft || !ax.count(i)) out.push_back(in[i]); else if (x->keepdims()) out.push_back(symbolic::one()); }
        r[n.input(0)] = in; r[n.output(0)] = out;
    }
    if (auto x = dynamic_cast<const t::TransposeNode*>(&n)) { Shape out; for (auto q : x->perm()) out.push_back(x->shape()[q]); r[n.input(0)] = x->shape(); r[n.output(0)] = out; }
    if (auto x = dynamic_cast<const t::BroadcastNode*>(&n)) { r[n.input(0)] = x->input_shape(); r[n.output(0)] = x->output_shape(); }
    if (auto x = dynamic_cast<const t::MatMulNode*>(&n)) { Shape out(x->shape_a().begin(), x->shape_a().end() - 1); out.push_back(x->shape_b().back()); r["A"] = x->shape_a(); r["B"] = x->shape_b(); r["Y"] = out; }
    if (auto x = dynamic_cast<const t::ConvNode*>(&n)) {
        Shape in = x->shape(), w{x->output_channels(), symbolic::div(in[1], x->group())}, out{in[0], x->output_channels()}; size_t d = x->kernel_shape().size();
        for (size_t i = 0; i < d; i++) {
            auto ke = x->kernel_shape()[i]; w.push_back(ke); auto dil = x->dilations().empty() ? symbolic::one() : x->dilations()[i]; auto st = x->strides().empty() ? symbolic::one() : x->strides()[i];
            symbolic::Expression size = in[2 + i]; if (!x->pads().empty()) size = symbolic::add(size, symbolic::add(x->pads()[i], x->pads()[d + i]));
            size = symbolic::sub(size, symbolic::add(symbolic::mul(dil, symbolic::sub(ke, symbolic::one())), symbolic::one()));
            out.push_back(symbolic::add(symbolic::div(size, st), symbolic::one()));
        }
        r["X"] = in; r["W"] = w; r["B"] = {x->output_channels()}; r["Y"] = out;
    }
    return r;
}
// A program around one library operation: connected with tensors, with scalars of each kind, with pointers, or not at all.
inline std::unique_ptr<StructuredSDFG> program(const Entry& e, const std::string& impl = "") {
    types::Scalar i64(PT::Int64), v(PT::Void); std::string why;
    auto attempt = [&](int how, PT kind, PT out) -> std::unique_ptr<StructuredSDFG> {
        builder::StructuredSDFGBuilder b("prog", FunctionType_CPU, v); types::Scalar el(kind), eo(out);
        b.add_container("N", i64, true); b.add_container("M", i64, true);
        auto& k = b.add_block(b.subject().root()); auto& n = e.add(b, k); if (!impl.empty()) n.implementation_type() = data_flow::ImplementationType(impl);
        if (dynamic_cast<data_flow::CallNode*>(&n) || dynamic_cast<data_flow::InvokeNode*>(&n)) { types::Function f(n.outputs().empty() ? (const types::IType&)v : (const types::IType&)el, false); for (size_t i = 0; i < n.inputs().size(); i++) f.add_param(el); b.add_external("callee", f, LinkageType_External); }
        if (how == 3) return b.move();
        auto sh = shapes(n); if (how == 0 && sh.empty()) throw std::runtime_error("no shape");
        int c = 0; std::unique_ptr<types::IType> ty;
        auto wire = [&](const std::string& conn, bool is_out) {
            auto x = (is_out ? "O" : "I") + std::to_string(c++); const types::Scalar& s = is_out ? eo : el; types::Pointer p{(const types::IType&)s}; bool scalar = how == 1;
            if (how == 0) { if (!sh.count(conn)) { scalar = true; ty = s.clone(); } else { scalar = sh[conn].empty(); ty = types::Tensor(s, sh[conn]).clone(); } } else if (how == 1) ty = s.clone(); else ty = p.clone();
            b.add_container(x, scalar ? (const types::IType&)s : p, true);
            if (is_out) b.add_computational_memlet(k, n, conn, b.add_access(k, x), {}, *ty, DebugInfo("x.c", "f", 1, 2, 3, 4)); else b.add_computational_memlet(k, b.add_access(k, x), n, conn, {}, *ty, DebugInfo("x.c", "f", 1, 2, 3, 4));
        };
        for (auto& i : n.inputs()) wire(i, false);
        for (auto& o : n.outputs()) wire(o, true);
        return b.move();
    };
    for (int how = 0; how < 4; how++) for (auto kind : {PT::Double, PT::Float, PT::Int64, PT::Half, PT::X86_FP80, PT::UInt32, PT::Bool}) for (auto out : {kind, PT::Int64}) {
        if (how == 3 && e.name.find("tensor cmath") == 0) break;  // its validation needs an output
        try { return attempt(how, kind, out); } catch (std::exception& x) { if (why.size() < 4000) why += x.what() + std::string("; "); }
    }
    throw std::runtime_error("not buildable: " + why);
}
}  // namespace zoo
