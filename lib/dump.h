// A complete, independent textual form of a program: every field of every element, type and expression.
#pragma once
#include "corekit.h"
#include <sdfg/codegen/code_generator.h>
#include <sdfg/data_flow/library_nodes/barrier_local_node.h>
#include <sdfg/data_flow/library_nodes/call_node.h>
#include <sdfg/data_flow/library_nodes/invoke_node.h>
#include <sdfg/data_flow/library_nodes/load_const_node.h>
#include <sdfg/data_flow/library_nodes/math/math.h>
#include <sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.h>
#include <sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/tasklet_node.h>
#include <sdfg/data_flow/library_nodes/metadata_node.h>
#include <sdfg/data_flow/library_nodes/stdlib/stdlib.h>
#include <sdfg/targets/cuda/cuda_data_offloading_node.h>
#include <sdfg/types/tensor.h>
#include <sdfg/types/function.h>
#include <typeindex>
namespace dp {
using namespace sdfg; namespace scf = sdfg::structured_control_flow; namespace df = sdfg::data_flow;
typedef SymEngine::RCP<const SymEngine::Basic> Sym;
std::string type(const types::IType& t);
inline bool untyped_sizeof = false;  // leave the type inside sizeof() out
inline std::string sym(const Sym& e) {
    if (e.is_null()) return "-";
    if (SymEngine::is_a<SymEngine::Symbol>(*e)) return "$" + SymEngine::rcp_static_cast<const SymEngine::Symbol>(e)->get_name();
    if (auto z = dynamic_cast<const symbolic::SizeOfTypeFunction*>(e.get()); z && !untyped_sizeof) return "sizeof(" + type(z->get_type()) + ")";
    if (auto f = dynamic_cast<const SymEngine::FunctionSymbol*>(e.get()); f && f->get_name() == "sizeof" && untyped_sizeof) return "sizeof";
    auto args = e->get_args();
    if (args.empty()) return std::to_string((int)e->get_type_code()) + ":" + e->__str__();
    std::vector<std::string> a; for (auto& x : args) a.push_back(sym(x));
    bool comm = SymEngine::is_a<SymEngine::Add>(*e) || SymEngine::is_a<SymEngine::Mul>(*e) || SymEngine::is_a<SymEngine::Min>(*e) || SymEngine::is_a<SymEngine::Max>(*e) || SymEngine::is_a<SymEngine::And>(*e) || SymEngine::is_a<SymEngine::Or>(*e) || SymEngine::is_a<SymEngine::Equality>(*e) || SymEngine::is_a<SymEngine::Unequality>(*e);
    if (comm) std::sort(a.begin(), a.end());
    std::string r = "(" + std::to_string((int)e->get_type_code());
    if (auto f = dynamic_cast<const SymEngine::FunctionSymbol*>(e.get())) r += " " + f->get_name();
    for (auto& x : a) r += " " + x;
    return r + ")";
}
template <class V> std::string syms(const V& v) { std::string r = "["; for (auto& e : v) r += sym(e) + ";"; return r + "]"; }
template <class V> std::string list(const V& v) { std::string r = "["; for (auto& e : v) if constexpr (std::is_arithmetic_v<std::decay_t<decltype(e)>>) r += std::to_string(e) + ";"; else r += std::string(e) + ";"; return r + "]"; }
inline std::string storage(const types::StorageType& s) { return s.value() + "," + sym(s.allocation_size()) + "," + std::to_string(s.allocation()) + "," + std::to_string(s.deallocation()) + "," + sym(s.arg1()); }
inline std::string type(const types::IType& t) {
    std::string c = "{" + storage(t.storage_type()) + "|" + std::to_string(t.alignment()) + "|" + t.initializer() + "}";
    if (auto s = dynamic_cast<const types::Tensor*>(&t)) return "tensor" + c + "(" + type(s->element_type()) + syms(s->shape()) + syms(s->strides()) + sym(s->offset()) + ")";
    if (auto s = dynamic_cast<const types::Scalar*>(&t)) return "scalar" + c + std::to_string((int)s->primitive_type());
    if (auto s = dynamic_cast<const types::Array*>(&t)) return "array" + c + sym(s->num_elements()) + "(" + type(s->element_type()) + ")";
    if (auto s = dynamic_cast<const types::Pointer*>(&t)) return "pointer" + c + "(" + (s->has_pointee_type() ? type(s->pointee_type()) : "") + ")";
    if (auto s = dynamic_cast<const types::Structure*>(&t)) return "structure" + c + s->name();
    if (auto s = dynamic_cast<const types::Function*>(&t)) { std::string r = "function" + c + "(" + type(s->return_type()); for (size_t i = 0; i < s->num_params(); i++) r += "," + type(s->param_type(symbolic::integer(i))); return r + (s->is_var_arg() ? ",...)" : ")"); }
    if (auto s = dynamic_cast<const sdfg::codegen::Reference*>(&t)) return "reference" + c + "(" + type(s->reference_type()) + ")";
    return "?" + t.print();
}
struct Opt { bool ids = true, dbg = true; };
inline std::string element(const Element& e, const Opt& o) {
    std::string r; if (o.ids) r += "#" + std::to_string(e.element_id());
    if (o.dbg) { auto& d = e.debug_info(); r += d.has() ? "@" + d.filename() + ":" + d.function() + ":" + std::to_string(d.start_line()) + ":" + std::to_string(d.start_column()) + ":" + std::to_string(d.end_line()) + ":" + std::to_string(d.end_column()) : "@-"; }
    return r;
}
inline std::string library(const df::LibraryNode& n) {
    namespace t = math::tensor; namespace b = math::blas;
    std::string r = n.code().value() + " " + std::type_index(typeid(n)).name() + " " + n.implementation_type().value() + " " + list(n.outputs()) + list(n.inputs()) + (n.side_effect() ? " effect " : " ") + n.toStr();
    if (auto x = dynamic_cast<const stdlib::AllocaNode*>(&n)) r += sym(x->size());
    if (auto x = dynamic_cast<const stdlib::CallocNode*>(&n)) r += sym(x->num()) + "," + sym(x->size());
    if (auto x = dynamic_cast<const stdlib::MallocNode*>(&n)) r += sym(x->size());
    if (auto x = dynamic_cast<const stdlib::MemcpyNode*>(&n)) r += sym(x->count());
    if (auto x = dynamic_cast<const stdlib::MemmoveNode*>(&n)) r += sym(x->count());
    if (auto x = dynamic_cast<const stdlib::MemsetNode*>(&n)) r += sym(x->value()) + "," + sym(x->num());
    if (auto x = dynamic_cast<const df::CallNode*>(&n)) r += x->callee_name();
    if (auto x = dynamic_cast<const df::InvokeNode*>(&n)) r += x->callee_name();
    if (auto x = dynamic_cast<const df::MetadataNode*>(&n)) { std::map<std::string, std::string> m(x->metadata().begin(), x->metadata().end()); for (auto& [k, v] : m) r += k + "=" + v + ";"; }
    if (auto x = dynamic_cast<const df::LoadConstNode*>(&n)) { r += type(x->type()); auto& s = x->data_source(); r += std::to_string(s.num_bytes()); if (s.is_inlineable()) for (auto i = s.inline_begin(); i != s.inline_end(); ++i) r += "," + std::to_string(*i); if (s.in_external_file()) r += s.filename().string(); }
    if (auto x = dynamic_cast<const b::BLASNode*>(&n)) r += " p" + std::to_string((int)x->precision());
    if (auto x = dynamic_cast<const b::DotNode*>(&n)) r += syms(symbolic::MultiExpression{x->n(), x->incx(), x->incy()});
    if (auto x = dynamic_cast<const b::GEMMNode*>(&n)) r += std::to_string((int)x->layout()) + std::to_string((int)x->trans_a()) + std::to_string((int)x->trans_b()) + syms(symbolic::MultiExpression{x->m(), x->n(), x->k(), x->lda(), x->ldb(), x->ldc()});
    if (auto x = dynamic_cast<const math::cmath::CMathNode*>(&n)) r += std::to_string((int)x->function()) + "," + std::to_string((int)x->primitive_type());
    if (auto x = dynamic_cast<const t::ElementWiseUnaryNode*>(&n)) r += syms(x->shape());
    if (auto x = dynamic_cast<const t::ElementWiseBinaryNode*>(&n)) r += syms(x->shape());
    if (auto x = dynamic_cast<const t::CastNode*>(&n)) r += std::to_string((int)x->target_type());
    if (auto x = dynamic_cast<const t::CMathTensorNode*>(&n)) r += std::to_string((int)x->cmath_function()) + syms(x->shape());
    if (auto x = dynamic_cast<const t::TaskletTensorNode*>(&n)) r += std::to_string((int)x->tasklet_code()) + syms(x->shape());
    if (auto x = dynamic_cast<const t::ReduceNode*>(&n)) r += syms(x->shape()) + list(x->axes()) + (x->keepdims() ? "keep" : "");
    if (auto x = dynamic_cast<const t::BroadcastNode*>(&n)) r += syms(x->input_shape()) + syms(x->output_shape());
    if (auto x = dynamic_cast<const t::TransposeNode*>(&n)) r += syms(x->shape()) + list(x->perm());
    if (auto x = dynamic_cast<const t::MatMulNode*>(&n)) r += syms(x->shape_a()) + syms(x->shape_b()) + syms(x->strides_a()) + syms(x->strides_b()) + sym(x->offset_a()) + sym(x->offset_b());
    if (auto x = dynamic_cast<const t::ConvNode*>(&n)) r += syms(x->shape()) + syms(x->kernel_shape()) + syms(x->strides()) + syms(x->pads()) + syms(x->dilations()) + sym(x->output_channels()) + sym(x->group());
    if (auto x = dynamic_cast<const offloading::DataOffloadingNode*>(&n)) r += " d" + std::to_string((int)x->transfer_direction()) + " l" + std::to_string((int)x->buffer_lifecycle()) + sym(x->size()) + sym(x->alloc_size());
    if (auto x = dynamic_cast<const cuda::CUDADataOffloadingNode*>(&n)) r += sym(x->device_id());
    return r;
}
inline std::string node(const df::DataFlowNode& n, const Opt& o) {
    std::string r = element(n, o) + " ";
    if (auto t = dynamic_cast<const df::Tasklet*>(&n)) return r + "tasklet " + std::to_string((int)t->code()) + t->output() + list(t->inputs());
    if (auto l = dynamic_cast<const df::LibraryNode*>(&n)) return r + "library " + library(*l);
    if (auto c = dynamic_cast<const df::ConstantNode*>(&n)) return r + "constant " + c->data() + " " + type(c->type());
    if (auto a = dynamic_cast<const df::AccessNode*>(&n)) return r + "access " + a->data();
    return r + "?";
}
// Nodes and edges in a canonical order: by element id, or, without ids, by what they and their surroundings are.
inline std::string dataflow(const df::DataFlowGraph& g, const Opt& o) {
    std::map<const df::DataFlowNode*, std::string> name; std::vector<std::pair<std::string, const df::DataFlowNode*>> v;
    for (auto& n : g.nodes()) name[&n] = node(n, o);
    if (!o.ids) for (int round = 0; round < 3; round++) {  // refinement by neighbourhood
        auto next = name;
        for (auto& n : g.nodes()) {
            std::vector<std::string> in, out;
            for (auto& e : g.in_edges(n)) in.push_back(e.src_conn() + ">" + e.dst_conn() + ":" + std::to_string(std::hash<std::string>()(name[&e.src()])) + syms(e.subset()));
            for (auto& e : g.out_edges(n)) out.push_back(e.src_conn() + ">" + e.dst_conn() + ":" + std::to_string(std::hash<std::string>()(name[&e.dst()])) + syms(e.subset()));
            std::sort(in.begin(), in.end()); std::sort(out.begin(), out.end());
            next[&n] = node(n, o) + list(in) + list(out);
        }
        name = next;
    }
    for (auto& [n, s] : name) v.push_back({s, n});
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    std::string r; for (auto& [s, n] : v) r += "  " + s + "\n";
    std::vector<std::string> es;
    for (auto& e : g.edges()) es.push_back("  " + element(e, o) + " edge " + name[&e.src()] + "." + e.src_conn() + " -> " + name[&e.dst()] + "." + e.dst_conn() + syms(e.subset()) + type(e.base_type()) + std::to_string((int)e.type()) + "\n");
    std::sort(es.begin(), es.end()); for (auto& e : es) r += e;
    return r;
}
inline std::string schedule(const scf::ScheduleType& s) { std::map<std::string, std::string> m(s.properties().begin(), s.properties().end()); std::string r = s.value() + "/" + std::to_string((int)s.category()); for (auto& [k, v] : m) r += "," + k + "=" + v; return r; }
inline std::string flow(const scf::ControlFlowNode& n, const Opt& o, bool deep = true);
inline std::string assignments(const control_flow::Assignments& a) { std::map<std::string, std::string> m; for (auto& [k, v] : a) m[k->get_name()] = sym(v); std::string r; for (auto& [k, v] : m) r += k + ":=" + v + ";"; return r; }
inline std::string sequence(const scf::Sequence& q, const Opt& o) {
    std::string r = "{\n"; for (size_t i = 0; i < q.size(); i++) r += flow(q.at(i).first, o) + " ~" + element(q.at(i).second, o) + assignments(q.at(i).second.assignments()) + "\n"; return r + "}";
}
inline std::string flow(const scf::ControlFlowNode& n, const Opt& o, bool deep) {
    std::string r = element(n, o) + " ";
    if (auto x = dynamic_cast<const scf::Block*>(&n)) return r + "block\n" + dataflow(x->dataflow(), o);
    if (auto x = dynamic_cast<const scf::Sequence*>(&n)) return r + "sequence" + (deep ? sequence(*x, o) : std::to_string(x->size()));
    if (auto x = dynamic_cast<const scf::IfElse*>(&n)) { r += "if"; for (size_t i = 0; i < x->size(); i++) r += " case " + sym(x->at(i).second) + (deep ? flow(x->at(i).first, o) : ""); return r; }
    if (auto x = dynamic_cast<const scf::While*>(&n)) return r + "while " + (deep ? flow(x->root(), o) : "");
    if (dynamic_cast<const scf::Break*>(&n)) return r + "break";
    if (dynamic_cast<const scf::Continue*>(&n)) return r + "continue";
    if (auto x = dynamic_cast<const scf::Return*>(&n)) return r + "return " + x->data() + (x->is_constant() ? " constant " + type(x->type()) : "");
    if (auto x = dynamic_cast<const scf::StructuredLoop*>(&n)) {
        auto m = dynamic_cast<const scf::Map*>(&n);
        return r + (m ? "map " + schedule(m->schedule_type()) : "for") + " " + x->indvar()->get_name() + " " + sym(x->init()) + " " + sym(x->condition()) + " " + sym(x->update()) + (deep ? flow(x->root(), o) : "");
    }
    return r + "?";
}
// the parts around the control flow
inline std::string frame(const StructuredSDFG& s, bool counter = true) {
    std::string r = s.name() + " " + s.type().value() + " " + type(s.return_type()) + (counter ? " " + std::to_string(s.element_counter()) : "") + "\n";
    std::vector<std::string> v; for (auto& n : s.structures()) { auto& d = s.structure(n); std::string x = "struct " + n + " " + d.name() + (d.is_packed() ? " packed" : ""); for (size_t i = 0; i < d.num_members(); i++) x += ";" + type(d.member_type(symbolic::integer(i))); v.push_back(x); }
    for (auto& n : s.containers()) v.push_back("container " + n + " " + type(s.type(n)));
    std::sort(v.begin(), v.end()); for (auto& x : v) r += x + "\n";
    r += "arguments " + list(s.arguments()) + "\nexternals"; for (auto& e : s.externals()) r += " " + e + ":" + std::to_string(s.linkage_type(e));
    std::map<std::string, std::string> m; for (auto& [k, x] : s.metadata()) m[k] = x; for (auto& [k, x] : m) r += "\nmetadata " + k + "=" + x;
    return r + "\n";
}
inline std::string all(const StructuredSDFG& s, const Opt& o = {}) { return frame(s) + flow(s.root(), o); }
// where two texts differ
inline std::string diff(const std::string& a, const std::string& b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t f = i > 50 ? i - 50 : 0; auto cut = [&](const std::string& s) { std::string r = s.substr(std::min(f, s.size()), 130); for (auto& c : r) if (c == '\n') c = '|'; return r; };
    return "'" + cut(a) + "' became '" + cut(b) + "'";
}
}  // namespace dp
