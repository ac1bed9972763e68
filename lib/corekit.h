// Shared set-up of the harnesses over docc's core.
#pragma once
#include <sdfg/analysis/analysis.h>
#include <sdfg/codegen/dispatchers/node_dispatcher_registry.h>
#include <sdfg/serializer/json_serializer.h>
#include <sdfg/structured_control_flow/structured_loop.h>
#include <sdfg/targets/cuda/plugin.h>
#include <sdfg/targets/highway/plugin.h>
#include <sdfg/targets/omp/plugin.h>
#include "progs.h"

namespace vk {
using namespace sdfg;
namespace scf = sdfg::structured_control_flow;
inline void init() {
    static bool done = false; if (done) return; done = true;
    codegen::register_default_dispatchers();
    cuda::register_cuda_plugin();
    serializer::register_default_serializers();
    highway::register_highway_plugin();
    omp::register_omp_plugin();
}
// every control-flow node, in program order
inline void nodes(scf::ControlFlowNode& n, std::vector<scf::ControlFlowNode*>& out) {
    out.push_back(&n);
    if (auto q = dynamic_cast<scf::Sequence*>(&n)) for (size_t i = 0; i < q->size(); i++) nodes(q->at(i).first, out);
    else if (auto i = dynamic_cast<scf::IfElse*>(&n)) for (size_t k = 0; k < i->size(); k++) nodes(i->at(k).first, out);
    else if (auto w = dynamic_cast<scf::While*>(&n)) nodes(w->root(), out);
    else if (auto l = dynamic_cast<scf::StructuredLoop*>(&n)) nodes(l->root(), out);
}
inline std::vector<scf::StructuredLoop*> loops(StructuredSDFG& s) {
    std::vector<scf::ControlFlowNode*> v; nodes(s.root(), v); std::vector<scf::StructuredLoop*> r;
    for (auto* n : v) if (auto l = dynamic_cast<scf::StructuredLoop*>(n)) r.push_back(l);
    return r;
}
inline bool inside(scf::ControlFlowNode& outer, scf::ControlFlowNode& inner) {
    if (&outer == &inner) return false;
    std::vector<scf::ControlFlowNode*> v; nodes(outer, v);
    for (auto* n : v) if (n == &inner) return true;
    return false;
}
// A readable form of a program.
inline std::string print(const StructuredSDFG& s);
inline std::string subset(const data_flow::Subset& s) { std::string r; for (auto& e : s) r += "[" + e->__str__() + "]"; return r; }
inline std::string show(const data_flow::DataFlowGraph& g) {
    std::string r;
    for (auto* n : const_cast<data_flow::DataFlowGraph&>(g).topological_sort()) {
        if (auto t = dynamic_cast<const data_flow::Tasklet*>(n)) {
            for (auto& e : g.out_edges(*t)) r += dynamic_cast<const data_flow::AccessNode&>(e.dst()).data() + subset(e.subset()) + " = ";
            r += std::to_string((int)t->code()) + "(";
            for (auto& c : t->inputs()) for (auto& e : g.in_edges(*t)) if (e.dst_conn() == c) r += dynamic_cast<const data_flow::AccessNode&>(e.src()).data() + subset(e.subset()) + ",";
            r += "); ";
        } else if (auto l = dynamic_cast<const data_flow::LibraryNode*>(n)) {
            r += l->code().value() + "("; for (auto& e : g.in_edges(*l)) r += dynamic_cast<const data_flow::AccessNode&>(e.src()).data() + ","; r += ")->"; for (auto& e : g.out_edges(*l)) r += dynamic_cast<const data_flow::AccessNode&>(e.dst()).data() + ","; r += "; ";
        } else if (auto a = dynamic_cast<const data_flow::AccessNode*>(n))
            for (auto& e : g.out_edges(*a)) if (auto d = dynamic_cast<const data_flow::AccessNode*>(&e.dst()))
                r += e.type() == data_flow::MemletType::Reference ? d->data() + " = &" + a->data() + subset(e.subset()) + "; " : e.type() == data_flow::MemletType::Dereference_Src ? d->data() + " = *" + a->data() + "; " : "*" + d->data() + " = " + a->data() + "; ";
    }
    return r;
}
inline std::string show(const scf::ControlFlowNode& n) {
    if (auto q = dynamic_cast<const scf::Sequence*>(&n)) {
        std::string r = "{ ";
        for (size_t i = 0; i < q->size(); i++) { r += show(q->at(i).first); for (auto& a : q->at(i).second.assignments()) r += "& " + a.first->get_name() + " := " + a.second->__str__() + "; "; }
        return r + "} ";
    }
    if (auto b = dynamic_cast<const scf::Block*>(&n)) return "[" + show(b->dataflow()) + "] ";
    if (auto i = dynamic_cast<const scf::IfElse*>(&n)) { std::string r; for (size_t k = 0; k < i->size(); k++) r += (k ? "elif (" : "if (") + i->at(k).second->__str__() + ") " + show(i->at(k).first); return r; }
    if (auto w = dynamic_cast<const scf::While*>(&n)) return "loop " + show(w->root());
    if (auto l = dynamic_cast<const scf::StructuredLoop*>(&n)) return std::string(dynamic_cast<const scf::Map*>(&n) ? "map" : "for") + " (" + l->indvar()->get_name() + " = " + l->init()->__str__() + "; " + l->condition()->__str__() + "; " + l->update()->__str__() + ") " + show(l->root());
    if (dynamic_cast<const scf::Break*>(&n)) return "break; ";
    if (dynamic_cast<const scf::Continue*>(&n)) return "continue; ";
    if (auto t = dynamic_cast<const scf::Return*>(&n)) return "return " + t->data() + "; ";
    return "? ";
}
inline std::string print(const StructuredSDFG& s) { return show(s.root()); }

// The inputs a program is compared on: only the symbols it mentions vary.
inline std::vector<vp::Env> envs(const std::string& src, bool thorough) {
    vp::Builder m; m.s = src; std::vector<vp::Env> r;
    std::vector<int64_t> one{2};
    auto pick = [&](const char* n, std::vector<int64_t> v, int64_t d) { return m.mentions(n) ? v : std::vector<int64_t>{d}; };
    auto Ns = pick("N", thorough ? std::vector<int64_t>{-1, 0, 1, 2, 3, 4, 5} : std::vector<int64_t>{0, 1, 2, 3, 5}, 3);
    auto Ms = pick("M", thorough ? std::vector<int64_t>{-1, 0, 1, 2, 3, 4} : std::vector<int64_t>{0, 1, 2, 4}, 2);
    auto Ks = pick("K", {-1, 0, 1, 3}, 1);
    auto ps = pick("p", {-1, 0, 2}, 2), qs = pick("q", {-1, 3}, -1);
    std::vector<int64_t> fills{0, 1}; if (thorough) fills.push_back(2);
    for (auto N : Ns) for (auto M : Ms) for (auto K : Ks) for (auto p : ps) for (auto q : qs) for (auto f : fills) { vp::Env e; e.N = N; e.M = M; e.K = K; e.p = p; e.q = q; e.fill = (int)f; r.push_back(e); }
    return r;
}
// The original's outcomes, computed once per program.
struct Original {
    std::string src; std::unique_ptr<StructuredSDFG> s; std::vector<vp::Env> es; std::vector<vp::Outcome> out; int defined = 0; bool valid = true; std::string why;
    Original(const std::string& t, bool thorough) : src(t) {
        s = vp::build(t);
        try { s->validate(); } catch (std::exception& e) { valid = false; why = e.what(); return; }
        std::vector<scf::ControlFlowNode*> ns; nodes(s->root(), ns); for (auto* n : ns) maps |= dynamic_cast<scf::Map*>(n) != nullptr;
        for (auto& e : envs(t, thorough)) {
            vp::RaceMonitor rm;
            auto o = vp::run(*s, e, maps ? vp::Prepare([&](vi::Interp& in) { rm.attach(in); }) : vp::Prepare(), 3000);
            if (o.kind != vp::Outcome::Ok || !rm.race.empty()) continue;
            if (maps) {  // the meaning must not depend on the order of the iterations
                auto p = vp::run(*s, e, [](vi::Interp& in) { in.order = vp::reversed; }, 3000);
                if (p.kind != vp::Outcome::Ok || !vp::differs(o, p, *s).empty()) continue;
            }
            es.push_back(e); out.push_back(o); defined++;
        }
    }
    bool maps = false;
    // "" if t behaves the same. Inputs for which excuse() holds are left out; what goes wrong on them ends up in excused.
    mutable std::string excused;
    std::string compare(const StructuredSDFG& t, vp::Prepare prep = {}, std::function<bool(const vp::Env&)> excuse = {}) const {
        excused.clear();
        for (size_t i = 0; i < es.size(); i++) {
            std::string m = "with " + es[i].str();
            auto d = vp::differs(out[i], vp::run(t, es[i], prep, 30000), *s);
            if (d.empty() && maps && !prep) {
                d = vp::differs(out[i], vp::run(t, es[i], [](vi::Interp& in) { in.order = vp::reversed; }, 30000), *s);
                m += " and the iterations of maps reversed";
            }
            if (d.empty()) continue;
            if (excuse && excuse(es[i])) { if (excused.empty()) excused = m + ": " + d; continue; }
            return m + ": " + d;
        }
        return "";
    }
};
}  // namespace vk
