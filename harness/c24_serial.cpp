// C24: a program written to JSON and read again, and a cloned program, is the same program.
#include "cleanups.h"
#include "nests.h"
#include "cgtypes.h"
#include "cgexprs.h"
#include "libzoo.h"
#include <sdfg/deepcopy/structured_sdfg_deep_copy.h>
#include <sdfg/targets/omp/schedule.h>
using namespace sdfg; using PT = types::PrimitiveType;
struct Def { std::string name; std::function<std::unique_ptr<StructuredSDFG>()> make; bool runs = false; };
static std::vector<Def> defs;
typedef nlohmann::json J;

// every element gets debug information of its own
static void mark(J& j, int& n) {
    if (j.is_object()) { if (j.contains("debug_info")) { int k = ++n; j["debug_info"] = {{"has", true}, {"filename", "f" + std::to_string(k % 7) + ".c"}, {"function", "g" + std::to_string(k % 5)}, {"start_line", k}, {"start_column", k % 11}, {"end_line", k + 2}, {"end_column", k % 13}}; if (j.contains("end_column")) for (auto f : {"has", "filename", "start_line", "start_column", "end_line", "end_column"}) j[f] = j["debug_info"][f]; /* one operation repeats them */ } for (auto& x : j.items()) if (x.key() != "debug_info") mark(x.value(), n); }
    else if (j.is_array()) for (auto& x : j) mark(x, n);
}
static std::unique_ptr<StructuredSDFG> load(const J& j) { auto k = J::parse(j.dump()); serializer::JSONSerializer s; return s.deserialize(k); }
// The order of structures, nodes and edges is not part of a document's meaning.
static void canon(J& j) {
    if (j.is_array()) { for (auto& x : j) canon(x); return; }
    if (!j.is_object()) return;
    for (auto& [k, x] : j.items()) { canon(x); if (x.is_array() && (k == "structures" || k == "nodes" || k == "edges" || k == "assignments")) { std::vector<J> v(x.begin(), x.end()); std::string by = k == "structures" ? "name" : k == "assignments" ? "symbol" : "element_id"; std::sort(v.begin(), v.end(), [&](const J& a, const J& b) { return a.at(by) < b.at(by); }); x = v; } }
}
static bool same(J a, J b) { if (a == b) return true; canon(a); canon(b); return a == b; }
// where two documents differ
static std::string where(J a, J b) { canon(a); canon(b); auto d = J::diff(a, b); return d.empty() ? "" : d[0].dump().substr(0, 160); }
static std::string ids(const StructuredSDFG& s) {
    std::set<size_t> seen; std::string bad;
    auto one = [&](const Element& e) { if (!seen.insert(e.element_id()).second) bad = "element id " + std::to_string(e.element_id()) + " is used twice"; };
    std::vector<structured_control_flow::ControlFlowNode*> v; vk::nodes(const_cast<StructuredSDFG&>(s).root(), v);
    for (auto* n : v) {
        one(*n); if (auto q = dynamic_cast<structured_control_flow::Sequence*>(n)) for (size_t i = 0; i < q->size(); i++) one(q->at(i).second);
        if (auto b = dynamic_cast<structured_control_flow::Block*>(n)) { for (auto& x : b->dataflow().nodes()) one(x); for (auto& x : b->dataflow().edges()) one(x); }
    }
    if (!seen.empty() && *seen.rbegin() > s.element_counter()) bad = "an element id is above the counter";
    return bad;
}
// Two programs differ: only in the type inside a sizeof()?
template <class F> std::string changed(const char* what, const StructuredSDFG& a, const StructuredSDFG& b, F text) {
    auto x = text(a), y = text(b); if (x == y) return "";
    dp::untyped_sizeof = true; bool only = text(a) == text(b); dp::untyped_sizeof = false;
    return std::string(what) + (only ? ": sizeof() loses its type" : ": " + dp::diff(x, y));
}
static std::string roundtrip(const StructuredSDFG& s, std::unique_ptr<StructuredSDFG>& lm) {
    serializer::JSONSerializer js; J m = js.serialize(s), b; auto bad = ids(s); if (!bad.empty()) return bad;
    // clone() saves and loads the program as it is
    { auto c = s.clone(); bad = changed("clone()", s, *c, [](auto& p) { return dp::all(p); }); if (!bad.empty()) return bad; }
    // loading, with debug information everywhere
    int n = 0; mark(m, n); lm = load(m); bad = changed("loading", s, *lm, [](auto& p) { return dp::frame(p) + dp::flow(p.root(), {true, false}); }); if (!bad.empty()) return bad;
    b = js.serialize(*lm); if (!same(m, b)) return "saving again: " + where(m, b);
    return "";
}
static std::string copies(const StructuredSDFG& s, std::unique_ptr<StructuredSDFG>& loaded, long& n) {
    serializer::JSONSerializer js; dp::Opt o{false, false};
    // new elements of a loaded program get new ids
    builder::StructuredSDFGBuilder b(loaded); std::vector<structured_control_flow::ControlFlowNode*> v; vk::nodes(b.subject().root(), v);
    for (size_t i = 1; i < v.size(); i++) for (int form = 0; form < 2; form++) {
        auto& src = *v[i];
        auto q = dynamic_cast<structured_control_flow::Sequence*>(&src); if (form && !q) continue;
        auto before = dp::flow(src, {true, true});
        auto& dst = b.add_sequence(b.subject().root()); deepcopy::StructuredSDFGDeepCopy d(b, dst, src); auto map = form ? d.insert() : d.copy(); n++;
        if (dp::flow(src, {true, true}) != before) return "copying changes the source";
        auto x = form ? dp::sequence(*q, o) : dp::flow(src, o), y = form ? dp::sequence(dst, o) : dp::flow(dst.at(0).first, o);
        if (x != y) return "copy of " + x.substr(0, 30) + ": " + dp::diff(x, y);
        std::vector<structured_control_flow::ControlFlowNode*> in; vk::nodes(src, in); std::vector<structured_control_flow::ControlFlowNode*> out; vk::nodes(dst, out); std::set<const structured_control_flow::ControlFlowNode*> outs(out.begin(), out.end()), hit;
        for (auto& [f, t] : map) { if (!outs.count(t) || !hit.insert(t).second) return "the mapping of a copy leads outside of it, or twice to one node"; if (dp::flow(*f, o) != dp::flow(*t, o)) return "the mapping of a copy leads to a different node: " + dp::diff(dp::flow(*f, o), dp::flow(*t, o)); }
        for (auto* f : in) if (f != &src && !map.count(f)) if (!dynamic_cast<structured_control_flow::Sequence*>(f)) return "a node is missing from the mapping of a copy";
    }
    auto bad = ids(b.subject()); if (!bad.empty()) return "after the copies " + bad;
    // a copy of the root in an empty program
    J e = js.serialize(s); e["root"]["children"] = J::array(); e["root"]["transitions"] = J::array(); auto ep = load(e); builder::StructuredSDFGBuilder eb(ep);
    deepcopy::StructuredSDFGDeepCopy d(eb, eb.subject().root(), const_cast<StructuredSDFG&>(s).root()); d.insert(); n++;
    auto x = dp::sequence(s.root(), o), y = dp::sequence(eb.subject().root(), o); if (x != y) return "copy into another program: " + dp::diff(x, y);
    return "";
}
static std::string behaviour(const StructuredSDFG& s, const StructuredSDFG& l, const std::string& src, long& n) {
    auto es = vk::envs(src, false); size_t k = 0;
    for (auto& e : es) { if (k++ >= 6) break; auto a = vp::run(s, e); n++; if (a.kind != vp::Outcome::Ok) continue; auto b = vp::run(l, e); auto d = vp::differs(a, b, s); if (!d.empty()) return "with " + e.str() + ": " + d; }
    return "";
}

static void types_zoo() {
    using ST = types::StorageType; auto N = symbolic::symbol("N"), M = symbolic::symbol("M");
    std::vector<ST> ss{ST::CPU_Stack(), ST::CPU_Heap(N, ST::Managed, ST::Managed), ST::CPU_Heap(symbolic::mul(N, symbolic::integer(8)), ST::Managed, ST::Unmanaged), ST("CPU_Stack", N, ST::Managed, ST::Unmanaged), ST("NV_Generic", symbolic::add(N, M), ST::Unmanaged, ST::Managed), ST("NV_Shared"), ST("made up")};
    { ST x("Huge"); x.arg1(symbolic::integer(4096)); ss.push_back(x); ST y = ss[1]; y.arg1(N); ss.push_back(y); }
    std::vector<std::unique_ptr<types::IType>> level;
    for (auto p : {PT::Void, PT::Bool, PT::Int8, PT::Int16, PT::Int32, PT::Int64, PT::Int128, PT::UInt8, PT::UInt16, PT::UInt32, PT::UInt64, PT::UInt128, PT::Half, PT::BFloat, PT::Float, PT::Double, PT::X86_FP80, PT::FP128, PT::PPC_FP128}) level.push_back(types::Scalar(p).clone());
    std::vector<std::unique_ptr<types::IType>> all; auto put = [&](const types::IType& t) { all.push_back(t.clone()); };
    types::Scalar i64(PT::Int64), f64(PT::Double), v(PT::Void);
    for (auto& t : level) { put(*t); put(types::Pointer(*t)); put(types::Array(*t, N)); }
    int k = 0;
    for (auto& s : ss) for (size_t al : {0, 8}) for (std::string in : {"", "{}", "\"q\"\\"}) {
        put(types::Scalar(s, al, in, PT::Int64)); put(types::Pointer(s, al, in, f64)); put(types::Pointer(s, al, in)); put(types::Array(s, al, in, i64, symbolic::add(N, symbolic::one()))); put(types::Structure(s, al, in, "St"));
        { types::Function f(s, al, in, v, k++ % 2); f.add_param(i64); f.add_param(types::Pointer(f64)); put(f); put(types::Function(s, al, in, f64, false)); }
        put(types::Tensor(s, al, in, f64, {N, symbolic::integer(4)}, {symbolic::integer(4), symbolic::one()}, M)); put(types::Tensor(s, al, in, i64, {}, {}, symbolic::zero()));
        put(types::Array(s, al, in, types::Array(ss[(al + in.size()) % ss.size()], 4, "x", types::Pointer(s, 2, "y", types::Structure("St")), M), symbolic::div(N, M)));
        put(types::Pointer(s, al, in, types::Array(i64, symbolic::mul(N, M))));
    }
    put(codegen::Reference(i64)); put(codegen::Reference(types::Pointer(f64)));
    auto shared = std::make_shared<std::vector<std::unique_ptr<types::IType>>>(std::move(all));
    for (size_t i = 0; i < shared->size(); i++) for (int role = 0; role < 5; role++) if (role > 2 || !dynamic_cast<types::Tensor*>((*shared)[i].get())) defs.push_back({"type " + (*shared)[i]->print() + " no. " + std::to_string(i) + " as " + std::vector<std::string>{"container", "argument", "external", "member", "memlet, constant and return"}[role], [=] {
        auto& t = *(*shared)[i]; builder::StructuredSDFGBuilder b("prog", FunctionType_CPU, role == 4 ? t : (const types::IType&)v);
        { auto& d = b.add_structure("St", i % 2); d.add_member(role == 3 ? t : (const types::IType&)i64); d.add_member(f64); } b.add_structure("Empty", i % 3 == 0);
        b.add_container("N", i64, true); b.add_container("M", i64);
        if (role == 0) b.add_container("X", t); if (role == 1) b.add_container("X", t, true); if (role == 2) b.add_external("X", t, i % 2 ? LinkageType_Internal : LinkageType_External);
        if (role == 4) { b.add_container("A", types::Pointer(i64), true); b.add_container("P", types::Pointer(i64)); auto& k = b.add_block(b.subject().root());
            if (auto sc = dynamic_cast<const types::Scalar*>(&t); sc && t.primitive_type() != PT::Void) {
                auto& c = b.add_constant(k, "7", t); auto& a = b.add_access(k, "A"); auto& o = b.add_access(k, "A"); bool in = types::is_integer(t.primitive_type()); types::Pointer pt(t);
                auto& x = b.add_tasklet(k, in ? data_flow::TaskletCode::int_add : data_flow::TaskletCode::assign, "_out", in ? std::vector<std::string>{"_a", "_b"} : std::vector<std::string>{"_b"});
                if (in) b.add_computational_memlet(k, a, x, "_a", {N}, pt); b.add_computational_memlet(k, c, x, "_b", {}, t); b.add_computational_memlet(k, x, "_out", o, {symbolic::add(M, N)}, pt);
            } else b.add_reference_memlet(k, b.add_access(k, "A"), b.add_access(k, "P"), {N}, types::Pointer(t));
            b.add_constant_return(b.subject().root(), "7", t); }
        return b.move();
    }});
}
static void misc() {
    types::Scalar i64(PT::Int64), v(PT::Void); types::Pointer p64{(const types::IType&)i64}; auto N = symbolic::symbol("N"), i = symbolic::symbol("i");
    for (auto& e : zoo::entries()) defs.push_back({"library operation " + e.name, [e] { return zoo::program(e); }});
    for (auto& e : zoo::entries()) if (e.name.find("dot") == 0 || e.name.find("mem") == 0 || e.name.find("sum") == 0) for (auto impl : {"MPI", "CUBLAS \"x\""}) defs.push_back({"library operation " + e.name + " by " + impl, [e, impl] { return zoo::program(e, impl); }});
    std::vector<structured_control_flow::ScheduleType> sch{structured_control_flow::ScheduleType_Sequential::create(), omp::ScheduleType_OMP::create()};
    { auto x = omp::ScheduleType_OMP::create(); omp::ScheduleType_OMP::num_threads(x, N); sch.push_back(x); omp::ScheduleType_OMP::omp_schedule(x, omp::OpenMPSchedule::Dynamic); sch.push_back(x); auto y = structured_control_flow::ScheduleType("made up", structured_control_flow::ScheduleTypeCategory::Offloader); y.set_property("b", "2"); y.set_property("a", "1"); sch.push_back(y); y.set_property("a", "\"\\"); sch.push_back(y); for (auto c : {structured_control_flow::ScheduleTypeCategory::Parallelizer, structured_control_flow::ScheduleTypeCategory::Vectorizer, structured_control_flow::ScheduleTypeCategory::None}) sch.push_back(structured_control_flow::ScheduleType("other", c)); }
    for (size_t a = 0; a < sch.size(); a++) for (size_t c = 0; c < sch.size(); c++) defs.push_back({"schedules " + std::to_string(a) + "," + std::to_string(c), [=] { builder::StructuredSDFGBuilder b("prog", FunctionType_CPU, v); b.add_container("N", i64, true); b.add_container("i", i64); b.add_container("j", i64); auto& m = b.add_map(b.subject().root(), i, symbolic::Lt(i, N), symbolic::zero(), symbolic::add(i, symbolic::one()), sch[a]); auto j = symbolic::symbol("j"); b.add_map(m.root(), j, symbolic::Lt(j, N), symbolic::zero(), symbolic::add(j, symbolic::integer(2)), sch[c], {{N, i}}); return b.move(); }});
    for (auto& ft : {FunctionType_CPU, FunctionType_NV_GLOBAL}) for (int meta = 0; meta < 3; meta++) defs.push_back({"function " + std::string(ft.value()) + " with metadata " + std::to_string(meta), [=] { builder::StructuredSDFGBuilder b("p_1", ft, v); if (meta) b.subject().add_metadata("k", "v"); if (meta > 1) b.subject().add_metadata("", "\"\n\\"); return b.move(); }});
    // argument orders
    std::vector<std::string> names{"z", "b", "a"}; std::sort(names.begin(), names.end());
    do defs.push_back({"arguments " + names[0] + names[1] + names[2], [=] { builder::StructuredSDFGBuilder b("prog", FunctionType_CPU, v); for (auto& n : names) b.add_container(n, i64, true); for (auto& n : names) b.add_external("e" + n, i64, n == "a" ? LinkageType_Internal : LinkageType_External); return b.move(); }}); while (std::next_permutation(names.begin(), names.end()));
}
static void space(vc::Run& r) {
    vk::init(); defs.clear();
    static std::vector<tk::Kernel> kernels; static std::vector<se::Item> syms; static std::vector<ty::Case> cases;
    types_zoo(); misc();
    kernels = tk::kernels(r.thorough); for (size_t i = 0; i < kernels.size(); i++) defs.push_back({tk::text(kernels[i]), [i] { return tk::build(kernels[i]); }});
    syms = se::items(r.thorough); for (size_t i = 0; i < syms.size(); i++) defs.push_back({se::text(syms[i]), [i] { return se::build(syms[i]); }});
    cases = ty::cases(r.thorough); for (size_t i = 0; i < cases.size(); i++) defs.push_back({cases[i].name, [i] { return cases[i].make(i); }});
    for (auto* set : {&cleanups, &nests}) for (auto& t : (*set)()) { vp::Template x(t, r.thorough); for (int64_t k = 0; k < x.size(); k++) { auto src = x.at(k); defs.push_back({src, [src] { return vp::build(src); }, true}); } }
    for (auto& d : defs) r.kase([&] { return d.name; }, [&] {
        std::unique_ptr<StructuredSDFG> s; try { s = d.make(); } catch (std::exception& e) { if (!d.runs) throw; r.count(vc::Run::AUX0); return; }
        long n = 0; std::string m; std::unique_ptr<StructuredSDFG> l;
        try { m = roundtrip(*s, l); } catch (std::exception& e) { m = std::string("throws ") + e.what(); }
        if (!m.empty()) r.report(m.find("sizeof() loses") != std::string::npos ? "json.sizeof" : "json|" + d.name, m);
        if (l) {
            if (d.runs) { m = behaviour(*s, *l, d.name, n); if (!m.empty()) r.report("run|" + d.name, m); }
            m = ""; try { m = copies(*s, l, n); } catch (std::exception& e) { m = std::string("throws ") + e.what(); }
            if (!m.empty()) r.report("copy|" + d.name, m);
        }
        r.count(vc::Run::TRANS, n + 4); r.nontrivial(vc::hash_str(d.name));
    });
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every program of the families (control flow, data flow, tasklets, symbolic expressions, types in every role, library operations, schedules, linkage, metadata) x {JSON, clone(), JSON with debug information, deep copy of every node, both forms}";
    o.extra_counters = {{8, "invalid_programs"}};
    return vc::main_impl(argc, argv, space, o);
}
