#include "corekit.h"
#include "cleanups.h"
#include <sdfg/passes/dataflow/memlet_linearization.h>
#include <sdfg/passes/dataflow/tasklet_fusion.h>
#include <sdfg/passes/dataflow/trivial_reference_conversion.h>
#include <sdfg/passes/pipeline.h>
#include <sdfg/passes/structured_control_flow/loop_normalization.h>
#include <sdfg/passes/structured_control_flow/pointer_evolution.h>
#include <sdfg/passes/structured_control_flow/unify_loop_exits.h>
#include <sdfg/passes/structured_control_flow/while_to_for_conversion.h>
#include <sdfg/passes/symbolic/symbol_promotion.h>
#include <sdfg/passes/symbolic/type_minimization.h>
using namespace sdfg;
typedef std::function<bool(builder::StructuredSDFGBuilder&, analysis::AnalysisManager&)> Go;
struct P { std::string name; Go go; };
template <class T, class... A> static P pass(const char* n, A... a) { return {n, [a...](builder::StructuredSDFGBuilder& b, analysis::AnalysisManager& m) { T t(a...); return static_cast<passes::Pass&>(t).run(b, m); }}; }
static P pipe(const char* n, passes::Pipeline (*f)()) { return {n, [f](builder::StructuredSDFGBuilder& b, analysis::AnalysisManager& m) { auto p = f(); return p.run(b, m); }}; }
static P twice(const P& a, const P& b) { return {a.name + "+" + b.name, [a, b](builder::StructuredSDFGBuilder& x, analysis::AnalysisManager& m) { bool r = a.go(x, m); return b.go(x, m) && r; }}; }
// A listed defect of WhileToForConversion: a loop that runs its body before its condition became a for that does not run at all on this input.
static bool not_entered(const StructuredSDFG& t, const vp::Env& e) {
    bool r = false; std::map<const void*, int> n;
    vp::run(t, e, [&](vi::Interp& in) {
        in.on_loop = [&](const vi::scf::ControlFlowNode& l, bool enter) { if (!dynamic_cast<const vi::scf::StructuredLoop*>(&l)) return; if (enter) n[&l] = 0; else if (!n[&l]) r = true; };
        in.on_iter = [&](const vi::scf::StructuredLoop& l, int64_t) { n[&l]++; };
    }, 30000);
    return r;
}
static std::vector<P> all(bool thorough) {
    using namespace passes;
    std::vector<P> r{
        pass<BlockFusionPass>("BlockFusion"), pass<TaskletFusionPass>("TaskletFusion"), pass<SequenceFusion>("SequenceFusion"), pass<SymbolPropagation>("SymbolPropagation"),
        pass<DeadCFGElimination>("DeadCFGElimination"), pass<DeadCFGElimination>("DeadCFGElimination(permissive)", true), pass<ConstantPropagation>("ConstantPropagation"),
        pass<DeadDataElimination>("DeadDataElimination"), pass<DeadDataElimination>("DeadDataElimination(permissive)", true), pass<SymbolEvolution>("SymbolEvolution"), pass<SymbolPromotion>("SymbolPromotion"),
        pass<ReferencePropagation>("ReferencePropagation"), pass<DeadReferenceElimination>("DeadReferenceElimination"), pass<ByteReferenceElimination>("ByteReferenceElimination"),
        pass<TrivialReferenceConversionPass>("TrivialReferenceConversion"), pass<TrivialArrayElimination>("TrivialArrayElimination"), pass<MemletLinearizationPass>("MemletLinearization"),
        pass<TypeMinimizationPass>("TypeMinimization"), pass<CommonAssignmentElimination>("CommonAssignmentElimination"),
        pass<PointerEvolution>("PointerEvolution"), pass<ConditionEliminationPass>("ConditionElimination"), pass<LoopNormalizationPass>("LoopNormalization"), pass<WhileToForConversion>("WhileToForConversion"),
        pass<AllocationManagementPass>("AllocationManagement"),
    };
    size_t n = r.size();
    if (thorough) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j) r.push_back(twice(r[i], r[j]));
    r.push_back(pipe("dataflow_simplification", Pipeline::dataflow_simplification)); r.push_back(pipe("symbolic_simplification", Pipeline::symbolic_simplification));
    r.push_back(pipe("dead_code_elimination", Pipeline::dead_code_elimination)); r.push_back(pipe("expression_combine", Pipeline::expression_combine));
    r.push_back(pipe("memlet_combine", Pipeline::memlet_combine)); r.push_back(pipe("controlflow_simplification", Pipeline::controlflow_simplification));
    r.push_back(pipe("data_parallelism", Pipeline::data_parallelism)); r.push_back(pipe("memory", Pipeline::memory)); r.push_back(pipe("map_fusion", Pipeline::map_fusion));
    return r;
}
static void space(vc::Run& r) {
    vk::init();
    // thorough: the pairs of passes over the quick programs, then the single passes over all programs
    for (int round = r.thorough ? 0 : 1; round < 2; round++) for (auto& tmpl : cleanups()) {
        static const auto single = all(false), pairs = all(true);
        auto& ps = round == 0 ? pairs : single;
        vp::Template t(tmpl, r.thorough && round == 1);
        for (int64_t k = 0; k < t.size(); k++) {
            std::string src = t.at(k);
            r.kase([&] { return src; }, [&] {
                vk::Original o(src, r.thorough && round == 1);
                if (!o.valid) { r.count(vc::Run::AUX0); return; }
                if (!o.defined) { r.count(vc::Run::AUX0 + 1); return; }
                std::set<std::string> seen{vk::print(*o.s)};
                bool unreachable = src.find("return; A") != std::string::npos;  // no analysis covers what follows a return: only its removal is asked for
                for (auto& p : ps) {
                    if (unreachable && p.name.rfind("DeadCFG", 0) != 0) continue;
                    r.alive(); r.count(vc::Run::AUX0 + 2);
                    auto s = vp::build(src);
                    builder::StructuredSDFGBuilder b(*s);
                    analysis::AnalysisManager am(*s);
                    std::string d, out; bool changed = false;
                    try {
                        int n = 0;
                        while (p.go(b, am)) { changed = true; if (++n > 30) { d = "it does not come to rest"; break; } }
                        s->validate(); out = vk::print(*s);
                    } catch (std::exception& e) { d = std::string("it threw ") + e.what(); }
                    if (d.empty() && !changed && out == vk::print(*o.s)) continue;
                    r.count(vc::Run::AUX0 + 3);
                    if (d.empty() && !seen.insert(out).second) continue;  // a result that was compared before
                    r.count(vc::Run::TRANS, o.defined);
                    bool w2f = p.name.find("WhileToFor") != std::string::npos;
                    if (d.empty()) d = o.compare(*s, {}, w2f ? std::function<bool(const vp::Env&)>([&](const vp::Env& e) { return not_entered(*s, e); }) : nullptr);
                    if (w2f && !o.excused.empty()) { r.report("WhileToForConversion.not-entered", p.name + ": " + o.excused + "\nprogram: " + src + "\nresult: " + out); seen.erase(out); }
                    r.nontrivial(vc::hash_str(p.name + src)); r.outcome(vc::hash_str(out));
                    if (!d.empty()) { r.report(p.name + "|" + src, d + "\nresult: " + out); seen.erase(out); }
                }
            });
        }
    }
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every program of the grammar x every clean-up pass and pipeline (thorough: and every ordered pair of passes), each repeated until it changes nothing, x every input; counted when it changes the program";
    o.extra_counters = {{8, "invalid_programs"}, {9, "programs_without_defined_input"}, {10, "passes_run"}, {11, "changed"}};
    o.hang_s = 10;
    return vc::main_impl(argc, argv, space, o);
}
