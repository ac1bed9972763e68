// C33: optimization passes and the polyhedral transformation against the reference interpreter.
#include "corekit.h"
#include "nests.h"
#include <sdfg/passes/normalization/normalization.h>
#include <sdfg/passes/opt_pipeline.h>
#include <sdfg/passes/scheduler/highway_scheduler.h>
#include <sdfg/passes/scheduler/loop_scheduling_pass.h>
#include <sdfg/passes/scheduler/omp_scheduler.h>
#include <sdfg/passes/scheduler/polly_scheduler.h>
#include <sdfg/passes/scheduler/scheduler_registry.h>
#include <sdfg/transformations/polly_transform.h>
using namespace sdfg;
typedef std::function<bool(builder::StructuredSDFGBuilder&, analysis::AnalysisManager&)> Go;
struct P { std::string name; Go go; bool once = false; };
static std::vector<P> all(StructuredSDFG& s) {
    using namespace passes; typedef builder::StructuredSDFGBuilder B; typedef analysis::AnalysisManager A;
    std::vector<P> r{
        {"PerfectLoopDistribution", [](B& b, A& m) { normalization::PerfectLoopDistributionPass p; return p.run(b, m); }},
        {"StrideMinimization", [](B& b, A& m) { normalization::StrideMinimization p; return p.run(b, m); }},
        {"loop_normalization", [](B& b, A& m) { auto p = normalization::loop_normalization(); return p.run(b, m); }},
        {"code_motion", [](B& b, A& m) { auto p = code_motion(); return p.run(b, m); }},
        {"schedule(openmp)", [](B& b, A& m) { scheduler::LoopSchedulingPass p({"openmp"}, nullptr); return p.run(b, m); }, true},
        {"schedule(highway)", [](B& b, A& m) { scheduler::LoopSchedulingPass p({"highway"}, nullptr); return p.run(b, m); }, true},
        {"schedule(highway,openmp)", [](B& b, A& m) { scheduler::LoopSchedulingPass p({"highway", "openmp"}, nullptr); return p.run(b, m); }, true},
    };
    size_t n = vk::loops(s).size();
    for (size_t i = 0; i < n; i++) for (bool t : {false, true}) r.push_back({"PollyTransform(" + std::to_string(i) + (t ? ",tile" : "") + ")", [=](B& b, A& m) {
        transformations::PollyTransform p(*vk::loops(b.subject())[i], t); if (!p.can_be_applied(b, m)) return false; p.apply(b, m); return true; }, true});
    r.push_back({"PollyTransform(0)twice", [=](B& b, A& m) {
        for (int k = 0; k < 2; k++) {
            auto l = vk::loops(b.subject());
            if (l.empty()) return k > 0;
            transformations::PollyTransform p(*l[0], k); if (!p.can_be_applied(b, m)) return k > 0;
            p.apply(b, m); m.invalidate_all();
        }
        return true; }, true});
    return r;
}
static void space(vc::Run& r) {
    vk::init();
    using namespace passes::scheduler;
    SchedulerRegistry::instance().register_loop_scheduler<OMPScheduler>(OMPScheduler::target()); SchedulerRegistry::instance().register_loop_scheduler<HighwayScheduler>(HighwayScheduler::target());
    for (auto& tmpl : nests()) {
        vp::Template t(tmpl, r.thorough);
        for (int64_t k = 0; k < t.size(); k++) {
            std::string src = t.at(k);
            r.kase([=] { return src; }, [=, &r] {
                vk::Original o(src, r.thorough);
                if (!o.valid) { r.count(vc::Run::AUX0); return; }
                if (!o.defined) { r.count(vc::Run::AUX0 + 1); return; }
                std::set<std::string> seen{vk::print(*o.s)};
                for (auto& p : all(*o.s)) {
                    r.alive(); r.count(vc::Run::AUX0 + 2);
                    auto s = vp::build(src); builder::StructuredSDFGBuilder b(*s); analysis::AnalysisManager am(*s);
                    std::string d, out; bool changed = false;
                    try {
                        int n = 0;
                        while (p.go(b, am)) { changed = true; if (p.once) break; if (++n > 30) { d = "it does not come to rest"; break; } }
                        s->validate(); out = vk::print(*s);
                    } catch (std::exception& e) { d = std::string("it threw ") + e.what(); }
                    if (d.empty() && !changed && out == vk::print(*o.s)) continue;
                    r.count(vc::Run::AUX0 + 3);
                    if (d.empty() && !seen.insert(out).second) continue;
                    r.count(vc::Run::TRANS, o.defined);
                    if (d.empty()) d = o.compare(*s, {});
                    r.nontrivial(vc::hash_str(p.name + src)); r.outcome(vc::hash_str(out));
                    if (!d.empty()) { r.report(p.name + "|" + src, d + "\nresult: " + out); seen.erase(out); }
                }
            });
        }
    }
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every program of the loop-nest grammar x every optimization pass and polyhedral transformation x every input; counted when it changes the program";
    o.extra_counters = {{8, "invalid_programs"}, {9, "programs_without_defined_input"}, {10, "passes_run"}, {11, "changed"}};
    o.hang_s = 20;
    return vc::main_impl(argc, argv, space, o);
}
