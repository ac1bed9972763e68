#include "corekit.h"
#include "nests.h"
#include <sdfg/transformations/loop_distribute.h>
#include <sdfg/transformations/loop_interchange.h>
#include <sdfg/transformations/loop_skewing.h>
#include <sdfg/transformations/loop_tiling.h>
#include <sdfg/transformations/map_fusion.h>
#include <sdfg/transformations/out_local_storage.h>
using namespace sdfg;
typedef std::unique_ptr<transformations::Transformation> TP;
// Two listed defects; an input counts as one of them only if the original program, run on it, does what the defect is about.
// LoopInterchange: a sequential outer loop that depends on itself across iterations of the inner map.
static bool crossing(const std::string& src, const vp::Env& e, size_t outer, size_t inner) {
    auto s = vp::build(src); auto ls = vk::loops(*s); const void *lo = ls[outer], *li = ls[inner];
    bool map = dynamic_cast<vk::scf::Map*>(ls[inner]);  // its iterations may run in any order
    struct Acc { long i, j; bool w; };
    std::map<uint64_t, std::vector<Acc>> acc; std::set<uint64_t> local; long i = 0, j = 0; bool in_o = false, in_i = false;
    vp::run(*s, e, [&](vi::Interp& in) {
        auto* p = &in;
        in.on_loop = [&](const vi::scf::ControlFlowNode& n, bool enter) { if (&n == lo) { in_o = enter; i = 0; if (enter) acc.clear(); } if (&n == li) { in_i = enter; j = 0; } };
        in.on_iter = [&](const vi::scf::StructuredLoop& l, int64_t v) { if (&l == lo) { i++; j = 0; } if (&l == li) j = v + 1000; };
        in.on_access = [&, p](uint64_t a, size_t n, bool w, const Element* el, const std::string& c) {
            if (!in_o || !in_i || !j || el == li || el == lo) return;
            for (auto& [k, v] : p->var) if ((v >> 32) == (a >> 32) && !p->f.is_external(k)) local.insert(a >> 32);
            for (size_t b = 0; b < n; b++) acc[a + b].push_back({i, j, w});
        };
    }, 3000);
    for (auto& [a, v] : acc) {
        bool priv = local.count(a >> 32);
        if (priv) { Acc last{-1, -1, true}; for (auto& x : v) { if (x.w) last = x; else if (last.i != x.i || last.j != x.j) priv = false; } }
        if (priv) continue;
        for (auto& x : v) for (auto& y : v) if ((x.w || y.w) && x.i < y.i && (map ? x.j != y.j : x.j > y.j)) return true;
    }
    return false;
}
// MapFusion: the second loop reads elements that the first map did not write.
static bool beyond(const std::string& src, const vp::Env& e, size_t first, size_t second) {
    auto s = vp::build(src); auto ls = vk::loops(*s); const void *a1 = ls[first], *a2 = ls[second];
    std::set<uint64_t> wr, objs; bool f1 = false, f2 = false, r = false;
    vp::run(*s, e, [&](vi::Interp& in) {
        auto* p = &in;
        in.on_loop = [&](const vi::scf::ControlFlowNode& n, bool enter) { if (&n == a1) f1 = enter; if (&n == a2) f2 = enter; };
        in.on_access = [&, p](uint64_t a, size_t n, bool w, const Element* el, const std::string&) {
            if (dynamic_cast<const vi::scf::ControlFlowNode*>(el)) return;
            for (size_t b = 0; b < n; b++) {
                if (f1 && w) { wr.insert(a + b); objs.insert(a >> 32); }
                if (f2 && !w && !wr.count(a + b) && (objs.empty() || objs.count(a >> 32))) r = true;
            }
        };
    }, 3000);
    return r;
}
struct Inst { std::string name; std::function<TP(StructuredSDFG&)> make; std::string known; std::function<bool(const vp::Env&)> excuse; };

static std::vector<Inst> instances(const std::string& src, StructuredSDFG& s, bool thorough) {
    std::vector<Inst> r; auto ls = vk::loops(s); size_t n = ls.size();
    auto L = [](StructuredSDFG& t, size_t i) -> structured_control_flow::StructuredLoop& { return *vk::loops(t)[i]; };
    for (size_t i = 0; i < n; i++) {
        std::string I = std::to_string(i);
        r.push_back({"LoopDistribute(" + I + ")", [=](StructuredSDFG& t) { return TP(new transformations::LoopDistribute(L(t, i))); }});
        for (size_t k : thorough ? std::vector<size_t>{2, 3, 4} : std::vector<size_t>{2, 3})
            r.push_back({"LoopTiling(" + I + "," + std::to_string(k) + ")", [=](StructuredSDFG& t) { return TP(new transformations::LoopTiling(L(t, i), k)); }});
        for (auto& c : s.containers())
            r.push_back({"OutLocalStorage(" + I + "," + c + ")", [=](StructuredSDFG& t) { return TP(new transformations::OutLocalStorage(L(t, i), c)); }});
        for (size_t j = 0; j < n; j++) {
            if (i == j) continue;
            std::string J = std::to_string(j);
            if (vk::inside(*ls[i], *ls[j])) {
                r.push_back({"LoopInterchange(" + I + "," + J + ")", [=](StructuredSDFG& t) { return TP(new transformations::LoopInterchange(L(t, i), L(t, j))); },
                             "LoopInterchange.crossing", [=](const vp::Env& e) { return crossing(src, e, i, j); }});
                for (int f : {1, 2, -1})
                    r.push_back({"LoopSkewing(" + I + "," + J + "," + std::to_string(f) + ")", [=](StructuredSDFG& t) { return TP(new transformations::LoopSkewing(L(t, i), L(t, j), f)); }});
            }
            if (auto m = dynamic_cast<structured_control_flow::Map*>(ls[i]))
                r.push_back({"MapFusion(" + I + "," + J + ")", [=](StructuredSDFG& t) { return TP(new transformations::MapFusion(dynamic_cast<structured_control_flow::Map&>(L(t, i)), L(t, j))); },
                             "MapFusion.beyond", [=](const vp::Env& e) { return beyond(src, e, i, j); }});
        }
    }
    return r;
}
static void space(vc::Run& r) {
    vk::init();
    for (auto& tmpl : nests()) {
        vp::Template t(tmpl, r.thorough);
        for (int64_t k = 0; k < t.size(); k++) {
            std::string src = t.at(k);
            r.kase([&] { return src; }, [&] {
                vk::Original o(src, r.thorough);
                if (!o.valid) { r.count(vc::Run::AUX0); return; }
                if (!o.defined) { r.count(vc::Run::AUX0 + 1); return; }
                for (auto& in : instances(src, *o.s, r.thorough)) {
                    r.alive();
                    r.count(vc::Run::AUX0 + 2);
                    auto s = vp::build(src);
                    builder::StructuredSDFGBuilder b(*s);
                    analysis::AnalysisManager am(*s);
                    TP tr = in.make(*s);
                    bool ok;
                    try { ok = tr->can_be_applied(b, am); }
                    catch (std::exception& e) { r.report(in.name + "|" + src, std::string("asking whether it applies threw ") + e.what()); continue; }
                    if (!ok) continue;
                    r.count(vc::Run::AUX0 + 3);
                    r.count(vc::Run::TRANS, o.defined);
                    std::string d;
                    try { tr->apply(b, am); s->validate(); } catch (std::exception& e) { d = std::string("applying it threw ") + e.what(); }
                    if (d.empty()) d = o.compare(*s, {}, in.excuse);
                    if (d.empty() && !o.excused.empty()) r.report(in.known, in.name + " on " + src + ": " + o.excused + "\ntransformed: " + vk::print(*s));
                    r.nontrivial(vc::hash_str(in.name + src));
                    r.outcome(vc::hash_str(vk::print(*s)));
                    if (!d.empty()) r.report(in.name + "|" + src, d + "\ntransformed: " + vk::print(*s));
                }
            });
        }
    }
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every program of the loop-nest grammar x every instance of every loop transformation x every input; counted when the transformation reports that it applies";
    o.extra_counters = {{8, "invalid_programs"}, {9, "programs_without_defined_input"}, {10, "instances"}, {11, "applied"}};
    o.hang_s = 10;
    return vc::main_impl(argc, argv, space, o);
}
