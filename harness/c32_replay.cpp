// C32: transformations saved to JSON and applied to a copy of the program, against applying them directly.
#include "corekit.h"
#include "dump.h"
#include "nests.h"
#include <fstream>
#include <sdfg/serializer/json_serializer.h>
#include <sdfg/transformations/loop_distribute.h>
#include <sdfg/transformations/loop_interchange.h>
#include <sdfg/transformations/loop_skewing.h>
#include <sdfg/transformations/loop_tiling.h>
#include <sdfg/transformations/map_fusion.h>
#include <sdfg/transformations/out_local_storage.h>
#include <sdfg/transformations/omp_transform.h>
#include <sdfg/transformations/highway_transform.h>
#include <sdfg/transformations/polly_transform.h>
#include <sdfg/transformations/offloading/cuda_transform.h>
#include <sdfg/transformations/offloading/gpu_tiling.h>
#include <sdfg/transformations/offloading/gpu_loop_reordering.h>
#include <sdfg/transformations/offloading/gpu_condition_propagation.h>
#include <sdfg/transformations/offloading/cuda_parallelize_nested_map.h>
#include <sdfg/transformations/offloading/kernel_local_storage.h>
#include <sdfg/transformations/recorder.h>
#include <sdfg/transformations/replayer.h>
using namespace sdfg; namespace tr = transformations; namespace scf = structured_control_flow;
typedef nlohmann::json J; typedef std::unique_ptr<tr::Transformation> TP; typedef builder::StructuredSDFGBuilder Bld; typedef analysis::AnalysisManager AM;
struct Inst {
    std::string name, type;
    std::function<TP(StructuredSDFG&)> make;
    std::function<void(StructuredSDFG&, tr::Recorder&, Bld&, AM&, bool)> record;
    std::function<TP(Bld&, const J&)> load;
    std::function<void(tr::Replayer&, Bld&, AM&, const J&, bool)> replay1;
};
static scf::StructuredLoop& L(StructuredSDFG& t, size_t i) { return *vk::loops(t)[i]; }
static scf::Map& M(StructuredSDFG& t, size_t i) { return dynamic_cast<scf::Map&>(L(t, i)); }
template<class T, class F> static void put(std::vector<Inst>& r, const std::string& type, const std::string& args, F with) {
    Inst x; x.type = type; x.name = type + "(" + args + ")";
    x.make = [=](StructuredSDFG& s) { TP p; with(s, [&](auto&&... a) { p.reset(new T(a...)); }); return p; };
    x.record = [=](StructuredSDFG& s, tr::Recorder& rec, Bld& b, AM& am, bool skip) { with(s, [&](auto&&... a) { rec.apply<T>(b, am, skip, a...); }); };
    x.load = [](Bld& b, const J& j) { return TP(new T(T::from_json(b, j))); };
    x.replay1 = [](tr::Replayer& p, Bld& b, AM& am, const J& j, bool skip) { p.apply<T>(b, am, j, skip); };
    r.push_back(x);
}
// several: the program; the order in which PollyTransform takes independent statements is not fixed
static std::vector<Inst> instances(StructuredSDFG& s, const std::string& several, bool first = true) {
    std::vector<Inst> r; auto ls = vk::loops(s); size_t n = ls.size();
    for (size_t i = 0; i < n; i++) {
        std::string I = std::to_string(i); bool map = dynamic_cast<scf::Map*>(ls[i]);
        put<tr::LoopDistribute>(r, "LoopDistribute", I, [=](StructuredSDFG& t, auto f) { f(L(t, i)); });
        for (size_t k : {2, 3}) put<tr::LoopTiling>(r, "LoopTiling", I + "," + std::to_string(k), [=](StructuredSDFG& t, auto f) { f(L(t, i), k); });
        for (auto& c : s.containers()) put<tr::OutLocalStorage>(r, "OutLocalStorage", I + "," + c, [=](StructuredSDFG& t, auto f) { f(L(t, i), c); });
        if (first && several.find(", ") == several.npos) for (bool k : {false, true}) put<tr::PollyTransform>(r, "PollyTransform", I + (k ? ",tile" : ""), [=](StructuredSDFG& t, auto f) { f(L(t, i), k); });
        if (map) {
            put<tr::OMPTransform>(r, "OMPTransform", I, [=](StructuredSDFG& t, auto f) { f(M(t, i)); });
            put<tr::HighwayTransform>(r, "HighwayTransform", I, [=](StructuredSDFG& t, auto f) { f(M(t, i)); });
            for (auto [k, d] : {std::pair(32, false), std::pair(64, true)}) put<cuda::CUDATransform>(r, "CUDATransform", I + "," + std::to_string(k) + (d ? ",dynamic" : ""), [i, k = k, d = d](StructuredSDFG& t, auto f) { f(M(t, i), k, d); });
            put<tr::GPULoopReordering>(r, "GPULoopReordering", I, [=](StructuredSDFG& t, auto f) { f(M(t, i)); });
            put<tr::GPUConditionPropagation>(r, "GPUConditionPropagation", I, [=](StructuredSDFG& t, auto f) { f(M(t, i)); });
            put<tr::CUDAParallelizeNestedMap>(r, "CUDAParallelizeNestedMap", I, [=](StructuredSDFG& t, auto f) { f(M(t, i), size_t(8)); });
        }
        put<tr::GPUTiling>(r, "GPUTiling", I + ",4", [=](StructuredSDFG& t, auto f) { f(L(t, i), size_t(4)); });
        if (!map) for (auto& c : s.arguments()) for (bool z : {true, false}) put<tr::KernelLocalStorage>(r, "KernelLocalStorage", I + "," + c + (z ? "" : ",+1"), [=](StructuredSDFG& t, auto f) { f(L(t, i), z ? symbolic::Expression(symbolic::integer(0)) : symbolic::Expression(symbolic::add(L(t, i).indvar(), symbolic::integer(1))), c); });
        for (size_t j = 0; j < n; j++) {
            if (i == j) continue; std::string K = I + "," + std::to_string(j);
            if (vk::inside(*ls[i], *ls[j])) {
                put<tr::LoopInterchange>(r, "LoopInterchange", K, [=](StructuredSDFG& t, auto f) { f(L(t, i), L(t, j)); });
                for (int k : {1, 2, -1}) put<tr::LoopSkewing>(r, "LoopSkewing", K + "," + std::to_string(k), [=](StructuredSDFG& t, auto f) { f(L(t, i), L(t, j), k); });
            }
            if (map) put<tr::MapFusion>(r, "MapFusion", K, [=](StructuredSDFG& t, auto f) { f(M(t, i), L(t, j)); });
        }
    }
    return r;
}
static const std::set<std::string> replayed{"LoopTiling", "LoopDistribute", "LoopInterchange", "OutLocalStorage", "LoopSkewing", "MapFusion"};
// The order and the numbers of the nodes of a block do not matter, those of the loops do: later steps refer to them.
static std::string text(StructuredSDFG& s) { dp::Opt o; o.ids = false; std::string r = dp::frame(s) + dp::flow(s.root(), o) + "loops"; for (auto* l : vk::loops(s)) r += " " + std::to_string(l->element_id()); return r; }
static std::string differs(const std::string& got, const std::string& want) { return got == want ? "" : dp::diff(want, got); }
static std::unique_ptr<StructuredSDFG> reload(StructuredSDFG& s) { serializer::JSONSerializer z; auto j = z.serialize(s); J k = J::parse(j.dump()); return z.deserialize(k); }
struct Space {
    vc::Run& r; std::string src; int depth; std::set<std::string> kinds;
    void bad(const std::string& kind, const std::vector<Inst>& h, const std::string& m) {
        std::string n; for (auto& x : h) n += (n.empty() ? "" : ";") + x.name; std::string t; for (auto& x : h) t += (t.empty() ? "" : ";") + x.type;
        if (kinds.insert(kind + t).second) r.report(kind + "|" + n + "|" + src, n + ": " + m);
    }
    // the program after the transformations, applied directly
    std::unique_ptr<StructuredSDFG> direct(const std::vector<Inst>& h) {
        auto s = vp::build(src); for (auto& x : h) { Bld b(*s); AM am(*s); auto t = x.make(*s); if (!t->can_be_applied(b, am)) return nullptr; t->apply(b, am); } return s;
    }
    void sequence(const std::vector<Inst>& h, const std::string& want) {
        // recorded, with the same analyses throughout
        auto a = vp::build(src); tr::Recorder rec; 
        { Bld b(*a); AM am(*a); for (auto& x : h) { try { x.record(*a, rec, b, am, false); } catch (std::exception& e) { bad("recording", h, std::string("recording it throws ") + e.what()); return; } } }
        std::string d = differs(text(*a), want); if (!d.empty()) { bad("recorded", h, "recording it gives another program than applying it: " + d); return; }
        if (rec.get_history().size() != h.size()) { bad("history", h, "the history has " + std::to_string(rec.get_history().size()) + " entries"); return; }
        std::string path = r.scratch + "/history.json"; rec.save(path); J hist; { std::ifstream in(path); try { hist = J::parse(in); } catch (std::exception& e) { bad("history", h, std::string("the saved history cannot be read: ") + e.what()); return; } }
        if (hist != rec.get_history()) { bad("history", h, "the saved history is another one"); return; }
        bool known = true; for (auto& x : h) known &= replayed.count(x.type) > 0;
        auto orig = vp::build(src);
        for (int way = depth > 1 ? 0 : 1; way < (depth > 1 ? 3 : 2); way++) {  // a clone, the program loaded from JSON, the program built again
            auto c = way == 0 ? orig->clone() : way == 1 ? reload(*orig) : vp::build(src);
            try {
                Bld b(*c); AM am(*c); tr::Replayer p;
                if (known) p.replay(b, am, hist, false);
                else for (size_t i = 0; i < h.size(); i++) { h[i].replay1(p, b, am, hist[i], false); am.invalidate_all(); }
                c->validate();
            } catch (std::exception& e) { bad("replaying", h, std::string("replaying it on ") + (way == 0 ? "a clone" : way == 1 ? "the loaded program" : "the program") + " throws " + e.what()); return; }
            d = differs(text(*c), want); if (!d.empty()) { bad("replayed", h, std::string("replaying it on ") + (way == 0 ? "a clone" : way == 1 ? "the loaded program" : "the program") + " gives another program: " + d); return; }
        }
        r.count(vc::Run::TRACES); r.nontrivial(vc::hash_str(want)); r.outcome(vc::hash_str(hist.dump()));
    }
    void refused(const std::vector<Inst>& h, const Inst& x) {
        auto l = h; l.push_back(x);
        auto s = direct(h); std::string before = text(*s); tr::Recorder rec; bool threw = false; Bld b(*s); AM am(*s);
        try { x.record(*s, rec, b, am, true); } catch (std::exception& e) { bad("refused", l, std::string("skipping it throws ") + e.what()); return; }
        try { x.record(*s, rec, b, am, false); } catch (tr::InvalidTransformationException&) { threw = true; } catch (std::exception& e) { bad("refused", l, std::string("it does not apply, and recording it throws ") + e.what()); return; }
        if (!threw) bad("refused", l, "it does not apply, and recording it does not say so");
        if (rec.get_history().size() != 0) bad("refused", l, "it does not apply and is recorded");
        J desc; try { x.make(*s)->to_json(desc); } catch (std::exception&) { return; }
        tr::Replayer p; threw = false;
        try { x.replay1(p, b, am, desc, true); } catch (std::exception& e) { bad("refused", l, std::string("skipping its replay throws ") + e.what()); return; }
        try { x.replay1(p, b, am, desc, false); } catch (tr::InvalidTransformationException&) { threw = true; } catch (std::exception& e) { bad("refused", l, std::string("it does not apply, and replaying it throws ") + e.what()); return; }
        if (!threw) bad("refused", l, "it does not apply, and replaying it does not say so");
        if (text(*s) != before) bad("refused", l, "it does not apply and the program changed");
    }
    // descriptions of elements that are not there or are something else
    void misfits(const Inst& x) {
        auto s = vp::build(src); J desc; try { x.make(*s)->to_json(desc); } catch (std::exception&) { return; }
        std::set<size_t> loops; for (auto* l : vk::loops(*s)) loops.insert(l->element_id());
        for (size_t id = 0; id <= s->element_counter() + 1; id++) {
            if (loops.count(id)) continue;
            for (auto& [k, v] : desc["subgraph"].items()) {
                J d = desc; d["subgraph"][k]["element_id"] = id; Bld b(*s); bool threw = false; r.alive();
                try { x.load(b, d); } catch (std::exception&) { threw = true; }
                r.count(vc::Run::EVAL);
                if (!threw) { bad("misfit", {x}, "a description of element " + std::to_string(id) + ", which is no loop, is accepted"); return; }
            }
        }
    }
    void explore(const std::vector<Inst>& h) {
        auto s = direct(h); if (!s) return;
        for (auto& x : instances(*s, src, h.empty())) {
            r.alive(); r.count(vc::Run::AUX0);
            auto l = h; l.push_back(x); std::string want;
            try {
                auto t = direct(h); Bld b(*t); AM am(*t); auto p = x.make(*t);
                if (!p->can_be_applied(b, am)) { if (h.empty() && depth > 1) refused(h, x); continue; }
                p->apply(b, am); t->validate(); want = text(*t);
            } catch (std::exception&) { r.count(vc::Run::AUX0 + 2); continue; }  // judged by C26 and C33
            r.count(vc::Run::AUX0 + 1); r.count(vc::Run::EVAL); r.count(vc::Run::TRANS); r.count(vc::Run::STATES);
            sequence(l, want);
            if ((int)l.size() < depth) explore(l);
        }
    }
};
static void space(vc::Run& r) {
    vk::init();
    std::vector<std::pair<std::string, int>> all;
    for (auto x : {
             "$(for|map) i=0..N { $(for|map) j=$(0|i)..M { $(A[5*i+j]|A[j]|T[0]|s) = $(A[5*i+j]|A[5*i+j-4]|B[j]) + 1; } }",
             "$(for|map) i=$(0|1)..$(N|4):$(1|2) { $(A[i]|A[0]|s) = $(B[i]|A[i-1]) + 1; $(C[i]|B[i]) = $(A[i]|s|T[0]) + 2; }",
             "for (i = $(0|M); $(i < N|i <= N|i < N and i < M|i != N); i = $(i+1|i+2)) { $(A[i]|A[0]) = A[i] + 1; }",
             "$(for|map) i=0..N { $(|s = 0;|k := i+1;) for j=0..$(M|i) { $(A[i] = A[i] + B[j];|s = s + B[j];) } $(|C[i] = s + 1;|if (i < M) { C[i] = 1; }) }",
             "$(for|map) i=0..2 { $(for|map) j=0..M { $(for|map) k=0..K { $(A[5*i+j]|C[i+j+k]) = A[5*i+j] + B[k]; } } }",
             "map i=0..$(N|4) { $(T[i]|A[i]|A[2*i]) = B[i] + 1; } $(|s = 3;) $(for|map) j=0..$(N|4) { C[j] = $(T[j]|A[j]|A[j+1]) + s; }"})
        all.push_back({x, 1});
    if (r.thorough) for (auto& x : nests()) all.push_back({x, 1});
    for (auto x : {
             "$(for|map) i=0..N { $(for|map) j=$(0|i)..M { $(A[5*i+j]|A[j]|s) = B[5*i+j] + 1; } }",
             "$(for|map) i=0..$(N|8) { A[i] = B[i] + 1; $(C[i] = A[i] + 2;|) } $(for|map) j=0..$(N|8) { D[j] = $(A[j]|B[j]) + 3; }",
             "map i=0..8 { map j=0..8 { T[j] = B[j] + i; G2[i][j] = T[j] + 1; } }",
             "for i=0..N { for j=0..M { for k=0..K { $(A[5*i+j]|A[i]) = $(A[5*i+j]|A[i]) + B[k]; } } }",
             "if (N > 1) { map i=0..N { A[i] = B[i] + s; } } k := 0; loop { if (k > 2) { break; } for i=0..M { C[0] = C[0] + A[i]; } k := k+1; }"})
        all.push_back({x, r.thorough ? 3 : 2});
    for (auto& [tmpl, depth] : all) {
        vp::Template t(tmpl, r.thorough && depth == 1);
        for (int64_t k = 0; k < t.size(); k++) {
            std::string src = t.at(k);
            r.kase([=] { return src; }, [=, &r] {
                auto s = vp::build(src); try { s->validate(); } catch (std::exception&) { r.count(vc::Run::AUX0 + 3); return; }
                Space x{r, src, depth, {}}; x.explore({});
                if (depth > 1) { std::set<std::string> seen; for (auto& i : instances(*s, src)) if (seen.insert(i.type).second) x.misfits(i); }
            });
        }
    }
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every program of the loop-nest grammar x every transformation instance, and every program of a smaller grammar x every sequence of instances, recorded and replayed on three copies; counted when it applies";
    o.extra_counters = {{8, "instances"}, {9, "sequences"}, {10, "sequences_that_fail_directly"}, {11, "invalid_programs"}};
    o.hang_s = 20;
    return vc::main_impl(argc, argv, space, o);
}
