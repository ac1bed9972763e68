#include "corekit.h"
#include "nests.h"
#include <sdfg/analysis/users.h>
#include <sdfg/passes/structured_control_flow/for2map.h>
using namespace sdfg;

// the k-th way to order n iterations: every permutation of up to three, reversal, rotation, interleaving and halves swapped of more
static std::vector<size_t> nth_order(size_t k, size_t n) {
    std::vector<size_t> v(n); for (size_t i = 0; i < n; i++) v[i] = i;
    if (n <= 3) { for (size_t i = 0; i <= k; i++) std::next_permutation(v.begin(), v.end()); return v; }
    switch (k) {
        case 0: std::reverse(v.begin(), v.end()); break;
        case 1: std::rotate(v.begin(), v.begin() + 1, v.end()); break;
        case 2: { std::vector<size_t> w; for (size_t i = 1; i < n; i += 2) w.push_back(i); for (size_t i = 0; i < n; i += 2) w.push_back(i); v = w; break; }
        case 3: std::rotate(v.begin(), v.begin() + n / 2, v.end()); break;
        default: std::reverse(v.begin() + 1, v.end()); break;
    }
    return v;
}
static void space(vc::Run& r) {
    vk::init();
    auto all = nests(); for (auto& x : for_loops()) all.push_back(x);
    for (auto& tmpl : all) {
        if (tmpl.rfind("map ", 0) == 0 && tmpl.find("for") == std::string::npos) continue;
        vp::Template t(tmpl, r.thorough);
        for (int64_t k = 0; k < t.size(); k++) {
            std::string src = t.at(k);
            if (src.find("for") == std::string::npos) continue;
            r.kase([&] { return src; }, [&] {
                vk::Original o(src, r.thorough);
                if (!o.valid) { r.count(vc::Run::AUX0); return; }
                if (!o.defined) { r.count(vc::Run::AUX0 + 1); return; }
                auto s = vp::build(src);
                builder::StructuredSDFGBuilder b(*s);
                analysis::AnalysisManager am(*s);
                passes::For2MapPass pass;
                try { if (!pass.run(b, am)) { r.count(vc::Run::AUX0 + 2); return; } s->validate(); }
                catch (std::exception& e) { r.report(src, std::string("the pass threw ") + e.what()); return; }
                r.count(vc::Run::AUX0 + 3);
                r.nontrivial(vc::hash_str(src));
                r.outcome(vc::hash_str(vk::print(*s)));
                // what a parallel map gives each iteration its own copy of
                std::map<const void*, std::set<std::string>> priv;
                analysis::AnalysisManager am2(*s);
                auto& users = am2.get<analysis::Users>();
                for (auto* l : vk::loops(*s)) if (dynamic_cast<vk::scf::Map*>(l)) {
                    analysis::UsersView body(users, l->root());
                    for (auto& c : users.locals(l->root())) if (!body.writes(c).empty() || !body.moves(c).empty()) priv[l].insert(c);
                }
                for (size_t i = 0; i < o.es.size(); i++) {
                    vp::RaceMonitor rm;
                    rm.is_private = [&](const void* m, const std::string& c) { auto it = priv.find(m); return it != priv.end() && it->second.count(c) > 0; };
                    rm.same_value_ok = true;
                    auto fresh = [&](vi::Interp& in) {
                        auto it0 = in.on_iter; auto lp0 = in.on_loop; vi::Interp* p = &in;
                        auto drop = [&priv, p](const void* l) { auto it = priv.find(l); if (it != priv.end()) for (auto& c : it->second) p->forget(symbolic::symbol(c)); };
                        in.on_iter = [drop, it0](const vk::scf::StructuredLoop& l, int64_t v) { drop(&l); if (it0) it0(l, v); };
                        in.on_loop = [drop, lp0](const vk::scf::ControlFlowNode& n, bool enter) { if (!enter) drop(&n); if (lp0) lp0(n, enter); };
                    };
                    auto q = vp::run(*s, o.es[i], [&](vi::Interp& in) { rm.attach(in); fresh(in); }, 30000);
                    auto d = vp::differs(o.out[i], q, *o.s);
                    if (d.empty()) d = rm.race;
                    r.count(vc::Run::TRANS);
                    for (size_t k = 0; k < 5 && d.empty(); k++) {
                        d = vp::differs(o.out[i], vp::run(*s, o.es[i], [&](vi::Interp& in) { fresh(in); in.order = [k](const vk::scf::Map&, size_t n) { return nth_order(k, n); }; }, 30000), *o.s);
                        r.count(vc::Run::TRANS);
                        if (!d.empty()) d = "with the iterations in order " + std::to_string(k) + ": " + d;
                    }
                    if (!d.empty()) { r.report(src, "with " + o.es[i].str() + ": " + d + "\nparallelized: " + vk::print(*s)); break; }
                }
            });
        }
    }
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every program of the loop-nest grammar x every input x every order of the iterations of every loop made parallel (all permutations of up to three iterations), with a conflict monitor for all their interleavings; counted when at least one loop is made parallel";
    o.extra_counters = {{8, "invalid_programs"}, {9, "programs_without_defined_input"}, {10, "nothing_parallelized"}, {11, "parallelized"}};
    o.hang_s = 10;
    return vc::main_impl(argc, argv, space, o);
}
