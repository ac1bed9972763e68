#include "graphs.h"
using namespace sdfg::graph;
static void explore(vc::Run& r) {
    all_graphs(r.thorough, [&](const G& g) {
        r.kase([g] { return g.str(); }, [&] {
            if (g.e.size() >= 2) r.nontrivial(g.h());
            Built b(g);
            const std::string before = b.snapshot();
            bool cyc = g.cyclic();
            if (is_acyclic(b.g) == cyc) r.fail("acyclic " + g.str(), std::string("is_acyclic says ") + (cyc ? "true" : "false"));
            if (!cyc) {
                auto t = topological_sort(b.g);
                std::vector<int> pos(g.n, -1); int i = 0;
                for (auto v : t) { int x = b.of(v); if (x < 0 || pos[x] >= 0) r.fail("topo:vertex " + g.str(), "vertex repeated or unknown"); pos[x] = i++; }
                if (i != g.n) r.fail("topo:missing " + g.str(), std::to_string(i) + " vertices listed");
                for (auto [x, y] : g.e) if (pos[x] >= pos[y]) r.fail("topo:order " + g.str(), std::to_string(x) + " must precede " + std::to_string(y));
                uint64_t oc = 7; for (int p : pos) oc = vc::mix(oc, p); r.outcome(oc);
                r.count(8);
            } else {
                bool threw = false;
                try { topological_sort(b.g); } catch (boost::not_a_dag&) { threw = true; }
                if (!threw) r.fail("topo:cyclic " + g.str(), "a cyclic graph was sorted");
            }
            for (int s = 0; s < g.n; s++) {
                auto l = depth_first_search(b.g, b.v[s]);
                std::vector<int> o; unsigned seen = 0; std::vector<int> st;
                uint64_t oc = 11;
                for (auto v : l) {
                    int x = b.of(v);
                    if (x < 0 || (seen >> x & 1)) r.fail("dfs:vertex " + g.str(), "start " + std::to_string(s) + ": vertex repeated or unknown");
                    // must be an undiscovered successor of the deepest open vertex that has one; else anything
                    if (o.empty()) { if (x != s) r.fail("dfs:start " + g.str(), "does not begin at the start vertex"); }
                    else {
                        while (!st.empty()) {
                            bool has = false, hit = false;
                            for (auto [a, c] : g.e) if (a == st.back() && !(seen >> c & 1)) { has = true; if (c == x) hit = true; }
                            if (!has) { st.pop_back(); continue; }
                            if (!hit) r.fail("dfs:order " + g.str(), "start " + std::to_string(s) + ": vertex " + std::to_string(x) + " is not depth first");
                            break;
                        }
                    }
                    st.push_back(x); seen |= 1u << x; o.push_back(x); oc = vc::mix(oc, x);
                }
                r.outcome(oc);
                if ((int) o.size() != g.n) r.fail("dfs:missing " + g.str(), "start " + std::to_string(s) + ": " + std::to_string(o.size()) + " vertices listed");
                // back edges
                auto be = back_edges(b.g, b.v[s]);
                std::vector<char> drop(g.e.size(), 0);
                for (auto& ed : be) {
                    int k = -1;
                    for (size_t i = 0; i < b.e.size(); i++) if (b.e[i] == ed) k = i;
                    if (k < 0 || drop[k]) r.fail("back:edge " + g.str(), "start " + std::to_string(s) + ": edge repeated or unknown");
                    drop[k] = 1;
                }
                if (g.cyclic(&drop)) r.fail("back:incomplete " + g.str(), "start " + std::to_string(s) + ": a cycle is left without the back edges");
                for (size_t i = 0; i < drop.size(); i++) if (drop[i]) {
                    G h{g.n, {}};
                    for (size_t j = 0; j < g.e.size(); j++) if (!drop[j]) h.e.push_back(g.e[j]);
                    if (!h.reach(g.e[i].second, g.e[i].first)) r.fail("back:spurious " + g.str(), "start " + std::to_string(s) + ": edge " + std::to_string(g.e[i].first) + ">" + std::to_string(g.e[i].second) + " closes no cycle");
                }
                // an edge back into a start that reaches everything on the way is always a back edge
                for (size_t i = 0; i < drop.size(); i++) if (g.e[i].second == s && g.reach(s, g.e[i].first) && !drop[i])
                    r.fail("back:start " + g.str(), "start " + std::to_string(s) + ": the edge " + std::to_string(g.e[i].first) + ">" + std::to_string(s) + " returns to the start and is not reported");
                r.count(9);
            }
            if (b.snapshot() != before) r.fail("graph_changed", "the caller's graph changed");
        });
    });
}
int main(int c, char** v) { vc::Options o; o.coverage_rule = GRAPH_RULE; o.extra_counters = {{8, "sorts"}, {9, "searches"}}; return vc::main_impl(c, v, explore, o); }
