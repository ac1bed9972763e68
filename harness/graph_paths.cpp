#include "graphs.h"
using namespace sdfg::graph;
static void explore(vc::Run& r) {
    all_graphs(r.thorough, [&](const G& g) {
        if (g.n == 5 && g.e.size() > 14 && !r.thorough) return; // dense 5-vertex graphs have thousands of paths per pair
        r.kase([g] { return g.str(); }, [&] {
            if (g.e.size() >= 2) r.nontrivial(g.h());
            Built b(g);
            const std::string before = b.snapshot();
            for (int s = 0; s < g.n; s++) for (int d = 0; d < g.n; d++) {
                if (g.n >= 5 && s != 0 && d != 0) continue; // vertex 0 is the distinguished one of the symmetry reduction
                std::set<std::vector<int>> want;
                std::vector<int> cur;
                std::function<void(int, unsigned)> go = [&](int u, unsigned vis) {
                    for (size_t i = 0; i < g.e.size(); i++) if (g.e[i].first == u) {
                        int t = g.e[i].second;
                        if (t == d) { cur.push_back(i); want.insert(cur); cur.pop_back(); }
                        else if (!(vis >> t & 1)) { cur.push_back(i); go(t, vis | 1u << t); cur.pop_back(); }
                    }
                };
                go(s, 1u << s);
                auto paths = all_simple_paths(b.g, b.v[s], b.v[d]);
                std::set<std::vector<int>> got;
                auto show = [&](const std::vector<int>& p) { std::string o; for (int i : p) o += std::to_string(g.e[i].first) + ">" + std::to_string(g.e[i].second) + " "; return o; };
                std::string at = " src=" + std::to_string(s) + " dst=" + std::to_string(d) + " " + g.str();
                for (auto& p : paths) {
                    std::vector<int> q;
                    for (auto& ed : p) { int k = -1; for (size_t i = 0; i < b.e.size(); i++) if (b.e[i] == ed) k = i; if (k < 0) r.fail("paths:foreign" + at, "unknown edge"); q.push_back(k); }
                    if (!want.count(q)) r.fail("paths:extra" + at, "not a simple path: " + show(q));
                    if (!got.insert(q).second) r.fail("paths:duplicate" + at, "reported twice: " + show(q));
                }
                for (auto& q : want) if (!got.count(q)) r.fail("paths:missing" + at, "missing: " + show(q));
                r.outcome(vc::mix(got.size(), s == d));
                r.count(8, got.size());
            }
            if (b.snapshot() != before) r.fail("graph_changed", "the caller's graph changed");
        });
    });
}
int main(int c, char** v) { vc::Options o; o.coverage_rule = GRAPH_RULE " (5-vertex graphs: at most 14 edges, pairs containing vertex 0)"; o.extra_counters = {{8, "paths"}}; return vc::main_impl(c, v, explore, o); }
