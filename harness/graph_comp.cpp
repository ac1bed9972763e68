#include "graphs.h"
using namespace sdfg::graph;
static void explore(vc::Run& r) {
    all_graphs(r.thorough, [&](const G& g) {
        r.kase([g] { return g.str(); }, [&] {
            if (g.e.size() >= 2) r.nontrivial(g.h());
            Built b(g);
            const std::string before = b.snapshot();
            std::vector<unsigned> R(g.n);
            for (int i = 0; i < g.n; i++) R[i] = g.reachset(i);
            G u = g; for (auto [x, y] : g.e) u.e.push_back({y, x});
            auto comp = [&](const char* what, size_t cnt, const std::unordered_map<Vertex, size_t>& m, auto same) {
                if ((int) m.size() != g.n) r.fail(std::string(what) + ":size " + g.str(), "map has " + std::to_string(m.size()) + " entries");
                std::set<size_t> used; uint64_t oc = what[0];
                for (int i = 0; i < g.n; i++) {
                    if (!m.count(b.v[i])) r.fail(std::string(what) + ":missing " + g.str(), "vertex " + std::to_string(i));
                    used.insert(m.at(b.v[i])); oc = vc::mix(oc, m.at(b.v[i]));
                    for (int j = 0; j < g.n; j++)
                        if ((m.at(b.v[i]) == m.at(b.v[j])) != same(i, j)) r.fail(std::string(what) + ":wrong " + g.str(), "vertices " + std::to_string(i) + " and " + std::to_string(j));
                }
                r.outcome(oc);
                if (used.size() != cnt || (cnt && *used.rbegin() != cnt - 1)) r.fail(std::string(what) + ":count " + g.str(), "count " + std::to_string(cnt) + " but " + std::to_string(used.size()) + " numbers used");
            };
            auto [ns, sm] = strongly_connected_components(b.g);
            comp("scc", ns, sm, [&](int i, int j) { return (R[i] >> j & 1) && (R[j] >> i & 1); });
            auto [nw, wm] = weakly_connected_components(b.g);
            std::vector<unsigned> U(g.n);
            for (int i = 0; i < g.n; i++) U[i] = u.reachset(i);
            comp("wcc", nw, wm, [&](int i, int j) { return (bool) (U[i] >> j & 1); });
            // reversed view
            auto rg = reverse(b.g);
            std::multiset<std::pair<int, int>> want, got;
            for (auto [x, y] : g.e) want.insert({y, x});
            for (auto [eb, ee] = boost::edges(rg); eb != ee; ++eb) got.insert({b.of(boost::source(*eb, rg)), b.of(boost::target(*eb, rg))});
            if (want != got) r.fail("reverse:edges " + g.str(), "wrong edges");
            std::multiset<std::pair<int, int>> got2;
            for (int i = 0; i < g.n; i++) for (auto [eb, ee] = boost::out_edges(b.v[i], rg); eb != ee; ++eb) got2.insert({i, b.of(boost::target(*eb, rg))});
            if (want != got2 || (int) boost::num_vertices(rg) != g.n) r.fail("reverse:out_edges " + g.str(), "wrong out edges");
            // undirected copy
            {
                auto t = undirected(b.g);
                auto& ug = *std::get<0>(t); auto& fw = std::get<1>(t); auto& bw = std::get<2>(t);
                if ((int) boost::num_vertices(ug) != g.n || (int) fw.size() != g.n || (int) bw.size() != g.n) r.fail("undirected:size " + g.str(), "wrong number of vertices");
                for (int i = 0; i < g.n; i++) if (!fw.count(b.v[i]) || !bw.count(fw.at(b.v[i])) || bw.at(fw.at(b.v[i])) != b.v[i]) r.fail("undirected:maps " + g.str(), "mappings are not inverse");
                std::multiset<std::pair<int, int>> uw, uu;
                for (auto [x, y] : g.e) uw.insert({std::min(x, y), std::max(x, y)});
                for (auto [eb, ee] = boost::edges(ug); eb != ee; ++eb) {
                    auto s = boost::source(*eb, ug), d = boost::target(*eb, ug);
                    if (!bw.count(s) || !bw.count(d)) r.fail("undirected:foreign " + g.str(), "unknown vertex");
                    int x = b.of(bw.at(s)), y = b.of(bw.at(d)); uu.insert({std::min(x, y), std::max(x, y)});
                }
                if (uw != uu) r.fail("undirected:edges " + g.str(), "wrong edges");
            }
            if (b.snapshot() != before) r.fail("graph_changed", "the caller's graph changed");
        });
    });
}
int main(int c, char** v) { vc::Options o; o.coverage_rule = GRAPH_RULE; return vc::main_impl(c, v, explore, o); }
