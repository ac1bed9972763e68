#include "graphs.h"
using namespace sdfg::graph;
static std::vector<int> idoms(const G& g, int s) { // definition: the strict dominator dominated by every other strict dominator
    std::vector<int> r(g.n, -1);
    unsigned R = g.reachset(s);
    std::vector<unsigned> dom(g.n, 0);
    for (int d = 0; d < g.n; d++) {
        unsigned without = d == s ? 0 : g.reachset(s, d);
        for (int v = 0; v < g.n; v++) if ((R >> v & 1) && (R >> d & 1) && (d == v || !(without >> v & 1))) dom[v] |= 1u << d;
    }
    for (int v = 0; v < g.n; v++) {
        if (!(R >> v & 1) || v == s) continue;
        for (int d = 0; d < g.n; d++) {
            if (d == v || !(dom[v] >> d & 1)) continue;
            unsigned others = dom[v] & ~(1u << v) & ~(1u << d);
            if ((dom[d] & others) == others) r[v] = d;
        }
    }
    return r;
}
static void check_map(vc::Run& r, const char* what, Built& b, const G& g, const std::unordered_map<Vertex, Vertex>& got, const std::vector<int>& want, int orig_n, int s) {
    uint64_t oc = s;
    for (int v = 0; v < orig_n; v++) {
        auto it = got.find(b.v[v]);
        if (it == got.end()) r.fail(std::string(what) + ":missing " + g.str(), "start " + std::to_string(s) + ": vertex " + std::to_string(v) + " is not in the tree");
        int x = b.of(it->second);
        if (x == -2) r.fail(std::string(what) + ":foreign " + g.str(), "start " + std::to_string(s) + ": vertex " + std::to_string(v) + " is mapped to a vertex that is not in the graph");
        if (x != want[v]) r.fail(std::string(what) + ":wrong " + g.str(), "start " + std::to_string(s) + ": vertex " + std::to_string(v) + " is mapped to " + std::to_string(x) + ", expected " + std::to_string(want[v]));
        oc = vc::mix(oc, x + 3);
    }
    r.outcome(oc);
}
static void explore(vc::Run& r) {
    all_graphs(r.thorough, [&](const G& g) {
        r.kase([g] { return g.str(); }, [&] {
            if (g.e.size() >= 2) r.nontrivial(g.h());
            Built b(g);
            std::string before = b.snapshot();
            for (int s = 0; s < g.n; s++) {
                check_map(r, "dom", b, g, dominator_tree(b.g, b.v[s]), idoms(g, s), g.n, s);
                r.count(vc::Run::AUX0);
            }
            // exits
            G rev{g.n, {}};
            std::vector<int> out(g.n, 0);
            for (auto [x, y] : g.e) { rev.e.push_back({y, x}); out[x]++; }
            std::vector<int> terms;
            for (int v = 0; v < g.n; v++) if (!out[v]) terms.push_back(v);
            if (terms.empty()) return; // no exit: outside the function's domain
            int s = terms[0];
            if (terms.size() > 1) { s = rev.n++; for (int t : terms) rev.e.push_back({s, t}); }
            auto want = idoms(rev, s);
            for (auto& w : want) if (w == g.n) w = -1; // immediate post-dominator is the virtual exit
            for (int again = 0; again < 2; again++) { // a second call on the same graph must give the same answer
                auto got = post_dominator_tree(b.g);
                check_map(r, "pdom", b, g, got, want, g.n, s);
                if (b.snapshot() != before) r.fail("pdom:graph_changed exits=" + std::string(terms.size() > 1 ? "many" : "one"), "the caller's graph changed: " + before + " -> " + b.snapshot());
                r.count(vc::Run::AUX0 + 1);
            }
        });
    });
}
int main(int c, char** v) { vc::Options o; o.coverage_rule = GRAPH_RULE; o.extra_counters = {{8, "dominator_trees"}, {9, "post_dominator_trees"}}; return vc::main_impl(c, v, explore, o); }
