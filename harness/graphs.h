// Enumeration of small directed graphs and definitional oracles on adjacency matrices.
#pragma once
#include "vc.h"
#include "sdfg/graph/graph.h"
#include <algorithm>
#include <array>
#include <numeric>

struct G {
    int n;
    std::vector<std::pair<int, int>> e; // insertion order
    std::string str() const {
        std::string s = "n=" + std::to_string(n) + " edges=";
        for (auto [a, b] : e) s += std::to_string(a) + ">" + std::to_string(b) + ",";
        return s;
    }
    uint64_t h() const { uint64_t x = n; for (auto [a, b] : e) x = vc::mix(x, a * 16 + b + 1); return x; }
    bool reach(int s, int t, int removed = -1) const { // path of length >= 0
        if (s == removed || t == removed) return false;
        return (reachset(s, removed) >> t) & 1;
    }
    unsigned reachset(int s, int removed = -1) const {
        unsigned r = 1u << s;
        for (bool ch = true; ch;) {
            ch = false;
            for (auto [a, b] : e)
                if (a != removed && b != removed && (r >> a & 1) && !(r >> b & 1)) { r |= 1u << b; ch = true; }
        }
        return r;
    }
    bool cyclic(const std::vector<char>* drop = nullptr) const {
        for (int v = 0; v < n; v++) {
            unsigned r = 0;
            for (bool ch = true; ch;) {
                ch = false;
                for (size_t i = 0; i < e.size(); i++) {
                    if (drop && (*drop)[i]) continue;
                    auto [a, b] = e[i];
                    if ((a == v || (r >> a & 1)) && !(r >> b & 1)) { r |= 1u << b; ch = true; }
                }
            }
            if (r >> v & 1) return true;
        }
        return false;
    }
};

struct Built {
    sdfg::graph::Graph g;
    std::vector<sdfg::graph::Vertex> v;
    std::vector<sdfg::graph::Edge> e;
    std::unordered_map<sdfg::graph::Vertex, int> id;
    explicit Built(const G& x) {
        for (int i = 0; i < x.n; i++) { v.push_back(boost::add_vertex(g)); id[v.back()] = i; }
        for (auto [a, b] : x.e) e.push_back(boost::add_edge(v[a], v[b], g).first);
    }
    int of(sdfg::graph::Vertex u) const {
        if (u == boost::graph_traits<sdfg::graph::Graph>::null_vertex()) return -1;
        auto it = id.find(u);
        return it == id.end() ? -2 : it->second;
    }
    // structure as seen now, in iteration order
    std::string snapshot() const {
        std::string s;
        for (auto [b, en] = boost::vertices(g); b != en; ++b) {
            s += "v" + std::to_string(of(*b)) + ":";
            for (auto [ob, oe] = boost::out_edges(*b, g); ob != oe; ++ob) s += std::to_string(of(boost::target(*ob, g))) + ",";
            s += "/";
            for (auto [ob, oe] = boost::in_edges(*b, g); ob != oe; ++ob) s += std::to_string(of(boost::source(*ob, g))) + ",";
        }
        return s;
    }
};

// Is the loop-free graph of this mask the smallest among relabelings that fix vertex 0?
inline bool canonical(int n, uint64_t mask, const std::vector<std::vector<int>>& perms) {
    for (auto& p : perms) {
        uint64_t m = 0;
        int k = 0;
        for (int a = 0; a < n; a++)
            for (int b = 0; b < n; b++) {
                if (a == b) continue;
                if (mask >> k & 1) {
                    int pa = p[a], pb = p[b];
                    m |= 1ull << (pa * (n - 1) + (pb > pa ? pb - 1 : pb));
                }
                k++;
            }
        if (m < mask) return false;
    }
    return true;
}

// Calls f(graph) for the bounded space:
//   all graphs with self loops on n <= 4 vertices (thorough: with both edge insertion orders),
//   all multigraphs on n <= 3 vertices with multiplicity <= 2 in two insertion orders,
//   all loop-free graphs on 5 vertices up to relabeling of the vertices other than 0,
//   (thorough) all loop-free graphs on 5 vertices, and those on 6 vertices with at most 7 edges.
template<class F>
void all_graphs(bool thorough, F f, bool five = true, int mult_edges_max = 99) {
    for (int n = 1; n <= 4; n++)
        for (uint64_t m = 0; m < (1ull << (n * n)); m++)
            for (int order = 0; order < ((thorough || n < 4) ? 2 : 1); order++) {
                G g{n, {}};
                for (int k = 0; k < n * n; k++) if (m >> k & 1) g.e.push_back({k / n, k % n});
                if (order || (n == 4 && !thorough && (m * 2654435761u >> 7 & 1))) std::reverse(g.e.begin(), g.e.end());
                f(g);
            }
    for (int n = 1; n <= 3; n++) {
        int c = n * n; uint64_t tot = 1; for (int i = 0; i < c; i++) tot *= 3;
        for (uint64_t m = 0; m < tot; m++) {
            G g{n, {}}; bool multi = false; uint64_t x = m;
            for (int k = 0; k < c; k++) { int d = x % 3; x /= 3; if (d == 2) multi = true; for (int i = 0; i < d; i++) g.e.push_back({k / n, k % n}); }
            if (!multi || (int) g.e.size() > mult_edges_max) continue;
            // interleave duplicates: even positions first
            std::vector<std::pair<int, int>> a, b;
            for (size_t i = 0; i < g.e.size(); i++) (i % 2 ? b : a).push_back(g.e[i]);
            a.insert(a.end(), b.begin(), b.end());
            f(g);
            g.e = a;
            f(g);
        }
    }
    if (five) {
        std::vector<std::vector<int>> perms;
        std::vector<int> p{1, 2, 3, 4};
        do { perms.push_back({0, p[0], p[1], p[2], p[3]}); } while (std::next_permutation(p.begin(), p.end()));
        for (uint64_t m = 0; m < (1ull << 20); m++) {
            if (!thorough && !canonical(5, m, perms)) continue;
            G g{5, {}};
            int k = 0;
            for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) if (a != b) { if (m >> k & 1) g.e.push_back({a, b}); k++; }
            if (m * 2654435761u >> 9 & 1) std::reverse(g.e.begin(), g.e.end());
            f(g);
        }
    }
    if (thorough) {
        int n = 6, K = 30;
        for (int ne = 0; ne <= 7; ne++) {
            if (ne > K) break;
            uint64_t m = (1ull << ne) - 1;
            for (;;) {
                G g{n, {}};
                int k = 0;
                for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b) { if (m >> k & 1) g.e.push_back({a, b}); k++; }
                f(g);
                if (ne == 0) break;
                uint64_t c = m & -m, r = m + c;
                m = (((r ^ m) >> 2) / c) | r;
                if (m >> K) break;
            }
        }
    }
}
#define GRAPH_RULE "a case is one directed graph (all graphs with self loops on up to 4 vertices, all multigraphs with multiplicity up to 2 on up to 3 vertices in two insertion orders, all loop-free graphs on 5 vertices up to relabeling) with every start vertex or vertex pair; non-trivial: at least 2 edges; distinct by vertex count and edge list"
