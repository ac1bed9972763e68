// C28: what the data-flow analyses report about a program, against every access the program makes when it runs.
#include "corekit.h"
#include <sdfg/analysis/data_dependency_analysis.h>
#include <sdfg/analysis/dominance_analysis.h>
#include <sdfg/analysis/loop_analysis.h>
#include <sdfg/analysis/users.h>
#include "cleanups.h"
#include "nests.h"
using namespace sdfg; using analysis::User; using analysis::Use; namespace scf = structured_control_flow;

struct At { const void* loop; long inst, iter; };
struct Event { std::vector<User*> users; bool w; std::string c; std::vector<At> loops; const Element* e; bool header; };
struct Tracer {
    analysis::Users* users; vi::Interp* in = nullptr; std::vector<Event> ev; std::string missing;
    struct Frame { const scf::ControlFlowNode* n; long inst, iter; int phase; };
    std::vector<Frame> stack; long insts = 0;
    std::map<uint64_t, int> last_w, last_r;  // event of the last write and read of a byte
    std::function<void(int now, int prev, const char* kind)> dep;
    void attach(vi::Interp& i) {
        in = &i;
        i.on_loop = [this](const scf::ControlFlowNode& n, bool enter) { if (enter) stack.push_back({&n, ++insts, 0, 0}); else { while (!stack.empty() && stack.back().n != &n) stack.pop_back(); if (!stack.empty()) stack.pop_back(); } };
        i.on_iter = [this](const scf::StructuredLoop& l, int64_t) { for (auto& f : stack) if (f.n == &l) { f.iter++; f.phase = 2; } };
        i.on_node = [this](const scf::ControlFlowNode& n) { if (auto q = dynamic_cast<const scf::Sequence*>(&n)) for (auto& f : stack) if (auto w = dynamic_cast<const scf::While*>(f.n)) if (&w->root() == q) f.iter++; };
        i.on_access = [this](uint64_t a, size_t n, bool w, const Element* e, const std::string& c) { access(a, n, w, e, c); };
    }
    void access(uint64_t a, size_t n, bool w, const Element* e, const std::string& c) {
        Event v; v.w = w; v.c = c; v.e = e; v.header = false; auto* x = const_cast<Element*>(e); bool slot = false;
        { auto it = in->var.find(c); slot = it != in->var.end() && it->second == a && in->f.type(c).type_id() == types::TypeID::Pointer; }
        auto add = [&](Element* el, Use u, bool i = false, bool k = false, bool p = false) { if (users->has_user(c, el, u, i, k, p)) v.users.push_back(users->get_user(c, el, u, i, k, p)); };
        bool other = false;
        if (auto m = dynamic_cast<const data_flow::Memlet*>(e)) {
            auto& node = const_cast<data_flow::DataFlowNode&>(w ? m->dst() : m->src());
            add(&node, w ? Use::WRITE : Use::READ); if (!w) add(x, Use::READ);
            for (auto* q : {const_cast<data_flow::DataFlowNode*>(&m->src()), const_cast<data_flow::DataFlowNode*>(&m->dst())}) if (dynamic_cast<data_flow::AccessNode*>(q)) other |= users->has_user(c, q, Use::VIEW) || users->has_user(c, q, Use::MOVE) || (slot && users->has_user(c, q, Use::WRITE));
        } else if (auto l = dynamic_cast<const scf::StructuredLoop*>(e)) {
            v.header = true;
            for (auto& f : stack) if (f.n == l) { add(x, w ? Use::WRITE : Use::READ, f.phase == 0, f.phase == 1, f.phase == 2); if (w) f.phase = 1; }
        } else if (auto l = dynamic_cast<const data_flow::LibraryNode*>(e)) {
            add(x, Use::READ); if (v.users.empty()) other = true; (void)l;
        } else add(x, w ? Use::WRITE : Use::READ);
        if (v.users.empty() && !other && c != "*" && missing.empty()) missing = std::string(w ? "a write of " : "a read of ") + c;
        for (auto& f : stack) v.loops.push_back({f.n, f.inst, f.iter});
        int now = (int)ev.size(); ev.push_back(v);
        for (size_t b = 0; b < n; b++) {
            auto lw = last_w.find(a + b), lr = last_r.find(a + b);
            if (dep && (b == 0 || b + 1 == n)) { if (lw != last_w.end()) dep(now, lw->second, w ? "ww" : "rw"); if (w && lr != last_r.end()) dep(now, lr->second, "wr"); }
            if (w) { last_w[a + b] = now; last_r.erase(a + b); } else last_r[a + b] = now;
        }
    }
};
static std::string show(User* u) {
    std::string s = std::string(u->use() == Use::READ ? "read" : u->use() == Use::WRITE ? "write" : "use") + " of " + u->container();
    for (auto& d : u->subsets()) s += vk::subset(d);
    if (auto f = dynamic_cast<analysis::ForUser*>(u)) s += f->is_init() ? " (init)" : f->is_condition() ? " (condition)" : " (update)";
    return s + " #" + std::to_string(u->element()->element_id());
}
static const void* block(User* u) {
    if (auto n = dynamic_cast<data_flow::DataFlowNode*>(u->element())) return &n->get_parent();
    if (auto m = dynamic_cast<data_flow::Memlet*>(u->element())) return &m->get_parent();
    return u->element();
}
static std::vector<vp::Env> inputs(const std::string& src) {
    vp::Builder m; m.s = src; std::vector<vp::Env> r;
    for (int64_t N : m.mentions("N") ? std::vector<int64_t>{0, 1, 3} : std::vector<int64_t>{1}) for (int64_t p : m.mentions("p") ? std::vector<int64_t>{0, 1} : std::vector<int64_t>{0}) for (int64_t q : m.mentions("q") ? std::vector<int64_t>{0, 1} : std::vector<int64_t>{0}) { vp::Env e; e.N = N; e.p = p; e.q = q; r.push_back(e); }
    return r;
}
static void check(vc::Run& r, const std::string& src, bool small) {
    r.kase([=] { return src; }, [=, &r] {
        auto s = vp::build(src); try { s->validate(); } catch (std::exception&) { r.count(vc::Run::AUX0, 1); return; }
        analysis::AnalysisManager am(*s); analysis::Users* users; analysis::DominanceAnalysis* dom; analysis::DataDependencyAnalysis plain(*s, false), fine(*s, true);
        try { users = &am.get<analysis::Users>(); dom = &am.get<analysis::DominanceAnalysis>(); plain.run(am); fine.run(am); } catch (std::exception& x) { r.report("throws|" + src, std::string("the analysis throws ") + x.what()); return; }
        std::set<std::string> moved; for (auto* u : users->moves()) moved.insert(u->container());
        std::set<std::string> kinds; long facts = 0, runs = 0;
        auto bad = [&](const std::string& kind, const std::string& msg) { if (kinds.insert(kind).second) r.report(kind + "|" + src, msg); };
        std::set<const void*> dl; for (auto* l : vk::loops(*s)) dl.insert(l);
        std::map<std::pair<const void*, std::string>, int> known[2];
        analysis::DataDependencyAnalysis* das[2] = {&plain, &fine};
        std::map<std::string, std::unordered_map<User*, std::unordered_set<User*>>> defs[2];
        std::map<User*, std::set<User*>> after; std::map<std::pair<User*, User*>, std::set<User*>> between;
        for (auto& e : small ? inputs(src) : vk::envs(src, r.thorough)) {
            Tracer t; t.users = users; std::string with = "with " + e.str() + ": ";
            t.dep = [&](int now, int prev, const char* kind) {
                auto &a = t.ev[now], &b = t.ev[prev];
                if (a.c != b.c || a.users.empty() || b.users.empty() || moved.count(a.c)) return;
                bool flow = kind[0] == 'r';
                for (int d = 0; d < 2; d++) {
                    std::string name = d ? "detailed." : "";
                    if (flow) {
                        facts++; if (!defs[d].count(a.c)) defs[d][a.c] = das[d]->definitions(a.c);
                        auto& m = defs[d][a.c]; bool ok = false;
                        for (auto* w : b.users) { auto it = m.find(w); if (it != m.end()) for (auto* x : a.users) ok |= it->second.count(x) > 0; }
                        if (!ok) bad(name + "reaches", with + "the " + show(a.users[0]) + " sees the value of the " + show(b.users[0]) + ", which is not reported to reach it");
                    }
                    for (auto& x : a.loops) for (auto& y : b.loops) if (x.loop == y.loop && x.inst == y.inst && x.iter != y.iter && dl.count(x.loop)) {
                        auto* l = (scf::StructuredLoop*)x.loop; if (a.e == l || b.e == l || !das[d]->available(*l)) continue;
                        facts++; auto& deps = das[d]->dependencies(*l); auto it = deps.find(a.c);
                        std::string what = flow ? "reads what another wrote" : kind[1] == 'w' ? "writes what another wrote" : "writes what another read";
                        if (it == deps.end()) bad(name + "carried." + kind, with + "an iteration of the loop over " + l->indvar()->get_name() + " " + what + " (" + a.c + ": " + show(b.users[0]) + ", " + show(a.users[0]) + "), and no carried dependence is reported");
                        else if (flow && it->second != analysis::LOOP_CARRIED_DEPENDENCY_READ_WRITE) bad(name + "carried.kind", with + "an iteration of the loop over " + l->indvar()->get_name() + " " + what + " (" + a.c + "), reported as written only");
                    }
                }
            };
            auto o = vp::run(*s, e, [&](vi::Interp& in) { t.attach(in); }, small ? 300 : 400);
            runs++; if (!t.missing.empty()) bad("missing", with + t.missing + " is no user of the program");
            bool done = o.kind == vp::Outcome::Ok;
            if (t.ev.size() > (small ? 120 : 60)) continue;
            // order: what dominates comes before, what post-dominates after, and everything in between is between
            std::vector<User*> seq; for (auto& v : t.ev) seq.push_back(v.users.size() == 1 ? v.users[0] : nullptr);
            std::set<User*> all(seq.begin(), seq.end()); all.erase(nullptr);
            auto* us = users; std::vector<User*> every; for (auto* u : us->uses()) if (u->use() == Use::READ || u->use() == Use::WRITE) every.push_back(u);
            std::map<User*, int> first, last; for (size_t i = 0; i < seq.size(); i++) if (seq[i]) { first.insert({seq[i], (int)i}); last[seq[i]] = (int)i; }
            std::set<User*> unclear; for (auto& v : t.ev) if (v.users.size() > 1) for (auto* u : v.users) unclear.insert(u);
            for (auto* u : all) for (auto* d : every) {
                if (unclear.count(d) || unclear.count(u) || block(d) == block(u) || d == u) continue;
                if (dynamic_cast<analysis::ForUser*>(d) && d->use() == Use::READ) continue;  // a condition may be decided by its first half
                if (dynamic_cast<scf::IfElse*>(d->element())) continue;
                facts++;
                if (dom->dominates(*d, *u) && !(first.count(d) && first[d] < first[u])) bad("dominates", with + "the " + show(d) + " is said to dominate the " + show(u) + ", which runs without it");
                if (done && dom->post_dominates(*d, *u) && !(last.count(d) && last[d] > last[u])) bad("postdominates", with + "the " + show(d) + " is said to post-dominate the " + show(u) + ", after which it does not run");
            }
            std::map<User*, int> at; int n = (int)seq.size();
            for (int i = 0; i < n; i++) if (seq[i]) {
                auto* u = seq[i];
                for (auto& [w, k] : at) if (w != u && block(w) != block(u) && !dynamic_cast<scf::IfElse*>(w->element()) && !(dynamic_cast<analysis::ForUser*>(w) && w->use() == Use::READ)) {
                    if (!after.count(w)) { auto q = users->all_uses_after(*w); after[w] = std::set<User*>(q.begin(), q.end()); }
                    facts++; if (!after[w].count(u)) bad("after", with + "the " + show(u) + " runs after the " + show(w) + " and is not among the uses after it");
                    auto key = std::make_pair(w, u); if (!between.count(key)) { auto q = users->all_uses_between(*w, *u); between[key] = std::set<User*>(q.begin(), q.end()); }
                    auto& b = between[key]; for (int j = k + 1; j < i; j++) if (seq[j] && seq[j] != u && block(seq[j]) != block(u) && block(seq[j]) != block(w) && !b.count(seq[j])) { bad("between", with + "the " + show(seq[j]) + " runs between the " + show(w) + " and the " + show(u) + " and is not among the uses between them"); break; }
                }
                at[u] = i;
            }
        }
        r.count(vc::Run::TRANS, facts); r.count(vc::Run::EVAL, runs); if (facts) r.nontrivial(vc::hash_str(src)); r.outcome(kinds.size());
    });
    r.alive();
}
// Every program of a given size over one scalar.
static void programs(int n, bool in_for, bool in_while, bool top, std::vector<std::string>& out) {
    if (n == 0) { out.push_back(""); return; }
    std::vector<std::pair<std::string, int>> first;
    for (auto a : {"u = A[0]; ", "nop; & u := N; ", "B[0] = u; ", "nop; & w := u; "}) first.push_back({a, 1});
    if (!top) first.push_back({"return; ", -1});
    if (in_while) { first.push_back({"break; ", -1}); first.push_back({"continue; ", -1}); }
    for (int k = 1; k < n; k++) {
        std::vector<std::string> b; programs(k, in_for, in_while, false, b);
        std::string c = in_for ? "i == 1" : "p > 0";
        for (auto& x : b) { first.push_back({"if (" + c + ") { " + x + "} ", k + 1}); if (k < 3) first.push_back({"if (u > 2) { " + x + "} ", k + 1}); }
        for (int j = 1; j + k < n; j++) { std::vector<std::string> d; programs(j, in_for, in_while, false, d); for (auto& x : b) for (auto& y : d) first.push_back({"if (q > 0) { " + x + "} else { " + y + "} ", k + j + 1}); }
        if (!in_for && !in_while) {
            std::vector<std::string> f; programs(k, true, false, false, f); for (auto& x : f) first.push_back({"for i=0..N { " + x + "} ", k + 1});
            std::vector<std::string> w; programs(k, false, true, false, w); for (auto& x : w) first.push_back({"k := 0; loop { k := k+1; if (k > 2) { break; } " + x + "} ", k + 1});
        }
    }
    for (auto& [a, c] : first) {
        if (c < 0) { if (n == 1) out.push_back(a); continue; }  // nothing follows what leaves
        if (c > n) continue;
        std::vector<std::string> rest; programs(n - c, in_for, in_while, top, rest);
        for (auto& x : rest) out.push_back(a + x);
    }
}
int main(int argc, char** argv) {
    vk::init();
    vc::Options o; o.coverage_rule = "every program of the loop-nest and clean-up grammars and every small program over a scalar x every input x every access, pair of accesses and pair of users"; o.extra_counters = {{8, "programs_out_of_scope"}}; o.hang_s = 20;
    return vc::main_impl(argc, argv, [](vc::Run& r) {
        for (int n = 2; n <= (r.thorough ? 5 : 4); n++) {
            std::vector<std::string> v; programs(n, false, false, true, v);
            for (auto& x : v) if ((x.find("u =") != x.npos || x.find("u :=") != x.npos) && (x.find("= u") != x.npos || x.find("u > 2") != x.npos)) check(r, x, true);
        }
        for (int n = 2; n <= (r.thorough ? 5 : 4); n++) for (bool w : {false, true}) {  // larger bodies of one loop, with a value from before and a use after
            std::vector<std::string> v; programs(n, !w, w, false, v);
            for (auto& x : v) if ((x.find("u =") != x.npos || x.find("u :=") != x.npos) && x.find('{') != x.npos) for (auto pre : {"", "u = A[0]; "}) for (auto post : {"", "B[0] = u; "})
                check(r, pre + std::string(w ? "k := 0; loop { k := k+1; if (k > 2) { break; } " : "for i=0..N { ") + x + "} " + post, true);
        }
        auto all = nests(); for (auto& x : for_loops()) all.push_back(x); for (auto& x : cleanups()) all.push_back(x);
        for (auto& tmpl : all) { vp::Template t(tmpl, r.thorough); for (int64_t k = 0; k < t.size(); k++) check(r, t.at(k), false); }
    }, o);
}
