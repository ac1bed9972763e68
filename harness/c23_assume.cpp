// C23: every assumption derived for a point of a program, against the values of the symbols whenever control reaches that point.
#include "corekit.h"
#include "nests.h"
#include "cleanups.h"
#include <regex>
#include <sdfg/analysis/users.h>
#include <sdfg/analysis/assumptions_analysis.h>
using namespace sdfg;
using E = symbolic::Expression; using vi::i128;

struct Bound { std::string name; E e; bool low; const char* kind; };
struct Point { std::vector<Bound> bounds; std::set<std::string> fixed; const symbolic::Assumptions* a; };
struct Claims {
    std::map<const vk::scf::ControlFlowNode*, Point> at; size_t facts = 0;
    void add(analysis::AssumptionsAnalysis& aa, vk::scf::ControlFlowNode& n) {
        Point& p = at[&n]; p.a = &aa.get(n, false); std::set<std::pair<std::string, std::string>> seen;
        for (int t = 0; t < 2; t++) for (auto& [s, a] : aa.get(n, t)) {
            facts++; auto name = s->get_name(); if (a.constant()) p.fixed.insert(name);
            auto put = [&](const E& e, bool low, const char* kind) { if (e.is_null() || symbolic::eq(e, SymEngine::Inf) || symbolic::eq(e, SymEngine::NegInf)) return; if (seen.insert({name, (low ? "<" : ">") + e->__str__()}).second) p.bounds.push_back({name, e, low, kind}); };
            put(a.lower_bound_deprecated(), true, "low"); put(a.upper_bound_deprecated(), false, "up"); put(a.tight_lower_bound(), true, "tight_low"); put(a.tight_upper_bound(), false, "tight_up");
            for (auto& e : a.lower_bounds()) put(e, true, "low_set"); for (auto& e : a.upper_bounds()) put(e, false, "up_set"); put(a.lower_bound(), true, "low_new"); put(a.upper_bound(), false, "up_new");
        }
    }
};
struct Monitor {
    vi::Interp* in = nullptr; analysis::AssumptionsAnalysis* aa; const Claims* claims; long checked = 0; bool outside = false; std::string bad, kind, known;
    struct Live { const vk::scf::StructuredLoop* l; bool entered = false; std::map<std::string, i128> fixed; std::optional<i128> next; i128 last = 0; std::optional<i128> tight_up; const symbolic::Assumptions* a; bool left_early = false; };
    std::vector<Live> live; std::map<std::string, i128> params;
    std::optional<i128> now(const std::string& n) { try { return in->symbol_value(n); } catch (vi::Undefined&) { return {}; } catch (vi::Unsupported&) { return {}; } }
    std::optional<vi::Interp::Rat> value(const E& e) { if (e.is_null() || symbolic::eq(e, SymEngine::Inf) || symbolic::eq(e, SymEngine::NegInf)) return {}; try { return in->eval(e); } catch (vi::Undefined&) { return {}; } catch (vi::Unsupported&) { return {}; } }
    void fail(const std::string& k, const std::string& t) { if (bad.empty()) { kind = k; bad = t; } }
    static std::string num(i128 v) { return std::to_string((int64_t)v); }
    void bounds(const Point& p, const std::string& where) {
        std::set<std::string> excused;
        for (auto& q : p.bounds) {
            auto v = now(q.name); if (!v) continue; auto b = value(q.e); if (!b) continue; checked++;
            if (!(q.low ? b->n > *v * b->d : b->n < *v * b->d)) continue;
            // known: what bounds a loop from above is said to be at least init + 1, also if the bound itself is reached
            if (q.low && (std::string(q.kind) == "low_set" || (std::string(q.kind) == "low_new" && excused.count(q.name)))) {
                bool k = excused.count(q.name) && std::string(q.kind) == "low_new"; for (auto& f : live) k |= f.l->indvar()->get_name() != q.name && symbolic::uses(f.l->condition(), q.name) && symbolic::eq(q.e, symbolic::add(f.l->init(), symbolic::one()));
                if (k) { excused.insert(q.name); if (known.empty()) known = q.name + " is said to be at least " + q.e->__str__() + " " + where + ", but is " + num(*v); continue; }
            }
            fail(std::string(q.kind) + "|" + q.e->__str__(), q.name + " is said to be at " + (q.low ? "least " : "most ") + q.e->__str__() + " " + where + ", but is " + num(*v));
        }
    }
    void constants(const std::string& where) {
        for (auto& f : live) if (f.entered) for (auto& [n, x] : f.fixed) { auto v = now(n); checked++; if (v && *v != x) fail("constant", n + " is said to be constant in the body of the loop over " + f.l->indvar()->get_name() + ", but changes from " + num(x) + " to " + num(*v) + " " + where); }
        for (auto& [n, x] : params) { auto v = now(n); checked++; if (v && *v != x) fail("parameter", n + " is said to be a parameter, but changes from " + num(x) + " to " + num(*v) + " " + where); }
    }
    void node(const vk::scf::ControlFlowNode& n) { constants("at " + vk::show(n).substr(0, 80)); auto it = claims->at.find(&n); if (it != claims->at.end()) bounds(it->second, "at " + vk::show(n).substr(0, 80)); }
    void iter(const vk::scf::StructuredLoop& l, i128 v) {
        auto& f = live.back(); auto& body = const_cast<vk::scf::StructuredLoop&>(l).root(); auto it = claims->at.find(&body); if (it == claims->at.end()) return; f.a = it->second.a; auto iv = l.indvar()->get_name();
        if (f.entered) { for (auto& [n, x] : f.fixed) if (n != iv) { auto q = now(n); if (q && *q != x) fail("constant", n + " is said to be constant in the body of the loop over " + iv + ", but changes from " + num(x) + " to " + num(*q) + " in an iteration"); } if (f.next && *f.next != v) fail("map", iv + " is said to become " + num(*f.next) + ", but becomes " + num(v)); }
        auto a = f.a->find(l.indvar());
        if (a != f.a->end()) {
            if (!f.entered) { auto b = value(a->second.tight_lower_bound()); if (b) { checked++; if (b->n != v * b->d) fail("tight_first", "the first value of " + iv + " is said to be " + a->second.tight_lower_bound()->__str__() + ", but is " + num(v)); } }
            auto m = value(a->second.map()); f.next = m && m->d == 1 ? std::optional<i128>(m->n) : std::nullopt; auto t = value(a->second.tight_upper_bound()); f.tight_up = t && t->d == 1 ? std::optional<i128>(t->n) : std::nullopt; if (t && t->d != 1) fail("tight_fraction", "the last value of " + iv + " is said to be " + a->second.tight_upper_bound()->__str__());
        }
        f.last = v; f.entered = true; f.fixed.clear();
        for (auto& n : it->second.fixed) { auto x = now(n); if (x) f.fixed[n] = *x; }
        bounds(it->second, "in the body of the loop over " + iv);
    }
    void loop(const vk::scf::ControlFlowNode& n, bool enter, const std::set<const void*>& leaves) {
        auto* l = dynamic_cast<const vk::scf::StructuredLoop*>(&n); if (!l) return;
        if (enter) { Live f; f.l = l; live.push_back(f); return; }
        auto f = live.back(); live.pop_back(); if (!f.entered) return; auto iv = l->indvar()->get_name();
        for (auto& [n, x] : f.fixed) if (n != iv) { auto q = now(n); if (q && *q != x) fail("constant", n + " is said to be constant in the body of the loop over " + iv + ", but changes from " + num(x) + " to " + num(*q) + " in its last iteration"); }
        if (f.tight_up && !leaves.count(l)) { checked++; if (*f.tight_up != f.last) fail("tight_last", "the last value of " + iv + " is said to be " + num(*f.tight_up) + ", but is " + num(f.last)); }
    }
};
static bool leaves(vk::scf::ControlFlowNode& n) { if (dynamic_cast<vk::scf::Break*>(&n) || dynamic_cast<vk::scf::Return*>(&n)) return true; if (auto q = dynamic_cast<vk::scf::Sequence*>(&n)) { for (size_t i = 0; i < q->size(); i++) if (leaves(q->at(i).first)) return true; } else if (auto i = dynamic_cast<vk::scf::IfElse*>(&n)) { for (size_t k = 0; k < i->size(); k++) if (leaves(i->at(k).first)) return true; } else if (auto w = dynamic_cast<vk::scf::While*>(&n)) return leaves(w->root()); else if (auto l = dynamic_cast<vk::scf::StructuredLoop*>(&n)) return leaves(l->root()); return false; }
static void space(vc::Run& r) {
    vk::init(); auto all = nests(); for (auto& x : for_loops()) all.push_back(x); for (auto& x : cleanups()) all.push_back(x);
    for (auto& x : std::vector<std::string>{
        // what bounds refer to changes
        "k := $(0|1|M); for i=$(k|0|k-1)..$(N|4|k+3) { $(k := k+1;|k := k+5;|k := 0-3;|k = B[i];|nop;) $(A[i]|A[k]) = B[i] + 1; $(|k := k+1;) }",
        "for i=0..N { k := $(i|2*i|i+1|M); for j=$(k|0|i)..$(k+2|k|M|N) { $(A[j]|A[j+k]|A[i]) = B[j] + 1; $(|k := $(j|0);|if (j > 1) { k := 0; }) } }",
        // headers
        "for (i = $(0|1|0-3|M|0-M|N); $(i < N|i <= N|i < N and i < M|i < N or i < M|N > i|i < N-1|i <= N+2|i < 2*N|2*i < N|i+1 < N|i < 4|i != 4|i < N and i != 2|i == M|i > M|i >= 0-2|i <= N and M > i); i = $(i+1|i+2|i+M|2*i|2*i+1|i*i+1|i-1|N-i|i*M|i+k)) { A[i] = B[i] + 1; $(|if (i > 20) { break; }|if (i < 0-20) { break; }|if (i > 20 or i < 0-20) { break; }) }",
        "k := $(1|2|0-1); for (i = $(0|2); $(i < 7|i <= N|i < 7 and i > 0-3); i = $(i+k|i+2*k|k*i+1)) { A[i] = B[i] + 1; $(|k := $(1|3|0-1);) }",
        // accesses under conditions
        "for i=$(0|0-2|M)..$(N|5|k) { if ($(i > 0|i < 6|i >= 2 and i < 4|p > 0)) { $(T[i] = 1;|T[i-2] = 1;|T[i+3] = B[0] + 1;|A[i-1] = 1;|A[0] = T[i+2] + 1;|G2[0][i+1] = 1;|G2[i-1][0] = 1;|T[2*i] = 1;|T[3-i] = 1;) } }",
        "for i=$(0|0-2|M)..$(N|5|k):$(1|2) { $(T[i] = 1;|T[i-2] = 1;|T[i+3] = B[0] + 1;|A[i-1] = 1;|A[i+2] = 1;|A[0] = T[i+2] + 1;|G2[0][i+1] = 1;|G2[i-1][0] = 1;|T[2*i] = 1;|T[3-i] = 1;|T[5*i] = 1;|T[i/2] = 1;) }",
        "for i=0..$(N|M) { for j=$(i|0|i+1|M)..$(N|i|M|i+3|N-i) { $(T[j]|A[j]|A[i+j]|T[j-i]|G2[i][j]|A[j-1]) = B[j] + 1; } }",
        // one variable for two loops, and after them
        "for i=0..N { $(A[i] = 1;|nop;) } $(A[i] = 2;|for i=$(3|i)..$(N+3|6) { A[i] = 3; }|k := i; for j=k..6 { B[j] = i + 1; }|loop { i := i+1; if (i > 9) { break; } })",
        "for c=0..$(p|4) { for d=$(c|0)..$(q+3|p|c+2) { $(A[c]|A[d]) = d + 1; } }",
        "d := 5; for i=0..N { if (i < d) { $(d := d-1;|d := i;|nop;) A[i] = d + 1; } } $(|if (d < N) { for j=d..N { A[j] = 1; } })",
        "loop { k := k+1; if ($(k > N|k >= 4)) { break; } for i=k..$(N|4) { A[i] = 1; $(|k := $(k+1|7);) } }",
        "k := 0; l := $(3|N); for i=k..l { $(l := l-1;|k := i;|A[k] = 1;|m := l; for j=i..m { $(A[j] = 1;|l := $(j|0);) }) }"}) all.push_back(x);
    for (auto& tmpl : all) {
        vp::Template t(tmpl, r.thorough);
        for (int64_t k = 0; k < t.size(); k++) {
            std::string src = t.at(k); static const std::regex data("(^|[ ;{])[a-z] = [^;)]*[;]"); bool flows = false; for (std::sregex_iterator z(src.begin(), src.end(), data), end; z != end; ++z) flows |= z->position() == 0 || src.substr(0, z->position() + 1).rfind("(") == std::string::npos || src.substr(0, z->position() + 1).rfind("(") < src.substr(0, z->position() + 1).rfind(")"); if (src.find("for") == std::string::npos && src.find("map") == std::string::npos) continue;
            r.kase([=] { return src; }, [=, &r] {
                auto s = vp::build(src); try { s->validate(); } catch (std::exception&) { r.count(vc::Run::AUX0); return; }
                analysis::AnalysisManager am(*s); analysis::AssumptionsAnalysis* aa; try { aa = &am.get<analysis::AssumptionsAnalysis>(); } catch (std::exception& e) { r.report("throws|" + src, std::string("the analysis threw ") + e.what()); return; }
                // what the condition and the update of a loop mention is constant in its body by definition
                auto& users = am.get<analysis::Users>();
                for (auto* l : vk::loops(*s)) { analysis::UsersView body(users, l->root()); auto syms = symbolic::atoms(l->condition()); for (auto& q : symbolic::atoms(l->update())) syms.insert(q); syms.insert(l->indvar()); for (auto& q : syms) if (!body.writes(q->get_name()).empty()) { r.count(vc::Run::AUX0); return; } }
                Claims cl; std::vector<vk::scf::ControlFlowNode*> ns; vk::nodes(s->root(), ns); std::set<const void*> early; for (auto* n : ns) { cl.add(*aa, *n); if (auto l = dynamic_cast<vk::scf::StructuredLoop*>(n)) if (leaves(l->root())) early.insert(l); }
                if (!cl.facts) { r.count(vc::Run::AUX0 + 1); return; }
                std::set<std::string> kinds; long runs = 0, checked = 0;
                for (auto& e : vk::envs(src, r.thorough)) {
                    if (e.fill && !flows) continue;
                    Monitor m; m.aa = aa; m.claims = &cl;
                    auto o = vp::run(*s, e, [&](vi::Interp& in) {
                        m.in = &in; in.outside = &m.outside; for (auto& q : aa->parameters()) { auto v = m.now(q->get_name()); if (v) m.params[q->get_name()] = *v; }
                        in.on_node = [&](const vk::scf::ControlFlowNode& n) { m.node(n); };
                        in.on_iter = [&](const vk::scf::StructuredLoop& l, int64_t v) { m.iter(l, v); };
                        in.on_loop = [&](const vk::scf::ControlFlowNode& n, bool enter) { m.loop(n, enter, early); };
                    }, 400);
                    checked += m.checked; if (o.kind != vp::Outcome::Ok || m.outside) continue; runs++;
                    static bool told = false; if (!m.known.empty() && !told && (told = true)) r.report("after_init", src + " with " + e.str() + ": " + m.known);
                    if (!m.bad.empty() && kinds.insert(m.kind).second) r.report(m.kind + "|" + src, "with " + e.str() + ": " + m.bad);
                }
                r.count(vc::Run::TRANS, checked); r.count(vc::Run::AUX0 + 2, runs); if (runs) r.nontrivial(vc::hash_str(src));
            });
        }
    }
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every program of the loop-nest, clean-up and assumption grammars x every input x every assumption (bounds, constants, first and last value, next value, parameters) at every point control reaches";
    o.extra_counters = {{8, "programs_out_of_scope"}, {9, "no_assumptions"}, {10, "runs"}}; o.hang_s = 10;
    return vc::main_impl(argc, argv, space, o);
}
