// C30: the C and C++ generated for a program compile and do what the program says.
#include "cgen.h"
#include "cleanups.h"
#include "nests.h"
#include "cgtypes.h"
#include "cgexprs.h"
using namespace sdfg;
using PT = types::PrimitiveType;
using cg::Lang;
static cg::Batch batch;
static const int GROUP = 120;

// Calls the compiled function on one input; the outcome has the form of the interpreter's.
static vp::Outcome call(cg::Unit& u, const StructuredSDFG& s, const vp::Env& e, const vp::Outcome& ref) {
    vp::Outcome o; o.mem = ref.mem;
    std::vector<void*> args; std::list<int64_t> scalars; std::list<std::vector<unsigned char>> bufs; std::map<std::string, std::vector<unsigned char>*> by;
    for (auto& n : s.arguments()) {
        auto& t = s.type(n);
        if (t.type_id() == types::TypeID::Scalar) {
            scalars.push_back(n == "N" ? e.N : n == "M" ? e.M : n == "K" ? e.K : n == "p" ? e.p : n == "q" ? e.q : 7); args.push_back(&scalars.back()); continue;
        }
        PT pt = vp::Builder::elem_type(t, 0); size_t w = vi::width(pt) / 8;
        bufs.emplace_back((vp::LO + vp::HI) * w); auto& b = bufs.back(); by[n] = &b;
        for (int k = 0; k < vp::LO + vp::HI; k++) {
            int64_t x = e.fill == 0 ? (int64_t)n[0] * 1000 + k * 7 : e.fill == 1 ? (k * 5 + n[0]) % 4 : k % 2 ? -(int64_t)k - n[0] : k % 3;
            if (pt == PT::Double) { double d = (double)x + 0.5; memcpy(&b[k * w], &d, 8); } else if (pt == PT::Float) { float d = (double)x + 0.5; memcpy(&b[k * w], &d, 4); } else memcpy(&b[k * w], &x, w);
        }
        args.push_back(&b[vp::LO * w]);
    }
    int64_t* L = nullptr;
    if (!s.externals().empty()) { L = (int64_t*)dlsym(u.lib, "L"); *L = 41; }
    alignas(16) unsigned char ret[64] = {0};
    u.f(args.data(), ret);
    o.has_ret = ref.has_ret; o.ret = ref.ret; o.ret.poison = false;
    if (ref.has_ret) { int64_t v; memcpy(&v, ret, 8); o.ret.i = v; }
    for (auto& [n, x] : o.mem) {
        std::fill(x.def.begin(), x.def.end(), 1);
        if (s.is_external(n)) memcpy(x.b.data(), L, 8); else if (by.count(n)) x.b = *by[n];
    }
    return o;
}

enum Fam { PROG, TASK, SYM, TYPE };
struct Def { Fam f; std::string src; size_t i = 0; bool thorough = false; };
static std::vector<Def> defs;
static std::vector<tk::Kernel> kernels;
static std::vector<se::Item> syms;
static std::vector<ty::Case> cases;
static std::unique_ptr<StructuredSDFG> make(const Def& d) {
    switch (d.f) { case PROG: return vp::build(d.src); case TASK: return tk::build(kernels[d.i]); case SYM: return se::build(syms[d.i]); default: return cases[d.i].make(d.i); }
}
static cg::Unit& unit(vc::Run& r, size_t i, Lang l) {
    auto k = cg::Batch::key(i, l); auto it = batch.units.find(k); if (it != batch.units.end()) return it->second;
    std::vector<cg::Batch::Item> items; auto pre = [](size_t j) { return defs[j].f == TYPE ? cases[defs[j].i].prefix : std::string(); };
    if (r.only >= 0) items.push_back({i, [i] { return make(defs[i]); }, pre(i)});
    else for (size_t j = i, n = 0; j < defs.size() && n < GROUP && defs[j].f == defs[i].f; j += r.workers, n++) items.push_back({j, [j] { return make(defs[j]); }, pre(j)});
    batch.build(items, l); r.alive();
    return batch.units[k];
}
static void space(vc::Run& r) {
    vk::init(); cg::scratch() = r.scratch;
    batch.tail[cg::C] = "long long L = 41;\n" + std::string(ty::support); batch.tail[cg::CPP] = "int64_t L = 41;\n" + std::string(ty::support);
    defs.clear();
    const char* only = getenv("C30_FAM"); auto on = [&](char c) { return !only || strchr(only, c); };
    kernels = tk::kernels(r.thorough); if (on('t')) for (size_t i = 0; i < kernels.size(); i++) defs.push_back({TASK, "", i});
    syms = se::items(r.thorough); if (on('s')) for (size_t i = 0; i < syms.size(); i++) defs.push_back({SYM, "", i});
    cases = ty::cases(r.thorough); if (only && strchr(only, 'm')) cases = ty::misc(); if (on('y') || on('m')) for (size_t i = 0; i < cases.size(); i++) defs.push_back({TYPE, "", i});
    if (on('p')) for (auto* set : {&cleanups, &nests}) for (auto& t : (*set)()) { vp::Template x(t, false); for (int64_t k = 0; k < x.size(); k++) defs.push_back({PROG, x.at(k), 0, r.thorough}); }
    for (size_t i = 0; i < defs.size(); i++) {
        auto& d = defs[i];
        r.kase([&] { return d.f == PROG ? d.src : d.f == TASK ? tk::text(kernels[d.i]) : d.f == SYM ? se::text(syms[d.i]) : cases[d.i].name; }, [&] {
            std::unique_ptr<vk::Original> o;
            if (d.f == PROG) {
                o = std::make_unique<vk::Original>(d.src, d.thorough);
                if (!o->valid) { r.count(vc::Run::AUX0); return; }
                if (!o->defined) { r.count(vc::Run::AUX0 + 1); return; }
            }
            for (auto l : {cg::C, cg::CPP}) {
                auto& u = unit(r, i, l); r.count(vc::Run::AUX0 + 2);
                if (!u.error.empty()) { r.report(std::string(cg::name(l)) + "|" + r.describe(), u.error); continue; }
                std::string m; long n = 0;
                if (d.f == PROG) for (size_t k = 0; k < o->es.size() && m.empty(); k++, n++) { m = vp::differs(o->out[k], call(u, *o->s, o->es[k], o->out[k]), *o->s); if (!m.empty()) m = "with " + o->es[k].str() + ": " + m; r.alive(); }
                else if (d.f == TASK) m = tk::run(kernels[d.i], u, n);
                else if (d.f == SYM) m = se::run(syms[d.i], u, n);
                else { auto s = make(d); m = cases[d.i].run(u, l, n, *s); }
                r.count(vc::Run::TRANS, n); if (n) r.nontrivial(vc::hash_str(r.describe())); else r.count(vc::Run::AUX0 + 3);
                if (!m.empty()) r.report(std::string(cg::name(l)) + "|" + r.describe(), m);
            }
        });
    }
}
int main(int argc, char** argv) {
    vc::Options o; o.coverage_rule = "every program of the families (control and data flow, every tasklet on every operand type and boundary operand, symbolic expressions and conditions, composite types) x {C, C++} x every input";
    o.extra_counters = {{8, "invalid_programs"}, {9, "programs_without_defined_input"}, {10, "generated"}, {11, "no_input"}};
    o.hang_s = 20;
    return vc::main_impl(argc, argv, space, o);
}
