// Runs histories of the instrumentation interface against a stand-in counter library and a reference model.
// Time and counters move only between operations, so the model knows every value whatever order the code reads them in.
#pragma once
#include "vc.h"
#include <cmath>
#include <dlfcn.h>
#include <nlohmann/json.hpp>
#include "daisy_rtl/daisy_rtl.h"
namespace in {
using json = nlohmann::json;
enum K { INIT, ENTER, EXIT, FIN, METRIC, INCR };
struct Op { K k; int reg; int name = 0; double val = 0; };
struct Meta { std::string file = "/src/dir/mod.c", func = "f", sdfg = "s", sdfg_file = "s.json", cap = "cap", feat = "feat", rep = "rep", elem = "map", target = "omp", uuid; unsigned null_mask = 0; int base = 10; };
struct Config {
    std::vector<std::string> cpu, cuda; bool aggregate = false, set_mode = true;
    std::vector<Meta> metas; std::vector<int> kinds; // per region
    int profile = 0;                                  // how time and counters advance
};
struct Ev { long long start, end; std::vector<long long> counts; bool closed = false; };
struct Stat { std::vector<long double> v; };
struct Reg { size_t id = 0; bool known = false; int live = 0; std::vector<int> open; std::vector<Ev> evs; std::vector<std::vector<long long>> at_enter; std::map<std::string, Stat> metrics; int own = -1; };
struct Set { bool exists = true, running = false; std::vector<std::string> events; std::vector<long long> at_start; int reg = -1; };

struct View { long long clock = 1000000, step = 0; std::map<std::string, long long> ctr; int cur_reg = -1; };
inline thread_local View* V = nullptr;
struct World {
    View main;
    std::vector<Set> sets;
    bool closing = false, concurrent = false;
    std::string err, errkey;
    void bad(const char* key, const std::string& m) { if (err.empty()) { errkey = key; err = m; } }
    std::vector<long long> values(int s) { std::vector<long long> v; for (size_t i = 0; i < sets[s].events.size(); i++) v.push_back(V->ctr[sets[s].events[i]] - (i < sets[s].at_start.size() ? sets[s].at_start[i] : 0)); return v; }
    void advance(int profile) {
        auto& step = V->step; auto& clock = V->clock; auto& ctr = V->ctr;
        step++;
        static const long long T[][6] = {{1000, 2500, 7, 1234567, 90001, 333}, {1, 1, 0, 2, 1, 3}, {12345678901ll, 98765432109ll, 1000000001ll, 5000000000ll, 777, 31415926535ll}, {1000, 1000, 1000, 1000, 1000, 1000}, {0, 0, 0, 0, 0, 0}};
        clock += T[profile % 5][(step * step + 3 * step) % 6];
        int n = 0;
        for (auto& c : ctr) { n++; long long d[] = {1, 17, 123456789, 0, 1000000007ll * 1000, 42}; c.second += d[(step * (n + 1) + n * n) % 6] + n; if (profile == 4) c.second -= d[(step * (n + 1) + n * n) % 6]; }
    }
};
inline World* W = nullptr;
inline void (*papi_hook)(int op) = nullptr; // called at the start of every library call
inline const char* OPN[] = {"library_init", "create", "cleanup", "destroy", "add_event", "start", "stop", "reset", "read"};
extern "C" __attribute__((visibility("default"), used)) inline long long fp_clock() { if (papi_hook) papi_hook(20); return V->clock; }
extern "C" __attribute__((visibility("default"), used)) inline int fp_call(int op, int s, const char* name, long long* values, int* pset) {
    if (papi_hook) papi_hook(op);
    World& w = *W;
    if (op == 0) return s;
    if (op == 1) { w.sets.push_back({}); w.sets.back().reg = V->cur_reg; *pset = w.sets.size() - 1; return 0; }
    if (s < 0 || s >= (int) w.sets.size() || !w.sets[s].exists) { w.bad("use_after_destroy", std::string("call of ") + OPN[op] + " on an event set that does not exist (" + std::to_string(s) + ")"); return -1; }
    Set& e = w.sets[s];
    if (!w.closing && op != 2 && op != 3 && e.reg != V->cur_reg) w.bad("foreign_set", std::string("call of ") + OPN[op] + " for one region on the event set of another");
    switch (op) {
        case 2: if (e.running) { w.bad("cleanup_running", "clean-up of a running event set"); return -10; } e.events.clear(); return 0;
        case 3: if (e.running || !e.events.empty()) { w.bad("destroy_busy", "destroy of an event set that is running or not cleaned up"); return -10; } e.exists = false; *pset = -1; return 0;
        case 4: if (e.running) { w.bad("add_running", "an event is added to a running event set"); return -10; } e.events.push_back(name); V->ctr.emplace(name, 5); return 0;
        case 5: if (e.events.empty()) return -1; if (e.running) { w.bad("start_running", "start of a running event set"); return -10; } e.running = true; e.at_start.clear(); for (auto& n : e.events) e.at_start.push_back(V->ctr[n]); return 0;
        case 6: case 8: {
            if (!e.running) { w.bad(op == 6 ? "stop_stopped" : "read_stopped", std::string(OPN[op]) + " of an event set that is not running"); return -9; }
            auto v = w.values(s); if (values) for (size_t i = 0; i < v.size(); i++) values[i] = v[i];
            if (op == 6) e.running = false;
            return 0; }
        case 7: e.at_start.clear(); for (auto& n : e.events) e.at_start.push_back(V->ctr[n]); return 0;
    }
    return 0;
}
struct ExitCalled {};
struct Api {
    void* so = nullptr;
    size_t (*init)(__daisy_metadata*, enum __daisy_event_set); void (*fin)(size_t); void (*enter)(size_t); void (*exit_)(size_t);
    void (*incr)(size_t, const char*, long long); void (*metric)(size_t, const char*, double);
    void open() {
        so = dlopen(getenv("VC_SO_INSTR"), RTLD_NOW | RTLD_LOCAL);
        if (!so) { fprintf(stderr, "%s\n", dlerror()); _exit(77); }
        auto g = [&](const char* n) { void* p = dlsym(so, n); if (!p) _exit(78); return p; };
        init = (decltype(init)) g("__daisy_instrumentation_init"); fin = (decltype(fin)) g("__daisy_instrumentation_finalize");
        enter = (decltype(enter)) g("__daisy_instrumentation_enter"); exit_ = (decltype(exit_)) g("__daisy_instrumentation_exit");
        incr = (decltype(incr)) g("__daisy_instrumentation_increment"); metric = (decltype(metric)) g("__daisy_instrumentation_metric");
    }
    void close() { dlclose(so); so = nullptr; }
};
inline const char* MN[] = {"flops", "bytes", "a\"b"};
inline std::string show(const std::vector<Op>& h) {
    std::string s; const char* n[] = {"init", "enter", "exit", "fin", "metric", "incr"};
    for (auto& o : h) { s += std::string(" ") + n[o.k] + "(" + char('A' + o.reg); if (o.k >= METRIC) { char b[40]; snprintf(b, sizeof b, ",%s,%g", MN[o.name], o.val); s += b; } s += ")"; }
    return s;
}
struct Md { __daisy_metadata md; };
inline __daisy_metadata make_md(const Meta& m) {
    __daisy_metadata d; memset(&d, 0, sizeof d);
    auto p = [&](int bit, const std::string& s) { return (m.null_mask >> bit & 1) ? nullptr : s.c_str(); };
    d.file_name = m.file.c_str(); d.function_name = m.func.c_str(); d.line_begin = m.base; d.line_end = m.base + 5; d.column_begin = m.base + 1; d.column_end = m.base + 2;
    d.sdfg_name = p(0, m.sdfg); d.sdfg_file = p(1, m.sdfg_file); d.arg_capture_path = p(2, m.cap); d.features_file = p(3, m.feat); d.opt_report_file = p(4, m.rep);
    d.element_id = m.base * 7; d.element_type = m.elem.c_str(); d.target_type = p(5, m.target);
    d.loopnest_index = m.base - 12; d.num_loops = m.base + 20; d.num_maps = m.base + 21; d.num_fors = m.base + 22; d.num_whiles = m.base + 23; d.max_depth = m.base + 24;
    d.is_perfectly_nested = m.base & 1; d.is_perfectly_parallel = m.base & 2; d.is_elementwise = m.base & 4; d.has_side_effects = m.base & 8;
    d.region_uuid = m.uuid.c_str();
    return d;
}
struct Runner {
    vc::Run& r; const Config& c; World w; std::vector<Reg> regs; Api api; std::string file;
    std::vector<__daisy_metadata> mds;
    Runner(vc::Run& r, const Config& c) : r(r), c(c) {}
    const std::vector<std::string>& events(int reg) { static std::vector<std::string> none; return c.kinds[reg] == 0 ? c.cpu : c.kinds[reg] == 1 ? c.cuda : none; }
    void start() {
        W = &w; V = &w.main;
        file = r.scratch + "/trace.json"; unlink(file.c_str());
        auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ",") + x; return s; };
        setenv("DAISY_PAPI_PATH", getenv("VC_SO_FAKEPAPI"), 1); setenv("__DAISY_PAPI_VERSION", "0x7010000", 1);
        if (c.aggregate) setenv("__DAISY_INSTRUMENTATION_MODE", "aggregate", 1); else if (c.set_mode) setenv("__DAISY_INSTRUMENTATION_MODE", "none", 1); else unsetenv("__DAISY_INSTRUMENTATION_MODE");
        setenv("__DAISY_INSTRUMENTATION_FILE", file.c_str(), 1);
        setenv("__DAISY_INSTRUMENTATION_EVENTS", join(c.cpu).c_str(), 1); setenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA", join(c.cuda).c_str(), 1);
        if (c.cpu.empty() && !c.set_mode) unsetenv("__DAISY_INSTRUMENTATION_EVENTS");
        for (auto& e : c.cpu) V->ctr[e] = 100; for (auto& e : c.cuda) V->ctr[e] = 200;
        regs.resize(c.metas.size());
        for (auto& m : c.metas) mds.push_back(make_md(m));
        api.open();
    }
    void check_world() { if (!w.err.empty()) { std::string k = w.errkey, e = w.err; r.fail(k, e); } }
    void apply(const Op& o) {
        w.advance(c.profile);
        r.count(vc::Run::TRANS);
        V->cur_reg = o.reg;
        Reg& g = regs[o.reg];
        int ne = events(o.reg).size();
        switch (o.k) {
            case INIT: {
                size_t id = api.init(&mds[o.reg], (enum __daisy_event_set) c.kinds[o.reg]);
                check_world();
                if (g.known && id != g.id) r.fail("region_id", "registering the same region again gave another id");
                for (auto& x : regs) if (&x != &g && x.known && x.id == id) r.fail("region_id", "two regions share an id");
                g.known = true; g.id = id; g.live++; break; }
            case ENTER: { Ev e; e.start = V->clock; e.end = 0; for (auto& n : events(o.reg)) e.counts.push_back(V->ctr[n]); g.open.push_back(g.evs.size()); g.evs.push_back(e); api.enter(g.id); break; }
            case EXIT: { auto& e = g.evs[g.open.back()]; g.open.pop_back(); e.end = V->clock; e.closed = true; for (int i = 0; i < ne; i++) e.counts[i] = V->ctr[events(o.reg)[i]] - e.counts[i]; api.exit_(g.id); break; }
            case FIN: api.fin(g.id); if (g.live) g.live--; break;
            case METRIC: g.metrics[MN[o.name]].v.push_back(o.val); api.metric(g.id, MN[o.name], o.val); break;
            case INCR: g.metrics[MN[o.name]].v.push_back((long long) o.val); api.incr(g.id, MN[o.name], (long long) o.val); break;
        }
        check_world();
        // every live region owns exactly one running set with exactly the configured events
        for (size_t i = 0; i < regs.size(); i++) {
            if (w.concurrent && (int) i != o.reg) continue; // others may be in the middle of a call
            int own = 0, alive = 0;
            for (auto& s : w.sets) if (s.reg == (int) i && s.exists) { alive++; if (s.running) { own++; if (s.events != events(i)) r.fail("wrong_events", std::string("region ") + char('A' + i) + " runs an event set with other events than configured"); } }
            if (alive > 1) r.fail("leaked_set", std::string("region ") + char('A' + i) + " holds " + std::to_string(alive) + " event sets");
            if (regs[i].live && !events(i).empty() && own != 1) r.fail("not_started", std::string("live region ") + char('A' + i) + " has no started event set");
            if (!regs[i].live && own) r.fail("not_stopped", std::string("finalized region ") + char('A' + i) + " still has a running event set");
        }
    }
    json finish() {
        w.advance(c.profile);
        w.closing = true; V->cur_reg = -1;
        api.close();
        check_world();
        for (size_t i = 0; i < regs.size(); i++) if (regs[i].known && !regs[i].live) for (auto& s : w.sets) if (s.reg == (int) i && s.exists) r.fail("leaked_set", std::string("the event set of finalized region ") + char('A' + i) + " is not destroyed at exit");
        std::ifstream f(file); std::stringstream ss; ss << f.rdbuf();
        json j;
        try { j = json::parse(ss.str()); } catch (std::exception& e) { r.fail("invalid_json", std::string(e.what()) + "\n" + ss.str().substr(0, 1500)); }
        if (!j.contains("traceEvents") || !j["traceEvents"].is_array()) r.fail("invalid_json", "no traceEvents array");
        return j;
    }
    void check_meta(const json& e, int i) {
        const Meta& m = c.metas[i];
        const json& a = e.at("args");
        auto eq = [&](const json& x, const json& y, const char* what) { if (x != y) r.fail("metadata", std::string(what) + ": " + x.dump() + ", expected " + y.dump()); };
        auto opt = [&](int bit, const std::string& s) { return (m.null_mask >> bit & 1) ? std::string() : s; };
        if (e.at("name").get<std::string>().find(m.func) != 0) r.fail("metadata", "event name " + e["name"].dump());
        eq(e.at("ph"), "X", "ph");
        eq(a.at("function"), m.func, "function"); eq(a.at("module"), m.file.substr(m.file.rfind('/') + 1), "module");
        auto& s = a.at("source_ranges").at(0);
        eq(s.at("file"), m.file, "file"); eq(s.at("from").at("line"), m.base, "from.line"); eq(s.at("to").at("line"), m.base + 5, "to.line"); eq(s.at("from").at("col"), m.base + 1, "from.col"); eq(s.at("to").at("col"), m.base + 2, "to.col");
        auto& d = a.at("docc");
        eq(d.at("sdfg_name"), opt(0, m.sdfg), "sdfg_name"); eq(d.at("sdfg_file"), opt(1, m.sdfg_file), "sdfg_file"); eq(d.at("arg_capture_path"), opt(2, m.cap), "arg_capture_path");
        eq(d.at("features_file"), opt(3, m.feat), "features_file"); eq(d.at("opt_report_file"), opt(4, m.rep), "opt_report_file"); eq(a.at("target_type"), opt(5, m.target), "target_type");
        if (!(m.null_mask & 3)) {
            eq(d.at("element_id"), m.base * 7, "element_id"); eq(d.at("element_type"), m.elem, "element_type");
            auto& l = d.at("loop_info"); eq(l.at("loopnest_index"), m.base - 12, "loopnest_index"); eq(l.at("num_loops"), m.base + 20, "num_loops"); eq(l.at("num_maps"), m.base + 21, "num_maps"); eq(l.at("num_fors"), m.base + 22, "num_fors");
            eq(l.at("num_whiles"), m.base + 23, "num_whiles"); eq(l.at("max_depth"), m.base + 24, "max_depth"); eq(l.at("is_perfectly_nested"), (m.base & 1) != 0, "is_perfectly_nested"); eq(l.at("is_perfectly_parallel"), (m.base & 2) != 0, "is_perfectly_parallel");
            eq(l.at("is_elementwise"), (m.base & 4) != 0, "is_elementwise"); eq(l.at("has_side_effects"), (m.base & 8) != 0, "has_side_effects");
        }
    }
    static bool near(long double a, long double b, long double abs_, long double rel = 1e-9L) { return fabsl(a - b) <= abs_ + rel * fmaxl(fabsl(a), fabsl(b)); }
    // which region an event belongs to: by its source line
    int owner(const json& e) { for (size_t i = 0; i < c.metas.size(); i++) if (e.at("args").at("source_ranges").at(0).at("from").at("line") == c.metas[i].base) return i; return -1; }
    void check_plain(const json& j) {
        std::vector<std::vector<json>> by(regs.size());
        for (auto& e : j["traceEvents"]) { int i = owner(e); if (i < 0) r.fail("unknown_event", e.dump()); by[i].push_back(e); }
        for (size_t i = 0; i < regs.size(); i++) {
            std::vector<Ev> want; for (auto& e : regs[i].evs) if (e.closed) want.push_back(e);
            if (by[i].size() != want.size()) r.fail("event_count", std::string("region ") + char('A' + i) + ": " + std::to_string(by[i].size()) + " events, expected " + std::to_string(want.size()));
            for (size_t k = 0; k < want.size(); k++) {
                auto& e = by[i][k]; auto& x = want[k];
                std::string what = std::string("region ") + char('A' + i) + " event " + std::to_string(k) + ": ";
                check_meta(e, i);
                if (!near(e.at("ts").get<double>() * 1000, x.start, 1000, 1e-15L)) r.fail("start", what + "ts " + e["ts"].dump() + ", expected " + std::to_string(x.start) + " ns");
                if (!e.contains("dur") || !near(e["dur"].get<double>() * 1000, x.end - x.start, 0.5)) r.fail("duration", what + "dur " + (e.contains("dur") ? e["dur"].dump() : "absent") + ", expected " + std::to_string(x.end - x.start) + " ns");
                auto& m = e.at("args").at("metrics");
                if (m.size() != events(i).size()) r.fail("counters", what + "metrics " + m.dump());
                for (size_t q = 0; q < events(i).size(); q++) if (!m.contains(events(i)[q]) || m[events(i)[q]] != x.counts[q]) r.fail("counters", what + "metrics " + m.dump() + ", expected " + events(i)[q] + "=" + std::to_string(x.counts[q]));
            }
        }
    }
    void check_stat(const json& s, const std::vector<long double>& v, long double unit, const std::string& what) {
        size_t n = v.size();
        if (s.at("count") != n) r.fail("count", what + ": count " + s["count"].dump() + ", expected " + std::to_string(n));
        if (!n) return;
        bool fin = true; for (auto x : v) if (!std::isfinite((double) x)) fin = false;
        if (!fin) return;
        long double m = 0; for (auto x : v) m += x; m /= n;
        long double var = 0; for (auto x : v) var += (x - m) * (x - m); var /= n;
        long double mn = *std::min_element(v.begin(), v.end()), mx = *std::max_element(v.begin(), v.end());
        long double scale = std::max(fabsl(mn), fabsl(mx)) / unit;
        auto num = [&](const char* k, long double want, long double abs_) { if (!s.at(k).is_number() || !near(s[k].get<double>(), want, abs_ + 1e-12L)) { char b[200]; snprintf(b, sizeof b, "%s %s, expected %.12Lg", k, s[k].dump().c_str(), want); r.fail(k, what + ": " + b); } };
        num("mean", m / unit, scale * 1e-9L); num("variance", var / (unit * unit), scale * scale * 1e-9L); num("min", mn / unit, 0); num("max", mx / unit, 0);
    }
    void check_counts(const json& j) {
        std::vector<size_t> got(regs.size());
        for (auto& e : j["traceEvents"]) { int i = owner(e); if (i < 0) r.fail("unknown_event", e.dump()); got[i] += c.aggregate ? e.at("args").at("metrics").at("runtime").at("count").get<size_t>() : 1; }
        for (size_t i = 0; i < regs.size(); i++) { size_t n = 0; for (auto& e : regs[i].evs) n += e.closed; if (got[i] != n) r.fail("measurements", std::string("region ") + char('A' + i) + " kept " + std::to_string(got[i]) + " measurements of " + std::to_string(n)); }
    }
    void check_aggregate(const json& j) {
        std::vector<int> seen(regs.size());
        for (auto& e : j["traceEvents"]) {
            int i = owner(e); if (i < 0) r.fail("unknown_event", e.dump());
            seen[i]++; check_meta(e, i);
            std::string what = std::string("region ") + char('A' + i);
            std::vector<long double> d; long double sum = 0; long long first = 0;
            std::vector<std::vector<long double>> cs(events(i).size());
            for (auto& x : regs[i].evs) if (x.closed) { if (d.empty()) first = x.start; d.push_back(x.end - x.start); sum += d.back(); for (size_t q = 0; q < cs.size(); q++) cs[q].push_back(x.counts[q]); }
            if (!d.empty()) {
                if (!near(e.at("ts").get<double>() * 1000, first, 1000, 1e-15L)) r.fail("start", what + ": ts " + e["ts"].dump() + ", expected " + std::to_string(first) + " ns");
            }
            if (!near(e.at("dur").get<double>() * 1000, sum, 0.5)) r.fail("duration", what + ": dur " + e["dur"].dump() + ", expected " + std::to_string((double) sum) + " ns");
            auto& m = e.at("args").at("metrics");
            check_stat(m.at("runtime"), d, 1000, what + " runtime");
            for (size_t q = 0; q < cs.size(); q++) { if (!m.contains(events(i)[q])) r.fail("counters", what + ": no " + events(i)[q]); check_stat(m[events(i)[q]], cs[q], 1, what + " " + events(i)[q]); }
            for (auto& [n, s] : regs[i].metrics) { std::string k = "static:::" + n; if (!m.contains(k)) r.fail("metrics", what + ": no " + k); check_stat(m[k], s.v, 1, what + " " + k); }
            if (m.size() != 1 + cs.size() + regs[i].metrics.size()) r.fail("metrics", what + ": " + m.dump());
        }
        for (size_t i = 0; i < regs.size(); i++) if (seen[i] != (regs[i].known ? 1 : 0)) r.fail("event_count", std::string("region ") + char('A' + i) + ": " + std::to_string(seen[i]) + " events");
    }
};
inline void run_history(vc::Run& r, const Config& c, const std::vector<Op>& h, int level = 2) {
    Runner x(r, c);
    struct G { Runner& x; ~G() { if (x.api.so) { x.w.closing = true; dlclose(x.api.so); } W = nullptr; } } g{x};
    try {
        x.start();
        for (auto& o : h) x.apply(o);
        json j = x.finish();
        uint64_t oh = 0; for (auto& g : x.regs) { oh = vc::mix(oh, g.evs.size()); for (auto& e : g.evs) oh = vc::mix(oh, e.end - e.start); for (auto& m : g.metrics) oh = vc::mix(oh, m.second.v.size()); } r.outcome(oh);
        try { if (level == 2) { if (c.aggregate) x.check_aggregate(j); else x.check_plain(j); } else x.check_counts(j); }
        catch (json::exception& e) { r.fail("malformed_event", e.what() + ("\n" + j.dump().substr(0, 1500))); }
    } catch (ExitCalled&) { r.fail("exit_called", "the runtime ended the program with a failure" + (x.w.err.empty() ? "" : " after: " + x.w.err)); }
    r.count(vc::Run::STATES); r.count(vc::Run::TRACES);
}
// all well-formed histories: every exit matches an open enter of that region, regions are entered while live,
// and a registration is finalized only when no measurement is open beyond the remaining registrations
struct Gen {
    int regions, max_live, max_open; bool metrics; int fin_dead;
    struct S { int live = 0, open = 0; bool known = false; };
    void all(size_t len, const std::function<void(const std::vector<Op>&)>& f) { std::vector<Op> h; std::vector<S> s(regions); rec(len, h, s, f); }
    void rec(size_t len, std::vector<Op>& h, std::vector<S>& s, const std::function<void(const std::vector<Op>&)>& f) {
        bool closed = true; for (auto& x : s) if (x.open) closed = false;
        if (closed) f(h);
        if (h.size() >= len) return;
        int open = 0; for (auto& x : s) open += x.open;
        if (h.size() + open > len) return;
        for (int g = 0; g < regions; g++) {
            if (g > 0 && !s[g - 1].known) break; // regions are used in order of first registration
            auto go = [&](Op o) { auto t = s[g]; auto& x = s[g]; if (o.k == INIT) { x.live++; x.known = true; } else if (o.k == ENTER) x.open++; else if (o.k == EXIT) x.open--; else if (o.k == FIN && x.live) x.live--; h.push_back(o); rec(len, h, s, f); h.pop_back(); s[g] = t; };
            if (s[g].live < max_live) go({INIT, g});
            if (s[g].live && s[g].open < max_open) go({ENTER, g});
            if (s[g].open) go({EXIT, g});
            if (s[g].live && (s[g].live > 1 || !s[g].open)) go({FIN, g});
            else if (fin_dead && s[g].known && !s[g].live) go({FIN, g});
            if (metrics && s[g].known) { go({METRIC, g, 0, 1.5 + h.size()}); go({INCR, g, 1, 3.0 * h.size()}); }
        }
    }
};
inline std::vector<Meta> metas(int n) { std::vector<Meta> v(n); for (int i = 0; i < n; i++) { v[i].uuid = std::string("u") + std::to_string(i); v[i].base = 10 + 13 * i; v[i].func = std::string("fn") + std::to_string(i); v[i].file = "/src/m" + std::to_string(i) + ".c"; } return v; }
} // namespace in
extern "C" __attribute__((visibility("default"), noreturn)) void exit(int) { if (in::W) throw in::ExitCalled(); _exit(79); }
