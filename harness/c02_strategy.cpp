// C02: which invocations are captured, over all short histories of enter/finish calls.
#include "capdir.h"
static const char* STRAT[] = {nullptr, "once", "all", "never", "bogus", ""};
struct Op { int kind, ctx, el; }; // kind 0: enter, 1: finish (capture if asked to, then end), 2: end without capturing
static const size_t ELS[2] = {1, 11};
static const char* NAMES[2] = {"k", "k1"};
static std::string show(int strat, int cfg, const std::vector<Op>& h) {
    std::string s = std::string("strategy=") + (STRAT[strat] ? STRAT[strat] : "(unset)") + " dirs=" + std::to_string(cfg) + ":";
    for (auto& o : h) s += std::string(" ") + (o.kind == 0 ? "enter" : o.kind == 1 ? "finish" : "end") + "(" + NAMES[o.ctx] + (o.kind == 0 ? "," + std::to_string(ELS[o.el]) : "") + ")";
    return s;
}
static void run(vc::Run& r, int strat, int cfg, const std::vector<Op>& h) {
    fs::path base = fs::path(r.scratch) / "c02";
    fs::remove_all(base); fs::create_directories(base);
    if (chdir(base.c_str())) abort();
    if (STRAT[strat]) setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", STRAT[strat], 1); else unsetenv("__DAISY_CAPTURE_STRATEGY_DEFAULT");
    fs::path dir = base / "arg_captures"; // default
    std::string arg = (base / "given").string(), env = (base / "fromenv").string();
    if (cfg & 1) dir = arg;
    if (cfg & 2) { setenv("__DAISY_CAPTURE_BASE_DIR", env.c_str(), 1); dir = env; } else unsetenv("__DAISY_CAPTURE_BASE_DIR");
    __daisy_capture_t* ctx[2];
    for (int i = 0; i < 2; i++) ctx[i] = __daisy_capture_init(NAMES[i], cfg & 1 ? arg.c_str() : nullptr);
    int inv[2][2] = {{-1, -1}, {-1, -1}}; int active[2] = {-1, -1}; bool en[2] = {false, false};
    std::map<IdxKey, std::pair<uint32_t, uint32_t>> want; std::map<IdxKey, int> first_seen;
    uint32_t stamp = 1; size_t bins = 0;
    for (auto& o : h) {
        r.count(vc::Run::TRANS);
        if (o.kind == 0) {
            inv[o.ctx][o.el]++; active[o.ctx] = o.el;
            bool expect = strat == 2 ? true : strat == 3 ? false : inv[o.ctx][o.el] == 0;
            bool got = __daisy_capture_enter(ctx[o.ctx], ELS[o.el]);
            if (got != expect) r.fail("enter", std::string("entering ") + NAMES[o.ctx] + " element " + std::to_string(ELS[o.el]) + " (invocation " + std::to_string(inv[o.ctx][o.el]) + ") asked " + (got ? "to capture" : "not to capture"));
            en[o.ctx] = expect;
        } else if (active[o.ctx] >= 0) {
            if (o.kind == 1 && en[o.ctx]) {
                uint32_t a = stamp++, b = stamp++;
                __daisy_capture_raw(ctx[o.ctx], 0, &a, 4, 4, false, ELS[active[o.ctx]]);
                __daisy_capture_raw(ctx[o.ctx], 0, &b, 4, 4, true, ELS[active[o.ctx]]);
                IdxKey k{NAMES[o.ctx], std::to_string(ELS[active[o.ctx]]), inv[o.ctx][active[o.ctx]]};
                want[k] = {a, b}; bins += 2;
            }
            if (o.kind == 1 && !en[o.ctx] && strat == 3) { uint32_t a = 7; __daisy_capture_raw(ctx[o.ctx], 0, &a, 4, 4, false, ELS[active[o.ctx]]); __daisy_capture_1d(ctx[o.ctx], 0, &a, 4, 4, 1, false, 1); __daisy_capture_2d(ctx[o.ctx], 0, &a, 4, 4, 1, 1, false, 1); __daisy_capture_3d(ctx[o.ctx], 0, &a, 4, 4, 1, 1, 1, false, 1); }
            __daisy_capture_end(ctx[o.ctx]);
            active[o.ctx] = -1;
        } else __daisy_capture_end(ctx[o.ctx]);
        std::string err; int other;
        auto got = read_dir(dir, err, other);
        if (!err.empty()) r.fail("dir:malformed", err);
        if (got.size() != want.size()) r.fail("dir:indices", std::to_string(got.size()) + " invocations on disk, expected " + std::to_string(want.size()));
        for (auto& [k, v] : want) {
            if (!got.count(k)) r.fail("dir:missing", "no index for " + std::get<0>(k) + "/" + std::get<1>(k) + "/" + std::to_string(std::get<2>(k)));
            for (int af = 0; af < 2; af++) {
                auto it = got.at(k).caps.find({0, (bool) af});
                uint32_t w = af ? v.second : v.first;
                if (it == got.at(k).caps.end() || it->second.data != Bytes((uint8_t*) &w, (uint8_t*) &w + 4)) r.fail("dir:data", std::string("wrong data for ") + std::get<0>(k) + "/" + std::get<1>(k) + "/" + std::to_string(std::get<2>(k)));
            }
        }
        r.count(vc::Run::STATES);
        uint64_t st = strat; for (auto& [k, v] : want) st = vc::mix(st, vc::hash_str(std::get<0>(k) + "/" + std::get<1>(k)) + std::get<2>(k));
        for (int i = 0; i < 4; i++) st = vc::mix(st, inv[i / 2][i % 2] + 2);
        r.outcome(st);
    }
    for (auto& e : fs::directory_iterator(base)) if (e.path() != dir) r.fail("dir:where", "unexpected output " + e.path().string());
    r.count(vc::Run::TRACES);
}
static void explore(vc::Run& r) {
    std::vector<Op> al;
    for (int c = 0; c < 2; c++) { for (int e = 0; e < 2; e++) al.push_back({0, c, e}); al.push_back({1, c, 0}); }
    al.push_back({2, 0, 0});
    for (int strat = 0; strat < 6; strat++) for (int cfg = 0; cfg < 4; cfg++) {
        int depth = r.thorough ? (cfg == 0 ? 6 : 4) : (cfg == 0 ? (strat == 5 ? 4 : 5) : 3);
        std::vector<Op> h;
        std::function<void()> rec = [&] {
            if ((int) h.size() == depth) { r.kase([=] { return show(strat, cfg, h); }, [&] { r.nontrivial(vc::hash_str(show(strat, cfg, h))); run(r, strat, cfg, h); }); return; }
            for (auto& o : al) { h.push_back(o); rec(); h.pop_back(); }
        };
        rec();
    }
    // long runs of one region: exactly the named invocations, also far from the start
    for (int strat = 0; strat < 6; strat++) for (int el = 0; el < 2; el++) r.kase([=] { return std::string("40 invocations, ") + show(strat, 0, {}); }, [&] {
        std::vector<Op> h; for (int i = 0; i < 40; i++) { h.push_back({0, 0, el}); h.push_back({1, 0, 0}); if (i % 7 == 3) { h.push_back({0, 0, 1 - el}); h.push_back({1, 0, 0}); } }
        r.nontrivial(strat * 2 + el + 1); run(r, strat, 0, h);
    });
}
int main(int c, char** v) {
    vc::Options o;
    o.coverage_rule = "a case is one history of enter/finish/end calls on two targets with two elements each, of the depth bound (shorter histories are its prefixes, checked after every call), under one strategy and directory configuration; distinct by history; states: library states observed after each call";
    return vc::main_impl(c, v, explore, o);
}
