// C08: every short history of registrations over more regions than are kept cached, from several states of the cache.
#include "instr.h"
using namespace in;
static void explore(vc::Run& r) {
    std::vector<std::string> E1{"PAPI_TOT_CYC"}, E2{"PAPI_L1", "perf::INSTR:u=1"};
    auto go = [&](const Config& c, const std::vector<Op>& h, const std::string& pre, size_t skip) {
        r.kase([&] { return pre + show(std::vector<Op>(h.begin() + skip, h.end())); }, [&] { run_history(r, c, h, 1); r.nontrivial(vc::hash_str(pre + show(h))); });
    };
    auto use = [](std::vector<Op>& h, int q, bool enter) { h.push_back({INIT, q}); if (enter) { h.push_back({ENTER, q}); h.push_back({EXIT, q}); } h.push_back({FIN, q}); };
    for (int aggregate = 0; aggregate < 2; aggregate++) for (int kinds = 0; kinds < 3; kinds++) for (int pre : {0, 9, 10, 11, 12}) {
        if (aggregate && kinds) continue;
        int n = pre + 3;
        Config c; c.aggregate = aggregate; c.cpu = E1; c.cuda = E2; c.metas = metas(n); c.kinds.resize(n);
        for (int i = 0; i < n; i++) c.kinds[i] = kinds == 0 ? 0 : kinds == 1 ? i % 2 : (i % 3);
        std::vector<Op> base; for (int i = 0; i < pre; i++) use(base, i, i % 3 == 0);
        // the regions to play with: the oldest and the youngest used ones, and fresh ones
        std::vector<int> who; if (pre) { who = {0, 1, pre - 1}; if (pre > 9) who.push_back(2); } who.push_back(pre); if (!pre) { who.push_back(1); who.push_back(2); }
        size_t depth = (kinds || aggregate ? 3 : 4) + (r.thorough ? 1 : 0);
        struct S { int live = 0; bool known = false; };
        std::vector<S> s(n); for (int i = 0; i < pre; i++) s[i].known = true;
        std::vector<Op> h = base;
        std::string tag = std::string(aggregate ? "[aggregate" : "[trace") + " kinds" + std::to_string(kinds) + " after " + std::to_string(pre) + " used regions]";
        std::function<void(size_t)> rec = [&](size_t d) {
            if (d) go(c, h, tag, base.size());
            if (d == depth) return;
            for (int q : who) {
                S t = s[q]; size_t l = h.size();
                auto next = [&] { rec(d + 1); h.resize(l); s[q] = t; };
                if (t.live < 2) { h.push_back({INIT, q}); s[q].live++; s[q].known = true; next(); }
                if (t.live) { h.push_back({FIN, q}); s[q].live--; next(); }
                else if (t.known && d < 3) { h.push_back({FIN, q}); next(); }
                if (t.live) { h.push_back({ENTER, q}); h.push_back({EXIT, q}); next(); }
                if (!t.live) { use(h, q, true); s[q].known = true; next(); }
            }
        };
        rec(0);
    }
    // round robins around the size of the cache
    for (int n = 9; n <= 14; n++) for (int step = 1; step <= 5; step++) for (int live = 0; live < 4; live++) {
        Config c; c.cpu = E1; c.cuda = E2; c.metas = metas(n + live); c.kinds.resize(n + live); for (int i = 0; i < n + live; i++) c.kinds[i] = i % 2;
        std::vector<Op> h; for (int i = 0; i < live; i++) h.push_back({INIT, n + i});
        for (int k = 0; k < 50; k++) use(h, (k * step) % n, true);
        for (int i = 0; i < live; i++) { h.push_back({ENTER, n + i}); h.push_back({EXIT, n + i}); h.push_back({FIN, n + i}); }
        go(c, h, "[round robin]", 0);
    }
}
int main(int c, char** v) {
    vc::Options o;
    o.coverage_rule = "a case is one history: from a state in which 0, 9, 10, 11 or 12 regions were used and finalized, every sequence of up to 4 (thorough 5) register/finalize/measure/use steps over the oldest, the youngest and fresh regions (double registration and double finalization included); distinct by start state and sequence; the stand-in counter library checks every call";
    return vc::main_impl(c, v, explore, o);
}
