// C03: contents of the capture directory over all short capture histories.
#include "capdir.h"
struct Cap { int kind, arg; bool after; int el; }; // kind: 0 raw 4B, 1 raw 40B, 2 1d, 3 2d, 4 3d, 5 raw 32B, 6 1d empty, 7 raw 33B
struct Op { int kind, ctx, el; Cap cap; };           // 0 enter, 1 capture, 2 end
static const size_t ELS[3] = {1, 11, 18446744073709551615ull};
static const char* NAMES[2] = {"k", "k_inv0"};
static std::string show(const std::vector<Op>& h) {
    std::string s;
    for (auto& o : h) {
        s += std::string(" ") + NAMES[o.ctx] + ".";
        if (o.kind == 0) s += "enter(" + std::to_string(ELS[o.el]) + ")";
        else if (o.kind == 1) s += "cap(kind" + std::to_string(o.cap.kind) + ",arg" + std::to_string(o.cap.arg) + (o.cap.after ? ",after)" : ",before)");
        else s += "end";
    }
    return s;
}
struct Want { int type; std::vector<size_t> dims; Bytes data; };
static void verify(vc::Run& r, const fs::path& dir, const std::map<IdxKey, std::map<std::pair<int, bool>, Want>>& want, bool final) {
    std::string err; int other;
    auto got = read_dir(dir, err, other);
    if (!err.empty()) r.fail("malformed", err);
    std::set<std::string> files;
    for (auto& [k, caps] : want) {
        std::string id = std::get<0>(k) + "/" + std::get<1>(k) + "/" + std::to_string(std::get<2>(k));
        if (!got.count(k)) r.fail("missing_index", "no index for " + id);
        auto& g = got.at(k).caps;
        for (auto& [a, w] : caps) {
            std::string what = id + " arg" + std::to_string(a.first) + (a.second ? " after" : " before");
            if (!g.count(a)) r.fail("missing_capture", what);
            auto& e = g.at(a);
            if (e.dims != w.dims) r.fail("dims", what);
            if (e.type != w.type) r.fail("type", what);
            if (e.file.empty()) { if (e.data != w.data) r.fail("inline_data", what); continue; }
            if (e.data != w.data) r.fail("data", what + ": file has " + std::to_string(e.data.size()) + " bytes, expected " + std::to_string(w.data.size()) + " or other content");
            if (!files.insert(fs::weakly_canonical(e.file).string()).second) r.fail("shared_file", what + " shares its file");
        }
        if (g.size() != caps.size()) r.fail("extra_capture", id + " lists " + std::to_string(g.size()) + " captures, expected " + std::to_string(caps.size()));
    }
    if (got.size() != want.size()) r.fail("extra_index", std::to_string(got.size()) + " indices, expected " + std::to_string(want.size()));
    r.count(vc::Run::STATES);
}
static void run(vc::Run& r, const std::vector<Op>& h) {
    fs::path dir = fs::path(r.scratch) / "c03";
    fs::remove_all(dir);
    setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all", 1); unsetenv("__DAISY_CAPTURE_BASE_DIR");
    __daisy_capture_t* ctx[2];
    for (int i = 0; i < 2; i++) ctx[i] = __daisy_capture_init(NAMES[i], dir.c_str());
    std::map<int, int> inv[2]; int cur[2] = {-1, -1};
    std::map<std::pair<int, bool>, Want> now[2];
    std::map<IdxKey, std::map<std::pair<int, bool>, Want>> want;
    int step = 1;
    for (auto& o : h) {
        r.count(vc::Run::TRANS);
        if (o.kind == 0) {
            if (inv[o.ctx].count(o.el)) inv[o.ctx][o.el]++; else inv[o.ctx][o.el] = 0;
            cur[o.ctx] = o.el; now[o.ctx].clear();
            if (!__daisy_capture_enter(ctx[o.ctx], ELS[o.el])) r.fail("enter", "strategy all, but not asked to capture");
        } else if (o.kind == 1) {
            auto& c = o.cap; size_t el = ELS[cur[o.ctx]]; step++;
            Want w; size_t n = 0; int type = 1 + (c.kind * 3 + step) % 15;
            switch (c.kind) { case 0: w.dims = {4}; break; case 1: w.dims = {40}; break; case 2: w.dims = {8, 3}; break; case 3: w.dims = {4, 2, 3}; break; case 4: w.dims = {2, 3, 1, 4}; break; case 5: w.dims = {32}; break; case 6: w.dims = {8, 0}; break; default: w.dims = {33}; }
            n = 1; for (auto d : w.dims) n *= d;
            w.type = type; w.data.resize(n); for (size_t i = 0; i < n; i++) w.data[i] = step * 31 + i * 7;
            Bytes mem = w.data; auto* p = mem.data();
            switch (c.kind) {
                case 2: case 6: __daisy_capture_1d(ctx[o.ctx], c.arg, p, 8, type, w.dims[1], c.after, el); break;
                case 3: __daisy_capture_2d(ctx[o.ctx], c.arg, p, 4, type, 2, 3, c.after, el); break;
                case 4: __daisy_capture_3d(ctx[o.ctx], c.arg, p, 2, type, 3, 1, 4, c.after, el); break;
                default: __daisy_capture_raw(ctx[o.ctx], c.arg, p, n, type, c.after, el);
            }
            std::fill(mem.begin(), mem.end(), 0xCC);
            now[o.ctx].insert_or_assign({c.arg, c.after}, w);
        } else {
            __daisy_capture_end(ctx[o.ctx]);
            if (cur[o.ctx] >= 0 && !now[o.ctx].empty()) want[{NAMES[o.ctx], std::to_string(ELS[cur[o.ctx]]), inv[o.ctx][cur[o.ctx]]}] = now[o.ctx];
            verify(r, dir, want, false);
        }
    }
    uint64_t oc = want.size(); for (auto& [k, v] : want) for (auto& [a, w] : v) oc = vc::mix(oc, vc::hash_bytes(w.data.data(), w.data.size()) + a.first * 2 + a.second);
    r.outcome(oc);
    verify(r, dir, want, true);
    r.count(vc::Run::TRACES);
}
static void explore(vc::Run& r) {
    auto go = [&](const std::vector<Op>& h) { r.kase([h] { return show(h); }, [&] { r.nontrivial(vc::hash_str(show(h))); run(r, h); }); };
    // one invocation, every capture sequence up to length 2 (thorough 3) over the full alphabet
    std::vector<Cap> full;
    for (int k = 0; k < 8; k++) for (int a = 0; a < 2; a++) for (int f = 0; f < 2; f++) full.push_back({k, a, (bool) f, 0});
    for (auto& c : full) { c.arg = c.arg ? 10 : 1; }
    std::vector<std::vector<Cap>> seqs{{}};
    for (size_t at = 0, len = 0; len < (r.thorough ? 3 : 2); len++) { size_t end = seqs.size(); for (; at < end; at++) for (auto& c : full) { auto s = seqs[at]; s.push_back(c); seqs.push_back(s); } }
    for (auto& s : seqs) { std::vector<Op> h{{0, 0, 0, {}}}; for (auto& c : s) h.push_back({1, 0, 0, c}); h.push_back({2, 0, 0, {}}); go(h); }
    // two and three invocations over a small alphabet of bodies, on two targets and two elements, all interleavings of the two targets
    std::vector<std::vector<Cap>> bodies{{}};
    for (int a = 0; a < 2; a++) for (int f = 0; f < 2; f++) bodies.push_back({{a ? 0 : 2, a, (bool) f, 0}});
    bodies.push_back({{2, 0, false, 0}, {2, 0, true, 0}}); bodies.push_back({{0, 0, false, 0}, {0, 1, false, 0}}); bodies.push_back({{1, 0, true, 0}, {0, 0, true, 0}});
    struct Inv { int ctx, el, body; };
    std::vector<Inv> invs;
    for (int c = 0; c < 2; c++) for (int e = 0; e < 3; e++) for (int b = 0; b < (int) bodies.size(); b++) invs.push_back({c, e, b});
    auto ops = [&](const Inv& i) { std::vector<Op> o{{0, i.ctx, i.el, {}}}; for (auto& c : bodies[i.body]) o.push_back({1, i.ctx, i.el, c}); o.push_back({2, i.ctx, i.el, {}}); return o; };
    for (auto& a : invs) for (auto& b : invs) {
        auto oa = ops(a), ob = ops(b);
        std::vector<Op> h = oa; h.insert(h.end(), ob.begin(), ob.end()); go(h);
        if (a.ctx == 0 && b.ctx == 1 && a.el < 2 && b.el < 2) { // interleave
            size_t n = oa.size() + ob.size();
            for (unsigned m = 0; m < (1u << n); m++) {
                if (__builtin_popcount(m) != (int) oa.size()) continue;
                std::vector<Op> x; size_t i = 0, j = 0;
                for (size_t k = 0; k < n; k++) x.push_back(m >> k & 1 ? oa[i++] : ob[j++]);
                if (!r.thorough && n > 7) { if (m % 3) continue; }
                go(x);
            }
        }
    }
    std::vector<Inv> few; for (auto& i : invs) if (i.body == 1 || i.body == 2 || i.body == 5) if (i.ctx == 0 || i.el == 0) if (i.el < 2) few.push_back(i);
    for (auto& a : few) for (auto& b : few) for (auto& c : few) { auto h = ops(a); for (auto& x : ops(b)) h.push_back(x); for (auto& x : ops(c)) h.push_back(x); if (r.thorough || a.ctx == 0) go(h); }
    if (r.thorough) for (auto& a : few) for (auto& b : few) for (auto& c : few) for (auto& d : few) { if (a.ctx) continue; auto h = ops(a); for (auto i : {b, c, d}) for (auto& x : ops(i)) h.push_back(x); go(h); }
}
int main(int c, char** v) {
    vc::Options o;
    o.coverage_rule = "a case is one history of enter/capture/end calls: one invocation with every capture sequence up to length 2 (thorough 3) over 32 captures, all pairs of invocations over 48 bodies/targets/elements, interleavings of two targets, and triples; distinct by history; states: directory contents verified";
    return vc::main_impl(c, v, explore, o);
}
