// C05: every single and double I/O fault at every system call of short capture histories.
#include "capdir.h"
#include "daisy_rtl/arg_capture_io.h"
#include <cerrno>
#include <dlfcn.h>
#include <sys/uio.h>
using arg_capture::ArgCaptureIO;
using Key = std::pair<int, bool>;
// ---- fault engine -------------------------------------------------------------------------------------------------
enum OpK { MKDIR, OPEN, WRITE, CLOSE, READ };
static const char* OPN[] = {"mkdir", "open", "write", "close", "read"};
enum Mode { ERR, SHORT_ERR, SHORT, INTR, DEAD };   // DEAD: this and every later operation fails
static const char* MN[] = {"fails", "is cut short and then fails", "is cut short once", "is interrupted once", "and all later ones fail"};
struct Fault { int at; Mode m; };
static bool armed = false, dead = false, tail = false, hit_hard = false;
static std::vector<OpK> trace;
static std::vector<Fault> plan;
static int decide(OpK k) { // -1: no fault
    if (!armed) return -1;
    int n = trace.size(); trace.push_back(k);
    if (dead) { hit_hard = true; return ERR; }
    if (tail && k == WRITE) { tail = false; hit_hard = true; return ERR; }
    if (tail && k == READ) { tail = false; hit_hard = true; return ERR; }
    for (auto& f : plan) if (f.at == n) {
        if (f.m == DEAD) { dead = true; hit_hard = true; return ERR; }
        if (f.m == ERR) hit_hard = true;
        if (f.m == SHORT_ERR) tail = true;
        return f.m;
    }
    return -1;
}
template<class F> static F real(const char* n) { static std::map<std::string, void*> m; auto& p = m[n]; if (!p) p = dlsym(RTLD_NEXT, n); return (F) p; }
extern "C" {
int mkdir(const char* p, mode_t m) {
    auto f = real<int (*)(const char*, mode_t)>("mkdir");
    struct stat st;
    if (armed && ::stat(p, &st) != 0 && decide(MKDIR) >= 0) { errno = ENOSPC; return -1; }
    return f(p, m);
}
FILE* fopen(const char* p, const char* m) {
    auto f = real<FILE* (*)(const char*, const char*)>("fopen");
    if (armed && decide(OPEN) >= 0) { errno = EMFILE; return nullptr; }
    return f(p, m);
}
FILE* fopen64(const char* p, const char* m) {
    auto f = real<FILE* (*)(const char*, const char*)>("fopen64");
    if (armed && decide(OPEN) >= 0) { errno = EMFILE; return nullptr; }
    return f(p, m);
}
ssize_t write(int fd, const void* b, size_t n) {
    auto f = real<ssize_t (*)(int, const void*, size_t)>("write");
    if (!armed || fd < 3) return f(fd, b, n);
    int d = decide(WRITE);
    if (d == ERR) { errno = ENOSPC; return -1; }
    if (d == INTR) { errno = EINTR; return -1; }
    if (d >= 0) { if (n < 2) { tail = false; return f(fd, b, n); } return f(fd, b, n / 2); }
    return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    auto f = real<ssize_t (*)(int, const struct iovec*, int)>("writev");
    if (!armed || fd < 3) return f(fd, v, c);
    int d = decide(WRITE);
    if (d == ERR) { errno = ENOSPC; return -1; }
    if (d == INTR) { errno = EINTR; return -1; }
    if (d >= 0) for (int i = 0; i < c; i++) if (v[i].iov_len > 1) return real<ssize_t (*)(int, const void*, size_t)>("write")(fd, v[i].iov_base, v[i].iov_len / 2);
    return f(fd, v, c);
}
int fclose(FILE* s) {
    auto f = real<int (*)(FILE*)>("fclose");
    int d = armed ? decide(CLOSE) : -1;
    int rc = f(s);
    if (d >= 0) { errno = EIO; return EOF; }
    return rc;
}
ssize_t read(int fd, void* b, size_t n) {
    auto f = real<ssize_t (*)(int, void*, size_t)>("read");
    if (!armed || fd < 3) return f(fd, b, n);
    int d = decide(READ);
    if (d == ERR) { errno = EIO; return -1; }
    if (d == INTR) { errno = EINTR; return -1; }
    if (d >= 0 && n > 1) return f(fd, b, n / 2);
    return f(fd, b, n);
}
}
// ---- histories ----------------------------------------------------------------------------------------------------
struct Op { int kind; int arg; bool after; int size; }; // 0 enter/invocation, 1 capture to file, 2 raw capture, 3 end/write index, 4 inline
static std::string show(const std::vector<Op>& h) {
    std::string s; const char* n[] = {"enter", "capture", "capture_raw", "end", "inline"};
    for (auto& o : h) { s += std::string(" ") + n[o.kind]; if (o.kind == 1 || o.kind == 2 || o.kind == 4) s += "(arg" + std::to_string(o.arg) + (o.after ? ",after," : ",before,") + std::to_string(o.size) + "B)"; }
    return s;
}
static Bytes mem(int step, int size) { Bytes b(size); for (int i = 0; i < size; i++) b[i] = (uint8_t) (step * 37 + i * 11 + 1); return b; }
struct Last { bool ok; Bytes data; };
// runs the history with the plan; judges
static void run(vc::Run& r, bool rtl, const std::vector<Op>& h, bool judge) {
    fs::path dir = fs::path(r.scratch) / "c05";
    fs::remove_all(dir);
    setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all", 1); unsetenv("__DAISY_CAPTURE_BASE_DIR");
    __daisy_capture_t* ctx = rtl ? __daisy_capture_init("t", (dir / "sub").c_str()) : nullptr;
    ArgCaptureIO io("t");
    trace.clear(); dead = tail = false;
    std::map<Key, Last> now; int inv = -1, step = 0;
    std::map<int, std::map<Key, Last>> per_inv; std::map<int, int> ended; // inv -> 1 ok, 2 failed
    for (auto& o : h) {
        step++;
        bool ok = true; hit_hard = false; std::string what;
        Bytes b = mem(step, o.size);
        if (o.kind == 0) { if (rtl) __daisy_capture_enter(ctx, 7); else { io.clear(); io.invocation("7"); } inv++; now.clear(); continue; }
        if (o.kind == 3 && now.empty()) { if (rtl) __daisy_capture_end(ctx); else io.write_index(dir / "sub"); continue; }
        errno = 0; armed = true;
        try {
            if (o.kind == 3) { if (rtl) __daisy_capture_end(ctx); else io.write_index(dir / "sub"); }
            else if (rtl) {
                if (o.kind == 1) __daisy_capture_1d(ctx, o.arg, b.data(), 1, 10, o.size, o.after, 7);
                else __daisy_capture_raw(ctx, o.arg, b.data(), o.size, 10, o.after, 7);
            } else {
                fs::path f = dir / "sub" / ("t_inv" + std::to_string(inv) + "_arg" + std::to_string(o.arg) + (o.after ? "_out_7.bin" : "_in_7.bin"));
                if (o.kind == 1) ok = io.create_and_capture_to_file(o.arg, o.after, 10, {1, (size_t) o.size}, f, b.data(), "7");
                else ok = io.create_and_capture_inline(o.arg, o.after, 10, {(size_t) o.size}, b.data(), "7");
            }
        } catch (std::exception& e) { ok = false; }
        armed = false; tail = false;
        if (hit_hard && ok && judge) r.fail(o.kind == 3 ? "index_fault_unreported" : "capture_fault_unreported", "step " + std::to_string(step) + " met a fault but reported success");
        if (!hit_hard && !ok && judge) {
            bool soft = false; for (auto& f : plan) if (f.m == INTR || f.m == SHORT || f.m == SHORT_ERR) soft = true;
            if (!soft) r.fail("spurious_failure", "step " + std::to_string(step) + " met no fault but reported failure");
        }
        if (o.kind == 3) { ended[inv] = ok ? 1 : 2; per_inv[inv] = now; }
        else now[{o.arg, o.after}] = {ok, b};
    }
    if (!judge) return;
    // captures reported as stored are complete on disk (those of the last enter may not be indexed yet, but file names are recorded)
    if (!rtl) for (auto& [el, caps] : io.get_captures()) for (auto& [k, c] : caps) {
        auto it = now.find({k.first, k.second}); if (it == now.end()) continue;
        if (it->second.ok && c.ext_file && slurp(*c.ext_file) != it->second.data) r.fail("incomplete", "arg" + std::to_string(k.first) + " was reported stored, but its file differs");
        if (it->second.ok && !c.ext_file && (!c.data || *c.data != it->second.data)) r.fail("incomplete", "arg" + std::to_string(k.first) + " was reported stored, but is not");
        if (!it->second.ok && (c.ext_file || c.data)) r.fail("failed_but_referenced", "arg" + std::to_string(k.first) + " failed, but is recorded as stored");
    }
    for (int i = 0; i <= inv; i++) {
        auto p = dir / "sub" / ("t_inv" + std::to_string(i) + "_7.index.json");
        nlohmann::json j; bool good = false;
        if (fs::exists(p)) { std::ifstream f(p); try { f >> j; j.at("captures"); good = true; } catch (std::exception&) {} }
        if (ended.count(i) && ended[i] == 1 && !good) r.fail("index_incomplete", "the index of invocation " + std::to_string(i) + " was reported written but is missing or cut short");
        if (!good) continue;
        std::set<Key> seen;
        if (!per_inv.count(i)) continue;
        for (auto& c : j["captures"]) {
            Key k{c.at("arg_idx"), c.at("after")}; seen.insert(k);
            auto& want = per_inv[i][k];
            bool ref = c.contains("data") || c.contains("ext_file");
            Bytes got = c.contains("data") ? unb64(c["data"]) : c.contains("ext_file") ? slurp(p.parent_path() / c["ext_file"].get<std::string>()) : Bytes();
            std::string what = "invocation " + std::to_string(i) + " arg" + std::to_string(k.first) + (k.second ? " after" : " before");
            if (ref && !want.ok && (c.contains("ext_file") || got != want.data)) r.fail("failed_but_referenced", what + " could not be stored but the index names data for it");
            if (want.ok && (!ref || got != want.data)) r.fail("incomplete", what + " was reported stored, but the index and files do not hold it");
        }
        if (ended[i] == 1) for (auto& [k, w] : per_inv[i]) if (w.ok && !seen.count(k)) r.fail("index_incomplete", "a stored argument is missing from the index");
    }
    r.count(vc::Run::STATES); r.count(vc::Run::TRANS, trace.size());
}
static std::string plan_str() { std::string s; for (auto& f : plan) s += " | operation #" + std::to_string(f.at) + " " + MN[f.m]; return s; }
static std::vector<Mode> modes(OpK k, bool second) {
    if (k == WRITE || k == READ) { if (second) return {ERR, SHORT_ERR}; return {ERR, SHORT_ERR, SHORT, INTR, DEAD}; }
    if (second) return {ERR};
    return {ERR, DEAD};
}
static void explore(vc::Run& r) {
    std::vector<std::pair<bool, std::vector<Op>>> hs;
    auto add = [&](bool rtl, std::vector<Op> b, bool end = true) { std::vector<Op> h{{0}}; h.insert(h.end(), b.begin(), b.end()); if (end) h.push_back({3}); hs.push_back({rtl, h}); };
    std::vector<Op> caps[2];
    for (int rtl = 0; rtl < 2; rtl++) {
        for (int size : {0, 1, 40, 4096, 20000}) for (int arg : {0, 1}) for (bool af : {false, true}) { if (arg && af) continue; caps[rtl].push_back({1, arg, af, size}); }
        for (int size : {4, 32, 33}) caps[rtl].push_back({rtl ? 2 : 4, 0, false, size});
        for (auto& a : caps[rtl]) { add(rtl, {a}); for (auto& b : caps[rtl]) add(rtl, {a, b}); }
        // recapture of the same argument, two invocations, many captures (large index)
        for (auto& a : caps[rtl]) for (auto& b : caps[rtl]) if (a.size != b.size && a.size < 5000 && b.size < 5000) {
            hs.push_back({(bool) rtl, {{0}, a, {3}, {0}, b, {3}}});
            hs.push_back({(bool) rtl, {{0}, a, {3}, {0}, {3}, {0}, b, {3}}});
            if (r.thorough) for (auto& c : caps[rtl]) add(rtl, {a, b, c});
        }
        std::vector<Op> many; for (int i = 0; i < 200; i++) many.push_back({rtl ? 2 : 4, i, false, 16});
        if (!rtl) add(rtl, many);
        std::vector<Op> some; for (int i = 0; i < 6; i++) some.push_back({1, i, (i & 1) != 0, 100});
        add(rtl, some);
    }
    for (auto& [rtl, h] : hs) {
        plan.clear();
        r.alive();
        run(r, rtl, h, false);
        auto base = trace;
        auto go = [&](std::vector<Fault> p) {
            r.kase([&] { plan = p; return std::string(rtl ? "[runtime]" : "[library]") + show(h) + plan_str(); }, [&] {
                plan = p; run(r, rtl, h, true);
                uint64_t hh = vc::hash_str(show(h) + (rtl ? "r" : "l")); for (auto& f : p) hh = vc::mix(hh, f.at * 8 + f.m);
                r.nontrivial(hh);
                uint64_t oh = p.size(); for (auto k : trace) oh = vc::mix(oh, k); r.outcome(oh);
            });
        };
        go({});
        bool pairs = base.size() <= (r.thorough ? 40 : 14);
        for (int k = 0; k < (int) base.size(); k++) for (auto m : modes(base[k], false)) {
            go({{k, m}});
            if (!pairs || m == DEAD) continue;
            for (int j = k + 1; j < (int) base.size() + 2; j++) for (auto m2 : {ERR, SHORT_ERR}) go({{k, m}, {j, m2}});
        }
    }
    // reading back
    for (size_t have : {0, 1, 7, 100, 5000, 20000}) for (size_t want : {0, 1, 7, 100, 5000, 20000}) for (int f = -1; f < 8; f++) for (auto m : {ERR, SHORT_ERR, SHORT, INTR, DEAD}) {
        if (f == -1 && m != ERR) continue;
        r.kase([&] { return "read back " + std::to_string(want) + " of a file of " + std::to_string(have) + " bytes" + (f < 0 ? "" : " | operation #" + std::to_string(f) + " " + MN[m]); }, [&] {
            fs::path p = fs::path(r.scratch) / "c05read"; Bytes d = mem(3, have);
            { std::ofstream o(p, std::ios::binary); o.write((char*) d.data(), have); }
            plan.clear(); if (f >= 0) plan.push_back({f, m});
            trace.clear(); dead = tail = hit_hard = false;
            Bytes buf(want + 8, 0xEE); bool ok = true;
            armed = true;
            try { ArgCaptureIO::read_data_from_raw_file(p, buf.data(), want); } catch (std::exception&) { ok = false; }
            armed = false;
            bool full = want <= have && std::equal(buf.begin(), buf.begin() + want, d.begin());
            if (ok && !full) r.fail("short_read_unreported", "the read was reported as success but the buffer does not hold the file's bytes");
            if (!ok && plan.empty() && want <= have) r.fail("spurious_failure", "a complete read was reported as failed");
            for (size_t i = want; i < buf.size(); i++) if (buf[i] != 0xEE) r.fail("overrun", "bytes past the requested size were written");
            r.nontrivial(vc::hash_str(r.describe())); r.outcome(ok);
        });
    }
    r.kase([&] { return std::string("read back from a missing file"); }, [&] {
        bool ok = true; char c; try { ArgCaptureIO::read_data_from_raw_file(fs::path(r.scratch) / "none" / "x", &c, 1); } catch (std::exception&) { ok = false; }
        if (ok) r.fail("short_read_unreported", "reading a missing file was reported as success");
    });
    // an index cut short at any byte, and every read fault while loading it
    for (int n : {1, 3, 40}) {
        auto make = [&](fs::path dir) { ArgCaptureIO io("t"); io.invocation("7"); for (int i = 0; i < n; i++) { Bytes b = mem(i, 5 + i); io.create_and_capture_inline(i, i & 1, 10, {b.size()}, b.data(), "7"); } io.write_index(dir); return dir / "t_inv0_7.index.json"; };
        fs::path base = fs::path(r.scratch) / "c05idx"; fs::remove_all(base);
        auto p = make(base); Bytes whole = slurp(p);
        auto load = [&](const fs::path& q) { // 0 threw, 1 complete, 2 incomplete
            try { auto x = ArgCaptureIO::from_index(q); armed = false; auto& c = x->get_captures(); if (x->get_name() != "t" || c.size() != 1 || (int) c.begin()->second.size() != n) return 2;
                for (auto& [k, v] : c.begin()->second) if (!v.data || *v.data != mem(k.first, 5 + k.first)) return 2; return 1; } catch (std::exception&) { armed = false; return 0; }
        };
        for (size_t cut = 0; cut <= whole.size(); cut++) r.kase([&] { return "index of " + std::to_string(n) + " captures cut at byte " + std::to_string(cut); }, [&] {
            fs::path q = fs::path(r.scratch) / "cut.json"; { std::ofstream o(q, std::ios::binary); o.write((char*) whole.data(), cut); }
            int k = load(q);
            if (k == 2) r.fail("torn_index", "a cut index was loaded as if complete");
            if (k == 0 && cut == whole.size()) r.fail("spurious_failure", "the whole index was refused");
            r.nontrivial(vc::hash_str(r.describe())); r.outcome(k);
        });
        for (int f = 0; f < 6; f++) for (auto m : {ERR, SHORT_ERR, SHORT, INTR, DEAD}) r.kase([&] { return "load index of " + std::to_string(n) + " captures | operation #" + std::to_string(f) + " " + MN[m]; }, [&] {
            plan = {{f, m}}; trace.clear(); dead = tail = hit_hard = false; armed = true;
            int k = load(p);
            if (k == 2) r.fail("torn_index", "a faulty read was loaded as if complete");
            r.nontrivial(vc::hash_str(r.describe())); r.outcome(k);
        });
    }
}
int main(int c, char** v) {
    vc::Options o;
    o.coverage_rule = "a case is one capture history with one plan of at most two faults (error, cut short, interrupted, dead device) at intercepted mkdir/open/write/close/read calls; all single faults, pairs when the history makes at most 14 (thorough 40) system calls; distinct by history and plan";
    return vc::main_impl(c, v, explore, o);
}
