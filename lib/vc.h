// Bounded exhaustive exploration harness.
//
// A harness enumerates its whole (bounded) space in a deterministic order and calls Run::kase once per case.
// The space is split over worker processes by case index; each worker publishes the index it is working on in
// shared memory, so that a case which crashes or hangs is attributed to its index, replayed alone, and reported,
// and the exploration continues after it.
#pragma once
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vc {

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    h ^= h >> 29;
    return h;
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) {
    return hash_bytes(s.data(), s.size(), h);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a *= 0xff51afd7ed558ccdull;
    return a ^ (a >> 33);
}
inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"') o += "\\\"";
        else if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Slot {
    volatile int64_t cur;      // index of the case in progress, -1 before the first
    volatile int64_t beat;     // bumped at every case (and by Run::alive)
    volatile int64_t done;     // worker finished its whole space
    volatile int64_t total;    // number of cases in the space (set when finished)
    int64_t counters[32];      // named counters, summed over workers
};

struct Violation { std::string key, msg, desc; int64_t index; };

struct CaseFailed {};          // thrown by Run::fail to leave the case

class Run {
public:
    bool thorough = false;
    uint64_t seed = 1;
    int worker = 0, workers = 1;
    int64_t skip_to = -1;      // cases <= skip_to were done by an earlier incarnation of this worker
    int64_t only = -1;         // run only this case
    std::set<int64_t> exclude; // cases that crashed or hung
    Slot* slot = nullptr;
    std::string scratch;       // private scratch directory of this worker
    std::string outdir;
    FILE* vio = nullptr;
    int n_vio = 0, max_vio = 25;
    int64_t index = -1;
    std::map<std::string, int> cnt_ids;
    std::unordered_set<uint64_t> distinct, outcomes;
    std::vector<std::string> samples;
    bool printed = false;
    std::unordered_set<std::string> told_;
    std::string cur_desc_;
    std::function<std::string()> describe_;

    void count(int id, int64_t n = 1) { slot->counters[id] += n; }
    // Well-known counters
    enum { EVAL = 0, STATES = 1, TRANS = 2, TRACES = 3, AUX0 = 8 };
    void alive() { slot->beat = slot->beat + 1; }
    void nontrivial(uint64_t h) { distinct.insert(h); }
    void outcome(uint64_t h) { outcomes.insert(h); }
    std::string describe() { return describe_ ? describe_() : ""; }
    bool stop() const { return n_vio >= max_vio; }

    // Should the next case be run by this worker?  (Also advances the index.)
    bool mine() {
        ++index;
        if (only >= 0) return index == only;
        if (workers > 1 && (index % workers) != worker) return false;
        if (index <= skip_to) return false;
        if (exclude.count(index)) return false;
        return !stop();
    }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { report(key, msg); throw CaseFailed(); }
    void report(const std::string& key, const std::string& msg) {
        if (only < 0 && max_vio <= 25 && !told_.insert(key).second) return;  // reported already: go on looking for others
        ++n_vio;
        std::string d = describe();
        fprintf(vio, "{\"index\":%lld,\"key\":%s,\"msg\":%s,\"desc\":%s}\n", (long long) index, jstr(key).c_str(),
                jstr(msg).c_str(), jstr(d).c_str());
        fflush(vio);
        if (only >= 0) fprintf(stderr, "FAIL case %lld [%s]\n  key: %s\n  %s\n", (long long) index, d.c_str(), key.c_str(), msg.c_str());
    }
    template<class D, class B>
    void kase(D describe, B body) {
        if (!mine()) return;
        begin(describe);
        try { body(); }
        catch (CaseFailed&) {}
        catch (std::exception& e) { try { report("exception", std::string("unexpected exception: ") + e.what()); } catch (...) {} }
        end();
    }
    void begin(std::function<std::string()> d) {
        describe_ = d;
        slot->cur = index;
        alive();
        if (only >= 0) {
            std::ofstream f(outdir + "/only.desc");
            f << describe();
        }
    }
    void end() {
        count(EVAL);
        if (samples.size() < 3 && (slot->counters[EVAL] % 97 == 1)) samples.push_back(describe());
        describe_ = nullptr;
    }
};

using Fn = void (*)(Run&);

inline void set_scratch(Run& r, const std::string& base) {
    r.scratch = base + "/w" + std::to_string(r.worker) + (r.only >= 0 ? "o" : "");
    std::string cmd = r.scratch;
    mkdir(cmd.c_str(), 0755);
}

struct Options {
    const char* coverage_rule = "";
    const char* level = "exploration";
    std::vector<std::pair<int, std::string>> extra_counters;
    int hang_s = 30;
    bool quiet = true;
    size_t mem_mb = 0;   // per worker address-space limit (0: none)
};

inline int worker_main(Run& r, Fn fn, const Options& o) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::string vf = r.outdir + "/vio." + std::to_string(r.worker) + (r.only >= 0 ? ".only" : "");
    r.vio = fopen(vf.c_str(), "a");
    if (r.only < 0 && o.quiet) {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 1); dup2(fd, 2);
        close(fd);
    } else if (r.only >= 0) {
        int fd = open((r.outdir + "/only.log").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1); dup2(fd, 2);
        close(fd);
    }
    fn(r);
    if (r.only < 0) {
        r.slot->total = r.index + 1;
        FILE* f = fopen((r.outdir + "/set." + std::to_string(r.worker)).c_str(), "w");
        for (auto h : r.distinct) fprintf(f, "D%" PRIx64 "\n", h);
        for (auto h : r.outcomes) fprintf(f, "O%" PRIx64 "\n", h);
        fclose(f);
        f = fopen((r.outdir + "/samples." + std::to_string(r.worker)).c_str(), "w");
        for (auto& s : r.samples) fprintf(f, "%s\n", jstr(s).c_str());
        fclose(f);
    }
    fflush(r.vio);
    r.slot->done = 1;
    _exit(0);
}

// usage: harness --out DIR [--tier quick|thorough] [--seed N] [--jobs N] [--only INDEX]
inline int main_impl(int argc, char** argv, Fn fn, const Options& given) {
    Options o = given;
    if (const char* h = getenv("VC_HANG")) o.hang_s = atoi(h);
    Run base;
    if (const char* mv = getenv("VC_MAX_VIO")) base.max_vio = atoi(mv);
    int jobs = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") base.outdir = argv[++i];
        else if (a == "--tier") base.thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--seed") base.seed = strtoull(argv[++i], 0, 10);
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--only") base.only = atoll(argv[++i]);
    }
    if (base.outdir.empty()) { fprintf(stderr, "--out DIR needed\n"); return 2; }
    mkdir(base.outdir.c_str(), 0755);
    // scratch files live in memory if possible; the parent removes them at the end
    char tmpl[] = "/dev/shm/vcXXXXXX";
    std::string sbase = mkdtemp(tmpl) ? std::string(tmpl) : base.outdir + "/scratch";
    mkdir(sbase.c_str(), 0755);
    struct Clean { std::string d; ~Clean() { std::error_code ec; std::filesystem::remove_all(d, ec); } } clean_{sbase};
    auto* slots = static_cast<Slot*>(mmap(0, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto spawn_only = [&](int64_t idx, double limit, int& status) -> bool { // false: timed out
        Slot* s = &slots[63];
        memset((void*) s, 0, sizeof *s);
        pid_t p = fork();
        if (p == 0) {
            Run r = base; r.only = idx; r.slot = s; r.worker = 0; r.workers = 1;
            set_scratch(r, sbase);
            worker_main(r, fn, o);
        }
        double t0 = now();
        for (;;) {
            pid_t q = waitpid(p, &status, WNOHANG);
            if (q == p) return true;
            if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &status, 0); return false; }
            usleep(2000);
        }
    };
    if (base.only >= 0) {
        int st; bool ok = spawn_only(base.only, 600, st);
        std::ifstream l(base.outdir + "/only.log"); std::stringstream ss; ss << l.rdbuf(); std::string log = ss.str();
        std::ifstream d(base.outdir + "/only.desc"); std::stringstream ds; ds << d.rdbuf();
        printf("case %lld: %s\n%s\n", (long long) base.only, ds.str().c_str(), log.substr(log.size() > 6000 ? log.size() - 6000 : 0).c_str());
        std::ifstream v(base.outdir + "/vio.0.only"); std::stringstream vs; vs << v.rdbuf();
        bool bad = !ok || !WIFEXITED(st) || WEXITSTATUS(st) || !vs.str().empty();
        printf("%s\n%s\n", vs.str().c_str(), bad ? "REPRODUCED" : "not reproduced");
        return bad ? 1 : 0;
    }
    struct W { pid_t pid = 0; int64_t beat = -1; double t = 0; std::set<int64_t> ex; bool fin = false; int crashes = 0; };
    std::vector<W> ws(jobs);
    std::vector<Violation> crashes;
    auto start = [&](int i, int64_t skip) {
        Slot* s = &slots[i];
        s->cur = -1; s->done = 0; s->beat = s->beat + 1;
        pid_t p = fork();
        if (p == 0) {
            Run r = base; r.worker = i; r.workers = jobs; r.slot = s; r.skip_to = skip; r.exclude = ws[i].ex;
            set_scratch(r, sbase);
            if (o.mem_mb) { rlimit rl{o.mem_mb << 20, o.mem_mb << 20}; setrlimit(RLIMIT_AS, &rl); }
            worker_main(r, fn, o);
        }
        ws[i].pid = p; ws[i].beat = -1; ws[i].t = now();
    };
    for (int i = 0; i < jobs; i++) { memset((void*) &slots[i], 0, sizeof(Slot)); start(i, -1); }
    int broken = 0;
    auto only_log = [&]() {
        std::ifstream l(base.outdir + "/only.log"); std::stringstream ss; ss << l.rdbuf(); std::string log = ss.str();
        return log.size() > 3000 ? log.substr(log.size() - 3000) : log;
    };
    auto only_desc = [&]() { std::ifstream d(base.outdir + "/only.desc"); std::stringstream ds; ds << d.rdbuf(); return ds.str(); };
    for (;;) {
        bool all = true;
        for (int i = 0; i < jobs; i++) {
            W& w = ws[i];
            if (w.fin) continue;
            all = false;
            int st;
            pid_t q = waitpid(w.pid, &st, WNOHANG);
            Slot* s = &slots[i];
            if (q == w.pid) {
                if (s->done) { w.fin = true; continue; }
                int64_t bad = s->cur;
                if (bad < 0) { fprintf(stderr, "worker %d died before its first case (status %d)\n", i, st); broken = 1; w.fin = true; continue; }
                int st2 = 0; bool fin = spawn_only(bad, o.hang_s * 3, st2);
                bool again = !fin || !WIFEXITED(st2) || WEXITSTATUS(st2);
                char b[256];
                int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
                if (sig == SIGKILL && !again) { // killed from outside (memory): not the case's doing
                    fprintf(stderr, "worker %d was killed from outside at case %lld; continuing\n", i, (long long) bad);
                    if (++w.crashes > 10) { broken = 1; w.fin = true; continue; }
                    start(i, bad - 1);
                    continue;
                }
                snprintf(b, sizeof b, "the case ended the process (%s %d)%s", sig ? "signal" : "exit status", sig ? sig : WEXITSTATUS(st),
                         again ? "" : " in sequence with earlier cases, not when replayed alone");
                crashes.push_back({"crash", std::string(b) + "\n" + only_log(), only_desc(), bad});
                w.ex.insert(bad);
                if (++w.crashes > 6) { w.fin = true; continue; }
                start(i, bad);
                continue;
            }
            if (s->beat != w.beat) { w.beat = s->beat; w.t = now(); }
            else if (now() - w.t > o.hang_s) {
                int64_t bad = s->cur;
                kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0);
                int st2 = 0;
                bool fin = spawn_only(bad, o.hang_s * 3, st2);
                if (!fin) {
                    crashes.push_back({"hang", "the case does not end (no progress for " + std::to_string(o.hang_s * 3) + " s when run alone)", only_desc(), bad});
                    w.ex.insert(bad);
                    if (++w.crashes > 2) { w.fin = true; continue; }
                    start(i, bad);
                } else start(i, bad - 1);
            }
        }
        if (all) break;
        usleep(5000);
    }
    // merge
    int64_t c[32] = {0}; int64_t total = 0;
    for (int i = 0; i < jobs; i++) { for (int k = 0; k < 32; k++) c[k] += slots[i].counters[k]; if (slots[i].total > total) total = slots[i].total; }
    std::unordered_set<std::string> D, O;
    std::vector<std::string> samples;
    for (int i = 0; i < jobs; i++) {
        std::ifstream f(base.outdir + "/set." + std::to_string(i)); std::string l;
        while (std::getline(f, l)) (l[0] == 'D' ? D : O).insert(l.substr(1));
        std::ifstream g(base.outdir + "/samples." + std::to_string(i));
        while (std::getline(g, l)) if (samples.size() < 6) samples.push_back(l);
    }
    FILE* f = fopen((base.outdir + "/result.json").c_str(), "w");
    fprintf(f, "{\"cases\":%lld,\"evaluations\":%lld,\"distinct_nontrivial\":%zu,\"outcomes\":%zu,\"states\":%lld,\"transitions\":%lld,\"traces\":%lld,\"broken\":%d,\"rule\":%s,\"extra\":{",
            (long long) total, (long long) c[0], D.size(), O.size(), (long long) c[1], (long long) c[2], (long long) c[3], broken, jstr(o.coverage_rule).c_str());
    bool first = true;
    for (auto& [id, name] : o.extra_counters) { fprintf(f, "%s%s:%lld", first ? "" : ",", jstr(name).c_str(), (long long) c[id]); first = false; }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", samples[i].c_str());
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto& v : crashes) {
        fprintf(f, "%s{\"index\":%lld,\"key\":%s,\"msg\":%s,\"desc\":%s}", first ? "" : ",\n", (long long) v.index, jstr(v.key).c_str(), jstr(v.msg).c_str(), jstr(v.desc).c_str());
        first = false;
    }
    for (int i = 0; i < jobs; i++) {
        std::ifstream g(base.outdir + "/vio." + std::to_string(i)); std::string l;
        while (std::getline(g, l)) { fprintf(f, "%s%s", first ? "" : ",\n", l.c_str()); first = false; }
    }
    fprintf(f, "]}\n");
    fclose(f);
    return broken ? 2 : 0;
}
} // namespace vc
