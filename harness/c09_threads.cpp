// C09: every interleaving of small multi-threaded uses of the instrumentation interface, at the granularity of
// synchronization operations.  The library is compiled with memory-access instrumentation, whose callbacks are
// implemented here: a happens-before race detector runs on every explored schedule, so that interleavings inside
// race-free code need not be explored.  The counter library counts as one shared object.
#include "instr.h"
#include <link.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
using namespace in;
// ---- clocks -------------------------------------------------------------------------------------------------------
enum { T = 5 }; // main + up to 4 threads
struct VC { uint32_t c[T] = {0}; void join(const VC& o) { for (int i = 0; i < T; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Cell { uint32_t wclk = 0; int8_t wtid = -1; uint8_t wmask = 0; uint32_t rclk[T] = {0}; uint8_t rmask[T] = {0}; };
struct Th { pthread_t p; sem_t sem; VC vc; bool done = false, started = false; void* want = nullptr; int want_kind = 0; View view; int id; };
static Th* th[T]; static int nth; static thread_local int me = 0;
static bool active = false;      // controlled threads are running
static thread_local bool in_api = false;
static std::string race; static std::string sched_err;
static std::vector<int> choice, path; static std::vector<std::vector<int>> enabled_at; static std::vector<int> trace_s;
struct Mx { int owner = -1, depth = 0, readers = 0; VC vc; };
static std::map<void*, Mx> mx; static std::map<void*, VC> sync_vc; static std::set<void*> guards; // guards in progress: owner in mx
static long steps;
// ---- arena for everything the library allocates, with direct shadow cells ---------------------------------------------
static constexpr size_t ARENA = 8 << 20;
static char* arena; static size_t arena_used = 0, arena_dirty = 0; static Cell* cells; static Cell papi_cell;
static char *glo = nullptr, *ghi = nullptr; static Cell* gcells; static constexpr size_t GMAX = 1 << 18;
void* operator new(size_t n) {
    if (in_api) { size_t k = (n + 15) & ~15ul; if (arena_used + k > ARENA) abort(); void* p = arena + arena_used; arena_used += k; return p; }
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void operator delete(void* p) noexcept { if ((char*) p >= arena && (char*) p < arena + ARENA) return; free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
static void touch(Cell& c, bool write, uint8_t mask, const void* addr) {
    VC& v = th[me]->vc;
    auto bad = [&](int other, const char* a) { if (race.empty()) { char b[200]; snprintf(b, sizeof b, "thread %d %s and thread %d %s the same location without synchronization (%s)", other, a, me, write ? "writes" : "reads", &c == &papi_cell ? "the counter library" : (char*) addr >= arena && (char*) addr < arena + ARENA ? "heap data of the runtime" : "global state of the runtime"); race = b; } };
    if (c.wtid >= 0 && c.wtid != me && (c.wmask & mask) && c.wclk > v.c[c.wtid]) bad(c.wtid, "writes");
    if (write) for (int t = 0; t < T; t++) if (t != me && (c.rmask[t] & mask) && c.rclk[t] > v.c[t]) bad(t, "reads");
    if (write) { if (c.wtid == me && c.wclk == v.c[me]) c.wmask |= mask; else { c.wtid = me; c.wclk = v.c[me]; c.wmask = mask; } }
    else { if (c.rclk[me] == v.c[me]) c.rmask[me] |= mask; else { c.rclk[me] = v.c[me]; c.rmask[me] = mask; } }
}
static void access(void* a, size_t n, bool write) {
    if (!active || !in_api) return;
    char* p = (char*) a;
    for (size_t i = 0; i < n;) {
        size_t off = (uintptr_t) (p + i) & 7, k = std::min(n - i, 8 - off);
        uint8_t m = ((1u << k) - 1) << off;
        char* q = p + i;
        if (q >= arena && q < arena + ARENA) { size_t x = (q - arena) >> 3; if ((x + 1) * 8 > arena_dirty) arena_dirty = (x + 1) * 8; touch(cells[x], write, m, q); }
        else if (q >= glo && q < ghi) touch(gcells[(q - glo) >> 3], write, m, q);
        i += k;
    }
}
// ---- scheduler ----------------------------------------------------------------------------------------------------
struct Abandon {};
static bool runnable(int t) {
    Th& x = *th[t];
    if (x.done) return false;
    if (!x.want) return true;
    Mx& m = mx[x.want];
    if (x.want_kind == 1) return m.owner < 0;             // shared
    return m.owner < 0 && m.readers == 0;
}
static bool abandoning = false;
static void pick() { // choose who runs next; the caller is at a scheduling point (or finished)
    if (abandoning) return;
    std::vector<int> en; for (int t = 1; t < nth; t++) if (runnable(t)) en.push_back(t);
    int next;
    if (en.empty()) {
        bool all = true; for (int t = 1; t < nth; t++) if (!th[t]->done) all = false;
        if (all) { sem_post(&th[0]->sem); return; }
        if (sched_err.empty()) sched_err = "deadlock: no thread can continue";
        abandoning = true; for (int t = 1; t < nth; t++) if (!th[t]->done && t != me) sem_post(&th[t]->sem);
        return;
    }
    if (++steps > 20000) { if (sched_err.empty()) sched_err = "no progress after 20000 scheduling points"; abandoning = true; for (int t = 1; t < nth; t++) if (!th[t]->done && t != me) sem_post(&th[t]->sem); return; }
    if (en.size() == 1) next = en[0];
    else {
        size_t at = path.size(); int k = 0;
        if (at < choice.size()) k = choice[at];
        path.push_back(k); enabled_at.push_back(en);
        next = en[k];
    }
    if (next == me && !th[me]->done) return;
    sem_post(&th[next]->sem);
    if (!th[me]->done) { while (sem_wait(&th[me]->sem)) {} }
}
static thread_local bool fresh = false; // just chosen to start, nothing visible done yet
static void point() { if (!active || me == 0 || abandoning) return; if (fresh) { fresh = false; if (runnable(me)) return; } bool a = in_api; in_api = false; pick(); in_api = a; if (abandoning && !std::uncaught_exceptions()) { in_api = false; throw Abandon(); } }
static void acquire(void* m, int kind, bool recursive = false) {
    Mx& x = mx[m];
    if (x.owner == me) { if (recursive) { x.depth++; return; } if (sched_err.empty()) sched_err = "a thread locks a mutex it already holds"; }
    th[me]->want = m; th[me]->want_kind = kind;
    point();
    th[me]->want = nullptr;
    if (abandoning) return;
    if (kind == 1) x.readers++; else { x.owner = me; x.depth = 1; }
    th[me]->vc.join(x.vc);
}
static void release(void* m) {
    Mx& x = mx[m];
    if (x.owner == me) { if (--x.depth) return; x.owner = -1; } else if (x.readers) x.readers--; else { if (!abandoning && sched_err.empty()) sched_err = "a thread unlocks a mutex it does not hold"; return; }
    x.vc.join(th[me]->vc); th[me]->vc.c[me]++;
}
template<class F> static F real(const char* n) { static std::map<std::string, void*> m; auto& p = m[n]; if (!p) p = dlsym(RTLD_NEXT, n); return (F) p; }
#define CTL (active && in_api && me)
struct Out { bool a; Out() : a(in_api) { in_api = false; } ~Out() { in_api = a; } };
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (CTL) { Out o; acquire(m, 0, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0; } static decltype((int (*)(pthread_mutex_t*)) nullptr) f = nullptr; if (!f) f = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (CTL) { Out o; release(m); return 0; } static decltype((int (*)(pthread_mutex_t*)) nullptr) f = nullptr; if (!f) f = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (CTL) { Out o; point(); Mx& x = mx[m]; if (x.owner >= 0 || x.readers) return EBUSY; x.owner = me; x.depth = 1; th[me]->vc.join(x.vc); return 0; } static decltype((int (*)(pthread_mutex_t*)) nullptr) f = nullptr; if (!f) f = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_trylock"); return f(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (CTL) { Out o; acquire(m, 0); return 0; } static decltype((int (*)(pthread_rwlock_t*)) nullptr) f = nullptr; if (!f) f = (int (*)(pthread_rwlock_t*)) dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); return f(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (CTL) { Out o; acquire(m, 1); return 0; } static decltype((int (*)(pthread_rwlock_t*)) nullptr) f = nullptr; if (!f) f = (int (*)(pthread_rwlock_t*)) dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); return f(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (CTL) { Out o; release(m); return 0; } static decltype((int (*)(pthread_rwlock_t*)) nullptr) f = nullptr; if (!f) f = (int (*)(pthread_rwlock_t*)) dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); return f(m); }
int __cxa_guard_acquire(uint64_t* g) {
    if (CTL) { Out o; if (*(volatile char*) g) { th[me]->vc.join(sync_vc[g]); return 0; } acquire(g, 0); if (*(volatile char*) g) { Mx& x = mx[g]; x.owner = -1; return 0; } return 1; }
    static decltype((int (*)(uint64_t*)) nullptr) f = nullptr; if (!f) f = (int (*)(uint64_t*)) dlsym(RTLD_NEXT, "__cxa_guard_acquire"); return f(g);
}
void __cxa_guard_release(uint64_t* g) {
    if (CTL) { Out o; *(volatile char*) g = 1; sync_vc[g].join(th[me]->vc); release(g); return; }
    static decltype((void (*)(uint64_t*)) nullptr) f = nullptr; if (!f) f = (void (*)(uint64_t*)) dlsym(RTLD_NEXT, "__cxa_guard_release"); f(g);
}
void __cxa_guard_abort(uint64_t* g) {
    if (CTL) { Out o; release(g); return; }
    static decltype((void (*)(uint64_t*)) nullptr) f = nullptr; if (!f) f = (void (*)(uint64_t*)) dlsym(RTLD_NEXT, "__cxa_guard_abort"); f(g);
}
// memory-access callbacks
#define EX __attribute__((visibility("default"), used))
EX void __tsan_init() {} EX void __tsan_func_entry(void*) {} EX void __tsan_func_exit() {}
#define RW(n) EX void __tsan_read##n(void* a) { access(a, n, false); } EX void __tsan_write##n(void* a) { access(a, n, true); } \
    EX void __tsan_unaligned_read##n(void* a) { access(a, n, false); } EX void __tsan_unaligned_write##n(void* a) { access(a, n, true); } \
    EX void __tsan_read_write##n(void* a) { access(a, n, true); } EX void __tsan_unaligned_read_write##n(void* a) { access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EX void __tsan_read_range(void* a, unsigned long n) { access(a, n, false); } EX void __tsan_write_range(void* a, unsigned long n) { access(a, n, true); }
EX void __tsan_vptr_update(void** a, void*) { access(a, 8, true); } EX void __tsan_vptr_read(void** a) { access(a, 8, false); }
EX void* __tsan_memcpy(void* d, const void* s, size_t n) { access((void*) s, n, false); access(d, n, true); return memcpy(d, s, n); }
EX void* __tsan_memmove(void* d, const void* s, size_t n) { access((void*) s, n, false); access(d, n, true); return memmove(d, s, n); }
EX void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
static void at_sync(void* a, bool load_only, bool byte = false) {
    if (!CTL) return;
    Out o;
    if (!(load_only && byte && a >= (void*) glo && a < (void*) ghi)) point(); // the check of a static's guard is no scheduling point: taking the guard is
    th[me]->vc.join(sync_vc[a]);
    if (!load_only) { sync_vc[a].join(th[me]->vc); th[me]->vc.c[me]++; }
}
#define ATOM(bits, t) \
    EX t __tsan_atomic##bits##_load(const volatile t* a, int) { at_sync((void*) a, true, bits == 8); return *a; } \
    EX void __tsan_atomic##bits##_store(volatile t* a, t v, int) { at_sync((void*) a, false); *a = v; } \
    EX t __tsan_atomic##bits##_exchange(volatile t* a, t v, int) { at_sync((void*) a, false); t o = *a; *a = v; return o; } \
    EX t __tsan_atomic##bits##_fetch_add(volatile t* a, t v, int) { at_sync((void*) a, false); t o = *a; *a = o + v; return o; } \
    EX t __tsan_atomic##bits##_fetch_sub(volatile t* a, t v, int) { at_sync((void*) a, false); t o = *a; *a = o - v; return o; } \
    EX t __tsan_atomic##bits##_fetch_or(volatile t* a, t v, int) { at_sync((void*) a, false); t o = *a; *a = o | v; return o; } \
    EX t __tsan_atomic##bits##_fetch_and(volatile t* a, t v, int) { at_sync((void*) a, false); t o = *a; *a = o & v; return o; } \
    EX t __tsan_atomic##bits##_fetch_xor(volatile t* a, t v, int) { at_sync((void*) a, false); t o = *a; *a = o ^ v; return o; } \
    EX int __tsan_atomic##bits##_compare_exchange_strong(volatile t* a, t* c, t v, int, int) { at_sync((void*) a, false); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    EX int __tsan_atomic##bits##_compare_exchange_weak(volatile t* a, t* c, t v, int m, int n) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, n); } \
    EX t __tsan_atomic##bits##_compare_exchange_val(volatile t* a, t c, t v, int, int) { at_sync((void*) a, false); t o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EX void __tsan_atomic_thread_fence(int) {} EX void __tsan_atomic_signal_fence(int) {}
}
static void on_papi(int) { if (active && me) touch(papi_cell, true, 1, &papi_cell); }
// ---- scenarios ----------------------------------------------------------------------------------------------------
struct Scenario { std::string name; Config c; std::vector<Op> pre; std::vector<std::vector<Op>> prog; };
struct Arg { Runner* x; const std::vector<Op>* prog; int id; std::string fail_key, fail_msg; };
struct ApiGuard { ApiGuard() { in_api = true; } ~ApiGuard() { in_api = false; } };
static void* body(void* p) {
    Arg& a = *(Arg*) p; me = a.id; V = &th[me]->view;
    while (sem_wait(&th[me]->sem)) {}
    fresh = true;
    try { if (!abandoning) for (auto& o : *a.prog) a.x->apply(o); }
    catch (vc::CaseFailed&) { }
    catch (Abandon&) {}
    catch (ExitCalled&) { if (sched_err.empty()) sched_err = "the runtime ended the program with a failure" + (a.x->w.err.empty() ? "" : " after: " + a.x->w.err); }
    in_api = false;
    th[me]->done = true;
    if (abandoning) { bool all = true; for (int t = 1; t < nth; t++) if (!th[t]->done) all = false; if (all) sem_post(&th[0]->sem); }
    else pick();
    return nullptr;
}
static size_t (*r_init)(__daisy_metadata*, enum __daisy_event_set); static void (*r_fin)(size_t), (*r_enter)(size_t), (*r_exit)(size_t), (*r_incr)(size_t, const char*, long long), (*r_metric)(size_t, const char*, double);
static int phdr_cb(struct dl_phdr_info* i, size_t, void*) {
    if (!i->dlpi_name || strcmp(i->dlpi_name, getenv("VC_SO_INSTR_TSAN"))) return 0;
    glo = ghi = nullptr;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto& h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) { char* a = (char*) i->dlpi_addr + h.p_vaddr; char* b = a + h.p_memsz; if (!glo || a < glo) glo = a; if (b > ghi) ghi = b; } }
    glo = (char*) ((uintptr_t) glo & ~7ul);
    if ((size_t) (ghi - glo) / 8 >= GMAX) ghi = glo;
    return 1;
}
static void one(vc::Run& r, const Scenario& s) { // one schedule: choice
    path.clear(); enabled_at.clear(); race.clear(); sched_err.clear(); mx.clear(); sync_vc.clear(); steps = 0; abandoning = false; me = 0;
    if (arena_dirty) { memset((void*) cells, 0, arena_dirty / 8 * sizeof(Cell)); for (size_t i = 0; i < arena_dirty / 8; i++) cells[i].wtid = -1; } // fresh shadow
    arena_dirty = 0; arena_used = 0; papi_cell = Cell();
    for (size_t i = 0; i < GMAX && glo + i * 8 < ghi; i++) gcells[i] = Cell();
    nth = s.prog.size() + 1;
    for (int t = 0; t < nth; t++) { *th[t] = Th(); sem_init(&th[t]->sem, 0, 0); th[t]->vc.c[t] = 1; th[t]->id = t; }
    Runner x(r, s.c);
    x.w.concurrent = true;
    struct G { Runner& x; ~G() { active = false; in_api = false; if (x.api.so) { x.w.closing = true; dlclose(x.api.so); } W = nullptr; papi_hook = nullptr; } } g{x};
    try {
        x.start();
        dl_iterate_phdr(phdr_cb, nullptr);
        r_init = x.api.init; r_fin = x.api.fin; r_enter = x.api.enter; r_exit = x.api.exit_; r_incr = x.api.incr; r_metric = x.api.metric;
        x.api.init = [](__daisy_metadata* m, enum __daisy_event_set e) { ApiGuard g; return r_init(m, e); };
        x.api.fin = [](size_t i) { ApiGuard g; r_fin(i); }; x.api.enter = [](size_t i) { ApiGuard g; r_enter(i); }; x.api.exit_ = [](size_t i) { ApiGuard g; r_exit(i); };
        x.api.incr = [](size_t i, const char* n, long long v) { ApiGuard g; r_incr(i, n, v); }; x.api.metric = [](size_t i, const char* n, double v) { ApiGuard g; r_metric(i, n, v); };
        papi_hook = on_papi;
        for (auto& o : s.pre) x.apply(o);
        std::vector<Arg> args(nth);
        for (int t = 1; t < nth; t++) { th[t]->view = x.w.main; th[t]->view.clock += 1000003 * t; for (auto& c : th[t]->view.ctr) c.second += 7919 * t; th[t]->view.step = t * 2; args[t] = {&x, &s.prog[t - 1], t, "", ""}; th[t]->vc.join(th[0]->vc); }
        active = true;
        for (int t = 1; t < nth; t++) pthread_create(&th[t]->p, nullptr, body, &args[t]);
        th[0]->done = true; pick();
        while (sem_wait(&th[0]->sem)) {}
        for (int t = 1; t < nth; t++) pthread_join(th[t]->p, nullptr);
        active = false;
        if (r.n_vio && r.only < 0 && abandoning) throw vc::CaseFailed();
        if (!race.empty()) r.fail("data_race", race);
        if (!sched_err.empty()) r.fail(sched_err.find("deadlock") == 0 ? "deadlock" : "stuck_or_misused_lock", sched_err);
        x.check_world();
        { struct A { ~A() { in_api = false; } } a; json j; V = &x.w.main; x.w.main.clock += 100000000;
          j = x.finish();
          if (s.c.aggregate) x.check_aggregate(j); else x.check_plain(j); }
    } catch (json::exception& e) { r.fail("malformed_event", e.what()); }
    catch (ExitCalled&) { r.fail("exit_called", "the runtime ended the program with a failure"); }
}
static void run(vc::Run& r, const Scenario& s, long cap) {
    choice.clear();
    long n = 0; std::set<uint64_t> outs;
    int before = r.n_vio; struct P { vc::Run& r; long& n; ~P() { if (r.only >= 0) fprintf(stderr, "%ld schedules\n", n); } } pr{r, n};
    for (;;) {
        r.alive();
        one(r, s);
        if (r.n_vio != before) return;
        n++; r.count(vc::Run::STATES, path.size() + 1); r.count(vc::Run::TRANS, path.size()); r.count(vc::Run::TRACES); r.count(vc::Run::AUX0);
        uint64_t h = vc::hash_str(s.name); for (size_t i = 0; i < path.size(); i++) h = vc::mix(h, enabled_at[i][path[i]]);
        r.nontrivial(h); r.outcome(vc::mix(path.size(), steps));
        // next schedule in depth-first order
        int k = (int) path.size() - 1;
        while (k >= 0 && path[k] + 1 >= (int) enabled_at[k].size()) k--;
        if (k < 0) break;
        choice.assign(path.begin(), path.begin() + k); choice.push_back(path[k] + 1);
        if (n >= cap) { r.report("schedule_cap", "internal: more schedules than planned"); return; }
    }
}
static void explore(vc::Run& r) {
    arena = (char*) mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    cells = (Cell*) mmap(0, ARENA / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (size_t i = 0; i < ARENA / 8; i++) cells[i].wtid = -1;
    gcells = (Cell*) malloc(GMAX * sizeof(Cell)); for (size_t i = 0; i < GMAX; i++) new (&gcells[i]) Cell();
    for (auto& t : th) t = new Th();
    setenv("VC_SO_INSTR", getenv("VC_SO_INSTR_TSAN"), 1);
    std::vector<Scenario> ss;
    auto prog = [&](int kind, int a, int b) -> std::vector<Op> { // programs over regions a (and b)
        switch (kind) {
            case 0: return {{INIT, a}, {ENTER, a}, {EXIT, a}, {FIN, a}};
            case 1: return {{INIT, a}, {ENTER, a}, {METRIC, a, 0, 2.5}, {EXIT, a}, {INCR, a, 1, 3}, {FIN, a}};
            case 2: return {{INIT, a}, {ENTER, a}, {ENTER, a}, {EXIT, a}, {EXIT, a}, {FIN, a}};
            case 3: return {{INIT, a}, {FIN, a}, {INIT, a}, {ENTER, a}, {EXIT, a}, {FIN, a}};
            case 4: return {{INIT, a}, {INIT, b}, {ENTER, a}, {ENTER, b}, {EXIT, b}, {EXIT, a}, {FIN, b}, {FIN, a}};
            case 5: return {{INIT, a}, {METRIC, a, 0, 1.25}, {METRIC, a, 0, 7.0}};
            case 6: return {{INIT, a}, {ENTER, a}, {EXIT, a}};
            default: return {{INIT, a}, {FIN, a}};
        }
    };
    auto add = [&](std::vector<int> kinds, bool agg, int pre, bool touched, int sets) {
        Scenario s; int n = 2 * kinds.size() + pre; s.c.aggregate = agg; s.c.cpu = {"PAPI_TOT_CYC", "PAPI_TOT_INS"}; s.c.cuda = {"cuda:::x"}; if (sets == 3) { s.c.cpu.clear(); s.c.cuda.clear(); }
        s.c.metas = metas(n); s.c.kinds.resize(n); for (int i = 0; i < n; i++) s.c.kinds[i] = sets == 0 ? 0 : sets == 1 ? (i & 1) : sets == 2 ? 2 : 0;
        int base = 2 * kinds.size();
        for (int i = 0; i < pre; i++) { s.pre.push_back({INIT, base + i}); s.pre.push_back({FIN, base + i}); }
        if (touched) for (size_t t = 0; t < kinds.size(); t++) { s.pre.push_back({INIT, (int) (2 * t)}); s.pre.push_back({FIN, (int) (2 * t)}); }
        s.name = std::string(agg ? "[aggregate" : "[trace") + " events" + std::to_string(sets) + " after " + std::to_string(pre) + (touched ? "+own" : "") + "]";
        for (size_t t = 0; t < kinds.size(); t++) { s.prog.push_back(prog(kinds[t], 2 * t, 2 * t + 1)); s.name += " || " + show(s.prog.back()); }
        ss.push_back(s);
    };
    for (int agg = 0; agg < 2; agg++) for (int sets = 0; sets < 4; sets++) for (int pre : {0, 9, 10}) for (int touched = 0; touched < 2; touched++) {
        if (sets >= 2 && (pre || touched)) continue;
        for (int a = 0; a < 8; a++) for (int b = a; b < 8; b++) {
            size_t cost = prog(a, 0, 1).size() + prog(b, 0, 1).size();
            if (cost > (r.thorough ? 14 : pre || touched || sets ? 10 : 12)) continue;
            add({a, b}, agg, pre, touched, sets);
        }
        if (sets == 0 && pre != 9 && (r.thorough || !(agg && touched))) { add({7, 7, 7}, agg, pre, touched, sets); add({5, 7, 5}, agg, pre, touched, sets); add({6, 7, 5}, agg, pre, touched, sets); if (pre == 0 || r.thorough) add({6, 6, 6}, agg, pre, touched, sets); if (r.thorough) { add({0, 0, 7}, agg, pre, touched, sets); add({7, 7, 7, 7}, agg, pre, touched, sets); } }
    }
    for (auto& s : ss) r.kase([&] { std::string c; for (size_t i = 0; i < path.size(); i++) c += char('0' + enabled_at[i][path[i]]); return s.name + (c.empty() ? "" : " | schedule " + c); }, [&] { run(r, s, 20000000); });
}
int main(int c, char** v) {
    vc::Options o; o.hang_s = 60;
    o.coverage_rule = "a case is one scenario (2 to 4 threads with a program of 2 to 8 calls each on regions of their own, cold start or after others were used); every interleaving of its synchronization operations is executed on the real code and its memory accesses checked for races; distinct non-trivial: distinct schedules";
    o.extra_counters = {{vc::Run::AUX0, "schedules"}};
    return vc::main_impl(c, v, explore, o);
}
