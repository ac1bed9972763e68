// C15: run-time arithmetic of daisy_rtl.h, compiled as C and C++ at several optimization levels, against exact values.
#include <dlfcn.h>
#include <climits>
#include "vc.h"
typedef __int128 big;
struct Lib { const char* name; void* h; std::string err; };
static std::vector<Lib> libs;
template<class F> static F* sym(Lib& l, const char* n) { return (F*) dlsym(l.h, n); }
template<class T> T MIN(T x, T y) { return x < y ? x : y; }
template<class T> T MAX(T x, T y) { return x > y ? x : y; }
template<class T> T FMA(T x, T y, T z) { return x * y + z; }
#define X(n, e) #e,
static const char* texts[] = {
#include "c15_exprs.h"
};
#undef X
#define X(n, e) case n: return e;
template<class T> T expected(int k, T a, T b, T c, T d) { switch (k) {
#include "c15_exprs.h"
} return 0; }
static const int N = sizeof texts / sizeof *texts;
template<class T, class B> static void grid(vc::Run& r, Lib& l, const char* fn, int k, const std::vector<T>& w, bool bounded) {
    auto f = sym<T(int, T, T, T, T)>(l, fn);
    for (T a : w) for (T b : w) for (T c : w) for (T d : w) {
        B e = expected<B>(k, a, b, c, d);
        if (bounded) { bool out = false; // every intermediate value must be representable: judged from the operands
            big m = 1; for (T x : {a, b, c, d}) { big y = x < 0 ? -(big) x : (big) x; if (y > m) m = y; }
            if (k >= 4 && k != 14 && k != 15 && k != 16 && k != 18 && k != 19 && k != 20 && k != 21 && m > 5) out = true;
            if (out) continue; }
        T g = f(k, a, b, c, d);
        if ((B) g != e) r.fail(std::string("expr:") + texts[k] + ":" + fn, std::string(l.name) + ": " + texts[k] + " with a,b,c,d = " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(d) + " in type " + (fn + 4) + " gives " + std::to_string(g) + ", expected " + std::to_string((double) e));
        r.count(8);
    }
}
// the exact power, or false if it does not fit an int
static bool power(long b, int e, long& out) {
    if (e < 0) { out = 0; return true; }
    if (b == 0 || b == 1) { out = e == 0 ? 1 : b; return true; }
    if (b == -1) { out = e % 2 ? -1 : 1; return true; }
    out = 1;
    for (int i = 0; i < e; i++) { out *= b; if (out > INT_MAX || out < INT_MIN) return false; }
    return true;
}
static void pow_case(vc::Run& r, Lib& l, int (*f)(int, int), long b, int e) {
    long want; if (!power(b, e, want)) return;
    long got = f(b, e);
    if (got != want) r.fail("pow:" + std::to_string(b) + "^" + std::to_string(e), std::string(l.name) + ": __daisy_sym_pow(" + std::to_string(b) + ", " + std::to_string(e) + ") = " + std::to_string(got) + ", expected " + std::to_string(want));
    r.count(8);
}
static void explore(vc::Run& r) {
    for (auto& l : libs) {
        r.kase([&] { return std::string(l.name) + ": linking a program that uses the functions"; }, [&] {
            if (!l.h) r.fail("link", std::string(l.name) + ": " + l.err); r.nontrivial(vc::hash_str(l.name)); });
        for (int e = -4; e <= 70; e++) r.kase([&, e] { return std::string(l.name) + ": powers with exponent " + std::to_string(e); }, [&] {
            if (!l.h) return;
            auto f = sym<int(int, int)>(l, "c15_pow");
            int lim = e <= 1 ? 100000 : 46400; // beyond 46340 no square fits an int
            for (long b = -lim; b <= lim; b++) { long w; if (e > 2 && (b > 1300 || b < -1300) ) { b = b < 0 ? -1301 : lim; continue; } pow_case(r, l, f, b, e); }
            for (long b : {(long) INT_MIN, (long) INT_MIN + 1, (long) INT_MAX, (long) INT_MAX - 1, 65536l, -65536l, 46340l, -46340l, 46341l, 1l << 30}) pow_case(r, l, f, b, e);
            r.nontrivial(vc::mix(e, vc::hash_str(l.name))); r.outcome(e); });
        for (int e : {71, 100, 127, 128, 255, 256, 1000, 65535, 65536, 1 << 20, 1 << 30, INT_MAX - 1, INT_MAX, -100, INT_MIN, INT_MIN + 1}) r.kase([&, e] { return std::string(l.name) + ": powers of -1, 0, 1 with exponent " + std::to_string(e); }, [&] {
            if (!l.h) return; for (long b = -1; b <= 1; b++) pow_case(r, l, sym<int(int, int)>(l, "c15_pow"), b, e); if (e < 0) for (long b : {7l, -3l, 2l, (long) INT_MIN}) pow_case(r, l, sym<int(int, int)>(l, "c15_pow"), b, e); r.nontrivial(vc::mix(e, 5)); });
        r.kase([&] { return std::string(l.name) + ": nested powers"; }, [&] {
            if (!l.h) return; auto f = sym<int(int, int, int)>(l, "c15_pow_nested");
            for (long b = -9; b <= 9; b++) for (int e = -1; e <= 5; e++) for (int g = -1; g <= 3; g++) { long x, y; if (!power(b, e, x) || !power(x, g, y) || y > 1 << 29 || y < -(1 << 29)) continue; int got = f(b, e, g); if (got != 3 - 2 * y) r.fail("pow:nested", std::string(l.name) + ": 3 - pow(pow(" + std::to_string(b) + "," + std::to_string(e) + ")," + std::to_string(g) + ") * 2 = " + std::to_string(got)); r.count(8); } });
        if (r.thorough) for (int part = 0; part < 64; part++) r.kase([&, part] { return std::string(l.name) + ": every base with exponent 1 and 0, part " + std::to_string(part); }, [&] {
            if (!l.h) return; auto f = sym<int(int, int)>(l, "c15_pow"); long lo = (long) INT_MIN + part * (1l << 26);
            for (long b = lo; b < lo + (1l << 26); b++) { if (f(b, 1) != b || f(b, 0) != 1 || f(b, -1) != 0) pow_case(r, l, f, b, 1), pow_case(r, l, f, b, 0), pow_case(r, l, f, b, -1); if (!(b & 0xffffff)) r.alive(); } });
        std::vector<int> si{-5, -2, -1, 0, 1, 3, 4}, bi{INT_MIN, -1, 0, 1, INT_MAX - 1, INT_MAX};
        std::vector<long long> sl{-5, -2, -1, 0, 1, 3, 4}, bl{LLONG_MIN, -(1ll << 32), -1, 0, 1, 1ll << 32, LLONG_MAX};
        std::vector<double> sd{-2.5, -1, 0, 0.5, 3, 1e3}; std::vector<float> sf{-2.5f, -1, 0, 0.5f, 3};
        for (int k = 0; k < N; k++) r.kase([&, k] { return std::string(l.name) + ": " + texts[k]; }, [&] {
            if (!l.h) return;
            grid<int, big>(r, l, "c15_i", k, si, false); grid<int, big>(r, l, "c15_i", k, bi, true);
            grid<long long, big>(r, l, "c15_l", k, sl, false); grid<long long, big>(r, l, "c15_l", k, bl, true);
            grid<double, double>(r, l, "c15_d", k, sd, false); grid<float, double>(r, l, "c15_f", k, sf, false);
            r.nontrivial(vc::mix(k, vc::hash_str(l.name)) + 1); r.outcome(k + 1000); });
        r.kase([&] { return std::string(l.name) + ": mixed widths"; }, [&] {
            if (!l.h) return;
            for (int a : {INT_MIN, -1, 0, 1, INT_MAX}) for (long long b : {LLONG_MIN, -(1ll << 32), -1ll, 0ll, 1ll, 1ll << 32, LLONG_MAX}) {
                if (sym<long long(int, long long)>(l, "c15_mixmin")(a, b) != std::min<long long>(a, b)) r.fail("mixed:min", "minimum of int and long long");
                if (sym<long long(long long, int)>(l, "c15_mixmax")(b, a) != std::max<long long>(a, b)) r.fail("mixed:max", "maximum of long long and int");
                if (sym<double(int, double)>(l, "c15_mixd")(a, b) != std::max<double>(a, b)) r.fail("mixed:double", "maximum of int and double");
            }
            for (unsigned long long a : {0ull, 1ull, 1ull << 63, ~0ull}) for (unsigned long long b : {0ull, 1ull, 1ull << 63, ~0ull}) {
                if (sym<unsigned long long(unsigned long long, unsigned long long)>(l, "c15_umin")(a, b) != std::min(a, b)) r.fail("unsigned:min", "unsigned minimum");
                if (sym<unsigned long long(unsigned long long, unsigned long long)>(l, "c15_umax")(a, b) != std::max(a, b)) r.fail("unsigned:max", "unsigned maximum");
            }
            r.nontrivial(vc::hash_str(l.name) + 7); });
    }
}
int main(int argc, char** argv) {
    for (const char* n : {"C_O0", "C_O2", "CXX_O0", "CXX_O2", "C_UB", "CXX_UB"}) {
        const char* p = getenv((std::string("VC_SO_C15_") + n).c_str());
        Lib l{n, nullptr, ""};
        if (p) l.h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
        if (!l.h) l.err = p ? dlerror() : "not built";
        libs.push_back(l);
    }
    vc::Options o; o.coverage_rule = "distinct (build, function or expression) pairs"; o.extra_counters = {{8, "argument tuples checked"}};
    return vc::main_impl(argc, argv, explore, o);
}
