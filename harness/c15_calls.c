#include "daisy_rtl/daisy_rtl.h"
#ifdef __cplusplus
#define EX extern "C"
#else
#define EX
#endif
#define MIN(x, y) __daisy_min(x, y)
#define MAX(x, y) __daisy_max(x, y)
#define FMA(x, y, z) __daisy_fma(x, y, z)
EX int c15_pow(int b, int e) { return __daisy_sym_pow(b, e); }
EX int c15_pow_nested(int b, int e, int f) { return 3 - __daisy_sym_pow(__daisy_sym_pow(b + 0, e), f) * 2; }
#define X(n, e) case n: return e;
#define DEF(T, N) EX T c15_##N(int k, T a, T b, T c, T d) { switch (k) {
DEF(int, i)
#include "c15_exprs.h"
} return 0; }
DEF(long long, l)
#include "c15_exprs.h"
} return 0; }
DEF(double, d)
#include "c15_exprs.h"
} return 0; }
DEF(float, f)
#include "c15_exprs.h"
} return 0; }
/* mixed widths: the usual arithmetic conversions apply, nothing may be narrowed */
EX long long c15_mixmin(int a, long long b) { return __daisy_min(a, b); }
EX long long c15_mixmax(long long a, int b) { return __daisy_max(a, b); }
EX double c15_mixd(int a, double b) { return __daisy_max(a, b); }
EX unsigned long long c15_umin(unsigned long long a, unsigned long long b) { return __daisy_min(a, b); }
EX unsigned long long c15_umax(unsigned long long a, unsigned long long b) { return __daisy_max(a, b); }
EX double c15_fmad(double a, double b, double c) { return __daisy_fma(a, b, c); }
