// A counter library that hands every call to the harness.
extern "C" {
int fp_call(int op, int set, const char* name, long long* values, int* pset);
long long fp_clock();
#define EXPORT __attribute__((visibility("default")))
EXPORT int PAPI_library_init(int v) { return fp_call(0, v, nullptr, nullptr, nullptr); }
EXPORT int PAPI_create_eventset(int* s) { return fp_call(1, 0, nullptr, nullptr, s); }
EXPORT int PAPI_cleanup_eventset(int s) { return fp_call(2, s, nullptr, nullptr, nullptr); }
EXPORT int PAPI_destroy_eventset(int* s) { return fp_call(3, s ? *s : -99, nullptr, nullptr, s); }
EXPORT int PAPI_add_named_event(int s, const char* n) { return fp_call(4, s, n, nullptr, nullptr); }
EXPORT int PAPI_start(int s) { return fp_call(5, s, nullptr, nullptr, nullptr); }
EXPORT int PAPI_stop(int s, long long* v) { return fp_call(6, s, nullptr, v, nullptr); }
EXPORT int PAPI_reset(int s) { return fp_call(7, s, nullptr, nullptr, nullptr); }
EXPORT int PAPI_read(int s, long long* v) { return fp_call(8, s, nullptr, v, nullptr); }
EXPORT const char* PAPI_strerror(int) { return "fake"; }
EXPORT long long PAPI_get_real_nsec() { return fp_clock(); }
}
