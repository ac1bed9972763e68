// C04: base64 codec and inline capture.
#include "vc.h"
#include "daisy_rtl/arg_capture_io.h"
#include "daisy_rtl/base64.h"
using namespace arg_capture;
static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref(const std::vector<uint8_t>& b) { // RFC 4648, bit by bit
    std::string o;
    size_t bits = b.size() * 8;
    for (size_t p = 0; p < bits; p += 6) {
        int v = 0;
        for (size_t q = p; q < p + 6; q++) v = v * 2 + (q < bits ? (b[q / 8] >> (7 - q % 8)) & 1 : 0);
        o += T[v];
    }
    while (o.size() % 4) o += '=';
    return o;
}
static std::string hex(const std::vector<uint8_t>& b) { std::string s; char t[4]; for (auto x : b) { snprintf(t, 4, "%02x", x); s += t; } return s.size() > 200 ? s.substr(0, 200) + "..." : s; }
static void one(vc::Run& r, const std::vector<uint8_t>& b) {
    // exact-size heap copy: reading past the end is caught by the address sanitizer build
    auto e = base64_encode(b.data(), b.size());
    if (e != ref(b)) r.fail("encode len%3=" + std::to_string(b.size() % 3) + (b.size() < 7 ? " " + hex(b) : ""), "bytes " + hex(b) + " encoded as " + e.substr(0, 200) + ", expected " + ref(b).substr(0, 200));
    if (base64_decode(e) != b) r.fail("decode len%3=" + std::to_string(b.size() % 3) + (b.size() < 7 ? " " + hex(b) : ""), "text " + e.substr(0, 200) + " decoded as " + hex(base64_decode(e)));
    r.count(8);
}
static void explore(vc::Run& r) {
    r.kase([] { return std::string("empty string"); }, [&] { one(r, {}); });
    for (int a = 0; a < 256; a++) r.kase([a] { return "length 1 and 2, first byte " + std::to_string(a); }, [&] {
        one(r, {(uint8_t) a}); for (int b = 0; b < 256; b++) one(r, {(uint8_t) a, (uint8_t) b}); r.nontrivial(a); r.outcome(a); });
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) {
        if (!r.thorough && b % 4 && a % 4 && (a * 256 + b) % 5) continue; // quick: every symbol pair, a quarter of the triples
        r.kase([=] { return "length 3, first bytes " + std::to_string(a) + "," + std::to_string(b); }, [&] { for (int c = 0; c < 256; c++) one(r, {(uint8_t) a, (uint8_t) b, (uint8_t) c}); r.nontrivial(1000 + a * 256 + b); });
    }
    // longer strings over boundary bytes
    const uint8_t al[] = {0x00, 0x01, 0x3f, 0x40, 0x80, 0xfb, 0xff};
    for (int len = 4; len <= (r.thorough ? 7 : 6); len++) {
        long tot = 1; for (int i = 0; i < len - 2; i++) tot *= 7;
        for (long m = 0; m < tot; m++) r.kase([=] { return "length " + std::to_string(len) + " over boundary bytes #" + std::to_string(m); }, [&] {
            std::vector<uint8_t> b(len); long x = m; for (int i = 0; i < len - 2; i++) { b[i] = al[x % 7]; x /= 7; }
            for (int p = 0; p < 7; p++) for (int q = 0; q < 7; q++) { b[len - 2] = al[p]; b[len - 1] = al[q]; one(r, b); }
            r.nontrivial(vc::mix(len, m) | 1ull << 60);
        });
    }
    for (int len = 0; len <= 1030; len++) r.kase([=] { return "pattern of length " + std::to_string(len); }, [&] {
        for (int p = 1; p < 256; p += 50) { std::vector<uint8_t> b(len); for (int i = 0; i < len; i++) b[i] = i * p + p; one(r, b); } r.nontrivial(vc::mix(len, 77)); });
    // inline captures: exactly the product of the dimensions, from any type and dimension vector
    std::vector<size_t> dv{0, 1, 2, 3, 8};
    for (int nd = 1; nd <= 4; nd++) { int tot = 1; for (int i = 0; i < nd; i++) tot *= dv.size();
        for (int m = 0; m < tot; m++) r.kase([=] { return "inline capture with " + std::to_string(nd) + " dimensions #" + std::to_string(m); }, [&] {
            std::vector<size_t> d; int x = m; size_t n = 1; for (int i = 0; i < nd; i++) { d.push_back(dv[x % 5]); n *= d.back(); x /= 5; }
            std::vector<uint8_t> mem(n); for (size_t i = 0; i < n; i++) mem[i] = 3 * i + m;
            ArgCaptureIO io("t"); io.invocation("1");
            if (!io.create_and_capture_inline(2, m & 1, m % 19, d, mem.data(), "1")) r.fail("inline:refused", "refused");
            auto want = mem; std::fill(mem.begin(), mem.end(), 0xEE);
            auto& c = io.get_captures().at("1").at({2, (bool) (m & 1)});
            if (!c.data || *c.data != want) r.fail("inline:bytes", "stored " + (c.data ? std::to_string(c.data->size()) : std::string("no")) + " bytes, expected " + std::to_string(n));
            if (c.dims != d || c.primitive_type != m % 19) r.fail("inline:shape", "shape or type differ");
            r.nontrivial(vc::mix(nd, m) | 1ull << 61); r.outcome(n + 5000);
        }); }
    // sizes beyond 32 bits (element size 8)
    r.kase([] { return std::string("inline capture of 2 GiB + 8 bytes"); }, [&] {
        size_t n = (1ull << 31) + 8;
        void* p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) return;
        ArgCaptureIO io("t"); io.invocation("1");
        bool ok; std::string err;
        try { ok = io.create_and_capture_inline(0, false, 15, {8, n / 8}, p, "1"); }
        catch (std::bad_alloc&) { munmap(p, n); return; } // no memory: reported
        catch (std::exception& e) { ok = false; err = e.what(); }
        size_t got = 0;
        if (ok) { auto& c = io.get_captures().at("1").at({0, false}); got = c.data ? c.data->size() : 0; }
        munmap(p, n);
        if (!ok || got != n) r.fail("inline:large", "capture of " + std::to_string(n) + " bytes stored " + std::to_string(got) + " bytes " + err);
    });
}
int main(int c, char** v) {
    vc::Options o; o.hang_s = 60;
    o.coverage_rule = "a case is a family of byte strings (all of length 0-2, length 3 (quick: 55%, thorough: all), length 4-6 over 7 boundary bytes, patterns up to length 1030) or an inline capture with one dimension vector over {0,1,2,3,8}^<=4; distinct by the family";
    o.extra_counters = {{8, "byte_strings"}};
    return vc::main_impl(c, v, explore, o);
}
