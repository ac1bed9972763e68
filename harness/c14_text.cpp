// C14: text and set helpers against their definitions, on every short string over an alphabet.
#include <cctype>
#include <cstdint>
#include <iostream>
#include <algorithm>
#include "vc.h"
#include "sdfg/helpers/helpers.h"
using namespace sdfg;
typedef unsigned __int128 u128;
static std::string q(const std::string& s) { return vc::jstr(s); }

// ---- numbers
static void number(vc::Run& r, const std::string& s0) {
    std::string s = s0;
    bool want = !s.empty();
    for (unsigned char c : s) if (c < '0' || c > '9') want = false;
    if (helpers::is_number(s) != want) r.fail("is_number:" + q(s0), "is_number(" + q(s0) + ") is " + (want ? "false" : "true"));
    if (s != s0) r.fail("is_number:arg", "argument changed");
    r.count(8);
}
static void parse(vc::Run& r, const std::string& s0) {
    // reference: true/false, else white space, sign, digits; what follows the number does not matter
    bool ok = false, neg = false, big = false; u128 mag = 0;
    if (s0 == "true" || s0 == "false") { ok = true; mag = s0 == "true"; }
    else {
        size_t i = 0;
        while (i < s0.size() && strchr(" \t\n\v\f\r", s0[i]) && s0[i]) i++;
        if (i < s0.size() && (s0[i] == '+' || s0[i] == '-')) neg = s0[i++] == '-';
        for (; i < s0.size() && s0[i] >= '0' && s0[i] <= '9'; i++) { ok = true; if (!big) mag = mag * 10 + (s0[i] - '0'); if (mag >> 70) big = true; }
    }
    std::string s = s0;
    for (int u = 0; u < 2; u++) {
        bool fits = ok && !big && (u ? mag >> 64 == 0 : mag <= ((u128) 1 << 63) - !neg);
        uint64_t want = neg ? 0 - (uint64_t) mag : (uint64_t) mag, got = 0; bool threw = false;
        try { got = u ? helpers::parse_number_unsigned(s) : (uint64_t) helpers::parse_number_signed(s); } catch (std::exception&) { threw = true; }
        const char* f = u ? "parse_number_unsigned" : "parse_number_signed";
        if (threw && fits) r.fail(std::string(f) + ":rejects:" + q(s0), std::string(f) + " rejects " + q(s0));
        if (!threw && !fits) r.fail(std::string(f) + ":accepts:" + q(s0), std::string(f) + " returns " + std::to_string(got) + " for " + q(s0) + ", which is no number that fits");
        if (!threw && got != want) r.fail(std::string(f) + ":value:" + q(s0), std::string(f) + "(" + q(s0) + ") = " + std::to_string((int64_t) got) + ", expected " + std::to_string((int64_t) want));
        if (s != s0) r.fail("parse:arg", "argument changed");
        r.outcome(vc::mix(threw, want)); r.count(8);
    }
}
template<class F> static void strings(const std::string& al, int maxlen, F f) { // all strings up to maxlen
    for (int len = 0; len <= maxlen; len++) {
        std::vector<int> d(len, 0); std::string s(len, al[0]);
        for (;;) {
            f(s);
            int i = len - 1;
            while (i >= 0 && d[i] + 1 == (int) al.size()) { d[i] = 0; s[i] = al[0]; i--; }
            if (i < 0) break;
            s[i] = al[++d[i]];
        }
    }
}
// ---- lists
static std::string show(const std::vector<std::string>& v) { std::string o = "["; for (auto& x : v) o += q(x) + " "; return o + "]"; }
static void split(vc::Run& r, const std::string& s, const std::string& del) {
    std::vector<std::string> want; // leftmost occurrences, not overlapping
    std::string cur;
    for (size_t i = 0; i < s.size();) {
        bool at = i + del.size() <= s.size();
        for (size_t k = 0; at && k < del.size(); k++) at = s[i + k] == del[k];
        if (at) { want.push_back(cur); cur.clear(); i += del.size(); } else cur += s[i++];
    }
    want.push_back(cur);
    std::string s2 = s, d2 = del; std::vector<std::string> got;
    helpers::split(got, s2, d2);
    if (got != want) r.fail("split:" + q(s) + ":" + q(del), "split of " + q(s) + " at " + q(del) + " gives " + show(got) + ", expected " + show(want));
    if (s2 != s || d2 != del) r.fail("split:arg", "argument changed");
    if (del == " ") { got.clear(); helpers::split(got, s2); if (got != want) r.fail("split default:" + q(s), "split of " + q(s) + " at the default separator gives " + show(got)); }
    got = want; std::string back = helpers::join(got, d2);
    if (back != s) r.fail("join:" + q(s) + ":" + q(del), "joining the parts of " + q(s) + " at " + q(del) + " gives " + q(back));
    std::vector<std::string> acc{"kept"}; helpers::split(acc, s, del);
    if (acc.size() != want.size() + 1 || acc[0] != "kept" || !std::equal(want.begin(), want.end(), acc.begin() + 1)) r.fail("split:append:" + q(s), "parts are not appended to the caller's list: " + show(acc));
    r.count(8); r.outcome(want.size() + 100);
}
template<class T> static void join(vc::Run& r, const std::vector<T>& v0, std::string delim) {
    std::string want; bool first = true;
    for (auto& x : v0) { if (!first) want += delim; first = false; if constexpr (std::is_same_v<T, std::string>) want += x; else want += std::to_string(x); }
    auto v = v0; std::string d = delim;
    std::string got = helpers::join(v, d);
    if (got != want) r.fail("join:value", "join gives " + q(got) + ", expected " + q(want));
    if (v != v0 || d != delim) r.fail("join:arg", "join changed its arguments (" + q(want) + ")");
    r.count(8); r.outcome(vc::hash_str(want));
}
template<class T> static void sets(vc::Run& r, int a, int b, int order, T (*el)(int)) {
    std::unordered_set<T> A, B;
    if (order & 4) { A.rehash(64); }
    if (order & 8) { B.rehash(64); }
    for (int i = 0; i < 6; i++) { int k = order & 1 ? 5 - i : i; if (a >> k & 1) A.insert(el(k)); }
    for (int i = 0; i < 6; i++) { int k = order & 2 ? 5 - i : i; if (b >> k & 1) B.insert(el(k)); }
    auto A0 = A, B0 = B;
    bool want = a & b;
    if (helpers::sets_intersect(A, B) != want) r.fail("sets:" + std::to_string(a) + "," + std::to_string(b), "subsets " + std::to_string(a) + " and " + std::to_string(b) + " of six elements are reported " + (want ? "disjoint" : "intersecting"));
    if (A != A0 || B != B0) r.fail("sets:arg", "argument changed");
    r.count(8);
}
static void explore(vc::Run& r) {
    for (int a = -1; a < 256; a++) r.kase([=] { return "is_number and parsing, strings of up to 2 bytes starting with byte " + std::to_string(a); }, [&] {
        if (a < 0) { number(r, ""); parse(r, ""); return; }
        number(r, std::string(1, (char) a)); parse(r, std::string(1, (char) a));
        for (int b = 0; b < 256; b++) { std::string s{(char) a, (char) b}; number(r, s); parse(r, s); if (a >= '0' && a <= '9') for (int c = 0; c < 256; c += 3) number(r, s + (char) c); }
        r.nontrivial(a); });
    const std::string al = std::string("0179+-. \tax\0e", 13);
    int L = r.thorough ? 6 : 5;
    for (char c1 : al) for (char c2 : al) r.kase([=] { return "strings of length 2.." + std::to_string(L) + " over the number alphabet, prefix " + q({c1, c2}); }, [&] {
        std::string p{c1, c2};
        strings(al, L - 2, [&](const std::string& t) { number(r, p + t); parse(r, p + t); r.nontrivial(vc::hash_str(p + t)); r.alive(); }); });
    // boundaries
    std::vector<std::string> pre{"", " ", "+", "-", "\n", "00", "-000", "+-", "- ", "000000000000000000000000000000"}, suf{"", " ", "a", ".5", "L", "u", "0", "\n7"};
    for (int bits = 0; bits <= 68; bits++) r.kase([=] { return "numbers around 2^" + std::to_string(bits); }, [&] {
        for (int d = -3; d <= 3; d++) {
            __int128 n = ((__int128) 1 << bits) + d; if (n < 0) continue;
            std::string t; for (u128 m = n; m || t.empty(); m /= 10) t.insert(t.begin(), '0' + (int) (m % 10));
            for (auto& a : pre) for (auto& b : suf) { parse(r, a + t + b); number(r, a + t + b); }
        }
        r.nontrivial(5000 + bits); });
    for (int digits = 17; digits <= 30; digits++) r.kase([=] { return "numbers of " + std::to_string(digits) + " digits"; }, [&] {
        for (char f = '1'; f <= '9'; f++) for (char g : {'0', '9', '2'}) { std::string t(digits, g); t[0] = f; for (auto& a : pre) { parse(r, a + t); number(r, a + t); } } r.nontrivial(6000 + digits); });
    std::vector<std::string> words{"true", "false", "True", "FALSE", "t", " ", "0", "1", "-", "\n", "null", "inf"};
    for (auto& w1 : words) r.kase([=] { return "words starting with " + q(w1); }, [&] {
        parse(r, w1); number(r, w1);
        for (auto& w2 : words) { parse(r, w1 + w2); number(r, w1 + w2); for (auto& w3 : words) parse(r, w1 + w2 + w3); r.nontrivial(vc::hash_str(w1 + w2)); } });
    // suffix test
    std::vector<std::string> ab; strings(std::string("ab\0", 3), r.thorough ? 6 : 5, [&](const std::string& s) { ab.push_back(s); });
    for (auto& v : ab) r.kase([=] { return "endswith of " + q(v); }, [&] {
        for (auto& e : ab) {
            bool want = e.size() <= v.size() && v.substr(v.size() - e.size()) == e;
            std::string a = v, b = e;
            if (helpers::endswith(a, b) != want) r.fail("endswith:" + q(v) + ":" + q(e), "endswith(" + q(v) + ", " + q(e) + ") is " + (want ? "false" : "true"));
            if (a != v || b != e) r.fail("endswith:arg", "argument changed");
            r.count(8);
        }
        r.nontrivial(vc::hash_str(v) | 1); });
    // split, join
    std::vector<std::string> dels{" ", ",", ", ", "a", "aa", "aba", "a,", ",,", std::string("\0", 1), std::string("\0a", 2)};
    const std::string sal = std::string("a ,\0b", 5);
    for (auto& del : dels) for (char c : sal) r.kase([=] { return "split at " + q(del) + " of strings starting with " + q({c}); }, [&] {
        split(r, "", del);
        strings(sal, r.thorough ? 7 : 6, [&](const std::string& t) { split(r, c + t, del); r.nontrivial(vc::hash_str(c + t, vc::hash_str(del))); r.alive(); }); });
    for (int len : {100, 255, 256, 257, 65535, 65536, 70000, 1000000}) r.kase([=] { return "split of a text of " + std::to_string(len) + " bytes"; }, [&] {
        std::string s(len, 'x'); split(r, s, " "); s[len - 1] = ' '; split(r, s, " "); s[len / 2] = ' '; s[0] = ' '; split(r, s, " "); split(r, std::string(len, ' '), " "); split(r, std::string(len, ' '), "  "); r.nontrivial(7000 + len); });
    std::vector<std::string> els{"", "x", ",", "a b", std::string("\0z", 2)};
    for (auto& d : std::vector<std::string>{"", ",", ", ", " and ", std::string("\0", 1)}) for (int n = 0; n <= (r.thorough ? 6 : 5); n++) r.kase([=] { return "join of " + std::to_string(n) + " elements with " + q(d); }, [&] {
        int tot = 1; for (int i = 0; i < n; i++) tot *= els.size();
        for (int m = 0; m < tot; m++) { std::vector<std::string> v; int x = m; for (int i = 0; i < n; i++) { v.push_back(els[x % els.size()]); x /= els.size(); } join(r, v, d); r.nontrivial(vc::mix(m, vc::hash_str(d)) + n); }
        tot = 1; for (int i = 0; i < n; i++) tot *= 3;
        for (int m = 0; m < tot; m++) { std::vector<long long> v; int x = m; for (int i = 0; i < n; i++) { v.push_back((long long[]){0, -12, INT64_MAX}[x % 3]); x /= 3; } join(r, v, d); } });
    r.kase([] { return std::string("join with a literal separator and of long lists"); }, [&] {
        std::vector<std::string> v{"a", "b"}; if (helpers::join(v, ", ") != "a, b") r.fail("join:literal", "join with a literal separator gives " + helpers::join(v, ", "));
        for (int n : {10, 1000, 100000}) { std::vector<int> w; for (int i = 0; i < n; i++) w.push_back(i); join(r, w, ", "); } r.nontrivial(8000); });
    // sets
    for (int a = 0; a < 64; a++) r.kase([=] { return "sets_intersect with subset " + std::to_string(a) + " of six elements"; }, [&] {
        for (int b = 0; b < 64; b++) for (int o = 0; o < 16; o++) {
            sets<int>(r, a, b, o, [](int k) { return (int[]){0, 1, 16, 32, -1, 1 << 20}[k]; });
            sets<std::string>(r, a, b, o, [](int k) { return (std::string[]){"", "a", "b", "aa", "A", "zz"}[k]; });
        }
        r.nontrivial(9000 + a); });
}
int main(int argc, char** argv) { vc::Options o; o.coverage_rule = "distinct argument tuples"; o.extra_counters = {{8, "helper calls checked"}}; return vc::main_impl(argc, argv, explore, o); }
