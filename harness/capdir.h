// Reads a capture directory independently of the library.
#pragma once
#include "vc.h"
#include <filesystem>
#include <nlohmann/json.hpp>
#include "daisy_rtl/daisy_rtl.h"
namespace fs = std::filesystem;
using Bytes = std::vector<uint8_t>;
inline Bytes slurp(const fs::path& p) { std::ifstream f(p, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(f)), {}); }
struct Entry { int type; std::vector<size_t> dims; Bytes data; std::string file; };
struct Index { fs::path path; std::map<std::pair<int, bool>, Entry> caps; bool dup = false; };
using IdxKey = std::tuple<std::string, std::string, int>; // target, element, invocation
inline Bytes unb64(const std::string& s) {
    static const std::string T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    Bytes o; uint32_t acc = 0; int n = 0;
    for (char c : s) { if (c == '=') break; auto k = T.find(c); if (k == std::string::npos) break; acc = acc << 6 | k; n += 6; if (n >= 8) { n -= 8; o.push_back(acc >> n & 255); } }
    return o;
}
// err is set to the first malformation found
inline std::map<IdxKey, Index> read_dir(const fs::path& dir, std::string& err, int& other_files) {
    std::map<IdxKey, Index> out;
    other_files = 0;
    if (!fs::exists(dir)) return out;
    for (auto& e : fs::recursive_directory_iterator(dir)) {
        if (!e.is_regular_file()) continue;
        auto fn = e.path().filename().string();
        if (fn.size() < 5 || fn.substr(fn.size() - 5) != ".json") { other_files++; continue; }
        nlohmann::json j;
        try {
            std::ifstream f(e.path()); f >> j;
            IdxKey k{j.at("target"), j.at("element_id"), j.at("invocation")};
            if (out.count(k)) err = "two indices for the same invocation: " + fn;
            auto& x = out[k]; x.path = e.path();
            for (auto& c : j.at("captures")) {
                Entry en{c.at("primitive_type"), c.at("dims").get<std::vector<size_t>>(), {}, ""};
                if (c.contains("data")) en.data = unb64(c.at("data"));
                else if (c.contains("ext_file")) { en.file = (e.path().parent_path() / c.at("ext_file").get<std::string>()).string(); if (!fs::exists(en.file)) err = "index " + fn + " names a missing file " + en.file; en.data = slurp(en.file); }
                else en.file = "(no data)";
                if (!x.caps.emplace(std::pair<int, bool>(c.at("arg_idx"), c.at("after")), en).second) err = "argument listed twice in " + fn;
            }
        } catch (std::exception& ex) { err = "malformed index " + fn + ": " + ex.what(); }
    }
    return out;
}
