// C01: index write -> reload round trip, over all small capture sets.
#include "vc.h"
#include "daisy_rtl/arg_capture_io.h"
#include <filesystem>
using namespace arg_capture;
namespace fs = std::filesystem;
using Bytes = std::vector<uint8_t>;
struct Cap { std::string region; int arg; bool after; int type; std::vector<size_t> dims; bool file; int pat; };
static Bytes data_of(const Cap& c) {
    size_t n = 1; for (auto d : c.dims) n *= d;
    Bytes b(n);
    for (size_t i = 0; i < n; i++) {
        switch (c.pat) { case 0: b[i] = i; break; case 1: b[i] = 0; break; case 2: b[i] = 0xff; break; case 3: b[i] = 255 - 7 * i; break; default: b[i] = c.pat * 37 + i * 11 + c.arg * 5 + c.after; }
    }
    return b;
}
static std::string show(const Cap& c) {
    std::string s = "r" + c.region + " arg" + std::to_string(c.arg) + (c.after ? " after" : " before") + " t" + std::to_string(c.type) + " [";
    for (auto d : c.dims) s += std::to_string(d) + " ";
    return s + "] " + (c.file ? "file" : "inline") + " p" + std::to_string(c.pat);
}
struct Plan { std::string name; std::vector<Cap> caps; std::map<std::string, int> inv; int mode; };
static std::string show(const Plan& p) { std::string s = p.name + " mode" + std::to_string(p.mode) + ":"; for (auto& [k, v] : p.inv) s += " inv(" + k + ")=" + std::to_string(v); for (auto& c : p.caps) s += "; " + show(c); return s; }
static Bytes slurp(const fs::path& p) { std::ifstream f(p, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(f)), {}); }

static void run(vc::Run& r, const Plan& p) {
    fs::path dir = fs::path(r.scratch) / "d", moved = fs::path(r.scratch) / "moved";
    fs::remove_all(dir); fs::remove_all(moved);
    std::map<std::string, std::map<std::pair<int, bool>, Cap>> model;
    {
        ArgCaptureIO io(p.name.c_str());
        if (io.get_name() != p.name) r.fail("name", "get_name differs");
        for (auto& [reg, n] : p.inv) for (int i = 0; i <= n; i++) io.invocation(reg);
        if (p.mode & 2) { // earlier captures that are cleared
            uint32_t x = 5; io.create_and_capture_inline(9, true, 4, {4}, &x, p.caps[0].region); io.clear();
        }
        int k = 0;
        for (auto& c : p.caps) {
            auto b = data_of(c);
            bool ok;
            if (c.file) { fs::path f = dir / (p.mode & 1 ? "sub" : "") / ("f" + std::to_string(k) + ".bin"); if (p.mode & 1) f = dir / ("f" + std::to_string(k) + ".bin"); ok = io.create_and_capture_to_file(c.arg, c.after, c.type, c.dims, f, b.data(), c.region); }
            else ok = io.create_and_capture_inline(c.arg, c.after, c.type, c.dims, b.data(), c.region);
            if (!ok) r.fail("refused", "capture reported failure: " + show(c));
            std::fill(b.begin(), b.end(), 0xAA); // the caller may overwrite its memory afterwards
            model[c.region].insert_or_assign({c.arg, c.after}, c);
            k++;
            r.count(vc::Run::TRANS);
        }
        io.write_index(dir);
        if (p.mode & 1) io.write_index(dir); // writing again changes nothing
    }
    fs::rename(dir, moved); // resolved relative to the index's directory
    std::map<std::string, fs::path> idx;
    int nidx = 0;
    for (auto& e : fs::recursive_directory_iterator(moved)) {
        auto fn = e.path().filename().string();
        if (fn.size() > 11 && fn.substr(fn.size() - 11) == ".index.json") {
            nidx++;
            auto io = ArgCaptureIO::from_index(e.path());
            if (io->get_name() != p.name) r.fail("name", "loaded name is " + io->get_name());
            auto& caps = io->get_captures();
            if (caps.size() != 1) r.fail("regions", "index holds " + std::to_string(caps.size()) + " regions");
            auto& [reg, m] = *caps.begin();
            if (!model.count(reg) || idx.count(reg)) r.fail("region", "unexpected region " + reg);
            idx[reg] = e.path();
            if ((int) io->get_current_invocation(reg) != p.inv.at(reg)) r.fail("invocation", "region " + reg + ": loaded invocation " + std::to_string(io->get_current_invocation(reg)));
            auto& want = model.at(reg);
            if (m.size() != want.size()) r.fail("count", "region " + reg + " has " + std::to_string(m.size()) + " captures, expected " + std::to_string(want.size()));
            for (auto& [key, c] : want) {
                auto it = m.find({key.first, key.second});
                if (it == m.end()) r.fail("missing", show(c));
                auto& g = it->second;
                if (g.arg_idx != c.arg || g.after != c.after) r.fail("identity", show(c));
                if (g.primitive_type != c.type) r.fail("type", show(c) + " loaded as type " + std::to_string(g.primitive_type));
                if (g.dims != c.dims) r.fail("dims", show(c));
                auto b = data_of(c);
                if (c.file) {
                    if (g.data || !g.ext_file) r.fail("storage", show(c) + " lost its file");
                    if (slurp(*g.ext_file) != b) r.fail("file_bytes", show(c) + " file " + g.ext_file->string());
                    Bytes rd(b.size() + 1, 0x55);
                    ArgCaptureIO::read_data_from_raw_file(*g.ext_file, rd.data(), b.size());
                    if (rd.back() != 0x55) r.fail("read_overrun", show(c));
                    rd.pop_back();
                    if (rd != b) r.fail("read_bytes", show(c));
                } else {
                    if (!g.data || g.ext_file) r.fail("storage", show(c) + " lost its inline data");
                    if (*g.data != b) r.fail("inline_bytes", show(c));
                }
            }
            uint64_t h = vc::hash_str(reg); for (auto& [k2, c] : want) h = vc::mix(h, vc::hash_str(show(c))); r.outcome(h);
        }
    }
    if (nidx != (int) model.size()) r.fail("indices", std::to_string(nidx) + " index files for " + std::to_string(model.size()) + " regions");
    r.count(vc::Run::STATES, model.size());
    r.count(vc::Run::TRACES);
    fs::remove_all(moved);
}
static void explore(vc::Run& r) {
    auto go = [&](const Plan& p) { r.kase([p] { return show(p); }, [&] { r.nontrivial(vc::hash_str(show(p))); run(r, p); }); };
    // A: single captures, full product
    std::vector<std::vector<size_t>> dims{{1}, {2}, {3}, {8}, {32}, {33}, {4, 1}, {4, 3}, {1, 0}, {8, 2, 3}, {2, 3, 2, 2}, {1, 1, 1, 1, 1}, {16, 100}};
    for (int t = 0; t < 19; t++) for (auto& d : dims) for (int arg : {0, 1, 7, 2147483647}) for (int af = 0; af < 2; af++) for (int f = 0; f < 2; f++)
        for (int pat = 0; pat < 4; pat++) {
            if (!r.thorough && t != 4 && t != 0 && t != 18 && (pat != t % 4 || arg > 1)) continue;
            go({"kern", {{"7", arg, (bool) af, t, d, (bool) f, pat}}, {{"7", t % 3}}, 0});
        }
    // B: sequences over a colliding alphabet (two regions, two arguments, both directions, both storages, two shapes)
    std::vector<Cap> al;
    for (int reg = 0; reg < 2; reg++) for (int arg = 0; arg < 2; arg++) for (int af = 0; af < 2; af++) for (int f = 0; f < 2; f++) for (int d = 0; d < 2; d++)
        al.push_back({reg ? "11" : "1", arg, (bool) af, d ? 4 : 15, d ? std::vector<size_t>{4, 2} : std::vector<size_t>{8}, (bool) f, 5 + d});
    int depth = r.thorough ? 4 : 3;
    std::vector<int> seq;
    std::function<void()> rec = [&] {
        if (!seq.empty()) {
            Plan p{"k_inv0", {}, {{"1", 0}, {"11", 2}}, (int) (seq.size() + seq[0]) & 3};
            int i = 0;
            for (int s : seq) { auto c = al[s]; c.pat += 3 * i++; p.caps.push_back(c); }
            go(p);
        }
        if ((int) seq.size() < depth) for (size_t i = 0; i < al.size(); i++) { seq.push_back(i); rec(); seq.pop_back(); }
    };
    rec();
    // C: names and region ids
    for (std::string n : {"a", "target-1", "x.y", "a b", "_Z3fooPd", "q\"uote", "\xc3\xa9"}) for (std::string reg : {"0", "1", "123456789012", "sdfg_a_1", "node", ""})
        for (int inv : {0, 1, 12}) go({n, {{reg, 0, false, 4, {4}, true, 6}, {reg, 1, true, 15, {8, 2}, false, 7}}, {{reg, inv}}, 1});
}
int main(int c, char** v) {
    vc::Options o;
    o.coverage_rule = "a case is a sequence of captures (single captures: all 19 types x 13 shapes x arguments x directions x storages x byte patterns; sequences up to the depth bound over a 32-letter colliding alphabet; names and region ids), written, moved to another directory, and loaded; distinct by the whole sequence; states: region captures compared";
    return vc::main_impl(c, v, explore, o);
}
