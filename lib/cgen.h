// Generates C / C++ from programs, compiles it in batches and calls it.
#pragma once
#include <dlfcn.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <sdfg/codegen/code_generators/c_code_generator.h>
#include <sdfg/codegen/code_generators/cpp_code_generator.h>
#include "corekit.h"
extern char** environ;
namespace cg {
using namespace sdfg;
using PT = types::PrimitiveType;
enum Lang { C, CPP };
inline const char* name(Lang l) { return l == C ? "C" : "C++"; }
typedef void (*Fn)(void** args, void* ret);
inline std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline std::string& scratch() { static std::string d = "/tmp"; return d; }  // set by the harness
struct Text { std::string header, source, error; };
inline Text generate(StructuredSDFG& s, Lang l, const std::string& prefix = "") {
    Text t; auto& d = scratch();
    try {
        analysis::AnalysisManager am(s);
        auto ip = codegen::InstrumentationPlan::none(s); auto cp = codegen::ArgCapturePlan::none(s);
        auto lib = std::make_shared<codegen::CodeSnippetFactory>();
        std::unique_ptr<codegen::CodeGenerator> g;
        if (l == C) g = std::make_unique<codegen::CCodeGenerator>(s, am, *ip, *cp, lib, prefix); else g = std::make_unique<codegen::CPPCodeGenerator>(s, am, *ip, *cp, lib, prefix);
        if (!g->generate()) { t.error = "generate() fails"; return t; }
        if (!g->as_source(d + "/g.h", d + "/g.c")) { t.error = "as_source() fails"; return t; }
    } catch (std::exception& e) { t.error = std::string("throws ") + e.what(); return t; }
    t.header = slurp(d + "/g.h"); t.source = slurp(d + "/g.c");
    auto p = t.header.find("#pragma once\n"); if (p != std::string::npos) t.header.erase(p, 13);
    if (t.source.rfind("#include \"g.h\"\n", 0) == 0) t.source.erase(0, 15); else t.error = "the source does not include its header";
    return t;
}
inline const char* spelled(PT t) {
    switch (t) {
        case PT::Bool: return "bool"; case PT::Int8: return "int8_t"; case PT::Int16: return "int16_t"; case PT::Int32: return "int32_t"; case PT::Int64: return "int64_t";
        case PT::UInt8: return "uint8_t"; case PT::UInt16: return "uint16_t"; case PT::UInt32: return "uint32_t"; case PT::UInt64: return "uint64_t"; case PT::Float: return "float"; case PT::Double: return "double";
        default: return "?";
    }
}
inline std::string wrapper(const StructuredSDFG& s, const std::string& id, Lang l, const std::string& prefix = "") {
    std::string fn = prefix + s.name(), call, sep, ps;
    size_t i = 0;
    for (auto& n : s.arguments()) {
        auto& t = s.type(n); std::string a = "a[" + std::to_string(i++) + "]";
        call += sep; ps += sep; sep = ", ";
        if (t.type_id() == types::TypeID::Scalar) call += std::string("*(") + spelled(t.primitive_type()) + "*) " + a, ps += spelled(t.primitive_type());
        else if (t.type_id() == types::TypeID::Structure) ps += static_cast<const types::Structure&>(t).name(), call += "*(" + static_cast<const types::Structure&>(t).name() + "*) " + a;
        else call += "(void*) " + a, ps += "void*";
    }
    auto& rt = s.return_type();
    std::string rs = rt.type_id() == types::TypeID::Scalar ? rt.primitive_type() == PT::Void ? "void" : spelled(rt.primitive_type()) : "void*";
    // in C++ a pointer to void does not become another one by itself
    call = (l == C ? fn : "reinterpret_cast<" + rs + " (*)(" + ps + ")>(&" + fn + ")") + "(" + call + ")";
    if (rt.type_id() == types::TypeID::Scalar && rt.primitive_type() != PT::Void) call = std::string("*(") + spelled(rt.primitive_type()) + "*) r = " + call;
    else if (rt.type_id() == types::TypeID::Pointer) call = "*(const void**) r = " + call;
    return std::string(l == C ? "" : "extern \"C\" ") + "void " + id + "(void** a, void* r) { " + call + "; }\n";
}
inline std::string prelude(Lang l) {
    return l == C ? "void* pre_malloc(unsigned long); void pre_free(void*);\n" : "extern \"C\" void* pre_malloc(unsigned long); extern \"C\" void pre_free(void*);\n";
}
inline int sh(const std::vector<std::string>& cmd, const std::string& log) {
    std::vector<char*> a; for (auto& x : cmd) a.push_back(const_cast<char*>(x.c_str())); a.push_back(nullptr);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_adddup2(&fa, 1, 2);
    pid_t p; int st = -1;
    if (posix_spawnp(&p, a[0], &fa, nullptr, a.data(), environ) == 0) while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    posix_spawn_file_actions_destroy(&fa);
    return st;
}
inline std::string compile(const std::string& text, Lang l, const std::string& so, bool omp = false) {
    std::string src = so + (l == C ? ".c" : ".cpp"); { std::ofstream f(src); f << text; }
    std::string repo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo", verif = getenv("VC_VERIF") ? getenv("VC_VERIF") : "/verif";
    std::vector<std::string> cmd;
    if (omp) cmd = {l == C ? "gcc" : "g++", "-fopenmp"}; else cmd = {l == C ? "clang" : "clang++", "-fno-strict-return"};
    for (auto x : {"-w", "-O0", "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off", "-fPIC", "-shared", "-Wl,-Bsymbolic"}) cmd.push_back(x);
    if (l == CPP) cmd.push_back("-std=c++17");
    cmd.insert(cmd.end(), {"-I" + verif + "/lib/cgstub", "-I" + repo + "/rtl/include", src, "-lm", "-o", so});
    if (sh(cmd, so + ".log") == 0) { if (!getenv("CG_KEEP")) { unlink(src.c_str()); unlink((so + ".log").c_str()); } return ""; }
    std::ifstream f(so + ".log"); std::string line, err = "?";
    while (std::getline(f, line)) if (line.find("error:") != std::string::npos) { err = line.substr(line.find("error:")); break; } else if (line.find("undefined") != std::string::npos) { err = line.substr(line.find("undefined")); break; }
    if (!getenv("CG_KEEP")) { unlink(src.c_str()); unlink((so + ".log").c_str()); }
    return err;
}
// One piece of a batch: a program under a name of its own.
inline std::string piece(StructuredSDFG& s, Lang l, const std::string& id, std::string& error, const std::string& prefix = "", std::string* shown = nullptr) {
    auto t = generate(s, l, prefix); if (!t.error.empty()) { error = t.error; return ""; }
    if (shown) *shown = t.source;
    // the function gets the name id_f; externals get their definition from the wrapper's side
    std::string r = t.header + "\n#define " + prefix + s.name() + " " + id + "_f\n" + t.source + wrapper(s, id, l, prefix) + "#undef " + prefix + s.name() + "\n";
    return r;
}
struct Unit { Fn f = nullptr; void* lib = nullptr; std::string error; };
// Units come in groups; the first one asked for compiles the whole group.
struct Batch {
    struct Item { size_t i; std::function<std::unique_ptr<StructuredSDFG>()> make; std::string prefix; };
    std::string tail[2]; bool omp = false;
    std::map<std::string, Unit> units;
    static std::string key(size_t i, Lang l) { return std::string("w") + (l == C ? "c" : "p") + std::to_string(i); }
    void build(const std::vector<Item>& items, Lang l) {
        std::string all = prelude(l); std::vector<size_t> in;
        for (auto& [i, make, prefix] : items) {
            std::string err, p; try { auto s = make(); p = piece(*s, l, key(i, l), err, prefix); } catch (std::exception& e) { err = std::string("throws ") + e.what(); }
            if (!err.empty()) { units[key(i, l)].error = err; continue; }
            in.push_back(i); all += p;
        }
        if (in.empty()) return;
        all += tail[l];
        std::string so = scratch() + "/" + key(items[0].i, l) + "." + std::to_string(items.size()) + ".so";
        auto err = compile(all, l, so, omp);
        if (err.empty()) {
            void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) err = dlerror(); 
            else for (auto i : in) { auto& u = units[key(i, l)]; u.lib = h; u.f = (Fn)dlsym(h, key(i, l).c_str()); if (!u.f) u.error = "no function"; }
            unlink(so.c_str());
        }
        if (err.empty()) return;
        if (items.size() == 1) { units[key(items[0].i, l)].error = "does not compile: " + err; return; }
        size_t h = items.size() / 2; build({items.begin(), items.begin() + h}, l); build({items.begin() + h, items.end()}, l);
    }
};
}  // namespace cg
