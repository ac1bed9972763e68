"""What each property's check is made of."""
import glob, os
import build
from build import VERIF, REPO, BUILD

H = os.path.join(VERIF, "harness")
BASE = ["-std=c++20", "-O1", "-fno-omit-frame-pointer", "-w", "-I" + os.path.join(VERIF, "lib")]
ASAN = ["-fsanitize=address", "-gline-tables-only"]

def build_harness(h):
    d = os.path.join(BUILD, "obj", h["name"])
    srcs = h["srcs"]() if callable(h["srcs"]) else h["srcs"]
    if h.get("core"):
        import core
        lib = core.lib()
        exe = os.path.join(BUILD, "bin", h["name"])
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        objs = build.compile_all(srcs, core.flags() + ["-I" + os.path.join(VERIF, "lib"), "-I" + H] + h.get("flags", []), d)
        return build.link(objs + lib, exe, core.LD + h.get("ldflags", []))
    flags = h.get("base", BASE) + h.get("flags", [])
    objs = build.compile_all(srcs, flags, d)
    for so in h.get("shared", []):
        so_objs = build.compile_all(so["srcs"]() if callable(so["srcs"]) else so["srcs"], so.get("base", BASE) + ["-fPIC"] + so.get("flags", []), d)
        os.makedirs(os.path.join(BUILD, "lib"), exist_ok=True)
        build.link(so_objs, so_path(so), ["-shared"] + so.get("ldflags", []))
    exe = os.path.join(BUILD, "bin", h["name"])
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    return build.link(objs, exe, [f for f in flags if f.startswith("-fsanitize")] + h.get("ldflags", []))

def so_path(so): return os.path.join(BUILD, "lib", "lib" + so["name"] + ".so")
def so_env(h): return {"VC_SO_" + so["name"].upper(): so_path(so) for so in h.get("shared", [])}

def repo(*p): return os.path.join(REPO, *p)
def rglob(*p): return sorted(glob.glob(repo(*p), recursive=True))

def graph_h(name):
    return dict(name=name, srcs=lambda: [os.path.join(H, name + ".cpp")] + rglob("sdfg/src/graph/*.cpp"),
                flags=ASAN + ["-I" + repo("sdfg/include")])

def core_h(name, extra=(), **kw):
    """A harness linked against docc's core (built once, shared by all of these)."""
    import core
    return dict(name=name, core=True, srcs=[os.path.join(H, name + ".cpp")] + list(extra), base=None, **kw)

CHECKS = {}
NOT_APPLICABLE = {}
def check(pid, level, harnesses, technique, note, assumptions=()):
    CHECKS[pid] = dict(level=level, harnesses=harnesses, technique=technique, note=note, assumptions=list(assumptions))

check("C10", "exploration", [graph_h("graph_dom")], "exhaustive enumeration of small graphs against a definitional oracle", "")
check("C11", "exploration", [graph_h("graph_order")], "exhaustive enumeration of small graphs against a definitional oracle", "")
check("C12", "exploration", [graph_h("graph_comp")], "exhaustive enumeration of small graphs against a definitional oracle", "")
check("C13", "exploration", [graph_h("graph_paths")], "exhaustive enumeration of small graphs against a definitional oracle", "")

def capio(): return rglob("arg-capture-io/src/*.cpp")
CAPI = ["-I" + repo("arg-capture-io/include"), "-I" + repo("rtl/include"), "-DNDEBUG"]
def cap_h(name, extra=(), flags=ASAN, **kw):
    return dict(name=name, srcs=lambda: [os.path.join(H, name + ".cpp")] + capio() + [e for x in extra for e in rglob(x)], flags=flags + CAPI, **kw)
check("C01", "model_checking", [cap_h("c01_index")], "exhaustive exploration of capture sequences against a map model", "")
check("C04", "exploration", [cap_h("c04_base64", flags=ASAN + ["-O2"])], "exhaustive enumeration of short byte strings against RFC 4648", "")
check("C02", "model_checking", [cap_h("c02_strategy", ["rtl/src/capture.cpp"])], "exhaustive exploration of call histories against a counter model", "")
check("C03", "model_checking", [cap_h("c03_files", ["rtl/src/capture.cpp"])], "exhaustive exploration of call histories against a directory model", "")
check("C05", "fault_enumeration", [cap_h("c05_faults", ["rtl/src/capture.cpp"], flags=[], ldflags=["-ldl"])], "exhaustive fault injection at every system call", "")

def instr_h(name, extra_flags=(), **kw):
    return dict(name=name, srcs=[os.path.join(H, name + ".cpp")], flags=["-I" + repo("rtl/include")], ldflags=["-rdynamic", "-ldl"],
                shared=[dict(name="instr", srcs=[repo("rtl/src/instrumentation.cpp")], flags=["-I" + repo("rtl/include")] + list(extra_flags)),
                        dict(name="fakepapi", srcs=[os.path.join(H, "fakepapi.cpp")])], **kw)
check("C06", "model_checking", [instr_h("c06_trace")], "exhaustive exploration of call histories against a reference model", "")
check("C07", "model_checking", [instr_h("c07_aggregate")], "exhaustive exploration of call histories against exact statistics", "")
check("C08", "model_checking", [instr_h("c08_sessions")], "exhaustive exploration of registration histories against a counter-library protocol monitor", "")
check("C09", "model_checking", [dict(name="c09_threads", srcs=[os.path.join(H, "c09_threads.cpp")], flags=["-I" + repo("rtl/include")], ldflags=["-rdynamic", "-ldl", "-lpthread"],
      shared=[dict(name="instr_tsan", srcs=[repo("rtl/src/instrumentation.cpp")], flags=["-I" + repo("rtl/include"), "-fsanitize=thread"]), dict(name="fakepapi", srcs=[os.path.join(H, "fakepapi.cpp")])])],
      "stateless exploration of all interleavings of the implementation under a controlled scheduler", "")
check("C14", "exploration", [dict(name="c14_text", srcs=[os.path.join(H, "c14_text.cpp")], flags=ASAN + ["-I" + repo("sdfg/include")])],
      "exhaustive enumeration of argument strings, lists and sets against their definitions", "")
def c15_so(name, cxx, flags):
    return dict(name="c15_" + name, srcs=[os.path.join(H, "c15_calls_cxx.cpp" if cxx else "c15_calls.c")], base=["-std=c++20" if cxx else "-std=c11", "-w"],
                flags=["-I" + repo("rtl/include"), "-ffp-contract=off"] + flags)
UBTRAP = ["-O1", "-fsanitize=signed-integer-overflow,shift", "-fsanitize-trap=all"]
check("C15", "exploration", [dict(name="c15_arith", srcs=[os.path.join(H, "c15_arith.cpp")], flags=[], ldflags=["-ldl"],
      shared=[c15_so("c_o0", False, ["-O0"]), c15_so("c_o2", False, ["-O2"]), c15_so("cxx_o0", True, ["-O0"]), c15_so("cxx_o2", True, ["-O2"]),
              c15_so("c_ub", False, UBTRAP), c15_so("cxx_ub", True, UBTRAP)])],
      "exhaustive enumeration of arguments against exact values", "")
RPC = ["-I" + repo("rpc/include"), "-I" + repo("sdfg/include")]
check("C16", "model_checking", [dict(name="c16_config", srcs=lambda: [os.path.join(H, "c16_config.cpp"), repo("rpc/src/passes/rpc/rpc_context.cpp"), repo("rpc/src/passes/rpc/daisytuner_rpc_context.cpp")],
      flags=RPC, ldflags=["-ldl"])], "exhaustive exploration of environments and builder call sequences against a precedence model", "")
check("C17", "fault_enumeration", [dict(name="c17_http", srcs=lambda: [os.path.join(H, "c17_http.cpp"), repo("rpc/src/util/utils_curl.cpp")],
      flags=RPC, ldflags=["-lcurl", "-lpthread"])], "exhaustive exploration of server behaviours and query sequences", "")
CORE = ("The compiler core is compiled against shim/ (symbolic expressions) and the system's ISL library instead of SymEngine, which this sandbox lacks.",)
check("C20", "exploration", [core_h("c20_rewrite"), dict(core_h("c20_rewrite"), name="c20_rewrite_order", env={"VC_HASH_SALT": "7"})], "exhaustive enumeration of expressions and conditions and of all assignments in a window against exact evaluation", "", CORE)
check("C21", "exploration", [core_h("c21_bounds")], "exhaustive enumeration of assumptions and expressions and of all satisfying assignments in a window against exact values", "", CORE)
check("C22", "exploration", [core_h("c22_sets")], "exhaustive enumeration of pairs of index maps and assumptions and of all pairs of satisfying assignments in a window", "", CORE)
check("C23", "exploration", [core_h("c23_assume")], "exhaustive enumeration of programs and inputs, every derived assumption checked at every point reached against a reference interpreter", "", CORE)
check("C28", "exploration", [core_h("c28_dataflow_facts")], "exhaustive enumeration of programs and inputs; every access of the executed program compared with the reported definitions, dependences and dominance", "", CORE)
check("C32", "exploration", [core_h("c32_replay")], "exhaustive enumeration of programs and of sequences of transformations, each recorded, saved and replayed on copies of the program and compared with applying it directly", "", CORE)
check("C33", "exploration", [core_h("c33_optpasses")], "exhaustive enumeration of programs, passes and inputs against a reference interpreter", "", CORE)
check("C29", "exploration", [core_h("c29_structure")], "exhaustive enumeration of control-flow graphs and of branch sequences; the structured program executed and compared with a direct walk of the graph", "", CORE)
check("C31", "exploration", [core_h("c31_expand")], "exhaustive enumeration of library operations, shapes, layouts and places in a program; the expanded program executed and compared with the definition of the operation", "", CORE)
check("C24", "exploration", [core_h("c24_serial")], "exhaustive enumeration of programs; JSON and deep copies against a complete independent dump", "", CORE)
check("C30", "exploration", [core_h("c30_codegen")], "exhaustive enumeration of programs and inputs; compiled generated code against a reference interpreter and an independent operator oracle", "", CORE)
check("C26", "exploration", [core_h("c26_transforms")], "exhaustive enumeration of programs, transformation instances and inputs against a reference interpreter", "", CORE)
check("C27", "exploration", [core_h("c27_for2map")], "exhaustive enumeration of programs, inputs and iteration orders against a reference interpreter, with a conflict monitor", "", CORE)
check("C25", "exploration", [core_h("c25_passes")], "exhaustive enumeration of programs, passes and inputs against a reference interpreter", "", CORE)
