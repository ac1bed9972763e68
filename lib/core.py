"""docc's core (sdfg/src, opt/src) as a static library, built from /repo's current tree against the stand-ins of shim/."""
import glob, os
import build
from build import REPO, BUILD, VERIF

SHIM = os.path.join(VERIF, "shim")
INC = ["-I" + SHIM] + ["-I" + os.path.join(REPO, d, "include") for d in ("sdfg", "opt", "rpc", "arg-capture-io", "rtl")]
FLAGS = ["-std=c++20", "-O1", "-g0", "-w"]
LD = ["-l:libisl.so.23", "-lgmp", "-lcurl", "-lpthread", "-ldl"]

def flags():
    deps = [f for f in glob.glob(SHIM + "/**/*.h", recursive=True)]
    base = FLAGS + ["-I" + SHIM]
    return FLAGS + INC + ["-include-pch", build.pch(os.path.join(SHIM, "core_pch.h"), base, deps)]

def srcs():
    r = []
    for d in ("sdfg/src", "opt/src", "arg-capture-io/src"):
        r += sorted(glob.glob(os.path.join(REPO, d, "**", "*.cpp"), recursive=True))
    return r + [os.path.join(SHIM, "mini.cpp")]

def lib():
    objs = build.compile_all(srcs(), flags(), os.path.join(BUILD, "obj", "core"))
    return objs

if __name__ == "__main__":
    import time
    t = time.time(); o = lib(); print(len(o), "objects", round(time.time() - t, 1), "s")
