"""Builds harnesses from /repo's current tree, through a content-addressed compiler cache."""
import concurrent.futures as cf, hashlib, os, shlex, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = os.environ.get("VERIF_CXX", "clang++-19")
CC = os.environ.get("VERIF_CC", "clang-19")

class BuildError(Exception):
    pass

def env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="8G", CCACHE_COMPILERCHECK="content",
             CCACHE_SLOPPINESS="time_macros,include_file_mtime,include_file_ctime,pch_defines", CCACHE_NOHASHDIR="1",
             CCACHE_COMPRESS="1", CCACHE_DISABLE="0")
    e.pop("CCACHE_DISABLE")
    return e

def have_ccache():
    from shutil import which
    return which("ccache") is not None

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def compile_one(args):
    src, obj, flags = args
    comp = CC if src.endswith(".c") else CXX
    cmd = (["ccache"] if have_ccache() else []) + [comp] + flags + ["-c", src, "-o", obj]
    r = sh(cmd, env=env())
    return r.returncode, src, r.stdout

def compile_all(srcs, flags, objdir, jobs=8):
    """srcs: paths or (path, extra flags).  Returns object paths; raises BuildError."""
    os.makedirs(objdir, exist_ok=True)
    work, objs = [], []
    for s in srcs:
        extra = []
        if isinstance(s, tuple): s, extra = s
        fl = list(flags) + list(extra)
        if s.endswith(".c"): fl = [f for f in fl if not f.startswith("-std=c++")]
        h = hashlib.sha1((s + "\0" + "\0".join(fl)).encode()).hexdigest()[:12]
        o = os.path.join(objdir, os.path.basename(s) + "." + h + ".o")
        work.append((s, o, fl)); objs.append(o)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for rc, src, out in ex.map(compile_one, work):
            if rc != 0:
                raise BuildError(f"compiling {src} failed:\n{out[-6000:]}")
    return objs

def link(objs, out, flags):
    r = sh([CXX, "-fuse-ld=lld"] + objs + ["-o", out] + flags)
    if r.returncode: raise BuildError(f"linking {out} failed:\n{r.stdout[-6000:]}")
    return out

def archive(objs, out):
    if os.path.exists(out): os.remove(out)
    r = sh(["ar", "rcsT", out] + objs)
    if r.returncode: raise BuildError(r.stdout)
    return out

def pch(header, flags, deps):
    """Precompiles a header of things outside /repo; keyed by the content of what it takes from /verif."""
    h = hashlib.sha1("\0".join(flags).encode())
    for f in [header] + sorted(deps): h.update(open(f, "rb").read())
    out = os.path.join(BUILD, "pch", os.path.basename(header) + "." + h.hexdigest()[:16] + ".pch")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}"
        r = sh([CXX] + flags + ["-x", "c++-header", header, "-o", tmp, "-Xclang", "-fno-pch-timestamp", "-Xclang", "-fpch-instantiate-templates"])
        if r.returncode: raise BuildError(f"precompiling {header} failed:\n{r.stdout[-6000:]}")
        os.rename(tmp, out)
    return out
