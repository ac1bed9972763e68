"""Runs docc's own gtest suites of sdfg and opt against the stand-ins of shim/ (python3 tools/validate_shim.py)."""
import sys,glob,os,subprocess
sys.path.insert(0,'/verif/lib')
import core,build
objs=core.lib()
fl=core.flags()+["-I/usr/src/googletest/googletest/include","-I/usr/src/googletest/googletest","-I/repo/sdfg/tests","-I/repo/opt/tests"]
g=build.compile_all(["/usr/src/googletest/googletest/src/gtest-all.cc"],fl,"/verif/build/obj/validate")
for n in ("sdfg","opt"):
    t=[f for f in glob.glob(f"/repo/{n}/tests/**/*.cpp",recursive=True) if n=="opt" or "/graph/" not in f]
    try: to=build.compile_all(t,fl,"/verif/build/obj/validate")
    except build.BuildError as e: print(e); continue
    build.link(to+objs+g,f"/verif/build/{n}_test",core.LD)
    os.makedirs("/verif/build/run",exist_ok=True)
    r=subprocess.run([f"/verif/build/{n}_test","--gtest_brief=1"],cwd="/verif/build/run",capture_output=True,text=True)
    print(n,r.stdout[-1500:])
