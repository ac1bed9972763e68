#!/usr/bin/env python3
"""mkseed.py ID [--keep]: from /tmp/seedsrc/ID.py (dict SEED) makes /verif/seeded/ID and checks its demonstration in a scratch copy."""
import json, os, shutil, subprocess, sys, runpy
def main(i):
    d = runpy.run_path(f"/tmp/seedsrc/{i}.py")["SEED"]
    out = f"/verif/seeded/{i}"; os.makedirs(out, exist_ok=True)
    scratch = f"/tmp/seedwork_{i}"
    subprocess.run(["rm", "-rf", scratch]); subprocess.run(["cp", "-a", "/repo", scratch], check=True)
    for f, edits in d["edits"].items():
        p = f"{scratch}/{f}"; s = open(p).read()
        for a, b in edits:
            assert s.count(a) == 1, (f, a, s.count(a)); s = s.replace(a, b)
        open(p, "w").write(s)
    diff = subprocess.check_output(["git", "-C", scratch, "diff"], text=True); open(f"{out}/patch.diff", "w").write(diff)
    json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(f"{out}/meta.json", "w"), indent=1)
    for n, t in d["files"].items():
        open(f"{out}/{n}", "w").write(t)
        if n == "demo.sh": os.chmod(f"{out}/{n}", 0o755)
    t = f"/tmp/seeddemo_{i}"; subprocess.run(["rm", "-rf", t]); shutil.copytree(out, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    ok = subprocess.run(["bash", f"{t}/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = subprocess.run(["bash", f"{t}/demo.sh"], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(i, "unchanged:", ok.returncode, "patched:", bad.returncode, "" if ok.returncode == 0 and bad.returncode else ok.stdout[-1500:] + "\n----\n" + bad.stdout[-1500:])
    r = subprocess.run([sys.executable, "/verif/check.py", d["property"]], cwd="/verif", env=dict(os.environ, VERIF_REPO=scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("   check:", r.returncode, [l for l in r.stdout.splitlines() if l.startswith("-- ") or l.startswith("Trace") or "violations" in l][:4], r.stdout[-800:] if r.returncode not in (0, 1) else "")
    subprocess.run(["rm", "-rf", scratch, t])
for i in sys.argv[1:]: main(i)
