#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only INDEX] [--keep]: decides one property on /repo's current tree.

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; anything else: the check itself failed.
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, REPO, BUILD
import registry

def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", l)
            if m: out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out

def safe_key(k):
    k = re.sub(r"[^A-Za-z0-9_.:,<>=+*/()\[\]|&!^%-]+", "_", k)
    return k if len(k) < 160 else k[:120] + "~" + hashlib.sha1(k.encode()).hexdigest()[:10]

def run_harness(pid, h, tier, seed, workdir, only=None):
    exe = registry.build_harness(h)
    out = os.path.join(workdir, h["name"])
    os.makedirs(out, exist_ok=True)
    cmd = [exe, "--out", out, "--tier", tier, "--seed", str(seed), "--jobs", str(h.get("jobs", 8))]
    if only is not None: cmd += ["--only", str(only)]
    cmd += h.get("args", [])
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:detect_stack_use_after_return=0"
    e["VC_OUT"] = out
    e["VC_REPO"] = REPO
    e["VC_VERIF"] = VERIF
    e.update(registry.so_env(h))
    e.update(h.get("env", {}))
    limit = 830 if tier == "quick" else 6 * 3600
    r = subprocess.run(cmd, env=e, timeout=limit, cwd=out)
    if only is not None: return r.returncode
    if r.returncode != 0: raise RuntimeError(f"harness {h['name']} ended with status {r.returncode}")
    res = json.load(open(os.path.join(out, "result.json")))
    for v in res["violations"]: v["harness"] = h["name"]
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--harness")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = a.property
    spec = registry.CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "run"), exist_ok=True)
    workdir = tempfile.mkdtemp(prefix=f"{pid}.", dir=os.path.join(BUILD, "run"))
    try:
        if a.replay:
            rep = json.load(open(a.replay))
            h = next(h for h in spec["harnesses"] if h["name"] == rep["harness"])
            return run_harness(pid, h, rep["tier"], rep["seed"], workdir, only=rep["index"])
        cov, vios, parts = {}, [], []
        for h in spec["harnesses"]:
            if a.harness and h["name"] != a.harness: continue
            t1 = time.time()
            if "driver" in h:
                res = h["driver"](pid, h, a.tier, seed, workdir)
                for v in res["violations"]: v["harness"] = h["name"]
            else:
                res = run_harness(pid, h, a.tier, seed, workdir)
            res["wall_s"] = round(time.time() - t1, 2)
            vios += res["violations"]
            parts.append((h, res))
        known = known_findings()
        shown, fresh = {}, []
        for v in vios:
            k = safe_key(v["key"])
            if (pid, k) in known: shown.setdefault(k, known[(pid, k)])
            else: fresh.append((k, v))
        for k, text in sorted(shown.items()):
            print(f"KNOWN-FINDING: property={pid} key={k} {text}")
        lines, seen = [], set()
        rdir = os.path.join(VERIF, "replays")
        for k, v in fresh:
            if k in seen or len(seen) >= 12: continue
            seen.add(k)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{pid}-{hashlib.sha1((v['harness'] + k).encode()).hexdigest()[:10]}.json")
            json.dump(dict(property=pid, harness=v["harness"], tier=a.tier, seed=seed, index=v["index"], key=k,
                           case=v["desc"], message=v["msg"],
                           how=f"python3 {VERIF}/check.py {pid} --replay {path}"), open(path, "w"), indent=1)
            print(f"-- {pid} {k}\n   case: {v['desc'][:1500]}\n   {v['msg'][:1500]}")
            lines.append(f"VIOLATION property={pid} replay={path}")
        level = spec["level"]
        cov = {"exhaustive": all(p.get("exhaustive", True) for _, p in parts),
               "evaluations": sum(p["evaluations"] for _, p in parts),
               "distinct_nontrivial": sum(p["distinct_nontrivial"] for _, p in parts),
               "distinct_outcomes": sum(p["outcomes"] for _, p in parts),
               "rule": " | ".join(f"{h['name']}: {p['rule']}" for h, p in parts),
               "samples": [s for _, p in parts for s in p["samples"]][:8] or ["(none)"],
               "harnesses": {h["name"]: {"cases": p["cases"], "wall_s": p["wall_s"], **p["extra"]} for h, p in parts}}
        st, tr, tc = (sum(p[k] for _, p in parts) for k in ("states", "transitions", "traces"))
        if level == "model_checking" or st:
            cov.update(states=st, transitions=tr, traces_validated_against_impl=tc)
        ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
              "level": level, "coverage": cov, "assumptions": spec.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
        print(f"{pid}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {cov['distinct_outcomes']} outcomes, "
              f"{st} states, {tr} transitions, {len(fresh)} violations, {len(shown)} known findings, {ev['wall_s']} s")
        for l in lines: print(l)
        if lines: return 1
        if cov["evaluations"] == 0 or cov["distinct_nontrivial"] < 2:
            print("nothing was explored", file=sys.stderr)
            return 3
        return 0
    except build.BuildError as e:
        print(f"BUILD FAILED: {e}", file=sys.stderr)
        return 4
    finally:
        if not a.keep:
            shutil.rmtree(workdir, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
