#!/usr/bin/env python3
"""Builds every harness once, so that the checks find a warm compiler cache."""
import os, sys, traceback
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib")]
import registry
done = set()
for pid, c in registry.CHECKS.items():
    for h in c["harnesses"]:
        if h["name"] in done: continue
        done.add(h["name"])
        try:
            if "setup" in h: h["setup"]()
            elif "srcs" in h: registry.build_harness(h)
        except Exception as e:
            print(f"{h['name']}: {e}", file=sys.stderr)
print(f"built {len(done)} harnesses")
