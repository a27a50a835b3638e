#!/usr/bin/env python3
"""Applies each seeded change to /repo in turn, runs the check of its property, undoes it. usage: seedrun.py [ID...]"""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
out = {}
for i in ids:
    d = f"{V}/seeded/{i}"; p = json.load(open(d + "/meta.json"))["property"]
    t = time.time()
    assert subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode == 0, i
    try: r = subprocess.run(["python3", V + "/check.py", p], capture_output=True, text=True, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    vl = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    caught = r.returncode == 1 and bool(vl)
    print(i, p, "caught" if caught else "MISSED", f"rc={r.returncode} {time.time()-t:.0f}s", (vl or [""])[0][-60:], flush=True)
    if not caught: print("    ", r.stdout[-300:], r.stderr[-300:])
