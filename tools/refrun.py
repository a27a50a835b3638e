#!/usr/bin/env python3
"""Applies each behaviour-preserving edit of tools/refactors in turn, runs the checks named there, undoes it. usage: refrun.py [ID...]"""
import sys, os, subprocess, time, glob, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
for f in sorted(glob.glob(V + "/tools/refactors/*.py")):
    s = importlib.util.spec_from_file_location("r", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); R.update(m.R)
for i in sys.argv[1:] or R:
    f, edits, props = R[i]; p = "/repo/" + f; t = open(p).read(); orig = t
    for old, new in edits:
        if old not in t: sys.exit(f"{i}: text not found:\n{old}")
        t = t.replace(old, new)
    open(p, "w").write(t)
    try:
        if f.endswith(".rs"):
            b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
            if b.returncode: print(i, "DOES NOT BUILD", b.stderr[-600:]); continue
        for q in props:
            t0 = time.time(); r = subprocess.run(["python3", V + "/check.py", q], capture_output=True, text=True, cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            und = [l for l in r.stdout.splitlines() if "undecided" in l]
            print(i, q, "quiet" if r.returncode == 0 else "ALARM" if r.returncode == 1 else "NO ANSWER", "(undecided)" if und else "", f"{time.time()-t0:.0f}s", flush=True)
            if r.returncode: print("    ", r.stdout[-400:], r.stderr[-300:])
            if und: print("     ", und[0][:260])
    finally: open(p, "w").write(orig)
subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
