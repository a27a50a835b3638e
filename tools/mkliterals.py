#!/usr/bin/env python3
"""Writes tools/literals.json: the literals of the unchanged sources (rerun after a fix: commit in /repo)."""
import json, sys, os, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import literals, REPO, V
fs = sorted(os.path.relpath(f, REPO) for f in glob.glob(REPO + "/packages/*/src/*") if f.endswith((".rs", ".ts", ".js")))
o = {}
for f in fs:
    i, s = literals([f]); o[f] = {"ints": {str(k): i[k] for k in sorted(i)}, "strs": {k: s[k] for k in sorted(s)}}
json.dump(o, open(V + "/tools/literals.json", "w"), ensure_ascii=False, indent=0)
