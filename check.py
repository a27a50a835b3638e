#!/usr/bin/env python3
"""check.py <property>: decides one property against /repo's working tree. See DESIGN.md."""
import concurrent.futures as cf, json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from vlib import *
from props import PROPS


def harness_run(kind, suite, d, secs, thorough, dictfile, replay=None, seed=None):
    """One bounded/replay engine run. Returns a dict with result ok|fail|error|none."""
    h = HARNESSES[kind]
    return h(suite, d, secs, thorough, dictfile, replay, {} if seed is None else {"VERIF_SEED": str(seed)})


def rust_harness(crate):
    def f(suite, d, secs, thorough, dictfile, replay, more={}):
        exe, err = build_crate(crate)
        if exe is None:
            return {"result": "none", "reason": "the harness does not build against the current tree: " + err[-1500:]}
        env = dict(ENV, HARNESS_SCRATCH=os.path.join(d, crate), HARNESS_SECS=str(secs), HARNESS_DICT=dictfile, VERIF_TIER="thorough" if thorough else "quick", **more)
        if replay:
            rc, o, e = run([exe, suite, "replay", replay], 120, env)
            return {"result": "fail" if rc else "ok", "reason": o.decode(errors="replace")}
        rc, o, e = run([exe, suite], secs * 3 + 120, env)
        try:
            return json.loads(o)
        except Exception:
            return {"result": "error", "reason": "harness gave no result (rc %s): %s" % (rc, (o + e)[-500:])}
    return f


def ts_harness(suite, d, secs, thorough, dictfile, replay, more={}):
    env = dict(ENV, HARNESS_SCRATCH=os.path.join(d, "ts"), HARNESS_SECS=str(secs), HARNESS_DICT=dictfile, VERIF_TIER="thorough" if thorough else "quick", **more)
    exe = ["node", V + "/harness/ts/run.mjs", suite]
    if replay:
        rc, o, e = run(exe + ["replay", replay], 120, env)
        return {"result": "fail" if rc else "ok", "reason": o.decode(errors="replace")}
    rc, o, e = run(exe, secs * 3 + 120, env)
    try:
        return json.loads(o)
    except Exception:
        return {"result": "error", "reason": "harness gave no result (rc %s): %s" % (rc, (o + e)[-500:])}


HARNESSES = {"ha": rust_harness("ha"), "hb": rust_harness("hb"), "hc": rust_harness("hc"), "ts": ts_harness}


def known_findings(pid):
    out = []
    for l in open(os.path.join(V, "KNOWN_FINDINGS")):
        l = l.strip()
        if l.startswith("finding: property=%s " % pid):
            out.append(l[len("finding: property=%s " % pid):].split(" ", 1))
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    P = PROPS[pid]
    thorough = TIER == "thorough"
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(BUILD + "/replay", exist_ok=True)
    replay_path = "%s/replay/%s.json" % (BUILD, pid)
    if os.path.exists(replay_path):
        os.unlink(replay_path)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        r = json.load(open(sys.argv[3]))
        if "harness" not in r:
            print(json.dumps(r, indent=1)); sys.exit(1)
        with scratch() as d:
            json.dump(r["case"], open(d + "/case.json", "w"))
            x = harness_run(r["harness"][0], r["harness"][1], d, 30, False, "", d + "/case.json")
        print(x["reason"]); sys.exit(1 if x["result"] == "fail" else 0)

    known = known_findings(pid)
    for k, what in known:
        kf = json.load(open(os.path.join(V, k)))
        with scratch() as d:
            json.dump(kf["case"], open(d + "/case.json", "w"))
            x = harness_run(kf["harness"][0], kf["harness"][1], d, 30, False, "", d + "/case.json")
        if x["result"] == "fail":
            print("KNOWN-FINDING: property=%s %s %s" % (pid, k, what))
        else:
            log("the recorded finding %s does not show on this tree: %s" % (k, x["reason"][-300:]))
    violations = []  # (harness spec, result)
    with scratch() as d, cf.ThreadPoolExecutor(8) as ex:
        dictfile = d + "/dict.json"
        fresh = fresh_literals()
        json.dump(fresh, open(dictfile, "w"))
        secs = 150 if thorough else 25
        # bounded engine on the real code (always), proofs (always)
        hf = [(h, ex.submit(harness_run, h[0], h[1], d, secs, thorough, dictfile)) for h in P.get("harness", [])]
        rx = build_rx() if P.get("units") else None
        uf = {u: ex.submit(prove, u, rx) for u in P.get("units", {})}
        units = {u: f.result() for u, f in uf.items()}
        hres = [(h, f.result()) for h, f in hf]

        failed, lost = [], []
        for name, u in units.items():
            want = P["units"][name]  # None: every function of the unit; {"#"}: the clauses tagged with the property; else the functions it rests on
            if u.lost:
                lost.append((name, u.lost))
            for ob in u.failed:
                base = ob["fn"].split("::")[-1]
                mine = want is None or base in want or ob["fn"] in want or base not in {f["name"].split("::")[-1] for f in u.fns} and base not in {f["as"] for f in u.fns}
                if ob["tags"]:
                    mine = pid in ob["tags"]
                elif want == {"#"}:
                    mine = False
                if mine:
                    failed.append((name, ob))
        bad = [(h, r) for h, r in hres if r["result"] == "fail"]
        for h, r in hres:
            if r["result"] == "error":
                raise Err("%s: %s" % (h, r["reason"]))
            if r["result"] == "none":
                lost.append(("harness %s" % h[0], r["reason"]))
                log("note: " + r["reason"][-800:])
        if failed and not bad:
            # search harder for an input that shows the failed obligation on the real code
            log("failed obligations: " + "; ".join("%s: %s %s" % (n, o["fn"], o["obligation"]) for n, o in failed))
            deep = [(h, ex.submit(harness_run, h[0], h[1], d + "/deep", 100 if not thorough else 300, True, dictfile)) for h in P.get("harness", [])]
            bad = [(h, f.result()) for h, f in deep if f.result()["result"] == "fail"]
        elif lost and not bad and not thorough:
            # the verifier could not read a changed function: only the bounded search is left, so it goes on with other cases
            deep = [(h, ex.submit(harness_run, h[0], h[1], d + "/deep", 90, True, dictfile, seed=int(os.environ.get("VERIF_SEED", "1") or 1) + 7919)) for h in P.get("harness", [])]
            bad = [(h, f.result()) for h, f in deep if f.result()["result"] == "fail"]

    rep = {"property": pid, "failed_obligations": [dict(o, unit=n) for n, o in failed],
           "undecided": [{"unit": n, "why": w} for n, w in lost]}
    status = 0
    if bad:
        h, r = bad[0]
        rep.update(harness=list(h), case=r["case"], reason=r["reason"], how="python3 check.py %s --replay %s" % (pid, replay_path))
        json.dump(rep, open(replay_path, "w"), indent=1)
        print("the real code fails: " + r["reason"])
        for n, o in failed:
            print("failed obligation: %s: %s: %s" % (n, o["fn"], o["obligation"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
        status = 1
    elif failed:
        json.dump(rep, open(replay_path, "w"), indent=1)
        for n, o in failed:
            print("failed obligation: %s: %s: %s: %s" % (n, o["fn"], o["obligation"], o["clause"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay_path))
        status = 1

    proved = bool(units) and not lost and not failed
    ob = sum(u.verified + u.errors for u in units.values())
    dis = sum(u.verified for u in units.values())
    evals = sum(r.get("evaluations", 0) for h, r in hres)
    cov = {
        "obligations": ob, "discharged": dis,
        "checker_cmd": " && ".join(u.cmd for u in units.values() if u.cmd) or "none",
        "trusted_base": sorted(set(t for u in units.values() for t in u.trusted)) + P.get("trusted", []),
        "backend": "Verus 0.2026.09.13 (Z3)" if units else "none",
        "solver_ms": sum(u.smt_ms for u in units.values()),
        "functions_under_contract": sorted({"%s: %s" % (f["file"], f["name"]) for u in units.values() for f in u.fns}),
        "functions_this_property_rests_on": {n: sorted(w) if w else "all of the unit" for n, w in P.get("units", {}).items()},
        "contracts_taken_from_other_units": sorted({c for u in units.values() for c in u.callees}),
        "typescript_not_translated": sorted({x for u in units.values() for x in u.js_rejected}),
        "extraction_rewrites": {n: u.rewrites for n, u in units.items()},
        "vacuity": {n: ("every function's end is reachable (%d probes failed as they must)" % len(u.fns)) if not u.vacuous else "end not reachable: %s" % u.vacuous for n, u in units.items()},
        "undecided_proofs": [{"unit": n, "why": w} for n, w in lost],
        "bounded": {"%s/%s" % h: {k: r.get(k) for k in ("result", "evaluations", "distinct_nontrivial", "rule", "samples", "reason") if k in r} for h, r in hres},
        "evaluations": evals, "distinct_nontrivial": sum(r.get("distinct_nontrivial", 0) for h, r in hres),
        "rule": " || ".join(r.get("rule", "") for h, r in hres), "samples": [s for h, r in hres for s in r.get("samples", [])][:6] or ["none"],
        "bounded_only": P.get("bounded", []),
        "known_findings_listed": len(known),
        "fresh_literals_tried": fresh,
    }
    json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": P["level"], "coverage": cov, "assumptions": P.get("assumptions", []),
               "wall_s": round(time.time() - t0, 2), "violations": 1 if status else 0}, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    if lost and not status:
        for n, w in lost:
            print("undecided (bounded check decides): %s: %s" % (n, w))
        if not any(r["result"] == "ok" for h, r in hres):
            print("nothing could decide this property on this tree")
            sys.exit(2)
    if not status:
        print("%s: %s; %d obligations discharged; %d cases on the real code" % (pid, "proved" if proved else "no violation found", dis, evals))
    sys.exit(status)


if __name__ == "__main__":
    try:
        main()
    except Err as e:
        print("error: %s" % e)
        sys.exit(2)
