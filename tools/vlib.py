"""Shared machinery of the checks: extraction + Verus, harness binaries, replay files, evidence."""
import atexit, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(V, "build")
GEN = os.path.join(BUILD, "gen-%d" % os.getpid())  # extracted texts of this run
atexit.register(lambda: shutil.rmtree(GEN, ignore_errors=True))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_SEED=str(SEED), VERIF_TIER=TIER)
ENV["PATH"] = os.path.expanduser("~/.cargo/bin") + ":/opt/veriftools/bin:/usr/local/bin:" + ENV.get("PATH", "")
ENV.pop("RUSTFLAGS", None)


class Err(Exception):
    """The machinery itself could not do its work (not a statement about the code)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, "." + name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run(cmd, timeout=600, env=None, cwd=None, inp=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         env=env or ENV, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return 124, b"", b"timeout"
    return p.returncode, o, e


# ---------------------------------------------------------------- building
def build_rx():
    with lock("rx"):
        rc, o, e = run(["cargo", "build", "--release", "--offline", "--locked", "-q"], 600, dict(ENV, CARGO_TARGET_DIR=BUILD + "/rx"), V + "/tools/rx")
    if rc:
        raise Err("cannot build the extractor: " + e.decode()[-2000:])
    return BUILD + "/rx/release/rx"


def build_crate(name, binary=None, extra_env=None):
    """Builds harness/<name> against /repo's working tree. Returns (path, None) or (None, compiler output)."""
    with lock(name):
        env = dict(ENV, CARGO_TARGET_DIR=BUILD + "/" + name)
        env.update(extra_env or {})
        rc, o, e = run(["cargo", "build", "--offline", "--locked"], 800, env, V + "/harness/" + name)
    if rc:
        return None, e.decode(errors="replace")
    return BUILD + "/" + name + "/debug/" + (binary or name), None


# ---------------------------------------------------------------- Verus
def scan_trusted(text):
    """external_body / assume / uninterp / admit in a Verus text: the trusted base, mechanically."""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        if "external_body" in l or "external_type_specification" in l or "external_fn_specification" in l:
            for j in range(i + 1, min(i + 6, len(lines))):
                m = re.search(r"\b(fn|struct)\s+(\w+)", lines[j])
                if m:
                    out.append("%s (assumed contract)" % m.group(2) if m.group(1) == "fn" else "%s (opaque type)" % m.group(2))
                    break
        m = re.search(r"uninterp spec fn (\w+)", l)
        if m:
            out.append("%s (uninterpreted)" % m.group(1))
        if re.search(r"\b(assume|admit)\s*\(", l) and not l.strip().startswith("//"):
            out.append("ASSUME: " + l.strip()[:80])
        m = re.search(r"assume_specification\S*\s*\[\s*([^\]]*?)\s*\]", l)
        if m:
            out.append(m.group(1) + " (assumed specification)")
    return sorted(set(out))


class Unit:
    """Result of proving one unit (proofs/<name>.vr) against the current tree."""

    def __init__(self, name):
        self.name, self.lost, self.failed, self.fns, self.verified, self.errors, self.smt_ms, self.trusted, self.vacuous, self.cmd, self.raw, self.rewrites, self.all_fns, self.callees, self.js_rejected = name, None, [], [], 0, 0, 0, [], [], "", "", {}, {}, [], []


def verus(path, extra=()):
    cmd = ["verus", os.path.basename(path), "--output-json", "--time", "--triggers-mode", "silent", "--error-format=json", "--multiple-errors", "8", "--rlimit", "30", *extra]
    rc, o, e = run(cmd, 300, ENV, os.path.dirname(path))
    try:
        j = json.loads(o)
    except Exception:
        j = {}
    diags = []
    for l in e.decode(errors="replace").split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except Exception:
                pass
    return rc, j, diags, " ".join(cmd)


NOT_OBLIGATION = re.compile(r"rlimit|resource limit|timed? ?out|not supported|unsupported|aborting due to|could not|cannot find|mismatched types|internal error|not yet", re.I)


_tx_once, _tx = threading.Lock(), {}


def run_tx():
    """Translates the TypeScript of the working tree once per run. Returns (directory, report) or raises Lost."""
    with _tx_once:
        if not _tx:
            d = GEN + "/tx"
            rc, o, e = run(["node", V + "/tools/tx/tx.mjs", REPO + "/packages/zkenc-js/src", d], 120)
            if rc:
                _tx["lost"] = "tx: " + (e.decode(errors="replace").strip() or "failed")[-400:]
            else:
                _tx["dir"], _tx["report"] = d, json.load(open(d + "/report.json"))
    return _tx


def template_text(tpl):
    t = open(tpl).read()
    return t + "".join(open(os.path.join(os.path.dirname(tpl), m)).read() for m in re.findall(r"^//@@ include (\S+)", t, re.M))


def prove(name, rx, vacuity=True):
    u = Unit(name)
    os.makedirs(GEN, exist_ok=True)
    out, rep = "%s/%s.rs" % (GEN, name), "%s/%s.json" % (GEN, name)
    tpl = "%s/proofs/%s.vr" % (V, name)
    env, tsrc = ENV, re.findall(r"^//@@ file \w+ ts:(\S+)", template_text(tpl), re.M)
    if tsrc:
        tx = run_tx()
        if "lost" in tx:
            u.lost = tx["lost"]
            return u
        env = dict(ENV, TXDIR=tx["dir"])
        u.js_rejected = ["%s:%s %s: %s" % (x["file"], x["line"], x["name"], x["why"]) for x in tx["report"]["rejected"] if x["file"] in tsrc and "line" in x]
    rc, o, e = run([rx, tpl, REPO, out, rep], 60, env)
    if rc:
        u.lost = (e.decode(errors="replace").strip() or "rx failed")[-400:]
        return u
    items = json.load(open(rep))["items"]
    u.fns = [i for i in items if i["kind"] == "fn"]
    u.callees = ["%s: %s (contract proved in unit %s)" % (i["file"], i["name"], i["unit"]) for i in items if i["kind"] == "callee"]
    callee = {"%s (assumed contract)" % i["as"] for i in items if i["kind"] == "callee"}
    if tsrc:
        done = {i["name"].replace("::", "__").split("__")[-1] for i in u.fns}
        for f in tx["report"]["functions"]:
            if f["file"] in tsrc and f["name"].split("__")[-1] in done:
                for k, v in ((k, 1) for k in f["rewrites"]) if isinstance(f["rewrites"], list) else f["rewrites"].items():
                    u.rewrites["tx: " + k] = u.rewrites.get("tx: " + k, 0) + v
    text = open(out).read()
    u.trusted = [t for t in scan_trusted(text) if t not in callee]
    if any(t.startswith("ASSUME") for t in u.trusted):
        raise Err("assume/admit in a unit: %s" % u.trusted)
    for i in u.fns:
        for k, v in (i.get("rewrites") or {}).items():
            u.rewrites[k] = u.rewrites.get(k, 0) + v
    rc, j, diags, cmd = verus(out)
    u.cmd = "rx proofs/%s.vr %s; %s" % (name, REPO, cmd)
    vr = j.get("verification-results", {})
    u.verified, u.errors = vr.get("verified", 0), vr.get("errors", 0)
    t = j.get("times-ms", {}).get("smt", {})
    u.smt_ms = t.get("smt-run", 0)
    for m in t.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            u.all_fns[f["function"]] = f["success"]
    errs = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting")]
    if vr.get("success"):
        if u.verified == 0:
            raise Err("unit %s generated no obligations" % name)
    elif not vr or vr.get("encountered-vir-error") or u.errors == 0:
        u.lost = "the verifier does not accept the extracted text: " + "; ".join(d["message"] for d in errs)[:400]
        return u
    else:
        lines = text.split("\n")
        lost = []
        for d in errs:
            sp = d.get("spans", [])
            where = [s for s in sp if s["file_name"].endswith(name + ".rs")]
            fn = None
            for s in sorted(where, key=lambda s: (s["is_primary"] is False, s["line_start"])):
                for i in u.fns:
                    a, b = i["gen_lines"]
                    if a <= s["line_start"] <= b:
                        fn = i["name"]
            if fn is None and where:
                for k in range(where[0]["line_start"] - 1, -1, -1):
                    m = re.search(r"\bfn\s+(\w+)", lines[k])
                    if m:
                        fn = m.group(1)
                        break
            ob = {"fn": fn or "?", "obligation": d["message"], "clause": next((" ".join(x["text"].strip() for x in s["text"])[:300] for s in where if s["is_primary"]), ""),
                  "output": d.get("rendered", "")[:3000]}
            # `// [C16 C17]` on a clause: the properties it states; no tag: every property resting on the function
            ob["tags"] = sorted({t for s in where for k in range(s["line_start"] - 1, min(s["line_end"], s["line_start"] + 12)) if s["line_end"] - s["line_start"] < 12
                                 for m in re.findall(r"// \[([C\d ]+)\]", lines[k]) for t in m.split()})
            (lost if NOT_OBLIGATION.search(d["message"]) else u.failed).append(ob)
        if lost and not u.failed:
            u.lost = "undecided: " + "; ".join(x["fn"] + ": " + x["obligation"] for x in lost)[:400]
        elif not u.failed:
            u.lost = "the verifier reports errors without an obligation"
    if vacuity and not u.failed and not u.lost:
        vo, vj = "%s/%s_vac.rs" % (GEN, name), "%s/%s_vac.json" % (GEN, name)
        rc, o, e = run([rx, tpl, REPO, vo, vj], 60, dict(env, RX_VACUITY="1"))
        if rc:
            raise Err("vacuity extraction failed: " + e.decode()[-300:])
        rc, j, diags, cmd = verus(vo)
        vit = [i for i in json.load(open(vj))["items"] if i["kind"] == "fn"]
        hit = set()
        for d in diags:
            for s in d.get("spans", []):
                # the end is reachable, or the verifier gave up on refuting that
                if "assertion failed" in d.get("message", "") or "rlimit" in d.get("message", ""):
                    for i in vit:
                        if i["gen_lines"][0] <= s["line_start"] <= i["gen_lines"][1]:
                            hit.add(i["name"])
        u.vacuous = [i["name"] for i in vit if i["name"] not in hit]
        if u.vacuous:
            # a changed body can make the end unreachable; that alone says nothing about the property
            log("note: end not reachable in %s: %s" % (name, u.vacuous))
    return u


# ---------------------------------------------------------------- literals that are new in the sources
LIT = re.compile(r'"((?:[^"\\\n]|\\.)*)"|\'((?:[^\'\\\n]|\\.){1,40})\'|\b(0x[0-9a-fA-F_]+|\d[\d_]*)(?:n|u8|u16|u32|u64|usize|i32|i64)?\b')


NUM = r"(?:0x[0-9a-fA-F_]+|\d[\d_]*)(?:n|u8|u16|u32|u64|usize|i32|i64)?"
EXPR = re.compile(r"(?<![\w.])%s(?:\s*(?:<<|\*\*|\*|\+|-|/)\s*%s)+(?![\w.])" % (NUM, NUM))


def fold(t):
    """Value of a constant expression such as 1 << 20 or 64 * 1024 (None: out of range)."""
    e = re.sub(NUM, lambda m: str(int(re.sub(r"(n|u8|u16|u32|u64|usize|i32|i64)$", "", m.group(0)).replace("_", ""), 0)), t)
    if sum(int(x) for x in re.findall(r"(?:<<|\*\*)\s*(\d+)", e)) > 64:
        return None
    try:
        v = eval(e.replace("/", "//"), {"__builtins__": {}})
    except Exception:
        return None
    return v if 0 <= v < 1 << 64 else None


def literals(files):
    """Counted: a value used more often than before is as new as one never used."""
    ints, strs = {}, {}

    def add(d, x):
        d[x] = d.get(x, 0) + 1
    for f in files:
        try:
            t = open(os.path.join(REPO, f), encoding="utf8", errors="replace").read()
        except OSError:
            continue
        t = t.split("#[cfg(test)]\nmod")[0]
        for m in LIT.finditer(t):
            s = m.group(1) if m.group(1) is not None else m.group(2)
            if s is not None:
                if len(s) <= 40:
                    add(strs, s)
            else:
                try:
                    add(ints, int(m.group(3).replace("_", ""), 0))
                except ValueError:
                    pass
        for m in EXPR.finditer(t):
            v = fold(m.group(0))
            if v is not None:
                add(ints, v)
    return ints, strs


def fresh_literals():
    """Literals in the sources that the committed list does not have: hints for the input search."""
    try:
        base = json.load(open(V + "/tools/literals.json"))
    except OSError:
        base = {}
    ints, strs = set(), set()
    for f in sorted(os.path.relpath(f, REPO) for f in glob.glob(REPO + "/packages/*/src/**/*", recursive=True) if f.endswith((".rs", ".ts", ".js"))):
        i, s = literals([f])
        b = base.get(f, {"ints": {}, "strs": {}})
        bi, bs = {int(k): n for k, n in (b["ints"] or {}).items()}, b["strs"] or {}
        ints |= {x for x, n in i.items() if n > bi.get(x, 0)}
        strs |= {x for x, n in s.items() if n > bs.get(x, 0)}
    return {"ints": sorted(x for x in ints if x < 1 << 64)[:200], "strs": sorted(strs)[:200]}


# ---------------------------------------------------------------- scratch
class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-")
        os.chmod(self.d, 0o755)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
