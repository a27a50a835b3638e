#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py descriptions and confirms each one in a scratch copy of /repo.
usage: seed.py [ID...]      (re)generate and confirm;  seed.py --list"""
import sys, os, subprocess, json, shutil, tempfile, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
SCRATCH = "/tmp/seedrepo"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
RUST_TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
anyhow = "1.0"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
bincode = "1.3"
hex = "0.4"
aes-gcm = "0.10"
aes = "0.8"
ctr = "0.9"
cipher = { version = "0.4", features = ["std"] }
rand = "0.8"
'''
RUST_SH = '''#!/bin/bash
# builds the real source files of the repository in the current directory with a small program
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/p/src" "$t/scratch"
sed "s#@REPO@#$repo#g" "$here/main.rs" > "$t/p/src/main.rs"
cp "$here/Cargo.toml" "$here/Cargo.lock" "$t/p/"
cd "$t/p" || exit 1
CARGO_TARGET_DIR="$t/target" cargo build -q --offline --locked 2>"$t/err" || { cat "$t/err"; exit 3; }
cd "$t/scratch" && timeout 120 "$t/target/debug/demo"
'''
TS_SH = '''#!/bin/bash
# transpiles the real TypeScript of the repository in the current directory and runs a small program on it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cp "$here/main.mjs" "$t/main.mjs"
timeout 120 node "$here/prep.mjs" "$PWD" "$t" || exit 3
cd "$t" && timeout 120 node main.mjs
'''
TS_PREP = '''import { createRequire } from "node:module"; import fs from "node:fs"; import path from "node:path";
const ts = createRequire("/opt/veriftools/node/node_modules/")("typescript");
const [repo, t] = process.argv.slice(2); const src = path.join(repo, "packages/zkenc-js/src");
fs.mkdirSync(path.join(t, "dist")); fs.mkdirSync(path.join(t, "pkg")); fs.writeFileSync(path.join(t, "package.json"), '{"type":"module"}');
for (const f of fs.readdirSync(src)) if (f.endsWith(".ts") && !/\\.(test|spec|d)\\.ts$/.test(f))
  fs.writeFileSync(path.join(t, "dist", f.replace(/\\.ts$/, ".js")), ts.transpileModule(fs.readFileSync(path.join(src, f), "utf8"), { compilerOptions: { target: "ES2020", module: "ES2020" } }).outputText);
fs.writeFileSync(path.join(t, "pkg", "zkenc_js.js"), `const h = globalThis.__zk = globalThis.__zk || { log: [] };
export async function init() {} export default init;
export function wasm_encap(r1cs, wit) { h.log.push({ f: "encap", wit: Uint8Array.from(wit) }); return { ciphertext: h.ct, key: h.key }; }
export function wasm_decap(r1cs, wit, ct) { h.log.push({ f: "decap", ct: Uint8Array.from(ct) }); return h.key; }
`);
'''
ARK_SH = '''#!/bin/bash
# builds the real crates of the repository in the current directory with a small program; the arithmetic of arkworks,
# which is not in the package cache, comes from the stand-in crates in shims/
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/p/src" "$t/scratch"
cp "$here"/*.rs "$t/p/src/"; cp "$here/Cargo.toml" "$here/Cargo.lock" "$t/p/"; cp -r "$here/shims" "$t/p/shims"
sed -i "s#\\"/repo/#\\"$repo/#" "$t"/p/Cargo.toml "$t"/p/shims/w-*/Cargo.toml
cd "$t/p" || exit 1
CARGO_TARGET_DIR="$t/target" cargo build -q --offline --locked 2>"$t/err" || { cat "$t/err"; exit 3; }
cd "$t/scratch" && timeout 120 "$t/target/debug/demo" >"$t/out" 2>&1; r=$?
tail -3 "$t/out"; exit $r
'''
ARK_HELP = '''#![allow(dead_code, unused_imports, unused_variables)]
mod circ;
mod run;
use circ::*;
use run::*;
use arkshim::ec::*;
use arkshim::ff::*;
use arkshim::relations::*;
use arkshim::serialize::*;
use arkshim::tap;
use serde_json::{json, Value};
use std::collections::HashMap;
use zkenc_cli::circuit::CircomCircuit;
use zkenc_cli::commands::*;
use zkenc_core::{decap, encap, verify_ciphertext, Ciphertext, EncapKey, Key};
fn ct_bytes(c: &Ciphertext<Bn254>) -> Vec<u8> { let mut v = vec![]; c.serialize_compressed(&mut v).unwrap(); v }
fn ct_of(b: &[u8]) -> Ciphertext<Bn254> { Ciphertext::<Bn254>::deserialize_compressed(b).unwrap() }
fn put(n: &str, b: &[u8]) -> String { let d = std::env::current_dir().unwrap().join(n); std::fs::write(&d, b).unwrap(); d.to_str().unwrap().into() }
fn at(n: &str) -> String { std::env::current_dir().unwrap().join(n).to_str().unwrap().into() }
fn ours(c: &C, n: usize) -> Syn { let mut s = Syn::of(c); for i in n..s.vals.len() { s.vals[i] = None; } s }
fn f(x: u64) -> Fr { Fr::from(x) }
/// x * y = z with the wires 1, z, x, y, t and t = z * z, given by wire number; no and ni say how many are public
fn product(no: u64, ni: u64, x: u64, y: u64) -> C {
    let (z, t) = (x * y, x * y * x * y);
    C::of(&json!({"no": no, "ni": ni, "nw": 5, "fs": 32, "rows": [[[[2, one()]], [[3, one()]], [[1, one()]]], [[[1, one()]], [[1, one()]], [[4, one()]]]], "vals": vals(&[1, z, x, y, t])}))
}
fn vals(v: &[u64]) -> Value { v.iter().map(|x| fhx(&f(*x))).collect() }
fn one() -> Value { fhx(&Fr::one()) }
/// runs the program
fn zkenc(args: &[&str]) -> std::process::Output { std::process::Command::new(std::env::current_exe().unwrap().with_file_name("zkenc")).args(args).output().unwrap() }
/// main.z, main.x, main.y, main.t on wires 1, 2, 3, 4
fn names() -> String { "1,1,0,main.z\\n2,2,0,main.x\\n3,3,0,main.y\\n4,4,0,main.t\\n".into() }
'''
def arklock(kind="ark"):
    p = V + "/build/" + kind + "lock"
    if not os.path.exists(p + "/Cargo.lock"):
        shutil.rmtree(p, ignore_errors=True); os.makedirs(p + "/src"); shutil.copytree(V + "/harness/shims", p + "/shims", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        open(p + "/Cargo.toml", "w").write(arktoml(kind)); open(p + "/src/main.rs", "w").write("fn main(){}")
        r = sh("cargo generate-lockfile --offline", cwd=p); assert r.returncode == 0, r.stderr
    return p + "/Cargo.lock"
def arktoml(kind="ark"):
    c = {"ark": "hb", "prog": "hc"}[kind]
    return open(V + "/harness/%s/Cargo.toml" % c).read().replace('name = "%s"' % c, 'name = "demo"').replace("../shims/", "shims/")
def load():
    S = {}
    for f in sorted(glob.glob(HERE + "/seeds/*.py")):
        sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SEEDS: assert s["id"] not in S, s["id"]; S[s["id"]] = s
    return S
def lock():
    p = V + "/build/seedlock"; os.makedirs(p + "/src", exist_ok=True)
    if not os.path.exists(p + "/Cargo.lock"):
        open(p + "/Cargo.toml", "w").write(RUST_TOML); open(p + "/src/main.rs", "w").write("fn main(){}")
        r = sh("cargo generate-lockfile --offline", cwd=p); assert r.returncode == 0, r.stderr
    return p + "/Cargo.lock"
def write(s):
    d = f"{V}/seeded/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if s["kind"] == "rust":
        open(d + "/main.rs", "w").write("#![allow(dead_code, unused_imports, unused_variables)]\n" + s["demo"]); open(d + "/Cargo.toml", "w").write(RUST_TOML); shutil.copy(lock(), d + "/Cargo.lock"); shell = RUST_SH
    elif s["kind"] in ("ark", "prog"):
        open(d + "/main.rs", "w").write(ARK_HELP + s["demo"]); open(d + "/Cargo.toml", "w").write(arktoml(s["kind"])); shutil.copy(arklock(s["kind"]), d + "/Cargo.lock"); shell = ARK_SH
        shutil.copytree(V + "/harness/shims", d + "/shims", ignore=shutil.ignore_patterns("target", "Cargo.lock")); shutil.copy(V + "/harness/common/run.rs", d); open(d + "/circ.rs", "w").write(open(V + "/harness/hb/src/circ.rs").read())
    elif s["kind"] == "ts":
        open(d + "/main.mjs", "w").write(s["demo"]); open(d + "/prep.mjs", "w").write(TS_PREP); shell = TS_SH
    else:
        for n, t in s["files"].items(): open(f"{d}/{n}", "w").write(t)
        shell = s["demo"]
    open(d + "/demo.sh", "w").write(shell); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
    return d
def fresh():
    sh(f"mkdir -p {SCRATCH} && rsync -a --delete --exclude target --exclude node_modules /repo/ {SCRATCH}/ 2>/dev/null || (rm -rf {SCRATCH}; cp -a /repo {SCRATCH})")
    sh(f"git -C {SCRATCH} checkout -q -- .")
def main():
    S = load(); ids = sys.argv[1:]
    if ids == ["--list"]: print("\n".join(f"{i} {s['property']}" for i, s in S.items())); return
    ids = ids or list(S)
    bad = 0
    for i in ids:
        s = S[i]; fresh(); d = write(s)
        for f, old, new in s["edits"]:
            p = f"{SCRATCH}/{f}"; t = open(p).read()
            assert t.count(old) == s.get("count", {}).get(f, 1), f"{i}: {f}: {t.count(old)} matches of {old!r}"
            open(p, "w").write(t.replace(old, new))
        r = sh(f"git -C {SCRATCH} diff"); open(d + "/patch.diff", "w").write(r.stdout)
        dp = sh(f"bash {d}/demo.sh", cwd=SCRATCH); sh(f"git -C {SCRATCH} checkout -q -- ."); du = sh(f"bash {d}/demo.sh", cwd=SCRATCH)
        # build and tests run on /repo itself
        a = sh(f"git -C /repo apply {d}/patch.diff"); b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seedtest.json"); sh("git -C /repo checkout -q -- .")
        base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/seedtest.json")) if os.path.exists("/tmp/seedtest.json") else {}
        stable = base.get("stable") or base.get("stable_tests") or base.get("passed") or []
        passed = set(got.get("passed", [])) if isinstance(got.get("passed"), list) else set(k for k, v in got.get("results", got).items() if v in ("pass", "passed", True))
        miss = [x for x in stable if x not in passed]
        ok = du.returncode == 0 and dp.returncode not in (0, 3) and a.returncode == 0 and b.returncode == 0 and not miss
        print(i, "OK" if ok else "BAD", f"demo unchanged={du.returncode} patched={dp.returncode} build={b.returncode} missing={len(miss)}")
        if not ok: bad = 1; print("   un:", (du.stdout + du.stderr)[-600:], "\n   pa:", (dp.stdout + dp.stderr)[-600:], a.stderr[-300:], b.stderr[-400:] if b.returncode else "")
    sys.exit(bad)
main()
