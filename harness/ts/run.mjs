// Case runner for the TypeScript side; same protocol as harness/common/run.rs.
import fs from "node:fs"; import path from "node:path"; import { spawn } from "node:child_process"; import crypto from "node:crypto";
import { prep } from "./prep.mjs"; import { suites } from "./suites.mjs";
const M64 = (1n << 64n) - 1n;
export class Rng {
  constructor(seed, dict) { this.a = Number(BigInt(seed) & 0xffffffffn) ^ 0x9e3779b9; this.b = Number((BigInt(seed) >> 32n) & 0xffffffffn) ^ 0x243f6a88; this.dict = dict; this.draws = 0; for (let i = 0; i < 20; i++) this.u32(); }
  copy() { const r = Object.create(Rng.prototype); Object.assign(r, this); return r; }
  // the same stream from `from` on, with one of the draws up to this point changed: cases that differ in one choice
  twin(from, r) { const t = from.copy(); t.at = from.draws + 1 + r.below(this.draws - from.draws); t.x = r.chance(1, 2) ? 1 << r.below(8) : r.u32(); return t; }
  u32() { // xorshift64-ish on two words (sfc-like)
    this.a = (this.a + 0x6d2b79f5) | 0; let t = Math.imul(this.a ^ (this.a >>> 15), 1 | this.a);
    t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; this.b = (Math.imul(this.b, 1664525) + 1013904223) | 0; const v = ((t ^ (t >>> 14)) ^ this.b) >>> 0; return ++this.draws === this.at ? (v ^ this.x) >>> 0 : v; }
  u64() { return (BigInt(this.u32()) << 32n) | BigInt(this.u32()); }
  below(n) { return n <= 0 ? 0 : this.u32() % n; }
  range(a, b) { return a + this.below(b - a + 1); }
  chance(a, b) { return this.below(b) < a; }
  pick(v) { return v[this.below(v.length)]; }
  hint(max) { const d = this.dict.ints; if (!d.length || !this.chance(1, 4)) return undefined; let v = this.pick(d); v = [v - 1, v + 1, v * 2, v * this.pick([3, 4, 5, 8, 32]), Math.floor(v / this.pick([2, 4, 8, 12, 32])) + this.below(2), v, v, v, v, v][this.below(10)]; return v >= 0 && v <= max ? v : undefined; }
  hintStr() { const d = this.dict.strs; if (!d.length || !this.chance(1, 4)) return undefined; return this.pick(d); }
  bytes(n) { const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = this.u32() & 255;
    if (n > 1 && this.chance(1, 6)) this.regular(b);
    if (n) { const x = this.hint(255); if (x !== undefined) b[this.pick([0, n - 1, this.below(n)])] = x;
      const s = this.hintStr(); if (s !== undefined) { const e = new TextEncoder().encode(s); if (e.length <= n) b.set(e, this.chance(1, 2) ? 0 : this.below(n - e.length + 1)); } }
    return b; }
  // bytes that stand in some relation to each other
  regular(v) { const n = v.length, at = this.below(n);
    switch (this.below(9)) { case 0: v.fill(this.pick([0, 0, 255, v[0]])); break; case 1: { const p = this.range(1, 9); for (let i = p; i < n; i++) v[i] = v[i - p]; break; } case 2: { const s = this.pick([1, 255, 2]); for (let i = 1; i < n; i++) v[i] = v[i - 1] + s; break; }
      case 3: for (let i = 0; i < n >> 1; i++) v[n - 1 - i] = v[i]; break; case 4: v[n - 1] = v[0]; break; case 5: for (let i = 0; i < n >> 1; i++) v[n - (n >> 1) + i] = v[i]; break; case 6: v.fill(0, at); break; case 7: v.fill(0, 0, at); break;
      default: { let x = 0; for (let i = 0; i < n - 1; i++) x ^= v[i]; v[n - 1] = this.pick([x, ~x, n, 0, 255]); } } }
  shuffle(v) { for (let i = v.length - 1; i > 0; i--) { const j = this.below(i + 1); [v[i], v[j]] = [v[j], v[i]]; } return v; }
}
const [, , id, mode, arg] = process.argv;
const seed = BigInt(process.env.VERIF_SEED || "1"), thorough = process.env.VERIF_TIER === "thorough", secs = Number(process.env.HARNESS_SECS || "20");
const dir = process.env.HARNESS_SCRATCH; fs.mkdirSync(dir, { recursive: true });
let dict = { ints: [], strs: [] };
try { dict = { ...dict, ...JSON.parse(fs.readFileSync(process.env.HARNESS_DICT, "utf8")) }; } catch {}
const mine = suites.filter((s) => s.id === id);
if (!mine.length) { console.error("no suite " + id); process.exit(2); }
const put = (t) => { const b = Buffer.from(t); for (let o = 0; o < b.length;) { try { o += fs.writeSync(1, b, o); } catch (e) { if (e.code !== "EAGAIN") throw e; } } };
const out = (o) => put(JSON.stringify(o) + "\n");
async function one(s, c, m) { try { return { ok: await s.check(c, m) }; } catch (e) { return { err: (e && e.prop) ? e.message : "the code under test threw: " + (e && e.stack ? e.stack.split("\n").slice(0, 2).join(" ") : e) }; } }
async function load() { // fixed hooks first, then the real modules
  const h = globalThis.__zk = { log: [] };
  const real = globalThis.crypto.getRandomValues.bind(globalThis.crypto);
  globalThis.__rnd = { log: [] };
  Object.defineProperty(globalThis.crypto, "getRandomValues", { configurable: true, value: (a) => { const r = real(a); globalThis.__rnd.log.push(Uint8Array.from(new Uint8Array(a.buffer, a.byteOffset, a.byteLength))); return r; } });
  const u = (p) => import("file://" + path.join(dir, "js", p));
  for (const k of ["error", "log", "warn"]) console[k] = () => {};
  return { dir: path.join(dir, "js"), h, rnd: globalThis.__rnd, u };
}
if (mode === "replay") {
  prep(path.join(dir, "js")); const m = await load();
  let c = JSON.parse(fs.readFileSync(arg, "utf8")); if (c.case) c = c.case;
  for (const b of c.before || []) await one(mine[b.suite || 0], b, m); // what ran before it in the same process
  const r = await one(mine[c.suite || 0], c, m);
  put(r.err ? "replay: FAILS: " + r.err + "\n" : "replay: holds\n"); process.exit(r.err ? 1 : 0);
} else if (mode === "worker") {
  const cur = path.join(dir, "current.json"), t0 = Date.now(); const m = await load();
  let evals = 0; const before = []; const seen = new Set(), samples = [], rules = [];
  for (let k = 0; k < mine.length; k++) {
    const s = mine[k], n = thorough ? s.budget[1] : s.budget[0]; rules.push(s.rule);
    const r = new Rng((seed ^ (BigInt(k) << 40n)) & M64, dict), pick = new Rng((seed ^ 0x7717n) & M64, dict), share = secs * 1000 * (k + 1) / mine.length;
    for (let i = 0; i < n; i++) {
      if (Date.now() - t0 > share) break;
      // now and then a near copy right after a case, and then the case again
      const from = r.copy(), cases = [s.gen(r, i)];
      if (r.draws > from.draws && pick.chance(1, 4)) { cases.push(s.gen(r.twin(from, pick), i)); if (pick.chance(1, 2)) cases.push(cases[0]); }
      for (const c of cases) { c.suite = k; const text = JSON.stringify(c);
      fs.writeFileSync(cur, text);
      evals++;
      const v = await one(s, JSON.parse(text), m);
      if (v.err) { out({ result: "fail", reason: v.err, case: { ...JSON.parse(text), before }, evaluations: evals }); process.exit(0); }
      if (text.length < 40000) { before.push(JSON.parse(text)); if (before.length > 40) before.shift(); }
      if (v.ok) { seen.add(crypto.createHash("md5").update(text).digest("base64").slice(0, 12)); if (samples.length < 3 && i % 7 === 3) samples.push(text.length < 1500 ? JSON.parse(text) : { truncated: text.slice(0, 1400) }); }
      } }
  }
  if (!samples.length) samples.push("none non-trivial");
  out({ result: "ok", evaluations: evals, distinct_nontrivial: seen.size, samples, rule: rules.join(" | ") }); process.exit(0);
} else {
  const cur = path.join(dir, "current.json"); try { fs.unlinkSync(cur); } catch {}
  try { prep(path.join(dir, "js")); } catch (e) { out({ result: "none", reason: String(e.message || e) }); process.exit(0); }
  const p = spawn(process.execPath, ["--max-old-space-size=3000", process.argv[1], id, "worker"], { stdio: ["ignore", "pipe", "pipe"] });
  let o = "", e = ""; p.stdout.on("data", (d) => (o += d)); p.stderr.on("data", (d) => (e += d));
  const crash = (why) => { let c = null; try { c = JSON.parse(fs.readFileSync(cur, "utf8")); } catch {} if (c) out({ result: "fail", reason: why, case: c }); else out({ result: "error", reason: why + " " + e.slice(-600) }); process.exit(0); };
  let last = [0, Date.now()];
  const iv = setInterval(() => { let m = 0; try { m = fs.statSync(cur).mtimeMs; } catch {} if (m !== last[0]) last = [m, Date.now()]; if (Date.now() - last[1] > 45000) { p.kill("SIGKILL"); crash("the code under test did not return within 45 s"); } }, 50);
  p.on("exit", (code) => { clearInterval(iv); setTimeout(() => { if (code === 0 && o.trim()) { put(o); process.exit(0); } else crash("the code under test ended the process: " + code); }, 20); });
}
