// Suites for the TypeScript library: generators and independent oracles.
import nc from "node:crypto"; import fs from "node:fs"; import path from "node:path"; import { createRequire } from "node:module";
const P = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
class Prop extends Error { constructor(m) { super(m); this.prop = true; } }
const bad = (m) => { throw new Prop(m); };
const hx = (b) => Buffer.from(b).toString("hex");
const un = (s) => new Uint8Array(Buffer.from(s, "hex"));
const eq = (a, b) => a.length === b.length && Buffer.compare(Buffer.from(a), Buffer.from(b)) === 0;
/** the same bytes as a view into a larger buffer full of other bytes */
function view(b, pad) { const big = new Uint8Array(b.length + pad + 37).fill(0xa5); big.set(b, pad); return big.subarray(pad, pad + b.length); }
// results returned earlier stay what they were
const kept = [];
function keep(what, b) { if (b instanceof Uint8Array && b.length <= 100000) { kept.push([what, b, Uint8Array.from(b)]); if (kept.length > 80) kept.shift(); } return b; }
function keptOk() { for (const [what, b, was] of kept) if (!eq(b, was)) { kept.length = 0; bad(what + " returned by an earlier call was changed afterwards"); } }
async function fails(f) { try { await f(); return false; } catch (e) { return true; } }
function seal(key, nonce, msg) { const c = nc.createCipheriv("aes-256-gcm", key, nonce, { authTagLength: 16 }); return Buffer.concat([nonce, c.update(msg), c.final(), c.getAuthTag()]); }
function open(key, env) { // undefined when it does not authenticate
  try { const d = nc.createDecipheriv("aes-256-gcm", key, env.subarray(0, 12), { authTagLength: 16 }); d.setAuthTag(env.subarray(env.length - 16)); return Buffer.concat([d.update(env.subarray(12, env.length - 16)), d.final()]); } catch { return undefined; } }
function msgLen(r, i) { const h = r.hint(1 << 25); if (h !== undefined && (h < 70000 || (h <= 1 << 21 && r.chance(1, 8)) || r.chance(1, 60))) return h; const fixed = [0, 1, 15, 16, 17, 31, 32, 33, 255, 256, 257, 4095, 4096, 65535, 65536]; return i < fixed.length ? fixed[i] : r.chance(1, 40) ? r.below(70000) : r.below(200); }
const crypt = async (m) => m.crypt || (m.crypt = await m.u("dist/crypto.js"));

const c01 = { id: "C01", rule: "JavaScript: random keys (one in eight of a length other than 32), messages of length 0 to 70000, buffers viewed at offsets; sealed and opened by the library and by OpenSSL; non-trivial: all", budget: [4000, 60000],
  gen: (r, i) => { const kl = i % 8 === 5 ? r.pick([0, 1, 16, 24, 31, 33, 48, 64, r.below(300)]) : 32; return { key: hx(r.bytes(kl)), msg: hx(r.bytes(msgLen(r, i))), pad: r.pick([0, 0, 1, 8, 13]) }; },
  check: async (c, m) => { const { aesGcmEncrypt: enc, aesGcmDecrypt: dec } = await crypt(m); const key = view(un(c.key), c.pad), msg = view(un(c.msg), c.pad);
    if (key.length !== 32) { if (!(await fails(() => enc(key, msg)))) bad("sealing accepts a key of " + key.length + " bytes"); const e = seal(nc.randomBytes(32), nc.randomBytes(12), msg); if (!(await fails(() => dec(key, new Uint8Array(e))))) bad("opening accepts a key of " + key.length + " bytes"); return true; }
    const k0 = hx(key), m0 = hx(msg); const env = await enc(key, msg);
    if (env.length !== msg.length + 28) bad("envelope of " + env.length + " bytes for a message of " + msg.length);
    if (!eq(env, seal(key, Buffer.from(env.subarray(0, 12)), msg))) bad("the envelope is not nonce, AES-256-GCM ciphertext and tag of the message");
    if (!eq(await dec(key, view(env, c.pad)), msg)) bad("opening what was sealed gives another message");
    const e2 = new Uint8Array(seal(key, nc.randomBytes(12), msg)); if (!eq(await dec(key, view(e2, c.pad)), msg)) bad("opening a standard envelope gives another message");
    if (hx(key) !== k0 || hx(msg) !== m0) bad("the key or the message was changed"); keep("the envelope", env); keep("the message", await dec(key, env)); keptOk(); return true; } };
const c02 = { id: "C02", rule: "JavaScript: envelopes with one or several bytes changed, cut, extended or swapped, under another key, and random byte strings of every short length; the library must reject whatever OpenSSL rejects; non-trivial: modified", budget: [5000, 80000],
  gen: (r, i) => { const key = r.bytes(32), msg = r.bytes(r.hint(5000) ?? (r.chance(1, 20) ? r.below(2000) : r.pick([0, 1, 5, 16, 33, r.below(80)]))); const env = seal(key, r.bytes(12), msg); let e = Uint8Array.from(env), k = key; const h = r.hint(500);
    switch (i % 12) { case 10: { const p = r.pick([0, 12, e.length - 16, e.length - 12, e.length, r.range(12, e.length - 16)]); e = Uint8Array.from([...e.slice(0, p), r.pick([0, 1, 2, 255, r.below(256)]), ...e.slice(p)]); break; } case 11: e.fill(r.pick([0, 255, e[0], e[e.length - 1], r.below(256)]), e.length - r.pick([16, 16, 12, 8])); break; case 0: case 1: e[r.below(e.length)] ^= 1 << r.below(8); break; case 2: e = e.slice(0, r.below(e.length)); break; case 3: e = Uint8Array.from([...e, ...r.bytes(r.range(1, 20))]); break;
      case 4: e = e.slice(r.range(1, 12)); break; case 5: e = r.bytes(i < 600 ? (i / 12) | 0 : h !== undefined ? h : r.below(60)); break; case 6: k = r.bytes(32); break; case 7: k = Uint8Array.from(key); k[r.below(32)] ^= 1 << r.below(8); break;
      case 8: { const n = r.range(1, 4); for (let j = 0; j < n; j++) e[e.length - 1 - r.below(16)] ^= r.range(1, 255); break; } default: { const j = r.below(e.length), l = r.below(e.length); [e[j], e[l]] = [e[l], e[j]]; } }
    return { key: hx(k), env: hx(e), pad: r.pick([0, 0, 3, 16]) }; },
  check: async (c, m) => { const { aesGcmDecrypt: dec } = await crypt(m); const key = un(c.key), e = un(c.env); const want = e.length >= 28 ? open(key, e) : undefined; let got;
    try { got = await dec(key, view(e, c.pad)); } catch { got = undefined; }
    if (want === undefined && got !== undefined) bad("an envelope that does not authenticate opens to " + hx(got)); if (want !== undefined && (got === undefined || !eq(got, want))) bad("an intact envelope does not open"); return want === undefined; } };
const ticks = async (n) => { for (; n > 0; n--) await undefined; for (; n < 0; n++) await new Promise((f) => setImmediate(f)); };
// sequences of calls on a few key buffers that are changed in place between calls
const hist = (id) => ({ id, rule: "JavaScript: 2 to 10 calls on 1 to 3 key buffers changed in place between them, waited for or overlapping; non-trivial: all", budget: [1500, 20000],
  gen: (r) => ({ keys: Array.from({ length: r.range(1, 3) }, () => hx(r.bytes(32))), ops: Array.from({ length: r.range(2, 10) }, () => ({ op: r.pick(["enc", "enc", "enc", "dec", "dec", "bad", "bad", "mut", "mut"]), k: r.below(3), at: r.below(32), x: r.range(1, 255), j: r.below(40), msg: hx(r.bytes(r.below(60))), wait: r.chance(1, 2), tick: r.pick([0, 0, 1, 2, 3, 5, 9, -1, -2]) })) }),
  check: async (c, m) => { const { aesGcmEncrypt: enc, aesGcmDecrypt: dec } = await crypt(m); const keys = c.keys.map(un), old = c.keys.map(() => nc.randomBytes(32)); let run = []; const flush = async () => { const all = run; run = []; for (const p of all) await p; keptOk(); };
    for (const o of c.ops) { const i = o.k % keys.length, key = keys[i], now = Uint8Array.from(key), msg = un(o.msg); let p;
      if (o.op === "mut") { await flush(); old[i] = now; key[o.at] ^= o.x; continue; }
      if (o.op === "enc") p = enc(key, msg).then((env) => { const g = open(now, Buffer.from(env)); if (g === undefined || !eq(g, msg)) bad("the envelope does not open to the message under the key as it was when sealing was asked for"); keep("the envelope", env); });
      else if (o.op === "dec") p = dec(key, new Uint8Array(seal(now, nc.randomBytes(12), msg))).then((g) => { if (!eq(g, msg)) bad("a standard envelope opens to another message"); keep("the message", g); }, (e) => bad("a standard envelope does not open: " + e));
      else { const env = new Uint8Array(seal(o.j & 1 ? old[i] : now, nc.randomBytes(12), msg)); if (!(o.j & 1)) env[o.j % env.length] ^= o.x; p = dec(key, env).then((g) => bad("an envelope that does not authenticate opens to " + hx(g)), (e) => { if (e && e.prop) throw e; }); }
      p.catch(() => {}); run.push(p); if (o.wait) await flush(); else await ticks(o.tick); }
    await flush(); return true; } });
const c01h = hist("C01"), c02h = hist("C02");
const c03 = { id: "C03", rule: "JavaScript: sequences of up to 300 sealings with repeated keys and messages of 0 to 70000 bytes, failing calls between, one after the other or up to eight at the same time; the prefix must be bytes the generator returned during the call, it must be the nonce used, and none may occur twice; non-trivial: all", budget: [60, 800],
  gen: (r, i) => ({ keys: [0, 1, 2].map(() => hx(r.bytes(32))), msgs: [0, 1, 2].map((k) => hx(r.bytes(k === 2 && r.chance(1, 4) ? msgLen(r, 99) : r.below(50)))), n: i < 2 ? 300 : r.range(2, 60), steps: hx(r.bytes(300)), par: i % 2 ? r.range(2, 8) : 1 }),
  check: async (c, m) => { const { aesGcmEncrypt: enc, aesGcmDecrypt: dec } = await crypt(m); const seen = new Set(), st = un(c.steps);
    for (let i = 0; i < c.n; ) { const s = st[i % st.length]; if (s % 11 === 0) { try { await enc(new Uint8Array(5), new Uint8Array(3)); } catch {} }
      if (s % 13 === 0) { try { await dec(un(c.keys[0]), new Uint8Array(40)); } catch {} }
      m.rnd.log.length = 0; const calls = []; for (let k = 0; k < c.par && i < c.n; k++, i++) { const t = st[i % st.length], key = un(c.keys[t % 3]); calls.push([key, enc(key, un(c.msgs[(t >> 2) % 3]))]); }
      for (const [k, p] of calls) { const env = await p; const pre = hx(env.subarray(0, 12)); const drawn = m.rnd.log.map(hx).join("|");
        let found = false; for (const d of m.rnd.log) for (let o = 0; o + 12 <= d.length; o++) if (hx(d.subarray(o, o + 12)) === pre) found = true;
        if (!found && hx(Buffer.concat(m.rnd.log.map((x) => Buffer.from(x)))).indexOf(pre) % 2 !== 0) bad("call " + i + ": the nonce " + pre + " is not what the generator returned in this call (" + drawn + ")");
        if (!found && !drawn) bad("call " + i + ": nothing was drawn from the generator");
        if (seen.has(pre)) bad("call " + i + ": nonce used before"); seen.add(pre);
        if (open(k, Buffer.from(env)) === undefined) bad("call " + i + ": the prefix is not the nonce used"); } }
    return true; } };

// ---- symbols
const NAMES = ["main.a", "main.b", "main.main.a", "main", "main.", "a", "sub.main.x", "main.arr[0]", "main.arr[0][12]", "maine.x", "Main.a", "main.ä", "main.c d", "x.y", "main.main.", " main.q", "main.constructor", "main.__proto__"];
function name(r) { const h = r.hintStr(); if (h !== undefined && !/[,\r\n]/.test(h) && h.trim() === h) return r.pick([h, "main." + h, "main." + h + "x"]); return r.chance(2, 3) ? r.pick(NAMES) : r.chance(1, 8) ? ((c) => r.pick(["main.u" + c + "v" + r.below(3), "main.u" + c, c + "main.a", "main." + c + "v"]))(r.pick(["\u000b", "\u000c", "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u202f", "\u3000", "\ufeff", "\u001c", "\u0000", ";", "\"", "#", "\u{1F600}", "|"])) : r.chance(1, 12) ? "main." + r.pick(["a.", "m", "main.", "a[1]."]).repeat(r.hint(3000) ?? r.pick([3, 17, 65, 70, 300])) + "x" : "main.s" + r.below(50); }
function outer(r, n) { return r.chance(5, 6) ? String(r.below(n) - 3) : r.pick(["", "#", "#1", "//2", ";3", "x", "-", "0", "4294967296", "99999999999999999999999", "1.5", "\"1\"", "main", "label_id", "--", "%", "!", "[1]", "\ufeff1"]); }
function symText(r, wires) { const L = [], sp = () => r.chance(1, 60) ? r.pick(["\u00a0", "\u2003", "\u000b", "\u3000", " \u2028"]) : r.pick(["", "", "", " ", "  ", "\t"]);
  for (let i = (r.chance(1, 8) ? r.hint(6000) : undefined) ?? (r.chance(1, 3000) ? 70000 : r.below(14)); i > 0; i--) { const hw = r.hint(2147483647); const w = hw !== undefined ? String(hw) : r.pick(["-1", "0", "2147483647", "-2147483648", "007", "-0", ...Array(8).fill(0).map(() => String(r.below(wires || 40)))]);
    switch (r.below(12)) { case 0: L.push(""); break; case 1: L.push("   "); break; case 2: L.push(`${r.below(9)},${w},${name(r)}`); break; case 3: L.push(`${r.below(9)},${w},${r.below(9)},${name(r)},x`); break; case 4: L.push(`${r.below(9)},${w},${r.below(9)},${name(r)},`); break; case 5: L.push(r.pick(["abc", ",,", "1,x", "# comment", "1;2;3;main.a"])); break;
      default: L.push(`${sp()}${outer(r, 99)},${sp()}${r.chance(1, 30) ? r.pick(["", "abc", " ", "NaN", "-", "x7"]) : w}${sp()},${outer(r, 300)},${sp()}${name(r)}${sp()}`); } }
  const nl = r.pick(["\n", "\r\n"]); return L.join(nl) + (r.chance(1, 2) ? nl : ""); }
function symOracle(t) { const m = new Map(); for (const l of t.split("\n")) { const f = l.split(","); if (f.length !== 4) continue; if (!/^[+-]?[0-9]+$/.test(f[1].trim())) continue; const w = Number(f[1].trim()); if (w >= 0) m.set(f[3].trim(), w + 0); } return m; }
const mapStr = (m) => JSON.stringify([...m].map(([a, b]) => [String(a), typeof b === "bigint" ? b + "n" : Object.is(b, -0) ? 0 : b]).sort((x, y) => (x[0] < y[0] ? -1 : x[0] > y[0] ? 1 : 0)));
const sym = async (m) => m.sym || (m.sym = await m.u("dist/sym_parser.js"));
const c09 = { id: "C09", rule: "JavaScript: random .sym texts (3 to 5 fields, blanks, boundary wire numbers, repeated names, LF and CRLF); non-trivial: non-empty map", budget: [20000, 300000],
  gen: (r) => ({ text: symText(r) }),
  check: async (c, m) => { const g = (await sym(m)).parseSymFile(c.text), w = symOracle(c.text); if (!(g instanceof Map) || mapStr(g) !== mapStr(w)) bad("map is " + mapStr(g) + ", the text says " + mapStr(w));
    for (const k of [...g.keys()].slice(0, 1)) g.delete(k); g.set("main.mine", 1); const g2 = (await sym(m)).parseSymFile(c.text); if (mapStr(g2) !== mapStr(w)) bad("asked again after the first map was changed by its owner, the map is " + mapStr(g2) + ", the text says " + mapStr(w)); return w.size > 0; } };
const c10 = { id: "C10", rule: "JavaScript: random maps over names with and without the prefix, wire numbers and bounds up to 2^32-1; non-trivial: something selected", budget: [20000, 300000],
  gen: (r) => { const mp = []; for (let i = r.below(16); i > 0; i--) { const h = r.hint(4294967295); mp.push([mp.length && r.chance(1, 8) ? r.pick([(x) => x + " ", (x) => x + ".", (x) => x.toUpperCase(), (x) => x.slice(0, -1), (x) => x + "\t", (x) => " " + x, (x) => x + x])(mp[mp.length - 1][0]) : name(r), h !== undefined ? h : r.pick([0, 4294967295, 2147483647, 2147483648, r.below(12), r.below(12), r.below(12)])]); } const h = r.hint(4294967295); return { map: mp, max: h !== undefined ? h : r.pick([null, 0, 4294967295, 4294967294, 2147483648, r.below(12), r.below(12), r.below(12)]) }; },
  check: async (c, m) => { const mp = new Map(c.map), keep = mapStr(mp); const S = await sym(m); const sel = () => (c.max === null ? (c.map.length % 2 ? S.getInputSignals(mp) : S.getInputSignals(mp, undefined)) : S.getInputSignals(mp, c.max)); const g = sel(); if (mapStr(mp) !== keep) bad("the source map changed");
    const want = () => { const w = new Map(); for (const [k, v] of mp) if (k.slice(0, 5) === "main." && (c.max === null || v <= c.max)) w.set(k.slice(5), v); return w; }; const w = want(); if (mapStr(g) !== mapStr(w)) bad("selected " + mapStr(g) + ", should be " + mapStr(w));
    for (const k of [...g.keys()].slice(0, 1)) g.delete(k); g.set("mine", 0); for (const k of [...mp.keys()].slice(0, 1)) mp.delete(k); mp.set("main.late", 0); const g2 = sel(), w2 = want(); if (mapStr(g2) !== mapStr(w2)) bad("asked again after the maps were changed by their owner, selected " + mapStr(g2) + ", should be " + mapStr(w2)); return w.size > 0; } };

// ---- inputs
function scalar(r) { const h = r.hint(Number.MAX_SAFE_INTEGER); if (h !== undefined) return h; const s = r.hintStr(); if (s !== undefined) return s;
  return r.pick([0, 1, -1, 7, 9007199254740991, -5, 1.5, true, false, "", "0", "abc", "21888242871839275222246405745257275088548364400416034343698204186575808495617", r.u32(), String(r.u64()), 2 ** r.below(r.pick([53, 53, 100])) - r.below(2), r.pick([1e17, -1e17, 1e21, 2 ** 64, 123456789012345680000, 1e-7, -0]), { $big: String(r.u64() * r.u64()) }, { $big: "-3" }]); }
const isBig = (v) => v !== null && typeof v === "object" && !Array.isArray(v) && typeof v.$big === "string";
const revive = (v) => (isBig(v) ? BigInt(v.$big) : Array.isArray(v) ? v.map(revive) : v !== null && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, revive(x)])) : v);
function tree(r, d) { if (d === 0 || r.chance(2, 5)) return scalar(r); if (r.chance(2, 3)) return Array.from({ length: r.below(5) }, () => tree(r, d - 1)); const o = {}; for (let i = r.below(4); i > 0; i--) o[r.pick(["x", "y", "z0", "a b", "é", "k" + r.below(5)])] = tree(r, d - 1); return o; }
// a path that resembles p: shortened, with other separators, or with a part changed
function nearPath(r, p) { return r.pick([() => p.slice(p.lastIndexOf(".") + 1), () => p.slice(p.indexOf(".") + 1), () => p.slice(p.indexOf("]") + 1), () => p.replace(/[.[].*$/s, ""), () => p.replace(/[.[][^.[]*$/s, ""), () => p.replace(/\[\d+\]/, ""), () => p.replace(/\[\d+\]/g, ""), () => p.replace(/\[(\d+)\]/g, ".$1"), () => p.replace(/\[(\d+)\]/g, "_$1"), () => p.replace(/\]\[/g, ","), () => p.replace(/\./g, "["), () => p.replace(/\[(\d+)\]/, (m, d) => "[" + (Number(d) + 1) + "]"), () => p.replace(/\.([^.[]*)/g, "[$1]"), () => p + "[0]", () => p + ".x", () => "main." + p, () => p.toUpperCase(), () => p.trim(), () => p + " ", () => p.split(".").reverse().join(".")])(); }
function deep(r) { let v = tree(r, 2); for (let i = r.pick([3, 5, 6, 9, 17, 33, 60]); i > 0; i--) v = r.pick([() => [v], () => [v], () => [scalar(r), v], () => [v, scalar(r)], () => [[], v], () => ({ x: v }), () => ({ y: scalar(r), "k1": v })])(); return v; }
// arrays that are long, or rows that repeat
function rows(r, leaf) { const h = r.hint(20000), b = r.range(1, 5), a = h !== undefined ? (r.chance(1, 2) ? h : Math.floor(h / b) + 1) : r.range(1, 80), pool = Array.from({ length: r.range(1, 3) }, () => (b === 1 ? leaf(r) : Array.from({ length: b }, () => leaf(r)))); return Array.from({ length: a }, () => r.pick(pool)); }
function inputObj(r, d) { const o = {}; for (let i = r.below(6); i > 0; i--) { const s = r.hintStr(); o[s !== undefined && s !== "" && s !== "__proto__" ? s : r.pick(["a", "b", "in", "arr", "x.y", "arr[0]", "ä", "s" + r.below(6)])] = tree(r, d); } return o; }
function leaves(o) { const out = []; const go = (p, v) => { if (Array.isArray(v)) v.forEach((x, i) => go(`${p}[${i}]`, x)); else if (v !== null && typeof v === "object" ) for (const k of Object.keys(v)) go(p + "." + k, v[k]); else out.push([p, typeof v === "bigint" ? v.toString() : String(v)]); }; for (const k of Object.keys(o)) go(k, o[k]); return out; }
const c13 = { id: "C13", rule: "random input objects (arrays and objects nested to depth 4, all scalar kinds), random symbol maps over their paths and others, also with the keys reversed; non-trivial: a wire is set", budget: [20000, 300000],
  gen: (r, i) => { const o = inputObj(r, 4); if (r.chance(1, 100)) o.rows = rows(r, scalar); if (r.chance(1, 12)) o.deep = deep(r); const L = leaves(revive(o)); const paths = [...new Set(L.map((l) => l[0]))]; const mp = []; const used = new Set(); const wire = () => { let w; do w = r.below(Math.max(200, 2 * paths.length)); while (used.has(w)); used.add(w); return w; };
    for (const p of paths) if ((mp.length < 120 || paths.length > 200) && r.chance(3, 4)) mp.push([p, wire()]); for (let j = r.below(4); j > 0; j--) { const p = r.pick(["a", "b[0]", "in.x", "arr[1][0]", "arr", "zz", "a[0]", "x.y", "arr[0,1]", "arr.0", "arr[00]"]); if (!mp.some((x) => x[0] === p)) mp.push([p, wire()]); } if (r.chance(1, 2)) for (let j = r.range(1, 4); j > 0 && paths.length; j--) { const p = nearPath(r, r.pick(paths)); if (!paths.includes(p) && !mp.some((x) => x[0] === p)) mp.push([p, wire()]); } return { inputs: o, map: r.shuffle(mp) }; },
  check: async (c, m) => { const S = await sym(m); const o = revive(c.inputs), mp = new Map(c.map); let dup = false; const want = () => { dup = false; const w = new Map(); for (const [p, t] of leaves(o)) { if (mp.has(p)) { if (w.has(mp.get(p)) && w.get(mp.get(p)) !== t) dup = true; w.set(mp.get(p), t); } } return w; }; const w = want(); if (dup) return false; const rev = (v) => (v !== null && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).reverse().map(([k, x]) => [k, rev(x)])) : v);
    const norm = (g) => new Map([...g].map(([k, v]) => [k, Array.isArray(v) ? "array:" + v : typeof v === "string" ? v : typeof v + ":" + String(v)]));
    for (const inp of [o, rev(o)]) { const g = norm(S.mapInputsToWires(inp, mp)); if (mapStr(g) !== mapStr(w)) bad("wires set: " + mapStr(g) + ", should be " + mapStr(w)); }
    const g1 = S.mapInputsToWires(o, mp); for (const k of [...g1.keys()].slice(0, 1)) g1.delete(k); g1.set(100001, "1"); for (const k of Object.keys(o).slice(0, 1)) o[k] = Array.isArray(o[k]) && o[k].length ? [7777, ...o[k].slice(1)] : 7777; o.late = [3, 4]; for (const k of [...mp.keys()].slice(0, 1)) if (c.map.length % 2) mp.delete(k); mp.set("late[1]", 100000);
    const w2 = want(); if (!dup) { const g2 = norm(S.mapInputsToWires(o, mp)); if (mapStr(g2) !== mapStr(w2)) bad("asked again after the objects were changed by their owner, wires set: " + mapStr(g2) + ", should be " + mapStr(w2)); } return w.size > 0; } };

// ---- encap / encrypt
const zk = async (m) => m.zk || (m.zk = await m.u("dist/zkenc.js"));
const zk2 = async (m) => m.zk2 || (m.zk2 = await m.u("dist2/zkenc.js"));
function intVal(r) { const h = r.hint(Number.MAX_SAFE_INTEGER); if (h !== undefined) return h; const x = r.pick([0n, 1n, P, P - 1n, P + 1n, 2n * P, 2n * P + 3n, (1n << 256n) - 1n, 1n << 256n, (1n << 256n) + 5n, 1n << 64n, (1n << 64n) - 1n, (1n << 32n), 255n, 256n, 65536n, r.u64(), r.u64() * r.u64() * r.u64() * r.u64(), BigInt(r.below(100)), 1n << BigInt(8 * r.below(40))]); const v = r.chance(1, 5) ? -x : x;
  return r.chance(1, 4) && v > -9007199254740992n && v < 9007199254740992n ? Number(v) : r.chance(1, 4) ? { $big: String(v) } : r.chance(1, 8) && v >= 0n ? "0x" + v.toString(16) : String(v); }
function le(b) { let v = 0n; for (let i = b.length - 1; i >= 0; i--) v = (v << 8n) | BigInt(b[i]); return v; }
function ltree(r, d, leaf) { if (d === 0 || r.chance(1, 2)) return leaf(r); if (r.chance(4, 5)) return Array.from({ length: r.range(1, 4) }, () => ltree(r, d - 1, leaf)); const o = {}; for (let i = r.range(1, 3); i > 0; i--) o["k" + i] = ltree(r, d - 1, leaf); return o; }
const c14 = { id: "C14", rule: "random public input objects of integers (negative, above the order, above 2^256, hex, number, bigint), their .sym text with the wires in random order, gaps, private and foreign signals, once 150000 signals; the bytes handed to the core are decoded; non-trivial: at least one value", budget: [12000, 200000],
  gen: (r, i) => { if (i === 11) return { many: 150000, r1cs: "00", pad: 0 }; const o = {}; const keys = r.shuffle(["a", "b", "in", "arr", "root", "m"]).slice(0, r.below(5)); for (const k of keys) o[k] = ltree(r, 3, intVal); if (i === 7) o.big = Array.from({ length: 3000 }, () => intVal(r)); if (r.chance(1, 100)) o.rows = rows(r, intVal); const paths = leaves(revive(o)).map((l) => l[0]); r.shuffle(paths); const L = []; let w = 1;
    const gap = r.chance(1, 4) ? r.below(paths.length + 1) : -1; paths.forEach((p, j) => { if (j === gap) w++; L.push(`${w},${w},${r.below(9)},main.${p}`); w++; }); for (let j = r.below(5); j > 0; j--) { const q = paths.length && r.chance(1, 3) ? nearPath(r, r.pick(paths)) : ""; L.push(`${w},${w++},3,${q.trim() && !paths.includes(q.trim()) ? "main." + q : r.pick(["main.priv", "main.sub.x", "other.a", "main.c.out"]) + j}`); } if (r.chance(1, 3)) L.push(`${w},-1,3,main.unused`);
    r.shuffle(L); const nl = r.pick(["\n", "\n", "\r\n"]); return { inputs: o, sym: L.join(nl) + nl, r1cs: hx(r.bytes(r.below(40))), pad: r.below(5) }; },
  check: async (c, m) => { const Z = await zk(m); if (c.many) c = { ...c, inputs: { a: Array.from({ length: c.many }, (_, i) => i % 9) }, sym: Array.from({ length: c.many }, (_, i) => `${i + 1},${i + 1},1,main.a[${i}]\n`).join("") }; const o = revive(c.inputs); m.h.log.length = 0; m.h.ct = un("0102030405"); m.h.key = new Uint8Array(32).fill(7); const r1cs = view(un(c.r1cs), c.pad), files = { r1csBuffer: r1cs, symContent: c.sym }; let inp = o;
    if (c.pad === 3) { inp = { zz: [5, 6] }; files.r1csBuffer = view(un("00010203"), 1); files.symContent = "1,1,1,main.zz[0]\n2,2,1,main.zz[1]\n"; await Z.encap(files, inp); delete inp.zz; Object.assign(inp, o); files.r1csBuffer = r1cs; files.symContent = c.sym; m.h.log.length = 0; } // the same objects, now holding this case
    const res = await Z.encap(files, inp);
    const calls = m.h.log.filter((x) => x.f === "encap"); if (calls.length !== 1) bad("the core was called " + calls.length + " times"); const { wit: w, r1cs: got } = calls[0]; if (!eq(got, un(c.r1cs))) bad("another circuit was handed over"); if (!eq(res.ciphertext, m.h.ct) || !eq(res.key, m.h.key)) bad("the core's result was changed");
    const sm = new Map(); for (const [k, v] of symOracle(c.sym)) if (k.startsWith("main.")) sm.set(k.slice(5), v); const vals = new Map(); for (const [p, t] of leaves(o)) if (sm.has(p)) vals.set(sm.get(p), BigInt(t)); const want = [1n]; for (let i = 1; vals.has(i); i++) want.push(vals.get(i));
    const d = new DataView(w.buffer, w.byteOffset, w.length); const n = want.length; if (w.length !== 12 + 12 + 40 + 12 + 32 * n) bad("witness file of " + w.length + " bytes for " + n + " values");
    const hd = [Buffer.from(w.subarray(0, 4)).toString("latin1"), d.getUint32(4, true), d.getUint32(8, true), d.getUint32(12, true), d.getBigUint64(16, true), d.getUint32(24, true), le(w.subarray(28, 60)), d.getUint32(60, true), d.getUint32(64, true), d.getBigUint64(68, true)]; const ex = ["wtns", 2, 2, 1, 40n, 32, P, n, 2, BigInt(32 * n)];
    hd.forEach((x, i) => { if (x !== ex[i]) bad("header field " + i + " is " + x + ", should be " + ex[i]); }); for (let i = 0; i < n; i++) { const g = le(w.subarray(76 + 32 * i, 108 + 32 * i)); if (g !== ((want[i] % P) + P) % P) bad("wire " + i + " is " + g + ", should be " + want[i] + " modulo the order"); } return n > 1; } };
function pub(r, d = 3) { const o = {}; for (let i = r.below(5); i > 0; i--) { const s = r.hintStr(); o[s !== undefined && s !== "__proto__" ? s : r.pick(["a", "b", "root", "ключ", "", "0", "q\"", "😀"])] = (function t(d) { return d === 0 || r.chance(1, 2) ? r.pick([0, 1, -7, "12", "é\u2028", "e\u0301\u212b", "\ud800x", "\ufeff", true, null, "\u0000\"\\", "21888242871839275222246405745257275088548364400416034343698204186575808495617", 123456789012]) : r.chance(1, 2) ? Array.from({ length: r.below(4) }, () => t(d - 1)) : Object.fromEntries(Array.from({ length: r.below(3) }, (_, i) => ["n" + i, t(d - 1)])); })(d); } return o; }
const c15 = { id: "C15", rule: "random public inputs (any JSON, any Unicode), messages of length 0 to 70000, flags, witness ciphertext lengths 0 to 70000 and views at offsets: layout, decryption, extraction; then truncations and wrong lengths of the container; non-trivial: all", budget: [1500, 25000],
  gen: (r, i) => { const h = r.hint(70000); return { pub: i % 40 === 9 ? { ...pub(r), long: r.pick(["a", "é", "世", "😀"]).repeat(r.hint(100000) ?? r.pick([250, 260, 30000, 66000])), many: Array.from({ length: r.below(300) }, (_, i) => i) } : pub(r), msg: hx(r.bytes(msgLen(r, i))), incl: r.pick([true, true, false, "default"]), ct: hx(r.bytes(h !== undefined ? h : i % 20 === 3 ? r.range(60000, 70000) : r.pick([0, 1, 4, 5, 9, 255, 256, 300, r.below(600)]))), key: hx(r.bytes(32)), wtns: hx(r.bytes(r.below(90))), r1cs: hx(r.bytes(r.below(30))), pad: r.pick([0, 0, 1, 7, 64]), cut: Array.from({ length: 6 }, () => r.u32()) }; },
  check: async (c, m) => { const Z = await zk2(m), h = m.h; const msg = un(c.msg), key = un(c.key), ct = un(c.ct); h.ct = view(ct, c.pad); h.key = view(key, c.pad); h.wtns = un(c.wtns); h.log.length = 0; h.decapKey = undefined; const r1cs = view(un(c.r1cs), c.pad);
    const flag = c.incl !== false; const files = { r1csBuffer: r1cs, symContent: "1,1,1,main.zzz\n" }, args = [files, c.pub, view(msg, c.pad)];
    if (c.pad === 7) { const k = view(new Uint8Array(32).fill(9), 3), b = args[2], was = Uint8Array.from(b); b.fill(0x5a); files.r1csBuffer = view(un("000102"), 2); h.key = k; h.ct = un("0909"); const E0 = (await Z.encrypt(...args)).ciphertext; keep("the container", E0); b.set(was); files.r1csBuffer = r1cs; h.ct = view(ct, c.pad); h.key = view(key, c.pad); h.log.length = 0; } // the same objects and buffers, now holding this case
     if (c.incl !== "default") args.push({ includePublicInput: c.incl }); else if (c.cut[0] & 1) args.push({}); const res = await Z.encrypt(...args); const E = res.ciphertext;
    if (!eq(res.key, key)) bad("encrypt returns another key"); const enc = h.log.filter((x) => x.f === "encap"); if (enc.length !== 1 || !eq(enc[0].r1cs, un(c.r1cs))) bad("the circuit was not handed to the core once"); const js = Buffer.from(JSON.stringify(c.pub)); const dv = new DataView(E.buffer, E.byteOffset, E.length); let o = 5 + ct.length + (flag ? 4 + js.length : 0);
    if (E.length !== o + msg.length + 28) bad("container of " + E.length + " bytes, should be " + (o + msg.length + 28)); if (E[0] !== (flag ? 1 : 0)) bad("flag byte " + E[0]); if (dv.getUint32(1, false) !== ct.length || !eq(E.subarray(5, 5 + ct.length), ct)) bad("witness ciphertext part differs");
    if (flag && (dv.getUint32(5 + ct.length, false) !== js.length || !eq(E.subarray(9 + ct.length, o), js))) bad("public input part differs"); const got = open(key, Buffer.from(E.subarray(o))); if (got === undefined || !eq(got, msg)) bad("the sealed message part does not open to the message");
    // the other direction, from a container made here
    const u32 = (n) => { const b = Buffer.alloc(4); b.writeUInt32BE(n); return b; }; const mine = Buffer.concat([Buffer.from([flag ? 1 : 0]), u32(ct.length), ct, ...(flag ? [u32(js.length), js] : []), seal(key, nc.randomBytes(12), msg)]); const inputs = { x: "5", y: [1, 2] }, dfiles = { r1csBuffer: r1cs, wasmBuffer: un("0061736d") };
    if (c.pad === 7) { const f = dfiles.wasmBuffer; dfiles.wasmBuffer = un("00"); dfiles.r1csBuffer = un("11"); const k2 = new Uint8Array(32).fill(3), h0 = h.key; h.key = k2; const other = Buffer.concat([Buffer.from([0]), u32(2), Buffer.from([1, 2]), seal(k2, nc.randomBytes(12), Buffer.from("other"))]); inputs.x = "9"; const d0 = await Z.decrypt(dfiles, new Uint8Array(other), inputs); if (!eq(d0, Buffer.from("other"))) bad("decryption gives another message"); keep("the decrypted message", d0); inputs.x = "5"; h.key = h0; dfiles.r1csBuffer = r1cs; dfiles.wasmBuffer = f; }
    for (const cont of [view(mine, c.pad), E]) { h.log.length = 0; const out = await Z.decrypt(dfiles, cont, inputs); if (!eq(out, msg)) bad("decryption gives another message"); keep("the decrypted message", out); const w = h.log.filter((x) => x.f === "wtns"), dc = h.log.filter((x) => x.f === "decap"); if (w.length !== 1 || w[0].inputs !== JSON.stringify(inputs)) bad("the inputs were not handed to the witness calculator once, unchanged");
      if (dc.length !== 1 || !eq(dc[0].ct, ct) || !eq(dc[0].wit, h.wtns) || !eq(dc[0].r1cs, un(c.r1cs))) bad("decapsulation got another ciphertext, witness or circuit");
      if (flag) { const p = Z.getPublicInput(cont); if (JSON.stringify(p) !== JSON.stringify(c.pub)) bad("extracted public inputs " + JSON.stringify(p)); } else if (!(await fails(() => Z.getPublicInput(cont)))) bad("public inputs extracted that were not included"); }
    keep("the container", E); keptOk();
    if (flag && c.cut[5] % 3 === 0) { c.pub.late = [c.cut[0], { x: "y" }]; for (const k of Object.keys(c.pub).slice(0, 1)) if (c.cut[0] % 2) delete c.pub[k]; const E2 = (await Z.encrypt(...args)).ciphertext, js2 = Buffer.from(JSON.stringify(c.pub)); if (!eq(E2.subarray(9 + ct.length, 9 + ct.length + js2.length), js2) || E2.length !== 9 + ct.length + js2.length + msg.length + 28) bad("encrypting again after the public inputs were changed by their owner does not carry the changed ones"); keep("the container", E2); }
    // containers too short for what they state
    const D = (b) => fails(() => Z.decrypt({ r1csBuffer: r1cs, wasmBuffer: un("0061736d") }, view(b, c.pad), inputs)), G = (b) => fails(() => Z.getPublicInput(view(b, c.pad)));
    const cuts = new Set([0, 1, 4, 5, 4 + ct.length, 5 + ct.length, 8 + ct.length, 9 + ct.length, o - 1, o, o + 27, mine.length - 1, ...c.cut.map((x) => x % mine.length)].filter((n) => n >= 0 && n < mine.length));
    for (const n of cuts) { const b = mine.subarray(0, n); if (!(await D(b))) bad("decryption accepts a container cut to " + n + " of " + mine.length + " bytes"); if (flag && n < o && !(await G(b))) bad("extraction accepts a container cut to " + n + " of " + mine.length + " bytes");
      // the same cut as a view into a buffer that goes on with the rest of the container
      const whole = view(mine, c.pad), v = new Uint8Array(whole.buffer, whole.byteOffset, n); if (!(await fails(() => Z.decrypt({ r1csBuffer: r1cs, wasmBuffer: un("0061736d") }, v, inputs)))) bad("decryption reads past a view of " + n + " of " + mine.length + " bytes"); if (flag && n < o && !(await fails(() => Z.getPublicInput(v)))) bad("extraction reads past a view of " + n + " of " + mine.length + " bytes"); }
    const f1 = Buffer.from(mine); f1.writeUInt32BE(mine.length - 5 + 1 + (c.cut[1] % 1000), 1); if (!(await D(f1))) bad("decryption accepts a witness length past the end"); if (flag && !(await G(f1))) bad("extraction accepts a witness length past the end");
    const f3 = Buffer.from(mine); f3.writeUInt32BE(0xffffffff - (c.cut[3] % 20), 1); if (!(await D(f3))) bad("decryption accepts a huge witness length"); if (flag && !(await G(f3))) bad("extraction accepts a huge witness length");
    if (flag) { const f2 = Buffer.from(mine); f2.writeUInt32BE(mine.length - (9 + ct.length) + 1 + (c.cut[2] % 1000), 5 + ct.length); if (!(await D(f2))) bad("decryption accepts a public input length past the end"); if (!(await G(f2))) bad("extraction accepts a public input length past the end"); }
    return true; } };

// ---- witness calculator
function fnv(s) { let h = 0xcbf29ce484222325n; for (let i = 0; i < s.length; i++) { h ^= BigInt(s.charCodeAt(i)); h = (h * 0x100000001b3n) & ((1n << 64n) - 1n); } return [Number(h >> 32n), Number(h & 0xffffffffn)]; }
function limbs(v, n) { const a = []; for (let i = 0; i < n; i++) { a.push(Number(v & 0xffffffffn)); v >>= 32n; } return a; }
function fake(c, log) { const n32 = c.n32, mem = new Array(n32).fill(0), prime = limbs(BigInt(c.prime), n32), wit = c.wit.map((x) => limbs(BigInt(x), n32)); const sizes = new Map(c.sizes.map(([k, n]) => [fnv(k).join(","), [k, n]])); const set = new Set();
  return { getVersion: () => c.version, getMinorVersion: () => 0, getPatchVersion: () => 0, getFieldNumLen32: () => n32, getRawPrime: () => { prime.forEach((x, i) => (mem[i] = x)); }, readSharedRWMemory: (i) => { if (i < 0 || i >= n32) throw new Error("read outside"); return mem[i] | 0; }, writeSharedRWMemory: (i, v) => { if (i < 0 || i >= n32) throw new Error("write outside"); mem[i] = v >>> 0; },
    getWitnessSize: () => wit.length, getWitness: (i) => { if (!wit[i]) throw new Error("no such witness"); wit[i].forEach((x, j) => (mem[j] = x)); }, getInputSize: () => c.total, getInputSignalSize: (a, b) => { const e = sizes.get((a >>> 0) + "," + (b >>> 0)); return e ? e[1] : -1; }, getMessageChar: () => 0,
    init: (s) => { log.push(["init", s]); }, setInputSignal: (a, b, i) => { const e = sizes.get((a >>> 0) + "," + (b >>> 0)); if (!e) throw new Error("Signal not found"); if (i < 0 || i >= e[1]) throw new Error("index"); const k = e[0] + "/" + i; if (set.has(k)) throw new Error("Signal already set."); set.add(k); let v = 0n; for (let j = n32 - 1; j >= 0; j--) v = (v << 32n) | BigInt(mem[j]); log.push(["set", e[0], i, v]); } }; }
// WebAssembly replaced: `of` gives the exports for the code bytes; every way to compile and to instantiate
function wasm(of, wait = async () => {}) { const keep = ["compile", "instantiate", "Module", "Instance", "validate"].map((k) => [k, WebAssembly[k]]); const src = (x) => x instanceof ArrayBuffer || ArrayBuffer.isView(x), bytes = (x) => Uint8Array.from(x instanceof ArrayBuffer ? new Uint8Array(x) : new Uint8Array(x.buffer, x.byteOffset, x.byteLength));
  class Module { constructor(x) { this.code = bytes(x); } } class Instance { constructor(mod) { this.exports = of(mod.code); } }
  Object.assign(WebAssembly, { Module, Instance, validate: () => true, compile: (x) => { const mod = new Module(x); return wait().then(() => mod); }, instantiate: (x) => { const both = src(x), mod = both ? new Module(x) : x; return wait().then(() => { const instance = new Instance(mod); return both ? { module: mod, instance } : instance; }); } });
  return () => { for (const [k, v] of keep) WebAssembly[k] = v; }; }
const flat = (v) => (Array.isArray(v) ? v.flatMap(flat) : [v]);
const c26 = { id: "C26", rule: "fake circuit modules with 1 to 12 limbs, any prime, witness size 0 to 60 and input signals, fed nested inputs (negative, above the prime, hex), also too few, too many and unknown; both calculator sources through a patched WebAssembly; the emitted file is decoded; non-trivial: a witness is emitted or refused", budget: [5000, 80000],
  gen: (r, i) => { if (i === 0) return { real: true }; const n32 = r.pick([1, 2, 3, 4, 8, 8, 8, 12, r.range(1, 16)]); const max = (1n << BigInt(32 * n32)) - 1n; const rnd = (m) => { let v = 0n; for (let j = 0; j < n32; j++) v = (v << 32n) | BigInt(r.chance(1, 4) ? r.pick([0, 0xffffffff, 0x80000000, 1]) : r.u32()); return v % m; };
    const prime = n32 === 8 && r.chance(1, 2) ? P : rnd(max) + 2n > max ? max : rnd(max - 1n) + 2n; const sizes = [], inputs = {}; let total = 0; const val = () => { const v = r.pick([0n, 1n, prime - 1n, prime, prime + 1n, rnd(prime), rnd(prime), rnd(prime) + prime * BigInt(r.below(5)), max]); const s = r.chance(1, 4) ? -v : v; const h = r.hint(Number.MAX_SAFE_INTEGER); return h !== undefined ? h : s > -9007199254740992n && s < 9007199254740992n && r.chance(1, 2) ? Number(s) : r.chance(1, 3) ? { $big: String(s) } : r.chance(1, 6) && s >= 0n ? "0x" + s.toString(16) : String(s); };
    const hs = r.hintStr(); const names = r.shuffle(["a", "in", "root", "x", "long_signal_name_0", "A", "é", "Ł𝒳", "k" + r.below(1000), ...(hs && !["a", "in", "root", "x", "long_signal_name_0", "A", "é"].includes(hs) && !/^k\d+$/.test(hs) ? [hs] : [])]).slice(0, r.below(5)); while (r.chance(1, 3) && names.length < 8) { const b = r.pick(["long_signal_name_0", "root", "merkle_path_elements_left_node_number_31", ...names]), j = r.below(b.length), t = b.slice(0, j) + r.pick(["_", "0", "z", b[j] + b[j]]) + b.slice(j + 1); if (t && !names.includes(t)) names.push(t); } const shape = (n) => { if (n === 1 && r.chance(2, 3)) return val(); const v = Array.from({ length: n }, val); if (n >= 4 && r.chance(1, 2)) { const k = r.range(1, n - 1); return [v.slice(0, k), [v.slice(k)]]; } if (r.chance(1, 4)) { const nest = (x, d) => { if (d <= 0) return x; const k = x.length > 2 && r.chance(1, 3) ? r.range(1, x.length - 1) : 0; const y = nest(x.slice(k), d - 1); return k ? (r.chance(1, 2) ? [...x.slice(0, k), y] : [x.slice(0, k), y]) : r.chance(1, 6) ? [[], y] : [y]; }; return nest(v, r.pick([2, 3, 4, 5, 8, 12, 30])); } return v; };
    for (const k of names) { if (k === "__proto__") continue; const n = r.chance(1, 60) ? (r.hint(5000) || r.range(10, 400)) : r.pick([1, 1, 2, 3, 5, 9]); sizes.push([k, n]); total += n; inputs[k] = shape(n); }
    let wrong = null; if (i % 5 === 2 && names.length) { const k = r.pick(Object.keys(inputs).concat("zz")); wrong = r.pick(["few", "many", "missing", "unknown"]); if (inputs[k] === undefined || wrong === "unknown") { inputs["no such signal"] = 1; wrong = "unknown"; } else { const n = sizes.find((s) => s[0] === k)[1]; if (wrong === "few") inputs[k] = Array.from({ length: n - 1 }, val); else if (wrong === "many") inputs[k] = Array.from({ length: n + r.range(1, 3) }, val); else delete inputs[k]; } }
    return { n32, prime: String(prime), version: 2, sizes, total, inputs, wrong, sanity: r.chance(1, 2), opt: r.chance(1, 3), wit: Array.from({ length: r.hint(60) ?? r.pick([0, 1, 2, 5, r.below(60)]) }, () => String(r.chance(1, 5) ? r.pick([0n, 1n, max, max - 1n, prime - 1n, 0x80000000n]) & max : rnd(max))) }; },
  check: async (c, m) => { const W = await m.u("dist/witness.js"), WC = await m.u("dist/witness_calculator.js");
    if (c.real) { const R = "/repo/packages/zkenc-cli/tests/"; for (const [n, v] of [["sudoku", "basic"], ["sudoku", "general"], ["signature", "basic"], ["signature", "general"], ["signature", "boundary"]]) { const f = [R + "r1cs/" + n + ".wasm", R + "inputs/" + n + "_" + v + ".json", R + "inputs/" + n + "_" + n + "_" + v + ".wtns"]; if (!f.every((x) => fs.existsSync(x))) continue; const out = await W.calculateWitness(new Uint8Array(fs.readFileSync(f[0])), JSON.parse(fs.readFileSync(f[1], "utf8"))); if (!eq(out, fs.readFileSync(f[2]))) bad("the witness of " + n + " " + v + " is not the reference witness"); } return true; }
    const n32 = c.n32, prime = BigInt(c.prime), n8 = 4 * n32; const inputs = revive(c.inputs); const wantSet = []; for (const k of Object.keys(inputs)) flat(inputs[k]).forEach((v, i) => wantSet.push([k, i, ((BigInt(v) % prime) + prime) % prime]));
    const B = Buffer.alloc(12 + 12 + 4 + n8 + 4 + 12 + n8 * c.wit.length); let p = 0; const u32 = (x) => { B.writeUInt32LE(x, p); p += 4; }, u64 = (x) => { B.writeBigUInt64LE(BigInt(x), p); p += 8; }, big = (v) => { v = BigInt(v); for (let i = 0; i < n8; i++) { B[p++] = Number(v & 255n); v >>= 8n; } };
    B.write("wtns", 0, "latin1"); p = 4; u32(2); u32(2); u32(1); u64(8 + n8); u32(n8); big(prime); u32(c.wit.length); u32(2); u64(n8 * c.wit.length); for (const w of c.wit) big(w);
    const run = async (label, f, on = false) => { const log = []; let out, err; const ex = fake(c, log); try { out = await f(ex); } catch (e) { err = e; }
      if (c.wrong) { if (!err) bad(label + ": accepts inputs with " + ({ few: "too few values", many: "too many values", missing: "a missing signal", unknown: "an unknown signal" })[c.wrong]); return; }
      if (err) bad(label + ": refuses the inputs: " + err); const sets = log.filter((x) => x[0] === "set"); if (log[0][0] !== "init" || log.filter((x) => x[0] === "init").length !== 1) bad(label + ": not initialised once, first"); if (on !== null && !!log[0][1] !== !!on) bad(label + ": the module's sanity checks are " + (on ? "off though asked for" : "on though nobody asked"));
      if (sets.length !== wantSet.length) bad(label + ": " + sets.length + " values fed, should be " + wantSet.length); const key = (s) => s[0] + "/" + s[1]; const by = new Map(sets.map((s) => [s[1] + "/" + s[2], s[3]])); for (const w of wantSet) if (by.get(key(w)) !== w[2]) bad(label + ": " + w[0] + "[" + w[1] + "] is fed " + by.get(key(w)) + ", should be " + w[2]); return out; };
    const builder = (src) => async (ex) => { const undo = wasm(() => ex); try { return await src(); } finally { undo(); } };
    const inst = (ex) => new WC.WitnessCalculator({ exports: ex }, c.opt);
    let o = await run("calculateWTNSBin", (ex) => inst(ex).calculateWTNSBin(inputs, c.sanity), c.sanity || c.opt); if (o && !eq(o, B)) bad("calculateWTNSBin: " + hx(o).slice(0, 400) + " should be " + hx(B).slice(0, 400));
    o = await run("calculateWitness", async (ex) => { const w = inst(ex); if (w.prime !== prime || w.n32 !== n32 || w.witnessSize !== c.wit.length) bad("the module's prime, width or witness size is misread: " + w.prime); return w.calculateWitness(inputs, c.sanity); }, c.sanity || c.opt); if (o && (o.length !== c.wit.length || o.some((x, i) => x !== BigInt(c.wit[i])))) bad("calculateWitness gives " + o);
    o = await run("calculateBinWitness", (ex) => inst(ex).calculateBinWitness(inputs, c.sanity), c.sanity || c.opt); if (o && !eq(o, B.subarray(B.length - n8 * c.wit.length))) bad("calculateBinWitness differs");
    o = await run("calculateWitness (package)", builder(() => W.calculateWitness(new Uint8Array(8), inputs))); if (o && !eq(o, B)) bad("the package's calculateWitness gives another file"); keep("the witness file", o); keptOk();
    o = await run("calculateWitnessArray (package)", builder(() => W.calculateWitnessArray(new Uint8Array(8), inputs))); if (o && (o.length !== c.wit.length || o.some((x, i) => x !== BigInt(c.wit[i])))) bad("calculateWitnessArray gives " + o);
    const cj = path.join(m.dir, "cjs/witness_calculator.cjs"); if (fs.existsSync(cj)) { const b = createRequire(import.meta.url)(cj); o = await run("witness_calculator.js", builder(async () => (await b(new Uint8Array(8))).calculateWTNSBin(inputs, c.sanity)), null); if (o && !eq(o, B)) bad("witness_calculator.js: calculateWTNSBin differs"); }
    return true; } };
// several calls in one process: the same code bytes in other buffers, other code in the same buffer, overlapping calls
const c26h = { id: "C26", rule: "2 to 8 witness calculations over 1 to 3 codes whose buffers are shared and changed in place, waited for or overlapping, the outputs depending on the code and the inputs; non-trivial: all", budget: [2500, 40000],
  gen: (r) => { const len = r.pick([8, 8, 64, 2000]), code = r.bytes(len); const codes = [hx(code)]; for (let i = r.below(3); i > 0; i--) { const c = Uint8Array.from(code); c[r.pick([0, len - 1, r.below(len)])] ^= 1 << r.below(8); codes.push(hx(c)); }
    return { codes, n32: r.pick([1, 2, 8]), n: r.range(1, 4), nw: r.range(1, 40), ops: Array.from({ length: r.range(2, 8) }, () => ({ c: r.below(3), v: Array.from({ length: 4 }, () => r.below(r.pick([3, 1000000]))), buf: r.pick(["own", "own", "shared", "copy"]), obj: r.chance(1, 3), arr: r.chance(1, 5), cls: r.chance(1, 4), wait: r.chance(2, 3), t: [r.below(4), r.below(4)] })) }; },
  check: async (c, m) => { const W = await m.u("dist/witness.js"), WC = await m.u("dist/witness_calculator.js"), insts = []; const prime = [(1n << 31n) - 1n, (1n << 61n) - 1n, P][[1, 2, 8].indexOf(c.n32)], codes = c.codes.map(un), own = codes.map((x) => Uint8Array.from(x)), shared = Uint8Array.from(codes[0]), obj = {}, ts = []; let left = 0, run = [];
    const salt = (b) => BigInt("0x" + nc.createHash("md5").update(b).digest("hex")) % prime, wit = (b, v) => { const s = salt(b); return Array.from({ length: c.nw }, (_, j) => j === 0 ? 1n : (s * BigInt(j) + v.reduce((a, x, i) => a + BigInt(x) * BigInt(i + 2 + j), 0n)) % prime); };
    const of = (code) => { const log = [], cc = { n32: c.n32, prime, wit: [], sizes: [["a", c.n]], total: c.n, version: 2 }; let ex = fake(cc, log), mem = fake(cc, log); const E = {}; for (const k of Object.keys(ex)) E[k] = (...a) => ex[k](...a); let vals = [];
      E.init = (x) => { ex = fake(cc, log); log.length = 0; ex.init(x); vals = []; }; E.setInputSignal = (a, b, i) => { ex.setInputSignal(a, b, i); vals[i] = log[log.length - 1][3]; }; E.getWitnessSize = () => c.nw; E.getWitness = (i) => { if (vals.filter((x) => x !== undefined).length !== c.n) throw new Error("inputs missing"); limbs(wit(code, vals)[i], c.n32).forEach((x, j) => ex.writeSharedRWMemory(j, x)); }; return E; };
    const undo = wasm(of, async () => { for (let i = ts[left++ % Math.max(1, ts.length)] || 0; i > 0; i--) await null; });
    try { for (const o of c.ops) { const k = o.c % codes.length; ts.push(...o.t); const flush = async () => { const all = run; run = []; for (const p of all) await p; keptOk(); }; let b = own[k], inp = { a: o.v.slice(0, c.n) };
        if (o.buf === "shared") { await flush(); shared.set(codes[k]); b = shared; } else if (o.buf === "copy") b = Uint8Array.from(codes[k]); if (o.obj) { await flush(); obj.a = inp.a; inp = obj; }
        const v = o.v.slice(0, c.n), want = wit(codes[k], v); if (o.cls) await flush(); const inst = o.cls ? (insts[k] = insts[k] || new WC.WitnessCalculator({ exports: of(codes[k]) }, false)) : null; const p = (inst ? (o.arr ? inst.calculateWitness(inp) : inst.calculateWTNSBin(inp)) : o.arr ? W.calculateWitnessArray(b, inp) : W.calculateWitness(b, inp)).then((g) => { if (o.arr) { if (g.length !== c.nw || g.some((x, i) => x !== want[i])) bad("calculateWitnessArray gives the witness of other code or inputs: " + g); return; }
          const n8 = 4 * c.n32; if (g.length !== 44 + n8 + n8 * c.nw) bad("the witness file has " + g.length + " bytes"); for (let i = 0; i < c.nw; i++) { const x = le(g.subarray(44 + n8 + n8 * i, 44 + n8 + n8 * (i + 1))); if (x !== want[i]) bad("wire " + i + " is " + x + ", the code and inputs of this call give " + want[i]); } keep("the witness file", g); }); p.catch(() => {}); run.push(p); if (o.wait || o.cls) await flush(); }
      for (const p of run) await p; keptOk(); } finally { undo(); } return true; } };
// ---- module loading and concurrent calls
const sha = (...p) => { const d = nc.createHash("sha256"); for (const x of p) { const b = typeof x === "string" ? Buffer.from(x) : Buffer.from(x); d.update(String(b.length) + ":"); d.update(b); } return new Uint8Array(d.digest()); };
/** n turns of the microtask queue, or of the event loop */
async function turns([n, big]) { for (let i = 0; i < n; i++) { if (big) await new Promise((f) => setImmediate(f)); else await null; } }
const c30 = { id: "C30", rule: "1 to 7 calls of encap, decap, encrypt and decrypt on a freshly loaded package, started 0 to 12 turns apart while init() and the witness calculation take 0 to 12 turns each and the first attempts of init() may fail; each result is compared with what that call gives alone; non-trivial: at least two calls", budget: [700, 12000],
  gen: (r, i) => { const turn = () => [r.pick([0, 0, 1, 2, 3, r.below(12)]), r.chance(1, 2)]; return { init: [turn(), turn(), turn()], failing: i % 3 === 2 ? r.range(1, 3) : 0, late: r.chance(1, 2), n: i, ops: Array.from({ length: i === 0 ? 1 : r.range(1, 7) }, (_, k) => ({ f: r.pick(["encap", "encap", "decap", "encrypt", "decrypt"]), at: turn(), slow: turn(), msg: hx(r.bytes(r.below(40))), v: r.below(1000000), tag: hx(r.bytes(r.range(1, 9))), incl: r.chance(1, 2) })) }; },
  check: async (c, m) => { const h = m.h, root = path.join(m.dir, "fresh"); fs.rmSync(root, { recursive: true, force: true }); const at = path.join(root, "n" + (m.fresh = (m.fresh || 0) + 1)); fs.cpSync(path.join(m.dir, "dist2"), path.join(at, "dist2"), { recursive: true }); fs.cpSync(path.join(m.dir, "pkg"), path.join(at, "pkg"), { recursive: true }); fs.writeFileSync(path.join(at, "package.json"), JSON.stringify({ type: "module" }));
    const wrong = []; let starts = 0, flying = 0, done = 0, failed = 0; const slowOf = new Map();
    const core = (what) => { if (!done) wrong.push(what + " was called before init() had completed"); };
    h.on = { init: async () => { const k = starts++; if (flying) wrong.push("init() was started again while a call of it was running"); if (done) wrong.push("init() was started again after it had completed"); flying++; await turns(c.init[k % 3]); flying--; if (k < c.failing) { failed++; throw new Error("not loaded"); } done++; },
      encap: (r1cs, wit) => { core("wasm_encap"); return { ciphertext: sha("ct", r1cs, wit), key: sha("key", r1cs, wit) }; }, decap: (r1cs, wit, ct) => { core("wasm_decap"); return sha("dk", r1cs, wit, ct); },
      wtns: async (code, inputs) => { await turns(slowOf.get(hx(code)) || [0, false]); return sha("w", code, JSON.stringify(inputs)); } };
    try { const Z = await import("file://" + path.join(at, "dist2/zkenc.js"));
      const call = async (o, k) => { await turns(o.at); const r1cs = un(o.tag + (k < 10 ? "0" : "") + k), wasm = un("0061736d" + o.tag + (k < 10 ? "0" : "") + k), inputs = { x: String(o.v), y: [k] }, ct = sha("c", r1cs), msg = un(o.msg); slowOf.set(hx(wasm), o.slow);
        const wk = sha("dk", r1cs, sha("w", wasm, JSON.stringify(inputs)), ct);
        if (o.f === "encap" || o.f === "encrypt") { const v = Buffer.alloc(32); v.writeUInt32LE(o.v, 0); const H = Buffer.alloc(76); H.write("wtns", 0, "latin1"); [[4, 2], [8, 2], [12, 1], [16, 40], [24, 32], [60, 2], [64, 2], [68, 64]].forEach(([p, x]) => H.writeUInt32LE(x, p)); let q = P; for (let i = 0; i < 32; i++) { H[28 + i] = Number(q & 255n); q >>= 8n; } const one = Buffer.alloc(32); one[0] = 1; const wit = Buffer.concat([H, one, v]);
          const files = { r1csBuffer: r1cs, symContent: "1,1,1,main.x\n" }, wantCt = sha("ct", r1cs, wit), key = sha("key", r1cs, wit);
          if (o.f === "encap") { const res = await Z.encap(files, { x: String(o.v) }); return () => { if (!eq(res.ciphertext, wantCt) || !eq(res.key, key)) bad("encap number " + k + " gives another result than alone"); }; }
          const res = await Z.encrypt(files, { x: String(o.v) }, msg, { includePublicInput: o.incl }); return () => { const E = res.ciphertext, js = Buffer.from(JSON.stringify({ x: String(o.v) })), off = 5 + wantCt.length + (o.incl ? 4 + js.length : 0); const got = eq(res.key, key) && E[0] === (o.incl ? 1 : 0) && eq(E.subarray(5, 5 + wantCt.length), wantCt) && (!o.incl || eq(E.subarray(9 + wantCt.length, off), js)) ? open(Buffer.from(key), Buffer.from(E.subarray(off))) : undefined; if (got === undefined || !eq(got, msg)) bad("encrypt number " + k + " gives another result than alone"); }; }
        if (o.f === "decap") { const res = await Z.decap({ r1csBuffer: r1cs, wasmBuffer: wasm }, ct, inputs); return () => { if (!eq(res, wk)) bad("decap number " + k + " gives another key than alone"); }; }
        const n4 = Buffer.alloc(4); n4.writeUInt32BE(ct.length, 0); const res = await Z.decrypt({ r1csBuffer: r1cs, wasmBuffer: wasm }, Uint8Array.from(Buffer.concat([Buffer.from([0]), n4, ct, seal(wk, nc.randomBytes(12), msg)])), inputs); return () => { if (!eq(res, msg)) bad("decrypt number " + k + " gives another message than alone"); }; };
      const all = async (ops, from) => { const rs = await Promise.allSettled(ops.map((o, k) => call(o, from + k))); for (let i = 0; i < rs.length; i++) { const x = rs[i]; if (x.status === "fulfilled") x.value(); else if (!failed) bad(ops[i].f + " number " + (from + i) + " fails: " + x.reason); } if (wrong.length) bad(wrong[0]); if (ops.length && rs.some((x) => x.status === "fulfilled") && !done) bad("a call succeeded though init() never completed"); };
      await all(c.ops, 0); if (c.late) await all(c.ops.map((o) => ({ ...o, at: [0, false] })), c.ops.length); if (wrong.length) bad(wrong[0]); if (!failed && starts !== 1) bad("init() was started " + starts + " times"); return c.ops.length > 1;
    } finally { h.on = undefined; } } };
export const suites = [c01, c01h, c02, c02h, c03, c09, c10, c13, c14, c15, c26, c26h, c30];
