T = "packages/zkenc-js/src/"
H = '''globalThis.__zk = { log: [], ct: new Uint8Array([9, 8, 7]), key: new Uint8Array(32).fill(5) };
const h = globalThis.__zk; const Z = await import("./dist/zkenc.js"), S = await import("./dist/sym_parser.js"), C = await import("./dist/crypto.js"), W = await import("./dist/witness_calculator.js");
const ok = (c, m) => { if (!c) { console.error("FAIL", m); process.exit(1); } };
const eq = (a, b, m) => ok(JSON.stringify(a, (k, v) => typeof v === "bigint" ? String(v) : v) === JSON.stringify(b, (k, v) => typeof v === "bigint" ? String(v) : v), m + ": " + a + " / " + b);
const rejects = async (f, m) => { let e = null; try { await f(); } catch (x) { e = x; } ok(e, m); };
const sym = (n) => n.map((x, i) => `${i + 1},${i + 1},0,main.${x}`).join("\\n");
'''
WASM = '''
// a hand-made circuit module: n32 = 2, prime 2^61 - 1 written as limbs; signals by fnv hash
import fs from "node:fs";
'''
SEEDS = [
 dict(id="C14-a", property="C14", kind="ts", needs="a public input above 2^53",
  breaks="values lose their low bits by passing through a double",
  edits=[(T+"zkenc.ts", "      witnessArray.push(BigInt(valueStr));", "      witnessArray.push(BigInt(Number(valueStr)));")],
  demo=H + '''await Z.encap({ r1csBuffer: new Uint8Array(1), symContent: sym(["a", "b"]) }, { a: "12", b: "9007199254740993" });
const w = h.log[0].wit; const v = (i) => { let r = 0n; for (let k = 31; k >= 0; k--) r = r * 256n + BigInt(w[76 + 32 * i + k]); return r; };
eq(v(1), 12n, "a"); eq(v(2), 9007199254740993n, "b");'''),
 dict(id="C14-b", property="C14", kind="ts", needs="more than 255 public values",
  breaks="the count of values in the header is written as one byte",
  edits=[(T+"zkenc.ts", "  view.setUint32(offset, witness.length, true);", "  view.setUint8(offset, witness.length);")],
  demo=H + '''const n = 300, names = [...Array(n).keys()].map(i => "s" + i), inp = {}; names.forEach((x, i) => inp[x] = i);
await Z.encap({ r1csBuffer: new Uint8Array(1), symContent: sym(names) }, inp);
const w = h.log[0].wit; eq(new DataView(w.buffer).getUint32(60, true), n + 1, "count"); eq(w.length, 76 + 32 * (n + 1), "length");'''),
 dict(id="C15-a", property="C15", kind="ts", needs="a container that is a view at a non-zero offset of a larger buffer",
  breaks="lengths are read from the start of the underlying buffer instead of the container",
  edits=[(T+"zkenc.ts", "  const view = new DataView(ciphertext.buffer, ciphertext.byteOffset);\n  let offset = 0;\n\n  // Read flag\n  const flag = view.getUint8(offset);\n  offset += 1;\n\n  if (flag", "  const view = new DataView(ciphertext.buffer);\n  let offset = 0;\n\n  // Read flag\n  const flag = view.getUint8(offset);\n  offset += 1;\n\n  if (flag")],
  demo=H + '''const { ciphertext } = await Z.encrypt({ r1csBuffer: new Uint8Array(1), symContent: sym(["a"]) }, { a: 3, t: "é" }, new Uint8Array([1, 2, 3]));
const big = new Uint8Array(ciphertext.length + 40).fill(0xee); big.set(ciphertext, 17);
eq(Z.getPublicInput(ciphertext), { a: 3, t: "é" }, "plain"); eq(Z.getPublicInput(big.subarray(17, 17 + ciphertext.length)), { a: 3, t: "é" }, "view");'''),
 dict(id="C15-b", property="C15", kind="ts", needs="public inputs whose JSON text has characters outside ASCII",
  breaks="the public input length counts UTF-16 units instead of bytes",
  edits=[(T+"zkenc.ts", "    view.setUint32(offset, publicInputBytes.length, false);", "    view.setUint32(offset, JSON.stringify(publicInputs).length, false);")],
  demo=H + '''for (const p of [{ a: 1 }, { a: 3, t: "é漢😀" }]) { const { ciphertext } = await Z.encrypt({ r1csBuffer: new Uint8Array(1), symContent: sym(["a"]) }, p, new Uint8Array([1, 2, 3]));
let g; try { g = Z.getPublicInput(ciphertext); } catch (e) { g = String(e); } eq(g, p, "public inputs"); }'''),
 dict(id="C15-c", property="C15", kind="ts", needs="a container whose public input length runs past its end, with bytes behind the container in the same buffer",
  breaks="public input extraction reads bytes that are not part of the container",
  edits=[(T+"zkenc.ts", "  if (ciphertext.length < offset + publicInputLength) {", "  if (view.byteLength < offset + publicInputLength) {"), (T+"zkenc.ts", "  const publicInputBytes = ciphertext.slice(offset, offset + publicInputLength);", "  const publicInputBytes = new Uint8Array(\n    view.buffer,\n    view.byteOffset + offset,\n    publicInputLength\n  );")],
  demo=H + '''const { ciphertext } = await Z.encrypt({ r1csBuffer: new Uint8Array(1), symContent: sym(["a"]) }, { a: 3 }, new Uint8Array([1]));
eq(Z.getPublicInput(ciphertext), { a: 3 }, "whole");
const cut = 1 + 4 + 3 + 4 + 5; await rejects(async () => Z.getPublicInput(ciphertext.subarray(0, cut)), "cut view must be rejected");'''),
 dict(id="C13-a", property="C13", kind="ts", needs="an input value of 1e21 or more given as a number, or a boolean false / zero leaf",
  breaks="leaves that are falsy (0, false, empty text) set no wire",
  edits=[(T+"sym_parser.ts", "      if (wireId !== undefined) {", "      if (wireId !== undefined && value) {")],
  demo=H + '''const m = S.mapInputsToWires({ a: 0, b: [false, 5], c: { d: 0n } }, new Map([["a", 1], ["b[0]", 2], ["b[1]", 3], ["c.d", 4]]));
eq([...m].sort(), [[1, "0"], [2, "false"], [3, "5"], [4, "0"]], "wires");'''),
 dict(id="C13-b", property="C13", kind="ts", needs="objects nested three deep",
  breaks="only the innermost two keys make up the name of a nested leaf",
  edits=[(T+"sym_parser.ts", "        flattenInput(nestedKey, nestedValue, fullKey);", "        flattenInput(nestedKey, nestedValue, key);")],
  demo=H + '''const m = S.mapInputsToWires({ a: { b: { c: 7 } }, x: { y: 8 } }, new Map([["a.b.c", 1], ["b.c", 2], ["x.y", 3]])); eq([...m].sort(), [[1, "7"], [3, "8"]], "wires");'''),
 dict(id="C10-b", property="C10", kind="ts", needs="a maximum wire number of 0",
  breaks="a bound of 0 is taken for no bound",
  edits=[(T+"sym_parser.ts", "    if (maxWireId !== undefined && wireId > maxWireId) {", "    if (maxWireId && wireId > maxWireId) {")],
  demo=H + '''const m = new Map([["main.a", 0], ["main.b", 1], ["main.c", 2]]); eq([...S.getInputSignals(m, 1)], [["a", 0], ["b", 1]], "max 1"); eq([...S.getInputSignals(m, 0)], [["a", 0]], "max 0");'''),
 dict(id="C09-c", property="C09", kind="ts", needs="a wire number with a leading zero or in the wire 0 position",
  breaks="wire 0 is left out of the map",
  edits=[(T+"sym_parser.ts", "    if (wireId >= 0) {", "    if (wireId > 0) {")],
  demo=H + '''eq([...S.parseSymFile("1,0,0,main.one\\r\\n2,2,0,main.b\\r\\n3,-1,0,main.c\\r\\n")].sort(), [["main.b", 2], ["main.one", 0]], "map");'''),
 dict(id="C01-b", property="C01", kind="ts", needs="a message that is a view into a larger buffer",
  breaks="the whole underlying buffer is sealed instead of the message",
  edits=[(T+"crypto.ts", "    data as BufferSource\n  );", "    data.buffer as BufferSource\n  );")],
  demo=H + '''const k = new Uint8Array(32).fill(3), b = new Uint8Array(100).map((_, i) => i);
for (const m of [b, b.subarray(10, 20)]) { const e = await C.aesGcmEncrypt(k, m); eq(e.length, m.length + 28, "length"); eq([...await C.aesGcmDecrypt(k, e)], [...m], "message"); }'''),
 dict(id="C03-c", property="C03", kind="ts", needs="more than one sealing by the JavaScript library",
  breaks="the nonce buffer is filled once per module and reused",
  edits=[(T+"crypto.ts", "  const nonce = crypto.getRandomValues(new Uint8Array(12));", "  const nonce = (sessionNonce ??= crypto.getRandomValues(new Uint8Array(12)));"), (T+"crypto.ts", "export async function aesGcmEncrypt(", "let sessionNonce: Uint8Array<ArrayBuffer> | undefined;\n\nexport async function aesGcmEncrypt(")],
  demo=H + '''const k = new Uint8Array(32).fill(3), a = await C.aesGcmEncrypt(k, k), b = await C.aesGcmEncrypt(k, k); ok(String(a.slice(0, 12)) !== String(b.slice(0, 12)), "nonce reused");'''),
 dict(id="C26-a", property="C26", kind="ts", needs="negative inputs",
  breaks="negative inputs are not brought into the field range",
  edits=[(T+"witness_calculator.ts", "  if (res < 0) res += prime;\n", "  if (res < 0) res = -res;\n")],
  demo=H + '''const n32 = 2, prime = 1000003n, log = []; let mem = [0, 0];
const limbs = (v) => [Number(v & 0xffffffffn), Number(v >> 32n)];
const exports = { getFieldNumLen32: () => n32, getRawPrime: () => { mem = limbs(prime); }, readSharedRWMemory: (j) => mem[j], writeSharedRWMemory: (j, v) => { mem[j] = v >>> 0; }, getWitnessSize: () => 1, getVersion: () => 2, init() {}, getInputSignalSize: () => 2, getInputSize: () => 2,
 setInputSignal: (a, b, i) => log.push(BigInt(mem[0]) + (BigInt(mem[1]) << 32n)), getWitness: () => { mem = [1, 0]; } };
const oc = WebAssembly.compile, oi = WebAssembly.instantiate; WebAssembly.compile = async () => ({}); WebAssembly.instantiate = async () => ({ exports });
const w = await (W.default)(new Uint8Array(1)); await w.calculateWTNSBin({ a: [-5, "7"] });
eq(log, [prime - 5n, 7n], "inputs");'''),
 dict(id="C26-b", property="C26", kind="ts", needs="a circuit module with more than one witness element and a witness section of 2^32 bytes is not needed: any header check",
  breaks="the length of the witness section is written in words instead of bytes",
  edits=[(T+"witness_calculator.ts", "    const idSection2length = n8 * this.witnessSize;", "    const idSection2length = this.n32 * 4 * (this.witnessSize & 0xff);")],
  demo=H + '''const n32 = 2, prime = 1000003n; let mem = [0, 0];
const limbs = (v) => [Number(v & 0xffffffffn), Number(v >> 32n)];
for (const size of [3, 300]) { const exports = { getFieldNumLen32: () => n32, getRawPrime: () => { mem = limbs(prime); }, readSharedRWMemory: (j) => mem[j], writeSharedRWMemory: (j, v) => { mem[j] = v >>> 0; }, getWitnessSize: () => size, getVersion: () => 2, init() {}, getInputSignalSize: () => 1, getInputSize: () => 1, setInputSignal() {}, getWitness: (i) => { mem = [i, 0]; } };
WebAssembly.compile = async () => ({}); WebAssembly.instantiate = async () => ({ exports });
const w = await (W.default)(new Uint8Array(1)); const b = await w.calculateWTNSBin({ a: 1 }); const v = new DataView(b.buffer);
eq(Number(v.getBigUint64(24 + 4 + 8 + 4 + 4, true)), 8 * size, "section 2 length"); }'''),
]
for s in SEEDS:
    if s["id"] == "C26-b": s["needs"] = "a circuit with more than 255 wires"; s["breaks"] = "the length of the witness section is computed from the low byte of the witness count"
    if s["id"] == "C13-a": s["needs"] = "an input leaf that is 0, false or an empty text"
    if s["id"] == "C09-c": s["needs"] = "a line that names wire 0"
