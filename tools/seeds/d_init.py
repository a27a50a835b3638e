T = "packages/zkenc-js/src/"
H = '''import fs from "node:fs";
fs.writeFileSync("pkg/zkenc_js.js", `const h = globalThis.__zk;
export async function init() { h.starts++; await h.load(); h.loaded = true; } export default init;
export function wasm_encap(r1cs, wit) { h.calls.push(["encap", h.loaded, r1cs[0]]); return { ciphertext: new Uint8Array([r1cs[0]]), key: new Uint8Array(32).fill(r1cs[0]) }; }
export function wasm_decap(r1cs, wit, ct) { h.calls.push(["decap", h.loaded, r1cs[0]]); return new Uint8Array(32).fill(r1cs[0]); }
`);
fs.writeFileSync("dist/witness_calculator.js", `export default async () => ({ calculateWTNSBin: async (i) => { for (let k = 0; k < Number(i.slow || 0); k++) await null; return new Uint8Array([7]); } });`);
const h = globalThis.__zk = { starts: 0, loaded: false, calls: [], load: async () => { for (let i = 0; i < 20; i++) await new Promise((f) => setImmediate(f)); } };
const Z = await import("./dist/zkenc.js");
const ok = (c, m) => { if (!c) { console.error("FAIL", m); process.exit(1); } };
const sym = "1,1,1,main.a\\n", E = (n) => Z.encap({ r1csBuffer: new Uint8Array([n]), symContent: sym }, { a: 1 }), D = (n, slow) => Z.decap({ r1csBuffer: new Uint8Array([n]), wasmBuffer: new Uint8Array([0]) }, new Uint8Array([1]), { a: 1, slow });
'''
END = '''ok(h.starts === 1, "init() was started " + h.starts + " times"); for (const c of h.calls) ok(c[1], c[0] + " before the module was loaded");
'''
SEEDS = [
 dict(id="C30-a", property="C30", kind="ts", needs="a second call that arrives while the first one is loading the module",
  breaks="the module counts as loaded as soon as loading starts, so an overlapping call uses the core too early",
  edits=[(T+"zkenc.ts", "        await wasmInit();\n        wasmInitialized = true;", "        wasmInitialized = true;\n        await wasmInit();")],
  demo=H + '''await Promise.all([E(1), E(2), D(3, 2)]);\n''' + END),
 dict(id="C30-b", property="C30", kind="ts", needs="two calls that overlap before the module is loaded",
  breaks="the promise of the running load is only kept once it has finished, so each overlapping call loads the module again",
  edits=[(T+"zkenc.ts", "      wasmInitPromise = (async () => {\n        await wasmInit();\n        wasmInitialized = true;\n      })();", "      await wasmInit();\n      wasmInitialized = true;\n      wasmInitPromise = Promise.resolve();")],
  demo=H + '''await Promise.all([E(1), E(2)]); await E(3);\n''' + END),
 dict(id="C30-c", property="C30", kind="ts", needs="a witness that is computed before the module is loaded",
  breaks="decap loads the module beside the witness calculation and does not wait for it",
  edits=[(T+"zkenc.ts", "  await ensureWasmInit();\n\n  // Calculate witness", "  // Load the module while the witness is calculated\n  ensureWasmInit();\n\n  // Calculate witness")],
  demo=H + '''const r = await D(3, 1); await E(1); ok(r.length === 32 && r[0] === 3, "key");\n''' + END),
 dict(id="C30-d", property="C30", kind="ts", needs="two decapsulations of different circuits at the same time",
  breaks="the circuit of a running decapsulation is kept in a variable that all calls share",
  edits=[(T+"zkenc.ts", "let wasmInitPromise: Promise<void> | null = null;", "let wasmInitPromise: Promise<void> | null = null;\nlet currentCircuit: Uint8Array = new Uint8Array(0);"),
         (T+"zkenc.ts", "  await ensureWasmInit();\n\n  // Calculate witness", "  await ensureWasmInit();\n  currentCircuit = circuitFiles.r1csBuffer;\n\n  // Calculate witness"),
         (T+"zkenc.ts", "wasm_decap(circuitFiles.r1csBuffer, ", "wasm_decap(currentCircuit, ")],
  demo=H + '''ok((await D(9, 3))[0] === 9, "alone"); const rs = await Promise.all([D(3, 5), D(4, 1), D(5, 9)]); rs.forEach((r, i) => ok(r[0] === 3 + i, "key of call " + i));\n''' + END),
]
