// Transpiles the real TypeScript of /repo (types stripped, nothing else changed) into a scratch package:
//   <dir>/dist/*.js   every non-test source; its import "../pkg/zkenc_js.js" finds the recording stub
//   <dir>/dist2/*.js  the same, but witness_calculator.js is a stub (for C15: decapsulation with a chosen witness)
//   <dir>/cjs/witness_calculator.cjs  the CommonJS variant in the sources, unchanged
import { createRequire } from "node:module";
import fs from "node:fs"; import path from "node:path";
const require = createRequire("/opt/veriftools/node/node_modules/");
export function prep(dir, src = "/repo/packages/zkenc-js/src") {
  const ts = require("typescript");
  for (const d of ["dist", "dist2", "pkg", "cjs"]) fs.mkdirSync(path.join(dir, d), { recursive: true });
  fs.writeFileSync(path.join(dir, "package.json"), JSON.stringify({ type: "module" }));
  const walk = (rel) => {
    for (const f of fs.readdirSync(path.join(src, rel), { withFileTypes: true })) {
      const r = path.join(rel, f.name);
      if (f.isDirectory()) { for (const d of ["dist", "dist2"]) fs.mkdirSync(path.join(dir, d, r), { recursive: true }); walk(r); continue; }
      if (!f.name.endsWith(".ts") || /\.(test|spec|d)\.ts$/.test(f.name)) continue;
      const o = ts.transpileModule(fs.readFileSync(path.join(src, r), "utf8"),
        { compilerOptions: { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ES2020 }, reportDiagnostics: true, fileName: f.name });
      const bad = (o.diagnostics || []).filter((d) => d.category === ts.DiagnosticCategory.Error);
      if (bad.length) throw new Error("does not transpile: " + r + ": " + ts.flattenDiagnosticMessageText(bad[0].messageText, " "));
      for (const d of ["dist", "dist2"]) fs.writeFileSync(path.join(dir, d, r.replace(/\.ts$/, ".js")), o.outputText);
    }
  };
  walk("");
  fs.writeFileSync(path.join(dir, "pkg", "zkenc_js.js"), `
const h = globalThis.__zk = globalThis.__zk || { log: [] };
export async function init() { h.inits = (h.inits || 0) + 1; if (h.on) await h.on.init(); }
export default init;
export function wasm_encap(r1cs, wit) { if (h.on) return h.on.encap(r1cs, wit); h.log.push({ f: "encap", r1cs: Uint8Array.from(r1cs), wit: Uint8Array.from(wit) }); return { ciphertext: h.ct, key: h.key }; }
export function wasm_decap(r1cs, wit, ct) { if (h.on) return h.on.decap(r1cs, wit, ct); h.log.push({ f: "decap", r1cs: Uint8Array.from(r1cs), wit: Uint8Array.from(wit), ct: Uint8Array.from(ct) }); if (h.decapFail) throw new Error("Decapsulation failed"); return h.decapKey || h.key; }
`);
  fs.writeFileSync(path.join(dir, "dist2", "witness_calculator.js"), `
const h = globalThis.__zk = globalThis.__zk || { log: [] };
export default async function builder(code) { return { n32: 8, version: 2, prime: 7n, witnessSize: 1,
  async calculateWTNSBin(inputs, sanity) { if (h.on) return h.on.wtns(code, inputs); h.log.push({ f: "wtns", code: Uint8Array.from(code), inputs: JSON.stringify(inputs), sanity }); return h.wtns; },
  async calculateWitness(inputs) { return [1n]; } }; }
`);
  const c = path.join(src, "witness_calculator.js");
  if (fs.existsSync(c)) fs.copyFileSync(c, path.join(dir, "cjs", "witness_calculator.cjs"));
}
