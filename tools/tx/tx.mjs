// tx: mechanical translation of the TypeScript in /repo into Rust text that Verus can take.
//   node tx.mjs SRC_DIR OUT_DIR
// writes OUT_DIR/<path relative to SRC_DIR, / -> __>.rs for every non-test source, and OUT_DIR/report.json.
// Nothing here knows the functions of this code base: every construct has one fixed image (DESIGN.md, section 2),
// a construct without one rejects the function it stands in, with the reason in report.json.
import { createRequire } from "node:module";
import fs from "node:fs"; import path from "node:path";
const require = createRequire("/opt/veriftools/node/node_modules/");
const ts = require("typescript");
const [SRC, OUT] = process.argv.slice(2);
const K = ts.SyntaxKind;
class No extends Error {}
const no = (m, n) => { throw new No(m + (n ? " at line " + (n.getSourceFile().getLineAndCharacterOfPosition(n.getStart()).line + 1) : "")); };

const files = [];
(function walk(d) {
  for (const e of fs.readdirSync(d, { withFileTypes: true })) {
    const p = path.join(d, e.name);
    if (e.isDirectory()) walk(p);
    else if (e.name.endsWith(".ts") && !/\.(test|spec|d)\.ts$/.test(e.name)) files.push(p);
  }
})(SRC);
files.sort();
const program = ts.createProgram(files, { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler,
  lib: ["lib.es2022.d.ts", "lib.dom.d.ts", "lib.dom.iterable.d.ts"], strict: true, noEmit: true, skipLibCheck: true, types: [] });
const ck = program.getTypeChecker();
const inSrc = (s) => (s?.declarations || []).some((d) => d.getSourceFile().fileName.startsWith(path.resolve(SRC)));

// ---------------------------------------------------------------- representations
const R = { num: { k: "num" }, bool: { k: "bool" }, big: { k: "big" }, str: { k: "str" }, val: { k: "val" }, void: { k: "void" },
  u8: { k: "bytes", el: "u8" }, u32: { k: "bytes", el: "u32" }, ab: { k: "bytes", el: "ab" }, dv: { k: "dv" }, unit: (n) => ({ k: "unit", name: n }), prom: { k: "prom" },
  arr: (e) => ({ k: "arr", e }), map: (a, b) => ({ k: "map", a, b }), opt: (of) => ({ k: "opt", of }), tup: (es) => ({ k: "tup", es }), st: (name) => ({ k: "st", name }), ref: (of) => ({ k: "ref", of }) };
const isCopy = (r) => ["num", "bool", "big", "str", "void", "ref", "prom"].includes(r.k) || (r.k === "opt" && isCopy(r.of)) || (r.k === "tup" && r.es.every(isCopy));
const same = (a, b) => rt(a) === rt(b) && !(a.k === "bytes" && a.el !== b.el);
function rt(r) {
  switch (r.k) {
    case "num": return "Num"; case "bool": return "bool"; case "big": return "Big"; case "str": return "JStr"; case "val": return "JVal"; case "void": return "()";
    case "bytes": return "Bytes"; case "arr": return `JArr<${rt(r.e)}>`; case "map": return `JMap<${rt(r.a)}, ${rt(r.b)}>`; case "opt": return `Option<${rt(r.of)}>`;
    case "prom": return "Prom"; case "tup": return `(${r.es.map(rt).join(", ")})`; case "st": return r.name; case "ref": return "&" + rt(r.of);
  }
  no("no representation for " + r.k);
}
const STRUCTS = new Set(), EXT_STRUCTS = new Set(["CryptoKey"]);
function repOf(t, n) {
  const F = ts.TypeFlags;
  if (t.aliasSymbol?.name === "Record") return R.val;
  if (t.aliasSymbol?.name === "BufferSource") return R.u8;
  if (t.flags & (F.Any | F.Unknown)) return R.val;
  if (t.flags & F.NumberLike) return R.num;
  if (t.flags & F.BigIntLike) return R.big;
  if (t.flags & F.StringLike) return R.str;
  if (t.flags & F.BooleanLike) return R.bool;
  if (t.flags & (F.Void | F.Undefined)) return R.void;
  if (t.isUnion()) {
    const rest = t.types.filter((x) => !(x.flags & F.Undefined));
    if (rest.length < t.types.length) {
      if (rest.length === 0) return R.void;
      if (rest.every((x) => x.flags & F.BooleanLike)) return R.opt(R.bool);
      if (rest.length === 1) return R.opt(repOf(rest[0], n));
      return R.opt(unionRep(rest, n));
    }
    if (rest.every((x) => x.flags & F.BooleanLike)) return R.bool;
    return unionRep(rest, n);
  }
  const name = t.symbol?.name;
  if (name === "Promise") return repOf(ck.getTypeArguments(t)[0], n);
  if (name === "Uint8Array" || name === "Buffer") return R.u8;
  if (name === "Uint32Array") return R.u32;
  if (name === "ArrayBuffer" || name === "ArrayBufferLike" || name === "SharedArrayBuffer") return R.ab;
  if (name === "DataView") return R.dv;
  if (name === "TextEncoder" || name === "TextDecoder") return R.unit(name);
  if (ck.isTupleType(t)) return R.tup(ck.getTypeArguments(t).map((x) => repOf(x, n)));
  if (ck.isArrayType(t)) return R.arr(repOf(ck.getTypeArguments(t)[0], n));
  if (name === "Map" && !inSrc(t.symbol)) { const a = ck.getTypeArguments(t); return R.map(repOf(a[0], n), repOf(a[1], n)); }
  if (/Iterator|Iterable/.test(name || "")) return R.arr(repOf(ck.getTypeArguments(t)[0], n));
  if (name === "CryptoKey") return R.st("CryptoKey");
  if (name === "Instance") return R.st("Instance");
  if (name === "Module" && !inSrc(t.symbol)) return R.st("WModule");
  if (inSrc(t.symbol) && name && name !== "__type" && name !== "__object") {
    if (t.getStringIndexType()) return R.val;
    STRUCTS.add(t.symbol);
    return R.st(name);
  }
  no("no representation for type " + ck.typeToString(t), n);
}
function unionRep(ts_, n) {
  const rs = ts_.map((x) => repOf(x, n));
  if (rs.every((r) => same(r, rs[0]))) return rs[0];
  if (rs.every((r) => r.k === "bytes")) return rs[0];
  // a typed array or a plain array of numbers: the typed array, when every caller in these sources passes one
  const b = rs.find((r) => r.k === "bytes");
  if (b && rs.every((r) => r.k === "bytes" || (r.k === "arr" && r.e.k === "num"))) return b;
  return R.val;
}

// ---------------------------------------------------------------- functions of the sources
const KW = new Set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try union proof spec exec tracked ghost assert assume requires ensures invariant decreases open closed forall exists choose has is matches".split(" "));
const id = (s) => (s = s.replace(/\$/g, "_D"), KW.has(s) ? "r_" + s : s);
const fns = new Map(); // symbol -> info
const order = [];
const isFnLike = (n) => ts.isFunctionDeclaration(n) || ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n);
/// The imports given to WebAssembly.instantiate, or an object inside them: their methods are functions of the module.
function isRuntime(n) {
  while (n && (ts.isObjectLiteralExpression(n) || ts.isPropertyAssignment(n))) n = n.parent;
  return !!n && ts.isCallExpression(n) && n.expression.getText() === "WebAssembly.instantiate";
}
function collect(sf) {
  const visit = (n, outer, cls) => {
    if (ts.isClassDeclaration(n)) { n.members.forEach((m) => visit(m, outer, n)); return; }
    if (isFnLike(n) && n.body) {
      const nm = ts.isConstructorDeclaration(n) ? "new" : n.name?.text || "default";
      const sym = ts.isConstructorDeclaration(n) ? ck.getSymbolAtLocation(cls.name) : ck.getSymbolAtLocation(n.name || n);
      const f = { node: n, sf, sym, cls: cls ? cls.name.text : null, ctor: ts.isConstructorDeclaration(n), name: (outer ? outer.name + "__" : "") + nm, outer, mutSyms: new Set(), selfMut: false, err: null, notes: {} };
      order.push(f);
      if (sym) fns.set(f.ctor ? n : sym, f);
      if (f.ctor) fns.set("new " + cls.name.text, f);
      ts.forEachChild(n.body, (c) => visit(c, f, null));
      return;
    }
    if (ts.isArrowFunction(n) || ts.isFunctionExpression(n) || (ts.isObjectLiteralExpression(n) && !isRuntime(n))) return;
    ts.forEachChild(n, (c) => visit(c, outer, cls));
  };
  ts.forEachChild(sf, (c) => visit(c, null, null));
}
const sfs = program.getSourceFiles().filter((s) => files.some((f) => path.resolve(f) === path.resolve(s.fileName)));
sfs.forEach(collect);

const strip = (n) => { while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isAwaitExpression(n) || ts.isSatisfiesExpression?.(n) || ts.isTypeAssertionExpression?.(n))) n = n.expression; return n; };
const symOf = (n) => {
  let s = n.parent && ts.isShorthandPropertyAssignment(n.parent) ? ck.getShorthandAssignmentValueSymbol(n.parent) : ck.getSymbolAtLocation(n);
  if (s && s.flags & ts.SymbolFlags.Alias) s = ck.getAliasedSymbol(s);
  return firstName(s);
};
/// `const b = a`, where a is a local variable or parameter that never changes and holds an object: both names are the same
/// variable. It keeps the name of a, unless nothing but this declaration uses that.
const SECOND = new Map(), RENAME = new Map();
const fnOf = (n) => { while (n && !ts.isFunctionLike(n)) n = n.parent; return n; };
function firstName(s) {
  if (!s) return s;
  if (!SECOND.has(s)) { SECOND.set(s, null); SECOND.set(s, secondOf(s)); }
  return SECOND.get(s) ? firstName(SECOND.get(s)) : s;
}
function secondOf(s) {
  const d = s.valueDeclaration;
  if (!d || !ts.isVariableDeclaration(d) || !ts.isIdentifier(d.name) || !d.initializer || !(ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const) || !ts.isVariableStatement(d.parent.parent)) return null;
  const i = strip(d.initializer);
  if (!ts.isIdentifier(i) || ts.isAwaitExpression(d.initializer)) return null;
  const a = ck.getSymbolAtLocation(i), ad = a?.valueDeclaration, f = fnOf(d);
  if (!ad || !f || fnOf(ad.parent) !== (ts.isParameter(ad) ? ad.parent : f) || fnOf(ad) !== f) return null;
  if (!ts.isIdentifier(ad.name) || !(ts.isVariableDeclaration(ad) && ad.initializer && ts.isVariableStatement(ad.parent.parent) || ts.isParameter(ad) && !ad.dotDotDotToken && !ad.initializer)) return null;
  let ok = true, uses = 0, names = 0;
  const visit = (n) => {
    if (ts.isIdentifier(n) && n.text === d.name.text && n !== d.name && ck.getSymbolAtLocation(n) !== s && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) names++;
    if (ts.isIdentifier(n) && ck.getSymbolAtLocation(n) === a && n !== ad.name && n !== i) uses++;
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment && ts.isIdentifier(strip(n.left)) && ck.getSymbolAtLocation(strip(n.left)) === a) ok = false;
    if (ts.isShorthandPropertyAssignment(n) && ck.getShorthandAssignmentValueSymbol(n) === a) uses++;
    ts.forEachChild(n, visit);
  };
  visit(f);
  if (!ok) return null;
  const ta = ck.typeToString(ck.getTypeOfSymbolAtLocation(a, ad.name)), tb = ck.typeToString(ck.getTypeOfSymbolAtLocation(s, d.name));
  if (!(ta === tb && /^(DataView|TextEncoder|TextDecoder)\b/.test(ta))) try {
    const ra = repOf(ck.getTypeOfSymbolAtLocation(a, ad.name), ad), rb = repOf(ck.getTypeOfSymbolAtLocation(s, d.name), d);
    if (isCopy(ra) || !same(ra, rb)) return null;
  } catch { return null; }
  if (!uses && !names && !ts.isParameter(ad)) RENAME.set(a, d.name.text);
  return a;
}
/// A name bound by `const { f } = await import("./m.js")` stands for the function f of that module.
function throughImport(s) {
  const d = s?.declarations?.[0];
  if (d && ts.isBindingElement(d)) {
    const vd = d.parent.parent;
    const init = ts.isVariableDeclaration(vd) && strip(vd.initializer);
    if (init && ts.isCallExpression(init) && init.expression.kind === K.ImportKeyword) {
      let p = ck.getTypeAtLocation(vd.initializer).getProperty((d.propertyName || d.name).text);
      if (p && p.flags & ts.SymbolFlags.Alias) p = ck.getAliasedSymbol(p);
      return p || s;
    }
  }
  return s;
}
const callee = (e) => {
  if (ts.isIdentifier(e)) return fns.get(throughImport(symOf(e)));
  if (ts.isPropertyAccessExpression(e)) { const s = symOf(e.name); return s && inSrc(s) ? fns.get(s) : undefined; }
};
const isThis = (n) => strip(n).kind === K.ThisKeyword;
/// The variable at the root of a place: x, x[i], x.f -> x (through the views of typed arrays).
function rootSym(n) {
  n = strip(n);
  if (ts.isIdentifier(n)) {
    const s = symOf(n), b = s && viewBase(s);
    return b ? rootSym(b) : s;
  }
  if (ts.isElementAccessExpression(n) || ts.isPropertyAccessExpression(n)) return rootSym(n.expression);
  return n.kind === K.ThisKeyword ? "this" : undefined;
}
/// A local declared as a view over another local's buffer: the expression it looks at, or undefined.
function viewBase(s) { const v = viewOf(s); return v && v.base; }
function viewOf(s) {
  const d = s?.valueDeclaration;
  if (!d || !ts.isVariableDeclaration(d) || !d.initializer || !ts.isIdentifier(d.name)) return;
  if (!(ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const)) return;
  const n = strip(d.initializer);
  if (!ts.isNewExpression(n) || !n.arguments?.length) return;
  const c = n.expression.getText();
  if (!["Uint8Array", "Uint32Array", "DataView"].includes(c)) return;
  const a = strip(n.arguments[0]);
  const kind = c === "DataView" ? "dv" : c === "Uint8Array" ? "u8" : "u32";
  let base, whole;
  if (ts.isPropertyAccessExpression(a) && a.name.text === "buffer") { base = a.expression; whole = false; }
  else if (ts.isIdentifier(a)) {
    let r; try { r = repOf(ck.getTypeAtLocation(a), a); } catch { return; }
    if (r.k !== "bytes" || r.el !== "ab") return;
    base = a; whole = true;
  } else return;
  let win = false;
  if (n.arguments.length > 1) {
    const o = strip(n.arguments[1]);
    if (n.arguments.length === 2 && ts.isPropertyAccessExpression(o) && o.name.text === "byteOffset" && o.expression.getText() === base.getText()) win = true;
    else if (n.arguments.length === 3 && /^\s*(\S+)\.byteOffset\s*,\s*\1\.byteLength\s*$/.test(o.getText() + "," + n.arguments[2].getText()) && o.getText().startsWith(base.getText() + ".")) win = "exact";
    else return { bad: true, base };
  }
  return { kind, base, win, whole };
}
const MUTATORS = new Set(["push", "unshift", "pop", "shift", "set", "fill", "delete", "clear", "sort", "reverse", "splice"]);
const isExports = (n) => { n = strip(n); if (ts.isIdentifier(n)) { const d = symOf(n)?.valueDeclaration; return !!(d && ts.isVariableDeclaration(d) && d.initializer && isExports(d.initializer)); } return ts.isPropertyAccessExpression(n) && n.name.text === "exports"; };
function analyse(f) {
  let changed = false;
  const mark = (s) => { if (s === "this") { if (!f.selfMut) { f.selfMut = true; changed = true; } } else if (s && !f.mutSyms.has(s)) { f.mutSyms.add(s); changed = true; } };
  const visit = (n) => {
    if (n !== f.node && (isFnLike(n))) return;
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) {
      const l = strip(n.left);
      if (!ts.isIdentifier(l)) mark(rootSym(l));
    }
    if (ts.isCallExpression(n)) {
      const e = strip(n.expression), g = callee(e);
      if (g) {
        n.arguments.forEach((a, i) => { const p = g.node.parameters[i]; if (p && ts.isIdentifier(p.name) && g.mutSyms.has(ck.getSymbolAtLocation(p.name))) mark(rootSym(a)); });
        for (const c of captures(g)) if (g.mutSyms.has(c)) mark(c);
        if (g.selfMut && ts.isPropertyAccessExpression(e)) mark(rootSym(e.expression));
      } else if (ts.isPropertyAccessExpression(e)) {
        if (MUTATORS.has(e.name.text) || /^set(Uint|Int|Big|Float)/.test(e.name.text)) mark(rootSym(e.expression));
        if (isExports(e.expression)) { const b = strip(e.expression); mark(rootSym(ts.isIdentifier(b) ? symOf(b).valueDeclaration.initializer : b)); }
      }
    }
    ts.forEachChild(n, visit);
  };
  ts.forEachChild(f.node, visit);
  return changed;
}
function captures(g) {
  if (!g.outer) return [];
  if (g.caps) return g.caps;
  g.caps = [];
  const seen = new Set();
  const visit = (n) => {
    if (ts.isThrowStatement(n)) return; // the text of an error is dropped
    if (ts.isIdentifier(n)) {
      const s = symOf(n), d = s?.valueDeclaration;
      if (d && !seen.has(s) && (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) && d.getSourceFile() === g.sf) {
        seen.add(s);
        let o = d; while (o && !isFnLike(o) && o !== g.node) o = o.parent;
        if (o && o !== g.node && !within(d, g.node)) g.caps.push(s);
      }
    }
    ts.forEachChild(n, visit);
  };
  visit(g.node.body);
  return g.caps;
}
const within = (n, a) => { while (n) { if (n === a) return true; n = n.parent; } return false; };
for (let i = 0; i < 40; i++) if (!order.map(analyse).some((x) => x)) break;

function sigOf(f) {
  if (f.sig) return f.sig;
  const ps = [];
  for (const p of f.node.parameters) {
    if (!ts.isIdentifier(p.name) || p.dotDotDotToken) no("parameter pattern", p);
    const s = ck.getSymbolAtLocation(p.name);
    const t = ck.getTypeAtLocation(p.name);
    let rep = repOf(t, p);
    if (p.questionToken && rep.k !== "opt") rep = rep.k === "val" ? rep : R.opt(rep);
    ps.push({ sym: s, name: id(p.name.text), rep, mode: isCopy(rep) ? "copy" : f.mutSyms.has(s) ? "mut" : "ref", def: p.initializer, optional: !!p.questionToken });
  }
  if (f.ctor) ps.forEach((p) => { if (!isCopy(p.rep)) p.mode = "own"; });
  const cs = captures(f).map((s) => {
    const d = s.valueDeclaration;
    const rep = repOf(ck.getTypeOfSymbolAtLocation(s, d), d);
    return { sym: s, name: id(s.name), rep, mode: isCopy(rep) ? "copy" : f.mutSyms.has(s) ? "mut" : "ref" };
  });
  const st = ck.getSignatureFromDeclaration(f.node);
  const ret = f.ctor ? R.st(f.cls) : repOf(ck.getReturnTypeOfSignature(st), f.node);
  return (f.sig = { ps, cs, ret });
}
const pty = (p) => (p.mode === "mut" ? "&mut " : p.mode === "ref" ? "&" : "") + rt(p.rep);

// ---------------------------------------------------------------- module state and promises
// A module-level `let` is a field of the module's state; a function that names one takes that state as `m`, and each
// `await` in it is a point where any other call may run (js_await: the state after it is only known to satisfy the
// invariant). A call of an async function that is not awaited runs it up to its first await: image f__start.
const modState = new Map(); // source file -> [{sym, name, rep, init}]
for (const sf of sfs) {
  const vs = [];
  for (const st of sf.statements) {
    if (!ts.isVariableStatement(st) || st.declarationList.flags & ts.NodeFlags.Const) continue;
    for (const d of st.declarationList.declarations) if (ts.isIdentifier(d.name)) vs.push({ sym: ck.getSymbolAtLocation(d.name), d });
  }
  if (vs.length) modState.set(sf, vs);
}
const isAsync = (n) => !!n.modifiers?.some((x) => x.kind === K.AsyncKeyword);
const isPromise = (t) => t?.symbol?.name === "Promise" && !inSrc(t.symbol);
function stateRep(t, n) {
  const F = ts.TypeFlags, rest = t.isUnion() ? t.types.filter((x) => !(x.flags & (F.Null | F.Undefined))) : [t];
  if (rest.length === 1 && isPromise(rest[0])) return t.isUnion() ? { ...R.opt(R.prom), nul: t.types.some((x) => x.flags & F.Null) } : R.prom;
  const r = repOf(t, n);
  if (!isCopy(r)) no("module state of type " + ck.typeToString(t), n);
  return r;
}
const usesState = (f) => { const vs = modState.get(f.sf); if (!vs) return false; let r = false; const visit = (n) => { if (ts.isIdentifier(n)) { const s = symOf(n); if (vs.some((v) => v.sym === s)) r = true; } ts.forEachChild(n, visit); }; visit(f.node); return r; };
sfs.forEach((sf) => { const visit = (n) => { if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name)) firstName(ck.getSymbolAtLocation(n.name)); ts.forEachChild(n, visit); }; visit(sf); });
for (const f of order) f.state = usesState(f);
/// `x` of `await x`, through parentheses and casts.
const awaited = (n) => { while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n))) n = n.expression; return n && ts.isAwaitExpression(n) ? n.expression : undefined; };
const bare = (n) => { while (n && (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n))) n = n.expression; return n; };
const closures = []; // async functions used as promises

// ---------------------------------------------------------------- externals
// rust name, argument representations, result, f: may throw, r: result borrowed from the first argument
const v = R.val, N = R.num, S = R.str, U = R.u8;
const CALLS = {
  "Array.isArray": ["js_is_array", [v], R.bool],
  "Object.entries": ["js_entries", [v], R.arr(R.tup([S, R.ref(v)]))],
  "Object.keys": ["js_keys", [v], R.arr(S)],
  "JSON.stringify": ["js_json_stringify", [v], S, "f"],
  "JSON.parse": ["js_json_parse", [S], v, "f"],
  "crypto.getRandomValues": ["js_random", [{ ...U, own: 1 }], U, "f"],
  "crypto.subtle.importKey": ["js_import_key", [S, U, { k: "lit", name: "Alg", fields: ["name"] }, R.bool, R.arr(S)], R.st("CryptoKey"), "f"],
  "crypto.subtle.encrypt": ["js_subtle_encrypt", [{ k: "lit", name: "Alg", fields: ["name", "iv", "tagLength", "additionalData"] }, R.st("CryptoKey"), U], R.ab, "f"],
  "crypto.subtle.decrypt": ["js_subtle_decrypt", [{ k: "lit", name: "Alg", fields: ["name", "iv", "tagLength", "additionalData"] }, R.st("CryptoKey"), U], R.ab, "f"],
  "wasm_encap": ["wasm_encap", [U, U], R.st("WasmEncap"), "f"],
  "wasm_decap": ["wasm_decap", [U, U, U], U, "f"],
  "WebAssembly.compile": ["js_wasm_compile", [U], R.st("WModule"), "f"],
};
/// Functions outside these sources whose result is awaited or kept as a promise, in functions with module state.
const PROMISES = { wasmInit: "wasm_init" };
const LITF = { name: S, iv: U, tagLength: N, additionalData: U };
const EXPORTS = { getVersion: [[], 1], getFieldNumLen32: [[], 1], getRawPrime: [[], 0], readSharedRWMemory: [[N], 1], writeSharedRWMemory: [[N, N], 0], getWitnessSize: [[], 1], getWitness: [[N], 0],
  init: [[N], 0], setInputSignal: [[N, N, N], 0], getInputSignalSize: [[N, N], 1], getInputSize: [[], 1] };
const METHODS = {
  str: { trim: ["trim", [], S], split: ["split", [S], R.arr(S)], startsWith: ["starts_with", [S], R.bool], endsWith: ["ends_with", [S], R.bool], charCodeAt: ["char_code_at", [N], N],
    repeat: ["repeat", [N], S, "f"], substring: [["substring1", "substring2"], [N, N], S], slice: [["slice1", "slice2"], [N, N], S], toString: ["to_string_", [], S], padStart: ["pad_start", [N, S], S] },
  num: { toString: [["to_string0", "to_string1"], [N], S] },
  big: { toString: [["to_string0", "to_string1"], [N], S] },
  val: { toString: ["to_string_", [], S, "f"] },
  bytes: { slice: [["slice0", "slice1", "slice2"], [N, N], "self"], set: [["set0", "set1"], [U, N], R.void, "f"], fill: ["fill", [N], R.void] },
};
const DV = { Uint8: N, Uint16: N, Uint32: N, Int32: N, BigUint64: R.big };

function bigLit(x) {
  const neg = x < 0n; if (neg) x = -x;
  const ch = []; do { ch.push(x % (10n ** 18n)); x /= 10n ** 18n; } while (x);
  let c = `js_big(${ch[ch.length - 1]})`;
  for (let i = ch.length - 2; i >= 0; i--) c = `js_big_cat(${c}, ${ch[i]})`;
  return neg ? `js_big_neg(${c})` : c;
}
const strLit = (s) => [...Array(s.length).keys()].reduce((acc, i) => `js_unit(${acc}, ${s.charCodeAt(i)}u16)`, "js_empty()");

// ---------------------------------------------------------------- one function
class Fn {
  constructor(f) { this.f = f; this.env = new Map(); this.nfor = 0; this.ntmp = 0; this.sig = sigOf(f); }
  note(s) { this.f.notes[s] = (this.f.notes[s] || 0) + 1; }

  emit(mode) {
    const { f, sig } = this;
    const ps = [];
    if (f.state) {
      ps.push("m: &mut Module");
      this.first = mode === "async"; this.start = mode === "start";
      for (const v of modState.get(f.sf)) this.env.set(v.sym, { name: `m.${id(v.sym.name)}`, rep: stateRep(ck.getTypeOfSymbolAtLocation(v.sym, v.d), v.d), ref: false });
      if (mode) for (const p of [...sig.cs, ...sig.ps]) if (!isCopy(p.rep)) no("a promise of a function with parameters that are not plain values");
    }
    if (f.cls && !f.ctor) ps.push(f.selfMut ? "&mut self" : "&self");
    const pre = [];
    for (const p of [...sig.cs, ...sig.ps]) {
      ps.push(`${p.name}: ${pty(p)}`);
      this.env.set(p.sym, { name: p.name, rep: p.rep, ref: p.mode === "ref" || p.mode === "mut" });
      if (p.mode === "copy" && this.assigned(p.sym)) pre.push(`let mut ${p.name} = ${p.name};`);
      if (p.mode !== "copy" && this.defaulted(p)) continue;
      if (p.mode !== "copy" && this.assigned(p.sym)) no("a parameter that is not a plain value is assigned", p.sym.valueDeclaration);
      if (p.mode === "mut" && sig.cs.includes(p) && this.assigned(p.sym)) no("a captured variable is assigned");
      if (sig.cs.includes(p) && viewOf(p.sym)) no("a captured view");
      if (sig.cs.includes(p) && p.mode === "copy" && this.assignedAnywhere(p.sym)) no("a captured variable that is assigned");
    }
    if (mode === "start") {
      const list = [...f.node.body.statements], k = list.findIndex((x) => this.hasAwait(x));
      const name = `${id(f.name)}__start`, s = list[k], aw = s && (ts.isExpressionStatement(s) || ts.isReturnStatement(s)) && s.expression && awaited(s.expression);
      if (!aw || sig.ret.k !== "void") no("a promise of a function whose first await is not a statement of its own");
      const body = this.stmts(list.slice(0, k), false);
      f.notes[`${f.name}() not awaited -> it runs up to its first await; a promise stands for the rest`] = 1;
      return `pub fn ${name}(${ps.join(", ")}) -> Prom {\n${pre.join("\n")}\n${body}\nlet __x = ${this.promise(aw)};\njs_promise(${1 + closures.indexOf(f)})\n}`;
    }
    const body = this.stmts(f.node.body.statements, true);
    let tail = "";
    if (f.ctor) {
      const c = f.node.parent, names = c.members.filter((m) => ts.isPropertyDeclaration(m)).map((m) => m.name.text);
      tail = `Ok(${f.cls} { ${names.map((n) => `${id(n)}: this_${n}`).join(", ")} })`;
      pre.push(...c.members.filter((m) => ts.isPropertyDeclaration(m)).map((m) => `let mut this_${m.name.text}: ${rt(repOf(ck.getTypeAtLocation(m), m))};`));
    } else if (!this.ended) { if (sig.ret.k !== "void") { tail = this.diverges ? "" : no("may end without a value"); } else tail = "Ok(())"; }
    const name = f.ctor ? "new" : id(f.name) + (mode === "async" ? "__async" : "");
    const txt = `pub fn ${name}(${ps.join(", ")}) -> Result<${f.ctor ? f.cls : rt(sig.ret)}> {\n${pre.join("\n")}\n${body}\n${tail}\n}`;
    return f.cls ? `impl ${f.cls} {\n${txt}\n}` : txt;
  }
  hasAwait(n) { let r = false; const visit = (x) => { if (ts.isAwaitExpression(x) || ts.isForOfStatement(x) && x.awaitModifier) r = true; if (!ts.isFunctionLike(x)) ts.forEachChild(x, visit); }; visit(n); return r; }
  /// `await op` in a function with module state.
  awaitExpr(op, n) {
    const c = bare(op);
    if (ts.isCallExpression(c) && callee(strip(c.expression))) return this.call(c);
    if (ts.isCallExpression(c) && !PROMISES[c.expression.getText()] && !isPromise(ck.getTypeAtLocation(c))) return this.expr(c);
    const f = this.first ? "_first" : "";
    if (this.first && this.loops) no("the first await stands in a loop", n);
    this.first = false;
    this.note("await p -> any other call may run, then p's outcome");
    return { c: `js_await${f}(${this.promise(op)}, m)?`, rep: R.void, own: "copy" };
  }
  /// A promise kept as a value.
  promise(n) {
    n = bare(n);
    if (ts.isIdentifier(n)) {
      const v = this.env.get(symOf(n));
      if (v?.name && v.rep.k === "prom") return v.name;
      if (v?.name && v.rep.k === "opt" && v.rep.of.k === "prom") return `js_some(${v.name})`;
    }
    if (ts.isCallExpression(n)) {
      const e = bare(n.expression);
      if (PROMISES[e.getText()] && !n.arguments.length) return `${PROMISES[e.getText()]}(m)`;
      let g = ts.isIdentifier(e) ? callee(e) : undefined;
      if ((ts.isArrowFunction(e) || ts.isFunctionExpression(e)) && isAsync(e) && ts.isBlock(e.body) && !e.parameters.length && !n.arguments.length) {
        g = closures.find((c) => c.node === e);
        if (!g) { g = { node: e, sf: this.f.sf, cls: null, ctor: false, name: `${this.f.name}__async${this.f.nasync = (this.f.nasync ?? -1) + 1}`, outer: this.f, mutSyms: new Set(), selfMut: false, notes: {}, state: true }; }
      }
      if (g && g.state && isAsync(g.node) && !n.arguments.length) {
        if (!closures.includes(g)) closures.push(g);
        if (sigOf(g).cs.length || sigOf(g).ps.length) no("a promise of a function that takes values from outside", n);
        return `${id(g.name)}__start(m)`;
      }
    }
    no("promise " + n.getText().slice(0, 40), n);
  }
  /// x = x || {} as the only assignment of an optional record of optional fields.
  defaulted(p) {
    if (p.rep.k !== "opt" || p.rep.of.k !== "st") return false;
    const as = [];
    const visit = (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment && ts.isIdentifier(strip(n.left)) && symOf(strip(n.left)) === p.sym) as.push(n); ts.forEachChild(n, visit); };
    visit(this.f.node);
    if (as.length !== 1) return false;
    const s = as[0], r = strip(s.right);
    return s === strip(this.f.node.body.statements[0]?.expression ?? s.left) && s.operatorToken.kind === K.EqualsToken && ts.isBinaryExpression(r) && [K.BarBarToken, K.QuestionQuestionToken].includes(r.operatorToken.kind)
      && ts.isIdentifier(strip(r.left)) && symOf(strip(r.left)) === p.sym && ts.isObjectLiteralExpression(strip(r.right)) && !strip(r.right).properties.length;
  }
  assigned(sym) { return this.scanAssign(this.f.node, sym); }
  assignedAnywhere(sym) { return this.scanAssign(this.f.sf, sym); }
  scanAssign(root, sym) {
    let r = false;
    const visit = (n) => {
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment && ts.isIdentifier(strip(n.left)) && symOf(strip(n.left)) === sym) r = true;
      if ((ts.isPostfixUnaryExpression(n) || (ts.isPrefixUnaryExpression(n) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken))) && ts.isIdentifier(strip(n.operand)) && symOf(strip(n.operand)) === sym) r = true;
      ts.forEachChild(n, visit);
    };
    visit(root);
    return r;
  }

  // ---- statements
  stmts(list, top) {
    const out = [];
    this.ended = false;
    list = [...list].filter((s) => !ts.isFunctionDeclaration(s) && !ts.isInterfaceDeclaration(s) && !ts.isTypeAliasDeclaration(s) && !ts.isEmptyStatement(s));
    list.forEach((s, i) => {
      const last = top && i === list.length - 1;
      if (last && ts.isReturnStatement(s)) {
        if (this.f.state && s.expression && isPromise(ck.getTypeAtLocation(s.expression))) out.push(`${this.awaitExpr(s.expression, s).c};`);
        out.push(s.expression && this.sig.ret.k !== "void" ? `Ok(${this.owned(s.expression, this.sig.ret)})` : "Ok(())");
        this.ended = true;
      } else if (last && ts.isTryStatement(s)) {
        this.catchThrows(s);
        const decls = new Set(); s.tryBlock.statements.forEach((x) => ts.isVariableStatement(x) && x.declarationList.declarations.forEach((d) => decls.add(d.name.getText())));
        out.push(this.stmts(s.tryBlock.statements, true));
      } else {
        if (last) this.diverges = ts.isThrowStatement(s) || ts.isIfStatement(s);
        out.push(this.stmt(s));
      }
    });
    return out.join("\n");
  }
  block(s, extra = "") {
    const e = this.ended;
    const r = `{\n${ts.isBlock(s) ? this.stmts(s.statements, false) : this.stmt(s)}\n${extra}}`;
    this.ended = e;
    return r;
  }
  catchThrows(s) {
    if (s.finallyBlock || !s.catchClause) no("try without a plain catch", s);
    const b = s.catchClause.block.statements;
    if (!b.length || !ts.isThrowStatement(b[b.length - 1]) || !b.slice(0, -1).every((x) => this.isConsole(x))) no("a catch that does not only throw", s);
    this.note("try { .. } catch { throw .. } -> the body (an error stays an error)");
  }
  isConsole(s) {
    if (!ts.isExpressionStatement(s)) return false;
    const c = strip(s.expression);
    return ts.isCallExpression(c) && /^console\.\w+$/.test(c.expression.getText()) && c.arguments.every((a) => this.pure(a));
  }
  pure(n) {
    n = strip(n);
    if (ts.isIdentifier(n) || ts.isLiteralExpression(n) || n.kind === K.ThisKeyword) return true;
    if (ts.isPropertyAccessExpression(n)) return this.pure(n.expression);
    if (ts.isElementAccessExpression(n)) return this.pure(n.expression) && this.pure(n.argumentExpression);
    if (ts.isTemplateExpression(n)) return n.templateSpans.every((s) => this.pure(s.expression));
    if (ts.isBinaryExpression(n) && !(n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment)) return this.pure(n.left) && this.pure(n.right);
    if (ts.isConditionalExpression(n)) return [n.condition, n.whenTrue, n.whenFalse].every((x) => this.pure(x));
    return false;
  }
  stmt(s) {
    if (ts.isVariableStatement(s)) return s.declarationList.declarations.map((d) => this.decl(d)).join("\n");
    if (ts.isExpressionStatement(s)) return this.exprStmt(s.expression);
    if (ts.isIfStatement(s)) {
      const c = this.cond(s.expression);
      return `if ${c} ${this.block(s.thenStatement)}${s.elseStatement ? " else " + (ts.isIfStatement(s.elseStatement) ? this.stmt(s.elseStatement) : this.block(s.elseStatement)) : ""}`;
    }
    if (ts.isReturnStatement(s) && this.f.state && s.expression && isPromise(ck.getTypeAtLocation(s.expression)) && this.sig.ret.k === "void") return `${this.awaitExpr(s.expression, s).c}; return Ok(());`;
    if (ts.isReturnStatement(s)) return s.expression && this.sig.ret.k !== "void" ? `return Ok(${this.owned(s.expression, this.sig.ret)});` : s.expression ? `${this.exprStmt(s.expression)} return Ok(());` : "return Ok(());";
    if (ts.isThrowStatement(s)) {
      const e = strip(s.expression);
      const ok = (ts.isNewExpression(e) || ts.isCallExpression(e)) && /^(Range|Type|Syntax)?Error$/.test(e.expression.getText()) && (e.arguments || []).every((a) => this.pure(a)) || ts.isIdentifier(e);
      if (!ok) no("throw of a computed value", s);
      this.note("throw -> return Err(verr()) (message text dropped)");
      return "return Err(verr());";
    }
    if (ts.isBlock(s)) return this.block(s);
    if (ts.isWhileStatement(s)) return `while ${this.cond(s.expression)} ${this.loopBody(s.statement, "")}`;
    if (ts.isForStatement(s)) {
      const init = !s.initializer ? "" : ts.isVariableDeclarationList(s.initializer) ? s.initializer.declarations.map((d) => this.decl(d)).join("\n") : this.exprStmt(s.initializer);
      const cond = s.condition ? this.cond(s.condition) : "true";
      const inc = s.incrementor ? this.exprStmt(s.incrementor) : "";
      this.note("for (init; cond; inc) -> init; while cond { body; inc }");
      return `{\n${init}\nwhile ${cond} ${this.loopBody(s.statement, inc)}\n}`;
    }
    if (ts.isForOfStatement(s)) return this.forOf(s);
    if (ts.isBreakStatement(s) && !s.label) return "break;";
    if (ts.isContinueStatement(s) && !s.label) return `${this.inc || ""} continue;`;
    if (ts.isTryStatement(s)) {
      this.catchThrows(s);
      return this.block(s.tryBlock);
    }
    no("statement " + K[s.kind], s);
  }
  loopBody(b, inc) {
    const o = this.inc;
    this.inc = inc;
    const r = this.block(b, inc ? inc + "\n" : "");
    this.inc = o;
    return r;
  }
  forOf(s) {
    if (s.awaitModifier || !ts.isVariableDeclarationList(s.initializer)) no("for await", s);
    const it = this.expr(s.expression);
    if (it.rep.k === "map") { it.rep = R.arr(R.tup([it.rep.a, it.rep.b])); it.c = `${it.c}.entries()`; it.own = "owned"; }
    if (it.rep.k !== "arr") no("for..of over " + it.rep.k, s);
    const root = rootSym(ts.isCallExpression(strip(s.expression)) ? (strip(s.expression).expression.expression || s.expression) : s.expression);
    const k = this.nfor++, e = it.rep.e;
    const d = s.initializer.declarations[0];
    let bind;
    const el = isCopy(e) ? `__f${k}.at(__k${k})` : `__f${k}.at_ref(__k${k})`;
    if (ts.isIdentifier(d.name)) bind = this.bind(d.name, { c: el, rep: e, own: isCopy(e) ? "copy" : "ref" });
    else if (ts.isArrayBindingPattern(d.name) && e.k === "tup") {
      const els = d.name.elements;
      bind = `let __t${k} = ${el};\n` + els.map((b, i) => ts.isOmittedExpression(b) ? "" : (ts.isIdentifier(b.name) && !b.initializer && !b.dotDotDotToken) ? this.bind(b.name, this.deref(`__t${k}.${i}`, e.es[i], isCopy(e) ? "copy" : "ref")) : no("pattern", b)).join("\n");
    } else no("pattern in for..of", d);
    this.note("for (x of e) -> an index loop over the elements of e");
    // the snapshot is borrowed: a change of the container inside the loop does not compile
    const src = it.own === "owned" ? `let __o${k} = ${it.c};\nlet __f${k} = &__o${k};` : `let __f${k} = ${it.own === "ref" ? it.c : "&" + it.c};`;
    if (root && typeof root === "object" && this.mutatedIn(s.statement, root)) no("the container is changed inside its own for..of", s);
    return `{\n${src}\nlet mut __k${k}: usize = 0;\nwhile __k${k} < __f${k}.len_() ${this.withPrefix(s.statement, `${bind}\n__k${k} = __k${k} + 1;`)}\n}`;
  }
  withPrefix(b, pre) {
    const o = this.inc, e = this.ended;
    this.inc = "";
    const r = `{\n${pre}\n${ts.isBlock(b) ? this.stmts(b.statements, false) : this.stmt(b)}\n}`;
    this.inc = o; this.ended = e;
    return r;
  }
  mutatedIn(body, sym) {
    let r = false;
    const visit = (n) => {
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && MUTATORS.has(strip(n.expression).name.text) && rootSym(strip(n.expression).expression) === sym) r = true;
      if (ts.isCallExpression(n)) { const g = callee(strip(n.expression)); if (g) n.arguments.forEach((a, i) => { const p = g.node.parameters[i]; if (p && ts.isIdentifier(p.name) && g.mutSyms.has(ck.getSymbolAtLocation(p.name)) && rootSym(a) === sym) r = true; }); }
      ts.forEachChild(n, visit);
    };
    visit(body);
    return r;
  }
  deref(c, rep, own) { return rep.k === "ref" ? (isCopy(rep.of) ? { c: "*" + c, rep: rep.of, own: "copy" } : { c, rep: rep.of, own: "ref" }) : { c, rep, own: isCopy(rep) ? "copy" : own }; }
  bind(nameNode, e, declared) {
    const s = ck.getSymbolAtLocation(nameNode), name = id(RENAME.get(s) ?? nameNode.text);
    if (e.own === "ref" || e.own === "place") {
      this.env.set(s, { name, rep: e.rep, ref: true });
      if (this.assigned(s)) no("a variable holding a reference is assigned", nameNode);
      return `let ${name}: &${rt(e.rep)} = ${e.own === "place" ? "&" : ""}${e.c};`;
    }
    this.env.set(s, { name, rep: e.rep, ref: false });
    if (e.rep.k === "opt" && e.rep.of.k === "ref") this.env.get(s).rep = R.opt(e.rep.of);
    return `let mut ${name}: ${rt(e.rep)} = ${e.c};`;
  }
  decl(d) {
    const init = d.initializer && strip(d.initializer);
    if (ts.isIdentifier(d.name)) {
      const s = ck.getSymbolAtLocation(d.name);
      if (init && firstName(s) !== s) { this.note("const b = a, of an object -> two names of one variable"); return ""; }
      const declRep = () => repOf(ck.getTypeOfSymbolAtLocation(s, d.name), d);
      if (!init) { const r = declRep(); this.env.set(s, { name: id(d.name.text), rep: r, ref: false }); return `let mut ${id(d.name.text)}: ${rt(r)};`; }
      if (isExports(init)) { this.note("a name for instance.exports -> the instance itself"); this.env.set(s, { exports: this.exportsBase(init) }); return ""; }
      const vw = viewOf(s);
      if (vw) {
        if (vw.bad) no("a view with an offset", d);
        const b = this.place(vw.base);
        this.note("a typed-array or DataView over a buffer -> the buffer itself, accessed at that element size");
        if (!vw.whole && vw.kind !== "dv") {
          // Uint8Array over x.buffer: the same bytes only when x is the whole buffer (made here by new)
          if (!this.freshLocal(vw.base)) no("a typed array over another's buffer", d);
        }
        this.env.set(s, { view: vw.kind, base: b, win: vw.win, whole: vw.whole || this.freshLocal(vw.base), rep: vw.kind === "dv" ? R.dv : vw.kind === "u8" ? R.u8 : R.u32 });
        return "";
      }
      if (ts.isNewExpression(init) && /^Text(En|De)coder$/.test(init.expression.getText()) && !(init.arguments?.length)) { this.env.set(s, { unit: init.expression.getText() }); return ""; }
      if (this.f.state && !awaited(d.initializer) && isPromise(ck.getTypeOfSymbolAtLocation(s, d.name))) return this.bind(d.name, { c: this.promise(d.initializer), rep: R.prom, own: "copy" });
      let rep = declRep();
      const e = this.expr(d.initializer, rep);
      if (e.rep.k === "opt" && e.rep.of.k === "ref") return this.bind(d.name, e);
      if (e.rep.k === "arr" && rep.k === "arr" && !same(e.rep, rep)) return this.bind(d.name, e);
      if (e.own === "ref" || e.own === "place") {
        if (this.f.mutSyms.has(s)) no("a second name for an object that is changed", d);
        if (!same(e.rep, rep)) rep = e.rep;
      }
      // any: a value whose representation is known keeps it
      if (rep.k === "val" && e.rep.k !== "val" && !d.type) return this.bind(d.name, e);
      if (d.type || rep.k !== "st") return this.bind(d.name, this.coerce(e, rep, init));
      return this.bind(d.name, e);
    }
    if (ts.isObjectBindingPattern(d.name)) {
      if (init && ts.isCallExpression(init) && init.expression.kind === K.ImportKeyword) { this.note("await import(..) of a module of these sources -> its functions"); return ""; }
      const e = this.expr(init);
      if (e.rep.k !== "st") no("destructuring of " + e.rep.k, d);
      const t = `__d${this.ntmp++}`;
      const out = [];
      if (e.own === "owned") out.push(`let ${t} = ${e.c};`);
      const src = e.own === "owned" ? t : e.c;
      for (const b of d.name.elements) {
        if (b.dotDotDotToken || !ts.isIdentifier(b.name)) no("pattern", b);
        const pn = (b.propertyName || b.name).text;
        const fr = this.field(e.rep, pn, b, d.initializer);
        let x = { c: `${src}.${id(pn)}`, rep: fr, own: isCopy(fr) ? "copy" : e.own === "owned" ? "owned" : "place" };
        if (b.initializer) {
          if (fr.k !== "opt" || !isCopy(fr)) no("default in a pattern", b);
          x = { c: `js_opt_or(${x.c}, ${this.coerce(this.expr(b.initializer, fr.of), fr.of, b).c})`, rep: fr.of, own: "copy" };
        }
        out.push(this.bind(b.name, x));
      }
      return out.join("\n");
    }
    if (ts.isArrayBindingPattern(d.name) && init) {
      const e = this.expr(init);
      if (e.rep.k !== "arr" || !isCopy(e.rep.e)) no("destructuring of " + e.rep.k, d);
      const t = `__d${this.ntmp++}`;
      const out = [e.own === "owned" ? `let ${t} = ${e.c};` : `let ${t} = ${e.own === "ref" ? "" : "&"}${e.c};`];
      d.name.elements.forEach((b, i) => {
        if (ts.isOmittedExpression(b)) return;
        if (b.dotDotDotToken || b.initializer || !ts.isIdentifier(b.name)) no("pattern", b);
        out.push(this.bind(b.name, { c: `${t}.get_(js_n(${i}))`, rep: e.rep.e, own: "copy" }));
      });
      this.note("const [a, b] = array -> its elements by index");
      return out.join("\n");
    }
    no("declaration pattern", d);
  }
  freshLocal(n) {
    n = strip(n);
    const d = ts.isIdentifier(n) && symOf(n)?.valueDeclaration;
    const i = d && ts.isVariableDeclaration(d) && (ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const) && d.initializer && strip(d.initializer);
    return !!(i && ts.isNewExpression(i) && /^(Uint8Array|Uint32Array|ArrayBuffer)$/.test(i.expression.getText()) && i.arguments?.length === 1 && repOf(ck.getTypeAtLocation(i.arguments[0]), i).k === "num");
  }
  exportsBase(n) {
    n = strip(n);
    if (ts.isIdentifier(n)) return this.env.get(symOf(n))?.exports ?? no("exports", n);
    const o = strip(n.expression);
    if (ts.isPropertyAccessExpression(o) && isThis(o.expression)) return this.f.ctor ? `this_${o.name.text}` : `self.${id(o.name.text)}`;
    if (ts.isIdentifier(o) && this.env.get(symOf(o))) return this.env.get(symOf(o)).name;
    no("exports of " + o.getText(), n);
  }
  exprStmt(n) {
    if (this.f.state && awaited(n)) return `${this.awaitExpr(awaited(n), n).c};`;
    n = strip(n);
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) return this.assign(n);
    if ((ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken)) return this.step(n);
    if (ts.isCallExpression(n) && /^console\.\w+$/.test(n.expression.getText())) {
      if (!n.arguments.every((a) => this.pure(a))) no("console call with effects", n);
      this.note("console output dropped");
      return "";
    }
    if (ts.isCallExpression(n)) { const e = this.expr(n, undefined, true); return e.rep.k === "void" ? `${e.c};` : `let _ = ${e.c};`; }
    if (this.pure(n)) return "";
    no("expression statement", n);
  }
  step(n) {
    const o = strip(n.operand);
    const fn = n.operator === K.PlusPlusToken ? "js_add" : "js_sub";
    if (!ts.isIdentifier(o)) no("++ on a place", n);
    const v = this.local(o);
    if (v.rep.k !== "num") no("++ on " + v.rep.k, n);
    return `${v.name} = ${fn}(${v.name}, js_n(1));`;
  }
  local(n) {
    const v = this.env.get(symOf(n));
    if (!v || !v.name) no("variable " + n.getText(), n);
    return v;
  }
  assign(n) {
    const dp = ts.isIdentifier(strip(n.left)) && [...this.sig.ps].find((p) => p.sym === symOf(strip(n.left)));
    if (dp && dp.mode !== "copy" && this.defaulted(dp)) {
      const d = dp.rep.of, sy = [...STRUCTS].find((x) => x.name === d.name);
      const fs_ = ck.getDeclaredTypeOfSymbol(sy).getProperties().map((q) => id(q.name));
      this.env.set(dp.sym, { name: dp.name, rep: d, ref: false });
      this.note("x = x || {} for an optional record -> the record, or one without fields");
      return `let ${dp.name}: ${d.name} = match ${dp.name} { Some(__o) => ${d.name} { ${fs_.map((q) => `${q}: __o.${q}`).join(", ")} }, None => ${d.name} { ${fs_.map((q) => `${q}: None`).join(", ")} } };`;
    }
    const op = n.operatorToken.kind, l = strip(n.left);
    const OPS = { [K.PlusEqualsToken]: K.PlusToken, [K.MinusEqualsToken]: K.MinusToken, [K.AsteriskEqualsToken]: K.AsteriskToken, [K.SlashEqualsToken]: K.SlashToken, [K.PercentEqualsToken]: K.PercentToken,
      [K.CaretEqualsToken]: K.CaretToken, [K.AmpersandEqualsToken]: K.AmpersandToken, [K.BarEqualsToken]: K.BarToken, [K.GreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanToken, [K.LessThanLessThanEqualsToken]: K.LessThanLessThanToken };
    if (ts.isIdentifier(l)) {
      const v = this.local(l);
      if (op === K.EqualsToken && v.rep.nul && strip(n.right).kind === K.NullKeyword) return `${v.name} = None;`;
      if (op === K.EqualsToken) return `${v.name} = ${this.owned(n.right, v.rep)};`;
      if (op === K.QuestionQuestionEqualsToken && v.rep.k === "opt" && isCopy(v.rep)) return `if ${v.name}.is_none() { ${v.name} = ${this.owned(n.right, v.rep)}; }`;
      if (!OPS[op]) no("assignment operator", n);
      const r = this.arith(OPS[op], { c: v.name, rep: v.rep, own: "copy" }, this.expr(n.right), n);
      if (!same(r.rep, v.rep)) no("compound assignment changes the type", n);
      return `${v.name} = ${r.c};`;
    }
    if (ts.isElementAccessExpression(l) && op === K.EqualsToken) {
      const b = this.bytesPlace(l.expression);
      const i = this.coerce(this.expr(l.argumentExpression), R.num, n), x = this.coerce(this.expr(n.right), R.num, n);
      const t = this.ntmp++;
      return `{ let __i${t} = ${i.c}; let __x${t} = ${x.c}; ${b.c}.${b.el}_set(__i${t}, __x${t}); }`;
    }
    if (this.f.ctor && ts.isPropertyAccessExpression(l) && isThis(l.expression) && op === K.EqualsToken) {
      const r = repOf(ck.getTypeAtLocation(l), l);
      return `this_${l.name.text} = ${this.owned(n.right, r)};`;
    }
    if (ts.isPropertyAccessExpression(l) && isThis(l.expression) && op === K.EqualsToken) return `self.${id(l.name.text)} = ${this.owned(n.right, repOf(ck.getTypeAtLocation(l), l))};`;
    no("assignment target", n);
  }
  /// A place holding bytes: code that can be the receiver of a method, and the element size.
  bytesPlace(n) {
    n = strip(n);
    if (ts.isIdentifier(n)) {
      const v = this.env.get(symOf(n));
      if (v?.view) return { c: v.base, el: v.view, win: v.win, whole: v.whole };
      if (v?.name && v.rep.k === "bytes") return { c: v.name, el: v.rep.el };
    }
    no("bytes place " + n.getText(), n);
  }
  place(n) {
    n = strip(n);
    if (ts.isIdentifier(n)) { const v = this.env.get(symOf(n)); if (v?.view) return v.base; if (v?.name) return v.name; }
    no("place " + n.getText(), n);
  }

  // ---- conditions
  cond(n) {
    n = strip(n);
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) return `!(${this.cond(n.operand)})`;
    if (ts.isBinaryExpression(n) && (n.operatorToken.kind === K.AmpersandAmpersandToken || n.operatorToken.kind === K.BarBarToken))
      return `(${this.cond(n.left)} ${n.operatorToken.kind === K.BarBarToken ? "||" : "&&"} ${this.cond(n.right)})`;
    const e = this.expr(n);
    return this.truthy(e, n);
  }
  truthy(e, n) {
    switch (e.rep.k) {
      case "bool": return `(${e.c})`;
      case "num": case "big": case "str": return `(${e.c}).truthy()`;
      case "val": return `(${e.c}).truthy()`;
      case "opt": if (isCopy(e.rep)) return e.rep.of.k === "prom" ? `(${e.c}).is_some()` : e.rep.of.k === "bool" ? `js_opt_bool(${e.c})` : `js_opt_truthy_${e.rep.of.k}(${e.c})`;
    }
    no("truth value of " + e.rep.k, n);
  }

  // ---- expressions
  owned(n, rep) {
    const e = this.coerce(this.expr(n, rep), rep, n);
    if (e.own === "ref") no("a borrowed value is returned or stored", n);
    return e.c;
  }
  borrowed(e) { return e.own === "ref" || e.own === "copy" ? e.c : `&${e.c}`; }
  coerce(e, rep, n) {
    if (rep.k === "ref") { const x = this.coerce(e, rep.of, n); return { c: this.borrowed(x), rep, own: "copy" }; }
    if (same(e.rep, rep)) return e;
    if (e.rep.k === "undef") {
      if (rep.k === "opt") return { c: "None", rep, own: isCopy(rep) ? "copy" : "owned" };
      if (rep.k === "val") return { c: "js_val_undefined()", rep, own: "owned" };
    }
    if (rep.k === "opt" && e.rep.k !== "opt") { const x = this.coerce(e, rep.of, n); if (x.own === "ref" || x.own === "place" && !isCopy(rep.of)) no("optional of a reference", n); return { c: `Some(${x.c})`, rep, own: isCopy(rep) ? "copy" : "owned" }; }
    if (rep.k === "val" && ["num", "big", "str", "bool"].includes(e.rep.k)) return { c: `js_val_${e.rep.k}(${e.c})`, rep, own: "owned" };
    if (rep.k === "bytes" && e.rep.k === "bytes" && (rep.el === "ab" || e.rep.el === "ab" || rep.el === "u8")) return { ...e, rep };
    if (rep.k === "arr" && e.rep.k === "arr" && e.c === "JArr::empty()") return { ...e, rep };
    no(`a ${rt2(e.rep)} where a ${rt2(rep)} is wanted`, n);
  }
  narrow(x, n) {
    if (x.rep.k !== "opt") return x;
    const t = ck.getTypeAtLocation(n);
    const un = ts.TypeFlags.Undefined | (x.rep.nul ? ts.TypeFlags.Null : 0);
    const has = (t.flags & un) || (t.isUnion() && t.types.some((u) => u.flags & un)) || (t.flags & ts.TypeFlags.Any);
    if (has) return x;
    const of = x.rep.of;
    if (of.k === "ref") return { c: `js_some(${x.c})`, rep: of.of, own: "ref" };
    return { c: `js_some(${x.c})`, rep: of, own: isCopy(of) ? "copy" : "owned" };
  }
  field(rep, name, n, at) {
    if (rep.name === "WasmEncap") { if (["ciphertext", "key"].includes(name)) return R.u8; no("field " + name, n); }
    const t = ck.getTypeAtLocation(at).getNonNullableType?.() || ck.getTypeAtLocation(at);
    const p = t.getProperty(name) || no("field " + name, n);
    const r = repOf(ck.getTypeOfSymbolAtLocation(p, n), n);
    return p.flags & ts.SymbolFlags.Optional && r.k !== "opt" ? R.opt(r) : r;
  }
  expr(n0, want, stmt) {
    if (this.f.state && awaited(n0)) return this.awaitExpr(awaited(n0), n0);
    const n = strip(n0);
    const wp = this.f.state && want && (want.k === "prom" || want.k === "opt" && want.of.k === "prom");
    if (ts.isCallExpression(n) && (wp || isPromise(ck.getTypeAtLocation(n))) && !this.isAwaited(n)) {
      if (wp) return { c: this.promise(n), rep: R.prom, own: "copy" };
      if (!stmt) no("a promise that is not awaited", n);
      const g = callee(strip(n.expression));
      if (!g || g.selfMut || g.mutSyms.size) no("a promise that is not awaited", n);
      this.note("f() not awaited -> its outcome is not known");
      const x = this.call(n);
      return { c: x.c.replace(/\?$/, ""), rep: R.arr(x.rep), own: "owned" };
    }
    switch (n.kind) {
      case K.NumericLiteral: { const x = Number(n.text); if (!Number.isSafeInteger(x)) no("number " + n.text, n); return { c: `js_n(${x})`, rep: R.num, own: "copy" }; }
      case K.BigIntLiteral: return { c: bigLit(BigInt(n.text.slice(0, -1))), rep: R.big, own: "copy" };
      case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return { c: strLit(n.text), rep: R.str, own: "copy" };
      case K.TrueKeyword: return { c: "true", rep: R.bool, own: "copy" };
      case K.FalseKeyword: return { c: "false", rep: R.bool, own: "copy" };
      case K.NullKeyword: return { c: "js_val_null()", rep: R.val, own: "owned" };
      case K.Identifier: return this.ident(n);
      case K.TemplateExpression: {
        let c = n.head.text ? strLit(n.head.text) : null;
        for (const s of n.templateSpans) {
          const x = this.toStr(this.expr(s.expression), s);
          c = c === null ? x : `js_cat(${c}, ${x})`;
          if (s.literal.text) c = `js_cat(${c}, ${strLit(s.literal.text)})`;
        }
        return { c: c ?? "js_empty()", rep: R.str, own: "copy" };
      }
      case K.PropertyAccessExpression: return this.prop(n);
      case K.ElementAccessExpression: return this.index(n);
      case K.CallExpression: return this.call(n, want);
      case K.NewExpression: return this.newx(n, want);
      case K.PrefixUnaryExpression:
        if (n.operator === K.ExclamationToken) return { c: `!(${this.cond(n.operand)})`, rep: R.bool, own: "copy" };
        if (n.operator === K.MinusToken) {
          const o = strip(n.operand);
          if (ts.isNumericLiteral(o)) { const x = Number(o.text); if (!Number.isSafeInteger(x) || x === 0) no("number", n); return { c: `js_n(-${x})`, rep: R.num, own: "copy" }; }
          const e = this.expr(n.operand);
          if (e.rep.k === "big") return { c: `js_big_neg(${e.c})`, rep: R.big, own: "copy" };
        }
        if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) { const v = this.local(strip(n.operand)); return { c: `({ ${this.step(n)} ${v.name} })`, rep: R.num, own: "copy" }; }
        return no("unary operator", n);
      case K.PostfixUnaryExpression: { const v = this.local(strip(n.operand)); const t = this.ntmp++; return { c: `({ let __p${t} = ${v.name}; ${this.step(n)} __p${t} })`, rep: R.num, own: "copy" }; }
      case K.BinaryExpression: return this.binary(n);
      case K.ConditionalExpression: {
        const c = this.cond(n.condition);
        let a = this.expr(n.whenTrue, want), b = this.expr(n.whenFalse, want);
        if (!same(a.rep, b.rep)) { const r = want || repOf(ck.getTypeAtLocation(n), n); a = this.coerce(a, r, n); b = this.coerce(b, r, n); }
        if (isCopy(a.rep)) return { c: `(if ${c} { ${a.c} } else { ${b.c} })`, rep: a.rep, own: "copy" };
        if (a.own === "owned" && b.own === "owned") return { c: `(if ${c} { ${a.c} } else { ${b.c} })`, rep: a.rep, own: "owned" };
        if (a.own === "owned" || b.own === "owned") no("choice between a new and an existing object", n);
        return { c: `(if ${c} { ${this.borrowed(a)} } else { ${this.borrowed(b)} })`, rep: a.rep, own: "ref" };
      }
      case K.ArrayLiteralExpression: {
        if (!n.elements.length) { const r = want?.k === "arr" ? want : repOf(ck.getTypeAtLocation(n), n); return { c: "JArr::empty()", rep: r, own: "owned" }; }
        const er = want?.k === "arr" ? want.e : repOf(ck.getTypeAtLocation(n.elements[0]), n);
        let c = "JArr::empty()";
        for (const e of n.elements) { if (ts.isSpreadElement(e)) no("spread", e); c = `js_with(${c}, ${this.owned(e, er)})`; }
        return { c, rep: R.arr(er), own: "owned" };
      }
      case K.ObjectLiteralExpression: return this.object(n, want);
    }
    no("expression " + K[n.kind], n);
  }
  object(n, want) {
    if (!want || (want.k !== "st" && want.k !== "lit")) no("object literal without a known type", n);
    const fields = {};
    for (const p of n.properties) {
      if (ts.isShorthandPropertyAssignment(p)) fields[p.name.text] = [p.name, p];
      else if (ts.isPropertyAssignment(p)) fields[p.name.text] = [p.initializer, p];
      else no("object member", p);
    }
    if (want.k === "lit") {
      for (const k of Object.keys(fields)) if (!want.fields.includes(k)) no("option " + k, n);
      const all = Object.keys(LITF).map((k) => `${k}: ${fields[k] ? `Some(${isCopy(LITF[k]) ? this.coerce(this.expr(fields[k][0]), LITF[k], n).c : this.borrowed(this.coerce(this.expr(fields[k][0]), LITF[k], n))})` : "None"}`);
      return { c: `${want.name} { ${all.join(", ")} }`, rep: want, own: "owned" };
    }
    const sym = [...STRUCTS].find((s) => s.name === want.name) || no("type " + want.name, n);
    const t = ck.getDeclaredTypeOfSymbol(sym);
    const cs = [];
    for (const p of t.getProperties()) {
      const r0 = repOf(ck.getTypeOfSymbolAtLocation(p, n), n);
      const r = p.flags & ts.SymbolFlags.Optional && r0.k !== "opt" ? R.opt(r0) : r0;
      cs.push(`${id(p.name)}: ${fields[p.name] ? this.owned(fields[p.name][0], r) : r.k === "opt" ? "None" : no("missing field", n)}`);
    }
    for (const k of Object.keys(fields)) if (!t.getProperty(k)) no("extra field " + k, n);
    return { c: `${want.name} { ${cs.join(", ")} }`, rep: want, own: "owned" };
  }
  ident(n) {
    if (n.text === "undefined") return { c: "None", rep: { k: "undef" }, own: "copy" };
    const s = symOf(n), v = this.env.get(s);
    if (v?.view) { if (!v.whole && v.view !== "dv") no("view used as a value", n); return { c: v.base, rep: v.rep, own: "place" }; }
    if (v?.name) return this.narrow({ c: v.name, rep: v.rep, own: isCopy(v.rep) ? "copy" : v.ref ? "ref" : "place" }, n);
    // a module-level constant with a literal value
    const d = s?.valueDeclaration;
    if (d && ts.isVariableDeclaration(d) && ts.isSourceFile(d.parent.parent.parent) && (ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const) && d.initializer) {
      const i = strip(d.initializer);
      const lit = ts.isLiteralExpression(i) || this.constBig(i) !== undefined || (ts.isBinaryExpression(i) && this.pure(i));
      if (lit) { this.note("module-level constant inlined"); return this.expr(i); }
    }
    no("name " + n.text, n);
  }
  toStr(e, n) {
    if (e.rep.k === "str") return e.c;
    if (e.rep.k === "num") return `(${e.c}).to_string0()`;
    if (e.rep.k === "big") return `(${e.c}).to_string0()`;
    no("text of " + e.rep.k, n);
  }
  prop(n) {
    const name = n.name.text, o = strip(n.expression);
    if (isThis(o)) {
      const r = repOf(ck.getTypeAtLocation(n), n);
      return { c: this.f.ctor ? `this_${name}` : `self.${id(name)}`, rep: r, own: isCopy(r) ? "copy" : "place" };
    }
    if (ts.isIdentifier(o)) {
      const v = this.env.get(symOf(o));
      if (v?.view && (name === "length" || name === "byteLength")) {
        if (!v.whole && !(v.win === "exact")) no("length of a partial view", n);
        return { c: name === "byteLength" || v.view !== "u32" ? `${v.base}.byte_length()` : `${v.base}.u32_length()`, rep: R.num, own: "copy" };
      }
    }
    if (o.getText() === "Number" && name === "MAX_SAFE_INTEGER") return { c: "js_n(9007199254740991)", rep: R.num, own: "copy" };
    const e = this.expr(n.expression);
    if (name === "length") {
      if (e.rep.k === "arr" || e.rep.k === "str") return { c: `${e.c}.length()`, rep: R.num, own: "copy" };
      if (e.rep.k === "bytes") return { c: e.rep.el === "u32" ? `${e.c}.u32_length()` : `${e.c}.byte_length()`, rep: R.num, own: "copy" };
      if (e.rep.k === "val") return { c: `${e.c}.arr_length()`, rep: R.num, own: "copy" };
    }
    if (name === "byteLength" && e.rep.k === "bytes") return { c: `${e.c}.byte_length()`, rep: R.num, own: "copy" };
    if (name === "size" && e.rep.k === "map") return { c: `${e.c}.size()`, rep: R.num, own: "copy" };
    if (e.rep.k === "st") { const r = this.field(e.rep, name, n, n.expression); return this.narrow({ c: `${e.c}.${id(name)}`, rep: r, own: isCopy(r) ? "copy" : e.own === "owned" ? "owned" : "place" }, n); }
    no(`property ${name} of ${rt2(e.rep)}`, n);
  }
  index(n) {
    const o = strip(n.expression);
    if (ts.isIdentifier(o)) {
      const v = this.env.get(symOf(o));
      if (v?.view || (v?.name && v.rep.k === "bytes")) {
        const b = this.bytesPlace(o);
        return { c: `${b.c}.${b.el}_get(${this.coerce(this.expr(n.argumentExpression), R.num, n).c})`, rep: R.num, own: "copy" };
      }
    }
    const e = this.expr(n.expression), i = this.expr(n.argumentExpression);
    if (e.rep.k === "arr") return { c: `${e.c}.${isCopy(e.rep.e) ? "get_" : "get_ref"}(${this.coerce(i, R.num, n).c})`, rep: e.rep.e, own: isCopy(e.rep.e) ? "copy" : "ref" };
    if (e.rep.k === "val" && i.rep.k === "num") return { c: `${e.c}.index(${i.c})`, rep: R.val, own: "ref" };
    if (e.rep.k === "val" && i.rep.k === "str") return { c: `${e.c}.member(${i.c})`, rep: R.val, own: "ref" };
    if (e.rep.k === "str" && i.rep.k === "num") no("character access", n);
    no("index of " + e.rep.k, n);
  }
  constBig(n) {
    n = strip(n);
    if (ts.isBigIntLiteral(n)) return BigInt(n.text.slice(0, -1));
    if (ts.isCallExpression(n) && n.expression.getText() === "BigInt" && n.arguments.length === 1) {
      const a = strip(n.arguments[0]);
      if (ts.isStringLiteral(a)) { try { return BigInt(a.text); } catch { return; } }
      if (ts.isNumericLiteral(a)) { const x = Number(a.text); return Number.isSafeInteger(x) ? BigInt(x) : undefined; }
    }
    if (ts.isBinaryExpression(n)) {
      const a = this.constBig(n.left), b = this.constBig(n.right);
      if (a === undefined || b === undefined) return;
      switch (n.operatorToken.kind) {
        case K.AsteriskAsteriskToken: return b >= 0n && b < 5000n ? a ** b : undefined;
        case K.LessThanLessThanToken: return b >= 0n && b < 5000n ? a << b : undefined;
        case K.MinusToken: return a - b; case K.PlusToken: return a + b; case K.AsteriskToken: return a * b;
      }
    }
  }
  binary(n) {
    const op = n.operatorToken.kind;
    const cb = this.constBig(n);
    if (cb !== undefined) { this.note("constant bigint expression folded"); return { c: bigLit(cb), rep: R.big, own: "copy" }; }
    if (op === K.AmpersandAmpersandToken) return { c: this.cond(n), rep: R.bool, own: "copy" };
    if (op === K.BarBarToken) {
      const t = repOf(ck.getTypeAtLocation(n), n);
      if (t.k === "bool") return { c: this.cond(n), rep: R.bool, own: "copy" };
      if (t.k === "opt" && t.of.k === "bool") return { c: this.cond(n), rep: R.bool, own: "copy" };
      no("|| as a value", n);
    }
    if (op === K.QuestionQuestionToken) {
      const a = this.expr(n.left);
      if (a.rep.k !== "opt" || !isCopy(a.rep)) no("?? on " + a.rep.k, n);
      const b = this.expr(n.right, a.rep.of);
      if (b.rep.k === "opt" && same(b.rep, a.rep)) { const q = `__q${this.ntmp++}`; return { c: `({ let ${q} = ${a.c}; if ${q}.is_some() { ${q} } else { ${b.c} } })`, rep: a.rep, own: "copy" }; }
      return { c: `js_opt_or(${a.c}, ${this.coerce(this.expr(n.right, a.rep.of), a.rep.of, n).c})`, rep: a.rep.of, own: "copy" };
    }
    const EQ = [K.EqualsEqualsEqualsToken, K.EqualsEqualsToken], NE = [K.ExclamationEqualsEqualsToken, K.ExclamationEqualsToken];
    if (EQ.includes(op) || NE.includes(op)) {
      const neg = NE.includes(op) ? "!" : "", strict = op === K.EqualsEqualsEqualsToken || op === K.ExclamationEqualsEqualsToken;
      const un = (x) => { x = strip(x); return ts.isIdentifier(x) && x.text === "undefined"; }, nu = (x) => strip(x).kind === K.NullKeyword;
      let [l, r] = [n.left, n.right];
      if (un(l) || nu(l) || ts.isStringLiteral(strip(l))) [l, r] = [r, l];
      const lt = strip(l);
      if (ts.isTypeOfExpression(lt)) {
        const w = strip(r);
        if (!ts.isStringLiteral(w)) no("typeof", n);
        const e = this.expr(lt.expression);
        if (e.rep.k !== "val") no("typeof of " + e.rep.k, n);
        return { c: `${neg}${e.c}.typeof_is_${w.text}()`, rep: R.bool, own: "copy" };
      }
      const e = this.expr(l);
      if (un(r) || nu(r)) {
        if (e.rep.k === "opt") { if (strict && nu(r) !== !!e.rep.nul) no("=== null on an optional", n); return { c: `${neg}${e.c}.is_none()`, rep: R.bool, own: "copy" }; }
        if (e.rep.k === "val") return { c: strict ? `${neg}${e.c}.${un(r) ? "is_undefined" : "is_null"}()` : `${neg}${e.c}.is_nullish()`, rep: R.bool, own: "copy" };
        no("comparison with undefined of " + e.rep.k, n);
      }
      const f = this.expr(r);
      if (e.rep.k === f.rep.k && ["num", "big", "str"].includes(e.rep.k)) return { c: `${neg}js_${e.rep.k === "num" ? "" : e.rep.k + "_"}eq(${e.c}, ${f.c})`, rep: R.bool, own: "copy" };
      if (e.rep.k === "bool" && f.rep.k === "bool") return { c: `(${e.c} ${neg ? "!=" : "=="} ${f.c})`, rep: R.bool, own: "copy" };
      if (!strict && e.rep.k === "big" && f.rep.k === "num") return { c: `${neg}js_big_eqn(${e.c}, ${f.c})`, rep: R.bool, own: "copy" };
      no(`comparison of ${rt2(e.rep)} and ${rt2(f.rep)}`, n);
    }
    return this.arith(op, this.expr(n.left), this.expr(n.right), n);
  }
  arith(op, a, b, n) {
    const CMP = { [K.LessThanToken]: "lt", [K.LessThanEqualsToken]: "le", [K.GreaterThanToken]: "gt", [K.GreaterThanEqualsToken]: "ge" };
    const A = { [K.PlusToken]: "add", [K.MinusToken]: "sub", [K.AsteriskToken]: "mul", [K.SlashToken]: "div", [K.PercentToken]: "rem", [K.AmpersandToken]: "and", [K.BarToken]: "or", [K.CaretToken]: "xor",
      [K.LessThanLessThanToken]: "shl", [K.GreaterThanGreaterThanToken]: "shr", [K.GreaterThanGreaterThanGreaterThanToken]: "ushr", [K.AsteriskAsteriskToken]: "pow" };
    if (CMP[op]) {
      if (a.rep.k === "num" && b.rep.k === "num") return { c: `js_${CMP[op]}(${a.c}, ${b.c})`, rep: R.bool, own: "copy" };
      if (a.rep.k === "big" && b.rep.k === "big") return { c: `js_big_${CMP[op]}(${a.c}, ${b.c})`, rep: R.bool, own: "copy" };
      if (a.rep.k === "big" && b.rep.k === "num") return { c: `js_big_${CMP[op]}n(${a.c}, ${b.c})`, rep: R.bool, own: "copy" };
    } else if (A[op]) {
      if (a.rep.k === "num" && b.rep.k === "num") return { c: `js_${A[op]}(${a.c}, ${b.c})`, rep: R.num, own: "copy" };
      if (a.rep.k === "big" && b.rep.k === "big") {
        const f = ["div", "rem"].includes(A[op]);
        return { c: `js_big_${A[op]}(${a.c}, ${b.c})${f ? "?" : ""}`, rep: R.big, own: "copy" };
      }
      if (A[op] === "add" && (a.rep.k === "str" || b.rep.k === "str")) return { c: `js_cat(${this.toStr(a, n)}, ${this.toStr(b, n)})`, rep: R.str, own: "copy" };
    }
    no(`operator ${ts.tokenToString(op)} on ${rt2(a.rep)} and ${rt2(b.rep)}`, n);
  }
  args(list, reps, n) {
    if (list.length > reps.length) no("more arguments than the contract takes", n);
    return list.map((a, i) => {
      if (ts.isSpreadElement(a)) no("spread", a);
      const r = reps[i];
      if (r.k === "lit") return "&" + this.object(strip(a), r).c;
      const e = this.coerce(this.expr(a, r), r, a);
      if (isCopy(r)) return e.c;
      if (r.own) { if (e.own !== "owned") no("a buffer that is filled in place is also named", a); return e.c; }
      return this.borrowed(e);
    });
  }
  isAwaited(n) {
    let p = n.parent;
    while (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p)) p = p.parent;
    return ts.isAwaitExpression(p) || ts.isReturnStatement(p) || (ts.isArrowFunction(p) && p.body !== n.parent);
  }
  call(n, want) {
    const e = strip(n.expression), txt = e.getText().replace(/\s+/g, "");
    const cb = this.constBig(n);
    if (cb !== undefined) { this.note("constant bigint expression folded"); return { c: bigLit(cb), rep: R.big, own: "copy" }; }
    const ext = (d, recv) => {
      let [name, reps, ret, f] = d;
      const as = this.args(n.arguments, reps, n);
      if (Array.isArray(name)) { const k = name.length - 1 - (reps.length - as.length); name = name[k] ?? no("argument count", n); }
      else if (as.length !== reps.length) no("argument count of " + name, n);
      if (ret === "self") ret = recv.rep;
      return { c: (recv ? `${recv.c}.${name}` : name) + `(${as.join(", ")})` + (f ? "?" : ""), rep: ret, own: isCopy(ret) ? "copy" : "owned" };
    };
    // functions of these sources
    const g = callee(e);
    if (g) {
      const sg = sigOf(g), as = [];
      if (g.state) { if (this.f.state && g.sf === this.f.sf) as.push("m"); else this.note(`${g.name}(), which has module state -> its contract as other functions see it`); }
      if (g.node.typeParameters) no("generic function", n);
      for (const c of sg.cs) {
        const v = this.env.get(c.sym) || no("capture " + c.name, n);
        if (v.view) no("captured view", n);
        as.push(c.mode === "copy" ? v.name : c.mode === "mut" ? (v.ref ? v.name : `&mut ${v.name}`) : v.ref ? v.name : `&${v.name}`);
      }
      if (n.arguments.length > sg.ps.length) no("argument count", n);
      sg.ps.forEach((p, i) => {
        const a = n.arguments[i];
        if (!a) {
          if (p.def) as.push(this.defArg(p)); else if (p.rep.k === "opt") as.push(p.mode === "ref" ? "&None" : "None"); else no("missing argument", n);
          return;
        }
        if (ts.isSpreadElement(a)) no("spread", a);
        let x = this.expr(a, p.rep);
        if (!same(x.rep, p.rep)) x = this.coerce(x, p.rep, a);
        if (p.mode === "copy") as.push(x.c);
        else if (p.mode === "own") { if (x.own === "ref") no("a borrowed object is stored", a); as.push(x.c); }
        else if (p.mode === "mut") as.push(x.own === "ref" ? x.c : x.own === "place" ? `&mut ${x.c}` : no("a temporary is changed", a));
        else as.push(this.borrowed(x));
      });
      let recv = id(g.name);
      if (g.cls) recv = isThis(e.expression) ? `self.${recv}` : `${this.expr(e.expression).c}.${recv}`;
      const r = sg.ret;
      return { c: `${recv}(${as.join(", ")})?`, rep: r, own: isCopy(r) ? "copy" : "owned" };
    }
    // exports of the circuit module
    if (ts.isPropertyAccessExpression(e) && isExports(e.expression)) {
      const d = EXPORTS[e.name.text] || no("export " + e.name.text, n);
      const as = this.args(n.arguments, d[0], n);
      if (as.length !== d[0].length) no("argument count of " + e.name.text, n);
      const b = this.exportsBase(e.expression);
      return { c: `${b}.${e.name.text}(${as.join(", ")})?`, rep: d[1] ? R.num : R.void, own: "copy" };
    }
    if (txt === "WebAssembly.instantiate") {
      // the module calls the imports; exceptionHandler is the one that can stop it, and has a contract of its own
      const o = n.arguments.length === 2 && strip(n.arguments[1]);
      const rt_ = o && ts.isObjectLiteralExpression(o) && o.properties.length === 1 && o.properties[0].name?.getText() === "runtime" && strip(o.properties[0].initializer);
      const names = rt_ && ts.isObjectLiteralExpression(rt_) && rt_.properties.every((q) => ts.isMethodDeclaration(q)) && rt_.properties.map((q) => q.name.getText()).sort().join();
      if (names !== "exceptionHandler,printErrorMessage,showSharedRWMemory,writeBufferMessage") no("imports of the circuit module", n);
      this.note("WebAssembly.instantiate(m, { runtime: .. }) -> the instance; the imports are functions of their own");
      return { c: `js_wasm_instantiate(${this.borrowed(this.coerce(this.expr(n.arguments[0]), R.st("WModule"), n))})?`, rep: R.st("Instance"), own: "owned" };
    }
    if (CALLS[txt]) return ext(CALLS[txt]);
    if (txt === "Array.from" && n.arguments.length === 1) { const x = this.expr(n.arguments[0]); if (x.rep.k === "arr" && x.own === "owned") return x; no("Array.from", n); }
    if (txt === "Math.max" || txt === "Math.min") {
      const a = n.arguments;
      if (a.length === 1 && ts.isSpreadElement(a[0])) { const x = this.expr(a[0].expression); if (x.rep.k === "arr" && x.rep.e.k === "num") return { c: `js_${txt.slice(5)}_of(${this.borrowed(x)})?`, rep: R.num, own: "copy" }; }
      if (a.length === 2) { const as = this.args(a, [R.num, R.num], n); return { c: `js_${txt.slice(5)}(${as.join(", ")})`, rep: R.num, own: "copy" }; }
      no(txt, n);
    }
    if (txt === "parseInt" || txt === "Number.parseInt") {
      const x = this.expr(n.arguments[0]), r = n.arguments[1] && strip(n.arguments[1]);
      if (x.rep.k !== "str") no("parseInt of " + x.rep.k, n);
      if (r && ts.isNumericLiteral(r) && r.text === "16") return { c: `js_parse_int16(${x.c})`, rep: R.num, own: "copy" };
      if (r && ts.isNumericLiteral(r) && r.text === "10") return { c: `js_parse_int10(${x.c})`, rep: R.num, own: "copy" };
      return { c: r ? `js_parse_int(${x.c}, ${this.coerce(this.expr(r), R.num, n).c})` : `js_parse_int0(${x.c})`, rep: R.num, own: "copy" };
    }
    if (txt === "BigInt" && n.arguments.length === 1) {
      const x = this.expr(n.arguments[0]);
      if (x.rep.k === "big") return x;
      if (["num", "str"].includes(x.rep.k)) return { c: `js_big_of_${x.rep.k}(${x.c})?`, rep: R.big, own: "copy" };
      if (x.rep.k === "val") return { c: `js_big_of_val(${this.borrowed(x)})?`, rep: R.big, own: "copy" };
    }
    if (txt === "BigInt.asUintN" && n.arguments.length === 2) { const as = this.args(n.arguments, [R.num, R.big], n); return { c: `js_as_uint_n(${as.join(", ")})`, rep: R.big, own: "copy" }; }
    if (txt === "Number" && n.arguments.length === 1) {
      const x = this.expr(n.arguments[0]);
      if (x.rep.k === "num") return x;
      if (x.rep.k === "big") return { c: `js_num_of_big(${x.c})`, rep: R.num, own: "copy" };
      if (x.rep.k === "str") return { c: `js_num_of_str(${x.c})`, rep: R.num, own: "copy" };
    }
    if (/^Number\.is(NaN|Finite|Integer|SafeInteger)$/.test(txt) || txt === "isNaN") {
      const x = this.expr(n.arguments[0]);
      if (x.rep.k === "num") return { c: `(${x.c}).${txt === "isNaN" ? "isNaN" : txt.slice(7)}()`, rep: R.bool, own: "copy" };
    }
    if (txt === "String" && n.arguments.length === 1) {
      const x = this.expr(n.arguments[0]);
      if (x.rep.k === "val") return { c: `js_string_of_val(${this.borrowed(x)})?`, rep: R.str, own: "copy" };
      return { c: this.toStr(x, n), rep: R.str, own: "copy" };
    }
    if (ts.isPropertyAccessExpression(e)) {
      const m = e.name.text, o = strip(e.expression);
      // new TextEncoder().encode(s), encoder.encode(s)
      const unit = ts.isIdentifier(o) ? this.env.get(symOf(o))?.unit : ts.isNewExpression(o) && !(o.arguments?.length) ? o.expression.getText() : undefined;
      if (unit === "TextEncoder" && m === "encode") return ext(["js_utf8_encode", [R.str], R.u8]);
      if (unit === "TextDecoder" && m === "decode") return ext(["js_utf8_decode", [R.u8], R.str]);
      // DataView
      const vw = ts.isIdentifier(o) ? this.env.get(symOf(o)) : undefined;
      if (vw?.view === "dv") {
        const mm = /^(get|set)(\w+)$/.exec(m), ty = mm && DV[mm[2]];
        if (!ty) no("DataView." + m, n);
        const w = vw.whole ? "" : vw.win === "exact" ? "_exact" : vw.win ? "_win" : "_buf";
        const a = [...n.arguments];
        const off = this.coerce(this.expr(a[0]), R.num, n).c;
        const val = mm[1] === "set" ? this.coerce(this.expr(a[1]), ty, n).c : null;
        const le = a[mm[1] === "set" ? 2 : 1], lec = mm[2] === "Uint8" ? null : le ? this.cond(le) : "false";
        if (a.length > (mm[1] === "set" ? 2 : 1) + (mm[2] === "Uint8" ? 0 : 1)) no("arguments of DataView." + m, n);
        return { c: `${vw.base}.dv_${m}${w}(${[off, val, lec].filter((x) => x !== null).join(", ")})?`, rep: mm[1] === "set" ? R.void : ty, own: "copy" };
      }
      if (vw?.view) {
        const recv = { c: vw.base, rep: vw.rep };
        if (!vw.whole) no("method of a partial view", n);
        const d = METHODS.bytes[m];
        if (d && vw.view === "u8") return ext(d, recv);
        no("view." + m, n);
      }
      const x = this.expr(e.expression);
      if (METHODS[x.rep.k]?.[m]) {
        if (x.rep.k === "bytes" && x.rep.el !== "u8" && m !== "slice") no("method of " + x.rep.el, n);
        if (x.rep.k === "bytes" && x.rep.el === "u32") no("slice of a Uint32Array", n);
        return ext(METHODS[x.rep.k][m], { c: `(${x.c})`, rep: x.rep });
      }
      if (x.rep.k === "arr") {
        if ((m === "push" || m === "unshift") && n.arguments.length === 1) return { c: `${x.c}.${m}(${this.owned(n.arguments[0], x.rep.e)})`, rep: R.void, own: "copy" };
        if (m === "length") no("length()", n);
      }
      if (x.rep.k === "map") {
        const { a, b } = x.rep;
        if (m === "get") { const k = this.args(n.arguments, [a], n)[0]; return isCopy(b) ? { c: `${x.c}.get(${k})`, rep: R.opt(b), own: "copy" } : { c: `${x.c}.get_ref(${k})`, rep: R.opt(R.ref(b)), own: "copy" }; }
        if (m === "has") return { c: `${x.c}.has_(${this.args(n.arguments, [a], n)[0]})`, rep: R.bool, own: "copy" };
        if (m === "set") return { c: `${x.c}.set(${this.owned(n.arguments[0], a)}, ${this.owned(n.arguments[1], b)})`, rep: R.void, own: "copy" };
        if (m === "keys") return { c: `${x.c}.keys()`, rep: R.arr(a), own: "owned" };
        if (m === "entries" && isCopy(b)) return { c: `${x.c}.entries()`, rep: R.arr(R.tup([a, b])), own: "owned" };
        if (m === "values" && isCopy(b)) return { c: `${x.c}.values()`, rep: R.arr(b), own: "owned" };
      }
    }
    no("call of " + txt, n);
  }
  defArg(p) {
    const e = this.expr(p.def, p.rep);
    return isCopy(p.rep) ? this.coerce(e, p.rep, p.def).c : this.borrowed(this.coerce(e, p.rep, p.def));
  }
  newx(n, want) {
    const c = n.expression.getText(), a = n.arguments || [];
    if (c === "Map" && !a.length) { const r = want?.k === "map" ? want : repOf(ck.getTypeAtLocation(n), n); return { c: "JMap::empty()", rep: r, own: "owned" }; }
    if (["Uint8Array", "Uint32Array", "ArrayBuffer"].includes(c)) {
      const rep = c === "Uint8Array" ? R.u8 : c === "Uint32Array" ? R.u32 : R.ab;
      if (!a.length) return { c: `js_new_${rep.el}(js_n(0))?`, rep, own: "owned" };
      if (a.length !== 1) no("new " + c + " with an offset", n);
      const e = this.expr(a[0]);
      if (e.rep.k === "num") return { c: `js_new_${rep.el}(${e.c})?`, rep, own: "owned" };
      if (e.rep.k === "bytes" && e.rep.el === "ab" && c === "Uint8Array") { this.note("new Uint8Array(buffer) used as a value -> the buffer's bytes"); return { ...e, rep }; }
      if (e.rep.k === "bytes" && e.rep.el === "u8" && c === "Uint8Array") return { c: `js_u8_copy(${this.borrowed(e)})`, rep, own: "owned" };
      if (e.rep.k === "bytes" && c === "Uint8Array" && want) return { c: `js_u8_copy(${this.borrowed(e)})`, rep, own: "owned" };
    }
    const g = ts.isIdentifier(n.expression) && fns.get("new " + c);
    if (g) {
      const sg = sigOf(g);
      const as = sg.ps.map((p, i) => a[i] ? (p.mode === "copy" ? this.coerce(this.expr(a[i], p.rep), p.rep, n).c : this.owned(a[i], p.rep)) : p.rep.k === "opt" ? "None" : no("missing argument", n));
      return { c: `${c}::new(${as.join(", ")})?`, rep: R.st(c), own: "owned" };
    }
    no("new " + c, n);
  }
}
const rt2 = (r) => { try { return rt(r); } catch { return r.k; } };

// ---------------------------------------------------------------- output
fs.mkdirSync(OUT, { recursive: true });
const report = { functions: [], rejected: [] };
for (const sf of sfs) {
  const rel = path.relative(path.resolve(SRC), path.resolve(sf.fileName));
  const out = [`// translated by tx from ${rel}; not edited`];
  for (const f of order.filter((x) => x.sf === sf)) {
    const line = sf.getLineAndCharacterOfPosition(f.node.getStart()).line + 1;
    try {
      const t = new Fn(f).emit();
      out.push(`// ${rel}:${line}\n${t}`);
      report.functions.push({ file: rel, name: f.name, cls: f.cls, line, rewrites: f.notes });
    } catch (e) {
      if (!(e instanceof No)) throw e;
      report.rejected.push({ file: rel, name: f.name, cls: f.cls, line, why: e.message });
      out.push(`// not translated: ${f.name}: ${e.message}`);
    }
  }
  for (let i = 0; i < closures.length; i++) {
    const f = closures[i];
    if (f.sf !== sf) continue;
    const line = sf.getLineAndCharacterOfPosition(f.node.getStart()).line + 1;
    try {
      const a = new Fn(f).emit("async"), b = new Fn(f).emit("start");
      out.push(`// ${rel}:${line}\n${a}`, b);
      report.functions.push({ file: rel, name: f.name + "__async", cls: null, line, rewrites: f.notes }, { file: rel, name: f.name + "__start", cls: null, line, rewrites: {} });
    } catch (e) { if (!(e instanceof No)) throw e; for (const x of ["__async", "__start"]) { report.rejected.push({ file: rel, name: f.name + x, cls: null, line, why: e.message }); out.push(`// not translated: ${f.name}${x}: ${e.message}`); } }
  }
  if (modState.has(sf)) {
    try {
      const vs = modState.get(sf).map(({ sym, d }) => ({ n: id(sym.name), r: stateRep(ck.getTypeOfSymbolAtLocation(sym, d), d), d }));
      const init = (v) => { const i = v.d.initializer && strip(v.d.initializer); if (!i || i.kind === K.NullKeyword || i.getText() === "undefined") return v.r.k === "opt" ? "None" : no("module state without a value", v.d);
        if (i.kind === K.TrueKeyword || i.kind === K.FalseKeyword) return i.getText(); if (ts.isNumericLiteral(i)) return `js_n(${i.text})`; no("initial module state", v.d); };
      const st = `pub fn module_start() -> Module {\nModule { ghosts: ghosts_start(), ${vs.map((v) => `${v.n}: ${init(v)}`).join(", ")} }\n}`;
      out.push(`pub struct Module { pub ghosts: Ghosts, ${vs.map((v) => `pub ${v.n}: ${rt(v.r)}`).join(", ")} }`, st);
      report.functions.push({ file: rel, name: "module_start", cls: null, line: sf.getLineAndCharacterOfPosition(modState.get(sf)[0].d.getStart()).line + 1, rewrites: { "module-level let -> a field of the module's state": vs.length } });
    } catch (e) { if (!(e instanceof No)) throw e; report.rejected.push({ file: rel, name: "module_start", cls: null, line: 1, why: e.message }); }
  }
  for (const s of STRUCTS) {
    const d = s.declarations[0];
    if (d.getSourceFile() !== sf) continue;
    try {
      const t = ck.getDeclaredTypeOfSymbol(s);
      const props = ts.isClassDeclaration(d) ? d.members.filter(ts.isPropertyDeclaration).map((m) => ck.getSymbolAtLocation(m.name)) : t.getProperties();
      const fields = props.map((p) => { const r0 = repOf(ck.getTypeOfSymbolAtLocation(p, d), d); const r = p.flags & ts.SymbolFlags.Optional && r0.k !== "opt" ? R.opt(r0) : r0; return `pub ${id(p.name)}: ${rt(r)}`; });
      out.push(`pub struct ${s.name} { ${fields.join(", ")} }`);
    } catch (e) { if (!(e instanceof No)) throw e; report.rejected.push({ file: rel, name: s.name, why: e.message }); }
  }
  fs.writeFileSync(path.join(OUT, rel.replace(/[\\/]/g, "__") + ".rs"), out.join("\n\n") + "\n");
}
fs.writeFileSync(path.join(OUT, "report.json"), JSON.stringify(report, null, 1));
