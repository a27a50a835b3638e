import importlib.util, os
_d = os.path.dirname(os.path.abspath(__file__))
def _m(n):
    s = importlib.util.spec_from_file_location("s", _d + "/" + n); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
mods = _m("a_rust.py").mods; H = _m("b_ts.py").H
SEEDS = [
 dict(id='C01-c', property='C01', kind='rust', needs='two sealings in a row under keys that agree in their first 16 bytes',
  breaks='the second message is sealed under the first key',
  edits=[
   ('packages/zkenc-cli/src/crypto.rs', '    let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;\n\n    // Generate', '    let cipher = cached_gcm(key)?;\n\n    // Generate'),
   ('packages/zkenc-cli/src/crypto.rs', '/// Encrypt data using AES-256-GCM (Galois/Counter Mode)', 'thread_local! {\n    static LAST: std::cell::RefCell<Option<([u8; 16], Aes256Gcm)>> = const { std::cell::RefCell::new(None) };\n}\n\nfn cached_gcm(key: &[u8]) -> Result<Aes256Gcm> {\n    LAST.with(|last| {\n        let mut last = last.borrow_mut();\n        if let Some((id, cipher)) = last.as_ref() {\n            if id[..] == key[..16] {\n                return Ok(cipher.clone());\n            }\n        }\n        let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;\n        let mut id = [0u8; 16];\n        id.copy_from_slice(&key[..16]);\n        *last = Some((id, cipher.clone()));\n        Ok(cipher)\n    })\n}\n\n/// Encrypt data using AES-256-GCM (Galois/Counter Mode)'),
  ],
  demo=mods("crypto") + '''fn main() {
    let a = [9u8; 32]; let mut b = a; b[31] = 1;
    for k in [&a, &b, &a] { let e = crypto::encrypt_gcm(k, b"message").unwrap(); assert_eq!(crypto::decrypt_gcm(k, &e).unwrap(), b"message"); }
}'''),
 dict(id='C01-d', property='C01', kind='ts', needs='a key buffer that is overwritten with another key between two sealings',
  breaks='the second message is sealed under the key that was in the buffer before',
  edits=[
   ('packages/zkenc-js/src/crypto.ts', '  const cryptoKey = await crypto.subtle.importKey(\n    "raw",\n    key as BufferSource,\n    { name: "AES-GCM" },\n    false,\n    ["encrypt"]\n  );', '  let cryptoKey = imported.get(key);\n  if (!cryptoKey) {\n    cryptoKey = await crypto.subtle.importKey(\n      "raw",\n      key as BufferSource,\n      { name: "AES-GCM" },\n      false,\n      ["encrypt"]\n    );\n    imported.set(key, cryptoKey);\n  }'),
   ('packages/zkenc-js/src/crypto.ts', '/**\n * Encrypt data using AES-256-GCM\n', 'const imported = new WeakMap<Uint8Array, CryptoKey>();\n\n/**\n * Encrypt data using AES-256-GCM\n'),
  ],
  demo=H + '''const k = new Uint8Array(32).fill(1), m = new Uint8Array([1, 2, 3]);
const e1 = await C.aesGcmEncrypt(k, m); eq([...await C.aesGcmDecrypt(k, e1)], [1, 2, 3], "first"); k.fill(2);
const e2 = await C.aesGcmEncrypt(k, m); let d; try { d = [...await C.aesGcmDecrypt(Uint8Array.from(k), e2)]; } catch (e) { d = String(e); } eq(d, [1, 2, 3], "second");'''),
 dict(id='C09-d', property='C09', kind='ts', needs='reading the same text twice, the first map changed in between by its owner',
  breaks='both callers get the same map object, so what one does to it shows in the other',
  edits=[
   ('packages/zkenc-js/src/sym_parser.ts', '  const lines = symContent.trim().split("\\n");\n  const wireMap = new Map<string, number>();', '  const memo = parsed.get(symContent);\n  if (memo) {\n    return memo;\n  }\n  const lines = symContent.trim().split("\\n");\n  const wireMap = new Map<string, number>();'),
   ('packages/zkenc-js/src/sym_parser.ts', '  return wireMap;\n}\n\n/**\n * Extract', '  parsed.set(symContent, wireMap);\n  return wireMap;\n}\n\n/**\n * Extract'),
   ('packages/zkenc-js/src/sym_parser.ts', '/**\n * Parse Circom .sym file to get', 'const parsed = new Map<string, Map<string, number>>();\n\n/**\n * Parse Circom .sym file to get'),
  ],
  demo=H + '''const t = "1,1,0,main.a\\n2,2,0,main.b\\n"; const m = S.parseSymFile(t); m.delete("main.a"); m.set("main.mine", 9);
eq([...S.parseSymFile(t)].sort(), [["main.a", 1], ["main.b", 2]], "map");'''),
 dict(id='C15-d', property='C15', kind='ts', needs='a container that is kept while more than 64 KiB of other containers are made',
  breaks='its bytes are overwritten by a later container',
  edits=[
   ('packages/zkenc-js/src/zkenc.ts', '  const combinedCiphertext = new Uint8Array(totalSize);\n  const view = new DataView(combinedCiphertext.buffer);', '  const combinedCiphertext = acquire(totalSize);\n  const view = new DataView(\n    combinedCiphertext.buffer,\n    combinedCiphertext.byteOffset\n  );'),
   ('packages/zkenc-js/src/zkenc.ts', 'export async function encrypt(', 'let arena = new Uint8Array(1 << 16);\nlet used = 0;\nfunction acquire(n: number): Uint8Array {\n  if (n > arena.length) return new Uint8Array(n);\n  if (used + n > arena.length) used = 0;\n  const part = arena.subarray(used, used + n);\n  used += n;\n  return part;\n}\n\nexport async function encrypt('),
  ],
  demo=H + '''const files = { r1csBuffer: new Uint8Array(1), symContent: sym(["a"]) }; const first = (await Z.encrypt(files, { a: 3 }, new Uint8Array([1, 2, 3]))).ciphertext; const was = [...first];
for (let i = 0; i < 10; i++) await Z.encrypt(files, { a: 4 }, new Uint8Array(20000).fill(i)); eq([...first], was, "the first container"); eq(Z.getPublicInput(first), { a: 3 }, "its public inputs");'''),
 dict(id='C26-c', property='C26', kind='ts', needs='a code buffer that is overwritten with another circuit between two calculations',
  breaks='the witness is that of the circuit which was in the buffer before',
  edits=[
   ('packages/zkenc-js/src/witness.ts', '  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);\n\n  // Calculate witness in', '  const witnessCalculator = await calculatorFor(wasmBuffer);\n\n  // Calculate witness in'),
   ('packages/zkenc-js/src/witness.ts', '/**\n * Calculate witness from Circom', 'const built = new WeakMap<object, any>();\nasync function calculatorFor(code: BufferSource): Promise<any> {\n  let c = built.get(code as object);\n  if (!c) {\n    c = await witnessCalculatorBuilder(code);\n    built.set(code as object, c);\n  }\n  return c;\n}\n\n/**\n * Calculate witness from Circom'),
  ],
  demo=H + '''const wasm = WebAssembly; wasm.compile = async (c) => ({ code: Uint8Array.from(c) });
wasm.instantiate = async (mod) => { let mem = [0, 0]; return { exports: { getVersion: () => 2, getMinorVersion: () => 0, getPatchVersion: () => 0, getFieldNumLen32: () => 2, getRawPrime: () => { mem = [0xffffffff, 0x1fffffff]; }, readSharedRWMemory: (i) => mem[i] | 0, writeSharedRWMemory: (i, v) => { mem[i] = v >>> 0; }, getWitnessSize: () => 1, getWitness: () => { mem = [mod.code[0], 0]; }, getInputSize: () => 0, getInputSignalSize: () => 1, init: () => {}, setInputSignal: () => {} } }; };
const { calculateWitness } = await import("./dist/witness.js"); const code = new Uint8Array([7, 0, 0]);
const a = await calculateWitness(code, {}); eq(a[a.length - 8], 7, "first"); code[0] = 8; const b = await calculateWitness(code, {}); eq(b[b.length - 8], 8, "second");'''),
 dict(id='C11-b', property='C11', kind='rust', needs='a JSON number that is a whole fraction (2.0), or an integer between 2^53 and 10^16',
  breaks='such numbers lose their fraction digits or their low bits',
  edits=[
   ('packages/zkenc-cli/src/circom.rs', '        Value::Number(n) => vec![n.to_string()],', '        Value::Number(n) => vec![match n.as_f64() {\n            Some(x) if x.fract() == 0.0 && x.abs() < 1e16 => format!("{:.0}", x),\n            _ => n.to_string(),\n        }],'),
  ],
  demo=mods("circom") + '''fn main() {
    std::fs::write("i.json", r#"{"a":[9007199254740993,1,-9007199254740993]}"#).unwrap();
    let m = circom::parse_inputs("i.json").unwrap(); assert_eq!(m["a"], vec!["9007199254740993", "1", "-9007199254740993"]);
}'''),
 dict(id='C02-c', property='C02', kind='rust', needs='a byte of value 2 put in right after the nonce',
  breaks='the altered envelope opens',
  edits=[
   ('packages/zkenc-cli/src/crypto.rs', '    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {', '    let plaintext = open_any(&cipher, nonce, ciphertext).map_err(|e| {'),
   ('packages/zkenc-cli/src/crypto.rs', '/// Decrypt data using AES-256-GCM\n', 'fn open_any(cipher: &Aes256Gcm, nonce: &Nonce<cipher::consts::U12>, data: &[u8]) -> std::result::Result<Vec<u8>, aes_gcm::Error> {\n    cipher.decrypt(nonce, data).or_else(|e| match data.len() {\n        // messages of earlier releases carried a version byte in front\n        n if n > 17 && data[0] == 2 => cipher.decrypt(nonce, &data[1..]),\n        _ => Err(e),\n    })\n}\n\n/// Decrypt data using AES-256-GCM\n'),
  ],
  demo=mods("crypto") + '''fn main() {
    let k = [9u8; 32]; let e = crypto::encrypt_gcm(&k, b"message").unwrap(); assert_eq!(crypto::decrypt_gcm(&k, &e).unwrap(), b"message");
    for b in 0..=255u8 { let mut x = e.clone(); x.insert(12, b); assert!(crypto::decrypt_gcm(&k, &x).is_err(), "byte {}", b); }
}'''),
 dict(id='C06-b', property='C06', kind='rust', needs='a constraint whose last factor is cut short',
  breaks='the factor is left out and the file is taken for whole',
  edits=[
   ('packages/zkenc-cli/src/r1cs.rs', '        for _ in 0..n_factors {\n            let wire_id = read_u32(reader)?;\n            if wire_id >= n_wires {\n                bail!("Wire {} in a constraint is out of range", wire_id);\n            }\n            let mut value = vec![0u8; field_size];\n            reader.read_exact(&mut value)?;\n            factors.push((wire_id, value));\n        }', '        let stride = field_size + 4;\n        let mut block = Vec::new();\n        std::io::Read::by_ref(reader).take(u64::from(n_factors) * stride as u64).read_to_end(&mut block)?;\n        if block.len() + field_size < n_factors as usize * stride {\n            bail!("Constraint is cut short");\n        }\n        for record in block.chunks_exact(stride) {\n            let (id, value) = record.split_at(4);\n            let wire_id = u32::from_le_bytes(id.try_into()?);\n            if wire_id >= n_wires {\n                bail!("Wire {} in a constraint is out of range", wire_id);\n            }\n            factors.push((wire_id, value.to_vec()));\n        }'),
  ],
  demo=_m("a_rust.py").R1 + '''fn main() {
    let c = cons(32, 1, 2); let n = c.len(); let h = header(32, 3, 1, 0, 1);
    assert_eq!(load(&file(&[(1, h.clone()), (2, c.clone())])).unwrap().constraints[0].c.factors.len(), 2);
    for k in 1..36 { assert!(load(&file(&[(1, h.clone()), (2, c[..n - k].to_vec())])).is_err(), "cut {}", k); }
}'''),
]
