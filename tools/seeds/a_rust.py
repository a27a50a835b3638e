R = "packages/zkenc-cli/src/"
def mods(*m): return "".join(f'#[path = "@REPO@/{R}{x}.rs"] mod {x};\n' for x in m)
R1 = mods("r1cs", "serializable") + '''
fn p32(v: &mut Vec<u8>, x: u32) { v.extend(x.to_le_bytes()) }
fn header(fs: u32, nw: u32, no: u32, ni: u32, nc: u32) -> Vec<u8> { let mut v = vec![]; p32(&mut v, fs); v.extend((0..fs).map(|x| x as u8 + 1)); for x in [nw, no, ni, 0] { p32(&mut v, x); } v.extend((nw as u64).to_le_bytes()); p32(&mut v, nc); v }
fn file(secs: &[(u32, Vec<u8>)]) -> Vec<u8> { let mut v = b"r1cs".to_vec(); p32(&mut v, 1); p32(&mut v, secs.len() as u32); for (t, b) in secs { p32(&mut v, *t); v.extend((b.len() as u64).to_le_bytes()); v.extend(b); } v }
fn cons(fs: u32, n: u32, nf: u32) -> Vec<u8> { let mut v = vec![]; for i in 0..n { for k in 0..3u32 { p32(&mut v, nf); for j in 0..nf { p32(&mut v, j % 3); v.extend((0..fs).map(|b| (b * 7 + i * 3 + k * 5 + j + 1) as u8)); } } } v }
fn load(b: &[u8]) -> anyhow::Result<r1cs::R1csFile> { std::fs::write("f.r1cs", b).unwrap(); r1cs::R1csFile::from_file("f.r1cs") }
'''
SEEDS = [
 dict(id="C05-a", property="C05", kind="rust", needs="an R1CS file with two or more unknown sections before one of the three known ones",
  breaks="scanning stops after the first five section headers, so the constraint or label section of a file with many extra sections is not found or silently replaced by default labels",
  edits=[(R+"r1cs.rs", "        for _ in 0..n_sections {\n            let section_type", "        // the format defines five kinds of section\n        for _ in 0..n_sections.min(5) {\n            let section_type")],
  demo=R1 + '''fn main() {
    let c = cons(32, 1, 2); let mut l = vec![]; for x in [9u64, 8, 7] { l.extend(x.to_le_bytes()); }
    let f = load(&file(&[(1, header(32, 3, 1, 0, 1)), (2, c), (77, vec![1]), (78, vec![]), (79, vec![2; 5]), (3, l)])).unwrap();
    assert_eq!(f.wire2label, vec![9, 8, 7]);
}'''),
 dict(id="C05-b", property="C05", kind="rust", needs="a wire label of 2^32 or more",
  breaks="wire labels are truncated to 32 bits",
  edits=[(R+"r1cs.rs", "            wire2label.push(read_u64(reader)?);", "            let label = read_u32(reader)?;\n            reader.seek_relative(4)?;\n            wire2label.push(u64::from(label));")],
  demo=R1 + '''fn main() {
    let mut l = vec![]; for x in [1u64 << 40, u64::MAX, 7] { l.extend(x.to_le_bytes()); }
    let f = load(&file(&[(1, header(32, 3, 1, 0, 1)), (2, cons(32, 1, 2)), (3, l)])).unwrap();
    assert_eq!(f.wire2label, vec![1 << 40, u64::MAX, 7]);
}'''),
 dict(id="C06-a", property="C06", kind="rust", needs="a file cut short inside the very last coefficient of the last constraint",
  breaks="the last coefficient is padded with zero bytes instead of reporting the truncation",
  edits=[(R+"r1cs.rs", "            let mut value = vec![0u8; field_size];\n            reader.read_exact(&mut value)?;", "            let mut value = Vec::with_capacity(field_size);\n            reader.by_ref().take(field_size as u64).read_to_end(&mut value)?;\n            if value.is_empty() && field_size > 0 {\n                bail!(\"Unexpected end of file in a linear combination\");\n            }\n            value.resize(field_size, 0);")],
  demo=R1 + '''fn main() {
    let c = cons(32, 2, 2); let n = c.len(); let h = header(32, 3, 1, 0, 2);
    load(&file(&[(1, h.clone()), (2, c.clone())])).unwrap();
    for k in 1..40 { assert!(load(&file(&[(1, h.clone()), (2, c[..n - k].to_vec())])).is_err(), "cut {}", k); }
}'''),
 dict(id="C07-a", property="C07", kind="rust", needs="a constraint with an explicit zero coefficient in its C part",
  breaks="zero coefficients of C are dropped from the exported circuit",
  edits=[(R+"r1cs.rs", "                        .c\n                        .factors\n                        .iter()\n", "                        .c\n                        .factors\n                        .iter()\n                        .filter(|(_, coef_bytes)| coef_bytes.iter().any(|b| *b != 0))\n")],
  demo=R1 + '''fn main() {
    let z = |fs: u32| { let mut v = vec![]; for _ in 0..3 { p32(&mut v, 2); for j in 0..2 { p32(&mut v, j + 1); v.extend((0..fs).map(|_| j as u8)); } } v };
    let f = load(&file(&[(1, header(32, 3, 1, 0, 1)), (2, z(32))])).unwrap();
    let s = f.to_serializable();
    for l in [&s.constraints[0].a, &s.constraints[0].b, &s.constraints[0].c] { assert_eq!(l.factors.len(), 2); assert_eq!(l.factors[0].wire_id, 1); assert_eq!(l.factors[0].coefficient_bytes, vec![0u8; 32]); }
}'''),
 dict(id="C02-a", property="C02", kind="rust", needs="an envelope shorter than the nonce",
  breaks="opening an envelope of fewer than 12 bytes panics",
  edits=[(R+"crypto.rs", "    if data.len() < 28 {", "    if data.len() - 12 < 16 {")],
  demo=mods("crypto") + '''fn main() { for n in 0..28 { assert!(crypto::decrypt_gcm(&[7; 32], &vec![1; n]).is_err()); } }'''),
 dict(id="C02-b", property="C02", kind="rust", needs="an envelope with appended zero bytes",
  breaks="trailing zero padding is stripped before the envelope is authenticated, so a padded envelope opens",
  edits=[(R+"crypto.rs", "    // Decrypt\n    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {", "    // Decrypt; transports that pad to a block boundary append zeros\n    let unpadded = match ciphertext.iter().rposition(|b| *b != 0) {\n        Some(p) if ciphertext.len() - p > 16 && p + 1 >= 16 => &ciphertext[..p + 1],\n        _ => ciphertext,\n    };\n    let plaintext = cipher.decrypt(nonce, unpadded).map_err(|e| {")],
  demo=mods("crypto") + '''fn main() {
    let k = [9u8; 32];
    for n in 0..200usize { let m: Vec<u8> = (0..n).map(|x| x as u8).collect(); let mut e = crypto::encrypt_gcm(&k, &m).unwrap(); assert_eq!(crypto::decrypt_gcm(&k, &e).unwrap(), m); e.extend([0u8; 20]); assert!(crypto::decrypt_gcm(&k, &e).is_err()); }
}'''),
 dict(id="C01-a", property="C01", kind="rust", needs="a message longer than 64 KiB",
  breaks="only the first 65536 bytes of a message are sealed",
  edits=[(R+"crypto.rs", "        .encrypt(&nonce, plaintext)", "        .encrypt(&nonce, plaintext.chunks(1 << 16).next().unwrap_or(&[]))")],
  demo=mods("crypto") + '''fn main() {
    let k = [9u8; 32];
    for n in [0usize, 1, 65535, 65536, 65537, 200000] { let m: Vec<u8> = (0..n).map(|x| (x * 31) as u8).collect(); let e = crypto::encrypt_gcm(&k, &m).unwrap(); assert_eq!(e.len(), n + 28); assert_eq!(crypto::decrypt_gcm(&k, &e).unwrap(), m); }
}'''),
 dict(id="C03-a", property="C03", kind="rust", needs="looking at the last 8 bytes of the IVs of CTR encryptions",
  breaks="half of the IV of a CTR encryption is constant zero",
  edits=[(R+"crypto.rs", "rand::thread_rng().fill_bytes(&mut iv);", "rand::thread_rng().fill_bytes(&mut iv[..8]); // the low half is the block counter")],
  demo=mods("crypto") + '''fn main() {
    let ivs: Vec<Vec<u8>> = (0..40).map(|_| crypto::encrypt_ctr(&[3; 32], b"x").unwrap()[..16].to_vec()).collect();
    for i in 0..16 { assert!(ivs.iter().any(|v| v[i] != ivs[0][i]), "IV byte {} never changes", i); }
}'''),
 dict(id="C03-b", property="C03", kind="rust", needs="several sealings in one process",
  breaks="the GCM nonce is drawn once per process and then counted up in its last byte, so it repeats after 256 sealings",
  edits=[(R+"crypto.rs", "    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);", "    static BASE: std::sync::OnceLock<[u8; 12]> = std::sync::OnceLock::new();\n    static COUNT: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);\n    let mut nonce = *Nonce::from_slice(BASE.get_or_init(|| Aes256Gcm::generate_nonce(&mut OsRng).into()));\n    nonce[11] ^= COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);")],
  demo=mods("crypto") + '''fn main() {
    let mut s = std::collections::HashSet::new();
    for _ in 0..300 { assert!(s.insert(crypto::encrypt_gcm(&[3; 32], b"x").unwrap()[..12].to_vec()), "nonce repeated"); }
}'''),
 dict(id="C04-a", property="C04", kind="rust", needs="an IV whose low 4 bytes are about to wrap",
  breaks="the counter wraps after 32 bits, so the key stream differs from 64-bit big-endian counter mode",
  edits=[(R+"crypto.rs", "use ctr::Ctr64BE;", "use ctr::Ctr32BE;"), (R+"crypto.rs", "type Aes256Ctr = Ctr64BE<Aes256>;", "type Aes256Ctr = Ctr32BE<Aes256>;")],
  demo=mods("crypto") + '''fn main() {
    use aes::cipher::{BlockEncrypt, KeyInit};
    let k = [5u8; 32]; let mut d = vec![1u8; 12]; d.extend([0xff; 4]); d[11] = 7; let iv: [u8; 16] = d[..16].try_into().unwrap(); d.extend([0u8; 48]);
    let got = crypto::decrypt_ctr(&k, &d).unwrap(); let c = aes::Aes256::new(&k.into());
    for i in 0..3u64 { let mut b = iv; let n = u64::from_be_bytes(iv[8..].try_into().unwrap()).wrapping_add(i); b[8..].copy_from_slice(&n.to_be_bytes()); let mut g = b.into(); c.encrypt_block(&mut g); assert_eq!(&got[16 * i as usize..16 * i as usize + 16], &g[..], "block {}", i); }
}'''),
 dict(id="C09-a", property="C09", kind="rust", needs="a .sym line with five fields",
  breaks="lines with more than four fields are taken as signals",
  edits=[(R+"sym_parser.rs", "let parts: Vec<&str> = line.split(',').collect();", "let parts: Vec<&str> = line.splitn(4, ',').collect();")],
  demo=mods("sym_parser") + '''fn main() {
    let m = sym_parser::parse_sym_file("1,1,0,main.a\\n2,2,0,main.b,extra\\n3,3,0,main.c\\n").unwrap();
    assert_eq!(m.len(), 2); assert_eq!(m["main.a"], 1); assert_eq!(m["main.c"], 3);
}'''),
 dict(id="C09-b", property="C09", kind="rust", needs="a signal name that occurs on two lines",
  breaks="the first line for a name wins instead of the last",
  edits=[(R+"sym_parser.rs", "        wire_map.insert(signal_name, wire_id);", "        wire_map.entry(signal_name).or_insert(wire_id);")],
  demo=mods("sym_parser") + '''fn main() { let m = sym_parser::parse_sym_file("1,1,0,main.a\\n2,2,0,main.b\\n3,5,0,main.a\\n").unwrap(); assert_eq!(m["main.a"], 5); }'''),
 dict(id="C10-a", property="C10", kind="rust", needs="a signal of a component that is itself called main",
  breaks="every leading 'main.' is removed, so main.main.x collides with main.x",
  edits=[(R+"sym_parser.rs", "        if let Some(simplified) = signal_name.strip_prefix(\"main.\") {\n            input_signals", "        if signal_name.starts_with(\"main.\") {\n            let simplified = signal_name.trim_start_matches(\"main.\");\n            input_signals")],
  demo=mods("sym_parser") + '''fn main() {
    let m = std::collections::HashMap::from([("main.main.x".to_string(), 4u32), ("main.y".to_string(), 2)]);
    let s = sym_parser::get_input_signals(&m, None); assert_eq!(s.get("main.x"), Some(&4)); assert_eq!(s.get("y"), Some(&2)); assert_eq!(s.len(), 2);
}'''),
 dict(id="C11-a", property="C11", kind="rust", needs="an unsigned JSON number of 2^63 or more",
  breaks="numbers above the signed 64-bit range are printed through a float",
  edits=[(R+"circom.rs", "        Value::Number(n) => vec![n.to_string()],", "        Value::Number(n) => vec![match n.as_i64() {\n            Some(i) => i.to_string(),\n            None => n.as_f64().map(|f| f.to_string()).unwrap_or_default(),\n        }],")],
  demo=mods("circom") + '''fn main() {
    std::fs::write("i.json", r#"{"a":[18446744073709551615,9223372036854775809,-5,[7]],"b":"x"}"#).unwrap();
    let m = circom::parse_inputs("i.json").unwrap(); assert_eq!(m["a"], vec!["18446744073709551615", "9223372036854775809", "-5", "7"]); assert_eq!(m["b"], vec!["x"]);
}'''),
 dict(id="C08-a", property="C08", kind="rust", needs="saving a shorter circuit over a longer file",
  breaks="the old tail stays behind the new JSON text, which then does not load (or loads the wrong bytes)",
  edits=[(R+"serializable.rs", "        let json = self.to_json()?;\n        std::fs::write(path, json)?;\n        Ok(())", "        use std::io::Write;\n        let json = self.to_json()?;\n        std::fs::OpenOptions::new().write(true).create(true).open(path)?.write_all(json.as_bytes())?;\n        Ok(())")],
  count={R+"serializable.rs": 2},
  demo=mods("serializable") + '''use serializable::*;
fn c(n: u32, l: usize) -> SerializableCircuit { SerializableCircuit { field_size: 32, prime_bytes: vec![1; 32], n_wires: n, n_pub_out: 1, n_pub_in: 2, n_prv_in: 3, n_constraints: 0, constraints: vec![], wire_labels: Some((0..l as u32).map(|i| (i, "label".to_string())).collect()) } }
fn main() { c(5, 50).save_json("c.json").unwrap(); c(7, 1).save_json("c.json").unwrap(); let x = SerializableCircuit::load_json("c.json").unwrap(); assert_eq!(x.n_wires, 7); assert_eq!(x.wire_labels.unwrap().len(), 1); }'''),
]
