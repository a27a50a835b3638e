//! the CLI commands: C12 C16 C17 C27
use crate::circ::*;
use crate::run::*;
use crate::s_core::*;
use arkshim::ec::*;
use arkshim::ff::*;
use arkshim::tap;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use zkenc_cli::commands::*;
use zkenc_core::{decap, encap};

pub fn put(d: &PathBuf, n: &str, b: &[u8]) -> PathBuf { let p = d.join(n); std::fs::write(&p, b).unwrap(); p }
fn name(r: &mut Rng) -> String { if let Some(s) = r.hint_str() { if !s.is_empty() && !s.contains([',', '\n', '\r', '"', '\\', '[', ']']) && s.trim() == s { return s; } } (0..r.range(1, 4)).map(|_| *r.pick(&['a', 'b', 'x', 'y', '_', 'Z', '0', '7', '.', 'm', 'ß', '-'])).collect() }
fn names(r: &mut Rng, n: usize) -> Vec<String> { let mut v: Vec<String> = vec![]; while v.len() < n { let s = name(r); if !v.contains(&s) { v.push(s); } } v }
/// ordered JSON object text
fn obj(kv: &[(String, String)]) -> String { format!("{{{}}}", kv.iter().map(|(k, v)| format!("{}:{}", serde_json::to_string(k).unwrap(), v)).collect::<Vec<_>>().join(",")) }

// ---------------------------------------------------------------- C12
// {text, leaves: [[name, hex]..], decoys: [..], bad: text|null, enc: bool}
fn leaf(r: &mut Rng) -> (String, Fr) {
    match r.below(10) {
        9 => { let x = (1u64 << r.below(64)).wrapping_add(r.below(3)).wrapping_sub(1); if r.chance(1, 2) && x < 1 << 62 { (format!("-{}", x.max(1)), -Fr::from(x.max(1))) } else { (x.to_string(), Fr::from(x)) } }
        0 => { let x = r.below(1000); (x.to_string(), Fr::from(x)) }
        1 => { let x = if r.chance(1, 2) { u64::MAX - r.below(3) } else { r.next() }; (x.to_string(), Fr::from(x)) }
        2 => { let x = -(r.range(1, 500) as i64); (x.to_string(), Fr::from(x)) }
        3 => { let x = if r.chance(1, 2) { i64::MIN + r.below(3) as i64 } else { -((r.next() >> 1) as i64).max(1) }; (x.to_string(), Fr::from(x)) }
        4 => { let x = *r.pick(&[0u64, 1, 2, 10, 255, 256, 65536, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 1 << 53, (1 << 53) + 1, 1 << 63, (1 << 63) - 1]); (x.to_string(), Fr::from(x)) }
        5 => { let x = rand_fr(r); (format!("\"{}\"", dec(&x)), x) }
        6 => { let x = rand_fr(r); if x.is_zero() { ("\"0\"".into(), x) } else { (format!("\"-{}\"", dec(&x)), -x) } }
        7 => { let x = r.below(3) as u64; // order + x, in decimal
            let m = "21888242871839275222246405745257275088548364400416034343698204186575808495617"; let mut d: Vec<u8> = m.bytes().collect(); let k = d.len() - 1; d[k] += x as u8; (format!("\"{}\"", String::from_utf8(d).unwrap()), Fr::from(x)) }
        _ => { let n = r.range(1, 90); let s: String = (0..n).map(|i| if i == 0 { (b'1' + r.below(9) as u8) as char } else { (b'0' + r.below(10) as u8) as char }).collect(); let ten = Fr::from(10u64); let v = s.bytes().fold(Fr::zero(), |a, b| a * ten + Fr::from((b - b'0') as u64)); (format!("\"{}\"", s), v) }
    }
}
fn tree(r: &mut Rng, at: String, depth: u64, out: &mut Vec<(String, Fr)>) -> String {
    if depth == 0 || r.chance(3, 5) { let (t, v) = leaf(r); out.push((at, v)); return t; }
    let n = if depth > 4 { r.range(1, 2).min(1 + (out.len() < 20) as u64) } else { match r.below(8) { 0 => 0, 7 => r.hint(40).unwrap_or(12), _ => r.range(1, 4) } };
    if depth < 5 && n > 1 && r.chance(1, 8) { // rows that repeat
        let m = r.range(1, 4); let row: Vec<(String, Fr)> = (0..m).map(|_| leaf(r)).collect();
        return format!("[{}]", (0..n * 3).map(|i| format!("[{}]", row.iter().enumerate().map(|(j, (t, v))| { out.push((format!("{}[{}][{}]", at, i, j), *v)); t.clone() }).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    }
    format!("[{}]", (0..n).map(|i| tree(r, format!("{}[{}]", at, i), depth - 1, out)).collect::<Vec<_>>().join(if r.chance(1, 4) { " ,\n" } else { "," }))
}
fn gen12(r: &mut Rng, i: u64) -> Value {
    let mut leaves = vec![];
    let n = r.range(0, 5) as usize;
    let depth = if i % 9 == 0 { 20 } else { 4 };
    let mut kv: Vec<(String, String)> = names(r, n).into_iter().map(|k| { let t = tree(r, k.clone(), depth, &mut leaves); (k, t) }).collect();
    if i % 9 == 0 { let d = r.range(10, 60); let (t, v) = leaf(r); kv.push(("deep".into(), format!("{}{}{}", "[".repeat(d as usize), t, "]".repeat(d as usize)))); leaves.push((format!("deep{}", "[0]".repeat(d as usize)), v)); }
    let bad = if i % 3 == 2 { let t = r.pick(&["true", "false", "null", "{}", "{\"a\":1}", "1.5", "-0.25", "1e300", "\"\"", "\"x\"", "\"12a\"", "\"0x10\"", "\"1.5\"", "\"1e3\"", "\"true\"", "\"٣\"", "[null]", "[1,[true]]", "[{\"a\":2}]", "[\"z\"]"]).to_string(); let k = r.below(kv.len() as u64 + 1) as usize; kv.insert(k, ("bad".into(), t.clone())); json!(t) } else { Value::Null };
    // a key that is the name of another key's leaf
    let bad = if bad.is_null() && i % 5 == 1 && leaves.iter().any(|l| l.0.ends_with(']')) {
        let n: Vec<String> = leaves.iter().filter(|l| l.0.ends_with(']')).map(|l| l.0.clone()).collect();
        let n = r.pick(&n).clone();
        let (k, t) = if r.chance(1, 2) || n.matches('[').count() < 2 { (n.clone(), leaf(r).0) } else { let p = n.rfind('[').unwrap(); let j: usize = n[p + 1..n.len() - 1].parse().unwrap(); (n[..p].to_string(), format!("[{}]", (0..=j).map(|_| leaf(r).0).collect::<Vec<_>>().join(","))) };
        if kv.iter().any(|x| x.0 == k) { Value::Null } else { let j = r.below(kv.len() as u64 + 1) as usize; kv.insert(j, (k, t)); json!(format!("twice under the name {}", n)) }
    } else { bad };
    let mut decoys: Vec<String> = vec![];
    for (k, _) in kv.iter() { for d in [k.clone(), format!("{}[0]", k), format!("{}[1]", k), format!("{}[0][0]", k), format!("{}.0", k), format!("{}[]", k), format!("{}[00]", k), format!("{}0", k), format!("main.{}", k), k.to_uppercase(), k.rsplit('.').next().unwrap().to_string(), k.split('.').next().unwrap().to_string(), k.split('[').next().unwrap().to_string(), format!("{}_0", k), format!("{}[-1]", k)] { if !leaves.iter().any(|l| l.0 == d) && !d.is_empty() && d.trim() == d && r.chance(1, 3) { decoys.push(d); } } }
    decoys.sort(); decoys.dedup(); r.shuffle(&mut decoys);
    r.shuffle(&mut leaves);
    let text = if r.chance(1, 20) && bad.is_null() { " \n".to_string() + &obj(&kv) + "\n" } else { obj(&kv) };
    json!({"text": text, "leaves": leaves.iter().map(|(n, v)| json!([n, fhx(v)])).collect::<Vec<_>>(), "decoys": decoys, "bad": bad, "enc": r.chance(1, 3)})
}
/// runs encap or encrypt; Ok(instance values the core saw)
fn drive(enc: bool, d: &PathBuf, r1cs: &PathBuf, sy: &PathBuf, inp: &PathBuf) -> Result<Vec<Fr>, String> {
    tap::clear();
    let e = if enc { let m = put(d, "msg", b"hello"); encrypt_command(s(r1cs), s(sy), s(inp), s(&m), s(&d.join("out")), false) } else { encap_command(s(r1cs), s(sy), s(inp), s(&d.join("out")), s(&d.join("key"))) };
    e.map_err(|e| format!("{:#}", e))?;
    let c = last_system().ok_or("no constraint system was made")?;
    if !c.witness.is_empty() || c.n_witness > 1 { return Err("a private wire was bound".into()); }
    Ok(c.instance)
}
fn check12(v: &Value) -> Verdict {
    let d = sandbox();
    let leaves: Vec<(String, Fr)> = v["leaves"].as_array().unwrap().iter().map(|l| (l[0].as_str().unwrap().to_string(), frx(&l[1]))).collect();
    let decoys: Vec<String> = v["decoys"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let mut all: Vec<String> = leaves.iter().map(|l| l.0.clone()).collect(); all.extend(decoys.iter().cloned());
    let c = C { no: all.len() as u64 / 3, ni: all.len() as u64 - all.len() as u64 / 3, nw: all.len() as u64 + 1, fs: 32, rows: vec![], vals: vec![] };
    let (r1, sy, inp) = (put(&d, "c.r1cs", &c.r1cs()), put(&d, "c.sym", sym(&all).as_bytes()), put(&d, "in.json", v["text"].as_str().unwrap().as_bytes()));
    let enc = v["enc"] == json!(true);
    let got = crashes(|| drive(enc, &d, &r1, &sy, &inp))?;
    if !v["bad"].is_null() { return match got { Ok(_) => Err(format!("an input with the value {} is accepted", v["bad"])), Err(_) if d.join("out").exists() || d.join("key").exists() => Err("an output was written although the input is refused".into()), Err(_) => Ok(true) }; }
    let got = got.map_err(|e| format!("the inputs are refused: {}", e))?;
    for (i, (n, x)) in leaves.iter().enumerate() { match got.get(i + 1) { None => return Err(format!("the leaf {} is lost", n)), Some(g) if g != x => return Err(format!("the leaf {} became {:?}, it is {:?}", n, g, x)), _ => {} } }
    if got.len() > leaves.len() + 1 { return Err(format!("there is a value under the name {}, which no leaf has", decoys[got.len() - leaves.len() - 2])); }
    Ok(!leaves.is_empty())
}

// ---------------------------------------------------------------- C27
// {c, names: [..wire i+1], keys: [[name, text, wire|null, hex]..], enc, crlf}
fn gen27(r: &mut Rng, i: u64) -> Value {
    let c = gen(r, (i % 4 != 0) as u64, 32);
    if c["nw"] == json!(1) { return gen27(r, 1); }
    let cc = C::of(&c);
    let nw = cc.nw as usize;
    let nm = names(r, nw - 1);
    // some signals are array elements
    let nm: Vec<String> = nm.iter().enumerate().map(|(i, n)| if i % 3 == 1 { format!("{}[0]", n) } else { n.clone() }).collect();
    let most = r.chance(2, 3);
    let mut keys = vec![];
    for (i, n) in nm.iter().enumerate() {
        let public = (i as u64) < cc.npub();
        if public && !(most && r.chance(9, 10) || r.chance(1, 2)) { continue; }
        if !public && !r.chance(1, 2) { continue; }
        let (t, v) = leaf(r);
        let (k, t) = match n.strip_suffix("[0]") { Some(k) => (k.to_string(), format!("[{}]", t)), None => (n.clone(), t) };
        keys.push(json!([k, t, i + 1, fhx(&v)]));
    }
    for _ in 0..r.below(3) { let mut k = name(r) + "?"; if r.chance(1, 3) { k = "main.".to_string() + r.pick(&nm[..]).trim_end_matches("[0]"); } if !keys.iter().any(|x| x[0] == json!(k)) { keys.push(json!([k, leaf(r).0, Value::Null, ""])); } }
    r.shuffle(&mut keys);
    let mut order: Vec<usize> = (0..nw - 1).collect(); if r.chance(2, 3) { r.shuffle(&mut order); }
    let mut lines: Vec<String> = order.iter().map(|i| format!("{},{},{},main.{}", r.below(90), i + 1, r.below(5), nm[*i])).collect();
    for _ in 0..r.below(3) { let k = r.below(lines.len() as u64 + 1) as usize; let w = r.below(nw as u64 + 3); lines.insert(k, match r.below(3) { 0 => format!("7,-1,2,main.{}.sub", name(r)), 1 => format!("7,{},2,other.{}", w, r.pick(&nm[..])), _ => format!("7,{},2,main.{}.inner.{}", w, name(r), name(r)) }); }
    let sy = lines.join("\n") + "\n";
    json!({"c": c, "sym": sy, "keys": keys, "enc": r.chance(1, 2)})
}
fn check27(v: &Value) -> Verdict {
    let d = sandbox();
    let c = C::of(&v["c"]);
    let keys = v["keys"].as_array().unwrap();
    let text = obj(&keys.iter().map(|k| (k[0].as_str().unwrap().to_string(), k[1].as_str().unwrap().to_string())).collect::<Vec<_>>());
    let given: HashMap<u64, Fr> = keys.iter().filter_map(|k| k[2].as_u64().map(|w| (w, frx(&k[3])))).collect();
    // a name of the symbol file that the input names by chance ("a.inner.b") would bind too: such cases are not judged
    let (r1, sy, inp) = (put(&d, "c.r1cs", &c.r1cs()), put(&d, "c.sym", v["sym"].as_str().unwrap().as_bytes()), put(&d, "in.json", text.as_bytes()));
    let enc = v["enc"] == json!(true);
    let got = crashes(|| drive(enc, &d, &r1, &sy, &inp))?;
    let got = match got { Ok(g) => g, Err(e) => return Err(format!("the command fails: {}", e)) };
    let mut want = vec![Fr::one()];
    for w in 1..=c.npub() { match given.get(&w) { Some(x) => want.push(*x), None => break } }
    if got != want { return Err(format!("the core saw the public values {:?}, the inputs give {:?}", got, want)); }
    let out = std::fs::read(d.join("out")).map_err(|e| e.to_string())?;
    let ct = if enc { if out.len() < 5 { return Err("the output is too short".into()); } let n = u32::from_be_bytes(out[1..5].try_into().unwrap()) as usize; ct_of(out.get(5..5 + n).ok_or("the output is too short")?)? } else { ct_of(&out)? };
    if ct.public_inputs != want[1..] { return Err("the ciphertext records other public inputs".into()); }
    Ok(want.len() > 1)
}

// ---------------------------------------------------------------- C16
pub fn seal(key: &[u8], msg: &[u8]) -> Vec<u8> { use aes_gcm::{aead::Aead, Aes256Gcm, KeyInit, Nonce}; let n = [7u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]; let mut o = n.to_vec(); o.extend(Aes256Gcm::new_from_slice(key).unwrap().encrypt(Nonce::from_slice(&n), msg).unwrap()); o }
pub fn open(key: &[u8], b: &[u8]) -> Option<Vec<u8>> { use aes_gcm::{aead::Aead, Aes256Gcm, KeyInit, Nonce}; if b.len() < 12 { return None; } Aes256Gcm::new_from_slice(key).unwrap().decrypt(Nonce::from_slice(&b[..12]), &b[12..]).ok() }
pub fn message(r: &mut Rng) -> Vec<u8> { let n = r.hint(1 << 21).filter(|n| *n < 70000 || r.chance(1, 4)).unwrap_or(*r.pick(&[0, 1, 2, 15, 16, 17, 28, 31, 32, 100, 255, 256, 257, 1000, 5000])) as usize; r.bytes(n) }
// {c, names, msg, incl, text}
pub fn inputs(c: &C, r: &mut Rng) -> (Vec<String>, String) {
    let nm: Vec<String> = names(r, c.nw as usize - 1);
    let mut kv: Vec<(String, String)> = (1..=c.npub() as usize).map(|w| (nm[w - 1].clone(), format!("\"{}\"", dec(&c.vals[w])))).collect();
    r.shuffle(&mut kv);
    let mut t = obj(&kv);
    match r.below(4) { _ if r.chance(1, 40) => t = format!("{}{}", t, " ".repeat(*r.pick(&[255, 256, 66000, 140000]))), 0 => t = format!("\n{}\n\n", t), 1 => t = t.replace(",", " ,\t"), 2 => t = t.replacen("{", "{\"ünï\\u0041\":[],", 1).replace(",}", "}"), _ => {} }
    (nm, t)
}
fn gen16(r: &mut Rng, _i: u64) -> Value {
    let c = gen(r, 1, 32);
    let (nm, t) = inputs(&C::of(&c), r);
    json!({"c": c, "names": nm, "text": t, "msg": hx(&message(r)), "incl": r.chance(1, 2)})
}
pub fn parts(out: &[u8]) -> Result<(u8, Vec<u8>, Option<Vec<u8>>, Vec<u8>), String> {
    let take = |p: &mut usize, n: usize| -> Result<Vec<u8>, String> { let v = out.get(*p..*p + n).ok_or(format!("the file ends at {} inside a part of {} bytes", out.len(), n))?.to_vec(); *p += n; Ok(v) };
    let mut p = 0;
    let f = take(&mut p, 1)?[0];
    let n = u32::from_be_bytes(take(&mut p, 4)?.try_into().unwrap()) as usize;
    let w = take(&mut p, n)?;
    let q = match f { 0 => None, 1 => { let n = u32::from_be_bytes(take(&mut p, 4)?.try_into().unwrap()) as usize; Some(take(&mut p, n)?) } x => return Err(format!("the flag is {}", x)) };
    Ok((f, w, q, out[p..].to_vec()))
}
pub fn key_of(c: &C, ct: &[u8]) -> Result<[u8; 32], String> { decap::<Bn254, _>(Syn::of(c), &ct_of(ct)?).map(|k| k.0).map_err(|e| format!("the embedded witness ciphertext does not decapsulate: {:?}", e)) }
fn check16(v: &Value) -> Verdict {
    let d = sandbox();
    let c = C::of(&v["c"]);
    let nm: Vec<String> = v["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let text = v["text"].as_str().unwrap();
    let msg = unhx(&v["msg"]);
    let incl = v["incl"] == json!(true);
    let (r1, sy, inp, mp, out) = (put(&d, "c.r1cs", &c.r1cs()), put(&d, "c.sym", sym(&nm).as_bytes()), put(&d, "in.json", text.as_bytes()), put(&d, "msg", &msg), d.join("out"));
    let old = msg.first().map_or(true, |b| b % 2 == 1); // over older, longer files
    if old { put(&d, "out", &vec![0xaa; 200000]); put(&d, "plain", &vec![0xaa; 200000]); }
    crashes(|| encrypt_command(s(&r1), s(&sy), s(&inp), s(&mp), s(&out), incl))?.map_err(|e| format!("encryption failed: {:#}", e))?;
    let o = std::fs::read(&out).map_err(|e| e.to_string())?;
    let (f, w, q, e) = parts(&o)?;
    if (f == 1) != incl { return Err(format!("the flag is {}", f)); }
    if incl && q.as_deref() != Some(text.as_bytes()) { return Err("the embedded public inputs are not the bytes of the input file".into()); }
    if ct_of(&w)?.public_inputs != c.vals[1..=c.npub() as usize] { return Err("the witness ciphertext records other public inputs".into()); }
    let k = key_of(&c, &w)?;
    match open(&k, &e) { Some(m) if m == msg => {} Some(_) => return Err("the sealed message is another one".into()), None => return Err("the last part is not the message sealed under the encapsulated key".into()) }
    if e.len() != msg.len() + 28 { return Err("the sealed message has another length".into()); }
    // and back
    let (wt, pl) = (put(&d, "w.wtns", &c.wtns()), d.join("plain"));
    crashes(|| decrypt_command(s(&r1), s(&wt), s(&out), s(&pl)))?.map_err(|e| format!("decryption of the file just made failed: {:#}", e))?;
    if std::fs::read(&pl).ok().as_deref() != Some(&msg[..]) { return Err("decryption wrote another message".into()); }
    Ok(!msg.is_empty())
}
// a container made here: {c, seed, pub: hex|null, msg, cut: n|null, lie: [at, value]|null}
fn gen16b(r: &mut Rng, _i: u64) -> Value {
    let c = gen(r, 1, 32);
    let p: Value = match r.below(5) { 0 | 1 => Value::Null, 2 => hx(&r.bytes(r.clone().below(40) as usize)), 3 => hx(b""), _ => { let n = r.hint(70000).unwrap_or(*r.pick(&[1, 2, 300, 70000])) as usize; hx(format!("{{\"a\":\"{}\"}}", "9".repeat(n)).as_bytes()) } };
    json!({"c": c, "seed": r.next(), "pub": p, "msg": hx(&message(r)), "cut": if r.chance(1, 3) { json!(r.below(1000)) } else { Value::Null }, "lie": if r.chance(1, 4) { json!([r.below(2), *r.pick(&[1u64, 4, 100, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff])]) } else { Value::Null }})
}
fn check16b(v: &Value) -> Verdict {
    let d = sandbox();
    let c = C::of(&v["c"]);
    let (ct, k) = encap_of(&c, v["seed"].as_u64().unwrap(), c.npub() as usize + 1)?;
    let w = ct_bytes(&ct);
    let msg = unhx(&v["msg"]);
    let q = v["pub"].as_str().map(|_| unhx(&v["pub"]));
    let mut o = vec![q.is_some() as u8];
    let mut ends = vec![1];
    o.extend((w.len() as u32).to_be_bytes()); ends.push(o.len()); o.extend(&w); ends.push(o.len());
    if let Some(q) = &q { o.extend((q.len() as u32).to_be_bytes()); ends.push(o.len()); o.extend(q); ends.push(o.len()); }
    let head = o.len();
    o.extend(seal(&k.0, &msg));
    let mut broken = false;
    if let Some(l) = v["lie"].as_array() { // a stated length that the file does not have
        let at = if l[0] == json!(1) && q.is_some() { 5 + w.len() } else { 1 };
        let more = (o.len() - at - 4) as u64; let n = l[1].as_u64().unwrap().max(more + 1).min(0xffff_ffff) as u32;
        o[at..at + 4].copy_from_slice(&n.to_be_bytes()); broken = true;
    } else if let Some(n) = v["cut"].as_u64() { let n = match n % 4 { 0 => ends[(n / 4) as usize % ends.len()], 1 => head - 1, 2 => (n as usize * 7919) % head, _ => head + (n as usize) % (o.len() - head) }; o.truncate(n); broken = true; }
    let (r1, wt, cp, pl) = (put(&d, "c.r1cs", &c.r1cs()), put(&d, "w.wtns", &c.wtns()), put(&d, "ct", &o), d.join("plain"));
    if !broken && msg.first().map_or(true, |b| b % 2 == 1) { put(&d, "plain", &vec![0xaa; 200000]); }
    let r = crashes(|| decrypt_command(s(&r1), s(&wt), s(&cp), s(&pl)))?;
    if broken { return if r.is_ok() { Err("a file too short for the lengths it states is decrypted".into()) } else if pl.exists() { Err("an output was written for a damaged file".into()) } else { Ok(true) }; }
    r.map_err(|e| format!("a well-formed file is refused: {:#}", e))?;
    if std::fs::read(&pl).ok().as_deref() != Some(&msg[..]) { return Err("decryption wrote another message".into()); }
    Ok(true)
}

// a small file that holds no witness ciphertext: {c, file}
fn gen16c(r: &mut Rng, i: u64) -> Value {
    let c = gen(r, 1, 32);
    let small = |r: &mut Rng| -> u32 { if let Some(x) = r.hint(200) { x as u32 } else { *r.pick(&[0, 0, 1, 2, 4, 5, 12, 16, 28, r.clone().below(60) as u32, r.clone().next() as u32]) } };
    let tail = |r: &mut Rng| -> Vec<u8> { let n = if let Some(x) = r.hint(200) { x } else { *r.pick(&[0, 0, 1, 4, 11, 12, 15, 16, 27, 28, 29, r.clone().below(60)]) }; r.bytes(n as usize) };
    let file = if i % 5 == 0 { let n = r.below(60) as usize; r.bytes(n) } else {
        let mut o = vec![*r.pick(&[0u8, 0, 0, 1, 1, 1, 2, 255])];
        let n = small(r); o.extend(n.to_be_bytes()); if n < 200 && !r.chance(1, 8) { o.extend(r.bytes(n as usize)); }
        if o[0] == 1 { let n = small(r); o.extend(n.to_be_bytes()); if n < 200 && !r.chance(1, 8) { o.extend(r.bytes(n as usize)); } }
        o.extend(tail(r)); o
    };
    json!({"c": c, "file": hx(&file)})
}
fn check16c(v: &Value) -> Verdict {
    let d = sandbox();
    let c = C::of(&v["c"]);
    let (r1, wt, cp, pl) = (put(&d, "c.r1cs", &c.r1cs()), put(&d, "w.wtns", &c.wtns()), put(&d, "ct", &unhx(&v["file"])), d.join("plain"));
    let r = crashes(|| decrypt_command(s(&r1), s(&wt), s(&cp), s(&pl)))?;
    if r.is_ok() { return Err("a file without a witness ciphertext is decrypted".into()); }
    if pl.exists() { return Err("an output was written for a damaged file".into()); }
    Ok(true)
}

// ---------------------------------------------------------------- C17
// {c, names, text, msg, cmd, hit, how, old}
fn gen17(r: &mut Rng, i: u64) -> Value {
    let c = gen(r, 1, 32);
    let (nm, t) = inputs(&C::of(&c), r);
    json!({"c": c, "names": nm, "text": t, "msg": hx(&message(r)), "incl": r.chance(1, 2), "cmd": i % 4, "hit": if r.chance(1, 5) { 99 } else { r.below(7) }, "how": r.below(4), "seed": r.next(), "old": r.chance(1, 2)})
}
fn check17(v: &Value) -> Verdict {
    let d = sandbox();
    let c = C::of(&v["c"]);
    let nm: Vec<String> = v["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let msg = unhx(&v["msg"]);
    let (cmd, hit, how) = (v["cmd"].as_u64().unwrap(), v["hit"].as_u64().unwrap(), v["how"].as_u64().unwrap());
    let mut r = Rng::new(v["seed"].as_u64().unwrap());
    let (ct, key) = encap_of(&c, v["seed"].as_u64().unwrap(), c.npub() as usize + 1)?;
    let incl = v["incl"] == json!(true);
    let mut comb = vec![incl as u8]; let w = ct_bytes(&ct); comb.extend((w.len() as u32).to_be_bytes()); comb.extend(&w); if incl { comb.extend((v["text"].as_str().unwrap().len() as u32).to_be_bytes()); comb.extend(v["text"].as_str().unwrap().as_bytes()); } comb.extend(seal(&key.0, &msg));
    let mut files: Vec<(&str, Vec<u8>)> = match cmd { 0 => vec![("c.r1cs", c.r1cs()), ("c.sym", sym(&nm).into_bytes()), ("in.json", v["text"].as_str().unwrap().as_bytes().to_vec())], 1 => vec![("c.r1cs", c.r1cs()), ("w.wtns", c.wtns()), ("ct", w.clone())], 2 => vec![("c.r1cs", c.r1cs()), ("c.sym", sym(&nm).into_bytes()), ("in.json", v["text"].as_str().unwrap().as_bytes().to_vec()), ("msg", msg.clone())], _ => vec![("c.r1cs", c.r1cs()), ("w.wtns", c.wtns()), ("ct", comb.clone())] };
    let outs: Vec<&str> = match cmd { 0 => vec!["o1", "o2"], _ => vec!["o1"] };
    let mut outp: Vec<PathBuf> = outs.iter().map(|o| d.join(o)).collect();
    let mut must_fail = false; let mut out_fail: Option<usize> = None; let mut what = "nothing broken".to_string();
    let nf = files.len() as u64;
    if hit < nf {
        let k = hit as usize;
        match how {
            0 => { what = format!("{} missing", files[k].0); must_fail = true; files.remove(k); }
            1 => { what = format!("{} is cut short", files[k].0); let b = &mut files[k].1; let n = r.below(b.len() as u64) as usize; b.truncate(n);
                must_fail = match files[k].0 { "c.sym" | "msg" => false, "in.json" => serde_json::from_slice::<Value>(&files[k].1).is_err(), _ => true }; }
            2 => { what = format!("{} is no such file", files[k].0); files[k].1 = match files[k].0 { "c.sym" => b"1,notanumber,0,main.a\n".to_vec(), "in.json" => r.pick(&[&b"[1]"[..], b"{\"a\":true}", b"{\"a\":\"zz\"}", b"nope", b"\xff\xfe", b"{} {}"]).to_vec(), "msg" => vec![], _ => b"\x00garbage".to_vec() }; must_fail = files[k].0 != "msg"; }
            _ => match files[k].0 {
                "ct" => { what = "another ciphertext".into(); must_fail = true; let b = &mut files[k].1; if cmd == 3 { let n = b.len(); let at = n - 1 - r.below(28.min(n as u64)) as usize; b[at] ^= 1 << r.below(8); } else { let mut ct2 = ct.clone(); ct2.public_inputs.push(Fr::from(5u64)); ct2.public_inputs = ct2.public_inputs.iter().map(|x| *x + Fr::one()).collect(); *b = ct_bytes(&ct2); } }
                "w.wtns" => { let mut x = c.vals.clone(); if c.nw > 1 { let k = r.range(1, c.nw - 1) as usize; x[k] = x[k] + Fr::one(); } must_fail = !c.satisfied(&x) || x[1..=c.npub() as usize] != ct.public_inputs[..]; what = "another witness".into(); files[k].1 = build_wtns(2, &wtns_sections(&modulus_le(), &x.iter().map(|v| v.to_bytes().to_vec()).collect::<Vec<_>>())); }
                "c.r1cs" => { let mut c2 = C::of(&v["c"]); c2.no = c2.nw; files[k].1 = c2.r1cs(); must_fail = true; what = "a circuit with more public signals than wires".into(); }
                _ => {}
            },
        }
    } else if hit < 6 {
        let k = (hit as usize) % outs.len();
        out_fail = Some(k); must_fail = true;
        if how % 2 == 0 { outp[k] = d.join("nowhere").join(outs[k]); what = format!("output {} in a directory that does not exist", k + 1); } else { std::fs::create_dir(&outp[k]).unwrap(); what = format!("output {} is a directory", k + 1); }
    }
    for (n, b) in &files { put(&d, n, b); }
    if v["old"] == json!(true) { for (k, p) in outp.iter().enumerate() { if out_fail != Some(k) { let n = *r.pick(&[0usize, 5, 100000]); std::fs::write(p, vec![0xaa; n]).unwrap(); } } }
    let before = snapshot(&d);
    let f = |n: &str| d.join(n);
    let res = crashes(|| match cmd {
        0 => encap_command(s(&f("c.r1cs")), s(&f("c.sym")), s(&f("in.json")), s(&outp[0]), s(&outp[1])),
        1 => decap_command(s(&f("c.r1cs")), s(&f("w.wtns")), s(&f("ct")), s(&outp[0])),
        2 => encrypt_command(s(&f("c.r1cs")), s(&f("c.sym")), s(&f("in.json")), s(&f("msg")), s(&outp[0]), incl),
        _ => decrypt_command(s(&f("c.r1cs")), s(&f("w.wtns")), s(&f("ct")), s(&outp[0])),
    })?;
    let after = snapshot(&d);
    let op: Vec<String> = outp.iter().map(|p| p.display().to_string()).collect();
    for k in before.keys().chain(after.keys()) { if !op.contains(k) && before.get(k) != after.get(k) { return Err(format!("the command changed {} ({})", k, what)); } }
    if res.is_ok() && must_fail { return Err(format!("the command reports success: {}", what)); }
    match res {
        Err(e) => { for (i, o) in op.iter().enumerate() { let excused = match out_fail { Some(k) => i <= k, None => false }; if !excused && before.get(o) != after.get(o) { return Err(format!("the command fails ({}; {:#}) and output {} was written", what, e, i + 1)); } if out_fail == Some(i) { continue; } if excused && after.get(o) != before.get(o) { // an output written before a later one failed is whole
                if cmd == 0 && i == 0 { ct_of(&after[o])?; } } } 
            if !must_fail && hit == 99 { return Err(format!("the command fails on good inputs: {:#}", e)); } }
        Ok(()) => {
            let g = |k: usize| after.get(&op[k]).cloned().ok_or(format!("success is reported and output {} does not exist", k + 1));
            match cmd {
                0 => { let (a, b) = (g(0)?, g(1)?); let ct = ct_of(&a)?; if ct_bytes(&ct) != a { return Err("the ciphertext file is not what was produced".into()); } if b.len() != 32 { return Err(format!("the key file has {} bytes", b.len())); }
                    if hit == 99 { let k = key_of(&c, &a)?; if k[..] != b[..] { return Err("the key file does not hold the key".into()); } } }
                1 => { let a = g(0)?; if hit == 99 && a[..] != key.0[..] { return Err("the key file does not hold the key".into()); } if a.len() != 32 { return Err(format!("the key file has {} bytes", a.len())); } }
                2 => { let a = g(0)?; let (_, w, q, e) = parts(&a)?; let m = files.iter().find(|x| x.0 == "msg").unwrap(); if hit == 99 || hit == 3 { let k = key_of(&c, &w)?; if open(&k, &e).as_deref() != Some(&m.1[..]) { return Err("the output does not hold the sealed message".into()); } } let _ = q; }
                _ => { let a = g(0)?; if a != msg { return Err("the output is not the message".into()); } }
            }
        }
    }
    Ok(true)
}
pub fn suites() -> Vec<Suite> { vec![
    Suite { id: "C12", rule: "JSON inputs of integers, decimal strings and nested arrays: every leaf on a public wire named after its position, then names that no leaf has; values the core receives; or one leaf that must be refused", gen: gen12, check: check12, budget: (2500, 50000) },
    Suite { id: "C16", rule: "encrypt command: the file is taken apart here, the key recovered with the witness, the sealed message opened; then the decrypt command", gen: gen16, check: check16, budget: (800, 15000) },
    Suite { id: "C16", rule: "containers made here, whole, cut or with lengths that the file does not have, through the decrypt command", gen: gen16b, check: check16b, budget: (1200, 20000) },
    Suite { id: "C16", rule: "small files with any flag and any stated lengths that hold no witness ciphertext, through the decrypt command: refused, no crash, no output", gen: gen16c, check: check16c, budget: (1500, 20000) },
    Suite { id: "C17", rule: "each command with one input missing, cut, replaced or wrong, or one output not writable, over old output files: what is on disk before and after", gen: gen17, check: check17, budget: (2500, 40000) },
    Suite { id: "C27", rule: "random circuits with named wires in shuffled symbol files; inputs for some public and private signals and for unknown names, in any order: instance values the core receives through encap and encrypt, and those recorded in the ciphertext", gen: gen27, check: check27, budget: (2000, 40000) },
] }
