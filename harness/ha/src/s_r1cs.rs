use crate::{r1cs::*, run::*};
use serde_json::{json, Value};

fn p32(v: &mut Vec<u8>, x: u64) { v.extend_from_slice(&(x as u32).to_le_bytes()) }
fn p64(v: &mut Vec<u8>, x: u64) { v.extend_from_slice(&x.to_le_bytes()) }

/// a circuit as JSON: {fs, prime, nw, no, ni, np, nl, cons:[[[ [w,hex].. ] x3]..], labels: [..]|null}
pub fn gen_circuit(r: &mut Rng, widths: &[usize]) -> Value {
    let fs = r.hint(300).map(|x| x as usize).filter(|_| r.chance(1, 2)).unwrap_or(*r.pick(widths));
    let nw = r.hint(20000).filter(|x| *x < 3000 || r.chance(1, 4)).map(|x| x.max(1)).unwrap_or(match r.below(1500) { 0 => r.range(65530, 70000), 1..=15 => r.range(200, 600), _ => r.range(1, 12) });
    let no = r.hint(nw - 1).unwrap_or(r.below(nw.min(4)));
    let ni = r.below(nw - no);
    let np = r.below(nw - no - ni);
    let nc = r.hint(6000).filter(|x| *x < 1500 || r.chance(1, 4)).unwrap_or(match r.below(3000) { 0 if fs < 9 => r.range(65530, 66000), 1..=20 => r.range(60, 400), _ => r.below(6) });
    let lc = |r: &mut Rng| -> Value {
        let n = if nc < 30 { r.hint(5000).filter(|x| *x < 400 || r.chance(1, 8)) } else { None }.unwrap_or_else(|| if r.chance(1, 400) && nc < 30 { if r.chance(1, 16) && fs < 9 { r.range(65530, 66000) } else { r.range(200, 600) } } else { match r.below(6) { 0 => 0, 5 => r.range(5, 9), _ => r.range(1, 4) } });
        // wires may repeat and come in any order
        (0..n).map(|_| json!([r.hint(nw - 1).unwrap_or(r.below(nw)), hx(&match r.below(4) { 0 => vec![0u8; fs], 1 => vec![0xff; fs], _ => r.bytes(fs) })])).collect()
    };
    let mut cons: Vec<Value> = vec![];
    for _ in 0..nc { let k = if cons.is_empty() || !r.chance(1, 6) { json!([lc(r), lc(r), lc(r)]) } else { let mut k = cons[r.below(cons.len() as u64) as usize].clone(); if r.chance(1, 2) { k[r.below(3) as usize] = lc(r); } k }; cons.push(k); }
    let labels: Value = if r.chance(1, 3) { Value::Null } else { (0..nw).map(|_| if r.chance(1, 2) { r.next() } else { r.below(100) }).collect() };
    let nl = if let Some(x) = r.hint(u64::MAX) { x } else if r.chance(1, 2) { r.next() } else { nw };
    json!({"fs": fs, "prime": hx(&r.bytes(fs)), "nw": nw, "no": no, "ni": ni, "np": np, "nl": nl, "cons": cons, "labels": labels})
}
fn sec_header(c: &Value) -> Vec<u8> {
    let mut v = vec![];
    p32(&mut v, c["fs"].as_u64().unwrap());
    v.extend(unhx(&c["prime"]));
    for k in ["nw", "no", "ni", "np"] { p32(&mut v, c[k].as_u64().unwrap()); }
    p64(&mut v, c["nl"].as_u64().unwrap());
    p32(&mut v, c["cons"].as_array().unwrap().len() as u64);
    v
}
fn sec_cons(c: &Value) -> Vec<u8> {
    let mut v = vec![];
    for con in c["cons"].as_array().unwrap() { for lc in con.as_array().unwrap() {
        let f = lc.as_array().unwrap();
        p32(&mut v, f.len() as u64);
        for x in f { p32(&mut v, x[0].as_u64().unwrap()); v.extend(unhx(&x[1])); }
    } }
    v
}
fn sec_labels(c: &Value) -> Option<Vec<u8>> {
    c["labels"].as_array().map(|l| { let mut v = vec![]; for x in l { p64(&mut v, x.as_u64().unwrap()); } v })
}
pub fn build(magic: &[u8], version: u64, secs: &[(u64, Vec<u8>)]) -> Vec<u8> {
    let mut v = magic.to_vec();
    p32(&mut v, version);
    p32(&mut v, secs.len() as u64);
    for (t, b) in secs { p32(&mut v, *t); p64(&mut v, b.len() as u64); v.extend_from_slice(b); }
    v
}
/// sections of the circuit in a random order with unknown sections between
fn layout(r: &mut Rng, c: &Value) -> Vec<(u64, Vec<u8>)> {
    let mut s = vec![(1, sec_header(c)), (2, sec_cons(c))];
    if let Some(l) = sec_labels(c) { s.push((3, l)); }
    for _ in 0..r.below(4) { let n = *r.pick(&[0usize, 1, 4, 7, 13, 40, 9000]); let t = r.hint(0xffff_ffff).filter(|t| !(1..=3).contains(t)).unwrap_or(*r.pick(&[4u64, 5, 0, 6, 255, 0x101, 0x0100_0002, 0xffff_ffff])); s.push((t, r.bytes(n))); }
    if r.chance(3, 4) { r.shuffle(&mut s); }
    s
}
pub fn expect(c: &Value, f: &R1csFile) -> Result<(), String> {
    let e = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{}: loaded {} but the file says {}", what, got, want)) };
    e("field size", f.field_size.to_string(), c["fs"].to_string())?;
    e("prime", hex::encode(&f.prime), c["prime"].as_str().unwrap().into())?;
    e("wires", f.n_wires.to_string(), c["nw"].to_string())?;
    e("public outputs", f.n_pub_out.to_string(), c["no"].to_string())?;
    e("public inputs", f.n_pub_in.to_string(), c["ni"].to_string())?;
    e("private inputs", f.n_prv_in.to_string(), c["np"].to_string())?;
    e("labels", f.n_labels.to_string(), c["nl"].to_string())?;
    e("n_public_inputs()", f.n_public_inputs().to_string(), (c["no"].as_u64().unwrap() + c["ni"].as_u64().unwrap()).to_string())?;
    let cons = c["cons"].as_array().unwrap();
    e("constraint count", f.n_constraints.to_string(), cons.len().to_string())?;
    e("number of constraints", f.constraints.len().to_string(), cons.len().to_string())?;
    for (i, (g, w)) in f.constraints.iter().zip(cons).enumerate() {
        for (k, lc) in [&g.a, &g.b, &g.c].into_iter().enumerate() {
            let got: Vec<Value> = lc.factors.iter().map(|(w, b)| json!([w, hx(b)])).collect();
            e(&format!("constraint {} part {}", i, k), json!(got).to_string(), w[k].to_string())?;
        }
    }
    let want: Value = if c["labels"].is_null() { (0..c["nw"].as_u64().unwrap()).collect() } else { c["labels"].clone() };
    e("wire labels", json!(f.wire2label).to_string(), want.to_string())
}
fn load(bytes: &[u8]) -> Result<anyhow::Result<R1csFile>, String> {
    let p = scratch().join("x.r1cs");
    std::fs::write(&p, bytes).unwrap();
    crashes(|| R1csFile::from_file(&p))
}
const WIDTHS: &[usize] = &[32, 32, 32, 8, 1, 2, 4, 16, 24, 31, 33, 40, 48, 64, 96];

fn c05_gen(r: &mut Rng, i: u64) -> Value {
    let mut c = gen_circuit(r, WIDTHS);
    if i % 50 == 20 { // more constraints and factors than any buffer holds
        let nw = c["nw"].as_u64().unwrap();
        let fs = c["fs"].as_u64().unwrap() as usize;
        let n = r.range(60, 300);
        let cons: Vec<Value> = (0..n).map(|_| { let l = |r: &mut Rng| -> Value { (0..r.below(7)).map(|_| json!([r.below(nw), hx(&r.bytes(fs))])).collect() }; json!([l(r), l(r), l(r)]) }).collect();
        c["cons"] = json!(cons);
    }
    let l = layout(r, &c);
    let mut f = build(b"r1cs", 1, &l);
    if r.chance(1, 8) { let n = r.below(20) as usize; f.extend(r.bytes(n)); c["tail"] = json!(n); }
    json!({"circuit": c, "file": hx(&f)})
}
fn c05(c: &Value) -> Verdict {
    let f = load(&unhx(&c["file"]))?.map_err(|e| format!("well-formed file refused: {:#}", e))?;
    expect(&c["circuit"], &f)?;
    Ok(c["circuit"]["cons"].as_array().unwrap().len() > 0)
}

/// kinds of damage that the statement says must give an error
fn c06_gen(r: &mut Rng, i: u64) -> Value {
    let c = gen_circuit(r, &[32, 8, 4, 32, 1, 48]);
    let secs = layout(r, &c);
    let good = build(b"r1cs", 1, &secs);
    let kind = i % 12;
    let (what, f): (String, Vec<u8>) = match kind {
        0 => { // cut inside what the header promises: anything the loader needs
            let order_last_needed = secs.iter().enumerate().filter(|(_, s)| (1..=3).contains(&s.0)).map(|(k, _)| k).max().unwrap();
            let mut end = 12; for s in &secs[..=order_last_needed] { end += 12 + s.1.len(); }
            // a last section that is empty can only be cut in its head
            let n = r.below(end as u64) as usize; (format!("cut to {} of {} bytes", n, good.len()), good[..n].to_vec()) }
        1 => { let mut m = b"r1cs".to_vec(); let k = r.below(4) as usize; m[k] ^= r.range(1, 255) as u8; ("wrong magic".into(), build(&m, 1, &secs)) }
        2 => { let v = *r.pick(&[0u64, 2, 3, 255, 256, 257, 0x0100_0001, 0xffff_ffff]); (format!("version {}", v), build(b"r1cs", v, &secs)) }
        3 => { let t = r.range(1, 2); let mut s = secs.clone(); s.retain(|x| x.0 != t); (format!("without section {}", t), build(b"r1cs", 1, &s)) }
        4 => { // a section claims to run past the end
            let k = r.below(secs.len() as u64) as usize;
            let mut pos = 12; for s in &secs[..k] { pos += 12 + s.1.len(); }
            let left = (good.len() - pos - 12) as u64;
            let size = *r.pick(&[left + 1, left + 2, left + 100, left + (1 << 31), left + (1 << 32), 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX - 11, u64::MAX, (u64::MAX - pos as u64) + 1, u64::MAX - pos as u64 - 11]);
            let mut f = good.clone(); f[pos + 4..pos + 12].copy_from_slice(&size.to_le_bytes());
            // with the other sections where they are still found, if it is the last one
            (format!("section {} claims {} bytes, {} left", k, size, left), f) }
        5 => { let n = secs.len() as u64 + *r.pick(&[1u64, 2, 1000, 0xffff_0000]); let mut f = good.clone(); f[8..12].copy_from_slice(&(n as u32).to_le_bytes()); (format!("section count {}", n), f) }
        6 => { // the header promises more constraints than there are
            let mut c2 = c.clone(); let mut h = sec_header(&c2); let l = h.len(); let n = c["cons"].as_array().unwrap().len() as u32 + *r.pick(&[1u32, 5, 1 << 20, 0xf000_0000]);
            h[l - 4..].copy_from_slice(&n.to_le_bytes()); c2["x"] = json!(0);
            (format!("{} constraints promised", n), build(b"r1cs", 1, &[(1, h), (2, sec_cons(&c))])) }
        7 => { // a factor count larger than the data, in the last place of the file
            let mut v = vec![]; p32(&mut v, 0); p32(&mut v, 0); p32(&mut v, *r.pick(&[1u64, 2, 1 << 16, 0xffff_ffff])); let k = r.below(c["fs"].as_u64().unwrap() + 4) as usize; v.extend(vec![0u8; k]);
            let mut c2 = c.clone(); c2["cons"] = json!([[[], [], []]]);
            ("factors missing".into(), build(b"r1cs", 1, &[(1, sec_header(&c2)), (2, v)])) }
        8 => { // wire out of range
            let nw = c["nw"].as_u64().unwrap(); let w = *r.pick(&[nw, nw + 1, nw + 1000, 0xffff_ffff]);
            let fs = c["fs"].as_u64().unwrap() as usize; let mut con = vec![json!([]), json!([]), json!([])]; let k = r.below(3) as usize;
            con[k] = json!([[0, hx(&vec![1; fs])], [w, hx(&vec![1; fs])]]);
            let mut c2 = c.clone(); let mut cs = c["cons"].as_array().unwrap().clone(); let at = r.below(cs.len() as u64 + 1) as usize; cs.insert(at, json!(con)); c2["cons"] = json!(cs);
            (format!("wire {} of {}", w, nw), build(b"r1cs", 1, &[(1, sec_header(&c2)), (2, sec_cons(&c2))])) }
        9 => { // more public wires than wires
            let mut c2 = c.clone(); let nw = c["nw"].as_u64().unwrap();
            let (o, i2) = *r.pick(&[(nw, 0), (0, nw), (nw, nw), (0xffff_ffff, 1), (0x8000_0000, 0x8000_0000), (0xffff_ffff, 0xffff_ffff), (nw + 1, 0)]);
            c2["no"] = json!(o); c2["ni"] = json!(i2);
            (format!("{}+{} public of {} wires", o, i2, nw), build(b"r1cs", 1, &layout(r, &c2))) }
        10 => { // labels missing
            let l: Vec<u8> = (0..c["nw"].as_u64().unwrap()).flat_map(|x| x.to_le_bytes()).collect(); let n = r.below(l.len() as u64) as usize;
            ("labels cut".into(), build(b"r1cs", 1, &[(1, sec_header(&c)), (2, sec_cons(&c)), (3, l[..n].to_vec())])) }
        _ => { // any bytes: only "no crash, no hang"
            let f = match r.below(4) { 0 => { let n = r.below(200) as usize; r.bytes(n) }
                1 => { let mut f = good.clone(); for _ in 0..r.range(1, 4) { let l = f.len() as u64; let p = r.below(l) as usize; f[p] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]); } f }
                2 => { let mut f = good.clone(); let l = f.len() as u64; let p = (r.below(l.min(120)) as usize).min(f.len() - 4); f[p..p + 4].copy_from_slice(&r.pick(&[0u32, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1000_0000]).to_le_bytes()); f }
                _ => { let n = r.below(150) as usize; [&b"r1cs\x01\0\0\0"[..], &r.bytes(n)].concat() } };
            return json!({"what": "any bytes", "file": hx(&f), "err": false}); }
    };
    json!({"what": what, "file": hx(&f), "err": true})
}
/// what a circuit that was loaded from any bytes must satisfy
fn whole(f: &R1csFile) -> Result<(), String> {
    if f.prime.len() != f.field_size as usize { return Err("half-loaded prime".into()); }
    if f.constraints.len() != f.n_constraints as usize { return Err("half-loaded constraints".into()); }
    if f.wire2label.len() != f.n_wires as usize { return Err("half-loaded labels".into()); }
    if f.n_pub_out as u64 + f.n_pub_in as u64 >= f.n_wires as u64 { return Err("more public wires than wires".into()); }
    for c in &f.constraints { for l in [&c.a, &c.b, &c.c] { for (w, b) in &l.factors {
        if *w >= f.n_wires { return Err("wire out of range".into()); }
        if b.len() != f.field_size as usize { return Err("half-loaded coefficient".into()); } } } }
    Ok(())
}
/// a header that declares so many wires that the default labels alone are gigabytes: memory is not what is checked
fn huge(b: &[u8]) -> bool {
    let u = |p: usize, n: usize| -> Option<u64> { let s = b.get(p..p.checked_add(n)?)?; Some(s.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64)) };
    let mut p = 12usize;
    for _ in 0..64 {
        let (Some(t), Some(l)) = (u(p, 4), u(p + 4, 8)) else { return false };
        if t == 1 { if let Some(fs) = u(p + 12, 4) { if let Some(nw) = (p + 16).checked_add(fs as usize).and_then(|q| u(q, 4)) { return nw > 1 << 26; } } return false; }
        match (p + 12).checked_add(l as usize) { Some(q) => p = q, None => return false }
    }
    false
}
fn c06(c: &Value) -> Verdict {
    let b = unhx(&c["file"]);
    if c["err"] == json!(false) && huge(&b) { return Ok(false); }
    match load(&b)? {
        Ok(f) => {
            if c["err"] == json!(true) { return Err(format!("loaded a damaged file ({})", c["what"])); }
            whole(&f)?; Ok(b.len() > 12)
        }
        Err(_) => Ok(b.len() > 12),
    }
}

fn c07_gen(r: &mut Rng, i: u64) -> Value { let mut c = gen_circuit(r, WIDTHS); c["labels"] = Value::Null; if i % 9 == 1 { c["nc"] = json!(r.next() as u32); } c }
fn c07(c: &Value) -> Verdict {
    let u = |k: &str| c[k].as_u64().unwrap() as u32;
    let lc = |v: &Value| LinearCombination { factors: v.as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as u32, unhx(&x[1]))).collect() };
    let cons: Vec<Constraint> = c["cons"].as_array().unwrap().iter().map(|k| Constraint { a: lc(&k[0]), b: lc(&k[1]), c: lc(&k[2]) }).collect();
    let nc = c["nc"].as_u64().map(|x| x as u32).unwrap_or(cons.len() as u32);
    let f = R1csFile { field_size: u("fs"), prime: unhx(&c["prime"]), n_wires: u("nw"), n_pub_out: u("no"), n_pub_in: u("ni"), n_prv_in: u("np"), n_labels: c["nl"].as_u64().unwrap(), n_constraints: nc, constraints: cons, wire2label: vec![] };
    let s = f.to_serializable();
    if (s.field_size, &s.prime_bytes, s.n_wires, s.n_pub_out, s.n_pub_in, s.n_prv_in, s.n_constraints) != (f.field_size, &f.prime, f.n_wires, f.n_pub_out, f.n_pub_in, f.n_prv_in, f.n_constraints) { return Err("a header number or the prime changed".into()); }
    if s.constraints.len() != f.constraints.len() { return Err("number of constraints changed".into()); }
    for (i, (x, y)) in s.constraints.iter().zip(&f.constraints).enumerate() {
        for (k, (p, q)) in [(&x.a, &y.a), (&x.b, &y.b), (&x.c, &y.c)].into_iter().enumerate() {
            let g: Vec<(u32, Vec<u8>)> = p.factors.iter().map(|f| (f.wire_id, f.coefficient_bytes.clone())).collect();
            if g != q.factors { return Err(format!("constraint {} part {} changed", i, k)); }
        }
    }
    Ok(!f.constraints.is_empty())
}

pub fn suites() -> Vec<Suite> {
    vec![
        Suite { id: "C05", rule: "random circuits (widths 1..96, up to 300 constraints, repeated wires) laid out with sections in any order, unknown sections between, optional labels; non-trivial: has a constraint", gen: c05_gen, check: c05, budget: (3000, 60000) },
        Suite { id: "C06", rule: "twelve kinds of damage to well-formed files that must give an error, and arbitrary bytes that must not crash, hang or half-load; non-trivial: longer than 12 bytes", gen: c06_gen, check: c06, budget: (6000, 200000) },
        Suite { id: "C07", rule: "random parsed circuits; non-trivial: has a constraint", gen: c07_gen, check: c07, budget: (5000, 100000) },
    ]
}
