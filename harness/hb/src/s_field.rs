//! files to constraint systems: C18 C19 C20
use crate::circ::*;
use std::result::Result;
use crate::run::*;
use crate::s_core::*;
use arkshim::ec::*;
use arkshim::ff::*;
use arkshim::relations::*;
use arkshim::tap;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use zkenc_cli::witness::WitnessFile;
use zkenc_core::{Ciphertext, EncapKey};

pub fn load_wtns(b: &[u8]) -> Result<WitnessFile, String> { let p = scratch().join("w.wtns"); std::fs::write(&p, b).unwrap(); WitnessFile::from_file(p.to_str().unwrap()).map_err(|e| format!("{:#}", e)) }
fn extra(r: &mut Rng, secs: &mut Vec<(u64, Vec<u8>)>, keep_order: bool) {
    for _ in 0..r.below(3) { let n = *r.pick(&[0usize, 1, 5, 12, 33, 9000]); let t = r.hint(0xffff_ffff).filter(|t| !(1..=3).contains(t)).unwrap_or(*r.pick(&[0u64, 4, 7, 255, 0x101, 0x0100_0002, 0xffff_ffff])); let b = r.bytes(n); let at = r.below(secs.len() as u64 + 1) as usize; secs.insert(at, (t, b)); }
    if !keep_order { r.shuffle(secs); }
}
fn enc(secs: &[(u64, Vec<u8>)]) -> Value { secs.iter().map(|(t, b)| json!([t, hx(b)])).collect() }
fn decs(v: &Value) -> Vec<(u64, Vec<u8>)> { v.as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), unhx(&x[1]))).collect() }

// ---------------------------------------------------------------- C18
// {prime, vals: [hex], secs}
fn gen18(r: &mut Rng, i: u64) -> Value {
    let w = if i % 2 == 0 { 32 } else { r.hint(300).map(|x| x as usize).filter(|x| *x > 0).unwrap_or(*r.pick(&[1usize, 2, 8, 31, 32, 33, 48, 64])) };
    let n = r.hint(20000).filter(|x| *x < 3000 || w < 9).map(|x| x.max(1)).unwrap_or(if i % 400 == 13 && w < 9 { 70000 } else { 0 }).max(match r.below(6) { 0 => 1, 5 => r.range(20, 300), _ => r.range(1, 9) });
    let prime = if r.chance(1, 2) { let mut p = modulus_le(); p.resize(w, 0); p } else { r.bytes(w) };
    let vals: Vec<Vec<u8>> = (0..n).map(|_| if w == 32 && r.chance(3, 4) { rand_fr(r).to_bytes().to_vec() } else { match r.below(5) { 0 => vec![0; w], 1 => vec![255; w], 2 if w == 32 => { let mut m = modulus_le(); if r.chance(1, 2) { m[0] -= 1; } m } _ => r.bytes(w) } }).collect();
    let mut s = wtns_sections(&prime, &vals);
    extra(r, &mut s, false);
    json!({"prime": hx(&prime), "vals": vals.iter().map(|b| hx(b)).collect::<Vec<_>>(), "secs": enc(&s)})
}
fn check18(v: &Value) -> Verdict {
    let vals: Vec<Vec<u8>> = v["vals"].as_array().unwrap().iter().map(unhx).collect();
    let b = build_wtns(2, &decs(&v["secs"]));
    let f = load_wtns(&b).map_err(|e| format!("a well-formed file is rejected: {}", e))?;
    if f.prime != unhx(&v["prime"]) { return Err("the prime is not the one in the file".into()); }
    if f.n_witness as usize != vals.len() || f.n_wires() as usize != vals.len() { return Err(format!("{} witness values counted, the file has {}", f.n_witness, vals.len())); }
    if f.assignments.len() != vals.len() { return Err(format!("{} entries for {} wires", f.assignments.len(), vals.len())); }
    for (i, x) in vals.iter().enumerate() { if f.assignments.get(&(i as u32)) != Some(x) { return Err(format!("wire {}: loaded {:?}, the file says {}", i, f.assignments.get(&(i as u32)).map(hex::encode), hex::encode(x))); } }
    if vals[0].len() == 32 {
        let want: Option<Vec<Fr>> = vals.iter().map(|x| Fr::from_bytes(x[..].try_into().unwrap())).collect();
        match (f.to_field_elements::<Fr>(), want) {
            (Err(_), None) => {}
            (Ok(_), None) => return Err("a value that is not below the field order is accepted".into()),
            (Err(e), Some(_)) => return Err(format!("values below the field order are refused: {:#}", e)),
            (Ok(m), Some(w)) => { if m.len() != w.len() { return Err("another number of field elements".into()); } for (i, x) in w.iter().enumerate() { if m.get(&(i as u32)) != Some(x) { return Err(format!("wire {}: field element {:?}, not {:?}", i, m.get(&(i as u32)), x)); } } }
        }
    }
    Ok(true)
}
// {secs, how, a, b, bytes?}
fn gen18b(r: &mut Rng, i: u64) -> Value {
    let mut c = gen18(r, i);
    let secs = decs(&c["secs"]);
    let full = build_wtns(2, &secs);
    let (how, bytes) = match r.below(9) {
        0 | 1 => ("cut short", full[..r.below(full.len() as u64) as usize].to_vec()),
        2 => ("wrong magic", { let mut b = full.clone(); let k = r.below(4) as usize; b[k] ^= (1 << r.below(8)) as u8; b }),
        3 => ("wrong version", build_wtns(*r.pick(&[0u64, 1, 3, 258, 0xffff_ffff, 0x0200_0000]), &secs)),
        4 => ("no header", build_wtns(2, &secs.iter().filter(|s| s.0 != 1).cloned().collect::<Vec<_>>())),
        5 => ("no data", build_wtns(2, &secs.iter().filter(|s| s.0 != 2).cloned().collect::<Vec<_>>())),
        6 => ("data length is not count times width", { let mut s = secs.clone(); let d = s.iter_mut().find(|s| s.0 == 2).unwrap(); let w = unhx(&c["prime"]).len(); match r.below(4) { 0 => { d.1.pop(); } 1 => d.1.push(r.next() as u8), 2 => { let n = d.1.len() - w; d.1.truncate(n); } _ => d.1.extend(vec![7u8; w]) }; build_wtns(2, &s) }),
        7 => ("a section runs past the end", { let at = { let mut p = 12; let k = r.below(secs.len() as u64) as usize; for s in &secs[..k] { p += 12 + s.1.len(); } p }; let mut b = full.clone(); let len = u64::from_le_bytes(b[at + 4..at + 12].try_into().unwrap()); let rem = (b.len() - at - 12) as u64; let _ = len; let n = *r.pick(&[rem + 1, rem + 4, 1 << 31, 1 << 32, 1 << 40, 1 << 63, u64::MAX, u64::MAX - 11]); b[at + 4..at + 12].copy_from_slice(&n.to_le_bytes()); b }),
        _ => ("anything", { let mut b = full.clone(); for _ in 0..r.range(1, 3) { if b.len() < 13 { break; } let at = r.range(8, b.len() as u64 - 1) as usize; match r.below(3) { 0 => b[at] ^= (1 << r.below(8)) as u8, 1 => { let n = (at + *r.pick(&[4usize, 8])).min(b.len()); for x in &mut b[at..n] { *x = 0xff; } } _ => { let n = r.bytes(r.clone().below(9) as usize); b.splice(at..at, n); } } } b }),
    };
    c["how"] = json!(how); c["bytes"] = hx(&bytes); c
}
fn check18b(v: &Value) -> Verdict {
    let how = v["how"].as_str().unwrap();
    let b = unhx(&v["bytes"]);
    match crashes(|| load_wtns(&b))? {
        Err(_) => Ok(true),
        Ok(_) if how != "anything" => Err(format!("a damaged file ({}) is loaded", how)),
        Ok(f) => { // whatever was loaded is a whole witness
            if f.assignments.len() != f.n_witness as usize || (0..f.n_witness).any(|i| f.assignments.get(&i).map(|x| x.len()) != Some(f.prime.len())) { return Err("a partial witness was loaded".into()); }
            let _ = crashes(|| f.to_field_elements::<Fr>().is_ok())?; Ok(false) }
    }
}

// ---------------------------------------------------------------- C19
fn empty_ct() -> Vec<u8> { ct_bytes(&Ciphertext::<Bn254> { encap_key: EncapKey { alpha_g1: G1Affine(Fr::one()), beta_g2: G2Affine(Fr::one()), delta_g2: G2Affine(Fr::one()), r_u_query_g1: vec![], r_v_query_g2: vec![], phi_delta_query_g1: vec![], h_query_g1: vec![] }, public_inputs: vec![] }) }
fn rows_ok(c: &C, cs: &ConstraintSystem<Fr>, vals: &[Fr]) -> Result<(), String> {
    if cs.n_instance as u64 != 1 + c.npub() { return Err(format!("{} instance variables, the circuit has {} public signals", cs.n_instance, c.npub())); }
    if (cs.n_instance + cs.n_witness) as u64 != c.nw { return Err(format!("{} variables, the circuit has {} wires", cs.n_instance + cs.n_witness, c.nw)); }
    let got: Vec<Fr> = cs.instance.iter().chain(&cs.witness).cloned().collect();
    if got.len() != vals.len() || got[1..] != vals[1..] || got[0] != Fr::one() { return Err(format!("values {:?}, given {:?}", got, vals)); }
    c.check_rows(cs)
}
// {c, rs, wfs, ws, wv}
fn gen19(r: &mut Rng, i: u64) -> Value {
    let fs = *r.pick(&[32u64, 32, 32, 8, 1, 20, 31]);
    let c = gen(r, (i % 2) as u64, fs);
    let cc = C::of(&c);
    let mut rs = cc.sections(); if r.chance(1, 3) { rs.retain(|s| s.0 != 3); } extra(r, &mut rs, false);
    let wfs = if i % 3 == 0 { 32 } else { r.range(1, 32) as usize };
    let mut prime = modulus_le(); prime.resize(wfs, 0);
    let wv: Vec<Vec<u8>> = cc.vals.iter().enumerate().map(|(i, v)| if i == 0 { let mut b = vec![0u8; wfs]; b[0] = 1; b } else if wfs == 32 && r.chance(2, 3) { v.to_bytes().to_vec() } else { match r.below(4) { 0 => vec![255; wfs], _ => r.bytes(wfs) } }).collect();
    let mut ws = wtns_sections(&prime, &wv); extra(r, &mut ws, true);
    json!({"c": c, "rs": enc(&rs), "ws": enc(&ws), "wv": wv.iter().map(|b| hx(b)).collect::<Vec<_>>()})
}
fn check19(v: &Value) -> Verdict {
    let c = C::of(&v["c"]);
    let (rb, wb) = (build_r1cs(&decs(&v["rs"])), build_wtns(2, &decs(&v["ws"])));
    let vals: Vec<Fr> = v["wv"].as_array().unwrap().iter().map(frx).collect();
    tap::clear();
    let d = zkenc_js::wasm_decap(&rb, &wb, &empty_ct());
    match last_system() {
        None => return Err(format!("the circuit or witness is refused: {:?}", d.err())),
        Some(cs) => rows_ok(&c, &cs, &vals)?,
    }
    tap::clear();
    let e = zkenc_js::wasm_encap(&rb, &wb).map_err(|e| format!("encapsulation refuses the circuit or witness: {:?}", e))?;
    let cs = last_system().ok_or("no constraint system")?;
    if cs.instance[1..] != vals[1..=c.npub() as usize] { return Err(format!("encapsulation saw the public values {:?}, the witness has {:?}", &cs.instance[1..], &vals[1..=c.npub() as usize])); }
    if cs.n_witness > 1 || !cs.witness.is_empty() { return Err("encapsulation was given private values".into()); }
    let _ = e;
    Ok(!c.rows.is_empty())
}
// damaged bytes: {what: circuit|witness, how, r, w}
fn gen19b(r: &mut Rng, i: u64) -> Value {
    let c = gen19(r, i);
    let (rs, ws) = (decs(&c["rs"]), decs(&c["ws"]));
    let (mut rb, mut wb) = (build_r1cs(&rs), build_wtns(2, &ws));
    let cc = C::of(&c["c"]);
    let mut how = "anything";
    let past = |r: &mut Rng, secs: &[(u64, Vec<u8>)], b: &mut Vec<u8>| { let k = r.below(secs.len() as u64) as usize; let mut p = 12; for s in &secs[..k] { p += 12 + s.1.len(); } let rem = (b.len() - p - 12) as u64; let n = *r.pick(&[rem + 1, rem + 9, 1 << 31, 1 << 32, (1 << 32) - 1, 1 << 63, u64::MAX, u64::MAX - 11, u64::MAX - p as u64, u64::MAX - p as u64 - 11]); b[p + 4..p + 12].copy_from_slice(&n.to_le_bytes()); };
    let noise = |r: &mut Rng, b: &mut Vec<u8>| { for _ in 0..r.range(1, 3) { if b.len() < 9 { break; } let at = r.range(4, b.len() as u64 - 1) as usize; match r.below(4) { 0 => b[at] ^= (1 << r.below(8)) as u8, 1 => { let n = (at + *r.pick(&[2usize, 4, 8])).min(b.len()); for x in &mut b[at..n] { *x = 0xff; } } 2 => b.truncate(at), _ => { let n = (at + 4).min(b.len()); for x in &mut b[at..n] { *x = 0; } } } } };
    match r.below(10) {
        0 | 1 => { how = "circuit cut short"; rb.truncate(r.below(rb.len() as u64) as usize); }
        2 => { how = "circuit section past the end"; past(r, &rs, &mut rb); }
        3 if !cc.rows.iter().all(|x| x.iter().all(|l| l.is_empty())) => { how = "undeclared wire"; let mut w = C::of(&c["c"]); loop { let k = r.below(w.rows.len() as u64) as usize; let q = r.below(3) as usize; if w.rows[k][q].is_empty() { continue; } let j = r.below(w.rows[k][q].len() as u64) as usize; w.rows[k][q][j].0 = *r.pick(&[cc.nw, cc.nw + 1, 0xffff_ffff, 0x8000_0000]); break; } rb = build_r1cs(&rs.iter().map(|s| if s.0 == 2 { w.sections()[1].clone() } else { s.clone() }).collect::<Vec<_>>()); }
        4 => { how = "more public signals than wires"; let mut w = C::of(&c["c"]); match r.below(3) { 0 => w.no = cc.nw - w.ni, 1 => { w.no = 0xffff_ffff; w.ni = r.below(2) + 1; } _ => { w.ni = 0xffff_ffff; w.no = r.below(5); } } rb = build_r1cs(&rs.iter().map(|s| if s.0 == 1 { w.sections()[0].clone() } else { s.clone() }).collect::<Vec<_>>()); }
        5 => { how = "witness section past the end"; past(r, &ws, &mut wb) }
        6 => { how = "witness cut short"; wb.truncate(r.below(wb.len() as u64) as usize) }
        9 => { how = "another magic or version of the witness"; match r.below(3) { 0 => wb[r.below(4) as usize] ^= 1 << r.below(8), 1 => wb[4..8].copy_from_slice(&(*r.pick(&[0u32, 1, 3, 258, 2 << 24, 0x0201_0000])).to_le_bytes()), _ => wb[4 + r.below(4) as usize] ^= 1 << r.below(8) } }
        7 => noise(r, &mut wb),
        _ => noise(r, &mut rb),
    }
    json!({"how": how, "r": hx(&rb), "w": hx(&wb)})
}
fn claims(b: &[u8]) -> u64 { // the number of public signals a header claims, if it can be found plainly; used only to keep cases small
    let mut p = 12; while p + 12 <= b.len() { let t = u32::from_le_bytes(b[p..p + 4].try_into().unwrap()); let l = u64::from_le_bytes(b[p + 4..p + 12].try_into().unwrap()); p += 12;
        if t == 1 { if p + 4 > b.len() { return 0; } let f = u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as usize; let q = p + 4 + f; if q + 12 > b.len() { return 0; } let g = |o: usize| u32::from_le_bytes(b[q + o..q + o + 4].try_into().unwrap()) as u64; return g(4) + g(8); }
        if l > (b.len() - p) as u64 { return 0; } p += l as usize; } 0
}
fn check19b(v: &Value) -> Verdict {
    let (rb, wb) = (unhx(&v["r"]), unhx(&v["w"]));
    let how = v["how"].as_str().unwrap();
    if how == "anything" && claims(&rb) > 1_000_000 { return Ok(false); }
    let a = crashes(|| zkenc_js::wasm_decap(&rb, &wb, &empty_ct()).is_ok())?;
    tap::clear();
    let b = crashes(|| zkenc_js::wasm_encap(&rb, &wb).is_ok())?;
    if how != "anything" && (a || b) { return Err(format!("damaged input ({}) is accepted", how)); }
    if how != "anything" && !tap::systems().is_empty() { return Err(format!("a constraint system was built from damaged input ({})", how)); }
    Ok(true)
}

// ---------------------------------------------------------------- C20
// {c, miss: wire|null, one: bool}
fn gen20(r: &mut Rng, i: u64) -> Value {
    let fs = *r.pick(&[32u64, 32, 32, 32, 16, 1]);
    let c = gen(r, 0, fs);
    let mut c = c;
    if fs == 32 && i % 3 == 0 { // coefficients at and above the order; several factors on one wire
        for row in c["rows"].as_array_mut().unwrap() { for l in row.as_array_mut().unwrap() { for f in l.as_array_mut().unwrap() { if r.chance(1, 4) { f[1] = hx(&match r.below(3) { 0 => modulus_le(), 1 => vec![255; 32], _ => r.bytes(32) }); } } } }
    }
    let nw = c["nw"].as_u64().unwrap();
    json!({"c": c, "miss": if r.chance(1, 4) && nw > 1 { json!(r.range(1, nw - 1)) } else { Value::Null }, "one": r.chance(1, 3), "zero": r.below(3)})
}
fn check20(v: &Value) -> Verdict {
    let c = C::of(&v["c"]);
    let miss = v["miss"].as_u64();
    let p = scratch().join("c.r1cs"); std::fs::write(&p, c.r1cs()).unwrap();
    let mut x = zkenc_cli::circuit::CircomCircuit::from_r1cs(&p).map_err(|e| format!("the circuit is refused: {:#}", e))?;
    if x.n_public_inputs() as u64 != c.npub() || x.n_constraints() as usize != c.rows.len() { return Err("the counts of public inputs or constraints are wrong".into()); }
    let vs: Vec<(u32, Fr)> = (0..c.nw).filter(|i| Some(*i) != miss).map(|i| (i as u32, c.vals[i as usize])).filter(|(i, _)| *i > 0 || v["zero"] != json!(0)).collect();
    if v["one"] == json!(true) { for (i, f) in &vs { x.set_wire(*i, *f); } } else { x.set_witness(vs.iter().cloned().collect()); }
    let cs = ConstraintSystem::<Fr>::new_ref();
    let res = x.generate_constraints(cs.clone());
    let sys = cs.borrow().unwrap().clone();
    match (res, miss) {
        (Err(e), None) => return Err(format!("the constraint system is not built: {:?}", e)),
        (Ok(()), Some(m)) => return Err(format!("wire {} has no value and this is not reported", m)),
        (Err(e), Some(m)) => { if e != SynthesisError::AssignmentMissing { return Err(format!("a missing value is reported as {:?}", e)); } let got: Vec<Fr> = sys.instance.iter().chain(&sys.witness).cloned().collect(); if got[..] != c.vals[..m as usize] { return Err(format!("before the missing wire {}: {:?}, given {:?}", m, got, &c.vals[..m as usize])); } }
        (Ok(()), None) => rows_ok(&c, &sys, &c.vals).map_err(|e| format!("CLI: {}", e))?,
    }
    // the WASM binding, through its two entry points
    let mut w: Vec<Vec<u8>> = c.vals.iter().map(|x| x.to_bytes().to_vec()).collect();
    if let Some(m) = miss { w.truncate(m as usize); }
    let w = build_wtns(2, &wtns_sections(&modulus_le(), &w));
    tap::clear();
    let d = zkenc_js::wasm_decap(&c.r1cs(), &w, &empty_ct());
    match (miss, last_system()) {
        (None, Some(s)) => rows_ok(&c, &s, &c.vals).map_err(|e| format!("WASM: {}", e))?,
        (None, None) => return Err(format!("WASM: refused: {:?}", d.err())),
        (Some(_), _) => if d.is_ok() { return Err("WASM: a key for a witness that lacks a value".into()); }
    }
    tap::clear();
    zkenc_js::wasm_encap(&c.r1cs(), &w).map_err(|e| format!("WASM: encapsulation failed: {:?}", e))?;
    let s = last_system().ok_or("no constraint system")?;
    let upto = miss.unwrap_or(u64::MAX).min(c.npub() + 1) as usize;
    if s.instance[..] != c.vals[..upto] { return Err(format!("WASM encapsulation: instance values {:?}, given {:?}", s.instance, &c.vals[..upto])); }
    if upto as u64 == c.nw { rows_ok(&c, &s, &c.vals).map_err(|e| format!("WASM encapsulation: {}", e))?; }
    Ok(true)
}
pub fn suites() -> Vec<Suite> { vec![
    Suite { id: "C18", rule: "wtns version 2 files of every width, with unknown sections, sections in any order: loaded prime, count, bytes and field elements compared", gen: gen18, check: check18, budget: (4000, 60000) },
    Suite { id: "C18", rule: "wtns files cut short, with another magic, version or data length, without header or data, with sections past the end, or with bytes changed anywhere: an error or a whole witness, no crash", gen: gen18b, check: check18b, budget: (6000, 100000) },
    Suite { id: "C19", rule: "r1cs and wtns bytes in varied layouts through wasm_decap and wasm_encap; the constraint system they build is compared wire by wire and factor by factor", gen: gen19, check: check19, budget: (1500, 30000) },
    Suite { id: "C19", rule: "damaged r1cs and wtns bytes through wasm_decap and wasm_encap: damaged circuits and witnesses are errors, nothing crashes", gen: gen19b, check: check19b, budget: (6000, 100000) },
    Suite { id: "C20", rule: "random circuits and values, one wire without value, coefficients of 1 to 32 bytes also at and above the order: variables and constraints handed to a recording constraint system by the CLI circuit and the WASM binding", gen: gen20, check: check20, budget: (2000, 40000) },
] }
