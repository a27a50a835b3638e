//! the core: C21 C22 C23 C25
use crate::circ::*;
use std::result::Result;
use crate::run::*;
use arkshim::ec::*;
use arkshim::ff::*;
use arkshim::relations::*;
use arkshim::serialize::*;
use arkshim::tap;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use zkenc_core::{decap, encap, verify_ciphertext, Ciphertext, EncapKey, Key};

pub fn ct_bytes(c: &Ciphertext<Bn254>) -> Vec<u8> { let mut v = vec![]; c.serialize_compressed(&mut v).unwrap(); v }
pub fn ct_of(b: &[u8]) -> Result<Ciphertext<Bn254>, String> { let mut r = b; let c = Ciphertext::<Bn254>::deserialize_compressed(&mut r).map_err(|e| format!("the ciphertext does not parse: {:?}", e))?; if r.is_empty() { Ok(c) } else { Err("bytes after the ciphertext".into()) } }
pub fn encap_of(c: &C, seed: u64, keep: usize) -> Result<(Ciphertext<Bn254>, Key), String> { let mut s = Syn::of(c); for i in keep..s.vals.len() { s.vals[i] = None; } encap::<Bn254, _, _>(s, &mut Own(Rng::new(seed), 0)).map_err(|e| format!("encapsulation failed: {:?}", e)) }
/// the CLI's circuit with the given values
pub fn cli_circuit(c: &C, vals: &[(u64, Fr)]) -> zkenc_cli::circuit::CircomCircuit { let p = scratch().join("c.r1cs"); std::fs::write(&p, c.r1cs()).unwrap(); let mut x = zkenc_cli::circuit::CircomCircuit::from_r1cs(&p).unwrap(); x.set_witness(vals.iter().map(|(a, b)| (*a as u32, *b)).collect()); x }
fn pubs(c: &C) -> Vec<(u64, Fr)> { (0..=c.npub()).map(|i| (i, c.vals[i as usize])).collect() }
fn all(c: &C) -> Vec<(u64, Fr)> { (0..c.nw).map(|i| (i, c.vals[i as usize])).collect() }

// ---------------------------------------------------------------- C21
// {c, seed, poke: [[wire, val]..], miss: wire|null, pubs: [hex..] | null, via}
fn gen21(r: &mut Rng, i: u64) -> Value {
    let c = gen(r, (i % 3 != 0) as u64, 32);
    let cc = C::of(&c);
    let nw = cc.nw;
    let mut poke = vec![];
    if r.chance(1, 2) { for _ in 0..r.range(1, 2) { let w = r.below(nw).max(1); if w < nw { poke.push(json!([w, fhx(&if r.chance(1, 3) { cc.vals[w as usize] + Fr::one() } else { rand_fr(r) })])); } } }
    let n = cc.npub() as usize;
    let base: Vec<Fr> = cc.vals[1..=n].to_vec();
    let p: Value = match r.below(6) {
        0 | 1 => Value::Null,
        2 => base[..r.below(n as u64 + 1) as usize].iter().map(fhx).collect(),
        3 if n > 0 => { let mut b = base.clone(); let k = r.below(n as u64) as usize; b[k] = if r.chance(1, 2) { b[k] + Fr::one() } else { rand_fr(r) }; b.iter().map(fhx).collect() }
        // recorded values that go on into what the witness holds privately
        4 => { let more = r.range(1, 3) as usize; cc.vals[1..(1 + n + more).min(nw as usize)].iter().map(fhx).chain((0..r.below(2)).map(|_| fhx(&rand_fr(r)))).collect() }
        _ if n > 1 => { let mut b = base.clone(); b.swap(0, n - 1); b.iter().map(fhx).collect() }
        _ => base.iter().map(fhx).collect(),
    };
    json!({"c": c, "seed": r.next(), "poke": poke, "miss": if r.chance(1, 6) && nw > 1 { json!(r.range(1, nw - 1)) } else { Value::Null }, "pubs": p, "via": r.below(4)})
}
fn check21(v: &Value) -> Verdict {
    let c = C::of(&v["c"]);
    let (mut ct, _) = encap_of(&c, v["seed"].as_u64().unwrap(), if v["seed"].as_u64().unwrap() % 2 == 0 { c.npub() as usize + 1 } else { c.nw as usize })?;
    if let Some(p) = v["pubs"].as_array() { ct.public_inputs = p.iter().map(frx).collect(); }
    let mut vals = c.vals.clone();
    for p in v["poke"].as_array().unwrap() { vals[p[0].as_u64().unwrap() as usize] = frx(&p[1]); }
    let miss = v["miss"].as_u64();
    let good = miss.is_none() && c.satisfied(&vals) && ct.public_inputs.len() <= c.npub() as usize && ct.public_inputs.iter().enumerate().all(|(i, x)| *x == vals[i + 1]);
    let via = v["via"].as_u64().unwrap();
    let go = || -> Result<[u8; 32], String> { match via {
        0 | 1 => { let mut s = Syn::of(&c); s.vals = vals.iter().enumerate().map(|(i, x)| if Some(i as u64) == miss { None } else { Some(*x) }).collect(); s.rows_first = via == 1; decap::<Bn254, _>(s, &ct).map(|k| k.0).map_err(|e| format!("{:?}", e)) }
        2 => { let vs: Vec<(u64, Fr)> = vals.iter().enumerate().map(|(i, x)| (i as u64, *x)).filter(|x| Some(x.0) != miss).collect(); decap::<Bn254, _>(cli_circuit(&c, &vs), &ct).map(|k| k.0).map_err(|e| format!("{:?}", e)) }
        _ => { let mut w: Vec<Vec<u8>> = vals.iter().map(|x| x.to_bytes().to_vec()).collect(); if let Some(m) = miss { w.truncate(m as usize); } let w = build_wtns(2, &wtns_sections(&modulus_le(), &w)); zkenc_js::wasm_decap(&c.r1cs(), &w, &ct_bytes(&ct)).map(|k| k.try_into().unwrap_or([0; 32])).map_err(|e| format!("{:?}", e)) }
    } };
    let a = crashes(go)?;
    match (&a, good) {
        (Ok(_), false) => return Err(format!("a key came out although {}", if miss.is_some() { format!("wire {} has no value", miss.unwrap()) } else if !c.satisfied(&vals) { "the values do not satisfy the circuit".to_string() } else { "the public inputs recorded in the ciphertext are not those of the witness".to_string() })),
        (Ok(_), true) => { if go().ok() != a.clone().ok() { return Err("the second decapsulation gives another key".into()); } }
        _ => {}
    }
    Ok(!good || a.is_ok())
}

// ---------------------------------------------------------------- C22
// {c, seed, keep, rf, via}
fn gen22(r: &mut Rng, i: u64) -> Value {
    let fs = 32;
    let c = if i % 4 == 3 { let (no, ni) = (r.below(3), r.below(3)); gen_sized(r, no, ni, 0, fs) } else { gen(r, 0, fs) };
    let cc = C::of(&c);
    let keep = if r.chance(1, 2) { cc.npub() + 1 } else if r.chance(1, 3) { r.below(cc.nw) + 1 } else { cc.nw };
    json!({"c": c, "seed": r.next(), "keep": keep, "rf": r.chance(1, 2), "via": r.below(5)})
}
fn lagrange(x: Fr, n: usize) -> Vec<Fr> { // L_j(x) = (x^n - 1) w^j / (n (x - w^j))
    let w = Fr::root_of_unity(n.trailing_zeros()).unwrap();
    let z = x.pow([n as u64]) - Fr::one();
    let mut p = Fr::one(); let mut o = vec![];
    for _ in 0..n { let d = x - p; o.push(if d.is_zero() { Fr::one() } else { z * p * (Fr::from(n as u64) * d).inverse().unwrap() }); p = p * w; }
    o
}
/// the ciphertext encodes the QAP of the constraint system `cs` under secrets among `draws`
fn judge22(ct: &Ciphertext<Bn254>, cs: &ConstraintSystem<Fr>, draws: &[Fr], domains: &[(usize, usize)]) -> Result<(), String> {
    let k = &ct.encap_key;
    let m = cs.n_instance + cs.n_witness;
    if k.r_u_query_g1.len() != m || k.r_v_query_g2.len() != m || k.phi_delta_query_g1.len() != m { return Err(format!("the circuit has {} variables, the ciphertext has {}, {} and {} encodings", m, k.r_u_query_g1.len(), k.r_v_query_g2.len(), k.phi_delta_query_g1.len())); }
    if ct.public_inputs != cs.instance[1..] { return Err(format!("recorded public inputs {:?}, instance values {:?}", ct.public_inputs, &cs.instance[1..])); }
    let (al, be, de) = (k.alpha_g1.0, k.beta_g2.0, k.delta_g2.0);
    let mut rest = draws.to_vec();
    for (what, s) in [("alpha", al), ("beta", be), ("delta", de)] { match rest.iter().position(|d| *d == s) { Some(i) => { rest.remove(i); } None => return Err(format!("{} was not drawn from the caller's generator in this call", what)) } }
    if rest.len() < 2 { return Err(format!("five secrets are needed, {} values were drawn", draws.len())); }
    let need = cs.rows.len() + cs.n_instance;
    let mut sizes: Vec<usize> = domains.iter().map(|d| d.1).filter(|n| *n >= need).collect(); sizes.push(need.next_power_of_two()); sizes.sort(); sizes.dedup();
    if domains.iter().any(|d| d.1 < need) { return Err(format!("an evaluation domain of {} for {} constraints and {} instance variables", domains[0].1, cs.rows.len(), cs.n_instance)); }
    let col: Vec<Vec<(Fr, usize)>> = (0..3).map(|_| vec![]).collect();
    let _ = col;
    let mut why = String::new();
    for n in sizes { for a in 0..rest.len() { for b in 0..rest.len() { if a == b { continue; }
        let (r, x) = (rest[a], rest[b]);
        let l = lagrange(x, n);
        let mut e = vec![[Fr::zero(); 3]; m];
        for (j, row) in cs.rows.iter().enumerate() { for q in 0..3 { for (c, v) in &row[q].0 { if let Some(i) = v.get_variable_index(cs.n_instance) { e[i][q] += l[j] * *c; } } } }
        let di = de.inverse().unwrap();
        let bad = (0..m).find_map(|i| {
            let [u, v, w] = e[i];
            if k.r_u_query_g1[i].0 != r * u { Some(format!("variable {}: not the encoding of r u_i(x)", i)) }
            else if k.r_v_query_g2[i].0 != r * v { Some(format!("variable {}: not the encoding of r v_i(x)", i)) }
            else if k.phi_delta_query_g1[i].0 != (r * be * u + r * al * v + r * r * w) * di { Some(format!("variable {}: not the encoding of (r beta u_i(x) + r alpha v_i(x) + r r w_i(x)) / delta", i)) } else { None }
        });
        match bad { None => return Ok(()), Some(x) => if why.is_empty() || x > why { why = x } }
    } } }
    Err(why)
}
fn draws() -> Vec<Fr> { tap::draws().iter().map(|b| Fr::from_bytes(b).unwrap()).collect() }
fn check22(v: &Value) -> Verdict {
    let c = C::of(&v["c"]);
    let keep = v["keep"].as_u64().unwrap() as usize;
    let via = v["via"].as_u64().unwrap();
    let mut seen: Vec<Fr> = vec![];
    let mut own = Own(Rng::new(v["seed"].as_u64().unwrap()), 0);
    let mut busy = false;
    for round in 0..2 {
        tap::clear();
        let before = own.clone();
        let (ct, key) = match via {
            0 | 1 | 2 => {
                let mut s = Syn::of(&c); for i in keep..s.vals.len() { s.vals[i] = None; } s.rows_first = v["rf"] == json!(true);
                encap::<Bn254, _, _>(s, &mut own).map_err(|e| format!("encapsulation failed: {:?}", e))?
            }
            3 => { let vs: Vec<(u64, Fr)> = (0..keep as u64).map(|i| (i, c.vals[i as usize])).collect(); encap::<Bn254, _, _>(cli_circuit(&c, &vs), &mut own).map_err(|e| format!("encapsulation failed: {:?}", e))? }
            _ => { let w = build_wtns(2, &wtns_sections(&modulus_le(), &c.vals.iter().map(|x| x.to_bytes().to_vec()).collect::<Vec<_>>())); let r = zkenc_js::wasm_encap(&c.r1cs(), &w).map_err(|e| format!("encapsulation failed: {:?}", e))?; (ct_of(&r.ciphertext())?, Key::new(r.key().try_into().map_err(|_| "the key is not 32 bytes")?)) }
        };
        let d = draws();
        if via == 4 {
            let (s, e) = (tap::seeds(), tap::entropy());
            if s.iter().any(|x| !e.contains(x)) { return Err("the secrets come from a generator whose seed is not 32 bytes from the system's generator".into()); }
            if d.is_empty() { return Err("no secrets were drawn".into()); }
            if let Some(x) = s.first() { use ark_std::rand::SeedableRng; let n = d.len(); tap::clear(); let mut g = ark_std::rand::rngs::StdRng::from_seed(x.clone().try_into().unwrap()); for i in 0..n { if Fr::rand(&mut g) != d[i] { return Err(format!("secret {} was not drawn from the freshly seeded generator", i)); } } }
            // the systems were cleared with the tap; take them from a fresh run of the synthesis instead
        } else {
            let mut mine = before.clone();
            let sys = last_system();
            let dom = tap::domains();
            tap::clear();
            for (i, x) in d.iter().enumerate() { if Fr::rand(&mut mine) != *x { return Err(format!("secret {} was not drawn from the caller's generator", i)); } }
            if mine.1 > own.1 { return Err("secrets were drawn that the caller's generator did not give".into()); }
            let cs = sys.ok_or("no constraint system was made")?;
            judge22(&ct, &cs, &d, &dom)?;
            busy |= !cs.rows.is_empty();
        }
        if round == 1 && d.iter().any(|x| seen.contains(x)) { return Err("a secret of the first encapsulation is used again in the second".into()); }
        seen = d;
        let _ = key;
    }
    if via == 4 { // once more, with the systems kept
        tap::clear();
        let w = build_wtns(2, &wtns_sections(&modulus_le(), &c.vals.iter().map(|x| x.to_bytes().to_vec()).collect::<Vec<_>>()));
        let r = zkenc_js::wasm_encap(&c.r1cs(), &w).map_err(|e| format!("encapsulation failed: {:?}", e))?;
        let cs = last_system().ok_or("no constraint system was made")?;
        judge22(&ct_of(&r.ciphertext())?, &cs, &draws(), &tap::domains())?;
        busy |= !cs.rows.is_empty();
    }
    Ok(busy)
}

// ---------------------------------------------------------------- C23
// {c, seed, via}
fn gen23(r: &mut Rng, _i: u64) -> Value { let c = gen(r, 1, 32); json!({"c": c, "seed": r.next(), "via": r.below(3)}) }
pub fn check23(v: &Value) -> Verdict {
    let c = C::of(&v["c"]);
    let seed = v["seed"].as_u64().unwrap();
    let (k1, k2) = match v["via"].as_u64().unwrap() {
        0 => { let mut s = Syn::of(&c); for i in c.npub() as usize + 1..s.vals.len() { s.vals[i] = None; } s.rows_first = v["rf"] == json!(true);
            let (ct, k) = encap::<Bn254, _, _>(s, &mut Own(Rng::new(seed), 0)).map_err(|e| format!("encapsulation failed: {:?}", e))?;
            (k.0.to_vec(), decap::<Bn254, _>(Syn::of(&c), &ct).map_err(|e| format!("decapsulation failed: {:?}", e))?.0.to_vec()) }
        1 => { let (ct, k) = encap::<Bn254, _, _>(cli_circuit(&c, &pubs(&c)), &mut Own(Rng::new(seed), 0)).map_err(|e| format!("encapsulation failed: {:?}", e))?;
            let ct = ct_of(&ct_bytes(&ct))?;
            (k.0.to_vec(), decap::<Bn254, _>(cli_circuit(&c, &all(&c)), &ct).map_err(|e| format!("decapsulation failed: {:?}", e))?.0.to_vec()) }
        _ => { let e = zkenc_js::wasm_encap(&c.r1cs(), &c.wtns()).map_err(|e| format!("encapsulation failed: {:?}", e))?;
            (e.key(), zkenc_js::wasm_decap(&c.r1cs(), &c.wtns(), &e.ciphertext()).map_err(|e| format!("decapsulation failed: {:?}", e))?) }
    };
    if k1 != k2 { return Err(format!("encapsulation gave the key {}, decapsulation with a satisfying witness {}", hex::encode(&k1), hex::encode(&k2))); }
    Ok(!c.rows.is_empty())
}

// ---------------------------------------------------------------- C25
fn gen25(r: &mut Rng, _i: u64) -> Value {
    let n = r.hint(60).unwrap_or(r.below(8));
    let a: Vec<Fr> = (0..n).map(|_| rand_fr(r)).collect();
    let mut b = a.clone();
    match r.below(8) { 0 => { b.pop(); } 1 => b.push(rand_fr(r)), 2 | 3 if n > 0 => { let k = r.below(n) as usize; b[k] = b[k] + Fr::one(); } 4 if n > 1 => { let k = r.below(n - 1) as usize; b.swap(k, k + 1); } 5 if n > 0 => { let k = r.below(n) as usize; b[k] = -b[k]; } 6 if n > 0 => b[n as usize - 1] = rand_fr(r), _ => {} }
    json!({"a": a.iter().map(fhx).collect::<Vec<_>>(), "b": b.iter().map(fhx).collect::<Vec<_>>(), "q": r.below(3)})
}
fn check25(v: &Value) -> Verdict {
    let f = |k: &str| -> Vec<Fr> { v[k].as_array().unwrap().iter().map(frx).collect() };
    let (a, b) = (f("a"), f("b"));
    let q = v["q"].as_u64().unwrap();
    let g1 = |n: u64| vec![G1Affine(Fr::from(n)); n as usize];
    let ct = Ciphertext::<Bn254> { encap_key: EncapKey { alpha_g1: G1Affine(Fr::from(q)), beta_g2: G2Affine(Fr::from(2u64)), delta_g2: G2Affine(Fr::from(3u64)), r_u_query_g1: g1(q), r_v_query_g2: vec![], phi_delta_query_g1: g1(q), h_query_g1: vec![] }, public_inputs: a.clone() };
    let got = verify_ciphertext::<Bn254>(&ct, &b);
    if got != (a == b) { return Err(format!("verification answers {} for recorded {:?} and expected {:?}", got, a, b)); }
    Ok(true)
}

// ---------------------------------------------------------------- C28
// {c, seed, n: wtns values given, extra: [hex..], cut: bytes cut from the ciphertext, bad: bytes cut from the circuit, poke}
fn gen28(r: &mut Rng, _i: u64) -> Value {
    let c = gen(r, 1, 32);
    let nw = C::of(&c).nw;
    let n = if r.chance(1, 3) { r.below(nw + 1) } else { nw };
    let extra: Vec<Value> = if n == nw && r.chance(1, 5) { (0..r.range(1, 3)).map(|_| fhx(&rand_fr(r))).collect() } else { vec![] };
    json!({"c": c, "seed": r.next(), "n": n, "extra": extra, "cut": if r.chance(1, 6) { r.range(1, 60) } else { 0 }, "bad": if r.chance(1, 10) { r.range(1, 9) } else { 0 },
        "poke": if r.chance(1, 6) { json!([r.below(nw), fhx(&rand_fr(r))]) } else { Value::Null }})
}
fn check28(v: &Value) -> Verdict {
    let c = C::of(&v["c"]);
    let (n, np) = (v["n"].as_u64().unwrap() as usize, c.npub() as usize + 1);
    let mut vals = c.vals[..n].to_vec();
    vals.extend(v["extra"].as_array().unwrap().iter().map(frx));
    if let Some(p) = v["poke"].as_array() { let w = p[0].as_u64().unwrap() as usize; if w < vals.len() { vals[w] = frx(&p[1]); } }
    let wtns = build_wtns(2, &wtns_sections(&modulus_le(), &vals.iter().map(|x| x.to_bytes().to_vec()).collect::<Vec<_>>()));
    let mut rb = c.r1cs();
    let bad = v["bad"].as_u64().unwrap() as usize;
    if bad > 0 { rb.truncate(rb.len() - bad); }
    // encapsulation: the core's, for the circuit with the values of wires 0..np alone
    tap::clear();
    let e = crashes(|| zkenc_js::wasm_encap(&rb, &wtns).map_err(|e| format!("{:?}", e)))?;
    if bad > 0 { if e.is_ok() { return Err("a key for a circuit that is cut short".into()); } }
    else {
        let sys = last_system();
        let e = e.map_err(|e| format!("encapsulation fails: {}", e))?;
        let s = sys.ok_or("no constraint system was made")?;
        let upto = vals.len().min(np);
        let want: Vec<Fr> = std::iter::once(Fr::one()).chain(vals.iter().take(upto).skip(1).cloned()).collect();
        if s.instance != want { return Err(format!("instance values {:?}, given {:?}", s.instance, want)); }
        if !s.witness.is_empty() { return Err(format!("private values {:?} were handed to the core", s.witness)); }
        let (sd, en) = (tap::seeds(), tap::entropy());
        if sd.iter().any(|x| !en.contains(x)) { return Err("the secrets come from a generator whose seed is not from the system's generator".into()); }
        let ct = ct_of(&e.ciphertext())?;
        if let [seed] = &sd[..] { if let Ok(seed) = <[u8; 32]>::try_from(seed.clone()) {
            use ark_std::rand::SeedableRng;
            let mut y = Syn::of(&c); for i in 0..y.vals.len() { y.vals[i] = if i < upto { Some(vals[i]) } else { None }; }
            let (ct2, k2) = encap::<Bn254, _, _>(y, &mut ark_std::rand::rngs::StdRng::from_seed(seed)).map_err(|e| format!("{:?}", e))?;
            if ct_bytes(&ct2) != e.ciphertext() { return Err("the ciphertext is not the core's for this circuit, these public values and this generator".into()); }
            if k2.0[..] != e.key()[..] { return Err(format!("the core's key is {}, returned {}", hex::encode(k2.0), hex::encode(e.key()))); }
        } }
        if upto == np && c.satisfied(&c.vals) && vals[1..np] == c.vals[1..np] { let k = decap::<Bn254, _>(Syn::of(&c), &ct).map_err(|e| format!("the core cannot open the ciphertext: {:?}", e))?; if k.0[..] != e.key()[..] { return Err(format!("the ciphertext opens to the key {}, returned {}", hex::encode(k.0), hex::encode(e.key()))); } }
    }
    // decapsulation: the core's, for the circuit with every value
    let (ct, _) = encap_of(&c, v["seed"].as_u64().unwrap(), np)?;
    let mut cb = ct_bytes(&ct);
    let cut = v["cut"].as_u64().unwrap() as usize; let l = cb.len(); cb.truncate(l - cut.min(l));
    let got = crashes(|| zkenc_js::wasm_decap(&rb, &wtns, &cb).map_err(|e| format!("{:?}", e)))?;
    let want: Result<Vec<u8>, String> = if bad > 0 { Err("the circuit is cut short".into()) }
        else if vals.len() as u64 != c.nw { Err(format!("{} values for {} wires", vals.len(), c.nw)) }
        else if cut > 0 { Err("the ciphertext is cut short".into()) }
        else { let mut y = Syn::of(&c); for i in 0..vals.len() { y.vals[i] = Some(vals[i]); } decap::<Bn254, _>(y, &ct).map(|k| k.0.to_vec()).map_err(|e| format!("the core refuses: {:?}", e)) };
    match (got, want) {
        (Ok(a), Ok(b)) => if a != b { return Err(format!("decapsulation returns {}, the core {}", hex::encode(a), hex::encode(b))); },
        (Ok(a), Err(e)) => return Err(format!("decapsulation returns {} although {}", hex::encode(a), e)),
        (Err(e), Ok(_)) => return Err(format!("decapsulation fails where the core gives a key: {}", e)),
        _ => {}
    }
    Ok(!c.rows.is_empty())
}
pub fn suites() -> Vec<Suite> { vec![
    Suite { id: "C21", rule: "random circuits over BN254; values right, one or two wrong, or missing; recorded public inputs as made, cut, changed, swapped, or going on into the private values; through the core, the CLI circuit and the WASM binding: a key only when everything fits, the same key twice", gen: gen21, check: check21, budget: (3000, 60000) },
    Suite { id: "C22", rule: "random circuits, synthesis cut short at a wire without value or complete, core, CLI circuit and WASM binding: encodings recomputed in the exponent from the recorded draws, two calls never share a secret", gen: gen22, check: check22, budget: (1500, 30000) },
    Suite { id: "C23", rule: "random circuits with at least one private wire and a satisfying assignment: encapsulation with the public values, decapsulation with the assignment, core, CLI circuit and WASM binding", gen: gen23, check: check23, budget: (2000, 40000) },
    Suite { id: "C25", rule: "lists of public inputs, equal or changed at one position, swapped, longer or shorter", gen: gen25, check: check25, budget: (6000, 100000) },
    Suite { id: "C28", rule: "random circuits, whole and cut short, with witness files of the right, a smaller or a larger number of values, changed values and cut ciphertexts: wasm_encap and wasm_decap against the core on a circuit written here, the same public values and the same generator", gen: gen28, check: check28, budget: (1500, 30000) },
] }
