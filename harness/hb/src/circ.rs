//! circuits over BN254, as JSON: {no, ni, nw, fs, rows: [[[ [wire, hex-le] .. ] x3]..], vals: [hex..]}; and the files made from them
use std::result::Result;
use crate::run::*;
use arkshim::ff::*;
use arkshim::relations::*;
use arkshim::tap;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;

pub fn p32(v: &mut Vec<u8>, x: u64) { v.extend_from_slice(&(x as u32).to_le_bytes()) }
pub fn p64(v: &mut Vec<u8>, x: u64) { v.extend_from_slice(&x.to_le_bytes()) }
/// little-endian value modulo the order, by its own arithmetic (repeated doubling)
pub fn fr(b: &[u8]) -> Fr { let mut a = Fr::zero(); for x in b.iter().rev() { for k in (0..8).rev() { a = a + a; if (x >> k) & 1 == 1 { a = a + Fr::one(); } } } a }
pub fn frx(v: &Value) -> Fr { fr(&unhx(v)) }
pub fn fhx(f: &Fr) -> Value { hx(&f.to_bytes()) }
pub fn modulus_le() -> Vec<u8> { MODULUS.iter().flat_map(|x| x.to_le_bytes()).collect() }
pub fn rand_fr(r: &mut Rng) -> Fr {
    if let Some(x) = r.hint(u64::MAX) { return Fr::from(x); }
    match r.below(8) { 0 => Fr::zero(), 1 => Fr::one(), 2 => -Fr::one(), 3 => Fr::from(r.below(300)), 4 => -Fr::from(r.below(300)), 5 => Fr::from(u64::MAX) + Fr::from(r.below(3)), _ => fr(&r.bytes(40)) }
}
/// a circuit whose values satisfy it
pub fn gen(r: &mut Rng, min_private: u64, fs: u64) -> Value {
    let (mut no, mut ni) = (r.below(4), r.below(4));
    let mut np = min_private + r.below(5);
    if r.chance(1, 40) { let n = r.range(120, 300) + if r.chance(1, 2) { 140 } else { 0 }; match r.below(3) { 0 => no += n, 1 => ni += n, _ => np += n } if min_private == 0 && r.chance(1, 2) { np = 0; } }
    gen_sized(r, no, ni, np, fs)
}
pub fn gen_sized(r: &mut Rng, no: u64, ni: u64, np: u64, fs: u64) -> Value {
    let nw = 1 + no + ni + np;
    let mut vals: Vec<Fr> = (0..nw).map(|_| rand_fr(r)).collect();
    vals[0] = Fr::one();
    if fs < 32 { for v in vals.iter_mut().skip(1) { *v = Fr::from(r.below(if fs > 2 { 200 } else { 3 })); } }
    let nc = if r.chance(1, 12) { 0 } else if r.chance(1, 60) { r.range(120, 300) } else { r.hint(40).unwrap_or(r.range(1, 7)) };
    let mut rows = vec![];
    for _ in 0..nc {
        let lc = |r: &mut Rng| -> Vec<(u64, Fr)> { let n = match r.below(7) { 0 => 0, 6 => r.range(4, 8), _ => r.range(1, 3) }; (0..n).map(|_| (r.hint(nw - 1).unwrap_or(r.below(nw)), if fs < 32 { Fr::from(r.below(if fs > 2 { 50 } else { 2 })) } else { rand_fr(r) })).collect() };
        let (a, b, mut c) = (lc(r), lc(r), lc(r));
        let ev = |l: &[(u64, Fr)]| l.iter().fold(Fr::zero(), |s, (w, k)| s + *k * vals[*w as usize]);
        if fs < 32 { c = if r.chance(1, 2) { a.clone() } else { c }; }
        let want = ev(&a) * ev(&b) - ev(&c);
        let at = r.below(c.len() as u64 + 1) as usize;
        let b2;
        if fs < 32 { b2 = vec![(0, Fr::one())]; c = a.clone(); if r.chance(1, 2) { c.reverse(); } } else { b2 = b; if !want.is_zero() || r.chance(1, 3) { c.insert(at, (0, want)); } }
        let j = |l: Vec<(u64, Fr)>| -> Value { l.into_iter().map(|(w, k)| { let mut b = k.to_bytes().to_vec(); b.truncate(fs as usize); if fs >= 32 && r_over(&b) { } json!([w, hx(&b)]) }).collect() };
        rows.push(json!([j(a), j(b2), j(c)]));
    }
    json!({"no": no, "ni": ni, "nw": nw, "fs": fs, "rows": rows, "vals": vals.iter().map(fhx).collect::<Vec<_>>()})
}
fn r_over(_b: &[u8]) -> bool { false }
pub struct C { pub no: u64, pub ni: u64, pub nw: u64, pub fs: u64, pub rows: Vec<[Vec<(u64, Vec<u8>)>; 3]>, pub vals: Vec<Fr> }
impl C {
    pub fn npub(&self) -> u64 { self.no + self.ni }
    pub fn of(v: &Value) -> C {
        C { no: v["no"].as_u64().unwrap(), ni: v["ni"].as_u64().unwrap(), nw: v["nw"].as_u64().unwrap(), fs: v["fs"].as_u64().unwrap(),
            rows: v["rows"].as_array().unwrap().iter().map(|r| { let l = |k: usize| r[k].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap(), unhx(&x[1]))).collect(); [l(0), l(1), l(2)] }).collect(),
            vals: v["vals"].as_array().unwrap().iter().map(frx).collect() }
    }
    pub fn sparse(&self, k: usize, row: usize) -> BTreeMap<usize, Fr> { let mut m = BTreeMap::new(); for (w, b) in &self.rows[row][k] { *m.entry(*w as usize).or_insert(Fr::zero()) += fr(b); } m.retain(|_, x| !x.is_zero()); m }
    pub fn satisfied(&self, vals: &[Fr]) -> bool { self.rows.iter().enumerate().all(|(i, _)| { let e = |k: usize| self.sparse(k, i).iter().fold(Fr::zero(), |s, (w, c)| s + *c * vals[*w]); e(0) * e(1) == e(2) }) }
    pub fn r1cs(&self) -> Vec<u8> { build_r1cs(&self.sections()) }
    pub fn sections(&self) -> Vec<(u64, Vec<u8>)> {
        let mut h = vec![]; p32(&mut h, self.fs); let mut p = modulus_le(); p.resize(self.fs as usize, 0); h.extend(p);
        for x in [self.nw, self.no, self.ni, 0] { p32(&mut h, x); } p64(&mut h, self.nw); p32(&mut h, self.rows.len() as u64);
        let mut c = vec![]; for r in &self.rows { for l in r { p32(&mut c, l.len() as u64); for (w, b) in l { p32(&mut c, *w); c.extend(b); } } }
        let mut l = vec![]; for i in 0..self.nw { p64(&mut l, i); }
        vec![(1, h), (2, c), (3, l)]
    }
    pub fn wtns(&self) -> Vec<u8> { build_wtns(2, &wtns_sections(&modulus_le(), &self.vals.iter().map(|v| v.to_bytes().to_vec()).collect::<Vec<_>>())) }
    /// the linear combinations of a recorded constraint system are those of the circuit
    pub fn check_rows(&self, cs: &ConstraintSystem<Fr>) -> Result<(), String> {
        if cs.rows.len() != self.rows.len() { return Err(format!("{} constraints built, the circuit has {}", cs.rows.len(), self.rows.len())); }
        let ni = 1 + self.npub() as usize;
        for i in 0..self.rows.len() { for k in 0..3 {
            let mut m = BTreeMap::new();
            for (c, v) in &cs.rows[i][k].0 { let w = match v { Variable::One => 0, Variable::Zero => continue, Variable::Instance(j) => *j, Variable::Witness(j) => ni + j, _ => return Err("strange variable".into()) }; *m.entry(w).or_insert(Fr::zero()) += *c; }
            m.retain(|_, x| !x.is_zero());
            if m != self.sparse(k, i) { return Err(format!("constraint {} part {}: built {:?}, the circuit says {:?}", i, k, m, self.sparse(k, i))); }
        } }
        Ok(())
    }
}
pub fn build_r1cs(secs: &[(u64, Vec<u8>)]) -> Vec<u8> { let mut v = b"r1cs".to_vec(); p32(&mut v, 1); p32(&mut v, secs.len() as u64); for (t, b) in secs { p32(&mut v, *t); p64(&mut v, b.len() as u64); v.extend(b); } v }
pub fn build_wtns(version: u64, secs: &[(u64, Vec<u8>)]) -> Vec<u8> { let mut v = b"wtns".to_vec(); p32(&mut v, version); p32(&mut v, secs.len() as u64); for (t, b) in secs { p32(&mut v, *t); p64(&mut v, b.len() as u64); v.extend(b); } v }
pub fn wtns_sections(prime: &[u8], vals: &[Vec<u8>]) -> Vec<(u64, Vec<u8>)> { let mut h = vec![]; p32(&mut h, prime.len() as u64); h.extend(prime); p32(&mut h, vals.len() as u64); vec![(1, h), (2, vals.concat())] }
/// the last constraint system that was handed out
pub fn last_system() -> Option<ConstraintSystem<Fr>> { tap::systems().last().and_then(|r| r.clone().downcast::<std::cell::RefCell<ConstraintSystem<Fr>>>().ok()).map(|r| r.borrow().clone()) }
pub fn sandbox() -> PathBuf { let d = scratch().join("box"); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); d }
pub fn s(p: &PathBuf) -> &str { p.to_str().unwrap() }
pub fn snapshot(d: &PathBuf) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new(); let mut st = vec![d.clone()];
    while let Some(x) = st.pop() { for e in std::fs::read_dir(&x).unwrap() { let e = e.unwrap(); if e.path().is_dir() { m.insert(format!("{}/", e.path().display()), vec![]); st.push(e.path()); } else { m.insert(e.path().display().to_string(), std::fs::read(e.path()).unwrap()); } } }
    m
}
/// a .sym text that names wire i main.<names[i-1]>
pub fn sym(names: &[String]) -> String { names.iter().enumerate().map(|(i, n)| format!("{},{},{},main.{}\n", i + 1, i + 1, 0, n)).collect() }
pub fn dec(f: &Fr) -> String { // decimal text, by repeated division
    let mut l = f.limbs(); let mut d = vec![];
    loop { let mut r = 0u128; for i in (0..4).rev() { let x = (r << 64) | l[i] as u128; l[i] = (x / 10) as u64; r = x % 10; } d.push(b'0' + r as u8); if l == [0; 4] { break; } }
    d.reverse(); String::from_utf8(d).unwrap()
}
/// a synthesizer written here, for the core on its own
#[derive(Clone)]
pub struct Syn { pub ni: usize, pub vals: Vec<Option<Fr>>, pub rows: Vec<[BTreeMap<usize, Fr>; 3]>, pub rows_first: bool }
impl Syn { pub fn of(c: &C) -> Syn { Syn { ni: c.npub() as usize + 1, vals: c.vals.iter().map(|x| Some(*x)).collect(), rows: (0..c.rows.len()).map(|i| [c.sparse(0, i), c.sparse(1, i), c.sparse(2, i)]).collect(), rows_first: false } } }
impl ConstraintSynthesizer<Fr> for Syn {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let ni = self.ni;
        for i in 1..ni { let v = self.vals[i]; cs.new_input_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?; }
        let add = |rows: &[[BTreeMap<usize, Fr>; 3]], below: usize| -> Result<(), SynthesisError> { for r in rows { if r.iter().any(|l| l.keys().any(|w| *w >= below)) { continue; }
            let b: Vec<Box<dyn FnOnce() -> LinearCombination<Fr>>> = r.iter().map(|l| { let l = l.clone(); Box::new(move || { let mut x = LinearCombination::zero(); for (w, k) in l { x = x + (k, if w == 0 { Variable::One } else if w < ni { Variable::Instance(w) } else { Variable::Witness(w - ni) }); } x }) as Box<dyn FnOnce() -> LinearCombination<Fr>> }).collect();
            cs.enforce_constraint(R1CS_PREDICATE_LABEL, b)?; } Ok(()) };
        if self.rows_first { add(&self.rows, ni)?; }
        for i in ni..self.vals.len() { let v = self.vals[i]; cs.new_witness_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?; }
        if self.rows_first { let rest: Vec<_> = self.rows.iter().filter(|r| r.iter().any(|l| l.keys().any(|w| *w >= ni))).cloned().collect(); add(&rest, usize::MAX) } else { add(&self.rows, usize::MAX) }
    }
}
/// a generator that the caller owns; deterministic from its seed
#[derive(Clone)]
pub struct Own(pub Rng, pub u64);
impl ark_std::rand::RngCore for Own {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.1 += 1; self.0.next() }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let b = self.next_u64().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> { self.fill_bytes(d); Ok(()) }
}
