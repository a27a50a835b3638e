use crate::run::*;
use serde_json::{json, Value};

fn text(r: &mut Rng) -> String { if let Some(s) = r.hint_str() { return s; } let p = ["", "a", "sig", "é中文\u{1F600}", "line\nbreak\ttab", " a ", "\u{feff}b", "e\u{301}", "nul\u{0}in", "\\u0000", "\r\n", "\"quoted\\\"", "\u{0}\u{1}\u{1f}\u{7f}", "</script>", "\u{2028}\u{feff}", "x".repeat(300).leak()]; r.pick(&p).to_string() }
fn bytes(r: &mut Rng) -> Value { let n = r.hint(1 << 21).filter(|x| *x < 5000 || r.chance(1, 16)).map(|x| x as usize).unwrap_or(0).max(*r.pick(&[0usize, 1, 31, 32, 32, 33, 48, 64, 255, 256, 300])); hx(&match r.below(4) { 0 => vec![0; n], 1 => vec![255; n], _ => r.bytes(n) }) }
fn num(r: &mut Rng) -> Value { if let Some(x) = r.hint(u32::MAX as u64) { return json!(x); } json!(match r.below(5) { 0 => 0, 1 => u32::MAX, 2 => 1u32 << 31, _ => r.below(1000) as u32 }) }
fn gen(r: &mut Rng, _i: u64) -> Value {
    let lc = |r: &mut Rng| -> Value { (0..if r.chance(1, 600) { 300 } else { r.below(4) }).map(|_| json!([num(r), bytes(r)])).collect() };
    let many = |r: &mut Rng, n: u64| match r.below(2000) { 0 => 66000, 1..=20 => r.range(100, 600), _ => r.below(n) };
    let cons: Vec<Value> = (0..many(r, 5).min(300)).map(|_| json!([lc(r), lc(r), lc(r)])).collect();
    let labels = match r.below(3) { 0 => Value::Null, 1 => json!([]), _ => (0..many(r, 6)).map(|k| json!([if k == 0 { json!(u32::MAX) } else { json!(k) }, text(r)])).collect() };
    let wit: Vec<Value> = (0..many(r, 6).min(3000)).map(|k| json!([if k == 1 { json!(u32::MAX) } else { json!(k * 7) }, bytes(r)])).collect();
    json!({"n": [num(r), num(r), num(r), num(r), num(r), num(r)], "prime": bytes(r), "cons": cons, "labels": labels, "wit": wit, "name": text(r),
        "desc": if r.chance(1, 3) { Value::Null } else { json!(text(r)) }, "cut": r.next(), "old": r.below(20000)})
}
macro_rules! suite { ($m:ident, $t:ident, $which:expr) => { mod $t {
    use super::*;
    use crate::$m::*;
    fn lc(v: &Value) -> SerializableLC { SerializableLC { factors: v.as_array().unwrap().iter().map(|x| SerializableFactor { wire_id: x[0].as_u64().unwrap() as u32, coefficient_bytes: unhx(&x[1]) }).collect() } }
    fn mk(c: &Value) -> SerializableTestCase {
        let n = |k: usize| c["n"][k].as_u64().unwrap() as u32;
        let circuit = SerializableCircuit { field_size: n(0), prime_bytes: unhx(&c["prime"]), n_wires: n(1), n_pub_out: n(2), n_pub_in: n(3), n_prv_in: n(4), n_constraints: n(5),
            constraints: c["cons"].as_array().unwrap().iter().map(|k| SerializableConstraint { a: lc(&k[0]), b: lc(&k[1]), c: lc(&k[2]) }).collect(),
            wire_labels: c["labels"].as_array().map(|l| l.iter().map(|x| (x[0].as_u64().unwrap() as u32, x[1].as_str().unwrap().to_string())).collect()) };
        let witness = SerializableWitness { assignments: c["wit"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as u32, unhx(&x[1]))).collect() };
        SerializableTestCase { circuit, witness, name: c["name"].as_str().unwrap().into(), description: c["desc"].as_str().map(|s| s.to_string()) }
    }
    fn vlc(l: &SerializableLC) -> Value { l.factors.iter().map(|f| json!([f.wire_id, hx(&f.coefficient_bytes)])).collect() }
    fn vc(c: &SerializableCircuit) -> Value {
        let mut l: Option<Vec<(u32, String)>> = c.wire_labels.clone().map(|m| m.into_iter().collect());
        if let Some(l) = &mut l { l.sort(); }
        json!([c.field_size, hx(&c.prime_bytes), c.n_wires, c.n_pub_out, c.n_pub_in, c.n_prv_in, c.n_constraints, c.constraints.iter().map(|k| json!([vlc(&k.a), vlc(&k.b), vlc(&k.c)])).collect::<Vec<_>>(), l])
    }
    fn vw(w: &SerializableWitness) -> Value { let mut v: Vec<(u32, Vec<u8>)> = w.assignments.clone().into_iter().collect(); v.sort(); json!(v.iter().map(|x| json!([x.0, hx(&x.1)])).collect::<Vec<_>>()) }
    fn vt(t: &SerializableTestCase) -> Value { json!([vc(&t.circuit), vw(&t.witness), t.name, t.description]) }
    pub fn check(c: &Value) -> Verdict {
        let t = mk(c);
        let cut = c["cut"].as_u64().unwrap();
        let p = scratch().join("ser.bin");
        let ps = p.to_str().unwrap();
        let old = vec![b'7'; c["old"].as_u64().unwrap() as usize];
        macro_rules! json_rt { ($v:expr, $ty:ident, $view:ident) => {{
            let s = $v.to_json().map_err(|e| format!("to_json failed: {}", e))?;
            let b = $ty::from_json(&s).map_err(|e| format!(concat!(stringify!($ty), ": own JSON refused: {}"), e))?;
            if $view(&b) != $view($v) { return Err(concat!(stringify!($ty), " differs after JSON").into()); }
            let mut k = (cut % s.len() as u64) as usize; while !s.is_char_boundary(k) { k -= 1; }
            if $ty::from_json(&s[..k]).is_ok() { return Err("cut JSON accepted".into()); }
            if $ty::from_json(&format!("{}}}", s)).is_ok() { return Err("JSON with trailing text accepted".into()); }
        }} }
        macro_rules! json_file { ($v:expr, $ty:ident, $view:ident) => {{
            std::fs::write(&p, &old).unwrap();
            $v.save_json(ps).map_err(|e| format!("save_json failed: {}", e))?;
            if std::fs::read_to_string(&p).unwrap().trim_end().ends_with("7") { return Err("save_json left old content".into()); }
            let b = $ty::load_json(ps).map_err(|e| format!("saved JSON refused: {}", e))?;
            if $view(&b) != $view($v) { return Err(concat!(stringify!($ty), " differs after a JSON file").into()); }
            if $ty::load_json("/nonexistent/x").is_ok() { return Err("loading a missing file succeeded".into()); }
        }} }
        macro_rules! bin_rt { ($v:expr, $ty:ident, $view:ident) => {{
            let s = $v.to_bincode().map_err(|e| format!("to_bincode failed: {}", e))?;
            let b = $ty::from_bincode(&s).map_err(|e| format!(concat!(stringify!($ty), ": own bincode refused: {}"), e))?;
            if $view(&b) != $view($v) { return Err(concat!(stringify!($ty), " differs after bincode").into()); }
            let k = (cut % s.len() as u64) as usize;
            if $ty::from_bincode(&s[..k]).is_ok() { return Err(format!("bincode cut to {} of {} bytes accepted", k, s.len())); }
        }} }
        macro_rules! bin_file { ($v:expr, $ty:ident, $view:ident) => {{
            std::fs::write(&p, &old).unwrap();
            $v.save_bincode(ps).map_err(|e| format!("save_bincode failed: {}", e))?;
            if std::fs::read(&p).unwrap() != $v.to_bincode().unwrap() && c["wit"].as_array().unwrap().len() < 2 && c["labels"].is_null() { return Err("save_bincode wrote other bytes".into()); }
            let n = std::fs::metadata(&p).unwrap().len() as usize;
            if n != $v.to_bincode().unwrap().len() { return Err("save_bincode left old content".into()); }
            let b = $ty::load_bincode(ps).map_err(|e| format!("saved bincode refused: {}", e))?;
            if $view(&b) != $view($v) { return Err(concat!(stringify!($ty), " differs after a bincode file").into()); }
            if $ty::load_bincode("/nonexistent/x").is_ok() { return Err("loading a missing file succeeded".into()); }
        }} }
        forms!(cut, t, json_rt, json_file, bin_rt, bin_file, vc, vw, vt);
        Ok(!t.circuit.constraints.is_empty() || !t.witness.assignments.is_empty())
    }
} } }
macro_rules! forms { ($cut:ident, $t:ident, $a:ident, $b:ident, $c:ident, $d:ident, $vc:ident, $vw:ident, $vt:ident) => {
    $a!(&$t.circuit, SerializableCircuit, $vc); $b!(&$t.circuit, SerializableCircuit, $vc); $c!(&$t.circuit, SerializableCircuit, $vc); $d!(&$t.circuit, SerializableCircuit, $vc);
    $a!(&$t.witness, SerializableWitness, $vw); $b!(&$t.witness, SerializableWitness, $vw);
    $b!(&$t, SerializableTestCase, $vt);
    raw!(&$t.witness, SerializableWitness, $vw, $cut); raw!(&$t, SerializableTestCase, $vt, $cut);
} }
// forms without a method of their own: the derived serde implementations
macro_rules! raw { ($v:expr, $ty:ident, $view:ident, $cut:ident) => {{
    let s = serde_json::to_string($v).map_err(|e| e.to_string())?;
    let b: $ty = serde_json::from_str(&s).map_err(|e| format!(concat!(stringify!($ty), ": own JSON refused: {}"), e))?;
    if $view(&b) != $view($v) { return Err(concat!(stringify!($ty), " differs after JSON").into()); }
    let s = bincode::serialize($v).map_err(|e| e.to_string())?;
    let b: $ty = bincode::deserialize(&s).map_err(|e| format!(concat!(stringify!($ty), ": own bincode refused: {}"), e))?;
    if $view(&b) != $view($v) { return Err(concat!(stringify!($ty), " differs after bincode").into()); }
    if bincode::deserialize::<$ty>(&s[..($cut % s.len() as u64) as usize]).is_ok() { return Err("cut bincode accepted".into()); }
}} }
suite!(serializable, cli, 0);
suite!(core_serializable, core, 1);

pub fn suites() -> Vec<Suite> {
    let rule = "random circuits, witnesses and test cases: empty lists, absent/empty/present labels, any characters, coefficients of 0..300 bytes, 32-bit extremes; each through JSON, bincode and files over an old file; non-trivial: has a constraint or an assignment";
    vec![Suite { id: "C08", rule, gen, check: cli::check, budget: (2500, 40000) }, Suite { id: "C08", rule, gen, check: core::check, budget: (2500, 40000) }]
}
