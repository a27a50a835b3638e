use crate::{circom, run::*, sym_parser};
use serde_json::{json, Value};
use std::collections::HashMap;

fn name(r: &mut Rng) -> String {
    if let Some(s) = r.hint_str() { if !s.contains([',', '\n', '\r']) && s.trim() == s { return match r.below(3) { 0 => s, 1 => format!("main.{}", s), _ => format!("main.{}x", s) }; } }
    let pool = ["main.a", "main.b", "main.main.a", "main", "main.", "a", "sub.main.x", "main.arr[0]", "main.arr[0][12]", "maine.x", "Main.a", "main.ä", "main.c d", "x.y", "main.main.", " main.q"];
    if r.chance(2, 3) { r.pick(&pool).to_string() } else if r.chance(1, 8) { { let c = *r.pick(&['\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2028}', '\u{feff}', '\u{1c}', '\u{0}', ';', '"', '#', '\u{1F600}', '|']); match r.below(4) { 0 => format!("main.u{}", c), 1 => format!("main.{}v", c), 2 => format!("{}main.a", c), _ => format!("main.u{}v{}", c, r.below(3)) } } } else if r.chance(1, 12) { let n = r.hint(3000).unwrap_or(*r.pick(&[3, 17, 65, 70, 300])) as usize; format!("main.{}x", r.pick(&["a.", "m", "main.", "a[1]."]).repeat(n)) } else { format!("main.s{}", r.below(50)) }
}
fn sp(r: &mut Rng) -> &'static str { *r.pick(&["", "", "", " ", "  ", "\t"]) }
/// a field the map does not depend on: mostly a number, sometimes anything else
fn outer(r: &mut Rng, n: u64) -> String {
    if r.chance(5, 6) { return (r.below(n) as i64 - 3).to_string(); }
    r.pick(&["", "#", "#1", "//2", ";3", "x", "-", "0", "4294967296", "99999999999999999999999", "1.5", "\"1\"", "main", "label_id", "--", "%", "!", "[1]", "\u{feff}1"]).to_string()
}
fn c09_gen(r: &mut Rng, i: u64) -> Value {
    // a list of [kind, text] lines; the expected map is computed in the check from the text alone
    let mut lines = vec![];
    for _ in 0..r.hint(6000).filter(|_| i % 8 == 0).unwrap_or(if i % 2000 == 77 { 70000 } else { r.below(14) }) {
        let w: String = if let Some(x) = r.hint((1 << 31) - 1) { x.to_string() } else { match r.below(14) { 0 => "-1".into(), 1 => "0".into(), 2 => "2147483647".into(), 3 => "-2147483648".into(), 4 => "+7".into(), 5 => "007".into(), 6 => "-0".into(), _ => r.below(40).to_string() } };
        let a = [sp(r), sp(r), sp(r), sp(r), sp(r), sp(r)];
        let l = match r.below(12) {
            0 => String::new(), 1 => "   ".into(),
            2 => format!("{},{},{}", r.below(9), w, name(r)),
            3 => format!("{},{},{},{},{}", r.below(9), w, r.below(9), name(r), "x"),
            4 => format!("{},{},{},{},", r.below(9), w, r.below(9), name(r)),
            5 => r.pick(&["abc", ",,", "1,x", "# comment", "1;2;3;main.a"]).to_string(),
            _ => { let (f0, f2) = (outer(r, 99), outer(r, 300)); format!("{}{},{}{}{},{},{}{}{}", a[0], f0, a[1], w, a[2], f2, a[3], name(r), a[4]) }
        };
        lines.push(l);
    }
    if i % 10 == 3 { // a wire field that is no 32-bit integer
        let bad = *r.pick(&["x", "", "1.5", "2147483648", "-2147483649", "4294967295", "99999999999999999999", "1 2", "0x1", "1e3", "١"]);
        let at = r.below(lines.len() as u64 + 1) as usize;
        lines.insert(at, format!("1,{},2,main.bad", bad));
    }
    let nl = *r.pick(&["\n", "\r\n"]);
    let mut t = lines.join(nl);
    if r.chance(1, 2) { t.push_str(nl); }
    json!({"text": t})
}
fn int32(s: &str) -> Option<i64> {
    let d = s.strip_prefix(['-', '+']).unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: i128 = 0;
    for b in d.bytes() { v = v * 10 + (b - b'0') as i128; if v > 1 << 40 { return None; } }
    let v = if s.starts_with('-') { -v } else { v };
    if v >= -(1 << 31) && v < 1 << 31 { Some(v as i64) } else { None }
}
pub fn sym_oracle(text: &str) -> Option<HashMap<String, u32>> {
    let mut m = HashMap::new();
    for l in text.split('\n') {
        let l = l.trim();
        let f: Vec<&str> = l.split(',').collect();
        if f.len() != 4 { continue; }
        let w = int32(f[1].trim())?;
        if w >= 0 { m.insert(f[3].trim().to_string(), w as u32); }
    }
    Some(m)
}
fn c09(c: &Value) -> Verdict {
    let t = c["text"].as_str().unwrap();
    let got = crashes(|| sym_parser::parse_sym_file(t))?;
    match (got, sym_oracle(t)) {
        (Ok(g), Some(w)) => if g == w { Ok(!w.is_empty()) } else { Err(format!("map is {:?}, the text says {:?}", g, w)) },
        (Err(_), None) => Ok(true),
        (Ok(_), None) => Err("accepted a wire field that is no 32-bit integer".into()),
        (Err(e), Some(_)) => Err(format!("refused: {}", e)),
    }
}
fn c10_gen(r: &mut Rng, _i: u64) -> Value {
    let mut m = serde_json::Map::new();
    for k in 0..match r.below(3000) { 0 => 70000, 1..=20 => r.range(100, 600), _ => r.below(16) } { let w = if k >= 100 { r.below(600) } else if let Some(x) = r.hint(u32::MAX as u64) { x } else { match r.below(6) { 0 => 0, 1 => u32::MAX as u64, 2 => (1 << 31) - 1 + r.below(3), _ => r.below(12) } }; m.insert(if k >= 16 { format!("main.n{}", k) } else { name(r) }, json!(w)); }
    let max = if let Some(x) = r.hint(u32::MAX as u64) { json!(x) } else { match r.below(5) { 0 => Value::Null, 1 => json!(0), 2 => json!(*r.pick(&[u32::MAX as u64, u32::MAX as u64 - 1, 1 << 31])), _ => json!(r.below(12)) } };
    json!({"map": m, "max": max})
}
fn c10(c: &Value) -> Verdict {
    let m: HashMap<String, u32> = c["map"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap() as u32)).collect();
    let keep = m.clone();
    let max = c["max"].as_u64().map(|x| x as u32);
    let g = crashes(|| sym_parser::get_input_signals(&m, max))?;
    if m != keep { return Err("the source map changed".into()); }
    let mut w = HashMap::new();
    for (k, v) in &keep { if k.len() >= 5 && &k.as_bytes()[..5] == b"main." && max.map(|x| *v <= x).unwrap_or(true) { w.insert(k[5..].to_string(), *v); } }
    if g != w { return Err(format!("selected {:?}, should be {:?}", g, w)); }
    Ok(!w.is_empty())
}

fn num_text(r: &mut Rng) -> String {
    if let Some(x) = r.hint(u64::MAX) { return x.to_string(); }
    match r.below(11) { 9 => { let x = 1u64 << r.below(64); (x - r.below(2) + r.below(3).min(u64::MAX - x)).to_string() } 10 => { let x = *r.pick(&[9007199254740991i64, 9007199254740993, 9999999999999999, 10000000000000001, 4294967297, 999999999999999999]); (if r.chance(1, 2) { x } else { -x }).to_string() } 8 => r.pick(&["2.0", "-0.0", "0.1", "-7.25", "1e+16", "1e-7"]).to_string(), 0 => "0".into(), 1 => "-1".into(), 2 => u64::MAX.to_string(), 3 => i64::MIN.to_string(), 4 => "1.5".into(), 5 => format!("-{}", r.below(1 << 40)), 6 => r.next().to_string(), _ => r.below(1000).to_string() }
}
fn jtext(r: &mut Rng) -> String {
    if let Some(x) = r.hint_str() { return serde_json::to_string(&x).unwrap(); }
    let pool = ["", "0", "21888242871839275222246405745257275088548364400416034343698204186575808495617", "-5", "abc", "1,2", " 7 ", "é\u{1F600}", "line\nbreak", "\"q\"", "\u{0}", "true", "null"];
    serde_json::to_string(*r.pick(&pool)).unwrap()
}
/// JSON text, so that digits and order are under our control
fn jval(r: &mut Rng, d: u32) -> String {
    match r.below(if d == 0 { 6 } else { 9 }) {
        0 => jtext(r), 1 | 2 => num_text(r), 3 => "true".into(), 4 => "false".into(), 5 => "null".into(),
        6 | 7 => { let n = r.below(5); let v: Vec<String> = (0..n).map(|_| jval(r, d - 1)).collect(); format!("[{}]", v.join(*r.pick(&[",", " , ", ",\n"]))) }
        _ => { let n = r.below(3); let v: Vec<String> = (0..n).map(|k| format!("\"k{}\":{}", k, jval(r, d - 1))).collect(); format!("{{{}}}", v.join(",")) }
    }
}
fn c11_gen(r: &mut Rng, i: u64) -> Value {
    if i % 8 == 5 {
        let t = match r.below(9) { 0 => "".into(), 1 => "[1,2]".into(), 2 => "7".into(), 3 => "\"a\"".into(), 4 => "null".into(), 5 => "{\"a\":1".into(), 6 => "{\"a\":1} x".into(), 7 => "{a:1}".into(), _ => "[{\"a\":1}]".to_string() };
        return json!({"text": t, "err": true});
    }
    if i % 8 == 6 && r.chance(1, 3) { return json!({"missing": true, "err": true, "text": ""}); }
    if i % 40 == 7 { let d = r.range(20, 110) as usize; return json!({"text": format!("{{\"a\":{}1,2{}}}", "[".repeat(d), "]".repeat(d)), "err": false}); }
    if i % 40 == 9 || r.chance(1, 60) { // arrays that are long, or rows that repeat
        let leaf = |r: &mut Rng| match r.below(6) { 0 => jtext(r), 1 => num_text(r), 2 => r.pick(&["true", "false", "null"]).to_string(), _ => r.below(2).to_string() };
        let long = i % 1200 == 9;
        let (a, b) = if long { (if i % 2400 == 9 { 5000 } else { 70000 }, 1) } else if let Some(h) = r.hint(20000) { if r.chance(1, 2) { (h, 1) } else { let b = r.range(2, 5); (h / b + 1, b) } } else { (r.range(1, 80), r.range(1, 9)) };
        let pool: Vec<String> = (0..r.range(1, 4)).map(|_| { let v: Vec<String> = (0..b).map(|_| leaf(r)).collect(); if b == 1 && r.chance(3, 4) { v[0].clone() } else { format!("[{}]", v.join(",")) } }).collect();
        let rows: Vec<String> = (0..a).map(|_| if r.chance(1, 6) && !long { leaf(r) } else { r.pick(&pool).clone() }).collect();
        return json!({"text": format!("{{\"m\":[{}],\"n\":[]}}", rows.join(",")), "err": false});
    }
    let n = r.below(7);
    let keys = ["a", "b", "in", "", "ä", "in[0]", "x.y", "main.a"];
    let v: Vec<String> = (0..n).map(|k| format!("{}: {}", serde_json::to_string(&if k == 6 { r.hint_str().unwrap_or("zz".into()) } else { keys[k as usize].to_string() }).unwrap(), jval(r, 4))).collect();
    json!({"text": format!("{{{}}}", v.join(",")), "err": false})
}
/// oracle: a small JSON reader of its own that keeps the digits
pub enum J { S(String), N(String), B(bool), Null, A(Vec<J>), O(Vec<(String, J)>) }
pub fn jparse(b: &[u8], p: &mut usize) -> J {
    let ws = |p: &mut usize| while *p < b.len() && b" \n\r\t".contains(&b[*p]) { *p += 1 };
    ws(p);
    let r = match b[*p] {
        b'"' => { let s = *p; *p += 1; while b[*p] != b'"' { if b[*p] == b'\\' { *p += 1; } *p += 1; } *p += 1; J::S(serde_json::from_slice(&b[s..*p]).unwrap()) }
        b't' => { *p += 4; J::B(true) } b'f' => { *p += 5; J::B(false) } b'n' => { *p += 4; J::Null }
        b'[' => { *p += 1; let mut v = vec![]; ws(p); while b[*p] != b']' { v.push(jparse(b, p)); ws(p); if b[*p] == b',' { *p += 1; } ws(p); } *p += 1; J::A(v) }
        b'{' => { *p += 1; let mut v = vec![]; ws(p); while b[*p] != b'}' { let k = match jparse(b, p) { J::S(s) => s, _ => unreachable!() }; ws(p); *p += 1; let x = jparse(b, p); v.push((k, x)); ws(p); if b[*p] == b',' { *p += 1; } ws(p); } *p += 1; J::O(v) }
        _ => { let s = *p; while *p < b.len() && !b",]} \n\r\t".contains(&b[*p]) { *p += 1; } J::N(String::from_utf8_lossy(&b[s..*p]).into()) }
    };
    ws(p);
    r
}
fn leaves(j: &J, o: &mut Vec<String>) { match j { J::S(s) => o.push(s.clone()), J::N(n) => o.push(n.clone()), J::B(b) => o.push(if *b { "1" } else { "0" }.into()), J::Null => o.push("0".into()), J::A(v) => for x in v { leaves(x, o) }, J::O(_) => {} } }
fn c11(c: &Value) -> Verdict {
    let p = scratch().join("in.json");
    let t = c["text"].as_str().unwrap();
    if c["missing"] == json!(true) { let _ = std::fs::remove_file(&p); } else { std::fs::write(&p, t).unwrap(); }
    let g = crashes(|| circom::parse_inputs(&p))?;
    if c["err"] == json!(true) { return if g.is_ok() { Err("accepted a file that is missing, no JSON, or not an object".into()) } else { Ok(true) }; }
    let g = g.map_err(|e| format!("refused: {:#}", e))?;
    let J::O(o) = jparse(t.as_bytes(), &mut 0) else { unreachable!() };
    let mut w = HashMap::new();
    for (k, v) in &o { let mut l = vec![]; leaves(v, &mut l); w.insert(k.clone(), l); }
    if g != w { return Err(format!("flattened to {:?}, should be {:?}", g, w)); }
    Ok(!w.is_empty())
}
pub fn suites() -> Vec<Suite> {
    vec![
        Suite { id: "C09", rule: "random .sym texts: 3 to 5 fields, blanks, signs, boundary wire numbers, repeated names, LF and CRLF, one in ten with a bad wire field; non-trivial: non-empty map or refused", gen: c09_gen, check: c09, budget: (20000, 400000) },
        Suite { id: "C10", rule: "random maps over names with and without the prefix, wire numbers and bounds up to 2^32-1; non-trivial: something selected", gen: c10_gen, check: c10, budget: (20000, 400000) },
        Suite { id: "C11", rule: "random JSON texts with nested arrays and objects, big and fractional numbers, deep nesting up to 110, and files to be refused; non-trivial: has a key", gen: c11_gen, check: c11, budget: (15000, 300000) },
    ]
}
