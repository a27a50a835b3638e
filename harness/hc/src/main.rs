//! the program: C29. Runs the CLI binary, built from /repo's main.rs, as a user would.
#![allow(dead_code, unused_imports)]
#[path = "../../common/run.rs"]
mod run;
#[path = "../../hb/src/circ.rs"]
mod circ;
#[path = "../../hb/src/s_cmd.rs"]
mod s_cmd;
#[path = "../../hb/src/s_core.rs"]
mod s_core;
use circ::*;
use run::*;
use s_cmd::*;
use s_core::*;
use serde_json::{json, Value};
use std::path::PathBuf;
use std::process::Command;

// {c, names, text, msg, cmd, order, style, flag, hit, dirs}
fn gen29(r: &mut Rng, i: u64) -> Value {
    let c = gen(r, 1, 32);
    let (nm, t) = inputs(&C::of(&c), r);
    json!({"c": c, "names": nm, "text": t, "msg": hx(&message(r)), "cmd": i % 4, "order": r.next(), "flag": r.chance(1, 2), "hit": if r.chance(1, 4) { json!(r.below(6)) } else { Value::Null }, "seed": r.next(), "same": if r.chance(1, 3) { json!(r.below(3)) } else { Value::Null }, "rel": r.below(4)})
}
fn check29(v: &Value) -> Verdict {
    let d = sandbox();
    let c = C::of(&v["c"]);
    let nm: Vec<String> = v["names"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let text = v["text"].as_str().unwrap();
    let mut msg = unhx(&v["msg"]);
    let (cmd, flag) = (v["cmd"].as_u64().unwrap(), v["flag"] == json!(true));
    let mut r = Rng::new(v["order"].as_u64().unwrap());
    let (ct, key) = encap_of(&c, v["seed"].as_u64().unwrap(), c.npub() as usize + 1)?;
    let w = ct_bytes(&ct);
    let mut comb = vec![flag as u8]; comb.extend((w.len() as u32).to_be_bytes()); comb.extend(&w); if flag { comb.extend((text.len() as u32).to_be_bytes()); comb.extend(text.as_bytes()); } comb.extend(seal(&key.0, &msg));
    // (long, short where it is documented, content of an input | output)
    let o = |l: &'static str, s: Option<char>, b: Option<Vec<u8>>| (l, s, b);
    let (name, mut opts) = match cmd {
        0 => ("encap", vec![o("circuit", Some('c'), Some(c.r1cs())), o("sym", None, Some(sym(&nm).into_bytes())), o("input", Some('i'), Some(text.as_bytes().to_vec())), o("ciphertext", None, None), o("key", Some('k'), None)]),
        1 => ("decap", vec![o("circuit", Some('c'), Some(c.r1cs())), o("witness", Some('w'), Some(c.wtns())), o("ciphertext", None, Some(w.clone())), o("key", Some('k'), None)]),
        2 => ("encrypt", vec![o("circuit", None, Some(c.r1cs())), o("sym", None, Some(sym(&nm).into_bytes())), o("input", None, Some(text.as_bytes().to_vec())), o("message", None, Some(msg.clone())), o("output", None, None)]),
        _ => ("decrypt", vec![o("circuit", None, Some(c.r1cs())), o("witness", None, Some(c.wtns())), o("ciphertext", None, Some(comb.clone())), o("output", None, None)]),
    };
    // an input that is not there
    let gone: Option<&str> = v["hit"].as_u64().and_then(|h| opts.get(h as usize)).filter(|x| x.2.is_some()).map(|x| x.0);
    for x in &opts { if let Some(b) = &x.2 { if gone != Some(x.0) { put(&d, x.0, b); } } }
    // the message is one of the other input files
    let same: Option<&str> = v["same"].as_u64().filter(|_| cmd == 2).map(|k| opts[k as usize].0).filter(|x| gone.is_none() && *x != "message");
    if let Some(n) = same { msg = opts.iter().find(|x| x.0 == n).unwrap().2.clone().unwrap(); }
    r.shuffle(&mut opts);
    let mut args: Vec<String> = vec![];
    let at = r.below(opts.len() as u64 + 1) as usize;
    for (i, (l, s_, _)) in opts.iter().enumerate() {
        if i == at && cmd == 2 && flag { args.push("--no-public-input".into()); }
        let n = if *l == "message" { same.unwrap_or(l) } else { l };
        // absolute, relative, or with a dot
        let p = match v["rel"].as_u64() { Some(1) => n.to_string(), Some(2) => format!("./{}", n), _ => s(&d.join(n)).to_string() };
        match (s_, r.below(3)) { (Some(c), 0) => { args.push(format!("-{}", c)); args.push(p); } (_, 1) => args.push(format!("--{}={}", l, p)), _ => { args.push(format!("--{}", l)); args.push(p); } }
    }
    if at == opts.len() && cmd == 2 && flag { args.push("--no-public-input".into()); }
    let before = snapshot(&d);
    let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("zkenc");
    let out = Command::new(&exe).arg(name).args(&args).current_dir(&d).env_remove("RUST_BACKTRACE").output().map_err(|e| format!("the program does not start: {}", e))?;
    let line = format!("zkenc {} {}", name, args.iter().map(|a| a.replace(s(&d), "D")).collect::<Vec<_>>().join(" "));
    let err = String::from_utf8_lossy(&out.stderr).chars().take(200).collect::<String>();
    let after = snapshot(&d);
    if let Some(g) = gone {
        if out.status.success() { return Err(format!("{}: success is reported although the {} file does not exist", line, g)); }
        if before != after { return Err(format!("{}: it fails and leaves output behind", line)); }
        return Ok(true);
    }
    if !out.status.success() { return Err(format!("{}: it fails on good inputs: {}", line, err)); }
    let outs: Vec<&str> = opts.iter().filter(|x| x.2.is_none()).map(|x| x.0).collect();
    for k in before.keys().chain(after.keys()) { let n = k.rsplit('/').next().unwrap(); if !outs.contains(&n) && before.get(k) != after.get(k) { return Err(format!("{}: it changed {}", line, n)); } }
    let g = |n: &str| after.iter().find(|(k, _)| k.rsplit('/').next() == Some(n)).map(|x| x.1.clone()).ok_or(format!("{}: there is no {} file", line, n));
    match cmd {
        0 => { let (a, b) = (g("ciphertext")?, g("key")?); if ct_of(&a)?.public_inputs != c.vals[1..=c.npub() as usize] { return Err(format!("{}: other public inputs are recorded", line)); } if key_of(&c, &a)?[..] != b[..] { return Err(format!("{}: the key file does not hold the key", line)); } }
        1 => if g("key")?[..] != key.0[..] { return Err(format!("{}: the key file does not hold the key", line)); },
        2 => { let (f, w, q, e) = parts(&g("output")?)?; if (f == 1) == flag { return Err(format!("{}: the flag is {}", line, f)); } if let Some(q) = q { if q != text.as_bytes() { return Err(format!("{}: the public inputs are not those of the input file", line)); } }
            if ct_of(&w)?.public_inputs != c.vals[1..=c.npub() as usize] { return Err(format!("{}: other public inputs are recorded", line)); }
            if open(&key_of(&c, &w)?, &e).as_deref() != Some(&msg[..]) { return Err(format!("{}: the message is not sealed under the key", line)); } }
        _ => if g("output")? != msg { return Err(format!("{}: another message is written", line)); },
    }
    Ok(true)
}
fn main() {
    run::main(&[Suite { id: "C29", rule: "the program run with every option of a subcommand, in any order, by long or documented short name, with all inputs there or one missing: exit status, what is on disk before and after", gen: gen29, check: check29, budget: (600, 12000) }]);
}
