use crate::{crypto, refaes, run::*};
use serde_json::{json, Value};

fn msg_len(r: &mut Rng, max: u64) -> usize {
    if let Some(n) = r.hint(max).filter(|n| *n <= 1 << 20 || r.chance(1, 30)) { return n as usize; }
    match r.below(10) { 0 => 0, 1 => r.below(3) as usize, 2 | 3 => (16 * r.range(1, 12)) as usize, 4 => (16 * r.range(1, 12) + r.below(3) - 1) as usize,
        5 => r.range(250, 260) as usize, 6 => r.range(4080, 4112) as usize, _ => r.below(200) as usize }
}
fn gen(r: &mut Rng, i: u64) -> Value { gen_up_to(r, i, 1 << 25) }
fn gen2(r: &mut Rng, i: u64) -> Value { gen_up_to(r, i, 1 << 17) }
fn gen_up_to(r: &mut Rng, i: u64, max: u64) -> Value {
    let klen = if r.chance(1, 6) { if let Some(k) = r.hint(4096) { k as usize } else { *r.pick(&[0usize, 1, 12, 15, 16, 17, 24, 28, 31, 33, 48, 63, 64, 65, 128, 256]) } } else { 32 };
    let key = if r.chance(1, 12) { vec![0u8; klen] } else { r.bytes(klen) };
    let n = if i % 100 == 17 { r.range(65530, 70000) as usize } else { msg_len(r, max) };
    let msg = match r.below(6) { 0 => vec![0u8; n], 1 => vec![0xff; n], _ => r.bytes(n) };
    json!({"key": hx(&key), "msg": hx(&msg), "salt": r.next()})
}

fn c01(c: &Value) -> Verdict {
    let (key, msg) = (unhx(&c["key"]), unhx(&c["msg"]));
    let e = crypto::encrypt_gcm(&key, &msg);
    if key.len() != 32 {
        if e.is_ok() { return Err(format!("encrypt_gcm accepted a {}-byte key", key.len())); }
        let env = [vec![7u8; 12], vec![1u8; msg.len() + 16]].concat();
        if crypto::decrypt_gcm(&key, &env).is_ok() { return Err(format!("decrypt_gcm accepted a {}-byte key", key.len())); }
        // a key that would be 32 bytes after cutting or padding must not be taken for it
        if key.len() > 32 {
            let k = &key[..32];
            let n = vec![9u8; 12];
            let env = [n.clone(), refaes::gcm_seal(k, &n, &msg)].concat();
            if crypto::decrypt_gcm(&key, &env).is_ok() { return Err("decrypt_gcm used a prefix of an over-long key".into()); }
        }
        return Ok(true);
    }
    let e = e.map_err(|x| format!("encrypt_gcm failed: {}", x))?;
    if e.len() != msg.len() + 28 { return Err(format!("envelope has {} bytes for a message of {}", e.len(), msg.len())); }
    let want = refaes::gcm_seal(&key, &e[..12], &msg);
    if e[12..] != want[..] { return Err("envelope is not nonce || AES-256-GCM(key, nonce, message)".into()); }
    let d = crypto::decrypt_gcm(&key, &e).map_err(|x| format!("own envelope refused: {}", x))?;
    if d != msg { return Err("opening gave another message".into()); }
    // an envelope made elsewhere with any nonce
    let mut r = Rng::new(c["salt"].as_u64().unwrap_or(0));
    let n = match r.below(4) { 0 => vec![0u8; 12], 1 => vec![0xff; 12], _ => r.bytes(12) };
    let env = [n.clone(), refaes::gcm_seal(&key, &n, &msg)].concat();
    match crypto::decrypt_gcm(&key, &env) { Ok(d) if d == msg => Ok(true), Ok(_) => Err("opening a standard envelope gave another message".into()), Err(x) => Err(format!("standard envelope refused: {}", x)) }
}

fn c02(c: &Value) -> Verdict {
    let (key, msg) = (unhx(&c["key"]), unhx(&c["msg"]));
    let mut r = Rng::new(c["salt"].as_u64().unwrap_or(0));
    if key.len() == 32 {
        let n = r.bytes(12);
        let env = [n.clone(), refaes::gcm_seal(&key, &n, &msg)].concat();
        let refuse = |k: &[u8], e: &[u8], what: String| -> Result<(), String> {
            if k == &key[..] && e == &env[..] { return Ok(()); }
            match crashes(|| crypto::decrypt_gcm(k, e)) { Err(x) => Err(format!("{} on {}", x, what)),
                Ok(Ok(_)) => Err(format!("accepted {}: {}", what, hex::encode(&e[..e.len().min(80)]))), Ok(Err(_)) => Ok(()) }
        };
        let l = env.len();
        // every tag and nonce byte, and a sample of the others
        let mut pos: Vec<usize> = (0..12).chain(l - 16..l).collect();
        for _ in 0..8 { pos.push(r.below(l as u64) as usize); }
        for p in pos {
            let mut e = env.clone();
            e[p] ^= if r.chance(1, 2) { 1 << r.below(8) } else { r.range(1, 255) as u8 };
            refuse(&key, &e, format!("an envelope with byte {} of {} changed", p, l))?;
        }
        for k in 1..=l.min(40) { refuse(&key, &env[..l - k], format!("an envelope with the last {} bytes removed", k))?; refuse(&key, &env[k..], format!("an envelope with the first {} bytes removed", k))?; }
        for k in [1usize, 2, 4, 12, 16, 28] {
            let mut e = env.clone(); e.extend(r.bytes(k)); refuse(&key, &e, format!("an envelope with {} bytes appended", k))?;
            let mut e = env.clone(); e.extend(vec![0; k]); refuse(&key, &e, format!("an envelope with {} zero bytes appended", k))?;
            let e = [r.bytes(k), env.clone()].concat(); refuse(&key, &e, format!("an envelope with {} bytes prepended", k))?;
        }
        if msg.len() > 0 { let p = 12 + r.below(msg.len() as u64) as usize; let mut e = env.clone(); e.remove(p); refuse(&key, &e, format!("an envelope with byte {} removed", p))?; }
        for p in [0usize, 1, 15, 16, 30, 31] { let mut k = key.clone(); k[p] ^= 1 << r.below(8); refuse(&k, &env, format!("another key (byte {})", p))?; }
        let mut e = env.clone(); e[l - 16..].fill(0); refuse(&key, &e, "a zero tag".into())?;
        for b in [0xffu8, r.below(256) as u8, env[0], env[l - 1]] { let mut e = env.clone(); e[l - 16..].fill(b); refuse(&key, &e, format!("a tag of bytes {}", b))?; }
        for p in [0usize, 12, l - 16, l - 12, l - 4, l, 12 + r.below(msg.len() as u64 + 1) as usize] { // one byte put in, all values for a sample
            let all: Vec<u8> = if msg.len() < 300 && r.chance(1, 8) { (0..=255).collect() } else { vec![0, 1, 2, 255, r.next() as u8] };
            for b in all { let mut e = env.clone(); e.insert(p, b); refuse(&key, &e, format!("an envelope with a byte {} put in at {} of {}", b, p, l))?; } }
        for (p, n) in [(0usize, 12usize), (12, 16), (l - 16, 16)] { if p + n <= l { let mut e = env.clone(); let t = env[p..p + n].to_vec(); e.splice(p..p, t); refuse(&key, &e, format!("an envelope with {} bytes at {} twice", n, p))?; } }
        // two envelopes spliced
        let n2 = r.bytes(12);
        let other = [n2.clone(), refaes::gcm_seal(&key, &n2, &msg)].concat();
        refuse(&key, &[&env[..12], &other[12..]].concat(), "an envelope with another envelope's nonce".into())?;
        refuse(&key, &[&env[..l - 16], &other[l - 16..]].concat(), "an envelope with another envelope's tag".into())?;
    }
    // arbitrary short strings, any key
    for n in (0..60usize).chain(r.hint(1 << 16).map(|x| x as usize)) {
        let e = r.bytes(n);
        match crashes(|| crypto::decrypt_gcm(&key, &e)) { Err(x) => return Err(format!("{} on a {}-byte envelope", x, n)), Ok(Ok(_)) => return Err(format!("accepted random bytes {}", hex::encode(&e))), _ => {} }
    }
    Ok(true)
}

/// `ha noncedump GCM|CTR count`: nonces drawn by a fresh process for one key and message
pub fn noncedump() {
    let a: Vec<String> = std::env::args().collect();
    let n: usize = a[3].parse().unwrap();
    let key = [5u8; 32];
    let (gcm, par) = (a[2].starts_with("GCM"), a[2].ends_with("-par"));
    let one = move || if gcm { crypto::encrypt_gcm(&key, b"same").unwrap()[..12].to_vec() } else { crypto::encrypt_ctr(&key, b"same").unwrap()[..16].to_vec() };
    // in one thread, or in eight at the same time
    let t = if par { 8 } else { 1 };
    let gate = std::sync::Arc::new(std::sync::Barrier::new(t));
    let jobs: Vec<_> = (0..t).map(|_| { let gate = gate.clone(); std::thread::spawn(move || { gate.wait(); (0..n / t).map(|_| one()).collect::<Vec<_>>() }) }).collect();
    let mut o = String::new();
    for j in jobs { for e in j.join().unwrap() { o += &hex::encode(e); o.push('\n'); } }
    print!("{}", o);
}
fn c03_gen(r: &mut Rng, i: u64) -> Value { json!({"mode": format!("{}{}", if i % 2 == 0 {"GCM"} else {"CTR"}, if i % 8 >= 6 {"-par"} else {""}), "count": if i / 2 == 2 { 70000 } else { 256u64 << (i / 2).min(2) }, "salt": r.next()}) }
fn c03(c: &Value) -> Verdict {
    let mode = c["mode"].as_str().unwrap().to_string();
    let n = c["count"].as_u64().unwrap() as usize;
    let w = if mode.starts_with("GCM") { 12 } else { 16 };
    let dump = || -> Vec<Vec<u8>> {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["noncedump", &mode, &n.to_string()]).output().unwrap();
        String::from_utf8_lossy(&o.stdout).lines().map(|l| hex::decode(l).unwrap()).collect()
    };
    let (a, b) = (dump(), dump());
    if a.len() != n || b.len() != n { return Err("encryption ended the process".into()); }
    let mut all = std::collections::HashSet::new();
    for x in a.iter().chain(b.iter()) { if !all.insert(x.clone()) { return Err(format!("the nonce {} was used twice", hex::encode(x))); } }
    let stat = |what: &str, xs: &Vec<Vec<u8>>| -> Result<(), String> {
        for p in 0..w {
            let mut cnt = [0usize; 256];
            for x in xs { cnt[x[p] as usize] += 1; }
            let m = *cnt.iter().max().unwrap();
            // expected n/256; a chance excess over n/256 + 24 has negligible probability
            if m > n / 256 + 24 + n / 64 { return Err(format!("nonce byte {} is not random {}: one value {} times in {}", p, what, m, n)); }
        }
        Ok(())
    };
    stat("in one process", &a)?;
    // the same call in two processes must not agree on a byte more often than chance
    for p in 0..w {
        let eq = (0..n).filter(|&i| a[i][p] == b[i][p]).count();
        if eq > n / 256 + 24 + n / 64 { return Err(format!("nonce byte {} repeats between processes: equal in {} of {} calls", p, eq, n)); }
        let d = (1..n).filter(|&i| a[i][p].wrapping_sub(a[i - 1][p]) <= 1).count();
        if d > n / 128 + 32 + n / 32 { return Err(format!("nonce byte {} counts up: {} of {} steps", p, d, n)); }
        for q in 0..p { let eq = (0..n).filter(|&i| a[i][p] == a[i][q]).count(); if eq > n / 256 + 24 + n / 64 { return Err(format!("nonce bytes {} and {} are equal in {} of {} calls", q, p, eq, n)); } }
        // nor follow the previous nonce
        for q in 0..w { let eq = (1..n).filter(|&i| a[i][p] == a[i - 1][q]).count(); if eq > n / 256 + 24 + n / 64 { return Err(format!("nonce byte {} repeats byte {} of the previous nonce: {} of {}", p, q, eq, n)); } }
    }
    // different keys and messages: no byte follows them
    let mut r = Rng::new(c["salt"].as_u64().unwrap());
    let mut hits = vec![[0usize; 4]; w];
    let k = 300usize;
    for _ in 0..k {
        let (key, msg) = (r.bytes(32), r.bytes(40));
        let e = if mode.starts_with("GCM") { crypto::encrypt_gcm(&key, &msg) } else { crypto::encrypt_ctr(&key, &msg) }.map_err(|x| x.to_string())?;
        for p in 0..w { for (j, o) in [key[p], msg[p], key[31 - p], msg[39 - p]].iter().enumerate() { if e[p] == *o { hits[p][j] += 1; } } }
    }
    for p in 0..w { for j in 0..4 { if hits[p][j] > k / 8 { return Err(format!("nonce byte {} follows the key or message", p)); } } }
    // messages of all sizes, and unusual keys
    let mut lens = vec![0usize, 1, 15, 16, 17, 100, 255, 256, 4096, 65535, 65536, 70000]; if let Some(x) = r.hint(1 << 22) { lens.push(x as usize); }
    for len in lens {
        let (key, msg) = (match r.below(4) { 0 => vec![0; 32], 1 => vec![0xff; 32], _ => r.bytes(32) }, if r.chance(1, 2) { vec![0; len] } else { r.bytes(len) });
        let mut ns = vec![];
        for _ in 0..12 { ns.push(if mode.starts_with("GCM") { crypto::encrypt_gcm(&key, &msg) } else { crypto::encrypt_ctr(&key, &msg) }.map_err(|x| x.to_string())?[..w].to_vec()); }
        for x in &ns { if !all.insert(x.clone()) { return Err(format!("the nonce {} was used twice (message of {} bytes)", hex::encode(x), len)); } }
        for p in 0..w { if ns.iter().all(|x| x[p] == ns[0][p]) { return Err(format!("nonce byte {} is constant for messages of {} bytes", p, len)); } }
    }
    Ok(true)
}

fn c04(c: &Value) -> Verdict {
    let (key, msg) = (unhx(&c["key"]), unhx(&c["msg"]));
    let mut r = Rng::new(c["salt"].as_u64().unwrap_or(0));
    let e = crashes(|| crypto::encrypt_ctr(&key, &msg))?;
    if key.len() != 32 {
        if e.is_ok() { return Err(format!("encrypt_ctr accepted a {}-byte key", key.len())); }
        let d = crashes(|| crypto::decrypt_ctr(&key, &[vec![1u8; 16], msg.clone()].concat()))?;
        if d.is_ok() { return Err(format!("decrypt_ctr accepted a {}-byte key", key.len())); }
        return Ok(true);
    }
    let e = e.map_err(|x| format!("encrypt_ctr failed: {}", x))?;
    if e.len() != msg.len() + 16 { return Err(format!("{} bytes for a message of {}", e.len(), msg.len())); }
    if e[16..] != refaes::ctr64(&key, &e[..16], &msg)[..] { return Err("not AES-256-CTR of the message under the IV in front".into()); }
    match crypto::decrypt_ctr(&key, &e) { Ok(d) if d == msg => {}, Ok(_) => return Err("decryption gave another message".into()), Err(x) => return Err(format!("own output refused: {}", x)) }
    // any IV, including ones whose counter wraps
    let mut iv = r.bytes(16);
    if r.chance(1, 2) { iv[8..].fill(0xff); if r.chance(1, 2) { iv[15] = 0xff - r.below(4) as u8; } }
    else if r.chance(1, 2) { iv[12..].fill(0xff); }
    let data = [iv.clone(), refaes::ctr64(&key, &iv, &msg)].concat();
    match crypto::decrypt_ctr(&key, &data) { Ok(d) if d == msg => {}, Ok(_) => return Err(format!("decryption under IV {} gave another message", hex::encode(&iv))), Err(x) => return Err(format!("standard ciphertext refused: {}", x)) }
    for n in 0..16usize {
        let d = r.bytes(n);
        match crashes(|| crypto::decrypt_ctr(&key, &d)) { Err(x) => return Err(format!("{} on {} bytes", x, n)), Ok(Ok(_)) => return Err(format!("accepted {} bytes as CTR data", n)), _ => {} }
    }
    Ok(true)
}

pub fn suites() -> Vec<Suite> {
    let rule = "random 32-byte keys (and other lengths), messages of 0 to 70000 bytes incl. block boundaries; oracle: independent AES/GCM/CTR; non-trivial: every case";
    vec![
        Suite { id: "C01", rule, gen, check: c01, budget: (1500, 20000) },
        Suite { id: "C02", rule: "standard envelopes with every nonce/tag byte and sampled others changed, cut, extended, spliced, other keys, random short strings; non-trivial: every case", gen: gen2, check: c02, budget: (150, 3000) },
        Suite { id: "C03", rule: "nonces of 256..70000 calls in two processes each, in one thread or in eight: distinct, byte statistics per position, independence of key, message and call number", gen: c03_gen, check: c03, budget: (8, 48) },
        Suite { id: "C04", rule, gen, check: c04, budget: (1500, 20000) },
    ]
}
