//! Case runner shared by the harness binaries: generate a case (JSON), run the real code on it, compare.
//! A parent process watches a worker (address-space limit, progress watchdog), so that a crash, an abort, a
//! runaway allocation or an endless loop of the code under test is attributed to the case that caused it.
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng { s: u64, draws: u64, twist: Option<(u64, u64)> }
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, draws: 0, twist: None }; r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        self.draws += 1;
        match self.twist { Some((at, x)) if at == self.draws => (z ^ (z >> 31)) ^ x, _ => z ^ (z >> 31) }
    }
    /// the same stream from `from` on, with one of the draws up to `self` changed: cases that differ in one choice
    pub fn twin(&self, from: &Rng, r: &mut Rng) -> Rng {
        let at = from.draws + 1 + r.below(self.draws - from.draws);
        let x = if r.chance(1, 2) { 1 << r.below(8) } else { r.next() };
        Rng { twist: Some((at, x)), ..from.clone() }
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = (0..n).map(|_| self.next() as u8).collect();
        if n > 1 && self.chance(1, 6) { self.regular(&mut v); }
        if n > 0 {
            if let Some(x) = self.hint(255) { let p = match self.below(3) { 0 => 0, 1 => n - 1, _ => self.below(n as u64) as usize }; v[p] = x as u8; }
            if let Some(s) = self.hint_str() { let b = s.as_bytes(); if b.len() <= n { let p = if self.chance(1, 2) { 0 } else { self.below((n - b.len() + 1) as u64) as usize }; v[p..p + b.len()].copy_from_slice(b); } }
        }
        v
    }
    /// bytes that stand in some relation to each other
    fn regular(&mut self, v: &mut Vec<u8>) {
        let n = v.len();
        let at = self.below(n as u64) as usize;
        match self.below(9) {
            0 => { let x = *self.pick(&[0, 0, 255, v[0]]); v.fill(x); }
            1 => { let p = self.range(1, 9) as usize; for i in p..n { v[i] = v[i - p]; } }
            2 => { let s = *self.pick(&[1u8, 255, 2]); for i in 1..n { v[i] = v[i - 1].wrapping_add(s); } }
            3 => for i in 0..n / 2 { v[n - 1 - i] = v[i]; },
            4 => v[n - 1] = v[0],
            5 => for i in 0..n / 2 { v[n - n / 2 + i] = v[i]; },
            6 => v[at..].fill(0),
            7 => v[..at].fill(0),
            _ => { let x = v[..n - 1].iter().fold(0, |a, b| a ^ b); v[n - 1] = *Rng::pick(self, &[x, !x, n as u8, 0, 255]); }
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); } }
}

/// literals that are new in the sources under test (driver: HARNESS_DICT), tried as lengths, numbers and texts
pub struct Dict { pub ints: Vec<u64>, pub strs: Vec<String> }
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let v: Value = std::env::var("HARNESS_DICT").ok().and_then(|p| std::fs::read(p).ok()).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
        Dict { ints: v["ints"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default(),
               strs: v["strs"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default() }
    })
}
impl Rng {
    /// now and then a number at or next to a fresh literal, if there are any
    pub fn hint(&mut self, max: u64) -> Option<u64> {
        let d = dict();
        if d.ints.is_empty() || !self.chance(1, 4) { return None; }
        let v = *self.pick(&d.ints);
        let v = match self.below(10) { 0 => v.saturating_sub(1), 1 => v.saturating_add(1), 2 => v.saturating_mul(2), 3 => v.saturating_mul(*self.pick(&[3, 4, 5, 8, 32])), 4 => v / *self.pick(&[2, 4, 8, 12, 32]) + self.below(2), _ => v };
        if v <= max { Some(v) } else { None }
    }
    pub fn hint_str(&mut self) -> Option<String> {
        let d = dict();
        if d.strs.is_empty() || !self.chance(1, 4) { return None; }
        Some(self.pick(&d.strs).clone())
    }
}

pub fn hx(b: &[u8]) -> Value { Value::String(hex::encode(b)) }
pub fn unhx(v: &Value) -> Vec<u8> { hex::decode(v.as_str().unwrap_or("")).unwrap_or_default() }

/// Ok(true): checked a non-trivial case; Ok(false): trivial; Err: the property does not hold on this case.
pub type Verdict = Result<bool, String>;
pub struct Suite {
    pub id: &'static str,
    pub rule: &'static str,
    pub gen: fn(&mut Rng, u64) -> Value,
    pub check: fn(&Value) -> Verdict,
    /// (cases in the quick tier, cases in the thorough tier)
    pub budget: (u64, u64),
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}

pub fn run_check(s: &Suite, case: &Value) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| (s.check)(case))) {
        Ok(v) => v,
        Err(e) => Err(format!("the code under test panicked: {}", panic_text(e))),
    }
}

/// true if f panics
pub fn crashes<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("crashed: {}", panic_text(e)))
}

/// what the code under test prints goes nowhere; our own result goes to the standard output we were given
fn quiet() -> std::fs::File { use std::os::fd::FromRawFd; unsafe { let keep = libc::dup(1); let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY); libc::dup2(null, 1); libc::dup2(null, 2); std::fs::File::from_raw_fd(keep) } }
fn limit_as(gb: u64) { unsafe { let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 }; libc::setrlimit(libc::RLIMIT_AS, &l); let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 }; libc::setrlimit(libc::RLIMIT_CORE, &c); } }

fn short(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() < 1500 { v.clone() } else { json!({ "truncated": s.chars().take(1400).collect::<String>() }) }
}

pub fn scratch() -> std::path::PathBuf {
    let d = std::path::PathBuf::from(std::env::var("HARNESS_SCRATCH").expect("HARNESS_SCRATCH"));
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn main(suites: &[Suite]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mode = args.get(2).cloned().unwrap_or_default();
    let secs: u64 = std::env::var("HARNESS_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    let mine: Vec<&Suite> = suites.iter().filter(|s| s.id == id).collect();
    if mine.is_empty() { eprintln!("no suite {}", id); std::process::exit(2); }
    match mode.as_str() {
        "replay" => {
            limit_as(12);
            use std::io::Write;
            let mut o = quiet();
            let c: Value = serde_json::from_slice(&std::fs::read(&args[3]).unwrap()).unwrap();
            let case = if c.get("case").is_some() { c["case"].clone() } else { c.clone() };
            let k = case["suite"].as_u64().unwrap_or(0) as usize;
            // the cases that ran before it in the same process, for a failure that depends on them
            for b in case["before"].as_array().unwrap_or(&vec![]) { let _ = run_check(mine[b["suite"].as_u64().unwrap_or(0) as usize], b); }
            match run_check(mine[k], &case) {
                Ok(_) => { writeln!(o, "replay: holds").unwrap(); std::process::exit(0) }
                Err(e) => { writeln!(o, "replay: FAILS: {}", e).unwrap(); std::process::exit(1) }
            }
        }
        "worker" => {
            limit_as(12);
            use std::io::Write;
            let mut o = quiet();
            std::panic::set_hook(Box::new(|_| {}));
            let dir = scratch();
            let cur = dir.join("current.json");
            let t0 = Instant::now();
            let (mut evals, mut nontrivial) = (0u64, 0u64);
            let mut seen = std::collections::HashSet::new();
            let mut samples: Vec<Value> = vec![];
            let mut rules: Vec<String> = vec![];
            let mut before: std::collections::VecDeque<Value> = Default::default();
            for (k, s) in mine.iter().enumerate() {
                let n = if thorough { s.budget.1 } else { s.budget.0 };
                rules.push(s.rule.to_string());
                let mut rng = Rng::new(seed ^ ((k as u64) << 40));
                let mut pick = Rng::new(seed ^ 0x7717);
                let share = secs * (k as u64 + 1) / mine.len() as u64;
                for i in 0..n {
                    if t0.elapsed() > Duration::from_secs(share) { break; }
                    let from = rng.clone();
                    let first = (s.gen)(&mut rng, i);
                    // now and then a near copy right after a case, and then the case again
                    let mut cases = vec![];
                    if rng.draws > from.draws && pick.chance(1, 4) {
                        cases.push((s.gen)(&mut rng.twin(&from, &mut pick), i));
                        if pick.chance(1, 2) { cases.push(first.clone()); }
                    }
                    cases.insert(0, first);
                    for mut case in cases {
                    case["suite"] = json!(k);
                    let text = case.to_string();
                    std::fs::write(&cur, &text).unwrap();
                    evals += 1;
                    match run_check(s, &case) {
                        Ok(nt) => {
                            if nt {
                                use std::hash::{Hash, Hasher};
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                text.hash(&mut h);
                                if seen.insert(h.finish()) { nontrivial += 1; }
                                if samples.len() < 3 && i % 7 == 3 { samples.push(short(&case)); }
                            }
                        }
                        Err(e) => {
                            case["before"] = Value::Array(before.into_iter().collect());
                            writeln!(o, "{}", json!({"result":"fail","reason":e,"case":case,"evaluations":evals})).unwrap();
                            std::process::exit(0);
                        }
                    }
                    if text.len() < 40000 { before.push_back(case); if before.len() > 40 { before.pop_front(); } }
                    }
                }
            }
            if samples.is_empty() { samples.push(json!("none non-trivial")); }
            writeln!(o, "{}", json!({"result":"ok","evaluations":evals,"distinct_nontrivial":nontrivial,"samples":samples,"rule":rules.join(" | ")})).unwrap();
        }
        _ => {
            // parent: watch the worker
            let dir = scratch();
            let cur = dir.join("current.json");
            let _ = std::fs::remove_file(&cur);
            let out = dir.join("worker.out");
            let f = std::fs::File::create(&out).unwrap();
            let mut child = std::process::Command::new(std::env::current_exe().unwrap())
                .arg(&id).arg("worker").stdout(f).stderr(std::process::Stdio::null()).spawn().unwrap();
            let mut last = (std::time::SystemTime::UNIX_EPOCH, Instant::now());
            let stall = Duration::from_secs(30);
            let crash = |why: String| {
                let case: Value = std::fs::read(&cur).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
                if case.is_null() { println!("{}", json!({"result":"error","reason":why})); }
                else { println!("{}", json!({"result":"fail","reason":why,"case":case})); }
            };
            loop {
                if let Some(st) = child.try_wait().unwrap() {
                    if st.success() { print!("{}", std::fs::read_to_string(&out).unwrap()); }
                    else { crash(format!("the code under test ended the process: {:?}", st)); }
                    return;
                }
                let m = std::fs::metadata(&cur).and_then(|m| m.modified()).unwrap_or(std::time::SystemTime::UNIX_EPOCH);
                if m != last.0 { last = (m, Instant::now()); }
                if last.1.elapsed() > stall {
                    let _ = child.kill(); let _ = child.wait();
                    crash("the code under test did not return within 30 s".into());
                    return;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
}
