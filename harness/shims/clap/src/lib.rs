//! Stand-in for clap 4 (which is not installed here): the derive macros for one level of subcommands with String,
//! PathBuf and bool options, option syntax, exit codes, and clap's debug assertion that names are unique.
pub use clap_derive::{Args, Parser, Subcommand};
use std::collections::HashMap;

pub struct OptSpec { pub field: &'static str, pub long: Option<&'static str>, pub short: Option<char>, pub flag: bool, pub default: Option<&'static str> }
pub struct SubSpec { pub name: &'static str, pub opts: &'static [OptSpec] }
pub struct Got { pub vals: HashMap<&'static str, String> }
impl Got { pub fn get<T: Val>(&self, f: &'static str) -> T { T::of(self.vals[f].clone()) } }
pub trait Val { const FLAG: bool = false; fn of(s: String) -> Self; }
impl Val for String { fn of(s: String) -> Self { s } }
impl Val for std::path::PathBuf { fn of(s: String) -> Self { s.into() } }
impl Val for bool { const FLAG: bool = true; fn of(s: String) -> Self { s == "true" } }
pub trait Args: Sized { const SPECS: &'static [OptSpec]; fn build(g: &Got) -> Self; }
pub trait Subcommand: Sized { fn specs() -> &'static [SubSpec]; fn build(sub: usize, g: &Got) -> Self; }
pub trait Parser: Sized { fn parse() -> Self; }

fn fail(m: String) -> ! { eprintln!("error: {}", m); std::process::exit(2) }
fn unique(l: &[String], what: &str) { for i in 0..l.len() { for j in i + 1..l.len() { if l[i] == l[j] { panic!("{} names must be unique, but '{}' is in use twice", what, l[i]); } } } }

pub fn run<T: Subcommand>() -> T {
    let specs = T::specs();
    let mut l: Vec<String> = specs.iter().map(|s| s.name.to_string()).collect(); l.push("help".into());
    unique(&l, "Command: subcommand");
    let mut a = std::env::args().skip(1);
    let Some(name) = a.next() else { fail("a subcommand is required".into()) };
    if name == "--help" || name == "-h" || name == "help" { std::process::exit(0) }
    let Some(k) = specs.iter().position(|s| s.name == name) else { fail(format!("unrecognized subcommand '{}'", name)) };
    let sp = &specs[k];
    let mut l: Vec<String> = sp.opts.iter().filter_map(|o| o.long).map(|x| x.to_string()).collect(); l.push("help".into());
    unique(&l, &format!("Command {}: Long option", sp.name));
    let mut l: Vec<String> = sp.opts.iter().filter_map(|o| o.short).map(|x| x.to_string()).collect(); l.push("h".into());
    unique(&l, &format!("Command {}: Short option", sp.name));
    let mut vals: HashMap<&'static str, String> = HashMap::new();
    let mut positional = sp.opts.iter().filter(|o| o.long.is_none() && o.short.is_none() && !o.flag);
    while let Some(x) = a.next() {
        let (o, mut v): (&OptSpec, Option<String>) = if let Some(n) = x.strip_prefix("--") {
            let (n, v) = match n.split_once('=') { Some((n, v)) => (n, Some(v.to_string())), None => (n, None) };
            if n == "help" { std::process::exit(0) }
            match sp.opts.iter().find(|o| o.long == Some(n)) { Some(o) => (o, v), None => fail(format!("unexpected argument '{}'", x)) }
        } else if x.starts_with('-') && x.len() > 1 {
            let c = x[1..].chars().next().unwrap();
            if c == 'h' { std::process::exit(0) }
            let rest = &x[1 + c.len_utf8()..];
            let rest = rest.strip_prefix('=').unwrap_or(rest);
            match sp.opts.iter().find(|o| o.short == Some(c)) { Some(o) => (o, if rest.is_empty() { None } else { Some(rest.to_string()) }), None => fail(format!("unexpected argument '{}'", x)) }
        } else {
            match positional.next() { Some(o) => (o, Some(x)), None => fail(format!("unexpected argument '{}'", x)) }
        };
        if o.flag { if v.is_some() { fail(format!("unexpected value for a flag in '{}'", o.field)) } v = Some("true".into()); }
        let v = match v { Some(v) => v, None => match a.next() { Some(v) if !v.starts_with('-') => v, _ => fail(format!("a value is required for '{}'", o.field)) } };
        if vals.insert(o.field, v).is_some() { fail(format!("the argument '{}' cannot be used multiple times", o.field)) }
    }
    for o in sp.opts {
        if !vals.contains_key(o.field) {
            match (o.default, o.flag) { (Some(d), _) => { vals.insert(o.field, d.to_string()); } (None, true) => { vals.insert(o.field, "false".into()); } _ => fail(format!("the argument '{}' is required", o.field)) }
        }
    }
    T::build(k, &Got { vals })
}
