//! rx: mechanical extraction of functions from /repo into Verus input.
//!
//! usage: rx <template> <repo-root> <out.rs> <out.json>
//!
//! The template is Verus text (specs, lemmas, shims) with `//@@` directives that pull items out of
//! the real sources; see DESIGN.md ("Extraction") for the list of rewrites and what each one drops.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod clap;
mod inline;

#[derive(Default)]
struct Block {
    file: String,
    path: String, // Type::name or name or outer::inner
    ret: Option<String>,
    name_as: Option<String>,
    spec: String,
    loops: BTreeMap<usize, String>,
    has: Vec<(usize, String)>,
    at: Vec<(String, String)>, // (anchor, text)
    opts: BTreeSet<String>,
}

fn die(msg: &str) -> ! {
    eprintln!("rx: LOST: {}", msg);
    std::process::exit(3)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: rx template repo out.rs out.json");
        std::process::exit(2);
    }
    let tpl = std::fs::read_to_string(&a[1]).expect("template");
    let tdir = std::path::Path::new(&a[1]).parent().unwrap().to_path_buf();
    let mut tpl2 = String::new();
    for l in tpl.lines() {
        if let Some(r) = l.trim().strip_prefix("//@@ include ") {
            let t = std::fs::read_to_string(tdir.join(r.trim())).expect("include");
            tpl2.push_str(&t);
            tpl2.push('\n');
        } else {
            tpl2.push_str(l);
            tpl2.push('\n');
        }
    }
    let repo = std::path::Path::new(&a[2]);
    let tpl2 = expand(&tpl2, repo);
    let mut out = String::new();
    let mut files: HashMap<String, (String, File, String)> = HashMap::new();
    let mut report = vec![];
    let mut cur: Option<Block> = None;
    enum Sec {
        Spec,
        Loop(usize),
        At,
    }
    let mut sec = Sec::Spec;
    let mut gopts: Vec<String> = vec![];
    let known = known_names(&tpl2);
    for line in tpl2.lines() {
        let t = line.trim();
        if let Some(d) = t.strip_prefix("//@@ ") {
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "file" => {
                    // ts:<file below packages/zkenc-js/src>: the Rust text tools/tx made of it (in $TXDIR)
                    let (name, p) = match w[2].strip_prefix("ts:") {
                        Some(t) => (format!("packages/zkenc-js/src/{}", t), source_path(repo, w[2])),
                        None => (w[2].to_string(), source_path(repo, w[2])),
                    };
                    let src = match std::fs::read_to_string(&p) {
                        Ok(s) => s,
                        Err(_) => die(&format!("source file {} is gone", w[2])),
                    };
                    let f = match syn::parse_file(&src) {
                        Ok(f) => f,
                        Err(e) => die(&format!("{} does not parse: {}", w[2], e)),
                    };
                    files.insert(w[1].into(), (name, f, src));
                }
                "struct" | "enum" | "const" | "type" => {
                    let (fname, f, _) = files.get(w[1]).unwrap_or_else(|| die("no file alias"));
                    let it = find_item(f, w[2]).unwrap_or_else(|| die(&format!("{} {} not found in {}", w[0], w[2], fname)));
                    let mut io: BTreeSet<String> = gopts.iter().cloned().collect();
                    io.extend(w[3..].iter().map(|x| x.to_string()));
                    for d in io.iter().filter_map(|o| o.strip_prefix("derive:")) {
                        derives(it, &d.split(',').collect::<Vec<_>>());
                    }
                    let it = clean_item(it, &io);
                    out.push_str(&pretty(&it.to_token_stream().to_string()));
                    out.push('\n');
                    report.push(json!({"kind": w[0], "name": w[2], "file": fname}));
                }
                "fn" => {
                    let mut b = Block { file: w[1].into(), path: w[2].into(), ..Default::default() };
                    let mut i = 3;
                    while i < w.len() {
                        match w[i] {
                            "->" => {
                                b.ret = Some(w[i + 1].into());
                                i += 2;
                            }
                            "as" => {
                                b.name_as = Some(w[i + 1].into());
                                i += 2;
                            }
                            o => {
                                b.opts.insert(o.into());
                                i += 1;
                            }
                        }
                    }
                    b.opts.extend(gopts.iter().cloned());
                    cur = Some(b);
                    sec = Sec::Spec;
                }
                "callee" => {
                    // callee <alias> <path> from <unit>: the contract that unit proves, for callers here
                    let b = contract_of(&tdir, w[4], w[2], w[1]);
                    let (fname, f, _) = files.get(w[1]).unwrap_or_else(|| die("no file alias"));
                    let (text, info) = emit_callee(f, fname, b, w[4], &w[5..]);
                    out.push_str(&text);
                    out.push('\n');
                    report.push(info);
                }
                "clap" => {
                    let (fname, f, _) = files.get(w[1]).unwrap_or_else(|| die("no file alias"));
                    out.push_str(&clap::emit(f, w[2], w[3], &w[4..]));
                    report.push(json!({"kind": "clap", "name": w[2], "file": fname}));
                }
                "opts" => {
                    gopts.clear();
                    gopts.extend(w[1..].iter().map(|x| x.to_string()));
                }
                "loop" => {
                    let n: usize = w[1].parse().unwrap();
                    sec = Sec::Loop(n);
                    cur.as_mut().unwrap().loops.entry(n).or_default();
                    if let Some(p) = d.find(" has ") {
                        cur.as_mut().unwrap().has.push((n, d[p + 5..].trim().trim_matches('"').replace(' ', "")));
                    }
                }
                "at" => {
                    let anchor = d[3..].trim().to_string();
                    cur.as_mut().unwrap().at.push((anchor, String::new()));
                    sec = Sec::At;
                }
                "done" => {
                    let b = cur.take().unwrap();
                    let (fname, f, _) = files.get(&b.file).unwrap_or_else(|| die("no file alias"));
                    let start_line = out.lines().count() + 1;
                    let (text, info) = emit_fn(f, fname, &b, &known);
                    out.push_str(&text);
                    out.push('\n');
                    let end_line = out.lines().count();
                    let mut info = info;
                    info["gen_lines"] = json!([start_line, end_line]);
                    report.push(info);
                }
                _ => die(&format!("bad directive {}", d)),
            }
            continue;
        }
        match (&mut cur, &sec) {
            (Some(b), Sec::Spec) => {
                b.spec.push_str(line);
                b.spec.push('\n');
            }
            (Some(b), Sec::Loop(n)) => {
                let e = b.loops.get_mut(n).unwrap();
                e.push_str(line);
                e.push('\n');
            }
            (Some(b), Sec::At) => {
                let e = b.at.last_mut().unwrap();
                e.1.push_str(line);
                e.1.push('\n');
            }
            (None, _) => {
                out.push_str(line);
                out.push('\n');
            }
        }
    }
    std::fs::write(&a[3], out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&json!({"items": report})).unwrap()).unwrap();
}

fn source_path(repo: &std::path::Path, w: &str) -> std::path::PathBuf {
    match w.strip_prefix("ts:") {
        Some(t) => std::path::Path::new(&std::env::var("TXDIR").unwrap_or_else(|_| die("TXDIR is not set"))).join(format!("{}.rs", t.replace('/', "__"))),
        None => repo.join(w),
    }
}

/// `//@@ fn alias *suffix ..` up to `//@@ done`: the same contract for every function of that file with such a name.
fn expand(tpl: &str, repo: &std::path::Path) -> String {
    let mut files: HashMap<String, String> = HashMap::new();
    let (mut out, mut cur): (String, Option<(Vec<String>, String)>) = (String::new(), None);
    for line in tpl.lines() {
        let w: Vec<&str> = line.trim().strip_prefix("//@@ ").map(|d| d.split_whitespace().collect()).unwrap_or_default();
        match w.first().copied() {
            Some("file") => {
                files.insert(w[1].into(), std::fs::read_to_string(source_path(repo, w[2])).unwrap_or_default());
            }
            Some("fn") if w[2].starts_with('*') => {
                let f = syn::parse_file(files.get(w[1]).map(|x| x.as_str()).unwrap_or("")).unwrap_or_else(|e| die(&format!("{} does not parse: {}", w[1], e)));
                let names = f.items.iter().filter_map(|i| match i { Item::Fn(x) => Some(x.sig.ident.to_string()), _ => None }).filter(|n| n.ends_with(&w[2][1..])).collect();
                cur = Some((names, line.replacen(w[2], "\u{1}", 1) + "\n"));
                continue;
            }
            Some("done") if cur.is_some() => {
                let (names, text) = cur.take().unwrap();
                for n in names {
                    out.push_str(&text.replacen('\u{1}', &n, 1));
                    out.push_str("//@@ done\n");
                }
                continue;
            }
            _ => {}
        }
        let o = match &mut cur {
            Some((_, t)) => t,
            None => &mut out,
        };
        o.push_str(line);
        o.push('\n');
    }
    out
}

/// What the template accounts for: functions under contract, contracts taken from other units, functions mapped to
/// shims and the shims themselves, constants; and all its words.
struct Known {
    fns: BTreeSet<String>,
    consts: BTreeSet<String>,
    words: BTreeSet<String>,
}
fn known_names(t: &str) -> Known {
    let mut k = Known { fns: BTreeSet::new(), consts: BTreeSet::new(), words: BTreeSet::new() };
    for l in t.lines() {
        let ws: Vec<&str> = l.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
        k.words.extend(ws.iter().map(|x| x.to_string()));
        if let Some(d) = l.trim().strip_prefix("//@@ ") {
            let w: Vec<&str> = d.split_whitespace().collect();
            if matches!(w[0], "fn" | "callee") {
                k.fns.insert(w[2].to_string());
                k.fns.insert(w[2].rsplit("::").next().unwrap().to_string());
            }
            if w[0] == "const" {
                k.consts.insert(w[2].to_string());
            }
            for o in &w[1..] {
                for pre in ["f:", "m:"] {
                    if let Some((a, _)) = o.strip_prefix(pre).and_then(|r| r.split_once('=')) {
                        k.fns.insert(a.to_string());
                    }
                }
                if let Some((a, _)) = o.strip_prefix("lift:").and_then(|r| r.split_once(':')) {
                    k.fns.insert(a.to_string());
                }
            }
        } else if let Some(i) = ws.iter().position(|x| *x == "fn") {
            if !ws[..i].contains(&"spec") && !ws[..i].contains(&"proof") {
                k.fns.extend(ws.get(i + 1).map(|x| x.to_string()));
            }
        } else if let Some(i) = ws.iter().position(|x| *x == "const") {
            k.consts.extend(ws.get(i + 1).map(|x| x.to_string()));
        }
    }
    k
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

fn find_item<'a>(f: &'a File, name: &str) -> Option<&'a Item> {
    for it in &f.items {
        match it {
            Item::Struct(s) if s.ident == name => return Some(it),
            Item::Enum(s) if s.ident == name => return Some(it),
            Item::Const(s) if s.ident == name => return Some(it),
            Item::Type(s) if s.ident == name => return Some(it),
            _ => {}
        }
    }
    None
}

/// A contract relies on what these derives generate for the plain fields: each is there, and no attribute steers it.
fn derives(it: &Item, want: &[&str]) {
    if let Item::Struct(s) = it {
        let txt: Vec<String> = s.attrs.iter().map(|a| a.meta.to_token_stream().to_string().replace(' ', "")).collect();
        for d in want {
            let has = txt.iter().any(|a| a.strip_prefix("derive(").and_then(|r| r.strip_suffix(')')).is_some_and(|r| r.split(',').any(|x| x.rsplit("::").next() == Some(d))));
            if !has {
                die(&format!("{} does not derive {}", s.ident, d));
            }
        }
        let plain = |a: &syn::Attribute| a.path().is_ident("derive") || a.path().is_ident("doc") || a.path().is_ident("allow");
        if !s.attrs.iter().all(plain) || !s.fields.iter().all(|f| f.attrs.iter().all(plain)) {
            die(&format!("{} has attributes beside its derives", s.ident));
        }
    }
}

fn clean_item(it: &Item, opts: &BTreeSet<String>) -> Item {
    let mut it = it.clone();
    let mut mono = Mono::new(opts);
    if let Item::Struct(s) = &mut it {
        mono.generics(&mut s.generics);
        mono.visit_fields_mut(&mut s.fields);
    }
    let pubv: Visibility = parse_quote!(pub);
    match &mut it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = pubv.clone();
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = pubv.clone();
            }
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = pubv;
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        Item::Const(c) => {
            c.attrs.clear();
            c.vis = pubv;
        }
        _ => {}
    }
    it
}

struct Found {
    sig: Signature,
    block: syn::Block,
    generics: Option<Generics>,
    self_ty: Option<Type>,
}

fn find_fn(f: &File, path: &str) -> Option<Found> {
    let segs: Vec<&str> = path.split("::").collect();
    if segs.len() == 1 {
        for it in &f.items {
            if let Item::Fn(x) = it {
                if x.sig.ident == segs[0] && !is_test(&x.attrs) {
                    return Some(Found { sig: x.sig.clone(), block: (*x.block).clone(), generics: None, self_ty: None });
                }
            }
        }
        return None;
    }
    // Type::method
    for it in &f.items {
        if let Item::Impl(im) = it {
            let ty = im.self_ty.to_token_stream().to_string();
            let tyname = ty.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string();
            if tyname == segs[0] {
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        if m.sig.ident == segs[1] {
                            return Some(Found {
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                                generics: Some(im.generics.clone()),
                                self_ty: Some((*im.self_ty).clone()),
                            });
                        }
                    }
                }
            }
        }
    }
    // outer::inner nested fn
    if let Some(o) = find_fn(f, segs[0]) {
        for s in &o.block.stmts {
            if let Stmt::Item(Item::Fn(x)) = s {
                if x.sig.ident == segs[1] {
                    return Some(Found { sig: x.sig.clone(), block: (*x.block).clone(), generics: None, self_ty: None });
                }
            }
            if let Some((name, c)) = local_closure(s) {
                if name == segs[1] && c.inputs.iter().all(|p| matches!(p, Pat::Type(_))) {
                    let id = format_ident!("{}", name);
                    let ins = &c.inputs;
                    let out = &c.output;
                    let body = &c.body;
                    let f: ItemFn = match &**body {
                        Expr::Block(b) => {
                            let b = &b.block;
                            parse_quote!(fn #id(#ins) #out #b)
                        }
                        e => parse_quote!(fn #id(#ins) #out { #e }),
                    };
                    return Some(Found { sig: f.sig, block: *f.block, generics: None, self_ty: None });
                }
            }
        }
    }
    None
}

fn local_closure(s: &Stmt) -> Option<(String, &ExprClosure)> {
    if let Stmt::Local(l) = s {
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if let Expr::Closure(c) = &*init.expr {
                return Some((i.ident.to_string(), c));
            }
        }
    }
    None
}

/// `thunks`: closures without parameters that are handed to a call (directly, boxed or by name) are
/// evaluated in place.
struct Thunks {
    n: usize,
    bad: Vec<String>,
}
struct HasReturn(bool);
impl VisitMut for HasReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Return(_) | Expr::Try(_)) {
            self.0 = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn boxed_fn(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Box" {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(GenericArgument::Type(Type::TraitObject(o))) = a.args.first() {
                    for b in &o.bounds {
                        if let TypeParamBound::Trait(t) = b {
                            let l = t.path.segments.last()?;
                            if l.ident == "FnOnce" {
                                if let PathArguments::Parenthesized(pa) = &l.arguments {
                                    if let ReturnType::Type(_, t) = &pa.output {
                                        return Some((**t).clone());
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    None
}
impl VisitMut for Thunks {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Some(x) = boxed_fn(t) {
            *t = x;
            self.n += 1;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            match e {
                Expr::Closure(c) if c.inputs.is_empty() => {
                    let mut b = (*c.body).clone();
                    let mut h = HasReturn(false);
                    h.visit_expr_mut(&mut b);
                    if h.0 {
                        self.bad.push("a closure that returns early".into());
                    }
                    *e = b;
                    self.n += 1;
                }
                Expr::Cast(c) if boxed_fn(&c.ty).is_some() => {
                    let x = (*c.expr).clone();
                    *e = x;
                    self.n += 1;
                }
                Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "") == "Box::new" => {
                    let x = c.args[0].clone();
                    *e = x;
                    self.n += 1;
                }
                _ => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut l) = syn::parse2::<ListArgs>(m.tokens.clone()) {
            for x in l.0.iter_mut() {
                self.visit_expr_mut(x);
            }
            let xs = &l.0;
            m.tokens = quote!(#(#xs),*);
        }
    }
}

/// `lift:NAME:a,b`: the local closure NAME, extracted as a function of its captures a, b, is called as such.
struct Lift {
    m: HashMap<String, Vec<Expr>>,
    n: usize,
}
impl VisitMut for Lift {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| !local_closure(s).map(|(n, _)| self.m.contains_key(&n)).unwrap_or(false));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Some(v) = simple_ident(&c.func).and_then(|i| self.m.get(&i).cloned()) {
                for (i, x) in v.into_iter().enumerate() {
                    c.args.insert(i, x);
                }
                self.n += 1;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `world=f,T::g,..`: calls of these functions get the (ghost) state of the file system as first argument.
struct World {
    names: Vec<String>,
    n: usize,
}
impl VisitMut for World {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let mut s = p.path.clone();
                for x in s.segments.iter_mut() {
                    x.arguments = PathArguments::None;
                }
                if self.names.contains(&s.to_token_stream().to_string().replace(' ', "")) {
                    c.args.insert(0, parse_quote!(__w));
                    self.n += 1;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Lower {
    nloops: usize,
    rewrites: BTreeMap<String, usize>,
    opts: BTreeSet<String>,
    errors: Vec<String>,
}

impl Lower {
    /// `let mut __oK [: Type from the option oty:K:Type] = init;`
    fn out_decl(&self, k: usize, init: Expr) -> Stmt {
        let o = format_ident!("__o{}", k);
        let pre = format!("oty:{}:", k);
        for x in &self.opts {
            if let Some(t) = x.strip_prefix(&pre) {
                if let Ok(t) = syn::parse_str::<syn::Type>(t) {
                    return parse_quote!(let mut #o : #t = #init;);
                }
            }
        }
        parse_quote!(let mut #o = #init;)
    }
    fn note(&mut self, s: &str) {
        *self.rewrites.entry(s.to_string()).or_default() += 1;
    }
}

fn mac_name(m: &Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn simple_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

fn is_bytestr(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::ByteStr(_)),
        Expr::Paren(p) => is_bytestr(&p.expr),
        _ => false,
    }
}

impl VisitMut for Lower {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // drop console output and nested items (nested fns are pulled by their own directive)
        let mut keep = vec![];
        for s in b.stmts.drain(..) {
            match &s {
                Stmt::Macro(m) if ["println", "eprintln", "print", "eprint"].contains(&mac_name(&m.mac).as_str()) => {
                    self.note("console output statement dropped");
                }
                Stmt::Item(Item::Use(_)) => self.note("use declaration dropped (names resolve to the shims)"),
                Stmt::Item(Item::Fn(_)) => self.note("nested fn lifted to module level (extracted by its own directive)"),
                Stmt::Macro(m) if mac_name(&m.mac) == "bail" => {
                    self.note("bail!(..) -> return Err(verr()) (message text dropped)");
                    keep.push(parse_quote!(return Err(verr());));
                }
                _ => keep.push(s),
            }
        }
        b.stmts = keep;
        for s in b.stmts.iter_mut() {
            // attributes on statements (e.g. #[cfg(feature = "std")])
            match s {
                Stmt::Local(l) => {
                    l.attrs.clear();
                    if let Pat::Ident(i) = &l.pat {
                        let pre = format!("lty:{}:", i.ident);
                        let t = self.opts.iter().find_map(|o| o.strip_prefix(&pre)).map(|t| t.to_string());
                        if let Some(t) = t {
                            let ty: Type = parse_str(&t).unwrap_or_else(|_| die("bad lty: option"));
                            let p = l.pat.clone();
                            l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(ty) });
                            self.note("inferred local type written out");
                        }
                    }
                }
                Stmt::Expr(e, _) => strip_attrs(e),
                _ => {}
            }
            self.visit_stmt_mut(s);
        }
        // drop statements that became empty macros
        b.stmts.retain(|s| !matches!(s, Stmt::Expr(Expr::Tuple(t), Some(_)) if t.elems.is_empty()));
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        strip_attrs(e);
        // ---- loops first, pre-order numbering
        if let Expr::ForLoop(_) = e {
            self.lower_for(e);
            return;
        }
        if let Expr::While(w) = e {
            let k = self.nloops;
            self.nloops += 1;
            self.visit_expr_mut(&mut w.cond);
            self.visit_block_mut(&mut w.body);
            mark_loop(&mut w.body, k);
            let after = after_marker(k);
            let w = w.clone();
            *e = parse_quote!({ #w #after });
            return;
        }
        if let Expr::Loop(w) = e {
            let k = self.nloops;
            self.nloops += 1;
            self.visit_block_mut(&mut w.body);
            mark_loop(&mut w.body, k);
            return;
        }
        // ---- `Some(&x)` patterns: bind the reference, then copy
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &mut *i.cond {
                let mut v = vec![];
                deref_pats(&mut l.pat, &mut v);
                if !v.is_empty() {
                    self.note("reference pattern -> binding and dereference");
                    for (k, st) in v.into_iter().enumerate() {
                        i.then_branch.stmts.insert(k, st);
                    }
                }
            }
        }
        if let Expr::Match(m) = e {
            for a in m.arms.iter_mut().filter(|a| a.guard.is_none()) {
                let mut v = vec![];
                deref_pats(&mut a.pat, &mut v);
                if !v.is_empty() {
                    self.note("reference pattern -> binding and dereference");
                    let b = a.body.clone();
                    *a.body = parse_quote!({ #(#v)* #b });
                }
            }
        }
        if self.lower_chain(e) {
            return;
        }
        // ---- macros
        if let Expr::Macro(m) = e {
            let n = mac_name(&m.mac);
            match n.as_str() {
                "println" | "eprintln" => {
                    self.note("console output statement dropped");
                    *e = parse_quote!(());
                    return;
                }
                "bail" => {
                    self.note("bail!(..) -> return Err(verr()) (message text dropped)");
                    *e = parse_quote!(return Err(verr()));
                    return;
                }
                "anyhow" => {
                    self.note("anyhow!(..) -> verr() (message text dropped)");
                    *e = parse_quote!(verr());
                    return;
                }
                "format" => {
                    if self.opts.contains("format=exact") {
                        if let Some(x) = lower_format(&m.mac.tokens) {
                            self.note("format!(literal with {} only) -> concatenation of shim displays");
                            *e = x;
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    self.note("format!(..) -> verr() (error text dropped)");
                    *e = parse_quote!(verr());
                    return;
                }
                "vec" => {
                    let toks = m.mac.tokens.clone();
                    if let Ok(r) = syn::parse2::<RepeatArgs>(toks.clone()) {
                        self.note("vec![x; n] -> vrepeat(x, n)");
                        let (x, n) = (r.0, r.1);
                        let f = self.opts.iter().find_map(|o| o.strip_prefix("vrepeat=")).unwrap_or("vrepeat");
                        let f = format_ident!("{}", f);
                        *e = parse_quote!(#f(#x, #n));
                        visit_mut::visit_expr_mut(self, e);
                    } else if let Ok(l) = syn::parse2::<ListArgs>(toks) {
                        let xs = &l.0;
                        if xs.is_empty() {
                            *e = parse_quote!(Vec::new());
                        } else {
                            let n = format_ident!("vlist{}", xs.len());
                            self.note("vec![a, b, ..] -> vlistN(a, b, ..)");
                            *e = parse_quote!(#n(#(#xs),*));
                        }
                        visit_mut::visit_expr_mut(self, e);
                    }
                    return;
                }
                _ => {}
            }
        }
        // ---- comparisons with byte strings
        if let Expr::Binary(b) = e {
            let cmp = matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_));
            let opt = self.opts.iter().any(|o| o.strip_prefix("bytes=").map(|n| [&b.left, &b.right].iter().any(|x| simple_ident(x).as_deref() == Some(n))).unwrap_or(false));
            if cmp && (is_bytestr(&b.left) || is_bytestr(&b.right) || opt) {
                let neg = matches!(b.op, BinOp::Ne(_));
                let (l, r) = (b.left.clone(), b.right.clone());
                let l = bytes_arg(&l);
                let r = bytes_arg(&r);
                self.note("byte-string comparison -> vbytes_eq");
                *e = if neg { parse_quote!(!vbytes_eq(#l, #r)) } else { parse_quote!(vbytes_eq(#l, #r)) };
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        if let Expr::Lit(l) = e {
            if let Lit::ByteStr(bs) = &l.lit {
                let v = bs.value();
                let els = v.iter().map(|b| proc_macro2::Literal::u8_suffixed(*b));
                *e = parse_quote!(&[#(#els),*]);
                return;
            }
        }
        // ---- calls
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            match name.as_str() {
                "context" | "with_context" => {
                    self.note(".context(..)/.with_context(..) -> .vctx() (error text dropped)");
                    m.method = format_ident!("vctx");
                    m.args.clear();
                }
                "map_err" if !self.opts.contains("keep-map-err") => {
                    self.note(".map_err(..) -> .vctx() (error value replaced by verr())");
                    m.method = format_ident!("vctx");
                    m.args.clear();
                }
                "ok_or" if m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(_)) => {
                    self.note(".ok_or(text) -> .vctx() (error text dropped)");
                    m.method = format_ident!("vctx");
                    m.args.clear();
                }
                "copy_from_slice" => {
                    // dst[a..b].copy_from_slice(&src[..]) -> vcopy_range(&mut dst, a, b, src)
                    if let Expr::Index(ix) = &*m.receiver {
                        if let Expr::Range(r) = &*ix.index {
                            let base = &ix.expr;
                            let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                            let src = &m.args[0];
                            let ne = match &r.end {
                                Some(hi) => parse_quote!(vcopy_range(&mut #base, #lo, #hi, #src)),
                                None => parse_quote!(vcopy_from(&mut #base, #lo, #src)),
                            };
                            self.note("place slice copy_from_slice -> vcopy_range");
                            *e = ne;
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
                _ => {}
            }
            if let Expr::MethodCall(m) = e {
                let n = m.method.to_string();
                for o in self.opts.clone() {
                    if let Some(r) = o.strip_prefix("m:") {
                        let (from, to) = r.split_once('=').unwrap();
                        if n == from {
                            m.method = format_ident!("{}", to);
                            self.note(&format!("method .{} -> shim .{}", from, to));
                        }
                    }
                }
                if m.method == "iter" && m.args.is_empty() {
                    m.method = format_ident!("viter");
                    self.note(".iter() -> shim .viter()");
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                let table = [
                    ("u32::from_le_bytes", "vu32_from_le_bytes"),
                    ("u64::from_le_bytes", "vu64_from_le_bytes"),
                    ("u32::from_be_bytes", "vu32_from_be_bytes"),
                    ("u64::from_be_bytes", "vu64_from_be_bytes"),
                    ("Vec::with_capacity", "vwith_capacity"),
                ];
                for (f, t) in table {
                    if s == f {
                        let t = format_ident!("{}", t);
                        p.path = parse_quote!(#t);
                        self.note(&format!("{} -> {}", f, t));
                    }
                }
                for o in self.opts.clone() {
                    if let Some(r) = o.strip_prefix("f:") {
                        let (from, to) = r.split_once('=').unwrap();
                        if s == from {
                            let t: Path = parse_str(to).unwrap();
                            p.path = t;
                            self.note(&format!("call {} -> {}", from, to));
                        }
                    }
                }
            }
        }
        // &x[..] -> x.vfull()
        if let Expr::Reference(r) = e {
            if let (None, Expr::Index(ix)) = (&r.mutability, &*r.expr) {
                if let Expr::Range(rg) = &*ix.index {
                    if rg.start.is_none() && rg.end.is_none() {
                        let b = &ix.expr;
                        self.note("&x[..] -> x.vfull()");
                        *e = parse_quote!((#b).vfull());
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
            }
        }
        // &mut UnitStruct (a generator handle passed as a temporary) -> the value
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Path(p) = &*r.expr {
                    let s = p.path.segments.last().unwrap().ident.to_string();
                    if s == "OsRng" {
                        self.note("&mut OsRng -> shim generator handle");
                        *e = parse_quote!(OsRng { d: 0 });
                        return;
                    }
                }
            }
        }
        // paths such as std::io::SeekFrom::Start
        if let Expr::Path(p) = e {
            strip_path(&mut p.path);
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        strip_path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

/// `std::io::SeekFrom::Start` -> `SeekFrom::Start`, `super::sym_parser::f` -> `f`, `crypto::f` -> `f`.
fn strip_path(p: &mut Path) {
    let first = match p.segments.first() {
        Some(s) => s.ident.to_string(),
        None => return,
    };
    if p.segments.len() > 1 && ["std", "core", "super", "crate", "anyhow", "serde_json", "ark_std", "rand", "crypto", "fs", "sym_parser", "r1cs_to_qap", "blake3", "bincode", "getrandom"].contains(&first.as_str()) {
        let mut segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        // drop leading lowercase module segments
        while segs.len() > 1 && segs[0].ident.to_string().chars().next().unwrap().is_lowercase() {
            let m = segs.remove(0);
            // fs::read -> fs_read etc., so that the shim names stay distinct
            if segs.len() == 1 && ["fs", "blake3", "serde_json", "bincode", "getrandom"].contains(&m.ident.to_string().as_str()) && segs[0].ident.to_string().chars().next().unwrap().is_lowercase() {
                let id = format_ident!("{}_{}", m.ident, segs[0].ident);
                segs[0].ident = id;
            }
        }
        p.leading_colon = None;
        p.segments = segs.into_iter().collect();
    }
}

fn strip_attrs(e: &mut Expr) {
    match e {
        Expr::Macro(m) => m.attrs.clear(),
        Expr::If(x) => x.attrs.clear(),
        Expr::Block(x) => x.attrs.clear(),
        Expr::MethodCall(x) => x.attrs.clear(),
        Expr::Call(x) => x.attrs.clear(),
        Expr::ForLoop(x) => x.attrs.clear(),
        _ => {}
    }
}

/// The underlying slice argument for a byte comparison: `&x` and `*x` are normalised to `&x[..]`-like refs.
fn bytes_arg(e: &Expr) -> Expr {
    match e {
        Expr::Reference(_) => e.clone(),
        Expr::Lit(_) => e.clone(),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(),
        Expr::Index(_) => parse_quote!(&#e),
        Expr::Paren(p) => bytes_arg(&p.expr),
        _ => e.clone(),
    }
}

struct RepeatArgs(Expr, Expr);
impl syn::parse::Parse for RepeatArgs {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let a: Expr = i.parse()?;
        let _: Token![;] = i.parse()?;
        let b: Expr = i.parse()?;
        Ok(RepeatArgs(a, b))
    }
}
struct ListArgs(Vec<Expr>);
impl syn::parse::Parse for ListArgs {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(i)?;
        Ok(ListArgs(p.into_iter().collect()))
    }
}

fn lower_format(t: &TokenStream) -> Option<Expr> {
    let a: ListArgs = syn::parse2(t.clone()).ok()?;
    let lit = match a.0.first()? {
        Expr::Lit(l) => match &l.lit {
            Lit::Str(s) => s.value(),
            _ => return None,
        },
        _ => return None,
    };
    let mut args = a.0[1..].to_vec().into_iter();
    let mut acc: Expr = parse_quote!(vfmt_new());
    let mut cur = String::new();
    let mut it = lit.chars().peekable();
    while let Some(c) = it.next() {
        if c == '{' {
            let n = it.next()?;
            if n == '{' {
                cur.push('{');
                continue;
            }
            let mut name = String::new();
            let mut ch = n;
            while ch != '}' {
                name.push(ch);
                ch = it.next()?;
            }
            let x: Expr = if name.is_empty() { args.next()? } else { parse_str(&name).ok()? };
            if !cur.is_empty() {
                let l = cur.clone();
                acc = parse_quote!(vfmt_lit(#acc, #l));
                cur.clear();
            }
            acc = parse_quote!(vfmt_arg(#acc, &#x));
        } else if c == '}' {
            it.next();
            cur.push('}');
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        acc = parse_quote!(vfmt_lit(#acc, #cur));
    }
    Some(acc)
}

fn mark_loop(b: &mut syn::Block, k: usize) {
    if let Some(Stmt::Expr(e, s @ None)) = b.stmts.last_mut() {
        if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_)) {
            *s = Some(Default::default());
        }
    }
    let id = format_ident!("__VLOOP_{}_END", k);
    let st: Stmt = parse_quote!(#id!(););
    // the end marker goes before a tail expression, if any
    let st2 = st;
    b.stmts.push(st2);
    let id = format_ident!("__VLOOP_{}", k);
    let st: Stmt = parse_quote!(#id!(););
    b.stmts.insert(0, st);
}

/// The loops of a function, each recognised by a word of its body, when they are the annotated ones in another order.
fn reordered(text: &str, has: &[(usize, String)]) -> Vec<usize> {
    let t = text.replace(char::is_whitespace, "");
    let body = |k: usize| {
        let (a, e) = (t.find(&format!("__VLOOP_{}!", k)), t.find(&format!("__VLOOP_{}_END!", k)));
        if let (Some(a), Some(e)) = (a, e) { if a < e { return t[t[..a].rfind("__VLOOP_").unwrap_or(0)..e].to_string(); } }
        String::new()
    };
    let bodies: Vec<String> = has.iter().map(|(k, _)| body(*k)).collect();
    // found[i]: the annotation whose word, and no other's, is in the body of loop i
    let mut found = vec![];
    for x in &bodies {
        let m: Vec<usize> = (0..has.len()).filter(|i| x.contains(&has[*i].1)).collect();
        if m.len() != 1 { return vec![]; }
        found.push(m[0]);
    }
    let mut s = found.clone();
    s.sort();
    s.dedup();
    if s.len() == has.len() && found.iter().enumerate().any(|(i, f)| i != *f) { found } else { vec![] }
}

fn after_marker(k: usize) -> Stmt {
    let id = format_ident!("__VLOOP_{}_AFTER", k);
    parse_quote!(#id!();)
}

impl Lower {
    fn lower_for(&mut self, e: &mut Expr) {
        let f = match e {
            Expr::ForLoop(f) => f.clone(),
            _ => unreachable!(),
        };
        let k = self.nloops;
        self.nloops += 1;
        let mut body = f.body.clone();
        let pat = (*f.pat).clone();
        let label = &f.label;
        let mut src = (*f.expr).clone();
        if let Expr::Paren(p) = &src {
            src = (*p.expr).clone();
        }
        let after = after_marker(k);
        if let Expr::Range(r) = &src {
            let mut lo = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
            let mut hi = match &r.end {
                Some(h) => (**h).clone(),
                None => {
                    self.errors.push("open range loop".into());
                    parse_quote!(0)
                }
            };
            self.visit_expr_mut(&mut lo);
            self.visit_expr_mut(&mut hi);
            self.visit_block_mut(&mut body);
            let (i, h, d) = (format_ident!("__i{}", k), format_ident!("__e{}", k), format_ident!("__d{}", k));
            let bind: Vec<Stmt> = match &pat {
                Pat::Wild(_) => vec![],
                _ => vec![parse_quote!(let #pat = #i;)],
            };
            let stmts = &body.stmts;
            match r.limits {
                RangeLimits::HalfOpen(_) => {
                    self.note("for over a half-open range -> while with the counter advanced first");
                    let mut nb: syn::Block = parse_quote!({ #(#bind)* #i = #i + 1; #(#stmts)* });
                    // bind must read the old value
                    if !matches!(pat, Pat::Wild(_)) {
                        nb = parse_quote!({ let __c = #i; #i = #i + 1; let #pat = __c; #(#stmts)* });
                    }
                    mark_loop(&mut nb, k);
                    *e = parse_quote!({ let mut #i = #lo; let #h = #hi; #label while #i < #h #nb #after });
                }
                RangeLimits::Closed(_) => {
                    self.note("for over a closed range -> while with the counter advanced first");
                    let mut nb: syn::Block = parse_quote!({ let __c = #i; if #i == #h { #d = true; } else { #i = #i + 1; } #(#stmts)* });
                    if !matches!(pat, Pat::Wild(_)) {
                        nb.stmts.insert(2, parse_quote!(let #pat = __c;));
                    }
                    mark_loop(&mut nb, k);
                    *e = parse_quote!({ let mut #i = #lo; let #h = #hi; let mut #d = false; #label while !#d && #i <= #h #nb #after });
                }
            }
            return;
        }
        self.visit_expr_mut(&mut src);
        self.visit_block_mut(&mut body);
        self.note("for over an iterator -> while over the shim iterator");
        let it = format_ident!("__it{}", k);
        let x = format_ident!("__x{}", k);
        let stmts = &body.stmts;
        let bind = bind_pat(&pat, &x);
        let mut nb: syn::Block = parse_quote!({ let #x = #it.vtake(); #(#bind)* #(#stmts)* });
        mark_loop(&mut nb, k);
        *e = parse_quote!({ let mut #it = vinto(#src); #label while #it.vhas() #nb #after });
    }

    /// `S.iter()[.adapter()]*.map(|P| B).collect()`, `.find(|P| B)`, `.flat_map(f).collect()`,
    /// `(a..b).collect()` -> explicit loops.
    fn lower_chain(&mut self, e: &mut Expr) -> bool {
        let m = match e {
            Expr::MethodCall(m) => m.clone(),
            _ => return false,
        };
        let name = m.method.to_string();
        match name.as_str() {
            "collect" => {
                if let Expr::MethodCall(mm) = &*m.receiver {
                    let n2 = mm.method.to_string();
                    if n2 == "map" || n2 == "flat_map" {
                        let k = self.nloops;
                        self.nloops += 1;
                        let mut src = (*mm.receiver).clone();
                        self.visit_expr_mut(&mut src);
                        let (it, x, o) = (format_ident!("__it{}", k), format_ident!("__x{}", k), format_ident!("__o{}", k));
                        let (binds, body): (Vec<Stmt>, Expr) = match &mm.args[0] {
                            Expr::Closure(c) => {
                                let mut b = (*c.body).clone();
                                self.visit_expr_mut(&mut b);
                                (bind_pat(&c.inputs[0], &x), b)
                            }
                            Expr::Path(p) => {
                                let p = p.clone();
                                (vec![], parse_quote!(#p(#x)))
                            }
                            _ => {
                                self.errors.push("unsupported map argument".into());
                                return false;
                            }
                        };
                        self.note(&format!(".{}(..).collect() -> while loop pushing into a Vec", n2));
                        let y = format_ident!("__y{}", k);
                        let push: Vec<Stmt> = if n2 == "map" {
                            vec![parse_quote!(let #y = #body;), parse_quote!(#o.push(#y);)]
                        } else {
                            vec![parse_quote!(let mut #y = #body;), parse_quote!(#o.append(&mut #y);)]
                        };
                        let mut nb: syn::Block = parse_quote!({ let #x = #it.vtake(); #(#binds)* #(#push)* });
                        mark_loop(&mut nb, k);
                        let after = after_marker(k);
                        let decl = self.out_decl(k, parse_quote!(Vec::new()));
                        *e = parse_quote!({ #decl let mut #it = vinto(#src); while #it.vhas() #nb #after #o });
                        return true;
                    }
                }
                let mut r = (*m.receiver).clone();
                while let Expr::Paren(p) = r {
                    r = *p.expr;
                }
                if let Expr::Range(rg) = &r {
                    let k = self.nloops;
                    self.nloops += 1;
                    let (i, h, o) = (format_ident!("__i{}", k), format_ident!("__e{}", k), format_ident!("__o{}", k));
                    let lo = rg.start.clone();
                    let hi = rg.end.clone();
                    let mut nb: syn::Block = parse_quote!({ #o.push(#i); #i = #i + 1; });
                    mark_loop(&mut nb, k);
                    let after = after_marker(k);
                    self.note("(a..b).collect() -> while loop");
                    let decl = self.out_decl(k, parse_quote!(Vec::new()));
                    *e = parse_quote!({ #decl let #h = #hi; let mut #i = vsame(#h, #lo); while #i < #h #nb #after #o });
                    visit_only(self, e);
                    return true;
                }
                false
            }
            "find" | "any" | "all" | "position" if m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(_)) => {
                let c = match &m.args[0] {
                    Expr::Closure(c) => c.clone(),
                    _ => unreachable!(),
                };
                let k = self.nloops;
                self.nloops += 1;
                let mut src = (*m.receiver).clone();
                self.visit_expr_mut(&mut src);
                let (it, x, o) = (format_ident!("__it{}", k), format_ident!("__x{}", k), format_ident!("__o{}", k));
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                let binds = if name == "find" {
                    let r = format_ident!("__r{}", k);
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #r = &#x;)];
                    v.extend(bind_pat(&c.inputs[0], &r));
                    v
                } else {
                    bind_pat(&c.inputs[0], &x)
                };
                self.note(&format!(".{}(closure) -> while loop with early exit", name));
                let (init, hit): (Expr, Stmt) = match name.as_str() {
                    "find" => (parse_quote!(None), parse_quote!(if #body { #o = Some(#x); break; })),
                    "any" => (parse_quote!(false), parse_quote!(if #body { #o = true; break; })),
                    "all" => (parse_quote!(true), parse_quote!(if !(#body) { #o = false; break; })),
                    _ => {
                        self.errors.push("position".into());
                        return false;
                    }
                };
                let mut nb: syn::Block = parse_quote!({ let #x = #it.vtake(); #(#binds)* #hit });
                mark_loop(&mut nb, k);
                let after = after_marker(k);
                if name == "find" {
                    *e = parse_quote!({ let mut #it = vinto(#src); let mut #o = #it.vnone(); while #it.vhas() #nb #after #o });
                    return true;
                }
                *e = parse_quote!({ let mut #o = #init; let mut #it = vinto(#src); while #it.vhas() #nb #after #o });
                true
            }
            _ => false,
        }
    }
}

/// Replaces `&name` inside constructor patterns by a fresh name and gives `let name = *fresh;`.
fn deref_pats(p: &mut Pat, out: &mut Vec<Stmt>) {
    match p {
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| deref_pats(x, out)),
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| deref_pats(x, out)),
        Pat::Reference(r) => {
            if let Pat::Ident(i) = &*r.pat {
                let n = format_ident!("__ref_{}", i.ident);
                let pi = i.clone();
                out.push(parse_quote!(let #pi = *#n;));
                *p = parse_quote!(#n);
            }
        }
        _ => {}
    }
}

fn visit_only(_l: &mut Lower, _e: &mut Expr) {}

/// Binds `pat` to the variable `x`, turning `&p` patterns into explicit dereferences.
fn bind_pat(pat: &Pat, x: &proc_macro2::Ident) -> Vec<Stmt> {
    match pat {
        Pat::Wild(_) => vec![],
        Pat::Type(t) => bind_pat(&t.pat, x),
        Pat::Reference(r) => {
            // &p  =>  let y = *x; p = y
            match &*r.pat {
                Pat::Ident(i) if i.subpat.is_none() => {
                    let n = &i.ident;
                    vec![parse_quote!(let #n = *#x;)]
                }
                Pat::Tuple(t) => {
                    // &(ref a, b): field-wise
                    let mut v = vec![];
                    for (i, p) in t.elems.iter().enumerate() {
                        let ix = Index::from(i);
                        match p {
                            Pat::Ident(pi) if pi.by_ref.is_some() => {
                                let n = &pi.ident;
                                v.push(parse_quote!(let #n = &#x.#ix;));
                            }
                            Pat::Ident(pi) => {
                                let n = &pi.ident;
                                v.push(parse_quote!(let #n = #x.#ix;));
                            }
                            _ => {}
                        }
                    }
                    v
                }
                p => vec![parse_quote!(let #p = *#x;)],
            }
        }
        Pat::Tuple(t) if t.elems.iter().any(|p| matches!(p, Pat::Reference(_))) => {
            let mut v = vec![];
            let mut names: Vec<Pat> = vec![];
            let mut post: Vec<Stmt> = vec![];
            for (i, p) in t.elems.iter().enumerate() {
                if let Pat::Reference(_) = p {
                    let id = format_ident!("{}_p{}", x, i);
                    names.push(parse_quote!(#id));
                    post.extend(bind_pat(p, &id));
                } else {
                    names.push(p.clone());
                }
            }
            v.push(parse_quote!(let (#(#names),*) = #x;));
            v.extend(post);
            v
        }
        p => vec![parse_quote!(let #p = #x;)],
    }
}

/// Type-level rewrites: `p:A::B=C` (path prefix), `drop:E` (generic parameter and its `<E>` arguments
/// removed), `err:Error` (error values `Error::X(..)` become verr()), `own:cs` (a shared handle that the
/// function creates and hands out once becomes an owned value passed by `&mut`).
struct Mono {
    paths: Vec<(Vec<String>, Path)>,
    drops: Vec<String>,
    rms: Vec<String>,
    bare: Vec<String>,
    err: Option<String>,
    anyerr: bool,
    own: Vec<String>,
    notes: Vec<String>,
}
impl Mono {
    fn new(opts: &BTreeSet<String>) -> Mono {
        let mut m = Mono { paths: vec![], drops: vec![], rms: vec![], bare: vec![], err: None, anyerr: opts.contains("anyerr"), own: vec![], notes: vec![] };
        for o in opts {
            if let Some((a, b)) = o.strip_prefix("p:").and_then(|r| r.split_once('=')) {
                m.paths.push((a.split("::").map(|x| x.to_string()).collect(), parse_str(b).unwrap_or_else(|_| die("bad p: option"))));
            }
            if let Some(d) = o.strip_prefix("drop:") {
                m.drops.push(d.into());
            }
            if let Some(d) = o.strip_prefix("rm:") {
                m.rms.push(d.into());
            }
            if let Some(d) = o.strip_prefix("bare:") {
                m.bare.push(d.into());
            }
            if let Some(d) = o.strip_prefix("err:") {
                m.err = Some(d.into());
            }
            if let Some(d) = o.strip_prefix("own:") {
                m.own.push(d.into());
            }
        }
        m.paths.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
        m
    }
    fn generics(&mut self, g: &mut Generics) {
        let mut d = self.drops.clone();
        d.extend(self.rms.iter().cloned());
        if let Some(w) = &mut g.where_clause {
            w.predicates = w
                .predicates
                .iter()
                .filter(|p| !matches!(p, WherePredicate::Type(t) if d.contains(&t.bounded_ty.to_token_stream().to_string())))
                .cloned()
                .collect();
            if w.predicates.is_empty() {
                g.where_clause = None;
            }
        }
        g.params = g.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if d.contains(&t.ident.to_string()))).cloned().collect();
        if g.params.is_empty() {
            g.lt_token = None;
            g.gt_token = None;
        }
    }
}
impl VisitMut for Mono {
    fn visit_path_mut(&mut self, p: &mut Path) {
        for (from, to) in self.paths.clone() {
            if p.segments.len() >= from.len() && p.segments.iter().zip(&from).all(|(a, b)| a.ident == b) {
                let rest: Vec<PathSegment> = p.segments.iter().skip(from.len()).cloned().collect();
                let mut n = to.clone();
                n.segments.extend(rest);
                self.notes.push(format!("{} instantiated at {}", from.join("::"), to.to_token_stream().to_string().replace(' ', "")));
                *p = n;
                break;
            }
        }
        for s in p.segments.iter_mut() {
            if self.bare.contains(&s.ident.to_string()) {
                s.arguments = PathArguments::None;
            }
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let d = &self.drops;
                if !d.is_empty() {
                    a.args = a.args.iter().filter(|x| !d.contains(&x.to_token_stream().to_string())).cloned().collect();
                    if a.args.is_empty() {
                        s.arguments = PathArguments::None;
                    }
                }
            }
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                if s.ident == "Result" && a.args.len() == 2 && self.anyerr {
                    a.args = a.args.iter().take(1).cloned().collect();
                    self.notes.push("error type replaced by VErr".into());
                }
                if s.ident == "Result" && a.args.len() == 2 && self.err.as_deref() == Some(a.args[1].to_token_stream().to_string().as_str()) {
                    a.args = a.args.iter().take(1).cloned().collect();
                    self.notes.push("error type replaced by VErr".into());
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(er) = self.err.clone() {
            let is = |x: &Expr| matches!(x, Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == er.as_str());
            let text = |x: &Expr| matches!(x, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
            let hit = match e {
                // error texts of functions that return Result<_, String>
                Expr::MethodCall(m) if er == "String" => text(&m.receiver) && ["to_string", "into", "to_owned"].contains(&m.method.to_string().as_str()),
                Expr::Call(c) if er == "String" && c.args.len() == 1 && text(&c.args[0]) => c.func.to_token_stream().to_string().replace(' ', "") == "String::from",
                Expr::Call(c) => is(&c.func),
                ref x => is(x),
            };
            if hit {
                *e = parse_quote!(verr());
                self.notes.push("error value -> verr()".into());
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "clone" && simple_ident(&m.receiver).map(|i| self.own.contains(&i)).unwrap_or(false) {
                let r = m.receiver.clone();
                *e = parse_quote!(&mut #r);
                self.notes.push("clone of a handle created here -> &mut".into());
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut r) = syn::parse2::<RepeatArgs>(m.tokens.clone()) {
            self.visit_expr_mut(&mut r.0);
            self.visit_expr_mut(&mut r.1);
            let (a, b) = (&r.0, &r.1);
            m.tokens = quote!(#a; #b);
        } else if let Ok(mut l) = syn::parse2::<ListArgs>(m.tokens.clone()) {
            for x in l.0.iter_mut() {
                self.visit_expr_mut(x);
            }
            let xs = &l.0;
            m.tokens = quote!(#(#xs),*);
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Ident(i) = &mut l.pat {
            if self.own.contains(&i.ident.to_string()) {
                i.mutability = Some(Default::default());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
}

/// Byte-string constants of the file, put in place of their names.
struct ConstInline {
    m: HashMap<String, Expr>,
    local: BTreeSet<String>,
    n: usize,
    bad: Option<String>,
}
/// The value of an integer constant expression.
fn const_int(e: &Expr, all: &HashMap<String, (Type, Expr)>, depth: usize) -> Option<i128> {
    if depth > 8 {
        return None;
    }
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse().ok(),
            _ => None,
        },
        Expr::Paren(p) => const_int(&p.expr, all, depth),
        Expr::Group(p) => const_int(&p.expr, all, depth),
        Expr::Cast(c) => const_int(&c.expr, all, depth).filter(|v| *v >= 0 && *v < 1 << 31),
        Expr::Path(p) => {
            let x = p.path.segments.last()?.ident.to_string();
            const_int(&all.get(&x)?.1, all, depth + 1)
        }
        Expr::Binary(b) => {
            let (x, y) = (const_int(&b.left, all, depth)?, const_int(&b.right, all, depth)?);
            match b.op {
                BinOp::Add(_) => x.checked_add(y),
                BinOp::Sub(_) => x.checked_sub(y),
                BinOp::Mul(_) => x.checked_mul(y),
                BinOp::Shl(_) if y < 100 && y >= 0 => x.checked_mul(1 << y),
                _ => None,
            }
        }
        _ => None,
    }
}
impl ConstInline {
    fn new(f: &File, known: &BTreeSet<String>, block: &syn::Block) -> ConstInline {
        let mut all: HashMap<String, (Type, Expr)> = HashMap::new();
        let mut local = BTreeSet::new();
        for it in &f.items {
            match it {
                Item::Const(c) if !is_test(&c.attrs) => {
                    all.insert(c.ident.to_string(), ((*c.ty).clone(), (*c.expr).clone()));
                }
                Item::Impl(im) if im.trait_.is_none() => {
                    for x in &im.items {
                        if let ImplItem::Const(c) = x {
                            all.insert(c.ident.to_string(), (c.ty.clone(), c.expr.clone()));
                        }
                    }
                }
                _ => {}
            }
        }
        for s in &block.stmts {
            if let Stmt::Item(Item::Const(c)) = s {
                all.insert(c.ident.to_string(), ((*c.ty).clone(), (*c.expr).clone()));
                local.insert(c.ident.to_string());
            }
        }
        let mut m = HashMap::new();
        for (n, (t, e)) in &all {
            if known.contains(n) && !local.contains(n) {
                continue;
            }
            let ts = t.to_token_stream().to_string();
            if is_bytestr(e) {
                m.insert(n.clone(), e.clone());
            } else if ["u8", "u16", "u32", "u64", "usize", "i32", "i64", "i8", "i16", "isize", "u128", "i128"].contains(&ts.as_str()) {
                if let Some(v) = const_int(e, &all, 0).filter(|v| *v >= 0) {
                    let l: Lit = parse_str(&format!("{}{}", v, ts)).unwrap();
                    m.insert(n.clone(), parse_quote!(#l));
                }
            } else if matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_) | Lit::Bool(_) | Lit::Char(_))) {
                m.insert(n.clone(), e.clone());
            }
        }
        let local = local.into_iter().filter(|x| m.contains_key(x)).collect();
        ConstInline { m, local, n: 0, bad: None }
    }
}
impl VisitMut for ConstInline {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let id = match e {
            Expr::Path(p) if p.path.segments.len() <= 2 && p.qself.is_none() => p.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        };
        if let Some(x) = id.and_then(|i| self.m.get(&i).cloned()) {
            *e = x;
            self.n += 1;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if let Some(x) = self.m.get(&i.ident.to_string()) {
                match x {
                    Expr::Lit(l) => *p = Pat::Lit(l.clone()),
                    _ => self.bad = Some("a constant as a pattern".into()),
                }
                self.n += 1;
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let t = m.tokens.clone();
        if mac_name(m) == "vec" {
            if let Ok(mut r) = syn::parse2::<RepeatArgs>(t) {
                let was = self.n;
                self.visit_expr_mut(&mut r.0);
                self.visit_expr_mut(&mut r.1);
                let (a, b) = (r.0, r.1);
                if self.n > was {
                    m.tokens = quote!(#a; #b);
                }
            }
        }
    }
}

/// Instantiates a generic type parameter.
struct Inst {
    g: String,
    ty: Type,
}
impl VisitMut for Inst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.is_ident(&self.g) {
                *t = self.ty.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn emit_fn(f: &File, fname: &str, b: &Block, known: &Known) -> (String, serde_json::Value) {
    let found = find_fn(f, &b.path).unwrap_or_else(|| die(&format!("function {} not found in {} (or outside the translation)", b.path, fname)));
    let mut sig = found.sig.clone();
    let src_line = sig.ident.span().start().line;
    let mut block = found.block.clone();
    let mut lw = Lower { nloops: 0, rewrites: Default::default(), opts: b.opts.clone(), errors: vec![] };
    let mut inl = inline::Inliner {
        f,
        known: &known.fns,
        words: &known.words,
        self_ty: found.self_ty.as_ref().map(|t| t.to_token_stream().to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string()),
        stack: vec![b.path.rsplit("::").next().unwrap().to_string(), b.path.clone()],
        n: 0,
        fresh: 0,
        ret_option: matches!(&sig.output, ReturnType::Type(_, t) if t.to_token_stream().to_string().starts_with("Option")),
        local: inline::nested(&block),
    };
    inl.body(&mut block);
    let ninl = inl.n;
    let mut ci = ConstInline::new(f, &known.consts, &block);
    block.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Const(c)) if ci.local.contains(&c.ident.to_string())));
    ci.visit_block_mut(&mut block);
    if let Some(r) = &ci.bad {
        die(&format!("{}: {}", b.path, r));
    }
    let mut lift = Lift { m: HashMap::new(), n: 0 };
    let mut ncap = 0;
    for o in &b.opts {
        if let Some((n, v)) = o.strip_prefix("lift:").and_then(|r| r.split_once(':')) {
            lift.m.insert(n.to_string(), v.split(',').map(|x| parse_str(x).unwrap()).collect());
        }
        if let Some((n, t)) = o.strip_prefix("cap:").and_then(|r| r.split_once(':')) {
            let (n, t): (Ident, Type) = (format_ident!("{}", n), parse_str(t).unwrap_or_else(|_| die("bad cap: option")));
            sig.inputs.insert(ncap, parse_quote!(#n: #t));
            ncap += 1;
        }
    }
    lift.visit_block_mut(&mut block);
    if ncap > 0 {
        lw.note("local closure -> function of its captures");
    }
    if lift.n > 0 {
        lw.note("calls of a local closure -> calls of the lifted function");
    }
    if b.opts.contains("thunks") {
        let mut th = Thunks { n: 0, bad: vec![] };
        th.visit_block_mut(&mut block);
        if !th.bad.is_empty() {
            die(&format!("{}: unsupported: {}", b.path, th.bad.join(", ")));
        }
        for _ in 0..th.n {
            lw.note("parameterless closure handed to a call -> its value (evaluated in place)");
        }
    }
    let mut mono = Mono::new(&b.opts);
    mono.generics(&mut sig.generics);
    mono.visit_signature_mut(&mut sig);
    mono.visit_block_mut(&mut block);
    for n in &mono.notes {
        lw.note(n);
    }
    for _ in 0..ninl {
        lw.note("call of a function without contract -> its body in place");
    }
    for _ in 0..ci.n {
        lw.note("constant replaced by its value");
    }
    lw.visit_block_mut(&mut block);
    lw.visit_signature_mut(&mut sig);
    if !lw.errors.is_empty() {
        die(&format!("{}: unsupported: {}", b.path, lw.errors.join(", ")));
    }
    for o in &b.opts {
        if let Some((g, t)) = o.strip_prefix("g:").and_then(|r| r.split_once('=')) {
            let ty: Type = parse_str(t).unwrap_or_else(|_| die("bad g: option"));
            sig.generics.params = sig
                .generics
                .params
                .iter()
                .filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == g))
                .cloned()
                .collect();
            let mut iv = Inst { g: g.to_string(), ty };
            iv.visit_signature_mut(&mut sig);
            iv.visit_block_mut(&mut block);
            lw.note(&format!("generic parameter {} instantiated at {}", g, t));
        }
    }
    if let Some(names) = b.opts.iter().find_map(|o| o.strip_prefix("world=")) {
        let mut wd = World { names: names.split(',').map(|x| x.to_string()).collect(), n: 0 };
        wd.visit_block_mut(&mut block);
        let at = if matches!(sig.inputs.first(), Some(FnArg::Receiver(_))) { 1 } else { 0 };
        if wd.n > 0 || wd.names.contains(&b.path) || b.spec.contains("__w") {
            sig.inputs.insert(at, parse_quote!(__w: &mut World));
        }
        for _ in 0..wd.n {
            lw.note("file operation or command call -> the same with the file system's state passed along");
        }
    }
    let wanted = b.loops.len();
    if lw.nloops != wanted {
        die(&format!("{}: {} loops in the source, {} annotated", b.path, lw.nloops, wanted));
    }
    if b.has.len() > 1 && !reordered(&block.to_token_stream().to_string(), &b.has).is_empty() {
        die(&format!("{}: its loops come in another order", b.path));
    }
    // end-of-function anchor: name the tail expression
    // RX_VACUITY: every function must then FAIL at its end (its preconditions and callees are consistent)
    let vac = std::env::var("RX_VACUITY").is_ok();
    let has_end = vac || b.at.iter().any(|(a, _)| a == "end");
    if has_end {
        if let Some(Stmt::Expr(t, None)) = block.stmts.last().cloned() {
            block.stmts.pop();
            block.stmts.push(parse_quote!(let __ret = #t;));
            block.stmts.push(parse_quote!(__VEND!();));
            block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
        } else {
            block.stmts.push(parse_quote!(__VEND!();));
        }
    }
    if let Some(n) = &b.name_as {
        sig.ident = format_ident!("{}", n);
    }
    let name = sig.ident.to_string();
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => match &b.ret {
            Some(r) => format!(" -> ({}: {})", r, t.to_token_stream()),
            None => format!(" -> {}", t.to_token_stream()),
        },
    };
    let gens = sig.generics.clone();
    let wh = gens.where_clause.clone().map(|w| w.to_token_stream().to_string()).unwrap_or_default();
    let inputs = &sig.inputs;
    let mut g2 = gens.clone();
    g2.where_clause = None;
    let vis = if b.opts.contains("nopub") { "" } else { "pub " };
    // facts from before a loop stay available inside it, unless the template says otherwise
    let iso = if b.opts.contains("isolate") {
        "#[verifier::loop_isolation(true)]\n"
    } else if b.loops.iter().any(|(_, i)| i.contains("invariant_except_break") || i.contains("ensures")) {
        "#[verifier::allow_complex_invariants]\n"
    } else {
        ""
    };
    let mut text = format!(
        "{}{}fn {}{}({}){} {}\n{}\n",
        iso,
        vis,
        name,
        g2.to_token_stream(),
        quote!(#inputs),
        ret,
        wh,
        b.spec
    );
    let body = pretty(&block.to_token_stream().to_string());
    let mut body = body;
    for (k, inv) in &b.loops {
        let m = format!("__VLOOP_{} ! () ;", k);
        let at_start: String = b.at.iter().filter(|(a, _)| *a == format!("loop-start {}", k)).map(|x| x.1.clone()).collect();
        let at_end: String = b.at.iter().filter(|(a, _)| *a == format!("loop-end {}", k)).map(|x| x.1.clone()).collect();
        let at_after: String = b.at.iter().filter(|(a, _)| *a == format!("after-loop {}", k)).map(|x| x.1.clone()).collect();
        // header: find "{" before the marker
        let pos = body.find(&m).unwrap_or_else(|| die(&format!("{}: loop marker {} lost", b.path, k)));
        let brace = body[..pos].rfind('{').unwrap();
        let mut pre = body[..brace].to_string();
        let at_before: String = b.at.iter().filter(|(a, _)| *a == format!("before-loop {}", k)).map(|x| x.1.clone()).collect();
        if !at_before.is_empty() {
            let h = pre.rfind("while").max(pre.rfind("loop")).unwrap();
            pre.insert_str(h, &format!("\n{}\n", at_before));
        }
        let post = body[pos + m.len()..].to_string();
        body = format!("{}\n{}\n{{\n{}{}", pre, inv, at_start, post);
        body = body.replace(&format!("__VLOOP_{}_END ! () ;", k), &at_end);
        if !at_after.is_empty() && !body.contains(&format!("__VLOOP_{}_AFTER", k)) {
            die(&format!("{}: no place after loop {}", b.path, k));
        }
        body = body.replace(&format!("__VLOOP_{}_AFTER ! () ;", k), &at_after);
    }
    for (a, _) in &b.at {
        let known = ["loop-start ", "loop-end ", "after-loop ", "before-loop "].iter().any(|k| a.strip_prefix(k).map_or(false, |n| b.loops.iter().any(|(m, _)| m.to_string() == n.trim())));
        if !(known || a == "start" || a == "end" || a.starts_with("before ") || a.starts_with("after ")) {
            die(&format!("{}: unknown place {}", b.path, a));
        }
    }
    let start: String = b.at.iter().filter(|(a, _)| a == "start").map(|x| x.1.clone()).collect();
    let end: String = b.at.iter().filter(|(a, _)| a == "end").map(|x| x.1.clone()).collect();
    let end = if vac { "\nproof { assert(false); }\n".to_string() } else { end };
    body = body.replace("__VEND ! () ;", &end);
    // pattern anchors
    for (a, t) in &b.at {
        for kind in ["before ", "after "] {
            if let Some(p) = a.strip_prefix(kind) {
                let p = p.trim().trim_matches('"');
                let mut lines: Vec<String> = body.lines().map(|s| s.to_string()).collect();
                match lines.iter().position(|l| l.contains(p)) {
                    Some(i) => lines.insert(if kind == "before " { i } else { i + 1 }, t.clone()),
                    None => die(&format!("{}: anchor \"{}\" not found", b.path, p)),
                }
                body = lines.join("\n");
            }
        }
    }
    if !start.is_empty() {
        let i = body.find('{').unwrap();
        body.insert_str(i + 1, &format!("\n{}", start));
    }
    text.push_str(&body);
    text.push('\n');
    if let Some(ty) = &found.self_ty {
        let mut g = found.generics.clone().unwrap();
        let w = g.where_clause.take();
        text = format!("impl{} {} {} {{\n{}}}\n", g.to_token_stream(), ty.to_token_stream(), w.to_token_stream(), text);
    }
    let info = json!({"kind": "fn", "name": b.path, "as": name, "file": fname, "line": src_line, "rewrites": lw.rewrites, "loops": lw.nloops});
    (text, info)
}

/// The `fn` directive for `path` in proofs/<unit>.vr: its contract and signature options.
fn contract_of(tdir: &std::path::Path, unit: &str, path: &str, alias: &str) -> Block {
    let t = std::fs::read_to_string(tdir.join(format!("{}.vr", unit))).unwrap_or_else(|_| die(&format!("no unit {}", unit)));
    let mut gopts: Vec<String> = vec![];
    let mut b: Option<Block> = None;
    for line in t.lines() {
        let d = line.trim().strip_prefix("//@@ ");
        if let Some(b) = &mut b {
            if d.is_some() {
                break;
            }
            b.spec.push_str(line);
            b.spec.push('\n');
            continue;
        }
        let w: Vec<&str> = d.unwrap_or("").split_whitespace().collect();
        if w.first() == Some(&"opts") {
            gopts = w[1..].iter().map(|x| x.to_string()).collect();
        }
        if w.first() == Some(&"fn") && w.get(2) == Some(&path) {
            let mut n = Block { file: alias.into(), path: path.into(), ..Default::default() };
            let mut i = 3;
            while i < w.len() {
                match w[i] {
                    "->" => {
                        n.ret = Some(w[i + 1].into());
                        i += 2;
                    }
                    "as" => i += 2,
                    o => {
                        n.opts.insert(o.into());
                        i += 1;
                    }
                }
            }
            n.opts.extend(gopts.iter().cloned());
            b = Some(n);
        }
    }
    b.unwrap_or_else(|| die(&format!("unit {} has no contract for {}", unit, path)))
}

/// A function whose body another unit proves: its signature and contract, without the body.
fn emit_callee(f: &File, fname: &str, b: Block, unit: &str, extra: &[&str]) -> (String, serde_json::Value) {
    let found = find_fn(f, &b.path).unwrap_or_else(|| die(&format!("function {} not found in {}", b.path, fname)));
    let mut sig = found.sig.clone();
    let mut mono = Mono::new(&b.opts);
    mono.generics(&mut sig.generics);
    mono.visit_signature_mut(&mut sig);
    let mut lw = Lower { nloops: 0, rewrites: Default::default(), opts: b.opts.clone(), errors: vec![] };
    lw.visit_signature_mut(&mut sig);
    for o in &b.opts {
        if let Some((g, t)) = o.strip_prefix("g:").and_then(|r| r.split_once('=')) {
            let ty: Type = parse_str(t).unwrap_or_else(|_| die("bad g: option"));
            sig.generics.params = sig.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == g)).cloned().collect();
            Inst { g: g.to_string(), ty }.visit_signature_mut(&mut sig);
        }
    }
    let mut spec = b.spec.clone();
    if extra.contains(&"reads") {
        // a file is read: only while nothing has been written
        let at = if matches!(sig.inputs.first(), Some(FnArg::Receiver(_))) { 1 } else { 0 };
        sig.inputs.insert(at, parse_quote!(__w: &World));
        spec = if spec.trim_start().starts_with("requires") { spec.replacen("requires", "requires __w.clean(), // [C17]\n", 1) } else { format!("    requires __w.clean() // [C17]\n{}", spec) };
    }
    if extra.contains(&"world") {
        // the file system's state is passed along, as the call sites are written
        sig.inputs.insert(0, parse_quote!(__w: &mut World));
    }
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => match &b.ret {
            Some(r) => format!(" -> ({}: {})", r, t.to_token_stream()),
            None => format!(" -> {}", t.to_token_stream()),
        },
    };
    let mut g2 = sig.generics.clone();
    let wh = g2.where_clause.take().map(|w| w.to_token_stream().to_string()).unwrap_or_default();
    let inputs = &sig.inputs;
    let mut text = format!(
        "// contract proved in unit {}\n#[verifier::external_body]\npub fn {}{}({}){} {}\n{}\n{{ unimplemented!() }}\n",
        unit, sig.ident, g2.to_token_stream(), quote!(#inputs), ret, wh, spec
    );
    if let Some(ty) = &found.self_ty {
        let mut g = found.generics.clone().unwrap();
        let w = g.where_clause.take();
        text = format!("impl{} {} {} {{\n{}}}\n", g.to_token_stream(), ty.to_token_stream(), w.to_token_stream(), text);
    }
    (text, json!({"kind": "callee", "name": b.path, "as": sig.ident.to_string(), "file": fname, "unit": unit}))
}

/// Puts line breaks into a token string so that verifier messages point at useful places.
fn pretty(s: &str) -> String {
    let mut o = String::new();
    let mut in_str = false;
    let mut paren = 0i32;
    let mut prev = ' ';
    for c in s.chars() {
        if c == '"' && prev != '\\' {
            in_str = !in_str;
        }
        if !in_str {
            if c == '(' || c == '[' {
                paren += 1
            }
            if c == ')' || c == ']' {
                paren -= 1
            }
        }
        o.push(c);
        if !in_str && (c == ';' && paren == 0 || c == '{' || c == '}') {
            o.push('\n');
        }
        prev = c;
    }
    // re-join what the marker replacement expects
    o.replace("! {\n}", "! {}")
}
