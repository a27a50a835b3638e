//! Calls of functions which the template does not name (a helper someone factored out) are replaced by the
//! helper's body, so that the caller's contract is checked against what runs. Anything this cannot do exactly
//! (recursion, an early return from the middle, a name that would be captured) is refused: the unit is LOST.
use super::*;

pub struct Inliner<'a> {
    pub f: &'a File,
    pub known: &'a BTreeSet<String>, // functions under contract or mapped to shims, by path
    pub words: &'a BTreeSet<String>, // every word of the template
    pub self_ty: Option<String>,
    pub stack: Vec<String>,
    pub n: usize,
    pub fresh: usize,
    pub ret_option: bool, // the caller returns an Option
    pub local: Vec<ItemFn>, // nested functions of the caller
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Tail,
    Plain,
    TryResult,
    TryOption,      // `h()?` in a function that returns an Option
    OptionToResult, // `h().context(..)?`
}

struct Helper {
    sig: Signature,
    block: syn::Block,
    self_ty: Option<String>,
    name: String,
}

fn ret_kind(sig: &Signature) -> &'static str {
    if let ReturnType::Type(_, t) = &sig.output {
        if let Type::Path(p) = &**t {
            let s = p.path.segments.last().unwrap().ident.to_string();
            if s == "Result" {
                return "Result";
            }
            if s == "Option" {
                return "Option";
            }
        }
    }
    ""
}

fn impl_name(im: &ItemImpl) -> String {
    let ty = im.self_ty.to_token_stream().to_string();
    ty.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string()
}

/// A place without side effects: x, x.y, x.0.y
fn place_root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).filter(|s| s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_')),
        Expr::Field(x) => place_root(&x.base),
        Expr::Paren(p) => place_root(&p.expr),
        _ => None,
    }
}

enum Arg {
    Place(Expr),       // p stands for the place itself (value or reference variable)
    RefTo(Expr, bool), // p stands for &place / &mut place
}

struct Subst {
    m: HashMap<String, Arg>,
    ren: HashMap<String, Ident>,
    self_to: Option<Path>,
    bad: Option<String>,
}
impl Subst {
    fn get(&self, e: &Expr) -> Option<&Arg> {
        simple_ident(e).and_then(|i| self.m.get(&i))
    }
    fn under(&self, e: &Expr) -> Option<Expr> {
        match self.get(e) {
            Some(Arg::RefTo(x, _)) => Some(x.clone()),
            _ => None,
        }
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(x) = self.under(&u.expr) {
                    *e = x;
                    return;
                }
            }
            Expr::Field(x) => {
                if let Some(y) = self.under(&x.base) {
                    *x.base = y;
                    return;
                }
            }
            Expr::Index(x) => {
                if let Some(y) = self.under(&x.expr) {
                    *x.expr = y;
                    self.visit_expr_mut(&mut x.index);
                    return;
                }
            }
            Expr::MethodCall(x) => {
                if let Some(y) = self.under(&x.receiver) {
                    if x.method != "into_iter" {
                        *x.receiver = y;
                        for a in x.args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        return;
                    }
                }
            }
            _ => {}
        }
        if let Some(i) = simple_ident(e) {
            match self.m.get(&i) {
                Some(Arg::Place(x)) => {
                    *e = x.clone();
                    return;
                }
                Some(Arg::RefTo(x, true)) => {
                    *e = parse_quote!(&mut #x);
                    return;
                }
                Some(Arg::RefTo(x, false)) => {
                    *e = parse_quote!(&#x);
                    return;
                }
                None => {}
            }
            if let Some(n) = self.ren.get(&i) {
                *e = parse_quote!(#n);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.colon_token = Some(Default::default());
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            let s = i.ident.to_string();
            if self.m.contains_key(&s) {
                self.bad = Some(format!("{} is bound again", s));
            }
            if let Some(n) = self.ren.get(&s) {
                i.ident = n.clone();
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        f.colon_token = Some(Default::default());
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(t) = &self.self_to {
            if p.segments[0].ident == "Self" {
                let mut segs: Vec<PathSegment> = t.segments.iter().cloned().collect();
                segs.extend(p.segments.iter().skip(1).cloned());
                p.segments = segs.into_iter().collect();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let n = mac_name(m);
        if ["println", "eprintln", "print", "eprint", "bail", "anyhow"].contains(&n.as_str()) {
            return; // dropped, with its text
        }
        let t = m.tokens.clone();
        if n == "format" {
            let s = t.to_string();
            if self.m.keys().chain(self.ren.keys()).any(|k| s.contains(&format!("{{{}}}", k)) || s.contains(&format!("{{{}:", k))) {
                self.bad = Some("a name inside a format text".into());
            }
        }
        if let Ok(mut r) = syn::parse2::<RepeatArgs>(t.clone()) {
            self.visit_expr_mut(&mut r.0);
            self.visit_expr_mut(&mut r.1);
            let (a, b) = (r.0, r.1);
            m.tokens = quote!(#a; #b);
        } else if let Ok(mut l) = syn::parse2::<ListArgs>(t) {
            for x in l.0.iter_mut() {
                self.visit_expr_mut(x);
            }
            let xs = &l.0;
            m.tokens = quote!(#(#xs),*);
        } else {
            self.bad = Some(format!("macro {}", n));
        }
    }
}

#[derive(Default)]
struct Names(BTreeSet<String>);
impl VisitMut for Names {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            self.0.insert(i.ident.to_string());
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

/// Assigned (or borrowed mutably) names.
#[derive(Default)]
struct Assigned(BTreeSet<String>);
impl VisitMut for Assigned {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let t = match e {
            Expr::Assign(a) => Some(&*a.left),
            Expr::Binary(b) if b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) => Some(&*b.left),
            Expr::Reference(r) if r.mutability.is_some() => Some(&*r.expr),
            _ => None,
        };
        if let Some(s) = t.and_then(simple_ident) {
            self.0.insert(s);
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Returns that would leave the caller, `?` included; closures are not entered (a `?` in them is theirs).
struct Exits {
    keep: Mode,
    left: bool,
    tries: bool,
}
fn call_of<'e>(e: &'e Expr, f: &str) -> Option<&'e Expr> {
    if let Expr::Call(c) = e {
        if c.args.len() == 1 && simple_ident(&c.func).as_deref() == Some(f) {
            return Some(&c.args[0]);
        }
    }
    None
}
fn is_bail(e: &Expr) -> bool {
    matches!(e, Expr::Macro(m) if mac_name(&m.mac) == "bail")
}
/// Does this exit leave the caller in the same way?
fn kept(e: &Expr, m: Mode) -> bool {
    match m {
        Mode::Tail => true,
        Mode::TryResult => call_of(e, "Err").is_some(),
        Mode::TryOption | Mode::OptionToResult => simple_ident(e).as_deref() == Some("None"),
        Mode::Plain => false,
    }
}
impl VisitMut for Exits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => return,
            Expr::Return(r) => {
                match &r.expr {
                    Some(x) if kept(x, self.keep) => {
                        if self.keep == Mode::OptionToResult {
                            *e = parse_quote!(return Err(verr()));
                        }
                    }
                    _ => self.left = true,
                }
                return;
            }
            Expr::Try(_) => self.tries = true,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if mac_name(m) == "bail" && !matches!(self.keep, Mode::TryResult | Mode::Tail) {
            self.left = true;
        }
    }
}

/// `if c { ..; return x; } rest` -> `if c { ..; x } else { rest }`, for returns that do not leave the caller as they are.
fn tailify(b: &mut syn::Block, m: Mode) {
    let mut i = 0;
    while i < b.stmts.len() {
        if let Stmt::Expr(Expr::If(x), _) = &b.stmts[i] {
            let last_ret = |b: &syn::Block| match b.stmts.last() {
                Some(Stmt::Expr(Expr::Return(r), _)) => r.expr.as_ref().map_or(m == Mode::Plain, |v| !kept(v, m)),
                _ => false,
            };
            let rest_follows = i + 1 < b.stmts.len();
            if last_ret(&x.then_branch) && rest_follows {
                let mut x = x.clone();
                let mut rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
                b.stmts.pop();
                let els: Vec<Stmt> = match x.else_branch.take() {
                    None => vec![],
                    Some((_, e)) => match *e {
                        Expr::Block(eb) => eb.block.stmts,
                        e => vec![Stmt::Expr(e, Some(Default::default()))],
                    },
                };
                let mut els: Vec<Stmt> = els
                    .into_iter()
                    .map(|s| match s {
                        Stmt::Expr(e, None) => Stmt::Expr(e, Some(Default::default())),
                        s => s,
                    })
                    .collect();
                els.append(&mut rest);
                let eb: syn::Block = parse_quote!({ #(#els)* });
                x.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: eb }))));
                b.stmts.push(Stmt::Expr(Expr::If(x), None));
                break;
            }
        }
        i += 1;
    }
    if let Some(Stmt::Expr(e, s)) = b.stmts.last_mut() {
        if matches!(e, Expr::Return(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_)) {
            if let Expr::Return(r) = e {
                if r.expr.as_ref().map_or(true, |v| kept(v, m)) && m != Mode::Plain {
                    return;
                }
                *e = match r.expr.take() {
                    Some(x) => *x,
                    None => parse_quote!(()),
                };
                *s = None;
            }
            tail_expr(e, m);
        }
    }
}
fn tail_expr(e: &mut Expr, m: Mode) {
    match e {
        Expr::If(x) => {
            tailify(&mut x.then_branch, m);
            if let Some((_, e)) = &mut x.else_branch {
                tail_expr(e, m);
            }
        }
        Expr::Match(x) => {
            for a in x.arms.iter_mut() {
                if let Expr::Return(r) = &*a.body {
                    if let Some(v) = r.expr.clone() {
                        if !kept(&v, m) {
                            *a.body = *v;
                        }
                    }
                }
                tail_expr(&mut a.body, m);
            }
        }
        Expr::Block(x) => tailify(&mut x.block, m),
        _ => {}
    }
}

/// The value of the tail where `?` (and a context) follows the call.
fn conv_block(b: &mut syn::Block, m: Mode) -> std::result::Result<(), String> {
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e, s)) => {
            if s.is_some() && !matches!(e, Expr::Return(_) | Expr::If(_) | Expr::Match(_)) {
                return Err("no value at the end".into());
            }
            conv(e, m)
        }
        Some(Stmt::Macro(x)) if mac_name(&x.mac) == "bail" => Ok(()),
        _ => Err("no value at the end".into()),
    }
}
fn conv(e: &mut Expr, m: Mode) -> std::result::Result<(), String> {
    if is_bail(e) {
        return Ok(());
    }
    if let Expr::Return(_) = e {
        return Ok(()); // checked by Exits
    }
    match e {
        Expr::If(x) => {
            conv_block(&mut x.then_branch, m)?;
            match &mut x.else_branch {
                Some((_, e)) => return conv(e, m),
                None => return Err("if without else at the end".into()),
            }
        }
        Expr::Match(x) => {
            for a in x.arms.iter_mut() {
                conv(&mut a.body, m)?;
            }
            return Ok(());
        }
        Expr::Block(x) if x.label.is_none() => return conv_block(&mut x.block, m),
        Expr::Paren(x) => return conv(&mut x.expr, m),
        _ => {}
    }
    let (yes, no) = if m == Mode::TryResult { ("Ok", "Err") } else { ("Some", "None") };
    if let Some(v) = call_of(e, yes) {
        *e = v.clone();
        return Ok(());
    }
    if call_of(e, no).is_some() || simple_ident(e).as_deref() == Some(no) {
        let x = e.clone();
        *e = match m {
            Mode::OptionToResult => parse_quote!(return Err(verr())),
            _ => parse_quote!(return #x),
        };
        return Ok(());
    }
    let x = e.clone();
    *e = match m {
        Mode::OptionToResult => parse_quote!((#x).context("")?),
        _ => parse_quote!((#x)?),
    };
    Ok(())
}

impl<'a> Inliner<'a> {
    fn helper(&self, e: &Expr) -> Option<(Helper, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => &p.path,
                    _ => return None,
                };
                let mut segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs[0] == "self" && segs.len() > 1 {
                    segs.remove(0);
                }
                if segs.len() == 1 {
                    if self.known.contains(&segs[0]) {
                        return None;
                    }
                    if let Some(x) = self.local.iter().find(|x| x.sig.ident == segs[0]) {
                        return Some((Helper { sig: x.sig.clone(), block: (*x.block).clone(), self_ty: self.self_ty.clone(), name: segs[0].clone() }, c.args.iter().cloned().collect()));
                    }
                    let x = self.f.items.iter().find_map(|it| match it {
                        Item::Fn(x) if x.sig.ident == segs[0] && !is_test(&x.attrs) => Some(x),
                        _ => None,
                    })?;
                    return Some((Helper { sig: x.sig.clone(), block: (*x.block).clone(), self_ty: None, name: segs[0].clone() }, c.args.iter().cloned().collect()));
                }
                if segs.len() == 2 {
                    let ty = if segs[0] == "Self" { self.self_ty.clone()? } else { segs[0].clone() };
                    let path = format!("{}::{}", ty, segs[1]);
                    if self.known.contains(&path) || self.known.contains(&segs.join("::")) {
                        return None;
                    }
                    let m = self.method(&ty, &segs[1])?;
                    return Some((Helper { sig: m.sig.clone(), block: m.block.clone(), self_ty: Some(ty), name: path }, c.args.iter().cloned().collect()));
                }
                None
            }
            Expr::MethodCall(c) => {
                let n = c.method.to_string();
                let me = matches!(&*c.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let ty = if me {
                    self.self_ty.clone()?
                } else {
                    // by name alone: only a name that neither the template nor a second type has
                    if self.words.contains(&n) {
                        return None;
                    }
                    let mut own: Vec<String> = self.f.items.iter().filter_map(|it| match it {
                        Item::Impl(im) if im.trait_.is_none() && im.items.iter().any(|x| matches!(x, ImplItem::Fn(m) if m.sig.ident == n)) => Some(impl_name(im)),
                        _ => None,
                    }).collect();
                    if own.len() != 1 {
                        return None;
                    }
                    own.pop().unwrap()
                };
                let path = format!("{}::{}", ty, n);
                if self.known.contains(&path) || self.known.contains(&n) {
                    return None;
                }
                let m = self.method(&ty, &n)?;
                m.sig.receiver()?;
                let mut a = vec![(*c.receiver).clone()];
                a.extend(c.args.iter().cloned());
                Some((Helper { sig: m.sig.clone(), block: m.block.clone(), self_ty: Some(ty), name: path }, a))
            }
            _ => None,
        }
    }

    fn method(&self, ty: &str, n: &str) -> Option<&'a ImplItemFn> {
        self.f.items.iter().find_map(|it| match it {
            Item::Impl(im) if im.trait_.is_none() && impl_name(im) == ty => im.items.iter().find_map(|x| match x {
                ImplItem::Fn(m) if m.sig.ident == n => Some(m),
                _ => None,
            }),
            _ => None,
        })
    }

    fn expand(&mut self, h: Helper, mut args: Vec<Expr>, m: Mode) -> Expr {
        let no = |r: &str| -> ! { die(&format!("helper {} cannot be put in place: {}", h.name, r)) };
        if self.stack.contains(&h.name) || self.stack.len() > 8 {
            no("it is recursive");
        }
        if h.sig.asyncness.is_some() || h.sig.unsafety.is_some() || h.sig.inputs.len() != args.len() {
            no("its kind");
        }
        for a in args.iter_mut() {
            self.visit_expr_mut(a);
        }
        self.fresh += 1;
        self.n += 1;
        let k = self.fresh;
        let mut body = h.block.clone();
        // its own calls first
        let (st, local, ro) = (self.self_ty.clone(), std::mem::take(&mut self.local), self.ret_option);
        let own_rets = ret_kind(&h.sig);
        self.self_ty = h.self_ty.clone();
        self.ret_option = own_rets == "Option";
        self.local = nested(&body);
        self.stack.push(h.name.clone());
        self.body(&mut body);
        self.stack.pop();
        self.self_ty = st;
        self.local = local;
        self.ret_option = ro;
        body.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Fn(_))));

        let generic = !h.sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_)));
        let mut asg = Assigned::default();
        asg.visit_block_mut(&mut body.clone());
        let mut names = Names::default();
        names.visit_block_mut(&mut body.clone());
        // which arguments may stand for themselves
        let busy = args.iter().any(|a| {
            let a = if let Expr::Reference(r) = a { &*r.expr } else { a };
            place_root(a).is_none() && !matches!(a, Expr::Lit(_))
        });
        let muts: BTreeSet<String> = args
            .iter()
            .zip(h.sig.inputs.iter())
            .filter_map(|(a, p)| match (a, p) {
                (Expr::Reference(r), _) if r.mutability.is_some() => place_root(&r.expr),
                (a, FnArg::Receiver(r)) if r.reference.is_some() && r.mutability.is_some() => place_root(a),
                _ => None,
            })
            .collect();
        let mut sub = Subst { m: HashMap::new(), ren: HashMap::new(), self_to: None, bad: None };
        let mut lets: Vec<Stmt> = vec![];
        let mut roots: BTreeSet<String> = BTreeSet::new();
        let mut bound: Vec<(String, Option<Type>, bool, Expr)> = vec![];
        for (a, p) in args.into_iter().zip(h.sig.inputs.iter()) {
            let (name, ty, is_mut, by_ref) = match p {
                FnArg::Receiver(r) => ("self".to_string(), None, false, r.reference.is_some()),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) if i.subpat.is_none() => (i.ident.to_string(), Some((*t.ty).clone()), i.mutability.is_some(), false),
                    Pat::Wild(_) => continue,
                    _ => no("a pattern as parameter"),
                },
            };
            let reassigned = is_mut || (asg.0.contains(&name) && !matches!(ty, Some(Type::Reference(_))));
            match &a {
                Expr::Reference(r) if place_root(&r.expr).is_some() && !is_mut => {
                    roots.insert(place_root(&r.expr).unwrap());
                    sub.m.insert(name, Arg::RefTo((*r.expr).clone(), r.mutability.is_some()));
                }
                a if place_root(a).is_some() && !reassigned => {
                    let root = place_root(a).unwrap();
                    let by_value = !by_ref && !matches!(ty, Some(Type::Reference(_)));
                    if by_value && (busy || muts.contains(&root)) {
                        bound.push((name, ty, is_mut, a.clone()));
                    } else {
                        roots.insert(root);
                        sub.m.insert(name, Arg::Place(a.clone()));
                    }
                }
                _ => {
                    let a = if by_ref { parse_quote!(&#a) } else { a };
                    if name == "self" && by_ref && matches!(p, FnArg::Receiver(r) if r.mutability.is_some()) {
                        no("its receiver");
                    }
                    bound.push((name, ty, is_mut, a));
                }
            }
        }
        let mut inner: BTreeSet<String> = names.0.clone();
        inner.extend(bound.iter().map(|x| x.0.clone()));
        for x in &inner {
            if roots.contains(x) || x == "self" {
                sub.ren.insert(x.clone(), format_ident!("{}__h{}", x, k));
            }
        }
        if h.self_ty.is_some() && h.self_ty != self.self_ty {
            sub.self_to = Some(parse_str(h.self_ty.as_ref().unwrap()).unwrap());
        }
        sub.visit_block_mut(&mut body);
        if let Some(r) = &sub.bad {
            no(r);
        }
        // bound arguments are evaluated before any of them comes into scope
        let multi = bound.len() > 1;
        let mut pre: Vec<Stmt> = vec![];
        for (j, (name, ty, is_mut, a)) in bound.into_iter().enumerate() {
            let id = sub.ren.get(&name).cloned().unwrap_or_else(|| format_ident!("{}", name));
            let a: Expr = if multi {
                let t = format_ident!("__a{}_{}", k, j);
                pre.push(parse_quote!(let #t = #a;));
                parse_quote!(#t)
            } else {
                a
            };
            let mu = if is_mut { Some(<Token![mut]>::default()) } else { None };
            let plain = ty.as_ref().map_or(false, |t| !generic && !t.to_token_stream().to_string().contains("impl ") && !t.to_token_stream().to_string().contains("dyn ") && !t.to_token_stream().to_string().contains('\''));
            lets.push(if plain { parse_quote!(let #mu #id: #ty = #a;) } else { parse_quote!(let #mu #id = #a;) });
        }
        // exits
        if m != Mode::Tail {
            tailify(&mut body, m);
            if matches!(m, Mode::TryResult | Mode::TryOption | Mode::OptionToResult) {
                if let Err(r) = conv_block(&mut body, m) {
                    no(&r);
                }
            }
            // what conv added is the caller's own exit
            let mut ex = Exits { keep: m, left: false, tries: false };
            let mut probe = body.clone();
            ex.visit_block_mut(&mut probe);
            if m == Mode::OptionToResult {
                // `return Err(verr())` that conv wrote counts as left in the probe; look again with those taken away
                let mut ex2 = Exits { keep: Mode::TryResult, left: false, tries: false };
                ex2.visit_block_mut(&mut probe.clone());
                if ex2.left {
                    no("it returns from the middle");
                }
                body = probe;
            } else if ex.left {
                no("it returns from the middle");
            }
            if ex.tries && m == Mode::Plain {
                no("it uses ? and its result is kept");
            }
            if ex.tries && m == Mode::OptionToResult && has_own_try(&h.block) {
                no("it uses ? on an Option and a context follows");
            }
            if m == Mode::TryResult && own_rets != "Result" {
                no("? on something else");
            }
        }
        let stmts = body.stmts;
        let b: syn::Block = parse_quote!({ #(#pre)* #(#lets)* #(#stmts)* });
        Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
    }

    /// The body of a function: its tail is a position where the helper may return as it likes.
    pub fn body(&mut self, b: &mut syn::Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            if let Some((h, a)) = self.helper(e) {
                let n = b.stmts.len();
                for s in b.stmts[..n - 1].iter_mut() {
                    self.visit_stmt_mut(s);
                }
                let x = self.expand(h, a, Mode::Tail);
                *b.stmts.last_mut().unwrap() = Stmt::Expr(x, None);
                return;
            }
        }
        self.visit_block_mut(b);
    }
}

fn has_own_try(b: &syn::Block) -> bool {
    let mut ex = Exits { keep: Mode::Tail, left: false, tries: false };
    ex.visit_block_mut(&mut b.clone());
    ex.tries
}

pub fn nested(b: &syn::Block) -> Vec<ItemFn> {
    b.stmts.iter().filter_map(|s| match s {
        Stmt::Item(Item::Fn(x)) => Some(x.clone()),
        _ => None,
    }).collect()
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            let mut x = &*t.expr;
            while let Expr::Paren(p) = x {
                x = &p.expr;
            }
            let mut ctx = false;
            let mut call = x;
            if let Expr::MethodCall(c) = x {
                if ["context", "with_context", "map_err", "ok_or", "ok_or_else"].contains(&c.method.to_string().as_str()) && self.helper(x).is_none() {
                    ctx = true;
                    call = &c.receiver;
                }
            }
            if let Some((h, a)) = self.helper(call) {
                let m = match (ret_kind(&h.sig), ctx, self.ret_option) {
                    ("Result", _, false) => Mode::TryResult,
                    ("Option", true, false) => Mode::OptionToResult,
                    ("Option", false, true) => Mode::TryOption,
                    _ => die(&format!("helper {} cannot be put in place: its result", h.name)),
                };
                *e = self.expand(h, a, m);
                return;
            }
        }
        if let Expr::Return(r) = e {
            if let Some(x) = &r.expr {
                if let Some((h, a)) = self.helper(x) {
                    r.expr = Some(Box::new(self.expand(h, a, Mode::Tail)));
                    return;
                }
            }
        }
        if let Some((h, a)) = self.helper(e) {
            *e = self.expand(h, a, Mode::Plain);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let n = mac_name(m);
        if !["format", "vec"].contains(&n.as_str()) {
            return;
        }
        let t = m.tokens.clone();
        if let Ok(mut r) = syn::parse2::<RepeatArgs>(t.clone()) {
            let was = self.n;
            self.visit_expr_mut(&mut r.0);
            self.visit_expr_mut(&mut r.1);
            let (a, b) = (r.0, r.1);
            if self.n > was {
                m.tokens = quote!(#a; #b);
            }
        } else if let Ok(mut l) = syn::parse2::<ListArgs>(t) {
            let was = self.n;
            for x in l.0.iter_mut() {
                self.visit_expr_mut(x);
            }
            let xs = &l.0;
            if self.n > was {
                m.tokens = quote!(#(#xs),*);
            }
        }
    }
}
