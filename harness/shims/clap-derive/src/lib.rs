use proc_macro::TokenStream;
use quote::quote;
use syn::{punctuated::Punctuated, *};

fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() { if i > 0 && !o.ends_with('-') { o.push('-'); } o.extend(c.to_lowercase()); } else if c == '_' { o.push('-'); } else { o.push(c); }
    }
    o
}
fn pairs(attrs: &[Attribute]) -> Vec<(String, Option<Expr>)> {
    let mut out = vec![];
    for a in attrs {
        let k = a.path().get_ident().map(|i| i.to_string()).unwrap_or_default();
        if !["arg", "command", "clap"].contains(&k.as_str()) { continue; }
        for e in a.parse_args_with(Punctuated::<Expr, Token![,]>::parse_terminated).expect("clap attribute") {
            match e {
                Expr::Path(p) => out.push((p.path.get_ident().expect("clap attribute").to_string(), None)),
                Expr::Assign(x) => { let n = match &*x.left { Expr::Path(p) => p.path.get_ident().expect("clap attribute").to_string(), _ => panic!("clap attribute") }; out.push((n, Some(*x.right))) }
                _ => panic!("clap attribute not handled"),
            }
        }
    }
    out
}
fn lit(e: Option<Expr>) -> String {
    match e { Some(Expr::Lit(l)) => match l.lit { Lit::Str(s) => s.value(), Lit::Char(c) => c.value().to_string(), Lit::Bool(b) => b.value.to_string(), _ => panic!("clap value") }, _ => panic!("clap value") }
}

#[proc_macro_derive(Parser, attributes(command, arg, clap))]
pub fn parser(t: TokenStream) -> TokenStream {
    let s = parse_macro_input!(t as ItemStruct);
    for (k, _) in pairs(&s.attrs) { assert!(["name", "about", "long_about", "version", "author"].contains(&k.as_str()), "clap setting {}", k); }
    assert!(s.fields.len() == 1, "one subcommand field");
    let f = s.fields.iter().next().unwrap();
    assert!(pairs(&f.attrs).iter().map(|x| x.0.as_str()).collect::<Vec<_>>() == ["subcommand"], "one subcommand field");
    let (n, fi) = (&s.ident, f.ident.as_ref().unwrap());
    quote!(impl ::clap::Parser for #n { fn parse() -> Self { #n { #fi: ::clap::run() } } }).into()
}
#[proc_macro_derive(Subcommand, attributes(command, arg, clap))]
pub fn subcommand(t: TokenStream) -> TokenStream {
    let e = parse_macro_input!(t as ItemEnum);
    assert!(pairs(&e.attrs).is_empty(), "clap settings on the subcommands");
    let n = &e.ident;
    let (mut specs, mut arms) = (vec![], vec![]);
    for (i, v) in e.variants.iter().enumerate() {
        let mut name = kebab(&v.ident.to_string());
        for (k, x) in pairs(&v.attrs) { match k.as_str() { "name" => name = lit(x), "about" | "long_about" => {} _ => panic!("clap setting {}", k) } }
        let vi = &v.ident;
        if let Fields::Unnamed(u) = &v.fields {
            assert!(u.unnamed.len() == 1, "one struct of options");
            let t = &u.unnamed[0].ty;
            specs.push(quote!(::clap::SubSpec { name: #name, opts: <#t as ::clap::Args>::SPECS }));
            arms.push(quote!(#i => #n::#vi(<#t as ::clap::Args>::build(g))));
            continue;
        }
        let (opts, fs) = options(&v.fields);
        specs.push(quote!(::clap::SubSpec { name: #name, opts: &[#(#opts),*] }));
        arms.push(quote!(#i => #n::#vi { #(#fs),* }));
    }
    quote!(impl ::clap::Subcommand for #n {
        fn specs() -> &'static [::clap::SubSpec] { &[#(#specs),*] }
        fn build(sub: usize, g: &::clap::Got) -> Self { let _ = g; match sub { #(#arms,)* _ => unreachable!() } }
    }).into()
}
fn options(fields: &Fields) -> (Vec<proc_macro2::TokenStream>, Vec<proc_macro2::TokenStream>) {
    let (mut opts, mut fs) = (vec![], vec![]);
    for f in fields {
        let fi = f.ident.as_ref().expect("named options");
        let fname = fi.to_string();
        let ty = &f.ty;
        let flag = quote!(<#ty as ::clap::Val>::FLAG);
        let (mut long, mut short, mut default) = (quote!(None), quote!(None), quote!(None));
        for (k, x) in pairs(&f.attrs) {
            match (k.as_str(), x) {
                ("short", None) => { let c = fname.chars().next().unwrap(); short = quote!(Some(#c)) }
                ("short", x) => { let c = lit(x).chars().next().unwrap(); short = quote!(Some(#c)) }
                ("long", None) => { let l = kebab(&fname); long = quote!(Some(#l)) }
                ("long", x) => { let l = lit(x); long = quote!(Some(#l)) }
                ("default_value" | "default_value_t", x) => { let d = lit(x); default = quote!(Some(#d)) }
                ("help" | "long_help" | "value_name" | "hide", _) => {}
                ("required", x) => assert!(lit(x) == "true"),
                (k, _) => panic!("clap setting {}", k),
            }
        }
        opts.push(quote!(::clap::OptSpec { field: #fname, long: #long, short: #short, flag: #flag, default: #default }));
        fs.push(quote!(#fi: g.get(#fname)));
    }
    (opts, fs)
}
#[proc_macro_derive(Args, attributes(command, arg, clap))]
pub fn args(t: TokenStream) -> TokenStream {
    let s = parse_macro_input!(t as ItemStruct);
    assert!(pairs(&s.attrs).is_empty(), "clap settings on a struct of options");
    let (n, (opts, fs)) = (&s.ident, options(&s.fields));
    quote!(impl ::clap::Args for #n { const SPECS: &'static [::clap::OptSpec] = &[#(#opts),*]; fn build(g: &::clap::Got) -> Self { let _ = g; #n { #(#fs),* } } }).into()
}
