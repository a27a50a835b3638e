//! The command line as clap's derive macros see it: from the attributes of the parser struct and its subcommand
//! enum, the option table and what a parsed value says about the command line. Attributes this does not know: LOST.
use super::*;

fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 && !o.ends_with('-') {
                o.push('-');
            }
            o.extend(c.to_lowercase());
        } else if c == '_' {
            o.push('-');
        } else {
            o.push(c);
        }
    }
    o
}

/// The key-value pairs of #[arg(..)] / #[command(..)]: `short`, `long = "x"`, ..
fn pairs(attrs: &[Attribute], kinds: &[&str]) -> Vec<(String, Option<Expr>)> {
    let mut out = vec![];
    for a in attrs {
        let k = a.path().to_token_stream().to_string();
        if k == "doc" || k == "derive" || k == "cfg_attr" {
            continue;
        }
        if k == "value" || !kinds.contains(&k.as_str()) {
            die(&format!("clap attribute #[{}] is not handled", k));
        }
        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        let Ok(l) = a.parse_args_with(p) else { die("clap attribute not understood") };
        for e in l {
            match e {
                Expr::Path(p) => out.push((p.path.to_token_stream().to_string(), None)),
                Expr::Assign(x) => out.push((x.left.to_token_stream().to_string(), Some(*x.right))),
                o => die(&format!("clap attribute {} is not handled", o.to_token_stream())),
            }
        }
    }
    out
}

fn lit(e: &Expr) -> String {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Str(s) => s.value(),
            Lit::Char(c) => c.value().to_string(),
            Lit::Bool(b) => b.value.to_string(),
            _ => die("clap attribute value not handled"),
        },
        _ => die("clap attribute value is not a literal"),
    }
}

fn id(s: &str) -> String {
    let mut o = String::from("nm_");
    for c in s.chars() {
        match c {
            '-' => o.push('_'),
            c if c.is_ascii_alphanumeric() => o.push(c),
            c => o.push_str(&format!("_x{:x}_", c as u32)),
        }
    }
    o
}

struct Arg {
    field: String,
    long: Option<String>,
    short: Option<char>,
    flag: bool,
    default: Option<String>,
}

/// `clap <alias> <Struct> <Enum> name..`: names that the template mentions
pub fn emit(f: &File, parser: &str, subs: &str, names: &[&str]) -> String {
    let Some(Item::Struct(ps)) = find_item(f, parser) else { die("the command line parser struct is gone") };
    for (k, _) in pairs(&ps.attrs, &["command", "clap"]) {
        if !["name", "about", "long_about", "version", "author"].contains(&k.as_str()) {
            die(&format!("clap setting {} is not handled", k));
        }
    }
    let fs: Vec<_> = ps.fields.iter().collect();
    if fs.len() != 1 || pairs(&fs[0].attrs, &["command", "clap"]).iter().map(|x| x.0.clone()).collect::<Vec<_>>() != ["subcommand"] || fs[0].ty.to_token_stream().to_string() != subs {
        die("the command line has options of its own");
    }
    let top = fs[0].ident.as_ref().unwrap().to_string();
    let Some(Item::Enum(en)) = find_item(f, subs) else { die("the subcommand enum is gone") };
    if !pairs(&en.attrs, &["command", "clap"]).is_empty() {
        die("settings on the subcommand enum are not handled");
    }
    let mut all: BTreeSet<String> = names.iter().map(|x| x.to_string()).collect();
    all.insert("help".into());
    let mut table: Vec<(String, String, Vec<Arg>)> = vec![];
    // the options of a subcommand that are a struct of their own: the variants, and the structs' text
    let mut boxed: BTreeSet<String> = Default::default();
    let mut structs: BTreeSet<String> = Default::default();
    let mut o = String::new();
    for v in &en.variants {
        let mut name = kebab(&v.ident.to_string());
        for (k, x) in pairs(&v.attrs, &["command", "clap"]) {
            match (k.as_str(), x) {
                ("name", Some(x)) => name = lit(&x),
                ("about" | "long_about", _) => {}
                _ => die(&format!("clap setting {} is not handled", k)),
            }
        }
        let mut args = vec![];
        let mut fields = v.fields.clone();
        if let Fields::Unnamed(u) = &v.fields {
            let t = if u.unnamed.len() == 1 { u.unnamed[0].ty.to_token_stream().to_string() } else { String::new() };
            let Some(Item::Struct(a)) = find_item(f, &t) else { die("subcommand without named options") };
            if !pairs(&a.attrs, &["command", "clap", "arg", "group"]).is_empty() || !pairs(&u.unnamed[0].attrs, &["arg", "clap", "command"]).is_empty() {
                die("settings on a struct of options are not handled");
            }
            fields = a.fields.clone();
            boxed.insert(v.ident.to_string());
            if structs.insert(t) {
                o.push_str(&pretty(&clean_item(&Item::Struct(a.clone()), &Default::default()).to_token_stream().to_string()));
                o.push('\n');
            }
        }
        for fl in fields.iter() {
            let Some(fi) = &fl.ident else { die("subcommand without named options") };
            let fname = fi.to_string();
            let ty = fl.ty.to_token_stream().to_string();
            let flag = match ty.as_str() {
                "bool" => true,
                "String" => false,
                t => die(&format!("option of type {} is not handled", t)),
            };
            let mut a = Arg { field: fname.clone(), long: None, short: None, flag, default: None };
            for (k, x) in pairs(&fl.attrs, &["arg", "clap"]) {
                match (k.as_str(), x) {
                    ("short", None) => a.short = fname.chars().next(),
                    ("short", Some(x)) => a.short = lit(&x).chars().next(),
                    ("long", None) => a.long = Some(kebab(&fname)),
                    ("long", Some(x)) => a.long = Some(lit(&x)),
                    ("default_value", Some(x)) | ("default_value_t", Some(x)) => a.default = Some(lit(&x)),
                    ("help" | "long_help" | "value_name" | "hide", _) => {}
                    ("required", Some(x)) if lit(&x) == "true" && !flag => {}
                    _ => die(&format!("clap setting {} is not handled", k)),
                }
            }
            all.extend(a.long.clone());
            args.push(a);
        }
        all.insert(name.clone());
        table.push((v.ident.to_string(), name, args));
    }
    for (i, n) in all.iter().enumerate() {
        o.push_str(&format!("/// {:?}\npub open spec fn {}() -> int {{ {} }}\n", n, id(n), i));
    }
    o.push_str("/// clap's own check of the option table: no two subcommands, and no two options of one subcommand, share a name (help is clap's).\n");
    o.push_str("pub open spec fn cli_distinct() -> bool {\n    true\n");
    let pairwise = |o: &mut String, l: &[String], what: &str| {
        for i in 0..l.len() {
            for j in i + 1..l.len() {
                o.push_str(&format!("    && {} != {} // {}\n", l[i], l[j], what));
            }
        }
    };
    let mut l: Vec<String> = table.iter().map(|t| format!("{}()", id(&t.1))).collect();
    l.push("nm_help()".into());
    pairwise(&mut o, &l, "subcommand names");
    for (_, name, args) in &table {
        let mut l: Vec<String> = args.iter().filter_map(|a| a.long.as_ref()).map(|x| format!("{}()", id(x))).collect();
        l.push("nm_help()".into());
        pairwise(&mut o, &l, &format!("long names of {}", name));
        let mut l: Vec<String> = args.iter().filter_map(|a| a.short).map(|x| format!("{:?}", x)).collect();
        l.push("'h'".into());
        pairwise(&mut o, &l, &format!("short names of {}", name));
    }
    o.push_str("}\n/// The option that a short name of a subcommand stands for.\npub open spec fn cli_short(s: int, c: char) -> int {\n    ");
    for (_, name, args) in &table {
        for a in args {
            if let (Some(l), Some(c)) = (&a.long, a.short) {
                o.push_str(&format!("if s == {}() && c == {:?} {{ {}() }} else ", id(name), c, id(l)));
            }
        }
    }
    o.push_str("{ -1 }\n");
    o.push_str("}\n/// What a parsed command line says: the subcommand given and the value given for each of its options.\n");
    o.push_str(&format!("pub open spec fn cli_parsed(c: {}) -> bool {{\n    match c.{} {{\n", parser, top));
    for (v, name, args) in &table {
        let fl: Vec<&str> = args.iter().map(|a| a.field.as_str()).collect();
        let st = boxed.contains(v);
        if st {
            o.push_str(&format!("        {}::{}(__a) => argv_sub() == {}()\n", subs, v, id(name)));
        } else {
            o.push_str(&format!("        {}::{} {{ {} }} => argv_sub() == {}()\n", subs, v, fl.join(", "), id(name)));
        }
        for a in args {
            let fe = if st { format!("__a.{}", a.field) } else { a.field.clone() };
            let key = match &a.long {
                Some(l) => format!("{}()", id(l)),
                None => match a.short {
                    Some(c) => format!("(-{})", c as u32),
                    None => format!("(-1000000 - {})", fl.iter().position(|x| *x == a.field).unwrap()),
                },
            };
            let k = format!("{}(), {}", id(name), key);
            if a.flag {
                let d = match a.default.as_deref() {
                    None | Some("false") => "false",
                    Some("true") => "true",
                    _ => die("default of a flag"),
                };
                o.push_str(&format!("            && {} == (argv_has({}) || {})\n", fe, k, d));
            } else if let Some(d) = &a.default {
                o.push_str(&format!("            && {}@ == (if argv_has({}) {{ argv_val({}) }} else {{ {:?}@ }})\n", fe, k, k, d));
            } else {
                o.push_str(&format!("            && argv_has({}) && {}@ == argv_val({})\n", k, fe, k));
            }
        }
        o.push_str("            ,\n");
    }
    o.push_str("    }\n}\n");
    o.push_str(&format!("impl {} {{\n    #[verifier::external_body]\n    pub fn parse() -> (r: {})\n        requires cli_distinct()\n        ensures cli_parsed(r)\n    {{ unimplemented!() }}\n}}\n", parser, parser));
    o
}
