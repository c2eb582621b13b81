//! Mechanical extraction of /repo's Rust sources into plain Rust text that Verus accepts once the
//! contracts of /verif/spec are substituted for the markers left here.
//!
//! usage: extract CONFIG OUT.rs REPORT.json
//!
//! CONFIG (line based):
//!   file <path> <module>        source file and the module it becomes ("" = crate root)
//!   contract <key> (p1, p2..)   function under contract, with the names its contract gives its
//!                               parameters ("_" keeps the source name); "aux" instead of
//!                               "contract" for private helpers whose contract is optional
//!   external <key>              body dropped, contract assumed
//!   omit <key>                  item not extracted
//!   inline-all                  ignore "aux" contracts, inline every private helper
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod hoist;
mod inline;
mod rewrite;
mod shared;

#[derive(Default, Clone)]
pub struct Config {
    pub files: Vec<(String, String)>,
    pub contracts: BTreeMap<String, Vec<String>>,
    pub aux: BTreeSet<String>,
    pub external: BTreeSet<String>,
    pub omit: BTreeSet<String>,
    pub inline_all: bool,
    pub noinline: BTreeSet<String>,
    pub breaktypes: BTreeMap<String, String>,
    pub cancellable: BTreeSet<String>,
    pub exits: BTreeSet<String>,
    pub afters: Vec<(String, String)>,
    pub befores: Vec<(String, String)>,
}

#[derive(Default)]
pub struct Report {
    pub functions: Vec<String>,
    pub dropped: Vec<String>,
    pub inlined: Vec<String>,
    pub loops: BTreeMap<String, usize>,
    pub lost: Vec<String>,
    pub notes: Vec<String>,
    /// the identifiers in each loop of a function
    pub uses: BTreeMap<String, Vec<String>>,
    /// what changes behaviour and is not represented
    pub unmodelled: Vec<String>,
    pub uncontracted: Vec<String>,
    pub inlinable: Vec<String>,
    pub opaque: Vec<String>,
    /// functions with a closure that no rule writes out
    pub closures: Vec<String>,
    pub locals: BTreeMap<String, Vec<String>>,
    /// Hash of each function's tokens.
    pub shapes: BTreeMap<String, Vec<String>>,
}

fn parse_config(path: &str) -> Config {
    let mut c = Config::default();
    for line in std::fs::read_to_string(path).expect("config").lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let (kw, rest) = line.split_once(' ').unwrap_or((line, ""));
        let rest = rest.trim();
        let keyparams = |r: &str| -> (String, Vec<String>) {
            match r.find('(') {
                Some(i) => (
                    r[..i].trim().to_string(),
                    r[i + 1..r.rfind(')').unwrap()]
                        .split(',')
                        .map(|s| s.trim().to_string())
                        .filter(|s| !s.is_empty())
                        .collect(),
                ),
                None => (r.to_string(), vec![]),
            }
        };
        match kw {
            "file" => {
                let mut it = rest.split_whitespace();
                let p = it.next().unwrap().to_string();
                let m = it.next().unwrap_or("").to_string();
                c.files.push((p, m));
            }
            "contract" | "aux" => {
                let (k, p) = keyparams(rest);
                if kw == "aux" {
                    c.aux.insert(k.clone());
                }
                c.contracts.insert(k, p);
            }
            "external" => {
                let (k, p) = keyparams(rest);
                c.external.insert(k.clone());
                c.contracts.insert(k, p);
            }
            "omit" => {
                c.omit.insert(rest.to_string());
            }
            "cancellable" => {
                c.cancellable.insert(rest.to_string());
            }
            "exit" => {
                c.exits.insert(rest.to_string());
            }
            "after" => {
                let (k, t) = rest.rsplit_once(' ').unwrap();
                c.afters.push((k.to_string(), t.to_string()));
            }
            "before" => {
                let (k, t) = rest.rsplit_once(' ').unwrap();
                c.befores.push((k.to_string(), t.to_string()));
            }
            "noinline" => {
                c.noinline.insert(rest.to_string());
            }
            "breaktype" => {
                let (k, t) = rest.split_once(" = ").unwrap();
                c.breaktypes.insert(k.to_string(), t.to_string());
            }
            "inline-all" => c.inline_all = true,
            _ => panic!("bad config line {line}"),
        }
    }
    if c.inline_all {
        for k in c.aux.clone() {
            c.contracts.remove(&k);
        }
    }
    c
}

// ---------------------------------------------------------------- cfg evaluation and attributes

fn cfg_true(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => !(p.is_ident("test") || p.is_ident("bip324_verif") || p.is_ident("kani") || p.is_ident("fuzzing")),
        Meta::NameValue(_) => true,
        Meta::List(l) => {
            let inner: Vec<Meta> = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().all(cfg_true)
            } else if l.path.is_ident("any") {
                inner.iter().any(cfg_true)
            } else {
                inner.iter().all(cfg_true)
            }
        }
    }
}

pub fn enabled(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            a.parse_args::<Meta>().map(|m| cfg_true(&m)).unwrap_or(true)
        } else if a.path().is_ident("test") {
            false
        } else {
            true
        }
    })
}

pub fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Ok(l) = a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated) {
                for p in l {
                    out.insert(p.segments.last().unwrap().ident.to_string());
                }
            }
        }
    }
    out
}

pub fn type_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let mut r = s.ident.to_string();
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                for g in &a.args {
                    if let GenericArgument::Type(Type::Path(q)) = g {
                        let id = q.path.segments.last().unwrap().ident.to_string();
                        if id.len() > 1 {
                            r.push_str(&format!("<{id}>"));
                        }
                        break;
                    }
                }
            }
            r
        }
        Type::Reference(r) => type_ident(&r.elem),
        _ => "?".into(),
    }
}

fn contains_ident(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == name,
        proc_macro2::TokenTree::Group(g) => contains_ident(g.stream(), name),
        _ => false,
    })
}

/// Key of a function: module::Type<Param>::name.
pub fn fn_key(module: &str, ty: Option<&str>, tr: Option<&str>, name: &str) -> String {
    let mut k = String::new();
    if !module.is_empty() {
        k.push_str(module);
        k.push_str("::");
    }
    if let Some(t) = ty {
        k.push_str(t);
        if let Some(tr) = tr {
            k.push_str(&format!(" as {tr}"));
        }
        k.push_str("::");
    }
    k.push_str(name);
    k
}

struct Out {
    text: String,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"")
}

fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "))
}

pub struct FnInfo {
    pub key: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    pub is_pub: bool,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg = parse_config(&args[1]);
    let mut rep = Report::default();
    let mut modules: BTreeMap<String, Vec<Item>> = BTreeMap::new();
    let mut order = vec![];
    for (path, module) in &cfg.files {
        let src = match std::fs::read_to_string(path) {
            Ok(s) => s,
            Err(e) => {
                rep.lost.push(format!("file {path}: {e}"));
                continue;
            }
        };
        let file = match parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("extract: {path}: {e}");
                std::process::exit(3);
            }
        };
        modules.insert(module.clone(), file.items);
        order.push(module.clone());
    }

    // 1. cfg, tests and items outside the verifier's reach
    for m in &order {
        let items = std::mem::take(modules.get_mut(m).unwrap());
        let mut kept = filter_items(items, m, &cfg, &mut rep);
        hoist::run(&mut kept, &mut rep);
        modules.insert(m.clone(), kept);
    }

    // 1b. shared state of the traffic crate
    for items in modules.values_mut() {
        for i in items.iter_mut() {
            syn::visit_mut::VisitMut::visit_item_mut(&mut rewrite::Selects, i);
        }
    }
    shared::run(&mut modules, &mut rep);

    // 2. inline private helpers that have no contract
    inline::run(&mut modules, &cfg, &mut rep);

    for m in &order {
        rewrite::note_consts(&modules[m]);
        rewrite::note_kinds(&modules[m]);
    }
    rewrite::BREAKTYPES.with(|b| *b.borrow_mut() = cfg.breaktypes.clone());

    // 3. rewrite what is left and print
    let mut out = Out { text: String::new() };
    let mut seen = BTreeSet::new();
    let mut bodies: Vec<(String, String)> = vec![];
    for m in &order {
        let items = modules.remove(m).unwrap();
        let mut body = String::new();
        for it in items {
            let it = rewrite::item(it, m, &cfg, &mut rep, &mut seen);
            for i in it {
                body.push_str(&i.to_string());
                body.push('\n');
            }
        }
        bodies.push((m.clone(), body));
    }
    emit("", &bodies, &mut out.text);
    for k in cfg.contracts.keys() {
        if !seen.contains(k) {
            rep.lost.push(k.clone());
        }
    }
    std::fs::write(&args[2], out.text).expect("write");
    let loops = rep
        .loops
        .iter()
        .map(|(k, v)| format!("\"{}\": {}", esc(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let json = format!(
        "{{\"functions\": {}, \"dropped\": {}, \"inlined\": {}, \"lost\": {}, \"notes\": {}, \"unmodelled\": {}, \"uncontracted\": {}, \"inlinable\": {}, \"opaque\": {}, \"closures\": {}, \"locals\": {{{}}}, \"shapes\": {{{}}}, \"uses\": {{{}}}, \"loops\": {{{}}}}}\n",
        json_list(&rep.functions),
        json_list(&rep.dropped),
        json_list(&rep.inlined),
        json_list(&rep.lost),
        json_list(&rep.notes),
        json_list(&rep.unmodelled),
        json_list(&rep.uncontracted),
        json_list(&rep.inlinable),
        json_list(&rep.opaque),
        json_list(&rep.closures),
        rep.locals.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), json_list(v))).collect::<Vec<_>>().join(", "),
        rep.shapes.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), json_list(v))).collect::<Vec<_>>().join(", "),
        rep.uses.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), json_list(v))).collect::<Vec<_>>().join(", "),
        loops
    );
    std::fs::write(&args[3], json).expect("write");
}

/// Prints a module followed by its child modules.
fn emit(m: &str, bodies: &[(String, String)], out: &mut String) {
    for (k, b) in bodies {
        if k == m {
            out.push_str(b);
        }
    }
    let end = if m.is_empty() { "__vmodend!(\"root\");\n".to_string() } else { format!("__vmodend!(\"{m}\");\n") };
    let mut done: Vec<String> = vec![];
    for (k, _) in bodies {
        let rest = if m.is_empty() {
            Some(k.as_str())
        } else {
            k.strip_prefix(m).and_then(|r| r.strip_prefix("::"))
        };
        let Some(rest) = rest else { continue };
        if rest.is_empty() {
            continue;
        }
        let seg = rest.split("::").next().unwrap().to_string();
        if done.contains(&seg) {
            continue;
        }
        done.push(seg.clone());
        out.push_str(&format!("pub mod {seg} {{\n use crate::vpre::*; use crate::vspec::*;\n"));
        let full = if m.is_empty() { seg.clone() } else { format!("{m}::{seg}") };
        emit(&full, bodies, out);
        out.push_str("}\n");
    }
    out.push_str(&end);
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        _ => &[],
    }
}

/// The methods of a standard trait that have no default.
fn required(t: &str) -> Option<&'static [&'static str]> {
    Some(match t {
        "Read" => &["read"],
        "Write" => &["write", "flush"],
        "AsyncRead" => &["poll_read"],
        "AsyncWrite" => &["poll_write", "poll_flush", "poll_shutdown"],
        "Clone" => &["clone"],
        "PartialEq" => &["eq"],
        "PartialOrd" => &["partial_cmp"],
        "Ord" => &["cmp"],
        "Iterator" => &["next"],
        _ => return None,
    })
}

fn filter_items(items: Vec<Item>, m: &str, cfg: &Config, rep: &mut Report) -> Vec<Item> {
    let mut out = vec![];
    for mut it in items {
        if !enabled(item_attrs(&it)) {
            continue;
        }
        match &mut it {
            Item::ExternCrate(_) => continue,
            Item::Macro(_) => {
                rep.dropped.push(format!("{m}: macro item"));
                continue;
            }
            Item::Mod(md) => {
                if md.content.is_some() {
                    rep.dropped.push(format!("{m}: inline module {}", md.ident));
                }
                continue;
            }
            Item::Impl(im) => {
                let ty = type_ident(&im.self_ty);
                if let Some((_, p, _)) = &im.trait_ {
                    let t = p.segments.last().unwrap().ident.to_string();
                    let k = format!("{}{} as {}", if m.is_empty() { String::new() } else { format!("{m}::") }, ty, t);
                    if t == "Display" || t == "Error" || t == "Debug" || cfg.omit.contains(&k) {
                        rep.dropped.push(format!("impl {t} for {ty} in {m}"));
                        continue;
                    }
                }
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                if tr.as_deref() == Some("Drop") && !cfg.contracts.contains_key(&fn_key(m, Some(&ty), None, "v_drop")) {
                    rep.unmodelled.push(format!("what dropping {ty} does"));
                    continue;
                }
                im.items.retain(|x| match x {
                    ImplItem::Fn(f) if tr.as_deref().and_then(required).is_some_and(|r| !r.contains(&f.sig.ident.to_string().as_str())) => {
                        rep.unmodelled.push(format!("{} for {ty} replaces a provided method", f.sig.ident));
                        false
                    }
                    _ => true,
                });
                im.items.retain(|x| match x {
                    ImplItem::Fn(f) => {
                        let k = fn_key(m, Some(&ty), tr.as_deref(), &f.sig.ident.to_string());
                        if cfg.omit.contains(&k) {
                            rep.dropped.push(k);
                            return false;
                        }
                        enabled(&f.attrs)
                    }
                    _ => true,
                });
            }
            Item::Fn(f) => {
                let k = fn_key(m, None, None, &f.sig.ident.to_string());
                if cfg.omit.contains(&k) {
                    rep.dropped.push(k);
                    continue;
                }
            }
            Item::Use(u) => {
                let s = u.tree.to_token_stream().to_string();
                if contains_ident(u.tree.to_token_stream(), "StdRng") || s.contains("fmt") && !s.contains(',') {
                    continue;
                }
            }
            _ => {}
        }
        out.push(it);
    }
    out
}

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

#[allow(dead_code)]
pub fn q(ts: TokenStream) -> String {
    quote!(#ts).to_string()
}

/// Renames single-segment paths and patterns (parameters to the names contracts use).
pub struct Rename<'a>(pub &'a BTreeMap<String, String>);
impl VisitMut for Rename<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() == 1 && p.leading_colon.is_none() {
            visit_mut::visit_path_mut(self, p);
        } else {
            for s in p.segments.iter_mut() {
                self.visit_path_arguments_mut(&mut s.arguments);
            }
        }
    }
    fn visit_member_mut(&mut self, _: &mut Member) {}
    fn visit_expr_method_call_mut(&mut self, e: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut e.receiver);
        for a in e.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            if let Pat::Ident(pi) = &*f.pat {
                if self.0.contains_key(&pi.ident.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        self.visit_pat_mut(&mut f.pat);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = rename_tokens(std::mem::take(&mut m.tokens), self.0);
    }
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_lifetime_mut(&mut self, _: &mut Lifetime) {}
}

pub fn rename_tokens(ts: TokenStream, map: &BTreeMap<String, String>) -> TokenStream {
    use proc_macro2::{Group, TokenTree};
    let mut prev_dot = false;
    ts.into_iter()
        .map(|t| {
            let r = match t {
                TokenTree::Ident(i) if !prev_dot => match map.get(&i.to_string()) {
                    Some(n) => TokenTree::Ident(Ident::new(n, i.span())),
                    None => TokenTree::Ident(i),
                },
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), rename_tokens(g.stream(), map));
                    n.set_span(g.span());
                    TokenTree::Group(n)
                }
                t => t,
            };
            prev_dot = matches!(&r, TokenTree::Punct(p) if p.as_char() == '.');
            r
        })
        .collect()
}

pub struct HasReturn(pub bool, pub bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.0 = true;
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.1 = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
