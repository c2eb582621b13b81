//! Rewrites one item into the dialect Verus accepts. Every rule here is listed in DESIGN.md.
use crate::*;
use syn::punctuated::Punctuated;

/// Module prefixes of the dependencies that are replaced by assumed contracts.
const DEP: &[(&[&str], &[&str])] = &[
    (&["core", "borrow"], &["crate", "deps", "borrow"]),
    (&["std", "borrow"], &["crate", "deps", "borrow"]),
    (&["core", "cmp"], &["crate", "deps", "cmp"]),
    (&["std", "cmp"], &["crate", "deps", "cmp"]),
    (&["std", "io"], &["crate", "deps", "io"]),
    (&["std", "sync"], &["crate", "deps", "sync"]),
    (&["core", "sync"], &["crate", "deps", "sync"]),
    (&["std", "thread"], &["crate", "deps", "thread"]),
    (&["std", "time"], &["crate", "deps", "time"]),
    (&["core", "time"], &["crate", "deps", "time"]),
    (&["std", "task"], &["crate", "deps", "task"]),
    (&["std", "pin"], &["crate", "deps", "pin"]),
    (&["secp256k1"], &["crate", "deps", "secp256k1"]),
    (&["bitcoin_hashes"], &["crate", "deps", "bitcoin_hashes"]),
    (&["chacha20_poly1305"], &["crate", "deps", "chacha20_poly1305"]),
    (&["tokio"], &["crate", "deps", "tokio"]),
    (&["rand"], &["crate", "deps", "rand"]),
];

pub struct Ctx<'a> {
    pub module: &'a str,
    pub consts: &'a BTreeMap<String, Expr>,
    pub key: String,
    pub loops: usize,
    pub breaks: Vec<Option<(Ident, bool)>>,
    pub notes: Vec<String>,
    pub breaktypes: &'a BTreeMap<String, String>,
    pub cancellable: bool,
}

fn map_segs(segs: &[String], module: &str) -> Option<Vec<String>> {
    let traffic = module == "traffic" || module.starts_with("traffic::");
    if segs[0] == "crate" && segs.len() > 1 && matches!(segs[1].as_str(), "vpre" | "vspec" | "deps") {
        return None;
    }
    if traffic && segs[0] == "crate" {
        let mut v = vec!["crate".to_string(), "traffic".to_string()];
        v.extend(segs[1..].iter().cloned());
        return Some(v);
    }
    if segs[0] == "bip324" {
        let mut v = vec!["crate".to_string()];
        v.extend(segs[1..].iter().cloned());
        return Some(v);
    }
    for (from, to) in DEP {
        if segs.len() >= from.len() && from.iter().zip(segs).all(|(a, b)| a == b) {
            let mut v: Vec<String> = to.iter().map(|s| s.to_string()).collect();
            v.extend(segs[from.len()..].iter().cloned());
            return Some(v);
        }
    }
    None
}

fn flatten(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, Option<String>, bool)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            flatten(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, None, false));
        }
        UseTree::Rename(n) => {
            let mut v = pre.clone();
            if n.ident != "self" {
                v.push(n.ident.to_string());
            }
            out.push((v, Some(n.rename.to_string()), false));
        }
        UseTree::Glob(_) => out.push((pre.clone(), None, true)),
        UseTree::Group(g) => {
            for t in &g.items {
                flatten(t, pre, out);
            }
        }
    }
}

fn rewrite_use(u: &ItemUse, module: &str) -> TokenStream {
    let mut leaves = vec![];
    flatten(&u.tree, &mut vec![], &mut leaves);
    let mut ts = TokenStream::new();
    for (segs, alias, glob) in leaves {
        if segs.is_empty() {
            continue;
        }
        let last = segs.last().unwrap().clone();
        // array constants are written out where they are used
        if CONSTS.with(|c| matches!(c.borrow().get(&last), Some(Expr::Array(_) | Expr::Repeat(_) | Expr::Lit(ExprLit { lit: Lit::Str(_) | Lit::ByteStr(_), .. })))) {
            continue;
        }
        // shared.rs writes the handle types out
        if segs[..segs.len() - 1] == ["std", "sync"] && matches!(last.as_str(), "Arc" | "Mutex") {
            continue;
        }
        let mapped = match map_segs(&segs, module) {
            Some(v) => v,
            None if matches!(segs[0].as_str(), "core" | "std" | "alloc") => continue,
            None if matches!(segs[0].as_str(), "crate" | "self" | "super") => segs.clone(),
            None => {
                // sibling module of the crate root, e.g. `use handshake::{..}`
                segs.clone()
            }
        };
        if mapped.len() == 3 && mapped[..2] == ["crate".to_string(), "deps".to_string()] && segs.len() == 1 {
            // `use secp256k1;`
        }
        let path: Vec<Ident> = mapped.iter().map(|s| ident(s)).collect();
        let extra = match last.as_str() {
            // documented rule: the trait implemented by the stub extension traits comes along
            _ => TokenStream::new(),
        };
        ts.extend(extra);
        if glob {
            ts.extend(quote!(pub use #(#path)::*::*;));
        } else if let Some(a) = alias {
            if a == "_" {
                ts.extend(quote!(use #(#path)::* as _;));
            } else {
                let a = ident(&a);
                ts.extend(quote!(pub use #(#path)::* as #a;));
            }
        } else {
            ts.extend(quote!(pub use #(#path)::*;));
        }
    }
    ts
}

// ------------------------------------------------------------------ constants

fn eval(e: &Expr, consts: &BTreeMap<String, Expr>) -> Option<u128> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<u128>().ok(),
        Expr::Paren(p) => eval(&p.expr, consts),
        Expr::Group(p) => eval(&p.expr, consts),
        Expr::Cast(c) => eval(&c.expr, consts),
        Expr::Path(p) => {
            let n = p.path.segments.last()?.ident.to_string();
            eval(consts.get(&n)?, consts)
        }
        Expr::Binary(b) => {
            let (l, r) = (eval(&b.left, consts)?, eval(&b.right, consts)?);
            match b.op {
                BinOp::Add(_) => l.checked_add(r),
                BinOp::Sub(_) => l.checked_sub(r),
                BinOp::Mul(_) => l.checked_mul(r),
                BinOp::Div(_) => l.checked_div(r),
                BinOp::Rem(_) => l.checked_rem(r),
                BinOp::Shl(_) => Some(l << r),
                BinOp::Shr(_) => Some(l >> r),
                BinOp::BitOr(_) => Some(l | r),
                BinOp::BitAnd(_) => Some(l & r),
                _ => None,
            }
        }
        _ => None,
    }
}

// ------------------------------------------------------------------ expression rules

const MUTATING: &[&str] = &[
    "copy_from_slice",
    "clone_from_slice",
    "fill",
    "copy_within",
    "swap",
    "reverse",
    "iter_mut",
    "swap_with_slice",
    "split_at_mut",
    "rotate_left",
    "rotate_right",
];

fn range_call(base: Expr, r: &ExprRange, mutable: bool) -> Option<Expr> {
    let closed = matches!(r.limits, RangeLimits::Closed(_));
    let n = |a: &str| ident(&format!("v_{}{}", a, if mutable { "m" } else { "r" }));
    let base: Expr = match base {
        b @ (Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Index(_) | Expr::Paren(_)) => b,
        b => parse_quote!((#b)),
    };
    let e: Expr = match (&r.start, &r.end) {
        (Some(a), Some(b)) => {
            if closed {
                let f = n("range_incl_");
                parse_quote!(#base.#f(#a, #b))
            } else {
                let f = n("range_");
                parse_quote!(#base.#f(#a, #b))
            }
        }
        (Some(a), None) => {
            let f = n("from_");
            parse_quote!(#base.#f(#a))
        }
        (None, Some(b)) => {
            if closed {
                let f = n("range_incl_");
                parse_quote!(#base.#f(0, #b))
            } else {
                let f = n("to_");
                parse_quote!(#base.#f(#b))
            }
        }
        (None, None) => {
            let f = n("all_");
            parse_quote!(#base.#f())
        }
    };
    Some(e)
}

fn as_range_index(e: &Expr) -> Option<(Expr, ExprRange)> {
    match e {
        Expr::Index(ix) => {
            let mut i: &Expr = &ix.index;
            while let Expr::Paren(p) = i {
                i = &p.expr;
            }
            match i {
                Expr::Range(r) => Some(((*ix.expr).clone(), r.clone())),
                _ => None,
            }
        }
        Expr::Paren(p) => as_range_index(&p.expr),
        _ => None,
    }
}

fn byte_array(b: &[u8]) -> Expr {
    let l: Vec<Expr> = b
        .iter()
        .map(|x| {
            let t = Lit::Int(LitInt::new(&format!("{x}u8"), Span::call_site()));
            parse_quote!(#t)
        })
        .collect();
    parse_quote!(&[#(#l),*])
}

fn is_path_method(e: &Expr, name: &str) -> bool {
    matches!(e, Expr::MethodCall(m) if m.method == name)
}

struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = ident("this");
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut map = BTreeMap::new();
        map.insert("self".to_string(), "this".to_string());
        m.tokens = rename_tokens(std::mem::take(&mut m.tokens), &map);
    }
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let mut hr = HasReturn(false, false);
            hr.visit_expr(&c.body);
            if hr.0 || hr.1 {
                return None;
            }
            let mut p = c.inputs[0].clone();
            if let Pat::Type(t) = p {
                p = *t.pat;
            }
            return Some((p, (*c.body).clone()));
        }
    }
    None
}

impl Ctx<'_> {
    fn apply1(f: &Expr, arg: &str) -> Option<(Pat, Expr)> {
        if let Some(x) = closure1(f) {
            return Some(x);
        }
        if let Expr::Path(p) = f {
            let a = ident(arg);
            return Some((parse_quote!(#a), parse_quote!(#p(#a))));
        }
        None
    }

    /// `f()` where f is a closure without parameters or a path.
    fn apply0(f: &Expr) -> Option<Expr> {
        match f {
            Expr::Closure(c) if c.inputs.is_empty() => {
                let mut hr = HasReturn(false, false);
                hr.visit_expr(&c.body);
                if hr.0 || hr.1 {
                    return None;
                }
                Some((*c.body).clone())
            }
            Expr::Path(p) => Some(parse_quote!(#p())),
            _ => None,
        }
    }

    fn combinator(&self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let x = &m.receiver;
        let a: Vec<&Expr> = m.args.iter().collect();
        let result = kind(x) == Some(false);
        let one = |i: usize, v: &str| Self::apply1(a[i], v);
        let empty = |e: &Expr| matches!(e.to_token_stream().to_string().replace(' ', "").as_str(), "&[]" | "b\"\"" | "&[][..]" | "&[0u8;0]");
        Some(match (name.as_str(), a.len()) {
            ("unwrap_or", 1) if empty(a[0]) => parse_quote!(#x.unwrap_or_default()),
            ("unwrap_or_else", 1) if Self::apply0(a[0]).is_some_and(|e| empty(&e)) => parse_quote!(#x.unwrap_or_default()),
            ("unwrap_or", 1) if is_path_method(x, "map") => {
                let Expr::MethodCall(mp) = &**x else { return None };
                let (p, b) = Self::apply1(&mp.args[0], "__x")?;
                let (y, d) = (&mp.receiver, a[0]);
                if kind(y) == Some(false) {
                    parse_quote!(match #y { Ok(#p) => #b, Err(_) => #d })
                } else {
                    parse_quote!(match #y { Some(#p) => #b, None => #d })
                }
            }
            ("map_or", 2) => {
                let (d, (p, b)) = (a[0], one(1, "__x")?);
                if result {
                    parse_quote!(match #x { Ok(#p) => #b, Err(_) => #d })
                } else {
                    parse_quote!(match #x { Some(#p) => #b, None => #d })
                }
            }
            ("map_or_else", 2) if result => {
                let ((q, d), (p, b)) = (one(0, "__e")?, one(1, "__x")?);
                parse_quote!(match #x { Ok(#p) => #b, Err(#q) => #d })
            }
            ("map_or_else", 2) => {
                let (d, (p, b)) = (Self::apply0(a[0])?, one(1, "__x")?);
                parse_quote!(match #x { Some(#p) => #b, None => #d })
            }
            ("is_some_and", 1) => {
                let (p, b) = one(0, "__x")?;
                parse_quote!(match #x { Some(#p) => #b, None => false })
            }
            ("is_none_or", 1) => {
                let (p, b) = one(0, "__x")?;
                parse_quote!(match #x { Some(#p) => #b, None => true })
            }
            ("is_ok_and", 1) => {
                let (p, b) = one(0, "__x")?;
                parse_quote!(match #x { Ok(#p) => #b, Err(_) => false })
            }
            ("map_err", 1) => {
                let (p, b) = one(0, "__e")?;
                parse_quote!(match #x { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })
            }
            ("map", 1) => {
                let (p, b) = one(0, "__x")?;
                if result {
                    parse_quote!(match #x { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })
                } else {
                    parse_quote!(match #x { Some(#p) => Some(#b), None => None })
                }
            }
            ("and_then", 1) => {
                let (p, b) = one(0, "__x")?;
                if result {
                    parse_quote!(match #x { Ok(#p) => #b, Err(__e) => Err(__e) })
                } else {
                    parse_quote!(match #x { Some(#p) => #b, None => None })
                }
            }
            ("or_else", 1) if result => {
                let (p, b) = one(0, "__e")?;
                parse_quote!(match #x { Ok(__v) => Ok(__v), Err(#p) => #b })
            }
            ("or_else", 1) => {
                let b = Self::apply0(a[0])?;
                parse_quote!(match #x { Some(__v) => Some(__v), None => #b })
            }
            ("inspect", 1) => {
                let (p, b) = one(0, "__x")?;
                if result {
                    parse_quote!(match #x { Ok(__v) => { { let #p = &__v; #b; } Ok(__v) } Err(__e) => Err(__e) })
                } else {
                    parse_quote!(match #x { Some(__v) => { { let #p = &__v; #b; } Some(__v) } None => None })
                }
            }
            ("inspect_err", 1) => {
                let (p, b) = one(0, "__e")?;
                parse_quote!(match #x { Ok(__v) => Ok(__v), Err(__w) => { { let #p = &__w; #b; } Err(__w) } })
            }
            ("filter", 1) if kind(x) == Some(true) => {
                let (p, b) = one(0, "__x")?;
                parse_quote!(match #x { Some(__v) => { if { let #p = &__v; #b } { Some(__v) } else { None } } None => None })
            }
            ("unwrap_or_else", 1) if result => {
                let (p, b) = one(0, "__e")?;
                parse_quote!(match #x { Ok(__v) => __v, Err(#p) => #b })
            }
            ("unwrap_or_else", 1) => {
                let b = Self::apply0(a[0])?;
                parse_quote!(match #x { Some(__v) => __v, None => #b })
            }
            ("ok_or_else", 1) => {
                let b = Self::apply0(a[0])?;
                parse_quote!(match #x { Some(__v) => Ok(__v), None => Err(#b) })
            }
            ("then", 1) => {
                let b = Self::apply0(a[0])?;
                parse_quote!(if #x { Some(#b) } else { None })
            }
            _ => return None,
        })
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "vec" => {
                if let Ok(mut r) = m.parse_body_with(|i: parse::ParseStream| {
                    let a: Expr = i.parse()?;
                    i.parse::<Token![;]>()?;
                    let b: Expr = i.parse()?;
                    Ok((a, b))
                }) {
                    self.visit_expr_mut(&mut r.0);
                    self.visit_expr_mut(&mut r.1);
                    let (a, b) = r;
                    return Some(parse_quote!(crate::vpre::v_vec(#a, #b)));
                }
                let mut l = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                for e in l.iter_mut() {
                    self.visit_expr_mut(e);
                }
                Some(parse_quote!(vec![#l]))
            }
            "debug_assert" | "assert" => {
                let l = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut c = l.first()?.clone();
                self.visit_expr_mut(&mut c);
                Some(parse_quote!(crate::vpre::v_assert(#c)))
            }
            "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                let l = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let mut it = l.into_iter();
                let (mut a, mut b) = (it.next()?, it.next()?);
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                if name.ends_with("eq") {
                    Some(parse_quote!(crate::vpre::v_assert(#a == #b)))
                } else {
                    Some(parse_quote!(crate::vpre::v_assert(!(#a == #b))))
                }
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Some(parse_quote!(crate::vpre::v_unreachable())),
            "select" => {
                let mut e = select(m.tokens.clone())?;
                self.visit_expr_mut(&mut e);
                Some(e)
            }
            _ => None,
        }
    }

    fn loop_marker(&mut self, body: &mut Block) {
        let k = format!("{}#{}", self.key, self.loops);
        self.loops += 1;
        body.stmts.insert(0, parse_quote!(__vloop!(#k);));
        body.stmts.push(parse_quote!(__vloopend!(#k);));
        // a trailing expression must stay last
        let n = body.stmts.len();
        if n >= 3 {
            if let Stmt::Expr(_, None) = body.stmts[n - 2] {
                if let Stmt::Expr(_, semi) = &mut body.stmts[n - 2] {
                    *semi = Some(Default::default());
                }
            }
        }
    }
}

/// `tokio::select!`: one enabled branch, chosen arbitrarily, is evaluated; if its value does
/// not match the branch pattern the branch is disabled and the others remain (a future that is not
/// cancellation safe may have had its effect although its branch was not chosen); with all
/// branches disabled the else branch runs.
pub fn select(ts: TokenStream) -> Option<Expr> {
    struct Br {
        pat: Pat,
        fut: Expr,
        body: Expr,
    }
    let (brs, els) = parse::Parser::parse2(
        |i: parse::ParseStream| -> Result<(Vec<Br>, Option<Expr>)> {
            let mut v = vec![];
            let mut els = None;
            while !i.is_empty() {
                if i.peek(Token![else]) {
                    i.parse::<Token![else]>()?;
                    i.parse::<Token![=>]>()?;
                    els = Some(i.parse::<Expr>()?);
                } else if i.peek(Ident) && i.peek2(Token![;]) {
                    let _: Ident = i.parse()?; // biased
                    i.parse::<Token![;]>()?;
                    continue;
                } else {
                    let pat = Pat::parse_single(i)?;
                    i.parse::<Token![=]>()?;
                    let fut: Expr = i.parse()?;
                    if i.peek(Token![,]) {
                        return Err(i.error("precondition in select branch"));
                    }
                    i.parse::<Token![=>]>()?;
                    let body: Expr = if i.peek(token::Brace) {
                        let b: Block = i.parse()?;
                        parse_quote!(#b)
                    } else {
                        i.parse()?
                    };
                    v.push(Br { pat, fut, body });
                }
                if i.peek(Token![,]) {
                    i.parse::<Token![,]>()?;
                }
            }
            Ok((v, els))
        },
        ts,
    )
    .ok()?;
    fn build(brs: &[Br], left: Vec<usize>, els: &Option<Expr>) -> Expr {
        if left.is_empty() {
            return match els {
                Some(e) => e.clone(),
                None => parse_quote!(crate::vpre::v_unreachable()),
            };
        }
        let mut e: Option<Expr> = None;
        for &k in left.iter().rev() {
            let rest: Vec<usize> = left.iter().cloned().filter(|x| *x != k).collect();
            let b = &brs[k];
            let (p, f, body) = (&b.pat, &b.fut, &b.body);
            let refutable = !matches!(p, Pat::Ident(_) | Pat::Wild(_));
            let one: Expr = if refutable {
                let next = build(brs, rest, els);
                parse_quote!(match #f { #p => #body, _ => #next })
            } else {
                parse_quote!(match #f { #p => #body })
            };
            // the futures of the other branches are dropped; unless documentation calls them
            // cancellation safe they may have had their effect
            let lost: Vec<&Expr> = left.iter().filter(|j| **j != k && !cancel_safe(&brs[**j].fut)).map(|j| &brs[*j].fut).collect();
            let one: Expr = if lost.is_empty() {
                one
            } else {
                parse_quote!({ #(if crate::vpre::v_nondet() { let _ = #lost; })* #one })
            };
            e = Some(match e {
                None => one,
                Some(o) => parse_quote!(if crate::vpre::v_nondet() { #one } else { #o }),
            });
        }
        e.unwrap()
    }
    Some(build(&brs, (0..brs.len()).collect(), &els))
}

/// Writes the select! macros of all functions out.
pub struct Selects;
impl VisitMut for Selects {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.segments.last().unwrap().ident == "select" {
                if let Some(e) = select(m.mac.tokens.clone()) {
                    *s = Stmt::Expr(e, m.semi_token);
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.segments.last().unwrap().ident == "select" {
                if let Some(x) = select(m.mac.tokens.clone()) {
                    *e = x;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn cancel_safe(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => ["read", "recv", "tick", "changed"].contains(&m.method.to_string().as_str()),
        _ => false,
    }
}

struct HasClosure(bool);
impl<'a> Visit<'a> for HasClosure {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {
        self.0 = true;
    }
}

struct FindBreakValue(bool);
impl<'a> Visit<'a> for FindBreakValue {
    fn visit_expr_break(&mut self, b: &'a ExprBreak) {
        if b.expr.is_some() {
            self.0 = true;
        }
    }
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
}

impl VisitMut for Ctx<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let attrs: &[Attribute] = match &s {
                Stmt::Local(l) => &l.attrs,
                Stmt::Macro(m) => &m.attrs,
                Stmt::Item(i) => item_attrs(i),
                _ => &[],
            };
            if !enabled(attrs) {
                continue;
            }
            if let Stmt::Item(Item::Use(u)) = &s {
                let ts = rewrite_use(u, self.module);
                if let Ok(f) = parse2::<File>(ts) {
                    for i in f.items {
                        out.push(Stmt::Item(i));
                    }
                }
                continue;
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.macro_expr(&m.mac) {
                *s = Stmt::Expr(e, m.semi_token);
                return;
            }
        }
        // `let [a, b] = X;`
        if let Stmt::Local(l) = s {
            let p = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (Pat::Slice(sl), Some(LocalInit { expr, diverge: None, .. })) = (p, &l.init) {
                if sl.elems.iter().all(|x| matches!(x, Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none()) || matches!(x, Pat::Wild(_))) {
                    let elems: Vec<&Pat> = sl.elems.iter().collect();
                    let ix = (0..elems.len()).map(Index::from);
                    *s = parse_quote!(let (#(#elems,)*) = { let __a = #expr; (#(__a[#ix],)*) };);
                }
            }
        }
        // `let PAT = X else { .. };` becomes a match
        if let Stmt::Local(l) = s {
            if let Some(init) = &l.init {
                if let Some((_, els)) = &init.diverge {
                    let pat = l.pat.clone();
                    let x = &init.expr;
                    let mut ids = PatIdents(vec![]);
                    ids.visit_pat(&pat);
                    let names = ids.0;
                    let r: Expr = parse_quote!(match #x { #pat => (#(#names,)*), _ => #els });
                    *s = parse_quote!(let (#(#names,)*) = #r;);
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_macro_mut(&mut self, _: &mut Macro) {}

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_some() {
            p.leading_colon = None;
        }
        if p.segments.len() == 2 {
            let a = p.segments[0].ident.to_string();
            let b = p.segments[1].ident.to_string();
            if matches!(b.as_str(), "from_le_bytes" | "from_be_bytes") {
                *p = syn::parse_str(&format!("crate::vpre::v_{a}_{b}")).unwrap();
                return;
            }
            if a == "Vec" && b == "with_capacity" {
                *p = syn::parse_str("crate::vpre::v_with_capacity").unwrap();
                return;
            }
        }
        if p.segments.len() == 1 && p.segments[0].ident == "Into" {
            p.segments[0].ident = ident("VInto");
            return;
        }
        if p.segments.len() >= 2 {
            let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            if (segs[0] == "std" || segs[0] == "alloc") && segs.len() == 3 && segs[1] == "vec" && segs[2] == "Vec" {
                let last = p.segments.last().unwrap().clone();
                p.segments = Punctuated::new();
                p.segments.push(last);
                return;
            }
            if let Some(m) = map_segs(&segs, self.module) {
                let args: Vec<PathArguments> = p.segments.iter().map(|s| s.arguments.clone()).collect();
                let mut np: Punctuated<PathSegment, Token![::]> = Punctuated::new();
                let n = m.len();
                for (i, s) in m.iter().enumerate() {
                    let from_end = n - 1 - i;
                    let a = if from_end < args.len() { args[args.len() - 1 - from_end].clone() } else { PathArguments::None };
                    np.push(PathSegment { ident: ident(s), arguments: a });
                }
                p.segments = np;
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = self.macro_expr(&m.mac) {
                *e = x;
            }
            return;
        }
        // loops get their number in source order, before their bodies are visited
        match e {
            Expr::Loop(l) => {
                let mut f = FindBreakValue(false);
                f.visit_block(&l.body);
                let id = if f.0 { Some((ident(&format!("__brk{}", self.loops)), false)) } else { None };
                let k = format!("{}#{}", self.key, self.loops);
                self.loop_marker(&mut l.body);
                self.breaks.push(id);
                self.visit_block_mut(&mut l.body);
                let id = self.breaks.pop().unwrap();
                if let Some((id, _)) = id {
                    let ty: Type = match self.breaktypes.get(&k) {
                        Some(t) => syn::parse_str(t).expect("breaktype"),
                        None => parse_quote!(_),
                    };
                    let l = l.clone();
                    *e = parse_quote!({ let #id: #ty; #l #id });
                }
                return;
            }
            Expr::While(w) => {
                self.loop_marker(&mut w.body);
                self.visit_expr_mut(&mut w.cond);
                self.breaks.push(None);
                self.visit_block_mut(&mut w.body);
                self.breaks.pop();
                return;
            }
            Expr::ForLoop(f) => {
                self.loop_marker(&mut f.body);
                self.visit_expr_mut(&mut f.expr);
                let x = &f.expr;
                f.expr = parse_quote!(__viter(#x));
                self.breaks.push(None);
                self.visit_block_mut(&mut f.body);
                self.breaks.pop();
                return;
            }
            _ => {}
        }
        // patterns that must be seen before their parts are rewritten
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if (name == "expect" || name == "unwrap") && is_path_method(&m.receiver, "try_into") {
                if let Expr::MethodCall(inner) = &*m.receiver {
                    let mut r = (*inner.receiver).clone();
                    if let Some((b, rg)) = as_range_index(&r) {
                        r = range_call(b, &rg, false).unwrap();
                    }
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(crate::vpre::v_to_array(#r));
                    return;
                }
            }
            if name == "as_bytes" && m.args.is_empty() {
                if let Expr::Path(p) = &*m.receiver {
                    if let Some(x @ Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) = p.path.get_ident().and_then(|i| self.consts.get(&i.to_string())) {
                        *m.receiver = x.clone();
                    }
                }
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*m.receiver {
                    let b = byte_array(s.value().as_bytes());
                    *e = parse_quote!(crate::vpre::v_slice(#b));
                    return;
                }
            }
            if name == "position" && m.args.len() == 1 && is_path_method(&m.receiver, "windows") {
                if let (Some((p, body)), Expr::MethodCall(w)) = (closure1(&m.args[0]), &*m.receiver) {
                    if let (Pat::Ident(pi), Expr::Binary(b)) = (&p, &body) {
                        if matches!(b.op, BinOp::Eq(_)) {
                            let is = |x: &Expr| matches!(x, Expr::Path(q) if q.path.is_ident(&pi.ident));
                            let other = if is(&b.left) {
                                Some((*b.right).clone())
                            } else if is(&b.right) {
                                Some((*b.left).clone())
                            } else {
                                None
                            };
                            if let Some(mut o) = other {
                                let mut r = (*w.receiver).clone();
                                if let Some((bb, rg)) = as_range_index(&r) {
                                    r = range_call(bb, &rg, false).unwrap();
                                }
                                let mut n = w.args[0].clone();
                                self.visit_expr_mut(&mut r);
                                self.visit_expr_mut(&mut n);
                                self.visit_expr_mut(&mut o);
                                *e = parse_quote!(crate::vpre::v_windows_position(#r, #n, #o));
                                return;
                            }
                        }
                    }
                }
            }
            // v.extend(bytes) and v.extend(bytes.iter()[.copied()])
            if name == "extend" && m.args.len() == 1 {
                let from: Option<Expr> = match &m.args[0] {
                    Expr::Reference(_) => Some(m.args[0].clone()),
                    Expr::MethodCall(c) if matches!(c.method.to_string().as_str(), "copied" | "cloned") && is_path_method(&c.receiver, "iter") => match &*c.receiver {
                        Expr::MethodCall(it) => {
                            let r = &it.receiver;
                            Some(parse_quote!(&#r[..]))
                        }
                        _ => None,
                    },
                    Expr::MethodCall(it) if it.method == "iter" && it.args.is_empty() => {
                        let r = &it.receiver;
                        Some(parse_quote!(&#r[..]))
                    }
                    _ => None,
                };
                if let Some(from) = from {
                    m.method = ident("extend_from_slice");
                    m.args = [from].into_iter().collect();
                }
            }
            if name == "collect" && is_path_method(&m.receiver, "map") {
                if let Expr::MethodCall(mp) = &*m.receiver {
                    let arg = mp.args[0].to_token_stream().to_string().replace(' ', "");
                    let slicing = arg == "Vec::as_slice"
                        || matches!(closure1(&mp.args[0]), Some((Pat::Ident(pi), b)) if b.to_token_stream().to_string().replace(' ', "") == format!("{}.as_slice()", pi.ident));
                    if slicing && is_path_method(&mp.receiver, "iter") {
                        if let Expr::MethodCall(it) = &*mp.receiver {
                            let mut r = (*it.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            *e = parse_quote!(crate::vpre::v_collect_slices(#r));
                            return;
                        }
                    }
                }
            }
            // the combinators of Option and Result that take a closure or a path
            if let Some(mut n) = self.combinator(m) {
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            if (name == "min" || name == "max") && m.args.len() == 1 {
                let f = ident(&name);
                let (a, b) = (&m.receiver, &m.args[0]);
                let mut n: Expr = parse_quote!(crate::deps::cmp::#f(#a, #b));
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
        }
        if let Expr::Reference(r) = e {
            if let Some((b, rg)) = as_range_index(&r.expr) {
                let mut n = range_call(b, &rg, r.mutability.is_some()).unwrap();
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            if let Expr::MethodCall(m) = &mut *r.expr {
                // Pin::new(&mut x) handled below
                let _ = m;
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                const INT: [&str; 6] = ["u8", "u16", "u32", "u64", "usize", "u128"];
                const M: [&str; 14] = ["to_le_bytes", "to_be_bytes", "wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_add", "saturating_sub",
                    "checked_add", "checked_sub", "checked_mul", "min", "max", "abs_diff", "is_multiple_of"];
                if segs.len() == 2 && INT.contains(&segs[0].as_str()) && M.contains(&segs[1].as_str()) && !c.args.is_empty() {
                    let (t, m) = (ident(&segs[0]), ident(&segs[1]));
                    let a = &c.args[0];
                    let rest: Vec<&Expr> = c.args.iter().skip(1).collect();
                    *e = parse_quote!(((#a) as #t).#m(#(#rest),*));
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some((b, rg)) = as_range_index(&m.receiver) {
                let mutable = MUTATING.contains(&m.method.to_string().as_str());
                m.receiver = Box::new(range_call(b, &rg, mutable).unwrap());
            }
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if (f == "Pin::new" || f == "std::pin::Pin::new" || f == "core::pin::Pin::new") && c.args.len() == 1 {
                let mut a = c.args[0].clone();
                self.visit_expr_mut(&mut a);
                *e = parse_quote!((#a));
                return;
            }
            if (f == "Vec::from" || f == "std::vec::Vec::from") && c.args.len() == 1 {
                if let Expr::Reference(x) = &c.args[0] {
                    if x.mutability.is_none() && as_range_index(&x.expr).is_some() {
                        let x = (*x.expr).clone();
                        *e = parse_quote!(#x.to_vec());
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        if let Expr::Try(t) = e {
            let mut x = (*t.expr).clone();
            self.visit_expr_mut(&mut x);
            *e = parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(core::convert::From::from(__e)) });
            return;
        }
        if let Expr::Break(b) = e {
            if let Some(v) = &b.expr {
                if let Some(Some((id, _))) = self.breaks.last() {
                    let id = id.clone();
                    let mut v = (**v).clone();
                    self.visit_expr_mut(&mut v);
                    *e = parse_quote!({ #id = #v; break; });
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Await(a) => {
                let b = (*a.base).clone();
                let b: Expr = match b {
                    b @ (Expr::Path(_) | Expr::Field(_)) => parse_quote!(#b.v_await()),
                    b => b,
                };
                // Futures which documentation says are cancellation safe: dropped while pending, nothing happened.
                let safe = cancel_safe(&b);
                *e = if self.cancellable && safe {
                    // the future may be dropped at every suspension point
                    parse_quote!({ if crate::vpre::v_cancelled() { return crate::vpre::v_cancel(); } #b })
                } else if self.cancellable {
                    // any other one may have had its effect when it is dropped
                    parse_quote!({
                        if crate::vpre::v_cancelled() { return crate::vpre::v_cancel(); }
                        let __aw = #b;
                        if crate::vpre::v_cancelled() { return crate::vpre::v_cancel(); }
                        __aw
                    })
                } else {
                    b
                };
            }
            Expr::Async(a) => {
                let b = &a.block;
                *e = parse_quote!(move || #b);
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "as_deref" | "unwrap_or_default" | "to_le_bytes" | "to_be_bytes" | "to_vec" | "starts_with" | "ends_with" => {
                        m.method = ident(&format!("v_{name}"));
                    }
                    "get_mut" if m.args.is_empty() && m.receiver.to_token_stream().to_string() == "self" => {
                        let r = (*m.receiver).clone();
                        *e = r;
                    }
                    _ => {}
                }
            }
            Expr::Repeat(r) => {
                if let Some(n) = eval(&r.len, self.consts) {
                    let l = Lit::Int(LitInt::new(&n.to_string(), Span::call_site()));
                    let x = &r.expr;
                    *e = parse_quote!(crate::vpre::v_fill::<_, #l>(#x));
                }
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let v = b.value();
                *e = byte_array(&v);
            }
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                if let Some(v) = self.consts.get(&n) {
                    if matches!(v, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) {
                        *e = v.clone();
                    } else if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = v {
                        let a = byte_array(&b.value());
                        *e = parse_quote!(crate::vpre::v_slice(#a));
                    } else if matches!(v, Expr::Array(_) | Expr::Repeat(_)) {
                        let v = EMPTY.with(|s| s.borrow().get(&n).cloned()).unwrap_or(v.clone());
                        *e = v;
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Div(_)) => {
                let is_f = |x: &Expr| matches!(x, Expr::Cast(c) if c.ty.to_token_stream().to_string() == "f64");
                if let (true, Expr::Cast(x), true, Expr::Cast(y)) = (is_f(&b.left), &*b.left, is_f(&b.right), &*b.right) {
                    let (x, y) = (&x.expr, &y.expr);
                    *e = parse_quote!(crate::vpre::v_fdiv(#x, #y));
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    let r = r.clone();
                    let b = (*ix.expr).clone();
                    *e = parse_quote!((*__dummy));
                    if let Some(n) = range_call(b, &r, false) {
                        *e = n;
                    }
                }
            }
            _ => {}
        }
    }

    fn visit_trait_bound_mut(&mut self, t: &mut TraitBound) {
        visit_mut::visit_trait_bound_mut(self, t);
    }

    fn visit_generics_mut(&mut self, g: &mut Generics) {
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                t.bounds = clean_bounds(std::mem::take(&mut t.bounds));
                if t.bounds.is_empty() {
                    t.colon_token = None;
                }
            }
        }
        if let Some(w) = &mut g.where_clause {
            let preds = std::mem::take(&mut w.predicates);
            for mut p in preds {
                if let WherePredicate::Type(t) = &mut p {
                    t.bounds = clean_bounds(std::mem::take(&mut t.bounds));
                    if t.bounds.is_empty() {
                        continue;
                    }
                }
                w.predicates.push(p);
            }
            if w.predicates.is_empty() {
                g.where_clause = None;
            }
        }
        visit_mut::visit_generics_mut(self, g);
    }
}

struct PatIdents(Vec<Ident>);
impl<'a> Visit<'a> for PatIdents {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.push(p.ident.clone());
    }
}

type Bounds = Punctuated<TypeParamBound, Token![+]>;
fn clean_bounds(b: Bounds) -> Bounds {
    b.into_iter()
        .filter(|x| match x {
            TypeParamBound::Trait(t) => {
                let n = t.path.segments.last().unwrap().ident.to_string();
                !(matches!(n.as_str(), "Send" | "Sync" | "Unpin") || matches!(t.modifier, TraitBoundModifier::Maybe(_)))
            }
            TypeParamBound::Lifetime(l) => l.ident != "static",
            _ => true,
        })
        .collect()
}

/// Local names of string literals are replaced by the literal.
fn literals(b: &mut Block) {
    #[derive(Default)]
    struct Find(BTreeMap<String, Expr>, BTreeMap<String, usize>);
    impl<'a> Visit<'a> for Find {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            *self.1.entry(p.ident.to_string()).or_default() += 1;
            visit::visit_pat_ident(self, p);
        }
        fn visit_local(&mut self, l: &'a Local) {
            let p = match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            };
            if let (Pat::Ident(i), Some(LocalInit { expr, diverge: None, .. })) = (p, &l.init) {
                if i.mutability.is_none() && i.by_ref.is_none() && matches!(&**expr, Expr::Lit(ExprLit { lit: Lit::Str(_) | Lit::ByteStr(_), .. })) {
                    self.0.insert(i.ident.to_string(), (**expr).clone());
                }
            }
            visit::visit_local(self, l);
        }
    }
    let mut f = Find::default();
    f.visit_block(b);
    let map: BTreeMap<String, (Expr, bool, bool)> =
        f.0.into_iter().filter(|(k, _)| f.1.get(k) == Some(&1)).map(|(k, e)| (k, (e, false, false))).collect();
    if !map.is_empty() {
        crate::inline::Subst(&map).visit_block_mut(b);
    }
}

// ------------------------------------------------------------------ items

fn collect_consts(items: &[Item]) -> BTreeMap<String, Expr> {
    let mut m = BTreeMap::new();
    for i in items {
        if let Item::Const(c) = i {
            // an array constant is written out where it is used, with its element type
            let mut x = (*c.expr).clone();
            if let (Expr::Array(a), Type::Array(t)) = (&mut x, &*c.ty) {
                let ty = t.elem.to_token_stream().to_string();
                if a.elems.is_empty() {
                    let el = &t.elem;
                    x = Expr::Array(a.clone());
                    let call: Expr = parse_quote!(crate::vpre::v_empty::<#el>());
                    EMPTY.with(|s| s.borrow_mut().insert(c.ident.to_string(), call));
                } else {
                    for e in a.elems.iter_mut() {
                        if let Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) = e {
                            if l.suffix().is_empty() && matches!(ty.as_str(), "u8" | "u16" | "u32" | "u64" | "usize") {
                                *l = LitInt::new(&format!("{}{}", l.base10_digits(), ty), l.span());
                            }
                        }
                    }
                }
            }
            m.insert(c.ident.to_string(), x);
        }
    }
    m
}

thread_local! {
    /// Functions of the source which return an Option (true) or a Result (false).
    pub static KINDS: std::cell::RefCell<BTreeMap<String, Option<bool>>> = Default::default();
    pub static CONSTS: std::cell::RefCell<BTreeMap<String, Expr>> = Default::default();
    pub static EMPTY: std::cell::RefCell<BTreeMap<String, Expr>> = Default::default();
    pub static BREAKTYPES: std::cell::RefCell<BTreeMap<String, String>> = Default::default();
}

/// Option: true, Result: false, not known: None.
fn kind(e: &Expr) -> Option<bool> {
    let named = |n: &str| KINDS.with(|k| k.borrow().get(n).copied()).flatten();
    match e {
        Expr::Paren(p) => kind(&p.expr),
        Expr::Await(p) => kind(&p.base),
        Expr::Call(c) => {
            let Expr::Path(p) = &*c.func else { return None };
            match p.path.segments.last()?.ident.to_string().as_str() {
                "Some" => Some(true),
                "Ok" | "Err" => Some(false),
                n => named(n),
            }
        }
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "map" | "and_then" | "as_ref" | "as_mut" | "or_else" | "or" | "inspect" | "filter" | "copied" | "cloned" => kind(&m.receiver),
            "ok" | "err" | "position" | "get" | "take" | "first" | "last" | "find" | "next" | "pop" | "checked_add" | "checked_sub" => Some(true),
            "ok_or" | "ok_or_else" | "map_err" | "inspect_err" | "duration_since" | "lock" | "try_lock" | "send" | "try_into" | "join" | "write_all" | "flush" | "read_exact" | "expand" => Some(false),
            n => named(n),
        },
        _ => None,
    }
}

pub fn note_kinds(items: &[Item]) {
    struct K;
    impl<'a> Visit<'a> for K {
        fn visit_signature(&mut self, s: &'a Signature) {
            let k = match &s.output {
                ReturnType::Type(_, t) => match &**t {
                    Type::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
                        "Option" => Some(true),
                        "Result" => Some(false),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            KINDS.with(|m| {
                let mut m = m.borrow_mut();
                let e = m.entry(s.ident.to_string()).or_insert(k);
                if *e != k {
                    *e = None;
                }
            });
        }
    }
    for i in items {
        K.visit_item(i);
    }
}

pub fn note_consts(items: &[Item]) {
    CONSTS.with(|c| c.borrow_mut().extend(collect_consts(items)));
}

fn pub_vis() -> Visibility {
    parse_quote!(pub)
}

fn pub_fields(f: &mut Fields) {
    for x in f.iter_mut() {
        x.attrs.clear();
        x.vis = pub_vis();
    }
}


fn function(
    sig: &mut Signature,
    block: Option<&mut Block>,
    key: &str,
    module: &str,
    cfg: &Config,
    rep: &mut Report,
    seen: &mut BTreeSet<String>,
    in_trait: bool,
) -> Vec<Stmt> {
    let consts = CONSTS.with(|c| c.borrow().clone());
    let breaktypes = BREAKTYPES.with(|c| c.borrow().clone());
    let contracted = cfg.contracts.contains_key(key);
    if contracted {
        seen.insert(key.to_string());
    } else {
        rep.uncontracted.push(key.to_string());
    }
    rep.functions.push(key.to_string());
    {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        sig.to_token_stream().to_string().hash(&mut h);
        block.as_ref().map(|b| b.to_token_stream().to_string()).hash(&mut h);
        rep.shapes.insert(key.to_string(), vec![format!("{:016x}", h.finish())]);
    }
    sig.asyncness = None;
    sig.constness = None;
    let mut pre: Vec<Stmt> = vec![];
    let mut self_this = false;
    // receivers
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        r.attrs.clear();
        if r.colon_token.is_some() {
            let t = r.ty.to_token_stream().to_string().replace(' ', "");
            if t == "Pin<&mutSelf>" || t.ends_with("pin::Pin<&mutSelf>") {
                *r = parse_quote!(&mut self);
            }
        } else if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            self_this = true;
        } else if r.reference.is_some() && r.mutability.is_none() && cfg.contracts.get(key).is_some_and(|p| p.first().is_some_and(|x| x == "&mut self")) {
            // sequentialised view of a method on shared state
            *r = parse_quote!(&mut self);
        }
    }
    // parameters
    let names: Vec<String> = cfg
        .contracts
        .get(key)
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .filter(|n| n != "self" && n != "&mut self")
        .collect();
    let mut map = BTreeMap::new();
    let mut idx = 0;
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            t.attrs.clear();
            if let Pat::Ident(pi) = &mut *t.pat {
                let cur = pi.ident.to_string();
                if let Some(n) = names.get(idx) {
                    if n != "_" && *n != cur {
                        map.insert(cur.clone(), n.clone());
                        pi.ident = ident(n);
                    }
                }
                if pi.mutability.is_some() {
                    pi.mutability = None;
                    let i = pi.ident.clone();
                    pre.push(parse_quote!(let mut #i = #i;));
                }
            } else if matches!(&*t.pat, Pat::Wild(_)) {
                let n = names.get(idx).cloned().unwrap_or(format!("_p{idx}"));
                let i = ident(&n);
                *t.pat = parse_quote!(#i);
            }
            idx += 1;
        }
    }
    let mut cx = Ctx {
        module,
        consts: &consts,
        key: key.to_string(),
        loops: 0,
        breaks: vec![],
        notes: vec![],
        breaktypes: &breaktypes,
        cancellable: cfg.cancellable.contains(key),
    };
    cx.visit_generics_mut(&mut sig.generics);
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Type::ImplTrait(it) = &mut *t.ty {
                it.bounds = clean_bounds(std::mem::take(&mut it.bounds));
            }
            cx.visit_type_mut(&mut t.ty);
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output {
        cx.visit_type_mut(t);
        let t2 = t.clone();
        **t = parse_quote!(__VRET<#t2>);
    }
    let marker: Stmt = if in_trait && block.is_none() {
        parse_quote!(__vdecl!(#key);)
    } else {
        parse_quote!(__vcontract!(#key);)
    };
    let mut stmts = vec![marker];
    if let Some(b) = block {
        if cfg.external.contains(key) {
            stmts.push(parse_quote!(__vexternal!();));
            return stmts;
        }
        if !map.is_empty() {
            Rename(&map).visit_block_mut(b);
        }
        if self_this {
            SelfRename.visit_block_mut(b);
            pre.insert(0, parse_quote!(let mut this = self;));
        }
        rep.locals.insert(key.to_string(), locals_of(b));
        rep.uses.insert(key.to_string(), uses_of(b));
        literals(b);
        let ints: BTreeSet<String> = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                    (Pat::Ident(i), Type::Reference(r)) if matches!(&*r.elem, Type::Path(p) if p.path.get_ident().is_some_and(|x| matches!(x.to_string().as_str(), "u8" | "u16" | "u32" | "u64" | "usize"))) => {
                        Some(i.ident.to_string())
                    }
                    _ => None,
                },
                _ => None,
            })
            .collect();
        if !ints.is_empty() {
            RefInts(&ints).visit_block_mut(b);
        }
        cx.visit_block_mut(b);
        let mut hc = HasClosure(false);
        hc.visit_block(b);
        if hc.0 {
            rep.closures.push(key.to_string());
        }
        rep.loops.insert(key.to_string(), cx.loops);
        for (k, callee) in cfg.afters.iter() {
            if k == key {
                After { key, callee, done: false }.visit_block_mut(b);
            }
        }
        for (k, callee) in cfg.befores.iter() {
            if k == key {
                Before { key, callee }.visit_block_mut(b);
            }
        }
        if cfg.exits.contains(key) {
            match b.stmts.pop() {
                Some(Stmt::Expr(e, None)) => {
                    b.stmts.push(parse_quote!(let __r = #e;));
                    b.stmts.push(parse_quote!(__vexit!(#key);));
                    b.stmts.push(Stmt::Expr(parse_quote!(__r), None));
                }
                s => {
                    b.stmts.extend(s);
                    b.stmts.push(parse_quote!(__vexit!(#key);));
                }
            }
        }
        stmts.extend(pre);
        stmts.extend(b.stmts.iter().cloned());
    }
    stmts
}

/// Names bound in a block, in order of appearance.
/// The local names in the order they are bound, with `#n` and `/n` around the body of loop n.
/// Operands of type `&u8` and the like are dereferenced.
struct RefInts<'a>(&'a BTreeSet<String>);
impl VisitMut for RefInts<'_> {
    fn visit_expr_binary_mut(&mut self, b: &mut ExprBinary) {
        visit_mut::visit_expr_binary_mut(self, b);
        use BinOp::*;
        if matches!(b.op, Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | BitAnd(_) | BitOr(_) | BitXor(_) | Shl(_) | Shr(_)) {
            for e in [&mut b.left, &mut b.right] {
                if matches!(&**e, Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.0.contains(&i.to_string()))) {
                    let x = (**e).clone();
                    **e = parse_quote!((*#x));
                }
            }
        }
    }
}

/// The identifiers in each loop.
fn uses_of(b: &Block) -> Vec<String> {
    struct U(Vec<String>);
    // (fields and methods, and the fields of a literal, are not variables)
    fn idents(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        use proc_macro2::TokenTree::{Group, Ident, Punct};
        let ts: Vec<_> = t.into_iter().collect();
        let punct = |n: Option<usize>, c: char| n.is_some_and(|n| matches!(ts.get(n), Some(Punct(p)) if p.as_char() == c));
        let word = |n: Option<usize>| match n.and_then(|n| ts.get(n)) {
            Some(Ident(i)) => i.to_string(),
            _ => String::new(),
        };
        for (n, x) in ts.iter().enumerate() {
            let (b, bb) = (n.checked_sub(1), n.checked_sub(2));
            match x {
                Ident(_) if punct(b, '.') && !punct(bb, '.') => {}
                Ident(_)
                    if punct(Some(n + 1), ':')
                        && !punct(Some(n + 2), ':')
                        && !["let", "mut"].contains(&word(b).as_str()) => {}
                Ident(i) => drop(out.insert(i.to_string())),
                Group(g) => idents(g.stream(), out),
                _ => {}
            }
        }
    }
    impl<'a> syn::visit::Visit<'a> for U {
        fn visit_expr(&mut self, e: &'a Expr) {
            if let Expr::While(w) = e {
                // loops are counted where their body begins
                self.visit_expr(&w.cond);
            } else if let Expr::ForLoop(f) = e {
                self.visit_expr(&f.expr);
            }
            let body = match e {
                Expr::While(w) => &w.body,
                Expr::ForLoop(f) => &f.body,
                Expr::Loop(l) => &l.body,
                e => return syn::visit::visit_expr(self, e),
            };
            let mut s = BTreeSet::new();
            idents(e.to_token_stream(), &mut s);
            self.0.push(s.into_iter().collect::<Vec<_>>().join(" "));
            self.visit_block(body);
        }
    }
    let mut u = U(vec![]);
    syn::visit::Visit::visit_block(&mut u, b);
    u.0
}

fn locals_of(b: &Block) -> Vec<String> {
    struct L(Vec<String>, usize);
    impl L {
        fn body(&mut self, b: &Block) {
            let n = self.1;
            self.1 += 1;
            self.0.push(format!("#{n}"));
            syn::visit::Visit::visit_block(self, b);
            self.0.push(format!("/{n}"));
        }
    }
    impl<'a> syn::visit::Visit<'a> for L {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            let n = p.ident.to_string();
            if !n.starts_with("__") && n.starts_with(|c: char| c.is_lowercase() || c == '_') {
                self.0.push(n);
            }
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_local(&mut self, l: &'a Local) {
            if let Some(i) = &l.init {
                self.visit_local_init(i);
            }
            self.visit_pat(&l.pat);
        }
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::While(w) => {
                    self.visit_expr(&w.cond);
                    self.body(&w.body);
                }
                Expr::ForLoop(f) => {
                    self.visit_pat(&f.pat);
                    self.visit_expr(&f.expr);
                    self.body(&f.body);
                }
                Expr::Loop(l) => self.body(&l.body),
                e => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut l = L(vec![], 0);
    syn::visit::Visit::visit_block(&mut l, b);
    l.0
}

/// Marks the place after the first `let` whose value comes from a call of `callee`.
struct After<'a> {
    key: &'a str,
    callee: &'a str,
    done: bool,
}
struct Calls<'a>(&'a str, bool);
impl<'a, 'b> syn::visit::Visit<'b> for Calls<'a> {
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().map_or(false, |s| s.ident == self.0) {
                self.1 = true;
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'b syn::ExprMethodCall) {
        if c.method == self.0 {
            self.1 = true;
        }
        syn::visit::visit_expr_method_call(self, c);
    }
}
/// Marks the place before every call of the method `callee`.
struct Before<'a> {
    key: &'a str,
    callee: &'a str,
}
impl VisitMut for Before<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == self.callee {
                let k = format!("{}#{}", self.key, self.callee);
                *e = parse_quote!({ __vbefore!(#k); #m });
            }
        }
    }
}
impl<'a> VisitMut for After<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() && !self.done {
            if let Stmt::Local(l) = &b.stmts[i] {
                let id = match &l.pat {
                    syn::Pat::Ident(p) => Some(p.ident.clone()),
                    _ => None,
                };
                if let (Some(id), Some(init)) = (id, &l.init) {
                    let mut c = Calls(self.callee, false);
                    syn::visit::Visit::visit_expr(&mut c, &init.expr);
                    if c.1 {
                        let k = format!("{}#{}", self.key, self.callee);
                        b.stmts.insert(i + 1, parse_quote!(__vafter!(#k, #id);));
                        self.done = true;
                        return;
                    }
                }
            }
            i += 1;
        }
        if !self.done {
            visit_mut::visit_block_mut(self, b);
        }
    }
}

pub fn item(
    it: Item,
    module: &str,
    cfg: &Config,
    rep: &mut Report,
    seen: &mut BTreeSet<String>,
) -> Vec<TokenStream> {
    let consts = CONSTS.with(|c| c.borrow().clone());
    let bt = BTreeMap::new();
    let mut cx = Ctx {
        module,
        consts: &consts,
        key: String::new(),
        loops: 0,
        breaks: vec![],
        notes: vec![],
        breaktypes: &bt,
        cancellable: false,
    };
    match it {
        Item::Use(u) => vec![rewrite_use(&u, module)],
        Item::Const(mut c) => {
            c.attrs.clear();
            c.vis = pub_vis();
            if matches!(&*c.expr, Expr::Lit(ExprLit { lit: Lit::Str(_) | Lit::ByteStr(_), .. })) {
                return vec![];
            }
            if let Type::Reference(r) = &mut *c.ty {
                r.lifetime = Some(parse_quote!('static));
            }
            if matches!(&*c.expr, Expr::Array(_) | Expr::Repeat(_)) {
                // array constants are written out where they are used
                return vec![];
            }
            if let Some(v) = eval(&c.expr, &consts) {
                let l = Lit::Int(LitInt::new(&v.to_string(), Span::call_site()));
                c.expr = parse_quote!(#l);
            }
            cx.visit_type_mut(&mut c.ty);
            vec![c.to_token_stream()]
        }
        Item::Struct(mut s) => {
            let d = derives(&s.attrs);
            s.attrs.clear();
            s.vis = pub_vis();
            pub_fields(&mut s.fields);
            cx.visit_item_struct_mut(&mut s);
            strip_default_generics(&mut s.generics);
            let mut out = vec![];
            out.push(derive_attr(&d, s.fields.is_empty()));
            out.push(s.to_token_stream());
            out.extend(clone_impl(&d, &s.ident, &s.generics));
            out.push(debug_impl(&d, &s.ident, &s.generics));
            if d.contains("Default") && s.generics.params.is_empty() {
                let fs: Vec<&Ident> = s.fields.iter().filter_map(|f| f.ident.as_ref()).collect();
                let n = &s.ident;
                let body: TokenStream = quote!(#n { #(#fs: core::default::Default::default()),* });
                out.push(default_impl(n, body));
            }
            vec![out.into_iter().collect()]
        }
        Item::Enum(mut s) => {
            let dflt = s.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).map(|v| v.ident.clone());
            let d = derives(&s.attrs);
            s.attrs.clear();
            s.vis = pub_vis();
            let fieldless = s.variants.iter().all(|v| v.fields.is_empty());
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            cx.visit_item_enum_mut(&mut s);
            let mut out = vec![derive_attr(&d, fieldless)];
            out.push(s.to_token_stream());
            out.extend(clone_impl(&d, &s.ident, &s.generics));
            out.push(debug_impl(&d, &s.ident, &s.generics));
            if let (true, Some(v)) = (d.contains("Default"), dflt) {
                let n = &s.ident;
                out.push(default_impl(n, quote!(#n::#v)));
            }
            vec![out.into_iter().collect()]
        }
        Item::Type(mut t) => {
            t.attrs.clear();
            t.vis = pub_vis();
            cx.visit_item_type_mut(&mut t);
            vec![t.to_token_stream()]
        }
        Item::Fn(mut f) => {
            f.attrs.clear();
            f.vis = pub_vis();
            let key = fn_key(module, None, None, &f.sig.ident.to_string());
            let st = function(&mut f.sig, Some(&mut f.block), &key, module, cfg, rep, seen, false);
            f.block.stmts = st;
            let a = fn_attrs(cfg, &key);
            vec![quote!(#a #f)]
        }
        Item::Impl(mut im) => {
            im.attrs.clear();
            let ty = type_ident(&im.self_ty);
            let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
            cx.visit_generics_mut(&mut im.generics);
            cx.visit_type_mut(&mut im.self_ty);
            if let Some((_, p, _)) = &mut im.trait_ {
                cx.visit_path_mut(p);
            }
            let mut body = TokenStream::new();
            for i in im.items.iter_mut() {
                match i {
                    ImplItem::Fn(f) => {
                        f.attrs.clear();
                        if im.trait_.is_none() {
                            f.vis = pub_vis();
                        }
                        let mut key = fn_key(module, Some(&ty), tr.as_deref(), &f.sig.ident.to_string());
                        if let Some((_, p, _)) = &im.trait_ {
                            if tr.as_deref() == Some("From") {
                                // From<X> for Y: several impls share the name
                                let src = match &p.segments.last().unwrap().arguments {
                                    PathArguments::AngleBracketed(a) => a.args.to_token_stream().to_string().replace(' ', ""),
                                    _ => String::new(),
                                };
                                key = format!("{}{} as From<{}>::from", if module.is_empty() { String::new() } else { format!("{module}::") }, ty, src);
                            }
                        }
                        let st = function(&mut f.sig, Some(&mut f.block), &key, module, cfg, rep, seen, false);
                        f.block.stmts = st;
                        let a = fn_attrs(cfg, &key);
                        body.extend(quote!(#a #f));
                    }
                    other => body.extend(other.to_token_stream()),
                }
            }
            let spec_marker: TokenStream = match &tr {
                Some(t) => {
                    let k = format!("{}{} as {}", if module.is_empty() { String::new() } else { format!("{module}::") }, ty, t);
                    quote!(__vimpl!(#k);)
                }
                None => TokenStream::new(),
            };
            let (ig, _, wc) = im.generics.split_for_impl();
            let st = &im.self_ty;
            let head = match &im.trait_ {
                Some((_, p, _)) => quote!(impl #ig #p for #st #wc),
                None => quote!(impl #ig #st #wc),
            };
            vec![quote!(#head { #spec_marker #body })]
        }
        Item::Trait(mut t) => {
            t.attrs.clear();
            t.vis = pub_vis();
            t.supertraits = clean_bounds(std::mem::take(&mut t.supertraits));
            if t.supertraits.is_empty() {
                t.colon_token = None;
            }
            cx.visit_generics_mut(&mut t.generics);
            let name = t.ident.to_string();
            for i in t.items.iter_mut() {
                if let TraitItem::Fn(f) = i {
                    f.attrs.clear();
                    let key = fn_key(module, Some(&name), None, &f.sig.ident.to_string());
                    let st = match f.default.take() {
                        Some(mut b) => function(&mut f.sig, Some(&mut b), &key, module, cfg, rep, seen, true),
                        None => function(&mut f.sig, None, &key, module, cfg, rep, seen, true),
                    };
                    f.default = Some(parse_quote!({ #(#st)* }));
                    f.semi_token = None;
                }
            }
            let k = format!("{}{}", if module.is_empty() { String::new() } else { format!("{module}::") }, name);
            let marker: TraitItem = parse_quote!(__vimpl!(#k););
            t.items.insert(0, marker);
            vec![t.to_token_stream()]
        }
        _ => {
            rep.dropped.push(format!("{module}: other item"));
            vec![]
        }
    }
}

fn strip_default_generics(g: &mut Generics) {
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            let _ = t;
        }
    }
}

fn fn_attrs(cfg: &Config, key: &str) -> TokenStream {
    if cfg.external.contains(key) {
        quote!(#[verifier::external_body])
    } else {
        quote!(#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants])
    }
}

/// Debug is formatting only; a stub keeps `expect` and `unwrap` well typed.
fn debug_impl(d: &BTreeSet<String>, n: &Ident, g: &Generics) -> TokenStream {
    if d.contains("Debug") && g.params.is_empty() {
        quote!(#[verifier::external] impl core::fmt::Debug for #n {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
        })
    } else {
        TokenStream::new()
    }
}

fn derive_attr(d: &BTreeSet<String>, fieldless: bool) -> TokenStream {
    let mut l: Vec<Ident> = vec![];
    if d.contains("Copy") {
        l.push(ident("Clone"));
        l.push(ident("Copy"));
    }
    if fieldless && d.contains("PartialEq") {
        l.push(ident("PartialEq"));
        l.push(ident("Eq"));
        l.push(ident("Structural"));
    }
    if l.is_empty() {
        TokenStream::new()
    } else {
        quote!(#[derive(#(#l),*)])
    }
}

/// A derived Default written out.
fn default_impl(n: &Ident, body: TokenStream) -> TokenStream {
    let k = format!("derived-default {n}");
    quote!(impl Default for #n { fn default() -> __VRET<Self> { __vcontract!(#k); #body } })
}

/// A derived Clone is taken to return an equal value.
fn clone_impl(d: &BTreeSet<String>, name: &Ident, g: &Generics) -> Vec<TokenStream> {
    if d.contains("Clone") && !d.contains("Copy") {
        let (ig, tg, wc) = g.split_for_impl();
        let k = format!("derived-clone {name}");
        vec![quote!(impl #ig Clone for #name #tg #wc {
            #[verifier::external_body]
            fn clone(&self) -> __VRET<Self> { __vcontract!(#k); __vexternal!(); }
        })]
    } else {
        vec![]
    }
}
