//! Inlining of helpers that carry no contract: a call is replaced by the body with the arguments bound
//! to the parameters, so that what is verified is still the text of the helper.
//!
//! * `let p = a;` for parameters (temporaries first where names could be captured); a reference
//!   parameter whose argument is `&place`, `&mut place` or a variable is replaced by the place.
//! * `return e` and `?` inside the helper become nested `match`/`if` expressions (`Tail`), or stay where
//!   the call is the value the caller returns.
//! * what cannot be expressed so stays a call (reported as `opaque`).
use crate::*;
use syn::punctuated::Punctuated;

#[derive(Clone)]
struct Helper {
    key: String,
    module: String,
    ty: Option<Type>,
    tyname: Option<String>,
    sig: Signature,
    block: Block,
}

pub fn run(modules: &mut BTreeMap<String, Vec<Item>>, cfg: &Config, rep: &mut Report) {
    let mut hs: Vec<Helper> = vec![];
    for (m, items) in modules.iter() {
        for it in items {
            match it {
                Item::Fn(f) => {
                    let key = fn_key(m, None, None, &f.sig.ident.to_string());
                    if wanted(&key, &f.sig, &f.block, cfg) {
                        hs.push(Helper { key, module: m.clone(), ty: None, tyname: None, sig: f.sig.clone(), block: (*f.block).clone() });
                    }
                }
                Item::Impl(im) if im.trait_.is_none() => {
                    let ty = type_ident(&im.self_ty);
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            let key = fn_key(m, Some(&ty), None, &f.sig.ident.to_string());
                            if wanted(&key, &f.sig, &f.block, cfg) {
                                hs.push(Helper { key, module: m.clone(), ty: Some((*im.self_ty).clone()), tyname: Some(ty.clone()), sig: f.sig.clone(), block: f.block.clone() });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    if hs.is_empty() {
        return;
    }
    let k = known(modules, &hs);
    KNOWN.with(|x| *x.borrow_mut() = k);
    rep.inlinable = hs.iter().map(|h| h.key.clone()).collect();
    for (m, items) in modules.iter_mut() {
        for it in items.iter_mut() {
            match it {
                Item::Fn(f) => {
                    let key = fn_key(m, None, None, &f.sig.ident.to_string());
                    if cfg.contracts.contains_key(&key) {
                        body(&hs, m, None, &key, &f.sig, &mut f.block, rep);
                    }
                }
                Item::Impl(im) => {
                    let ty = type_ident(&im.self_ty);
                    let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    for x in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            let key = fn_key(m, Some(&ty), tr.as_deref(), &f.sig.ident.to_string());
                            if cfg.contracts.contains_key(&key) || tr.is_some() {
                                body(&hs, m, Some(&ty), &key, &f.sig, &mut f.block, rep);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    // a helper which is called nowhere any more is no longer needed
    let called: BTreeSet<String> = rep.opaque.iter().map(|o| o.rsplit(' ').next().unwrap().to_string()).collect();
    for (m, items) in modules.iter_mut() {
        for it in items.iter_mut() {
            if let Item::Impl(im) = it {
                let ty = type_ident(&im.self_ty);
                if im.trait_.is_none() {
                    im.items.retain(|x| match x {
                        ImplItem::Fn(f) => keep(&fn_key(m, Some(&ty), None, &f.sig.ident.to_string()), rep, &called),
                        _ => true,
                    });
                }
            }
        }
        items.retain(|it| match it {
            Item::Fn(f) => keep(&fn_key(m, None, None, &f.sig.ident.to_string()), rep, &called),
            _ => true,
        });
    }
}

fn keep(key: &str, rep: &Report, called: &BTreeSet<String>) -> bool {
    !rep.inlined.iter().any(|k| k.rsplit(' ').next() == Some(key)) || !called.is_empty()
}

fn wanted(key: &str, sig: &Signature, block: &Block, cfg: &Config) -> bool {
    if cfg.contracts.contains_key(key) || cfg.omit.contains(key) || cfg.noinline.contains(key) || sig.unsafety.is_some() {
        return false;
    }
    if sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() || matches!(a, FnArg::Receiver(r) if r.colon_token.is_some()))) {
        return false;
    }
    if sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if !matches!(&*t.pat, Pat::Ident(_) | Pat::Wild(_)))) {
        return false;
    }
    // not recursive
    struct C<'x>(&'x Ident, bool);
    impl<'a> Visit<'a> for C<'_> {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            self.1 |= matches!(&*c.func, Expr::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == *self.0));
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
            self.1 |= c.method == *self.0 && matches!(&*c.receiver, Expr::Path(p) if p.path.is_ident("self"));
            syn::visit::visit_expr_method_call(self, c);
        }
    }
    let mut c = C(&sig.ident, false);
    c.visit_block(block);
    !c.1
}

/// What method calls are resolved with: fields of the structures, and methods which are not helpers.
#[derive(Default)]
pub struct Known {
    fields: BTreeMap<(String, String), String>,
    methods: BTreeSet<(String, String)>,
    returns: BTreeMap<(String, String), String>,
}

fn base(t: &str) -> &str {
    t.split('<').next().unwrap().trim()
}

/// The name of the type behind references and shared pointers.
fn plain(t: &Type) -> Option<String> {
    match t {
        Type::Reference(r) => plain(&r.elem),
        Type::Paren(p) => plain(&p.elem),
        Type::Path(p) => {
            let s = p.path.segments.last()?;
            if s.ident == "Arc" || s.ident == "Box" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() {
                        return plain(t);
                    }
                }
            }
            Some(s.ident.to_string())
        }
        _ => None,
    }
}

fn known(modules: &BTreeMap<String, Vec<Item>>, hs: &[Helper]) -> Known {
    let mut k = Known::default();
    for items in modules.values() {
        for it in items {
            match it {
                Item::Struct(s) => {
                    for f in &s.fields {
                        if let (Some(n), Some(t)) = (&f.ident, plain(&f.ty)) {
                            k.fields.insert((s.ident.to_string(), n.to_string()), t);
                        }
                    }
                }
                Item::Impl(im) => {
                    let ty = type_ident(&im.self_ty);
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if let ReturnType::Type(_, t) = &f.sig.output {
                                if let Some(t) = plain(t) {
                                    let t = if t == "Self" { base(&ty).to_string() } else { t };
                                    k.returns.insert((base(&ty).to_string(), f.sig.ident.to_string()), t);
                                }
                            }
                            if !hs.iter().any(|h| h.sig.ident == f.sig.ident && h.tyname.as_deref() == Some(ty.as_str())) {
                                k.methods.insert((base(&ty).to_string(), f.sig.ident.to_string()));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    k
}

thread_local!(static KNOWN: std::cell::RefCell<Known> = Default::default());

fn body(hs: &[Helper], m: &str, ty: Option<&str>, key: &str, sig: &Signature, b: &mut Block, rep: &mut Report) {
    let mut env = BTreeMap::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(i), Some(t)) = (&*t.pat, plain(&t.ty)) {
                env.insert(i.ident.to_string(), t);
            }
        }
    }
    let mut i = Inl { hs, module: m, ty, key, rep, depth: 0, closure: 0, n: 0, env };
    i.tail_block(b);
}

struct Inl<'a> {
    hs: &'a [Helper],
    module: &'a str,
    ty: Option<&'a str>,
    key: &'a str,
    rep: &'a mut Report,
    depth: usize,
    closure: usize,
    n: usize,
    /// the types of variables, where they are evident
    env: BTreeMap<String, String>,
}

/// The call behind `.await` and parentheses.
fn call_of(e: &Expr) -> &Expr {
    match e {
        Expr::Await(a) => call_of(&a.base),
        Expr::Paren(p) => call_of(&p.expr),
        e => e,
    }
}

impl Inl<'_> {
    /// The type of `self` and of its fields.
    fn type_of(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) if p.path.is_ident("self") => self.ty.map(|t| base(t).to_string()),
            Expr::Path(p) => self.env.get(&p.path.get_ident()?.to_string()).cloned(),
            Expr::Paren(p) => self.type_of(&p.expr),
            Expr::Reference(r) => self.type_of(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.type_of(&u.expr),
            Expr::Struct(s) => {
                let t = s.path.segments.last()?.ident.to_string();
                if t == "Self" { self.ty.map(|t| base(t).to_string()) } else { Some(t) }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let n = p.path.segments.len();
                let t = p.path.segments[n.checked_sub(2)?].ident.to_string();
                let t = if t == "Self" { base(self.ty?).to_string() } else { t };
                KNOWN.with(|k| k.borrow().returns.get(&(t, p.path.segments[n - 1].ident.to_string())).cloned())
            }
            Expr::MethodCall(c) => {
                let t = self.type_of(&c.receiver)?;
                KNOWN.with(|k| k.borrow().returns.get(&(t, c.method.to_string())).cloned())
            }
            Expr::Field(f) => {
                let t = self.type_of(&f.base)?;
                let Member::Named(n) = &f.member else { return None };
                KNOWN.with(|k| k.borrow().fields.get(&(t, n.to_string())).cloned())
            }
            _ => None,
        }
    }

    /// The helper an expression calls, with receiver and arguments.
    fn helper(&self, e: &Expr) -> Option<(Helper, Option<Expr>, Vec<Expr>)> {
        match call_of(e) {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last()?;
                let cands: Vec<&Helper> = self.hs.iter().filter(|h| h.sig.ident == name.as_str()).collect();
                let h = if segs.len() == 1 {
                    cands.iter().find(|h| h.ty.is_none() && h.module == self.module).or_else(|| if cands.len() == 1 && cands[0].ty.is_none() { cands.first() } else { None })?
                } else {
                    let q = &segs[segs.len() - 2];
                    let by_ty: Vec<&&Helper> = cands
                        .iter()
                        .filter(|h| match &h.tyname {
                            Some(t) => q == "Self" && self.ty == Some(t.as_str()) || t.split('<').next() == Some(q.as_str()),
                            None => h.module.rsplit("::").next() == Some(q.as_str()) || q == "crate" || q == "super" || q == "self",
                        })
                        .collect();
                    if by_ty.len() == 1 { by_ty[0] } else { return None }
                };
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let recv = if matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) { Some(args.remove(0)) } else { None };
                Some(((*h).clone(), recv, args))
            }
            Expr::MethodCall(c) => {
                let cands: Vec<&Helper> = self.hs.iter().filter(|h| h.sig.ident == c.method && matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_)))).collect();
                let is_self = matches!(&*c.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let own: Vec<&&Helper> = cands.iter().filter(|h| h.tyname.as_deref() == self.ty).collect();
                let name = c.method.to_string();
                let h = if is_self && own.len() == 1 {
                    own[0]
                } else if let Some(t) = self.type_of(&c.receiver) {
                    if KNOWN.with(|k| k.borrow().methods.contains(&(t.clone(), name))) {
                        return None;
                    }
                    let typed: Vec<&&Helper> = cands.iter().filter(|h| h.tyname.as_deref().map(base) == Some(t.as_str())).collect();
                    if typed.len() == 1 { typed[0] } else if typed.is_empty() && cands.len() == 1 { &cands[0] } else { return None }
                } else if cands.len() == 1 && !KNOWN.with(|k| k.borrow().methods.iter().any(|(_, n)| *n == name)) {
                    &cands[0]
                } else {
                    return None;
                };
                Some(((*h).clone(), Some((*c.receiver).clone()), c.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }

    fn site(&mut self, e: &Expr, tail: bool) -> Option<Expr> {
        let (h, recv, args) = self.helper(e)?;
        if self.depth > 6 {
            return None;
        }
        if h.sig.asyncness.is_some() != matches!(e, Expr::Await(_)) {
            return None;
        }
        match self.expand(&h, recv, args, tail && self.closure == 0) {
            Some(mut x) => {
                self.rep.inlined.push(format!("{} <- {}", self.key, h.key));
                self.depth += 1;
                if tail && self.closure == 0 {
                    self.tail(&mut x);
                } else {
                    self.visit_expr_mut(&mut x);
                }
                self.depth -= 1;
                Some(x)
            }
            None => {
                self.rep.opaque.push(format!("{} {}", self.key, h.key));
                None
            }
        }
    }

    fn expand(&mut self, h: &Helper, recv: Option<Expr>, args: Vec<Expr>, tail: bool) -> Option<Expr> {
        let mut block = h.block.clone();
        let mut sig = h.sig.clone();
        // Self of another type
        if h.tyname.as_deref() != self.ty {
            if let Some(t) = &h.ty {
                SelfTy(t).visit_block_mut(&mut block);
                SelfTy(t).visit_signature_mut(&mut sig);
            }
        }
        let mut has = HasReturn(false, false);
        has.visit_block(&block);
        if (has.0 || has.1) && !tail {
            let kind = match &sig.output {
                ReturnType::Type(_, t) => type_ident(t),
                _ => "()".into(),
            };
            let e = Tail { option: kind.starts_with("Option"), n: self.n }.stmts(block.stmts.clone())?;
            if e.to_token_stream().to_string().len() > 60_000 {
                return None;
            }
            self.n += 100;
            block = parse_quote!({ #e });
        }
        // receiver and parameters
        let mut pre: Vec<Stmt> = vec![];
        let mut binds: Vec<(Ident, Option<Type>, bool, Expr)> = vec![];
        let mut subst: BTreeMap<String, (Expr, bool, bool)> = BTreeMap::new();
        let locals = bound(&block);
        let mut it = args.into_iter();
        for a in &sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    let e = recv.clone()?;
                    if matches!(&e, Expr::Path(p) if p.path.is_ident("self")) {
                        continue;
                    }
                    if r.reference.is_some() && place(&e) && !macro_mentions(&block, "self") && !locals.contains(&root(&e)) {
                        subst.insert("self".into(), (e, r.mutability.is_some(), true));
                    } else {
                        let i = ident("__this");
                        let v: Expr = match (r.reference.is_some(), r.mutability.is_some()) {
                            (false, _) => e,
                            (true, true) => parse_quote!(&mut #e),
                            (true, false) => parse_quote!(&#e),
                        };
                        subst.insert("self".into(), (parse_quote!(__this), false, false));
                        binds.push((i, None, false, v));
                    }
                }
                FnArg::Typed(t) => {
                    let e = it.next()?;
                    let Pat::Ident(pi) = &*t.pat else {
                        pre.push(parse_quote!(let _ = #e;));
                        continue;
                    };
                    let name = pi.ident.to_string();
                    let isref = matches!(&*t.ty, Type::Reference(_));
                    let free = pi.mutability.is_none() && !macro_mentions(&block, &name) && !rebound(&block, &name);
                    match &e {
                        Expr::Lit(ExprLit { lit: Lit::Str(_) | Lit::ByteStr(_), .. }) if free => {
                            subst.insert(name, (e.clone(), false, false));
                            continue;
                        }
                        Expr::Reference(r) if isref && free && place(&r.expr) && !locals.contains(&root(&r.expr)) => {
                            subst.insert(name, ((*r.expr).clone(), r.mutability.is_some(), true));
                            continue;
                        }
                        Expr::Path(p) if isref && free && p.path.get_ident().is_some() && !locals.contains(&root(&e)) => {
                            subst.insert(name, (e.clone(), false, false));
                            continue;
                        }
                        _ => {}
                    }
                    let ty = if matches!(&*t.ty, Type::Reference(_)) || generic(&sig, &t.ty) { None } else { Some((*t.ty).clone()) };
                    binds.push((pi.ident.clone(), ty, pi.mutability.is_some(), e));
                }
            }
        }
        // substituted places must not be captured by the parameters which are bound
        let names: BTreeSet<String> = binds.iter().map(|b| b.0.to_string()).collect();
        if subst.values().any(|(e, _, _)| names.contains(&root(e))) {
            return None;
        }
        let capture = binds.len() > 1 && binds.iter().any(|b| names.iter().any(|n| contains_ident(b.3.to_token_stream(), n) && *n != b.0.to_string()));
        if capture {
            for (k, (_, ty, _, e)) in binds.iter_mut().enumerate() {
                let t = ident(&format!("__arg{k}"));
                pre.push(match ty {
                    Some(ty) => parse_quote!(let #t: #ty = #e;),
                    None => parse_quote!(let #t = #e;),
                });
                *e = parse_quote!(#t);
            }
        }
        for (i, ty, mutable, e) in binds {
            if !mutable && matches!(&e, Expr::Path(p) if p.path.is_ident(&i)) {
                continue;
            }
            let m: Option<Token![mut]> = if mutable { Some(Default::default()) } else { None };
            pre.push(match ty {
                Some(ty) => parse_quote!(let #m #i: #ty = #e;),
                None => parse_quote!(let #m #i = #e;),
            });
        }
        if !subst.is_empty() {
            Subst(&subst).visit_block_mut(&mut block);
        }
        if h.module != self.module {
            let path: Path = if h.module.is_empty() { parse_quote!(crate) } else { parse_str(&format!("crate::{}", h.module.trim_start_matches("traffic::"))).ok()? };
            let path: Path = if h.module == "traffic" { parse_quote!(crate) } else { path };
            pre.insert(0, parse_quote!(use #path::*;));
        }
        let stmts = &block.stmts;
        Some(match &sig.output {
            ReturnType::Type(_, t) if !tail && (has.0 || has.1) && !generic(&sig, t) => parse_quote!({ #(#pre)* let __ret: #t = { #(#stmts)* }; __ret }),
            _ => parse_quote!({ #(#pre)* #(#stmts)* }),
        })
    }

    /// An expression whose value the caller returns.
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail(&mut a.body);
                }
            }
            _ => {
                if let Some(x) = self.site(e, true) {
                    *e = x;
                } else {
                    self.visit_expr_mut(e);
                }
            }
        }
    }

    fn tail_block(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if k + 1 == n => self.tail(e),
                s => self.visit_stmt_mut(s),
            }
        }
    }
}

impl VisitMut for Inl<'_> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        let ty = match (&l.pat, &l.init) {
            (Pat::Type(t), _) => plain(&t.ty),
            (_, Some(i)) => self.type_of(&i.expr),
            _ => None,
        };
        visit_mut::visit_local_mut(self, l);
        let name = match &l.pat {
            Pat::Ident(i) => Some(i.ident.to_string()),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.to_string()),
                _ => None,
            },
            _ => None,
        };
        if let (Some(n), Some(t)) = (name, ty) {
            self.env.insert(n, t);
        }
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.env.remove(&p.ident.to_string());
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) if self.closure == 0 => {
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
                return;
            }
            Expr::Closure(c) => {
                self.closure += 1;
                self.visit_expr_mut(&mut c.body);
                self.closure -= 1;
                return;
            }
            Expr::Async(_) => {
                self.closure += 1;
                visit_mut::visit_expr_mut(self, e);
                self.closure -= 1;
                return;
            }
            _ => {}
        }
        if let Some(x) = self.site(e, false) {
            *e = x;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // select! and the like keep their branches as tokens
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name == "assert" || name == "debug_assert" {
            if let Ok(mut l) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
                for e in l.iter_mut() {
                    self.visit_expr_mut(e);
                }
                m.tokens = l.to_token_stream();
            }
        }
        for h in self.hs {
            if contains_ident(m.tokens.clone(), &h.sig.ident.to_string()) {
                self.rep.opaque.push(format!("{} {}", self.key, h.key));
            }
        }
    }
}

/// Variables, fields of places, dereferenced places.
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && place(&u.expr),
        _ => false,
    }
}

fn root(e: &Expr) -> String {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(),
        Expr::Field(f) => root(&f.base),
        Expr::Paren(p) => root(&p.expr),
        Expr::Unary(u) => root(&u.expr),
        _ => String::new(),
    }
}

fn generic(sig: &Signature, t: &Type) -> bool {
    let s = t.to_token_stream();
    contains_ident(s.clone(), "impl") || contains_ident(s.clone(), "dyn")
        || sig.generics.params.iter().any(|p| match p {
            GenericParam::Type(t) => contains_ident(s.clone(), &t.ident.to_string()),
            GenericParam::Const(t) => contains_ident(s.clone(), &t.ident.to_string()),
            GenericParam::Lifetime(l) => contains_ident(s.clone(), &l.lifetime.ident.to_string()),
        })
}

/// Names bound by patterns in a block.
fn bound(b: &Block) -> BTreeSet<String> {
    struct B(BTreeSet<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = B(Default::default());
    v.visit_block(b);
    v.0
}

fn rebound(b: &Block, name: &str) -> bool {
    bound(b).contains(name)
}

fn macro_mentions(b: &Block, name: &str) -> bool {
    struct M<'x>(&'x str, bool);
    impl<'a> Visit<'a> for M<'_> {
        fn visit_macro(&mut self, m: &'a Macro) {
            self.1 |= contains_ident(m.tokens.clone(), self.0);
        }
    }
    let mut v = M(name, false);
    v.visit_block(b);
    v.1
}

struct SelfTy<'a>(&'a Type);
impl VisitMut for SelfTy<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if matches!(t, Type::Path(p) if p.qself.is_none() && p.path.is_ident("Self")) {
            *t = self.0.clone();
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() > 1 && p.segments[0].ident == "Self" {
            if let Type::Path(t) = self.0 {
                p.segments[0].ident = t.path.segments.last().unwrap().ident.clone();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        if e.path.is_ident("Self") {
            if let Type::Path(t) = self.0 {
                e.path.segments[0].ident = t.path.segments.last().unwrap().ident.clone();
            }
        }
        visit_mut::visit_expr_struct_mut(self, e);
    }
}

/// Replaces reference variables by the places they refer to: (place, mutable, by reference).
pub struct Subst<'a>(pub &'a BTreeMap<String, (Expr, bool, bool)>);
impl Subst<'_> {
    fn get(&self, e: &Expr) -> Option<&(Expr, bool, bool)> {
        match e {
            Expr::Path(p) => self.0.get(&p.path.get_ident()?.to_string()),
            Expr::Paren(p) => self.get(&p.expr),
            _ => None,
        }
    }
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some((p, _, true)) = self.get(&u.expr) {
                    *e = p.clone();
                    return;
                }
            }
            Expr::Field(f) => {
                if let Some((p, _, _)) = self.get(&f.base) {
                    *f.base = p.clone();
                    return;
                }
            }
            Expr::Index(f) => {
                if let Some((p, _, _)) = self.get(&f.expr) {
                    *f.expr = p.clone();
                    self.visit_expr_mut(&mut f.index);
                    return;
                }
            }
            Expr::MethodCall(m) => {
                if let Some((p, _, _)) = self.get(&m.receiver) {
                    *m.receiver = p.clone();
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Reference(r) => {
                // `&*p` and `&mut *p`
                if let Expr::Unary(u) = &*r.expr {
                    if let (UnOp::Deref(_), Some((p, _, true))) = (&u.op, self.get(&u.expr)) {
                        *r.expr = p.clone();
                        return;
                    }
                }
            }
            Expr::Path(_) => {
                if let Some((p, m, byref)) = self.get(e) {
                    let p = p.clone();
                    *e = match (byref, m) {
                        (false, _) => p,
                        (true, true) => parse_quote!((&mut #p)),
                        (true, false) => parse_quote!((&#p)),
                    };
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
}

/// Turns early returns into nested expressions.
struct Tail {
    option: bool,
    n: usize,
}

fn exits(e: &Expr) -> bool {
    let mut h = HasReturn(false, false);
    h.visit_expr(e);
    h.0 || h.1
}

fn exits_stmt(s: &Stmt) -> bool {
    let mut h = HasReturn(false, false);
    h.visit_stmt(s);
    h.0 || h.1
}

impl Tail {
    fn tmp(&mut self) -> Ident {
        self.n += 1;
        ident(&format!("__v{}", self.n))
    }

    fn split(&mut self, x: Expr, p: Pat, rest: Expr) -> Expr {
        if self.option {
            parse_quote!(match #x { Some(#p) => #rest, None => None })
        } else {
            parse_quote!(match #x { Ok(#p) => #rest, Err(__e) => Err(core::convert::From::from(__e)) })
        }
    }

    fn block(&mut self, pre: Vec<Stmt>, e: Expr) -> Expr {
        if pre.is_empty() { e } else { parse_quote!({ #(#pre)* #e }) }
    }

    /// The value of a function whose body is these statements.
    fn stmts(&mut self, stmts: Vec<Stmt>) -> Option<Expr> {
        let mut pre = vec![];
        let mut it = stmts.into_iter();
        while let Some(s) = it.next() {
            if !exits_stmt(&s) {
                if it.len() == 0 {
                    if let Stmt::Expr(e, None) = s {
                        return Some(self.block(pre, e));
                    }
                    pre.push(s);
                    return Some(self.block(pre, parse_quote!(())));
                }
                pre.push(s);
                continue;
            }
            let rest: Vec<Stmt> = it.collect();
            let e = match s {
                Stmt::Expr(e, semi) => {
                    if rest.is_empty() && semi.is_none() {
                        self.value(e)?
                    } else {
                        self.then(e, rest)?
                    }
                }
                Stmt::Local(l) => {
                    let init = l.init?;
                    if let Some((_, els)) = init.diverge {
                        if exits(&init.expr) {
                            let t = self.tmp();
                            let x = &init.expr;
                            let p = &l.pat;
                            let again: Stmt = parse_quote!(let #p = #t else #els;);
                            let mut v: Vec<Stmt> = vec![again];
                            v.extend(rest);
                            return Some({
                                let mut s: Vec<Stmt> = vec![parse_quote!(let #t = #x;)];
                                s.extend(v);
                                let e = self.stmts(s)?;
                                self.block(pre, e)
                            });
                        }
                        let a = self.stmts(rest)?;
                        let b = self.value(*els)?;
                        let (x, p) = (&init.expr, &l.pat);
                        parse_quote!(match #x { #p => #a, _ => #b })
                    } else {
                        self.bind(l.pat, *init.expr, rest)?
                    }
                }
                _ => return None,
            };
            return Some(self.block(pre, e));
        }
        Some(self.block(pre, parse_quote!(())))
    }

    /// `let p = e; rest` where e may return.
    fn bind(&mut self, p: Pat, e: Expr, rest: Vec<Stmt>) -> Option<Expr> {
        match e {
            Expr::Try(t) if !exits(&t.expr) => {
                let r = self.stmts(rest)?;
                let v = self.tmp();
                let vp: Pat = parse_quote!(#v);
                Some(self.split(*t.expr, vp, parse_quote!({ let #p = #v; #r })))
            }
            Expr::If(i) if !exits(&i.cond) && i.else_branch.is_some() => {
                let a = self.arm(p.clone(), Expr::Block(parse_block(i.then_branch)), rest.clone())?;
                let b = self.arm(p, *i.else_branch.unwrap().1, rest)?;
                let c = &i.cond;
                Some(parse_quote!(if #c { #a } else { #b }))
            }
            Expr::Match(mut m) if !exits(&m.expr) => {
                for a in m.arms.iter_mut() {
                    if a.guard.as_ref().is_some_and(|g| exits(&g.1)) {
                        return None;
                    }
                    *a.body = self.arm(p.clone(), (*a.body).clone(), rest.clone())?;
                    a.comma = Some(Default::default());
                }
                Some(Expr::Match(m))
            }
            Expr::Block(b) if b.label.is_none() => self.arm(p, Expr::Block(b), rest),
            Expr::Paren(x) => self.bind(p, *x.expr, rest),
            e => {
                let (x, v, e) = self.hoist(e)?;
                let mut s: Vec<Stmt> = vec![parse_quote!(let #p = #e;)];
                s.extend(rest);
                let r = self.stmts(s)?;
                Some(self.split(x, parse_quote!(#v), r))
            }
        }
    }

    /// One arm of a `let p = match ..`: its value is bound, or it returns.
    fn arm(&mut self, p: Pat, e: Expr, rest: Vec<Stmt>) -> Option<Expr> {
        match e {
            Expr::Return(_) => self.value(e),
            Expr::Block(b) if b.label.is_none() => {
                let mut s = b.block.stmts;
                match s.pop() {
                    Some(Stmt::Expr(e, None)) => {
                        // the arm's own bindings must not reach the rest
                        let v = self.tmp();
                        let tail: Expr = if exits(&e) || s.iter().any(exits_stmt) { e } else {
                            s.push(Stmt::Expr(e, None));
                            let mut r: Vec<Stmt> = vec![parse_quote!(let #p = { #(#s)* };)];
                            r.extend(rest);
                            return self.stmts(r);
                        };
                        s.push(parse_quote!(let #v = #tail;));
                        s.push(parse_quote!(let #p = #v;));
                        s.extend(rest);
                        self.stmts(s)
                    }
                    Some(Stmt::Expr(e @ Expr::Return(_), Some(_))) => {
                        s.push(Stmt::Expr(e, None));
                        self.stmts(s)
                    }
                    _ => None,
                }
            }
            e => {
                let mut s: Vec<Stmt> = vec![parse_quote!(let #p = #e;)];
                s.extend(rest);
                self.stmts(s)
            }
        }
    }

    /// `e; rest` where e may return.
    fn then(&mut self, e: Expr, rest: Vec<Stmt>) -> Option<Expr> {
        match e {
            Expr::Return(_) => self.value(e),
            Expr::If(i) if !exits(&i.cond) => {
                let mut a = i.then_branch.stmts;
                semi(&mut a);
                a.extend(rest.clone());
                let a = self.stmts(a)?;
                let b = match i.else_branch {
                    Some((_, x)) => self.then(*x, rest)?,
                    None => self.stmts(rest)?,
                };
                let c = &i.cond;
                Some(parse_quote!(if #c { #a } else { #b }))
            }
            Expr::Match(mut m) if !exits(&m.expr) => {
                for a in m.arms.iter_mut() {
                    if a.guard.as_ref().is_some_and(|g| exits(&g.1)) {
                        return None;
                    }
                    *a.body = self.then((*a.body).clone(), rest.clone())?;
                    a.comma = Some(Default::default());
                }
                Some(Expr::Match(m))
            }
            Expr::Block(b) if b.label.is_none() => {
                let mut s = b.block.stmts;
                semi(&mut s);
                s.extend(rest);
                self.stmts(s)
            }
            e if !exits(&e) => {
                let mut s = vec![Stmt::Expr(e, Some(Default::default()))];
                s.extend(rest);
                self.stmts(s)
            }
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => None,
            Expr::Try(t) if !exits(&t.expr) => {
                let r = self.stmts(rest)?;
                Some(self.split(*t.expr, parse_quote!(_), r))
            }
            e => {
                let (x, v, e) = self.hoist(e)?;
                let mut s = vec![Stmt::Expr(e, Some(Default::default()))];
                s.extend(rest);
                let r = self.stmts(s)?;
                Some(self.split(x, parse_quote!(#v), r))
            }
        }
    }

    /// The value of the function when its last expression is e.
    fn value(&mut self, e: Expr) -> Option<Expr> {
        if !exits(&e) {
            return Some(e);
        }
        match e {
            Expr::Return(r) => match r.expr {
                Some(x) => self.value(*x),
                None => Some(parse_quote!(())),
            },
            Expr::Block(b) if b.label.is_none() => self.stmts(b.block.stmts),
            Expr::Paren(x) => self.value(*x.expr),
            Expr::If(i) if !exits(&i.cond) => {
                let a = self.stmts(i.then_branch.stmts)?;
                let b = self.value(*i.else_branch?.1)?;
                let c = &i.cond;
                Some(parse_quote!(if #c { #a } else { #b }))
            }
            Expr::Match(mut m) if !exits(&m.expr) => {
                for a in m.arms.iter_mut() {
                    if a.guard.as_ref().is_some_and(|g| exits(&g.1)) {
                        return None;
                    }
                    *a.body = self.value((*a.body).clone())?;
                    a.comma = Some(Default::default());
                }
                Some(Expr::Match(m))
            }
            e => {
                let (x, v, e) = self.hoist(e)?;
                let r = self.value(e)?;
                Some(self.split(x, parse_quote!(#v), r))
            }
        }
    }

    /// The `?` that is evaluated before everything else with an effect: (what it is applied to, name of
    /// its value, the expression with the name in its place).
    fn hoist(&mut self, mut e: Expr) -> Option<(Expr, Ident, Expr)> {
        let v = self.tmp();
        let mut found = None;
        if first(&mut e, &v, &mut found) && found.is_some() {
            return Some((found.unwrap(), v, e));
        }
        None
    }
}

fn parse_block(b: Block) -> ExprBlock {
    ExprBlock { attrs: vec![], label: None, block: b }
}

fn semi(s: &mut [Stmt]) {
    if let Some(Stmt::Expr(_, s @ None)) = s.last_mut() {
        *s = Some(Default::default());
    }
}

/// Walks in evaluation order over effect-free expressions; true once the first `?` was replaced.
fn first(e: &mut Expr, v: &Ident, out: &mut Option<Expr>) -> bool {
    match e {
        Expr::Try(t) => {
            if exits(&t.expr) {
                return first(&mut t.expr, v, out);
            }
            *out = Some((*t.expr).clone());
            *e = parse_quote!(#v);
            true
        }
        Expr::MethodCall(m) => {
            if exits(&m.receiver) {
                return first(&mut m.receiver, v, out);
            }
            pure(&m.receiver) && first_of(m.args.iter_mut(), v, out)
        }
        Expr::Call(c) => pure(&c.func) && first_of(c.args.iter_mut(), v, out),
        Expr::Tuple(t) => first_of(t.elems.iter_mut(), v, out),
        Expr::Array(t) => first_of(t.elems.iter_mut(), v, out),
        Expr::Struct(s) => first_of(s.fields.iter_mut().map(|f| &mut f.expr), v, out),
        Expr::Reference(r) => first(&mut r.expr, v, out),
        Expr::Paren(r) => first(&mut r.expr, v, out),
        Expr::Cast(r) => first(&mut r.expr, v, out),
        Expr::Unary(r) => first(&mut r.expr, v, out),
        Expr::Field(r) => first(&mut r.base, v, out),
        Expr::Await(r) => first(&mut r.base, v, out),
        Expr::Assign(a) => pure(&a.left) && first(&mut a.right, v, out),
        Expr::Match(m) => first(&mut m.expr, v, out),
        Expr::If(i) => first(&mut i.cond, v, out),
        Expr::Let(l) => first(&mut l.expr, v, out),
        Expr::Index(i) => {
            if exits(&i.expr) {
                return first(&mut i.expr, v, out);
            }
            pure(&i.expr) && first(&mut i.index, v, out)
        }
        Expr::Range(r) => {
            let mut l: Vec<&mut Expr> = vec![];
            if let Some(x) = &mut r.start {
                l.push(x);
            }
            if let Some(x) = &mut r.end {
                l.push(x);
            }
            first_of(l.into_iter(), v, out)
        }
        Expr::Binary(b) => {
            if exits(&b.left) {
                return first(&mut b.left, v, out);
            }
            !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && pure(&b.left) && first(&mut b.right, v, out)
        }
        Expr::Return(_) => false,
        _ => false,
    }
}

fn first_of<'a>(it: impl Iterator<Item = &'a mut Expr>, v: &Ident, out: &mut Option<Expr>) -> bool {
    for x in it {
        if exits(x) {
            return first(x, v, out);
        }
        if !pure(x) {
            return false;
        }
    }
    false
}

fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Reference(r) => pure(&r.expr),
        Expr::Paren(r) => pure(&r.expr),
        Expr::Field(r) => pure(&r.base),
        Expr::Cast(r) => pure(&r.expr),
        Expr::Unary(r) => pure(&r.expr),
        Expr::Binary(b) => pure(&b.left) && pure(&b.right),
        Expr::Closure(_) => true,
        Expr::MethodCall(m) => ["len", "is_empty", "as_ref", "as_slice", "as_mut", "clone", "remaining"].contains(&m.method.to_string().as_str()) && pure(&m.receiver) && m.args.iter().all(pure),
        _ => false,
    }
}
