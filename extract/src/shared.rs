//! Rules for state shared between threads and tasks (the traffic crate). See DESIGN.md, "shared state".
use crate::*;
use syn::punctuated::Punctuated;

pub fn run(modules: &mut BTreeMap<String, Vec<Item>>, rep: &mut Report) {
    let names: Vec<String> = modules.keys().filter(|m| *m == "traffic" || m.starts_with("traffic::")).cloned().collect();
    // functions with a parameter `impl AsRef<..>`: the shared statistics
    let mut asref: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
    for m in &names {
        for it in modules[m].iter() {
            let sigs: Vec<&Signature> = match it {
                Item::Fn(f) => vec![&f.sig],
                Item::Impl(i) => i.items.iter().filter_map(|x| if let ImplItem::Fn(f) = x { Some(&f.sig) } else { None }).collect(),
                _ => vec![],
            };
            for s in sigs {
                let v = handle_params(s);
                if !v.is_empty() {
                    asref.insert(s.ident.to_string(), v);
                }
            }
        }
    }
    for m in &names {
        let items = modules.get_mut(m).unwrap();
        for it in items.iter_mut() {
            if let Item::Impl(im) = it {
                if im.trait_.as_ref().is_some_and(|(_, p, _)| p.segments.last().unwrap().ident == "Drop") {
                    im.trait_ = None;
                    for x in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            f.sig.ident = ident("v_drop");
                        }
                    }
                    rep.notes.push(format!("{m}: Drop::drop is verified as the method v_drop"));
                }
            }
            Sh { asref: &asref, handle: BTreeSet::new() }.visit_item_mut(it);
        }
    }
}

fn is_asref(t: &Type) -> bool {
    if let Type::ImplTrait(i) = t {
        return i.bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().unwrap().ident == "AsRef"));
    }
    false
}

/// A reference to shared state: `&Arc<..>` or `&AtomicTrafficStats`.
fn is_handle_ref(t: &Type) -> bool {
    if let Type::Reference(r) = t {
        if let (Type::Path(p), None) = (&*r.elem, &r.mutability) {
            let s = p.path.segments.last().unwrap();
            return s.ident == "Arc" || s.ident == "AtomicTrafficStats" || s.ident == "AtomicBool";
        }
    }
    false
}

/// Indices of the `impl AsRef<..>` parameters and of references to shared state, the receiver not counted.
fn handle_params(s: &Signature) -> BTreeSet<usize> {
    s.inputs
        .iter()
        .filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None })
        .enumerate()
        .filter(|(_, t)| is_asref(&t.ty) || is_handle_ref(&t.ty))
        .map(|(i, _)| i)
        .collect()
}

struct Sh<'a> {
    asref: &'a BTreeMap<String, BTreeSet<usize>>,
    handle: BTreeSet<Ident>,
}

/// The argument of `Arc<..>`.
fn arc_arg(p: &syn::Path) -> Option<Type> {
    let s = p.segments.last()?;
    if s.ident != "Arc" {
        return None;
    }
    if let PathArguments::AngleBracketed(a) = &s.arguments {
        if let Some(GenericArgument::Type(t)) = a.args.first() {
            return Some(t.clone());
        }
    }
    None
}

fn call_of<'e>(e: &'e Expr, what: &str) -> Option<&'e Punctuated<Expr, Token![,]>> {
    if let Expr::Call(c) = e {
        let f = c.func.to_token_stream().to_string().replace(' ', "");
        if f == what || f.ends_with(&format!("::{what}")) {
            return Some(&c.args);
        }
    }
    None
}

/// `{ f(a, b, c); }` or `{ f(a, b, c).await; }`: the function and its arguments.
fn single_call(b: &[Stmt]) -> Option<(Expr, Vec<Expr>)> {
    if b.len() != 1 {
        return None;
    }
    let e = match &b[0] {
        Stmt::Expr(e, _) => e,
        _ => return None,
    };
    let e = if let Expr::Await(a) = e { &*a.base } else { e };
    if let Expr::Call(c) = e {
        if c.args.iter().all(|a| matches!(a, Expr::Path(_))) {
            return Some(((*c.func).clone(), c.args.iter().cloned().collect()));
        }
    }
    None
}

/// Runs a spawned body in a branch of its own that does not come back.
fn spawn(stmts: &[Stmt], to: Expr) -> Option<Expr> {
    let (f, args) = single_call(stmts)?;
    Some(parse_quote!({
        __vspawn!((#(#args),*,));
        if crate::vpre::v_nondet() { #f(#(#args),*); crate::vpre::v_stop(); }
        #to(__VSPAWNED)
    }))
}

impl VisitMut for Sh<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(a) = arc_arg(&p.path) {
                if let Type::Path(q) = &a {
                    let s = q.path.segments.last().unwrap();
                    if s.ident == "Mutex" {
                        if let PathArguments::AngleBracketed(x) = &s.arguments {
                            let x = x.args.clone();
                            *t = parse_quote!(crate::deps::sync::ArcMutex<#x>);
                            visit_mut::visit_type_mut(self, t);
                            return;
                        }
                    }
                }
                *t = a;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_signature_mut(&mut self, s: &mut Signature) {
        for a in s.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                let generic = is_asref(&t.ty);
                if generic || is_handle_ref(&t.ty) {
                    if generic {
                        t.ty = parse_quote!(&mut crate::AtomicTrafficStats);
                        let mut g = Generics::default();
                        g.params = s.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(_))).cloned().collect();
                        s.generics = g;
                    } else if let Type::Reference(r) = &mut *t.ty {
                        r.mutability = Some(Default::default());
                    }
                    if let Pat::Ident(p) = &*t.pat {
                        self.handle.insert(p.ident.clone());
                    }
                }
            }
        }
        for a in s.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                let shared = matches!(&*t.ty, Type::Path(p) if arc_arg(&p.path).is_some());
                if let (Pat::Ident(p), true) = (&mut *t.pat, shared) {
                    p.mutability = Some(Default::default());
                }
            }
        }
        visit_mut::visit_signature_mut(self, s);
    }

    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        self.handle.clear();
        visit_mut::visit_impl_item_fn_mut(self, f);
        self.handle.clear();
    }

    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        self.handle.clear();
        visit_mut::visit_item_fn_mut(self, f);
        self.handle.clear();
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Ident(p) = &mut l.pat {
            p.mutability = Some(Default::default());
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // rules of this pass reach into select! by rewriting its tokens when they parse as a block
        if m.path.segments.last().unwrap().ident == "select" {
            m.tokens = select_tokens(std::mem::take(&mut m.tokens), self);
        } else if m.path.segments.last().unwrap().ident == "vec" {
            if let Ok((mut a, mut b)) = m.parse_body_with(|i: parse::ParseStream| {
                let a: Expr = i.parse()?;
                i.parse::<Token![;]>()?;
                let b: Expr = i.parse()?;
                Ok((a, b))
            }) {
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                m.tokens = quote!(#a; #b);
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(a) = call_of(e, "Arc::new") {
            let x = a[0].clone();
            *e = match call_of(&x, "Mutex::new") {
                Some(y) => parse_quote!(crate::deps::sync::ArcMutex::new(#y)),
                None => x,
            };
            return;
        }
        if let Some(a) = call_of(e, "Arc::clone") {
            if let Expr::Reference(r) = &a[0] {
                let x = r.expr.clone();
                *e = parse_quote!(#x.clone());
            }
            return;
        }
        if let Some(a) = call_of(e, "thread::spawn") {
            if let Expr::Closure(c) = &a[0] {
                let stmts = match &*c.body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    x => vec![Stmt::Expr(x.clone(), None)],
                };
                if let Some(n) = spawn(&stmts, parse_quote!(crate::deps::thread::v_spawned)) {
                    *e = n;
                }
            }
            return;
        }
        if let Some(a) = call_of(e, "tokio::spawn") {
            if let Expr::Async(c) = &a[0] {
                if let Some(n) = spawn(&c.block.stmts, parse_quote!(crate::deps::tokio::v_spawned)) {
                    *e = n;
                }
            } else if let Expr::Call(c) = &a[0] {
                let c = c.clone();
                if let Some(n) = spawn(&[Stmt::Expr(Expr::Call(c), None)], parse_quote!(crate::deps::tokio::v_spawned)) {
                    *e = n;
                }
            }
            return;
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                for &i in self.asref.get(&p.path.segments.last().unwrap().ident.to_string()).into_iter().flatten() {
                    if let Some(Expr::Reference(r)) = c.args.iter_mut().nth(i) {
                        r.mutability = Some(Default::default());
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if name == "as_ref" && m.args.is_empty() {
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.get_ident().is_some_and(|i| self.handle.contains(i)) {
                        *e = (*m.receiver).clone();
                        return;
                    }
                }
            }
            if name == "gen_range" && m.args.len() == 1 {
                let mut x = &m.args[0];
                while let Expr::Paren(p) = x {
                    x = &p.expr;
                }
                if let Expr::Range(r) = x {
                    if let (Some(a), Some(b)) = (&r.start, &r.end) {
                        let f = ident(if matches!(r.limits, RangeLimits::Closed(_)) { "v_gen_incl" } else { "v_gen_excl" });
                        let rc = &m.receiver;
                        *e = parse_quote!(#rc.#f(#a, #b));
                        return;
                    }
                }
            }
            for &i in self.asref.get(&name).into_iter().flatten() {
                if let Some(Expr::Reference(r)) = m.args.iter_mut().nth(i) {
                    r.mutability = Some(Default::default());
                }
            }
        }
    }
}

/// Applies the pass to the expressions of a select!.
fn select_tokens(ts: TokenStream, sh: &mut Sh) -> TokenStream {
    use proc_macro2::{Delimiter, Group, TokenTree};
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let tt = TokenTree::Group(g.clone());
                match parse2::<Block>(quote!(#tt)) {
                    Ok(mut b) => {
                        sh.visit_block_mut(&mut b);
                        match b.to_token_stream().into_iter().next() {
                            Some(TokenTree::Group(n)) => TokenTree::Group(Group::new(Delimiter::Brace, n.stream())),
                            _ => TokenTree::Group(g),
                        }
                    }
                    Err(_) => TokenTree::Group(g),
                }
            }
            t => t,
        })
        .collect()
}
