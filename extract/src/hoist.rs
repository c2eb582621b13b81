//! Functions defined inside a function become functions of the module, so that they are inlined like
//! any other helper.
use crate::*;
use syn::visit_mut::{self, VisitMut};

pub fn run(items: &mut Vec<Item>, rep: &mut Report) {
    let mut found: Vec<Item> = vec![];
    for it in items.iter_mut() {
        match it {
            Item::Fn(f) => one(&f.sig.ident.to_string(), &mut f.block, &mut found, rep),
            Item::Impl(im) => {
                for x in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        one(&f.sig.ident.to_string(), &mut f.block, &mut found, rep);
                    }
                }
            }
            _ => {}
        }
    }
    items.extend(found);
}

fn one(outer: &str, b: &mut Block, found: &mut Vec<Item>, rep: &mut Report) {
    struct Take<'a>(&'a str, Vec<ItemFn>, BTreeMap<String, String>);
    impl VisitMut for Take<'_> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            b.stmts.retain(|s| match s {
                Stmt::Item(Item::Fn(f)) => {
                    let n = f.sig.ident.to_string();
                    // the same name twice would be ambiguous
                    if self.2.contains_key(&n) {
                        return true;
                    }
                    self.2.insert(n.clone(), format!("{}_{n}", self.0));
                    self.1.push(f.clone());
                    false
                }
                _ => true,
            });
        }
    }
    let mut t = Take(outer, vec![], BTreeMap::new());
    t.visit_block_mut(b);
    if t.1.is_empty() {
        return;
    }
    struct Call<'a>(&'a BTreeMap<String, String>);
    impl VisitMut for Call<'_> {
        fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
            if let Expr::Path(p) = &mut *c.func {
                if let Some(n) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                    p.path = ident(n).into();
                } else if p.path.segments.len() == 1 {
                    let s = &mut p.path.segments[0];
                    if let Some(n) = self.0.get(&s.ident.to_string()) {
                        s.ident = ident(n);
                    }
                }
            }
            visit_mut::visit_expr_call_mut(self, c);
        }
    }
    Call(&t.2).visit_block_mut(b);
    for mut f in t.1 {
        Call(&t.2).visit_block_mut(&mut f.block);
        f.sig.ident = ident(&t.2[&f.sig.ident.to_string()]);
        rep.notes.push(format!("{}: a function of a function, verified as one of the module", f.sig.ident));
        found.push(Item::Fn(f));
    }
}
