//! Closures held in a local (`let f = |x| ..;`) and functions declared inside a body are put in
//! place of their calls. Only where that is certainly the same: no `move`, nothing the body names is
//! bound again later, no early exit left.
use crate::tx::{flow_expr, ident};
use quote::ToTokens;
use std::collections::HashSet;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

struct Local {
    name: String,
    params: Vec<Pat>,
    body: Expr,
    /// the closure itself, for uses other than calls
    whole: Option<Expr>,
}

fn words<T: ToTokens>(t: &T) -> HashSet<String> {
    fn go(ts: proc_macro2::TokenStream, s: &mut HashSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => {
                    s.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), s),
                _ => {}
            }
        }
    }
    let mut s = HashSet::new();
    go(t.to_token_stream(), &mut s);
    s
}
fn binds(stmts: &[Stmt]) -> HashSet<String> {
    struct B(HashSet<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            // (a name with a capital is a constant or a variant)
            if !p.ident.to_string().starts_with(char::is_uppercase) {
                self.0.insert(p.ident.to_string());
            }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut b = B(HashSet::new());
    stmts.iter().for_each(|s| b.visit_stmt(s));
    b.0
}

fn as_local(s: &Stmt) -> Option<Local> {
    match s {
        Stmt::Local(l) => {
            let Pat::Ident(p) = &l.pat else { return None };
            let init = l.init.as_ref()?;
            if init.diverge.is_some() || p.by_ref.is_some() {
                return None;
            }
            let Expr::Closure(c) = &*init.expr else { return None };
            let f = flow_expr(&c.body);
            if c.capture.is_some() || c.asyncness.is_some() || f.ret || f.question {
                return None;
            }
            Some(Local { name: p.ident.to_string(), params: c.inputs.iter().cloned().collect(), body: (*c.body).clone(), whole: Some((*init.expr).clone()) })
        }
        Stmt::Item(Item::Fn(f)) => {
            let body = crate::cps::single_exit(&f.block)?;
            let generic = !f.sig.generics.params.is_empty();
            let params = f.sig.inputs.iter().map(|a| match a {
                FnArg::Typed(t) if generic => Some((*t.pat).clone()),
                FnArg::Typed(t) => Some(Pat::Type(t.clone())),
                _ => None,
            }).collect::<Option<Vec<_>>>()?;
            Some(Local { name: f.sig.ident.to_string(), params, body: parse_quote!(#body), whole: None })
        }
        _ => None,
    }
}

struct Subst<'a> {
    l: &'a Local,
    n: &'a mut usize,
    bad: bool,
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.l.name)) {
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                if c.args.len() != self.l.params.len() {
                    self.bad = true;
                    return;
                }
                let mut b: Block = parse_quote!({});
                let mut tail: Vec<Stmt> = vec![];
                for (a, p) in c.args.iter().zip(&self.l.params) {
                    *self.n += 1;
                    let t = ident(&format!("__lc{}", self.n));
                    b.stmts.push(parse_quote!(let #t = #a;));
                    tail.push(parse_quote!(let #p = #t;));
                }
                b.stmts.extend(tail);
                b.stmts.push(Stmt::Expr(self.l.body.clone(), None));
                *e = parse_quote!(#b);
                return;
            }
        }
        if matches!(e, Expr::Path(p) if p.path.is_ident(&self.l.name)) {
            match &self.l.whole {
                Some(w) => *e = w.clone(),
                None => self.bad = true,
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if words(&m.tokens).contains(&self.l.name) {
            self.bad = true;
        }
    }
}

pub fn inline_locals(b: &mut Block) {
    struct V(usize);
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() {
                if let Some(l) = as_local(&b.stmts[i]) {
                    let fun = l.whole.is_none();
                    let rest: Vec<Stmt> = b.stmts.iter().enumerate().filter(|(k, _)| if fun { *k != i } else { *k > i }).map(|(_, s)| s.clone()).collect();
                    let mut free = words(&l.body);
                    l.params.iter().for_each(|p| words(p).iter().for_each(|w| { if !fun { free.remove(w); } }));
                    if fun {
                        free.clear();
                    }
                    free.insert(l.name.clone());
                    let later = binds(&rest);
                    if !free.iter().any(|w| later.contains(w)) && !words(&l.body).contains(&l.name) {
                        let mut rest = rest;
                        let mut s = Subst { l: &l, n: &mut self.0, bad: false };
                        rest.iter_mut().for_each(|x| s.visit_stmt_mut(x));
                        if !s.bad {
                            if fun {
                                b.stmts = rest;
                            } else {
                                b.stmts.truncate(i);
                                b.stmts.extend(rest);
                            }
                            continue;
                        }
                    }
                }
                i += 1;
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    V(0).visit_block_mut(b);
}
