//! Early exits of a helper that is to be inlined: `if c { return x; } rest` becomes
//! `if c { x } else { rest }`, and so on, so that the body is one expression.
use crate::tx::flow_expr;
use quote::ToTokens;
use std::collections::HashSet;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

fn exits(e: &Expr) -> bool {
    let f = flow_expr(e);
    f.ret || f.question
}
fn exits_stmt(s: &Stmt) -> bool {
    match s {
        Stmt::Local(l) => l.init.as_ref().map_or(false, |i| exits(&i.expr) || i.diverge.as_ref().map_or(false, |d| exits(&d.1))),
        Stmt::Expr(e, _) => exits(e),
        _ => false,
    }
}

struct Names(HashSet<String>);
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
fn bound(stmts: &[Stmt]) -> HashSet<String> {
    let mut n = Names(HashSet::new());
    stmts.iter().for_each(|s| n.visit_stmt(s));
    n.0
}
fn bound_pat(p: &Pat) -> HashSet<String> {
    let mut n = Names(HashSet::new());
    n.visit_pat(p);
    n.0
}
fn used(stmts: &[Stmt]) -> HashSet<String> {
    fn go(ts: proc_macro2::TokenStream, s: &mut HashSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => {
                    s.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), s),
                _ => {}
            }
        }
    }
    let mut s = HashSet::new();
    stmts.iter().for_each(|x| go(x.to_token_stream(), &mut s));
    s
}

/// what to do with the value of a block: it is the result, or it is bound and `rest` follows
#[derive(Clone, Copy)]
enum K<'a> {
    Result,
    Drop(&'a [Stmt]),
    Bind(&'a Pat, &'a [Stmt]),
}

/// statements of a block, followed by `k`, as one block without early exits
fn seq(stmts: &[Stmt], k: K) -> Option<Vec<Stmt>> {
    let mut v: Vec<Stmt> = stmts.to_vec();
    match k {
        K::Result => {}
        K::Drop(rest) => {
            if let Some(Stmt::Expr(e, s @ None)) = v.last_mut() {
                if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)) {
                    *s = Some(Default::default());
                }
            }
            let b = bound(&v);
            if used(rest).iter().any(|i| b.contains(i)) {
                return None;
            }
            v.extend(rest.iter().cloned());
        }
        K::Bind(p, rest) => {
            match v.pop() {
                Some(Stmt::Expr(Expr::Return(r), _)) => v.push(Stmt::Expr(Expr::Return(r), None)),
                Some(Stmt::Expr(e, None)) => {
                    let b = bound(&v);
                    if used(rest).iter().any(|i| b.contains(i)) {
                        return None;
                    }
                    v.push(parse_quote!(let #p = #e;));
                    v.extend(rest.iter().cloned());
                }
                _ => return None,
            }
        }
    }
    cps(&v)
}

fn arm(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        _ => vec![Stmt::Expr(e.clone(), None)],
    }
}

fn branch(e: &Expr, k: K) -> Option<Expr> {
    match e {
        Expr::If(i) if !exits(&i.cond) => {
            if let (Expr::Let(l), K::Drop(rest) | K::Bind(_, rest)) = (&*i.cond, k) {
                let b = bound_pat(&l.pat);
                if used(rest).iter().any(|x| b.contains(x)) {
                    return None;
                }
            }
            let c = &i.cond;
            let t = seq(&i.then_branch.stmts, k)?;
            let f = match &i.else_branch {
                Some((_, e)) => match &**e {
                    Expr::If(_) => {
                        let x = branch(e, k)?;
                        vec![Stmt::Expr(x, None)]
                    }
                    _ => seq(&arm(e), k)?,
                },
                None => seq(&[], k)?,
            };
            Some(parse_quote!(if #c { #(#t)* } else { #(#f)* }))
        }
        Expr::Match(m) if !exits(&m.expr) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                if a.guard.as_ref().map_or(false, |g| exits(&g.1)) {
                    return None;
                }
                if let K::Drop(rest) | K::Bind(_, rest) = k {
                    let b = bound_pat(&a.pat);
                    if used(rest).iter().any(|x| b.contains(x)) {
                        return None;
                    }
                }
                let s = seq(&arm(&a.body), k)?;
                *a.body = parse_quote!({ #(#s)* });
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        Expr::Block(b) if b.label.is_none() => {
            let s = seq(&b.block.stmts, k)?;
            Some(parse_quote!({ #(#s)* }))
        }
        _ => None,
    }
}

struct RetToBreak {
    ok: bool,
}
impl VisitMut for RetToBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                if r.expr.is_some() {
                    self.ok = false;
                }
                *e = parse_quote!(break);
            }
            Expr::Closure(_) => {}
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                if exits(e) {
                    self.ok = false;
                }
            }
            Expr::Try(_) => self.ok = false,
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn cps(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let Some(i) = stmts.iter().position(exits_stmt) else { return Some(stmts.to_vec()) };
    let mut out = stmts[..i].to_vec();
    let rest = &stmts[i + 1..];
    match &stmts[i] {
        Stmt::Expr(Expr::Return(r), _) => {
            match &r.expr {
                Some(e) => out.extend(cps(&[Stmt::Expr((**e).clone(), None)])?),
                None => {}
            }
            Some(out)
        }
        Stmt::Expr(e @ (Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)), semi) if rest.is_empty() => {
            let mut e = e.clone();
            let mut r = RetToBreak { ok: true };
            match &mut e {
                Expr::While(w) if !exits(&w.cond) => r.visit_block_mut(&mut w.body),
                Expr::Loop(w) => r.visit_block_mut(&mut w.body),
                Expr::ForLoop(w) if !exits(&w.expr) => r.visit_block_mut(&mut w.body),
                _ => return None,
            }
            if !r.ok {
                return None;
            }
            out.push(Stmt::Expr(e, *semi));
            Some(out)
        }
        // f()?;
        Stmt::Expr(Expr::Try(t), Some(_)) if !exits(&t.expr) => {
            let (x, r) = (&t.expr, cps(rest)?);
            out.push(Stmt::Expr(parse_quote!(match #x { Some(_) => { #(#r)* } None => None }), None));
            Some(out)
        }
        // f()? as the result
        Stmt::Expr(Expr::Try(t), None) if rest.is_empty() && !exits(&t.expr) => None.or_else(|| {
            let x = &t.expr;
            out.push(Stmt::Expr(parse_quote!(match #x { Some(__q) => __q, None => None }), None));
            Some(out)
        }),
        Stmt::Expr(e, semi) => {
            let last = rest.is_empty() && semi.is_none();
            let x = branch(e, if last { K::Result } else { K::Drop(rest) })?;
            out.push(Stmt::Expr(x, None));
            Some(out)
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = match &l.pat {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            if let Some((_, d)) = &init.diverge {
                if exits(&init.expr) {
                    return None;
                }
                let (x, r, el) = (&init.expr, cps(rest)?, cps(&arm(d))?);
                out.push(Stmt::Expr(parse_quote!(match #x { #pat => { #(#r)* } _ => { #(#el)* } }), None));
                return Some(out);
            }
            if let Expr::Try(t) = &*init.expr {
                if exits(&t.expr) {
                    return None;
                }
                let (x, r) = (&t.expr, cps(rest)?);
                out.push(Stmt::Expr(parse_quote!(match #x { Some(#pat) => { #(#r)* } None => None }), None));
                return Some(out);
            }
            let x = branch(&init.expr, K::Bind(&pat, rest))?;
            out.push(Stmt::Expr(x, None));
            Some(out)
        }
        _ => None,
    }
}

/// the block without early exits, if the rules above reach all of them
pub fn single_exit(b: &Block) -> Option<Block> {
    let stmts = cps(&b.stmts)?;
    Some(Block { brace_token: b.brace_token, stmts })
}
