//! Function-body transformation: from the source text of a function to the same
//! function in the subset and vocabulary the verifier accepts. Every rule is a
//! semantics-preserving desugaring or a 1:1 renaming; they are listed in DESIGN.md.
use crate::db::{Db, FnSpec};
use proc_macro2::{Ident, Span};

use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct InlineFn {
    pub self_ty: Option<String>,
    pub sig: Signature,
    pub block: Block,
}

pub struct Global {
    /// associated types of the Iterator impls, by type
    pub assoc: HashMap<String, HashMap<String, Type>>,
    pub db: Db,
    /// contract-less helper functions by name
    pub inline: HashMap<String, Vec<InlineFn>>,
    /// names of methods that have contracts
    pub contracted: HashSet<String>,
    /// (struct, field) -> the field's type, by its last name
    pub fields: HashMap<(String, String), String>,
}

pub struct Tx<'a> {
    pub g: &'a Global,
    pub spec: FnSpec,
    pub texts: &'a mut Vec<String>,
    pub self_ty: Option<String>,
    /// which of the helper traits the file imports (decides method resolution)
    pub imports: &'a BTreeSet<String>,
    pub params: Vec<String>,
    pub loops: Vec<String>,
    pub problems: Vec<String>,
    pub inlined: Vec<String>,
    pub counter: usize,
    pub depth: usize,
    pub mut_locals: Vec<String>,
    /// mutable locals that hold an iterator over a container
    pub iter_locals: HashSet<String>,
    pub src_text: String,
    pub dq: String,
    /// locals that start as a number or a length, and the one the present loop uses
    pub counters: HashSet<String>,
    pub ctr: String,
    /// the locals the present loop changes, in the order of their declarations: `$acc[k]`
    pub accs: Vec<String>,
    /// inside an indexing function: Some(panicking variant)
    pub idx: Option<bool>,
}

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

pub struct HasFlow {
    pub ret: bool,
    pub question: bool,
    pub brk: bool,
}
impl<'ast> Visit<'ast> for HasFlow {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, e: &'ast ExprTry) {
        self.question = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
        self.brk = true;
    }
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
        self.brk = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
pub fn flow_expr(e: &Expr) -> HasFlow {
    let mut h = HasFlow { ret: false, question: false, brk: false };
    h.visit_expr(e);
    h
}
pub fn flow_block(e: &Block) -> HasFlow {
    let mut h = HasFlow { ret: false, question: false, brk: false };
    h.visit_block(e);
    h
}

pub fn has_continue(b: &Block) -> bool {
    struct C(bool);
    impl<'ast> Visit<'ast> for C {
        fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
            self.0 = true;
        }
    }
    let mut c = C(false);
    c.visit_block(b);
    c.0
}

struct Idents(HashSet<String>);
impl<'ast> Visit<'ast> for Idents {
    fn visit_ident(&mut self, i: &'ast Ident) {
        self.0.insert(i.to_string());
    }
}
fn idents_of<T: ToTokens>(t: &T) -> HashSet<String> {
    fn go(ts: proc_macro2::TokenStream, s: &mut HashSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => {
                    s.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), s),
                _ => {}
            }
        }
    }
    let mut s = HashSet::new();
    go(t.to_token_stream(), &mut s);
    s
}
struct Binders(HashSet<String>);
impl<'ast> Visit<'ast> for Binders {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

/// `matches!(e, p if g)` as the match it stands for
fn matches_expr(mac: &Macro) -> Option<Expr> {
    if !mac.path.segments.last().map_or(false, |l| l.ident == "matches") {
        return None;
    }
    let p = |inp: parse::ParseStream| -> syn::Result<(Expr, Pat, Option<Expr>)> {
        let ex: Expr = inp.parse()?;
        let _: Token![,] = inp.parse()?;
        let pat = Pat::parse_multi_with_leading_vert(inp)?;
        let g = if inp.peek(Token![if]) {
            let _: Token![if] = inp.parse()?;
            Some(inp.parse()?)
        } else {
            None
        };
        let _: Option<Token![,]> = inp.parse()?;
        Ok((ex, pat, g))
    };
    let (ex, pat, g) = parse::Parser::parse2(p, mac.tokens.clone()).ok()?;
    Some(match g {
        Some(g) => parse_quote!(match #ex { #pat if #g => true, _ => false }),
        None => parse_quote!(match #ex { #pat => true, _ => false }),
    })
}

/// The one place that a loop pops elements from, if it is a plain path of fields.
fn popped(b: &Block) -> Option<String> {
    struct P(BTreeSet<String>);
    impl<'a> Visit<'a> for P {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if ["pop_front", "pop_back", "pop"].contains(&m.method.to_string().as_str()) {
                let mut e = &*m.receiver;
                while let Expr::Field(f) = e {
                    e = &*f.base;
                }
                self.0.insert(if matches!(e, Expr::Path(_)) { m.receiver.to_token_stream().to_string() } else { "?".into() });
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut p = P(BTreeSet::new());
    p.visit_block(b);
    if p.0.len() == 1 && !p.0.contains("?") { p.0.into_iter().next() } else { None }
}

pub struct ExpandMatches;
impl VisitMut for ExpandMatches {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = matches_expr(&m.mac) {
                *e = parse_quote!((#x));
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let n = m.path.segments.last().map(|l| l.ident.to_string()).unwrap_or_default();
        if n.starts_with("assert") || n.starts_with("debug_assert") {
            each_arg(m, |e| self.visit_expr_mut(e));
        }
    }
}

/// the comma-separated expressions of a macro call, if it is a list of expressions
fn each_arg(m: &mut Macro, mut f: impl FnMut(&mut Expr)) {
    let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    if let Ok(mut args) = parse::Parser::parse2(parser, m.tokens.clone()) {
        for a in args.iter_mut() {
            f(a);
        }
        m.tokens = args.to_token_stream();
    }
}

struct Rename<'a> {
    map: &'a HashMap<String, Expr>,
    self_ty: Option<String>,
}
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if p.qself.is_none() {
                if let Some(i) = p.path.get_ident() {
                    if let Some(r) = self.map.get(&i.to_string()) {
                        *e = r.clone();
                        return;
                    }
                }
            }
        }
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                if f.colon_token.is_none() {
                    // shorthand `x` where the value was renamed
                    if f.expr.to_token_stream().to_string() != f.member.to_token_stream().to_string() {
                        f.colon_token = Some(Default::default());
                    }
                }
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if self.map.is_empty() {
            return;
        }
        each_arg(m, |e| self.visit_expr_mut(e));
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(ty) = &self.self_ty {
            if p.segments.len() >= 1 && p.segments[0].ident == "Self" {
                p.segments[0].ident = ident(ty);
            }
        }
    }
}

pub fn rename_block(b: &mut Block, map: &HashMap<String, Expr>) {
    Rename { map, self_ty: None }.visit_block_mut(b);
}

fn method_chain_root_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if ["iter", "into_iter", "drain", "iter_mut"].contains(&n.as_str()) {
                return true;
            }
            if ["map", "filter", "filter_map", "rev", "cloned", "copied", "enumerate", "zip", "chain", "skip", "take"]
                .contains(&n.as_str())
            {
                return method_chain_root_iter(&m.receiver);
            }
            false
        }
        Expr::Paren(p) => method_chain_root_iter(&p.expr),
        _ => false,
    }
}

fn is_opt(e: &Expr) -> bool {
    const OPT: &[&str] = &[
        "front", "back", "front_mut", "back_mut", "pop_front", "pop_back", "next", "next_back",
        "nth", "nth_back", "position", "find", "and_then", "or_else", "flatten", "get", "get_mut",
        "remove", "as_ref", "as_mut", "ok", "checked_add", "checked_sub", "take", "first", "last",
        "partial_cmp", "or", "and", "zip", "filter", "forward_checked", "backward_checked",
        "steps_between", "map_opt", "from_u32", "char_from_u32", "checked_mul", "checked_add_unsigned", "checked_sub_unsigned", "copied", "cloned", "min", "max",
    ];
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if n == "map" {
                return is_opt(&m.receiver);
            }
            OPT.contains(&n.as_str()) && !method_chain_root_iter(e)
                || (n == "position" || n == "find" || n == "rposition" || n == "rfind" || n == "last" || n == "next")
        }
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                let l = p.path.segments.last().unwrap().ident.to_string();
                return OPT.contains(&l.as_str()) || l == "Some";
            }
            false
        }
        Expr::Field(f) => {
            // size_hint().1
            if let (Member::Unnamed(ix), Expr::MethodCall(m)) = (&f.member, &*f.base) {
                return ix.index == 1 && m.method == "size_hint";
            }
            false
        }
        Expr::Match(m) => {
            // produced by earlier rewriting of an Option combinator
            m.arms.iter().any(|a| {
                let s = a.body.to_token_stream().to_string();
                s == "None"
                    || s.contains("None")
                        && matches!(&*a.body, Expr::Block(b) if b.block.stmts.len() == 1)
            })
        }
        Expr::Paren(p) => is_opt(&p.expr),
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if is_opt(e)),
        Expr::Path(p) => p.path.is_ident("None"),
        _ => false,
    }
}

fn simple_pat_ident(p: &Pat) -> Option<Ident> {
    match p {
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(i.ident.clone()),
        Pat::Type(t) => simple_pat_ident(&t.pat),
        _ => None,
    }
}

fn strip_pat_type(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        _ => p.clone(),
    }
}

pub fn closure_of(e: &Expr) -> Option<ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c.clone()),
        Expr::Paren(p) => closure_of(&p.expr),
        _ => None,
    }
}

const RT_METHODS: &[(&str, &str)] =
    &[("intersection", "RangeIntersection"), ("union", "RangeUnion"), ("complement", "RangeComplement")];

enum Stage {
    Map(ExprClosure),
    FilterMap(ExprClosure),
    Filter(ExprClosure),
}

/// a closure, or a function path as the closure that calls it
fn callable(e: &Expr) -> Option<ExprClosure> {
    closure_of(e).or_else(|| match e {
        Expr::Path(p) => {
            let l = p.path.segments.last().unwrap().ident.clone();
            let c: ExprClosure = if l == "into_iter" || l == "is_empty" || l == "clone" {
                parse_quote!(|__x| __x.#l())
            } else {
                parse_quote!(|__x| #p(__x))
            };
            Some(c)
        }
        _ => None,
    })
}

/// `base.map(f).filter(g)...` as its base and its stages (None: a stage that is not understood)
fn split_stages(e: &Expr) -> (Expr, Option<Vec<Stage>>) {
    if let Expr::MethodCall(m) = e {
        let n = m.method.to_string();
        if (n == "map" || n == "filter" || n == "filter_map") && m.args.len() == 1 && method_chain_root_iter(&m.receiver) {
            let (base, st) = split_stages(&m.receiver);
            let cl = callable(&m.args[0]).filter(|c| {
                let f = flow_expr(&c.body);
                c.inputs.len() == 1 && !f.ret && !f.question
            });
            return match (st, cl) {
                (Some(mut st), Some(c)) => {
                    st.push(match n.as_str() {
                        "map" => Stage::Map(c),
                        "filter" => Stage::Filter(c),
                        _ => Stage::FilterMap(c),
                    });
                    (base, Some(st))
                }
                _ => (base, None),
            };
        }
    }
    (e.clone(), Some(vec![]))
}

impl<'a> Tx<'a> {
    fn wrap_stages(&mut self, st: &[Stage], x: &Ident, last: &dyn Fn(&Ident) -> Vec<Stmt>) -> Vec<Stmt> {
        match st.split_first() {
            None => last(x),
            Some((Stage::Map(c), rest)) => {
                let y = self.fresh("x");
                let mut p = strip_pat_type(&c.inputs[0]);
                let l = self.unref(&mut p);
                let b = &c.body;
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = { let #p = #x; #(#l)* #b };)];
                v.extend(self.wrap_stages(rest, &y, last));
                v
            }
            Some((Stage::FilterMap(c), rest)) => {
                let (y, z) = (self.fresh("x"), self.fresh("x"));
                let mut p = strip_pat_type(&c.inputs[0]);
                let l = self.unref(&mut p);
                let b = &c.body;
                let r = self.wrap_stages(rest, &z, last);
                vec![
                    parse_quote!(let #y = { let #p = #x; #(#l)* #b };),
                    parse_quote!(match #y { Some(#z) => { #(#r)* } None => {} }),
                ]
            }
            Some((Stage::Filter(c), rest)) => {
                let mut p = strip_pat_type(&c.inputs[0]);
                let l = self.unref(&mut p);
                let b = &c.body;
                let k = self.fresh("keep");
                let r = self.wrap_stages(rest, x, last);
                vec![
                    parse_quote!(let #k = { let #p = &#x; #(#l)* #b };),
                    parse_quote!(if #k { #(#r)* }),
                ]
            }
        }
    }

    pub fn text(&mut self, s: String) -> usize {
        self.texts.push(s);
        self.texts.len() - 1
    }
    fn vtext(&mut self, s: String) -> Stmt {
        let n = self.text(s);
        let n = proc_macro2::Literal::usize_unsuffixed(n);
        parse_quote!(__vtext!(#n);)
    }
    fn vspec(&mut self, s: String) -> Stmt {
        let n = self.text(s);
        let n = proc_macro2::Literal::usize_unsuffixed(n);
        parse_quote!(__vspec!(#n);)
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.counter += 1;
        format_ident!("__{}{}", p, self.counter)
    }
    pub fn subst(&self, s: &str) -> String {
        let mut s = s.to_string();
        for (i, p) in self.params.iter().enumerate() {
            s = s.replace(&format!("${}", i + 1), p);
        }
        s
    }

    fn loop_texts(&mut self, kind: &str, it: Option<&Ident>, acc: Option<String>, auto: &str)
        -> (Stmt, Stmt, Stmt, Stmt, Stmt) {
        let k = self.loops.len();
        self.loops.push(kind.to_string());
        let ls = self.spec.loops.get(k).cloned().unwrap_or_default();
        let sub = |s: &str, me: &Self| {
            let mut s = me.subst(s).replace("$src", &me.src_text).replace("$self", if me.mut_locals.iter().any(|m| m == "__self") { "__self" } else { "self" });
            if let Some(it) = it {
                s = s.replace("$it", &it.to_string());
            }
            if me.accs.len() == 2 {
                s = s.replace("$acc[0]", &me.accs[0]).replace("$acc[1]", &me.accs[1]);
            }
            if let Some(a) = &acc {
                s = s.replace("$acc", a);
            }
            if !me.dq.is_empty() {
                s = s.replace("$dq", &me.dq);
            }
            if !me.ctr.is_empty() {
                s = s.replace("$idx", &me.ctr);
            }
            s
        };
        let mut spec = sub(&ls.spec, self);
        if !auto.is_empty() {
            // the automatic invariants come first
            let a = auto.to_string();
            if let Some(pos) = spec.find("invariant") {
                spec.insert_str(pos + "invariant".len(), &format!("\n    {a},"));
            } else {
                spec = format!("invariant\n    {a},\n{spec}");
            }
        }
        if spec.contains("$") {
            self.problems.push(format!("lost anchor: loop {k} ({kind}): unresolved name in invariant"));
        }
        let (en, ex, be, af) = (sub(&ls.entry, self), sub(&ls.exit, self), sub(&ls.before, self), sub(&ls.after, self));
        (self.vspec(spec), self.vtext(en), self.vtext(ex), self.vtext(be), self.vtext(af))
    }

    fn acc_for(&mut self, body: &Block) -> Option<String> {
        let ids = idents_of(body);
        let c: Vec<&String> = self.mut_locals.iter().filter(|m| ids.contains(*m)).collect();
        self.accs = c.iter().map(|s| s.to_string()).collect();
        if c.len() == 1 {
            Some(c[0].clone())
        } else {
            None
        }
    }

    /// Sets `$idx`, the loop's counter; gives the accumulator beside it.
    fn acc_counted(&mut self, body: &Block) -> Option<String> {
        let ids = idents_of(body);
        let (n, c): (Vec<&String>, Vec<&String>) =
            self.mut_locals.iter().filter(|m| ids.contains(*m)).partition(|m| self.counters.contains(*m));
        self.ctr = if n.len() == 1 { n[0].clone() } else { String::new() };
        if n.len() == 1 && c.len() == 1 { Some(c[0].clone()) } else { None }
    }

    /// The accumulator beside the container that the loop empties.
    fn acc_beside(&self, body: &Block, dq: Option<&String>) -> Option<String> {
        let ids = idents_of(body);
        let c: Vec<&String> = self.mut_locals.iter().filter(|m| ids.contains(*m) && Some(*m) != dq).collect();
        if c.len() == 1 { Some(c[0].clone()) } else { None }
    }

    /// An iterator expression, as the shim iterator it stands for.
    fn iter_source(&mut self, e: Expr) -> Option<(Expr, bool)> {
        // returns (expression, is_iter_mut: then expression is the container place)
        match &e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "iter_mut" && m.args.is_empty() {
                    return Some(((*m.receiver).clone(), true));
                }
                if (n == "iter" || n == "into_iter") && m.args.is_empty() {
                    return Some((e, false));
                }
                // all of a container, left empty
                if n == "drain" && m.args.len() == 1 && m.args[0].to_token_stream().to_string() == ".." {
                    let r = &m.receiver;
                    return Some((parse_quote!(crate::shim::mem_take(&mut #r).into_iter()), false));
                }
                if (n == "copied" || n == "cloned") && m.args.is_empty() {
                    if let Some((src, false)) = self.iter_source((*m.receiver).clone()) {
                        return Some((parse_quote!(#src.cloned_()), false));
                    }
                }
                if n == "rev" && m.args.is_empty() {
                    if let Some((src, false)) = self.iter_source((*m.receiver).clone()) {
                        return Some((parse_quote!(#src.rev_()), false));
                    }
                }
                if method_chain_root_iter(&e) {
                    return None;
                }
                Some((parse_quote!((#e).into_iter()), false))
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                let x = &r.expr;
                Some((parse_quote!((#x).iter()), false))
            }
            Expr::Reference(r) => Some(((*r.expr).clone(), true)),
            Expr::Paren(p) => {
                let x = (*p.expr).clone();
                self.iter_source(x)
            }
            Expr::Range(_) => None,
            _ => Some((parse_quote!((#e).into_iter()), false)),
        }
    }

    fn while_iter(&mut self, kind: &str, it: &Ident, src: Expr, mut_: bool, mut pat: Pat, mut body: Block, acc: Option<String>, tail: Option<Expr>, pre: Vec<Stmt>) -> Expr {
        for l in self.unref(&mut pat) {
            body.stmts.insert(0, l);
        }
        let s0 = format_ident!("{}_s", it);
        let gt = self.vtext(format!("let ghost {s0} = {it}.s();"));
        if mut_ {
            // in-place iteration over a container
            let auto = format!("{it} <= {it}_n");
            self.src_text = src.to_token_stream().to_string().replace(" ", "");
            let (spec, en, ex, be, af) = self.loop_texts(kind, Some(it), acc, &auto);
            let n = format_ident!("{}_n", it);
            self.visit_block_mut(&mut body);
            let stmts = body.stmts;
            return parse_quote!({
                let #n = (#src).len();
                let mut #it: usize = 0;
                #be
                while #it < #n {
                    #spec
                    #en
                    {
                    let #pat = (#src).at_mut(#it);
                    #(#stmts)*
                    }
                    #it = #it + 1;
                    #ex
                }
                #af
            });
        }
        let auto = format!("{it}.inv(), {it}.s() == {s0}");
        let (spec, en, ex, be, af) = self.loop_texts(kind, Some(it), acc, &auto);
        self.visit_block_mut(&mut body);
        let stmts = body.stmts;
        let fin: proc_macro2::TokenStream = match tail {
            Some(t) => quote!(#t),
            None => quote!(),
        };
        parse_quote!({
            let mut #it = #src;
            #gt
            #(#pre)*
            #be
            while #it.has_next() {
                #spec
                let #pat = #it.take_next();
                #en
                #(#stmts)*
                #ex
            }
            #af
            #fin
        })
    }

    /// `&x` in a pattern, as a fresh name and `let x = *name`
    fn unref(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct U {
            n: usize,
            lets: Vec<Stmt>,
        }
        impl VisitMut for U {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                visit_mut::visit_pat_mut(self, p);
                if let Pat::Reference(r) = p {
                    if let (Pat::Ident(i), None) = (&*r.pat, r.mutability) {
                        if i.by_ref.is_none() && i.subpat.is_none() {
                            self.n += 1;
                            let f = format_ident!("__u{}", self.n);
                            let inner = i.clone();
                            self.lets.push(parse_quote!(let #inner = *#f;));
                            *p = parse_quote!(#f);
                        }
                    }
                }
            }
        }
        let mut u = U { n: self.counter, lets: vec![] };
        u.visit_pat_mut(p);
        self.counter = u.n;
        u.lets
    }

    fn pred_closure(&mut self, e: &Expr) -> Option<Expr> {
        let c = callable(e)?;
        if c.inputs.len() != 1 {
            return None;
        }
        let p = &c.inputs[0];
        let (pat, pre): (Pat, proc_macro2::TokenStream) = (p.clone(), quote!());
        let _ = pre;
        let mut body = (*c.body).clone();
        let sp = spec_of(&body, &|n| self.g.db.fns.get(n).is_some());
        self.visit_expr_mut(&mut body);
        // (helpers are gone now)
        let sp = sp.or_else(|| spec_of(&body, &|n| self.g.db.fns.get(n).is_some()));
        let body_s = crate::pp::print(body.to_token_stream(), self.texts);
        let sp = match sp {
            Some(s) => s,
            None => {
                self.problems.push(format!(
                    "closure without derivable contract: {}",
                    c.to_token_stream()
                ));
                "true".into()
            }
        };
        let pat_s = match &pat {
            Pat::Reference(r) => {
                // |&x| body: bind by copy inside
                let inner = r.pat.to_token_stream().to_string();
                let t = format!(
                    "|__x| -> (__b: bool) ensures ({{ let {inner} = *__x; __b == ({sp}) }}) {{ let {inner} = *__x; {body_s} }}"
                );
                let n = proc_macro2::Literal::usize_unsuffixed(self.text(t));
                return Some(parse_quote!(__vexpr!(#n)));
            }
            Pat::Ident(i) if i.subpat.is_none() => i.ident.to_string(),
            Pat::Type(t) => t.to_token_stream().to_string(),
            _ => return None,
        };
        let t = format!("|{pat_s}| -> (__b: bool) ensures __b == ({sp}) {{ {body_s} }}");
        let n = proc_macro2::Literal::usize_unsuffixed(self.text(t));
        Some(parse_quote!(__vexpr!(#n)))
    }

    /// `(|p..| body)(args)` as a block.
    fn beta(&mut self, c: &ExprClosure, args: &[Expr]) -> Option<Expr> {
        let f = flow_expr(&c.body);
        if f.ret || f.question || c.inputs.len() != args.len() {
            return None;
        }
        let mut stmts: Vec<Stmt> = vec![];
        for (p, a) in c.inputs.iter().zip(args) {
            let p = p.clone();
            stmts.push(parse_quote!(let #p = #a;));
        }
        let b = &c.body;
        Some(parse_quote!({ #(#stmts)* #b }))
    }

    fn try_inline(&mut self, cand: &InlineFn, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 6 {
            return None;
        }
        let mut cand = cand.clone();
        let f = flow_block(&cand.block);
        if f.ret || f.question {
            cand.block = crate::cps::single_exit(&cand.block)?;
            let f = flow_block(&cand.block);
            if f.ret || f.question {
                return None;
            }
        }
        let cand = &cand;
        let mut map: HashMap<String, Expr> = HashMap::new();
        let mut pre: Vec<Stmt> = vec![];
        let mut inputs = cand.sig.inputs.iter();
        if let Some(FnArg::Receiver(r)) = cand.sig.inputs.first() {
            inputs.next();
            let recv = recv?;
            let is_self = matches!(&recv, Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                let n = self.fresh("self");
                if r.reference.is_some() {
                    if r.mutability.is_some() {
                        pre.push(parse_quote!(let #n = &mut #recv;));
                    } else {
                        pre.push(parse_quote!(let #n = &#recv;));
                    }
                } else if r.mutability.is_some() {
                    pre.push(parse_quote!(let mut #n = #recv;));
                } else {
                    pre.push(parse_quote!(let #n = #recv;));
                }
                map.insert("self".into(), parse_quote!(#n));
            }
        } else if recv.is_some() {
            return None;
        }
        let binders = {
            let mut b = Binders(HashSet::new());
            b.visit_block(&cand.block);
            b.0
        };
        let mut closures: HashMap<String, Expr> = HashMap::new();
        let mut muts: HashSet<String> = HashSet::new();
        let rest: Vec<&FnArg> = inputs.collect();
        if rest.len() != args.len() {
            return None;
        }
        let given = args.clone();
        for (p, a) in rest.iter().zip(args) {
            let FnArg::Typed(pt) = p else { return None };
            let ty = pt.ty.to_token_stream().to_string();
            let fnlike = ty.contains("Fn") || cand.sig.generics.to_token_stream().to_string().contains("Fn")
                || cand.sig.generics.where_clause.to_token_stream().to_string().contains("Fn");
            let name = simple_pat_ident(&pt.pat);
            let is_fn_arg = closure_of(&a).is_some()
                || (fnlike && matches!(a, Expr::Path(_)) && ty.contains("Fn"));
            if is_fn_arg {
                let name = name?;
                if let Some(c) = closure_of(&a) {
                    // a `move` closure that changes what it captured keeps a state of its own
                    let mut asg = Assigns(false);
                    asg.visit_expr(&c.body);
                    if c.capture.is_some() && asg.0 {
                        return None;
                    }
                    let mut free = idents_of(&c.body);
                    for p in &c.inputs {
                        for i in idents_of(p) {
                            free.remove(&i);
                        }
                    }
                    if free.iter().any(|i| binders.contains(i)) {
                        return None;
                    }
                }
                closures.insert(name.to_string(), a);
            } else {
                // `&mut place` used only as the receiver of methods: the place itself
                if let (Some(nm), Expr::Reference(rf)) = (&name, &a) {
                    let fns: HashMap<String, ExprClosure> = rest
                        .iter()
                        .zip(&given)
                        .filter_map(|(p, a)| match p {
                            FnArg::Typed(pt) => Some((simple_pat_ident(&pt.pat)?.to_string(), closure_of(a)?)),
                            _ => None,
                        })
                        .collect();
                    let mut u = Uses { name: nm.to_string(), fns: &fns, all: 0, recv: 0 };
                    u.visit_block(&cand.block);
                    if rf.mutability.is_some() && matches!(&*rf.expr, Expr::Field(_)) && field_path(&rf.expr) && u.all == u.recv {
                        map.insert(nm.to_string(), (*rf.expr).clone());
                        muts.insert(rf.expr.to_token_stream().to_string());
                        continue;
                    }
                }
                let n = self.fresh("a");
                if ty.starts_with("& mut ") || ty.starts_with("&mut ") {
                    muts.insert(n.to_string());
                }
                match name {
                    Some(nm) => {
                        let m = matches!(&*pt.pat, Pat::Ident(i) if i.mutability.is_some());
                        if m {
                            pre.push(parse_quote!(let mut #n = #a;));
                        } else {
                            pre.push(parse_quote!(let #n = #a;));
                        }
                        map.insert(nm.to_string(), parse_quote!(#n));
                    }
                    None => {
                        let p = &pt.pat;
                        pre.push(parse_quote!(let #p = #a;));
                    }
                }
            }
        }
        let mut block = cand.block.clone();
        Rename { map: &map, self_ty: cand.self_ty.clone() }.visit_block_mut(&mut block);
        if !closures.is_empty() {
            let mut ap = Apply { closures: &closures, muts, ok: true };
            ap.visit_block_mut(&mut block);
            if !ap.ok {
                return None;
            }
        }
        self.inlined.push(cand.sig.ident.to_string());
        let stmts = block.stmts;
        let mut e: Expr = parse_quote!({ #(#pre)* #(#stmts)* });
        self.depth += 1;
        self.visit_expr_mut(&mut e);
        self.depth -= 1;
        Some(e)
    }

    /// the type of `self` and of field paths from it, where the structs tell
    fn type_of(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) if p.path.is_ident("self") => self.self_ty.as_ref().map(|t| t.trim_start_matches('&').to_string()),
            Expr::Paren(p) => self.type_of(&p.expr),
            Expr::Reference(r) => self.type_of(&r.expr),
            Expr::Field(f) => {
                let t = self.type_of(&f.base)?;
                self.g.fields.get(&(t, f.member.to_token_stream().to_string())).cloned()
            }
            _ => None,
        }
    }

    fn candidates(&self, name: &str, ty: Option<&str>) -> Option<InlineFn> {
        let v = self.g.inline.get(name)?;
        let v: Vec<&InlineFn> = v
            .iter()
            .filter(|c| match ty {
                Some(t) => c.self_ty.as_deref() == Some(t),
                None => true,
            })
            .collect();
        if v.len() == 1 {
            Some(v[0].clone())
        } else {
            None
        }
    }
}

struct Assigns(bool);
impl<'ast> Visit<'ast> for Assigns {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Assign(_) => self.0 = true,
            Expr::Binary(b) if b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Le(_) | BinOp::Ge(_)) => {
                self.0 = true
            }
            Expr::Reference(r) if r.mutability.is_some() => self.0 = true,
            _ => visit::visit_expr(self, e),
        }
    }
}

fn field_path(e: &Expr) -> bool {
    match e {
        Expr::Field(f) => field_path(&f.base),
        Expr::Path(p) => p.path.get_ident().is_some(),
        _ => false,
    }
}

/// occurrences of a name, and those as the receiver of a method or the argument of a local function
struct Uses<'f> {
    name: String,
    fns: &'f HashMap<String, ExprClosure>,
    all: usize,
    recv: usize,
}
impl<'ast, 'f> Visit<'ast> for Uses<'f> {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func {
            if let Some(cl) = p.path.get_ident().and_then(|i| self.fns.get(&i.to_string())) {
                for (a, p) in c.args.iter().zip(&cl.inputs) {
                    if let (Expr::Path(a), Some(i)) = (a, simple_pat_ident(p)) {
                        let none = HashMap::new();
                        let mut u = Uses { name: i.to_string(), fns: &none, all: 0, recv: 0 };
                        u.visit_expr(&cl.body);
                        if a.path.is_ident(&self.name) && u.all == u.recv {
                            self.recv += 1;
                        }
                    }
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if p.path.is_ident(&self.name) {
            self.all += 1;
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if m.method != "into_iter" && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(&self.name)) {
            self.recv += 1;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        if m.tokens.to_string().contains(&self.name) {
            self.all += 1;
        }
    }
}

struct Apply<'a> {
    closures: &'a HashMap<String, Expr>,
    /// names bound to a `&mut`, passed on as they are
    muts: HashSet<String>,
    ok: bool,
}
impl<'a> VisitMut for Apply<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let named = |e: &Expr| match e {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.closures.get(&i.to_string())).cloned(),
            _ => None,
        };
        match e {
            Expr::Call(c) if named(&c.func).is_some() => {
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            // handed on to another function
            Expr::Path(_) => {
                if let Some(f) = named(e) {
                    *e = f;
                }
                return;
            }
            Expr::Reference(r) if named(&r.expr).is_some() => {
                *e = named(&r.expr).unwrap();
                return;
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
        let new = if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(i) = p.path.get_ident() {
                    if let Some(f) = self.closures.get(&i.to_string()) {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        match closure_of(f) {
                            Some(cl) => {
                                let fl = flow_expr(&cl.body);
                                if fl.ret || fl.question || cl.inputs.len() != args.len() {
                                    self.ok = false;
                                    None
                                } else {
                                    let mut stmts: Vec<Stmt> = vec![];
                                    let mut subst: HashMap<String, Expr> = HashMap::new();
                                    for (p, a) in cl.inputs.iter().zip(&args) {
                                        let same = simple_pat_ident(p).map(|i| i.to_string())
                                            == Some(a.to_token_stream().to_string());
                                        let t = a.to_token_stream().to_string();
                                        let id = simple_pat_ident(p);
                                        if !same && self.muts.contains(&t) && id.is_some() {
                                            subst.insert(id.unwrap().to_string(), a.clone());
                                        } else if !same {
                                            stmts.push(parse_quote!(let #p = #a;));
                                        }
                                    }
                                    let mut b = (*cl.body).clone();
                                    Rename { map: &subst, self_ty: None }.visit_expr_mut(&mut b);
                                    Some(parse_quote!({ #(#stmts)* #b }))
                                }
                            }
                            None => Some(parse_quote!(#f(#(#args),*))),
                        }
                    } else {
                        None
                    }
                } else {
                    None
                }
            } else {
                None
            }
        } else {
            None
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// The specification counterpart of a pure boolean expression.
pub fn spec_of(e: &Expr, _known: &dyn Fn(&str) -> bool) -> Option<String> {
    let r = |e: &Expr| spec_of(e, _known);
    Some(match e {
        Expr::Paren(p) => format!("({})", r(&p.expr)?),
        Expr::Block(b) => {
            let mut s = String::new();
            let n = b.block.stmts.len();
            for (i, st) in b.block.stmts.iter().enumerate() {
                match st {
                    Stmt::Local(l) if i + 1 < n => {
                        let init = l.init.as_ref()?;
                        let p = strip_pat_type(&l.pat).to_token_stream().to_string();
                        s += &format!("let {p} = {}; ", r(&init.expr)?);
                    }
                    Stmt::Expr(e, None) if i + 1 == n => s += &r(e)?,
                    _ => return None,
                }
            }
            format!("{{ {s} }}")
        }
        Expr::If(i) => {
            let (_, els) = i.else_branch.as_ref()?;
            let th = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
            format!("(if {} {} else {{ {} }})", r(&i.cond)?, r(&th)?, r(els)?)
        }
        Expr::Unary(u) => match u.op {
            UnOp::Not(_) => format!("!({})", r(&u.expr)?),
            UnOp::Deref(_) => format!("(*{})", r(&u.expr)?),
            _ => return None,
        },
        Expr::Reference(x) if x.mutability.is_none() => format!("(&{})", r(&x.expr)?),
        Expr::Lit(l) => l.to_token_stream().to_string(),
        Expr::Path(p) => p.to_token_stream().to_string(),
        Expr::Field(f) => format!("{}.{}", r(&f.base)?, f.member.to_token_stream()),
        Expr::Binary(b) => {
            let (l, rr) = (r(&b.left)?, r(&b.right)?);
            match b.op {
                BinOp::And(_) => format!("({l} && {rr})"),
                BinOp::Or(_) => format!("({l} || {rr})"),
                BinOp::Lt(_) => format!("crate::shim::sp_lt({l}, {rr})"),
                BinOp::Gt(_) => format!("crate::shim::sp_lt({rr}, {l})"),
                BinOp::Le(_) => format!("!crate::shim::sp_lt({rr}, {l})"),
                BinOp::Ge(_) => format!("!crate::shim::sp_lt({l}, {rr})"),
                BinOp::Eq(_) => format!("crate::shim::sp_eq({l}, {rr})"),
                BinOp::Ne(_) => format!("!crate::shim::sp_eq({l}, {rr})"),
                _ => return None,
            }
        }
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let a: Vec<&Expr> = m.args.iter().collect();
            match (n.as_str(), a.len()) {
                ("intersects", 1) => format!("crate::shim::sp_intersects({}, {})", r(&m.receiver)?, r(a[0])?),
                ("disjoint", 1) => format!("!crate::shim::sp_intersects({}, {})", r(&m.receiver)?, r(a[0])?),
                ("is_empty", 0) => {
                    // (a intersection b).is_empty()
                    if let Expr::MethodCall(i) = &*m.receiver {
                        if i.method == "intersection" && i.args.len() == 1 {
                            return Some(format!(
                                "!crate::shim::sp_intersects({}, {})",
                                r(&i.receiver)?,
                                r(&i.args[0])?
                            ));
                        }
                    }
                    if let Expr::Call(c) = &*m.receiver {
                        if c.func.to_token_stream().to_string().ends_with(":: intersection") && c.args.len() == 2 {
                            return Some(format!(
                                "!crate::shim::sp_intersects({}, {})",
                                r(&c.args[0])?,
                                r(&c.args[1])?
                            ));
                        }
                    }
                    format!("crate::shim::sp_empty({})", r(&m.receiver)?)
                }
                ("contains", 1) => format!("crate::shim::sp_contains({}, {})", r(&m.receiver)?, r(a[0])?),
                ("clone", 0) => r(&m.receiver)?,
                _ => return None,
            }
        }
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            let a: Vec<&Expr> = c.args.iter().collect();
            match (f.as_str(), a.len()) {
                ("Rangetools::intersects", 2) => format!("crate::shim::sp_intersects({}, {})", r(a[0])?, r(a[1])?),
                ("Rangetools::disjoint", 2) => format!("!crate::shim::sp_intersects({}, {})", r(a[0])?, r(a[1])?),
                ("Rangetools::is_empty", 1) => format!("crate::shim::sp_empty({})", r(a[0])?),
                ("LowerBound::included", 1) => format!("crate::bound::LowerBound(crate::bound::Bound::Included({}))", r(a[0])?),
                ("LowerBound::excluded", 1) => format!("crate::bound::LowerBound(crate::bound::Bound::Excluded({}))", r(a[0])?),
                ("UpperBound::included", 1) => format!("crate::bound::UpperBound(crate::bound::Bound::Included({}))", r(a[0])?),
                ("UpperBound::excluded", 1) => format!("crate::bound::UpperBound(crate::bound::Bound::Excluded({}))", r(a[0])?),
                _ => return None,
            }
        }
        _ => return None,
    })
}

impl<'a> VisitMut for Tx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = self.mut_locals.len();
        for s in b.stmts.iter_mut() {
            let mut iterish: HashSet<String> = HashSet::new();
            if let Stmt::Local(l) = s {
                if let Some(i) = &mut l.init {
                    if let Expr::MethodCall(m) = &*i.expr {
                        let nm = m.method.to_string();
                        if (nm == "iter" || nm == "into_iter") && m.args.is_empty() {
                            let mut x = (*i.expr).clone();
                            self.visit_expr_mut(&mut x);
                            iterish.insert(x.to_token_stream().to_string());
                        }
                    }
                }
            }
            self.visit_stmt_mut(s);
            if let Stmt::Local(l) = s {
                let mut pat = &l.pat;
                if let Pat::Type(t) = pat {
                    pat = &t.pat;
                }
                if let Pat::Ident(i) = pat {
                    let src = l.init.as_ref().map(|i| (*i.expr).clone());
                    let holds_iter = src.as_ref().map(|e| iterish.contains(&e.to_token_stream().to_string())).unwrap_or(false);
                    if holds_iter && i.mutability.is_some() {
                        self.iter_locals.insert(i.ident.to_string());
                    }
                    if i.mutability.is_some() && !i.ident.to_string().starts_with("__") {
                        self.mut_locals.push(i.ident.to_string());
                        let num = match &src {
                            Some(Expr::Lit(l)) => matches!(l.lit, Lit::Int(_)),
                            Some(Expr::MethodCall(m)) => m.method == "len" && m.args.is_empty(),
                            _ => false,
                        };
                        if num {
                            self.counters.insert(i.ident.to_string());
                        }
                    }
                }
            }
        }
        self.mut_locals.truncate(n);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // statement macros
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let semi = m.semi_token;
            *s = Stmt::Expr(e, semi);
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // ---- std's own indexing, inside the crate's indexing functions
        if let Some(partial) = self.idx {
            let suffix = if partial { "_p" } else { "" };
            let (m_, mut_) = match e {
                Expr::Reference(r) => (matches!(&*r.expr, Expr::Index(_)), r.mutability.is_some()),
                _ => (false, false),
            };
            if m_ {
                if let Expr::Reference(r) = e {
                    if let Expr::Index(x) = &*r.expr {
                        let (b, i) = (&x.expr, &x.index);
                        let f = format_ident!("std_index{}{}", if mut_ { "_mut" } else { "" }, suffix);
                        *e = parse_quote!(#b.#f(#i));
                        return self.visit_expr_mut(e);
                    }
                }
            }
            if let Expr::Index(x) = e {
                let (b, i) = (&x.expr, &x.index);
                let f = format_ident!("std_index{}", suffix);
                *e = parse_quote!(*#b.#f(#i));
                return self.visit_expr_mut(e);
            }
            // self.index(std range) is the same as self[std range]
            if let Expr::MethodCall(m) = e {
                let n = m.method.to_string();
                if (n == "index" || n == "index_mut") && m.args.len() == 1 {
                    m.method = format_ident!("std_{}{}", n, suffix);
                }
            }
        }
        // ---- match guards, where the arm that takes over is plain to see
        if let Expr::Match(m) = e {
            unguard(m);
        }
        // ---- & patterns
        match e {
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    if a.guard.is_none() {
                        let l = self.unref(&mut a.pat);
                        if !l.is_empty() {
                            let b = &a.body;
                            *a.body = parse_quote!({ #(#l)* #b });
                        }
                    }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    for s in self.unref(&mut l.pat).into_iter().rev() {
                        i.then_branch.stmts.insert(0, s);
                    }
                }
            }
            Expr::While(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    for s in self.unref(&mut l.pat).into_iter().rev() {
                        i.body.stmts.insert(0, s);
                    }
                }
            }
            _ => {}
        }
        // ---- v[i] = x
        if self.idx.is_none() {
            if let Expr::Assign(a) = e {
                if let Expr::Index(x) = &*a.left {
                    let (b, i, r) = (&x.expr, &x.index, &a.right);
                    *e = parse_quote!(*(#b).at_mut(#i) = #r);
                }
            }
        }
        // ---- rules that must see their children untransformed
        match e {
            Expr::Closure(_) => {
                // a closure not consumed by one of the rules below
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name.starts_with("__v") {
                    return;
                }
                let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                match name.as_str() {
                    "assert" | "debug_assert" => {
                        if let Ok(args) = parse::Parser::parse2(parser, m.mac.tokens.clone()) {
                            let c = &args[0];
                            let f_ = if self.idx == Some(true) { ident("rt_assert_p") } else { ident("rt_assert") };
                            *e = parse_quote!(crate::shim::#f_(#c));
                            return self.visit_expr_mut(e);
                        }
                    }
                    "assert_eq" | "debug_assert_eq" => {
                        if let Ok(args) = parse::Parser::parse2(parser, m.mac.tokens.clone()) {
                            let (a, b) = (&args[0], &args[1]);
                            let f_ = if self.idx == Some(true) { ident("rt_assert_p") } else { ident("rt_assert") };
                            *e = parse_quote!(crate::shim::#f_(#a == #b));
                            return self.visit_expr_mut(e);
                        }
                    }
                    "assert_ne" | "debug_assert_ne" => {
                        if let Ok(args) = parse::Parser::parse2(parser, m.mac.tokens.clone()) {
                            let (a, b) = (&args[0], &args[1]);
                            let f_ = if self.idx == Some(true) { ident("rt_assert_p") } else { ident("rt_assert") };
                            *e = parse_quote!(crate::shim::#f_(#a != #b));
                            return self.visit_expr_mut(e);
                        }
                    }
                    "panic" | "unreachable" | "unimplemented" | "todo" => {
                        *e = if self.idx == Some(true) {
                            parse_quote!(crate::shim::rt_panic_p())
                        } else {
                            parse_quote!(crate::shim::rt_unreachable())
                        };
                        return;
                    }
                    "matches" => {
                        if let Some(x) = matches_expr(&m.mac) {
                            *e = x;
                            return self.visit_expr_mut(e);
                        }
                    }
                    _ => {}
                }
                self.problems.push(format!("unsupported macro {name}!"));
                return;
            }
            Expr::ForLoop(f) => {
                let k = self.loops.len();
                let it = format_ident!("__it{}", k);
                let src = (*f.expr).clone();
                let fl = flow_block(&f.body);
                // for i in a..b
                let mut rng = src.clone();
                while let Expr::Paren(p) = rng {
                    rng = *p.expr;
                }
                // the rest of an iterator already started
                if matches!(&rng, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.iter_locals.contains(&i.to_string()))) {
                    let (p, b) = (&f.pat, &f.body);
                    *e = parse_quote!(while let Some(#p) = #rng.next() #b);
                    return self.visit_expr_mut(e);
                }
                // for (i, x) in c.iter().enumerate(): over the indices of c
                if let (Expr::MethodCall(en), Pat::Tuple(t)) = (&rng, &*f.pat) {
                    if let Expr::MethodCall(m) = &*en.receiver {
                        if en.method == "enumerate" && m.method == "iter" && m.args.is_empty() && t.elems.len() == 2 && field_path(&m.receiver) {
                            let (i, x, c, b) = (&t.elems[0], &t.elems[1], &m.receiver, &f.body.stmts);
                            let k = self.fresh("k");
                            *e = parse_quote!(for #k in 0..#c.len() { let #i = #k; let #x = &#c[#k]; #(#b)* });
                            return self.visit_expr_mut(e);
                        }
                    }
                }
                if let Expr::Range(r) = &rng {
                    if let (Some(lo), Some(hi), RangeLimits::HalfOpen(_), false) = (&r.start, &r.end, &r.limits, has_continue(&f.body)) {
                        let (mut lo, mut hi) = ((**lo).clone(), (**hi).clone());
                        self.visit_expr_mut(&mut lo);
                        self.visit_expr_mut(&mut hi);
                        let acc = self.acc_for(&f.body);
                        let n = format_ident!("{}_n", it);
                        let auto = format!("{it} <= {n} || {it} == {it}_0");
                        let gt = self.vtext(format!("let ghost {it}_0 = {it};"));
                        let kind = if fl.brk { "for_range_break" } else { "for_range" };
                        let (spec, en, ex, be, af) = self.loop_texts(kind, Some(&it), acc, &auto);
                        let (pat, mut body) = ((*f.pat).clone(), f.body.clone());
                        self.visit_block_mut(&mut body);
                        let stmts = body.stmts;
                        *e = parse_quote!({
                            let mut #it = #lo;
                            let #n = #hi;
                            #gt
                            #be
                            while #it < #n {
                                #spec
                                #en
                                {
                                let #pat = #it;
                                #(#stmts)*
                                }
                                #it = #it + 1;
                                #ex
                            }
                            #af
                        });
                        return;
                    }
                }
                let (base, stages) = split_stages(&src);
                if let Some(st) = stages.filter(|s| !s.is_empty()) {
                    let x0 = self.fresh("x");
                    let (pat, body) = ((*f.pat).clone(), f.body.clone());
                    let inner = body.stmts;
                    let stmts = self.wrap_stages(&st, &x0, &|x| {
                        let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #x;)];
                        v.extend(inner.iter().cloned());
                        v
                    });
                    *e = parse_quote!(for #x0 in #base { #(#stmts)* });
                    return self.visit_expr_mut(e);
                }
                let Some((mut src, m)) = self.iter_source(src) else {
                    self.problems.push("unsupported loop source".into());
                    return;
                };
                let rev = matches!(&src, Expr::MethodCall(m) if m.method == "rev_");
                self.visit_expr_mut(&mut src);
                let acc = self.acc_for(&f.body);
                let kind = match (m, fl.brk) {
                    (false, false) if rev => "for_rev",
                    (false, true) if rev => "for_rev_break",
                    (true, false) => "for_mut",
                    (true, true) => "for_mut_break",
                    (false, false) => "for",
                    (false, true) => "for_break",
                };
                let (pat, body) = ((*f.pat).clone(), f.body.clone());
                *e = self.while_iter(kind, &it, src, m, pat, body, acc, None, vec![]);
                return;
            }
            Expr::While(w) => {
                let (wc, wb) = (&w.cond, &w.body);
                let dq = popped(&parse_quote!({ (#wc); #wb }));
                self.dq = dq.clone().unwrap_or_default();
                let counted = self.acc_counted(&parse_quote!({ (#wc); #wb }));
                let acc = self
                    .acc_for(&w.body)
                    .filter(|_| counted.is_none())
                    .or(counted)
                    .or_else(|| self.acc_for(&parse_quote!({ (#wc); #wb })))
                    .or_else(|| self.acc_beside(&w.body, dq.as_ref()));
                // while let Some(p) = it.next(), with it an iterator over a container: a for loop
                if let Expr::Let(l) = &*w.cond {
                    if let (Pat::TupleStruct(ts), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                        let it = m.receiver.to_token_stream().to_string();
                        if m.method == "next" && ts.path.is_ident("Some") && ts.elems.len() == 1 && self.iter_locals.contains(&it) {
                            let it = ident(&it);
                            let pat = ts.elems[0].clone();
                            let kind = if flow_block(&w.body).brk { "for_break" } else { "for" };
                            let gt = self.vtext(format!("let ghost {it}_s = {it}.s();"));
                            let auto = format!("{it}.inv(), {it}.s() == {it}_s");
                            let (spec, en, ex, be, af) = self.loop_texts(kind, Some(&it), acc, &auto);
                            let mut body = w.body.clone();
                            self.visit_block_mut(&mut body);
                            let stmts = body.stmts;
                            *e = parse_quote!({
                                #gt
                                #be
                                while #it.has_next() {
                                    #spec
                                    let #pat = #it.take_next();
                                    #en
                                    #(#stmts)*
                                    #ex
                                }
                                #af
                            });
                            return;
                        }
                    }
                }
                if let Expr::Let(l) = &*w.cond {
                    let (pat, ex, body) = ((*l.pat).clone(), (*l.expr).clone(), w.body.clone());
                    let (spec, en, ex_, be, af) = self.loop_texts("while_let", None, acc, "");
                    let mut ex2 = ex;
                    self.visit_expr_mut(&mut ex2);
                    let mut body = body;
                    self.visit_block_mut(&mut body);
                    let stmts = body.stmts;
                    *e = parse_quote!({
                        #be
                        loop {
                            #spec
                            #en
                            match #ex2 {
                                #pat => { #(#stmts)* }
                                _ => { break; }
                            }
                            #ex_
                        }
                        #af
                    });
                    return;
                }
                let (spec, en, ex_, be, af) = self.loop_texts("while", None, acc, "");
                let mut cond = (*w.cond).clone();
                self.visit_expr_mut(&mut cond);
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                let stmts = body.stmts;
                *e = parse_quote!({
                    #be
                    while #cond {
                        #spec
                        #en
                        #(#stmts)*
                        #ex_
                    }
                    #af
                });
                return;
            }
            Expr::Loop(w) => {
                let dq = popped(&w.body);
                self.dq = dq.clone().unwrap_or_default();
                let counted = self.acc_counted(&w.body);
                let acc = self.acc_for(&w.body).or(counted).or_else(|| self.acc_beside(&w.body, dq.as_ref()));
                let (spec, en, ex_, be, af) = self.loop_texts("loop", None, acc, "");
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                let stmts = body.stmts;
                *e = parse_quote!({
                    #be
                    loop {
                        #spec
                        #en
                        #(#stmts)*
                        #ex_
                    }
                    #af
                });
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                // a helper of a type that is known here, whatever else goes by that name
                if let Some(c) = self.type_of(&m.receiver).and_then(|t| self.candidates(&name, Some(&t))) {
                    let recv = (*m.receiver).clone();
                    if let Some(n) = self.try_inline(&c, Some(recv), args.clone()) {
                        *e = n;
                        return;
                    }
                }
                // iterator consumers with closures
                if name == "fold" && args.len() == 2 && method_chain_root_iter(&m.receiver) {
                    let c = closure_of(&args[1]).or_else(|| match &args[1] {
                        Expr::Path(f) => Some(parse_quote!(|__acc, __x| #f(__acc, __x))),
                        _ => None,
                    });
                    if let Some(c) = c {
                        let k = self.loops.len();
                        let it = format_ident!("__it{}", k);
                        let (_, stages) = split_stages(&m.receiver);
                        let rev = matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "rev");
                        let src = self.iter_source((*m.receiver).clone()).filter(|_| !rev && stages.map_or(true, |s| s.is_empty()));
                        let acc = c.inputs.get(0).and_then(simple_pat_ident);
                        let fl = flow_expr(&c.body);
                        if let (Some((mut src, false)), Some(acc), 2, false, false) =
                            (src, acc, c.inputs.len(), fl.ret, fl.question)
                        {
                            self.visit_expr_mut(&mut src);
                            let mut init = args[0].clone();
                            self.visit_expr_mut(&mut init);
                            let body = &c.body;
                            let blk: Block = parse_quote!({ #acc = #body; });
                            let pat = strip_pat_type(&c.inputs[1]);
                            let pre: Vec<Stmt> = vec![parse_quote!(let mut #acc = #init;)];
                            *e = self.while_iter("fold", &it, src, false, pat, blk,
                                Some(acc.to_string()), Some(parse_quote!(#acc)), pre);
                            return;
                        }
                        // over other iterators: as the loop it stands for
                        if let (Some(acc), 2, false, false) = (c.inputs.get(0).and_then(simple_pat_ident), c.inputs.len(), fl.ret, fl.question) {
                            let (recv, init, body, pat) = (&m.receiver, &args[0], &c.body, strip_pat_type(&c.inputs[1]));
                            *e = parse_quote!({ let mut #acc = #init; for #pat in #recv { #acc = #body; } #acc });
                            return self.visit_expr_mut(e);
                        }
                    }
                    self.problems.push("unsupported fold".into());
                }
                if name == "for_each" && args.len() == 1 && method_chain_root_iter(&m.receiver) {
                    let cl = callable(&args[0]).filter(|c| {
                        let f = flow_expr(&c.body);
                        c.inputs.len() == 1 && !f.ret && !f.question
                    });
                    if let Some(c) = cl {
                        let (src, body, pat) = (&m.receiver, &c.body, strip_pat_type(&c.inputs[0]));
                        *e = parse_quote!(for #pat in #src { #body; });
                        return self.visit_expr_mut(e);
                    }
                    self.problems.push("unsupported for_each".into());
                }
                if name == "try_fold" && args.len() == 2 && method_chain_root_iter(&m.receiver) {
                    if let Some(c) = closure_of(&args[1]) {
                        let k = self.loops.len();
                        let it = format_ident!("__it{}", k);
                        let src = self.iter_source((*m.receiver).clone());
                        let body = lift_question(&c.body);
                        if let (Some((mut src, false)), 2, Some(body)) = (src, c.inputs.len(), body) {
                            self.visit_expr_mut(&mut src);
                            let mut init = args[0].clone();
                            self.visit_expr_mut(&mut init);
                            let r = ident("__r");
                            let (p0, p1) = (c.inputs[0].clone(), strip_pat_type(&c.inputs[1]));
                            let auto = format!("{it}.inv(), {it}.s() == {it}_s");
                            let gt = self.vtext(format!("let ghost {it}_s = {it}.s();"));
                            let (spec, en, ex_, be, af) =
                                self.loop_texts("try_fold", Some(&it), Some("__r".into()), &auto);
                            let mut body = body;
                            self.visit_expr_mut(&mut body);
                            *e = parse_quote!({
                                let mut #it = #src;
                                #gt
                                let mut #r = Some(#init);
                                #be
                                while #r.is_some() && #it.has_next() {
                                    #spec
                                    let #p0 = #r.unwrap();
                                    let #p1 = #it.take_next();
                                    #en
                                    #r = #body;
                                    #ex_
                                }
                                #af
                                #r
                            });
                            return;
                        }
                    }
                    self.problems.push("unsupported try_fold".into());
                }
                if ["sum", "collect", "count"].contains(&name.as_str()) && args.is_empty() && method_chain_root_iter(&m.receiver) {
                    let (base, stages) = split_stages(&m.receiver);
                    let src = self.iter_source(base);
                    if let (Some((mut src, false)), Some(stages)) = (src, stages) {
                        let it = format_ident!("__it{}", self.loops.len());
                        self.visit_expr_mut(&mut src);
                        let out = ident("__out");
                        let x0 = self.fresh("x");
                        let (init, kind): (Expr, _) = match name.as_str() {
                            "sum" => (parse_quote!(0), "map_sum"),
                            "count" => (parse_quote!(0usize), "count"),
                            _ => (parse_quote!(crate::shim::VecDeque::new()), "map_collect"),
                        };
                        let stmts = self.wrap_stages(&stages, &x0, &|x| match name.as_str() {
                            "sum" => vec![parse_quote!(#out = #out + #x;)],
                            "count" => vec![parse_quote!(#out = #out + 1;)],
                            _ => vec![parse_quote!(#out.push_back(#x);)],
                        });
                        let blk: Block = parse_quote!({ #(#stmts)* });
                        let pre: Vec<Stmt> = vec![parse_quote!(let mut #out = #init;)];
                        *e = self.while_iter(kind, &it, src, false, parse_quote!(#x0), blk,
                            Some("__out".into()), Some(parse_quote!(#out)), pre);
                        return;
                    }
                    self.problems.push(format!("unsupported {name}"));
                }
                // the order of evaluation of a pure predicate does not matter
                if (name == "any" || name == "all") && args.len() == 1 {
                    if let Expr::MethodCall(rv) = &*m.receiver {
                        if rv.method == "rev" && rv.args.is_empty() && method_chain_root_iter(&rv.receiver) {
                            let (r, nm, a) = (&rv.receiver, &m.method, &args[0]);
                            *e = parse_quote!(#r.#nm(#a));
                            return self.visit_expr_mut(e);
                        }
                    }
                }
                // v.iter().take_while(p).count(): where p first fails
                if name == "count" && args.is_empty() {
                    if let Expr::MethodCall(tw) = &*m.receiver {
                        if let (true, Expr::MethodCall(it)) = (tw.method == "take_while" && tw.args.len() == 1, &*tw.receiver) {
                            if let (true, Some(c)) = (it.method == "iter", closure_of(&tw.args[0])) {
                                let (v, p, b) = (&it.receiver, &c.inputs, &c.body);
                                *e = parse_quote!(match #v.iter().position(|#p| !(#b)) { Some(__x) => __x, None => #v.len() });
                                return self.visit_expr_mut(e);
                            }
                        }
                    }
                }
                // iter().rev().find(p): the last one
                if name == "find" && args.len() == 1 {
                    let under = match &*m.receiver {
                        Expr::MethodCall(rv) if rv.method == "rev" && matches!(&*rv.receiver, Expr::MethodCall(it) if it.method == "iter") => Some((*rv.receiver).clone()),
                        _ => None,
                    };
                    if let Some(u) = under {
                        let a = &args[0];
                        *e = parse_quote!(#u.rfind(#a));
                        return self.visit_expr_mut(e);
                    }
                }
                if ["position", "any", "all", "retain", "find", "rposition", "rfind", "partition_point"].contains(&name.as_str()) && args.len() == 1 {
                    let cl = self.pred_closure(&args[0]);
                    if let Some(cl) = cl {
                        if let Expr::MethodCall(m) = e {
                            self.visit_expr_mut(&mut m.receiver);
                            m.args[0] = cl;
                            m.method = format_ident!("{}_", name);
                            return;
                        }
                    }
                    self.problems.push(format!("unsupported predicate in {name}"));
                    return;
                }
                // Option combinators
                let opt = is_opt(&m.receiver);
                let recv = &m.receiver;
                let cl0 = args.get(0).and_then(closure_of);
                let clean = |c: &ExprClosure| {
                    let f = flow_expr(&c.body);
                    !f.ret && !f.question
                };
                let new: Option<Expr> = match (name.as_str(), args.len(), &cl0) {
                    ("then_some", 1, _) => {
                        let (x, y, a) = (self.fresh("x"), self.fresh("y"), &args[0]);
                        Some(parse_quote!({ let #x = #recv; let #y = #a; if #x { Some(#y) } else { None } }))
                    }
                    ("then", 1, Some(c)) if c.inputs.is_empty() && clean(c) => {
                        let b = &c.body;
                        Some(parse_quote!(if #recv { Some(#b) } else { None }))
                    }
                    ("filter", 1, Some(c)) if opt && c.inputs.len() == 1 && clean(c) => {
                        let (y, b) = (self.fresh("y"), &c.body);
                        let mut p = strip_pat_type(&c.inputs[0]);
                        let l = self.unref(&mut p);
                        Some(parse_quote!(match #recv { Some(#y) => { if { let #p = &#y; #(#l)* #b } { Some(#y) } else { None } }, None => None }))
                    }
                    ("ok_or", 1, _) if false => None,
                    ("map", 1, Some(c)) if opt && c.inputs.len() == 1 && clean(c) => {
                        let (p, b) = (strip_pat_type(&c.inputs[0]), &c.body);
                        Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None }))
                    }
                    ("map", 1, None) if opt && matches!(args[0], Expr::Path(_)) => {
                        let f = &args[0];
                        Some(parse_quote!(match #recv { Some(__x) => Some(#f(__x)), None => None }))
                    }
                    ("and_then", 1, Some(c)) if c.inputs.len() == 1 && clean(c) => {
                        let (p, b) = (strip_pat_type(&c.inputs[0]), &c.body);
                        Some(parse_quote!(match #recv { Some(#p) => #b, None => None }))
                    }
                    ("and_then", 1, None) if opt && matches!(args[0], Expr::Path(_)) => {
                        let f = &args[0];
                        Some(parse_quote!(match #recv { Some(__x) => #f(__x), None => None }))
                    }
                    ("is_some_and", 1, Some(c)) if c.inputs.len() == 1 && clean(c) => {
                        let (p, b) = (strip_pat_type(&c.inputs[0]), &c.body);
                        Some(parse_quote!(match #recv { Some(#p) => #b, None => false }))
                    }
                    ("is_none_or", 1, Some(c)) if c.inputs.len() == 1 && clean(c) => {
                        let (p, b) = (strip_pat_type(&c.inputs[0]), &c.body);
                        Some(parse_quote!(match #recv { Some(#p) => #b, None => true }))
                    }
                    ("map_or", 2, _) => args.get(1).and_then(closure_of).filter(|c| c.inputs.len() == 1 && clean(c)).map(|c| {
                        let (p, b, d) = (strip_pat_type(&c.inputs[0]), &c.body, &args[0]);
                        let x: Expr = parse_quote!(match #recv { Some(#p) => #b, None => #d });
                        x
                    }),
                    ("unwrap_or_else", 1, Some(c)) if c.inputs.is_empty() && clean(c) => {
                        let b = &c.body;
                        Some(parse_quote!(match #recv { Some(__x) => __x, None => #b }))
                    }
                    ("or_else", 1, Some(c)) if c.inputs.is_empty() && clean(c) => {
                        let b = &c.body;
                        Some(parse_quote!(match #recv { Some(__x) => Some(__x), None => #b }))
                    }
                    ("copied", 0, _) if opt => {
                        Some(parse_quote!(match #recv { Some(__x) => Some(*__x), None => None }))
                    }
                    ("cloned", 0, _) if opt => {
                        Some(parse_quote!(match #recv { Some(__x) => Some(__x.clone()), None => None }))
                    }
                    ("flatten", 0, _) if opt => {
                        Some(parse_quote!(match #recv { Some(__x) => __x, None => None }))
                    }
                    ("is_lt" | "is_gt" | "is_eq" | "is_le" | "is_ge" | "is_ne", 0, _) => {
                        let (o, neg) = match name.as_str() {
                            "is_lt" => ("Less", false),
                            "is_gt" => ("Greater", false),
                            "is_eq" => ("Equal", false),
                            "is_le" => ("Greater", true),
                            "is_ge" => ("Less", true),
                            _ => ("Equal", true),
                        };
                        let (o, y, n) = (ident(o), !neg, neg);
                        Some(parse_quote!(match #recv { core::cmp::Ordering::#o => #y, _ => #n }))
                    }
                    ("reverse", 0, _) => Some(parse_quote!(match #recv {
                        core::cmp::Ordering::Less => core::cmp::Ordering::Greater,
                        core::cmp::Ordering::Equal => core::cmp::Ordering::Equal,
                        core::cmp::Ordering::Greater => core::cmp::Ordering::Less,
                    })),
                    ("then_with", 1, Some(c)) if c.inputs.is_empty() && clean(c) => {
                        let b = &c.body;
                        Some(parse_quote!(match #recv { core::cmp::Ordering::Equal => #b, __o => __o }))
                    }
                    // (Ordering::then: its argument has no closure)
                    ("then", 1, None) if !matches!(args[0], Expr::Path(_)) || ordering_const(&args[0]) => {
                        let b = &args[0];
                        Some(parse_quote!(match (#recv, #b) { (core::cmp::Ordering::Equal, __b) => __b, (__o, _) => __o }))
                    }
                    _ => None,
                };
                if let Some(n) = new {
                    *e = n;
                    // children (including what was the closure body) still need visiting
                    if !matches!(e, Expr::Match(_)) {
                        visit_mut::visit_expr_mut(self, e);
                    }
                    if let Expr::Match(mm) = e {
                        self.visit_expr_mut(&mut mm.expr);
                        for a in mm.arms.iter_mut() {
                            self.visit_expr_mut(&mut a.body);
                        }
                    }
                    return;
                }
                // contract-less helpers are inlined
                if !self.g.contracted.contains(&name) {
                    let ty = self.type_of(&m.receiver);
                    let ambiguous = ty.is_none() && crate::names::STD.contains(&name.as_str());
                    if let Some(c) = self.candidates(&name, ty.as_deref()).filter(|_| !ambiguous) {
                        let recv = (*m.receiver).clone();
                        if let Some(n) = self.try_inline(&c, Some(recv), args) {
                            *e = n;
                            return;
                        }
                        self.problems.push(format!("helper {name} has no contract and cannot be inlined"));
                    }
                }
            }
            Expr::Path(p) if p.qself.is_none() && p.path.to_token_stream().to_string().ends_with("char :: MAX") => {
                *e = parse_quote!(crate::shim::CHAR_MAX);
                return;
            }
            Expr::Path(p) if p.qself.is_none() && p.path.to_token_stream().to_string().ends_with("char :: MIN") => {
                *e = parse_quote!('\0');
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    if name == "try_from" && segs.len() == 2 && c.args.len() == 1 && (INTS.contains(&segs[0].as_str()) || segs[0] == "Self") {
                        let t = ident(&segs[0]);
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = parse_quote!(<#t as crate::shim::TryInt<_>>::try_int(#a));
                        return;
                    }
                    // uN::from(x): lossless, the same as a cast
                    if name == "from" && segs.len() == 2 && c.args.len() == 1 && INTS.contains(&segs[0].as_str()) {
                        let (t, a) = (ident(&segs[0]), c.args[0].clone());
                        *e = parse_quote!(((#a) as #t));
                        return self.visit_expr_mut(e);
                    }
                    if (name == "max" || name == "min")
                        && c.args.len() == 2
                        && (segs.len() == 1 || segs[segs.len() - 2] == "cmp")
                        && !self.g.inline.contains_key(&name)
                    {
                        let (f, args) = (ident(&name), c.args.clone());
                        *e = parse_quote!(std::cmp::Ord::#f(#args));
                        return self.visit_expr_mut(e);
                    }
                    if name == "from_u32" && segs[0] != "crate" && c.args.len() == 1 {
                        let a = c.args[0].clone();
                        *e = parse_quote!(crate::shim::char_from_u32(#a));
                        return self.visit_expr_mut(e);
                    }
                    let ty = if segs.len() >= 2 {
                        let t = segs[segs.len() - 2].clone();
                        if t == "Self" { self.self_ty.clone() } else { Some(t) }
                    } else {
                        None
                    };
                    let cand = match &ty {
                        Some(t) => self.candidates(&name, Some(t)).or_else(|| {
                            self.g.inline.get(&name).and_then(|v| {
                                let v: Vec<_> = v.iter().filter(|c| c.self_ty.is_none()).collect();
                                if v.len() == 1 { Some(v[0].clone()) } else { None }
                            })
                        }),
                        None => self.g.inline.get(&name).and_then(|v| {
                            let v: Vec<_> = v.iter().filter(|c| c.self_ty.is_none()).collect();
                            if v.len() == 1 { Some(v[0].clone()) } else { None }
                        }),
                    };
                    let key = ty.as_ref().map(|t| format!("{t}::{name}"));
                    let has = key.map(|k| self.g.db.fns.contains_key(&k)).unwrap_or(false);
                    if let (Some(c2), false) = (cand, has) {
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        let recv = match c2.sig.inputs.first() {
                            Some(FnArg::Receiver(r)) if !args.is_empty() => {
                                let a = args.remove(0);
                                // explicit receiver: already a reference when the method takes one
                                match (&a, r.reference.is_some()) {
                                    (Expr::Reference(x), true) => Some((*x.expr).clone()),
                                    _ => Some(a),
                                }
                            }
                            _ => None,
                        };
                        if let Some(n) = self.try_inline(&c2, recv, args) {
                            *e = n;
                            return;
                        }
                        self.problems.push(format!("helper {name} has no contract and cannot be inlined"));
                    }
                }
            }
            _ => {}
        }

        visit_mut::visit_expr_mut(self, e);

        // comparison with an `Ordering` (or an `Option` of one), or with `None`
        if let Expr::Binary(b) = e {
            if let Some(eq) = match b.op { BinOp::Eq(_) => Some(true), BinOp::Ne(_) => Some(false), _ => None } {
                let k = if ordering_const(&b.right) { Some((&b.left, &b.right)) } else if ordering_const(&b.left) { Some((&b.right, &b.left)) } else { None };
                if let Some((x, c)) = k {
                    let ne = !eq;
                    *e = parse_quote!(match #x { #c => #eq, _ => #ne });
                    return;
                }
            }
        }

        // ---- bottom-up renamings
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "clone" if m.args.is_empty() => m.method = ident("dup"),
                    "abs_diff" if m.args.len() == 1 => m.method = ident("abs_diff_"),
                    "overflowing_add" if m.args.len() == 1 => m.method = ident("overflowing_add_"),
                    "overflowing_sub" if m.args.len() == 1 => m.method = ident("overflowing_sub_"),
                    "to_owned" if m.args.is_empty() => m.method = ident("dup"),
                    "into" if m.args.is_empty() && self.idx == Some(true) => m.method = ident("into_p"),
                    "into" if m.args.is_empty() => m.method = ident("into_"),
                    "expect" | "unwrap" if self.idx == Some(true) => {
                        m.method = ident("expect_p");
                        m.args.clear();
                    }
                    _ => {
                        for (meth, tr) in RT_METHODS {
                            if name == *meth && !self.imports.contains(*tr) {
                                m.method = format_ident!("rt_{}", name);
                            }
                        }
                    }
                }
            }
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.len();
                if n >= 2 {
                    let (t, m) = (segs[n - 2].as_str(), segs[n - 1].as_str());
                    if t == "Rangetools" && ["intersection", "union", "complement", "disjoint", "intersects"].contains(&m) {
                        let m2 = if ["intersection", "union", "complement"].contains(&m) {
                            format_ident!("rt_{}", m)
                        } else {
                            ident(m)
                        };
                        *e = parse_quote!(crate::RangetoolsExt::#m2);
                    } else if m == "from" {
                        let l = p.path.segments.last_mut().unwrap();
                        let p_ = self.idx == Some(true);
                        l.ident = ident(if p_ { "from_p" } else { "from_" });
                        if t == "From" {
                            p.path.segments[n - 2].ident = ident(if p_ { "FromP_" } else { "From_" });
                        }
                    } else if m == "into" && t == "Into" {
                        *e = if self.idx == Some(true) { parse_quote!(crate::shim::IntoP_::into_p) } else { parse_quote!(crate::shim::Into_::into_) };
                    } else if m == "clone" && t == "Clone" {
                        *e = parse_quote!(crate::shim::Dup::dup);
                    } else if m == "default" {
                        let l = p.path.segments.last_mut().unwrap();
                        l.ident = ident("default_");
                        if t == "Default" {
                            p.path.segments[n - 2].ident = ident("Default_");
                        }
                    }
                }
            }
            Expr::Range(r) => {
                let new: Expr = match (&r.start, &r.end, &r.limits) {
                    (Some(a), Some(b), RangeLimits::HalfOpen(_)) => parse_quote!(crate::shim::Range { start: #a, end: #b }),
                    (Some(a), Some(b), RangeLimits::Closed(_)) => parse_quote!(crate::shim::RangeInclusive::new(#a, #b)),
                    (Some(a), None, _) => parse_quote!(crate::shim::RangeFrom { start: #a }),
                    (None, Some(b), RangeLimits::HalfOpen(_)) => parse_quote!(crate::shim::RangeTo { end: #b }),
                    (None, Some(b), RangeLimits::Closed(_)) => parse_quote!(crate::shim::RangeToInclusive { end: #b }),
                    (None, None, _) => parse_quote!(crate::shim::RangeFull),
                };
                *e = new;
            }
            _ => {}
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        map_std_path(p);
    }
}

/// `P if g => A, .., P => B` as `P => if g { A } else { B }` (also with `_` for the second P)
fn unguard(m: &mut ExprMatch) {
    fn head(p: &Pat) -> Option<String> {
        match p {
            Pat::TupleStruct(t) => t.path.segments.last().map(|s| s.ident.to_string()),
            Pat::Ident(i) if i.ident == "None" => Some("None".into()),
            Pat::Path(t) => t.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        }
    }
    let mut i = m.arms.len();
    while i > 0 {
        i -= 1;
        let Some((_, g)) = m.arms[i].guard.clone() else { continue };
        if matches!(&*g, Expr::Let(_)) {
            continue;
        }
        let p = m.arms[i].pat.clone();
        let ps = p.to_token_stream().to_string();
        let mut other = None;
        for a in &m.arms[i + 1..] {
            if a.guard.is_none() && (a.pat.to_token_stream().to_string() == ps || matches!(a.pat, Pat::Wild(_))) {
                other = Some(a.body.clone());
                break;
            }
            match (head(&p), head(&a.pat)) {
                (Some(x), Some(y)) if x != y => {}
                _ => break,
            }
        }
        if let Some(b) = other {
            let a = &m.arms[i].body;
            let body: Expr = parse_quote!({ if #g { #a } else { #b } });
            *m.arms[i].body = body;
            m.arms[i].guard = None;
            m.arms[i].comma = Some(Default::default());
            let k = m.arms[i + 1..].iter().position(|a| a.guard.is_none() && a.pat.to_token_stream().to_string() == ps);
            if let Some(k) = k {
                m.arms.remove(i + 1 + k);
            }
        }
    }
}

/// A closure body with one `?`, as an Option-valued expression.
fn lift_question(e: &Expr) -> Option<Expr> {
    struct L {
        found: Vec<Expr>,
    }
    impl VisitMut for L {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Try(t) = e {
                self.found.push((*t.expr).clone());
                *e = parse_quote!(__q);
            }
        }
    }
    let mut b = e.clone();
    let mut l = L { found: vec![] };
    l.visit_expr_mut(&mut b);
    match l.found.len() {
        0 => Some(b),
        1 => {
            let x = &l.found[0];
            Some(parse_quote!(match #x { Some(__q) => #b, None => None }))
        }
        _ => None,
    }
}

/// std items that the shim stands in for.
pub fn map_std_path(p: &mut Path) {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if segs.len() < 2 || (segs[0] != "std" && segs[0] != "core" && segs[0] != "alloc") {
        return;
    }
    let last = segs.last().unwrap().as_str();
    let keep = |n: usize| -> bool { segs.len() == n };
    let m: Option<(&str, usize)> = match last {
        "VecDeque" | "Range" | "RangeInclusive" | "RangeFrom" | "RangeTo" | "RangeToInclusive" | "RangeFull" => Some((last, 1)),
        "CStr" | "CString" | "OsStr" | "OsString" if segs[1] == "ffi" => {
            let n = ident(last);
            *p = parse_quote!(crate::idx::#n);
            return;
        }
        "Empty" if segs[1] == "iter" => Some(("EmptyIter", 1)),
        "empty" if segs[1] == "iter" => Some(("empty_iter", 1)),
        "replace" if segs[1] == "mem" => Some(("mem_replace", 1)),
        "swap" if segs[1] == "mem" => Some(("mem_swap", 1)),
        "take" if segs[1] == "mem" => Some(("mem_take", 1)),
        _ => None,
    };
    let _ = keep;
    if let Some((to, _)) = m {
        let args = p.segments.last().unwrap().arguments.clone();
        let mut q: Path = parse_quote!(crate::shim::X);
        let l = q.segments.last_mut().unwrap();
        l.ident = ident(to);
        l.arguments = args;
        *p = q;
        return;
    }
    // std::ops::Range::from and the like
    if segs.len() >= 4 && segs[1] == "ops" && segs[2].starts_with("Range") {
        let mut q: Path = parse_quote!(crate::shim);
        for s in p.segments.iter().skip(2) {
            q.segments.push(s.clone());
        }
        *p = q;
    }
    if segs.len() >= 4 && segs[1] == "collections" && segs[2] == "VecDeque" {
        let mut q: Path = parse_quote!(crate::shim);
        for s in p.segments.iter().skip(2) {
            q.segments.push(s.clone());
        }
        *p = q;
    }
}

pub const INTS: &[&str] = &["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128"];

/// `Ordering::Less`, `Some(Ordering::Less)`, `None`, ...
fn ordering_const(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => ordering_const(&p.expr),
        Expr::Path(p) => {
            let n = p.path.segments.last().unwrap().ident.to_string();
            n == "None" || ["Less", "Equal", "Greater"].contains(&n.as_str())
        }
        Expr::Call(c) => {
            matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) && c.args.len() == 1 && ordering_const(&c.args[0])
        }
        _ => false,
    }
}
