//! Private fields and functions that were renamed: contracts speak of them by name, so a name that is
//! gone is given back to the one newcomer of the same type (fields) or signature (functions) in the same
//! struct or impl. Names only; nothing else of the text changes.
use crate::*;
use std::collections::{BTreeMap, BTreeSet};

/// names that also belong to std types the crate uses: calls could not be told apart
pub const STD: &[&str] = &[
    "new", "push", "pop", "insert", "remove", "append", "extend", "retain", "drain", "clear", "get", "get_mut", "iter", "iter_mut", "len", "is_empty", "front", "back",
    "push_front", "push_back", "pop_front", "pop_back", "map", "next", "clone", "from", "into", "take", "replace", "truncate", "contains", "union", "intersection", "complement",
    "min", "max", "cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge", "swap", "split_off", "filter", "fold", "find", "position", "any", "all", "count", "last", "nth", "sum", "rev",
    "chain", "zip", "unwrap", "expect", "and_then", "or_else", "ok", "unwrap_or", "copied", "cloned", "collect", "flatten", "binary_search", "sort", "dedup", "first", "index", "default",
];

type Table = BTreeMap<(char, String), Vec<(String, String)>>;

fn sig_of(ty: &str, s: &Signature) -> String {
    let norm = |t: &Type| {
        let mut o = String::new();
        for x in t.to_token_stream() {
            o += &x.to_string().replace(' ', "");
        }
        if o == "Self" || o.starts_with(&format!("{ty}<")) { ty.to_string() } else { o }
    };
    let mut o = String::new();
    for a in &s.inputs {
        match a {
            FnArg::Receiver(r) => o += &format!("{};", r.ty.to_token_stream().to_string().replace(' ', "")),
            FnArg::Typed(p) => o += &format!("{};", norm(&p.ty)),
        }
    }
    if let ReturnType::Type(_, t) = &s.output {
        o += &format!("->{}", norm(t));
    }
    o
}

fn table(m: &FileMod, t: &mut Table, all_fns: &mut Vec<(String, String)>, all_fields: &mut Vec<(String, String)>) {
    for it in &m.items {
        match it {
            Item::Struct(s) => {
                for f in s.fields.iter() {
                    if let Some(i) = &f.ident {
                        let private = !matches!(f.vis, Visibility::Public(_));
                        all_fields.push((s.ident.to_string(), i.to_string()));
                        if private {
                            t.entry(('s', s.ident.to_string())).or_default().push((i.to_string(), f.ty.to_token_stream().to_string().replace(' ', "")));
                        }
                    }
                }
            }
            Item::Fn(f) => {
                all_fns.push((String::new(), f.sig.ident.to_string()));
                t.entry(('f', format!("@{}", m.name))).or_default().push((f.sig.ident.to_string(), sig_of("", &f.sig)));
            }
            Item::Trait(x) => {
                for i in &x.items {
                    if let TraitItem::Fn(f) = i {
                        all_fns.push(("trait".into(), f.sig.ident.to_string()));
                    }
                }
            }
            Item::Impl(i) => {
                let ty = base_ident(&i.self_ty);
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        if i.trait_.is_some() {
                            all_fns.push(("trait".into(), f.sig.ident.to_string()));
                        } else {
                            all_fns.push((ty.clone(), f.sig.ident.to_string()));
                            if !matches!(f.vis, Visibility::Public(_)) {
                                t.entry(('f', ty.clone())).or_default().push((f.sig.ident.to_string(), sig_of(&ty, &f.sig)));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for s in &m.subs {
        table(s, t, all_fns, all_fields);
    }
}

pub fn dump(m: &FileMod) -> String {
    let mut t = Table::new();
    table(m, &mut t, &mut vec![], &mut vec![]);
    let mut o = String::new();
    for ((k, s), v) in t {
        for (n, ty) in v {
            o += &format!("{k}\t{s}\t{n}\t{ty}\n");
        }
    }
    o
}

struct Ren {
    fields: BTreeMap<String, String>,
    fns: BTreeMap<String, String>,
}
impl Ren {
    fn to(&self, map: &BTreeMap<String, String>, i: &mut Ident) {
        if let Some(n) = map.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        use proc_macro2::{Delimiter, Group, TokenTree as T};
        let v: Vec<T> = ts.into_iter().collect();
        let mut o = vec![];
        for (k, t) in v.iter().enumerate() {
            o.push(match t {
                T::Group(g) => {
                    let mut n = Group::new(g.delimiter(), self.tokens(g.stream()));
                    n.set_span(g.span());
                    T::Group(n)
                }
                T::Ident(i) => {
                    let call = matches!(v.get(k + 1), Some(T::Group(g)) if g.delimiter() == Delimiter::Parenthesis);
                    let dot = k > 0 && matches!(&v[k - 1], T::Punct(p) if p.as_char() == '.');
                    let mut i = i.clone();
                    if call {
                        self.to(&self.fns, &mut i);
                    } else if dot {
                        self.to(&self.fields, &mut i);
                    }
                    T::Ident(i)
                }
                x => x.clone(),
            });
        }
        o.into_iter().collect()
    }
}
impl VisitMut for Ren {
    fn visit_field_mut(&mut self, f: &mut Field) {
        if let Some(i) = &mut f.ident {
            self.to(&self.fields.clone(), i);
        }
        visit_mut::visit_field_mut(self, f);
    }
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        if let Member::Named(i) = &mut f.member {
            self.to(&self.fields.clone(), i);
        }
        visit_mut::visit_expr_field_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if let Member::Named(i) = &mut f.member {
            if self.fields.contains_key(&i.to_string()) {
                self.to(&self.fields.clone(), i);
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if let Member::Named(i) = &mut f.member {
            if self.fields.contains_key(&i.to_string()) {
                self.to(&self.fields.clone(), i);
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        self.to(&self.fns.clone(), &mut s.ident);
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.to(&self.fns.clone(), &mut m.method);
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.segments.len() > 1 {
            let l = p.path.segments.last_mut().unwrap();
            self.to(&self.fns.clone(), &mut l.ident);
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if let Expr::Path(p) = &mut *c.func {
            if p.path.segments.len() == 1 {
                let l = p.path.segments.last_mut().unwrap();
                self.to(&self.fns.clone(), &mut l.ident);
            }
        }
        visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

/// gives renamed private items their names back; returns what was done
pub fn restore(m: &mut FileMod, expected: &str) -> Vec<String> {
    let mut have = Table::new();
    let (mut all_fns, mut all_fields) = (vec![], vec![]);
    table(m, &mut have, &mut all_fns, &mut all_fields);
    let mut want = Table::new();
    for l in expected.lines() {
        let c: Vec<&str> = l.split('\t').collect();
        if c.len() == 4 {
            want.entry((c[0].chars().next().unwrap(), c[1].into())).or_default().push((c[2].into(), c[3].into()));
        }
    }
    // (owner, new name) -> old name
    let mut maps: BTreeMap<char, BTreeMap<(String, String), String>> = BTreeMap::new();
    for ((k, owner), w) in &want {
        let Some(h) = have.get(&(*k, owner.clone())) else { continue };
        let gone: Vec<_> = w.iter().filter(|(n, _)| !h.iter().any(|(m, _)| m == n)).collect();
        let fresh: Vec<_> = h.iter().filter(|(n, _)| !w.iter().any(|(m, _)| m == n)).collect();
        let types: BTreeSet<&String> = gone.iter().map(|(_, t)| t).collect();
        for t in types {
            let g: Vec<_> = gone.iter().filter(|(_, x)| x == t).collect();
            let f: Vec<_> = fresh.iter().filter(|(_, x)| x == t).collect();
            if g.len() == f.len() && (*k == 's' || g.len() == 1) {
                for (a, b) in g.iter().zip(f.iter()) {
                    maps.entry(*k).or_default().insert((owner.clone(), b.0.clone()), a.0.clone());
                }
            }
        }
    }
    let mut r = Ren { fields: BTreeMap::new(), fns: BTreeMap::new() };
    let mut notes = vec![];
    for (k, mp) in &maps {
        let news: BTreeSet<&String> = mp.keys().map(|(_, n)| n).collect();
        for n in news {
            let olds: BTreeSet<&String> = mp.iter().filter(|((_, x), _)| x == n).map(|(_, o)| o).collect();
            // every item of that name must take the same old one
            let everywhere = if *k == 's' {
                all_fields.iter().filter(|(_, x)| x == n).all(|(o, _)| mp.contains_key(&(o.clone(), n.clone())))
            } else {
                !STD.contains(&n.as_str()) && all_fns.iter().filter(|(_, x)| x == n).all(|(o, _)| mp.keys().any(|(p, x)| x == n && (p == o || o.is_empty() && p.starts_with('@'))))
            };
            if olds.len() == 1 && everywhere {
                let o = olds.into_iter().next().unwrap().clone();
                notes.push(format!("{} `{n}` read as `{o}`", if *k == 's' { "field" } else { "function" }));
                if *k == 's' { r.fields.insert(n.clone(), o) } else { r.fns.insert(n.clone(), o) };
            }
        }
    }
    fn go(m: &mut FileMod, r: &mut Ren) {
        for i in m.items.iter_mut() {
            r.visit_item_mut(i);
        }
        for s in m.subs.iter_mut() {
            go(s, r);
        }
    }
    if !r.fields.is_empty() || !r.fns.is_empty() {
        go(m, &mut r);
    }
    notes
}
