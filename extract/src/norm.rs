//! Spellings that mean the same, settled when a file is read: labels that name the innermost loop, `use X as Y`,
//! associated constants.
use crate::*;

/// drops a label where every use of it sits directly in its own loop
struct Labels;
struct Uses {
    label: String,
    depth: usize,
    deep: bool,
}
impl VisitMut for Uses {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => return,
            Expr::Break(b) if b.label.as_ref().map_or(false, |l| l.to_string() == self.label) => self.deep |= self.depth > 0,
            Expr::Continue(c) if c.label.as_ref().map_or(false, |l| l.to_string() == self.label) => self.deep |= self.depth > 0,
            _ => {}
        }
        let inner = matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_));
        self.depth += inner as usize;
        visit_mut::visit_expr_mut(self, e);
        self.depth -= inner as usize;
    }
}
struct Unlabel(String);
impl VisitMut for Unlabel {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Break(b) if b.label.as_ref().map_or(false, |l| l.to_string() == self.0) => b.label = None,
            Expr::Continue(c) if c.label.as_ref().map_or(false, |l| l.to_string() == self.0) => c.label = None,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl VisitMut for Labels {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let (label, body) = match e {
            Expr::While(w) => (&mut w.label, &mut w.body),
            Expr::ForLoop(w) => (&mut w.label, &mut w.body),
            Expr::Loop(w) => (&mut w.label, &mut w.body),
            _ => return visit_mut::visit_expr_mut(self, e),
        };
        if let Some(l) = label.clone() {
            let mut u = Uses { label: l.name.to_string(), depth: 0, deep: false };
            u.visit_block_mut(body);
            if !u.deep {
                Unlabel(l.name.to_string()).visit_block_mut(body);
                *label = None;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Alias(HashMap<String, String>);
impl VisitMut for Alias {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(n) = p.segments.first().and_then(|s| self.0.get(&s.ident.to_string())) {
            let s = p.segments.first_mut().unwrap();
            s.ident = Ident::new(n, s.ident.span());
        }
        visit_mut::visit_path_mut(self, p);
    }
}
fn aliases(t: &mut UseTree, m: &mut HashMap<String, String>) {
    match t {
        UseTree::Path(p) => aliases(&mut p.tree, m),
        UseTree::Group(g) => g.items.iter_mut().for_each(|i| aliases(i, m)),
        UseTree::Rename(r) if r.rename != "_" && r.ident != "self" => {
            m.insert(r.rename.to_string(), r.ident.to_string());
            let i = r.ident.clone();
            *t = UseTree::Name(UseName { ident: i });
        }
        _ => {}
    }
}

struct Consts(HashMap<(String, String), Expr>, String);
impl VisitMut for Consts {
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        self.1 = base_ident(&i.self_ty);
        visit_mut::visit_item_impl_mut(self, i);
        self.1.clear();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.segments.len() == 2 && p.qself.is_none() {
                let t = p.path.segments[0].ident.to_string();
                let t = if t == "Self" { self.1.clone() } else { t };
                if let Some(x) = self.0.get(&(t, p.path.segments[1].ident.to_string())) {
                    *e = parse_quote!((#x));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn file(items: &mut Vec<Item>) {
    let mut al = HashMap::new();
    for i in items.iter_mut() {
        if let Item::Use(u) = i {
            if !matches!(u.vis, Visibility::Inherited) {
                continue;
            }
            aliases(&mut u.tree, &mut al);
        }
    }
    for i in items.iter_mut() {
        Labels.visit_item_mut(i);
        if !al.is_empty() && !matches!(i, Item::Use(_)) {
            Alias(al.clone()).visit_item_mut(i);
        }
    }
}

/// inherent associated constants, in place of their uses
pub fn consts(m: &mut FileMod) {
    fn collect(m: &mut FileMod, c: &mut HashMap<(String, String), Expr>) {
        for i in m.items.iter_mut() {
            if let Item::Impl(i) = i {
                if i.trait_.is_none() {
                    let ty = base_ident(&i.self_ty);
                    i.items.retain(|x| match x {
                        ImplItem::Const(k) => {
                            c.insert((ty.clone(), k.ident.to_string()), k.expr.clone());
                            false
                        }
                        _ => true,
                    });
                }
            }
        }
        m.subs.iter_mut().for_each(|s| collect(s, c));
    }
    fn go(m: &mut FileMod, c: &mut Consts) {
        m.items.iter_mut().for_each(|i| c.visit_item_mut(i));
        m.subs.iter_mut().for_each(|s| go(s, c));
    }
    let mut c = HashMap::new();
    collect(m, &mut c);
    if !c.is_empty() {
        go(m, &mut Consts(c, String::new()));
    }
}
