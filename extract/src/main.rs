//! rtx SRC_DIR CONTRACTS_DIR OUT.rs OUT.json
//!
//! Reads the crate's current source, and writes one file for the verifier that holds
//! the text of every function under contract together with its contract.
mod cps;
mod locals;
mod names;
mod norm;
mod db;
mod pp;
mod tx;

use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path as FsPath, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;
use tx::*;

struct FileMod {
    file: String,
    name: String,
    items: Vec<Item>,
    subs: Vec<FileMod>,
}

fn is_cfg_out(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = a.meta.to_token_stream().to_string().replace(' ', "");
        s.contains("test") && !s.contains("not(test)") || s.contains("feature=") && !s.contains("not(feature")
    })
}

fn load(file: &FsPath, name: &str, dir: &FsPath, root: &FsPath) -> FileMod {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| fail(&format!("{}: {e}", file.display())));
    let f = syn::parse_file(&text).unwrap_or_else(|e| fail(&format!("{}: {e}", file.display())));
    let mut items = vec![];
    let mut subs = vec![];
    let f_items = expand_macros(f.items, file, root);
    let mut f_items = f_items;
    for i in f_items.iter_mut() {
        tx::ExpandMatches.visit_item_mut(i);
    }
    norm::file(&mut f_items);
    load_items(f_items, dir, root, &file.strip_prefix(root).unwrap().display().to_string(), &mut items, &mut subs);
    FileMod { file: file.strip_prefix(root).unwrap().display().to_string(), name: name.into(), items, subs }
}

fn load_items(src: Vec<Item>, dir: &FsPath, root: &FsPath, file: &str, items: &mut Vec<Item>, subs: &mut Vec<FileMod>) {
    for it in src {
        match it {
            Item::Mod(m) => {
                if is_cfg_out(&m.attrs) {
                    continue;
                }
                let n = m.ident.to_string();
                if let Some((_, inner)) = m.content {
                    let mut i2 = vec![];
                    let mut s2 = vec![];
                    load_items(inner, &dir.join(&n), root, file, &mut i2, &mut s2);
                    subs.push(FileMod { file: file.into(), name: n, items: i2, subs: s2 });
                    continue;
                }
                let a = dir.join(format!("{n}.rs"));
                let b = dir.join(&n).join("mod.rs");
                if a.exists() {
                    subs.push(load(&a, &n, &dir.join(&n), root));
                } else if b.exists() {
                    subs.push(load(&b, &n, &dir.join(&n), root));
                } else {
                    fail(&format!("module {n} not found"));
                }
            }
            other => items.push(other),
        }
    }
}

/// Items written as macro invocations are replaced by what the compiler expands them to.
fn expand_macros(items: Vec<Item>, file: &FsPath, root: &FsPath) -> Vec<Item> {
    if !items.iter().any(|i| matches!(i, Item::Macro(m) if m.ident.is_none() && !is_cfg_out(&m.attrs))) {
        return items;
    }
    let lib = root.join("lib.rs");
    let out = std::process::Command::new("rustc")
        .env("RUSTC_BOOTSTRAP", "1")
        .args(["--edition", "2021", "--crate-name", "rangetools", "--crate-type", "lib", "-Zunpretty=expanded"])
        .arg(&lib)
        .output();
    let text = match out {
        Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).to_string(),
        Ok(o) => {
            EXPAND_NOTES.lock().unwrap().push(format!("macro items of {} not expanded: {}", file.display(), String::from_utf8_lossy(&o.stderr).chars().take(200).collect::<String>()));
            return items;
        }
        Err(e) => {
            EXPAND_NOTES.lock().unwrap().push(format!("macro items of {} not expanded: {e}", file.display()));
            return items;
        }
    };
    let rel = file.strip_prefix(root).unwrap().with_extension("");
    let mut path: Vec<String> = rel.iter().map(|c| c.to_string_lossy().to_string()).collect();
    if path.last().map(|l| l == "mod" || l == "lib").unwrap_or(false) {
        path.pop();
    }
    let mut cur = match syn::parse_file(&text) {
        Ok(f) => f.items,
        Err(e) => {
            EXPAND_NOTES.lock().unwrap().push(format!("expansion does not parse: {e}"));
            return items;
        }
    };
    for p in &path {
        let next = cur.into_iter().find_map(|i| match i {
            Item::Mod(m) if m.ident == p => m.content.map(|c| c.1),
            _ => None,
        });
        match next {
            Some(n) => cur = n,
            None => {
                EXPAND_NOTES.lock().unwrap().push(format!("module {p} not found in the expansion"));
                return items;
            }
        }
    }
    // what the file spells out stays as written; only impls come from the expansion
    let mut out: Vec<Item> = items.iter().filter(|i| !matches!(i, Item::Impl(_) | Item::Macro(_))).cloned().collect();
    let known: HashSet<String> = out.iter().filter_map(item_name).collect();
    for i in cur {
        match &i {
            Item::Impl(m) if !m.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) => out.push(i),
            Item::Fn(_) | Item::Struct(_) | Item::Enum(_) | Item::Const(_) | Item::Trait(_) if !known.contains(&item_name(&i).unwrap_or_default()) => out.push(i),
            _ => {}
        }
    }
    out
}
fn item_name(i: &Item) -> Option<String> {
    Some(match i {
        Item::Fn(f) => f.sig.ident.to_string(),
        Item::Struct(f) => f.ident.to_string(),
        Item::Enum(f) => f.ident.to_string(),
        Item::Const(f) => f.ident.to_string(),
        Item::Trait(f) => f.ident.to_string(),
        _ => return None,
    })
}
static EXPAND_NOTES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);

fn fail(s: &str) -> ! {
    eprintln!("rtx: {s}");
    std::process::exit(3)
}

fn base_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", base_ident(&r.elem)),
        Type::Slice(_) => "slice".into(),
        Type::Paren(p) => base_ident(&p.elem),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn trait_key(p: &Path) -> (String, Option<String>) {
    let l = p.segments.last().unwrap();
    let arg = match &l.arguments {
        PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| match x {
            GenericArgument::Type(t) => Some(base_ident(t)),
            _ => None,
        }).last(),
        _ => None,
    };
    (l.ident.to_string(), arg)
}

fn impl_key(i: &ItemImpl) -> String {
    let ty = base_ident(&i.self_ty);
    match &i.trait_ {
        None => ty,
        Some((_, p, _)) => {
            let (t, a) = trait_key(p);
            match a {
                Some(a) => format!("{t}<{a}> for {ty}"),
                None => format!("{t} for {ty}"),
            }
        }
    }
}

/// traits whose impls become inherent methods
const TO_INHERENT: &[&str] = &["Iterator", "DoubleEndedIterator", "IntoIterator"];
const KEEP_TRAITS: &[&str] = &[
    "Rangetools", "RangeIntersection", "RangeUnion", "RangeComplement", "From", "PartialOrd", "Ord", "PartialEq",
    "Eq", "Clone", "Copy", "Default", "Step",
];
struct QualifyTraits;
impl VisitMut for QualifyTraits {
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let i = p.segments[0].ident.to_string();
        if p.segments.len() == 1 && CRATE_TRAITS.contains(&i.as_str()) {
            let s = p.segments[0].clone();
            let mut q: Path = parse_quote!(crate);
            q.segments.push(s);
            *p = q;
        }
    }
}
/// the contracts of the provided methods of `Rangetools`, from the trait's contract text
fn provided(txt: &str) -> HashMap<String, db::FnSpec> {
    let mut m = HashMap::new();
    let Some(i) = txt.find("pub trait RangetoolsExt") else { return m };
    let mut cur: Option<(String, db::FnSpec, bool)> = None;
    for l in txt[i..].lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("fn ") {
            let n = r.split(['<', '(']).next().unwrap().trim_start_matches("rt_").to_string();
            let ret = r.split("-> (").nth(1).and_then(|x| x.split(':').next()).map(|x| x.to_string());
            cur = Some((n, db::FnSpec { ret, ..Default::default() }, false));
        } else if t == ";" {
            if let Some((n, s, _)) = cur.take() {
                m.insert(n, s);
            }
        } else if let Some((_, s, on)) = &mut cur {
            *on |= t == "requires" || t == "ensures";
            if *on {
                s.spec.push_str(l);
                s.spec.push('\n');
            }
        }
    }
    m
}
const CRATE_TRAITS: &[&str] = &["Rangetools", "RangeIntersection", "RangeUnion", "RangeComplement", "Step"];
const STD_RANGES: &[&str] = &["Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeFull"];
const SKIP_TRAITS: &[&str] = &["Debug", "Display", "Hash", "FusedIterator"];

#[derive(Default)]
struct FnRec {
    key: String,
    file: String,
    line: usize,
    loops: Vec<String>,
    want_loops: Vec<String>,
    variant: usize,
    reshaped: bool,
    more: bool,
    problems: Vec<String>,
    inlined: Vec<String>,
    body_hash: u64,
}

struct Gen {
    g: Global,
    out: String,
    fns: Vec<FnRec>,
    dropped: Vec<String>,
    notes: Vec<String>,
    derived: BTreeMap<String, Vec<String>>,
    provided: HashMap<String, db::FnSpec>,
    opaque: HashSet<String>,
    variants: HashMap<String, usize>,
    /// inside an indexing function: Some(panicking variant)
    idx: Option<bool>,
}

fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

struct PathMap;
impl VisitMut for PathMap {
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        map_std_path(p);
    }
}

struct AssocSubst(HashMap<String, Type>);
impl VisitMut for AssocSubst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(r) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = r.clone();
                    return self.visit_type_mut(t);
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

fn lawful_param(name: &str, bounds: &str) -> bool {
    name == "T" || bounds.contains("Ord") || bounds.contains("Step")
}

fn fix_bound(b: &mut TypeParamBound) {
    if let TypeParamBound::Trait(t) = b {
        let l = t.path.segments.last().unwrap().ident.to_string();
        match l.as_str() {
            "Clone" => *b = parse_quote!(crate::shim::Dup),
            "Default" => *b = parse_quote!(crate::shim::Default_),
            "Hash" | "Debug" => *b = parse_quote!(Sized),
            _ => {}
        }
    }
}

/// adds `Lawful` / `Cov` to type parameters and maps std bounds
fn fix_generics(g: &mut Generics, method: bool) {
    PathMap.visit_generics_mut(g);
    let all = g.to_token_stream().to_string() + &g.where_clause.to_token_stream().to_string();
    let mut assoc: HashSet<String> = HashSet::new();
    // parameters bound through Rangetools<Inner = B> / <Set = B>
    {
        struct A<'a>(&'a mut HashSet<String>);
        impl<'ast, 'a> syn::visit::Visit<'ast> for A<'a> {
            fn visit_assoc_type(&mut self, a: &'ast AssocType) {
                if let Type::Path(p) = &a.ty {
                    if let Some(i) = p.path.get_ident() {
                        self.0.insert(i.to_string());
                    }
                }
                syn::visit::visit_assoc_type(self, a);
            }
        }
        let mut a = A(&mut assoc);
        syn::visit::Visit::visit_generics(&mut a, g);
    }
    let wheres: Vec<(String, String)> = g
        .where_clause
        .iter()
        .flat_map(|w| w.predicates.iter())
        .filter_map(|p| match p {
            WherePredicate::Type(t) => Some((t.bounded_ty.to_token_stream().to_string(), t.bounds.to_token_stream().to_string())),
            _ => None,
        })
        .collect();
    let _ = all;
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            let n = t.ident.to_string();
            let mut b = t.bounds.to_token_stream().to_string();
            for (w, x) in &wheres {
                if *w == n {
                    b.push_str(x);
                }
            }
            for x in t.bounds.iter_mut() {
                fix_bound(x);
            }
            if lawful_param(&n, &b) {
                t.bounds.push(parse_quote!(crate::shim::Lawful));
            } else if assoc.contains(&n) || (method && n == "Output") {
                t.bounds.push(parse_quote!(crate::shim::Cov));
            }
            t.eq_token = None;
            t.default = None;
        }
    }
    if let Some(w) = &mut g.where_clause {
        for p in w.predicates.iter_mut() {
            if let WherePredicate::Type(t) = p {
                for x in t.bounds.iter_mut() {
                    fix_bound(x);
                }
            }
        }
    }
}

fn strip_attrs_block(b: &mut Block) {
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
    }
    S.visit_block_mut(b);
}

impl Gen {
    fn emit_fn(&mut self, key: &str, file: &str, sig: &Signature, block: &Block, self_ty: Option<String>, imports: &BTreeSet<String>, trait_impl: bool, vis_pub: bool, rename: Option<&str>, no_spec: bool) {
        let spec = self.g.db.fns.get(key.trim_end_matches(" (panics)")).cloned();
        let spec_known = spec.is_some();
        let spec = spec.unwrap_or_default();
        let mut sig = sig.clone();
        fix_generics(&mut sig.generics, true);
        // name every parameter
        let mut params = vec![];
        let mut lets: Vec<Stmt> = vec![];
        let mut k = 0;
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                k += 1;
                PathMap.visit_type_mut(&mut t.ty);
                match &mut *t.pat {
                    Pat::Ident(i) => params.push(i.ident.to_string()),
                    Pat::Wild(_) => {
                        let n = ident(&format!("__p{k}"));
                        *t.pat = parse_quote!(#n);
                        params.push(n.to_string());
                    }
                    Pat::Reference(r) if matches!(&*r.pat, Pat::Ident(_)) => {
                        let n = ident(&format!("__p{k}"));
                        let inner = (*r.pat).clone();
                        *t.pat = parse_quote!(#n);
                        lets.push(parse_quote!(let #inner = *#n;));
                        params.push(n.to_string());
                    }
                    other => {
                        let n = ident(&format!("__p{k}"));
                        let inner = other.clone();
                        *t.pat = parse_quote!(#n);
                        lets.push(parse_quote!(let #inner = #n;));
                        params.push(n.to_string());
                    }
                }
                t.attrs.clear();
            }
        }
        let src_hash = hash(&block.to_token_stream().to_string());
        let mut block = block.clone();
        strip_attrs_block(&mut block);
        locals::inline_locals(&mut block);
        for l in lets.into_iter().rev() {
            block.stmts.insert(0, l);
        }
        let mut mut_locals = vec![];
        // `mut self` is not accepted: move it into a mutable local
        let mut mut_self = false;
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                mut_self = true;
                mut_locals.push("__self".to_string());
                let mut map = HashMap::new();
                let e: Expr = parse_quote!(__self);
                map.insert("self".to_string(), e);
                rename_block(&mut block, &map);
            }
        }
        for a in sig.inputs.iter() {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &*t.pat {
                    if i.mutability.is_some() {
                        mut_locals.push(i.ident.to_string());
                    }
                }
            }
        }
        // the contract's own loop invariants first, then those for other ways of writing the function
        let mut all = spec;
        if let Some(gen) = key.rsplit("::").next().and_then(|n| self.g.db.fns.get(&format!("*::{n}"))) {
            all.variants.extend(gen.variants.iter().cloned());
        }
        let start = self.variants.get(key).copied().unwrap_or(0);
        let mut chosen = None;
        let mut first = None;
        let mut more = false;
        let mut reshaped = false;
        // (the last candidate: no loops at all, so no invariants)
        for v in start..=all.variants.len() + !all.loops.is_empty() as usize {
            let spec = all.with_variant(v);
            let mut block = block.clone();
            let mut texts: Vec<String> = vec![];
            let mut t = Tx {
                g: &self.g,
                spec: spec.clone(),
                texts: &mut texts,
                self_ty: self_ty.clone(),
                imports,
                params: params.clone(),
                loops: vec![],
                problems: vec![],
                inlined: vec![],
                counter: 0,
                depth: 0,
                mut_locals: mut_locals.clone(),
                iter_locals: Default::default(),
                src_text: String::new(),
                dq: String::new(),
                counters: Default::default(),
                ctr: String::new(),
                accs: Vec::new(),
                idx: self.idx,
            };
            t.visit_block_mut(&mut block);
            let entry = t.subst(&spec.entry);
            let exit = t.subst(&spec.exit);
            let spec_txt = t.subst(&spec.spec);
            let mut problems = std::mem::take(&mut t.problems);
            let loops = std::mem::take(&mut t.loops);
            let inlined = std::mem::take(&mut t.inlined);
            let want: Vec<String> = spec.loops.iter().map(|l| l.kind.clone()).collect();
            let same = want.len() == loops.len()
                && want.iter().zip(&loops).all(|(w, l)| w.split('|').any(|w| w == l || w == "for" && l == "fold" || w == "fold" && l == "for"));
            if !same {
                problems.push(format!("lost anchor: loops are {loops:?}, contract has invariants for {want:?}"));
            }
            let ok = !problems.iter().any(|p| p.starts_with("lost anchor"));
            let r = (v, block, texts, entry, exit, spec_txt, problems, loops, inlined, want);
            if ok && chosen.is_some() {
                more = true;
                break;
            }
            if ok && v == 0 && spec.loops.iter().zip(&r.7).any(|(w, l)| w.kind.split('|').next() != Some(l.as_str())) {
                reshaped = true;
            }
            if ok {
                chosen = Some(r);
            } else if first.is_none() {
                first = Some(r);
            }
        }
        let (variant, mut block, mut texts, entry, exit, spec_txt, mut problems, loops, inlined, want) = chosen.or(first).unwrap();
        let spec = all.with_variant(variant);
        if !exit.trim().is_empty() {
            texts.push(exit);
            let n = proc_macro2::Literal::usize_unsuffixed(texts.len() - 1);
            match block.stmts.last().cloned() {
                Some(Stmt::Expr(e, None)) if !matches!(sig.output, ReturnType::Default) => {
                    block.stmts.pop();
                    block.stmts.push(parse_quote!(let __ret = #e;));
                    block.stmts.push(parse_quote!(__vtext!(#n);));
                    block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
                }
                Some(Stmt::Expr(e, None)) => {
                    block.stmts.pop();
                    block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                    block.stmts.push(parse_quote!(__vtext!(#n);));
                }
                _ => block.stmts.push(parse_quote!(__vtext!(#n);)),
            }
        }
        let pt = if key.contains("Set") && !key.ends_with("Set::contains") { "" } else { "broadcast use crate::shim::group_point;\n" };
        let probe = if std::env::var("RTX_PROBE").is_ok() { "assert(false);\n" } else { "" };
        let ix = if self.idx.is_some() { "broadcast use crate::idx::group_index;\n" } else { "" };
        let entry = format!("broadcast use crate::specs::group_all;\n{pt}{ix}{probe}{entry}");
        texts.push(entry);
        let n = proc_macro2::Literal::usize_unsuffixed(texts.len() - 1);
        if mut_self {
            block.stmts.insert(0, parse_quote!(let mut __self = self;));
        }
        block.stmts.insert(0, parse_quote!(__vtext!(#n);));

        let ret = match &mut sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                PathMap.visit_type_mut(t);
                let r = spec.ret.clone().unwrap_or("__r".into());
                format!(" -> ({}: {})", r, pp::print(t.to_token_stream(), &[]).trim())
            }
        };
        let name = rename.map(|s| s.to_string()).unwrap_or(sig.ident.to_string());
        let (gens, wher) = (sig.generics.clone(), sig.generics.where_clause.clone());
        let inputs = &sig.inputs;
        self.out.push_str(&format!("//#FN {key} | {file}\n"));
        self.out.push_str(&spec.attr);
        if !loops.is_empty() {
            self.out.push_str("#[verifier::loop_isolation(false)]\n");
        }
        let mut w = pp::print(wher.to_token_stream(), &[]);
        if !w.trim().is_empty() && !w.trim_end().ends_with(',') {
            w = format!("{},\n", w.trim_end());
        }
        let body = if self.opaque.contains(key) {
            self.out.push_str("#[verifier::external_body]\n");
            "{ unimplemented!() }".to_string()
        } else {
            pp::print(block.to_token_stream(), &texts)
        };
        let line = self.out.lines().count() + 1;
        self.out.push_str(&format!(
            "{}fn {}{}({}){}\n{}{}{}\n//#END\n",
            if vis_pub && !trait_impl { "pub " } else { "" },
            name,
            {
                let mut g2 = gens.clone();
                g2.where_clause = None;
                pp::print(g2.to_token_stream(), &[])
            },
            pp::print(inputs.to_token_stream(), &[]).trim(),
            ret,
            w,
            if no_spec { String::new() } else { spec_txt },
            body
        ));
        if !spec_known && !trait_impl {
            problems.push("no contract".into());
        }
        self.fns.push(FnRec { key: key.into(), file: file.into(), line, loops, want_loops: want, problems, inlined, body_hash: src_hash, variant, more, reshaped: reshaped || variant > 0 });
    }

    fn emit_item(&mut self, it: &Item, file: &str, imports: &BTreeSet<String>) {
        match it {
            Item::Struct(s) => {
                if is_cfg_out(&s.attrs) { return; }
                let mut s = s.clone();
                let d = derives(&s.attrs);
                self.derived.insert(s.ident.to_string(), d.clone());
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                    PathMap.visit_type_mut(&mut f.ty);
                }
                let cp = d.contains(&"Copy".to_string());
                if cp {
                    self.out.push_str("#[derive(Clone, Copy)]\n");
                }
                let toks = s.to_token_stream();
                self.out.push_str(&pp::print(toks, &[]));
                self.out.push('\n');
                self.emit_derives(&s.ident.to_string(), &s.generics, &d, DeriveShape::Struct(s.fields.clone()));
            }
            Item::Enum(s) => {
                if is_cfg_out(&s.attrs) { return; }
                let mut s = s.clone();
                let d = derives(&s.attrs);
                self.derived.insert(s.ident.to_string(), d.clone());
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        PathMap.visit_type_mut(&mut f.ty);
                    }
                }
                if d.contains(&"Copy".to_string()) {
                    self.out.push_str("#[derive(Clone, Copy)]\n");
                }
                self.out.push_str(&pp::print(s.to_token_stream(), &[]));
                self.out.push('\n');
                self.emit_derives(&s.ident.to_string(), &s.generics, &d, DeriveShape::Enum(s.variants.iter().cloned().collect()));
            }
            Item::Impl(i) => self.emit_impl(i, file, imports),
            Item::Fn(f) => {
                if is_cfg_out(&f.attrs) { return; }
                let key = format!("::{}", f.sig.ident);
                if self.g.db.fns.contains_key(&key) {
                    self.emit_fn(&key, file, &f.sig, &f.block, None, imports, false, true, None, false);
                } else {
                    self.dropped.push(format!("fn {} (inlined at its call sites)", f.sig.ident));
                }
            }
            Item::Const(c) => {
                let mut c = c.clone();
                c.attrs.clear();
                self.out.push_str(&pp::print(c.to_token_stream(), &[]));
                self.out.push('\n');
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                PathMap.visit_item_type_mut(&mut t);
                self.out.push_str(&pp::print(t.to_token_stream(), &[]));
                self.out.push('\n');
            }
            Item::Trait(t) => {
                let n = t.ident.to_string();
                if n == "Rangetools" {
                    self.emit_ext(t, file, imports);
                } else if !CRATE_TRAITS.contains(&n.as_str()) {
                    self.dropped.push(format!("trait {n}"));
                }
            }
            Item::Macro(_) | Item::Use(_) => {}
            other => self.notes.push(format!("item not extracted: {}", &other.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }

    /// The provided methods of `Rangetools`, as a blanket-implemented extension trait
    /// (the verifier rejects the cycle between the helper traits and their use as bounds).
    fn emit_ext(&mut self, t: &ItemTrait, file: &str, imports: &BTreeSet<String>) {
        self.out.push_str("impl<__S: crate::Rangetools> crate::RangetoolsExt for __S {\n");
        let expected = ["complement", "intersection", "disjoint", "intersects", "union"];
        let mut seen = vec![];
        for it in &t.items {
            if let TraitItem::Fn(f) = it {
                let n = f.sig.ident.to_string();
                if let Some(b) = &f.default {
                    if !expected.contains(&n.as_str()) {
                        self.notes.push(format!("provided method {n} of Rangetools is not known to the extraction"));
                        continue;
                    }
                    seen.push(n.clone());
                    let rn = if ["complement", "intersection", "union"].contains(&n.as_str()) { format!("rt_{n}") } else { n.clone() };
                    let mut sig = f.sig.clone();
                    QualifyTraits.visit_signature_mut(&mut sig);
                    let mut b = b.clone();
                    QualifyTraits.visit_block_mut(&mut b);
                    self.emit_fn(&format!("Rangetools::{n}"), file, &sig, &b, None, imports, true, false, Some(&rn), true);
                }
            }
        }
        for e in expected {
            if !seen.iter().any(|s| s == e) {
                self.notes.push(format!("provided method {e} of Rangetools is missing"));
            }
        }
        self.out.push_str("}\n");
    }

    fn emit_impl(&mut self, i: &ItemImpl, file: &str, imports: &BTreeSet<String>) {
        if is_cfg_out(&i.attrs) {
            return;
        }
        let key = impl_key(i);
        let ty = base_ident(&i.self_ty);
        let tr = i.trait_.as_ref().map(|(_, p, _)| trait_key(p).0);
        let mut i = i.clone();
        if let Some(t) = &tr {
            if SKIP_TRAITS.contains(&t.as_str()) {
                self.dropped.push(format!("impl {key}"));
                return;
            }
            if t == "Index" || t == "IndexMut" {
                self.emit_index(&i, &key, file, imports, t == "IndexMut");
                return;
            }
            if t == "ExactSizeIterator" {
                // std's provided method, unless there is one of its own
                let mut own: Option<ImplItemFn> = None;
                for it in &i.items {
                    match it {
                        ImplItem::Fn(f) if f.sig.ident == "len" => own = Some(f.clone()),
                        _ => self.notes.push(format!("{key} has methods without a contract")),
                    }
                }
                let f = own.unwrap_or_else(|| parse_quote! {
                    fn len(&self) -> usize {
                        let (lower, upper) = self.size_hint();
                        assert_eq!(upper, Some(lower));
                        lower
                    }
                });
                i.trait_ = None;
                i.items = vec![ImplItem::Fn(f)];
                self.emit_impl(&i, file, imports);
                return;
            }
            if !KEEP_TRAITS.contains(&t.as_str()) && !TO_INHERENT.contains(&t.as_str()) {
                self.dropped.push(format!("impl of {key} (methods inlined at their call sites)"));
                return;
            }
        }
        fix_generics(&mut i.generics, false);
        PathMap.visit_type_mut(&mut i.self_ty);
        let gens = {
            let mut g = i.generics.clone();
            g.where_clause = None;
            g.to_token_stream()
        };
        let mut wher = pp::print(i.generics.where_clause.to_token_stream(), &[]);
        if let Some(b) = self.g.db.bounds.get(&key) {
            let b = b.trim().replace('\n', " ");
            if wher.trim().is_empty() {
                wher = format!("where {b} ");
            } else {
                let w = wher.trim_end().trim_end_matches(',').to_string();
                wher = format!("{w}, {b} ");
            }
        }
        let self_ty = i.self_ty.to_token_stream();
        let inherent = tr.is_none() || TO_INHERENT.contains(&tr.as_deref().unwrap());
        let mut assoc: HashMap<String, Type> = self.g.assoc.get(&ty).cloned().unwrap_or_default();
        for it in &i.items {
            if let ImplItem::Type(t) = it {
                assoc.insert(t.ident.to_string(), t.ty.clone());
            }
        }
        if inherent {
            let mut body = vec![];
            for it in &i.items {
                match it {
                    ImplItem::Fn(f) => {
                        if is_cfg_out(&f.attrs) {
                            continue;
                        }
                        let k = format!("{ty}::{}", f.sig.ident);
                        if self.g.db.fns.contains_key(&k) {
                            body.push((k, f.clone()));
                        } else if tr.is_some() {
                            self.notes.push(format!("{k} has no contract"));
                        } else {
                            self.dropped.push(format!("{k} (inlined at its call sites)"));
                        }
                    }
                    ImplItem::Const(c) => {
                        self.notes.push(format!("associated const {} is not extracted", c.ident));
                    }
                    _ => {}
                }
            }
            if body.is_empty() {
                return;
            }
            self.out.push_str(&format!("impl{} {} {} {{\n", pp::print(gens, &[]), pp::print(self_ty, &[]), wher));
            for (k, mut f) in body {
                if tr.is_some() {
                    let mut s = AssocSubst(assoc.clone());
                    s.visit_signature_mut(&mut f.sig);
                    s.visit_block_mut(&mut f.block);
                    if let Some(w) = &mut f.sig.generics.where_clause {
                        // `where Self: Sized` and `Self::Item: Ord` hold already
                        w.predicates = w.predicates.iter().filter(|p| !p.to_token_stream().to_string().starts_with("Self") && !p.to_token_stream().to_string().starts_with("T :")).cloned().collect();
                        if w.predicates.is_empty() {
                            f.sig.generics.where_clause = None;
                        }
                    }
                }
                self.emit_fn(&k, file, &f.sig, &f.block, Some(ty.clone()), imports, false, true, None, false);
            }
            self.out.push_str("}\n");
            return;
        }
        // trait impls
        let (bang, mut path, _) = i.trait_.clone().unwrap();
        if bang.is_some() {
            return;
        }
        PathMap.visit_path_mut(&mut path);
        let t = tr.unwrap();
        let std_trait = ["PartialOrd", "Ord", "PartialEq", "Eq"].contains(&t.as_str());
        match t.as_str() {
            "From" => {
                let l = path.segments.last_mut().unwrap();
                l.ident = ident("From_");
                let l = l.clone();
                path = parse_quote!(crate::shim::X);
                *path.segments.last_mut().unwrap() = l;
            }
            "Clone" => path = parse_quote!(crate::shim::Dup),
            "Default" => path = parse_quote!(crate::shim::Default_),
            "Eq" if self.derived.get(&ty).map_or(false, |d| d.iter().any(|x| x == "Eq" || x == "PartialEq")) => return,
            "Copy" => {
                self.notes.push("manual Copy impl".into());
                return;
            }
            _ => {}
        }
        let (gens, self_ty) = (pp::print(gens, &[]), pp::print(self_ty, &[]));
        if t == "From" && STD_RANGES.contains(&ty.as_str()) && ty != "RangeInclusive" {
            self.emit_from_p(&i, &key, file, imports, &gens, &path, &self_ty, &wher);
        }
        let mut over = vec![];
        self.out.push_str(&format!("impl{} {} for {} {} {{\n", gens, pp::print(path.to_token_stream(), &[]), self_ty, wher));
        if !std_trait {
            let m = self.g.db.members.get(&key).cloned().or_else(|| {
                // default members by trait
                self.g.db.members.get(&format!("{t} for *")).cloned()
            }).unwrap_or_default();
            self.out.push_str(&m);
        }
        for it in &i.items {
            match it {
                ImplItem::Type(t) => {
                    let mut t = t.clone();
                    t.attrs.clear();
                    PathMap.visit_impl_item_type_mut(&mut t);
                    self.out.push_str(&pp::print(t.to_token_stream(), &[]));
                    self.out.push('\n');
                }
                ImplItem::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    let k = format!("{key}::{n}");
                    let rn = match (t.as_str(), n.as_str()) {
                        ("From", "from") => Some("from_"),
                        ("Clone", "clone") => Some("dup"),
                        ("Default", "default") => Some("default_"),
                        _ => None,
                    };
                    let known: &[&str] = match t.as_str() {
                        "Rangetools" => &["is_empty", "to_inner", "to_set"],
                        "Step" => &["steps_between", "forward", "forward_checked", "backward", "backward_checked"],
                        "PartialOrd" => &["partial_cmp", "lt", "le", "gt", "ge"],
                        "Ord" => &["cmp", "max", "min", "clamp"],
                        "PartialEq" => &["eq", "ne"],
                        _ => &["intersection", "union", "complement", "from", "clone", "default"],
                    };
                    if !known.contains(&n.as_str()) {
                        match self.provided.get(&n) {
                            Some(spec) if t == "Rangetools" && matches!(&*i.self_ty, Type::Path(_)) => {
                                self.g.db.fns.insert(k.clone(), spec.clone());
                                over.push((k, f.clone()));
                            }
                            _ => self.notes.push(format!("{k} overrides a provided method; not extracted")),
                        }
                        continue;
                    }
                    let mut sig = f.sig.clone();
                    if let Some(w) = &mut sig.generics.where_clause {
                        let _ = w;
                    }
                    let _ = &mut sig;
                    self.emit_fn(&k, file, &sig, &f.block, Some(ty.clone()), imports, true, false, rn, true);
                }
                _ => {}
            }
        }
        self.out.push_str("}\n");
        // a provided method that this kind overrides: under the contract of the provided one
        if !over.is_empty() {
            self.out.push_str(&format!("impl{gens} {self_ty} {wher} {{\n"));
            for (k, f) in over {
                let mut sig = f.sig.clone();
                let mut b = f.block.clone();
                QualifyTraits.visit_signature_mut(&mut sig);
                QualifyTraits.visit_block_mut(&mut b);
                let n = format!("ov_{}", sig.ident);
                self.emit_fn(&k, file, &sig, &b, Some(ty.clone()), imports, false, true, Some(&n), false);
            }
            self.out.push_str("}\n");
        }
    }

    /// conversions back to std ranges, once more: "returns only when such a range exists"
    fn emit_from_p(&mut self, i: &ItemImpl, key: &str, file: &str, imports: &BTreeSet<String>, gens: &str, path: &Path, self_ty: &str, wher: &str) {
        let mut path = path.clone();
        path.segments.last_mut().unwrap().ident = ident("FromP_");
        self.out.push_str(&format!("impl{} {} for {} {} {{\n", gens, pp::print(path.to_token_stream(), &[]), self_ty, wher));
        for it in &i.items {
            if let ImplItem::Fn(f) = it {
                self.idx = Some(true);
                self.emit_fn(&format!("{key}::{} (panics)", f.sig.ident), file, &f.sig, &f.block, Some(base_ident(&i.self_ty)), imports, true, false, Some("from_p"), true);
                self.idx = None;
            }
        }
        self.out.push_str("}\n");
    }

    /// Index and IndexMut impls: each is emitted twice, for the in-bounds contract and for the
    /// "returns only when in bounds" contract (see contracts/index.rs)
    fn emit_index(&mut self, i: &ItemImpl, key: &str, file: &str, imports: &BTreeSet<String>, mutable: bool) {
        let mut gens = i.generics.clone();
        let wher = pp::print(gens.where_clause.to_token_stream(), &[]);
        gens.where_clause = None;
        let mut ty = i.self_ty.clone();
        PathMap.visit_type_mut(&mut ty);
        let (_, path, _) = i.trait_.clone().unwrap();
        let mut arg = path.segments.last().unwrap().arguments.clone();
        PathMap.visit_path_arguments_mut(&mut arg);
        for partial in [false, true] {
            let tr = match (mutable, partial) { (false, false) => "Index_", (false, true) => "IndexP_", (true, false) => "IndexMut_", (true, true) => "IndexMutP_" };
            self.out.push_str(&format!("impl{} crate::idx::{}{} for {} {} {{\n", pp::print(gens.to_token_stream(), &[]), tr, pp::print(arg.to_token_stream(), &[]).trim(), pp::print(ty.to_token_stream(), &[]), wher));
            for it in &i.items {
                match it {
                    ImplItem::Type(t) => {
                        let mut t = t.clone();
                        t.attrs.clear();
                        PathMap.visit_impl_item_type_mut(&mut t);
                        self.out.push_str(&pp::print(t.to_token_stream(), &[]));
                        self.out.push('\n');
                    }
                    ImplItem::Fn(f) => {
                        let n = f.sig.ident.to_string();
                        let k = format!("{key}::{n}{}", if partial { " (panics)" } else { "" });
                        self.idx = Some(partial);
                        let rn = format!("{n}_p");
                        self.emit_fn(&k, file, &f.sig, &f.block, Some(base_ident(&i.self_ty)), imports, true, false, if partial { Some(&rn) } else { None }, true);
                        self.idx = None;
                    }
                    _ => {}
                }
            }
            self.out.push_str("}\n");
        }
    }

    fn emit_derives(&mut self, name: &str, g: &Generics, d: &[String], shape: DeriveShape) {
        let mut g = g.clone();
        fix_generics(&mut g, false);
        let (ig, tg, _) = g.split_for_impl();
        let ig = pp::print(ig.to_token_stream(), &[]);
        let tg = pp::print(tg.to_token_stream(), &[]);
        if d.iter().any(|x| x == "Clone") && name != "BoundedRangeIter__" {
            let body = if d.iter().any(|x| x == "Copy") {
                "*self".to_string()
            } else {
                match &shape {
                    DeriveShape::Struct(Fields::Named(f)) => {
                        let fs: Vec<String> = f.named.iter().map(|f| { let n = f.ident.as_ref().unwrap(); format!("{n}: self.{n}.dup()") }).collect();
                        format!("{name} {{ {} }}", fs.join(", "))
                    }
                    DeriveShape::Struct(Fields::Unnamed(f)) => {
                        let fs: Vec<String> = (0..f.unnamed.len()).map(|i| format!("self.{i}.dup()")).collect();
                        format!("{name}({})", fs.join(", "))
                    }
                    DeriveShape::Struct(Fields::Unit) => name.to_string(),
                    DeriveShape::Enum(vs) => {
                        let mut s = "match self { ".to_string();
                        for v in vs {
                            let n = &v.ident;
                            match &v.fields {
                                Fields::Unit => s += &format!("{name}::{n} => {name}::{n}, "),
                                Fields::Unnamed(f) => {
                                    let xs: Vec<String> = (0..f.unnamed.len()).map(|i| format!("x{i}")).collect();
                                    let ys: Vec<String> = xs.iter().map(|x| format!("{x}.dup()")).collect();
                                    s += &format!("{name}::{n}({}) => {name}::{n}({}), ", xs.join(","), ys.join(","));
                                }
                                Fields::Named(f) => {
                                    let xs: Vec<String> = f.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                                    let ys: Vec<String> = xs.iter().map(|x| format!("{x}: {x}.dup()")).collect();
                                    s += &format!("{name}::{n} {{ {} }} => {name}::{n} {{ {} }}, ", xs.join(","), ys.join(","));
                                }
                            }
                        }
                        s + "}"
                    }
                }
            };
            let key = format!("Clone for {name}::clone");
            let entry = self.g.db.fns.get(&key).map(|f| f.entry.clone()).unwrap_or_default();
            self.out.push_str(&format!("impl{ig} crate::shim::Dup for {name}{tg} {{\n//#FN derive(Clone) for {name} | derive\nfn dup(&self) -> (__r: Self)\n{{\n{entry}{body}\n}}\n//#END\n}}\n"));
            self.fns.push(FnRec { key: format!("derive(Clone) for {name}"), file: "derive".into(), ..Default::default() });
        }
        if d.iter().any(|x| x == "Eq") && !d.iter().any(|x| x == "PartialEq") && self.g.db.fns.contains_key(&format!("PartialEq for {name}::eq")) {
            self.out.push_str(&format!("impl{ig} Eq for {name}{tg} {{}}\n"));
        }
        if d.iter().any(|x| x == "PartialEq") {
            let body = match &shape {
                DeriveShape::Struct(Fields::Named(f)) => {
                    let fs: Vec<String> = f.named.iter().map(|f| { let n = f.ident.as_ref().unwrap(); format!("self.{n} == other.{n}") }).collect();
                    fs.join(" && ")
                }
                DeriveShape::Struct(Fields::Unnamed(f)) => {
                    let fs: Vec<String> = (0..f.unnamed.len()).map(|i| format!("self.{i} == other.{i}")).collect();
                    fs.join(" && ")
                }
                DeriveShape::Struct(Fields::Unit) => "true".into(),
                DeriveShape::Enum(vs) => {
                    let mut s = "match (self, other) { ".to_string();
                    for v in vs {
                        let n = &v.ident;
                        match &v.fields {
                            Fields::Unit => s += &format!("({name}::{n}, {name}::{n}) => true, "),
                            Fields::Unnamed(f) => {
                                let k = f.unnamed.len();
                                let xs: Vec<String> = (0..k).map(|i| format!("x{i}")).collect();
                                let ys: Vec<String> = (0..k).map(|i| format!("y{i}")).collect();
                                let es: Vec<String> = (0..k).map(|i| format!("*x{i} == *y{i}")).collect();
                                s += &format!("({name}::{n}({}), {name}::{n}({})) => {}, ", xs.join(","), ys.join(","), es.join(" && "));
                            }
                            Fields::Named(_) => s += "",
                        }
                    }
                    s + "_ => false }"
                }
            };
            let body = if body.is_empty() { "true".into() } else { body };
            let key = format!("PartialEq for {name}::eq");
            let entry = self.g.db.fns.get(&key).map(|f| f.entry.clone()).unwrap_or_default();
            let attr = self.g.db.fns.get(&key).map(|f| f.attr.clone()).unwrap_or_default();
            if self.g.db.fns.contains_key(&key) {
                self.out.push_str(&format!("impl{ig} PartialEq for {name}{tg} {{\n//#FN derive(PartialEq) for {name} | derive\n{attr}fn eq(&self, other: &Self) -> (__r: bool)\n{{\nbroadcast use crate::specs::group_all;\nbroadcast use crate::shim::group_point;\n{entry}{body}\n}}\n//#END\n}}\nimpl{ig} Eq for {name}{tg} {{}}\n"));
                self.fns.push(FnRec { key: format!("derive(PartialEq) for {name}"), file: "derive".into(), ..Default::default() });
            }
        }
    }

    /// a trait declaration with contracts; a line `$FN(Trait::method)` stands for the provided method
    fn emit_trait_txt(&mut self, t: &str, m: &FileMod, imports: &BTreeSet<String>) {
        for l in t.lines() {
            let k = l.trim().strip_prefix("$FN(").and_then(|r| r.strip_suffix(")"));
            let Some(k) = k else {
                self.out.push_str(l);
                self.out.push('\n');
                continue;
            };
            let (tn, mn) = k.split_once("::").unwrap();
            let f = m.items.iter().find_map(|i| match i {
                Item::Trait(t) if t.ident == tn => t.items.iter().find_map(|x| match x {
                    TraitItem::Fn(f) if f.sig.ident == mn => Some(f.clone()),
                    _ => None,
                }),
                _ => None,
            });
            match f {
                Some(TraitItemFn { sig, default: Some(b), .. }) => self.emit_fn(k, &m.file, &sig, &b, None, imports, false, false, None, false),
                _ => self.notes.push(format!("{k} has no provided body")),
            }
        }
    }

    fn emit_mod(&mut self, m: &FileMod, top: bool, traits_txt: &BTreeMap<String, String>) {
        let mut imports = BTreeSet::new();
        let mut uses = String::new();
        for it in &m.items {
            if let Item::Use(u) = it {
                if is_cfg_out(&u.attrs) {
                    continue;
                }
                let s = u.tree.to_token_stream().to_string().replace(' ', "");
                for t in CRATE_TRAITS {
                    if s.contains(t) && (s.starts_with("crate") || s.starts_with("super")) && contains_word(&s, t) {
                        imports.insert(t.to_string());
                    }
                }
                if s.starts_with("std") || s.starts_with("core") || s.starts_with("serde") || s.starts_with("alloc") {
                    if contains_word(&s, "PhantomData") {
                        uses.push_str("use std::marker::PhantomData;\n");
                    }
                    if contains_word(&s, "Ordering") {
                        uses.push_str("use std::cmp::Ordering;\n");
                    }
                    continue;
                }
                let mut u = u.clone();
                u.attrs.clear();
                uses.push_str(&u.to_token_stream().to_string());
                uses.push('\n');
            }
        }
        if imports.contains("Rangetools") {
            uses.push_str("use crate::RangetoolsExt;\n");
        }
        if !top {
            self.out.push_str(&format!("pub mod {} {{\n", m.name));
        }
        self.out.push_str("use vstd::prelude::*;\nuse vstd::std_specs::cmp::*;\nuse crate::shim::*;\nuse crate::specs::*;\n");
        if !top {
            self.out.push_str("use crate::*;\n");
        }
        if file_has_index(m) {
            self.out.push_str("use crate::idx::{StdIdx, StdIdxMut, CStr, CString, OsStr, OsString};\n");
        }
        self.out.push_str(&uses);
        let mut in_lib = imports.clone();
        if top {
            in_lib.insert("Rangetools".into());
        }
        self.out.push_str("verus! {\n");
        if let Some(t) = traits_txt.get(&m.name) {
            self.emit_trait_txt(t, m, &in_lib);
        }
        for it in &m.items {
            self.emit_item(it, &m.file, &in_lib);
        }
        self.out.push_str("} // verus!\n");
        for s in &m.subs {
            self.emit_mod(s, false, traits_txt);
        }
        if !top {
            self.out.push_str("}\n");
        }
    }
}

fn file_has_index(m: &FileMod) -> bool {
    m.items.iter().any(|i| matches!(i, Item::Impl(i) if i.trait_.as_ref().map(|(_, p, _)| ["Index", "IndexMut"].contains(&trait_key(p).0.as_str())).unwrap_or(false)))
}

fn contains_word(s: &str, w: &str) -> bool {
    s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == w)
}

enum DeriveShape {
    Struct(Fields),
    Enum(Vec<Variant>),
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn own_traits(m: &FileMod, o: &mut HashSet<String>) {
    for i in &m.items {
        if let Item::Trait(t) = i {
            o.insert(t.ident.to_string());
        }
    }
    m.subs.iter().for_each(|s| own_traits(s, o));
}

fn collect_inline(m: &FileMod, own: &HashSet<String>, db: &db::Db, inline: &mut HashMap<String, Vec<InlineFn>>, contracted: &mut HashSet<String>) {
    for it in &m.items {
        match it {
            Item::Fn(f) if !is_cfg_out(&f.attrs) => {
                if !db.fns.contains_key(&format!("::{}", f.sig.ident)) {
                    inline.entry(f.sig.ident.to_string()).or_default().push(InlineFn { self_ty: None, sig: f.sig.clone(), block: { let mut b = (*f.block).clone(); locals::inline_locals(&mut b); b } });
                }
            }
            Item::Impl(i) if i.trait_.is_none() => {
                let ty = base_ident(&i.self_ty);
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        let k = format!("{ty}::{}", f.sig.ident);
                        if !db.fns.contains_key(&k) {
                            let mut b = f.block.clone();
                            strip_attrs_block(&mut b);
                            locals::inline_locals(&mut b);
                            inline.entry(f.sig.ident.to_string()).or_default().push(InlineFn { self_ty: Some(ty.clone()), sig: f.sig.clone(), block: b });
                        } else {
                            contracted.insert(f.sig.ident.to_string());
                        }
                    }
                }
            }
            Item::Impl(i) if i.trait_.as_ref().map_or(false, |(_, p, _)| own.contains(&trait_key(p).0) && !CRATE_TRAITS.contains(&trait_key(p).0.as_str())) => {
                // a trait of the crate's own making: its methods are helpers like any other
                let ty = base_ident(&i.self_ty);
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        if names::STD.contains(&f.sig.ident.to_string().as_str()) {
                            continue;
                        }
                        let mut b = f.block.clone();
                        strip_attrs_block(&mut b);
                        locals::inline_locals(&mut b);
                        inline.entry(f.sig.ident.to_string()).or_default().push(InlineFn { self_ty: Some(ty.clone()), sig: f.sig.clone(), block: b });
                    }
                }
            }
            Item::Impl(i) => {
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        contracted.insert(f.sig.ident.to_string());
                    }
                }
            }
            Item::Trait(t) if CRATE_TRAITS.contains(&t.ident.to_string().as_str()) => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        contracted.insert(f.sig.ident.to_string());
                    }
                }
            }
            _ => {}
        }
    }
    for s in &m.subs {
        collect_inline(s, own, db, inline, contracted);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, con, out, js) = (PathBuf::from(&a[1]), PathBuf::from(&a[2]), &a[3], &a[4]);
    // functions to take at their contract (bounded stand-in): one key per line
    // "key" puts a function aside; "key<TAB>n" starts from its n-th set of loop invariants
    let directives: Vec<String> = a.get(5).map(|p| std::fs::read_to_string(p).unwrap().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()).unwrap_or_default();
    let opaque: HashSet<String> = directives.iter().filter(|l| !l.contains('\t')).cloned().collect();
    let variants: HashMap<String, usize> = directives.iter().filter_map(|l| l.split_once('\t')).map(|(k, n)| (k.to_string(), n.parse().unwrap())).collect();
    let mut root = load(&src.join("lib.rs"), "lib", &src, &src);
    if std::env::var("RTX_NAMES").is_ok() {
        print!("{}", names::dump(&root));
        return;
    }
    norm::consts(&mut root);
    let renamed = names::restore(&mut root, &std::fs::read_to_string(con.join("names.txt")).unwrap_or_default());
    let db = db::load(&con);
    let mut inline = HashMap::new();
    let mut contracted = HashSet::new();
    let mut own = HashSet::new();
    own_traits(&root, &mut own);
    collect_inline(&root, &own, &db, &mut inline, &mut contracted);
    let mut assoc = HashMap::new();
    fn collect_assoc(m: &FileMod, out: &mut HashMap<String, HashMap<String, Type>>) {
        for it in &m.items {
            if let Item::Impl(i) = it {
                if i.trait_.as_ref().map(|(_, p, _)| trait_key(p).0 == "Iterator").unwrap_or(false) {
                    for x in &i.items {
                        if let ImplItem::Type(t) = x {
                            out.entry(base_ident(&i.self_ty)).or_default().insert(t.ident.to_string(), t.ty.clone());
                        }
                    }
                }
            }
        }
        for s in &m.subs {
            collect_assoc(s, out);
        }
    }
    collect_assoc(&root, &mut assoc);
    let keys: BTreeSet<String> = db.fns.keys().cloned().collect();
    let mut fields = HashMap::new();
    fn collect_fields(m: &FileMod, o: &mut HashMap<(String, String), String>) {
        for i in &m.items {
            if let Item::Struct(s) = i {
                for (k, f) in s.fields.iter().enumerate() {
                    let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(k.to_string());
                    o.insert((s.ident.to_string(), n), base_ident(&f.ty));
                }
            }
        }
        m.subs.iter().for_each(|s| collect_fields(s, o));
    }
    collect_fields(&root, &mut fields);
    let mut g = Gen { g: Global { db, inline, contracted, assoc, fields }, out: String::new(), fns: vec![], dropped: vec![], notes: vec![], derived: Default::default(), provided: provided(&std::fs::read_to_string(con.join("trait_rangetools.rs")).unwrap_or_default()), opaque, variants, idx: None };
    let rd = |n: &str| std::fs::read_to_string(con.join(n)).unwrap();
    let mut traits = BTreeMap::new();
    for (m, f) in [("lib", "trait_rangetools.rs"), ("intersection", "trait_intersection.rs"), ("union", "trait_union.rs"), ("complement", "trait_complement.rs"), ("step", "trait_step.rs")] {
        traits.insert(m.to_string(), rd(f));
    }
    g.out.push_str("#![allow(unused, non_snake_case, non_camel_case_types)]\n#![verifier::allow(autoderive_clone_without_spec)]\n");
    // the implementations::* modules have the same names as the trait modules
    fn rename(m: &mut FileMod) {
        for s in m.subs.iter_mut() {
            if m.name == "implementations" {
                if ["intersection", "union", "complement"].contains(&s.name.as_str()) {
                    s.name = format!("impl_{}", s.name);
                }
            }
            rename(s);
        }
    }
    let mut root = root;
    rename(&mut root);
    g.notes.extend(EXPAND_NOTES.lock().unwrap().drain(..));
    g.emit_mod(&root, true, &traits);
    g.out.push_str("pub mod shim {\n");
    g.out.push_str(&rd("shim.rs"));
    g.out.push_str("}\npub mod specs {\n");
    g.out.push_str(&rd("specs.rs"));
    g.out.push_str("}\npub mod theorems {\n");
    g.out.push_str(&rd("theorems.rs"));
    g.out.push_str("}\npub mod idx {\n");
    g.out.push_str(&rd("index.rs"));
    g.out.push_str("}\nfn main() {}\n");
    std::fs::write(out, &g.out).unwrap();
    let seen: BTreeSet<String> = g.fns.iter().map(|f| f.key.clone()).collect();
    let missing: Vec<String> = keys.iter().filter(|k| {
        let alt = k.strip_suffix("::eq").map(|s| format!("derive({})", s.replace(" for", ") for").replace("derive(", ""))).unwrap_or_default();
        let d1 = k.strip_prefix("PartialEq for ").and_then(|s| s.strip_suffix("::eq")).map(|s| format!("derive(PartialEq) for {s}"));
        let d2 = k.strip_prefix("Clone for ").and_then(|s| s.strip_suffix("::clone")).map(|s| format!("derive(Clone) for {s}"));
        let _ = alt;
        !k.starts_with("*::") && !seen.contains(*k) && !d1.map(|d| seen.contains(&d)).unwrap_or(false) && !d2.map(|d| seen.contains(&d)).unwrap_or(false)
    }).cloned().collect();
    let owners: BTreeMap<String, String> = g.g.db.fns.iter().map(|(k, v)| (k.clone(), v.owner.clone())).collect();
    let opaque2 = g.opaque.clone();
    let fns: Vec<serde_json::Value> = g.fns.iter().map(|f| serde_json::json!({
        "key": f.key, "file": f.file, "line": f.line, "loops": f.loops, "want_loops": f.want_loops, "variant": f.variant, "reshaped": f.reshaped, "more": f.more,
        "problems": f.problems, "inlined": f.inlined, "opaque": opaque2.contains(&f.key), "hash": format!("{:016x}", f.body_hash),
        "owner": owners.get(&f.key).cloned().unwrap_or_default(),
    })).collect();
    let j = serde_json::json!({ "fns": fns, "dropped": g.dropped, "renamed": renamed, "notes": g.notes, "missing": missing, "derived": g.derived });
    std::fs::write(js, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
