//! Contract database: the contracts, loop invariants and proof hints written by
//! hand in /verif/contracts/*.spec, keyed by function (never by line or file).
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct LoopSpec {
    pub kind: String,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub before: String,
    pub after: String,
}

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub attr: String,
    pub owner: String,
    pub loops: Vec<LoopSpec>,
    /// further sets of loop invariants, for other ways of writing the same function
    pub variants: Vec<Variant>,
}

#[derive(Default, Debug, Clone)]
pub struct Variant {
    /// a stronger contract that this way of writing the function needs (checked at its callers too)
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub loops: Vec<LoopSpec>,
}

impl FnSpec {
    fn last_loops(&mut self) -> &mut Vec<LoopSpec> {
        match self.variants.last_mut() {
            Some(v) => &mut v.loops,
            None => &mut self.loops,
        }
    }
    fn last_entry(&mut self) -> &mut String {
        match self.variants.last_mut() {
            Some(v) => &mut v.entry,
            None => &mut self.entry,
        }
    }
    fn last_exit(&mut self) -> &mut String {
        match self.variants.last_mut() {
            Some(v) => &mut v.exit,
            None => &mut self.exit,
        }
    }
    /// the contract with its n-th set of loop invariants; entry text is added to the common one
    pub fn with_variant(&self, n: usize) -> FnSpec {
        let mut s = self.clone();
        if n > self.variants.len() {
            s.loops.clear();
        } else if n > 0 {
            let v = &self.variants[n - 1];
            s.loops = v.loops.clone();
            if !v.spec.is_empty() {
                s.spec = v.spec.clone();
            }
            s.entry.push_str(&v.entry);
            s.exit.push_str(&v.exit);
        }
        s
    }
}

#[derive(Default, Debug)]
pub struct Db {
    pub fns: BTreeMap<String, FnSpec>,
    pub members: BTreeMap<String, String>,
    pub bounds: BTreeMap<String, String>,
}

pub fn load(dir: &std::path::Path) -> Db {
    let mut db = Db::default();
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map(|e| e == "spec").unwrap_or(false))
        .collect();
    files.sort();
    for f in files {
        parse(&std::fs::read_to_string(&f).unwrap(), &mut db);
    }
    db
}

fn parse(s: &str, db: &mut Db) {
    enum Cur {
        None,
        Fn(Vec<String>),
        Impl(String),
    }
    let mut cur = Cur::None;
    let mut section = String::new();
    for line in s.lines() {
        if line.starts_with("##") {
            continue;
        }
        if let Some(rest) = line.strip_prefix("@@ ") {
            let rest = rest.trim();
            if let Some(k) = rest.strip_prefix("fn ") {
                let keys: Vec<String> = k.split('|').map(|x| x.trim().to_string()).collect();
                for k in &keys {
                    assert!(!db.fns.contains_key(k), "duplicate contract {k}");
                    db.fns.insert(k.clone(), FnSpec::default());
                }
                cur = Cur::Fn(keys);
            } else if let Some(k) = rest.strip_prefix("impl ") {
                cur = Cur::Impl(k.trim().to_string());
            } else {
                panic!("bad header {line}");
            }
            section.clear();
            continue;
        }
        if let Some(rest) = line.strip_prefix('@') {
            let rest = rest.trim();
            match &cur {
                Cur::Fn(keys) => {
                    for k in keys {
                        let e = db.fns.get_mut(k).unwrap();
                        if let Some(r) = rest.strip_prefix("ret ") {
                            e.ret = Some(r.trim().into());
                        } else if let Some(r) = rest.strip_prefix("owner ") {
                            e.owner = r.trim().into();
                        } else if let Some(r) = rest.strip_prefix("loop ") {
                            e.last_loops().push(LoopSpec { kind: r.trim().into(), ..Default::default() });
                        } else if rest == "variant" {
                            e.variants.push(Variant::default());
                        }
                    }
                    section = rest.split(' ').next().unwrap().into();
                }
                Cur::Impl(_) => section = rest.split(' ').next().unwrap().into(),
                Cur::None => panic!("section outside entry: {line}"),
            }
            continue;
        }
        match &cur {
            Cur::Fn(keys) => {
                for k in keys {
                    let e = db.fns.get_mut(k).unwrap();
                    let tgt = match section.as_str() {
                        "spec" => match e.variants.last_mut() {
                            Some(v) => &mut v.spec,
                            None => &mut e.spec,
                        },
                        "entry" => e.last_entry(),
                        "exit" => e.last_exit(),
                        "attr" => &mut e.attr,
                        "loop" => &mut e.last_loops().last_mut().unwrap().spec,
                        "loop_entry" => &mut e.last_loops().last_mut().unwrap().entry,
                        "loop_exit" => &mut e.last_loops().last_mut().unwrap().exit,
                        "loop_before" => &mut e.last_loops().last_mut().unwrap().before,
                        "loop_after" => &mut e.last_loops().last_mut().unwrap().after,
                        "" | "ret" | "owner" if line.trim().is_empty() => continue,
                        x => panic!("text in section {x:?}: {line}"),
                    };
                    tgt.push_str(line);
                    tgt.push('\n');
                }
            }
            Cur::Impl(k) => match section.as_str() {
                "members" => {
                    let t = db.members.entry(k.clone()).or_default();
                    t.push_str(line);
                    t.push('\n');
                }
                "bounds" => {
                    let t = db.bounds.entry(k.clone()).or_default();
                    t.push_str(line);
                    t.push('\n');
                }
                _ if line.trim().is_empty() => {}
                x => panic!("text in section {x:?}: {line}"),
            },
            Cur::None => {}
        }
    }
}
