//! Search for a failing input of one property on the real code.
//!   search PROPERTY quick|thorough SEED OUT.json
//! exit 0: none found; 1: found (OUT.json describes it).
mod elems;
mod rng;
mod sets;
mod vals;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub cases: u64,
    pub skipped: u64,
    pub found: Option<(String, String)>,
    pub what: Vec<String>,
    pub t0: Instant,
    trace: Option<std::fs::File>,
}
static TICK: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// run `f`, turning a panic into its message
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
impl Ctx {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick }
    }
    pub fn done(&self) -> bool {
        self.found.is_some() || self.t0.elapsed() > Duration::from_secs(if self.thorough { 600 } else { 60 })
    }
    /// one case; `label` is only rendered when needed
    pub fn case(&mut self, label: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if self.found.is_some() {
            return;
        }
        self.cases += 1;
        TICK.fetch_add(1, Ordering::Relaxed);
        if let Some(t) = &mut self.trace {
            use std::io::{Seek, Write};
            let l = label();
            let _ = t.set_len(0);
            let _ = t.rewind();
            let _ = t.write_all(l.as_bytes());
            *CURRENT.lock().unwrap() = l;
        }
        match quiet(f) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.found = Some((label(), e)),
            Err(p) => self.found = Some((label(), format!("panicked: {p}"))),
        }
    }
    /// make an input; a panic here belongs to another property
    pub fn make<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        TICK.fetch_add(1, Ordering::Relaxed);
        // (nor is a hang or an abort here this property's)
        if let Some(t) = &mut self.trace {
            let _ = t.set_len(0);
            CURRENT.lock().unwrap().clear();
        }
        match quiet(f) {
            Ok(r) => Some(r),
            Err(_) => {
                self.skipped += 1;
                None
            }
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.what.push(s.into());
    }
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn report(out: &str, prop: &str, cases: u64, skipped: u64, what: &[String], found: &Option<(String, String)>, secs: f64) {
    let f = match found {
        None => "null".to_string(),
        Some((i, d)) => format!("{{\"input\": {}, \"observed\": {}}}", esc(i), esc(d)),
    };
    let w: Vec<String> = what.iter().map(|s| esc(s)).collect();
    let t = format!("{{\"property\": {}, \"cases\": {cases}, \"skipped\": {skipped}, \"explored\": [{}], \"seconds\": {secs:.3}, \"found\": {f}}}\n", esc(prop), w.join(", "));
    std::fs::write(out, t).unwrap();
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, thorough, seed, out) = (a[1].clone(), a[2] == "thorough", a[3].parse::<u64>().unwrap_or(1), a[4].clone());
    let trace = a.get(5).map(|p| std::fs::File::create(p).unwrap());
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let traced = trace.is_some();
    let (o2, p2) = (out.clone(), prop.clone());
    std::thread::spawn(move || {
        // a case that never ends
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let t = TICK.load(Ordering::Relaxed);
            if t != last {
                last = t;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(20) {
                let c = CURRENT.lock().unwrap().clone();
                if traced && !c.is_empty() {
                    report(&o2, &p2, t, 0, &[], &Some((c, "does not terminate (20 s)".into())), 0.0);
                }
                std::process::exit(42);
            }
        }
    });
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut c = Ctx { prop: prop.clone(), thorough, seed, cases: 0, skipped: 0, found: None, what: vec![], t0: Instant::now(), trace };
        match prop.as_str() {
            "C01" => sets::c01(&mut c),
            "C02" => sets::c02(&mut c),
            "C03" => sets::c03(&mut c),
            "C04" => sets::c04(&mut c),
            "C05" => sets::c05(&mut c),
            "C06" => sets::c06(&mut c),
            "C07" => sets::c07(&mut c),
            "C08" => sets::c08(&mut c),
            "C09" => elems::c09(&mut c),
            "C10" => elems::c10(&mut c),
            "C11" => elems::c11(&mut c),
            "C12" => elems::c12(&mut c),
            "C13" => elems::c13(&mut c),
            "C14" => elems::c14(&mut c),
            "C15" => elems::c15(&mut c),
            "C16" => sets::c16(&mut c),
            _ => panic!("unknown property"),
        }
        report(&out, &prop, c.cases, c.skipped, &c.what, &c.found, c.t0.elapsed().as_secs_f64());
        if let Some((i, d)) = &c.found {
            println!("FOUND {i} :: {d}");
            std::process::exit(1);
        }
        println!("none in {} cases ({} skipped), {:.1}s", c.cases, c.skipped, c.t0.elapsed().as_secs_f64());
        std::process::exit(0);
    });
    let _ = h.unwrap().join();
    std::process::exit(43);
}
