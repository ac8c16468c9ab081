//! Steppable elements: stepping, iteration, conversions back to std, indexing.
use crate::rng::Rng;
use crate::{quiet, Ctx};
use rangetools::{
    BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, LowerBoundedSet, Rangetools, Step, UnboundedRange, UpperBound,
    UpperBoundedRange,
};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

/// an element type whose values are numbered consecutively
pub trait El: Copy + Ord + Debug + Step + 'static {
    const NAME: &'static str;
    const FIRST: i128;
    const LAST: i128;
    fn at(p: i128) -> Self;
    fn pos(self) -> i128;
}
macro_rules! el { ($($t:ident)*) => { $(impl El for $t {
    const NAME: &'static str = stringify!($t);
    const FIRST: i128 = $t::MIN as i128;
    const LAST: i128 = $t::MAX as i128;
    fn at(p: i128) -> Self { p as $t }
    fn pos(self) -> i128 { self as i128 }
})* } }
el!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize i128);
impl El for u128 {
    const NAME: &'static str = "u128";
    const FIRST: i128 = i128::MIN;
    const LAST: i128 = i128::MAX;
    fn at(p: i128) -> Self { (p as u128) ^ (1 << 127) }
    fn pos(self) -> i128 { (self ^ (1 << 127)) as i128 }
}
impl El for char {
    const NAME: &'static str = "char";
    const FIRST: i128 = 0;
    const LAST: i128 = 0x10FFFF - 0x800;
    fn at(p: i128) -> Self { char::from_u32(if p < 0xD800 { p as u32 } else { p as u32 + 0x800 }).unwrap() }
    fn pos(self) -> i128 { if (self as u32) < 0xD800 { self as u32 as i128 } else { self as u32 as i128 - 0x800 } }
}
fn dist(a: i128, b: i128) -> u128 {
    b.wrapping_sub(a) as u128
}
fn off(a: i128, n: u128) -> i128 {
    (a as u128).wrapping_add(n) as i128
}

// ---------------------------------------------------------------- C10
fn steps<T: El>(c: &mut Ctx, a: T, n: usize) {
    c.case(|| format!("stepping {a:?} ({}) by {n}", T::NAME), || {
        let up = if n as u128 <= dist(a.pos(), T::LAST) { Some(T::at(off(a.pos(), n as u128))) } else { None };
        let down = if n as u128 <= dist(T::FIRST, a.pos()) { Some(T::at(off(a.pos(), (n as u128).wrapping_neg()))) } else { None };
        let got = T::forward_checked(a, n);
        if got != up {
            return Err(format!("forward_checked gives {got:?}, must be {up:?}"));
        }
        let got = T::backward_checked(a, n);
        if got != down {
            return Err(format!("backward_checked gives {got:?}, must be {down:?}"));
        }
        if let Some(u) = up {
            let got = T::forward(a, n);
            if got != u {
                return Err(format!("forward gives {got:?}, must be {u:?}"));
            }
            let d = T::steps_between(&a, &u);
            if d != Some(n) {
                return Err(format!("steps_between({a:?}, {u:?}) gives {d:?}"));
            }
        }
        if let Some(d) = down {
            let got = T::backward(a, n);
            if got != d {
                return Err(format!("backward gives {got:?}, must be {d:?}"));
            }
        }
        Ok(())
    });
}
fn between<T: El>(c: &mut Ctx, a: T, b: T) {
    c.case(|| format!("steps_between({a:?}, {b:?}) ({})", T::NAME), || {
        let want = if a > b { None } else { usize::try_from(dist(a.pos(), b.pos())).ok() };
        let got = T::steps_between(&a, &b);
        if got == want { Ok(()) } else { Err(format!("gives {got:?}, must be {want:?}")) }
    });
}
fn edges<T: El>() -> Vec<T> {
    let mut v = vec![];
    for k in 0..4u128 {
        v.push(off(T::FIRST, k));
        v.push(off(T::LAST, k.wrapping_neg()));
    }
    for p in [0i128, 1, -1, 2, -2, 126, 127, 128, -127, -128, 255, 256, 0xD7FE, 0xD7FF, 0xD800, 0xD801, 0xDFFF, 0xE000, 0xE001, 0xFFFF, 0x10000, i64::MAX as i128, u64::MAX as i128, u64::MAX as i128 + 1, i64::MIN as i128] {
        if p >= T::FIRST && p <= T::LAST {
            v.push(p);
        }
    }
    v.sort();
    v.dedup();
    v.into_iter().map(T::at).collect()
}
fn c10_for<T: El>(c: &mut Ctx, r: &mut Rng) {
    let es = edges::<T>();
    let mut ns = vec![0usize, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257, 300, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xD7FF, 0xD800, 0xD801, 0xFFFF, 0x10000, 0x10001, 0x10F7FE, 0x10F7FF, 0x10F800, 0x10FFFF, 0x110000];
    for s in [31, 32, 33, 47, 62, 63] {
        for d in [-2i64, -1, 0, 1] {
            ns.push((1u64 << s).wrapping_add(d as u64) as usize);
        }
    }
    for d in 0..4 {
        ns.push(usize::MAX - d);
    }
    for &a in &es {
        for &n in &ns {
            steps(c, a, n);
            if c.found.is_some() { return; }
        }
        for &b in &es {
            between(c, a, b);
            // exactly as far as the other, and one more
            let d = dist(a.pos().min(b.pos()), a.pos().max(b.pos()));
            for n in [d.wrapping_sub(1), d, d.wrapping_add(1)] {
                if let Ok(n) = usize::try_from(n) {
                    steps(c, a, n);
                }
            }
        }
    }
    let span = dist(T::FIRST, T::LAST);
    let pick = |r: &mut Rng| {
        let x = (r.next() as u128) << 64 | r.next() as u128;
        T::at(off(T::FIRST, if span == u128::MAX { x } else { x % (span + 1) }))
    };
    for _ in 0..c.n(3_000, 300_000) {
        let (a, b) = (pick(r), pick(r));
        between(c, a, b);
        let d = dist(a.pos().min(b.pos()), a.pos().max(b.pos()));
        if let Ok(n) = usize::try_from(d) {
            steps(c, a, n);
        }
        let sh = r.below(64);
        steps(c, a, (r.next() >> sh) as usize);
        if c.done() { return; }
    }
}
pub fn c10(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    macro_rules! each { ($($t:ident)*) => { $(c10_for::<$t>(c, &mut r); if c.found.is_some() { return; })* } }
    each!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128 char);
    for a in i8::MIN..=i8::MAX {
        for n in 0..600 {
            steps(c, a, n);
            steps(c, a as u8, n);
        }
        for b in i8::MIN..=i8::MAX {
            between(c, a, b);
            between(c, a as u8, b as u8);
        }
    }
    for p in (0..=char::LAST).step_by(if c.thorough { 1 } else { 7 }).chain(0xD780..0xD880) {
        for n in [1, 2, 0x800] {
            steps(c, char::at(p), n);
        }
        between(c, char::at(p), char::MAX);
        between(c, '\0', char::at(p));
    }
    c.note("8-bit types exhaustively; edges and random values of every integer type and char");
}

// ---------------------------------------------------------------- C09
fn lo_pos<T: El>(v: T, inc: bool) -> Option<i128> {
    if inc { Some(v.pos()) } else if v.pos() == T::LAST { None } else { Some(v.pos() + 1) }
}
fn hi_pos<T: El>(v: T, inc: bool) -> Option<i128> {
    if inc { Some(v.pos()) } else if v.pos() == T::FIRST { None } else { Some(v.pos() - 1) }
}
fn lbound<T>(v: T, inc: bool) -> LowerBound<T> {
    if inc { LowerBound::included(v) } else { LowerBound::excluded(v) }
}
fn ubound<T>(v: T, inc: bool) -> UpperBound<T> {
    if inc { UpperBound::included(v) } else { UpperBound::excluded(v) }
}
/// first and last element, when there is one
fn span<T: El>(l: T, li: bool, u: T, ui: bool) -> Option<(i128, i128)> {
    match (lo_pos(l, li), hi_pos(u, ui)) {
        (Some(a), Some(b)) if a <= b => Some((a, b)),
        _ => None,
    }
}
fn back<T: El + Default>(c: &mut Ctx, l: T, li: bool, u: T, ui: bool) {
    let name = || format!("BoundedRange<{}>::new({:?}, {:?}) to std", T::NAME, lbound(l, li), ubound(u, ui));
    let s = span(l, li, u, ui);
    c.case(|| format!("{} RangeInclusive", name()), || {
        let r = RangeInclusive::from(BoundedRange::new(lbound(l, li), ubound(u, ui)));
        let ok = match s {
            None => std::ops::RangeInclusive::is_empty(&r),
            Some((a, b)) => r == (T::at(a)..=T::at(b)),
        };
        if ok { Ok(()) } else { Err(format!("gives {r:?}, must contain positions {s:?}")) }
    });
    if s.map(|x| x.1 == T::LAST).unwrap_or(false) {
        return; // no half-open range has the last element
    }
    c.case(|| format!("{} Range", name()), || {
        let r = Range::from(BoundedRange::new(lbound(l, li), ubound(u, ui)));
        let ok = match s {
            None => std::ops::Range::is_empty(&r),
            Some((a, b)) => r == (T::at(a)..T::at(b + 1)),
        };
        if ok { Ok(()) } else { Err(format!("gives {r:?}, must contain positions {s:?}")) }
    });
}
fn back_half<T: El>(c: &mut Ctx, v: T, inc: bool) {
    c.case(|| format!("{:?} ({}) to std", LowerBoundedRange::new(lbound(v, inc)), T::NAME), || match lo_pos(v, inc) {
        Some(p) => {
            let r = RangeFrom::from(LowerBoundedRange::new(lbound(v, inc)));
            if r.start.pos() == p { Ok(()) } else { Err(format!("gives {r:?}")) }
        }
        None => Ok(()),
    });
    c.case(|| format!("{:?} ({}) to std", UpperBoundedRange::new(ubound(v, inc)), T::NAME), || {
        let x = UpperBoundedRange::new(ubound(v, inc));
        match hi_pos(v, inc) {
            Some(p) => {
                let r = RangeToInclusive::from(x);
                if r.end.pos() != p { return Err(format!("gives {r:?}")); }
                if p < T::LAST {
                    let r = RangeTo::from(x);
                    if r.end.pos() != p + 1 { return Err(format!("gives {r:?}")); }
                }
                Ok(())
            }
            None => {
                let r = RangeTo::from(x);
                if r.end.pos() == T::FIRST { Ok(()) } else { Err(format!("gives {r:?}")) }
            }
        }
    });
}
fn c09_for<T: El + Default>(c: &mut Ctx) {
    let es = edges::<T>();
    for &a in &es {
        for i in [false, true] {
            back_half(c, a, i);
            for &b in &es {
                for j in [false, true] {
                    back(c, a, i, b, j);
                }
            }
        }
    }
    c.case(|| format!("EmptyRange<{}> to std", T::NAME), || {
        let r = Range::<T>::from(EmptyRange::new());
        let s = RangeInclusive::<T>::from(EmptyRange::new());
        if std::ops::Range::is_empty(&r) && std::ops::RangeInclusive::is_empty(&s) { Ok(()) } else { Err(format!("gives {r:?}, {s:?}")) }
    });
}
pub fn c09(c: &mut Ctx) {
    macro_rules! each { ($($t:ident)*) => { $(c09_for::<$t>(c);)* } }
    each!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128 char);
    for a in i8::MIN..=i8::MAX {
        for i in [false, true] {
            for b in (i8::MIN..=i8::MAX).step_by(if c.thorough { 1 } else { 3 }) {
                for j in [false, true] {
                    back(c, a, i, b, j);
                    back(c, a as u8, i, b as u8, j);
                }
            }
        }
        if c.done() { return; }
    }
    c.case(|| "UnboundedRange to RangeFull".into(), || { let _ = RangeFull::from(UnboundedRange::new()); Ok(()) });
    c.note("every pair of bounds of the 8-bit types; edges of every integer type and char");
}

// ---------------------------------------------------------------- iteration
/// what is left, as runs of positions
#[derive(Clone, Debug)]
struct Left(VecDeque<(i128, i128)>);
impl Left {
    fn new(mut v: Vec<(i128, i128)>) -> Self {
        v.sort();
        let mut o: Vec<(i128, i128)> = vec![];
        for (a, b) in v {
            match o.last_mut() {
                Some(l) if a <= l.1 || a == l.1 + 1 => l.1 = l.1.max(b),
                _ => o.push((a, b)),
            }
        }
        Left(o.into())
    }
    fn next(&mut self) -> Option<i128> {
        let (a, b) = self.0.pop_front()?;
        if a < b { self.0.push_front((a + 1, b)); }
        Some(a)
    }
    fn next_back(&mut self) -> Option<i128> {
        let (a, b) = self.0.pop_back()?;
        if a < b { self.0.push_back((a, b - 1)); }
        Some(b)
    }
    fn nth(&mut self, mut n: u128) -> Option<i128> {
        while let Some((a, b)) = self.0.pop_front() {
            let d = dist(a, b);
            if n <= d {
                self.0.push_front((off(a, n), b));
                return self.next();
            }
            n -= d;
            if n == 0 { unreachable!() }
            n -= 1;
        }
        None
    }
    fn nth_back(&mut self, mut n: u128) -> Option<i128> {
        while let Some((a, b)) = self.0.pop_back() {
            let d = dist(a, b);
            if n <= d {
                self.0.push_back((a, off(b, n.wrapping_neg())));
                return self.next_back();
            }
            n -= d;
            n -= 1;
        }
        None
    }
    /// None: at least 2^128
    fn len(&self) -> Option<u128> {
        self.0.iter().try_fold(0u128, |s, (a, b)| s.checked_add(dist(*a, *b).checked_add(1)?))
    }
}
#[derive(Clone, Copy, Debug)]
enum Op { Next, Back, Nth(usize), NthBack(usize) }
fn op(r: &mut Rng, shortcuts: bool) -> Op {
    let n = |r: &mut Rng| match r.below(12) { 0 => r.next() as usize, 1 => r.below(1 << 20) as usize, 2 => 255 + r.below(3) as usize, _ => r.below(9) as usize };
    match r.below(if shortcuts { 4 } else { 2 }) {
        0 => Op::Next,
        1 => Op::Back,
        2 => Op::Nth(n(r)),
        _ => Op::NthBack(n(r)),
    }
}
fn drive<T: El, I>(mut it: I, mut m: Left, ops: &[Op], end: Option<u64>, wide: bool) -> Result<(), String>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone,
{
    for (k, o) in ops.iter().enumerate() {
        let (got, want) = match *o {
            Op::Next => (it.next(), m.next()),
            Op::Back => (it.next_back(), m.next_back()),
            Op::Nth(n) => (it.nth(n), m.nth(n as u128)),
            Op::NthBack(n) => (it.nth_back(n), m.nth_back(n as u128)),
        };
        let want = want.map(T::at);
        if got != want {
            return Err(format!("operation {k} ({o:?}) gives {got:?}, must be {want:?}"));
        }
        if end.is_some() {
            hint(&it, &m)?;
        }
    }
    let Some(e) = end else {
        // what is left comes out in order and then nothing
        if m.len().map(|n| n <= 2_000).unwrap_or(false) {
            let mut w = vec![];
            let mut t = m.clone();
            while let Some(p) = t.next() { w.push(T::at(p)); }
            consume(&it, &w, ops.len() % 8)?;
            while let Some(p) = m.next() {
                let got = it.next();
                if got != Some(T::at(p)) {
                    return Err(format!("then yields {got:?}, must be {:?}", T::at(p)));
                }
            }
            for _ in 0..2 {
                if let Some(x) = it.next() { return Err(format!("yields {x:?} after its end")); }
                if let Some(x) = it.next_back() { return Err(format!("yields {x:?} from the back after its end")); }
            }
        }
        return Ok(());
    };
    let few = m.len().map(|n| n <= 5_000).unwrap_or(false);
    if !few && (!wide || e == 0) {
        return Ok(()); // `last` steps through the last piece
    }
    let first = m.clone().next().map(T::at);
    let last = m.clone().next_back().map(T::at);
    let (what, got, want) = match e {
        0 => ("last", it.last(), last),
        1 => ("min", it.min(), first),
        2 => ("max", it.max(), last),
        3 | 4 => {
            if let Some(n) = m.len().and_then(|n| usize::try_from(n).ok()) {
                let got = if e == 3 { if few || wide { it.count() } else { n } } else { it.len() };
                if got != n { return Err(format!("{} gives {got}, must be {n}", if e == 3 { "count" } else { "len" })); }
            }
            return Ok(());
        }
        _ => return Ok(()),
    };
    if got != want { Err(format!("{what} gives {got:?}, must be {want:?}")) } else { Ok(()) }
}
/// the consuming methods a program would use instead of `next`
fn consume<T: El, I>(it: &I, w: &[T], way: usize) -> Result<(), String>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone,
{
    let i = it.clone();
    let mut v: Vec<T> = Vec::new();
    let (what, back) = match way {
        0 => { v = i.collect(); ("collect", false) }
        1 => { v = i.fold(v, |mut a, x| { a.push(x); a }); ("fold", false) }
        2 => { v = i.rfold(v, |mut a, x| { a.push(x); a }); ("rfold", true) }
        3 => { i.for_each(|x| v.push(x)); ("for_each", false) }
        4 => { v = i.rev().collect(); ("rev", true) }
        5 => { for x in i { v.push(x); } ("for", false) }
        6 => { let mut i = i; let _ = i.try_fold((), |_, x| { v.push(x); Some(()) }); ("try_fold", false) }
        _ => { let mut i = i; let _ = i.try_rfold((), |_, x| { v.push(x); Some(()) }); ("try_rfold", true) }
    };
    if back { v.reverse(); }
    if v != w { return Err(format!("{what} yields {v:?}, must be {w:?}")); }
    if let Some(x) = w.get(w.len() / 2) {
        let k = w.len() / 2;
        let mut i = it.clone();
        let ok = match way {
            0 => i.position(|y| y == *x) == Some(k) && i.next() == w.get(k + 1).copied(),
            1 => i.find(|y| y == x) == Some(*x) && i.next() == w.get(k + 1).copied(),
            2 => i.rfind(|y| y == x) == Some(*x) && i.next_back() == k.checked_sub(1).map(|j| w[j]),
            3 => i.any(|y| y == *x) && i.len() == w.len() - k - 1,
            4 => !i.all(|y| y != *x) && i.next() == w.get(k + 1).copied(),
            5 => i.rposition(|y| y == *x) == Some(k) && i.next_back() == k.checked_sub(1).map(|j| w[j]),
            6 => i.clone().step_by(2).eq(w.iter().copied().step_by(2)) && i.skip(k).eq(w[k..].iter().copied()),
            _ => i.clone().max_by(|a, b| a.pos().cmp(&b.pos())) == w.last().copied() && i.min_by_key(|a| a.pos()) == w.first().copied(),
        };
        if !ok { return Err(format!("position/find/any/step_by (way {way}) around {x:?} disagree with the elements {w:?}")); }
    }
    Ok(())
}
fn hint<I: Iterator>(it: &I, m: &Left) -> Result<(), String> {
    let h = it.size_hint();
    match m.len().and_then(|n| usize::try_from(n).ok()) {
        Some(n) => if h != (n, Some(n)) { return Err(format!("size_hint is {h:?} with {n} elements left")); },
        None => if h.1.is_some() { return Err(format!("size_hint is {h:?} with more than usize::MAX elements left")); },
    }
    Ok(())
}
fn pick<T: El>(r: &mut Rng, es: &[T]) -> T {
    let e = es[r.below(es.len() as u64) as usize].pos();
    let d = r.below(12) as i128 - 6;
    let p = e.checked_add(d).unwrap_or(e);
    if p < T::FIRST || p > T::LAST { T::at(e) } else { T::at(p) }
}
struct Rg<T> { l: T, li: bool, u: T, ui: bool }
fn rg<T: El>(r: &mut Rng, es: &[T]) -> Rg<T> {
    let l = pick(r, es);
    let u = match r.below(4) {
        0 => pick(r, es),
        _ => { let p = l.pos().checked_add(r.below(12) as i128 - 1).unwrap_or(T::LAST); T::at(p.clamp(T::FIRST, T::LAST)) }
    };
    Rg { l, li: r.below(2) == 0, u, ui: r.below(2) == 0 }
}
impl<T: El> Rg<T> {
    fn range(&self) -> BoundedRange<T> { BoundedRange::new(lbound(self.l, self.li), ubound(self.u, self.ui)) }
    fn span(&self) -> Option<(i128, i128)> { span(self.l, self.li, self.u, self.ui) }
}
fn iter_range<T: El>(c: &mut Ctx, r: &mut Rng, n: u64, short: bool, wide: bool) {
    let es = edges::<T>();
    for _ in 0..n {
        let g = rg(r, &es);
        let k = r.below(if wide { 3 } else { 14 });
        let mut ops: Vec<Op> = (0..k).map(|_| op(r, short)).collect();
        if !short && r.below(4) == 0 {
            ops = vec![Op::Next; 30];
        }
        let end = if short { Some(r.below(5)) } else { None };
        c.case(|| format!("iterating {:?} ({}) with {ops:?}{}", g.range(), T::NAME, end.map(|e| format!(" then {}", ["last", "min", "max", "count", "len"][e as usize])).unwrap_or_default()), || {
            drive(g.range().into_iter(), Left::new(g.span().into_iter().collect()), &ops, end, wide)
        });
        if c.done() { return; }
    }
}
fn mk_set<T: El>(r: &mut Rng, es: &[T]) -> (BoundedSet<T>, Vec<(i128, i128)>, String) {
    let k = r.below(6);
    let mut s = BoundedSet::empty();
    let mut m = vec![];
    let mut how = "BoundedSet::empty()".to_string();
    // several of them close together
    let base = pick(r, es);
    let near = r.below(2) == 0;
    for _ in 0..k {
        let mut g = rg(r, es);
        if near {
            let d = r.below(30) as i128 - 5;
            g.l = T::at(base.pos().checked_add(d).unwrap_or(base.pos()).clamp(T::FIRST, T::LAST));
            g.u = T::at(g.l.pos().checked_add(r.below(6) as i128).unwrap_or(T::LAST).clamp(T::FIRST, T::LAST));
        }
        s = Rangetools::union(s, g.range());
        how = format!("{how} ∪ {:?}", g.range());
        m.extend(g.span());
    }
    (s, m, how)
}
fn iter_set<T: El>(c: &mut Ctx, r: &mut Rng, n: u64, short: bool, wide: bool) {
    let es = edges::<T>();
    for _ in 0..n {
        let Some((s, m, how)) = c.make(|| mk_set(r, &es)) else { continue };
        let k = r.below(if wide { 3 } else { 18 });
        let mut ops: Vec<Op> = (0..k).map(|_| op(r, short)).collect();
        if !short && r.below(4) == 0 {
            ops = vec![if r.below(2) == 0 { Op::Next } else { Op::Back }; 40];
        }
        let end = if short { Some(r.below(5)) } else { None };
        c.case(|| format!("iterating {how} ({}) with {ops:?}{}", T::NAME, end.map(|e| format!(" then {}", ["last", "min", "max", "count", "len"][e as usize])).unwrap_or_default()), || {
            drive(s.clone().into_iter(), Left::new(m.clone()), &ops, end, wide)
        });
        if c.done() { return; }
    }
}
pub fn c11(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    let n = c.n(6_000, 300_000);
    macro_rules! each { ($($t:ident)*) => { $(iter_range::<$t>(c, &mut r, n, false, false); if c.done() { return; })* } }
    each!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128 char);
    for a in i8::MIN..=i8::MAX {
        for d in [0i128, 1, 2, 3, 255] {
            for (i, j) in [(false, false), (false, true), (true, false), (true, true)] {
                let g = Rg { l: a, li: i, u: i8::at((a as i128 + d).clamp(-128, 127)), ui: j };
                c.case(|| format!("iterating {:?}", g.range()), || {
                    let v: Vec<i8> = g.range().into_iter().collect();
                    let w: Vec<i8> = g.span().into_iter().flat_map(|(a, b)| a..=b).map(i8::at).collect();
                    let mut x: Vec<i8> = g.range().into_iter().rev().collect();
                    x.reverse();
                    if v == w && x == w { Ok(()) } else { Err(format!("yields {v:?} forwards, {x:?} backwards, must be {w:?}")) }
                });
            }
        }
    }
    c.case(|| "iterating EmptyRange".into(), || if EmptyRange::<i32>::new().into_iter().next().is_none() { Ok(()) } else { Err("yields".into()) });
    c.note(format!("{n} random ranges and step orders per element type; {}", "8-bit ranges forwards and backwards"));
}
pub fn c12(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    let n = c.n(5_000, 300_000);
    macro_rules! each { ($($t:ident)*) => { $(iter_set::<$t>(c, &mut r, n, false, false); if c.done() { return; })* } }
    each!(u8 i8 u16 i32 u64 i64 usize u128 i128 char);
    c.note(format!("{n} random sets and step orders per element type, seed {}", c.seed));
}
pub fn c13(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    let n = c.n(4_000, 200_000);
    macro_rules! each { ($w:expr, $n:expr; $($t:ident)*) => { $(
        iter_range::<$t>(c, &mut r, $n, true, $w); if c.done() { return; }
        iter_set::<$t>(c, &mut r, $n, true, $w); if c.done() { return; }
    )* } }
    each!(false, n; u8 i8 u16 i32 u64 i64 usize u128 i128 char);
    c.note(format!("{n} random ranges and sets per element type, partly consumed, seed {}", c.seed));
    // last: the end methods on ranges too long to step through
    each!(true, n / 4; u8 i8 u16 i32 u64 i64 usize isize u128 i128 char);
}
fn lower<T: El>(c: &mut Ctx, r: &mut Rng, n: u64) {
    let es = edges::<T>();
    for _ in 0..n {
        let (v, inc) = (pick(r, &es), r.below(2) == 0);
        let Some(lo) = lo_pos(v, inc) else { continue };
        let Some((s, mut m, mut how)) = c.make(|| mk_set(r, &es)) else { continue };
        let plain = r.below(3) == 0;
        if plain { m.clear(); how.clear(); }
        let l = LowerBoundedRange::new(lbound(v, inc));
        m.push((lo, T::LAST));
        let mut m = Left::new(m);
        let ops: Vec<Op> = (0..r.below(14)).map(|_| match r.below(3) { 0 => Op::Nth(r.below(12) as usize), _ => Op::Next }).collect();
        let ask_min = r.below(4) == 0;
        fn go<T: El>(mut it: impl Iterator<Item = T>, m: &mut Left, ops: &[Op], ask_min: bool) -> Result<(), String> {
            for (k, o) in ops.iter().enumerate() {
                let h = it.size_hint();
                if h.1.is_some() { return Err(format!("size_hint is {h:?}")); }
                let n = if let Op::Nth(n) = o { *n } else { 0 };
                // the element after the one asked for must exist
                let mut t = m.clone();
                t.nth(n as u128);
                if t.0.is_empty() { return Ok(()); }
                let got = if let Op::Nth(n) = o { it.nth(*n) } else { it.next() };
                let want = m.nth(n as u128).map(T::at);
                if got != want { return Err(format!("operation {k} ({o:?}) gives {got:?}, must be {want:?}")); }
            }
            if ask_min {
                let mut t = m.clone();
                let want = t.next().map(T::at);
                if !t.0.is_empty() {
                    let got = it.min();
                    if got != want { return Err(format!("min gives {got:?}, must be {want:?}")); }
                }
            }
            Ok(())
        }
        c.case(|| format!("iterating {l:?} ∪ {how} ({}) with {ops:?} (then min: {ask_min})", T::NAME), || {
            if plain {
                // `min` of std would step to the end; only the method of the iterator is meant
                go(l.into_iter(), &mut m, &ops, ask_min)
            } else {
                let x: LowerBoundedSet<T> = Rangetools::union(l, s);
                go(x.into_iter(), &mut m, &ops, ask_min)
            }
        });
        if c.done() { return; }
    }
}
pub fn c14(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    let n = c.n(5_000, 300_000);
    macro_rules! each { ($($t:ident)*) => { $(lower::<$t>(c, &mut r, n); if c.done() { return; })* } }
    each!(u8 i8 u16 i32 u64 i64 usize u128 i128 char);
    c.note(format!("{n} random ranges and sets per element type, seed {}", c.seed));
}

// ---------------------------------------------------------------- C15
fn same<A: PartialEq + Debug>(got: Result<A, String>, want: Result<A, String>) -> Result<(), String> {
    match (got, want) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("gives {a:?}, std gives {b:?}")),
    }
}
macro_rules! try_all {
    ($c:expr, $r:expr, $std:expr, $label:expr; $($name:literal : $make:expr),* $(,)?) => { $(
        $c.case(|| format!("{} indexed by {}", $name, $label), || {
            same(quiet(|| ($make)[$r].to_owned()), quiet(|| ($make)[$std].to_owned()))
        });
    )* };
}
macro_rules! try_mut {
    ($c:expr, $r:expr, $std:expr, $label:expr) => {{
        $c.case(|| format!("Vec and slice mutably indexed by {}", $label), || {
            let f = |x: &mut [i32]| x.iter_mut().for_each(|v| *v += 100);
            let v: Vec<i32> = (0..6).collect();
            same(quiet(|| { let mut a = v.clone(); f(&mut a[$r]); a }), quiet(|| { let mut a = v.clone(); f(&mut a[$std]); a }))?;
            same(quiet(|| { let mut a = v.clone(); f(&mut a.as_mut_slice()[$r]); a }), quiet(|| { let mut a = v.clone(); f(&mut a.as_mut_slice()[$std]); a }))
        });
        $c.case(|| format!("String and str mutably indexed by {}", $label), || {
            let s = "aébc漢z".to_string();
            same(quiet(|| { let mut a = s.clone(); a[$r].make_ascii_uppercase(); a }), quiet(|| { let mut a = s.clone(); a[$std].make_ascii_uppercase(); a }))?;
            same(quiet(|| { let mut a = s.clone(); a.as_mut_str()[$r].make_ascii_uppercase(); a }), quiet(|| { let mut a = s.clone(); a.as_mut_str()[$std].make_ascii_uppercase(); a }))
        });
    }};
}
macro_rules! must_panic {
    ($c:expr, $r:expr, $label:expr, $v:expr, $s:expr) => {
        $c.case(|| format!("Vec, slice, String and str indexed by {}", $label), || {
            let (mut v2, mut s2) = ($v.clone(), $s.clone());
            let ok = [
                quiet(|| $v[$r].len()).is_ok(), quiet(|| $v.as_slice()[$r].len()).is_ok(), quiet(|| $s[$r].len()).is_ok(), quiet(|| $s.as_str()[$r].len()).is_ok(),
                quiet(|| (&mut v2[$r]).len()).is_ok(), quiet(|| (&mut v2.as_mut_slice()[$r]).len()).is_ok(), quiet(|| (&mut s2[$r]).len()).is_ok(), quiet(|| (&mut s2.as_mut_str()[$r]).len()).is_ok(),
            ];
            if ok.contains(&true) { return Err("does not panic, although the positions reach past the end of any sequence".into()); }
            Ok(())
        });
    };
}
pub fn c15(c: &mut Ctx) {
    let v: Vec<i32> = (0..6).collect();
    let e: Vec<i32> = vec![];
    let s = "aébc漢z".to_string();
    let vals = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, usize::MAX - 1, usize::MAX];
    for a in vals {
        for b in vals {
            for (i, j) in [(true, false), (true, true), (false, false), (false, true)] {
                let (lo, hi) = (a as u128 + !i as u128, b as u128 + j as u128);
                // an empty range of positions without a std counterpart has no counterpart in panicking either
                if lo >= hi && !(i && !j) { continue; }
                let r = BoundedRange::new(lbound(a, i), ubound(b, j));
                let label = format!("{r:?}");
                if hi > usize::MAX as u128 {
                    must_panic!(c, r, label, v, s);
                    continue;
                }
                let std = lo as usize..hi as usize;
                try_all!(c, r, std.clone(), label; "Vec": v.clone(), "slice": v.as_slice(), "empty Vec": e.clone(), "String": s.clone(), "str": s.as_str());
                try_mut!(c, r, std.clone(), label);
            }
        }
        for i in [true, false] {
            let r = LowerBoundedRange::new(lbound(a, i));
            let label = format!("{r:?}");
            if a == usize::MAX && !i {
                must_panic!(c, r, label, v, s);
                continue;
            }
            let lo = a + !i as usize;
            try_all!(c, r, lo.., label; "Vec": v.clone(), "slice": v.as_slice(), "empty Vec": e.clone(), "String": s.clone(), "str": s.as_str(), "CStr": c"hello");
            try_mut!(c, r, lo.., label);
            let r = UpperBoundedRange::new(ubound(a, i));
            let label = format!("{r:?}");
            if a == usize::MAX && i {
                must_panic!(c, r, label, v, s);
                continue;
            }
            let hi = a + i as usize;
            try_all!(c, r, ..hi, label; "Vec": v.clone(), "slice": v.as_slice(), "empty Vec": e.clone(), "String": s.clone(), "str": s.as_str());
            try_mut!(c, r, ..hi, label);
        }
    }
    let r = UnboundedRange::new();
    let cs = std::ffi::CString::new("hello").unwrap();
    let os = std::ffi::OsString::from("hello");
    try_all!(c, r, .., "UnboundedRange"; "Vec": v.clone(), "slice": v.as_slice(), "String": s.clone(), "str": s.as_str(), "CString": cs.clone(), "OsString": os.clone());
    try_mut!(c, r, .., "UnboundedRange");
    let r = EmptyRange::<usize>::new();
    try_all!(c, r, 0..0, "EmptyRange"; "empty Vec": e.clone(), "empty slice": e.as_slice(), "empty String": String::new(), "empty str": "", "Vec": v.clone(), "slice": v.as_slice(), "String": s.clone(), "str": s.as_str());
    c.note("every bound 0..=11 and the two largest, on sequences of 0 and 6 elements and a string of 9 bytes with multi-byte characters");
}
