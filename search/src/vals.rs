//! Values of every kind of range and set, with the elements they must contain.
//!
//! Bounds are even numbers, and every integer from LO to HI is asked for, so that the
//! places between two bounds are observed as well as the bounds themselves.
use crate::rng::Rng;
use rangetools::Rangetools;
use rangetools::{
    Bound, BoundedRange, BoundedSet, EmptyRange, LowerBound, LowerBoundedRange, LowerBoundedSet, UnboundedRange,
    UnboundedSet, UpperBound, UpperBoundedRange, UpperBoundedSet,
};
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

pub const LO: i32 = -1;
pub const HI: i32 = 17;
pub const NB: i32 = 9; // bounds 0, 2, .., 16
pub fn all() -> u64 {
    (1u64 << (HI - LO + 1)) - 1
}
pub fn mask(f: impl Fn(i32) -> bool) -> u64 {
    (LO..=HI).filter(|q| f(*q)).map(|q| 1u64 << (q - LO)).sum()
}
pub fn elems(m: u64) -> Vec<i32> {
    (LO..=HI).filter(|q| m >> (q - LO) & 1 == 1).collect()
}

#[derive(Clone, Debug)]
pub enum V {
    E(EmptyRange<i32>),
    B(BoundedRange<i32>),
    L(LowerBoundedRange<i32>),
    U(UpperBoundedRange<i32>),
    F(UnboundedRange),
    BS(BoundedSet<i32>),
    LS(LowerBoundedSet<i32>),
    US(UpperBoundedSet<i32>),
    FS(UnboundedSet<i32>),
    R(Range<i32>),
    RI(RangeInclusive<i32>),
    RF(RangeFrom<i32>),
    RT(RangeTo<i32>),
    RTI(RangeToInclusive<i32>),
    RX(RangeFull),
}
macro_rules! each {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            V::E($x) => $e, V::B($x) => $e, V::L($x) => $e, V::U($x) => $e, V::F($x) => $e,
            V::BS($x) => $e, V::LS($x) => $e, V::US($x) => $e, V::FS($x) => $e,
            V::R($x) => $e, V::RI($x) => $e, V::RF($x) => $e, V::RT($x) => $e, V::RTI($x) => $e, V::RX($x) => $e,
        }
    };
}
macro_rules! from {
    ($($k:ident($t:ty)),*) => { $(impl From<$t> for V { fn from(x: $t) -> V { V::$k(x) } })* };
}
from!(E(EmptyRange<i32>), B(BoundedRange<i32>), L(LowerBoundedRange<i32>), U(UpperBoundedRange<i32>), F(UnboundedRange),
    BS(BoundedSet<i32>), LS(LowerBoundedSet<i32>), US(UpperBoundedSet<i32>), FS(UnboundedSet<i32>),
    R(Range<i32>), RI(RangeInclusive<i32>), RF(RangeFrom<i32>), RT(RangeTo<i32>), RTI(RangeToInclusive<i32>), RX(RangeFull));

impl V {
    /// the library's answer (std's own, for std ranges)
    pub fn has(&self, q: i32) -> bool {
        match self {
            V::E(x) => x.contains(q), V::B(x) => x.contains(q), V::L(x) => x.contains(q), V::U(x) => x.contains(q), V::F(x) => x.contains(q),
            V::BS(x) => x.contains(q), V::LS(x) => x.contains(q), V::US(x) => x.contains(q), V::FS(x) => x.contains(q),
            V::R(x) => x.contains(&q), V::RI(x) => x.contains(&q), V::RF(x) => x.contains(&q), V::RT(x) => x.contains(&q),
            V::RTI(x) => x.contains(&q), V::RX(_) => true,
        }
    }
    pub fn mask(&self) -> u64 {
        mask(|q| self.has(q))
    }
    pub fn is_empty(&self) -> bool {
        match self {
            V::R(x) => Rangetools::is_empty(x),
            V::RI(x) => Rangetools::is_empty(x),
            V::E(x) => x.is_empty(), V::B(x) => x.is_empty(), V::L(x) => x.is_empty(), V::U(x) => x.is_empty(), V::F(x) => x.is_empty(),
            V::BS(x) => x.is_empty(), V::LS(x) => x.is_empty(), V::US(x) => x.is_empty(), V::FS(x) => x.is_empty(),
            V::RF(x) => x.is_empty(), V::RT(x) => x.is_empty(), V::RTI(x) => x.is_empty(), V::RX(x) => x.is_empty(),
        }
    }
    pub fn to_inner(&self) -> V {
        each!(self.clone(), x => V::from(x.to_inner()))
    }
    pub fn to_set(&self) -> V {
        match self.clone() {
            V::F(x) => V::from(x.to_set()),
            V::RX(x) => V::from(x.to_set()),
            V::E(x) => V::from(x.to_set()), V::B(x) => V::from(x.to_set()), V::L(x) => V::from(x.to_set()), V::U(x) => V::from(x.to_set()),
            V::BS(x) => V::from(x.to_set()), V::LS(x) => V::from(x.to_set()), V::US(x) => V::from(x.to_set()), V::FS(x) => V::from(x.to_set()),
            V::R(x) => V::from(x.to_set()), V::RI(x) => V::from(x.to_set()), V::RF(x) => V::from(x.to_set()), V::RT(x) => V::from(x.to_set()),
            V::RTI(x) => V::from(x.to_set()),
        }
    }
    pub fn complement(&self) -> V {
        match self.clone() {
            V::F(x) => V::E(x.complement()),
            V::RX(x) => V::E(x.complement()),
            V::E(x) => V::F(x.complement()), V::B(x) => V::FS(x.complement()), V::L(x) => V::U(x.complement()), V::U(x) => V::L(x.complement()),
            V::BS(x) => V::FS(x.complement()), V::LS(x) => V::US(x.complement()), V::US(x) => V::LS(x.complement()), V::FS(x) => V::BS(x.complement()),
            V::R(x) => V::FS(x.complement()), V::RI(x) => V::FS(x.complement()), V::RF(x) => V::U(x.complement()), V::RT(x) => V::L(x.complement()),
            V::RTI(x) => V::L(x.complement()),
        }
    }
    pub fn intersection(&self, o: &V) -> V {
        each!(self.clone(), x => each!(o.clone(), y => V::from(Rangetools::intersection(x, y))))
    }
    pub fn union(&self, o: &V) -> V {
        each!(self.clone(), x => each!(o.clone(), y => V::from(Rangetools::union(x, y))))
    }
    pub fn disjoint(&self, o: &V) -> bool {
        each!(self.clone(), x => each!(o.clone(), y => Rangetools::disjoint(x, y)))
    }
    pub fn intersects(&self, o: &V) -> bool {
        each!(self.clone(), x => each!(o.clone(), y => Rangetools::intersects(x, y)))
    }
    /// equality, when both are of the same kind
    pub fn same(&self, o: &V) -> Option<bool> {
        Some(match (self, o) {
            (V::E(a), V::E(b)) => a == b, (V::B(a), V::B(b)) => a == b, (V::L(a), V::L(b)) => a == b, (V::U(a), V::U(b)) => a == b,
            (V::F(a), V::F(b)) => a == b, (V::BS(a), V::BS(b)) => a == b, (V::LS(a), V::LS(b)) => a == b, (V::US(a), V::US(b)) => a == b,
            (V::FS(a), V::FS(b)) => a == b,
            _ => return None,
        })
    }
}

/// A value together with what it must contain and how it was made.
#[derive(Clone, Debug)]
pub struct Val {
    pub v: V,
    pub m: u64,
    pub how: String,
    /// the open intervals of bound positions it is made of (4k + 1 below the value, 4k + 3 above it)
    pub cuts: Vec<(i64, i64)>,
}
pub const NINF: i64 = i64::MIN;
pub const PINF: i64 = i64::MAX;
fn below(v: i32) -> i64 {
    4 * v as i64 + 1
}
fn above(v: i32) -> i64 {
    4 * v as i64 + 3
}
fn lb(v: i32, inc: bool) -> LowerBound<i32> {
    if inc { LowerBound::included(v) } else { LowerBound::excluded(v) }
}
fn ub(v: i32, inc: bool) -> UpperBound<i32> {
    if inc { UpperBound::included(v) } else { UpperBound::excluded(v) }
}
fn one(v: V, how: String, lo: i64, hi: i64) -> Val {
    let cuts = if lo < hi { vec![(lo, hi)] } else { vec![] };
    Val { v, m: cuts_mask(&cuts), how, cuts }
}
pub fn cuts_mask(c: &[(i64, i64)]) -> u64 {
    mask(|q| c.iter().any(|(a, b)| *a < 4 * q as i64 + 2 && 4 * (q as i64) + 2 < *b))
}
fn s(inc: bool) -> &'static str {
    if inc { "included" } else { "excluded" }
}
pub fn b(l: i32, li: bool, u: i32, ui: bool) -> Val {
    one(V::B(BoundedRange::new(lb(l, li), ub(u, ui))), format!("BoundedRange::new(LowerBound::{}({l}), UpperBound::{}({u}))", s(li), s(ui)),
        if li { below(l) } else { above(l) }, if ui { above(u) } else { below(u) })
}
pub fn l(v: i32, i: bool) -> Val {
    one(V::L(LowerBoundedRange::new(lb(v, i))), format!("LowerBoundedRange::new(LowerBound::{}({v}))", s(i)), if i { below(v) } else { above(v) }, PINF)
}
pub fn u(v: i32, i: bool) -> Val {
    one(V::U(UpperBoundedRange::new(ub(v, i))), format!("UpperBoundedRange::new(UpperBound::{}({v}))", s(i)), NINF, if i { above(v) } else { below(v) })
}

/// every single range with the first `n` bound values
pub fn ranges(n: i32) -> Vec<Val> {
    let mut r = vec![
        one(V::E(EmptyRange::new()), "EmptyRange::new()".into(), 0, 0),
        one(V::F(UnboundedRange::new()), "UnboundedRange::new()".into(), NINF, PINF),
        one(V::RX(..), "(..)".into(), NINF, PINF),
    ];
    for a in (0..n).map(|k| 2 * k) {
        for i in [false, true] {
            r.push(l(a, i));
            r.push(u(a, i));
        }
        r.push(one(V::RF(a..), format!("({a}..)"), below(a), PINF));
        r.push(one(V::RT(..a), format!("(..{a})"), NINF, below(a)));
        r.push(one(V::RTI(..=a), format!("(..={a})"), NINF, above(a)));
        for c in (0..n).map(|k| 2 * k) {
            for i in [false, true] {
                for j in [false, true] {
                    r.push(b(a, i, c, j));
                }
            }
            r.push(one(V::R(a..c), format!("({a}..{c})"), below(a), below(c)));
            r.push(one(V::RI(a..=c), format!("({a}..={c})"), below(a), above(c)));
        }
    }
    r
}
fn val(r: &mut Rng) -> i32 {
    2 * r.below(NB as u64) as i32
}
pub fn bounded(r: &mut Rng) -> Val {
    let (a, c) = (val(r), val(r));
    // mostly upright
    let (a, c) = if r.below(5) > 0 { (a.min(c), a.max(c)) } else { (a, c) };
    let (i, j) = (r.below(2) == 0, r.below(2) == 0);
    match r.below(6) {
        0 => one(V::R(a..c), format!("({a}..{c})"), below(a), below(c)),
        1 => one(V::RI(a..=c), format!("({a}..={c})"), below(a), above(c)),
        _ => b(a, i, c, j),
    }
}
pub fn lower(r: &mut Rng) -> Val {
    let a = val(r);
    if r.below(4) == 0 { one(V::RF(a..), format!("({a}..)"), below(a), PINF) } else { l(a, r.below(2) == 0) }
}
pub fn upper(r: &mut Rng) -> Val {
    let a = val(r);
    match r.below(6) {
        0 => one(V::RT(..a), format!("(..{a})"), NINF, below(a)),
        1 => one(V::RTI(..=a), format!("(..={a})"), NINF, above(a)),
        _ => u(a, r.below(2) == 0),
    }
}
/// merge overlapping intervals (touching ones stay apart)
pub fn norm(c: &[(i64, i64)]) -> Vec<(i64, i64)> {
    let mut c: Vec<_> = c.iter().copied().filter(|(a, b)| a < b).collect();
    c.sort();
    let mut out: Vec<(i64, i64)> = vec![];
    for (a, b) in c {
        match out.last_mut() {
            Some(l) if a < l.1 => l.1 = l.1.max(b),
            _ => out.push((a, b)),
        }
    }
    out
}
pub fn cuts_union(a: &[(i64, i64)], b: &[(i64, i64)]) -> Vec<(i64, i64)> {
    norm(&[a, b].concat())
}
pub fn cuts_inter(a: &[(i64, i64)], b: &[(i64, i64)]) -> Vec<(i64, i64)> {
    let mut o = vec![];
    for x in a {
        for y in b {
            o.push((x.0.max(y.0), x.1.min(y.1)));
        }
    }
    norm(&o)
}
/// Touching pieces leave a place between them that no element occupies: it is not a gap
/// that the complement would contain an element of, so it only matters for the pieces.
pub fn cuts_compl(a: &[(i64, i64)]) -> Vec<(i64, i64)> {
    let mut o = vec![];
    let mut at = NINF;
    for (x, y) in norm(a) {
        if at < x {
            o.push((at, x));
        }
        at = y;
    }
    if at < PINF {
        o.push((at, PINF));
    }
    o
}
pub fn union(a: &Val, b: &Val) -> Val {
    let cuts = cuts_union(&a.cuts, &b.cuts);
    Val { v: a.v.union(&b.v), m: a.m | b.m, how: format!("Rangetools::union({}, {})", a.how, b.how), cuts }
}
pub fn inter(a: &Val, b: &Val) -> Val {
    let cuts = cuts_inter(&a.cuts, &b.cuts);
    Val { v: a.v.intersection(&b.v), m: a.m & b.m, how: format!("Rangetools::intersection({}, {})", a.how, b.how), cuts }
}
pub fn compl(a: &Val) -> Val {
    let cuts = cuts_compl(&a.cuts);
    Val { v: a.v.complement(), m: all() & !a.m, how: format!("{}.complement()", a.how), cuts }
}
pub fn to_set(a: &Val) -> Val {
    Val { v: a.v.to_set(), m: a.m, how: format!("{}.to_set()", a.how), cuts: a.cuts.clone() }
}
/// a set of the given kind (0 bounded, 1 lower, 2 upper, 3 unbounded) with up to `n` further pieces
pub fn set(r: &mut Rng, kind: u64, n: u64) -> Val {
    let k = r.below(n + 1);
    let mut v = match kind {
        0 => { let x = bounded(r); to_set(&x) }
        1 => { let x = lower(r); to_set(&x) }
        2 => { let x = upper(r); to_set(&x) }
        _ => {
            if r.below(12) == 0 {
                one(V::FS(UnboundedSet::from(UnboundedRange)), "UnboundedSet::from(UnboundedRange)".into(), NINF, PINF)
            } else {
                let (x, y) = (upper(r), lower(r));
                if r.below(2) == 0 { union(&x, &y) } else { union(&y, &x) }
            }
        }
    };
    for _ in 0..k {
        let x = bounded(r);
        v = if r.below(2) == 0 { union(&v, &x) } else { union(&x, &v) };
    }
    v
}
/// any value, by a short random history of operations
pub fn any(r: &mut Rng, depth: u64) -> Val {
    if depth > 0 {
        match r.below(10) {
            0 | 1 => { let a = any(r, depth - 1); let b = any(r, depth - 1); return union(&a, &b); }
            2 | 3 => { let a = any(r, depth - 1); let b = any(r, depth - 1); return inter(&a, &b); }
            4 => { let a = any(r, depth - 1); return compl(&a); }
            5 => { let a = any(r, depth - 1); return to_set(&a); }
            _ => {}
        }
    }
    match r.below(9) {
        0 => bounded(r),
        1 => lower(r),
        2 => upper(r),
        3 | 4 => set(r, 0, 5),
        5 => set(r, 1, 4),
        6 => set(r, 2, 4),
        7 => set(r, 3, 4),
        _ => match r.below(3) {
            0 => one(V::E(EmptyRange::new()), "EmptyRange::<i32>::new()".into(), 0, 0),
            1 => one(V::F(UnboundedRange::new()), "UnboundedRange::new()".into(), NINF, PINF),
            _ => one(V::RX(..), "(..)".into(), NINF, PINF),
        },
    }
}

/// the pieces a set shows when printed, as (kind, bounds), in the order printed
pub fn pieces(v: &V) -> Option<Vec<(i64, i64)>> {
    let t = match v {
        V::BS(_) | V::LS(_) | V::US(_) | V::FS(_) => format!("{v:?}").replace(char::is_whitespace, ""),
        _ => return None,
    };
    if let V::FS(UnboundedSet::Full) = v {
        return Some(vec![(NINF, PINF)]);
    }
    let num = |s: &str| -> Option<i32> { s.parse().ok() };
    let mut out: Vec<(i64, i64)> = vec![];
    let mut pend: Option<i64> = None;
    let mut rest = &t[..];
    let (mut lows, mut ups) = (vec![], vec![]);
    loop {
        let lo = rest.find("LowerBound(");
        let up = rest.find("UpperBound(");
        let (at, is_lo) = match (lo, up) {
            (None, None) => break,
            (Some(a), None) => (a, true),
            (None, Some(b)) => (b, false),
            (Some(a), Some(b)) => if a < b { (a, true) } else { (b, false) },
        };
        let r = &rest[at + "LowerBound(".len()..];
        let inc = r.starts_with("Included(");
        if !inc && !r.starts_with("Excluded(") {
            return None;
        }
        let r = &r["Included(".len()..];
        let e = r.find(')')?;
        let n = num(&r[..e])?;
        let c = match (is_lo, inc) {
            (true, true) | (false, false) => below(n),
            _ => above(n),
        };
        let head = &rest[..at];
        if is_lo {
            if pend.is_some() {
                return None;
            }
            if head.ends_with("LowerBoundedRange{start:") {
                lows.push((c, PINF));
            } else {
                pend = Some(c);
            }
        } else if head.ends_with("UpperBoundedRange{end:") {
            ups.push((NINF, c));
        } else {
            out.push((pend.take()?, c));
        }
        rest = &r[e..];
    }
    let mut all = ups;
    all.extend(out);
    all.extend(lows);
    Some(all)
}
pub fn bound_of(b: Bound<i32>) -> (i32, bool) {
    match b {
        Bound::Included(v) => (v, true),
        Bound::Excluded(v) => (v, false),
    }
}
