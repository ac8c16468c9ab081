//! Ranges and sets of densely observed elements.
use crate::rng::Rng;
use crate::vals::*;
use crate::Ctx;
use rangetools::{Bound, BoundedRange, BoundedSet, LowerBound, LowerBoundedRange, LowerBoundedSet, UpperBound, UpperBoundedRange, UpperBoundedSet};
use std::cmp::Ordering;

fn differ(got: u64, want: u64) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("contains {:?}, must contain {:?} (asked for {LO}..={HI})", elems(got), elems(want)))
    }
}
/// pairs of operands: every two ranges over a few bounds, then random histories
fn pairs(c: &mut Ctx, mut f: impl FnMut(&mut Ctx, &Val, &Val)) {
    let rs = ranges(if c.thorough { 6 } else { 4 });
    for a in &rs {
        for b in &rs {
            f(c, a, b);
            if c.done() {
                return;
            }
        }
    }
    c.note(format!("all {} pairs of single ranges of every kind", rs.len() * rs.len()));
    let mut r = Rng::new(c.seed);
    let n = c.n(25_000, 1_000_000);
    // every pair of set kinds evenly
    for k in 0..n {
        let a = c.make(|| set(&mut r, k % 4, 4));
        let b = c.make(|| set(&mut r, k / 4 % 4, 4));
        if let (Some(a), Some(b)) = (a, b) {
            f(c, &a, &b);
        }
        let a = c.make(|| any(&mut r, 2));
        let b = c.make(|| any(&mut r, 2));
        if let (Some(a), Some(b)) = (a, b) {
            f(c, &a, &b);
        }
        if c.done() {
            return;
        }
    }
    c.note(format!("{n} random pairs of sets, {n} random pairs of histories, seed {}", c.seed));
}
fn singles(c: &mut Ctx, mut f: impl FnMut(&mut Ctx, &Val)) {
    let rs = ranges(NB);
    for a in &rs {
        f(c, a);
        if c.done() {
            return;
        }
    }
    c.note(format!("all {} single ranges of every kind", rs.len()));
    let mut r = Rng::new(c.seed);
    let n = c.n(60_000, 2_000_000);
    for k in 0..n {
        if let Some(a) = c.make(|| set(&mut r, k % 4, 5)) {
            f(c, &a);
        }
        if let Some(a) = c.make(|| any(&mut r, 3)) {
            f(c, &a);
        }
        if c.done() {
            return;
        }
    }
    c.note(format!("{n} random sets, {n} random histories, seed {}", c.seed));
}

pub fn c01(c: &mut Ctx) {
    pairs(c, |c, a, b| c.case(|| format!("Rangetools::intersection({}, {})", a.how, b.how), || {
        differ(a.v.intersection(&b.v).mask(), a.v.mask() & b.v.mask())
    }));
}
pub fn c02(c: &mut Ctx) {
    pairs(c, |c, a, b| c.case(|| format!("Rangetools::union({}, {})", a.how, b.how), || {
        differ(a.v.union(&b.v).mask(), a.v.mask() | b.v.mask())
    }));
}
pub fn c03(c: &mut Ctx) {
    singles(c, |c, a| {
        c.case(|| format!("{}.complement()", a.how), || {
            let x = a.v.complement();
            differ(x.mask(), all() & !a.v.mask())
        });
        c.case(|| format!("{}.complement().complement()", a.how), || differ(a.v.complement().complement().mask(), a.v.mask()));
    });
}
fn pieces_ok(v: &V) -> Result<(), String> {
    let Some(p) = pieces(v) else { return Ok(()) };
    for (k, x) in p.iter().enumerate() {
        if x.0 >= x.1 {
            return Err(format!("piece {k} of {v:?} is empty"));
        }
        if k > 0 && p[k - 1].1 > x.0 {
            return Err(format!("pieces {} and {k} of {v:?} overlap or are out of order", k - 1));
        }
    }
    if v.is_empty() != p.is_empty() {
        return Err(format!("{v:?} has {} pieces, is_empty() is {}", p.len(), v.is_empty()));
    }
    Ok(())
}
pub fn c04(c: &mut Ctx) {
    pairs(c, |c, a, b| {
        c.case(|| format!("Rangetools::union({}, {})", a.how, b.how), || pieces_ok(&a.v.union(&b.v)));
        c.case(|| format!("Rangetools::intersection({}, {})", a.how, b.how), || pieces_ok(&a.v.intersection(&b.v)));
    });
    singles(c, |c, a| {
        c.case(|| format!("{}.to_set()", a.how), || pieces_ok(&a.v.to_set()));
        c.case(|| format!("{}.complement()", a.how), || pieces_ok(&a.v.complement()));
        c.case(|| a.how.clone(), || pieces_ok(&a.v));
    });
    // conversions into sets
    for a in ranges(NB) {
        c.case(|| format!("Set::from({})", a.how), || match a.v.clone() {
            V::B(x) => pieces_ok(&V::BS(BoundedSet::from(x))),
            V::L(x) => pieces_ok(&V::LS(LowerBoundedSet::from(x))),
            V::U(x) => pieces_ok(&V::US(UpperBoundedSet::from(x))),
            _ => Ok(()),
        });
    }
}
pub fn c05(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    let rs = ranges(if c.thorough { 6 } else { 4 });
    let same = |a: &V, b: &V| match a.same(b) {
        Some(false) => Err(format!("{a:?} is not equal to {b:?}")),
        _ => Ok(()),
    };
    for a in &rs {
        for b in &rs {
            c.case(|| format!("{} and {} in either order", a.how, b.how), || same(&a.v.union(&b.v), &b.v.union(&a.v)));
        }
        if c.done() {
            return;
        }
    }
    c.note(format!("both orders of all {} pairs of ranges", rs.len() * rs.len()));
    let n = c.n(40_000, 1_000_000);
    for _ in 0..n {
        let k = 2 + r.below(5) as usize;
        let items = c.make(|| (0..k).map(|_| match r.below(8) {
            0 => lower(&mut r),
            1 => upper(&mut r),
            2 => set(&mut r, 0, 3),
            3 => { let k = r.below(4); set(&mut r, k, 2) }
            _ => bounded(&mut r),
        }).collect::<Vec<_>>());
        let Some(items) = items else { continue };
        let mut perm: Vec<usize> = (0..k).collect();
        for i in (1..k).rev() {
            perm.swap(i, r.below(i as u64 + 1) as usize);
        }
        let split = 1 + r.below(k as u64 - 1) as usize;
        let how = || format!("the union of {:?} in the given order, in order {perm:?}, and grouped at {split}", items.iter().map(|i| &i.how).collect::<Vec<_>>());
        c.case(how, || {
            let fold = |xs: &[&Val]| xs[1..].iter().fold(xs[0].v.to_set(), |acc, x| acc.union(&x.v));
            let refs: Vec<&Val> = items.iter().collect();
            let x = fold(&refs);
            let y = fold(&perm.iter().map(|i| &items[*i]).collect::<Vec<_>>());
            let z = fold(&refs[..split]).union(&fold(&refs[split..]));
            same(&x, &y)?;
            same(&x, &z)?;
            // pieces are merged exactly when they overlap; uniting with one of its own pieces changes nothing
            let parts: Option<Vec<Vec<(i64, i64)>>> = items.iter().map(|i| pieces(&i.v.to_set()).or(Some(i.cuts.clone()))).collect();
            if let (Some(p), Some(q)) = (parts, pieces(&x)) {
                let want = norm(&p.concat());
                if q != want {
                    return Err(format!("{x:?} has its pieces at {q:?}, overlapping ones merged would be {want:?}"));
                }
            }
            for i in &items {
                if i.cuts.len() <= 1 {
                    same(&x.union(&i.v), &x)?;
                }
            }
            Ok(())
        });
        if c.done() {
            return;
        }
    }
    c.note(format!("{n} random collections in two orders and one grouping, seed {}", c.seed));
}
pub fn c06(c: &mut Ctx) {
    singles(c, |c, a| c.case(|| format!("{}.is_empty()", a.how), || {
        let (got, want) = (a.v.is_empty(), a.v.mask() == 0);
        // half-unbounded and unbounded kinds reach beyond what is asked for
        let want = want && !matches!(a.v, V::L(_) | V::U(_) | V::F(_) | V::LS(_) | V::US(_) | V::FS(_) | V::RF(_) | V::RT(_) | V::RTI(_) | V::RX(_));
        if got == want { Ok(()) } else { Err(format!("is_empty() is {got} for {:?}", a.v)) }
    }));
    pairs(c, |c, a, b| c.case(|| format!("disjoint/intersects of {} and {}", a.how, b.how), || {
        let want = a.v.mask() & b.v.mask() == 0;
        let (d, i, d2, i2) = (a.v.disjoint(&b.v), a.v.intersects(&b.v), b.v.disjoint(&a.v), b.v.intersects(&a.v));
        if d != want || d2 != want || i == want || i2 == want {
            return Err(format!("disjoint {d}, {d2}; intersects {i}, {i2}; they share {:?}", elems(a.v.mask() & b.v.mask())));
        }
        if a.v.intersection(&b.v).is_empty() != want {
            return Err("is_empty() of the intersection disagrees".into());
        }
        Ok(())
    }));
}
pub fn c07(c: &mut Ctx) {
    let vals = [i32::MIN, -3, -2, -1, 0, 1, 2, 3, i32::MAX];
    let mut bs = vec![];
    for v in vals {
        bs.push(Bound::Included(v));
        bs.push(Bound::Excluded(v));
    }
    let cut = |b: &Bound<i32>, lower: bool| match *b {
        Bound::Included(v) => 2 * v as i64 * 2 + if lower { -1 } else { 1 },
        Bound::Excluded(v) => 2 * v as i64 * 2 + if lower { 1 } else { -1 },
    };
    macro_rules! check {
        ($t:ident, $lower:expr) => {
            for a in &bs {
                for b in &bs {
                    c.case(|| format!("{}({a:?}) against {}({b:?})", stringify!($t), stringify!($t)), || {
                        let (x, y) = ($t::from(*a), $t::from(*b));
                        let want = cut(a, $lower).cmp(&cut(b, $lower));
                        if x.cmp(&y) != want || x.partial_cmp(&y) != Some(want) {
                            return Err(format!("cmp {:?}, partial_cmp {:?}, must be {want:?}", x.cmp(&y), x.partial_cmp(&y)));
                        }
                        if (x == y) != (want == Ordering::Equal) || (x != y) != (want != Ordering::Equal) {
                            return Err(format!("== is {}", x == y));
                        }
                        if (x < y) != want.is_lt() || (x <= y) != want.is_le() || (x > y) != want.is_gt() || (x >= y) != want.is_ge() {
                            return Err("a comparison operator disagrees".into());
                        }
                        let (mn, mx) = if want.is_le() { (a, b) } else { (b, a) };
                        if x.min(y).to_bound() != *mn || x.max(y).to_bound() != *mx {
                            return Err(format!("min {:?}, max {:?}", x.min(y), x.max(y)));
                        }
                        Ok(())
                    });
                }
                c.case(|| format!("{a:?}"), || {
                    let x = $t::from(*a);
                    let m = x.map(|v| v as i64 + 1).to_bound();
                    let (v, inc) = bound_of(*a);
                    let want = if inc { Bound::Included(v as i64 + 1) } else { Bound::Excluded(v as i64 + 1) };
                    let f = if inc { Bound::Excluded(v) } else { Bound::Included(v) };
                    let made = if inc { $t::included(v) } else { $t::excluded(v) };
                    if x.to_bound() != *a || m != want || a.map(|v| v as i64 + 1) != want || a.flipped() != f || made != x {
                        return Err(format!("made {made:?}, kept {:?}, mapped {m:?}, flipped {:?}", x.to_bound(), a.flipped()));
                    }
                    Ok(())
                });
            }
        };
    }
    check!(LowerBound, true);
    check!(UpperBound, false);
    c.note("every pair of included and excluded bounds at nine values, both sides");
}
pub fn c08(c: &mut Ctx) {
    for a in ranges(NB) {
        c.case(|| a.how.clone(), || {
            differ(a.v.mask(), a.m)?;
            differ(a.v.to_inner().mask(), a.m)?;
            differ(a.v.to_set().mask(), a.m)?;
            let back = match a.v.clone() {
                V::B(x) => V::BS(BoundedSet::from(x)),
                V::L(x) => V::LS(LowerBoundedSet::from(x)),
                V::U(x) => V::US(UpperBoundedSet::from(x)),
                V::R(x) => V::B(BoundedRange::from(x)),
                V::RI(x) => V::B(BoundedRange::from(x)),
                V::RF(x) => V::L(LowerBoundedRange::from(x)),
                V::RT(x) => V::U(UpperBoundedRange::from(x)),
                V::RTI(x) => V::U(UpperBoundedRange::from(x)),
                v => v,
            };
            differ(back.mask(), a.m)
        });
    }
    singles(c, |c, a| c.case(|| a.how.clone(), || {
        let m = a.v.mask();
        differ(a.v.to_inner().mask(), m)?;
        differ(a.v.to_set().mask(), m)?;
        match pieces(&a.v) {
            Some(p) => differ(m, cuts_mask(&p)),
            None => Ok(()),
        }
    }));
}
pub fn c16(c: &mut Ctx) {
    pairs(c, |c, a, b| c.case(|| format!("all operations on {} and {}", a.how, b.how), || {
        a.v.union(&b.v);
        a.v.intersection(&b.v);
        a.v.disjoint(&b.v);
        a.v.intersects(&b.v);
        Ok(())
    }));
    singles(c, |c, a| c.case(|| format!("all operations on {}", a.how), || {
        a.v.complement();
        a.v.to_inner();
        a.v.to_set();
        a.v.is_empty();
        a.v.mask();
        Ok(())
    }));
    if c.skipped > 0 && c.found.is_none() {
        // a history panicked while being made: make it again to show it
        let mut r = Rng::new(c.seed);
        for k in 0..200_000u64 {
            if let Err(p) = crate::quiet(|| any(&mut r, 3)) {
                c.found = Some((format!("random history {k} of seed {}", c.seed), format!("panicked: {p}")));
                return;
            }
            if let Err(p) = crate::quiet(|| set(&mut r, k % 4, 5)) {
                c.found = Some((format!("random set {k} of seed {}", c.seed), format!("panicked: {p}")));
                return;
            }
        }
        c.found = Some((format!("a random history of seed {}", c.seed), "an operation panicked while the history was made".into()));
    }
    // longer histories
    let mut r = Rng::new(c.seed + 77);
    for _ in 0..c.n(2_000, 50_000) {
        let steps: Vec<(u64, u64)> = (0..12).map(|_| (r.below(4), r.next())).collect();
        c.case(|| format!("history {steps:?}"), || {
            let mut v = any(&mut Rng::new(steps[0].1), 1);
            for (k, s) in &steps {
                let o = any(&mut Rng::new(*s), 1);
                v = match k { 0 | 1 => union(&v, &o), 2 => inter(&v, &o), _ => compl(&v) };
                v.how.clear();
            }
            Ok(())
        });
        if c.done() {
            return;
        }
    }
}
