// Theorems that state a property over the contracts alone: each is a client of the real
// functions, verified against their contracts (not their bodies) for all inputs.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::shim::*;
use crate::specs::*;
use crate::*;
verus! {

// ---------------------------------------------------------------- canonical form
pub open spec fn same_cov<A: Cov, B: Cov>(a: A, b: B) -> bool { forall|x: real| #![trigger a.cov(x)] #![trigger b.cov(x)] a.cov(x) == b.cov(x) }

pub open spec fn same_cuts<T: Lawful>(a: Seq<BoundedRange<T>>, b: Seq<BoundedRange<T>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).start.cut() == b[i].start.cut() && a[i].end.cut() == b[i].end.cut()
}
proof fn covered_by_first<T: Lawful>(a: Seq<BoundedRange<T>>, x: real)
    requires a.len() > 0, a[0].cov(x),
    ensures covs(a, x),
{}
proof fn not_before<T: Lawful>(a: Seq<BoundedRange<T>>, x: real)
    requires wfs(a), a.len() > 0, x <= a[0].start.cut() || x == a[0].end.cut(),
    ensures !covs(a, x),
{
    if covs(a, x) {
        let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).cov(x);
        assert(a[0].start.cut() < a[0].end.cut());
        if k > 0 { assert(a[0].end.cut() <= a[k].start.cut()); }
    }
}
proof fn rest<T: Lawful>(a: Seq<BoundedRange<T>>)
    requires wfs(a), a.len() > 0,
    ensures
        wfs(a.drop_first()),
        forall|x: real| #[trigger] covs(a.drop_first(), x) == (covs(a, x) && !a[0].cov(x)),
{
    let b = a.drop_first();
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).end.cut() <= (#[trigger] b[j]).start.cut() by {
        assert(b[i] == a[i + 1] && b[j] == a[j + 1]);
    }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).start.cut() < b[i].end.cut() by { assert(b[i] == a[i + 1]); }
    assert forall|x: real| #[trigger] covs(b, x) == (covs(a, x) && !a[0].cov(x)) by {
        if covs(b, x) {
            let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).cov(x);
            assert(a[k + 1].cov(x));
            assert(a[0].end.cut() <= a[k + 1].start.cut());
        }
        if covs(a, x) && !a[0].cov(x) {
            let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).cov(x);
            assert(b[k - 1] == a[k]);
            assert(b[k - 1].cov(x));
        }
    }
}
/// two well-formed piece sequences that cover the same are the same
pub proof fn canonical_seq<T: Lawful>(a: Seq<BoundedRange<T>>, b: Seq<BoundedRange<T>>)
    requires wfs(a), wfs(b), forall|x: real| #![trigger covs(a, x)] #![trigger covs(b, x)] covs(a, x) == covs(b, x),
    ensures same_cuts(a, b),
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() > 0 {
            assert(b[0].start.cut() < b[0].end.cut());
            let m = (b[0].start.cut() + b[0].end.cut()) / 2real;
            assert(b[0].cov(m));
            assert(covs(b, m));
            assert(!covs(a, m));
        }
    } else if b.len() == 0 {
        assert(a[0].start.cut() < a[0].end.cut());
        let m = (a[0].start.cut() + a[0].end.cut()) / 2real;
        assert(a[0].cov(m));
        assert(covs(a, m));
        assert(!covs(b, m));
    } else {
        let (s, e, t, f) = (a[0].start.cut(), a[0].end.cut(), b[0].start.cut(), b[0].end.cut());
        assert(s < e && t < f);
        if s < t {
            let m = (s + rmin(e, t)) / 2real;
            assert(a[0].cov(m));
            covered_by_first(a, m);
            not_before(b, m);
            assert(false);
        }
        if t < s {
            let m = (t + rmin(f, s)) / 2real;
            assert(b[0].cov(m));
            covered_by_first(b, m);
            not_before(a, m);
            assert(false);
        }
        if e < f {
            assert(b[0].cov(e));
            covered_by_first(b, e);
            not_before(a, e);
            assert(false);
        }
        if f < e {
            assert(a[0].cov(f));
            covered_by_first(a, f);
            not_before(b, f);
            assert(false);
        }
        rest(a);
        rest(b);
        let (a1, b1) = (a.drop_first(), b.drop_first());
        assert forall|x: real| #![trigger covs(a1, x)] #![trigger covs(b1, x)] covs(a1, x) == covs(b1, x) by {
            assert(covs(a, x) == covs(b, x));
            assert(a[0].cov(x) == b[0].cov(x));
        }
        canonical_seq(a1, b1);
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).start.cut() == b[i].start.cut() && a[i].end.cut() == b[i].end.cut() by {
            if i > 0 { assert(a1[i - 1] == a[i] && b1[i - 1] == b[i]); }
        }
    }
}
/// a kind in which equal coverage means equal values
pub trait Canon: Cov + PartialEq {
    proof fn canon(a: Self, b: Self)
        requires a.wf(), b.wf(), same_cov(a, b),
        ensures a.eq_spec(&b), Self::obeys_eq_spec(),
    ;
}
//#FN theorem C05: equal coverage is equality for BoundedSet | theorems
impl<T: Lawful> Canon for BoundedSet<T> {
    proof fn canon(a: Self, b: Self) {
        let (s, t) = (a.ranges@, b.ranges@);
        assert forall|x: real| #![trigger covs(s, x)] #![trigger covs(t, x)] covs(s, x) == covs(t, x) by { assert(a.cov(x) == b.cov(x)); }
        canonical_seq(s, t); //@C05
    }
}
//#END
//#FN theorem C05: equal coverage is equality for LowerBoundedSet | theorems
proof fn above_tail<T: Lawful>(a: LowerBoundedSet<T>, x: real)
    requires a.wf(),
    ensures a.lower_bounded_range.start.cut() <= x ==> !a.ranges.cov(x), x == a.lower_bounded_range.start.cut() ==> !a.cov(x),
{}
impl<T: Lawful> Canon for LowerBoundedSet<T> {
    proof fn canon(a: Self, b: Self) {
        let (l, m) = (a.lower_bounded_range.start.cut(), b.lower_bounded_range.start.cut());
        above_tail(a, l);
        above_tail(b, m);
        if l < m { assert(a.cov(m)); assert(b.cov(m)); }
        if m < l { assert(b.cov(l)); assert(a.cov(l)); }
        let (s, t) = (a.ranges.ranges@, b.ranges.ranges@);
        assert forall|x: real| #![trigger covs(s, x)] #![trigger covs(t, x)] covs(s, x) == covs(t, x) by {
            above_tail(a, x);
            above_tail(b, x);
            assert(a.cov(x) == b.cov(x));
        }
        canonical_seq(s, t);
    }
}
//#END
//#FN theorem C05: equal coverage is equality for UpperBoundedSet | theorems
proof fn below_head<T: Lawful>(a: UpperBoundedSet<T>, x: real)
    requires a.wf(),
    ensures x <= a.upper_bounded_range.end.cut() ==> !a.ranges.cov(x), x == a.upper_bounded_range.end.cut() ==> !a.cov(x),
{}
impl<T: Lawful> Canon for UpperBoundedSet<T> {
    proof fn canon(a: Self, b: Self) {
        let (l, m) = (a.upper_bounded_range.end.cut(), b.upper_bounded_range.end.cut());
        below_head(a, l);
        below_head(b, m);
        if l < m { assert(b.cov(l)); assert(a.cov(l)); }
        if m < l { assert(a.cov(m)); assert(b.cov(m)); }
        let (s, t) = (a.ranges.ranges@, b.ranges.ranges@);
        assert forall|x: real| #![trigger covs(s, x)] #![trigger covs(t, x)] covs(s, x) == covs(t, x) by {
            below_head(a, x);
            below_head(b, x);
            assert(a.cov(x) == b.cov(x));
        }
        canonical_seq(s, t);
    }
}
//#END
//#FN theorem C05: equal coverage is equality for UnboundedSet | theorems
proof fn between<T: Lawful>(a: PiecewiseUnboundedSet<T>, x: real)
    requires a.wf(),
    ensures
        x <= a.upper_bounded_range.end.cut() ==> !a.ranges.cov(x),
        x >= a.lower_bounded_range.start.cut() ==> !a.ranges.cov(x),
        x == a.upper_bounded_range.end.cut() ==> !a.cov(x),
        x == a.lower_bounded_range.start.cut() ==> !a.cov(x),
{}
impl<T: Lawful> Canon for UnboundedSet<T> {
    proof fn canon(a: Self, b: Self) {
        match (a, b) {
            (UnboundedSet::Full, UnboundedSet::Full) => {}
            (UnboundedSet::Full, UnboundedSet::Piecewise(q)) => {
                let m = q.upper_bounded_range.end.cut();
                between(q, m);
                assert(a.cov(m) && !b.cov(m));
            }
            (UnboundedSet::Piecewise(p), UnboundedSet::Full) => {
                let m = p.upper_bounded_range.end.cut();
                between(p, m);
                assert(b.cov(m) && !a.cov(m));
            }
            (UnboundedSet::Piecewise(p), UnboundedSet::Piecewise(q)) => {
                let (u, v) = (p.upper_bounded_range.end.cut(), q.upper_bounded_range.end.cut());
                let (l, m) = (p.lower_bounded_range.start.cut(), q.lower_bounded_range.start.cut());
                between(p, u); between(p, l); between(q, v); between(q, m);
                assert(!a.cov(u) && !a.cov(l) && !b.cov(v) && !b.cov(m));
                if u < v { assert(b.cov(u)); }
                if v < u { assert(a.cov(v)); }
                if l < m { assert(a.cov(m)); }
                if m < l { assert(b.cov(l)); }
                let (s, t) = (p.ranges.ranges@, q.ranges.ranges@);
                assert forall|x: real| #![trigger covs(s, x)] #![trigger covs(t, x)] covs(s, x) == covs(t, x) by {
                    between(p, x);
                    between(q, x);
                    assert(a.cov(x) == b.cov(x));
                }
                canonical_seq(s, t);
            }
        }
    }
}
//#END
// ---------------------------------------------------------------- union
//#FN theorem C05: union is commutative up to == | theorems
pub fn union_commutes<A, B, SA, SB, O>(a1: A, a2: A, b1: B, b2: B) -> (r: bool)
    where
        A: Rangetools<Set = SA> + RangeUnion<B, SB, Output = O>,
        B: Rangetools<Set = SB> + RangeUnion<A, SA, Output = O>,
        O: Canon,
    requires a1.wf(), b1.wf(), a1 == a2, b1 == b2,
    ensures r, //@C05
{
    let x = RangeUnion::union(a1, b1);
    let y = RangeUnion::union(b2, a2);
    proof {
        assert forall|z: real| #![trigger x.cov(z)] #![trigger y.cov(z)] x.cov(z) == y.cov(z) by { assert(x.cov(z) == (a1.cov(z) || b1.cov(z))); assert(y.cov(z) == (b2.cov(z) || a2.cov(z))); }
        O::canon(x, y);
    }
    x == y
}
//#END
//#FN theorem C05: union is associative up to == | theorems
pub fn union_associates<A, B, C, SB, SC, SBC, AB, BC, O>(a1: A, a2: A, b1: B, b2: B, c1: C, c2: C) -> (r: bool)
    where
        A: RangeUnion<B, SB, Output = AB> + RangeUnion<BC, SBC, Output = O>,
        B: Rangetools<Set = SB> + RangeUnion<C, SC, Output = BC>,
        C: Rangetools<Set = SC>,
        AB: RangeUnion<C, SC, Output = O>,
        BC: Rangetools<Set = SBC>,
        O: Canon,
    requires a1.wf(), b1.wf(), c1.wf(), a1 == a2, b1 == b2, c1 == c2,
    ensures r, //@C05
{
    let ab = RangeUnion::union(a1, b1);
    let x = RangeUnion::union(ab, c1);
    let bc = RangeUnion::union(b2, c2);
    let y = RangeUnion::union(a2, bc);
    proof {
        assert forall|z: real| #![trigger x.cov(z)] #![trigger y.cov(z)] x.cov(z) == y.cov(z) by {
            assert(x.cov(z) == (ab.cov(z) || c1.cov(z)));
            assert(ab.cov(z) == (a1.cov(z) || b1.cov(z)));
            assert(y.cov(z) == (a2.cov(z) || bc.cov(z)));
            assert(bc.cov(z) == (b2.cov(z) || c2.cov(z)));
        }
        O::canon(x, y);
    }
    x == y
}
//#END
//#FN theorem C05: uniting with something already covered changes nothing | theorems
pub fn union_absorbs<O, B, SB>(a1: O, a2: O, b: B) -> (r: bool)
    where
        O: Canon + RangeUnion<B, SB, Output = O>,
        B: Rangetools<Set = SB>,
    requires a1.wf(), b.wf(), a1 == a2, forall|x: real| #[trigger] b.cov(x) ==> a1.cov(x),
    ensures r, //@C05
{
    let x = RangeUnion::union(a1, b);
    proof {
        assert forall|z: real| #![trigger x.cov(z)] #![trigger a2.cov(z)] x.cov(z) == a2.cov(z) by { assert(x.cov(z) == (a1.cov(z) || b.cov(z))); }
        O::canon(x, a2);
    }
    x == a2
}
//#END
//#FN theorem C05: touching pieces stay separate | theorems
/// of two well-formed bounded pieces, the union holds one piece when they overlap and two when they do not
pub fn union_merges_exactly_overlaps<T: Lawful>(a: BoundedRange<T>, b: BoundedRange<T>) -> (r: BoundedSet<T>)
    requires !sp_empty(a), !sp_empty(b),
    ensures
        r.ranges@.len() == if sp_intersects(a, b) { 1int } else { 2int }, //@C05
{
    broadcast use crate::specs::group_all;
    let r: BoundedSet<T> = RangeUnion::union(a, b);
    proof {
        let s = r.ranges@;
        assert forall|x: real| #[trigger] covs(s, x) == (a.cov(x) || b.cov(x)) by { assert(r.cov(x) == (a.cov(x) || b.cov(x))); }
        let e: Seq<BoundedRange<T>> = if sp_intersects(a, b) {
            seq![BoundedRange {
                start: if a.start.cut() <= b.start.cut() { a.start } else { b.start },
                end: if a.end.cut() >= b.end.cut() { a.end } else { b.end },
            }]
        } else if a.start.cut() <= b.start.cut() { seq![a, b] } else { seq![b, a] };
        assert forall|x: real| #![trigger covs(e, x)] #![trigger covs(s, x)] covs(s, x) == covs(e, x) by {
            if sp_intersects(a, b) {
                if a.cov(x) || b.cov(x) { assert(e[0].cov(x)); }
                if covs(e, x) { assert(e[0].cov(x)); }
            } else {
                if a.cov(x) || b.cov(x) { assert(e[0].cov(x) || e[1].cov(x)); }
                if covs(e, x) { let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).cov(x); assert(k == 0 || k == 1); }
            }
        }
        canonical_seq(s, e);
    }
    r
}
//#END

// ---------------------------------------------------------------- intersection, complement, overlap
//#FN theorem C01: intersection contains exactly the common elements | theorems
pub proof fn meet_elements<O: Cov, A: Cov, B: Cov, T: Lawful>(o: O, a: A, b: B, t: T)
    requires sp_meet(o, a, b),
    ensures o.cov(t.pt()) == (a.cov(t.pt()) && b.cov(t.pt())), //@C01
{
}
//#END
//#FN theorem C03: complementing twice gives back the same elements | theorems
pub fn complement_twice<A, O, P>(a: A) -> (r: P)
    where A: RangeComplement<O>, O: RangeComplement<P>, P: Cov,
    requires a.wf(),
    ensures forall|x: real| <A as RangeComplement<O>>::comp_dom(x) && <O as RangeComplement<P>>::comp_dom(x) ==> #[trigger] r.cov(x) == a.cov(x), //@C03
{
    let o = RangeComplement::complement(a);
    let r: P = RangeComplement::complement(o);
    proof {
        assert forall|x: real| <A as RangeComplement<O>>::comp_dom(x) && <O as RangeComplement<P>>::comp_dom(x) implies #[trigger] r.cov(x) == a.cov(x) by {
            assert(r.cov(x) == !o.cov(x));
            assert(o.cov(x) == !a.cov(x));
        }
    }
    r
}
//#END
//#FN theorem C06: overlap is symmetric and the opposite of disjoint | theorems
pub fn overlap_symmetric<A, B, O1, O2>(a1: A, a2: A, a3: A, b1: B, b2: B, b3: B) -> (r: bool)
    where
        A: RangetoolsExt + RangeIntersection<B, B::Inner, Output = O1>,
        B: RangetoolsExt + RangeIntersection<A, A::Inner, Output = O2>,
        O1: Rangetools,
        O2: Rangetools,
    requires a1.wf(), b1.wf(), a1 == a2, a2 == a3, b1 == b2, b2 == b3,
    ensures r, //@C06
{
    let p = a1.intersects(b1);
    let q = b2.intersects(a2);
    let d = a3.disjoint(b3);
    proof { meet_symmetric(a1, b1); }
    p == q && d == !p
}
//#END
} // verus!
