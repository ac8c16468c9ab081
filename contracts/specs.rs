// Specification vocabulary and lemmas.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use crate::shim::*;
use crate::*;
verus! {

// ---------------------------------------------------------------- bounds as cuts
pub open spec fn ocmp(a: real, b: real) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
impl<T: Lawful> LowerBound<T> {
    pub open spec fn cut(self) -> real { match self.0 { Bound::Included(a) => a.lo(), Bound::Excluded(a) => a.hi() } }
}
impl<T: Lawful> UpperBound<T> {
    pub open spec fn cut(self) -> real { match self.0 { Bound::Included(a) => a.hi(), Bound::Excluded(a) => a.lo() } }
}
impl<T: Lawful> PartialEqSpecImpl for Bound<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool {
        match (*self, *other) {
            (Bound::Included(a), Bound::Included(b)) => a.eq_spec(&b),
            (Bound::Excluded(a), Bound::Excluded(b)) => a.eq_spec(&b),
            _ => false,
        }
    }
}
macro_rules! ord_specs { ($($t:ident),*) => { $( verus! {
impl<T: Lawful> PartialEqSpecImpl for $t<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.cut() == other.cut() }
}
impl<T: Lawful> PartialOrdSpecImpl for $t<T> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(ocmp(self.cut(), other.cut())) }
}
impl<T: Lawful> OrdSpecImpl for $t<T> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { ocmp(self.cut(), other.cut()) }
}
} )* } }
ord_specs!(LowerBound, UpperBound);

// ---------------------------------------------------------------- what each kind covers
impl<T: Lawful> Cov for BoundedRange<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { self.start.cut() < x < self.end.cut() }
}
impl<T: Lawful> Cov for LowerBoundedRange<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { self.start.cut() < x }
}
impl<T: Lawful> Cov for UpperBoundedRange<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { x < self.end.cut() }
}
impl Cov for UnboundedRange {
    open spec fn always() -> bool { true }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) { assert(self.cov(x)); }
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { true }
}
impl<T> Cov for EmptyRange<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { true }
    proof fn triv(&self, x: real) { assert(!self.cov(x)); }
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { false }
}
/// one of the first k pieces covers x
pub open spec fn covn<T: Lawful>(s: Seq<BoundedRange<T>>, k: int, x: real) -> bool {
    exists|i: int| 0 <= i < k && (#[trigger] s[i]).cov(x)
}
pub open spec fn covs<T: Lawful>(s: Seq<BoundedRange<T>>, x: real) -> bool {
    covn(s, s.len() as int, x)
}
pub open spec fn sorted<T: Lawful>(s: Seq<BoundedRange<T>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).end.cut() <= (#[trigger] s[j]).start.cut()
}
pub open spec fn solid<T: Lawful>(s: Seq<BoundedRange<T>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start.cut() < s[i].end.cut()
}
pub open spec fn wfs<T: Lawful>(s: Seq<BoundedRange<T>>) -> bool { sorted(s) && solid(s) }
pub open spec fn below<T: Lawful>(s: Seq<BoundedRange<T>>, c: real) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).end.cut() <= c
}
pub open spec fn above<T: Lawful>(s: Seq<BoundedRange<T>>, c: real) -> bool {
    forall|i: int| 0 <= i < s.len() ==> c <= (#[trigger] s[i]).start.cut()
}
impl<T: Lawful> Cov for BoundedSet<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { wfs(self.ranges@) }
    open spec fn cov(&self, x: real) -> bool { covs(self.ranges@, x) }
}
impl<T: Lawful> Cov for LowerBoundedSet<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { self.ranges.wf() && below(self.ranges.ranges@, self.lower_bounded_range.start.cut()) }
    open spec fn cov(&self, x: real) -> bool { self.ranges.cov(x) || self.lower_bounded_range.cov(x) }
}
impl<T: Lawful> Cov for UpperBoundedSet<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { self.ranges.wf() && above(self.ranges.ranges@, self.upper_bounded_range.end.cut()) }
    open spec fn cov(&self, x: real) -> bool { self.ranges.cov(x) || self.upper_bounded_range.cov(x) }
}
impl<T: Lawful> Cov for PiecewiseUnboundedSet<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool {
        &&& self.ranges.wf()
        &&& below(self.ranges.ranges@, self.lower_bounded_range.start.cut())
        &&& above(self.ranges.ranges@, self.upper_bounded_range.end.cut())
        &&& self.upper_bounded_range.end.cut() <= self.lower_bounded_range.start.cut()
    }
    open spec fn cov(&self, x: real) -> bool { self.ranges.cov(x) || self.upper_bounded_range.cov(x) || self.lower_bounded_range.cov(x) }
}
impl<T: Lawful> Cov for UnboundedSet<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { match *self { UnboundedSet::Full => true, UnboundedSet::Piecewise(p) => p.wf() } }
    open spec fn cov(&self, x: real) -> bool { match *self { UnboundedSet::Full => true, UnboundedSet::Piecewise(p) => p.cov(x) } }
}
/// a piecewise set whose bounded pieces are in order but may overlap the half-lines
pub open spec fn prewf<T: Lawful>(u: UnboundedSet<T>) -> bool {
    match u { UnboundedSet::Full => true, UnboundedSet::Piecewise(p) => p.ranges.wf() }
}

// ---------------------------------------------------------------- equality of each kind
macro_rules! eq_specs { ($($t:ident { $($f:ident),* }),*) => { $( verus! {
impl<T: Lawful> PartialEqSpecImpl for $t<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { $( PartialEqSpec::eq_spec(&self.$f, &other.$f) )&&* }
}
} )* } }
eq_specs!(BoundedRange { start, end }, LowerBoundedRange { start }, UpperBoundedRange { end }, BoundedSet { ranges },
    LowerBoundedSet { ranges, lower_bounded_range }, UpperBoundedSet { ranges, upper_bounded_range },
    PiecewiseUnboundedSet { upper_bounded_range, ranges, lower_bounded_range });
impl<T: Lawful> PartialEqSpecImpl for UnboundedSet<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool {
        match (*self, *other) {
            (UnboundedSet::Full, UnboundedSet::Full) => true,
            (UnboundedSet::Piecewise(a), UnboundedSet::Piecewise(b)) => PartialEqSpec::eq_spec(&a, &b),
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- cut points
pub open spec fn is_cut<T: Lawful>(x: real) -> bool {
    exists|t: T| #![trigger t.lo()] #![trigger t.hi()] x == t.lo() || x == t.hi()
}
/// an element is never a bound position, so contracts that exclude bound positions
/// still speak about every element
pub broadcast proof fn pt_not_cut<T: Lawful>(t: T)
    ensures !#[trigger] is_cut::<T>(t.pt()),
{
    broadcast use group_lawful;
    if is_cut::<T>(t.pt()) {
        let u = choose|u: T| #![trigger u.lo()] #![trigger u.hi()] t.pt() == u.lo() || t.pt() == u.hi();
        T::law(t, u);
    }
}

// ---------------------------------------------------------------- overlap and emptiness, by cuts
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rmax(a: real, b: real) -> real { if a <= b { b } else { a } }

pub broadcast proof fn empty_br<T: Lawful>(a: BoundedRange<T>)
    ensures #[trigger] sp_empty(a) <==> a.start.cut() >= a.end.cut(),
{
    if a.start.cut() < a.end.cut() { assert(a.cov((a.start.cut() + a.end.cut()) / 2real)); }
}
pub broadcast proof fn empty_range<T: Lawful>(a: Range<T>)
    ensures #[trigger] sp_empty(a) <==> a.start.lo() >= a.end.lo(),
{
    if a.start.lo() < a.end.lo() { assert(a.cov((a.start.lo() + a.end.lo()) / 2real)); }
}
pub broadcast proof fn empty_range_inclusive<T: Lawful>(a: RangeInclusive<T>)
    ensures #[trigger] sp_empty(a) <==> a.start.lo() >= a.end.hi(),
{
    if a.start.lo() < a.end.hi() { assert(a.cov((a.start.lo() + a.end.hi()) / 2real)); }
}
pub broadcast proof fn empty_lbr<T: Lawful>(a: LowerBoundedRange<T>) ensures !#[trigger] sp_empty(a) { assert(a.cov(a.start.cut() + 1real)); }
pub broadcast proof fn empty_ubr<T: Lawful>(a: UpperBoundedRange<T>) ensures !#[trigger] sp_empty(a) { assert(a.cov(a.end.cut() - 1real)); }
pub broadcast proof fn empty_lbs<T: Lawful>(a: LowerBoundedSet<T>) ensures !#[trigger] sp_empty(a) { assert(a.cov(a.lower_bounded_range.start.cut() + 1real)); }
pub broadcast proof fn empty_ubs<T: Lawful>(a: UpperBoundedSet<T>) ensures !#[trigger] sp_empty(a) { assert(a.cov(a.upper_bounded_range.end.cut() - 1real)); }
pub broadcast proof fn empty_us<T: Lawful>(a: UnboundedSet<T>) ensures !#[trigger] sp_empty(a) {
    match a {
        UnboundedSet::Full => { assert(a.cov(0real)); }
        UnboundedSet::Piecewise(p) => { assert(a.cov(p.upper_bounded_range.end.cut() - 1real)); }
    }
}
pub broadcast proof fn empty_from<T: Lawful>(a: RangeFrom<T>) ensures !#[trigger] sp_empty(a) { assert(a.cov(a.start.lo() + 1real)); }
pub broadcast proof fn empty_to<T: Lawful>(a: RangeTo<T>) ensures !#[trigger] sp_empty(a) { assert(a.cov(a.end.lo() - 1real)); }
pub broadcast proof fn empty_to_inclusive<T: Lawful>(a: RangeToInclusive<T>) ensures !#[trigger] sp_empty(a) { assert(a.cov(a.end.hi() - 1real)); }
pub broadcast proof fn empty_full(a: RangeFull) ensures !#[trigger] sp_empty(a) { assert(a.cov(0real)); }
pub broadcast proof fn empty_unbounded(a: UnboundedRange) ensures !#[trigger] sp_empty(a) { assert(a.cov(0real)); }
pub broadcast proof fn empty_empty<T>(a: EmptyRange<T>) ensures #[trigger] sp_empty(a) { }
pub broadcast proof fn empty_bs<T: Lawful>(a: BoundedSet<T>)
    ensures
        #![trigger sp_empty(a)]
        solid(a.ranges@) ==> (sp_empty(a) <==> a.ranges@.len() == 0),
        sp_empty(a) <==> forall|i: int| 0 <= i < a.ranges@.len() ==> (#[trigger] a.ranges@[i]).start.cut() >= a.ranges@[i].end.cut(),
{
    let s = a.ranges@;
    assert forall|i: int| 0 <= i < s.len() && sp_empty(a) implies (#[trigger] s[i]).start.cut() >= s[i].end.cut() by {
        if s[i].start.cut() < s[i].end.cut() {
            let m = (s[i].start.cut() + s[i].end.cut()) / 2real;
            assert(s[i].cov(m));
            assert(a.cov(m));
        }
    }
    if solid(s) && s.len() > 0 {
        assert(s[0].start.cut() < s[0].end.cut());
        let m = (s[0].start.cut() + s[0].end.cut()) / 2real;
        assert(s[0].cov(m));
        assert(a.cov(m));
    }
}

pub broadcast proof fn meet_br_br<T: Lawful>(a: BoundedRange<T>, b: BoundedRange<T>)
    ensures #[trigger] sp_intersects(a, b) <==> rmax(a.start.cut(), b.start.cut()) < rmin(a.end.cut(), b.end.cut()),
{
    let (l, h) = (rmax(a.start.cut(), b.start.cut()), rmin(a.end.cut(), b.end.cut()));
    if l < h { let m = (l + h) / 2real; assert(a.cov(m) && b.cov(m)); }
}
pub broadcast proof fn meet_lbr_br<T: Lawful>(a: LowerBoundedRange<T>, b: BoundedRange<T>)
    ensures
        #![trigger sp_intersects(a, b)]
        #![trigger sp_intersects(b, a)]
        sp_intersects(a, b) <==> rmax(a.start.cut(), b.start.cut()) < b.end.cut(),
        sp_intersects(b, a) <==> sp_intersects(a, b),
{
    let (l, h) = (rmax(a.start.cut(), b.start.cut()), b.end.cut());
    if l < h { let m = (l + h) / 2real; assert(a.cov(m) && b.cov(m)); }
}
pub broadcast proof fn meet_ubr_br<T: Lawful>(a: UpperBoundedRange<T>, b: BoundedRange<T>)
    ensures
        #![trigger sp_intersects(a, b)]
        #![trigger sp_intersects(b, a)]
        sp_intersects(a, b) <==> b.start.cut() < rmin(a.end.cut(), b.end.cut()),
        sp_intersects(b, a) <==> sp_intersects(a, b),
{
    let (l, h) = (b.start.cut(), rmin(a.end.cut(), b.end.cut()));
    if l < h { let m = (l + h) / 2real; assert(a.cov(m) && b.cov(m)); }
}
pub broadcast proof fn meet_ubr_lbr<T: Lawful>(a: UpperBoundedRange<T>, b: LowerBoundedRange<T>)
    ensures
        #![trigger sp_intersects(a, b)]
        #![trigger sp_intersects(b, a)]
        sp_intersects(a, b) <==> b.start.cut() < a.end.cut(),
        sp_intersects(b, a) <==> sp_intersects(a, b),
{
    let (l, h) = (b.start.cut(), a.end.cut());
    if l < h { let m = (l + h) / 2real; assert(a.cov(m) && b.cov(m)); }
}
/// overlap does not depend on the order of the operands, and nothing overlaps an empty operand
pub proof fn meet_symmetric<A: Cov, B: Cov>(a: A, b: B)
    ensures sp_intersects(a, b) == sp_intersects(b, a), sp_intersects(a, b) ==> !sp_empty(a) && !sp_empty(b),
{
    if sp_intersects(a, b) { let x = choose|x: real| #[trigger] a.cov(x) && #[trigger] b.cov(x); assert(b.cov(x) && a.cov(x)); }
    if sp_intersects(b, a) { let x = choose|x: real| #[trigger] b.cov(x) && #[trigger] a.cov(x); assert(a.cov(x) && b.cov(x)); }
}
pub broadcast proof fn ref_empty<A: Cov>(a: &A)
    ensures #[trigger] sp_empty::<&A>(a) == sp_empty::<A>(*a),
{
    if sp_empty::<A>(*a) { assert forall|x: real| !#[trigger] <&A as Cov>::cov(&a, x) by { assert(!(*a).cov(x)); } }
    if sp_empty::<&A>(a) { assert forall|x: real| !#[trigger] (*a).cov(x) by { assert(!<&A as Cov>::cov(&a, x)); } }
}
pub proof fn meet_same<A: Cov, B: Cov, C: Cov, D: Cov>(a: A, b: B, c: C, d: D)
    requires
        forall|x: real| #[trigger] a.cov(x) == c.cov(x),
        forall|x: real| #[trigger] b.cov(x) == d.cov(x),
    ensures
        sp_intersects(a, b) ==> sp_intersects(c, d),
{
    if sp_intersects(a, b) { let x = choose|x: real| #[trigger] a.cov(x) && #[trigger] b.cov(x); assert(c.cov(x) && d.cov(x)); }
}
pub broadcast proof fn ref_meet_l<A: Cov, B: Cov>(a: &A, b: B)
    ensures #[trigger] sp_intersects::<&A, B>(a, b) == sp_intersects::<A, B>(*a, b),
{
    meet_same::<&A, B, A, B>(a, b, *a, b);
    meet_same::<A, B, &A, B>(*a, b, a, b);
}
pub broadcast proof fn ref_meet_r<A: Cov, B: Cov>(a: A, b: &B)
    ensures #[trigger] sp_intersects::<A, &B>(a, b) == sp_intersects::<A, B>(a, *b),
{
    meet_same::<A, &B, A, B>(a, b, a, *b);
    meet_same::<A, B, A, &B>(a, *b, a, b);
}
pub broadcast proof fn triv_rt<R: Rangetools>(r: R, x: real)
    ensures
        #![trigger r.cov(x)]
        <R::Inner as Cov>::always() ==> r.cov(x),
        <R::Inner as Cov>::never() ==> !r.cov(x),
        <R::Set as Cov>::always() ==> r.cov(x),
        <R::Set as Cov>::never() ==> !r.cov(x),
{
    R::triv_law();
    r.triv(x);
}
pub broadcast group group_cov {
    triv_rt,
    ref_empty, ref_meet_l, ref_meet_r,
    empty_br, empty_range, empty_range_inclusive, empty_lbr, empty_ubr, empty_lbs, empty_ubs, empty_us, empty_from, empty_to,
    empty_to_inclusive, empty_full, empty_unbounded, empty_empty, empty_bs,
    meet_br_br, meet_lbr_br, meet_ubr_br, meet_ubr_lbr,
}

// ---------------------------------------------------------------- sequences of pieces
pub broadcast proof fn seq_insert<T: Lawful>(s: Seq<BoundedRange<T>>, i: int, r: BoundedRange<T>)
    requires 0 <= i <= s.len(),
    ensures
        #![trigger s.insert(i, r)]
        forall|x: real| #[trigger] covs(s.insert(i, r), x) == (covs(s, x) || r.cov(x)),
        wfs(s) && r.start.cut() < r.end.cut()
            && (forall|j: int| 0 <= j < s.len() ==> !sp_intersects(#[trigger] s[j], r))
            && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).start.cut() <= r.start.cut())
            && (i < s.len() ==> s[i].start.cut() >= r.start.cut())
            ==> wfs(s.insert(i, r)),
{
    broadcast use group_cov;
    let n = s.insert(i, r);
    assert forall|x: real| #[trigger] covs(n, x) == (covs(s, x) || r.cov(x)) by {
        if covs(s, x) {
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).cov(x);
            if k < i { assert(n[k].cov(x)); } else { assert(n[k + 1].cov(x)); }
        }
        if r.cov(x) { assert(n[i].cov(x)); }
        if covs(n, x) {
            let k = choose|k: int| 0 <= k < n.len() && (#[trigger] n[k]).cov(x);
            if k < i { assert(s[k].cov(x)); } else if k > i { assert(s[k - 1].cov(x)); }
        }
    }
    if wfs(s) && r.start.cut() < r.end.cut()
            && (forall|j: int| 0 <= j < s.len() ==> !sp_intersects(#[trigger] s[j], r))
            && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).start.cut() <= r.start.cut())
            && (i < s.len() ==> s[i].start.cut() >= r.start.cut()) {
        assert forall|j: int| 0 <= j < i implies (#[trigger] s[j]).end.cut() <= r.start.cut() by { assert(!sp_intersects(s[j], r)); }
        assert forall|j: int| i <= j < s.len() implies (#[trigger] s[j]).start.cut() >= r.end.cut() by {
            assert(!sp_intersects(s[j], r));
            if j > i { assert(s[i].end.cut() <= s[j].start.cut()); assert(s[i].start.cut() < s[i].end.cut()); }
        }
        assert forall|a: int, b: int| 0 <= a < b < n.len() implies (#[trigger] n[a]).end.cut() <= (#[trigger] n[b]).start.cut() by {
            let sa = if a < i { s[a] } else { s[a - 1] };
            let sb = if b < i { s[b] } else { s[b - 1] };
            if a == i { assert(n[b] == s[b - 1]); }
            else if b == i { assert(n[a] == s[a]); }
            else { assert(n[a] == sa && n[b] == sb); }
        }
        assert forall|a: int| 0 <= a < n.len() implies (#[trigger] n[a]).start.cut() < n[a].end.cut() by {
            if a < i { assert(n[a] == s[a]); } else if a > i { assert(n[a] == s[a - 1]); }
        }
    }
}
pub broadcast proof fn seq_remove<T: Lawful>(s: Seq<BoundedRange<T>>, i: int)
    requires 0 <= i < s.len(),
    ensures
        #![trigger s.remove(i)]
        forall|x: real| #[trigger] covs(s, x) == (covs(s.remove(i), x) || s[i].cov(x)),
        sorted(s) ==> sorted(s.remove(i)),
        solid(s) ==> solid(s.remove(i)),
{
    let n = s.remove(i);
    assert forall|x: real| #[trigger] covs(s, x) == (covs(n, x) || s[i].cov(x)) by {
        if covs(s, x) {
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).cov(x);
            if k < i { assert(n[k].cov(x)); } else if k > i { assert(n[k - 1].cov(x)); }
        }
        if covs(n, x) {
            let k = choose|k: int| 0 <= k < n.len() && (#[trigger] n[k]).cov(x);
            if k < i { assert(s[k].cov(x)); } else { assert(s[k + 1].cov(x)); }
        }
    }
    if sorted(s) {
        assert forall|a: int, b: int| 0 <= a < b < n.len() implies (#[trigger] n[a]).end.cut() <= (#[trigger] n[b]).start.cut() by {
            let ia = if a < i { a } else { a + 1 };
            let ib = if b < i { b } else { b + 1 };
            assert(n[a] == s[ia] && n[b] == s[ib]);
        }
    }
    if solid(s) {
        assert forall|a: int| 0 <= a < n.len() implies (#[trigger] n[a]).start.cut() < n[a].end.cut() by {
            let ia = if a < i { a } else { a + 1 };
            assert(n[a] == s[ia]);
        }
    }
}
pub broadcast proof fn seq_push<T: Lawful>(s: Seq<BoundedRange<T>>, r: BoundedRange<T>)
    ensures
        #![trigger s.push(r)]
        forall|x: real| #[trigger] covs(s.push(r), x) == (covs(s, x) || r.cov(x)),
        wfs(s) && r.start.cut() < r.end.cut() && below(s, r.start.cut()) ==> wfs(s.push(r)),
{
    let n = s.push(r);
    assert forall|x: real| #[trigger] covs(n, x) == (covs(s, x) || r.cov(x)) by {
        if covs(s, x) {
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).cov(x);
            assert(n[k].cov(x));
        }
        if r.cov(x) { assert(n[s.len() as int].cov(x)); }
        if covs(n, x) {
            let k = choose|k: int| 0 <= k < n.len() && (#[trigger] n[k]).cov(x);
            if k < s.len() { assert(s[k].cov(x)); }
        }
    }
}
pub broadcast proof fn seq_drop_first<T: Lawful>(s: Seq<BoundedRange<T>>)
    requires s.len() > 0,
    ensures
        #![trigger s.drop_first()]
        forall|x: real| #[trigger] covs(s, x) == (covs(s.drop_first(), x) || s[0].cov(x)),
        sorted(s) ==> sorted(s.drop_first()),
        solid(s) ==> solid(s.drop_first()),
{
    assert(s.drop_first() =~= s.remove(0));
    seq_remove(s, 0);
}
pub broadcast proof fn seq_drop_last<T: Lawful>(s: Seq<BoundedRange<T>>)
    requires s.len() > 0,
    ensures
        #![trigger s.drop_last()]
        forall|x: real| #[trigger] covs(s, x) == (covs(s.drop_last(), x) || s[s.len() - 1].cov(x)),
        sorted(s) ==> sorted(s.drop_last()),
        solid(s) ==> solid(s.drop_last()),
{
    assert(s.drop_last() =~= s.remove(s.len() - 1));
    seq_remove(s, s.len() - 1);
}
/// the non-empty pieces are in order
pub open spec fn wsorted<T: Lawful>(s: Seq<BoundedRange<T>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() && s[i].start.cut() < s[i].end.cut() && s[j].start.cut() < s[j].end.cut()
        ==> (#[trigger] s[i]).end.cut() <= (#[trigger] s[j]).start.cut()
}
/// the first k pieces of `n` are those of `s` cut down to what `o` covers
pub open spec fn pmeet<T: Lawful, A: Cov>(n: Seq<BoundedRange<T>>, k: int, s: Seq<BoundedRange<T>>, o: A) -> bool {
    forall|j: int| #![trigger n[j]] #![trigger s[j]] 0 <= j < k ==> sp_meet(n[j], s[j], o)
}
pub broadcast proof fn pmeet_all<T: Lawful, A: Cov>(n: Seq<BoundedRange<T>>, k: int, s: Seq<BoundedRange<T>>, o: A)
    requires #[trigger] pmeet(n, k, s, o), k == n.len(), n.len() == s.len(),
    ensures
        forall|x: real| #[trigger] covs(n, x) == (covs(s, x) && o.cov(x)),
        sorted(s) ==> wsorted(n),
{
    broadcast use meet_br;
    assert forall|x: real| #[trigger] covs(n, x) == (covs(s, x) && o.cov(x)) by {
        if covs(n, x) { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).cov(x); assert(sp_meet(n[i], s[i], o)); assert(s[i].cov(x)); }
        if covs(s, x) && o.cov(x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).cov(x); assert(sp_meet(n[i], s[i], o)); assert(n[i].cov(x)); }
    }
    if sorted(s) {
        assert forall|i: int, j: int| 0 <= i < j < n.len() && n[i].start.cut() < n[i].end.cut() && n[j].start.cut() < n[j].end.cut()
            implies (#[trigger] n[i]).end.cut() <= (#[trigger] n[j]).start.cut() by {
            assert(sp_meet(n[i], s[i], o) && sp_meet(n[j], s[j], o));
            assert(s[i].end.cut() <= s[j].start.cut());
        }
    }
}
/// a non-empty overlap lies within the bounds of both sides
pub broadcast proof fn meet_br<T: Lawful, A: Cov>(n: BoundedRange<T>, s: BoundedRange<T>, o: A)
    requires #[trigger] sp_meet(n, s, o),
    ensures n.start.cut() < n.end.cut() ==> n.start.cut() >= s.start.cut() && n.end.cut() <= s.end.cut(),
{
    let (l, h) = (n.start.cut(), n.end.cut());
    if l < h {
        if l < s.start.cut() { let m = (l + rmin(h, s.start.cut())) / 2real; assert(n.cov(m)); assert(s.cov(m)); }
        if h > s.end.cut() { let m = (h + rmax(l, s.end.cut())) / 2real; assert(n.cov(m)); assert(s.cov(m)); }
    }
}
pub broadcast proof fn meet_lbr<T: Lawful>(n: LowerBoundedRange<T>, s: LowerBoundedRange<T>, o: LowerBoundedRange<T>)
    requires #[trigger] sp_meet(n, s, o),
    ensures n.start.cut() == rmax(s.start.cut(), o.start.cut()),
{
    let c = rmax(s.start.cut(), o.start.cut());
    let m = (c + n.start.cut()) / 2real;
    assert(n.cov(m) == (s.cov(m) && o.cov(m)));
}
pub broadcast proof fn meet_ubr<T: Lawful>(n: UpperBoundedRange<T>, s: UpperBoundedRange<T>, o: UpperBoundedRange<T>)
    requires #[trigger] sp_meet(n, s, o),
    ensures n.end.cut() == rmin(s.end.cut(), o.end.cut()),
{
    let c = rmin(s.end.cut(), o.end.cut());
    let m = (c + n.end.cut()) / 2real;
    assert(n.cov(m) == (s.cov(m) && o.cov(m)));
}
pub broadcast proof fn fold_cov<T: Lawful>(a: BoundedSet<T>, x: real)
    ensures #[trigger] covs(a.ranges@, x) == a.cov(x),
{
}
pub broadcast proof fn seq_sub<T: Lawful>(o: Seq<BoundedRange<T>>, n: Seq<BoundedRange<T>>, m: Seq<int>)
    requires #[trigger] sub_map(o, n, m),
    ensures
        sorted(o) ==> sorted(n),
        solid(o) ==> solid(n),
        (forall|j: int| 0 <= j < o.len() ==> m.contains(j) == !sp_empty(#[trigger] o[j])) ==> solid(n) && (wsorted(o) ==> sorted(n)) && forall|x: real| #![trigger covs(n, x)] #![trigger covs(o, x)] covs(n, x) == covs(o, x),
{
    broadcast use group_cov;
    if sorted(o) {
        assert forall|a: int, b: int| 0 <= a < b < n.len() implies (#[trigger] n[a]).end.cut() <= (#[trigger] n[b]).start.cut() by {
            assert(n[a] == o[m[a]] && n[b] == o[m[b]] && m[a] < m[b]);
        }
    }
    if solid(o) {
        assert forall|a: int| 0 <= a < n.len() implies (#[trigger] n[a]).start.cut() < n[a].end.cut() by { assert(n[a] == o[m[a]]); }
    }
    if forall|j: int| 0 <= j < o.len() ==> m.contains(j) == !sp_empty(#[trigger] o[j]) {
        assert forall|a: int| 0 <= a < n.len() implies (#[trigger] n[a]).start.cut() < n[a].end.cut() by {
            assert(n[a] == o[m[a]]);
            assert(m.contains(m[a]));
            assert(!sp_empty(o[m[a]]));
        }
        if wsorted(o) {
            assert forall|a: int, b: int| 0 <= a < b < n.len() implies (#[trigger] n[a]).end.cut() <= (#[trigger] n[b]).start.cut() by {
                assert(n[a] == o[m[a]] && n[b] == o[m[b]] && m[a] < m[b]);
                assert(n[a].start.cut() < n[a].end.cut() && n[b].start.cut() < n[b].end.cut());
            }
        }
        assert forall|x: real| #![trigger covs(n, x)] #![trigger covs(o, x)] covs(n, x) == covs(o, x) by {
            if covs(n, x) {
                let k = choose|k: int| 0 <= k < n.len() && (#[trigger] n[k]).cov(x);
                assert(o[m[k]].cov(x));
            }
            if covs(o, x) {
                let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).cov(x);
                assert(!sp_empty(o[k]));
                assert(m.contains(k));
                let p = choose|p: int| 0 <= p < m.len() && m[p] == k;
                assert(n[p].cov(x));
            }
        }
    }
}
pub broadcast proof fn seq_one<T: Lawful>(s: Seq<BoundedRange<T>>, x: real)
    requires s.len() <= 1,
    ensures #[trigger] covs(s, x) == (s.len() == 1 && s[0].cov(x)),
{
    if s.len() == 1 && s[0].cov(x) { assert(covn(s, 1, x)); }
}
/// unrolling of the pieces a loop has gone through
pub broadcast proof fn covn_zero<T: Lawful>(s: Seq<BoundedRange<T>>, x: real)
    ensures !#[trigger] covn(s, 0, x),
{
}
pub broadcast proof fn covn_one<T: Lawful>(s: Seq<BoundedRange<T>>, x: real)
    ensures s.len() > 0 ==> #[trigger] covn(s, 1, x) == s[0].cov(x),
{
}
/// what is left of the pieces `s` when only those that meet `o` are kept
pub proof fn kept_meet<T: Lawful, A: Cov>(s: Seq<BoundedRange<T>>, n: Seq<BoundedRange<T>>, o: A)
    requires
        sorted(s),
        exists|m: Seq<int>| #[trigger] sub_map(s, n, m) && forall|j: int| 0 <= j < s.len() ==> m.contains(j) == sp_intersects(#[trigger] s[j], o),
    ensures
        sorted(n),
        forall|j: int| 0 <= j < n.len() ==> sp_intersects(#[trigger] n[j], o),
        forall|x: real| #![trigger covs(n, x)] #![trigger covs(s, x)] o.cov(x) ==> covs(n, x) == covs(s, x),
{
    let m = choose|m: Seq<int>| #[trigger] sub_map(s, n, m) && forall|j: int| 0 <= j < s.len() ==> m.contains(j) == sp_intersects(#[trigger] s[j], o);
    seq_sub(s, n, m);
    assert forall|j: int| 0 <= j < n.len() implies sp_intersects(#[trigger] n[j], o) by {
        assert(n[j] == s[m[j]]);
        assert(m.contains(m[j]));
    }
    assert forall|x: real| #![trigger covs(n, x)] #![trigger covs(s, x)] o.cov(x) implies covs(n, x) == covs(s, x) by {
        if covs(n, x) { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).cov(x); assert(s[m[i]].cov(x)); }
        if covs(s, x) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).cov(x);
            assert(sp_intersects(s[i], o));
            assert(m.contains(i));
            let k = choose|k: int| 0 <= k < m.len() && m[k] == i;
            assert(n[k] == s[i]);
            assert(n[k].cov(x));
        }
    }
}
pub proof fn covn_rev<T: Lawful>(s: Seq<BoundedRange<T>>)
    ensures forall|x: real| #[trigger] covn(s.reverse(), s.len() as int, x) == covn(s, s.len() as int, x),
{
    assert forall|x: real| #[trigger] covn(s.reverse(), s.len() as int, x) == covn(s, s.len() as int, x) by {
        if covn(s, s.len() as int, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).cov(x); assert(s.reverse()[s.len() - 1 - i].cov(x)); }
        if covn(s.reverse(), s.len() as int, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s.reverse()[i]).cov(x); assert(s[s.len() - 1 - i].cov(x)); }
    }
}
pub proof fn covn_tail<T: Lawful>(s: Seq<BoundedRange<T>>, k: int)
    requires 0 <= k < s.len(),
    ensures
        wfs(s) ==> forall|x: real| #![trigger covs(s, x)] x <= s[k].start.cut() ==> covs(s, x) == covn(s, k, x),
        wfs(s) ==> forall|x: real| #![trigger covs(s, x)] x <= s[k].end.cut() ==> covs(s, x) == covn(s, k + 1, x),
{
    if wfs(s) {
        assert forall|x: real| #![trigger covs(s, x)] x <= s[k].end.cut() implies covs(s, x) == covn(s, k + 1, x) by {
            if covs(s, x) {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).cov(x);
                if i > k { assert(s[k].end.cut() <= s[i].start.cut()); }
                assert(s[i].cov(x) && 0 <= i < k + 1);
            }
        }
        assert forall|x: real| #![trigger covs(s, x)] x <= s[k].start.cut() implies covs(s, x) == covn(s, k, x) by {
            if covs(s, x) {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).cov(x);
                if i > k { assert(s[k].end.cut() <= s[i].start.cut()); assert(s[k].start.cut() < s[k].end.cut()); }
                assert(s[i].cov(x) && 0 <= i < k);
            }
        }
    }
}
pub proof fn covn_tails<T: Lawful>(s: Seq<BoundedRange<T>>)
    ensures
        wfs(s) ==> forall|k: int, x: real| #![trigger s[k].cov(x), covs(s, x)] 0 <= k < s.len() && x <= s[k].end.cut()
            && (forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).end.cut() <= x) ==> covs(s, x) == s[k].cov(x),
{
    if wfs(s) {
        assert forall|k: int, x: real| #![trigger s[k].cov(x), covs(s, x)] 0 <= k < s.len() && x <= s[k].end.cut()
            && (forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).end.cut() <= x) implies covs(s, x) == s[k].cov(x) by {
            covn_tail(s, k);
            covn_step(s, k);
            if covn(s, k, x) {
                let i = choose|i: int| 0 <= i < k && (#[trigger] s[i]).cov(x);
            }
        }
    }
}
pub proof fn covn_step<T: Lawful>(s: Seq<BoundedRange<T>>, k: int)
    requires 0 <= k < s.len(),
    ensures forall|x: real| #[trigger] covn(s, k + 1, x) == (covn(s, k, x) || s[k].cov(x)),
{
    assert forall|x: real| #[trigger] covn(s, k + 1, x) == (covn(s, k, x) || s[k].cov(x)) by {
        if covn(s, k, x) { let i = choose|i: int| 0 <= i < k && (#[trigger] s[i]).cov(x); assert(0 <= i < k + 1 && s[i].cov(x)); }
        if s[k].cov(x) { assert(0 <= k < k + 1 && s[k].cov(x)); }
    }
}
// ---------------------------------------------------------------- casts that wrap
pub broadcast proof fn cast_usize_u8(n: usize)
    ensures #[trigger] (n as u8) == (n % 0x100) as int,
{
    assert((n as u8) == (n % 0x100) as int) by (bit_vector);
}
pub broadcast proof fn cast_usize_i8(n: usize)
    ensures #[trigger] (n as i8) == if n % 0x100 < 0x80 { (n % 0x100) as int } else { (n % 0x100) - 0x100 },
{
    assert((n as i8) == if n % 0x100 < 0x80 { (n % 0x100) as int } else { (n % 0x100) - 0x100 }) by (bit_vector);
}
pub broadcast proof fn cast_usize_u16(n: usize)
    ensures #[trigger] (n as u16) == (n % 0x10000) as int,
{
    assert((n as u16) == (n % 0x10000) as int) by (bit_vector);
}
pub broadcast proof fn cast_usize_i16(n: usize)
    ensures #[trigger] (n as i16) == if n % 0x10000 < 0x8000 { (n % 0x10000) as int } else { (n % 0x10000) - 0x10000 },
{
    assert((n as i16) == if n % 0x10000 < 0x8000 { (n % 0x10000) as int } else { (n % 0x10000) - 0x10000 }) by (bit_vector);
}
pub broadcast proof fn cast_usize_u32(n: usize)
    ensures #[trigger] (n as u32) == (n % 0x100000000) as int,
{
    assert((n as u32) == (n % 0x100000000) as int) by (bit_vector);
}
pub broadcast proof fn cast_usize_i32(n: usize)
    ensures #[trigger] (n as i32) == if n % 0x100000000 < 0x80000000 { (n % 0x100000000) as int } else { (n % 0x100000000) - 0x100000000 },
{
    assert((n as i32) == if n % 0x100000000 < 0x80000000 { (n % 0x100000000) as int } else { (n % 0x100000000) - 0x100000000 }) by (bit_vector);
}
pub broadcast proof fn cast_usize_u64(n: usize)
    ensures #[trigger] (n as u64) == n as int,
{
    assert((n as u64) == n as int) by (bit_vector);
}
pub broadcast proof fn cast_usize_i64(n: usize)
    ensures #[trigger] (n as i64) == if n < 0x8000000000000000 { n as int } else { n - 0x10000000000000000 },
{
    assert((n as i64) == if n < 0x8000000000000000 { n as int } else { n - 0x10000000000000000 }) by (bit_vector);
}
pub broadcast proof fn cast_usize_isize(n: usize)
    ensures #[trigger] (n as isize) == if n < 0x8000000000000000 { n as int } else { n - 0x10000000000000000 },
{
    assert((n as isize) == if n < 0x8000000000000000 { n as int } else { n - 0x10000000000000000 }) by (bit_vector);
}
pub broadcast proof fn cast_u8_i8(n: u8)
    ensures #[trigger] (n as i8) == if n < 0x80 { n as int } else { n - 0x100 },
{
    assert((n as i8) == if n < 0x80 { n as int } else { n - 0x100 }) by (bit_vector);
}
pub broadcast proof fn cast_i8_u8(n: i8)
    ensures #[trigger] (n as u8) == if n >= 0 { n as int } else { n + 0x100 },
{
    assert((n as u8) == if n >= 0 { n as int } else { n + 0x100 }) by (bit_vector);
}
pub broadcast proof fn cast_u16_i16(n: u16)
    ensures #[trigger] (n as i16) == if n < 0x8000 { n as int } else { n - 0x10000 },
{
    assert((n as i16) == if n < 0x8000 { n as int } else { n - 0x10000 }) by (bit_vector);
}
pub broadcast proof fn cast_i16_u16(n: i16)
    ensures #[trigger] (n as u16) == if n >= 0 { n as int } else { n + 0x10000 },
{
    assert((n as u16) == if n >= 0 { n as int } else { n + 0x10000 }) by (bit_vector);
}
pub broadcast proof fn cast_u32_i32(n: u32)
    ensures #[trigger] (n as i32) == if n < 0x80000000 { n as int } else { n - 0x100000000 },
{
    assert((n as i32) == if n < 0x80000000 { n as int } else { n - 0x100000000 }) by (bit_vector);
}
pub broadcast proof fn cast_i32_u32(n: i32)
    ensures #[trigger] (n as u32) == if n >= 0 { n as int } else { n + 0x100000000 },
{
    assert((n as u32) == if n >= 0 { n as int } else { n + 0x100000000 }) by (bit_vector);
}
pub broadcast proof fn cast_u64_i64(n: u64)
    ensures #[trigger] (n as i64) == if n < 0x8000000000000000 { n as int } else { n - 0x10000000000000000 },
{
    assert((n as i64) == if n < 0x8000000000000000 { n as int } else { n - 0x10000000000000000 }) by (bit_vector);
}
pub broadcast proof fn cast_i64_u64(n: i64)
    ensures #[trigger] (n as u64) == if n >= 0 { n as int } else { n + 0x10000000000000000 },
{
    assert((n as u64) == if n >= 0 { n as int } else { n + 0x10000000000000000 }) by (bit_vector);
}
pub broadcast proof fn cast_isize_usize(n: isize)
    ensures #[trigger] (n as usize) == if n >= 0 { n as int } else { n + 0x10000000000000000 },
{
    assert((n as usize) == if n >= 0 { n as int } else { n + 0x10000000000000000 }) by (bit_vector);
}
pub broadcast group group_cast { cast_usize_u8, cast_usize_i8, cast_usize_u16, cast_usize_i16, cast_usize_u32, cast_usize_i32, cast_usize_u64, cast_usize_i64, cast_usize_isize, cast_u8_i8, cast_i8_u8, cast_u16_i16, cast_i16_u16, cast_u32_i32, cast_i32_u32, cast_u64_i64, cast_i64_u64, cast_isize_usize }
// ---------------------------------------------------------------- stepping
pub broadcast proof fn step_pair<T: Step>(a: T, b: T)
    ensures
        #![trigger a.idx(), b.idx()]
        a.idx() < b.idx() <==> a.hi() < b.lo(),
        a.idx() == b.idx() <==> a == b,
        a.idx() == b.idx() <==> a.pt() == b.pt(),
        a.lo() < a.pt() < a.hi(),
        b.lo() < b.pt() < b.hi(),
{
    T::step_law(a, b);
    T::step_law(b, a);
    T::law(a, b);
    T::law(b, a);
}
pub broadcast proof fn step_one<T: Step>(a: T)
    ensures
        #![trigger a.idx()]
        #![trigger a.pt()]
        #![trigger a.lo()]
        #![trigger a.hi()]
        T::first() <= a.idx() <= T::last_(),
{
    T::step_law(a, a);
}
pub broadcast proof fn rem_has<T: Step>(i: BoundedRangeIter<T>, v: int)
    ensures #[trigger] i.rem().contains(v) <==> !i.exhausted && i.current.idx() <= v <= i.last.idx(),
{
    if !i.exhausted && i.current.idx() <= v <= i.last.idx() { assert(i.rem()[v - i.current.idx()] == v); }
}
pub broadcast group group_step { step_pair, step_one, rem_has }
/// `r` and `s` contain the same elements of T
pub open spec fn same_elems<T: Lawful, A: Cov, B: Cov>(r: A, s: B) -> bool {
    forall|t: T| r.cov(#[trigger] t.pt()) == s.cov(t.pt())
}

// ---------------------------------------------------------------- iteration
/// What is left to yield, as consecutive positions.
impl<T: Step> BoundedRangeIter<T> {
    pub open spec fn rem(self) -> Seq<int> {
        let n = if self.exhausted || self.current.idx() > self.last.idx() { 0 } else { self.last.idx() - self.current.idx() + 1 };
        Seq::new(n as nat, |i: int| self.current.idx() + i)
    }
}
#[verifier::opaque]
pub open spec fn flat<T: Step>(s: Seq<BoundedRangeIter<T>>) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { s[0].rem() + flat(s.drop_first()) }
}
impl<T: Step> BoundedSetIter<T> {
    pub open spec fn rem(self) -> Seq<int> { flat(self.range_iters@) }
}
impl<T: Step> LowerBoundedSetIter<T> {
    /// the position of the element that is `k` steps ahead
    pub open spec fn at(self, k: int) -> int {
        let n = self.set_iter.rem().len() as int;
        if k < n { self.set_iter.rem()[k] } else { self.range_iter.current.idx() + (k - n) }
    }
    /// the element after the one `k` steps ahead exists
    pub open spec fn ready(self, k: int) -> bool {
        let n = self.set_iter.rem().len() as int;
        k < n || self.range_iter.current.idx() + (k - n) < T::last_()
    }
}
pub open spec fn ascending(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub open spec fn is_front<T: Step>(o: Seq<int>, r: Option<T>) -> bool {
    match r { Some(t) => o.len() > 0 && t.idx() == o[0], None => o.len() == 0 }
}
pub open spec fn is_back<T: Step>(o: Seq<int>, r: Option<T>) -> bool {
    match r { Some(t) => o.len() > 0 && t.idx() == o[o.len() - 1], None => o.len() == 0 }
}
/// one step at the front: the first remaining element is yielded and only it is gone
pub open spec fn takes_front<T: Step>(o: Seq<int>, r: Option<T>, n: Seq<int>) -> bool {
    is_front(o, r) && n =~= if o.len() > 0 { o.drop_first() } else { o }
}
pub open spec fn takes_back<T: Step>(o: Seq<int>, r: Option<T>, n: Seq<int>) -> bool {
    is_back(o, r) && n =~= if o.len() > 0 { o.drop_last() } else { o }
}
/// `k` elements are skipped and the next one is yielded, as by `k + 1` single steps
pub open spec fn takes_nth<T: Step>(o: Seq<int>, k: int, r: Option<T>, n: Seq<int>) -> bool {
    if k < o.len() {
        r is Some && r->Some_0.idx() == o[k] && n =~= o.skip(k + 1)
    } else {
        r is None && n.len() == 0
    }
}
pub open spec fn takes_nth_back<T: Step>(o: Seq<int>, k: int, r: Option<T>, n: Seq<int>) -> bool {
    if k < o.len() {
        r is Some && r->Some_0.idx() == o[o.len() - 1 - k] && n =~= o.take(o.len() - 1 - k)
    } else {
        r is None && n.len() == 0
    }
}
/// exact when the number fits, and never wrong
pub open spec fn hint_ok(n: int, r: (usize, Option<usize>)) -> bool {
    if n <= usize::MAX { r.0 == n && r.1 == Some(n as usize) } else { r.1 is None }
}
pub proof fn flat_back<T: Step>(s: Seq<BoundedRangeIter<T>>)
    ensures flat(s) == if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s[s.len() - 1].rem() },
    decreases s.len(),
{
    reveal_with_fuel(flat, 2);
    if s.len() == 1 {
        assert(s.drop_first() =~= Seq::empty());
        assert(s.drop_last() =~= Seq::empty());
        assert(flat(s) =~= s[0].rem());
        assert(flat(s.drop_last()) =~= Seq::empty());
        assert(flat(s) =~= flat(s.drop_last()) + s[0].rem());
    } else if s.len() > 1 {
        flat_back(s.drop_first());
        assert(s.drop_first().drop_last() =~= s.drop_last().drop_first());
        assert(s.drop_first()[s.len() - 2] == s[s.len() - 1]);
        assert(s.drop_last()[0] == s[0]);
        assert(flat(s) =~= flat(s.drop_last()) + s[s.len() - 1].rem());
    }
}
pub proof fn flat_front<T: Step>(s: Seq<BoundedRangeIter<T>>)
    ensures flat(s) == if s.len() == 0 { Seq::empty() } else { s[0].rem() + flat(s.drop_first()) },
{
    reveal(flat);
}
pub broadcast proof fn flat_none<T: Step>(s: Seq<BoundedRangeIter<T>>)
    requires s.len() == 0,
    ensures #[trigger] flat(s) == Seq::<int>::empty(),
{
    reveal(flat);
}
pub broadcast proof fn flat_drop_first<T: Step>(s: Seq<BoundedRangeIter<T>>)
    requires s.len() > 0,
    ensures #![trigger flat(s), s.drop_first()] flat(s) == s[0].rem() + flat(s.drop_first()),
{
    flat_front(s);
}
pub broadcast proof fn flat_drop_last<T: Step>(s: Seq<BoundedRangeIter<T>>)
    requires s.len() > 0,
    ensures #![trigger flat(s), s.drop_last()] flat(s) == flat(s.drop_last()) + s[s.len() - 1].rem(),
{
    flat_back(s);
}
pub broadcast proof fn add_none_l(a: Seq<int>, b: Seq<int>)
    requires a.len() == 0,
    ensures #[trigger] (a + b) == b,
{
    assert(a + b =~= b);
}
pub broadcast proof fn add_none_r(a: Seq<int>, b: Seq<int>)
    requires b.len() == 0,
    ensures #[trigger] (a + b) == a,
{
    assert(a + b =~= a);
}
pub broadcast proof fn flat_update_front<T: Step>(s: Seq<BoundedRangeIter<T>>, r: BoundedRangeIter<T>)
    requires s.len() > 0,
    ensures #[trigger] flat(s.update(0, r)) == r.rem() + flat(s.drop_first()),
{
    flat_front(s.update(0, r));
    assert(s.update(0, r).drop_first() =~= s.drop_first());
}
pub broadcast proof fn flat_update_back<T: Step>(s: Seq<BoundedRangeIter<T>>, k: int, r: BoundedRangeIter<T>)
    requires s.len() > 0, k == s.len() - 1,
    ensures #[trigger] flat(s.update(k, r)) == flat(s.drop_last()) + r.rem(),
{
    flat_back(s.update(k, r));
    assert(s.update(k, r).drop_last() =~= s.drop_last());
}
pub broadcast proof fn flat_was_front<T: Step>(s: Seq<BoundedRangeIter<T>>, r: BoundedRangeIter<T>)
    requires s.len() > 0,
    ensures #![trigger flat(s), s.update(0, r)] flat(s) == s[0].rem() + flat(s.drop_first()),
{
    flat_front(s);
}
pub broadcast proof fn flat_was_back<T: Step>(s: Seq<BoundedRangeIter<T>>, k: int, r: BoundedRangeIter<T>)
    requires s.len() > 0, k == s.len() - 1,
    ensures #![trigger flat(s), s.update(k, r)] flat(s) == flat(s.drop_last()) + s[k].rem(),
{
    flat_back(s);
}
pub broadcast proof fn flat_remove<T: Step>(s: Seq<BoundedRangeIter<T>>, k: int)
    requires s.len() > 0, k == 0,
    ensures
        #![trigger flat(s), s.remove(k)]
        #![trigger flat(s.remove(k))]
        flat(s.remove(k)) == flat(s.drop_first()),
        flat(s) == s[0].rem() + flat(s.drop_first()),
{
    flat_front(s);
    assert(s.remove(0) =~= s.drop_first());
}
/// one more piece, and what is still ahead
pub proof fn flat_take<T: Step>(s: Seq<BoundedRangeIter<T>>, k: int)
    requires 0 <= k < s.len(),
    ensures
        flat(s.take(k + 1)) == flat(s.take(k)) + s[k].rem(),
        flat(s.take(0)).len() == 0,
        flat(s.take(k + 1)).len() <= flat(s).len(),
    decreases s.len() - k,
{
    broadcast use flat_none;
    flat_back(s.take(k + 1));
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    if k + 1 < s.len() { flat_take(s, k + 1); } else { assert(s.take(k + 1) =~= s); }
}
/// what the pieces yield, piece by piece
pub proof fn flat_all<T: Step>(s: Seq<BoundedRangeIter<T>>)
    ensures
        forall|v: int| #[trigger] flat(s).contains(v) <==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).rem().contains(v),
        (forall|i: int, j: int, v: int, w: int| 0 <= i < j < s.len() && #[trigger] s[i].rem().contains(v) && #[trigger] s[j].rem().contains(w) ==> v < w)
            ==> ascending(flat(s)),
    decreases s.len(),
{
    broadcast use flat_none;
    if s.len() > 0 {
        let t = s.drop_first();
        let (a, b) = (s[0].rem(), flat(t));
        flat_all(t);
        flat_front(s);
        assert(flat(s) == a + b);
        assert forall|v: int| #[trigger] flat(s).contains(v) <==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).rem().contains(v) by {
            if flat(s).contains(v) {
                let p = choose|p: int| 0 <= p < flat(s).len() && flat(s)[p] == v;
                if p < a.len() { assert(a[p] == v); assert(s[0].rem().contains(v)); }
                else {
                    assert(b[p - a.len()] == v);
                    assert(b.contains(v));
                    let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).rem().contains(v);
                    assert(s[k + 1].rem().contains(v));
                }
            }
            if exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).rem().contains(v) {
                let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).rem().contains(v);
                if k == 0 { let p = choose|p: int| 0 <= p < a.len() && a[p] == v; assert(flat(s)[p] == v); }
                else {
                    assert(t[k - 1].rem().contains(v));
                    assert(b.contains(v));
                    let p = choose|p: int| 0 <= p < b.len() && b[p] == v;
                    assert(flat(s)[p + a.len()] == v);
                }
            }
        }
        if forall|i: int, j: int, v: int, w: int| 0 <= i < j < s.len() && #[trigger] s[i].rem().contains(v) && #[trigger] s[j].rem().contains(w) ==> v < w {
            assert forall|i: int, j: int, v: int, w: int| 0 <= i < j < t.len() && #[trigger] t[i].rem().contains(v) && #[trigger] t[j].rem().contains(w) implies v < w by {
                assert(s[i + 1].rem().contains(v) && s[j + 1].rem().contains(w));
            }
            assert(ascending(b));
            assert forall|i: int, j: int| 0 <= i < j < flat(s).len() implies #[trigger] flat(s)[i] < #[trigger] flat(s)[j] by {
                if j >= a.len() {
                    let w = b[j - a.len()];
                    assert(flat(s)[j] == w);
                    assert(b.contains(w));
                    if i < a.len() {
                        assert(flat(s)[i] == a[i]);
                        assert(s[0].rem().contains(a[i]));
                        let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).rem().contains(w);
                        assert(s[k + 1].rem().contains(w));
                    } else {
                        assert(flat(s)[i] == b[i - a.len()]);
                    }
                }
            }
        }
    }
}
/// the first n iterators yield what the first n ranges contain
pub open spec fn pieces_ok<T: Step>(s: Seq<BoundedRange<T>>, r: Seq<BoundedRangeIter<T>>, n: int) -> bool {
    forall|k: int, t: T| #![trigger r[k], t.pt()] #![trigger r[k], t.idx()] 0 <= k < n ==> r[k].rem().contains(t.idx()) == s[k].cov(t.pt())
}
/// pieces whose iterators yield what the ranges contain: the whole yields what the set contains, in order
pub proof fn set_rem<T: Step>(s: Seq<BoundedRange<T>>, r: Seq<BoundedRangeIter<T>>)
    requires
        wfs(s),
        r.len() == s.len(),
        pieces_ok(s, r, r.len() as int),
    ensures
        forall|t: T| #![trigger t.pt()] #![trigger t.idx()] flat(r).contains(t.idx()) == covs(s, t.pt()),
        ascending(flat(r)),
{
    flat_all(r);
    assert forall|t: T| #![trigger t.pt()] #![trigger t.idx()] flat(r).contains(t.idx()) == covs(s, t.pt()) by {
        if flat(r).contains(t.idx()) {
            let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).rem().contains(t.idx());
            assert(s[k].cov(t.pt()));
        }
        if covs(s, t.pt()) {
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).cov(t.pt());
            assert(r[k].rem().contains(t.idx()));
        }
    }
    assert forall|i: int, j: int, v: int, w: int| 0 <= i < j < r.len() && #[trigger] r[i].rem().contains(v) && #[trigger] r[j].rem().contains(w) implies v < w by {
        set_rem_apart(s, r, i, j, v, w);
    }
}
pub proof fn set_rem_apart<T: Step>(s: Seq<BoundedRange<T>>, r: Seq<BoundedRangeIter<T>>, i: int, j: int, v: int, w: int)
    requires
        wfs(s),
        r.len() == s.len(),
        pieces_ok(s, r, r.len() as int),
        0 <= i < j < r.len(),
        r[i].rem().contains(v),
        r[j].rem().contains(w),
    ensures v < w,
{
    // both ends of the first piece and the start of the second are elements
    let (a, b) = (r[i].last, r[j].current);
    rem_has(r[i], v);
    rem_has(r[j], w);
    rem_has(r[i], a.idx());
    rem_has(r[j], b.idx());
    assert(s[i].cov(a.pt()) && s[j].cov(b.pt()));
    assert(s[i].end.cut() <= s[j].start.cut());
    step_pair(a, b);
    step_pair(b, a);
}
/// every value left is at most that of an element left
pub proof fn flat_under<T: Step>(s: Seq<BoundedRangeIter<T>>, c: int)
    requires forall|t: T| flat(s).contains(#[trigger] t.idx()) ==> t.idx() < c,
    ensures forall|v: int| #[trigger] flat(s).contains(v) ==> v < c,
{
    flat_all(s);
    assert forall|v: int| #[trigger] flat(s).contains(v) implies v < c by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).rem().contains(v);
        rem_has(s[k], v);
        rem_has(s[k], s[k].last.idx());
        assert(flat(s).contains(s[k].last.idx()));
    }
}
pub broadcast proof fn update_drop_first<T: Step>(s: Seq<BoundedRangeIter<T>>, r: BoundedRangeIter<T>)
    requires s.len() > 0,
    ensures #[trigger] s.update(0, r).drop_first() == s.drop_first(),
{
    assert(s.update(0, r).drop_first() =~= s.drop_first());
}
pub broadcast proof fn update_drop_last<T: Step>(s: Seq<BoundedRangeIter<T>>, k: int, r: BoundedRangeIter<T>)
    requires s.len() > 0, k == s.len() - 1,
    ensures #[trigger] s.update(k, r).drop_last() == s.drop_last(),
{
    assert(s.update(k, r).drop_last() =~= s.drop_last());
}
pub broadcast group group_flat { update_drop_first, update_drop_last, flat_none, flat_drop_first, flat_drop_last, add_none_l, add_none_r, flat_update_front, flat_update_back, flat_was_front, flat_was_back, flat_remove }
/// `<&mut I as Iterator>::last`: std's provided method, which steps to the end
pub trait LastMut<T: Step> {
    spec fn mrem(self) -> Seq<int>;
    fn last(self) -> (r: Option<T>)
        ensures is_back(self.mrem(), r);
}
impl<T: Step> LastMut<T> for &mut BoundedRangeIter<T> {
    open spec fn mrem(self) -> Seq<int> { (*self).rem() }
    #[verifier::loop_isolation(false)]
    fn last(self) -> (r: Option<T>)
    {
        let ghost o = (*self).rem();
        let m = self;
        let mut r: Option<T> = None;
        loop
            invariant
                (*m).rem().len() <= o.len(),
                (*m).rem() =~= o.skip(o.len() - (*m).rem().len()),
                (*m).rem().len() == o.len() ==> r is None,
                (*m).rem().len() < o.len() ==> r is Some && r->Some_0.idx() == o[o.len() - (*m).rem().len() - 1],
            decreases (*m).rem().len(),
        {
            match m.next() {
                Some(t) => { r = Some(t); }
                None => { return r; }
            }
        }
    }
}

/// for non-empty pieces, lying below (above) a cut is a matter of what they cover
pub broadcast proof fn below_cov<T: Lawful>(s: Seq<BoundedRange<T>>, c: real)
    ensures
        #![trigger below(s, c)]
        solid(s) ==> (below(s, c) <==> forall|x: real| #[trigger] covs(s, x) ==> x < c),
{
    if solid(s) {
        if forall|x: real| #[trigger] covs(s, x) ==> x < c {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).end.cut() <= c by {
                let m = (rmax(s[i].start.cut(), c) + s[i].end.cut()) / 2real;
                if c < s[i].end.cut() { assert(s[i].cov(m)); assert(covs(s, m)); }
            }
        }
    }
}
pub broadcast proof fn above_cov<T: Lawful>(s: Seq<BoundedRange<T>>, c: real)
    ensures
        #![trigger above(s, c)]
        solid(s) ==> (above(s, c) <==> forall|x: real| #[trigger] covs(s, x) ==> c < x),
{
    if solid(s) {
        if forall|x: real| #[trigger] covs(s, x) ==> c < x {
            assert forall|i: int| 0 <= i < s.len() implies c <= (#[trigger] s[i]).start.cut() by {
                let m = (rmin(s[i].end.cut(), c) + s[i].start.cut()) / 2real;
                if c > s[i].start.cut() { assert(s[i].cov(m)); assert(covs(s, m)); }
            }
        }
    }
}
pub broadcast group group_all { crate::shim::group_lawful, group_cov, group_seq }
pub broadcast group group_seq { seq_insert, seq_remove, seq_push, seq_drop_first, seq_drop_last, seq_sub, seq_one, fold_cov, pmeet_all, meet_br, meet_lbr, meet_ubr, covn_zero, covn_one, below_cov, above_cov }
} // verus!
