// Indexing (C15). `Units` gives what a sequence holds and where it may be cut; `Pos` gives
// the positions a range selects. std's own indexing is the trusted `StdIdx`; the crate's
// indexing functions are proved against `Index_`/`IndexMut_` (in bounds: returns the selection)
// and, once more, against `IndexP_`/`IndexMutP_` (no precondition on the bounds, std indexing
// panics or returns: if the function returns, the range was in bounds and the selection is right,
// so it panics wherever std does).
use vstd::prelude::*;
use crate::shim::*;
use crate::specs::*;
use crate::{BoundedRange, LowerBoundedRange, UpperBoundedRange, UnboundedRange, EmptyRange, Step};
use crate::bound::Bound;
verus! {

pub uninterp spec fn str_bytes(s: &str) -> Seq<u8>;
pub uninterp spec fn string_bytes(s: &String) -> Seq<u8>;
/// a byte position at which a UTF-8 string may be cut
pub open spec fn utf8_cut(b: Seq<u8>, i: int) -> bool {
    i == 0 || i == b.len() || (0 < i < b.len() && !(0x80 <= b[i] && b[i] < 0xC0))
}
pub trait Units {
    type E;
    spec fn els(&self) -> Seq<Self::E>;
    spec fn cut(&self, i: int) -> bool;
}
impl<T> Units for [T] {
    type E = T;
    open spec fn els(&self) -> Seq<T> { self@ }
    open spec fn cut(&self, i: int) -> bool { true }
}
impl<T> Units for Vec<T> {
    type E = T;
    open spec fn els(&self) -> Seq<T> { self@ }
    open spec fn cut(&self, i: int) -> bool { true }
}
impl Units for str {
    type E = u8;
    open spec fn els(&self) -> Seq<u8> { str_bytes(self) }
    open spec fn cut(&self, i: int) -> bool { utf8_cut(str_bytes(self), i) }
}
impl Units for String {
    type E = u8;
    open spec fn els(&self) -> Seq<u8> { string_bytes(self) }
    open spec fn cut(&self, i: int) -> bool { utf8_cut(string_bytes(self), i) }
}
/// std::ffi's string types: bytes (without the terminator)
pub struct CStr { pub b: [u8] }
pub struct OsStr { pub b: [u8] }
pub struct CString { pub b: Vec<u8> }
pub struct OsString { pub b: Vec<u8> }
impl Units for CStr {
    type E = u8;
    open spec fn els(&self) -> Seq<u8> { self.b@ }
    open spec fn cut(&self, i: int) -> bool { true }
}
impl Units for OsStr {
    type E = u8;
    open spec fn els(&self) -> Seq<u8> { self.b@ }
    open spec fn cut(&self, i: int) -> bool { true }
}
impl Units for CString {
    type E = u8;
    open spec fn els(&self) -> Seq<u8> { self.b@ }
    open spec fn cut(&self, i: int) -> bool { true }
}
impl Units for OsString {
    type E = u8;
    open spec fn els(&self) -> Seq<u8> { self.b@ }
    open spec fn cut(&self, i: int) -> bool { true }
}

/// The positions `from..to` a range stands for in a sequence of `len` elements. `exact`: it has
/// an equivalent std range; otherwise (an empty range written in another way than start..end)
/// it only selects nothing. `known`: the half-open std range needed exists at all.
pub trait Pos: Sized {
    spec fn from(self) -> int;
    spec fn to(self, len: int) -> int;
    spec fn exact(self, len: int) -> bool;
    spec fn known(self) -> bool;
}
impl Pos for Range<usize> {
    open spec fn from(self) -> int { self.start as int }
    open spec fn to(self, len: int) -> int { self.end as int }
    open spec fn exact(self, len: int) -> bool { true }
    open spec fn known(self) -> bool { true }
}
impl Pos for RangeInclusive<usize> {
    open spec fn from(self) -> int { self.start as int }
    open spec fn to(self, len: int) -> int { self.end + 1 }
    open spec fn exact(self, len: int) -> bool { true }
    open spec fn known(self) -> bool { true }
}
impl Pos for RangeFrom<usize> {
    open spec fn from(self) -> int { self.start as int }
    open spec fn to(self, len: int) -> int { len }
    open spec fn exact(self, len: int) -> bool { true }
    open spec fn known(self) -> bool { true }
}
impl Pos for RangeTo<usize> {
    open spec fn from(self) -> int { 0 }
    open spec fn to(self, len: int) -> int { self.end as int }
    open spec fn exact(self, len: int) -> bool { true }
    open spec fn known(self) -> bool { true }
}
impl Pos for RangeToInclusive<usize> {
    open spec fn from(self) -> int { 0 }
    open spec fn to(self, len: int) -> int { self.end + 1 }
    open spec fn exact(self, len: int) -> bool { true }
    open spec fn known(self) -> bool { true }
}
impl Pos for RangeFull {
    open spec fn from(self) -> int { 0 }
    open spec fn to(self, len: int) -> int { len }
    open spec fn exact(self, len: int) -> bool { true }
    open spec fn known(self) -> bool { true }
}
pub open spec fn low(b: Bound<usize>) -> int { match b { Bound::Included(t) => t as int, Bound::Excluded(t) => t + 1 } }
pub open spec fn high(b: Bound<usize>) -> int { match b { Bound::Included(t) => t + 1, Bound::Excluded(t) => t as int } }
impl Pos for BoundedRange<usize> {
    open spec fn from(self) -> int { low(self.start.0) }
    open spec fn to(self, len: int) -> int { high(self.end.0) }
    open spec fn exact(self, len: int) -> bool { low(self.start.0) < high(self.end.0) || (self.start.0 is Included && self.end.0 is Excluded) }
    open spec fn known(self) -> bool { high(self.end.0) <= usize::MAX }
}
impl Pos for LowerBoundedRange<usize> {
    open spec fn from(self) -> int { low(self.start.0) }
    open spec fn to(self, len: int) -> int { len }
    open spec fn exact(self, len: int) -> bool { true }
    open spec fn known(self) -> bool { low(self.start.0) <= usize::MAX }
}
impl Pos for UpperBoundedRange<usize> {
    open spec fn from(self) -> int { 0 }
    open spec fn to(self, len: int) -> int { high(self.end.0) }
    open spec fn exact(self, len: int) -> bool { true }
    open spec fn known(self) -> bool { high(self.end.0) <= usize::MAX }
}
impl Pos for UnboundedRange {
    open spec fn from(self) -> int { 0 }
    open spec fn to(self, len: int) -> int { len }
    open spec fn exact(self, len: int) -> bool { true }
    open spec fn known(self) -> bool { true }
}
impl Pos for EmptyRange<usize> {
    open spec fn from(self) -> int { 0 }
    open spec fn to(self, len: int) -> int { 0 }
    open spec fn exact(self, len: int) -> bool { true }
    open spec fn known(self) -> bool { true }
}
pub open spec fn a_of<C: Units + ?Sized, R: Pos>(c: &C, r: R) -> int { r.from() }
pub open spec fn b_of<C: Units + ?Sized, R: Pos>(c: &C, r: R) -> int { r.to(c.els().len() as int) }
/// where std's indexing returns
pub open spec fn in_bounds<C: Units + ?Sized, R: Pos>(c: &C, r: R) -> bool {
    let n = c.els().len() as int;
    0 <= r.from() <= r.to(n) <= n && c.cut(r.from()) && c.cut(r.to(n))
}
/// `o` is the selected part of `c`
pub open spec fn selected<C: Units + ?Sized, O: Units<E = C::E> + ?Sized, R: Pos>(c: &C, r: R, o: &O) -> bool {
    o.els() == c.els().subrange(r.from(), r.to(c.els().len() as int))
}
/// writing `o1` through the selection turns `c` into `c1`
pub open spec fn written<C: Units + ?Sized, O: Units<E = C::E> + ?Sized, R: Pos>(c: &C, r: R, o1: &O, c1: &C) -> bool {
    let n = c.els().len() as int;
    c1.els() == c.els().take(r.from()) + o1.els() + c.els().skip(r.to(n))
}

pub trait StdIdx<R: Pos>: Units {
    type Output: ?Sized + Units<E = Self::E>;
    fn std_index(&self, r: R) -> (o: &Self::Output)
        requires in_bounds(self, r), //@C15
        ensures selected(self, r, o),
    ;
    fn std_index_p(&self, r: R) -> (o: &Self::Output)
        ensures in_bounds(self, r), selected(self, r, o),
    ;
}
pub trait StdIdxMut<R: Pos>: StdIdx<R> {
    fn std_index_mut(&mut self, r: R) -> (o: &mut Self::Output)
        requires in_bounds(old(self), r), //@C15
        ensures selected(old(self), r, o), written(old(self), r, final(o), final(self)),
    ;
    fn std_index_mut_p(&mut self, r: R) -> (o: &mut Self::Output)
        ensures in_bounds(old(self), r), selected(old(self), r, o), written(old(self), r, final(o), final(self)),
    ;
}
// one impl per indexing std offers and the crate uses (or could)
macro_rules! std_idx { ($r:ty) => { verus! {
impl<T> StdIdx<$r> for [T] {
    type Output = [T];
    #[verifier::external_body]
    fn std_index(&self, r: $r) -> &[T] { unimplemented!() }
    #[verifier::external_body]
    fn std_index_p(&self, r: $r) -> &[T] { unimplemented!() }
}
impl<T> StdIdxMut<$r> for [T] {
    #[verifier::external_body]
    fn std_index_mut(&mut self, r: $r) -> &mut [T] { unimplemented!() }
    #[verifier::external_body]
    fn std_index_mut_p(&mut self, r: $r) -> &mut [T] { unimplemented!() }
}
impl<T> StdIdx<$r> for Vec<T> {
    type Output = [T];
    #[verifier::external_body]
    fn std_index(&self, r: $r) -> &[T] { unimplemented!() }
    #[verifier::external_body]
    fn std_index_p(&self, r: $r) -> &[T] { unimplemented!() }
}
impl<T> StdIdxMut<$r> for Vec<T> {
    #[verifier::external_body]
    fn std_index_mut(&mut self, r: $r) -> &mut [T] { unimplemented!() }
    #[verifier::external_body]
    fn std_index_mut_p(&mut self, r: $r) -> &mut [T] { unimplemented!() }
}
impl StdIdx<$r> for str {
    type Output = str;
    #[verifier::external_body]
    fn std_index(&self, r: $r) -> &str { unimplemented!() }
    #[verifier::external_body]
    fn std_index_p(&self, r: $r) -> &str { unimplemented!() }
}
impl StdIdxMut<$r> for str {
    #[verifier::external_body]
    fn std_index_mut(&mut self, r: $r) -> &mut str { unimplemented!() }
    #[verifier::external_body]
    fn std_index_mut_p(&mut self, r: $r) -> &mut str { unimplemented!() }
}
impl StdIdx<$r> for String {
    type Output = str;
    #[verifier::external_body]
    fn std_index(&self, r: $r) -> &str { unimplemented!() }
    #[verifier::external_body]
    fn std_index_p(&self, r: $r) -> &str { unimplemented!() }
}
impl StdIdxMut<$r> for String {
    #[verifier::external_body]
    fn std_index_mut(&mut self, r: $r) -> &mut str { unimplemented!() }
    #[verifier::external_body]
    fn std_index_mut_p(&mut self, r: $r) -> &mut str { unimplemented!() }
}
} } }
std_idx!(Range<usize>);
std_idx!(RangeInclusive<usize>);
std_idx!(RangeFrom<usize>);
std_idx!(RangeTo<usize>);
std_idx!(RangeToInclusive<usize>);
std_idx!(RangeFull);
impl StdIdx<RangeFrom<usize>> for CStr {
    type Output = CStr;
    #[verifier::external_body]
    fn std_index(&self, r: RangeFrom<usize>) -> &CStr { unimplemented!() }
    #[verifier::external_body]
    fn std_index_p(&self, r: RangeFrom<usize>) -> &CStr { unimplemented!() }
}
impl StdIdx<RangeFull> for CString {
    type Output = CStr;
    #[verifier::external_body]
    fn std_index(&self, r: RangeFull) -> &CStr { unimplemented!() }
    #[verifier::external_body]
    fn std_index_p(&self, r: RangeFull) -> &CStr { unimplemented!() }
}
impl StdIdx<RangeFull> for OsString {
    type Output = OsStr;
    #[verifier::external_body]
    fn std_index(&self, r: RangeFull) -> &OsStr { unimplemented!() }
    #[verifier::external_body]
    fn std_index_p(&self, r: RangeFull) -> &OsStr { unimplemented!() }
}
impl StdIdxMut<RangeFull> for OsString {
    #[verifier::external_body]
    fn std_index_mut(&mut self, r: RangeFull) -> &mut OsStr { unimplemented!() }
    #[verifier::external_body]
    fn std_index_mut_p(&mut self, r: RangeFull) -> &mut OsStr { unimplemented!() }
}

pub trait Index_<R: Pos>: Units {
    type Output: ?Sized + Units<E = Self::E>;
    fn index(&self, r: R) -> (o: &Self::Output)
        requires r.known(), r.exact(self.els().len() as int), in_bounds(self, r),
        ensures selected(self, r, o), //@C15
    ;
}
pub trait IndexMut_<R: Pos>: Index_<R> {
    fn index_mut(&mut self, r: R) -> (o: &mut Self::Output)
        requires r.known(), r.exact(old(self).els().len() as int), in_bounds(old(self), r),
        ensures
            selected(old(self), r, o), //@C15
            written(old(self), r, final(o), final(self)), //@C15
    ;
}
pub trait IndexP_<R: Pos>: Units {
    type Output: ?Sized + Units<E = Self::E>;
    fn index_p(&self, r: R) -> (o: &Self::Output)
        ensures
            r.exact(self.els().len() as int) ==> in_bounds(self, r), //@C15
            r.exact(self.els().len() as int) ==> selected(self, r, o), //@C15
            !r.exact(self.els().len() as int) ==> o.els().len() == 0, //@C15
    ;
}
pub trait IndexMutP_<R: Pos>: IndexP_<R> {
    fn index_mut_p(&mut self, r: R) -> (o: &mut Self::Output)
        ensures
            r.exact(old(self).els().len() as int) ==> in_bounds(old(self), r), //@C15
            r.exact(old(self).els().len() as int) ==> selected(old(self), r, o), //@C15
            r.exact(old(self).els().len() as int) ==> written(old(self), r, final(o), final(self)), //@C15
            !r.exact(old(self).els().len() as int) ==> o.els().len() == 0, //@C15
    ;
}

pub open spec fn tt(t: usize) -> bool { true }
// a std range with the same elements has the same positions
pub broadcast proof fn same_bounded(r: Range<usize>, s: BoundedRange<usize>)
    requires #[trigger] same_elems::<usize, Range<usize>, BoundedRange<usize>>(r, s),
    ensures
        low(s.start.0) < high(s.end.0) && high(s.end.0) <= usize::MAX ==> r.start == low(s.start.0) && r.end == high(s.end.0),
        low(s.start.0) >= high(s.end.0) ==> r.start >= r.end,
{
    let (a, b) = (low(s.start.0), high(s.end.0));
    assert forall|t: usize| #[trigger] tt(t) implies (r.start <= t < r.end) == (a <= t < b) by {
        assert(r.cov(t.pt()) == s.cov(t.pt()));
        reals(t, r.start); reals(t, r.end);
        match s.start.0 { Bound::Included(x) => reals(t, x), Bound::Excluded(x) => reals(t, x) }
        match s.end.0 { Bound::Included(x) => reals(t, x), Bound::Excluded(x) => reals(t, x) }
    }
    if a < b && b <= usize::MAX {
        let (x, y) = (a as usize, (b - 1) as usize);
        assert(tt(x) && tt(y) && tt(r.start));
        assert(r.start <= x < r.end);
        assert(r.start <= y < r.end);
        if r.start < a { assert(r.start <= r.start < r.end); }
        if r.end > b { let z = b as usize; assert(tt(z)); assert(r.start <= z < r.end); }
    }
    if a >= b && tt(r.start) && r.start < r.end { assert(r.start <= r.start < r.end); }
}
pub broadcast proof fn same_inclusive(r: RangeInclusive<usize>, s: BoundedRange<usize>)
    requires #[trigger] same_elems::<usize, RangeInclusive<usize>, BoundedRange<usize>>(r, s),
    ensures
        low(s.start.0) < high(s.end.0) && high(s.end.0) <= usize::MAX ==> r.start == low(s.start.0) && r.end == high(s.end.0) - 1,
        low(s.start.0) >= high(s.end.0) ==> r.start > r.end,
{
    let (a, b) = (low(s.start.0), high(s.end.0));
    assert forall|t: usize| #[trigger] tt(t) implies (r.start <= t <= r.end) == (a <= t < b) by {
        assert(r.cov(t.pt()) == s.cov(t.pt()));
        reals(t, r.start); reals(t, r.end);
        match s.start.0 { Bound::Included(x) => reals(t, x), Bound::Excluded(x) => reals(t, x) }
        match s.end.0 { Bound::Included(x) => reals(t, x), Bound::Excluded(x) => reals(t, x) }
    }
    if a < b && b <= usize::MAX {
        let (x, y) = (a as usize, (b - 1) as usize);
        assert(tt(x) && tt(y) && tt(r.start));
        assert(r.start <= x <= r.end);
        assert(r.start <= y <= r.end);
        if r.start < a { assert(r.start <= r.start <= r.end); }
        if r.end >= b { let z = b as usize; assert(tt(z)); assert(r.start <= z <= r.end); }
    }
    if a >= b && tt(r.start) && r.start <= r.end { assert(r.start <= r.start <= r.end); }
}
pub broadcast proof fn same_lower(r: RangeFrom<usize>, s: LowerBoundedRange<usize>)
    requires #[trigger] same_elems::<usize, RangeFrom<usize>, LowerBoundedRange<usize>>(r, s),
    ensures low(s.start.0) <= usize::MAX ==> r.start == low(s.start.0),
{
    let a = low(s.start.0);
    assert forall|t: usize| #[trigger] tt(t) implies (r.start <= t) == (a <= t) by {
        assert(r.cov(t.pt()) == s.cov(t.pt()));
        reals(t, r.start);
        match s.start.0 { Bound::Included(x) => reals(t, x), Bound::Excluded(x) => reals(t, x) }
    }
    if a <= usize::MAX { let x = a as usize; assert(tt(x) && tt(r.start)); assert(r.start <= x); assert(r.start <= r.start); }
}
pub broadcast proof fn same_upper(r: RangeTo<usize>, s: UpperBoundedRange<usize>)
    requires #[trigger] same_elems::<usize, RangeTo<usize>, UpperBoundedRange<usize>>(r, s),
    ensures high(s.end.0) <= usize::MAX ==> r.end == high(s.end.0),
{
    let b = high(s.end.0);
    assert forall|t: usize| #[trigger] tt(t) implies (t < r.end) == (t < b) by {
        assert(r.cov(t.pt()) == s.cov(t.pt()));
        reals(t, r.end);
        match s.end.0 { Bound::Included(x) => reals(t, x), Bound::Excluded(x) => reals(t, x) }
    }
    if b <= usize::MAX {
        if r.end < b { let z = r.end; assert(tt(z)); assert(z < b); assert(z < r.end); }
        if b < r.end { let z = b as usize; assert(tt(z)); assert(z < r.end); assert(z < b); }
    }
}
pub broadcast proof fn same_empty(r: Range<usize>, s: EmptyRange<usize>)
    requires #[trigger] same_elems::<usize, Range<usize>, EmptyRange<usize>>(r, s),
    ensures r.start >= r.end,
{
    let t = r.start;
    assert(r.cov(t.pt()) == s.cov(t.pt()));
    reals(t, r.end);
}
pub proof fn reals(t: usize, x: usize)
    ensures
        x.lo() < t.pt() <==> x <= t,
        t.pt() < x.hi() <==> t <= x,
        x.hi() < t.pt() <==> x < t,
        t.pt() < x.lo() <==> t < x,
{
}
pub broadcast group group_index { same_bounded, same_inclusive, same_lower, same_upper, same_empty }
} // verus!
