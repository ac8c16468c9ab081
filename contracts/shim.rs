// Stand-ins for the parts of std that the extracted code uses, with their contracts.
// Everything here is itself verified; what is trusted is that std behaves the same
// (DESIGN.md, "Trusted base").
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {

// ---------------------------------------------------------------- element types
/// The element type is totally ordered and copyable. `lo`/`pt`/`hi` place every value
/// on the real line as a small interval around a point; the laws say that the order of
/// the type is the order of those intervals. Every total order restricted to the
/// finitely many values one execution touches has such a placement.
pub trait Lawful: Ord + Copy + Dup {
    spec fn lo(self) -> real;
    spec fn pt(self) -> real;
    spec fn hi(self) -> real;
    proof fn law(a: Self, b: Self)
        ensures
            a.lo() < a.pt() < a.hi(),
            a.partial_cmp_spec(&b) == Some(Ordering::Less) <==> a.hi() < b.lo(),
            a.partial_cmp_spec(&b) == Some(Ordering::Greater) <==> b.hi() < a.lo(),
            a.partial_cmp_spec(&b) == Some(Ordering::Equal) <==> (a.lo() == b.lo() && a.hi() == b.hi() && a.pt() == b.pt()),
            a.partial_cmp_spec(&b).is_some(),
            a.eq_spec(&b) <==> (a.partial_cmp_spec(&b) == Some(Ordering::Equal)),
            a.cmp_spec(&b) == a.partial_cmp_spec(&b).unwrap(),
            Self::obeys_partial_cmp_spec(),
            Self::obeys_cmp_spec(),
            Self::obeys_eq_spec(),
    ;
}
pub broadcast proof fn law_c<T: Lawful>(a: T, b: T)
    ensures
        #![trigger a.partial_cmp_spec(&b)]
        a.lo() < a.pt() < a.hi(),
        b.lo() < b.pt() < b.hi(),
        a.partial_cmp_spec(&b) == Some(Ordering::Less) <==> a.hi() < b.lo(),
        a.partial_cmp_spec(&b) == Some(Ordering::Greater) <==> b.hi() < a.lo(),
        a.partial_cmp_spec(&b) == Some(Ordering::Equal) <==> (a.lo() == b.lo() && a.hi() == b.hi() && a.pt() == b.pt()),
        a.partial_cmp_spec(&b).is_some(),
{
    T::law(a, b);
    T::law(b, a);
}
pub broadcast proof fn law_m<T: Lawful>(a: T, b: T)
    ensures
        #![trigger a.cmp_spec(&b)]
        a.lo() < a.pt() < a.hi(),
        b.lo() < b.pt() < b.hi(),
        a.cmp_spec(&b) == Ordering::Less <==> a.hi() < b.lo(),
        a.cmp_spec(&b) == Ordering::Greater <==> b.hi() < a.lo(),
        a.cmp_spec(&b) == Ordering::Equal <==> (a.lo() == b.lo() && a.hi() == b.hi() && a.pt() == b.pt()),
{
    T::law(a, b);
    T::law(b, a);
}
pub broadcast proof fn law_e<T: Lawful>(a: T, b: T)
    ensures
        #![trigger a.eq_spec(&b)]
        a.lo() < a.pt() < a.hi(),
        b.lo() < b.pt() < b.hi(),
        a.eq_spec(&b) <==> (a.lo() == b.lo() && a.hi() == b.hi() && a.pt() == b.pt()),
        !a.eq_spec(&b) <==> (a.hi() < b.lo() || b.hi() < a.lo()),
{
    T::law(a, b);
    T::law(b, a);
}
pub broadcast proof fn law_o<T: Lawful>()
    ensures #[trigger] T::obeys_partial_cmp_spec(),
{
    let a: T = arbitrary();
    T::law(a, a);
}
pub broadcast proof fn law_o1<T: Lawful>()
    ensures #[trigger] T::obeys_cmp_spec(),
{
    let a: T = arbitrary();
    T::law(a, a);
}
pub broadcast proof fn law_o2<T: Lawful>()
    ensures #[trigger] T::obeys_eq_spec(),
{
    let a: T = arbitrary();
    T::law(a, a);
}
pub broadcast proof fn law_lo<T: Lawful>(a: T)
    ensures #![trigger a.lo()] #![trigger a.hi()] #![trigger a.pt()] a.lo() < a.pt() < a.hi(),
{
    T::law(a, a);
}
/// two values are either the same place or apart
pub broadcast proof fn law_apart<T: Lawful>(a: T, b: T)
    ensures
        #![trigger a.lo(), b.lo()]
        #![trigger a.lo(), b.hi()]
        #![trigger a.hi(), b.hi()]
        #![trigger a.pt(), b.pt()]
        #![trigger a.pt(), b.lo()]
        #![trigger a.pt(), b.hi()]
        (a.lo() == b.lo() && a.pt() == b.pt() && a.hi() == b.hi()) || a.hi() < b.lo() || b.hi() < a.lo(),
        a.lo() < a.pt() < a.hi(),
        b.lo() < b.pt() < b.hi(),
{
    T::law(a, b);
    T::law(b, a);
}
pub broadcast group group_point { law_apart }
pub broadcast group group_lawful {
    meet_empty, triv_cov, law_c, law_m, law_e, law_o, law_o1, law_o2, law_lo,
}

// ---------------------------------------------------------------- coverage
/// What a range or set covers, as a set of reals between bound positions ("cuts").
/// `always`/`never` mark the kinds whose values all cover everything / nothing.
pub trait Cov: Sized {
    spec fn wf(&self) -> bool;
    spec fn cov(&self, x: real) -> bool;
    spec fn always() -> bool;
    spec fn never() -> bool;
    proof fn triv(&self, x: real)
        ensures
            Self::always() ==> self.cov(x),
            Self::never() ==> !self.cov(x),
    ;
}
impl<A: Cov> Cov for &A {
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn cov(&self, x: real) -> bool { (**self).cov(x) }
    open spec fn always() -> bool { A::always() }
    open spec fn never() -> bool { A::never() }
    proof fn triv(&self, x: real) { (**self).triv(x); }
}
pub broadcast proof fn triv_cov<A: Cov>(a: A, x: real)
    ensures
        #![trigger a.cov(x)]
        A::always() ==> a.cov(x),
        A::never() ==> !a.cov(x),
{
    a.triv(x);
}
pub open spec fn sp_empty<A: Cov>(a: A) -> bool { forall|x: real| !#[trigger] a.cov(x) }
pub open spec fn sp_intersects<A: Cov, B: Cov>(a: A, b: B) -> bool {
    exists|x: real| #[trigger] a.cov(x) && #[trigger] b.cov(x)
}
/// `o` covers exactly what both `a` and `b` cover
pub open spec fn sp_meet<O: Cov, A: Cov, B: Cov>(o: O, a: A, b: B) -> bool {
    forall|x: real| #![trigger o.cov(x)] #![trigger a.cov(x), b.cov(x)] o.cov(x) == (a.cov(x) && b.cov(x))
}
pub broadcast proof fn meet_empty<O: Cov, A: Cov, B: Cov>(o: O, a: A, b: B)
    requires #[trigger] sp_meet(o, a, b),
    ensures sp_empty(o) == !sp_intersects(a, b),
{
    if sp_intersects(a, b) { let x = choose|x: real| #[trigger] a.cov(x) && #[trigger] b.cov(x); assert(o.cov(x)); }
    if !sp_empty(o) { let x = choose|x: real| #[trigger] o.cov(x); assert(a.cov(x) && b.cov(x)); }
}
pub open spec fn sp_contains<A: Cov, T: Lawful>(a: A, t: T) -> bool { a.cov(t.pt()) }
pub open spec fn sp_lt<A: PartialOrd>(a: A, b: A) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn sp_eq<A: PartialEq>(a: A, b: A) -> bool { a.eq_spec(&b) }

// ---------------------------------------------------------------- integers and chars
global size_of usize == 8;
pub const CHAR_MAX: char = '\u{10FFFF}';
pub assume_specification [ char::from_u32_unchecked ] (i: u32) -> (r: char)
    requires i <= 0xD7FF || 0xE000 <= i <= 0x10FFFF, //@C10
    ensures r as u32 == i,
;
pub fn char_from_u32(i: u32) -> (r: Option<char>)
    ensures match r { Some(c) => c as u32 == i, None => (0xD800 <= i < 0xE000) || i > 0x10FFFF },
{
    if i <= 0xD7FF || (0xE000 <= i && i <= 0x10FFFF) { Some(unsafe { char::from_u32_unchecked(i) }) } else { None }
}
/// `X::try_from(n)` between integer types
pub trait TryInt<S>: Sized {
    spec fn val(self) -> int;
    spec fn src(s: S) -> int;
    spec fn fits(i: int) -> bool;
    fn try_int(s: S) -> (r: Result<Self, ()>)
        ensures match r { Ok(x) => x.val() == Self::src(s), Err(_) => !Self::fits(Self::src(s)) },
    ;
}
macro_rules! try_int { ($([$t:ident $($s:ident)*])*) => { $( $( verus! {
impl TryInt<$s> for $t {
    open spec fn val(self) -> int { self as int }
    open spec fn src(s: $s) -> int { s as int }
    open spec fn fits(i: int) -> bool { $t::MIN <= i <= $t::MAX }
    #[allow(unused_comparisons)]
    fn try_int(s: $s) -> Result<Self, ()> { if s as i128 >= $t::MIN as i128 && s as i128 <= $t::MAX as i128 { Ok(s as $t) } else { Err(()) } }
}
} )* )* } }
macro_rules! try_int_u { ($($t:ident $s:ident),*) => { $( verus! {
impl TryInt<$s> for $t {
    open spec fn val(self) -> int { self as int }
    open spec fn src(s: $s) -> int { s as int }
    open spec fn fits(i: int) -> bool { $t::MIN <= i <= $t::MAX }
    fn try_int(s: $s) -> Result<Self, ()> { if s as u128 <= $t::MAX as u128 { Ok(s as $t) } else { Err(()) } }
}
} )* } }
try_int!([u8 i8 u16 i16 u32 i32 u64 i64 usize isize i128] [i8 u8 u16 i16 u32 i32 u64 i64 usize isize i128] [u16 u8 i8 i16 u32 i32 u64 i64 usize isize i128] [i16 u8 i8 u16 u32 i32 u64 i64 usize isize i128] [u32 u8 i8 u16 i16 i32 u64 i64 usize isize i128] [i32 u8 i8 u16 i16 u32 u64 i64 usize isize i128] [u64 u8 i8 u16 i16 u32 i32 i64 usize isize i128] [i64 u8 i8 u16 i16 u32 i32 u64 usize isize i128] [usize u8 i8 u16 i16 u32 i32 u64 i64 usize isize i128] [isize u8 i8 u16 i16 u32 i32 u64 i64 usize i128]);
try_int_u!(u8 u128, i8 u128, u16 u128, i16 u128, u32 u128, i32 u128, u64 u128, i64 u128, usize u128, isize u128, u128 usize, u128 u64, u128 u32, u128 u8);
// integer methods vstd has no specification for
pub trait IntX: Sized {
    type U;
    spec fn int_(self) -> int;
    spec fn uint_(u: Self::U) -> int;
    spec fn min_() -> int;
    spec fn max_() -> int;
    fn abs_diff_(self, o: Self) -> (r: Self::U)
        ensures Self::uint_(r) == if self.int_() < o.int_() { o.int_() - self.int_() } else { self.int_() - o.int_() },
    ;
    fn overflowing_add_(self, o: Self) -> (r: (Self, bool))
        ensures
            r.1 == (self.int_() + o.int_() < Self::min_() || self.int_() + o.int_() > Self::max_()),
            Self::min_() <= r.0.int_() <= Self::max_(),
            r.0.int_() == self.int_() + o.int_()
                || r.0.int_() == self.int_() + o.int_() - (Self::max_() - Self::min_() + 1)
                || r.0.int_() == self.int_() + o.int_() + (Self::max_() - Self::min_() + 1),
    ;
    fn overflowing_sub_(self, o: Self) -> (r: (Self, bool))
        ensures
            r.1 == (self.int_() - o.int_() < Self::min_() || self.int_() - o.int_() > Self::max_()),
            Self::min_() <= r.0.int_() <= Self::max_(),
            r.0.int_() == self.int_() - o.int_()
                || r.0.int_() == self.int_() - o.int_() - (Self::max_() - Self::min_() + 1)
                || r.0.int_() == self.int_() - o.int_() + (Self::max_() - Self::min_() + 1),
    ;
}
macro_rules! intx { ($($t:ident $u:ident $b:ident)*) => { $( verus! {
impl IntX for $t {
    type U = $u;
    open spec fn int_(self) -> int { self as int }
    open spec fn uint_(u: $u) -> int { u as int }
    open spec fn min_() -> int { $t::MIN as int }
    open spec fn max_() -> int { $t::MAX as int }
    fn abs_diff_(self, o: Self) -> (r: $u) { intx_diff!($b self o $t $u) }
    fn overflowing_add_(self, o: Self) -> (r: (Self, bool)) { (self.wrapping_add(o), self.checked_add(o).is_none()) }
    fn overflowing_sub_(self, o: Self) -> (r: (Self, bool)) { (self.wrapping_sub(o), self.checked_sub(o).is_none()) }
}
} )* } }
macro_rules! intx_diff {
    (un $s:ident $o:ident $t:ident $u:ident) => { if $s < $o { $o - $s } else { $s - $o } };
    (sg $s:ident $o:ident $t:ident $u:ident) => {{
        let (a, b) = if $s < $o { ($s, $o) } else { ($o, $s) };
        if a < 0 && b >= 0 { b as $u + (-(a + 1)) as $u + 1 } else { (b - a) as $u }
    }};
}
intx!(u8 u8 un u16 u16 un u32 u32 un u64 u64 un usize usize un u128 u128 un i8 u8 sg i16 u16 sg i32 u32 sg i64 u64 sg isize usize sg i128 u128 sg);
macro_rules! lawful { ($($t:ident)*) => { $( verus! {
impl Dup for $t { fn dup(&self) -> Self { *self } }
impl Lawful for $t {
    open spec fn lo(self) -> real { self as int as real - 0.25real }
    open spec fn pt(self) -> real { self as int as real }
    open spec fn hi(self) -> real { self as int as real + 0.25real }
    proof fn law(a: Self, b: Self) {}
}
} )* } }
macro_rules! zero { ($($t:ident)*) => { $( verus! {
impl Default_ for $t {
    open spec fn default_spec() -> Self { 0 }
    open spec fn default_ok(r: Self) -> bool { true }
    fn default_() -> Self { 0 }
}
} )* } }
zero!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);
lawful!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);
impl Dup for char { fn dup(&self) -> Self { *self } }
/// std compares chars by code point (trusted: vstd has no specification for char)
#[verifier::external_body]
pub proof fn char_order(a: char, b: char)
    ensures
        PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(if (a as u32) < (b as u32) { Ordering::Less } else if a as u32 == b as u32 { Ordering::Equal } else { Ordering::Greater }),
        OrdSpec::cmp_spec(&a, &b) == (if (a as u32) < (b as u32) { Ordering::Less } else if a as u32 == b as u32 { Ordering::Equal } else { Ordering::Greater }),
        PartialEqSpec::eq_spec(&a, &b) == (a as u32 == b as u32),
        <char as PartialOrdSpec>::obeys_partial_cmp_spec(),
        <char as OrdSpec>::obeys_cmp_spec(),
        <char as PartialEqSpec>::obeys_eq_spec(),
{
}
impl Lawful for char {
    open spec fn lo(self) -> real { self as u32 as int as real - 0.25real }
    open spec fn pt(self) -> real { self as u32 as int as real }
    open spec fn hi(self) -> real { self as u32 as int as real + 0.25real }
    proof fn law(a: Self, b: Self) { char_order(a, b); }
}

// ---------------------------------------------------------------- Clone, From, Default
pub trait Dup: Sized {
    fn dup(&self) -> (r: Self)
        ensures r == *self,
    ;
}
impl Dup for bool { fn dup(&self) -> Self { *self } }
impl<T> Default_ for std::marker::PhantomData<T> {
    open spec fn default_spec() -> Self { std::marker::PhantomData }
    open spec fn default_ok(r: Self) -> bool { true }
    fn default_() -> Self { std::marker::PhantomData }
}
pub trait From_<S>: Sized {
    spec fn from_req(s: S) -> bool;
    spec fn from_inv(s: S, r: Self) -> bool;
    spec fn from_ens(s: S, r: Self) -> bool;
    /// what indexing with the result relies on
    open spec fn from_idx(s: S, r: Self) -> bool { true }
    fn from_(s: S) -> (r: Self)
        requires
            Self::from_req(s),
        ensures
            Self::from_inv(s, r), //@C04
            Self::from_ens(s, r),
            Self::from_idx(s, r), //@C15
    ;
}
impl<T> From_<T> for T {
    open spec fn from_req(s: T) -> bool { true }
    open spec fn from_inv(s: T, r: T) -> bool { true }
    open spec fn from_ens(s: T, r: T) -> bool { r == s }
    fn from_(s: T) -> T { s }
}
pub trait Into_<D: From_<Self>>: Sized {
    fn into_(self) -> (r: D)
        requires
            D::from_req(self),
        ensures
            D::from_inv(self, r), //@C04
            D::from_ens(self, r),
            D::from_idx(self, r), //@C15
    ;
}
impl<S, D: From_<S>> Into_<D> for S {
    fn into_(self) -> D { D::from_(self) }
}
/// the same conversion, seen as "panics or returns": it returns only when the conversion exists
pub trait FromP_<S>: From_<S> {
    fn from_p(s: S) -> (r: Self)
        ensures
            Self::from_req(s), //@C15
            Self::from_ens(s, r), //@C15
            Self::from_idx(s, r), //@C15
    ;
}
pub trait IntoP_<D: FromP_<Self>>: Sized {
    fn into_p(self) -> (r: D)
        ensures
            D::from_req(self),
            D::from_ens(self, r),
            D::from_idx(self, r),
    ;
}
impl<S, D: FromP_<S>> IntoP_<D> for S {
    fn into_p(self) -> D { D::from_p(self) }
}
pub trait ExpectP<T>: Sized {
    spec fn got(self) -> Option<T>;
    fn expect_p(self) -> (r: T)
        ensures self.got() == Some(r),
    ;
}
impl<T> ExpectP<T> for Option<T> {
    open spec fn got(self) -> Option<T> { self }
    /// panics (does not return) on None
    #[verifier::external_body]
    fn expect_p(self) -> T { self.unwrap() }
}
pub trait Default_: Sized {
    spec fn default_spec() -> Self;
    /// what else is known of it
    spec fn default_ok(r: Self) -> bool;
    fn default_() -> (r: Self)
        ensures r == Self::default_spec(), Self::default_ok(r),
    ;
}

// ---------------------------------------------------------------- std::mem
pub fn mem_replace<T>(d: &mut T, v: T) -> (r: T)
    ensures r == *old(d), *final(d) == v,
{
    let mut v = v;
    std::mem::swap(d, &mut v);
    v
}
pub fn mem_swap<T>(a: &mut T, b: &mut T)
    ensures *final(a) == *old(b), *final(b) == *old(a),
{
    std::mem::swap(a, b)
}
/// `Default` of the types that `mem::take` is used on
pub trait Blank: Sized {
    spec fn is_blank(r: Self) -> bool;
    fn blank() -> (r: Self)
        ensures Self::is_blank(r),
    ;
}
impl<T> Blank for Option<T> {
    open spec fn is_blank(r: Self) -> bool { r is None }
    fn blank() -> Self { None }
}
pub fn mem_take<T: Blank>(d: &mut T) -> (r: T)
    ensures r == *old(d), T::is_blank(*final(d)),
{
    mem_replace(d, T::blank())
}

// ---------------------------------------------------------------- panics
pub fn rt_assert(c: bool)
    requires c, //@C16
{}
pub fn rt_unreachable() -> !
    requires false, //@C16
{ loop invariant false, decreases 0int, {} }

/// the same two in the reading of a function that is allowed to panic (see expect_p): control does not
/// pass an assertion that fails
#[verifier::external_body]
pub fn rt_assert_p(c: bool)
    ensures c,
{ assert!(c) }
#[verifier::external_body]
pub fn rt_panic_p() -> !
{ panic!() }

// ---------------------------------------------------------------- bool comparisons
pub open spec fn bool_cmp(a: bool, b: bool) -> core::cmp::Ordering {
    if a == b { core::cmp::Ordering::Equal } else if a { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Less }
}
pub assume_specification [<bool as Ord>::cmp] (a: &bool, b: &bool) -> (r: core::cmp::Ordering)
    ensures r == bool_cmp(*a, *b),
;
pub assume_specification [<bool as PartialOrd>::partial_cmp] (a: &bool, b: &bool) -> (r: Option<core::cmp::Ordering>)
    ensures r == Some(bool_cmp(*a, *b)),
;

// ---------------------------------------------------------------- std::ops ranges
pub struct Range<T> { pub start: T, pub end: T }
pub struct RangeInclusive<T> { pub start: T, pub end: T }
pub struct RangeFrom<T> { pub start: T }
#[derive(Clone, Copy)]
pub struct RangeTo<T> { pub end: T }
#[derive(Clone, Copy)]
pub struct RangeToInclusive<T> { pub end: T }
#[derive(Clone, Copy)]
pub struct RangeFull;
impl<T: Lawful> Range<T> {
    pub fn contains(&self, t: &T) -> (r: bool)
        ensures r == (!sp_lt(*t, self.start) && sp_lt(*t, self.end)),
    { broadcast use group_lawful; broadcast use group_point; !(*t < self.start) && *t < self.end }
}
impl<T: Lawful> RangeInclusive<T> {
    pub fn contains(&self, t: &T) -> (r: bool)
        ensures r == (!sp_lt(*t, self.start) && !sp_lt(self.end, *t)),
    { broadcast use group_lawful; broadcast use group_point; !(*t < self.start) && !(self.end < *t) }
}
impl<T> RangeInclusive<T> {
    pub fn new(start: T, end: T) -> (r: Self)
        ensures r.start == start, r.end == end,
    { RangeInclusive { start, end } }
    pub fn start(&self) -> (r: &T)
        ensures *r == self.start,
    { &self.start }
    pub fn end(&self) -> (r: &T)
        ensures *r == self.end,
    { &self.end }
    pub fn into_inner(self) -> (r: (T, T))
        ensures r.0 == self.start, r.1 == self.end,
    { (self.start, self.end) }
}
impl<T: Default_> Default_ for Range<T> {
    open spec fn default_spec() -> Self { Range { start: T::default_spec(), end: T::default_spec() } }
    open spec fn default_ok(r: Self) -> bool { true }
    fn default_() -> Self { Range { start: T::default_(), end: T::default_() } }
}
macro_rules! dup1 { ($($t:ident { $($f:ident),* }),*) => { $( verus! {
impl<T: Dup> Dup for $t<T> {
    fn dup(&self) -> Self { $t { $($f: self.$f.dup()),* } }
}
} )* } }
dup1!(Range { start, end }, RangeInclusive { start, end }, RangeFrom { start }, RangeTo { end }, RangeToInclusive { end });
impl Dup for RangeFull { fn dup(&self) -> Self { RangeFull } }
impl<T: Lawful> Cov for Range<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { self.start.lo() < x < self.end.lo() }
}
impl<T: Lawful> Cov for RangeInclusive<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { self.start.lo() < x < self.end.hi() }
}
impl<T: Lawful> Cov for RangeFrom<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { self.start.lo() < x }
}
impl<T: Lawful> Cov for RangeTo<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { x < self.end.lo() }
}
impl<T: Lawful> Cov for RangeToInclusive<T> {
    open spec fn always() -> bool { false }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) {}
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { x < self.end.hi() }
}
impl Cov for RangeFull {
    open spec fn always() -> bool { true }
    open spec fn never() -> bool { false }
    proof fn triv(&self, x: real) { assert(self.cov(x)); }
    open spec fn wf(&self) -> bool { true }
    open spec fn cov(&self, x: real) -> bool { true }
}

// ---------------------------------------------------------------- std::iter::Empty
pub struct EmptyIter<T> { pub p: std::marker::PhantomData<T> }
pub fn empty_iter<T>() -> EmptyIter<T> { EmptyIter { p: std::marker::PhantomData } }

// ---------------------------------------------------------------- VecDeque
/// `m` lists, in order, the positions of `o` that `n` keeps.
pub open spec fn sub_map<T>(o: Seq<T>, n: Seq<T>, m: Seq<int>) -> bool {
    &&& n.len() == m.len()
    &&& forall|k: int| 0 <= k < m.len() ==> 0 <= #[trigger] m[k] < o.len() && n[k] == o[m[k]]
    &&& forall|k: int, l: int| 0 <= k < l < m.len() ==> #[trigger] m[k] < #[trigger] m[l]
}

pub struct VecDeque<T> { pub v: Vec<T> }
impl<T> VecDeque<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<T>::empty(),
    { VecDeque { v: Vec::new() } }
    pub fn with_capacity(_n: usize) -> (r: Self)
        ensures r@ == Seq::<T>::empty(),
    { VecDeque { v: Vec::new() } }
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { self.v.len() }
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { self.v.len() == 0 }
    pub fn clear(&mut self)
        ensures final(self)@ == Seq::<T>::empty(),
    { self.v = Vec::new(); }
    pub fn at(&self, i: usize) -> (r: &T)
        requires i < self@.len(), //@C16
        ensures *r == self@[i as int],
    { &self.v[i] }
    pub fn at_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self)@.len(), //@C16
        ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)),
    { &mut self.v[i] }
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() },
    { if i < self.v.len() { Some(&self.v[i]) } else { None } }
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r { Some(r) => i < old(self)@.len() && *r == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(r)),
            None => i >= old(self)@.len() && final(self)@ == old(self)@ },
    { if i < self.v.len() { Some(&mut self.v[i]) } else { None } }
    pub fn front(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 },
    { if self.v.len() == 0 { None } else { Some(&self.v[0]) } }
    pub fn back(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self@.len() > 0 && *x == self@[self@.len() - 1], None => self@.len() == 0 },
    { if self.v.len() == 0 { None } else { Some(&self.v[self.v.len() - 1]) } }
    pub fn front_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r { Some(r) => old(self)@.len() > 0 && *r == old(self)@[0] && final(self)@ == old(self)@.update(0, *final(r)),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    { if self.v.len() == 0 { None } else { Some(&mut self.v[0]) } }
    pub fn back_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r { Some(r) => old(self)@.len() > 0 && *r == old(self)@[old(self)@.len() - 1] && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(r)),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    { if self.v.len() == 0 { None } else { let n = self.v.len() - 1; Some(&mut self.v[n]) } }
    pub fn push_back(&mut self, t: T)
        ensures final(self)@ == old(self)@.push(t),
    { self.v.push(t); }
    pub fn push_front(&mut self, t: T)
        ensures final(self)@ == old(self)@.insert(0, t),
    { self.v.insert(0, t); }
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[old(self)@.len() - 1] && final(self)@ == old(self)@.drop_last(),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    {
        let r = self.v.pop();
        proof { if r.is_some() { assert(self@ =~= old(self)@.drop_last()); } }
        r
    }
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    {
        if self.v.len() == 0 { return None; }
        let r = self.v.remove(0);
        proof { assert(self@ =~= old(self)@.drop_first()); }
        Some(r)
    }
    pub fn insert(&mut self, i: usize, t: T)
        requires i <= old(self)@.len(), //@C16
        ensures final(self)@ == old(self)@.insert(i as int, t),
    { self.v.insert(i, t); }
    pub fn remove(&mut self, i: usize) -> (r: Option<T>)
        ensures match r { Some(x) => i < old(self)@.len() && x == old(self)@[i as int] && final(self)@ == old(self)@.remove(i as int),
            None => i >= old(self)@.len() && final(self)@ == old(self)@ },
    { if i < self.v.len() { Some(self.v.remove(i)) } else { None } }
    pub fn append(&mut self, o: &mut Self)
        ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T>::empty(),
    {
        self.v.append(&mut o.v);
    }
    pub fn split_off(&mut self, at: usize) -> (r: Self)
        requires at <= old(self)@.len(), //@C16
        ensures final(self)@ == old(self)@.take(at as int), r@ == old(self)@.skip(at as int),
    {
        let v = self.v.split_off(at);
        VecDeque { v }
    }
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ },
    {
        while self.v.len() > n
            invariant self@ == old(self)@.take(self@.len() as int), self@.len() <= old(self)@.len(), n < self@.len() ==> n <= old(self)@.len(),
                self@.len() >= n || self@ == old(self)@,
            decreases self@.len(),
        {
            let ghost b = self@;
            self.v.pop();
            proof { assert(self@ =~= b.take(b.len() - 1)); assert(self@ =~= old(self)@.take(self@.len() as int)); }
        }
        proof { assert(self@ =~= old(self)@.take(self@.len() as int)); }
    }
    pub fn iter(&self) -> (r: Iter<'_, T>)
        ensures r.s() == self@, r.i() == 0, r.inv(),
    { Iter { v: self, pos: 0 } }
    pub fn into_iter(self) -> (r: IntoIter<T>)
        ensures r.s() == self@, r.i() == 0, r.inv(),
    {
        let ghost full = self@;
        let mut v = self.v;
        let mut rev: Vec<T> = Vec::new();
        while v.len() > 0
            invariant
                v@.len() + rev@.len() == full.len(),
                forall|k: int| 0 <= k < v@.len() ==> v@[k] == full[k],
                forall|k: int| 0 <= k < rev@.len() ==> rev@[k] == full[full.len() - 1 - k],
            decreases v@.len(),
        {
            match v.pop() { Some(x) => { rev.push(x); } None => {} }
        }
        IntoIter { rev, full: Ghost(full) }
    }
    /// std leaves the result open when the elements are not partitioned by `f`
    pub fn partition_point_<F: Fn(&T) -> bool>(&self, f: F) -> (r: usize)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures
            r <= self@.len(),
            (forall|i: int, j: int| 0 <= i < j < self@.len() && call_ensures(f, (&#[trigger] self@[i],), false) ==> !call_ensures(f, (&#[trigger] self@[j],), true)) ==> {
                &&& forall|i: int| 0 <= i < r ==> call_ensures(f, (&#[trigger] self@[i],), true)
                &&& forall|i: int| r <= i < self@.len() ==> call_ensures(f, (&#[trigger] self@[i],), false)
            },
    {
        let mut i = 0usize;
        let mut r = 0usize;
        let mut sorted = true;
        while i < self.v.len()
            invariant
                r <= i <= self@.len(),
                forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
                sorted ==> forall|j: int| 0 <= j < r ==> call_ensures(f, (&#[trigger] self@[j],), true),
                sorted ==> forall|j: int| r <= j < i ==> call_ensures(f, (&#[trigger] self@[j],), false),
                !sorted ==> exists|j: int, k: int| 0 <= j < k < self@.len() && call_ensures(f, (&#[trigger] self@[j],), false) && call_ensures(f, (&#[trigger] self@[k],), true),
            decreases self@.len() - i,
        {
            assert(call_requires(f, (&self@[i as int],)));
            let b = f(&self.v[i]);
            assert(call_ensures(f, (&self@[i as int],), b));
            if b {
                if r == i { r = i + 1; } else {
                    if sorted { assert(call_ensures(f, (&self@[r as int],), false)); }
                    sorted = false;
                }
            }
            i += 1;
        }
        r
    }
    pub fn retain_<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (&#[trigger] old(self)@[i],)),
        ensures exists|m: Seq<int>| #[trigger] sub_map(old(self)@, final(self)@, m)
            && forall|j: int| 0 <= j < old(self)@.len() ==> call_ensures(f, (&#[trigger] old(self)@[j],), m.contains(j)),
    {
        let ghost o = self@;
        let mut i: usize = 0;
        let mut src: Vec<T> = Vec::new();
        std::mem::swap(&mut src, &mut self.v);
        let n = src.len();
        let mut it = VecDeque { v: src }.into_iter();
        let mut out: Vec<T> = Vec::new();
        let ghost mut m: Seq<int> = Seq::empty();
        while it.has_next()
            invariant
                it.inv(), it.s() == o,
                forall|i: int| 0 <= i < o.len() ==> call_requires(f, (&#[trigger] o[i],)),
                sub_map(o, out@, m),
                forall|k: int| 0 <= k < m.len() ==> #[trigger] m[k] < it.i(),
                forall|j: int| 0 <= j < it.i() ==> call_ensures(f, (&#[trigger] o[j],), m.contains(j)),
            decreases it.s().len() - it.i(),
        {
            let ghost j = it.i();
            let ghost m0 = m;
            let x = it.take_next();
            let keep = f(&x);
            if keep {
                out.push(x);
                proof {
                    m = m.push(j);
                    assert forall|k: int| 0 <= k < j implies m0.contains(k) == m.contains(k) by {
                        if m0.contains(k) { let p = choose|p: int| 0 <= p < m0.len() && m0[p] == k; assert(m[p] == k); }
                        if m.contains(k) { let p = choose|p: int| 0 <= p < m.len() && m[p] == k; assert(m0[p] == k); }
                    }
                    assert(m[m.len() - 1] == j);
                    assert(m.contains(j));
                }
            } else {
                proof {
                    if m.contains(j) { let p = choose|p: int| 0 <= p < m.len() && m[p] == j; assert(false); }
                }
            }
        }
        self.v = out;
        proof { assert(sub_map(o, self@, m)); }
    }
}
impl<T> std::ops::Index<usize> for VecDeque<T> {
    type Output = T;
    fn index(&self, i: usize) -> (r: &T)
        ensures *r == self@[i as int],
    {
        &self.v[i]
    }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for VecDeque<T> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}
impl<T: Dup> Dup for VecDeque<T> {
    fn dup(&self) -> Self {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(), v@ == self@.take(i as int),
            decreases self@.len() - i,
        {
            v.push(self.v[i].dup());
            i += 1;
            proof { assert(v@ =~= self@.take(i as int)); }
        }
        proof { assert(v@ =~= self@); }
        let r = VecDeque { v };
        proof { vec_ext(r.v, self.v); }
        r
    }
}
/// two vectors with the same elements are the same vector
pub proof fn vec_ext<T>(a: Vec<T>, b: Vec<T>)
    requires a@ == b@,
    ensures a == b,
{
    admit_vec_ext(a, b);
}
/// a vector is determined by its elements (capacity is not observable)
#[verifier::external_body]
pub proof fn admit_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    requires a@ == b@,
    ensures a == b,
{ }
impl<T> Default_ for VecDeque<T> {
    open spec fn default_spec() -> Self { choose|d: VecDeque<T>| d@ == Seq::<T>::empty() }
    open spec fn default_ok(r: Self) -> bool { r@ == Seq::<T>::empty() }
    fn default_() -> Self {
        let r = VecDeque { v: Vec::new() };
        proof {
            assert(r@ =~= Seq::<T>::empty());
            admit_vec_ext(r.v, Self::default_spec().v);
        }
        r
    }
}
impl<T> Blank for VecDeque<T> {
    open spec fn is_blank(r: Self) -> bool { r@ == Seq::<T>::empty() }
    fn blank() -> Self { VecDeque::new() }
}
impl<T, const N: usize> From_<[T; N]> for VecDeque<T> {
    open spec fn from_req(s: [T; N]) -> bool { true }
    open spec fn from_inv(s: [T; N], r: Self) -> bool { true }
    open spec fn from_ens(s: [T; N], r: Self) -> bool { r@ == s@ }
    #[verifier::external_body]
    fn from_(s: [T; N]) -> Self { VecDeque { v: s.into() } }
}
impl<T> From_<Vec<T>> for VecDeque<T> {
    open spec fn from_req(s: Vec<T>) -> bool { true }
    open spec fn from_inv(s: Vec<T>, r: Self) -> bool { true }
    open spec fn from_ens(s: Vec<T>, r: Self) -> bool { r@ == s@ }
    fn from_(s: Vec<T>) -> Self { VecDeque { v: s } }
}
impl<T: PartialEq> PartialEqSpecImpl for VecDeque<T> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Self) -> bool {
        self@.len() == other@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).eq_spec(&other@[i])
    }
}
impl<T: PartialEq> PartialEq for VecDeque<T> {
    fn eq(&self, other: &Self) -> bool {
        if self.v.len() != other.v.len() { return false; }
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(), self@.len() == other@.len(),
                T::obeys_eq_spec() ==> forall|k: int| 0 <= k < i ==> (#[trigger] self@[k]).eq_spec(&other@[k]),
            decreases self@.len() - i,
        {
            if self.v[i] != other.v[i] { return false; }
            i += 1;
        }
        true
    }
}
impl<T: Eq> Eq for VecDeque<T> {}

pub struct Iter<'a, T> { pub v: &'a VecDeque<T>, pub pos: usize }
impl<'a, T> Iter<'a, T> {
    pub open spec fn s(&self) -> Seq<T> { self.v@ }
    pub open spec fn i(&self) -> int { self.pos as int }
    pub open spec fn inv(&self) -> bool { self.pos <= self.v@.len() }
    pub fn has_next(&self) -> (r: bool)
        ensures r == (self.i() < self.s().len()),
    { self.pos < self.v.v.len() }
    pub fn take_next(&mut self) -> (r: &'a T)
        requires old(self).inv(), old(self).i() < old(self).s().len(),
        ensures *r == old(self).s()[old(self).i()], final(self).s() == old(self).s(), final(self).i() == old(self).i() + 1, final(self).inv(),
    {
        let _n = self.v.v.len();
        let r = &self.v.v[self.pos];
        self.pos = self.pos + 1;
        r
    }
    pub fn position_<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires self.i() == 0, self.inv(), forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
        ensures match r {
            Some(k) => k < self.s().len() && k < usize::MAX && call_ensures(f, (&self.s()[k as int],), true) && forall|j: int| 0 <= j < k ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
            None => forall|j: int| 0 <= j < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
        },
    {
        let mut i = 0usize;
        while i < self.v.v.len()
            invariant
                i <= self.s().len(),
                forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
                forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
            decreases self.s().len() - i,
        {
            assert(call_requires(f, (&self.s()[i as int],)));
            if f(&self.v.v[i]) { return Some(i); }
            i += 1;
        }
        None
    }
    pub fn rposition_<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires self.i() == 0, self.inv(), forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
        ensures match r {
            Some(k) => k < self.s().len() && k < usize::MAX && call_ensures(f, (&self.s()[k as int],), true) && forall|j: int| k < j < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
            None => forall|j: int| 0 <= j < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
        },
    {
        let mut i = self.v.v.len();
        while i > 0
            invariant
                i <= self.s().len(),
                forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
                forall|j: int| i <= j < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
            decreases i,
        {
            i -= 1;
            assert(call_requires(f, (&self.s()[i as int],)));
            if f(&self.v.v[i]) { return Some(i); }
        }
        None
    }
    pub fn rfind_<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<&'a T>)
        requires self.i() == 0, self.inv(), forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
        ensures match r {
            Some(x) => exists|k: int| 0 <= k < self.s().len() && #[trigger] self.s()[k] == *x && call_ensures(f, (&self.s()[k],), true) && forall|j: int| k < j < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
            None => forall|j: int| 0 <= j < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
        },
    {
        let v = self.v;
        match self.rposition_(f) { Some(k) => Some(&v.v[k]), None => None }
    }
    pub fn find_<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<&'a T>)
        requires self.i() == 0, self.inv(), forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
        ensures match r {
            Some(x) => exists|k: int| 0 <= k < self.s().len() && #[trigger] self.s()[k] == *x && call_ensures(f, (&self.s()[k],), true) && forall|j: int| 0 <= j < k ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
            None => forall|j: int| 0 <= j < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
        },
    {
        let v = self.v;
        match self.position_(f) { Some(k) => Some(&v.v[k]), None => None }
    }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).inv(),
        ensures
            final(self).inv(), final(self).s() == old(self).s(),
            match r { Some(x) => old(self).i() < old(self).s().len() && *x == old(self).s()[old(self).i()] && final(self).i() == old(self).i() + 1,
                None => old(self).i() == old(self).s().len() && final(self).i() == old(self).i() },
    {
        if self.has_next() { Some(self.take_next()) } else { None }
    }
    pub fn rev_(self) -> (r: RevIter<'a, T>)
        requires self.i() == 0,
        ensures r.v == self.v, r.i() == 0, r.inv(),
    {
        RevIter { v: self.v, pos: 0 }
    }
    pub fn cloned_(self) -> (r: IntoIter<T>) where T: Dup
        requires self.i() == 0,
        ensures r.s() == self.s(), r.i() == 0, r.inv(),
    {
        self.v.dup().into_iter()
    }
    pub fn any_<F: Fn(&T) -> bool>(self, f: F) -> (r: bool)
        requires self.i() == 0, self.inv(), forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
        ensures match r {
            true => exists|k: int| 0 <= k < self.s().len() && call_ensures(f, (&#[trigger] self.s()[k],), true),
            false => forall|j: int| 0 <= j < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
        },
    {
        match self.position_(f) { Some(_) => true, None => false }
    }
    pub fn all_<F: Fn(&T) -> bool>(self, f: F) -> (r: bool)
        requires self.i() == 0, self.inv(), forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
        ensures match r {
            false => exists|k: int| 0 <= k < self.s().len() && call_ensures(f, (&#[trigger] self.s()[k],), false),
            true => forall|j: int| 0 <= j < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[j],), true),
        },
    {
        let mut i = 0usize;
        while i < self.v.v.len()
            invariant
                i <= self.s().len(),
                forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
                forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] self.s()[j],), true),
            decreases self.s().len() - i,
        {
            assert(call_requires(f, (&self.s()[i as int],)));
            if !f(&self.v.v[i]) {
                assert(call_ensures(f, (&self.s()[i as int],), false));
                return false;
            }
            i += 1;
        }
        true
    }
}
pub struct RevIter<'a, T> { pub v: &'a VecDeque<T>, pub pos: usize }
impl<'a, T> RevIter<'a, T> {
    pub open spec fn s(&self) -> Seq<T> { self.v@.reverse() }
    pub open spec fn i(&self) -> int { self.pos as int }
    pub open spec fn inv(&self) -> bool { self.pos <= self.v@.len() }
    pub fn has_next(&self) -> (r: bool)
        ensures r == (self.i() < self.s().len()),
    { self.pos < self.v.v.len() }
    pub fn take_next(&mut self) -> (r: &'a T)
        requires old(self).inv(), old(self).i() < old(self).s().len(),
        ensures *r == old(self).s()[old(self).i()], final(self).s() == old(self).s(), final(self).i() == old(self).i() + 1, final(self).inv(), final(self).v == old(self).v,
    {
        let n = self.v.v.len();
        let r = &self.v.v[n - 1 - self.pos];
        self.pos = self.pos + 1;
        r
    }
    pub fn cloned_(self) -> (r: IntoIter<T>) where T: Dup
        requires self.i() == 0,
        ensures r.s() == self.v@.reverse(), r.i() == 0, r.inv(),
    {
        self.v.dup().into_iter().rev_()
    }
}
pub struct IntoIter<T> { pub rev: Vec<T>, pub full: Ghost<Seq<T>> }
impl<T> IntoIter<T> {
    pub open spec fn s(&self) -> Seq<T> { self.full@ }
    pub open spec fn i(&self) -> int { self.full@.len() - self.rev@.len() }
    pub open spec fn inv(&self) -> bool {
        &&& self.rev@.len() <= self.full@.len()
        &&& forall|k: int| 0 <= k < self.rev@.len() ==> #[trigger] self.rev@[k] == self.full@[self.full@.len() - 1 - k]
    }
    pub fn has_next(&self) -> (r: bool)
        ensures r == (self.i() < self.s().len()),
    { self.rev.len() > 0 }
    pub fn take_next(&mut self) -> (r: T)
        requires old(self).inv(), old(self).i() < old(self).s().len(),
        ensures r == old(self).s()[old(self).i()], final(self).s() == old(self).s(), final(self).i() == old(self).i() + 1, final(self).inv(),
    {
        self.rev.pop().unwrap()
    }
    pub fn rev_(self) -> (r: IntoIter<T>)
        requires self.i() == 0, self.inv(),
        ensures r.s() == self.s().reverse(), r.i() == 0, r.inv(),
    {
        let ghost f = self.full@;
        let mut src = self.rev;
        let mut out: Vec<T> = Vec::new();
        let ghost o = src@;
        while src.len() > 0
            invariant
                o.len() == f.len(),
                forall|k: int| 0 <= k < o.len() ==> #[trigger] o[k] == f[f.len() - 1 - k],
                src@.len() + out@.len() == o.len(),
                forall|k: int| 0 <= k < src@.len() ==> #[trigger] src@[k] == o[k],
                forall|k: int| 0 <= k < out@.len() ==> #[trigger] out@[k] == o[o.len() - 1 - k],
            decreases src@.len(),
        {
            let x = src.pop().unwrap();
            out.push(x);
        }
        IntoIter { rev: out, full: Ghost(f.reverse()) }
    }
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).inv(),
        ensures
            final(self).inv(), final(self).s() == old(self).s(),
            match r { Some(x) => old(self).i() < old(self).s().len() && x == old(self).s()[old(self).i()] && final(self).i() == old(self).i() + 1,
                None => old(self).i() == old(self).s().len() && final(self).i() == old(self).i() },
    {
        if self.has_next() { Some(self.take_next()) } else { None }
    }
}
} // verus!
