## ---------------------------------------------------------------- conversions back to std
@@ fn From<BoundedRange> for Range::from | From<BoundedRange> for RangeInclusive::from | From<LowerBoundedRange> for RangeFrom::from | From<UpperBoundedRange> for RangeTo::from | From<UpperBoundedRange> for RangeToInclusive::from
@owner C09
@entry
    broadcast use crate::specs::group_step;
@@ fn From<EmptyRange> for Range::from | From<EmptyRange> for RangeInclusive::from | From<UnboundedRange> for RangeFull::from
@owner C09
@@ impl From<BoundedRange> for Range
@members
    /// a half-open range cannot end after the last element
    open spec fn from_req(s: BoundedRange<T>) -> bool {
        match s.end.0 { Bound::Included(t) => t.idx() < T::last_() || (s.start.0 is Excluded && s.start.0->Excluded_0.idx() == T::last_()), _ => true }
    }
    open spec fn from_inv(s: BoundedRange<T>, r: Self) -> bool { true }
    open spec fn from_ens(s: BoundedRange<T>, r: Self) -> bool { same_elems::<T, Self, BoundedRange<T>>(r, s) }
    open spec fn from_idx(s: BoundedRange<T>, r: Self) -> bool { s.start.0 is Included && s.end.0 is Excluded ==> r.start == s.start.0->Included_0 && r.end == s.end.0->Excluded_0 }
@@ impl From<BoundedRange> for RangeInclusive
@members
    /// an empty inclusive range needs two elements
    open spec fn from_req(s: BoundedRange<T>) -> bool { T::first() < T::last_() }
    open spec fn from_inv(s: BoundedRange<T>, r: Self) -> bool { true }
    open spec fn from_ens(s: BoundedRange<T>, r: Self) -> bool { same_elems::<T, Self, BoundedRange<T>>(r, s) }
@@ impl From<LowerBoundedRange> for RangeFrom
@members
    /// nothing lies after the last element
    open spec fn from_req(s: LowerBoundedRange<T>) -> bool { match s.start.0 { Bound::Excluded(t) => t.idx() < T::last_(), _ => true } }
    open spec fn from_inv(s: LowerBoundedRange<T>, r: Self) -> bool { true }
    open spec fn from_ens(s: LowerBoundedRange<T>, r: Self) -> bool { same_elems::<T, Self, LowerBoundedRange<T>>(r, s) }
@@ impl From<UpperBoundedRange> for RangeTo
@members
    open spec fn from_req(s: UpperBoundedRange<T>) -> bool { match s.end.0 { Bound::Included(t) => t.idx() < T::last_(), _ => true } }
    open spec fn from_inv(s: UpperBoundedRange<T>, r: Self) -> bool { true }
    open spec fn from_ens(s: UpperBoundedRange<T>, r: Self) -> bool { same_elems::<T, Self, UpperBoundedRange<T>>(r, s) }
@@ impl From<UpperBoundedRange> for RangeToInclusive
@members
    open spec fn from_req(s: UpperBoundedRange<T>) -> bool { match s.end.0 { Bound::Excluded(t) => t.idx() > T::first(), _ => true } }
    open spec fn from_inv(s: UpperBoundedRange<T>, r: Self) -> bool { true }
    open spec fn from_ens(s: UpperBoundedRange<T>, r: Self) -> bool { same_elems::<T, Self, UpperBoundedRange<T>>(r, s) }
@@ impl From<EmptyRange> for Range
@members
    open spec fn from_req(s: EmptyRange<T>) -> bool { true }
    open spec fn from_inv(s: EmptyRange<T>, r: Self) -> bool { true }
    open spec fn from_ens(s: EmptyRange<T>, r: Self) -> bool { same_elems::<T, Self, EmptyRange<T>>(r, s) }
    open spec fn from_idx(s: EmptyRange<T>, r: Self) -> bool { r.start == T::default_spec() && r.end == T::default_spec() }
@@ impl From<EmptyRange> for RangeInclusive
@members
    open spec fn from_req(s: EmptyRange<T>) -> bool { T::first() < T::last_() }
    open spec fn from_inv(s: EmptyRange<T>, r: Self) -> bool { true }
    open spec fn from_ens(s: EmptyRange<T>, r: Self) -> bool { same_elems::<T, Self, EmptyRange<T>>(r, s) }
@@ impl From<UnboundedRange> for RangeFull
@members
    open spec fn from_req(s: UnboundedRange) -> bool { true }
    open spec fn from_inv(s: UnboundedRange, r: Self) -> bool { true }
    open spec fn from_ens(s: UnboundedRange, r: Self) -> bool { forall|x: real| #[trigger] r.cov(x) == s.cov(x) }
