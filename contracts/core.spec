## ---------------------------------------------------------------- bounds
@@ fn Bound::flipped
@owner C07
@ret r
@spec
    ensures
        match self { Bound::Included(t) => r == Bound::Excluded(t), Bound::Excluded(t) => r == Bound::Included(t) }, //@C07
@@ fn Bound::map
@owner C07
@ret r
@spec
    requires
        match self { Bound::Included(t) => call_requires($1, (t,)), Bound::Excluded(t) => call_requires($1, (t,)) },
    ensures
        match (self, r) {
            (Bound::Included(t), Bound::Included(u)) => call_ensures($1, (t,), u),
            (Bound::Excluded(t), Bound::Excluded(u)) => call_ensures($1, (t,), u),
            _ => false,
        }, //@C07
@@ fn LowerBound::map | UpperBound::map
@owner C07
@ret r
@spec
    requires
        match self.0 { Bound::Included(t) => call_requires($1, (t,)), Bound::Excluded(t) => call_requires($1, (t,)) },
    ensures
        match (self.0, r.0) {
            (Bound::Included(t), Bound::Included(u)) => call_ensures($1, (t,), u),
            (Bound::Excluded(t), Bound::Excluded(u)) => call_ensures($1, (t,), u),
            _ => false,
        }, //@C07
@@ fn LowerBound::excluded | UpperBound::excluded
@owner C07
@ret r
@spec
    ensures
        r.0 == Bound::Excluded($1), //@C07
@@ fn LowerBound::included | UpperBound::included
@owner C07
@ret r
@spec
    ensures
        r.0 == Bound::Included($1), //@C07
@@ fn LowerBound::to_bound | UpperBound::to_bound
@owner C07
@ret r
@spec
    ensures
        r == self.0, //@C07
@@ fn PartialOrd for LowerBound::partial_cmp | PartialOrd for UpperBound::partial_cmp | Ord for LowerBound::cmp | Ord for UpperBound::cmp
@owner C07
@@ fn PartialEq for Bound::eq | PartialEq for LowerBound::eq | PartialEq for UpperBound::eq
@owner C07
@@ fn PartialEq for BoundedRange::eq | PartialEq for LowerBoundedRange::eq | PartialEq for UpperBoundedRange::eq | PartialEq for BoundedSet::eq | PartialEq for LowerBoundedSet::eq | PartialEq for UpperBoundedSet::eq | PartialEq for PiecewiseUnboundedSet::eq | PartialEq for UnboundedSet::eq
@owner C05
@@ impl From<Bound> for LowerBound
@members
    open spec fn from_req(s: Bound<T>) -> bool { true }
    open spec fn from_inv(s: Bound<T>, r: Self) -> bool { true }
    open spec fn from_ens(s: Bound<T>, r: Self) -> bool { r.0 == s }
@@ impl From<Bound> for UpperBound
@members
    open spec fn from_req(s: Bound<T>) -> bool { true }
    open spec fn from_inv(s: Bound<T>, r: Self) -> bool { true }
    open spec fn from_ens(s: Bound<T>, r: Self) -> bool { r.0 == s }
@@ fn From<Bound> for LowerBound::from | From<Bound> for UpperBound::from
@owner C07

## ---------------------------------------------------------------- conversions into ranges and sets
@@ fn From<Range> for BoundedRange::from | From<RangeInclusive> for BoundedRange::from | From<RangeFrom> for LowerBoundedRange::from | From<RangeTo> for UpperBoundedRange::from | From<RangeToInclusive> for UpperBoundedRange::from | From<RangeFull> for UnboundedRange::from
@owner C08
@@ impl From<Range> for BoundedRange
@members
    open spec fn from_req(s: crate::shim::Range<T>) -> bool { true }
    open spec fn from_inv(s: crate::shim::Range<T>, r: Self) -> bool { r.wf() }
    open spec fn from_ens(s: crate::shim::Range<T>, r: Self) -> bool { forall|x: real| #![trigger r.cov(x)] #![trigger s.cov(x)] r.cov(x) == s.cov(x) }
@@ impl From<RangeInclusive> for BoundedRange
@members
    open spec fn from_req(s: crate::shim::RangeInclusive<T>) -> bool { true }
    open spec fn from_inv(s: crate::shim::RangeInclusive<T>, r: Self) -> bool { r.wf() }
    open spec fn from_ens(s: crate::shim::RangeInclusive<T>, r: Self) -> bool { forall|x: real| #![trigger r.cov(x)] #![trigger s.cov(x)] r.cov(x) == s.cov(x) }
@@ impl From<RangeFrom> for LowerBoundedRange
@members
    open spec fn from_req(s: crate::shim::RangeFrom<T>) -> bool { true }
    open spec fn from_inv(s: crate::shim::RangeFrom<T>, r: Self) -> bool { r.wf() }
    open spec fn from_ens(s: crate::shim::RangeFrom<T>, r: Self) -> bool { forall|x: real| #![trigger r.cov(x)] #![trigger s.cov(x)] r.cov(x) == s.cov(x) }
@@ impl From<RangeTo> for UpperBoundedRange
@members
    open spec fn from_req(s: crate::shim::RangeTo<T>) -> bool { true }
    open spec fn from_inv(s: crate::shim::RangeTo<T>, r: Self) -> bool { r.wf() }
    open spec fn from_ens(s: crate::shim::RangeTo<T>, r: Self) -> bool { forall|x: real| #![trigger r.cov(x)] #![trigger s.cov(x)] r.cov(x) == s.cov(x) }
@@ impl From<RangeToInclusive> for UpperBoundedRange
@members
    open spec fn from_req(s: crate::shim::RangeToInclusive<T>) -> bool { true }
    open spec fn from_inv(s: crate::shim::RangeToInclusive<T>, r: Self) -> bool { r.wf() }
    open spec fn from_ens(s: crate::shim::RangeToInclusive<T>, r: Self) -> bool { forall|x: real| #![trigger r.cov(x)] #![trigger s.cov(x)] r.cov(x) == s.cov(x) }
@@ impl From<RangeFull> for UnboundedRange
@members
    open spec fn from_req(s: crate::shim::RangeFull) -> bool { true }
    open spec fn from_inv(s: crate::shim::RangeFull, r: Self) -> bool { true }
    open spec fn from_ens(s: crate::shim::RangeFull, r: Self) -> bool { true }
@@ impl From<BoundedRange> for BoundedSet
@members
    open spec fn from_req(s: BoundedRange<T>) -> bool { true }
    open spec fn from_inv(s: BoundedRange<T>, r: Self) -> bool { r.wf() }
    open spec fn from_ens(s: BoundedRange<T>, r: Self) -> bool { forall|x: real| #![trigger r.cov(x)] #![trigger s.cov(x)] r.cov(x) == s.cov(x) }
@@ impl From<LowerBoundedRange> for LowerBoundedSet
@members
    open spec fn from_req(s: LowerBoundedRange<T>) -> bool { true }
    open spec fn from_inv(s: LowerBoundedRange<T>, r: Self) -> bool { r.wf() }
    open spec fn from_ens(s: LowerBoundedRange<T>, r: Self) -> bool { forall|x: real| #![trigger r.cov(x)] #![trigger s.cov(x)] r.cov(x) == s.cov(x) }
@@ impl From<UpperBoundedRange> for UpperBoundedSet
@members
    open spec fn from_req(s: UpperBoundedRange<T>) -> bool { true }
    open spec fn from_inv(s: UpperBoundedRange<T>, r: Self) -> bool { r.wf() }
    open spec fn from_ens(s: UpperBoundedRange<T>, r: Self) -> bool { forall|x: real| #![trigger r.cov(x)] #![trigger s.cov(x)] r.cov(x) == s.cov(x) }
@@ impl From<UnboundedRange> for UnboundedSet
@members
    open spec fn from_req(s: UnboundedRange) -> bool { true }
    open spec fn from_inv(s: UnboundedRange, r: Self) -> bool { r.wf() }
    open spec fn from_ens(s: UnboundedRange, r: Self) -> bool { forall|x: real| #![trigger r.cov(x)] #![trigger s.cov(x)] r.cov(x) == s.cov(x) }
@@ fn From<BoundedRange> for BoundedSet::from | From<LowerBoundedRange> for LowerBoundedSet::from | From<UpperBoundedRange> for UpperBoundedSet::from | From<UnboundedRange> for UnboundedSet::from
@owner C08

## ---------------------------------------------------------------- ranges
@@ fn BoundedRange::new
@owner C08
@ret r
@spec
    ensures
        r.start == $1 && r.end == $2, //@C08
@@ fn LowerBoundedRange::new
@owner C08
@ret r
@spec
    ensures
        r.start == $1, //@C08
@@ fn UpperBoundedRange::new
@owner C08
@ret r
@spec
    ensures
        r.end == $1, //@C08
@@ fn EmptyRange::new | UnboundedRange::new
@owner C08
@@ fn BoundedRange::contains | LowerBoundedRange::contains | UpperBoundedRange::contains
@owner C08
@ret r
@spec
    ensures
        r == self.cov($1.pt()), //@C08
@@ fn LowerBoundedSet::contains | UpperBoundedSet::contains | PiecewiseUnboundedSet::contains | UnboundedSet::contains
@owner C08
@ret r
@spec
    requires
        self.wf(), //@C04
    ensures
        r == self.cov($1.pt()), //@C08
@@ fn BoundedSet::contains
@owner C08
@ret r
@spec
    requires
        self.wf(), //@C04
    ensures
        r == self.cov($1.pt()), //@C08
@entry
    proof { covn_tails(self.ranges@); }
@variant
@loop for|for_break
    invariant
        $acc == covn($it.s(), $it.i(), $1.pt()), //@C08
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@loop count
    invariant
        ($acc > 0) == covn($it.s(), $it.i(), $1.pt()), //@C08
        $acc <= $it.i(),
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@loop for
    invariant
        !covn($it.s(), $it.i(), $1.pt()), //@C08
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); covn_tail($it.s(), $it.i() - 1); }
@variant
@loop for_range
    invariant
        $it_n == self.ranges@.len(),
        !covn(self.ranges@, $it as int, $1.pt()), //@C08
    decreases $it_n - $it, //@C16
@loop_exit
    proof { covn_step(self.ranges@, $it - 1); }
@@ fn Rangetools for BoundedSet::is_empty
@owner C06
@variant
@loop for
    invariant
        forall|k: int| 0 <= k < $it.i() ==> sp_empty(#[trigger] $it.s()[k]), //@C06
    decreases $it.s().len() - $it.i(), //@C16
@@ fn EmptyRange::contains
@owner C08
@ret r
@spec
    ensures
        !r, //@C08
@@ fn UnboundedRange::contains
@owner C08
@ret r
@spec
    ensures
        r, //@C08
@@ fn BoundedRange::combine
@owner C02
@ret r
@spec
    requires
        sp_empty(*self) || sp_empty(*$1) || sp_intersects(*self, *$1), //@C16
    ensures
        forall|x: real| #![trigger r.cov(x)] #![trigger self.cov(x)] #![trigger $1.cov(x)] r.cov(x) == (self.cov(x) || $1.cov(x)), //@C02,C05
## (crate-private, and only ever called on pieces that overlap)
@variant
@spec
    requires
        sp_intersects(*self, *$1), //@C16
    ensures
        forall|x: real| #![trigger r.cov(x)] #![trigger self.cov(x)] #![trigger $1.cov(x)] r.cov(x) == (self.cov(x) || $1.cov(x)), //@C02,C05

## ---------------------------------------------------------------- BoundedSet
@@ fn BoundedSet::empty
@owner C08
@ret r
@spec
    ensures
        r.ranges@.len() == 0, //@C04
@@ fn BoundedSet::add_range
@owner C02
@spec
    requires
        old(self).wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05
    decreases old(self).ranges@.len(), //@C16
@variant
@entry
    let ghost __r0 = $1;
@loop while_let|while|loop
    invariant
        self.wf(), //@C04
        !sp_empty($acc),
        forall|x: real| #![trigger self.cov(x)] #![trigger $acc.cov(x)] #![trigger old(self).cov(x)] (self.cov(x) || $acc.cov(x)) == (old(self).cov(x) || __r0.cov(x)), //@C02,C05
    decreases self.ranges@.len(), //@C16
@variant
@entry
    let ghost __r0 = $1;
@loop while|loop
    invariant
        self.wf(), //@C04
        !sp_empty($acc),
        $idx <= self.ranges@.len(),
        forall|j: int| #![trigger self.ranges@[j]] 0 <= j < $idx ==> !sp_intersects(self.ranges@[j], $acc), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger $acc.cov(x)] #![trigger old(self).cov(x)] (self.cov(x) || $acc.cov(x)) == (old(self).cov(x) || __r0.cov(x)), //@C02,C05
    decreases self.ranges@.len() - $idx, //@C16
@loop_entry
    let ghost (__ra, __ia, __ma) = (self.ranges@, $idx as int, $acc);
@loop_exit
    proof {
        assert(forall|j: int| #![trigger self.ranges@[j]] 0 <= j < __ia ==> self.ranges@[j] == __ra[j]);
        assert(forall|j: int| #![trigger __ra[j]] 0 <= j < __ia ==> __ra[j].end.cut() <= __ra[__ia].start.cut());
    }
@variant
@loop while|loop
    invariant
        self.wf(), //@C04
        *self == *old(self),
        !sp_empty($1),
        $idx <= self.ranges@.len(),
        forall|j: int| #![trigger self.ranges@[j]] 0 <= j < self.ranges@.len() ==> self.ranges@[j].end.cut() <= $1.start.cut() || $1.end.cut() <= self.ranges@[j].start.cut(), //@C04
        forall|j: int| #![trigger self.ranges@[j]] $idx <= j < self.ranges@.len() ==> self.ranges@[j].start.cut() > $1.start.cut(), //@C04
    decreases $idx, //@C16
@variant
@loop while|loop
    invariant
        self.wf(), //@C04
        *self == *old(self),
        !sp_empty($1),
        $idx <= self.ranges@.len(),
        forall|j: int| #![trigger self.ranges@[j]] 0 <= j < self.ranges@.len() ==> self.ranges@[j].end.cut() <= $1.start.cut() || $1.end.cut() <= self.ranges@[j].start.cut(), //@C04
        forall|j: int| #![trigger self.ranges@[j]] 0 <= j < $idx ==> self.ranges@[j].start.cut() <= $1.start.cut(), //@C04
    decreases self.ranges@.len() - $idx, //@C16
@variant
@loop for_range_break
    invariant
        self.wf(), //@C04
        *self == *old(self),
        $it_n == self.ranges@.len(),
        ($acc == self.ranges@.len() && forall|j: int| #![trigger self.ranges@[j]] 0 <= j < $it ==> self.ranges@[j].start.cut() <= $1.start.cut())
            || ($acc == $it && $acc < self.ranges@.len() && forall|j: int| #![trigger self.ranges@[j]] 0 <= j < self.ranges@.len() ==> (self.ranges@[j].start.cut() <= $1.start.cut()) == (j < $acc)), //@C04
    decreases $it_n - $it, //@C16
@variant
@loop count
    invariant
        *self == *old(self),
        wfs($it.s()),
        $acc <= $it.i(),
        forall|j: int| #![trigger $it.s()[j]] 0 <= j < $it.i() ==> ($it.s()[j].start.cut() <= $1.start.cut()) == (j < $acc), //@C04
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof {
        if $acc < $it.i() - 1 {
            assert($it.s()[$acc as int].start.cut() < $it.s()[$acc as int].end.cut());
            assert($it.s()[$acc as int].end.cut() <= $it.s()[$it.i() - 1].start.cut());
        }
    }
## (crate-private: callers may have ruled out empty ranges)
@variant
@spec
    requires
        old(self).wf(), //@C04
        !sp_empty($1), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05
    decreases old(self).ranges@.len(), //@C16
@@ fn BoundedSet::add_set
@owner C02
@spec
    requires
        old(self).wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05
@loop for
    invariant
        self.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == (old(self).cov(x) || covn($it.s(), $it.i(), x)), //@C02,C05
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@entry
    let ghost __o0 = $1;
@loop while_let|while|loop
    invariant
        self.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] (self.cov(x) || $1.cov(x)) == (old(self).cov(x) || __o0.cov(x)), //@C02,C05
    decreases $1.ranges@.len(), //@C16
@variant
@loop for_range
    invariant
        $it_n == $1.ranges@.len(),
        self.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == (old(self).cov(x) || covn($1.ranges@, $it as int, x)), //@C02,C05
    decreases $it_n - $it, //@C16
@loop_exit
    proof { covn_step($1.ranges@, $it - 1); }
@variant
@loop for_rev
    invariant
        self.wf(), //@C04
        $it.s() == $1.ranges@.reverse(),
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == (old(self).cov(x) || covn($it.s(), $it.i(), x)), //@C02,C05
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@loop_after
    proof { covn_rev($1.ranges@); }
@variant
@loop while_let|while|loop
    invariant
        self.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] (self.cov(x) || covs($acc@, x)) == (old(self).cov(x) || $1.cov(x)), //@C02,C05
    decreases $acc@.len(), //@C16
@variant
@spec
    requires
        old(self).wf(), //@C04
        $1.wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05
@loop for
    invariant
        self.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger __ga.cov(x)] self.cov(x) == (__ga.cov(x) || covn($it.s(), $it.i(), x)), //@C02,C05
    decreases $it.s().len() - $it.i(), //@C16
@loop_before
    let ghost __ga = *self;
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@spec
    requires
        old(self).wf(), //@C04
        $1.wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05

## ---------------------------------------------------------------- half-bounded sets
@@ fn LowerBoundedSet::defragment
@owner C04
@spec
    requires
        old(self).ranges.wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] final(self).cov(x) == old(self).cov(x), //@C02,C05
    decreases old(self).ranges.ranges@.len(), //@C16
@loop while
    invariant
        self.ranges.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == old(self).cov(x), //@C02,C05
    decreases self.ranges.ranges@.len(), //@C16
@variant
@loop while_let|loop
    invariant
        self.ranges.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == old(self).cov(x), //@C02,C05
    decreases self.ranges.ranges@.len(), //@C16
@variant
@@ fn UpperBoundedSet::defragment
@owner C04
@spec
    requires
        old(self).ranges.wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] final(self).cov(x) == old(self).cov(x), //@C02,C05
    decreases old(self).ranges.ranges@.len(), //@C16
@loop while
    invariant
        self.ranges.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == old(self).cov(x), //@C02,C05
    decreases self.ranges.ranges@.len(), //@C16
@variant
@loop while_let|loop
    invariant
        self.ranges.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == old(self).cov(x), //@C02,C05
    decreases self.ranges.ranges@.len(), //@C16
@variant
@@ fn LowerBoundedSet::add_range | UpperBoundedSet::add_range | LowerBoundedSet::add_lower_bounded_range | UpperBoundedSet::add_upper_bounded_range | UnboundedSet::add_range | UnboundedSet::add_lower_bounded_range | UnboundedSet::add_upper_bounded_range
@owner C02
@spec
    requires
        old(self).wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05
@variant
@spec
    requires
        old(self).wf(), //@C04
        !sp_empty($1), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05
@@ fn LowerBoundedSet::add_set | UpperBoundedSet::add_set | UnboundedSet::add_set
@owner C02
@spec
    requires
        old(self).wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05
@loop for
    invariant
        self.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == (old(self).cov(x) || covn($it.s(), $it.i(), x)), //@C02,C05
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@entry
    let ghost __o0 = $1;
@loop while_let|while|loop
    invariant
        self.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] (self.cov(x) || $1.cov(x)) == (old(self).cov(x) || __o0.cov(x)), //@C02,C05
    decreases $1.ranges@.len(), //@C16
@variant
@loop for_range
    invariant
        $it_n == $1.ranges@.len(),
        self.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == (old(self).cov(x) || covn($1.ranges@, $it as int, x)), //@C02,C05
    decreases $it_n - $it, //@C16
@loop_exit
    proof { covn_step($1.ranges@, $it - 1); }
@variant
@loop for_rev
    invariant
        self.wf(), //@C04
        $it.s() == $1.ranges@.reverse(),
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == (old(self).cov(x) || covn($it.s(), $it.i(), x)), //@C02,C05
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@loop_after
    proof { covn_rev($1.ranges@); }
@variant
@loop while_let|while|loop
    invariant
        self.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] (self.cov(x) || covs($acc@, x)) == (old(self).cov(x) || $1.cov(x)), //@C02,C05
    decreases $acc@.len(), //@C16
@variant
@spec
    requires
        old(self).wf(), //@C04
        $1.wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05
@loop for
    invariant
        self.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger __ga.cov(x)] self.cov(x) == (__ga.cov(x) || covn($it.s(), $it.i(), x)), //@C02,C05
    decreases $it.s().len() - $it.i(), //@C16
@loop_before
    let ghost __ga = *self;
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@spec
    requires
        old(self).wf(), //@C04
        $1.wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05

## ---------------------------------------------------------------- unbounded sets
@@ fn PiecewiseUnboundedSet::defragment
@owner C04
@spec
    requires
        old(self).ranges.wf(), //@C04
    ensures
        final(self).ranges.wf(), //@C04
        below(final(self).ranges.ranges@, final(self).lower_bounded_range.start.cut()), //@C04
        above(final(self).ranges.ranges@, final(self).upper_bounded_range.end.cut()), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] final(self).cov(x) == old(self).cov(x), //@C02,C05
    decreases old(self).ranges.ranges@.len(), //@C16
@variant
@loop while_let|loop|while
    invariant
        self.ranges.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == old(self).cov(x), //@C02,C05
    decreases self.ranges.ranges@.len(), //@C16
@loop while_let|loop|while
    invariant
        self.ranges.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == old(self).cov(x), //@C02,C05
        above(self.ranges.ranges@, self.upper_bounded_range.end.cut()), //@C04
    decreases self.ranges.ranges@.len(), //@C16
@variant
@loop while_let|loop|while
    invariant
        self.ranges.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == old(self).cov(x), //@C02,C05
    decreases self.ranges.ranges@.len(), //@C16
@loop while_let|loop|while
    invariant
        self.ranges.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == old(self).cov(x), //@C02,C05
        below(self.ranges.ranges@, self.lower_bounded_range.start.cut()), //@C04
    decreases self.ranges.ranges@.len(), //@C16
@variant
@loop while_let|loop|while
    invariant
        self.ranges.wf(), //@C04
        forall|x: real| #![trigger self.cov(x)] #![trigger old(self).cov(x)] self.cov(x) == old(self).cov(x), //@C02,C05
    decreases self.ranges.ranges@.len(), //@C16
@@ fn UnboundedSet::new
@owner C02
@ret r
@spec
    ensures
        r.wf(), //@C04
        forall|x: real| #[trigger] r.cov(x) == ($1.cov(x) || $2.cov(x)), //@C02,C05
@@ fn UnboundedSet::defragment
@owner C04
@spec
    requires
        prewf(*old(self)), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] final(self).cov(x) == old(self).cov(x), //@C02,C05
@@ fn UnboundedSet::add_unbounded_set
@owner C02
@spec
    requires
        old(self).wf(), //@C04
        $1.wf(), //@C04
    ensures
        final(self).wf(), //@C04
        forall|x: real| #![trigger final(self).cov(x)] #![trigger old(self).cov(x)] #![trigger $1.cov(x)] final(self).cov(x) == (old(self).cov(x) || $1.cov(x)), //@C02,C05

## ---------------------------------------------------------------- intersections with loops
@@ fn RangeIntersection<BoundedRange> for BoundedSet::intersection | RangeIntersection<LowerBoundedRange> for BoundedSet::intersection | RangeIntersection<UpperBoundedRange> for BoundedSet::intersection
@owner C01
@entry
    let ghost __s0 = self.ranges@;
    let ghost __o0 = $1;
@loop for_mut
    invariant
        $src@.len() == __s0.len(),
        $it_n == __s0.len(),
        sorted(__s0),
        pmeet($src@, $it as int, __s0, __o0), //@C01
        forall|j: int| $it <= j < __s0.len() ==> #[trigger] $src@[j] == __s0[j],
    decreases $it_n - $it, //@C16
@variant
@loop for
    invariant
        $acc.wf(), //@C04
        forall|x: real| #![trigger $acc.cov(x)] #![trigger covn($it.s(), $it.i(), x)] $acc.cov(x) == (covn($it.s(), $it.i(), x) && __o0.cov(x)), //@C01
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@loop for|map_collect
    invariant
        wfs($acc@), //@C04
        forall|j: int| $it.i() <= j < $it.s().len() ==> below($acc@, (#[trigger] $it.s()[j]).start.cut()), //@C04
        forall|x: real| #![trigger covs($acc@, x)] #![trigger covn($it.s(), $it.i(), x)] covs($acc@, x) == (covn($it.s(), $it.i(), x) && __o0.cov(x)), //@C01
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@loop for_range
    invariant
        $self.ranges@.len() == __s0.len(),
        $it_n == __s0.len(),
        sorted(__s0),
        pmeet($self.ranges@, $it as int, __s0, __o0), //@C01
        forall|j: int| $it <= j < __s0.len() ==> #[trigger] $self.ranges@[j] == __s0[j],
    decreases $it_n - $it, //@C16
@variant
@loop for_mut
    invariant
        $src@.len() == __r0.len(),
        $it_n == __r0.len(),
        sorted(__r0),
        forall|j: int| 0 <= j < __r0.len() ==> sp_intersects(#[trigger] __r0[j], __o0),
        pmeet($src@, $it as int, __r0, __o0), //@C01
        forall|j: int| $it <= j < __r0.len() ==> #[trigger] $src@[j] == __r0[j],
        forall|x: real| #![trigger covs(__r0, x)] #![trigger covs(__s0, x)] __o0.cov(x) ==> covs(__r0, x) == covs(__s0, x), //@C01
    decreases $it_n - $it, //@C16
@loop_before
    let ghost __r0 = $src@;
    proof { kept_meet(__s0, __r0, __o0); }
@loop_after
    proof {
        assert forall|j: int| 0 <= j < $src@.len() implies (#[trigger] $src@[j]).start.cut() < $src@[j].end.cut() by {
            assert(sp_meet($src@[j], __r0[j], __o0));
            assert(sp_intersects(__r0[j], __o0));
        }
        pmeet_all($src@, $src@.len() as int, __r0, __o0);
    }
@@ fn RangeIntersection<BoundedSet> for BoundedSet::intersection | RangeIntersection<LowerBoundedSet> for BoundedSet::intersection | RangeIntersection<UpperBoundedSet> for BoundedSet::intersection
@owner C01
@entry
    let ghost __s0 = self;
    let ghost __o0 = $1;
@loop for
    invariant
        $acc.wf(), //@C04
        forall|x: real| #[trigger] $acc.cov(x) ==> __s0.cov(x) && __o0.cov(x), //@C01
        forall|x: real| #[trigger] covn($it.s(), $it.i(), x) && __o0.cov(x) ==> $acc.cov(x), //@C01
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@entry
    let ghost __s0 = self;
    let ghost __o0 = $1;
@loop for
    invariant
        $acc.wf(), //@C04
        forall|x: real| #[trigger] $acc.cov(x) ==> __s0.cov(x) && __o0.cov(x), //@C01
        forall|x: real| #[trigger] covn($it.s(), $it.i(), x) && __o0.cov(x) ==> $acc.cov(x), //@C01
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@loop for
    invariant
        $acc.wf(), //@C04
        forall|x: real| #[trigger] $acc.cov(x) ==> __s0.cov(x) && __o0.cov(x), //@C01
        forall|x: real| #[trigger] covn(__it0.s(), __it0.i() - 1, x) && __o0.cov(x) ==> $acc.cov(x), //@C01
        forall|x: real| #[trigger] covn($it.s(), $it.i(), x) && __it0.s()[__it0.i() - 1].cov(x) ==> $acc.cov(x), //@C01
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }

## ---------------------------------------------------------------- complements
@@ impl Rangetools for *
@members
    proof fn triv_law() {}
@@ impl RangeComplement for *
@members
    open spec fn comp_dom(x: real) -> bool { !crate::specs::is_cut::<T>(x) }
@@ fn RangeComplement<UnboundedSet> for BoundedSet::complement
@owner C03
@entry
    let ghost __s0 = self;
@loop fold
    invariant
        $acc.wf(), //@C04
        forall|x: real| !is_cut::<T>(x) ==> #[trigger] $acc.cov(x) == !covn($it.s(), $it.i(), x), //@C03
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@entry
    let ghost __s0 = self;
@loop for_rev
    invariant
        $acc.wf(), //@C04
        $it.s() == __s0.ranges@.reverse(),
        forall|x: real| !is_cut::<T>(x) ==> #[trigger] $acc.cov(x) == (!covn($it.s(), $it.i(), x)), //@C03
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@loop_after
    proof { covn_rev(__s0.ranges@); }
@variant
@entry
    let ghost __s0 = self;
@loop while_let|while|loop
    invariant
        $acc.wf(), //@C04
        forall|x: real| !is_cut::<T>(x) ==> (#[trigger] $acc.cov(x) && !covs($dq@, x)) == (!covs(__s0.ranges@, x)), //@C03
    decreases $dq@.len(), //@C16
@@ fn RangeComplement<UpperBoundedSet> for LowerBoundedSet::complement
@owner C03
@entry
    let ghost __s0 = self;
@loop fold
    invariant
        $acc.wf(), //@C04
        forall|x: real| !is_cut::<T>(x) ==> #[trigger] $acc.cov(x) == (!__s0.lower_bounded_range.cov(x) && !covn($it.s(), $it.i(), x)), //@C03
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@entry
    let ghost __s0 = self;
@loop for_rev
    invariant
        $acc.wf(), //@C04
        $it.s() == __s0.ranges.ranges@.reverse(),
        forall|x: real| !is_cut::<T>(x) ==> #[trigger] $acc.cov(x) == (!__s0.lower_bounded_range.cov(x) && !covn($it.s(), $it.i(), x)), //@C03
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@loop_after
    proof { covn_rev(__s0.ranges.ranges@); }
@variant
@entry
    let ghost __s0 = self;
@loop while_let|while|loop
    invariant
        $acc.wf(), //@C04
        forall|x: real| !is_cut::<T>(x) ==> (#[trigger] $acc.cov(x) && !covs($dq@, x)) == (!__s0.lower_bounded_range.cov(x) && !covs(__s0.ranges.ranges@, x)), //@C03
    decreases $dq@.len(), //@C16
@@ fn RangeComplement<LowerBoundedSet> for UpperBoundedSet::complement
@owner C03
@entry
    let ghost __s0 = self;
@loop fold
    invariant
        $acc.wf(), //@C04
        forall|x: real| !is_cut::<T>(x) ==> #[trigger] $acc.cov(x) == (!__s0.upper_bounded_range.cov(x) && !covn($it.s(), $it.i(), x)), //@C03
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@entry
    let ghost __s0 = self;
@loop for_rev
    invariant
        $acc.wf(), //@C04
        $it.s() == __s0.ranges.ranges@.reverse(),
        forall|x: real| !is_cut::<T>(x) ==> #[trigger] $acc.cov(x) == (!__s0.upper_bounded_range.cov(x) && !covn($it.s(), $it.i(), x)), //@C03
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@loop_after
    proof { covn_rev(__s0.ranges.ranges@); }
@variant
@entry
    let ghost __s0 = self;
@loop while_let|while|loop
    invariant
        $acc.wf(), //@C04
        forall|x: real| !is_cut::<T>(x) ==> (#[trigger] $acc.cov(x) && !covs($dq@, x)) == (!__s0.upper_bounded_range.cov(x) && !covs(__s0.ranges.ranges@, x)), //@C03
    decreases $dq@.len(), //@C16
@@ fn RangeComplement<BoundedSet> for UnboundedSet::complement
@owner C03
@entry
    let ghost __s0 = self;
@loop fold
    invariant
        $acc.wf(), //@C04
        forall|x: real| !is_cut::<T>(x) ==> #[trigger] $acc.cov(x) == (match __s0 { UnboundedSet::Full => false, UnboundedSet::Piecewise(p) => !p.upper_bounded_range.cov(x) && !p.lower_bounded_range.cov(x) } && !covn($it.s(), $it.i(), x)), //@C03
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@entry
    let ghost __s0 = self;
@loop for_rev
    invariant
        $acc.wf(), //@C04
        $it.s() == __s0->Piecewise_0.ranges.ranges@.reverse(),
        forall|x: real| !is_cut::<T>(x) ==> #[trigger] $acc.cov(x) == ((match __s0 { UnboundedSet::Full => false, UnboundedSet::Piecewise(p) => !p.upper_bounded_range.cov(x) && !p.lower_bounded_range.cov(x) }) && !covn($it.s(), $it.i(), x)), //@C03
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@loop_after
    proof { covn_rev(__s0->Piecewise_0.ranges.ranges@); }
@variant
@entry
    let ghost __s0 = self;
@loop while_let|while|loop
    invariant
        $acc.wf(), //@C04
        forall|x: real| !is_cut::<T>(x) ==> (#[trigger] $acc.cov(x) && !covs($dq@, x)) == ((match __s0 { UnboundedSet::Full => false, UnboundedSet::Piecewise(p) => !p.upper_bounded_range.cov(x) && !p.lower_bounded_range.cov(x) }) && !covs(__s0->Piecewise_0.ranges.ranges@, x)), //@C03
    decreases $dq@.len(), //@C16

## ---------------------------------------------------------------- loops that collect pieces, in any operation
@@ fn *::union | *::intersection
@variant
@loop for|fold
    invariant
        $acc.wf(), //@C04
        forall|x: real| #![trigger $acc.cov(x)] #![trigger __ga.cov(x)] $acc.cov(x) == (__ga.cov(x) || covn($it.s(), $it.i(), x)),
    decreases $it.s().len() - $it.i(), //@C16
@loop_before
    let ghost __ga = $acc;
@loop_entry
    proof { covn_step($it.s(), $it.i() - 1); }
@variant
@loop while_let|while|loop
    invariant
        $acc.wf(), //@C04
        forall|x: real| #![trigger $acc.cov(x)] #![trigger __ga.cov(x)] ($acc.cov(x) || covs($dq@, x)) == (__ga.cov(x) || covs(__gd, x)),
    decreases $dq@.len(), //@C16
@loop_before
    let ghost __ga = $acc;
    let ghost __gd = $dq@;
