## ---------------------------------------------------------------- BoundedRange iteration
@@ fn BoundedRange::into_iter
@owner C11
@ret r
@entry
    broadcast use crate::specs::group_step;
@spec
    ensures
        forall|t: T| #![trigger t.pt()] #![trigger t.idx()] r.rem().contains(t.idx()) == self.cov(t.pt()), //@C11
        ascending(r.rem()), //@C11
@@ fn BoundedRangeIter::next
@owner C11
@ret r
@entry
    broadcast use crate::specs::group_step;
@spec
    ensures
        takes_front(old(self).rem(), r, final(self).rem()), //@C11
@@ fn BoundedRangeIter::next_back
@owner C11
@ret r
@entry
    broadcast use crate::specs::group_step;
@spec
    ensures
        takes_back(old(self).rem(), r, final(self).rem()), //@C11
@@ fn BoundedRangeIter::nth
@owner C13
@ret r
@entry
    broadcast use crate::specs::group_step;
@spec
    ensures
        takes_nth(old(self).rem(), $1 as int, r, final(self).rem()), //@C13
@@ fn BoundedRangeIter::nth_back
@owner C13
@ret r
@entry
    broadcast use crate::specs::group_step;
@spec
    ensures
        takes_nth_back(old(self).rem(), $1 as int, r, final(self).rem()), //@C13
@@ fn BoundedRangeIter::size_hint
@owner C13
@ret r
@entry
    broadcast use crate::specs::group_flat;
    broadcast use crate::specs::group_step;
@spec
    ensures
        hint_ok(self.rem().len() as int, r), //@C13
@@ fn BoundedSetIter::size_hint
@owner C13
@ret r
@entry
    broadcast use crate::specs::group_flat;
    broadcast use crate::specs::group_step;
@spec
    ensures
        hint_ok(self.rem().len() as int, r), //@C13
@loop try_fold
    invariant
        match $acc { Some(n) => n == flat($it.s().take($it.i())).len(), None => flat($it.s()).len() > usize::MAX }, //@C13
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { flat_take($it.s(), $it.i() - 1); }
@loop_after
    proof { assert($it.s().take($it.s().len() as int) =~= $it.s()); }
@variant
@loop for
    invariant
        $acc == flat($it.s().take($it.i())).len(), //@C13
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { flat_take($it.s(), $it.i() - 1); }
@loop_after
    proof { assert($it.s().take($it.s().len() as int) =~= $it.s()); }
@variant
@loop for
    invariant
        match $acc { Some(n) => n == flat($it.s().take($it.i())).len(), None => flat($it.s()).len() > usize::MAX }, //@C13
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { flat_take($it.s(), $it.i() - 1); }
@loop_after
    proof { assert($it.s().take($it.s().len() as int) =~= $it.s()); }
@variant
@loop for
    invariant
        $acc[0] <= flat($it.s().take($it.i())).len(), //@C13
        $acc[1] is Some ==> $acc[0] == flat($it.s().take($it.i())).len(), //@C13
        match $acc[1] { Some(n) => n == flat($it.s().take($it.i())).len(), None => flat($it.s()).len() > usize::MAX }, //@C13
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { flat_take($it.s(), $it.i() - 1); }
@loop_after
    proof { assert($it.s().take($it.s().len() as int) =~= $it.s()); }
@variant
@loop for
    invariant
        $acc[1] <= flat($it.s().take($it.i())).len(), //@C13
        $acc[0] is Some ==> $acc[1] == flat($it.s().take($it.i())).len(), //@C13
        match $acc[0] { Some(n) => n == flat($it.s().take($it.i())).len(), None => flat($it.s()).len() > usize::MAX }, //@C13
    decreases $it.s().len() - $it.i(), //@C16
@loop_entry
    proof { flat_take($it.s(), $it.i() - 1); }
@loop_after
    proof { assert($it.s().take($it.s().len() as int) =~= $it.s()); }
@@ fn BoundedRangeIter::count | BoundedSetIter::count
@owner C13
@ret r
@entry
    broadcast use crate::specs::group_flat;
    broadcast use crate::specs::group_step;
@spec
    requires
        self.rem().len() <= usize::MAX,
    ensures
        r == self.rem().len(), //@C13
@@ fn BoundedRangeIter::last | BoundedRangeIter::max | BoundedSetIter::max
@owner C13
@ret r
@entry
    broadcast use crate::specs::group_flat;
    broadcast use crate::specs::group_step;
@spec
    ensures
        is_back(self.rem(), r), //@C13
@@ fn BoundedRangeIter::min | BoundedSetIter::min
@owner C13
@ret r
@entry
    broadcast use crate::specs::group_flat;
    broadcast use crate::specs::group_step;
@spec
    ensures
        is_front(self.rem(), r), //@C13
@@ fn BoundedRangeIter::len | BoundedSetIter::len
@owner C13
@ret r
@spec
    requires
        self.rem().len() <= usize::MAX,
    ensures
        r == self.rem().len(), //@C13

## ---------------------------------------------------------------- BoundedSet iteration
@@ fn BoundedSet::into_iter
@owner C12
@ret r
@entry
    broadcast use crate::specs::group_step;
@spec
    requires
        self.wf(), //@C04
    ensures
        forall|t: T| #![trigger t.pt()] #![trigger t.idx()] r.rem().contains(t.idx()) == self.cov(t.pt()), //@C12
        ascending(r.rem()), //@C12
@loop map_collect|for
    invariant
        $acc@.len() == $it.i(),
        pieces_ok($it.s(), $acc@, $it.i()), //@C12
    decreases $it.s().len() - $it.i(), //@C16
@loop_after
    proof { set_rem($it.s(), $acc@); }
@@ fn BoundedSetIter::next
@owner C12
@ret r
@entry
    broadcast use crate::specs::group_flat;
    broadcast use crate::specs::group_step;
@spec
    ensures
        takes_front(old(self).rem(), r, final(self).rem()), //@C12
@loop while
    invariant
        self.rem() == old(self).rem(), //@C12
    decreases self.range_iters@.len(), //@C16
@variant
@loop while_let|loop
    invariant
        self.rem() == old(self).rem(), //@C12
    decreases self.range_iters@.len(), //@C16
@@ fn BoundedSetIter::next_back
@owner C12
@ret r
@entry
    broadcast use crate::specs::group_flat;
    broadcast use crate::specs::group_step;
@spec
    ensures
        takes_back(old(self).rem(), r, final(self).rem()), //@C12
@loop while
    invariant
        self.rem() == old(self).rem(), //@C12
    decreases self.range_iters@.len(), //@C16
@variant
@loop while_let|loop
    invariant
        self.rem() == old(self).rem(), //@C12
    decreases self.range_iters@.len(), //@C16
@@ fn BoundedSetIter::last
@owner C13
@ret r
@entry
    broadcast use crate::specs::group_flat;
    broadcast use crate::specs::group_step;
@spec
    ensures
        is_back(self.rem(), r), //@C13
@loop while
    invariant
        $acc.rem() == self.rem(), //@C13
    decreases $acc.range_iters@.len(), //@C16
@variant
@loop while_let|loop
    invariant
        $acc.rem() == self.rem(), //@C13
    decreases $acc.range_iters@.len(), //@C16
@@ fn BoundedSetIter::nth
@owner C13
@ret r
@attr
    #[verifier::rlimit(40)]
@entry
    broadcast use crate::specs::group_flat;
    broadcast use crate::specs::group_step;
    let ghost __n0 = $1;
@spec
    ensures
        takes_nth(old(self).rem(), $1 as int, r, final(self).rem()), //@C13
@loop while_let|while|loop
    invariant
        __n0 - $1 <= old(self).rem().len(),
        $1 <= __n0,
        old(self).rem() =~= old(self).rem().take(__n0 - $1) + self.rem(), //@C13
    decreases self.range_iters@.len(), //@C16
@@ fn BoundedSetIter::nth_back
@owner C13
@ret r
@attr
    #[verifier::rlimit(40)]
@entry
    broadcast use crate::specs::group_flat;
    broadcast use crate::specs::group_step;
    let ghost __n0 = $1;
@spec
    ensures
        takes_nth_back(old(self).rem(), $1 as int, r, final(self).rem()), //@C13
@loop while_let|while|loop
    invariant
        __n0 - $1 <= old(self).rem().len(),
        $1 <= __n0,
        old(self).rem() =~= self.rem() + old(self).rem().skip(old(self).rem().len() - (__n0 - $1)), //@C13
    decreases self.range_iters@.len(), //@C16

## ---------------------------------------------------------------- lower-bounded iteration
@@ fn EmptyRange::into_iter
@owner C11
@@ fn LowerBoundedRange::into_iter
@owner C14
@ret r
@entry
    broadcast use crate::specs::group_step;
@spec
    requires
        match self.start.0 { Bound::Excluded(t) => t.idx() < T::last_(), _ => true },
    ensures
        forall|t: T| #![trigger t.pt()] #![trigger t.idx()] (r.current.idx() <= t.idx()) == self.cov(t.pt()), //@C14
@@ fn LowerBoundedRangeIter::next
@owner C14
@ret r
@spec
    requires
        old(self).current.idx() < T::last_(),
    ensures
        match r { Some(t) => t.idx() == old(self).current.idx(), None => false }, //@C14
        final(self).current.idx() == old(self).current.idx() + 1, //@C14
@@ fn LowerBoundedRangeIter::nth
@owner C14
@ret r
@spec
    requires
        old(self).current.idx() + $1 < T::last_(),
    ensures
        match r { Some(t) => t.idx() == old(self).current.idx() + $1, None => false }, //@C14
        final(self).current.idx() == old(self).current.idx() + $1 + 1, //@C14
@@ fn LowerBoundedRangeIter::min
@owner C14
@ret r
@spec
    requires
        self.current.idx() < T::last_(),
    ensures
        match r { Some(t) => t.idx() == self.current.idx(), None => false }, //@C14
@@ fn LowerBoundedRangeIter::size_hint | LowerBoundedSetIter::size_hint
@owner C14
@ret r
@spec
    ensures
        r.1 is None, //@C14
@@ fn LowerBoundedSet::into_iter
@owner C14
@ret r
@entry
    broadcast use crate::specs::group_step;
@spec
    requires
        self.wf(), //@C04
        match self.lower_bounded_range.start.0 { crate::Bound::Excluded(t) => t.idx() < T::last_(), _ => true },
    ensures
        forall|t: T| #![trigger t.pt()] #![trigger t.idx()] (r.set_iter.rem().contains(t.idx()) || r.range_iter.current.idx() <= t.idx()) == self.cov(t.pt()), //@C14
        ascending(r.set_iter.rem()), //@C14
        forall|v: int| #[trigger] r.set_iter.rem().contains(v) ==> v < r.range_iter.current.idx(), //@C14
@exit
    proof {
        assert forall|t: T| __ret.set_iter.rem().contains(#[trigger] t.idx()) implies t.idx() < __ret.range_iter.current.idx() by { assert(self.ranges.cov(t.pt())); }
        flat_under(__ret.set_iter.range_iters@, __ret.range_iter.current.idx());
    }
@@ fn LowerBoundedSetIter::next
@owner C14
@ret r
@spec
    requires
        old(self).ready(0),
    ensures
        match r { Some(t) => t.idx() == old(self).at(0), None => false }, //@C14
        forall|k: int| k >= 0 ==> #[trigger] final(self).at(k) == old(self).at(k + 1), //@C14
@@ fn LowerBoundedSetIter::nth
@owner C14
@ret r
@spec
    requires
        old(self).ready($1 as int),
    ensures
        match r { Some(t) => t.idx() == old(self).at($1 as int), None => false }, //@C14
        forall|k: int| k >= 0 ==> #[trigger] final(self).at(k) == old(self).at(k + $1 + 1), //@C14
@@ fn LowerBoundedSetIter::min
@owner C14
@ret r
@spec
    requires
        self.ready(0),
    ensures
        match r { Some(t) => t.idx() == self.at(0), None => false }, //@C14
