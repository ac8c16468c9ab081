/// `idx` numbers the elements of the type consecutively from `first` to `last`.
pub trait Step: crate::shim::Lawful {
    spec fn idx(self) -> int;
    spec fn first() -> int;
    spec fn last_() -> int;
    proof fn step_law(a: Self, b: Self)
        ensures
            Self::first() <= a.idx() <= Self::last_(),
            a.partial_cmp_spec(&b) == Some(std::cmp::Ordering::Less) <==> a.idx() < b.idx(),
            a.idx() == b.idx() ==> a == b,
    ;
    fn steps_between(start: &Self, end: &Self) -> (r: Option<usize>)
        ensures
            match r {
                Some(n) => start.idx() + n == end.idx(),
                None => start.idx() > end.idx() || end.idx() - start.idx() > usize::MAX,
            }, //@C10
    ;
    fn forward_checked(start: Self, count: usize) -> (r: Option<Self>)
        ensures
            match r {
                Some(t) => t.idx() == start.idx() + count,
                None => start.idx() + count > Self::last_(),
            }, //@C10
    ;
    $FN(Step::forward)
    fn backward_checked(start: Self, count: usize) -> (r: Option<Self>)
        ensures
            match r {
                Some(t) => t.idx() == start.idx() - count,
                None => start.idx() - count < Self::first(),
            }, //@C10
    ;
    $FN(Step::backward)
}
