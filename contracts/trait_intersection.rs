pub trait RangeIntersection<Rhs: crate::shim::Cov, RhsInner>: crate::shim::Cov {
    type Output: crate::shim::Cov;
    fn intersection(self, other: Rhs) -> (o: Self::Output)
        where Rhs: Rangetools<Inner = RhsInner>
        requires
            self.wf(), //@C04
            other.wf(), //@C04
        ensures
            o.wf(), //@C04
            crate::shim::sp_meet(o, self, other), //@C01
    ;
}
