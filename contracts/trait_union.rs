pub trait RangeUnion<Rhs: crate::shim::Cov, RhsSet>: crate::shim::Cov {
    type Output: crate::shim::Cov;
    fn union(self, other: Rhs) -> (o: Self::Output)
        where Rhs: Rangetools<Set = RhsSet>
        requires
            self.wf(), //@C04
            other.wf(), //@C04
        ensures
            o.wf(), //@C04
            forall|x: real| #![trigger o.cov(x)] #![trigger self.cov(x)] #![trigger other.cov(x)] o.cov(x) == (self.cov(x) || other.cov(x)), //@C02,C05
    ;
}
