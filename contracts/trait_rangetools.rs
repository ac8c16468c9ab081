pub trait Rangetools: crate::shim::Cov {
    fn is_empty(&self) -> (r: bool)
        requires
            self.wf(), //@C04
        ensures
            r == crate::shim::sp_empty(*self), //@C06
    ;
    type Inner: crate::shim::Cov;
    fn to_inner(self) -> (r: Self::Inner)
        requires
            self.wf(), //@C04
        ensures
            r.wf(), //@C04
            forall|x: real| #![trigger r.cov(x)] #![trigger self.cov(x)] r.cov(x) == self.cov(x), //@C08
    ;
    type Set: crate::shim::Cov;
    /// only the unbounded range has kinds that always cover everything, only the empty range never anything
    proof fn triv_law()
        ensures
            <Self::Inner as crate::shim::Cov>::always() == Self::always(),
            <Self::Inner as crate::shim::Cov>::never() == Self::never(),
            <Self::Set as crate::shim::Cov>::always() ==> Self::always(),
            <Self::Set as crate::shim::Cov>::never() == Self::never(),
    ;
    fn to_set(self) -> (r: Self::Set)
        requires
            self.wf(), //@C04
        ensures
            r.wf(), //@C04
            forall|x: real| #![trigger r.cov(x)] #![trigger self.cov(x)] r.cov(x) == self.cov(x), //@C08
    ;
}
/// the provided methods of `Rangetools`
pub trait RangetoolsExt: Rangetools {
    fn rt_complement<Output>(self) -> (o: Output)
        where
            Output: crate::shim::Cov,
            Self: Sized + RangeComplement<Output>,
        requires
            self.wf(), //@C04
        ensures
            o.wf(), //@C04
            forall|x: real| <Self as RangeComplement<Output>>::comp_dom(x) ==> #[trigger] o.cov(x) == !self.cov(x), //@C03
    ;
    fn rt_intersection<R, Output>(self, other: R) -> (o: Output)
        where
            R: Rangetools,
            Output: crate::shim::Cov,
            Self: Sized + RangeIntersection<R, R::Inner, Output = Output>,
        requires
            self.wf(), //@C04
            other.wf(), //@C04
        ensures
            o.wf(), //@C04
            crate::shim::sp_meet(o, self, other), //@C01
    ;
    fn disjoint<R, Output>(self, other: R) -> (r: bool)
        where
            R: Rangetools,
            Output: Rangetools,
            Self: Sized + RangeIntersection<R, R::Inner, Output = Output>,
        requires
            self.wf(), //@C04
            other.wf(), //@C04
        ensures
            r == !crate::shim::sp_intersects(self, other), //@C06
    ;
    fn intersects<R, Output>(self, other: R) -> (r: bool)
        where
            R: Rangetools,
            Output: Rangetools,
            Self: Sized + RangeIntersection<R, R::Inner, Output = Output>,
        requires
            self.wf(), //@C04
            other.wf(), //@C04
        ensures
            r == crate::shim::sp_intersects(self, other), //@C06
    ;
    fn rt_union<R, Output>(self, other: R) -> (o: Output)
        where
            R: Rangetools,
            Output: crate::shim::Cov,
            Self: Sized + RangeUnion<R, R::Set, Output = Output>,
        requires
            self.wf(), //@C04
            other.wf(), //@C04
        ensures
            o.wf(), //@C04
            forall|x: real| #![trigger o.cov(x)] #![trigger self.cov(x)] #![trigger other.cov(x)] o.cov(x) == (self.cov(x) || other.cov(x)), //@C02,C05
    ;
}
