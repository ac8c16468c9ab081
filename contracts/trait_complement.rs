pub trait RangeComplement<Output: crate::shim::Cov>: crate::shim::Cov {
    /// the positions at which complementing is exact: all but the bound positions
    /// themselves, so every element of the type (lemma `pt_not_cut`)
    spec fn comp_dom(x: real) -> bool;
    fn complement(self) -> (o: Output)
        requires
            self.wf(), //@C04
        ensures
            o.wf(), //@C04
            forall|x: real| <Self as RangeComplement<Output>>::comp_dom(x) ==> #[trigger] o.cov(x) == !self.cov(x), //@C03
    ;
}
