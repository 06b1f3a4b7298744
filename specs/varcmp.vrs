// ---- comparisons of variables ----
impl PartialEqSpecImpl for Var {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Var) -> bool { self.i() == other.i() }
}
impl PartialOrdSpecImpl for Var {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Var) -> Option<Ordering> {
        if self.i() < other.i() { Some(Ordering::Less) } else if self.i() > other.i() { Some(Ordering::Greater) } else { Some(Ordering::Equal) }
    }
}
impl OrdSpecImpl for Var {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Var) -> Ordering {
        if self.i() < other.i() { Ordering::Less } else if self.i() > other.i() { Ordering::Greater } else { Ordering::Equal }
    }
}
// derived comparisons of the single index field
pub assume_specification[ <Var as PartialEq>::eq ](a: &Var, b: &Var) -> (r: bool) ensures r == (a.i() == b.i());
pub assume_specification[ <Var as PartialOrd>::partial_cmp ](a: &Var, b: &Var) -> (r: Option<Ordering>);
pub assume_specification[ <Var as Ord>::cmp ](a: &Var, b: &Var) -> (r: Ordering);
