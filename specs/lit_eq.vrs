impl vstd::std_specs::cmp::PartialEqSpecImpl for Lit {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Lit) -> bool { *self == *other }
}
pub assume_specification[ <Lit as PartialEq>::eq ](a: &Lit, b: &Lit) -> (r: bool) ensures r == (*a == *b);
