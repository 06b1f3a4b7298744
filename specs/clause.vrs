// ---- clauses; the unsized slice wrapper `Cl` a clause dereferences to is identified with the clause itself ----
//@grename Cl => Clause
//@struct src/types/constraints.rs Clause
impl Clause {
    pub open spec fn s(&self) -> Seq<Lit> { self.lits@ }
    pub open spec fn sat(&self, a: Asg) -> bool { cl_true(self.lits@, a) }
//@fn src/types/constraints.rs Clause::new
//@ret r
    ensures r.s().len() == 0,
//@sub Self::default\(\) ==> Clause { lits: Vec::new() }
//@end
//@fn src/types/constraints.rs Clause::with_capacity
//@ret r
    ensures r.s().len() == 0,
//@end
//@fn src/types/constraints.rs Clause::add
    ensures final(self).s() == old(self).s().push(lit),
//@end
//@fn src/types/constraints.rs Cl::len id=Cl::len
//@ret r
    ensures r == self.s().len(),
//@end
//@fn src/types/constraints.rs Cl::is_empty id=Cl::is_empty
//@ret r
    ensures r == (self.s().len() == 0),
//@end
}
#[verifier::external_body]
pub fn vx_vec_from_arr<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { Vec::from(a) }
#[verifier::external_body]
pub fn vx_vec_from_slice<T: Copy>(a: &[T]) -> (r: Vec<T>) ensures r@ == a@ { Vec::from(a) }
impl<const N: usize> vstd::std_specs::convert::FromSpecImpl<[Lit; N]> for Clause {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: [Lit; N]) -> Clause { arbitrary() }
}
impl<const N: usize> From<[Lit; N]> for Clause {
//@fn src/types/constraints.rs <Clause as From<[Lit;N]>>::from id=Clause::from_array
//@ret r
    ensures r.s() == value@,
//@rename Vec::from => vx_vec_from_arr
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<&[Lit]> for Clause {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &[Lit]) -> Clause { arbitrary() }
}
impl From<&[Lit]> for Clause {
//@fn src/types/constraints.rs <Clause as From<&[Lit]>>::from id=Clause::from_slice
//@ret r
    ensures r.s() == value@,
//@rename Vec::from => vx_vec_from_slice
//@end
}
pub fn vx_clause(v: Vec<Lit>) -> (r: Clause) ensures r.s() == v@ { Clause { lits: v } }
impl vstd::std_specs::ops::BitOrSpecImpl<Lit> for Lit {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, rhs: Lit) -> bool { true }
    open spec fn bitor_spec(self, rhs: Lit) -> Clause { arbitrary() }
}
impl std::ops::BitOr<Lit> for Lit {
    type Output = Clause;
//@fn src/types/operators.rs <Lit as BitOr<Lit>>::bitor
//@ret r
    ensures r.s() == seq![self, rhs],
//@end
}
impl vstd::std_specs::ops::BitOrSpecImpl<Clause> for Lit {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, rhs: Clause) -> bool { true }
    open spec fn bitor_spec(self, rhs: Clause) -> Clause { arbitrary() }
}
impl std::ops::BitOr<Clause> for Lit {
    type Output = Clause;
//@fn src/types/operators.rs <Lit as BitOr<Clause>>::bitor chains=loop push=add
//@ret r
    ensures r.s() == seq![self] + rhs.s(),
//@sub it: rhs ==> it: rhs.lits
//@loop 0 iter=it
    invariant it.seq() == rhs.s(), cl.s() == seq![self] + rhs.s().take(it.index@ as int),
//@ghost loop 0 end
    proof { assert(rhs.s().take(it.index@ as int + 1) == rhs.s().take(it.index@ as int).push(rhs.s()[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(rhs.s().take(rhs.s().len() as int) == rhs.s()); }
//@end
}
impl vstd::std_specs::ops::BitOrSpecImpl<Lit> for Clause {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, rhs: Lit) -> bool { true }
    open spec fn bitor_spec(self, rhs: Lit) -> Clause { arbitrary() }
}
impl std::ops::BitOr<Lit> for Clause {
    type Output = Clause;
//@fn src/types/operators.rs <Clause as BitOr<Lit>>::bitor
//@ret r
    ensures r.s() == self.s().push(rhs),
//@end
}
impl vstd::std_specs::ops::BitOrAssignSpecImpl<Lit> for Clause {
    open spec fn obeys_bitor_assign_spec() -> bool { false }
    open spec fn bitor_assign_req(&self, rhs: Lit) -> bool { true }
    open spec fn bitor_assign_spec(&self, rhs: Lit) -> &Clause { arbitrary() }
}
impl std::ops::BitOrAssign<Lit> for Clause {
//@fn src/types/operators.rs <Clause as BitOrAssign<Lit>>::bitor_assign
    ensures final(self).s() == old(self).s().push(rhs),
//@end
}
