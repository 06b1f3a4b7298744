// ---- clauses that encode a constraint ----
pub trait VxCons: Sized { spec fn ksat(&self, a: Asg) -> bool; spec fn klits(&self) -> Seq<Lit>; spec fn kwf(&self) -> bool; }
impl VxCons for CardConstraint { open spec fn ksat(&self, a: Asg) -> bool { self.sat(a) } open spec fn klits(&self) -> Seq<Lit> { self.l() } open spec fn kwf(&self) -> bool { true } }
/// the clauses added since c0 encode the constraint over fresh variables
#[verifier::opaque]
pub open spec fn encoded<C: VxCons>(c: C, c0: Seq<Clause>, c1: Seq<Clause>, n0: nat, n1: nat) -> bool {
    &&& c1 == c0 + since(c1, c0) && n0 <= n1 && cok(since(c1, c0), c.klits(), n0, n1)
    &&& forall|a: Asg| #[trigger] cnf_true(since(c1, c0), a) ==> c.ksat(a)
    &&& forall|a: Asg| #[trigger] c.ksat(a) ==> exists|b: Asg| agree(a, b, n0) && #[trigger] cnf_true(since(c1, c0), b)
}
