#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include lit.vrs
//@include vm.vrs
//@include assignment.vrs
//@include assign_fn.vrs
//@include sem.vrs
//@include sums.vrs
//@struct src/instances/mod.rs BasicVarManager
impl BasicVarManager {
    pub open spec fn next(&self) -> nat { self.next_var.i() }
//@fn src/instances/mod.rs BasicVarManager::from_next_free
//@ret r
    ensures r.next() == next_var.i(),
//@end
}
//@struct src/solvers/mod.rs SolverResult
// ---- formulas as the set of their satisfying assignments ----
pub type Fm = spec_fn(Asg) -> bool;
pub open spec fn conj(f: Fm, u: Seq<Lit>) -> Fm { |a: Asg| f(a) && cube_true(u, a) }
pub open spec fn agree(a: Asg, b: Asg, n: nat) -> bool { forall|i: nat| i < n ==> #[trigger] a(i) == b(i) }
/// the formula talks about variables below n only
pub open spec fn dep(f: Fm, n: nat) -> bool { forall|a: Asg, b: Asg| agree(a, b, n) ==> #[trigger] f(a) == #[trigger] f(b) }
pub open spec fn wt(a: Asg) -> spec_fn((Lit, usize)) -> int { |p: (Lit, usize)| if tv(a, p.0) { p.1 as int } else { 0 } }
pub open spec fn objv(o: Seq<(Lit, usize)>, a: Asg) -> int { sm(o, wt(a)) }
pub open spec fn wfull() -> spec_fn((Lit, usize)) -> int { |p: (Lit, usize)| p.1 as int }
pub open spec fn wsum(o: Seq<(Lit, usize)>) -> int { sm(o, wfull()) }
pub struct VxErr { pub x: u8 }
pub struct OutOfMemory { pub x: u8 }
pub struct EnforceError { pub x: u8 }
// ---- the contract of a correct incremental SAT solver ----
pub trait VxSolver: Sized {
    /// what has been added so far
    spec fn phi(&self) -> Fm;
    /// the model of the last satisfiable call
    spec fn md(&self) -> Asg;
    /// one more than the largest variable
    spec fn nv(&self) -> nat;
    fn reserve(&mut self, v: Var) -> (r: Result<(), VxErr>) ensures final(self).phi() == old(self).phi();
    fn max_var(&self) -> (r: Option<Var>) ensures r is None <==> self.nv() == 0, r is Some ==> self.nv() == r->0.i() + 1;
    fn solve(&mut self) -> (r: Result<SolverResult, VxErr>)
        ensures final(self).phi() == old(self).phi(), r is Ok ==> r->Ok_0 != SolverResult::Interrupted,
            r == Ok::<SolverResult, VxErr>(SolverResult::Sat) ==> final(self).phi()(final(self).md()),
            r == Ok::<SolverResult, VxErr>(SolverResult::Unsat) ==> forall|a: Asg| !#[trigger] final(self).phi()(a);
    fn solution(&self, high: Var) -> (r: Result<Assignment, VxErr>)
        ensures r is Ok ==> forall|i: nat| i <= high.i() ==> r->Ok_0.val(i as int) == TernaryVal::of(#[trigger] self.md()(i));
    fn add_unit(&mut self, l: Lit) -> (r: Result<(), VxErr>) ensures r is Ok ==> final(self).phi() == conj(old(self).phi(), seq![l]);
}
// ---- the contract of a correct incremental upper-bounding encoding ----
pub trait VxEnc: Sized {
    spec fn obj(&self) -> Seq<(Lit, usize)>;
    /// what has been encoded into the solver
    spec fn enc(&self) -> Fm;
    /// bounds that can be enforced
    spec fn ready(&self, k: int) -> bool;
    /// `phi` results from the formula `base` over variables below n by encoding and enforcing bounds no smaller than b
    spec fn inv(&self, base: Fm, n: nat, phi: Fm, b: int) -> bool;
    fn from_vec(obj: Vec<(Lit, usize)>) -> (r: Self)
        ensures r.obj() == obj@,
            forall|base: Fm, n: nat, b: int| dep(base, n) && (forall|i: int| 0 <= i < obj@.len() ==> (#[trigger] obj@[i]).0.v() < n) ==> #[trigger] r.inv(base, n, base, b);
    fn encode_ub<S: VxSolver>(&mut self, range: std::ops::Range<usize>, collector: &mut S, vm: &mut BasicVarManager) -> (r: Result<(), OutOfMemory>)
        ensures final(self).obj() == old(self).obj(), final(vm).next() >= old(vm).next(),
            r is Ok ==> (forall|a: Asg| #[trigger] final(collector).phi()(a) ==> old(collector).phi()(a) && final(self).enc()(a)),
            r is Ok ==> (forall|k: int| range.start <= k < range.end ==> #[trigger] final(self).ready(k)),
            r is Ok ==> forall|base: Fm, n: nat, b: int| n <= old(vm).next() && old(self).inv(base, n, old(collector).phi(), b) ==> #[trigger] final(self).inv(base, n, final(collector).phi(), b);
    fn enforce_ub(&self, ub: usize) -> (r: Result<Vec<Lit>, EnforceError>)
        ensures self.ready(ub as int) ==> r is Ok,
            r is Ok ==> (forall|a: Asg| #[trigger] self.enc()(a) && cube_true(r->Ok_0@, a) ==> objv(self.obj(), a) <= ub),
            r is Ok ==> forall|base: Fm, n: nat, phi: Fm, b: int| #[trigger] self.inv(base, n, phi, b) && ub <= b ==> self.inv(base, n, conj(phi, r->Ok_0@), ub as int);
    /// conservative: below the enforced bounds nothing is lost
    proof fn lem_inv(&self, base: Fm, n: nat, phi: Fm, b: int)
        requires self.inv(base, n, phi, b),
        ensures forall|a: Asg| base(a) && objv(self.obj(), a) <= b ==> exists|e: Asg| agree(a, e, n) && #[trigger] phi(e);
}
pub proof fn lem_dep_le(f: Fm, n: nat, m: nat) requires dep(f, n), n <= m ensures dep(f, m)
{ assert forall|a: Asg, b: Asg| agree(a, b, m) implies #[trigger] f(a) == #[trigger] f(b) by { assert(agree(a, b, n)); } }
pub proof fn lem_cube_push(u: Seq<Lit>, l: Lit, a: Asg) ensures cube_true(u.push(l), a) == (cube_true(u, a) && tv(a, l)), cube_true(seq![l], a) == tv(a, l)
{
    let w = u.push(l);
    if cube_true(w, a) { assert forall|i: int| 0 <= i < u.len() implies tv(a, #[trigger] u[i]) by { assert(w[i] == u[i]); } assert(w[u.len() as int] == l); }
    assert(seq![l][0] == l);
}
#[verifier::external_body]
pub fn vx_max_opt(a: Option<Var>, b: Option<Var>) -> (r: Option<Var>)
    ensures r is None <==> a is None && b is None, r is Some ==> r == a || r == b, a is Some ==> a->0.i() <= r->0.i(), b is Some ==> b->0.i() <= r->0.i(),
{ std::cmp::max(a, b) }
// ---- reading a whole solution from single literal values (default method of the solver trait) ----
impl Assignment {
//@fn src/types/mod.rs <Assignment as From<Vec<TernaryVal>>>::from id=Assignment::from_vec as=from pub
//@ret r
    ensures r.assignment@ == assignment@,
//@end
}
pub trait VxLitVal: Sized {
    spec fn md(&self) -> Asg;
    fn lit_val(&self, lit: Lit) -> (r: Result<TernaryVal, VxErr>) ensures r is Ok ==> r->Ok_0 == TernaryVal::of(tv(self.md(), lit));
//@fn src/solvers/mod.rs trait:Solve::solution
//@ret r
    requires high_var.wf(),
    ensures r is Ok ==> forall|i: nat| i <= high_var.i() ==> r->Ok_0.val(i as int) == TernaryVal::of(#[trigger] self.md()(i)),
//@sub anyhow::Result < Assignment > ==> Result<Assignment, VxErr>
//@loop 0
    invariant len == high_var.i() + 1, high_var.wf(), assignment@.len() == idx, forall|i: nat| i < idx ==> assignment@[i as int] == TernaryVal::of(#[trigger] self.md()(i)),
//@end
}
// ---- documented panics: an error of the solver; everything else must be shown to succeed ----
pub trait VxExpect<T>: Sized {
    spec fn okv(self) -> bool;
    spec fn must(self) -> bool;
    spec fn got(self) -> T;
    fn vx_xp(self, m: &str) -> (r: T) requires self.must() ==> self.okv(), ensures self.okv(), r == self.got();
}
impl<T> VxExpect<T> for Result<T, VxErr> {
    open spec fn okv(self) -> bool { self is Ok }
    open spec fn must(self) -> bool { false }
    open spec fn got(self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vx_xp(self, m: &str) -> (r: T) { match self { Ok(t) => t, Err(_) => panic!() } }
}
impl<T> VxExpect<T> for Result<T, OutOfMemory> {
    open spec fn okv(self) -> bool { self is Ok }
    open spec fn must(self) -> bool { false }
    open spec fn got(self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vx_xp(self, m: &str) -> (r: T) { match self { Ok(t) => t, Err(_) => panic!() } }
}
impl<T> VxExpect<T> for Result<T, EnforceError> {
    open spec fn okv(self) -> bool { self is Ok }
    open spec fn must(self) -> bool { true }
    open spec fn got(self) -> T { self->Ok_0 }
    #[verifier::external_body]
    fn vx_xp(self, m: &str) -> (r: T) { match self { Ok(t) => t, Err(_) => panic!() } }
}
impl Assignment {
    pub open spec fn total(&self, n: nat, a: Asg) -> bool { forall|i: nat| i < n ==> self.val(i as int) == TernaryVal::of(#[trigger] a(i)) }
}
pub open spec fn below(o: Seq<(Lit, usize)>, n: nat) -> bool { forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).0.v() < n }
pub open spec fn tcost(s: Assignment) -> spec_fn((Lit, usize)) -> int { |p: (Lit, usize)| if s.lval(p.0) == TernaryVal::True { p.1 as int } else { 0 } }
pub proof fn lem_tcost(o: Seq<(Lit, usize)>, s: Assignment, i: int) requires 0 <= i <= o.len() ensures 0 <= sm(o.take(i), tcost(s)) <= wsum(o)
{
    lem_sm_le(o.take(i), |p: (Lit, usize)| 0, tcost(s)); lem_sm_zero(o.take(i));
    lem_sm_le(o, tcost(s), wfull());
    assert(o =~= o.take(i) + o.skip(i)); lem_sm_add(o.take(i), o.skip(i), tcost(s));
    lem_sm_le(o.skip(i), |p: (Lit, usize)| 0, tcost(s)); lem_sm_zero(o.skip(i));
}
/// the assignment agrees with `a` on the objective's variables
pub open spec fn covers(o: Seq<(Lit, usize)>, s: Assignment, a: Asg) -> bool { forall|i: int| 0 <= i < o.len() ==> s.val((#[trigger] o[i]).0.v() as int) == TernaryVal::of(a(o[i].0.v())) }
/// what a solution-improving search has to return: nothing iff unsatisfiable, otherwise a cheapest model on the first n variables and its cost
pub open spec fn optimum(phi: Fm, n: nat, o: Seq<(Lit, usize)>, r: Option<(Assignment, usize)>) -> bool {
    match r {
        None => forall|a: Asg| !#[trigger] phi(a),
        Some((s, c)) => {
            &&& exists|m: Asg| #[trigger] phi(m) && s.total(n, m) && covers(o, s, m) && objv(o, m) == c
            &&& forall|a: Asg| #[trigger] phi(a) ==> objv(o, a) >= c
        }
    }
}
pub proof fn lem_objv_le(o: Seq<(Lit, usize)>, a: Asg, i: int) requires 0 <= i <= o.len() ensures 0 <= objv(o.take(i), a) <= wsum(o)
    decreases o.len() - i
{
    lem_sm_le(o.take(i), |p: (Lit, usize)| 0, wt(a)); lem_sm_zero(o.take(i));
    lem_sm_le(o, wt(a), wfull());
    assert(o =~= o.take(i) + o.skip(i)); lem_sm_add(o.take(i), o.skip(i), wt(a));
    lem_sm_le(o.skip(i), |p: (Lit, usize)| 0, wt(a)); lem_sm_zero(o.skip(i));
}
pub proof fn lem_sm_zero(o: Seq<(Lit, usize)>) ensures sm(o, |p: (Lit, usize)| 0) == 0 decreases o.len()
{ if o.len() > 0 { lem_sm_zero(o.drop_last()); } }
//@fn src/algs/maxsat.rs objective_value
//@ret r
    requires wsum(obj@) <= usize::MAX,
    ensures forall|a: Asg| #[trigger] covers(obj@, *sol, a) ==> r == objv(obj@, a),
//@sub sum \+ w ==> sum + *w
//@sub let l = vx_p1\.0; ==> let l = &vx_p1.0;
//@sub let w = vx_p1\.1; ==> let w = &vx_p1.1;
//@sub let mut sum = 0 ==> let mut sum: usize = 0
//@ghost start
    let ghost cost = tcost(*sol);
//@loop 0 iter=it
    invariant wsum(obj@) <= usize::MAX, it.seq().len() == obj@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == obj@[i],
        cost == tcost(*sol), sum == sm(obj@.take(it.index@ as int), cost),
//@ghost loop 0 start
    proof { lem_sm_take(obj@, it.index@ as int, cost); lem_tcost(obj@, *sol, it.index@ + 1); }
//@ghost loop 0 after
    proof {
        assert(obj@.take(obj@.len() as int) =~= obj@);
        assert forall|a: Asg| #[trigger] covers(obj@, *sol, a) implies sum == objv(obj@, a) by { lem_sm_eq(obj@, obj@, cost, wt(a)); }
    }
//@end
pub struct SolutionImprovingSearch<Solver, PbEnc> { pub slv: std::marker::PhantomData<Solver>, pub enc: std::marker::PhantomData<PbEnc> }
impl<Solver: VxSolver, PbEnc: VxEnc> SolutionImprovingSearch<Solver, PbEnc> {
//@fn src/algs/maxsat.rs <SolutionImprovingSearch<Solver,PbEnc> as Solve>::solve nopub loops=4 chains=loop collect0=via:PbEnc::from_vec
//@ret r
    requires wsum(objective@) <= usize::MAX, dep(old(solver).phi(), old(solver).nv()), old(solver).nv() <= 0x7fff_ffff, below(objective@, 0x7fff_ffff),
    ensures optimum(old(solver).phi(), old(solver).nv(), objective@, r),
//@rename .expect => .vx_xp
//@sub for unit in it: (enc[^{]*?\))\s*invariant ==> let vx_us = $1; let ghost vx_ug = vx_us@; for unit in it: vx_us invariant
//@sub &mut Self::Solver ==> &mut Solver
//@sub Assignment::default\(\) ==> Assignment { assignment: Vec::new() }
//@sub std::cmp::max\( ==> vx_max_opt(
//@sub let mut vx_max0 = None ==> let mut vx_max0: Option<Var> = None
//@sub let mut sol = None ==> let mut sol: Option<(Assignment, usize)> = None
//@sub let l = vx_e1\.0; ==> let l = &vx_e1.0;
//@ghost start
    let ghost base = solver.phi();
    let ghost nv0 = solver.nv();
//@loop 0 iter=it
    invariant it.seq().len() == objective@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == objective@[i],
        below(objective@, 0x7fff_ffff),
        vx_max0 is None ==> it.index@ == 0,
        vx_max0 is Some ==> vx_max0->0.i() < 0x7fff_ffff && forall|i: int| 0 <= i < it.index@ ==> (#[trigger] objective@[i]).0.v() <= vx_max0->0.i(),
//@loop 1 iter=it
    invariant it.seq().len() == objective@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == objective@[i],
        vx_acc1@ == objective@.take(it.index@ as int),
//@ghost loop 1 end
    proof { assert(objective@.take(it.index@ + 1) =~= objective@.take(it.index@ as int).push(objective@[it.index@ as int])); }
//@ghost loop 1 after
    proof { assert(objective@.take(objective@.len() as int) =~= objective@); }
//@ghost let sol 0 before
    let ghost n = (max_var.i() + 1) as nat;
    let ghost mut b: int = wsum(objective@);
    proof {
        lem_dep_le(base, nv0, n);
        assert(enc.inv(base, n, base, b));
        enc.lem_inv(base, n, base, b);
        assert forall|a: Asg| #[trigger] objv(objective@, a) <= b by { lem_sm_le(objective@, wt(a), wfull()); }
    }
//@loop 2
    invariant n == max_var.i() + 1, nv0 <= n, below(objective@, n), enc.obj() == objective@, wsum(objective@) <= usize::MAX, n <= vm.next(),
        enc.inv(base, n, solver.phi(), b),
        forall|a: Asg| #[trigger] solver.phi()(a) ==> objv(objective@, a) <= b,
        match sol {
            None => forall|a: Asg| #[trigger] objv(objective@, a) <= b,
            Some((s, c)) => b == c - 1 && exists|m: Asg| #[trigger] base(m) && s.total(nv0, m) && covers(objective@, s, m) && objv(objective@, m) == c,
        },
        forall|a: Asg| #[trigger] solver.phi()(a) ==> base(a), base == old(solver).phi(), nv0 == old(solver).nv(),
        forall|a: Asg| #[trigger] base(a) && objv(objective@, a) <= b ==> exists|e: Asg| agree(a, e, n) && #[trigger] solver.phi()(e),
    decreases b + 1,
//@ghost call solution 0 before
    let ghost m0 = solver.md();
//@ghost if 1 then
    proof {
        assert(covers(objective@, assign_g, m0));
        assert forall|a: Asg| #[trigger] base(a) implies objv(objective@, a) >= 0 by { lem_objv_le(objective@, a, objective@.len() as int); assert(objective@.take(objective@.len() as int) =~= objective@); }
    }
//@ghost call objective_value 0 before
    let ghost assign_g = assign;
    proof { assert(base(m0)); assert(assign.total(nv0, m0)); assert(covers(objective@, assign, m0)); }
//@ghost call encode_ub 0 before
    let ghost phi0 = solver.phi();
    proof { assert(objv(objective@, m0) <= b); }
//@ghost call enforce_ub 0 before
    let ghost phi1 = solver.phi();
    proof { assert(enc.ready(val - 1)); assert(enc.inv(base, n, phi1, b)); }
//@loop 3 iter=it
    invariant it.seq() == vx_ug, solver.phi() =~= conj(phi1, it.seq().take(it.index@ as int)),
//@ghost loop 3 end
    proof {
        let (u, i) = (it.seq(), it.index@ as int);
        assert(u.take(i + 1) =~= u.take(i).push(u[i]));
        assert forall|a: Asg| #[trigger] solver.phi()(a) == conj(phi1, u.take(i + 1))(a) by {
            lem_cube_push(u.take(i), u[i], a);
        }
        assert(solver.phi() =~= conj(phi1, u.take(i + 1)));
    }
//@ghost loop 3 after
    proof {
        assert(vx_ug.take(vx_ug.len() as int) =~= vx_ug);
        assert(solver.phi() == conj(phi1, vx_ug));
        b = val - 1;
        assert forall|a: Asg| #[trigger] solver.phi()(a) implies objv(objective@, a) <= b by { assert(phi1(a)); assert(enc.enc()(a)); }
        enc.lem_inv(base, n, solver.phi(), b);
    }
//@end
}
}
fn main() {}
