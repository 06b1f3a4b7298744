// ---- simulated cardinality encodings, for every base encoding meeting the contract ----
/// an encoding over a number of literals
pub trait CardNum: Sized {
    spec fn wf(&self) -> bool;
    spec fn num(&self) -> int;
    proof fn law_n(&self) requires self.wf() ensures 0 <= self.num() < usize::MAX;
    fn n_lits(&self) -> (r: usize) requires self.wf() ensures r == self.num();
}
/// contract of a cardinality encoding
pub trait CardEnc: CardNum {
    /// invariant, with n the next free variable and c clauses collected
    spec fn ok(&self, n: nat, c: nat) -> bool;
    /// number of true input literals
    spec fn tot(&self, a: Asg) -> int;
    /// what has been encoded for upper and lower bounds holds
    spec fn hub(&self, a: Asg) -> bool;
    spec fn hlb(&self, a: Asg) -> bool;
    /// all outputs have their intended values
    spec fn st(&self, a: Asg) -> bool;
    /// the bound can be enforced
    spec fn rub(&self, x: int) -> bool;
    spec fn rlb(&self, x: int) -> bool;
    spec fn isout(&self, v: nat) -> bool;
    spec fn inp(&self, v: nat) -> bool;
    /// variables the clauses and enforced literals are about
    spec fn voc(&self, v: nat) -> bool;
    spec fn nc(&self) -> int;
    spec fn nv(&self) -> int;
    proof fn law_ok(&self, n: nat, c: nat, n2: nat, c2: nat) requires self.ok(n, c), n <= n2, c <= c2
        ensures self.wf(), self.ok(n2, c2), self.nc() <= c, self.nv() <= n, forall|v: nat| #[trigger] self.isout(v) ==> v < n && !self.inp(v), forall|v: nat| #[trigger] self.inp(v) ==> v < n, forall|v: nat| #[trigger] self.voc(v) ==> self.isout(v) || self.inp(v);
    proof fn law_nn(&self) ensures self.nc() >= 0, self.nv() >= 0;
    proof fn law_num(&self) requires self.wf() ensures forall|a: Asg| 0 <= #[trigger] self.tot(a) <= self.num(), forall|x: int| x >= self.num() ==> #[trigger] self.rub(x), forall|x: int| x <= 0 ==> #[trigger] self.rlb(x);
    proof fn law_ext(&self, n: nat, c: nat, a: Asg) -> (b: Asg) requires self.ok(n, c) ensures self.st(b), forall|v: nat| !#[trigger] self.isout(v) ==> a(v) == b(v);
    proof fn law_dep(&self, n: nat, c: nat, a: Asg, b: Asg) requires self.ok(n, c), forall|v: nat| #[trigger] self.inp(v) ==> a(v) == b(v) ensures self.tot(a) == self.tot(b), (forall|v: nat| #[trigger] self.isout(v) ==> a(v) == b(v)) ==> self.st(a) == self.st(b);
    fn n_clauses(&self) -> (r: usize) requires self.nc() <= usize::MAX ensures r == self.nc();
    fn n_vars(&self) -> (r: u32) requires self.nv() <= u32::MAX ensures r == self.nv();
    fn from(lits: Vec<Lit>) -> (r: Self)
        ensures r.wf(), r.num() == lits@.len(), r.nc() == 0, r.nv() == 0, forall|a: Asg| #[trigger] r.tot(a) == cnt(lits@, a), forall|a: Asg| #[trigger] r.hub(a), forall|a: Asg| #[trigger] r.hlb(a), forall|a: Asg| #[trigger] r.st(a),
            forall|v: nat| !#[trigger] r.isout(v), forall|v: nat| #[trigger] r.inp(v) <==> var_in(v, lits@), forall|n: nat, c: nat| bel(lits@, n) ==> #[trigger] r.ok(n, c);
    fn from_iter(iter: Vec<Lit>) -> (r: Self)
        ensures r.wf(), r.num() == iter@.len(), r.nc() == 0, r.nv() == 0, forall|a: Asg| #[trigger] r.tot(a) == cnt(iter@, a), forall|a: Asg| #[trigger] r.hub(a), forall|a: Asg| #[trigger] r.hlb(a), forall|a: Asg| #[trigger] r.st(a),
            forall|v: nat| !#[trigger] r.isout(v), forall|v: nat| #[trigger] r.inp(v) <==> var_in(v, iter@), forall|n: nat, c: nat| bel(iter@, n) ==> #[trigger] r.ok(n, c);
    fn extend(&mut self, iter: Vec<Lit>)
        requires old(self).wf(), old(self).num() + iter@.len() <= usize::MAX,
        ensures final(self).wf(), final(self).num() == old(self).num() + iter@.len(), final(self).nc() == old(self).nc(), final(self).nv() == old(self).nv(), forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a) + cnt(iter@, a),
            forall|a: Asg| #[trigger] final(self).hub(a) == old(self).hub(a), forall|a: Asg| #[trigger] final(self).hlb(a) == old(self).hlb(a), forall|a: Asg| #[trigger] final(self).st(a) == old(self).st(a),
            forall|v: nat| #[trigger] final(self).isout(v) == old(self).isout(v), forall|v: nat| #[trigger] final(self).inp(v) <==> old(self).inp(v) || var_in(v, iter@),
            forall|n: nat, c: nat| #![trigger final(self).ok(n, c)] old(self).ok(n, c) && bel(iter@, n) && (forall|i: int| 0 <= i < iter@.len() ==> !old(self).isout((#[trigger] iter@[i]).v())) ==> final(self).ok(n, c);
    fn enforce_ub(&self, ub: usize) -> (r: Result<Vec<Lit>, NotEncoded>)
        requires self.wf(),
        ensures self.rub(ub as int) ==> r is Ok, r is Ok ==> forall|j: int| 0 <= j < r->Ok_0@.len() ==> self.voc((#[trigger] r->Ok_0@[j]).v()), r is Ok ==> (forall|a: Asg| #[trigger] self.hub(a) && cube_true(r->Ok_0@, a) ==> self.tot(a) <= ub) && (forall|a: Asg| #[trigger] self.st(a) && self.tot(a) <= ub ==> cube_true(r->Ok_0@, a));
    fn enforce_lb(&self, lb: usize) -> (r: Result<Vec<Lit>, EnforceError>)
        requires self.wf(),
        ensures self.rlb(lb as int) ==> r is Ok, r is Ok ==> forall|j: int| 0 <= j < r->Ok_0@.len() ==> self.voc((#[trigger] r->Ok_0@[j]).v()), lb > self.num() <==> r is Err && r->Err_0 is Unsat, r is Ok ==> (forall|a: Asg| #[trigger] self.hlb(a) && cube_true(r->Ok_0@, a) ==> self.tot(a) >= lb) && (forall|a: Asg| #[trigger] self.st(a) && self.tot(a) >= lb ==> cube_true(r->Ok_0@, a));
    fn enforce_eq(&self, b: usize) -> (r: Result<Vec<Lit>, EnforceError>)
        requires self.wf(),
        ensures self.rub(b as int) && self.rlb(b as int) ==> r is Ok, r is Ok ==> forall|j: int| 0 <= j < r->Ok_0@.len() ==> self.voc((#[trigger] r->Ok_0@[j]).v()), r is Err && r->Err_0 is Unsat ==> b > self.num(),
            r is Ok ==> (forall|a: Asg| #[trigger] self.hub(a) && self.hlb(a) && cube_true(r->Ok_0@, a) ==> self.tot(a) == b) && (forall|a: Asg| #[trigger] self.st(a) && self.tot(a) == b ==> cube_true(r->Ok_0@, a));
    fn encode_ub<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> forall|a: Asg| cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a),
            r is Ok ==> (forall|a: Asg| old(self).hlb(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a)) && (forall|x: int| old(self).rlb(x) ==> #[trigger] final(self).rlb(x)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> final(self).rub(x);
    fn encode_lb<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> forall|a: Asg| cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a),
            r is Ok ==> (forall|a: Asg| old(self).hub(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a)) && (forall|x: int| old(self).rub(x) ==> #[trigger] final(self).rub(x)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= old(self).num() ==> final(self).rlb(x);
    fn encode_both<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> (forall|a: Asg| old(self).hub(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a)),
            r is Ok ==> (forall|a: Asg| old(self).hlb(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> final(self).rub(x),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= old(self).num() ==> final(self).rlb(x);
    fn encode_ub_change<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> (forall|a: Asg| old(self).hub(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a)) && (forall|x: int| old(self).rub(x) ==> #[trigger] final(self).rub(x)),
            r is Ok ==> (forall|a: Asg| old(self).hlb(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a)) && (forall|x: int| old(self).rlb(x) ==> #[trigger] final(self).rlb(x)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> final(self).rub(x);
    fn encode_lb_change<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> (forall|a: Asg| old(self).hub(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a)) && (forall|x: int| old(self).rub(x) ==> #[trigger] final(self).rub(x)),
            r is Ok ==> (forall|a: Asg| old(self).hlb(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a)) && (forall|x: int| old(self).rlb(x) ==> #[trigger] final(self).rlb(x)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= old(self).num() ==> final(self).rlb(x);
    fn encode_both_change<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> (forall|a: Asg| old(self).hub(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a)) && (forall|x: int| old(self).rub(x) ==> #[trigger] final(self).rub(x)),
            r is Ok ==> (forall|a: Asg| old(self).hlb(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a)) && (forall|x: int| old(self).rlb(x) ==> #[trigger] final(self).rlb(x)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> final(self).rub(x),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= old(self).num() ==> final(self).rlb(x);
}
impl VxRb<usize> for Range<usize> {
    open spec fn lo(&self) -> VxBound<usize> { VxBound::Included(self.start) }
    open spec fn hi(&self) -> VxBound<usize> { VxBound::Excluded(self.end) }
    fn start_bound(&self) -> (r: VxBound<&usize>) { VxBound::Included(&self.start) }
    fn end_bound(&self) -> (r: VxBound<&usize>) { VxBound::Excluded(&self.end) }
    fn vx_clone(&self) -> (r: Self) { self.start..self.end }
}
pub proof fn lem_var_opps(s: Seq<Lit>) ensures forall|v: nat| #[trigger] var_in(v, opps(s)) <==> var_in(v, s), forall|n: nat| #[trigger] bel(opps(s), n) <==> bel(s, n), opps(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] opps(s)[i]).v() == s[i].v(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() == opps(s)[i].v(),
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] opps(s)[i]).v() == s[i].v() by {}
    assert forall|v: nat| #[trigger] var_in(v, opps(s)) <==> var_in(v, s) by {
        if var_in(v, opps(s)) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] opps(s)[i].v() == v; assert(s[i].v() == v); }
        if var_in(v, s) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].v() == v; assert(opps(s)[i].v() == v); }
    }
    assert forall|n: nat| #[trigger] bel(opps(s), n) <==> bel(s, n) by {
        if bel(opps(s), n) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).v() < n by { assert(opps(s)[i].v() < n); } }
        if bel(s, n) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] opps(s)[i]).v() < n by { assert(s[i].v() < n); } }
    }
}
pub proof fn lem_since2(c0: Seq<Clause>, c1: Seq<Clause>, c2: Seq<Clause>) requires grown(c0, c1), grown(c1, c2)
    ensures grown(c0, c2), forall|a: Asg| #[trigger] cnf_true(since(c2, c0), a) <==> cnf_true(since(c1, c0), a) && cnf_true(since(c2, c1), a)
{ lem_grown(c0, c1, c2); lem_since_grown(c0, c1, c2); }
pub proof fn lem_since_voc(v: spec_fn(nat) -> bool, w: spec_fn(nat) -> bool, c0: Seq<Clause>, c1: Seq<Clause>, c2: Seq<Clause>)
    requires grown(c0, c1), grown(c1, c2), forall|i: int, j: int| 0 <= i < since(c1, c0).len() && 0 <= j < since(c1, c0)[i].s().len() ==> w((#[trigger] since(c1, c0)[i].s()[j]).v()),
        forall|i: int, j: int| 0 <= i < since(c2, c1).len() && 0 <= j < since(c2, c1)[i].s().len() ==> v((#[trigger] since(c2, c1)[i].s()[j]).v()), forall|x: nat| w(x) ==> #[trigger] v(x),
    ensures forall|i: int, j: int| 0 <= i < since(c2, c0).len() && 0 <= j < since(c2, c0)[i].s().len() ==> v((#[trigger] since(c2, c0)[i].s()[j]).v()),
{
    lem_since_grown(c0, c1, c2); let d1 = since(c1, c0); let d2 = since(c2, c1); let d = since(c2, c0);
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].s().len() implies v((#[trigger] d[i].s()[j]).v()) by { if i < d1.len() { assert(d[i] == d1[i]); assert(w(d1[i].s()[j].v())); } else { let q = i - d1.len(); assert(d[i] == d2[q]); assert(v(d2[q].s()[j].v())); } }
}
