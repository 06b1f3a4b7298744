// ---- weights in a map of literals ----
pub open spec fn kt() -> spec_fn(Lit) -> int { |l: Lit| 1int }
pub open spec fn kv(a: Asg) -> spec_fn(Lit) -> int { |l: Lit| b2i(tv(a, l)) }
pub open spec fn mw(m: Map<Lit, usize>) -> int { ms(m, kt()) }
pub open spec fn mt(m: Map<Lit, usize>, a: Asg) -> int { ms(m, kv(a)) }
pub open spec fn mvar(m: Map<Lit, usize>, v: nat) -> bool { exists|l: Lit| #[trigger] m.contains_key(l) && l.v() == v }
pub open spec fn mbel(m: Map<Lit, usize>, n: nat) -> bool { forall|l: Lit| #[trigger] m.contains_key(l) ==> l.v() < n }
/// what a map says about the sum of its entries
pub open spec fn msum(m: Map<Lit, usize>, s: Seq<(Lit, usize)>) -> bool { m.dom().finite() && mw(m) == wt(s) && forall|a: Asg| #[trigger] mt(m, a) == ws(s, a) }
pub proof fn lem_pairs_msum(s: Seq<(Lit, usize)>, m: Map<Lit, usize>)
    requires pairs_of(s, m), m.dom().finite(),
    ensures msum(m, s), forall|v: nat| #[trigger] mvar(m, v) <==> var_in(v, lits_of(s)), forall|n: nat| #[trigger] mbel(m, n) <==> bel(lits_of(s), n),
{
    lem_pairs(s, m, kt()); lem_sm_eq(s, s, pw(kt()), ft());
    assert forall|a: Asg| #[trigger] mt(m, a) == ws(s, a) by { lem_pairs(s, m, kv(a)); lem_sm_eq(s, s, pw(kv(a)), fw(a)); }
    let ls = lits_of(s);
    assert forall|v: nat| #[trigger] mvar(m, v) <==> var_in(v, ls) by {
        if mvar(m, v) { let l = choose|l: Lit| #[trigger] m.contains_key(l) && l.v() == v; let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == l; assert(ls[i].v() == v); }
        if var_in(v, ls) { let i = choose|i: int| 0 <= i < ls.len() && #[trigger] ls[i].v() == v; assert(m.contains_key(s[i].0)); }
    }
    assert forall|n: nat| #[trigger] mbel(m, n) <==> bel(ls, n) by {
        if mbel(m, n) { assert forall|i: int| 0 <= i < ls.len() implies (#[trigger] ls[i]).v() < n by { assert(m.contains_key(s[i].0)); } }
        if bel(ls, n) { assert forall|l: Lit| #[trigger] m.contains_key(l) implies l.v() < n by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == l; assert(ls[i].v() < n); } }
    }
}
/// one more entry
pub proof fn lem_msum_add(m: Map<Lit, usize>, s: Seq<(Lit, usize)>, x: (Lit, usize), n: Map<Lit, usize>)
    requires msum(m, s), wt_of(m, x.0) + x.1 <= usize::MAX, n == m.insert(x.0, (wt_of(m, x.0) + x.1) as usize),
    ensures msum(n, s.push(x)),
{
    let w = (wt_of(m, x.0) + x.1) as usize;
    lem_ms_insert(m, x.0, w, kt()); lem_sm_push(s, x, ft());
    assert forall|a: Asg| #[trigger] mt(n, a) == ws(s.push(x), a) by { lem_ms_insert(m, x.0, w, kv(a)); lem_sm_push(s, x, fw(a)); lem_fw(x.0, x.1, a); assert(x == (x.0, x.1)); let d = w - wt_of(m, x.0); assert(d == x.1); let b = kv(a)(x.0); assert(ms(n, kv(a)) == ms(m, kv(a)) + d * b); if tv(a, x.0) { assert(d * b == d) by (nonlinear_arith) requires b == 1; } else { assert(d * b == 0) by (nonlinear_arith) requires b == 0; } assert(mt(m, a) == ws(s, a)); }
}
/// the weight of an entry is part of the sum
pub proof fn lem_mw_of(m: Map<Lit, usize>, l: Lit) requires m.dom().finite() ensures 0 <= wt_of(m, l) <= mw(m)
{
    if m.contains_key(l) { lem_ms_remove(m, l, kt()); } lem_ms_le(m, |l: Lit| 0int, kt()); lem_ms_nn(m.remove(l));
}
pub proof fn lem_ms_nn(m: Map<Lit, usize>) ensures m.dom().finite() ==> mw(m) >= 0 { if m.dom().finite() { lem_ms_le(m, |l: Lit| 0int, kt()); } }
#[verifier::external_body]
pub fn vx_map_clone(m: &RsHashMap<Lit, usize>) -> (r: RsHashMap<Lit, usize>) ensures r@ == m@ { m.clone() }
//@fn src/encodings/pb/mod.rs collect_weighted_lits inst=I:Vec<(Lit,usize)>
//@ret r
    requires wt(lits@) <= usize::MAX,
    ensures msum(r@, lits@), forall|l: Lit| #[trigger] r@.contains_key(l) ==> var_in(l.v(), lits_of(lits@)),
//@sub RsHashMap::default\(\) ==> vx_map_new()
//@sub \*map\.entry\(lit\)\.or_insert\(0\) \+= weight ==> proof { lem_mw_of(m0, lit); lem_sm_push(gl.take(it.index@ as int), gl[it.index@ as int], ft()); assert(gl.take(it.index@ + 1) =~= gl.take(it.index@ as int).push(gl[it.index@ as int])); assert(wt(gl.take(it.index@ + 1)) <= wt(gl)); } vx_map_add(&mut map, lit, weight)
//@ghost start
    let ghost gl = lits@;
    proof { lem_wt_nonneg(gl); lem_ms_empty(kt()); assert(gl.take(0) =~= Seq::empty()); assert(gl.take(gl.len() as int) =~= gl);
        assert forall|a: Asg| #[trigger] mt(Map::empty(), a) == ws(gl.take(0), a) by { lem_ms_empty(kv(a)); } }
//@ghost loop 0 start
    let ghost m0 = map@;
//@ghost loop 0 end
    proof {
        let i = it.index@ as int; let x = gl[i]; let s = gl.take(i);
        assert(gl.take(i + 1) =~= s.push(x)); assert(lits_of(gl)[i].v() == x.0.v());
        assert(x == (lit, weight));
        if weight == 0 { lem_sm_push(s, x, ft()); assert forall|a: Asg| #[trigger] mt(map@, a) == ws(s.push(x), a) by { assert(mt(map@, a) == ws(s, a)); lem_sm_push(s, x, fw(a)); lem_fw(lit, weight, a); } }
        else { lem_msum_add(m0, s, x, map@); }
    }
//@loop 0 iter=it
    invariant it.seq() == gl, wt(gl) <= usize::MAX, forall|i: int| 0 <= i <= gl.len() ==> 0 <= #[trigger] wt(gl.take(i)) <= wt(gl), msum(map@, gl.take(it.index@ as int)), forall|l: Lit| #[trigger] map@.contains_key(l) ==> var_in(l.v(), lits_of(gl)),
//@end
pub broadcast axiom fn lit_key() ensures #[trigger] obeys_key_model::<Lit>();
/// the map with all literals negated, after some of its entries
pub open spec fn negm(m: Map<Lit, usize>, s: Seq<(Lit, usize)>) -> bool { msum(m, wopps(s)) && (forall|l: Lit| #[trigger] m.contains_key(l) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0.opp() == l) }
pub open spec fn wopp(x: (Lit, usize)) -> (Lit, usize) { (x.0.opp(), x.1) }
pub proof fn lem_negm0(s: Seq<(Lit, usize)>) requires s.len() == 0 ensures negm(Map::empty(), s)
{ assert(wopps(s) =~= Seq::empty()); lem_ms_empty(kt()); assert forall|a: Asg| #[trigger] mt(Map::empty(), a) == ws(wopps(s), a) by { lem_ms_empty(kv(a)); } }
pub proof fn lem_negm_add(m: Map<Lit, usize>, p: Seq<(Lit, usize)>, i: int, pm: Map<Lit, usize>, n: Map<Lit, usize>)
    requires negm(m, p.take(i)), 0 <= i < p.len(), pairs_of(p, pm), n == m.insert(p[i].0.opp(), p[i].1),
    ensures negm(n, p.take(i + 1)),
{
    let s = p.take(i); let x = p[i]; let t = p.take(i + 1); let y = wopp(x);
    lem_opp_all();
    assert(!m.contains_key(y.0)) by {
        if m.contains_key(y.0) { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].0.opp() == y.0; assert(s[j] == p[j]); assert(p[j].0 == x.0) by { assert(p[j].0.opp().opp() == x.0.opp().opp()); } assert(pm.contains_key(p[j].0)); assert(pm.contains_key(x.0)); assert(p[j] == p[i]); }
    }
    lem_msum_add(m, wopps(s), y, n);
    assert(wopps(t) =~= wopps(s).push(y));
    assert forall|l: Lit| #[trigger] n.contains_key(l) implies exists|j: int| 0 <= j < t.len() && #[trigger] t[j].0.opp() == l by {
        if l == y.0 { assert(t[i].0.opp() == l); } else { assert(m.contains_key(l)); let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].0.opp() == l; assert(t[j] == s[j]); }
    }
}
pub proof fn lem_negm_end(m: Map<Lit, usize>, p: Seq<(Lit, usize)>, pm: Map<Lit, usize>)
    requires negm(m, p), pairs_of(p, pm), pm.dom().finite(),
    ensures mw(m) == mw(pm), forall|a: Asg| #[trigger] mt(m, a) == mw(pm) - mt(pm, a), forall|v: nat| #[trigger] mvar(m, v) ==> mvar(pm, v), forall|n: nat| mbel(pm, n) ==> #[trigger] mbel(m, n),
{
    lem_pairs_msum(p, pm); lem_opp_all();
    lem_wopps(p, |v: nat| true);
    assert forall|a: Asg| #[trigger] mt(m, a) == mw(pm) - mt(pm, a) by { lem_wopps(p, a); assert(mt(m, a) == ws(wopps(p), a)); assert(mt(pm, a) == ws(p, a)); }
    assert forall|l: Lit| #[trigger] m.contains_key(l) implies pm.contains_key(l.opp()) && l.opp().v() == l.v() by { let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j].0.opp() == l; assert(pm.contains_key(p[j].0)); assert(l.opp() == p[j].0); }
    assert forall|v: nat| #[trigger] mvar(m, v) implies mvar(pm, v) by { let l = choose|l: Lit| #[trigger] m.contains_key(l) && l.v() == v; assert(pm.contains_key(l.opp())); }
}
/// variables of collected literals
pub proof fn lem_mvars(m: Map<Lit, usize>, s: Seq<(Lit, usize)>) requires forall|l: Lit| #[trigger] m.contains_key(l) ==> var_in(l.v(), lits_of(s))
    ensures forall|v: nat| #[trigger] mvar(m, v) ==> var_in(v, lits_of(s)), forall|n: nat| bel(lits_of(s), n) ==> #[trigger] mbel(m, n),
{
    let ls = lits_of(s);
    assert forall|n: nat| bel(ls, n) implies #[trigger] mbel(m, n) by { assert forall|l: Lit| #[trigger] m.contains_key(l) implies l.v() < n by { let i = choose|i: int| 0 <= i < ls.len() && #[trigger] ls[i].v() == l.v(); assert(ls[i].v() < n); } }
}
pub proof fn lem_wopps_vars(s: Seq<(Lit, usize)>) ensures forall|v: nat| #[trigger] var_in(v, lits_of(wopps(s))) <==> var_in(v, lits_of(s)), forall|n: nat| #[trigger] bel(lits_of(wopps(s)), n) <==> bel(lits_of(s), n)
{ assert(lits_of(wopps(s)) =~= opps(lits_of(s))); lem_var_opps(lits_of(s)); }
/// the entries of collected (possibly negated) literals are about the same variables
pub proof fn lem_ext_vars(g: Seq<(Lit, usize)>, m: Map<Lit, usize>, s: Seq<(Lit, usize)>)
    requires pairs_of(g, m), m.dom().finite(), forall|v: nat| #[trigger] mvar(m, v) ==> var_in(v, lits_of(s)),
    ensures forall|v: nat| #[trigger] var_in(v, lits_of(g)) ==> var_in(v, lits_of(s)), forall|n: nat| bel(lits_of(s), n) ==> #[trigger] bel(lits_of(g), n),
{
    lem_pairs_msum(g, m);
    assert forall|v: nat| #[trigger] var_in(v, lits_of(g)) implies var_in(v, lits_of(s)) by { assert(mvar(m, v)); }
    assert forall|n: nat| bel(lits_of(s), n) implies #[trigger] bel(lits_of(g), n) by { let q = lits_of(g); let ls = lits_of(s);
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).v() < n by { assert(var_in(q[i].v(), q)); assert(var_in(q[i].v(), ls)); let j = choose|j: int| 0 <= j < ls.len() && #[trigger] ls[j].v() == q[i].v(); assert(ls[j].v() < n); } }
}
// ---- simulated pseudo-Boolean encodings, for every base encoding meeting the contract ----
/// an encoding over weighted literals
pub trait PbNum: Sized {
    spec fn wf(&self) -> bool;
    spec fn num(&self) -> int;
    proof fn law_n(&self) requires self.wf() ensures 0 <= self.num() < usize::MAX;
    fn weight_sum(&self) -> (r: usize) requires self.wf() ensures r == self.num();
}
/// contract of a pseudo-Boolean encoding
pub trait PbEnc: PbNum {
    /// invariant, with n the next free variable and c clauses collected
    spec fn ok(&self, n: nat, c: nat) -> bool;
    /// weight of the true input literals
    spec fn tot(&self, a: Asg) -> int;
    /// what has been encoded for upper and lower bounds holds
    spec fn hub(&self, a: Asg) -> bool;
    spec fn hlb(&self, a: Asg) -> bool;
    /// all outputs have their intended values
    spec fn st(&self, a: Asg) -> bool;
    /// the bound can be enforced
    spec fn rub(&self, x: int) -> bool;
    spec fn rlb(&self, x: int) -> bool;
    spec fn isout(&self, v: nat) -> bool;
    spec fn inp(&self, v: nat) -> bool;
    /// variables the clauses and enforced literals are about
    spec fn voc(&self, v: nat) -> bool;
    spec fn nc(&self) -> int;
    spec fn nv(&self) -> int;
    proof fn law_ok(&self, n: nat, c: nat, n2: nat, c2: nat) requires self.ok(n, c), n <= n2, c <= c2
        ensures self.wf(), self.ok(n2, c2), self.nc() <= c, self.nv() <= n, forall|v: nat| #[trigger] self.isout(v) ==> v < n && !self.inp(v), forall|v: nat| #[trigger] self.inp(v) ==> v < n, forall|v: nat| #[trigger] self.voc(v) ==> self.isout(v) || self.inp(v);
    proof fn law_nn(&self) ensures self.nc() >= 0, self.nv() >= 0;
    proof fn law_num(&self) requires self.wf() ensures forall|a: Asg| 0 <= #[trigger] self.tot(a) <= self.num(), forall|x: int| x >= self.num() ==> #[trigger] self.rub(x), forall|x: int| x <= 0 ==> #[trigger] self.rlb(x);
    proof fn law_ext(&self, n: nat, c: nat, a: Asg) -> (b: Asg) requires self.ok(n, c) ensures self.st(b), forall|v: nat| !#[trigger] self.isout(v) ==> a(v) == b(v);
    proof fn law_dep(&self, n: nat, c: nat, a: Asg, b: Asg) requires self.ok(n, c), forall|v: nat| #[trigger] self.inp(v) ==> a(v) == b(v) ensures self.tot(a) == self.tot(b), (forall|v: nat| #[trigger] self.isout(v) ==> a(v) == b(v)) ==> self.st(a) == self.st(b);
    fn from(lits: RsHashMap<Lit, usize>) -> (r: Self)
        requires mw(lits@) < usize::MAX,
        ensures r.wf(), r.num() == mw(lits@), r.nc() == 0, r.nv() == 0, forall|a: Asg| #[trigger] r.tot(a) == mt(lits@, a), forall|a: Asg| #[trigger] r.hub(a), forall|a: Asg| #[trigger] r.hlb(a), forall|a: Asg| #[trigger] r.st(a),
            forall|v: nat| !#[trigger] r.isout(v), forall|v: nat| #[trigger] r.inp(v) ==> mvar(lits@, v), forall|n: nat, c: nat| mbel(lits@, n) ==> #[trigger] r.ok(n, c);
    fn from_iter(iter: Vec<(Lit, usize)>) -> (r: Self)
        requires wt(iter@) < usize::MAX,
        ensures r.wf(), r.num() == wt(iter@), r.nc() == 0, r.nv() == 0, forall|a: Asg| #[trigger] r.tot(a) == ws(iter@, a), forall|a: Asg| #[trigger] r.hub(a), forall|a: Asg| #[trigger] r.hlb(a), forall|a: Asg| #[trigger] r.st(a),
            forall|v: nat| !#[trigger] r.isout(v), forall|v: nat| #[trigger] r.inp(v) ==> var_in(v, lits_of(iter@)), forall|n: nat, c: nat| bel(lits_of(iter@), n) ==> #[trigger] r.ok(n, c);
    fn extend(&mut self, iter: Vec<(Lit, usize)>)
        requires old(self).wf(), old(self).num() + wt(iter@) < usize::MAX,
        ensures final(self).wf(), final(self).num() == old(self).num() + wt(iter@), final(self).nc() == old(self).nc(), final(self).nv() == old(self).nv(), forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a) + ws(iter@, a),
            forall|a: Asg| #[trigger] final(self).hub(a) == old(self).hub(a), forall|a: Asg| #[trigger] final(self).hlb(a) == old(self).hlb(a), forall|a: Asg| #[trigger] final(self).st(a) == old(self).st(a),
            forall|v: nat| #[trigger] final(self).isout(v) == old(self).isout(v), forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v) || var_in(v, lits_of(iter@)),
            forall|n: nat, c: nat| #![trigger final(self).ok(n, c)] old(self).ok(n, c) && bel(lits_of(iter@), n) && (forall|v: nat| #[trigger] old(self).isout(v) ==> !var_in(v, lits_of(iter@))) ==> final(self).ok(n, c);
    fn enforce_ub(&self, ub: usize) -> (r: Result<Vec<Lit>, EnforceError>)
        requires self.wf(),
        ensures self.rub(ub as int) ==> r is Ok, r is Err ==> !(r->Err_0 is Unsat), r is Ok ==> forall|j: int| 0 <= j < r->Ok_0@.len() ==> self.voc((#[trigger] r->Ok_0@[j]).v()), r is Ok ==> (forall|a: Asg| #[trigger] self.hub(a) && cube_true(r->Ok_0@, a) ==> self.tot(a) <= ub) && (forall|a: Asg| #[trigger] self.st(a) && self.tot(a) <= ub ==> cube_true(r->Ok_0@, a));
    fn enforce_lb(&self, lb: usize) -> (r: Result<Vec<Lit>, EnforceError>)
        requires self.wf(),
        ensures self.rlb(lb as int) ==> r is Ok, r is Ok ==> forall|j: int| 0 <= j < r->Ok_0@.len() ==> self.voc((#[trigger] r->Ok_0@[j]).v()), lb > self.num() <==> r is Err && r->Err_0 is Unsat, r is Ok ==> (forall|a: Asg| #[trigger] self.hlb(a) && cube_true(r->Ok_0@, a) ==> self.tot(a) >= lb) && (forall|a: Asg| #[trigger] self.st(a) && self.tot(a) >= lb ==> cube_true(r->Ok_0@, a));
    fn enforce_eq(&self, b: usize) -> (r: Result<Vec<Lit>, EnforceError>)
        requires self.wf(),
        ensures self.rub(b as int) && self.rlb(b as int) ==> r is Ok, r is Ok ==> forall|j: int| 0 <= j < r->Ok_0@.len() ==> self.voc((#[trigger] r->Ok_0@[j]).v()), r is Err && r->Err_0 is Unsat ==> b > self.num(),
            r is Ok ==> (forall|a: Asg| #[trigger] self.hub(a) && self.hlb(a) && cube_true(r->Ok_0@, a) ==> self.tot(a) == b) && (forall|a: Asg| #[trigger] self.st(a) && self.tot(a) == b ==> cube_true(r->Ok_0@, a));
    fn encode_ub<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> forall|a: Asg| cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a),
            r is Ok ==> (forall|a: Asg| old(self).hlb(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a)) && (forall|x: int| old(self).rlb(x) ==> #[trigger] final(self).rlb(x)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> final(self).rub(x);
    fn encode_lb<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> forall|a: Asg| cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a),
            r is Ok ==> (forall|a: Asg| old(self).hub(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a)) && (forall|x: int| old(self).rub(x) ==> #[trigger] final(self).rub(x)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= old(self).num() ==> final(self).rlb(x);
    fn encode_both<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> (forall|a: Asg| old(self).hub(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a)),
            r is Ok ==> (forall|a: Asg| old(self).hlb(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> final(self).rub(x),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= old(self).num() ==> final(self).rlb(x);
    fn encode_ub_change<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> (forall|a: Asg| old(self).hub(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a)) && (forall|x: int| old(self).rub(x) ==> #[trigger] final(self).rub(x)),
            r is Ok ==> (forall|a: Asg| old(self).hlb(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a)) && (forall|x: int| old(self).rlb(x) ==> #[trigger] final(self).rlb(x)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> final(self).rub(x);
    fn encode_lb_change<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> (forall|a: Asg| old(self).hub(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a)) && (forall|x: int| old(self).rub(x) ==> #[trigger] final(self).rub(x)),
            r is Ok ==> (forall|a: Asg| old(self).hlb(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a)) && (forall|x: int| old(self).rlb(x) ==> #[trigger] final(self).rlb(x)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= old(self).num() ==> final(self).rlb(x);
    fn encode_both_change<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires old(self).ok(old(var_manager).next(), old(collector).cls().len()),
        ensures
            r is Ok ==> final(self).ok(final(var_manager).next(), final(collector).cls().len()) && old(var_manager).next() <= final(var_manager).next() && grown(old(collector).cls(), final(collector).cls()) && final(self).num() == old(self).num()
                && final(self).nc() - old(self).nc() == final(collector).cls().len() - old(collector).cls().len() && final(self).nv() - old(self).nv() == final(var_manager).next() - old(var_manager).next()
                && (forall|a: Asg| #[trigger] final(self).tot(a) == old(self).tot(a)) && (forall|a: Asg| #[trigger] final(self).st(a) ==> old(self).st(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a))
                && (forall|v: nat| #[trigger] final(self).isout(v) ==> old(self).isout(v) || v >= old(var_manager).next()) && (forall|v: nat| #[trigger] final(self).inp(v) ==> old(self).inp(v))
                && (forall|v: nat| old(self).voc(v) ==> #[trigger] final(self).voc(v)) && (forall|i: int, j: int| 0 <= i < since(final(collector).cls(), old(collector).cls()).len() && 0 <= j < since(final(collector).cls(), old(collector).cls())[i].s().len() ==> final(self).voc((#[trigger] since(final(collector).cls(), old(collector).cls())[i].s()[j]).v())),
            r is Ok ==> (forall|a: Asg| old(self).hub(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hub(a)) && (forall|x: int| old(self).rub(x) ==> #[trigger] final(self).rub(x)),
            r is Ok ==> (forall|a: Asg| old(self).hlb(a) && cnf_true(since(final(collector).cls(), old(collector).cls()), a) ==> #[trigger] final(self).hlb(a)) && (forall|x: int| old(self).rlb(x) ==> #[trigger] final(self).rlb(x)),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> final(self).rub(x),
            r is Ok ==> forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= old(self).num() ==> final(self).rlb(x);
}
/// statistics of an encoding
pub trait PbStats: PbEnc {
    fn n_clauses(&self) -> (r: usize) requires self.nc() <= usize::MAX ensures r == self.nc();
    fn n_vars(&self) -> (r: u32) requires self.nv() <= u32::MAX ensures r == self.nv();
}
// ---- ranges of bounds, for every encoding ----
//@fn src/encodings/pb/mod.rs prepare_ub_range id=prepare_ub_range_g
//@ret r
    requires enc.wf(),
    ensures forall|x: int| #[trigger] vx_has(r, x) && x >= 0 ==> vx_has(range, x) && x < enc.num(), forall|x: int| #![trigger vx_has(range, x)] 0 <= x < enc.num() && vx_has(range, x) ==> vx_has(r, x), r.end <= enc.num(),
//@sub fn prepare_ub_range ==> fn prepare_ub_range_g
//@sub Enc: Encode ==> Enc: PbNum
//@ghost start
    proof { enc.law_n(); }
//@end
//@fn src/encodings/pb/mod.rs prepare_lb_range id=prepare_lb_range_g
//@ret r
    requires enc.wf(),
    ensures forall|x: int| #[trigger] vx_has(r, x) && x >= 0 ==> vx_has(range, x) && 1 <= x <= enc.num(), forall|x: int| #![trigger vx_has(range, x)] 1 <= x <= enc.num() && vx_has(range, x) ==> vx_has(r, x), r.end <= enc.num() + 1, r.start >= 1,
//@sub fn prepare_lb_range ==> fn prepare_lb_range_g
//@sub Enc: Encode ==> Enc: PbNum
//@ghost start
    proof { enc.law_n(); }
//@end
//@fn src/encodings/pb/mod.rs prepare_both_range id=prepare_both_range_g
//@ret r
    requires enc.wf(),
    ensures forall|x: int| #[trigger] vx_has(r, x) && x >= 0 ==> vx_has(range, x) && x <= enc.num(), forall|x: int| #![trigger vx_has(range, x)] 0 <= x <= enc.num() && vx_has(range, x) ==> vx_has(r, x), r.end <= enc.num() + 1,
//@sub fn prepare_both_range ==> fn prepare_both_range_g
//@sub Enc: Encode ==> Enc: PbNum
//@ghost start
    proof { enc.law_n(); }
//@end
// ---- an encoding over the negated literals ----
//@struct src/encodings/pb/simulators.rs Inverted
//@sub Encode \+ 'static ==> PbEnc
//@end
impl<PBE: PbEnc> PbNum for Inverted<PBE> {
    open spec fn wf(&self) -> bool { self.pb_enc.wf() && self.weight_sum == self.pb_enc.num() }
    open spec fn num(&self) -> int { self.weight_sum as int }
    proof fn law_n(&self) { self.pb_enc.law_n(); }
//@fn src/encodings/pb/simulators.rs <Inverted as Encode>::weight_sum nopub
//@ret r
//@end
}
impl<PBE: PbEnc> Inverted<PBE> {
//@fn src/encodings/pb/simulators.rs Inverted::convert_encoding_range
//@ret r
    requires self.wf(), range.start < range.end ==> range.end <= self.num() + 1,
    ensures forall|x: int| #[trigger] vx_has(range, x) && x >= 0 ==> vx_has(r, self.num() - x),
        forall|y: int| #[trigger] vx_has(r, y) && y >= 0 ==> vx_has(range, self.num() - y),
//@sub range\.is_empty\(\) ==> !(range.start < range.end)
//@ghost start
    proof { self.law_n(); }
//@end
}
pub proof fn lem_inv_ext<E: PbEnc>(u: E, t: E, gl: Seq<(Lit, usize)>, gv: Seq<(Lit, usize)>, m: Map<Lit, usize>)
    requires forall|a: Asg| #[trigger] u.tot(a) == t.tot(a) + ws(gv, a), forall|a: Asg| #[trigger] mt(m, a) == ws(gv, a), forall|a: Asg| #[trigger] mt(m, a) == ws(wopps(gl), a),
    ensures forall|a: Asg| #[trigger] u.tot(a) == t.tot(a) + wt(gl) - ws(gl, a),
{ assert forall|a: Asg| #[trigger] u.tot(a) == t.tot(a) + wt(gl) - ws(gl, a) by { lem_wopps(gl, a); assert(mt(m, a) == ws(gv, a)); } }
impl<PBE: PbStats> PbStats for Inverted<PBE> {
//@fn src/encodings/pb/simulators.rs <Inverted as EncodeStats>::n_clauses nopub
//@ret r
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as EncodeStats>::n_vars nopub
//@ret r
//@end
}
impl<PBE: PbEnc> PbEnc for Inverted<PBE> {
    open spec fn ok(&self, n: nat, c: nat) -> bool { self.pb_enc.ok(n, c) && self.weight_sum == self.pb_enc.num() }
    open spec fn tot(&self, a: Asg) -> int { self.weight_sum - self.pb_enc.tot(a) }
    open spec fn hub(&self, a: Asg) -> bool { self.pb_enc.hlb(a) }
    open spec fn hlb(&self, a: Asg) -> bool { self.pb_enc.hub(a) }
    open spec fn st(&self, a: Asg) -> bool { self.pb_enc.st(a) }
    open spec fn rub(&self, x: int) -> bool { x >= self.weight_sum || self.pb_enc.rlb(self.weight_sum - x) }
    open spec fn rlb(&self, x: int) -> bool { x <= 0 || x <= self.weight_sum && self.pb_enc.rub(self.weight_sum - x) }
    open spec fn isout(&self, v: nat) -> bool { self.pb_enc.isout(v) }
    open spec fn inp(&self, v: nat) -> bool { self.pb_enc.inp(v) }
    open spec fn voc(&self, v: nat) -> bool { self.pb_enc.voc(v) }
    open spec fn nc(&self) -> int { self.pb_enc.nc() }
    open spec fn nv(&self) -> int { self.pb_enc.nv() }
    proof fn law_ok(&self, n: nat, c: nat, n2: nat, c2: nat) { self.pb_enc.law_ok(n, c, n2, c2); }
    proof fn law_nn(&self) { self.pb_enc.law_nn(); }
    proof fn law_num(&self) { self.pb_enc.law_num(); assert forall|a: Asg| 0 <= #[trigger] self.tot(a) <= self.num() by { assert(0 <= self.pb_enc.tot(a) <= self.pb_enc.num()); } }
    proof fn law_ext(&self, n: nat, c: nat, a: Asg) -> (b: Asg) { let b = self.pb_enc.law_ext(n, c, a); assert forall|v: nat| !#[trigger] self.isout(v) implies a(v) == b(v) by { assert(!self.pb_enc.isout(v)); } b }
    proof fn law_dep(&self, n: nat, c: nat, a: Asg, b: Asg) {
        assert forall|v: nat| #[trigger] self.pb_enc.inp(v) implies a(v) == b(v) by { assert(self.inp(v)); }
        self.pb_enc.law_dep(n, c, a, b);
        if forall|v: nat| #[trigger] self.isout(v) ==> a(v) == b(v) { assert forall|v: nat| #[trigger] self.pb_enc.isout(v) implies a(v) == b(v) by { assert(self.isout(v)); } }
    }
//@fn src/encodings/pb/simulators.rs <Inverted as From<RsHashMap<Lit, usize>>>::from nopub chains=loop collect0=map fold_ty=usize
//@ret r
//@sub for (\w+) in it0: lits\.iter\(\) ==> let vx_pl = vx_map_refs(&lits); let ghost gr = vx_pl@; let ghost gs = deref_pairs(gr); proof { broadcast use vstd::std_specs::hash::group_hash_axioms; lem_pairs_msum(gs, lits@); lem_wt_nonneg(gs); assert(gs.take(0) =~= Seq::empty()); assert(gs.take(gs.len() as int) =~= gs); } for $1 in it0: vx_pl
//@sub ws = ws \+ w; ==> proof { let i = it0.index@ as int; lem_sm_take(gs, i, ft()); assert(wt(gs.take(i + 1)) <= wt(gs)); assert(*gr[i].1 == gs[i].1); } ws = ws + *w;
//@sub for (\w+) in it1: lits\.into_iter\(\) ==> let vx_pi = vx_map_into(lits); let ghost gp = vx_pi@; proof { broadcast use vstd::std_specs::hash::group_hash_axioms; lem_negm0(gp.take(0)); assert(gp.take(gp.len() as int) =~= gp); assert(vx_acc0@ =~= Map::empty()); } for $1 in it1: vx_pi
//@loop 0 iter=it0
    invariant it0.seq() == gr, gs == deref_pairs(gr), gr.len() == gs.len(), wt(gs) <= usize::MAX, ws == wt(gs.take(it0.index@ as int)), forall|i: int| 0 <= i <= gs.len() ==> 0 <= #[trigger] wt(gs.take(i)) <= wt(gs),
//@loop 1 iter=it1
    invariant it1.seq() == gp, pairs_of(gp, gm), negm(vx_acc0@, gp.take(it1.index@ as int)),
//@ghost loop 1 start
    broadcast use {lit_key, vstd::std_specs::hash::group_hash_axioms};
    let ghost m0 = vx_acc0@;
//@ghost loop 1 end
    proof { lem_negm_add(m0, gp, it1.index@ as int, gm, vx_acc0@); }
//@ghost loop 1 after
    proof { broadcast use vstd::std_specs::hash::group_hash_axioms; lem_negm_end(vx_acc0@, gp, gm); }
//@ghost start
    let ghost gm = lits@;
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as FromIterator<(Lit, usize)>>::from_iter nopub from_iter=keep inst=T:Vec<(Lit,usize)>
//@ret r
//@sub Self::from\(collect_weighted_lits\(iter\)\) ==> { let ghost gl = iter@; let vx_m = collect_weighted_lits(iter); proof { lem_mvars(vx_m@, gl); } <Self as PbEnc>::from(vx_m) }
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as Extend<(Lit, usize)>>::extend nopub chains=loop extend=keep inst=T:Vec<(Lit,usize)> lazy=(Lit,usize) fold_ty=usize
//@sub for (\w+) in it1: lits\.iter\(\) ==> let vx_pl = vx_map_refs(&lits); let ghost gr = vx_pl@; let ghost gs = deref_pairs(gr); proof { broadcast use vstd::std_specs::hash::group_hash_axioms; lem_pairs_msum(gs, lits@); lem_wt_nonneg(gs); assert(gs.take(0) =~= Seq::empty()); assert(gs.take(gs.len() as int) =~= gs); } for $1 in it1: vx_pl
//@sub ws = ws \+ w; ==> proof { let i = it1.index@ as int; lem_sm_take(gs, i, ft()); assert(wt(gs.take(i + 1)) <= wt(gs)); assert(*gr[i].1 == gs[i].1); } ws = ws + *w;
//@sub self\.pb_enc\.extend\(lits\); ==> proof { lem_opp_all(); } let ghost glm = lits@; let vx_v = vx_map_into(lits); let ghost gv = vx_v@; proof { broadcast use vstd::std_specs::hash::group_hash_axioms; lem_pairs_msum(gv, glm); lem_mvars(glm, wopps(gl)); lem_wopps_vars(gl); lem_ext_vars(gv, glm, gl); } self.pb_enc.extend(vx_v);
//@loop 0 iter=it0
    invariant it0.seq() == gl, vx_acc0@ =~= wopps(gl.take(it0.index@ as int)),
//@loop 1 iter=it1
    invariant it1.seq() == gr, gs == deref_pairs(gr), gr.len() == gs.len(), wt(gs) <= usize::MAX, ws == wt(gs.take(it1.index@ as int)), forall|i: int| 0 <= i <= gs.len() ==> 0 <= #[trigger] wt(gs.take(i)) <= wt(gs),
//@ghost start
    let ghost gl = iter@;
    proof { assert(gl.take(gl.len() as int) =~= gl); lem_wopps(gl, |v: nat| true); lem_wt_nonneg(gl); }
//@ghost end
    proof { lem_inv_ext(self.pb_enc, old(self).pb_enc, gl, gv, glm);
        assert forall|n: nat, c: nat| #![trigger self.ok(n, c)] old(self).ok(n, c) && bel(lits_of(gl), n) && (forall|v: nat| #[trigger] old(self).isout(v) ==> !var_in(v, lits_of(gl))) implies self.ok(n, c) by {
            assert forall|v: nat| #[trigger] old(self).pb_enc.isout(v) implies !var_in(v, lits_of(gv)) by { assert(old(self).isout(v)); }
            assert(self.pb_enc.ok(n, c));
        }
    }
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as BoundUpper>::enforce_ub nopub
//@ret r
//@ghost start
    proof { self.law_n(); self.pb_enc.law_num(); }
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as BoundLower>::enforce_lb nopub
//@ret r
//@ghost start
    proof { self.law_n(); self.pb_enc.law_num(); self.pb_enc.law_n(); }
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as BoundBoth>::enforce_eq nopub
//@ret r
//@ghost start
    proof { self.law_n(); self.pb_enc.law_num(); self.pb_enc.law_n(); }
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as BoundUpper>::encode_ub nopub dyn
//@ret r
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.weight_sum as int;
    proof { self.pb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { if x < n { assert(self.pb_enc.rlb(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.pb_enc.tot(a) == old(self).pb_enc.tot(a)); }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as BoundLower>::encode_lb nopub dyn
//@ret r
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.weight_sum as int;
    proof { self.pb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= n implies self.rlb(x) by { if x > 0 { assert(self.pb_enc.rub(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.pb_enc.tot(a) == old(self).pb_enc.tot(a)); }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as BoundBoth>::encode_both nopub dyn
//@ret r
//@sub \+ Clone ==> 
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.weight_sum as int;
    proof { self.pb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { if x < n { assert(self.pb_enc.rlb(n - x)); } }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= n implies self.rlb(x) by { if x > 0 { assert(self.pb_enc.rub(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.pb_enc.tot(a) == old(self).pb_enc.tot(a)); }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as BoundUpperIncremental>::encode_ub_change nopub dyn
//@ret r
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.weight_sum as int;
    proof { self.pb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { if x < n { assert(self.pb_enc.rlb(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.pb_enc.tot(a) == old(self).pb_enc.tot(a)); }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as BoundLowerIncremental>::encode_lb_change nopub dyn
//@ret r
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.weight_sum as int;
    proof { self.pb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= n implies self.rlb(x) by { if x > 0 { assert(self.pb_enc.rub(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.pb_enc.tot(a) == old(self).pb_enc.tot(a)); }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Inverted as BoundBothIncremental>::encode_both_change nopub dyn
//@ret r
//@sub \+ Clone ==> 
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.weight_sum as int;
    proof { self.pb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { if x < n { assert(self.pb_enc.rlb(n - x)); } }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= n implies self.rlb(x) by { if x > 0 { assert(self.pb_enc.rub(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.pb_enc.tot(a) == old(self).pb_enc.tot(a)); }
    } }
//@end
}
// ---- one encoding for each bound ----
//@struct src/encodings/pb/simulators.rs Double
//@sub UBE: BoundUpper \+ 'static ==> UBE: PbEnc
//@sub LBE: BoundLower \+ 'static ==> LBE: PbEnc
//@end
pub open spec fn dj<U: PbEnc, L: PbEnc>(u: U, l: L) -> bool { forall|v: nat| #![trigger u.isout(v)] #![trigger l.isout(v)] #![trigger u.inp(v)] #![trigger l.inp(v)] !(u.isout(v) && l.isout(v)) && !(u.isout(v) && l.inp(v)) && !(u.inp(v) && l.isout(v)) }
pub open spec fn eqt<U: PbEnc, L: PbEnc>(u: U, l: L) -> bool { u.num() == l.num() && forall|a: Asg| #![trigger u.tot(a)] #![trigger l.tot(a)] u.tot(a) == l.tot(a) }
impl<UBE: PbEnc, LBE: PbEnc> PbNum for Double<UBE, LBE> {
    open spec fn wf(&self) -> bool { self.ub_enc.wf() && self.lb_enc.wf() && eqt(self.ub_enc, self.lb_enc) }
    open spec fn num(&self) -> int { self.ub_enc.num() }
    proof fn law_n(&self) { self.ub_enc.law_n(); }
//@fn src/encodings/pb/simulators.rs <Double as Encode>::weight_sum nopub
//@ret r
//@end
}
impl<UBE: PbStats, LBE: PbStats> PbStats for Double<UBE, LBE> {
//@fn src/encodings/pb/simulators.rs <Double as EncodeStats>::n_clauses nopub
//@ret r
//@ghost start
    proof { self.ub_enc.law_nn(); self.lb_enc.law_nn(); }
//@end
//@fn src/encodings/pb/simulators.rs <Double as EncodeStats>::n_vars nopub
//@ret r
//@ghost start
    proof { self.ub_enc.law_nn(); self.lb_enc.law_nn(); }
//@end
}
impl<UBE: PbEnc, LBE: PbEnc> PbEnc for Double<UBE, LBE> {
    open spec fn ok(&self, n: nat, c: nat) -> bool {
        self.ub_enc.ok(n, c) && self.lb_enc.ok(n, c) && eqt(self.ub_enc, self.lb_enc) && dj(self.ub_enc, self.lb_enc) && self.nc() <= c && self.nv() <= n
    }
    open spec fn tot(&self, a: Asg) -> int { self.ub_enc.tot(a) }
    open spec fn hub(&self, a: Asg) -> bool { self.ub_enc.hub(a) }
    open spec fn hlb(&self, a: Asg) -> bool { self.lb_enc.hlb(a) }
    open spec fn st(&self, a: Asg) -> bool { self.ub_enc.st(a) && self.lb_enc.st(a) }
    open spec fn rub(&self, x: int) -> bool { self.ub_enc.rub(x) }
    open spec fn rlb(&self, x: int) -> bool { self.lb_enc.rlb(x) }
    open spec fn isout(&self, v: nat) -> bool { self.ub_enc.isout(v) || self.lb_enc.isout(v) }
    open spec fn inp(&self, v: nat) -> bool { self.ub_enc.inp(v) || self.lb_enc.inp(v) }
    open spec fn voc(&self, v: nat) -> bool { self.ub_enc.voc(v) || self.lb_enc.voc(v) }
    open spec fn nc(&self) -> int { self.ub_enc.nc() + self.lb_enc.nc() }
    open spec fn nv(&self) -> int { self.ub_enc.nv() + self.lb_enc.nv() }
    proof fn law_ok(&self, n: nat, c: nat, n2: nat, c2: nat) { self.ub_enc.law_ok(n, c, n2, c2); self.lb_enc.law_ok(n, c, n2, c2); }
    proof fn law_nn(&self) { self.ub_enc.law_nn(); self.lb_enc.law_nn(); }
    proof fn law_num(&self) {
        self.ub_enc.law_num(); self.lb_enc.law_num();
        assert forall|a: Asg| 0 <= #[trigger] self.tot(a) <= self.num() by { assert(0 <= self.ub_enc.tot(a) <= self.ub_enc.num()); }
    }
    proof fn law_ext(&self, n: nat, c: nat, a: Asg) -> (b: Asg) {
        let b1 = self.ub_enc.law_ext(n, c, a);
        let b = self.lb_enc.law_ext(n, c, b1);
        assert forall|v: nat| #[trigger] self.ub_enc.inp(v) implies b1(v) == b(v) by { assert(!self.lb_enc.isout(v)); }
        assert forall|v: nat| #[trigger] self.ub_enc.isout(v) implies b1(v) == b(v) by { assert(!self.lb_enc.isout(v)); }
        self.ub_enc.law_dep(n, c, b1, b);
        assert forall|v: nat| !#[trigger] self.isout(v) implies a(v) == b(v) by { assert(!self.ub_enc.isout(v)); assert(!self.lb_enc.isout(v)); }
        b
    }
    proof fn law_dep(&self, n: nat, c: nat, a: Asg, b: Asg) {
        assert forall|v: nat| #[trigger] self.ub_enc.inp(v) implies a(v) == b(v) by { assert(self.inp(v)); }
        assert forall|v: nat| #[trigger] self.lb_enc.inp(v) implies a(v) == b(v) by { assert(self.inp(v)); }
        self.ub_enc.law_dep(n, c, a, b); self.lb_enc.law_dep(n, c, a, b);
        if forall|v: nat| #[trigger] self.isout(v) ==> a(v) == b(v) {
            assert forall|v: nat| #[trigger] self.ub_enc.isout(v) implies a(v) == b(v) by { assert(self.isout(v)); }
            assert forall|v: nat| #[trigger] self.lb_enc.isout(v) implies a(v) == b(v) by { assert(self.isout(v)); }
        }
    }
//@fn src/encodings/pb/simulators.rs <Double as From<RsHashMap<Lit, usize>>>::from nopub
//@ret r
//@sub lits\.clone\(\) ==> vx_map_clone(&lits)
//@ghost end
    proof {
        assert forall|a: Asg| #![trigger vx_tail.ub_enc.tot(a)] #![trigger vx_tail.lb_enc.tot(a)] vx_tail.ub_enc.tot(a) == vx_tail.lb_enc.tot(a) by { assert(vx_tail.ub_enc.tot(a) == mt(gl, a)); assert(vx_tail.lb_enc.tot(a) == mt(gl, a)); }
    }
//@ghost start
    let ghost gl = lits@;
//@end
//@fn src/encodings/pb/simulators.rs <Double as FromIterator<(Lit, usize)>>::from_iter nopub from_iter=keep inst=T:Vec<(Lit,usize)>
//@ret r
//@sub Self::from\(collect_weighted_lits\(iter\)\) ==> { let ghost gl = iter@; let vx_m = collect_weighted_lits(iter); proof { lem_mvars(vx_m@, gl); } <Self as PbEnc>::from(vx_m) }
//@end
//@fn src/encodings/pb/simulators.rs <Double as Extend<(Lit, usize)>>::extend nopub extend=keep inst=T:Vec<(Lit,usize)>
//@sub self\.ub_enc\.extend\(lits\.clone\(\)\); ==> let ghost glm = lits@; let vx_u = vx_map_into(vx_map_clone(&lits)); let ghost gu = vx_u@; proof { broadcast use vstd::std_specs::hash::group_hash_axioms; lem_pairs_msum(gu, glm); lem_mvars(glm, gl); lem_ext_vars(gu, glm, gl); } self.ub_enc.extend(vx_u);
//@sub self\.lb_enc\.extend\(lits\); ==> let vx_l = vx_map_into(lits); let ghost gb = vx_l@; proof { broadcast use vstd::std_specs::hash::group_hash_axioms; lem_pairs_msum(gb, glm); lem_ext_vars(gb, glm, gl); } self.lb_enc.extend(vx_l);
//@ghost start
    let ghost gl = iter@;
    proof { self.law_n(); lem_wt_nonneg(gl); }
//@ghost end
    proof {
        assert forall|a: Asg| #![trigger self.ub_enc.tot(a)] #![trigger self.lb_enc.tot(a)] self.ub_enc.tot(a) == self.lb_enc.tot(a) && self.ub_enc.tot(a) == old(self).ub_enc.tot(a) + ws(gl, a) by { assert(mt(glm, a) == ws(gl, a)); assert(self.ub_enc.tot(a) == old(self).ub_enc.tot(a) + ws(gu, a)); assert(self.lb_enc.tot(a) == old(self).lb_enc.tot(a) + ws(gb, a)); }
        assert forall|n: nat, c: nat| #![trigger self.ok(n, c)] old(self).ok(n, c) && bel(lits_of(gl), n) && (forall|v: nat| #[trigger] old(self).isout(v) ==> !var_in(v, lits_of(gl))) implies self.ok(n, c) by {
            assert forall|v: nat| #[trigger] old(self).ub_enc.isout(v) implies !var_in(v, lits_of(gu)) && !var_in(v, lits_of(gl)) by { assert(old(self).isout(v)); }
            assert forall|v: nat| #[trigger] old(self).lb_enc.isout(v) implies !var_in(v, lits_of(gb)) && !var_in(v, lits_of(gl)) by { assert(old(self).isout(v)); }
            assert(self.ub_enc.ok(n, c)); assert(self.lb_enc.ok(n, c));
            let t = *old(self);
            assert forall|v: nat| #![trigger self.ub_enc.isout(v)] #![trigger self.lb_enc.isout(v)] #![trigger self.ub_enc.inp(v)] #![trigger self.lb_enc.inp(v)] !(self.ub_enc.isout(v) && self.lb_enc.isout(v)) && !(self.ub_enc.isout(v) && self.lb_enc.inp(v)) && !(self.ub_enc.inp(v) && self.lb_enc.isout(v)) by {
                assert(self.ub_enc.isout(v) == t.ub_enc.isout(v)); assert(self.lb_enc.isout(v) == t.lb_enc.isout(v));
                if self.ub_enc.inp(v) { assert(t.ub_enc.inp(v) || var_in(v, lits_of(gu))); } if self.lb_enc.inp(v) { assert(t.lb_enc.inp(v) || var_in(v, lits_of(gb))); }
            }
        }
    }
//@end
//@fn src/encodings/pb/simulators.rs <Double as BoundUpper>::enforce_ub nopub
//@ret r
//@end
//@fn src/encodings/pb/simulators.rs <Double as BoundLower>::enforce_lb nopub
//@ret r
//@ghost end
    proof {
        if vx_tail is Ok { assert forall|a: Asg| #[trigger] self.hlb(a) && cube_true(vx_tail->Ok_0@, a) implies self.tot(a) >= lb by { assert(self.lb_enc.hlb(a)); assert(self.lb_enc.tot(a) >= lb); } }
    }
//@end
//@fn src/encodings/pb/mod.rs trait:BoundBoth::enforce_eq nopub id=enforce_eq_double
//@ret r
//@sub assumps\.extend\((.*)\); ==> let vx_u = assumps; let mut vx_l = $1; let ghost (gu, gl) = (vx_u@, vx_l@); let mut assumps = vx_u; assumps.append(&mut vx_l); proof { lem_cube_add(gu, gl); }
//@end
//@fn src/encodings/pb/simulators.rs <Double as BoundUpper>::encode_ub nopub dyn
//@ret r
//@ghost start
    proof { self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); }
//@ghost end
    proof { if vx_tail is Ok {
        self.lb_enc.law_ok(old(var_manager).next(), old(collector).cls().len(), var_manager.next(), collector.cls().len());
        self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len());
        assert(eqt(self.ub_enc, self.lb_enc)) by { assert forall|a: Asg| #![trigger self.ub_enc.tot(a)] #![trigger self.lb_enc.tot(a)] self.ub_enc.tot(a) == self.lb_enc.tot(a) by { assert(self.ub_enc.tot(a) == old(self).ub_enc.tot(a)); assert(old(self).ub_enc.tot(a) == old(self).lb_enc.tot(a)); } }
        assert(dj(self.ub_enc, self.lb_enc)) by { assert(dj(old(self).ub_enc, old(self).lb_enc)); assert(self.lb_enc == old(self).lb_enc);
            assert forall|v: nat| #![trigger self.ub_enc.isout(v)] #![trigger self.lb_enc.isout(v)] #![trigger self.ub_enc.inp(v)] #![trigger self.lb_enc.inp(v)] !(self.ub_enc.isout(v) && self.lb_enc.isout(v)) && !(self.ub_enc.isout(v) && self.lb_enc.inp(v)) && !(self.ub_enc.inp(v) && self.lb_enc.isout(v)) by {
                if self.ub_enc.isout(v) && !old(self).ub_enc.isout(v) { assert(v >= old(var_manager).next()); if self.lb_enc.inp(v) { assert(old(self).lb_enc.inp(v)); } if self.lb_enc.isout(v) { assert(old(self).lb_enc.isout(v)); } }
                if self.ub_enc.inp(v) { assert(old(self).ub_enc.inp(v)); }
            } }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Double as BoundLower>::encode_lb nopub dyn
//@ret r
//@ghost start
    proof { self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); }
//@ghost end
    proof { if vx_tail is Ok {
        self.ub_enc.law_ok(old(var_manager).next(), old(collector).cls().len(), var_manager.next(), collector.cls().len());
        self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len());
        assert(eqt(self.ub_enc, self.lb_enc)) by { assert forall|a: Asg| #![trigger self.ub_enc.tot(a)] #![trigger self.lb_enc.tot(a)] self.ub_enc.tot(a) == self.lb_enc.tot(a) by { assert(self.lb_enc.tot(a) == old(self).lb_enc.tot(a)); assert(old(self).ub_enc.tot(a) == old(self).lb_enc.tot(a)); } }
        assert(dj(self.ub_enc, self.lb_enc)) by { assert(dj(old(self).ub_enc, old(self).lb_enc)); assert(self.ub_enc == old(self).ub_enc);
            assert forall|v: nat| #![trigger self.ub_enc.isout(v)] #![trigger self.lb_enc.isout(v)] #![trigger self.ub_enc.inp(v)] #![trigger self.lb_enc.inp(v)] !(self.ub_enc.isout(v) && self.lb_enc.isout(v)) && !(self.ub_enc.isout(v) && self.lb_enc.inp(v)) && !(self.ub_enc.inp(v) && self.lb_enc.isout(v)) by {
                if self.lb_enc.isout(v) && !old(self).lb_enc.isout(v) { assert(v >= old(var_manager).next()); if self.ub_enc.inp(v) { assert(old(self).ub_enc.inp(v)); } if self.ub_enc.isout(v) { assert(old(self).ub_enc.isout(v)); } }
                if self.lb_enc.inp(v) { assert(old(self).lb_enc.inp(v)); }
            } }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Double as BoundUpperIncremental>::encode_ub_change nopub dyn
//@ret r
//@ghost start
    proof { self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); }
//@ghost end
    proof { if vx_tail is Ok {
        self.lb_enc.law_ok(old(var_manager).next(), old(collector).cls().len(), var_manager.next(), collector.cls().len());
        self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len());
        assert(eqt(self.ub_enc, self.lb_enc)) by { assert forall|a: Asg| #![trigger self.ub_enc.tot(a)] #![trigger self.lb_enc.tot(a)] self.ub_enc.tot(a) == self.lb_enc.tot(a) by { assert(self.ub_enc.tot(a) == old(self).ub_enc.tot(a)); assert(old(self).ub_enc.tot(a) == old(self).lb_enc.tot(a)); } }
        assert(dj(self.ub_enc, self.lb_enc)) by { assert(dj(old(self).ub_enc, old(self).lb_enc)); assert(self.lb_enc == old(self).lb_enc);
            assert forall|v: nat| #![trigger self.ub_enc.isout(v)] #![trigger self.lb_enc.isout(v)] #![trigger self.ub_enc.inp(v)] #![trigger self.lb_enc.inp(v)] !(self.ub_enc.isout(v) && self.lb_enc.isout(v)) && !(self.ub_enc.isout(v) && self.lb_enc.inp(v)) && !(self.ub_enc.inp(v) && self.lb_enc.isout(v)) by {
                if self.ub_enc.isout(v) && !old(self).ub_enc.isout(v) { assert(v >= old(var_manager).next()); if self.lb_enc.inp(v) { assert(old(self).lb_enc.inp(v)); } if self.lb_enc.isout(v) { assert(old(self).lb_enc.isout(v)); } }
                if self.ub_enc.inp(v) { assert(old(self).ub_enc.inp(v)); }
            } }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Double as BoundLowerIncremental>::encode_lb_change nopub dyn
//@ret r
//@ghost start
    proof { self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); }
//@ghost end
    proof { if vx_tail is Ok {
        self.ub_enc.law_ok(old(var_manager).next(), old(collector).cls().len(), var_manager.next(), collector.cls().len());
        self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len());
        assert(eqt(self.ub_enc, self.lb_enc)) by { assert forall|a: Asg| #![trigger self.ub_enc.tot(a)] #![trigger self.lb_enc.tot(a)] self.ub_enc.tot(a) == self.lb_enc.tot(a) by { assert(self.lb_enc.tot(a) == old(self).lb_enc.tot(a)); assert(old(self).ub_enc.tot(a) == old(self).lb_enc.tot(a)); } }
        assert(dj(self.ub_enc, self.lb_enc)) by { assert(dj(old(self).ub_enc, old(self).lb_enc)); assert(self.ub_enc == old(self).ub_enc);
            assert forall|v: nat| #![trigger self.ub_enc.isout(v)] #![trigger self.lb_enc.isout(v)] #![trigger self.ub_enc.inp(v)] #![trigger self.lb_enc.inp(v)] !(self.ub_enc.isout(v) && self.lb_enc.isout(v)) && !(self.ub_enc.isout(v) && self.lb_enc.inp(v)) && !(self.ub_enc.inp(v) && self.lb_enc.isout(v)) by {
                if self.lb_enc.isout(v) && !old(self).lb_enc.isout(v) { assert(v >= old(var_manager).next()); if self.ub_enc.inp(v) { assert(old(self).ub_enc.inp(v)); } if self.ub_enc.isout(v) { assert(old(self).ub_enc.isout(v)); } }
                if self.lb_enc.inp(v) { assert(old(self).lb_enc.inp(v)); }
            } }
    } }
//@end
//@fn src/encodings/pb/mod.rs trait:BoundBoth::encode_both nopub dyn id=encode_both_double
//@ret r
//@sub range\.clone\(\) ==> range.vx_clone()
//@sub \+ Clone ==> 
//@ghost start
    let ghost c0 = collector.cls();
    let ghost t0 = *self;
//@ghost call encode_lb 0 before
    let ghost c1 = collector.cls();
    let ghost t1 = *self;
//@ghost end
    proof { if vx_tail is Ok { lem_since2(c0, c1, collector.cls());
        assert forall|a: Asg| #[trigger] self.tot(a) == t0.tot(a) by { assert(t1.tot(a) == t0.tot(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) implies t0.st(a) && cnf_true(since(collector.cls(), c0), a) by { assert(t1.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) implies t0.isout(v) || v >= old(var_manager).next() by { if t1.isout(v) { } }
        assert forall|v: nat| #[trigger] self.inp(v) implies t0.inp(v) by { assert(t1.inp(v)); }
        assert forall|v: nat| t0.voc(v) implies #[trigger] self.voc(v) by { assert(t1.voc(v)); }
        let me = *self; lem_since_voc(|v: nat| me.voc(v), |v: nat| t1.voc(v), c0, c1, collector.cls());
        assert forall|a: Asg| t0.hub(a) && cnf_true(since(collector.cls(), c0), a) implies #[trigger] self.hub(a) by { assert(t1.hub(a)); }
        assert forall|a: Asg| t0.hlb(a) && cnf_true(since(collector.cls(), c0), a) implies #[trigger] self.hlb(a) by { assert(t1.hlb(a)); }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { assert(t1.rub(x)); }
    } }
//@end
//@fn src/encodings/pb/mod.rs trait:BoundBothIncremental::encode_both_change nopub dyn id=encode_both_change_double
//@ret r
//@sub range\.clone\(\) ==> range.vx_clone()
//@sub \+ Clone ==> 
//@ghost start
    let ghost c0 = collector.cls();
    let ghost t0 = *self;
//@ghost call encode_lb_change 0 before
    let ghost c1 = collector.cls();
    let ghost t1 = *self;
//@ghost end
    proof { if vx_tail is Ok { lem_since2(c0, c1, collector.cls());
        assert forall|a: Asg| #[trigger] self.tot(a) == t0.tot(a) by { assert(t1.tot(a) == t0.tot(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) implies t0.st(a) && cnf_true(since(collector.cls(), c0), a) by { assert(t1.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) implies t0.isout(v) || v >= old(var_manager).next() by { if t1.isout(v) { } }
        assert forall|v: nat| #[trigger] self.inp(v) implies t0.inp(v) by { assert(t1.inp(v)); }
        assert forall|v: nat| t0.voc(v) implies #[trigger] self.voc(v) by { assert(t1.voc(v)); }
        let me = *self; lem_since_voc(|v: nat| me.voc(v), |v: nat| t1.voc(v), c0, c1, collector.cls());
        assert forall|a: Asg| t0.hub(a) && cnf_true(since(collector.cls(), c0), a) implies #[trigger] self.hub(a) by { assert(t1.hub(a)); }
        assert forall|a: Asg| t0.hlb(a) && cnf_true(since(collector.cls(), c0), a) implies #[trigger] self.hlb(a) by { assert(t1.hlb(a)); }
        assert forall|x: int| t0.rub(x) implies #[trigger] self.rub(x) by { assert(t1.rub(x)); }
        assert forall|x: int| t0.rlb(x) implies #[trigger] self.rlb(x) by { assert(t1.rlb(x)); }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { assert(t1.rub(x)); }
    } }
//@end
}
// ---- literals repeated by weight in a cardinality encoding ----
/// literals repeated as often as their weights
pub open spec fn rep(t: Seq<Lit>, s: Seq<(Lit, usize)>) -> bool { t.len() == wt(s) && (forall|a: Asg| #[trigger] cnt(t, a) == ws(s, a)) && forall|v: nat| #[trigger] var_in(v, t) ==> var_in(v, lits_of(s)) }
pub proof fn lem_rep0() ensures rep(Seq::empty(), Seq::empty()) { assert forall|a: Asg| #[trigger] cnt(Seq::empty(), a) == ws(Seq::empty(), a) by {} }
pub proof fn lem_rep(t: Seq<Lit>, s: Seq<(Lit, usize)>, x: (Lit, usize), u: Seq<Lit>) requires rep(t, s), u == t + copies(x.1 as int, x.0) ensures rep(u, s.push(x))
{
    let r = s.push(x);
    lem_sm_push(s, x, ft());
    assert forall|a: Asg| #[trigger] cnt(u, a) == ws(r, a) by { lem_sm_push(s, x, fw(a)); lem_repeat(t, x.0, x.1, a, u); assert(x == (x.0, x.1)); assert(cnt(t, a) == ws(s, a)); }
    assert forall|v: nat| #[trigger] var_in(v, u) implies var_in(v, lits_of(r)) by {
        let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i].v() == v; let q = lits_of(r);
        if i < t.len() { assert(t[i].v() == v); assert(var_in(v, t)); let j = choose|j: int| 0 <= j < s.len() && #[trigger] lits_of(s)[j].v() == v; assert(q[j].v() == v); } else { assert(q[s.len() as int].v() == v); }
    }
}
pub proof fn lem_rep_bel(t: Seq<Lit>, s: Seq<(Lit, usize)>) requires rep(t, s) ensures forall|n: nat| bel(lits_of(s), n) ==> #[trigger] bel(t, n)
{
    let q = lits_of(s);
    assert forall|n: nat| bel(q, n) implies #[trigger] bel(t, n) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).v() < n by { assert(var_in(t[i].v(), t)); let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j].v() == t[i].v(); assert(q[j].v() < n); } }
}
//@struct src/encodings/pb/simulators.rs Card
//@sub CE: card::Encode \+ 'static ==> CE: CardEnc
//@end
impl<CE: CardEnc> PbNum for Card<CE> {
    open spec fn wf(&self) -> bool { self.card_enc.wf() }
    open spec fn num(&self) -> int { self.card_enc.num() }
    proof fn law_n(&self) { self.card_enc.law_n(); }
//@fn src/encodings/pb/simulators.rs <Card as Encode>::weight_sum nopub
//@ret r
//@end
}
impl<CE: CardEnc> PbEnc for Card<CE> {
    open spec fn ok(&self, n: nat, c: nat) -> bool { self.card_enc.ok(n, c) }
    open spec fn tot(&self, a: Asg) -> int { self.card_enc.tot(a) }
    open spec fn hub(&self, a: Asg) -> bool { self.card_enc.hub(a) }
    open spec fn hlb(&self, a: Asg) -> bool { self.card_enc.hlb(a) }
    open spec fn st(&self, a: Asg) -> bool { self.card_enc.st(a) }
    open spec fn rub(&self, x: int) -> bool { self.card_enc.rub(x) }
    open spec fn rlb(&self, x: int) -> bool { self.card_enc.rlb(x) }
    open spec fn isout(&self, v: nat) -> bool { self.card_enc.isout(v) }
    open spec fn inp(&self, v: nat) -> bool { self.card_enc.inp(v) }
    open spec fn voc(&self, v: nat) -> bool { self.card_enc.voc(v) }
    open spec fn nc(&self) -> int { self.card_enc.nc() }
    open spec fn nv(&self) -> int { self.card_enc.nv() }
    proof fn law_ok(&self, n: nat, c: nat, n2: nat, c2: nat) { self.card_enc.law_ok(n, c, n2, c2); }
    proof fn law_nn(&self) { self.card_enc.law_nn(); }
    proof fn law_num(&self) { self.card_enc.law_num(); assert forall|a: Asg| 0 <= #[trigger] self.tot(a) <= self.num() by { assert(0 <= self.card_enc.tot(a) <= self.card_enc.num()); } }
    proof fn law_ext(&self, n: nat, c: nat, a: Asg) -> (b: Asg) { let b = self.card_enc.law_ext(n, c, a); assert forall|v: nat| !#[trigger] self.isout(v) implies a(v) == b(v) by { assert(!self.card_enc.isout(v)); } b }
    proof fn law_dep(&self, n: nat, c: nat, a: Asg, b: Asg) {
        assert forall|v: nat| #[trigger] self.card_enc.inp(v) implies a(v) == b(v) by { assert(self.inp(v)); }
        self.card_enc.law_dep(n, c, a, b);
        if forall|v: nat| #[trigger] self.isout(v) ==> a(v) == b(v) { assert forall|v: nat| #[trigger] self.card_enc.isout(v) implies a(v) == b(v) by { assert(self.isout(v)); } }
    }
//@fn src/encodings/pb/simulators.rs <Card as From<RsHashMap<Lit, usize>>>::from nopub
//@ret r
//@sub Self::from_iter\(lits\) ==> { let ghost gl = lits@; let vx_l = vx_map_into(lits); let ghost gs = vx_l@; proof { broadcast use vstd::std_specs::hash::group_hash_axioms; lem_pairs_msum(gs, gl); assert forall|a: Asg| #[trigger] mt(gl, a) == ws(gs, a) by {} } let vx_r = <Self as PbEnc>::from_iter(vx_l); proof { assert forall|a: Asg| #[trigger] vx_r.tot(a) == mt(gl, a) by { assert(vx_r.tot(a) == ws(gs, a)); } assert forall|v: nat| #[trigger] vx_r.inp(v) implies mvar(gl, v) by { assert(var_in(v, lits_of(gs))); } assert forall|n: nat, c: nat| mbel(gl, n) implies #[trigger] vx_r.ok(n, c) by { assert(bel(lits_of(gs), n)); } } vx_r }
//@end
//@fn src/encodings/pb/simulators.rs <Card as FromIterator<(Lit, usize)>>::from_iter nopub from_iter=keep inst=T:Vec<(Lit,usize)>
//@ret r
//@sub let mut mult_lits = vec!\[\] ==> let mut mult_lits: Vec<Lit> = vec![]
//@sub mult_lits\.resize\((.*?)\); ==> mult_lits.vx_grow($1);
//@loop 0 iter=it
    invariant it.seq() == gl, wt(gl) < usize::MAX, rep(mult_lits@, gl.take(it.index@ as int)), forall|i: int| 0 <= i <= gl.len() ==> 0 <= #[trigger] wt(gl.take(i)) <= wt(gl),
//@ghost loop 0 start
    let ghost m0 = mult_lits@;
    proof { let i = it.index@ as int; let x = gl[i]; lem_sm_push(gl.take(i), x, ft()); assert(gl.take(i + 1) =~= gl.take(i).push(x)); assert(wt(gl.take(i + 1)) <= wt(gl)); }
//@ghost loop 0 end
    proof { let i = it.index@ as int; lem_rep(m0, gl.take(i), gl[i], mult_lits@); assert(gl.take(i + 1) =~= gl.take(i).push(gl[i])); }
//@ghost loop 0 after
    let ghost ml = mult_lits@;
    proof { assert(gl.take(gl.len() as int) =~= gl); lem_rep_bel(ml, gl); }
//@ghost start
    let ghost gl = iter@;
    proof { lem_wt_nonneg(gl); lem_rep0(); assert(gl.take(0) =~= Seq::empty()); }
//@ghost end
    proof {
        assert forall|a: Asg| #[trigger] vx_tail.tot(a) == ws(gl, a) by { assert(vx_tail.card_enc.tot(a) == cnt(ml, a)); }
        assert forall|a: Asg| #[trigger] vx_tail.hub(a) by { assert(vx_tail.card_enc.hub(a)); }
        assert forall|a: Asg| #[trigger] vx_tail.hlb(a) by { assert(vx_tail.card_enc.hlb(a)); }
        assert forall|a: Asg| #[trigger] vx_tail.st(a) by { assert(vx_tail.card_enc.st(a)); }
        assert forall|v: nat| #[trigger] vx_tail.inp(v) implies var_in(v, lits_of(gl)) by { assert(var_in(v, ml)); }
        assert forall|v: nat| !#[trigger] vx_tail.isout(v) by { assert(!vx_tail.card_enc.isout(v)); }
        assert forall|n: nat, c: nat| bel(lits_of(gl), n) implies #[trigger] vx_tail.ok(n, c) by { assert(bel(ml, n)); assert(vx_tail.card_enc.ok(n, c)); }
    }
//@end
//@fn src/encodings/pb/simulators.rs <Card as Extend<(Lit, usize)>>::extend nopub extend=keep inst=T:Vec<(Lit,usize)>
//@sub let mut mult_lits = vec!\[\] ==> let mut mult_lits: Vec<Lit> = vec![]
//@sub mult_lits\.resize\((.*?)\); ==> mult_lits.vx_grow($1);
//@loop 0 iter=it
    invariant it.seq() == gl, wt(gl) < usize::MAX, rep(mult_lits@, gl.take(it.index@ as int)), forall|i: int| 0 <= i <= gl.len() ==> 0 <= #[trigger] wt(gl.take(i)) <= wt(gl),
//@ghost loop 0 start
    let ghost m0 = mult_lits@;
    proof { let i = it.index@ as int; let x = gl[i]; lem_sm_push(gl.take(i), x, ft()); assert(gl.take(i + 1) =~= gl.take(i).push(x)); assert(wt(gl.take(i + 1)) <= wt(gl)); }
//@ghost loop 0 end
    proof { let i = it.index@ as int; lem_rep(m0, gl.take(i), gl[i], mult_lits@); assert(gl.take(i + 1) =~= gl.take(i).push(gl[i])); }
//@ghost loop 0 after
    let ghost ml = mult_lits@;
    proof { assert(gl.take(gl.len() as int) =~= gl); lem_rep_bel(ml, gl); }
//@ghost start
    let ghost gl = iter@;
    proof { self.law_n(); lem_wt_nonneg(gl); lem_rep0(); assert(gl.take(0) =~= Seq::empty()); }
//@ghost end
    proof {
        let t = *old(self);
        assert forall|a: Asg| #[trigger] self.tot(a) == t.tot(a) + ws(gl, a) by { assert(self.card_enc.tot(a) == t.card_enc.tot(a) + cnt(ml, a)); }
        assert forall|a: Asg| #[trigger] self.hub(a) == t.hub(a) by { assert(self.card_enc.hub(a) == t.card_enc.hub(a)); }
        assert forall|a: Asg| #[trigger] self.hlb(a) == t.hlb(a) by { assert(self.card_enc.hlb(a) == t.card_enc.hlb(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) == t.st(a) by { assert(self.card_enc.st(a) == t.card_enc.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) == t.isout(v) by { assert(self.card_enc.isout(v) == t.card_enc.isout(v)); }
        assert forall|v: nat| #[trigger] self.inp(v) implies t.inp(v) || var_in(v, lits_of(gl)) by { assert(t.card_enc.inp(v) || var_in(v, ml)); }
        assert forall|n: nat, c: nat| #![trigger self.ok(n, c)] t.ok(n, c) && bel(lits_of(gl), n) && (forall|v: nat| #[trigger] t.isout(v) ==> !var_in(v, lits_of(gl))) implies self.ok(n, c) by {
            assert(bel(ml, n));
            assert forall|i: int| 0 <= i < ml.len() implies !t.card_enc.isout((#[trigger] ml[i]).v()) by { assert(var_in(ml[i].v(), ml)); if t.card_enc.isout(ml[i].v()) { assert(t.isout(ml[i].v())); } }
            assert(self.card_enc.ok(n, c));
        }
    }
//@end
//@fn src/encodings/pb/simulators.rs <Card as BoundUpper>::enforce_ub nopub
//@ret r
//@sub Ok\(self\.card_enc\.enforce_ub\(ub\)\?\) ==> match self.card_enc.enforce_ub(ub) { Ok(v) => Ok(v), Err(e) => Err(EnforceError::from(e)) }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|a: Asg| #[trigger] self.hub(a) && cube_true(vx_tail->Ok_0@, a) implies self.tot(a) <= ub by { assert(self.card_enc.hub(a)); assert(self.card_enc.tot(a) <= ub); }
        assert forall|a: Asg| #[trigger] self.st(a) && self.tot(a) <= ub implies cube_true(vx_tail->Ok_0@, a) by { assert(self.card_enc.st(a)); }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Card as BoundLower>::enforce_lb nopub
//@ret r
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|a: Asg| #[trigger] self.hlb(a) && cube_true(vx_tail->Ok_0@, a) implies self.tot(a) >= lb by { assert(self.card_enc.hlb(a)); assert(self.card_enc.tot(a) >= lb); }
        assert forall|a: Asg| #[trigger] self.st(a) && self.tot(a) >= lb implies cube_true(vx_tail->Ok_0@, a) by { assert(self.card_enc.st(a)); }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Card as BoundBoth>::enforce_eq nopub
//@ret r
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|a: Asg| #[trigger] self.hub(a) && self.hlb(a) && cube_true(vx_tail->Ok_0@, a) implies self.tot(a) == b by { assert(self.card_enc.hub(a)); assert(self.card_enc.tot(a) == b); }
        assert forall|a: Asg| #[trigger] self.st(a) && self.tot(a) == b implies cube_true(vx_tail->Ok_0@, a) by { assert(self.card_enc.st(a)); }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Card as BoundUpper>::encode_ub nopub dyn
//@ret r
//@ghost start
    let ghost t = *self;
//@ghost end
    proof { if vx_tail is Ok {
        let d = since(collector.cls(), old(collector).cls());
        assert forall|a: Asg| #[trigger] self.tot(a) == t.tot(a) by { assert(self.card_enc.tot(a) == t.card_enc.tot(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) implies t.st(a) && cnf_true(d, a) by { assert(self.card_enc.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) implies t.isout(v) || v >= old(var_manager).next() by { assert(self.card_enc.isout(v)); }
        assert forall|v: nat| #[trigger] self.inp(v) implies t.inp(v) by { assert(self.card_enc.inp(v)); }
        assert forall|v: nat| t.voc(v) implies #[trigger] self.voc(v) by { assert(self.card_enc.voc(v)); }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && true implies self.rub(x) by { }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Card as BoundLower>::encode_lb nopub dyn
//@ret r
//@ghost start
    let ghost t = *self;
//@ghost end
    proof { if vx_tail is Ok {
        let d = since(collector.cls(), old(collector).cls());
        assert forall|a: Asg| #[trigger] self.tot(a) == t.tot(a) by { assert(self.card_enc.tot(a) == t.card_enc.tot(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) implies t.st(a) && cnf_true(d, a) by { assert(self.card_enc.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) implies t.isout(v) || v >= old(var_manager).next() by { assert(self.card_enc.isout(v)); }
        assert forall|v: nat| #[trigger] self.inp(v) implies t.inp(v) by { assert(self.card_enc.inp(v)); }
        assert forall|v: nat| t.voc(v) implies #[trigger] self.voc(v) by { assert(self.card_enc.voc(v)); }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= t.num() implies self.rlb(x) by { }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Card as BoundBoth>::encode_both nopub dyn
//@ret r
//@sub \+ Clone ==> 
//@ghost start
    let ghost t = *self;
//@ghost end
    proof { if vx_tail is Ok {
        let d = since(collector.cls(), old(collector).cls());
        assert forall|a: Asg| #[trigger] self.tot(a) == t.tot(a) by { assert(self.card_enc.tot(a) == t.card_enc.tot(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) implies t.st(a) && cnf_true(d, a) by { assert(self.card_enc.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) implies t.isout(v) || v >= old(var_manager).next() by { assert(self.card_enc.isout(v)); }
        assert forall|v: nat| #[trigger] self.inp(v) implies t.inp(v) by { assert(self.card_enc.inp(v)); }
        assert forall|v: nat| t.voc(v) implies #[trigger] self.voc(v) by { assert(self.card_enc.voc(v)); }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && true implies self.rub(x) by { }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Card as BoundUpperIncremental>::encode_ub_change nopub dyn
//@ret r
//@ghost start
    let ghost t = *self;
//@ghost end
    proof { if vx_tail is Ok {
        let d = since(collector.cls(), old(collector).cls());
        assert forall|a: Asg| #[trigger] self.tot(a) == t.tot(a) by { assert(self.card_enc.tot(a) == t.card_enc.tot(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) implies t.st(a) && cnf_true(d, a) by { assert(self.card_enc.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) implies t.isout(v) || v >= old(var_manager).next() by { assert(self.card_enc.isout(v)); }
        assert forall|v: nat| #[trigger] self.inp(v) implies t.inp(v) by { assert(self.card_enc.inp(v)); }
        assert forall|v: nat| t.voc(v) implies #[trigger] self.voc(v) by { assert(self.card_enc.voc(v)); }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && true implies self.rub(x) by { }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Card as BoundLowerIncremental>::encode_lb_change nopub dyn
//@ret r
//@ghost start
    let ghost t = *self;
//@ghost end
    proof { if vx_tail is Ok {
        let d = since(collector.cls(), old(collector).cls());
        assert forall|a: Asg| #[trigger] self.tot(a) == t.tot(a) by { assert(self.card_enc.tot(a) == t.card_enc.tot(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) implies t.st(a) && cnf_true(d, a) by { assert(self.card_enc.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) implies t.isout(v) || v >= old(var_manager).next() by { assert(self.card_enc.isout(v)); }
        assert forall|v: nat| #[trigger] self.inp(v) implies t.inp(v) by { assert(self.card_enc.inp(v)); }
        assert forall|v: nat| t.voc(v) implies #[trigger] self.voc(v) by { assert(self.card_enc.voc(v)); }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= t.num() implies self.rlb(x) by { }
    } }
//@end
//@fn src/encodings/pb/simulators.rs <Card as BoundBothIncremental>::encode_both_change nopub dyn
//@ret r
//@sub \+ Clone ==> 
//@ghost start
    let ghost t = *self;
//@ghost end
    proof { if vx_tail is Ok {
        let d = since(collector.cls(), old(collector).cls());
        assert forall|a: Asg| #[trigger] self.tot(a) == t.tot(a) by { assert(self.card_enc.tot(a) == t.card_enc.tot(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) implies t.st(a) && cnf_true(d, a) by { assert(self.card_enc.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) implies t.isout(v) || v >= old(var_manager).next() by { assert(self.card_enc.isout(v)); }
        assert forall|v: nat| #[trigger] self.inp(v) implies t.inp(v) by { assert(self.card_enc.inp(v)); }
        assert forall|v: nat| t.voc(v) implies #[trigger] self.voc(v) by { assert(self.card_enc.voc(v)); }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && true implies self.rub(x) by { }
    } }
//@end
}
