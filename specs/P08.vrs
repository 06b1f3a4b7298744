use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include lit.vrs
//@include assignment.vrs
//@include sem.vrs
//@include clause.vrs
//@include cnf_sem.vrs
//@include atomics.vrs only=lit_impl_lit,clause_impl_lit,lit_impl_cube
//@include enc.vrs
// ---- at most one ----
pub open spec fn amo(l: Seq<Lit>, a: Asg) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> !(tv(a, #[trigger] l[i]) && tv(a, #[trigger] l[j])) }
/// the clauses c, with fresh variables n0..n1, restrict the literals l to at most one and to nothing else
pub open spec fn amo_enc(l: Seq<Lit>, n0: nat, n1: nat, c: Seq<Clause>) -> bool {
    &&& forall|a: Asg| #[trigger] cnf_true(c, a) ==> amo(l, a)
    &&& amo_cpl(l, n0, c)
    &&& cok(c, l, n0, n1)
}
/// every assignment of the literals with at most one of them true extends to a model of the clauses
#[verifier::opaque]
pub open spec fn amo_cpl(l: Seq<Lit>, n0: nat, c: Seq<Clause>) -> bool { forall|a: Asg| #[trigger] amo(l, a) ==> exists|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(c, e) }
pub proof fn lem_cpl(l: Seq<Lit>, n0: nat, c: Seq<Clause>) requires forall|a: Asg| #[trigger] amo(l, a) ==> exists|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(c, e) ensures amo_cpl(l, n0, c) { reveal(amo_cpl); }
pub proof fn lem_amo_agree(l: Seq<Lit>, n: nat, a: Asg, b: Asg) requires bel(l, n), agree(a, b, n) ensures amo(l, a) == amo(l, b)
{
    assert forall|i: int| 0 <= i < l.len() implies tv(a, #[trigger] l[i]) == tv(b, l[i]) by { lem_tv_agree(l[i], n, a, b); }
}
pub proof fn lem_amo_sub(l: Seq<Lit>, x: int, y: int, a: Asg) requires amo(l, a), 0 <= x <= y <= l.len() ensures amo(l.subrange(x, y), a)
{
    let s = l.subrange(x, y);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies !(tv(a, #[trigger] s[i]) && tv(a, #[trigger] s[j])) by { assert(s[i] == l[x + i]); assert(s[j] == l[x + j]); }
}
/// 'ext' is what has been collected so far extends `base(a)` (fixed below m) to a model whenever at most one literal is true
pub open spec fn extends(l: Seq<Lit>, base: spec_fn(Asg) -> Asg, m: nat, c: Seq<Clause>) -> bool {
    forall|a: Asg| #[trigger] amo(l, a) ==> exists|e: Asg| agree(base(a), e, m) && #[trigger] cnf_true(c, e)
}
/// clauses over variables below m that are true under base(a)
pub proof fn lem_ext_direct(l: Seq<Lit>, base: spec_fn(Asg) -> Asg, m: nat, c: Seq<Clause>, d: Seq<Clause>)
    requires extends(l, base, m, c), bnd(d, m), forall|a: Asg| #[trigger] amo(l, a) ==> cnf_true(d, base(a)),
    ensures extends(l, base, m, c + d),
{
    assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(base(a), e, m) && #[trigger] cnf_true(c + d, e) by {
        let e = choose|e: Asg| agree(base(a), e, m) && #[trigger] cnf_true(c, e);
        lem_cnf_agree(d, m, base(a), e);
        lem_cnf_add(c, d, e);
    }
}
/// the clauses of a sub-encoding
pub proof fn lem_ext_sub(l: Seq<Lit>, base: spec_fn(Asg) -> Asg, m: nat, c: Seq<Clause>, n: nat, sub: Seq<Lit>, n2: nat, d: Seq<Clause>)
    requires extends(l, base, m, c), bnd(c, n), m <= n, amo_enc(sub, n, n2, d), bel(sub, m), forall|a: Asg| #[trigger] amo(l, a) ==> amo(sub, base(a)),
    ensures extends(l, base, m, c + d),
{
    assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(base(a), e, m) && #[trigger] cnf_true(c + d, e) by {
        let e = choose|e: Asg| agree(base(a), e, m) && #[trigger] cnf_true(c, e);
        lem_amo_agree(sub, m, base(a), e);
        assert(exists|f: Asg| agree(e, f, n) && #[trigger] cnf_true(d, f)) by { reveal(amo_cpl); }
        let f = choose|f: Asg| agree(e, f, n) && #[trigger] cnf_true(d, f);
        lem_cnf_agree(c, n, e, f);
        assert(agree(base(a), f, m));
        lem_cnf_add(c, d, f);
    }
}
/// the statistics tell what the last (first) encoding added
pub trait Encode: Sized {
    spec fn lits(&self) -> Seq<Lit>;
    spec fn nc(&self) -> nat;
    spec fn nv(&self) -> nat;
    /// type parameters are sensible (split size not zero)
    spec fn okp() -> bool;
    fn n_lits(&self) -> (r: usize) ensures r == self.lits().len();
    fn n_clauses(&self) -> (r: usize) ensures r == self.nc();
    fn n_vars(&self) -> (r: u32) ensures r == self.nv();
    fn from_vec(lits: Vec<Lit>) -> (r: Self) ensures r.lits() == lits@, r.nc() == 0, r.nv() == 0;
    fn from_iter(iter: Vec<Lit>) -> (r: Self) ensures r.lits() == iter@, r.nc() == 0, r.nv() == 0;
    fn extend(&mut self, iter: Vec<Lit>) ensures final(self).lits() == old(self).lits() + iter@, final(self).nc() == old(self).nc(), final(self).nv() == old(self).nv();
    fn encode<Col: CollectClauses, VxD0: ManageVars>(&mut self, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>)
        requires Self::okp(), bel(old(self).lits(), old(var_manager).next()), old(self).lits().len() <= u32::MAX, old(self).nc() == 0, old(self).nv() == 0,
        ensures final(self).lits() == old(self).lits(), final(var_manager).next() >= old(var_manager).next(),
            r is Ok ==> final(collector).cls() == old(collector).cls() + since(final(collector).cls(), old(collector).cls()),
            r is Ok ==> amo_enc(old(self).lits(), old(var_manager).next(), final(var_manager).next(), since(final(collector).cls(), old(collector).cls())),
            r is Ok ==> final(self).nc() == since(final(collector).cls(), old(collector).cls()).len(),
            r is Ok ==> final(self).nv() == final(var_manager).next() - old(var_manager).next();
}
pub proof fn lem_amo_small(l: Seq<Lit>, n: nat) requires l.len() <= 1 ensures amo_enc(l, n, n, Seq::empty())
{
    assert(amo_cpl(l, n, Seq::empty())) by {
    assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(a, e, n) && #[trigger] cnf_true(Seq::empty(), e) by { assert(agree(a, a, n) && cnf_true(Seq::empty(), a)); }
        lem_cpl(l, n, Seq::empty());
    }
}
// ---- pairwise ----
//@struct src/encodings/am1/pairwise.rs Pairwise
pub open spec fn neq2(l: Seq<Lit>, i: int, j: int, s: Seq<Lit>) -> bool { s == seq![l[i].opp(), l[j].opp()] }
pub open spec fn pair_in(l: Seq<Lit>, i: int, j: int, c: Seq<Clause>) -> bool { exists|k: int| 0 <= k < c.len() && neq2(l, i, j, (#[trigger] c[k]).s()) }
pub open spec fn is_pair(l: Seq<Lit>, s: Seq<Lit>) -> bool { exists|i: int, j: int| 0 <= i < j < l.len() && #[trigger] neq2(l, i, j, s) }
pub proof fn lem_pair_push(l: Seq<Lit>, c: Seq<Clause>, d: Clause)
    ensures forall|i: int, j: int| pair_in(l, i, j, c) ==> #[trigger] pair_in(l, i, j, c.push(d)), forall|i: int, j: int| #[trigger] neq2(l, i, j, d.s()) ==> pair_in(l, i, j, c.push(d)),
{
    let e = c.push(d);
    assert forall|i: int, j: int| pair_in(l, i, j, c) implies #[trigger] pair_in(l, i, j, e) by { let k = choose|k: int| 0 <= k < c.len() && neq2(l, i, j, (#[trigger] c[k]).s()); assert(e[k] == c[k]); }
    assert forall|i: int, j: int| #[trigger] neq2(l, i, j, d.s()) implies pair_in(l, i, j, e) by { assert(e[c.len() as int] == d); }
}
pub proof fn lem_pairwise(l: Seq<Lit>, c: Seq<Clause>, n: nat)
    requires forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] pair_in(l, i, j, c), forall|k: int| 0 <= k < c.len() ==> is_pair(l, (#[trigger] c[k]).s()),
    ensures amo_enc(l, n, n, c),
{
    lem_opp_all();
    assert forall|a: Asg| #[trigger] cnf_true(c, a) implies amo(l, a) by {
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies !(tv(a, #[trigger] l[i]) && tv(a, #[trigger] l[j])) by {
            assert(pair_in(l, i, j, c));
            let k = choose|k: int| 0 <= k < c.len() && neq2(l, i, j, (#[trigger] c[k]).s());
            assert(cl_true(c[k].s(), a));
        }
    }
    assert(amo_cpl(l, n, c)) by {
    assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(a, e, n) && #[trigger] cnf_true(c, e) by {
        assert forall|k: int| 0 <= k < c.len() implies cl_true((#[trigger] c[k]).s(), a) by {
            let s = c[k].s();
            assert(is_pair(l, s));
            let (i, j) = choose|i: int, j: int| 0 <= i < j < l.len() && #[trigger] neq2(l, i, j, s);
            assert(s[0] == l[i].opp() && s[1] == l[j].opp());
            assert(!(tv(a, l[i]) && tv(a, l[j])));
        }
        assert(agree(a, a, n) && cnf_true(c, a));
    }
        lem_cpl(l, n, c);
    }
    assert forall|k: int| 0 <= k < c.len() implies vok((#[trigger] c[k]).s(), l, n, n) by {
        let s = c[k].s();
        assert(is_pair(l, s));
        let (i, j) = choose|i: int, j: int| 0 <= i < j < l.len() && #[trigger] neq2(l, i, j, s);
        assert(l[i].v() == l[i].opp().v() && l[j].v() == l[j].opp().v());
    }
}
impl Encode for Pairwise {
    open spec fn lits(&self) -> Seq<Lit> { self.in_lits@ }
    open spec fn nc(&self) -> nat { self.n_clauses as nat }
    open spec fn nv(&self) -> nat { 0 }
    open spec fn okp() -> bool { true }
//@fn src/encodings/am1/pairwise.rs <Pairwise as Encode>::n_lits
//@ret r
//@end
//@fn src/encodings/am1/pairwise.rs <Pairwise as EncodeStats>::n_clauses
//@ret r
//@end
//@fn src/encodings/am1/pairwise.rs <Pairwise as EncodeStats>::n_vars
//@ret r
//@end
//@fn src/encodings/am1/pairwise.rs <Pairwise as From<Vec<Lit>>>::from as=from_vec
//@ret r
//@sub Default::default\(\) ==> 0
//@end
//@fn src/encodings/am1/pairwise.rs <Pairwise as FromIterator<Lit>>::from_iter inst=T:Vec<Lit> chains=loop
//@ret r
//@sub Default::default\(\) ==> 0
//@loop 0 iter=it
    invariant it.seq() == iter@, vx_acc0@ == iter@.take(it.index@ as int),
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/pairwise.rs <Pairwise as Extend<Lit>>::extend inst=T:Vec<Lit> chains=loop
//@loop 0 iter=it
    invariant it.seq() == iter@, self.in_lits@ == old(self).in_lits@ + iter@.take(it.index@ as int), self.n_clauses == old(self).n_clauses,
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/pairwise.rs <Pairwise as Encode>::encode dyn chains=loop lazy=Clause
//@ret r
//@ghost start
    let ghost l0 = self.in_lits@;
//@loop 0 iter=it
    invariant l0 == self.in_lits@, lits@ == l0, it.seq().len() == l0.len(), forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i,
        forall|i: int, j: int| 0 <= i < it.index@ && i < j < l0.len() ==> #[trigger] pair_in(l0, i, j, vx_acc0@), forall|k: int| 0 <= k < vx_acc0@.len() ==> is_pair(l0, (#[trigger] vx_acc0@[k]).s()),
//@loop 1 iter=it2
    invariant l0 == self.in_lits@, lits@ == l0, first == it.index@, first < l0.len(), it2.seq().len() == l0.len() - first - 1, forall|i: int| 0 <= i < it2.seq().len() ==> it2.seq()[i] == first + 1 + i,
        forall|i: int, j: int| 0 <= i < it.index@ && i < j < l0.len() ==> #[trigger] pair_in(l0, i, j, vx_acc0@), forall|k: int| 0 <= k < vx_acc0@.len() ==> is_pair(l0, (#[trigger] vx_acc0@[k]).s()),
        forall|j: int| first < j <= first + it2.index@ ==> #[trigger] pair_in(l0, first as int, j, vx_acc0@),
//@ghost loop 1 start
    let ghost acc = vx_acc0@;
//@ghost loop 1 end
    proof {
        let j = first + 1 + it2.index@;
        assert(neq2(l0, first as int, j, vx_acc0@[acc.len() as int].s()));
        lem_pair_push(l0, acc, vx_acc0@[acc.len() as int]);
        assert(vx_acc0@ =~= acc.push(vx_acc0@[acc.len() as int]));
    }
//@ghost call extend_clauses 0 before
    let ghost d = clause_iter@;
    proof { lem_pairwise(l0, d, _var_manager.next()); lem_since(collector.cls(), collector.cls(), d); }
//@end
}
// ---- ladder ----
//@struct src/encodings/am1/ladder.rs Ladder
/// the step variables are set below the first true literal
pub open spec fn step(l: Seq<Lit>, a: Asg, i: int) -> bool { exists|j: int| i < j < l.len() && tv(a, #[trigger] l[j]) }
pub open spec fn lad_base(l: Seq<Lit>, n0: nat) -> spec_fn(Asg) -> Asg { |a: Asg| |v: nat| if v < n0 { a(v) } else { step(l, a, v - n0) } }
pub open spec fn lad_aux(x: Seq<Lit>, n0: nat, m: int) -> bool { x.len() == m && forall|i: int| 0 <= i < m ==> #[trigger] x[i] == Lit::mk((n0 + i) as nat, false) && x[i].v() == n0 + i && !x[i].neg() }
/// consecutive steps
pub open spec fn lad_chain(x: Seq<Lit>, c: Seq<Clause>, m: int) -> bool {
    c.len() == m && forall|i: int| 0 <= i < m ==> mentions((#[trigger] c[i]).s(), seq![x[i + 1]], seq![x[i]]) && forall|s: Asg| #[trigger] cl_true(c[i].s(), s) <==> (tv(s, x[i + 1]) ==> tv(s, x[i]))
}
/// the channelling cube of input i
pub open spec fn lad_cube(x: Seq<Lit>, n: int, i: int) -> Seq<Lit> {
    (if i > 0 { seq![x[i - 1]] } else { Seq::<Lit>::empty() }) + (if i < n - 1 { seq![x[i].opp()] } else { Seq::<Lit>::empty() })
}
pub open spec fn lad_sound(l: Seq<Lit>, x: Seq<Lit>, c: Seq<Clause>, m: int) -> bool {
    forall|a: Asg, i: int| #![trigger cnf_true(c, a), l[i]] cnf_true(c, a) && 0 <= i < m && tv(a, l[i]) ==> (i > 0 ==> tv(a, x[i - 1])) && (i < l.len() - 1 ==> !tv(a, x[i]))
}
pub open spec fn lad_mono(x: Seq<Lit>, c: Seq<Clause>) -> bool { forall|a: Asg, i: int| #![trigger cnf_true(c, a), x[i]] cnf_true(c, a) && 0 <= i < x.len() - 1 && tv(a, x[i + 1]) ==> tv(a, x[i]) }
pub proof fn lem_lad_down(x: Seq<Lit>, a: Asg, i: int, j: int)
    requires forall|i: int| 0 <= i < x.len() - 1 && tv(a, x[i + 1]) ==> tv(a, #[trigger] x[i]), 0 <= i <= j < x.len(), tv(a, x[j]),
    ensures tv(a, x[i]),
    decreases j - i
{ if i < j { assert(tv(a, x[(j - 1) + 1])); assert(tv(a, x[j - 1])); lem_lad_down(x, a, i, j - 1); } }
pub proof fn lem_lad_base(l: Seq<Lit>, x: Seq<Lit>, n0: nat, a: Asg)
    requires lad_aux(x, n0, l.len() - 1), bel(l, n0),
    ensures forall|i: int| 0 <= i < x.len() ==> tv(lad_base(l, n0)(a), #[trigger] x[i]) == step(l, a, i), agree(a, lad_base(l, n0)(a), n0),
        forall|i: int| 0 <= i < l.len() ==> tv(lad_base(l, n0)(a), #[trigger] l[i]) == tv(a, l[i]),
{}
pub proof fn lem_lad_chain(l: Seq<Lit>, x: Seq<Lit>, n0: nat, c: Seq<Clause>)
    requires lad_aux(x, n0, l.len() - 1), bel(l, n0), lad_chain(x, c, l.len() - 2), l.len() >= 2,
    ensures extends(l, lad_base(l, n0), n0 + x.len(), c), cok(c, l, n0, n0 + x.len()), lad_sound(l, x, c, 0), lad_mono(x, c),
{
    assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(lad_base(l, n0)(a), e, n0 + x.len()) && #[trigger] cnf_true(c, e) by {
        let e = lad_base(l, n0)(a);
        lem_lad_base(l, x, n0, a);
        assert forall|i: int| 0 <= i < c.len() implies cl_true((#[trigger] c[i]).s(), e) by {
            if tv(e, x[i + 1]) { let j = choose|j: int| i + 1 < j < l.len() && tv(a, #[trigger] l[j]); assert(tv(a, l[j])); assert(step(l, a, i)); assert(tv(e, x[i])); }
        }
        assert(agree(e, e, n0 + x.len()) && cnf_true(c, e));
    }
    assert forall|i: int| 0 <= i < c.len() implies vok((#[trigger] c[i]).s(), l, n0, n0 + x.len()) by {
        lem_mention_vok(c[i].s(), seq![x[i + 1]], seq![x[i]], l, n0, n0 + x.len());
    }
    assert forall|a: Asg, i: int| #![trigger cnf_true(c, a), x[i]] cnf_true(c, a) && 0 <= i < x.len() - 1 && tv(a, x[i + 1]) implies tv(a, x[i]) by { assert(cl_true(c[i].s(), a)); }
}
pub proof fn lem_lad_step(l: Seq<Lit>, x: Seq<Lit>, n0: nat, c: Seq<Clause>, i: int, d: Seq<Clause>)
    requires lad_aux(x, n0, l.len() - 1), bel(l, n0), 0 <= i < l.len(), l.len() >= 2, cnf_mentions(d, seq![l[i]], lad_cube(x, l.len() as int, i)),
        forall|s: Asg| #[trigger] cnf_true(d, s) <==> (tv(s, l[i]) ==> cube_true(lad_cube(x, l.len() as int, i), s)),
        extends(l, lad_base(l, n0), n0 + x.len(), c), cok(c, l, n0, n0 + x.len()), lad_sound(l, x, c, i), lad_mono(x, c),
    ensures extends(l, lad_base(l, n0), n0 + x.len(), c + d), cok(c + d, l, n0, n0 + x.len()), lad_sound(l, x, c + d, i + 1), lad_mono(x, c + d),
{
    let q = lad_cube(x, l.len() as int, i);
    let m = n0 + x.len();
    lem_opp_all();
    assert(var_in(l[i].v(), l));
    assert forall|k: int| 0 <= k < q.len() implies lok(#[trigger] q[k], l, n0, m) by {}
    lem_mention_ok(d, seq![l[i]], q, l, n0, m);
    lem_cok_add(c, d, l, n0, m, m);
    lem_cok_bnd(d, l, n0, m);
    assert forall|a: Asg| #[trigger] amo(l, a) implies cnf_true(d, lad_base(l, n0)(a)) by {
        let e = lad_base(l, n0)(a);
        lem_lad_base(l, x, n0, a);
        if tv(e, l[i]) {
            assert(tv(a, l[i]));
            assert forall|k: int| 0 <= k < q.len() implies tv(e, #[trigger] q[k]) by {
                if q[k] == x[i - 1] && i > 0 && k == 0 { assert(step(l, a, i - 1)); assert(tv(e, x[i - 1])); }
                else { assert(q[k] == x[i].opp()); if step(l, a, i) { let j = choose|j: int| i < j < l.len() && tv(a, #[trigger] l[j]); assert(!(tv(a, l[i]) && tv(a, l[j]))); } assert(!tv(e, x[i])); }
            }
        }
    }
    lem_ext_direct(l, lad_base(l, n0), m, c, d);
    lem_cnf_add_all(c, d);
    assert forall|a: Asg, k: int| #![trigger cnf_true(c + d, a), l[k]] cnf_true(c + d, a) && 0 <= k < i + 1 && tv(a, l[k]) implies (k > 0 ==> tv(a, x[k - 1])) && (k < l.len() - 1 ==> !tv(a, x[k])) by {
        assert(cnf_true(c, a) && cnf_true(d, a));
        if k == i {
            if i > 0 { assert(tv(a, q[0])); }
            if i < l.len() - 1 { assert(tv(a, q[q.len() - 1])); }
        }
    }
}
pub proof fn lem_lad_done(l: Seq<Lit>, x: Seq<Lit>, n0: nat, c: Seq<Clause>)
    requires lad_aux(x, n0, l.len() - 1), bel(l, n0), l.len() >= 2, extends(l, lad_base(l, n0), n0 + x.len(), c), cok(c, l, n0, n0 + x.len()), lad_sound(l, x, c, l.len() as int), lad_mono(x, c),
    ensures amo_enc(l, n0, n0 + x.len(), c),
{
    assert forall|a: Asg| #[trigger] cnf_true(c, a) implies amo(l, a) by {
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies !(tv(a, #[trigger] l[i]) && tv(a, #[trigger] l[j])) by {
            if tv(a, l[i]) && tv(a, l[j]) {
                assert(tv(a, x[j - 1]));
                assert forall|i: int| 0 <= i < x.len() - 1 && tv(a, x[i + 1]) implies tv(a, #[trigger] x[i]) by { assert(cnf_true(c, a)); }
                lem_lad_down(x, a, i, j - 1);
            }
        }
    }
    assert(amo_cpl(l, n0, c)) by {
    assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(c, e) by {
        let e = choose|e: Asg| agree(lad_base(l, n0)(a), e, n0 + x.len()) && #[trigger] cnf_true(c, e);
        assert(agree(a, e, n0)) by { assert forall|i: nat| i < n0 implies #[trigger] a(i) == e(i) by { assert(lad_base(l, n0)(a)(i) == a(i)); } }
    }
        lem_cpl(l, n0, c);
    }
}
impl Encode for Ladder {
    open spec fn lits(&self) -> Seq<Lit> { self.in_lits@ }
    open spec fn nc(&self) -> nat { self.n_clauses as nat }
    open spec fn nv(&self) -> nat { self.n_vars as nat }
    open spec fn okp() -> bool { true }
//@fn src/encodings/am1/ladder.rs <Ladder as Encode>::n_lits id=ladder::n_lits
//@ret r
//@end
//@fn src/encodings/am1/ladder.rs <Ladder as EncodeStats>::n_clauses id=ladder::n_clauses
//@ret r
//@end
//@fn src/encodings/am1/ladder.rs <Ladder as EncodeStats>::n_vars id=ladder::n_vars
//@ret r
//@end
//@fn src/encodings/am1/ladder.rs <Ladder as From<Vec<Lit>>>::from id=ladder::from as=from_vec
//@ret r
//@end
//@fn src/encodings/am1/ladder.rs <Ladder as FromIterator<Lit>>::from_iter id=ladder::from_iter inst=T:Vec<Lit> chains=loop
//@ret r
//@loop 0 iter=it
    invariant it.seq() == iter@, vx_acc0@ == iter@.take(it.index@ as int),
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/ladder.rs <Ladder as Extend<Lit>>::extend id=ladder::extend inst=T:Vec<Lit> chains=loop
//@loop 0 iter=it
    invariant it.seq() == iter@, self.in_lits@ == old(self).in_lits@ + iter@.take(it.index@ as int), self.n_clauses == old(self).n_clauses, self.n_vars == old(self).n_vars,
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/ladder.rs <Ladder as Encode>::encode dyn chains=loop lazy=Clause slices
//@ret r
//@ghost start
    let ghost l0 = self.in_lits@;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    proof { lem_since(c0, c0, Seq::empty()); if l0.len() <= 1 { lem_amo_small(l0, n0); } }
//@rename u32::try_from => vx_u32
//@loop 0 iter=it
    invariant l0 == self.in_lits@, it.seq().len() == l0.len() - 1, l0.len() >= 2, lad_aux(vx_acc0@, n0, it.index@ as int), var_manager.next() == n0 + it.index@, old(self).n_vars == self.n_vars, n0 == old(var_manager).next(),
        c0 == old(collector).cls(), collector.cls() == c0,
//@loop 1 iter=it
    invariant l0 == self.in_lits@, it.seq().len() == l0.len() - 2, l0.len() >= 2, lad_aux(aux_lits@, n0, l0.len() - 1), lad_chain(aux_lits@, vx_acc1@, it.index@ as int), forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i,
//@ghost call extend_clauses 0 before
    proof { lem_since(c0, c0, Seq::empty()); }
//@loop 2 iter=it
    invariant l0 == self.in_lits@, it.seq().len() == l0.len(), l0.len() >= 2, lad_aux(aux_lits@, n0, l0.len() - 1), forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i, bel(l0, n0), l0 == old(self).in_lits@,
        old(self).n_vars == self.n_vars, n0 == old(var_manager).next(), var_manager.next() == n0 + aux_lits@.len(),
        c0 == old(collector).cls(), c0.len() <= collector.cls().len(), collector.cls() == c0 + since(collector.cls(), c0),
        extends(l0, lad_base(l0, n0), n0 + aux_lits@.len(), since(collector.cls(), c0)), cok(since(collector.cls(), c0), l0, n0, n0 + aux_lits@.len()),
        lad_sound(l0, aux_lits@, since(collector.cls(), c0), it.index@ as int), lad_mono(aux_lits@, since(collector.cls(), c0)),
//@ghost loop 2 before
    proof { lem_lad_chain(l0, aux_lits@, n0, since(collector.cls(), c0)); }
//@ghost loop 2 start
    let ghost c1 = collector.cls();
//@ghost call extend_clauses 1 before
    proof { assert(cube@ =~= lad_cube(aux_lits@, l0.len() as int, idx as int)); }
//@ghost loop 2 end
    proof {
        let d = since(collector.cls(), c1);
        lem_since_all(c0, c1);
        lem_lad_step(l0, aux_lits@, n0, since(c1, c0), idx as int, d);
    }
//@ghost loop 2 after
    proof { lem_lad_done(l0, aux_lits@, n0, since(collector.cls(), c0)); }
//@end
}
// ---- bitwise ----
//@include digits.vrs
//@struct src/encodings/am1/bitwise.rs Bitwise
pub open spec fn aux_ok(x: Seq<Var>, n0: nat, m: int) -> bool { x.len() == m && forall|i: int| 0 <= i < m ==> (#[trigger] x[i]).i() == n0 + i && x[i].wf() }
/// the index of a true literal
pub open spec fn wit(l: Seq<Lit>, a: Asg) -> int { choose|w: int| 0 <= w < l.len() && tv(a, #[trigger] l[w]) }
pub proof fn lem_wit(l: Seq<Lit>, a: Asg, i: int) requires amo(l, a), 0 <= i < l.len(), tv(a, l[i]) ensures wit(l, a) == i
{
    let w = wit(l, a);
    assert(0 <= w < l.len() && tv(a, l[w]));
    if w < i { assert(!(tv(a, l[w]) && tv(a, l[i]))); }
    if i < w { assert(!(tv(a, l[i]) && tv(a, l[w]))); }
}
pub open spec fn bit_at(s: Asg, n0: nat, k: int, i: int) -> bool { s((n0 + k) as nat) == bit(i as usize, k as usize) }
pub open spec fn bits_done(l: Seq<Lit>, n0: nat, p: int, i1: int, k1: int, s: Asg) -> bool {
    forall|i: int, k: int| 0 <= i < l.len() && 0 <= k < p && (i < i1 || i == i1 && k < k1) && tv(s, #[trigger] l[i]) ==> #[trigger] bit_at(s, n0, k, i)
}
pub open spec fn bit_base(l: Seq<Lit>, g: int, n0: nat) -> spec_fn(Asg) -> Asg { |a: Asg| |v: nat| if v < n0 { a(v) } else { bit((wit(l, a) / g) as usize, (v - n0) as usize) } }
pub proof fn lem_bitwise(l: Seq<Lit>, n0: nat, p: int, c: Seq<Clause>)
    requires forall|s: Asg| #[trigger] cnf_true(c, s) <==> bits_done(l, n0, p, l.len() as int, 0, s), cok(c, l, n0, (n0 + p) as nat), bel(l, n0), 0 <= p <= 64, l.len() <= pw(2, p as nat), l.len() <= usize::MAX,
    ensures amo_enc(l, n0, (n0 + p) as nat, c),
{
    assert forall|a: Asg| #[trigger] cnf_true(c, a) implies amo(l, a) by {
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies !(tv(a, #[trigger] l[i]) && tv(a, #[trigger] l[j])) by {
            if tv(a, l[i]) && tv(a, l[j]) {
                assert forall|k: usize| k < p as usize implies #[trigger] bit(i as usize, k) == bit(j as usize, k) by { assert(bit_at(a, n0, k as int, i)); assert(bit_at(a, n0, k as int, j)); }
                lem_bits_eq(i as usize, j as usize, p as usize);
            }
        }
    }
    assert(amo_cpl(l, n0, c)) by {
    assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(c, e) by {
        let e = bit_base(l, 1, n0)(a);
        assert(agree(a, e, n0));
        assert forall|i: int, k: int| 0 <= i < l.len() && 0 <= k < p && tv(e, #[trigger] l[i]) implies #[trigger] bit_at(e, n0, k, i) by {
            lem_tv_agree(l[i], n0, a, e);
            lem_wit(l, a, i);
            assert(i / 1 == i);
        }
        assert(cnf_true(c, e));
    }
        lem_cpl(l, n0, c);
    }
}
impl Encode for Bitwise {
    open spec fn lits(&self) -> Seq<Lit> { self.in_lits@ }
    open spec fn nc(&self) -> nat { self.n_clauses as nat }
    open spec fn nv(&self) -> nat { self.n_vars as nat }
    open spec fn okp() -> bool { true }
//@fn src/encodings/am1/bitwise.rs <Bitwise as Encode>::n_lits id=bitwise::n_lits
//@ret r
//@end
//@fn src/encodings/am1/bitwise.rs <Bitwise as EncodeStats>::n_clauses id=bitwise::n_clauses
//@ret r
//@end
//@fn src/encodings/am1/bitwise.rs <Bitwise as EncodeStats>::n_vars id=bitwise::n_vars
//@ret r
//@end
//@fn src/encodings/am1/bitwise.rs <Bitwise as From<Vec<Lit>>>::from id=bitwise::from as=from_vec
//@ret r
//@end
//@fn src/encodings/am1/bitwise.rs <Bitwise as FromIterator<Lit>>::from_iter id=bitwise::from_iter inst=T:Vec<Lit> chains=loop
//@ret r
//@loop 0 iter=it
    invariant it.seq() == iter@, vx_acc0@ == iter@.take(it.index@ as int),
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/bitwise.rs <Bitwise as Extend<Lit>>::extend id=bitwise::extend inst=T:Vec<Lit> chains=loop
//@loop 0 iter=it
    invariant it.seq() == iter@, self.in_lits@ == old(self).in_lits@ + iter@.take(it.index@ as int), self.n_clauses == old(self).n_clauses, self.n_vars == old(self).n_vars,
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/bitwise.rs <Bitwise as Encode>::encode dyn chains=loop lazy=Clause inline
//@ret r
//@ghost start
    let ghost l0 = self.in_lits@;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    proof { lem_since(c0, c0, Seq::empty()); lem_since_all(c0, c0); if l0.len() <= 1 { lem_amo_small(l0, n0); } }
//@loop 0 iter=it
    invariant l0 == self.in_lits@, aux_ok(vx_acc0@, n0, it.index@ as int), it.seq().len() == p, var_manager.next() == n0 + it.index@, old(self).n_vars == self.n_vars, n0 == old(var_manager).next(),
        c0 == old(collector).cls(), collector.cls() == c0,
//@loop 1 iter=it
    invariant l0 == self.in_lits@, it.seq().len() == l0.len(), forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i, bel(l0, n0), p <= 64, aux_ok(aux_vars@, n0, p as int),
        cok(vx_acc1@, l0, n0, n0 + p as nat), forall|s: Asg| #[trigger] cnf_true(vx_acc1@, s) <==> bits_done(l0, n0, p as int, it.index@ as int, 0, s),
//@loop 2 iter=it2
    invariant l0 == self.in_lits@, idx < l0.len(), it2.seq().len() == p, forall|i: int| 0 <= i < it2.seq().len() ==> it2.seq()[i] == i, bel(l0, n0), p <= 64, aux_ok(aux_vars@, n0, p as int),
        cok(vx_acc1@, l0, n0, n0 + p as nat), forall|s: Asg| #[trigger] cnf_true(vx_acc1@, s) <==> bits_done(l0, n0, p as int, idx as int, it2.index@ as int, s),
//@ghost loop 2 start
    let ghost acc = vx_acc1@;
    let ghost kk = it2.index@ as int;
//@ghost loop 2 end
    proof {
        let d = vx_acc1@[acc.len() as int];
        assert(vx_acc1@ =~= acc.push(d));
        lem_cnf_push_all(acc, d);
        let q = Lit::mk((n0 + kk) as nat, !bit(idx, kk as usize));
        assert(q.v() == n0 + kk && q.neg() == !bit(idx, kk as usize));
        assert(l0[idx as int].v() < n0);
        assert(lok(l0[idx as int], l0, n0, n0 + p as nat)) by { assert(var_in(l0[idx as int].v(), l0)); }
        lem_mention_vok(d.s(), seq![l0[idx as int]], seq![q], l0, n0, n0 + p as nat);
        lem_cok_push(acc, d, l0, n0, n0 + p as nat);
        assert forall|s: Asg| #[trigger] cnf_true(vx_acc1@, s) <==> bits_done(l0, n0, p as int, idx as int, kk + 1, s) by {
            assert(cnf_true(acc.push(d), s) == (cnf_true(acc, s) && cl_true(d.s(), s)));
            assert(cl_true(d.s(), s) <==> (tv(s, l0[idx as int]) ==> bit_at(s, n0, kk, idx as int)));
        }
    }
//@ghost loop 2 after
    proof { assert forall|s: Asg| #[trigger] bits_done(l0, n0, p as int, idx as int, p as int, s) == bits_done(l0, n0, p as int, idx + 1, 0, s) by {} }
//@ghost call extend_clauses 0 before
    proof { assert(forall|s: Asg| #[trigger] bits_done(l0, n0, p as int, 0, 0, s)); }
//@ghost end
    proof { lem_bitwise(l0, n0, p as int, since(collector.cls(), c0)); }
//@end
}
// ---- splits ----
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a + b - 1) / (b as int);
pub open spec fn mn(a: int, b: int) -> int { if a < b { a } else { b } }
/// the s-th group of g literals
pub open spec fn sl(l: Seq<Lit>, g: int, s: int) -> Seq<Lit> { l.subrange(s * g, mn(l.len() as int, (s + 1) * g)) }
pub proof fn lem_splits(n: int, g: int, m: int)
    requires n >= 1, g >= 1, m == (n + g - 1) / g,
    ensures 1 <= m <= n, (m - 1) * g < n <= m * g, m == 1 || g < n,
        forall|s: int| 0 <= s < m ==> 0 <= #[trigger] (s * g) < n,
        forall|s: int| 0 <= s < m ==> s * g < #[trigger] ((s + 1) * g) <= m * g,
{
    assert((m - 1) * g < n <= m * g && 1 <= m) by (nonlinear_arith) requires n >= 1, g >= 1, m == (n + g - 1) / g;
    assert(m <= n) by (nonlinear_arith) requires (m - 1) * g < n, g >= 1, m >= 1;
    assert(m == 1 || g < n) by (nonlinear_arith) requires (m - 1) * g < n, g >= 1, m >= 1;
    assert forall|s: int| 0 <= s < m implies 0 <= #[trigger] (s * g) < n by { assert(0 <= s * g <= (m - 1) * g) by (nonlinear_arith) requires 0 <= s <= m - 1, g >= 1; }
    assert forall|s: int| 0 <= s < m implies s * g < #[trigger] ((s + 1) * g) <= m * g by { assert(s * g < (s + 1) * g <= m * g) by (nonlinear_arith) requires 0 <= s <= m - 1, g >= 1; }
}
pub proof fn lem_split_at(n: int, g: int, m: int, i: int)
    requires n >= 1, g >= 1, m == (n + g - 1) / g, 0 <= i < n,
    ensures 0 <= i / g < m, (i / g) * g <= i < (i / g + 1) * g, i / g <= i,
{
    lem_splits(n, g, m);
    let q = i / g;
    assert(q * g <= i < (q + 1) * g && 0 <= q <= i) by (nonlinear_arith) requires q == i / g, g >= 1, i >= 0;
    assert(q < m) by (nonlinear_arith) requires q * g <= i, i < n, n <= m * g, g >= 1;
}
/// a true literal makes its group true
pub proof fn lem_split_true(l: Seq<Lit>, g: int, m: int, i: int, a: Asg)
    requires g >= 1, m == (l.len() + g - 1) / g, 0 <= i < l.len(), tv(a, l[i]),
    ensures 0 <= i / g < m, cl_true(sl(l, g, i / g), a), 0 <= i - (i / g) * g < sl(l, g, i / g).len(), sl(l, g, i / g)[i - (i / g) * g] == l[i],
{
    lem_split_at(l.len() as int, g, m, i);
    let q = i / g;
    lem_splits(l.len() as int, g, m);
    assert(0 <= q * g < l.len());
    let s = sl(l, g, q);
    assert(s[i - q * g] == l[i]);
}
/// from the groups (and their selectors) to all literals
pub proof fn lem_split_amo(l: Seq<Lit>, g: int, m: int, a: Asg)
    requires l.len() >= 1, g >= 1, m == (l.len() + g - 1) / g, forall|t: int| 0 <= t < m ==> amo(#[trigger] sl(l, g, t), a),
        forall|t: int, u: int| 0 <= t < u < m ==> !(cl_true(#[trigger] sl(l, g, t), a) && cl_true(#[trigger] sl(l, g, u), a)),
    ensures amo(l, a),
{
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !(tv(a, #[trigger] l[i]) && tv(a, #[trigger] l[j])) by {
        if tv(a, l[i]) && tv(a, l[j]) {
            lem_split_true(l, g, m, i, a);
            lem_split_true(l, g, m, j, a);
            let (q, r) = (i / g, j / g);
            if q == r { let s = sl(l, g, q); assert(amo(s, a)); assert(tv(a, s[i - q * g]) && tv(a, s[j - q * g])); }
        }
    }
}
/// literals of different groups are not true together
pub proof fn lem_split_one(l: Seq<Lit>, g: int, m: int, t: int, u: int, a: Asg)
    requires amo(l, a), g >= 1, l.len() >= 1, m == (l.len() + g - 1) / g, 0 <= t < u < m,
    ensures !(cl_true(sl(l, g, t), a) && cl_true(sl(l, g, u), a)),
{
    lem_splits(l.len() as int, g, m);
    let (x, y) = (sl(l, g, t), sl(l, g, u));
    assert((t + 1) * g <= u * g) by (nonlinear_arith) requires t + 1 <= u, g >= 1;
    assert(t * g < (t + 1) * g <= m * g); assert(u * g < (u + 1) * g <= m * g);
    assert(0 <= t * g < l.len()); assert(0 <= u * g < l.len());
    if cl_true(x, a) && cl_true(y, a) {
        let i = choose|i: int| 0 <= i < x.len() && tv(a, #[trigger] x[i]);
        let j = choose|j: int| 0 <= j < y.len() && tv(a, #[trigger] y[j]);
        assert(l[t * g + i] == x[i]); assert(l[u * g + j] == y[j]);
        assert(!(tv(a, l[t * g + i]) && tv(a, l[u * g + j])));
    }
}
pub proof fn lem_sl_in(l: Seq<Lit>, g: int, m: int, t: int, n: nat)
    requires g >= 1, l.len() >= 1, m == (l.len() + g - 1) / g, 0 <= t < m, bel(l, n),
    ensures bel(sl(l, g, t), n), forall|k: int| 0 <= k < sl(l, g, t).len() ==> var_in((#[trigger] sl(l, g, t)[k]).v(), l), sl(l, g, t).len() <= l.len(),
        0 <= t * g < mn(l.len() as int, (t + 1) * g) <= l.len(),
{
    lem_splits(l.len() as int, g, m);
    assert(t * g < (t + 1) * g <= m * g); assert(0 <= t * g < l.len());
    let s = sl(l, g, t);
    assert forall|k: int| 0 <= k < s.len() implies var_in((#[trigger] s[k]).v(), l) && s[k].v() < n by { assert(l[t * g + k] == s[k]); }
}
/// (t + 1) * g does not overflow
pub proof fn lem_split_room(n: int, g: int, m: int, t: int)
    requires 1 <= n <= u32::MAX, 1 <= g <= usize::MAX, m == (n + g - 1) / g, 0 <= t < m,
    ensures 0 <= t * g <= (t + 1) * g <= usize::MAX, t + 1 <= usize::MAX, n + g - 1 >= 0,
{
    lem_splits(n, g, m);
    assert(t * g < (t + 1) * g <= m * g);
    if m == 1 { assert(m * g == g); } else { assert(m * g == (m - 1) * g + g) by (nonlinear_arith); }
}
// ---- commander ----
//@struct src/encodings/am1/commander.rs Commander
pub open spec fn com_base(l: Seq<Lit>, g: int, n0: nat) -> spec_fn(Asg) -> Asg { |a: Asg| |v: nat| if v < n0 { a(v) } else { cl_true(sl(l, g, v - n0), a) } }
/// what the groups below t guarantee
pub open spec fn com_sound(l: Seq<Lit>, g: int, x: Seq<Lit>, t: int, c: Seq<Clause>) -> bool {
    forall|a: Asg, u: int| #![trigger cnf_true(c, a), sl(l, g, u)] cnf_true(c, a) && 0 <= u < t ==> amo(sl(l, g, u), a) && (cl_true(sl(l, g, u), a) ==> tv(a, x[u]))
}
pub proof fn lem_com_base(l: Seq<Lit>, g: int, m: int, x: Seq<Lit>, n0: nat, t: int, a: Asg)
    requires lad_aux(x, n0, m), bel(l, n0), l.len() >= 1, g >= 1, m == (l.len() + g - 1) / g, 0 <= t < m,
    ensures tv(com_base(l, g, n0)(a), x[t]) == cl_true(sl(l, g, t), a), cl_true(sl(l, g, t), com_base(l, g, n0)(a)) == cl_true(sl(l, g, t), a),
        amo(sl(l, g, t), com_base(l, g, n0)(a)) == amo(sl(l, g, t), a), agree(a, com_base(l, g, n0)(a), n0),
{
    let e = com_base(l, g, n0)(a);
    lem_sl_in(l, g, m, t, n0);
    lem_cl_agree(sl(l, g, t), n0, a, e);
    lem_amo_agree(sl(l, g, t), n0, a, e);
    assert(x[t].v() == n0 + t);
}
pub proof fn lem_com_step(l: Seq<Lit>, g: int, m: int, x: Seq<Lit>, n0: nat, t: int, c: Seq<Clause>, n1: nat, d1: Seq<Clause>, d2: Seq<Clause>, n2: nat)
    requires lad_aux(x, n0, m), bel(l, n0), l.len() >= 1, g >= 1, m == (l.len() + g - 1) / g, 0 <= t < m, n0 + m <= n1 <= n2,
        extends(l, com_base(l, g, n0), (n0 + m) as nat, c), cok(c, l, n0, n1), com_sound(l, g, x, t, c),
        forall|s: Asg| #[trigger] cnf_true(d1, s) <==> (cl_true(sl(l, g, t), s) ==> tv(s, x[t])), cnf_mentions(d1, sl(l, g, t), seq![x[t]]),
        amo_enc(sl(l, g, t), n1, n2, d2),
    ensures extends(l, com_base(l, g, n0), (n0 + m) as nat, c + d1 + d2), cok(c + d1 + d2, l, n0, n2), com_sound(l, g, x, t + 1, c + d1 + d2),
{
    let (b, k, z) = (com_base(l, g, n0), (n0 + m) as nat, sl(l, g, t));
    lem_sl_in(l, g, m, t, n0);
    assert(x[t].v() == n0 + t);
    lem_mention_ok(d1, z, seq![x[t]], l, n0, k);
    lem_cok_bnd(d1, l, n0, k);
    assert forall|a: Asg| #[trigger] amo(l, a) implies cnf_true(d1, b(a)) && amo(z, b(a)) by {
        lem_com_base(l, g, m, x, n0, t, a);
        lem_amo_sub(l, t * g, mn(l.len() as int, (t + 1) * g), a);
    }
    lem_ext_direct(l, b, k, c, d1);
    assert(cok(d1, l, n0, n1)) by { assert forall|i: int| 0 <= i < d1.len() implies vok((#[trigger] d1[i]).s(), l, n0, n1) by {} }
    lem_cok_add(c, d1, l, n0, n1, n1);
    lem_cok_bnd(c + d1, l, n0, n1);
    lem_ext_sub(l, b, k, c + d1, n1, z, n2, d2);
    lem_cok_sub(d2, z, n1, n2, l, n0);
    lem_cok_add(c + d1, d2, l, n0, n1, n2);
    lem_cnf_add_all(c, d1); lem_cnf_add_all(c + d1, d2);
    assert forall|a: Asg, u: int| #![trigger cnf_true(c + d1 + d2, a), sl(l, g, u)] cnf_true(c + d1 + d2, a) && 0 <= u < t + 1 implies amo(sl(l, g, u), a) && (cl_true(sl(l, g, u), a) ==> tv(a, x[u])) by {
        assert(cnf_true(c + d1, a) && cnf_true(d2, a)); assert(cnf_true(c, a) && cnf_true(d1, a));
    }
}
pub proof fn lem_com_done(l: Seq<Lit>, g: int, m: int, x: Seq<Lit>, n0: nat, c: Seq<Clause>, n1: nat, d: Seq<Clause>, n2: nat)
    requires lad_aux(x, n0, m), bel(l, n0), l.len() >= 1, g >= 1, m == (l.len() + g - 1) / g, n0 + m <= n1 <= n2,
        extends(l, com_base(l, g, n0), (n0 + m) as nat, c), cok(c, l, n0, n1), com_sound(l, g, x, m, c), amo_enc(x, n1, n2, d),
    ensures amo_enc(l, n0, n2, c + d),
{
    let (b, k) = (com_base(l, g, n0), (n0 + m) as nat);
    lem_cok_bnd(c, l, n0, n1);
    assert forall|a: Asg| #[trigger] amo(l, a) implies amo(x, b(a)) by {
        assert forall|i: int, j: int| 0 <= i < j < x.len() implies !(tv(b(a), #[trigger] x[i]) && tv(b(a), #[trigger] x[j])) by {
            lem_com_base(l, g, m, x, n0, i, a); lem_com_base(l, g, m, x, n0, j, a); lem_split_one(l, g, m, i, j, a);
        }
    }
    lem_ext_sub(l, b, k, c, n1, x, n2, d);
    assert forall|i: int| 0 <= i < x.len() implies lok(#[trigger] x[i], l, n0, n2) by {}
    lem_cok_sub(d, x, n1, n2, l, n0);
    lem_cok_add(c, d, l, n0, n1, n2);
    lem_cnf_add_all(c, d);
    assert forall|a: Asg| #[trigger] cnf_true(c + d, a) implies amo(l, a) by {
        assert(cnf_true(c, a) && amo(x, a));
        assert forall|t: int, u: int| 0 <= t < u < m implies !(cl_true(#[trigger] sl(l, g, t), a) && cl_true(#[trigger] sl(l, g, u), a)) by { assert(!(tv(a, x[t]) && tv(a, x[u]))); }
        lem_split_amo(l, g, m, a);
    }
    assert(amo_cpl(l, n0, c + d)) by {
    assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(c + d, e) by {
        let e = choose|e: Asg| agree(b(a), e, k) && #[trigger] cnf_true(c + d, e);
        assert forall|i: nat| i < n0 implies #[trigger] a(i) == e(i) by { assert(b(a)(i) == e(i)); }
    }
        lem_cpl(l, n0, c + d);
    }
}
impl<const N: usize, Sub: Encode> Encode for Commander<N, Sub> {
    open spec fn lits(&self) -> Seq<Lit> { self.in_lits@ }
    open spec fn nc(&self) -> nat { self.n_clauses as nat }
    open spec fn nv(&self) -> nat { self.n_vars as nat }
    open spec fn okp() -> bool { N > 0 && Sub::okp() }
//@fn src/encodings/am1/commander.rs <Commander<N,Sub> as Encode>::n_lits id=commander::n_lits
//@ret r
//@end
//@fn src/encodings/am1/commander.rs <Commander<N,Sub> as EncodeStats>::n_clauses id=commander::n_clauses
//@ret r
//@end
//@fn src/encodings/am1/commander.rs <Commander<N,Sub> as EncodeStats>::n_vars id=commander::n_vars
//@ret r
//@end
//@fn src/encodings/am1/commander.rs <Commander<N,Sub> as From<Vec<Lit>>>::from id=commander::from as=from_vec
//@ret r
//@end
//@fn src/encodings/am1/commander.rs <Commander<N,Sub> as FromIterator<Lit>>::from_iter id=commander::from_iter inst=T:Vec<Lit> chains=loop
//@ret r
//@loop 0 iter=it
    invariant it.seq() == iter@, vx_acc0@ == iter@.take(it.index@ as int),
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/commander.rs <Commander<N,Sub> as Extend<Lit>>::extend id=commander::extend inst=T:Vec<Lit> chains=loop
//@loop 0 iter=it
    invariant it.seq() == iter@, self.in_lits@ == old(self).in_lits@ + iter@.take(it.index@ as int), self.n_clauses == old(self).n_clauses, self.n_vars == old(self).n_vars,
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/commander.rs <Commander<N,Sub> as Encode>::encode dyn chains=loop lazy=Clause slices collect1=via:Sub::from_iter from_iter=keep
//@ret r
//@rename Sub::from => Sub::from_vec
//@rename std::cmp::min => vx_umin
//@ghost start
    let ghost l0 = self.in_lits@;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    proof { lem_since(c0, c0, Seq::empty()); lem_since_all(c0, c0); if l0.len() <= 1 { lem_amo_small(l0, n0); } }
//@loop 0 iter=it
    invariant l0 == self.in_lits@, it.seq().len() == n_splits, lad_aux(vx_acc0@, n0, it.index@ as int), var_manager.next() == n0 + it.index@, old(self).n_vars == self.n_vars, n0 == old(var_manager).next(),
        c0 == old(collector).cls(), collector.cls() == c0,
//@ghost loop 1 before
    proof {
        assert(extends(l0, com_base(l0, N as int, n0), (n0 + n_splits) as nat, since(c0, c0))) by {
            assert forall|a: Asg| #[trigger] amo(l0, a) implies exists|e: Asg| agree(com_base(l0, N as int, n0)(a), e, (n0 + n_splits) as nat) && #[trigger] cnf_true(since(c0, c0), e) by {
                let e = com_base(l0, N as int, n0)(a);
                assert(agree(e, e, (n0 + n_splits) as nat) && cnf_true(since(c0, c0), e));
            }
        }
    }
//@loop 1 iter=it
    invariant l0 == self.in_lits@, l0 == old(self).in_lits@, it.seq().len() == commanders@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == commanders@[i], it.index@ == vx_i3,
        N > 0, Sub::okp(), bel(l0, n0), 2 <= l0.len() <= u32::MAX, n_splits == (l0.len() + N - 1) / (N as int), lad_aux(commanders@, n0, n_splits as int),
        old(self).n_vars == self.n_vars, n0 == old(var_manager).next(), n0 + n_splits <= var_manager.next(),
        c0 == old(collector).cls(), c0.len() <= collector.cls().len(), collector.cls() == c0 + since(collector.cls(), c0),
        extends(l0, com_base(l0, N as int, n0), (n0 + n_splits) as nat, since(collector.cls(), c0)), cok(since(collector.cls(), c0), l0, n0, var_manager.next()),
        com_sound(l0, N as int, commanders@, it.index@ as int, since(collector.cls(), c0)),
//@ghost loop 1 start
    let ghost c1 = collector.cls();
    let ghost n1 = var_manager.next();
    let ghost t = it.index@ as int;
    proof { lem_splits(l0.len() as int, N as int, n_splits as int); lem_split_room(l0.len() as int, N as int, n_splits as int, t); lem_sl_in(l0, N as int, n_splits as int, t, n0); lem_since_all(c0, c1); }
//@loop 2 iter=it2
    invariant it2.seq().len() == lits@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *#[trigger] it2.seq()[i] == lits@[i], vx_acc1@ =~= lits@.take(it2.index@ as int),
//@ghost call extend_clauses 0 after
    let ghost c2 = collector.cls();
    proof { lem_since_all(c1, c2); lem_since_all(c0, c2); assert(lits@.take(lits@.len() as int) =~= lits@); }
//@ghost loop 1 end
    proof {
        let d1 = since(c2, c1);
        let d2 = since(collector.cls(), c2);
        lem_since(c0, c1, d1); lem_since(c0, c2, d2);
        lem_com_step(l0, N as int, n_splits as int, commanders@, n0, t, since(c1, c0), n1, d1, d2, var_manager.next());
    }
//@ghost let sub 1 before
    let ghost cm = commanders@;
    let ghost c3 = collector.cls();
    let ghost n3 = var_manager.next();
    proof { lem_splits(l0.len() as int, N as int, n_splits as int); lem_since_all(c0, c3); }
//@ghost end
    proof {
        let d = since(collector.cls(), c3);
        lem_since(c0, c3, d);
        lem_com_done(l0, N as int, n_splits as int, cm, n0, since(c3, c0), n3, d, var_manager.next());
    }
//@end
}
// ---- bimander ----
//@struct src/encodings/am1/bimander.rs Bimander
/// what the groups below t (and the first k1 selector bits of group t) guarantee
pub open spec fn bim_sound(l: Seq<Lit>, g: int, n0: nat, p: int, t: int, k1: int, c: Seq<Clause>) -> bool {
    &&& forall|a: Asg, u: int| #![trigger cnf_true(c, a), sl(l, g, u)] cnf_true(c, a) && 0 <= u < t ==> amo(sl(l, g, u), a)
    &&& forall|a: Asg, u: int, k: int| #![trigger cnf_true(c, a), bit_at(a, n0, k, u)] cnf_true(c, a) && 0 <= u && 0 <= k < p && (u < t || u == t && k < k1) && cl_true(sl(l, g, u), a) ==> bit_at(a, n0, k, u)
}
pub open spec fn bim_inv(l: Seq<Lit>, g: int, n0: nat, p: int, t: int, k1: int, c: Seq<Clause>, n: nat) -> bool {
    &&& extends(l, bit_base(l, g, n0), (n0 + p) as nat, c)
    &&& cok(c, l, n0, n)
    &&& bim_sound(l, g, n0, p, t, k1, c)
    &&& n0 + p <= n
}
pub proof fn lem_bim_base(l: Seq<Lit>, g: int, m: int, n0: nat, t: int, k: int, a: Asg)
    requires bel(l, n0), l.len() >= 1, g >= 1, m == (l.len() + g - 1) / g, 0 <= t < m, amo(l, a), 0 <= k < 64, l.len() <= u32::MAX,
    ensures cl_true(sl(l, g, t), bit_base(l, g, n0)(a)) ==> bit_at(bit_base(l, g, n0)(a), n0, k, t),
        amo(sl(l, g, t), bit_base(l, g, n0)(a)), agree(a, bit_base(l, g, n0)(a), n0),
{
    let e = bit_base(l, g, n0)(a);
    let z = sl(l, g, t);
    lem_sl_in(l, g, m, t, n0);
    lem_cl_agree(z, n0, a, e);
    lem_amo_sub(l, t * g, mn(l.len() as int, (t + 1) * g), a);
    lem_amo_agree(z, n0, a, e);
    if cl_true(z, e) {
        let i = choose|i: int| 0 <= i < z.len() && tv(a, #[trigger] z[i]);
        assert(z[i] == l[t * g + i]);
        lem_wit(l, a, t * g + i);
        assert((t + 1) * g == t * g + g) by (nonlinear_arith);
        assert((t * g + i) / g == t) by (nonlinear_arith) requires 0 <= i < g, g >= 1, t >= 0;
        assert((n0 + k - n0) as usize == k as usize);
    }
}
pub proof fn lem_bim_bit(l: Seq<Lit>, g: int, m: int, n0: nat, p: int, t: int, k: int, c: Seq<Clause>, n: nat, q: Lit, d: Seq<Clause>)
    requires bim_inv(l, g, n0, p, t, k, c, n), bel(l, n0), l.len() >= 1, g >= 1, m == (l.len() + g - 1) / g, 0 <= t < m, 0 <= k < p <= 64, l.len() <= u32::MAX,
        q.v() == n0 + k, q.neg() == !bit(t as usize, k as usize),
        forall|s: Asg| #[trigger] cnf_true(d, s) <==> (cl_true(sl(l, g, t), s) ==> tv(s, q)), cnf_mentions(d, sl(l, g, t), seq![q]),
    ensures bim_inv(l, g, n0, p, t, k + 1, c + d, n),
{
    let (b, z, m0) = (bit_base(l, g, n0), sl(l, g, t), (n0 + p) as nat);
    lem_sl_in(l, g, m, t, n0);
    assert(forall|s: Asg| #[trigger] tv(s, q) == bit_at(s, n0, k, t));
    lem_mention_ok(d, z, seq![q], l, n0, m0);
    lem_cok_bnd(d, l, n0, m0);
    assert forall|a: Asg| #[trigger] amo(l, a) implies cnf_true(d, b(a)) by { lem_bim_base(l, g, m, n0, t, k, a); }
    lem_ext_direct(l, b, m0, c, d);
    assert(cok(d, l, n0, n)) by { assert forall|i: int| 0 <= i < d.len() implies vok((#[trigger] d[i]).s(), l, n0, n) by {} }
    lem_cok_add(c, d, l, n0, n, n);
    lem_cnf_add_all(c, d);
    assert forall|a: Asg, u: int| #![trigger cnf_true(c + d, a), sl(l, g, u)] cnf_true(c + d, a) && 0 <= u < t implies amo(sl(l, g, u), a) by { assert(cnf_true(c, a)); }
    assert forall|a: Asg, u: int, k2: int| #![trigger cnf_true(c + d, a), bit_at(a, n0, k2, u)] cnf_true(c + d, a) && 0 <= u && 0 <= k2 < p && (u < t || u == t && k2 < k + 1) && cl_true(sl(l, g, u), a) implies bit_at(a, n0, k2, u) by {
        assert(cnf_true(c, a) && cnf_true(d, a));
        if u == t && k2 == k { assert(tv(a, q)); }
    }
}
pub proof fn lem_bim_group(l: Seq<Lit>, g: int, m: int, n0: nat, p: int, t: int, c: Seq<Clause>, n1: nat, d: Seq<Clause>, n2: nat)
    requires bim_inv(l, g, n0, p, t, p, c, n1), bel(l, n0), l.len() >= 1, g >= 1, m == (l.len() + g - 1) / g, 0 <= t < m, 0 <= p <= 64, n1 <= n2, l.len() <= u32::MAX,
        amo_enc(sl(l, g, t), n1, n2, d),
    ensures bim_inv(l, g, n0, p, t + 1, 0, c + d, n2),
{
    let (b, z, m0) = (bit_base(l, g, n0), sl(l, g, t), (n0 + p) as nat);
    lem_sl_in(l, g, m, t, n0);
    lem_cok_bnd(c, l, n0, n1);
    assert forall|a: Asg| #[trigger] amo(l, a) implies amo(z, b(a)) by { lem_bim_base(l, g, m, n0, t, 0, a); }
    assert(bel(z, m0)) by { assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).v() < m0 by {} }
    lem_ext_sub(l, b, m0, c, n1, z, n2, d);
    lem_cok_sub(d, z, n1, n2, l, n0);
    lem_cok_add(c, d, l, n0, n1, n2);
    lem_cnf_add_all(c, d);
    assert forall|a: Asg, u: int| #![trigger cnf_true(c + d, a), sl(l, g, u)] cnf_true(c + d, a) && 0 <= u < t + 1 implies amo(sl(l, g, u), a) by { assert(cnf_true(c, a) && cnf_true(d, a)); }
    assert forall|a: Asg, u: int, k2: int| #![trigger cnf_true(c + d, a), bit_at(a, n0, k2, u)] cnf_true(c + d, a) && 0 <= u && 0 <= k2 < p && (u < t + 1 || u == t + 1 && k2 < 0) && cl_true(sl(l, g, u), a) implies bit_at(a, n0, k2, u) by {
        assert(cnf_true(c, a));
    }
}
pub proof fn lem_bim_done(l: Seq<Lit>, g: int, m: int, n0: nat, p: int, c: Seq<Clause>, n: nat)
    requires bim_inv(l, g, n0, p, m, 0, c, n), bel(l, n0), l.len() >= 1, g >= 1, m == (l.len() + g - 1) / g, 0 <= p <= 64, m <= pw(2, p as nat), m <= u32::MAX,
    ensures amo_enc(l, n0, n, c),
{
    let b = bit_base(l, g, n0);
    assert(amo_cpl(l, n0, c)) by {
    assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(c, e) by {
        let e = choose|e: Asg| agree(b(a), e, (n0 + p) as nat) && #[trigger] cnf_true(c, e);
        assert forall|i: nat| i < n0 implies #[trigger] a(i) == e(i) by { assert(b(a)(i) == e(i)); }
    }
        lem_cpl(l, n0, c);
    }
    assert forall|a: Asg| #[trigger] cnf_true(c, a) implies amo(l, a) by {
        assert forall|t: int, u: int| 0 <= t < u < m implies !(cl_true(#[trigger] sl(l, g, t), a) && cl_true(#[trigger] sl(l, g, u), a)) by {
            if cl_true(sl(l, g, t), a) && cl_true(sl(l, g, u), a) {
                assert forall|k: usize| k < p as usize implies #[trigger] bit(t as usize, k) == bit(u as usize, k) by { assert(bit_at(a, n0, k as int, t)); assert(bit_at(a, n0, k as int, u)); }
                lem_bits_eq(t as usize, u as usize, p as usize);
            }
        }
        lem_split_amo(l, g, m, a);
    }
}
impl<const N: usize, Sub: Encode> Encode for Bimander<N, Sub> {
    open spec fn lits(&self) -> Seq<Lit> { self.in_lits@ }
    open spec fn nc(&self) -> nat { self.n_clauses as nat }
    open spec fn nv(&self) -> nat { self.n_vars as nat }
    open spec fn okp() -> bool { N > 0 && Sub::okp() }
//@fn src/encodings/am1/bimander.rs <Bimander<N,Sub> as Encode>::n_lits id=bimander::n_lits
//@ret r
//@end
//@fn src/encodings/am1/bimander.rs <Bimander<N,Sub> as EncodeStats>::n_clauses id=bimander::n_clauses
//@ret r
//@end
//@fn src/encodings/am1/bimander.rs <Bimander<N,Sub> as EncodeStats>::n_vars id=bimander::n_vars
//@ret r
//@end
//@fn src/encodings/am1/bimander.rs <Bimander<N,Sub> as From<Vec<Lit>>>::from id=bimander::from as=from_vec
//@ret r
//@end
//@fn src/encodings/am1/bimander.rs <Bimander<N,Sub> as FromIterator<Lit>>::from_iter id=bimander::from_iter inst=T:Vec<Lit> chains=loop
//@ret r
//@loop 0 iter=it
    invariant it.seq() == iter@, vx_acc0@ == iter@.take(it.index@ as int),
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/bimander.rs <Bimander<N,Sub> as Extend<Lit>>::extend id=bimander::extend inst=T:Vec<Lit> chains=loop
//@loop 0 iter=it
    invariant it.seq() == iter@, self.in_lits@ == old(self).in_lits@ + iter@.take(it.index@ as int), self.n_clauses == old(self).n_clauses, self.n_vars == old(self).n_vars,
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/bimander.rs <Bimander<N,Sub> as Encode>::encode dyn chains=loop lazy=Clause slices take collect1=via:Sub::from_iter from_iter=keep
//@ret r
//@rename std::cmp::min => vx_umin
//@ghost start
    let ghost l0 = self.in_lits@;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    let ghost g = N as int;
    proof { lem_since(c0, c0, Seq::empty()); lem_since_all(c0, c0); if l0.len() <= 1 { lem_amo_small(l0, n0); } else { lem_splits(l0.len() as int, N as int, (l0.len() + N - 1) / (N as int)); } }
//@loop 0 iter=it
    invariant l0 == self.in_lits@, aux_ok(vx_acc0@, n0, it.index@ as int), it.seq().len() == p, var_manager.next() == n0 + it.index@, old(self).n_vars == self.n_vars, n0 == old(var_manager).next(),
        c0 == old(collector).cls(), collector.cls() == c0,
//@ghost loop 1 before
    proof {
        assert(extends(l0, bit_base(l0, g, n0), (n0 + p) as nat, since(c0, c0))) by {
            assert forall|a: Asg| #[trigger] amo(l0, a) implies exists|e: Asg| agree(bit_base(l0, g, n0)(a), e, (n0 + p) as nat) && #[trigger] cnf_true(since(c0, c0), e) by {
                let e = bit_base(l0, g, n0)(a);
                assert(agree(e, e, (n0 + p) as nat) && cnf_true(since(c0, c0), e));
            }
        }
    }
//@loop 1 iter=it
    invariant l0 == self.in_lits@, l0 == old(self).in_lits@, it.seq().len() == n_splits, forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i,
        g == N, N > 0, Sub::okp(), bel(l0, n0), 2 <= l0.len() <= u32::MAX, n_splits == (l0.len() + N - 1) / (N as int), aux_ok(aux_vars@, n0, p as int), p <= 64,
        old(self).n_vars == self.n_vars, n0 == old(var_manager).next(),
        c0 == old(collector).cls(), c0.len() <= collector.cls().len(), collector.cls() == c0 + since(collector.cls(), c0),
        bim_inv(l0, g, n0, p as int, it.index@ as int, 0, since(collector.cls(), c0), var_manager.next()),
//@ghost loop 1 start
    let ghost n1 = var_manager.next();
    let ghost t = it.index@ as int;
    proof { lem_splits(l0.len() as int, g, n_splits as int); lem_split_room(l0.len() as int, g, n_splits as int, t); lem_sl_in(l0, g, n_splits as int, t, n0); }
//@loop 2 iter=it1
    invariant l0 == self.in_lits@, it1.seq().len() == p, forall|i: int| 0 <= i < it1.seq().len() ==> *#[trigger] it1.seq()[i] == aux_vars@[i], vx_n3 == it1.index@, vx_n4 == it1.index@, split == t, 0 <= t < n_splits, lits@ == sl(l0, g, t),
        g >= 1, bel(l0, n0), 2 <= l0.len() <= u32::MAX, n_splits == (l0.len() + g - 1) / g, aux_ok(aux_vars@, n0, p as int), p <= 64, var_manager.next() == n1,
        old(self).n_vars == self.n_vars, n0 == old(var_manager).next(), c0.len() <= collector.cls().len(), collector.cls() == c0 + since(collector.cls(), c0),
        bim_inv(l0, g, n0, p as int, t, it1.index@ as int, since(collector.cls(), c0), n1),
//@ghost loop 2 start
    let ghost c1 = collector.cls();
    let ghost kk = it1.index@ as int;
    proof { lem_since_all(c0, c1); }
//@ghost loop 2 end
    proof {
        let d = since(collector.cls(), c1);
        lem_since(c0, c1, d);
        lem_bim_bit(l0, g, n_splits as int, n0, p as int, t, kk, since(c1, c0), n1, Lit::mk((n0 + kk) as nat, !bit(t as usize, kk as usize)), d);
    }
//@loop 3 iter=it2
    invariant it2.seq().len() == lits@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *#[trigger] it2.seq()[i] == lits@[i], vx_acc5@ =~= lits@.take(it2.index@ as int),
//@ghost let sub 0 before
    let ghost c2 = collector.cls();
    proof { lem_since_all(c0, c2); assert(lits@.take(lits@.len() as int) =~= lits@); }
//@ghost loop 1 end
    proof {
        let d2 = since(collector.cls(), c2);
        lem_since(c0, c2, d2);
        lem_bim_group(l0, g, n_splits as int, n0, p as int, t, since(c2, c0), n1, d2, var_manager.next());
    }
//@ghost end
    proof { lem_splits(l0.len() as int, g, n_splits as int); lem_bim_done(l0, g, n_splits as int, n0, p as int, since(collector.cls(), c0), var_manager.next()); }
//@end
}
// ---- two product ----
//@struct src/encodings/am1/twoproduct.rs TwoProduct
pub open spec fn tp_row(l: Seq<Lit>, q: int, r: int, a: Asg) -> bool { exists|i: int| 0 <= i < l.len() && i / q == r && tv(a, #[trigger] l[i]) }
pub open spec fn tp_col(l: Seq<Lit>, q: int, r: int, a: Asg) -> bool { exists|i: int| 0 <= i < l.len() && i % q == r && tv(a, #[trigger] l[i]) }
pub open spec fn tp_base(l: Seq<Lit>, p: int, q: int, n0: nat) -> spec_fn(Asg) -> Asg {
    |a: Asg| |v: nat| if v < n0 { a(v) } else if v < n0 + p { tp_row(l, q, v - n0, a) } else { tp_col(l, q, v - n0 - p, a) }
}
/// the implications for the first t literals (and the first clause of the next if h)
pub open spec fn tp_done(l: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>, q: int, t: int, s: Asg) -> bool {
    forall|i: int| 0 <= i < t && tv(s, #[trigger] l[i]) ==> tv(s, x[i / q]) && tv(s, y[i % q])
}
pub proof fn lem_tp_at(n: int, p: int, q: int, i: int)
    requires n >= 1, p >= 1, p * p <= n, q == (n + p - 1) / p, 0 <= i < n,
    ensures 0 <= i / q < p, 0 <= i % q < q, q >= 1, i == (i / q) * q + i % q,
{
    assert(p * q >= n && q >= 1) by (nonlinear_arith) requires n >= 1, p >= 1, q == (n + p - 1) / p;
    let r = i / q;
    assert(r * q <= i && r >= 0 && i == r * q + i % q && 0 <= i % q < q) by (nonlinear_arith) requires r == i / q, q >= 1, i >= 0;
    assert(r < p) by (nonlinear_arith) requires r * q <= i, i < n, n <= p * q, q >= 1;
}
pub open spec fn tp_ok(l: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>, p: int, q: int, n0: nat) -> bool {
    bel(l, n0) && l.len() >= 1 && p >= 1 && p * p <= l.len() && q == (l.len() + p - 1) / p && lad_aux(x, n0, p) && lad_aux(y, (n0 + p) as nat, q)
}
pub proof fn lem_tp_base(l: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>, p: int, q: int, n0: nat, a: Asg)
    requires tp_ok(l, x, y, p, q, n0), amo(l, a),
    ensures amo(x, tp_base(l, p, q, n0)(a)), amo(y, tp_base(l, p, q, n0)(a)), agree(a, tp_base(l, p, q, n0)(a), n0), tp_done(l, x, y, q, l.len() as int, tp_base(l, p, q, n0)(a)),
{
    let e = tp_base(l, p, q, n0)(a);
    assert forall|i: int, j: int| 0 <= i < j < x.len() implies !(tv(e, #[trigger] x[i]) && tv(e, #[trigger] x[j])) by {
        assert(x[i].v() == n0 + i); assert(x[j].v() == n0 + j);
        if tp_row(l, q, i, a) && tp_row(l, q, j, a) {
            let u = choose|u: int| 0 <= u < l.len() && u / q == i && tv(a, #[trigger] l[u]);
            let w = choose|u: int| 0 <= u < l.len() && u / q == j && tv(a, #[trigger] l[u]);
            lem_wit(l, a, u); lem_wit(l, a, w);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies !(tv(e, #[trigger] y[i]) && tv(e, #[trigger] y[j])) by {
        assert(y[i].v() == n0 + p + i); assert(y[j].v() == n0 + p + j);
        if tp_col(l, q, i, a) && tp_col(l, q, j, a) {
            let u = choose|u: int| 0 <= u < l.len() && u % q == i && tv(a, #[trigger] l[u]);
            let w = choose|u: int| 0 <= u < l.len() && u % q == j && tv(a, #[trigger] l[u]);
            lem_wit(l, a, u); lem_wit(l, a, w);
        }
    }
    assert forall|i: int| 0 <= i < l.len() && tv(e, #[trigger] l[i]) implies tv(e, x[i / q]) && tv(e, y[i % q]) by {
        lem_tv_agree(l[i], n0, a, e);
        lem_tp_at(l.len() as int, p, q, i);
        assert(x[i / q].v() == n0 + i / q); assert(y[i % q].v() == n0 + p + i % q);
        assert(tp_row(l, q, i / q, a)); assert(tp_col(l, q, i % q, a));
    }
}
pub proof fn lem_tp_step(l: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>, p: int, q: int, n0: nat, n: nat, t: int, c: Seq<Clause>, d1: Clause, d2: Clause)
    requires tp_ok(l, x, y, p, q, n0), 0 <= t < l.len(), cok(c, l, n0, n), n == n0 + p + q, forall|s: Asg| #[trigger] cnf_true(c, s) <==> tp_done(l, x, y, q, t, s),
        forall|s: Asg| #[trigger] cl_true(d1.s(), s) <==> (tv(s, l[t]) ==> tv(s, x[t / q])), mentions(d1.s(), seq![l[t]], seq![x[t / q]]),
        forall|s: Asg| #[trigger] cl_true(d2.s(), s) <==> (tv(s, l[t]) ==> tv(s, y[t % q])), mentions(d2.s(), seq![l[t]], seq![y[t % q]]),
    ensures cok(c.push(d1).push(d2), l, n0, n), forall|s: Asg| #[trigger] cnf_true(c.push(d1).push(d2), s) <==> tp_done(l, x, y, q, t + 1, s),
{
    lem_tp_at(l.len() as int, p, q, t);
    assert(x[t / q].v() == n0 + t / q); assert(y[t % q].v() == n0 + p + t % q);
    assert(lok(l[t], l, n0, n)) by { assert(var_in(l[t].v(), l)); }
    lem_mention_vok(d1.s(), seq![l[t]], seq![x[t / q]], l, n0, n);
    lem_mention_vok(d2.s(), seq![l[t]], seq![y[t % q]], l, n0, n);
    lem_cok_push(c, d1, l, n0, n);
    lem_cok_push(c.push(d1), d2, l, n0, n);
    lem_cnf_push_all(c, d1);
    lem_cnf_push_all(c.push(d1), d2);
    assert forall|s: Asg| #[trigger] cnf_true(c.push(d1).push(d2), s) <==> tp_done(l, x, y, q, t + 1, s) by {
        assert(cnf_true(c.push(d1).push(d2), s) == (cnf_true(c, s) && cl_true(d1.s(), s) && cl_true(d2.s(), s)));
        assert(cnf_true(c, s) == tp_done(l, x, y, q, t, s));
        if tp_done(l, x, y, q, t, s) && cl_true(d1.s(), s) && cl_true(d2.s(), s) {
            assert forall|i: int| 0 <= i < t + 1 && tv(s, #[trigger] l[i]) implies tv(s, x[i / q]) && tv(s, y[i % q]) by {}
        }
        if tp_done(l, x, y, q, t + 1, s) { assert(tv(s, l[t]) ==> tv(s, x[t / q]) && tv(s, y[t % q])); }
    }
}
pub proof fn lem_tp_sound(l: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>, p: int, q: int, n0: nat, a: Asg)
    requires tp_ok(l, x, y, p, q, n0), tp_done(l, x, y, q, l.len() as int, a), amo(x, a), amo(y, a),
    ensures amo(l, a),
{
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies !(tv(a, #[trigger] l[i]) && tv(a, #[trigger] l[j])) by {
        if tv(a, l[i]) && tv(a, l[j]) {
            lem_tp_at(l.len() as int, p, q, i); lem_tp_at(l.len() as int, p, q, j);
            let (u, w) = (i / q, j / q);
            let (r, t) = (i % q, j % q);
            assert(tv(a, x[u]) && tv(a, x[w]) && tv(a, y[r]) && tv(a, y[t]));
            if u < w { assert(!(tv(a, x[u]) && tv(a, x[w]))); }
            if w < u { assert(!(tv(a, x[w]) && tv(a, x[u]))); }
            if r < t { assert(!(tv(a, y[r]) && tv(a, y[t]))); }
            if t < r { assert(!(tv(a, y[t]) && tv(a, y[r]))); }
        }
    }
}
pub proof fn lem_tp_vars(l: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>, p: int, q: int, n0: nat)
    requires tp_ok(l, x, y, p, q, n0),
    ensures q >= 1, q <= l.len(), p <= l.len(), bel(x, (n0 + p + q) as nat), bel(y, (n0 + p + q) as nat),
        forall|i: int, n1: nat| 0 <= i < x.len() && n1 >= n0 + p + q ==> #[trigger] lok(x[i], l, n0, n1), forall|i: int, n1: nat| 0 <= i < y.len() && n1 >= n0 + p + q ==> #[trigger] lok(y[i], l, n0, n1),
{
    lem_tp_at(l.len() as int, p, q, 0);
    assert(p <= p * p) by (nonlinear_arith) requires p >= 1;
    let n = l.len() as int;
    assert(q <= n) by (nonlinear_arith) requires q == (n + p - 1) / p, p >= 1, n >= 1;
    let m = (n0 + p + q) as nat;
    assert(bel(x, m)) by { assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]).v() < m by { assert(x[i].v() == n0 + i); } }
    assert(bel(y, m)) by { assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i]).v() < m by { assert(y[i].v() == n0 + p + i); } }
    assert forall|i: int, n1: nat| 0 <= i < x.len() && n1 >= n0 + p + q implies #[trigger] lok(x[i], l, n0, n1) by { assert(x[i].v() == n0 + i); }
    assert forall|i: int, n1: nat| 0 <= i < y.len() && n1 >= n0 + p + q implies #[trigger] lok(y[i], l, n0, n1) by { assert(y[i].v() == n0 + p + i); }
}
pub proof fn lem_tp_main(l: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>, b: spec_fn(Asg) -> Asg, m: nat, n0: nat, c: Seq<Clause>, d1: Seq<Clause>, n1: nat, d2: Seq<Clause>, n2: nat)
    requires extends(l, b, m, c), cok(c, l, n0, m), n0 <= m <= n1 <= n2, bel(l, n0), bel(x, m), bel(y, m), amo_enc(x, m, n1, d1), amo_enc(y, n1, n2, d2),
        forall|i: int, n: nat| 0 <= i < x.len() && n >= m ==> #[trigger] lok(x[i], l, n0, n), forall|i: int, n: nat| 0 <= i < y.len() && n >= m ==> #[trigger] lok(y[i], l, n0, n),
        forall|a: Asg| #[trigger] amo(l, a) ==> amo(x, b(a)) && amo(y, b(a)) && agree(a, b(a), n0),
        forall|a: Asg| #[trigger] cnf_true(c, a) && amo(x, a) && amo(y, a) ==> amo(l, a),
    ensures amo_enc(l, n0, n2, c + d1 + d2),
{
    let e1 = c + d1;
    let f = c + d1 + d2;
    lem_cok_bnd(c, l, n0, m);
    lem_ext_sub(l, b, m, c, m, x, n1, d1);
    lem_cok_sub(d1, x, m, n1, l, n0);
    lem_cok_add(c, d1, l, n0, m, n1);
    lem_cok_bnd(e1, l, n0, n1);
    lem_ext_sub(l, b, m, e1, n1, y, n2, d2);
    lem_cok_sub(d2, y, n1, n2, l, n0);
    lem_cok_add(e1, d2, l, n0, n1, n2);
    assert forall|a: Asg| #[trigger] cnf_true(f, a) implies amo(l, a) by { lem_cnf_add(e1, d2, a); lem_cnf_add(c, d1, a); }
    assert(amo_cpl(l, n0, f)) by {
    assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(f, e) by {
        let e = choose|e: Asg| agree(b(a), e, m) && #[trigger] cnf_true(f, e);
        assert forall|i: nat| i < n0 implies #[trigger] a(i) == e(i) by { assert(b(a)(i) == e(i)); }
    }
        lem_cpl(l, n0, f);
    }
}
pub proof fn lem_tp_done(l: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>, p: int, q: int, n0: nat, c: Seq<Clause>, d1: Seq<Clause>, n1: nat, d2: Seq<Clause>, n2: nat)
    requires tp_ok(l, x, y, p, q, n0), cok(c, l, n0, (n0 + p + q) as nat), forall|s: Asg| #[trigger] cnf_true(c, s) <==> tp_done(l, x, y, q, l.len() as int, s),
        n0 + p + q <= n1 <= n2, amo_enc(x, (n0 + p + q) as nat, n1, d1), amo_enc(y, n1, n2, d2),
    ensures amo_enc(l, n0, n2, c + d1 + d2),
{
    let m = (n0 + p + q) as nat;
    let b = tp_base(l, p, q, n0);
    lem_tp_vars(l, x, y, p, q, n0);
    assert(extends(l, b, m, c)) by {
        assert forall|a: Asg| #[trigger] amo(l, a) implies exists|e: Asg| agree(b(a), e, m) && #[trigger] cnf_true(c, e) by {
            lem_tp_base(l, x, y, p, q, n0, a);
            let e = b(a);
            assert(agree(e, e, m) && cnf_true(c, e));
        }
    }
    assert forall|a: Asg| #[trigger] amo(l, a) implies amo(x, b(a)) && amo(y, b(a)) && agree(a, b(a), n0) by { lem_tp_base(l, x, y, p, q, n0, a); }
    assert forall|a: Asg| #[trigger] cnf_true(c, a) && amo(x, a) && amo(y, a) implies amo(l, a) by { lem_tp_sound(l, x, y, p, q, n0, a); }
    lem_tp_main(l, x, y, b, m, n0, c, d1, n1, d2, n2);
}
impl<Sub: Encode> Encode for TwoProduct<Sub> {
    open spec fn lits(&self) -> Seq<Lit> { self.in_lits@ }
    open spec fn nc(&self) -> nat { self.n_clauses as nat }
    open spec fn nv(&self) -> nat { self.n_vars as nat }
    open spec fn okp() -> bool { Sub::okp() }
//@fn src/encodings/am1/twoproduct.rs <TwoProduct<Sub> as Encode>::n_lits id=twoproduct::n_lits
//@ret r
//@end
//@fn src/encodings/am1/twoproduct.rs <TwoProduct<Sub> as EncodeStats>::n_clauses id=twoproduct::n_clauses
//@ret r
//@end
//@fn src/encodings/am1/twoproduct.rs <TwoProduct<Sub> as EncodeStats>::n_vars id=twoproduct::n_vars
//@ret r
//@end
//@fn src/encodings/am1/twoproduct.rs <TwoProduct<Sub> as From<Vec<Lit>>>::from id=twoproduct::from as=from_vec
//@ret r
//@end
//@fn src/encodings/am1/twoproduct.rs <TwoProduct<Sub> as FromIterator<Lit>>::from_iter id=twoproduct::from_iter inst=T:Vec<Lit> chains=loop
//@ret r
//@loop 0 iter=it
    invariant it.seq() == iter@, vx_acc0@ == iter@.take(it.index@ as int),
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/twoproduct.rs <TwoProduct<Sub> as Extend<Lit>>::extend id=twoproduct::extend inst=T:Vec<Lit> chains=loop
//@loop 0 iter=it
    invariant it.seq() == iter@, self.in_lits@ == old(self).in_lits@ + iter@.take(it.index@ as int), self.n_clauses == old(self).n_clauses, self.n_vars == old(self).n_vars,
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/encodings/am1/twoproduct.rs <TwoProduct<Sub> as Encode>::encode dyn chains=loop lazy=Clause
//@ret r
//@rename Sub::from => Sub::from_vec
//@ghost start
    let ghost l0 = self.in_lits@;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    proof { lem_since(c0, c0, Seq::empty()); lem_since_all(c0, c0); if l0.len() <= 1 { lem_amo_small(l0, n0); } }
//@loop 0
    invariant l0 == self.in_lits@, lad_aux(aux_rows@, n0, p as int), p * p <= l0.len(), p <= 65535, (p + 1) * (p + 1) <= 4294967296, 2 <= l0.len() <= u32::MAX, var_manager.next() == n0 + p, old(self).n_vars == self.n_vars, n0 == old(var_manager).next(),
        c0 == old(collector).cls(), collector.cls() == c0,
    decreases 65536 - p,
//@ghost loop 0 start
    proof { assert(p + 1 <= 65535) by (nonlinear_arith) requires (p + 1) * (p + 1) <= u32::MAX, p >= 0; }
//@ghost loop 0 end
    proof { assert((p + 1) * (p + 1) <= 4294967296) by (nonlinear_arith) requires 0 <= p <= 65535; }
//@ghost loop 0 after
    proof { assert(p >= 1) by (nonlinear_arith) requires (p + 1) * (p + 1) > 1, p >= 0; }
//@loop 1 iter=it
    invariant l0 == self.in_lits@, lad_aux(vx_acc0@, (n0 + p) as nat, it.index@ as int), it.seq().len() == q, var_manager.next() == n0 + p + it.index@, old(self).n_vars == self.n_vars, n0 == old(var_manager).next(),
        c0 == old(collector).cls(), collector.cls() == c0,
//@loop 2 iter=it
    invariant l0 == self.in_lits@, it.seq().len() == l0.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l0[i], vx_n2 == it.index@, l0.len() <= u32::MAX,
        tp_ok(l0, aux_rows@, aux_cols@, p as int, q as int, n0), cok(vx_acc1@, l0, n0, (n0 + p + q) as nat), forall|s: Asg| #[trigger] cnf_true(vx_acc1@, s) <==> tp_done(l0, aux_rows@, aux_cols@, q as int, it.index@ as int, s),
//@ghost loop 2 start
    let ghost acc = vx_acc1@;
    let ghost t = it.index@ as int;
    proof { lem_tp_at(l0.len() as int, p as int, q as int, t); }
//@ghost loop 2 end
    proof {
        let d1 = vx_acc1@[acc.len() as int];
        let d2 = vx_acc1@[acc.len() as int + 1];
        assert(vx_acc1@ =~= acc.push(d1).push(d2));
        lem_tp_step(l0, aux_rows@, aux_cols@, p as int, q as int, n0, (n0 + p + q) as nat, t, acc, d1, d2);
    }
//@ghost let row_sub 0 before
    let ghost (xs, ys) = (aux_rows@, aux_cols@);
    let ghost c1 = collector.cls();
    proof { lem_since_all(c0, c1); lem_tp_vars(l0, xs, ys, p as int, q as int, n0); }
//@ghost call encode 0 after
    let ghost c2 = collector.cls();
    let ghost n2 = var_manager.next();
    proof { lem_since_all(c0, c2); lem_since_all(c1, c2); }
//@ghost end
    proof {
        let d2 = since(collector.cls(), c2);
        lem_tp_done(l0, xs, ys, p as int, q as int, n0, since(c1, c0), since(c2, c1), n2, d2, var_manager.next());
    }
//@end
}
}
fn main() {}
