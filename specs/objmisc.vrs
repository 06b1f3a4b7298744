// ---- objectives from iterators, the maximal variable ----
pub proof fn lem_pw_step<K>(s: Seq<(K, usize)>, i: int, g: spec_fn(K) -> int) requires 0 <= i < s.len() ensures sm(s.take(i + 1), pw(g)) == sm(s.take(i), pw(g)) + s[i].1 * g(s[i].0)
{ lem_sm_take(s, i, pw(g)); }
pub proof fn lem_pw_one<K>(p: (K, usize)) ensures pw(one::<K>())(p) == p.1
{ let x = p.1 as int; assert(one::<K>()(p.0) == 1); assert(pw(one::<K>())(p) == x * 1); }
pub proof fn lem_pw_le<K>(s: Seq<(K, usize)>, i: int) requires 0 <= i < s.len() ensures 0 <= sm(s.take(i), pw(one())) <= sm(s.take(i + 1), pw(one())) <= sm(s, pw(one())), sm(s.take(i + 1), pw(one())) == sm(s.take(i), pw(one())) + s[i].1
{
    assert forall|j: int| 0 <= j < s.len() implies pw(one::<K>())(#[trigger] s[j]) >= 0 by { lem_pw_one(s[j]); }
    lem_pw_one(s[i]); lem_sm_nonneg(s, pw(one())); lem_sm_take(s, i, pw(one())); lem_pw_nonneg_take(s, i); lem_pw_nonneg_take(s, i + 1);
}
pub proof fn lem_pw_nonneg_take<K>(s: Seq<(K, usize)>, i: int) requires 0 <= i <= s.len() ensures 0 <= sm(s.take(i), pw(one())) <= sm(s, pw(one()))
{
    let (t, u) = (s.take(i), s.skip(i)); assert(t + u =~= s); lem_sm_add(t, u, pw(one()));
    assert forall|j: int| 0 <= j < t.len() implies pw(one::<K>())(#[trigger] t[j]) >= 0 by { lem_pw_one(t[j]); } lem_sm_nonneg(t, pw(one()));
    assert forall|j: int| 0 <= j < u.len() implies pw(one::<K>())(#[trigger] u[j]) >= 0 by { lem_pw_one(u[j]); } lem_sm_nonneg(u, pw(one()));
}
/// the terms of a sum with integer weights
pub open spec fn iw(a: Asg) -> spec_fn((Lit, isize)) -> int { |p: (Lit, isize)| p.1 as int * b2i(tv(a, p.0)) }
pub open spec fn oabs() -> spec_fn((Lit, isize)) -> int { |p: (Lit, isize)| if p.1 < 0 { -(p.1 as int) } else { p.1 as int } }
pub open spec fn cpart(s: Seq<(Clause, usize)>) -> int { sm(s, pw(one())) }
impl Objective {
//@fn src/instances/opt.rs <Objective as FromIterator<(Lit,usize)>>::from_iter as=from_wlits inst=T:Vec<(Lit,usize)>
//@ret r
    requires sm(iter@, pw(one())) <= usize::MAX,
    ensures r.wf(), r.off() == 0, forall|g: spec_fn(Lit) -> int| #[trigger] r.ls(g) == sm(iter@, pw(g)), forall|h: spec_fn(Clause) -> int| #[trigger] r.cs(h) == 0,
//@ghost start
    let ghost d = iter@;
    proof { assert(d.take(0) =~= Seq::empty()); assert(d.take(d.len() as int) =~= d); }
//@loop 0 iter=it
    invariant it.seq() == d, sm(d, pw(one())) <= usize::MAX, obj.wf(), obj.off() == 0, forall|g: spec_fn(Lit) -> int| #[trigger] obj.ls(g) == sm(d.take(it.index@ as int), pw(g)), forall|h: spec_fn(Clause) -> int| #[trigger] obj.cs(h) == 0,
//@ghost loop 0 start
    let ghost (o1, i) = (obj, it.index@ as int);
    proof { lem_pw_le(d, i); assert(o1.ls(one()) == sm(d.take(i), pw(one()))); assert(o1.cs(one()) == 0); }
//@ghost loop 0 end
    proof { assert forall|g: spec_fn(Lit) -> int| #[trigger] obj.ls(g) == sm(d.take(i + 1), pw(g)) by { lem_pw_step(d, i, g); assert(o1.ls(g) == sm(d.take(i), pw(g))); }
        assert forall|h: spec_fn(Clause) -> int| #[trigger] obj.cs(h) == 0 by { assert(o1.cs(h) == 0); } }
//@end
//@fn src/instances/opt.rs <Objective as FromIterator<(Lit,isize)>>::from_iter as=from_ilits inst=T:Vec<(Lit,isize)>
//@ret r
    requires sm(iter@, oabs()) <= isize::MAX,
    ensures r.wf(), forall|a: Asg| #[trigger] r.cost(a) == sm(iter@, iw(a)),
//@ghost start
    let ghost d = iter@;
    proof { assert(d.take(0) =~= Seq::empty()); assert(d.take(d.len() as int) =~= d); }
//@loop 0 iter=it
    invariant it.seq() == d, sm(d, oabs()) <= isize::MAX, obj.wf(), -sm(d.take(it.index@ as int), oabs()) <= obj.off() <= 0, obj.tot() <= sm(d.take(it.index@ as int), oabs()), forall|a: Asg| #[trigger] obj.cost(a) == sm(d.take(it.index@ as int), iw(a)),
//@ghost loop 0 start
    let ghost (o1, i) = (obj, it.index@ as int);
    proof { lem_sm_take(d, i, oabs()); assert forall|j: int| 0 <= j < d.len() implies oabs()(#[trigger] d[j]) >= 0 by {} lem_sm_nonneg(d, oabs()); assert(sm(d.take(i + 1), oabs()) <= sm(d, oabs())); }
//@ghost loop 0 end
    proof { assert forall|a: Asg| #[trigger] obj.cost(a) == sm(d.take(i + 1), iw(a)) by { lem_sm_take(d, i, iw(a)); assert(o1.cost(a) == sm(d.take(i), iw(a))); } assert(obj.ls(one()) <= o1.ls(one()) + oabs()(d[i])); assert(obj.cs(one()) == o1.cs(one())); }
//@end
//@fn src/instances/opt.rs <Objective as FromIterator<(Clause,usize)>>::from_iter as=from_wcls inst=T:Vec<(Clause,usize)>
//@ret r
    requires sm(iter@, pw(one())) <= isize::MAX,
    ensures r.wf(), forall|a: Asg| #[trigger] r.cost(a) == sm(iter@, pw(falsified(a))),
//@ghost start
    let ghost d = iter@;
    proof { assert(d.take(0) =~= Seq::empty()); assert(d.take(d.len() as int) =~= d); }
//@loop 0 iter=it
    invariant it.seq() == d, sm(d, pw(one())) <= isize::MAX, obj.wf(), 0 <= obj.off(), obj.off() + obj.tot() <= sm(d.take(it.index@ as int), pw(one())), forall|a: Asg| #[trigger] obj.cost(a) == sm(d.take(it.index@ as int), pw(falsified(a))),
//@ghost loop 0 start
    let ghost (o1, i) = (obj, it.index@ as int);
    proof { lem_pw_le(d, i); lem_ls_le(&o1, one(), one()); lem_cs_le(&o1, one(), one()); lem_opp_all(); }
//@ghost loop 0 end
    proof { 
        let c = d[i].0;
        assert forall|a: Asg| #[trigger] obj.cost(a) == sm(d.take(i + 1), pw(falsified(a))) by { lem_pw_step(d, i, falsified(a)); assert(o1.cost(a) == sm(d.take(i), pw(falsified(a))));
            assert(obj.ls(set_in(a)) == obj.ls(set_in(a)) && obj.cs(falsified(a)) == obj.cs(falsified(a)) && o1.ls(set_in(a)) == o1.ls(set_in(a)) && o1.cs(falsified(a)) == o1.cs(falsified(a)));
            if c.s().len() == 1 { assert(c.s() =~= seq![c.s()[0].opp().opp()]); lem_unit_cl(c.s()[0].opp(), c, a); }
            if c.s().len() == 0 { assert(!cl_true(c.s(), a)); } 
            let w = d[i].1 as int; assert(w * 1 == w); }
        assert(obj.ls(one()) == obj.ls(one()) && obj.cs(one()) == obj.cs(one()) && o1.ls(one()) == o1.ls(one()) && o1.cs(one()) == o1.cs(one()));
    }
//@end
}
/// the maximal variable so far
pub open spec fn mx(o: Option<Var>) -> nat { if o is Some { (o->0.i() + 1) as nat } else { 0 } }
pub open spec fn mxp(o: Option<Var>, l: Lit, n: Option<Var>) -> bool { n is Some && n->0.wf() && mx(n) >= mx(o) && mx(n) >= l.v() + 1 && (mx(n) == mx(o) || mx(n) == l.v() + 1) }
pub proof fn lem_bel_take(s: Seq<Lit>, i: int, m: nat, n: nat) requires bel(s.take(i), m), 0 <= i < s.len(), m <= n, s[i].v() < n ensures bel(s.take(i + 1), n)
{ let (p, q) = (s.take(i), s.take(i + 1)); assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).v() < n by { if j < i { assert(q[j] == p[j]); } } }
/// all keys of the first pairs are below n
pub open spec fn plb(s: Seq<(Lit, usize)>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.v() < n }
pub open spec fn pcb(s: Seq<(Clause, usize)>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> bel((#[trigger] s[i]).0.s(), n) }
pub proof fn lem_bel_mono(s: Seq<Lit>, m: nat, n: nat) requires bel(s, m), m <= n ensures bel(s, n) { assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).v() < n by { assert(s[j].v() < m); } }
pub proof fn lem_plb(s: Seq<(Lit, usize)>, i: int, m: nat, n: nat) requires plb(s.take(i), m), 0 <= i < s.len(), m <= n, s[i].0.v() < n ensures plb(s.take(i + 1), n)
{ let (p, q) = (s.take(i), s.take(i + 1)); assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).0.v() < n by { if j < i { assert(q[j] == p[j]); } } }
pub proof fn lem_pcb(s: Seq<(Clause, usize)>, i: int, m: nat, n: nat) requires pcb(s.take(i), m), 0 <= i < s.len(), m <= n, bel(s[i].0.s(), n) ensures pcb(s.take(i + 1), n)
{ let (p, q) = (s.take(i), s.take(i + 1)); assert forall|j: int| 0 <= j < q.len() implies bel((#[trigger] q[j]).0.s(), n) by { if j < i { assert(q[j] == p[j]); lem_bel_mono(p[j].0.s(), m, n); } } }
pub proof fn lem_bndt(s: Seq<Clause>, i: int, m: nat, n: nat) requires bnd(s.take(i), m), 0 <= i < s.len(), m <= n, bel(s[i].s(), n) ensures bnd(s.take(i + 1), n)
{ let (p, q) = (s.take(i), s.take(i + 1)); assert forall|j: int| 0 <= j < q.len() implies bel((#[trigger] q[j]).s(), n) by { if j < i { assert(q[j] == p[j]); lem_bel_mono(p[j].s(), m, n); } } }
impl Objective {
//@fn src/instances/opt.rs Objective::max_var chains=loop fold_ty=Option<Var>
//@ret r
    // every variable is at most the maximal one
    ensures self.obel(mx(r)), r is Some ==> r->0.wf(), forall|n: nat| #[trigger] self.obel(n) ==> mx(r) <= n,
//@sub \|mv, v\| ==> |mv: Option<Var>, v: Var|
//@closure 0 n: Option<Var>
    requires v.wf(), mv is Some ==> mv->0.wf()
    ensures n is Some && n->0.wf() && mx(n) >= mx(mv) && mx(n) >= v.i() + 1 && (mx(n) == mx(mv) || mx(n) == v.i() + 1)
//@sub for (\w+) in it0: soft_lits\.iter\(\) ==> let vx_pl = vx_map_refs(soft_lits); let ghost pl = deref_pairs(vx_pl@); proof { assert(pl.take(0) =~= Seq::empty()); assert(pl.take(pl.len() as int) =~= pl); } for $1 in it0: vx_pl
//@sub for (\w+) in it1: soft_clauses\.iter\(\) ==> let vx_pc = vx_map_refs(soft_clauses); let ghost pc = deref_pairs(vx_pc@); proof { assert(pc.take(0) =~= Seq::empty()); assert(pc.take(pc.len() as int) =~= pc); } let ghost m0 = max_var; for $1 in it1: vx_pc
//@ghost start
    proof { assert(self.vl().take(0) =~= Seq::empty()); assert(self.vl().take(self.vl().len() as int) =~= self.vl()); assert(self.vc().take(0) =~= Seq::empty()); assert(self.vc().take(self.vc().len() as int) =~= self.vc()); }
//@loop 0 iter=it0
    invariant pairs_of(pl, self.ml()), self.is_w(), it0.seq() == vx_pl@, pl == deref_pairs(vx_pl@), plb(pl.take(it0.index@ as int), mx(mv)), mv is Some ==> mv->0.wf(), forall|mv: Option<Var>, v: Var| v.wf() && (mv is Some ==> mv->0.wf()) ==> #[trigger] find_max.requires((mv, v)),
        forall|mv: Option<Var>, v: Var, n: Option<Var>| #[trigger] find_max.ensures((mv, v), n) ==> n is Some && n->0.wf() && mx(n) >= mx(mv) && mx(n) >= v.i() + 1 && (mx(n) == mx(mv) || mx(n) == v.i() + 1),
        forall|n: nat| #[trigger] self.obel(n) ==> mx(mv) <= n,
//@ghost loop 0 start
    let ghost (m1, i1) = (mv, it0.index@ as int);
    proof { assert(self.ml().contains_key(pl[i1].0)); }
//@ghost loop 0 end
    proof { lem_plb(pl, i1, mx(m1), mx(mv)); }
//@ghost loop 0 after
    proof { assert(mlbel(self.ml(), mx(mv))) by { assert forall|l: Lit| #[trigger] self.ml().contains_key(l) implies l.v() < mx(mv) by { let j = choose|j: int| 0 <= j < pl.len() && #[trigger] pl[j].0 == l; assert(pl[j].0.v() < mx(mv)); } } }
//@loop 1 iter=it1
    invariant pairs_of(pc, self.mc()), self.is_w(), it1.seq() == vx_pc@, pc == deref_pairs(vx_pc@), mx(mv) >= mx(m0), pcb(pc.take(it1.index@ as int), mx(mv)), mv is Some ==> mv->0.wf(), forall|mv: Option<Var>, v: Var| v.wf() && (mv is Some ==> mv->0.wf()) ==> #[trigger] find_max.requires((mv, v)),
        forall|mv: Option<Var>, v: Var, n: Option<Var>| #[trigger] find_max.ensures((mv, v), n) ==> n is Some && n->0.wf() && mx(n) >= mx(mv) && mx(n) >= v.i() + 1 && (mx(n) == mx(mv) || mx(n) == v.i() + 1),
        forall|n: nat| #[trigger] self.obel(n) ==> mx(mv) <= n,
//@ghost loop 1 start
    let ghost (m1, i1) = (mv, it1.index@ as int);
    let ghost s1 = pc[i1].0.s();
    proof { assert(s1.take(0) =~= Seq::empty()); assert(s1.take(s1.len() as int) =~= s1); assert(*vx_pc@[i1].0 == pc[i1].0); assert(self.mc().contains_key(pc[i1].0)); }
//@loop 2 iter=jt1
    invariant forall|n: nat| #[trigger] self.obel(n) ==> bel(s1, n), jt1.seq().len() == s1.len(), forall|i: int| 0 <= i < s1.len() ==> *(#[trigger] jt1.seq()[i]) == s1[i], mx(mv) >= mx(m1), bel(s1.take(jt1.index@ as int), mx(mv)), mv is Some ==> mv->0.wf(), forall|mv: Option<Var>, v: Var| v.wf() && (mv is Some ==> mv->0.wf()) ==> #[trigger] find_max.requires((mv, v)),
        forall|mv: Option<Var>, v: Var, n: Option<Var>| #[trigger] find_max.ensures((mv, v), n) ==> n is Some && n->0.wf() && mx(n) >= mx(mv) && mx(n) >= v.i() + 1 && (mx(n) == mx(mv) || mx(n) == v.i() + 1),
        forall|n: nat| #[trigger] self.obel(n) ==> mx(mv) <= n,
//@ghost loop 2 start
    let ghost (m2, i2) = (mv, jt1.index@ as int);
//@ghost loop 2 end
    proof { lem_bel_take(s1, i2, mx(m2), mx(mv)); }
//@ghost loop 1 end
    proof { lem_pcb(pc, i1, mx(m1), mx(mv)); }
//@ghost loop 1 after
    proof {
        assert forall|c: Clause| #[trigger] self.mc().contains_key(c) implies bel(c.s(), mx(mv)) by { let j = choose|j: int| 0 <= j < pc.len() && #[trigger] pc[j].0 == c; assert(bel(pc[j].0.s(), mx(mv))); }
        assert forall|l: Lit| #[trigger] self.ml().contains_key(l) implies l.v() < mx(mv) by { }
    }
//@loop 3 iter=it3
    invariant !(self.is_w()), it3.seq().len() == self.vl().len(), forall|i: int| 0 <= i < self.vl().len() ==> *(#[trigger] it3.seq()[i]) == self.vl()[i], bel(self.vl().take(it3.index@ as int), mx(mv)), mv is Some ==> mv->0.wf(), forall|mv: Option<Var>, v: Var| v.wf() && (mv is Some ==> mv->0.wf()) ==> #[trigger] find_max.requires((mv, v)),
        forall|mv: Option<Var>, v: Var, n: Option<Var>| #[trigger] find_max.ensures((mv, v), n) ==> n is Some && n->0.wf() && mx(n) >= mx(mv) && mx(n) >= v.i() + 1 && (mx(n) == mx(mv) || mx(n) == v.i() + 1),
        forall|n: nat| #[trigger] self.obel(n) ==> mx(mv) <= n,
//@ghost loop 3 start
    let ghost (m2, i2) = (mv, it3.index@ as int);
//@ghost loop 3 end
    proof { lem_bel_take(self.vl(), i2, mx(m2), mx(mv)); }
//@ghost loop 4 before
    let ghost m3 = max_var;
//@loop 4 iter=it4
    invariant !(self.is_w()), it4.seq().len() == self.vc().len(), forall|i: int| 0 <= i < self.vc().len() ==> *(#[trigger] it4.seq()[i]) == self.vc()[i], mx(mv) >= mx(m3), bnd(self.vc().take(it4.index@ as int), mx(mv)), mv is Some ==> mv->0.wf(), forall|mv: Option<Var>, v: Var| v.wf() && (mv is Some ==> mv->0.wf()) ==> #[trigger] find_max.requires((mv, v)),
        forall|mv: Option<Var>, v: Var, n: Option<Var>| #[trigger] find_max.ensures((mv, v), n) ==> n is Some && n->0.wf() && mx(n) >= mx(mv) && mx(n) >= v.i() + 1 && (mx(n) == mx(mv) || mx(n) == v.i() + 1),
        forall|n: nat| #[trigger] self.obel(n) ==> mx(mv) <= n,
//@ghost loop 4 start
    let ghost (m1, i1) = (mv, it4.index@ as int);
    let ghost s1 = self.vc()[i1].s();
    proof { assert(s1.take(0) =~= Seq::empty()); assert(s1.take(s1.len() as int) =~= s1); }
//@loop 5 iter=jt4
    invariant forall|n: nat| #[trigger] self.obel(n) ==> bel(s1, n), jt4.seq().len() == s1.len(), forall|i: int| 0 <= i < s1.len() ==> *(#[trigger] jt4.seq()[i]) == s1[i], mx(mv) >= mx(m1), bel(s1.take(jt4.index@ as int), mx(mv)), mv is Some ==> mv->0.wf(), forall|mv: Option<Var>, v: Var| v.wf() && (mv is Some ==> mv->0.wf()) ==> #[trigger] find_max.requires((mv, v)),
        forall|mv: Option<Var>, v: Var, n: Option<Var>| #[trigger] find_max.ensures((mv, v), n) ==> n is Some && n->0.wf() && mx(n) >= mx(mv) && mx(n) >= v.i() + 1 && (mx(n) == mx(mv) || mx(n) == v.i() + 1),
        forall|n: nat| #[trigger] self.obel(n) ==> mx(mv) <= n,
//@ghost loop 5 start
    let ghost (m2, i2) = (mv, jt4.index@ as int);
//@ghost loop 5 end
    proof { lem_bel_take(s1, i2, mx(m2), mx(mv)); }
//@ghost loop 4 end
    proof { lem_bndt(self.vc(), i1, mx(m1), mx(mv)); }
//@ghost loop 4 after
    proof { lem_bel_mono(self.vl(), mx(m3), mx(mv)); }
//@end
}
