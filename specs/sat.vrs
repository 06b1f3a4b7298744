// ---- formulas ----
//@struct src/instances/sat.rs Cnf
pub open spec fn keeps(o: Seq<Clause>, f: Seq<Clause>, x: Seq<Lit>, y: Seq<Lit>) -> bool {
    forall|n: nat| #![trigger bnd(f, n)] bnd(o, n) && bel(x, n) && bel(y, n) ==> bnd(f, n)
}
pub proof fn lem_keep(o: Seq<Clause>, d: Seq<Clause>, x: Seq<Lit>, y: Seq<Lit>)
    requires cnf_mentions(d, x, y),
    ensures keeps(o, o + d, x, y), forall|a: Asg| #[trigger] cnf_true(o + d, a) == (cnf_true(o, a) && cnf_true(d, a)),
{
    lem_cnf_add_all(o, d);
    assert forall|n: nat| #![trigger bnd(o + d, n)] bnd(o, n) && bel(x, n) && bel(y, n) implies bnd(o + d, n) by {
        assert forall|i: int| 0 <= i < d.len() implies bel((#[trigger] d[i]).s(), n) by { lem_mentions_bel(d[i].s(), x, y, n); }
        lem_bnd_add(o, d, n, n);
    }
}
pub proof fn lem_mentions_bel(r: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>, n: nat) requires mentions(r, x, y), bel(x, n), bel(y, n) ensures bel(r, n)
{
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).v() < n by {
        if var_in(r[i].v(), x) { let j = choose|j: int| 0 <= j < x.len() && #[trigger] x[j].v() == r[i].v(); assert(x[j].v() < n); }
        else { let j = choose|j: int| 0 <= j < y.len() && #[trigger] y[j].v() == r[i].v(); assert(y[j].v() < n); }
    }
}
pub proof fn lem_keep1(o: Seq<Clause>, c: Clause, x: Seq<Lit>, y: Seq<Lit>)
    requires mentions(c.s(), x, y),
    ensures keeps(o, o.push(c), x, y), forall|a: Asg| #[trigger] cnf_true(o.push(c), a) == (cnf_true(o, a) && cl_true(c.s(), a)),
{
    let d = seq![c];
    assert(o.push(c) =~= o + d);
    assert forall|i: int| 0 <= i < d.len() implies mentions((#[trigger] d[i]).s(), x, y) by {}
    lem_keep(o, d, x, y);
    lem_cnf_push_all(o, c);
}
pub proof fn lem_mentions_self(x: Seq<Lit>, y: Seq<Lit>) ensures mentions(x, x, y), mentions(x, y, x)
{
    assert forall|i: int| 0 <= i < x.len() implies var_in((#[trigger] x[i]).v(), x) by {}
}
pub proof fn lem_keep_all(o: Seq<Clause>, x: Seq<Lit>, y: Seq<Lit>)
    ensures forall|d: Seq<Clause>| #![trigger o + d] cnf_mentions(d, x, y) ==> keeps(o, o + d, x, y) && (forall|a: Asg| #[trigger] cnf_true(o + d, a) == (cnf_true(o, a) && cnf_true(d, a))),
{ assert forall|d: Seq<Clause>| #![trigger o + d] cnf_mentions(d, x, y) implies keeps(o, o + d, x, y) && (forall|a: Asg| #[trigger] cnf_true(o + d, a) == (cnf_true(o, a) && cnf_true(d, a))) by { lem_keep(o, d, x, y); } }
/// value of a clause and of a formula under a partial assignment
pub open spec fn cl_t(s: Seq<Lit>, p: Assignment) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] p.lval(s[i]) == TernaryVal::True }
pub open spec fn cl_f(s: Seq<Lit>, p: Assignment) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] p.lval(s[i]) == TernaryVal::False }
pub open spec fn cnf_t(c: Seq<Clause>, p: Assignment) -> bool { forall|i: int| 0 <= i < c.len() ==> cl_t((#[trigger] c[i]).s(), p) }
pub open spec fn cnf_f(c: Seq<Clause>, p: Assignment) -> bool { exists|i: int| 0 <= i < c.len() && cl_f((#[trigger] c[i]).s(), p) }
/// a formula is not both
pub proof fn lem_cnf_t(c: Seq<Clause>, p: Assignment) ensures !(cnf_t(c, p) && cnf_f(c, p))
{
    if cnf_t(c, p) && cnf_f(c, p) { let i = choose|i: int| 0 <= i < c.len() && cl_f((#[trigger] c[i]).s(), p); assert(cl_t(c[i].s(), p)); let j = choose|j: int| 0 <= j < c[i].s().len() && #[trigger] p.lval(c[i].s()[j]) == TernaryVal::True; assert(p.lval(c[i].s()[j]) == TernaryVal::False); }
}
pub open spec fn in_cls(c: Seq<Clause>, s: Seq<Lit>) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).s() == s }
/// d consists of the clauses of c that are not tautologies, each with the same literals
pub open spec fn cleaned(c: Seq<Clause>, d: Seq<Clause>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() && !taut((#[trigger] c[i]).s()) ==> simin(d, c[i].s())
    &&& forall|j: int| 0 <= j < d.len() ==> !taut((#[trigger] d[j]).s()) && simin(c, d[j].s())
}
pub open spec fn simin(d: Seq<Clause>, s: Seq<Lit>) -> bool { exists|j: int| 0 <= j < d.len() && same_lits((#[trigger] d[j]).s(), s) }
pub proof fn lem_cleaned_step(c: Seq<Clause>, n: int, d: Seq<Clause>, e: Seq<Clause>)
    requires 0 <= n < c.len(), cleaned(c.take(n), d), taut(c[n].s()) ==> e == d, !taut(c[n].s()) ==> e.len() == d.len() + 1 && e == d.push(e.last()) && same_lits(e.last().s(), c[n].s()),
    ensures cleaned(c.take(n + 1), e),
{
    let (c0, c1) = (c.take(n), c.take(n + 1));
    assert forall|i: int| 0 <= i < c1.len() && !taut((#[trigger] c1[i]).s()) implies simin(e, c1[i].s()) by {
        if i < n { assert(c0[i] == c1[i]); assert(simin(d, c0[i].s())); let j = choose|j: int| 0 <= j < d.len() && same_lits((#[trigger] d[j]).s(), c0[i].s()); assert(e[j] == d[j]); }
        else { assert(same_lits(e[d.len() as int].s(), c[n].s())); }
    }
    assert forall|j: int| 0 <= j < e.len() implies !taut((#[trigger] e[j]).s()) && simin(c1, e[j].s()) by {
        if j < d.len() { assert(e[j] == d[j]); assert(simin(c0, d[j].s())); let i = choose|i: int| 0 <= i < c0.len() && same_lits((#[trigger] c0[i]).s(), d[j].s()); assert(c1[i] == c0[i]); }
        else { assert(e[j] == e.last()); lem_taut_same(c[n].s(), e[j].s()); assert(c1[n] == c[n]); assert(same_lits(c1[n].s(), e[j].s())); }
    }
}
pub proof fn lem_cleaned_perm(c: Seq<Clause>, d: Seq<Clause>, e: Seq<Clause>)
    requires cleaned(c, d), forall|s: Seq<Lit>| in_cls(d, s) == #[trigger] in_cls(e, s),
    ensures cleaned(c, e),
{
    assert forall|i: int| 0 <= i < c.len() && !taut((#[trigger] c[i]).s()) implies simin(e, c[i].s()) by {
        let j = choose|j: int| 0 <= j < d.len() && same_lits((#[trigger] d[j]).s(), c[i].s());
        assert(in_cls(d, d[j].s())); assert(in_cls(e, d[j].s()));
        let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).s() == d[j].s();
        assert(same_lits(e[k].s(), c[i].s()));
    }
    assert forall|j: int| 0 <= j < e.len() implies !taut((#[trigger] e[j]).s()) && simin(c, e[j].s()) by {
        assert(in_cls(e, e[j].s())); assert(in_cls(d, e[j].s()));
        let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).s() == e[j].s();
        assert(simin(c, d[k].s()));
    }
}
pub proof fn lem_same_sat(s: Seq<Lit>, t: Seq<Lit>, a: Asg) requires same_lits(s, t) ensures cl_true(s, a) == cl_true(t, a)
{
    if cl_true(s, a) { let i = choose|i: int| 0 <= i < s.len() && tv(a, #[trigger] s[i]); assert(has(s, s[i])); assert(has(t, s[i])); let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == s[i]; assert(tv(a, t[j])); }
    if cl_true(t, a) { let i = choose|i: int| 0 <= i < t.len() && tv(a, #[trigger] t[i]); assert(has(t, t[i])); assert(has(s, t[i])); let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == t[i]; assert(tv(a, s[j])); }
}
pub proof fn lem_taut_true(s: Seq<Lit>, a: Asg) requires taut(s) ensures cl_true(s, a)
{
    let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i] == (#[trigger] s[j]).opp();
    lem_opp(s[j], a);
    assert(tv(a, s[i]) || tv(a, s[j]));
}
pub proof fn lem_cleaned_sat(c: Seq<Clause>, d: Seq<Clause>) requires cleaned(c, d) ensures forall|a: Asg| #[trigger] cnf_true(d, a) == cnf_true(c, a)
{
    assert forall|a: Asg| #[trigger] cnf_true(d, a) == cnf_true(c, a) by {
        if cnf_true(d, a) {
            assert forall|i: int| 0 <= i < c.len() implies cl_true((#[trigger] c[i]).s(), a) by {
                if taut(c[i].s()) { lem_taut_true(c[i].s(), a); } else {
                    let j = choose|j: int| 0 <= j < d.len() && same_lits((#[trigger] d[j]).s(), c[i].s());
                    lem_same_sat(d[j].s(), c[i].s(), a);
                }
            }
        }
        if cnf_true(c, a) {
            assert forall|j: int| 0 <= j < d.len() implies cl_true((#[trigger] d[j]).s(), a) by {
                assert(simin(c, d[j].s()));
                let i = choose|i: int| 0 <= i < c.len() && same_lits((#[trigger] c[i]).s(), d[j].s());
                lem_same_sat(c[i].s(), d[j].s(), a);
            }
        }
    }
}
// ---- the derived (lexicographic) order of clauses; trusted to be a total order ----
pub uninterp spec fn cl_le(x: Seq<Lit>, y: Seq<Lit>) -> bool;
pub axiom fn ax_cl_le() ensures forall|x: Seq<Lit>, y: Seq<Lit>| #[trigger] cl_le(x, y) && cl_le(y, x) ==> x == y, forall|x: Seq<Lit>, y: Seq<Lit>, z: Seq<Lit>| #[trigger] cl_le(x, y) && #[trigger] cl_le(y, z) ==> cl_le(x, z);
pub open spec fn cl_lt(x: Seq<Lit>, y: Seq<Lit>) -> bool { cl_le(x, y) && x != y }
pub open spec fn sorted_cls(c: Seq<Clause>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> cl_le((#[trigger] c[i]).s(), (#[trigger] c[j]).s()) }
/// strictly increasing, hence without duplicates
pub open spec fn strict_cls(c: Seq<Clause>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> cl_lt((#[trigger] c[i]).s(), (#[trigger] c[j]).s()) }
pub proof fn lem_strict_cls(c: Seq<Clause>) requires sorted_cls(c), forall|i: int| 0 <= i < c.len() - 1 ==> (#[trigger] c[i]).s() != c[i + 1].s() ensures strict_cls(c)
{
    ax_cl_le();
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies cl_lt((#[trigger] c[i]).s(), (#[trigger] c[j]).s()) by {
        assert(cl_le(c[i].s(), c[i + 1].s()));
        if j > i + 1 { assert(cl_le(c[i + 1].s(), c[j].s())); }
    }
}
/// two normalized formulas with the same clauses are equal: comparing them compares sets of sets of literals
pub proof fn lem_canonical(c: Seq<Clause>, d: Seq<Clause>)
    requires strict_cls(c), strict_cls(d), forall|s: Seq<Lit>| in_cls(c, s) == #[trigger] in_cls(d, s),
    ensures c.len() == d.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).s() == d[i].s(),
{ lem_canon_to(c, d, 0); }
pub proof fn lem_canon_to(c: Seq<Clause>, d: Seq<Clause>, k: int)
    requires strict_cls(c), strict_cls(d), forall|s: Seq<Lit>| in_cls(c, s) == #[trigger] in_cls(d, s), 0 <= k <= c.len(), k <= d.len(), forall|i: int| 0 <= i < k ==> (#[trigger] c[i]).s() == d[i].s(),
    ensures c.len() == d.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).s() == d[i].s(),
    decreases c.len() - k,
{
    ax_cl_le();
    if k < c.len() && k < d.len() {
        assert(in_cls(c, c[k].s())); assert(in_cls(d, c[k].s()));
        assert(in_cls(d, d[k].s())); assert(in_cls(c, d[k].s()));
        let x = choose|x: int| 0 <= x < d.len() && (#[trigger] d[x]).s() == c[k].s();
        let y = choose|y: int| 0 <= y < c.len() && (#[trigger] c[y]).s() == d[k].s();
        if x < k { assert(c[x].s() == d[x].s()); assert(cl_lt(c[x].s(), c[k].s())); }
        if y < k { assert(c[y].s() == d[y].s()); assert(cl_lt(d[y].s(), d[k].s())); }
        if x > k && y > k { assert(cl_lt(d[k].s(), d[x].s())); assert(cl_lt(c[k].s(), c[y].s())); }
        lem_canon_to(c, d, k + 1);
    } else if k < c.len() {
        assert(in_cls(c, c[k].s())); assert(in_cls(d, c[k].s()));
        let x = choose|x: int| 0 <= x < d.len() && (#[trigger] d[x]).s() == c[k].s();
        assert(c[x].s() == d[x].s()); assert(cl_lt(c[x].s(), c[k].s()));
    } else if k < d.len() {
        assert(in_cls(d, d[k].s())); assert(in_cls(c, d[k].s()));
        let x = choose|x: int| 0 <= x < c.len() && (#[trigger] c[x]).s() == d[k].s();
        assert(c[x].s() == d[x].s()); assert(cl_lt(d[x].s(), d[k].s()));
    }
}
// ---- trusted: the standard library's sort and dedup on vectors of clauses ----
pub trait VxClauses { fn vx_csort(&mut self); fn vx_cdedup(&mut self); }
impl VxClauses for Vec<Clause> {
    #[verifier::external_body]
    fn vx_csort(&mut self) ensures sorted_cls(final(self)@), forall|s: Seq<Lit>| in_cls(old(self)@, s) == #[trigger] in_cls(final(self)@, s) { self.sort_unstable_by(|a, b| a.lits.cmp(&b.lits)) }
    #[verifier::external_body]
    fn vx_cdedup(&mut self)
        ensures sorted_cls(old(self)@) ==> sorted_cls(final(self)@), forall|s: Seq<Lit>| in_cls(old(self)@, s) == #[trigger] in_cls(final(self)@, s),
            forall|i: int| 0 <= i < final(self)@.len() - 1 ==> (#[trigger] final(self)@[i]).s() != final(self)@[i + 1].s(),
    { self.dedup_by(|a, b| a.lits == b.lits) }
}
pub proof fn lem_short_cl(s: Seq<Lit>)
    ensures s.len() == 2 ==> forall|a: Asg| #[trigger] cl_true(s, a) <==> (tv(a, s[0]) || tv(a, s[1])), s.len() == 3 ==> forall|a: Asg| #[trigger] cl_true(s, a) <==> (tv(a, s[0]) || tv(a, s[1]) || tv(a, s[2])),
{}
pub trait VxExt<T> { fn vx_extend(&mut self, v: Vec<T>); }
impl<T> VxExt<T> for Vec<T> {
    // the standard library's extend of a vector by a vector
    fn vx_extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { let mut v = v; self.append(&mut v); }
}
pub fn vx_cnf_arr<const N: usize>(a: [Clause; N]) -> (r: Cnf) ensures r.c() == a@ { Cnf { clauses: vx_vec_from_arr(a) } }
impl Cnf {
    pub open spec fn c(&self) -> Seq<Clause> { self.clauses@ }
    pub open spec fn sat(&self, a: Asg) -> bool { cnf_true(self.clauses@, a) }
//@fn src/instances/sat.rs Cnf::new
//@ret r
    ensures r.c().len() == 0,
//@sub Cnf::default\(\) ==> Cnf { clauses: Vec::new() }
//@end
//@fn src/instances/sat.rs Cnf::with_capacity
//@ret r
    ensures r.c().len() == 0,
//@end
//@fn src/instances/sat.rs Cnf::is_empty
//@ret r
    ensures r == (self.c().len() == 0),
//@end
//@fn src/instances/sat.rs Cnf::len
//@ret r
    ensures r == self.c().len(),
//@end
//@fn src/instances/sat.rs <Cnf as CollectClauses>::n_clauses pub
//@ret r
    ensures r == self.c().len(),
//@end
//@fn src/instances/sat.rs Cnf::clear
    ensures final(self).c().len() == 0,
//@end
//@fn src/instances/sat.rs Cnf::add_clause
    ensures final(self).c() == old(self).c().push(clause),
//@end
//@fn src/instances/sat.rs <Cnf as Extend<Clause>>::extend inst=Iter:Vec<Clause> extend=keep
    ensures final(self).c() == old(self).c() + iter@,
//@rename .extend => .vx_extend
//@end
//@fn src/instances/sat.rs Cnf::add_lit_impl_lit
    ensures forall|a_: Asg| #[trigger] cnf_true(final(self).c(), a_) <==> cnf_true(old(self).c(), a_) && (tv(a_, a) ==> tv(a_, b)),
        keeps(old(self).c(), final(self).c(), seq![a], seq![b]), final(self).c().len() >= old(self).c().len(), final(self).c().take(old(self).c().len() as int) == old(self).c(),
//@ghost end
    proof {
        let (o, f) = (old(self).c(), self.c());
        assert(f =~= o.push(f.last()));
        lem_keep1(o, f.last(), seq![a], seq![b]);
        assert(f.take(o.len() as int) =~= o);
    }
//@end
//@fn src/instances/sat.rs Cnf::add_lit_impl_clause
    ensures forall|a_: Asg| #[trigger] cnf_true(final(self).c(), a_) <==> cnf_true(old(self).c(), a_) && (tv(a_, a) ==> cl_true(b@, a_)),
        keeps(old(self).c(), final(self).c(), seq![a], b@), final(self).c().len() >= old(self).c().len(), final(self).c().take(old(self).c().len() as int) == old(self).c(),
//@ghost end
    proof {
        let (o, f) = (old(self).c(), self.c());
        assert(f =~= o.push(f.last()));
        lem_keep1(o, f.last(), seq![a], b@);
        assert(f.take(o.len() as int) =~= o);
    }
//@end
//@fn src/instances/sat.rs Cnf::add_lit_impl_cube
    ensures forall|a_: Asg| #[trigger] cnf_true(final(self).c(), a_) <==> cnf_true(old(self).c(), a_) && (tv(a_, a) ==> cube_true(b@, a_)),
        keeps(old(self).c(), final(self).c(), seq![a], b@), final(self).c().len() >= old(self).c().len(), final(self).c().take(old(self).c().len() as int) == old(self).c(),
//@ghost end
    proof {
        let (o, f) = (old(self).c(), self.c());
        lem_keep_all(o, seq![a], b@);
        assert(f.take(o.len() as int) =~= o);
    }
//@end
//@fn src/instances/sat.rs Cnf::add_cube_impl_lit
    ensures forall|a_: Asg| #[trigger] cnf_true(final(self).c(), a_) <==> cnf_true(old(self).c(), a_) && (cube_true(a@, a_) ==> tv(a_, b)),
        keeps(old(self).c(), final(self).c(), a@, seq![b]), final(self).c().len() >= old(self).c().len(), final(self).c().take(old(self).c().len() as int) == old(self).c(),
//@ghost end
    proof {
        let (o, f) = (old(self).c(), self.c());
        assert(f =~= o.push(f.last()));
        lem_keep1(o, f.last(), a@, seq![b]);
        assert(f.take(o.len() as int) =~= o);
    }
//@end
//@fn src/instances/sat.rs Cnf::add_clause_impl_lit
    ensures forall|a_: Asg| #[trigger] cnf_true(final(self).c(), a_) <==> cnf_true(old(self).c(), a_) && (cl_true(a@, a_) ==> tv(a_, b)),
        keeps(old(self).c(), final(self).c(), a@, seq![b]), final(self).c().len() >= old(self).c().len(), final(self).c().take(old(self).c().len() as int) == old(self).c(),
//@ghost end
    proof {
        let (o, f) = (old(self).c(), self.c());
        lem_keep_all(o, a@, seq![b]);
        assert(f.take(o.len() as int) =~= o);
    }
//@end
//@fn src/instances/sat.rs Cnf::add_cube_impl_clause
    ensures forall|a_: Asg| #[trigger] cnf_true(final(self).c(), a_) <==> cnf_true(old(self).c(), a_) && (cube_true(a@, a_) ==> cl_true(b@, a_)),
        keeps(old(self).c(), final(self).c(), a@, b@), final(self).c().len() >= old(self).c().len(), final(self).c().take(old(self).c().len() as int) == old(self).c(),
//@ghost end
    proof {
        let (o, f) = (old(self).c(), self.c());
        assert(f =~= o.push(f.last()));
        lem_keep1(o, f.last(), a@, b@);
        assert(f.take(o.len() as int) =~= o);
    }
//@end
//@fn src/instances/sat.rs Cnf::add_clause_impl_clause
    ensures forall|a_: Asg| #[trigger] cnf_true(final(self).c(), a_) <==> cnf_true(old(self).c(), a_) && (cl_true(a@, a_) ==> cl_true(b@, a_)),
        keeps(old(self).c(), final(self).c(), a@, b@), final(self).c().len() >= old(self).c().len(), final(self).c().take(old(self).c().len() as int) == old(self).c(),
//@ghost end
    proof {
        let (o, f) = (old(self).c(), self.c());
        lem_keep_all(o, a@, b@);
        assert(f.take(o.len() as int) =~= o);
    }
//@end
//@fn src/instances/sat.rs Cnf::add_clause_impl_cube
    ensures forall|a_: Asg| #[trigger] cnf_true(final(self).c(), a_) <==> cnf_true(old(self).c(), a_) && (cl_true(a@, a_) ==> cube_true(b@, a_)),
        keeps(old(self).c(), final(self).c(), a@, b@), final(self).c().len() >= old(self).c().len(), final(self).c().take(old(self).c().len() as int) == old(self).c(),
//@ghost end
    proof {
        let (o, f) = (old(self).c(), self.c());
        lem_keep_all(o, a@, b@);
        assert(f.take(o.len() as int) =~= o);
    }
//@end
//@fn src/instances/sat.rs Cnf::add_cube_impl_cube
    ensures forall|a_: Asg| #[trigger] cnf_true(final(self).c(), a_) <==> cnf_true(old(self).c(), a_) && (cube_true(a@, a_) ==> cube_true(b@, a_)),
        keeps(old(self).c(), final(self).c(), a@, b@), final(self).c().len() >= old(self).c().len(), final(self).c().take(old(self).c().len() as int) == old(self).c(),
//@ghost end
    proof {
        let (o, f) = (old(self).c(), self.c());
        lem_keep_all(o, a@, b@);
        assert(f.take(o.len() as int) =~= o);
    }
//@end
//@fn src/instances/sat.rs Cnf::add_nary
    ensures final(self).c().len() == old(self).c().len() + 1, final(self).c().last().s() == lits@, final(self).c().drop_last() == old(self).c(),
        keeps(old(self).c(), final(self).c(), lits@, lits@), forall|a: Asg| #[trigger] cnf_true(final(self).c(), a) <==> cnf_true(old(self).c(), a) && cl_true(lits@, a),
//@ghost end
    proof { lem_mentions_self(lits@, lits@); lem_keep1(old(self).c(), self.c().last(), lits@, lits@); assert(self.c() =~= old(self).c().push(self.c().last())); }
//@end
//@fn src/instances/sat.rs <Cnf as IntoIterator>::into_iter pub
//@ret r
    ensures r.remaining() == self.c(), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
//@sub Self\s*::\s*IntoIter ==> std::vec::IntoIter<Clause>
//@end
//@fn src/instances/sat.rs <Cnf as FromIterator<Clause>>::from_iter inst=T:Vec<Clause> chains=loop collect0=vec:Clause pub
//@ret r
    ensures r.c() == iter@,
//@loop 0 iter=it
    invariant it.seq() == iter@, vx_acc0@ == iter@.take(it.index@ as int),
//@ghost loop 0 end
    proof { assert(iter@.take(it.index@ as int + 1) =~= iter@.take(it.index@ as int).push(iter@[it.index@ as int])); }
//@ghost loop 0 after
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@end
//@fn src/instances/sat.rs Cnf::add_unit
    ensures forall|a: Asg| #[trigger] cnf_true(final(self).c(), a) <==> cnf_true(old(self).c(), a) && tv(a, unit), keeps(old(self).c(), final(self).c(), seq![unit], seq![unit]),
        final(self).c().len() == old(self).c().len() + 1, final(self).c().last().s() == seq![unit], final(self).c().drop_last() == old(self).c(),
//@ghost end
    proof { lem_single(); lem_mentions_self(seq![unit], seq![unit]); lem_keep1(old(self).c(), self.c().last(), seq![unit], seq![unit]); assert(self.c() =~= old(self).c().push(self.c().last())); }
//@end
//@fn src/instances/sat.rs Cnf::add_binary
    ensures forall|a: Asg| #[trigger] cnf_true(final(self).c(), a) <==> cnf_true(old(self).c(), a) && (tv(a, lit1) || tv(a, lit2)), keeps(old(self).c(), final(self).c(), seq![lit1, lit2], seq![lit1, lit2]),
        final(self).c().len() == old(self).c().len() + 1, final(self).c().last().s() == seq![lit1, lit2], final(self).c().drop_last() == old(self).c(),
//@ghost end
    proof { let x = seq![lit1, lit2]; lem_short_cl(x); lem_mentions_self(x, x); lem_keep1(old(self).c(), self.c().last(), x, x); assert(self.c() =~= old(self).c().push(self.c().last())); }
//@end
//@fn src/instances/sat.rs Cnf::add_ternary
    ensures forall|a: Asg| #[trigger] cnf_true(final(self).c(), a) <==> cnf_true(old(self).c(), a) && (tv(a, lit1) || tv(a, lit2) || tv(a, lit3)), keeps(old(self).c(), final(self).c(), seq![lit1, lit2, lit3], seq![lit1, lit2, lit3]),
        final(self).c().len() == old(self).c().len() + 1, final(self).c().last().s() == seq![lit1, lit2, lit3], final(self).c().drop_last() == old(self).c(),
//@ghost end
    proof { let x = seq![lit1, lit2, lit3]; lem_short_cl(x); lem_mentions_self(x, x); assert(self.c().last().s() =~= x); lem_keep1(old(self).c(), self.c().last(), x, x); assert(self.c() =~= old(self).c().push(self.c().last())); }
//@end
//@fn src/instances/sat.rs Cnf::join
//@ret r
    ensures r.c() == self.c() + other.c(), forall|a: Asg| #[trigger] r.sat(a) <==> self.sat(a) && other.sat(a),
//@sub extend\(other\) ==> extend(other.clauses)
//@ghost end
    proof { lem_cnf_add_all(self.c(), other.c()); }
//@end
//@fn src/instances/sat.rs Cnf::normalize chains=loop collect0=vec:Clause
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) == self.sat(a), strict_cls(r.c()), cleaned(self.c(), r.c()), forall|i: int| 0 <= i < r.c().len() ==> strict((#[trigger] r.c()[i]).s()),
//@rename .sort_unstable => .vx_csort
//@rename .dedup => .vx_cdedup
//@loop 0 iter=it
    invariant it.seq() == self.c(), cleaned(self.c().take(it.index@ as int), vx_acc0@), forall|i: int| 0 <= i < vx_acc0@.len() ==> strict((#[trigger] vx_acc0@[i]).s()),
//@ghost loop 0 start
    let ghost acc0 = vx_acc0@;
//@ghost loop 0 end
    proof { lem_cleaned_step(self.c(), it.index@ as int, acc0, vx_acc0@); }
//@ghost call vx_csort 0 before
    let ghost s0 = norm_clauses@;
    proof { assert(self.c().take(self.c().len() as int) =~= self.c()); }
//@ghost end
    proof {
        lem_cleaned_perm(self.c(), s0, vx_tail.c());
        lem_cleaned_sat(self.c(), vx_tail.c());
        lem_strict_cls(vx_tail.c());
        assert forall|i: int| 0 <= i < vx_tail.c().len() implies strict((#[trigger] vx_tail.c()[i]).s()) by { let c = vx_tail.c()[i]; assert(in_cls(vx_tail.c(), c.s())); assert(in_cls(s0, c.s())); }
    }
//@end
//@fn src/instances/sat.rs Cnf::sanitize chains=loop collect0=vec:Clause
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) == self.sat(a), cleaned(self.c(), r.c()), forall|i: int| 0 <= i < r.c().len() ==> (#[trigger] r.c()[i]).s().no_duplicates(),
//@loop 0 iter=it
    invariant it.seq() == self.c(), cleaned(self.c().take(it.index@ as int), vx_acc0@), forall|i: int| 0 <= i < vx_acc0@.len() ==> (#[trigger] vx_acc0@[i]).s().no_duplicates(),
//@ghost loop 0 start
    let ghost acc0 = vx_acc0@;
//@ghost loop 0 end
    proof { lem_cleaned_step(self.c(), it.index@ as int, acc0, vx_acc0@); }
//@ghost end
    proof { assert(self.c().take(self.c().len() as int) =~= self.c()); lem_cleaned_sat(self.c(), vx_tail.c()); }
//@end
//@fn src/instances/sat.rs Cnf::evaluate
//@ret r
    ensures (r == TernaryVal::True) == cnf_t(self.c(), *assign), (r == TernaryVal::False) == cnf_f(self.c(), *assign),
//@loop 0 iter=it
    invariant it.seq().len() == self.c().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.c()[i],
        val != TernaryVal::False, (val == TernaryVal::True) == (forall|i: int| 0 <= i < it.index@ ==> cl_t((#[trigger] self.c()[i]).s(), *assign)),
        forall|i: int| 0 <= i < it.index@ ==> !cl_f((#[trigger] self.c()[i]).s(), *assign),
//@ghost end
    proof { lem_cnf_t(self.c(), *assign); }
//@end
}
// ---- operators ----
pub proof fn lem_one_cls(c: Clause) ensures forall|a: Asg| #[trigger] cnf_true(seq![c], a) <==> cl_true(c.s(), a)
{ assert forall|a: Asg| #[trigger] cnf_true(seq![c], a) <==> cl_true(c.s(), a) by { let q = seq![c]; if cnf_true(q, a) { assert(cl_true(q[0].s(), a)); } } }
impl vstd::std_specs::ops::BitAndAssignSpecImpl<Var> for Cnf {
    open spec fn obeys_bitand_assign_spec() -> bool { false }
    open spec fn bitand_assign_req(&self, rhs: Var) -> bool { rhs.wf() }
    open spec fn bitand_assign_spec(&self, rhs: Var) -> &Cnf { arbitrary() }
}
impl std::ops::BitAndAssign<Var> for Cnf {
//@fn src/types/operators.rs <Cnf as BitAndAssign<Var>>::bitand_assign
    ensures final(self).c().len() == old(self).c().len() + 1, final(self).c().last().s() == seq![Lit::mk(rhs.i(), false)], final(self).c().drop_last() == old(self).c(),
//@end
}
impl vstd::std_specs::ops::BitAndAssignSpecImpl<Lit> for Cnf {
    open spec fn obeys_bitand_assign_spec() -> bool { false }
    open spec fn bitand_assign_req(&self, rhs: Lit) -> bool { true }
    open spec fn bitand_assign_spec(&self, rhs: Lit) -> &Cnf { arbitrary() }
}
impl std::ops::BitAndAssign<Lit> for Cnf {
//@fn src/types/operators.rs <Cnf as BitAndAssign<Lit>>::bitand_assign
    ensures final(self).c().len() == old(self).c().len() + 1, final(self).c().last().s() == seq![rhs], final(self).c().drop_last() == old(self).c(),
//@end
}
impl vstd::std_specs::ops::BitAndAssignSpecImpl<Clause> for Cnf {
    open spec fn obeys_bitand_assign_spec() -> bool { false }
    open spec fn bitand_assign_req(&self, rhs: Clause) -> bool { true }
    open spec fn bitand_assign_spec(&self, rhs: Clause) -> &Cnf { arbitrary() }
}
impl std::ops::BitAndAssign<Clause> for Cnf {
//@fn src/types/operators.rs <Cnf as BitAndAssign<Clause>>::bitand_assign
    ensures final(self).c() == old(self).c().push(rhs),
//@end
}
impl vstd::std_specs::ops::BitAndAssignSpecImpl<Cnf> for Cnf {
    open spec fn obeys_bitand_assign_spec() -> bool { false }
    open spec fn bitand_assign_req(&self, rhs: Cnf) -> bool { true }
    open spec fn bitand_assign_spec(&self, rhs: Cnf) -> &Cnf { arbitrary() }
}
impl std::ops::BitAndAssign<Cnf> for Cnf {
//@fn src/types/operators.rs <Cnf as BitAndAssign<Cnf>>::bitand_assign
    ensures final(self).c() == old(self).c() + rhs.c(),
//@sub extend\(rhs\) ==> extend(rhs.clauses)
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Var> for Var {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Var) -> bool { self.wf() && rhs.wf() }
    open spec fn bitand_spec(self, rhs: Var) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Var> for Var {
    type Output = Cnf;
//@fn src/types/operators.rs <Var as BitAnd<Var>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> a(self.i()) && a(rhs.i()), r.c().len() == 1 + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); let c = vx_tail.c(); lem_one_cls(c[0]); lem_cnf_push_all(seq![c[0]], c[1]); assert(c =~= seq![c[0]].push(c[1])); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Lit> for Var {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Lit) -> bool { self.wf() }
    open spec fn bitand_spec(self, rhs: Lit) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Lit> for Var {
    type Output = Cnf;
//@fn src/types/operators.rs <Var as BitAnd<Lit>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> a(self.i()) && tv(a, rhs), r.c().len() == 1 + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); let c = vx_tail.c(); lem_one_cls(c[0]); lem_cnf_push_all(seq![c[0]], c[1]); assert(c =~= seq![c[0]].push(c[1])); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Clause> for Var {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Clause) -> bool { self.wf() }
    open spec fn bitand_spec(self, rhs: Clause) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Clause> for Var {
    type Output = Cnf;
//@fn src/types/operators.rs <Var as BitAnd<Clause>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> a(self.i()) && rhs.sat(a), r.c().len() == 1 + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); let c = vx_tail.c(); lem_one_cls(c[0]); lem_cnf_push_all(seq![c[0]], c[1]); assert(c =~= seq![c[0]].push(c[1])); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Cnf> for Var {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Cnf) -> bool { self.wf() }
    open spec fn bitand_spec(self, rhs: Cnf) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Cnf> for Var {
    type Output = Cnf;
//@fn src/types/operators.rs <Var as BitAnd<Cnf>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> a(self.i()) && rhs.sat(a), r.c().len() == 1 + rhs.c().len(),
//@rename Cnf::from_iter => vx_cnf_arr
//@sub extend\(rhs\) ==> extend(rhs.clauses)
//@ghost end
    proof { lem_single(); lem_cnf_add_all(seq![vx_tail.c()[0]], rhs.c()); assert(vx_tail.c() =~= seq![vx_tail.c()[0]] + rhs.c()); lem_one_cls(vx_tail.c()[0]); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Var> for Lit {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Var) -> bool { rhs.wf() }
    open spec fn bitand_spec(self, rhs: Var) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Var> for Lit {
    type Output = Cnf;
//@fn src/types/operators.rs <Lit as BitAnd<Var>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> tv(a, self) && a(rhs.i()), r.c().len() == 1 + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); let c = vx_tail.c(); lem_one_cls(c[0]); lem_cnf_push_all(seq![c[0]], c[1]); assert(c =~= seq![c[0]].push(c[1])); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Lit> for Lit {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Lit) -> bool { true }
    open spec fn bitand_spec(self, rhs: Lit) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Lit> for Lit {
    type Output = Cnf;
//@fn src/types/operators.rs <Lit as BitAnd<Lit>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> tv(a, self) && tv(a, rhs), r.c().len() == 1 + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); let c = vx_tail.c(); lem_one_cls(c[0]); lem_cnf_push_all(seq![c[0]], c[1]); assert(c =~= seq![c[0]].push(c[1])); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Clause> for Lit {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Clause) -> bool { true }
    open spec fn bitand_spec(self, rhs: Clause) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Clause> for Lit {
    type Output = Cnf;
//@fn src/types/operators.rs <Lit as BitAnd<Clause>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> tv(a, self) && rhs.sat(a), r.c().len() == 1 + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); let c = vx_tail.c(); lem_one_cls(c[0]); lem_cnf_push_all(seq![c[0]], c[1]); assert(c =~= seq![c[0]].push(c[1])); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Cnf> for Lit {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Cnf) -> bool { true }
    open spec fn bitand_spec(self, rhs: Cnf) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Cnf> for Lit {
    type Output = Cnf;
//@fn src/types/operators.rs <Lit as BitAnd<Cnf>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> tv(a, self) && rhs.sat(a), r.c().len() == 1 + rhs.c().len(),
//@rename Cnf::from_iter => vx_cnf_arr
//@sub extend\(rhs\) ==> extend(rhs.clauses)
//@ghost end
    proof { lem_single(); lem_cnf_add_all(seq![vx_tail.c()[0]], rhs.c()); assert(vx_tail.c() =~= seq![vx_tail.c()[0]] + rhs.c()); lem_one_cls(vx_tail.c()[0]); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Var> for Clause {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Var) -> bool { rhs.wf() }
    open spec fn bitand_spec(self, rhs: Var) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Var> for Clause {
    type Output = Cnf;
//@fn src/types/operators.rs <Clause as BitAnd<Var>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> self.sat(a) && a(rhs.i()), r.c().len() == 1 + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); let c = vx_tail.c(); lem_one_cls(c[0]); lem_cnf_push_all(seq![c[0]], c[1]); assert(c =~= seq![c[0]].push(c[1])); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Lit> for Clause {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Lit) -> bool { true }
    open spec fn bitand_spec(self, rhs: Lit) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Lit> for Clause {
    type Output = Cnf;
//@fn src/types/operators.rs <Clause as BitAnd<Lit>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> self.sat(a) && tv(a, rhs), r.c().len() == 1 + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); let c = vx_tail.c(); lem_one_cls(c[0]); lem_cnf_push_all(seq![c[0]], c[1]); assert(c =~= seq![c[0]].push(c[1])); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Clause> for Clause {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Clause) -> bool { true }
    open spec fn bitand_spec(self, rhs: Clause) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Clause> for Clause {
    type Output = Cnf;
//@fn src/types/operators.rs <Clause as BitAnd<Clause>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> self.sat(a) && rhs.sat(a), r.c().len() == 1 + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); let c = vx_tail.c(); lem_one_cls(c[0]); lem_cnf_push_all(seq![c[0]], c[1]); assert(c =~= seq![c[0]].push(c[1])); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Cnf> for Clause {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Cnf) -> bool { true }
    open spec fn bitand_spec(self, rhs: Cnf) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Cnf> for Clause {
    type Output = Cnf;
//@fn src/types/operators.rs <Clause as BitAnd<Cnf>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> self.sat(a) && rhs.sat(a), r.c().len() == 1 + rhs.c().len(),
//@rename Cnf::from_iter => vx_cnf_arr
//@sub extend\(rhs\) ==> extend(rhs.clauses)
//@ghost end
    proof { lem_single(); lem_cnf_add_all(seq![vx_tail.c()[0]], rhs.c()); assert(vx_tail.c() =~= seq![vx_tail.c()[0]] + rhs.c()); lem_one_cls(vx_tail.c()[0]); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Var> for Cnf {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Var) -> bool { rhs.wf() }
    open spec fn bitand_spec(self, rhs: Var) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Var> for Cnf {
    type Output = Cnf;
//@fn src/types/operators.rs <Cnf as BitAnd<Var>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> self.sat(a) && a(rhs.i()), r.c().len() == self.c().len() + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); lem_cnf_push_all(self.c(), vx_tail.c().last()); assert(vx_tail.c() =~= self.c().push(vx_tail.c().last())); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Lit> for Cnf {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Lit) -> bool { true }
    open spec fn bitand_spec(self, rhs: Lit) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Lit> for Cnf {
    type Output = Cnf;
//@fn src/types/operators.rs <Cnf as BitAnd<Lit>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> self.sat(a) && tv(a, rhs), r.c().len() == self.c().len() + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); lem_cnf_push_all(self.c(), vx_tail.c().last()); assert(vx_tail.c() =~= self.c().push(vx_tail.c().last())); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Clause> for Cnf {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Clause) -> bool { true }
    open spec fn bitand_spec(self, rhs: Clause) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Clause> for Cnf {
    type Output = Cnf;
//@fn src/types/operators.rs <Cnf as BitAnd<Clause>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> self.sat(a) && rhs.sat(a), r.c().len() == self.c().len() + 1,
//@rename Cnf::from_iter => vx_cnf_arr
//@ghost end
    proof { lem_single(); lem_cnf_push_all(self.c(), vx_tail.c().last()); assert(vx_tail.c() =~= self.c().push(vx_tail.c().last())); }
//@end
}
impl vstd::std_specs::ops::BitAndSpecImpl<Cnf> for Cnf {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Cnf) -> bool { true }
    open spec fn bitand_spec(self, rhs: Cnf) -> Cnf { arbitrary() }
}
impl std::ops::BitAnd<Cnf> for Cnf {
    type Output = Cnf;
//@fn src/types/operators.rs <Cnf as BitAnd<Cnf>>::bitand
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> self.sat(a) && rhs.sat(a), r.c().len() == self.c().len() + rhs.c().len(),
//@rename Cnf::from_iter => vx_cnf_arr
//@sub extend\(rhs\) ==> extend(rhs.clauses)
//@ghost end
    proof { lem_cnf_add_all(self.c(), rhs.c()); }
//@end
}
