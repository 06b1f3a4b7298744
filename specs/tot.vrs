// ---- the totalizer ----
//@grename totdb::Db => Db
//@grename totdb::Db::default => Db::default
//@grename totdb::Semantics::If => Semantics::If
//@grename totdb::Semantics::OnlyIf => Semantics::OnlyIf
//@grename totdb::Node::Leaf => Node::Leaf
//@grename totdb::Node::Unit => Node::Unit
//@grename totdb::Node::General => Node::General
//@grename totdb::Node::Dummy => Node::Dummy
//@grename totdb::LitData::Lit => LitData::Lit
//@grename std::ops::Bound::Included => VxBound::Included
//@grename std::ops::Bound::Excluded => VxBound::Excluded
//@grename std::ops::Bound::Unbounded => VxBound::Unbounded
//@grename std::ops::RangeBounds => VxRb
//@grename crate::OutOfMemory => OutOfMemory
//@grename super::prepare_ub_range => prepare_ub_range
//@grename super::prepare_lb_range => prepare_lb_range
//@struct src/encodings/card/totalizer/mod.rs Totalizer
//@struct src/encodings/mod.rs NotEncoded Debug
//@struct src/encodings/mod.rs EnforceError Debug
impl Default for Db { #[verifier::external_body] fn default() -> (r: Db) ensures r.nodes@.len() == 0, r.lookup_leaf@ == Map::<Lit, NodeId>::empty() { unimplemented!() } }
#[verifier::external_body] pub proof fn ax_litvec(v: Vec<Lit>) ensures v@.len() < isize::MAX {}
/// std::ops::RangeBounds (the bounds of a range of numbers)
pub enum VxBound<T> { Included(T), Excluded(T), Unbounded }
pub trait VxRb<T>: Sized {
    spec fn lo(&self) -> VxBound<T>;
    spec fn hi(&self) -> VxBound<T>;
    fn start_bound(&self) -> (r: VxBound<&T>) ensures match self.lo() { VxBound::Included(x) => r is Included && *(r->Included_0) == x, VxBound::Excluded(x) => r is Excluded && *(r->Excluded_0) == x, VxBound::Unbounded => r is Unbounded };
    fn end_bound(&self) -> (r: VxBound<&T>) ensures match self.hi() { VxBound::Included(x) => r is Included && *(r->Included_0) == x, VxBound::Excluded(x) => r is Excluded && *(r->Excluded_0) == x, VxBound::Unbounded => r is Unbounded };
    fn vx_clone(&self) -> (r: Self) ensures r == *self;
}
impl VxRb<usize> for VxIncl {
    open spec fn lo(&self) -> VxBound<usize> { VxBound::Included(self.lo) }
    open spec fn hi(&self) -> VxBound<usize> { VxBound::Included(self.hi) }
    fn start_bound(&self) -> (r: VxBound<&usize>) { VxBound::Included(&self.lo) }
    fn end_bound(&self) -> (r: VxBound<&usize>) { VxBound::Included(&self.hi) }
    fn vx_clone(&self) -> (r: Self) { *self }
}
pub open spec fn vx_has<R: VxRb<usize>>(r: R, x: int) -> bool {
    (match r.lo() { VxBound::Included(b) => x >= b, VxBound::Excluded(b) => x > b, VxBound::Unbounded => true }) && (match r.hi() { VxBound::Included(b) => x <= b, VxBound::Excluded(b) => x < b, VxBound::Unbounded => true })
}
//@fn src/encodings/card/mod.rs prepare_ub_range
//@ret r
    requires tot_ok(*enc),
    ensures forall|x: int| #![trigger vx_has(range, x)] r.start <= x < r.end ==> vx_has(range, x) && x < nlits(*enc), forall|x: int| #![trigger vx_has(range, x)] 0 <= x < nlits(*enc) && vx_has(range, x) ==> r.start <= x < r.end, r.end <= nlits(*enc),
//@sub <Enc, R>\(\s*enc: &Enc ==> <R>(enc: &Totalizer
//@sub Enc: Encode, ==> 
//@ghost start
    proof { lem_total(*enc, assign_none()); }
//@end
//@fn src/encodings/card/mod.rs prepare_lb_range
//@ret r
    requires tot_ok(*enc),
    ensures forall|x: int| #![trigger vx_has(range, x)] r.start <= x < r.end ==> vx_has(range, x) && 1 <= x <= nlits(*enc), forall|x: int| #![trigger vx_has(range, x)] 1 <= x <= nlits(*enc) && vx_has(range, x) ==> r.start <= x < r.end, r.end <= nlits(*enc) + 1, r.start >= 1,
//@sub <Enc, R>\(\s*enc: &Enc ==> <R>(enc: &Totalizer
//@sub Enc: Encode, ==> 
//@ghost start
    proof { lem_total(*enc, assign_none()); }
//@end
pub open spec fn tot_ok(t: Totalizer) -> bool { lk_ok(t.db) && tree_in(t.db.nodes@) && t.offset == 0 && t.n_add_input == 0 && (t.root is Some ==> t.root->Some_0.0 < t.db.nodes@.len()) }
/// the variables of the encoding lie below n, and no input is the variable of an output
pub open spec fn tot_vars(t: Totalizer, n: nat) -> bool { vars_in(t.db.nodes@, n) && lits_in(t.db.nodes@, t.lit_buffer@, n) }
pub open spec fn lits_in(ns: Ns, ls: Seq<Lit>, n: nat) -> bool { forall|l: Lit| #[trigger] ls.contains(l) ==> l.v() < n && !is_out(ns, l.v()) }
pub open spec fn rid(t: Totalizer) -> int { t.root->Some_0.0 as int }
pub open spec fn nlits(t: Totalizer) -> int { t.lit_buffer@.len() + if t.root is Some { t.db.nodes@[rid(t)].nlen() } else { 0 } }
/// number of true input literals
pub open spec fn total(t: Totalizer, a: Asg) -> int { cnt(t.lit_buffer@, a) + if t.root is Some { nval(t.db.nodes@, rid(t), a) } else { 0 } }
pub proof fn lem_cnt_range(ls: Seq<Lit>, a: Asg) ensures 0 <= cnt(ls, a) <= ls.len() decreases ls.len() { if ls.len() > 0 { lem_cnt_range(ls.drop_last(), a); } }
pub proof fn lem_total(t: Totalizer, a: Asg) requires tot_ok(t) ensures 0 <= total(t, a) <= nlits(t), 0 <= nlits(t) < usize::MAX
{
    lem_cnt_range(t.lit_buffer@, a); ax_litvec(t.lit_buffer); lem_tree_db(t.db.nodes@);
    if t.root is Some { let n = t.db.nodes@[rid(t)]; assert(unode(t.db.nodes@, rid(t))); lem_nval_range(t.db.nodes@, rid(t), a); if n is Unit { ax_lits(n->Unit_0.lits); } }
}
/// adding leaves and inner nodes without outputs changes nothing of what is encoded
pub proof fn lem_grow(ns: Ns, ms: Ns, ls: Seq<Lit>, n: nat)
    requires tree_in(ns), tree_in(ms), built(ns, ms, ls), vars_in(ns, n), lits_in(ns, ls, n),
    ensures outs_in(ns, ms), vars_in(ms, n), forall|v: nat| #[trigger] is_out(ms, v) <==> is_out(ns, v), forall|a: Asg| #[trigger] strict(ms, a) ==> strict(ns, a), forall|a: Asg| holds_if(ns, a) ==> #[trigger] holds_if(ms, a), forall|a: Asg| holds_oi(ns, a) ==> #[trigger] holds_oi(ms, a),
{
    lem_tree_db(ns); lem_built(ns, ms, ls);
    assert forall|i: int, k: int| ns.len() <= i < ms.len() && (#[trigger] ms[i].out(k)) is Some implies ms[i] is Leaf && k == 0 && ls.contains(ms[i]->Leaf_0) by { assert(new_node(ms[i], ls)); }
    assert forall|i: int, k: int| ns.len() <= i < ms.len() && #[trigger] ms[i].oif(k) implies ms[i] is Leaf && k == 0 by { assert(new_node(ms[i], ls)); }
    assert forall|i: int, k: int| ns.len() <= i < ms.len() && #[trigger] ms[i].ooi(k) implies ms[i] is Leaf && k == 0 by { assert(new_node(ms[i], ls)); }
    assert forall|v: nat| #[trigger] is_out(ms, v) <==> is_out(ns, v) by {
        if is_out(ms, v) { let (i, k) = choose|i: int, k: int| 0 <= i < ms.len() && ms[i] is Unit && (#[trigger] ms[i].out(k)) is Some && ms[i].out(k)->Some_0.v() == v; assert(i < ns.len()); assert(ns[i].out(k) is Some); }
        if is_out(ns, v) { let (i, k) = choose|i: int, k: int| 0 <= i < ns.len() && ns[i] is Unit && (#[trigger] ns[i].out(k)) is Some && ns[i].out(k)->Some_0.v() == v; assert(ms[i].out(k) is Some); }
    }
    assert forall|v: nat| outv(ns, v) implies #[trigger] outv(ms, v) by { let (i, k) = choose|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some && ns[i].out(k)->Some_0.v() == v; assert(ms[i].out(k) is Some); }
    assert(vars_in(ms, n)) by {
        assert forall|i: int, k: int| 0 <= i < ms.len() && (#[trigger] ms[i].out(k)) is Some implies ms[i].out(k)->Some_0.v() < n by { if i < ns.len() { assert(ns[i].out(k) is Some); } }
        assert forall|i: int, k: int, j: int, m: int| 0 <= i < ms.len() && 0 <= j < ms.len() && ms[i] is Unit && (#[trigger] ms[i].out(k)) is Some && (#[trigger] ms[j].out(m)) is Some && ms[i].out(k)->Some_0.v() == ms[j].out(m)->Some_0.v() implies i == j && k == m by {
            assert(i < ns.len()); assert(ns[i].out(k) is Some);
            if j < ns.len() { assert(ns[j].out(m) is Some); } else { assert(is_out(ns, ns[i].out(k)->Some_0.v())); }
        }
        assert forall|i: int, k: int| 0 <= i < ms.len() && ms[i] is Unit && (#[trigger] ms[i].out(k)) is Some implies !ms[i].out(k)->Some_0.neg() by { assert(i < ns.len()); assert(ns[i].out(k) is Some); }
    }
    assert forall|a: Asg| #[trigger] strict(ms, a) implies strict(ns, a) by {
        assert forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some implies (tv(a, ns[i].out(k)->Some_0) <==> nval(ns, i, a) >= k + 1) by { assert(ms[i].out(k) is Some); assert(nval(ms, i, a) == nval(ns, i, a)); }
    }
    assert forall|a: Asg| holds_if(ns, a) implies #[trigger] holds_if(ms, a) by {
        assert forall|i: int, k: int| 0 <= i < ms.len() && #[trigger] ms[i].oif(k) implies ms[i].out(k) is Some && (nval(ms, i, a) >= k + 1 ==> tv(a, ms[i].out(k)->Some_0)) by { if i < ns.len() { assert(ns[i].oif(k)); assert(nval(ms, i, a) == nval(ns, i, a)); } }
    }
    assert forall|a: Asg| holds_oi(ns, a) implies #[trigger] holds_oi(ms, a) by {
        assert forall|i: int, k: int| 0 <= i < ms.len() && #[trigger] ms[i].ooi(k) implies ms[i].out(k) is Some && (tv(a, ms[i].out(k)->Some_0) ==> nval(ms, i, a) >= k + 1) by { if i < ns.len() { assert(ns[i].ooi(k)); assert(nval(ms, i, a) == nval(ns, i, a)); } }
    }
}
pub proof fn lem_ext_pre(t: Totalizer, ns: Ns, cs: Seq<NodeCon>, ls: Seq<Lit>)
    requires tot_ok(t), t.root is Some, built(t.db.nodes@, ns, ls), tree_in(ns), cs.len() == 2, is_full(cs[0]) && cs[0].ok() && cs[0].id == t.root->Some_0, is_full(cs[1]) && cs[1].ok() && cs[1].id.0 < ns.len(),
    ensures forall|i: int| 0 <= i < 2 ==> full_in(ns, #[trigger] cs[i]), nval(ns, rid(t), assign_none()) == nval(t.db.nodes@, rid(t), assign_none()),
{ lem_tree_db(t.db.nodes@); lem_built(t.db.nodes@, ns, ls); assert(unode(ns, rid(t))); assert(unode(ns, cs[1].id.0 as int)); }
pub proof fn lem_ext_root(t: Totalizer, ns: Ns, ms: Ns, cs: Seq<NodeCon>, r: int, ls: Seq<Lit>)
    requires tot_ok(t), t.root is Some, built(t.db.nodes@, ns, ls), built(ns, ms, Seq::empty()), tree_in(ns), cs.len() == 2, cs[0].id == t.root->Some_0, exists|c: NodeCon| c.id.0 == r && #[trigger] repr(ns, cs, ms, c, 0, 2),
    ensures built(t.db.nodes@, ms, ls), ms[r].nlen() == ns[cs[1].id.0 as int].nlen() + t.db.nodes@[rid(t)].nlen(), forall|a: Asg| #[trigger] nval(ms, r, a) == nval(ns, cs[1].id.0 as int, a) + nval(t.db.nodes@, rid(t), a),
{
    lem_tree_db(t.db.nodes@); lem_built(t.db.nodes@, ns, ls); lem_built_trans(t.db.nodes@, ns, ms, ls, Seq::empty());
    assert forall|a: Asg| suml(ns, cs, 0, 2) == ns[cs[0].id.0 as int].nlen() + ns[cs[1].id.0 as int].nlen() && #[trigger] sumv(ns, cs, 0, 2, a) == nval(ns, cs[0].id.0 as int, a) + nval(ns, cs[1].id.0 as int, a) by {
        assert(sumv(ns, cs, 0, 1, a) == sumv(ns, cs, 0, 0, a) + nval(ns, cs[0].id.0 as int, a)); assert(suml(ns, cs, 0, 1) == suml(ns, cs, 0, 0) + ns[cs[0].id.0 as int].nlen());
    }
    let x = sumv(ns, cs, 0, 2, assign_none());
    assert forall|a: Asg| #[trigger] nval(ms, r, a) == nval(ns, cs[1].id.0 as int, a) + nval(t.db.nodes@, rid(t), a) by { assert(nval(ns, rid(t), a) == nval(t.db.nodes@, rid(t), a)); let y = sumv(ns, cs, 0, 2, a); }
}
pub fn vx_drain(v: &mut Vec<Lit>) -> (r: Vec<Lit>) ensures r@ == old(v)@, final(v)@.len() == 0 { let mut o: Vec<Lit> = Vec::new(); o.append(v); proof { assert(o@ =~= old(v)@); } o }
/// what every call of an encoding function promises
pub open spec fn enc_core(t: Totalizer, u: Totalizer, c0: Seq<Clause>, c1: Seq<Clause>, n0: nat, n1: nat) -> bool {
    &&& tot_ok(u) && tot_vars(u, n1) && n0 <= n1 && grown(c0, c1)
    &&& nlits(u) == nlits(t) && forall|a: Asg| #[trigger] total(u, a) == total(t, a)
    &&& cons_ok(u.db.nodes@, since(c1, c0)) && cls_out(since(c1, c0), u.db.nodes@) && fresh_out(t.db.nodes@, u.db.nodes@, n0) && forall|a: Asg| #[trigger] strict(u.db.nodes@, a) ==> strict(t.db.nodes@, a)
    &&& outs_in(t.db.nodes@, u.db.nodes@) && ins_in(t, u)
    &&& u.n_clauses - t.n_clauses == c1.len() - c0.len() && u.n_vars - t.n_vars == n1 - n0
}
/// input literals of the encoding
pub open spec fn inlit(t: Totalizer, l: Lit) -> bool { t.lit_buffer@.contains(l) || exists|i: int| 0 <= i < t.db.nodes@.len() && #[trigger] t.db.nodes@[i] == Node::Leaf(l) }
pub open spec fn ins_in(t: Totalizer, u: Totalizer) -> bool { forall|l: Lit| #[trigger] inlit(u, l) ==> inlit(t, l) }
/// outputs and leaves stay
pub open spec fn outs_in(ns: Ns, ms: Ns) -> bool { forall|v: nat| outv(ns, v) ==> #[trigger] outv(ms, v) }
/// upper bounds that could be enforced before still can be
pub open spec fn keep_if(t: Totalizer, u: Totalizer, c0: Seq<Clause>, c1: Seq<Clause>) -> bool {
    if_imp(t.db.nodes@, u.db.nodes@, since(c1, c0)) && forall|x: int| ub_ready(t, x) ==> #[trigger] ub_ready(u, x)
}
pub open spec fn keep_oi(t: Totalizer, u: Totalizer, c0: Seq<Clause>, c1: Seq<Clause>) -> bool {
    oi_imp(t.db.nodes@, u.db.nodes@, since(c1, c0)) && forall|x: int| lb_ready(t, x) ==> #[trigger] lb_ready(u, x)
}
pub open spec fn enc_pre(t: Totalizer, c: Seq<Clause>, n: nat) -> bool { tot_ok(t) && tot_vars(t, n) && t.n_vars <= n && t.n_clauses <= c.len() }
/// the variables of outputs are old ones or new ones
pub open spec fn fresh_out(ns: Ns, ms: Ns, n: nat) -> bool { forall|v: nat| #[trigger] is_out(ms, v) ==> is_out(ns, v) || v >= n }
/// the bound can be enforced
pub open spec fn ub_ready(t: Totalizer, x: int) -> bool { x >= nlits(t) || t.lit_buffer@.len() == 0 && t.root is Some && t.db.nodes@[rid(t)].oif(x) }
pub open spec fn lb_ready(t: Totalizer, x: int) -> bool { x <= 0 || x <= nlits(t) && t.lit_buffer@.len() == 0 && t.root is Some && t.db.nodes@[rid(t)].ooi(x - 1) }
impl Totalizer {
//@fn src/encodings/card/totalizer/mod.rs Totalizer::extend_tree
    requires tot_ok(*old(self)),
    ensures tot_ok(*final(self)), final(self).lit_buffer@.len() == 0, built(old(self).db.nodes@, final(self).db.nodes@, old(self).lit_buffer@), nlits(*final(self)) == nlits(*old(self)), forall|a: Asg| #[trigger] total(*final(self), a) == total(*old(self), a),
        final(self).n_vars == old(self).n_vars, final(self).n_clauses == old(self).n_clauses, old(self).root is Some || old(self).lit_buffer@.len() > 0 ==> final(self).root is Some,
        old(self).lit_buffer@.len() == 0 ==> final(self).db == old(self).db && final(self).root == old(self).root,
//@sub self\.lit_buffer\.drain\(\.\.\) ==> vx_drain(&mut self.lit_buffer)
//@sub (?s)self\.db\s*\.merge\(\s*& ?mut (?:vec!)?\[(.*?)\],?\s*\)\s*\.unwrap\(\)\s*\.id ==> let mut vx_cs = vec![$1]; let ghost cs = vx_cs@; proof { lem_ext_pre(t0, self.db.nodes@, cs, ls); } let vx_r = self.db.merge(&mut vx_cs).unwrap().id; proof { lem_ext_root(t0, ns1, self.db.nodes@, cs, vx_r.0 as int, ls); } vx_r
//@ghost start
    let ghost t0 = *self;
    let ghost ls = self.lit_buffer@;
    proof { lem_built_refl(self.db.nodes@, ls); }
//@ghost call merge 0 before
    let ghost ns1 = self.db.nodes@;
//@ghost end
    proof { if t0.root is None { assert(t0.db.nodes@.len() <= self.db.nodes@.len()); } assert forall|a: Asg| #[trigger] total(*self, a) == total(t0, a) by { if t0.root is Some { assert(nval(self.db.nodes@, rid(*self), a) == cnt(ls, a) + nval(t0.db.nodes@, rid(t0), a)); } } }
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as Encode>::n_lits
//@ret r
    requires tot_ok(*self),
    ensures r == nlits(*self),
//@sub self\.db\[id\] ==> self.db.nodes[id.0]
//@ghost start
    proof { lem_total(*self, assign_none()); }
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as BoundUpper>::enforce_ub
//@ret r
    requires tot_ok(*self),
    ensures ub_ready(*self, ub as int) ==> r is Ok,
        r is Ok ==> lits_out(r->Ok_0@, self.db.nodes@) && (forall|a: Asg| #[trigger] holds_if(self.db.nodes@, a) && cube_true(r->Ok_0@, a) ==> total(*self, a) <= ub)
            && (forall|a: Asg| #[trigger] strict(self.db.nodes@, a) && total(*self, a) <= ub ==> cube_true(r->Ok_0@, a)),
//@sub self\.db\[id\] ==> self.db.nodes[id.0]
//@ghost start
    let ghost ns = self.db.nodes@;
    proof {
        lem_total(*self, assign_none()); lem_opp_tv(); lem_cube2();
        if self.root is Some { assert(unode(ns, rid(*self))); let o1 = ns[rid(*self)].oif(ub as int); let o2 = ns[rid(*self)].ooi(ub as int); if ns[rid(*self)].out(ub as int) is Some { assert(outv(ns, ns[rid(*self)].out(ub as int)->Some_0.v())); } if ub == 0 && ns[rid(*self)] is Leaf { assert(ns[rid(*self)].out(0) is Some); assert(outv(ns, ns[rid(*self)]->Leaf_0.v())); } }
        assert forall|a: Asg| 0 <= #[trigger] total(*self, a) <= nlits(*self) by { lem_total(*self, a); }
    }
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as BoundLower>::enforce_lb
//@ret r
    requires tot_ok(*self),
    ensures lb_ready(*self, lb as int) ==> r is Ok, lb > nlits(*self) <==> r is Err && r->Err_0 is Unsat,
        r is Err && r->Err_0 is Unsat ==> forall|a: Asg| #[trigger] total(*self, a) < lb,
        r is Ok ==> lits_out(r->Ok_0@, self.db.nodes@) && (forall|a: Asg| #[trigger] holds_oi(self.db.nodes@, a) && cube_true(r->Ok_0@, a) ==> total(*self, a) >= lb)
            && (forall|a: Asg| #[trigger] strict(self.db.nodes@, a) && total(*self, a) >= lb ==> cube_true(r->Ok_0@, a)),
//@sub self\.db\[id\] ==> self.db.nodes[id.0]
//@ghost start
    let ghost ns = self.db.nodes@;
    proof {
        lem_total(*self, assign_none()); lem_opp_tv(); lem_cube2();
        if self.root is Some { assert(unode(ns, rid(*self))); let o1 = ns[rid(*self)].oif(lb - 1); let o2 = ns[rid(*self)].ooi(lb - 1); if ns[rid(*self)].out(lb - 1) is Some { assert(outv(ns, ns[rid(*self)].out(lb - 1)->Some_0.v())); } if lb == 1 && ns[rid(*self)] is Leaf { assert(ns[rid(*self)].out(0) is Some); assert(outv(ns, ns[rid(*self)]->Leaf_0.v())); } }
        assert forall|a: Asg| 0 <= #[trigger] total(*self, a) <= nlits(*self) by { lem_total(*self, a); }
    }
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as BoundUpperIncremental>::encode_ub_change dyn
//@ret r
    requires enc_pre(*old(self), old(collector).cls(), old(var_manager).next()),
    ensures r is Ok ==> enc_core(*old(self), *final(self), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next())
            && keep_if(*old(self), *final(self), old(collector).cls(), final(collector).cls()) && keep_oi(*old(self), *final(self), old(collector).cls(), final(collector).cls())
            && (forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> ub_ready(*final(self), x)),
//@sub range\.is_empty\(\) ==> range.start >= range.end
//@loop 0 iter=it
    invariant it.seq().len() == rg.end - rg.start, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == rg.start + i, rg.end <= nlits(t0), nlits(t0) < usize::MAX,
        self.offset == 0, self.n_add_input == 0, self.root == Some(id), self.lit_buffer@ =~= Seq::<Lit>::empty(), self.n_vars == t0.n_vars, self.n_clauses == t0.n_clauses, lk_ok(self.db), tree_in(self.db.nodes@), n0 == n_vars_before, c0.len() == n_clauses_before,
        id.0 < ns1.len(), ns1[id.0 as int].nlen() == nlits(t0), ns1.len() == self.db.nodes@.len(),
        step_ok(ns1, self.db.nodes@, c0, collector.cls(), n0, var_manager.next()),
        forall|x: int| rg.start <= x < rg.start + it.index@ ==> #[trigger] self.db.nodes@[id.0 as int].oif(x),
//@ghost start
    let ghost t0 = *self;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    let ghost rg0 = range;
    proof { lem_total(t0, assign_none()); lem_enc_refl(t0, c0, n0); }
//@ghost call extend_tree 0 after
    let ghost t1 = *self;
    let ghost ns1 = self.db.nodes@;
    let ghost rg = range;
    proof { lem_grow(t0.db.nodes@, ns1, t0.lit_buffer@, n0); lem_tree_db(ns1); lem_step_refl(ns1, c0, n0); }
//@ghost loop 0 start
    let ghost ms = self.db.nodes@;
    let ghost cm = collector.cls();
    let ghost nm = var_manager.next();
    let ghost dbm = self.db;
    proof { lem_tree_db(ms); lem_step(ns1, ms, c0, cm, n0, nm); assert(unode(ms, id.0 as int)); assert(it.seq()[it.index@ as int] == idx); lem_same_len(ns1, ms, id.0 as int); }
//@ghost loop 0 end
    proof {
        lem_step(ms, self.db.nodes@, cm, collector.cls(), nm, var_manager.next());
        lem_step_trans(ns1, ms, self.db.nodes@, c0, cm, collector.cls(), n0, nm, var_manager.next());
        lem_ext_tree(dbm, self.db);
        assert forall|x: int| rg.start <= x < rg.start + it.index@ + 1 implies #[trigger] self.db.nodes@[id.0 as int].oif(x) by { assert(dext_node(ms[id.0 as int], self.db.nodes@[id.0 as int])); let z = ms[id.0 as int].out(x); if x < rg.start + it.index@ { assert(ms[id.0 as int].oif(x)); } }
    }
//@ghost loop 0 after
    proof { lem_step(ns1, self.db.nodes@, c0, collector.cls(), n0, var_manager.next()); }
//@ghost end
    proof {
        lem_enc_done(t0, t1, *self, c0, collector.cls(), n0, var_manager.next());
        assert forall|x: int| #![trigger vx_has(rg0, x)] x >= 0 && vx_has(rg0, x) implies ub_ready(*self, x) by { if rg.start <= x < rg.end { assert(self.db.nodes@[rid(*self)].oif(x)); } }
    }
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as BoundLowerIncremental>::encode_lb_change dyn
//@ret r
    requires enc_pre(*old(self), old(collector).cls(), old(var_manager).next()),
    ensures r is Ok ==> enc_core(*old(self), *final(self), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next())
            && keep_if(*old(self), *final(self), old(collector).cls(), final(collector).cls()) && keep_oi(*old(self), *final(self), old(collector).cls(), final(collector).cls())
            && (forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= nlits(*old(self)) ==> lb_ready(*final(self), x)),
//@sub range\.is_empty\(\) ==> range.start >= range.end
//@loop 0 iter=it
    invariant it.seq().len() == rg.end - rg.start, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == rg.start + i, rg.start >= 1, rg.end <= nlits(t0) + 1, nlits(t0) < usize::MAX,
        self.offset == 0, self.n_add_input == 0, self.root == Some(id), self.lit_buffer@ =~= Seq::<Lit>::empty(), self.n_vars == t0.n_vars, self.n_clauses == t0.n_clauses, lk_ok(self.db), tree_in(self.db.nodes@), n0 == n_vars_before, c0.len() == n_clauses_before,
        id.0 < ns1.len(), ns1[id.0 as int].nlen() == nlits(t0), ns1.len() == self.db.nodes@.len(),
        step_ok(ns1, self.db.nodes@, c0, collector.cls(), n0, var_manager.next()),
        forall|x: int| rg.start - 1 <= x < rg.start - 1 + it.index@ ==> #[trigger] self.db.nodes@[id.0 as int].ooi(x),
//@ghost start
    let ghost t0 = *self;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    let ghost rg0 = range;
    proof { lem_total(t0, assign_none()); lem_enc_refl(t0, c0, n0); }
//@ghost call extend_tree 0 after
    let ghost t1 = *self;
    let ghost ns1 = self.db.nodes@;
    let ghost rg = range;
    proof { lem_grow(t0.db.nodes@, ns1, t0.lit_buffer@, n0); lem_tree_db(ns1); lem_step_refl(ns1, c0, n0); }
//@ghost loop 0 start
    let ghost ms = self.db.nodes@;
    let ghost cm = collector.cls();
    let ghost nm = var_manager.next();
    let ghost dbm = self.db;
    proof { lem_tree_db(ms); lem_step(ns1, ms, c0, cm, n0, nm); assert(unode(ms, id.0 as int)); assert(it.seq()[it.index@ as int] == idx); lem_same_len(ns1, ms, id.0 as int); }
//@ghost loop 0 end
    proof {
        lem_step(ms, self.db.nodes@, cm, collector.cls(), nm, var_manager.next());
        lem_step_trans(ns1, ms, self.db.nodes@, c0, cm, collector.cls(), n0, nm, var_manager.next());
        lem_ext_tree(dbm, self.db);
        assert forall|x: int| rg.start - 1 <= x < rg.start - 1 + it.index@ + 1 implies #[trigger] self.db.nodes@[id.0 as int].ooi(x) by { assert(dext_node(ms[id.0 as int], self.db.nodes@[id.0 as int])); let z = ms[id.0 as int].out(x); if x < rg.start - 1 + it.index@ { assert(ms[id.0 as int].ooi(x)); } }
    }
//@ghost loop 0 after
    proof { lem_step(ns1, self.db.nodes@, c0, collector.cls(), n0, var_manager.next()); }
//@ghost end
    proof {
        lem_enc_done(t0, t1, *self, c0, collector.cls(), n0, var_manager.next());
        assert forall|x: int| #![trigger vx_has(rg0, x)] x >= 0 && vx_has(rg0, x) && x <= nlits(t0) implies lb_ready(*self, x) by { if rg.start <= x < rg.end { assert(self.db.nodes@[rid(*self)].ooi(x - 1)); } }
    }
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as BoundUpper>::encode_ub dyn
//@ret r
    requires enc_pre(*old(self), old(collector).cls(), old(var_manager).next()),
    ensures r is Ok ==> enc_core(*old(self), *final(self), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next())
            && sem_if(final(self).db.nodes@, since(final(collector).cls(), old(collector).cls())) && keep_oi(*old(self), *final(self), old(collector).cls(), final(collector).cls())
            && (forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> ub_ready(*final(self), x)),
//@ghost start
    let ghost t0 = *self;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
//@ghost call encode_ub_change 0 before
    let ghost t1 = *self;
    proof { lem_reset(t0, t1, n0, c0, Semantics::If); }
//@ghost end
    proof { if vx_tail is Ok { lem_reset_enc(t0, t1, *self, c0, collector.cls(), n0, var_manager.next()); } }
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as BoundLower>::encode_lb dyn
//@ret r
    requires enc_pre(*old(self), old(collector).cls(), old(var_manager).next()),
    ensures r is Ok ==> enc_core(*old(self), *final(self), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next())
            && sem_oi(final(self).db.nodes@, since(final(collector).cls(), old(collector).cls())) && keep_if(*old(self), *final(self), old(collector).cls(), final(collector).cls())
            && (forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= nlits(*old(self)) ==> lb_ready(*final(self), x)),
//@ghost start
    let ghost t0 = *self;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
//@ghost call encode_lb_change 0 before
    let ghost t1 = *self;
    proof { lem_reset(t0, t1, n0, c0, Semantics::OnlyIf); }
//@ghost end
    proof { if vx_tail is Ok { lem_reset_enc(t0, t1, *self, c0, collector.cls(), n0, var_manager.next()); } }
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as BoundBoth>::encode_both dyn
//@ret r
    requires enc_pre(*old(self), old(collector).cls(), old(var_manager).next()),
    ensures r is Ok ==> enc_core(*old(self), *final(self), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next())
            && keep_if(*old(self), *final(self), old(collector).cls(), final(collector).cls()) && keep_oi(*old(self), *final(self), old(collector).cls(), final(collector).cls())
            && (forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> ub_ready(*final(self), x) && (x <= nlits(*old(self)) ==> lb_ready(*final(self), x))),
//@sub range\.clone\(\) ==> range.vx_clone()
//@sub \+ Clone ==> 
//@ghost start
    let ghost t0 = *self;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
//@ghost call encode_lb_change 0 before
    let ghost t1 = *self;
    let ghost c1 = collector.cls();
    let ghost n1 = var_manager.next();
//@ghost call encode_lb_change 0 after
    proof { lem_enc_trans(t0, t1, *self, c0, c1, collector.cls(), n0, n1, var_manager.next()); }
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as EncodeStats>::n_clauses as=n_clauses_stat
//@ret r
    ensures r == self.n_clauses,
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as EncodeStats>::n_vars as=n_vars_stat
//@ret r
    ensures r == self.n_vars,
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as From<Vec<Lit>>>::from as=from
//@ret r
    ensures new_tot(r, lits@),
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as FromIterator<Lit>>::from_iter inst=T:Vec<Lit>
//@ret r
    ensures new_tot(r, iter@),
//@sub Vec::from_iter\(iter\) ==> iter
//@end
//@fn src/encodings/card/totalizer/mod.rs <Totalizer as Extend<Lit>>::extend inst=T:Vec<Lit>
    requires tot_ok(*old(self)),
    ensures tot_ok(*final(self)), final(self).db == old(self).db, final(self).root == old(self).root, final(self).lit_buffer@ == old(self).lit_buffer@ + iter@, final(self).n_vars == old(self).n_vars, final(self).n_clauses == old(self).n_clauses,
        nlits(*final(self)) == nlits(*old(self)) + iter@.len(), forall|a: Asg| #[trigger] total(*final(self), a) == total(*old(self), a) + cnt(iter@, a),
//@sub self\.lit_buffer\.extend\(iter\) ==> vx_append(&mut self.lit_buffer, iter)
//@ghost end
    proof { assert forall|a: Asg| #[trigger] total(*self, a) == total(*old(self), a) + cnt(iter@, a) by { lem_cnt_add(old(self).lit_buffer@, iter@, a); } }
//@end
}
pub proof fn lem_enc_refl(t: Totalizer, c: Seq<Clause>, n: nat) requires enc_pre(t, c, n) ensures enc_core(t, t, c, c, n, n), keep_if(t, t, c, c), keep_oi(t, t, c, c) { assert(c.take(c.len() as int) =~= c); assert(since(c, c) =~= Seq::<Clause>::empty()); }
pub proof fn lem_same_len(ns: Ns, ms: Ns, i: int) requires dext(ns, ms), 0 <= i < ns.len() ensures ms[i].nlen() == ns[i].nlen() { assert(dext_node(ns[i], ms[i])); }
pub proof fn lem_ext_tree(d: Db, e: Db) requires lk_ok(d), tree_in(d.nodes@), dext(d.nodes@, e.nodes@), db_in(e.nodes@), e.lookup_leaf == d.lookup_leaf ensures lk_ok(e), tree_in(e.nodes@)
{
    assert forall|i: int| 0 <= i < e.nodes@.len() implies #[trigger] unode(e.nodes@, i) by { assert(unode(d.nodes@, i)); assert(dext_node(d.nodes@[i], e.nodes@[i])); }
    assert forall|l: Lit| #[trigger] e.lookup_leaf@.contains_key(l) implies e.lookup_leaf@[l].0 < e.nodes@.len() && e.nodes@[e.lookup_leaf@[l].0 as int] == Node::Leaf(l) by { assert(dext_node(d.nodes@[d.lookup_leaf@[l].0 as int], e.nodes@[d.lookup_leaf@[l].0 as int])); }
}
/// a step after extending the tree
pub proof fn lem_enc_done(t: Totalizer, w: Totalizer, u: Totalizer, c0: Seq<Clause>, c1: Seq<Clause>, n0: nat, n1: nat)
    requires enc_pre(t, c0, n0), tot_ok(w), built(t.db.nodes@, w.db.nodes@, t.lit_buffer@), nlits(w) == nlits(t), forall|a: Asg| #[trigger] total(w, a) == total(t, a), w.lit_buffer@.len() == 0, t.lit_buffer@.len() == 0 ==> w.db == t.db && w.root == t.root,
        step_ok(w.db.nodes@, u.db.nodes@, c0, c1, n0, n1), u.root == w.root, u.lit_buffer@.len() == 0, tot_ok(u), u.n_clauses - t.n_clauses == c1.len() - c0.len(), u.n_vars - t.n_vars == n1 - n0,
    ensures enc_core(t, u, c0, c1, n0, n1), keep_if(t, u, c0, c1), keep_oi(t, u, c0, c1),
{
    let ns = t.db.nodes@; let ms = w.db.nodes@; let os = u.db.nodes@;
    lem_grow(ns, ms, t.lit_buffer@, n0); lem_step(ms, os, c0, c1, n0, n1); lem_dext(ms, os); lem_same(ms, os);
    let d = since(c1, c0);
    assert(if_imp(ns, os, d)) by { assert forall|a: Asg| #![trigger holds_if(os, a)] holds_if(ns, a) && cnf_true(d, a) implies holds_if(os, a) by { assert(holds_if(ms, a)); } }
    assert(oi_imp(ns, os, d)) by { assert forall|a: Asg| #![trigger holds_oi(os, a)] holds_oi(ns, a) && cnf_true(d, a) implies holds_oi(os, a) by { assert(holds_oi(ms, a)); } }
    assert(u.lit_buffer@ =~= Seq::<Lit>::empty()); assert(w.lit_buffer@ =~= Seq::<Lit>::empty());
    if w.root is Some { assert(dext_node(ms[rid(w)], os[rid(w)])); }
    assert forall|v: nat| outv(ms, v) implies #[trigger] outv(os, v) by { let (i, k) = choose|i: int, k: int| 0 <= i < ms.len() && (#[trigger] ms[i].out(k)) is Some && ms[i].out(k)->Some_0.v() == v; assert(dext_node(ms[i], os[i])); assert(os[i].out(k) is Some); }
    assert(outs_in(ns, os)) by { assert forall|v: nat| outv(ns, v) implies #[trigger] outv(os, v) by { assert(outv(ms, v)); } }
    assert forall|a: Asg| #[trigger] total(u, a) == total(t, a) by { assert(total(w, a) == total(t, a)); if u.root is Some { assert(nval(ms, rid(w), a) == nval(os, rid(w), a)); } }
    assert forall|v: nat| #[trigger] is_out(os, v) implies is_out(ns, v) || v >= n0 by {
        let (i, k) = choose|i: int, k: int| 0 <= i < os.len() && os[i] is Unit && (#[trigger] os[i].out(k)) is Some && os[i].out(k)->Some_0.v() == v;
        assert(dext_node(ms[i], os[i]));
        if ms[i].out(k) is Some { assert(is_out(ms, v)); }
    }
    assert forall|l: Lit| #[trigger] inlit(u, l) implies inlit(t, l) by {
        let i = choose|i: int| 0 <= i < os.len() && #[trigger] os[i] == Node::Leaf(l); assert(dext_node(ms[i], os[i])); assert(ms[i] == Node::Leaf(l));
        lem_tree_db(ns); lem_built(ns, ms, t.lit_buffer@);
        if i < ns.len() { assert(ms[i] == ns[i]); } else { assert(new_node(ms[i], t.lit_buffer@)); }
    }
    assert forall|x: int| ub_ready(t, x) implies #[trigger] ub_ready(u, x) by { if x < nlits(t) { let z = ms[rid(w)].out(x); } }
    assert forall|x: int| lb_ready(t, x) implies #[trigger] lb_ready(u, x) by { if x > 0 { let z = ms[rid(w)].out(x - 1); } }
}
pub fn vx_append(v: &mut Vec<Lit>, w: Vec<Lit>) ensures final(v)@ == old(v)@ + w@ { let mut w = w; v.append(&mut w); }
pub proof fn lem_cnt_add(s: Seq<Lit>, t: Seq<Lit>, a: Asg) ensures cnt(s + t, a) == cnt(s, a) + cnt(t, a) decreases t.len()
{ if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); lem_cnt_add(s, t.drop_last(), a); } }
/// a new totalizer over the literals
pub open spec fn new_tot(t: Totalizer, ls: Seq<Lit>) -> bool { tot_ok(t) && t.root is None && t.lit_buffer@ == ls && t.n_vars == 0 && t.n_clauses == 0 && t.db.nodes@.len() == 0 }
pub proof fn lem_new_tot(t: Totalizer, ls: Seq<Lit>, c: Seq<Clause>, n: nat) requires new_tot(t, ls), bel(ls, n)
    ensures enc_pre(t, c, n), nlits(t) == ls.len(), forall|a: Asg| #[trigger] total(t, a) == cnt(ls, a), forall|a: Asg| holds_if(t.db.nodes@, a) && holds_oi(t.db.nodes@, a), forall|v: nat| !is_out(t.db.nodes@, v), forall|a: Asg| strict(t.db.nodes@, a) {
    assert forall|l: Lit| #[trigger] ls.contains(l) implies l.v() < n by { let i = choose|i: int| 0 <= i < ls.len() && ls[i] == l; assert(ls[i].v() < n); }
}
pub proof fn lem_rst(d: Db, e: Db, s: Semantics, n: nat, c: Seq<Clause>)
    requires tree_in(d.nodes@), lk_ok(d), rst(d.nodes@, e.nodes@, s), e.lookup_leaf == d.lookup_leaf, vars_in(d.nodes@, n),
    ensures tree_in(e.nodes@), lk_ok(e), same(d.nodes@, e.nodes@), outs_in(d.nodes@, e.nodes@), vars_in(e.nodes@, n), forall|v: nat| #[trigger] is_out(e.nodes@, v) <==> is_out(d.nodes@, v), forall|a: Asg| #[trigger] strict(e.nodes@, a) ==> strict(d.nodes@, a),
        forall|a: Asg| s.sif() || holds_if(d.nodes@, a) ==> #[trigger] holds_if(e.nodes@, a), forall|a: Asg| s.soi() || holds_oi(d.nodes@, a) ==> #[trigger] holds_oi(e.nodes@, a),
{
    let ns = d.nodes@; let ms = e.nodes@;
    assert forall|i: int| 0 <= i < ns.len() implies #[trigger] same_node(ns[i], ms[i]) by { assert(rst_node(ns[i], ms[i], s)); }
    lem_tree_db(ns); lem_same(ns, ms);
    assert forall|i: int| 0 <= i < ms.len() implies #[trigger] unode(ms, i) by { assert(unode(ns, i)); assert(rst_node(ns[i], ms[i], s)); }
    assert forall|l: Lit| #[trigger] e.lookup_leaf@.contains_key(l) implies e.lookup_leaf@[l].0 < ms.len() && ms[e.lookup_leaf@[l].0 as int] == Node::Leaf(l) by { assert(rst_node(ns[d.lookup_leaf@[l].0 as int], ms[d.lookup_leaf@[l].0 as int], s)); }
    assert forall|i: int, k: int| #![trigger ms[i].out(k)] #![trigger ns[i].out(k)] 0 <= i < ns.len() implies ms[i].out(k) == ns[i].out(k) by { assert(rst_node(ns[i], ms[i], s)); }
    assert forall|v: nat| #[trigger] is_out(ms, v) <==> is_out(ns, v) by {
        if is_out(ms, v) { let (i, k) = choose|i: int, k: int| 0 <= i < ms.len() && ms[i] is Unit && (#[trigger] ms[i].out(k)) is Some && ms[i].out(k)->Some_0.v() == v; assert(rst_node(ns[i], ms[i], s)); assert(ns[i].out(k) is Some); }
        if is_out(ns, v) { let (i, k) = choose|i: int, k: int| 0 <= i < ns.len() && ns[i] is Unit && (#[trigger] ns[i].out(k)) is Some && ns[i].out(k)->Some_0.v() == v; assert(rst_node(ns[i], ms[i], s)); assert(ms[i].out(k) is Some); }
    }
    assert forall|v: nat| outv(ns, v) implies #[trigger] outv(ms, v) by { let (i, k) = choose|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some && ns[i].out(k)->Some_0.v() == v; assert(ms[i].out(k) is Some); }
    assert(vars_in(ms, n)) by { assert forall|i: int| 0 <= i < ns.len() implies (ms[i] is Unit <==> #[trigger] ns[i] is Unit) by { assert(rst_node(ns[i], ms[i], s)); } assert forall|i: int, k: int| 0 <= i < ms.len() && (#[trigger] ms[i].out(k)) is Some implies ms[i].out(k)->Some_0.v() < n by { assert(ns[i].out(k) is Some); } }
    assert forall|a: Asg| #[trigger] strict(ms, a) implies strict(ns, a) by { assert forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some implies (tv(a, ns[i].out(k)->Some_0) <==> nval(ns, i, a) >= k + 1) by { assert(ms[i].out(k) is Some); assert(nval(ms, i, a) == nval(ns, i, a)); } }
    assert forall|i: int, k: int| #![trigger ms[i].oif(k)] 0 <= i < ns.len() implies ms[i].oif(k) == (ns[i].oif(k) && (ns[i] is Leaf || !s.sif())) by { assert(rst_node(ns[i], ms[i], s)); }
    assert forall|i: int, k: int| #![trigger ms[i].ooi(k)] 0 <= i < ns.len() implies ms[i].ooi(k) == (ns[i].ooi(k) && (ns[i] is Leaf || !s.soi())) by { assert(rst_node(ns[i], ms[i], s)); }
    assert forall|a: Asg| s.sif() || holds_if(ns, a) implies #[trigger] holds_if(ms, a) by {
        assert forall|i: int, k: int| 0 <= i < ms.len() && #[trigger] ms[i].oif(k) implies ms[i].out(k) is Some && (nval(ms, i, a) >= k + 1 ==> tv(a, ms[i].out(k)->Some_0)) by { assert(rst_node(ns[i], ms[i], s)); assert(ns[i].oif(k)); assert(nval(ms, i, a) == nval(ns, i, a)); }
    }
    assert forall|a: Asg| s.soi() || holds_oi(ns, a) implies #[trigger] holds_oi(ms, a) by {
        assert forall|i: int, k: int| 0 <= i < ms.len() && #[trigger] ms[i].ooi(k) implies ms[i].out(k) is Some && (tv(a, ms[i].out(k)->Some_0) ==> nval(ms, i, a) >= k + 1) by { assert(rst_node(ns[i], ms[i], s)); assert(ns[i].ooi(k)); assert(nval(ms, i, a) == nval(ns, i, a)); }
    }
}
/// forgetting what has been encoded
pub proof fn lem_reset(t: Totalizer, u: Totalizer, n: nat, c: Seq<Clause>, s: Semantics)
    requires enc_pre(t, c, n), rst(t.db.nodes@, u.db.nodes@, s), u.db.lookup_leaf == t.db.lookup_leaf, u.root == t.root, u.lit_buffer == t.lit_buffer, u.n_vars == t.n_vars, u.n_clauses == t.n_clauses, u.offset == t.offset, u.n_add_input == t.n_add_input,
    ensures outs_in(t.db.nodes@, u.db.nodes@), ins_in(t, u), enc_pre(u, c, n), forall|a: Asg| #[trigger] strict(u.db.nodes@, a) ==> strict(t.db.nodes@, a), nlits(u) == nlits(t), forall|a: Asg| #[trigger] total(u, a) == total(t, a), forall|v: nat| #[trigger] is_out(u.db.nodes@, v) <==> is_out(t.db.nodes@, v),
        forall|a: Asg| s.sif() || holds_if(t.db.nodes@, a) ==> #[trigger] holds_if(u.db.nodes@, a), forall|a: Asg| s.soi() || holds_oi(t.db.nodes@, a) ==> #[trigger] holds_oi(u.db.nodes@, a), !s.sif() ==> keep_if(t, u, c, c), !s.soi() ==> keep_oi(t, u, c, c),
{
    let ns = t.db.nodes@; let ms = u.db.nodes@;
    lem_rst(t.db, u.db, s, n, c); lem_tree_db(ns); lem_same(ns, ms);
    assert forall|l: Lit| #[trigger] inlit(u, l) implies inlit(t, l) by { if !u.lit_buffer@.contains(l) { let i = choose|i: int| 0 <= i < ms.len() && #[trigger] ms[i] == Node::Leaf(l); assert(rst_node(ns[i], ms[i], s)); assert(ns[i] == Node::Leaf(l)); } }
    if t.root is Some { assert(rst_node(ns[rid(t)], ms[rid(t)], s)); }
    assert forall|a: Asg| #[trigger] total(u, a) == total(t, a) by { if t.root is Some { assert(nval(ms, rid(t), a) == nval(ns, rid(t), a)); } }
    if !s.sif() { assert forall|x: int| ub_ready(t, x) implies #[trigger] ub_ready(u, x) by { if x < nlits(t) { let z = ms[rid(t)].oif(x); } } }
    if !s.soi() { assert forall|x: int| lb_ready(t, x) implies #[trigger] lb_ready(u, x) by { if x > 0 { let z = ms[rid(t)].ooi(x - 1); } } }
}
pub proof fn lem_reset_enc(t: Totalizer, u: Totalizer, w: Totalizer, c0: Seq<Clause>, c1: Seq<Clause>, n0: nat, n1: nat)
    requires outs_in(t.db.nodes@, u.db.nodes@), ins_in(t, u), enc_core(u, w, c0, c1, n0, n1), forall|a: Asg| #[trigger] strict(u.db.nodes@, a) ==> strict(t.db.nodes@, a), nlits(u) == nlits(t), forall|a: Asg| #[trigger] total(u, a) == total(t, a), forall|v: nat| #[trigger] is_out(u.db.nodes@, v) <==> is_out(t.db.nodes@, v), u.n_vars == t.n_vars, u.n_clauses == t.n_clauses,
    ensures enc_core(t, w, c0, c1, n0, n1),
{ assert forall|a: Asg| #[trigger] total(w, a) == total(t, a) by { assert(total(u, a) == total(t, a)); } assert forall|v: nat| outv(t.db.nodes@, v) implies #[trigger] outv(w.db.nodes@, v) by { assert(outv(u.db.nodes@, v)); } }
pub proof fn lem_enc_trans(t: Totalizer, u: Totalizer, w: Totalizer, c0: Seq<Clause>, c1: Seq<Clause>, c2: Seq<Clause>, n0: nat, n1: nat, n2: nat)
    requires enc_pre(t, c0, n0), enc_core(t, u, c0, c1, n0, n1), enc_core(u, w, c1, c2, n1, n2),
    ensures enc_core(t, w, c0, c2, n0, n2), keep_if(t, u, c0, c1) && keep_if(u, w, c1, c2) ==> keep_if(t, w, c0, c2), keep_oi(t, u, c0, c1) && keep_oi(u, w, c1, c2) ==> keep_oi(t, w, c0, c2),
{
    lem_grown(c0, c1, c2);
    assert forall|v: nat| outv(t.db.nodes@, v) implies #[trigger] outv(w.db.nodes@, v) by { assert(outv(u.db.nodes@, v)); }
    assert forall|a: Asg| #[trigger] total(w, a) == total(t, a) by { assert(total(u, a) == total(t, a)); }
    assert forall|v: nat| #[trigger] is_out(w.db.nodes@, v) implies is_out(t.db.nodes@, v) || v >= n0 by { if is_out(u.db.nodes@, v) {} }
    lem_since_grown(c0, c1, c2);
    let d = since(c2, c0); let d1 = since(c1, c0); let d2 = since(c2, c1);
    assert(cls_out(d1, w.db.nodes@)) by { assert forall|i: int| 0 <= i < d1.len() implies lits_out((#[trigger] d1[i]).s(), w.db.nodes@) by { assert(lits_out(d1[i].s(), u.db.nodes@)); assert forall|j: int| 0 <= j < d1[i].s().len() implies outv(w.db.nodes@, (#[trigger] d1[i].s()[j]).v()) by { assert(outv(u.db.nodes@, d1[i].s()[j].v())); } } }
    lem_cls_add(d1, d2, w.db.nodes@);
    assert forall|a: Asg| #![trigger cnf_true(d, a)] #![trigger strict(w.db.nodes@, a)] strict(w.db.nodes@, a) implies cnf_true(d, a) by { assert(strict(u.db.nodes@, a)); assert(cnf_true(d1, a) && cnf_true(d2, a)); }
    assert(if_imp(t.db.nodes@, u.db.nodes@, d1) && if_imp(u.db.nodes@, w.db.nodes@, d2) ==> if_imp(t.db.nodes@, w.db.nodes@, d)) by { assert forall|a: Asg| #![trigger holds_if(w.db.nodes@, a)] if_imp(t.db.nodes@, u.db.nodes@, d1) && if_imp(u.db.nodes@, w.db.nodes@, d2) && holds_if(t.db.nodes@, a) && cnf_true(d, a) implies holds_if(w.db.nodes@, a) by { assert(holds_if(u.db.nodes@, a)); } }
    assert(oi_imp(t.db.nodes@, u.db.nodes@, d1) && oi_imp(u.db.nodes@, w.db.nodes@, d2) ==> oi_imp(t.db.nodes@, w.db.nodes@, d)) by { assert forall|a: Asg| #![trigger holds_oi(w.db.nodes@, a)] oi_imp(t.db.nodes@, u.db.nodes@, d1) && oi_imp(u.db.nodes@, w.db.nodes@, d2) && holds_oi(t.db.nodes@, a) && cnf_true(d, a) implies holds_oi(w.db.nodes@, a) by { assert(holds_oi(u.db.nodes@, a)); } }
}
