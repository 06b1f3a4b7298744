pub proof fn lem_law_ok(t: Totalizer, n: nat, n2: nat) requires tot_ok(t), tot_vars(t, n), n <= n2
    ensures tot_vars(t, n2), forall|v: nat| #[trigger] is_out(t.db.nodes@, v) ==> v < n && !t.inp(v), forall|v: nat| #[trigger] t.inp(v) ==> v < n, forall|v: nat| #[trigger] t.voc(v) ==> t.isout(v) || t.inp(v),
{
    let ns = t.db.nodes@;
    assert forall|v: nat| #[trigger] t.voc(v) implies t.isout(v) || t.inp(v) by {
        assert(outv(ns, v));
        let (i, k) = choose|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some && ns[i].out(k)->Some_0.v() == v;
        if ns[i] is Unit { assert(is_out(ns, v)); } else { assert(ns[i] is Leaf); assert(inlit(t, ns[i]->Leaf_0)); }
    }
    assert forall|l: Lit| #[trigger] inlit(t, l) implies l.v() < n && !is_out(ns, l.v()) by {
        if !t.lit_buffer@.contains(l) {
            let i = choose|i: int| 0 <= i < ns.len() && #[trigger] ns[i] == Node::Leaf(l); assert(ns[i].out(0) is Some);
            if is_out(ns, l.v()) { let (j, k) = choose|j: int, k: int| 0 <= j < ns.len() && ns[j] is Unit && (#[trigger] ns[j].out(k)) is Some && ns[j].out(k)->Some_0.v() == l.v(); assert(j == i); }
        }
    }
    assert forall|v: nat| #[trigger] is_out(ns, v) implies v < n && !t.inp(v) by { let (j, k) = choose|j: int, k: int| 0 <= j < ns.len() && ns[j] is Unit && (#[trigger] ns[j].out(k)) is Some && ns[j].out(k)->Some_0.v() == v; }
}
pub proof fn lem_law_dep(t: Totalizer, n: nat, a: Asg, b: Asg) requires tot_ok(t), tot_vars(t, n), forall|v: nat| #[trigger] t.inp(v) ==> a(v) == b(v)
    ensures total(t, a) == total(t, b), (forall|v: nat| #[trigger] is_out(t.db.nodes@, v) ==> a(v) == b(v)) ==> strict(t.db.nodes@, a) == strict(t.db.nodes@, b),
{
    let ns = t.db.nodes@;
    assert forall|l: Lit| #[trigger] inlit(t, l) implies tv(a, l) == tv(b, l) by { assert(t.inp(l.v())); }
    assert forall|j: int| 0 <= j < ns.len() && (#[trigger] ns[j]) is Leaf implies tv(a, ns[j]->Leaf_0) == tv(b, ns[j]->Leaf_0) by { assert(inlit(t, ns[j]->Leaf_0)); }
    assert forall|i: int| i >= 0 implies #[trigger] nval(ns, i, a) == nval(ns, i, b) by { lem_nval_in(ns, i, a, b); }
    let s = t.lit_buffer@;
    assert forall|i: int| 0 <= i < s.len() implies fc(a)(#[trigger] s[i]) == fc(b)(s[i]) by { assert(s.contains(s[i])); assert(inlit(t, s[i])); }
    lem_sm_eq(s, s, fc(a), fc(b));
    if forall|v: nat| #[trigger] is_out(ns, v) ==> a(v) == b(v) {
        assert forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some implies tv(a, ns[i].out(k)->Some_0) == tv(b, ns[i].out(k)->Some_0) by {
            if ns[i] is Unit { assert(is_out(ns, ns[i].out(k)->Some_0.v())); } else { assert(ns[i] is Leaf); assert(k == 0); }
        }
        assert(strict(ns, a) ==> strict(ns, b)) by { if strict(ns, a) { assert forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some implies (tv(b, ns[i].out(k)->Some_0) <==> nval(ns, i, b) >= k + 1) by { assert(nval(ns, i, a) == nval(ns, i, b)); } } }
        assert(strict(ns, b) ==> strict(ns, a)) by { if strict(ns, b) { assert forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some implies (tv(a, ns[i].out(k)->Some_0) <==> nval(ns, i, a) >= k + 1) by { assert(nval(ns, i, a) == nval(ns, i, b)); } } }
    }
}
pub proof fn lem_law_new(t: Totalizer, ls: Seq<Lit>) requires new_tot(t, ls)
    ensures t.wf(), t.num() == ls.len(), t.nc() == 0, t.nv() == 0, forall|a: Asg| #[trigger] t.tot(a) == cnt(ls, a), forall|a: Asg| #[trigger] t.hub(a), forall|a: Asg| #[trigger] t.hlb(a), forall|a: Asg| #[trigger] t.st(a),
            forall|v: nat| !#[trigger] t.isout(v), forall|v: nat| #[trigger] t.inp(v) <==> var_in(v, ls), forall|n: nat, c: nat| bel(ls, n) ==> #[trigger] t.ok(n, c),
{
    assert forall|v: nat| #[trigger] t.inp(v) <==> var_in(v, ls) by {
        if t.inp(v) { let l = choose|l: Lit| #[trigger] inlit(t, l) && l.v() == v; assert(ls.contains(l)); let i = choose|i: int| 0 <= i < ls.len() && ls[i] == l; assert(ls[i].v() == v); }
        if var_in(v, ls) { let i = choose|i: int| 0 <= i < ls.len() && #[trigger] ls[i].v() == v; assert(ls.contains(ls[i])); assert(inlit(t, ls[i])); }
    }
    assert forall|n: nat, c: nat| bel(ls, n) implies #[trigger] t.ok(n, c) by { lem_new_tot(t, ls, Seq::empty(), n); }
}
pub proof fn lem_law_extend(t: Totalizer, u: Totalizer, ls: Seq<Lit>)
    requires tot_ok(t), tot_ok(u), u.db == t.db, u.root == t.root, u.lit_buffer@ == t.lit_buffer@ + ls, u.n_vars == t.n_vars, u.n_clauses == t.n_clauses,
    ensures forall|v: nat| #[trigger] u.inp(v) <==> t.inp(v) || var_in(v, ls),
            forall|n: nat, c: nat| #![trigger u.ok(n, c)] t.ok(n, c) && bel(ls, n) && (forall|i: int| 0 <= i < ls.len() ==> !t.isout((#[trigger] ls[i]).v())) ==> u.ok(n, c),
{
    let s = t.lit_buffer@; let w = u.lit_buffer@;
    assert forall|l: Lit| w.contains(l) <==> s.contains(l) || ls.contains(l) by {
        if w.contains(l) { let i = choose|i: int| 0 <= i < w.len() && w[i] == l; if i < s.len() { assert(s[i] == l); } else { assert(ls[i - s.len()] == l); } }
        if s.contains(l) { let i = choose|i: int| 0 <= i < s.len() && s[i] == l; assert(w[i] == l); }
        if ls.contains(l) { let i = choose|i: int| 0 <= i < ls.len() && ls[i] == l; assert(w[s.len() + i] == l); }
    }
    assert forall|v: nat| #[trigger] u.inp(v) <==> t.inp(v) || var_in(v, ls) by {
        if u.inp(v) { let l = choose|l: Lit| #[trigger] inlit(u, l) && l.v() == v; if ls.contains(l) { let i = choose|i: int| 0 <= i < ls.len() && ls[i] == l; assert(ls[i].v() == v); } else { assert(inlit(t, l)); } }
        if t.inp(v) { let l = choose|l: Lit| #[trigger] inlit(t, l) && l.v() == v; assert(inlit(u, l)); }
        if var_in(v, ls) { let i = choose|i: int| 0 <= i < ls.len() && #[trigger] ls[i].v() == v; assert(ls.contains(ls[i])); assert(inlit(u, ls[i])); }
    }
    assert forall|n: nat, c: nat| #![trigger u.ok(n, c)] t.ok(n, c) && bel(ls, n) && (forall|i: int| 0 <= i < ls.len() ==> !t.isout((#[trigger] ls[i]).v())) implies u.ok(n, c) by {
        assert forall|l: Lit| #[trigger] w.contains(l) implies l.v() < n && !is_out(t.db.nodes@, l.v()) by { if ls.contains(l) { let i = choose|i: int| 0 <= i < ls.len() && ls[i] == l; assert(!t.isout(ls[i].v())); } }
    }
}
pub proof fn lem_law_enc(t: Totalizer, u: Totalizer, c0: Seq<Clause>, c1: Seq<Clause>, n0: nat, n1: nat) requires enc_core(t, u, c0, c1, n0, n1), enc_pre(t, c0, n0)
    ensures u.ok(n1, c1.len()), forall|a: Asg| #[trigger] strict(u.db.nodes@, a) ==> cnf_true(since(c1, c0), a), forall|v: nat| #[trigger] u.inp(v) ==> t.inp(v), forall|v: nat| t.voc(v) ==> #[trigger] u.voc(v), forall|i: int, j: int| 0 <= i < since(c1, c0).len() && 0 <= j < since(c1, c0)[i].s().len() ==> u.voc((#[trigger] since(c1, c0)[i].s()[j]).v()),
{
    assert forall|v: nat| t.voc(v) implies #[trigger] u.voc(v) by { assert(outv(t.db.nodes@, v)); assert(outv(u.db.nodes@, v)); }
    assert forall|i: int, j: int| 0 <= i < since(c1, c0).len() && 0 <= j < since(c1, c0)[i].s().len() implies u.voc((#[trigger] since(c1, c0)[i].s()[j]).v()) by { assert(lits_out(since(c1, c0)[i].s(), u.db.nodes@)); assert(outv(u.db.nodes@, since(c1, c0)[i].s()[j].v())); }
    assert forall|v: nat| #[trigger] u.inp(v) implies t.inp(v) by { let l = choose|l: Lit| #[trigger] inlit(u, l) && l.v() == v; assert(inlit(t, l)); }
    assert forall|a: Asg| #[trigger] strict(u.db.nodes@, a) implies cnf_true(since(c1, c0), a) by {}
}
impl Totalizer {
//@fn src/encodings/card/mod.rs trait:BoundBothIncremental::encode_both_change dyn
//@ret r
    requires enc_pre(*old(self), old(collector).cls(), old(var_manager).next()),
    ensures r is Ok ==> enc_core(*old(self), *final(self), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next())
            && keep_if(*old(self), *final(self), old(collector).cls(), final(collector).cls()) && keep_oi(*old(self), *final(self), old(collector).cls(), final(collector).cls())
            && (forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) ==> ub_ready(*final(self), x) && (x <= nlits(*old(self)) ==> lb_ready(*final(self), x))),
//@sub range\.clone\(\) ==> range.vx_clone()
//@sub \+ Clone ==> 
//@ghost start
    let ghost t0 = *self;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
//@ghost call encode_lb_change 0 before
    let ghost t1 = *self;
    let ghost c1 = collector.cls();
    let ghost n1 = var_manager.next();
//@ghost end
    proof { if vx_tail is Ok { lem_enc_trans(t0, t1, *self, c0, c1, collector.cls(), n0, n1, var_manager.next()); } }
//@end
}
impl CardNum for Totalizer {
    open spec fn wf(&self) -> bool { tot_ok(*self) }
    open spec fn num(&self) -> int { nlits(*self) }
    proof fn law_n(&self) { lem_total(*self, assign_none()); }
    fn n_lits(&self) -> (r: usize) { self.n_lits() }
}
/// the totalizer meets the contract
impl CardEnc for Totalizer {
    open spec fn ok(&self, n: nat, c: nat) -> bool { tot_ok(*self) && tot_vars(*self, n) && self.n_vars <= n && self.n_clauses <= c }
    open spec fn tot(&self, a: Asg) -> int { total(*self, a) }
    open spec fn hub(&self, a: Asg) -> bool { holds_if(self.db.nodes@, a) }
    open spec fn hlb(&self, a: Asg) -> bool { holds_oi(self.db.nodes@, a) }
    open spec fn st(&self, a: Asg) -> bool { strict(self.db.nodes@, a) }
    open spec fn rub(&self, x: int) -> bool { ub_ready(*self, x) }
    open spec fn rlb(&self, x: int) -> bool { lb_ready(*self, x) }
    open spec fn isout(&self, v: nat) -> bool { is_out(self.db.nodes@, v) }
    open spec fn inp(&self, v: nat) -> bool { exists|l: Lit| #[trigger] inlit(*self, l) && l.v() == v }
    open spec fn voc(&self, v: nat) -> bool { outv(self.db.nodes@, v) }
    open spec fn nc(&self) -> int { self.n_clauses as int }
    open spec fn nv(&self) -> int { self.n_vars as int }
    proof fn law_ok(&self, n: nat, c: nat, n2: nat, c2: nat) { lem_law_ok(*self, n, n2); }
    proof fn law_nn(&self) {}
    proof fn law_num(&self) { lem_total(*self, assign_none()); assert forall|a: Asg| 0 <= #[trigger] self.tot(a) <= self.num() by { lem_total(*self, a); } }
    proof fn law_ext(&self, n: nat, c: nat, a: Asg) -> (b: Asg) { lem_sext(self.db.nodes@, n, a); sext(self.db.nodes@, a) }
    proof fn law_dep(&self, n: nat, c: nat, a: Asg, b: Asg) { lem_law_dep(*self, n, a, b); if forall|v: nat| #[trigger] self.isout(v) ==> a(v) == b(v) { assert forall|v: nat| #[trigger] is_out(self.db.nodes@, v) implies a(v) == b(v) by { assert(self.isout(v)); } } }
    fn n_clauses(&self) -> (r: usize) { self.n_clauses_stat() }
    fn n_vars(&self) -> (r: u32) { self.n_vars_stat() }
    fn from_iter(iter: Vec<Lit>) -> (r: Self) { let ghost ls = iter@; let r = Totalizer::from_iter(iter); proof { lem_law_new(r, ls); } r }
    fn from(lits: Vec<Lit>) -> (r: Self) { let ghost ls = lits@; let r = Totalizer::from(lits); proof { lem_law_new(r, ls); } r }
    fn extend(&mut self, iter: Vec<Lit>) { let ghost ls = iter@; self.extend(iter); proof { lem_law_extend(*old(self), *self, ls); } }
    fn enforce_ub(&self, ub: usize) -> (r: Result<Vec<Lit>, NotEncoded>) { let r = self.enforce_ub(ub); proof { if r is Ok { assert forall|j: int| 0 <= j < r->Ok_0@.len() implies self.voc((#[trigger] r->Ok_0@[j]).v()) by { assert(outv(self.db.nodes@, r->Ok_0@[j].v())); } } } r }
    fn enforce_lb(&self, lb: usize) -> (r: Result<Vec<Lit>, EnforceError>) { let r = self.enforce_lb(lb); proof { if r is Ok { assert forall|j: int| 0 <= j < r->Ok_0@.len() implies self.voc((#[trigger] r->Ok_0@[j]).v()) by { assert(outv(self.db.nodes@, r->Ok_0@[j].v())); } } } r }
    fn enforce_eq(&self, b: usize) -> (r: Result<Vec<Lit>, EnforceError>) { let r = self.enforce_eq(b); proof { if r is Ok { assert forall|j: int| 0 <= j < r->Ok_0@.len() implies self.voc((#[trigger] r->Ok_0@[j]).v()) by { assert(outv(self.db.nodes@, r->Ok_0@[j].v())); } } } r }
    fn encode_ub<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>) { let r = self.encode_ub(range, collector, var_manager); proof { if r is Ok { lem_law_enc(*old(self), *self, old(collector).cls(), collector.cls(), old(var_manager).next(), var_manager.next()); } } r }
    fn encode_lb<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>) { let r = self.encode_lb(range, collector, var_manager); proof { if r is Ok { lem_law_enc(*old(self), *self, old(collector).cls(), collector.cls(), old(var_manager).next(), var_manager.next()); } } r }
    fn encode_both<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>) { let r = self.encode_both(range, collector, var_manager); proof { if r is Ok { lem_law_enc(*old(self), *self, old(collector).cls(), collector.cls(), old(var_manager).next(), var_manager.next()); } } r }
    fn encode_ub_change<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>) { let r = self.encode_ub_change(range, collector, var_manager); proof { if r is Ok { lem_law_enc(*old(self), *self, old(collector).cls(), collector.cls(), old(var_manager).next(), var_manager.next()); } } r }
    fn encode_lb_change<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>) { let r = self.encode_lb_change(range, collector, var_manager); proof { if r is Ok { lem_law_enc(*old(self), *self, old(collector).cls(), collector.cls(), old(var_manager).next(), var_manager.next()); } } r }
    fn encode_both_change<Col: CollectClauses, R: VxRb<usize>, VxD0: ManageVars>(&mut self, range: R, collector: &mut Col, var_manager: &mut VxD0) -> (r: Result<(), OutOfMemory>) { let r = self.encode_both_change(range, collector, var_manager); proof { if r is Ok { lem_law_enc(*old(self), *self, old(collector).cls(), collector.cls(), old(var_manager).next(), var_manager.next()); } } r }
}
// ---- ranges of bounds, for every encoding ----
//@fn src/encodings/card/mod.rs prepare_ub_range id=prepare_ub_range_g
//@ret r
    requires enc.wf(),
    ensures forall|x: int| #[trigger] vx_has(r, x) && x >= 0 ==> vx_has(range, x) && x < enc.num(), forall|x: int| #![trigger vx_has(range, x)] 0 <= x < enc.num() && vx_has(range, x) ==> vx_has(r, x), r.end <= enc.num(),
//@sub fn prepare_ub_range ==> fn prepare_ub_range_g
//@sub Enc: Encode ==> Enc: CardNum
//@ghost start
    proof { enc.law_n(); }
//@end
//@fn src/encodings/card/mod.rs prepare_lb_range id=prepare_lb_range_g
//@ret r
    requires enc.wf(),
    ensures forall|x: int| #[trigger] vx_has(r, x) && x >= 0 ==> vx_has(range, x) && 1 <= x <= enc.num(), forall|x: int| #![trigger vx_has(range, x)] 1 <= x <= enc.num() && vx_has(range, x) ==> vx_has(r, x), r.end <= enc.num() + 1, r.start >= 1,
//@sub fn prepare_lb_range ==> fn prepare_lb_range_g
//@sub Enc: Encode ==> Enc: CardNum
//@ghost start
    proof { enc.law_n(); }
//@end
//@fn src/encodings/card/mod.rs prepare_both_range id=prepare_both_range_g
//@ret r
    requires enc.wf(),
    ensures forall|x: int| #[trigger] vx_has(r, x) && x >= 0 ==> vx_has(range, x) && x <= enc.num(), forall|x: int| #![trigger vx_has(range, x)] 0 <= x <= enc.num() && vx_has(range, x) ==> vx_has(r, x), r.end <= enc.num() + 1,
//@sub fn prepare_both_range ==> fn prepare_both_range_g
//@sub Enc: Encode ==> Enc: CardNum
//@ghost start
    proof { enc.law_n(); }
//@end
// ---- an encoding over the negated literals ----
//@struct src/encodings/card/simulators.rs Inverted
//@sub Encode \+ 'static ==> CardEnc
//@end
impl<CE: CardEnc> CardNum for Inverted<CE> {
    open spec fn wf(&self) -> bool { self.card_enc.wf() && self.n_lits == self.card_enc.num() }
    open spec fn num(&self) -> int { self.n_lits as int }
    proof fn law_n(&self) { self.card_enc.law_n(); }
//@fn src/encodings/card/simulators.rs <Inverted as Encode>::n_lits nopub
//@ret r
//@end
}
impl<CE: CardEnc> Inverted<CE> {
//@fn src/encodings/card/simulators.rs Inverted::convert_encoding_range
//@ret r
    requires self.wf(), range.start < range.end ==> range.end <= self.num() + 1,
    ensures forall|x: int| #[trigger] vx_has(range, x) && x >= 0 ==> vx_has(r, self.num() - x),
        forall|y: int| #[trigger] vx_has(r, y) && y >= 0 ==> vx_has(range, self.num() - y),
//@sub range\.is_empty\(\) ==> !(range.start < range.end)
//@ghost start
    proof { self.law_n(); }
//@end
}
impl<CE: CardEnc> CardEnc for Inverted<CE> {
    open spec fn ok(&self, n: nat, c: nat) -> bool { self.card_enc.ok(n, c) && self.n_lits == self.card_enc.num() }
    open spec fn tot(&self, a: Asg) -> int { self.n_lits - self.card_enc.tot(a) }
    open spec fn hub(&self, a: Asg) -> bool { self.card_enc.hlb(a) }
    open spec fn hlb(&self, a: Asg) -> bool { self.card_enc.hub(a) }
    open spec fn st(&self, a: Asg) -> bool { self.card_enc.st(a) }
    open spec fn rub(&self, x: int) -> bool { x >= self.n_lits || self.card_enc.rlb(self.n_lits - x) }
    open spec fn rlb(&self, x: int) -> bool { x <= 0 || x <= self.n_lits && self.card_enc.rub(self.n_lits - x) }
    open spec fn isout(&self, v: nat) -> bool { self.card_enc.isout(v) }
    open spec fn inp(&self, v: nat) -> bool { self.card_enc.inp(v) }
    open spec fn voc(&self, v: nat) -> bool { self.card_enc.voc(v) }
    open spec fn nc(&self) -> int { self.card_enc.nc() }
    open spec fn nv(&self) -> int { self.card_enc.nv() }
    proof fn law_ok(&self, n: nat, c: nat, n2: nat, c2: nat) { self.card_enc.law_ok(n, c, n2, c2); }
    proof fn law_nn(&self) { self.card_enc.law_nn(); }
    proof fn law_num(&self) { self.card_enc.law_num(); assert forall|a: Asg| 0 <= #[trigger] self.tot(a) <= self.num() by { assert(0 <= self.card_enc.tot(a) <= self.card_enc.num()); } }
    proof fn law_ext(&self, n: nat, c: nat, a: Asg) -> (b: Asg) { let b = self.card_enc.law_ext(n, c, a); assert forall|v: nat| !#[trigger] self.isout(v) implies a(v) == b(v) by { assert(!self.card_enc.isout(v)); } b }
    proof fn law_dep(&self, n: nat, c: nat, a: Asg, b: Asg) {
        assert forall|v: nat| #[trigger] self.card_enc.inp(v) implies a(v) == b(v) by { assert(self.inp(v)); }
        self.card_enc.law_dep(n, c, a, b);
        if forall|v: nat| #[trigger] self.isout(v) ==> a(v) == b(v) { assert forall|v: nat| #[trigger] self.card_enc.isout(v) implies a(v) == b(v) by { assert(self.isout(v)); } }
    }
//@fn src/encodings/card/simulators.rs <Inverted as EncodeStats>::n_clauses nopub
//@ret r
//@end
//@fn src/encodings/card/simulators.rs <Inverted as EncodeStats>::n_vars nopub
//@ret r
//@end
//@fn src/encodings/card/simulators.rs <Inverted as From<Vec<Lit>>>::from nopub chains=loop
//@ret r
//@loop 0 iter=it
    invariant it.seq() == gl, vx_acc0@ =~= opps(gl.take(it.index@)),
//@ghost start
    let ghost gl = lits@;
    proof { lem_var_opps(gl); assert(gl.take(gl.len() as int) =~= gl); assert forall|a: Asg| #[trigger] cnt(opps(gl), a) == gl.len() - cnt(gl, a) by { lem_cnt_opps(gl, a); } }
//@end
//@fn src/encodings/card/simulators.rs <Inverted as FromIterator<Lit>>::from_iter nopub from_iter=keep inst=T:Vec<Lit>
//@ret r
//@sub let lits: Vec<Lit> = iter\.into_iter\(\)\.collect\(\); ==> let lits: Vec<Lit> = iter;
//@sub Self::from\( ==> <Self as CardEnc>::from(
//@end
//@fn src/encodings/card/simulators.rs <Inverted as Extend<Lit>>::extend nopub chains=loop extend=keep inst=T:Vec<Lit>
//@loop 0 iter=it
    invariant it.seq() == gl, vx_acc0@ =~= opps(gl.take(it.index@)),
//@ghost start
    let ghost gl = iter@;
    proof { lem_var_opps(gl); assert(gl.take(gl.len() as int) =~= gl); assert forall|a: Asg| #[trigger] cnt(opps(gl), a) == gl.len() - cnt(gl, a) by { lem_cnt_opps(gl, a); } }
//@end
//@fn src/encodings/card/simulators.rs <Inverted as BoundUpper>::enforce_ub nopub
//@ret r
//@ghost start
    proof { self.law_n(); self.card_enc.law_num(); }
//@end
//@fn src/encodings/card/simulators.rs <Inverted as BoundLower>::enforce_lb nopub
//@ret r
//@sub Ok\(self\.card_enc\.enforce_ub\(ub\)\?\) ==> match self.card_enc.enforce_ub(ub) { Ok(v) => Ok(v), Err(e) => { return Err(EnforceError::from(e)); } }
//@ghost start
    proof { self.law_n(); self.card_enc.law_num(); self.card_enc.law_n(); }
//@end
//@fn src/encodings/card/simulators.rs <Inverted as BoundBoth>::enforce_eq nopub
//@ret r
//@ghost start
    proof { self.law_n(); self.card_enc.law_num(); self.card_enc.law_n(); }
//@end
//@fn src/encodings/card/simulators.rs <Inverted as BoundUpper>::encode_ub nopub dyn
//@ret r
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.n_lits as int;
    proof { self.card_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { if x < n { assert(self.card_enc.rlb(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.card_enc.tot(a) == old(self).card_enc.tot(a)); }
    } }
//@end
//@fn src/encodings/card/simulators.rs <Inverted as BoundLower>::encode_lb nopub dyn
//@ret r
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.n_lits as int;
    proof { self.card_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= n implies self.rlb(x) by { if x > 0 { assert(self.card_enc.rub(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.card_enc.tot(a) == old(self).card_enc.tot(a)); }
    } }
//@end
//@fn src/encodings/card/simulators.rs <Inverted as BoundBoth>::encode_both nopub dyn
//@ret r
//@sub \+ Clone ==> 
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.n_lits as int;
    proof { self.card_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { if x < n { assert(self.card_enc.rlb(n - x)); } }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= n implies self.rlb(x) by { if x > 0 { assert(self.card_enc.rub(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.card_enc.tot(a) == old(self).card_enc.tot(a)); }
    } }
//@end
//@fn src/encodings/card/simulators.rs <Inverted as BoundUpperIncremental>::encode_ub_change nopub dyn
//@ret r
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.n_lits as int;
    proof { self.card_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { if x < n { assert(self.card_enc.rlb(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.card_enc.tot(a) == old(self).card_enc.tot(a)); }
    } }
//@end
//@fn src/encodings/card/simulators.rs <Inverted as BoundLowerIncremental>::encode_lb_change nopub dyn
//@ret r
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.n_lits as int;
    proof { self.card_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= n implies self.rlb(x) by { if x > 0 { assert(self.card_enc.rub(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.card_enc.tot(a) == old(self).card_enc.tot(a)); }
    } }
//@end
//@fn src/encodings/card/simulators.rs <Inverted as BoundBothIncremental>::encode_both_change nopub dyn
//@ret r
//@sub \+ Clone ==> 
//@sub prepare_(\w+)_range\( ==> prepare_${1}_range_g(
//@ghost start
    let ghost n = self.n_lits as int;
    proof { self.card_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.law_n(); }
//@ghost end
    proof { if vx_tail is Ok {
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { if x < n { assert(self.card_enc.rlb(n - x)); } }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) && x <= n implies self.rlb(x) by { if x > 0 { assert(self.card_enc.rub(n - x)); } }
        assert forall|a: Asg| #[trigger] self.tot(a) == old(self).tot(a) by { assert(self.card_enc.tot(a) == old(self).card_enc.tot(a)); }
    } }
//@end
}
// ---- one encoding for each bound ----
//@struct src/encodings/card/simulators.rs Double
//@sub UBE: BoundUpper \+ 'static ==> UBE: CardEnc
//@sub LBE: BoundLower \+ 'static ==> LBE: CardEnc
//@end
pub open spec fn dj<U: CardEnc, L: CardEnc>(u: U, l: L) -> bool { forall|v: nat| #![trigger u.isout(v)] #![trigger l.isout(v)] #![trigger u.inp(v)] #![trigger l.inp(v)] !(u.isout(v) && l.isout(v)) && !(u.isout(v) && l.inp(v)) && !(u.inp(v) && l.isout(v)) }
pub open spec fn eqt<U: CardEnc, L: CardEnc>(u: U, l: L) -> bool { u.num() == l.num() && forall|a: Asg| #![trigger u.tot(a)] #![trigger l.tot(a)] u.tot(a) == l.tot(a) }
impl<UBE: CardEnc, LBE: CardEnc> CardNum for Double<UBE, LBE> {
    open spec fn wf(&self) -> bool { self.ub_enc.wf() && self.lb_enc.wf() && eqt(self.ub_enc, self.lb_enc) }
    open spec fn num(&self) -> int { self.ub_enc.num() }
    proof fn law_n(&self) { self.ub_enc.law_n(); }
//@fn src/encodings/card/simulators.rs <Double as Encode>::n_lits nopub
//@ret r
//@end
}
impl<UBE: CardEnc, LBE: CardEnc> CardEnc for Double<UBE, LBE> {
    open spec fn ok(&self, n: nat, c: nat) -> bool {
        self.ub_enc.ok(n, c) && self.lb_enc.ok(n, c) && eqt(self.ub_enc, self.lb_enc) && dj(self.ub_enc, self.lb_enc) && self.nc() <= c && self.nv() <= n
    }
    open spec fn tot(&self, a: Asg) -> int { self.ub_enc.tot(a) }
    open spec fn hub(&self, a: Asg) -> bool { self.ub_enc.hub(a) }
    open spec fn hlb(&self, a: Asg) -> bool { self.lb_enc.hlb(a) }
    open spec fn st(&self, a: Asg) -> bool { self.ub_enc.st(a) && self.lb_enc.st(a) }
    open spec fn rub(&self, x: int) -> bool { self.ub_enc.rub(x) }
    open spec fn rlb(&self, x: int) -> bool { self.lb_enc.rlb(x) }
    open spec fn isout(&self, v: nat) -> bool { self.ub_enc.isout(v) || self.lb_enc.isout(v) }
    open spec fn inp(&self, v: nat) -> bool { self.ub_enc.inp(v) || self.lb_enc.inp(v) }
    open spec fn voc(&self, v: nat) -> bool { self.ub_enc.voc(v) || self.lb_enc.voc(v) }
    open spec fn nc(&self) -> int { self.ub_enc.nc() + self.lb_enc.nc() }
    open spec fn nv(&self) -> int { self.ub_enc.nv() + self.lb_enc.nv() }
    proof fn law_ok(&self, n: nat, c: nat, n2: nat, c2: nat) { self.ub_enc.law_ok(n, c, n2, c2); self.lb_enc.law_ok(n, c, n2, c2); }
    proof fn law_nn(&self) { self.ub_enc.law_nn(); self.lb_enc.law_nn(); }
    proof fn law_num(&self) {
        self.ub_enc.law_num(); self.lb_enc.law_num();
        assert forall|a: Asg| 0 <= #[trigger] self.tot(a) <= self.num() by { assert(0 <= self.ub_enc.tot(a) <= self.ub_enc.num()); }
    }
    proof fn law_ext(&self, n: nat, c: nat, a: Asg) -> (b: Asg) {
        let b1 = self.ub_enc.law_ext(n, c, a);
        let b = self.lb_enc.law_ext(n, c, b1);
        assert forall|v: nat| #[trigger] self.ub_enc.inp(v) implies b1(v) == b(v) by { assert(!self.lb_enc.isout(v)); }
        assert forall|v: nat| #[trigger] self.ub_enc.isout(v) implies b1(v) == b(v) by { assert(!self.lb_enc.isout(v)); }
        self.ub_enc.law_dep(n, c, b1, b);
        assert forall|v: nat| !#[trigger] self.isout(v) implies a(v) == b(v) by { assert(!self.ub_enc.isout(v)); assert(!self.lb_enc.isout(v)); }
        b
    }
    proof fn law_dep(&self, n: nat, c: nat, a: Asg, b: Asg) {
        assert forall|v: nat| #[trigger] self.ub_enc.inp(v) implies a(v) == b(v) by { assert(self.inp(v)); }
        assert forall|v: nat| #[trigger] self.lb_enc.inp(v) implies a(v) == b(v) by { assert(self.inp(v)); }
        self.ub_enc.law_dep(n, c, a, b); self.lb_enc.law_dep(n, c, a, b);
        if forall|v: nat| #[trigger] self.isout(v) ==> a(v) == b(v) {
            assert forall|v: nat| #[trigger] self.ub_enc.isout(v) implies a(v) == b(v) by { assert(self.isout(v)); }
            assert forall|v: nat| #[trigger] self.lb_enc.isout(v) implies a(v) == b(v) by { assert(self.isout(v)); }
        }
    }
//@fn src/encodings/card/simulators.rs <Double as EncodeStats>::n_clauses nopub
//@ret r
//@ghost start
    proof { self.ub_enc.law_nn(); self.lb_enc.law_nn(); }
//@end
//@fn src/encodings/card/simulators.rs <Double as EncodeStats>::n_vars nopub
//@ret r
//@ghost start
    proof { self.ub_enc.law_nn(); self.lb_enc.law_nn(); }
//@end
//@fn src/encodings/card/simulators.rs <Double as From<Vec<Lit>>>::from nopub
//@ret r
//@ghost end
    proof {
        assert forall|a: Asg| #![trigger vx_tail.ub_enc.tot(a)] #![trigger vx_tail.lb_enc.tot(a)] vx_tail.ub_enc.tot(a) == vx_tail.lb_enc.tot(a) by { assert(vx_tail.ub_enc.tot(a) == cnt(gl, a)); assert(vx_tail.lb_enc.tot(a) == cnt(gl, a)); }
    }
//@ghost start
    let ghost gl = lits@;
//@end
//@fn src/encodings/card/simulators.rs <Double as FromIterator<Lit>>::from_iter nopub from_iter=keep inst=T:Vec<Lit>
//@ret r
//@sub let lits: Vec<Lit> = iter\.into_iter\(\)\.collect\(\); ==> let lits: Vec<Lit> = iter;
//@sub Self::from\( ==> <Self as CardEnc>::from(
//@end
//@fn src/encodings/card/simulators.rs <Double as Extend<Lit>>::extend nopub extend=keep inst=T:Vec<Lit>
//@sub let lits: Vec<Lit> = iter\.into_iter\(\)\.collect\(\); ==> let lits: Vec<Lit> = iter;
//@ghost start
    let ghost gl = iter@;
//@ghost end
    proof {
        assert forall|a: Asg| #![trigger self.ub_enc.tot(a)] #![trigger self.lb_enc.tot(a)] self.ub_enc.tot(a) == self.lb_enc.tot(a) by { assert(self.ub_enc.tot(a) == old(self).ub_enc.tot(a) + cnt(gl, a)); assert(self.lb_enc.tot(a) == old(self).lb_enc.tot(a) + cnt(gl, a)); }
    }
//@end
//@fn src/encodings/card/simulators.rs <Double as BoundUpper>::enforce_ub nopub
//@ret r
//@end
//@fn src/encodings/card/simulators.rs <Double as BoundLower>::enforce_lb nopub
//@ret r
//@ghost end
    proof {
        if vx_tail is Ok { assert forall|a: Asg| #[trigger] self.hlb(a) && cube_true(vx_tail->Ok_0@, a) implies self.tot(a) >= lb by { assert(self.lb_enc.hlb(a)); assert(self.lb_enc.tot(a) >= lb); } }
    }
//@end
//@fn src/encodings/card/mod.rs trait:BoundBoth::enforce_eq nopub id=enforce_eq_double
//@ret r
//@sub self\.enforce_ub\(b\)\? ==> match self.enforce_ub(b) { Ok(v) => v, Err(e) => { return Err(EnforceError::from(e)); } }
//@sub assumps\.extend\((.*)\); ==> let vx_u = assumps; let mut vx_l = $1; let ghost (gu, gl) = (vx_u@, vx_l@); let mut assumps = vx_u; assumps.append(&mut vx_l); proof { lem_cube_add(gu, gl); }
//@end
//@fn src/encodings/card/simulators.rs <Double as BoundUpper>::encode_ub nopub dyn
//@ret r
//@ghost start
    proof { self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); }
//@ghost end
    proof { if vx_tail is Ok {
        self.lb_enc.law_ok(old(var_manager).next(), old(collector).cls().len(), var_manager.next(), collector.cls().len());
        self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len());
        assert(eqt(self.ub_enc, self.lb_enc)) by { assert forall|a: Asg| #![trigger self.ub_enc.tot(a)] #![trigger self.lb_enc.tot(a)] self.ub_enc.tot(a) == self.lb_enc.tot(a) by { assert(self.ub_enc.tot(a) == old(self).ub_enc.tot(a)); assert(old(self).ub_enc.tot(a) == old(self).lb_enc.tot(a)); } }
        assert(dj(self.ub_enc, self.lb_enc)) by { assert(dj(old(self).ub_enc, old(self).lb_enc)); assert(self.lb_enc == old(self).lb_enc);
            assert forall|v: nat| #![trigger self.ub_enc.isout(v)] #![trigger self.lb_enc.isout(v)] #![trigger self.ub_enc.inp(v)] #![trigger self.lb_enc.inp(v)] !(self.ub_enc.isout(v) && self.lb_enc.isout(v)) && !(self.ub_enc.isout(v) && self.lb_enc.inp(v)) && !(self.ub_enc.inp(v) && self.lb_enc.isout(v)) by {
                if self.ub_enc.isout(v) && !old(self).ub_enc.isout(v) { assert(v >= old(var_manager).next()); if self.lb_enc.inp(v) { assert(old(self).lb_enc.inp(v)); } if self.lb_enc.isout(v) { assert(old(self).lb_enc.isout(v)); } }
                if self.ub_enc.inp(v) { assert(old(self).ub_enc.inp(v)); }
            } }
    } }
//@end
//@fn src/encodings/card/simulators.rs <Double as BoundLower>::encode_lb nopub dyn
//@ret r
//@ghost start
    proof { self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); }
//@ghost end
    proof { if vx_tail is Ok {
        self.ub_enc.law_ok(old(var_manager).next(), old(collector).cls().len(), var_manager.next(), collector.cls().len());
        self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len());
        assert(eqt(self.ub_enc, self.lb_enc)) by { assert forall|a: Asg| #![trigger self.ub_enc.tot(a)] #![trigger self.lb_enc.tot(a)] self.ub_enc.tot(a) == self.lb_enc.tot(a) by { assert(self.lb_enc.tot(a) == old(self).lb_enc.tot(a)); assert(old(self).ub_enc.tot(a) == old(self).lb_enc.tot(a)); } }
        assert(dj(self.ub_enc, self.lb_enc)) by { assert(dj(old(self).ub_enc, old(self).lb_enc)); assert(self.ub_enc == old(self).ub_enc);
            assert forall|v: nat| #![trigger self.ub_enc.isout(v)] #![trigger self.lb_enc.isout(v)] #![trigger self.ub_enc.inp(v)] #![trigger self.lb_enc.inp(v)] !(self.ub_enc.isout(v) && self.lb_enc.isout(v)) && !(self.ub_enc.isout(v) && self.lb_enc.inp(v)) && !(self.ub_enc.inp(v) && self.lb_enc.isout(v)) by {
                if self.lb_enc.isout(v) && !old(self).lb_enc.isout(v) { assert(v >= old(var_manager).next()); if self.ub_enc.inp(v) { assert(old(self).ub_enc.inp(v)); } if self.ub_enc.isout(v) { assert(old(self).ub_enc.isout(v)); } }
                if self.lb_enc.inp(v) { assert(old(self).lb_enc.inp(v)); }
            } }
    } }
//@end
//@fn src/encodings/card/simulators.rs <Double as BoundUpperIncremental>::encode_ub_change nopub dyn
//@ret r
//@ghost start
    proof { self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); }
//@ghost end
    proof { if vx_tail is Ok {
        self.lb_enc.law_ok(old(var_manager).next(), old(collector).cls().len(), var_manager.next(), collector.cls().len());
        self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len());
        assert(eqt(self.ub_enc, self.lb_enc)) by { assert forall|a: Asg| #![trigger self.ub_enc.tot(a)] #![trigger self.lb_enc.tot(a)] self.ub_enc.tot(a) == self.lb_enc.tot(a) by { assert(self.ub_enc.tot(a) == old(self).ub_enc.tot(a)); assert(old(self).ub_enc.tot(a) == old(self).lb_enc.tot(a)); } }
        assert(dj(self.ub_enc, self.lb_enc)) by { assert(dj(old(self).ub_enc, old(self).lb_enc)); assert(self.lb_enc == old(self).lb_enc);
            assert forall|v: nat| #![trigger self.ub_enc.isout(v)] #![trigger self.lb_enc.isout(v)] #![trigger self.ub_enc.inp(v)] #![trigger self.lb_enc.inp(v)] !(self.ub_enc.isout(v) && self.lb_enc.isout(v)) && !(self.ub_enc.isout(v) && self.lb_enc.inp(v)) && !(self.ub_enc.inp(v) && self.lb_enc.isout(v)) by {
                if self.ub_enc.isout(v) && !old(self).ub_enc.isout(v) { assert(v >= old(var_manager).next()); if self.lb_enc.inp(v) { assert(old(self).lb_enc.inp(v)); } if self.lb_enc.isout(v) { assert(old(self).lb_enc.isout(v)); } }
                if self.ub_enc.inp(v) { assert(old(self).ub_enc.inp(v)); }
            } }
    } }
//@end
//@fn src/encodings/card/simulators.rs <Double as BoundLowerIncremental>::encode_lb_change nopub dyn
//@ret r
//@ghost start
    proof { self.ub_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len()); }
//@ghost end
    proof { if vx_tail is Ok {
        self.ub_enc.law_ok(old(var_manager).next(), old(collector).cls().len(), var_manager.next(), collector.cls().len());
        self.lb_enc.law_ok(var_manager.next(), collector.cls().len(), var_manager.next(), collector.cls().len());
        assert(eqt(self.ub_enc, self.lb_enc)) by { assert forall|a: Asg| #![trigger self.ub_enc.tot(a)] #![trigger self.lb_enc.tot(a)] self.ub_enc.tot(a) == self.lb_enc.tot(a) by { assert(self.lb_enc.tot(a) == old(self).lb_enc.tot(a)); assert(old(self).ub_enc.tot(a) == old(self).lb_enc.tot(a)); } }
        assert(dj(self.ub_enc, self.lb_enc)) by { assert(dj(old(self).ub_enc, old(self).lb_enc)); assert(self.ub_enc == old(self).ub_enc);
            assert forall|v: nat| #![trigger self.ub_enc.isout(v)] #![trigger self.lb_enc.isout(v)] #![trigger self.ub_enc.inp(v)] #![trigger self.lb_enc.inp(v)] !(self.ub_enc.isout(v) && self.lb_enc.isout(v)) && !(self.ub_enc.isout(v) && self.lb_enc.inp(v)) && !(self.ub_enc.inp(v) && self.lb_enc.isout(v)) by {
                if self.lb_enc.isout(v) && !old(self).lb_enc.isout(v) { assert(v >= old(var_manager).next()); if self.ub_enc.inp(v) { assert(old(self).ub_enc.inp(v)); } if self.ub_enc.isout(v) { assert(old(self).ub_enc.isout(v)); } }
                if self.lb_enc.inp(v) { assert(old(self).lb_enc.inp(v)); }
            } }
    } }
//@end
//@fn src/encodings/card/mod.rs trait:BoundBoth::encode_both nopub dyn id=encode_both_double
//@ret r
//@sub range\.clone\(\) ==> range.vx_clone()
//@sub \+ Clone ==> 
//@ghost start
    let ghost c0 = collector.cls();
    let ghost t0 = *self;
//@ghost call encode_lb 0 before
    let ghost c1 = collector.cls();
    let ghost t1 = *self;
//@ghost end
    proof { if vx_tail is Ok { lem_since2(c0, c1, collector.cls());
        assert forall|a: Asg| #[trigger] self.tot(a) == t0.tot(a) by { assert(t1.tot(a) == t0.tot(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) implies t0.st(a) && cnf_true(since(collector.cls(), c0), a) by { assert(t1.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) implies t0.isout(v) || v >= old(var_manager).next() by { if t1.isout(v) { } }
        assert forall|v: nat| #[trigger] self.inp(v) implies t0.inp(v) by { assert(t1.inp(v)); }
        assert forall|v: nat| t0.voc(v) implies #[trigger] self.voc(v) by { assert(t1.voc(v)); }
        let me = *self; lem_since_voc(|v: nat| me.voc(v), |v: nat| t1.voc(v), c0, c1, collector.cls());
        assert forall|a: Asg| t0.hub(a) && cnf_true(since(collector.cls(), c0), a) implies #[trigger] self.hub(a) by { assert(t1.hub(a)); }
        assert forall|a: Asg| t0.hlb(a) && cnf_true(since(collector.cls(), c0), a) implies #[trigger] self.hlb(a) by { assert(t1.hlb(a)); }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { assert(t1.rub(x)); }
    } }
//@end
//@fn src/encodings/card/mod.rs trait:BoundBothIncremental::encode_both_change nopub dyn id=encode_both_change_double
//@ret r
//@sub range\.clone\(\) ==> range.vx_clone()
//@sub \+ Clone ==> 
//@ghost start
    let ghost c0 = collector.cls();
    let ghost t0 = *self;
//@ghost call encode_lb_change 0 before
    let ghost c1 = collector.cls();
    let ghost t1 = *self;
//@ghost end
    proof { if vx_tail is Ok { lem_since2(c0, c1, collector.cls());
        assert forall|a: Asg| #[trigger] self.tot(a) == t0.tot(a) by { assert(t1.tot(a) == t0.tot(a)); }
        assert forall|a: Asg| #[trigger] self.st(a) implies t0.st(a) && cnf_true(since(collector.cls(), c0), a) by { assert(t1.st(a)); }
        assert forall|v: nat| #[trigger] self.isout(v) implies t0.isout(v) || v >= old(var_manager).next() by { if t1.isout(v) { } }
        assert forall|v: nat| #[trigger] self.inp(v) implies t0.inp(v) by { assert(t1.inp(v)); }
        assert forall|v: nat| t0.voc(v) implies #[trigger] self.voc(v) by { assert(t1.voc(v)); }
        let me = *self; lem_since_voc(|v: nat| me.voc(v), |v: nat| t1.voc(v), c0, c1, collector.cls());
        assert forall|a: Asg| t0.hub(a) && cnf_true(since(collector.cls(), c0), a) implies #[trigger] self.hub(a) by { assert(t1.hub(a)); }
        assert forall|a: Asg| t0.hlb(a) && cnf_true(since(collector.cls(), c0), a) implies #[trigger] self.hlb(a) by { assert(t1.hlb(a)); }
        assert forall|x: int| t0.rub(x) implies #[trigger] self.rub(x) by { assert(t1.rub(x)); }
        assert forall|x: int| t0.rlb(x) implies #[trigger] self.rlb(x) by { assert(t1.rlb(x)); }
        assert forall|x: int| #![trigger vx_has(range, x)] x >= 0 && vx_has(range, x) implies self.rub(x) by { assert(t1.rub(x)); }
    } }
//@end
}
// ---- whole constraints, for every encoding meeting the contract ----
/// a fresh encoding with the units of an enforced bound
pub proof fn lem_constr<E: CardEnc>(c: CardConstraint, u: E, s: Seq<Lit>, c0: Seq<Clause>, c1: Seq<Clause>, d: Seq<Clause>, n0: nat, n1: nat)
    requires bel(c.l(), n0), n0 <= n1, grown(c0, c1), u.ok(n1, c1.len()), units(d, s), forall|j: int| 0 <= j < s.len() ==> u.voc((#[trigger] s[j]).v()),
        forall|i: int, j: int| 0 <= i < since(c1, c0).len() && 0 <= j < since(c1, c0)[i].s().len() ==> u.voc((#[trigger] since(c1, c0)[i].s()[j]).v()),
        forall|a: Asg| #[trigger] u.tot(a) == cnt(c.l(), a), forall|v: nat| #[trigger] u.isout(v) ==> v >= n0, forall|v: nat| #[trigger] u.inp(v) ==> var_in(v, c.l()),
        forall|a: Asg| #[trigger] u.st(a) ==> cnf_true(since(c1, c0), a),
        forall|a: Asg| #[trigger] cnf_true(since(c1, c0), a) && cube_true(s, a) ==> holds(c.op(), u.tot(a), c.bnd() as int),
        forall|a: Asg| #[trigger] u.st(a) && holds(c.op(), u.tot(a), c.bnd() as int) ==> cube_true(s, a),
    ensures encoded(c, c0, c1 + d, n0, n1),
{
    reveal(encoded);
    let ls = c.l(); let d1 = since(c1, c0);
    u.law_ok(n1, c1.len(), n1, c1.len()); lem_units(d, s);
    assert(c1 =~= c0 + d1);
    lem_since(c0, c1, d);
    let dd = since(c1 + d, c0);
    assert(dd == d1 + d);
    assert forall|a: Asg| #[trigger] cnf_true(dd, a) implies c.ksat(a) by { lem_cnf_add(d1, d, a); assert(u.tot(a) == cnt(ls, a)); }
    assert forall|a: Asg| #[trigger] c.ksat(a) implies exists|b: Asg| agree(a, b, n0) && #[trigger] cnf_true(dd, b) by {
        let b = u.law_ext(n1, c1.len(), a);
        assert(agree(a, b, n0)) by { assert forall|v: nat| v < n0 implies #[trigger] a(v) == b(v) by { assert(!u.isout(v)); } }
        assert forall|v: nat| #[trigger] u.inp(v) implies a(v) == b(v) by { assert(!u.isout(v)); }
        u.law_dep(n1, c1.len(), a, b);
        assert(u.tot(a) == cnt(ls, a)); assert(u.tot(b) == u.tot(a));
        assert(u.st(b)); assert(cnf_true(d1, b));
        lem_cnf_add(d1, d, b);
    }
    assert(cok(dd, c.klits(), n0, n1)) by {
        assert forall|i: int| 0 <= i < dd.len() implies vok((#[trigger] dd[i]).s(), c.klits(), n0, n1) by {
            assert forall|j: int| 0 <= j < dd[i].s().len() implies var_in((#[trigger] dd[i].s()[j]).v(), c.klits()) || n0 <= dd[i].s()[j].v() < n1 by {
                if i < d1.len() { assert(dd[i] == d1[i]); assert(u.voc(d1[i].s()[j].v())); } else { let q = i - d1.len(); assert(dd[i] == d[q]); assert(d[q].s() == seq![s[q]]); assert(u.voc(s[q].v())); }
            }
        }
    }
}
/// the provided methods encoding whole cardinality constraints
pub trait VxCardEnc: CardEnc {
//@fn src/encodings/card/mod.rs trait:BoundUpper::encode_ub_constr nopub dyn chains=loop lazy=Clause from_iter=keep
//@ret r
    requires bel(constr.lits@, old(var_manager).next()),
    ensures r is Ok ==> encoded(vx_ub(constr), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
//@sub Self: FromIterator<Lit> \+ Sized, ==> 
//@sub Self::from_iter\( ==> <Self as CardEnc>::from_iter(
//@sub (\w+)\.\.=(\w+) ==> VxIncl { lo: $1, hi: $2 }
//@sub (?s)collector\s*\.extend_clauses\(\{(.*?)in it: (enc\.\w+\(\w+\)\.unwrap\(\))(\.into_iter\(\).*?)\}\)\?; ==> let ghost u = enc; let ghost c1 = collector.cls(); let ghost n1 = var_manager.next(); proof { u.law_ok(n1, c1.len(), n1, c1.len()); assert(vx_has(VxIncl { lo: ub, hi: ub }, ub as int)); } let vx_s = $2; let ghost s0 = vx_s@; let vx_us = {${1}in it: vx_s$3}; let ghost us = vx_us@; match collector.extend_clauses(vx_us) { Ok(_) => {}, Err(e) => { return Err(e); } };
//@ghost start
    let ghost con = vx_ub(constr);
    let ghost ls = constr.lits@;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
//@ghost call encode_ub 0 before
    let ghost t0 = enc;
//@loop 0 iter=it
    invariant it.seq() == s0, units(vx_acc0@, s0.take(it.index@ as int)),
//@ghost loop 0 end
    proof { assert(s0.take(it.index@ + 1) =~= s0.take(it.index@ as int).push(s0[it.index@ as int])); assert(vx_acc0@[it.index@ as int].s() =~= seq![s0[it.index@ as int]]); }
//@ghost loop 0 after
    proof { assert(s0.take(s0.len() as int) =~= s0); }
//@ghost end
    proof {
        assert forall|a: Asg| #[trigger] u.tot(a) == cnt(ls, a) by { assert(t0.tot(a) == cnt(ls, a)); }
        let d = since(c1, c0);
        assert forall|a: Asg| #[trigger] cnf_true(d, a) && cube_true(s0, a) implies holds(con.op(), u.tot(a), con.bnd() as int) by { assert(t0.hub(a) && t0.hlb(a)); assert(u.hub(a)); }
        lem_constr(con, u, s0, c0, c1, us, n0, n1);
    }
//@end
//@fn src/encodings/card/mod.rs trait:BoundLower::encode_lb_constr nopub dyn chains=loop lazy=Clause from_iter=keep
//@ret r
    requires bel(constr.lits@, old(var_manager).next()),
    ensures r is Ok ==> encoded(vx_lb(constr), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
        r is Err && r->Err_0 is Unsat ==> constr.b > constr.lits@.len(),
//@sub Self: FromIterator<Lit> \+ Sized, ==> 
//@sub Self::from_iter\( ==> <Self as CardEnc>::from_iter(
//@sub (\w+)\.\.=(\w+) ==> VxIncl { lo: $1, hi: $2 }
//@sub (?s)enc\.encode_lb\((.*?)\)\?; ==> match enc.encode_lb($1) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } };
//@sub (?s)collector\s*\.extend_clauses\(\{(.*?)in it: (enc\.\w+\(\w+\)\.unwrap\(\))(\.into_iter\(\).*?)\}\)\?; ==> let ghost u = enc; let ghost c1 = collector.cls(); let ghost n1 = var_manager.next(); proof { u.law_ok(n1, c1.len(), n1, c1.len()); assert(vx_has(VxIncl { lo: lb, hi: lb }, lb as int)); } let vx_s = $2; let ghost s0 = vx_s@; let vx_us = {${1}in it: vx_s$3}; let ghost us = vx_us@; match collector.extend_clauses(vx_us) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } };
//@ghost start
    let ghost con = vx_lb(constr);
    let ghost ls = constr.lits@;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
//@ghost call encode_lb 0 before
    let ghost t0 = enc;
//@loop 0 iter=it
    invariant it.seq() == s0, units(vx_acc0@, s0.take(it.index@ as int)),
//@ghost loop 0 end
    proof { assert(s0.take(it.index@ + 1) =~= s0.take(it.index@ as int).push(s0[it.index@ as int])); assert(vx_acc0@[it.index@ as int].s() =~= seq![s0[it.index@ as int]]); }
//@ghost loop 0 after
    proof { assert(s0.take(s0.len() as int) =~= s0); }
//@ghost end
    proof {
        assert forall|a: Asg| #[trigger] u.tot(a) == cnt(ls, a) by { assert(t0.tot(a) == cnt(ls, a)); }
        let d = since(c1, c0);
        assert forall|a: Asg| #[trigger] cnf_true(d, a) && cube_true(s0, a) implies holds(con.op(), u.tot(a), con.bnd() as int) by { assert(t0.hub(a) && t0.hlb(a)); assert(u.hlb(a)); }
        lem_constr(con, u, s0, c0, c1, us, n0, n1);
    }
//@end
//@fn src/encodings/card/mod.rs trait:BoundBoth::encode_eq_constr nopub dyn chains=loop lazy=Clause from_iter=keep
//@ret r
    requires bel(constr.lits@, old(var_manager).next()),
    ensures r is Ok ==> encoded(vx_eq(constr), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
        r is Err && r->Err_0 is Unsat ==> constr.b > constr.lits@.len(),
//@sub Self: FromIterator<Lit> \+ Sized, ==> 
//@sub Self::from_iter\( ==> <Self as CardEnc>::from_iter(
//@sub (\w+)\.\.=(\w+) ==> VxIncl { lo: $1, hi: $2 }
//@sub (?s)enc\.encode_both\((.*?)\)\?; ==> match enc.encode_both($1) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } };
//@sub (?s)collector\s*\.extend_clauses\(\{(.*?)in it: (enc\.\w+\(\w+\)\.unwrap\(\))(\.into_iter\(\).*?)\}\)\?; ==> let ghost u = enc; let ghost c1 = collector.cls(); let ghost n1 = var_manager.next(); proof { u.law_ok(n1, c1.len(), n1, c1.len()); assert(vx_has(VxIncl { lo: b, hi: b }, b as int)); } let vx_s = $2; let ghost s0 = vx_s@; let vx_us = {${1}in it: vx_s$3}; let ghost us = vx_us@; match collector.extend_clauses(vx_us) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } };
//@ghost start
    let ghost con = vx_eq(constr);
    let ghost ls = constr.lits@;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
//@ghost call encode_both 0 before
    let ghost t0 = enc;
//@loop 0 iter=it
    invariant it.seq() == s0, units(vx_acc0@, s0.take(it.index@ as int)),
//@ghost loop 0 end
    proof { assert(s0.take(it.index@ + 1) =~= s0.take(it.index@ as int).push(s0[it.index@ as int])); assert(vx_acc0@[it.index@ as int].s() =~= seq![s0[it.index@ as int]]); }
//@ghost loop 0 after
    proof { assert(s0.take(s0.len() as int) =~= s0); }
//@ghost end
    proof {
        assert forall|a: Asg| #[trigger] u.tot(a) == cnt(ls, a) by { assert(t0.tot(a) == cnt(ls, a)); }
        let d = since(c1, c0);
        assert forall|a: Asg| #[trigger] cnf_true(d, a) && cube_true(s0, a) implies holds(con.op(), u.tot(a), con.bnd() as int) by { assert(t0.hub(a) && t0.hlb(a)); assert(u.hub(a) && u.hlb(a)); }
        lem_constr(con, u, s0, c0, c1, us, n0, n1);
    }
//@end
//@fn src/encodings/card/mod.rs trait:BoundBoth::encode_constr nopub dyn
//@ret r
        requires bel(constr.l(), old(var_manager).next()),
        ensures r is Ok ==> encoded(constr, old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
            r is Err && r->Err_0 is Unsat ==> card_unsat(constr.op(), constr.l().len() as int, constr.bnd() as int),
//@sub Self: FromIterator<Lit> \+ Sized, ==> 
//@sub Self::encode_ub_constr\(constr, collector, var_manager\)\?; ==> match Self::encode_ub_constr(constr, collector, var_manager) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } }
//@end
}
impl<E: CardEnc> VxCardEnc for E {}
//@fn src/encodings/card/mod.rs encode_cardinality_constraint dyn chains=loop lazy=Clause from_iter=keep
//@ret r
    requires bel(constr.l(), old(var_manager).next()),
    ensures r is Ok ==> encoded(constr, old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
//@sub BoundBoth \+ FromIterator<Lit> ==> VxCardEnc
//@ghost start
    let ghost con = constr;
    let ghost ls = constr.l();
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    proof { lem_direct1(con, c0, n0); lem_own_lits(con); lem_opp_all(); }
//@loop 0 iter=it0
    invariant it0.seq() == ls, units(vx_acc0@, ls.take(it0.index@ as int)), ls.len() == con.l().len(),
//@ghost loop 0 end
    proof { let s = ls; let x = it0.index@ as int; assert(s.take(x + 1) =~= s.take(x).push(s[x])); assert(vx_acc0@[x].s() =~= seq![s[x]]); }
//@ghost loop 0 after
    proof { let s = ls; assert(s.take(ls.len() as int) =~= s); lem_direct2(con, c0, vx_acc0@, s, n0); }
//@loop 1 iter=it1
    invariant it1.seq() == ls, units(vx_acc1@, opps(ls).take(it1.index@ as int)), ls.len() == con.l().len(),
//@ghost loop 1 end
    proof { let s = opps(ls); let x = it1.index@ as int; assert(s.take(x + 1) =~= s.take(x).push(s[x])); assert(vx_acc1@[x].s() =~= seq![s[x]]); }
//@ghost loop 1 after
    proof { let s = opps(ls); assert(s.take(ls.len() as int) =~= s); lem_direct2(con, c0, vx_acc1@, s, n0); }
//@end
