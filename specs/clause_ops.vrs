pub broadcast axiom fn lit_key() ensures #[trigger] obeys_key_model::<Lit>();
pub type RsHashSet<V> = std::collections::HashSet<V>;
#[verifier::external_body]
pub fn vx_set_new<V>() -> (r: std::collections::HashSet<V>) ensures r@ == Set::<V>::empty() { std::collections::HashSet::new() }
/// some literal and its negation
pub open spec fn taut(s: Seq<Lit>) -> bool { exists|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i] == (#[trigger] s[j]).opp() }
pub open spec fn same_lits(s: Seq<Lit>, t: Seq<Lit>) -> bool { forall|l: Lit| #[trigger] has(s, l) <==> has(t, l) }
pub open spec fn occ(s: Seq<Lit>, l: Lit) -> nat { s.to_multiset().count(l) }
pub open spec fn strict(s: Seq<Lit>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).lidx < (#[trigger] s[j]).lidx }
// ---- trusted: the standard library's dedup on vectors ----
pub trait VxDedup { fn vx_dedup(&mut self); }
impl VxDedup for Vec<Lit> {
    #[verifier::external_body]
    fn vx_dedup(&mut self)
        ensures same_lits(final(self)@, old(self)@), sorted_lits(old(self)@) ==> sorted_lits(final(self)@),
            forall|i: int| 0 <= i < final(self)@.len() - 1 ==> #[trigger] final(self)@[i] != final(self)@[i + 1],
    { self.dedup() }
}
pub proof fn lem_has_perm(s: Seq<Lit>, t: Seq<Lit>) requires same_elems(s, t) ensures same_lits(s, t)
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert forall|l: Lit| #[trigger] has(s, l) <==> has(t, l) by {
        assert(s.contains(l) <==> s.to_multiset().count(l) > 0);
        assert(t.contains(l) <==> t.to_multiset().count(l) > 0);
        assert(s.contains(l) <==> has(s, l)); assert(t.contains(l) <==> has(t, l));
    }
}
/// the positions of a literal among the first n, in increasing order
pub open spec fn positions(s: Seq<Lit>, l: Lit, n: int, p: Seq<usize>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] < #[trigger] p[j]
    &&& forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k] as int) < n && s[p[k] as int] == l
    &&& forall|i: int| 0 <= i < n && #[trigger] s[i] == l ==> exists|k: int| 0 <= k < p.len() && #[trigger] p[k] == i
}
#[verifier::external_body]
pub fn vx_rev(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@.reverse() { v.iter().rev().copied().collect() }
pub proof fn lem_short(s: Seq<Lit>) requires s.len() <= 1 ensures !taut(s), strict(s), s.no_duplicates()
{ lem_opp_all(); }
pub proof fn lem_swap_remove(s: Seq<Lit>, i: int) requires 0 <= i < s.len() ensures s.update(i, s.last()).drop_last().to_multiset() == s.to_multiset().remove(s[i])
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let (u, k) = (s.update(i, s.last()), s.len() - 1);
    assert(u.drop_last() =~= u.remove(k));
    assert(u[k] == s.last());
    assert(u.to_multiset() =~= s.to_multiset().insert(s.last()).remove(s[i]));
    assert(u.drop_last().to_multiset() =~= u.to_multiset().remove(s.last()));
    assert(s.contains(s[i]));
    assert(u.drop_last().to_multiset() =~= s.to_multiset().remove(s[i]));
}
pub proof fn lem_taut_same(s: Seq<Lit>, t: Seq<Lit>) requires same_lits(s, t) ensures taut(s) == taut(t)
{
    if taut(s) { lem_taut_in(s, t); }
    if taut(t) { lem_taut_in(t, s); }
}
pub proof fn lem_taut_in(s: Seq<Lit>, t: Seq<Lit>) requires same_lits(s, t), taut(s) ensures taut(t)
{
    let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i] == (#[trigger] s[j]).opp();
    assert(has(s, s[i]) && has(s, s[j]));
    assert(has(t, s[i]) && has(t, s[j]));
    let a = choose|a: int| 0 <= a < t.len() && #[trigger] t[a] == s[i];
    let b = choose|b: int| 0 <= b < t.len() && #[trigger] t[b] == s[j];
    assert(t[a] == t[b].opp());
}
pub proof fn lem_strict_step(s: Seq<Lit>, i: int, j: int)
    requires sorted_lits(s), forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] != s[i + 1], 0 <= i < j < s.len()
    ensures s[i].lidx < s[j].lidx
{ assert(lit_le(s[i], s[i + 1])); assert(s[i] != s[i + 1]); if j > i + 1 { assert(lit_le(s[i + 1], s[j])); } }
/// a sorted list without equal neighbours is strictly sorted; without complementary neighbours it is no tautology
pub proof fn lem_norm(s: Seq<Lit>)
    requires sorted_lits(s), forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] != s[i + 1],
    ensures strict(s), (forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] s[i]).opp() != s[i + 1]) ==> !taut(s),
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).lidx < (#[trigger] s[j]).lidx by { lem_strict_step(s, i, j); }
    lem_opp_all();
    if taut(s) {
        let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] s[i] == (#[trigger] s[j]).opp();
        let (a, b) = if i < j { (i, j) } else { (j, i) };
        assert(s[a].opp() == s[b]);
        assert(s[a].lidx / 2 == s[b].lidx / 2);
        assert(s[b].lidx <= s[a].lidx + 1);
        if b > a + 1 { assert(s[a].lidx < s[a + 1].lidx); assert(s[a + 1].lidx < s[b].lidx); }
    }
}
pub open spec fn isnt(l: Lit) -> spec_fn(Lit) -> bool { |x: Lit| x != l }
pub proof fn lem_filter_id(s: Seq<Lit>, l: Lit) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != l ensures s.filter(isnt(l)) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lem_filter_id(s.drop_last(), l);
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
/// all of s from position c on filtered, the rest as it is
pub open spec fn partly(s: Seq<Lit>, l: Lit, c: int) -> Seq<Lit> { s.take(c) + s.skip(c).filter(isnt(l)) }
pub open spec fn cut(s: Seq<Lit>, p: Seq<usize>, k: int) -> int { if k == 0 { s.len() as int } else { p[p.len() - k] as int } }
pub proof fn lem_partly_end(s: Seq<Lit>, l: Lit) ensures partly(s, l, s.len() as int) == s
{
    let f = isnt(l);
    reveal(Seq::filter);
    assert(s.skip(s.len() as int).filter(f) =~= Seq::empty());
    assert(partly(s, l, s.len() as int) =~= s);
}
pub proof fn lem_partly_step(s: Seq<Lit>, l: Lit, q: int, c: int)
    requires 0 <= q < c <= s.len(), s[q] == l, forall|i: int| q < i < c ==> #[trigger] s[i] != l
    ensures partly(s, l, c).remove(q) == partly(s, l, q)
{
    let f = isnt(l);
    let mid = s.subrange(q + 1, c);
    lem_filter_id(mid, l);
    assert(s.skip(q) =~= seq![l] + (mid + s.skip(c)));
    Seq::filter_distributes_over_add(seq![l], mid + s.skip(c), f);
    Seq::filter_distributes_over_add(mid, s.skip(c), f);
    assert(seq![l].filter(f) =~= Seq::empty()) by { reveal_with_fuel(Seq::filter, 3); assert(seq![l].drop_last() =~= Seq::empty()); }
    assert(partly(s, l, c).remove(q) =~= s.take(q) + (mid + s.skip(c).filter(f)));
    assert(partly(s, l, q) =~= s.take(q) + (mid + s.skip(c).filter(f)));
}
pub proof fn lem_partly_all(s: Seq<Lit>, l: Lit, c: int)
    requires 0 <= c <= s.len(), forall|i: int| 0 <= i < c ==> #[trigger] s[i] != l
    ensures partly(s, l, c) == s.filter(isnt(l))
{
    let f = isnt(l);
    lem_filter_id(s.take(c), l);
    assert(s =~= s.take(c) + s.skip(c));
    Seq::filter_distributes_over_add(s.take(c), s.skip(c), f);
}
pub proof fn lem_remove_dup(s: Seq<Lit>, i: int) requires 0 <= i < s.len(), has(s.take(i), s[i]) ensures same_lits(s.remove(i), s), s.remove(i).take(i) == s.take(i)
{
    let j = choose|j: int| 0 <= j < s.take(i).len() && #[trigger] s.take(i)[j] == s[i];
    let t = s.remove(i);
    assert(t.take(i) =~= s.take(i));
    assert forall|l: Lit| #[trigger] has(t, l) <==> has(s, l) by {
        if has(t, l) { let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == l; if k < i { assert(s[k] == l); } else { assert(s[k + 1] == l); } }
        if has(s, l) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == l; if k < i { assert(t[k] == l); } else if k == i { assert(t[j] == l); } else { assert(t[k - 1] == l); } }
    }
}
pub proof fn lem_take_push(s: Seq<Lit>, i: int) requires 0 <= i < s.len(), !(has(s.take(i), s[i])), s.take(i).no_duplicates()
    ensures s.take(i + 1) == s.take(i).push(s[i]), s.take(i + 1).no_duplicates(), forall|l: Lit| #[trigger] has(s.take(i + 1), l) <==> has(s.take(i), l) || l == s[i]
{
    let (t, u) = (s.take(i), s.take(i + 1));
    assert(u =~= t.push(s[i]));
    assert forall|l: Lit| #[trigger] has(u, l) <==> has(t, l) || l == s[i] by {
        if has(u, l) { let k = choose|k: int| 0 <= k < u.len() && #[trigger] u[k] == l; if k < i { assert(t[k] == l); } }
        if has(t, l) { let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == l; assert(u[k] == l); }
        assert(u[i] == s[i]);
    }
    assert forall|a: int, b: int| 0 <= a < u.len() && 0 <= b < u.len() && a != b implies u[a] != u[b] by {
        if a < i && b < i { assert(t[a] != t[b]); } else if a < i { assert(t[a] == u[a]); } else { assert(t[b] == u[b]); }
    }
}
impl Clause {
//@fn src/types/constraints.rs Cl::evaluate id=Cl::evaluate
//@ret r
    ensures (r == TernaryVal::True) == (exists|i: int| 0 <= i < self.s().len() && #[trigger] assignment.lval(self.s()[i]) == TernaryVal::True),
        (r == TernaryVal::False) == (forall|i: int| 0 <= i < self.s().len() ==> #[trigger] assignment.lval(self.s()[i]) == TernaryVal::False),
//@sub self\s*\.iter\(\) ==> self.lits.iter()
//@loop 0 iter=it
    invariant it.seq().len() == self.s().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.s()[i],
        (val == TernaryVal::True) == (exists|i: int| 0 <= i < it.index@ && #[trigger] assignment.lval(self.s()[i]) == TernaryVal::True),
        (val == TernaryVal::False) == (forall|i: int| 0 <= i < it.index@ ==> #[trigger] assignment.lval(self.s()[i]) == TernaryVal::False),
//@end
//@fn src/types/constraints.rs Cl::is_tautology id=Cl::is_tautology
//@ret r
    ensures r == taut(self.s()),
//@sub self\[0\.\.self\.len\(\) - 1\]\.iter\(\) ==> vstd::slice::slice_subrange(self.lits.as_slice(), 0, self.len() - 1).iter()
//@sub & ?self\[idx \+ 1\.\.\] ==> vstd::slice::slice_subrange(self.lits.as_slice(), idx + 1, self.lits.len())
//@ghost start
    proof {
    lem_opp_all();
    }
//@loop 0 iter=it
    invariant it.seq().len() == self.s().len() - 1, forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.s()[i],
        vx_i1 == it.index@,
        forall|l: Lit| #[trigger] l.opp() != l, forall|l: Lit| #[trigger] l.opp().opp() == l,
        forall|i: int, j: int| 0 <= i < it.index@ && i < j < self.s().len() ==> #[trigger] self.s()[i] != (#[trigger] self.s()[j]).opp(),
//@loop 1 iter=it2
    invariant idx < self.s().len() - 1, l1 == self.s()[idx as int], it2.seq().len() == self.s().len() - idx - 1, forall|i: int| 0 <= i < it2.seq().len() ==> *#[trigger] it2.seq()[i] == self.s()[idx + 1 + i],
        forall|j: int| idx < j <= idx + it2.index@ ==> l1 != (#[trigger] self.s()[j]).opp(),
//@ghost if 1 then
    proof {
    assert(self.s()[idx as int] == self.s()[idx + 1 + it2.index@].opp());
    }
//@ghost loop 0 after
    proof {
    assert forall|i: int, j: int| 0 <= i < self.s().len() && 0 <= j < self.s().len() implies #[trigger] self.s()[i] != (#[trigger] self.s()[j]).opp() by {
        if i > j { assert(self.s()[j] != self.s()[i].opp()); }
    }
    }
//@end
//@fn src/types/constraints.rs Cl::is_unit id=Cl::is_unit
//@ret r
    ensures r == (self.s().len() == 1),
//@end
//@fn src/types/constraints.rs Cl::is_binary id=Cl::is_binary
//@ret r
    ensures r == (self.s().len() == 2),
//@end
//@fn src/types/constraints.rs Cl::sort id=Cl::sort
    ensures same_elems(final(self).s(), old(self).s()), sorted_lits(final(self).s()),
//@rename .sort_unstable => .vx_sort
//@end
//@fn src/types/constraints.rs Clause::normalize_in_place
//@ret r
    ensures r == taut(old(self).s()), !r ==> same_lits(final(self).s(), old(self).s()) && strict(final(self).s()),
//@rename .sort_unstable => .vx_sort
//@rename .dedup => .vx_dedup
//@rename .is_some_and => vx_is_some_and
//@sub self\s*\.iter\(\) ==> self.lits.iter()
//@sub let mut neg_last = None ==> let mut neg_last: Option<Lit> = None
//@closure 0 c: bool
    ensures c == (*l == neg_last),
//@ghost start
    proof {
    lem_opp_all();
    }
//@ghost if 0 then
    proof {
    lem_short(self.s());
    }
//@ghost call vx_dedup 0 before
    let ghost s0 = self.s();
    proof { lem_has_perm(s0, old(self).s()); }
//@ghost let neg_last 0 before
    let ghost s1 = self.s();
//@loop 0 iter=it
    invariant_except_break vx_res1 is Ok,
        neg_last == (if it.index@ == 0 { None } else { Some(s1[it.index@ - 1].opp()) }),
        forall|i: int| 0 <= i < it.index@ - 1 ==> (#[trigger] s1[i]).opp() != s1[i + 1],
    invariant
        s1 == self.s(), it.seq().len() == s1.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == s1[i],
    ensures vx_res1 is Err ==> taut(s1), vx_res1 is Ok ==> forall|i: int| 0 <= i < s1.len() - 1 ==> (#[trigger] s1[i]).opp() != s1[i + 1],
//@ghost if 1 then
    proof { lem_taut_same(s1, old(self).s()); }
//@ghost end
    proof { lem_taut_same(s1, old(self).s()); lem_norm(s1); }
//@end
//@fn src/types/constraints.rs Clause::normalize
//@ret r
    ensures r is None <==> taut(self.s()), r is Some ==> same_lits(r->0.s(), self.s()) && strict(r->0.s()),
//@end
//@fn src/types/constraints.rs Clause::sanitize
//@ret r
    ensures r is None <==> taut(self.s()), r is Some ==> same_lits(r->0.s(), self.s()) && r->0.s().no_duplicates(),
//@sub RsHashSet::default\(\) ==> vx_set_new()
//@sub vx_self\[idx\] ==> vx_self.lits[idx]
//@ghost start
    proof {
    broadcast use lit_key, group_hash_axioms;
    lem_opp_all();
    }
//@ghost if 0 then
    proof {
    lem_short(self.s());
    }
//@loop 0
    invariant obeys_key_model::<Lit>(), forall|l: Lit| #[trigger] l.opp().opp() == l, forall|l: Lit| #[trigger] l.opp() != l, idx <= vx_self.s().len(),
        same_lits(vx_self.s(), self.s()), vx_self.s().take(idx as int).no_duplicates(),
        forall|l: Lit| #[trigger] lset@.contains(l) <==> has(vx_self.s().take(idx as int), l),
        forall|l: Lit| #[trigger] lset@.contains(l) ==> !lset@.contains(l.opp()),
    decreases vx_self.s().len() - idx,
//@ghost if 1 then
    proof {
        let t = vx_self.s();
        let k = choose|k: int| 0 <= k < t.take(idx as int).len() && #[trigger] t.take(idx as int)[k] == l.opp();
        assert(t[k] == t[idx as int].opp());
        lem_taut_same(t, self.s());
    }
//@ghost if 2 then
    proof { lem_remove_dup(vx_self.s(), idx as int); }
//@ghost if 2 else
    proof { lem_take_push(vx_self.s(), idx as int); }
//@ghost loop 0 after
    proof {
        let t = vx_self.s();
        assert(t.take(t.len() as int) =~= t);
        lem_taut_same(t, self.s());
        if taut(t) {
            let (i, j) = choose|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && #[trigger] t[i] == (#[trigger] t[j]).opp();
            assert(has(t, t[i]) && has(t, t[j]));
            assert(lset@.contains(t[j]));
        }
    }
//@end
//@fn src/types/constraints.rs Clause::remove
//@ret r
    ensures r == has(old(self).s(), lit), !r ==> final(self).s() == old(self).s(),
        r ==> final(self).s().to_multiset() == old(self).s().to_multiset().remove(lit),
//@loop 0 iter=it
    invariant self.s() == old(self).s(), vx_i1 == it.index@, it.seq().len() == self.s().len(), self.lits.len() == it.seq().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.s()[i],
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] self.s()[i] != lit,
//@ghost if 0 then
    proof {
    lem_swap_remove(old(self).s(), i as int);
    }
//@end
//@fn src/types/constraints.rs Clause::remove_thorough
//@ret r
    ensures r == has(old(self).s(), lit), final(self).s() == old(self).s().filter(isnt(lit)),
//@sub for i in it: idxs\.iter\(\)\.rev\(\) ==> let vx_r = vx_rev(&idxs); for i in it: vx_r.iter()
//@loop 0 iter=it
    invariant self.s() == old(self).s(), vx_i1 == it.index@, it.seq().len() == self.s().len(), self.lits.len() == it.seq().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.s()[i],
        positions(self.s(), lit, it.index@ as int, idxs@),
//@ghost loop 0 start
    let ghost p0 = idxs@;
//@ghost loop 0 end
    proof {
        assert(idxs@ =~= p0 || idxs@ =~= p0.push(i));
        assert forall|x: int| 0 <= x < it.index@ + 1 && #[trigger] self.s()[x] == lit implies exists|k: int| 0 <= k < idxs@.len() && #[trigger] idxs@[k] == x by {
            if x < it.index@ { let k = choose|k: int| 0 <= k < p0.len() && #[trigger] p0[k] == x; assert(idxs@[k] == x); } else { assert(idxs@[p0.len() as int] == x); }
        }
    }
//@loop 1 iter=it
    invariant s0 == old(self).s(), positions(s0, lit, s0.len() as int, idxs@), vx_r@ == idxs@.reverse(), it.seq().len() == vx_r@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == vx_r@[i],
        self.s() == partly(s0, lit, cut(s0, idxs@, it.index@ as int)),
//@ghost loop 1 start
    proof {
        let (n, k) = (idxs@.len() as int, it.index@ as int);
        assert(*i == idxs@[n - k - 1]);
        let (q, c) = (*i as int, cut(s0, idxs@, k));
        assert(s0[q] == lit);
        if k > 0 { assert(idxs@[n - k - 1] < idxs@[n - k]); }
        assert forall|x: int| q < x < c implies #[trigger] s0[x] != lit by {
            if s0[x] == lit {
                let y = choose|y: int| 0 <= y < n && #[trigger] idxs@[y] == x;
                if y < n - k - 1 { assert(idxs@[y] < idxs@[n - k - 1]); }
                if k > 0 && y > n - k { assert(idxs@[n - k] < idxs@[y]); }
            }
        }
        lem_partly_step(s0, lit, q, c);
    }
//@ghost loop 0 after
    proof { lem_partly_end(s0, lit); }
//@ghost start
    let ghost s0 = self.s();
//@ghost loop 1 after
    proof {
        let (n, c) = (idxs@.len() as int, cut(s0, idxs@, idxs@.len() as int));
        assert forall|x: int| 0 <= x < c implies #[trigger] s0[x] != lit by {
            if s0[x] == lit { let y = choose|y: int| 0 <= y < n && #[trigger] idxs@[y] == x; if y > 0 { assert(idxs@[0] < idxs@[y]); } }
        }
        lem_partly_all(s0, lit, c);
        if n > 0 { assert(s0[idxs@[0] as int] == lit); }
    }
//@end
}
