#![feature(const_destruct)]
use vstd::prelude::*;
verus! {
//@include lit.vrs
//@include vm.vrs
//@include map.vrs
//@struct src/instances/mod.rs BasicVarManager
impl BasicVarManager {
//@fn src/instances/mod.rs BasicVarManager::from_next_free
//@ret r
    ensures r.next() == next_var.i(),
//@end
}
impl BasicVarManager {
//@fn src/instances/mod.rs <BasicVarManager as Default>::default
//@ret r
    ensures r.next() == 0,
//@end
}
impl ManageVars for BasicVarManager {
    open spec fn next(&self) -> nat { self.next_var.i() }
    open spec fn minv(&self) -> bool { true }
    open spec fn compat(&self, other: &Self) -> bool { true }
//@fn src/instances/mod.rs <BasicVarManager as ManageVars>::new_var
//@ret r
//@end
//@fn src/instances/mod.rs <BasicVarManager as ManageVars>::max_var
//@ret r
//@end
//@fn src/instances/mod.rs <BasicVarManager as ManageVars>::increase_next_free
//@ret r
//@end
//@fn src/instances/mod.rs <BasicVarManager as ManageVars>::combine
//@end
//@fn src/instances/mod.rs <BasicVarManager as ManageVars>::n_used
//@ret r
//@end
//@fn src/instances/mod.rs <BasicVarManager as ManageVars>::forget_from
//@end
}
//@struct src/instances/mod.rs ReindexingVarManager
pub broadcast axiom fn var_key()
    ensures #[trigger] obeys_key_model::<Var>();
impl ReindexingVarManager {
    /// the re-indexing: what has been mapped to what
    pub open spec fn map(&self) -> Map<Var, Var> { self.in_map@ }
    pub open spec fn orig(&self, o: Var) -> Option<Var> { orig(self.out_map@, o) }
    pub open spec fn inv(&self) -> bool { rinv(self.in_map@, self.out_map@, self.next_var) }
//@fn src/instances/mod.rs ReindexingVarManager::from_next_free chains=loop collect0=map collect1=vec:Option<Var>
//@ret r
    requires next_var.wf(),
    ensures r.inv(), r.next_var == next_var, forall|v: Var| #[trigger] r.map().contains_key(v) <==> v.i() < next_var.i(),
        forall|v: Var| #[trigger] r.map().contains_key(v) ==> r.map()[v] == v,
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use var_key;
//@loop 0 iter=it
    invariant obeys_key_model::<Var>(), next_var.wf(),
        forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i, it.seq().len() == next_var.i(),
        forall|v: Var| #[trigger] vx_acc0@.contains_key(v) <==> v.i() < it.index@,
        forall|v: Var| #[trigger] vx_acc0@.contains_key(v) ==> vx_acc0@[v] == v,
//@loop 1 iter=it
    invariant next_var.wf(), forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i, it.seq().len() == next_var.i(),
        vx_acc1@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] vx_acc1@[i]) is Some && vx_acc1@[i]->0.i() == i,
//@ghost end
    proof {
        let (m, o, n) = (vx_tail.in_map@, vx_tail.out_map@, vx_tail.next_var);
        assert forall|v: Var| #[trigger] m.contains_key(v) implies orig(o, m[v]) == Some(v) by { assert(o[v.i() as int]->0.i() == v.i()); }
        assert forall|v: Var| (#[trigger] orig(o, v)) is Some implies m.contains_key(orig(o, v)->0) && m[orig(o, v)->0] == v by { }
    }
//@end
//@fn src/instances/mod.rs <ReindexingVarManager as Default>::default
//@ret r
    ensures r.inv(), r.next_var.i() == 0, r.map() == Map::<Var, Var>::empty(),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use var_key;
//@end
}
pub open spec fn orig(out: Seq<Option<Var>>, o: Var) -> Option<Var> {
    if o.i() < out.len() { out[o.i() as int] } else { None }
}
pub open spec fn rinv(map: Map<Var, Var>, out: Seq<Option<Var>>, next: Var) -> bool {
    &&& out.len() <= next.i()
    &&& next.wf()
    &&& forall|v: Var| #[trigger] map.contains_key(v) ==> v.wf() && orig(out, map[v]) == Some(v)
    &&& forall|o: Var| (#[trigger] orig(out, o)) is Some ==> map.contains_key(orig(out, o)->0) && map[orig(out, o)->0] == o
}
/// one more pair keeps the two maps inverse to each other
pub proof fn lem_radd(map: Map<Var, Var>, out: Seq<Option<Var>>, out2: Seq<Option<Var>>, next: Var, k: Var, v: Var)
    requires
        forall|w: Var| #[trigger] map.contains_key(w) ==> orig(out, map[w]) == Some(w),
        forall|o: Var| (#[trigger] orig(out, o)) is Some ==> map.contains_key(orig(out, o)->0) && map[orig(out, o)->0] == o,
        next.wf(), out2.len() <= next.i(),
        k.wf(), forall|w: Var| #[trigger] map.contains_key(w) ==> w.wf(),
        map.contains_key(k) ==> map[k] == v,
        forall|w: Var| #[trigger] map.contains_key(w) && map[w] == v ==> w == k,
        forall|o: Var| #[trigger] orig(out2, o) == (if o == v { Some(k) } else { orig(out, o) }),
    ensures rinv(map.insert(k, v), out2, next),
{
    let m1 = map.insert(k, v);
    assert forall|w: Var| #[trigger] m1.contains_key(w) implies orig(out2, m1[w]) == Some(w) by {
        if w != k { assert(map.contains_key(w)); assert(orig(out, map[w]) == Some(w)); }
    }
    assert forall|o: Var| (#[trigger] orig(out2, o)) is Some implies m1.contains_key(orig(out2, o)->0) && m1[orig(out2, o)->0] == o by {
        if o != v { assert(orig(out, o) is Some); let w = orig(out, o)->0; assert(map.contains_key(w) && map[w] == o); }
    }
}
// (no supertrait: Verus loses the contract of `Var + u32` otherwise)
pub trait ReindexVars {
    spec fn rnext(&self) -> nat;
    spec fn mapped(&self, v: Var) -> Option<Var>;
    spec fn rinv(&self) -> bool;
    fn reindex(&mut self, in_var: Var) -> (r: Var)
        requires old(self).rinv(), old(self).rnext() < 0x7fff_ffff, in_var.wf(),
        ensures final(self).rinv(), final(self).mapped(in_var) == Some(r), r.wf(),
            forall|v: Var| v != in_var ==> #[trigger] final(self).mapped(v) == old(self).mapped(v),
            old(self).mapped(in_var) is Some ==> old(self).mapped(in_var) == Some(r) && final(self).rnext() == old(self).rnext(),
            old(self).mapped(in_var) is None ==> r.i() >= old(self).rnext();
    fn reverse(&self, out_var: Var) -> (r: Option<Var>)
        requires self.rinv(), out_var.wf(),
        ensures r is Some ==> self.mapped(r->0) == Some(out_var) && r->0.wf(),
            r is None ==> forall|v: Var| #[trigger] self.mapped(v) != Some(out_var);
    /// different variables are mapped to different ones
    proof fn lem_inj(&self, v: Var, w: Var)
        requires self.rinv(), v.wf(), w.wf(), self.mapped(v) is Some, self.mapped(v) == self.mapped(w),
        ensures v == w;
    /// the manager was made for this variable
    spec fn ranges(&self, v: Var) -> bool;
    /// the images are used variables
    proof fn lem_below(&self, v: Var)
        requires self.rinv(), v.wf(), self.mapped(v) is Some, self.ranges(v),
        ensures self.mapped(v)->0.i() < self.rnext(), self.mapped(v)->0.wf();
//@fn src/instances/mod.rs trait:ReindexVars::reindex_lit
//@ret r
        requires old(self).rinv(), old(self).rnext() < 0x7fff_ffff,
        ensures final(self).rinv(), final(self).mapped(Var::of(in_lit.v())) is Some, r == Lit::mk(final(self).mapped(Var::of(in_lit.v()))->0.i(), in_lit.neg()),
            forall|v: Var| v != Var::of(in_lit.v()) ==> #[trigger] final(self).mapped(v) == old(self).mapped(v),
            old(self).mapped(Var::of(in_lit.v())) is Some ==> final(self).mapped(Var::of(in_lit.v())) == old(self).mapped(Var::of(in_lit.v())),
//@end
//@fn src/instances/mod.rs trait:ReindexVars::reverse_lit
//@ret r
        requires self.rinv(),
        ensures r is Some ==> r->0.neg() == out_lit.neg() && self.mapped(Var::of(r->0.v())) == Some(Var::of(out_lit.v())),
            r is None ==> forall|v: Var| #[trigger] self.mapped(v) != Some(Var::of(out_lit.v())),
//@closure 0 l: Lit
    requires v.wf()
    ensures l == Lit::mk(v.i(), out_lit.neg())
//@end
}
impl Var { pub open spec fn of(i: nat) -> Var { Var { idx: LimitedU32(i as u32) } } }
impl ReindexVars for ReindexingVarManager {
    open spec fn mapped(&self, v: Var) -> Option<Var> { if self.map().contains_key(v) { Some(self.map()[v]) } else { None } }
    proof fn lem_inj(&self, v: Var, w: Var) { assert(orig(self.out_map@, self.map()[v]) == Some(v)); assert(orig(self.out_map@, self.map()[w]) == Some(w)); }
    open spec fn ranges(&self, v: Var) -> bool { true }
    proof fn lem_below(&self, v: Var) { assert(orig(self.out_map@, self.map()[v]) == Some(v)); }
    open spec fn rnext(&self) -> nat { self.next_var.i() }
    open spec fn rinv(&self) -> bool { self.inv() }
//@fn src/instances/mod.rs <ReindexingVarManager as ReindexVars>::reindex
//@ret r
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use var_key;
    let ghost m0 = self.in_map@;
    let ghost o0 = self.out_map@;
//@ghost end
    proof {
        if !m0.contains_key(in_var) {
            lem_radd(m0, o0, self.out_map@, self.next_var, in_var, self.in_map@[in_var]);
        }
    }
//@end
//@fn src/instances/mod.rs <ReindexingVarManager as ReindexVars>::reverse
//@ret r
//@ghost start
    proof {
        assert(orig(self.out_map@, out_var) == orig(self.out_map@, out_var));
        assert forall|v: Var| #[trigger] self.mapped(v) is Some implies orig(self.out_map@, self.mapped(v)->0) == Some(v) by { assert(self.map().contains_key(v)); }
    }
//@end
}
impl ManageVars for ReindexingVarManager {
    open spec fn next(&self) -> nat { self.next_var.i() }
    open spec fn minv(&self) -> bool { self.inv() }
    open spec fn compat(&self, other: &Self) -> bool { rcompat(self.map(), other.map()) }
//@fn src/instances/mod.rs <ReindexingVarManager as ManageVars>::new_var
//@ret r
    ensures final(self).map() == old(self).map(), final(self).out_map == old(self).out_map,
//@end
//@fn src/instances/mod.rs <ReindexingVarManager as ManageVars>::max_var
//@ret r
//@end
//@fn src/instances/mod.rs <ReindexingVarManager as ManageVars>::increase_next_free
//@ret r
    ensures final(self).map() == old(self).map(),
//@end
//@fn src/instances/mod.rs <ReindexingVarManager as ManageVars>::combine
//@sub in it: other\.in_map ==> in it: vx_map_pairs(other.in_map)
    ensures
        forall|v: Var| #[trigger] final(self).map().contains_key(v) <==> old(self).map().contains_key(v) || other.map().contains_key(v),
        forall|v: Var| #[trigger] final(self).map().contains_key(v) ==>
            final(self).map()[v] == (if other.map().contains_key(v) { other.map()[v] } else { old(self).map()[v] }),
//@loop 0 iter=it
    invariant
        self.next_var == next, next.i() >= onext.i(), obeys_key_model::<Var>(),
        rinv(om, oo, onext),
        old(self).minv() ==> next.i() >= old(self).out_map@.len(),
        m0 == old(self).map(),
        it.seq().no_duplicates(),
        forall|i: int| 0 <= i < it.seq().len() ==> om.contains_key(#[trigger] it.seq()[i].0) && om[it.seq()[i].0] == it.seq()[i].1,
        forall|k: Var| #[trigger] om.contains_key(k) ==> exists|i: int| 0 <= i < it.seq().len() && #[trigger] it.seq()[i].0 == k,
        forall|v: Var| #[trigger] self.in_map@.contains_key(v) <==> m0.contains_key(v) || exists|j: int| 0 <= j < it.index@ && #[trigger] it.seq()[j].0 == v,
        forall|v: Var| #[trigger] self.in_map@.contains_key(v) ==> self.in_map@[v] == om[v] && om.contains_key(v) || m0.contains_key(v) && self.in_map@[v] == m0[v],
        forall|j: int| 0 <= j < it.index@ ==> self.in_map@[(#[trigger] it.seq()[j]).0] == it.seq()[j].1,
        old(self).minv() && rcompat(m0, om) ==> rinv(self.in_map@, self.out_map@, next),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use var_key;
    let ghost om = other.in_map@;
    let ghost oo = other.out_map@;
    let ghost onext = other.next_var;
//@ghost loop 0 before
    let ghost next = self.next_var;
    let ghost m0 = self.in_map@;
//@ghost loop 0 start
    let ghost mb = self.in_map@;
    let ghost ob = self.out_map@;
    proof {
        let k = it.seq()[it.index@ as int].0;
        assert(om.contains_key(k));
        assert(orig(oo, om[k]) == Some(k));
    }
//@ghost loop 0 end
    proof {
        assert forall|o: Var| #[trigger] orig(self.out_map@, o) == (if o == out_var { Some(in_var) } else { orig(ob, o) }) by {}
        if old(self).minv() && rcompat(m0, om) {
            lem_radd(mb, ob, self.out_map@, next, in_var, out_var);
        }
    }
//@end
//@fn src/instances/mod.rs <ReindexingVarManager as ManageVars>::n_used
//@ret r
//@end
//@fn src/instances/mod.rs <ReindexingVarManager as ManageVars>::forget_from
    ensures
        forall|v: Var| #[trigger] final(self).map().contains_key(v) <==> old(self).map().contains_key(v) && old(self).map()[v].i() < min_var.i(),
        forall|v: Var| #[trigger] final(self).map().contains_key(v) ==> final(self).map()[v] == old(self).map()[v],
//@rename .retain => .vx_retain
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use var_key;
    let ghost m0 = self.in_map@;
    let ghost o0 = self.out_map@;
//@ghost end
    proof {
        let m1 = self.in_map@;
        let o1 = self.out_map@;
        assert forall|v: Var| #[trigger] m1.contains_key(v) implies m0.contains_key(v) && m0[v] == m1[v] && m0[v].i() < min_var.i() by {
            assert(self.in_map.vm().contains_key(v));
        }
        assert forall|v: Var| m0.contains_key(v) && m0[v].i() < min_var.i() implies #[trigger] m1.contains_key(v) by {
            assert(old(self).in_map.vm().contains_key(v));
        }
        if rinv(m0, o0, old(self).next_var) {
            assert forall|w: Var| #[trigger] m1.contains_key(w) implies orig(o1, m1[w]) == Some(w) by { assert(orig(o0, m0[w]) == Some(w)); }
            assert forall|o: Var| (#[trigger] orig(o1, o)) is Some implies m1.contains_key(orig(o1, o)->0) && m1[orig(o1, o)->0] == o by {
                assert(orig(o0, o) == orig(o1, o));
            }
        }
    }
//@closure 0 b: bool
    ensures b == (v.i() < min_var.i())
//@end
}
pub open spec fn rcompat(a: Map<Var, Var>, b: Map<Var, Var>) -> bool {
    &&& forall|v: Var| #[trigger] a.contains_key(v) && b.contains_key(v) ==> a[v] == b[v]
    &&& forall|v: Var, w: Var| #[trigger] a.contains_key(v) && #[trigger] b.contains_key(w) && a[v] == b[w] ==> v == w
}
// ---- object-keyed manager; the key `Box<dyn VarKey>` is abstracted to its (type, value) identity ----
#[verifier::external_body]
#[derive(PartialEq, Eq, Hash)]
pub struct VxKey { k: u64 }
pub uninterp spec fn vxkey<T>(t: T) -> VxKey;
/// equality of keys is equality of the objects
#[verifier::external_body]
pub broadcast proof fn ax_vxkey<T>(a: T, b: T) ensures (#[trigger] vxkey(a) == #[trigger] vxkey(b)) ==> a == b {}
#[verifier::external_body]
pub fn vx_boxkey<T: Eq + std::hash::Hash + 'static>(t: T) -> (r: VxKey) ensures r == vxkey(t) { unimplemented!() }
pub broadcast axiom fn vxkey_model()
    ensures #[trigger] obeys_key_model::<VxKey>();
//@struct src/instances/mod.rs ObjectVarManager
//@sub Box<dyn VarKey> ==> VxKey
pub open spec fn oinv(m: Map<VxKey, Var>, next: Var) -> bool {
    &&& forall|k: VxKey| #[trigger] m.contains_key(k) ==> m[k].i() < next.i()
    &&& forall|k: VxKey, l: VxKey| #[trigger] m.contains_key(k) && #[trigger] m.contains_key(l) && m[k] == m[l] ==> k == l
}
impl ObjectVarManager {
//@fn src/instances/mod.rs ObjectVarManager::from_next_free
//@ret r
    ensures r.minv(), r.next() == next_var.i(), r.object_map@ == Map::<VxKey, Var>::empty(),
//@end
//@fn src/instances/mod.rs ObjectVarManager::object_var
//@ret r
    requires old(self).minv(), old(self).next() < 0x7fff_ffff,
    ensures final(self).minv(), final(self).object_map@.contains_key(vxkey(obj)), final(self).object_map@[vxkey(obj)] == r,
        old(self).object_map@.contains_key(vxkey(obj)) ==> final(self).object_map@ == old(self).object_map@ && final(self).next() == old(self).next(),
        !old(self).object_map@.contains_key(vxkey(obj)) ==> final(self).object_map@ == old(self).object_map@.insert(vxkey(obj), r) && r.i() >= old(self).next(),
//@sub Box<dyn VarKey> ==> VxKey
//@sub Box::new ==> vx_boxkey
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use vxkey_model;
//@end
//@fn src/instances/mod.rs <ObjectVarManager as Default>::default
//@ret r
    ensures r.minv(), r.next() == 0,
//@end
}
impl ManageVars for ObjectVarManager {
    open spec fn next(&self) -> nat { self.next_var.i() }
    open spec fn minv(&self) -> bool { oinv(self.object_map@, self.next_var) }
    open spec fn compat(&self, other: &Self) -> bool {
        forall|k: VxKey, l: VxKey| #[trigger] self.object_map@.contains_key(k) && #[trigger] other.object_map@.contains_key(l) && self.object_map@[k] == other.object_map@[l] ==> k == l
    }
//@fn src/instances/mod.rs <ObjectVarManager as ManageVars>::new_var
//@ret r
    ensures final(self).object_map == old(self).object_map,
//@end
//@fn src/instances/mod.rs <ObjectVarManager as ManageVars>::max_var
//@ret r
//@end
//@fn src/instances/mod.rs <ObjectVarManager as ManageVars>::increase_next_free
//@ret r
    ensures final(self).object_map == old(self).object_map,
//@end
//@fn src/instances/mod.rs <ObjectVarManager as ManageVars>::combine
    ensures final(self).object_map@ == old(self).object_map@.union_prefer_right(other.object_map@),
//@rename .extend => .vx_extend_map
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use vxkey_model;
//@end
//@fn src/instances/mod.rs <ObjectVarManager as ManageVars>::n_used
//@ret r
//@end
//@fn src/instances/mod.rs <ObjectVarManager as ManageVars>::forget_from
    ensures
        forall|k: VxKey| #[trigger] final(self).object_map@.contains_key(k) <==> old(self).object_map@.contains_key(k) && old(self).object_map@[k].i() < min_var.i(),
        forall|k: VxKey| #[trigger] final(self).object_map@.contains_key(k) ==> final(self).object_map@[k] == old(self).object_map@[k],
//@rename .retain => .vx_retain
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use vxkey_model;
    let ghost m0 = self.object_map@;
//@ghost end
    proof {
        let m1 = self.object_map@;
        assert forall|v: VxKey| #[trigger] m1.contains_key(v) implies m0.contains_key(v) && m0[v] == m1[v] && m0[v].i() < min_var.i() by {
            assert(self.object_map.vm().contains_key(v));
        }
        assert forall|v: VxKey| m0.contains_key(v) && m0[v].i() < min_var.i() implies #[trigger] m1.contains_key(v) by {
            assert(old(self).object_map.vm().contains_key(v));
        }
    }
//@closure 0 b: bool
    ensures b == (v.i() < min_var.i())
//@end
}
// ---- random re-indexing within a range that is fixed on construction ----
//@struct src/instances/mod.rs RandReindVarManager
pub open spec fn look(m: Seq<Var>, v: Var) -> Var { if v.i() < m.len() { m[v.i() as int] } else { v } }
impl RandReindVarManager {
    /// `in_map` and `out_map` are inverse permutations (established by `init`, which is outside the verifier's reach)
    pub open spec fn inv(&self) -> bool {
        &&& self.in_map@.len() == self.out_map@.len()
        &&& forall|i: int| 0 <= i < self.in_map@.len() ==> (#[trigger] self.in_map@[i]).wf() && self.in_map@[i].i() < self.out_map@.len() && self.out_map@[self.in_map@[i].i() as int].i() == i
        &&& forall|i: int| 0 <= i < self.out_map@.len() ==> (#[trigger] self.out_map@[i]).wf() && self.out_map@[i].i() < self.in_map@.len() && self.in_map@[self.out_map@[i].i() as int].i() == i
    }
}
/// trusted contract for SliceRandom::shuffle: a permutation
#[verifier::external_body]
pub fn vx_shuffle<T>(v: &mut Vec<T>)
    ensures final(v)@.len() == old(v)@.len(), forall|x: T| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x),
        old(v)@.no_duplicates() ==> final(v)@.no_duplicates(),
{ unimplemented!() }
pub open spec fn has_idx(s: Seq<Var>, j: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).i() == j }
impl RandReindVarManager {
//@fn src/instances/mod.rs RandReindVarManager::init chains=loop collect0=vec:Var
//@ret r
    requires n_vars <= 0x7fff_ffff,
    ensures r.inv(), r.next() == n_vars, r.in_map@.len() == n_vars,
//@sub use rand::seq::SliceRandom; ==>
//@sub let mut rng = rand::rng\(\); ==>
//@sub in_map\[\.\.\]\.shuffle\(&mut rng\); ==> vx_shuffle(&mut in_map);
//@loop 0 iter=it
    invariant n_vars <= 0x7fff_ffff, forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i, it.seq().len() == n_vars,
        vx_acc0@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] vx_acc0@[i]).i() == i,
//@ghost call shuffle 0 before
    let ghost im0 = in_map@;
//@ghost loop 1 before
    proof {
        assert(im0.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < im0.len() && 0 <= j < im0.len() && i != j implies im0[i] != im0[j] by { assert(im0[i].i() == i && im0[j].i() == j); } }
        assert forall|i: int| 0 <= i < in_map@.len() implies (#[trigger] in_map@[i]).i() < n_vars by {
            assert(in_map@.contains(in_map@[i])); assert(im0.contains(in_map@[i])); let k = choose|k: int| 0 <= k < im0.len() && im0[k] == in_map@[i]; assert(im0[k].i() == k);
        }
        assert forall|j: int| 0 <= j < n_vars implies #[trigger] has_idx(in_map@, j) by {
            assert(im0[j].i() == j); assert(im0.contains(im0[j])); assert(in_map@.contains(im0[j])); 
            let k = choose|k: int| 0 <= k < in_map@.len() && in_map@[k] == im0[j]; assert(in_map@[k].i() == j);
        }
        assert forall|i: int, j: int| 0 <= i < in_map@.len() && 0 <= j < in_map@.len() && i != j implies (#[trigger] in_map@[i]).i() != (#[trigger] in_map@[j]).i() by { }
    }
//@loop 1 iter=it
    invariant n_vars <= 0x7fff_ffff, in_map@.len() == n_vars, out_map@.len() == n_vars,
        it.seq().len() == in_map@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == in_map@[i],
        vx_n1 == it.index@,
        forall|i: int| 0 <= i < in_map@.len() ==> (#[trigger] in_map@[i]).i() < n_vars,
        forall|j: int| 0 <= j < n_vars ==> #[trigger] has_idx(in_map@, j),
        forall|i: int, j: int| 0 <= i < in_map@.len() && 0 <= j < in_map@.len() && i != j ==> (#[trigger] in_map@[i]).i() != (#[trigger] in_map@[j]).i(),
        forall|i: int| 0 <= i < it.index@ ==> out_map@[(#[trigger] in_map@[i]).i() as int].i() == i,
        forall|i: int| 0 <= i < out_map@.len() ==> (#[trigger] out_map@[i]).wf(),
//@ghost end
    proof {
        let (a, b) = (vx_tail.in_map@, vx_tail.out_map@);
        assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).wf() && b[j].i() < a.len() && a[b[j].i() as int].i() == j by {
            assert(has_idx(a, j));
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).i() == j;
            assert(b[a[i].i() as int].i() == i);
        }
    }
//@end
}
impl ReindexVars for RandReindVarManager {
    open spec fn mapped(&self, v: Var) -> Option<Var> { Some(look(self.in_map@, v)) }
    proof fn lem_inj(&self, v: Var, w: Var) {}
    /// a random re-indexing maps all variables below its initial size; others stay as they are and are not marked as used; forgetting variables frees them
    open spec fn ranges(&self, v: Var) -> bool { v.i() < self.in_map@.len() <= self.next_var.i() }
    proof fn lem_below(&self, v: Var) {}
    open spec fn rnext(&self) -> nat { self.next_var.i() }
    open spec fn rinv(&self) -> bool { self.inv() }
//@fn src/instances/mod.rs <RandReindVarManager as ReindexVars>::reindex
//@ret r
//@end
//@fn src/instances/mod.rs <RandReindVarManager as ReindexVars>::reverse
//@ret r
//@end
}
impl ManageVars for RandReindVarManager {
    open spec fn next(&self) -> nat { self.next_var.i() }
    open spec fn minv(&self) -> bool { self.inv() }
    open spec fn compat(&self, other: &Self) -> bool { false }
//@fn src/instances/mod.rs <RandReindVarManager as ManageVars>::new_var
//@ret r
//@end
//@fn src/instances/mod.rs <RandReindVarManager as ManageVars>::max_var
//@ret r
//@end
//@fn src/instances/mod.rs <RandReindVarManager as ManageVars>::increase_next_free
//@ret r
//@end
//@fn src/instances/mod.rs <RandReindVarManager as ManageVars>::combine
//@sub self\.in_map\.extend\(other\.in_map\) ==> vx_append(&mut self.in_map, other.in_map)
//@end
//@fn src/instances/mod.rs <RandReindVarManager as ManageVars>::n_used
//@ret r
//@end
//@fn src/instances/mod.rs <RandReindVarManager as ManageVars>::forget_from
//@end
}
}
fn main() {}
