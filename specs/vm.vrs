// ---- variable managers ----
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
//@include varcmp.vrs
//@include minmax.vrs
impl vstd::std_specs::ops::AddSpecImpl<u32> for Var {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: u32) -> bool { self.i() + rhs <= 0x7fff_ffff }
    open spec fn add_spec(self, rhs: u32) -> Var { Var { idx: LimitedU32((self.idx.0 + rhs) as u32) } }
}
impl std::ops::Add<u32> for Var {
    type Output = Var;
//@fn src/types/mod.rs <Var as Add<u32>>::add
//@ret r
    ensures r.i() == self.i() + rhs, r.wf(),
//@end
}
impl vstd::std_specs::ops::SubSpecImpl<u32> for Var {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: u32) -> bool { self.i() >= rhs }
    open spec fn sub_spec(self, rhs: u32) -> Var { Var { idx: LimitedU32((self.idx.0 - rhs) as u32) } }
}
impl std::ops::Sub<u32> for Var {
    type Output = Var;
//@fn src/types/mod.rs <Var as Sub<u32>>::sub
//@ret r
    ensures r.i() == self.i() - rhs,
//@end
}
impl vstd::std_specs::ops::AddAssignSpecImpl<u32> for Var {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: u32) -> bool { self.i() + rhs <= 0x7fff_ffff }
    open spec fn add_assign_spec(&self, rhs: u32) -> &Var { &Var { idx: LimitedU32((self.idx.0 + rhs) as u32) } }
}
impl std::ops::AddAssign<u32> for Var {
//@fn src/types/mod.rs <Var as AddAssign<u32>>::add_assign
    ensures final(self).i() == old(self).i() + rhs,
//@end
}
// The contract of a variable manager. `next()`: everything handed out or reserved so far lies below it.
// `minv()`: representation invariant (re-indexing and object maps); `compat()`: the maps of two managers do not contradict each other.
pub trait ManageVars: Sized {
    spec fn next(&self) -> nat;
    spec fn minv(&self) -> bool;
    spec fn compat(&self, other: &Self) -> bool;
    fn new_var(&mut self) -> (r: Var)
        requires old(self).next() < 0x7fff_ffff,
        ensures r.i() >= old(self).next(), final(self).next() == r.i() + 1, r.wf(), old(self).minv() ==> final(self).minv();
//@fn src/instances/mod.rs trait:ManageVars::new_lit
//@ret r
        requires old(self).next() < 0x7fff_ffff,
        ensures r.v() >= old(self).next(), final(self).next() == r.v() + 1, !r.neg(), old(self).minv() ==> final(self).minv(),
//@end
    fn max_var(&self) -> (r: Option<Var>)
        ensures r is None <==> self.next() == 0, r is Some ==> r->0.i() == self.next() - 1;
    fn increase_next_free(&mut self, v: Var) -> (r: bool)
        requires v.wf(),
        ensures final(self).next() == (if v.i() > old(self).next() { v.i() } else { old(self).next() }), r == (v.i() > old(self).next()),
            old(self).minv() ==> final(self).minv();
//@fn src/instances/mod.rs trait:ManageVars::mark_used
//@ret r
        requires v.i() < 0x7fff_ffff,
        ensures final(self).next() >= v.i() + 1, final(self).next() >= old(self).next(),
            final(self).next() == old(self).next() || final(self).next() == v.i() + 1, r == (v.i() >= old(self).next()),
            old(self).minv() ==> final(self).minv(),
//@end
    fn combine(&mut self, other: Self)
        requires other.minv(),
        ensures final(self).next() >= old(self).next(), final(self).next() >= other.next(),
            final(self).next() == old(self).next() || final(self).next() == other.next(),
            old(self).minv() && old(self).compat(&other) ==> final(self).minv();
    fn n_used(&self) -> (r: u32)
        ensures r == self.next();
    fn forget_from(&mut self, min_var: Var)
        requires min_var.wf(),
        ensures final(self).next() == (if min_var.i() < old(self).next() { min_var.i() } else { old(self).next() }),
            old(self).minv() ==> final(self).minv();
}
