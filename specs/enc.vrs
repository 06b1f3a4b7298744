// ---- collectors and variable managers as seen by an encoding ----
pub struct OutOfMemory { pub x: u8 }
/// what a clause collector promises: clauses are appended, none is lost (`cls`: everything collected so far)
pub trait CollectClauses: Sized {
    spec fn cls(&self) -> Seq<Clause>;
    fn n_clauses(&self) -> (r: usize) ensures r == self.cls().len();
    fn extend_clauses(&mut self, cl_iter: Vec<Clause>) -> (r: Result<(), OutOfMemory>)
        ensures r is Ok ==> final(self).cls() == old(self).cls() + cl_iter@;
//@fn src/encodings/mod.rs trait:CollectClauses::add_clause
//@ret r
        ensures r is Ok ==> final(self).cls() == old(self).cls().push(cl),
//@sub extend_clauses\(\[cl\]\) ==> extend_clauses(vx_one(cl))
//@ghost end
    proof { assert(old(self).cls() + seq![cl] =~= old(self).cls().push(cl)); }
//@end
}
pub fn vx_one(cl: Clause) -> (r: Vec<Clause>) ensures r@ == seq![cl] { let mut v = Vec::new(); v.push(cl); proof { assert(v@ =~= seq![cl]); } v }
/// what a variable manager promises (proved for the managers of the crate under P12); running out of variables panics
pub trait ManageVars: Sized {
    spec fn next(&self) -> nat;
    fn new_var(&mut self) -> (r: Var) ensures r.i() == old(self).next(), final(self).next() == r.i() + 1, r.wf();
//@fn src/instances/mod.rs trait:ManageVars::new_lit
//@ret r
        ensures r.v() == old(self).next(), final(self).next() == r.v() + 1, !r.neg(), r == Lit::mk(old(self).next(), false),
//@end
    fn n_used(&self) -> (r: u32) ensures r == self.next();
}
pub fn vx_slice<T>(v: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { vstd::slice::slice_subrange(v, a, b) }
#[derive(Debug)]
pub struct VxIntErr { pub x: u8 }
pub fn vx_u32(x: usize) -> (r: Result<u32, VxIntErr>) ensures r is Ok <==> x <= u32::MAX, r is Ok ==> r->Ok_0 == x { if x <= u32::MAX as usize { Ok(x as u32) } else { Err(VxIntErr { x: 0 }) } }
//@include enc_lem.vrs
