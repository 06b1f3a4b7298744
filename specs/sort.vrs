// ---- trusted: the standard library's sorting permutes and sorts (by literal representation) ----
pub open spec fn lit_le(a: Lit, b: Lit) -> bool { a.lidx <= b.lidx }
pub open spec fn sorted_lits(s: Seq<Lit>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lit_le(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn wl_le(a: (Lit, usize), b: (Lit, usize)) -> bool { a.0.lidx < b.0.lidx || (a.0.lidx == b.0.lidx && a.1 <= b.1) }
pub open spec fn sorted_wl(s: Seq<(Lit, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> wl_le(#[trigger] s[i], #[trigger] s[j]) }
pub trait VxSort { fn vx_sort(&mut self); }
impl VxSort for Vec<Lit> {
    #[verifier::external_body]
    fn vx_sort(&mut self) ensures same_elems(final(self)@, old(self)@), sorted_lits(final(self)@) { self.sort_unstable() }
}
impl VxSort for Vec<(Lit, usize)> {
    #[verifier::external_body]
    fn vx_sort(&mut self) ensures same_elems(final(self)@, old(self)@), sorted_wl(final(self)@) { self.sort_unstable() }
}
pub broadcast axiom fn ax_clone_pair(a: (Lit, usize), b: (Lit, usize)) ensures #[trigger] cloned(a, b) ==> a == b;
// ---- trusted: the last element of a vector of weighted literals, mutably ----
#[verifier::external_body]
pub fn vx_last_mut(v: &mut Vec<(Lit, usize)>) -> (r: Option<(&mut Lit, &mut usize)>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *(r->0).0 == old(v)@.last().0 && *(r->0).1 == old(v)@.last().1 && final(v)@ == old(v)@.drop_last().push((*final((r->0).0), *final((r->0).1))),
{ v.last_mut().map(|x| (&mut x.0, &mut x.1)) }
