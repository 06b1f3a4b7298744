// ---- trusted: machine integer helpers of the standard library ----
pub assume_specification[ isize::unsigned_abs ](x: isize) -> (r: usize) ensures r == (if x >= 0 { x as int } else { -x as int });
//@include minmax.vrs
#[verifier::external_body]
pub fn vx_isize_from(x: usize) -> (r: Result<isize, std::num::TryFromIntError>) ensures r is Ok <==> x <= isize::MAX, r is Ok ==> r->Ok_0 == x { isize::try_from(x) }
pub assume_specification[ Ordering::is_le ](x: Ordering) -> (r: bool) ensures r == (x != Ordering::Greater);
pub assume_specification[ Ordering::is_lt ](x: Ordering) -> (r: bool) ensures r == (x == Ordering::Less);
pub assume_specification[ Ordering::is_ge ](x: Ordering) -> (r: bool) ensures r == (x != Ordering::Less);
pub assume_specification[ Ordering::is_gt ](x: Ordering) -> (r: bool) ensures r == (x == Ordering::Greater);
pub assume_specification[ Ordering::is_eq ](x: Ordering) -> (r: bool) ensures r == (x == Ordering::Equal);
pub open spec fn ordering(x: int, y: int) -> Ordering { if x < y { Ordering::Less } else if x > y { Ordering::Greater } else { Ordering::Equal } }
#[verifier::external_body]
pub fn vx_map_or<T, E, U, F: FnOnce(T) -> U>(x: Result<T, E>, d: U, f: F) -> (r: U)
    requires x is Ok ==> f.requires((x->Ok_0,)),
    ensures x is Err ==> r == d, x is Ok ==> f.ensures((x->Ok_0,), r),
{ x.map_or(d, f) }
#[verifier::external_body]
pub fn vx_is_some_and<T, F: FnOnce(T) -> bool>(x: Option<T>, f: F) -> (r: bool)
    requires x is Some ==> f.requires((x->0,)),
    ensures x is None ==> !r, x is Some ==> f.ensures((x->0,), r),
{ x.is_some_and(f) }
#[verifier::external_body]
pub fn vx_usize_bool(x: bool) -> (r: usize) ensures r == (if x { 1int } else { 0 }) { usize::from(x) }
