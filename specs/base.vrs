// ---- shared prelude: ghost vocabulary, trusted stand-ins for panicking macros ----
pub uninterp spec fn vx_arb(k: int) -> bool;
// assert!/debug_assert! become calls of this: the condition has to be proved
pub const fn vx_assert(b: bool) requires b { }
// documented panics (`# Panics` in the docs): execution continues only if the condition holds
#[verifier::external_body]
pub const fn vx_expect(b: bool) ensures b { assert!(b) }
#[verifier::external_body]
pub const fn vx_unreachable<T>() -> (r: T) requires false { unreachable!() }
#[verifier::external_body]
pub const fn vx_diverge<T>() -> (r: T) ensures false { panic!() }
