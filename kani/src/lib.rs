//! Kani proof harnesses: loop-free, full-domain symbolic inputs over the compiled functions of `rustsat`.
//! Harnesses named `reject_*` end in a cover point that must be unreachable (documented panic on every invalid input);
//! all other cover points must be reachable (vacuity check).
#![cfg(kani)]
mod p01;
