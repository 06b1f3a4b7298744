use vstd::prelude::*;
verus! {
//@include lit.vrs assume=P04
//@include lit_eq.vrs assume=P04
//@include assignment.vrs
//@include assign_fn.vrs assume=P02
//@include assign_set.vrs assume=P02
//@include vline.vrs
}
