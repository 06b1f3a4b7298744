use vstd::prelude::*;
verus! {
//@include lit.vrs
//@include assignment.vrs
//@include assign_set.vrs
impl Assignment {
//@fn src/types/mod.rs Assignment::len
//@ret r
    ensures r == self.assignment@.len(),
//@end
//@fn src/types/mod.rs Assignment::is_empty
//@ret r
    ensures r == (self.assignment@.len() == 0),
//@end
//@fn src/types/mod.rs Assignment::var_value
//@ret r
    ensures r == self.val(var.i() as int),
//@end
//@fn src/types/mod.rs Assignment::lit_value
//@ret r
    ensures r == self.lval(lit),
//@end
//@fn src/types/mod.rs Assignment::replace_dont_care
    ensures
        final(self).assignment@.len() == old(self).assignment@.len(),
        forall|i: int| 0 <= i < old(self).assignment@.len() ==> final(self).val(i) ==
            (if old(self).val(i) == TernaryVal::DontCare { TernaryVal::of(def) } else { old(self).val(i) }),
//@loop 0 iter=it
    invariant
        forall|i: int| 0 <= i < it.index@ ==> *final(it.seq()[i]) ==
            (if *it.seq()[i] == TernaryVal::DontCare { TernaryVal::of(def) } else { *it.seq()[i] }),
//@end
//@fn src/types/mod.rs Assignment::truncate
//@ret r
    requires max_var.wf(),
    ensures
        forall|i: int| 0 <= i <= max_var.i() ==> r.val(i) == self.val(i),
        forall|i: int| i > max_var.i() ==> r.val(i) == TernaryVal::DontCare,
//@end
//@fn src/types/mod.rs Assignment::max_var
//@ret r
    requires self.assignment@.len() <= 0x8000_0000,
    ensures
        r is None <==> self.assignment@.len() == 0,
        r is Some ==> r->0.i() == self.assignment@.len() - 1,
//@end
}
}
fn main() {}
