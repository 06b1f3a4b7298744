impl Assignment {
//@fn src/types/mod.rs Assignment::assign_var
    requires variable.wf(),
    ensures
        final(self).val(variable.i() as int) == value,
        forall|i: int| i != variable.i() ==> final(self).val(i) == old(self).val(i),
//@end
//@fn src/types/mod.rs Assignment::assign_lit
    ensures
        final(self).lval(lit) == TernaryVal::True,
        final(self).val(lit.v() as int) == TernaryVal::of(!lit.neg()),
        forall|i: int| i != lit.v() ==> final(self).val(i) == old(self).val(i),
//@end
}
