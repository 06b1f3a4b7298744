impl Assignment {
//@fn src/types/mod.rs Assignment::var_value
//@ret r
    ensures r == self.val(var.i() as int),
//@end
//@fn src/types/mod.rs Assignment::lit_value
//@ret r
    ensures r == self.lval(lit),
//@end
}
