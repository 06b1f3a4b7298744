//@fn src/encodings/card/mod.rs default_encode_cardinality_constraint dyn
//@ret r
    requires bel(constr.l(), old(var_manager).next()),
    ensures r is Ok ==> encoded(constr, old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
//@sub DefBothBounding, Col> ==> Totalizer, Col, VxD0>
//@end
