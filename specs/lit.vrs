//@include base.vrs
// ---- types ----
//@struct src/types/mod.rs LimitedU32 Hash,Eq,PartialEq,PartialOrd,Clone,Copy,Ord
//@struct src/types/mod.rs MAX_VAR_IDX
//@struct src/types/mod.rs Var Hash,Eq,PartialEq,PartialOrd,Clone,Copy,Ord
//@struct src/types/mod.rs Lit Hash,Eq,PartialEq,PartialOrd,Clone,Copy,Ord
#[allow(non_camel_case_types)]
pub type c_int = i32;
// ---- meaning ----
impl Var {
    pub open spec fn wf(self) -> bool { self.idx.0 <= 0x7fff_ffff }
    pub open spec fn i(self) -> nat { self.idx.0 as nat }
}
impl Lit {
    /// variable index
    pub open spec fn v(self) -> nat { (self.lidx / 2) as nat }
    pub open spec fn neg(self) -> bool { self.lidx % 2 == 1 }
    pub open spec fn mk(v: nat, neg: bool) -> Lit { Lit { lidx: (2 * v + if neg { 1int } else { 0int }) as u32 } }
    pub open spec fn opp(self) -> Lit { Lit::mk(self.v(), !self.neg()) }
}
pub proof fn lit_bits(x: u32)
    ensures x >> 1 == x / 2, x & 1 == x % 2, x <= 0x7fff_ffff ==> x << 1 == 2 * x,
        x ^ 1 == (if x % 2 == 1 { (x - 1) as u32 } else { (x + 1) as u32 }),
{
    assert(x >> 1 == x / 2) by (bit_vector);
    assert(x & 1 == x % 2) by (bit_vector);
    if x <= 0x7fff_ffff { assert(x << 1 == mul(2, x)) by (bit_vector); }
    assert(x % 2 == 1 ==> x ^ 1 == sub(x, 1)) by (bit_vector);
    assert(x % 2 == 0 ==> x ^ 1 == add(x, 1)) by (bit_vector);
}
impl Var {
//@struct src/types/mod.rs Var::MAX_IDX
//@fn src/types/mod.rs Var::new assert=assume
//@ret r
    ensures r.i() == idx, r.wf(),
//@end
//@fn src/types/mod.rs Var::new_unchecked
//@ret r
    requires idx <= 0x7fff_ffff,
    ensures r.i() == idx, r.wf(),
//@end
//@fn src/types/mod.rs Var::lit
//@ret r
    requires self.wf(),
    ensures r.v() == self.i(), r.neg() == negated, r == Lit::mk(self.i(), negated),
//@end
//@fn src/types/mod.rs Var::pos_lit
//@ret r
    requires self.wf(),
    ensures r.v() == self.i(), !r.neg(), r == Lit::mk(self.i(), false),
//@end
//@fn src/types/mod.rs Var::neg_lit
//@ret r
    requires self.wf(),
    ensures r.v() == self.i(), r.neg(), r == Lit::mk(self.i(), true),
//@end
//@fn src/types/mod.rs Var::idx
//@ret r
    ensures r == self.i(),
//@end
//@fn src/types/mod.rs Var::idx32
//@ret r
    ensures r == self.i(),
//@end
}
impl Lit {
//@fn src/types/mod.rs Lit::represent
//@ret r
    requires idx <= 0x7fff_ffff,
    ensures r == 2 * idx + if negated { 1int } else { 0int },
//@ghost start
    proof { lit_bits(idx); }
//@end
//@fn src/types/mod.rs Lit::new assert=assume
//@ret r
    ensures r.v() == idx, r.neg() == negated, r == Lit::mk(idx as nat, negated),
//@end
//@fn src/types/mod.rs Lit::new_unchecked
//@ret r
    requires idx <= 0x7fff_ffff,
    ensures r.v() == idx, r.neg() == negated, r == Lit::mk(idx as nat, negated),
//@end
//@fn src/types/mod.rs Lit::positive
//@ret r
    ensures r.v() == idx, !r.neg(), r == Lit::mk(idx as nat, false),
//@end
//@fn src/types/mod.rs Lit::negative
//@ret r
    ensures r.v() == idx, r.neg(), r == Lit::mk(idx as nat, true),
//@end
//@fn src/types/mod.rs Lit::positive_unchecked
//@ret r
    requires idx <= 0x7fff_ffff,
    ensures r.v() == idx, !r.neg(), r == Lit::mk(idx as nat, false),
//@end
//@fn src/types/mod.rs Lit::negative_unchecked
//@ret r
    requires idx <= 0x7fff_ffff,
    ensures r.v() == idx, r.neg(), r == Lit::mk(idx as nat, true),
//@end
//@fn src/types/mod.rs Lit::vidx
//@ret r
    ensures r == self.v(),
//@ghost start
    proof { lit_bits(self.lidx); }
//@end
//@fn src/types/mod.rs Lit::vidx32
//@ret r
    ensures r == self.v(), r <= 0x7fff_ffff,
//@ghost start
    proof { lit_bits(self.lidx); }
//@end
//@fn src/types/mod.rs Lit::lidx
//@ret r
    ensures r == self.lidx,
//@end
//@fn src/types/mod.rs Lit::var
//@ret r
    ensures r.i() == self.v(), r.wf(),
//@end
//@fn src/types/mod.rs Lit::is_pos
//@ret r
    ensures r == !self.neg(),
//@ghost start
    proof { lit_bits(self.lidx); }
//@end
//@fn src/types/mod.rs Lit::is_neg
//@ret r
    ensures r == self.neg(),
//@ghost start
    proof { lit_bits(self.lidx); }
//@end
}
impl vstd::std_specs::ops::NotSpecImpl for Lit {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> Lit { self.opp() }
}
impl std::ops::Not for Lit {
    type Output = Lit;
//@fn src/types/operators.rs <Lit as Not>::not
//@ret r
    ensures r == self.opp(), r.v() == self.v(), r.neg() == !self.neg(),
//@ghost start
    proof { lit_bits(self.lidx); }
//@end
}
