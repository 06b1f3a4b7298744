//@struct src/types/mod.rs TernaryVal Clone,Copy,PartialEq,Eq
//@struct src/types/mod.rs Assignment
impl TernaryVal {
    pub open spec fn of(b: bool) -> TernaryVal { if b { TernaryVal::True } else { TernaryVal::False } }
    pub open spec fn flip(self) -> TernaryVal {
        match self { TernaryVal::True => TernaryVal::False, TernaryVal::False => TernaryVal::True, TernaryVal::DontCare => TernaryVal::DontCare }
    }
}
pub assume_specification[ <TernaryVal as PartialEq>::eq ](a: &TernaryVal, b: &TernaryVal) -> (r: bool)
    ensures r == (*a == *b);
// abstract view: the partial map from variable indices to values
impl Assignment {
    pub open spec fn val(self, i: int) -> TernaryVal {
        if 0 <= i < self.assignment@.len() { self.assignment@[i] } else { TernaryVal::DontCare }
    }
    pub open spec fn lval(self, l: Lit) -> TernaryVal {
        if l.neg() { self.val(l.v() as int).flip() } else { self.val(l.v() as int) }
    }
}
