use rustsat::types::*;
const MAX: u32 = 0x7fff_ffff;
fn idx() -> u32 {
    let i: u32 = kani::any();
    kani::assume(i <= MAX);
    i
}
fn lit() -> Lit {
    // every bit pattern of the representation is a literal
    let l = unsafe { Lit::from_lidx(kani::any()) };
    kani::cover!(l.is_neg());
    l
}
fn is(l: Lit, i: u32, neg: bool) {
    assert!(l.vidx32() == i, "index read back");
    assert!(l.vidx() == i as usize, "index read back");
    assert!(l.var().idx32() == i, "variable read back");
    assert!(l.is_neg() == neg, "sign read back");
    assert!(l.is_pos() == !neg, "sign read back");
    assert!(l.lidx32() == 2 * i + neg as u32, "literal index");
    assert!(l.lidx() == (2 * i + neg as u32) as usize, "literal index");
}
#[kani::proof]
fn p01_var_ctors() {
    let i: u32 = kani::any();
    kani::cover!(i > MAX);
    assert!(Var::MAX_IDX == MAX, "documented maximum index");
    assert!(Var::new_with_error(i).is_ok() == (i <= MAX), "Var::new_with_error accepts exactly valid indices");
    if i <= MAX {
        kani::cover!(i == MAX);
        assert!(Var::new(i).idx32() == i);
        assert!(Var::new(i).idx() == i as usize);
        assert!(Var::new_with_error(i).unwrap().idx32() == i);
        assert!(unsafe { Var::new_unchecked(i) } == Var::new(i));
    }
}
#[kani::proof]
fn p01_lit_ctors() {
    let i: u32 = kani::any();
    let neg: bool = kani::any();
    assert!(Lit::new_with_error(i, neg).is_ok() == (i <= MAX));
    assert!(Lit::positive_with_error(i).is_ok() == (i <= MAX));
    assert!(Lit::negative_with_error(i).is_ok() == (i <= MAX));
    if i <= MAX {
        kani::cover!(i == MAX);
        is(Lit::new(i, neg), i, neg);
        is(Lit::new_with_error(i, neg).unwrap(), i, neg);
        is(unsafe { Lit::new_unchecked(i, neg) }, i, neg);
        is(Lit::positive(i), i, false);
        is(Lit::negative(i), i, true);
        is(Lit::positive_with_error(i).unwrap(), i, false);
        is(Lit::negative_with_error(i).unwrap(), i, true);
        is(unsafe { Lit::positive_unchecked(i) }, i, false);
        is(unsafe { Lit::negative_unchecked(i) }, i, true);
        let v = Var::new(i);
        is(v.lit(neg), i, neg);
        is(v.pos_lit(), i, false);
        is(v.neg_lit(), i, true);
        is(!v, i, true);
        is(-v, i, true);
    }
}
#[kani::proof]
fn p01_lit_neg() {
    let l = lit();
    is(!l, l.vidx32(), l.is_pos());
    is(-l, l.vidx32(), l.is_pos());
    is(l, l.var().idx32(), l.is_neg());
    assert!(!!l == l && -(-l) == l && !l != l);
    assert!(l.var().lit(l.is_neg()) == l);
    assert!(unsafe { Lit::from_lidx(l.lidx32()) } == l);
}
#[kani::proof]
fn p01_lit_ipasir() {
    let l = lit();
    let x = l.to_ipasir_with_error();
    assert!(x.is_ok() == (l.vidx32() < MAX), "representable exactly below the maximum index");
    if let Ok(x) = x {
        kani::cover!(x < 0);
        assert!(i64::from(x) == (i64::from(l.vidx32()) + 1) * if l.is_neg() { -1 } else { 1 });
        assert!(l.to_ipasir() == x);
        assert!(Lit::from_ipasir(x).unwrap() == l, "round trip");
    }
    let v = l.var();
    let y = v.to_ipasir_with_error();
    assert!(y.is_ok() == (v.idx32() < MAX));
    if let Ok(y) = y {
        assert!(i64::from(y) == i64::from(v.idx32()) + 1);
        assert!(v.to_ipasir() == y);
    }
}
#[kani::proof]
fn p01_from_ipasir() {
    let x: i32 = kani::any();
    match Lit::from_ipasir(x) {
        Ok(l) => {
            kani::cover!(x < 0);
            assert!(x != 0);
            is(l, x.unsigned_abs() - 1, x < 0);
            if x != i32::MIN {
                assert!(l.to_ipasir() == x);
            }
        }
        Err(_) => {
            kani::cover!(x == 0);
            assert!(x == 0 || x == i32::MIN);
        }
    }
}
#[kani::proof]
fn p01_offset() {
    let l = lit();
    let n: u32 = kani::any();
    let v = l.var();
    let i = v.idx32();
    if u64::from(i) + u64::from(n) <= u64::from(MAX) {
        kani::cover!(n > 5);
        is(l + n, i + n, l.is_neg());
        assert!((v + n).idx32() == i + n);
        let (mut a, mut b) = (l, v);
        a += n;
        b += n;
        assert!(a == l + n && b == v + n);
        assert!((l + n) - n == l && (v + n) - n == v);
    }
    if n <= i {
        kani::cover!(n > 5);
        is(l - n, i - n, l.is_neg());
        assert!((v - n).idx32() == i - n);
        let (mut a, mut b) = (l, v);
        a -= n;
        b -= n;
        assert!(a == l - n && b == v - n);
    }
}
#[kani::proof]
#[kani::should_panic]
fn reject_var_new() {
    let i: u32 = kani::any();
    kani::assume(i > MAX);
    let _ = Var::new(i);
    kani::cover!(true);
}
#[kani::proof]
#[kani::should_panic]
fn reject_lit_new() {
    let i: u32 = kani::any();
    kani::assume(i > MAX);
    let _ = Lit::new(i, kani::any());
    kani::cover!(true);
}
#[kani::proof]
#[kani::should_panic]
fn reject_lit_positive() {
    let i: u32 = kani::any();
    kani::assume(i > MAX);
    let _ = Lit::positive(i);
    kani::cover!(true);
}
#[kani::proof]
#[kani::should_panic]
fn reject_lit_negative() {
    let i: u32 = kani::any();
    kani::assume(i > MAX);
    let _ = Lit::negative(i);
    kani::cover!(true);
}
#[kani::proof]
#[kani::should_panic]
fn reject_lit_ipasir() {
    let neg: bool = kani::any();
    let _ = Lit::new(MAX, neg).to_ipasir();
    kani::cover!(true);
}
#[kani::proof]
#[kani::should_panic]
fn reject_var_ipasir() {
    let _ = Var::new(MAX).to_ipasir();
    kani::cover!(true);
}
#[kani::proof]
fn p01_ternary() {
    let b: bool = kani::any();
    let d: bool = kani::any();
    assert!(TernaryVal::from(b).to_bool_with_def(d) == b);
    assert!(TernaryVal::DontCare.to_bool_with_def(d) == d);
    assert!(!TernaryVal::from(b) == TernaryVal::from(!b) && -TernaryVal::from(b) == TernaryVal::from(!b));
    assert!(!TernaryVal::DontCare == TernaryVal::DontCare && -TernaryVal::DontCare == TernaryVal::DontCare);
}
