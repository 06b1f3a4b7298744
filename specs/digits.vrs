// ---- number of digits (all uses in the crate have base 2) ----
pub open spec fn pw(b: nat, e: nat) -> nat decreases e { if e == 0 { 1 } else { b * pw(b, (e - 1) as nat) } }
pub open spec fn is_p2(b: u8) -> bool { b == 1 || b == 2 || b == 4 || b == 8 || b == 16 || b == 32 || b == 64 || b == 128 }
pub assume_specification[ u8::is_power_of_two ](b: u8) -> (r: bool) ensures r == is_p2(b);
pub fn vx_umin(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vx_umax(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub proof fn lem_shr_div(x: usize, p: u8, b: u8)
    requires is_p2(b), b >= 2, p < 8, b >> p == 1,
    ensures x >> p == x / (b as usize),
{
    assert(b == 2 || b == 4 || b == 8 || b == 16 || b == 32 || b == 64 || b == 128);
    if b == 2 { assert(2u8 >> p == 1 && p < 8 ==> p == 1) by (bit_vector); assert(x >> 1u8 == x / 2) by (bit_vector); }
    if b == 4 { assert(4u8 >> p == 1 && p < 8 ==> p == 2) by (bit_vector); assert(x >> 2u8 == x / 4) by (bit_vector); }
    if b == 8 { assert(8u8 >> p == 1 && p < 8 ==> p == 3) by (bit_vector); assert(x >> 3u8 == x / 8) by (bit_vector); }
    if b == 16 { assert(16u8 >> p == 1 && p < 8 ==> p == 4) by (bit_vector); assert(x >> 4u8 == x / 16) by (bit_vector); }
    if b == 32 { assert(32u8 >> p == 1 && p < 8 ==> p == 5) by (bit_vector); assert(x >> 5u8 == x / 32) by (bit_vector); }
    if b == 64 { assert(64u8 >> p == 1 && p < 8 ==> p == 6) by (bit_vector); assert(x >> 6u8 == x / 64) by (bit_vector); }
    if b == 128 { assert(128u8 >> p == 1 && p < 8 ==> p == 7) by (bit_vector); assert(x >> 7u8 == x / 128) by (bit_vector); }
}
pub proof fn lem_p2_shr(b: u8, p: u8)
    requires is_p2(b), p < 8, b >> p > 0, b >> ((p + 1) as u8) == 0,
    ensures b >> p == 1,
{ assert(b >> p > 0 && p < 8 && b >> (add(p, 1)) == 0 ==> b >> p == 1) by (bit_vector); }
/// x has d digits more than its quotient y
pub open spec fn dig(n: nat, b: nat, d: nat, y: nat) -> bool { y * pw(b, d) <= n < (y + 1) * pw(b, d) }
pub proof fn lem_dig(n: nat, b: nat, d: nat, y: nat)
    requires dig(n, b, d, y), b >= 2, d < 64, n <= usize::MAX, y > 0,
    ensures dig(n, b, d + 1, y / b), pw(b, d + 1) == b * pw(b, d), pw(b, d) >= pw(2, d), pw(b, d) <= n,
{
    let (p, q, z) = (pw(b, d), pw(b, d + 1), y / b);
    assert(q == b * p);
    assert(z * b <= y < (z + 1) * b) by (nonlinear_arith) requires z == y / b, b >= 2;
    assert(z * q <= y * p) by (nonlinear_arith) requires z * b <= y, q == b * p;
    assert((y + 1) * p <= (z + 1) * q) by (nonlinear_arith) requires y + 1 <= (z + 1) * b, q == b * p;
    lem_pw_mono(b, d);
    assert(p <= y * p) by (nonlinear_arith) requires y >= 1;
}
pub proof fn lem_pw_mono(b: nat, d: nat) requires b >= 2 ensures pw(b, d) >= pw(2, d), pw(2, d) >= 1 decreases d
{ if d > 0 { lem_pw_mono(b, (d - 1) as nat); assert(b * pw(b, (d - 1) as nat) >= 2 * pw(2, (d - 1) as nat)) by (nonlinear_arith) requires b >= 2, pw(b, (d - 1) as nat) >= pw(2, (d - 1) as nat); } }
pub proof fn lem_pw2_mono(d: nat, e: nat) requires d <= e ensures pw(2, d) <= pw(2, e) decreases e { if d < e { lem_pw2_mono(d, (e - 1) as nat); } }
pub proof fn lem_one_mul(x: nat) ensures (0nat + 1) * x == x { assert((0nat + 1) * x == x) by (nonlinear_arith); }
pub proof fn lem_pw1(b: nat) ensures pw(b, 0) == 1, pw(b, 1) == b { reveal_with_fuel(pw, 2); assert(b * 1 == b) by (nonlinear_arith); }
pub proof fn lem_pw64() ensures pw(2, 64) == 0x1_0000_0000_0000_0000 { assert(pw(2, 64) == 0x1_0000_0000_0000_0000) by (compute); }
//@fn src/utils.rs digits debug_assert=assume
//@ret r
    requires basis >= 2,
    ensures r >= 1, number < pw(basis as nat, r as nat), number > 0 ==> pw(basis as nat, (r - 1) as nat) <= number, r <= 64,
//@rename u32::try_from => vx_u32
//@rename std::cmp::max => vx_umax
//@ghost start
    let ghost b0 = basis;
    let ghost num0 = number;
    proof {
        lem_pw1(b0 as nat);
        assert(b0 >> 1 > 0) by (bit_vector) requires b0 >= 2;
        assert(b0 >> 0 == b0) by (bit_vector);
        assert(num0 * 1 <= num0 < (num0 + 1) * 1);
        lem_pw64();
    }
//@loop 0
    invariant pow < 8, b0 >= 2, is_p2(b0), basis == b0 >> ((pow + 1) as u8), (b0 >> pow) > 0, number == num0, num0 > 0, digits == 0,
    decreases basis,
//@ghost loop 0 start
    proof {
        assert(b0 >> add(pow, 1) > 0 && pow < 8 ==> pow < 7) by (bit_vector);
        assert(pow < 7 ==> (b0 >> add(pow, 1)) >> 1 == b0 >> add(pow, 2)) by (bit_vector);
        assert(basis > 0 ==> basis >> 1 < basis) by (bit_vector);
    }
//@ghost loop 0 after
    proof { lem_p2_shr(b0, pow); }
//@loop 1
    invariant pow < 8, b0 >= 2, is_p2(b0), b0 >> pow == 1, dig(num0 as nat, b0 as nat, digits as nat, number as nat), digits <= 64, num0 > 0,
        number > 0 || digits > 0, digits > 0 ==> pw(b0 as nat, (digits - 1) as nat) <= num0,
    decreases number,
//@ghost loop 1 start
    proof {
        lem_shr_div(number, pow, b0);
        lem_digits_room(num0 as nat, b0 as nat, digits as nat, number as nat);
        lem_dig(num0 as nat, b0 as nat, digits as nat, number as nat);
        assert(number / (b0 as usize) < number) by (nonlinear_arith) requires number > 0, b0 >= 2;
    }
//@loop 2
    invariant b0 >= 2, basis == b0, dig(num0 as nat, b0 as nat, digits as nat, number as nat), digits <= 64, num0 > 0,
        number > 0 || digits > 0, digits > 0 ==> pw(b0 as nat, (digits - 1) as nat) <= num0,
    decreases number,
//@ghost loop 2 start
    proof {
        lem_digits_room(num0 as nat, b0 as nat, digits as nat, number as nat);
        lem_dig(num0 as nat, b0 as nat, digits as nat, number as nat);
        assert(number / (b0 as usize) < number) by (nonlinear_arith) requires number > 0, b0 >= 2;
    }
//@ghost end
    proof { lem_one_mul(pw(b0 as nat, digits as nat)); }
//@end
pub proof fn lem_digits_room(n: nat, b: nat, d: nat, y: nat) requires dig(n, b, d, y), b >= 2, y > 0, n <= usize::MAX, d <= 64 ensures d < 64
{
    lem_pw64(); lem_pw_mono(b, d);
    assert(pw(b, d) <= y * pw(b, d)) by (nonlinear_arith) requires y >= 1;
    if d == 64 { assert(pw(2, 64) <= n); }
}
// ---- binary digits ----
pub open spec fn bit(x: usize, k: usize) -> bool { x & (1usize << k) != 0 }
pub open spec fn low(p: usize) -> usize { if p >= 64 { usize::MAX } else { ((1usize << p) - 1) as usize } }
pub proof fn lem_shl(p: usize) requires p < 64 ensures (1usize << p) == pw(2, p as nat), (1usize << p) >= 1 decreases p
{
    if p == 0 { assert(1usize << 0usize == 1) by (bit_vector); lem_pw1(2); }
    else {
        let q = (p - 1) as usize;
        lem_shl(q);
        assert(q < 63 ==> (1usize << add(q, 1)) == mul(2, 1usize << q) && (1usize << q) <= 0x4000_0000_0000_0000) by (bit_vector);
    }
}
pub proof fn lem_low(x: usize, y: usize, p: usize)
    requires p <= 64, forall|k: usize| k < p ==> #[trigger] bit(x, k) == bit(y, k),
    ensures x & low(p) == y & low(p),
    decreases p
{
    if p == 0 { assert(1usize << 0usize == 1) by (bit_vector); assert(x & 0 == y & 0) by (bit_vector); }
    else {
        let q = (p - 1) as usize;
        lem_low(x, y, q);
        assert(bit(x, q) == bit(y, q));
        lem_shl(q);
        let (m, b) = (low(q), 1usize << q);
        assert(m == sub(1usize << q, 1));
        if p < 64 {
            lem_shl(p);
            assert(low(p) == sub(1usize << p, 1));
            assert(q < 63 ==> sub(1usize << add(q, 1), 1) == sub(1usize << q, 1) | (1usize << q)) by (bit_vector);
        } else {
            assert(sub(1usize << 63usize, 1) | (1usize << 63usize) == 0xffff_ffff_ffff_ffffusize) by (bit_vector);
        }
        assert(low(p) == m | b);
        assert(q < 64 && x & m == y & m && ((x & b != 0) == (y & b != 0)) && b == 1usize << q ==> x & (m | b) == y & (m | b)) by (bit_vector);
    }
}
/// numbers of p digits are determined by their digits
pub proof fn lem_bits_eq(x: usize, y: usize, p: usize)
    requires p <= 64, x < pw(2, p as nat), y < pw(2, p as nat), forall|k: usize| k < p ==> #[trigger] bit(x, k) == bit(y, k),
    ensures x == y,
{
    lem_low(x, y, p);
    if p < 64 {
        lem_shl(p);
        let m = 1usize << p;
        assert(low(p) == sub(m, 1));
        assert(p < 64 && x < (1usize << p) ==> x & sub(1usize << p, 1) == x) by (bit_vector);
        assert(p < 64 && y < (1usize << p) ==> y & sub(1usize << p, 1) == y) by (bit_vector);
    } else {
        assert(x & 0xffff_ffff_ffff_ffffusize == x) by (bit_vector);
        assert(y & 0xffff_ffff_ffff_ffffusize == y) by (bit_vector);
    }
}
