// ---- reading solver value lines ----
// what the standard library and the OPB reader give back is named, not defined: tokens, lines, decimal numbers, OPB literals
pub struct ParseIntError;
pub struct ParsingError;
//@struct src/types/mod.rs TypeError
//@struct src/types/mod.rs InvalidVLine
//@sub std::num::ParseIntError ==> ParseIntError
//@sub fio::ParsingError ==> ParsingError
//@struct src/types/mod.rs VLineFormat
/// the pieces between white space
pub uninterp spec fn ws_tokens(s: Seq<char>) -> Seq<Seq<char>>;
/// the lines of a text
pub uninterp spec fn text_lines(s: Seq<char>) -> Seq<Seq<char>>;
/// the text without leading and trailing white space
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
/// the number written by a text, if it is one that fits
pub uninterp spec fn int_text(s: Seq<char>) -> Option<i32>;
/// the literal in OPB syntax written by a text
pub uninterp spec fn opb_text(s: Seq<char>) -> Option<Lit>;
pub open spec fn vws(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn vx_ws_tokens<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures vws(r@) == ws_tokens(s@) { s.split_whitespace().collect() }
#[verifier::external_body]
pub fn vx_lines<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures vws(r@) == text_lines(s@) { s.lines().collect() }
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body]
pub fn vx_first(s: &str) -> (r: Option<char>) ensures r == (if s@.len() == 0 { None } else { Some(s@[0]) }) { s.chars().next() }
#[verifier::external_body]
pub fn vx_has_char(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
#[verifier::external_body]
pub fn vx_trim<'a>(s: &'a str) -> (r: &'a str) ensures r@ == trimmed(s@) { s.trim() }
/// `&s[1..]`
#[verifier::external_body]
pub fn vx_tail1<'a>(s: &'a str) -> (r: &'a str) requires s@.len() > 0, s@[0] == 'v' ensures r@ == s@.skip(1) { &s[1..] }
/// `&s[c.len_utf8()..]`
#[verifier::external_body]
pub fn vx_tail_after<'a>(s: &'a str, c: char) -> (r: &'a str) requires s@.len() > 0, s@[0] == c ensures r@ == s@.skip(1) { &s[c.len_utf8()..] }
#[verifier::external_body]
pub fn vx_is_zero(s: &str) -> (r: bool) ensures r == (s@ == seq!['0']) { s == "0" }
#[verifier::external_body]
pub fn vx_int(s: &str) -> (r: Result<i32, ParseIntError>) ensures match int_text(s@) { Some(v) => r == Ok::<i32, ParseIntError>(v), None => r is Err } { unimplemented!() }
#[verifier::external_body]
pub fn vx_opb_lit(s: &str) -> (r: Result<Lit, ParsingError>) ensures match opb_text(s@) { Some(v) => r == Ok::<Lit, ParsingError>(v), None => r is Err } { unimplemented!() }
pub assume_specification[ i32::unsigned_abs ](x: i32) -> (r: u32) ensures r == (if x < 0 { -(x as int) } else { x as int });
// ---- meaning ----
pub enum Tok { Bad, End, L(Lit) }
/// a token of a SAT competition line
pub open spec fn sat_tok(s: Seq<char>) -> Tok {
    match int_text(s) { None => Tok::Bad, Some(n) => if n == 0 { Tok::End } else { Tok::L(Lit::mk((if n < 0 { -(n as int) - 1 } else { n as int - 1 }) as nat, n < 0)) } }
}
/// a token of a PB competition line
pub open spec fn pb_tok(s: Seq<char>) -> Tok { match opb_text(s) { None => Tok::Bad, Some(l) => Tok::L(l) } }
pub open spec fn toks(s: Seq<Seq<char>>, pb: bool) -> Seq<Tok> { Seq::new(s.len(), |i: int| if pb { pb_tok(s[i]) } else { sat_tok(s[i]) }) }
pub open spec fn lists(ts: Seq<Tok>, l: Lit) -> bool { exists|i: int| 0 <= i < ts.len() && #[trigger] ts[i] == Tok::L(l) }
/// every token is well formed, no variable is listed with both signs, nothing contradicts what is known
pub open spec fn acceptable(ts: Seq<Tok>, a: Assignment) -> bool {
    &&& forall|i: int| 0 <= i < ts.len() ==> #[trigger] ts[i] != Tok::Bad
    &&& forall|l: Lit| #[trigger] lists(ts, l) ==> a.lval(l) != TernaryVal::False && !lists(ts, l.opp())
}
/// listed literals are true, everything else is as before
pub open spec fn read_as(ts: Seq<Tok>, a: Assignment, b: Assignment) -> bool {
    &&& forall|l: Lit| #[trigger] lists(ts, l) ==> b.lval(l) == TernaryVal::True
    &&& forall|v: nat| (!lists(ts, Lit::mk(v, false)) && !lists(ts, Lit::mk(v, true)) && v <= 0x7fff_ffff) ==> #[trigger] b.val(v as int) == a.val(v as int)
    &&& forall|v: int| v > 0x7fff_ffff ==> #[trigger] b.val(v) == a.val(v)
}
/// a variable that is really in conflict
pub open spec fn in_conflict(ts: Seq<Tok>, a: Assignment, v: Var) -> bool {
    exists|l: Lit| #[trigger] lists(ts, l) && l.v() == v.i() && (a.lval(l) == TernaryVal::False || lists(ts, l.opp()))
}
pub proof fn lem_lit_mk(l: Lit) ensures l == Lit::mk(l.v(), l.neg()), l.v() <= 0x7fff_ffff, l.opp().v() == l.v(), l.opp().neg() == !l.neg(), l.opp().opp() == l
{ assert(2 * l.v() + (if l.neg() { 1int } else { 0int }) == l.lidx); let o = l.opp(); assert(o.lidx == 2 * l.v() + (if l.neg() { 0int } else { 1int })); assert(o.v() == l.v()); }
pub proof fn lem_lists_add(s: Seq<Tok>, t: Seq<Tok>, l: Lit) ensures lists(s + t, l) == (lists(s, l) || lists(t, l))
{
    if lists(s, l) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Tok::L(l); assert((s + t)[i] == s[i]); }
    if lists(t, l) { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == Tok::L(l); assert((s + t)[s.len() + i] == t[i]); }
    if lists(s + t, l) { let i = choose|i: int| 0 <= i < (s + t).len() && #[trigger] (s + t)[i] == Tok::L(l); if i < s.len() { assert(s[i] == Tok::L(l)); } else { assert(t[i - s.len()] == Tok::L(l)); } }
}
/// reading one part and then another is reading them together
pub proof fn lem_read_add(s: Seq<Tok>, t: Seq<Tok>, a: Assignment, b: Assignment)
    requires acceptable(s, a), read_as(s, a, b),
    ensures acceptable(s + t, a) == acceptable(t, b), forall|c: Assignment| #[trigger] read_as(t, b, c) && acceptable(t, b) ==> read_as(s + t, a, c), forall|v: Var| #[trigger] in_conflict(t, b, v) ==> in_conflict(s + t, a, v)
{
    let u = s + t;
    assert forall|l: Lit| #[trigger] lists(u, l) == (lists(s, l) || lists(t, l)) by { lem_lists_add(s, t, l); }
    assert forall|l: Lit| #[trigger] lists(t, l) && b.lval(l) == TernaryVal::False implies a.lval(l) == TernaryVal::False || lists(s, l.opp()) by {
        lem_lit_mk(l); lem_lit_mk(l.opp());
        if !lists(s, l.opp()) { if lists(s, l) { assert(b.lval(l) == TernaryVal::True); } else { assert(!lists(s, Lit::mk(l.v(), false)) && !lists(s, Lit::mk(l.v(), true))); assert(b.val(l.v() as int) == a.val(l.v() as int)); } }
    }
    if acceptable(u, a) {
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != Tok::Bad by { assert(u[s.len() + i] == t[i]); }
        assert forall|l: Lit| #[trigger] lists(t, l) implies b.lval(l) != TernaryVal::False && !lists(t, l.opp()) by { assert(lists(u, l)); assert(!lists(u, l.opp())); }
    }
    if acceptable(t, b) {
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != Tok::Bad by { if i < s.len() { assert(u[i] == s[i]); } else { assert(u[i] == t[i - s.len()]); } }
        assert forall|l: Lit| #[trigger] lists(u, l) implies a.lval(l) != TernaryVal::False && !lists(u, l.opp()) by {
            lem_lit_mk(l); lem_lit_mk(l.opp());
            if lists(s, l) { assert(!lists(s, l.opp())); if lists(t, l.opp()) { assert(b.lval(l.opp()) != TernaryVal::False); assert(b.lval(l) == TernaryVal::True); } }
            else {
                assert(lists(t, l)); assert(b.lval(l) != TernaryVal::False);
                if lists(s, l.opp()) { assert(b.lval(l.opp()) == TernaryVal::True); }
                assert(!lists(s, Lit::mk(l.v(), false)) && !lists(s, Lit::mk(l.v(), true))); assert(b.val(l.v() as int) == a.val(l.v() as int));
            }
        }
        assert forall|c: Assignment| #[trigger] read_as(t, b, c) implies read_as(u, a, c) by {
            assert forall|l: Lit| #[trigger] lists(u, l) implies c.lval(l) == TernaryVal::True by {
                lem_lit_mk(l); lem_lit_mk(l.opp());
                if !lists(t, l) { assert(lists(s, l)); assert(b.lval(l) == TernaryVal::True);
                    if lists(t, l.opp()) { assert(b.lval(l.opp()) != TernaryVal::False); }
                    assert(!lists(t, Lit::mk(l.v(), false)) && !lists(t, Lit::mk(l.v(), true))); assert(c.val(l.v() as int) == b.val(l.v() as int)); }
            }
            assert forall|v: nat| (!lists(u, Lit::mk(v, false)) && !lists(u, Lit::mk(v, true)) && v <= 0x7fff_ffff) implies #[trigger] c.val(v as int) == a.val(v as int) by { assert(b.val(v as int) == a.val(v as int)); }
            assert forall|v: int| v > 0x7fff_ffff implies #[trigger] c.val(v) == a.val(v) by { assert(b.val(v) == a.val(v)); }
        }
    }
    assert forall|v: Var| #[trigger] in_conflict(t, b, v) implies in_conflict(u, a, v) by {
        let l = choose|l: Lit| #[trigger] lists(t, l) && l.v() == v.i() && (b.lval(l) == TernaryVal::False || lists(t, l.opp()));
        assert(lists(u, l)); assert(lists(u, l.opp()) || a.lval(l) == TernaryVal::False);
    }
}
pub proof fn lem_bad_prefix(s: Seq<Tok>, t: Seq<Tok>, a: Assignment) requires !acceptable(s, a) ensures !acceptable(s + t, a)
{
    let u = s + t;
    if acceptable(u, a) {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != Tok::Bad by { assert(u[i] == s[i]); }
        assert forall|l: Lit| #[trigger] lists(s, l) implies a.lval(l) != TernaryVal::False && !lists(s, l.opp()) by { lem_lists_add(s, t, l); lem_lists_add(s, t, l.opp()); assert(lists(u, l)); }
    }
}
/// one token
pub proof fn lem_tok1(x: Tok, a: Assignment)
    ensures acceptable(seq![x], a) == (match x { Tok::Bad => false, Tok::End => true, Tok::L(l) => a.lval(l) != TernaryVal::False }),
        x is L && a.lval(x->L_0) == TernaryVal::False ==> forall|v: Var| v.i() == (x->L_0).v() ==> #[trigger] in_conflict(seq![x], a, v),
        x == Tok::End ==> read_as(seq![x], a, a),
        forall|l: Lit, b: Assignment| x == Tok::L(l) && b.lval(l) == TernaryVal::True && (forall|i: int| i != l.v() ==> #[trigger] b.val(i) == a.val(i)) ==> #[trigger] read_as(seq![Tok::L(l)], a, b),
{
    let s = seq![x];
    assert(s[0] == x);
    assert forall|l: Lit| #[trigger] lists(s, l) == (x == Tok::L(l)) by { if lists(s, l) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Tok::L(l); assert(i == 0); } }
    if x is L { let l = x->L_0; lem_lit_mk(l); lem_lit_mk(l.opp()); assert(lists(s, l)); assert(!lists(s, l.opp())); assert(s[0] != Tok::Bad); 
        assert forall|m: Lit| #[trigger] lists(s, m) implies m == l by {} 
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != Tok::Bad by { assert(i == 0); }
        assert forall|b: Assignment| b.lval(l) == TernaryVal::True && (forall|i: int| i != l.v() ==> #[trigger] b.val(i) == a.val(i)) implies #[trigger] read_as(seq![Tok::L(l)], a, b) by {
            assert forall|v: nat| (!lists(s, Lit::mk(v, false)) && !lists(s, Lit::mk(v, true)) && v <= 0x7fff_ffff) implies #[trigger] b.val(v as int) == a.val(v as int) by { if v == l.v() { assert(lists(s, Lit::mk(l.v(), l.neg()))); } }
        }
    }
}
pub proof fn lem_prefix(ts: Seq<Tok>, i: int, a: Assignment) requires 0 <= i < ts.len()
    ensures ts.take(i + 1) == ts.take(i) + seq![ts[i]], ts == ts.take(i + 1) + ts.skip(i + 1), ts == ts.take(i) + ts.skip(i)
{ assert(ts.take(i + 1) =~= ts.take(i) + seq![ts[i]]); assert(ts =~= ts.take(i + 1) + ts.skip(i + 1)); assert(ts =~= ts.take(i) + ts.skip(i)); }
/// the step of the readers: token `i` read after the ones before it
pub proof fn lem_step(ts: Seq<Tok>, i: int, a: Assignment, b: Assignment)
    requires 0 <= i < ts.len(), acceptable(ts.take(i), a), read_as(ts.take(i), a, b),
    ensures
        ts[i] == Tok::Bad ==> !acceptable(ts, a),
        ts[i] == Tok::End ==> acceptable(ts.take(i + 1), a) && read_as(ts.take(i + 1), a, b),
        forall|l: Lit| ts[i] == Tok::L(l) && #[trigger] b.lval(l) == TernaryVal::False ==> !acceptable(ts, a) && (forall|v: Var| v.i() == l.v() ==> #[trigger] in_conflict(ts, a, v)),
        forall|l: Lit, c: Assignment| ts[i] == Tok::L(l) && b.lval(l) != TernaryVal::False && #[trigger] c.lval(l) == TernaryVal::True && (forall|k: int| k != l.v() ==> #[trigger] c.val(k) == b.val(k)) ==> acceptable(ts.take(i + 1), a) && read_as(ts.take(i + 1), a, c),
{
    let x = ts[i]; lem_prefix(ts, i, a); lem_tok1(x, b); lem_read_add(ts.take(i), seq![x], a, b);
    if !acceptable(seq![x], b) { lem_bad_prefix(ts.take(i + 1), ts.skip(i + 1), a); }
    if x is L { let l = x->L_0;
        if b.lval(l) == TernaryVal::False { assert forall|v: Var| v.i() == l.v() implies #[trigger] in_conflict(ts, a, v) by { assert(in_conflict(seq![x], b, v)); assert(in_conflict(ts.take(i + 1), a, v)); lem_conflict_more(ts.take(i + 1), ts.skip(i + 1), a, v); } }
        assert forall|c: Assignment| b.lval(l) != TernaryVal::False && #[trigger] c.lval(l) == TernaryVal::True && (forall|k: int| k != l.v() ==> #[trigger] c.val(k) == b.val(k)) implies acceptable(ts.take(i + 1), a) && read_as(ts.take(i + 1), a, c) by { assert(read_as(seq![Tok::L(l)], b, c)); }
    } else if x == Tok::End { assert(read_as(seq![x], b, b)); }
}
pub proof fn lem_conflict_more(s: Seq<Tok>, t: Seq<Tok>, a: Assignment, v: Var) requires in_conflict(s, a, v) ensures in_conflict(s + t, a, v)
{
    let l = choose|l: Lit| #[trigger] lists(s, l) && l.v() == v.i() && (a.lval(l) == TernaryVal::False || lists(s, l.opp()));
    lem_lists_add(s, t, l); lem_lists_add(s, t, l.opp()); assert(lists(s + t, l));
}
/// the tokens of several lines, without their tags
pub open spec fn line_toks(ls: Seq<Seq<char>>, pb: bool) -> Seq<Tok> decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else { line_toks(ls.drop_last(), pb) + toks(ws_tokens(ls.last().skip(1)), pb) } }
pub open spec fn tagged(l: Seq<char>) -> bool { l.len() > 0 && l[0] == 'v' }
pub open spec fn all_tagged(ls: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> tagged(#[trigger] ls[i]) }
pub open spec fn is01(c: char) -> bool { c == '0' || c == '1' }
pub open spec fn all01(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is01(#[trigger] s[i]) }
/// a text of zeroes and ones as values
pub open spec fn bits(s: Seq<char>) -> Seq<TernaryVal> { Seq::new(s.len(), |i: int| TernaryVal::of(s[i] == '1')) }
pub open spec fn line_bits(ls: Seq<Seq<char>>) -> Seq<TernaryVal> decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else { line_bits(ls.drop_last()) + bits(trimmed(ls.last().skip(1))) } }
pub open spec fn bit_lines(ls: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> all01(trimmed(#[trigger] ls[i].skip(1))) }
pub open spec fn is_pb(s: Seq<char>) -> bool { s.contains('x') }
pub open spec fn is_mse(s: Seq<char>) -> bool { let c = trimmed(s.skip(1)); !is_pb(s) && !c.contains(' ') && c != seq!['0'] && all01(c) }
/// what reading a whole text may do
pub open spec fn vline_ok(s: Seq<char>, a: Assignment) -> bool {
    s.len() > 0 && all_tagged(text_lines(s)) && if is_mse(s) { bit_lines(text_lines(s)) } else { acceptable(line_toks(text_lines(s), is_pb(s)), a) }
}
pub open spec fn vline_read(s: Seq<char>, a: Assignment, b: Assignment) -> bool {
    if is_mse(s) { b.assignment@ == a.assignment@ + line_bits(text_lines(s)) } else { read_as(line_toks(text_lines(s), is_pb(s)), a, b) }
}
pub proof fn lem_lines_prefix(ls: Seq<Seq<char>>, i: int, pb: bool, a: Assignment) requires 0 <= i < ls.len()
    ensures line_toks(ls.take(i + 1), pb) == line_toks(ls.take(i), pb) + toks(ws_tokens(ls[i].skip(1)), pb), line_bits(ls.take(i + 1)) == line_bits(ls.take(i)) + bits(trimmed(ls[i].skip(1))),
        !acceptable(line_toks(ls.take(i + 1), pb), a) ==> !acceptable(line_toks(ls, pb), a),
{
    assert(ls.take(i + 1).drop_last() =~= ls.take(i)); lem_lines_bad(ls, i + 1, pb, a);
}
pub proof fn lem_lines_bad(ls: Seq<Seq<char>>, i: int, pb: bool, a: Assignment) requires 0 <= i <= ls.len()
    ensures !acceptable(line_toks(ls.take(i), pb), a) ==> !acceptable(line_toks(ls, pb), a), decreases ls.len()
{
    if i == ls.len() { assert(ls.take(i) =~= ls); } else {
        assert(ls.drop_last().take(i) =~= ls.take(i)); lem_lines_bad(ls.drop_last(), i, pb, a);
        if !acceptable(line_toks(ls.take(i), pb), a) { lem_bad_prefix(line_toks(ls.drop_last(), pb), toks(ws_tokens(ls.last().skip(1)), pb), a); }
    }
}
pub proof fn lem_lines_conflict(ls: Seq<Seq<char>>, i: int, pb: bool, a: Assignment, v: Var) requires 0 <= i <= ls.len(), in_conflict(line_toks(ls.take(i), pb), a, v)
    ensures in_conflict(line_toks(ls, pb), a, v), decreases ls.len()
{
    if i == ls.len() { assert(ls.take(i) =~= ls); } else {
        assert(ls.drop_last().take(i) =~= ls.take(i)); lem_lines_conflict(ls.drop_last(), i, pb, a, v);
        lem_conflict_more(line_toks(ls.drop_last(), pb), toks(ws_tokens(ls.last().skip(1)), pb), a, v);
    }
}
impl Default for Assignment {
    /// derived
    #[verifier::external_body]
    fn default() -> (r: Assignment) ensures r.assignment@.len() == 0 { unimplemented!() }
}
impl Lit {
//@fn src/types/mod.rs Lit::new_with_error
//@ret r
    ensures idx <= 0x7fff_ffff ==> r == Ok::<Lit, TypeError>(Lit::mk(idx as nat, negated)), idx > 0x7fff_ffff ==> r is Err,
//@end
//@fn src/types/mod.rs Lit::from_ipasir
//@ret r
    ensures val != 0 ==> r == Ok::<Lit, TypeError>(Lit::mk((if val < 0 { -(val as int) - 1 } else { val as int - 1 }) as nat, val < 0)), val == 0 ==> r is Err,
//@end
}
impl Assignment {
//@fn src/types/mod.rs Assignment::extend_sat_comp_vline attr=verifier::loop_isolation(false)
//@ret r
    requires tagged(line@),
    ensures r is Ok <==> acceptable(toks(ws_tokens(line@.skip(1)), false), *old(self)),
        r is Ok ==> read_as(toks(ws_tokens(line@.skip(1)), false), *old(self), *final(self)),
        r is Err && r->Err_0 is ConflictingAssignment ==> in_conflict(toks(ws_tokens(line@.skip(1)), false), *old(self), r->Err_0->ConflictingAssignment_0),
//@sub &line\[1\.\.\] ==> vx_tail1(line)
//@sub for number in it: line\.split_whitespace\(\) ==> for number in it: vx_ws_tokens(line)
//@sub number\.parse::<i32>\(\)\? ==> match vx_int(number) { Ok(n) => n, Err(e) => { return Err(InvalidVLine::InvalidInt(e)); } }
//@sub Lit::from_ipasir\(number\)\? ==> match Lit::from_ipasir(number) { Ok(n) => n, Err(e) => { return Err(InvalidVLine::InvalidLit(e)); } }
//@ghost start
    let ghost a0 = *self; let ghost w = ws_tokens(line@.skip(1)); let ghost ts = toks(w, false);
    proof { assert(ts.take(0) =~= Seq::<Tok>::empty()); }
//@loop 0 iter=it
    invariant vws(it.seq()) == w, ts == toks(w, false), acceptable(ts.take(it.index@), a0), read_as(ts.take(it.index@), a0, *self),
//@ghost loop 0 start
    let ghost i = it.index@; let ghost b = *self; proof { assert(vws(it.seq())[i] == number@); assert(ts[i] == sat_tok(w[i])); lem_step(ts, i, a0, b); }
//@ghost loop 0 end
    proof { if ts[i] is L { assert(b.lval(ts[i]->L_0) != TernaryVal::False); assert(self.lval(ts[i]->L_0) == TernaryVal::True); } }
//@ghost loop 0 after
    proof { assert(ts.take(ts.len() as int) =~= ts); }
//@end
//@fn src/types/mod.rs Assignment::extend_maxsat_eval_vline attr=verifier::loop_isolation(false)
//@ret r
    requires tagged(line@),
    ensures r is Ok <==> all01(trimmed(line@.skip(1))), r is Ok ==> final(self).assignment@ == old(self).assignment@ + bits(trimmed(line@.skip(1))),
        r is Err ==> !(r->Err_0 is ConflictingAssignment),
//@sub line\[1\.\.\]\.trim\(\) ==> vx_trim(vx_tail1(line))
//@sub for char in it: line\.chars\(\) ==> for char in it: vx_chars(line)
//@ghost start
    let ghost a0 = self.assignment@; let ghost w = trimmed(line@.skip(1));
//@loop 0 iter=it
    invariant it.seq() == w, forall|i: int| 0 <= i < it.index@ ==> is01(#[trigger] w[i]), self.assignment@ == a0 + bits(w.take(it.index@)),
//@ghost loop 0 start
    let ghost i = it.index@; proof { assert(w[i] == char); assert(bits(w.take(i + 1)) =~= bits(w.take(i)).push(TernaryVal::of(w[i] == '1'))); }
//@ghost loop 0 end
    proof { assert(self.assignment@ =~= a0 + bits(w.take(i + 1))); }
//@ghost loop 0 after
    proof { assert(w.take(w.len() as int) =~= w); }
//@end
//@fn src/types/mod.rs Assignment::extend_pb_comp_vline attr=verifier::loop_isolation(false)
//@ret r
    requires tagged(line@),
    ensures r is Ok <==> acceptable(toks(ws_tokens(line@.skip(1)), true), *old(self)),
        r is Ok ==> read_as(toks(ws_tokens(line@.skip(1)), true), *old(self), *final(self)),
        r is Err && r->Err_0 is ConflictingAssignment ==> in_conflict(toks(ws_tokens(line@.skip(1)), true), *old(self), r->Err_0->ConflictingAssignment_0),
//@sub &line\[1\.\.\] ==> vx_tail1(line)
//@sub for number in it: line\.split_whitespace\(\) ==> for number in it: vx_ws_tokens(line)
//@sub (?s)fio::opb::literal\(fio::opb::Options::default\(\)\)\s*\.parse\(number\)\s*\.map_err\(.*?\}\)\?; ==> match vx_opb_lit(number) { Ok(n) => n, Err(e) => { return Err(InvalidVLine::Parsing(e)); } };
//@ghost start
    let ghost a0 = *self; let ghost w = ws_tokens(line@.skip(1)); let ghost ts = toks(w, true);
    proof { assert(ts.take(0) =~= Seq::<Tok>::empty()); }
//@loop 0 iter=it
    invariant vws(it.seq()) == w, ts == toks(w, true), acceptable(ts.take(it.index@), a0), read_as(ts.take(it.index@), a0, *self),
//@ghost loop 0 start
    let ghost i = it.index@; let ghost b = *self; proof { assert(vws(it.seq())[i] == number@); assert(ts[i] == pb_tok(w[i])); lem_step(ts, i, a0, b); }
//@ghost loop 0 end
    proof { if ts[i] is L { assert(b.lval(ts[i]->L_0) != TernaryVal::False); assert(self.lval(ts[i]->L_0) == TernaryVal::True); } }
//@ghost loop 0 after
    proof { assert(ts.take(ts.len() as int) =~= ts); }
//@end
//@fn src/types/mod.rs Assignment::extend_from_vline attr=verifier::loop_isolation(false)
//@ret r
    ensures r is Ok <==> vline_ok(lines@, *old(self)), r is Ok ==> vline_read(lines@, *old(self), *final(self)),
        r is Err && r->Err_0 is ConflictingAssignment ==> in_conflict(line_toks(text_lines(lines@), is_pb(lines@)), *old(self), r->Err_0->ConflictingAssignment_0),
//@sub lines\.chars\(\)\.next\(\) ==> vx_first(lines)
//@sub lines\[tag\.len_utf8\(\)\.\.\]\.trim\(\) ==> vx_trim(vx_tail_after(lines, tag))
//@sub lines\.contains\('x'\) ==> vx_has_char(lines, 'x')
//@sub content\.contains\(' '\) ==> vx_has_char(content, ' ')
//@sub content != "0" ==> !vx_is_zero(content)
//@sub for c in it0: content\.chars\(\) ==> for c in it0: vx_chars(content)
//@sub for line in it: lines\.lines\(\) ==> for line in it: vx_lines(lines)
//@sub line\.chars\(\)\.next\(\) ==> vx_first(line)
//@sub (?s)match format \{(.*?)\n        \}\?; ==> match (match format {$1 }) { Ok(()) => {}, Err(vx_e) => { proof { if vx_e is ConflictingAssignment { assert(!is_mse(txt)); lem_lines_conflict(ls, i + 1, pb, a0, vx_e->ConflictingAssignment_0); } } return Err(vx_e); } };
//@ghost start
    let ghost a0 = *self; let ghost txt = lines@; let ghost ls = text_lines(txt); let ghost pb = is_pb(txt);
    proof { assert(ls.take(0) =~= Seq::<Seq<char>>::empty()); }
//@loop 0 iter=it0
    invariant_except_break it0.seq() == content@, vx_res1 == Ok::<(), ()>(()), forall|i: int| 0 <= i < it0.index@ ==> is01(#[trigger] content@[i]),
    ensures vx_res1 is Ok <==> all01(content@),
//@ghost loop 0 start
    proof { assert(content@[it0.index@] == c); }
//@ghost loop 1 before
    let ghost mse = is_mse(txt); proof { assert(format is MaxSatEval <==> mse); assert(format is PbComp <==> pb); assert(self.assignment@ =~= a0.assignment@ + Seq::<TernaryVal>::empty()); }
//@loop 1 iter=it
    invariant vws(it.seq()) == ls, mse == is_mse(txt), pb == is_pb(txt), ls == text_lines(txt), format is MaxSatEval <==> mse, format is PbComp <==> pb, txt.len() > 0, txt == lines@,
        forall|i: int| 0 <= i < it.index@ ==> tagged(#[trigger] ls[i]),
        mse ==> self.assignment@ == a0.assignment@ + line_bits(ls.take(it.index@)) && forall|i: int| 0 <= i < it.index@ ==> all01(trimmed(#[trigger] ls[i].skip(1))),
        !mse ==> acceptable(line_toks(ls.take(it.index@), pb), a0) && read_as(line_toks(ls.take(it.index@), pb), a0, *self),
//@ghost loop 1 start
    let ghost i = it.index@; let ghost b = *self;
    proof { assert(vws(it.seq())[i] == line@); lem_lines_prefix(ls, i, pb, a0); if !mse { lem_read_add(line_toks(ls.take(i), pb), toks(ws_tokens(ls[i].skip(1)), pb), a0, b); } }
//@ghost loop 1 end
    proof { if mse { assert(self.assignment@ =~= a0.assignment@ + line_bits(ls.take(i + 1))); } }
//@ghost loop 1 after
    proof { assert(ls.take(ls.len() as int) =~= ls); }
//@end
//@fn src/types/mod.rs Assignment::from_vline
//@ret r
    ensures exists|a: Assignment| a.assignment@.len() == 0 && (r is Ok <==> #[trigger] vline_ok(line@, a)) && (r is Ok ==> vline_read(line@, a, r->Ok_0)),
//@sub assignment\.extend_from_vline\(line\)\?; ==> let ghost a0 = assignment; proof { assert(a0.assignment@.len() == 0); } match assignment.extend_from_vline(line) { Ok(()) => {}, Err(e) => { return Err(e); } };
//@end
}
