use super::util::*;
use crate::core::*;
use crate::{ck, ck_eq};
use rustsat::types::constraints::*;
use rustsat::types::*;
pub fn suites() -> Vec<Suite> {
    vec![
        super::s("P05", "card_eval", "evaluation, classification and accessors of cardinality constraints", card_eval, 150_000, 40_000, 2_000_000),
        super::s("P05", "card_conv", "splitting, inverting, adding, re-bounding and converting cardinality constraints", card_conv, 150_000, 40_000, 2_000_000),
        super::s("P06", "pb_eval", "evaluation and classification of pseudo-Boolean constraints", pb_eval, 150_000, 60_000, 3_000_000),
        super::s("P06", "pb_big", "evaluation and classification with weights near the integer limits", pb_big, 0, 30_000, 1_000_000),
        super::s("P06", "pb_conv", "inverting, splitting, adding, re-bounding and converting pseudo-Boolean constraints", pb_conv, 150_000, 60_000, 3_000_000),
    ]
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Ub,
    Lb,
    Eq,
}
impl Op {
    pub fn holds(self, s: i128, b: i128) -> bool {
        match self {
            Op::Ub => s <= b,
            Op::Lb => s >= b,
            Op::Eq => s == b,
        }
    }
    pub fn card(self, l: impl IntoIterator<Item = Lit>, b: usize) -> CardConstraint {
        match self {
            Op::Ub => CardConstraint::new_ub(l, b),
            Op::Lb => CardConstraint::new_lb(l, b),
            Op::Eq => CardConstraint::new_eq(l, b),
        }
    }
    pub fn pb(self, l: impl IntoIterator<Item = (Lit, isize)>, b: isize) -> PbConstraint {
        match self {
            Op::Ub => PbConstraint::new_ub(l, b),
            Op::Lb => PbConstraint::new_lb(l, b),
            Op::Eq => PbConstraint::new_eq(l, b),
        }
    }
    pub fn pbu(self, l: impl IntoIterator<Item = (Lit, usize)>, b: isize) -> PbConstraint {
        match self {
            Op::Ub => PbConstraint::new_ub_unsigned(l, b),
            Op::Lb => PbConstraint::new_lb_unsigned(l, b),
            Op::Eq => PbConstraint::new_eq_unsigned(l, b),
        }
    }
}
pub fn op(g: &mut Gen) -> Op {
    g.of(&[Op::Ub, Op::Lb, Op::Eq])
}
/// expected ternary value from the attainable range (independent counting of every occurrence)
fn tern(op: Op, min: i128, max: i128, b: i128) -> TernaryVal {
    match op {
        Op::Ub if max <= b => TernaryVal::True,
        Op::Ub if min > b => TernaryVal::False,
        Op::Lb if min >= b => TernaryVal::True,
        Op::Lb if max < b => TernaryVal::False,
        Op::Eq if min == b && max == b => TernaryVal::True,
        Op::Eq if b < min || b > max => TernaryVal::False,
        _ => TernaryVal::DontCare,
    }
}
fn cop(c: &CardConstraint) -> Op {
    match c {
        CardConstraint::Ub(_) => Op::Ub,
        CardConstraint::Lb(_) => Op::Lb,
        CardConstraint::Eq(_) => Op::Eq,
    }
}
pub fn card_holds(c: &CardConstraint, m: &[bool]) -> bool {
    let s: i128 = c.iter().map(|l| i128::from(lt(*l, m))).sum();
    cop(c).holds(s, c.bound() as i128)
}
pub fn pop(c: &PbConstraint) -> Op {
    match c {
        PbConstraint::Ub(_) => Op::Ub,
        PbConstraint::Lb(_) => Op::Lb,
        PbConstraint::Eq(_) => Op::Eq,
    }
}
pub fn pb_holds(c: &PbConstraint, m: &[bool]) -> bool {
    let s: i128 = c.iter().map(|(l, w)| if lt(*l, m) { *w as i128 } else { 0 }).sum();
    pop(c).holds(s, c.bound() as i128)
}
fn distinct(ls: &[Lit]) -> bool {
    vset(ls).len() == ls.len()
}
fn card_lits(g: &mut Gen) -> Vec<Lit> {
    if g.flip() {
        let n = g.upto(3, 7);
        dlits(g, n)
    } else {
        let nv = g.lim(2, 4);
        let vs = vars(g, nv);
        let n = g.upto(3, 7);
        lits(g, &vs, n)
    }
}
fn bound(g: &mut Gen, n: usize) -> usize {
    if g.exhaustive || !g.chance(1, 10) {
        g.pick(n + 3)
    } else {
        g.of(&[usize::MAX, usize::MAX - 1, isize::MAX as usize, 1 << 32, 1000])
    }
}
fn card_eval(g: &mut Gen) -> R {
    let ls = card_lits(g);
    let o = op(g);
    let b = bound(g, ls.len());
    let c = o.card(ls.iter().copied(), b);
    let a = assignment(g, maxv(&ls));
    g.note(format!("{c} assignment {a:?}"));
    ck_eq!(c.bound(), b, "bound", "bound");
    ck_eq!(c.len(), ls.len(), "len", "len");
    ck_eq!(c.n_lits(), ls.len(), "len", "n_lits");
    ck_eq!(c.is_empty(), ls.is_empty(), "len", "is_empty");
    ck_eq!(c.iter().copied().collect::<Vec<_>>(), ls, "iter", "iter");
    ck_eq!((&c).into_iter().copied().collect::<Vec<_>>(), ls, "iter", "into_iter");
    ck_eq!(cop(&c), o, "kind", "kind");
    let r = raw(maxv(&ls) as usize + 1, &a);
    let (mut lo, mut hi) = (0i128, 0i128);
    for l in &ls {
        match sem(&r, *l) {
            TernaryVal::True => { lo += 1; hi += 1 }
            TernaryVal::DontCare => hi += 1,
            TernaryVal::False => (),
        }
    }
    ck_eq!(c.evaluate(&a), tern(o, lo, hi, b as i128), "evaluate", "evaluate of {c} under {a:?}");
    // classification
    let vs = vset(&ls);
    let d = distinct(&ls);
    let sat: Vec<(Vec<bool>, bool)> = totals(&vs).map(|m| { let h = card_holds_raw(&ls, o, b, &m); (m, h) }).collect();
    let all = sat.iter().all(|x| x.1);
    let none = sat.iter().all(|x| !x.1);
    let only = |v: bool| sat.iter().all(|(m, h)| *h == ls.iter().all(|l| lt(*l, m) == v));
    if c.is_tautology() { ck!(all, "tautology", "{c} is reported a tautology"); }
    else if d { ck!(!all, "tautology", "{c} is not reported a tautology"); }
    if c.is_unsat() { ck!(none, "unsat", "{c} is reported unsatisfiable"); }
    else if d { ck!(!none, "unsat", "{c} is not reported unsatisfiable"); }
    if c.is_positive_assignment() { ck!(only(true), "pos", "{c} is reported a positive assignment"); }
    else if d && o != Op::Ub && !ls.is_empty() { ck!(!only(true), "pos", "{c} is not reported a positive assignment"); }
    if c.is_negative_assignment() { ck!(only(false), "neg", "{c} is reported a negative assignment"); }
    else if d && o != Op::Lb && !ls.is_empty() { ck!(!only(false), "neg", "{c} is not reported a negative assignment"); }
    let isc = c.is_clause();
    if d && o == Op::Lb { ck_eq!(isc, b == 1, "clause", "is_clause of {c}"); }
    if d && o == Op::Ub { ck_eq!(isc, b as u128 + 1 == ls.len() as u128, "clause", "is_clause of {c}"); }
    match c.clone().into_clause() {
        Ok(cl) => {
            ck!(isc, "clause", "{c} converted to a clause although it is none");
            for (m, h) in &sat { ck_eq!(cl_sat(cl.iter(), m), *h, "clause", "clause {cl} of {c} under {m:?}"); }
        }
        Err(_) => ck!(!isc, "clause", "{c} is reported a clause but cannot be converted"),
    }
    Ok(())
}
fn card_holds_raw(ls: &[Lit], o: Op, b: usize, m: &[bool]) -> bool {
    o.holds(ls.iter().map(|l| i128::from(lt(*l, m))).sum(), b as i128)
}
fn card_conv(g: &mut Gen) -> R {
    let ls = card_lits(g);
    let o = op(g);
    let b = bound(g, ls.len());
    let c = o.card(ls.iter().copied(), b);
    g.note(format!("{c}"));
    let vs = vset(&ls);
    let ms: Vec<Vec<bool>> = totals(&vs).collect();
    let h: Vec<bool> = ms.iter().map(|m| card_holds_raw(&ls, o, b, m)).collect();
    let n = c.clone().normalize();
    ck_eq!(cop(&n), o, "normalize", "kind of normalized {c}");
    for (m, h) in ms.iter().zip(&h) { ck_eq!(card_holds(&n, m), *h, "normalize", "normalized {n} of {c} under {m:?}"); }
    ck!(n.iter().zip(n.iter().skip(1)).all(|(a, b)| a <= b), "normalize", "{n} is not sorted");
    ck_eq!(c.clone().into_lits(), ls, "lits", "into_lits");
    match c.clone() {
        CardConstraint::Ub(u) => {
            ck_eq!(u.clone().decompose(), (ls.clone(), b), "decompose", "decompose");
            let i = u.clone().invert();
            let (il, ib) = i.clone().decompose();
            for (m, h) in ms.iter().zip(&h) { ck_eq!(card_holds_raw(&il, Op::Lb, ib, m), *h, "invert", "inverse {i} of {c} under {m:?}"); }
        }
        CardConstraint::Lb(u) => {
            ck_eq!(u.clone().decompose(), (ls.clone(), b), "decompose", "decompose");
            // an unsatisfiable lower bound has no upper-bound form: a (documented) panic reports it, wrong results do not
            let r = may_panic(|| u.clone().invert());
            match r {
                Ok(i) => {
                    let (il, ib) = i.clone().decompose();
                    for (m, h) in ms.iter().zip(&h) { ck_eq!(card_holds_raw(&il, Op::Ub, ib, m), *h, "invert", "inverse {i} of {c} under {m:?}"); }
                }
                Err(p) => ck!(b > ls.len(), "invert-panic", "inverting {c} panicked: {p}"),
            }
        }
        CardConstraint::Eq(u) => {
            ck_eq!(u.clone().decompose(), (ls.clone(), b), "decompose", "decompose");
            let (l, u) = u.split();
            let ((ll, lb), (ul, ub)) = (l.decompose(), u.decompose());
            for (m, h) in ms.iter().zip(&h) {
                ck_eq!(card_holds_raw(&ll, Op::Lb, lb, m) && card_holds_raw(&ul, Op::Ub, ub, m), *h, "split", "split of {c} under {m:?}");
            }
        }
    }
    // editing
    let k = g.upto(1, 3);
    let more = lits(g, &[0, 1, 2], k);
    let nb = g.pick(4);
    let mut e = c.clone();
    e.add(more.iter().copied());
    g.note(format!("add {more:?} bound {nb}"));
    ck_eq!(e.iter().copied().collect::<Vec<_>>(), [ls.clone(), more.clone()].concat(), "add", "literals after add");
    ck_eq!((cop(&e), e.bound()), (o, b), "add", "bound after add");
    e.set_bound(nb);
    ck_eq!((cop(&e), e.bound(), e.len()), (o, nb, ls.len() + more.len()), "set-bound", "constraint after set_bound");
    // pseudo-Boolean form
    if b <= isize::MAX as usize {
        let p = PbConstraint::from(c.clone());
        for (m, h) in ms.iter().zip(&h) { ck_eq!(pb_holds(&p, m), *h, "to-pb", "pseudo-Boolean form {p} of {c} under {m:?}"); }
        pb_to_card(&p, &ms)?;
    }
    let cl: Clause = ls.iter().copied().collect();
    let f = CardConstraint::from(cl.clone());
    for m in &ms { ck_eq!(card_holds(&f, m), cl_sat(&ls, m), "from-clause", "cardinality form {f} of {cl} under {m:?}"); }
    if let Some(l) = ls.first() {
        let u = CardConstraint::new_unit(*l);
        for m in &ms { ck_eq!(card_holds(&u, m), lt(*l, m), "unit", "unit {u} under {m:?}"); }
    }
    Ok(())
}
fn pb_to_card(p: &PbConstraint, ms: &[Vec<bool>]) -> R {
    let h: Vec<bool> = ms.iter().map(|m| pb_holds(p, m)).collect();
    let ls: Vec<Lit> = p.iter().map(|x| x.0).collect();
    match p.clone().into_card_constr() {
        Ok(c) => {
            for (m, h) in ms.iter().zip(&h) { ck_eq!(card_holds(&c, m), *h, "to-card", "cardinality form {c} of {p} under {m:?}"); }
        }
        Err(PbToCardError::Tautology) => ck!(h.iter().all(|x| *x), "to-card", "{p} reported a tautology"),
        Err(PbToCardError::Unsat) => ck!(h.iter().all(|x| !*x), "to-card", "{p} reported unsatisfiable"),
        Err(PbToCardError::NotACard) => {
            let mut w: Vec<usize> = p.iter().map(|x| x.1).collect();
            w.dedup();
            ck!(w.len() != 1, "to-card", "{p} has a unit weight but is reported not to be a cardinality constraint");
        }
    }
    // extending is defined unless the constraint is unsatisfiable or a tautology
    if p.weight_sum() < 2000 {
        match may_panic(|| p.clone().extend_to_card_constr()) {
            Ok(c) => for (m, h) in ms.iter().zip(&h) { ck_eq!(card_holds(&c, m), *h, "extend-card", "extended cardinality form {c} of {p} under {m:?}"); },
            Err(m) => ck!(h.iter().all(|x| *x) || h.iter().all(|x| !*x) || !distinct(&ls), "extend-card-panic", "extending {p} panicked: {m}"),
        }
    }
    match p.clone().into_clause() {
        Ok(cl) => {
            ck!(p.is_clause(), "to-clause", "{p} converted to a clause although it is none");
            for (m, h) in ms.iter().zip(&h) { ck_eq!(cl_sat(cl.iter(), m), *h, "to-clause", "clause {cl} of {p} under {m:?}"); }
        }
        Err(_) => ck!(!p.is_clause(), "to-clause", "{p} is reported a clause but cannot be converted"),
    }
    Ok(())
}
fn pb_lits(g: &mut Gen) -> Vec<(Lit, isize)> {
    let ls = card_lits(g);
    let m = if g.exhaustive { 2 } else { *[1i64, 3, 8, 40].get(g.pick(4)).unwrap() };
    let uni = g.chance(1, 4).then(|| g.range(-m, m));
    ls.into_iter().map(|l| (l, uni.unwrap_or_else(|| g.range(-m, m)) as isize)).collect()
}
fn wsum(ls: &[(Lit, isize)]) -> i128 {
    ls.iter().map(|x| (x.1 as i128).abs()).sum()
}
fn pb_sem(ls: &[(Lit, isize)], o: Op, b: isize, m: &[bool]) -> bool {
    o.holds(ls.iter().map(|(l, w)| if lt(*l, m) { *w as i128 } else { 0 }).sum(), b as i128)
}
fn classify(c: &PbConstraint, ms: &[Vec<bool>]) -> R {
    let o = pop(c);
    let ls: Vec<Lit> = c.iter().map(|x| x.0).collect();
    let d = distinct(&ls);
    let pos = c.iter().all(|x| x.1 > 0);
    let h: Vec<bool> = ms.iter().map(|m| pb_holds(c, m)).collect();
    let all = h.iter().all(|x| *x);
    let none = h.iter().all(|x| !*x);
    let only = |v: bool| ms.iter().zip(&h).all(|(m, h)| *h == ls.iter().all(|l| lt(*l, m) == v));
    ck_eq!(c.weight_sum() as u128, c.iter().map(|x| x.1 as u128).sum::<u128>(), "weight-sum", "weight sum of {c}");
    if c.is_tautology() { ck!(all, "tautology", "{c} is reported a tautology"); }
    else if d { ck!(!all, "tautology", "{c} is not reported a tautology"); }
    if c.is_unsat() { ck!(none, "unsat", "{c} is reported unsatisfiable"); }
    else if d && o != Op::Eq { ck!(!none, "unsat", "{c} is not reported unsatisfiable"); }
    if c.is_positive_assignment() { ck!(only(true), "pos", "{c} is reported a positive assignment"); }
    else if d && pos && o != Op::Ub && !ls.is_empty() { ck!(!only(true), "pos", "{c} is not reported a positive assignment"); }
    if c.is_negative_assignment() { ck!(only(false), "neg", "{c} is reported a negative assignment"); }
    else if d && pos && o != Op::Lb && !ls.is_empty() { ck!(!only(false), "neg", "{c} is not reported a negative assignment"); }
    let mut ws: Vec<usize> = c.iter().map(|x| x.1).collect();
    ws.dedup();
    if o != Op::Eq {
        ck_eq!(c.is_card(), ws.len() == 1, "card", "is_card of {c}");
    } else if !c.is_unsat() && !c.is_tautology() {
        // an equality whose bound no number of literals reaches has no cardinality form
        ck_eq!(c.is_card(), ws.len() == 1 && c.bound().unsigned_abs() % ws[0] == 0, "card", "is_card of {c}");
        ck_eq!(c.is_card(), c.clone().into_card_constr().is_ok(), "card-conv", "is_card and the conversion of {c} disagree");
    }
    if c.is_clause() {
        match c.clone().into_clause() {
            Ok(cl) => for (m, h) in ms.iter().zip(&h) { ck_eq!(cl_sat(cl.iter(), m), *h, "to-clause", "clause {cl} of {c} under {m:?}"); },
            Err(_) => return fail("to-clause", format!("{c} is reported a clause but cannot be converted")),
        }
    } else if d && pos && o != Op::Eq && !ls.is_empty() {
        // not equivalent to the clause over its literals
        let cl: Vec<Lit> = if o == Op::Ub { ls.iter().map(|l| !*l).collect() } else { ls.clone() };
        let eq = ms.iter().zip(&h).all(|(m, h)| cl_sat(&cl, m) == *h);
        ck!(!eq, "clause", "{c} is a clause but not reported as one");
    }
    Ok(())
}
fn pb_part(c: &PbConstraint, a: &Assignment) -> R {
    let n = c.iter().map(|x| x.0.lidx32() / 2).max().unwrap_or(0) as usize + 1;
    let r = raw(n, a);
    let (mut lo, mut hi) = (0i128, 0i128);
    for (l, w) in c.iter() {
        match sem(&r, *l) {
            TernaryVal::True => { lo += *w as i128; hi += *w as i128 }
            TernaryVal::DontCare => hi += *w as i128,
            TernaryVal::False => (),
        }
    }
    ck_eq!(c.evaluate(a), tern(pop(c), lo, hi, c.bound() as i128), "evaluate", "evaluate of {c} under {a:?}");
    Ok(())
}
fn pb_eval(g: &mut Gen) -> R {
    let ls = pb_lits(g);
    let o = op(g);
    let w = wsum(&ls) as i64;
    let b = g.range(-w - 2, w + 2) as isize;
    let c = o.pb(ls.iter().copied(), b);
    let plain: Vec<Lit> = ls.iter().map(|x| x.0).collect();
    let a = assignment(g, maxv(&plain));
    g.note(format!("{ls:?} {o:?} {b}: {c} assignment {a:?}"));
    ck_eq!(c.len(), ls.len(), "len", "len");
    ck_eq!(c.n_lits(), ls.len(), "len", "n_lits");
    ck_eq!(c.is_empty(), ls.is_empty(), "len", "is_empty");
    ck_eq!(pop(&c), o, "kind", "kind");
    let ms: Vec<Vec<bool>> = totals(&vset(&plain)).collect();
    for m in &ms {
        ck_eq!(pb_holds(&c, m), pb_sem(&ls, o, b, m), "build", "meaning of {c} built from {ls:?} {o:?} {b} under {m:?}");
    }
    pb_part(&c, &a)?;
    classify(&c, &ms)
}
fn pb_big(g: &mut Gen) -> R {
    let n = 1 + g.pick(4);
    let ls = dlits(g, n);
    let o = op(g);
    let unsigned = g.flip();
    let lim: u64 = if unsigned { u64::MAX } else { i64::MAX as u64 };
    let mut left = lim;
    let mut ws: Vec<u64> = vec![];
    for _ in 0..n {
        let w = match g.pick(4) {
            0 => left,
            1 => left / 2,
            2 => left.min(1 + g.pick(5) as u64),
            _ => left / 2 + 1,
        };
        let w = w.min(left);
        left -= w;
        ws.push(w);
    }
    let sh = g.pick(3) as i64;
    let b: i64 = match g.pick(4) {
        0 => i64::MAX - sh,
        1 => (ws[0].min(i64::MAX as u64) as i64).saturating_add(sh - 1),
        2 => ((lim - left).min(i64::MAX as u64) as i64).saturating_add(sh - 1),
        _ => sh - 1,
    };
    let c = if unsigned {
        o.pbu(ls.iter().copied().zip(ws.iter().map(|w| *w as usize)), b as isize)
    } else {
        o.pb(ls.iter().copied().zip(ws.iter().map(|w| *w as isize)), b as isize)
    };
    let a = assignment(g, maxv(&ls));
    g.note(format!("{c} assignment {a:?}"));
    let ms: Vec<Vec<bool>> = totals(&vset(&ls)).collect();
    for m in &ms {
        let s: i128 = ls.iter().zip(&ws).map(|(l, w)| if lt(*l, m) { i128::from(*w) } else { 0 }).sum();
        ck_eq!(pb_holds(&c, m), o.holds(s, i128::from(b)), "build", "meaning of {c} under {m:?}");
    }
    pb_part(&c, &a)?;
    classify(&c, &ms)
}
fn pb_conv(g: &mut Gen) -> R {
    let ls = pb_lits(g);
    let o = op(g);
    let w = wsum(&ls) as i64;
    let b = g.range(-w - 2, w + 2) as isize;
    let c = o.pb(ls.iter().copied(), b);
    g.note(format!("{ls:?} {o:?} {b}: {c}"));
    let plain: Vec<Lit> = ls.iter().map(|x| x.0).collect();
    let ms: Vec<Vec<bool>> = totals(&vset(&plain)).collect();
    let h: Vec<bool> = ms.iter().map(|m| pb_sem(&ls, o, b, m)).collect();
    let hold = |ls: &[(Lit, usize)], o: Op, b: isize, m: &[bool]| -> bool {
        o.holds(ls.iter().map(|(l, w)| if lt(*l, m) { *w as i128 } else { 0 }).sum(), b as i128)
    };
    let n = c.clone().normalize();
    for (m, h) in ms.iter().zip(&h) { ck_eq!(pb_holds(&n, m), *h, "normalize", "normalized {n} of {c} under {m:?}"); }
    ck!(n.iter().zip(n.iter().skip(1)).all(|(a, b)| a.0 < b.0), "normalize", "{n} is not sorted without duplicates");
    ck_eq!(n.weight_sum(), c.weight_sum(), "normalize", "weight sum of normalized {c}");
    let wl: Vec<(Lit, usize)> = c.iter().copied().collect();
    match c.clone() {
        PbConstraint::Ub(u) => {
            ck_eq!(u.clone().decompose(), (wl.clone(), c.bound()), "decompose", "decompose");
            let i = u.invert();
            let back = i.clone().invert();
            let (il, ib) = i.clone().decompose();
            let (bl, bb) = back.clone().decompose();
            for (m, h) in ms.iter().zip(&h) {
                ck_eq!(hold(&il, Op::Lb, ib, m), *h, "invert", "inverse {i} of {c} under {m:?}");
                ck_eq!(hold(&bl, Op::Ub, bb, m), *h, "invert", "double inverse {back} of {c} under {m:?}");
            }
            classify(&PbConstraint::Lb(i), &ms)?;
        }
        PbConstraint::Lb(u) => {
            ck_eq!(u.clone().decompose(), (wl.clone(), c.bound()), "decompose", "decompose");
            let i = u.invert();
            let (il, ib) = i.clone().decompose();
            for (m, h) in ms.iter().zip(&h) { ck_eq!(hold(&il, Op::Ub, ib, m), *h, "invert", "inverse {i} of {c} under {m:?}"); }
            classify(&PbConstraint::Ub(i), &ms)?;
        }
        PbConstraint::Eq(u) => {
            ck_eq!(u.clone().decompose(), (wl.clone(), c.bound()), "decompose", "decompose");
            let (l, u) = u.split();
            classify(&PbConstraint::Lb(l.clone()), &ms)?;
            classify(&PbConstraint::Ub(u.clone()), &ms)?;
            let ((ll, lb), (ul, ub)) = (l.decompose(), u.decompose());
            for (m, h) in ms.iter().zip(&h) {
                ck_eq!(hold(&ll, Op::Lb, lb, m) && hold(&ul, Op::Ub, ub, m), *h, "split", "split of {c} under {m:?}");
            }
        }
    }
    // editing
    let k = g.upto(1, 3);
    let more: Vec<(Lit, isize)> = lits(g, &[0, 1, 2], k).into_iter().map(|l| (l, g.range(-3, 3) as isize)).collect();
    let nb = g.range(-3, 6) as isize;
    g.note(format!("add {more:?} bound {nb}"));
    let mut e = c.clone();
    e.add(more.iter().copied());
    let both = [ls.clone(), more.clone()].concat();
    let bp: Vec<Lit> = both.iter().map(|x| x.0).collect();
    let ms2: Vec<Vec<bool>> = totals(&vset(&bp)).collect();
    for m in &ms2 { ck_eq!(pb_holds(&e, m), pb_sem(&both, o, b, m), "add", "{c} plus {more:?} = {e} under {m:?}"); }
    classify(&e, &ms2)?;
    e.set_bound(nb);
    ck_eq!((pop(&e), e.bound(), e.len()), (o, nb, both.len()), "set-bound", "constraint after set_bound");
    classify(&e, &ms2)?;
    pb_to_card(&c, &ms)?;
    let cl: Clause = plain.iter().copied().collect();
    let f = PbConstraint::from(cl.clone());
    for m in &ms { ck_eq!(pb_holds(&f, m), cl_sat(&plain, m), "from-clause", "pseudo-Boolean form {f} of {cl} under {m:?}"); }
    if let Some(l) = plain.first() {
        let u = PbConstraint::new_unit(*l);
        for m in &ms { ck_eq!(pb_holds(&u, m), lt(*l, m), "unit", "unit {u} under {m:?}"); }
        classify(&u, &ms)?;
    }
    // unsigned constructors
    let us: Vec<(Lit, usize)> = ls.iter().map(|(l, w)| (*l, w.unsigned_abs())).collect();
    let uc = o.pbu(us.iter().copied(), b);
    for m in &ms { ck_eq!(pb_holds(&uc, m), hold(&us, o, b, m), "build-unsigned", "{uc} from {us:?} under {m:?}"); }
    classify(&uc, &ms)?;
    pb_to_card(&uc, &ms)
}
