//! Cardinality and pseudo-Boolean encodings: every model projected to the inputs, after every step of a call history.
use super::util::*;
use crate::core::*;
use crate::sat::Sat;
use crate::{ck, ck_eq};
use rustsat::encodings::card::simulators as csim;
use rustsat::encodings::pb::simulators as psim;
use rustsat::encodings::pb::{BinaryAdder, DoubleGeneralizedTotalizer, DynamicPolyWatchdog, GeneralizedTotalizer, InvertedGeneralizedTotalizer};
use rustsat::encodings::{card, pb, CollectClauses, ConstraintEncodingError, EnforceError, NotEncoded};
use rustsat::instances::{BasicVarManager, Cnf, ManageVars};
use rustsat::types::constraints::{CardConstraint, PbConstraint};
use rustsat::types::*;
use std::ops::Bound;

pub fn suites() -> Vec<Suite> {
    vec![
        super::s("P09", "card_enc", "histories of encode/extend/enforce calls on cardinality encodings, all models projected to the inputs", card_enc, 4000, 12_000, 200_000),
        super::s("P09", "card_constr", "whole cardinality constraints through every encoding", card_constr, 6000, 10_000, 200_000),
        super::s("P09", "card_large", "larger totalizers, sampled input assignments", card_large, 0, 300, 6000),
        super::s("P10", "pb_enc", "histories of encode/extend/enforce calls on pseudo-Boolean encodings, all models projected to the inputs", pb_enc, 4000, 20_000, 300_000),
        super::s("P10", "pb_redo", "pseudo-Boolean encodings extended by repeated and heavier literals and encoded again", pb_redo, 0, 4000, 100_000),
        super::s("P10", "dpw_prec", "polynomial watchdogs built at increasing precision", dpw_prec, 0, 3000, 60_000),
        super::s("P10", "pb_constr", "whole pseudo-Boolean constraints through every encoding", pb_constr, 6000, 16_000, 300_000),
        super::s("P10", "pb_large", "more inputs and larger weights, sampled input assignments", pb_large, 0, 400, 8000),
    ]
}
type Rg = (Bound<usize>, Bound<usize>);
type W = (Lit, usize);
/// error of an enforce call: None means "not encoded", Some(()) "unsatisfiable"
type Enf = Result<Vec<Lit>, bool>;
fn ne(e: NotEncoded) -> bool {
    let _ = e;
    false
}
fn ee(e: EnforceError) -> bool {
    e == EnforceError::Unsat
}
/// uniform view of the encodings; `None` where the encoding does not offer the operation
trait Enc {
    fn sum(&self) -> usize;
    fn extend(&mut self, ls: &[W]) -> bool;
    fn reserve(&mut self, vm: &mut BasicVarManager) -> bool;
    fn enc(&mut self, kind: Kind, change: bool, r: Rg, c: &mut Cnf, vm: &mut BasicVarManager) -> bool;
    fn enf(&self, kind: Kind, b: usize) -> Option<Enf>;
    fn coarse(&self, _b: usize) -> Option<usize> {
        None
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Ub,
    Lb,
    Both,
}
macro_rules! enc_impl {
    (@sum card $s:ident) => { card::Encode::n_lits(&$s.0) };
    (@sum pb $s:ident) => { pb::Encode::weight_sum(&$s.0) };
    (@ext card $s:ident $l:ident) => { $s.0.extend($l.iter().map(|x| x.0)) };
    (@ext pb $s:ident $l:ident) => { $s.0.extend($l.iter().copied()) };
    (@ube card) => { ne };
    (@ube pb) => { ee };
    (@coarse card $s:ident $b:ident) => { None };
    (@coarse pb $s:ident $b:ident) => { Some(pb::BoundUpper::coarse_ub(&$s.0, $b)) };
    ($w:ident, $m:ident, $t:ty, ext=$e:tt, ub=$ub:tt, lb=$lb:tt, both=$both:tt) => {
        struct $w($t);
        impl Enc for $w {
            fn sum(&self) -> usize { enc_impl!(@sum $m self) }
            fn extend(&mut self, ls: &[W]) -> bool { let _ = ls; enc_impl!(@if $e { enc_impl!(@ext $m self ls); true } else { false }) }
            fn reserve(&mut self, vm: &mut BasicVarManager) -> bool { $m::EncodeIncremental::reserve(&mut self.0, vm); true }
            fn enc(&mut self, kind: Kind, change: bool, r: Rg, c: &mut Cnf, vm: &mut BasicVarManager) -> bool {
                match (kind, change) {
                    (Kind::Ub, false) => enc_impl!(@if $ub { $m::BoundUpper::encode_ub(&mut self.0, r, c, vm).is_ok() } else { false }),
                    (Kind::Ub, true) => enc_impl!(@if $ub { $m::BoundUpperIncremental::encode_ub_change(&mut self.0, r, c, vm).is_ok() } else { false }),
                    (Kind::Lb, false) => enc_impl!(@if $lb { $m::BoundLower::encode_lb(&mut self.0, r, c, vm).is_ok() } else { false }),
                    (Kind::Lb, true) => enc_impl!(@if $lb { $m::BoundLowerIncremental::encode_lb_change(&mut self.0, r, c, vm).is_ok() } else { false }),
                    (Kind::Both, false) => enc_impl!(@if $both { $m::BoundBoth::encode_both(&mut self.0, r, c, vm).is_ok() } else { false }),
                    (Kind::Both, true) => enc_impl!(@if $both { $m::BoundBothIncremental::encode_both_change(&mut self.0, r, c, vm).is_ok() } else { false }),
                }
            }
            fn enf(&self, kind: Kind, b: usize) -> Option<Enf> {
                let _ = b;
                match kind {
                    Kind::Ub => enc_impl!(@if $ub { Some($m::BoundUpper::enforce_ub(&self.0, b).map_err(enc_impl!(@ube $m))) } else { None }),
                    Kind::Lb => enc_impl!(@if $lb { Some($m::BoundLower::enforce_lb(&self.0, b).map_err(ee)) } else { None }),
                    Kind::Both => enc_impl!(@if $both { Some($m::BoundBoth::enforce_eq(&self.0, b).map_err(ee)) } else { None }),
                }
            }
            fn coarse(&self, b: usize) -> Option<usize> { let _ = b; enc_impl!(@if $ub { enc_impl!(@coarse $m self b) } else { None }) }
        }
    };
    (@if 1 { $($a:tt)* } else { $($b:tt)* }) => {{ $($a)* }};
    (@if 0 { $($a:tt)* } else { $($b:tt)* }) => {{ $($b)* }};
}
type Tot = card::Totalizer;
enc_impl!(CTot, card, Tot, ext=1, ub=1, lb=1, both=1);
enc_impl!(CInv, card, csim::Inverted<Tot>, ext=1, ub=1, lb=1, both=1);
enc_impl!(CDbl, card, csim::Double<Tot, Tot>, ext=1, ub=1, lb=1, both=1);
enc_impl!(CDbI, card, csim::Double<csim::Inverted<Tot>, csim::Inverted<Tot>>, ext=1, ub=1, lb=1, both=1);
enc_impl!(PGte, pb, GeneralizedTotalizer, ext=1, ub=1, lb=0, both=0);
enc_impl!(PIGte, pb, InvertedGeneralizedTotalizer, ext=1, ub=0, lb=1, both=0);
enc_impl!(PDGte, pb, DoubleGeneralizedTotalizer, ext=1, ub=1, lb=1, both=1);
enc_impl!(PAdd, pb, BinaryAdder, ext=1, ub=1, lb=1, both=1);
enc_impl!(PIAdd, pb, psim::Inverted<BinaryAdder>, ext=1, ub=1, lb=1, both=1);
enc_impl!(PDAdd, pb, psim::Double<BinaryAdder, psim::Inverted<BinaryAdder>>, ext=1, ub=1, lb=1, both=1);
enc_impl!(PDpw, pb, DynamicPolyWatchdog, ext=0, ub=1, lb=0, both=0);
enc_impl!(PIDpw, pb, psim::Inverted<DynamicPolyWatchdog>, ext=0, ub=0, lb=1, both=0);
enc_impl!(PDDpw, pb, psim::Double<DynamicPolyWatchdog, psim::Inverted<DynamicPolyWatchdog>>, ext=0, ub=1, lb=1, both=1);
enc_impl!(PCard, pb, psim::Card<Tot>, ext=1, ub=1, lb=1, both=1);

fn mk_card(k: usize, ls: &[W]) -> (&'static str, Box<dyn Enc>) {
    let it = ls.iter().map(|x| x.0);
    match k {
        0 => ("Totalizer", Box::new(CTot(it.collect()))),
        1 => ("Inverted<Totalizer>", Box::new(CInv(it.collect()))),
        2 => ("Double<Totalizer,Totalizer>", Box::new(CDbl(it.collect()))),
        _ => ("Double<Inverted,Inverted>", Box::new(CDbI(it.collect()))),
    }
}
const NPB: usize = 10;
fn mk_pb(k: usize, ls: &[W]) -> (&'static str, Box<dyn Enc>) {
    let it = ls.iter().copied();
    match k {
        0 => ("GeneralizedTotalizer", Box::new(PGte(it.collect()))),
        1 => ("InvertedGeneralizedTotalizer", Box::new(PIGte(it.collect()))),
        2 => ("DoubleGeneralizedTotalizer", Box::new(PDGte(it.collect()))),
        3 => ("BinaryAdder", Box::new(PAdd(it.collect()))),
        4 => ("Inverted<BinaryAdder>", Box::new(PIAdd(it.collect()))),
        5 => ("Double<BinaryAdder,Inverted>", Box::new(PDAdd(it.collect()))),
        6 => ("DynamicPolyWatchdog", Box::new(PDpw(it.collect()))),
        7 => ("Inverted<DynamicPolyWatchdog>", Box::new(PIDpw(it.collect()))),
        8 => ("Double<DynamicPolyWatchdog,Inverted>", Box::new(PDDpw(it.collect()))),
        _ => ("Card<Totalizer>", Box::new(PCard(it.collect()))),
    }
}
fn inside(r: &Rg, b: usize) -> bool {
    std::ops::RangeBounds::contains(r, &b)
}
fn range(g: &mut Gen, sum: usize) -> Rg {
    let m = sum + 2;
    let a = g.pick(m + 1);
    let b = a + g.pick(m + 1 - a);
    if g.exhaustive {
        return (Bound::Included(a), Bound::Included(b));
    }
    match g.pick(8) {
        0 => (Bound::Unbounded, Bound::Unbounded),
        1 => (Bound::Unbounded, Bound::Included(b)),
        2 => (Bound::Unbounded, Bound::Excluded(b)),
        3 => (Bound::Included(a), Bound::Unbounded),
        4 => (Bound::Included(a), Bound::Excluded(b)),
        5 => (Bound::Included(a), Bound::Included(a)),
        6 => (Bound::Excluded(a), Bound::Included(b)),
        _ => (Bound::Included(a), Bound::Included(b)),
    }
}
fn wsum(ls: &[W], m: &dyn Fn(Lit) -> bool) -> usize {
    ls.iter().filter(|x| m(x.0)).map(|x| x.1).sum()
}
/// all (or sampled) total assignments of the input variables as assumptions
fn inputs(g: &mut Gen, ls: &[W], sample: usize) -> Vec<Vec<Lit>> {
    let vs = vset(ls.iter().map(|x| &x.0));
    if sample == 0 {
        return (0u64..1 << vs.len()).map(|k| vs.iter().enumerate().map(|(i, v)| Lit::new(*v, k >> i & 1 == 0)).collect()).collect();
    }
    (0..sample).map(|_| { let d = g.pick(5); vs.iter().map(|v| Lit::new(*v, g.pick(4) < d)).collect() }).collect()
}
struct St {
    done: Vec<(Kind, Rg)>,
}
fn fresh_ok(cnf: &Cnf, ls: &[W], first: u32, vm: &BasicVarManager, name: &str) -> R {
    let ins = vset(ls.iter().map(|x| &x.0));
    let next = vm.n_used();
    for c in cnf {
        for l in c.iter() {
            ck!(ins.contains(&l.vidx32()) || (first..next).contains(&l.vidx32()), "fresh", "{name}: clause {c} mentions a variable that is neither input nor newly requested ({first}..{next})");
        }
    }
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn check(g: &mut Gen, name: &str, e: &dyn Enc, st: &St, ls: &[W], cnf: &Cnf, vm: &BasicVarManager, sample: usize, only: Option<Kind>) -> R {
    let total: usize = ls.iter().map(|x| x.1).sum();
    let mut s = Sat::new(vm.n_used() as usize, cnf.iter());
    let ins = inputs(g, ls, sample);
    for a in &ins {
        g.work += 1;
        ck!(s.solve(a), "excludes", "{name}: without assumptions the clauses exclude the inputs {a:?}");
    }
    let bounds: Vec<usize> = if sample == 0 { (0..=total + 2).collect() } else {
        let mut v: Vec<usize> = (0..6).map(|_| g.pick(total + 2)).collect();
        for (_, r) in &st.done {
            if let (Bound::Included(x), _) = r { v.push(*x) }
            if let (_, Bound::Included(x)) = r { v.push(*x) }
        }
        v
    };
    for kind in [Kind::Ub, Kind::Lb, Kind::Both] {
        if only.is_some_and(|o| o != kind) { continue; }
        for &b in &bounds {
            let Some(r) = e.enf(kind, b) else { break };
            let covered = |k: Kind| st.done.iter().any(|(d, r)| *d == k && inside(r, b));
            let want_ok = match kind { Kind::Ub => covered(Kind::Ub), Kind::Lb => covered(Kind::Lb), Kind::Both => covered(Kind::Ub) && covered(Kind::Lb) };
            match r {
                Err(unsat) => {
                    if unsat {
                        ck!(kind != Kind::Ub && b > total, "unsat", "{name}: bound {b} ({kind:?}) reported unsatisfiable, weight sum {total}");
                    } else {
                        let lost = want_ok && !(kind != Kind::Ub && b > total);
                        ck!(!lost, "not-encoded", "{name}: bound {b} ({kind:?}) was encoded but is reported as not encoded");
                    }
                }
                Ok(assumps) => {
                    for a in &ins {
                        let m = |l: Lit| a.contains(&l);
                        let sum = wsum(ls, &m);
                        let want = match kind { Kind::Ub => sum <= b, Kind::Lb => sum >= b, Kind::Both => sum == b };
                        let mut q = a.clone();
                        q.extend(&assumps);
                        g.work += 1;
                        ck_eq!(s.solve(&q), want, match (kind, want) { (Kind::Ub, true) => "ub-complete", (Kind::Ub, false) => "ub-sound", (Kind::Lb, true) => "lb-complete", (Kind::Lb, false) => "lb-sound", (Kind::Both, true) => "eq-complete", (Kind::Both, false) => "eq-sound" },
                            "{name}: {kind:?} {b} enforced by {assumps:?}, inputs {a:?} with sum {sum}: satisfiable");
                    }
                }
            }
        }
    }
    for &b in &bounds {
        if let Some(c) = e.coarse(b) {
            ck!(c <= b, "coarse", "{name}: coarse_ub({b}) = {c}");
        }
    }
    Ok(())
}
fn fmt_r(r: &Rg) -> String {
    let a = match r.0 { Bound::Included(x) => format!("{x}"), Bound::Excluded(x) => format!("({x}"), Bound::Unbounded => String::new() };
    let b = match r.1 { Bound::Included(x) => format!("={x}"), Bound::Excluded(x) => format!("{x}"), Bound::Unbounded => String::new() };
    format!("{a}..{b}")
}
#[allow(clippy::too_many_arguments)]
/// Known finding: after both kinds of bounds were encoded on one binary adder, the half-adder carry flags and
/// the comparator skip lose clauses (the clause counts of that behaviour are pinned by existing tests).
fn mixed(r: R, mixed: bool) -> R {
    r.map_err(|mut f| {
        if mixed && ["not-encoded", "ub-sound", "lb-sound", "eq-sound"].contains(&f.key.as_str()) {
            f.key = "adder-both-bounds".into();
        }
        f
    })
}
#[allow(clippy::too_many_arguments)]
fn script(g: &mut Gen, kind: &str, mk: &dyn Fn(usize, &[W]) -> (&'static str, Box<dyn Enc>), enc: usize, gen: &mut dyn FnMut(&mut Gen, usize) -> Vec<W>, maxv: u32, sample: usize, steps: usize, redo: bool) -> R {
    let n0 = if redo { 1 + g.pick(3) } else if sample > 0 { 4 + g.pick(10) } else { g.upto(2, 5) };
    let mut ls = gen(g, n0);
    let (name, mut e) = mk(enc, &ls);
    let mut vm = BasicVarManager::from_next_free(Var::new(maxv));
    let mut cnf = Cnf::new();
    let mut st = St { done: vec![] };
    let (mut any_ub, mut any_lb) = (false, false);
    let adder = name == "BinaryAdder" || name == "Inverted<BinaryAdder>";
    g.note(format!("{kind} {name} over {ls:?}:"));
    ck_eq!(e.sum(), ls.iter().map(|x| x.1).sum::<usize>(), "sum", "{name}: number of literals / weight sum");
    for step in 0..steps {
        let op = if redo && step % 2 == 1 && g.chance(3, 4) { 0 } else if step == 0 || g.exhaustive { 1 + g.pick(3) } else { g.pick(7) };
        let kd = match op { 1 | 4 => Kind::Ub, 2 | 5 => Kind::Lb, _ => Kind::Both };
        // (both kinds of bounds on one adder: see `mixed`)
        let kd = if redo && adder { if n0 % 2 == 0 { Kind::Ub } else { Kind::Lb } } else { kd };
        if op == 0 {
            if ls.len() > 7 && sample == 0 {
                continue;
            }
            let k = 1 + g.pick(if redo { 3 } else { 2 });
            let new = gen(g, k);
            if e.extend(&new) {
                g.note(format!("extend {new:?};"));
                ls.extend(new);
                st.done.clear();
                ck_eq!(e.sum(), ls.iter().map(|x| x.1).sum::<usize>(), "sum", "{name}: sum after extending");
            }
            continue;
        }
        if op == 6 && g.chance(1, 2) {
            g.note("reserve;");
            if name.contains("Generalized") {
                st.done.clear(); // puts all literals into the tree
            }
            e.reserve(&mut vm);
            continue;
        }
        if e.enf(kd, 0).is_none() {
            continue;
        }
        any_ub |= kd != Kind::Lb;
        any_lb |= kd != Kind::Ub;
        let r = range(g, e.sum());
        let change = g.flip();
        g.note(format!("encode_{}{} {};", match kd { Kind::Ub => "ub", Kind::Lb => "lb", Kind::Both => "both" }, if change { "_change" } else { "" }, fmt_r(&r)));
        if !change && kd != Kind::Both && step > 0 && g.chance(1, if redo { 2 } else { 3 }) {
            // encoding again from scratch: the new clauses alone must be enough
            let mut fresh = Cnf::new();
            g.note("(fresh collector)");
            ck!(e.enc(kd, false, r, &mut fresh, &mut vm), "oom", "{name}: out of memory reported");
            let st2 = St { done: vec![(kd, r)] };
            // only bounds inside the range are promised by the new clauses
            struct Only<'a>(&'a dyn Enc, Rg);
            impl Enc for Only<'_> {
                fn sum(&self) -> usize { self.0.sum() }
                fn extend(&mut self, _: &[W]) -> bool { false }
                fn reserve(&mut self, _: &mut BasicVarManager) -> bool { false }
                fn enc(&mut self, _: Kind, _: bool, _: Rg, _: &mut Cnf, _: &mut BasicVarManager) -> bool { false }
                fn enf(&self, k: Kind, b: usize) -> Option<Enf> {
                    if inside(&self.1, b) { self.0.enf(k, b) } else { Some(Err(false)) }
                }
            }
            mixed(check(g, name, &Only(&*e, r), &st2, &ls, &fresh, &vm, sample, Some(kd)), adder && any_ub && any_lb)?;
            let _ = cnf.extend_clauses(fresh);
        } else {
            ck!(e.enc(kd, change, r, &mut cnf, &mut vm), "oom", "{name}: out of memory reported");
        }
        // encoding anew (without `_change`) may drop what was encoded for the same kind of bound before
        for (k, hit) in [(Kind::Ub, kd != Kind::Lb), (Kind::Lb, kd != Kind::Ub)] {
            if hit {
                // the generalized totalizer re-encodes its tree for every change of range
                if !change || name.contains("Generalized") {
                    st.done.retain(|d| d.0 != k);
                }
                st.done.push((k, r));
            }
        }
        fresh_ok(&cnf, &ls, maxv, &vm, name)?;
        if sample == 0 && (step + 1 == steps || g.chance(2, 3)) || sample > 0 {
            mixed(check(g, name, &*e, &st, &ls, &cnf, &vm, sample, None), adder && any_ub && any_lb)?;
        }
    }
    Ok(())
}
fn card_enc(g: &mut Gen) -> R {
    let k = g.pick(4);
    let steps = g.upto(1, 5).max(1);
    let dup = !g.exhaustive && g.chance(1, 6);
    let mut next = 0;
    let mut gen = move |g: &mut Gen, n: usize| -> Vec<W> {
        (0..n).map(|_| { let v = if dup { g.pick(4) as u32 } else { next += 1; next - 1 }; (Lit::new(v, if g.exhaustive { false } else { g.flip() }), 1) }).collect()
    };
    script(g, "card", &mk_card, k, &mut gen, 20, 0, steps, false)
}
fn card_large(g: &mut Gen) -> R {
    let k = g.pick(4);
    let mut next = 0;
    let mut gen = move |g: &mut Gen, n: usize| -> Vec<W> { (0..n * 2).map(|_| { next += 1; (Lit::new(next - 1, g.flip()), 1) }).collect() };
    script(g, "card", &mk_card, k, &mut gen, 200, 12, 3, false)
}
fn weight(g: &mut Gen, mx: usize) -> usize {
    if g.exhaustive { 1 + g.pick(2) } else if g.chance(1, 3) { 1 + g.pick(2) } else { 1 + g.pick(mx) }
}
fn pb_enc(g: &mut Gen) -> R {
    let k = g.pick(NPB);
    let steps = g.upto(1, 5).max(1);
    let dup = !g.exhaustive && g.chance(1, 6);
    let mx = if k == 9 { 3 } else { g.of(&[2, 4, 7]) };
    let mut next = 0;
    let mut gen = move |g: &mut Gen, n: usize| -> Vec<W> {
        (0..n).map(|_| { let v = if dup { g.pick(3) as u32 } else { next += 1; next - 1 }; (Lit::new(v, if g.exhaustive { false } else { g.flip() }), weight(g, mx)) }).collect()
    };
    script(g, "pb", &mk_pb, k, &mut gen, 20, 0, steps, false)
}
/// encode, extend (repeated and ever heavier literals), encode again, over and over
fn pb_redo(g: &mut Gen) -> R {
    let k = g.of(&[0, 0, 0, 1, 2, 3, 4, 9]);
    let steps = 3 + g.pick(5);
    let dup = g.chance(1, 3);
    let mut mx = 1 + g.pick(2);
    let grow = if k == 9 { 1 } else { 1 + g.pick(3) };
    let mut next = 0;
    let mut gen = move |g: &mut Gen, n: usize| -> Vec<W> {
        let v = (0..n).map(|_| { let v = if next > 0 && (next > 6 || dup && g.flip()) { g.pick(next as usize) as u32 } else { next += 1; next - 1 }; (Lit::new(v, v % 3 == 1), if g.chance(1, 3) { 1 + g.pick(mx) } else { mx }) }).collect();
        mx += grow;
        v
    };
    script(g, "pb", &mk_pb, k, &mut gen, 20, 0, steps, true)
}
/// a polynomial watchdog built at increasing precision: weights divided by the divisor, rounding down
fn dpw_prec(g: &mut Gen) -> R {
    use rustsat::encodings::pb::{BoundUpper, BoundUpperIncremental};
    let n = g.pick(6);
    let mx = g.of(&[4, 8, 16, 40]);
    let ls: Vec<W> = (0..n as u32).map(|v| (Lit::new(v, g.flip()), 1 + g.pick(mx))).collect();
    let mut e: DynamicPolyWatchdog = ls.iter().copied().collect();
    let mut vm = BasicVarManager::from_next_free(Var::new(n as u32));
    let mut cnf = Cnf::new();
    g.note(format!("DynamicPolyWatchdog over {ls:?}:"));
    let mut d = if g.flip() { e.next_precision() } else { 1 << g.pick(7) };
    loop {
        let red: Vec<W> = ls.iter().map(|x| (x.0, x.1 / d)).collect();
        let total = red.iter().map(|x| x.1).sum::<usize>();
        ck!(e.set_precision(d).is_ok(), "set-precision", "set_precision({d}) rejected");
        let hi = g.pick(total + 2);
        let lo = g.pick(hi + 1);
        if g.chance(1, 4) {
            g.note("reserve;");
            rustsat::encodings::pb::EncodeIncremental::reserve(&mut e, &mut vm);
        }
        g.note(format!("precision {d}, encode_ub_change {lo}..={hi};"));
        ck!(e.encode_ub_change(lo..=hi, &mut cnf, &mut vm).is_ok(), "oom", "out of memory reported");
        fresh_ok(&cnf, &ls, n as u32, &vm, "DynamicPolyWatchdog")?;
        let mut s = Sat::new(vm.n_used() as usize, cnf.iter());
        let ins = inputs(g, &ls, 0);
        for a in &ins {
            g.work += 1;
            ck!(s.solve(a), "excludes", "without assumptions the clauses exclude the inputs {a:?}");
        }
        for b in lo..=hi {
            let Ok(assumps) = e.enforce_ub(b) else { return fail("not-encoded", format!("bound {b} was encoded at precision {d} but is reported as not encoded")) };
            for a in &ins {
                let sum = wsum(&red, &|l| a.contains(&l));
                let mut q = a.clone();
                q.extend(&assumps);
                g.work += 1;
                ck_eq!(s.solve(&q), sum <= b, if sum <= b { "ub-complete" } else { "ub-sound" }, "bound {b} at precision {d} enforced by {assumps:?}, inputs {a:?} with reduced sum {sum}: satisfiable");
            }
        }
        if d == 1 {
            break;
        }
        if e.is_max_precision() && g.flip() {
            break;
        }
        let nx = e.next_precision();
        d = if nx < d && g.flip() { nx } else { d >> (1 + g.pick(d.trailing_zeros() as usize)) };
    }
    Ok(())
}
fn pb_large(g: &mut Gen) -> R {
    let k = g.pick(NPB);
    let mx = if k == 9 { 6 } else { g.of(&[10, 40, 200]) };
    let mut next = 0;
    let mut gen = move |g: &mut Gen, n: usize| -> Vec<W> { (0..n.min(9)).map(|_| { next += 1; (Lit::new(next - 1, g.flip()), weight(g, mx)) }).collect() };
    script(g, "pb", &mk_pb, k, &mut gen, 200, 10, 2, false)
}

/// models of the clauses projected to the variables of the constraint
fn constr_check(what: &str, cnf: &Cnf, vm: &BasicVarManager, ls: &[W], first: u32, holds: &dyn Fn(usize) -> bool, work: &mut u64) -> R {
    fresh_ok(cnf, ls, first, vm, what)?;
    let mut s = Sat::new(vm.n_used() as usize, cnf.iter());
    let mut g = Gen::fixed(vec![], true);
    for a in inputs(&mut g, ls, 0) {
        let sum = wsum(ls, &|l| a.contains(&l));
        *work += 1;
        let want = holds(sum);
        ck_eq!(s.solve(&a), want, if want { "complete" } else { "sound" }, "{what}: inputs {a:?} with sum {sum}: satisfiable");
    }
    Ok(())
}
fn card_constr(g: &mut Gen) -> R {
    let n = g.upto(3, 6);
    let dup = !g.exhaustive && g.chance(1, 5);
    let ls: Vec<W> = (0..n).map(|i| (Lit::new(if dup { g.pick(3) as u32 } else { i as u32 }, !g.exhaustive && g.flip()), 1)).collect();
    let b = g.pick(n + 3);
    let op = g.pick(3);
    let it = || ls.iter().map(|x| x.0);
    let c = match op { 0 => CardConstraint::new_ub(it(), b), 1 => CardConstraint::new_lb(it(), b), _ => CardConstraint::new_eq(it(), b) };
    let e = g.pick(4);
    let whole = g.flip();
    g.note(format!("{c} encoding {e} dispatch {whole}"));
    let holds = move |s: usize| match op { 0 => s <= b, 1 => s >= b, _ => s == b };
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(Var::new(10));
    let unsat = op > 0 && b > n;
    if whole {
        let r = match e {
            0 => card::default_encode_cardinality_constraint(c, &mut cnf, &mut vm),
            1 => card::encode_cardinality_constraint::<Tot, _>(c, &mut cnf, &mut vm),
            2 => card::encode_cardinality_constraint::<csim::Inverted<Tot>, _>(c, &mut cnf, &mut vm),
            _ => card::encode_cardinality_constraint::<csim::Double<Tot, csim::Inverted<Tot>>, _>(c, &mut cnf, &mut vm),
        };
        ck!(r.is_ok(), "oom", "out of memory reported");
    } else {
        let r = match e {
            0 | 1 => <Tot as card::BoundBoth>::encode_constr(c, &mut cnf, &mut vm),
            2 => <csim::Inverted<Tot> as card::BoundBoth>::encode_constr(c, &mut cnf, &mut vm),
            _ => <csim::Double<Tot, csim::Inverted<Tot>> as card::BoundBoth>::encode_constr(c, &mut cnf, &mut vm),
        };
        match r {
            Err(ConstraintEncodingError::Unsat) => {
                ck!(unsat, "unsat", "encode_constr reports a satisfiable constraint as unsatisfiable");
                return Ok(());
            }
            Err(ConstraintEncodingError::OutOfMemory(_)) => return fail("oom", "out of memory reported"),
            Ok(()) => (),
        }
    }
    let mut w = 0;
    let r = constr_check("card", &cnf, &vm, &ls, 10, &holds, &mut w);
    g.work += w;
    r
}
fn pb_constr(g: &mut Gen) -> R {
    let n = g.upto(2, 6);
    let dup = !g.exhaustive && g.chance(1, 5);
    let mx = g.lim(2, 9) as i64;
    let lo = if g.exhaustive { -1 } else if g.flip() { 1 } else { -mx };
    let raw: Vec<(Lit, isize)> = (0..n).map(|i| (Lit::new(if dup { g.pick(3) as u32 } else { i as u32 }, !g.exhaustive && g.flip()), if !g.exhaustive && g.chance(1, 12) { 0 } else { g.range(lo, mx) as isize })).collect();
    let pos: i64 = raw.iter().map(|x| x.1.max(0) as i64).sum();
    let neg: i64 = raw.iter().map(|x| x.1.min(0) as i64).sum();
    let b = g.range(neg - 1, pos + 1) as isize;
    let op = g.pick(3);
    let it = || raw.iter().copied();
    let c = match op { 0 => PbConstraint::new_ub(it(), b), 1 => PbConstraint::new_lb(it(), b), _ => PbConstraint::new_eq(it(), b) };
    let e = g.pick(6);
    let whole = g.flip();
    g.note(format!("{c} from {raw:?} {} {b} encoding {e} dispatch {whole}", ["<=", ">=", "="][op]));
    let ins: Vec<W> = raw.iter().map(|x| (x.0, 0)).collect();
    let mut cnf = Cnf::new();
    let mut vm = BasicVarManager::from_next_free(Var::new(10));
    type Add = BinaryAdder;
    type DD = psim::Double<DynamicPolyWatchdog, psim::Inverted<DynamicPolyWatchdog>>;
    type AI = psim::Double<psim::Inverted<Add>, Add>;
    if whole {
        let r = match e {
            0 => pb::default_encode_pb_constraint(c, &mut cnf, &mut vm),
            1 => pb::encode_pb_constraint::<DoubleGeneralizedTotalizer, _>(c, &mut cnf, &mut vm),
            2 => pb::encode_pb_constraint::<Add, _>(c, &mut cnf, &mut vm),
            3 => pb::encode_pb_constraint::<psim::Inverted<Add>, _>(c, &mut cnf, &mut vm),
            4 => pb::encode_pb_constraint::<DD, _>(c, &mut cnf, &mut vm),
            _ => pb::encode_pb_constraint::<AI, _>(c, &mut cnf, &mut vm),
        };
        ck!(r.is_ok(), "oom", "out of memory reported");
    } else {
        if e >= 4 && c.is_empty() {
            return Ok(());
        }
        let r = match e {
            0 | 1 => <DoubleGeneralizedTotalizer as pb::BoundBoth>::encode_constr(c, &mut cnf, &mut vm),
            2 => <Add as pb::BoundBoth>::encode_constr(c, &mut cnf, &mut vm),
            3 => <psim::Inverted<Add> as pb::BoundBoth>::encode_constr(c, &mut cnf, &mut vm),
            4 => <DD as pb::BoundBoth>::encode_constr(c, &mut cnf, &mut vm),
            _ => <AI as pb::BoundBoth>::encode_constr(c, &mut cnf, &mut vm),
        };
        match r {
            Err(ConstraintEncodingError::Unsat) => {
                let any = inputs(&mut Gen::fixed(vec![], true), &ins, 0).iter().any(|a| {
                    let s: i64 = raw.iter().filter(|x| a.contains(&x.0)).map(|x| x.1 as i64).sum();
                    match op { 0 => s <= b as i64, 1 => s >= b as i64, _ => s == b as i64 }
                });
                ck!(!any, "unsat", "encode_constr reports a satisfiable constraint as unsatisfiable");
                return Ok(());
            }
            Err(ConstraintEncodingError::OutOfMemory(_)) => return fail("oom", "out of memory reported"),
            Ok(()) => (),
        }
    }
    fresh_ok(&cnf, &ins, 10, &vm, "pb")?;
    let mut s = Sat::new(vm.n_used() as usize, cnf.iter());
    for a in inputs(&mut Gen::fixed(vec![], true), &ins, 0) {
        let sum: i64 = raw.iter().filter(|x| a.contains(&x.0)).map(|x| x.1 as i64).sum();
        let want = match op { 0 => sum <= b as i64, 1 => sum >= b as i64, _ => sum == b as i64 };
        g.work += 1;
        ck_eq!(s.solve(&a), want, if want { "complete" } else { "sound" }, "inputs {a:?} with weighted sum {sum}: satisfiable");
    }
    Ok(())
}
