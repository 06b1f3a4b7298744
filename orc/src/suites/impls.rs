use super::cons::{card_holds, op, pb_holds, pop, Op};
use super::util::*;
use crate::core::*;
use crate::{ck, ck_eq};
use rustsat::encodings::atomics::*;
use rustsat::instances::{BasicVarManager, Cnf, ManageVars, SatInstance};
use rustsat::types::*;
pub fn suites() -> Vec<Suite> {
    vec![
        super::s("P07", "impl_clausal", "implications between literals, clauses and cubes (free functions, Cnf and SatInstance methods)", impl_clausal, 80_000, 20_000, 1_000_000),
        super::s("P07", "reify_card", "one-sided reification of cardinality constraints", reify_card, 100_000, 30_000, 1_000_000),
        super::s("P07", "reify_pb", "one-sided reification of pseudo-Boolean constraints", reify_pb, 100_000, 30_000, 1_000_000),
    ]
}
fn part(g: &mut Gen, vs: &[u32]) -> Vec<Lit> {
    let n = g.upto(2, 5);
    lits(g, vs, n)
}
fn impl_clausal(g: &mut Gen) -> R {
    let vs: Vec<u32> = if g.exhaustive { vec![0, 1] } else { vec![0, 1, 2, 4, 7] };
    let a = part(g, &vs);
    let b = part(g, &vs);
    let (la, lb) = (a.first().copied(), b.first().copied());
    g.note(format!("{a:?} -> {b:?}"));
    let all: Vec<Lit> = a.iter().chain(&b).copied().collect();
    let vset_ = vset(&all);
    let ms: Vec<Vec<bool>> = totals(&vs).collect();
    let any = |ls: &[Lit], m: &[bool]| ls.iter().any(|l| lt(*l, m));
    let every = |ls: &[Lit], m: &[bool]| ls.iter().all(|l| lt(*l, m));
    let chk = |what: &str, cls: Vec<Clause>, used: &[Lit], want: &dyn Fn(&[bool]) -> bool| -> R {
        let allowed = vset(used);
        for c in &cls {
            ck!(vset(c.iter()).iter().all(|v| allowed.contains(v)), "vars", "{what}: clause {c} mentions another variable");
        }
        for m in &ms {
            let got = cls.iter().all(|c| cl_sat(c.iter(), m));
            ck_eq!(got, want(m), what, "{what}: {cls:?} under {m:?}");
        }
        Ok(())
    };
    macro_rules! three {
        ($name:literal, $free:expr, $meth:ident ( $($arg:expr),* ), $want:expr) => {{
            let free: Vec<Clause> = $free;
            chk($name, free, &all, &$want)?;
            let mut cnf = Cnf::new();
            cnf.$meth($($arg),*);
            chk(concat!("Cnf::add_", $name), cnf.into_iter().collect(), &all, &$want)?;
            let mut inst: SatInstance = SatInstance::new();
            inst.$meth($($arg),*);
            let vm = inst.var_manager_ref().n_used();
            let (cnf, vm2) = inst.into_cnf();
            ck!(vm2.n_used() >= vm, "vm", "used variables shrink");
            let cls: Vec<Clause> = cnf.into_iter().collect();
            for c in &cls {
                ck!(c.iter().all(|l| l.vidx32() < vm), "vm", "{} does not mark {c} as used", $name);
            }
            chk(concat!("SatInstance::add_", $name), cls, &all, &$want)?;
        }};
    }
    let _ = &vset_;
    if let (Some(x), Some(y)) = (la, lb) {
        three!("lit_impl_lit", vec![lit_impl_lit(x, y)], add_lit_impl_lit(x, y), |m: &[bool]| !lt(x, m) || lt(y, m));
    }
    if let Some(x) = la {
        three!("lit_impl_clause", vec![lit_impl_clause(x, &b)], add_lit_impl_clause(x, &b), |m: &[bool]| !lt(x, m) || any(&b, m));
        three!("lit_impl_cube", lit_impl_cube(x, &b).collect(), add_lit_impl_cube(x, &b), |m: &[bool]| !lt(x, m) || every(&b, m));
    }
    if let Some(y) = lb {
        three!("cube_impl_lit", vec![cube_impl_lit(&a, y)], add_cube_impl_lit(&a, y), |m: &[bool]| !every(&a, m) || lt(y, m));
        three!("clause_impl_lit", clause_impl_lit(&a, y).collect(), add_clause_impl_lit(&a, y), |m: &[bool]| !any(&a, m) || lt(y, m));
    }
    three!("cube_impl_clause", vec![cube_impl_clause(&a, &b)], add_cube_impl_clause(&a, &b), |m: &[bool]| !every(&a, m) || any(&b, m));
    three!("clause_impl_clause", clause_impl_clause(&a, &b).collect(), add_clause_impl_clause(&a, &b), |m: &[bool]| !any(&a, m) || any(&b, m));
    three!("clause_impl_cube", clause_impl_cube(&a, &b).collect(), add_clause_impl_cube(&a, &b), |m: &[bool]| !any(&a, m) || every(&b, m));
    three!("cube_impl_cube", cube_impl_cube(&a, &b).collect(), add_cube_impl_cube(&a, &b), |m: &[bool]| !every(&a, m) || every(&b, m));
    let _ = BasicVarManager::default();
    Ok(())
}
fn ok_vars(p: &rustsat::types::constraints::PbConstraint, ls: &[Lit], l: Lit) -> bool {
    let mut a = ls.to_vec();
    a.push(l);
    let allowed = vset(&a);
    p.iter().all(|(x, _)| allowed.contains(&x.vidx32()))
}
fn reify_card(g: &mut Gen) -> R {
    let o = g.of(&[Op::Ub, Op::Lb]);
    let vs: Vec<u32> = if g.exhaustive { vec![0, 1] } else { vec![0, 1, 2, 3, 6] };
    let n = g.upto(3, 6);
    let ls = lits(g, &vs, n);
    let b = g.pick(ls.len() + 3);
    let l = if g.flip() { lit(g, &vs) } else { Lit::new(8, g.flip()) };
    let c = o.card(ls.iter().copied(), b);
    g.note(format!("{c} with {l}"));
    let mut all = ls.clone();
    all.push(l);
    let ms: Vec<Vec<bool>> = totals(&vset(&all)).collect();
    for (what, r) in [("lit_impl_card", may_panic(|| lit_impl_card(l, &c))), ("card_impl_lit", may_panic(|| card_impl_lit(&c, l)))] {
        match r {
            Err(p) => ck!(c.is_unsat(), what, "{what} panicked: {p}"),
            Ok(r) => {
                ck!(ok_vars(&r, &ls, l), what, "{what}: {r} mentions another variable");
                for m in &ms {
                    let (x, y) = (lt(l, m), card_holds(&c, m));
                    let want = if what == "lit_impl_card" { !x || y } else { !y || x };
                    ck_eq!(pb_holds(&r, m), want, what, "{what}({c}, {l}) = {r} under {m:?}");
                }
            }
        }
    }
    Ok(())
}
fn reify_pb(g: &mut Gen) -> R {
    let o = g.of(&[Op::Ub, Op::Lb]);
    let _ = op;
    let vs: Vec<u32> = if g.exhaustive { vec![0, 1] } else { vec![0, 1, 2, 3, 6] };
    let mx = g.lim(2, 9) as i64;
    let n = g.upto(2, 6);
    let ls: Vec<(Lit, isize)> = lits(g, &vs, n).into_iter().map(|l| (l, g.range(-mx, mx) as isize)).collect();
    let w: i64 = ls.iter().map(|x| x.1.abs() as i64).sum();
    let b = g.range(-w - 1, w + 2) as isize;
    let l = if g.flip() { lit(g, &vs) } else { Lit::new(8, g.flip()) };
    let c = o.pb(ls.iter().copied(), b);
    g.note(format!("{c} with {l}"));
    let pl: Vec<Lit> = ls.iter().map(|x| x.0).collect();
    let mut all = pl.clone();
    all.push(l);
    let ms: Vec<Vec<bool>> = totals(&vset(&all)).collect();
    for (what, r) in [("lit_impl_pb", may_panic(|| lit_impl_pb(l, &c))), ("pb_impl_lit", may_panic(|| pb_impl_lit(&c, l)))] {
        match r {
            Err(p) => ck!(c.is_unsat(), what, "{what} panicked: {p}"),
            Ok(r) => {
                ck!(ok_vars(&r, &pl, l), what, "{what}: {r} mentions another variable");
                ck_eq!(r.weight_sum(), r.iter().map(|x| x.1).sum::<usize>(), what, "weight sum of {r}");
                let _ = pop;
                for m in &ms {
                    let (x, y) = (lt(l, m), pb_holds(&c, m));
                    let want = if what == "lit_impl_pb" { !x || y } else { !y || x };
                    ck_eq!(pb_holds(&r, m), want, what, "{what}({c}, {l}) = {r} under {m:?}");
                }
            }
        }
    }
    Ok(())
}
