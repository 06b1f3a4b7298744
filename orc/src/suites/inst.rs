//! P13: satisfiability instances
use super::cons::{card_holds, op, pb_holds};
use super::util::*;
use crate::core::*;
use crate::sat::Sat;
use crate::{ck, ck_eq};
use rustsat::encodings::CollectClauses;
use rustsat::instances::*;
use rustsat::types::constraints::*;
use rustsat::types::*;
pub fn suites() -> Vec<Suite> {
    vec![
        super::s("P13", "inst_sem", "evaluation and every transformation of instances against their solution sets", sem_, 60_000, 40_000, 1_000_000),
        super::s("P13", "cnf_sem", "formulas: normalising, sanitising, joining, adding implications, collecting", cnf_, 40_000, 40_000, 800_000),
    ]
}
pub type Raw = (Vec<Clause>, Vec<CardConstraint>, Vec<PbConstraint>);
pub fn raw_inst(g: &mut Gen, vs: &[u32]) -> Raw {
    let k = |g: &mut Gen| g.upto(1, 3);
    let nc = k(g);
    let cls = (0..nc)
        .map(|_| {
            let n = g.upto(2, 4);
            lits(g, vs, n).into_iter().collect()
        })
        .collect();
    let n = g.upto(1, 2);
    let cards = (0..n)
        .map(|_| {
            let n = g.upto(2, 4);
            let ls = lits(g, vs, n);
            let b = g.pick(n + 2);
            op(g).card(ls, b)
        })
        .collect();
    let n = g.upto(1, 2);
    let pbs = (0..n)
        .map(|_| {
            let n = g.upto(1, 4);
            let w = g.lim(1, 4) as i64;
            let ls: Vec<(Lit, isize)> = (0..n).map(|_| (lit(g, vs), g.range(-w, w) as isize)).collect();
            let b = g.range(-w - 1, 2 * w + 1) as isize;
            op(g).pb(ls, b)
        })
        .collect();
    (cls, cards, pbs)
}
pub fn build<VM: ManageVars + Default>(r: &Raw) -> SatInstance<VM> {
    let mut i = SatInstance::<VM>::new();
    r.0.iter().for_each(|c| i.add_clause(c.clone()));
    r.1.iter().for_each(|c| i.add_card_constr(c.clone()));
    r.2.iter().for_each(|c| i.add_pb_constr(c.clone()));
    i
}
pub fn raw_holds(r: &Raw, m: &[bool]) -> bool {
    r.0.iter().all(|c| cl_sat(c.iter(), m)) && r.1.iter().all(|c| card_holds(c, m)) && r.2.iter().all(|c| pb_holds(c, m))
}
fn show(r: &Raw) -> String {
    format!("clauses {:?} cards {:?} pbs {:?}", r.0, r.1, r.2)
}
fn covered<VM: ManageVars>(i: &SatInstance<VM>, what: &str) -> R {
    if let Some(v) = i.var_set().iter().next_back() {
        ck!(v.idx32() < i.n_vars(), "vm-covers", "{what}: variable {v} occurs, but the manager has {} used variables", i.n_vars());
    }
    Ok(())
}
/// value of the parts of an instance (clauses, converted to pseudo-Boolean constraints otherwise)
fn val<VM: ManageVars + Clone>(i: &SatInstance<VM>, m: &[bool]) -> bool {
    let (pbs, _) = i.clone().into_pbs();
    pbs.iter().all(|p| pb_holds(p, m))
}
fn sem_(g: &mut Gen) -> R {
    let nv = g.lim(2, 4);
    let vs = vars(g, nv);
    let r = raw_inst(g, &vs);
    g.note(show(&r));
    let inst: SatInstance = build(&r);
    covered(&inst, "built instance")?;
    ck_eq!((inst.n_clauses(), inst.n_cards(), inst.n_pbs(), inst.n_constraints()), (r.0.len(), r.1.len(), r.2.len(), r.0.len() + r.1.len() + r.2.len()), "counts", "numbers of constraints");
    let nv = vs.iter().max().map_or(0, |m| m + 1);
    let occ: Vec<u32> = inst.var_set().iter().map(|v| v.idx32()).collect();
    g.work += 1;
    let pick = g.pick(9);
    match pick {
        0 => {
            let a = assignment(g, nv.max(1) - 1);
            g.note(format!("evaluate {a:?}"));
            let mut vals: Vec<TernaryVal> = vec![];
            vals.extend(r.0.iter().map(|c| {
                let x: Vec<TernaryVal> = c.iter().map(|l| sem(&raw(nv as usize, &a), *l)).collect();
                if x.contains(&TernaryVal::True) { TernaryVal::True } else if x.contains(&TernaryVal::DontCare) { TernaryVal::DontCare } else { TernaryVal::False }
            }));
            vals.extend(r.1.iter().map(|c| c.evaluate(&a)));
            vals.extend(r.2.iter().map(|c| c.evaluate(&a)));
            let want = if vals.contains(&TernaryVal::False) { TernaryVal::False } else if vals.contains(&TernaryVal::DontCare) { TernaryVal::DontCare } else { TernaryVal::True };
            ck_eq!(inst.evaluate(&a), want, "evaluate", "evaluation under {a:?}");
            ck_eq!(inst.unsat_constraint(&a).is_none(), want == TernaryVal::True, "unsat-constraint", "unsat_constraint under {a:?}");
        }
        1 => {
            let s = inst.sanitize();
            g.note("sanitize");
            covered(&s, "sanitized instance")?;
            for m in totals(&vs) {
                let mut m = m.clone();
                m.resize(m.len().max(1), false);
                ck_eq!(val(&s, &m), raw_holds(&r, &m), "sanitize", "sanitized {s:?} under {m:?}");
            }
        }
        2 | 3 => {
            let (cnf, vm) = if pick == 2 {
                g.note("into_cnf");
                inst.into_cnf()
            } else {
                g.note("convert_to_cnf");
                let mut i = inst;
                i.convert_to_cnf();
                covered(&i, "converted instance")?;
                ck_eq!((i.n_cards(), i.n_pbs()), (0, 0), "converted", "constraints left");
                i.into_cnf()
            };
            for c in &cnf {
                for l in c.iter() {
                    ck!(l.vidx32() < vm.n_used(), "vm-covers", "clause {c} beyond the manager's {} variables", vm.n_used());
                }
            }
            let mut s = Sat::new(vm.n_used().max(nv) as usize, cnf.iter());
            for m in totals(&vs) {
                let a: Vec<Lit> = occ.iter().map(|v| Var::new(*v).lit(!m[*v as usize])).collect();
                g.work += 1;
                ck_eq!(s.solve(&a), raw_holds(&r, &m), "cnf", "converted formula under {a:?}");
            }
        }
        4 => {
            g.note("into_pbs");
            let (pbs, _) = inst.into_pbs();
            ck_eq!(pbs.len(), r.0.len() + r.1.len() + r.2.len(), "pbs-len", "number of constraints");
            for m in totals(&vs) {
                ck_eq!(pbs.iter().all(|p| pb_holds(p, &m)), raw_holds(&r, &m), "pbs", "{pbs:?} under {m:?}");
            }
        }
        5 => {
            let off = g.pick(3) as u32;
            let vs2: Vec<u32> = vs.iter().map(|v| v + off).collect();
            let r2 = raw_inst(g, &vs2);
            g.note(format!("extend by {}", show(&r2)));
            let mut i = inst;
            let used = i.n_vars();
            let other: SatInstance = build(&r2);
            let used2 = other.n_vars();
            i.extend(other);
            covered(&i, "extended instance")?;
            ck_eq!(i.n_vars(), used.max(used2), "extend-vars", "used variables after extending");
            let mut all = vs.clone();
            all.extend(&vs2);
            all.sort_unstable();
            all.dedup();
            for m in totals(&all) {
                ck_eq!(val(&i, &m), raw_holds(&r, &m) && raw_holds(&r2, &m), "extend", "extended instance {i:?} under {m:?}");
            }
        }
        6 | 7 => {
            let ordered = pick == 7;
            g.note(if ordered { "reindex_ordered" } else { "reindex" });
            let mut re = ReindexingVarManager::default();
            let k = g.pick(3);
            for _ in 0..k {
                re.new_var();
            }
            let old = inst.var_set();
            let i = if ordered { inst.reindex_ordered(re) } else { inst.reindex(re) };
            covered(&i, "reindexed instance")?;
            let new = i.var_set();
            ck_eq!(new.len(), old.len(), "reindex-vars", "number of variables");
            let back: Vec<Var> = new.iter().map(|v| i.var_manager_ref().reverse(*v).unwrap_or(Var::new(999))).collect();
            let mut sorted = back.clone();
            sorted.sort_unstable();
            ck_eq!(sorted, old.iter().copied().collect::<Vec<_>>(), "reindex-vars", "reversed variables");
            if ordered {
                ck_eq!(sorted, back, "ordered", "order of the variables");
            }
            let hi = new.iter().map(|v| v.idx()).max().map_or(0, |x| x + 1);
            let (pbs, _) = i.into_pbs();
            for m in totals(&vs) {
                let mut n = vec![false; hi];
                for (v, o) in new.iter().zip(&back) {
                    n[v.idx()] = m[o.idx()];
                }
                ck_eq!(pbs.iter().all(|p| pb_holds(p, &n)), raw_holds(&r, &m), "reindex", "re-indexed {pbs:?} under {n:?}");
            }
        }
        _ => {
            g.note("collected in other ways");
            let a: SatInstance = r.0.iter().cloned().collect();
            covered(&a, "collected from clauses")?;
            let b: SatInstance = r.1.iter().cloned().collect();
            covered(&b, "collected from cardinality constraints")?;
            let c: SatInstance = r.2.iter().cloned().collect();
            covered(&c, "collected from pseudo-Boolean constraints")?;
            let d: SatInstance = SatInstance::from(r.0.iter().cloned().collect::<Cnf>());
            covered(&d, "from formula")?;
            let mut e: SatInstance = SatInstance::new();
            Extend::extend(&mut e, r.0.iter().cloned());
            covered(&e, "extended by clauses")?;
            let mut f: SatInstance = SatInstance::new();
            let _ = f.extend_clauses(r.0.iter().cloned());
            covered(&f, "as clause collector")?;
            let mut h: SatInstance = SatInstance::new();
            for c in &r.0 {
                if c.len() == 1 { h &= c[0] } else { h &= c.clone() }
            }
            covered(&h, "&=")?;
            for m in totals(&vs) {
                let (x, y, z) = (r.0.iter().all(|c| cl_sat(c.iter(), &m)), r.1.iter().all(|c| card_holds(c, &m)), r.2.iter().all(|c| pb_holds(c, &m)));
                for (n, i, w) in [("clauses", &a, x), ("cards", &b, y), ("pbs", &c, z), ("from cnf", &d, x), ("extend", &e, x), ("extend_clauses", &f, x), ("&=", &h, x)] {
                    ck_eq!(val(i, &m), w, "collect", "instance by {n} under {m:?}");
                }
            }
        }
    }
    Ok(())
}
/// iterator that does not tell its length
struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
fn cnf_(g: &mut Gen) -> R {
    let nv = g.lim(2, 4);
    let vs = vars(g, nv);
    let mk = |g: &mut Gen| -> Vec<Clause> {
        let n = g.upto(2, 6);
        (0..n)
            .map(|_| {
                let n = g.upto(2, 4);
                lits(g, &vs, n).into_iter().collect()
            })
            .collect()
    };
    let r = mk(g);
    let holds = |c: &[Clause], m: &[bool]| c.iter().all(|c| cl_sat(c.iter(), m));
    let cnf: Cnf = r.iter().cloned().collect();
    g.note(format!("{r:?}"));
    g.work += 1;
    let (new, want, what): (Cnf, Vec<Clause>, &str) = match g.pick(7) {
        0 => {
            let n = cnf.normalize();
            let v: Vec<Clause> = n.iter().cloned().collect();
            let mut s = v.clone();
            s.sort_unstable();
            s.dedup();
            ck_eq!(v, s, "normal", "normalized formula is not sorted without duplicates");
            ck_eq!(n.clone().normalize(), n, "normal", "normalizing twice");
            (n, r, "normalize")
        }
        1 => (cnf.sanitize(), r, "sanitize"),
        2 => {
            let r2 = mk(g);
            let mut w = r;
            w.extend(r2.clone());
            (cnf.join(r2.into_iter().collect()), w, "join")
        }
        3 => {
            let r2 = mk(g);
            let mut c = cnf;
            let mut w = r;
            w.extend(r2.clone());
            c.extend(r2);
            (c, w, "extend")
        }
        4 => {
            let r2 = mk(g);
            let mut c = cnf;
            let mut w = r;
            w.extend(r2.clone());
            let n = c.len();
            let ok = c.extend_clauses(NoHint(r2.clone().into_iter())).is_ok();
            ck!(ok, "oom", "out of memory");
            ck_eq!(c.len(), n + r2.len(), "extend-len", "clauses after extend_clauses");
            (c, w, "extend_clauses without a size hint")
        }
        5 => {
            let r2 = mk(g);
            let mut c = cnf;
            let mut w = r;
            w.extend(r2.clone());
            let ok = c.extend_clauses(r2).is_ok();
            ck!(ok, "oom", "out of memory");
            (c, w, "extend_clauses")
        }
        _ => {
            let mut c = cnf;
            let mut w = r;
            let a = lit(g, &vs);
            let b = lit(g, &vs);
            let d = lit(g, &vs);
            c.add_unit(a);
            c.add_binary(a, b);
            c.add_ternary(a, b, d);
            c.add_nary(&[b, d]);
            c &= !d | a;
            w.extend([vec![a], vec![a, b], vec![a, b, d], vec![b, d], vec![!d, a]].into_iter().map(|v| v.into_iter().collect::<Clause>()));
            (c, w, "add")
        }
    };
    g.note(what);
    for m in totals(&vs) {
        let got = new.iter().all(|c| cl_sat(c.iter(), &m));
        ck_eq!(got, holds(&want, &m), "cnf", "{what}: {new:?} under {m:?}");
        ck_eq!(new.evaluate(&to_assign(&m)), TernaryVal::from(got), "evaluate", "evaluation of {new:?} under {m:?}");
    }
    let sorted = |c: &Cnf| { let mut v: Vec<Clause> = c.iter().cloned().collect(); v.sort_unstable(); v };
    let sh = new.clone().shuffle();
    ck_eq!(sorted(&sh), sorted(&new), "shuffle", "shuffling changed the clauses of {new:?}");
    ck_eq!(new.is_empty(), new.iter().next().is_none(), "is-empty", "is_empty of {new:?}");
    let mut c = new;
    c.clear();
    ck_eq!((c.len(), c.iter().count()), (0, 0), "clear", "clauses after clear");
    Ok(())
}
