//! P14: objectives and optimization instances
use super::inst::*;
use super::util::*;
use crate::core::*;
use crate::sat::Sat;
use crate::{ck, ck_eq};
use rustsat::instances::*;
use rustsat::types::*;
use std::collections::BTreeMap;
pub fn suites() -> Vec<Suite> {
    vec![
        super::s("P14", "obj_hist", "cost, weights and conversions of objectives after arbitrary operation histories", hist_, 100_000, 60_000, 1_500_000),
        super::s("P14", "opt_inst", "conversions and re-indexing of (multi-)optimization instances", opt_, 40_000, 40_000, 800_000),
    ]
}
/// reference: weights as given by the operations
#[derive(Clone, Default, Debug)]
pub struct Ref {
    pub off: i64,
    pub lits: BTreeMap<Lit, u64>,
    pub cls: BTreeMap<Clause, u64>,
}
impl Ref {
    pub fn cost(&self, m: &[TernaryVal]) -> i64 {
        self.off + self.soft(m)
    }
    pub fn soft(&self, m: &[TernaryVal]) -> i64 {
        let l: u64 = self.lits.iter().filter(|(l, _)| sem(m, **l) == TernaryVal::True).map(|(_, w)| w).sum();
        let c: u64 = self.cls.iter().filter(|(c, _)| c.iter().all(|l| sem(m, *l) == TernaryVal::False)).map(|(_, w)| w).sum();
        (l + c) as i64
    }
}
fn tern(m: &[bool]) -> Vec<TernaryVal> {
    m.iter().map(|b| TernaryVal::from(*b)).collect()
}
fn clause(g: &mut Gen, vs: &[u32]) -> Clause {
    let n = g.upto(3, 4);
    lits(g, vs, n).into_iter().collect()
}
fn weight(g: &mut Gen) -> usize {
    match g.pick(6) {
        0 => 1,
        1 => 2,
        2 => 0,
        3 => 3,
        4 => 1,
        _ => g.pick(7),
    }
}
/// applies one operation to both
fn step(g: &mut Gen, o: &mut Objective, r: &mut Ref, vs: &[u32]) -> R {
    match g.pick(8) {
        k @ (0 | 4) => {
            let (w, l) = (weight(g), lit(g, vs));
            g.note(format!("add_soft_lit {w} {l}"));
            let got = o.add_soft_lit(w, l);
            let want = r.lits.remove(&l).map(|x| x as usize);
            let _ = k;
            ck_eq!(got, want, "old-weight", "return of add_soft_lit");
            if w > 0 {
                r.lits.insert(l, w as u64);
            }
        }
        1 | 5 => {
            let (w, l) = (weight(g), lit(g, vs));
            g.note(format!("increase_soft_lit {w} {l}"));
            o.increase_soft_lit(w, l);
            if w > 0 {
                *r.lits.entry(l).or_default() += w as u64;
            }
        }
        2 => {
            let (w, c) = (weight(g), clause(g, vs));
            g.note(format!("add_soft_clause {w} {c}"));
            let got = o.add_soft_clause(w, c.clone());
            let want = match c.len() {
                0 => {
                    r.off += w as i64;
                    None
                }
                1 => {
                    let old = r.lits.remove(&!c[0]);
                    if w > 0 {
                        r.lits.insert(!c[0], w as u64);
                    }
                    old
                }
                _ => {
                    let old = r.cls.remove(&c);
                    if w > 0 {
                        r.cls.insert(c, w as u64);
                    }
                    old
                }
            };
            ck_eq!(got, want.map(|x| x as usize), "old-weight", "return of add_soft_clause");
        }
        3 => {
            let (w, c) = (weight(g), clause(g, vs));
            g.note(format!("increase_soft_clause {w} {c}"));
            o.increase_soft_clause(w, c.clone());
            let w = w as u64;
            match c.len() {
                0 => r.off += w as i64,
                _ if w == 0 => (),
                1 => *r.lits.entry(!c[0]).or_default() += w,
                _ => *r.cls.entry(c).or_default() += w,
            }
        }
        6 => {
            let (w, l) = (g.range(-4, 4) as isize, lit(g, vs));
            g.note(format!("increase_soft_lit_int {w} {l}"));
            o.increase_soft_lit_int(w, l);
            if w > 0 {
                *r.lits.entry(l).or_default() += w as u64;
            } else if w < 0 {
                r.off += w as i64;
                *r.lits.entry(!l).or_default() += w.unsigned_abs() as u64;
            }
        }
        _ => {
            let w = g.range(-5, 5) as isize;
            if g.flip() {
                g.note(format!("set_offset {w}"));
                o.set_offset(w);
                r.off = w as i64;
            } else {
                g.note(format!("increase_offset {w}"));
                o.increase_offset(w);
                r.off += w as i64;
            }
        }
    }
    Ok(())
}
pub fn build_obj(g: &mut Gen, vs: &[u32], n: usize) -> Result<(Objective, Ref), Fail> {
    let (mut o, mut r) = (Objective::new(), Ref::default());
    let n = g.pick(n + 1);
    for _ in 0..n {
        step(g, &mut o, &mut r, vs)?;
    }
    Ok((o, r))
}
fn same(o: &Objective, r: &Ref, vs: &[u32], what: &str) -> R {
    for m in totals(vs) {
        let a = to_assign(&m);
        ck_eq!(o.evaluate(&a) as i64, r.cost(&tern(&m)), "cost", "{what}: cost under {m:?} of {o:?}");
    }
    Ok(())
}
fn soft_cls_cost(cls: &[(Clause, usize)], m: &[bool]) -> i64 {
    cls.iter().filter(|(c, _)| !cl_sat(c.iter(), m)).map(|(_, w)| *w as i64).sum()
}
/// minimum cost over the added variables, given the original assignment; `None`: no extension
fn min_soft_lits(nv: usize, vm: u32, hard: &Cnf, soft: &[(Lit, usize)], orig: &[Lit], isorig: impl Fn(Lit) -> bool) -> Option<i64> {
    let mut s = Sat::new(vm as usize + nv + 1, hard.iter());
    let mut free: Vec<Lit> = soft.iter().map(|(l, _)| *l).filter(|l| !isorig(*l)).collect();
    free.sort_unstable();
    free.dedup();
    let mut best = None;
    for mask in 0..1u32 << free.len() {
        let mut a = orig.to_vec();
        a.extend(free.iter().enumerate().map(|(i, l)| if mask >> i & 1 == 1 { *l } else { !*l }));
        let cost = soft.iter().filter(|(l, _)| a.contains(l)).map(|(_, w)| *w as i64).sum();
        if best.is_none_or(|b| cost < b) && s.solve(&a) {
            best = Some(cost);
        }
    }
    best
}
fn hist_(g: &mut Gen) -> R {
    let nv = g.lim(2, 4);
    let vs = vars(g, nv);
    let hi = vs.iter().max().map_or(0, |m| m + 1) as usize;
    let (mut o, mut r) = build_obj(g, &vs, if g.lim(0, 1) == 0 { 3 } else { 9 })?;
    g.work += 1;
    // queries
    let ls: u64 = r.lits.values().sum();
    let cs: u64 = r.cls.values().sum();
    ck_eq!((o.lit_weight_sum() as u64, o.clause_weight_sum() as u64, o.weight_sum() as u64), (ls, cs, ls + cs), "sums", "weight sums of {o:?}");
    ck_eq!(o.offset() as i64, r.off, "offset", "offset");
    ck_eq!(o.n_softs(), o.n_lits() + o.n_clauses(), "n-softs", "number of soft literals and clauses of {o:?}");
    ck_eq!(o.n_softs() == 0, o.weight_sum() == 0, "n-softs", "number of soft literals and clauses of {o:?}");
    if o.weighted() {
        ck_eq!((o.max_lit_weight() as u64, o.max_clause_weight() as u64), (r.lits.values().max().copied().unwrap_or(0), r.cls.values().max().copied().unwrap_or(0)), "max-weight", "maximum weights of {o:?}");
        ck_eq!((o.min_lit_weight() as u64, o.min_clause_weight() as u64), (r.lits.values().min().copied().unwrap_or(u64::MAX), r.cls.values().min().copied().unwrap_or(u64::MAX)), "min-weight", "minimum weights of {o:?}");
    } else {
        // every soft has the same weight (counting copies)
        let n = o.n_softs() as u64;
        let same = n == 0 || (ls + cs) % n == 0 && r.lits.values().chain(r.cls.values()).all(|w| w % ((ls + cs) / n) == 0);
        ck!(same, "weighted", "reported unweighted, but the weights differ: {o:?}");
    }
    ck_eq!(o.constant(), r.lits.is_empty() && r.cls.is_empty(), "constant", "constant");
    ck_eq!(o.is_empty(), r.lits.is_empty() && r.cls.is_empty() && r.off == 0, "empty", "is_empty");
    for v in &vs {
        for neg in [false, true] {
            let l = Var::new(*v).lit(neg);
            ck_eq!(o.lit_weight(l), r.lits.get(&l).map(|w| *w as usize), "lit-weight", "weight of {l} in {o:?}");
        }
    }
    for (c, w) in &r.cls {
        ck_eq!(o.clause_weight(c), Some(*w as usize), "clause-weight", "weight of {c} in {o:?}");
    }
    if vs.len() > 1 {
        let c: Clause = [Var::new(vs[0]).pos_lit(), Var::new(vs[1]).neg_lit()].into_iter().collect();
        ck_eq!(o.clause_weight(&c), r.cls.get(&c).map(|w| *w as usize), "clause-weight", "weight of {c} in {o:?}");
    }
    same(&o, &r, &vs, "after the operations")?;
    let a = assignment(g, hi.max(1) as u32 - 1);
    ck_eq!(o.evaluate_no_offset(&a) as i64, r.soft(&raw(hi, &a)), "partial", "cost without offset under {a:?}");
    let want = r.lits.keys().map(|l| l.var()).chain(r.cls.keys().flat_map(|c| c.iter().map(|l| l.var()))).max();
    ck_eq!(o.max_var(), want, "max-var", "largest variable");
    {
        let v: Vec<(Clause, usize)> = o.iter_soft_cls().into_iter().collect();
        for m in totals(&vs) {
            ck_eq!(soft_cls_cost(&v, &m) + r.off, r.cost(&tern(&m)), "iter-soft-cls", "soft clauses {v:?} under {m:?}");
        }
        match o.iter_soft_lits() {
            Err(_) => ck!(!r.cls.is_empty(), "iter-soft-lits", "refused without soft clauses"),
            Ok(i) => {
                let v: Vec<(Lit, usize)> = i.into_iter().collect();
                ck!(r.cls.is_empty(), "iter-soft-lits", "soft clauses are lost");
                for m in totals(&vs) {
                    let c: i64 = v.iter().filter(|(l, _)| lt(*l, &m)).map(|(_, w)| *w as i64).sum();
                    ck_eq!(c + r.off, r.cost(&tern(&m)), "iter-soft-lits", "soft literals {v:?} under {m:?}");
                }
            }
        }
    }
    let orig = |m: &[bool]| -> Vec<Lit> { vs.iter().map(|v| Var::new(*v).lit(!m[*v as usize])).collect() };
    let isorig = |l: Lit| vs.contains(&l.vidx32());
    match g.pick(9) {
        0 => {
            g.note("into_soft_cls");
            let (it, off) = o.into_soft_cls();
            let v: Vec<(Clause, usize)> = it.into_iter().collect();
            for m in totals(&vs) {
                ck_eq!(soft_cls_cost(&v, &m) + off as i64, r.cost(&tern(&m)), "soft-cls", "soft clauses {v:?} {off} under {m:?}");
            }
        }
        1 => {
            g.note("into_unweighted_soft_cls");
            let (it, unit, off) = o.into_unweighted_soft_cls();
            let v: Vec<(Clause, usize)> = it.into_iter().map(|c| (c, unit)).collect();
            for m in totals(&vs) {
                ck_eq!(soft_cls_cost(&v, &m) + off as i64, r.cost(&tern(&m)), "unweighted-soft-cls", "soft clauses {v:?} {off} under {m:?}");
            }
        }
        k @ (2 | 3 | 4) => {
            let mut vm = BasicVarManager::from_next_free(Var::new(hi as u32));
            let (hard, soft, off): (Cnf, Vec<(Lit, usize)>, isize) = match k {
                2 => {
                    g.note("into_soft_lits");
                    let (h, (it, off)) = o.into_soft_lits(&mut vm);
                    (h, it.into_iter().collect(), off)
                }
                3 => {
                    g.note("into_unweighted_soft_lits");
                    let (h, it, unit, off) = o.into_unweighted_soft_lits(&mut vm);
                    (h, it.into_iter().map(|l| (l, unit)).collect(), off)
                }
                _ => {
                    g.note("convert_to_soft_lits");
                    let h = o.convert_to_soft_lits(&mut vm);
                    ck_eq!(o.n_clauses(), 0, "soft-lits", "soft clauses left");
                    let v = match o.iter_soft_lits() {
                        Ok(i) => i.into_iter().collect(),
                        Err(_) => vec![],
                    };
                    (h, v, o.offset())
                }
            };
            for m in totals(&vs) {
                let got = min_soft_lits(hi, vm.n_used(), &hard, &soft, &orig(&m), isorig).map(|c| c + off as i64);
                ck_eq!(got, Some(r.cost(&tern(&m))), "soft-lits", "hard {hard:?} soft {soft:?} {off} under {m:?}");
            }
        }
        5 | 6 => {
            g.note("normalize");
            o = o.normalize();
            same(&o, &r, &vs, "normalized")?;
            // the history may go on
            if g.flip() {
                o.increase_soft_lit(2, Var::new(vs[0]).pos_lit());
                *r.lits.entry(Var::new(vs[0]).pos_lit()).or_default() += 2;
                g.note("and increase");
                same(&o, &r, &vs, "normalized and increased")?;
                same(&o.clone().normalize(), &r, &vs, "normalized again")?;
            }
        }
        7 => {
            g.note("reindex");
            let mut re = ReindexingVarManager::default();
            for _ in 0..g.pick(3) {
                re.new_var();
            }
            let o = o.reindex(&mut re);
            let map: Vec<u32> = vs.iter().map(|v| re.reindex(Var::new(*v)).idx32()).collect();
            let top = map.iter().max().map_or(0, |x| x + 1) as usize;
            for m in totals(&vs) {
                let mut n = vec![false; top];
                vs.iter().zip(&map).for_each(|(v, w)| n[*w as usize] = m[*v as usize]);
                ck_eq!(o.evaluate(&to_assign(&n)) as i64, r.cost(&tern(&m)), "reindex", "re-indexed {o:?} under {n:?}");
            }
        }
        _ => {
            g.note("collected");
            let a: Objective = r.lits.iter().map(|(l, w)| (*l, *w as usize)).collect();
            let b: Objective = r.lits.iter().map(|(l, w)| (*l, -(*w as isize))).collect();
            let c: Objective = r.cls.iter().map(|(c, w)| (c.clone(), *w as usize)).collect();
            let ra = Ref { off: 0, cls: BTreeMap::new(), ..r.clone() };
            let rc = Ref { off: 0, lits: BTreeMap::new(), ..r.clone() };
            same(&a, &ra, &vs, "collected from literals")?;
            same(&c, &rc, &vs, "collected from clauses")?;
            for m in totals(&vs) {
                ck_eq!(b.evaluate(&to_assign(&m)) as i64, -ra.cost(&tern(&m)), "cost", "collected from literals with negative weights: {b:?} under {m:?}");
            }
        }
    }
    Ok(())
}
fn opt_(g: &mut Gen) -> R {
    let nv = g.lim(2, 3);
    let vs = vars(g, nv);
    let off = g.pick(3) as u32;
    let ovs: Vec<u32> = vs.iter().map(|v| v + off).collect();
    let raw = raw_inst(g, &vs);
    let multi = g.flip();
    g.note(format!("clauses {:?} cards {:?} pbs {:?}; objective variables {ovs:?}", raw.0, raw.1, raw.2));
    let n = if multi { g.pick(3) } else { 1 };
    let mut os = vec![];
    let mut rs = vec![];
    for _ in 0..n {
        let (o, r) = build_obj(g, &ovs, if g.lim(0, 1) == 0 { 2 } else { 5 })?;
        os.push(o);
        rs.push(r);
    }
    let mut all = vs.clone();
    all.extend(&ovs);
    all.sort_unstable();
    all.dedup();
    let hi = all.iter().max().map_or(0, |x| x + 1);
    let inst: SatInstance = build(&raw);
    let fine = |m: &[bool]| raw_holds(&raw, m);
    // variables that occur
    let mut occ: Vec<u32> = inst.var_set().iter().map(|v| v.idx32()).collect();
    for r in &rs {
        occ.extend(r.lits.keys().map(|l| l.vidx32()));
        occ.extend(r.cls.keys().flat_map(|c| c.iter().map(|l| l.vidx32())));
    }
    occ.sort_unstable();
    occ.dedup();
    let orig = |m: &[bool]| -> Vec<Lit> { occ.iter().map(|v| Var::new(*v).lit(!m[*v as usize])).collect() };
    let isorig = |l: Lit| occ.contains(&l.vidx32());
    g.work += 1;
    type Soft<T> = Vec<(Vec<(T, usize)>, isize)>;
    match g.pick(4) {
        k @ (0 | 1) => {
            g.note("into_hard_cls_soft_cls");
            let (cnf, soft, vm): (Cnf, Soft<Clause>, u32) = if multi {
                let i: MultiOptInstance = if k == 0 { MultiOptInstance::compose(inst, os) } else {
                    let mut i: MultiOptInstance = MultiOptInstance::new(n);
                    *i.constraints_mut() = inst;
                    for (k, o) in os.into_iter().enumerate() { *i.objective_mut(k) = o }
                    i
                };
                let (cnf, s, vm) = i.into_hard_cls_soft_cls();
                (cnf, s.into_iter().map(|(i, o)| (i.into_iter().collect(), o)).collect(), vm.n_used())
            } else {
                let i: OptInstance = if k == 0 { OptInstance::compose(inst, os.remove(0)) } else {
                    let mut i: OptInstance = OptInstance::new();
                    *i.constraints_mut() = inst;
                    *i.objective_mut() = os.remove(0);
                    i
                };
                let (cnf, (s, o), vm) = i.into_hard_cls_soft_cls();
                (cnf, vec![(s.into_iter().collect(), o)], vm.n_used())
            };
            let mut s = Sat::new(vm.max(hi) as usize, cnf.iter());
            for m in totals(&all) {
                ck_eq!(s.solve(&orig(&m)), fine(&m), "hard", "hard clauses {cnf:?} under {m:?}");
                for ((s, o), r) in soft.iter().zip(&rs) {
                    ck_eq!(soft_cls_cost(s, &m) + *o as i64, r.cost(&tern(&m)), "soft-cls", "soft clauses {s:?} {o} under {m:?}");
                }
            }
        }
        2 => {
            g.note("into_hard_cls_soft_lits");
            let (cnf, soft, vm): (Cnf, Soft<Lit>, u32) = if multi {
                let mut i: MultiOptInstance = MultiOptInstance::new(n);
                *i.constraints_mut() = inst;
                for (k, o) in os.into_iter().enumerate() { *i.objective_mut(k) = o }
                let (cnf, s, vm) = i.into_hard_cls_soft_lits();
                (cnf, s.into_iter().map(|(i, o)| (i.into_iter().collect(), o)).collect(), vm.n_used())
            } else {
                let mut i: OptInstance = OptInstance::new();
                *i.constraints_mut() = inst;
                *i.objective_mut() = os.remove(0);
                let (cnf, (s, o), vm) = i.into_hard_cls_soft_lits();
                (cnf, vec![(s.into_iter().collect(), o)], vm.n_used())
            };
            for c in &cnf {
                for l in c.iter() {
                    ck!(l.vidx32() < vm, "vm-covers", "{c} beyond the variable manager's {vm}");
                }
            }
            for m in totals(&all) {
                for ((s, o), r) in soft.iter().zip(&rs) {
                    let got = min_soft_lits(hi as usize, vm, &cnf, s, &orig(&m), isorig).map(|c| c + *o as i64);
                    let want = fine(&m).then(|| r.cost(&tern(&m)));
                    ck_eq!(got, want, "soft-lits", "hard {cnf:?} soft {s:?} {o} under {m:?}");
                }
            }
        }
        _ => {
            let ordered = g.flip();
            g.note(format!("cost and reindex, ordered: {ordered}"));
            let re = ReindexingVarManager::default();
            let costs = |m: &[bool]| fine(m).then(|| rs.iter().map(|r| r.cost(&tern(m)) as isize).collect::<Vec<_>>());
            let map = |m: &[bool], vm: &ReindexingVarManager| {
                let n: Vec<bool> = (0..vm.n_used()).map(|w| vm.reverse(Var::new(w)).is_some_and(|v| m[v.idx()])).collect();
                to_assign(&n)
            };
            if multi {
                let i = MultiOptInstance::compose(inst, os);
                for m in totals(&all) {
                    ck_eq!(i.cost(&to_assign(&m)), costs(&m), "cost", "costs under {m:?}");
                }
                let i = if ordered { i.reindex_ordered(re) } else { i.reindex(re) };
                let vm = i.constraints_ref().var_manager_ref();
                for m in totals(&all) {
                    ck_eq!(i.cost(&map(&m, &vm)), costs(&m), "reindex", "re-indexed costs under {m:?}");
                }
            } else {
                let i = OptInstance::compose(inst, os.remove(0));
                for m in totals(&all) {
                    ck_eq!(i.cost(&to_assign(&m)).map(|c| vec![c]), costs(&m), "cost", "costs under {m:?}");
                }
                let i = if ordered { i.reindex_ordered(re) } else { i.reindex(re) };
                let vm = i.constraints_ref().var_manager_ref();
                for m in totals(&all) {
                    ck_eq!(i.cost(&map(&m, &vm)).map(|c| vec![c]), costs(&m), "reindex", "re-indexed costs under {m:?}");
                }
            }
        }
    }
    Ok(())
}
