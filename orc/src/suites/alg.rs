//! P15: solution-improving search
use super::inst::*;
use super::util::*;
use crate::core::*;
use crate::sat::Sat;
use crate::ck_eq;
use rustsat::algs::maxsat::{Solve as MaxSat, SolutionImprovingSearch};
use rustsat::encodings::pb::{BinaryAdder, GeneralizedTotalizer};
use rustsat::instances::*;
use rustsat::solvers::*;
use rustsat::types::*;
use std::cell::Cell;
pub fn suites() -> Vec<Suite> {
    vec![
        super::s("P15", "sis", "solution-improving search with a solver that returns arbitrary models", sis_, 60_000, 30_000, 600_000),
        super::s("P15", "maxsat", "solving optimization instances", maxsat_, 30_000, 20_000, 400_000),
    ]
}
thread_local!(static SEED: Cell<u64> = const { Cell::new(1) });
/// correct incremental solver with arbitrary models
pub struct Any {
    sat: Sat,
    max: Option<u32>,
    model: Option<Vec<bool>>,
    n: usize,
    rnd: SplitMix,
}
impl Default for Any {
    fn default() -> Any {
        Any { sat: Sat::new(0, &[]), max: None, model: None, n: 0, rnd: SplitMix(SEED.with(Cell::get)) }
    }
}
impl Extend<Clause> for Any {
    fn extend<T: IntoIterator<Item = Clause>>(&mut self, it: T) {
        it.into_iter().for_each(|c| self.add_clause(c).unwrap());
    }
}
impl<'a> Extend<&'a Clause> for Any {
    fn extend<T: IntoIterator<Item = &'a Clause>>(&mut self, it: T) {
        it.into_iter().for_each(|c| self.add_clause_ref(c).unwrap());
    }
}
fn code(l: Lit) -> usize {
    2 * l.vidx() + usize::from(l.is_neg())
}
impl Solve for Any {
    fn signature(&self) -> &'static str {
        "any"
    }
    fn reserve(&mut self, v: Var) -> anyhow::Result<()> {
        self.max = self.max.max(Some(v.idx32()));
        Ok(())
    }
    fn solve(&mut self) -> anyhow::Result<SolverResult> {
        self.solve_assumps(&[])
    }
    fn lit_val(&self, l: Lit) -> anyhow::Result<TernaryVal> {
        let Some(m) = &self.model else { anyhow::bail!("no solution") };
        Ok(match m.get(l.vidx()) {
            Some(b) => TernaryVal::from(*b != l.is_neg()),
            None => TernaryVal::DontCare,
        })
    }
    fn add_clause_ref<C: AsRef<Cl> + ?Sized>(&mut self, c: &C) -> anyhow::Result<()> {
        self.model = None;
        for l in c.as_ref() {
            self.max = self.max.max(Some(l.vidx32()));
        }
        self.sat.add(c.as_ref().iter().map(|l| code(*l)).collect());
        Ok(())
    }
}
impl SolveIncremental for Any {
    fn solve_assumps(&mut self, a: &[Lit]) -> anyhow::Result<SolverResult> {
        self.n += 1;
        assert!(self.n < 300, "search does not terminate");
        self.model = None;
        let mut a: Vec<usize> = a.iter().map(|l| code(*l)).collect();
        let Some(mut m) = self.sat.solve_codes(&a) else { return Ok(SolverResult::Unsat) };
        // an arbitrary one
        let n = self.max.map_or(0, |m| m as usize + 1);
        for _ in 0..n.min(12) {
            let r = self.rnd.next();
            let l = 2 * ((r >> 8) as usize % n) + (r & 1) as usize;
            a.push(l);
            match self.sat.solve_codes(&a) {
                Some(x) => m = x,
                None => {
                    a.pop();
                }
            }
        }
        m.resize(n.max(m.len()), false);
        self.model = Some(m);
        Ok(SolverResult::Sat)
    }
    fn core(&mut self) -> anyhow::Result<Vec<Lit>> {
        anyhow::bail!("not supported")
    }
}
impl SolveStats for Any {
    fn stats(&self) -> SolverStats {
        SolverStats { max_var: self.max.map(Var::new), n_clauses: self.sat.clauses.len(), ..Default::default() }
    }
}
fn run(g: &mut Gen, s: &mut Any, o: &[(Lit, usize)]) -> Option<(Assignment, usize)> {
    match g.pick(2) {
        0 => {
            g.note("generalized totalizer");
            SolutionImprovingSearch::<Any, GeneralizedTotalizer>::solve(s, o)
        }
        _ => {
            g.note("binary adder");
            SolutionImprovingSearch::<Any, BinaryAdder>::solve(s, o)
        }
    }
}
fn sis_(g: &mut Gen) -> R {
    let nv = g.lim(2, 4);
    let vs = vars(g, nv);
    let nc = g.upto(2, 5);
    let cls: Vec<Clause> = (0..nc)
        .map(|_| {
            let n = g.upto(2, 4);
            lits(g, &vs, n).into_iter().collect()
        })
        .collect();
    let off = g.pick(3) as u32;
    let ovs: Vec<u32> = vs.iter().map(|v| v + off).collect();
    let n = g.upto(3, 5);
    let wmax = g.lim(3, 9) as i64;
    let obj: Vec<(Lit, usize)> = (0..n).map(|_| (lit(g, &ovs), g.range(0, wmax) as usize)).collect();
    SEED.with(|s| s.set(g.pick64(1 << 16) + 1));
    g.note(format!("clauses {cls:?} objective {obj:?}"));
    g.work += 1;
    let mut s = Any::default();
    s.extend(cls.iter().cloned());
    let got = run(g, &mut s, &obj);
    let mut all = vs.clone();
    all.extend(&ovs);
    all.sort_unstable();
    all.dedup();
    let cost = |m: &[bool]| -> usize { obj.iter().filter(|(l, _)| lt(*l, m)).map(|(_, w)| w).sum() };
    let best = totals(&all).filter(|m| cls.iter().all(|c| cl_sat(c.iter(), m))).map(|m| cost(&m)).min();
    ck_eq!(got.as_ref().map(|g| g.1), best, "cost", "returned cost");
    if let Some((a, c)) = got {
        for cl in &cls {
            ck_eq!(cl.evaluate(&a), TernaryVal::True, "solution", "{cl} under {a:?}");
        }
        let v: usize = obj.iter().filter(|(l, _)| a.lit_value(*l) == TernaryVal::True).map(|(_, w)| w).sum();
        ck_eq!(v, c, "value", "cost of the returned solution");
    }
    Ok(())
}
fn maxsat_(g: &mut Gen) -> R {
    let nv = g.lim(2, 4);
    let vs = vars(g, nv);
    let raw = raw_inst(g, &vs);
    let off = g.pick(3) as u32;
    let ovs: Vec<u32> = vs.iter().map(|v| v + off).collect();
    g.note(format!("clauses {:?} cards {:?} pbs {:?};", raw.0, raw.1, raw.2));
    let (o, r) = super::obj::build_obj(g, &ovs, 4)?;
    SEED.with(|s| s.set(g.pick64(1 << 16) + 1));
    let i: OptInstance = OptInstance::compose(build(&raw), o);
    g.work += 1;
    let got = match g.pick(2) {
        0 => i.solve_maxsat::<SolutionImprovingSearch<Any, GeneralizedTotalizer>>(),
        _ => i.solve_maxsat::<SolutionImprovingSearch<Any, BinaryAdder>>(),
    };
    let mut all = vs.clone();
    all.extend(&ovs);
    all.sort_unstable();
    all.dedup();
    let t = |m: &[bool]| -> Vec<TernaryVal> { m.iter().map(|b| TernaryVal::from(*b)).collect() };
    let best = totals(&all).filter(|m| raw_holds(&raw, m)).map(|m| r.cost(&t(&m))).min();
    ck_eq!(got.as_ref().map(|g| g.1 as i64), best, "cost", "returned cost");
    if let Some((a, c)) = got {
        let m: Vec<bool> = (0..all.iter().max().map_or(0, |x| x + 1)).map(|v| a.var_value(Var::new(v)) == TernaryVal::True).collect();
        ck_eq!(raw_holds(&raw, &m), true, "solution", "constraints under {a:?}");
        ck_eq!(r.cost(&t(&m)), c as i64, "value", "cost of the returned solution");
    }
    Ok(())
}
