#![allow(dead_code)]
use crate::core::*;
use rustsat::types::*;

/// literal over one of `nv` variables; the variable indices may have gaps
pub fn lit(g: &mut Gen, vars: &[u32]) -> Lit {
    let v = g.of(vars);
    Lit::new(v, g.flip())
}
pub fn lits(g: &mut Gen, vars: &[u32], n: usize) -> Vec<Lit> {
    (0..n).map(|_| lit(g, vars)).collect()
}
/// `n` literals over distinct variables
pub fn dlits(g: &mut Gen, n: usize) -> Vec<Lit> {
    let gap = !g.exhaustive && g.flip();
    let mut v = 0u32;
    let mut r: Vec<Lit> = (0..n)
        .map(|_| {
            if gap {
                v += g.pick(3) as u32;
            }
            let l = Lit::new(v, g.flip());
            v += 1;
            l
        })
        .collect();
    if !g.exhaustive {
        let p = g.perm(n);
        r = p.into_iter().map(|i| r[i]).collect();
    }
    r
}
pub fn vars(g: &mut Gen, n: usize) -> Vec<u32> {
    let gap = !g.exhaustive && g.chance(1, 3);
    let mut v = 0;
    (0..n)
        .map(|_| {
            if gap {
                v += g.pick(3) as u32;
            }
            v += 1;
            v - 1
        })
        .collect()
}
pub fn tv(g: &mut Gen) -> TernaryVal {
    g.of(&[TernaryVal::DontCare, TernaryVal::True, TernaryVal::False])
}
/// partial assignment of the variables `0..=max`, possibly shorter
pub fn assignment(g: &mut Gen, max: u32) -> Assignment {
    let n = if g.exhaustive { max as usize + 1 } else { g.pick(max as usize + 3) };
    (0..n).map(|_| tv(g)).collect()
}
/// the value the raw data says (independent of the code under test except for `==`)
pub fn sem(a: &[TernaryVal], l: Lit) -> TernaryVal {
    let v = a.get((l.lidx32() / 2) as usize).copied().unwrap_or(TernaryVal::DontCare);
    if l.lidx32() % 2 == 1 {
        match v {
            TernaryVal::True => TernaryVal::False,
            TernaryVal::False => TernaryVal::True,
            TernaryVal::DontCare => TernaryVal::DontCare,
        }
    } else {
        v
    }
}
pub fn raw(n: usize, a: &Assignment) -> Vec<TernaryVal> {
    (0..n).map(|i| a.var_value(Var::new(i as u32))).collect()
}
pub fn lt(l: Lit, m: &[bool]) -> bool {
    let x = m.get((l.lidx32() / 2) as usize).copied().unwrap_or(false);
    x != (l.lidx32() % 2 == 1)
}
pub fn cl_sat<'a>(c: impl IntoIterator<Item = &'a Lit>, m: &[bool]) -> bool {
    c.into_iter().any(|l| lt(*l, m))
}
pub fn maxv<'a>(ls: impl IntoIterator<Item = &'a Lit>) -> u32 {
    ls.into_iter().map(|l| l.lidx32() / 2).max().unwrap_or(0)
}
/// all total assignments of the given variables (others false), as vectors over `0..=max`
pub fn totals(vs: &[u32]) -> impl Iterator<Item = Vec<bool>> + '_ {
    let n = vs.iter().max().map_or(0, |m| *m as usize + 1);
    (0u64..1 << vs.len()).map(move |k| {
        let mut m = vec![false; n];
        for (i, v) in vs.iter().enumerate() {
            m[*v as usize] = k >> i & 1 == 1;
        }
        m
    })
}
pub fn vset<'a>(ls: impl IntoIterator<Item = &'a Lit>) -> Vec<u32> {
    let mut v: Vec<u32> = ls.into_iter().map(|l| l.lidx32() / 2).collect();
    v.sort_unstable();
    v.dedup();
    v
}
pub fn to_assign(m: &[bool]) -> Assignment {
    m.iter().map(|b| if *b { TernaryVal::True } else { TernaryVal::False }).collect()
}
pub fn sl(ls: &[Lit]) -> String {
    format!("{ls:?}")
}
