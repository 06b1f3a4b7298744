use super::util::*;
use crate::core::*;
use crate::{ck, ck_eq};
use rustsat::instances::Cnf;
use rustsat::types::*;
use std::collections::BTreeSet;
pub fn suites() -> Vec<Suite> {
    vec![
        super::s("P04", "clause_eval", "evaluation and tautology check", clause_eval, 60_000, 40_000, 2_000_000),
        super::s("P04", "clause_norm", "normalising and sanitising", clause_norm, 60_000, 40_000, 2_000_000),
        super::s("P04", "clause_edit", "removing, adding, extending literals", clause_edit, 60_000, 40_000, 2_000_000),
        super::s("P04", "clause_ops", "operator construction of clauses and CNFs", clause_ops, 20_000, 20_000, 500_000),
    ]
}
fn some_lits(g: &mut Gen) -> (Vec<u32>, Vec<Lit>) {
    let nv = g.lim(3, 1 + (g.taken.len() % 1) + 7);
    let vs = vars(g, nv);
    let n = g.upto(4, 14);
    let ls = lits(g, &vs, n);
    (vs, ls)
}
fn clause_eval(g: &mut Gen) -> R {
    let (vs, ls) = some_lits(g);
    let c = Clause::from(&ls[..]);
    let a = assignment(g, *vs.last().unwrap());
    let r = raw(*vs.last().unwrap() as usize + 1, &a);
    g.note(format!("clause {ls:?} assignment {a:?}"));
    let vals: Vec<_> = ls.iter().map(|l| sem(&r, *l)).collect();
    let want = if vals.contains(&TernaryVal::True) {
        TernaryVal::True
    } else if vals.contains(&TernaryVal::DontCare) {
        TernaryVal::DontCare
    } else {
        TernaryVal::False
    };
    ck_eq!(c.evaluate(&a), want, "evaluate", "evaluate");
    let taut = ls.iter().any(|l| ls.iter().any(|m| m.lidx32() == l.lidx32() ^ 1));
    ck_eq!(c.is_tautology(), taut, "tautology", "is_tautology");
    ck_eq!(Cl::new(&ls).evaluate(&a), want, "evaluate", "Cl::evaluate");
    ck_eq!(c.len(), ls.len(), "len", "len");
    ck_eq!(c.is_empty(), ls.is_empty(), "len", "is_empty");
    ck_eq!(c.is_unit(), ls.len() == 1, "len", "is_unit");
    ck_eq!(c.is_binary(), ls.len() == 2, "len", "is_binary");
    let mut s = c.clone();
    s.sort();
    let mut want = ls.clone();
    want.sort_by_key(|l| l.lidx32());
    ck_eq!(s.iter().copied().collect::<Vec<_>>(), want, "sort", "sort");
    Ok(())
}
fn clause_norm(g: &mut Gen) -> R {
    let (_, ls) = some_lits(g);
    g.note(format!("clause {ls:?}"));
    let set: BTreeSet<u32> = ls.iter().map(|l| l.lidx32()).collect();
    let taut = set.iter().any(|l| set.contains(&(l ^ 1)));
    for (n, r, sorted) in [("normalize", Clause::from(&ls[..]).normalize(), true), ("sanitize", Clause::from(&ls[..]).sanitize(), false)] {
        match r {
            None => ck!(taut, "none", "{n} gave nothing for a non-tautology"),
            Some(c) => {
                // a tautology may never survive
                ck!(!taut, "taut", "{n} returned tautology {c:?}");
                let got: Vec<u32> = c.iter().map(|l| l.lidx32()).collect();
                ck_eq!(got.iter().copied().collect::<BTreeSet<_>>(), set, "set", "{n}: set of literals of {c:?}");
                ck_eq!(got.len(), set.len(), "dup", "{n}: duplicates in {c:?}");
                if sorted {
                    ck!(got.windows(2).all(|w| w[0] < w[1]), "sorted", "{n}: {c:?} is not sorted");
                }
            }
        }
    }
    Ok(())
}
fn count(v: &[Lit], l: Lit) -> usize {
    v.iter().filter(|x| x.lidx32() == l.lidx32()).count()
}
fn clause_edit(g: &mut Gen) -> R {
    let (vs, ls) = some_lits(g);
    let l = lit(g, &vs);
    g.note(format!("clause {ls:?} literal {l:?}"));
    let n = count(&ls, l);
    let same = |c: &Clause, want_l: usize, key: &str, what: &str| -> R {
        let got: Vec<Lit> = c.iter().copied().collect();
        for x in ls.iter().chain([&l]) {
            let w = if *x == l { want_l } else { count(&ls, *x) };
            ck_eq!(count(&got, *x), w, key, "{what}: occurrences of {x:?} in {got:?}");
        }
        ck_eq!(got.len(), ls.len() + want_l - n, key, "{what}: length of {got:?}");
        Ok(())
    };
    let mut c = Clause::from(&ls[..]);
    ck_eq!(c.remove(l), n > 0, "remove-ret", "result of remove");
    same(&c, n.saturating_sub(1), "remove", "remove")?;
    let mut c: Clause = ls.iter().copied().collect();
    ck_eq!(c.remove_thorough(l), n > 0, "remove-thorough-ret", "result of remove_thorough");
    same(&c, 0, "remove-thorough", "remove_thorough")?;
    let mut c: Clause = ls.iter().copied().collect();
    c.add(l);
    same(&c, n + 1, "add", "add")?;
    ck_eq!(c.iter().last().copied(), Some(l), "add", "last literal after add");
    let mut c = Clause::new();
    ck!(c.is_empty(), "new", "new clause not empty");
    c.extend(ls.iter().copied());
    ck_eq!(c.iter().copied().collect::<Vec<_>>(), ls, "extend", "extend");
    ck_eq!(c.into_iter().collect::<Vec<_>>(), ls, "iter", "into_iter");
    let mut c = Clause::with_capacity(3);
    for x in &ls {
        c |= *x;
    }
    ck_eq!(c.iter().copied().collect::<Vec<_>>(), ls, "bitor", "|=");
    for (i, x) in ls.iter().enumerate() {
        ck_eq!(c[i], *x, "index", "index");
    }
    let k = g.pick(ls.len() + 1);
    let d: Vec<Lit> = c.drain(..k).collect();
    ck_eq!(d, ls[..k].to_vec(), "drain", "drain");
    ck_eq!(c.iter().copied().collect::<Vec<_>>(), ls[k..].to_vec(), "drain", "rest after drain");
    Ok(())
}
fn clause_ops(g: &mut Gen) -> R {
    let vs = [0, 1, 2, 5];
    let (l1, l2) = (lit(g, &vs), lit(g, &vs));
    let (v1, v2) = (l1.var(), l2.var());
    let n1 = g.upto(1, 4);
    let n2 = g.upto(1, 4);
    let (a, b) = (lits(g, &vs, n1), lits(g, &vs, n2));
    let (c1, c2): (Clause, Clause) = (a.iter().copied().collect(), b.iter().copied().collect());
    g.note(format!("{l1:?} {l2:?} {a:?} {b:?}"));
    let pl = |v: Var| v.pos_lit();
    let chk = |c: Clause, want: Vec<Vec<Lit>>, what: &str| -> R {
        let mut got: Vec<Lit> = c.into_iter().collect();
        let mut w: Vec<Lit> = want.concat();
        got.sort();
        w.sort();
        ck_eq!(got, w, "or", "{what}");
        Ok(())
    };
    chk(v1 | v2, vec![vec![pl(v1), pl(v2)]], "var | var")?;
    chk(v1 | l2, vec![vec![pl(v1), l2]], "var | lit")?;
    chk(v1 | c2.clone(), vec![vec![pl(v1)], b.clone()], "var | clause")?;
    chk(l1 | v2, vec![vec![l1, pl(v2)]], "lit | var")?;
    chk(l1 | l2, vec![vec![l1, l2]], "lit | lit")?;
    chk(l1 | c2.clone(), vec![vec![l1], b.clone()], "lit | clause")?;
    chk(c1.clone() | v2, vec![a.clone(), vec![pl(v2)]], "clause | var")?;
    chk(c1.clone() | l2, vec![a.clone(), vec![l2]], "clause | lit")?;
    chk(c1.clone() | c2.clone(), vec![a.clone(), b.clone()], "clause | clause")?;
    let mut x = c1.clone();
    x |= v2;
    x |= l2;
    x |= c2.clone();
    chk(x, vec![a.clone(), vec![pl(v2), l2], b.clone()], "|=")?;
    let cn = |c: Cnf, want: Vec<Vec<Lit>>, what: &str| -> R {
        let mut got: Vec<Vec<Lit>> = c.into_iter().map(|c| c.into_iter().collect()).collect();
        let mut w = want;
        got.sort();
        w.sort();
        ck_eq!(got, w, "and", "{what}");
        Ok(())
    };
    let f2: Cnf = [c2.clone(), Clause::from([l1])].into_iter().collect();
    let wf = vec![b.clone(), vec![l1]];
    let plus = |v: Vec<Lit>| { let mut w = wf.clone(); w.push(v); w };
    cn(v1 & v2, vec![vec![pl(v1)], vec![pl(v2)]], "var & var")?;
    cn(v1 & l2, vec![vec![pl(v1)], vec![l2]], "var & lit")?;
    cn(v1 & c2.clone(), vec![vec![pl(v1)], b.clone()], "var & clause")?;
    cn(v1 & f2.clone(), plus(vec![pl(v1)]), "var & cnf")?;
    cn(l1 & v2, vec![vec![l1], vec![pl(v2)]], "lit & var")?;
    cn(l1 & l2, vec![vec![l1], vec![l2]], "lit & lit")?;
    cn(l1 & c2.clone(), vec![vec![l1], b.clone()], "lit & clause")?;
    cn(l2 & f2.clone(), plus(vec![l2]), "lit & cnf")?;
    cn(c1.clone() & v2, vec![a.clone(), vec![pl(v2)]], "clause & var")?;
    cn(c1.clone() & l2, vec![a.clone(), vec![l2]], "clause & lit")?;
    cn(c1.clone() & c2.clone(), vec![a.clone(), b.clone()], "clause & clause")?;
    cn(c1.clone() & f2.clone(), plus(a.clone()), "clause & cnf")?;
    cn(f2.clone() & v2, plus(vec![pl(v2)]), "cnf & var")?;
    cn(f2.clone() & l2, plus(vec![l2]), "cnf & lit")?;
    cn(f2.clone() & c1.clone(), plus(a.clone()), "cnf & clause")?;
    cn(f2.clone() & f2.clone(), [wf.clone(), wf.clone()].concat(), "cnf & cnf")?;
    let mut f = f2.clone();
    f &= v2;
    f &= l2;
    f &= c1.clone();
    cn(f, { let mut w = plus(vec![pl(v2)]); w.push(vec![l2]); w.push(a.clone()); w }, "&=")?;
    Ok(())
}
