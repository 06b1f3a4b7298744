use super::util::*;
use crate::core::*;
use crate::sat::Sat;
use crate::{ck, ck_eq};
use rustsat::encodings::am1::*;
use rustsat::encodings::{EncodeStats, IterInputs};
use rustsat::instances::{BasicVarManager, Cnf, ManageVars};
use rustsat::types::*;
pub fn suites() -> Vec<Suite> {
    vec![
        super::s("P08", "am1_sem", "models of every at-most-one encoding, projected to the inputs", am1_sem, 30_000, 25_000, 300_000),
        super::s("P08", "am1_large", "many inputs: none, one and two true inputs", am1_large, 0, 400, 8_000),
    ]
}
type Dyn<'a> = &'a mut dyn FnMut(&str, Vec<Lit>) -> R;
fn run<E>(name: &str, ls: &[Lit], first: u32, how: usize, full: bool, work: &mut u64) -> R
where
    E: Encode + EncodeStats + IterInputs + From<Vec<Lit>> + FromIterator<Lit> + Extend<Lit> + Default,
{
    let mut enc: E = match how {
        0 => E::from(ls.to_vec()),
        1 => ls.iter().copied().collect(),
        _ => {
            let k = ls.len() / 2;
            let mut e: E = ls[..k].iter().copied().collect();
            e.extend(ls[k..].iter().copied());
            e
        }
    };
    let mut vm = BasicVarManager::from_next_free(Var::new(first));
    let mut cnf = Cnf::new();
    ck_eq!(enc.n_lits(), ls.len(), "n-lits", "{name}: n_lits");
    ck_eq!(IterInputs::iter(&enc).collect::<Vec<_>>(), ls.to_vec(), "inputs", "{name}: iter");
    ck_eq!((EncodeStats::n_clauses(&enc), enc.n_vars()), (0, 0), "stats", "{name}: statistics before encoding");
    if enc.encode(&mut cnf, &mut vm).is_err() {
        return fail("oom", "out of memory reported");
    }
    let next = vm.new_var().idx32();
    ck_eq!(EncodeStats::n_clauses(&enc), cnf.len(), "n-clauses", "{name}: reported clauses");
    ck_eq!(enc.n_vars(), next - first, "n-vars", "{name}: reported variables");
    let ins = vset(ls);
    for c in &cnf {
        for l in c.iter() {
            ck!(ins.contains(&l.vidx32()) || (first..next).contains(&l.vidx32()), "fresh", "{name}: clause {c} mentions a variable that is neither input nor newly requested");
        }
    }
    let mut s = Sat::new(next as usize, cnf.iter());
    let n = ls.len();
    let mut query = |on: &[usize]| -> R {
        let a: Vec<Lit> = (0..n).map(|i| if on.contains(&i) { ls[i] } else { !ls[i] }).collect();
        *work += 1;
        let on_lits: Vec<Lit> = on.iter().map(|i| ls[*i]).collect();
        ck_eq!(s.solve(&a), on.len() <= 1, if on.len() <= 1 { "complete" } else { "sound" }, "{name} over {ls:?}: satisfiable with exactly {on_lits:?} true");
        Ok(())
    };
    if full {
        for k in 0u32..1 << n {
            query(&(0..n).filter(|i| k >> i & 1 == 1).collect::<Vec<_>>())?;
        }
    } else {
        query(&[])?;
        for i in 0..n {
            query(&[i])?;
            for j in 0..i {
                query(&[j, i])?;
            }
        }
        query(&(0..n).collect::<Vec<_>>())?;
    }
    Ok(())
}
fn each(ls: &[Lit], first: u32, how: usize, which: usize, full: bool, work: &mut u64) -> R {
    macro_rules! go { ($($t:ty),* $(,)?) => {{
        let fs: &[fn(&[Lit], u32, usize, bool, &mut u64) -> R] = &[$(|l, f, h, u, w| run::<$t>(stringify!($t), l, f, h, u, w)),*];
        fs[which % fs.len()](ls, first, how, full, work)
    }}; }
    go!(
        Pairwise, Ladder, Bitwise, Commander<4, Pairwise>, Bimander<4, Pairwise>, TwoProduct<Pairwise>,
        Commander<1, Pairwise>, Commander<2, Pairwise>, Commander<3, Ladder>, Commander<2, Bitwise>, Commander<5, Commander<2, Pairwise>>,
        Bimander<1, Pairwise>, Bimander<2, Pairwise>, Bimander<3, Ladder>, Bimander<2, Bimander<1, Bitwise>>, Bimander<5, Bitwise>,
        TwoProduct<Ladder>, TwoProduct<Bitwise>, TwoProduct<TwoProduct<Pairwise>>, TwoProduct<Commander<2, Bimander<2, Pairwise>>>,
    )
}
const N: usize = 20;
fn am1_sem(g: &mut Gen) -> R {
    let which = g.pick(N);
    let n = g.upto(5, 9);
    let ls = dlits(g, n);
    let how = g.pick(3);
    let first = ls.iter().map(|l| l.vidx32() + 1).max().unwrap_or(0) + if g.exhaustive { 0 } else { g.pick(3) as u32 };
    g.note(format!("encoding {which} inputs {ls:?} first free x{first}"));
    let mut w = 0;
    let r = each(&ls, first, how, which, true, &mut w);
    g.work += w;
    r
}
fn am1_large(g: &mut Gen) -> R {
    let which = g.pick(N);
    let n = 10 + g.pick(40);
    let ls = dlits(g, n);
    let how = g.pick(3);
    let first = ls.iter().map(|l| l.vidx32() + 1).max().unwrap_or(0) + g.pick(3) as u32;
    g.note(format!("encoding {which} inputs {ls:?} first free x{first}"));
    let mut w = 0;
    let r = each(&ls, first, how, which, false, &mut w);
    g.work += w;
    r
}
#[allow(dead_code)]
fn _unused(_: Dyn) {}
