//! P12: variable managers over operation histories
use crate::core::*;
use crate::{ck, ck_eq};
use rustsat::instances::*;
use rustsat::types::*;
use std::collections::{BTreeMap, BTreeSet};
pub fn suites() -> Vec<Suite> {
    vec![
        super::s("P12", "vm_hist", "operation histories on every variable manager against a model", hist, 60_000, 60_000, 2_000_000),
        super::s("P12", "vm_rand", "random re-indexing is a bijection with its reverse", rnd, 40, 400, 4_000),
    ]
}
#[derive(Default)]
struct Model {
    /// handed out or inherited and not forgotten
    used: BTreeSet<u32>,
    next: u32,
}
fn v(i: u32) -> Var {
    Var::new(i)
}
fn fresh(m: &mut Model, x: Var) -> R {
    let i = x.idx32();
    ck!(!m.used.contains(&i), "fresh", "new variable {x} was handed out or reserved before");
    ck!(i >= m.next, "above", "new variable {x} lies below the next free variable x{}", m.next);
    ck_eq!(i, m.next, "tight", "new variable is not the next free one");
    m.used.insert(i);
    m.next = i + 1;
    Ok(())
}
fn obs<M: ManageVars>(g: &mut Gen, vm: &M, m: &Model) -> R {
    ck_eq!(vm.n_used(), m.next, "n-used", "reported number of used variables");
    ck_eq!(vm.max_var().map(Var::idx32), m.next.checked_sub(1), "max-var", "reported largest variable");
    g.work += 1;
    Ok(())
}
fn forget(m: &mut Model, k: u32) {
    m.used.retain(|x| *x < k);
    m.next = m.next.min(k);
}
enum Kind {
    Basic(BasicVarManager),
    Obj(ObjectVarManager),
    Re(ReindexingVarManager),
}
macro_rules! on { ($k:expr, $x:ident => $e:expr) => { match $k { Kind::Basic($x) => $e, Kind::Obj($x) => $e, Kind::Re($x) => $e } }; }
fn hist(g: &mut Gen) -> R {
    let kind = g.pick(3);
    let start = if g.flip() { Some(g.upto(2, 6) as u32) } else { None };
    let mk = |n: Option<u32>| match (kind, n) {
        (0, None) => Kind::Basic(BasicVarManager::default()),
        (0, Some(n)) => Kind::Basic(BasicVarManager::from_next_free(v(n))),
        (1, None) => Kind::Obj(ObjectVarManager::default()),
        (1, Some(n)) => Kind::Obj(ObjectVarManager::from_next_free(v(n))),
        (_, None) => Kind::Re(ReindexingVarManager::default()),
        (_, Some(n)) => Kind::Re(ReindexingVarManager::from_next_free(v(n))),
    };
    let mut vm = mk(start);
    let mut m = Model { next: start.unwrap_or(0), ..Default::default() };
    g.note(format!("{} from {start:?}", ["BasicVarManager", "ObjectVarManager", "ReindexingVarManager"][kind]));
    // object / in variable -> variable
    let mut objs: BTreeMap<(u8, u32), u32> = BTreeMap::new();
    if let (2, Some(n)) = (kind, start) {
        objs.extend((0..n).map(|i| ((0, i), i)));
    }
    on!(&vm, x => obs(g, x, &m))?;
    let steps = 1 + g.upto(3, 14);
    for _ in 0..steps {
        match g.pick(if kind == 0 { 5 } else { 9 }) {
            0 => {
                let x = on!(&mut vm, x => x.new_var());
                g.note(format!("new_var = {x}"));
                fresh(&mut m, x)?;
            }
            1 => {
                let x = on!(&mut vm, x => x.new_lit());
                g.note(format!("new_lit = {x}"));
                ck!(x.is_pos(), "new-lit", "new literal is negative");
                fresh(&mut m, x.var())?;
            }
            2 => {
                let k = g.upto(3, 12) as u32;
                let mark = g.flip();
                g.note(format!("{}({k})", if mark { "mark_used" } else { "increase_next_free" }));
                let r = on!(&mut vm, x => if mark { x.mark_used(v(k)) } else { x.increase_next_free(v(k)) });
                let to = k + u32::from(mark);
                ck_eq!(r, to > m.next, "increase", "reported whether the next free index was increased");
                m.next = m.next.max(to);
                if mark {
                    m.used.insert(k);
                }
            }
            3 => {
                let k = g.upto(3, 8) as u32;
                g.note(format!("forget_from({k})"));
                on!(&mut vm, x => x.forget_from(v(k)));
                forget(&mut m, k);
                objs.retain(|_, x| *x < k);
            }
            4 => {
                let n = g.upto(2, 10) as u32;
                let mut o = mk(if n == 0 { None } else { Some(n) });
                let mut on_ = n;
                if kind == 2 {
                    // only an own mapping that cannot collide: everything mapped lies above
                    o = Kind::Re(ReindexingVarManager::default());
                    on_ = 0;
                    if let Kind::Re(r) = &mut o {
                        r.increase_next_free(v(m.next));
                        on_ = m.next;
                        for k in 0..n {
                            let inv = 100 + k + 10 * m.next;
                            let x = r.reindex(v(inv));
                            on_ = x.idx32() + 1;
                            objs.insert((0, inv), x.idx32());
                        }
                    }
                } else if kind == 1 {
                    o = Kind::Obj(ObjectVarManager::from_next_free(v(m.next + n)));
                    on_ = m.next + n;
                    if let (Kind::Obj(r), true) = (&mut o, n > 0) {
                        let x = r.object_var(50u32 + m.next);
                        on_ += 1;
                        objs.insert((0, 50 + m.next), x.idx32());
                    }
                }
                g.note(format!("combine(next free {on_})"));
                match (&mut vm, o) {
                    (Kind::Basic(a), Kind::Basic(b)) => a.combine(b),
                    (Kind::Obj(a), Kind::Obj(b)) => a.combine(b),
                    (Kind::Re(a), Kind::Re(b)) => a.combine(b),
                    _ => unreachable!(),
                }
                m.next = m.next.max(on_);
            }
            c => {
                let id = g.upto(2, 5) as u32;
                let (key, x) = match &mut vm {
                    Kind::Re(r) => ((0, id), if c < 7 { r.reindex(v(id)) } else { let n = g.flip(); let l = r.reindex_lit(v(id).lit(n)); ck_eq!(l.is_neg(), n, "sign", "sign changed by reindex_lit"); l.var() }),
                    // equal values of different types are different objects
                    Kind::Obj(o) => match c {
                        5 | 6 => ((0, id), o.object_var(id)),
                        7 => ((1, id), o.object_var(i64::from(id))),
                        _ => ((2, id), o.object_var(format!("{id}"))),
                    },
                    Kind::Basic(_) => unreachable!(),
                };
                g.note(format!("object {key:?} = {x}"));
                if let Some(w) = objs.get(&key) {
                    ck_eq!(x.idx32(), *w, "stable", "same object, different variable");
                } else {
                    fresh(&mut m, x)?;
                    ck!(!objs.values().any(|w| *w == x.idx32()), "distinct", "different objects got the same variable {x}");
                    objs.insert(key, x.idx32());
                }
            }
        }
        on!(&vm, x => obs(g, x, &m))?;
        if let Kind::Re(r) = &mut vm {
            for ((_, i), o) in &objs {
                ck_eq!(r.reverse(v(*o)), Some(v(*i)), "reverse", "reverse of {} that x{i} was mapped to", v(*o));
                let l = v(*o).neg_lit();
                ck_eq!(r.reverse_lit(l), Some(v(*i).neg_lit()), "reverse-lit", "reverse of a literal");
            }
            for o in 0..m.next + 2 {
                if !objs.values().any(|w| *w == o) {
                    ck_eq!(r.reverse(v(o)), None, "reverse-none", "reverse of x{o} that nothing was mapped to");
                }
            }
        }
    }
    // every object is still mapped as recorded
    for ((t, i), w) in objs.clone() {
        let x = match &mut vm {
            Kind::Re(r) => r.reindex(v(i)),
            Kind::Obj(o) => match t { 0 => o.object_var(i), 1 => o.object_var(i64::from(i)), _ => o.object_var(format!("{i}")) },
            Kind::Basic(_) => continue,
        };
        ck_eq!(x.idx32(), w, "stable", "object {t}/{i} at the end of the history");
    }
    Ok(())
}
fn rnd(g: &mut Gen) -> R {
    let n = g.upto(20, 200) as u32;
    g.note(format!("RandReindVarManager::init({n})"));
    let mut r = RandReindVarManager::init(n);
    ck_eq!(r.n_used(), n, "n-used", "used variables");
    let mut seen = BTreeSet::new();
    for i in 0..n + 5 {
        let o = r.reindex(v(i));
        ck!(seen.insert(o), "distinct", "two variables mapped to {o}");
        ck!(i >= n || o.idx32() < n, "range", "x{i} mapped to {o}");
        ck_eq!(r.reverse(o), Some(v(i)), "reverse", "reverse");
        ck_eq!(r.reindex(v(i)), o, "stable", "mapped twice");
        g.work += 1;
    }
    let mut m = Model { next: n, ..Default::default() };
    obs(g, &r, &m)?;
    for _ in 0..1 + g.upto(3, 8) {
        match g.pick(5) {
            0 | 1 => {
                let x = r.new_var();
                g.note(format!("new_var = {x}"));
                fresh(&mut m, x)?;
            }
            2 => {
                let k = g.upto(20, 2 * n as usize + 4) as u32;
                let mark = g.flip();
                g.note(format!("{}({k})", if mark { "mark_used" } else { "increase_next_free" }));
                let to = k + u32::from(mark);
                ck_eq!(if mark { r.mark_used(v(k)) } else { r.increase_next_free(v(k)) }, to > m.next, "increase", "reported whether the next free index was increased");
                m.next = m.next.max(to);
            }
            3 => {
                let k = n + g.upto(3, 8) as u32;
                g.note(format!("forget_from({k})"));
                r.forget_from(v(k));
                forget(&mut m, k);
            }
            _ => {
                let k = g.upto(20, 2 * n as usize + 4) as u32;
                g.note(format!("combine(init({k}))"));
                r.combine(RandReindVarManager::init(k));
                m.next = m.next.max(k);
            }
        }
        obs(g, &r, &m)?;
    }
    Ok(())
}
