//! A small complete SAT procedure (unit propagation + clause learning), independent of rustsat.
use rustsat::types::{Clause, Lit};

pub struct Sat {
    pub clauses: Vec<Vec<usize>>, // literal codes 2v+sign
    watch: Vec<Vec<usize>>,
    units: Vec<usize>,
    empty: bool,
    pub nvars: usize,
    act: Vec<f64>,
    inc: f64,
}
fn code(l: Lit) -> usize {
    2 * l.vidx() + usize::from(l.is_neg())
}
impl Sat {
    pub fn new<'a>(nvars: usize, cls: impl IntoIterator<Item = &'a Clause>) -> Sat {
        let mut s = Sat { clauses: vec![], watch: vec![vec![]; 2 * nvars], units: vec![], empty: false, nvars, act: vec![], inc: 1.0 };
        for c in cls {
            s.add(c.iter().map(|&l| code(l)).collect());
        }
        s
    }
    pub fn add(&mut self, mut c: Vec<usize>) {
        c.sort_unstable();
        c.dedup();
        if c.windows(2).any(|w| w[0] ^ 1 == w[1]) {
            return;
        }
        if let Some(&m) = c.last() {
            if m / 2 >= self.nvars {
                self.nvars = m / 2 + 1;
                self.watch.resize(2 * self.nvars, vec![]);
            }
        }
        match c.len() {
            0 => self.empty = true,
            1 => self.units.push(c[0]),
            _ => {
                let i = self.clauses.len();
                self.watch[c[0]].push(i);
                self.watch[c[1]].push(i);
                self.clauses.push(c);
            }
        }
    }
    pub fn solve(&mut self, assumps: &[Lit]) -> bool {
        self.solve_codes(&assumps.iter().map(|&l| code(l)).collect::<Vec<_>>()).is_some()
    }
    /// conflict-driven clause learning; assumptions are the first decisions, so learnt clauses stay valid
    pub fn solve_codes(&mut self, assumps: &[usize]) -> Option<Vec<bool>> {
        if self.empty {
            return None;
        }
        for &a in assumps {
            if a / 2 >= self.nvars {
                self.nvars = a / 2 + 1;
                self.watch.resize(2 * self.nvars, vec![]);
            }
        }
        let n = self.nvars;
        self.act.resize(n, 0.0);
        let mut st = St { val: vec![0u8; 2 * n], trail: vec![], lim: vec![], why: vec![usize::MAX; n], lvl: vec![0; n], q: 0 };
        for k in 0..self.units.len() {
            if !st.set(self.units[k], usize::MAX) {
                return None;
            }
        }
        let mut seen = vec![false; n];
        loop {
            if let Some(confl) = self.propagate(&mut st) {
                if st.lim.is_empty() {
                    self.empty = true;
                    return None;
                }
                // first unique implication point
                let (mut learnt, mut open, mut at, mut ci) = (vec![0usize], 0usize, st.trail.len(), confl);
                let cur = st.lim.len();
                loop {
                    let from = usize::from(ci != confl);
                    for k in from..self.clauses[ci].len() {
                        let v = self.clauses[ci][k] / 2;
                        if !seen[v] && st.lvl[v] > 0 {
                            seen[v] = true;
                            self.act[v] += self.inc;
                            if st.lvl[v] == cur {
                                open += 1;
                            } else {
                                learnt.push(self.clauses[ci][k]);
                            }
                        }
                    }
                    loop {
                        at -= 1;
                        if seen[st.trail[at] / 2] {
                            break;
                        }
                    }
                    open -= 1;
                    let l = st.trail[at];
                    seen[l / 2] = false;
                    if open == 0 {
                        learnt[0] = l ^ 1;
                        break;
                    }
                    ci = st.why[l / 2];
                }
                for l in &learnt {
                    seen[l / 2] = false;
                }
                self.inc *= 1.05;
                if self.inc > 1e100 {
                    self.act.iter_mut().for_each(|a| *a *= 1e-100);
                    self.inc *= 1e-100;
                }
                let mut back = 0;
                for k in 1..learnt.len() {
                    if st.lvl[learnt[k] / 2] > back {
                        back = st.lvl[learnt[k] / 2];
                        learnt.swap(1, k);
                    }
                }
                st.undo(back);
                let l = learnt[0];
                if learnt.len() == 1 {
                    self.units.push(l);
                    if !st.set(l, usize::MAX) {
                        self.empty = true;
                        return None;
                    }
                } else {
                    let ci = self.clauses.len();
                    self.watch[learnt[0]].push(ci);
                    self.watch[learnt[1]].push(ci);
                    self.clauses.push(learnt);
                    st.set(l, ci);
                }
                continue;
            }
            let k = st.lim.len();
            let d = if k < assumps.len() {
                if st.val[assumps[k]] == 2 {
                    return None;
                }
                assumps[k]
            } else {
                let mut best = usize::MAX;
                for v in 0..n {
                    if st.val[2 * v] == 0 && (best == usize::MAX || self.act[v] > self.act[best]) {
                        best = v;
                    }
                }
                if best == usize::MAX {
                    return Some((0..n).map(|v| st.val[2 * v] == 1).collect());
                }
                2 * best + 1
            };
            st.lim.push(st.trail.len());
            st.set(d, usize::MAX);
        }
    }
    fn propagate(&mut self, st: &mut St) -> Option<usize> {
        while st.q < st.trail.len() {
            let l = st.trail[st.q] ^ 1;
            st.q += 1;
            let mut ws = std::mem::take(&mut self.watch[l]);
            let (mut k, mut keep) = (0, 0);
            let mut confl = None;
            while k < ws.len() {
                let ci = ws[k];
                k += 1;
                let c = &mut self.clauses[ci];
                if c[0] == l {
                    c.swap(0, 1);
                }
                let other = c[0];
                if st.val[other] == 1 {
                    ws[keep] = ci;
                    keep += 1;
                    continue;
                }
                if let Some(j) = (2..c.len()).find(|&j| st.val[c[j]] != 2) {
                    c.swap(1, j);
                    let w = c[1];
                    self.watch[w].push(ci);
                    continue;
                }
                ws[keep] = ci;
                keep += 1;
                if !st.set(other, ci) {
                    while k < ws.len() {
                        ws[keep] = ws[k];
                        keep += 1;
                        k += 1;
                    }
                    confl = Some(ci);
                }
            }
            ws.truncate(keep);
            self.watch[l] = ws;
            if confl.is_some() {
                return confl;
            }
        }
        None
    }
}
struct St {
    val: Vec<u8>, // per literal code: 0 unassigned, 1 true, 2 false
    trail: Vec<usize>,
    lim: Vec<usize>,
    why: Vec<usize>,
    lvl: Vec<usize>,
    q: usize,
}
impl St {
    fn set(&mut self, l: usize, why: usize) -> bool {
        match self.val[l] {
            1 => true,
            2 => false,
            _ => {
                self.val[l] = 1;
                self.val[l ^ 1] = 2;
                self.why[l / 2] = why;
                self.lvl[l / 2] = self.lim.len();
                self.trail.push(l);
                true
            }
        }
    }
    fn undo(&mut self, to: usize) {
        if self.lim.len() > to {
            let n = self.lim[to];
            for &l in &self.trail[n..] {
                self.val[l] = 0;
                self.val[l ^ 1] = 0;
            }
            self.trail.truncate(n);
            self.lim.truncate(to);
            self.q = n;
        }
    }
}
