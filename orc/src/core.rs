//! Case generation, shrinking and reporting shared by all suites.
use std::cell::RefCell;
use std::fmt::Write as _;

pub struct SplitMix(pub u64);
impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

enum Mode {
    Random(SplitMix),
    /// fixed prefix, zeros afterwards
    Fixed,
}

/// A source of choices: every case is fully determined by its choice sequence
pub struct Gen {
    mode: Mode,
    prefix: Vec<u64>,
    pub taken: Vec<(u64, u64)>,
    pub exhaustive: bool,
    pub desc: String,
    /// extra work performed within the case (e.g. solver queries)
    pub work: u64,
    /// marks the case as trivial
    pub trivial: bool,
}

impl Gen {
    pub fn random(seed: u64) -> Gen {
        Gen { mode: Mode::Random(SplitMix(seed)), prefix: vec![], taken: vec![], exhaustive: false, desc: String::new(), work: 0, trivial: false }
    }
    pub fn fixed(prefix: Vec<u64>, exhaustive: bool) -> Gen {
        Gen { mode: Mode::Fixed, prefix, taken: vec![], exhaustive, desc: String::new(), work: 0, trivial: false }
    }
    /// a number below `n`
    pub fn pick(&mut self, n: usize) -> usize {
        self.pick64(n as u64) as usize
    }
    pub fn pick64(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let i = self.taken.len();
        let x = match &mut self.mode {
            Mode::Random(r) => r.next() % n,
            Mode::Fixed => self.prefix.get(i).copied().unwrap_or(0) % n,
        };
        self.taken.push((x, n));
        x
    }
    /// any u32 (only in random mode sensibly)
    pub fn any32(&mut self) -> u32 {
        self.pick64(1 << 32) as u32
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.pick64((hi - lo + 1) as u64) as i64
    }
    pub fn flip(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        // 0 is the "unlikely" outcome last so that shrinking tends to the common case
        self.pick(den) >= den - num
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.pick(xs.len())].clone()
    }
    /// size: `small` in exhaustive mode, `big` in random mode
    pub fn upto(&mut self, small: usize, big: usize) -> usize {
        let n = if self.exhaustive { small } else { big };
        self.pick(n + 1)
    }
    pub fn lim(&self, small: usize, big: usize) -> usize {
        if self.exhaustive { small } else { big }
    }
    pub fn note(&mut self, s: impl std::fmt::Display) {
        if TRACE.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("{s};");
        }
        if self.desc.len() < 6000 {
            let _ = write!(self.desc, "{s}; ");
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - self.pick(i + 1);
            v.swap(i, j);
        }
        v
    }
}

/// print the notes of a case as they are made (for cases that do not end)
pub static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(key: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $key:expr, $($a:tt)*) => {
        if !($c) { return $crate::core::fail($key, format!($($a)*)); }
    };
}
#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr, $key:expr, $($r:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return $crate::core::fail($key, format!("{}: got {:?}, expected {:?}", format!($($r)*), a, b)); }
    }};
}

thread_local! {
    pub static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {m}")));
    }));
}
/// runs a call that may panic as documented; `Err(message)` if it panicked
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

pub type SuiteFn = fn(&mut Gen) -> R;
#[derive(Clone, Copy)]
pub struct Suite {
    pub prop: &'static str,
    pub name: &'static str,
    pub what: &'static str,
    pub run: SuiteFn,
    /// cap on exhaustively enumerated cases (0: none)
    pub exh: u64,
    /// random cases: quick, thorough
    pub quick: u64,
    pub thorough: u64,
}

pub fn run_case(s: &Suite, g: &mut Gen) -> R {
    match may_panic(|| (s.run)(g)) {
        Ok(r) => r,
        Err(m) => Err(Fail { key: "panic".into(), msg: format!("unexpected panic: {m}") }),
    }
}

/// greedy shrinking of a failing choice sequence; keeps the failure key
pub fn shrink(s: &Suite, choices: &[u64], exhaustive: bool, key: &str) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let mut best = choices.to_vec();
    let test = |c: &Vec<u64>| -> bool {
        let mut g = Gen::fixed(c.clone(), exhaustive);
        matches!(run_case(s, &mut g), Err(f) if f.key == key)
    };
    let mut improved = true;
    while improved && t0.elapsed().as_secs_f64() < 3.0 {
        improved = false;
        let mut len = best.len() / 2;
        while len >= 1 {
            let mut i = 0;
            while i + len <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + len);
                if test(&c) {
                    best = c;
                    improved = true;
                } else {
                    i += len;
                }
                if t0.elapsed().as_secs_f64() > 4.0 {
                    return best;
                }
            }
            len /= 2;
        }
        for i in 0..best.len() {
            for cand in [0, 1, best[i] / 2, best[i].saturating_sub(1)] {
                if cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    if test(&c) {
                        best = c;
                        improved = true;
                        break;
                    }
                }
            }
            if t0.elapsed().as_secs_f64() > 4.0 {
                return best;
            }
        }
    }
    best
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}
