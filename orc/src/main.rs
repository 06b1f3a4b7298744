//! Contract oracle: executes the real functions of `rustsat` on generated inputs and checks the same
//! contracts the verifier is asked to prove. Used to find failing inputs (replays) and as the labelled
//! *bounded* stand-in where no unbounded proof is available.
mod core;
mod sat;
mod suites;
use crate::core::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::{
    atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
    Arc, Mutex,
};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Stat {
    cases: u64,
    work: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    samples: Vec<String>,
    exhausted: Option<bool>,
    exh_cases: u64,
}
struct Failure {
    suite: &'static str,
    exhaustive: bool,
    choices: Vec<u64>,
    key: String,
    msg: String,
    desc: String,
}
#[derive(Clone)]
struct Job {
    suite: Suite,
    exh: bool,
    from: u64,
    to: u64,
}
type Slot = Arc<Mutex<Option<(String, u64, std::time::Instant, Vec<u64>, bool)>>>;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let suites = suites::all();
    match args.get(1).map(String::as_str) {
        Some("list") => {
            for s in suites {
                println!("{} {} {} {} {} -- {}", s.prop, s.name, s.exh, s.quick, s.thorough, s.what);
            }
        }
        Some("replay") => {
            // replay SUITE CHOICES [exh]
            let s = *suites.iter().find(|s| s.name == args[2]).expect("suite");
            let ch: Vec<u64> = args[3].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let exh = args.get(4).map(String::as_str) == Some("exh");
            let seed = opt("--stream").map(|s| s.parse().unwrap());
            if seed.is_some() {
                crate::core::TRACE.store(true, Ordering::SeqCst);
            }
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut g = seed.map_or_else(|| Gen::fixed(ch, exh), Gen::random);
                let r = run_case(&s, &mut g);
                (g.desc, r)
            });
            let (d, r) = h.unwrap().join().unwrap();
            println!("case: {d}");
            match r {
                Ok(()) => println!("holds"),
                Err(f) => {
                    println!("FAILS [{}] {}", f.key, f.msg);
                    std::process::exit(1);
                }
            }
        }
        Some("selftest") => {
            // the oracle's own decision procedure against enumeration
            for seed in 0..20_000u64 {
                let mut g = Gen::random(seed);
                let n = 1 + g.pick(7);
                let m = g.pick(30);
                let cls: Vec<Vec<usize>> = (0..m).map(|_| { let k = 1 + g.pick(3); (0..k).map(|_| g.pick(2 * n)).collect() }).collect();
                let mut s = crate::sat::Sat::new(n, []);
                cls.iter().for_each(|c| s.add(c.clone()));
                for _ in 0..6 {
                    let a: Vec<usize> = (0..g.pick(4)).map(|_| g.pick(2 * n)).collect();
                    let ok = |x: usize, l: &usize| (x >> (l / 2) & 1 == 1) == (l % 2 == 0);
                    let want = (0..1usize << n).any(|x| a.iter().all(|l| ok(x, l)) && cls.iter().all(|c| c.iter().any(|l| ok(x, l))));
                    let got = s.solve_codes(&a);
                    assert_eq!(got.is_some(), want, "seed {seed} {cls:?} {a:?}");
                    if let Some(m) = got {
                        assert!(a.iter().chain([]).all(|l| m[l / 2] == (l % 2 == 0)));
                        assert!(cls.iter().all(|c| c.iter().any(|l| m[l / 2] == (l % 2 == 0))));
                    }
                }
            }
            println!("ok");
        }
        Some("run") => {
            let prop = args[2].clone();
            let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap_or(1));
            let thorough = opt("--tier").as_deref() == Some("thorough");
            let scale: f64 = opt("--scale").map_or(1.0, |s| s.parse().unwrap());
            let secs: u64 = opt("--secs").map_or(300, |s| s.parse().unwrap());
            let only = opt("--suite");
            let allfails = args.iter().any(|a| a == "--all");
            let out = opt("--out");
            let ignore: Vec<String> = opt("--ignore").map_or(vec![], |s| s.split(',').map(String::from).collect());
            run(&prop, &suites, seed, thorough, scale, secs, only, allfails, &ignore, out);
        }
        _ => {
            eprintln!("usage: orc list | run PROP ... | replay SUITE CHOICES [exh]");
            std::process::exit(2);
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn run(prop: &str, suites: &[Suite], seed: u64, thorough: bool, scale: f64, secs: u64, only: Option<String>, allfails: bool, ignore: &[String], out: Option<String>) {
    let t0 = std::time::Instant::now();
    let mine: Vec<Suite> = suites
        .iter()
        .filter(|s| (prop == "all" || s.prop == prop) && only.as_ref().is_none_or(|o| s.name == o))
        .copied()
        .collect();
    let mut jobs = vec![];
    for s in &mine {
        if s.exh > 0 {
            jobs.push(Job { suite: *s, exh: true, from: 0, to: if thorough { s.exh * 10 } else { s.exh } });
        }
    }
    for s in &mine {
        let n = ((if thorough { s.thorough } else { s.quick }) as f64 * scale) as u64;
        let chunk = (n / 24).max(16);
        let mut a = 0;
        while a < n {
            jobs.push(Job { suite: *s, exh: false, from: a, to: (a + chunk).min(n) });
            a += chunk;
        }
    }
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let expired = Arc::new(AtomicU64::new(0));
    let stats: Arc<Mutex<BTreeMap<&'static str, Stat>>> = Arc::default();
    let fails: Arc<Mutex<Vec<Failure>>> = Arc::default();
    let nthreads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let mut hs = vec![];
    let mut slots: Vec<Slot> = vec![];
    for _ in 0..nthreads {
        let slot: Slot = Arc::default();
        slots.push(slot.clone());
        let (jobs, next, stop, stats, fails, expired) = (jobs.clone(), next.clone(), stop.clone(), stats.clone(), fails.clone(), expired.clone());
        let ignore = ignore.to_vec();
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
            let j = next.fetch_add(1, Ordering::SeqCst);
            if j >= jobs.len() || stop.load(Ordering::SeqCst) {
                break;
            }
            let job = &jobs[j];
            let mut st = Stat::default();
            let mut prefix: Vec<u64> = vec![];
            let mut i = job.from;
            let base = hash(job.suite.name) ^ seed.wrapping_mul(0x2545_F491_4F6C_DD1D);
            while i < job.to {
                if t0.elapsed().as_secs() > secs {
                    expired.fetch_add(1, Ordering::SeqCst);
                    break;
                }
                if stop.load(Ordering::SeqCst) {
                    break;
                }
                let s64 = base.wrapping_add(i.wrapping_mul(0xD134_2543_DE82_EF95));
                let mut g = if job.exh { Gen::fixed(prefix.clone(), true) } else { Gen::random(s64) };
                *slot.lock().unwrap() = Some((job.suite.name.into(), s64, std::time::Instant::now(), prefix.clone(), job.exh));
                let r = run_case(&job.suite, &mut g);
                *slot.lock().unwrap() = None;
                st.cases += 1;
                st.work += g.work;
                let choices: Vec<u64> = g.taken.iter().map(|x| x.0).collect();
                if !g.trivial && !g.desc.is_empty() {
                    st.nontrivial += 1;
                    if st.seen.len() < 400_000 {
                        st.seen.insert(hash(&g.desc));
                    }
                    if st.samples.is_empty() && (i > job.from + 5) {
                        st.samples.push(g.desc.chars().take(600).collect());
                    }
                }
                if let Err(f) = r {
                    let id = format!("{}/{}", job.suite.name, f.key);
                    if !ignore.contains(&id) {
                        let known = fails.lock().unwrap().iter().filter(|x| x.suite == job.suite.name && x.key == f.key).count();
                        if known < 1 {
                            let c = shrink(&job.suite, &choices, job.exh, &f.key);
                            let mut g2 = Gen::fixed(c.clone(), job.exh);
                            let (c, f2, d) = match run_case(&job.suite, &mut g2) {
                                Err(f2) => (c, f2, g2.desc),
                                Ok(()) => (choices.clone(), f, g.desc.clone()),
                            };
                            fails.lock().unwrap().push(Failure { suite: job.suite.name, exhaustive: job.exh, choices: c, key: f2.key, msg: f2.msg, desc: d });
                        }
                        if !allfails {
                            stop.store(true, Ordering::SeqCst);
                        }
                    } else {
                        let mut fl = fails.lock().unwrap();
                        if !fl.iter().any(|x| x.suite == job.suite.name && x.key == f.key) {
                            fl.push(Failure { suite: job.suite.name, exhaustive: job.exh, choices: choices.clone(), key: f.key, msg: f.msg, desc: g.desc.clone() });
                        }
                    }
                }
                if job.exh {
                    // next choice sequence
                    let mut t = g.taken;
                    while let Some((x, n)) = t.last().copied() {
                        if x + 1 < n {
                            break;
                        }
                        t.pop();
                    }
                    if let Some(l) = t.last_mut() {
                        l.0 += 1;
                        prefix = t.iter().map(|x| x.0).collect();
                    } else {
                        st.exhausted = Some(true);
                        break;
                    }
                }
                i += 1;
            }
            let mut all = stats.lock().unwrap();
            let e = all.entry(job.suite.name).or_default();
            e.cases += st.cases;
            e.work += st.work;
            e.nontrivial += st.nontrivial;
            if e.seen.len() < 2_000_000 {
                e.seen.extend(st.seen);
            }
            if e.samples.len() < 2 {
                e.samples.extend(st.samples);
            }
            if job.exh {
                e.exhausted = Some(st.exhausted == Some(true));
                e.exh_cases = st.cases;
            }
        }).unwrap());
    }
    // watchdog: a case that does not end is a failure (non-termination)
    let hang = loop {
        if hs.iter().all(|h| h.is_finished()) {
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
        let mut h = None;
        for s in &slots {
            if let Some((n, s64, t, p, exh)) = &*s.lock().unwrap() {
                if t.elapsed().as_secs() > 60 {
                    h = Some((n.clone(), *s64, p.clone(), *exh));
                }
            }
        }
        if h.is_some() {
            break h;
        }
    };
    let mut fl = fails.lock().unwrap();
    if let Some((n, s64, p, exh)) = hang {
        let s = mine.iter().find(|s| s.name == n).unwrap();
        fl.push(Failure {
            suite: s.name,
            exhaustive: exh,
            choices: if exh { p } else { vec![] },
            key: "timeout".into(),
            msg: format!("case did not end within 60 s (stream seed {s64})"),
            desc: String::new(),
        });
    }
    let st = stats.lock().unwrap();
    let mut o = String::from("{\"suites\":[");
    for (k, (n, s)) in st.iter().enumerate() {
        let what = mine.iter().find(|x| x.name == *n).unwrap().what;
        o.push_str(&format!(
            "{}{{\"name\":{},\"what\":{},\"cases\":{},\"work\":{},\"nontrivial\":{},\"distinct\":{},\"exhaustive_cases\":{},\"exhausted\":{},\"samples\":[{}]}}",
            if k > 0 { "," } else { "" },
            esc(n),
            esc(what),
            s.cases,
            s.work,
            s.nontrivial,
            s.seen.len(),
            s.exh_cases,
            s.exhausted.map_or("null".to_string(), |b| b.to_string()),
            s.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        ));
    }
    o.push_str("],\"failures\":[");
    for (k, f) in fl.iter().enumerate() {
        o.push_str(&format!(
            "{}{{\"suite\":{},\"exh\":{},\"choices\":[{}],\"key\":{},\"msg\":{},\"case\":{}}}",
            if k > 0 { "," } else { "" },
            esc(f.suite),
            f.exhaustive,
            f.choices.iter().map(u64::to_string).collect::<Vec<_>>().join(","),
            esc(&f.key),
            esc(&f.msg),
            esc(&f.desc)
        ));
    }
    o.push_str(&format!("],\"expired\":{},\"wall_s\":{:.2}}}\n", expired.load(Ordering::SeqCst), t0.elapsed().as_secs_f64()));
    match out {
        Some(p) => std::fs::write(p, &o).unwrap(),
        None => print!("{o}"),
    }
    std::process::exit(i32::from(!fl.is_empty()));
}
