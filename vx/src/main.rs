//! vx: mechanical extraction of functions from /repo into a Verus file.
//!
//! usage: vx TEMPLATE REPO OUT.rs OUT.json [--canary] [--opaque id,id,...]
//!
//! See /verif/DESIGN.md ("Extraction") for the list of transformations.
use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod chain;
mod desugar;
mod find;
mod post;

pub struct Fail(pub String);
type R<T> = std::result::Result<T, Fail>;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub path: String,
    pub item: String,
    pub id: String,
    pub opts: HashMap<String, String>,
    pub spec: String,
    pub ret: Option<String>,
    pub loops: BTreeMap<usize, (HashMap<String, String>, String)>,
    pub closures: BTreeMap<usize, (HashMap<String, String>, String)>,
    pub ghosts: Vec<(String, String)>,
    pub renames: Vec<(String, String)>,
    pub subs: Vec<(String, String)>,
    pub macros: Vec<(String, Vec<String>, proc_macro2::TokenStream)>,
}

fn parse_opts(words: &[&str]) -> HashMap<String, String> {
    let mut m = HashMap::new();
    for w in words {
        if let Some((k, v)) = w.split_once('=') {
            m.insert(k.to_string(), v.to_string());
        } else {
            m.insert((*w).to_string(), "1".into());
        }
    }
    m
}

struct Ctx {
    repo: String,
    files: HashMap<String, File>,
    canary: bool,
    opaque: Vec<String>,
    assumed: Option<String>,
    report: Vec<serde_json::Value>,
    lost: Vec<serde_json::Value>,
    grenames: Vec<(String, String)>,
    only: Option<Vec<String>>,
    shard: Option<(usize, usize)>,
    nfn: usize,
}

impl Ctx {
    fn file(&mut self, p: &str) -> R<&File> {
        if !self.files.contains_key(p) {
            let full = format!("{}/{}", self.repo, p);
            let s = std::fs::read_to_string(&full).map_err(|e| Fail(format!("read {full}: {e}")))?;
            let f = syn::parse_file(&s).map_err(|e| Fail(format!("parse {full}: {e}")))?;
            self.files.insert(p.into(), f);
        }
        Ok(&self.files[p])
    }
}

fn expand(ctx: &mut Ctx, tpl: &str, dir: &str, out: &mut String) -> R<()> {
    let lines: Vec<&str> = tpl.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let t = lines[i].trim();
        if let Some(rest) = t.strip_prefix("//@include ") {
            // `//@include F [only=ID,ID] [assume=Pxx]`: with `only`, the other functions of F are left out;
            // with `assume`, the functions and lemmas of F are used through their contracts, which are proved under Pxx
            let mut w = rest.split_whitespace();
            let p = format!("{dir}/{}", w.next().unwrap().trim());
            let (old, olda) = (ctx.only.clone(), ctx.assumed.clone());
            for o in w {
                if let Some(o) = o.strip_prefix("only=") {
                    ctx.only = Some(o.split(',').map(|x| x.trim().to_string()).collect());
                } else if let Some(o) = o.strip_prefix("assume=") {
                    ctx.assumed = Some(o.to_string());
                } else {
                    panic!("bad include option {o}");
                }
            }
            let s = std::fs::read_to_string(&p).map_err(|e| Fail(format!("include {p}: {e}")))?;
            expand(ctx, &s, dir, out)?;
            ctx.only = old;
            ctx.assumed = olda;
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@grename ") {
            let (a, b) = rest.split_once("=>").unwrap();
            ctx.grenames.push((a.trim().into(), b.trim().into()));
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@struct ") {
            let w: Vec<&str> = rest.split_whitespace().collect();
            let derive = w.get(2).copied().unwrap_or("");
            let ctxr = ctx.grenames.clone();
            let res = ctx.file(w[0]).and_then(|f| find::find_type(f, w[1]));
            match res {
                Ok(mut it) => {
                    find::strip_item(&mut it);
                    desugar::rename_item(&mut it, &ctxr);
                    let mut txt = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![it] });
                    while let Some(r) = lines.get(i + 1).and_then(|l| l.trim().strip_prefix("//@sub ")) {
                        let (a, b) = r.split_once("==>").unwrap();
                        txt = regex::Regex::new(a.trim()).unwrap().replace_all(&txt, b.trim()).into_owned();
                        i += 1;
                    }
                    if !derive.is_empty() {
                        writeln!(out, "#[derive({})]", derive).unwrap();
                    }
                    out.push_str(&txt);
                }
                Err(e) => {
                    ctx.lost.push(json!({"item": format!("{}::{}", w[0], w[1]), "why": e.0}));
                }
            }
            i += 1;
        } else if let Some(rest) = t.strip_prefix("//@fn ") {
            let w: Vec<&str> = rest.split_whitespace().collect();
            let mut fs = FnSpec::default();
            fs.path = w[0].into();
            // item may contain spaces inside <...>: join until balanced
            let (item, used) = join_item(&w[1..]);
            fs.item = item;
            fs.opts = parse_opts(&w[1 + used..]);
            fs.id = fs
                .opts
                .get("id")
                .cloned()
                .unwrap_or_else(|| fs.item.clone());
            i += 1;
            let mut sect: Option<String> = Some("spec".into());
            let mut buf = String::new();
            let flush = |fs: &mut FnSpec, sect: &Option<String>, buf: &mut String| {
                if let Some(s) = sect {
                    let w: Vec<&str> = s.split_whitespace().collect();
                    match w[0] {
                        "spec" => fs.spec.push_str(buf),
                        "loop" => {
                            let k = w[1].parse().unwrap();
                            fs.loops.insert(k, (parse_opts(&w[2..]), buf.clone()));
                        }
                        "closure" => {
                            let k = w[1].parse().unwrap();
                            let o = {
                                let mut m = HashMap::new();
                                // ret=NAME:TYPE (rest of the line)
                                let r = w[2..].join(" ");
                                if !r.is_empty() {
                                    m.insert("ret".to_string(), r);
                                }
                                m
                            };
                            fs.closures.insert(k, (o, buf.clone()));
                        }
                        "ghost" => fs.ghosts.push((w[1..].join(" "), buf.clone())),
                        _ => panic!("bad section {s}"),
                    }
                }
                buf.clear();
            };
            loop {
                if i >= lines.len() {
                    return Err(Fail(format!("template: unterminated //@fn {}", fs.item)));
                }
                let t = lines[i].trim();
                if t == "//@end" {
                    flush(&mut fs, &sect, &mut buf);
                    break;
                } else if let Some(r) = t.strip_prefix("//@ret ") {
                    fs.ret = Some(r.trim().into());
                } else if let Some(r) = t.strip_prefix("//@rename ") {
                    let (a, b) = r.split_once("=>").unwrap();
                    fs.renames.push((a.trim().into(), b.trim().into()));
                } else if let Some(r) = t.strip_prefix("//@sub ") {
                    let (a, b) = r.split_once("==>").unwrap();
                    fs.subs.push((a.trim().into(), b.trim().into()));
                } else if let Some(r) = t.strip_prefix("//@sub? ") {
                    // applied if it matches
                    let (a, b) = r.split_once("==>").unwrap();
                    fs.subs.push((format!("{a}\u{1}").trim().into(), b.trim().into()));
                } else if let Some(r) = t.strip_prefix("//@") {
                    flush(&mut fs, &sect, &mut buf);
                    sect = Some(r.to_string());
                } else {
                    buf.push_str(lines[i]);
                    buf.push('\n');
                }
                i += 1;
            }
            i += 1;
            let mut all = ctx.grenames.clone();
            all.extend(fs.renames.clone());
            fs.renames = all;
            if !fs.item.starts_with('<') && ctx.only.as_ref().is_some_and(|o| !o.contains(&fs.id)) {
                continue;
            }
            let n = ctx.nfn;
            if ctx.assumed.is_none() {
                ctx.nfn += 1;
            }
            // sharding: only every N-th function is verified in this run, the others are used through their contracts
            let elsewhere = ctx.assumed.is_some() || ctx.shard.is_some_and(|(k, m)| n % m != k);
            let opaque = elsewhere || ctx.opaque.contains(&fs.id);
            let canary = ctx.canary;
            let found = ctx.file(&fs.path.clone()).and_then(|f| {
                fs.macros = desugar::file_macros(f);
                find::find_fn(f, &fs.item)
            });
            let (res, lost) = match found {
                Ok(f) => match desugar::process(f.clone(), &fs, canary, opaque) {
                    // anchors that no longer apply: undecided here, its callers still use the contract
                    Err(e) if !opaque => match desugar::process(f, &fs, false, true) {
                        Ok(x) => (Ok(x), Some(e)),
                        Err(_) => (Err(e), None),
                    },
                    r => (r, None),
                },
                Err(e) => (Err(e), None),
            };
            let opaque = opaque || lost.is_some();
            if let Some(e) = lost {
                ctx.lost.push(json!({"id": fs.id, "item": format!("{}::{}", fs.path, fs.item), "why": e.0}));
            }
            match res {
                Ok((txt, info)) => {
                    writeln!(out, "//VXBEGIN {}", fs.id).unwrap();
                    out.push_str(&txt);
                    if !txt.ends_with('\n') {
                        out.push('\n');
                    }
                    writeln!(out, "//VXEND {}", fs.id).unwrap();
                    ctx.report.push(json!({"id": fs.id, "file": fs.path, "item": fs.item,
                        "opaque": opaque, "elsewhere": elsewhere, "assumed": ctx.assumed, "info": info}));
                }
                Err(e) => ctx
                    .lost
                    .push(json!({"id": fs.id, "item": format!("{}::{}", fs.path, fs.item), "why": e.0})),
            }
        } else {
            // lemmas are verified in the run `--shard N/N` only
            if (ctx.assumed.is_some() || ctx.shard.is_some_and(|(k, n)| k < n)) && is_lemma(lines[i]) {
                out.push_str("#[verifier::external_body]\n");
            }
            out.push_str(lines[i]);
            out.push('\n');
            i += 1;
        }
    }
    Ok(())
}

fn is_lemma(l: &str) -> bool {
    let l = l.strip_prefix("pub ").unwrap_or(l);
    let l = l.strip_prefix("broadcast ").unwrap_or(l);
    l.starts_with("proof fn ")
}

fn join_item(w: &[&str]) -> (String, usize) {
    let mut s = String::new();
    let mut depth = 0i32;
    for (k, x) in w.iter().enumerate() {
        if k > 0 {
            s.push(' ');
        }
        s.push_str(x);
        for c in x.chars() {
            match c {
                '<' => depth += 1,
                '>' => depth -= 1,
                _ => {}
            }
        }
        if depth <= 0 {
            return (s, k + 1);
        }
    }
    let n = w.len();
    (s, n)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vx TEMPLATE REPO OUT.rs OUT.json [--canary] [--opaque ids] [--shard K/N]");
        std::process::exit(2);
    }
    let mut ctx = Ctx {
        repo: a[2].clone(),
        files: HashMap::new(),
        assumed: None,
        canary: a.iter().any(|x| x == "--canary"),
        opaque: a
            .iter()
            .position(|x| x == "--opaque")
            .map(|p| a[p + 1].split(',').map(str::to_string).collect())
            .unwrap_or_default(),
        report: vec![],
        lost: vec![],
        grenames: vec![],
        only: None,
        nfn: 0,
        shard: a.iter().position(|x| x == "--shard").map(|p| {
            let (k, n) = a[p + 1].split_once('/').expect("--shard K/N");
            (k.parse().unwrap(), n.parse().unwrap())
        }),
    };
    let tpl = std::fs::read_to_string(&a[1]).expect("template");
    let dir = std::path::Path::new(&a[1]).parent().unwrap().to_str().unwrap().to_string();
    let mut out = String::new();
    if let Err(e) = expand(&mut ctx, &tpl, &dir, &mut out) {
        ctx.lost.push(json!({"item": "template", "why": e.0}));
    }
    // line ranges
    let mut ranges = HashMap::new();
    let mut open: Vec<(String, usize)> = vec![];
    for (n, l) in out.lines().enumerate() {
        let t = l.trim();
        if let Some(id) = t.strip_prefix("//VXBEGIN ") {
            open.push((id.into(), n + 1));
        } else if t.strip_prefix("//VXEND ").is_some() {
            let (id, s) = open.pop().unwrap();
            ranges.insert(id, (s, n + 1));
        }
    }
    for r in &mut ctx.report {
        let id = r["id"].as_str().unwrap().to_string();
        if let Some((s, e)) = ranges.get(&id) {
            r["start"] = json!(s);
            r["end"] = json!(e);
        }
    }
    std::fs::write(&a[3], &out).expect("write out");
    std::fs::write(
        &a[4],
        serde_json::to_string_pretty(&json!({"functions": ctx.report, "lost": ctx.lost})).unwrap(),
    )
    .expect("write json");
}

#[allow(unused)]
pub fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
#[allow(unused)]
struct Dummy;
impl VisitMut for Dummy {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
    }
}
