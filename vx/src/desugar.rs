//! AST level, syntax directed transformations and marker insertion.
use crate::{post, toks, Fail, FnSpec, R};
use serde_json::json;
use std::collections::HashMap;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Rust closures borrow syn types awkwardly; this struct carries the state of one function.
pub struct D<'a> {
    fs: &'a FnSpec,
    pub ctr: usize,
    err: Option<String>,
    pub used: Vec<String>,
    pub ncollect: usize,
    nacc: usize,
}

pub fn rename_item(it: &mut Item, rn: &[(String, String)]) {
    let mut r = Ren { rn };
    r.visit_item_mut(it);
}

struct Ren<'a> {
    rn: &'a [(String, String)],
}
fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
impl VisitMut for Ren<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // flatten crate/super/self module prefixes
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if ["crate", "super", "self"].contains(&first.as_str()) && p.segments.len() > 1 {
            let mut k = p.segments.len() - 1;
            for (i, s) in p.segments.iter().enumerate() {
                if s.ident.to_string().starts_with(char::is_uppercase) {
                    k = i;
                    break;
                }
            }
            p.segments = p.segments.iter().skip(k).cloned().collect();
        }
        let s = path_str(p);
        for (a, b) in self.rn {
            if a.starts_with('.') {
                continue;
            }
            if *a == s {
                let args = p.segments.last().unwrap().arguments.clone();
                let mut np: Path = parse_str(b).expect("rename target");
                if np.segments.last().unwrap().arguments.is_none() {
                    np.segments.last_mut().unwrap().arguments = args;
                }
                *p = np;
                return;
            } else if s.starts_with(&format!("{a}::")) {
                // prefix rename: Type::assoc
                let n = a.split("::").count();
                let np: Path = parse_str(b).expect("rename target");
                let mut segs: Punctuated<PathSegment, Token![::]> = np.segments;
                for x in p.segments.iter().skip(n) {
                    segs.push(x.clone());
                }
                p.segments = segs;
                return;
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // method call to a free function taking the receiver first: `.m => f`, `.m => &mut f`
        if let Expr::MethodCall(m) = e {
            let s = format!(".{}", m.method);
            for (a, b) in self.rn {
                if *a == s && !b.starts_with('.') {
                    let f: Path = parse_str(b.trim_start_matches("&mut ").trim_start_matches('&')).expect("rename target");
                    let recv = &m.receiver;
                    let args = m.args.iter();
                    *e = if b.starts_with("&mut ") {
                        parse_quote!(#f(&mut #recv #(, #args)*))
                    } else if b.starts_with('&') {
                        parse_quote!(#f(&#recv #(, #args)*))
                    } else {
                        parse_quote!(#f(#recv #(, #args)*))
                    };
                    return;
                }
            }
        }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        let s = format!(".{}", m.method);
        for (a, b) in self.rn {
            if *a == s && b.starts_with('.') {
                m.method = Ident::new(b.trim_start_matches('.'), m.method.span());
                return;
            }
        }
    }
}

pub fn pat_simple(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.subpat.is_none() && i.by_ref.is_none(),
        Pat::Wild(_) => true,
        Pat::Type(t) => pat_simple(&t.pat),
        _ => false,
    }
}
fn pat_has_ref(p: &Pat) -> bool {
    match p {
        Pat::Reference(_) => true,
        Pat::Tuple(t) => t.elems.iter().any(pat_has_ref),
        Pat::Paren(p) => pat_has_ref(&p.pat),
        Pat::Type(t) => pat_has_ref(&t.pat),
        Pat::TupleStruct(t) => t.elems.iter().any(pat_has_ref),
        _ => false,
    }
}
pub fn bind(p: &Pat, e: Expr, out: &mut Vec<Stmt>) {
    match p {
        Pat::Wild(_) => {}
        Pat::Ident(i) if i.subpat.is_none() => {
            let m = &i.mutability;
            let id = &i.ident;
            out.push(parse_quote!(let #m #id = #e;));
        }
        Pat::Reference(r) => bind(&r.pat, parse_quote!((*#e)), out),
        Pat::Paren(r) => bind(&r.pat, e, out),
        Pat::Type(t) => {
            if pat_simple(&t.pat) {
                let (pt, ty) = (&t.pat, &t.ty);
                out.push(parse_quote!(let #pt: #ty = #e;));
            } else {
                bind(&t.pat, e, out);
            }
        }
        Pat::Tuple(t) => {
            for (i, x) in t.elems.iter().enumerate() {
                let ix = Index::from(i);
                bind(x, parse_quote!(#e.#ix), out);
            }
        }
        o => out.push(parse_quote!(let #o = #e;)),
    }
}

struct Args(Punctuated<Expr, Token![,]>);
impl syn::parse::Parse for Args {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        Ok(Args(Punctuated::parse_terminated(i)?))
    }
}

impl D<'_> {
    pub fn fresh(&mut self, base: &str) -> Ident {
        self.ctr += 1;
        Ident::new(&format!("vx_{base}{}", self.ctr), proc_macro2::Span::call_site())
    }
    /// accumulators are numbered separately, so that invariants can name them
    pub fn acc(&mut self, base: &str) -> Ident {
        let k = self.nacc;
        self.nacc += 1;
        Ident::new(&format!("vx_{base}{k}"), proc_macro2::Span::call_site())
    }
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.fs.opts.get(k).map(String::as_str)
    }
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || parse2::<Args>(m.tokens.clone()).ok().map(|a| a.0.into_iter().collect::<Vec<_>>());
        let assertfn: Expr = match self.opt("assert") {
            Some("assume") => parse_quote!(vx_expect),
            _ => parse_quote!(vx_assert),
        };
        // debug assertions are always obligations, documented `assert!` panics may be allowed
        let dbg: Expr = match self.opt("debug_assert") {
            Some("assume") => parse_quote!(vx_expect),
            _ => parse_quote!(vx_assert),
        };
        Some(match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args()?;
                let f = if name == "assert" { assertfn } else { dbg };
                let c = &a[0];
                parse_quote!(#f(#c))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args()?;
                let f = if name == "assert_eq" { assertfn } else { dbg };
                let (x, y) = (&a[0], &a[1]);
                parse_quote!(#f(#x == #y))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args()?;
                let f = if name == "assert_ne" { assertfn } else { dbg };
                let (x, y) = (&a[0], &a[1]);
                parse_quote!(#f(#x != #y))
            }
            "unreachable" => parse_quote!(vx_unreachable()),
            "panic" | "todo" | "unimplemented" => {
                if self.opt("panic") == Some("allowed") {
                    parse_quote!(vx_diverge())
                } else {
                    parse_quote!(vx_unreachable())
                }
            }
            "unreachable_err" => {
                let a = args()?;
                let e = &a[0];
                parse_quote!(match #e { Ok(vx_v) => vx_v, Err(_) => vx_unreachable() })
            }
            "unreachable_none" => {
                let a = args()?;
                let e = &a[0];
                parse_quote!(match #e { Some(vx_v) => vx_v, None => vx_unreachable() })
            }
            "var" => {
                let a = args()?;
                let e = &a[0];
                parse_quote!(Var::new(#e))
            }
            "lit" => {
                let a = args()?;
                let e = &a[0];
                parse_quote!(Lit::positive(#e))
            }
            "clause" => {
                let a = args()?;
                let tmp = Ident::new("tmp_clause", proc_macro2::Span::call_site());
                let adds = a.iter().map(|e| -> Stmt { parse_quote!(#tmp.add(#e);) });
                if a.is_empty() {
                    parse_quote!(Clause::new())
                } else {
                    parse_quote!({ let mut #tmp = Clause::new(); #(#adds)* #tmp })
                }
            }
            // the elements may contain macros of the crate
            "vec" if m.tokens.to_string().contains("clause !") => {
                let mut a = args()?;
                for e in a.iter_mut() {
                    self.visit_expr_mut(e);
                }
                parse_quote!(vec![#(#a),*])
            }
            _ => {
                // macros of the source file with a single arm
                let (_, params, body) = self.fs.macros.iter().find(|x| x.0 == name)?;
                let a = args()?;
                if a.len() != params.len() {
                    return None;
                }
                let map: Vec<(String, proc_macro2::TokenStream)> = params.iter().cloned().zip(a.iter().map(|e| quote::quote!(#e))).collect();
                return parse2(subst_macro(body.clone(), &map)).ok();
            }
        })
    }
    fn fix_closure(&mut self, c: &mut ExprClosure) {
        let mut pre: Vec<Stmt> = vec![];
        for p in c.inputs.iter_mut() {
            // `mut x` parameters become `vx_x`, copied into a local: contracts speak about `vx_x`
            let inner = if let Pat::Type(t) = &*p { (*t.pat).clone() } else { p.clone() };
            if let Pat::Ident(i) = &inner {
                if i.mutability.is_some() && i.by_ref.is_none() {
                    let x = &i.ident;
                    let id = Ident::new(&format!("vx_{x}"), x.span());
                    pre.push(parse_quote!(let mut #x = #id;));
                    match p {
                        Pat::Type(t) => *t.pat = parse_quote!(#id),
                        _ => *p = parse_quote!(#id),
                    }
                    continue;
                }
            }
            match p.clone() {
                Pat::Wild(_) => {
                    let id = self.fresh("c");
                    *p = parse_quote!(#id);
                }
                q if pat_simple(&q) => {
                    if let Pat::Type(t) = q {
                        if let Pat::Wild(_) = *t.pat {
                            let id = self.fresh("c");
                            let ty = &t.ty;
                            *p = Pat::Type(parse_quote!(#id: #ty));
                        }
                    }
                }
                Pat::Type(t) => {
                    let id = self.fresh("c");
                    let ty = t.ty.clone();
                    bind(&t.pat, parse_quote!(#id), &mut pre);
                    *p = Pat::Type(parse_quote!(#id: #ty));
                }
                other => {
                    let id = self.fresh("c");
                    bind(&other, parse_quote!(#id), &mut pre);
                    *p = parse_quote!(#id);
                }
            }
        }
        if !pre.is_empty() {
            let b = &c.body;
            c.body = Box::new(parse_quote!({ #(#pre)* #b }));
        }
    }
    fn closure1(e: &Expr) -> Option<&ExprClosure> {
        if let Expr::Closure(c) = e {
            Some(c)
        } else {
            None
        }
    }
    pub fn body_stmts(e: &Expr) -> Vec<Stmt> {
        match e {
            Expr::Block(b) if b.label.is_none() => {
                let mut v = b.block.stmts.clone();
                if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
                    *semi = Some(Default::default());
                }
                v
            }
            o => vec![parse_quote!(#o;)],
        }
    }
}

/// `macro_rules!` of a file with one arm whose parameters are all expressions
pub fn file_macros(f: &File) -> Vec<(String, Vec<String>, proc_macro2::TokenStream)> {
    use proc_macro2::TokenTree as T;
    let mut out = vec![];
    for i in &f.items {
        let Item::Macro(m) = i else { continue };
        let Some(id) = &m.ident else { continue };
        let tt: Vec<T> = m.mac.tokens.clone().into_iter().collect();
        let n = tt.iter().filter(|t| matches!(t, T::Group(_))).count();
        let (Some(T::Group(pat)), Some(T::Group(body))) = (tt.first(), tt.iter().filter(|t| matches!(t, T::Group(_))).nth(1)) else { continue };
        if n != 2 {
            continue;
        }
        let p = pat.stream().to_string().replace(' ', "");
        let ps: Vec<&str> = p.split(',').filter(|x| !x.is_empty()).collect();
        if ps.iter().all(|x| x.starts_with('$') && x.ends_with(":expr")) {
            out.push((id.to_string(), ps.iter().map(|x| x[1..x.len() - 5].to_string()).collect(), body.stream()));
        }
    }
    out
}
fn subst_macro(b: proc_macro2::TokenStream, map: &[(String, proc_macro2::TokenStream)]) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = b.into_iter().collect();
    let mut out = proc_macro2::TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            T::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => {
                let n = v[i + 1].to_string();
                if let Some((_, a)) = map.iter().find(|m| m.0 == n) {
                    out.extend(a.clone());
                    i += 2;
                    continue;
                }
                out.extend([v[i].clone()]);
            }
            T::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), subst_macro(g.stream(), map));
                n.set_span(g.span());
                out.extend([T::Group(n)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}
/// Verus has no `continue` in `for` loops: the rest of the body moves into the other branch
struct UnContinue {
    n: usize,
}
struct HasCont(bool);
impl VisitMut for HasCont {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
    fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
    fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
    fn visit_expr_continue_mut(&mut self, _: &mut ExprContinue) {
        self.0 = true;
    }
}
fn has_cont(b: &Block) -> bool {
    let mut h = HasCont(false);
    h.visit_block_mut(&mut b.clone());
    h.0
}
impl UnContinue {
    fn ends(b: &Block) -> bool {
        match b.stmts.last() {
            Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none() => {
                let mut r = b.clone();
                r.stmts.pop();
                !has_cont(&r)
            }
            _ => false,
        }
    }
    fn cut(b: &Block) -> Block {
        let mut r = b.clone();
        r.stmts.pop();
        r
    }
    fn go(&mut self, b: &mut Block) {
        if !has_cont(b) {
            return;
        }
        for i in 0..b.stmts.len() {
            let rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
            let new: Option<Stmt> = match &b.stmts[i] {
                Stmt::Expr(Expr::Continue(c), _) if c.label.is_none() && rest.is_empty() => {
                    self.n += 1;
                    b.stmts.pop();
                    return;
                }
                Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && Self::ends(&f.then_branch) => {
                    let (c, t) = (&f.cond, Self::cut(&f.then_branch));
                    let mut e: Block = parse_quote!({ #(#rest)* });
                    self.go(&mut e);
                    Some(if e.stmts.is_empty() { parse_quote!(if #c #t) } else { parse_quote!(if #c #t else #e) })
                }
                Stmt::Local(l) if l.init.as_ref().is_some_and(|x| x.diverge.is_some()) => {
                    let x = l.init.as_ref().unwrap();
                    match x.diverge.as_ref().map(|d| &*d.1) {
                        Some(Expr::Block(d)) if Self::ends(&d.block) => {
                            let (p, v, t) = (&l.pat, &x.expr, Self::cut(&d.block));
                            let mut e: Block = parse_quote!({ #(#rest)* });
                            self.go(&mut e);
                            Some(if t.stmts.is_empty() { parse_quote!(if let #p = #v #e) } else { parse_quote!(if let #p = #v #e else #t) })
                        }
                        _ => None,
                    }
                }
                _ => None,
            };
            if let Some(x) = new {
                self.n += 1;
                b.stmts.truncate(i);
                b.stmts.push(x);
                return;
            }
        }
        // the last statement: its branches end the body
        match b.stmts.last_mut() {
            Some(Stmt::Expr(e, _)) => self.tail(e),
            _ => {}
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.go(&mut b.block),
            Expr::If(f) => {
                self.go(&mut f.then_branch);
                if let Some((_, e)) = &mut f.else_branch {
                    self.tail(e);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    if let Expr::Continue(c) = &*a.body {
                        if c.label.is_none() {
                            self.n += 1;
                            *a.body = parse_quote!({});
                            continue;
                        }
                    }
                    self.tail(&mut a.body);
                }
            }
            _ => {}
        }
    }
}
impl VisitMut for UnContinue {
    fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, l);
        self.go(&mut l.body);
    }
}
/// replaces `return X` of a closure turned into a loop body
struct RetFix {
    res: Ident,
    bad: bool,
}
impl VisitMut for RetFix {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            let x = r.expr.clone();
            let res = &self.res;
            match x.as_deref() {
                Some(Expr::Call(c)) if toks(&c.func) == "Err" => {
                    *e = parse_quote!({ #res = #c; break; });
                }
                Some(Expr::Call(c)) if toks(&c.func) == "Ok" => {
                    *e = parse_quote!(continue);
                }
                _ => self.bad = true,
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct HasRet(bool);
impl VisitMut for HasRet {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) {
        self.0 = true;
    }
}
fn has_ret(e: &Expr) -> bool {
    let mut h = HasRet(false);
    h.visit_expr_mut(&mut e.clone());
    h.0
}

/// splits a trailing `.enumerate()`
fn strip_enum(e: &Expr) -> Option<Expr> {
    if let Expr::MethodCall(m) = e {
        if m.method == "enumerate" && m.args.is_empty() {
            return Some((*m.receiver).clone());
        }
    }
    None
}

struct Inst<'a> {
    map: &'a [(String, Type)],
}
impl VisitMut for Inst<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                if let Some(m) = self.map.iter().find(|m| p.path.is_ident(m.0.as_str())) {
                    *t = m.1.clone();
                }
            }
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        visit_mut::visit_expr_path_mut(self, p);
        // `T::method`
        if p.path.segments.len() > 1 {
            if let Some(m) = self.map.iter().find(|m| p.path.segments[0].ident == m.0) {
                let t = &m.1;
                let rest: Vec<_> = p.path.segments.iter().skip(1).cloned().collect();
                *p = parse_quote!(<#t>::#(#rest)::*);
            }
        }
    }
}
struct DynGen {
    new: Vec<GenericParam>,
}
impl VisitMut for DynGen {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::TraitObject(o) = t {
            let id = Ident::new(&format!("VxD{}", self.new.len()), proc_macro2::Span::call_site());
            let b = &o.bounds;
            self.new.push(parse_quote!(#id: #b));
            *t = parse_quote!(#id);
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
}
#[derive(Default)]
struct Names {
    pats: HashMap<String, usize>,
    paths: HashMap<String, usize>,
}
impl VisitMut for Names {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        *self.pats.entry(p.ident.to_string()).or_default() += 1;
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if let Some(i) = p.path.get_ident() {
            *self.paths.entry(i.to_string()).or_default() += 1;
        }
    }
}
struct CallInl {
    name: Ident,
    c: ExprClosure,
    n: usize,
}
impl VisitMut for CallInl {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) && c.args.len() == self.c.inputs.len() {
                let mut st: Vec<Stmt> = vec![];
                let mut s2: Vec<Stmt> = vec![];
                for (i, (p, a)) in self.c.inputs.iter().zip(&c.args).enumerate() {
                    let t = Ident::new(&format!("vx_c{i}"), proc_macro2::Span::call_site());
                    st.push(parse_quote!(let #t = #a;));
                    match p {
                        Pat::Type(t2) => {
                            let (pt, ty) = (&t2.pat, &t2.ty);
                            s2.push(parse_quote!(let #pt: #ty = #t;))
                        }
                        p => s2.push(parse_quote!(let #p = #t;)),
                    }
                }
                st.extend(s2);
                let b = &self.c.body;
                *e = parse_quote!({ #(#st)* #b });
                self.n += 1;
            }
        }
    }
}
/// `let f = |x| e;` whose uses are all calls: each call becomes the body with the parameters bound; refused if a captured
/// name is bound anywhere else in the function (shadowing), for `move` or `mut` closures and for bodies that return.
fn inline_closures(b: &mut Block) -> R<usize> {
    let mut all = Names::default();
    all.visit_block_mut(&mut b.clone());
    let mut done = 0;
    let mut i = 0;
    while i < b.stmts.len() {
        let hit = match &b.stmts[i] {
            Stmt::Local(l) => match (&l.pat, &l.init) {
                (Pat::Ident(p), Some(x)) if p.mutability.is_none() => match &*x.expr {
                    Expr::Closure(c) if c.capture.is_none() && !has_ret(&c.body) => Some((p.ident.clone(), c.clone())),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        let Some((name, c)) = hit else {
            i += 1;
            continue;
        };
        let mut own = Names::default();
        own.visit_expr_closure_mut(&mut c.clone());
        for x in own.paths.keys() {
            let own_b = own.pats.get(x).copied().unwrap_or(0);
            // captured: bound at most once in the whole function, outside the closure
            if own_b == 0 && all.pats.get(x).copied().unwrap_or(0) > 1 {
                return Err(Fail(format!("captured name {x} is bound more than once")));
            }
        }
        let uses = all.paths.get(&name.to_string()).copied().unwrap_or(0);
        let mut ci = CallInl { name, c, n: 0 };
        let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
        ci.visit_block_mut(&mut rest);
        if ci.n != uses {
            return Err(Fail("closure used other than by calling it".into()));
        }
        b.stmts.pop();
        b.stmts.extend(rest.stmts);
        done += 1;
    }
    Ok(done)
}
struct ImplRet {
    t: Type,
    n: usize,
}
impl VisitMut for ImplRet {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(_) = t {
            *t = self.t.clone();
            self.n += 1;
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
}

impl D<'_> {
    /// a lazy iterator handed on (let-bound or passed as an argument) becomes the vector of its elements
    fn lazy(&mut self, e: &mut Expr) {
        let Some(k) = self.opt("lazy").map(str::to_string) else { return };
        if crate::chain::is_lazy(e) {
            let x = e.clone();
            if let Some(n) = crate::chain::collect_vec(self, &x, &k) {
                self.used.push("lazy iterator collected".into());
                *e = n;
            }
        }
    }
}

impl VisitMut for D<'_> {
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        if self.opt("split_or").is_some() {
            let mut arms = vec![];
            for a in std::mem::take(&mut m.arms) {
                if let Pat::Or(o) = &a.pat {
                    for c in &o.cases {
                        let mut b = a.clone();
                        b.pat = c.clone();
                        b.comma = Some(Default::default());
                        arms.push(b);
                    }
                    self.used.push("or-pattern split into arms".into());
                } else {
                    arms.push(a);
                }
            }
            m.arms = arms;
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = &mut l.init {
            self.lazy(&mut i.expr);
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        for a in &mut c.args {
            self.lazy(a);
        }
        visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        if !["chain", "zip", "extend", "flat_map", "from_iter"].contains(&m.method.to_string().as_str()) {
            for a in &mut m.args {
                self.lazy(a);
            }
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) {
                self.used.push("macro".into());
                *s = if m.semi_token.is_some() { Stmt::Expr(e, Some(Default::default())) } else { Stmt::Expr(e, None) };
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // attributes
        // macros
        if let Expr::Macro(m) = e {
            if let Some(x) = self.mac(&m.mac) {
                self.used.push("macro".into());
                *e = x;
            }
        }
        // `a == &b` -> `*a == b` (comparison through references)
        if let Expr::Binary(b) = e {
            if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) {
                if let Expr::Reference(r) = &*b.right {
                    let (inner, left) = ((*r.expr).clone(), (*b.left).clone());
                    let left: Expr = match left {
                        Expr::Reference(l) => (*l.expr).clone(),
                        l => parse_quote!((*#l)),
                    };
                    self.used.push("eq-ref".into());
                    *b.left = left;
                    *b.right = inner;
                }
            }
        }
        // slices of vectors, arrays and slices
        if self.opt("slices").is_some() {
            let (byref, inner) = match &*e {
                Expr::Reference(r) if r.mutability.is_none() => (true, (*r.expr).clone()),
                Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => (false, (*m.receiver).clone()),
                _ => (false, parse_quote!(())),
            };
            if let Expr::Index(ix) = &inner {
                if let Expr::Range(r) = &*ix.index {
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                        let b = &ix.expr;
                        let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                        let hi: Expr = r.end.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(#b.len()));
                        let n: Expr = parse_quote!(vx_slice(&#b, #lo, #hi));
                        self.used.push("slice".into());
                        *e = if byref { n } else { parse_quote!(#n.iter()) };
                    }
                }
            }
        }
        // iterator consumers -> loops
        if self.opt("chains") == Some("loop") {
            if let Some(x) = crate::chain::rewrite(self, e) {
                *e = x;
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if name == "for_each" && m.args.len() == 1 && self.opt("for_each") != Some("keep") {
                if let Some(c) = Self::closure1(&m.args[0]) {
                    if !has_ret(&c.body) {
                        let (p, r, b) = (&c.inputs[0], &m.receiver, Self::body_stmts(&c.body));
                        self.used.push("for_each".into());
                        *e = parse_quote!(for #p in #r { #(#b)* });
                    }
                }
            } else if name == "fold" && m.args.len() == 2 && self.opt("fold") != Some("keep") {
                if let Some(c) = Self::closure1(&m.args[1]) {
                    if let (Pat::Ident(acc), false) = (&c.inputs[0], has_ret(&c.body)) {
                        let acc = &acc.ident;
                        let (init, p, r, b) = (&m.args[0], &c.inputs[1], &m.receiver, &c.body);
                        self.used.push("fold".into());
                        *e = match self.opt("fold_ty") {
                            Some(t) => {
                                let t: Type = parse_str(t).unwrap();
                                parse_quote!({ let mut #acc: #t = #init; for #p in #r { #acc = #b; } #acc })
                            }
                            None => parse_quote!({ let mut #acc = #init; for #p in #r { #acc = #b; } #acc }),
                        };
                    }
                }
            } else if name == "try_for_each" && m.args.len() == 1 {
                if let Some(c) = Self::closure1(&m.args[0]) {
                    let res = self.fresh("res");
                    let mut body = (*c.body).clone();
                    let mut rf = RetFix { res: res.clone(), bad: false };
                    rf.visit_expr_mut(&mut body);
                    if !rf.bad {
                        let (mut stmts, tail) = match &body {
                            Expr::Block(b) => {
                                let mut v = b.block.stmts.clone();
                                match v.last() {
                                    Some(Stmt::Expr(t, None)) => {
                                        let t = t.clone();
                                        v.pop();
                                        (v, Some(t))
                                    }
                                    _ => (v, None),
                                }
                            }
                            o => (vec![], Some(o.clone())),
                        };
                        if let Some(t) = tail {
                            if toks(&t).replace(' ', "") != "Ok(())" {
                                stmts.push(parse_quote!(match #t { Ok(()) => {} Err(vx_e) => { #res = Err(vx_e); break; } }));
                            }
                        }
                        let (p, r) = (&c.inputs[0], &m.receiver);
                        self.used.push("try_for_each".into());
                        let ty: Type = parse_str(self.opt("try_ty").unwrap_or("Result<(),()>")).unwrap();
                        *e = parse_quote!({ let mut #res: #ty = Ok(()); for #p in #r { #(#stmts)* } #res });
                    }
                }
            } else if name == "extend" && m.args.len() == 1 && self.opt("extend") == Some("loop") {
                let v = &m.receiver;
                let a = &m.args[0];
                self.used.push("extend".into());
                *e = parse_quote!(for vx_x in #a { #v.push(vx_x); });
            }
        }
        if let Expr::ForLoop(f) = e {
            // enumerate
            let mut done: Option<Expr> = None;
            if let Some(inner) = strip_enum(&f.expr) {
                if let Pat::Tuple(t) = &*f.pat {
                    if t.elems.len() == 2 {
                        let ctr = self.fresh("i");
                        let elem = self.fresh("e");
                        let mut pre: Vec<Stmt> = vec![];
                        bind(&t.elems[0], parse_quote!(#ctr), &mut pre);
                        pre.push(parse_quote!(#ctr = #ctr + 1;));
                        let pat: Pat = if pat_simple(&t.elems[1]) {
                            t.elems[1].clone()
                        } else {
                            bind(&t.elems[1], parse_quote!(#elem), &mut pre);
                            parse_quote!(#elem)
                        };
                        let b = &f.body.stmts;
                        let l = &f.label;
                        self.used.push("enumerate".into());
                        let fl: Expr = parse_quote!(#l for #pat in #inner { #(#pre)* #(#b)* });
                        done = Some(parse_quote!({ let mut #ctr: usize = 0; #fl }));
                    }
                }
            }
            if let Some(x) = done {
                *e = x;
            } else {
                if pat_has_ref(&f.pat) || matches!(&*f.pat, Pat::Tuple(_)) {
                    let id = self.fresh("p");
                    let mut pre = vec![];
                    bind(&f.pat, parse_quote!(#id), &mut pre);
                    // a tuple pattern on a reference binds references
                    if !pat_has_ref(&f.pat) && self.opt("tuple_ref").is_some() {
                        pre.clear();
                        if let Pat::Tuple(t) = &*f.pat {
                            for (i, x) in t.elems.iter().enumerate() {
                                let ix = Index::from(i);
                                let e: Expr = if self.opt("tuple_ref") == Some("mut") { parse_quote!(&mut #id.#ix) } else { parse_quote!(&#id.#ix) };
                                bind(x, e, &mut pre);
                            }
                        }
                    }
                    let b = &f.body.stmts;
                    let nb: Block = parse_quote!({ #(#pre)* #(#b)* });
                    f.body = nb;
                    *f.pat = parse_quote!(#id);
                    self.used.push("ref-pattern".into());
                }
            }
        }
        if let Expr::Closure(c) = e {
            self.fix_closure(c);
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Inserts markers for loops/closures/ghost positions (pre-order numbering).
struct M<'a> {
    fs: &'a FnSpec,
    nloop: usize,
    nclo: usize,
    nif: usize,
    calls: HashMap<String, usize>,
    canary: bool,
    ncan: usize,
    texts: Vec<String>,
    used_ghost: Vec<usize>,
}

impl M<'_> {
    fn ghosts_for(&mut self, pos: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (i, (p, t)) in self.fs.ghosts.iter().enumerate() {
            if p == pos {
                self.used_ghost.push(i);
                self.texts.push(t.clone());
                let k = self.texts.len() - 1;
                let l = LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
                v.push(parse_quote!(__vx_ghost!(#l);));
            }
        }
        v
    }
    fn canary_stmt(&mut self) -> Vec<Stmt> {
        if !self.canary {
            return vec![];
        }
        let k = self.ncan;
        self.ncan += 1;
        self.texts.push(format!("proof {{ if vx_arb({k}) {{ assert(false); }} }}"));
        let k = self.texts.len() - 1;
        let l = LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
        vec![parse_quote!(__vx_ghost!(#l);)]
    }
    fn loop_body(&mut self, body: &mut Block, k: usize) {
        let kl = LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
        let st = self.ghosts_for(&format!("loop {k} start"));
        let en = self.ghosts_for(&format!("loop {k} end"));
        let can = self.canary_stmt();
        let old = std::mem::take(&mut body.stmts);
        body.stmts.push(parse_quote!(__vx_loop!(#kl);));
        body.stmts.extend(can);
        body.stmts.extend(st);
        if en.is_empty() {
            body.stmts.extend(old);
        } else {
            let mut old = old;
            // the loop body has type (): a tail expression becomes a statement
            if let Some(Stmt::Expr(_, semi @ None)) = old.last_mut() {
                *semi = Some(Default::default());
            }
            body.stmts.extend(old);
            body.stmts.extend(en);
        }
    }
}

/// names of the calls contained directly in a statement (not in nested blocks)
struct Calls(Vec<String>);
impl VisitMut for Calls {
    fn visit_block_mut(&mut self, _: &mut Block) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &*c.func {
            self.0.push(path_str(&p.path));
        }
    }
}

impl VisitMut for M<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        let mut new = vec![];
        for (si, mut s) in old.into_iter().enumerate() {
            // positions by contained call / let name
            let mut before = vec![];
            let mut after = vec![];
            let mut c = Calls(vec![]);
            c.visit_stmt_mut(&mut s.clone());
            for name in c.0 {
                let k = self.calls.entry(name.clone()).or_insert(0);
                let kk = *k;
                *k += 1;
                before.extend(self.ghosts_for(&format!("call {name} {kk} before")));
                after.extend(self.ghosts_for(&format!("call {name} {kk} after")));
            }
            if let Stmt::Local(l) = &s {
                let nm = match &l.pat {
                    Pat::Ident(i) => Some(i.ident.to_string()),
                    Pat::Type(t) => match &*t.pat {
                        Pat::Ident(i) => Some(i.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(nm) = nm {
                    let k = self.calls.entry(format!("let {nm}")).or_insert(0);
                    let kk = *k;
                    *k += 1;
                    before.extend(self.ghosts_for(&format!("let {nm} {kk} before")));
                    after.extend(self.ghosts_for(&format!("let {nm} {kk} after")));
                }
            }
            let l0 = self.nloop;
            visit_mut::visit_stmt_mut(self, &mut s);
            if self.nloop > l0 {
                // first loop in this statement, if the statement is that loop
                let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
                if is_loop {
                    before.extend(self.ghosts_for(&format!("loop {l0} before")));
                    after.extend(self.ghosts_for(&format!("loop {l0} after")));
                }
            }
            new.extend(before);
            if !after.is_empty() {
                if let Stmt::Expr(e, None) = &s {
                    if si + 1 == n {
                        let is_loop = matches!(e, Expr::ForLoop(_) | Expr::While(_));
                        if is_loop {
                            new.push(Stmt::Expr(e.clone(), None));
                            new.extend(after);
                        } else {
                            let e = e.clone();
                            new.push(parse_quote!(let vx_tail = #e;));
                            new.extend(after);
                            new.push(Stmt::Expr(parse_quote!(vx_tail), None));
                        }
                        continue;
                    }
                }
            }
            new.push(s);
            new.extend(after);
        }
        b.stmts = new;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let k = self.nloop;
                self.nloop += 1;
                let body = &mut f.body;
                self.visit_block_mut(body);
                let mut b = std::mem::replace(body, parse_quote!({}));
                self.loop_body(&mut b, k);
                f.body = b;
                if let Some((o, _)) = self.fs.loops.get(&k) {
                    if let Some(it) = o.get("iter") {
                        let id = Ident::new(it, proc_macro2::Span::call_site());
                        let x = &f.expr;
                        f.expr = Box::new(parse_quote!(__vx_iter!(#id, #x)));
                    }
                }
                return;
            }
            Expr::While(w) => {
                let k = self.nloop;
                self.nloop += 1;
                self.visit_block_mut(&mut w.body);
                let mut b = std::mem::replace(&mut w.body, parse_quote!({}));
                self.loop_body(&mut b, k);
                w.body = b;
                return;
            }
            Expr::Loop(w) => {
                let k = self.nloop;
                self.nloop += 1;
                self.visit_block_mut(&mut w.body);
                let mut b = std::mem::replace(&mut w.body, parse_quote!({}));
                self.loop_body(&mut b, k);
                w.body = b;
                return;
            }
            Expr::If(i) => {
                let k = self.nif;
                self.nif += 1;
                let th = self.ghosts_for(&format!("if {k} then"));
                let the = self.ghosts_for(&format!("if {k} then-end"));
                let el = self.ghosts_for(&format!("if {k} else"));
                visit_mut::visit_expr_if_mut(self, i);
                let old = std::mem::take(&mut i.then_branch.stmts);
                i.then_branch.stmts = th.into_iter().chain(old).collect();
                if !the.is_empty() {
                    i.then_branch.stmts.extend(the);
                }
                if !el.is_empty() {
                    match &mut i.else_branch {
                        Some((_, eb)) => {
                            let b = eb.clone();
                            **eb = match &*b {
                                Expr::Block(b) => {
                                    let s = &b.block.stmts;
                                    parse_quote!({ #(#el)* #(#s)* })
                                }
                                o => parse_quote!({ #(#el)* #o }),
                            };
                        }
                        None => {
                            i.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#el)* }))));
                        }
                    }
                }
                return;
            }
            Expr::Closure(c) => {
                let k = self.nclo;
                self.nclo += 1;
                let st = self.ghosts_for(&format!("closure {k} start"));
                visit_mut::visit_expr_mut(self, &mut c.body);
                if !st.is_empty() {
                    let b = &c.body;
                    c.body = Box::new(parse_quote!({ #(#st)* #b }));
                }
                if let Some((o, txt)) = self.fs.closures.get(&k) {
                    if let Some(r) = o.get("ret") {
                        let ts: proc_macro2::TokenStream = r.parse().unwrap();
                        c.output = parse_quote!(-> __vxret!(#ts));
                    }
                    if !txt.trim().is_empty() || o.get("ret").is_some() {
                        let kl = LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
                        let b = &c.body;
                        c.body = Box::new(parse_quote!({ __vx_clo!(#kl); #b }));
                    }
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct SelfRen;
impl VisitMut for SelfRen {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.path.is_ident("self") {
            *p = parse_quote!(vx_self);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => {
                        proc_macro2::TokenTree::Ident(Ident::new("vx_self", i.span()))
                    }
                    proc_macro2::TokenTree::Group(g) => {
                        proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream())))
                    }
                    o => o,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone());
    }
}

pub fn process(mut f: ItemFn, fs: &FnSpec, canary: bool, opaque: bool) -> R<(String, serde_json::Value)> {
    let trait_item = fs.item.starts_with('<') || fs.item.starts_with("trait:");
    if (trait_item && fs.opts.get("pub").is_none()) || fs.opts.contains_key("nopub") {
        f.vis = Visibility::Inherited;
    }
    if fs.opts.contains_key("noconst") {
        f.sig.constness = None;
    }
    if let Some(n) = fs.opts.get("as") {
        f.sig.ident = Ident::new(n, proc_macro2::Span::call_site());
    }
    Ren { rn: &fs.renames }.visit_item_fn_mut(&mut f);
    let mut d = D { fs, ctr: 0, err: None, used: vec![], ncollect: 0, nacc: 0 };
    // generic parameters instantiated with the concrete type the proof is about
    if let Some(inst) = fs.opts.get("inst") {
        let mut map: Vec<(String, Type)> = vec![];
        for x in inst.split(';') {
            let (a, b) = x.split_once(':').ok_or_else(|| Fail("inst".into()))?;
            map.push((a.into(), parse_str(b).map_err(|e| Fail(e.to_string()))?));
        }
        let keep: Vec<GenericParam> = f
            .sig
            .generics
            .params
            .iter()
            .filter(|p| !matches!(p, GenericParam::Type(t) if map.iter().any(|m| t.ident == m.0)))
            .cloned()
            .collect();
        if keep.len() + map.len() != f.sig.generics.params.len() {
            return Err(Fail("generic parameter to instantiate not found".into()));
        }
        f.sig.generics.params = keep.into_iter().collect();
        if let Some(w) = &mut f.sig.generics.where_clause {
            let ps: Vec<WherePredicate> = w
                .predicates
                .iter()
                .filter(|p| !matches!(p, WherePredicate::Type(t) if map.iter().any(|m| toks(&t.bounded_ty).split(' ').next() == Some(m.0.as_str()))))
                .cloned()
                .collect();
            w.predicates = ps.into_iter().collect();
        }
        Inst { map: &map }.visit_item_fn_mut(&mut f);
        d.used.push(format!("generic instantiated: {inst}"));
    }
    // `impl Trait` in the return type instantiated
    if let Some(t) = fs.opts.get("impl_ret") {
        let t: Type = parse_str(t).map_err(|e| Fail(e.to_string()))?;
        let mut r = ImplRet { t, n: 0 };
        r.visit_return_type_mut(&mut f.sig.output);
        if r.n == 0 {
            return Err(Fail("no impl Trait in the return type".into()));
        }
        d.used.push("impl Trait return instantiated".into());
    }
    // trait objects become a generic parameter
    if fs.opts.contains_key("dyn") {
        let mut g = DynGen { new: vec![] };
        for a in f.sig.inputs.iter_mut() {
            g.visit_fn_arg_mut(a);
        }
        if g.new.is_empty() && !opaque {
            return Err(Fail("no trait object".into()));
        }
        for p in g.new {
            f.sig.generics.params.push(p);
        }
        d.used.push("trait object -> generic parameter".into());
    }
    // named closures that are only called are inlined at their calls
    if fs.opts.contains_key("inline") {
        match inline_closures(&mut f.block) {
            Ok(n) if n > 0 => d.used.push("closure inlined at its calls".into()),
            Ok(_) if opaque => {}
            Ok(_) => return Err(Fail("no closure to inline".into())),
            Err(e) if !opaque => return Err(e),
            Err(_) => {}
        }
    }
    // a returned lazy iterator becomes the vector of its elements
    if let Some(ty) = fs.opts.get("ret_iter") {
        let ty: Type = parse_str(ty).map_err(|e| Fail(e.to_string()))?;
        f.sig.output = parse_quote!(-> #ty);
        if let Some(Stmt::Expr(t, None)) = f.block.stmts.last_mut() {
            let x = t.clone();
            match crate::chain::collect(&mut d, &x) {
                Some(e) => *t = e,
                None if opaque => {}
                None => return Err(Fail("returned iterator not understood".into())),
            }
            d.used.push("returned iterator collected".into());
        } else if !opaque {
            return Err(Fail("no returned iterator".into()));
        }
    }
    d.visit_block_mut(&mut f.block);
    let mut uc = UnContinue { n: 0 };
    uc.visit_block_mut(&mut f.block);
    if uc.n > 0 {
        d.used.push("continue -> else branch".into());
    }
    if let Some(e) = d.err.take().filter(|_| !opaque) {
        return Err(Fail(e));
    }
    // parameters that are patterns
    let mut pre: Vec<Stmt> = vec![];
    let mut mutself = false;
    for a in f.sig.inputs.iter_mut() {
        if let FnArg::Receiver(r) = a {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                mutself = true;
            }
        }
    }
    if mutself {
        SelfRen.visit_block_mut(&mut f.block);
        d.used.push("mut-self".into());
        pre.push(parse_quote!(let mut vx_self = self;));
    }
    for a in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &mut *t.pat {
                if i.mutability.is_some() {
                    // `mut` parameters: keep, Verus accepts them
                }
            } else if !pat_simple(&t.pat) {
                let id = d.ctr;
                d.ctr += 1;
                let id = Ident::new(&format!("vx_a{id}"), proc_macro2::Span::call_site());
                bind(&t.pat, parse_quote!(#id), &mut pre);
                *t.pat = parse_quote!(#id);
            }
        }
    }
    if !pre.is_empty() {
        let old = std::mem::take(&mut f.block.stmts);
        f.block.stmts = pre.into_iter().chain(old).collect();
    }
    if let Some(r) = &fs.ret {
        let rid: proc_macro2::TokenStream = r.parse().unwrap();
        let ty: Type = match &f.sig.output {
            ReturnType::Type(_, t) => (**t).clone(),
            ReturnType::Default => parse_quote!(()),
        };
        f.sig.output = parse_quote!(-> __vxret!(#rid: #ty));
    }
    let mut m = M {
        fs,
        nloop: 0,
        nclo: 0,
        nif: 0,
        calls: HashMap::new(),
        canary,
        ncan: 0,
        texts: vec![],
        used_ghost: vec![],
    };
    let mut block = (*f.block).clone();
    m.visit_block_mut(&mut block);
    let st = m.ghosts_for("start");
    let en = m.ghosts_for("end");
    let can = m.canary_stmt();
    let old = std::mem::take(&mut block.stmts);
    block.stmts.push(parse_quote!(__vx_spec!(0);));
    block.stmts.extend(can);
    block.stmts.extend(st);
    let mut old = old;
    if !en.is_empty() {
        match old.last() {
            Some(Stmt::Expr(e, None)) if !matches!(e, Expr::ForLoop(_) | Expr::While(_)) => {
                let e = e.clone();
                old.pop();
                if f.sig.output == ReturnType::Default {
                    old.push(parse_quote!(#e;));
                    old.extend(en);
                } else {
                    old.push(parse_quote!(let vx_tail = #e;));
                    old.extend(en);
                    old.push(Stmt::Expr(parse_quote!(vx_tail), None));
                }
            }
            _ => old.extend(en),
        }
    }
    block.stmts.extend(old);
    // structural anchors must exist
    for k in fs.loops.keys() {
        if *k >= m.nloop && !opaque {
            return Err(Fail(format!("loop {k} not found ({} loops)", m.nloop)));
        }
    }
    if let Some(n) = fs.opts.get("loops") {
        if n.parse::<usize>().unwrap() != m.nloop && !opaque {
            return Err(Fail(format!("expected {n} loops, found {}", m.nloop)));
        }
    } else if m.nloop != fs.loops.len() && !opaque && std::env::var("VX_DEV").is_err() {
        return Err(Fail(format!("{} loops annotated, {} found", fs.loops.len(), m.nloop)));
    }
    for k in fs.closures.keys() {
        if *k >= m.nclo && !opaque {
            return Err(Fail(format!("closure {k} not found ({} closures)", m.nclo)));
        }
    }
    for (i, (p, _)) in fs.ghosts.iter().enumerate() {
        if !m.used_ghost.contains(&i) && !opaque {
            return Err(Fail(format!("ghost anchor '{p}' not found")));
        }
    }
    let texts = m.texts.clone();
    let (nloop, nclo, ncan) = (m.nloop, m.nclo, m.ncan);
    let in_trait = fs.item.starts_with("trait:");
    f.block = Box::new(if opaque && in_trait {
        parse_quote!({ __vx_spec!(0); assume(false); vstd::pervasive::unreached() })
    } else if opaque {
        parse_quote!({ __vx_spec!(0); unimplemented!() })
    } else {
        block
    });
    let file = File { shebang: None, attrs: vec![], items: vec![Item::Fn(f)] };
    let mut txt = prettyplease::unparse(&file);
    txt = post::replace_macro(&txt, "__vxret", |a| format!("({})", a.replace("\n", " ")));
    txt = post::splice_before_brace(&txt, "__vx_spec", |_| fs.spec.clone());
    txt = post::splice_before_brace(&txt, "__vx_loop", |k| {
        fs.loops.get(&k.parse::<usize>().unwrap()).map(|x| x.1.clone()).unwrap_or_default()
    });
    txt = post::splice_before_brace(&txt, "__vx_clo", |k| {
        fs.closures.get(&k.parse::<usize>().unwrap()).map(|x| x.1.clone()).unwrap_or_default()
    });
    txt = post::replace_macro(&txt, "__vx_iter", |a| {
        let (n, e) = a.split_once(',').unwrap();
        format!("{}: {}", n.trim(), e.trim())
    });
    txt = post::replace_macro(&txt, "__vx_ghost", |a| texts[a.parse::<usize>().unwrap()].clone());
    for (a, b) in &fs.subs {
        let (a, optional) = match a.strip_suffix('\u{1}') {
            Some(a) => (a.trim(), true),
            None => (a.as_str(), false),
        };
        let re = regex::Regex::new(a).map_err(|e| Fail(e.to_string()))?;
        if !re.is_match(&txt) && !opaque && !optional {
            if std::env::var("VX_DEV").is_ok() {
                eprintln!("{txt}");
            }
            return Err(Fail(format!("substitution '{a}' does not apply")));
        }
        txt = re.replace_all(&txt, b.as_str()).into_owned();
    }
    if opaque && !in_trait {
        txt = format!("#[verifier::external_body]\n{txt}");
    }
    if let Some(a) = fs.opts.get("attr") {
        txt = format!("#[{a}]\n{txt}");
    }
    Ok((
        txt,
        json!({"loops": nloop, "closures": nclo, "canaries": ncan, "desugared": d.used,
               "subs": fs.subs.iter().map(|(a,b)| format!("{a} ==> {b}")).collect::<Vec<_>>() }),
    ))
}
