//! Iterator chains ending in a consumer become explicit loops (opt-in: `chains=loop`).
//! Supported adapters: map, filter, filter_map, flat_map, flatten (of options), copied, cloned, enumerate, chain, inspect-free.
//! The order of evaluation of lazily evaluated iterators is exactly that of the loop.
use crate::desugar::{bind, pat_simple, D};
use crate::toks;
use syn::*;

pub enum Src {
    Iter(Expr),
    Once(Expr),
    RepeatN(Expr, Expr),
}
#[derive(Clone)]
pub enum Ad {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    FlatMap(Expr),
    Deref,
    Enumerate(Ident),
    Take(Ident, Expr),
}

fn is_chainy(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if ["map", "filter", "filter_map", "flat_map", "copied", "cloned", "chain", "enumerate", "take"].contains(&m.method.to_string().as_str()))
        || once(e).is_some()
}
fn once(e: &Expr) -> Option<Expr> {
    if let Expr::Call(c) = e {
        if toks(&c.func).replace(' ', "").ends_with("once") && c.args.len() == 1 {
            return Some(c.args[0].clone());
        }
    }
    None
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        o => o,
    }
}

/// evaluating the expression again yields the same value and has no effect
fn is_plain(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Cast(c) => is_plain(&c.expr),
        Expr::Field(f) => is_plain(&f.base),
        Expr::Binary(b) => is_plain(&b.left) && is_plain(&b.right),
        Expr::MethodCall(m) => m.method == "len" && m.args.is_empty() && is_plain(&m.receiver),
        _ => false,
    }
}
struct RetScan(bool);
impl visit_mut::VisitMut for RetScan {
    fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try_mut(&mut self, _: &mut ExprTry) {
        self.0 = true;
    }
}
fn has_ret(e: &Expr) -> bool {
    use visit_mut::VisitMut;
    let mut h = RetScan(false);
    let b = match strip_paren(e) {
        Expr::Closure(c) => (*c.body).clone(),
        _ => return false,
    };
    h.visit_expr_mut(&mut b.clone());
    h.0
}

/// the closure without early returns: statements after a conditional return become its else branch
fn ret_free(e: &Expr) -> Option<Expr> {
    if !has_ret(e) {
        return Some(e.clone());
    }
    let Expr::Closure(c) = strip_paren(e) else { return None };
    let mut c = c.clone();
    *c.body = tail_ret(&c.body)?;
    Some(Expr::Closure(c))
}
fn any_ret(e: &Expr) -> bool {
    use visit_mut::VisitMut;
    let mut h = RetScan(false);
    h.visit_expr_mut(&mut e.clone());
    h.0
}
fn tail_ret(e: &Expr) -> Option<Expr> {
    if !any_ret(e) {
        return Some(e.clone());
    }
    match e {
        Expr::Return(r) => tail_ret(r.expr.as_ref()?),
        Expr::Paren(p) => tail_ret(&p.expr),
        Expr::Block(b) if b.label.is_none() => {
            let v = tail_stmts(&b.block.stmts)?;
            Some(parse_quote!({ #(#v)* }))
        }
        Expr::If(i) if !any_ret(&i.cond) => {
            let mut i = i.clone();
            i.then_branch.stmts = tail_stmts(&i.then_branch.stmts)?;
            let (t, el) = i.else_branch.as_mut()?;
            let _ = t;
            **el = tail_ret(el)?;
            Some(Expr::If(i))
        }
        Expr::Match(m) if !any_ret(&m.expr) => {
            let mut m = m.clone();
            for a in &mut m.arms {
                *a.body = tail_ret(&a.body)?;
            }
            Some(Expr::Match(m))
        }
        _ => None,
    }
}
/// the statements always end in a return
fn diverges(v: &[Stmt]) -> bool {
    matches!(v.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}
fn tail_stmts(v: &[Stmt]) -> Option<Vec<Stmt>> {
    for (k, s) in v.iter().enumerate() {
        let last = k + 1 == v.len();
        let (e, semi) = match s {
            Stmt::Expr(e, semi) => (e, semi.is_some()),
            Stmt::Local(l) => {
                if l.init.as_ref().is_some_and(|i| any_ret(&i.expr) || i.diverge.is_some()) {
                    return None;
                }
                continue;
            }
            _ => continue,
        };
        if !any_ret(e) {
            continue;
        }
        let mut out = v[..k].to_vec();
        match e {
            Expr::Return(r) => out.push(Stmt::Expr(tail_ret(r.expr.as_ref()?)?, None)),
            Expr::If(i) if i.else_branch.is_none() && diverges(&i.then_branch.stmts) && !any_ret(&i.cond) && !last => {
                let mut i = i.clone();
                i.then_branch.stmts = tail_stmts(&i.then_branch.stmts)?;
                let rest = tail_stmts(&v[k + 1..])?;
                i.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#rest)* }))));
                out.push(Stmt::Expr(Expr::If(i), None));
            }
            e if last && !semi => out.push(Stmt::Expr(tail_ret(e)?, None)),
            _ => return None,
        }
        return Some(out);
    }
    Some(v.to_vec())
}

/// sources and adapters of an iterator expression; None if it uses something unsupported
pub fn flatten(d: &mut D, e: &Expr) -> Option<Vec<(Src, Vec<Ad>)>> {
    let e = strip_paren(e);
    if let Some(x) = once(e) {
        return Some(vec![(Src::Once(x), vec![])]);
    }
    if let Expr::Call(c) = e {
        if toks(&c.func).replace(' ', "").ends_with("repeat_n") && c.args.len() == 2 {
            return Some(vec![(Src::RepeatN(c.args[0].clone(), c.args[1].clone()), vec![])]);
        }
    }
    if let Expr::MethodCall(m) = e {
        let name = m.method.to_string();
        let add = |v: Option<Vec<(Src, Vec<Ad>)>>, a: Ad| {
            v.map(|mut v| {
                for x in &mut v {
                    x.1.push(a.clone());
                }
                v
            })
        };
        if m.args.iter().any(|a| has_ret(a) && ret_free(a).is_none()) {
            return None;
        }
        match (name.as_str(), m.args.len()) {
            ("map", 1) => return add(flatten(d, &m.receiver), Ad::Map(ret_free(&m.args[0])?)),
            ("filter", 1) => return add(flatten(d, &m.receiver), Ad::Filter(ret_free(&m.args[0])?)),
            ("filter_map", 1) => return add(flatten(d, &m.receiver), Ad::FilterMap(ret_free(&m.args[0])?)),
            ("flat_map", 1) => return add(flatten(d, &m.receiver), Ad::FlatMap(m.args[0].clone())),
            ("copied" | "cloned", 0) => return add(flatten(d, &m.receiver), Ad::Deref),
            ("enumerate", 0) => {
                let id = d.acc("n");
                return add(flatten(d, &m.receiver), Ad::Enumerate(id));
            }
            // the counted prefix of a source without side effects in front
            ("take", 1) if d.opt("take").is_some() => {
                let v = flatten(d, &m.receiver)?;
                if v.len() == 1 && v[0].1.iter().all(|a| matches!(a, Ad::Deref | Ad::Enumerate(_))) && is_plain(&m.args[0]) {
                    let id = d.acc("n");
                    return add(Some(v), Ad::Take(id, m.args[0].clone()));
                }
                return Some(vec![(Src::Iter(e.clone()), vec![])]);
            }
            ("into_iter", 0) if is_chainy(strip_paren(&m.receiver)) => return flatten(d, &m.receiver),
            ("chain", 1) => {
                let mut v = flatten(d, &m.receiver)?;
                v.extend(flatten(d, &m.args[0])?);
                return Some(v);
            }
            ("zip" | "rev" | "skip" | "take" | "windows" | "chunks" | "peekable" | "step_by" | "scan" | "take_while" | "skip_while" | "by_ref" | "map_while" | "dedup" | "tuple_windows", _) => {
                // a base only if Verus knows the iterator; left as it is
                return Some(vec![(Src::Iter(e.clone()), vec![])]);
            }
            _ => {}
        }
    }
    Some(vec![(Src::Iter(e.clone()), vec![])])
}

/// apply a closure or function path to an expression: statements binding the result to `res`
fn apply(d: &mut D, f: &Expr, arg: Expr, out: &mut Vec<Stmt>) -> Expr {
    match strip_paren(f) {
        Expr::Closure(c) => {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                o => o.clone(),
            };
            bind_any(d, &p, arg, out);
            (*c.body).clone()
        }
        Expr::Path(p) if toks(p).replace(' ', "").ends_with("::not") => parse_quote!(!#arg),
        o => parse_quote!(#o(#arg)),
    }
}
/// bind a pattern; a tuple pattern against a reference-typed place binds through `tuple_ref`
fn bind_any(d: &mut D, p: &Pat, arg: Expr, out: &mut Vec<Stmt>) {
    match p {
        Pat::Tuple(t) if d.opt("tuple_ref").is_some() && is_ref_elem(&arg) => {
            for (i, x) in t.elems.iter().enumerate() {
                let ix = Index::from(i);
                bind(x, parse_quote!(&#arg.#ix), out);
            }
        }
        _ => bind(p, arg, out),
    }
}
fn is_ref_elem(e: &Expr) -> bool {
    toks(e).starts_with("vx_e")
}

fn run(d: &mut D, cur: Expr, ads: &[Ad], sink: &mut dyn FnMut(&mut D, Expr) -> Vec<Stmt>, ctrs: &mut Vec<Ident>) -> Option<Vec<Stmt>> {
    let Some(a) = ads.first() else { return Some(sink(d, cur)) };
    let mut out: Vec<Stmt> = vec![];
    match a {
        Ad::Map(f) => {
            let r = apply(d, f, cur, &mut out);
            // the last adapter's value goes straight into the sink
            let id = d.fresh("m");
            out.push(parse_quote!(let #id = #r;));
            out.extend(run(d, parse_quote!(#id), &ads[1..], sink, ctrs)?);
        }
        Ad::Deref => {
            let id = d.fresh("m");
            out.push(parse_quote!(let #id = *#cur;));
            out.extend(run(d, parse_quote!(#id), &ads[1..], sink, ctrs)?);
        }
        Ad::Filter(f) => {
            let c = match strip_paren(f) {
                Expr::Closure(c) => {
                    let p = match &c.inputs[0] {
                        Pat::Type(t) => (*t.pat).clone(),
                        o => o.clone(),
                    };
                    // the closure gets a reference to the element
                    match &p {
                        Pat::Reference(r) => bind_any(d, &r.pat, cur.clone(), &mut out),
                        Pat::Tuple(t) => {
                            for (i, x) in t.elems.iter().enumerate() {
                                let ix = Index::from(i);
                                bind(x, parse_quote!(&#cur.#ix), &mut out);
                            }
                        }
                        p => bind(p, parse_quote!(&#cur), &mut out),
                    }
                    (*c.body).clone()
                }
                o => parse_quote!(#o(&#cur)),
            };
            let id = d.fresh("b");
            let rest = run(d, cur, &ads[1..], sink, ctrs)?;
            out.push(parse_quote!(let #id = #c;));
            out.push(parse_quote!(if #id { #(#rest)* }));
        }
        Ad::FilterMap(f) => {
            let r = apply(d, f, cur, &mut out);
            let id = d.fresh("m");
            let rest = run(d, parse_quote!(#id), &ads[1..], sink, ctrs)?;
            if matches!(r, Expr::If(_) | Expr::Block(_) | Expr::Match(_)) {
                let t = d.fresh("o");
                out.push(parse_quote!(let #t = #r;));
                out.push(parse_quote!(if let Some(#id) = #t { #(#rest)* }));
            } else {
                out.push(parse_quote!(if let Some(#id) = #r { #(#rest)* }));
            }
        }
        Ad::FlatMap(f) => {
            let mut r = apply(d, f, cur, &mut out);
            // statements in front of the inner iterator
            while let Expr::Block(b) = &r {
                if b.label.is_some() {
                    break;
                }
                let mut st = b.block.stmts.clone();
                match st.pop() {
                    Some(Stmt::Expr(t, None)) => {
                        out.extend(st);
                        r = t;
                    }
                    _ => return None,
                }
            }
            let srcs = flatten(d, &r)?;
            let rest_ads = ads[1..].to_vec();
            for (s, mut a) in srcs {
                a.extend(rest_ads.clone());
                out.extend(source(d, s, &a, sink, ctrs)?);
            }
        }
        Ad::Take(id, n) => {
            if !ctrs.contains(id) {
                ctrs.push(id.clone());
            }
            let rest = run(d, cur, &ads[1..], sink, ctrs)?;
            out.push(parse_quote!(if #id < #n { #id = #id + 1; #(#rest)* }));
        }
        Ad::Enumerate(id) => {
            if !ctrs.contains(id) {
                ctrs.push(id.clone());
            }
            let t = d.fresh("k");
            out.push(parse_quote!(let #t = (#id, #cur);));
            out.push(parse_quote!(#id = #id + 1;));
            out.extend(run(d, parse_quote!(#t), &ads[1..], sink, ctrs)?);
        }
    }
    Some(out)
}
fn source(d: &mut D, s: Src, ads: &[Ad], sink: &mut dyn FnMut(&mut D, Expr) -> Vec<Stmt>, ctrs: &mut Vec<Ident>) -> Option<Vec<Stmt>> {
    match s {
        Src::Once(x) => {
            let id = d.fresh("o");
            let mut v: Vec<Stmt> = vec![parse_quote!(let #id = #x;)];
            v.extend(run(d, parse_quote!(#id), ads, sink, ctrs)?);
            Some(vec![parse_quote!({ #(#v)* })])
        }
        Src::RepeatN(x, n) => {
            let (id, k, m) = (d.fresh("o"), d.fresh("e"), d.fresh("m"));
            if matches!((&x, &n), (Expr::Path(_), Expr::Path(_))) {
                let body = run(d, x, ads, sink, ctrs)?;
                return Some(vec![parse_quote!(for #k in 0..#n { #(#body)* })]);
            }
            let body = run(d, parse_quote!(#id), ads, sink, ctrs)?;
            Some(vec![parse_quote!({ let #id = #x; let #m = #n; for #k in 0..#m { #(#body)* } })])
        }
        Src::Iter(b) => {
            // a short array: its elements in order, all evaluated first
            if let Expr::Array(arr) = strip_paren(&b) {
                if arr.elems.len() <= 8 {
                    let mut v: Vec<Stmt> = vec![];
                    let mut bodies: Vec<Stmt> = vec![];
                    for x in &arr.elems {
                        let id = d.fresh("o");
                        v.push(parse_quote!(let #id = #x;));
                        bodies.extend(run(d, parse_quote!(#id), ads, sink, ctrs)?);
                    }
                    let txt = bodies.iter().map(|b| quote::quote!(#b).to_string()).collect::<String>();
                    if !txt.contains("break") && !txt.contains("continue") {
                        v.extend(bodies);
                        return Some(vec![parse_quote!({ #(#v)* })]);
                    }
                }
            }
            let id = d.fresh("e");
            let body = run(d, parse_quote!(#id), ads, sink, ctrs)?;
            let deref = matches!(ads.first(), Some(Ad::Deref));
            let _ = deref;
            Some(vec![parse_quote!(for #id in #b { #(#body)* })])
        }
    }
}

/// statements running `sink` on every element of `e`
pub fn consume(d: &mut D, e: &Expr, sink: &mut dyn FnMut(&mut D, Expr) -> Vec<Stmt>) -> Option<Vec<Stmt>> {
    let c0 = d.ctr;
    let srcs = flatten(d, e)?;
    let mut out = vec![];
    let mut ctrs = vec![];
    for (s, a) in srcs {
        match source(d, s, &a, sink, &mut ctrs) {
            Some(v) => out.extend(v),
            None => {
                d.ctr = c0;
                return None;
            }
        }
    }
    let mut pre: Vec<Stmt> = ctrs.iter().map(|c| parse_quote!(let mut #c: usize = 0;)).collect();
    pre.extend(out);
    Some(pre)
}

/// rewrite a consumer call, if it is one
pub fn rewrite(d: &mut D, e: &Expr) -> Option<Expr> {
    match e {
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            match (name.as_str(), m.args.len()) {
                ("collect", 0) => collect(d, &m.receiver),
                ("sum", 0) => {
                    let acc = d.acc("sum");
                    let ty: Option<Type> = m.turbofish.as_ref().and_then(|t| match &t.args[0] {
                        GenericArgument::Type(t) if toks(t) != "_" => Some(t.clone()),
                        _ => None,
                    });
                    let a2 = acc.clone();
                    let b = consume(d, &m.receiver, &mut |_, x| vec![parse_quote!(#a2 = #a2 + #x;)])?;
                    let ty: Type = ty.unwrap_or_else(|| parse_str(d.opt("sum_ty").unwrap_or("usize")).unwrap());
                    d.used.push("sum".into());
                    Some(parse_quote!({ let mut #acc: #ty = 0; #(#b)* #acc }))
                }
                ("count", 0) => {
                    let acc = d.acc("cnt");
                    let a2 = acc.clone();
                    let b = consume(d, &m.receiver, &mut |_, _| vec![parse_quote!(#a2 = #a2 + 1;)])?;
                    d.used.push("count".into());
                    Some(parse_quote!({ let mut #acc: usize = 0; #(#b)* #acc }))
                }
                ("max" | "min", 0) if is_chainy(strip_paren(&m.receiver)) => {
                    let acc = d.acc(&name);
                    let a2 = acc.clone();
                    let b = consume(d, &m.receiver, &mut |d, x| {
                        let (t, o) = (d.fresh("x"), d.fresh("m"));
                        // `max` returns the last maximum, `min` the first minimum
                        let take: Expr = if name == "max" { parse_quote!(#o <= #t) } else { parse_quote!(#t < #o) };
                        vec![parse_quote!(let #t = #x;), parse_quote!(#a2 = match #a2 { None => Some(#t), Some(#o) => if #take { Some(#t) } else { Some(#o) } };)]
                    })?;
                    d.used.push(name.clone());
                    Some(parse_quote!({ let mut #acc = None; #(#b)* #acc }))
                }
                ("any" | "all", 1) if !has_ret(&m.args[0]) => {
                    let any = name == "any";
                    let srcs = flatten(d, &m.receiver)?;
                    if srcs.len() != 1 || srcs[0].1.iter().any(|a| matches!(a, Ad::FlatMap(_))) {
                        return None;
                    }
                    let acc = d.acc(&name);
                    let a2 = acc.clone();
                    let f = m.args[0].clone();
                    let b = consume(d, &m.receiver, &mut |d, x| {
                        let mut o = vec![];
                        let r = apply(d, &f, x, &mut o);
                        let t = d.fresh("b");
                        o.push(parse_quote!(let #t = #r;));
                        if any {
                            o.push(parse_quote!(if #t { #a2 = true; break; }));
                        } else {
                            o.push(parse_quote!(if !#t { #a2 = false; break; }));
                        }
                        o
                    })?;
                    d.used.push(name.clone());
                    let init = !any;
                    Some(parse_quote!({ let mut #acc = #init; #(#b)* #acc }))
                }
                ("for_each", 1) if !has_ret(&m.args[0]) => {
                    if !is_chainy(strip_paren(&m.receiver)) {
                        return None;
                    }
                    let f = m.args[0].clone();
                    let b = consume(d, &m.receiver, &mut |d, x| {
                        let mut o = vec![];
                        let r = apply(d, &f, x, &mut o);
                        o.extend(D::body_stmts(&r));
                        o
                    })?;
                    d.used.push("for_each".into());
                    Some(parse_quote!({ #(#b)* }))
                }
                ("extend", 1) if d.opt("extend") != Some("keep") => {
                    let v = (*m.receiver).clone();
                    let push: Ident = Ident::new(d.opt("push").unwrap_or("push"), proc_macro2::Span::call_site());
                    let b = consume(d, &m.args[0], &mut |_, x| vec![parse_quote!(#v.#push(#x);)])?;
                    d.used.push("extend".into());
                    Some(parse_quote!({ #(#b)* }))
                }
                ("fold", 2) if is_chainy(strip_paren(&m.receiver)) => {
                    let c = match strip_paren(&m.args[1]) {
                        Expr::Closure(c) if !has_ret(&m.args[1]) => c.clone(),
                        _ => return None,
                    };
                    let Pat::Ident(acc) = &c.inputs[0] else { return None };
                    let acc = acc.ident.clone();
                    let (a2, p, body) = (acc.clone(), c.inputs[1].clone(), (*c.body).clone());
                    let b = consume(d, &m.receiver, &mut |d, x| {
                        let mut o = vec![];
                        bind_any(d, &p, x, &mut o);
                        o.push(parse_quote!(#a2 = #body;));
                        o
                    })?;
                    d.used.push("fold".into());
                    let init = &m.args[0];
                    Some(match d.opt("fold_ty") {
                        Some(t) => {
                            let t: Type = parse_str(t).unwrap();
                            parse_quote!({ let mut #acc: #t = #init; #(#b)* #acc })
                        }
                        None => parse_quote!({ let mut #acc = #init; #(#b)* #acc }),
                    })
                }
                _ => None,
            }
        }
        Expr::Call(c) if c.args.len() == 1 && toks(&c.func).replace(' ', "").ends_with("::from_iter") && d.opt("from_iter") != Some("keep") => collect(d, &c.args[0]),
        Expr::ForLoop(f) if is_chainy(strip_paren(&f.expr)) && f.label.is_none() => {
            // enumerate directly on a base is handled elsewhere
            if let Expr::MethodCall(m) = strip_paren(&f.expr) {
                if m.method == "enumerate" && !is_chainy(strip_paren(&m.receiver)) {
                    return None;
                }
            }
            let mut bad = BrkScan(false);
            {
                use visit_mut::VisitMut;
                bad.visit_block_mut(&mut f.body.clone());
            }
            let srcs = flatten(d, &f.expr)?;
            if bad.0 && (srcs.len() != 1 || srcs[0].1.iter().any(|a| matches!(a, Ad::FlatMap(_)))) {
                return None;
            }
            let (p, stmts) = ((*f.pat).clone(), f.body.stmts.clone());
            let b = consume(d, &f.expr, &mut |d, x| {
                let mut o = vec![];
                bind_any(d, &p, x, &mut o);
                o.extend(stmts.clone());
                if let Some(Stmt::Expr(_, semi @ None)) = o.last_mut() {
                    *semi = Some(Default::default());
                }
                o
            })?;
            d.used.push("for-chain".into());
            if b.len() == 1 {
                if let Stmt::Expr(x, _) = &b[0] {
                    return Some(x.clone());
                }
            }
            Some(parse_quote!({ #(#b)* }))
        }
        _ => None,
    }
}
struct BrkScan(bool);
impl visit_mut::VisitMut for BrkScan {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
    fn visit_expr_break_mut(&mut self, _: &mut ExprBreak) {
        self.0 = true;
    }
}

/// a lazy iterator expression with at least one adapter
pub fn is_lazy(e: &Expr) -> bool {
    let mut b = strip_paren(e);
    while let Expr::MethodCall(m) = b {
        if !is_chainy(b) {
            break;
        }
        b = strip_paren(&m.receiver);
    }
    if !matches!(b, Expr::MethodCall(m) if ["iter", "into_iter", "iter_mut", "keys", "values", "drain"].contains(&m.method.to_string().as_str())) && !matches!(b, Expr::Range(_)) {
        return false;
    }
    is_chainy(strip_paren(e)) && once(strip_paren(e)).is_none() && !matches!(strip_paren(e), Expr::MethodCall(m) if m.method == "cloned" || m.method == "copied")
}
pub fn collect_vec(d: &mut D, e: &Expr, ty: &str) -> Option<Expr> {
    let acc = d.acc("acc");
    let a2 = acc.clone();
    let b = consume(d, e, &mut |_, x| vec![parse_quote!(#a2.push(#x);)])?;
    let t: Type = parse_str(ty).ok()?;
    Some(parse_quote!({ let mut #acc: Vec<#t> = Vec::new(); #(#b)* #acc }))
}

/// `collect`: kinds per occurrence: vec (default), map, via:PATH, keep
pub fn collect(d: &mut D, recv: &Expr) -> Option<Expr> {
    let k = d.ncollect;
    let kind = d.opt(&format!("collect{k}")).or(d.opt("collect")).unwrap_or("vec").to_string();
    if kind == "keep" {
        d.ncollect += 1;
        return None;
    }
    let acc = d.acc("acc");
    let a2 = acc.clone();
    let map = kind == "map";
    let b = consume(d, recv, &mut |_, x| if map { vec![parse_quote!(#a2.insert((#x).0, (#x).1);)] } else { vec![parse_quote!(#a2.push(#x);)] })?;
    d.ncollect += 1;
    d.used.push(format!("collect:{kind}"));
    Some(if map {
        parse_quote!({ let mut #acc = vx_map_new(); #(#b)* #acc })
    } else if let Some(p) = kind.strip_prefix("via:") {
        let p: Path = parse_str(p).ok()?;
        parse_quote!({ let mut #acc = Vec::new(); #(#b)* #p(#acc) })
    } else if let Some(t) = kind.strip_prefix("vec:") {
        let t: Type = parse_str(t).ok()?;
        parse_quote!({ let mut #acc: Vec<#t> = Vec::new(); #(#b)* #acc })
    } else {
        parse_quote!({ let mut #acc = Vec::new(); #(#b)* #acc })
    })
}
pub fn simple(p: &Pat) -> bool {
    pat_simple(p)
}
