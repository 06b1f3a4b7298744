//! Anchoring: find an item by its AST path.
use crate::{toks, Fail, R};
use syn::*;

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = toks(&a.meta).replace(' ', "");
        s == "cfg(test)" || s == "cfg(kani)" || s == "test"
    })
}

fn last_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut" } else { "" }, last_ident(&r.elem)),
        Type::Slice(s) => format!("[{}]", last_ident(&s.elem)),
        _ => toks(t).replace(' ', ""),
    }
}

fn norm(p: &Path) -> String {
    // last segment with generics, no spaces, inner paths reduced to their text
    let s = p.segments.last().unwrap();
    let mut r = s.ident.to_string();
    if !s.arguments.is_none() {
        r.push_str(&toks(&s.arguments).replace(' ', ""));
    }
    r.replace("crate::types::", "").replace("super::", "")
}

pub fn find_type(f: &File, name: &str) -> R<Item> {
    if let Some((ty, name)) = name.split_once("::") {
        let mut hit = None;
        walk(&f.items, &mut |it| {
            if let Item::Impl(im) = it {
                if last_ident(&im.self_ty) == ty && im.trait_.is_none() {
                    for x in &im.items {
                        if let ImplItem::Const(c) = x {
                            if c.ident == name {
                                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                                let c: ItemConst = parse_quote!(pub const #i: #t = #e;);
                                hit = Some(Item::Const(c));
                            }
                        }
                    }
                }
            }
        });
        return hit.ok_or_else(|| Fail(format!("const {ty}::{name} not found")));
    }
    fn go(items: &[Item], name: &str) -> Option<Item> {
        for it in items {
            match it {
                Item::Struct(s) if s.ident == name && !is_cfg_test(&s.attrs) => return Some(it.clone()),
                Item::Enum(s) if s.ident == name => return Some(it.clone()),
                Item::Const(s) if s.ident == name => return Some(it.clone()),
                Item::Type(s) if s.ident == name => return Some(it.clone()),
                Item::Mod(m) if !is_cfg_test(&m.attrs) => {
                    if let Some((_, c)) = &m.content {
                        if let Some(x) = go(c, name) {
                            return Some(x);
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }
    go(&f.items, name).ok_or_else(|| Fail(format!("type {name} not found")))
}

fn pubv() -> Visibility {
    parse_quote!(pub)
}

pub fn strip_item(it: &mut Item) {
    match it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = pubv();
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = pubv();
            }
        }
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = pubv();
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        Item::Const(c) => {
            c.attrs.clear();
            c.vis = pubv();
        }
        Item::Type(c) => {
            c.attrs.clear();
            c.vis = pubv();
        }
        _ => {}
    }
}

/// `f`, `Type::f`, `<Type as Trait>::f`, `<Type as Trait<G>>::f`, `trait Trait::f`
pub fn find_fn(f: &File, item: &str) -> R<ItemFn> {
    let mut hits: Vec<ItemFn> = vec![];
    if let Some(rest) = item.strip_prefix("trait:") {
        let (tr, name) = rest.split_once("::").ok_or_else(|| Fail("bad item".into()))?;
        walk(&f.items, &mut |it| {
            if let Item::Trait(t) = it {
                if t.ident == tr {
                    for x in &t.items {
                        if let TraitItem::Fn(m) = x {
                            if m.sig.ident == name && m.default.is_some() {
                                hits.push(mk(m.sig.clone(), m.default.clone().unwrap()));
                            }
                        }
                    }
                }
            }
        });
    } else if item.starts_with('<') {
        let inner = &item[1..];
        let p = inner.rfind(">::").ok_or_else(|| Fail("bad item".into()))?;
        let name = &inner[p + 3..];
        let (ty, tr) = inner[..p].split_once(" as ").ok_or_else(|| Fail("bad item".into()))?;
        let tr = tr.replace(' ', "");
        walk(&f.items, &mut |it| {
            if let Item::Impl(im) = it {
                if let Some((_, tp, _)) = &im.trait_ {
                    let n = norm(tp);
                    let lid = tp.segments.last().unwrap().ident.to_string();
                    let tyfull = toks(&im.self_ty).replace(' ', "");
                    if (last_ident(&im.self_ty) == ty || tyfull == ty) && (n == tr || lid == tr) && !is_cfg_test(&im.attrs) {
                        for x in &im.items {
                            if let ImplItem::Fn(m) = x {
                                if m.sig.ident == name {
                                    hits.push(mk(m.sig.clone(), m.block.clone()));
                                }
                            }
                        }
                    }
                }
            }
        });
    } else if let Some((ty, name)) = item.split_once("::") {
        walk(&f.items, &mut |it| {
            if let Item::Impl(im) = it {
                if im.trait_.is_none() && last_ident(&im.self_ty) == ty && !is_cfg_test(&im.attrs) {
                    for x in &im.items {
                        if let ImplItem::Fn(m) = x {
                            if m.sig.ident == name {
                                hits.push(mk(m.sig.clone(), m.block.clone()));
                            }
                        }
                    }
                }
            }
        });
    } else {
        walk(&f.items, &mut |it| {
            if let Item::Fn(m) = it {
                if m.sig.ident == item {
                    hits.push(mk(m.sig.clone(), (*m.block).clone()));
                }
            }
        });
    }
    match hits.len() {
        0 => Err(Fail(format!("function {item} not found"))),
        1 => Ok(hits.pop().unwrap()),
        n => Err(Fail(format!("function {item} found {n} times"))),
    }
}

fn mk(sig: Signature, block: Block) -> ItemFn {
    ItemFn { attrs: vec![], vis: pubv(), sig, block: Box::new(block) }
}

fn walk(items: &[Item], f: &mut dyn FnMut(&Item)) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if !is_cfg_test(&m.attrs) {
                    if let Some((_, c)) = &m.content {
                        walk(c, f);
                    }
                }
            }
            _ => f(it),
        }
    }
}
