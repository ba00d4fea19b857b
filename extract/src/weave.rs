//! Item selection and weaving of the overlays.
use crate::dialect::path_str;
use crate::overlay::{FnOv, Overlay};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cfg {
    pub keep_mods: Vec<String>,
    pub drop: BTreeSet<String>,
    pub keep: BTreeSet<String>,
    pub drop_traits: BTreeSet<String>,
    pub used_overlays: BTreeSet<String>,
    pub markers: Vec<String>,
    pub report: BTreeMap<String, serde_json::Value>,
    pub dropped: Vec<String>,
    pub lost: Vec<String>,
    /// functions kept as their contract only: key patterns, `*` at one end
    pub opaque: Vec<String>,
    /// put a false assertion at the start of every body (vacuity guard)
    pub smoke: bool,
}
impl Cfg {
    /// `key` is named in the unit's drop list, by itself or by a prefix ending in `*`
    fn drops(&self, key: &str) -> bool {
        self.drop.iter().any(|d| d == key || d.strip_suffix('*').is_some_and(|p| key.starts_with(p)))
    }
}

pub fn norm(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

pub fn ty_key(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let seg = p.path.segments.last().unwrap();
            seg.ident.to_string()
        }
        _ => norm(t),
    }
}

pub fn impl_key(m: &str, i: &ItemImpl) -> String {
    let s = ty_key(&i.self_ty);
    match &i.trait_ {
        None => format!("{m}::{s}"),
        Some((_, p, _)) => {
            let seg = p.segments.last().unwrap();
            let args = match &seg.arguments {
                PathArguments::AngleBracketed(a) => norm(&a.args).trim_end_matches(',').to_string(),
                _ => String::new(),
            };
            if args.is_empty() || args == "'s" {
                format!("{m}::{s} as {}", seg.ident)
            } else {
                format!("{m}::{s} as {}<{args}>", seg.ident)
            }
        }
    }
}

const DROP_TRAITS: &[&str] = &[
    "Debug", "Display", "Hash", "StructuralPartialEq", "Eq", "PartialEq", "Error", "Borrow", "BorrowMut",
    "Deref", "DerefMut", "IntoIterator", "Serialize", "Deserialize", "Iterator",
];
const STD_KEEP: &[&str] = &["std::marker::PhantomData", "std::ops::Range", "std::ops::Deref", "std::ops::DerefMut"];

fn join(a: &str, b: &str) -> String {
    if a.is_empty() { b.to_string() } else { format!("{a}::{b}") }
}

pub fn filter_file(file: &mut File, cfg: &mut Cfg) {
    // names of macros, removed from imports
    struct M(BTreeSet<String>);
    impl<'a> visit::Visit<'a> for M {
        fn visit_item_macro(&mut self, i: &'a ItemMacro) {
            if let Some(n) = &i.ident {
                self.0.insert(n.to_string());
            }
        }
    }
    let mut m = M(BTreeSet::new());
    visit::Visit::visit_file(&mut m, file);
    filter_items(&mut file.items, "", cfg, &m.0);
}

fn wanted(cfg: &Cfg, path: &str) -> bool {
    cfg.keep_mods.iter().any(|k| k == path || k.starts_with(&format!("{path}::")))
}
fn listed(cfg: &Cfg, path: &str) -> bool {
    cfg.keep_mods.iter().any(|k| k == path || (path.is_empty() && k == "crate"))
}

fn filter_use(t: &UseTree, pre: &str, macros: &BTreeSet<String>) -> Option<UseTree> {
    match t {
        UseTree::Path(p) => {
            let s = join(pre, &p.ident.to_string());
            filter_use(&p.tree, &s, macros).map(|x| UseTree::Path(UsePath { tree: Box::new(x), ..p.clone() }))
        }
        UseTree::Group(g) => {
            let items: punctuated::Punctuated<UseTree, Token![,]> =
                g.items.iter().filter_map(|x| filter_use(x, pre, macros)).collect();
            if items.is_empty() { None } else { Some(UseTree::Group(UseGroup { items, ..g.clone() })) }
        }
        UseTree::Name(n) => {
            let s = join(pre, &n.ident.to_string());
            if pre.starts_with("std") || pre.starts_with("core") {
                return STD_KEEP.contains(&s.as_str()).then(|| t.clone());
            }
            if macros.contains(&n.ident.to_string()) { None } else { Some(t.clone()) }
        }
        UseTree::Rename(r) => {
            if macros.contains(&r.ident.to_string()) { None } else { Some(t.clone()) }
        }
        UseTree::Glob(_) => Some(t.clone()),
    }
}

fn filter_items(items: &mut Vec<Item>, path: &str, cfg: &mut Cfg, macros: &BTreeSet<String>) {
    // `const _: () = { ... }` blocks only scope items: hoist them
    let mut flat = Vec::new();
    for it in items.drain(..) {
        match it {
            Item::Const(c) if c.ident == "_" => {
                if let Expr::Block(b) = *c.expr {
                    for s in b.block.stmts {
                        if let Stmt::Item(i) = s {
                            flat.push(i);
                        }
                    }
                }
            }
            x => flat.push(x),
        }
    }
    let mut child_mods = BTreeSet::new();
    for it in &flat {
        if let Item::Mod(m) = it {
            child_mods.insert(m.ident.to_string());
        }
    }
    let on = listed(cfg, path);
    let mut out = Vec::new();
    let mut uses = BTreeSet::new();
    for mut it in flat {
        if let Item::Use(u) = &it {
            if !uses.insert(norm(&u.tree)) {
                continue;
            }
        }
        let keep = match &mut it {
            Item::Mod(m) => {
                let p = join(path, &m.ident.to_string());
                if wanted(cfg, &p) {
                    if let Some((_, its)) = &mut m.content {
                        filter_items(its, &p, cfg, macros);
                    }
                    true
                } else {
                    cfg.dropped.push(format!("mod {p}"));
                    false
                }
            }
            Item::Use(u) => {
                let root = match &u.tree {
                    UseTree::Path(p) => p.ident.to_string(),
                    UseTree::Name(p) => p.ident.to_string(),
                    UseTree::Rename(p) => p.ident.to_string(),
                    _ => String::new(),
                };
                let ok = match root.as_str() {
                    "crate" | "super" | "self" => on,
                    "std" | "core" => on,
                    r if child_mods.contains(r) => wanted(cfg, &join(path, r)),
                    _ => false,
                };
                if ok && !cfg.drops(&format!("{path}::use {}", norm(&u.tree))) {
                    match filter_use(&u.tree, "", macros) {
                        Some(t) => {
                            u.tree = t;
                            true
                        }
                        None => false,
                    }
                } else {
                    false
                }
            }
            Item::Macro(_) | Item::ExternCrate(_) => false,
            _ if !on => {
                cfg.dropped.push(format!("item in {path}"));
                false
            }
            Item::Impl(i) => {
                let k = impl_key(path, i);
                let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let mut keep = match &tr {
                    Some(t) => !(DROP_TRAITS.contains(&t.as_str()) || cfg.drop_traits.contains(t)),
                    None => true,
                };
                // derive output of Clone for references to L: keep; explicit lists win
                if cfg.drops(&k) {
                    keep = false;
                }
                if cfg.keep.contains(&k) {
                    keep = true;
                }
                if keep {
                    let mut dr = Vec::new();
                    i.items.retain(|x| {
                        let n = match x {
                            ImplItem::Fn(f) => format!("{k}::{}", f.sig.ident),
                            ImplItem::Type(f) => format!("{k}::{}", f.ident),
                            ImplItem::Const(f) => format!("{k}::{}", f.ident),
                            _ => return false,
                        };
                        let d = cfg.drops(&n);
                        if d {
                            dr.push(n);
                        }
                        !d
                    });
                    cfg.dropped.extend(dr);
                } else {
                    cfg.dropped.push(k);
                }
                keep
            }
            Item::Trait(t) => {
                let k = format!("{path}::{}", t.ident);
                if cfg.drops(&k) {
                    cfg.dropped.push(k);
                    false
                } else {
                    t.items.retain(|x| {
                        let n = match x {
                            TraitItem::Fn(f) => f.sig.ident.to_string(),
                            TraitItem::Type(f) => f.ident.to_string(),
                            TraitItem::Const(f) => f.ident.to_string(),
                            _ => return false,
                        };
                        !cfg.drops(&format!("{k}::{n}"))
                    });
                    true
                }
            }
            Item::Struct(ItemStruct { ident, .. }) | Item::Enum(ItemEnum { ident, .. }) | Item::Type(ItemType { ident, .. }) | Item::Const(ItemConst { ident, .. }) | Item::Static(ItemStatic { ident, .. }) => {
                let k = format!("{path}::{ident}");
                let d = cfg.drops(&k);
                if d {
                    cfg.dropped.push(k);
                }
                !d
            }
            Item::Fn(f) => {
                let k = format!("{path}::{}", f.sig.ident);
                let d = cfg.drops(&k);
                if d {
                    cfg.dropped.push(k);
                }
                !d
            }
            _ => true,
        };
        if keep {
            out.push(it);
        }
    }
    *items = out;
}

/// The default bodies of the named trait functions (`Trait::fn`) move into the implementations that
/// do not override them, where they can be checked against what the implementation promises.
pub fn materialize(file: &mut File, names: &[String]) {
    fn each(items: &mut [Item], f: &mut dyn FnMut(&mut Item)) {
        for i in items {
            match i {
                Item::Mod(m) => {
                    if let Some((_, its)) = &mut m.content {
                        each(its, f);
                    }
                }
                x => f(x),
            }
        }
    }
    for n in names {
        let (tr, fun) = n.rsplit_once("::").expect("materialize");
        let mut found: Option<ImplItemFn> = None;
        each(&mut file.items, &mut |i| {
            if let Item::Trait(t) = i {
                if t.ident == tr {
                    for x in t.items.iter_mut() {
                        if let TraitItem::Fn(f) = x {
                            if f.sig.ident == fun {
                                if let Some(b) = f.default.take() {
                                    let sig = &f.sig;
                                    found = Some(parse_quote!(#sig #b));
                                    f.semi_token = Some(Default::default());
                                }
                            }
                        }
                    }
                }
            }
        });
        let Some(body) = found else { continue };
        each(&mut file.items, &mut |i| {
            if let Item::Impl(m) = i {
                if m.trait_.as_ref().is_some_and(|t| t.1.segments.last().unwrap().ident == tr)
                    && !m.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == fun))
                {
                    m.items.push(ImplItem::Fn(body.clone()));
                }
            }
        });
    }
}

// ---------------------------------------------------------------- weaving

impl Cfg {
    fn mark(&mut self, text: String) -> usize {
        self.markers.push(text);
        self.markers.len() - 1
    }
}

pub fn weave_file(file: &mut File, cfg: &mut Cfg, ov: &Overlay) {
    weave_items(&mut file.items, "", cfg, ov);
}

/// `impl Iterator for X { type Item = T; fn next(..) }` is verified as `impl X { fn next(..) }`,
/// because Verus lets a trait function have no precondition of its own (and has no Borrow).
fn inherent_iterator(i: &mut ItemImpl) {
    if !i.trait_.as_ref().is_some_and(|t| ["Iterator", "Borrow", "BorrowMut"].contains(&t.1.segments.last().unwrap().ident.to_string().as_str())) {
        return;
    }
    i.trait_ = None;
    struct R(Option<Type>);
    impl visit_mut::VisitMut for R {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if t.to_token_stream().to_string() == "Self :: Item" {
                *t = self.0.clone().expect("Item");
                return;
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    let mut r = R(None);
    i.items.retain(|x| match x {
        ImplItem::Type(t) => {
            r.0 = Some(t.ty.clone());
            false
        }
        _ => true,
    });
    for x in i.items.iter_mut() {
        if let ImplItem::Fn(f) = x {
            f.vis = parse_quote!(pub);
        }
    }
    visit_mut::VisitMut::visit_item_impl_mut(&mut r, i);
}

fn weave_items(items: &mut Vec<Item>, path: &str, cfg: &mut Cfg, ov: &Overlay) {
    let has_code = items.iter().any(|i| !matches!(i, Item::Mod(_) | Item::Use(_))) || ov.mods.contains_key(path);
    for it in items.iter_mut() {
        match it {
            Item::Mod(m) => {
                let p = join(path, &m.ident.to_string());
                if let Some((_, its)) = &mut m.content {
                    weave_items(its, &p, cfg, ov);
                }
            }
            Item::Fn(f) => {
                let k = format!("{path}::{}", f.sig.ident);
                let o = ov.fns.get(&k).cloned();
                weave_fn(&k, &mut f.attrs, &mut f.sig, Some(&mut f.block), cfg, o);
            }
            Item::Impl(i) => {
                let k = impl_key(path, i);
                inherent_iterator(i);
                if let Some(b) = ov.bounds.get(&k) {
                    add_bounds(&mut i.generics, b);
                }
                for x in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        let k = format!("{k}::{}", f.sig.ident);
                        let o = ov.fns.get(&k).cloned();
                        weave_fn(&k, &mut f.attrs, &mut f.sig, Some(&mut f.block), cfg, o);
                    }
                }
                if let Some(t) = ov.impls.get(&k) {
                    cfg.used_overlays.insert(k.clone());
                    let n = cfg.mark(t.clone());
                    let m: ImplItem = parse_quote!(__vt_items!(#n););
                    i.items.insert(0, m);
                }
            }
            Item::Trait(t) => {
                let k = format!("{path}::{}", t.ident);
                if let Some(b) = ov.bounds.get(&k) {
                    // extra supertraits
                    let b: TypeParamBound = parse_str(b).expect("bound");
                    t.supertraits.push(b);
                    if t.colon_token.is_none() {
                        t.colon_token = Some(Default::default());
                    }
                }
                for x in t.items.iter_mut() {
                    if let TraitItem::Fn(f) = x {
                        let k = format!("{k}::{}", f.sig.ident);
                        let o = ov.fns.get(&k).cloned();
                        let mut b = f.default.take();
                        let had = b.is_some();
                        let mut attrs = std::mem::take(&mut f.attrs);
                        if !had {
                            let o2 = o.clone().unwrap_or_default();
                            if ov.fns.contains_key(&k) {
                                cfg.used_overlays.insert(k.clone());
                            }
                            ret_type(&mut f.sig, &o2);
                            for a in &o2.attrs {
                                attrs.push(parse_attr(a));
                            }
                            let n = cfg.mark(format!(" /*@decl {k}*/\n{}", o2.spec));
                            b = Some(parse_quote!({ __vt_decl!(#n); }));
                        } else {
                            weave_fn(&k, &mut attrs, &mut f.sig, b.as_mut(), cfg, o);
                        }
                        f.attrs = attrs;
                        f.default = b;
                        f.semi_token = None;
                    }
                }
                if let Some(x) = ov.traits.get(&k) {
                    cfg.used_overlays.insert(k.clone());
                    let n = cfg.mark(x.clone());
                    let m: TraitItem = parse_quote!(__vt_items!(#n););
                    t.items.insert(0, m);
                }
            }
            Item::Struct(s) => {
                let k = format!("{path}::{}", s.ident);
                struct_attrs(&mut s.attrs, &k, ov, cfg);
            }
            Item::Enum(s) => {
                let k = format!("{path}::{}", s.ident);
                struct_attrs(&mut s.attrs, &k, ov, cfg);
            }
            _ => {}
        }
    }
    if has_code {
        items.insert(0, parse_quote!(use vstd::prelude::*;));
        items.insert(1, parse_quote!(use crate::shim::*;));
    }
    // `From` impls promise nothing beyond their own contract
    let mut froms = String::new();
    for it in items.iter() {
        if let Item::Impl(i) = it {
            if let Some((_, p, _)) = &i.trait_ {
                let s = p.segments.last().unwrap();
                if s.ident == "From" && p.segments.len() <= 3 {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        let (g, _, w) = i.generics.split_for_impl();
                        let (a, t) = (a.args.first().unwrap().to_token_stream(), i.self_ty.to_token_stream());
                        let own = format!("FromSpecImpl<{}>for{}", a, t).replace(' ', "");
                        if ov.mods.get(path).is_some_and(|x| x.replace(' ', "").contains(&own)) {
                            continue;
                        }
                        froms.push_str(&format!(
                            "impl {} vstd::std_specs::convert::FromSpecImpl<{a}> for {t} {} {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: {a}) -> Self {{ arbitrary() }} }}\n",
                            g.to_token_stream(), w.to_token_stream()
                        ));
                    }
                }
            }
        }
    }
    if !froms.is_empty() {
        let n = cfg.mark(froms);
        items.push(parse_quote!(__vt_items!(#n);));
    }
    if let Some(t) = ov.mods.get(path) {
        cfg.used_overlays.insert(path.to_string());
        let n = cfg.mark(format!("/*@fn overlay:{path}*/\n{t}"));
        items.push(parse_quote!(__vt_items!(#n);));
    }
}

fn struct_attrs(attrs: &mut Vec<Attribute>, k: &str, ov: &Overlay, cfg: &mut Cfg) {
    if let Some(o) = ov.fns.get(k) {
        cfg.used_overlays.insert(k.to_string());
        for a in &o.attrs {
            attrs.push(parse_attr(a));
        }
    }
}

fn add_bounds(g: &mut Generics, b: &str) {
    let w: WhereClause = parse_str(&format!("where {b}")).expect("bounds");
    let wc = g.make_where_clause();
    for p in w.predicates {
        wc.predicates.push(p);
    }
}

fn parse_attr(a: &str) -> Attribute {
    let i: ItemStruct = parse_str(&format!("{a} struct X;")).expect("attr");
    i.attrs[0].clone()
}

fn ret_type(sig: &mut Signature, o: &FnOv) {
    if let Some(t) = &o.ret_ty {
        let t: Type = parse_str(t).expect("retty");
        sig.output = parse_quote!(-> #t);
    }
    if let ReturnType::Type(_, t) = &sig.output {
        let r = format_ident!("{}", o.ret.clone().unwrap_or("r".into()));
        let t = t.clone();
        sig.output = parse_quote!(-> __vt_ret!(#r : #t));
    }
}

struct W<'a> {
    o: &'a FnOv,
    cfg: &'a mut Cfg,
    loops: usize,
    closures: usize,
    key: String,
    calls: BTreeSet<String>,
}

impl<'a> W<'a> {
    fn stmt(&mut self, text: &str) -> Stmt {
        let n = self.cfg.mark(text.to_string());
        parse_quote!(__vt!(#n);)
    }
    fn get(&self, k: usize, w: &str) -> Option<String> {
        self.o.loops.get(&k).and_then(|m| m.get(w)).cloned()
    }
    fn body(&mut self, k: usize, b: &mut Block) {
        if let Some(t) = self.get(k, "loopend") {
            let s = self.stmt(&t);
            // a trailing expression of a loop body has type ()
            if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            b.stmts.push(s);
        }
        if let Some(t) = self.get(k, "loopstart") {
            let s = self.stmt(&t);
            b.stmts.insert(0, s);
        }
        let head = self.get(k, "loop").unwrap_or_default();
        let n = self.cfg.mark(head);
        b.stmts.insert(0, parse_quote!(__vt_sig!(#n);));
    }
}

fn loop_of(s: &Stmt) -> Option<&Expr> {
    match s {
        Stmt::Expr(e @ (Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)), _) => Some(e),
        _ => None,
    }
}

impl<'a> VisitMut for W<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            // anchors are matched on the text of the whole statement before weaving
            let text = norm(&s);
            let mut before = Vec::new();
            let mut after = Vec::new();
            if self.o.anchors.iter().any(|_| true) && !matches!(s, Stmt::Macro(_)) {
                let mut hit: Vec<(&String, &String)> = Vec::new();
                for (i, (w, pat, t)) in self.o.anchors.iter().enumerate() {
                    let p = pat.replace(' ', "");
                    // the same anchor again means the next such statement
                    if text.starts_with(&p) && !hit.contains(&(w, pat)) {
                        let id = format!("{}#anchor{}", self.key, i);
                        if self.cfg.used_overlays.insert(id) {
                            hit.push((w, pat));
                            if w == "before" { before.push(t.clone()) } else { after.push(t.clone()) }
                        }
                    }
                }
            }
            let k = self.loops;
            let is_loop = loop_of(&s).is_some();
            visit_mut::visit_stmt_mut(self, &mut s);
            for t in before {
                let x = self.stmt(&t);
                out.push(x);
            }
            if is_loop {
                if let Some(t) = self.get(k, "loopbefore") {
                    let x = self.stmt(&t);
                    out.push(x);
                }
            }
            out.push(s);
            if is_loop {
                if let Some(t) = self.get(k, "loopafter") {
                    let x = self.stmt(&t);
                    if let Some(Stmt::Expr(_, semi)) = out.last_mut() {
                        let _ = semi;
                    }
                    out.push(x);
                }
            }
            for t in after {
                let x = self.stmt(&t);
                out.push(x);
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                self.body(k, &mut w.body);
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                self.visit_block_mut(&mut w.body);
                self.body(k, &mut w.body);
                return;
            }
            Expr::ForLoop(w) => {
                let k = self.loops;
                self.loops += 1;
                self.visit_block_mut(&mut w.body);
                self.body(k, &mut w.body);
                return;
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                self.visit_expr_mut(&mut c.body);
                if let Some((sig, spec)) = self.o.closures.get(&k).cloned() {
                    let spec = format!("/*closure*/{spec}");
                    if !sig.is_empty() {
                        // (t: &T) -> (r: R)
                        let (ins, ret) = sig.split_once("->").unwrap_or((&sig, ""));
                        let one = |x: &str| -> String { let x = x.trim(); x.strip_prefix('(').and_then(|x| x.strip_suffix(')')).unwrap_or(x).to_string() };
                        let ins = one(ins);
                        // keep the patterns of the code, take the types of the overlay
                        let cl: ExprClosure = parse_str(&format!("|{ins}| ()")).expect("closure sig");
                        if cl.inputs.len() != c.inputs.len() {
                            self.cfg.lost.push(format!("{}: closure {k} has another number of parameters", self.key));
                            return;
                        }
                        let pats: Vec<Pat> = c.inputs.iter().zip(cl.inputs.iter()).map(|(a, b)| match (a, b) {
                            (Pat::Type(_), _) => a.clone(),
                            (a, Pat::Type(bt)) => {
                                let t = &bt.ty;
                                // specs name the parameter as the overlay does; rename if the code differs
                                let _ = a;
                                Pat::Type(PatType { attrs: vec![], pat: Box::new(a.clone()), colon_token: Default::default(), ty: t.clone() })
                            }
                            (a, _) => a.clone(),
                        }).collect();
                        // names in the specification: overlay name -> code name
                        let mut spec2 = spec.clone();
                        for (a, b) in c.inputs.iter().zip(cl.inputs.iter()) {
                            let an = match a { Pat::Type(p) => norm(&p.pat), p => norm(p) };
                            let bn = match b { Pat::Type(p) => norm(&p.pat), p => norm(p) };
                            if an != bn && !an.contains('(') {
                                spec2 = rename_word(&spec2, &bn, &an);
                            }
                        }
                        c.inputs = pats.into_iter().collect();
                        let ret = one(ret);
                        if !ret.is_empty() {
                            let (n, t) = ret.split_once(':').expect("closure ret");
                            let n = format_ident!("{}", n.trim());
                            let t: Type = parse_str(t).expect("closure ret ty");
                            c.output = parse_quote!(-> __vt_ret!(#n : #t));
                        }
                        let n = self.cfg.mark(spec2);
                        let body = c.body.clone();
                        c.body = parse_quote!({ __vt_sig!(#n); #body });
                    }
                }
                return;
            }
            Expr::MethodCall(m) => {
                self.calls.insert(format!(".{}", m.method));
            }
            Expr::Call(c) => {
                self.calls.insert(norm(&c.func));
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, _m: &mut Macro) {}
}

fn rename_word(s: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for ch in s.chars().chain(std::iter::once('\n')) {
        if ch.is_alphanumeric() || ch == '_' {
            word.push(ch);
        } else {
            out.push_str(if word == from { to } else { &word });
            word.clear();
            out.push(ch);
        }
    }
    out
}

fn weave_fn(key: &str, attrs: &mut Vec<Attribute>, sig: &mut Signature, block: Option<&mut Block>, cfg: &mut Cfg, o: Option<FnOv>) {
    if o.is_some() {
        cfg.used_overlays.insert(key.to_string());
    }
    let mut o = o.unwrap_or_default();
    if cfg.opaque.iter().any(|p| p == key || p.strip_prefix('*').is_some_and(|x| key.ends_with(x)) || p.strip_suffix('*').is_some_and(|x| key.starts_with(x))) {
        o.opaque = true;
    }
    let block = block.unwrap();
    let hash = norm(block);
    ret_type(sig, &o);
    for a in &o.attrs {
        attrs.push(parse_attr(a));
    }
    let mut w = W { o: &o, cfg, loops: 0, closures: 0, key: key.to_string(), calls: BTreeSet::new() };
    if o.opaque {
        let a = if o.forced_opaque { "forced" } else { "overlay" };
        let _ = a;
        attrs.push(parse_attr("#[verifier::external_body]"));
        *block = parse_quote!({ ::core::panic!() });
    } else {
        w.visit_block_mut(block);
        if !o.post.trim().is_empty() {
            let s = w.stmt(&o.post);
            let tail = match block.stmts.last() {
                Some(Stmt::Expr(e, None)) if !matches!(sig.output, ReturnType::Default) => Some(e.clone()),
                _ => None,
            };
            match tail {
                Some(e) => {
                    block.stmts.pop();
                    let ty = match &sig.output {
                        ReturnType::Type(_, t) => match &**t {
                            Type::Macro(m) => m.mac.tokens.to_string().split_once(':').and_then(|(_, t)| parse_str::<Type>(t).ok()),
                            Type::ImplTrait(_) => None,
                            t => Some(t.clone()),
                        },
                        ReturnType::Default => None,
                    };
                    block.stmts.push(match ty {
                        Some(t) => parse_quote!(let vt_ret: #t = #e;),
                        None => parse_quote!(let vt_ret = #e;),
                    });
                    block.stmts.push(s);
                    block.stmts.push(Stmt::Expr(parse_quote!(vt_ret), None));
                }
                None => {
                    if let Some(Stmt::Expr(_, semi @ None)) = block.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    block.stmts.push(s)
                }
            }
        }
        // headers such as hide(..) come first in a body, so the vacuity guard goes after them
        let mut pre = o.pre.clone();
        if w.cfg.smoke {
            pre.push_str("\nproof { assert(false); }\n");
        }
        if !pre.trim().is_empty() {
            let s = w.stmt(&pre);
            block.stmts.insert(0, s);
        }
    }
    let (nl, nc, calls) = (w.loops, w.closures, std::mem::take(&mut w.calls));
    let mut lost = Vec::new();
    if !o.opaque {
        for k in o.loops.keys() {
            if *k >= nl {
                lost.push(format!("{key}: loop {k} is gone"));
            }
        }
        for k in o.closures.keys() {
            if *k >= nc {
                lost.push(format!("{key}: closure {k} is gone"));
            }
        }
        for (i, (_, p, _)) in o.anchors.iter().enumerate() {
            if !cfg.used_overlays.contains(&format!("{key}#anchor{i}")) {
                lost.push(format!("{key}: no statement starts with `{p}`"));
            }
        }
    }
    cfg.lost.extend(lost);
    let kind = if o.opaque { "opaque" } else { "body" };
    let n = cfg.mark(format!(" /*@fn {key}*/\n{}", o.spec));
    block.stmts.insert(0, parse_quote!(__vt_sig!(#n);));
    cfg.report.insert(
        key.to_string(),
        serde_json::json!({"loops": nl, "closures": nc, "calls": calls, "kind": kind, "spec": !o.spec.trim().is_empty(), "hash": fnv(&hash)}),
    );
    let _ = (path_str as fn(&Path) -> String, quote!());
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

/// Replace the marker macros in the printed text by what they stand for.
pub fn substitute(text: &str, markers: &[String]) -> String {
    let b: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let starts = |i: usize, s: &str| -> bool {
        let c: Vec<char> = s.chars().collect();
        i + c.len() <= b.len() && b[i..i + c.len()] == c[..]
    };
    let skip_ws = |mut i: usize| -> usize {
        while i < b.len() && b[i].is_whitespace() {
            i += 1;
        }
        i
    };
    // parses "name!(N)" + optional ";" at i, returns (N, end)
    let num = |i: usize, name: &str| -> Option<(usize, usize)> {
        if !starts(i, name) {
            return None;
        }
        let mut j = i + name.len();
        let close = match b.get(j) {
            Some('(') => ')',
            Some('{') => '}',
            _ => return None,
        };
        j = skip_ws(j + 1);
        let st = j;
        while j < b.len() && b[j].is_ascii_digit() {
            j += 1;
        }
        let n: usize = b[st..j].iter().collect::<String>().parse().ok()?;
        while j < b.len() && (b[j].is_alphanumeric()) {
            j += 1;
        }
        j = skip_ws(j);
        if b.get(j) != Some(&close) {
            return None;
        }
        j += 1;
        if b.get(j) == Some(&';') {
            j += 1;
        }
        Some((n, j))
    };
    while i < b.len() {
        if b[i] == '{' {
            let j = skip_ws(i + 1);
            if let Some((n, e)) = num(j, "__vt_sig!") {
                out.push_str(&format!("\n{}{{", markers[n]));
                i = e;
                continue;
            }
            if let Some((n, e)) = num(j, "__vt_decl!") {
                let e2 = skip_ws(e);
                assert!(b[e2] == '}');
                out.push_str(&format!("\n{};", markers[n]));
                i = e2 + 1;
                continue;
            }
        }
        if let Some((n, e)) = num(i, "__vt!") {
            out.push_str(&markers[n]);
            i = e;
            continue;
        }
        if let Some((n, e)) = num(i, "__vt_items!") {
            out.push_str(&markers[n]);
            i = e;
            continue;
        }
        if starts(i, "__vt_ret!(") {
            let st = i + "__vt_ret!(".len();
            let mut d = 1;
            let mut j = st;
            while d > 0 {
                match b[j] {
                    '(' | '[' => d += 1,
                    ')' | ']' => d -= 1,
                    _ => {}
                }
                j += 1;
            }
            out.push('(');
            out.extend(&b[st..j - 1]);
            out.push(')');
            i = j;
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

// ---------------------------------------------------------------- imports of items that were left out

#[derive(Default)]
struct ModInfo {
    names: BTreeSet<String>,
    globs: Vec<Vec<String>>,
    uses: Vec<(String, Vec<String>)>,
}

fn leaves(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(String, Vec<String>, bool)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            leaves(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut p = pre.clone();
            if n.ident == "self" {
                out.push((p.last().cloned().unwrap_or_default(), p, false));
            } else {
                p.push(n.ident.to_string());
                out.push((n.ident.to_string(), p, false));
            }
        }
        UseTree::Rename(r) => {
            let mut p = pre.clone();
            p.push(r.ident.to_string());
            out.push((r.rename.to_string(), p, false));
        }
        UseTree::Glob(_) => out.push((String::new(), pre.clone(), true)),
        UseTree::Group(g) => g.items.iter().for_each(|x| leaves(x, pre, out)),
    }
}

fn absolute(path: &[String], from: &[String]) -> Vec<String> {
    let mut base: Vec<String>;
    let mut i = 0;
    match path.first().map(|s| s.as_str()) {
        Some("crate") => {
            base = vec![];
            i = 1;
        }
        Some("self") => {
            base = from.to_vec();
            i = 1;
        }
        Some("super") => {
            base = from.to_vec();
            while path.get(i).map(|s| s == "super").unwrap_or(false) {
                base.pop();
                i += 1;
            }
        }
        _ => base = from.to_vec(),
    }
    base.extend(path[i..].iter().cloned());
    base
}

fn collect_mod(items: &[Item], path: &[String], ov: &Overlay, t: &mut BTreeMap<Vec<String>, ModInfo>) {
    let mut mi = ModInfo::default();
    for it in items {
        match it {
            Item::Struct(ItemStruct { ident, .. }) | Item::Enum(ItemEnum { ident, .. }) | Item::Type(ItemType { ident, .. }) | Item::Const(ItemConst { ident, .. }) | Item::Static(ItemStatic { ident, .. }) | Item::Trait(ItemTrait { ident, .. }) => {
                mi.names.insert(ident.to_string());
            }
            Item::Fn(f) => {
                mi.names.insert(f.sig.ident.to_string());
            }
            Item::Mod(m) => {
                mi.names.insert(m.ident.to_string());
                let mut p = path.to_vec();
                p.push(m.ident.to_string());
                if let Some((_, its)) = &m.content {
                    collect_mod(its, &p, ov, t);
                }
            }
            Item::Use(u) => {
                let mut l = Vec::new();
                leaves(&u.tree, &mut Vec::new(), &mut l);
                for (n, p, g) in l {
                    let a = absolute(&p, path);
                    if g { mi.globs.push(a) } else { mi.uses.push((n, a)) }
                }
            }
            _ => {}
        }
    }
    if let Some(text) = ov.mods.get(&path.join("::")) {
        let words: Vec<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
        for w in words.windows(2) {
            if ["struct", "enum", "trait", "type", "fn"].contains(&w[0]) {
                mi.names.insert(w[1].to_string());
            }
        }
    }
    t.insert(path.to_vec(), mi);
}

fn resolves(t: &BTreeMap<Vec<String>, ModInfo>, path: &[String], depth: usize) -> bool {
    if depth > 12 {
        return false;
    }
    if path.is_empty() || t.contains_key(path) {
        return true;
    }
    let (name, m) = path.split_last().unwrap();
    let Some(mi) = t.get(m) else {
        // path through an enum or a re-exported module
        return m.len() < path.len() && !m.is_empty() && {
            let (n2, m2) = m.split_last().unwrap();
            t.get(m2).map(|x| x.names.contains(n2)).unwrap_or(false)
        };
    };
    if mi.names.contains(name) {
        return true;
    }
    if mi.uses.iter().any(|(n, p)| n == name && resolves(t, p, depth + 1)) {
        return true;
    }
    mi.globs.iter().any(|g| {
        let mut p = g.clone();
        p.push(name.clone());
        t.contains_key(g) && resolves(t, &p, depth + 1)
    })
}

pub fn prune_uses(file: &mut File, ov: &Overlay) {
    let mut t = BTreeMap::new();
    collect_mod(&file.items, &[], ov, &mut t);
    prune(&mut file.items, &[], &t);
}

fn prune_tree(u: &UseTree, pre: &mut Vec<String>, from: &[String], t: &BTreeMap<Vec<String>, ModInfo>) -> Option<UseTree> {
    let ok = |p: &Vec<String>| -> bool {
        matches!(p.first().map(|s| s.as_str()), Some("std") | Some("core")) || resolves(t, &absolute(p, from), 0)
    };
    match u {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            let r = prune_tree(&p.tree, pre, from, t);
            pre.pop();
            r.map(|x| UseTree::Path(UsePath { tree: Box::new(x), ..p.clone() }))
        }
        UseTree::Group(g) => {
            let items: punctuated::Punctuated<UseTree, Token![,]> = g.items.iter().filter_map(|x| prune_tree(x, pre, from, t)).collect();
            if items.is_empty() { None } else { Some(UseTree::Group(UseGroup { items, ..g.clone() })) }
        }
        UseTree::Name(n) => {
            let mut p = pre.clone();
            if n.ident != "self" {
                p.push(n.ident.to_string());
            }
            ok(&p).then(|| u.clone())
        }
        UseTree::Rename(n) => {
            let mut p = pre.clone();
            p.push(n.ident.to_string());
            ok(&p).then(|| u.clone())
        }
        UseTree::Glob(_) => t.contains_key(&absolute(pre, from)).then(|| u.clone()),
    }
}

fn prune(items: &mut Vec<Item>, path: &[String], t: &BTreeMap<Vec<String>, ModInfo>) {
    items.retain_mut(|it| match it {
        Item::Use(u) => match prune_tree(&u.tree, &mut Vec::new(), path, t) {
            Some(x) => {
                u.tree = x;
                true
            }
            None => false,
        },
        Item::Mod(m) => {
            let mut p = path.to_vec();
            p.push(m.ident.to_string());
            if let Some((_, its)) = &mut m.content {
                prune(its, &p, t);
            }
            true
        }
        _ => true,
    });
}
