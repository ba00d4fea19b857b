//! Dialect rules: the general source-to-source rewrites that bring expanded Rust into what Verus
//! accepts. Each rule is a faithful restatement of the Rust construct it replaces (see DESIGN.md).
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// bounds that carry no meaning for the verified text
const NO_BOUNDS: &[&str] = &["Debug", "Hash", "Display", "Error", "Serialize", "Borrow", "BorrowMut", "Integer", "BitAnd", "BitOr", "Not"];
/// methods whose std names clash with what the shims can provide
const RENAME: &[&str] = &["iter", "zip", "to_vec", "binary_search_by"];

pub fn path_str(p: &Path) -> String {
    let mut s = String::new();
    if p.leading_colon.is_some() {
        s.push_str("::");
    }
    for (i, seg) in p.segments.iter().enumerate() {
        if i > 0 {
            s.push_str("::");
        }
        s.push_str(&seg.ident.to_string());
    }
    s
}

fn rewrite_path(p: &mut Path) {
    let s = path_str(p);
    let s2 = s.trim_start_matches("::");
    let to: Option<&str> = match s2 {
        "core::any::TypeId" | "std::any::TypeId" => Some("crate::shim::TypeId"),
        "std::array::from_fn" | "core::array::from_fn" => Some("crate::shim::vt_array_from_fn"),
        "crate::tp::Node" | "teleparse::tp::Node" => Some("crate::tp_impl::node::Node"),
        "logos::Lexer" => Some("crate::shim_logos::Lexer"),
        "logos::Logos" => Some("crate::shim_logos::Logos"),
        "std::borrow::Cow" => Some("crate::shim::Cow"),
        "std::collections::BTreeSet" => Some("crate::shim::BTreeSet"),
        "std::collections::BTreeMap" => Some("crate::shim::BTreeMap"),
        "std::default::Default" | "core::default::Default" => Some("Default"),
        "std::default::Default::default" | "core::default::Default::default" => Some("Default::default"),
        "core::clone::Clone" | "std::clone::Clone" => Some("Clone"),
        "core::clone::Clone::clone" => Some("Clone::clone"),
        "core::marker::Copy" => Some("Copy"),
        "core::cmp::PartialEq" => Some("PartialEq"),
        "core::option::Option" | "std::option::Option" => Some("Option"),
        "core::option::Option::Some" => Some("Some"),
        "core::option::Option::None" => Some("None"),
        "core::result::Result" | "std::result::Result" => Some("Result"),
        "std::string::String" => Some("String"),
        "std::vec::Vec" => Some("Vec"),
        "std::vec::Vec::new" => Some("Vec::new"),
        "core::panicking::panic" | "core::panicking::panic_fmt" => Some("crate::shim::vt_panic"),
        _ => None,
    };
    if let Some(t) = to {
        let np: Path = parse_str(t).unwrap();
        let last_args = p.segments.last().unwrap().arguments.clone();
        *p = np;
        p.segments.last_mut().unwrap().arguments = last_args;
        return;
    }
    // ::std::default::Default::default keeps its form for a longer prefix
    if s2.starts_with("teleparse::") && p.segments.len() > 1 {
        p.leading_colon = None;
        p.segments[0].ident = format_ident!("crate");
    }
}

fn qself(q: &mut Option<QSelf>, p: &mut Path) {
    if let Some(q) = q {
        if q.position > 0 {
            let mut pre = Path { leading_colon: p.leading_colon, segments: p.segments.iter().take(q.position).cloned().collect() };
            let rest: Vec<PathSegment> = p.segments.iter().skip(q.position).cloned().collect();
            rewrite_path(&mut pre);
            q.position = pre.segments.len();
            for r in rest {
                pre.segments.push(r);
            }
            *p = pre;
        }
    }
}

fn tokens_of(e: &impl ToTokens) -> String {
    e.to_token_stream().to_string()
}

fn has_macro_path(e: &Expr, what: &str) -> bool {
    tokens_of(e).replace(' ', "").contains(what)
}

struct Exprs {
    /// counter of loops in the current function (pre-order)
    loops: usize,
    tmp: usize,
    /// method names that go to the `vt_` traits of the shims
    rename: Vec<String>,
}

impl Exprs {
    fn idx(&mut self) -> usize {
        let k = self.loops;
        self.loops += 1;
        k
    }
}

fn method<'a>(e: &'a Expr, name: &str) -> Option<&'a ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == name => Some(m),
        Expr::Paren(p) => method(&p.expr, name),
        _ => None,
    }
}

/// `fn f((a, b): T)` becomes `fn f(vt_p0: T) { let (a, b) = vt_p0; .. }`
fn plain_params(sig: &mut Signature, block: &mut Block) {
    let mut at = 0;
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Receiver(r) = a {
            // `fn f(mut self)` becomes `fn f(self) { let mut vt_self = self; .. }`
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                SelfName.visit_block_mut(block);
                block.stmts.insert(0, parse_quote!(let mut vt_self = self;));
                at += 1;
            }
        }
        if let FnArg::Typed(t) = a {
            if matches!(&*t.pat, Pat::Ident(_) | Pat::Wild(_)) {
                continue;
            }
            let id = format_ident!("vt_p{k}");
            let pat = std::mem::replace(&mut *t.pat, parse_quote!(#id));
            block.stmts.insert(at, parse_quote!(let #pat = #id;));
            at += 1;
        }
    }
}

/// the `break`s with a value that belong to one loop
struct BreakValue {
    var: Option<Ident>,
    label: Option<Lifetime>,
    found: bool,
    depth: usize,
}
impl BreakValue {
    fn of(b: &Block) -> bool {
        let mut v = BreakValue { var: None, label: None, found: false, depth: 0 };
        v.visit_block_mut(&mut b.clone());
        v.found
    }
}
impl VisitMut for BreakValue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
            }
            Expr::Closure(_) => {}
            Expr::Break(b) if b.expr.is_some() && (b.label.is_none() && self.depth == 0 || b.label.is_some() && b.label == self.label) => {
                self.found = true;
                if let Some(v) = &self.var {
                    let x = b.expr.take().unwrap();
                    let lab = b.label.clone();
                    *e = parse_quote!({ #v = #x; break #lab; });
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

struct SelfName;
impl VisitMut for SelfName {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.is_ident("self") {
            p.path = parse_quote!(vt_self);
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

impl VisitMut for Exprs {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        let (l, t) = (std::mem::take(&mut self.loops), std::mem::take(&mut self.tmp));
        plain_params(&mut f.sig, &mut f.block);
        visit_mut::visit_item_fn_mut(self, f);
        (self.loops, self.tmp) = (l, t);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        let (l, t) = (std::mem::take(&mut self.loops), std::mem::take(&mut self.tmp));
        if self.rename.contains(&f.sig.ident.to_string()) {
            f.sig.ident = format_ident!("vt_{}", f.sig.ident);
        }
        plain_params(&mut f.sig, &mut f.block);
        visit_mut::visit_impl_item_fn_mut(self, f);
        (self.loops, self.tmp) = (l, t);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        let (l, t) = (std::mem::take(&mut self.loops), std::mem::take(&mut self.tmp));
        visit_mut::visit_trait_item_fn_mut(self, f);
        (self.loops, self.tmp) = (l, t);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        qself(&mut p.qself, &mut p.path);
        if let Some(q) = &mut p.qself {
            self.visit_type_mut(&mut q.ty);
            visit_mut::visit_path_mut(self, &mut p.path);
        } else {
            self.visit_path_mut(&mut p.path);
        }
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        qself(&mut p.qself, &mut p.path);
        if let Some(q) = &mut p.qself {
            self.visit_type_mut(&mut q.ty);
            visit_mut::visit_path_mut(self, &mut p.path);
        } else {
            self.visit_path_mut(&mut p.path);
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // the generic associated type L::Map<T> (Verus has none)
        if p.segments.len() == 2 && p.segments[1].ident == "Map" && p.segments[0].arguments.is_none() {
            if let PathArguments::AngleBracketed(a) = &p.segments[1].arguments {
                let (l, t) = (p.segments[0].ident.clone(), &a.args);
                let new: Path = parse_quote!(crate::shim_slots::Slots<#l, #t>);
                *p = new;
            }
        }
        // likewise L::Lexer<'s> and what makes one
        if p.segments.len() == 2 && p.leading_colon.is_none() && p.segments[0].arguments.is_none() {
            let l = p.segments[0].ident.clone();
            if p.segments[1].ident == "Lexer" {
                if let PathArguments::AngleBracketed(a) = &p.segments[1].arguments {
                    if let Some(GenericArgument::Lifetime(lt)) = a.args.first() {
                        *p = parse_quote!(crate::shim_lexer::LexerOf<#lt, #l>);
                    }
                }
            } else if p.segments[1].ident == "lexer" && l == "L" {
                *p = parse_quote!(crate::shim_lexer::lexer_of::<#l>);
            }
        }
        rewrite_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // inner `use` statements: paths are resolved by the crate-level imports of the unit
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_)) | Stmt::Item(Item::Macro(_))));
        // `let _: ::core::clone::AssertParamIsClone<T>;` of the derives: a type assertion, nothing runs
        b.stmts.retain(|s| !matches!(s, Stmt::Local(Local { pat: Pat::Type(t), init: None, .. })
            if matches!(&*t.pat, Pat::Wild(_)) && matches!(&*t.ty, Type::Path(p) if path_str(&p.path).contains("AssertParamIs"))));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // |(a, b)| body: Verus wants a variable
        if let Expr::Closure(c) = e {
            for (k, p) in c.inputs.iter_mut().enumerate() {
                if let Pat::Tuple(_) | Pat::Wild(_) = p {
                    let (old, id, body) = (p.clone(), format_ident!("vt_q{}", k), &c.body);
                    c.body = parse_quote!({ let #old = #id; #body });
                    *p = parse_quote!(#id);
                }
            }
        }
        // <[_]>::into_vec(::alloc::boxed::box_new([a, b])) is how vec![a, b] expands
        if let Expr::Call(c) = e {
            if has_macro_path(&c.func, "<[_]>::into_vec") {
                let arg = c.args.first().unwrap();
                let inner = match arg {
                    Expr::Call(c2) => c2.args.first().unwrap().clone(),
                    x => x.clone(),
                };
                if let Expr::Array(mut a) = inner {
                    for el in a.elems.iter_mut() {
                        self.visit_expr_mut(el);
                    }
                    let els = a.elems;
                    *e = parse_quote!(vec![#els]);
                    return;
                }
            }
            let f = tokens_of(&c.func).replace(' ', "");
            if f.ends_with("alloc::__export::must_use") || f.ends_with("alloc::fmt::format") {
                *e = parse_quote!(crate::shim::vt_format());
                return;
            }
            if f.ends_with("core::panicking::panic") || f.ends_with("core::panicking::panic_fmt") {
                *e = parse_quote!(crate::shim::vt_panic());
                return;
            }
        }
        match e {
            // a |= b on booleans
            Expr::Binary(b) if matches!(b.op, BinOp::BitOrAssign(_)) => {
                if let Expr::Path(p) = &*b.left {
                    let p = p.clone();
                    let mut r = (*b.right).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(#p = crate::shim::vt_bor(#p, #r));
                    return;
                }
            }
            Expr::MethodCall(m) => {
                // X.entry(k).or_default()
                if m.method == "or_default" {
                    if let Some(en) = method(&m.receiver, "entry") {
                        let mut recv = (*en.receiver).clone();
                        let mut k = en.args.first().unwrap().clone();
                        self.visit_expr_mut(&mut recv);
                        self.visit_expr_mut(&mut k);
                        *e = parse_quote!(#recv.vt_entry_or_default(#k));
                        return;
                    }
                }
                // X.into_iter().next_back() of a Vec
                if m.method == "next_back" {
                    if let Some(i) = method(&m.receiver, "into_iter") {
                        let mut x = (*i.receiver).clone();
                        self.visit_expr_mut(&mut x);
                        *e = parse_quote!(crate::shim::vt_last_of(#x));
                        return;
                    }
                }
                // once(a).chain(it).collect(): the documented meaning, with the items in a Vec on the way
                if m.method == "collect" {
                    if let Some(ch) = method(&m.receiver, "chain") {
                        if let Expr::Call(c) = &*ch.receiver {
                            if tokens_of(&c.func).replace(' ', "").ends_with("iter::once") {
                                let mut a = c.args.first().unwrap().clone();
                                let mut it = ch.args.first().unwrap().clone();
                                self.visit_expr_mut(&mut a);
                                self.visit_expr_mut(&mut it);
                                self.idx();
                                *e = parse_quote!({
                                    let mut vt_items = Vec::new();
                                    vt_items.push(#a);
                                    let mut vt_iter = #it;
                                    loop {
                                        match vt_iter.next() {
                                            Some(vt_x) => { vt_items.push(vt_x); }
                                            None => { break; }
                                        }
                                    }
                                    crate::shim::FromIterator::vt_from_items(vt_items)
                                });
                                return;
                            }
                        }
                    }
                }
                // X.retain_mut(|p| body): the documented meaning of Vec::retain_mut as a loop
                if m.method == "retain_mut" {
                    if let Some(Expr::Closure(c)) = m.args.first() {
                        let recv = (*m.receiver).clone();
                        let pat = c.inputs.first().unwrap().clone();
                        let mut body = (*c.body).clone();
                        let k = self.idx();
                        let i = format_ident!("vt_i{}", k);
                        self.visit_expr_mut(&mut body);
                        *e = parse_quote!({
                            let mut #i: usize = 0;
                            while #i < #recv.len() {
                                let vt_keep: bool = { let #pat = &mut #recv[#i]; #body };
                                if vt_keep { #i += 1; } else { #recv.remove(#i); }
                            }
                        });
                        return;
                    }
                }
                if self.rename.contains(&m.method.to_string()) {
                    m.method = format_ident!("vt_{}", m.method);
                }
            }
            // &x[a..b], &mut x[a..b], &[], &mut []
            Expr::Reference(r) => {
                let m = r.mutability.is_some();
                match &*r.expr {
                    Expr::Index(ix) => {
                        if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) = &*ix.index {
                            let x = &ix.expr;
                            *e = if m { parse_quote!(crate::shim::vt_sub_mut(&mut #x, #a, #b)) } else { parse_quote!((#x).vt_sub(#a, #b)) };
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                        if let (Expr::Range(ExprRange { start: Some(a), end: None, .. }), false) = (&*ix.index, m) {
                            let x = &ix.expr;
                            *e = parse_quote!((#x).vt_sub(#a, (#x).vt_len()));
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                    Expr::Array(a) if a.elems.is_empty() => {
                        *e = if m { parse_quote!(crate::shim::vt_empty_mut()) } else { parse_quote!(crate::shim::vt_empty()) };
                        return;
                    }
                    _ => {}
                }
            }
            // while let P = E { .. }  is  loop { let P = E else { break }; .. }
            Expr::While(w) if matches!(&*w.cond, Expr::Let(_)) => {
                self.idx();
                let Expr::Let(l) = &*w.cond else { unreachable!() };
                let (pat, ex, lab) = (&l.pat, &l.expr, w.label.as_ref().map(|l| quote!(#l)));
                let stmts = &w.body.stmts;
                *e = parse2(quote!(#lab loop { let #pat = #ex else { break; }; #(#stmts)* })).expect("while let rewrite");
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            // loop { .. break x; .. } as a value: the value goes through a variable
            Expr::Loop(l) if BreakValue::of(&l.body) => {
                let k = self.idx();
                let v = format_ident!("vt_b{}", k);
                let mut body = l.body.clone();
                let lab = l.label.as_ref().map(|l| quote!(#l));
                BreakValue { var: Some(v.clone()), label: l.label.as_ref().map(|l| l.name.clone()), found: false, depth: 0 }.visit_block_mut(&mut body);
                visit_mut::visit_block_mut(self, &mut body);
                let stmts = &body.stmts;
                *e = parse2(quote!({ let mut #v; #lab loop { #(#stmts)* } #v })).expect("break value rewrite");
                return;
            }
            Expr::While(_) | Expr::Loop(_) => {
                self.idx();
            }
            Expr::ForLoop(f) => {
                if matches!(&*f.expr, Expr::Range(_)) {
                    self.idx();
                } else {
                    let k = self.idx();
                    let label = f.label.clone();
                    let pat = (*f.pat).clone();
                    let mut body = f.body.clone();
                    let it = format_ident!("vt_it{}", k);
                    let i = format_ident!("vt_i{}", k);
                    // &mut X  /  X.iter_mut()
                    let mut_src: Option<Expr> = match &*f.expr {
                        Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
                        x => method(x, "iter_mut").map(|m| (*m.receiver).clone()),
                    };
                    let zip = method(&f.expr, "zip").and_then(|z| {
                        method(&z.receiver, "iter_mut").and_then(|a| {
                            method(z.args.first().unwrap(), "iter")
                                .map(|b| ((*a.receiver).clone(), (*b.receiver).clone()))
                        })
                    });
                    let mut expr = (*f.expr).clone();
                    self.visit_expr_mut(&mut expr);
                    visit_mut::visit_block_mut(self, &mut body);
                    let stmts = &body.stmts;
                    let lab = label.map(|l| quote!(#l));
                    let ts: TokenStream = if let Some((a, b)) = zip {
                        quote!({
                            let mut #i: usize = 0;
                            #lab while #i < #a.vt_len() && #i < #b.vt_len() {
                                let #pat = (#a.vt_at_mut(#i), #b.vt_at(#i));
                                #i += 1;
                                #(#stmts)*
                            }
                        })
                    } else if let Some(a) = mut_src {
                        quote!({
                            let mut #i: usize = 0;
                            #lab while #i < #a.vt_len() {
                                let #pat = #a.vt_at_mut(#i);
                                #i += 1;
                                #(#stmts)*
                            }
                        })
                    } else {
                        quote!({
                            let mut #it = (#expr).vt_into();
                            #lab while #it.vt_has_next() {
                                let #pat = #it.vt_next();
                                #(#stmts)*
                            }
                        })
                    };
                    *e = parse2(ts).expect("for rewrite");
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, _m: &mut Macro) {}
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                t.bounds = filter_bounds(&t.bounds);
                if t.bounds.is_empty() {
                    t.colon_token = None;
                }
            }
        }
        visit_mut::visit_generics_mut(self, g);
    }
    fn visit_item_trait_mut(&mut self, t: &mut ItemTrait) {
        t.supertraits = filter_bounds(&t.supertraits);
        visit_mut::visit_item_trait_mut(self, t);
    }
    fn visit_trait_item_type_mut(&mut self, t: &mut TraitItemType) {
        t.bounds = filter_bounds(&t.bounds);
        visit_mut::visit_trait_item_type_mut(self, t);
    }
    fn visit_predicate_type_mut(&mut self, t: &mut PredicateType) {
        t.bounds = filter_bounds(&t.bounds);
        visit_mut::visit_predicate_type_mut(self, t);
    }
}

fn filter_bounds(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> punctuated::Punctuated<TypeParamBound, Token![+]> {
    // `num::Unsigned` types are the machine integers, which the shims treat as bit sets
    let mut b = b.clone();
    for x in b.iter_mut() {
        if let TypeParamBound::Trait(t) = x {
            if t.path.segments.last().unwrap().ident == "Unsigned" {
                t.path = parse_quote!(crate::shim_bits::Bits);
            }
        }
    }
    b.iter()
        .filter(|x| match x {
            TypeParamBound::Trait(t) => {
                let l = t.path.segments.last().unwrap().ident.to_string();
                !NO_BOUNDS.contains(&l.as_str())
            }
            _ => true,
        })
        .cloned()
        .collect()
}

/// Visibility and attributes: everything is public, no attribute but an enum's repr survives.
struct Plain;
impl VisitMut for Plain {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|x| x.path().is_ident("repr") && !x.to_token_stream().to_string().contains("transparent"));
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = parse_quote!(pub);
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        u.attrs.clear();
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let is_trait = i.trait_.is_some();
        visit_mut::visit_item_impl_mut(self, i);
        if is_trait {
            for it in i.items.iter_mut() {
                match it {
                    ImplItem::Fn(f) => f.vis = Visibility::Inherited,
                    ImplItem::Type(f) => f.vis = Visibility::Inherited,
                    ImplItem::Const(f) => f.vis = Visibility::Inherited,
                    _ => {}
                }
            }
        }
    }
    fn visit_item_enum_mut(&mut self, i: &mut ItemEnum) {
        visit_mut::visit_item_enum_mut(self, i);
        for v in i.variants.iter_mut() {
            match &mut v.fields {
                Fields::Named(n) => n.named.iter_mut().for_each(|f| f.vis = Visibility::Inherited),
                Fields::Unnamed(n) => n.unnamed.iter_mut().for_each(|f| f.vis = Visibility::Inherited),
                _ => {}
            }
        }
    }
}

pub fn apply(file: &mut File, rename: &[String]) {
    file.attrs.clear();
    Plain.visit_file_mut(file);
    let mut x = Exprs { loops: 0, tmp: 0, rename: RENAME.iter().map(|x| x.to_string()).chain(rename.iter().cloned()).collect() };
    x.visit_file_mut(file);
}
