//! Derived lexicons: the enum and the `Lexicon` impl the derive macro generated for every module
//! `lexicons::nK` of the expanded witness crate, as `inst::nK` of the verified file.
//!
//! Two expressions are translated because Verus has neither: `transmute(id)` to a fieldless enum
//! is the variant with that discriminant (there being none is undefined behaviour, so an
//! obligation), and `discriminant_value(x)` of such an enum is `*x as usize`.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn hoist(items: Vec<Item>, out: &mut Vec<Item>) {
    for it in items {
        match it {
            Item::Const(c) if c.ident == "_" => {
                if let Expr::Block(b) = *c.expr {
                    let inner = b.block.stmts.into_iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i) } else { None }).collect();
                    hoist(inner, out);
                }
            }
            x => out.push(x),
        }
    }
}

struct Casts<'a> {
    variants: &'a [(Ident, Expr)],
}
impl VisitMut for Casts<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unsafe(u) = e {
            if let [Stmt::Expr(x, None)] = &u.block.stmts[..] {
                *e = x.clone();
            }
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            let Some(a) = c.args.first() else { return };
            if f.ends_with("mem::transmute") {
                let arms: Vec<TokenStream> = self.variants.iter().map(|(v, d)| quote!(#d => Self::#v,)).collect();
                *e = parse_quote!(match #a { #(#arms)* _ => crate::shim::vt_panic() });
            } else if f.ends_with("intrinsics::discriminant_value") {
                *e = parse_quote!((*(#a) as usize));
            }
        }
    }
}

/// the length written in an array type or in a const argument
struct Len(Option<String>);
impl VisitMut for Len {
    fn visit_type_array_mut(&mut self, a: &mut TypeArray) {
        self.0 = Some(a.len.to_token_stream().to_string());
    }
    fn visit_generic_argument_mut(&mut self, a: &mut GenericArgument) {
        if let GenericArgument::Const(c) = a {
            self.0 = Some(c.to_token_stream().to_string());
        }
        visit_mut::visit_generic_argument_mut(self, a);
    }
}

/// module, variants in order, which are set aside, integer chosen by the macro
/// and the length of the storage it picked
type Facts = (String, Vec<String>, Vec<bool>, String, String);

/// the modules, and for each its name and the facts its author (not the macro) states
pub fn load(src: &str) -> (Item, Vec<Facts>) {
    let file = parse_file(src).expect("cannot parse the expanded lexicons");
    let root = file.items.into_iter().find_map(|i| match i {
        Item::Mod(m) if m.ident == "lexicons" => m.content.map(|c| c.1),
        _ => None,
    });
    let (mut mods, mut facts) = (Vec::<Item>::new(), vec![]);
    for m in root.expect("no lexicons module") {
        let Item::Mod(ItemMod { ident, content: Some((_, items)), .. }) = m else { continue };
        let mut flat = vec![];
        hoist(items, &mut flat);
        let (mut keep, mut all, mut aside) = (Vec::<Item>::new(), vec![], vec![]);
        let mut variants = vec![];
        let (mut bit, mut len) = (String::new(), "T::count()".to_string());
        for it in &flat {
            if let Item::Enum(e) = it {
                if e.ident == "T" {
                    let mut next: u64 = 0;
                    for v in &e.variants {
                        let d = match &v.discriminant {
                            Some((_, d)) => {
                                if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = d {
                                    next = n.base10_parse().unwrap();
                                }
                                d.clone()
                            }
                            None => {
                                let n = LitInt::new(&format!("{next}usize"), proc_macro2::Span::call_site());
                                parse_quote!(#n)
                            }
                        };
                        next += 1;
                        variants.push((v.ident.clone(), d));
                    }
                    let mut e = e.clone();
                    e.attrs.retain(|a| a.path().is_ident("repr"));
                    keep.push(Item::Enum(e));
                }
            }
        }
        for it in flat {
            let Item::Impl(mut i) = it else { continue };
            if i.self_ty.to_token_stream().to_string() != "T" {
                continue;
            }
            let Some(t) = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()) else { continue };
            match t.as_str() {
                "Facts" => {
                    for c in &i.items {
                        let ImplItem::Const(c) = c else { continue };
                        let Expr::Reference(r) = &c.expr else { continue };
                        let Expr::Array(a) = &*r.expr else { continue };
                        for x in &a.elems {
                            match x {
                                Expr::Path(p) => all.push(p.path.segments.last().unwrap().ident.to_string()),
                                Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => aside.push(b.value),
                                _ => panic!("facts of {ident}"),
                            }
                        }
                    }
                }
                "Lexicon" | "PartialEq" | "Eq" | "Clone" | "Copy" => {
                    i.attrs.clear();
                    if t == "Lexicon" {
                        i.trait_.as_mut().unwrap().1 = parse_quote!(Lexicon);
                    }
                    for x in &i.items {
                        if let ImplItem::Type(b) = x {
                            if b.ident == "Bit" {
                                bit = b.ty.to_token_stream().to_string();
                            }
                            if b.ident == "Map" {
                                let mut l = Len(None);
                                l.visit_type_mut(&mut b.ty.clone());
                                len = l.0.unwrap_or(len);
                            }
                        }
                    }
                    i.items.retain(|x| match x {
                        ImplItem::Fn(f) => f.sig.ident != "lexer" && t != "Eq",
                        ImplItem::Type(f) => f.ident != "Lexer" && f.ident != "Map",
                        _ => false,
                    });
                    Casts { variants: &variants }.visit_item_impl_mut(&mut i);
                    keep.push(Item::Impl(i));
                }
                _ => {}
            }
        }
        facts.push((ident.to_string(), all, aside, bit, len));
        mods.push(parse_quote!(pub mod #ident { use crate::lex::lexicon::Lexicon; #(#keep)* }));
    }
    (parse_quote!(pub mod inst { #(#mods)* }), facts)
}

/// the specification of one instance from the template
pub fn spec(template: &str, (name, all, aside, bit, len): &Facts) -> String {
    let ord: String = all.iter().enumerate().map(|(i, v)| format!("T::{v} => {i}, ")).collect();
    fn tree(v: &[String], lo: usize) -> String {
        if v.len() == 1 { return format!("T::{}", v[0]); }
        let h = v.len() / 2;
        format!("if i < {} {{ {} }} else {{ {} }}", lo + h, tree(&v[..h], lo), tree(&v[h..], lo + h))
    }
    let set: String = all.iter().zip(aside).map(|(v, a)| format!("T::{v} => {a}, ")).collect();
    template.replace("@NAME@", name).replace("@COUNT@", &all.len().to_string()).replace("@ORD@", &ord)
        .replace("@NTH@", &tree(all, 0)).replace("@BIT@", bit).replace("@LEN@", len).replace("@ASIDE@", &set)
}
