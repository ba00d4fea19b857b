//! C09: lookups by span and position against their definition, token by token.
//! C10: applying semantic types, directly and through parsed nodes.
use std::ops::Deref;
use teleparse::lex::{Set, Span, Token, TokenVec};
use teleparse::prelude::*;
use teleparse::Parser;
use witness::*;

#[derive_lexicon]
#[teleparse(ignore(r"\s+"), terminal_parse)]
pub enum T {
    #[teleparse(terminal(TA = "a"))]
    A,
    #[teleparse(terminal(TB = "b"))]
    B,
    #[teleparse(regex(r"[0-9]+"), terminal(TN))]
    N,
    #[teleparse(regex(r"#"))]
    Comment,
    S1,
    S2,
    S3,
}
const TY: [T; 3] = [T::A, T::B, T::N];
const SEM: [T; 3] = [T::S1, T::S2, T::S3];
/// any type can be applied, also the types of tokens
const ANY: [T; 7] = [T::S1, T::S2, T::S3, T::A, T::B, T::N, T::Comment];

/// tokens as (gap before, length, type)
fn build(v: &[(usize, usize, usize)]) -> (TokenVec<T>, Vec<(usize, usize, usize)>) {
    let (mut tv, mut m, mut at) = (TokenVec::new(), vec![], 0);
    for (g, l, t) in v {
        let lo = at + g;
        tv.push_unchecked(Token::new(lo..lo + l, TY[*t]));
        m.push((lo, lo + l, *t));
        at = lo + l;
    }
    (tv, m)
}
fn show<'a>(c: impl IntoIterator<Item = &'a teleparse::lex::Cell<T>>) -> Vec<(usize, usize)> {
    c.into_iter().map(|c| (c.span.lo, c.span.hi)).collect()
}
fn eq<A: PartialEq + std::fmt::Debug>(what: String, got: A, want: A) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

fn lookups(v: &[(usize, usize, usize)]) -> Result<(), String> {
    let (mut tv, m) = build(v);
    let end = m.last().map_or(0, |x| x.1) + 3;
    let full: Vec<(usize, usize)> = m.iter().map(|x| (x.0, x.1)).collect();
    eq("all tokens".into(), show(tv.deref()), full.clone())?;
    eq("is_empty".into(), tv.is_empty(), m.is_empty())?;
    for i in 0..m.len() + 2 {
        eq(format!("at({i})"), tv.at(i).map(|c| (c.span.lo, c.span.hi)), full.get(i).copied())?;
    }
    let mut ends: Vec<usize> = (0..end).collect();
    ends.push(usize::MAX - 1);
    ends.push(usize::MAX);
    for &lo in &ends {
        for &hi in &ends {
            let inside: Vec<_> = full.iter().filter(|t| lo <= t.0 && t.1 <= hi).copied().collect();
            let over: Vec<_> = full.iter().filter(|t| lo < hi && t.0.max(lo) < t.1.min(hi)).copied().collect();
            let sp = Span::new(lo, hi);
            eq(format!("inside({lo}..{hi})"), show(tv.inside(sp)), inside.clone())?;
            eq(format!("overlap({lo}..{hi})"), show(tv.overlap(sp)), over.clone())?;
            eq(format!("at_span({lo}..{hi})"), tv.at_span(sp).map(|c| (c.span.lo, c.span.hi)), if inside.len() == 1 { Some(inside[0]) } else { None })?;
            eq(format!("inside_mut({lo}..{hi})"), show(tv.inside_mut(sp).deref()), inside.clone())?;
            eq(format!("overlap_mut({lo}..{hi})"), show(tv.overlap_mut(sp).deref()), over.clone())?;
            let cut = |b: Option<(usize, usize)>| b.map_or(vec![], |(x, y)| full[x..y].to_vec());
            eq(format!("inside_bounds({lo}..{hi})"), cut(tv.inside_bounds(sp)), inside.clone())?;
            eq(format!("overlap_bounds({lo}..{hi})"), cut(tv.overlap_bounds(sp)), over)?;
            eq(format!("inside_bounds({lo}..{hi}) is none"), tv.inside_bounds(sp).is_none(), inside.is_empty())?;
        }
    }
    for &p in &ends {
        for ok in 0..8usize {
            let good = |t: usize| ok >> t & 1 == 1;
            let pred = |c: &teleparse::lex::Cell<T>| good(TY.iter().position(|t| *t == c.ty).unwrap());
            let mut before = vec![];
            if let Some(k) = m.iter().position(|t| t.1 == p) {
                let mut i = k + 1;
                while i > 0 && good(m[i - 1].2) {
                    i -= 1;
                    before.insert(0, full[i]);
                }
            }
            let mut from = vec![];
            if let Some(k) = m.iter().position(|t| t.0 == p) {
                from = (k..m.len()).take_while(|i| good(m[*i].2)).map(|i| full[i]).collect();
            }
            let o = |v: &Vec<(usize, usize)>| if v.is_empty() { None } else { Some(v.clone()) };
            eq(format!("ends_at_matches({p}) types {ok:03b}"), tv.ends_at_matches(p, pred).map(|s| show(s)), o(&before))?;
            eq(format!("begins_at_matches({p}) types {ok:03b}"), tv.begins_at_matches(p, pred).map(|s| show(s)), o(&from))?;
            eq(format!("ends_at_matches_mut({p}) types {ok:03b}"), tv.ends_at_matches_mut(p, pred).map(|s| show(s.deref())), o(&before))?;
            eq(format!("begins_at_matches_mut({p}) types {ok:03b}"), tv.begins_at_matches_mut(p, pred).map(|s| show(s.deref())), o(&from))?;
        }
    }
    Ok(())
}

type Model = Vec<(usize, usize, usize, Vec<bool>)>;
fn same(what: &str, tv: &TokenVec<T>, m: &Model) -> Result<(), String> {
    let got: Model = tv
        .deref()
        .into_iter()
        .map(|c| (c.span.lo, c.span.hi, TY.iter().position(|t| *t == c.ty).unwrap(), ANY.iter().map(|s| c.semantic.contains(*s)).collect()))
        .collect();
    eq(format!("tokens after {what}"), got, m.clone())?;
    for c in tv.deref() {
        let mut want = c.semantic;
        want.insert(c.ty);
        eq(format!("types after {what}"), c.types(), want)?;
    }
    Ok(())
}
fn semantics(v: &[(usize, usize, usize)], ops: &[(usize, usize, usize)]) -> Result<(), String> {
    let (mut tv, m) = build(v);
    let mut m: Model = m.into_iter().map(|(a, b, t)| (a, b, t, vec![false; 7])).collect();
    for (lo, hi, which) in ops {
        let mut s: Set<T> = Set::new();
        (0..7).filter(|k| which >> k & 1 == 1).for_each(|k| s.insert(ANY[k]));
        tv.inside_mut(*lo..*hi).apply_semantic(s);
        for t in m.iter_mut() {
            if *lo <= t.0 && t.1 <= *hi {
                (0..7).for_each(|k| t.3[k] |= which >> k & 1 == 1);
            }
        }
        same(&format!("apply {which:07b} inside {lo}..{hi}"), &tv, &m)?;
    }
    Ok(())
}

// nodes that apply semantic types: S1 on a pair, S2 on its first part, S3 on an item
#[derive_syntax]
#[teleparse(root)]
pub struct Root {
    pub items: tp::Vec<Item>,
}
#[derive_syntax]
pub enum Item {
    #[teleparse(semantic(S1))]
    Pair(Pair),
    #[teleparse(semantic(S2))]
    Num(Num),
}
#[derive_syntax]
pub struct Pair {
    #[teleparse(semantic(S2))]
    pub first: TA,
    #[teleparse(semantic(S3))]
    pub rest: tp::Vec<Inner>,
    pub close: TA,
}
#[derive_syntax]
pub struct Inner {
    #[teleparse(semantic(S2, S3))]
    pub b: TB,
    #[teleparse(semantic(N, A))]
    pub n: tp::Option<TN>,
}
#[derive_syntax]
pub struct Num(pub TN);

fn parsed(text: &str) -> Result<(), String> {
    let mut p = Parser::<T>::new(text).map_err(|e| e.to_string())?;
    let r = p.parse::<Root>().map_err(|e| e.to_string())?;
    let clean = p.info().errors.is_empty();
    if !clean && r.is_none() {
        return Ok(());
    }
    let r = r.ok_or("no tree and no error")?;
    // every node of the tree, also of a recovered one, has its types on all the tokens inside it
    let mut nodes: Vec<(Span, &[T])> = vec![];
    for item in r.items.iter() {
        match item {
            Item::Num(n) => nodes.push((n.span(), &[T::S2])),
            Item::Pair(p) => {
                nodes.push((p.span(), &[T::S1]));
                nodes.push((p.first.span(), &[T::S2]));
                nodes.push((p.rest.span(), &[T::S3]));
                for i in p.rest.iter() {
                    nodes.push((i.b.span(), &[T::S2, T::S3]));
                    nodes.push((i.n.span(), &[T::N, T::A]));
                }
            }
        }
    }
    for c in p.info().tokens.deref() {
        let mut want: Set<T> = Set::new();
        for (s, ts) in &nodes {
            if s.lo <= c.span.lo && c.span.hi <= s.hi {
                ts.iter().for_each(|t| want.insert(*t));
            }
        }
        if clean {
            eq(format!("types of the token at {}", c.span.lo), c.semantic, want)?;
        } else {
            eq(format!("the token at {} has the types of its nodes", c.span.lo), c.semantic.contains_all(want), true)?;
        }
    }
    if !clean {
        return Ok(());
    }
    let mut want: Vec<((usize, usize), [bool; 3])> = vec![];
    for item in r.items.iter() {
        match item {
            Item::Num(n) => want.push(((n.0.lo(), n.0.hi()), [false, true, false])),
            Item::Pair(p) => {
                want.push(((p.first.lo(), p.first.hi()), [true, true, false]));
                for i in p.rest.iter() {
                    want.push(((i.b.lo(), i.b.hi()), [true, true, true]));
                    if let Some(n) = &*i.n {
                        want.push(((n.lo(), n.hi()), [true, false, true]));
                    }
                }
                want.push(((p.close.lo(), p.close.hi()), [true, false, false]));
            }
        }
    }
    let got: Vec<((usize, usize), [bool; 3])> =
        p.info().tokens.deref().into_iter().map(|c| ((c.span.lo, c.span.hi), SEM.map(|s| c.semantic.contains(s)))).collect();
    eq("token types of the tree".into(), got, want)
}

fn main() {
    run("a case is one token vector (C09: with every span and position around it; C10: with one history of applications) or one parsed text", |r| {
        if r.prop == "C10" {
            let texts = ["", "1", "aa", "1aa 2", "aba", "ab1a", "abb2a", "1 ab1b2ba 3 aa", "a#b 1#a#", "aab", "a", "# 1 #"];
            for t in texts {
                r.case(&format!("parse {t:?}"), true, || parsed(t));
            }
            for _ in 0..r.n(4000, 60000) {
                let n = r.rng.below(16);
                let t: String = (0..n).map(|_| *r.rng.pick(&["a", "ab", "1", "b", "b 2", "aa", " ", "#", "ab1a"])).collect();
                r.case(&format!("parse {t:?}"), true, || parsed(&t));
            }
        }
        let n = r.n(1500, 20000);
        for k in 0..n {
            if r.out_of_time() {
                break;
            }
            let len = if k < 5 { k } else { r.rng.below(r.n(8, 14)) };
            let v: Vec<_> = (0..len).map(|_| (r.rng.below(3) * r.rng.below(2), 1 + r.rng.below(3), r.rng.below(3))).collect();
            if r.prop == "C10" {
                let ops: Vec<_> = (0..1 + r.rng.below(8)).map(|_| (r.rng.below(20), r.rng.below(25), r.rng.below(128))).collect();
                r.case(&format!("tokens {v:?}, applied {ops:?}"), len > 0, || semantics(&v, &ops));
            } else {
                r.case(&format!("tokens {v:?}"), len > 0, || lookups(&v));
            }
        }
    });
}
