//! C01-C05: random grammars registered with the metadata builder against the textbook analysis.
use std::any::TypeId;
use teleparse::lex::TokenSrc;
use teleparse::prelude::*;
use teleparse::syntax::{FirstSet, FollowBuilder, FollowSet, MetadataBuilder};
use teleparse::GrammarError;
use witness::grammar::*;
use witness::*;

#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum T {
    #[teleparse(terminal(TA = "a"))]
    A,
    #[teleparse(terminal(TB = "b"))]
    B,
    #[teleparse(terminal(TC = "c"))]
    C,
    #[teleparse(terminal(TD = "d"))]
    D,
}
const TY: [T; 4] = [T::A, T::B, T::C, T::D];
/// the last text is never a literal: it stands for every other text
const TX: [&str; 3] = ["a", "b", "zz"];

struct N<const K: usize>;
fn ids() -> Vec<TypeId> {
    // the order of the ids decides in which order productions are visited
    macro_rules! v { ($($k:literal)*) => { vec![$(TypeId::of::<N<$k>>()),*] } }
    v!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47)
}
fn tok(s: Sym) -> Option<TokenSrc<'static, T>> {
    s.map(|(ty, tx)| TokenSrc::from((TY[ty], TX[tx])))
}
fn all_syms() -> Vec<Sym> {
    let mut v = vec![None];
    for ty in 0..TY.len() {
        for tx in 0..TX.len() {
            v.push(Some((ty, tx)));
        }
    }
    v
}
fn obs_first(s: &FirstSet<T>) -> Set {
    let r: Set = all_syms().into_iter().filter(|x| s.contains(tok(*x))).collect();
    assert_eq!(r.contains(&None), s.contains_epsilon());
    r
}
fn obs_follow(s: &FollowSet<T>) -> Set {
    let r: Set = all_syms().into_iter().filter(|x| s.contains(tok(*x))).collect();
    assert_eq!(r.contains(&None), s.contains_eof());
    r
}
fn builder(g: &Gram, id: &[TypeId], order: &[usize]) -> MetadataBuilder<T> {
    let mut b = MetadataBuilder::new();
    for &x in order {
        if g.prods[x] == P::X {
            continue;
        }
        if !b.visit(id[x], || format!("N{x}")) {
            panic!("visit says N{x} was seen");
        }
        match &g.prods[x] {
            P::T(ty, lit) => b.add_terminal(id[x], TY[*ty], lit.map(|l| TX[l])),
            P::E => b.add_epsilon(id[x]),
            P::S(v) => b.add_sequence(id[x], &v.iter().map(|y| id[*y]).collect::<Vec<_>>()),
            P::U(v) => b.add_union(id[x], &v.iter().map(|y| id[*y]).collect::<Vec<_>>()),
            P::X => {}
        }
        if b.visit(id[x], || String::new()) {
            panic!("visit forgot N{x}");
        }
    }
    b
}
fn show(s: &Set) -> String {
    let v: Vec<String> = s.iter().map(|x| match x { None => "e".into(), Some((a, b)) => format!("{}/{}", ["A", "B", "C", "D"][*a], TX[*b]) }).collect();
    v.join(" ")
}

fn check(prop: &str, g: &Gram, id: &[TypeId], order: &[usize], f: &[Set], w: &[Set]) -> Result<(), String> {
    let n = g.prods.len();
    let cmp_first = |first: &teleparse::syntax::First<T>, from: &str| -> Result<(), String> {
        for x in 0..n {
            let got = obs_first(first.get(&id[x]));
            if got != f[x] {
                return Err(format!("{from}: FIRST of {x} is {{{}}}, expected {{{}}}", show(&got), show(&f[x])));
            }
        }
        Ok(())
    };
    let cmp_follow = |fo: &teleparse::syntax::Follow<T>, from: &str| -> Result<(), String> {
        for x in 0..n {
            let got = obs_follow(fo.get(&id[x]));
            if got != w[x] {
                return Err(format!("{from}: FOLLOW of {x} is {{{}}}, expected {{{}}}", show(&got), show(&w[x])));
            }
        }
        Ok(())
    };
    match prop {
        "C01" => {
            cmp_first(&builder(g, id, order).first_builder.build(), "FirstBuilder")?;
            if let Ok(m) = builder(g, id, order).build(id[g.root]) {
                cmp_first(&m.first, "Metadata")?;
            }
        }
        "C02" => {
            let first = builder(g, id, order).first_builder.build();
            let mut b = FollowBuilder::new(&first);
            for &x in order {
                match &g.prods[x] {
                    P::S(v) => b.build_sequence(id[x], &v.iter().map(|y| id[*y]).collect::<Vec<_>>()),
                    P::U(v) => b.build_union(id[x], &v.iter().map(|y| id[*y]).collect::<Vec<_>>()),
                    _ => {}
                }
            }
            cmp_follow(&b.build(id[g.root]), "FollowBuilder")?;
            if let Ok(m) = builder(g, id, order).build(id[g.root]) {
                cmp_follow(&m.follow, "Metadata")?;
            }
        }
        "C03" | "C04" => {
            let r = builder(g, id, order).build(id[g.root]).map(|_| ());
            let conflict = g.conflict(f, w);
            let leftrec = g.left_recursive(f);
            if prop == "C04" {
                match (&r, leftrec) {
                    (Ok(()), Some(x)) => return Err(format!("accepted although {x} is left recursive")),
                    (Err(GrammarError::LeftRecursion(m)), None) => return Err(format!("left recursion reported ({m}) but there is none")),
                    _ => {}
                }
            } else {
                match (&r, conflict.or(leftrec)) {
                    (Ok(()), Some(x)) => return Err(format!("accepted although {x} has a conflict or is left recursive")),
                    (Err(e), None) => return Err(format!("rejected ({e}) although it is LL(1)")),
                    _ => {}
                }
                if let (Err(e), None) = (&r, conflict) {
                    if !matches!(e, GrammarError::LeftRecursion(_)) {
                        return Err(format!("conflict reported ({e}) but there is none"));
                    }
                }
            }
        }
        _ => {
            if let Ok(m) = builder(g, id, order).build(id[g.root]) {
                for x in g.reachable() {
                    if !matches!(g.prods[x], P::U(_)) {
                        continue;
                    }
                    for s in all_syms() {
                        let got = m.jump.look_up(&id[x], tok(s));
                        let want = g.choice(f, x, s);
                        if got != want {
                            return Err(format!("look up of {x} for {} selects {got:?}, expected {want:?}", show(&[s].into_iter().collect())));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// long dependency chains, so that information has to travel through many productions
fn chain(r: &mut Rng) -> Gram {
    let n = 20 + r.below(28);
    let nullable_side = r.chance(1, 2);
    let mut prods = vec![];
    for x in 0..n - 4 {
        let next = if x + 1 == n - 4 { n - 4 + r.below(2) } else { x + 1 };
        let side = if nullable_side { n - 2 } else { n - 4 + r.below(4) };
        prods.push(match r.below(9) {
            0 => P::U(vec![next, side]),
            1 => P::S(vec![next, side]),
            2 => P::S(vec![n - 2, next]),
            3 => P::U(vec![n - 2, next]),
            4 => P::S(vec![side, n - 2, next, n - 2]),
            5 | 6 => P::U(vec![next]),
            7 if r.chance(1, 12) => P::U(vec![next, r.below(x + 1)]),
            _ => P::S(vec![next]),
        });
    }
    prods.push(P::T(0, None));
    prods.push(P::T(1, Some(0)));
    prods.push(P::E);
    prods.push(P::T(2, Some(1)));
    Gram { prods, texts: TX.len(), root: 0 }
}

fn gen(r: &mut Rng) -> Gram {
    let big = r.chance(1, 3);
    let n = 3 + r.below(if big { 13 } else { 6 });
    let terms = 1 + r.below(n.min(6));
    let eps = r.below(3);
    let style = r.below(3);
    let mut prods = vec![];
    for x in 0..n {
        let k = r.below(n + 2);
        let kid = |r: &mut Rng, x: usize| -> usize {
            match style {
                // forward references only: no recursion
                0 if x + 1 < n => x + 1 + r.below(n - x - 1),
                // mostly forward
                1 if x + 1 < n && r.chance(5, 6) => x + 1 + r.below(n - x - 1),
                _ => r.below(n),
            }
        };
        prods.push(if x + terms >= n || (style == 2 && x > 0 && k < terms) {
            P::T(r.below(4), if r.chance(1, 2) { None } else { Some(r.below(2)) })
        } else if k < eps && x > 0 {
            P::E
        } else if r.chance(1, 40) && x > 0 {
            P::X
        } else {
            let m = if r.chance(1, 30) { 0 } else { 1 + r.below(4) };
            let v: Vec<usize> = (0..m).map(|_| kid(r, x)).collect();
            if r.chance(1, 2) && m > 0 { P::U(v) } else { P::S(v) }
        });
    }
    // an optional is a choice between something and a shared empty production
    if r.chance(1, 2) && n > 4 {
        prods[n - 1] = P::E;
        for x in 0..n - 1 {
            if let P::U(v) = &mut prods[x] {
                if r.chance(1, 2) {
                    v.push(n - 1);
                }
            }
        }
    }
    Gram { prods, texts: TX.len(), root: 0 }
}

fn main() {
    run("random grammars of 3 to 15 productions, and chains of 20 to 47, over 4 token types and 3 texts (one standing for all others), registered in random order; non-trivial: for C01/C02 at least one sequence and one production that can be empty, for C03 and C05 one accepted or rejected for a single reason, for C04 a production that can be empty", |r| {
        let n = r.n(150_000, 3_000_000);
        let base = ids();
        for _ in 0..n {
            if r.out_of_time() {
                break;
            }
            let g = if r.rng.chance(1, 60) { chain(&mut r.rng) } else { gen(&mut r.rng) };
            let mut id = base.clone();
            for i in (1..id.len()).rev() {
                id.swap(i, r.rng.below(i + 1));
            }
            let mut order: Vec<usize> = (0..g.prods.len()).rev().collect();
            // now and then a sorted visit, the slowest for a chain
            let sorted = r.rng.chance(1, 8);
            if sorted {
                let n = order.len();
                let up = r.rng.chance(1, 2);
                id[..n].sort_by(|a, b| if up { a.cmp(b) } else { b.cmp(a) });
            }
            for i in (1..if sorted { 0 } else { order.len() }).rev() {
                order.swap(i, r.rng.below(i + 1));
            }
            let f = g.first();
            let w = g.follow(&f);
            let prop = r.prop.clone();
            let (c, l) = (g.conflict(&f, &w), g.left_recursive(&f));
            if prop == "C05" && (c.is_some() || l.is_some()) {
                continue;
            }
            let nullable = f.iter().any(|s| s.contains(&None));
            let nt = match prop.as_str() {
                "C01" | "C02" | "C04" => nullable && g.prods.iter().any(|p| matches!(p, P::S(v) if v.len() > 1)),
                "C05" => g.reachable().iter().any(|x| matches!(&g.prods[*x], P::U(v) if v.len() > 1)),
                _ => c.is_none() || l.is_none(),
            };
            let rank: Vec<usize> = (0..g.prods.len()).map(|x| id[..g.prods.len()].iter().filter(|y| **y < id[x]).count()).collect();
            let case = format!("{} | registered {order:?} | id order {rank:?}", g.show());
            r.case(&case, nt, || check(&prop, &g, &id, &order, &f, &w));
        }
    });
}
