//! C07: token type sets of every size of lexicon against sets of numbers.
//! C08: what the derive generates for every size of lexicon, and per-type maps.
#[path = "../lexicons.rs"]
mod lexicons;
use lexicons::Facts;
use std::collections::BTreeSet;
use teleparse::lex::{Map, Set};
use witness::*;

fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

#[derive(Clone, Debug)]
enum Op {
    Insert(usize, usize),
    Remove(usize, usize),
    Union(usize, usize),
    New(usize, bool),
    Bits(usize, usize),
}

fn sets<L: Facts>(ops: &[Op]) -> Result<(), String> {
    let mut s: Vec<Set<L>> = vec![Set::new(); 3];
    let mut m: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); 3];
    let n = L::ALL.len();
    for (k, op) in ops.iter().enumerate() {
        let at = |x: String| format!("step {k} {op:?}: {x}");
        match *op {
            Op::Insert(i, t) => {
                s[i].insert(L::ALL[t]);
                m[i].insert(t);
            }
            Op::Remove(i, t) => {
                s[i].remove(L::ALL[t]);
                m[i].remove(&t);
            }
            Op::Union(i, j) => {
                s[i] = s[i].union(s[j]);
                let o = m[j].clone();
                m[i].extend(o);
            }
            Op::New(i, d) => {
                s[i] = if d { Set::default() } else { Set::new() };
                m[i].clear();
            }
            Op::Bits(i, j) => {
                s[i] = Set::from_bits(s[j].to_bits());
                m[i] = m[j].clone();
            }
        }
        for i in 0..3 {
            for t in 0..n {
                eq(&at(format!("contains({i}, {t})")), s[i].contains(L::ALL[t]), m[i].contains(&t))?;
            }
            eq(&at(format!("is_empty({i})")), s[i].is_empty(), m[i].is_empty())?;
            let mut it = s[i].into_iter();
            let mut got: Vec<L> = vec![];
            for _ in 0..=n {
                match it.next() {
                    Some(x) => got.push(x),
                    None => break,
                }
            }
            let want: Vec<L> = m[i].iter().map(|t| L::ALL[*t]).collect();
            eq(&at(format!("members in order ({i})")), got, want)?;
            eq(&at(format!("after the last member ({i})")), it.next(), None)?;
            for j in 0..3 {
                eq(&at(format!("contains_all({i}, {j})")), s[i].contains_all(s[j]), m[j].is_subset(&m[i]))?;
                eq(&at(format!("equal({i}, {j})")), s[i] == s[j], m[i] == m[j])?;
            }
        }
    }
    Ok(())
}

fn facts<L: Facts>() -> Result<(), String> {
    let n = L::ALL.len();
    let mut used: BTreeSet<String> = BTreeSet::new();
    for i in 0..n {
        let x = L::ALL[i];
        eq(&format!("id of variant {i}"), x.id(), i)?;
        eq(&format!("from_id_unchecked({i})"), L::from_id_unchecked(i), x)?;
        eq(&format!("next of variant {i}"), x.next(), L::ALL.get(i + 1).copied())?;
        eq(&format!("should_extract of variant {i}"), x.should_extract(), L::SET_ASIDE[i])?;
        let b = x.to_bit();
        // its own single bit: b shifted down i times is one
        let two = one::<L::Bit>() + one::<L::Bit>();
        let mut v = b;
        for _ in 0..i {
            if v % two != zero::<L::Bit>() {
                return Err(format!("variant {i} has a bit below {i}"));
            }
            v = v / two;
        }
        if v != one::<L::Bit>() {
            return Err(format!("variant {i} does not have exactly bit {i}"));
        }
        used.insert(format!("{x:?}"));
        for j in 0..n {
            eq(&format!("variants {i} and {j} equal"), L::ALL[i] == L::ALL[j], i == j)?;
        }
    }
    eq("first", L::first(), L::ALL[0])?;
    Ok(())
}
fn one<B: num_like::One>() -> B {
    B::one()
}
fn zero<B: num_like::Zero>() -> B {
    B::zero()
}
mod num_like {
    pub use num::{One, Zero};
}

#[derive(Clone, Copy, Debug)]
enum MOp {
    Set(usize, u32),
    Add(usize, u32),
    IterMut(u32),
    ZipMut(u32),
    Clone,
}

fn maps<L: Facts>(ops: &[MOp]) -> Result<(), String> {
    let n = L::ALL.len();
    let mut m: Map<L, u32> = Map::default();
    let mut want = vec![0u32; n];
    for (k, op) in ops.iter().enumerate() {
        let at = |x: &str| format!("map step {k} {op:?}: {x}");
        match *op {
            MOp::Set(t, v) => {
                *m.get_mut(L::ALL[t]) = v;
                want[t] = v;
            }
            MOp::Add(t, v) => {
                *m.get_mut(L::ALL[t]) += v;
                want[t] += v;
            }
            MOp::IterMut(v) => {
                for x in m.iter_mut() {
                    *x += v;
                }
                want.iter_mut().for_each(|x| *x += v);
            }
            MOp::ZipMut(v) => {
                for (l, x) in m.iter_zip_mut() {
                    *x += v * l.id() as u32;
                }
                want.iter_mut().enumerate().for_each(|(i, x)| *x += v * i as u32);
            }
            MOp::Clone => {
                let c = m.clone();
                eq(&at("clone is equal"), c == m, true)?;
                *m.get_mut(L::ALL[n - 1]) += 1;
                eq(&at("clone is independent"), *c.get(L::ALL[n - 1]), want[n - 1])?;
                eq(&at("different maps are not equal"), c == m, false)?;
                m = c;
            }
        }
        for t in 0..n {
            eq(&at(&format!("slot {t}")), *m.get(L::ALL[t]), want[t])?;
        }
        eq(&at("iter"), m.iter().copied().collect::<Vec<_>>(), want.clone())?;
        let z: Vec<(L, u32)> = m.iter_zip().map(|(a, b)| (a, *b)).collect();
        eq(&at("iter_zip"), z, L::ALL.iter().copied().zip(want.iter().copied()).collect())?;
    }
    Ok(())
}

fn c07<L: Facts>(r: &mut Run, n: usize) {
    let rounds = r.n(3, 40);
    for k in 0..rounds {
        let len = 1 + r.rng.below(r.n(12, 24));
        let mut ops = vec![];
        // the extreme members come up in every history
        let pick = |r: &mut Run| match r.rng.below(5) {
            0 => 0,
            1 => n - 1,
            _ => r.rng.below(n),
        };
        for _ in 0..len {
            let i = r.rng.below(3);
            ops.push(match r.rng.below(12) {
                0..=5 => Op::Insert(i, pick(r)),
                6..=7 => Op::Remove(i, pick(r)),
                8..=9 => Op::Union(i, r.rng.below(3)),
                10 => Op::New(i, r.rng.chance(1, 2)),
                _ => Op::Bits(i, r.rng.below(3)),
            });
        }
        if k == 0 {
            ops = (0..n).map(|t| Op::Insert(0, t)).collect();
            ops.extend((0..n).step_by(2).map(|t| Op::Remove(0, t)));
            if n > 40 && !r.thorough() {
                ops = ops.into_iter().step_by(3).collect();
            }
        }
        r.case(&format!("lexicon of {n}: {ops:?}"), true, || sets::<L>(&ops));
    }
}
/// every pair of sets of a small lexicon
fn pairs<L: Facts>(r: &mut Run, n: usize) {
    for a in 0..1usize << n {
        for b in 0..1usize << n {
            let mut ops = vec![];
            for t in 0..n {
                if a >> t & 1 == 1 {
                    ops.push(Op::Insert(0, t));
                }
                if b >> t & 1 == 1 {
                    ops.push(Op::Insert(1, t));
                }
            }
            ops.push(Op::Bits(2, 0));
            ops.push(Op::Union(2, 1));
            ops.push(Op::Remove(2, (a + b) % n));
            let ops = if ops.len() > 3 { ops } else { vec![Op::New(0, true)] };
            r.case(&format!("lexicon of {n}: {ops:?}"), true, || sets::<L>(&ops));
        }
    }
}
fn c08<L: Facts>(r: &mut Run, n: usize) {
    r.case(&format!("lexicon of {n}: facts"), true, facts::<L>);
    for _ in 0..r.n(3, 60) {
        let len = 1 + r.rng.below(12);
        let ops: Vec<MOp> = (0..len)
            .map(|_| match r.rng.below(8) {
                0..=2 => MOp::Set(r.rng.below(n), r.rng.below(100) as u32),
                3..=4 => MOp::Add(r.rng.below(n), r.rng.below(100) as u32),
                5 => MOp::IterMut(r.rng.below(10) as u32),
                6 => MOp::ZipMut(r.rng.below(10) as u32),
                _ => MOp::Clone,
            })
            .collect();
        r.case(&format!("lexicon of {n}: map {ops:?}"), true, || maps::<L>(&ops));
    }
}

fn main() {
    run("a case is one history on one lexicon; all 128 sizes are covered", |r| {
        if r.prop == "C08" {
            macro_rules! go { ($m:ident) => { c08::<lexicons::$m::T>(r, lexicons::$m::T::ALL.len()); } }
            each!(go);
        } else {
            pairs::<lexicons::n1::T>(r, 1);
            pairs::<lexicons::n3::T>(r, 3);
            pairs::<lexicons::n4::T>(r, 4);
            macro_rules! go { ($m:ident) => { c07::<lexicons::$m::T>(r, lexicons::$m::T::ALL.len()); } }
            each!(go);
        }
    });
}
