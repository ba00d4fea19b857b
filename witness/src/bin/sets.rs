//! C06: random histories of set operations against sets of (type, text) pairs.
use std::collections::BTreeSet;
use teleparse::lex::TokenSrc;
use teleparse::syntax::{FirstSet, FollowSet, LitSet, TerminalSet};
use teleparse::prelude::*;
use witness::*;

#[derive_lexicon]
#[teleparse(ignore(r"\s+"))]
pub enum T {
    #[teleparse(terminal(TA = "a"))]
    A,
    #[teleparse(terminal(TB = "b"))]
    B,
    #[teleparse(terminal(TC = "c"))]
    C,
}
const TY: [T; 3] = [T::A, T::B, T::C];
/// the last one is never inserted by itself: it stands for every other text
const TX: [&str; 4] = ["a", "b", "", "zz"];

type M = BTreeSet<Option<(usize, usize)>>;
fn syms(ty: usize, lit: Option<usize>) -> M {
    (0..4).filter(|t| lit.is_none() || lit == Some(*t)).map(|t| Some((ty, t))).collect()
}
fn no_e(m: &M) -> M {
    m.iter().filter(|x| x.is_some()).copied().collect()
}
type LM = BTreeSet<usize>;

#[derive(Clone, Copy, Debug)]
enum Op {
    New(usize),
    Clone(usize, usize),
    Clear(usize),
    Insert(usize, usize, Option<usize>),
    InsertE(usize),
    RemoveE(usize),
    Union(usize, usize, bool),
    ViaFollow(usize, usize, bool),
}

fn obs_t(s: &TerminalSet<T>) -> M {
    let mut m = M::new();
    for ty in 0..3 {
        for tx in 0..4 {
            if s.contains(Some(TokenSrc::from((TY[ty], TX[tx])))) {
                m.insert(Some((ty, tx)));
            }
        }
    }
    if s.contains(None) {
        m.insert(None);
    }
    m
}
fn obs_f(s: &FirstSet<T>) -> M {
    let mut m = M::new();
    for ty in 0..3 {
        for tx in 0..4 {
            if s.contains(Some(TokenSrc::from((TY[ty], TX[tx])))) {
                m.insert(Some((ty, tx)));
            }
        }
    }
    if s.contains(None) {
        m.insert(None);
    }
    m
}
fn obs_w(s: &FollowSet<T>) -> M {
    let mut m = M::new();
    for ty in 0..3 {
        for tx in 0..4 {
            if s.contains(Some(TokenSrc::from((TY[ty], TX[tx])))) {
                m.insert(Some((ty, tx)));
            }
        }
    }
    if s.contains(None) {
        m.insert(None);
    }
    m
}
fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

fn terminal_sets(ops: &[Op]) -> Result<(), String> {
    let mut s: Vec<TerminalSet<T>> = (0..3).map(|_| TerminalSet::default()).collect();
    let mut f: Vec<FirstSet<T>> = (0..3).map(|_| FirstSet::new()).collect();
    let mut w: Vec<FollowSet<T>> = (0..3).map(|_| FollowSet::new()).collect();
    let mut m: Vec<M> = vec![M::new(); 3];
    let mut wm: Vec<M> = vec![M::new(); 3];
    for (k, op) in ops.iter().enumerate() {
        let at = |x: &str| format!("step {k} {op:?} {x}");
        match *op {
            Op::New(i) => {
                s[i] = TerminalSet::new();
                f[i] = FirstSet::default();
                w[i] = FollowSet::default();
                m[i].clear();
                wm[i].clear();
            }
            Op::Clone(i, j) => {
                s[i] = s[j].clone();
                f[i] = f[j].clone();
                w[i] = w[j].clone();
                m[i] = m[j].clone();
                wm[i] = wm[j].clone();
            }
            Op::Clear(i) => {
                s[i].clear();
                f[i].clear();
                m[i].clear();
            }
            Op::Insert(i, ty, lit) => {
                let n: M = m[i].union(&syms(ty, lit)).copied().collect();
                let chg = n != m[i];
                m[i] = n;
                eq(&at("TerminalSet::insert change"), s[i].insert(TY[ty], lit.map(|x| TX[x])), chg)?;
                eq(&at("FirstSet::insert change"), f[i].insert(TY[ty], lit.map(|x| TX[x])), chg)?;
                let n: M = wm[i].union(&syms(ty, lit)).copied().collect();
                let chg = n != wm[i];
                wm[i] = n;
                eq(&at("FollowSet::insert change"), w[i].insert(TY[ty], lit.map(|x| TX[x])), chg)?;
                eq(&at("FirstSet::one"), obs_f(&FirstSet::one(TY[ty], lit.map(|x| TX[x]))), syms(ty, lit))?;
            }
            Op::InsertE(i) => {
                let chg = m[i].insert(None);
                eq(&at("insert_e change"), s[i].insert_e(), chg)?;
                eq(&at("insert_epsilon change"), f[i].insert_epsilon(), chg)?;
                w[i].insert_eof();
                wm[i].insert(None);
            }
            Op::RemoveE(i) => {
                let chg = m[i].remove(&None);
                eq(&at("remove_e change"), s[i].remove_e(), chg)?;
                f[i] = FirstSet::from(s[i].clone());
            }
            Op::Union(i, j, e) => {
                let o = if e { m[j].clone() } else { no_e(&m[j]) };
                let n: M = m[i].union(&o).copied().collect();
                let chg = n != m[i];
                m[i] = n;
                let (so, fo) = (s[j].clone(), f[j].clone());
                eq(&at("TerminalSet::union change"), s[i].union(&so, e), chg)?;
                let c = if e { f[i].union(&fo) } else { f[i].union_minus_epsilon(&fo) };
                eq(&at("FirstSet::union change"), c, chg)?;
            }
            Op::ViaFollow(i, j, first) => {
                let o = if first { no_e(&m[j]) } else { wm[j].clone() };
                let n: M = wm[i].union(&o).copied().collect();
                let chg = n != wm[i];
                wm[i] = n;
                let wo = w[j].clone();
                let c = if first { w[i].union_first(&f[j]) } else { w[i].union_follow(&wo) };
                eq(&at("FollowSet::union change"), c, chg)?;
            }
        }
        for i in 0..3 {
            eq(&at(&format!("TerminalSet {i}")), obs_t(&s[i]), m[i].clone())?;
            eq(&at(&format!("FirstSet {i}")), obs_f(&f[i]), m[i].clone())?;
            eq(&at(&format!("FollowSet {i}")), obs_w(&w[i]), wm[i].clone())?;
            eq(&at("contains_e"), s[i].contains_e(), m[i].contains(&None))?;
            eq(&at("contains_epsilon"), f[i].contains_epsilon(), m[i].contains(&None))?;
            eq(&at("contains_eof"), w[i].contains_eof(), wm[i].contains(&None))?;
            for j in 0..3 {
                let all = m[i].intersection(&m[j]).next().is_some();
                let noe = no_e(&m[i]).intersection(&m[j]).next().is_some();
                eq(&at(&format!("TerminalSet::intersects({i},{j},true)")), s[i].intersects(&s[j], true), all)?;
                eq(&at(&format!("TerminalSet::intersects({i},{j},false)")), s[i].intersects(&s[j], false), noe)?;
                eq(&at(&format!("FirstSet::intersects({i},{j})")), f[i].intersects(&f[j]), all)?;
                eq(&at(&format!("FirstSet::intersects_minus_epsilon({i},{j})")), f[i].intersects_minus_epsilon(&f[j]), noe)?;
                eq(&at(&format!("intersection_repr({i},{j}) empty")), s[i].intersection_repr(&s[j], true).is_empty(), !all)?;
                eq(&at(&format!("intersection_repr({i},{j},no e) empty")), s[i].intersection_repr(&s[j], false).is_empty(), !noe)?;
                let wf = no_e(&wm[i]).intersection(&m[j]).next().is_some();
                eq(&at(&format!("FollowSet::intersects_first({i},{j})")), w[i].intersects_first(&f[j]), wf)?;
            }
        }
    }
    Ok(())
}

fn obs_l(s: &LitSet) -> LM {
    (0..4).filter(|t| s.contains(TX[*t])).collect()
}
fn lit_sets(ops: &[Op]) -> Result<(), String> {
    let mut s: Vec<LitSet> = (0..3).map(|_| LitSet::default()).collect();
    let mut m: Vec<LM> = vec![LM::new(); 3];
    for (k, op) in ops.iter().enumerate() {
        let at = |x: &str| format!("LitSet step {k} {op:?} {x}");
        match *op {
            Op::New(i) => {
                s[i] = LitSet::new();
                m[i].clear();
            }
            Op::Clone(i, j) => {
                s[i] = s[j].clone();
                m[i] = m[j].clone();
            }
            Op::Clear(i) => {
                s[i].clear();
                m[i].clear();
            }
            Op::Insert(i, _, Some(t)) => {
                let chg = m[i].insert(t);
                eq(&at("change"), s[i].insert(TX[t]), chg)?;
            }
            Op::Insert(i, _, None) => {
                let chg = m[i].len() < 4;
                m[i] = (0..4).collect();
                eq(&at("universe change"), s[i].union_universe(), chg)?;
            }
            Op::Union(i, j, _) => {
                let n: LM = m[i].union(&m[j]).copied().collect();
                let chg = n != m[i];
                m[i] = n;
                let o = s[j].clone();
                eq(&at("union change"), s[i].union(&o), chg)?;
            }
            Op::InsertE(i) => {
                s[i] = LitSet::universe();
                m[i] = (0..4).collect();
            }
            Op::ViaFollow(i, j, _) => {
                s[i] = s[i].intersection(&s[j]);
                m[i] = m[i].intersection(&m[j]).copied().collect();
            }
            Op::RemoveE(_) => {}
        }
        for i in 0..3 {
            eq(&at(&format!("set {i}")), obs_l(&s[i]), m[i].clone())?;
            eq(&at("is_empty"), s[i].is_empty(), m[i].is_empty())?;
            eq(&at("is_universe"), s[i].is_universe(), m[i].len() == 4)?;
            match s[i].iter() {
                None => eq(&at("iter"), 4, m[i].len())?,
                Some(it) => {
                    let mut v: Vec<String> = it.map(|x| x.to_string()).collect();
                    v.sort();
                    let mut w: Vec<String> = m[i].iter().map(|x| TX[*x].to_string()).collect();
                    w.sort();
                    eq(&at("iter"), v, w)?
                }
            }
            for j in 0..3 {
                let want = m[i].intersection(&m[j]).next().is_some();
                eq(&at(&format!("intersects({i},{j})")), s[i].intersects(&s[j]), want)?;
                eq(&at(&format!("intersection({i},{j})")), obs_l(&s[i].intersection(&s[j])), m[i].intersection(&m[j]).copied().collect())?;
            }
        }
    }
    Ok(())
}

fn main() {
    run("random histories of up to 14 operations on 3 sets over 3 token types and 4 texts (one standing for all others); non-trivial: at least one union or intersection of two sets", |r| {
        let n = r.n(6000, 200_000);
        for _ in 0..n {
            if r.out_of_time() {
                break;
            }
            let len = 1 + r.rng.below(14);
            let ops: Vec<Op> = (0..len)
                .map(|_| {
                    let g = &mut r.rng;
                    let (i, j) = (g.below(3), g.below(3));
                    match g.below(16) {
                        0 => Op::New(i),
                        1 => Op::Clone(i, j),
                        2 => Op::Clear(i),
                        3 => Op::InsertE(i),
                        4 => Op::RemoveE(i),
                        5..=7 => Op::Union(i, j, g.chance(1, 2)),
                        8..=9 => Op::ViaFollow(i, j, g.chance(1, 2)),
                        _ => Op::Insert(i, g.below(3), if g.chance(1, 4) { None } else { Some(g.below(3)) }),
                    }
                })
                .collect();
            let nt = ops.iter().any(|o| matches!(o, Op::Union(i, j, _) | Op::ViaFollow(i, j, _) if i != j));
            let case = format!("{ops:?}");
            r.case(&case, nt, || {
                terminal_sets(&ops)?;
                lit_sets(&ops)
            });
        }
    });
}
