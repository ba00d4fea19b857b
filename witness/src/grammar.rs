//! Textbook FIRST/FOLLOW/LL(1) analysis of a grammar, written independently of the code.
use std::collections::BTreeSet;

/// (token type, text) pairs; the empty symbol or the end of input is None
pub type Sym = Option<(usize, usize)>;
pub type Set = BTreeSet<Sym>;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    T(usize, Option<usize>),
    E,
    S(Vec<usize>),
    U(Vec<usize>),
    /// never registered
    X,
}
pub struct Gram {
    pub prods: Vec<P>,
    /// number of texts; a terminal without literal has all of them
    pub texts: usize,
    pub root: usize,
}
fn ne(s: &Set) -> Set {
    s.iter().filter(|x| x.is_some()).copied().collect()
}
impl Gram {
    pub fn show(&self) -> String {
        let v: Vec<String> = self.prods.iter().enumerate().map(|(i, p)| format!("{i}={p:?}")).collect();
        format!("root={} {}", self.root, v.join("; "))
    }
    pub fn term(&self, ty: usize, lit: Option<usize>) -> Set {
        (0..self.texts).filter(|t| lit.is_none() || lit == Some(*t)).map(|t| Some((ty, t))).collect()
    }
    pub fn first(&self) -> Vec<Set> {
        let mut f = vec![Set::new(); self.prods.len()];
        loop {
            let mut chg = false;
            for (x, p) in self.prods.iter().enumerate() {
                let mut s = Set::new();
                match p {
                    P::T(ty, lit) => s = self.term(*ty, *lit),
                    P::E => {
                        s.insert(None);
                    }
                    P::S(ys) => {
                        let mut all = true;
                        for y in ys {
                            s.extend(ne(&f[*y]));
                            if !f[*y].contains(&None) {
                                all = false;
                                break;
                            }
                        }
                        if all {
                            s.insert(None);
                        }
                    }
                    P::U(ys) => ys.iter().for_each(|y| s.extend(f[*y].iter().copied())),
                    P::X => {}
                }
                if !s.is_subset(&f[x]) {
                    f[x].extend(s);
                    chg = true;
                }
            }
            if !chg {
                return f;
            }
        }
    }
    pub fn follow(&self, f: &[Set]) -> Vec<Set> {
        let mut g = vec![Set::new(); self.prods.len()];
        g[self.root].insert(None);
        loop {
            let before: usize = g.iter().map(|s| s.len()).sum();
            for (x, p) in self.prods.iter().enumerate() {
                match p {
                    P::S(ys) => {
                        for (i, y) in ys.iter().enumerate() {
                            let mut s = Set::new();
                            let mut all = true;
                            for z in &ys[i + 1..] {
                                s.extend(ne(&f[*z]));
                                if !f[*z].contains(&None) {
                                    all = false;
                                    break;
                                }
                            }
                            if all {
                                s.extend(g[x].clone());
                            }
                            g[*y].extend(s);
                        }
                    }
                    P::U(ys) => {
                        for y in ys {
                            let s = g[x].clone();
                            g[*y].extend(s);
                        }
                    }
                    _ => {}
                }
            }
            if g.iter().map(|s| s.len()).sum::<usize>() == before {
                return g;
            }
        }
    }
    pub fn kids(&self, x: usize) -> &[usize] {
        match &self.prods[x] {
            P::S(v) | P::U(v) => v,
            _ => &[],
        }
    }
    pub fn reachable(&self) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        let mut w = vec![self.root];
        while let Some(x) = w.pop() {
            if s.insert(x) {
                w.extend(self.kids(x));
            }
        }
        s
    }
    /// symbols that can be the first thing after x, without a token in between
    pub fn left(&self, f: &[Set], x: usize) -> Vec<usize> {
        match &self.prods[x] {
            P::U(v) => v.clone(),
            P::S(v) => {
                let mut o = vec![];
                for y in v {
                    o.push(*y);
                    if !f[*y].contains(&None) {
                        break;
                    }
                }
                o
            }
            _ => vec![],
        }
    }
    pub fn left_recursive(&self, f: &[Set]) -> Option<usize> {
        self.reachable().into_iter().find(|x| {
            let mut s = BTreeSet::new();
            let mut w = self.left(f, *x);
            while let Some(y) = w.pop() {
                if s.insert(y) {
                    w.extend(self.left(f, y));
                }
            }
            s.contains(x)
        })
    }
    pub fn conflict(&self, f: &[Set], g: &[Set]) -> Option<usize> {
        self.reachable().into_iter().find(|x| {
            let own = f[*x].contains(&None) && ne(&f[*x]).intersection(&g[*x]).next().is_some();
            match &self.prods[*x] {
                P::U(v) => {
                    own || (0..v.len()).any(|j| (0..j).any(|i| f[v[i]].intersection(&f[v[j]]).next().is_some()))
                }
                P::S(v) => {
                    own && !v.is_empty()
                        || (0..v.len()).any(|j| {
                            (0..j).any(|i| {
                                (i..j).all(|k| f[v[k]].contains(&None)) && f[v[i]].intersection(&ne(&f[v[j]])).next().is_some()
                            })
                        })
                }
                _ => false,
            }
        })
    }
    /// the alternative of x to take for a symbol
    pub fn choice(&self, f: &[Set], x: usize, s: Sym) -> Option<usize> {
        let P::U(v) = &self.prods[x] else { return None };
        v.iter().position(|y| f[*y].contains(&s)).or_else(|| v.iter().position(|y| f[*y].contains(&None)))
    }
}
