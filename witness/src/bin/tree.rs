//! C13-C18 (and the node part of C19): every node parse inside many grammars, on many token
//! strings, is recorded by a wrapper node and compared with a reference recognizer.
use std::any::TypeId;
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;

use teleparse::prelude::*;
use teleparse::syntax::{Error, Metadata, Result as R};
use teleparse::{GrammarError, Parser, Produce, Production, Root, ToSpan};
use witness::*;

#[derive_lexicon]
#[teleparse(ignore(r"[ \n]+"))]
pub enum T {
    #[teleparse(terminal(Add = "+", Mul = "*", Comma = ","))]
    Op,
    #[teleparse(terminal(Open = "(", Close = ")"))]
    Paren,
    #[teleparse(regex(r"[a-z]+"), terminal(Id, Let = "let"))]
    Word,
    #[teleparse(regex(r"[0-9]+"), terminal(Num))]
    Num,
    /// a text with white space and quotes at both ends
    #[teleparse(regex("\t[^\t]*\t"), terminal(Raw))]
    Raw,
    #[teleparse(regex(r"#[a-z]*"))]
    Comment,
}
const TEXTS: [(&str, T); 9] = [
    ("+", T::Op), ("*", T::Op), (",", T::Op), ("(", T::Paren), (")", T::Paren), ("x", T::Word), ("let", T::Word), ("7", T::Num),
    ("\t\"X\\n \u{e9}\r\n\"\t", T::Raw),
];

// ---- reference grammars -------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct N {
    id: fn() -> TypeId,
    prod: fn() -> TypeId,
    g: fn() -> G,
}
fn n<X: Nd>() -> N {
    N { id: TypeId::of::<X>, prod: X::prod_id, g: X::g }
}
pub enum G {
    Tok(T, Option<&'static str>),
    Seq(Vec<N>),
    Alt(Vec<N>),
    Opt(N),
    Same(N),
    Plus(N),
    Star(N),
    Split(N, N),
    Punct(N, N),
    Loop(N),
    Recover(N, N),
}
use G::*;
impl G {
    fn kids(&self) -> Vec<N> {
        match self {
            Tok(..) => vec![],
            Seq(v) | Alt(v) => v.clone(),
            Opt(x) | Same(x) | Plus(x) | Star(x) | Loop(x) => vec![*x],
            Split(x, p) | Punct(x, p) | Recover(x, p) => vec![*x, *p],
        }
    }
}
type Texts = u16; // set of indices in TEXTS; bit 9 is the end of the input
const EOF: Texts = 1 << 9;
#[derive(Default)]
struct Ref {
    nul: HashMap<TypeId, bool>,
    first: HashMap<TypeId, Texts>,
    loops: HashMap<TypeId, bool>,
    follow: HashMap<TypeId, Texts>,
    /// per input
    ends: HashMap<(TypeId, usize), u64>,
    toks: Vec<(usize, usize, usize)>,
    consumed0: usize,
}
impl Ref {
    fn nullable(&mut self, n: N) -> bool {
        if let Some(b) = self.nul.get(&(n.id)()) {
            return *b;
        }
        let b = match (n.g)() {
            Tok(..) => false,
            Seq(v) => v.iter().all(|x| self.nullable(*x)),
            Alt(v) => v.iter().any(|x| self.nullable(*x)),
            Opt(_) | Star(_) => true,
            Same(x) | Plus(x) | Split(x, _) | Punct(x, _) | Loop(x) => self.nullable(x),
            Recover(h, t) => self.nullable(h) && self.nullable(t),
        };
        self.nul.insert((n.id)(), b);
        b
    }
    fn first(&mut self, n: N) -> Texts {
        if let Some(b) = self.first.get(&(n.id)()) {
            return *b;
        }
        let b = match (n.g)() {
            Tok(ty, lit) => (0..9).filter(|i| TEXTS[*i].1 == ty && lit.is_none_or(|l| l == TEXTS[*i].0)).fold(0, |a, i| a | 1 << i),
            Seq(v) => self.first_seq(&v),
            Alt(v) => v.iter().fold(0, |a, x| a | self.first(*x)),
            Opt(x) | Same(x) | Plus(x) | Star(x) | Loop(x) => self.first(x),
            Split(x, p) | Punct(x, p) | Recover(x, p) => self.first_seq(&[x, p]),
        };
        self.first.insert((n.id)(), b);
        b
    }
    fn first_seq(&mut self, v: &[N]) -> Texts {
        let mut a = 0;
        for x in v {
            a |= self.first(*x);
            if !self.nullable(*x) {
                break;
            }
        }
        a
    }
    fn has_loop(&mut self, n: N) -> bool {
        if let Some(b) = self.loops.get(&(n.id)()) {
            return *b;
        }
        self.loops.insert((n.id)(), false);
        let g = (n.g)();
        let b = matches!(g, Loop(_)) || g.kids().into_iter().any(|x| self.has_loop(x));
        self.loops.insert((n.id)(), b);
        b
    }
    fn build_follow(&mut self, root: N) {
        self.follow.clear();
        let (mut all, mut todo, mut seen) = (vec![], vec![root], std::collections::HashSet::new());
        while let Some(x) = todo.pop() {
            if seen.insert((x.id)()) {
                all.push(x);
                todo.extend((x.g)().kids());
            }
        }
        self.follow.insert((root.prod)(), EOF);
        loop {
            let before: Vec<Texts> = all.iter().map(|x| self.fol(*x)).collect();
            for x in &all {
                let own = self.fol(*x);
                let mut add = |me: &mut Self, c: N, t: Texts| *me.follow.entry((c.prod)()).or_insert(0) |= t;
                match (x.g)() {
                    Tok(..) => {}
                    Seq(v) => self.follow_seq(&v, own),
                    Recover(a, b) => self.follow_seq(&[a, b], own),
                    Alt(v) => v.iter().for_each(|c| add(self, *c, own)),
                    Opt(c) | Same(c) => add(self, c, own),
                    Plus(c) | Star(c) | Loop(c) => {
                        let f = self.first(c);
                        add(self, c, own | f)
                    }
                    Split(c, p) | Punct(c, p) => {
                        let (fc, fp) = (self.first(c), self.first(p));
                        let more = if self.nullable(p) { fc } else { 0 };
                        add(self, c, own | fp | more);
                        let more = if self.nullable(c) { own | fp } else { 0 };
                        let last = if matches!((x.g)(), Punct(..)) { own } else { 0 };
                        add(self, p, fc | more | last);
                    }
                }
            }
            if before == all.iter().map(|x| self.fol(*x)).collect::<Vec<_>>() {
                break;
            }
        }
    }
    fn follow_seq(&mut self, v: &[N], own: Texts) {
        for (i, c) in v.iter().enumerate() {
            let mut t = self.first_seq(&v[i + 1..]);
            if v[i + 1..].iter().all(|x| self.nullable(*x)) {
                t |= own;
            }
            *self.follow.entry((c.prod)()).or_insert(0) |= t;
        }
    }
    fn fol(&self, n: N) -> Texts {
        self.follow.get(&(n.prod)()).copied().unwrap_or(0)
    }
    fn at(&self, i: usize) -> Texts {
        self.toks.get(i).map_or(EOF, |t| 1 << t.0)
    }
    fn span(&self, i: usize) -> (usize, usize) {
        (self.toks[i].1, self.toks[i].2)
    }
    /// where a sentence of the node that starts at i can end
    fn ends(&mut self, n: N, i: usize) -> u64 {
        if let Some(e) = self.ends.get(&((n.id)(), i)) {
            return *e;
        }
        let e = match (n.g)() {
            Tok(..) => if self.at(i) & self.first(n) != 0 { 1 << (i + 1) } else { 0 },
            Seq(v) => v.iter().fold(1 << i, |a, x| self.then(a, *x)),
            Recover(a, b) => [a, b].iter().fold(1 << i, |s, x| self.then(s, *x)),
            Alt(v) => v.iter().fold(0, |a, x| a | self.ends(*x, i)),
            Opt(x) => 1 << i | self.ends(x, i),
            Same(x) => self.ends(x, i),
            Plus(x) => {
                let s = self.ends(x, i);
                self.close(s, &[x]).0
            }
            Star(x) | Loop(x) => self.close(1 << i, &[x]).0,
            Split(x, p) => {
                let s = self.ends(x, i);
                self.close(s, &[p, x]).0
            }
            Punct(x, p) => {
                let s = self.ends(x, i);
                let (a, b) = self.close(s, &[p, x]);
                a | b
            }
        };
        self.ends.insert(((n.id)(), i), e);
        e
    }
    fn then(&mut self, s: u64, x: N) -> u64 {
        (0..=self.toks.len()).filter(|i| s >> i & 1 == 1).fold(0, |a, i| a | self.ends(x, i))
    }
    /// after any number of rounds; and after another first half of a round
    fn close(&mut self, mut s: u64, round: &[N]) -> (u64, u64) {
        loop {
            let half = self.then(s, round[0]);
            let all = round[1..].iter().fold(half, |a, x| self.then(a, *x));
            if all | s == s {
                return (s, half);
            }
            s |= all;
        }
    }
}

// ---- nodes and their contents -------------------------------------------------------------
#[derive(Clone, Debug, Default)]
pub struct View {
    /// positions of tokens in the tree, and of parts that do not keep their tokens
    leaves: Vec<(usize, usize, bool)>,
    /// lists of direct parts
    parts: Vec<Vec<(usize, usize)>>,
    counts: (usize, usize),
    present: Option<bool>,
    text: Option<String>,
}
fn sp<X: ToSpan>(x: &X) -> (usize, usize) {
    (x.lo(), x.hi())
}
pub trait Nd: Produce<Prod: Production<L = T>> + 'static {
    fn g() -> G;
    fn view(&self, v: &mut View);
}
fn sub<X: Nd>(x: &X, v: &mut View) {
    let mut w = View::default();
    x.view(&mut w);
    v.leaves.extend(w.leaves);
}
macro_rules! toks {
    ($($X:ident($ty:expr, $l:expr);)*) => { $(impl Nd for $X {
        fn g() -> G { Tok($ty, $l) }
        fn view(&self, v: &mut View) { v.leaves.push((self.0.span.lo, self.0.span.hi, true)); if self.0.ty != $ty { v.counts = (99, 99) } }
    })* };
}
toks! { Add(T::Op, Some("+")); Mul(T::Op, Some("*")); Comma(T::Op, Some(",")); Open(T::Paren, Some("(")); Close(T::Paren, Some(")")); Id(T::Word, None); Let(T::Word, Some("let")); Num(T::Num, None); Raw(T::Raw, None); }
macro_rules! tuples {
    ($($($X:ident $i:tt),*;)*) => { $(impl<$($X: Nd),*> Nd for ($($X,)*) {
        fn g() -> G { Seq(vec![$(n::<$X>()),*]) }
        fn view(&self, v: &mut View) { v.parts.push(vec![$(sp(&self.$i)),*]); $(sub(&self.$i, v);)* }
    })* };
}
tuples! { A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4; }
impl<X: Nd> Nd for Box<X> {
    fn g() -> G { Same(n::<X>()) }
    fn view(&self, v: &mut View) { v.parts.push(vec![sp(&**self)]); sub(&**self, v) }
}
impl<X: Nd> Nd for tp::Option<X> {
    fn g() -> G { Opt(n::<X>()) }
    fn view(&self, v: &mut View) {
        v.present = Some(self.0.value.is_some());
        if let Some(x) = &self.0.value { v.parts.push(vec![sp(x)]); sub(x, v) }
    }
}
impl<X: Nd> Nd for tp::Exists<X> {
    fn g() -> G { Opt(n::<X>()) }
    fn view(&self, v: &mut View) {
        v.present = Some(**self);
        v.leaves.push((self.lo(), self.hi(), false));
    }
}
impl<X: Nd> Nd for tp::Nev<X> {
    fn g() -> G { Plus(n::<X>()) }
    fn view(&self, v: &mut View) {
        v.counts = (self.len(), 0);
        v.parts.push(self.iter().map(sp).collect());
        self.iter().for_each(|x| sub(x, v))
    }
}
impl<X: Nd> Nd for tp::VecDeque<X> {
    fn g() -> G { Star(n::<X>()) }
    fn view(&self, v: &mut View) {
        v.counts = (self.len(), 0);
        v.parts.push(self.iter().map(sp).collect());
        self.iter().for_each(|x| sub(x, v))
    }
}
impl<X: Nd> Nd for tp::Vec<X> {
    fn g() -> G { Star(n::<X>()) }
    fn view(&self, v: &mut View) {
        v.counts = (self.len(), 0);
        v.parts.push(self.iter().map(sp).collect());
        self.iter().for_each(|x| sub(x, v))
    }
}
impl<X: Nd> Nd for tp::Loop<X> {
    fn g() -> G { Loop(n::<X>()) }
    fn view(&self, v: &mut View) {
        v.counts = (self.len(), 0);
        v.parts.push(self.iter().map(sp).collect());
        self.iter().for_each(|x| sub(x, v))
    }
}
fn lists<X: Nd, Y: Nd>(elems: &[X], puncts: &[Y], v: &mut View) {
    v.counts = (elems.len(), puncts.len());
    v.parts.push(elems.iter().map(sp).collect());
    v.parts.push(puncts.iter().map(sp).collect());
    let (mut a, mut b) = (elems.iter().peekable(), puncts.iter().peekable());
    // in source order
    while a.peek().is_some() || b.peek().is_some() {
        match (a.peek(), b.peek()) {
            (Some(x), Some(y)) if x.lo() < y.lo() || (x.lo() == y.lo() && x.hi() <= y.hi()) => sub(a.next().unwrap(), v),
            (_, Some(_)) => sub(b.next().unwrap(), v),
            _ => sub(a.next().unwrap(), v),
        }
    }
}
impl<X: Nd, Y: Nd> Nd for tp::Split<X, Y> {
    fn g() -> G { Split(n::<X>(), n::<Y>()) }
    fn view(&self, v: &mut View) { lists(&self.elems, &self.puncts, v) }
}
impl<X: Nd, Y: Nd> Nd for tp::Punct<X, Y> {
    fn g() -> G { Punct(n::<X>(), n::<Y>()) }
    fn view(&self, v: &mut View) { lists(&self.elems, &self.puncts, v) }
}
impl<X: Nd, Y: Nd> Nd for tp::Recover<X, Y> {
    fn g() -> G { Recover(n::<X>(), n::<Y>()) }
    fn view(&self, v: &mut View) {
        v.present = Some(self.head.value.is_some());
        v.parts.push(self.head.value.iter().map(sp).chain([sp(&self.tail)]).collect());
        if let Some(x) = &self.head.value { sub(x, v) }
        sub(&self.tail, v)
    }
}
impl<X: Nd> Nd for tp::String<X> {
    fn g() -> G { Same(n::<X>()) }
    fn view(&self, v: &mut View) {
        v.leaves.push((self.lo(), self.hi(), false));
        v.text = Some((**self).clone());
    }
}
#[derive(Debug)]
pub struct Text(Result<String, String>);
impl std::str::FromStr for Text {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if s.contains('x') { Err(s.to_string()) } else { Ok(Text(Ok(s.to_string()))) }
    }
}
impl<X: Nd> Nd for tp::Parse<Text, X> {
    fn g() -> G { Same(n::<X>()) }
    fn view(&self, v: &mut View) {
        v.leaves.push((self.lo(), self.hi(), false));
        v.text = Some(match &**self { Ok(Text(Ok(s))) if !s.contains('x') => s.clone(), Err(s) if s.contains('x') => s.clone(), x => format!("wrong value {x:?}") });
    }
}

// ---- the recording wrapper ----------------------------------------------------------------
pub struct Pr<X>(X);
impl<X: ToSpan> ToSpan for Pr<X> {
    fn lo(&self) -> Pos { self.0.lo() }
    fn hi(&self) -> Pos { self.0.hi() }
}
struct Call {
    node: N,
    from: usize,
    to: usize,
    kind: char,
    errs: Vec<Error<T>>,
    span: Option<(usize, usize)>,
}
thread_local! {
    static STACK: RefCell<Vec<Vec<Call>>> = const { RefCell::new(vec![]) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    static REF: RefCell<Ref> = RefCell::new(Ref::default());
    static PROP: RefCell<String> = const { RefCell::new(String::new()) };
    static SOURCE: RefCell<String> = const { RefCell::new(String::new()) };
}
impl<X: Nd> Produce for Pr<X> {
    type Prod = X::Prod;
    fn produce(p: &mut Parser<'_, T>, m: &Metadata<T>) -> R<Self, T> {
        let from = p.info().tokens.len();
        let own = p.info().errors.len();
        STACK.with(|s| s.borrow_mut().push(vec![]));
        let r = X::produce(p, m);
        let calls = STACK.with(|s| s.borrow_mut().pop().unwrap());
        let to = p.info().tokens.len();
        let (kind, errs, tree) = match &r {
            R::Success(x) => ('S', vec![], Some(x)),
            R::Recovered(x, e) => ('R', e.clone(), Some(x)),
            R::Panic(e) => ('P', e.clone(), None),
        };
        let mut v = View::default();
        if let Some(x) = tree {
            x.view(&mut v);
        }
        let c = Call { node: n::<Self>(), from, to, kind, errs, span: tree.map(sp) };
        let bad = REF.with(|re| judge(&mut re.borrow_mut(), &c, &calls, &v, p.info().errors.len() < own));
        if let Err(e) = bad {
            BAD.with(|b| {
                b.borrow_mut().get_or_insert(format!("{} from token {from} to {to} ({kind}): {e}", std::any::type_name::<X>()));
            });
        }
        STACK.with(|s| {
            if let Some(t) = s.borrow_mut().last_mut() {
                t.push(c)
            }
        });
        r.map(Pr)
    }
}
impl<X: Nd> Nd for Pr<X> {
    fn g() -> G { X::g() }
    fn view(&self, v: &mut View) { self.0.view(v) }
}

/// what the property says about one node parse; `calls` are the parses of parts, in order
fn judge(re: &mut Ref, c: &Call, calls: &[Call], v: &View, lost: bool) -> Result<(), String> {
    let g = (c.node.g)();
    let ok = |c: &&Call| c.kind != 'P';
    let err = |s: String| Err::<(), String>(s);
    let last_ok = calls.last().is_none_or(|c| c.kind != 'P');
    let end = |i: usize| if i == 0 { 0 } else { re.span(i - 1).1 };
    let (e0, e1) = (end(c.from), end(c.to));
    match PROP.with(|p| p.borrow().clone()).as_str() {
        "C13" => {
            if lost {
                return err("errors disappeared from the parser".into());
            }
            if (c.kind == 'S') != c.errs.is_empty() {
                return err(format!("{} errors", c.errs.len()));
            }
            let merge = matches!(g, Split(..) | Punct(..) | Recover(..));
            for k in calls {
                if k.kind == 'P' && merge {
                    if c.errs.is_empty() {
                        return err("a part failed, but no error".into());
                    }
                    continue;
                }
                for e in &k.errs {
                    let count = |v: &[Error<T>]| v.iter().filter(|x| *x == e).count();
                    if count(&c.errs) < count(&k.errs) {
                        return err(format!("error of a part was dropped: {e:?}"));
                    }
                }
            }
        }
        "C14" => {
            let Some((lo, hi)) = c.span else { return Ok(()) };
            if !(e0 <= lo && lo <= hi && hi <= e1) {
                return err(format!("span {lo}..{hi}, but the tokens consumed before end at {e0} and after at {e1}"));
            }
            for l in &v.parts {
                let mut at = lo;
                for (a, b) in l {
                    if !(at <= *a && a <= b && *b <= hi) {
                        return err(format!("parts {l:?} are not in order inside {lo}..{hi}"));
                    }
                    at = *b;
                }
            }
            let mut at = lo;
            for (a, b, _) in &v.leaves {
                if !(at <= *a && a <= b && *b <= hi) {
                    return err(format!("leaves {:?} are not in order inside {lo}..{hi}", v.leaves));
                }
                at = *b;
            }
        }
        "C15" => {
            if c.kind != 'S' {
                return Ok(());
            }
            if re.ends(c.node, c.from) >> c.to & 1 == 0 {
                return err("the consumed tokens are not a sentence".into());
            }
            let mut i = c.from;
            for (a, b, exact) in &v.leaves {
                if *exact {
                    if i >= c.to || re.span(i) != (*a, *b) {
                        return err(format!("leaf {a}..{b} is not the next consumed token"));
                    }
                    i += 1;
                } else {
                    while i < c.to && re.span(i).1 <= *b {
                        i += 1;
                    }
                }
            }
            if i != c.to || v.counts.0 == 99 {
                return err("a consumed token is not in the tree".into());
            }
        }
        "C16" => {
            if re.has_loop(c.node) && !matches!(g, Loop(x) if !re.has_loop(x)) {
                return Ok(());
            }
            let ends = re.ends(c.node, c.from);
            let fol = re.fol(c.node);
            for k in c.from..=re.toks.len() {
                let next = if matches!(g, Loop(_)) { re.at(k) & EOF } else { re.at(k) & fol };
                if ends >> k & 1 == 1 && next != 0 && (c.kind != 'S' || c.to != k) {
                    return err(format!("tokens {}..{k} are a sentence and what follows may follow", c.from));
                }
            }
        }
        "C17" => {
            let begins = |re: &mut Ref, x: N| re.at(c.from) & re.first(x) != 0;
            let next = re.at(c.to);
            let n_ok = calls.iter().filter(ok).count();
            let of = |x: N| calls.iter().filter(|k| (k.node.id)() == (x.id)()).filter(ok).count();
            let first_bad = calls.first().is_some_and(|c| c.kind == 'P');
            match g {
                Opt(x) => {
                    let can = begins(re, x);
                    if c.kind == 'P' {
                        return err("an optional failed".into());
                    }
                    if !can && (c.to != c.from || c.kind != 'S' || v.present != Some(false) || !calls.is_empty()) {
                        return err("should be absent without consuming anything".into());
                    }
                    if can && (calls.len() != 1 || v.present != Some(n_ok == 1) || (calls[0].kind == 'S') != (c.kind == 'S')) {
                        return err("should be present exactly if its content parsed".into());
                    }
                }
                Plus(x) | Star(x) => {
                    let plus = matches!(g, Plus(_));
                    if (c.kind == 'P') != (plus && first_bad) || (c.kind != 'P' && v.counts.0 != n_ok) || (plus && c.kind != 'P' && v.counts.0 == 0) {
                        return err(format!("{} items in the list, {n_ok} parsed", v.counts.0));
                    }
                    if (plus || !calls.is_empty() || begins(re, x)) && calls.is_empty() {
                        return err("no item was tried".into());
                    }
                    if c.kind == 'S' && next & re.first(x) != 0 {
                        return err("stopped although the next token can begin an item".into());
                    }
                }
                Split(x, p) | Punct(x, p) => {
                    let (e, q) = v.counts;
                    if (c.kind == 'P') != first_bad {
                        return err("fails exactly if its first element does".into());
                    }
                    if c.kind == 'P' {
                        return Ok(());
                    }
                    let split = matches!(g, Split(..));
                    if e != of(x) || (split && e != q + 1) || (!split && q != of(p)) || (!split && c.kind == 'S' && e != q && e != q + 1) {
                        return err(format!("{e} elements and {q} delimiters"));
                    }
                    if c.kind == 'S' && (next & re.first(p) != 0 && (split || e == q + 1) || (!split && e == q && next & re.first(x) != 0)) {
                        return err("stopped although the list goes on".into());
                    }
                }
                Loop(_) => {
                    if c.kind == 'P' || v.counts.0 != n_ok {
                        return err(format!("{} items in the list, {n_ok} parsed", v.counts.0));
                    }
                }
                _ => {}
            }
        }
        "C18" => {
            let within: usize = calls.iter().map(|k| k.to - k.from).sum();
            if !matches!(g, Tok(..)) && within != c.to - c.from && c.errs.is_empty() {
                return err("skipped a token without an error".into());
            }
            if re.at(c.from) & re.first(c.node) != 0 && c.to == c.from {
                return err("the next token can begin it, but nothing was consumed".into());
            }
            match g {
                Loop(_) => {
                    if c.to != re.toks.len() && c.errs.is_empty() {
                        return err("stopped before the end without an error".into());
                    }
                    if calls.iter().rev().skip(1).any(|k| k.to == k.from) {
                        return err("went on after a round without progress".into());
                    }
                }
                Star(_) | Plus(_) => {
                    if calls.iter().rev().skip(1).any(|k| k.to == k.from || k.kind == 'P') {
                        return err("went on after a round without progress".into());
                    }
                }
                Split(..) | Punct(..) => {
                    let mut at = c.from;
                    let mut stuck = 0;
                    for k in calls.iter().skip(1) {
                        stuck = if k.to == at { stuck + 1 } else { 0 };
                        at = k.to;
                        if stuck > 2 {
                            return err("rounds without progress".into());
                        }
                    }
                }
                Recover(h, t) => {
                    let head = calls.iter().find(|k| (k.node.id)() == (h.id)() && k.from == c.from && (k.node.id)() == (calls[0].node.id)());
                    let tails: Vec<&Call> = calls.iter().skip(head.is_some() as usize).collect();
                    let done = tails.last().is_some_and(|k| k.kind != 'P');
                    if done != (c.kind != 'P') {
                        return err("should succeed exactly if the tail parses".into());
                    }
                    if done && c.to != tails.last().unwrap().to {
                        return err("skipped after the tail".into());
                    }
                    if tails.iter().rev().skip(1).any(|k| k.kind != 'P') {
                        return err("went on after the tail parsed".into());
                    }
                    if c.kind != 'P' && v.present != Some(head.is_some_and(|k| k.kind != 'P')) {
                        return err("the head is kept exactly if it parsed".into());
                    }
                    // tokens skipped by the recovery could not begin the tail, or it failed there
                    let (ft, nt) = (re.first(t), re.nullable(t));
                    let mut at = head.map_or(c.from, |k| k.to);
                    let stop = if done { tails.last().unwrap().from } else { c.to };
                    let mut ts = tails.iter().peekable();
                    while at < stop {
                        let mut tried = false;
                        while ts.peek().is_some_and(|k| k.from == at) {
                            let k = ts.next().unwrap();
                            tried = true;
                            at = k.to;
                            if k.to != k.from {
                                break;
                            }
                        }
                        if at >= stop {
                            break;
                        }
                        if !tried && (re.at(at) & ft != 0 || nt) {
                            return err(format!("skipped token {at}, which can begin the tail"));
                        }
                        at += 1;
                    }
                }
                _ => {}
            }
        }
        "C19" => {
            if let (Some(t), Some((a, b))) = (&v.text, c.span) {
                let k = &calls[0];
                if k.span != c.span {
                    return err(format!("span {:?}, content {:?}", c.span, k.span));
                }
                let want = SOURCE.with(|s| s.borrow()[a..b].to_string());
                if *t != want {
                    return err(format!("has text {t:?}, the source has {want:?}"));
                }
            }
            if let (Opt(_), Some(p)) = (&g, v.present) {
                let there = calls.iter().any(|k| k.kind != 'P');
                if p != there {
                    return err("present exactly if its content was".into());
                }
                let want = if there { calls[0].span.unwrap() } else { (e1, e1) };
                if c.span != Some(want) {
                    return err(format!("span {:?}, expected {want:?}", c.span));
                }
            }
        }
        _ => {}
    }
    let _ = last_ok;
    Ok(())
}

// ---- roots --------------------------------------------------------------------------------
pub struct Top<X>(X, PhantomData<X>);
impl<X: ToSpan> ToSpan for Top<X> {
    fn lo(&self) -> Pos { self.0.lo() }
    fn hi(&self) -> Pos { self.0.hi() }
}
impl<X: Nd> Produce for Top<X> {
    type Prod = X::Prod;
    fn produce(p: &mut Parser<'_, T>, m: &Metadata<T>) -> R<Self, T> {
        X::produce(p, m).map(|x| Top(x, PhantomData))
    }
}
thread_local! { static META: RefCell<HashMap<TypeId, &'static Result<Metadata<T>, GrammarError>>> = RefCell::new(HashMap::new()); }
impl<X: Nd> Root for Top<X> {
    fn metadata() -> &'static Result<Metadata<T>, GrammarError> {
        META.with(|m| *m.borrow_mut().entry(TypeId::of::<X>()).or_insert_with(|| Box::leak(Box::new(Metadata::build_for::<X::Prod>()))))
    }
}
macro_rules! seq {
    ($($N:ident { $($f:ident: $X:ty),* })*) => { $(
        #[derive_syntax]
        pub struct $N { $($f: $X),* }
        impl Nd for $N {
            fn g() -> G { Seq(vec![$(n::<$X>()),*]) }
            fn view(&self, v: &mut View) { v.parts.push(vec![$(sp(&self.$f)),*]); $(sub(&self.$f, v);)* }
        }
    )* };
}
macro_rules! alt {
    ($($N:ident { $($f:ident: $X:ty),* })*) => { $(
        #[derive_syntax]
        pub enum $N { $($f($X)),* }
        impl Nd for $N {
            fn g() -> G { Alt(vec![$(n::<$X>()),*]) }
            fn view(&self, v: &mut View) { match self { $(Self::$f(x) => { v.parts.push(vec![sp(x)]); sub(x, v) })* } }
        }
    )* };
}
type A = Pr<Add>;
type M = Pr<Mul>;
type K = Pr<Comma>;
type Po = Pr<Open>;
type Pc = Pr<Close>;
type I = Pr<Id>;
type L = Pr<Let>;
type U = Pr<Num>;
type W = Pr<Raw>;
type O<X> = Pr<tp::Option<X>>;
type Ex<X> = Pr<tp::Exists<X>>;
type Pl<X> = Pr<tp::Nev<X>>;
type St<X> = Pr<tp::Vec<X>>;
type Sd<X> = Pr<tp::VecDeque<X>>;
type Sp<X, Y> = Pr<tp::Split<X, Y>>;
type Pu<X, Y> = Pr<tp::Punct<X, Y>>;
type Lo<X> = Pr<tp::Loop<X>>;
type Re<X, Y> = Pr<tp::Recover<X, Y>>;
type Q<X> = Pr<tp::String<X>>;
type Pa<X> = Pr<tp::Parse<Text, X>>;
type Bx<X> = Pr<Box<X>>;
type S2<X, Y> = Pr<(X, Y)>;
type S3<X, Y, Z> = Pr<(X, Y, Z)>;
type S4<X, Y, Z, W> = Pr<(X, Y, Z, W)>;
type S5<X, Y, Z, W, V> = Pr<(X, Y, Z, W, V)>;

seq! {
    Pair { a: A, b: M }
    Group { a: Po, b: O<Bx<Pr<Expr>>>, c: Pc }
    Stmt { a: Pl<Pr<Word>>, b: K }
    Rest { op: A, t: Pr<Term> }
    Sum { t: Pr<Term>, rest: St<Pr<Rest>> }
    Chain { a: U, b: O<Bx<Pr<Chain>>> }
    Nul { a: O<A>, b: O<M> }
    Mix { a: O<A>, b: M, c: St<U>, d: K }
    CallN { f: I, a: Po, args: O<Sp<U, K>>, b: Pc }
    One { a: A }
    PairK { a: Pr<Pair>, b: K }
}
alt! {
    Word { X: I, Y: U }
    Sign { P: A, M: M }
    Term { Num: U, Id: I, Group: Pr<Group> }
    Expr { Sum: Bx<Pr<Sum>> }
    OneOf { Nul: O<A>, Mul: M }
    Three { P: Pr<Pair>, C: K, G: S3<Po, O<U>, Pc> }
    Cmd { S: S2<L, K>, N: S2<U, K> }
    Kw { L: L, N: U }
    AltList { L: Pl<A>, R: Sp<U, K> }
    Maybe { E: Ex<A>, M: M }
}

struct Root_ {
    name: &'static str,
    node: N,
    go: fn(&str) -> Result<(), String>,
}
fn go<X: Nd>(src: &str) -> Result<(), String> {
    let Ok(meta) = Top::<X>::metadata() else { if std::env::var("SHOW").is_ok() { eprintln!("rejected {}", std::any::type_name::<X>()) } return Ok(()) };
    let _ = meta;
    BAD.with(|b| *b.borrow_mut() = None);
    let mut p = Parser::<T>::new(src).map_err(|e| e.to_string())?;
    let t = p.parse::<Top<X>>();
    let c13 = PROP.with(|p| *p.borrow() == "C13");
    let mut res = BAD.with(|b| b.borrow_mut().take()).map_or(Ok(()), Err);
    let calls = STACK.with(|s| std::mem::replace(&mut s.borrow_mut()[0], vec![]));
    if c13 && res.is_ok() {
        let errs = &p.info().errors;
        match &t {
            Err(e) => res = Err(format!("grammar error {e} after metadata was fine")),
            Ok(t) => {
                if t.is_none() && errs.is_empty() {
                    res = Err("no tree and no error".into());
                }
                if let Some(c) = calls.first() {
                    if t.is_some() != c.span.is_some() || c.errs.iter().any(|e| !errs.contains(e)) || errs.len() < c.errs.len() {
                        res = Err("the errors of the root are not in the parser's list".into());
                    }
                    let lexer = errs.iter().filter(|e| matches!(e.data, teleparse::syntax::ErrorKind::UnexpectedCharacters)).count();
                    if errs.len() != c.errs.len() + lexer || lexer != p.info().invalid_source.len() {
                        res = Err(format!("{} errors in the list, {} of the root, {lexer} for invalid text", errs.len(), c.errs.len()));
                    }
                }
            }
        }
    }
    res
}
macro_rules! roots {
    ($($X:ty;)*) => { vec![$(Root_ { name: stringify!($X), node: n::<$X>(), go: go::<$X> }),*] };
}
fn roots() -> Vec<Root_> {
    roots! {
        A; I; Pr<Pair>; Pr<Sign>; Pr<One>; Pr<PairK>; Pr<Nul>; Pr<Mix>; Pr<OneOf>; Pr<Three>; Pr<Cmd>; Pr<Kw>; Pr<AltList>; Pr<Maybe>;
        Pr<Expr>; Pr<Stmt>; Pr<CallN>; Pr<Chain>; St<Pr<Stmt>>; Lo<Pr<Stmt>>; Lo<Pr<CallN>>; Sp<Pr<Expr>, K>;
        O<A>; O<Pr<Pair>>; O<O<A>>; Ex<A>; Ex<Pr<Pair>>; S2<Ex<Pr<Pair>>, K>; S2<O<Pr<Pair>>, K>; S3<O<A>, O<M>, K>;
        S2<O<S2<A, A>>, M>; S2<A, Ex<S2<M, M>>>; S3<A, O<S2<M, U>>, K>;
        Pl<A>; Pl<Pr<Pair>>; S2<Pl<Pr<Pair>>, K>; St<A>; St<Pr<Pair>>; S2<St<Pr<Pair>>, K>; Sd<S2<A, O<M>>>; S3<St<A>, M, St<U>>; Pl<S2<A, St<M>>>; St<Pl<A>>; S2<St<S3<A, O<K>, M>>, O<U>>;
        Sp<A, K>; Sp<Pr<Pair>, K>; S2<Sp<Pr<Pair>, K>, U>; Sp<A, S2<K, U>>; S3<Po, Sp<Pr<Pair>, K>, Pc>; Sp<S2<O<A>, M>, K>; Sp<A, O<K>>; S2<Sp<Pr<Pair>, O<K>>, U>; Sp<Sp<A, M>, K>; Sp<O<A>, K>; S2<Sp<O<Pr<Pair>>, K>, U>;
        Pu<A, K>; Pu<Pr<Pair>, K>; S2<Pu<Pr<Pair>, K>, U>; Pu<A, S2<K, U>>; S3<Po, Pu<Pr<Pair>, K>, Pc>; Pu<Pu<A, M>, K>; Pu<Sp<A, M>, K>; Sp<Pu<A, M>, S2<K, U>>; Pu<S2<A, O<U>>, K>;
        Lo<A>; Lo<Pr<Pair>>; Lo<S2<A, O<M>>>; Lo<O<A>>; Lo<Sp<A, K>>; Lo<Pu<Pr<Pair>, K>>; S2<U, Lo<Pr<Pair>>>; Lo<Re<Pr<Pair>, K>>; Lo<Pr<Three>>; O<Lo<A>>;
        Re<A, K>; Re<Pr<Pair>, K>; Re<Pr<Pair>, S2<K, U>>; Re<O<A>, K>; Re<St<Pr<Pair>>, K>; S2<Re<Pr<Pair>, K>, U>; St<Re<Pr<Pair>, K>>; Re<Pr<Pair>, O<K>>; S2<Re<Pr<Pair>, Ex<K>>, U>; Re<Sp<Pr<Pair>, M>, K>; Re<Re<Pr<Pair>, M>, K>; Re<A, Sp<K, M>>; Re<Pl<U>, S2<O<A>, K>>;
        Q<W>; Pa<W>; Q<St<W>>; S2<Q<S2<W, O<U>>>, Pa<W>>; Q<A>; Q<Pr<Pair>>; Q<S3<I, K, I>>; Pa<I>; Pa<S2<U, I>>; S2<O<Q<S2<A, U>>>, K>; St<Q<S2<I, O<U>>>>; Re<Q<Pr<Pair>>, K>; Q<O<A>>; Pa<St<U>>; Q<Re<A, K>>; Ex<Q<A>>; S2<A, Q<O<M>>>; Q<Lo<A>>;
        Bx<A>; Bx<Pr<Pair>>; S2<Bx<O<A>>, M>; S4<A, O<M>, St<U>, K>; S5<O<A>, M, O<K>, U, St<I>>; S2<S2<A, M>, S2<K, U>>; S2<Kw2, U>; St<Kw2>; Sp<I, Kw2>;
    }
}
type Kw2 = Pr<(Po, Pc)>;

/// the source for a token string: separators chosen by `how`
fn source(toks: &[usize], how: u64) -> (String, Vec<(usize, usize, usize)>) {
    let mut r = Rng::new(how);
    let (mut s, mut v) = (String::new(), vec![]);
    let sep = |s: &mut String, r: &mut Rng| {
        s.push(' ');
        if how == 0 {
            return;
        }
        for _ in 0..r.below(3) {
            s.push_str(*r.pick(&[" ", "\n", "#c ", "# ", "$", "$$ ", "\u{e9} ", "\u{20ac}", " #"]));
            s.push(' ');
        }
    };
    if how != 0 {
        sep(&mut s, &mut r);
    }
    for t in toks {
        let lo = s.len();
        s.push_str(TEXTS[*t].0);
        v.push((*t, lo, s.len()));
        sep(&mut s, &mut r);
    }
    (s, v)
}
fn check(r: &mut Run, root: &Root_, toks: &[usize], how: u64) {
    let (s, v) = source(toks, how);
    let case = format!("{} <- {s}", root.name);
    SOURCE.with(|x| *x.borrow_mut() = s.clone());
    REF.with(|re| {
        let mut re = re.borrow_mut();
        re.ends.clear();
        re.toks = v;
        re.consumed0 = 0;
    });
    STACK.with(|s| *s.borrow_mut() = vec![vec![]]);
    r.case(&case, !toks.is_empty(), || (root.go)(&s));
}
fn main() {
    run("a grammar and a source with at least one token", |r| {
        PROP.with(|p| *p.borrow_mut() = r.prop.clone());
        let roots = roots();
        // texts that matter for a grammar, and one that does not
        let mut alpha = vec![];
        for x in &roots {
            let mut used: Texts = 0;
            let (mut todo, mut seen) = (vec![x.node], std::collections::HashSet::new());
            while let Some(y) = todo.pop() {
                if seen.insert((y.id)()) {
                    if let Tok(..) = (y.g)() {
                        used |= REF.with(|re| re.borrow_mut().first(y));
                    }
                    todo.extend((y.g)().kids());
                }
            }
            let mut a: Vec<usize> = (0..9).filter(|i| used >> i & 1 == 1).collect();
            if let Some(i) = (0..9).find(|i| used >> i & 1 == 0) {
                a.push(i);
            }
            alpha.push(a);
        }
        let most = r.n(6, 8);
        let cap = r.n(1200, 12000);
        for (x, a) in roots.iter().zip(&alpha) {
            REF.with(|re| re.borrow_mut().build_follow(x.node));
            let mut left = cap;
            for len in 0..=most {
                let all = a.len().pow(len as u32);
                for k in 0..all.min(left) {
                    // all strings of this length, or as many random ones as are left
                    let mut c = if all <= left { k } else { r.rng.below(all) };
                    let t: Vec<usize> = (0..len).map(|_| { let i = c % a.len(); c /= a.len(); a[i] }).collect();
                    check(r, x, &t, if k % 3 == 2 { 1 + k as u64 } else { 0 });
                }
                if all >= left {
                    break;
                }
                left -= all;
            }
        }
        while !r.out_of_time() {
            let i = r.rng.below(roots.len());
            REF.with(|re| re.borrow_mut().build_follow(roots[i].node));
            for _ in 0..60 {
                let len = r.rng.below(12);
                let t: Vec<usize> = (0..len).map(|_| *r.rng.pick(&alpha[i])).collect();
                let how = r.rng.next();
                check(r, &roots[i], &t, if how & 1 == 0 { 0 } else { how });
            }
        }
    });
}
