//! C11, C12: histories of parser operations against a model of the token stream.
//! C19: the text of spans. C20: the lexer against a hand-written one.
use teleparse::lex::{Lexicon, Set, Token};
use teleparse::prelude::*;
use teleparse::syntax::{Error, ErrorKind, FirstSet, FollowSet, Result as R};
use teleparse::Parser;
use witness::*;

#[derive_lexicon]
#[teleparse(ignore(r"\s+", r"//[^\n]*"))]
pub enum T {
    #[teleparse(terminal(Add = "+", Eq = "==", Shl = "<<="))]
    Op,
    #[teleparse(regex(r"[a-z]+"), terminal(Id, Let = "let"))]
    Word,
    #[teleparse(regex(r"[0-9]+(\.[0-9]+)?"), terminal(Num))]
    Num,
    #[teleparse(regex(r"#[a-z]*"))]
    Comment,
    #[teleparse(regex(r"@+"))]
    At,
    #[teleparse(regex("[\u{e0}-\u{ff}]+"), terminal(Acc))]
    Acc,
}
const ALL: [T; 6] = [T::Op, T::Word, T::Num, T::Comment, T::At, T::Acc];
fn aside(t: T) -> bool {
    matches!(t, T::Comment | T::At)
}

// ---- reference lexer ----------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Item {
    Tok(T, usize, usize),
    Bad(usize, usize),
}
fn while_(s: &str, i: usize, f: impl Fn(char) -> bool) -> usize {
    s[i..].char_indices().find(|(_, c)| !f(*c)).map_or(s.len(), |(k, _)| i + k)
}
/// tokens, and the extent of the text before each (or at the end) that is no token and not ignored
fn lex(s: &str) -> Vec<Item> {
    let (mut v, mut i) = (vec![], 0);
    let mut bad: Option<(usize, usize)> = None;
    while i < s.len() {
        let c = s[i..].chars().next().unwrap();
        let rest = &s[i..];
        let tok = if c.is_whitespace() {
            i = while_(s, i, |c| c.is_whitespace());
            continue;
        } else if rest.starts_with("//") {
            i = while_(s, i, |c| c != '\n');
            continue;
        } else if rest.starts_with("<<=") {
            Some((T::Op, i + 3))
        } else if rest.starts_with("==") {
            Some((T::Op, i + 2))
        } else if c == '+' {
            Some((T::Op, i + 1))
        } else if c.is_ascii_lowercase() {
            Some((T::Word, while_(s, i, |c| c.is_ascii_lowercase())))
        } else if c.is_ascii_digit() {
            let e = while_(s, i, |c| c.is_ascii_digit());
            let f = if s[e..].starts_with('.') { while_(s, e + 1, |c| c.is_ascii_digit()) } else { e };
            Some((T::Num, if f > e + 1 { f } else { e }))
        } else if c == '#' {
            Some((T::Comment, while_(s, i + 1, |c| c.is_ascii_lowercase())))
        } else if c == '@' {
            Some((T::At, while_(s, i, |c| c == '@')))
        } else if ('\u{e0}'..='\u{ff}').contains(&c) {
            Some((T::Acc, while_(s, i, |c| ('\u{e0}'..='\u{ff}').contains(&c))))
        } else {
            None
        };
        match tok {
            Some((t, e)) => {
                if let Some((a, b)) = bad.take() {
                    v.push(Item::Bad(a, b));
                }
                v.push(Item::Tok(t, i, e));
                i = e;
            }
            None => {
                let e = i + c.len_utf8();
                bad = Some((bad.map_or(i, |b| b.0), e));
                i = e;
            }
        }
    }
    if let Some((a, b)) = bad {
        v.push(Item::Bad(a, b));
    }
    v
}
const PIECES: [&str; 30] = [
    "+", "==", "=", "<<=", "<<", "<", "let", "x", "lets", "7", "7.5", "7.", ".", "#c", "#", "@", "@@", " ", "\n", "  ", "// c + x\n", "/", "//", "$", "$$", "\u{e9}", "\u{e9}\u{e8}", "\u{20ac}", "\u{1f600}",
    "A",
];
fn text(r: &mut Rng, most: usize) -> String {
    (0..r.below(most + 1)).map(|_| *r.pick(&PIECES)).collect()
}
fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

fn c20(s: &str) -> Result<(), String> {
    let want = lex(s);
    let mut l = T::lexer(s).map_err(|e| e.to_string())?;
    let mut it = want.into_iter().peekable();
    let mut step = 0;
    loop {
        let (bad, tok) = l.next();
        let mut wb = None;
        if let Some(Item::Bad(a, b)) = it.peek() {
            wb = Some((*a, *b));
            it.next();
        }
        let wt = match it.next() {
            Some(Item::Tok(t, a, b)) => Some((t, a, b)),
            _ => None,
        };
        eq(&format!("step {step}, invalid text"), bad.map(|b| (b.lo, b.hi)), wb)?;
        eq(&format!("step {step}, token"), tok.map(|t| (t.ty, t.span.lo, t.span.hi)), wt)?;
        step += 1;
        if wt.is_none() {
            break;
        }
    }
    let (bad, tok) = l.next();
    eq("after the end", (bad.is_none(), tok.is_none()), (true, true))
}

fn c19(s: &str, r: &mut Rng) -> Result<(), String> {
    let p = Parser::<T>::new(s).map_err(|e| e.to_string())?;
    let mut at: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    at.extend([s.len(), s.len() + 1, s.len() + 7, usize::MAX]);
    for _ in 0..40 {
        let (lo, hi) = (*r.pick(&at), *r.pick(&at));
        let want = if lo >= hi || lo >= s.len() { "" } else { &s[lo..hi.min(s.len())] };
        let sp = Span::new(lo, hi);
        eq(&format!("text of {lo}..{hi}"), sp.get(s), want)?;
        eq(&format!("get_src {lo}..{hi}"), p.info().get_src(sp), want)?;
        let t = Token::new(sp, T::Word);
        eq(&format!("token text of {lo}..{hi}"), t.src(s), want)?;
        eq("to_src", (t.to_src(s).src, t.to_src(s).ty), (want, T::Word))?;
        eq("info to_src", p.info().to_src(&t).src, want)?;
    }
    let mut p = Parser::<T>::new(s).map_err(|e| e.to_string())?;
    loop {
        let (rest, cur) = (p.remaining(), p.current_span());
        eq("remaining", rest, &s[cur.lo..])?;
        if p.consume_token().is_none() {
            return eq("remaining at the end", p.remaining(), "");
        }
    }
}

/// what the operations so far must have led to
struct Model {
    items: Vec<Item>,
    /// items read from the lexer so far
    read: usize,
    /// items up to which tokens were handed to the tree
    taken: Vec<Token<T>>,
    next: Option<Token<T>>,
    len: usize,
}
impl Model {
    fn peek(&mut self) {
        while self.next.is_none() && self.read < self.items.len() {
            if let Item::Tok(t, a, b) = self.items[self.read] {
                if !aside(t) {
                    self.next = Some(Token::new((a, b), t));
                }
            }
            self.read += 1;
        }
    }
    fn here(&mut self) -> (usize, usize) {
        self.peek();
        self.next.map_or((self.len, self.len), |t| (t.span.lo, t.span.hi))
    }
    fn take(&mut self) -> Option<Token<T>> {
        self.peek();
        let t = self.next.take();
        self.taken.extend(t);
        t
    }
    fn end(&self) -> usize {
        self.taken.last().map_or(0, |t| t.span.hi)
    }
}
fn spans(v: &[Token<T>]) -> Vec<(T, usize, usize)> {
    v.iter().map(|t| (t.ty, t.span.lo, t.span.hi)).collect()
}
fn agree(p: &Parser<T>, m: &Model) -> Result<(), String> {
    let i = p.info();
    let toks: Vec<(T, usize, usize)> = i.tokens.iter().map(|c| (c.ty, c.span.lo, c.span.hi)).collect();
    eq("tokens of the tree", toks, spans(&m.taken))?;
    let seen = &m.items[..m.read];
    let set: Vec<(T, usize, usize)> = seen.iter().filter_map(|x| match x { Item::Tok(t, a, b) if aside(*t) => Some((*t, *a, *b)), _ => None }).collect();
    eq("set-aside tokens", spans(&i.extracted_tokens), set)?;
    let bad: Vec<(usize, usize)> = seen.iter().filter_map(|x| match x { Item::Bad(a, b) => Some((*a, *b)), _ => None }).collect();
    eq("invalid text", i.invalid_source.iter().map(|s| (s.lo, s.hi)).collect(), bad.clone())?;
    let errs: Vec<(usize, usize)> = i.errors.iter().map(|e| (e.span.lo, e.span.hi)).collect();
    eq("errors for invalid text", errs, bad)?;
    if i.errors.iter().any(|e| e.data != ErrorKind::UnexpectedCharacters) {
        return Err("an error that is not about invalid text".into());
    }
    Ok(())
}
const LITS: [Option<&str>; 7] = [Some("+"), Some("=="), Some("let"), Some("x"), Some("7"), Some("<<="), Some("\u{e9}")];

fn history(s: &str, ops: &[(usize, u64)]) -> Result<(), String> {
    let mut p = Parser::<T>::new(s).map_err(|e| e.to_string())?;
    let mut m = Model { items: lex(s), read: 0, taken: vec![], next: None, len: s.len() };
    agree(&p, &m)?;
    for (k, (op, seed)) in ops.iter().enumerate() {
        let mut r = Rng::new(*seed);
        let what = format!("operation {k}");
        let tri = |t: Option<Token<T>>| t.map(|t| (t.ty, t.span.lo, t.span.hi));
        match op {
            0 => {
                let got = p.peek_token();
                m.peek();
                eq(&format!("{what}, peek_token"), tri(got), tri(m.next))?;
            }
            1 => {
                let got = p.consume_token();
                let want = m.take();
                eq(&format!("{what}, consume_token"), tri(got), tri(want))?;
            }
            2 => {
                let got = p.peek_token_src().map(|t| (t.ty, t.src.to_string()));
                m.peek();
                eq(&format!("{what}, peek_token_src"), got, m.next.map(|t| (t.ty, s[t.span.lo..t.span.hi].to_string())))?;
            }
            3 => {
                let got = p.current_span();
                eq(&format!("{what}, current_span"), (got.lo, got.hi), m.here())?;
            }
            4 => {
                let got = p.empty_span();
                eq(&format!("{what}, empty_span"), (got.lo, got.hi), (m.end(), m.end()))?;
            }
            5 => {
                let f = FirstSet::one(T::Word, Some("let"));
                let e = p.expecting(f.clone());
                eq(&format!("{what}, expecting"), e, Error::new(m.here(), ErrorKind::Expecting(f)))?;
                let e = p.unexpected_eof();
                eq(&format!("{what}, unexpected_eof"), e, Error::new(m.here(), ErrorKind::UnexpectedEof))?;
            }
            6 => {
                let got = p.remaining();
                let lo = m.here().0;
                eq(&format!("{what}, remaining"), got, &s[lo..])?;
            }
            7 | 8 => {
                // prefer what is there
                m.peek();
                let ty = match m.next {
                    Some(t) if r.chance(1, 2) => t.ty,
                    _ => *r.pick(&ALL),
                };
                let at = m.here();
                match p.parse_token(ty) {
                    R::Success(t) => {
                        if m.next.map(|t| t.ty) != Some(ty) {
                            return Err(format!("{what}, parse_token({ty:?}) succeeds on {:?}", m.next));
                        }
                        eq(&format!("{what}, parse_token"), tri(Some(t)), tri(m.take()))?;
                    }
                    R::Recovered(..) => return Err(format!("{what}, parse_token inserts")),
                    R::Panic(e) => {
                        if m.next.map(|t| t.ty) == Some(ty) {
                            return Err(format!("{what}, parse_token({ty:?}) fails on {:?}", m.next));
                        }
                        eq(&format!("{what}, parse_token errors"), e, vec![Error::new(at, ErrorKind::Expecting(FirstSet::one(ty, None)))])?;
                    }
                }
            }
            _ => {
                m.peek();
                let there = m.next.map(|t| s[t.span.lo..t.span.hi].to_string());
                let mut lit = *r.pick(&LITS);
                if let (true, Some(t)) = (r.chance(1, 2), &there) {
                    lit = LITS.iter().find(|l| **l == Some(t.as_str())).copied().unwrap_or(lit);
                }
                let lit = lit.unwrap();
                let ty = match m.next {
                    Some(t) if r.chance(2, 3) => t.ty,
                    _ => *r.pick(&ALL),
                };
                let mut f = FollowSet::<T>::new();
                let mut in_follow = false;
                for _ in 0..r.below(4) {
                    if r.chance(1, 3) {
                        f.insert_eof();
                        in_follow |= m.next.is_none();
                        continue;
                    }
                    let (fy, fl) = (*r.pick(&ALL), if r.chance(1, 3) { None } else { *r.pick(&LITS) });
                    f.insert(fy, fl);
                    in_follow |= m.next.is_some_and(|t| t.ty == fy) && (fl.is_none() || fl == there.as_deref());
                }
                let at = m.here();
                let matches = m.next.is_some_and(|t| t.ty == ty) && there.as_deref() == Some(lit);
                let want = if matches { "takes" } else if in_follow { "inserts" } else { "fails" };
                let one = |e: &[Error<T>]| -> Result<(), String> {
                    eq(&format!("{what}, number of errors"), e.len(), 1)?;
                    eq(&format!("{what}, place of the error"), (e[0].span.lo, e[0].span.hi), at)?;
                    let x = ErrorKind::Expecting(FirstSet::one(ty, Some(lit)));
                    if e[0].data != x && !(m.next.is_none() && e[0].data == ErrorKind::UnexpectedEof) {
                        return Err(format!("{what}, error {:?}", e[0]));
                    }
                    Ok(())
                };
                let call = format!("{what}, parse_token_lit({ty:?}, {lit:?}) on {there:?}");
                match p.parse_token_lit(ty, lit, &f) {
                    R::Success(t) => {
                        eq(&call, "takes", want)?;
                        eq(&call, tri(Some(t)), tri(m.take()))?;
                    }
                    R::Recovered(t, e) => {
                        eq(&call, "inserts", want)?;
                        eq(&call, tri(Some(t)), Some((ty, m.end(), m.end())))?;
                        one(&e)?;
                    }
                    R::Panic(e) => {
                        eq(&call, "fails", want)?;
                        one(&e)?;
                    }
                }
            }
        }
        agree(&p, &m).map_err(|e| format!("after {what}: {e}"))?;
        if *op == 4 {
            // applying a semantic type changes no token
            p.apply_semantic(&Span::new(0, s.len()), Set::default());
            agree(&p, &m).map_err(|e| format!("after {what}: {e}"))?;
        }
    }
    Ok(())
}

fn main() {
    run("a source with at least one character and one operation or step", |r| {
        let prop = r.prop.clone();
        let most = r.n(3, 4);
        for len in 0..=most {
            let all = PIECES.len().pow(len as u32);
            for k in 0..all {
                if prop != "C20" && k % 7 != 0 {
                    continue;
                }
                if r.out_of_time() {
                    return;
                }
                let mut c = k;
                let s: String = (0..len).map(|_| { let i = c % PIECES.len(); c /= PIECES.len(); PIECES[i] }).collect();
                one(r, &prop, s);
            }
        }
        while !r.out_of_time() {
            for _ in 0..100 {
                let s = text(&mut r.rng, 14);
                one(r, &prop, s);
            }
        }
    });
}
fn one(r: &mut Run, prop: &str, s: String) {
    let seed = r.rng.next();
    match prop {
        "C20" => r.case(&s, !s.is_empty(), || c20(&s)),
        "C19" => r.case(&s, !s.is_empty(), || c19(&s, &mut Rng::new(s.len() as u64 * 31 + s.bytes().map(|b| b as u64).sum::<u64>()))),
        _ => {
            let mut g = Rng::new(seed);
            let n = 1 + g.below(20);
            let lit = prop == "C12";
            let ops: Vec<(usize, u64)> = (0..n).map(|_| (if lit && g.chance(2, 3) { 7 + g.below(5) } else { g.below(11) }, g.below(100000) as u64)).collect();
            r.case(&format!("{ops:?} on {s}"), true, || history(&s, &ops));
        }
    }
}
