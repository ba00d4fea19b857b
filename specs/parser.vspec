# C11, C12 (and the parser's part of C10, C19): the parser's token stream
#impl syntax::error::Error as ToSpan
open spec fn slo(&self) -> usize { self.span.lo }
open spec fn shi(&self) -> usize { self.span.hi }
#mod syntax::error
broadcast use {crate::lex::span::into_self, crate::lex::span::into_self_ok};
#fn syntax::error::Error::new
requires call_requires(<S as Into<Span>>::into, (span,)),
ensures call_ensures(<S as Into<Span>>::into, (span,), r.span), r.data == data,
#fn syntax::error::Result::map
requires match self { Result::Success(t) => call_requires(f, (t,)), Result::Recovered(t, e) => call_requires(f, (t,)), Result::Panic(e) => true },
ensures match (self, r) {
    (Result::Success(t), Result::Success(u)) => call_ensures(f, (t,), u),
    (Result::Recovered(t, e), Result::Recovered(u, e2)) => call_ensures(f, (t,), u) && e2 == e,
    (Result::Panic(e), Result::Panic(e2)) => e2 == e,
    _ => false },
#fn syntax::error::Result as From<(T,Vec<Error<L>>)>::from
ensures r == (if vt_p0.1@.len() == 0 { Result::Success(vt_p0.0) } else { Result::Recovered(vt_p0.0, vt_p0.1) }),

#fn lex::vec::TokenVec as Deref::deref
ensures r@ == self@,
#fn lex::vec::TokenVec as DerefMut::deref_mut
ensures r@ == old(self)@, final(self)@ == final(r)@,
#fn lex::vec::TokenSlice as Deref::deref
ensures r@ == self@,
#fn lex::vec::TokenSlice as DerefMut::deref_mut
ensures r@ == old(self)@, final(self)@ == final(r)@,
#fn lex::vec::TokenVec as Borrow<TokenSlice<L>>::borrow
ensures r@ == self@,
#fn lex::vec::TokenVec as BorrowMut<TokenSlice<L>>::borrow_mut
ensures r@ == old(self)@, final(self)@ == final(r)@,
#fn lex::vec::TokenSlice as Borrow<[Cell<L>]>::borrow
ensures r@ == self@,
#fn lex::vec::TokenSlice as BorrowMut<[Cell<L>]>::borrow_mut
ensures r@ == old(self)@, final(self)@ == final(r)@,

#mod parser::info
use crate::shim::*;
use crate::lex::span::{cut, on_chars};
#fn parser::info::Info::new
ensures r.source == source, r.invalid_source@.len() == 0, r.invalid_tokens@.len() == 0, r.tokens@.len() == 0, r.extracted_tokens@.len() == 0, r.errors@.len() == 0,
#fn parser::info::Info::to_src
requires on_chars(token.span.lo as int, token.span.hi as int, self.source),
ensures r.ty == token.ty, bytes(r.src) == cut(bytes(self.source), token.span.lo as int, token.span.hi as int),
#fn parser::info::Info::get_src
requires on_chars(span.lo as int, span.hi as int, self.source),
ensures bytes(r) == cut(bytes(self.source), span.lo as int, span.hi as int),
#fn parser::info::Info::eof
ensures r.lo == bytes(self.source).len(), r.hi == bytes(self.source).len(),

#mod parser::parser_impl
use crate::shim_lexer::{Item, laid_out, lex_step, bads};
use crate::lex::vec::*;
use crate::lex::set::*;
use crate::lex::span::{cut, on_chars};
use crate::syntax::term_set::*;
broadcast use {crate::lex::lexicon::lex_axioms, crate::lex::span::into_self, crate::lex::span::into_self_ok};
/// the ordinary tokens / the tokens to be set aside / the invalid pieces among the items, in order
pub open spec fn plain<L: Lexicon>(s: Seq<Item<L>>) -> Seq<Token<L>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s[0] {
        Item::Tok(t) => if t.ty.extract_spec() { plain(s.drop_first()) } else { seq![t] + plain(s.drop_first()) },
        Item::Bad(_) => plain(s.drop_first()) } }
}
pub open spec fn aside<L: Lexicon>(s: Seq<Item<L>>) -> Seq<Token<L>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s[0] {
        Item::Tok(t) => if t.ty.extract_spec() { seq![t] + aside(s.drop_first()) } else { aside(s.drop_first()) },
        Item::Bad(_) => aside(s.drop_first()) } }
}
pub open spec fn wrong<L: Lexicon>(s: Seq<Item<L>>) -> Seq<Span> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s[0] {
        Item::Tok(_) => wrong(s.drop_first()),
        Item::Bad(b) => seq![b] + wrong(s.drop_first()) } }
}
pub open spec fn toks<L: Lexicon>(s: Seq<Cell<L>>) -> Seq<Token<L>> { s.map_values(|c: Cell<L>| c.token) }
/// where the last of the tokens ends
pub open spec fn end_of<L: Lexicon>(s: Seq<Cell<L>>) -> int { if s.len() > 0 { s.last().token.span.hi as int } else { 0 } }
/// the token is a non-empty part of the source between characters, and not one to be set aside
pub open spec fn real<L: Lexicon>(t: Token<L>, src: &str) -> bool {
    t.span.lo < t.span.hi && t.span.hi <= bytes(src).len() && on_char(src, t.span.lo as int) && on_char(src, t.span.hi as int) && !t.ty.extract_spec()
}
/// the errors that report invalid text
pub open spec fn reports<L: Lexicon>(inv: Seq<Span>) -> Seq<Error<L>> {
    inv.map_values(|s: Span| Error { span: s, data: ErrorKind::UnexpectedCharacters })
}
impl<'s, L: Lexicon> Parser<'s, L> {
    /// tokens handed out so far
    pub open spec fn taken(&self) -> Seq<Token<L>> { toks(self.info.tokens@) }
    /// ordinary tokens still to come
    pub open spec fn ahead(&self) -> Seq<Token<L>> {
        (if self.peeked is Some { seq![self.peeked->0] } else { Seq::empty() }) + plain(self.lexer.todo())
    }
    pub open spec fn asides(&self) -> Seq<Token<L>> { self.info.extracted_tokens@ + aside(self.lexer.todo()) }
    pub open spec fn wrongs(&self) -> Seq<Span> { self.info.invalid_source@ + wrong(self.lexer.todo()) }
    pub open spec fn end(&self) -> int { end_of(self.info.tokens@) }
    pub open spec fn wf(&self) -> bool {
        &&& laid_out(self.lexer.todo(), if self.peeked is Some { (self.peeked->0).span.hi as int } else { self.end() }, self.info.source)
        &&& self.peeked is Some ==> real(self.peeked->0, self.info.source) && self.end() <= (self.peeked->0).span.lo
        &&& ordered(self.info.tokens@)
        &&& forall|i: int| 0 <= i < self.info.tokens@.len() ==> real((#[trigger] self.info.tokens@[i]).token, self.info.source) && self.info.tokens@[i].semantic.wf()
    }
    /// the lookahead symbol: type and text of the next token, or the end of input
    pub open spec fn sym(&self) -> Sym<L> {
        if self.ahead().len() > 0 { Some((self.ahead()[0].ty, text(self.ahead()[0].span, self.info.source))) } else { None }
    }
    /// where the parser is: the span of the next token, or the end of the source
    pub open spec fn here(&self) -> Span {
        if self.ahead().len() > 0 { self.ahead()[0].span } else { Span { lo: bytes(self.info.source).len() as usize, hi: bytes(self.info.source).len() as usize } }
    }
}
pub open spec fn text(s: Span, src: &str) -> Seq<char> { vstd::utf8::decode_utf8(cut(bytes(src), s.lo as int, s.hi as int)) }
/// What every operation keeps: nothing of the source is lost, repeated or reordered; what was
/// handed out, set aside or reported stays; each new invalid piece comes with one error.
pub open spec fn step<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>) -> bool {
    &&& a.wf() ==> b.wf()
    &&& b.info.source == a.info.source
    &&& b.taken() + b.ahead() == a.taken() + a.ahead()
    &&& b.asides() == a.asides()
    &&& b.wrongs() == a.wrongs()
    &&& a.info.tokens@.len() <= b.info.tokens@.len()
    &&& forall|i: int| 0 <= i < a.info.tokens@.len() ==> (#[trigger] b.info.tokens@[i]).token == a.info.tokens@[i].token && a.info.tokens@[i].semantic@.subset_of(b.info.tokens@[i].semantic@)
    &&& a.info.extracted_tokens@.is_prefix_of(b.info.extracted_tokens@)
    &&& a.info.invalid_source@.is_prefix_of(b.info.invalid_source@)
    &&& b.info.invalid_tokens == a.info.invalid_tokens
    &&& b.info.errors@ == a.info.errors@ + reports::<L>(b.info.invalid_source@.skip(a.info.invalid_source@.len() as int))
}
/// ... and nothing was handed out or tagged
pub open spec fn look<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>) -> bool {
    step(a, b) && b.info.tokens@ == a.info.tokens@
}
pub broadcast proof fn step_trans<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, c: Parser<'s, L>)
    requires #[trigger] step(a, b), #[trigger] step(b, c)
    ensures step(a, c)
{
    let (x, y, z) = (a.info.invalid_source@, b.info.invalid_source@, c.info.invalid_source@);
    assert(reports::<L>(z.skip(x.len() as int)) =~= reports::<L>(y.skip(x.len() as int)) + reports::<L>(z.skip(y.len() as int)));
    assert(c.info.errors@ =~= a.info.errors@ + reports::<L>(z.skip(x.len() as int)));
    assert forall|i: int| 0 <= i < a.info.tokens@.len() implies (#[trigger] c.info.tokens@[i]).token == a.info.tokens@[i].token && a.info.tokens@[i].semantic@.subset_of(c.info.tokens@[i].semantic@) by {
        assert(b.info.tokens@[i].token == a.info.tokens@[i].token);
    };
}
pub broadcast proof fn step_refl<'s, L: Lexicon>(a: Parser<'s, L>)
    ensures #[trigger] step(a, a)
{
    assert(reports::<L>(a.info.invalid_source@.skip(a.info.invalid_source@.len() as int)) =~= Seq::empty());
    assert(a.info.errors@ =~= a.info.errors@ + Seq::<Error<L>>::empty());
}
/// nothing was handed out, so what is ahead is what was ahead
pub broadcast proof fn look_ahead<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>)
    requires #[trigger] look(a, b)
    ensures b.ahead() == a.ahead(), b.sym() == a.sym(), b.here() == a.here(), b.taken() == a.taken(), b.end() == a.end()
{
    let n = a.taken().len() as int;
    assert(b.ahead() =~= (b.taken() + b.ahead()).skip(n));
    assert(a.ahead() =~= (a.taken() + a.ahead()).skip(n));
}
pub broadcast proof fn look_then<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, c: Parser<'s, L>)
    requires #[trigger] look(a, b), #[trigger] step(b, c)
    ensures step(a, c), look(b, c) ==> look(a, c)
{ step_trans(a, b, c); }
pub broadcast group moves { look_ahead, look_then, text_of }
/// the next token is a real one, and lies behind everything handed out
pub proof fn next_real<'s, L: Lexicon>(p: Parser<'s, L>)
    requires p.wf(), p.ahead().len() > 0
    ensures real(p.ahead()[0], p.info.source), p.end() <= p.ahead()[0].span.lo
{ if p.peeked is None { first_plain(p.lexer.todo(), p.end(), p.info.source); } }
pub proof fn first_plain<L: Lexicon>(s: Seq<Item<L>>, at: int, src: &str)
    requires laid_out(s, at, src), plain(s).len() > 0
    ensures real(plain(s)[0], src), at <= plain(s)[0].span.lo
    decreases s.len()
{
    if s.len() > 0 {
        match s[0] { Item::Tok(t) => if t.ty.extract_spec() { first_plain(s.drop_first(), s[0].sp().hi as int, src); }, Item::Bad(_) => first_plain(s.drop_first(), s[0].sp().hi as int, src) }
    }
}
pub broadcast proof fn text_of(s: &str, sp: Span, src: &str)
    ensures #![trigger bytes(s), text(sp, src)] bytes(s) == cut(bytes(src), sp.lo as int, sp.hi as int) ==> s@ == text(sp, src)
{ vstd::utf8::encode_utf8_decode_utf8(s@); }

pub proof fn laid_weaker<L: Lexicon>(s: Seq<Item<L>>, a: int, b: int, src: &str)
    requires laid_out(s, b, src), a <= b
    ensures laid_out(s, a, src)
{}
/// what one step of the lexer takes from the items
pub proof fn one_step<L: Lexicon>(s: Seq<Item<L>>, t: Seq<Item<L>>, r: (Option<Span>, Option<Token<L>>), at: int, src: &str)
    requires lex_step(s, t, r), laid_out(s, at, src)
    ensures
        plain(s) == (match r.1 { Some(k) => if k.ty.extract_spec() { Seq::empty() } else { seq![k] }, None => Seq::empty() }) + plain(t),
        aside(s) == (match r.1 { Some(k) => if k.ty.extract_spec() { seq![k] } else { Seq::empty() }, None => Seq::empty() }) + aside(t),
        wrong(s) == (match r.0 { Some(b) => seq![b], None => Seq::empty() }) + wrong(t),
        match r.1 {
            Some(k) => t.len() < s.len() && at <= k.span.lo && k.span.lo < k.span.hi && k.span.hi <= bytes(src).len()
                && on_char(src, k.span.lo as int) && on_char(src, k.span.hi as int) && laid_out(t, k.span.hi as int, src),
            None => t.len() == 0 && laid_out(t, at, src),
        },
{
    reveal_with_fuel(plain, 3); reveal_with_fuel(aside, 3); reveal_with_fuel(wrong, 3); reveal_with_fuel(laid_out, 3);
    if s.len() > 0 {
        if bads(s) > 0 {
            if s.len() > 1 {
                assert(s.drop_first()[0] == s[1]);
                assert(s.drop_first().drop_first() =~= s.skip(2));
            } else {
                assert(s.drop_first() =~= Seq::empty());
            }
        } else {
            assert(s.drop_first() =~= s.skip(1));
        }
    }
    match r.1 {
        Some(k) => { assert(seq![k] + plain(t) =~= plain(s) || k.ty.extract_spec()); },
        None => {},
    }
    assert(Seq::<Token<L>>::empty() + plain(t) =~= plain(t));
    assert(Seq::<Token<L>>::empty() + aside(t) =~= aside(t));
    assert(Seq::<Span>::empty() + wrong(t) =~= wrong(t));
}
/// b is a after reading one item from the lexer
pub open spec fn read_one<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, r: (Option<Span>, Option<Token<L>>)) -> bool {
    &&& lex_step(a.lexer.todo(), b.lexer.todo(), r)
    &&& a.peeked is None
    &&& b.info.source == a.info.source
    &&& b.info.tokens == a.info.tokens
    &&& b.info.invalid_tokens == a.info.invalid_tokens
    &&& b.info.invalid_source@ == (match r.0 { Some(s) => a.info.invalid_source@.push(s), None => a.info.invalid_source@ })
    &&& b.info.errors@ == (match r.0 { Some(s) => a.info.errors@.push(Error { span: s, data: ErrorKind::UnexpectedCharacters }), None => a.info.errors@ })
    &&& b.info.extracted_tokens@ == (match r.1 { Some(k) => if k.ty.extract_spec() { a.info.extracted_tokens@.push(k) } else { a.info.extracted_tokens@ }, None => a.info.extracted_tokens@ })
    &&& b.peeked == (match r.1 { Some(k) => if k.ty.extract_spec() { None } else { Some(k) }, None => None })
}
pub proof fn read_one_look<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, r: (Option<Span>, Option<Token<L>>))
    requires read_one(a, b, r), a.wf()
    ensures look(a, b), r.1 is Some ==> b.lexer.todo().len() < a.lexer.todo().len(), r.1 is None ==> b.lexer.todo().len() == 0
{
    one_step(a.lexer.todo(), b.lexer.todo(), r, a.end(), a.info.source);
    if r.1 is Some { laid_weaker(b.lexer.todo(), a.end(), (r.1->0).span.hi as int, a.info.source); }
    assert(b.taken() =~= a.taken());
    assert(b.ahead() =~= a.ahead());
    assert(b.asides() =~= a.asides());
    assert(b.wrongs() =~= a.wrongs());
    let n = a.info.invalid_source@.len() as int;
    assert(b.info.errors@ =~= a.info.errors@ + reports::<L>(b.info.invalid_source@.skip(n)));
}
#fn parser::parser_impl::Parser::new
ensures r matches Ok(p) ==> p.wf() && p.taken().len() == 0 && p.peeked is None && p.info.source == source && p.info.errors@.len() == 0
    && p.info.invalid_source@.len() == 0 && p.info.extracted_tokens@.len() == 0 && p.info.invalid_tokens@.len() == 0,
#fn parser::parser_impl::Parser::info
ensures *r == self.info,
#fn parser::parser_impl::Parser::info_mut
ensures *r == old(self).info, final(self).info == *final(r), final(self).lexer == old(self).lexer, final(self).peeked == old(self).peeked,
#fn parser::parser_impl::Parser::try_read_next_token
requires old(self).peeked is None, old(self).wf(),
ensures look(*old(self), *final(self)), final(self).peeked is None ==> final(self).lexer.todo().len() == 0,
#pre
proof { step_refl(*self); }
#loop 0
invariant self.peeked is None, old(self).wf(), self.wf(), look(*old(self), *self),
decreases self.lexer.todo().len(),
#loopstart 0
let ghost was = *self;
#after let (invalid, token)
let ghost got = (invalid, token);
#before return
proof { read_one_look(was, *self, got); step_trans(*old(self), was, *self); }
#before return
proof { read_one_look(was, *self, got); step_trans(*old(self), was, *self); }
#before continue
proof { read_one_look(was, *self, got); step_trans(*old(self), was, *self); }
#fn parser::parser_impl::Parser::peek_token
requires old(self).wf(),
ensures look(*old(self), *final(self)), r == final(self).peeked, r is None ==> final(self).lexer.todo().len() == 0,
    r == (if old(self).ahead().len() > 0 { Some(old(self).ahead()[0]) } else { None }),
#pre
proof { step_refl(*self); }
#post
proof { look_ahead(*old(self), *self); }
#fn parser::parser_impl::Parser::consume_token
requires old(self).wf(),
ensures step(*old(self), *final(self)), r == (if old(self).ahead().len() > 0 { Some(old(self).ahead()[0]) } else { None }),
    match r {
        Some(t) => final(self).info.tokens@.len() == old(self).info.tokens@.len() + 1 && final(self).info.tokens@.drop_last() == old(self).info.tokens@
            && final(self).info.tokens@.last().token == t && final(self).info.tokens@.last().semantic@ == ISet::<L>::empty()
            && final(self).ahead() == old(self).ahead().drop_first(),
        None => look(*old(self), *final(self)),
    },
#pre
proof { step_refl(*self); }
#before match self.peeked.take()
let ghost mid = *self;
proof { look_ahead(*old(self), *self); }
#post
proof {
    if vt_ret is Some {
        let t = vt_ret->0;
        assert(mid.peeked is Some);
        assert(self.taken() =~= mid.taken().push(t));
        assert(mid.ahead() =~= seq![t] + self.ahead());
        assert(self.ahead() =~= old(self).ahead().drop_first());
        assert(self.taken() + self.ahead() =~= mid.taken() + mid.ahead());
        assert(self.info.tokens@.drop_last() =~= old(self).info.tokens@);
        assert(step(mid, *self)) by { step_refl(mid); };
        step_trans(*old(self), mid, *self);
    }
}
#fn parser::parser_impl::Parser::current_span
requires old(self).wf(),
ensures look(*old(self), *final(self)), r == old(self).here(),
#closure 0 (t: Token<L>) -> (o: Span)
ensures o == t.span
#closure 1 () -> (o: Span)
ensures o.lo == bytes(self.info.source).len(), o.hi == bytes(self.info.source).len()
#fn parser::parser_impl::Parser::empty_span
ensures *final(self) == *old(self), r.lo == old(self).end(), r.hi == old(self).end(),
#closure 0 (x: &Cell<L>) -> (o: usize)
ensures o == x.token.span.hi
#fn parser::parser_impl::Parser::expecting
requires old(self).wf(),
ensures look(*old(self), *final(self)), r == (Error { span: old(self).here(), data: ErrorKind::Expecting(expected) }),
#fn parser::parser_impl::Parser::unexpected_eof
requires old(self).wf(),
ensures look(*old(self), *final(self)), r == (Error::<L> { span: old(self).here(), data: ErrorKind::UnexpectedEof }),
#fn parser::parser_impl::Parser::peek_token_src
requires old(self).wf(),
ensures look(*old(self), *final(self)), tok_sym(r) == old(self).sym(),
#pre
broadcast use moves;
#closure 0 (t: Token<L>) -> (o: TokenSrc<'s, L>)
requires on_chars(t.span.lo as int, t.span.hi as int, self.info.source),
ensures o.ty == t.ty, bytes(o.src) == cut(bytes(self.info.source), t.span.lo as int, t.span.hi as int)
#fn parser::parser_impl::Parser::remaining
requires old(self).wf(),
ensures look(*old(self), *final(self)), bytes(r) == bytes(old(self).info.source).skip(old(self).here().lo as int),
#pre
broadcast use moves;
proof {
    if self.ahead().len() > 0 { next_real(*self); }
    vstd::utf8::encode_utf8_valid_utf8(self.info.source@); vstd::utf8::is_char_boundary_start_end_of_seq(bytes(self.info.source));
}

#fn parser::parser_impl::Parser::parse_token
requires old(self).wf(),
ensures step(*old(self), *final(self)), match r {
    SynResult::Success(t) => old(self).ahead().len() > 0 && t == old(self).ahead()[0] && t.ty == ty && final(self).taken() == old(self).taken().push(t),
    SynResult::Recovered(..) => false,
    SynResult::Panic(e) => look(*old(self), *final(self)) && !(old(self).ahead().len() > 0 && old(self).ahead()[0].ty == ty)
        && e@.len() == 1 && e@[0].span == old(self).here() && (e@[0].data matches ErrorKind::Expecting(s) && s@ == term_syms::<L>(ty, None)),
},
#pre
broadcast use moves;
#fn parser::parser_impl::Parser::parse_token_lit
requires old(self).wf(),
ensures step(*old(self), *final(self)), match r {
    SynResult::Success(t) => old(self).sym() == Some((ty, match_lit@)) && t == old(self).ahead()[0] && final(self).taken() == old(self).taken().push(t),
    SynResult::Recovered(t, e) => look(*old(self), *final(self)) && old(self).sym() != Some((ty, match_lit@)) && follow@.contains(old(self).sym())
        && t.ty == ty && t.span.lo == old(self).end() && t.span.hi == old(self).end()
        && e@.len() == 1 && e@[0].span == old(self).here(),
    SynResult::Panic(e) => look(*old(self), *final(self)) && old(self).sym() != Some((ty, match_lit@)) && !follow@.contains(old(self).sym())
        && e@.len() == 1 && e@[0].span == old(self).here(),
},
#pre
broadcast use moves;
#fn parser::parser_impl::Parser::apply_semantic
requires old(self).wf(), semantic.wf(),
ensures step(*old(self), *final(self)), final(self).ahead() == old(self).ahead(), final(self).taken() == old(self).taken(),
    forall|i: int| 0 <= i < old(self).info.tokens@.len() ==> (#[trigger] final(self).info.tokens@[i]).semantic@ ==
        (if inside_of(old(self).info.tokens@[i], Span { lo: span.slo(), hi: span.shi() }) { old(self).info.tokens@[i].semantic@.union(semantic@) } else { old(self).info.tokens@[i].semantic@ }),
#post
proof { assert(self.taken() =~= old(self).taken()); step_refl(*old(self)); }
