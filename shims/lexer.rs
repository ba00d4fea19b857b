// The lexer a lexicon picks (`L::Lexer<'s>`, a generic associated type Verus does not have), by the
// contract of `Lexer::next`; the code of LogosLexerWrapper is checked against it in the unit `lexer`.
pub mod shim_lexer {
use vstd::prelude::*;
use crate::shim::*;
use crate::lex::lexicon::Lexicon;
use crate::lex::span::Span;
use crate::lex::token::Token;
/// what the rest of a source holds, in order: tokens and pieces of text that are neither
/// a token nor ignored
pub enum Item<L: Lexicon> { Tok(Token<L>), Bad(Span) }
impl<L: Lexicon> Item<L> {
    pub open spec fn sp(self) -> Span { match self { Item::Tok(t) => t.span, Item::Bad(s) => s } }
}
/// the items lie in the source one after the other from `at` on, on character boundaries, none
/// empty, and no two pieces of invalid text in a row
pub open spec fn laid_out<L: Lexicon>(s: Seq<Item<L>>, at: int, src: &str) -> bool
    decreases s.len()
{
    s.len() > 0 ==> {
        let p = s[0].sp();
        &&& at <= p.lo && p.lo < p.hi && p.hi <= bytes(src).len()
        &&& on_char(src, p.lo as int) && on_char(src, p.hi as int)
        &&& s[0] is Bad && s.len() > 1 ==> s[1] is Tok
        &&& laid_out(s.drop_first(), p.hi as int, src)
    }
}
/// how many items one step of the lexer takes
pub open spec fn bads<L: Lexicon>(s: Seq<Item<L>>) -> nat { if s.len() > 0 && s[0] is Bad { 1 } else { 0 } }
/// one step: the next token, preceded by the piece of invalid text before it, if there is one
pub open spec fn lex_step<L: Lexicon>(s: Seq<Item<L>>, t: Seq<Item<L>>, r: (Option<Span>, Option<Token<L>>)) -> bool {
    let b = bads(s) as int;
    &&& r.0 == (if b > 0 { Some(s[0]->Bad_0) } else { None })
    &&& r.1 == (if s.len() > b { Some(s[b]->Tok_0) } else { None })
    &&& t == (if s.len() > b { s.skip(b + 1) } else { Seq::empty() })
}
#[verifier::external_body]
#[verifier::accept_recursive_types(L)]
pub struct LexerOf<'s, L: Lexicon>(std::marker::PhantomData<&'s L>);
impl<'s, L: Lexicon> LexerOf<'s, L> {
    pub uninterp spec fn todo(&self) -> Seq<Item<L>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: (Option<Span>, Option<Token<L>>))
        ensures lex_step(old(self).todo(), final(self).todo(), r) { unimplemented!() }
}
#[verifier::external_body]
pub fn lexer_of<'s, L: Lexicon>(source: &'s str) -> (r: Result<LexerOf<'s, L>, crate::GrammarError>)
    ensures r matches Ok(l) ==> laid_out(l.todo(), 0, source) { unimplemented!() }
}
