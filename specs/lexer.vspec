#mod lex::lexer
use crate::shim::*;
use crate::shim_logos::{Ev, Logos, evs_laid_out};
use crate::shim_logos::Lexer as LogosLexer;
use crate::shim_lexer::{Item, laid_out, lex_step, bads};
use vstd::std_specs::convert::FromSpec;
/// what the results of logos mean: runs of text that begins no token, with nothing valid in
/// between, are one piece of invalid text from the first to the last of them
pub open spec fn meaning<'s, L: Lexicon + From<T>, T: Logos<'s>>(s: Seq<Ev<T>>, bad: Option<Span>) -> Seq<Item<L>>
    decreases s.len()
{
    let before = match bad { Some(b) => seq![Item::<L>::Bad(b)], None => Seq::empty() };
    if s.len() == 0 { before }
    else {
        match s[0].tok {
            Some(t) => before + seq![Item::Tok(Token { ty: <L as FromSpec<T>>::from_spec(t), span: Span { lo: s[0].lo, hi: s[0].hi } })]
                + meaning::<L, T>(s.drop_first(), None),
            None => meaning::<L, T>(s.drop_first(), Some(Span { lo: match bad { Some(b) => b.lo, None => s[0].lo }, hi: s[0].hi })),
        }
    }
}
/// the items a source has in that reading lie in it one after the other
pub proof fn meaning_laid_out<'s, L: Lexicon + From<T>, T: Logos<'s>>(s: Seq<Ev<T>>, bad: Option<Span>, at: int, src: &str)
    requires
        evs_laid_out(s, match bad { Some(b) => b.hi as int, None => at }, src),
        bad matches Some(b) ==> at <= b.lo && b.lo < b.hi && b.hi <= bytes(src).len() && on_char(src, b.lo as int) && on_char(src, b.hi as int),
    ensures laid_out(meaning::<L, T>(s, bad), at, src)
    decreases s.len()
{
    reveal_with_fuel(laid_out, 3);
    if s.len() == 0 {
        if let Some(b) = bad { assert(seq![Item::<L>::Bad(b)].drop_first() =~= Seq::empty()); }
    } else {
        match s[0].tok {
            Some(t) => {
                meaning_laid_out::<L, T>(s.drop_first(), None, s[0].hi as int, src);
                let m = meaning::<L, T>(s, bad);
                let rest = meaning::<L, T>(s.drop_first(), None);
                if bad is Some {
                    assert(m.drop_first().drop_first() =~= rest);
                } else {
                    assert(m.drop_first() =~= rest);
                }
            }
            None => {
                let b = Span { lo: match bad { Some(b) => b.lo, None => s[0].lo }, hi: s[0].hi };
                meaning_laid_out::<L, T>(s.drop_first(), Some(b), at, src);
            }
        }
    }
}
#trait lex::lexer::Lexer
spec fn todo(&self) -> Seq<Item<Self::L>>;
/// the lexicon's token type is a function of the token logos found
spec fn usual(&self) -> bool;
#fn lex::lexer::Lexer::next
ensures
    old(self).usual() ==> lex_step(old(self).todo(), final(self).todo(), r),
#impl lex::lexer::LogosLexerWrapper as Lexer
closed spec fn todo(&self) -> Seq<Item<L>> { meaning::<L, T>(self.inner.evs(), None) }
closed spec fn usual(&self) -> bool { <L as FromSpec<T>>::obeys_from_spec() }
#fn lex::lexer::LogosLexerWrapper::new
ensures r.inner == inner,
#fn lex::lexer::LogosLexerWrapper::next_internal
ensures
    r is Some ==> old(self).inner.evs().len() > 0 && final(self).inner.evs() == old(self).inner.evs().drop_first(),
    <L as FromSpec<T>>::obeys_from_spec() ==> {
        let s = old(self).inner.evs();
        if s.len() == 0 { r is None && final(self).inner.evs() == s } else {
            &&& final(self).inner.cur() == (s[0].lo, s[0].hi)
            &&& match s[0].tok {
                Some(t) => r == Some(Ok::<Token<L>, ()>(Token { ty: <L as FromSpec<T>>::from_spec(t), span: Span { lo: s[0].lo, hi: s[0].hi } })),
                None => r matches Some(Err(_)),
            }
        }
    },
#fn lex::lexer::LogosLexerWrapper as Lexer::next
#loop 0
invariant_except_break
    token is None,
    <L as FromSpec<T>>::obeys_from_spec() ==> meaning::<L, T>(old(self).inner.evs(), None)
        == meaning::<L, T>(self.inner.evs(), if has_invalid { Some(Span { lo: invalid_start, hi: invalid_end }) } else { None }),
ensures
    <L as FromSpec<T>>::obeys_from_spec() ==> {
        let bad = if has_invalid { Some(Span { lo: invalid_start, hi: invalid_end }) } else { None };
        let before = match bad { Some(b) => seq![Item::<L>::Bad(b)], None => Seq::empty() };
        let m = meaning::<L, T>(old(self).inner.evs(), None);
        let rest = meaning::<L, T>(self.inner.evs(), None);
        match token {
            Some(t) => m == before + seq![Item::Tok(t)] + rest,
            None => m == before && self.inner.evs().len() == 0,
        }
    },
decreases self.inner.evs().len(),
#post
proof {
    if <L as FromSpec<T>>::obeys_from_spec() {
        let m = meaning::<L, T>(old(self).inner.evs(), None);
        let rest = meaning::<L, T>(self.inner.evs(), None);
        if token is Some {
            assert(m.skip(bads(m) as int + 1) =~= rest);
        } else {
            assert(rest =~= Seq::empty());
        }
    }
}
