# spans, tokens and their text
#mod lex::token
use crate::shim::*;
use super::span::{cut, on_chars};
#mod lex::span
impl Span {
    pub open spec fn s(&self) -> (int, int) { (self.lo as int, self.hi as int) }
}
use crate::shim::*;
impl vstd::std_specs::convert::FromSpecImpl<Range<Pos>> for Span {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Range<Pos>) -> Span { Span { lo: v.start, hi: v.end } }
}
/// converting a value to its own type changes nothing (core: impl From<T> for T)
pub broadcast axiom fn into_self(a: Span, b: Span)
    ensures #[trigger] call_ensures(<Span as Into<Span>>::into, (a,), b) ==> a == b;
pub broadcast axiom fn into_self_ok(a: Span)
    ensures #[trigger] call_requires(<Span as Into<Span>>::into, (a,));
/// the bytes lo..hi of a text, cut at its end; none when that is empty or inverted
pub open spec fn cut(b: Seq<u8>, lo: int, hi: int) -> Seq<u8> {
    let h = if hi < b.len() { hi } else { b.len() as int };
    if h <= lo { Seq::empty() } else { b.subrange(lo, h) }
}
/// the ends of the span that fall inside the text are between characters
pub open spec fn on_chars(lo: int, hi: int, s: &str) -> bool {
    lo < bytes(s).len() && lo < hi ==> on_char(s, lo) && (hi < bytes(s).len() ==> on_char(s, hi))
}
#trait lex::span::ToSpan
spec fn slo(&self) -> Pos;
spec fn shi(&self) -> Pos;
#fn lex::span::ToSpan::lo
ensures r == self.slo(),
#fn lex::span::ToSpan::hi
ensures r == self.shi(),
#fn lex::span::ToSpan::span
ensures r.lo == self.slo(), r.hi == self.shi(),
#impl lex::span::Span as ToSpan
open spec fn slo(&self) -> Pos { self.lo }
open spec fn shi(&self) -> Pos { self.hi }
#impl lex::span::&T as ToSpan
open spec fn slo(&self) -> Pos { (**self).slo() }
open spec fn shi(&self) -> Pos { (**self).shi() }
#impl lex::span::(A,B) as ToSpan
open spec fn slo(&self) -> Pos { self.0.slo() }
open spec fn shi(&self) -> Pos { self.1.shi() }
#impl lex::span::(A,B,C) as ToSpan
open spec fn slo(&self) -> Pos { self.0.slo() }
open spec fn shi(&self) -> Pos { self.2.shi() }
#impl lex::span::(A,B,C,D) as ToSpan
open spec fn slo(&self) -> Pos { self.0.slo() }
open spec fn shi(&self) -> Pos { self.3.shi() }
#impl lex::span::(A,B,C,D,E) as ToSpan
open spec fn slo(&self) -> Pos { self.0.slo() }
open spec fn shi(&self) -> Pos { self.4.shi() }
#impl lex::token::Token as ToSpan
open spec fn slo(&self) -> usize { self.span.lo }
open spec fn shi(&self) -> usize { self.span.hi }
#fn lex::span::Span as Clone::clone
ensures r == *self,
#fn lex::span::Span::new
ensures r.lo == lo, r.hi == hi,
#fn lex::span::Span::get
requires on_chars(self.lo as int, self.hi as int, input),
ensures bytes(r) == cut(bytes(input), self.lo as int, self.hi as int),
#pre
proof { vstd::utf8::encode_utf8_valid_utf8(input@); vstd::utf8::is_char_boundary_start_end_of_seq(bytes(input)); reveal_strlit(""); }
#fn lex::token::Token::new
requires call_requires(<TSpan as Into<Span>>::into, (span,)),
ensures r.ty == ty, call_ensures(<TSpan as Into<Span>>::into, (span,), r.span),

#fn lex::token::Token::src
requires on_chars(self.span.lo as int, self.span.hi as int, input),
ensures bytes(r) == cut(bytes(input), self.span.lo as int, self.span.hi as int),
#fn lex::token::Token::to_src
requires on_chars(self.span.lo as int, self.span.hi as int, input),
ensures r.ty == self.ty, bytes(r.src) == cut(bytes(input), self.span.lo as int, self.span.hi as int),

