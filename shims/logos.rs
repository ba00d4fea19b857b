// The lexer logos generates, by its contract: it goes through the source from left to right and
// returns each token and each piece of text it can make nothing of, with their spans.
pub mod shim_logos {
use vstd::prelude::*;
use crate::shim::*;
/// a token, or (None) text that begins no token; logos skips ignored text by itself
pub struct Ev<T> { pub tok: Option<T>, pub lo: usize, pub hi: usize }
pub trait Logos<'s>: Sized { type Error; }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Lexer<'s, T: Logos<'s>>(std::marker::PhantomData<&'s T>);
impl<'s, T: Logos<'s>> Lexer<'s, T> {
    /// what is still to come
    pub uninterp spec fn evs(&self) -> Seq<Ev<T>>;
    /// the span of the last result
    pub uninterp spec fn cur(&self) -> (usize, usize);
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<T, T::Error>>)
        ensures
            old(self).evs().len() == 0 ==> r is None && final(self).evs() == old(self).evs(),
            old(self).evs().len() > 0 ==> {
                let e = old(self).evs()[0];
                &&& final(self).evs() == old(self).evs().drop_first()
                &&& final(self).cur() == (e.lo, e.hi)
                &&& match e.tok { Some(t) => r == Some(Ok::<T, T::Error>(t)), None => r matches Some(Err(_)) }
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn span(&self) -> (r: core::ops::Range<usize>)
        ensures r.start == self.cur().0, r.end == self.cur().1 { unimplemented!() }
}
/// the results lie in the source one after the other, on character boundaries, none empty
pub open spec fn evs_laid_out<T>(s: Seq<Ev<T>>, at: int, src: &str) -> bool
    decreases s.len()
{
    s.len() > 0 ==> {
        &&& at <= s[0].lo && s[0].lo < s[0].hi && s[0].hi <= bytes(src).len()
        &&& on_char(src, s[0].lo as int) && on_char(src, s[0].hi as int)
        &&& evs_laid_out(s.drop_first(), s[0].hi as int, src)
    }
}
}
