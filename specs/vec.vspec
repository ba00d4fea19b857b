# C09, C10: token lookups and semantic types
#mod lex::vec
broadcast use {super::lexicon::lex_axioms, super::span::into_self, super::span::into_self_ok};
use super::set::*;
impl<L: Lexicon> Cell<L> {
    pub open spec fn clo(&self) -> int { self.token.span.lo as int }
    pub open spec fn chi(&self) -> int { self.token.span.hi as int }
}
/// tokens in source order, without overlap, none empty
pub open spec fn ordered<L: Lexicon>(s: Seq<Cell<L>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).clo() < s[i].chi()
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).chi() <= (#[trigger] s[j]).clo()
}
/// the token lies wholly inside the span
pub open spec fn inside_of<L: Lexicon>(c: Cell<L>, sp: Span) -> bool { sp.lo <= c.clo() && c.chi() <= sp.hi }
/// the token and the span share a character
pub open spec fn covers<L: Lexicon>(c: Cell<L>, p: int) -> bool { c.clo() <= p < c.chi() }
pub open spec fn shares<L: Lexicon>(c: Cell<L>, sp: Span) -> bool { exists|p: int| #[trigger] covers(c, p) && sp.lo <= p < sp.hi }
/// lo..hi are exactly the tokens inside the span / sharing a character with it
pub open spec fn are_inside_of<L: Lexicon>(s: Seq<Cell<L>>, r: Option<(usize, usize)>, sp: Span) -> bool {
    match r {
        Some((lo, hi)) => lo < hi <= s.len() && forall|i: int| 0 <= i < s.len() ==> (lo <= i < hi) == inside_of(#[trigger] s[i], sp),
        None => forall|i: int| 0 <= i < s.len() ==> !inside_of(#[trigger] s[i], sp),
    }
}
pub open spec fn are_shares<L: Lexicon>(s: Seq<Cell<L>>, r: Option<(usize, usize)>, sp: Span) -> bool {
    match r {
        Some((lo, hi)) => lo < hi <= s.len() && forall|i: int| 0 <= i < s.len() ==> (lo <= i < hi) == shares(#[trigger] s[i], sp),
        None => forall|i: int| 0 <= i < s.len() ==> !shares(#[trigger] s[i], sp),
    }
}
pub open spec fn sub<L: Lexicon>(s: Seq<Cell<L>>, r: Option<(usize, usize)>) -> Seq<Cell<L>> {
    match r { Some((lo, hi)) => s.subrange(lo as int, hi as int), None => Seq::empty() }
}
/// `t` replaces the part of `s` that `r` names
pub open spec fn put<L: Lexicon>(s: Seq<Cell<L>>, r: Option<(usize, usize)>, t: Seq<Cell<L>>) -> Seq<Cell<L>> {
    match r { Some((lo, hi)) => s.subrange(0, lo as int) + t + s.subrange(hi as int, s.len() as int), None => s }
}
pub broadcast proof fn shares_iff<L: Lexicon>(c: Cell<L>, sp: Span)
    requires c.clo() < c.chi()
    ensures #[trigger] shares(c, sp) == (sp.lo < sp.hi && c.clo() < sp.hi && sp.lo < c.chi())
{
    if sp.lo < sp.hi && c.clo() < sp.hi && sp.lo < c.chi() {
        let p = if c.clo() < sp.lo { sp.lo as int } else { c.clo() };
        assert(covers(c, p) && sp.lo <= p < sp.hi);
    }
}
/// the longest run of tokens that `f` accepts and whose last token ends at `pos`
pub open spec fn run_before<L: Lexicon, F: Fn(&Cell<L>) -> bool>(s: Seq<Cell<L>>, pos: Pos, f: F, r: Option<(usize, usize)>) -> bool {
    match r {
        Some((lo, hi)) => lo < hi <= s.len() && s[hi - 1].chi() == pos && (forall|i: int| lo <= i < hi ==> f.ensures((&#[trigger] s[i],), true))
            && (lo > 0 ==> f.ensures((&s[lo - 1],), false)),
        None => forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).chi() == pos ==> f.ensures((&s[i],), false),
    }
}
/// the longest run of tokens that `f` accepts and whose first token begins at `pos`
pub open spec fn run_from<L: Lexicon, F: Fn(&Cell<L>) -> bool>(s: Seq<Cell<L>>, pos: Pos, f: F, r: Option<(usize, usize)>) -> bool {
    match r {
        Some((lo, hi)) => lo < hi <= s.len() && s[lo as int].clo() == pos && (forall|i: int| lo <= i < hi ==> f.ensures((&#[trigger] s[i],), true))
            && (hi < s.len() ==> f.ensures((&s[hi as int],), false)),
        None => forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).clo() == pos ==> f.ensures((&s[i],), false),
    }
}
impl<L: Lexicon> TokenSlice<L> {
    pub open spec fn view(&self) -> Seq<Cell<L>> { self.0@ }
}
impl<L: Lexicon> TokenVec<L> {
    pub open spec fn view(&self) -> Seq<Cell<L>> { self.tokens@ }
}
#fn lex::vec::TokenVec::push_unchecked
ensures final(self)@.len() == old(self)@.len() + 1,
    forall|i: int| 0 <= i < old(self)@.len() ==> final(self)@[i] == old(self)@[i],
    final(self)@.last().token == token, final(self)@.last().semantic@ == ISet::<L>::empty(), final(self)@.last().semantic.wf(),
#fn lex::vec::Cell as From<Token<L>>::from
ensures r.token == token, r.semantic@ == ISet::<L>::empty(), r.semantic.wf(),
#fn lex::vec::Token as From<Cell<L>>::from
ensures r == cell.token,
#fn lex::vec::Cell as Deref::deref
ensures *r == self.token,
#fn lex::vec::TokenVec as Default::default
ensures r@ == Seq::<Cell<L>>::empty(),
#fn lex::vec::TokenVec::new
ensures r@ == Seq::<Cell<L>>::empty(),
#fn lex::vec::TokenSlice::from_slice
#opaque
ensures r@ == slice@,
#fn lex::vec::TokenSlice::from_slice_mut
#opaque
ensures r@ == old(slice)@, final(slice)@ == final(r)@,
#fn lex::vec::TokenSlice::at
ensures match r { Some(c) => pos < self@.len() && *c == self@[pos as int], None => pos >= self@.len() },
#fn lex::vec::TokenSlice::is_empty
ensures r == (self@.len() == 0),
#fn lex::vec::TokenSlice::at_span
requires ordered(self@), call_requires(<S as Into<Span>>::into, (span,)),
ensures exists|sp: Span, b: Option<(usize, usize)>| call_ensures(<S as Into<Span>>::into, (span,), sp) && are_inside_of(self@, b, sp)
    && match (r, b) { (Some(c), Some((lo, hi))) => lo + 1 == hi && *c == self@[lo as int], (Some(_), None) => false, (None, Some((lo, hi))) => lo + 1 != hi, (None, None) => true },
#fn lex::vec::TokenSlice::overlap
requires ordered(self@), call_requires(<S as Into<Span>>::into, (span,)),
ensures exists|sp: Span, b: Option<(usize, usize)>| call_ensures(<S as Into<Span>>::into, (span,), sp)
    && are_shares(self@, b, sp) && r@ == sub(self@, b),
#fn lex::vec::TokenSlice::inside
requires ordered(self@), call_requires(<S as Into<Span>>::into, (span,)),
ensures exists|sp: Span, b: Option<(usize, usize)>| call_ensures(<S as Into<Span>>::into, (span,), sp)
    && are_inside_of(self@, b, sp) && r@ == sub(self@, b),
#fn lex::vec::TokenSlice::overlap_mut
requires ordered(old(self)@), call_requires(<S as Into<Span>>::into, (span,)),
ensures exists|sp: Span, b: Option<(usize, usize)>| call_ensures(<S as Into<Span>>::into, (span,), sp)
    && are_shares(old(self)@, b, sp) && r@ == sub(old(self)@, b)
    && final(self)@ == put(old(self)@, b, final(r)@),
#fn lex::vec::TokenSlice::inside_mut
requires ordered(old(self)@), call_requires(<S as Into<Span>>::into, (span,)),
ensures exists|sp: Span, b: Option<(usize, usize)>| call_ensures(<S as Into<Span>>::into, (span,), sp)
    && are_inside_of(old(self)@, b, sp) && r@ == sub(old(self)@, b)
    && final(self)@ == put(old(self)@, b, final(r)@),
#fn lex::vec::TokenSlice::overlap_bounds
requires ordered(self@), call_requires(<S as Into<Span>>::into, (span,)),
ensures exists|sp: Span| #[trigger] call_ensures(<S as Into<Span>>::into, (span,), sp) && are_shares(self@, r, sp),
#pre
broadcast use shares_iff;
#fn lex::vec::TokenSlice::inside_bounds
requires ordered(self@), call_requires(<S as Into<Span>>::into, (span,)),
ensures exists|sp: Span| #[trigger] call_ensures(<S as Into<Span>>::into, (span,), sp) && are_inside_of(self@, r, sp),
#fn lex::vec::TokenSlice::ends_at_matches
requires ordered(self@), forall|c: &Cell<L>| #[trigger] predicate.requires((c,)),
ensures exists|b: Option<(usize, usize)>| run_before(self@, pos, predicate, b) && match r { Some(x) => b is Some && x@ == sub(self@, b), None => b is None },
#fn lex::vec::TokenSlice::ends_at_matches_mut
requires ordered(old(self)@), forall|c: &Cell<L>| #[trigger] predicate.requires((c,)),
ensures exists|b: Option<(usize, usize)>| run_before(old(self)@, pos, predicate, b) && match r {
    Some(x) => b is Some && x@ == sub(old(self)@, b) && final(self)@ == put(old(self)@, b, final(x)@),
    None => b is None && final(self)@ == old(self)@ },
#fn lex::vec::TokenSlice::ends_at_matches_bounds
requires ordered(self@), forall|c: &Cell<L>| #[trigger] predicate.requires((c,)),
ensures run_before(self@, pos, predicate, r),
#loop 0
invariant ordered(self@), forall|c: &Cell<L>| #[trigger] predicate.requires((c,)), 0 < hi <= self@.len(), lo <= hi, self@[hi - 1].chi() == pos,
    forall|i: int| lo <= i < hi ==> predicate.ensures((&#[trigger] self@[i],), true),
ensures lo > 0 ==> predicate.ensures((&self@[lo - 1],), false),
decreases lo,
#fn lex::vec::TokenSlice::begins_at_matches
requires ordered(self@), forall|c: &Cell<L>| #[trigger] predicate.requires((c,)),
ensures exists|b: Option<(usize, usize)>| run_from(self@, pos, predicate, b) && match r { Some(x) => b is Some && x@ == sub(self@, b), None => b is None },
#fn lex::vec::TokenSlice::begins_at_matches_mut
requires ordered(old(self)@), forall|c: &Cell<L>| #[trigger] predicate.requires((c,)),
ensures exists|b: Option<(usize, usize)>| run_from(old(self)@, pos, predicate, b) && match r {
    Some(x) => b is Some && x@ == sub(old(self)@, b) && final(self)@ == put(old(self)@, b, final(x)@),
    None => b is None && final(self)@ == old(self)@ },
#fn lex::vec::TokenSlice::begins_at_matches_bounds
requires ordered(self@), forall|c: &Cell<L>| #[trigger] predicate.requires((c,)),
ensures run_from(self@, pos, predicate, r),
#loop 0
invariant ordered(self@), forall|c: &Cell<L>| #[trigger] predicate.requires((c,)), len == self@.len(), lo < len, lo <= hi <= self@.len(), self@[lo as int].clo() == pos,
    forall|i: int| lo <= i < hi ==> predicate.ensures((&#[trigger] self@[i],), true),
ensures hi < len ==> predicate.ensures((&self@[hi as int],), false),
decreases len - hi,
#fn lex::vec::TokenSlice::search_lo
requires ordered(self@),
ensures self@.len() <= usize::MAX, match r {
    Ok(i) => i < self@.len() && self@[i as int].clo() == lo,
    Err(i) => i <= self@.len() && (forall|k: int| 0 <= k < i ==> (#[trigger] self@[k]).clo() < lo) && (forall|k: int| i <= k < self@.len() ==> (#[trigger] self@[k]).clo() > lo),
},
#closure 0 (cell: &Cell<L>) -> (o: std::cmp::Ordering)
ensures o == (if cell.clo() < lo { std::cmp::Ordering::Less } else if cell.clo() == lo { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater })
#fn lex::vec::TokenSlice::search_hi
requires ordered(self@),
ensures self@.len() <= usize::MAX, match r {
    Ok(i) => i < self@.len() && self@[i as int].chi() == hi,
    Err(i) => i <= self@.len() && (forall|k: int| 0 <= k < i ==> (#[trigger] self@[k]).chi() < hi) && (forall|k: int| i <= k < self@.len() ==> (#[trigger] self@[k]).chi() > hi),
},
#closure 0 (cell: &Cell<L>) -> (o: std::cmp::Ordering)
ensures o == (if cell.chi() < hi { std::cmp::Ordering::Less } else if cell.chi() == hi { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater })
#fn lex::vec::TokenSlice::apply_semantic
ensures final(self)@.len() == old(self)@.len(),
    forall|i: int| 0 <= i < old(self)@.len() ==> (#[trigger] final(self)@[i]).token == old(self)@[i].token && final(self)@[i].semantic@ == old(self)@[i].semantic@.union(semantic@)
        && (old(self)@[i].semantic.wf() && semantic.wf() ==> final(self)@[i].semantic.wf()),
#loop 0
invariant self@.len() == old(self)@.len(), vt_i0 <= self@.len(),
    forall|i: int| 0 <= i < vt_i0 ==> (#[trigger] self@[i]).token == old(self)@[i].token && self@[i].semantic@ == old(self)@[i].semantic@.union(semantic@)
        && (old(self)@[i].semantic.wf() && semantic.wf() ==> self@[i].semantic.wf()),
    forall|i: int| vt_i0 <= i < self@.len() ==> self@[i] == old(self)@[i],
decreases self@.len() - vt_i0,
#fn lex::vec::Cell::types
ensures r@ == self.semantic@.insert(self.token.ty),
#fn lex::vec::Cell::semantics
ensures r == self.semantic,
#fn lex::vec::Cell::semantics_mut
ensures *r == old(self).semantic, final(self).token == old(self).token, final(self).semantic == *final(r),
