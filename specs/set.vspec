# C07: token type sets are sets of token types
#mod lex::set
broadcast use {super::lexicon::lex_axioms, crate::shim_bits::bits_laws, super::lexicon::lex_wid};
use crate::shim_bits::Bits;
use vstd::std_specs::ops::{BitOrSpec, BitAndSpec, NotSpec};
use vstd::std_specs::cmp::PartialEqSpec;
impl<L: Lexicon> Set<L> {
    /// the members
    pub open spec fn view(&self) -> ISet<L> { ISet::new(|t: L| self.0.mem(t.idn())) }
    /// no bit outside of the token types is set
    pub open spec fn wf(&self) -> bool { forall|i: nat| L::count() <= i < L::Bit::wid() ==> !#[trigger] self.0.mem(i) }
}
pub proof fn set_ext<L: Lexicon>(a: Set<L>, b: Set<L>)
    requires a.wf(), b.wf(), a@ == b@
    ensures a == b
{
    assert forall|i: nat| i < L::Bit::wid() implies a.0.mem(i) == b.0.mem(i) by {
        if i < L::count() {
            let t = L::nth(i);
            assert(t.idn() == i);
            assert(a@.contains(t) == a.0.mem(i));
            assert(b@.contains(t) == b.0.mem(i));
        } else {
            assert(!a.0.mem(i) && !b.0.mem(i));
        }
    };
    <L::Bit as Bits>::ext(a.0, b.0);
}
impl<L: Lexicon> Iter<L> {
    pub open spec fn at(&self) -> nat { if self.cur == START { 0 } else { (self.cur + 1) as nat } }
    pub open spec fn ok(&self) -> bool { self.cur == START || self.cur < L::count() }
}
#mod lex::lexicon
pub broadcast proof fn lex_wid<L: Lexicon>()
    ensures #[trigger] L::count() <= <L::Bit as crate::shim_bits::Bits>::wid() { L::law_wid(); }
#fn lex::set::Set as Default::default
ensures r@ == ISet::<L>::empty(), r.wf(),
#post
proof { assert(vt_ret@ =~= ISet::<L>::empty()); }
#fn lex::set::Set::new
ensures r@ == ISet::<L>::empty(), r.wf(),
#post
proof { assert(vt_ret@ =~= ISet::<L>::empty()); }
#fn lex::set::Set::from_bits
ensures r.0 == bits,
#fn lex::set::Set::to_bits
ensures r == self.0,
#fn lex::set::Set::insert
ensures final(self)@ == old(self)@.insert(ty), old(self).wf() ==> final(self).wf(),
#post
proof { assert(final(self)@ =~= old(self)@.insert(ty)) by {
    assert forall|t: L| #[trigger] final(self)@.contains(t) == old(self)@.insert(ty).contains(t) by {
        assert(t.idn() == ty.idn() ==> t == ty) by { assert(L::nth(t.idn()) == t && L::nth(ty.idn()) == ty); };
    }; }; }
#fn lex::set::Set::remove
ensures final(self)@ == old(self)@.remove(ty), old(self).wf() ==> final(self).wf(),
#post
proof { assert(final(self)@ =~= old(self)@.remove(ty)) by {
    assert forall|t: L| #[trigger] final(self)@.contains(t) == old(self)@.remove(ty).contains(t) by {
        assert(t.idn() == ty.idn() ==> t == ty) by { assert(L::nth(t.idn()) == t && L::nth(ty.idn()) == ty); };
    }; }; }
#fn lex::set::Set::contains
#pre
proof {
    assert forall|b: L::Bit, z: L::Bit|
        (forall|i: nat| i < L::Bit::wid() ==> #[trigger] b.mem(i) == (i == ty.idn())) && (forall|i: nat| i < L::Bit::wid() ==> !#[trigger] z.mem(i))
        implies (#[trigger] self.0.bitand_spec(b).eq_spec(&z)) == !self@.contains(ty) by {
        let m = self.0.bitand_spec(b);
        if self@.contains(ty) { assert(m.mem(ty.idn()) && !z.mem(ty.idn())); }
        else {
            assert forall|i: nat| i < L::Bit::wid() implies m.mem(i) == z.mem(i) by { if i != ty.idn() { assert(!b.mem(i)); } };
        }
    };
}
#spec
ensures r == self@.contains(ty),
#fn lex::set::Set::contains_all
#pre
proof {
    if self.wf() && other.wf() {
        let m = self.0.bitand_spec(other.0);
        if m.eq_spec(&other.0) {
            assert forall|t: L| other@.contains(t) implies self@.contains(t) by { assert(m.mem(t.idn())); };
        } else if other@.subset_of(self@) {
            assert forall|i: nat| i < L::Bit::wid() implies m.mem(i) == other.0.mem(i) by {
                if other.0.mem(i) { assert(i < L::count()); assert(other@.contains(L::nth(i))); }
            };
        }
    }
}
#spec
ensures self.wf() && other.wf() ==> r == other@.subset_of(self@),
#fn lex::set::Set::is_empty
#pre
proof {
    if self.wf() {
        if self@ == ISet::<L>::empty() {
            assert forall|i: nat| i < L::Bit::wid() implies !self.0.mem(i) by {
                if self.0.mem(i) { assert(i < L::count()); assert(self@.contains(L::nth(i))); }
            };
        } else {
            assert(!(self@ =~= ISet::<L>::empty()));
            let t = choose|t: L| self@.contains(t);
            assert(self.0.mem(t.idn()));
        }
    }
}
#spec
ensures self.wf() ==> r == (self@ == ISet::<L>::empty()),
#fn lex::set::Set::union
ensures r@ == self@.union(other@), self.wf() && other.wf() ==> r.wf(),
#post
proof { assert(vt_ret@ =~= self@.union(other@)); }
#fn lex::set::Iter::new
ensures r.set == set, r.ok(), r.at() == 0,
#fn lex::set::Iter as Iterator::next
requires old(self).ok(),
ensures final(self).ok(), final(self).set == old(self).set,
    match r {
        Some(t) => old(self).set@.contains(t) && old(self).at() <= t.idn() && final(self).at() == t.idn() + 1
            && forall|i: nat| old(self).at() <= i < t.idn() ==> !old(self).set@.contains(#[trigger] L::nth(i)),
        None => final(self).at() == L::count()
            && forall|i: nat| old(self).at() <= i < L::count() ==> !old(self).set@.contains(#[trigger] L::nth(i)),
    },
#loop 0
invariant
    self.set == old(self).set, self.cur == next.idn(), self.ok(), old(self).at() <= next.idn(),
    forall|i: nat| old(self).at() <= i < next.idn() ==> !old(self).set@.contains(#[trigger] L::nth(i)),
decreases L::count() - next.idn(),
