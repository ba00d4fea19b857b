# C06: terminal sets are mathematical sets
#mod syntax::lit_set
broadcast use crate::shim::shim_axioms;
impl LitSet {
    pub open spec fn view(&self) -> ISet<Seq<char>> {
        match self { Self::Match(s) => s@.to_iset(), Self::Any => ISet::full() }
    }
}
#fn syntax::lit_set::LitSet::new
ensures r@ == ISet::<Seq<char>>::empty(),
#fn syntax::lit_set::LitSet as Default::default
ensures r@ == ISet::<Seq<char>>::empty(),
#post
proof { assert(vt_ret@ =~= ISet::<Seq<char>>::empty()); }
#fn syntax::lit_set::LitSet as Clone::clone
#opaque
ensures r@ == self@,
#fn syntax::lit_set::LitSet::universe
ensures r@ == ISet::<Seq<char>>::full(),
#fn syntax::lit_set::LitSet::is_universe
ensures r == (self@ == ISet::<Seq<char>>::full()),
#fn syntax::lit_set::LitSet::clear
ensures final(self)@ =~= ISet::<Seq<char>>::empty(),
#fn syntax::lit_set::LitSet::is_empty
ensures r == (self@ =~= ISet::<Seq<char>>::empty()),
#pre
proof { lemma_set_empty(self); }
#fn syntax::lit_set::LitSet::insert
ensures final(self)@ =~= old(self)@.insert(lit@), r == !old(self)@.contains(lit@),
#fn syntax::lit_set::LitSet::contains
ensures r == self@.contains(lit@),
#fn syntax::lit_set::LitSet::union_universe
ensures final(self)@ == ISet::<Seq<char>>::full(), r == (final(self)@ != old(self)@),
#fn syntax::lit_set::LitSet::union
ensures final(self)@ =~= old(self)@.union(other@), r == (final(self)@ != old(self)@),
#pre
proof { lemma_union_len(self, other); }
#fn syntax::lit_set::LitSet::intersects
ensures r == (exists|s: Seq<char>| self@.contains(s) && other@.contains(s)),
#pre
proof { lemma_set_empty(self); lemma_set_empty(other); lemma_intersects(self, other); }
#fn syntax::lit_set::LitSet::intersection
ensures r@ =~= self@.intersect(other@),

#fn syntax::lit_set::LitSet::vt_iter
#retty Option<KIt<&&'static str>>
ensures match r { Some(k) => self@ == k@.to_iset(), None => self@ == ISet::<Seq<char>>::full() },
#mod syntax::lit_set
pub proof fn lemma_set_empty(x: &LitSet)
    ensures x is Match ==> ((x->Match_0)@ == Set::<Seq<char>>::empty() <==> x@ == ISet::<Seq<char>>::empty()),
        x is Any ==> x@ != ISet::<Seq<char>>::empty(),
        x@ != ISet::<Seq<char>>::empty() ==> exists|s: Seq<char>| x@.contains(s),
{
    if x is Match {
        let s = (x->Match_0)@;
        if s != Set::<Seq<char>>::empty() {
            if forall|k: Seq<char>| !s.contains(k) { assert(s =~= Set::<Seq<char>>::empty()); }
            let k = choose|k: Seq<char>| s.contains(k);
            assert(x@.contains(k));
            assert(!ISet::<Seq<char>>::empty().contains(k));
        } else {
            assert(x@ =~= ISet::<Seq<char>>::empty());
        }
    } else {
        assert(x@.contains(Seq::<char>::empty()));
        assert(!ISet::<Seq<char>>::empty().contains(Seq::<char>::empty()));
    }
    if x@ != ISet::<Seq<char>>::empty() && forall|k: Seq<char>| !x@.contains(k) {
        assert(x@ =~= ISet::<Seq<char>>::empty());
    }
}
pub proof fn lemma_intersects(x: &LitSet, y: &LitSet)
    ensures (x is Match && y is Match) ==>
        (((x->Match_0)@.intersect((y->Match_0)@) != Set::<Seq<char>>::empty()) <==> exists|s: Seq<char>| x@.contains(s) && y@.contains(s)),
{
    if x is Match && y is Match {
        let i = (x->Match_0)@.intersect((y->Match_0)@);
        if i != Set::<Seq<char>>::empty() {
            if forall|k: Seq<char>| !i.contains(k) { assert(i =~= Set::<Seq<char>>::empty()); }
            let k = choose|k: Seq<char>| i.contains(k);
            assert(x@.contains(k) && y@.contains(k));
        } else {
            assert forall|s: Seq<char>| !(x@.contains(s) && y@.contains(s)) by {
                if x@.contains(s) && y@.contains(s) { assert(i.contains(s)); }
            }
        }
    }
}
pub proof fn lemma_union_len(x: &LitSet, y: &LitSet)
    ensures (x is Match && y is Match) ==> {
        let a = (x->Match_0)@; let b = (y->Match_0)@;
        &&& (a.len() != a.union(b).len()) <==> (a.to_iset() != a.union(b).to_iset())
        &&& a.union(b).to_iset() =~= a.to_iset().union(b.to_iset())
        },
{
    if x is Match && y is Match {
        let a = (x->Match_0)@; let b = (y->Match_0)@; let u = a.union(b);
        if a.len() == u.len() {
            vstd::set_lib::lemma_subset_equality(a, u);
        } else {
            if forall|s: Seq<char>| u.contains(s) ==> a.contains(s) { assert(a =~= u); }
            let s = choose|s: Seq<char>| u.contains(s) && !a.contains(s);
            assert(u.to_iset().contains(s) && !a.to_iset().contains(s));
        }
    }
}

# ---------------------------------------------------------------- TerminalSet
#mod syntax::term_set
broadcast use crate::lex::lexicon::lex_axioms;
/// A terminal (token type, text), or the empty symbol
pub type Sym<L> = Option<(L, Seq<char>)>;
impl<L: Lexicon> TerminalSet<L> {
    pub open spec fn view(&self) -> ISet<Sym<L>> {
        ISet::new(|x: Sym<L>| match x { None => self.e, Some(p) => self.map.at(p.0)@.contains(p.1) })
    }
}
pub open spec fn tok_sym<'s, L: Lexicon>(t: Option<crate::lex::TokenSrc<'s, L>>) -> Sym<L> {
    match t { None => None, Some(t) => Some(t.v()) }
}
/// the terminals (ty, lit): every text when there is no literal
pub open spec fn term_syms<L: Lexicon>(ty: L, lit: Option<&'static str>) -> ISet<Sym<L>> {
    ISet::new(|x: Sym<L>| x is Some && (x->0).0 == ty && (lit is Some ==> (x->0).1 == (lit->0)@))
}
pub open spec fn no_e<L: Lexicon>(s: ISet<Sym<L>>) -> ISet<Sym<L>> { s.remove(None) }
pub open spec fn meets<L: Lexicon>(a: ISet<Sym<L>>, b: ISet<Sym<L>>) -> bool { exists|x: Sym<L>| a.contains(x) && #[trigger] b.contains(x) }

pub proof fn lemma_union_changed<L: Lexicon>(o: TerminalSet<L>, f: TerminalSet<L>)
    ensures (o@ == f@) <==> (o.e == f.e && forall|ty: L| #[trigger] o.map.at(ty)@ == f.map.at(ty)@)
{
    if o@ == f@ {
        assert(o@.contains(None) == f@.contains(None));
        assert forall|ty: L| #[trigger] o.map.at(ty)@ == f.map.at(ty)@ by {
            assert forall|s: Seq<char>| o.map.at(ty)@.contains(s) == f.map.at(ty)@.contains(s) by {
                assert(o@.contains(Some((ty, s))) == f@.contains(Some((ty, s))));
            }
            assert(o.map.at(ty)@ =~= f.map.at(ty)@);
        }
    } else if o.e == f.e && forall|ty: L| #[trigger] o.map.at(ty)@ == f.map.at(ty)@ {
        assert forall|x: Sym<L>| o@.contains(x) == f@.contains(x) by {
            if x is Some { assert(o.map.at((x->0).0)@ == f.map.at((x->0).0)@); }
        }
        assert(o@ =~= f@);
    }
}
#fn syntax::term_set::TerminalSet::new
ensures r@ == ISet::<Sym<L>>::empty(),
#fn syntax::term_set::TerminalSet as Default::default
ensures r@ == ISet::<Sym<L>>::empty(),
#post
proof { assert(vt_ret@ =~= ISet::<Sym<L>>::empty()); }
#fn syntax::term_set::TerminalSet as Clone::clone
ensures r@ == self@,
#post
proof { lemma_union_changed(*self, vt_ret); }
#fn syntax::term_set::TerminalSet::clear
ensures final(self)@ =~= ISet::<Sym<L>>::empty(),
#loop 0
    invariant vt_i0 <= L::count(), !self.e,
        forall|ty: L| ty.idn() < vt_i0 ==> (#[trigger] self.map.at(ty))@ == ISet::<Seq<char>>::empty(),
    decreases L::count() - vt_i0
#fn syntax::term_set::TerminalSet::insert_e
ensures final(self)@ =~= old(self)@.insert(None), r == !old(self)@.contains(None), final(self).map == old(self).map, final(self).e,
#fn syntax::term_set::TerminalSet::remove_e
ensures final(self)@ =~= old(self)@.remove(None), r == old(self)@.contains(None),
#fn syntax::term_set::TerminalSet::contains_e
ensures r == self@.contains(None),
#fn syntax::term_set::TerminalSet::insert
ensures final(self)@ =~= old(self)@.union(term_syms(ty, lit)), r == (final(self)@ != old(self)@),
#post
proof {
    lemma_union_changed(*old(self), *self);
    assert(self.map.at(ty)@ =~= old(self).map.at(ty)@.union(match lit { None => ISet::full(), Some(l) => ISet::empty().insert(l@) }));
    if lit is Some {
        if old(self).map.at(ty)@.contains((lit->0)@) { assert(self.map.at(ty)@ =~= old(self).map.at(ty)@); }
        else { assert(self.map.at(ty)@.contains((lit->0)@)); }
    }
}
#fn syntax::term_set::TerminalSet::contains
ensures r == self@.contains(tok_sym(token)),
#fn syntax::term_set::TerminalSet::union
ensures final(self)@ =~= old(self)@.union(if include_e { other@ } else { no_e(other@) }), r == (final(self)@ != old(self)@),
#loop 0
    invariant vt_i0 <= L::count(),
        self.e == (old(self).e || (include_e && other.e)),
        forall|ty: L| ty.idn() < vt_i0 ==> (#[trigger] self.map.at(ty))@ == old(self).map.at(ty)@.union(other.map.at(ty)@),
        forall|ty: L| ty.idn() >= vt_i0 ==> (#[trigger] self.map.at(ty)) == old(self).map.at(ty),
        changed == !(self.e == old(self).e && forall|ty: L| (#[trigger] self.map.at(ty))@ == old(self).map.at(ty)@),
    decreases L::count() - vt_i0
#loopstart 0
    let ghost before = *self;
    let ghost chg = changed;
#loopend 0
    proof {
        let ty0 = L::nth((vt_i0 - 1) as nat);
        if !chg {
            if next_changed {
                assert(self.map.at(ty0)@ != old(self).map.at(ty0)@);
            } else {
                assert forall|ty: L| (#[trigger] self.map.at(ty))@ == old(self).map.at(ty)@ by {
                    if ty != ty0 { assert(self.map.at(ty) == before.map.at(ty)); assert(before.map.at(ty)@ == old(self).map.at(ty)@); }
                    else { assert(before.map.at(ty) == old(self).map.at(ty)); }
                }
            }
        } else {
            if before.e == old(self).e {
                let w = choose|ty: L| (#[trigger] before.map.at(ty))@ != old(self).map.at(ty)@;
                assert(before.map.at(w)@ != old(self).map.at(w)@);
                if w == ty0 { assert(before.map.at(w) == old(self).map.at(w)); }
                assert(self.map.at(w)@ != old(self).map.at(w)@);
            }
        }
    }
#post
proof { lemma_union_changed(*old(self), *self); }
#fn syntax::term_set::TerminalSet::intersects
ensures r == meets(self@, if include_e { other@ } else { no_e(other@) }),
#pre
proof { assert(meets(self@, other@) || true); }
#loop 0
    invariant vt_it0.a == &self.map, vt_it0.b == &other.map, vt_it0.i <= L::count(),
        !(include_e && self.e && other.e),
        forall|ty: L, s: Seq<char>| #![trigger self.map.at(ty)@.contains(s)] ty.idn() < vt_it0.i ==> !(self.map.at(ty)@.contains(s) && other.map.at(ty)@.contains(s)),
    decreases L::count() - vt_it0.i
#before return true;
    proof { assert(self@.contains(None) && other@.contains(None)); }
#before if set.intersects(other_set)
    proof {
        let ty = L::nth((vt_it0.i - 1) as nat);
        let o = if include_e { other@ } else { no_e(other@) };
        if exists|s: Seq<char>| set@.contains(s) && other_set@.contains(s) {
            let s = choose|s: Seq<char>| set@.contains(s) && other_set@.contains(s);
            assert(self@.contains(Some((ty, s))) && o.contains(Some((ty, s))));
        }
    }
#post
proof {
    let o = if include_e { other@ } else { no_e(other@) };
    assert forall|x: Sym<L>| self@.contains(x) implies !(#[trigger] o.contains(x)) by {
        if x is Some { let p = x->0; assert(self.map.at(p.0)@.contains(p.1)); }
    }
}
#fn syntax::term_set::TerminalSet::intersection_repr
#opaque
#fn syntax::term_set::TerminalSet::to_repr
#opaque

# ---------------------------------------------------------------- FirstSet
#mod syntax::first::set
use crate::syntax::term_set::*;
broadcast use crate::lex::lexicon::lex_axioms;
impl<L: Lexicon> FirstSet<L> {
    pub open spec fn view(&self) -> ISet<Sym<L>> { self.0@ }
}
#fn syntax::first::set::FirstSet::new
ensures r@ == ISet::<Sym<L>>::empty(),
#fn syntax::first::set::FirstSet as Default::default
ensures r@ == ISet::<Sym<L>>::empty(),
#fn syntax::first::set::FirstSet as Clone::clone
ensures r@ == self@,
#fn syntax::first::set::FirstSet as From<TerminalSet<L>>::from
ensures r@ == set@,
#fn syntax::first::set::FirstSet::one
ensures r@ == term_syms(ty, lit),
#post
proof { assert(vt_ret@ =~= term_syms(ty, lit)); }
#fn syntax::first::set::FirstSet::clear
ensures final(self)@ == ISet::<Sym<L>>::empty(),
#fn syntax::first::set::FirstSet::insert_epsilon
ensures final(self)@ == old(self)@.insert(None), r == (final(self)@ != old(self)@),
#post
proof { assert(old(self)@.contains(None) ==> old(self)@.insert(None) =~= old(self)@); }
#fn syntax::first::set::FirstSet::contains_epsilon
ensures r == self@.contains(None),
#fn syntax::first::set::FirstSet::insert
ensures final(self)@ == old(self)@.union(term_syms(ty, lit)), r == (final(self)@ != old(self)@),
#fn syntax::first::set::FirstSet::contains
ensures r == self@.contains(tok_sym(token)),
#fn syntax::first::set::FirstSet::union
ensures final(self)@ == old(self)@.union(other@), r == (final(self)@ != old(self)@),
#fn syntax::first::set::FirstSet::union_minus_epsilon
ensures final(self)@ == old(self)@.union(no_e(other@)), r == (final(self)@ != old(self)@),
#fn syntax::first::set::FirstSet::intersects
ensures r == meets(self@, other@),
#fn syntax::first::set::FirstSet::intersects_minus_epsilon
ensures r == meets(self@, no_e(other@)),
#fn syntax::first::set::FirstSet::as_terminal_set
ensures r@ == self@,

# ---------------------------------------------------------------- FollowSet
#mod syntax::follow::set
use crate::syntax::term_set::*;
broadcast use crate::lex::lexicon::lex_axioms;
impl<L: Lexicon> FollowSet<L> {
    pub open spec fn view(&self) -> ISet<Sym<L>> { self.0@ }
}
#fn syntax::follow::set::FollowSet::new
ensures r@ == ISet::<Sym<L>>::empty(),
#fn syntax::follow::set::FollowSet as Default::default
ensures r@ == ISet::<Sym<L>>::empty(),
#fn syntax::follow::set::FollowSet as Clone::clone
ensures r@ == self@,
#fn syntax::follow::set::FollowSet as From<TerminalSet<L>>::from
ensures r@ == set@,
#fn syntax::follow::set::FollowSet::insert_eof
ensures final(self)@ == old(self)@.insert(None),
#fn syntax::follow::set::FollowSet::contains_eof
ensures r == self@.contains(None),
#fn syntax::follow::set::FollowSet::insert
ensures final(self)@ == old(self)@.union(term_syms(ty, lit)), r == (final(self)@ != old(self)@),
#fn syntax::follow::set::FollowSet::contains
ensures r == self@.contains(tok_sym(token)),
#fn syntax::follow::set::FollowSet::union_first
ensures final(self)@ == old(self)@.union(no_e(other@)), r == (final(self)@ != old(self)@),
#fn syntax::follow::set::FollowSet::union_follow
ensures final(self)@ == old(self)@.union(other@), r == (final(self)@ != old(self)@),
#fn syntax::follow::set::FollowSet::intersects_first
ensures r == meets(self@, no_e(other@)),
#fn syntax::follow::set::FollowSet::as_terminal_set
ensures r@ == self@,
