# C05: the predictive table
#mod syntax::jump
use crate::syntax::term_set::*;
broadcast use {crate::lex::lexicon::lex_axioms, crate::shim::shim_axioms};
impl<L: Lexicon> JumpTable<L> {
    /// the value registered for a terminal or for the empty symbol
    pub open spec fn direct(&self, s: Sym<L>) -> Option<usize> {
        match s {
            None => self.epsilon,
            Some(p) => if self.map.at(p.0).1@.dom().contains(p.1) { Some(self.map.at(p.0).1@[p.1]) } else { self.map.at(p.0).0 },
        }
    }
    pub open spec fn look(&self, s: Sym<L>) -> Option<usize> {
        if self.direct(s) is Some { self.direct(s) } else { self.epsilon }
    }
}
/// `n` is `o` with every symbol of `set` mapped to v
pub open spec fn added<L: Lexicon>(o: JumpTable<L>, n: JumpTable<L>, set: ISet<Sym<L>>, v: usize) -> bool {
    forall|s: Sym<L>| #[trigger] n.direct(s) == (if set.contains(s) { Some(v) } else { o.direct(s) })
}
pub open spec fn unregistered<L: Lexicon>(o: JumpTable<L>, set: ISet<Sym<L>>) -> bool {
    forall|s: Sym<L>| set.contains(s) ==> #[trigger] o.direct(s) is None
}
impl<L: Lexicon> Jump<L> {
    pub open spec fn direct(&self, t: TypeId, s: Sym<L>) -> Option<usize> {
        if self.map@.dom().contains(t) { self.map@[t].direct(s) } else { None }
    }
    pub open spec fn look(&self, t: TypeId, s: Sym<L>) -> Option<usize> {
        if self.map@.dom().contains(t) { self.map@[t].look(s) } else { None }
    }
}
pub broadcast axiom fn lit_table_default(p: LitJumpTable)
    ensures #[trigger] call_ensures(<LitJumpTable as Default>::default, (), p) ==> p.0 is None && p.1@.dom() == Set::<Seq<char>>::empty();
#fn syntax::jump::JumpTable as Default::default
ensures forall|s: Sym<L>| #[trigger] r.direct(s) is None,
#pre
proof { broadcast use lit_table_default; }
#fn syntax::jump::JumpTable::look_up_token
ensures r == self.direct(Some(token.v())),
#fn syntax::jump::JumpTable::look_up
ensures r == self.look(tok_sym(token)),
#closure 0 (token: TokenSrc<'_, L>) -> (o: Option<usize>)
ensures o == self.direct(Some(token.v()))
#fn syntax::jump::JumpTable::register_epsilon
ensures final(self).epsilon == Some(value), final(self).map == old(self).map,
#fn syntax::jump::JumpTable::register
ensures final(self).epsilon == old(self).epsilon,
    forall|o: L| o != ty ==> #[trigger] final(self).map.at(o) == old(self).map.at(o),
    final(self).map.at(ty).0 == Some(value), final(self).map.at(ty).1 == old(self).map.at(ty).1,
#fn syntax::jump::JumpTable::register_lit
ensures final(self).epsilon == old(self).epsilon,
    forall|o: L| o != ty ==> #[trigger] final(self).map.at(o) == old(self).map.at(o),
    final(self).map.at(ty).0 == old(self).map.at(ty).0, final(self).map.at(ty).1@ == old(self).map.at(ty).1@.insert(lit@, value),
#fn syntax::jump::Jump as Default::default
ensures forall|t: TypeId| !#[trigger] r.map@.dom().contains(t),
#fn syntax::jump::Jump::new
ensures forall|t: TypeId| !#[trigger] r.map@.dom().contains(t),
#fn syntax::jump::Jump::register
requires forall|s: Sym<L>| first@.contains(s) ==> #[trigger] old(self).direct(t, s) is None,
ensures
    forall|s: Sym<L>| #[trigger] final(self).direct(t, s) == (if first@.contains(s) { Some(id) } else { old(self).direct(t, s) }),
    forall|u: TypeId| u != t ==> #[trigger] final(self).map@.dom().contains(u) == old(self).map@.dom().contains(u),
    forall|u: TypeId| u != t && old(self).map@.dom().contains(u) ==> #[trigger] final(self).map@[u] == old(self).map@[u],
#after let entry
proof {
    assert(forall|s: Sym<L>| #[trigger] entry.direct(s) == old(self).direct(t, s));
}
#fn syntax::jump::Jump::look_up
ensures r == self.look(*t, tok_sym(token)),
#closure 0 (entry: &JumpTable<L>) -> (o: Option<usize>)
ensures o == entry.look(tok_sym(token))
#fn syntax::first::set::FirstSet::add_to_jump_table
requires crate::syntax::jump::unregistered(*old(table), self@),
ensures crate::syntax::jump::added(*old(table), *final(table), self@, value),
#pre
let ghost t0 = *table;
#loopbefore 0
    let ghost t1 = *table;
    proof { assert(forall|ty: L| #[trigger] table.map.at(ty) == t0.map.at(ty)); }
#loop 0
    invariant vt_it0.m == &self.0.map, vt_it0.i <= L::count(),
        crate::syntax::jump::unregistered(t0, self@),
        table.epsilon == (if self@.contains(None) { Some(value) } else { t0.epsilon }),
        forall|ty: L| ty.idn() >= vt_it0.i ==> #[trigger] table.map.at(ty) == t0.map.at(ty),
        forall|ty: L, x: Seq<char>| ty.idn() < vt_it0.i ==> #[trigger] table.direct(Some((ty, x))) == (if self@.contains(Some((ty, x))) { Some(value) } else { t0.direct(Some((ty, x))) }),
    decreases L::count() - vt_it0.i
#loopstart 0
    let ghost ty0 = L::nth(vt_it0.i as nat);
    let ghost tb = *table;
#loopend 0
    proof {
        assert(ty == ty0 && ty0.idn() == vt_it0.i - 1);
        assert forall|o: L, x: Seq<char>| o.idn() < vt_it0.i implies #[trigger] table.direct(Some((o, x))) == (if self@.contains(Some((o, x))) { Some(value) } else { t0.direct(Some((o, x))) }) by {
            if o.idn() < vt_it0.i - 1 {
                assert(o != ty0);
                assert(table.map.at(o) == tb.map.at(o));
                assert(table.direct(Some((o, x))) == tb.direct(Some((o, x))));
            } else {
                assert(o == ty0) by { assert(L::nth(o.idn()) == o); }
                assert(self@.contains(Some((ty0, x))) == set@.contains(x));
                if set@.contains(x) { assert(t0.direct(Some((ty0, x))) is None); }
            }
        }
        assert forall|o: L| o.idn() >= vt_it0.i implies #[trigger] table.map.at(o) == t0.map.at(o) by { assert(o != ty0); assert(tb.map.at(o) == t0.map.at(o)); }
    }
#loop 1
    invariant ty == ty0, forall|x: Seq<char>| vt_it1@.contains(x) ==> #[trigger] set@.contains(x),
        table.epsilon == tb.epsilon,
        forall|o: L| o != ty ==> #[trigger] table.map.at(o) == tb.map.at(o),
        table.map.at(ty).0 == tb.map.at(ty).0,
        forall|x: Seq<char>| #![trigger table.map.at(ty).1@.dom().contains(x)] #![trigger set@.contains(x)]
            set@.contains(x) && !vt_it1@.contains(x) ==> table.map.at(ty).1@.dom().contains(x) && table.map.at(ty).1@[x] == value,
        forall|x: Seq<char>| #[trigger] table.map.at(ty).1@.dom().contains(x) && !set@.contains(x) ==> tb.map.at(ty).1@.dom().contains(x) && table.map.at(ty).1@[x] == tb.map.at(ty).1@[x],
        forall|x: Seq<char>| #[trigger] tb.map.at(ty).1@.dom().contains(x) ==> table.map.at(ty).1@.dom().contains(x),
    decreases vt_it1@.len()
#post
proof {
    assert forall|s: Sym<L>| #[trigger] table.direct(s) == (if self@.contains(s) { Some(value) } else { t0.direct(s) }) by {
        if s is Some { let p = s->0; assert(p.0.idn() < L::count()); assert(table.direct(Some((p.0, p.1))) == table.direct(s)); }
    }
}
