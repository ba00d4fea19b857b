# C08: a per-token-type map has one independent slot per token type
#mod lex::map
broadcast use super::lexicon::lex_axioms;
use crate::shim::*;
impl<L: Lexicon, T: Default + Clone> Map<L, T> {
    /// the slot of a token type
    pub open spec fn at(&self, ty: L) -> T { self.0@[ty.idn() as int] }
    pub open spec fn full(&self) -> bool { self.0@.len() == L::count() }
}
#fn lex::map::Map::get
ensures *r == self.at(ty),
#fn lex::map::Map::get_mut
ensures *r == old(self).at(ty), final(self).at(ty) == *final(r),
    forall|o: L| o != ty ==> #[trigger] final(self).at(o) == old(self).at(o),
#pre
proof { assert forall|o: L| o != ty implies #[trigger] o.idn() != ty.idn() by { L::law_num(o, 0); L::law_num(ty, 0); }; }
#fn lex::map::Map as Default::default
ensures r.full(), forall|ty: L| call_ensures(T::default, (), #[trigger] r.at(ty)),
#fn lex::map::Map::new
ensures r.full(), forall|ty: L| call_ensures(T::default, (), #[trigger] r.at(ty)),
#fn lex::map::Map as Clone::clone
ensures self.full() ==> r.full() && forall|ty: L| call_ensures(T::clone, (&self.at(ty),), #[trigger] r.at(ty)),
#fn lex::map::Map::vt_iter
#retty SliceIt<'_, T>
ensures r.i == 0, r.s@.len() == L::count(), forall|ty: L| r.s@[ty.idn() as int] == #[trigger] self.at(ty),
#fn lex::map::Map::iter_zip
#retty SeqIt<(L, &T)>
ensures r.v@.len() == L::count(), forall|ty: L| r.v@[ty.idn() as int].0 == ty && *r.v@[ty.idn() as int].1 == #[trigger] self.at(ty),
#closure 0 (vt_q0: (usize, &T)) -> (o: (L, &T))
requires vt_q0.0 < L::count()
ensures o.0 == L::nth(vt_q0.0 as nat), o.1 == vt_q0.1
#fn lex::map::LargeArray as Default::default
ensures forall|i: int| 0 <= i < N ==> call_ensures(T::default, (), #[trigger] r.0@[i]),
#closure 0 (vt_q0: usize) -> (o: T)
ensures call_ensures(T::default, (), o)
#fn lex::map::LargeArray as Borrow<[T]>::borrow
ensures r@ == self.0@,
#fn lex::map::LargeArray as BorrowMut<[T]>::borrow_mut
ensures r@ == old(self).0@, final(self).0@ == final(r)@,
