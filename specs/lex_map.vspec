# One slot per token type: the contract of lex::Map (its code is checked under C08)
#mod lex::map
use super::lexicon::Lexicon;
broadcast use super::lexicon::lex_axioms;
#[verifier::external_body]
#[verifier::accept_recursive_types(L)]
#[verifier::accept_recursive_types(T)]
pub struct Map<L: Lexicon, T>(std::marker::PhantomData<L>, std::marker::PhantomData<T>);
impl<L: Lexicon, T> Map<L, T> {
    pub uninterp spec fn at(&self, ty: L) -> T;
    #[verifier::external_body]
    pub fn get(&self, ty: L) -> (r: &T) ensures *r == self.at(ty) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, ty: L) -> (r: &mut T)
        ensures *r == old(self).at(ty), final(self).at(ty) == *final(r),
            forall|o: L| o != ty ==> #[trigger] final(self).at(o) == old(self).at(o),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vt_len(&self) -> (r: usize) ensures r == L::count() { unimplemented!() }
    #[verifier::external_body]
    pub fn vt_at(&self, i: usize) -> (r: &T) requires i < L::count() ensures *r == self.at(L::nth(i as nat)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vt_at_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < L::count(),
        ensures *r == old(self).at(L::nth(i as nat)), final(self).at(L::nth(i as nat)) == *final(r),
            forall|o: L| o != L::nth(i as nat) ==> #[trigger] final(self).at(o) == old(self).at(o),
    { unimplemented!() }
    pub fn vt_iter(&self) -> (r: MapIt<'_, L, T>) ensures r.m == self, r.i == 0 { MapIt { m: self, i: 0 } }
    pub fn iter_zip(&self) -> (r: MapZip<'_, L, T>) ensures r.m == self, r.i == 0 { MapZip { m: self, i: 0 } }
}
impl<L: Lexicon, T: Default> Default for Map<L, T> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures forall|ty: L| call_ensures(T::default, (), #[trigger] r.at(ty)) { unimplemented!() }
}
impl<L: Lexicon, T: Clone> Clone for Map<L, T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures forall|ty: L| call_ensures(T::clone, (&self.at(ty),), #[trigger] r.at(ty)) { unimplemented!() }
}
pub struct MapIt<'a, L: Lexicon, T> { pub m: &'a Map<L, T>, pub i: usize }
pub struct MapZip<'a, L: Lexicon, T> { pub m: &'a Map<L, T>, pub i: usize }
pub struct MapPair<'a, L: Lexicon, T> { pub a: &'a Map<L, T>, pub b: &'a Map<L, T>, pub i: usize }
impl<'a, L: Lexicon, T> MapIt<'a, L, T> {
    pub fn vt_zip(self, o: MapIt<'a, L, T>) -> (r: MapPair<'a, L, T>)
        requires self.i == 0, o.i == 0
        ensures r.a == self.m, r.b == o.m, r.i == 0 { MapPair { a: self.m, b: o.m, i: 0 } }
    pub fn vt_into(self) -> (r: Self) ensures r == self { self }
    pub fn vt_has_next(&self) -> (r: bool) ensures r == (self.i < L::count()) { self.i < self.m.vt_len() }
    pub fn vt_next(&mut self) -> (r: &'a T)
        requires old(self).i < L::count(),
        ensures final(self).m == old(self).m, final(self).i == old(self).i + 1, *r == old(self).m.at(L::nth(old(self).i as nat)),
    { let i = self.i; let r = self.m.vt_at(i); self.i = i + 1; r }
}
impl<'a, L: Lexicon, T> MapPair<'a, L, T> {
    pub fn vt_into(self) -> (r: Self) ensures r == self { self }
    pub fn vt_has_next(&self) -> (r: bool) ensures r == (self.i < L::count()) { self.i < self.a.vt_len() && self.i < self.b.vt_len() }
    pub fn vt_next(&mut self) -> (r: (&'a T, &'a T))
        requires old(self).i < L::count(),
        ensures final(self).a == old(self).a, final(self).b == old(self).b, final(self).i == old(self).i + 1,
            *r.0 == old(self).a.at(L::nth(old(self).i as nat)), *r.1 == old(self).b.at(L::nth(old(self).i as nat)),
    { let i = self.i; self.i = i + 1; (self.a.vt_at(i), self.b.vt_at(i)) }
}
impl<'a, L: Lexicon, T> MapZip<'a, L, T> {
    pub fn vt_into(self) -> (r: Self) ensures r == self { self }
    pub fn vt_has_next(&self) -> (r: bool) ensures r == (self.i < L::count()) { self.i < self.m.vt_len() }
    pub fn vt_next(&mut self) -> (r: (L, &'a T))
        requires old(self).i < L::count(),
        ensures final(self).m == old(self).m, final(self).i == old(self).i + 1,
            r.0 == L::nth(old(self).i as nat), *r.1 == old(self).m.at(L::nth(old(self).i as nat)),
    { let i = self.i; let r = self.m.vt_at(i); self.i = i + 1; (L::from_id_unchecked(i), r) }
}

