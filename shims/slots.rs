// The storage a lexicon picks for one value per token type. Assumed here: it is as long as the
// lexicon has token types (an obligation of every derived lexicon in the unit `inst`), and it
// behaves as the array it is.
pub mod shim_slots {
use vstd::prelude::*;
use crate::lex::lexicon::Lexicon;
#[verifier::external_body]
#[verifier::accept_recursive_types(L)]
#[verifier::accept_recursive_types(T)]
pub struct Slots<L: Lexicon, T>(std::marker::PhantomData<L>, std::marker::PhantomData<T>);
impl<L: Lexicon, T> Slots<L, T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: &[T]) ensures r@ == self@, self@.len() == L::count() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_mut(&mut self) -> (r: &mut [T])
        ensures r@ == old(self)@, old(self)@.len() == L::count(), final(self)@ == final(r)@, final(self)@.len() == L::count() { unimplemented!() }
}
impl<L: Lexicon, T: Default> Default for Slots<L, T> {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r@.len() == L::count(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(T::default, (), #[trigger] r@[i]) { unimplemented!() }
}
impl<L: Lexicon, T: Clone> Clone for Slots<L, T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(T::clone, (&self@[i],), #[trigger] r@[i]) { unimplemented!() }
}
}
