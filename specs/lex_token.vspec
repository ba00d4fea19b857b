#mod lex::token
impl<'s, L: Lexicon> TokenSrc<'s, L> {
    pub open spec fn v(&self) -> (L, Seq<char>) { (self.ty, self.src@) }
}
