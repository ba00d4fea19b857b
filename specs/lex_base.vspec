# Lexicon: spec-level numbering of token types. The laws are obligations of the trait's
# implementors; derived lexicons discharge them under C08.
#bound lex::lexicon::Lexicon :::: vstd::std_specs::cmp::PartialEqSpec
#trait lex::lexicon::Lexicon
spec fn idn(&self) -> nat;
spec fn count() -> nat;
spec fn nth(i: nat) -> Self;
spec fn extract_spec(&self) -> bool;
proof fn law_count() ensures 0 < Self::count() <= 128;
proof fn law_num(x: Self, i: nat)
    ensures x.idn() < Self::count(), Self::nth(x.idn()) == x, i < Self::count() ==> Self::nth(i).idn() == i;
proof fn law_eq(a: Self, b: Self)
    ensures <Self as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(), vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b);
#fn lex::lexicon::Lexicon::id
ensures r == self.idn(),
#fn lex::lexicon::Lexicon::from_id_unchecked
requires id < Self::count(),
ensures r == Self::nth(id as nat),
#fn lex::lexicon::Lexicon::should_extract
ensures r == self.extract_spec(),
#fn lex::lexicon::Lexicon::first
ensures r == Self::nth(0),
#fn lex::lexicon::Lexicon::next
ensures r == (if self.idn() + 1 < Self::count() { Some(Self::nth((self.idn() + 1) as nat)) } else { None }),
#mod lex::lexicon
pub broadcast proof fn lex_id<L: Lexicon>(x: L)
    ensures (#[trigger] x.idn()) < L::count(), L::nth(x.idn()) == x { L::law_num(x, 0); }
pub broadcast proof fn lex_nth<L: Lexicon>(i: nat)
    ensures i < L::count() ==> (#[trigger] L::nth(i)).idn() == i { L::law_num(L::nth(i), i); }
pub broadcast proof fn lex_eq<L: Lexicon>(a: L, b: L)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b) { L::law_eq(a, b); }
pub broadcast proof fn lex_eq_ok<L: Lexicon>()
    ensures #[trigger] <L as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() { L::law_eq(L::nth(0), L::nth(0)); }
pub broadcast proof fn lex_count<L: Lexicon>() ensures 0 < #[trigger] L::count() <= 128 { L::law_count(); }
pub broadcast group lex_axioms { lex_id, lex_nth, lex_eq, lex_eq_ok, lex_count }

