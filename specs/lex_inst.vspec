#mod inst::@NAME@
use vstd::std_specs::cmp::PartialEqSpec;
use vstd::std_specs::cmp::PartialEqSpecImpl;
impl PartialEqSpecImpl for T {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &T) -> bool { *self == *o }
}
pub proof fn slots() ensures @LEN@ == T::count() {}
#fn inst::@NAME@::T as Clone::clone
ensures r == *self,
#fn inst::@NAME@::T as PartialEq::eq
#impl inst::@NAME@::T as Lexicon
open spec fn idn(&self) -> nat { match self { @ORD@ } }
open spec fn count() -> nat { @COUNT@ }
open spec fn nth(i: nat) -> Self { @NTH@ }
open spec fn extract_spec(&self) -> bool { match self { @ASIDE@ } }
proof fn law_count() {}
proof fn law_num(x: Self, i: nat) {}
proof fn law_eq(a: Self, b: Self) {}
proof fn law_wid() {}
#fn inst::@NAME@::T as Lexicon::to_bit
#pre
proof { crate::shim_bits::single_@BIT@(self.idn() as usize); }
