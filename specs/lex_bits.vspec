# Token types as bits
#mod lex::lexicon
use crate::shim_bits::Bits;
#trait lex::lexicon::Lexicon
proof fn law_wid() ensures Self::count() <= <Self::Bit as Bits>::wid();
#fn lex::lexicon::Lexicon::to_bit
ensures forall|i: nat| i < <Self::Bit as Bits>::wid() ==> (#[trigger] r.mem(i)) == (i == self.idn()),
