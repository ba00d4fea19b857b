// Machine integers as bit sets. Nothing here is trusted except that `num::Zero::zero()` of the
// primitive unsigned integers is the literal 0; every law is proved below for each width.
pub mod shim_bits {
use vstd::prelude::*;
use core::ops::{BitOr, BitAnd, Not};
use vstd::std_specs::ops::{BitOrSpec, BitAndSpec, NotSpec};
use vstd::std_specs::cmp::PartialEqSpec;
pub trait Bits: Sized + Copy + BitOr<Output = Self> + BitAnd<Output = Self> + Not<Output = Self> + PartialEq + PartialEqSpec {
    spec fn wid() -> nat;
    spec fn mem(self, i: nat) -> bool;
    fn zero() -> (r: Self) ensures forall|i: nat| i < Self::wid() ==> !#[trigger] r.mem(i);
    proof fn ops(a: Self, b: Self)
        ensures <Self as BitOrSpec<Self>>::obeys_bitor_spec(), a.bitor_req(b),
            <Self as BitAndSpec<Self>>::obeys_bitand_spec(), a.bitand_req(b),
            <Self as NotSpec>::obeys_not_spec(), a.not_req(),
            Self::obeys_eq_spec(), a.eq_spec(&b) == (a == b);
    proof fn mems(a: Self, b: Self, i: nat)
        requires i < Self::wid(),
        ensures a.bitor_spec(b).mem(i) == (a.mem(i) || b.mem(i)),
            a.bitand_spec(b).mem(i) == (a.mem(i) && b.mem(i)),
            a.not_spec().mem(i) == !a.mem(i);
    proof fn ext(a: Self, b: Self)
        requires forall|i: nat| i < Self::wid() ==> #[trigger] a.mem(i) == b.mem(i),
        ensures a == b;
}
impl Bits for u8 {
    open spec fn wid() -> nat { 8 }
    open spec fn mem(self, i: nat) -> bool { i < 8 && (self & (1u8 << (i as u8))) != 0 }
    fn zero() -> (r: Self) {
        assert(forall|k: u8| (0u8 & (1u8 << k)) == 0) by (bit_vector);
        0 }
    proof fn ops(a: Self, b: Self) {}
    proof fn mems(a: Self, b: Self, i: nat) {
        let k = i as u8;
        assert(((a | b) & (1u8 << k) != 0) == ((a & (1u8 << k)) != 0 || (b & (1u8 << k)) != 0)) by (bit_vector);
        assert(((a & b) & (1u8 << k) != 0) == ((a & (1u8 << k)) != 0 && (b & (1u8 << k)) != 0)) by (bit_vector) requires k < 8;
        assert(((!a) & (1u8 << k) != 0) == !((a & (1u8 << k)) != 0)) by (bit_vector) requires k < 8;
    }
    proof fn ext(a: Self, b: Self) {
        assert forall|k: u8| k < 8 implies ((a & (1u8 << k)) != 0) == ((b & (1u8 << k)) != 0) by {
            assert(a.mem(k as nat) == b.mem(k as nat));
        };
        assert(a == b) by (bit_vector) requires forall|k: u8| k < 8 ==> ((a & (1u8 << k)) != 0) == ((b & (1u8 << k)) != 0);
    }
}
impl Bits for u16 {
    open spec fn wid() -> nat { 16 }
    open spec fn mem(self, i: nat) -> bool { i < 16 && (self & (1u16 << (i as u16))) != 0 }
    fn zero() -> (r: Self) {
        assert(forall|k: u16| (0u16 & (1u16 << k)) == 0) by (bit_vector);
        0 }
    proof fn ops(a: Self, b: Self) {}
    proof fn mems(a: Self, b: Self, i: nat) {
        let k = i as u16;
        assert(((a | b) & (1u16 << k) != 0) == ((a & (1u16 << k)) != 0 || (b & (1u16 << k)) != 0)) by (bit_vector);
        assert(((a & b) & (1u16 << k) != 0) == ((a & (1u16 << k)) != 0 && (b & (1u16 << k)) != 0)) by (bit_vector) requires k < 16;
        assert(((!a) & (1u16 << k) != 0) == !((a & (1u16 << k)) != 0)) by (bit_vector) requires k < 16;
    }
    proof fn ext(a: Self, b: Self) {
        assert forall|k: u16| k < 16 implies ((a & (1u16 << k)) != 0) == ((b & (1u16 << k)) != 0) by {
            assert(a.mem(k as nat) == b.mem(k as nat));
        };
        assert(a == b) by (bit_vector) requires forall|k: u16| k < 16 ==> ((a & (1u16 << k)) != 0) == ((b & (1u16 << k)) != 0);
    }
}
impl Bits for u32 {
    open spec fn wid() -> nat { 32 }
    open spec fn mem(self, i: nat) -> bool { i < 32 && (self & (1u32 << (i as u32))) != 0 }
    fn zero() -> (r: Self) {
        assert(forall|k: u32| (0u32 & (1u32 << k)) == 0) by (bit_vector);
        0 }
    proof fn ops(a: Self, b: Self) {}
    proof fn mems(a: Self, b: Self, i: nat) {
        let k = i as u32;
        assert(((a | b) & (1u32 << k) != 0) == ((a & (1u32 << k)) != 0 || (b & (1u32 << k)) != 0)) by (bit_vector);
        assert(((a & b) & (1u32 << k) != 0) == ((a & (1u32 << k)) != 0 && (b & (1u32 << k)) != 0)) by (bit_vector) requires k < 32;
        assert(((!a) & (1u32 << k) != 0) == !((a & (1u32 << k)) != 0)) by (bit_vector) requires k < 32;
    }
    proof fn ext(a: Self, b: Self) {
        assert forall|k: u32| k < 32 implies ((a & (1u32 << k)) != 0) == ((b & (1u32 << k)) != 0) by {
            assert(a.mem(k as nat) == b.mem(k as nat));
        };
        assert(a == b) by (bit_vector) requires forall|k: u32| k < 32 ==> ((a & (1u32 << k)) != 0) == ((b & (1u32 << k)) != 0);
    }
}
impl Bits for u64 {
    open spec fn wid() -> nat { 64 }
    open spec fn mem(self, i: nat) -> bool { i < 64 && (self & (1u64 << (i as u64))) != 0 }
    fn zero() -> (r: Self) {
        assert(forall|k: u64| (0u64 & (1u64 << k)) == 0) by (bit_vector);
        0 }
    proof fn ops(a: Self, b: Self) {}
    proof fn mems(a: Self, b: Self, i: nat) {
        let k = i as u64;
        assert(((a | b) & (1u64 << k) != 0) == ((a & (1u64 << k)) != 0 || (b & (1u64 << k)) != 0)) by (bit_vector);
        assert(((a & b) & (1u64 << k) != 0) == ((a & (1u64 << k)) != 0 && (b & (1u64 << k)) != 0)) by (bit_vector) requires k < 64;
        assert(((!a) & (1u64 << k) != 0) == !((a & (1u64 << k)) != 0)) by (bit_vector) requires k < 64;
    }
    proof fn ext(a: Self, b: Self) {
        assert forall|k: u64| k < 64 implies ((a & (1u64 << k)) != 0) == ((b & (1u64 << k)) != 0) by {
            assert(a.mem(k as nat) == b.mem(k as nat));
        };
        assert(a == b) by (bit_vector) requires forall|k: u64| k < 64 ==> ((a & (1u64 << k)) != 0) == ((b & (1u64 << k)) != 0);
    }
}
impl Bits for u128 {
    open spec fn wid() -> nat { 128 }
    open spec fn mem(self, i: nat) -> bool { i < 128 && (self & (1u128 << (i as u128))) != 0 }
    fn zero() -> (r: Self) {
        assert(forall|k: u128| (0u128 & (1u128 << k)) == 0) by (bit_vector);
        0 }
    proof fn ops(a: Self, b: Self) {}
    proof fn mems(a: Self, b: Self, i: nat) {
        let k = i as u128;
        assert(((a | b) & (1u128 << k) != 0) == ((a & (1u128 << k)) != 0 || (b & (1u128 << k)) != 0)) by (bit_vector);
        assert(((a & b) & (1u128 << k) != 0) == ((a & (1u128 << k)) != 0 && (b & (1u128 << k)) != 0)) by (bit_vector) requires k < 128;
        assert(((!a) & (1u128 << k) != 0) == !((a & (1u128 << k)) != 0)) by (bit_vector) requires k < 128;
    }
    proof fn ext(a: Self, b: Self) {
        assert forall|k: u128| k < 128 implies ((a & (1u128 << k)) != 0) == ((b & (1u128 << k)) != 0) by {
            assert(a.mem(k as nat) == b.mem(k as nat));
        };
        assert(a == b) by (bit_vector) requires forall|k: u128| k < 128 ==> ((a & (1u128 << k)) != 0) == ((b & (1u128 << k)) != 0);
    }
}

pub broadcast proof fn bits_or<B: Bits>(a: B, b: B, i: nat)
    ensures i < B::wid() ==> (#[trigger] a.bitor_spec(b).mem(i)) == (a.mem(i) || b.mem(i))
{ if i < B::wid() { B::mems(a, b, i); } }
pub broadcast proof fn bits_and<B: Bits>(a: B, b: B, i: nat)
    ensures i < B::wid() ==> (#[trigger] a.bitand_spec(b).mem(i)) == (a.mem(i) && b.mem(i))
{ if i < B::wid() { B::mems(a, b, i); } }
pub broadcast proof fn bits_not<B: Bits>(a: B, i: nat)
    ensures i < B::wid() ==> (#[trigger] a.not_spec().mem(i)) == !a.mem(i)
{ if i < B::wid() { B::mems(a, a, i); } }
pub broadcast proof fn bits_or_ok<B: Bits>(a: B, b: B)
    ensures #[trigger] a.bitor_req(b) { B::ops(a, b); }
pub broadcast proof fn bits_and_ok<B: Bits>(a: B, b: B)
    ensures #[trigger] a.bitand_req(b) { B::ops(a, b); }
pub broadcast proof fn bits_not_ok<B: Bits>(a: B)
    ensures #[trigger] a.not_req() { B::ops(a, a); }
pub broadcast proof fn bits_eq<B: Bits>(a: B, b: B)
    ensures (#[trigger] a.eq_spec(&b)) == (a == b),
        (a == b) == (forall|i: nat| i < B::wid() ==> #[trigger] a.mem(i) == #[trigger] b.mem(i)),
{
    B::ops(a, b);
    if forall|i: nat| i < B::wid() ==> #[trigger] a.mem(i) == #[trigger] b.mem(i) { B::ext(a, b); }
}
pub broadcast proof fn bits_or_obeys<B: Bits>() ensures #[trigger] <B as BitOrSpec<B>>::obeys_bitor_spec() { let z = arbitrary(); B::ops(z, z); }
pub broadcast proof fn bits_and_obeys<B: Bits>() ensures #[trigger] <B as BitAndSpec<B>>::obeys_bitand_spec() { let z = arbitrary(); B::ops(z, z); }
pub broadcast proof fn bits_not_obeys<B: Bits>() ensures #[trigger] <B as NotSpec>::obeys_not_spec() { let z = arbitrary(); B::ops(z, z); }
pub broadcast proof fn bits_eq_obeys<B: Bits>() ensures #[trigger] B::obeys_eq_spec() { let z = arbitrary(); B::ops(z, z); }
pub broadcast group bits_laws { bits_or_obeys, bits_and_obeys, bits_not_obeys, bits_eq_obeys,  bits_or, bits_and, bits_not, bits_or_ok, bits_and_ok, bits_not_ok, bits_eq }
// a one shifted to place k is the bit k and no other
pub proof fn single_u8(n: usize)
    requires n < 8
    ensures forall|i: nat| i < 8 ==> #[trigger] (1u8 << n).mem(i) == (i == n), (1i32 << n) as u8 == 1u8 << n,
{
    assert((1i32 << n) as u8 == 1u8 << n) by (bit_vector) requires n < 8;
    assert forall|i: nat| i < 8 implies #[trigger] (1u8 << n).mem(i) == (i == n) by {
        let k = i as u8;
        let m = n as u8;
        assert(((1u8 << n) & (1u8 << k) != 0) == (k == m)) by (bit_vector) requires k < 8, n < 8, m == n as u8;
    };
}
pub proof fn single_u16(n: usize)
    requires n < 16
    ensures forall|i: nat| i < 16 ==> #[trigger] (1u16 << n).mem(i) == (i == n), (1i32 << n) as u16 == 1u16 << n,
{
    assert((1i32 << n) as u16 == 1u16 << n) by (bit_vector) requires n < 16;
    assert forall|i: nat| i < 16 implies #[trigger] (1u16 << n).mem(i) == (i == n) by {
        let k = i as u16;
        let m = n as u16;
        assert(((1u16 << n) & (1u16 << k) != 0) == (k == m)) by (bit_vector) requires k < 16, n < 16, m == n as u16;
    };
}
pub proof fn single_u32(n: usize)
    requires n < 32
    ensures forall|i: nat| i < 32 ==> #[trigger] (1u32 << n).mem(i) == (i == n), (1i32 << n) as u32 == 1u32 << n,
{
    assert((1i32 << n) as u32 == 1u32 << n) by (bit_vector) requires n < 32;
    assert forall|i: nat| i < 32 implies #[trigger] (1u32 << n).mem(i) == (i == n) by {
        let k = i as u32;
        let m = n as u32;
        assert(((1u32 << n) & (1u32 << k) != 0) == (k == m)) by (bit_vector) requires k < 32, n < 32, m == n as u32;
    };
}
pub proof fn single_u64(n: usize)
    requires n < 64
    ensures forall|i: nat| i < 64 ==> #[trigger] (1u64 << n).mem(i) == (i == n),
{
    assert forall|i: nat| i < 64 implies #[trigger] (1u64 << n).mem(i) == (i == n) by {
        let k = i as u64;
        let m = n as u64;
        assert(((1u64 << n) & (1u64 << k) != 0) == (k == m)) by (bit_vector) requires k < 64, n < 64, m == n as u64;
    };
}
pub proof fn single_u128(n: usize)
    requires n < 128
    ensures forall|i: nat| i < 128 ==> #[trigger] (1u128 << n).mem(i) == (i == n),
{
    assert forall|i: nat| i < 128 implies #[trigger] (1u128 << n).mem(i) == (i == n) by {
        let k = i as u128;
        let m = n as u128;
        assert(((1u128 << n) & (1u128 << k) != 0) == (k == m)) by (bit_vector) requires k < 128, n < 128, m == n as u128;
    };
}
} // mod shim_bits
