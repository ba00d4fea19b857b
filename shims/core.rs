// Trusted models of the standard library types the verified text uses, plus lemmas about them.
// Everything marked external_body / assume_specification / axiom here is an assumption of the
// proofs and is listed in the evidence of every check that uses this file.
pub mod shim {
use vstd::prelude::*;

// ------------------------------------------------------------------ small std functions
pub assume_specification<T>[ Option::<T>::or ](_0: Option<T>, _1: Option<T>) -> (r: Option<T>)
    ensures r == (if _0 is Some { _0 } else { _1 });
pub assume_specification<T: Copy>[ Option::<&T>::copied ](_0: Option<&T>) -> (r: Option<T>)
    ensures r == (match _0 { Some(x) => Some(*x), None => None });
pub assume_specification<T: Default>[ core::mem::take::<T> ](_0: &mut T) -> (r: T)
    ensures r == *old(_0), call_ensures(T::default, (), *final(_0));

pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](_0: Option<T>, _1: D, _2: F) -> (r: U)
    requires match _0 { Some(x) => _2.requires((x,)), None => _1.requires(()) },
    ensures match _0 { Some(x) => _2.ensures((x,), r), None => _1.ensures((), r) };
pub assume_specification<T: ?Sized, A: std::alloc::Allocator>[ <Box<T, A> as AsRef<T>>::as_ref ](_0: &Box<T, A>) -> (r: &T)
    ensures r == &**_0;
/// v.into_iter().next_back()
#[verifier::external_body]
pub fn vt_last_of<T>(v: Vec<T>) -> (r: Option<T>)
    ensures r == (if v@.len() > 0 { Some(v@.last()) } else { None }) { unimplemented!() }
/// Vec::extend with a Vec
pub trait VecExtend<T> { fn vt_extend(&mut self, o: Vec<T>); }
impl<T> VecExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vt_extend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
pub fn vt_bor(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
#[verifier::external_body]
pub fn vt_format() -> String { unimplemented!() }
#[verifier::external_body]
pub fn vt_panic() -> ! requires false { unimplemented!() }
pub broadcast axiom fn option_box_none<T>(o: Option<Box<T>>)
    ensures #[trigger] call_ensures(<Option<Box<T>> as Default>::default, (), o) ==> o is None;

/// std::str::FromStr: what a text is read as is up to the type
pub trait FromStr: Sized {
    type Err;
    spec fn reads(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::reads(s@, r);
}
/// std::iter::FromIterator: the value is built from the items of the iterator, taken once to its end
pub trait FromIterator<T>: Sized {
    spec fn built_of(&self, s: Seq<T>) -> bool;
    fn vt_from_items(v: Vec<T>) -> (r: Self) ensures r.built_of(v@);
}
// ------------------------------------------------------------------ keys of ordered collections
pub trait Key { type V; spec fn kv(&self) -> Self::V; }
impl<'a, K: Key + ?Sized> Key for &'a K { type V = K::V; open spec fn kv(&self) -> K::V { (**self).kv() } }
impl Key for str { type V = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl Key for String { type V = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }

#[verifier::external_body]
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct TypeId(u64);
/// every type has its own id
pub uninterp spec fn type_id<T: ?Sized>() -> TypeId;
impl TypeId {
    #[verifier::external_body]
    pub fn of<T: ?Sized>() -> (r: TypeId) ensures r == type_id::<T>() { unimplemented!() }
}
/// std::borrow::Cow, only ever a name for messages here
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cow<'a, T: ?Sized + 'a>(std::marker::PhantomData<&'a T>);
impl<'a> Cow<'a, str> {
    #[verifier::external_body]
    pub fn into_owned(self) -> String { unimplemented!() }
}
impl Key for TypeId { type V = TypeId; open spec fn kv(&self) -> TypeId { *self } }

#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct BTreeSet<K: Key>(std::marker::PhantomData<K>);
impl<K: Key> BTreeSet<K> {
    pub uninterp spec fn view(&self) -> Set<K::V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k.kv()), r == !old(self)@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: Key<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(k.kv()), r == old(self)@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: Key<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    pub fn vt_len(&self) -> (r: usize) ensures r == self@.len() { self.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K::V>::empty()), r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vt_iter<'a>(&'a self) -> (r: KIt<&'a K>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn intersection<'a>(&'a self, o: &'a Self) -> (r: KIt<&'a K>) ensures r@ == self@.intersect(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_disjoint<'a>(&'a self, o: &'a Self) -> (r: bool) ensures r == (self@.intersect(o@) == Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subset<'a>(&'a self, o: &'a Self) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<I: Key<V = K::V>>(&mut self, o: KIt<I>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    pub fn vt_extend<I: Key<V = K::V>>(&mut self, o: KIt<I>) ensures final(self)@ == old(self)@.union(o@) { self.extend(o) }
    #[verifier::external_body]
    pub fn retain<F: FnMut(&K) -> bool>(&mut self, f: F)
        requires forall|k: &K| #[trigger] old(self)@.contains(k.kv()) ==> f.requires((k,)),
        ensures forall|k: &K| #[trigger] old(self)@.contains(k.kv()) ==> f.ensures((k,), final(self)@.contains(k.kv())),
            final(self)@.subset_of(old(self)@),
    { unimplemented!() }
}
impl<K: Key + Clone> Clone for BTreeSet<K> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
impl<K: Key> Default for BTreeSet<K> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
}
pub broadcast axiom fn btreeset_default<K: Key>(s: BTreeSet<K>)
    ensures #[trigger] call_ensures(<BTreeSet<K> as Default>::default, (), s) ==> s@ == Set::<K::V>::empty();

// an iterator over keys, each once, in no specified order
#[verifier::external_body]
#[verifier::accept_recursive_types(I)]
pub struct KIt<I: Key>(std::marker::PhantomData<I>);
impl<I: Key> KIt<I> {
    pub uninterp spec fn view(&self) -> Set<I::V>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<I>)
        ensures match r {
            Some(k) => old(self)@.contains(k.kv()) && final(self)@ == old(self)@.remove(k.kv()),
            None => old(self)@ == Set::<I::V>::empty() && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vt_has_next(&self) -> (r: bool) ensures r == (self@ != Set::<I::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vt_next(&mut self) -> (r: I)
        requires old(self)@ != Set::<I::V>::empty(),
        ensures old(self)@.contains(r.kv()), final(self)@ == old(self)@.remove(r.kv()),
    { unimplemented!() }
    pub fn vt_into(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn collect<B: FromKIt<I>>(self) -> (r: B) ensures r.from_keys(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(self, sep: &str) -> (r: String) { unimplemented!() }
}
impl<'a, K: Key> KIt<&'a K> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: KIt<K>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: KIt<K>) ensures r@ == self@ { unimplemented!() }
}
pub trait FromKIt<I: Key>: Sized { spec fn from_keys(&self, s: Set<I::V>) -> bool; }
impl<K: Key> FromKIt<K> for BTreeSet<K> { open spec fn from_keys(&self, s: Set<K::V>) -> bool { self@ == s } }

pub trait IntoIterator: Sized {
    type Item: Key;
    spec fn vt_elems(&self) -> Set<<Self::Item as Key>::V>;
    fn into_iter(self) -> (r: KIt<Self::Item>) ensures r@ == self.vt_elems();
}
impl<I: Key> IntoIterator for KIt<I> {
    type Item = I;
    open spec fn vt_elems(&self) -> Set<I::V> { self@ }
    fn into_iter(self) -> KIt<I> { self }
}
impl<K: Key> IntoIterator for BTreeSet<K> {
    type Item = K;
    open spec fn vt_elems(&self) -> Set<K::V> { self@ }
    #[verifier::external_body]
    fn into_iter(self) -> KIt<K> { unimplemented!() }
}
impl<K: Key> IntoIterator for [K; 1] {
    type Item = K;
    open spec fn vt_elems(&self) -> Set<K::V> { Set::empty().insert(self[0].kv()) }
    #[verifier::external_body]
    fn into_iter(self) -> KIt<K> { unimplemented!() }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(T)]
pub struct BTreeMap<K: Key, T>(std::marker::PhantomData<K>, std::marker::PhantomData<T>);
impl<K: Key, T> BTreeMap<K, T> {
    pub uninterp spec fn view(&self) -> vstd::map::Map<K::V, T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == vstd::map::Map::<K::V, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: Key<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&T>)
        ensures match r { Some(v) => self@.dom().contains(k.kv()) && *v == self@[k.kv()], None => !self@.dom().contains(k.kv()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: Key<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: T) -> (r: Option<T>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v),
            r == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: Key<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<T>)
        ensures final(self)@ == old(self)@.remove(k.kv()),
            r == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()]) } else { None }) { unimplemented!() }
    // X.entry(k).or_default()
    #[verifier::external_body]
    pub fn vt_entry_or_default(&mut self, k: K) -> (r: &mut T) where T: Default
        ensures old(self)@.dom().contains(k.kv()) ==> *r == old(self)@[k.kv()],
            !old(self)@.dom().contains(k.kv()) ==> call_ensures(T::default, (), *r),
            final(self)@ == old(self)@.insert(k.kv(), *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vt_into<'a>(&'a self) -> (r: MIt<'a, K, T>) ensures r.m() == self@, r.left() == self@.dom() { unimplemented!() }
    #[verifier::external_body]
    pub fn vt_iter<'a>(&'a self) -> (r: MIt<'a, K, T>) ensures r.m() == self@, r.left() == self@.dom() { unimplemented!() }
}
impl<K: Key, T> Default for BTreeMap<K, T> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == vstd::map::Map::<K::V, T>::empty() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(T)]
pub struct MIt<'a, K: Key, T>(std::marker::PhantomData<&'a K>, std::marker::PhantomData<&'a T>);
impl<'a, K: Key, T> MIt<'a, K, T> {
    pub uninterp spec fn m(&self) -> vstd::map::Map<K::V, T>;
    // keys not yet visited
    pub uninterp spec fn left(&self) -> Set<K::V>;
    pub fn vt_into(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn vt_has_next(&self) -> (r: bool) ensures r == (self.left() != Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vt_next(&mut self) -> (r: (&'a K, &'a T))
        requires old(self).left() != Set::<K::V>::empty(),
        ensures old(self).left().contains(r.0.kv()), final(self).left() == old(self).left().remove(r.0.kv()),
            final(self).m() == old(self).m(), old(self).m().dom().contains(r.0.kv()) ==> *r.1 == old(self).m()[r.0.kv()],
    { unimplemented!() }
}

// ------------------------------------------------------------------ slices (verified, not trusted)
pub struct SliceIt<'a, T> { pub s: &'a [T], pub i: usize }
pub struct RevIt<'a, T> { pub s: &'a [T], pub i: usize }
pub struct EnumIt<'a, T> { pub s: &'a [T], pub i: usize }
pub struct AnyIt<T> { pub v: Vec<T> }
impl<T> AnyIt<T> {
    #[verifier::external_body]
    pub fn collect<B>(self) -> (r: B) { unimplemented!() }
}
impl<'a, T> SliceIt<'a, T> {
    pub fn vt_into(self) -> (r: Self) ensures r == self { self }
    pub fn vt_iter(self) -> (r: Self) ensures r == self { self }
    pub fn vt_has_next(&self) -> (r: bool) ensures r == (self.i < self.s@.len()) { self.i < self.s.len() }
    pub fn vt_next(&mut self) -> (r: &'a T)
        requires old(self).i < old(self).s@.len(),
        ensures final(self).s == old(self).s, final(self).i == old(self).i + 1, *r == old(self).s@[old(self).i as int],
    { let i = self.i; let n = self.s.len(); self.i = i + 1; &self.s[i] }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).s == old(self).s,
            match r { Some(x) => old(self).i < old(self).s@.len() && final(self).i == old(self).i + 1 && *x == old(self).s@[old(self).i as int],
                None => old(self).i >= old(self).s@.len() && final(self).i == old(self).i },
    { if self.i < self.s.len() { let i = self.i; self.i = i + 1; Some(&self.s[i]) } else { None } }
    pub fn rev(self) -> (r: RevIt<'a, T>) requires self.i == 0 ensures r.s == self.s, r.i == self.s@.len() { RevIt { s: self.s, i: self.s.len() } }
    pub fn enumerate(self) -> (r: EnumIt<'a, T>) requires self.i == 0 ensures r.s == self.s, r.i == 0 { EnumIt { s: self.s, i: 0 } }
    pub fn skip(self, n: usize) -> (r: SliceIt<'a, T>) requires self.i == 0 ensures r.s == self.s, r.i == n { SliceIt { s: self.s, i: n } }
    #[verifier::external_body]
    pub fn map<B, F: Fn(&'a T) -> B>(self, f: F) -> (r: AnyIt<B>)
        requires forall|x: &'a T| #[trigger] self.s@.contains(*x) ==> f.requires((x,))
    { unimplemented!() }
}
impl<'a, T> RevIt<'a, T> {
    pub fn vt_into(self) -> (r: Self) ensures r == self { self }
    pub fn vt_has_next(&self) -> (r: bool) ensures r == (self.i > 0) { self.i > 0 }
    pub fn vt_next(&mut self) -> (r: &'a T)
        requires 0 < old(self).i <= old(self).s@.len(),
        ensures final(self).s == old(self).s, final(self).i == old(self).i - 1, *r == old(self).s@[final(self).i as int],
    { self.i = self.i - 1; let i = self.i; &self.s[i] }
}
impl<'a, T> EnumIt<'a, T> {
    pub fn vt_into(self) -> (r: Self) ensures r == self { self }
    pub fn vt_has_next(&self) -> (r: bool) ensures r == (self.i < self.s@.len()) { self.i < self.s.len() }
    pub fn vt_next(&mut self) -> (r: (usize, &'a T))
        requires old(self).i < old(self).s@.len(),
        ensures final(self).s == old(self).s, final(self).i == old(self).i + 1, r.0 == old(self).i, *r.1 == old(self).s@[old(self).i as int],
    { let i = self.i; let n = self.s.len(); self.i = i + 1; (i, &self.s[i]) }
}
// what `map` of a pure closure yields, in order
pub struct SeqIt<T> { pub v: Vec<T>, pub i: usize }
impl<'a, T> EnumIt<'a, T> {
    #[verifier::external_body]
    pub fn map<B, F: Fn((usize, &'a T)) -> B>(self, f: F) -> (r: SeqIt<B>)
        requires self.i == 0, forall|i: usize, x: &'a T| i < self.s@.len() && *x == self.s@[i as int] ==> #[trigger] f.requires(((i, x),)),
        ensures r.i == 0, r.v@.len() == self.s@.len(),
            forall|i: usize| i < self.s@.len() ==> f.ensures(((i, &#[trigger] self.s@[i as int]),), r.v@[i as int]),
    { unimplemented!() }
}
pub trait SliceLike<T> {
    spec fn sl(&self) -> Seq<T>;
    fn vt_iter(&self) -> (r: SliceIt<'_, T>) ensures r.i == 0, r.s@ == self.sl();
    fn vt_into(&self) -> (r: SliceIt<'_, T>) ensures r.i == 0, r.s@ == self.sl();
    fn vt_to_vec(&self) -> (r: Vec<T>) where T: Copy ensures r@ == self.sl();
}
impl<T> SliceLike<T> for [T] {
    open spec fn sl(&self) -> Seq<T> { self@ }
    fn vt_iter(&self) -> (r: SliceIt<'_, T>) { SliceIt { s: self, i: 0 } }
    fn vt_into(&self) -> (r: SliceIt<'_, T>) { SliceIt { s: self, i: 0 } }
    #[verifier::external_body]
    fn vt_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
impl<T> SliceLike<T> for Vec<T> {
    open spec fn sl(&self) -> Seq<T> { self@ }
    fn vt_iter(&self) -> (r: SliceIt<'_, T>) { SliceIt { s: self.as_slice(), i: 0 } }
    fn vt_into(&self) -> (r: SliceIt<'_, T>) { SliceIt { s: self.as_slice(), i: 0 } }
    #[verifier::external_body]
    fn vt_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
pub trait VecLike<T> {
    spec fn vl(&self) -> Seq<T>;
    fn vt_len(&self) -> (r: usize) ensures r == self.vl().len();
    fn vt_at_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self).vl().len(),
        ensures *r == old(self).vl()[i as int], final(self).vl() == old(self).vl().update(i as int, *final(r));
}
impl<T> VecLike<T> for [T] {
    open spec fn vl(&self) -> Seq<T> { self@ }
    fn vt_len(&self) -> (r: usize) { self.len() }
    fn vt_at_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}
impl<T> VecLike<T> for Vec<T> {
    open spec fn vl(&self) -> Seq<T> { self@ }
    fn vt_len(&self) -> (r: usize) { self.len() }
    fn vt_at_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}

#[verifier::external_body]
pub fn vt_array_from_fn<T, F: Fn(usize) -> T, const N: usize>(f: F) -> (r: [T; N])
    requires forall|i: usize| i < N ==> #[trigger] f.requires((i,)),
    ensures forall|i: usize| i < N ==> f.ensures((i,), #[trigger] r@[i as int]),
{ unimplemented!() }

// &x[a..b] and &mut x[a..b]
pub trait SubLike {
    spec fn sub_ok(&self, a: usize, b: usize) -> bool;
    spec fn sub_is(&self, a: usize, b: usize, r: &Self) -> bool;
    fn vt_sub(&self, a: usize, b: usize) -> (r: &Self) requires self.sub_ok(a, b), ensures self.sub_is(a, b, r);
}
impl<T> SubLike for [T] {
    open spec fn sub_ok(&self, a: usize, b: usize) -> bool { a <= b <= self@.len() }
    open spec fn sub_is(&self, a: usize, b: usize, r: &Self) -> bool { r@ == self@.subrange(a as int, b as int) }
    fn vt_sub(&self, a: usize, b: usize) -> (r: &Self) { vstd::slice::slice_subrange(self, a, b) }
}
// the parts of a str at byte offsets
pub open spec fn bytes(s: &str) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
pub open spec fn on_char(s: &str, i: int) -> bool { vstd::utf8::is_char_boundary(bytes(s), i) }
pub trait StrLike { spec fn by(&self) -> Seq<u8>; fn vt_len(&self) -> (r: usize) ensures r == self.by().len(); }
impl StrLike for str {
    open spec fn by(&self) -> Seq<u8> { bytes(self) }
    #[verifier::external_body]
    fn vt_len(&self) -> (r: usize) { self.len() }
}
impl SubLike for str {
    // slicing a str panics exactly when this does not hold
    open spec fn sub_ok(&self, a: usize, b: usize) -> bool { a <= b <= bytes(self).len() && on_char(self, a as int) && on_char(self, b as int) }
    open spec fn sub_is(&self, a: usize, b: usize, r: &Self) -> bool { bytes(r) == bytes(self).subrange(a as int, b as int) }
    #[verifier::external_body]
    fn vt_sub(&self, a: usize, b: usize) -> (r: &Self) { &self[a..b] }
}
#[verifier::external_body]
pub fn vt_sub_mut<T>(s: &mut [T], a: usize, b: usize) -> (r: &mut [T])
    requires a <= b <= old(s)@.len(),
    ensures r@ == old(s)@.subrange(a as int, b as int), final(r)@.len() == b - a,
        final(s)@ == old(s)@.subrange(0, a as int) + final(r)@ + old(s)@.subrange(b as int, old(s)@.len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vt_empty<'a, T>() -> (r: &'a [T]) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vt_empty_mut<'a, T>() -> (r: &'a mut [T]) ensures r@ == Seq::<T>::empty(), final(r)@ == Seq::<T>::empty() { unimplemented!() }
pub trait BinSearch<T> {
    spec fn bs(&self) -> Seq<T>;
    // the documented contract of slice::binary_search_by
    fn vt_binary_search_by<F: Fn(&T) -> std::cmp::Ordering>(&self, f: F) -> (r: Result<usize, usize>)
        requires
            forall|x: &T| #[trigger] f.requires((x,)),
            forall|x: &T, o: std::cmp::Ordering, p: std::cmp::Ordering| #[trigger] f.ensures((x,), o) && #[trigger] f.ensures((x,), p) ==> o == p,
            forall|i: int, j: int, o: std::cmp::Ordering, p: std::cmp::Ordering| 0 <= i < j < self.bs().len()
                && #[trigger] f.ensures((&self.bs()[i],), o) && #[trigger] f.ensures((&self.bs()[j],), p)
                ==> (o is Greater ==> p is Greater) && (p is Less ==> o is Less),
        ensures self.bs().len() <= usize::MAX, match r {
            Ok(i) => i < self.bs().len() && f.ensures((&self.bs()[i as int],), std::cmp::Ordering::Equal),
            Err(i) => i <= self.bs().len()
                && (forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] self.bs()[k],), std::cmp::Ordering::Less))
                && (forall|k: int| i <= k < self.bs().len() ==> f.ensures((&#[trigger] self.bs()[k],), std::cmp::Ordering::Greater)),
        };
}
impl<T> BinSearch<T> for [T] {
    open spec fn bs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vt_binary_search_by<F: Fn(&T) -> std::cmp::Ordering>(&self, f: F) -> (r: Result<usize, usize>) { unimplemented!() }
}

// ------------------------------------------------------------------ finite sets of strings are not the universe
pub proof fn bound(s: Set<Seq<char>>) -> (b: nat)
    ensures forall|x: Seq<char>| s.contains(x) ==> x.len() < b
    decreases s.len()
{
    if s.is_empty() { 0 } else {
        let x = s.choose();
        let b = bound(s.remove(x));
        assert forall|y: Seq<char>| s.contains(y) implies y.len() < b + x.len() + 1 by {
            if y != x { assert(s.remove(x).contains(y)); }
        };
        b + x.len() + 1
    }
}
pub broadcast proof fn fin_not_full(s: Set<Seq<char>>)
    ensures #[trigger] s.to_iset() != ISet::<Seq<char>>::full()
{
    let b = bound(s);
    let x = Seq::new(b, |i: int| 'a');
    assert(!s.contains(x));
    assert(!s.to_iset().contains(x));
}
pub broadcast group shim_axioms { fin_not_full, btreeset_default, option_box_none }
} // mod shim
