# C02: FOLLOW sets are the least solution of the textbook equations
#mod syntax::follow
use crate::syntax::term_set::*;
use crate::syntax::first::{Tab, below, nul, all_nul};
pub open spec fn ftab<L: Lexicon>(m: vstd::map::Map<TypeId, FollowSet<L>>) -> Tab<L> {
    |t: TypeId| if m.dom().contains(t) { m[t]@ } else { ISet::empty() }
}
impl<L: Lexicon> Follow<L> {
    pub open spec fn at(&self) -> Tab<L> {
        |t: TypeId| if self.map@.dom().contains(t) { self.map@[t]@ } else { self.empty@ }
    }
}
/// every symbol strictly between i and n can be empty
pub open spec fn nul_in<L: Lexicon>(p: Tab<L>, ys: Seq<TypeId>, i: int, n: int) -> bool { forall|j: int| i < j < n ==> nul(p, #[trigger] ys[j]) }
/// textbook FOLLOW equations of a sequence x -> ys: what follows x follows a symbol whose successors can all be
/// empty; and what can start a symbol follows an earlier one when everything in between can be empty
pub open spec fn follow_seq<L: Lexicon>(p: Tab<L>, g: Tab<L>, x: TypeId, ys: Seq<TypeId>) -> bool {
    &&& forall|i: int| 0 <= i < ys.len() && nul_in(p, ys, i, ys.len() as int) ==> g(x).subset_of(g(#[trigger] ys[i]))
    &&& forall|i: int, j: int| 0 <= i < j < ys.len() && nul_in(p, ys, i, j) ==> no_e(p(#[trigger] ys[j])).subset_of(g(#[trigger] ys[i]))
}
pub open spec fn follow_union<L: Lexicon>(g: Tab<L>, x: TypeId, ys: Seq<TypeId>) -> bool {
    forall|i: int| 0 <= i < ys.len() ==> g(x).subset_of(g(#[trigger] ys[i]))
}
#fn syntax::follow::Follow::new
ensures forall|t: TypeId| #[trigger] r.at()(t) == ftab(map@)(t),
#fn syntax::follow::Follow::get
ensures r@ == self.at()(*t),

#mod syntax::follow::builder
use crate::syntax::term_set::*;
use crate::syntax::first::{Tab, below, nul, all_nul};
use crate::syntax::follow::{ftab, nul_in, follow_seq, follow_union};
broadcast use crate::shim::shim_axioms;
pub open spec fn fholds<L: Lexicon>(p: Tab<L>, g: Tab<L>, r: FollowRel) -> bool
    decreases r
{
    match r {
        FollowRel::UnionFirstMinusEpsilon(a, b) => no_e(p(b)).subset_of(g(a)),
        FollowRel::UnionFollow(a, b) => g(b).subset_of(g(a)),
        FollowRel::IfEpsilonInAllFirst(s, inner) => all_nul(p, s@) ==> match inner {
            Some(b) => fholds(p, g, *b),
            None => true,
        },
    }
}
pub open spec fn fall_hold<L: Lexicon>(p: Tab<L>, g: Tab<L>, s: Seq<FollowRel>) -> bool { forall|i: int| 0 <= i < s.len() ==> fholds(p, g, #[trigger] s[i]) }
pub open spec fn fok<L: Lexicon>(p: Tab<L>, g: Tab<L>, s: Seq<FollowRel>, root: TypeId) -> bool { fall_hold(p, g, s) && g(root).contains(None) }
pub open spec fn fleast<L: Lexicon>(p: Tab<L>, f: Tab<L>, s: Seq<FollowRel>, root: TypeId) -> bool {
    &&& fok(p, f, s, root)
    &&& forall|g: Tab<L>| #[trigger] fok(p, g, s, root) ==> below(f, g)
}
pub proof fn lemma_fall_push<L: Lexicon>(p: Tab<L>, s: Seq<FollowRel>, x: FollowRel)
    ensures forall|g: Tab<L>| #[trigger] fall_hold(p, g, s.push(x)) <==> fall_hold(p, g, s) && fholds(p, g, x)
{
    assert forall|g: Tab<L>| #[trigger] fall_hold(p, g, s.push(x)) implies fall_hold(p, g, s) && fholds(p, g, x) by {
        assert forall|i: int| 0 <= i < s.len() implies fholds(p, g, #[trigger] s[i]) by { assert(s.push(x)[i] == s[i]); }
        assert(s.push(x)[s.len() as int] == x);
    }
}
impl<'a, L: Lexicon> FollowBuilder<'a, L> {
    pub open spec fn all(&self, g: Tab<L>) -> bool { fall_hold(self.first.at(), g, self.rels@) }
}
#fn syntax::follow::builder::FollowBuilder::new
ensures r.first == first, forall|g: Tab<L>| #[trigger] r.all(g),
#fn syntax::follow::builder::FollowBuilder::add
ensures final(self).first == old(self).first,
    forall|g: Tab<L>| #[trigger] final(self).all(g) <==> old(self).all(g) && fholds(old(self).first.at(), g, expr),
#pre
proof { lemma_fall_push(self.first.at(), self.rels@, expr); }
#fn syntax::follow::builder::FollowBuilder::build_union
ensures final(self).first == old(self).first,
    forall|g: Tab<L>| #[trigger] final(self).all(g) <==> old(self).all(g) && follow_union(g, x, variants@),
#loop 0
    invariant vt_it0.s@ == variants@, vt_it0.i <= variants@.len(), self.first == old(self).first,
        forall|g: Tab<L>| #[trigger] self.all(g) <==> old(self).all(g) && follow_union(g, x, variants@.take(vt_it0.i as int)),
    decreases variants@.len() - vt_it0.i
#loopend 0
    proof { lemma_funion_take::<L>(x, variants@, vt_it0.i as int); }
#post
proof { assert(variants@.take(variants@.len() as int) =~= variants@); }
#mod syntax::follow::builder
pub proof fn lemma_funion_take<L: Lexicon>(x: TypeId, ys: Seq<TypeId>, n: int)
    requires 0 < n <= ys.len(),
    ensures forall|g: Tab<L>| #[trigger] follow_union(g, x, ys.take(n)) <==> follow_union(g, x, ys.take(n - 1)) && g(x).subset_of(g(ys[n - 1])),
{
    let a = ys.take(n);
    let b = ys.take(n - 1);
    assert forall|g: Tab<L>| #[trigger] follow_union(g, x, a) <==> follow_union(g, x, b) && g(x).subset_of(g(ys[n - 1])) by {
        if follow_union(g, x, a) {
            assert forall|i: int| 0 <= i < b.len() implies g(x).subset_of(g(#[trigger] b[i])) by { assert(b[i] == a[i]); }
            assert(a[n - 1] == ys[n - 1]);
        }
        if follow_union(g, x, b) && g(x).subset_of(g(ys[n - 1])) {
            assert forall|i: int| 0 <= i < a.len() implies g(x).subset_of(g(#[trigger] a[i])) by { if i < n - 1 { assert(b[i] == a[i]); } }
        }
    }
}
/// the equations for the symbols from position k on, of the first kind
pub open spec fn tail_from<L: Lexicon>(p: Tab<L>, g: Tab<L>, x: TypeId, ys: Seq<TypeId>, k: int) -> bool {
    forall|i: int| k <= i < ys.len() && nul_in(p, ys, i, ys.len() as int) ==> g(x).subset_of(g(#[trigger] ys[i]))
}
/// the equations of the second kind for the pairs (a, b) with a < n, or a == n and b < m
pub open spec fn pairs_to<L: Lexicon>(p: Tab<L>, g: Tab<L>, ys: Seq<TypeId>, n: int, m: int) -> bool {
    forall|i: int, j: int| 0 <= i < j < ys.len() && (i < n || (i == n && j < m)) && nul_in(p, ys, i, j) ==> no_e(p(#[trigger] ys[j])).subset_of(g(#[trigger] ys[i]))
}
/// s holds exactly the symbols strictly between i and n
pub open spec fn between(ys: Seq<TypeId>, s: Set<TypeId>, i: int, n: int) -> bool {
    forall|t: TypeId| #[trigger] s.contains(t) <==> exists|j: int| i < j < n && ys[j] == t
}
pub proof fn lemma_between<L: Lexicon>(p: Tab<L>, ys: Seq<TypeId>, s: Set<TypeId>, i: int, n: int)
    requires -1 <= i < n <= ys.len(), between(ys, s, i, n)
    ensures all_nul(p, s) <==> nul_in(p, ys, i, n)
{
    if all_nul(p, s) {
        assert forall|j: int| i < j < n implies nul(p, #[trigger] ys[j]) by { assert(s.contains(ys[j])); }
    }
}
pub proof fn lemma_between_ins(ys: Seq<TypeId>, s: Set<TypeId>, i: int, n: int, k: int)
    requires -1 <= i < n <= ys.len(), between(ys, s, i, n), (k == n && n < ys.len()) || (k == i && i >= 0)
    ensures k == n ==> between(ys, s.insert(ys[k]), i, n + 1), k == i ==> between(ys, s.insert(ys[k]), i - 1, n)
{
    let s2 = s.insert(ys[k]);
    let (i2, n2) = if k == n { (i, n + 1) } else { (i - 1, n) };
    assert forall|t: TypeId| #[trigger] s2.contains(t) <==> exists|j: int| i2 < j < n2 && ys[j] == t by {
        if s2.contains(t) {
            if s.contains(t) { let j = choose|j: int| i < j < n && ys[j] == t; assert(i2 < j < n2 && ys[j] == t); }
            else { assert(i2 < k < n2 && ys[k] == t); }
        }
        if exists|j: int| i2 < j < n2 && ys[j] == t {
            let j = choose|j: int| i2 < j < n2 && ys[j] == t;
            if j != k { assert(i < j < n && ys[j] == t); }
        }
    }
}
#fn syntax::follow::builder::FollowBuilder::build_sequence
ensures final(self).first == old(self).first,
    forall|g: Tab<L>| #[trigger] final(self).all(g) <==> old(self).all(g) && follow_seq(old(self).first.at(), g, x, sequence@),
#pre
let ghost p = self.first.at();
#loop 0
    invariant vt_it0.s@ == sequence@, vt_it0.i <= sequence@.len(), self.first == old(self).first, p == self.first.at(),
        between(sequence@, set@, vt_it0.i - 1, sequence@.len() as int),
        forall|g: Tab<L>| #[trigger] self.all(g) <==> old(self).all(g) && tail_from(p, g, x, sequence@, vt_it0.i as int),
    decreases vt_it0.i
#loopstart 0
    proof {
        let k = vt_it0.i - 1;
        let n = sequence@.len() as int;
        lemma_between(p, sequence@, set@, k, n);
        lemma_between_ins(sequence@, set@, k, n, k);
        assert forall|g: Tab<L>| #[trigger] tail_from(p, g, x, sequence@, k) <==> tail_from(p, g, x, sequence@, k + 1)
            && (nul_in(p, sequence@, k, n) ==> g(x).subset_of(g(sequence@[k]))) by {}
        assert forall|r: FollowRel, e: FollowRel| #[trigger] same_if(r, set@, e) implies (forall|g: Tab<L>| #[trigger] fholds(p, g, r) <==> (all_nul(p, set@) ==> fholds(p, g, e))) by { lemma_same_if(p, r, set@, e); }
    }
#loop 1
    invariant vt_it1.s@ == sequence@, vt_it1.i <= sequence@.len(), self.first == old(self).first, p == self.first.at(),
        forall|g: Tab<L>| #[trigger] self.all(g) <==> old(self).all(g) && tail_from(p, g, x, sequence@, 0) && pairs_to(p, g, sequence@, vt_it1.i as int, 0),
    decreases sequence@.len() - vt_it1.i
#loop 2
    invariant vt_it2.s@ == sequence@, i < vt_it2.i <= sequence@.len(), i < sequence@.len(), i + 1 == vt_it1.i, vt_it1.s@ == sequence@, *yi == sequence@[i as int], self.first == old(self).first, p == self.first.at(),
        between(sequence@, set@, i as int, vt_it2.i as int),
        forall|g: Tab<L>| #[trigger] self.all(g) <==> old(self).all(g) && tail_from(p, g, x, sequence@, 0) && pairs_to(p, g, sequence@, i as int, vt_it2.i as int),
    decreases sequence@.len() - vt_it2.i
#loopstart 2
    proof {
        let m = vt_it2.i as int;
        assert forall|r: FollowRel, e: FollowRel| #[trigger] same_if(r, set@, e) implies (forall|g: Tab<L>| #[trigger] fholds(p, g, r) <==> (all_nul(p, set@) ==> fholds(p, g, e))) by { lemma_same_if(p, r, set@, e); }
        lemma_between(p, sequence@, set@, i as int, m);
        lemma_between_ins(sequence@, set@, i as int, m, m);
        assert forall|g: Tab<L>| #[trigger] pairs_to(p, g, sequence@, i as int, m + 1) <==> pairs_to(p, g, sequence@, i as int, m)
            && (nul_in(p, sequence@, i as int, m) ==> no_e(p(sequence@[m])).subset_of(g(sequence@[i as int]))) by {}
    }
#loopbefore 2
    proof {
        assert(forall|g: Tab<L>| #[trigger] pairs_to(p, g, sequence@, i as int, i + 1) <==> pairs_to(p, g, sequence@, i as int, 0));
    }
#loopafter 2
    proof {
        assert(forall|g: Tab<L>| #[trigger] pairs_to(p, g, sequence@, i + 1, 0) <==> pairs_to(p, g, sequence@, i as int, sequence@.len() as int));
    }
#post
proof {
    assert(forall|g: Tab<L>| #[trigger] follow_seq(p, g, x, sequence@) <==> tail_from(p, g, x, sequence@, 0) && pairs_to(p, g, sequence@, sequence@.len() as int, 0));
}
#fn syntax::follow::builder::FollowBuilder::build
ensures fleast(self.first.at(), r.at(), self.rels@, root),
#attr #[verifier::exec_allows_no_decreases_clause]
#pre
let ghost s0 = self.rels@;
let ghost p = self.first.at();
#before let mut changed
proof { assert(ftab(map@)(root).contains(None));
    assert forall|g: Tab<L>| #[trigger] fok(p, g, s0, root) implies below(ftab(map@), g) by {
        assert forall|t: TypeId| (#[trigger] ftab(map@)(t)).subset_of(g(t)) by {}
    }
}
#loop 0
    invariant p == self.first.at(), vt_self.first == self.first, ftab(map@)(root).contains(None),
        forall|g: Tab<L>| #[trigger] fall_hold(p, g, s0) <==> fall_hold(p, g, vt_self.rels@),
        forall|g: Tab<L>| #[trigger] fok(p, g, s0, root) ==> below(ftab(map@), g),
        !changed ==> fall_hold(p, ftab(map@), vt_self.rels@),
#loopstart 0
    let ghost f0 = ftab(map@);
#loop 1
    invariant p == self.first.at(), vt_self.first == self.first, vt_i1 <= vt_self.rels@.len(), ftab(map@)(root).contains(None),
        forall|g: Tab<L>| #[trigger] fall_hold(p, g, s0) <==> fall_hold(p, g, vt_self.rels@),
        forall|g: Tab<L>| #[trigger] fok(p, g, s0, root) ==> below(ftab(map@), g),
        !changed ==> fall_hold(p, ftab(map@), vt_self.rels@.take(vt_i1 as int)),
    decreases vt_self.rels@.len() - vt_i1
#loopstart 1
    let ghost f1 = ftab(map@);
    let ghost i1 = vt_i1 as int;
    let ghost s1 = vt_self.rels@;
    let ghost chg1 = changed;
#loopend 1
    proof {
        assert(vt_self.rels@ =~= s1.update(i1, vt_self.rels@[i1]));
        assert forall|g: Tab<L>| #[trigger] fholds(p, g, s1[i1]) <==> fholds(p, g, vt_self.rels@[i1]) by {}
        lemma_frels_step::<L>(p, s1, i1, vt_self.rels@);
        assert(f1(root).subset_of(ftab(map@)(root)));
        assert forall|g: Tab<L>| #[trigger] fok(p, g, s0, root) implies below(ftab(map@), g) by {
            assert(below(f1, g));
            assert(fall_hold(p, g, s1));
            assert(fholds(p, g, s1[i1]));
        }
    }
#loopafter 1
    proof { assert(vt_self.rels@.take(vt_self.rels@.len() as int) =~= vt_self.rels@); }
#loopbefore 1
    proof { assert(vt_self.rels@.take(0) =~= Seq::<FollowRel>::empty()); }
#post
proof { assert(vt_ret.at() =~= ftab(map@)); assert(fok(p, vt_ret.at(), s0, root)); }
#mod syntax::follow::builder
pub proof fn lemma_frels_step<L: Lexicon>(p: Tab<L>, s: Seq<FollowRel>, i: int, s2: Seq<FollowRel>)
    requires 0 <= i < s.len(), s2.len() == s.len(), s2 == s.update(i, s2[i]),
        forall|g: Tab<L>| #[trigger] fholds(p, g, s[i]) <==> fholds(p, g, s2[i]),
    ensures
        forall|g: Tab<L>| #[trigger] fall_hold(p, g, s) <==> fall_hold(p, g, s2),
        forall|g: Tab<L>| fall_hold(p, g, s.take(i)) && fholds(p, g, s2[i]) ==> #[trigger] fall_hold(p, g, s2.take(i + 1)),
{
    assert forall|g: Tab<L>| #[trigger] fall_hold(p, g, s) <==> fall_hold(p, g, s2) by {
        assert(fholds(p, g, s[i]) <==> fholds(p, g, s2[i]));
        if fall_hold(p, g, s) {
            assert forall|k: int| 0 <= k < s2.len() implies fholds(p, g, #[trigger] s2[k]) by { if k != i { assert(s2[k] == s[k]); } else { assert(fholds(p, g, s[i])); } }
        }
        if fall_hold(p, g, s2) {
            assert forall|k: int| 0 <= k < s.len() implies fholds(p, g, #[trigger] s[k]) by { if k != i { assert(s2[k] == s[k]); } else { assert(fholds(p, g, s2[i])); } }
        }
    }
    assert forall|g: Tab<L>| fall_hold(p, g, s.take(i)) && fholds(p, g, s2[i]) implies #[trigger] fall_hold(p, g, s2.take(i + 1)) by {
        assert forall|k: int| 0 <= k < i + 1 implies fholds(p, g, #[trigger] s2.take(i + 1)[k]) by {
            if k < i { assert(s2[k] == s[k]); assert(s.take(i)[k] == s[k]); }
        }
    }
}
#fn syntax::follow::builder::FollowRel::union_first_minus_epsilon
ensures r == FollowRel::UnionFirstMinusEpsilon(a, b),
#fn syntax::follow::builder::FollowRel::union_follow
ensures r == FollowRel::UnionFollow(a, b),
#fn syntax::follow::builder::FollowRel::if_epsilon_in_all_first
ensures same_if(r, set@, expr),
#fn syntax::follow::builder::FollowRel::if_epsilon_in_all_first_iter
ensures same_if(r, set.vt_elems(), expr),
#mod syntax::follow::builder
/// r demands what `expr` demands, if every symbol of s can be empty
pub open spec fn same_if(r: FollowRel, s: Set<TypeId>, expr: FollowRel) -> bool {
    (s == Set::<TypeId>::empty() && r == expr) || match r { FollowRel::IfEpsilonInAllFirst(s2, Some(b)) => s2@ == s && *b == expr, _ => false }
}
pub proof fn lemma_same_if<L: Lexicon>(p: Tab<L>, r: FollowRel, s: Set<TypeId>, expr: FollowRel)
    requires same_if(r, s, expr)
    ensures forall|g: Tab<L>| #[trigger] fholds(p, g, r) <==> (all_nul(p, s) ==> fholds(p, g, expr))
{
    if s == Set::<TypeId>::empty() { assert(all_nul(p, s)); }
}
#fn syntax::follow::builder::FollowRel::process_rel
ensures
    below(ftab(old(follow)@), ftab(final(follow)@)),
    !r ==> ftab(final(follow)@) == ftab(old(follow)@),
    forall|g: Tab<L>| #[trigger] fholds(first.at(), g, *old(self)) <==> fholds(first.at(), g, *final(self)),
    forall|g: Tab<L>| below(ftab(old(follow)@), g) && #[trigger] fholds(first.at(), g, *old(self)) ==> below(ftab(final(follow)@), g),
    !r ==> fholds(first.at(), ftab(final(follow)@), *final(self)),
decreases *old(self)
#pre
let ghost f0 = ftab(follow@);
let ghost p = first.at();
#before set.retain
let ghost set0 = set@;
#closure 0 (t: &TypeId) -> (b: bool)
ensures b == !nul(p, *t)
#after set.retain
proof {
    assert forall|t: TypeId| #[trigger] set0.contains(t) implies (set@.contains(t) <==> !nul(p, t)) by { let k = &t; assert(set0.contains(k.kv())); }
    if set@ == Set::<TypeId>::empty() {
        assert(all_nul(p, set@));
        assert forall|t: TypeId| #[trigger] set0.contains(t) implies nul(p, t) by { if !nul(p, t) { assert(set@.contains(t)); } }
        assert(all_nul(p, set0));
    } else {
        if forall|t: TypeId| !set@.contains(t) { assert(set@ =~= Set::<TypeId>::empty()); }
        let t = choose|t: TypeId| set@.contains(t);
        assert(set0.contains(t));
        assert(!all_nul(p, set@) && !all_nul(p, set0));
    }
}
#before let changed = inner.process_rel
let ghost inner0 = *inner;
#after *self = *inner
proof {
    assert forall|g: Tab<L>| #[trigger] fholds(p, g, *old(self)) <==> fholds(p, g, inner0) by { assert(all_nul(p, set0)); }
    assert forall|g: Tab<L>| #[trigger] fholds(p, g, *old(self)) <==> fholds(p, g, *self) by { assert(fholds(p, g, inner0) <==> fholds(p, g, *self)); }
    assert forall|g: Tab<L>| below(f0, g) && #[trigger] fholds(p, g, *old(self)) implies below(ftab(follow@), g) by { assert(fholds(p, g, inner0)); }
}
#post
proof {
    let f2 = ftab(follow@);
    assert forall|t: TypeId| #[trigger] f0(t).subset_of(f2(t)) by {}
    if !vt_ret {
        assert forall|t: TypeId| #[trigger] f2(t) == f0(t) by { assert(f2(t) =~= f0(t)); }
        assert(f2 =~= f0);
    }
    assert forall|g: Tab<L>| below(f0, g) && #[trigger] fholds(p, g, *old(self)) implies below(f2, g) by {
        assert forall|t: TypeId| (#[trigger] f2(t)).subset_of(g(t)) by { assert(f0(t).subset_of(g(t)));
            if let FollowRel::UnionFollow(a, b) = *old(self) { assert(f0(b).subset_of(g(b))); } }
    }
}
