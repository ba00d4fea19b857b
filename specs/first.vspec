# C01: FIRST sets are the least solution of the textbook equations
#mod syntax::first
use crate::syntax::term_set::*;
pub type Tab<L> = spec_fn(TypeId) -> ISet<Sym<L>>;
pub open spec fn below<L: Lexicon>(f: Tab<L>, g: Tab<L>) -> bool { forall|t: TypeId| (#[trigger] f(t)).subset_of(g(t)) }
/// the table a map stands for: the empty set where there is no entry
pub open spec fn tab<L: Lexicon>(m: vstd::map::Map<TypeId, FirstSet<L>>) -> Tab<L> {
    |t: TypeId| if m.dom().contains(t) { m[t]@ } else { ISet::empty() }
}
impl<L: Lexicon> First<L> {
    pub open spec fn at(&self) -> Tab<L> {
        |t: TypeId| if self.map@.dom().contains(t) { self.map@[t]@ } else { self.empty@ }
    }
}
pub open spec fn nul<L: Lexicon>(g: Tab<L>, t: TypeId) -> bool { g(t).contains(None) }
/// textbook equations of a sequence x -> ys
pub open spec fn first_seq<L: Lexicon>(g: Tab<L>, x: TypeId, ys: Seq<TypeId>) -> bool {
    &&& first_seq_to(g, x, ys, ys.len() as int)
    &&& nul_to(g, ys, ys.len() as int) ==> nul(g, x)
}
/// the first n symbols can all be empty
pub open spec fn nul_to<L: Lexicon>(g: Tab<L>, ys: Seq<TypeId>, n: int) -> bool { forall|j: int| 0 <= j < n ==> nul(g, #[trigger] ys[j]) }
pub open spec fn first_seq_to<L: Lexicon>(g: Tab<L>, x: TypeId, ys: Seq<TypeId>, n: int) -> bool {
    forall|i: int| 0 <= i < n && nul_to(g, ys, i) ==> no_e(g(#[trigger] ys[i])).subset_of(g(x))
}
pub open spec fn all_nul<L: Lexicon>(g: Tab<L>, s: Set<TypeId>) -> bool { forall|t: TypeId| #[trigger] s.contains(t) ==> nul(g, t) }
/// textbook equations of a choice x -> y1 | y2 | ..
pub open spec fn first_union<L: Lexicon>(g: Tab<L>, x: TypeId, ys: Seq<TypeId>) -> bool {
    forall|i: int| 0 <= i < ys.len() ==> g(#[trigger] ys[i]).subset_of(g(x))
}
#fn syntax::first::First::new
ensures forall|t: TypeId| #[trigger] r.at()(t) == tab(map@)(t),
#fn syntax::first::First::get
ensures r@ == self.at()(*ty),

#mod syntax::first::builder
use crate::syntax::term_set::*;
use crate::syntax::first::*;
broadcast use crate::shim::shim_axioms;
pub open spec fn holds<L: Lexicon>(g: Tab<L>, r: FirstRel<L>) -> bool
    decreases r
{
    match r {
        FirstRel::Insert(t, FirstInsert::Epsilon) => g(t).contains(None),
        FirstRel::Insert(t, FirstInsert::Token(ty, lit)) => term_syms(ty, lit).subset_of(g(t)),
        FirstRel::UnionMinusEpsilon(a, b) => no_e(g(b)).subset_of(g(a)),
        FirstRel::IfEpsilonInAll(s, inner) => all_nul(g, s@) ==> match inner {
            Some(b) => holds(g, *b),
            None => true,
        },
    }
}
pub open spec fn all_hold<L: Lexicon>(g: Tab<L>, s: Seq<FirstRel<L>>) -> bool { forall|i: int| 0 <= i < s.len() ==> holds(g, #[trigger] s[i]) }
pub open spec fn least<L: Lexicon>(f: Tab<L>, s: Seq<FirstRel<L>>) -> bool {
    &&& all_hold(f, s)
    &&& forall|g: Tab<L>| #[trigger] all_hold(g, s) ==> below(f, g)
}
/// what one step of a relation may do to the table
pub open spec fn step<L: Lexicon>(f: Tab<L>, f2: Tab<L>, r: FirstRel<L>, r2: FirstRel<L>, chg: bool, retain: bool) -> bool {
    &&& below(f, f2)
    &&& !chg ==> f2 == f
    &&& forall|g: Tab<L>| below(f2, g) ==> (#[trigger] holds(g, r) <==> (retain ==> holds(g, r2)))
    &&& forall|g: Tab<L>| below(f, g) && #[trigger] holds(g, r) ==> below(f2, g)
    &&& !chg && retain ==> holds(f2, r2)
}
pub proof fn lemma_all_push<L: Lexicon>(s: Seq<FirstRel<L>>, x: FirstRel<L>)
    ensures forall|g: Tab<L>| #[trigger] all_hold(g, s.push(x)) <==> all_hold(g, s) && holds(g, x)
{
    assert forall|g: Tab<L>| #[trigger] all_hold(g, s.push(x)) implies all_hold(g, s) && holds(g, x) by {
        assert forall|i: int| 0 <= i < s.len() implies holds(g, #[trigger] s[i]) by { assert(s.push(x)[i] == s[i]); }
        assert(s.push(x)[s.len() as int] == x);
    }
}
#fn syntax::first::builder::FirstBuilder::new
ensures r.rels@ == Seq::<FirstRel<L>>::empty(),
#fn syntax::first::builder::FirstBuilder as Default::default
ensures r.rels@ == Seq::<FirstRel<L>>::empty(),
#fn syntax::first::builder::FirstBuilder::add
ensures forall|g: Tab<L>| #[trigger] all_hold(g, final(self).rels@) <==> all_hold(g, old(self).rels@) && holds(g, expr),
#pre
proof { lemma_all_push(self.rels@, expr); }
#fn syntax::first::builder::FirstBuilder::build_union
ensures forall|g: Tab<L>| #[trigger] all_hold(g, final(self).rels@) <==> all_hold(g, old(self).rels@) && first_union(g, x, variants@),
#loop 0
    invariant vt_it0.s@ == variants@, vt_it0.i <= variants@.len(),
        forall|g: Tab<L>| #[trigger] all_hold(g, self.rels@) <==> all_hold(g, old(self).rels@) && first_union(g, x, variants@.take(vt_it0.i as int)),
    decreases variants@.len() - vt_it0.i
#loopend 0
    proof {
        lemma_union_take::<L>(x, variants@, vt_it0.i as int);
        assert forall|g: Tab<L>| #[trigger] all_nul(g, Set::empty().insert(*y)) <==> nul(g, *y) by { assert(Set::empty().insert(*y).contains(*y)); }
        assert forall|g: Tab<L>| no_e(g(*y)).subset_of(#[trigger] g(x)) && (nul(g, *y) ==> nul(g, x)) <==> g(*y).subset_of(g(x)) by {
            if no_e(g(*y)).subset_of(g(x)) && (nul(g, *y) ==> nul(g, x)) {
                let gy = g(*y); let gx = g(x); assert forall|s: Sym<L>| #[trigger] gy.contains(s) implies gx.contains(s) by { if s is Some { assert(no_e(g(*y)).contains(s)); } }
            }
        }
    }
#post
proof { assert(variants@.take(variants@.len() as int) =~= variants@); }
#mod syntax::first::builder
pub proof fn lemma_union_take<L: Lexicon>(x: TypeId, ys: Seq<TypeId>, n: int)
    requires 0 < n <= ys.len(),
    ensures forall|g: Tab<L>| #[trigger] first_union(g, x, ys.take(n)) <==> first_union(g, x, ys.take(n - 1)) && g(ys[n - 1]).subset_of(g(x)),
{
    let a = ys.take(n);
    let b = ys.take(n - 1);
    assert forall|g: Tab<L>| #[trigger] first_union(g, x, a) <==> first_union(g, x, b) && g(ys[n - 1]).subset_of(g(x)) by {
        if first_union(g, x, a) {
            assert forall|i: int| 0 <= i < b.len() implies g(#[trigger] b[i]).subset_of(g(x)) by { assert(b[i] == a[i]); }
            assert(a[n - 1] == ys[n - 1]);
        }
        if first_union(g, x, b) && g(ys[n - 1]).subset_of(g(x)) {
            assert forall|i: int| 0 <= i < a.len() implies g(#[trigger] a[i]).subset_of(g(x)) by { if i < n - 1 { assert(b[i] == a[i]); } }
        }
    }
}
#fn syntax::first::builder::FirstBuilder::build_sequence
ensures forall|g: Tab<L>| #[trigger] all_hold(g, final(self).rels@) <==> all_hold(g, old(self).rels@) && first_seq(g, x, sequence@),
#loop 0
    invariant vt_it0.s@ == sequence@, vt_it0.i <= sequence@.len(),
        forall|t: TypeId| #[trigger] set@.contains(t) <==> exists|j: int| 0 <= j < vt_it0.i && sequence@[j] == t,
        forall|g: Tab<L>| #[trigger] all_hold(g, self.rels@) <==> all_hold(g, old(self).rels@) && first_seq_to(g, x, sequence@, vt_it0.i as int),
    decreases sequence@.len() - vt_it0.i
#loopstart 0
    let ghost n0 = vt_it0.i as int;
    let ghost set0 = set@;
#loopend 0
    proof {
        assert(sequence@[n0] == *yi);
        lemma_seq_step::<L>(x, sequence@, n0, set0);
    }
#before self.add(FirstRel::if_epsilon_in_all(
proof {
    assert forall|g: Tab<L>| all_nul(g, set@) <==> #[trigger] nul_to(g, sequence@, sequence@.len() as int) by { lemma_all_nul(g, sequence@, sequence@.len() as int, set@); }
}
#mod syntax::first::builder
pub proof fn lemma_all_nul<L: Lexicon>(g: Tab<L>, ys: Seq<TypeId>, n: int, s: Set<TypeId>)
    requires 0 <= n <= ys.len(), forall|t: TypeId| #[trigger] s.contains(t) <==> exists|j: int| 0 <= j < n && ys[j] == t,
    ensures all_nul(g, s) <==> nul_to(g, ys, n)
{
    if all_nul(g, s) {
        assert forall|j: int| 0 <= j < n implies nul(g, #[trigger] ys[j]) by { assert(s.contains(ys[j])); }
    }
}
pub proof fn lemma_seq_step<L: Lexicon>(x: TypeId, ys: Seq<TypeId>, n: int, s: Set<TypeId>)
    requires 0 <= n < ys.len(), forall|t: TypeId| #[trigger] s.contains(t) <==> exists|j: int| 0 <= j < n && ys[j] == t,
    ensures forall|g: Tab<L>| #[trigger] first_seq_to(g, x, ys, n + 1) <==> first_seq_to(g, x, ys, n)
            && (all_nul(g, s) ==> no_e(g(ys[n])).subset_of(g(x))),
        forall|t: TypeId| #[trigger] s.insert(ys[n]).contains(t) <==> exists|j: int| 0 <= j < n + 1 && ys[j] == t,
{
    assert forall|g: Tab<L>| #[trigger] first_seq_to(g, x, ys, n + 1) <==> first_seq_to(g, x, ys, n)
            && (all_nul(g, s) ==> no_e(g(ys[n])).subset_of(g(x))) by {
        lemma_all_nul(g, ys, n, s);
    }
    assert forall|t: TypeId| #[trigger] s.insert(ys[n]).contains(t) <==> exists|j: int| 0 <= j < n + 1 && ys[j] == t by {
        if s.insert(ys[n]).contains(t) {
            if s.contains(t) { let j = choose|j: int| 0 <= j < n && ys[j] == t; assert(0 <= j < n + 1 && ys[j] == t); }
            else { assert(0 <= n < n + 1 && ys[n] == t); }
        }
        if exists|j: int| 0 <= j < n + 1 && ys[j] == t {
            let j = choose|j: int| 0 <= j < n + 1 && ys[j] == t;
            if j < n { assert(0 <= j < n && ys[j] == t); }
        }
    }
}
pub proof fn lemma_rels_step<L: Lexicon>(s: Seq<FirstRel<L>>, i: int, f: Tab<L>, f2: Tab<L>, s2: Seq<FirstRel<L>>, keep: bool)
    requires 0 <= i < s.len(),
        below(f, f2),
        keep ==> s2.len() == s.len() && s2 == s.update(i, s2[i]),
        !keep ==> s2 =~= s.remove(i),
        forall|g: Tab<L>| below(f2, g) ==> (#[trigger] holds(g, s[i]) <==> (keep ==> holds(g, s2[i]))),
    ensures
        forall|g: Tab<L>| below(f2, g) ==> (#[trigger] all_hold(g, s) <==> all_hold(g, s2)),
        forall|g: Tab<L>| #[trigger] all_hold(g, s) ==> holds(g, s[i]),
        keep ==> (forall|g: Tab<L>| all_hold(g, s.take(i)) && holds(g, s2[i]) ==> #[trigger] all_hold(g, s2.take(i + 1))),
        !keep ==> s2.take(i) == s.take(i),
{
    assert forall|g: Tab<L>| below(f2, g) implies (#[trigger] all_hold(g, s) <==> all_hold(g, s2)) by {
        assert(holds(g, s[i]) <==> (keep ==> holds(g, s2[i])));
        if all_hold(g, s) {
            assert forall|k: int| 0 <= k < s2.len() implies holds(g, #[trigger] s2[k]) by {
                if keep { if k != i { assert(s2[k] == s[k]); } }
                else if k < i { assert(s2[k] == s[k]); } else { assert(s2[k] == s[k + 1]); }
            }
        }
        if all_hold(g, s2) {
            assert forall|k: int| 0 <= k < s.len() implies holds(g, #[trigger] s[k]) by {
                if keep { if k != i { assert(s2[k] == s[k]); } else { assert(holds(g, s2[i])); } }
                else if k < i { assert(s2[k] == s[k]); } else if k > i { assert(s2[k - 1] == s[k]); }
            }
        }
    }
    if keep {
        assert forall|g: Tab<L>| all_hold(g, s.take(i)) && holds(g, s2[i]) implies #[trigger] all_hold(g, s2.take(i + 1)) by {
            assert forall|k: int| 0 <= k < i + 1 implies holds(g, #[trigger] s2.take(i + 1)[k]) by {
                if k < i { assert(s2[k] == s[k]); assert(s.take(i)[k] == s[k]); }
            }
        }
    } else {
        assert(s2.take(i) =~= s.take(i));
    }
}
#fn syntax::first::builder::FirstBuilder::build
ensures least(r.at(), self.rels@),
#attr #[verifier::exec_allows_no_decreases_clause]
#before let mut changed
let ghost s0 = rels@;
proof {
    assert(forall|g: Tab<L>| below(tab(first@), g));
}
#loop 0
    invariant
        forall|g: Tab<L>| below(tab(first@), g) ==> (#[trigger] all_hold(g, s0) <==> all_hold(g, rels@)),
        forall|g: Tab<L>| #[trigger] all_hold(g, s0) ==> below(tab(first@), g),
        !changed ==> all_hold(tab(first@), rels@),
#loopstart 0
    let ghost f1 = tab(first@);
    let ghost s1 = rels@;
#loopend 0
    proof {
        assert forall|g: Tab<L>| below(tab(first@), g) implies (#[trigger] all_hold(g, s0) <==> all_hold(g, rels@)) by {
            assert(below(f1, g));
            assert(all_hold(g, s0) <==> all_hold(g, s1));
        }
        assert forall|g: Tab<L>| #[trigger] all_hold(g, s0) implies below(tab(first@), g) by {
            assert(below(f1, g));
            assert(all_hold(g, s1));
        }
    }
#post
proof {
    assert(below(tab(first@), tab(first@)));
    assert(vt_ret.at() =~= tab(first@));
}
#fn syntax::first::builder::FirstBuilder::process_rels
ensures
    below(tab(old(first)@), tab(final(first)@)),
    !r ==> tab(final(first)@) == tab(old(first)@),
    forall|g: Tab<L>| below(tab(final(first)@), g) ==> (#[trigger] all_hold(g, old(rels)@) <==> all_hold(g, final(rels)@)),
    forall|g: Tab<L>| below(tab(old(first)@), g) && #[trigger] all_hold(g, old(rels)@) ==> below(tab(final(first)@), g),
    !r ==> all_hold(tab(final(first)@), final(rels)@),
#pre
let ghost f0 = tab(first@);
let ghost s0 = rels@;
proof { assert(rels@.take(0) =~= Seq::<FirstRel<L>>::empty()); }
#loop 0
    invariant vt_i0 <= rels@.len(),
        below(f0, tab(first@)),
        forall|g: Tab<L>| below(tab(first@), g) ==> (#[trigger] all_hold(g, s0) <==> all_hold(g, rels@)),
        forall|g: Tab<L>| below(f0, g) && #[trigger] all_hold(g, s0) ==> below(tab(first@), g),
        !changed ==> tab(first@) == f0 && all_hold(f0, rels@.take(vt_i0 as int)),
    decreases rels@.len() - vt_i0
#loopstart 0
    let ghost s1 = rels@;
    let ghost f1 = tab(first@);
    let ghost i1 = vt_i0 as int;
    let ghost chg1 = changed;
#loopend 0
    proof { lemma_rels_step(s1, i1, f1, tab(first@), rels@, vt_keep); }
#post
proof { assert(rels@.take(rels@.len() as int) =~= rels@); }
#fn syntax::first::builder::FirstRel::insert_epsilon
ensures forall|g: Tab<L>| #[trigger] holds(g, r) <==> nul(g, t),
#fn syntax::first::builder::FirstRel::insert_token
ensures forall|g: Tab<L>| #[trigger] holds(g, r) <==> term_syms(token, lit).subset_of(g(t)),
#fn syntax::first::builder::FirstRel::union_minus_epsilon
ensures forall|g: Tab<L>| #[trigger] holds(g, r) <==> no_e(g(b)).subset_of(g(a)),
#fn syntax::first::builder::FirstRel::if_epsilon_in_all
ensures forall|g: Tab<L>| #[trigger] holds(g, r) <==> (all_nul(g, set@) ==> holds(g, expr)),
#pre
proof { if set@ == Set::<TypeId>::empty() { assert(forall|g: Tab<L>| all_nul(g, set@)); } }
#fn syntax::first::builder::FirstRel::if_epsilon_in_all_iter
ensures forall|g: Tab<L>| #[trigger] holds(g, r) <==> (all_nul(g, set.vt_elems()) ==> holds(g, expr)),
#fn syntax::first::builder::FirstRel::process_rel
ensures step(tab(old(first)@), tab(final(first)@), *old(self), *final(self), r.0, r.1),
decreases *old(self)
#pre
let ghost f0 = tab(first@);
let ghost m0 = first@;
#before let (changed, retain) = inner
let ghost inner0 = *inner;
#before return (changed, retain)
proof {
    assert(f0 == tab(m0));
    assert forall|g: Tab<L>| below(f0, g) implies (#[trigger] holds(g, *old(self)) <==> holds(g, inner0)) by { assert(all_nul(g, set0)); }
    let f2 = tab(first@);
    assert forall|g: Tab<L>| below(f2, g) implies below(f0, g) by { assert forall|t: TypeId| (#[trigger] f0(t)).subset_of(g(t)) by { assert(f2(t).subset_of(g(t))); } }
    assert forall|g: Tab<L>| below(f2, g) implies (#[trigger] holds(g, *old(self)) <==> (retain ==> holds(g, *self))) by { assert(holds(g, inner0) <==> (retain ==> holds(g, *self))); }
    assert forall|g: Tab<L>| below(f0, g) && #[trigger] holds(g, *old(self)) implies below(f2, g) by { assert(holds(g, inner0)); }
}
#post
proof {
    let f2 = tab(first@);
    assert forall|t: TypeId| #[trigger] f0(t).subset_of(f2(t)) by {}
    if !vt_ret.0 {
        assert forall|t: TypeId| #[trigger] f2(t) == f0(t) by { assert(f2(t) =~= f0(t)); }
        assert(f2 =~= f0);
    }
    assert forall|g: Tab<L>| below(f2, g) implies (#[trigger] holds(g, *old(self)) <==> (vt_ret.1 ==> holds(g, *self))) by {
        if let FirstRel::Insert(t, _) = *old(self) { assert(f2(t).subset_of(g(t))); }
    }
    assert forall|g: Tab<L>| below(f0, g) && #[trigger] holds(g, *old(self)) implies below(f2, g) by {
        assert forall|t: TypeId| (#[trigger] f2(t)).subset_of(g(t)) by { assert(f0(t).subset_of(g(t)));
            if let FirstRel::UnionMinusEpsilon(a, b) = *old(self) { assert(f0(b).subset_of(g(b))); } }
    }
    if !vt_ret.0 && vt_ret.1 { assert(holds(f2, *self)); }
}
#before set.retain
let ghost set0 = set@;
#closure 0 (t: &TypeId) -> (b: bool)
ensures b == !nul(f0, *t)
#after set.retain
proof {
    assert forall|t: TypeId| #[trigger] set0.contains(t) implies (set@.contains(t) <==> !nul(f0, t)) by { let k = &t; assert(set0.contains(k.kv())); }
    assert forall|g: Tab<L>| below(f0, g) implies (#[trigger] all_nul(g, set0) <==> all_nul(g, set@)) by {
        if all_nul(g, set@) {
            assert forall|t: TypeId| #[trigger] set0.contains(t) implies nul(g, t) by {
                if !set@.contains(t) { assert(f0(t).subset_of(g(t))); }
            }
        }
    }
    if set@ == Set::<TypeId>::empty() { assert(forall|g: Tab<L>| all_nul(g, set@)); }
    else if all_nul(f0, set@) {
        if forall|t: TypeId| !set@.contains(t) { assert(set@ =~= Set::<TypeId>::empty()); }
        let t = choose|t: TypeId| set@.contains(t);
        assert(nul(f0, t));
    }
}
