# C03-C05: conflicts, left recursion and the table of a whole grammar
#mod syntax::metadata
use crate::syntax::term_set::*;
use crate::syntax::first::{Tab, below, nul, first_seq, first_union, nul_to};
use crate::syntax::first::builder::{all_hold, least};
use crate::syntax::follow::{follow_seq, follow_union};
use crate::syntax::follow::builder::{fok, fall_hold, fleast};
pub type Prods = vstd::map::Map<TypeId, ProductionEntry>;
pub open spec fn kids(p: Prods, t: TypeId) -> Seq<TypeId> {
    if p.dom().contains(t) {
        match p[t] { ProductionEntry::Terminal => Seq::empty(), ProductionEntry::Sequence(v) => v@, ProductionEntry::Union(v) => v@ }
    } else { Seq::empty() }
}
pub open spec fn closed(p: Prods, s: ISet<TypeId>) -> bool {
    forall|t: TypeId, i: int| s.contains(t) && 0 <= i < kids(p, t).len() ==> s.contains(#[trigger] kids(p, t)[i])
}
/// b is part of the grammar that starts at a
pub open spec fn reach(p: Prods, a: TypeId, b: TypeId) -> bool {
    forall|s: ISet<TypeId>| #[trigger] closed(p, s) && s.contains(a) ==> s.contains(b)
}
pub proof fn lemma_reach(p: Prods, t: TypeId)
    ensures reach(p, t, t),
        forall|i: int| 0 <= i < kids(p, t).len() ==> reach(p, t, #[trigger] kids(p, t)[i]),
        forall|i: int, u: TypeId| 0 <= i < kids(p, t).len() && #[trigger] reach(p, kids(p, t)[i], u) ==> reach(p, t, u),
{
    assert forall|i: int, u: TypeId| 0 <= i < kids(p, t).len() && #[trigger] reach(p, kids(p, t)[i], u) implies reach(p, t, u) by {
        assert forall|s: ISet<TypeId>| #[trigger] closed(p, s) && s.contains(t) implies s.contains(u) by { assert(s.contains(kids(p, t)[i])); }
    }
}
pub proof fn lemma_reach_trans(p: Prods, a: TypeId, b: TypeId, c: TypeId)
    requires reach(p, a, b), reach(p, b, c)
    ensures reach(p, a, c)
{
    assert forall|s: ISet<TypeId>| #[trigger] closed(p, s) && s.contains(a) implies s.contains(c) by { assert(s.contains(b)); }
}
/// every symbol from position i up to but not including n can be empty
pub open spec fn nul_from<L: Lexicon>(f: Tab<L>, ys: Seq<TypeId>, i: int, n: int) -> bool { forall|j: int| i <= j < n ==> nul(f, #[trigger] ys[j]) }
/// two alternatives never start alike, nor can both be empty
pub open spec fn union_ok<L: Lexicon>(f: Tab<L>, ys: Seq<TypeId>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ys.len() ==> !meets(f(#[trigger] ys[i]), f(#[trigger] ys[j]))
}
/// what can be empty is never followed within the sequence by something that can start like it
pub open spec fn seq_ok<L: Lexicon>(f: Tab<L>, ys: Seq<TypeId>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ys.len() && nul_from(f, ys, i, j) ==> !meets(f(#[trigger] ys[i]), no_e(f(#[trigger] ys[j])))
}
pub open spec fn self_ok<L: Lexicon>(f: Tab<L>, g: Tab<L>, t: TypeId) -> bool { nul(f, t) ==> !meets(g(t), no_e(f(t))) }
/// no LL(1) conflict in the production of t
#[verifier::opaque]
pub open spec fn local_ok<L: Lexicon>(p: Prods, f: Tab<L>, g: Tab<L>, t: TypeId) -> bool {
    p.dom().contains(t) ==> match p[t] {
        ProductionEntry::Terminal => true,
        ProductionEntry::Sequence(v) => v@.len() > 0 ==> seq_ok(f, v@) && self_ok(f, g, t),
        ProductionEntry::Union(v) => union_ok(f, v@) && self_ok(f, g, t),
    }
}
/// u can be the first thing parsed after t, without a token consumed in between
pub open spec fn left<L: Lexicon>(p: Prods, f: Tab<L>, t: TypeId, u: TypeId) -> bool {
    exists|i: int| 0 <= i < kids(p, t).len() && #[trigger] kids(p, t)[i] == u && (p[t] is Sequence ==> nul_to(f, kids(p, t), i))
}
pub open spec fn left_path<L: Lexicon>(p: Prods, f: Tab<L>, w: Seq<TypeId>) -> bool {
    forall|i: int, j: int| 0 <= i < w.len() - 1 && j == i + 1 ==> left(p, f, #[trigger] w[i], #[trigger] w[j])
}
/// w is a left-recursive cycle
pub open spec fn left_cycle<L: Lexicon>(p: Prods, f: Tab<L>, w: Seq<TypeId>) -> bool {
    w.len() >= 2 && w[0] == w[w.len() - 1] && left_path(p, f, w)
}
/// the members of d can be put in an order in which every left successor comes earlier
pub open spec fn is_order<L: Lexicon>(p: Prods, f: Tab<L>, d: Set<TypeId>, o: Seq<TypeId>) -> bool {
    &&& forall|t: TypeId| #[trigger] d.contains(t) <==> o.contains(t)
    &&& forall|i: int, u: TypeId| 0 <= i < o.len() && #[trigger] left(p, f, o[i], u) ==> exists|j: int| 0 <= j < i && o[j] == u
}
pub open spec fn ranked<L: Lexicon>(p: Prods, f: Tab<L>, d: Set<TypeId>) -> bool { exists|o: Seq<TypeId>| is_order(p, f, d, o) }
pub proof fn lemma_rank_push<L: Lexicon>(p: Prods, f: Tab<L>, d: Set<TypeId>, t: TypeId)
    requires ranked(p, f, d), forall|u: TypeId| #[trigger] left(p, f, t, u) ==> d.contains(u), 
    ensures ranked(p, f, d.insert(t)),
{
    let o = choose|o: Seq<TypeId>| is_order(p, f, d, o);
    let o2 = o.push(t);
    assert forall|u: TypeId| #[trigger] d.insert(t).contains(u) <==> o2.contains(u) by {
        if d.contains(u) { let i = choose|i: int| 0 <= i < o.len() && o[i] == u; assert(o2[i] == u); }
        assert(o2[o.len() as int] == t);
        if o2.contains(u) && u != t { let i = choose|i: int| 0 <= i < o2.len() && o2[i] == u; assert(o[i] == u); }
    }
    assert forall|i: int, u: TypeId| 0 <= i < o2.len() && #[trigger] left(p, f, o2[i], u) implies exists|j: int| 0 <= j < i && o2[j] == u by {
        if i < o.len() {
            assert(left(p, f, o[i], u));
            let j = choose|j: int| 0 <= j < i && o[j] == u;
            assert(o2[j] == u);
        } else {
            assert(d.contains(u));
            let j = choose|j: int| 0 <= j < o.len() && o[j] == u;
            assert(o2[j] == u);
        }
    }
    assert(is_order(p, f, d.insert(t), o2));
}
/// along a path inside an ordered set the positions go down
pub proof fn lemma_path_down<L: Lexicon>(p: Prods, f: Tab<L>, d: Set<TypeId>, o: Seq<TypeId>, w: Seq<TypeId>, n: int, k: int) -> (r: int)
    requires is_order(p, f, d, o), left_path(p, f, w), 0 <= n < w.len(), 0 <= k < o.len(), o[k] == w[0],
    ensures 0 <= r <= k - n, o[r] == w[n],
    decreases n
{
    if n == 0 { k } else {
        let q = lemma_path_down(p, f, d, o, w, n - 1, k);
        assert(left(p, f, w[n - 1], w[n]));
        assert(left(p, f, o[q], w[n]));
        choose|j: int| 0 <= j < q && o[j] == w[n]
    }
}
pub proof fn lemma_no_cycle<L: Lexicon>(p: Prods, f: Tab<L>, d: Set<TypeId>, w: Seq<TypeId>, o: Seq<TypeId>, k: int)
    requires is_order(p, f, d, o), left_cycle(p, f, w), 0 <= k < o.len(), o[k] == w[0]
    ensures false
    decreases k
{
    let r = lemma_path_down(p, f, d, o, w, w.len() - 1, k);
    lemma_no_cycle(p, f, d, w, o, r);
}
/// no left-recursive cycle goes through a member of d
pub proof fn lemma_ranked_acyclic<L: Lexicon>(p: Prods, f: Tab<L>, d: Set<TypeId>)
    requires ranked(p, f, d)
    ensures forall|w: Seq<TypeId>| #[trigger] left_cycle(p, f, w) ==> !d.contains(w[0])
{
    let o = choose|o: Seq<TypeId>| is_order(p, f, d, o);
    assert forall|w: Seq<TypeId>| #[trigger] left_cycle(p, f, w) implies !d.contains(w[0]) by {
        if d.contains(w[0]) {
            assert(o.contains(w[0]));
            let k = choose|k: int| 0 <= k < o.len() && o[k] == w[0];
            lemma_no_cycle(p, f, d, w, o, k);
        }
    }
}
/// the table entry of t is right
pub open spec fn choice_ok<L: Lexicon>(p: Prods, f: Tab<L>, j: Jump<L>, t: TypeId) -> bool {
    p.dom().contains(t) && p[t] is Union ==> choice_to(f, j, t, kids(p, t), kids(p, t).len() as int)
}
pub open spec fn choice_to<L: Lexicon>(f: Tab<L>, j: Jump<L>, t: TypeId, ys: Seq<TypeId>, n: int) -> bool {
    &&& forall|s: Sym<L>, i: int| 0 <= i < n && f(#[trigger] ys[i]).contains(s) ==> #[trigger] j.direct(t, s) == Some(i as usize)
    &&& forall|s: Sym<L>| (forall|i: int| 0 <= i < n ==> !f(#[trigger] ys[i]).contains(s)) ==> #[trigger] j.direct(t, s) is None
}
pub open spec fn same_entry<L: Lexicon>(a: Jump<L>, b: Jump<L>, t: TypeId) -> bool { forall|s: Sym<L>| (#[trigger] a.direct(t, s)) == b.direct(t, s) }
/// the equations of the registered productions
pub open spec fn follow_eqs<L: Lexicon>(p: Prods, f: Tab<L>, g: Tab<L>, t: TypeId) -> bool {
    p.dom().contains(t) ==> match p[t] {
        ProductionEntry::Terminal => true,
        ProductionEntry::Sequence(v) => follow_seq(f, g, t, v@),
        ProductionEntry::Union(v) => follow_union(g, t, v@),
    }
}
impl<L: Lexicon> MetadataBuilder<L> {
    /// g satisfies the FIRST equations of everything registered so far
    pub open spec fn eqs(&self, g: Tab<L>) -> bool { all_hold(g, self.first_builder.rels@) }
}
#fn syntax::metadata::check_self_first_follow_conflict
ensures r is Ok <==> self_ok(first.at(), follow.at(), t),
#fn syntax::metadata::check_conflicts
#attr #[verifier::exec_allows_no_decreases_clause]
ensures old(seen)@.subset_of(final(seen)@),
    r is Ok ==> final(seen)@.contains(t),
    r is Ok ==> forall|u: TypeId| #[trigger] final(seen)@.contains(u) && !old(seen)@.contains(u) ==> local_ok(prods@, first.at(), follow.at(), u)
        && (forall|i: int| 0 <= i < kids(prods@, u).len() ==> final(seen)@.contains(#[trigger] kids(prods@, u)[i])),
    r is Err ==> exists|u: TypeId| #[trigger] reach(prods@, t, u) && !local_ok(prods@, first.at(), follow.at(), u),
#pre
let ghost p = prods@;
let ghost f = first.at();
let ghost g = follow.at();
let ghost seen0 = seen@;
proof {
    lemma_reach(p, t);
    assert(!p.dom().contains(t) || p[t] is Terminal || (p[t] is Sequence && kids(p, t).len() == 0) ==> local_ok(p, f, g, t)) by { reveal(local_ok); }
}
#loopafter 0
    proof {
        assert(union_ok(f, types@));
        assert(self_ok(f, g, t) <==> local_ok(p, f, g, t)) by { reveal(local_ok); }
    }
#loopafter 3
    proof {
        assert(seq_ok(f, types@));
        assert(self_ok(f, g, t) <==> local_ok(p, f, g, t)) by { reveal(local_ok); }
    }
#loopstart 1
    proof { lemma_meets(f(types@[n]), f(types@[vt_it1.i as int])); }
#loop 0
    invariant p == prods@, f == first.at(), g == follow.at(), seen0 == old(seen)@, kids(p, t) == types@, p.dom().contains(t), reach(p, t, t),
        p[t] is Union, seen@ == seen0.insert(t), vt_it0.s@ == types@, vt_it0.i <= types@.len(),
        forall|s: Sym<L>| #[trigger] check_set@.contains(s) <==> exists|k: int| 0 <= k < vt_it0.i && f(#[trigger] types@[k]).contains(s),
        forall|a: int, b: int| 0 <= a < b < vt_it0.i ==> !meets(f(#[trigger] types@[a]), f(#[trigger] types@[b])),
#loopbefore 1
    let ghost n = vt_it0.i - 1;
    let ghost k0: int = 0;
    proof {
        assert(first_set@ == f(types@[n]));
        let s = choose|s: Sym<L>| check_set@.contains(s) && #[trigger] first_set@.contains(s);
        k0 = choose|k: int| 0 <= k < n && f(#[trigger] types@[k]).contains(s);
        assert(meets(f(types@[k0]), f(types@[n])));
        assert(!union_ok(f, types@));
        assert(!local_ok(p, f, g, t)) by { reveal(local_ok); }
    }
#loop 1
    invariant p == prods@, f == first.at(), g == follow.at(), seen0 == old(seen)@, kids(p, t) == types@, p.dom().contains(t), reach(p, t, t),
        p[t] is Union, seen@ == seen0.insert(t), inner == &types@[n], first_set@ == f(types@[n]), 0 <= k0 < n < types@.len(), meets(f(types@[k0]), f(types@[n])), !local_ok(p, f, g, t), vt_it1.s@ == types@, vt_it1.i <= types@.len(),
        k0 < vt_it1.i ==> !meets(f(types@[k0]), f(types@[n])),
#loopend 0
    proof {
        let n = vt_it0.i - 1;
        assert(first_set@ == f(types@[n]));
        assert forall|a: int| 0 <= a < n implies !meets(f(#[trigger] types@[a]), f(types@[n])) by {
            if meets(f(types@[a]), f(types@[n])) {
                let s = choose|s: Sym<L>| f(types@[a]).contains(s) && #[trigger] f(types@[n]).contains(s);
                assert(cs0.contains(s));
                assert(meets(cs0, first_set@));
            }
        }
        assert forall|s: Sym<L>| #[trigger] check_set@.contains(s) <==> exists|k: int| 0 <= k < vt_it0.i && f(#[trigger] types@[k]).contains(s) by {
            if first_set@.contains(s) { assert(f(types@[n]).contains(s)); }
        }
    }
#loopstart 0
    let ghost cs0 = check_set@;
#loopstart 2
    proof {
        let n = vt_it2.i as int;
        assert forall|u: TypeId| #[trigger] reach(p, types@[n], u) implies reach(p, t, u) by { lemma_reach(p, t); assert(kids(p, t)[n] == types@[n]); assert(reach(p, kids(p, t)[n], u)); }
    }
#loop 2
    invariant p == prods@, f == first.at(), g == follow.at(), seen0 == old(seen)@, kids(p, t) == types@, p.dom().contains(t), reach(p, t, t),
        vt_it2.s@ == types@, vt_it2.i <= types@.len(), seen0.subset_of(seen@), seen@.contains(t),
        forall|u: TypeId| #[trigger] seen@.contains(u) && !seen0.contains(u) && u != t ==> local_ok(p, f, g, u)
            && (forall|i: int| 0 <= i < kids(p, u).len() ==> seen@.contains(#[trigger] kids(p, u)[i])),
        forall|k: int| 0 <= k < vt_it2.i ==> seen@.contains(#[trigger] types@[k]),
#loop 3
    invariant p == prods@, f == first.at(), g == follow.at(), seen0 == old(seen)@, kids(p, t) == types@, p.dom().contains(t), reach(p, t, t),
        p[t] is Sequence, seen@ == seen0.insert(t), vt_it3.s@ == types@, 1 <= vt_it3.i <= types@.len(),
        forall|s: Sym<L>| s is Some ==> (#[trigger] cur_check@.contains(s) <==> seq_live(f, types@, vt_it3.i as int, s)),
        forall|a: int, b: int| 0 <= a < b < vt_it3.i && nul_from(f, types@, a, b) ==> !meets(f(#[trigger] types@[a]), no_e(f(#[trigger] types@[b]))),
#loopbefore 3
    proof {
        assert(nul_from(f, types@, 0, 1) == nul(f, types@[0]));
        assert forall|s: Sym<L>| s is Some implies (#[trigger] cur_check@.contains(s) <==> seq_live(f, types@, 1, s)) by {
            if cur_check@.contains(s) { assert(nul_from(f, types@, 0, 1) && f(types@[0]).contains(s)); }
        }
    }
#loopstart 3
    let ghost n = vt_it3.i as int;
    let ghost cc0 = cur_check@;
    proof {
        if meets(cc0, no_e(f(types@[n]))) {
            let s = choose|s: Sym<L>| cc0.contains(s) && #[trigger] no_e(f(types@[n])).contains(s);
            let k = choose|k: int| 0 <= k < n && nul_from(f, types@, k, n) && f(#[trigger] types@[k]).contains(s);
            assert(meets(f(types@[k]), no_e(f(types@[n]))));
            assert(!seq_ok(f, types@));
            assert(!local_ok(p, f, g, t)) by { reveal(local_ok); }
        } else {
            assert forall|a: int| 0 <= a < n && nul_from(f, types@, a, n) implies !meets(f(#[trigger] types@[a]), no_e(f(types@[n]))) by {
                if meets(f(types@[a]), no_e(f(types@[n]))) {
                    let s = choose|s: Sym<L>| f(types@[a]).contains(s) && #[trigger] no_e(f(types@[n])).contains(s);
                    assert(seq_live(f, types@, n, s));
                    assert(cc0.contains(s));
                }
            }
        }
    }
#loopend 3
    proof {
        lemma_seq_live(f, types@, n);
        assert forall|s: Sym<L>| s is Some implies (#[trigger] cur_check@.contains(s) <==> seq_live(f, types@, n + 1, s)) by {
            assert(cc0.contains(s) <==> seq_live(f, types@, n, s));
        }
    }
#loopstart 4
    proof {
        let n = vt_it4.i as int;
        assert forall|u: TypeId| #[trigger] reach(p, types@[n], u) implies reach(p, t, u) by { lemma_reach(p, t); assert(kids(p, t)[n] == types@[n]); assert(reach(p, kids(p, t)[n], u)); }
    }
#loop 4
    invariant p == prods@, f == first.at(), g == follow.at(), seen0 == old(seen)@, kids(p, t) == types@, p.dom().contains(t), reach(p, t, t),
        vt_it4.s@ == types@, vt_it4.i <= types@.len(), seen0.subset_of(seen@), seen@.contains(t),
        forall|u: TypeId| #[trigger] seen@.contains(u) && !seen0.contains(u) && u != t ==> local_ok(p, f, g, u)
            && (forall|i: int| 0 <= i < kids(p, u).len() ==> seen@.contains(#[trigger] kids(p, u)[i])),
        forall|k: int| 0 <= k < vt_it4.i ==> seen@.contains(#[trigger] types@[k]),
#mod syntax::metadata
pub proof fn lemma_meets<L: Lexicon>(a: ISet<Sym<L>>, b: ISet<Sym<L>>)
    ensures meets(a, b) == meets(b, a)
{
    if meets(a, b) { let s = choose|s: Sym<L>| a.contains(s) && #[trigger] b.contains(s); assert(a.contains(s)); }
    if meets(b, a) { let s = choose|s: Sym<L>| b.contains(s) && #[trigger] a.contains(s); assert(b.contains(s)); }
}
/// s can start a symbol after which everything up to position n can be empty
pub open spec fn seq_live<L: Lexicon>(f: Tab<L>, ys: Seq<TypeId>, n: int, s: Sym<L>) -> bool {
    exists|k: int| 0 <= k < n && nul_from(f, ys, k, n) && f(#[trigger] ys[k]).contains(s)
}
pub proof fn lemma_seq_live<L: Lexicon>(f: Tab<L>, ys: Seq<TypeId>, n: int)
    requires 0 <= n < ys.len()
    ensures forall|s: Sym<L>| #[trigger] seq_live(f, ys, n + 1, s) <==> nul(f, ys[n]) && (seq_live(f, ys, n, s) || f(ys[n]).contains(s))
{
    assert forall|s: Sym<L>| #[trigger] seq_live(f, ys, n + 1, s) <==> nul(f, ys[n]) && (seq_live(f, ys, n, s) || f(ys[n]).contains(s)) by {
        if seq_live(f, ys, n + 1, s) {
            let k = choose|k: int| 0 <= k < n + 1 && nul_from(f, ys, k, n + 1) && f(#[trigger] ys[k]).contains(s);
            assert(nul(f, ys[n]));
            if k < n { assert(nul_from(f, ys, k, n)); }
        }
        if nul(f, ys[n]) && seq_live(f, ys, n, s) {
            let k = choose|k: int| 0 <= k < n && nul_from(f, ys, k, n) && f(#[trigger] ys[k]).contains(s);
            assert(nul_from(f, ys, k, n + 1));
        }
        if nul(f, ys[n]) && f(ys[n]).contains(s) { assert(nul_from(f, ys, n, n + 1)); }
    }
}
#fn syntax::metadata::MetadataBuilder::visit
requires name.requires(()),
ensures r == !old(self).names@.dom().contains(t), final(self).names@.dom() =~= old(self).names@.dom().insert(t),
    final(self).productions == old(self).productions, final(self).first_builder == old(self).first_builder,
#fn syntax::metadata::MetadataBuilder::add_epsilon
ensures final(self).names == old(self).names, final(self).productions@ == old(self).productions@.insert(t, ProductionEntry::Terminal),
    forall|g: Tab<L>| #[trigger] final(self).eqs(g) <==> old(self).eqs(g) && nul(g, t),
#fn syntax::metadata::MetadataBuilder::add_terminal
ensures final(self).names == old(self).names, final(self).productions@ == old(self).productions@.insert(t, ProductionEntry::Terminal),
    forall|g: Tab<L>| #[trigger] final(self).eqs(g) <==> old(self).eqs(g) && term_syms(ty, lit).subset_of(g(t)),
#fn syntax::metadata::MetadataBuilder::add_sequence
ensures final(self).names == old(self).names, final(self).productions@.dom() == old(self).productions@.dom().insert(t),
    kids(final(self).productions@, t) == types@, final(self).productions@[t] is Sequence,
    forall|u: TypeId| u != t ==> #[trigger] final(self).productions@[u] == old(self).productions@[u],
    forall|g: Tab<L>| #[trigger] final(self).eqs(g) <==> old(self).eqs(g) && first_seq(g, t, types@),
#fn syntax::metadata::MetadataBuilder::add_union
ensures final(self).names == old(self).names, final(self).productions@.dom() == old(self).productions@.dom().insert(t),
    kids(final(self).productions@, t) == types@, final(self).productions@[t] is Union,
    forall|u: TypeId| u != t ==> #[trigger] final(self).productions@[u] == old(self).productions@[u],
    forall|g: Tab<L>| #[trigger] final(self).eqs(g) <==> old(self).eqs(g) && first_union(g, t, types@),
#fn syntax::metadata::check_left_recursive
#attr #[verifier::exec_allows_no_decreases_clause]
#attr #[verifier::loop_isolation(false)]
requires
    forall|i: int, j: int| 0 <= i < old(stack)@.len() - 1 && j == i + 1 ==> left(prods@, first.at(), #[trigger] old(stack)@[i], #[trigger] old(stack)@[j]),
    forall|u: TypeId| #[trigger] old(set)@.contains(u) <==> old(stack)@.contains(u),
    old(stack)@.no_duplicates(),
    old(set)@.subset_of(old(seen)@),
    old(stack)@.len() > 0 ==> left(prods@, first.at(), old(stack)@.last(), t),
    ranked(prods@, first.at(), old(seen)@.difference(old(set)@)),
ensures
    old(seen)@.subset_of(final(seen)@),
    r is Ok ==> {
        &&& final(seen)@.contains(t) && !final(set)@.contains(t)
        &&& final(set)@ == old(set)@ && final(stack)@ == old(stack)@
        &&& ranked(prods@, first.at(), final(seen)@.difference(final(set)@))
        &&& forall|u: TypeId| #[trigger] old(pending)@.contains(u) ==> final(pending)@.contains(u)
        &&& forall|u: TypeId| #[trigger] final(pending)@.contains(u) ==> old(pending)@.contains(u) || reach(prods@, t, u)
        &&& forall|u: TypeId, i: int| final(seen)@.contains(u) && !old(seen)@.contains(u) && 0 <= i < kids(prods@, u).len() ==>
                final(seen)@.contains(#[trigger] kids(prods@, u)[i]) || final(pending)@.contains(kids(prods@, u)[i])
    },
    r is Err ==> exists|w: Seq<TypeId>| #[trigger] left_cycle(prods@, first.at(), w) && reach(prods@, t, w[0]),
#pre
let ghost p = prods@;
let ghost f = first.at();
let ghost seen0 = seen@;
let ghost set0 = set@;
let ghost stack0 = stack@;
let ghost pend0 = pending@;
proof {
    lemma_reach(p, t);
    if set@.contains(t) {
        assert(stack@.contains(t));
        let k = choose|k: int| 0 <= k < stack@.len() && stack@[k] == t;
        let w = stack@.subrange(k, stack@.len() as int).push(t);
        assert forall|i: int, j: int| 0 <= i < w.len() - 1 && j == i + 1 implies left(p, f, #[trigger] w[i], #[trigger] w[j]) by {
            assert(w[i] == stack@[k + i]);
            if j < w.len() - 1 { assert(w[j] == stack@[k + i + 1]); }
        }
        assert(left_cycle(p, f, w));
    }
}
#before return Ok(())
proof { assert(seen@ =~= seen0); }
#after stack.push
let ghost stack1 = stack@;
let ghost set1 = set@;
proof {
    assert(seen@.difference(set@) =~= seen0.difference(set0));
    assert forall|u: TypeId| #[trigger] set@.contains(u) <==> stack@.contains(u) by {
        if stack0.contains(u) { let k = choose|k: int| 0 <= k < stack0.len() && stack0[k] == u; assert(stack@[k] == u); }
        assert(stack@[stack0.len() as int] == t);
    }
    assert(stack@.last() == t);
}
#loop 0
    invariant vt_it0.s@ == types@, vt_it0.i <= types@.len(), stack@ == stack1, set@ == set1, seen0.insert(t).subset_of(seen@),
        ranked(p, f, seen@.difference(set@)),
        forall|u: TypeId| #[trigger] pend0.contains(u) ==> pending@.contains(u),
        forall|u: TypeId| #[trigger] pending@.contains(u) ==> pend0.contains(u) || reach(p, t, u),
        forall|u: TypeId, i: int| seen@.contains(u) && !seen0.contains(u) && u != t && 0 <= i < kids(p, u).len() ==>
                seen@.contains(#[trigger] kids(p, u)[i]) || pending@.contains(kids(p, u)[i]),
        forall|k: int| 0 <= k < vt_it0.i ==> seen@.contains(#[trigger] types@[k]) && !set@.contains(types@[k]),
#loopstart 0
    let ghost pb = pending@;
    proof {
        let n = vt_it0.i as int;
        lemma_reach(p, t);
        assert(kids(p, t)[n] == types@[n]);
        assert(left(p, f, t, types@[n]));
        assert forall|u: TypeId| #[trigger] reach(p, types@[n], u) implies reach(p, t, u) by { assert(reach(p, kids(p, t)[n], u)); }
    }
#loop 1
    invariant vt_it1.s@ == types@, vt_it1.i <= types@.len(), stack@ == stack1, set@ == set1, seen0.insert(t).subset_of(seen@),
        is_left == nul_to(f, types@, vt_it1.i as int),
        ranked(p, f, seen@.difference(set@)),
        forall|u: TypeId| #[trigger] pend0.contains(u) ==> pending@.contains(u),
        forall|u: TypeId| #[trigger] pending@.contains(u) ==> pend0.contains(u) || reach(p, t, u),
        forall|u: TypeId, i: int| seen@.contains(u) && !seen0.contains(u) && u != t && 0 <= i < kids(p, u).len() ==>
                seen@.contains(#[trigger] kids(p, u)[i]) || pending@.contains(kids(p, u)[i]),
        forall|k: int| 0 <= k < vt_it1.i && nul_to(f, types@, k) ==> seen@.contains(#[trigger] types@[k]) && !set@.contains(types@[k]),
        forall|k: int| 0 <= k < vt_it1.i ==> seen@.contains(#[trigger] types@[k]) || pending@.contains(types@[k]),
#loopstart 1
    let ghost pb = pending@;
    let ghost n = vt_it1.i as int;
    proof {
        lemma_reach(p, t);
        assert(kids(p, t)[n] == types@[n]);
        if is_left { assert(left(p, f, t, types@[n])); }
        assert forall|u: TypeId| #[trigger] reach(p, types@[n], u) implies reach(p, t, u) by { assert(reach(p, kids(p, t)[n], u)); }
        assert(nul_to(f, types@, n + 1) ==> nul(f, types@[n]));
        assert(nul_to(f, types@, n + 1) ==> nul_to(f, types@, n));
    }
#loopend 1
    proof {
        if pending@ != pb && pending@.len() == pb.len() + 1 && pending@ == pb.push(types@[n]) {
            assert(pending@[pb.len() as int] == types@[n]);
            assert forall|u: TypeId| #[trigger] pb.contains(u) implies pending@.contains(u) by { let k = choose|k: int| 0 <= k < pb.len() && pb[k] == u; assert(pending@[k] == u); }
            assert forall|u: TypeId| #[trigger] pending@.contains(u) implies pb.contains(u) || u == types@[n] by { let k = choose|k: int| 0 <= k < pending@.len() && pending@[k] == u; if k < pb.len() { assert(pb[k] == u); } }
        }
    }
#before stack.pop
let ghost d = seen@.difference(set@);
proof {
    assert forall|u: TypeId| #[trigger] left(p, f, t, u) implies d.contains(u) by {
        let i = choose|i: int| 0 <= i < kids(p, t).len() && #[trigger] kids(p, t)[i] == u && (p[t] is Sequence ==> nul_to(f, kids(p, t), i));
        assert(kids(p, t)[i] == u);
    }
    lemma_rank_push(p, f, d, t);
}
#after set.remove
proof {
    assert(stack@ =~= stack0);
    assert(set@ =~= set0);
    assert(seen@.difference(set@) =~= d.insert(t));
}
#fn syntax::metadata::build_jump
#attr #[verifier::exec_allows_no_decreases_clause]
#attr #[verifier::loop_isolation(false)]
requires
    forall|u: TypeId| #[trigger] reach(prods@, t, u) && prods@.dom().contains(u) && prods@[u] is Union ==> union_ok(first.at(), kids(prods@, u)),
    forall|u: TypeId| !old(seen)@.contains(u) ==> !#[trigger] old(jump).map@.dom().contains(u),
ensures
    old(seen)@.subset_of(final(seen)@), final(seen)@.contains(t),
    forall|u: TypeId| #[trigger] old(seen)@.contains(u) ==> same_entry(*old(jump), *final(jump), u),
    forall|u: TypeId| !final(seen)@.contains(u) ==> !#[trigger] final(jump).map@.dom().contains(u),
    forall|u: TypeId| #[trigger] final(seen)@.contains(u) && !old(seen)@.contains(u) ==> choice_ok(prods@, first.at(), *final(jump), u)
        && (forall|i: int| 0 <= i < kids(prods@, u).len() ==> final(seen)@.contains(#[trigger] kids(prods@, u)[i])),
#pre
let ghost p = prods@;
let ghost f = first.at();
let ghost seen0 = seen@;
let ghost jump0 = *jump;
proof { lemma_reach(p, t); }
#loop 0
    invariant vt_it0.s@ == types@, vt_it0.i <= types@.len(), seen0.insert(t).subset_of(seen@),
        forall|u: TypeId| #[trigger] seen0.contains(u) || u == t ==> same_entry(jump0, *jump, u),
        forall|u: TypeId| !seen@.contains(u) ==> !#[trigger] jump.map@.dom().contains(u),
        forall|u: TypeId| #[trigger] seen@.contains(u) && !seen0.contains(u) && u != t ==> choice_ok(p, f, *jump, u)
            && (forall|i: int| 0 <= i < kids(p, u).len() ==> seen@.contains(#[trigger] kids(p, u)[i])),
        forall|k: int| 0 <= k < vt_it0.i ==> seen@.contains(#[trigger] types@[k]),
#loopstart 0
    proof {
        lemma_reach(p, t);
        let n = vt_it0.i as int;
        assert(kids(p, t)[n] == types@[n]);
        assert forall|u: TypeId| #[trigger] reach(p, types@[n], u) implies reach(p, t, u) by { assert(reach(p, kids(p, t)[n], u)); }
    }
    let ghost jb = *jump;
    let ghost sb = seen@;
#loopend 0
    proof {
        assert forall|u: TypeId| #[trigger] seen0.contains(u) || u == t implies same_entry(jump0, *jump, u) by { assert(seen0.insert(t).contains(u)); assert(sb.contains(u)); lemma_same(jump0, jb, *jump, u); }
        assert forall|u: TypeId| #[trigger] seen@.contains(u) && !seen0.contains(u) && u != t implies choice_ok(p, f, *jump, u)
            && (forall|i: int| 0 <= i < kids(p, u).len() ==> seen@.contains(#[trigger] kids(p, u)[i])) by {
            if sb.contains(u) { lemma_choice_frame(p, f, jb, *jump, u); }
        }
    }
#loop 1
    invariant vt_it1.s@ == types@, vt_it1.i <= types@.len(), seen0.insert(t).subset_of(seen@),
        forall|u: TypeId| #[trigger] seen0.contains(u) ==> same_entry(jump0, *jump, u),
        forall|u: TypeId| !seen@.contains(u) ==> !#[trigger] jump.map@.dom().contains(u),
        forall|u: TypeId| #[trigger] seen@.contains(u) && !seen0.contains(u) && u != t ==> choice_ok(p, f, *jump, u)
            && (forall|i: int| 0 <= i < kids(p, u).len() ==> seen@.contains(#[trigger] kids(p, u)[i])),
        forall|k: int| 0 <= k < vt_it1.i ==> seen@.contains(#[trigger] types@[k]),
        choice_to(f, *jump, t, types@, vt_it1.i as int),
#loopstart 1
    let ghost n = vt_it1.i as int;
    let ghost jb = *jump;
    let ghost sb = seen@;
    proof {
        lemma_reach(p, t);
        assert(kids(p, t)[n] == types@[n]);
        assert forall|u: TypeId| #[trigger] reach(p, types@[n], u) implies reach(p, t, u) by { assert(reach(p, kids(p, t)[n], u)); }
        assert(union_ok(f, types@));
        assert forall|s: Sym<L>| f(types@[n]).contains(s) implies #[trigger] jump.direct(t, s) is None by {
            assert forall|i: int| 0 <= i < n implies !f(#[trigger] types@[i]).contains(s) by {
                if f(types@[i]).contains(s) { assert(meets(f(types@[i]), f(types@[n]))); }
            }
        }
    }
#after jump.register
let ghost ja = *jump;
proof {
    assert(choice_to(f, ja, t, types@, n + 1)) by {
        assert forall|s: Sym<L>, i: int| 0 <= i < n + 1 && f(#[trigger] types@[i]).contains(s) implies #[trigger] ja.direct(t, s) == Some(i as usize) by {
            if i < n { if f(types@[n]).contains(s) { assert(meets(f(types@[i]), f(types@[n]))); } assert(jb.direct(t, s) == Some(i as usize)); }
        }
        assert forall|s: Sym<L>| (forall|i: int| 0 <= i < n + 1 ==> !f(#[trigger] types@[i]).contains(s)) implies #[trigger] ja.direct(t, s) is None by {
            assert(!f(types@[n]).contains(s));
            assert(jb.direct(t, s) is None);
        }
    }
}
#loopend 1
    proof {
        assert(same_entry(ja, *jump, t));
        lemma_choice_to(f, ja, *jump, t, types@, n + 1);
        assert forall|u: TypeId| #[trigger] seen0.contains(u) implies same_entry(jump0, *jump, u) by { assert(seen0.insert(t).contains(u)); assert(sb.contains(u)); assert(u != t); assert(same_entry(jb, ja, u)); lemma_same(jump0, jb, ja, u); lemma_same(jump0, ja, *jump, u); }
        assert forall|u: TypeId| #[trigger] seen@.contains(u) && !seen0.contains(u) && u != t implies choice_ok(p, f, *jump, u)
            && (forall|i: int| 0 <= i < kids(p, u).len() ==> seen@.contains(#[trigger] kids(p, u)[i])) by {
            if sb.contains(u) { assert(same_entry(jb, ja, u)); lemma_choice_frame(p, f, jb, ja, u); lemma_choice_frame(p, f, ja, *jump, u); }
        }
    }
#fn syntax::metadata::MetadataBuilder::build
#attr #[verifier::exec_allows_no_decreases_clause]
ensures
    r is Ok ==> {
        let m = (r->Ok_0);
        &&& least(m.first.at(), self.first_builder.rels@)
        &&& follow_least(self.productions@, m.first.at(), m.follow.at(), root)
        &&& ll1(self.productions@, m.first.at(), m.follow.at(), root)
        &&& forall|u: TypeId| #[trigger] reach(self.productions@, root, u) ==> choice_ok(self.productions@, m.first.at(), m.jump, u)
    },
    r is Err ==> exists|f: Tab<L>, g: Tab<L>| least(f, self.first_builder.rels@) && follow_least(self.productions@, f, g, root) && !ll1(self.productions@, f, g, root),
#pre
let ghost p = self.productions@;
let ghost fb = self.first_builder.rels@;
#after let first =
let ghost f = first.at();
#loop 0
    invariant vt_it0.m() == p, vt_it0.left().subset_of(p.dom()), follow_builder.first == &first, f == first.at(),
        forall|g: Tab<L>| #[trigger] follow_builder.all(g) <==> (forall|t: TypeId| p.dom().contains(t) && !vt_it0.left().contains(t) ==> #[trigger] follow_eqs(p, f, g, t)),
    decreases vt_it0.left().len()
#loopstart 0
    let ghost left0 = vt_it0.left();
    let ghost fb0 = follow_builder;
#loopend 0
    proof {
        let k = *t;
        assert forall|g: Tab<L>| #[trigger] follow_builder.all(g) <==> (forall|t: TypeId| p.dom().contains(t) && !vt_it0.left().contains(t) ==> #[trigger] follow_eqs(p, f, g, t)) by {
            assert(follow_builder.all(g) <==> fb0.all(g) && follow_eqs(p, f, g, k));
            if follow_builder.all(g) {
                assert forall|t: TypeId| p.dom().contains(t) && !vt_it0.left().contains(t) implies #[trigger] follow_eqs(p, f, g, t) by { if t != k { assert(!left0.contains(t)); } }
            }
        }
    }
#after let follow = follow_builder
let ghost g = follow.at();
let ghost rs = follow_builder.rels@;
proof {
    assert(fleast(f, g, rs, root));
    assert forall|h: Tab<L>| #[trigger] follow_sol(p, f, h, root) <==> fok(f, h, rs, root) by { assert(follow_builder.all(h) == fall_hold(f, h, rs)); }
    assert(follow_sol(p, f, g, root));
    assert(follow_least(p, f, g, root));
    assert(least(f, fb));
}
#after check_conflicts
proof {
    let s = seen@.to_iset();
    assert(closed(p, s));
    assert forall|u: TypeId| #[trigger] reach(p, root, u) implies local_ok(p, f, g, u) by { assert(s.contains(root)); assert(s.contains(u)); }
}
#before let mut jump
proof {
    let s = seen@.to_iset();
    assert(closed(p, s));
    assert(seen@.difference(set@) =~= seen@);
    lemma_ranked_acyclic(p, f, seen@);
    assert forall|w: Seq<TypeId>| #[trigger] left_cycle(p, f, w) implies !reach(p, root, w[0]) by { if reach(p, root, w[0]) { assert(s.contains(w[0])); } }
    assert(ll1(p, f, g, root));
    assert forall|u: TypeId| #[trigger] reach(p, root, u) && p.dom().contains(u) && p[u] is Union implies union_ok(f, kids(p, u)) by { reveal(local_ok); assert(local_ok(p, f, g, u)); }
}
#after build_jump
proof {
    let s = seen@.to_iset();
    assert(closed(p, s));
    assert forall|u: TypeId| #[trigger] reach(p, root, u) implies choice_ok(p, f, jump, u) by { assert(s.contains(u)); }
}
#loopbefore 1
proof {
    assert(seen@.difference(set@) =~= Set::<TypeId>::empty());
    assert(is_order(p, f, Set::<TypeId>::empty(), Seq::<TypeId>::empty()));
    lemma_reach(p, root);
    assert(pending@[0] == root);
    assert(pending@.contains(root));
}
#loop 1
    invariant stack@.len() == 0, set@ == Set::<TypeId>::empty(), ranked(p, f, seen@.difference(set@)),
        p == prods@, f == first.at(), g == follow.at(), least(f, fb), follow_least(p, f, g, root),
        fb == self.first_builder.rels@, p == self.productions@,
        forall|u: TypeId| #[trigger] reach(p, root, u) ==> local_ok(p, f, g, u),
        forall|u: TypeId| #[trigger] pending@.contains(u) ==> reach(p, root, u),
        seen@.contains(root) || pending@.contains(root),
        forall|u: TypeId, i: int| seen@.contains(u) && 0 <= i < kids(p, u).len() ==> seen@.contains(#[trigger] kids(p, u)[i]) || pending@.contains(kids(p, u)[i]),
    ensures pending@.len() == 0,
#loopstart 1
    let ghost pend2 = pending@;
    proof {
        if pend2.len() > 0 {
            let t = pend2.last();
            let pend1 = pend2.drop_last();
            assert(pend2.contains(t));
            assert forall|u: TypeId| #[trigger] pend2.contains(u) implies pend1.contains(u) || u == t by { let k = choose|k: int| 0 <= k < pend2.len() && pend2[k] == u; if k < pend1.len() { assert(pend1[k] == u); } }
            assert forall|u: TypeId| #[trigger] pend1.contains(u) implies pend2.contains(u) by { let k = choose|k: int| 0 <= k < pend1.len() && pend1[k] == u; assert(pend2[k] == u); }
            assert forall|u: TypeId| #[trigger] reach(p, t, u) implies reach(p, root, u) by { lemma_reach_trans(p, root, t, u); }
        }
    }
#mod syntax::metadata
/// g is the least solution of the FOLLOW equations of all productions, with the end of input after the root
pub open spec fn follow_sol<L: Lexicon>(p: Prods, f: Tab<L>, g: Tab<L>, root: TypeId) -> bool {
    (forall|t: TypeId| p.dom().contains(t) ==> #[trigger] follow_eqs(p, f, g, t)) && g(root).contains(None)
}
pub open spec fn follow_least<L: Lexicon>(p: Prods, f: Tab<L>, g: Tab<L>, root: TypeId) -> bool {
    follow_sol(p, f, g, root) && forall|h: Tab<L>| #[trigger] follow_sol(p, f, h, root) ==> below(g, h)
}
/// no conflict and no left recursion in what can be reached from the root
pub open spec fn ll1<L: Lexicon>(p: Prods, f: Tab<L>, g: Tab<L>, root: TypeId) -> bool {
    &&& forall|u: TypeId| #[trigger] reach(p, root, u) ==> local_ok(p, f, g, u)
    &&& forall|w: Seq<TypeId>| #[trigger] left_cycle(p, f, w) ==> !reach(p, root, w[0])
}
pub proof fn lemma_same<L: Lexicon>(a: Jump<L>, b: Jump<L>, c: Jump<L>, t: TypeId)
    requires same_entry(a, b, t), same_entry(b, c, t)
    ensures same_entry(a, c, t)
{
    assert forall|s: Sym<L>| (#[trigger] a.direct(t, s)) == c.direct(t, s) by { assert(a.direct(t, s) == b.direct(t, s)); assert(b.direct(t, s) == c.direct(t, s)); }
}
pub proof fn lemma_choice_to<L: Lexicon>(f: Tab<L>, a: Jump<L>, b: Jump<L>, t: TypeId, ys: Seq<TypeId>, n: int)
    requires same_entry(a, b, t), choice_to(f, a, t, ys, n)
    ensures choice_to(f, b, t, ys, n)
{
    assert forall|s: Sym<L>| (#[trigger] b.direct(t, s)) == a.direct(t, s) by { assert(a.direct(t, s) == b.direct(t, s)); }
}
pub proof fn lemma_choice_frame<L: Lexicon>(p: Prods, f: Tab<L>, a: Jump<L>, b: Jump<L>, t: TypeId)
    requires same_entry(a, b, t), choice_ok(p, f, a, t)
    ensures choice_ok(p, f, b, t)
{
    assert(forall|s: Sym<L>| (#[trigger] b.direct(t, s)) == a.direct(t, s)) by {
        assert forall|s: Sym<L>| (#[trigger] b.direct(t, s)) == a.direct(t, s) by { assert(a.direct(t, s) == b.direct(t, s)); }
    }
}
