# C13-C19: what parsing a node of the tree does
#mod syntax::ast
use crate::shim::*;
/// the production of a type: what it documents to accept
pub enum Rule<L: Lexicon> { Eps, Tok(L, Option<&'static str>), Parts(Seq<TypeId>), Either(Seq<TypeId>) }
/// the production that goes with an id
pub uninterp spec fn rule_of<L: Lexicon>(t: TypeId) -> Rule<L>;
/// ids are one to one with types, so the rule of the id is the rule of the type
pub axiom fn rules<T: Production>() ensures rule_of::<T::L>(T::tid()) == T::rule();
#trait syntax::ast::Production
spec fn tid() -> TypeId;
spec fn rule() -> Rule<Self::L>;
#fn syntax::ast::Production::id
ensures r == Self::tid(),
#fn syntax::ast::Epsilon as Production::id
ensures r == Self::tid(),
#impl syntax::ast::Epsilon as Production
open spec fn tid() -> TypeId { type_id::<Epsilon<L>>() }
open spec fn rule() -> Rule<L> { Rule::Eps }
#impl tp_impl::boxed::Box as Production
open spec fn tid() -> TypeId { T::tid() }
open spec fn rule() -> crate::syntax::ast::Rule<T::L> { T::rule() }
#impl tp_impl::iter::OneOrMore as Production
open spec fn tid() -> TypeId { type_id::<OneOrMore<T>>() }
open spec fn rule() -> crate::syntax::ast::Rule<T::L> { crate::syntax::ast::Rule::Parts(seq![T::tid(), type_id::<OptionProd<OneOrMore<T>>>()]) }
#impl tp_impl::option::OptionProd as Production
open spec fn tid() -> TypeId { type_id::<OptionProd<T>>() }
open spec fn rule() -> crate::syntax::ast::Rule<T::L> { crate::syntax::ast::Rule::Either(seq![T::tid(), type_id::<Epsilon<T::L>>()]) }
#impl tp_impl::punct::PunctProd as Production
open spec fn tid() -> TypeId { type_id::<PunctProd<T, P>>() }
open spec fn rule() -> crate::syntax::ast::Rule<T::L> { crate::syntax::ast::Rule::Parts(seq![T::tid(), type_id::<OptionProd<(P, OptionProd<PunctProd<T, P>>)>>()]) }
#impl tp_impl::tuple::(A,B) as Production
open spec fn tid() -> TypeId { type_id::<(A, B)>() }
open spec fn rule() -> crate::syntax::ast::Rule<A::L> { crate::syntax::ast::Rule::Parts(seq![A::tid(), B::tid()]) }
#impl tp_impl::tuple::(A,B,C) as Production
open spec fn tid() -> TypeId { type_id::<(A, B, C)>() }
open spec fn rule() -> crate::syntax::ast::Rule<A::L> { crate::syntax::ast::Rule::Parts(seq![A::tid(), B::tid(), C::tid()]) }
#impl tp_impl::tuple::(A,B,C,D) as Production
open spec fn tid() -> TypeId { type_id::<(A, B, C, D)>() }
open spec fn rule() -> crate::syntax::ast::Rule<A::L> { crate::syntax::ast::Rule::Parts(seq![A::tid(), B::tid(), C::tid(), D::tid()]) }
#impl tp_impl::tuple::(A,B,C,D,E) as Production
open spec fn tid() -> TypeId { type_id::<(A, B, C, D, E)>() }
open spec fn rule() -> crate::syntax::ast::Rule<A::L> { crate::syntax::ast::Rule::Parts(seq![A::tid(), B::tid(), C::tid(), D::tid(), E::tid()]) }

# ------------------------------------------------------------------ spans of nodes
#impl tp_impl::node::Node as ToSpan
open spec fn slo(&self) -> usize { self.span.lo }
open spec fn shi(&self) -> usize { self.span.hi }
#impl tp_impl::boxed::Box as ToSpan
open spec fn slo(&self) -> usize { (**self).slo() }
open spec fn shi(&self) -> usize { (**self).shi() }
#impl tp_impl::option::Optional as ToSpan
open spec fn slo(&self) -> usize { self.0.span.lo }
open spec fn shi(&self) -> usize { self.0.span.hi }
#impl tp_impl::option::Exists as ToSpan
open spec fn slo(&self) -> usize { self.0.span.lo }
open spec fn shi(&self) -> usize { self.0.span.hi }
#impl tp_impl::iter::Plus as ToSpan
open spec fn slo(&self) -> usize { self.0.span.lo }
open spec fn shi(&self) -> usize { self.0.span.hi }
#impl tp_impl::iter::Star as ToSpan
open spec fn slo(&self) -> usize { self.0.span.lo }
open spec fn shi(&self) -> usize { self.0.span.hi }
#impl tp_impl::iter::Loop as ToSpan
open spec fn slo(&self) -> usize { self.0.span.lo }
open spec fn shi(&self) -> usize { self.0.span.hi }
#impl tp_impl::split::Split as ToSpan
open spec fn slo(&self) -> usize { self.elems.span.lo }
open spec fn shi(&self) -> usize { self.elems.span.hi }
#impl tp_impl::punct::Punct as ToSpan
open spec fn slo(&self) -> usize { self.span.lo }
open spec fn shi(&self) -> usize { self.span.hi }
#impl tp_impl::recover::Recover as ToSpan
open spec fn slo(&self) -> usize { self.head.span.lo }
open spec fn shi(&self) -> usize { self.tail.shi() }
#impl tp_impl::string::Quote as ToSpan
open spec fn slo(&self) -> usize { self.0.span.lo }
open spec fn shi(&self) -> usize { self.0.span.hi }
#impl tp_impl::string::Parse as ToSpan
open spec fn slo(&self) -> usize { self.0.span.lo }
open spec fn shi(&self) -> usize { self.0.span.hi }
#fn tp_impl::iter::OneOrMore as Production::register
#opaque
#fn tp_impl::punct::PunctProd as Production::register
#opaque

# ------------------------------------------------------------------ the contract of every node
#mod parser::tree
use crate::shim::*;
use crate::lex::vec::*;
use crate::lex::{Lexicon, Span};
use crate::lex::span::on_chars;
use crate::syntax::Result as SynResult;
use crate::syntax::ast::{Rule, rule_of, rules};
use crate::syntax::term_set::*;
use crate::syntax::first::{Tab, nul, nul_to};
use crate::syntax::follow::{follow_seq, follow_union};
use crate::syntax::metadata::{union_ok, seq_ok, self_ok, choice_to};
use crate::parser::parser_impl::*;
pub open spec fn parts<L: Lexicon>(t: TypeId) -> Seq<TypeId> {
    match rule_of::<L>(t) { Rule::Parts(v) => v, Rule::Either(v) => v, _ => Seq::empty() }
}
/// u can be the first thing of t
pub open spec fn begins<L: Lexicon>(f: Tab<L>, t: TypeId, u: TypeId) -> bool {
    exists|i: int| 0 <= i < parts::<L>(t).len() && #[trigger] parts::<L>(t)[i] == u && (rule_of::<L>(t) is Parts ==> nul_to(f, parts::<L>(t), i))
}
pub open spec fn begin_cycle<L: Lexicon>(f: Tab<L>, w: Seq<TypeId>) -> bool {
    w.len() >= 2 && w[0] == w[w.len() - 1] && forall|i: int, j: int| 0 <= i < w.len() - 1 && j == i + 1 ==> begins(f, #[trigger] w[i], #[trigger] w[j])
}
/// s can be the first token of the sequence
pub open spec fn starts_seq<L: Lexicon>(f: Tab<L>, ys: Seq<TypeId>, s: Sym<L>) -> bool {
    exists|k: int| 0 <= k < ys.len() && nul_to(f, ys, k) && f(#[trigger] ys[k]).contains(s)
}
pub open spec fn starts_one<L: Lexicon>(f: Tab<L>, ys: Seq<TypeId>, s: Sym<L>) -> bool {
    exists|k: int| 0 <= k < ys.len() && f(#[trigger] ys[k]).contains(s)
}
/// the tables are right for the production t: FIRST is exact, FOLLOW is closed, no conflict, no left recursion
pub open spec fn entry<L: Lexicon>(m: Metadata<L>, t: TypeId) -> bool {
    let f = m.first.at();
    let g = m.follow.at();
    &&& match rule_of::<L>(t) {
        Rule::Eps => forall|s: Sym<L>| #[trigger] f(t).contains(s) <==> s is None,
        Rule::Tok(ty, lit) => f(t) == term_syms(ty, lit),
        Rule::Parts(v) => {
            &&& forall|s: Sym<L>| s is Some ==> (#[trigger] f(t).contains(s) <==> starts_seq(f, v, s))
            &&& nul(f, t) <==> nul_to(f, v, v.len() as int)
            &&& seq_ok(f, v) && self_ok(f, g, t) && follow_seq(f, g, t, v)
        },
        Rule::Either(v) => {
            &&& forall|s: Sym<L>| #[trigger] f(t).contains(s) <==> starts_one(f, v, s)
            &&& union_ok(f, v) && self_ok(f, g, t) && follow_union(g, t, v) && choice_to(f, m.jump, t, v, v.len() as int)
        },
    }
    &&& forall|w: Seq<TypeId>| #[trigger] begin_cycle(f, w) ==> w[0] != t
}
pub open spec fn sound<L: Lexicon>(m: Metadata<L>, d: ISet<TypeId>) -> bool {
    forall|t: TypeId| #[trigger] d.contains(t) ==> entry(m, t) && forall|i: int| 0 <= i < parts::<L>(t).len() ==> d.contains(#[trigger] parts::<L>(t)[i])
}
/// the tables are right for t and everything it is made of
pub closed spec fn fits<L: Lexicon>(m: Metadata<L>, t: TypeId) -> bool {
    exists|d: ISet<TypeId>| #[trigger] sound(m, d) && d.contains(t)
}
pub broadcast proof fn fits_entry<L: Lexicon>(m: Metadata<L>, t: TypeId)
    requires #[trigger] fits(m, t)
    ensures entry(m, t), forall|i: int| 0 <= i < parts::<L>(t).len() ==> fits(m, #[trigger] parts::<L>(t)[i])
{
    let d = choose|d: ISet<TypeId>| #[trigger] sound(m, d) && d.contains(t);
    assert forall|i: int| 0 <= i < parts::<L>(t).len() implies fits(m, #[trigger] parts::<L>(t)[i]) by { assert(d.contains(parts::<L>(t)[i])); }
}
/// the next token can begin t
pub open spec fn hits<'s, L: Lexicon>(m: Metadata<L>, t: TypeId, p: Parser<'s, L>) -> bool { p.sym() is Some && m.first.at()(t).contains(p.sym()) }
/// lo..hi lies between the last token taken before and the last token taken by the end, at characters
pub open spec fn placed<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, lo: usize, hi: usize) -> bool {
    a.end() <= lo <= hi <= b.end() && on_char(a.info.source, lo as int) && on_char(a.info.source, hi as int)
}
/// C13: recovered and failed parses come with an error
pub open spec fn told<T, L: Lexicon>(r: SynResult<T, L>) -> bool {
    match r { SynResult::Success(_) => true, SynResult::Recovered(_, e) => e@.len() > 0, SynResult::Panic(e) => e@.len() > 0 }
}
/// C14
pub open spec fn in_place<'s, T: ToSpan, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, r: SynResult<T, L>) -> bool {
    match r { SynResult::Success(x) => placed(a, b, x.slo(), x.shi()), SynResult::Recovered(x, _) => placed(a, b, x.slo(), x.shi()), SynResult::Panic(_) => true }
}
/// C18: what can begin with the next token takes at least that token
pub open spec fn moved<'s, L: Lexicon>(m: Metadata<L>, t: TypeId, a: Parser<'s, L>, b: Parser<'s, L>) -> bool {
    hits(m, t, a) ==> a.taken().len() < b.taken().len()
}
/// what can be empty is empty when the next token cannot begin it
pub open spec fn idle<'s, T, L: Lexicon>(m: Metadata<L>, t: TypeId, a: Parser<'s, L>, b: Parser<'s, L>, r: SynResult<T, L>) -> bool {
    nul(m.first.at(), t) && !hits(m, t, a) ==> r is Success && look(a, b)
}
pub broadcast proof fn step_moves<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>)
    requires #[trigger] step(a, b), a.wf()
    ensures b.wf(), a.end() <= b.end(), a.taken().len() <= b.taken().len(), b.ahead().len() == a.taken().len() + a.ahead().len() - b.taken().len(),
        b.info.source == a.info.source, on_char(a.info.source, b.end()), 
        a.taken().len() == b.taken().len() ==> b.ahead() == a.ahead() && b.sym() == a.sym() && b.here() == a.here() && b.end() == a.end(),
{
    let n = a.info.tokens@.len() as int;
    vstd::utf8::encode_utf8_valid_utf8(a.info.source@); vstd::utf8::is_char_boundary_start_end_of_seq(bytes(a.info.source));
    assert((b.taken() + b.ahead()).len() == (a.taken() + a.ahead()).len());
    if n > 0 { assert(b.info.tokens@[n - 1].token == a.info.tokens@[n - 1].token); assert(b.taken()[n - 1] == a.taken()[n - 1]); }
    if a.taken().len() == b.taken().len() {
        assert(b.ahead() =~= (b.taken() + b.ahead()).skip(n));
        assert(a.ahead() =~= (a.taken() + a.ahead()).skip(n));
    }
}
pub open spec fn errs<T, L: Lexicon>(r: SynResult<T, L>) -> Seq<crate::syntax::Error<L>> {
    match r { SynResult::Success(_) => Seq::empty(), SynResult::Recovered(_, e) => e@, SynResult::Panic(e) => e@ }
}
pub open spec fn got<T, L: Lexicon>(r: SynResult<T, L>) -> Option<T> {
    match r { SynResult::Success(x) => Some(x), SynResult::Recovered(x, _) => Some(x), SynResult::Panic(_) => None }
}
/// what the token is to the grammar
pub open spec fn sym_of<L: Lexicon>(t: crate::lex::Token<L>, src: &str) -> Sym<L> { Some((t.ty, text(t.span, src))) }
/// the tokens taken between a and b
pub open spec fn word<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>) -> Seq<Sym<L>> {
    b.taken().skip(a.taken().len() as int).map_values(|t: crate::lex::Token<L>| sym_of(t, b.info.source))
}
pub proof fn word_cat<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, c: Parser<'s, L>)
    requires step(a, b), step(b, c)
    ensures step(a, c), word(a, c) == word(a, b) + word(b, c)
{
    step_trans(a, b, c);
    let n = a.taken().len() as int;
    assert forall|i: int| 0 <= i < b.taken().len() implies c.taken()[i] == b.taken()[i] by { assert(c.info.tokens@[i].token == b.info.tokens@[i].token); }
    assert(c.taken().len() >= b.taken().len() >= n);
    assert(word(a, c) =~= word(a, b) + word(b, c));
}
pub proof fn word_look<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>)
    requires look(a, b)
    ensures step(a, b), word(a, b) == Seq::<Sym<L>>::empty()
{ assert(word(a, b) =~= Seq::<Sym<L>>::empty()); }
#trait parser::tree::Produce
/// C15: the token sequences the production documents to accept
spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool;
/// C15: what was parsed without errors is one of them
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: crate::syntax::Result<Self, <Self::Prod as Production>::L>)
    requires a.wf(), Self::did(m, a, b, r), r is Success
    ensures step(a, b), Self::says(word(a, b));
/// how the result comes from the results of the parts, where that can be said in one formula (C13, C17, C19)
spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: crate::syntax::Result<Self, <Self::Prod as Production>::L>) -> bool;
#fn parser::tree::Produce::produce
requires old(parser).wf(), fits(*meta, <Self::Prod as Production>::tid()),
ensures
    step(*old(parser), *final(parser)),
    told(r),
    Self::did(*meta, *old(parser), *final(parser), r),
    in_place(*old(parser), *final(parser), r),
    moved(*meta, <Self::Prod as Production>::tid(), *old(parser), *final(parser)),
    idle(*meta, <Self::Prod as Production>::tid(), *old(parser), *final(parser), r),
#fn parser::tree::Produce::prod_id
ensures r == <Self::Prod as Production>::tid(),
#mod parser::tree
/// s can begin what is left of the sequence from position k on
pub open spec fn begins_at<L: Lexicon>(f: Tab<L>, v: Seq<TypeId>, k: int, s: Sym<L>) -> bool decreases v.len() - k {
    0 <= k < v.len() && (f(v[k]).contains(s) || nul(f, v[k]) && begins_at(f, v, k + 1, s))
}
pub open spec fn nul_at<L: Lexicon>(f: Tab<L>, v: Seq<TypeId>, k: int) -> bool decreases v.len() - k {
    0 <= k < v.len() ==> nul(f, v[k]) && nul_at(f, v, k + 1)
}
pub proof fn begins_from<L: Lexicon>(f: Tab<L>, v: Seq<TypeId>, k: int, s: Sym<L>)
    requires 0 <= k <= v.len()
    ensures begins_at(f, v, k, s) <==> exists|i: int| k <= i < v.len() && (forall|j: int| k <= j < i ==> nul(f, #[trigger] v[j])) && f(#[trigger] v[i]).contains(s),
        nul_at(f, v, k) <==> forall|j: int| k <= j < v.len() ==> nul(f, #[trigger] v[j]),
    decreases v.len() - k
{
    if k < v.len() {
        begins_from(f, v, k + 1, s);
        if begins_at(f, v, k, s) {
            if f(v[k]).contains(s) {} else {
                let i = choose|i: int| k + 1 <= i < v.len() && (forall|j: int| k + 1 <= j < i ==> nul(f, #[trigger] v[j])) && f(#[trigger] v[i]).contains(s);
                assert(k <= i < v.len() && (forall|j: int| k <= j < i ==> nul(f, #[trigger] v[j])) && f(v[i]).contains(s));
            }
        }
        if exists|i: int| k <= i < v.len() && (forall|j: int| k <= j < i ==> nul(f, #[trigger] v[j])) && f(#[trigger] v[i]).contains(s) {
            let i = choose|i: int| k <= i < v.len() && (forall|j: int| k <= j < i ==> nul(f, #[trigger] v[j])) && f(#[trigger] v[i]).contains(s);
            if i > k { assert(nul(f, v[k])); assert(k + 1 <= i < v.len() && (forall|j: int| k + 1 <= j < i ==> nul(f, #[trigger] v[j])) && f(v[i]).contains(s)); }
        }
    }
}
/// what the tables say about a sequence
pub proof fn of_parts<P: Production>(m: Metadata<P::L>, v: Seq<TypeId>)
    requires fits(m, P::tid()), P::rule() == Rule::<P::L>::Parts(v)
    ensures entry(m, P::tid()), rule_of::<P::L>(P::tid()) == Rule::<P::L>::Parts(v), parts::<P::L>(P::tid()) == v,
        forall|i: int| 0 <= i < v.len() ==> fits(m, #[trigger] v[i]),
        forall|s: Sym<P::L>| s is Some ==> (#[trigger] m.first.at()(P::tid()).contains(s) <==> begins_at(m.first.at(), v, 0, s)),
        nul(m.first.at(), P::tid()) <==> nul_at(m.first.at(), v, 0),
{
    let f = m.first.at();
    rules::<P>();
    fits_entry(m, P::tid());
    assert forall|i: int| 0 <= i < v.len() implies fits(m, #[trigger] v[i]) by { assert(fits(m, parts::<P::L>(P::tid())[i])); }
    begins_from(f, v, 0, None);
    assert forall|s: Sym<P::L>| s is Some implies (#[trigger] f(P::tid()).contains(s) <==> begins_at(f, v, 0, s)) by {
        begins_from(f, v, 0, s);
        assert(f(P::tid()).contains(s) <==> starts_seq(f, v, s));
    }
}
/// ... and about a choice
pub proof fn of_either<P: Production>(m: Metadata<P::L>, v: Seq<TypeId>)
    requires fits(m, P::tid()), P::rule() == Rule::<P::L>::Either(v)
    ensures entry(m, P::tid()), rule_of::<P::L>(P::tid()) == Rule::<P::L>::Either(v), parts::<P::L>(P::tid()) == v,
        forall|i: int| 0 <= i < v.len() ==> fits(m, #[trigger] v[i]),
        forall|s: Sym<P::L>| #[trigger] m.first.at()(P::tid()).contains(s) <==> starts_one(m.first.at(), v, s),
{
    rules::<P>();
    fits_entry(m, P::tid());
    assert forall|i: int| 0 <= i < v.len() implies fits(m, #[trigger] v[i]) by { assert(fits(m, parts::<P::L>(P::tid())[i])); }
}
/// FIRST of an optional
pub proof fn of_option<P: Production, O: Production<L = P::L>>(m: Metadata<P::L>)
    requires fits(m, O::tid()), O::rule() == Rule::<P::L>::Either(seq![P::tid(), crate::syntax::Epsilon::<P::L>::tid()])
    ensures fits(m, P::tid()), nul(m.first.at(), O::tid()), !nul(m.first.at(), P::tid()),
        rule_of::<P::L>(O::tid()) == Rule::<P::L>::Either(seq![P::tid(), crate::syntax::Epsilon::<P::L>::tid()]), entry(m, O::tid()),
        parts::<P::L>(O::tid()) == seq![P::tid(), crate::syntax::Epsilon::<P::L>::tid()],
        forall|s: Sym<P::L>| s is Some ==> (#[trigger] m.first.at()(O::tid()).contains(s) <==> m.first.at()(P::tid()).contains(s)),
{
    let f = m.first.at();
    let e = crate::syntax::Epsilon::<P::L>::tid();
    let v = seq![P::tid(), e];
    of_either::<O>(m, v);
    rules::<crate::syntax::Epsilon::<P::L>>();
    assert(fits(m, v[0]));
    assert(fits(m, v[1]));
    fits_entry(m, e);
    assert(f(v[1]).contains(None));
    assert(starts_one(f, v, None));
    if nul(f, P::tid()) { assert(meets(f(v[0]), f(v[1]))); }
    assert forall|s: Sym<P::L>| s is Some implies (#[trigger] f(O::tid()).contains(s) <==> f(P::tid()).contains(s)) by {
        if f(P::tid()).contains(s) { assert(f(v[0]).contains(s)); assert(starts_one(f, v, s)); }
        if f(O::tid()).contains(s) { assert(starts_one(f, v, s)); assert(!f(v[1]).contains(s)); }
    }
}
#mod tp_impl::tuple
use crate::parser::tree::*;
#impl tp_impl::tuple::(A,B) as Produce
open spec fn did<'s>(m: crate::syntax::Metadata<<Self::Prod as Production>::L>, a: crate::parser::Parser<'s, <Self::Prod as Production>::L>, b: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r: crate::syntax::Result<Self, <Self::Prod as Production>::L>) -> bool {
    ||| exists|r1: crate::syntax::Result<A, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, b, r1) && errs(r) =~= errs(r1) && r1 is Panic && r is Panic && told(r1)
    ||| exists|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && !(r1 is Panic) && #[trigger] B::did(m, p1, b, r2) && errs(r) =~= errs(r1) + errs(r2) && (if r2 is Panic { r is Panic } else { got(r) == Some((got(r1)->0, got(r2)->0)) }) && told(r1) && told(r2)
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool {
    exists|w1: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w2: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>| #[trigger] A::says(w1) && #[trigger] B::says(w2) && w == w1 + w2
}
proof fn did_says<'s>(m: crate::syntax::Metadata<<Self::Prod as Production>::L>, a: crate::parser::Parser<'s, <Self::Prod as Production>::L>, b: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r: crate::syntax::Result<Self, <Self::Prod as Production>::L>) {
    broadcast use step_moves;
    let (p1, r1, r2) = choose|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && told(r1) && #[trigger] B::did(m, p1, b, r2) && told(r2) && errs(r) =~= errs(r1) + errs(r2) && !(r2 is Panic) && !(r1 is Panic);
    assert(errs(r).len() >= errs(r1).len()); A::did_says(m, a, p1, r1);
    assert(errs(r).len() >= errs(r2).len()); B::did_says(m, p1, b, r2);
    word_cat(a, p1, b);
}
#fn tp_impl::tuple::(A,B) as Production::id
ensures r == Self::tid(),
#fn tp_impl::tuple::(A,B) as Produce::produce
ensures match r { crate::syntax::Result::Success(x) => x.0.shi() <= x.1.slo(), crate::syntax::Result::Recovered(x, _) => x.0.shi() <= x.1.slo(), _ => true },
#pre
broadcast use {step_moves, crate::parser::parser_impl::step_trans};
proof {
    let v = seq![A::Prod::tid(), B::Prod::tid()];
    of_parts::<Self::Prod>(*meta, v);
    assert(fits(*meta, v[0])); assert(fits(*meta, v[1]));
    reveal_with_fuel(begins_at, 3); reveal_with_fuel(nul_at, 3);
}
#impl tp_impl::tuple::(A,B,C) as Produce
open spec fn did<'s>(m: crate::syntax::Metadata<<Self::Prod as Production>::L>, a: crate::parser::Parser<'s, <Self::Prod as Production>::L>, b: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r: crate::syntax::Result<Self, <Self::Prod as Production>::L>) -> bool {
    ||| exists|r1: crate::syntax::Result<A, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, b, r1) && errs(r) =~= errs(r1) && r1 is Panic && r is Panic && told(r1)
    ||| exists|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && !(r1 is Panic) && #[trigger] B::did(m, p1, b, r2) && errs(r) =~= errs(r1) + errs(r2) && r2 is Panic && r is Panic && told(r1) && told(r2)
    ||| exists|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p2: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>, r3: crate::syntax::Result<C, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && !(r1 is Panic) && #[trigger] B::did(m, p1, p2, r2) && !(r2 is Panic) && #[trigger] C::did(m, p2, b, r3) && errs(r) =~= errs(r1) + errs(r2) + errs(r3) && (if r3 is Panic { r is Panic } else { got(r) == Some((got(r1)->0, got(r2)->0, got(r3)->0)) }) && told(r1) && told(r2) && told(r3)
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool {
    exists|w1: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w2: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w3: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>| #[trigger] A::says(w1) && #[trigger] B::says(w2) && #[trigger] C::says(w3) && w == w1 + w2 + w3
}
proof fn did_says<'s>(m: crate::syntax::Metadata<<Self::Prod as Production>::L>, a: crate::parser::Parser<'s, <Self::Prod as Production>::L>, b: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r: crate::syntax::Result<Self, <Self::Prod as Production>::L>) {
    broadcast use step_moves;
    let (p1, p2, r1, r2, r3) = choose|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p2: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>, r3: crate::syntax::Result<C, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && told(r1) && #[trigger] B::did(m, p1, p2, r2) && told(r2) && #[trigger] C::did(m, p2, b, r3) && told(r3) && errs(r) =~= errs(r1) + errs(r2) + errs(r3) && !(r3 is Panic) && !(r1 is Panic) && !(r2 is Panic);
    assert(errs(r).len() >= errs(r1).len()); A::did_says(m, a, p1, r1);
    assert(errs(r).len() >= errs(r2).len()); B::did_says(m, p1, p2, r2);
    assert(errs(r).len() >= errs(r3).len()); C::did_says(m, p2, b, r3);
    word_cat(a, p1, p2);
    word_cat(a, p2, b);
}
#fn tp_impl::tuple::(A,B,C) as Production::id
ensures r == Self::tid(),
#fn tp_impl::tuple::(A,B,C) as Produce::produce
ensures match r { crate::syntax::Result::Success(x) => x.0.shi() <= x.1.slo() && x.1.shi() <= x.2.slo(), crate::syntax::Result::Recovered(x, _) => x.0.shi() <= x.1.slo() && x.1.shi() <= x.2.slo(), _ => true },
#pre
broadcast use {step_moves, crate::parser::parser_impl::step_trans};
proof {
    let v = seq![A::Prod::tid(), B::Prod::tid(), C::Prod::tid()];
    of_parts::<Self::Prod>(*meta, v);
    assert(fits(*meta, v[0])); assert(fits(*meta, v[1])); assert(fits(*meta, v[2]));
    reveal_with_fuel(begins_at, 4); reveal_with_fuel(nul_at, 4);
}
#impl tp_impl::tuple::(A,B,C,D) as Produce
open spec fn did<'s>(m: crate::syntax::Metadata<<Self::Prod as Production>::L>, a: crate::parser::Parser<'s, <Self::Prod as Production>::L>, b: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r: crate::syntax::Result<Self, <Self::Prod as Production>::L>) -> bool {
    ||| exists|r1: crate::syntax::Result<A, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, b, r1) && errs(r) =~= errs(r1) && r1 is Panic && r is Panic && told(r1)
    ||| exists|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && !(r1 is Panic) && #[trigger] B::did(m, p1, b, r2) && errs(r) =~= errs(r1) + errs(r2) && r2 is Panic && r is Panic && told(r1) && told(r2)
    ||| exists|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p2: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>, r3: crate::syntax::Result<C, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && !(r1 is Panic) && #[trigger] B::did(m, p1, p2, r2) && !(r2 is Panic) && #[trigger] C::did(m, p2, b, r3) && errs(r) =~= errs(r1) + errs(r2) + errs(r3) && r3 is Panic && r is Panic && told(r1) && told(r2) && told(r3)
    ||| exists|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p2: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p3: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>, r3: crate::syntax::Result<C, <Self::Prod as Production>::L>, r4: crate::syntax::Result<D, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && !(r1 is Panic) && #[trigger] B::did(m, p1, p2, r2) && !(r2 is Panic) && #[trigger] C::did(m, p2, p3, r3) && !(r3 is Panic) && #[trigger] D::did(m, p3, b, r4) && errs(r) =~= errs(r1) + errs(r2) + errs(r3) + errs(r4) && (if r4 is Panic { r is Panic } else { got(r) == Some((got(r1)->0, got(r2)->0, got(r3)->0, got(r4)->0)) }) && told(r1) && told(r2) && told(r3) && told(r4)
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool {
    exists|w1: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w2: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w3: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w4: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>| #[trigger] A::says(w1) && #[trigger] B::says(w2) && #[trigger] C::says(w3) && #[trigger] D::says(w4) && w == w1 + w2 + w3 + w4
}
proof fn did_says<'s>(m: crate::syntax::Metadata<<Self::Prod as Production>::L>, a: crate::parser::Parser<'s, <Self::Prod as Production>::L>, b: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r: crate::syntax::Result<Self, <Self::Prod as Production>::L>) {
    broadcast use step_moves;
    let (p1, p2, p3, r1, r2, r3, r4) = choose|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p2: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p3: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>, r3: crate::syntax::Result<C, <Self::Prod as Production>::L>, r4: crate::syntax::Result<D, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && told(r1) && #[trigger] B::did(m, p1, p2, r2) && told(r2) && #[trigger] C::did(m, p2, p3, r3) && told(r3) && #[trigger] D::did(m, p3, b, r4) && told(r4) && errs(r) =~= errs(r1) + errs(r2) + errs(r3) + errs(r4) && !(r4 is Panic) && !(r1 is Panic) && !(r2 is Panic) && !(r3 is Panic);
    assert(errs(r).len() >= errs(r1).len()); A::did_says(m, a, p1, r1);
    assert(errs(r).len() >= errs(r2).len()); B::did_says(m, p1, p2, r2);
    assert(errs(r).len() >= errs(r3).len()); C::did_says(m, p2, p3, r3);
    assert(errs(r).len() >= errs(r4).len()); D::did_says(m, p3, b, r4);
    word_cat(a, p1, p2);
    word_cat(a, p2, p3);
    word_cat(a, p3, b);
}
#fn tp_impl::tuple::(A,B,C,D) as Production::id
ensures r == Self::tid(),
#fn tp_impl::tuple::(A,B,C,D) as Produce::produce
ensures match r { crate::syntax::Result::Success(x) => x.0.shi() <= x.1.slo() && x.1.shi() <= x.2.slo() && x.2.shi() <= x.3.slo(), crate::syntax::Result::Recovered(x, _) => x.0.shi() <= x.1.slo() && x.1.shi() <= x.2.slo() && x.2.shi() <= x.3.slo(), _ => true },
#pre
broadcast use {step_moves, crate::parser::parser_impl::step_trans};
proof {
    let v = seq![A::Prod::tid(), B::Prod::tid(), C::Prod::tid(), D::Prod::tid()];
    of_parts::<Self::Prod>(*meta, v);
    assert(fits(*meta, v[0])); assert(fits(*meta, v[1])); assert(fits(*meta, v[2])); assert(fits(*meta, v[3]));
    reveal_with_fuel(begins_at, 5); reveal_with_fuel(nul_at, 5);
}
#impl tp_impl::tuple::(A,B,C,D,E) as Produce
open spec fn did<'s>(m: crate::syntax::Metadata<<Self::Prod as Production>::L>, a: crate::parser::Parser<'s, <Self::Prod as Production>::L>, b: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r: crate::syntax::Result<Self, <Self::Prod as Production>::L>) -> bool {
    ||| exists|r1: crate::syntax::Result<A, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, b, r1) && errs(r) =~= errs(r1) && r1 is Panic && r is Panic && told(r1)
    ||| exists|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && !(r1 is Panic) && #[trigger] B::did(m, p1, b, r2) && errs(r) =~= errs(r1) + errs(r2) && r2 is Panic && r is Panic && told(r1) && told(r2)
    ||| exists|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p2: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>, r3: crate::syntax::Result<C, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && !(r1 is Panic) && #[trigger] B::did(m, p1, p2, r2) && !(r2 is Panic) && #[trigger] C::did(m, p2, b, r3) && errs(r) =~= errs(r1) + errs(r2) + errs(r3) && r3 is Panic && r is Panic && told(r1) && told(r2) && told(r3)
    ||| exists|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p2: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p3: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>, r3: crate::syntax::Result<C, <Self::Prod as Production>::L>, r4: crate::syntax::Result<D, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && !(r1 is Panic) && #[trigger] B::did(m, p1, p2, r2) && !(r2 is Panic) && #[trigger] C::did(m, p2, p3, r3) && !(r3 is Panic) && #[trigger] D::did(m, p3, b, r4) && errs(r) =~= errs(r1) + errs(r2) + errs(r3) + errs(r4) && r4 is Panic && r is Panic && told(r1) && told(r2) && told(r3) && told(r4)
    ||| exists|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p2: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p3: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p4: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>, r3: crate::syntax::Result<C, <Self::Prod as Production>::L>, r4: crate::syntax::Result<D, <Self::Prod as Production>::L>, r5: crate::syntax::Result<E, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && !(r1 is Panic) && #[trigger] B::did(m, p1, p2, r2) && !(r2 is Panic) && #[trigger] C::did(m, p2, p3, r3) && !(r3 is Panic) && #[trigger] D::did(m, p3, p4, r4) && !(r4 is Panic) && #[trigger] E::did(m, p4, b, r5) && errs(r) =~= errs(r1) + errs(r2) + errs(r3) + errs(r4) + errs(r5) && (if r5 is Panic { r is Panic } else { got(r) == Some((got(r1)->0, got(r2)->0, got(r3)->0, got(r4)->0, got(r5)->0)) }) && told(r1) && told(r2) && told(r3) && told(r4) && told(r5)
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool {
    exists|w1: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w2: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w3: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w4: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w5: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>| #[trigger] A::says(w1) && #[trigger] B::says(w2) && #[trigger] C::says(w3) && #[trigger] D::says(w4) && #[trigger] E::says(w5) && w == w1 + w2 + w3 + w4 + w5
}
proof fn did_says<'s>(m: crate::syntax::Metadata<<Self::Prod as Production>::L>, a: crate::parser::Parser<'s, <Self::Prod as Production>::L>, b: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r: crate::syntax::Result<Self, <Self::Prod as Production>::L>) {
    broadcast use step_moves;
    let (p1, p2, p3, p4, r1, r2, r3, r4, r5) = choose|p1: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p2: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p3: crate::parser::Parser<'s, <Self::Prod as Production>::L>, p4: crate::parser::Parser<'s, <Self::Prod as Production>::L>, r1: crate::syntax::Result<A, <Self::Prod as Production>::L>, r2: crate::syntax::Result<B, <Self::Prod as Production>::L>, r3: crate::syntax::Result<C, <Self::Prod as Production>::L>, r4: crate::syntax::Result<D, <Self::Prod as Production>::L>, r5: crate::syntax::Result<E, <Self::Prod as Production>::L>| #[trigger] A::did(m, a, p1, r1) && told(r1) && #[trigger] B::did(m, p1, p2, r2) && told(r2) && #[trigger] C::did(m, p2, p3, r3) && told(r3) && #[trigger] D::did(m, p3, p4, r4) && told(r4) && #[trigger] E::did(m, p4, b, r5) && told(r5) && errs(r) =~= errs(r1) + errs(r2) + errs(r3) + errs(r4) + errs(r5) && !(r5 is Panic) && !(r1 is Panic) && !(r2 is Panic) && !(r3 is Panic) && !(r4 is Panic);
    assert(errs(r).len() >= errs(r1).len()); A::did_says(m, a, p1, r1);
    assert(errs(r).len() >= errs(r2).len()); B::did_says(m, p1, p2, r2);
    assert(errs(r).len() >= errs(r3).len()); C::did_says(m, p2, p3, r3);
    assert(errs(r).len() >= errs(r4).len()); D::did_says(m, p3, p4, r4);
    assert(errs(r).len() >= errs(r5).len()); E::did_says(m, p4, b, r5);
    word_cat(a, p1, p2);
    word_cat(a, p2, p3);
    word_cat(a, p3, p4);
    word_cat(a, p4, b);
}
#fn tp_impl::tuple::(A,B,C,D,E) as Production::id
ensures r == Self::tid(),
#fn tp_impl::tuple::(A,B,C,D,E) as Produce::produce
ensures match r { crate::syntax::Result::Success(x) => x.0.shi() <= x.1.slo() && x.1.shi() <= x.2.slo() && x.2.shi() <= x.3.slo() && x.3.shi() <= x.4.slo(), crate::syntax::Result::Recovered(x, _) => x.0.shi() <= x.1.slo() && x.1.shi() <= x.2.slo() && x.2.shi() <= x.3.slo() && x.3.shi() <= x.4.slo(), _ => true },
#pre
broadcast use {step_moves, crate::parser::parser_impl::step_trans};
proof {
    let v = seq![A::Prod::tid(), B::Prod::tid(), C::Prod::tid(), D::Prod::tid(), E::Prod::tid()];
    of_parts::<Self::Prod>(*meta, v);
    assert(fits(*meta, v[0])); assert(fits(*meta, v[1])); assert(fits(*meta, v[2])); assert(fits(*meta, v[3])); assert(fits(*meta, v[4]));
    reveal_with_fuel(begins_at, 6); reveal_with_fuel(nul_at, 6);
}
#fn tp_impl::boxed::Box as Production::id
ensures r == Self::tid(),
#fn tp_impl::iter::OneOrMore as Production::id
ensures r == Self::tid(),
#fn tp_impl::option::OptionProd as Production::id
ensures r == Self::tid(),
#fn tp_impl::punct::PunctProd as Production::id
ensures r == Self::tid(),

#mod tp_impl::node
broadcast use {crate::lex::span::into_self, crate::lex::span::into_self_ok};
#fn tp_impl::node::Node::new
requires call_requires(<S as Into<Span>>::into, (span,)),
ensures call_ensures(<S as Into<Span>>::into, (span,), r.span), r.value == value,
#fn tp_impl::node::Node::into_inner
ensures r == self.value,
#mod tp_impl::option
use crate::parser::parser_impl::*;
use crate::parser::tree::*;
use crate::lex::vec::*;
use crate::syntax::first::nul;
broadcast use {crate::lex::span::into_self, crate::lex::span::into_self_ok, crate::parser::tree::step_moves, crate::parser::parser_impl::step_trans};
/// What an optional node is: nothing when the next token cannot begin its content, else what
/// parsing the content gives (t), and nothing with the errors of the content when that fails.
pub open spec fn opt_did<'s, L: Lexicon, T: Produce, O>(m: Metadata<L>, a: Parser<'s, L>, b: Parser<'s, L>, p: Parser<'s, L>, t: SynResult<T, L>, r: SynResult<Node<O>, L>) -> bool where T::Prod: Production<L = L> {
    look(a, p) && errs(r) == errs(t) && got(r) is Some && (r is Success <==> t is Success) && match got(t) {
        Some(x) => (got(r)->0).span == (crate::Span { lo: x.slo(), hi: x.shi() }),
        None => (got(r)->0).span.lo == (got(r)->0).span.hi == b.end(),
    }
}
pub open spec fn opt_none<'s, L: Lexicon, O>(a: Parser<'s, L>, b: Parser<'s, L>, r: SynResult<Node<O>, L>) -> bool {
    look(a, b) && r is Success && (r->Success_0).span.lo == (r->Success_0).span.hi == a.end()
}
pub open spec fn unwrapped<T: Produce, L: Lexicon>(r: SynResult<Optional<T>, L>) -> SynResult<Node<Option<T>>, L> {
    match r { SynResult::Success(x) => SynResult::Success(x.0), SynResult::Recovered(x, e) => SynResult::Recovered(x.0, e), SynResult::Panic(e) => SynResult::Panic(e) }
}
pub open spec fn unexists<T: Produce, L: Lexicon>(r: SynResult<Exists<T>, L>) -> SynResult<Node<bool>, L> {
    match r { SynResult::Success(x) => SynResult::Success(x.0), SynResult::Recovered(x, e) => SynResult::Recovered(x.0, e), SynResult::Panic(e) => SynResult::Panic(e) }
}
/// the same result with the content mapped
pub open spec fn mapped<T, U, F: FnOnce(T) -> U, L: Lexicon>(a: SynResult<T, L>, f: F, b: SynResult<U, L>) -> bool {
    match (a, b) {
        (SynResult::Success(x), SynResult::Success(y)) => f.ensures((x,), y),
        (SynResult::Recovered(x, e), SynResult::Recovered(y, e2)) => f.ensures((x,), y) && e == e2,
        (SynResult::Panic(e), SynResult::Panic(e2)) => e == e2,
        _ => false,
    }
}
#fn tp_impl::option::Optional as From<crate::tp_impl::node::Node<Option<T>>>::from
ensures r.0 == node,
#fn tp_impl::option::Exists as From<crate::tp_impl::node::Node<bool>>::from
ensures r.0 == node,
#fn tp_impl::option::Optional::into_inner
ensures r == self.0.value,
#fn tp_impl::option::Exists::into_inner
ensures r == self.0.value,
#fn tp_impl::option::produce_option
requires old(parser).wf(), fits(*meta, T::Prod::tid()), !nul(meta.first.at(), T::Prod::tid()),
    forall|x: Option<T>| f.requires((x,)),
ensures
    step(*old(parser), *final(parser)), told(r), in_place(*old(parser), *final(parser), r),
    moved(*meta, T::Prod::tid(), *old(parser), *final(parser)),
    !hits(*meta, T::Prod::tid(), *old(parser)) ==> r is Success && look(*old(parser), *final(parser)),
    !hits(*meta, T::Prod::tid(), *old(parser)) ==> opt_none(*old(parser), *final(parser), r) && f.ensures((None,), (r->Success_0).value),
    hits(*meta, T::Prod::tid(), *old(parser)) ==> exists|p: Parser<'_, L>, t: SynResult<T, L>| #[trigger] T::did(*meta, p, *final(parser), t) && opt_did(*meta, *old(parser), *final(parser), p, t, r)
        && f.ensures((got(t),), (got(r)->0).value),
#impl tp_impl::option::Optional as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    if hits(m, T::Prod::tid(), a) {
        exists|p: Parser<'s, <Self::Prod as Production>::L>, t: SynResult<T, <Self::Prod as Production>::L>| #[trigger] T::did(m, p, b, t) && opt_did(m, a, b, p, t, unwrapped(r)) && (got(r)->0).0.value == got(t)
    } else { opt_none(a, b, unwrapped(r)) && (r->Success_0).0.value == None::<T> }
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { w.len() == 0 || T::says(w) }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    if hits(m, T::Prod::tid(), a) {
        let (p, t) = choose|p: Parser<'s, <Self::Prod as Production>::L>, t: SynResult<T, <Self::Prod as Production>::L>| #[trigger] T::did(m, p, b, t) && opt_did(m, a, b, p, t, unwrapped(r));
        T::did_says(m, p, b, t);
        word_look(a, p); word_cat(a, p, b);
        assert(word(a, b) =~= word(p, b));
    } else { word_look(a, b); }
}
#fn tp_impl::option::Optional as Produce::produce
ensures !(r is Panic),
    match r { SynResult::Success(x) => (x.0.value is Some <==> hits(*meta, T::Prod::tid(), *old(parser))), _ => hits(*meta, T::Prod::tid(), *old(parser)) },
#pre
proof { of_option::<T::Prod, Self::Prod>(*meta); }
#closure 0 (x: Option<T>) -> (o: Option<T>)
ensures o == x
#impl tp_impl::option::Exists as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    if hits(m, T::Prod::tid(), a) {
        exists|p: Parser<'s, <Self::Prod as Production>::L>, t: SynResult<T, <Self::Prod as Production>::L>| #[trigger] T::did(m, p, b, t) && opt_did(m, a, b, p, t, unexists(r)) && (got(r)->0).0.value == (got(t) is Some)
    } else { opt_none(a, b, unexists(r)) && (r->Success_0).0.value == false }
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { w.len() == 0 || T::says(w) }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    if hits(m, T::Prod::tid(), a) {
        let (p, t) = choose|p: Parser<'s, <Self::Prod as Production>::L>, t: SynResult<T, <Self::Prod as Production>::L>| #[trigger] T::did(m, p, b, t) && opt_did(m, a, b, p, t, unexists(r));
        T::did_says(m, p, b, t);
        word_look(a, p); word_cat(a, p, b);
        assert(word(a, b) =~= word(p, b));
    } else { word_look(a, b); }
}
#fn tp_impl::option::Exists as Produce::produce
ensures !(r is Panic),
    match r { SynResult::Success(x) => (x.0.value <==> hits(*meta, T::Prod::tid(), *old(parser))), _ => hits(*meta, T::Prod::tid(), *old(parser)) },
#pre
proof { of_option::<T::Prod, Self::Prod>(*meta); }
#closure 0 (x: Option<T>) -> (o: bool)
ensures o == (x is Some)

#mod tp_impl::boxed
use crate::parser::parser_impl::*;
use crate::parser::tree::*;
broadcast use {crate::parser::tree::step_moves, crate::parser::parser_impl::step_trans};
#impl tp_impl::boxed::Box as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    exists|t: SynResult<T, <Self::Prod as Production>::L>| #[trigger] T::did(m, a, b, t) && errs(r) == errs(t) && (r is Success <==> t is Success) && (r is Panic <==> t is Panic)
        && (got(t) is Some ==> *(got(r)->0) == got(t)->0)
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { T::says(w) }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    let t = choose|t: SynResult<T, <Self::Prod as Production>::L>| #[trigger] T::did(m, a, b, t) && (r is Success <==> t is Success);
    T::did_says(m, a, b, t);
}
#fn tp_impl::boxed::Box as Produce::produce
#pre
proof { crate::syntax::ast::rules::<T::Prod>(); }
#mod tp_impl::string
use crate::parser::parser_impl::*;
use crate::parser::tree::*;
use crate::lex::span::{cut, on_chars};
broadcast use {crate::lex::span::into_self, crate::lex::span::into_self_ok, crate::parser::tree::step_moves, crate::parser::parser_impl::step_trans};
/// the node has the span of its content and its text is what the content covers
pub open spec fn text_node<T: Produce, O, L: crate::lex::Lexicon>(t: SynResult<T, L>, r: SynResult<O, L>) -> bool where O: ToSpan {
    errs(r) == errs(t) && (r is Success <==> t is Success) && (r is Panic <==> t is Panic) && (got(t) is Some ==> (got(r)->0).slo() == (got(t)->0).slo() && (got(r)->0).shi() == (got(t)->0).shi())
}
#impl tp_impl::string::Quote as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    exists|t: SynResult<T, <Self::Prod as Production>::L>| #[trigger] T::did(m, a, b, t) && text_node(t, r)
        && (got(t) is Some ==> exists|s: &str| #[trigger] call_ensures(<S as From<&str>>::from, (s,), (got(r)->0).0.value) && bytes(s) == cut(bytes(a.info.source), (got(t)->0).slo() as int, (got(t)->0).shi() as int))
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { T::says(w) }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    let t = choose|t: SynResult<T, <Self::Prod as Production>::L>| #[trigger] T::did(m, a, b, t) && (r is Success <==> t is Success);
    T::did_says(m, a, b, t);
}
#fn tp_impl::string::Quote as From<crate::tp_impl::node::Node<S>>::from
ensures r.0 == node,
#fn tp_impl::string::Parse as From<crate::tp_impl::node::Node<Result<S,S::Err>>>::from
ensures r.0 == node,
#fn tp_impl::string::Quote as Produce::produce
#closure 0 (x: T) -> (o: Self)
requires parser.wf(), on_char(parser.info.source, x.slo() as int), on_char(parser.info.source, x.shi() as int),
ensures o.0.span.lo == x.slo(), o.0.span.hi == x.shi(), exists|s: &str| #[trigger] call_ensures(<S as From<&str>>::from, (s,), o.0.value) && bytes(s) == cut(bytes(parser.info.source), x.slo() as int, x.shi() as int),
#impl tp_impl::string::Parse as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    exists|t: SynResult<T, <Self::Prod as Production>::L>| #[trigger] T::did(m, a, b, t) && text_node(t, r)
        && (got(t) is Some ==> S::reads(text(crate::Span { lo: (got(t)->0).slo(), hi: (got(t)->0).shi() }, a.info.source), (got(r)->0).0.value))
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { T::says(w) }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    let t = choose|t: SynResult<T, <Self::Prod as Production>::L>| #[trigger] T::did(m, a, b, t) && (r is Success <==> t is Success);
    T::did_says(m, a, b, t);
}
#fn tp_impl::string::Parse as Produce::produce
#closure 0 (x: T) -> (o: Self)
requires parser.wf(), on_char(parser.info.source, x.slo() as int), on_char(parser.info.source, x.shi() as int),
ensures o.0.span.lo == x.slo(), o.0.span.hi == x.shi(), S::reads(text(crate::Span { lo: x.slo(), hi: x.shi() }, parser.info.source), o.0.value),
#pre
broadcast use text_of;
#fn tp_impl::string::Quote::into_inner
ensures r == self.0.value,
#fn tp_impl::string::Parse::into_inner
ensures r == self.0.value,
#mod parser::tree
/// One part that was parsed: from where, to where, and what came out of it.
pub struct Ran<'s, T, L: Lexicon> { pub a: Parser<'s, L>, pub b: Parser<'s, L>, pub r: SynResult<T, L> }
/// the parts were parsed one after the other between a and b, with nothing in between
pub open spec fn ran<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, a: Parser<'s, L>, b: Parser<'s, L>) -> bool where T::Prod: Production<L = L> {
    &&& forall|i: int| 0 <= i < log.len() ==> T::did(m, (#[trigger] log[i]).a, log[i].b, log[i].r) && told(log[i].r)
    &&& forall|i: int, j: int| 0 <= i < log.len() - 1 && j == i + 1 ==> look((#[trigger] log[i]).b, (#[trigger] log[j]).a)
    &&& log.len() == 0 ==> look(a, b)
    &&& log.len() > 0 ==> look(a, log[0].a) && look(log.last().b, b)
}
pub open spec fn all_errs<'s, T, L: Lexicon>(log: Seq<Ran<'s, T, L>>) -> Seq<crate::syntax::Error<L>> decreases log.len() {
    if log.len() == 0 { Seq::empty() } else { all_errs(log.drop_last()) + errs(log.last().r) }
}
pub open spec fn items_of<'s, T, L: Lexicon>(log: Seq<Ran<'s, T, L>>) -> Seq<T> decreases log.len() {
    if log.len() == 0 { Seq::empty() } else {
        match got(log.last().r) { Some(x) => items_of(log.drop_last()).push(x), None => items_of(log.drop_last()) }
    }
}
pub proof fn ran_on<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, a: Parser<'s, L>, p: Parser<'s, L>, x: Ran<'s, T, L>, b: Parser<'s, L>) where T::Prod: Production<L = L>
    requires ran::<T, L>(m, log, a, p), look(p, x.a), T::did(m, x.a, x.b, x.r), told(x.r), look(x.b, b)
    ensures ran::<T, L>(m, log.push(x), a, b), all_errs(log.push(x)) == all_errs(log) + errs(x.r),
        items_of(log.push(x)) == (match got(x.r) { Some(y) => items_of(log).push(y), None => items_of(log) }),
        log.push(x).last() == x, forall|i: int| 0 <= i < log.len() ==> log.push(x)[i] == log[i],
{
    broadcast use moves;
    let l2 = log.push(x);
    assert(l2.drop_last() =~= log);
    assert forall|i: int, j: int| 0 <= i < l2.len() - 1 && j == i + 1 implies look((#[trigger] l2[i]).b, (#[trigger] l2[j]).a) by {
        if i == log.len() - 1 { assert(look(log.last().b, p)); } else { assert(log[i] == l2[i] && log[j] == l2[j]); }
    }
    assert forall|i: int| 0 <= i < l2.len() implies T::did(m, (#[trigger] l2[i]).a, l2[i].b, l2[i].r) && told(l2[i].r) by { if i < log.len() { assert(l2[i] == log[i]); } }
    if log.len() > 0 { assert(l2[0] == log[0]); }
}
pub proof fn ran_look<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, a: Parser<'s, L>, p: Parser<'s, L>, b: Parser<'s, L>) where T::Prod: Production<L = L>
    requires ran::<T, L>(m, log, a, p), look(p, b)
    ensures ran::<T, L>(m, log, a, b)
{ broadcast use moves; }
/// the parts lie between the ends of a and b, one behind the other
pub open spec fn in_row<'s, T: ToSpan, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, s: Seq<T>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> placed(a, b, (#[trigger] s[i]).slo(), s[i].shi())
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).shi() <= (#[trigger] s[j]).slo()
}
pub broadcast proof fn len_taken<'s, L: Lexicon>(p: Parser<'s, L>) ensures #[trigger] p.taken().len() == p.info.tokens@.len() {}
pub broadcast proof fn sym_ahead<'s, L: Lexicon>(p: Parser<'s, L>) ensures #[trigger] p.sym() is Some <==> p.ahead().len() > 0 {}
/// a mark on the states from which steps are followed
pub closed spec fn base<'s, L: Lexicon>(p: Parser<'s, L>) -> bool { true }
pub proof fn mark<'s, L: Lexicon>(p: Parser<'s, L>) ensures base(p) {}
pub broadcast proof fn base_trans<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, c: Parser<'s, L>)
    requires #[trigger] base(a), #[trigger] step(a, b), #[trigger] step(b, c)
    ensures step(a, c)
{ step_trans(a, b, c); }
pub broadcast proof fn base_look<'s, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, c: Parser<'s, L>)
    requires #[trigger] base(a), #[trigger] look(a, b), #[trigger] look(b, c)
    ensures look(a, c)
{ broadcast use moves; }
pub broadcast group peeks { len_taken, sym_ahead, base_trans, base_look, step_moves, look_ahead, crate::lex::span::into_self, crate::lex::span::into_self_ok }
/// FIRST of a list
pub proof fn of_many<P: Production>(m: Metadata<P::L>)
    requires fits(m, crate::tp_impl::iter::OneOrMore::<P>::tid())
    ensures fits(m, P::tid()), !nul(m.first.at(), P::tid()), !nul(m.first.at(), crate::tp_impl::iter::OneOrMore::<P>::tid()),
        entry(m, crate::tp_impl::iter::OneOrMore::<P>::tid()),
        forall|s: Sym<P::L>| s is Some ==> (#[trigger] m.first.at()(crate::tp_impl::iter::OneOrMore::<P>::tid()).contains(s) <==> m.first.at()(P::tid()).contains(s)),
        forall|s: Sym<P::L>| s is Some ==> (m.first.at()(crate::tp_impl::iter::OneOrMore::<P>::tid()).contains(s) <==> #[trigger] m.first.at()(P::tid()).contains(s)),
{
    let o = crate::tp_impl::option::OptionProd::<crate::tp_impl::iter::OneOrMore<P>>::tid();
    let v = seq![P::tid(), o];
    of_parts::<crate::tp_impl::iter::OneOrMore<P>>(m, v);
    assert(fits(m, v[0])); assert(fits(m, v[1]));
    of_option::<crate::tp_impl::iter::OneOrMore<P>, crate::tp_impl::option::OptionProd<crate::tp_impl::iter::OneOrMore<P>>>(m);
    reveal_with_fuel(begins_at, 3); reveal_with_fuel(nul_at, 3);
    assert(nul_at(m.first.at(), v, 2));
}
/// all these parts were parsed (with tokens skipped between them, possibly), and no error of theirs is lost
pub open spec fn kept<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, es: Seq<crate::syntax::Error<L>>) -> bool where T::Prod: Production<L = L> {
    forall|i: int| 0 <= i < log.len() ==> T::did(m, (#[trigger] log[i]).a, log[i].b, log[i].r) && told(log[i].r) && forall|k: int| 0 <= k < errs(log[i].r).len() ==> es.contains(#[trigger] errs(log[i].r)[k])
}
pub proof fn kept_more<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, e1: Seq<crate::syntax::Error<L>>, e2: Seq<crate::syntax::Error<L>>) where T::Prod: Production<L = L>
    requires kept::<T, L>(m, log, e1)
    ensures kept::<T, L>(m, log, e1 + e2)
{
    assert forall|i: int, k: int| 0 <= i < log.len() && 0 <= k < errs(log[i].r).len() implies (e1 + e2).contains(#[trigger] errs(log[i].r)[k]) by {
        let j = choose|j: int| 0 <= j < e1.len() && e1[j] == errs(log[i].r)[k];
        assert(log[i] == log[i]); assert(e1.contains(errs(log[i].r)[k]));
        assert((e1 + e2)[e1.index_of(errs(log[i].r)[k])] == errs(log[i].r)[k]);
    }
}
pub proof fn kept_on<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, es: Seq<crate::syntax::Error<L>>, x: Ran<'s, T, L>) where T::Prod: Production<L = L>
    requires kept::<T, L>(m, log, es), T::did(m, x.a, x.b, x.r), told(x.r)
    ensures kept::<T, L>(m, log.push(x), es + errs(x.r)),
        items_of(log.push(x)) == (match got(x.r) { Some(y) => items_of(log).push(y), None => items_of(log) }),
{
    kept_more::<T, L>(m, log, es, errs(x.r));
    let l2 = log.push(x);
    assert(l2.drop_last() =~= log);
    assert forall|i: int| 0 <= i < l2.len() implies T::did(m, (#[trigger] l2[i]).a, l2[i].b, l2[i].r) && told(l2[i].r) && forall|k: int| 0 <= k < errs(l2[i].r).len() ==> (es + errs(x.r)).contains(#[trigger] errs(l2[i].r)[k]) by {
        if i < log.len() { assert(l2[i] == log[i]); } else {
            assert forall|k: int| 0 <= k < errs(l2[i].r).len() implies (es + errs(x.r)).contains(#[trigger] errs(l2[i].r)[k]) by { assert((es + errs(x.r))[es.len() + k] == errs(x.r)[k]); }
        }
    }
}

/// n parts, one after the other
pub open spec fn many<T: Produce>(n: nat, w: Seq<Sym<<T::Prod as Production>::L>>) -> bool decreases n {
    if n == 0 { w.len() == 0 } else { exists|k: int| 0 <= k <= w.len() && many::<T>((n - 1) as nat, w.take(k)) && T::says(#[trigger] w.skip(k)) }
}
pub proof fn many_on<T: Produce>(n: nat, w: Seq<Sym<<T::Prod as Production>::L>>, x: Seq<Sym<<T::Prod as Production>::L>>)
    requires many::<T>(n, w), T::says(x)
    ensures many::<T>(n + 1, w + x)
{
    let v = w + x; let k = w.len() as int; let n1 = (n + 1) as nat;
    assert(v.take(k) =~= w); assert(v.skip(k) =~= x);
    assert((n1 - 1) as nat == n);
    assert(many::<T>((n1 - 1) as nat, v.take(k)) && T::says(v.skip(k)));
    assert(many::<T>(n1, v));
}
pub proof fn ran_many<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, a: Parser<'s, L>, b: Parser<'s, L>) where T::Prod: Production<L = L>
    requires a.wf(), ran::<T, L>(m, log, a, b), all_errs(log).len() == 0,
    ensures step(a, b), many::<T>(log.len() as nat, word(a, b)),
    decreases log.len()
{
    broadcast use step_moves;
    if log.len() == 0 { word_look(a, b); } else {
        let x = log.last(); let l0 = log.drop_last();
        assert(x == log[log.len() - 1]);
        assert(errs(x.r).len() == 0 && all_errs(l0).len() == 0);
        assert(x.r is Success);
        if l0.len() > 0 { assert(l0.last() == log[log.len() - 2]); assert(l0[0] == log[0]); assert(look(log[log.len() - 2].b, log[log.len() - 1].a)); }
        assert forall|i: int| 0 <= i < l0.len() implies T::did(m, (#[trigger] l0[i]).a, l0[i].b, l0[i].r) && told(l0[i].r) by { assert(l0[i] == log[i]); }
        assert forall|i: int, j: int| 0 <= i < l0.len() - 1 && j == i + 1 implies look((#[trigger] l0[i]).b, (#[trigger] l0[j]).a) by { assert(l0[i] == log[i] && l0[j] == log[j]); }
        assert(ran::<T, L>(m, l0, a, x.a));
        ran_many::<T, L>(m, l0, a, x.a);
        T::did_says(m, x.a, x.b, x.r);
        word_cat(a, x.a, x.b); word_look(x.b, b); word_cat(a, x.b, b);
        assert(word(a, b) =~= word(a, x.a) + word(x.a, x.b));
        many_on::<T>(l0.len() as nat, word(a, x.a), word(x.a, x.b));
    }
}
pub proof fn kept_none<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, es: Seq<crate::syntax::Error<L>>) where T::Prod: Production<L = L>
    requires kept::<T, L>(m, log, es), es.len() == 0
    ensures all_errs(log).len() == 0
    decreases log.len()
{
    if log.len() > 0 {
        let x = log.last(); let l0 = log.drop_last();
        assert(x == log[log.len() - 1]);
        assert(errs(x.r).len() == 0) by { if errs(x.r).len() > 0 { assert(es.contains(errs(x.r)[0])); } }
        assert forall|i: int| 0 <= i < l0.len() implies T::did(m, (#[trigger] l0[i]).a, l0[i].b, l0[i].r) && told(l0[i].r) && forall|k: int| 0 <= k < errs(l0[i].r).len() ==> es.contains(#[trigger] errs(l0[i].r)[k]) by { assert(l0[i] == log[i]); }
        kept_none::<T, L>(m, l0, es);
    }
}
#mod tp_impl::iter
use crate::parser::parser_impl::*;
use crate::parser::tree::*;
use crate::lex::vec::*;
use crate::syntax::first::nul;
use crate::syntax::term_set::*;
use crate::lex::Lexicon;
broadcast use {crate::lex::span::into_self, crate::lex::span::into_self_ok, crate::parser::tree::step_moves, crate::parser::parser_impl::moves, crate::parser::parser_impl::step_trans};
/// What a list is made of: the items as they were parsed one after the other, the last of which
/// may have failed; else the next token cannot begin another. All errors are kept in order.
pub open spec fn plus_did<'s, V: FromIterator<T>, T: Produce, L: Lexicon>(m: Metadata<L>, b: Parser<'s, L>, log: Seq<Ran<'s, T, L>>, r: SynResult<Plus<V, T>, L>) -> bool where T::Prod: Production<L = L> {
    &&& log.len() > 0 && errs(r) == all_errs(log)
    &&& forall|i: int| 0 <= i < log.len() - 1 ==> got((#[trigger] log[i]).r) is Some
    &&& got(log.last().r) is Some ==> !hits(m, T::Prod::tid(), b)
    &&& if got(log[0].r) is None { r is Panic } else { got(r) is Some && items_of(log).len() > 0
        && (got(r)->0).0.value.built_of(items_of(log)) && (got(r)->0).0.span.lo == items_of(log)[0].slo() && (got(r)->0).0.span.hi == items_of(log).last().shi() }
}
/// A list that may be empty: as above, or nothing when the next token cannot begin an item or the first item fails.
pub open spec fn star_did<'s, V: FromIterator<T> + Default, T: Produce, L: Lexicon>(m: Metadata<L>, a: Parser<'s, L>, b: Parser<'s, L>, log: Seq<Ran<'s, T, L>>, r: SynResult<Star<V, T>, L>) -> bool where T::Prod: Production<L = L> {
    &&& errs(r) == all_errs(log) && got(r) is Some
    &&& log.len() == 0 <==> !hits(m, T::Prod::tid(), a)
    &&& forall|i: int| 0 <= i < log.len() - 1 ==> got((#[trigger] log[i]).r) is Some
    &&& log.len() > 0 && got(log.last().r) is Some ==> !hits(m, T::Prod::tid(), b)
    &&& if log.len() == 0 || got(log[0].r) is None {
            (got(r)->0).0.span.lo == (got(r)->0).0.span.hi == b.end() && call_ensures(V::default, (), (got(r)->0).0.value)
        } else { items_of(log).len() > 0
            && (got(r)->0).0.value.built_of(items_of(log)) && (got(r)->0).0.span.lo == items_of(log)[0].slo() && (got(r)->0).0.span.hi == items_of(log).last().shi() }
}
#fn tp_impl::iter::ProduceIter::new
ensures *r.parser == *old(parser), *final(r.parser) == *final(parser), r.meta == meta, r.first == first,
    *r.errors == *old(errors), *final(r.errors) == *final(errors), *r.hi == *old(hi), *final(r.hi) == *final(hi),
#fn tp_impl::iter::ProduceIter as Iterator::next
requires old(self).parser.wf(), fits(*old(self).meta, T::Prod::tid()),
    forall|s: Sym<<T::Prod as Production>::L>| s is Some ==> (#[trigger] old(self).first@.contains(s) <==> old(self).meta.first.at()(T::Prod::tid()).contains(s)),
ensures
    final(self).meta == old(self).meta, final(self).first == old(self).first,
    *final(final(self).parser) == *final(old(self).parser), *final(final(self).errors) == *final(old(self).errors), *final(final(self).hi) == *final(old(self).hi),
    step(*old(self).parser, *final(self).parser),
    hits(*old(self).meta, T::Prod::tid(), *old(self).parser) ==> (old(self).parser.taken().len() < final(self).parser.taken().len() && exists|p: Parser<'_, <T::Prod as Production>::L>, t: SynResult<T, <T::Prod as Production>::L>| look(*old(self).parser, p)
        && #[trigger] T::did(*old(self).meta, p, *final(self).parser, t) && told(t) && r == got(t) && final(self).errors@ == old(self).errors@ + errs(t)),
    !hits(*old(self).meta, T::Prod::tid(), *old(self).parser) ==> r is None && look(*old(self).parser, *final(self).parser) && final(self).errors@ == old(self).errors@,
    match r { Some(x) => placed(*old(self).parser, *final(self).parser, x.slo(), x.shi()) && *final(self).hi == x.shi(), None => *final(self).hi == *old(self).hi },
#fn tp_impl::iter::Plus as From<crate::tp_impl::node::Node<V>>::from
ensures r.0 == node,
#fn tp_impl::iter::Star as From<crate::tp_impl::node::Node<V>>::from
ensures r.0 == node,
#fn tp_impl::iter::Loop as From<crate::tp_impl::node::Node<Vec<T>>>::from
ensures r.0 == node,
#fn tp_impl::iter::Plus::into_inner
ensures r == self.0.value,
#fn tp_impl::iter::Star::into_inner
ensures r == self.0.value,
#fn tp_impl::iter::Loop::into_inner
ensures r == self.0.value,
#impl tp_impl::iter::Plus as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    exists|log: Seq<Ran<'s, T, <Self::Prod as Production>::L>>| #[trigger] ran::<T, <Self::Prod as Production>::L>(m, log, a, b) && plus_did(m, b, log, r)
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { exists|n: nat| n > 0 && #[trigger] many::<T>(n, w) }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    let log = choose|log: Seq<Ran<'s, T, <Self::Prod as Production>::L>>| #[trigger] ran::<T, <Self::Prod as Production>::L>(m, log, a, b) && plus_did(m, b, log, r);
    ran_many::<T, <Self::Prod as Production>::L>(m, log, a, b);
}
#fn tp_impl::iter::Plus as Produce::produce
#pre
let ghost a0 = *parser;
proof { of_many::<T::Prod>(*meta); }
let ghost mut log: Seq<Ran<'_, T, <T::Prod as Production>::L>> = Seq::empty();
#before return SynResult::Panic(e)
proof {
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, a0, *parser, t) && t == SynResult::<T, <T::Prod as Production>::L>::Panic(e);
    let x = Ran { a: a0, b: *parser, r: t };
    ran_on::<T, <T::Prod as Production>::L>(*meta, log, a0, a0, x, *parser);
    log = log.push(x);
    assert(all_errs(log) =~= e@);
}
#after let (first_elem, mut errors) =
let ghost lo0 = first_elem.slo();
let ghost b0 = *parser;
proof {
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, a0, b0, t) && told(t) && got(t) == Some(first_elem) && errs(t) =~= errors@;
    let x = Ran { a: a0, b: b0, r: t };
    ran_on::<T, <T::Prod as Production>::L>(*meta, log, a0, a0, x, b0);
    log = log.push(x);
}
#loopbefore 0
let ghost it0 = vt_iter;
proof { assert(items_of(log) =~= vt_items@); assert(all_errs(log) =~= vt_iter.errors@); }
#loop 0
    invariant_except_break got(log.last().r) is Some,
    invariant
        a0.wf(), vt_iter.parser.wf(), fits(*meta, T::Prod::tid()), vt_iter.meta == meta, 
        forall|s: Sym<<T::Prod as Production>::L>| s is Some ==> (#[trigger] vt_iter.first@.contains(s) <==> meta.first.at()(T::Prod::tid()).contains(s)),
        *final(vt_iter.parser) == *final(it0.parser), *final(vt_iter.errors) == *final(it0.errors), *final(vt_iter.hi) == *final(it0.hi),
        step(a0, *vt_iter.parser), hits(*meta, T::Prod::tid(), a0) ==> a0.taken().len() < vt_iter.parser.taken().len(),
        ran::<T, <T::Prod as Production>::L>(*meta, log, a0, *vt_iter.parser), all_errs(log) == vt_iter.errors@, items_of(log) == vt_items@,
        log.len() > 0, vt_items@.len() > 0, vt_items@[0].slo() == lo0, vt_items@.last().shi() == *vt_iter.hi, got(log[0].r) is Some,
        in_row(a0, *vt_iter.parser, vt_items@),
        forall|i: int| 0 <= i < log.len() - 1 ==> got((#[trigger] log[i]).r) is Some,
    ensures got(log.last().r) is Some ==> !hits(*meta, T::Prod::tid(), *vt_iter.parser),
    decreases vt_iter.parser.ahead().len(),
#loopstart 0
let ghost p0 = *vt_iter.parser;
let ghost e0 = vt_iter.errors@;
#before vt_items.push(vt_x)
proof {
    let q = *vt_iter.parser;
    let (p, t) = choose|p: Parser<'_, <T::Prod as Production>::L>, t: SynResult<T, <T::Prod as Production>::L>| look(p0, p) && #[trigger] T::did(*meta, p, q, t) && told(t) && Some(vt_x) == got(t) && vt_iter.errors@ == e0 + errs(t);
    let x = Ran { a: p, b: q, r: t };
    ran_on::<T, <T::Prod as Production>::L>(*meta, log, a0, p0, x, q);
    log = log.push(x);
}
#before break
proof {
    let q = *vt_iter.parser;
    if hits(*meta, T::Prod::tid(), p0) {
        let (p, t) = choose|p: Parser<'_, <T::Prod as Production>::L>, t: SynResult<T, <T::Prod as Production>::L>| look(p0, p) && #[trigger] T::did(*meta, p, q, t) && told(t) && None::<T> == got(t) && vt_iter.errors@ == e0 + errs(t);
        let x = Ran { a: p, b: q, r: t };
        ran_on::<T, <T::Prod as Production>::L>(*meta, log, a0, p0, x, q);
        log = log.push(x);
    } else { ran_look::<T, <T::Prod as Production>::L>(*meta, log, a0, p0, q); }
}
#post
proof {
    assert(errors@ == all_errs(log));
    assert(errs(vt_ret) =~= all_errs(log));
    assert(got(vt_ret) is Some);
    assert((got(vt_ret)->0).0.value.built_of(items_of(log)));
    assert((got(vt_ret)->0).0.span.lo == items_of(log)[0].slo());
    assert((got(vt_ret)->0).0.span.hi == items_of(log).last().shi());
    assert(plus_did(*meta, *parser, log, vt_ret));
    assert(ran::<T, <T::Prod as Production>::L>(*meta, log, a0, *parser));
}
#impl tp_impl::iter::Star as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    exists|log: Seq<Ran<'s, T, <Self::Prod as Production>::L>>| #[trigger] ran::<T, <Self::Prod as Production>::L>(m, log, a, b) && star_did(m, a, b, log, r)
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { exists|n: nat| #[trigger] many::<T>(n, w) }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    let log = choose|log: Seq<Ran<'s, T, <Self::Prod as Production>::L>>| #[trigger] ran::<T, <Self::Prod as Production>::L>(m, log, a, b) && star_did(m, a, b, log, r);
    ran_many::<T, <Self::Prod as Production>::L>(m, log, a, b);
}
#fn tp_impl::iter::Star as Produce::produce
#pre
let ghost a0 = *parser;
proof { of_option::<OneOrMore<T::Prod>, Self::Prod>(*meta); of_many::<T::Prod>(*meta); }
#post
proof {
    if hits(*meta, OneOrMore::<T::Prod>::tid(), a0) {
        let (p, t) = choose|p: Parser<'_, <T::Prod as Production>::L>, t: SynResult<Plus<V, T>, <T::Prod as Production>::L>| #[trigger] Plus::<V, T>::did(*meta, p, *parser, t) && look(a0, p) && errs(t) == errs(vt_ret) && got(vt_ret) is Some && match got(t) { Some(t) => (got(vt_ret)->0).0 == t.0, None => call_ensures(V::default, (), (got(vt_ret)->0).0.value) && (got(vt_ret)->0).0.span.lo == (got(vt_ret)->0).0.span.hi == parser.end() };
        let log = choose|log: Seq<Ran<'_, T, <T::Prod as Production>::L>>| #[trigger] ran::<T, <T::Prod as Production>::L>(*meta, log, p, *parser) && plus_did(*meta, *parser, log, t);
        assert(ran::<T, <T::Prod as Production>::L>(*meta, log, a0, *parser));
        assert(star_did(*meta, a0, *parser, log, vt_ret));
    } else {
        let log = Seq::<Ran<'_, T, <T::Prod as Production>::L>>::empty();
        assert(ran::<T, <T::Prod as Production>::L>(*meta, log, a0, *parser));
        assert(star_did(*meta, a0, *parser, log, vt_ret));
    }
}
#closure 0 (n: super::option::Optional<Plus<V, T>>) -> (o: Self)
ensures match n.0.value { Some(t) => o.0 == t.0, None => o.0.span == n.0.span && call_ensures(V::default, (), o.0.value) }
#impl tp_impl::iter::Loop as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    &&& got(r) is Some
    &&& r is Success ==> b.sym() is None
    &&& exists|log: Seq<Ran<'s, T, <Self::Prod as Production>::L>>| #[trigger] kept::<T, <Self::Prod as Production>::L>(m, log, errs(r)) && (got(r)->0).0.value@ == items_of(log)
        && (r is Success ==> ran::<T, <Self::Prod as Production>::L>(m, log, a, b))
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { exists|n: nat| #[trigger] many::<T>(n, w) }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    let log = choose|log: Seq<Ran<'s, T, <Self::Prod as Production>::L>>| #[trigger] kept::<T, <Self::Prod as Production>::L>(m, log, errs(r)) && ran::<T, <Self::Prod as Production>::L>(m, log, a, b);
    assert(all_errs(log).len() == 0) by { kept_none::<T, <Self::Prod as Production>::L>(m, log, errs(r)); }
    ran_many::<T, <Self::Prod as Production>::L>(m, log, a, b);
}
#fn tp_impl::iter::Loop as Produce::produce
#pre
let ghost a0 = *parser;
proof { of_many::<T::Prod>(*meta); }
let ghost mut log: Seq<Ran<'_, T, <T::Prod as Production>::L>> = Seq::empty();
#loop 0
    invariant_except_break
        look(a0, *parser) || a0.taken().len() < parser.taken().len(),
        errors@.len() == 0 ==> ran::<T, <T::Prod as Production>::L>(*meta, log, a0, *parser),
    invariant
        a0.wf(), parser.wf(), fits(*meta, T::Prod::tid()), step(a0, *parser),
        forall|s: Sym<<T::Prod as Production>::L>| s is Some ==> (#[trigger] first@.contains(s) <==> meta.first.at()(T::Prod::tid()).contains(s)),
        in_row(a0, *parser, output@), items_of(log) == output@, kept::<T, <T::Prod as Production>::L>(*meta, log, errors@),
    ensures
        hits(*meta, T::Prod::tid(), a0) ==> a0.taken().len() < parser.taken().len(),
        errors@.len() == 0 ==> ran::<T, <T::Prod as Production>::L>(*meta, log, a0, *parser),
        errors@.len() == 0 ==> parser.sym() is None,
    decreases parser.ahead().len(),
#loopstart 0
let ghost p0 = *parser;
let ghost e0 = errors@;
#loop 1
    invariant
        a0.wf(), parser.wf(), step(a0, *parser), step(p0, *parser), p0.taken().len() < parser.taken().len(), tok_sym(token) == parser.sym(), p0.wf(),
    decreases parser.ahead().len(),
#after errors.push
proof { kept_more::<T, <T::Prod as Production>::L>(*meta, log, e0, errors@.skip(e0.len() as int)); assert(e0 + errors@.skip(e0.len() as int) =~= errors@); }
#after let lo_before =
let ghost p1 = *parser;
let ghost e1 = errors@;
#after errors.push
proof { kept_more::<T, <T::Prod as Production>::L>(*meta, log, e2, errors@.skip(e2.len() as int)); assert(e2 + errors@.skip(e2.len() as int) =~= errors@); }
#after match T::produce
proof {
    let q = *parser;
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, p1, q, t) && told(t) && errors@ =~= e1 + errs(t) && (match got(t) { Some(y) => output@ == items_of(log).push(y), None => output@ == items_of(log) });
    let x = Ran { a: p1, b: q, r: t };
    kept_on::<T, <T::Prod as Production>::L>(*meta, log, e1, x);
    if e1.len() == 0 { ran_on::<T, <T::Prod as Production>::L>(*meta, log, a0, p1, x, q); }
    log = log.push(x);
}
let ghost e2 = errors@;
#post
proof {
    assert(errs(vt_ret) =~= errors@);
    assert(got(vt_ret) is Some);
    assert((got(vt_ret)->0).0.value@ == items_of(log));
    assert(kept::<T, <T::Prod as Production>::L>(*meta, log, errs(vt_ret)));
}
#mod parser::tree
/// all these parts were parsed, and no error of theirs is lost, except that a failed part is only certain to leave some error
pub open spec fn soft<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, es: Seq<crate::syntax::Error<L>>, any: bool) -> bool where T::Prod: Production<L = L> {
    forall|i: int| 0 <= i < log.len() ==> T::did(m, (#[trigger] log[i]).a, log[i].b, log[i].r) && told(log[i].r)
        && if got(log[i].r) is Some { forall|k: int| 0 <= k < errs(log[i].r).len() ==> es.contains(#[trigger] errs(log[i].r)[k]) } else { any || es.len() > 0 }
}
pub open spec fn extends<E>(e1: Seq<E>, e2: Seq<E>) -> bool { e1.len() <= e2.len() && forall|k: int| 0 <= k < e1.len() ==> e2[k] == #[trigger] e1[k] }
pub proof fn extends_has<E>(e1: Seq<E>, e2: Seq<E>)
    requires extends(e1, e2)
    ensures forall|x: E| #[trigger] e1.contains(x) ==> e2.contains(x)
{ assert forall|x: E| #[trigger] e1.contains(x) implies e2.contains(x) by { let k = e1.index_of(x); assert(e2[k] == e1[k]); } }
pub proof fn soft_more<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, e1: Seq<crate::syntax::Error<L>>, any1: bool, e2: Seq<crate::syntax::Error<L>>, any2: bool) where T::Prod: Production<L = L>
    requires soft::<T, L>(m, log, e1, any1), extends(e1, e2), any1 ==> any2 || e2.len() > 0,
    ensures soft::<T, L>(m, log, e2, any2)
{
    extends_has(e1, e2);
    assert forall|i: int| 0 <= i < log.len() implies T::did(m, (#[trigger] log[i]).a, log[i].b, log[i].r) && told(log[i].r)
        && if got(log[i].r) is Some { forall|k: int| 0 <= k < errs(log[i].r).len() ==> e2.contains(#[trigger] errs(log[i].r)[k]) } else { any2 || e2.len() > 0 } by {
        if got(log[i].r) is Some { assert forall|k: int| 0 <= k < errs(log[i].r).len() implies e2.contains(#[trigger] errs(log[i].r)[k]) by { assert(e1.contains(errs(log[i].r)[k])); } }
    }
}
pub proof fn soft_on<'s, T: Produce, L: Lexicon>(m: Metadata<L>, log: Seq<Ran<'s, T, L>>, e1: Seq<crate::syntax::Error<L>>, any1: bool, x: Ran<'s, T, L>, e2: Seq<crate::syntax::Error<L>>, any2: bool) where T::Prod: Production<L = L>
    requires soft::<T, L>(m, log, e1, any1), extends(e1, e2), any1 ==> any2 || e2.len() > 0,
        T::did(m, x.a, x.b, x.r), told(x.r), if got(x.r) is Some { forall|k: int| 0 <= k < errs(x.r).len() ==> e2.contains(#[trigger] errs(x.r)[k]) } else { any2 || e2.len() > 0 },
    ensures soft::<T, L>(m, log.push(x), e2, any2),
        items_of(log.push(x)) == (match got(x.r) { Some(y) => items_of(log).push(y), None => items_of(log) }),
{
    soft_more::<T, L>(m, log, e1, any1, e2, any2);
    let l2 = log.push(x);
    assert(l2.drop_last() =~= log);
    assert forall|i: int| 0 <= i < l2.len() implies T::did(m, (#[trigger] l2[i]).a, l2[i].b, l2[i].r) && told(l2[i].r)
        && if got(l2[i].r) is Some { forall|k: int| 0 <= k < errs(l2[i].r).len() ==> e2.contains(#[trigger] errs(l2[i].r)[k]) } else { any2 || e2.len() > 0 } by {
        if i < log.len() { assert(l2[i] == log[i]); } else { assert(l2[i] == x); }
    }
}
/// parts and delimiters in turn, beginning with a part, with nothing in between
pub open spec fn in_turns<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, lt: Seq<Ran<'s, T, L>>, lp: Seq<Ran<'s, P, L>>, a: Parser<'s, L>, b: Parser<'s, L>) -> bool where T::Prod: Production<L = L>, P::Prod: Production<L = L> {
    &&& lt.len() > 0 && (lt.len() == lp.len() + 1 || lt.len() == lp.len()) && look(a, lt[0].a) && look(if lt.len() > lp.len() { lt.last().b } else { lp.last().b }, b)
    &&& forall|i: int| 0 <= i < lt.len() ==> T::did(m, (#[trigger] lt[i]).a, lt[i].b, lt[i].r) && lt[i].r is Success
    &&& forall|i: int| 0 <= i < lp.len() ==> P::did(m, (#[trigger] lp[i]).a, lp[i].b, lp[i].r) && lp[i].r is Success
    &&& forall|i: int, j: int| 0 <= i < lp.len() && j == i ==> look((#[trigger] lt[i]).b, (#[trigger] lp[j]).a)
    &&& forall|i: int, j: int| 0 <= i < lp.len() && j == i + 1 && j < lt.len() ==> look((#[trigger] lp[i]).b, (#[trigger] lt[j]).a)
}
pub open spec fn turns<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, lt: Seq<Ran<'s, T, L>>, lp: Seq<Ran<'s, P, L>>, a: Parser<'s, L>, b: Parser<'s, L>) -> bool where T::Prod: Production<L = L>, P::Prod: Production<L = L> {
    lt.len() == lp.len() + 1 && in_turns::<T, P, L>(m, lt, lp, a, b)
}
pub open spec fn turns_p<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, lt: Seq<Ran<'s, T, L>>, lp: Seq<Ran<'s, P, L>>, a: Parser<'s, L>, b: Parser<'s, L>) -> bool where T::Prod: Production<L = L>, P::Prod: Production<L = L> {
    lt.len() == lp.len() && in_turns::<T, P, L>(m, lt, lp, a, b)
}
/// n + 1 parts with a delimiter between each two
pub open spec fn woven<T: Produce, P: Produce>(n: nat, w: Seq<Sym<<T::Prod as Production>::L>>) -> bool where P::Prod: Production<L = <T::Prod as Production>::L> decreases 2 * n {
    if n == 0 { T::says(w) } else { exists|k: int| 0 <= k <= w.len() && woven_p::<T, P>((n - 1) as nat, w.take(k)) && T::says(#[trigger] w.skip(k)) }
}
/// ... and one more after the last
pub open spec fn woven_p<T: Produce, P: Produce>(n: nat, w: Seq<Sym<<T::Prod as Production>::L>>) -> bool where P::Prod: Production<L = <T::Prod as Production>::L> decreases 2 * n + 1 {
    exists|k: int| 0 <= k <= w.len() && woven::<T, P>(n, w.take(k)) && P::says(#[trigger] w.skip(k))
}
pub proof fn turns_woven<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, lt: Seq<Ran<'s, T, L>>, lp: Seq<Ran<'s, P, L>>, a: Parser<'s, L>, b: Parser<'s, L>) where T::Prod: Production<L = L>, P::Prod: Production<L = L>
    requires a.wf(), turns::<T, P, L>(m, lt, lp, a, b)
    ensures step(a, b), woven::<T, P>(lp.len() as nat, word(a, b))
    decreases lt.len() + lp.len()
{
    broadcast use step_moves;
    let x = lt.last(); let l0 = lt.drop_last();
    assert(x == lt[lt.len() - 1]);
    if lp.len() == 0 {
        word_look(a, x.a);
        T::did_says(m, x.a, x.b, x.r);
        word_cat(a, x.a, x.b); word_look(x.b, b); word_cat(a, x.b, b);
        assert(word(a, b) =~= word(x.a, x.b));
    } else {
        assert(lp.last() == lp[lp.len() - 1]); assert(l0[0] == lt[0]);
        assert(look(lp[lp.len() - 1].b, lt[lt.len() - 1].a));
        assert forall|i: int| 0 <= i < l0.len() implies T::did(m, (#[trigger] l0[i]).a, l0[i].b, l0[i].r) && l0[i].r is Success by { assert(l0[i] == lt[i]); }
        assert forall|i: int, j: int| 0 <= i < lp.len() && j == i implies look((#[trigger] l0[i]).b, (#[trigger] lp[j]).a) by { assert(l0[i] == lt[i]); }
        assert forall|i: int, j: int| 0 <= i < lp.len() && j == i + 1 && j < l0.len() implies look((#[trigger] lp[i]).b, (#[trigger] l0[j]).a) by { assert(l0[j] == lt[j]); }
        assert(turns_p::<T, P, L>(m, l0, lp, a, x.a));
        turns_woven_p::<T, P, L>(m, l0, lp, a, x.a);
        T::did_says(m, x.a, x.b, x.r);
        word_cat(a, x.a, x.b); word_look(x.b, b); word_cat(a, x.b, b);
        let (w, k) = (word(a, b), word(a, x.a).len() as int);
        assert(w.take(k) =~= word(a, x.a)); assert(w.skip(k) =~= word(x.a, x.b));
        assert(woven_p::<T, P>((lp.len() - 1) as nat, w.take(k)) && T::says(w.skip(k)));
        assert(woven::<T, P>(lp.len() as nat, w));
    }
}
pub proof fn turns_woven_p<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, lt: Seq<Ran<'s, T, L>>, lp: Seq<Ran<'s, P, L>>, a: Parser<'s, L>, b: Parser<'s, L>) where T::Prod: Production<L = L>, P::Prod: Production<L = L>
    requires a.wf(), turns_p::<T, P, L>(m, lt, lp, a, b)
    ensures step(a, b), woven_p::<T, P>((lp.len() - 1) as nat, word(a, b))
    decreases lt.len() + lp.len()
{
    broadcast use step_moves;
    let x = lp.last(); let l0 = lp.drop_last();
    assert(x == lp[lp.len() - 1]);
    assert(lt.last() == lt[lt.len() - 1]);
    assert(look(lt[lt.len() - 1].b, lp[lp.len() - 1].a));
    assert forall|i: int| 0 <= i < l0.len() implies P::did(m, (#[trigger] l0[i]).a, l0[i].b, l0[i].r) && l0[i].r is Success by { assert(l0[i] == lp[i]); }
    assert forall|i: int, j: int| 0 <= i < l0.len() && j == i implies look((#[trigger] lt[i]).b, (#[trigger] l0[j]).a) by { assert(l0[j] == lp[j]); }
    assert forall|i: int, j: int| 0 <= i < l0.len() && j == i + 1 && j < lt.len() implies look((#[trigger] l0[i]).b, (#[trigger] lt[j]).a) by { assert(l0[i] == lp[i]); }
    assert(turns::<T, P, L>(m, lt, l0, a, x.a));
    turns_woven::<T, P, L>(m, lt, l0, a, x.a);
    P::did_says(m, x.a, x.b, x.r);
    word_cat(a, x.a, x.b); word_look(x.b, b); word_cat(a, x.b, b);
    let (w, k) = (word(a, b), word(a, x.a).len() as int);
    assert(w.take(k) =~= word(a, x.a)); assert(w.skip(k) =~= word(x.a, x.b));
    assert(woven::<T, P>((lp.len() - 1) as nat, w.take(k)));
    assert(P::says(w.skip(k)));
    assert(0 <= k <= w.len());
    assert(woven_p::<T, P>((lp.len() - 1) as nat, w));
}
pub proof fn soft_none<'s, T: Produce, L: Lexicon>(m: Metadata<L>, es: Seq<crate::syntax::Error<L>>, any: bool) where T::Prod: Production<L = L>
    ensures soft::<T, L>(m, Seq::empty(), es, any)
{}
pub proof fn turns_one<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, a: Parser<'s, L>, b: Parser<'s, L>, r: SynResult<T, L>) where T::Prod: Production<L = L>, P::Prod: Production<L = L>
    requires T::did(m, a, b, r), r is Success
    ensures turns::<T, P, L>(m, Seq::<Ran<'s, T, L>>::empty().push(Ran { a: a, b: b, r: r }), Seq::<Ran<'s, P, L>>::empty(), a, b)
{ step_refl(a); step_refl(b); }
pub proof fn turn_one<'s, T: ToSpan, P: ToSpan, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, t: T)
    requires placed(a, b, t.slo(), t.shi())
    ensures in_row(a, b, seq![t]), in_row(a, b, Seq::<P>::empty()), in_turn(seq![t], Seq::<P>::empty())
{}
/// the same parts, seen from a later point
pub proof fn row_later<'s, T: ToSpan, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, c: Parser<'s, L>, s: Seq<T>)
    requires in_row(a, b, s), b.end() <= c.end()
    ensures in_row(a, c, s), s.len() > 0 ==> placed(a, c, s[0].slo(), s.last().shi()) && s.last().shi() <= b.end() && s.last().slo() <= s.last().shi()
{ if s.len() > 0 { assert(placed(a, b, s[0].slo(), s[0].shi())); assert(placed(a, b, s[s.len() - 1].slo(), s[s.len() - 1].shi())); if s.len() > 1 { assert(s[0].shi() <= s[s.len() - 1].slo()); } } }
pub proof fn turns_push_p<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, lt: Seq<Ran<'s, T, L>>, lp: Seq<Ran<'s, P, L>>, a: Parser<'s, L>, p: Parser<'s, L>, x: Ran<'s, P, L>, b: Parser<'s, L>) where T::Prod: Production<L = L>, P::Prod: Production<L = L>
    requires turns::<T, P, L>(m, lt, lp, a, p), look(p, x.a), look(x.b, b), P::did(m, x.a, x.b, x.r), x.r is Success
    ensures turns_p::<T, P, L>(m, lt, lp.push(x), a, b), items_of(lp.push(x)) == items_of(lp).push(x.r->Success_0),
{
    broadcast use moves;
    let k = lp.push(x);
    assert(k.drop_last() =~= lp);
    assert forall|i: int| 0 <= i < k.len() implies P::did(m, (#[trigger] k[i]).a, k[i].b, k[i].r) && k[i].r is Success by { if i < lp.len() { assert(k[i] == lp[i]); } }
    assert forall|i: int, j: int| 0 <= i < k.len() && j == i implies look((#[trigger] lt[i]).b, (#[trigger] k[j]).a) by {
        if i < lp.len() { assert(k[j] == lp[j]); } else { assert(lt[i] == lt.last()); assert(look(lt.last().b, p)); }
    }
    assert forall|i: int, j: int| 0 <= i < k.len() && j == i + 1 && j < lt.len() implies look((#[trigger] k[i]).b, (#[trigger] lt[j]).a) by { assert(k[i] == lp[i]); }
}
pub proof fn turns_push_t<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, lt: Seq<Ran<'s, T, L>>, lp: Seq<Ran<'s, P, L>>, a: Parser<'s, L>, p: Parser<'s, L>, y: Ran<'s, T, L>, b: Parser<'s, L>) where T::Prod: Production<L = L>, P::Prod: Production<L = L>
    requires turns_p::<T, P, L>(m, lt, lp, a, p), look(p, y.a), look(y.b, b), T::did(m, y.a, y.b, y.r), y.r is Success
    ensures turns::<T, P, L>(m, lt.push(y), lp, a, b),
{
    broadcast use moves;
    let l = lt.push(y);
    assert forall|i: int| 0 <= i < l.len() implies T::did(m, (#[trigger] l[i]).a, l[i].b, l[i].r) && l[i].r is Success by { if i < lt.len() { assert(l[i] == lt[i]); } }
    assert forall|i: int, j: int| 0 <= i < lp.len() && j == i implies look((#[trigger] l[i]).b, (#[trigger] lp[j]).a) by { assert(l[i] == lt[i]); }
    assert forall|i: int, j: int| 0 <= i < lp.len() && j == i + 1 && j < l.len() implies look((#[trigger] lp[i]).b, (#[trigger] l[j]).a) by {
        if j < lt.len() { assert(l[j] == lt[j]); } else { assert(lp[i] == lp.last()); assert(look(lp.last().b, p)); }
    }
    assert(l[0] == lt[0]);
}
pub proof fn turns_on<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, lt: Seq<Ran<'s, T, L>>, lp: Seq<Ran<'s, P, L>>, a: Parser<'s, L>, p: Parser<'s, L>, x: Ran<'s, P, L>, y: Ran<'s, T, L>, b: Parser<'s, L>) where T::Prod: Production<L = L>, P::Prod: Production<L = L>
    requires turns::<T, P, L>(m, lt, lp, a, p), look(p, x.a), look(x.b, y.a), look(y.b, b), P::did(m, x.a, x.b, x.r), T::did(m, y.a, y.b, y.r), x.r is Success, y.r is Success
    ensures turns::<T, P, L>(m, lt.push(y), lp.push(x), a, b), 
        items_of(lp.push(x)) == items_of(lp).push(x.r->Success_0),
{
    step_refl(x.b);
    turns_push_p::<T, P, L>(m, lt, lp, a, p, x, x.b);
    turns_push_t::<T, P, L>(m, lt, lp.push(x), a, x.b, y, b);
}
pub proof fn turns_p_look<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, lt: Seq<Ran<'s, T, L>>, lp: Seq<Ran<'s, P, L>>, a: Parser<'s, L>, p: Parser<'s, L>, b: Parser<'s, L>) where T::Prod: Production<L = L>, P::Prod: Production<L = L>
    requires turns_p::<T, P, L>(m, lt, lp, a, p), look(p, b)
    ensures turns_p::<T, P, L>(m, lt, lp, a, b)
{ broadcast use moves; }
pub proof fn turns_look<'s, T: Produce, P: Produce, L: Lexicon>(m: Metadata<L>, lt: Seq<Ran<'s, T, L>>, lp: Seq<Ran<'s, P, L>>, a: Parser<'s, L>, p: Parser<'s, L>, b: Parser<'s, L>) where T::Prod: Production<L = L>, P::Prod: Production<L = L>
    requires turns::<T, P, L>(m, lt, lp, a, p), look(p, b)
    ensures turns::<T, P, L>(m, lt, lp, a, b)
{ broadcast use moves; }
/// elements and delimiters lie in turn in the source
pub open spec fn in_turn<T: ToSpan, P: ToSpan>(ts: Seq<T>, ps: Seq<P>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < ps.len() && j == i && i < ts.len() ==> (#[trigger] ts[i]).shi() <= (#[trigger] ps[j]).slo()
    &&& forall|i: int, j: int| 0 <= i < ps.len() && j == i + 1 && j < ts.len() ==> (#[trigger] ps[i]).shi() <= (#[trigger] ts[j]).slo()
}
pub proof fn row_push<'s, T: ToSpan, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, c: Parser<'s, L>, s: Seq<T>, x: T)
    requires in_row(a, b, s), b.end() <= x.slo() <= x.shi() <= c.end(), a.end() <= b.end(), b.info.source == a.info.source, on_char(a.info.source, x.slo() as int), on_char(a.info.source, x.shi() as int),
    ensures in_row(a, c, s.push(x)),
{
    let s2 = s.push(x);
    assert forall|i: int| 0 <= i < s2.len() implies placed(a, c, (#[trigger] s2[i]).slo(), s2[i].shi()) by { if i < s.len() { assert(s2[i] == s[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < s2.len() implies (#[trigger] s2[i]).shi() <= (#[trigger] s2[j]).slo() by { if j < s.len() { assert(s2[i] == s[i] && s2[j] == s[j]); } else { assert(s2[i] == s[i]); } }
}
pub proof fn turn_push_p<'s, T: ToSpan, P: ToSpan, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, ts: Seq<T>, ps: Seq<P>, p: P)
    requires ts.len() == ps.len() + 1, in_turn(ts, ps), in_row(a, b, ts), b.end() <= p.slo(),
    ensures in_turn(ts, ps.push(p)),
{
    let p2 = ps.push(p);
    let n = ps.len() as int;
    assert forall|i: int, j: int| 0 <= i < p2.len() && j == i implies (#[trigger] ts[i]).shi() <= (#[trigger] p2[j]).slo() by { if i < n { assert(p2[j] == ps[j]); } }
    assert forall|i: int, j: int| 0 <= i < p2.len() && j == i + 1 && j < ts.len() implies (#[trigger] p2[i]).shi() <= (#[trigger] ts[j]).slo() by { assert(p2[i] == ps[i]); }
}
pub proof fn turn_push_t<'s, T: ToSpan, P: ToSpan, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, ts: Seq<T>, ps: Seq<P>, t: T)
    requires ts.len() == ps.len(), in_turn(ts, ps), in_row(a, b, ps), b.end() <= t.slo(),
    ensures in_turn(ts.push(t), ps),
{
    let t2 = ts.push(t);
    assert forall|i: int, j: int| 0 <= i < ps.len() && j == i implies (#[trigger] t2[i]).shi() <= (#[trigger] ps[j]).slo() by { assert(t2[i] == ts[i]); }
    assert forall|i: int, j: int| 0 <= i < ps.len() && j == i + 1 && j < t2.len() implies (#[trigger] ps[i]).shi() <= (#[trigger] t2[j]).slo() by { if j < ts.len() { assert(t2[j] == ts[j]); } }
}
pub proof fn turn_push<'s, T: ToSpan, P: ToSpan, L: Lexicon>(a: Parser<'s, L>, b: Parser<'s, L>, c: Parser<'s, L>, ts: Seq<T>, ps: Seq<P>, t: T, p: P)
    requires ts.len() == ps.len() + 1, in_turn(ts, ps), in_row(a, b, ts), in_row(a, b, ps), b.end() <= c.end(), b.info.source == a.info.source,
        ts.last().shi() <= p.slo() <= p.shi() <= t.slo() <= t.shi() <= c.end(),
        on_char(a.info.source, p.slo() as int), on_char(a.info.source, p.shi() as int), on_char(a.info.source, t.slo() as int), on_char(a.info.source, t.shi() as int),
    ensures in_turn(ts.push(t), ps.push(p)), in_row(a, c, ts.push(t)), in_row(a, c, ps.push(p)),
{
    let t2 = ts.push(t);
    let p2 = ps.push(p);
    let n = ps.len() as int;
    assert(a.end() <= ts.last().slo() && ts.last().slo() <= ts.last().shi());
    assert forall|i: int| 0 <= i < n implies (#[trigger] p2[i]).shi() <= p.slo() by { assert(ps[i].shi() <= ts[i + 1].slo()); if i + 1 < n { assert(ts[i + 1].shi() <= ts[n].slo()); } assert(p2[i] == ps[i]); }
    assert forall|i: int| 0 <= i < t2.len() implies placed(a, c, (#[trigger] t2[i]).slo(), t2[i].shi()) by { if i < ts.len() { assert(t2[i] == ts[i]); } }
    assert forall|i: int| 0 <= i < p2.len() implies placed(a, c, (#[trigger] p2[i]).slo(), p2[i].shi()) by { if i < n { assert(p2[i] == ps[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < t2.len() implies (#[trigger] t2[i]).shi() <= (#[trigger] t2[j]).slo() by {
        if j < ts.len() { assert(t2[i] == ts[i] && t2[j] == ts[j]); } else { assert(t2[i] == ts[i]); assert(ts[i].shi() <= ts.last().shi()) by { if i < n { assert(ts[i].shi() <= ts[n].slo()); } } }
    }
    assert forall|i: int, j: int| 0 <= i < j < p2.len() implies (#[trigger] p2[i]).shi() <= (#[trigger] p2[j]).slo() by { if j < n { assert(p2[i] == ps[i] && p2[j] == ps[j]); } }
    assert forall|i: int, j: int| 0 <= i < p2.len() && j == i implies (#[trigger] t2[i]).shi() <= (#[trigger] p2[j]).slo() by { if i < n { assert(t2[i] == ts[i] && p2[j] == ps[j]); } else { assert(t2[i] == ts[i]); } }
    assert forall|i: int, j: int| 0 <= i < p2.len() && j == i + 1 implies (#[trigger] p2[i]).shi() <= (#[trigger] t2[j]).slo() by { if i < n { assert(p2[i] == ps[i] && t2[j] == ts[j]); } }
}
pub proof fn of_punct<T: Production, P: Production<L = T::L>>(m: Metadata<T::L>)
    requires fits(m, crate::tp_impl::punct::PunctProd::<T, P>::tid())
    ensures fits(m, T::tid()), fits(m, P::tid()), !nul(m.first.at(), T::tid()), !nul(m.first.at(), P::tid()), !nul(m.first.at(), crate::tp_impl::punct::PunctProd::<T, P>::tid()),
        forall|s: Sym<T::L>| s is Some ==> (#[trigger] m.first.at()(crate::tp_impl::punct::PunctProd::<T, P>::tid()).contains(s) <==> m.first.at()(T::tid()).contains(s)),
{
    let f = m.first.at();
    let v = seq![T::tid(), crate::tp_impl::option::OptionProd::<(P, crate::tp_impl::option::OptionProd<crate::tp_impl::punct::PunctProd<T, P>>)>::tid()];
    of_parts::<crate::tp_impl::punct::PunctProd<T, P>>(m, v);
    assert(fits(m, v[0])); assert(fits(m, v[1]));
    of_option::<(P, crate::tp_impl::option::OptionProd<crate::tp_impl::punct::PunctProd<T, P>>), crate::tp_impl::option::OptionProd<(P, crate::tp_impl::option::OptionProd<crate::tp_impl::punct::PunctProd<T, P>>)>>(m);
    let w = seq![P::tid(), crate::tp_impl::option::OptionProd::<crate::tp_impl::punct::PunctProd<T, P>>::tid()];
    of_parts::<(P, crate::tp_impl::option::OptionProd<crate::tp_impl::punct::PunctProd<T, P>>)>(m, w);
    assert(fits(m, w[0])); assert(fits(m, w[1]));
    of_option::<crate::tp_impl::punct::PunctProd<T, P>, crate::tp_impl::option::OptionProd<crate::tp_impl::punct::PunctProd<T, P>>>(m);
    reveal_with_fuel(begins_at, 4); reveal_with_fuel(nul_at, 4);
}
/// FIRST of a separated list
pub proof fn of_split<T: Production, P: Production<L = T::L>>(m: Metadata<T::L>)
    requires fits(m, <(T, crate::tp_impl::option::OptionProd<crate::tp_impl::iter::OneOrMore<(P, T)>>)>::tid())
    ensures fits(m, T::tid()), fits(m, P::tid()), !nul(m.first.at(), T::tid()) || !nul(m.first.at(), P::tid()),
        nul(m.first.at(), <(T, crate::tp_impl::option::OptionProd<crate::tp_impl::iter::OneOrMore<(P, T)>>)>::tid()) <==> nul(m.first.at(), T::tid()),
        forall|s: Sym<T::L>| s is Some ==> (#[trigger] m.first.at()(<(T, crate::tp_impl::option::OptionProd<crate::tp_impl::iter::OneOrMore<(P, T)>>)>::tid()).contains(s)
            <==> m.first.at()(T::tid()).contains(s) || nul(m.first.at(), T::tid()) && m.first.at()(P::tid()).contains(s)),
{
    let f = m.first.at();
    let v = seq![T::tid(), crate::tp_impl::option::OptionProd::<crate::tp_impl::iter::OneOrMore<(P, T)>>::tid()];
    of_parts::<(T, crate::tp_impl::option::OptionProd<crate::tp_impl::iter::OneOrMore<(P, T)>>)>(m, v);
    assert(fits(m, v[0])); assert(fits(m, v[1]));
    of_option::<crate::tp_impl::iter::OneOrMore<(P, T)>, crate::tp_impl::option::OptionProd<crate::tp_impl::iter::OneOrMore<(P, T)>>>(m);
    of_many::<(P, T)>(m);
    let w = seq![P::tid(), T::tid()];
    of_parts::<(P, T)>(m, w);
    assert(fits(m, w[0])); assert(fits(m, w[1]));
    reveal_with_fuel(begins_at, 4); reveal_with_fuel(nul_at, 4);
}
#mod tp_impl::split
use crate::parser::parser_impl::*;
use crate::parser::tree::*;
use crate::lex::vec::*;
use crate::syntax::first::nul;
use crate::syntax::term_set::*;
broadcast use peeks;
#impl tp_impl::split::Split as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    exists|lt: Seq<Ran<'s, T, <Self::Prod as Production>::L>>, lp: Seq<Ran<'s, P, <Self::Prod as Production>::L>>| #[trigger] soft::<T, <Self::Prod as Production>::L>(m, lt, errs(r), false) && #[trigger] soft::<P, <Self::Prod as Production>::L>(m, lp, errs(r), false)
        && match got(r) {
            Some(x) => x.elems.value@ == items_of(lt) && x.elems.value@.len() == x.puncts@.len() + 1,
            None => lt.len() == 1 && got(lt[0].r) is None && errs(r) == errs(lt[0].r),
        }
        && (r is Success ==> turns::<T, P, <Self::Prod as Production>::L>(m, lt, lp, a, b) && (got(r)->0).puncts@ == items_of(lp)
            && !hits(m, P::Prod::tid(), b) && !(nul(m.first.at(), P::Prod::tid()) && hits(m, T::Prod::tid(), b)))
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { exists|n: nat| #[trigger] woven::<T, P>(n, w) }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    let (lt, lp) = choose|lt: Seq<Ran<'s, T, <Self::Prod as Production>::L>>, lp: Seq<Ran<'s, P, <Self::Prod as Production>::L>>| #[trigger] soft::<T, <Self::Prod as Production>::L>(m, lt, errs(r), false) && #[trigger] soft::<P, <Self::Prod as Production>::L>(m, lp, errs(r), false) && turns::<T, P, <Self::Prod as Production>::L>(m, lt, lp, a, b);
    turns_woven::<T, P, <Self::Prod as Production>::L>(m, lt, lp, a, b);
}
#fn tp_impl::split::Split as Produce::produce
#attr #[verifier::exec_allows_no_decreases_clause]
#spec
ensures match got(r) { Some(x) => x.elems.value@.len() == x.puncts@.len() + 1 && in_turn(x.elems.value@, x.puncts@)
        && in_row(*old(parser), *final(parser), x.elems.value@) && in_row(*old(parser), *final(parser), x.puncts@)
        && x.elems.span.lo == x.elems.value@[0].slo() && x.elems.span.hi == x.elems.value@.last().shi(), None => true },
#pre
hide(on_char); hide(step); hide(Parser::wf); hide(Parser::end); hide(Parser::ahead); hide(Parser::here); hide(Parser::taken); hide(Parser::sym); hide(turns); hide(soft); hide(in_turn); hide(in_row);
let ghost a0 = *parser;
proof { mark(a0); }
proof { soft_none::<T, <T::Prod as Production>::L>(*meta, Seq::empty(), false); soft_none::<P, <T::Prod as Production>::L>(*meta, Seq::empty(), false); }
let ghost f = meta.first.at();
proof { of_split::<T::Prod, P::Prod>(*meta); }
let ghost mut lt: Seq<Ran<'_, T, <T::Prod as Production>::L>> = Seq::empty();
let ghost mut lp: Seq<Ran<'_, P, <T::Prod as Production>::L>> = Seq::empty();
#before return SynResult::Panic(e)
proof {
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, a0, *parser, t) && t == SynResult::<T, <T::Prod as Production>::L>::Panic(e);
    let x = Ran { a: a0, b: *parser, r: t };
    soft_on::<T, <T::Prod as Production>::L>(*meta, lt, Seq::empty(), false, x, e@, false);
    lt = lt.push(x);
    let res: SynResult<Self, <T::Prod as Production>::L> = SynResult::Panic(e);
    assert(errs(res) == e@);
    assert(lt.len() == 1 && lt[0] == x);
    soft_none::<P, <T::Prod as Production>::L>(*meta, errs(res), false);
    assert(soft::<T, <T::Prod as Production>::L>(*meta, lt, errs(res), false));
}
#after let (lo, mut elems, mut errors) =
let ghost b0 = *parser;
proof {
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, a0, b0, t) && told(t) && got(t) == Some(elems@[0]) && errs(t) =~= errors@;
    let x = Ran { a: a0, b: b0, r: t };
    assert forall|k: int| 0 <= k < errs(x.r).len() implies errors@.contains(#[trigger] errs(x.r)[k]) by { assert(errors@[k] == errs(x.r)[k]); }
    soft_on::<T, <T::Prod as Production>::L>(*meta, lt, Seq::empty(), false, x, errors@, false);
    lt = lt.push(x);
    assert(items_of(lt) =~= elems@);
    assert(elems@ =~= seq![elems@[0]]);
    turn_one::<T, P, <T::Prod as Production>::L>(a0, b0, elems@[0]);
    soft_none::<P, <T::Prod as Production>::L>(*meta, errors@, false);
    if errors@.len() == 0 { turns_one::<T, P, <T::Prod as Production>::L>(*meta, a0, b0, t); }
}
#loopbefore 0
let ghost mut fuel: nat = parser.ahead().len() + 1;
#loop 0
    invariant_except_break
        parser.ahead().len() < fuel,
        nul(f, Self::Prod::tid()) && !hits(*meta, Self::Prod::tid(), a0) ==> look(a0, *parser) && errors@.len() == 0,
        hits(*meta, Self::Prod::tid(), a0) ==> a0.taken().len() < parser.taken().len() || look(a0, *parser) && !hits(*meta, T::Prod::tid(), a0),
        errors@.len() == 0 ==> turns::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, *parser) && items_of(lp) == puncts@,
    invariant
        base(a0), a0.wf(), parser.wf(), step(a0, *parser), fits(*meta, T::Prod::tid()), fits(*meta, P::Prod::tid()), f == meta.first.at(),
        elem_first@ == f(T::Prod::tid()), punct_first@ == f(P::Prod::tid()), nul(f, Self::Prod::tid()) <==> nul(f, T::Prod::tid()),
        !nul(f, T::Prod::tid()) || !nul(f, P::Prod::tid()),
        forall|s: Sym<<T::Prod as Production>::L>| s is Some ==> (#[trigger] f(Self::Prod::tid()).contains(s) <==> f(T::Prod::tid()).contains(s) || nul(f, T::Prod::tid()) && f(P::Prod::tid()).contains(s)),
        elems@.len() == puncts@.len() + 1, elems@[0].slo() == lo, in_row(a0, *parser, elems@), in_row(a0, *parser, puncts@), in_turn(elems@, puncts@),
        items_of(lt) == elems@, soft::<T, <T::Prod as Production>::L>(*meta, lt, errors@, false), soft::<P, <T::Prod as Production>::L>(*meta, lp, errors@, false),
    ensures
        nul(f, Self::Prod::tid()) && !hits(*meta, Self::Prod::tid(), a0) ==> look(a0, *parser) && errors@.len() == 0,
        hits(*meta, Self::Prod::tid(), a0) ==> a0.taken().len() < parser.taken().len(),
        errors@.len() == 0 ==> turns::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, *parser) && items_of(lp) == puncts@
            && !hits(*meta, P::Prod::tid(), *parser) && !(nul(f, P::Prod::tid()) && hits(*meta, T::Prod::tid(), *parser)),
#loopstart 0
let ghost p0 = *parser;
proof { fuel = p0.ahead().len(); }
proof { mark(p0); }
let ghost e0 = errors@;
#before let p = match P::produce
let ghost p1 = *parser;
proof { row_later(a0, p0, p1, elems@); row_later(a0, p0, p1, puncts@); }
#before let mut panic: Option<
let ghost p2 = *parser;
proof { mark(p2); }
proof { row_later(a0, p1, p2, elems@); row_later(a0, p1, p2, puncts@); }
let ghost e2 = errors@;
let ghost u = choose|u: SynResult<P, <T::Prod as Production>::L>| #[trigger] P::did(*meta, p1, p2, u) && told(u) && got(u) == Some(p) && errors@ =~= e0 + errs(u);
let ghost xp = Ran { a: p1, b: p2, r: u };
let ghost lp0 = lp;
let ghost ps = p.slo(); let ghost ph = p.shi();
proof {
    assert forall|k: int| 0 <= k < errs(u).len() implies errors@.contains(#[trigger] errs(u)[k]) by { assert(errors@[e0.len() + k] == errs(u)[k]); }
    soft_on::<P, <T::Prod as Production>::L>(*meta, lp, e0, false, xp, errors@, false);
    soft_more::<T, <T::Prod as Production>::L>(*meta, lt, e0, false, errors@, false);
    if e2.len() == 0 { turns_look::<T, P, <T::Prod as Production>::L>(*meta, lt, lp0, a0, p0, p1); }
    lp = lp.push(xp);
    step_refl(p2);
}
#before break
proof { row_later(a0, p0, *parser, elems@); row_later(a0, p0, *parser, puncts@); if errors@.len() == 0 { turns_look::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, p0, *parser); } }
#before break
proof { row_later(a0, p0, *parser, elems@); row_later(a0, p0, *parser, puncts@); if errors@.len() == 0 { turns_look::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, p0, *parser); } }
#before break
proof {
    let q = *parser;
    let t = choose|t: SynResult<P, <T::Prod as Production>::L>| #[trigger] P::did(*meta, p1, q, t) && told(t) && t is Panic && errors@ =~= e0 + errs(t);
    let x = Ran { a: p1, b: q, r: t };
    soft_on::<P, <T::Prod as Production>::L>(*meta, lp, e0, false, x, errors@, false);
    soft_more::<T, <T::Prod as Production>::L>(*meta, lt, e0, false, errors@, false);
    lp = lp.push(x);
    row_later(a0, p1, q, elems@); row_later(a0, p1, q, puncts@);
}
#loopbefore 1
let ghost mut inner: nat = parser.ahead().len() + 1;
#loop 1
    invariant
        base(p0), base(p2), parser.ahead().len() < inner, fuel == p0.ahead().len(), base(a0), a0.wf(), parser.wf(), step(a0, *parser), fits(*meta, T::Prod::tid()), fits(*meta, P::Prod::tid()), f == meta.first.at(),
        elem_first@ == f(T::Prod::tid()), punct_first@ == f(P::Prod::tid()), nul(f, Self::Prod::tid()) <==> nul(f, T::Prod::tid()),
        !nul(f, T::Prod::tid()) || !nul(f, P::Prod::tid()),
        forall|s: Sym<<T::Prod as Production>::L>| s is Some ==> (#[trigger] f(Self::Prod::tid()).contains(s) <==> f(T::Prod::tid()).contains(s) || nul(f, T::Prod::tid()) && f(P::Prod::tid()).contains(s)),
        elems@.len() == puncts@.len() + 1, elems@[0].slo() == lo, in_row(a0, *parser, elems@), in_row(a0, *parser, puncts@), in_turn(elems@, puncts@),
        items_of(lt) == elems@, soft::<T, <T::Prod as Production>::L>(*meta, lt, errors@, panic is Some), soft::<P, <T::Prod as Production>::L>(*meta, lp, errors@, panic is Some),
        p0.wf(), step(a0, p0), step(p0, *parser), p0.taken().len() < parser.taken().len() || hits(*meta, T::Prod::tid(), *parser),
        !(nul(f, Self::Prod::tid()) && !hits(*meta, Self::Prod::tid(), a0)),
        p.slo() == ps, p.shi() == ph, a0.end() <= ps <= ph <= parser.end(), on_char(a0.info.source, ps as int), on_char(a0.info.source, ph as int), elems@.last().shi() <= ps,
        lp == lp0.push(xp), P::did(*meta, xp.a, xp.b, xp.r), got(xp.r) == Some(p), xp.a == p1, xp.b == p2,
        errors@.len() == 0 && panic is None ==> look(p2, *parser) && turns::<T, P, <T::Prod as Production>::L>(*meta, lt, lp0, a0, p1) && items_of(lp0) == puncts@ && xp.r is Success,
#loopstart 1
let ghost qi = *parser;
proof { inner = qi.ahead().len(); }
proof { mark(qi); }
let ghost hadi = panic is Some;
#before match T::produce
let ghost q0 = *parser;
let ghost eq = errors@;
let ghost had = panic is Some;
let ghost es0 = elems@;
let ghost ps0 = puncts@;
proof { row_later(a0, qi, q0, elems@); row_later(a0, qi, q0, puncts@); }
assert(es0.last().shi() <= ps && ph <= q0.end());
#before continue 'outer
proof {
    let q = *parser;
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, q0, q, t) && told(t) && t is Success && elems@ == items_of(lt).push(t->Success_0);
    let x = Ran { a: q0, b: q, r: t };
    soft_on::<T, <T::Prod as Production>::L>(*meta, lt, eq, had, x, errors@, false);
    soft_more::<P, <T::Prod as Production>::L>(*meta, lp, eq, had, errors@, false);
    assert(elems@.last() == t->Success_0);
    turn_push(a0, q0, q, es0, ps0, t->Success_0, p);
    if errors@.len() == 0 { step_refl(p1); step_refl(q); turns_on::<T, P, <T::Prod as Production>::L>(*meta, lt, lp0, a0, p1, xp, x, q); }
    lt = lt.push(x);
}
#before continue 'outer
proof {
    let q = *parser;
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, q0, q, t) && told(t) && t is Recovered && elems@ == items_of(lt).push(t->Recovered_0) && extends(eq + errs(t), errors@);
    let x = Ran { a: q0, b: q, r: t };
    assert(elems@.last() == t->Recovered_0);
    turn_push(a0, q0, q, es0, ps0, t->Recovered_0, p);
    assert forall|k: int| 0 <= k < errs(t).len() implies errors@.contains(#[trigger] errs(t)[k]) by { assert((eq + errs(t))[eq.len() + k] == errs(t)[k]); assert(errors@[eq.len() + k] == errs(t)[k]); }
    assert(extends(eq, errors@)) by { assert forall|k: int| 0 <= k < eq.len() implies errors@[k] == #[trigger] eq[k] by { assert((eq + errs(t))[k] == eq[k]); } }
    soft_on::<T, <T::Prod as Production>::L>(*meta, lt, eq, had, x, errors@, false);
    soft_more::<P, <T::Prod as Production>::L>(*meta, lp, eq, had, errors@, false);
    lt = lt.push(x);
}
#before token = parser.peek_token_src()
proof {
    let q = *parser;
    row_later(a0, q0, q, elems@); row_later(a0, q0, q, puncts@);
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, q0, q, t) && told(t) && t is Panic;
    let x = Ran { a: q0, b: q, r: t };
    soft_on::<T, <T::Prod as Production>::L>(*meta, lt, eq, had, x, errors@, panic is Some);
    soft_more::<P, <T::Prod as Production>::L>(*meta, lp, eq, had, errors@, panic is Some);
    lt = lt.push(x);
}
#before if punct_first.contains(token)
let ghost er = errors@;
let ghost hadr = panic is Some;
let ghost qr = *parser;
proof { row_later(a0, qi, qr, elems@); row_later(a0, qi, qr, puncts@); }
proof {
    assert(hadr);
    if soft::<P, <T::Prod as Production>::L>(*meta, lp, er, hadi) { soft_more::<P, <T::Prod as Production>::L>(*meta, lp, er, hadi, er, true); }
    if soft::<T, <T::Prod as Production>::L>(*meta, lt, er, hadi) { soft_more::<T, <T::Prod as Production>::L>(*meta, lt, er, hadi, er, true); }
}
#before continue 'outer
proof { soft_more::<T, <T::Prod as Production>::L>(*meta, lt, er, true, errors@, false); soft_more::<P, <T::Prod as Production>::L>(*meta, lp, er, true, errors@, false); }
#before break 'outer
proof { soft_more::<T, <T::Prod as Production>::L>(*meta, lt, er, true, errors@, false); soft_more::<P, <T::Prod as Production>::L>(*meta, lp, er, true, errors@, false); }
#closure 0 () -> (o: usize)
ensures o == lo
#closure 1 (t: &T) -> (o: usize)
ensures o == t.shi()
#before let hi = elems.last()
let ghost elems0 = elems@;
#post
proof {
    row_later(a0, *parser, *parser, elems0);
    assert(errs(vt_ret) =~= errors@);
    assert(got(vt_ret) is Some);
    let es = errs(vt_ret);
    assert(es == errors@);
    assert(soft::<T, <T::Prod as Production>::L>(*meta, lt, es, false));
    assert(soft::<P, <T::Prod as Production>::L>(*meta, lp, es, false));
    assert((got(vt_ret)->0).elems.value@ == items_of(lt));
    if vt_ret is Success {
        assert(es.len() == 0);
        assert(turns::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, *parser));
        assert((got(vt_ret)->0).puncts@ == items_of(lp));
        assert(!hits(*meta, P::Prod::tid(), *parser));
        assert(!(nul(f, P::Prod::tid()) && hits(*meta, T::Prod::tid(), *parser)));
    }
}
#before parser.consume_token()
proof { }
#after parser.consume_token()
proof { row_later(a0, qr, *parser, elems@); row_later(a0, qr, *parser, puncts@); }
#mod tp_impl::punct
use crate::parser::parser_impl::*;
use crate::parser::tree::*;
use crate::lex::vec::*;
use crate::syntax::first::nul;
use crate::syntax::term_set::*;
broadcast use peeks;
#impl tp_impl::punct::Punct as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    exists|lt: Seq<Ran<'s, T, <Self::Prod as Production>::L>>, lp: Seq<Ran<'s, P, <Self::Prod as Production>::L>>| #[trigger] soft::<T, <Self::Prod as Production>::L>(m, lt, errs(r), false) && #[trigger] soft::<P, <Self::Prod as Production>::L>(m, lp, errs(r), false)
        && match got(r) {
            Some(x) => x.elems@ == items_of(lt) && x.puncts@ == items_of(lp) && x.elems@.len() > 0,
            None => lt.len() == 1 && got(lt[0].r) is None && errs(r) == errs(lt[0].r),
        }
        && (r is Success ==>
            turns::<T, P, <Self::Prod as Production>::L>(m, lt, lp, a, b) && !hits(m, P::Prod::tid(), b) && (got(r)->0).elems@.len() == (got(r)->0).puncts@.len() + 1
            || turns_p::<T, P, <Self::Prod as Production>::L>(m, lt, lp, a, b) && !hits(m, T::Prod::tid(), b) && (got(r)->0).elems@.len() == (got(r)->0).puncts@.len())
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { (exists|n: nat| #[trigger] woven::<T, P>(n, w)) || (exists|n: nat| #[trigger] woven_p::<T, P>(n, w)) }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    let (lt, lp) = choose|lt: Seq<Ran<'s, T, <Self::Prod as Production>::L>>, lp: Seq<Ran<'s, P, <Self::Prod as Production>::L>>| #[trigger] soft::<T, <Self::Prod as Production>::L>(m, lt, errs(r), false) && #[trigger] soft::<P, <Self::Prod as Production>::L>(m, lp, errs(r), false) && (turns::<T, P, <Self::Prod as Production>::L>(m, lt, lp, a, b) || turns_p::<T, P, <Self::Prod as Production>::L>(m, lt, lp, a, b));
    if turns::<T, P, <Self::Prod as Production>::L>(m, lt, lp, a, b) { turns_woven::<T, P, <Self::Prod as Production>::L>(m, lt, lp, a, b); }
    else { turns_woven_p::<T, P, <Self::Prod as Production>::L>(m, lt, lp, a, b); }
}
#fn tp_impl::punct::Punct as Produce::produce
#attr #[verifier::exec_allows_no_decreases_clause]
#spec
ensures match got(r) { Some(x) => in_row(*old(parser), *final(parser), x.elems@) && in_row(*old(parser), *final(parser), x.puncts@) && x.elems@.len() > 0
        && x.span.lo == x.elems@[0].slo() && (r is Success ==> in_turn(x.elems@, x.puncts@) && (x.elems@.len() == x.puncts@.len() || x.elems@.len() == x.puncts@.len() + 1)), None => true },
#pre
hide(on_char); hide(step); hide(Parser::wf); hide(Parser::end); hide(Parser::ahead); hide(Parser::here); hide(Parser::taken); hide(Parser::sym); hide(turns); hide(turns_p); hide(soft); hide(in_turn); hide(in_row);
let ghost a0 = *parser;
proof { mark(a0); }
proof { soft_none::<T, <T::Prod as Production>::L>(*meta, Seq::empty(), false); soft_none::<P, <T::Prod as Production>::L>(*meta, Seq::empty(), false); }
let ghost f = meta.first.at();
proof { of_punct::<T::Prod, P::Prod>(*meta); }
let ghost mut lt: Seq<Ran<'_, T, <T::Prod as Production>::L>> = Seq::empty();
let ghost mut lp: Seq<Ran<'_, P, <T::Prod as Production>::L>> = Seq::empty();
#before return SynResult::Panic(e)
proof {
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, a0, *parser, t) && t == SynResult::<T, <T::Prod as Production>::L>::Panic(e);
    let x = Ran { a: a0, b: *parser, r: t };
    soft_on::<T, <T::Prod as Production>::L>(*meta, lt, Seq::empty(), false, x, e@, false);
    lt = lt.push(x);
    let res: SynResult<Self, <T::Prod as Production>::L> = SynResult::Panic(e);
    assert(errs(res) == e@);
    assert(lt.len() == 1 && lt[0] == x);
    soft_none::<P, <T::Prod as Production>::L>(*meta, errs(res), false);
    assert(soft::<T, <T::Prod as Production>::L>(*meta, lt, errs(res), false));
}
#after let (lo, mut elems, mut errors) =
let ghost b0 = *parser;
proof {
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, a0, b0, t) && told(t) && got(t) == Some(elems@[0]) && errs(t) =~= errors@;
    let x = Ran { a: a0, b: b0, r: t };
    assert forall|k: int| 0 <= k < errs(x.r).len() implies errors@.contains(#[trigger] errs(x.r)[k]) by { assert(errors@[k] == errs(x.r)[k]); }
    soft_on::<T, <T::Prod as Production>::L>(*meta, lt, Seq::empty(), false, x, errors@, false);
    lt = lt.push(x);
    assert(items_of(lt) =~= elems@);
    assert(elems@ =~= seq![elems@[0]]);
    turn_one::<T, P, <T::Prod as Production>::L>(a0, b0, elems@[0]);
    soft_none::<P, <T::Prod as Production>::L>(*meta, errors@, false);
    if errors@.len() == 0 { turns_one::<T, P, <T::Prod as Production>::L>(*meta, a0, b0, t); }
}
#loopbefore 0
let ghost mut fuel: nat = parser.ahead().len() + 1;
#loop 0
    invariant_except_break
        parser.ahead().len() < fuel,
        errors@.len() == 0 ==> turns::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, *parser) && in_turn(elems@, puncts@) && elems@.len() == puncts@.len() + 1,
    invariant
        base(a0), a0.wf(), parser.wf(), step(a0, *parser), fits(*meta, T::Prod::tid()), fits(*meta, P::Prod::tid()), f == meta.first.at(),
        elem_first@ == f(T::Prod::tid()), punct_first@ == f(P::Prod::tid()), !nul(f, T::Prod::tid()), !nul(f, P::Prod::tid()), !nul(f, Self::Prod::tid()),
        hits(*meta, Self::Prod::tid(), a0) ==> a0.taken().len() < parser.taken().len(),
        elems@.len() > 0, elems@[0].slo() == lo, in_row(a0, *parser, elems@), in_row(a0, *parser, puncts@),
        items_of(lt) == elems@, items_of(lp) == puncts@, soft::<T, <T::Prod as Production>::L>(*meta, lt, errors@, false), soft::<P, <T::Prod as Production>::L>(*meta, lp, errors@, false),
    ensures
        errors@.len() == 0 ==> in_turn(elems@, puncts@) && (turns::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, *parser) && !hits(*meta, P::Prod::tid(), *parser) && elems@.len() == puncts@.len() + 1
            || turns_p::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, *parser) && !hits(*meta, T::Prod::tid(), *parser) && elems@.len() == puncts@.len()),
#loopstart 0
let ghost p0 = *parser;
proof { fuel = p0.ahead().len(); }
proof { mark(p0); }
let ghost e0 = errors@;
#before match P::produce
let ghost p1 = *parser;
let ghost ps0 = puncts@;
proof { row_later(a0, p0, p1, elems@); row_later(a0, p0, p1, puncts@); }
#before break
proof { row_later(a0, p0, *parser, elems@); row_later(a0, p0, *parser, puncts@); if errors@.len() == 0 { turns_look::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, p0, *parser); } }
#before break
proof { row_later(a0, p0, *parser, elems@); row_later(a0, p0, *parser, puncts@); if errors@.len() == 0 { turns_look::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, p0, *parser); } }
#before break
proof {
    let q = *parser;
    let t = choose|t: SynResult<P, <T::Prod as Production>::L>| #[trigger] P::did(*meta, p1, q, t) && told(t) && t is Panic && errors@ =~= e0 + errs(t);
    let x = Ran { a: p1, b: q, r: t };
    assert forall|k: int| 0 <= k < errs(t).len() implies errors@.contains(#[trigger] errs(t)[k]) by { assert(errors@[e0.len() + k] == errs(t)[k]); }
    soft_on::<P, <T::Prod as Production>::L>(*meta, lp, e0, false, x, errors@, false);
    soft_more::<T, <T::Prod as Production>::L>(*meta, lt, e0, false, errors@, false);
    lp = lp.push(x);
    row_later(a0, p1, q, elems@); row_later(a0, p1, q, puncts@);
}
#before let mut panic: Option<
let ghost p2 = *parser;
proof { mark(p2); }
proof {
    let u = choose|u: SynResult<P, <T::Prod as Production>::L>| #[trigger] P::did(*meta, p1, p2, u) && told(u) && got(u) is Some && puncts@ == ps0.push(got(u)->0) && errors@ =~= e0 + errs(u);
    let xp = Ran { a: p1, b: p2, r: u };
    let p = got(u)->0;
    assert(puncts@.last() == p);
    assert forall|k: int| 0 <= k < errs(u).len() implies errors@.contains(#[trigger] errs(u)[k]) by { assert(errors@[e0.len() + k] == errs(u)[k]); }
    soft_on::<P, <T::Prod as Production>::L>(*meta, lp, e0, false, xp, errors@, false);
    soft_more::<T, <T::Prod as Production>::L>(*meta, lt, e0, false, errors@, false);
    if errors@.len() == 0 {
        turns_look::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, p0, p1);
        step_refl(p1); step_refl(p2);
        turns_push_p::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, p1, xp, p2);
        turn_push_p(a0, p1, elems@, ps0, p);
    }
    row_later(a0, p1, p2, elems@);
    row_push(a0, p1, p2, ps0, p);
    lp = lp.push(xp);
    step_refl(p2);
}
#loopbefore 1
let ghost mut inner: nat = parser.ahead().len() + 1;
#loop 1
    invariant
        base(p0), base(p2), parser.ahead().len() < inner, fuel == p0.ahead().len(), base(a0), a0.wf(), parser.wf(), step(a0, *parser), fits(*meta, T::Prod::tid()), fits(*meta, P::Prod::tid()), f == meta.first.at(),
        elem_first@ == f(T::Prod::tid()), punct_first@ == f(P::Prod::tid()), !nul(f, T::Prod::tid()), !nul(f, P::Prod::tid()), !nul(f, Self::Prod::tid()),
        hits(*meta, Self::Prod::tid(), a0) ==> a0.taken().len() < parser.taken().len(),
        elems@.len() > 0, elems@[0].slo() == lo, in_row(a0, *parser, elems@), in_row(a0, *parser, puncts@),
        items_of(lt) == elems@, items_of(lp) == puncts@, soft::<T, <T::Prod as Production>::L>(*meta, lt, errors@, panic is Some), soft::<P, <T::Prod as Production>::L>(*meta, lp, errors@, panic is Some),
        p0.wf(), step(a0, p0), step(p0, *parser), p0.taken().len() < parser.taken().len(),
        errors@.len() == 0 && panic is None ==> look(p2, *parser) && turns_p::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, *parser) && in_turn(elems@, puncts@) && elems@.len() == puncts@.len(),
#loopstart 1
let ghost qi = *parser;
proof { inner = qi.ahead().len(); }
proof { mark(qi); }
let ghost ei = errors@;
let ghost hadi = panic is Some;
let ghost mut q1 = *parser;
#before break 'outer
proof {
    let q = *parser;
    row_later(a0, qi, q, elems@); row_later(a0, qi, q, puncts@);
    soft_more::<T, <T::Prod as Production>::L>(*meta, lt, ei, hadi, errors@, false); soft_more::<P, <T::Prod as Production>::L>(*meta, lp, ei, hadi, errors@, false);
    if errors@.len() == 0 { turns_p_look::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, qi, q); }
}
#before break 'outer
proof {
    let q = *parser;
    row_later(a0, qi, q, elems@); row_later(a0, qi, q, puncts@);
    soft_more::<T, <T::Prod as Production>::L>(*meta, lt, ei, hadi, errors@, false); soft_more::<P, <T::Prod as Production>::L>(*meta, lp, ei, hadi, errors@, false);
    if errors@.len() == 0 { turns_p_look::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, qi, q); }
}
#before match T::produce
let ghost q0 = *parser;
proof { q1 = q0; }
let ghost eq = errors@;
let ghost had = panic is Some;
let ghost es0 = elems@;
let ghost ps1 = puncts@;
proof { row_later(a0, qi, q0, elems@); row_later(a0, qi, q0, puncts@); }
#before continue 'outer
proof {
    let q = *parser;
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, q0, q, t) && told(t) && t is Success && elems@ == items_of(lt).push(t->Success_0);
    let x = Ran { a: q0, b: q, r: t };
    assert(elems@.last() == t->Success_0);
    soft_on::<T, <T::Prod as Production>::L>(*meta, lt, eq, had, x, errors@, false);
    soft_more::<P, <T::Prod as Production>::L>(*meta, lp, eq, had, errors@, false);
    row_push(a0, q0, q, es0, t->Success_0);
    row_later(a0, q0, q, puncts@);
    if errors@.len() == 0 {
        step_refl(q); step_refl(q0);
        turns_p_look::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, qi, q0);
        turns_push_t::<T, P, <T::Prod as Production>::L>(*meta, lt, lp, a0, q0, x, q);
        turn_push_t(a0, q0, es0, puncts@, t->Success_0);
    }
    lt = lt.push(x);
}
#before continue 'outer
proof {
    let q = *parser;
    let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, q0, q, t) && told(t) && t is Recovered && elems@ == items_of(lt).push(t->Recovered_0)
        && (errors@ =~= eq + errs(t) || exists|e: syntax::Error<<T::Prod as Production>::L>| errors@ =~= #[trigger] eq.push(e) + errs(t));
    let x = Ran { a: q0, b: q, r: t };
    assert(elems@.last() == t->Recovered_0);
    let k0 = errors@.len() - errs(t).len();
    assert forall|k: int| 0 <= k < errs(t).len() implies errors@.contains(#[trigger] errs(t)[k]) by { assert(errors@[k0 + k] == errs(t)[k]); }
    assert(extends(eq, errors@));
    soft_on::<T, <T::Prod as Production>::L>(*meta, lt, eq, had, x, errors@, false);
    soft_more::<P, <T::Prod as Production>::L>(*meta, lp, eq, had, errors@, false);
    row_push(a0, q0, q, es0, t->Recovered_0);
    row_later(a0, q0, q, puncts@);
    lt = lt.push(x);
}
#before let token = parser.peek_token_src()
proof {}
#before let token = parser.peek_token_src()
proof {}
#before let token = parser.peek_token_src()
let ghost er = errors@;
let ghost qr = *parser;
proof {
    row_later(a0, qi, qr, elems@); row_later(a0, qi, qr, puncts@);
    if hits(*meta, T::Prod::tid(), qi) {
        let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, q1, qr, t) && told(t) && t is Panic;
        let x = Ran { a: q1, b: qr, r: t };
        soft_on::<T, <T::Prod as Production>::L>(*meta, lt, ei, hadi, x, er, true);
        lt = lt.push(x);
    } else { soft_more::<T, <T::Prod as Production>::L>(*meta, lt, ei, hadi, er, true); }
    soft_more::<P, <T::Prod as Production>::L>(*meta, lp, ei, hadi, er, true);
    assert(panic is Some);
}
#before continue 'outer
proof {
    row_later(a0, qr, *parser, elems@); row_later(a0, qr, *parser, puncts@);
    soft_more::<T, <T::Prod as Production>::L>(*meta, lt, er, true, errors@, false); soft_more::<P, <T::Prod as Production>::L>(*meta, lp, er, true, errors@, false);
}
#before break 'outer
proof {
    row_later(a0, qr, *parser, elems@); row_later(a0, qr, *parser, puncts@);
    soft_more::<T, <T::Prod as Production>::L>(*meta, lt, er, true, errors@, false); soft_more::<P, <T::Prod as Production>::L>(*meta, lp, er, true, errors@, false);
}
#before parser.consume_token()
let ghost qc = *parser;
#after parser.consume_token()
proof { row_later(a0, qr, qc, elems@); row_later(a0, qr, qc, puncts@); row_later(a0, qc, *parser, elems@); row_later(a0, qc, *parser, puncts@); }
#closure 0 () -> (o: usize)
ensures o == lo
#closure 1 (t: &T) -> (o: usize)
ensures o == t.shi()
#closure 2 () -> (o: usize)
ensures o == lo
#closure 3 (t: &P) -> (o: usize)
ensures o == t.shi()
#before let hi_1 = elems.last()
let ghost elems0 = elems@;
let ghost puncts0 = puncts@;
#post
proof {
    row_later(a0, *parser, *parser, elems0);
    row_later(a0, *parser, *parser, puncts0);
    assert(errs(vt_ret) =~= errors@);
    assert(got(vt_ret) is Some);
    let es = errs(vt_ret);
    assert(es == errors@);
    assert(soft::<T, <T::Prod as Production>::L>(*meta, lt, es, false));
    assert(soft::<P, <T::Prod as Production>::L>(*meta, lp, es, false));
    assert((got(vt_ret)->0).elems@ == items_of(lt));
    assert((got(vt_ret)->0).puncts@ == items_of(lp));
    if vt_ret is Success { assert(es.len() == 0); }
}
#mod parser::tree
/// everything between b and c was skipped token by token, and none of it could begin t
pub open spec fn skips<'s, L: Lexicon>(m: Metadata<L>, t: TypeId, b: Parser<'s, L>, c: Parser<'s, L>, sk: Seq<Parser<'s, L>>) -> bool {
    c.taken().len() == b.taken().len() + sk.len()
        && forall|i: int| 0 <= i < sk.len() ==> step(b, #[trigger] sk[i]) && sk[i].taken().len() == b.taken().len() + i && !hits(m, t, sk[i])
}
pub open spec fn all_lost<'s, T: Produce, L: Lexicon>(log: Seq<Ran<'s, T, L>>, n: int) -> bool where T::Prod: Production<L = L> {
    forall|i: int| 0 <= i < n && i < log.len() ==> got((#[trigger] log[i]).r) is None
}
/// the head as it was parsed, or nothing
pub open spec fn head_of<'s, T: Produce, L: Lexicon>(log: Seq<Ran<'s, T, L>>) -> Option<T> where T::Prod: Production<L = L> {
    if log.len() == 1 { got(log[0].r) } else { None }
}
pub open spec fn after_of<'s, T: Produce, L: Lexicon>(log: Seq<Ran<'s, T, L>>, a: Parser<'s, L>) -> Parser<'s, L> where T::Prod: Production<L = L> {
    if log.len() == 1 { log[0].b } else { a }
}
#mod tp_impl::recover
use crate::parser::parser_impl::*;
use crate::parser::tree::*;
use crate::syntax::first::nul;
use crate::syntax::term_set::*;
broadcast use peeks;
#impl tp_impl::recover::Recover as Produce
open spec fn did<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) -> bool {
    exists|lh: Seq<Ran<'s, T, <Self::Prod as Production>::L>>, lr: Seq<Ran<'s, R, <Self::Prod as Production>::L>>|
        #[trigger] soft::<T, <Self::Prod as Production>::L>(m, lh, errs(r), false) && #[trigger] soft::<R, <Self::Prod as Production>::L>(m, lr, errs(r), false)
        && lh.len() <= 1 && (if lh.len() == 1 { look(a, lh[0].a) } else { !hits(m, T::Prod::tid(), a) })
        && all_lost(lr, lr.len() - 1)
        && match got(r) {
            Some(x) => x.head.value == head_of(lh) && lr.len() > 0 && got(lr.last().r) == Some(x.tail) && lr.last().b == b
                && (lr.len() == 1 ==> exists|sk: Seq<Parser<'s, <Self::Prod as Production>::L>>| #[trigger] skips(m, R::Prod::tid(), after_of(lh, a), lr[0].a, sk)),
            None => all_lost(lr, lr.len() as int),
        }
        && (r is Success ==> lh.len() == 1 && lr.len() == 1 && lh[0].r is Success && lr[0].r is Success && look(lh[0].b, lr[0].a))
}
open spec fn says(w: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>) -> bool { exists|w1: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>, w2: Seq<crate::syntax::term_set::Sym<<Self::Prod as Production>::L>>| #[trigger] T::says(w1) && #[trigger] R::says(w2) && w == w1 + w2 }
proof fn did_says<'s>(m: Metadata<<Self::Prod as Production>::L>, a: Parser<'s, <Self::Prod as Production>::L>, b: Parser<'s, <Self::Prod as Production>::L>, r: SynResult<Self, <Self::Prod as Production>::L>) {
    broadcast use moves;
    let (lh, lr) = choose|lh: Seq<Ran<'s, T, <Self::Prod as Production>::L>>, lr: Seq<Ran<'s, R, <Self::Prod as Production>::L>>|
        #[trigger] soft::<T, <Self::Prod as Production>::L>(m, lh, errs(r), false) && #[trigger] soft::<R, <Self::Prod as Production>::L>(m, lr, errs(r), false)
        && lh.len() == 1 && look(a, lh[0].a) && lr.len() == 1 && lh[0].r is Success && lr[0].r is Success && look(lh[0].b, lr[0].a) && lr.last().b == b;
    let (x, y) = (lh[0], lr[0]);
    T::did_says(m, x.a, x.b, x.r);
    R::did_says(m, y.a, y.b, y.r);
    word_look(a, x.a); word_cat(a, x.a, x.b); word_look(x.b, y.a); word_cat(a, x.b, y.a); word_cat(a, y.a, b);
    assert(word(a, b) =~= word(x.a, x.b) + word(y.a, b));
}
#fn tp_impl::recover::Recover as Produce::produce
#attr #[verifier::exec_allows_no_decreases_clause]
#spec
ensures match got(r) { Some(x) => placed(*old(parser), *final(parser), x.head.span.lo, x.head.span.hi) && x.head.span.hi <= x.tail.slo()
        && match x.head.value { Some(h) => x.head.span.lo == h.slo() && x.head.span.hi == h.shi(), None => true }, None => true },
#pre
hide(step); hide(Parser::wf); hide(Parser::end); hide(Parser::ahead); hide(Parser::here); hide(Parser::taken); hide(Parser::sym); hide(soft);
let ghost a0 = *parser;
let ghost f = meta.first.at();
let ghost mut lh: Seq<Ran<'_, T, <T::Prod as Production>::L>> = Seq::empty();
let ghost mut lr: Seq<Ran<'_, R, <T::Prod as Production>::L>> = Seq::empty();
let ghost mut sk: Seq<Parser<'_, <T::Prod as Production>::L>> = Seq::empty();
proof {
    mark(a0); step_refl(a0);
    let v = seq![T::Prod::tid(), R::Prod::tid()];
    of_parts::<Self::Prod>(*meta, v);
    assert(fits(*meta, v[0])); assert(fits(*meta, v[1]));
    reveal_with_fuel(begins_at, 3); reveal_with_fuel(nul_at, 3);
    soft_none::<T, <T::Prod as Production>::L>(*meta, Seq::empty(), false); soft_none::<R, <T::Prod as Production>::L>(*meta, Seq::empty(), false);
}
#before let (mut panic, head_span, head)
let ghost a1 = *parser;
#after let (mut panic, head_span, head)
let ghost c = *parser;
proof {
    mark(c); step_refl(c);
    if hits(*meta, T::Prod::tid(), a0) || nul(f, T::Prod::tid()) {
        let t = choose|t: SynResult<T, <T::Prod as Production>::L>| #[trigger] T::did(*meta, a1, c, t) && told(t) && got(t) == head && (t is Panic <==> panic is Some) && (if t is Panic { errors@.len() == 0 } else { errs(t) =~= errors@ });
        let x = Ran { a: a1, b: c, r: t };
        if got(t) is Some { assert forall|k: int| 0 <= k < errs(t).len() implies errors@.contains(#[trigger] errs(t)[k]) by { assert(errors@[k] == errs(t)[k]); } }
        soft_on::<T, <T::Prod as Production>::L>(*meta, lh, Seq::empty(), false, x, errors@, panic is Some);
        lh = lh.push(x);
    } else {
        soft_more::<T, <T::Prod as Production>::L>(*meta, lh, Seq::empty(), false, errors@, panic is Some);
    }
    soft_none::<R, <T::Prod as Production>::L>(*meta, errors@, panic is Some);
}
let ghost mut fuel: nat = parser.ahead().len() + 1;
#loop 0
    invariant_except_break
        parser.ahead().len() < fuel,
        all_lost(lr, lr.len() as int),
        nul(f, Self::Prod::tid()) && !hits(*meta, Self::Prod::tid(), a0) ==> look(a0, *parser) && errors@.len() == 0 && panic is None,
        hits(*meta, Self::Prod::tid(), a0) ==> a0.taken().len() < parser.taken().len() || look(a0, *parser) && hits(*meta, R::Prod::tid(), a0),
        errors@.len() == 0 && panic is None ==> lh.len() == 1 && lh[0].r is Success && look(c, *parser) && lr.len() == 0,
        lr.len() == 0 ==> skips(*meta, R::Prod::tid(), c, *parser, sk),
    invariant
        base(a0), base(c), a0.wf(), c.wf(), parser.wf(), step(a0, *parser), step(a0, c), step(c, *parser), fits(*meta, T::Prod::tid()), fits(*meta, R::Prod::tid()), f == meta.first.at(),
        tail_first@ == f(R::Prod::tid()), nul(f, Self::Prod::tid()) <==> nul(f, T::Prod::tid()) && nul(f, R::Prod::tid()),
        forall|s: Sym<<T::Prod as Production>::L>| s is Some ==> (#[trigger] f(Self::Prod::tid()).contains(s) <==> f(T::Prod::tid()).contains(s) || nul(f, T::Prod::tid()) && f(R::Prod::tid()).contains(s)),
        head == head_of(lh), lh.len() <= 1, if lh.len() == 1 { look(a0, lh[0].a) && lh[0].b == c } else { look(a0, c) && !hits(*meta, T::Prod::tid(), a0) },
        soft::<T, <T::Prod as Production>::L>(*meta, lh, errors@, panic is Some), soft::<R, <T::Prod as Production>::L>(*meta, lr, errors@, panic is Some),
        placed(a0, c, head_span.lo, head_span.hi), match head { Some(h) => head_span.lo == h.slo() && head_span.hi == h.shi(), None => true },
    ensures
        nul(f, Self::Prod::tid()) && !hits(*meta, Self::Prod::tid(), a0) ==> look(a0, *parser) && errors@.len() == 0 && panic is None && vt_b0 is Some,
        hits(*meta, Self::Prod::tid(), a0) ==> a0.taken().len() < parser.taken().len(),
        errors@.len() == 0 && panic is None ==> vt_b0 is Some && lh.len() == 1 && lr.len() == 1 && lh[0].r is Success && lr[0].r is Success && look(c, lr[0].a),
        all_lost(lr, lr.len() - 1),
        match vt_b0 {
            Some(x) => lr.len() > 0 && got(lr.last().r) == Some(x) && lr.last().b == *parser && c.end() <= x.slo() <= x.shi() <= parser.end() && on_char(a0.info.source, x.shi() as int)
                && (lr.len() == 1 ==> skips(*meta, R::Prod::tid(), c, lr[0].a, sk)),
            None => all_lost(lr, lr.len() as int) && panic is Some,
        },
#loopstart 0
let ghost p0 = *parser;
let ghost e0 = errors@;
let ghost had = panic is Some;
let ghost lr0 = lr;
proof { fuel = p0.ahead().len(); mark(p0); }
#before vt_b0 = match R::produce
let ghost p1 = *parser;
let ghost had1 = panic is Some;
#before break
proof {
    let q = *parser;
    let t = choose|t: SynResult<R, <T::Prod as Production>::L>| #[trigger] R::did(*meta, p1, q, t) && told(t) && got(t) == vt_b0 && (t is Panic ==> panic is Some) && (got(t) is Some ==> (panic is Some <==> had)) && (if t is Panic { errors@ =~= e0 } else { errors@ =~= e0 + errs(t) });
    let x = Ran { a: p1, b: q, r: t };
    if got(t) is Some { assert forall|k: int| 0 <= k < errs(t).len() implies errors@.contains(#[trigger] errs(t)[k]) by { assert(errors@[e0.len() + k] == errs(t)[k]); } }
    soft_more::<T, <T::Prod as Production>::L>(*meta, lh, e0, had, errors@, panic is Some);
    soft_on::<R, <T::Prod as Production>::L>(*meta, lr, e0, had, x, errors@, panic is Some);
    lr = lr.push(x);
}
#before break
proof {
    soft_more::<T, <T::Prod as Production>::L>(*meta, lh, e0, had, errors@, panic is Some);
    soft_more::<R, <T::Prod as Production>::L>(*meta, lr, e0, had, errors@, panic is Some);
}
#before match R::produce
let ghost p1 = *parser;
#before break
proof {
    let q = *parser;
    let t = choose|t: SynResult<R, <T::Prod as Production>::L>| #[trigger] R::did(*meta, p1, q, t) && told(t) && t is Success && got(t) == vt_b0;
    let x = Ran { a: p1, b: q, r: t };
    soft_on::<R, <T::Prod as Production>::L>(*meta, lr, e0, had, x, errors@, panic is Some);
    lr = lr.push(x);
}
#before break
proof {
    let q = *parser;
    let t = choose|t: SynResult<R, <T::Prod as Production>::L>| #[trigger] R::did(*meta, p1, q, t) && told(t) && t is Recovered && got(t) == vt_b0 && errors@ =~= e0 + errs(t);
    let x = Ran { a: p1, b: q, r: t };
    assert forall|k: int| 0 <= k < errs(t).len() implies errors@.contains(#[trigger] errs(t)[k]) by { assert(errors@[e0.len() + k] == errs(t)[k]); }
    soft_more::<T, <T::Prod as Production>::L>(*meta, lh, e0, had, errors@, panic is Some);
    soft_on::<R, <T::Prod as Production>::L>(*meta, lr, e0, had, x, errors@, panic is Some);
    lr = lr.push(x);
}
#before if let Some(p) = &mut panic
proof {}
#before if let Some(p) = &mut panic
proof {
    let q = *parser;
    let t = choose|t: SynResult<R, <T::Prod as Production>::L>| #[trigger] R::did(*meta, p1, q, t) && told(t) && t is Panic;
    let x = Ran { a: p1, b: q, r: t };
    soft_more::<T, <T::Prod as Production>::L>(*meta, lh, e0, had, errors@, true);
    soft_on::<R, <T::Prod as Production>::L>(*meta, lr, e0, had, x, errors@, true);
    lr = lr.push(x);
    assert(lr.len() == lr0.len() + 1);
}
#before if let Some(p) = &mut panic
let ghost q2 = *parser;
#before parser.consume_token()
proof {
    if lr.len() == 0 { sk = sk.push(q2); }
    if !had && lr == lr0 {
        soft_more::<T, <T::Prod as Production>::L>(*meta, lh, e0, had, errors@, true);
        soft_more::<R, <T::Prod as Production>::L>(*meta, lr, e0, had, errors@, true);
    }
}
#before if let Some(panic) = panic
let ghost e9 = errors@;
let ghost had9 = panic is Some;
proof { assert(extends(e9, e9)); }
#post
proof {
    assert(errs(vt_ret) =~= errors@);
    soft_more::<T, <T::Prod as Production>::L>(*meta, lh, e9, had9, errors@, false);
    soft_more::<R, <T::Prod as Production>::L>(*meta, lr, e9, had9, errors@, false);
    assert(soft::<T, <T::Prod as Production>::L>(*meta, lh, errs(vt_ret), false));
    assert(soft::<R, <T::Prod as Production>::L>(*meta, lr, errs(vt_ret), false));
    if got(vt_ret) is Some {
        let x = got(vt_ret)->0;
        assert(x.shi() == x.tail.shi() && x.slo() == head_span.lo);
        if lr.len() == 1 { assert(skips(*meta, R::Prod::tid(), after_of(lh, a0), lr[0].a, sk)); }
    }
    assert(head == head_of(lh));
    assert(vt_ret is Success ==> lh.len() == 1 && lr.len() == 1 && lh[0].r is Success && lr[0].r is Success && look(c, lr[0].a));
    assert(match got(vt_ret) { Some(x) => x.head.value == head_of(lh), None => true });
    assert(match got(vt_ret) { Some(x) => got(lr.last().r) == Some(x.tail), None => true });
}
#after let result = Self
proof { crate::lex::span::into_self(head_span, result.head.span); assert(result.head.span == head_span); }
#fn parser::tree::Root::metadata
ensures match *r { Ok(m) => fits(m, <Self::Prod as Production>::tid()), Err(_) => true },
#mod parser::tree
/// the same parser with more errors on its list
pub open spec fn adds<'s, L: Lexicon>(p: Parser<'s, L>, q: Parser<'s, L>, es: Seq<crate::syntax::Error<L>>) -> bool {
    q.info.errors@ == p.info.errors@ + es && q == (Parser { info: crate::parser::info::Info { errors: q.info.errors, ..p.info }, ..p })
}
/// a root was parsed: all that the node reports is on the list in the end, and no tree means an error
pub open spec fn parsed<'s, T: Produce, L: Lexicon>(m: Metadata<L>, a: Parser<'s, L>, b: Parser<'s, L>, r: Option<T>) -> bool where T::Prod: Production<L = L> {
    &&& b.wf() && a.info.errors@.is_prefix_of(b.info.errors@)
    &&& exists|p: Parser<'s, L>, t: SynResult<T, L>| step(a, p) && #[trigger] T::did(m, a, p, t) && told(t) && in_place(a, p, t) && r == got(t) && #[trigger] adds(p, b, errs(t))
    &&& r is None ==> a.info.errors@.len() < b.info.errors@.len()
}
#mod parser::parser_impl
#fn parser::parser_impl::Parser::parse
requires old(self).wf(),
ensures match r { Ok(o) => exists|m: Metadata<L>| #[trigger] crate::parser::tree::parsed::<T, L>(m, *old(self), *final(self), o), Err(_) => *final(self) == *old(self) },
#fn parser::parser_impl::Parser::parse_with_meta
requires old(self).wf(), crate::parser::tree::fits(*meta, T::Prod::tid()),
ensures crate::parser::tree::parsed::<T, L>(*meta, *old(self), *final(self), r),
#pre
broadcast use crate::parser::tree::step_moves;
let ghost a0 = *self;
let ghost mut p = *self;
let ghost mut failed = false;
#before self.info.errors
proof { p = *self; failed = true; }
#before self.info.errors
proof { p = *self; failed = true; }
#post
proof {
    if !failed { p = *self; }
    let t = choose|t: SynResult<T, L>| #[trigger] T::did(*meta, a0, p, t) && step(a0, p) && crate::parser::tree::told(t) && crate::parser::tree::in_place(a0, p, t) && vt_ret == crate::parser::tree::got(t) && self.info.errors@ =~= p.info.errors@ + crate::parser::tree::errs(t);
    assert(crate::parser::tree::adds(p, *self, crate::parser::tree::errs(t)));
}
