#![allow(unused)]
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ item src/semantic_context.rs enum SemanticContext
// std::borrow::Cow of a condition
pub enum Cow<'a, B> { Borrowed(&'a B), Owned(B) }
use Cow::{Borrowed, Owned};

// ------------------------------------------------------------ truth
// what the user's predicates and the precedence in force say
pub ghost struct Env { pub pred: spec_fn(int, int, bool) -> bool, pub level: int }
impl Env {
    // the empty predicate is true (a generated sempred answers true for rule -1)
    pub open spec fn ok(self, level: int) -> bool { self.level == level && (self.pred)(-1, -1, false) }
}
pub open spec fn truth(c: SemanticContext, e: Env) -> bool decreases c {
    match c {
        SemanticContext::Predicate { rule_index, pred_index, is_ctx_dependent } => (e.pred)(rule_index as int, pred_index as int, is_ctx_dependent),
        SemanticContext::Precedence(p) => p as int >= e.level,
        SemanticContext::AND(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> truth(v@[i], e),
        SemanticContext::OR(v) => exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && truth(v@[i], e),
    }
}
pub open spec fn all_t(s: Seq<SemanticContext>, e: Env) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> truth(s[i], e) }
pub open spec fn any_t(s: Seq<SemanticContext>, e: Env) -> bool { exists|i: int| #![trigger s[i]] 0 <= i < s.len() && truth(s[i], e) }
// contains no precedence predicate
pub open spec fn noprec(c: SemanticContext) -> bool decreases c {
    match c {
        SemanticContext::Predicate { .. } => true,
        SemanticContext::Precedence(p) => false,
        SemanticContext::AND(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> noprec(v@[i]),
        SemanticContext::OR(v) => forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> noprec(v@[i]),
    }
}
pub open spec fn noprec_all(s: Seq<SemanticContext>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> noprec(s[i]) }
pub open spec fn is_none(c: SemanticContext) -> bool {
    match c { SemanticContext::Predicate { rule_index, pred_index, is_ctx_dependent } => rule_index == -1 && pred_index == -1 && !is_ctx_dependent, _ => false }
}
// structural equality (what the derived PartialEq decides)
pub open spec fn ceq(a: SemanticContext, b: SemanticContext) -> bool decreases a {
    match (a, b) {
        (SemanticContext::Predicate { rule_index: r1, pred_index: p1, is_ctx_dependent: c1 }, SemanticContext::Predicate { rule_index: r2, pred_index: p2, is_ctx_dependent: c2 }) => r1 == r2 && p1 == p2 && c1 == c2,
        (SemanticContext::Precedence(x), SemanticContext::Precedence(y)) => x == y,
        (SemanticContext::AND(v), SemanticContext::AND(w)) => v@.len() == w@.len() && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> ceq(v@[i], w@[i]),
        (SemanticContext::OR(v), SemanticContext::OR(w)) => v@.len() == w@.len() && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> ceq(v@[i], w@[i]),
        _ => false,
    }
}
pub proof fn ceq_truth(a: SemanticContext, b: SemanticContext, e: Env)
    requires ceq(a, b)
    ensures truth(a, e) == truth(b, e), noprec(a) == noprec(b), is_none(a) == is_none(b), (a is Precedence) == (b is Precedence)
    decreases a, 1int
{
    match (a, b) {
        (SemanticContext::AND(v), SemanticContext::AND(w)) => { ceq_truth_all(a, v@, w@, e); assert(truth(a, e) == all_t(v@, e)); assert(truth(b, e) == all_t(w@, e)); assert(noprec(a) == noprec_all(v@)); assert(noprec(b) == noprec_all(w@)); }
        (SemanticContext::OR(v), SemanticContext::OR(w)) => { ceq_truth_all(a, v@, w@, e); assert(truth(a, e) == any_t(v@, e)); assert(truth(b, e) == any_t(w@, e)); assert(noprec(a) == noprec_all(v@)); assert(noprec(b) == noprec_all(w@)); }
        _ => {}
    }
}
pub proof fn ceq_truth_all(a: SemanticContext, v: Seq<SemanticContext>, w: Seq<SemanticContext>, e: Env)
    requires v.len() == w.len(), forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> ceq(v[i], w[i]) && decreases_to!(a => v[i])
    ensures all_t(v, e) == all_t(w, e), any_t(v, e) == any_t(w, e), noprec_all(v) == noprec_all(w)
    decreases a, 0int
{
    assert forall|i: int| #![trigger v[i]] #![trigger w[i]] 0 <= i < v.len() implies truth(v[i], e) == truth(w[i], e) && noprec(v[i]) == noprec(w[i]) by { ceq_truth(v[i], w[i], e); }
    if any_t(v, e) { let i = choose|i: int| #![trigger v[i]] 0 <= i < v.len() && truth(v[i], e); assert(truth(w[i], e)); }
    if any_t(w, e) { let i = choose|i: int| #![trigger w[i]] 0 <= i < w.len() && truth(w[i], e); assert(truth(v[i], e)); }
}
pub proof fn ceq_refl(a: SemanticContext) ensures ceq(a, a) decreases a {
    match a {
        SemanticContext::AND(v) => { assert forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() implies ceq(v@[i], v@[i]) by { ceq_refl(v@[i]); } }
        SemanticContext::OR(v) => { assert forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() implies ceq(v@[i], v@[i]) by { ceq_refl(v@[i]); } }
        _ => {}
    }
}
// derived by the compiler
impl Clone for SemanticContext {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures ceq(*self, r) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SemanticContext {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { ceq(*self, *o) }
}
impl PartialEq for SemanticContext {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
// same truth under every outcome at that precedence level
pub open spec fn same(a: SemanticContext, b: SemanticContext) -> bool { forall|e: Env| truth(a, e) == truth(b, e) }
pub open spec fn same_at(a: SemanticContext, b: SemanticContext, level: int) -> bool { forall|e: Env| #[trigger] e.ok(level) ==> truth(a, e) == truth(b, e) }
pub proof fn clone_same(a: SemanticContext, b: SemanticContext)
    requires ceq(a, b)
    ensures same(a, b), noprec(a) == noprec(b), is_none(a) == is_none(b)
{
    let e0 = Env { pred: |x: int, y: int, z: bool| true, level: 0 };
    ceq_truth(a, b, e0);
    assert forall|e: Env| truth(a, e) == truth(b, e) by { ceq_truth(a, b, e); }
}

// ------------------------------------------------------------ a hash set of conditions
// everything equal to some member
pub open spec fn cls(s: Seq<SemanticContext>) -> ISet<SemanticContext> { ISet::new(|y: SemanticContext| exists|i: int| 0 <= i < s.len() && #[trigger] ceq(s[i], y)) }
pub open spec fn one(x: SemanticContext) -> ISet<SemanticContext> { ISet::new(|y: SemanticContext| ceq(x, y)) }
#[verifier::external_body]
pub struct OpSet { v: Vec<SemanticContext> }
impl OpSet {
    pub uninterp spec fn elems(&self) -> ISet<SemanticContext>;
    #[verifier::external_body]
    pub fn new() -> (r: OpSet) ensures r.elems() =~= ISet::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: SemanticContext) -> (r: bool) ensures final(self).elems() =~= old(self).elems().union(one(x)) { unimplemented!() }
    pub fn insert_clone(&mut self, x: &SemanticContext) -> (r: bool) ensures final(self).elems() =~= old(self).elems().union(one(*x)) {
        let y = x.clone();
        proof { one_eq(*x, y); }
        self.insert(y)
    }
    #[verifier::external_body]
    pub fn extend_ops(&mut self, s: &Vec<SemanticContext>) ensures final(self).elems() =~= old(self).elems().union(cls(s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == 1 ==> exists|x: SemanticContext| self.elems() =~= #[trigger] one(x) { unimplemented!() }
    // into_iter().next().unwrap() of a set with one member
    #[verifier::external_body]
    pub fn first(self) -> (r: SemanticContext) requires exists|x: SemanticContext| self.elems() =~= #[trigger] one(x) ensures self.elems() =~= one(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<SemanticContext>) ensures cls(r@) =~= self.elems() { unimplemented!() }
    // the members, leaving the set empty (first half of `retain`)
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: Vec<SemanticContext>) ensures cls(r@) =~= old(self).elems(), final(self).elems() =~= ISet::empty() { unimplemented!() }
}
pub open spec fn all_in(s: ISet<SemanticContext>, e: Env) -> bool { forall|y: SemanticContext| s.contains(y) ==> #[trigger] truth(y, e) }
pub open spec fn any_in(s: ISet<SemanticContext>, e: Env) -> bool { exists|y: SemanticContext| s.contains(y) && #[trigger] truth(y, e) }
pub open spec fn noprec_in(s: ISet<SemanticContext>) -> bool { forall|y: SemanticContext| s.contains(y) ==> #[trigger] noprec(y) }
pub open spec fn no_precs(s: ISet<SemanticContext>) -> bool { forall|y: SemanticContext| #[trigger] s.contains(y) ==> !(y is Precedence) }
pub proof fn cls_truth(s: Seq<SemanticContext>, e: Env)
    ensures all_in(cls(s), e) == all_t(s, e), any_in(cls(s), e) == any_t(s, e), noprec_in(cls(s)) == noprec_all(s)
{
    assert forall|i: int| 0 <= i < s.len() implies cls(s).contains(#[trigger] s[i]) by { ceq_refl(s[i]); }
    if all_in(cls(s), e) { assert forall|i: int| 0 <= i < s.len() implies truth(#[trigger] s[i], e) by { assert(cls(s).contains(s[i])); } }
    if all_t(s, e) { assert forall|y: SemanticContext| cls(s).contains(y) implies #[trigger] truth(y, e) by { cls_mem(s, y, e); } }
    if any_in(cls(s), e) { let y = choose|y: SemanticContext| cls(s).contains(y) && #[trigger] truth(y, e); cls_mem(s, y, e); }
    if any_t(s, e) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && truth(s[i], e); assert(cls(s).contains(s[i])); }
    if noprec_in(cls(s)) { assert forall|i: int| 0 <= i < s.len() implies noprec(#[trigger] s[i]) by { assert(cls(s).contains(s[i])); } }
    if noprec_all(s) { assert forall|y: SemanticContext| cls(s).contains(y) implies #[trigger] noprec(y) by { cls_mem(s, y, e); } }
}
pub proof fn cls_mem(s: Seq<SemanticContext>, y: SemanticContext, e: Env)
    requires cls(s).contains(y)
    ensures exists|i: int| 0 <= i < s.len() && truth(s[i], e) == truth(y, e) && #[trigger] ceq(s[i], y) && noprec(s[i]) == noprec(y) && (s[i] is Precedence) == (y is Precedence)
{
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] ceq(s[i], y); ceq_truth(s[i], y, e);
}
pub proof fn one_truth(x: SemanticContext, e: Env)
    ensures all_in(one(x), e) == truth(x, e), any_in(one(x), e) == truth(x, e), noprec_in(one(x)) == noprec(x)
{
    ceq_refl(x);
    assert(one(x).contains(x));
    assert forall|y: SemanticContext| #[trigger] one(x).contains(y) implies truth(x, e) == truth(y, e) && noprec(x) == noprec(y) by { ceq_truth(x, y, e); }
    if truth(x, e) { assert(any_in(one(x), e)); }
}
pub proof fn union_truth(a: ISet<SemanticContext>, b: ISet<SemanticContext>, e: Env)
    ensures all_in(a.union(b), e) == (all_in(a, e) && all_in(b, e)), any_in(a.union(b), e) == (any_in(a, e) || any_in(b, e)), noprec_in(a.union(b)) == (noprec_in(a) && noprec_in(b))
{
    assert forall|y: SemanticContext| a.contains(y) || b.contains(y) implies #[trigger] a.union(b).contains(y) by {}
    if all_in(a.union(b), e) { assert(all_in(a, e)); assert(all_in(b, e)); }
    if any_in(a, e) { let y = choose|y: SemanticContext| a.contains(y) && #[trigger] truth(y, e); assert(a.union(b).contains(y)); }
    if any_in(b, e) { let y = choose|y: SemanticContext| b.contains(y) && #[trigger] truth(y, e); assert(a.union(b).contains(y)); }
    if noprec_in(a.union(b)) { assert(noprec_in(a)); assert(noprec_in(b)); }
}
pub proof fn none_truth(c: SemanticContext, e: Env, level: int)
    requires is_none(c), e.ok(level)
    ensures truth(c, e), noprec(c)
{}
// ------------------------------------------------------------ the parser as seen from a predicate
pub trait Parser {
    // truth of every predicate in the outer context, and the precedence in force
    spec fn env(&self) -> Env;
    fn sempred(&mut self, localctx: Option<&Ctx>, rule_index: isize, pred_index: isize) -> (r: bool)
        ensures final(self).env() == old(self).env(), r == (old(self).env().pred)(rule_index as int, pred_index as int, localctx is Some);
    fn precpred(&self, localctx: Option<&Ctx>, precedence: isize) -> (r: bool)
        ensures r == (precedence as int >= self.env().level);
}
pub struct Ctx {}
// the real parser's answer to a precedence predicate
pub struct BaseParser { pub precedence_stack: Vec<isize> }
impl BaseParser {
    pub open spec fn level(&self) -> int { if self.precedence_stack@.len() > 0 { self.precedence_stack@.last() as int } else { -1 } }
//@ fn src/parser.rs Parser<'input> for BaseParser::get_precedence {ret=r nopub}
    ensures r == self.level()
//@ rewrite *__o.unwrap_or(__d) => *(match __o { Some(x) => x, None => __d })
//@ end
//@ fn src/parser.rs Parser<'input> for BaseParser::precpred
//@ sig
fn precpred(&self, _localctx: Option<&Ctx>, precedence: isize) -> (r: bool)
    ensures r == (precedence as int >= self.level())
//@ end
}
// Ord for isize
#[verifier::external_body]
pub fn cmp_isize(a: &isize, b: &isize) -> (r: Ordering)
    ensures r == (if *a < *b { Ordering::Less } else if *a == *b { Ordering::Equal } else { Ordering::Greater })
{ unimplemented!() }
//@ fn src/semantic_context.rs sort_prec_pred {ret=r}
    requires **a is Precedence, **b is Precedence
    ensures r == (if a->Precedence_0 < b->Precedence_0 { Ordering::Less } else if a->Precedence_0 == b->Precedence_0 { Ordering::Equal } else { Ordering::Greater })
//@ rewrite a.cmp(b) => cmp_isize(a, b)
//@ rewrite panic!(__rest) => unreachable_here()
//@ end
#[verifier::external_body]
pub fn unreachable_here<T>() -> T requires false { unimplemented!() }
// Iterator::min_by / max_by
#[verifier::external_body]
pub fn min_by_ctx<'a, F: Fn(&&'a SemanticContext, &&'a SemanticContext) -> Ordering>(v: &'a Vec<SemanticContext>, f: F) -> (r: Option<&'a SemanticContext>)
    requires forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < v@.len() ==> #[trigger] f.requires((&&v@[i], &&v@[j]))
    ensures v@.len() > 0 ==> r is Some && exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == *r->0 && forall|j: int| #![trigger v@[j]] 0 <= j < v@.len() ==> exists|o: Ordering| f.ensures((&&v@[i], &&v@[j]), o) && o != Ordering::Greater
{ unimplemented!() }
#[verifier::external_body]
pub fn max_by_ctx<'a, F: Fn(&&'a SemanticContext, &&'a SemanticContext) -> Ordering>(v: &'a Vec<SemanticContext>, f: F) -> (r: Option<&'a SemanticContext>)
    requires forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < v@.len() ==> #[trigger] f.requires((&&v@[i], &&v@[j]))
    ensures v@.len() > 0 ==> r is Some && exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == *r->0 && forall|j: int| #![trigger v@[j]] 0 <= j < v@.len() ==> exists|o: Ordering| f.ensures((&&v@[i], &&v@[j]), o) && o != Ordering::Less
{ unimplemented!() }
pub proof fn lemma_retain(all: Seq<SemanticContext>, k: int, it: SemanticContext, c0: ISet<SemanticContext>, r0: Seq<SemanticContext>, c1: ISet<SemanticContext>, r1: Seq<SemanticContext>, keep: bool)
    requires 0 <= k < all.len(), it == all[k], c0.union(cls(r0)) =~= cls(all.take(k)),
        keep ==> r1 == r0 && exists|x: SemanticContext| ceq(it, x) && c1 =~= c0.union(#[trigger] one(x)),
        !keep ==> c1 == c0 && r1.len() == r0.len() + 1 && r1.drop_last() =~= r0 && ceq(it, r1.last()),
    ensures c1.union(cls(r1)) =~= cls(all.take(k + 1))
{
    let t0 = all.take(k); let t1 = all.take(k + 1);
    assert(forall|i: int| 0 <= i < k ==> t1[i] == t0[i]);
    assert(t1[k] == it);
    assert(cls(t1) =~= cls(t0).union(one(it))) by {
        assert forall|y: SemanticContext| cls(t1).contains(y) == cls(t0).union(one(it)).contains(y) by {
            if cls(t1).contains(y) { let i = choose|i: int| 0 <= i < t1.len() && #[trigger] ceq(t1[i], y); if i < k { assert(ceq(t0[i], y)); } }
            if cls(t0).contains(y) { let i = choose|i: int| 0 <= i < t0.len() && #[trigger] ceq(t0[i], y); assert(ceq(t1[i], y)); }
            if ceq(it, y) { assert(ceq(t1[k], y)); }
        }
    }
    if keep {
        let x = choose|x: SemanticContext| ceq(it, x) && c1 =~= c0.union(#[trigger] one(x));
        one_eq(it, x);
    } else {
        one_eq(it, r1.last());
        assert(cls(r1) =~= cls(r0).union(one(it))) by {
            assert forall|y: SemanticContext| cls(r1).contains(y) == cls(r0).union(one(it)).contains(y) by {
                let n = r0.len() as int;
                assert(one(it).contains(y) == one(r1.last()).contains(y));
                if cls(r1).contains(y) { let i = choose|i: int| 0 <= i < r1.len() && #[trigger] ceq(r1[i], y); if i < n { assert(r1.drop_last()[i] == r1[i]); assert(ceq(r0[i], y)); } else { assert(one(it).contains(y)); } }
                if cls(r0).contains(y) { let i = choose|i: int| 0 <= i < r0.len() && #[trigger] ceq(r0[i], y); assert(r1.drop_last()[i] == r1[i]); assert(ceq(r1[i], y)); }
                if ceq(r1.last(), y) { assert(ceq(r1[n], y)); }
            }
        }
    }
}
pub proof fn ceq_sym(a: SemanticContext, b: SemanticContext) requires ceq(a, b) ensures ceq(b, a) decreases a {
    match (a, b) {
        (SemanticContext::AND(v), SemanticContext::AND(w)) => { assert forall|i: int| #![trigger w@[i]] 0 <= i < w@.len() implies ceq(w@[i], v@[i]) by { let z = v@[i]; ceq_sym(v@[i], w@[i]); } }
        (SemanticContext::OR(v), SemanticContext::OR(w)) => { assert forall|i: int| #![trigger w@[i]] 0 <= i < w@.len() implies ceq(w@[i], v@[i]) by { let z = v@[i]; ceq_sym(v@[i], w@[i]); } }
        _ => {}
    }
}
pub proof fn ceq_trans(a: SemanticContext, b: SemanticContext, c: SemanticContext) requires ceq(a, b), ceq(b, c) ensures ceq(a, c) decreases a {
    match (a, b, c) {
        (SemanticContext::AND(v), SemanticContext::AND(w), SemanticContext::AND(x)) => { assert forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() implies ceq(v@[i], x@[i]) by { let z = w@[i]; ceq_trans(v@[i], w@[i], x@[i]); } }
        (SemanticContext::OR(v), SemanticContext::OR(w), SemanticContext::OR(x)) => { assert forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() implies ceq(v@[i], x@[i]) by { let z = w@[i]; ceq_trans(v@[i], w@[i], x@[i]); } }
        _ => {}
    }
}
pub proof fn one_eq(a: SemanticContext, b: SemanticContext) requires ceq(a, b) ensures one(a) =~= one(b) {
    ceq_sym(a, b);
    assert forall|y: SemanticContext| one(a).contains(y) == one(b).contains(y) by {
        if ceq(a, y) { ceq_trans(b, a, y); }
        if ceq(b, y) { ceq_trans(a, b, y); }
    }
}
pub open spec fn all_prec(s: Seq<SemanticContext>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] is Precedence }
//@ fn src/semantic_context.rs filter_precedence_predicate
//@ sig
fn filter_precedence_predicate(collection: &mut OpSet) -> (result: Vec<SemanticContext>)
    ensures all_prec(result@), no_precs(final(collection).elems()), old(collection).elems() =~= final(collection).elems().union(cls(result@))
//@ rewrite collection.retain(|it| { __body }) => { let all = collection.take(); let ghost s0 = old(collection).elems(); let mut gi: usize = 0; \
    while gi < all.len() invariant gi <= all@.len(), s0 =~= cls(all@), all_prec(result@), no_precs(collection.elems()), collection.elems().union(cls(result@)) =~= cls(all@.take(gi as int)) decreases all.len() - gi \
    { let ghost r0 = result@; let ghost c0 = collection.elems(); let it = &all[gi]; let keep = { __body }; \
      if keep { collection.insert(it.clone()); } \
      proof { lemma_retain(all@, gi as int, *it, c0, r0, collection.elems(), result@, keep); } gi = gi + 1; } \
    proof { assert(all@.take(gi as int) =~= all@); } }
//@ end
pub proof fn unf_and(v: Vec<SemanticContext>, e: Env) ensures truth(SemanticContext::AND(v), e) == all_t(v@, e), noprec(SemanticContext::AND(v)) == noprec_all(v@) { unf_and2(SemanticContext::AND(v), e); }
pub proof fn unf_and2(a: SemanticContext, e: Env) requires a is AND ensures truth(a, e) == all_t(a->AND_0@, e), noprec(a) == noprec_all(a->AND_0@) { match a { SemanticContext::AND(v) => { assert(truth(a, e) == all_t(v@, e)); assert(noprec(a) == noprec_all(v@)); } _ => {} } }
pub open spec fn is_and(r: SemanticContext, a: SemanticContext, b: SemanticContext) -> bool { forall|e: Env| truth(r, e) == (truth(a, e) && truth(b, e)) }
pub open spec fn part_and(a: SemanticContext) -> ISet<SemanticContext> { match a { SemanticContext::AND(v) => cls(v@), _ => one(a) } }
pub proof fn part_and_truth(a: SemanticContext, e: Env)
    ensures all_in(part_and(a), e) == truth(a, e), noprec_in(part_and(a)) == noprec(a)
{
    match a { SemanticContext::AND(v) => { cls_truth(v@, e); assert(truth(a, e) == all_t(v@, e)); assert(noprec(a) == noprec_all(v@)); } _ => { one_truth(a, e); } }
}
// dropping all but the deciding precedence predicate changes nothing
pub open spec fn reduced_and(rest: ISet<SemanticContext>, precs: Seq<SemanticContext>, fin: ISet<SemanticContext>) -> bool {
    if precs.len() == 0 { fin =~= rest } else { exists|m: int| #![trigger precs[m]] 0 <= m < precs.len() && fin =~= rest.union(one(precs[m])) && forall|j: int| #![trigger precs[j]] 0 <= j < precs.len() ==> precs[m]->Precedence_0 <= precs[j]->Precedence_0 }
}
pub proof fn lemma_reduced_and(all: ISet<SemanticContext>, rest: ISet<SemanticContext>, precs: Seq<SemanticContext>, fin: ISet<SemanticContext>)
    requires all =~= rest.union(cls(precs)), all_prec(precs), reduced_and(rest, precs, fin)
    ensures forall|e: Env| all_in(fin, e) == all_in(all, e), noprec_in(all) ==> noprec_in(fin)
{
    let e0 = Env { pred: |x: int, y: int, z: bool| true, level: 0 };
    assert forall|e: Env| all_in(fin, e) == all_in(all, e) by {
        union_truth(rest, cls(precs), e); cls_truth(precs, e);
        if precs.len() > 0 {
            let m = choose|m: int| #![trigger precs[m]] 0 <= m < precs.len() && fin =~= rest.union(one(precs[m])) && forall|j: int| #![trigger precs[j]] 0 <= j < precs.len() ==> precs[m]->Precedence_0 <= precs[j]->Precedence_0;
            one_truth(precs[m], e); union_truth(rest, one(precs[m]), e);
            assert(all_t(precs, e) == truth(precs[m], e));
        } else { assert(cls(precs) =~= ISet::empty()); assert(all =~= rest); }
    }
    union_truth(rest, cls(precs), e0); cls_truth(precs, e0);
    if precs.len() > 0 { assert(!noprec(precs[0])); } else { assert(all =~= rest); }
}
pub proof fn unf_or(v: Vec<SemanticContext>, e: Env) ensures truth(SemanticContext::OR(v), e) == any_t(v@, e), noprec(SemanticContext::OR(v)) == noprec_all(v@) { unf_or2(SemanticContext::OR(v), e); }
pub proof fn unf_or2(a: SemanticContext, e: Env) requires a is OR ensures truth(a, e) == any_t(a->OR_0@, e), noprec(a) == noprec_all(a->OR_0@) { match a { SemanticContext::OR(v) => { assert(truth(a, e) == any_t(v@, e)); assert(noprec(a) == noprec_all(v@)); } _ => {} } }
pub open spec fn is_or(r: SemanticContext, a: SemanticContext, b: SemanticContext) -> bool { forall|e: Env| truth(r, e) == (truth(a, e) || truth(b, e)) }
pub open spec fn part_or(a: SemanticContext) -> ISet<SemanticContext> { match a { SemanticContext::OR(v) => cls(v@), _ => one(a) } }
pub proof fn part_or_truth(a: SemanticContext, e: Env)
    ensures any_in(part_or(a), e) == truth(a, e), noprec_in(part_or(a)) == noprec(a)
{
    match a { SemanticContext::OR(v) => { cls_truth(v@, e); assert(truth(a, e) == any_t(v@, e)); assert(noprec(a) == noprec_all(v@)); } _ => { one_truth(a, e); } }
}
// dropping all but the deciding precedence predicate changes nothing
pub open spec fn reduced_or(rest: ISet<SemanticContext>, precs: Seq<SemanticContext>, fin: ISet<SemanticContext>) -> bool {
    if precs.len() == 0 { fin =~= rest } else { exists|m: int| #![trigger precs[m]] 0 <= m < precs.len() && fin =~= rest.union(one(precs[m])) && forall|j: int| #![trigger precs[j]] 0 <= j < precs.len() ==> precs[m]->Precedence_0 >= precs[j]->Precedence_0 }
}
pub proof fn lemma_reduced_or(all: ISet<SemanticContext>, rest: ISet<SemanticContext>, precs: Seq<SemanticContext>, fin: ISet<SemanticContext>)
    requires all =~= rest.union(cls(precs)), all_prec(precs), reduced_or(rest, precs, fin)
    ensures forall|e: Env| any_in(fin, e) == any_in(all, e), noprec_in(all) ==> noprec_in(fin)
{
    let e0 = Env { pred: |x: int, y: int, z: bool| true, level: 0 };
    assert forall|e: Env| any_in(fin, e) == any_in(all, e) by {
        union_truth(rest, cls(precs), e); cls_truth(precs, e);
        if precs.len() > 0 {
            let m = choose|m: int| #![trigger precs[m]] 0 <= m < precs.len() && fin =~= rest.union(one(precs[m])) && forall|j: int| #![trigger precs[j]] 0 <= j < precs.len() ==> precs[m]->Precedence_0 >= precs[j]->Precedence_0;
            one_truth(precs[m], e); union_truth(rest, one(precs[m]), e);
            assert(any_t(precs, e) == truth(precs[m], e));
        } else { assert(cls(precs) =~= ISet::empty()); assert(all =~= rest); }
    }
    union_truth(rest, cls(precs), e0); cls_truth(precs, e0);
    if precs.len() > 0 { assert(!noprec(precs[0])); } else { assert(all =~= rest); }
}
impl SemanticContext {
//@ item src/semantic_context.rs implconst SemanticContext::NONE
//@ fn src/semantic_context.rs SemanticContext::new_and
//@ sig
fn new_and(a: &SemanticContext, b: &SemanticContext) -> (r: SemanticContext)
    ensures is_and(r, *a, *b), noprec(*a) && noprec(*b) ==> noprec(r)
//@ rewrite HashSet::with_hasher(__h) => OpSet::new()
//@ rewrite? operands.extend(ops.iter().cloned()) => operands.extend_ops(ops)
//@ rewrite operands.insert(__x.clone()) => operands.insert_clone(__x)
//@ rewrite precedence_predicates.iter().min_by(sort_prec_pred) => min_by_ctx(&precedence_predicates, |x: &&SemanticContext, y: &&SemanticContext| -> (o: Ordering) requires **x is Precedence, **y is Precedence ensures o == (if (**x)->Precedence_0 < (**y)->Precedence_0 { Ordering::Less } else if (**x)->Precedence_0 == (**y)->Precedence_0 { Ordering::Equal } else { Ordering::Greater }) { sort_prec_pred(x, y) })
//@ rewrite operands.into_iter().next().unwrap() => operands.first()
//@ rewrite operands.into_iter().collect() => operands.into_vec()
//@ at before let precedence_predicates
    let ghost all = operands.elems();
    proof {
        assert(all =~= part_and(*a).union(part_and(*b)));
        assert forall|e: Env| #![trigger all_in(all, e)] all_in(all, e) == (truth(*a, e) && truth(*b, e)) by { part_and_truth(*a, e); part_and_truth(*b, e); union_truth(part_and(*a), part_and(*b), e); }
        let e0 = Env { pred: |x: int, y: int, z: bool| true, level: 0 };
        part_and_truth(*a, e0); part_and_truth(*b, e0); union_truth(part_and(*a), part_and(*b), e0);
    }
//@ at before if operands.len() == 1
    proof { lemma_reduced_and(all, rest, precedence_predicates@, operands.elems()); }
    let ghost fin = operands.elems();
    proof {
        let e0 = Env { pred: |x: int, y: int, z: bool| true, level: 0 };
        assert forall|e: Env| all_in(fin, e) == (truth(*a, e) && truth(*b, e)) by { assert(all_in(all, e) == (truth(*a, e) && truth(*b, e))); }
        assert forall|x: SemanticContext| fin =~= #[trigger] one(x) implies is_and(x, *a, *b) && (noprec(*a) && noprec(*b) ==> noprec(x)) by {
            one_truth(x, e0);
            assert forall|e: Env| truth(x, e) == (truth(*a, e) && truth(*b, e)) by { one_truth(x, e); }
        }
        assert forall|v: Vec<SemanticContext>| #[trigger] cls(v@) =~= fin implies is_and(SemanticContext::AND(v), *a, *b) && (noprec(*a) && noprec(*b) ==> noprec(SemanticContext::AND(v))) by {
            cls_truth(v@, e0);
            unf_and(v, e0);
            assert forall|e: Env| truth(SemanticContext::AND(v), e) == (truth(*a, e) && truth(*b, e)) by { cls_truth(v@, e); unf_and(v, e); }
        }
    }
//@ at after let precedence_predicates
    let ghost rest = operands.elems();
//@ end
//@ fn src/semantic_context.rs SemanticContext::new_or
//@ sig
fn new_or(a: &SemanticContext, b: &SemanticContext) -> (r: SemanticContext)
    ensures is_or(r, *a, *b), noprec(*a) && noprec(*b) ==> noprec(r)
//@ rewrite HashSet::with_hasher(__h) => OpSet::new()
//@ rewrite? operands.extend(ops.iter().cloned()) => operands.extend_ops(ops)
//@ rewrite operands.insert(__x.clone()) => operands.insert_clone(__x)
//@ rewrite ops.iter().for_each(|it| { operands.insert(it.clone()); }) => operands.extend_ops(ops)
//@ rewrite precedence_predicates.iter().max_by(sort_prec_pred) => max_by_ctx(&precedence_predicates, |x: &&SemanticContext, y: &&SemanticContext| -> (o: Ordering) requires **x is Precedence, **y is Precedence ensures o == (if (**x)->Precedence_0 < (**y)->Precedence_0 { Ordering::Less } else if (**x)->Precedence_0 == (**y)->Precedence_0 { Ordering::Equal } else { Ordering::Greater }) { sort_prec_pred(x, y) })
//@ rewrite operands.into_iter().next().unwrap() => operands.first()
//@ rewrite operands.into_iter().collect() => operands.into_vec()
//@ at before let precedence_predicates
    let ghost all = operands.elems();
    proof {
        assert(all =~= part_or(*a).union(part_or(*b)));
        assert forall|e: Env| #![trigger any_in(all, e)] any_in(all, e) == (truth(*a, e) || truth(*b, e)) by { part_or_truth(*a, e); part_or_truth(*b, e); union_truth(part_or(*a), part_or(*b), e); }
        let e0 = Env { pred: |x: int, y: int, z: bool| true, level: 0 };
        part_or_truth(*a, e0); part_or_truth(*b, e0); union_truth(part_or(*a), part_or(*b), e0);
    }
//@ at before if operands.len() == 1
    proof { lemma_reduced_or(all, rest, precedence_predicates@, operands.elems()); }
    let ghost fin = operands.elems();
    proof {
        let e0 = Env { pred: |x: int, y: int, z: bool| true, level: 0 };
        assert forall|e: Env| any_in(fin, e) == (truth(*a, e) || truth(*b, e)) by { assert(any_in(all, e) == (truth(*a, e) || truth(*b, e))); }
        assert forall|x: SemanticContext| fin =~= #[trigger] one(x) implies is_or(x, *a, *b) && (noprec(*a) && noprec(*b) ==> noprec(x)) by {
            one_truth(x, e0);
            assert forall|e: Env| truth(x, e) == (truth(*a, e) || truth(*b, e)) by { one_truth(x, e); }
        }
        assert forall|v: Vec<SemanticContext>| #[trigger] cls(v@) =~= fin implies is_or(SemanticContext::OR(v), *a, *b) && (noprec(*a) && noprec(*b) ==> noprec(SemanticContext::OR(v))) by {
            cls_truth(v@, e0);
            unf_or(v, e0);
            assert forall|e: Env| truth(SemanticContext::OR(v), e) == (truth(*a, e) || truth(*b, e)) by { cls_truth(v@, e); unf_or(v, e); }
        }
    }
//@ at after let precedence_predicates
    let ghost rest = operands.elems();
//@ end
//@ fn src/semantic_context.rs SemanticContext::and
//@ sig
fn and(a: Option<&SemanticContext>, b: Option<&SemanticContext>) -> (r: SemanticContext)
    ensures match (a, b) {
            (None, None) => is_none(r),
            (None, Some(b)) => same(r, *b),
            (Some(a), None) => same(r, *a),
            (Some(a), Some(b)) => forall|e: Env, level: int| #[trigger] e.ok(level) ==> truth(r, e) == (truth(*a, e) && truth(*b, e)),
        },
        (a is Some ==> noprec(*a->0)) && (b is Some ==> noprec(*b->0)) ==> noprec(r)
//@ rewrite (a.borrow(), b.borrow()) => (a, b)
//@ rewrite? __x.borrow().clone() => clone_ctx(__x)
//@ rewrite? __x.clone() => clone_ctx(__x)
//@ end
//@ fn src/semantic_context.rs SemanticContext::or
//@ sig
fn or(a: Option<&SemanticContext>, b: Option<&SemanticContext>) -> (r: SemanticContext)
    ensures match (a, b) {
            (None, None) => is_none(r),
            (None, Some(b)) => same(r, *b),
            (Some(a), None) => same(r, *a),
            (Some(a), Some(b)) => forall|e: Env, level: int| #[trigger] e.ok(level) ==> truth(r, e) == (truth(*a, e) || truth(*b, e)),
        },
        (a is Some ==> noprec(*a->0)) && (b is Some ==> noprec(*b->0)) ==> noprec(r)
//@ rewrite (a.borrow(), b.borrow()) => (a, b)
//@ rewrite? __x.borrow().clone() => clone_ctx(__x)
//@ rewrite? __x.clone() => clone_ctx(__x)
//@ end
//@ fn src/semantic_context.rs SemanticContext::evaluate {attr=verifier::loop_isolation(false)}
//@ sig
fn evaluate<T: Parser>(&self, parser: &mut T, outer_context: &Ctx) -> (r: bool)
    ensures final(parser).env() == old(parser).env(), r == truth(*self, old(parser).env())
    decreases *self
//@ rewrite ops.iter().all(|sem| __e) => { let ghost ev = parser.env(); let mut gi: usize = 0; let mut res = true; \
    while gi < ops.len() invariant gi <= ops@.len(), *self == SemanticContext::AND(*ops), parser.env() == ev, forall|k: int| #![trigger ops@[k]] 0 <= k < gi ==> truth(ops@[k], ev), res decreases ops.len() - gi \
    { let sem = &ops[gi]; assert(decreases_to!(*self => *ops)); assert(decreases_to!(*ops => ops@[gi as int])); let b = __e; if !b { assert(!truth(ops@[gi as int], ev)); return false; } gi += 1; } res }
//@ rewrite ops.iter().any(|sem| __e) => { let ghost ev = parser.env(); let mut gi: usize = 0; let mut res = false; \
    while gi < ops.len() invariant gi <= ops@.len(), *self == SemanticContext::OR(*ops), parser.env() == ev, forall|k: int| #![trigger ops@[k]] 0 <= k < gi ==> !truth(ops@[k], ev), !res decreases ops.len() - gi \
    { let sem = &ops[gi]; assert(decreases_to!(*self => *ops)); assert(decreases_to!(*ops => ops@[gi as int])); let b = __e; if b { assert(truth(ops@[gi as int], ev)); return true; } gi += 1; } res }
//@ end
}
pub open spec fn cval(c: Cow<'_, SemanticContext>) -> SemanticContext { match c { Cow::Borrowed(b) => *b, Cow::Owned(o) => o } }
pub open spec fn cvals(s: Seq<Cow<'_, SemanticContext>>) -> Seq<SemanticContext> { s.map_values(|c: Cow<'_, SemanticContext>| cval(c)) }
// Cow::deref
pub fn cref<'x, 'y>(c: &'x Cow<'y, SemanticContext>) -> (r: &'x SemanticContext) ensures *r == cval(*c) { match c { Cow::Borrowed(b) => b, Cow::Owned(o) => o } }
// evaluated.as_deref() != Some(context)
pub fn differs_from<'y>(ev: &Option<Cow<'y, SemanticContext>>, c: &SemanticContext) -> (r: bool)
    ensures r == !(*ev is Some && ceq(cval(ev->0), *c))
{ match ev { Some(x) => !(*cref(x) == *c), None => true } }
pub open spec fn pe_any(s: Seq<SemanticContext>, out: Seq<Cow<'_, SemanticContext>>, level: int) -> bool { forall|e: Env| #[trigger] e.ok(level) ==> any_t(s, e) == any_t(cvals(out), e) }
pub open spec fn pe_all(s: Seq<SemanticContext>, out: Seq<Cow<'_, SemanticContext>>, level: int) -> bool { forall|e: Env| #[trigger] e.ok(level) ==> all_t(s, e) == all_t(cvals(out), e) }
// what partial evaluation at a precedence level must return
pub open spec fn settled(r: Option<Cow<'_, SemanticContext>>, c: SemanticContext, level: int) -> bool {
    match r {
        // false under every outcome
        None => forall|e: Env| #[trigger] e.ok(level) ==> !truth(c, e),
        // the same truth, without asking for precedences any more
        Some(x) => same_at(cval(x), c, level) && noprec(cval(x)),
    }
}
pub proof fn push_t(s: Seq<SemanticContext>, x: SemanticContext, e: Env)
    ensures all_t(s.push(x), e) == (all_t(s, e) && truth(x, e)), any_t(s.push(x), e) == (any_t(s, e) || truth(x, e)), noprec_all(s.push(x)) == (noprec_all(s) && noprec(x))
{
    let t = s.push(x); let n = s.len() as int;
    assert(forall|i: int| 0 <= i < n ==> t[i] == s[i]);
    assert(t[n] == x);
    if all_t(t, e) { assert forall|i: int| #![trigger s[i]] 0 <= i < n implies truth(s[i], e) by { assert(truth(t[i], e)); } assert(truth(t[n], e)); }
    if any_t(s, e) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && truth(s[i], e); assert(truth(t[i], e)); }
    if truth(x, e) { assert(truth(t[n], e)); }
    if noprec_all(t) { assert forall|i: int| #![trigger s[i]] 0 <= i < n implies noprec(s[i]) by { assert(noprec(t[i])); } assert(noprec(t[n])); }
}
pub proof fn cons_t(s: Seq<SemanticContext>, e: Env)
    requires s.len() > 0
    ensures all_t(s, e) == (truth(s[0], e) && all_t(s.remove(0), e)), any_t(s, e) == (truth(s[0], e) || any_t(s.remove(0), e)), noprec_all(s) == (noprec(s[0]) && noprec_all(s.remove(0)))
{
    let t = s.remove(0);
    assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i + 1]);
    if all_t(s, e) { assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies truth(t[i], e) by { assert(truth(s[i + 1], e)); } }
    if all_t(t, e) && truth(s[0], e) { assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies truth(s[i], e) by { if i > 0 { assert(truth(t[i - 1], e)); } } }
    if any_t(s, e) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && truth(s[i], e); if i > 0 { assert(truth(t[i - 1], e)); } }
    if any_t(t, e) { let i = choose|i: int| #![trigger t[i]] 0 <= i < t.len() && truth(t[i], e); assert(truth(s[i + 1], e)); }
    if noprec_all(s) { assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies noprec(t[i]) by { assert(noprec(s[i + 1])); } }
    if noprec_all(t) && noprec(s[0]) { assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies noprec(s[i]) by { if i > 0 { assert(noprec(t[i - 1])); } } }
}
pub proof fn cvals_push(s: Seq<Cow<'_, SemanticContext>>, x: Cow<'_, SemanticContext>) ensures cvals(s.push(x)) =~= cvals(s).push(cval(x)) {}
pub proof fn cvals_remove(s: Seq<Cow<'_, SemanticContext>>) requires s.len() > 0 ensures cvals(s.remove(0)) =~= cvals(s).remove(0), cvals(s)[0] == cval(s[0]) {}
// one more operand of an OR / AND looked at
pub open spec fn step_or(ops: Seq<SemanticContext>, n: int, o0: Seq<Cow<'_, SemanticContext>>, ev: Option<Cow<'_, SemanticContext>>, o1: Seq<Cow<'_, SemanticContext>>) -> bool {
    if ev is None { o1 == o0 } else { o1 == o0.push(ev->0) }
}
pub open spec fn step_and(ops: Seq<SemanticContext>, n: int, o0: Seq<Cow<'_, SemanticContext>>, ev: Option<Cow<'_, SemanticContext>>, o1: Seq<Cow<'_, SemanticContext>>) -> bool {
    ev is Some && if is_none(cval(ev->0)) { o1 == o0 } else { o1 == o0.push(ev->0) }
}
pub proof fn lemma_step_or(ops: Seq<SemanticContext>, n: int, o0: Seq<Cow<'_, SemanticContext>>, ev: Option<Cow<'_, SemanticContext>>, o1: Seq<Cow<'_, SemanticContext>>, level: int, d0: bool, d1: bool)
    requires 0 <= n < ops.len(), pe_any(ops.take(n), o0, level), noprec_all(cvals(o0)), settled(ev, ops[n], level), step_or(ops, n, o0, ev, o1),
        d1 == (d0 || !(ev is Some && ceq(cval(ev->0), ops[n]))), !d0 ==> noprec_all(ops.take(n))
    ensures pe_any(ops.take(n + 1), o1, level), noprec_all(cvals(o1)), !d1 ==> noprec_all(ops.take(n + 1))
{
    assert(ops.take(n + 1) =~= ops.take(n).push(ops[n]));
    let e0 = Env { pred: |x: int, y: int, z: bool| true, level: 0 };
    if ev is Some { cvals_push(o0, ev->0); push_t(cvals(o0), cval(ev->0), e0); }
    push_t(ops.take(n), ops[n], e0);
    assert forall|e: Env| #[trigger] e.ok(level) implies any_t(ops.take(n + 1), e) == any_t(cvals(o1), e) by {
        push_t(ops.take(n), ops[n], e);
        if ev is Some { push_t(cvals(o0), cval(ev->0), e); }
    }
    if !d1 { ceq_truth(cval(ev->0), ops[n], e0); }
}
pub proof fn lemma_step_and(ops: Seq<SemanticContext>, n: int, o0: Seq<Cow<'_, SemanticContext>>, ev: Option<Cow<'_, SemanticContext>>, o1: Seq<Cow<'_, SemanticContext>>, level: int, d0: bool, d1: bool)
    requires 0 <= n < ops.len(), pe_all(ops.take(n), o0, level), noprec_all(cvals(o0)), settled(ev, ops[n], level), step_and(ops, n, o0, ev, o1),
        d1 == (d0 || !(ev is Some && ceq(cval(ev->0), ops[n]))), !d0 ==> noprec_all(ops.take(n))
    ensures pe_all(ops.take(n + 1), o1, level), noprec_all(cvals(o1)), !d1 ==> noprec_all(ops.take(n + 1))
{
    assert(ops.take(n + 1) =~= ops.take(n).push(ops[n]));
    let e0 = Env { pred: |x: int, y: int, z: bool| true, level: 0 };
    cvals_push(o0, ev->0); push_t(cvals(o0), cval(ev->0), e0);
    push_t(ops.take(n), ops[n], e0);
    assert forall|e: Env| #[trigger] e.ok(level) implies all_t(ops.take(n + 1), e) == all_t(cvals(o1), e) by {
        push_t(ops.take(n), ops[n], e); push_t(cvals(o0), cval(ev->0), e);
    }
    if !d1 { ceq_truth(cval(ev->0), ops[n], e0); }
}
// a true operand settles an OR, a false one an AND
pub proof fn lemma_none_or(c: SemanticContext, ops: Seq<SemanticContext>, n: int, ev: Option<Cow<'_, SemanticContext>>, level: int)
    requires c is OR, ops == c->OR_0@, 0 <= n < ops.len(), settled(ev, ops[n], level)
    ensures ev is Some && is_none(cval(ev->0)) ==> forall|e: Env| #[trigger] e.ok(level) ==> truth(c, e)
{
    if ev is Some && is_none(cval(ev->0)) { assert forall|e: Env| #[trigger] e.ok(level) implies truth(c, e) by { unf_or2(c, e); assert(truth(ops[n], e)); } }
}
pub proof fn lemma_none_and(c: SemanticContext, ops: Seq<SemanticContext>, n: int, ev: Option<Cow<'_, SemanticContext>>, level: int)
    requires c is AND, ops == c->AND_0@, 0 <= n < ops.len(), settled(ev, ops[n], level)
    ensures ev is None ==> forall|e: Env| #[trigger] e.ok(level) ==> !truth(c, e)
{
    if ev is None { assert forall|e: Env| #[trigger] e.ok(level) implies !truth(c, e) by { unf_and2(c, e); assert(!truth(ops[n], e)); } }
}
impl SemanticContext {
//@ fn src/semantic_context.rs SemanticContext::eval_precedence {attr=verifier::loop_isolation(false)}
//@ sig
fn eval_precedence<'a, T: Parser>(&'a self, parser: &T, outer_context: &Ctx) -> (r: Option<Cow<'a, SemanticContext>>)
    ensures settled(r, *self, parser.env().level)
    decreases *self
//@ rewrite differs |= __e => { let d = __e; differs = differs || d; }
//@ rewrite evaluated.as_deref() != Some(context) => differs_from(&evaluated, context)
//@ rewrite *evaluated == Self::NONE => *cref(&evaluated) == Self::NONE
//@ rewrite *evaluated != Self::NONE => !(*cref(&evaluated) == Self::NONE)
//@ rewrite operands.drain(..) => operands
//@ rewrite operands.next().unwrap() => operands.remove(0)
//@ rewrite operands.fold(__r, |acc, it| { Owned(SemanticContext::or(Some(acc), Some(it))) }) => { let mut acc = __r; \
    while operands.len() > 0 invariant noprec(cval(acc)), noprec_all(cvals(operands@)), forall|e: Env| #[trigger] e.ok(level) ==> (truth(cval(acc), e) || any_t(cvals(operands@), e)) == truth(*self, e) decreases operands.len() \
    { let ghost c0 = operands@; let ghost a0 = acc; let it = operands.remove(0); acc = Owned(SemanticContext::or(Some(cref(&acc)), Some(cref(&it)))); \
       proof { cvals_remove(c0); cons_t(cvals(c0), Env { pred: |x: int, y: int, z: bool| true, level: 0 }); \
       assert forall|e: Env| #[trigger] e.ok(level) implies (truth(cval(acc), e) || any_t(cvals(operands@), e)) == truth(*self, e) by { cons_t(cvals(c0), e); } } } acc }
//@ rewrite operands.fold(__r, |acc, it| { Owned(SemanticContext::and(Some(acc), Some(it))) }) => { let mut acc = __r; \
    while operands.len() > 0 invariant noprec(cval(acc)), noprec_all(cvals(operands@)), forall|e: Env| #[trigger] e.ok(level) ==> (truth(cval(acc), e) && all_t(cvals(operands@), e)) == truth(*self, e) decreases operands.len() \
    { let ghost c0 = operands@; let ghost a0 = acc; let it = operands.remove(0); acc = Owned(SemanticContext::and(Some(cref(&acc)), Some(cref(&it)))); \
       proof { cvals_remove(c0); cons_t(cvals(c0), Env { pred: |x: int, y: int, z: bool| true, level: 0 }); \
       assert forall|e: Env| #[trigger] e.ok(level) implies (truth(cval(acc), e) && all_t(cvals(operands@), e)) == truth(*self, e) by { cons_t(cvals(c0), e); } } } acc }
//@ loop 0 for {iter=it}
    invariant
        *self == SemanticContext::OR(*ops), it.seq() == ops@.map_values(|x: SemanticContext| &x), 0 <= it.index() <= ops@.len(),
        pe_any(ops@.take(it.index() as int), operands@, level), noprec_all(cvals(operands@)), !differs ==> noprec_all(ops@.take(it.index() as int)),
//@ loop 1 for {iter=it}
    invariant
        *self == SemanticContext::AND(*ops), it.seq() == ops@.map_values(|x: SemanticContext| &x), 0 <= it.index() <= ops@.len(),
        pe_all(ops@.take(it.index() as int), operands@, level), noprec_all(cvals(operands@)), !differs ==> noprec_all(ops@.take(it.index() as int)),
//@ at fn start
    let ghost level = parser.env().level;
//@ at loop 0 start
    proof { assert(it.seq()[it.index() as int] == &ops@[it.index() as int]); assert(*context == ops@[it.index() as int]); assert(decreases_to!(*self => *ops)); assert(decreases_to!(*ops => ops@[it.index() as int])); }
    let ghost o0 = operands@; let ghost d0 = differs; let ghost n = it.index() as int;
//@ at before #0 if let Some(evaluated) = evaluated
    let ghost ev = evaluated;
    proof { lemma_none_or(*self, ops@, n, ev, level); }
//@ at loop 0 end
    proof { lemma_step_or(ops@, n, o0, ev, operands@, level, d0, differs); }
//@ at before #0 if !differs
    proof { assert(ops@.take(ops@.len() as int) =~= ops@); unf_or2(*self, Env { pred: |x: int, y: int, z: bool| true, level: 0 });
        assert forall|e: Env| #[trigger] e.ok(level) implies truth(*self, e) == any_t(cvals(operands@), e) by { unf_or2(*self, e); } }
//@ at before #0 let mut operands = operands.drain(..)
    let ghost all = operands@;
//@ at after #0 let result = operands.next()
    proof { cvals_remove(all); cons_t(cvals(all), Env { pred: |x: int, y: int, z: bool| true, level: 0 });
        assert forall|e: Env| #[trigger] e.ok(level) implies truth(*self, e) == (truth(cval(result), e) || any_t(cvals(operands@), e)) by { cons_t(cvals(all), e); } }
//@ at loop 1 start
    proof { assert(it.seq()[it.index() as int] == &ops@[it.index() as int]); assert(*context == ops@[it.index() as int]); assert(decreases_to!(*self => *ops)); assert(decreases_to!(*ops => ops@[it.index() as int])); }
    let ghost o0 = operands@; let ghost d0 = differs; let ghost n = it.index() as int;
//@ at before #1 if let Some(evaluated) = evaluated
    let ghost ev = evaluated;
    proof { lemma_none_and(*self, ops@, n, ev, level); }
//@ at loop 1 end
    proof { lemma_step_and(ops@, n, o0, ev, operands@, level, d0, differs); }
//@ at before #1 if !differs
    proof { assert(ops@.take(ops@.len() as int) =~= ops@); unf_and2(*self, Env { pred: |x: int, y: int, z: bool| true, level: 0 });
        assert forall|e: Env| #[trigger] e.ok(level) implies truth(*self, e) == all_t(cvals(operands@), e) by { unf_and2(*self, e); } }
//@ at before #1 let mut operands = operands.drain(..)
    let ghost all = operands@;
//@ at after #1 let result = operands.next()
    proof { cvals_remove(all); cons_t(cvals(all), Env { pred: |x: int, y: int, z: bool| true, level: 0 });
        assert forall|e: Env| #[trigger] e.ok(level) implies truth(*self, e) == (truth(cval(result), e) && all_t(cvals(operands@), e)) by { cons_t(cvals(all), e); } }
//@ end
}
pub fn clone_ctx(x: &SemanticContext) -> (r: SemanticContext) ensures same(*x, r), same(r, *x), noprec(*x) == noprec(r) { let r = x.clone(); proof { clone_same(*x, r); } r }
} // verus!
fn main() {}
