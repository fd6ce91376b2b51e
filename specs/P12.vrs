#![allow(unused)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@ item src/prediction_context.rs const PREDICTION_CONTEXT_EMPTY_RETURN_STATE
//@ item src/prediction_context.rs enum PredictionContext
//@ item src/prediction_context.rs struct ArrayPredictionContext
//@ item src/prediction_context.rs struct SingletonPredictionContext
use crate::PredictionContext::{Array, Singleton};
pub type PC = PredictionContext;
pub type Par = Option<Arc<PredictionContext>>;
pub open spec fn bot() -> int { PREDICTION_CONTEXT_EMPTY_RETURN_STATE as int }
// ---------- what a graph stands for -------------------------------------------------------
// the edges of a node: (return state, what is below it); nothing below marks the bottom
pub ghost struct Edge { pub rs: int, pub par: Par }
pub open spec fn akids(a: ArrayPredictionContext) -> Seq<Edge> { Seq::new(a.return_states@.len(), |i: int| Edge { rs: a.return_states@[i] as int, par: a.parents@[i] }) }
pub open spec fn skids(s: SingletonPredictionContext) -> Seq<Edge> { seq![Edge { rs: s.return_state as int, par: s.parent_ctx }] }
pub open spec fn kids(c: PC) -> Seq<Edge> { match c { Singleton(s) => skids(s), Array(a) => akids(a) } }
// the call stack s (return states, top first) is one of those the node stands for;
// wild: the bottom stands for any continuation
pub open spec fn satk(k: Seq<Edge>, s: Seq<int>, wild: bool) -> bool decreases s.len() {
    exists|i: int| 0 <= i < k.len() && match (#[trigger] k[i]).par { None => wild || s.len() == 0, Some(p) => s.len() > 0 && s[0] == k[i].rs && satk(kids(*p), s.skip(1), wild) }
}
pub open spec fn sat1(e: Edge, s: Seq<int>, wild: bool) -> bool { match e.par { None => wild || s.len() == 0, Some(p) => s.len() > 0 && s[0] == e.rs && satk(kids(*p), s.skip(1), wild) } }
pub open spec fn some_edge(k: Seq<Edge>, s: Seq<int>, w: bool) -> bool { exists|i: int| 0 <= i < k.len() && #[trigger] sat1(k[i], s, w) }
pub proof fn lemma_sat(k: Seq<Edge>, s: Seq<int>, w: bool) ensures satk(k, s, w) == some_edge(k, s, w)
{
    if satk(k, s, w) {
        let i = choose|i: int| 0 <= i < k.len() && match (#[trigger] k[i]).par { None => w || s.len() == 0, Some(p) => s.len() > 0 && s[0] == k[i].rs && satk(kids(*p), s.skip(1), w) };
        assert(sat1(k[i], s, w));
    }
    if some_edge(k, s, w) { let i = choose|i: int| 0 <= i < k.len() && #[trigger] sat1(k[i], s, w); let _ = k[i]; }
}
pub open spec fn sat(c: PC, s: Seq<int>, wild: bool) -> bool { satk(kids(c), s, wild) }
// r stands for exactly the stacks of a and of b
pub open spec fn kunion(a: Seq<Edge>, b: Seq<Edge>, r: Seq<Edge>, wild: bool) -> bool {
    &&& forall|s: Seq<int>| #[trigger] satk(r, s, wild) == (satk(a, s, wild) || satk(b, s, wild))
    &&& forall|s: Seq<int>| #[trigger] satk(r, s, false) ==> satk(a, s, false) || satk(b, s, false)
}
pub open spec fn is_union(a: PC, b: PC, r: PC, wild: bool) -> bool { kunion(kids(a), kids(b), kids(r), wild) }
// ---------- shape ---------------------------------------------------------------------------
pub uninterp spec fn fin(w: Seq<int>) -> u64;
pub open spec fn hco(p: Par) -> int { match p { None => 0, Some(c) => hc(*c) } }
pub open spec fn hc(c: PC) -> int { match c { Singleton(s) => s.cached_hash as int, Array(a) => a.cached_hash as int } }
pub open spec fn writes(c: PC) -> Seq<int> {
    match c {
        Singleton(s) => seq![hco(s.parent_ctx), s.return_state as i32 as int],
        Array(a) => Seq::new(a.parents@.len(), |i: int| hco(a.parents@[i])) + Seq::new(a.return_states@.len(), |i: int| a.return_states@[i] as i32 as int),
    }
}
pub open spec fn hashed(c: PC) -> bool { hc(c) == fin(writes(c)) as i32 as int }
pub open spec fn rs_ok(rs: int, p: Par) -> bool { 0 <= rs <= bot() && (p is None) == (rs == bot()) }
pub open spec fn sorted(v: Seq<isize>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]) < (#[trigger] v[j]) }
pub open spec fn wfo(p: Par) -> bool decreases p { match p { None => true, Some(c) => wf(*c) } }
// return states sorted and unique, the bottom last, hashes cached; everywhere
pub open spec fn wf(c: PC) -> bool decreases c {
    &&& hashed(c)
    &&& match c {
        Singleton(s) => rs_ok(s.return_state as int, s.parent_ctx) && match s.parent_ctx { None => true, Some(c) => wf(*c) },
        Array(a) => a.parents@.len() == a.return_states@.len() && a.parents@.len() > 0 && sorted(a.return_states@)
            && forall|i: int| 0 <= i < a.parents@.len() ==> rs_ok(a.return_states@[i] as int, #[trigger] a.parents@[i]) && match a.parents@[i] { None => true, Some(c) => wf(*c) },
    }
}
// the same without this node's own hash
pub open spec fn swf(s: SingletonPredictionContext) -> bool { rs_ok(s.return_state as int, s.parent_ctx) && wfo(s.parent_ctx) }
pub open spec fn awf(a: ArrayPredictionContext) -> bool {
    &&& a.parents@.len() == a.return_states@.len() && a.parents@.len() > 0 && sorted(a.return_states@)
    &&& forall|i: int| 0 <= i < a.parents@.len() ==> rs_ok(a.return_states@[i] as int, #[trigger] a.parents@[i]) && wfo(a.parents@[i])
}
pub open spec fn shape(c: PC) -> bool { match c { Singleton(s) => swf(s), Array(a) => awf(a) } }
pub proof fn lemma_wf(c: PC) ensures wf(c) == (hashed(c) && shape(c)) {
    match c { Singleton(s) => { match s.parent_ctx { None => {}, Some(p) => {} } }, Array(a) => {
        assert forall|i: int| 0 <= i < a.parents@.len() implies wfo(#[trigger] a.parents@[i]) == (match a.parents@[i] { None => true, Some(c) => wf(*c) }) by {}
        if shape(c) && hashed(c) { assert(wf(c)); }
    } }
}
// ---------- height, for termination -----------------------------------------------------------
pub open spec fn hto(p: Par) -> nat decreases p, 0int { match p { None => 0, Some(c) => 1 + ht(*c) } }
pub open spec fn ht(c: PC) -> nat decreases c, 0int { match c { Singleton(s) => match s.parent_ctx { None => 0, Some(c) => 1 + ht(*c) }, Array(a) => hta(a, a.parents@.len() as int) } }
pub open spec fn hta(a: ArrayPredictionContext, n: int) -> nat decreases a, n {
    if n <= 0 || n > a.parents@.len() { 0 } else { let x = match a.parents@[n - 1] { None => 0, Some(c) => 1 + ht(*c) }; let y = hta(a, n - 1); if x > y { x } else { y } }
}
pub open spec fn htk(a: ArrayPredictionContext) -> nat { hta(a, a.parents@.len() as int) }
pub proof fn lemma_hta(a: ArrayPredictionContext, n: int, i: int)
    requires 0 <= i < n <= a.parents@.len()
    ensures hto(a.parents@[i]) <= hta(a, n)
    decreases n
{ if i < n - 1 { lemma_hta(a, n - 1, i); } }
pub open spec fn dr(p: &Arc<PC>) -> PC { **p }
pub open spec fn d(p: Arc<PC>) -> PC { *p }
// ---------- equality of graphs, node by node ------------------------------------------------------
pub open spec fn sameo(a: Par, b: Par) -> bool decreases a { match (a, b) { (None, None) => true, (Some(x), Some(y)) => same(*x, *y), _ => false } }
pub open spec fn same(a: PC, b: PC) -> bool decreases a {
    match (a, b) {
        (Singleton(x), Singleton(y)) => x.return_state == y.return_state && match (x.parent_ctx, y.parent_ctx) { (None, None) => true, (Some(x), Some(y)) => same(*x, *y), _ => false },
        (Array(x), Array(y)) => x.return_states@ == y.return_states@ && x.parents@.len() == y.parents@.len()
            && forall|i: int| 0 <= i < x.parents@.len() ==> match (#[trigger] x.parents@[i], y.parents@[i]) { (None, None) => true, (Some(x), Some(y)) => same(*x, *y), _ => false },
        _ => false,
    }
}
pub proof fn lemma_same(a: PC, b: PC)
    ensures same(a, b) == (match (a, b) {
        (Singleton(x), Singleton(y)) => x.return_state == y.return_state && sameo(x.parent_ctx, y.parent_ctx),
        (Array(x), Array(y)) => asame(x, y),
        _ => false })
{
    match (a, b) { (Array(x), Array(y)) => {
        assert forall|i: int| 0 <= i < x.parents@.len() implies sameo(#[trigger] x.parents@[i], y.parents@[i]) == (match (x.parents@[i], y.parents@[i]) { (None, None) => true, (Some(x), Some(y)) => same(*x, *y), _ => false }) by {}
        if asame(x, y) { assert(same(a, b)); }
        if same(a, b) { assert(asame(x, y)); }
    }, _ => {} }
}
pub open spec fn asame(x: ArrayPredictionContext, y: ArrayPredictionContext) -> bool {
    x.return_states@ == y.return_states@ && x.parents@.len() == y.parents@.len() && forall|i: int| 0 <= i < x.parents@.len() ==> sameo(#[trigger] x.parents@[i], y.parents@[i])
}
pub proof fn lemma_refl(a: PC) ensures same(a, a) decreases a {
    match a { Singleton(x) => { match x.parent_ctx { Some(p) => lemma_refl(d(p)), None => {} } },
        Array(x) => { assert forall|i: int| 0 <= i < x.parents@.len() implies match (#[trigger] x.parents@[i], x.parents@[i]) { (None, None) => true, (Some(x), Some(y)) => same(*x, *y), _ => false } by { match x.parents@[i] { Some(p) => lemma_refl(d(p)), None => {} } } } }
}
pub proof fn lemma_sym(a: PC, b: PC) requires same(a, b) ensures same(b, a) decreases a {
    match (a, b) { (Singleton(x), Singleton(y)) => { match (x.parent_ctx, y.parent_ctx) { (Some(p), Some(q)) => lemma_sym(d(p), d(q)), _ => {} } },
        (Array(x), Array(y)) => { assert forall|i: int| 0 <= i < y.parents@.len() implies match (#[trigger] y.parents@[i], x.parents@[i]) { (None, None) => true, (Some(x), Some(y)) => same(*x, *y), _ => false } by {
            match (x.parents@[i], y.parents@[i]) { (Some(p), Some(q)) => lemma_sym(d(p), d(q)), _ => {} } } }, _ => {} }
}
pub proof fn lemma_trans(a: PC, b: PC, c: PC) requires same(a, b), same(b, c) ensures same(a, c) decreases a {
    match (a, b, c) { (Singleton(x), Singleton(y), Singleton(z)) => { match (x.parent_ctx, y.parent_ctx, z.parent_ctx) { (Some(p), Some(q), Some(r)) => lemma_trans(d(p), d(q), d(r)), _ => {} } },
        (Array(x), Array(y), Array(z)) => { assert forall|i: int| 0 <= i < x.parents@.len() implies match (#[trigger] x.parents@[i], z.parents@[i]) { (None, None) => true, (Some(x), Some(y)) => same(*x, *y), _ => false } by {
            let _ = y.parents@[i]; match (x.parents@[i], y.parents@[i], z.parents@[i]) { (Some(p), Some(q), Some(r)) => lemma_trans(d(p), d(q), d(r)), _ => {} } } }, _ => {} }
}
// equal graphs stand for the same stacks
pub proof fn lemma_same_sat(a: PC, b: PC, s: Seq<int>, w: bool)
    requires same(a, b), shape(a), shape(b)
    ensures sat(a, s, w) == sat(b, s, w)
    decreases s.len()
{
    let (k, l) = (kids(a), kids(b));
    lemma_same(a, b);
    assert(k.len() == l.len());
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] sat1(k[i], s, w) == sat1(l[i], s, w) by {
        assert(k[i].rs == l[i].rs);
        assert(sameo(k[i].par, l[i].par));
        match (k[i].par, l[i].par) { (Some(p), Some(q)) => { if s.len() > 0 { lemma_wf(d(p)); lemma_wf(d(q)); assert(wfo(k[i].par) && wfo(l[i].par)); lemma_same_sat(d(p), d(q), s.skip(1), w); } }, _ => {} }
    }
    lemma_sat(k, s, w); if satk(k, s, w) { let i = choose|i: int| 0 <= i < k.len() && #[trigger] sat1(k[i], s, w); assert(sat1(l[i], s, w)); }
    lemma_sat(l, s, w); if satk(l, s, w) { let i = choose|i: int| 0 <= i < l.len() && #[trigger] sat1(l[i], s, w); assert(sat1(k[i], s, w)); }
}
// .. and have the same hash
pub proof fn lemma_same_hash(a: PC, b: PC)
    requires same(a, b), wf(a), wf(b)
    ensures hc(a) == hc(b)
    decreases a
{
    lemma_wf(a); lemma_wf(b); lemma_same(a, b);
    match (a, b) { (Singleton(x), Singleton(y)) => { match (x.parent_ctx, y.parent_ctx) { (Some(p), Some(q)) => lemma_same_hash(d(p), d(q)), _ => {} } assert(writes(a) =~= writes(b)); },
        (Array(x), Array(y)) => {
            assert forall|i: int| 0 <= i < x.parents@.len() implies hco(#[trigger] x.parents@[i]) == hco(y.parents@[i]) by {
                assert(sameo(x.parents@[i], y.parents@[i])); assert(wfo(x.parents@[i])); assert(wfo(y.parents@[i]));
                match (x.parents@[i], y.parents@[i]) { (Some(p), Some(q)) => lemma_same_hash(d(p), d(q)), _ => {} } }
            assert(writes(a) =~= writes(b)); }, _ => {} }
}
pub proof fn lemma_same_union(a: PC, b: PC, w: bool)
    requires same(a, b), shape(a), shape(b)
    ensures is_union(a, b, a, w)
{
    assert forall|s: Seq<int>| #[trigger] satk(kids(a), s, w) == (satk(kids(a), s, w) || satk(kids(b), s, w)) by { lemma_same_sat(a, b, s, w); }
}
// replacing operands and result by equal graphs
pub proof fn lemma_union_same(a: PC, b: PC, r: PC, a2: PC, b2: PC, r2: PC, w: bool)
    requires is_union(a, b, r, w), same(a, a2), same(b, b2), same(r, r2), shape(a), shape(b), shape(r), shape(a2), shape(b2), shape(r2)
    ensures is_union(a2, b2, r2, w)
{
    assert forall|s: Seq<int>, v: bool| sat(a, s, v) == sat(a2, s, v) && sat(b, s, v) == sat(b2, s, v) && sat(r, s, v) == sat(r2, s, v) by { lemma_same_sat(a, a2, s, v); lemma_same_sat(b, b2, s, v); lemma_same_sat(r, r2, s, v); }
    assert forall|s: Seq<int>| #[trigger] satk(kids(r2), s, w) == (satk(kids(a2), s, w) || satk(kids(b2), s, w)) by { assert(sat(r, s, w) == sat(r2, s, w)); let _ = satk(kids(r), s, w); assert(sat(a, s, w) == sat(a2, s, w)); }
    assert forall|s: Seq<int>| #[trigger] satk(kids(r2), s, false) implies satk(kids(a2), s, false) || satk(kids(b2), s, false) by { assert(sat(r, s, false) == sat(r2, s, false)); let _ = satk(kids(r), s, false); assert(sat(a, s, false) == sat(a2, s, false)); assert(sat(b, s, false) == sat(b2, s, false)); }
}
pub proof fn lemma_union_comm(a: Seq<Edge>, b: Seq<Edge>, r: Seq<Edge>, w: bool) requires kunion(a, b, r, w) ensures kunion(b, a, r, w) {}
pub proof fn lemma_push(k: Seq<Edge>, e: Edge, s: Seq<int>, w: bool)
    ensures satk(k.push(e), s, w) == (satk(k, s, w) || sat1(e, s, w))
{
    let n = k.push(e);
    lemma_sat(k, s, w); if satk(k, s, w) { let i = choose|i: int| 0 <= i < k.len() && #[trigger] sat1(k[i], s, w); assert(sat1(n[i], s, w)); }
    if sat1(e, s, w) { assert(sat1(n[k.len() as int], s, w)); }
    lemma_sat(n, s, w); if satk(n, s, w) { let i = choose|i: int| 0 <= i < n.len() && #[trigger] sat1(n[i], s, w); if i < k.len() { assert(sat1(k[i], s, w)); } }
}
pub proof fn lemma_none(s: Seq<int>, w: bool) ensures !satk(Seq::<Edge>::empty(), s, w) { lemma_sat(Seq::<Edge>::empty(), s, w); }
pub proof fn lemma_sorted_len(v: Seq<isize>, n: int)
    requires sorted(v), forall|i: int| 0 <= i < v.len() ==> 0 <= #[trigger] v[i] <= bot(), 0 <= n < v.len()
    ensures v[n] >= n
    decreases n
{ if n > 0 { lemma_sorted_len(v, n - 1); assert(v[n - 1] < v[n]); } }
pub proof fn lemma_len(a: ArrayPredictionContext) requires awf(a) ensures a.return_states@.len() <= bot() + 1 {
    assert forall|i: int| 0 <= i < a.return_states@.len() implies 0 <= #[trigger] a.return_states@[i] <= bot() by { let _ = a.parents@[i]; assert(rs_ok(a.return_states@[i] as int, a.parents@[i])); }
    lemma_sorted_len(a.return_states@, a.return_states@.len() - 1);
}
// ---------- trusted: std ---------------------------------------------------------------------------
#[verifier::external_body]
pub fn ptr_eq(a: &Arc<PC>, b: &Arc<PC>) -> (r: bool) ensures r ==> *a == *b { unimplemented!() }
pub fn vassert(c: bool) requires c {}
pub fn oclone(p: &Par) -> (r: Par) ensures r == *p { match p { None => None, Some(c) => Some(c.clone()) } }
pub fn ocloned(p: Option<&Arc<PC>>) -> (r: Par) ensures r == (match p { None => None, Some(c) => Some(*c) }) { match p { None => None, Some(c) => Some(c.clone()) } }
#[verifier::external_body]
pub fn vclone(v: &Vec<isize>) -> (r: Vec<isize>) ensures r@ == v@ { v.clone() }
#[verifier::external_body]
pub fn veq(a: &Vec<isize>, b: &Vec<isize>) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vswap<T>(v: &mut Vec<T>, i: usize, j: usize) requires i < old(v)@.len(), j < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]) { v.swap(i, j) }
#[verifier::external_body]
pub fn vshrink<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@ { v.shrink_to_fit() }
impl Clone for SingletonPredictionContext { // derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct MurmurHasher { x: usize }
impl MurmurHasher {
    pub uninterp spec fn w(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.w() == Seq::<int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_i32(&mut self, x: i32) ensures final(self).w() == old(self).w().push(x as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == fin(self.w()) { unimplemented!() }
}
// the lazily created bottom node: PredictionContext::new_empty()
#[verifier::external_body]
pub fn empty_context() -> (r: Arc<PC>) ensures is_bottom(*r) { unimplemented!() }
pub open spec fn is_bottom(c: PC) -> bool { wf(c) && match c { Singleton(s) => s.return_state == PREDICTION_CONTEXT_EMPTY_RETURN_STATE && s.parent_ctx is None, _ => false } }
// the merge cache, or none: HashMap<(Arc, Arc), Arc>, keys compared by `same`
#[verifier::external_body]
pub struct MergeCache { x: usize }
impl MergeCache {
    pub uninterp spec fn entry(&self, a: PC, b: PC, r: PC) -> bool;
    // every entry is the union of its key, in this merge mode
    #[verifier::opaque]
    pub open spec fn ok(&self, w: bool) -> bool { forall|a: PC, b: PC, r: PC| #[trigger] self.entry(a, b, r) ==> wf(a) && wf(b) && wf(r) && is_union(a, b, r, w) }
    #[verifier::external_body]
    pub fn present(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &(Arc<PC>, Arc<PC>)) -> (r: Option<&Arc<PC>>)
        ensures match r { Some(v) => exists|a: PC, b: PC| #[trigger] self.entry(a, b, **v) && same(a, *k.0) && same(b, *k.1), None => true }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (Arc<PC>, Arc<PC>), v: Arc<PC>)
        ensures forall|a: PC, b: PC, r: PC| #[trigger] final(self).entry(a, b, r) ==> old(self).entry(a, b, r) || (r == *v && same(a, *k.0) && same(b, *k.1) && (a == *k.0 || exists|o: PC| old(self).entry(a, b, o)) && (b == *k.1 || exists|o: PC| old(self).entry(a, b, o)))
    { unimplemented!() }
}
// the parents seen so far: HashMap<Par, Par>, keys compared by `same`
#[verifier::external_body]
pub struct UniqMap { x: usize }
impl UniqMap {
    pub uninterp spec fn entry(&self, k: Par, v: Par) -> bool;
    pub open spec fn known(&self, k: Par) -> bool { exists|x: Par, v: Par| #[trigger] self.entry(x, v) && sameo(x, k) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|k: Par, v: Par| !(#[trigger] r.entry(k, v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Par) -> (r: bool) ensures r == self.known(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Par) -> (r: Option<&Par>)
        ensures match r { Some(v) => exists|x: Par| #[trigger] self.entry(x, *v) && sameo(x, *k), None => !self.known(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Par, v: Par)
        ensures forall|x: Par, y: Par| #[trigger] final(self).entry(x, y) ==> old(self).entry(x, y) || (sameo(x, k) && y == v),
            forall|x: Par| old(self).known(x) ==> #[trigger] final(self).known(x), final(self).known(k)
    { unimplemented!() }
}
// canonical parents: each recorded value equals its key
#[verifier::opaque]
pub open spec fn uniq_ok(u: UniqMap) -> bool { forall|k: Par, v: Par| #[trigger] u.entry(k, v) ==> wfo(v) && sameo(k, v) }
pub proof fn lemma_uniq_insert(u: UniqMap, n: UniqMap, k: Par)
    requires uniq_ok(u), wfo(k), forall|x: Par, y: Par| #[trigger] n.entry(x, y) ==> u.entry(x, y) || (sameo(x, k) && y == k)
    ensures uniq_ok(n)
{ reveal(uniq_ok); }
pub proof fn lemma_uniq_get(u: UniqMap, k: Par, v: Par)
    requires uniq_ok(u), exists|x: Par| #[trigger] u.entry(x, v) && sameo(x, k)
    ensures wfo(v), sameo(v, k)
{
    reveal(uniq_ok);
    let x = choose|x: Par| #[trigger] u.entry(x, v) && sameo(x, k);
    match (x, k, v) { (Some(a), Some(b), Some(c)) => { lemma_sym(d(a), d(c)); lemma_trans(d(c), d(a), d(b)); }, _ => {} }
}
pub proof fn lemma_cached(c: MergeCache, a: PC, b: PC, r: PC, w: bool)
    requires c.ok(w), wf(a), wf(b), (exists|x: PC, y: PC| #[trigger] c.entry(x, y, r) && same(x, a) && same(y, b)) || (exists|x: PC, y: PC| #[trigger] c.entry(x, y, r) && same(x, b) && same(y, a))
    ensures wf(r), is_union(a, b, r, w)
{
    reveal(MergeCache::ok); lemma_refl(r); lemma_wf(a); lemma_wf(b);
    if exists|x: PC, y: PC| #[trigger] c.entry(x, y, r) && same(x, a) && same(y, b) {
        let (x, y) = choose|x: PC, y: PC| #[trigger] c.entry(x, y, r) && same(x, a) && same(y, b);
        lemma_wf(x); lemma_wf(y); lemma_wf(r); lemma_union_same(x, y, r, a, b, r, w);
    } else {
        let (x, y) = choose|x: PC, y: PC| #[trigger] c.entry(x, y, r) && same(x, b) && same(y, a);
        lemma_wf(x); lemma_wf(y); lemma_wf(r); lemma_union_same(x, y, r, b, a, r, w);
    }
}
pub proof fn lemma_store(c: MergeCache, n: MergeCache, a: PC, b: PC, r: PC, w: bool)
    requires c.ok(w), wf(a), wf(b), wf(r), is_union(a, b, r, w),
        forall|x: PC, y: PC, z: PC| #[trigger] n.entry(x, y, z) ==> c.entry(x, y, z) || (z == r && same(x, a) && same(y, b) && (x == a || exists|o: PC| c.entry(x, y, o)) && (y == b || exists|o: PC| c.entry(x, y, o)))
    ensures n.ok(w)
{
    reveal(MergeCache::ok);
    assert forall|x: PC, y: PC, z: PC| #[trigger] n.entry(x, y, z) implies wf(x) && wf(y) && wf(z) && is_union(x, y, z, w) by {
        if !c.entry(x, y, z) { lemma_wf(a); lemma_wf(b); lemma_wf(r); lemma_wf(x); lemma_wf(y); lemma_sym(x, a); lemma_sym(y, b); lemma_refl(r); lemma_union_same(a, b, r, x, y, r, w); }
    }
}
// in local-context mode the bottom covers every stack
pub proof fn lemma_wild_bottom(a: PC, b: PC, r: PC)
    requires is_bottom(r), shape(a), shape(b), (kids(a).len() == 1 && kids(a)[0].par is None) || (kids(b).len() == 1 && kids(b)[0].par is None)
    ensures is_union(a, b, r, true)
{
    assert forall|s: Seq<int>| #[trigger] satk(kids(r), s, true) == (satk(kids(a), s, true) || satk(kids(b), s, true)) by {
        assert(sat1(kids(r)[0], s, true)); lemma_sat(kids(r), s, true); lemma_sat(kids(a), s, true); lemma_sat(kids(b), s, true);
        if kids(a).len() == 1 && kids(a)[0].par is None { assert(sat1(kids(a)[0], s, true)); } else { assert(sat1(kids(b)[0], s, true)); }
    }
    assert forall|s: Seq<int>| #[trigger] satk(kids(r), s, false) implies (satk(kids(a), s, false) || satk(kids(b), s, false)) by {
        lemma_sat(kids(r), s, false); lemma_sat(kids(a), s, false); lemma_sat(kids(b), s, false);
        if s.len() == 0 { if kids(a).len() == 1 && kids(a)[0].par is None { assert(sat1(kids(a)[0], s, false)); } else { assert(sat1(kids(b)[0], s, false)); } }
    }
}
// a node with two edges
pub proof fn lemma_shape2(c: PC)
    requires c matches Array(a) && a.parents@.len() == 2 && a.return_states@.len() == 2 && a.return_states@[0] < a.return_states@[1]
        && rs_ok(a.return_states@[0] as int, a.parents@[0]) && rs_ok(a.return_states@[1] as int, a.parents@[1]) && wfo(a.parents@[0]) && wfo(a.parents@[1])
    ensures shape(c), kids(c).len() == 2
{}
pub open spec fn sedge(s: SingletonPredictionContext) -> Edge { Edge { rs: s.return_state as int, par: s.parent_ctx } }
pub open spec fn bot_edge() -> Edge { Edge { rs: bot(), par: None } }
pub proof fn lemma_one(e: Edge, s: Seq<int>, w: bool) ensures satk(seq![e], s, w) == sat1(e, s, w) { lemma_none(s, w); lemma_push(Seq::empty(), e, s, w); assert(seq![e] =~= Seq::<Edge>::empty().push(e)); }
pub proof fn lemma_two_edges(x: Edge, y: Edge, w: bool)
    ensures kunion(seq![x], seq![y], seq![x, y], w), kunion(seq![y], seq![x], seq![x, y], w)
{
    let xy = seq![x, y]; let sx = seq![x]; let sy = seq![y];
    assert forall|s: Seq<int>, v: bool| #[trigger] satk(xy, s, v) == (satk(sx, s, v) || satk(sy, s, v)) by { lemma_one(x, s, v); lemma_one(y, s, v); lemma_push(sx, y, s, v); assert(xy =~= sx.push(y)); }
}
pub proof fn lemma_root(a: SingletonPredictionContext, b: SingletonPredictionContext, r: PC, w: bool)
    requires swf(a), swf(b),
        ({
            ||| is_bottom(r) && w && (a.parent_ctx is None || b.parent_ctx is None)
            ||| is_bottom(r) && !w && a.parent_ctx is None && b.parent_ctx is None
            ||| kids(r) =~= seq![sedge(a), bot_edge()] && b.parent_ctx is None
            ||| kids(r) =~= seq![sedge(b), bot_edge()] && a.parent_ctx is None
        })
    ensures kunion(skids(a), skids(b), kids(r), w)
{
    assert(skids(a) =~= seq![sedge(a)] && skids(b) =~= seq![sedge(b)]);
    if is_bottom(r) && w && (a.parent_ctx is None || b.parent_ctx is None) { lemma_wild_bottom(Singleton(a), Singleton(b), r); }
    else if is_bottom(r) && !w && a.parent_ctx is None && b.parent_ctx is None { assert(kids(r) =~= seq![sedge(a)]); assert(sedge(a) == sedge(b)); }
    else if kids(r) =~= seq![sedge(a), bot_edge()] && b.parent_ctx is None { assert(sedge(b) == bot_edge()); lemma_two_edges(sedge(a), sedge(b), w); }
    else { assert(sedge(a) == bot_edge()); lemma_two_edges(sedge(b), sedge(a), w); }
}
pub proof fn lemma_single(a: SingletonPredictionContext, b: SingletonPredictionContext, r: PC, w: bool)
    requires swf(a), swf(b),
        ({
            ||| a.return_state == b.return_state && kids(r).len() == 1 && kids(r)[0].rs == a.return_state && combined(a.parent_ctx, b.parent_ctx, kids(r)[0].par, w)
            ||| kids(r).len() == 2 && kids(r)[0] == sedge(a) && kids(r)[1].rs == b.return_state && wfo(kids(r)[1].par) && sameo(kids(r)[1].par, b.parent_ctx)
            ||| kids(r).len() == 2 && kids(r)[1] == sedge(a) && kids(r)[0].rs == b.return_state && wfo(kids(r)[0].par) && sameo(kids(r)[0].par, b.parent_ctx)
        })
    ensures kunion(skids(a), skids(b), kids(r), w)
{
    let k = kids(r);
    assert(skids(a) =~= seq![sedge(a)] && skids(b) =~= seq![sedge(b)]);
    if k.len() == 1 {
        lemma_combined_edge(a.return_state as int, a.parent_ctx, b.parent_ctx, k[0].par, w);
        assert(k =~= Seq::<Edge>::empty().push(k[0]));
        assert(skids(a) =~= Seq::<Edge>::empty().push(sedge(a))); assert(skids(b) =~= Seq::<Edge>::empty().push(sedge(b)));
        let e = Seq::<Edge>::empty();
        assert(kunion(e, e, e, w)) by { assert forall|s: Seq<int>, v: bool| !#[trigger] satk(e, s, v) by { lemma_none(s, v); } }
        lemma_add2(e, e, e, sedge(a), sedge(b), k[0], w);
    } else {
        let y = if k[0] == sedge(a) && k[1].rs == b.return_state && wfo(k[1].par) && sameo(k[1].par, b.parent_ctx) { k[1] } else { k[0] };
        assert forall|s: Seq<int>, v: bool| #[trigger] satk(seq![y], s, v) == satk(skids(b), s, v) by {
            lemma_one(y, s, v); lemma_one(sedge(b), s, v);
            match (y.par, b.parent_ctx) { (Some(p), Some(q)) => { if s.len() > 0 { lemma_wf(d(p)); lemma_wf(d(q)); lemma_same_sat(d(p), d(q), s.skip(1), v); } }, _ => {} }
        }
        if y == k[1] && k[0] == sedge(a) { assert(k =~= seq![sedge(a), y]); lemma_two_edges(sedge(a), y, w); } else { assert(k =~= seq![y, sedge(a)]); lemma_two_edges(y, sedge(a), w); }
        assert forall|s: Seq<int>| #[trigger] satk(k, s, w) == (satk(skids(a), s, w) || satk(skids(b), s, w)) by { let _ = satk(seq![y], s, w); }
        assert forall|s: Seq<int>| #[trigger] satk(k, s, false) implies (satk(skids(a), s, false) || satk(skids(b), s, false)) by { let _ = satk(seq![y], s, false); }
    }
}
pub open spec fn pwf(a: ArrayPredictionContext) -> bool {
    &&& a.parents@.len() == a.return_states@.len() && sorted(a.return_states@)
    &&& forall|i: int| 0 <= i < a.parents@.len() ==> rs_ok(a.return_states@[i] as int, #[trigger] a.parents@[i]) && wfo(a.parents@[i])
}
pub open spec fn below(v: Seq<isize>, a: ArrayPredictionContext, i: int) -> bool { i < a.return_states@.len() ==> forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] < a.return_states@[i] }
// m is m0 with one more edge
pub open spec fn grown(m0: ArrayPredictionContext, m: ArrayPredictionContext, rs: isize, p: Par) -> bool { m.return_states@ == m0.return_states@.push(rs) && m.parents@ == m0.parents@.push(p) }
pub proof fn lemma_grown(m0: ArrayPredictionContext, m: ArrayPredictionContext, rs: isize, p: Par)
    requires grown(m0, m, rs, p), pwf(m0), rs_ok(rs as int, p), wfo(p), forall|k: int| 0 <= k < m0.return_states@.len() ==> #[trigger] m0.return_states@[k] < rs
    ensures pwf(m), akids(m) =~= akids(m0).push(Edge { rs: rs as int, par: p })
{
    assert forall|i: int| 0 <= i < m.parents@.len() implies rs_ok(m.return_states@[i] as int, #[trigger] m.parents@[i]) && wfo(m.parents@[i]) by { if i < m0.parents@.len() { assert(m.parents@[i] == m0.parents@[i]); } }
}
pub proof fn lemma_step_a(a: ArrayPredictionContext, b: ArrayPredictionContext, i: int, j: int, m0: ArrayPredictionContext, m: ArrayPredictionContext, w: bool)
    requires awf(a), awf(b), pwf(m0), 0 <= i < a.return_states@.len(), 0 <= j <= b.return_states@.len(), kunion(akids(a).take(i), akids(b).take(j), akids(m0), w),
        below(m0.return_states@, a, i), below(m0.return_states@, b, j), j < b.return_states@.len() ==> a.return_states@[i] < b.return_states@[j], grown(m0, m, a.return_states@[i], a.parents@[i])
    ensures pwf(m), kunion(akids(a).take(i + 1), akids(b).take(j), akids(m), w), below(m.return_states@, a, i + 1), below(m.return_states@, b, j)
{
    assert(rs_ok(a.return_states@[i] as int, a.parents@[i]) && wfo(a.parents@[i]));
    lemma_grown(m0, m, a.return_states@[i], a.parents@[i]);
    let e = Edge { rs: a.return_states@[i] as int, par: a.parents@[i] };
    assert(akids(a).take(i + 1) =~= akids(a).take(i).push(e));
    lemma_add(akids(a).take(i), akids(b).take(j), akids(m0), e, w);
}
pub proof fn lemma_step1(a: ArrayPredictionContext, b: ArrayPredictionContext, i: int, m0: ArrayPredictionContext, m: ArrayPredictionContext, w: bool)
    requires awf(a), awf(b), pwf(m0), 0 <= i < a.return_states@.len(), kunion(akids(a).take(i), akids(b), akids(m0), w), below(m0.return_states@, a, i), grown(m0, m, a.return_states@[i], a.parents@[i])
    ensures pwf(m), kunion(akids(a).take(i + 1), akids(b), akids(m), w), below(m.return_states@, a, i + 1)
{
    let n = b.return_states@.len() as int;
    assert(akids(b).take(n) =~= akids(b));
    lemma_step_a(a, b, i, n, m0, m, w);
}
pub proof fn lemma_add(a: Seq<Edge>, b: Seq<Edge>, m: Seq<Edge>, e: Edge, w: bool)
    requires kunion(a, b, m, w)
    ensures kunion(a.push(e), b, m.push(e), w)
{
    assert forall|s: Seq<int>| #[trigger] satk(m.push(e), s, w) == (satk(a.push(e), s, w) || satk(b, s, w)) by { lemma_push(m, e, s, w); lemma_push(a, e, s, w); }
    assert forall|s: Seq<int>| #[trigger] satk(m.push(e), s, false) implies satk(a.push(e), s, false) || satk(b, s, false) by { lemma_push(m, e, s, false); lemma_push(a, e, s, false); let _ = satk(m, s, false); }
}
pub open spec fn eunion(x: Edge, y: Edge, e: Edge, w: bool) -> bool {
    &&& forall|s: Seq<int>| #[trigger] sat1(e, s, w) == (sat1(x, s, w) || sat1(y, s, w))
    &&& forall|s: Seq<int>| #[trigger] sat1(e, s, false) ==> sat1(x, s, false) || sat1(y, s, false)
}
pub proof fn lemma_add2(a: Seq<Edge>, b: Seq<Edge>, m: Seq<Edge>, x: Edge, y: Edge, e: Edge, w: bool)
    requires kunion(a, b, m, w), eunion(x, y, e, w)
    ensures kunion(a.push(x), b.push(y), m.push(e), w)
{
    assert forall|s: Seq<int>| #[trigger] satk(m.push(e), s, w) == (satk(a.push(x), s, w) || satk(b.push(y), s, w)) by { lemma_push(m, e, s, w); lemma_push(a, x, s, w); lemma_push(b, y, s, w); let _ = sat1(e, s, w); let _ = satk(m, s, w); }
    assert forall|s: Seq<int>| #[trigger] satk(m.push(e), s, false) implies satk(a.push(x), s, false) || satk(b.push(y), s, false) by { lemma_push(m, e, s, false); lemma_push(a, x, s, false); lemma_push(b, y, s, false); let _ = sat1(e, s, false); let _ = satk(m, s, false); }
}
// the edge made from two edges with the same return state
pub open spec fn combined(p: Par, q: Par, r: Par, w: bool) -> bool {
    wfo(r) && match (p, q, r) { (None, None, None) => true, (Some(x), Some(y), Some(z)) => is_union(*x, *y, *z, w), _ => false }
}
pub proof fn lemma_combined_edge(rs: int, p: Par, q: Par, r: Par, w: bool)
    requires combined(p, q, r, w)
    ensures eunion(Edge { rs, par: p }, Edge { rs, par: q }, Edge { rs, par: r }, w)
{
    let (x, y, e) = (Edge { rs, par: p }, Edge { rs, par: q }, Edge { rs, par: r });
    assert forall|s: Seq<int>| #[trigger] sat1(e, s, w) == (sat1(x, s, w) || sat1(y, s, w)) by { match (p, q, r) { (Some(a), Some(b), Some(c)) => { let _ = satk(kids(*c), s.skip(1), w); }, _ => {} } }
    assert forall|s: Seq<int>| #[trigger] sat1(e, s, false) implies sat1(x, s, false) || sat1(y, s, false) by { match (p, q, r) { (Some(a), Some(b), Some(c)) => { let _ = satk(kids(*c), s.skip(1), false); }, _ => {} } }
}
pub proof fn lemma_step2(a: ArrayPredictionContext, b: ArrayPredictionContext, i: int, j: int, m0: ArrayPredictionContext, m: ArrayPredictionContext, w: bool)
    requires awf(a), awf(b), pwf(m0), 0 <= i < a.return_states@.len(), 0 <= j < b.return_states@.len(), kunion(akids(a).take(i), akids(b).take(j), akids(m0), w),
        below(m0.return_states@, a, i), below(m0.return_states@, b, j), a.return_states@[i] == b.return_states@[j], m.parents@.len() > 0, grown(m0, m, a.return_states@[i], m.parents@.last()), combined(a.parents@[i], b.parents@[j], m.parents@.last(), w)
    ensures pwf(m), kunion(akids(a).take(i + 1), akids(b).take(j + 1), akids(m), w), below(m.return_states@, a, i + 1), below(m.return_states@, b, j + 1)
{
    let p = m.parents@.last(); let rs = a.return_states@[i];
    assert(rs_ok(rs as int, a.parents@[i]));
    lemma_grown(m0, m, rs, p);
    assert(akids(a).take(i + 1) =~= akids(a).take(i).push(akids(a)[i]));
    assert(akids(b).take(j + 1) =~= akids(b).take(j).push(akids(b)[j]));
    lemma_combined_edge(rs as int, a.parents@[i], b.parents@[j], p, w);
    lemma_add2(akids(a).take(i), akids(b).take(j), akids(m0), akids(a)[i], akids(b)[j], Edge { rs: rs as int, par: p }, w);
}
pub proof fn lemma_combined(a: ArrayPredictionContext, b: ArrayPredictionContext, m1: ArrayPredictionContext, m: ArrayPredictionContext, w: bool)
    requires awf(a), awf(b), awf(m1), awf(m), asame(m, m1), kunion(akids(a), akids(b), akids(m1), w)
    ensures kunion(akids(a), akids(b), akids(m), w)
{
    lemma_same(Array(m), Array(m1));
    assert forall|s: Seq<int>| #[trigger] satk(akids(m), s, w) == (satk(akids(a), s, w) || satk(akids(b), s, w)) by { lemma_same_sat(Array(m), Array(m1), s, w); let _ = satk(akids(m1), s, w); }
    assert forall|s: Seq<int>| #[trigger] satk(akids(m), s, false) implies (satk(akids(a), s, false) || satk(akids(b), s, false)) by { lemma_same_sat(Array(m), Array(m1), s, false); let _ = satk(akids(m1), s, false); }
}
pub fn opt_par_eq(a: &Par, b: &Par) -> (r: bool) requires wfo(*a), wfo(*b) ensures r == sameo(*a, *b)
{ match (a, b) { (Some(x), Some(y)) => PredictionContext::eq(&**x, &**y), (None, None) => true, _ => false } }
pub fn opt_arc_eq(a: Option<&Arc<PC>>, b: Option<&Arc<PC>>) -> (r: bool)
    requires match a { Some(x) => wf(**x), None => true }, match b { Some(x) => wf(**x), None => true }
    ensures r == (match (a, b) { (Some(x), Some(y)) => same(**x, **y), (None, None) => true, _ => false })
{ match (a, b) { (Some(x), Some(y)) => PredictionContext::eq(&**x, &**y), (None, None) => true, _ => false } }
pub proof fn lemma_reflo(p: Par) ensures sameo(p, p) { match p { Some(c) => lemma_refl(d(c)), None => {} } }
// ---------- the functions ---------------------------------------------------------------------------
//@ fn src/prediction_context.rs opt_eq
//@ sig
fn opt_eq(arg: (&Par, &Par)) -> (r: bool)
    requires wfo(*arg.0), wfo(*arg.1)
    ensures r == sameo(*arg.0, *arg.1)
    decreases hto(*arg.0), 0int
//@ rewrite Arc::ptr_eq(s, o) || *s == *o => ({ let __p = ptr_eq(s, o); proof { if __p { lemma_refl(dr(s)); } } __p }) || PredictionContext::eq(&**s, &**o)
//@ end
impl ArrayPredictionContext {
//@ fn src/prediction_context.rs PartialEq for ArrayPredictionContext::eq {ret=r nopub}
    requires wf(Array(*self)), wf(Array(*other))
    ensures r == same(Array(*self), Array(*other))
    decreases htk(*self), 1int
//@ rewrite self.return_states == other.return_states => veq(&self.return_states, &other.return_states)
//@ rewrite self.parents.iter().zip(other.parents.iter()).all(opt_eq) => ({ let mut gi: usize = 0; let mut res = true; \
    while gi < self.parents.len() && gi < other.parents.len() \
    invariant_except_break res, forall|i: int| 0 <= i < gi ==> sameo(#[trigger] self.parents@[i], other.parents@[i]) \
    invariant gi <= self.parents@.len(), self.parents@.len() == other.parents@.len(), awf(*self), awf(*other), \
    ensures res == (forall|i: int| 0 <= i < self.parents@.len() ==> sameo(#[trigger] self.parents@[i], other.parents@[i])) decreases self.parents.len() - gi \
    { proof { lemma_hta(*self, self.parents@.len() as int, gi as int); assert(wfo(self.parents@[gi as int]) && wfo(other.parents@[gi as int])); } \
      if !opt_eq((&self.parents[gi], &other.parents[gi])) { res = false; break; } gi = gi + 1; } res })
//@ at fn start
    proof { lemma_wf(Array(*self)); lemma_wf(Array(*other)); lemma_same(Array(*self), Array(*other)); if same(Array(*self), Array(*other)) { lemma_same_hash(Array(*self), Array(*other)); } }
//@ end
}
impl SingletonPredictionContext {
//@ fn src/prediction_context.rs PartialEq for SingletonPredictionContext::eq {ret=r nopub}
    requires wf(Singleton(*self)), wf(Singleton(*other))
    ensures r == same(Singleton(*self), Singleton(*other))
    decreases ht(Singleton(*self)), 1int
//@ at fn start
    proof { lemma_wf(Singleton(*self)); lemma_wf(Singleton(*other)); lemma_same(Singleton(*self), Singleton(*other)); if same(Singleton(*self), Singleton(*other)) { lemma_same_hash(Singleton(*self), Singleton(*other)); } }
//@ end
//@ fn src/prediction_context.rs SingletonPredictionContext::is_empty {ret=r}
    ensures r == (self.return_state == PREDICTION_CONTEXT_EMPTY_RETURN_STATE && self.parent_ctx is None)
//@ rewrite self.parent_ctx == None => self.parent_ctx.is_none()
//@ end
}
pub open spec fn rehashed(o: PC, n: PC) -> bool {
    hashed(n) && match (o, n) { (Singleton(x), Singleton(y)) => x.return_state == y.return_state && x.parent_ctx == y.parent_ctx, (Array(x), Array(y)) => x.return_states == y.return_states && x.parents == y.parents, _ => false }
}
impl PredictionContext {
//@ fn src/prediction_context.rs PartialEq for PredictionContext::eq {ret=r nopub}
    requires wf(*self), wf(*other)
    ensures r == same(*self, *other)
    decreases ht(*self), 2int
//@ rewrite *s == *o => s.eq(o)
//@ end
//@ fn src/prediction_context.rs PredictionContext::new_array {ret=r}
    ensures r == Array(ArrayPredictionContext { cached_hash: 0, parents, return_states })
//@ end
//@ fn src/prediction_context.rs PredictionContext::new_singleton {ret=r}
    ensures hashed(r), r matches Singleton(s) && s.parent_ctx == parent_ctx && s.return_state == return_state
//@ rewrite __e.modify_with(|x| x.calc_hash()) => { let mut x = __e; x.calc_hash(); x }
//@ end
//@ fn src/prediction_context.rs PredictionContext::new_empty {ret=r}
    ensures is_bottom(r)
//@ end
//@ fn src/prediction_context.rs PredictionContext::calc_hash
    ensures rehashed(*old(self), *final(self))
//@ at before let hash =
    proof { assert(hasher.w() =~= writes(*old(self))); }
//@ at fn end
    proof { assert(writes(*self) =~= writes(*old(self))); }
//@ rewrite match self { PredictionContext::Singleton(SingletonPredictionContext { cached_hash, .. }) | PredictionContext::Array(ArrayPredictionContext { cached_hash, .. }) => __body, } ==>> match self { PredictionContext::Singleton(SingletonPredictionContext { cached_hash, .. }) => __body, PredictionContext::Array(ArrayPredictionContext { cached_hash, .. }) => __body }
//@ rewrite parents.iter().for_each(|x| { __body }) => { let mut gi: usize = 0; while gi < parents.len() invariant gi <= parents@.len(), hasher.w() == Seq::new(gi as nat, |i: int| hco(parents@[i])) decreases parents.len() - gi \
    { let x = &parents[gi]; { __body } gi = gi + 1; proof { assert(hasher.w() =~= Seq::new(gi as nat, |i: int| hco(parents@[i]))); } } }
//@ rewrite return_states.iter().for_each(|x| __body) => { let mut gi: usize = 0; let ghost w0 = hasher.w(); while gi < return_states.len() invariant gi <= return_states@.len(), hasher.w() == w0 + Seq::new(gi as nat, |i: int| return_states@[i] as i32 as int) decreases return_states.len() - gi \
    { let x = &return_states[gi]; { __body } gi = gi + 1; proof { assert(hasher.w() =~= w0 + Seq::new(gi as nat, |i: int| return_states@[i] as i32 as int)); } } }
//@ end
//@ fn src/prediction_context.rs PredictionContext::get_parent {ret=r}
    requires self is Array ==> index < kids(*self).len() && index < self->Array_0.parents@.len(), self is Singleton ==> index == 0
    ensures (match r { Some(p) => Some(*p), None => None }) == kids(*self)[index as int].par
//@ rewrite singleton.parent_ctx.as_ref() => (match &singleton.parent_ctx { Some(__x) => Some(__x), None => None })
//@ rewrite array.parents[index].as_ref() => (match &array.parents[index] { Some(__x) => Some(__x), None => None })
//@ end
//@ fn src/prediction_context.rs PredictionContext::get_return_state {ret=r}
    requires index < kids(*self).len()
    ensures r == kids(*self)[index as int].rs
//@ end
//@ fn src/prediction_context.rs PredictionContext::length {ret=r}
    ensures r == kids(*self).len()
//@ end
//@ fn src/prediction_context.rs PredictionContext::is_empty {ret=r}
    requires wf(*self)
    ensures r == (kids(*self).len() == 1 && kids(*self)[0].par is None)
//@ at fn start
    proof { lemma_wf(*self); match self { Array(a) => { let _ = a.parents@[0]; if a.return_states@.len() > 1 { let _ = a.parents@[1]; assert(a.return_states@[0] < a.return_states@[1]); assert(rs_ok(a.return_states@[1] as int, a.parents@[1])); } assert(rs_ok(a.return_states@[0] as int, a.parents@[0])); }, _ => {} } }
//@ end
//@ fn src/prediction_context.rs PredictionContext::has_empty_path {ret=r}
    requires wf(*self)
    ensures r == sat(*self, Seq::empty(), false)
//@ at fn start
    proof { lemma_wf(*self); let k = kids(*self); let n = k.len() - 1; let e = Seq::<int>::empty();
        match self { Array(a) => { assert(forall|i: int| 0 <= i <= n ==> k[i].par == a.parents@[i]); assert(rs_ok(a.return_states@[n] as int, a.parents@[n])); }, _ => {} }
        assert(rs_ok(k[n].rs, k[n].par));
        if k[n].par is None { assert(sat1(k[n], e, false)); }
        lemma_sat(k, e, false); if satk(k, e, false) { let i = choose|i: int| 0 <= i < k.len() && #[trigger] sat1(k[i], e, false); assert(k[i].par is None); match self { Array(a) => { assert(rs_ok(a.return_states@[i] as int, a.parents@[i])); if i < n { assert(a.return_states@[i] < a.return_states@[n]); } }, _ => {} } } }
//@ end
//@ fn src/prediction_context.rs PredictionContext::hash_code {ret=r}
    ensures r == hc(*self)
//@ end
//@ fn src/prediction_context.rs PredictionContext::to_array
//@ sig
fn to_array(&self) -> (r: CowArray<'_>)
    ensures shape(*self) ==> akids(r.val()) =~= kids(*self) && htk(r.val()) == ht(*self) && awf(r.val())
//@ rewrite Cow::Owned(__e) => ({ let oa = __e; proof { assert(oa.parents@ =~= seq![s.parent_ctx]); assert(oa.parents@[0] == s.parent_ctx); assert(hta(oa, 0) == 0); assert(hta(oa, 1) == hto(s.parent_ctx)); assert(htk(oa) == ht(*self)); assert(akids(oa) =~= kids(*self)); } CowArray::Owned(oa) })
//@ rewrite Cow::Borrowed(__e) => CowArray::Borrowed(__e)
//@ rewrite vec![s.parent_ctx.clone()] => vec![oclone(&s.parent_ctx)]
//@ end
//@ fn src/prediction_context.rs PredictionContext::alloc
//@ sig
fn alloc(self) -> (r: Arc<PredictionContext>)
    ensures rehashed(self, *r), shape(self) ==> wf(*r), kids(*r) =~= kids(self)
//@ rewrite self.calc_hash(); => let mut this = self; this.calc_hash();
//@ rewrite Arc::new(self) => Arc::new(this)
//@ at fn end
    proof { lemma_wf(this); }
//@ end
//@ fn src/prediction_context.rs PredictionContext::merge
//@ sig
fn merge(a: &Arc<PC>, b: &Arc<PC>, root_is_wildcard: bool, merge_cache: &mut MergeCache) -> (r: Arc<PC>)
    requires wf(**a), wf(**b), old(merge_cache).ok(root_is_wildcard)
    ensures wf(*r), is_union(**a, **b, *r, root_is_wildcard), final(merge_cache).ok(root_is_wildcard)
    decreases ht(**a), 2int
//@ rewrite Arc::ptr_eq(a, b) || **a == **b => ptr_eq(a, b) || PredictionContext::eq(&**a, &**b)
//@ rewrite return a.clone(); => { proof { if !same(dr(a), dr(b)) { lemma_refl(dr(a)); } lemma_same_union(dr(a), dr(b), root_is_wildcard); } return a.clone(); }
//@ rewrite if let Some(cache) = merge_cache { __body } => { let cache = &mut *merge_cache; if cache.present() { __body } }
//@ rewrite __c.get(__k).or_else(|| __d) => (match __c.get(__k) { Some(__x) => Some(__x), None => __d })
//@ rewrite return old.clone(); => { proof { lemma_cached(*cache, dr(a), dr(b), dr(old), root_is_wildcard); } return old.clone(); }
//@ rewrite return EMPTY_PREDICTION_CONTEXT.clone(); => { let r = empty_context(); proof { lemma_wild_bottom(dr(a), dr(b), d(r)); } return r; }
//@ rewrite? assert_ne!(r.hash_code(), 0) => vassert(r.hash_code() != 0)
//@ rewrite (a.deref(), b.deref()) => (&**a, &**b)
//@ rewrite Self::merge_arrays(sa.to_array(), sb.to_array(), root_is_wildcard, merge_cache).alloc() => ({ let ca = sa.to_array(); let cb = sb.to_array(); let m = Self::merge_arrays(ca.get(), cb.get(), root_is_wildcard, merge_cache); m.alloc() })
//@ rewrite cache.insert((__a, __b), __r); => { let ghost c0 = *cache; cache.insert((__a, __b), __r); proof { lemma_store(c0, *cache, dr(a), dr(b), d(r), root_is_wildcard); } }
//@ rewrite let result = if &*result == sa { __x } else if &*result == sb { __y } else { __z }; => let ghost r0 = d(result); let result = if PredictionContext::eq(&*result, sa) { __x } else if PredictionContext::eq(&*result, sb) { __y } else { __z }; \
    proof { lemma_wf(r0); lemma_refl(r0); lemma_refl(dr(a)); lemma_refl(dr(b)); if same(r0, d(result)) { lemma_union_same(dr(a), dr(b), r0, dr(a), dr(b), d(result), root_is_wildcard); } }
//@ at fn start
    proof { lemma_wf(dr(a)); lemma_wf(dr(b)); }
//@ end
//@ fn src/prediction_context.rs PredictionContext::merge_singletons
//@ sig
fn merge_singletons(a: &SingletonPredictionContext, b: &SingletonPredictionContext, root_is_wildcard: bool, merge_cache: &mut MergeCache) -> (r: Arc<PC>)
    requires swf(*a), swf(*b), old(merge_cache).ok(root_is_wildcard)
    ensures wf(*r), kunion(skids(*a), skids(*b), kids(*r), root_is_wildcard), final(merge_cache).ok(root_is_wildcard)
    decreases ht(Singleton(*a)), 1int
//@ rewrite a.parent_ctx == b.parent_ctx => opt_par_eq(&a.parent_ctx, &b.parent_ctx)
//@ rewrite a.parent_ctx.as_ref() => (match &a.parent_ctx { Some(__x) => Some(__x), None => None })
//@ rewrite b.parent_ctx.as_ref() => (match &b.parent_ctx { Some(__x) => Some(__x), None => None })
//@ rewrite Arc::ptr_eq(__a, __b) => ptr_eq(__a, __b)
//@ rewrite result.return_states.windows(2).all(|x| __body) => ({ let mut gi: usize = 0; let mut res = true; \
    while gi + 1 < result.return_states.len() \
    invariant_except_break res, gi > 0 ==> result.return_states@[0] <= result.return_states@[1] \
    invariant result.return_states@.len() == 2, gi <= 1, \
    ensures res == (result.return_states@[0] <= result.return_states@[1]) decreases result.return_states.len() - gi \
    { let x = [result.return_states[gi], result.return_states[gi + 1]]; if !(__body) { res = false; break; } gi = gi + 1; } res })
//@ rewrite result.parents.swap(0, 1) => vswap(&mut result.parents, 0, 1)
//@ rewrite result.return_states.swap(0, 1) => vswap(&mut result.return_states, 0, 1)
//@ rewrite vec![a.parent_ctx.clone(), a.parent_ctx.clone()] => vec![oclone(&a.parent_ctx), oclone(&a.parent_ctx)]
//@ rewrite vec![a.parent_ctx.clone(), b.parent_ctx.clone()] => vec![oclone(&a.parent_ctx), oclone(&b.parent_ctx)]
//@ rewrite Array(result) => ({ proof { lemma_shape2(Array(result)); } Array(result) })
//@ rewrite __e.unwrap_or_else(|| { __body }) => match __e { Some(r) => r, None => { let r = { __body }; proof { lemma_reflo(a.parent_ctx); lemma_reflo(b.parent_ctx); assert(kids(d(r)).len() > 0); lemma_single(*a, *b, d(r), root_is_wildcard); } r } }
//@ end
//@ fn src/prediction_context.rs PredictionContext::merge_root {ret=r}
    requires swf(*a), swf(*b)
    ensures match r { Some(c) => wf(*c) && kunion(skids(*a), skids(*b), kids(*c), root_is_wildcard), None => a.parent_ctx is Some && b.parent_ctx is Some }
//@ rewrite EMPTY_PREDICTION_CONTEXT.clone() => empty_context()
//@ rewrite vec![b.parent_ctx.clone(), None] => vec![oclone(&b.parent_ctx), None]
//@ rewrite vec![a.parent_ctx.clone(), None] => vec![oclone(&a.parent_ctx), None]
//@ rewrite Self::new_array(__p, __q).alloc() => ({ let na = Self::new_array(__p, __q); proof { lemma_shape2(na); } na.alloc() })
//@ rewrite return Some(__e); => { let rr = __e; proof { lemma_root(*a, *b, d(rr), root_is_wildcard); } return Some(rr); }
//@ end
//@ fn src/prediction_context.rs PredictionContext::combine_common_parents
    requires awf(*old(array))
    ensures asame(*final(array), *old(array)), awf(*final(array))
//@ rewrite HashMap::<Option<Arc<PredictionContext>>, Option<Arc<PredictionContext>>>::new() => UniqMap::new()
//@ rewrite for p in 0..array.parents.len() { __body } => proof { assert(uniq_ok(uniq_parents)) by { reveal(uniq_ok); } } let mut gp: usize = 0; \
    while gp < array.parents.len() invariant *array == *old(array), awf(*array), gp <= array.parents@.len(), uniq_ok(uniq_parents), forall|i: int| 0 <= i < gp ==> uniq_parents.known(#[trigger] array.parents@[i]) decreases array.parents.len() - gp \
    { let p = gp; let ghost u0 = uniq_parents; proof { assert(wfo(array.parents@[p as int])); lemma_reflo(array.parents@[p as int]); } __body \
      proof { if u0 != uniq_parents { lemma_uniq_insert(u0, uniq_parents, array.parents@[p as int]); } } gp = gp + 1; }
//@ rewrite array.parents[p].as_ref().cloned() => oclone(&array.parents[p])
//@ rewrite uniq_parents.insert(parent.clone(), parent.clone()) => uniq_parents.insert(oclone(&parent), oclone(&parent))
//@ rewrite array.parents.iter_mut().for_each(|parent| { __body }) => let ghost a0 = *array; let mut gi: usize = 0; \
    while gi < array.parents.len() invariant gi <= array.parents@.len(), array.parents@.len() == a0.parents@.len(), array.return_states == a0.return_states, awf(a0), uniq_ok(uniq_parents), \
        forall|i: int| 0 <= i < a0.parents@.len() ==> uniq_parents.known(#[trigger] a0.parents@[i]), \
        forall|i: int| gi <= i < a0.parents@.len() ==> #[trigger] array.parents@[i] == a0.parents@[i], \
        forall|i: int| 0 <= i < gi ==> sameo(#[trigger] array.parents@[i], a0.parents@[i]) && wfo(array.parents@[i]) decreases array.parents.len() - gi \
    { let ghost q = array.parents@[gi as int]; assert(uniq_parents.known(a0.parents@[gi as int])); { let parent = &mut array.parents[gi]; __body } \
      proof { lemma_uniq_get(uniq_parents, q, array.parents@[gi as int]); } gi = gi + 1; } \
    proof { assert(asame(*array, a0)); assert forall|i: int| 0 <= i < array.parents@.len() implies rs_ok(array.return_states@[i] as int, #[trigger] array.parents@[i]) && wfo(array.parents@[i]) by { let _ = a0.parents@[i]; } }
//@ rewrite (*uniq_parents.get(parent).unwrap()).clone() => oclone(uniq_parents.get(&*parent).unwrap())
//@ end
//@ fn src/prediction_context.rs PredictionContext::merge_arrays
//@ sig
fn merge_arrays(a: &ArrayPredictionContext, b: &ArrayPredictionContext, root_is_wildcard: bool, merge_cache: &mut MergeCache) -> (r: PC)
    requires awf(*a), awf(*b), old(merge_cache).ok(root_is_wildcard)
    ensures shape(r), kunion(akids(*a), akids(*b), kids(r), root_is_wildcard), final(merge_cache).ok(root_is_wildcard)
    decreases htk(*a), 1int
//@ rewrite a.parents[i].as_ref() => (match &a.parents[i] { Some(__x) => Some(__x), None => None })
//@ rewrite b.parents[j].as_ref() => (match &b.parents[j] { Some(__x) => Some(__x), None => None })
//@ rewrite a_parent.cloned() => ocloned(a_parent)
//@ rewrite b_parent.cloned() => ocloned(b_parent)
//@ rewrite a.parents[p].clone() => oclone(&a.parents[p])
//@ rewrite b.parents[p].clone() => oclone(&b.parents[p])
//@ rewrite merged.parents[0].clone() => oclone(&merged.parents[0])
//@ rewrite a_parent == b_parent => opt_arc_eq(a_parent, b_parent)
//@ rewrite merged.return_states.shrink_to_fit() => vshrink(&mut merged.return_states)
//@ rewrite merged.parents.shrink_to_fit() => vshrink(&mut merged.parents)
//@ rewrite for p in i..a.return_states.len() { __body } => let mut gp: usize = i; while gp < a.return_states.len() \
    invariant awf(*a), awf(*b), j == b.return_states@.len(), i <= gp <= a.return_states@.len(), pwf(merged), merged.return_states@.len() > 0, below(merged.return_states@, *a, gp as int), j == b.return_states@.len(), kunion(akids(*a).take(gp as int), akids(*b), akids(merged), root_is_wildcard) decreases a.return_states.len() - gp \
    { let p = gp; let ghost m0 = merged; __body proof { lemma_step1(*a, *b, gp as int, m0, merged, root_is_wildcard); } gp = gp + 1; }
//@ rewrite for p in j..b.return_states.len() { __body } => let mut gp: usize = j; while gp < b.return_states.len() \
    invariant awf(*a), awf(*b), j <= gp <= b.return_states@.len(), pwf(merged), merged.return_states@.len() > 0, below(merged.return_states@, *b, gp as int), kunion(akids(*b).take(gp as int), akids(*a), akids(merged), root_is_wildcard) decreases b.return_states.len() - gp \
    { let p = gp; let ghost m0 = merged; __body proof { lemma_step1(*b, *a, gp as int, m0, merged, root_is_wildcard); } gp = gp + 1; }
//@ rewrite PredictionContext::combine_common_parents(&mut merged); => let ghost m1 = merged; proof { assert(akids(*a).take(a.return_states@.len() as int) =~= akids(*a)); assert(akids(*b).take(b.return_states@.len() as int) =~= akids(*b)); assert(awf(m1)); } PredictionContext::combine_common_parents(&mut merged); proof { lemma_combined(*a, *b, m1, merged, root_is_wildcard); }
//@ at fn start
    proof { lemma_len(*a); lemma_len(*b); }
//@ loop 0 while
    invariant awf(*a), awf(*b), i <= a.return_states@.len(), j <= b.return_states@.len(), pwf(merged), merge_cache.ok(root_is_wildcard),
        i + j > 0 ==> merged.return_states@.len() > 0,
        below(merged.return_states@, *a, i as int), below(merged.return_states@, *b, j as int),
        kunion(akids(*a).take(i as int), akids(*b).take(j as int), akids(merged), root_is_wildcard)
    decreases a.return_states@.len() - i + b.return_states@.len() - j
//@ at loop 0 start
    let ghost m0 = merged; let ghost (i0, j0) = (i as int, j as int); let ghost c0 = *merge_cache;
    proof { assert(rs_ok(a.return_states@[i0] as int, a.parents@[i0]) && wfo(a.parents@[i0])); assert(rs_ok(b.return_states@[j0] as int, b.parents@[j0]) && wfo(b.parents@[j0])); lemma_hta(*a, a.parents@.len() as int, i0); }
//@ at loop 0 end
    proof {
        match (a.parents@[i0], b.parents@[j0]) { (Some(x), Some(y)) => { lemma_wf(d(x)); lemma_wf(d(y)); if same(d(x), d(y)) { lemma_same_union(d(x), d(y), root_is_wildcard); } }, _ => {} }
        if i > i0 && j > j0 { lemma_step2(*a, *b, i0, j0, m0, merged, root_is_wildcard); }
        else if i > i0 { lemma_step_a(*a, *b, i0, j0, m0, merged, root_is_wildcard); }
        else { lemma_union_comm(akids(*a).take(i0), akids(*b).take(j0), akids(m0), root_is_wildcard); lemma_step_a(*b, *a, j0, i0, m0, merged, root_is_wildcard); lemma_union_comm(akids(*b).take(j0 + 1), akids(*a).take(i0), akids(merged), root_is_wildcard); }
    }
//@ at loop 0 after
    proof {
        if j == b.return_states@.len() { assert(akids(*b).take(j as int) =~= akids(*b)); }
        if i == a.return_states@.len() { assert(akids(*a).take(i as int) =~= akids(*a)); }
    }
//@ end
}
pub enum CowArray<'a> { Owned(ArrayPredictionContext), Borrowed(&'a ArrayPredictionContext) }
impl<'a> CowArray<'a> {
    pub open spec fn val(&self) -> ArrayPredictionContext { match *self { CowArray::Owned(a) => a, CowArray::Borrowed(a) => *a } }
    pub fn get(&self) -> (r: &ArrayPredictionContext) ensures *r == self.val() { match self { CowArray::Owned(a) => a, CowArray::Borrowed(a) => a } }
}
}
fn main() {}
