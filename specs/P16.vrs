#![allow(unused)]
#![allow(nonstandard_style)]
#![verifier::exec_allows_no_decreases_clause]
#![verifier::allow(decreases_when_exec_allows_no_decreases_clause)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/int_stream.rs const EOF
//@ item src/token.rs const TOKEN_EOF
//@ item src/token.rs const TOKEN_EPSILON
//@ item src/token.rs const TOKEN_INVALID_TYPE
//@ item src/token.rs const TOKEN_MIN_USER_TOKEN_TYPE
//@ include iset_contract.inc
//@ item src/transition.rs enum TransitionType {derive=Structural,PartialEq,Eq,Clone,Copy}
use TransitionType::TRANSITION_NOTSET;
pub type TSet = spec_fn(int) -> bool;
impl IntervalSet {
    // modify_with(|r| r.read_only = true)
    #[verifier::external_body]
    pub fn set_read_only(self) -> (r: IntervalSet) ensures r.wf() == self.wf(), forall|x: int| (#[trigger] r.mem(x)) == self.mem(x) { unimplemented!() }
}

// ---------- the automaton ---------------------------------------------------------------------
#[verifier::external_body]
pub struct Trans { x: usize }
impl Trans {
    pub uninterp spec fn kind(&self) -> TransitionType;
    pub uninterp spec fn target(&self) -> int;
    pub uninterp spec fn follow(&self) -> int;
    pub uninterp spec fn label(&self) -> Option<TSet>;   // of a negated set: the excluded set (P02)
    pub open spec fn is_rule(&self) -> bool { self.kind() == TransitionType::TRANSITION_RULE }
    pub open spec fn is_pred(&self) -> bool { self.kind() == TransitionType::TRANSITION_PREDICATE || self.kind() == TransitionType::TRANSITION_PRECEDENCE }
    pub open spec fn is_wild(&self) -> bool { self.kind() == TransitionType::TRANSITION_WILDCARD }
    // matches no token
    pub open spec fn empty(&self) -> bool { self.is_pred() || self.kind() == TransitionType::TRANSITION_EPSILON || self.kind() == TransitionType::TRANSITION_ACTION }
    pub open spec fn ok(&self) -> bool { (self.is_rule() || self.empty() || self.is_wild()) == (self.label() is None) }
    pub fn as_ref(&self) -> (r: &Trans) ensures r == self { self }
    #[verifier::external_body]
    pub fn get_target(&self) -> (r: usize) ensures r == self.target() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_serialization_type(&self) -> (r: TransitionType) ensures r == self.kind() { unimplemented!() }
    // rule transitions count as epsilon, too
    #[verifier::external_body]
    pub fn is_epsilon(&self) -> (r: bool) ensures r == (self.empty() || self.is_rule()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_label(&self) -> (r: Option<IntervalSet>)
        ensures match r { Some(s) => s.wf() && self.label() is Some && forall|x: int| (#[trigger] s.mem(x)) == (self.label()->0)(x), None => self.label() is None } { unimplemented!() }
    // cast::<RuleTransition>().follow_state
    #[verifier::external_body]
    pub fn follow_state(&self) -> (r: usize) requires self.is_rule() ensures r == self.follow() { unimplemented!() }
}
// tokens a transition matches (vocabulary 1..=max)
pub open spec fn toks(t: Trans, max: int, x: int) -> bool {
    if t.is_wild() { 1 <= x <= max }
    else if t.label() is Some { if t.kind() == TransitionType::TRANSITION_NOTSET { 1 <= x <= max && !(t.label()->0)(x) } else { (t.label()->0)(x) } }
    else { false }
}
pub enum ATNStateType { RuleStopState, Other }
pub struct State { pub num: usize, pub rule: usize, pub kind: ATNStateType, pub trans: Vec<Trans>, pub cache: Option<IntervalSet> }
impl State {
    pub fn as_ref(&self) -> (r: &State) ensures r == self { self }
    pub fn get_state_number(&self) -> (r: usize) ensures r == self.num { self.num }
    pub fn get_rule_index(&self) -> (r: usize) ensures r == self.rule { self.rule }
    pub fn get_state_type(&self) -> (r: &ATNStateType) ensures r == &self.kind { &self.kind }
    pub fn get_transitions(&self) -> (r: &Vec<Trans>) ensures r == &self.trans { &self.trans }
}
pub struct ATN { pub states: Vec<State>, pub max_token_type: isize }
pub uninterp spec fn callee(f: int) -> int;   // the rule after which a parse goes on in state f
pub open spec fn st(a: ATN, s: int) -> State { a.states@[s] }
pub open spec fn is_stop(a: ATN, s: int) -> bool { st(a, s).kind is RuleStopState }
// what the deserializer guarantees (P15): transitions stay inside the automaton, and inside their rule except for calls
pub open spec fn tr_ok(a: ATN, s: int, t: Trans) -> bool {
    &&& t.ok() && (t.label() is Some ==> !(t.label()->0)(TOKEN_EPSILON as int)) && 0 <= t.target() < a.states@.len()
    &&& t.is_rule() ==> 0 <= t.follow() < a.states@.len() && callee(t.follow()) == st(a, t.target()).rule && st(a, t.follow()).rule == st(a, s).rule
    &&& t.empty() && !is_stop(a, s) ==> st(a, t.target()).rule == st(a, s).rule
}
pub open spec fn st_ok(a: ATN, s: int) -> bool { st(a, s).num == s && forall|i: int| 0 <= i < st(a, s).trans@.len() ==> tr_ok(a, s, #[trigger] st(a, s).trans@[i]) }
pub open spec fn atn_ok(a: ATN) -> bool { legal(a) && in_range(a.max_token_type as int) && in_range(a.states@.len() as int) && forall|s: int| 0 <= s < a.states@.len() ==> #[trigger] st_ok(a, s) }

// ---------- call stacks -------------------------------------------------------------------------
// states to go on in, innermost first; below the last one: the end of input (eof) or what is not known
pub ghost struct CV { pub eof: bool, pub st: Seq<int> }
#[verifier::external_body]
pub struct PC { x: usize }
// Arc<PredictionContext>, as `look` builds them: chains (P12)
impl PC {
    pub uninterp spec fn v(&self) -> CV;
    // (ghost) how many frames, counted from the bottom, were there when looking ahead began and have not been left
    pub uninterp spec fn base(&self) -> int;
    pub open spec fn ok(&self) -> bool { (self.v().st.len() > 0 || self.v().eof) && 0 <= self.base() <= self.v().st.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) requires self.ok() ensures r == (self.v().st.len() == 0) { unimplemented!() }
    // == EMPTY_PREDICTION_CONTEXT
    #[verifier::external_body]
    pub fn is_bottom(&self) -> (r: bool) requires self.ok() ensures r == (self.v().st.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn length(&self) -> (r: usize) ensures r == 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_return_state(&self, i: usize) -> (r: isize) requires i == 0, self.v().st.len() > 0 ensures r == self.v().st[0] { unimplemented!() }
    // get_parent(i).cloned()
    #[verifier::external_body]
    pub fn parent(&self, i: usize) -> (r: Option<PC>) requires i == 0, self.ok(), self.v().st.len() > 0
        ensures cv(r) == (CV { eof: self.v().eof, st: self.v().st.drop_first() }), cok(r), base(r) == (if self.base() < self.v().st.len() { self.base() } else { self.v().st.len() - 1 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_singleton(parent: Option<PC>, ret: isize) -> (r: PC) requires cok(parent)
        ensures r.ok(), r.v() == (CV { eof: cv(parent).eof, st: seq![ret as int] + cv(parent).st }), r.base() == base(parent) { unimplemented!() }
    #[verifier::external_body]
    pub fn bottom() -> (r: PC) ensures r.ok(), r.v() == (CV { eof: true, st: Seq::<int>::empty() }), r.base() == 0 { unimplemented!() }
    // a stack to look ahead from: all of it was there when looking ahead began
    #[verifier::external_body]
    pub fn outer(self) -> (r: PC) requires self.ok() ensures r.ok(), r.v() == self.v(), r.base() == self.v().st.len() { unimplemented!() }
}
pub open spec fn cv(c: Option<PC>) -> CV { match c { Some(p) => p.v(), None => CV { eof: false, st: Seq::<int>::empty() } } }
pub open spec fn cok(c: Option<PC>) -> bool { match c { Some(p) => p.ok(), None => true } }
pub open spec fn base(c: Option<PC>) -> int { match c { Some(p) => p.base(), None => 0 } }
#[verifier::external_body]
pub fn dup(c: &Option<PC>) -> (r: Option<PC>) ensures cv(r) == cv(*c), cok(r) == cok(*c), base(r) == base(*c) { unimplemented!() }

// ---------- what can come next -------------------------------------------------------------------
pub ghost struct Pos { pub s: int, pub c: CV }
pub open spec fn push(c: CV, f: int) -> CV { CV { eof: c.eof, st: seq![f] + c.st } }
pub open spec fn pop(c: CV) -> CV { CV { eof: c.eof, st: c.st.drop_first() } }
// one step that matches nothing
pub open spec fn succ_by(a: ATN, p: Pos, q: Pos, i: int) -> bool {
    let t = st(a, p.s).trans@[i];
    0 <= i < st(a, p.s).trans@.len() && q.s == t.target() && (if t.is_rule() { q.c == push(p.c, t.follow()) } else { t.empty() && q.c == p.c })
}
pub open spec fn succ(a: ATN, p: Pos, q: Pos) -> bool {
    if is_stop(a, p.s) { p.c.st.len() > 0 && q == (Pos { s: p.c.st[0], c: pop(p.c) }) }
    else { exists|i: int| #[trigger] succ_by(a, p, q, i) }
}
// tokens (or the end: EOF at the bottom of the stack, EPSILON at the end of the rule) found right here
pub open spec fn tok_by(a: ATN, p: Pos, x: int, i: int) -> bool { 0 <= i < st(a, p.s).trans@.len() && toks(st(a, p.s).trans@[i], a.max_token_type as int, x) }
pub open spec fn tok(a: ATN, p: Pos, x: int) -> bool {
    if is_stop(a, p.s) { p.c.st.len() == 0 && x == (if p.c.eof { TOKEN_EOF as int } else { TOKEN_EPSILON as int }) }
    else { exists|i: int| #[trigger] tok_by(a, p, x, i) }
}
pub open spec fn path(a: ATN, w: Seq<Pos>) -> bool { w.len() > 0 && forall|i: int| 0 <= i && i + 1 < w.len() ==> succ(a, #[trigger] w[i], w[i + 1]) }
pub open spec fn joins(a: ATN, w: Seq<Pos>, p: Pos, q: Pos) -> bool { path(a, w) && w[0] == p && w[w.len() - 1] == q }
pub open spec fn reach(a: ATN, p: Pos, q: Pos) -> bool { exists|w: Seq<Pos>| #[trigger] joins(a, w, p, q) }
// first tokens of everything derivable from here
pub open spec fn first(a: ATN, p: Pos, x: int) -> bool { exists|q: Pos| #[trigger] reach(a, p, q) && tok(a, q, x) }

pub proof fn lemma_step_first(a: ATN, p: Pos, q: Pos, x: int) requires succ(a, p, q), first(a, q, x) ensures first(a, p, x)
{
    let n = choose|n: Pos| #[trigger] reach(a, q, n) && tok(a, n, x);
    let w = choose|w: Seq<Pos>| #[trigger] joins(a, w, q, n);
    let v = seq![p] + w;
    assert forall|i: int| 0 <= i && i + 1 < v.len() implies succ(a, #[trigger] v[i], v[i + 1]) by { if i > 0 { assert(succ(a, w[i - 1], w[i - 1 + 1])); } }
    assert(joins(a, v, p, n)); assert(reach(a, p, n));
}
pub proof fn lemma_self(a: ATN, p: Pos) ensures reach(a, p, p) { assert(joins(a, seq![p], p, p)); }
// everything is explored: nothing escapes
pub open spec fn done(a: ATN, n: Pos, busy: ISet<Pos>, look: IntervalSet) -> bool {
    (forall|x: int| #[trigger] tok(a, n, x) ==> look.mem(x)) && (forall|m: Pos| #[trigger] succ(a, n, m) ==> busy.contains(m))
}
pub open spec fn all_done(a: ATN, new: ISet<Pos>, old: ISet<Pos>, look: IntervalSet) -> bool { forall|n: Pos| #[trigger] new.contains(n) && !old.contains(n) ==> done(a, n, new, look) }
pub proof fn lemma_closed(a: ATN, w: Seq<Pos>, k: int, busy: ISet<Pos>, look: IntervalSet)
    requires path(a, w), busy.contains(w[0]), all_done(a, busy, ISet::<Pos>::empty(), look), 0 <= k < w.len()
    ensures busy.contains(w[k])
    decreases k
{ if k > 0 { lemma_closed(a, w, k - 1, busy, look); assert(done(a, w[k - 1], busy, look)); assert(succ(a, w[k - 1], w[k - 1 + 1])); } }
// everything that can come first has been found
pub proof fn lemma_complete(a: ATN, p: Pos, busy: ISet<Pos>, look: IntervalSet, x: int)
    requires busy.contains(p), all_done(a, busy, ISet::<Pos>::empty(), look), first(a, p, x)
    ensures look.mem(x)
{
    let q = choose|q: Pos| #[trigger] reach(a, p, q) && tok(a, q, x);
    let w = choose|w: Seq<Pos>| #[trigger] joins(a, w, p, q);
    lemma_closed(a, w, w.len() - 1, busy, look);
    assert(done(a, q, busy, look));
}

// ---------- the positions already looked at (HashSet<ATNConfig>; equality of configurations is P11) --------
#[verifier::external_body]
pub struct Busy { x: usize }
impl Busy {
    pub uninterp spec fn s(&self) -> ISet<Pos>;
    #[verifier::external_body]
    pub fn new() -> (r: Busy) ensures r.s() == ISet::<Pos>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, c: Conf) -> (r: bool) ensures final(self).s() == old(self).s().insert(c.p@), r == !old(self).s().contains(c.p@) { unimplemented!() }
}
pub struct Conf { pub p: Ghost<Pos> }
impl Conf {
    #[verifier::external_body]
    pub fn new(s: usize, alt: isize, c: Option<PC>) -> (r: Conf) ensures r.p@ == (Pos { s: s as int, c: cv(c) }) { unimplemented!() }
}
#[verifier::external_body]
pub struct BitSet { x: usize }
impl BitSet {
    pub uninterp spec fn m(&self, r: int) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: BitSet) ensures forall|x: int| !#[trigger] r.m(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, i: usize) -> (r: bool) ensures r == self.m(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize) -> (r: bool) ensures forall|x: int| (#[trigger] final(self).m(x)) == (old(self).m(x) || x == i) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: bool) ensures forall|x: int| (#[trigger] final(self).m(x)) == (old(self).m(x) && x != i) { unimplemented!() }
}
// rules entered since looking ahead began and not left yet
pub open spec fn active(c: CV, d: int, r: int) -> bool { exists|i: int| 0 <= i < d && callee(#[trigger] c.st[i]) == r }
pub open spec fn same_bits(x: BitSet, y: BitSet) -> bool { forall|r: int| (#[trigger] x.m(r)) == y.m(r) }
// the stack fits the state: each frame called since then belongs to the rule the next one called, and none is entered twice
pub open spec fn fits(a: ATN, s: int, c: CV, d: int) -> bool {
    &&& 0 <= d <= c.st.len() && from(a, s, c, d)
    &&& forall|i: int| 0 <= i < c.st.len() ==> 0 <= #[trigger] c.st[i] < a.states@.len()
    &&& d > 0 ==> st(a, s).rule == callee(c.st[0])
    &&& forall|i: int| 0 <= i && i + 1 < d ==> st(a, #[trigger] c.st[i]).rule == callee(c.st[i + 1])
    &&& forall|i: int, j: int| 0 <= i < j < d ==> callee(#[trigger] c.st[i]) != callee(#[trigger] c.st[j])
}
// no rule can be entered again inside itself before a token was matched (ANTLR rejects such grammars; direct left
// recursion is rewritten into loops)
pub open spec fn alone(s: int) -> Pos { Pos { s, c: CV { eof: false, st: Seq::<int>::empty() } } }
pub open spec fn legal_at(a: ATN, q: Pos) -> bool { forall|i: int| 0 <= i < st(a, q.s).trans@.len() && (#[trigger] st(a, q.s).trans@[i]).is_rule() ==> !active(q.c, q.c.st.len() as int, st(a, st(a, q.s).trans@[i].target()).rule as int) }
pub open spec fn legal(a: ATN) -> bool { forall|s: int, q: Pos| 0 <= s < a.states@.len() && #[trigger] reach(a, alone(s), q) && !is_stop(a, q.s) ==> legal_at(a, q) }
// the position as seen from where the bottommost frame not left since then was the current one
pub open spec fn inner(s: int, c: CV, d: int) -> Pos { Pos { s, c: CV { eof: false, st: c.st.take(d) } } }
pub open spec fn from(a: ATN, s: int, c: CV, d: int) -> bool { exists|s0: int| 0 <= s0 < a.states@.len() && #[trigger] reach(a, alone(s0), inner(s, c, d)) }
pub proof fn lemma_append(a: ATN, p: Pos, m: Pos, q: Pos) requires reach(a, p, m), succ(a, m, q) ensures reach(a, p, q)
{
    let w = choose|w: Seq<Pos>| #[trigger] joins(a, w, p, m); let v = w.push(q);
    assert forall|i: int| 0 <= i && i + 1 < v.len() implies succ(a, #[trigger] v[i], v[i + 1]) by { if i + 1 < w.len() { assert(succ(a, w[i], w[i + 1])); } }
    assert(joins(a, v, p, q));
}
pub proof fn lemma_from(a: ATN, s: int, c: CV, d: int, t: int, e: CV, f: int)
    requires from(a, s, c, d), succ(a, inner(s, c, d), inner(t, e, f)) ensures from(a, t, e, f)
{ let s0 = choose|s0: int| 0 <= s0 < a.states@.len() && #[trigger] reach(a, alone(s0), inner(s, c, d)); lemma_append(a, alone(s0), inner(s, c, d), inner(t, e, f)); }
pub proof fn lemma_new(a: ATN, s: int, c: CV) requires 0 <= s < a.states@.len() ensures from(a, s, c, 0) { assert(c.st.take(0) =~= Seq::<int>::empty()); lemma_self(a, alone(s)); assert(reach(a, alone(s), inner(s, c, 0))); }
pub open spec fn depth(c: Option<PC>) -> int { cv(c).st.len() - base(c) }

// what can be called here is not being parsed already
pub proof fn lemma_fresh(a: ATN, s: int, c: CV, d: int, i: int)
    requires atn_ok(a), fits(a, s, c, d), 0 <= i < st(a, s).trans@.len(), st(a, s).trans@[i].is_rule(), !is_stop(a, s)
    ensures !active(c, d, st(a, st(a, s).trans@[i].target()).rule as int)
{
    let s0 = choose|s0: int| 0 <= s0 < a.states@.len() && #[trigger] reach(a, alone(s0), inner(s, c, d));
    let q = inner(s, c, d); let r = st(a, st(a, s).trans@[i].target()).rule as int;
    assert(legal_at(a, q));
    if active(c, d, r) { let k = choose|k: int| 0 <= k < d && callee(#[trigger] c.st[k]) == r; assert(callee(q.c.st[k]) == r); assert(active(q.c, d, r)); }
}
pub proof fn lemma_push(a: ATN, s: int, c: CV, d: int, i: int)
    requires atn_ok(a), fits(a, s, c, d), 0 <= i < st(a, s).trans@.len(), tr_ok(a, s, st(a, s).trans@[i]), st(a, s).trans@[i].is_rule(), !is_stop(a, s)
    ensures ({ let t = st(a, s).trans@[i];
        fits(a, t.target(), push(c, t.follow()), d + 1) && !active(c, d, st(a, t.target()).rule as int) && forall|r: int| (#[trigger] active(push(c, t.follow()), d + 1, r)) == (active(c, d, r) || r == st(a, t.target()).rule) })
{
    let t = st(a, s).trans@[i];
    let e = push(c, t.follow());
    lemma_fresh(a, s, c, d, i);
    assert(e.st.take(d + 1) =~= seq![t.follow()] + c.st.take(d));
    assert(succ_by(a, inner(s, c, d), inner(t.target(), e, d + 1), i));
    lemma_from(a, s, c, d, t.target(), e, d + 1);
    assert(e.st[0] == t.follow());
    assert forall|i: int| 0 <= i < c.st.len() implies #[trigger] c.st[i] == e.st[i + 1] by { }
    assert forall|i: int| 0 < i < e.st.len() implies #[trigger] e.st[i] == c.st[i - 1] by { }
    assert forall|r: int| (#[trigger] active(e, d + 1, r)) == (active(c, d, r) || r == st(a, t.target()).rule) by {
        if active(c, d, r) { let i = choose|i: int| 0 <= i < d && callee(#[trigger] c.st[i]) == r; assert(callee(e.st[i + 1]) == r); }
        if active(e, d + 1, r) { let i = choose|i: int| 0 <= i < d + 1 && callee(#[trigger] e.st[i]) == r; if i > 0 { assert(callee(c.st[i - 1]) == r); } }
    }
    assert forall|i: int| 0 <= i && i + 1 < d + 1 implies st(a, #[trigger] e.st[i]).rule == callee(e.st[i + 1]) by { if i > 0 { assert(st(a, c.st[i - 1]).rule == callee(c.st[i - 1 + 1])); } }
    assert forall|i: int, j: int| 0 <= i < j < d + 1 implies callee(#[trigger] e.st[i]) != callee(#[trigger] e.st[j]) by {
        if i > 0 { assert(callee(c.st[i - 1]) != callee(c.st[j - 1])); } else { assert(callee(c.st[j - 1]) == callee(e.st[j])); }
    }
}
pub open spec fn popd(c: CV, d: int) -> int { if d > 0 { d - 1 } else { 0 } }
pub proof fn lemma_pop(a: ATN, s: int, c: CV, d: int)
    requires fits(a, s, c, d), c.st.len() > 0, is_stop(a, s)
    ensures fits(a, c.st[0], pop(c), popd(c, d)), !active(pop(c), popd(c, d), st(a, s).rule as int) || d == 0,
        forall|r: int| d > 0 ==> (#[trigger] active(pop(c), d - 1, r)) == (active(c, d, r) && r != st(a, s).rule), d > 0 ==> active(c, d, st(a, s).rule as int),
        d == 0 ==> forall|r: int| !#[trigger] active(c, d, r) && !active(pop(c), 0, r)
{
    let e = pop(c);
    if d > 0 { assert(c.st.take(d).drop_first() =~= e.st.take(d - 1)); lemma_from(a, s, c, d, c.st[0], e, d - 1); }
    else { lemma_new(a, c.st[0], e); }
    assert forall|i: int| 0 <= i < e.st.len() implies #[trigger] e.st[i] == c.st[i + 1] by { }
    if d > 0 {
        assert(callee(c.st[0]) == st(a, s).rule);
        assert forall|r: int| (#[trigger] active(e, d - 1, r)) == (active(c, d, r) && r != st(a, s).rule) by {
            if active(e, d - 1, r) { let i = choose|i: int| 0 <= i < d - 1 && callee(#[trigger] e.st[i]) == r; assert(callee(c.st[i + 1]) == r); assert(callee(c.st[0]) != callee(c.st[i + 1])); }
            if active(c, d, r) && r != st(a, s).rule { let i = choose|i: int| 0 <= i < d && callee(#[trigger] c.st[i]) == r; assert(i > 0); assert(callee(e.st[i - 1]) == r); }
        }
        if d > 1 { assert(st(a, c.st[0]).rule == callee(c.st[0int + 1])); }
        assert forall|i: int| 0 <= i && i + 1 < d - 1 implies st(a, #[trigger] e.st[i]).rule == callee(e.st[i + 1]) by { assert(st(a, c.st[i + 1]).rule == callee(c.st[i + 1 + 1])); }
        assert forall|i: int, j: int| 0 <= i < j < d - 1 implies callee(#[trigger] e.st[i]) != callee(#[trigger] e.st[j]) by { assert(callee(c.st[i + 1]) != callee(c.st[j + 1])); }
    }
}
// the state of one call of look_work: everything seen since, except the position itself, is explored
pub open spec fn but(a: ATN, p: Pos, new: ISet<Pos>, old: ISet<Pos>, look: IntervalSet) -> bool { forall|n: Pos| #[trigger] new.contains(n) && !old.contains(n) && n != p ==> done(a, n, new, look) }
pub open spec fn step_done(a: ATN, p: Pos, busy: ISet<Pos>, look: IntervalSet, i: int) -> bool {
    (forall|x: int| #[trigger] tok_by(a, p, x, i) ==> look.mem(x)) && (forall|q: Pos| #[trigger] succ_by(a, p, q, i) ==> busy.contains(q))
}
pub open spec fn upto(a: ATN, p: Pos, busy: ISet<Pos>, look: IntervalSet, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] step_done(a, p, busy, look, i) }
pub open spec fn lsub(l: IntervalSet, m: IntervalSet) -> bool { forall|x: int| #[trigger] l.mem(x) ==> m.mem(x) }
pub open spec fn bsub(b: ISet<Pos>, c: ISet<Pos>) -> bool { forall|n: Pos| #[trigger] b.contains(n) ==> c.contains(n) }
pub open spec fn sound(a: ATN, p: Pos, l: IntervalSet, m: IntervalSet) -> bool { forall|x: int| #[trigger] m.mem(x) ==> l.mem(x) || first(a, p, x) }
pub proof fn lemma_mono(a: ATN, p: Pos, b0: ISet<Pos>, b1: ISet<Pos>, b2: ISet<Pos>, l1: IntervalSet, l2: IntervalSet, n: int)
    requires lsub(l1, l2), bsub(b1, b2)
    ensures but(a, p, b1, b0, l1) && all_done(a, b2, b1, l2) ==> but(a, p, b2, b0, l2), upto(a, p, b1, l1, n) ==> upto(a, p, b2, l2, n)
{
    if but(a, p, b1, b0, l1) && all_done(a, b2, b1, l2) {
        assert forall|m: Pos| #[trigger] b2.contains(m) && !b0.contains(m) && m != p implies done(a, m, b2, l2) by { if b1.contains(m) { assert(done(a, m, b1, l1)); } else { assert(done(a, m, b2, l2)); } }
    }
    if upto(a, p, b1, l1, n) { assert forall|i: int| 0 <= i < n implies #[trigger] step_done(a, p, b2, l2, i) by { assert(step_done(a, p, b1, l1, i)); } }
}
// after going through a position q that can follow p
pub proof fn lemma_child(a: ATN, p: Pos, q: Pos, l0: IntervalSet, l1: IntervalSet, l2: IntervalSet)
    requires succ(a, p, q), sound(a, p, l0, l1), sound(a, q, l1, l2)
    ensures sound(a, p, l0, l2)
{ assert forall|x: int| #[trigger] l2.mem(x) implies l0.mem(x) || first(a, p, x) by { if !l1.mem(x) { lemma_step_first(a, p, q, x); } else { } } }
pub proof fn lemma_here(a: ATN, p: Pos, x: int) requires tok(a, p, x) ensures first(a, p, x) { lemma_self(a, p); }
pub proof fn lemma_all(a: ATN, p: Pos, new: ISet<Pos>, old: ISet<Pos>, look: IntervalSet) requires but(a, p, new, old, look), done(a, p, new, look) ensures all_done(a, new, old, look) { }
pub proof fn lemma_end(a: ATN, p: Pos, busy: ISet<Pos>, look: IntervalSet)
    requires upto(a, p, busy, look, st(a, p.s).trans@.len() as int), !is_stop(a, p.s) ensures done(a, p, busy, look)
{
    assert forall|x: int| #[trigger] tok(a, p, x) implies look.mem(x) by { let i = choose|i: int| #[trigger] tok_by(a, p, x, i); assert(step_done(a, p, busy, look, i)); }
    assert forall|m: Pos| #[trigger] succ(a, p, m) implies busy.contains(m) by { let i = choose|i: int| #[trigger] succ_by(a, p, m, i); assert(step_done(a, p, busy, look, i)); }
}

pub struct LL1Analyzer<'a> { pub atn: &'a ATN }
impl LL1Analyzer<'_> {
//@ fn src/ll1_analyzer.rs LL1Analyzer::look_work
//@ sig
fn look_work(&self, s: &State, stop_state: Option<&State>, ctx: Option<PC>, look: &mut IntervalSet, look_busy: &mut Busy, called_rule_stack: &mut BitSet, see_thru_preds: bool, add_eof: bool)
    requires
        atn_ok(*self.atn), s.num < self.atn.states@.len(), *s == st(*self.atn, s.num as int), stop_state is None, see_thru_preds, add_eof, cok(ctx), old(look).wf(), !old(look).read_only,
        fits(*self.atn, s.num as int, cv(ctx), depth(ctx)), forall|r: int| (#[trigger] old(called_rule_stack).m(r)) == active(cv(ctx), depth(ctx), r),
    ensures
        final(look).wf(), !final(look).read_only, same_bits(*final(called_rule_stack), *old(called_rule_stack)),
        // nothing that cannot come
        forall|x: int| #[trigger] final(look).mem(x) ==> old(look).mem(x) || first(*self.atn, Pos { s: s.num as int, c: cv(ctx) }, x),
        // nothing forgotten
        forall|x: int| old(look).mem(x) ==> #[trigger] final(look).mem(x),
        forall|n: Pos| old(look_busy).s().contains(n) ==> #[trigger] final(look_busy).s().contains(n),
        final(look_busy).s().contains(Pos { s: s.num as int, c: cv(ctx) }),
        all_done(*self.atn, final(look_busy).s(), old(look_busy).s(), *final(look)),
//@ rewrite ATNConfig::new(__a, __b, __c) => Conf::new(__a, __b, __c)
//@ rewrite ctx.clone() => dup(&ctx)
//@ rewrite Arc::new(PredictionContext::new_singleton(__c, __f)) => PC::new_singleton(__c, __f)
//@ rewrite &ctx != &*EMPTY_PREDICTION_CONTEXT => !ctx.is_bottom()
//@ rewrite ctx.get_parent(i).cloned() => ctx.parent(i)
//@ rewrite stop_state.map(|x| x.get_state_number()) => match stop_state { Some(x) => Some(x.get_state_number()), None => None }
//@ rewrite tr.as_ref().cast::<RuleTransition>() => tr
//@ rewrite rule_tr.follow_state => rule_tr.follow_state()
//@ rewrite *set.to_mut() = complement => set = complement
//@ rewrite set.deref() => &set
//@ rewrite set.to_mut() => set
//@ at fn start
    let ghost a = *self.atn; let ghost p = Pos { s: s.num as int, c: cv(ctx) }; let ghost d = depth(ctx); let ghost l0 = *look; let ghost b0 = look_busy.s(); let ghost c0 = *called_rule_stack;
    proof { assert(st_ok(a, p.s)); if is_stop(a, p.s) && p.c.st.len() > 0 { lemma_pop(a, p.s, p.c, d); assert(succ(a, p, Pos { s: p.c.st[0], c: pop(p.c) })); } }
//@ at before if Some(s.get_state_number())
    let ghost b1 = look_busy.s();
    proof { if is_stop(a, p.s) && p.c.st.len() == 0 { lemma_here(a, p, if p.c.eof { TOKEN_EOF as int } else { TOKEN_EPSILON as int }); } }
//@ loop 0 for {iter=it}
    invariant
        a == *self.atn, atn_ok(a), stop_state is None, see_thru_preds, add_eof, p == (Pos { s: s.num as int, c: ctx.v() }), d == ctx.v().st.len() - ctx.base(), ctx.ok(), is_stop(a, p.s), p.c.st.len() > 0,
        fits(a, p.s, p.c, d), fits(a, p.c.st[0], pop(p.c), popd(p.c, d)), st_ok(a, p.c.st[0]), q == (Pos { s: p.c.st[0], c: pop(p.c) }),
        0 <= it.index() <= it.seq().len(), it.seq().len() == 1, it.seq()[0] == 0,
        look.wf(), !look.read_only, *s == st(a, p.s),
        forall|r: int| (#[trigger] c1.m(r)) == active(pop(p.c), popd(p.c, d), r), same_bits(*called_rule_stack, c1),
        sound(a, q, l0, *look), lsub(l0, *look), bsub(b1, look_busy.s()), it.index() == 1 ==> look_busy.s().contains(q), it.index() == 0 ==> look_busy.s() == b1,
        all_done(a, look_busy.s(), b1, *look),
//@ at before #0 for i in
    let ghost c1 = *called_rule_stack; let ghost q = Pos { s: p.c.st[0], c: pop(p.c) };
    proof { assert(st_ok(a, p.c.st[0])); assert(0 <= p.c.st[0] < a.states@.len()); }
//@ at before if removed
    proof {
        lemma_child(a, p, q, l0, l0, *look);
        assert forall|n: Pos| #[trigger] b0.contains(n) implies look_busy.s().contains(n) by { assert(b1.contains(n)); }
        assert(look_busy.s().contains(p)) by { assert(b1.contains(p)); }
        assert(done(a, p, look_busy.s(), *look));
        lemma_all(a, p, look_busy.s(), b0, *look);
    }
//@ loop 1 for {index=it}
    invariant
        a == *self.atn, atn_ok(a), p.s < a.states@.len(), st_ok(a, p.s), *s == st(a, p.s), stop_state is None, see_thru_preds, add_eof, cok(ctx), p == (Pos { s: s.num as int, c: cv(ctx) }), d == depth(ctx), !is_stop(a, p.s),
        fits(a, p.s, p.c, d), it_v == &s.trans, 0 <= it <= s.trans@.len(),
        forall|r: int| (#[trigger] c0.m(r)) == active(p.c, d, r), same_bits(*called_rule_stack, c0),
        look.wf(), !look.read_only, sound(a, p, l0, *look), lsub(l0, *look), bsub(b0, look_busy.s()), look_busy.s().contains(p),
        but(a, p, look_busy.s(), b0, *look), upto(a, p, look_busy.s(), *look, it as int),
//@ at loop 1 start
    let ghost n = it - 1; let ghost l1 = *look; let ghost bb = look_busy.s(); 
    proof {
        assert(*tr == s.trans@[n]); assert(tr_ok(a, p.s, s.trans@[n])); assert(st_ok(a, tr.target()));
        let q = Pos { s: tr.target(), c: if tr.is_rule() { push(p.c, tr.follow()) } else { p.c } };
        if tr.is_rule() || tr.empty() { assert(succ_by(a, p, q, n)); assert(succ(a, p, q)); }
        if tr.is_rule() { lemma_push(a, p.s, p.c, d, n); }
        if tr.empty() { assert(succ_by(a, inner(p.s, p.c, d), inner(tr.target(), p.c, d), n)); lemma_from(a, p.s, p.c, d, tr.target(), p.c, d); }
        assert forall|x: int| #[trigger] toks(*tr, a.max_token_type as int, x) implies first(a, p, x) by { assert(tok_by(a, p, x, n)); lemma_here(a, p, x); }
    }
//@ at loop 1 end
    proof {
        let q = Pos { s: tr.target(), c: if tr.is_rule() { push(p.c, tr.follow()) } else { p.c } };
        if tr.is_rule() || tr.empty() { lemma_child(a, p, q, l0, l1, *look); }
        else { assert forall|x: int| #[trigger] look.mem(x) implies l0.mem(x) || first(a, p, x) by { if !l1.mem(x) { assert(toks(*tr, a.max_token_type as int, x)); } } }
        lemma_mono(a, p, b0, bb, look_busy.s(), l1, *look, n);
        assert(step_done(a, p, look_busy.s(), *look, n));
    }
//@ at fn tail
    proof { lemma_end(a, p, look_busy.s(), *look); lemma_all(a, p, look_busy.s(), b0, *look); }
//@ end
//@ fn src/ll1_analyzer.rs LL1Analyzer::new {pub}
//@ sig
fn new(atn: &ATN) -> (r: LL1Analyzer<'_>) ensures r.atn == atn
//@ end
//@ fn src/ll1_analyzer.rs LL1Analyzer::look
//@ sig
fn look(&self, s: &State, stop_state: Option<&State>, ctx: Option<&Node>) -> (r: IntervalSet)
    requires
        atn_ok(*self.atn), s.num < self.atn.states@.len(), *s == st(*self.atn, s.num as int), stop_state is None, match ctx { Some(n) => node_ok(*self.atn, *n), None => true }
    ensures
        r.wf(), !r.read_only, forall|x: int| (#[trigger] r.mem(x)) == first(*self.atn, Pos { s: s.num as int, c: nodecv(*self.atn, ctx) }, x),
//@ retype HashSet<ATNConfig> => Busy
//@ rewrite HashSet::new() => Busy::new()
//@ rewrite ctx.map(|x| PredictionContext::from_rule_context::<Ctx>(self.atn, x)) => match ctx { Some(x) => Some(PredictionContext::from_rule_context(self.atn, x).outer()), None => None }
//@ at fn start
    proof { if ctx is Some { lemma_follows(*self.atn, *ctx->0); } }
//@ at before self.look_work
    let ghost p = Pos { s: s.num as int, c: cv(look_ctx) };
    proof { lemma_new(*self.atn, p.s, p.c); assert(depth(look_ctx) == 0); }
//@ at fn end
    proof { assert forall|x: int| (#[trigger] r.mem(x)) == first(*self.atn, p, x) by { if first(*self.atn, p, x) { lemma_complete(*self.atn, p, looks_busy.s(), r, x); } } }
//@ end
}
// the contexts of a parse: the rule invocations going on, innermost first
pub struct Node { pub invoking: isize, pub parent: Option<Box<Node>> }
impl Node {
    #[verifier::external_body]
    pub fn get_parent_ctx(&self) -> (r: Option<&Node>) ensures (r is Some) == (self.parent is Some), r is Some ==> *r->0 == *self.parent->0 { unimplemented!() }
    // invoked from nowhere (BaseRuleContext::is_empty: get_invoking_state() == -1)
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.invoking == -1) { self.invoking == -1 }
    pub fn get_invoking_state(&self) -> (r: isize) ensures r == self.invoking { self.invoking }
}
pub open spec fn calls(a: ATN, s: int) -> bool { 0 <= s < a.states@.len() && st(a, s).trans@.len() > 0 && st(a, s).trans@[0].is_rule() }
pub open spec fn follow_of(a: ATN, s: int) -> int { st(a, s).trans@[0].follow() }
pub open spec fn root(n: Node) -> bool { n.parent is None || n.invoking == -1 }
pub open spec fn node_ok(a: ATN, n: Node) -> bool decreases n { root(n) || (calls(a, n.invoking as int) && node_ok(a, *n.parent->0)) }
// where the invocations go on, innermost first
pub open spec fn follows(a: ATN, n: Node) -> Seq<int> decreases n { if root(n) { Seq::<int>::empty() } else { seq![follow_of(a, n.invoking as int)] + follows(a, *n.parent->0) } }
pub open spec fn nodecv(a: ATN, n: Option<&Node>) -> CV { match n { Some(n) => CV { eof: true, st: follows(a, *n) }, None => CV { eof: false, st: Seq::<int>::empty() } } }
pub open spec fn stack_ok(a: ATN, c: Seq<int>) -> bool { forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] < a.states@.len() }
pub proof fn lemma_follows(a: ATN, n: Node) requires node_ok(a, n), atn_ok(a) ensures stack_ok(a, follows(a, n)) decreases n
{
    if !root(n) {
        lemma_follows(a, *n.parent->0);
        assert(st_ok(a, n.invoking as int)); assert(tr_ok(a, n.invoking as int, st(a, n.invoking as int).trans@[0]));
        let f = follows(a, *n.parent->0);
        assert forall|i: int| 0 <= i < follows(a, n).len() implies 0 <= #[trigger] follows(a, n)[i] < a.states@.len() by { if i > 0 { assert(follows(a, n)[i] == f[i - 1]); } }
    }
}
pub struct PredictionContext;
impl PredictionContext {
//@ fn src/prediction_context.rs PredictionContext::from_rule_context
//@ sig
fn from_rule_context(atn: &ATN, outer_context: &Node) -> (r: PC)
    requires atn_ok(*atn), node_ok(*atn, *outer_context)
    ensures r.ok(), r.v() == (CV { eof: true, st: follows(*atn, *outer_context) })
    decreases *outer_context
//@ rewrite EMPTY_PREDICTION_CONTEXT.clone() => PC::bottom()
//@ rewrite PredictionContext::from_rule_context::<Ctx>(__a, __b.deref()) => PredictionContext::from_rule_context(__a, __b)
//@ rewrite __r.first().unwrap().deref().cast::<RuleTransition>() => &__r[0]
//@ rewrite PredictionContext::new_singleton(Some(parent), transition.follow_state as isize).alloc() => PC::new_singleton(Some(parent), transition.follow_state() as isize)
//@ at before let transition
    proof { let i = outer_context.invoking as int; assert(st_ok(*atn, i)); assert(tr_ok(*atn, i, st(*atn, i).trans@[0])); }
//@ end
}
// ---------- the sets remembered per state -------------------------------------------------------
pub open spec fn within(a: ATN, s: int, x: int) -> bool { first(a, alone(s), x) }
pub open spec fn right(a: ATN, s: int, v: IntervalSet) -> bool { v.wf() && forall|x: int| (#[trigger] v.mem(x)) == within(a, s, x) }
impl ATN {
    // get_next_tokens_within_rule().get_or_init(f): the cell holds nothing or what was put there before, and what is
    // put there is right
    #[verifier::external_body]
    pub fn remembered<'a>(&self, s: &'a State) -> (r: Option<&'a IntervalSet>) ensures match r { Some(v) => right(*self, s.num as int, *v), None => true } { unimplemented!() }
    #[verifier::external_body]
    pub fn remember<'a>(&self, s: &'a State, v: IntervalSet) -> (r: &'a IntervalSet) requires right(*self, s.num as int, v) ensures *r == v { unimplemented!() }
//@ fn src/atn.rs ATN::next_tokens
//@ sig
fn next_tokens<'a>(&self, s: &'a State) -> (r: &'a IntervalSet)
    requires atn_ok(*self), s.num < self.states@.len(), *s == st(*self, s.num as int)
    ensures right(*self, s.num as int, *r)
//@ rewrite s.get_next_tokens_within_rule().get_or_init(|| { __body }) ==>> match self.remembered(s) { Some(v) => v, None => { let v = __body; self.remember(s, v) } }
//@ rewrite self.next_tokens_in_ctx::<EmptyContextType<'_, CommonTokenFactory>>(s, None) => self.next_tokens_in_ctx(s, None)
//@ rewrite __r.modify_with(|r| r.read_only = true) => __r.set_read_only()
//@ end
//@ fn src/atn.rs ATN::next_tokens_in_ctx
//@ sig
fn next_tokens_in_ctx(&self, s: &State, _ctx: Option<&Node>) -> (r: IntervalSet)
    requires
        atn_ok(*self), s.num < self.states@.len(), *s == st(*self, s.num as int), match _ctx { Some(n) => node_ok(*self, *n), None => true }
    ensures
        r.wf(), !r.read_only, forall|x: int| (#[trigger] r.mem(x)) == first(*self, Pos { s: s.num as int, c: nodecv(*self, _ctx) }, x),
//@ rewrite analyzer.look::<Ctx>(s, None, _ctx) => analyzer.look(s, None, _ctx)
//@ end
//@ fn src/atn.rs ATN::get_expected_tokens
//@ sig
fn get_expected_tokens(&self, state_number: isize, states_stack: Vec<isize>) -> (r: IntervalSet)
    requires
        atn_ok(*self), 0 <= state_number < self.states@.len(), forall|i: int| 0 <= i < states_stack@.len() ==> calls(*self, #[trigger] states_stack@[i] as int)
    ensures
        // exactly the first tokens of everything that can follow in that call stack
        r.wf(), forall|x: int| (#[trigger] r.mem(x)) == first(*self, Pos { s: state_number as int, c: CV { eof: true, st: gofollow(*self, states_stack@) } }, x),
//@ rewrite __r.first().unwrap().as_ref() => &__r[0]
//@ rewrite tr.cast::<RuleTransition>() => tr
//@ rewrite tr.follow_state => tr.follow_state()
//@ rewrite following.clone() => copy_set(following)
//@ loop 0 for {index=it copy}
    invariant
        a == *self, gk == it, atn_ok(a), it_v@ == states_stack@, 0 <= it <= states_stack@.len(), c == gofollow(a, states_stack@), stack_ok(a, c), 0 <= cur < a.states@.len(),
        forall|i: int| 0 <= i < states_stack@.len() ==> calls(a, #[trigger] states_stack@[i] as int),
        expected.wf(), !expected.read_only, right(a, cur, *following), !expected.mem(TOKEN_EPSILON as int),
        forall|x: int| following.mem(x) && x != TOKEN_EPSILON ==> #[trigger] expected.mem(x),
        splits(a, expected, cur, c.skip(gk), state_number as int, c),
    ensures !following.mem(TOKEN_EPSILON as int) || it == states_stack@.len()
    decreases states_stack@.len() - it
//@ at fn start
    let ghost a = *self; let ghost c = gofollow(a, states_stack@); let ghost mut cur = state_number as int; let ghost mut gk = 0int;
    proof { assert(st_ok(a, cur)); lemma_gofollow(a, states_stack@);
        assert forall|x: int| (#[trigger] first(a, Pos { s: cur, c: CV { eof: true, st: c } }, x)) == expects(a, cur, c, x) by { lemma_expects(a, cur, c, x); }
        lemma_unf(a, cur, c);
        assert(c.skip(0) =~= c); }
//@ at loop 0 start
    let ghost l1 = expected; let ghost n = gk; let ghost d = c.skip(gk); proof { gk = n + 1; } let ghost e1 = cur; let ghost f1 = *following;
    proof {
        assert(splits(a, l1, e1, d, state_number as int, c));
        lemma_unf(a, e1, d); lemma_unf(a, e1, c.skip(n + 1));
        if !f1.mem(TOKEN_EPSILON as int) { assert forall|x: int| (l1.mem(x) || #[trigger] expects(a, e1, c.skip(n + 1), x)) == expects(a, state_number as int, c, x) by { assert(expects(a, e1, d, x) == expects(a, e1, c.skip(n + 1), x)); } assert(splits(a, l1, e1, c.skip(n + 1), state_number as int, c)); }
    }
//@ at before let invoking_state
    proof { let i = state as int; assert(calls(a, i)); assert(st_ok(a, i)); assert(tr_ok(a, i, st(a, i).trans@[0])); assert(st_ok(a, follow_of(a, i))); }
//@ at loop 0 end
    proof {
        cur = follow_of(a, state as int);
        assert(c[n] == cur);
        assert(d[0] == cur); assert(d.drop_first() =~= c.skip(n + 1));
        assert forall|x: int| (expected.mem(x) || #[trigger] expects(a, cur, c.skip(n + 1), x)) == expects(a, state_number as int, c, x) by {
            assert((l1.mem(x) || expects(a, e1, d, x)) == expects(a, state_number as int, c, x));
            lemma_unfold(a, cur, c.skip(n + 1), x);
            assert(expected.mem(x) == (x != TOKEN_EPSILON && (l1.mem(x) || within(a, cur, x))));
        }
        assert(splits(a, expected, cur, c.skip(n + 1), state_number as int, c));
    }
//@ at loop 0 after
    let ghost e0 = expected; let ghost fin = following.mem(TOKEN_EPSILON as int);
    proof {
        lemma_unf(a, cur, c.skip(gk));
        assert(splits(a, e0, cur, c.skip(gk), state_number as int, c));
        assert forall|x: int| (e0.mem(x) || (fin && x == TOKEN_EOF)) == #[trigger] expects(a, state_number as int, c, x) by { assert((e0.mem(x) || expects(a, cur, c.skip(gk), x)) == expects(a, state_number as int, c, x)); }
    }
//@ at fn end
    proof { assert forall|x: int| (#[trigger] expected.mem(x)) == expects(a, state_number as int, c, x) by { } }
//@ end
}
#[verifier::external_body]
pub fn copy_set(s: &IntervalSet) -> (r: IntervalSet) ensures r == *s { unimplemented!() }
pub open spec fn gofollow(a: ATN, v: Seq<isize>) -> Seq<int> { Seq::new(v.len(), |i: int| follow_of(a, v[i] as int)) }
pub proof fn lemma_gofollow(a: ATN, v: Seq<isize>) requires atn_ok(a), forall|i: int| 0 <= i < v.len() ==> calls(a, #[trigger] v[i] as int) ensures stack_ok(a, gofollow(a, v))
{
    assert forall|i: int| 0 <= i < gofollow(a, v).len() implies 0 <= #[trigger] gofollow(a, v)[i] < a.states@.len() by { let s = v[i] as int; assert(calls(a, s)); assert(st_ok(a, s)); assert(tr_ok(a, s, st(a, s).trans@[0])); }
}
// ---------- first tokens, frame by frame ---------------------------------------------------------
#[verifier::opaque]
pub open spec fn expects(a: ATN, s: int, c: Seq<int>, x: int) -> bool decreases c.len() {
    (x != TOKEN_EPSILON && within(a, s, x)) || (within(a, s, TOKEN_EPSILON as int) && (if c.len() == 0 { x == TOKEN_EOF } else { expects(a, c[0], c.drop_first(), x) }))
}
pub open spec fn under(p: Pos, c: Seq<int>) -> Pos { Pos { s: p.s, c: CV { eof: true, st: p.c.st + c } } }
pub open spec fn full(s: int, c: Seq<int>) -> Pos { Pos { s, c: CV { eof: true, st: c } } }
// what can be done within the rule can be done with anything below
pub proof fn lemma_under(a: ATN, w: Seq<Pos>, c: Seq<int>)
    requires path(a, w), !w[0].c.eof
    ensures forall|i: int| 0 <= i < w.len() ==> !(#[trigger] w[i]).c.eof, path(a, Seq::new(w.len(), |i: int| under(w[i], c)))
{
    lemma_eof(a, w, w.len() - 1);
    let v = Seq::new(w.len(), |i: int| under(w[i], c));
    assert forall|i: int| 0 <= i && i + 1 < v.len() implies succ(a, #[trigger] v[i], v[i + 1]) by {
        assert(succ(a, w[i], w[i + 1]));
        if is_stop(a, w[i].s) { assert((w[i].c.st + c).drop_first() =~= w[i].c.st.drop_first() + c); }
        else { let k = choose|k: int| #[trigger] succ_by(a, w[i], w[i + 1], k); let t = st(a, w[i].s).trans@[k]; assert((seq![t.follow()] + w[i].c.st) + c =~= seq![t.follow()] + (w[i].c.st + c)); assert(succ_by(a, v[i], v[i + 1], k)); }
    }
}
pub proof fn lemma_eof(a: ATN, w: Seq<Pos>, n: int) requires path(a, w), 0 <= n < w.len() ensures forall|i: int| 0 <= i <= n ==> (#[trigger] w[i]).c.eof == w[0].c.eof decreases n
{ if n > 0 { lemma_eof(a, w, n - 1); assert(succ(a, w[n - 1], w[n - 1 + 1])); } }
pub proof fn lemma_tail(a: ATN, w: Seq<Pos>, k: int) requires path(a, w), 0 <= k < w.len() ensures joins(a, w.skip(k), w[k], w[w.len() - 1]), reach(a, w[k], w[w.len() - 1])
{
    let v = w.skip(k);
    assert forall|i: int| 0 <= i && i + 1 < v.len() implies succ(a, #[trigger] v[i], v[i + 1]) by { assert(succ(a, w[k + i], w[k + i + 1])); }
    assert(joins(a, v, w[k], w[w.len() - 1]));
}
pub proof fn lemma_concat(a: ATN, p: Pos, q: Pos, x: int, w: Seq<Pos>) requires joins(a, w, p, q), first(a, q, x) ensures first(a, p, x) decreases w.len()
{ if w.len() > 1 { lemma_tail(a, w, 1); assert(succ(a, w[0], w[0int + 1])); lemma_concat(a, w[1], q, x, w.skip(1)); lemma_step_first(a, p, w[1], x); } }
// labels never stand for the end of a rule
pub proof fn lemma_tok(a: ATN, p: Pos, x: int) requires atn_ok(a), 0 <= p.s < a.states@.len(), tok(a, p, x)
    ensures is_stop(a, p.s) ==> p.c.st.len() == 0, !is_stop(a, p.s) ==> x != TOKEN_EPSILON
{ if !is_stop(a, p.s) { let i = choose|i: int| #[trigger] tok_by(a, p, x, i); assert(st_ok(a, p.s)); assert(tr_ok(a, p.s, st(a, p.s).trans@[i])); } }
pub proof fn lemma_in(a: ATN, w: Seq<Pos>, n: int) requires atn_ok(a), path(a, w), 0 <= n < w.len(), 0 <= w[0].s < a.states@.len(), stack_ok(a, w[0].c.st)
    ensures 0 <= w[n].s < a.states@.len(), stack_ok(a, w[n].c.st) decreases n
{
    if n > 0 {
        lemma_in(a, w, n - 1); let p = w[n - 1]; let q = w[n - 1 + 1]; assert(succ(a, p, q));
        if is_stop(a, p.s) { assert forall|i: int| 0 <= i < q.c.st.len() implies 0 <= #[trigger] q.c.st[i] < a.states@.len() by { assert(q.c.st[i] == p.c.st[i + 1]); } }
        else {
            let k = choose|k: int| #[trigger] succ_by(a, p, q, k); assert(st_ok(a, p.s)); assert(tr_ok(a, p.s, st(a, p.s).trans@[k]));
            if st(a, p.s).trans@[k].is_rule() { assert forall|i: int| 0 <= i < q.c.st.len() implies 0 <= #[trigger] q.c.st[i] < a.states@.len() by { if i > 0 { assert(q.c.st[i] == p.c.st[i - 1]); } } }
        }
    }
}
pub open spec fn splits(a: ATN, e: IntervalSet, cur: int, d: Seq<int>, s: int, c: Seq<int>) -> bool { forall|x: int| #![trigger e.mem(x)] #![trigger expects(a, cur, d, x)] #![trigger expects(a, s, c, x)] (e.mem(x) || expects(a, cur, d, x)) == expects(a, s, c, x) }
pub proof fn lemma_unfold(a: ATN, s: int, c: Seq<int>, x: int)
    ensures expects(a, s, c, x) == ((x != TOKEN_EPSILON && within(a, s, x)) || (within(a, s, TOKEN_EPSILON as int) && (if c.len() == 0 { x == TOKEN_EOF } else { expects(a, c[0], c.drop_first(), x) })))
{ reveal_with_fuel(expects, 1); }
pub proof fn lemma_unf(a: ATN, s: int, c: Seq<int>)
    ensures forall|x: int| (#[trigger] expects(a, s, c, x)) == ((x != TOKEN_EPSILON && within(a, s, x)) || (within(a, s, TOKEN_EPSILON as int) && (if c.len() == 0 { x == TOKEN_EOF } else { expects(a, c[0], c.drop_first(), x) })))
{ assert forall|x: int| (#[trigger] expects(a, s, c, x)) == ((x != TOKEN_EPSILON && within(a, s, x)) || (within(a, s, TOKEN_EPSILON as int) && (if c.len() == 0 { x == TOKEN_EOF } else { expects(a, c[0], c.drop_first(), x) }))) by { lemma_unfold(a, s, c, x); } }
// a run with a stack below stays above it, or leaves the rule
pub open spec fn above(a: ATN, s: int, q: Pos, c: Seq<int>) -> bool { exists|m: Pos| #[trigger] reach(a, alone(s), m) && q == under(m, c) && !m.c.eof }
pub open spec fn leaves(a: ATN, s: int, w: Seq<Pos>, c: Seq<int>, k: int) -> bool { exists|j: int| 0 <= j < k && is_stop(a, (#[trigger] w[j]).s) && w[j].c.st == c && c.len() > 0 && reach(a, alone(s), alone(w[j].s)) && w[j + 1] == full(c[0], c.drop_first()) }
pub proof fn lemma_run1(a: ATN, s: int, p: Pos, q: Pos, c: Seq<int>)
    requires above(a, s, p, c), succ(a, p, q)
    ensures above(a, s, q, c) || (is_stop(a, p.s) && p.c.st == c && c.len() > 0 && reach(a, alone(s), alone(p.s)) && q == full(c[0], c.drop_first()))
{
    let m = choose|m: Pos| #[trigger] reach(a, alone(s), m) && p == under(m, c) && !m.c.eof;
    if is_stop(a, p.s) {
        if m.c.st.len() == 0 { assert(m.c.st + c =~= c); assert(m.c.st =~= Seq::<int>::empty()); assert(m == alone(m.s)); }
        else { let n = Pos { s: m.c.st[0], c: pop(m.c) }; assert(succ(a, m, n)); lemma_append(a, alone(s), m, n); assert((m.c.st + c).drop_first() =~= m.c.st.drop_first() + c); assert(q == under(n, c)); }
    } else {
        let i = choose|i: int| #[trigger] succ_by(a, p, q, i); let t = st(a, p.s).trans@[i];
        let n = Pos { s: t.target(), c: if t.is_rule() { push(m.c, t.follow()) } else { m.c } };
        assert(succ_by(a, m, n, i)); lemma_append(a, alone(s), m, n);
        assert(seq![t.follow()] + (m.c.st + c) =~= (seq![t.follow()] + m.c.st) + c);
        assert(q == under(n, c));
    }
}
pub proof fn lemma_run(a: ATN, s: int, w: Seq<Pos>, c: Seq<int>, k: int)
    requires path(a, w), w[0] == full(s, c), 0 <= k < w.len()
    ensures above(a, s, w[k], c) || leaves(a, s, w, c, k)
    decreases k
{
    if k == 0 { lemma_self(a, alone(s)); assert(alone(s).c.st + c =~= c); assert(w[0] == under(alone(s), c)); }
    else {
        lemma_run(a, s, w, c, k - 1);
        let p = w[k - 1]; let q = w[k - 1 + 1]; assert(succ(a, p, q));
        if leaves(a, s, w, c, k - 1) { let j = choose|j: int| 0 <= j < k - 1 && is_stop(a, (#[trigger] w[j]).s) && w[j].c.st == c && c.len() > 0 && reach(a, alone(s), alone(w[j].s)) && w[j + 1] == full(c[0], c.drop_first()); assert(leaves(a, s, w, c, k)); }
        else {
            lemma_run1(a, s, p, q, c);
            if !above(a, s, q, c) { assert(leaves(a, s, w, c, k)); }
        }
    }
}
pub proof fn lemma_expects(a: ATN, s: int, c: Seq<int>, x: int)
    requires atn_ok(a), 0 <= s < a.states@.len(), stack_ok(a, c)
    ensures first(a, full(s, c), x) == expects(a, s, c, x)
    decreases c.len()
{
    let p = full(s, c); let e = TOKEN_EPSILON as int; lemma_unfold(a, s, c, x);
    if c.len() > 0 { assert(stack_ok(a, c.drop_first())) by { assert forall|i: int| 0 <= i < c.drop_first().len() implies 0 <= #[trigger] c.drop_first()[i] < a.states@.len() by { assert(c.drop_first()[i] == c[i + 1]); } } lemma_expects(a, c[0], c.drop_first(), x); }
    assert(alone(s).c.st + c =~= c); assert(under(alone(s), c) == p);
    if first(a, p, x) {
        let q = choose|q: Pos| #[trigger] reach(a, p, q) && tok(a, q, x); let w = choose|w: Seq<Pos>| #[trigger] joins(a, w, p, q);
        lemma_in(a, w, w.len() - 1); lemma_tok(a, q, x); lemma_run(a, s, w, c, w.len() - 1); lemma_eof(a, w, w.len() - 1);
        if leaves(a, s, w, c, w.len() - 1) {
            let j = choose|j: int| 0 <= j < w.len() - 1 && is_stop(a, (#[trigger] w[j]).s) && w[j].c.st == c && c.len() > 0 && reach(a, alone(s), alone(w[j].s)) && w[j + 1] == full(c[0], c.drop_first());
            assert(tok(a, alone(w[j].s), e)); assert(within(a, s, e));
            lemma_tail(a, w, j + 1); assert(first(a, w[j + 1], x));
        } else {
            let m = choose|m: Pos| #[trigger] reach(a, alone(s), m) && q == under(m, c) && !m.c.eof;
            if is_stop(a, q.s) { assert(m.c.st =~= Seq::<int>::empty()); assert(c =~= Seq::<int>::empty()); assert(tok(a, m, e)); assert(within(a, s, e)); }
            else { let i = choose|i: int| #[trigger] tok_by(a, q, x, i); assert(tok_by(a, m, x, i)); assert(tok(a, m, x)); assert(within(a, s, x)); }
        }
    }
    if expects(a, s, c, x) {
        let z = if x != e && within(a, s, x) { x } else { e };
        let m = choose|m: Pos| #[trigger] reach(a, alone(s), m) && tok(a, m, z); let w = choose|w: Seq<Pos>| #[trigger] joins(a, w, alone(s), m);
        lemma_in(a, w, w.len() - 1); lemma_tok(a, m, z); lemma_under(a, w, c);
        let v = Seq::new(w.len(), |i: int| under(w[i], c)); let q = under(m, c);
        assert(joins(a, v, p, q));
        if z == x && x != e {
            assert(!is_stop(a, m.s)); let i = choose|i: int| #[trigger] tok_by(a, m, x, i); assert(tok_by(a, q, x, i)); assert(tok(a, q, x)); assert(reach(a, p, q));
        } else {
            assert(is_stop(a, m.s)); assert(m.c.st + c =~= c);
            if c.len() == 0 { assert(tok(a, q, x)); assert(reach(a, p, q)); }
            else { assert(succ(a, q, full(c[0], c.drop_first()))); lemma_step_first(a, q, full(c[0], c.drop_first()), x); lemma_concat(a, p, q, x, v); }
        }
    }
}
} // verus!
fn main() {}
