#![allow(unused)]
#![allow(nonstandard_style)]
#![verifier::exec_allows_no_decreases_clause]
#![verifier::allow(decreases_when_exec_allows_no_decreases_clause)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@ include cfg_types.inc
//@ include iset_contract.inc
use crate::ATNStateType::RuleStopState;
//@ item src/int_stream.rs const EOF
//@ item src/token.rs const TOKEN_EOF
//@ item src/token.rs const TOKEN_EPSILON
//@ item src/lexer_atn_simulator.rs const ERROR_DFA_STATE_REF
//@ item src/atn.rs const INVALID_ALT
//@ item src/prediction_context.rs const PREDICTION_CONTEXT_EMPTY_RETURN_STATE
//@ item src/atn_state.rs const ATNSTATE_BLOCK_END
//@ item src/transition.rs enum TransitionType {derive=Structural,PartialEq,Eq}
//@ item src/prediction_mode.rs enum PredictionMode {derive=Structural,PartialEq,Eq,Clone,Copy}
//@ item src/dfa_state.rs type DFAStateRef
pub fn vassert(c: bool) requires c {}
// a check the real code makes at run time (it panics otherwise): nesting depths stay within an isize
#[verifier::external_body]
pub fn passert(c: bool) ensures c { assert!(c) }

// ---------- predicates: their truth in one state of the world (P11) ------------------------
pub struct World { pub dummy: int }
pub uninterp spec fn truth(w: World, sem: int) -> bool;
pub axiom fn none_true(w: World) ensures truth(w, none_v());
// partial evaluation of the precedence predicates at a level (P11)
pub uninterp spec fn evalp(level: int, sem: int) -> Option<int>;
pub uninterp spec fn and_v(a: int, b: int) -> int;
impl SemanticContext {
    #[verifier::external_body]
    pub fn or(a: Option<&SemanticContext>, b: Option<&SemanticContext>) -> (r: SemanticContext)
        ensures match (a, b) {
            (None, Some(b)) => r.v() == b.v(),
            (Some(a), Some(b)) => forall|w: World| #[trigger] truth(w, r.v()) == (truth(w, a.v()) || truth(w, b.v())),
            _ => true }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn and(a: Option<&SemanticContext>, b: Option<SemanticContext>) -> (r: SemanticContext)
        ensures match (a, b) { (Some(a), Some(b)) => r.v() == and_v(a.v(), b.v()), _ => true }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn evaluate<T: Parser>(&self, parser: &mut T, ctx: &Ctx) -> (r: bool)
        requires ctx.v() == old(parser).v().ctx
        ensures final(parser).v() == old(parser).v(), r == truth((old(parser).v().world)(ix(old(parser).v())), self.v())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn eval_precedence<T: Parser>(&self, parser: &T, ctx: &Ctx) -> (r: Option<SemanticContext>)
        requires ctx.v() == parser.v().ctx
        ensures evalp(parser.v().prec, self.v()) == (match r { Some(s) => Some(s.v()), None => None })
    { unimplemented!() }
}
// ---------- call stacks (P12) -------------------------------------------------------------
pub uninterp spec fn empty_v() -> int;
// a stack is a list of frames (return state, rest), the rest missing in the end marker
pub uninterp spec fn slen(ctx: int) -> int;
pub uninterp spec fn sret(ctx: int, i: int) -> int;
pub uninterp spec fn spar(ctx: int, i: int) -> Option<int>;
pub uninterp spec fn single(ctx: Option<int>, ret: int) -> int;
pub open spec fn has_empty(ctx: int) -> bool { sret(ctx, slen(ctx) - 1) == PREDICTION_CONTEXT_EMPTY_RETURN_STATE }
// a stack of states of the automaton; in SLL mode nothing is known below the decision, so that the end marker
// absorbs what it is merged with
pub uninterp spec fn cwf(a: ATN, full: bool, ctx: int) -> bool;
pub open spec fn frame_ok(a: ATN, full: bool, ctx: int, i: int) -> bool {
    if sret(ctx, i) == PREDICTION_CONTEXT_EMPTY_RETURN_STATE { i == slen(ctx) - 1 } else { 0 <= sret(ctx, i) < a.states@.len() && spar(ctx, i) is Some && cwf(a, full, spar(ctx, i)->0) }
}
pub axiom fn stack_frames(a: ATN, full: bool, ctx: int)
    requires cwf(a, full, ctx)
    ensures 1 <= slen(ctx), forall|i: int| 0 <= i < slen(ctx) ==> #[trigger] frame_ok(a, full, ctx, i), !full && has_empty(ctx) ==> ctx == empty_v();
pub axiom fn stack_empty(a: ATN, full: bool) ensures cwf(a, full, empty_v());
pub axiom fn stack_push(a: ATN, full: bool, ctx: int, ret: int) requires cwf(a, full, ctx), 0 <= ret < a.states@.len(), a.states@.len() < 0x1000_0000 ensures cwf(a, full, single(Some(ctx), ret));
pub axiom fn stack_merge(a: ATN, w: bool, x: int, y: int) requires cwf(a, !w, x), cwf(a, !w, y) ensures cwf(a, !w, merged(x, y, w));
// the stack of rule invocations the parser is in
pub uninterp spec fn stack_of(ctx: int) -> int;
impl PredictionContext {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v() == empty_v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_empty_path(&self) -> (r: bool) ensures r == has_empty(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_rule_context_(a: &ATN, ctx: &Ctx) -> (r: Arc<PredictionContext>) ensures r.v() == stack_of(ctx.v()), cwf(*a, true, r.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn length(&self) -> (r: usize) ensures r == slen(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_return_state(&self, i: usize) -> (r: isize) requires i < slen(self.v()) ensures r == sret(self.v(), i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_parent(&self, i: usize) -> (r: Option<&Arc<PredictionContext>>) requires i < slen(self.v()) ensures spar(self.v(), i as int) == (match r { Some(c) => Some(c.v()), None => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn new_singleton(parent: Option<Arc<PredictionContext>>, ret: isize) -> (r: PredictionContext) ensures r.v() == single(ctx_v(parent), ret as int) { unimplemented!() }
}
#[verifier::external_body]
pub fn empty_ctx_() -> (r: Arc<PredictionContext>) ensures r.v() == empty_v() { unimplemented!() }
#[verifier::external_body]
pub struct MergeCache { x: usize }
// ---------- the parser as prediction sees it: tokens, position, rule stack, predicates ------
#[verifier::external_body]
pub struct Ctx { x: usize }
impl Ctx { pub uninterp spec fn v(&self) -> int; }
impl Clone for Ctx { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.v() == self.v() { unimplemented!() } }
pub ghost struct PV {
    // token types on the channel, without the end of input
    pub toks: Seq<int>,
    pub cur: int,
    // stream index of a token
    pub idx: spec_fn(int) -> int,
    // what the predicates say at a stream index
    pub world: spec_fn(int) -> World,
    // precedence level of the rule being parsed
    pub prec: int,
    pub ctx: int,
    // marks held on the stream
    pub marks: Seq<int>,
}
pub open spec fn goto_(v: PV, c: int) -> PV { PV { cur: c, ..v } }
pub open spec fn ix(v: PV) -> int { (v.idx)(v.cur) }
pub open spec fn pv_ok(v: PV) -> bool {
    &&& 0 <= v.cur <= v.toks.len()
    &&& forall|a: int, b: int| 0 <= a < b <= v.toks.len() ==> #[trigger] (v.idx)(a) < #[trigger] (v.idx)(b)
    &&& forall|a: int| 0 <= a <= v.toks.len() ==> 0 <= #[trigger] (v.idx)(a) <= isize::MAX
    &&& forall|a: int| 0 <= a < v.toks.len() ==> 0 <= #[trigger] v.toks[a] < 0x1000_0000
}
pub open spec fn ty(v: PV, c: int) -> int { if 0 <= c < v.toks.len() { v.toks[c] } else { -1 } }
pub open spec fn nxt(v: PV, c: int) -> int { if 0 <= c < v.toks.len() { c + 1 } else { c } }
pub trait Parser: Sized {
    spec fn v(&self) -> PV;
    // assumed of every token stream (P04, P05)
    proof fn inv(&self) ensures pv_ok(self.v());
    fn la(&mut self, i: isize) -> (r: isize)
        requires i == 1
        ensures r == ty(old(self).v(), old(self).v().cur), final(self).v() == old(self).v();
    fn consume(&mut self)
        requires old(self).v().cur < old(self).v().toks.len()
        ensures final(self).v() == goto_(old(self).v(), old(self).v().cur + 1);
    fn index(&self) -> (r: isize) ensures r == ix(self.v());
    fn seek(&mut self, i: isize)
        requires at_token(old(self).v(), i as int)
        ensures final(self).v() == goto_(old(self).v(), final(self).v().cur), 0 <= final(self).v().cur <= old(self).v().toks.len(), (old(self).v().idx)(final(self).v().cur) == i;
    fn mark(&mut self) -> (r: isize) ensures final(self).v() == (PV { marks: old(self).v().marks.push(r as int), ..old(self).v() });
    // marks are released in the reverse order
    fn release(&mut self, m: isize)
        requires old(self).v().marks.len() > 0, old(self).v().marks.last() == m
        ensures final(self).v() == (PV { marks: old(self).v().marks.drop_last(), ..old(self).v() });
    fn get_precedence(&self) -> (r: isize) ensures r == self.v().prec;
    fn get_parser_rule_context(&self) -> (r: &Ctx) ensures r.v() == self.v().ctx;
    // get_input_stream().get(i) / lt(1), as stream indices
    fn tok_at(&self, i: isize) -> (r: Tok) requires at_token(self.v(), i as int) ensures r.i() == i;
    fn lt_(&mut self, k: isize) -> (r: Tok) requires k == 1 ensures final(self).v() == old(self).v(), r.i() == ix(old(self).v());
}
pub open spec fn at_token(v: PV, i: int) -> bool { exists|c: int| 0 <= c <= v.toks.len() && #[trigger] (v.idx)(c) == i }
#[verifier::external_body]
pub struct Tok { x: usize }
impl Tok { pub uninterp spec fn i(&self) -> int; }
#[verifier::external_body]
pub struct PErr { x: usize }
impl PErr {
    // the tokens a "no viable alternative" error names
    pub uninterp spec fn first(&self) -> int;
    pub uninterp spec fn offending(&self) -> int;
    #[verifier::external_body]
    pub fn new_full<T: Parser>(p: &mut T, a: Tok, b: Tok) -> (r: PErr) ensures final(p).v() == old(p).v(), r.first() == a.i(), r.offending() == b.i() { unimplemented!() }
}

// ---------- the automaton -------------------------------------------------------------------
#[verifier::external_body]
pub struct Tr { x: usize }
impl Tr {
    pub uninterp spec fn tgt(&self) -> int;
    // does the edge take symbol t (P02)
    pub uninterp spec fn mat(&self, t: int, max: int) -> bool;
    pub uninterp spec fn kind(&self) -> TransitionType;
    // a rule call comes back here
    pub uninterp spec fn follow(&self) -> int;
    // the predicate, and does it need the caller's context
    pub uninterp spec fn pv(&self) -> int;
    pub uninterp spec fn ctxdep(&self) -> bool;
    // leaving the primary of this left-recursive rule, -1 if none
    pub uninterp spec fn outer(&self) -> int;
    #[verifier::external_body]
    pub fn get_serialization_type(&self) -> (r: TransitionType) ensures r == self.kind() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_epsilon(&self) -> (r: bool) ensures r == is_eps(self.kind()) { unimplemented!() }
    // cast::<..>(): the transition as what it is
    pub fn as_epsilon_(&self) -> (r: &Tr) requires self.kind() == TransitionType::TRANSITION_EPSILON ensures r == self { self }
    pub fn as_rule_(&self) -> (r: &Tr) requires self.kind() == TransitionType::TRANSITION_RULE ensures r == self { self }
    pub fn as_action_(&self) -> (r: &Tr) requires self.kind() == TransitionType::TRANSITION_ACTION ensures r == self { self }
    pub fn as_predicate_(&self) -> (r: &Tr) requires self.kind() == TransitionType::TRANSITION_PREDICATE ensures r == self { self }
    pub fn as_precedence_(&self) -> (r: &Tr) requires self.kind() == TransitionType::TRANSITION_PRECEDENCE ensures r == self { self }
    #[verifier::external_body]
    pub fn follow_state_(&self) -> (r: usize) requires self.kind() == TransitionType::TRANSITION_RULE ensures r == self.follow() { unimplemented!() }
    #[verifier::external_body]
    pub fn outer_(&self) -> (r: isize) requires self.kind() == TransitionType::TRANSITION_EPSILON ensures r == self.outer() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ctx_dependent_(&self) -> (r: bool) requires self.kind() == TransitionType::TRANSITION_PREDICATE ensures r == self.ctxdep() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_predicate(&self) -> (r: Option<SemanticContext>) ensures self.kind() == TransitionType::TRANSITION_PREDICATE || self.kind() == TransitionType::TRANSITION_PRECEDENCE ==> r is Some && r->0.v() == self.pv() { unimplemented!() }
    #[verifier::external_body]
    pub fn matches(&self, t: isize, min: isize, max: isize) -> (r: bool) requires min == 0 ensures r == self.mat(t as int, max as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_target(&self) -> (r: usize) ensures r == self.tgt() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Tr) ensures r == self { unimplemented!() }
}
pub open spec fn is_eps(k: TransitionType) -> bool {
    k == TransitionType::TRANSITION_EPSILON || k == TransitionType::TRANSITION_RULE || k == TransitionType::TRANSITION_PREDICATE || k == TransitionType::TRANSITION_ACTION || k == TransitionType::TRANSITION_PRECEDENCE
}
#[verifier::external_body]
pub struct AState { x: usize }
impl AState {
    pub uninterp spec fn num(&self) -> int;
    pub uninterp spec fn kind(&self) -> ATNStateType;
    pub uninterp spec fn stop(&self) -> bool;
    pub uninterp spec fn rule(&self) -> int;
    pub uninterp spec fn eps(&self) -> bool;
    pub uninterp spec fn trs(&self) -> Seq<Tr>;
    #[verifier::external_body]
    pub fn get_state_type(&self) -> (r: &ATNStateType) ensures *r == self.kind(), (*r is RuleStopState) == self.stop() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_transitions(&self) -> (r: &Vec<Tr>) ensures r@ == self.trs() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_state_type_id(&self) -> (r: isize) ensures (r == ATNSTATE_BLOCK_END) == (self.kind() is BlockEndState) { unimplemented!() }
    // ptr::eq
    #[verifier::external_body]
    pub fn is_(&self, o: &AState) -> (r: bool) ensures r == (self.num() == o.num()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_state_number(&self) -> (r: usize) ensures r == self.num() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_rule_index(&self) -> (r: usize) ensures r == self.rule() { unimplemented!() }
    #[verifier::external_body]
    pub fn has_epsilon_only_transitions(&self) -> (r: bool) ensures r == self.eps() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &AState) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn deref(&self) -> (r: &AState) ensures r == self { unimplemented!() }
}
pub fn is_stop_(t: &ATNStateType) -> (r: bool) ensures r == (*t is RuleStopState) { match t { RuleStopState => true, _ => false } }
pub struct ATN { pub states: Vec<AState>, pub decision_to_state: Vec<usize>, pub rule_to_stop_state: Vec<usize>, pub max_token_type: isize }
pub open spec fn st(a: ATN, s: int) -> AState { a.states@[s] }
pub open spec fn tr_ok(a: ATN, t: Tr) -> bool { 0 <= t.tgt() < a.states@.len() && (forall|x: int| #[trigger] t.mat(x, a.max_token_type as int) ==> !st(a, t.tgt()).stop())
    && (t.kind() == TransitionType::TRANSITION_RULE ==> 0 <= t.follow() < a.states@.len()) }
pub open spec fn st_ok(a: ATN, s: int) -> bool {
    &&& st(a, s).num() == s && 0 <= st(a, s).rule() < a.rule_to_stop_state@.len() && st(a, s).trs().len() < 0x1000_0000
    &&& st(a, s).stop() ==> forall|i: int| 0 <= i < st(a, s).trs().len() ==> (#[trigger] st(a, s).trs()[i]).kind() == TransitionType::TRANSITION_EPSILON
    // the loop of a left-recursive rule: its first way on is the block of the operators
    &&& is_prec(st(a, s)) ==> st(a, s).trs().len() > 0 && st(a, st(a, s).trs()[0].tgt()).kind() is DecisionState && st(a, st(a, s).trs()[0].tgt()).kind()->state is BlockStartState
    &&& forall|i: int| 0 <= i < st(a, s).trs().len() ==> tr_ok(a, #[trigger] st(a, s).trs()[i])
}
pub open spec fn atn_ok(a: ATN) -> bool {
    &&& forall|s: int| 0 <= s < a.states@.len() ==> #[trigger] st_ok(a, s)
    &&& forall|i: int| 0 <= i < a.decision_to_state@.len() ==> (#[trigger] a.decision_to_state@[i]) < a.states@.len()
    &&& forall|i: int| 0 <= i < a.rule_to_stop_state@.len() ==> (#[trigger] a.rule_to_stop_state@[i]) < a.states@.len() && st(a, a.rule_to_stop_state@[i] as int).stop()
    &&& 0 <= a.max_token_type < 0x1000_0000
    &&& a.states@.len() < 0x1000_0000 && a.rule_to_stop_state@.len() < 0x1000_0000
}

// ---------- configurations and sets of them (P13) --------------------------------------------
impl ATNConfig {
    #[verifier::external_body]
    pub fn new(state: ATNStateRef, alt: isize, context: Option<Arc<PredictionContext>>) -> (r: ATNConfig)
        ensures r.v() == (Cfg { state: state as int, alt: alt as int, ctx: ctx_v(context), sem: none_v(), up: 0, supp: false, kind: None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_with_semantic(state: ATNStateRef, alt: isize, context: Option<Arc<PredictionContext>>, semantic_context: Box<SemanticContext>) -> (r: ATNConfig)
        ensures r.v() == (Cfg { state: state as int, alt: alt as int, ctx: ctx_v(context), sem: semantic_context.v(), up: 0, supp: false, kind: None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(&self, target: &AState) -> (r: ATNConfig)
        requires self.v().kind is None
        ensures r.v() == moved(self.v(), target.num())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned_with_new_semantic(&self, target: &AState, ctx: Box<SemanticContext>) -> (r: ATNConfig)
        requires self.v().kind is None
        ensures r.v() == (Cfg { sem: ctx.v(), ..moved(self.v(), target.num()) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned_with_new_ctx(&self, target: &AState, ctx: Option<Arc<PredictionContext>>) -> (r: ATNConfig)
        requires self.v().kind is None
        ensures r.v() == (Cfg { ctx: ctx_v(ctx), ..moved(self.v(), target.num()) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_context(&mut self) -> (r: Arc<PredictionContext>)
        requires old(self).v().ctx is Some
        ensures old(self).v().ctx == Some(r.v()), final(self).v() == (Cfg { ctx: None, ..old(self).v() })
    { unimplemented!() }
//@ fn src/atn_config.rs ATNConfig::set_reaches_into_outer_context
    ensures final(self).v() == (Cfg { up: _v as int, ..old(self).v() })
//@ end
//@ fn src/atn_config.rs ATNConfig::set_precedence_filter_suppressed
    ensures final(self).v() == (Cfg { supp: _v, ..old(self).v() }), final(self).reaches_into_outer_context == old(self).reaches_into_outer_context
//@ end
    #[verifier::external_body]
    pub fn get_state(&self) -> (r: usize) ensures r == self.v().state { unimplemented!() }
    #[verifier::external_body]
    pub fn get_alt(&self) -> (r: isize) ensures r == self.v().alt { unimplemented!() }
    #[verifier::external_body]
    pub fn get_context(&self) -> (r: Option<&Arc<PredictionContext>>) ensures match r { Some(c) => self.v().ctx == Some(c.v()), None => self.v().ctx is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_reaches_into_outer_context(&self) -> (r: isize) ensures r == self.v().up { unimplemented!() }
    #[verifier::external_body]
    pub fn is_precedence_filter_suppressed(&self) -> (r: bool) ensures r == self.v().supp { unimplemented!() }
}
pub open spec fn moved(c: Cfg, s: int) -> Cfg { Cfg { state: s, ..c } }
//@ include alts.inc
#[verifier::external_body]
pub struct Lookup { x: usize }
//@ item src/atn_config_set.rs struct ATNConfigSet
//@ retype fn(&ATNConfig) -> Key => usize
//@ retype HashMap<Key, usize, MurmurHasherBuilder> => Lookup
pub uninterp spec fn merged(a: int, b: int, root_is_wildcard: bool) -> int;
pub open spec fn mg(a: int, b: int, w: bool) -> int { if a == b { a } else { merged(a, b, w) } }
pub open spec fn maxi(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn join(a: Cfg, b: Cfg, w: bool) -> Cfg { Cfg { ctx: Some(mg(a.ctx->0, b.ctx->0, w)), up: maxi(a.up, b.up), supp: a.supp || b.supp, ..a } }
pub open spec fn lkey(c: Cfg) -> (int, int, int) { (c.state, c.alt, c.sem) }
pub open spec fn fresh(o: Seq<Cfg>, c: Cfg) -> bool { forall|i: int| 0 <= i < o.len() ==> lkey(#[trigger] o[i]) != lkey(c) }
pub open spec fn added(o: Seq<Cfg>, n: Seq<Cfg>, c: Cfg, w: bool) -> bool {
    ||| exists|i: int| 0 <= i < o.len() && lkey(#[trigger] o[i]) == lkey(c) && n == o.update(i, join(o[i], c, w))
    ||| fresh(o, c) && n == o.push(c)
}
pub open spec fn uniqk(o: Seq<Cfg>) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> lkey(#[trigger] o[i]) != lkey(#[trigger] o[j]) }
// the same as a function
pub open spec fn put(o: Seq<Cfg>, c: Cfg, w: bool) -> Seq<Cfg> {
    if fresh(o, c) { o.push(c) } else { let i = choose|i: int| 0 <= i < o.len() && lkey(#[trigger] o[i]) == lkey(c); o.update(i, join(o[i], c, w)) }
}
// a path that left the rule the decision is in is marked; how often it did does not matter
pub open spec fn fl(c: Cfg) -> Cfg { Cfg { up: if c.up > 0 { 1 } else { 0 }, ..c } }
pub open spec fn er(s: Seq<Cfg>) -> Seq<Cfg> { Seq::new(s.len(), |i: int| fl(s[i])) }
pub open spec fn cfg_ok(a: ATN, n: int, c: Cfg) -> bool { 0 <= c.state < a.states@.len() && 1 <= c.alt <= n && c.ctx is Some && c.kind is None && 0 <= c.up }
pub open spec fn cfg_fin(a: ATN, n: int, c: Cfg) -> bool { cfg_ok(a, n, c) && (st(a, c.state).stop() ==> c.ctx == Some(empty_v())) }
pub open spec fn any_sem(s: Seq<Cfg>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sem != none_v() }
pub open spec fn set_ok(a: ATN, n: int, s: Seq<Cfg>) -> bool { uniqk(s) && forall|i: int| 0 <= i < s.len() ==> cfg_fin(a, n, #[trigger] s[i]) }
// stacks; a path in full context never leaves the known stack
pub open spec fn one(a: ATN, full: bool, c: Cfg) -> bool { c.ctx is Some && cwf(a, full, c.ctx->0) && (full ==> c.up == 0) }
pub open spec fn stk(a: ATN, full: bool, s: Seq<Cfg>) -> bool { forall|i: int| 0 <= i < s.len() ==> one(a, full, #[trigger] s[i]) }
impl ATNConfigSet {
    pub open spec fn cfgs(&self) -> Seq<Cfg> { Seq::new(self.configs@.len(), |i: int| self.configs@[i].v()) }
    pub open spec fn e(&self) -> Seq<Cfg> { er(self.cfgs()) }
    pub open spec fn ok(&self, a: ATN, n: int) -> bool { set_ok(a, n, self.cfgs()) && stk(a, self.full_ctx, self.cfgs()) && self.has_semantic_context == any_sem(self.cfgs()) && (self.full_ctx ==> !self.dips_into_outer_context) }
    // everything but the configurations
    pub open spec fn flags(&self, o: &ATNConfigSet) -> bool { self.full_ctx == o.full_ctx && self.read_only == o.read_only && self.unique_alt == o.unique_alt && self.conflicting_alts == o.conflicting_alts }
    #[verifier::external_body]
    pub fn new_base_atnconfig_set(full_ctx: bool) -> (r: ATNConfigSet)
        ensures r.configs@.len() == 0, r.full_ctx == full_ctx, !r.has_semantic_context, !r.dips_into_outer_context, !r.read_only, r.unique_alt == 0, r.conflicting_alts.s() == Set::<int>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_cached(&mut self, config: Box<ATNConfig>, m: Option<&mut MergeCache>) -> (r: bool)
        requires config.v().ctx is Some, !old(self).read_only
        ensures added(old(self).cfgs(), final(self).cfgs(), config.v(), !old(self).full_ctx), final(self).flags(old(self)),
            final(self).has_semantic_context == (old(self).has_semantic_context || config.v().sem != none_v()), final(self).dips_into_outer_context == (old(self).dips_into_outer_context || config.v().up > 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, config: Box<ATNConfig>) -> (r: bool)
        requires config.v().ctx is Some, !old(self).read_only
        ensures added(old(self).cfgs(), final(self).cfgs(), config.v(), !old(self).full_ctx), final(self).flags(old(self)),
            final(self).has_semantic_context == (old(self).has_semantic_context || config.v().sem != none_v()), final(self).dips_into_outer_context == (old(self).dips_into_outer_context || config.v().up > 0)
    { unimplemented!() }
    pub open spec fn ups(&self) -> bool { forall|i: int| 0 <= i < self.cfgs().len() ==> (#[trigger] self.cfgs()[i]).up >= 0 }
    // ATNConfigSet == ATNConfigSet, proved in P13
    #[verifier::external_body]
    pub fn same(&self, other: &ATNConfigSet) -> (r: bool)
        ensures r == (self.cfgs().len() == other.cfgs().len() && (forall|i: int| 0 <= i < self.cfgs().len() ==> #[trigger] eqv(self.cfgs()[i]) == eqv(other.cfgs()[i])) && self.full_ctx == other.full_ctx && self.unique_alt == other.unique_alt
            && self.conflicting_alts.s() == other.conflicting_alts.s() && self.has_semantic_context == other.has_semantic_context && self.dips_into_outer_context == other.dips_into_outer_context)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_alts(&self) -> BitSet { unimplemented!() }
    // replaces each stack by an equal shared one
    #[verifier::external_body]
    pub fn optimize_configs<S>(&mut self, s: &S) ensures final(self).cfgs() == old(self).cfgs(), final(self).has_semantic_context == old(self).has_semantic_context, final(self).dips_into_outer_context == old(self).dips_into_outer_context, final(self).flags(old(self)) { unimplemented!() }
//@ fn src/atn_config_set.rs ATNConfigSet::length {ret=r}
    ensures r == self.cfgs().len()
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::is_empty {ret=r}
    ensures r == (self.cfgs().len() == 0)
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::has_semantic_context {ret=r}
    ensures r == self.has_semantic_context
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::full_context {ret=r}
    ensures r == self.full_ctx
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::read_only {ret=r}
    ensures r == self.read_only
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::set_read_only
    ensures *final(self) == (ATNConfigSet { read_only: _read_only, ..*old(self) })
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::get_dips_into_outer_context {ret=r}
    ensures r == self.dips_into_outer_context
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::set_dips_into_outer_context
    ensures *final(self) == (ATNConfigSet { dips_into_outer_context: _v, ..*old(self) })
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::get_unique_alt {ret=r}
    ensures r == self.unique_alt
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::set_unique_alt
    ensures *final(self) == (ATNConfigSet { unique_alt: _v, ..*old(self) })
//@ end
}
pub proof fn lemma_add(a: ATN, n: int, o: Seq<Cfg>, m: Seq<Cfg>, c: Cfg, w: bool)
    requires set_ok(a, n, o), added(o, m, c, w), cfg_fin(a, n, c), stk(a, !w, o), one(a, !w, c)
    ensures set_ok(a, n, m), stk(a, !w, m), er(m) == put(er(o), fl(c), w), any_sem(m) == (any_sem(o) || c.sem != none_v()), m.len() > 0,
        !fresh(o, c) || m == o.push(c)
{
    let e = er(o);
    assert(forall|i: int| 0 <= i < o.len() ==> lkey(#[trigger] e[i]) == lkey(o[i]));
    if fresh(o, c) {
        if m != o.push(c) { let i = choose|i: int| 0 <= i < o.len() && lkey(#[trigger] o[i]) == lkey(c) && m == o.update(i, join(o[i], c, w)); assert(false); }
        assert(fresh(e, fl(c)));
        assert(er(m) =~= e.push(fl(c)));
        assert(m[o.len() as int] == c);
        assert(forall|i: int| 0 <= i < o.len() ==> m[i] == o[i]);
    } else {
        let i = choose|i: int| 0 <= i < o.len() && lkey(#[trigger] o[i]) == lkey(c) && m == o.update(i, join(o[i], c, w));
        assert(lkey(e[i]) == lkey(fl(c)));
        assert(!fresh(e, fl(c)));
        let j = choose|j: int| 0 <= j < e.len() && lkey(#[trigger] e[j]) == lkey(fl(c));
        assert(lkey(o[j]) == lkey(c)); assert(i == j) by { if i < j { assert(lkey(o[i]) != lkey(o[j])); } if j < i { assert(lkey(o[j]) != lkey(o[i])); } }
        assert(er(m) =~= e.update(i, join(e[i], fl(c), w)));
        assert(cfg_fin(a, n, o[i])); assert(one(a, !w, o[i])); stack_merge(a, w, o[i].ctx->0, c.ctx->0);
        assert(m[i].sem == c.sem && o[i].sem == c.sem);
        assert(forall|k: int| 0 <= k < o.len() ==> (#[trigger] m[k]).sem == o[k].sem && lkey(m[k]) == lkey(o[k]));
        assert forall|x: int, y: int| 0 <= x < y < m.len() implies lkey(#[trigger] m[x]) != lkey(#[trigger] m[y]) by { assert(lkey(o[x]) != lkey(o[y])); }
        if any_sem(o) { let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).sem != none_v(); assert(m[k].sem != none_v()); }
    }
    if any_sem(o) { let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).sem != none_v(); assert(m[k].sem != none_v()); }
    if any_sem(m) { let k = choose|k: int| 0 <= k < m.len() && (#[trigger] m[k]).sem != none_v(); if k < o.len() { assert(o[k].sem == m[k].sem); } }
}
// prediction_mode.rs, proved in P14 (there over the configurations; `up` is not looked at)
pub open spec fn grp(c: Seq<Cfg>, k: (int, Option<int>), x: int) -> bool { member(c, true, k, x) }
pub open spec fn strip(c: Seq<Cfg>, n: int) -> Seq<Cfg> decreases n {
    if n <= 0 { Seq::empty() } else { put(strip(c, n - 1), Cfg { sem: none_v(), supp: false, ..c[n - 1] }, false) }
}
pub open spec fn sll_conflict(mode: PredictionMode, c: Seq<Cfg>) -> bool {
    let d = if mode == PredictionMode::SLL && any_sem(c) { strip(c, c.len() as int) } else { c };
    conflict(d) && !lone_state(d)
}
#[verifier::external_body]
pub fn has_sll_conflict_terminating_prediction(mode: PredictionMode, configs: &ATNConfigSet) -> (r: bool) ensures r == sll_conflict(mode, configs.e()) { unimplemented!() }
#[verifier::external_body]
pub fn get_conflicting_alt_subsets(configs: &ATNConfigSet) -> (r: Vec<BitSet>) ensures groups_of(r@, configs.e()) { unimplemented!() }
#[verifier::external_body]
pub fn get_alts(altsets: &Vec<BitSet>) -> (r: BitSet) ensures forall|a: int| #[trigger] r.s().contains(a) == in_some(altsets@, altsets@.len() as int, a) { unimplemented!() }
#[verifier::external_body]
pub fn get_single_viable_alt(altsets: &Vec<BitSet>) -> (r: isize)
    requires nonempty(altsets@), small(altsets@)
    ensures altsets@.len() > 0 ==> (r != 0 ==> all_least(altsets@, r as int)), altsets@.len() > 0 ==> (forall|x: int| all_least(altsets@, x) ==> r == x), altsets@.len() == 0 ==> r == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn resolves_to_just_one_viable_alt(altsets: &Vec<BitSet>) -> (r: isize)
    requires nonempty(altsets@), small(altsets@)
    ensures altsets@.len() > 0 ==> (r != 0 ==> all_least(altsets@, r as int)), altsets@.len() > 0 ==> (forall|x: int| all_least(altsets@, x) ==> r == x), altsets@.len() == 0 ==> r == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn all_subsets_conflict(altsets: &Vec<BitSet>) -> (r: bool) ensures r == !any_single(altsets@) { unimplemented!() }
#[verifier::external_body]
pub fn all_subsets_equal(altsets: &Vec<BitSet>) -> (r: bool) ensures r == (forall|i: int| 0 <= i < altsets@.len() ==> (#[trigger] altsets@[i]).s() == altsets@[0].s()) { unimplemented!() }

// ---------- one step of the simulation --------------------------------------------------------
pub ghost struct Env { pub a: ATN, pub mode: PredictionMode, pub prec: bool, pub start: int, pub dec: int }
pub open spec fn nalts(e: Env) -> int { st(e.a, e.start).trs().len() as int }
pub open spec fn env_ok(e: Env) -> bool { atn_ok(e.a) && 0 <= e.start < e.a.states@.len() && 0 <= e.dec < e.a.decision_to_state@.len() && e.a.decision_to_state@[e.dec] == e.start }
// closure: everything reached without consuming a token, added to a set (w: outcome of the predicates where
// prediction started, in full-context mode; busy: configurations already followed)
pub ghost struct Cl { pub conf: Seq<Cfg>, pub busy: ISet<Cfg> }
pub ghost struct Md { pub e: Env, pub w: Option<World>, pub full: bool, pub eof: bool }
// an operator loop of a left-recursive rule entered again from one of its own operands: that way on is the same as
// the one the calling loop has
pub open spec fn one_eps(a: ATN, s: int) -> bool { st(a, s).trs().len() == 1 && is_eps(st(a, s).trs()[0].kind()) }
pub open spec fn to(a: ATN, s: int) -> int { st(a, s).trs()[0].tgt() }
pub open spec fn block_end(a: ATN, s: int) -> bool { st(a, s).kind() is BlockEndState }
pub open spec fn loop_end(a: ATN, s: int) -> int { st(a, to(a, s)).kind()->state->BlockStartState_end_state as int }
pub open spec fn back(a: ATN, s: int, r: int) -> bool {
    one_eps(a, r) && ((block_end(a, r) && to(a, r) == s) || r == loop_end(a, s) || to(a, r) == loop_end(a, s) || (block_end(a, to(a, r)) && one_eps(a, to(a, r)) && to(a, to(a, r)) == s))
}
pub open spec fn back_at(a: ATN, c: Cfg, i: int) -> bool { st(a, sret(c.ctx->0, i)).rule() == st(a, c.state).rule() && back(a, c.state, sret(c.ctx->0, i)) }
pub open spec fn in_rule(a: ATN, c: Cfg, i: int) -> bool { st(a, sret(c.ctx->0, i)).rule() == st(a, c.state).rule() }
pub open spec fn drops(a: ATN, c: Cfg) -> bool {
    is_prec(st(a, c.state)) && c.ctx->0 != empty_v() && !has_empty(c.ctx->0) && forall|i: int| 0 <= i < slen(c.ctx->0) ==> #[trigger] back_at(a, c, i)
}
// where an edge that takes no token leads
pub open spec fn asked(m: Md, c: Cfg, t: Tr) -> Option<Cfg> {
    if m.full { if truth(m.w->0, t.pv()) { Some(moved(c, t.tgt())) } else { None } } else { Some(Cfg { sem: and_v(c.sem, t.pv()), ..moved(c, t.tgt()) }) }
}
pub open spec fn epst(m: Md, c: Cfg, t: Tr, collect: bool, here: bool) -> Option<Cfg> {
    match t.kind() {
        TransitionType::TRANSITION_EPSILON | TransitionType::TRANSITION_ACTION => Some(moved(c, t.tgt())),
        TransitionType::TRANSITION_RULE => Some(Cfg { ctx: Some(single(c.ctx, t.follow())), ..moved(c, t.tgt()) }),
        TransitionType::TRANSITION_PREDICATE => if collect && (!t.ctxdep() || here) { asked(m, c, t) } else { Some(moved(c, t.tgt())) },
        TransitionType::TRANSITION_PRECEDENCE => if collect && here { asked(m, c, t) } else { Some(moved(c, t.tgt())) },
        TransitionType::TRANSITION_ATOM | TransitionType::TRANSITION_SET | TransitionType::TRANSITION_RANGE => if m.eof && t.mat(-1, 1) { Some(moved(c, t.tgt())) } else { None },
        TransitionType::TRANSITION_NOTSET | TransitionType::TRANSITION_WILDCARD => None,
    }
}
// edge i of a configuration: what to follow next, if anything. Leaving the rule the decision is in is remembered in
// `up`; in a left-recursive rule the paths the precedence filter must not drop are marked.
pub ghost struct Go { pub c: Cfg, pub col: bool, pub d: int, pub busy: ISet<Cfg> }
pub open spec fn left(m: Md, c: Cfg, t: Tr) -> Cfg { Cfg { up: 1, supp: c.supp || (m.e.prec && t.outer() == st(m.e.a, m.e.start).rule()), ..c } }
pub open spec fn go(m: Md, b: ISet<Cfg>, c: Cfg, col: bool, d: int, i: int) -> Option<Go> {
    let t = st(m.e.a, c.state).trs()[i];
    let k = t.kind() != TransitionType::TRANSITION_ACTION && col;
    if i == 0 && drops(m.e.a, c) { None } else {
        match epst(m, c, t, k, d == 0) {
            None => None,
            Some(x) => if st(m.e.a, c.state).stop() {
                let y = left(m, x, t);
                if b.contains(eqv(y)) { None } else { Some(Go { c: y, col: k, d: d - 1, busy: b.insert(eqv(y)) }) }
            } else if !is_eps(t.kind()) {
                if b.contains(eqv(x)) { None } else { Some(Go { c: x, col: k, d, busy: b.insert(eqv(x)) }) }
            } else { Some(Go { c: x, col: k, d: if t.kind() == TransitionType::TRANSITION_RULE && d >= 0 { d + 1 } else { d }, busy: b }) }
        }
    }
}
// the end of a rule: back to the callers on the stack
pub open spec fn popped(c: Cfg, i: int) -> Cfg { Cfg { state: sret(c.ctx->0, i), alt: c.alt, ctx: spar(c.ctx->0, i), sem: c.sem, up: c.up, supp: false, kind: None } }
pub open spec fn put_cl(m: Md, s: Cl, c: Cfg) -> Cl { Cl { conf: put(s.conf, c, !m.full), ..s } }
pub open spec fn ntrs(m: Md, c: Cfg) -> int { st(m.e.a, c.state).trs().len() as int }
// n: recursion depth allowed; no result if it does not suffice
pub open spec fn closc(m: Md, s: Cl, c: Cfg, col: bool, d: int, n: int) -> Option<Cl> decreases n, 0int, 0int {
    if n <= 0 { None }
    else if st(m.e.a, c.state).stop() && c.ctx->0 != empty_v() {
        if !has_empty(c.ctx->0) { closp(m, s, c, col, d, slen(c.ctx->0), n - 1) }
        else if m.full { closp(m, put_cl(m, s, Cfg { ctx: Some(empty_v()), ..c }), c, col, d, slen(c.ctx->0), n - 1) }
        else { match closw(m, s, c, col, d, n - 1) { None => None, Some(q) => closp(m, q, c, col, d, slen(c.ctx->0), n - 1) } }
    }
    else if st(m.e.a, c.state).stop() && m.full { Some(put_cl(m, s, c)) }
    else { closw(m, s, c, col, d, n - 1) }
}
pub open spec fn closp(m: Md, s: Cl, c: Cfg, col: bool, d: int, i: int, n: int) -> Option<Cl> decreases n, 1int, i {
    if i <= 0 { Some(s) } else {
        match closp(m, s, c, col, d, i - 1, n) { None => None, Some(q) => if sret(c.ctx->0, i - 1) == PREDICTION_CONTEXT_EMPTY_RETURN_STATE { Some(q) } else { closc(m, q, popped(c, i - 1), col, d - 1, n) } }
    }
}
pub open spec fn stays(m: Md, s: Cl, c: Cfg) -> Cl { if st(m.e.a, c.state).eps() { s } else { put_cl(m, s, c) } }
pub open spec fn closw(m: Md, s: Cl, c: Cfg, col: bool, d: int, n: int) -> Option<Cl> decreases n, 2int, 0int { clost(m, stays(m, s, c), c, col, d, ntrs(m, c), n) }
pub open spec fn clost(m: Md, s: Cl, c: Cfg, col: bool, d: int, i: int, n: int) -> Option<Cl> decreases n, 1int, i {
    if i <= 0 { Some(s) } else {
        match clost(m, s, c, col, d, i - 1, n) { None => None, Some(q) => match go(m, q.busy, c, col, d, i - 1) { None => Some(q), Some(g) => closc(m, Cl { busy: g.busy, ..q }, g.c, g.col, g.d, n) } }
    }
}
pub open spec fn is_cl(m: Md, s: Cl, c: Cfg, col: bool, d: int, r: Cl) -> bool { exists|n: int| #[trigger] closc(m, s, c, col, d, n) == Some(r) }
pub open spec fn is_pop(m: Md, s: Cl, c: Cfg, col: bool, d: int, i: int, r: Cl) -> bool { exists|n: int| #[trigger] closp(m, s, c, col, d, i, n) == Some(r) }
pub open spec fn is_work(m: Md, s: Cl, c: Cfg, col: bool, d: int, i: int, r: Cl) -> bool { exists|n: int| #[trigger] clost(m, s, c, col, d, i, n) == Some(r) }
pub open spec fn md(e: Env, w: Option<World>, full: bool, eof: bool) -> Md { Md { e, w, full, eof } }
pub open spec fn cl(e: Env, w: Option<World>, s: Cl, c: Cfg, collect: bool, full: bool, eof: bool) -> Cl { choose|r: Cl| #[trigger] is_cl(md(e, w, full, eof), s, c, collect, 0, r) }
pub proof fn closc_mono(m: Md, s: Cl, c: Cfg, col: bool, d: int, n: int, k: int)
    requires closc(m, s, c, col, d, n) is Some, n <= k
    ensures closc(m, s, c, col, d, k) == closc(m, s, c, col, d, n)
    decreases n, 0int, 0int
{
    if st(m.e.a, c.state).stop() && c.ctx->0 != empty_v() {
        let z = slen(c.ctx->0);
        if !has_empty(c.ctx->0) { closp_mono(m, s, c, col, d, z, n - 1, k - 1); }
        else if m.full { closp_mono(m, put_cl(m, s, Cfg { ctx: Some(empty_v()), ..c }), c, col, d, z, n - 1, k - 1); }
        else { clost_mono(m, stays(m, s, c), c, col, d, ntrs(m, c), n - 1, k - 1); closp_mono(m, closw(m, s, c, col, d, n - 1)->0, c, col, d, z, n - 1, k - 1); }
    } else if st(m.e.a, c.state).stop() && m.full { } else { clost_mono(m, stays(m, s, c), c, col, d, ntrs(m, c), n - 1, k - 1); }
}
pub proof fn closp_mono(m: Md, s: Cl, c: Cfg, col: bool, d: int, i: int, n: int, k: int)
    requires closp(m, s, c, col, d, i, n) is Some, n <= k
    ensures closp(m, s, c, col, d, i, k) == closp(m, s, c, col, d, i, n)
    decreases n, 1int, i
{
    if i > 0 {
        closp_mono(m, s, c, col, d, i - 1, n, k);
        let q = closp(m, s, c, col, d, i - 1, n)->0;
        if sret(c.ctx->0, i - 1) != PREDICTION_CONTEXT_EMPTY_RETURN_STATE { closc_mono(m, q, popped(c, i - 1), col, d - 1, n, k); }
    }
}
pub proof fn clost_mono(m: Md, s: Cl, c: Cfg, col: bool, d: int, i: int, n: int, k: int)
    requires clost(m, s, c, col, d, i, n) is Some, n <= k
    ensures clost(m, s, c, col, d, i, k) == clost(m, s, c, col, d, i, n)
    decreases n, 1int, i
{
    if i > 0 {
        clost_mono(m, s, c, col, d, i - 1, n, k);
        let q = clost(m, s, c, col, d, i - 1, n)->0;
        match go(m, q.busy, c, col, d, i - 1) { None => {}, Some(g) => { closc_mono(m, Cl { busy: g.busy, ..q }, g.c, g.col, g.d, n, k); } }
    }
}
pub open spec fn larger(a: int, b: int) -> int { if a >= b { a } else { b } }
// the result, if there is one, is the only one
pub proof fn cl_is(e: Env, w: Option<World>, s: Cl, c: Cfg, col: bool, full: bool, eof: bool, r: Cl)
    requires is_cl(md(e, w, full, eof), s, c, col, 0, r)
    ensures cl(e, w, s, c, col, full, eof) == r
{
    let m = md(e, w, full, eof); let x = cl(e, w, s, c, col, full, eof);
    assert(is_cl(m, s, c, col, 0, x));
    let n = choose|n: int| #[trigger] closc(m, s, c, col, 0, n) == Some(r); let k = choose|n: int| #[trigger] closc(m, s, c, col, 0, n) == Some(x);
    closc_mono(m, s, c, col, 0, n, larger(n, k)); closc_mono(m, s, c, col, 0, k, larger(n, k));
}
pub proof fn work_0(m: Md, s: Cl, c: Cfg, col: bool, d: int) ensures is_work(m, s, c, col, d, 0, s) { assert(clost(m, s, c, col, d, 0, 0) == Some(s)); }
pub proof fn pop_0(m: Md, s: Cl, c: Cfg, col: bool, d: int) ensures is_pop(m, s, c, col, d, 0, s) { assert(closp(m, s, c, col, d, 0, 0) == Some(s)); }
pub proof fn work_skip(m: Md, s: Cl, c: Cfg, col: bool, d: int, i: int, q: Cl)
    requires is_work(m, s, c, col, d, i, q), i >= 0, go(m, q.busy, c, col, d, i) is None
    ensures is_work(m, s, c, col, d, i + 1, q)
{ let n = choose|n: int| #[trigger] clost(m, s, c, col, d, i, n) == Some(q); assert(clost(m, s, c, col, d, i + 1, n) == Some(q)); }
pub proof fn work_go(m: Md, s: Cl, c: Cfg, col: bool, d: int, i: int, q: Cl, r: Cl)
    requires is_work(m, s, c, col, d, i, q), i >= 0, go(m, q.busy, c, col, d, i) is Some,
        ({ let g = go(m, q.busy, c, col, d, i)->0; is_cl(m, Cl { busy: g.busy, ..q }, g.c, g.col, g.d, r) })
    ensures is_work(m, s, c, col, d, i + 1, r)
{
    let g = go(m, q.busy, c, col, d, i)->0; let p = Cl { busy: g.busy, ..q };
    let n = choose|n: int| #[trigger] clost(m, s, c, col, d, i, n) == Some(q); let k = choose|n: int| #[trigger] closc(m, p, g.c, g.col, g.d, n) == Some(r);
    let z = larger(n, k);
    clost_mono(m, s, c, col, d, i, n, z); closc_mono(m, p, g.c, g.col, g.d, k, z);
    assert(clost(m, s, c, col, d, i + 1, z) == Some(r));
}
pub proof fn pop_skip(m: Md, s: Cl, c: Cfg, col: bool, d: int, i: int, q: Cl)
    requires is_pop(m, s, c, col, d, i, q), i >= 0, sret(c.ctx->0, i) == PREDICTION_CONTEXT_EMPTY_RETURN_STATE
    ensures is_pop(m, s, c, col, d, i + 1, q)
{ let n = choose|n: int| #[trigger] closp(m, s, c, col, d, i, n) == Some(q); assert(closp(m, s, c, col, d, i + 1, n) == Some(q)); }
pub proof fn pop_go(m: Md, s: Cl, c: Cfg, col: bool, d: int, i: int, q: Cl, r: Cl)
    requires is_pop(m, s, c, col, d, i, q), i >= 0, sret(c.ctx->0, i) != PREDICTION_CONTEXT_EMPTY_RETURN_STATE, is_cl(m, q, popped(c, i), col, d - 1, r)
    ensures is_pop(m, s, c, col, d, i + 1, r)
{
    let n = choose|n: int| #[trigger] closp(m, s, c, col, d, i, n) == Some(q); let k = choose|n: int| #[trigger] closc(m, q, popped(c, i), col, d - 1, n) == Some(r);
    let z = larger(n, k);
    closp_mono(m, s, c, col, d, i, n, z); closc_mono(m, q, popped(c, i), col, d - 1, k, z);
    assert(closp(m, s, c, col, d, i + 1, z) == Some(r));
}
// not at the end of a rule, or at the end of the rule the decision is in without knowing the caller
pub proof fn cl_work(m: Md, s: Cl, c: Cfg, col: bool, d: int, r: Cl)
    requires !st(m.e.a, c.state).stop() || (c.ctx->0 == empty_v() && !m.full), is_work(m, stays(m, s, c), c, col, d, ntrs(m, c), r)
    ensures is_cl(m, s, c, col, d, r)
{ let n = choose|n: int| #[trigger] clost(m, stays(m, s, c), c, col, d, ntrs(m, c), n) == Some(r); assert(closw(m, s, c, col, d, n) == Some(r)); let z = if n >= 0 { n } else { 0 }; clost_mono(m, stays(m, s, c), c, col, d, ntrs(m, c), n, z); assert(closw(m, s, c, col, d, z) == Some(r)); assert(closc(m, s, c, col, d, z + 1) == Some(r)); }
pub proof fn cl_end(m: Md, s: Cl, c: Cfg, col: bool, d: int)
    requires st(m.e.a, c.state).stop(), c.ctx->0 == empty_v(), m.full
    ensures is_cl(m, s, c, col, d, put_cl(m, s, c))
{ assert(closc(m, s, c, col, d, 1) == Some(put_cl(m, s, c))); }
pub open spec fn ended(m: Md, s: Cl, c: Cfg) -> Cl { if has_empty(c.ctx->0) { put_cl(m, s, Cfg { ctx: Some(empty_v()), ..c }) } else { s } }
pub proof fn cl_pop(m: Md, s: Cl, c: Cfg, col: bool, d: int, q: Cl, r: Cl)
    requires st(m.e.a, c.state).stop(), c.ctx->0 != empty_v(),
        if !has_empty(c.ctx->0) { q == s } else if m.full { q == put_cl(m, s, Cfg { ctx: Some(empty_v()), ..c }) } else { is_work(m, stays(m, s, c), c, col, d, ntrs(m, c), q) },
        is_pop(m, q, c, col, d, slen(c.ctx->0), r)
    ensures is_cl(m, s, c, col, d, r)
{
    let n = choose|n: int| #[trigger] closp(m, q, c, col, d, slen(c.ctx->0), n) == Some(r);
    if has_empty(c.ctx->0) && !m.full {
        let k = choose|n: int| #[trigger] clost(m, stays(m, s, c), c, col, d, ntrs(m, c), n) == Some(q);
        let z = larger(larger(n, k), 0);
        clost_mono(m, stays(m, s, c), c, col, d, ntrs(m, c), k, z); closp_mono(m, q, c, col, d, slen(c.ctx->0), n, z);
        assert(closw(m, s, c, col, d, z) == Some(q));
        assert(closc(m, s, c, col, d, z + 1) == Some(r));
    } else { let z = larger(n, 0); closp_mono(m, q, c, col, d, slen(c.ctx->0), n, z); assert(closc(m, s, c, col, d, z + 1) == Some(r)); }
}
// only whether the rule was left matters, not how often
pub proof fn lemma_fl(m: Md, c: Cfg, t: Tr, col: bool, here: bool)
    requires c.up >= 0
    ensures epst(m, fl(c), t, col, here) == (match epst(m, c, t, col, here) { Some(x) => Some(fl(x)), None => None }), epst(m, c, t, col, here) is Some ==> (epst(m, c, t, col, here)->0).up == c.up && (epst(m, c, t, col, here)->0).alt == c.alt && (epst(m, c, t, col, here)->0).kind == c.kind, drops(m.e.a, fl(c)) == drops(m.e.a, c)
{
    assert(forall|i: int| #[trigger] back_at(m.e.a, fl(c), i) == back_at(m.e.a, c, i));
    if drops(m.e.a, fl(c)) { assert forall|i: int| 0 <= i < slen(c.ctx->0) implies #[trigger] back_at(m.e.a, c, i) by { assert(back_at(m.e.a, fl(c), i)); } }
    if drops(m.e.a, c) { assert forall|i: int| 0 <= i < slen(c.ctx->0) implies #[trigger] back_at(m.e.a, fl(c), i) by { assert(back_at(m.e.a, c, i)); } }
}
// targets of the edges of one configuration that take t
pub open spec fn step1(a: ATN, acc: Seq<Cfg>, c: Cfg, t: int, n: int, wild: bool) -> Seq<Cfg> decreases n {
    if n <= 0 { acc } else {
        let p = step1(a, acc, c, t, n - 1, wild);
        let tr = st(a, c.state).trs()[n - 1];
        if tr.mat(t, a.max_token_type as int) { put(p, moved(c, tr.tgt()), wild) } else { p }
    }
}
pub open spec fn inter(a: ATN, c: Seq<Cfg>, t: int, n: int, wild: bool) -> Seq<Cfg> decreases n {
    if n <= 0 { Seq::empty() } else {
        let p = inter(a, c, t, n - 1, wild);
        if st(a, c[n - 1].state).stop() { p } else { step1(a, p, c[n - 1], t, st(a, c[n - 1].state).trs().len() as int, wild) }
    }
}
// configurations that already finished the rule: kept at end of input and in full-context mode
pub open spec fn skipped(a: ATN, c: Seq<Cfg>, t: int, full: bool, n: int) -> Seq<Cfg> decreases n {
    if n <= 0 { Seq::empty() } else {
        let p = skipped(a, c, t, full, n - 1);
        if st(a, c[n - 1].state).stop() && (full || t == -1) { p.push(c[n - 1]) } else { p }
    }
}
pub open spec fn same_alt(c: Seq<Cfg>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).alt == c[0].alt }
pub open spec fn uniq(c: Seq<Cfg>) -> int { if c.len() > 0 && same_alt(c) { c[0].alt } else { 0 } }
pub open spec fn close(e: Env, w: Option<World>, s: Cl, c: Seq<Cfg>, n: int, full: bool, eof: bool) -> Cl decreases n {
    if n <= 0 { s } else { cl(e, w, close(e, w, s, c, n - 1, full, eof), c[n - 1], false, full, eof) }
}
pub open spec fn any_stop(a: ATN, c: Seq<Cfg>) -> bool { exists|i: int| 0 <= i < c.len() && st(a, (#[trigger] c[i]).state).stop() }
pub open spec fn all_stop(a: ATN, c: Seq<Cfg>) -> bool { forall|i: int| 0 <= i < c.len() ==> st(a, (#[trigger] c[i]).state).stop() }
pub open spec fn keep_stop(a: ATN, c: Seq<Cfg>, n: int, wild: bool) -> Seq<Cfg> decreases n {
    if n <= 0 { Seq::empty() } else { let p = keep_stop(a, c, n - 1, wild); if st(a, c[n - 1].state).stop() { put(p, c[n - 1], wild) } else { p } }
}
pub open spec fn only_stop(a: ATN, c: Seq<Cfg>, wild: bool) -> Seq<Cfg> { if all_stop(a, c) { c } else { keep_stop(a, c, c.len() as int, wild) } }
pub open spec fn put_all(o: Seq<Cfg>, s: Seq<Cfg>, n: int, wild: bool) -> Seq<Cfg> decreases n { if n <= 0 { o } else { put(put_all(o, s, n - 1, wild), s[n - 1], wild) } }
pub open spec fn cl0() -> Cl { Cl { conf: Seq::empty(), busy: ISet::empty() } }
pub open spec fn reach0(e: Env, w: Option<World>, c: Seq<Cfg>, t: int, full: bool) -> Seq<Cfg> {
    let i = inter(e.a, c, t, c.len() as int, !full);
    if skipped(e.a, c, t, full, c.len() as int).len() == 0 && t != -1 && (i.len() == 1 || uniq(i) != 0) { i } else { close(e, w, cl0(), i, i.len() as int, full, t == -1).conf }
}
pub open spec fn reach1(e: Env, w: Option<World>, c: Seq<Cfg>, t: int, full: bool) -> Seq<Cfg> { if t == -1 { only_stop(e.a, reach0(e, w, c, t, full), !full) } else { reach0(e, w, c, t, full) } }
pub open spec fn reach(e: Env, w: Option<World>, c: Seq<Cfg>, t: int, full: bool) -> Seq<Cfg> {
    let r = reach1(e, w, c, t, full); let s = skipped(e.a, c, t, full, c.len() as int);
    if s.len() > 0 && (!full || !any_stop(e.a, r)) { put_all(r, s, s.len() as int, !full) } else { r }
}
// where prediction starts: every alternative, with everything reached before a token
pub open spec fn alt_cfg(e: Env, i: int, ctx: int) -> Cfg { Cfg { state: st(e.a, st(e.a, e.start).trs()[i].tgt()).num(), alt: i + 1, ctx: Some(ctx), sem: none_v(), up: 0, supp: false, kind: None } }
pub open spec fn start_n(e: Env, w: Option<World>, ctx: int, full: bool, n: int) -> Seq<Cfg> decreases n {
    if n <= 0 { Seq::empty() } else { cl(e, w, Cl { conf: start_n(e, w, ctx, full, n - 1), busy: ISet::empty() }, alt_cfg(e, n - 1, ctx), true, full, false).conf }
}
pub open spec fn start(e: Env, w: Option<World>, ctx: int, full: bool) -> Seq<Cfg> { start_n(e, w, ctx, full, nalts(e)) }
// left-recursive rules: the alternatives the precedence level rules out are dropped
pub open spec fn prec_cfg(level: int, c: Cfg) -> Option<Cfg> {
    match evalp(level, c.sem) { None => None, Some(s) => Some(if s != c.sem { Cfg { state: c.state, alt: c.alt, ctx: c.ctx, sem: s, up: 0, supp: false, kind: None } } else { c }) }
}
pub open spec fn filt1(level: int, c: Seq<Cfg>, n: int, wild: bool) -> Seq<Cfg> decreases n {
    if n <= 0 { Seq::empty() } else {
        let p = filt1(level, c, n - 1, wild);
        if c[n - 1].alt != 1 { p } else { match prec_cfg(level, c[n - 1]) { None => p, Some(d) => put(p, d, wild) } }
    }
}
pub open spec fn seen1(level: int, c: Seq<Cfg>, n: int) -> Map<int, Option<int>> decreases n {
    if n <= 0 { Map::empty() } else {
        let p = seen1(level, c, n - 1);
        if c[n - 1].alt != 1 || evalp(level, c[n - 1].sem) is None { p } else { p.insert(c[n - 1].state, c[n - 1].ctx) }
    }
}
pub open spec fn shadowed(m: Map<int, Option<int>>, c: Cfg) -> bool { !c.supp && m.contains_key(c.state) && m[c.state] == c.ctx }
pub open spec fn filt2(level: int, o: Seq<Cfg>, m: Map<int, Option<int>>, c: Seq<Cfg>, n: int, wild: bool) -> Seq<Cfg> decreases n {
    if n <= 0 { o } else {
        let p = filt2(level, o, m, c, n - 1, wild);
        if c[n - 1].alt == 1 || shadowed(m, c[n - 1]) { p } else { put(p, c[n - 1], wild) }
    }
}
pub open spec fn filtered(level: int, c: Seq<Cfg>, wild: bool) -> Seq<Cfg> { filt2(level, filt1(level, c, c.len() as int, wild), seen1(level, c, c.len() as int), c, c.len() as int, wild) }
pub open spec fn sll_start(e: Env, level: int) -> Seq<Cfg> { let c = start(e, None, empty_v(), false); if e.prec { filtered(level, c, true) } else { c } }

// ---------- when and what a set of configurations decides ---------------------------------------
pub ghost struct CS { pub c: Seq<Cfg>, pub uniq: int, pub conf: Set<int> }
pub open spec fn has_alt(c: Seq<Cfg>, x: int) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).alt == x }
pub open spec fn conflicting(e: Env, c: Seq<Cfg>) -> bool { uniq(c) == 0 && (all_stop(e.a, c) || sll_conflict(e.mode, c)) }
pub open spec fn decided(e: Env, c: Seq<Cfg>) -> bool { uniq(c) != 0 || conflicting(e, c) }
pub open spec fn target_cs(e: Env, c: Seq<Cfg>, s: CS) -> bool {
    s.c == c && s.uniq == uniq(c) && (forall|x: int| #[trigger] s.conf.contains(x) == (conflicting(e, c) && has_alt(c, x)))
}
// the alternatives a decided set offers
pub open spec fn offered(s: CS, x: int) -> bool { if s.uniq != 0 { x == s.uniq } else { s.conf.contains(x) } }
// one of the alternative's configurations has a predicate that holds
pub open spec fn holds(c: Seq<Cfg>, w: World, x: int) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).alt == x && truth(w, c[i].sem) }
pub open spec fn viable(s: CS, w: World, x: int) -> bool { offered(s, x) && holds(s.c, w, x) }
pub open spec fn least_viable(s: CS, w: World, x: int) -> bool { viable(s, w, x) && forall|y: int| #[trigger] viable(s, w, y) ==> x <= y }
pub open spec fn only_viable(s: CS, w: World, x: int) -> bool { viable(s, w, x) && forall|y: int| #[trigger] viable(s, w, y) ==> x == y }
// full context: one alternative, or every configuration group is led by the same one
pub open spec fn leads(c: Seq<Cfg>, x: int) -> bool { forall|k: (int, Option<int>)| present(c, true, k) ==> #[trigger] lead1(c, k, x) }
pub open spec fn lead1(c: Seq<Cfg>, k: (int, Option<int>), x: int) -> bool { member(c, true, k, x) && forall|y: int| #[trigger] member(c, true, k, y) ==> x <= y }
pub open spec fn all_shared(c: Seq<Cfg>) -> bool { forall|k: (int, Option<int>), j: (int, Option<int>), x: int| present(c, true, k) && present(c, true, j) ==> (#[trigger] member(c, true, k, x) == #[trigger] member(c, true, j, x)) }
pub open spec fn no_lone(c: Seq<Cfg>) -> bool { forall|k: (int, Option<int>)| #[trigger] present(c, true, k) ==> two(c, k) }
pub open spec fn two(c: Seq<Cfg>, k: (int, Option<int>)) -> bool { exists|x: int, y: int| x != y && #[trigger] member(c, true, k, x) && #[trigger] member(c, true, k, y) }
pub open spec fn ll_done(mode: PredictionMode, c: Seq<Cfg>, x: int) -> bool {
    if uniq(c) != 0 { x == uniq(c) }
    else if mode != PredictionMode::LL_EXACT_AMBIG_DETECTION { leads(c, x) }
    else { no_lone(c) && all_shared(c) && leads(c, x) }
}
pub open spec fn ll_open(mode: PredictionMode, c: Seq<Cfg>) -> bool { forall|x: int| !#[trigger] ll_done(mode, c, x) }
// a dead end: an alternative that got to the end of the rule the decision is in, predicates permitting, else none
pub open spec fn finished(a: ATN, c: Cfg) -> bool { c.up > 0 || (st(a, c.state).stop() && c.ctx is Some && has_empty(c.ctx->0)) }
pub open spec fn fin_alt(a: ATN, c: Seq<Cfg>, w: World, good: bool, x: int) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).alt == x && finished(a, c[i]) && truth(w, c[i].sem) == good }
pub open spec fn fin_least(a: ATN, c: Seq<Cfg>, w: World, good: bool, x: int) -> bool { fin_alt(a, c, w, good, x) && forall|y: int| #[trigger] fin_alt(a, c, w, good, y) ==> x <= y }
pub open spec fn fin_none(a: ATN, c: Seq<Cfg>, w: World, good: bool) -> bool { forall|y: int| !#[trigger] fin_alt(a, c, w, good, y) }
pub open spec fn salvage(a: ATN, c: Seq<Cfg>, w: World, x: int) -> bool {
    if x == 0 { fin_none(a, c, w, true) && fin_none(a, c, w, false) } else { fin_least(a, c, w, true, x) || (fin_none(a, c, w, true) && fin_least(a, c, w, false, x)) }
}
pub open spec fn err_at(r: Result<isize, PErr>, first: int, off: int) -> bool { match r { Err(x) => x.first() == first && x.offending() == off, Ok(_) => false } }
pub open spec fn dead_end(e: Env, w: World, c: Seq<Cfg>, first: int, off: int, r: Result<isize, PErr>) -> bool {
    exists|x: int| #[trigger] salvage(e.a, c, w, x) && if x == 0 { err_at(r, first, off) } else { r == Ok::<isize, PErr>(x as isize) }
}
// ---------- the whole prediction ------------------------------------------------------------------
pub open spec fn posn(v: PV, k: int) -> int decreases k { if k <= 0 { v.cur } else { nxt(v, posn(v, k - 1)) } }
pub open spec fn run(e: Env, w: Option<World>, v: PV, c: Seq<Cfg>, full: bool, k: int) -> Seq<Cfg> decreases k {
    if k <= 0 { c } else { reach(e, w, run(e, w, v, c, full, k - 1), ty(v, posn(v, k - 1)), full) }
}
pub open spec fn going_ll(e: Env, w: World, v: PV, c: Seq<Cfg>, i: int) -> bool { run(e, Some(w), v, c, true, i).len() > 0 && ll_open(e.mode, run(e, Some(w), v, c, true, i)) }
pub open spec fn full_at(e: Env, w: World, v: PV, c: Seq<Cfg>, k: int, r: Result<isize, PErr>) -> bool {
    let d = run(e, Some(w), v, c, true, k);
    &&& k >= 1
    &&& forall|i: int| 1 <= i < k ==> #[trigger] going_ll(e, w, v, c, i)
    &&& if d.len() == 0 { dead_end(e, w, run(e, Some(w), v, c, true, k - 1), ix(v), (v.idx)(posn(v, k - 1)), r) }
        else { match r { Ok(x) => ll_done(e.mode, d, x as int), Err(_) => false } }
}
pub open spec fn full(e: Env, w: World, v: PV, r: Result<isize, PErr>) -> bool { exists|k: int| #[trigger] full_at(e, w, v, start(e, Some(w), stack_of(v.ctx), true), k, r) }
pub open spec fn going(e: Env, v: PV, c: Seq<Cfg>, i: int) -> bool { run(e, None, v, c, false, i).len() > 0 && !decided(e, run(e, None, v, c, false, i)) }
pub open spec fn sll_verdict(e: Env, v: PV, s: CS, r: Result<isize, PErr>) -> bool {
    let w = (v.world)(ix(v));
    if conflicting(e, s.c) && e.mode != PredictionMode::SLL {
        (exists|x: int| #[trigger] only_viable(s, w, x) && r == Ok::<isize, PErr>(x as isize)) || ((forall|x: int| !#[trigger] only_viable(s, w, x)) && full(e, w, v, r))
    } else {
        (exists|x: int| #[trigger] least_viable(s, w, x) && r == Ok::<isize, PErr>(x as isize)) || ((forall|x: int| !#[trigger] viable(s, w, x)) && err_at(r, ix(v), ix(v)))
    }
}
pub open spec fn sll_at(e: Env, v: PV, c: Seq<Cfg>, k: int, r: Result<isize, PErr>) -> bool {
    let d = run(e, None, v, c, false, k);
    &&& k >= 1
    &&& forall|i: int| 1 <= i < k ==> #[trigger] going(e, v, c, i)
    &&& if d.len() == 0 { dead_end(e, (v.world)(ix(v)), run(e, None, v, c, false, k - 1), ix(v), (v.idx)(posn(v, k - 1)), r) }
        else { decided(e, d) && exists|s: CS| #[trigger] target_cs(e, d, s) && sll_verdict(e, v, s, r) }
}
pub open spec fn predicted(e: Env, v: PV, c: Seq<Cfg>, r: Result<isize, PErr>) -> bool { exists|k: int| #[trigger] sll_at(e, v, c, k, r) }

// ---------- the cache --------------------------------------------------------------------------------
//@ item src/dfa_state.rs struct PredPrediction
//@ item src/dfa_state.rs struct DFAState
#[verifier::external_body]
pub struct StatesMap { x: usize }
// HashMap<u64, Vec<DFAStateRef>>
impl StatesMap {
    pub uninterp spec fn m(&self) -> Map<u64, Seq<usize>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<u64, Seq<usize>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_(&self, k: &u64) -> (r: Option<Vec<DFAStateRef>>) ensures match r { Some(v) => self.m().contains_key(*k) && v@ == self.m()[*k], None => !self.m().contains_key(*k) } { unimplemented!() }
    // entry(k).or_insert(Vec::new()).push(x)
    #[verifier::external_body]
    pub fn push_at(&mut self, k: u64, x: DFAStateRef) ensures final(self).m() == old(self).m().insert(k, (if old(self).m().contains_key(k) { old(self).m()[k] } else { Seq::empty() }).push(x)) { unimplemented!() }
}
pub open spec fn map_ok(m: Map<u64, Seq<usize>>, lo: int, n: int) -> bool { forall|k: u64, i: int| m.contains_key(k) && 0 <= i < m[k].len() ==> lo <= #[trigger] m[k][i] < n }
//@ item src/dfa.rs struct DFA
//@ retype HashMap<u64, Vec<DFAStateRef> > => StatesMap
impl DFAState {
    pub open spec fn cs(&self) -> CS { CS { c: self.configs.e(), uniq: self.configs.unique_alt as int, conf: self.configs.conflicting_alts.s() } }
    pub open spec fn edge(&self, t: int) -> usize { if 0 <= t < self.edges@.len() { self.edges@[t] } else { 0 } }
//@ fn src/dfa_state.rs DFAState::new_dfastate {ret=r}
    ensures r.configs == configs, r.edges@.len() == 0, !r.is_accept_state, !r.requires_full_context, r.predicates@.len() == 0, r.prediction == 0, r.state_number == state_number
//@ end
}
// state by state, what equality of cached states looks at
pub open spec fn same_up(a: Cfg, b: Cfg) -> bool { (a.up > 0) == (b.up > 0) }
#[verifier::external_body]
pub fn all_pairs<F: Fn(&ATNConfig, &ATNConfig) -> bool>(a: &Vec<Box<ATNConfig>>, b: &Vec<Box<ATNConfig>>, f: F) -> (r: bool)
    requires forall|x: &ATNConfig, y: &ATNConfig| f.requires((x, y))
    ensures r ==> forall|i: int| #![trigger a@[i]] 0 <= i < a@.len() && i < b@.len() ==> f.ensures((&*a@[i], &*b@[i]), true),
        !r ==> exists|i: int| #![trigger a@[i]] 0 <= i < a@.len() && i < b@.len() && f.ensures((&*a@[i], &*b@[i]), false)
{ a.iter().zip(b.iter()).all(|(x, y)| f(x, y)) }
// iter().find() over the indices in a bucket
#[verifier::external_body]
pub fn find_by<F: Fn(DFAStateRef) -> bool>(v: &Vec<DFAStateRef>, f: F) -> (r: Option<DFAStateRef>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures match r { Some(x) => v@.contains(x) && f.ensures((x,), true), None => forall|i: int| 0 <= i < v@.len() ==> f.ensures((#[trigger] v@[i],), false) }
{ v.iter().copied().find(|x| f(*x)) }
impl DFAState {
//@ fn src/dfa_state.rs PartialEq for DFAState::eq {ret=r nopub}
    requires self.configs.ups(), other.configs.ups()
    ensures r == (self.configs.cfgs().len() == other.configs.cfgs().len() && self.cs() == other.cs() && self.configs.full_ctx == other.configs.full_ctx && self.configs.has_semantic_context == other.configs.has_semantic_context && self.configs.dips_into_outer_context == other.configs.dips_into_outer_context)
//@ rewrite self.configs == other.configs => self.configs.same(&other.configs)
//@ rewrite self.configs.get_items().zip(other.configs.get_items()).all(|(a, b)| { __body }) => all_pairs(&self.configs.configs, &other.configs.configs, |a: &ATNConfig, b: &ATNConfig| -> (r: bool) ensures r == same_up(a.v(), b.v()) { __body })
//@ at fn start
    proof { lemma_state_eq(&self.configs, &other.configs); }
//@ end
}
pub proof fn lemma_ups(a: ATN, n: int, s: &ATNConfigSet) requires s.ok(a, n) ensures s.ups() { assert forall|i: int| 0 <= i < s.cfgs().len() implies (#[trigger] s.cfgs()[i]).up >= 0 by { assert(cfg_fin(a, n, s.cfgs()[i])); } }
pub proof fn lemma_state_eq(a: &ATNConfigSet, b: &ATNConfigSet)
    requires a.ups(), b.ups()
    ensures (a.e() == b.e()) == (a.cfgs().len() == b.cfgs().len() && (forall|i: int| 0 <= i < a.cfgs().len() ==> #[trigger] eqv(a.cfgs()[i]) == eqv(b.cfgs()[i])) && (forall|i: int| #![trigger a.configs@[i]] 0 <= i < a.cfgs().len() ==> same_up(a.configs@[i].v(), b.configs@[i].v())))
{
    let x = a.cfgs(); let y = b.cfgs();
    if a.e() == b.e() {
        assert(a.e().len() == b.e().len());
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] eqv(x[i]) == eqv(y[i]) by { assert(a.e()[i] == b.e()[i]); assert(fl(x[i]) == fl(y[i])); }
        assert forall|i: int| #![trigger a.configs@[i]] 0 <= i < x.len() implies same_up(a.configs@[i].v(), b.configs@[i].v()) by { assert(a.e()[i] == b.e()[i]); assert(fl(x[i]) == fl(y[i])); }
    }
    if x.len() == y.len() && (forall|i: int| 0 <= i < x.len() ==> #[trigger] eqv(x[i]) == eqv(y[i])) && (forall|i: int| #![trigger a.configs@[i]] 0 <= i < x.len() ==> same_up(a.configs@[i].v(), b.configs@[i].v())) {
        assert forall|i: int| 0 <= i < x.len() implies a.e()[i] == b.e()[i] by { assert(eqv(x[i]) == eqv(y[i])); let _ = a.configs@[i]; assert(fl(x[i]) == fl(y[i])); }
        assert(a.e() =~= b.e());
    }
}
pub open spec fn pred_alt(p: Seq<PredPrediction>, w: World, x: int) -> bool { exists|j: int| 0 <= j < p.len() && (#[trigger] p[j]).alt == x && truth(w, p[j].pred.v()) }
pub open spec fn accept_ok(s: DFAState) -> bool {
    let d = s.cs();
    &&& s.predicates@.len() == 0 ==> offered(d, s.prediction as int) && (forall|y: int| #[trigger] offered(d, y) ==> s.prediction <= y) && (forall|w: World, x: int| offered(d, x) ==> #[trigger] holds(d.c, w, x))
    &&& s.predicates@.len() > 0 ==> (forall|w: World, x: int| #[trigger] viable(d, w, x) == pred_alt(s.predicates@, w, x)) && (forall|j: int| 0 <= j < s.predicates@.len() ==> 1 <= (#[trigger] s.predicates@[j]).alt < 0x1000_0001)
}
// what a state says about its configurations
pub open spec fn verdict_ok(s: DFAState) -> bool {
    let d = s.cs();
    &&& s.is_accept_state == (exists|x: int| #[trigger] offered(d, x))
    &&& s.requires_full_context == (exists|x: int| #[trigger] d.conf.contains(x))
    &&& d.uniq != 0 ==> !s.requires_full_context
    &&& s.is_accept_state ==> accept_ok(s)
    &&& s.predicates@.len() > 0 ==> s.is_accept_state
}
pub open spec fn edge_ok(e: Env, d: Seq<DFAState>, s: int, t: int) -> bool {
    let x = d[s].edge(t + 1);
    x != 0 ==> {
        let r = reach(e, None, d[s].cs().c, t, false);
        if x == usize::MAX { r.len() == 0 } else { first(e) <= x < d.len() && r.len() > 0 && target_cs(e, r, d[x as int].cs()) }
    }
}
// state 1 of a precedence automaton only holds the start states by precedence level
pub open spec fn first(e: Env) -> int { if e.prec { 2 } else { 1 } }
pub open spec fn state_ok(e: Env, d: Seq<DFAState>, s: int) -> bool {
    &&& d[s].configs.ok(e.a, nalts(e)) && !d[s].configs.full_ctx
    &&& verdict_ok(d[s])
    &&& forall|t: int| #[trigger] edge_ok(e, d, s, t)
    &&& d[s].edges@.len() == 0 || d[s].edges@.len() == e.a.max_token_type + 2
}
// undecided, with the given configurations
pub open spec fn plain(s: CS, c: Seq<Cfg>) -> bool { s.c == c && s.uniq == 0 && forall|x: int| !#[trigger] s.conf.contains(x) }
pub open spec fn level_ok(e: Env, d: Seq<DFAState>, p: int) -> bool {
    let x = d[1].edge(p);
    x != 0 ==> 2 <= x < d.len() && plain(d[x as int].cs(), sll_start(e, p))
}
pub open spec fn dfa_ok(e: Env, d: &DFA) -> bool {
    &&& env_ok(e) && d.is_precedence_dfa == e.prec && d.atn_start_state == e.start && d.decision == e.dec
    &&& first(e) <= d.states@.len() && map_ok(d.states_map.m(), first(e), d.states@.len() as int)
    &&& forall|s: int| first(e) <= s < d.states@.len() ==> #[trigger] state_ok(e, d.states@, s)
    &&& if e.prec { d.s0 == Some(1usize) && forall|p: int| #[trigger] level_ok(e, d.states@, p) }
        else { match d.s0 { Some(s) => 1 <= s < d.states@.len() && plain(d.states@[s as int].cs(), sll_start(e, 0)), None => true } }
}
pub open spec fn same_verdict(a: DFAState, b: DFAState) -> bool { a.configs == b.configs && a.is_accept_state == b.is_accept_state && a.prediction == b.prediction && a.requires_full_context == b.requires_full_context && a.predicates == b.predicates }
pub open spec fn grows(e: Env, d0: &DFA, d1: &DFA) -> bool {
    &&& d0.states@.len() <= d1.states@.len() && d1.s0 == d0.s0 && d1.is_precedence_dfa == d0.is_precedence_dfa && d1.atn_start_state == d0.atn_start_state && d1.decision == d0.decision
    &&& forall|s: int| first(e) <= s < d0.states@.len() ==> same_verdict(#[trigger] d1.states@[s], d0.states@[s])
}
// an isize as an index: negative values are beyond the end of every vector
#[verifier::external_body]
pub fn as_index(i: isize) -> (r: usize) ensures i >= 0 ==> r == i, i < 0 ==> r > isize::MAX { i as usize }
pub axiom fn edges_bound(v: Vec<DFAStateRef>) ensures v@.len() < 0x7fff_ffff_ffff_ffff;
pub axiom fn vec_bound(v: Vec<DFAState>) ensures v@.len() < 0x7fff_ffff_ffff_ffff;
pub open spec fn is_prec(s: AState) -> bool { match s.kind() { ATNStateType::DecisionState { state, .. } => match state { ATNDecisionState::StarLoopEntry { is_precedence, .. } => is_precedence, _ => false }, _ => false } }
pub open spec fn decision_env(s: &ParserATNSimulator, d: int) -> Env { let x = s.a.decision_to_state@[d] as int; Env { a: s.a, mode: s.prediction_mode, prec: is_prec(st(s.a, x)), start: x, dec: d } }
impl DFA {
// the empty cache is a correct one
//@ fn src/dfa.rs DFA::new {ret=r}
    requires atn_start_state < atn.states@.len()
    ensures r.decision == decision, r.atn_start_state == atn_start_state, r.is_precedence_dfa == is_prec(st(*atn, atn_start_state as int)),
        forall|e: Env| env_ok(e) && e.a == *atn && e.start == atn_start_state && e.dec == decision && e.prec == is_prec(st(*atn, atn_start_state as int)) ==> #[trigger] dfa_ok(e, &r)
//@ rewrite DFA { atn_start_state, decision, states: Default::default(), states_map: Default::default(), s0: Default::default(), is_precedence_dfa: __p } => DFA { atn_start_state, decision, states: Vec::new(), states_map: StatesMap::new(), s0: None, is_precedence_dfa: __p }
//@ rewrite usize::max_value() => usize::MAX
//@ end
//@ fn src/dfa.rs DFA::is_precedence_dfa {ret=r}
    ensures r == self.is_precedence_dfa
//@ end
//@ fn src/dfa.rs DFA::get_precedence_start_state {ret=r}
    requires self.is_precedence_dfa, self.s0 == Some(1usize), 2 <= self.states@.len()
    ensures r == (if self.states@[1].edge(_precedence as int) == 0 { None } else { Some(self.states@[1].edge(_precedence as int)) })
//@ rewrite self.s0.and_then(|s0| { __body }) => match self.s0 { Some(s0) => { __body }, None => None }
//@ rewrite __v.get(__i).and_then(|__x| match __y { 0 => None, __z => Some(__w), }) ==>> match vget(&__v, __i) { Some(__x) => match __x { 0 => None, __z => Some(__w) }, None => None }
//@ rewrite *it => it
//@ rewrite _precedence as usize => as_index(_precedence)
//@ rewrite panic!(__e) => vassert(false)
//@ at fn start
    proof { edges_bound(self.states@[1].edges); }
//@ end
//@ fn src/dfa.rs DFA::set_precedence_start_state
    requires old(self).is_precedence_dfa, old(self).s0 == Some(1usize), 2 <= old(self).states@.len()
    ensures final(self).states@.len() == old(self).states@.len(), forall|i: int| 0 <= i < old(self).states@.len() && i != 1 ==> #[trigger] final(self).states@[i] == old(self).states@[i],
        final(self).s0 == old(self).s0, final(self).is_precedence_dfa == old(self).is_precedence_dfa, final(self).atn_start_state == old(self).atn_start_state, final(self).decision == old(self).decision, final(self).states_map == old(self).states_map,
        forall|p: int| #[trigger] final(self).states@[1].edge(p) == (if p == precedence && p >= 0 { _start_state } else { old(self).states@[1].edge(p) })
//@ rewrite self.states[*x].edges.apply(|edges| { __body }) => { let edges = &mut self.states[*x].edges; __body }
//@ rewrite edges.resize(__n, 0) => resize0(edges, __n)
//@ rewrite panic!(__e) => vassert(false)
//@ end
}
// ---------- the simulator -------------------------------------------------------------------------------
pub struct ParserATNSimulator { pub a: ATN, pub prediction_mode: PredictionMode, pub start_index: isize }
pub open spec fn env_of(s: &ParserATNSimulator, d: &DFA) -> Env { Env { a: s.a, mode: s.prediction_mode, prec: d.is_precedence_dfa, start: d.atn_start_state as int, dec: d.decision as int } }
use std::marker::PhantomData;
// the lock guards are modelled by the cache they protect
pub struct Local<'a, T: Parser> { pub outer_context: Ctx, pub dfa: Option<DFA>, pub dfa_mut: Option<DFA>, pub precedence: isize, pub parser: &'a mut T, pub pd: PhantomData<T> }
pub open spec fn lv<T: Parser>(l: Local<T>) -> PV { l.parser.v() }
pub open spec fn le<T: Parser>(s: &ParserATNSimulator, l: Local<T>) -> Env { env_of(s, &l.dfa->0) }
pub open spec fn base_ok<T: Parser>(s: &ParserATNSimulator, l: Local<T>) -> bool {
    l.outer_context.v() == lv(l).ctx && l.precedence == lv(l).prec && at_token(lv(l), s.start_index as int)
}
pub open spec fn l_ok<T: Parser>(s: &ParserATNSimulator, l: Local<T>) -> bool { base_ok(s, l) && l.dfa is Some && dfa_ok(le(s, l), &l.dfa->0) }
// nothing but the position moved, and the cache only grew
#[verifier::prophetic]
pub open spec fn frame<T: Parser>(x: Local<T>, y: Local<T>) -> bool {
    &&& y.outer_context == x.outer_context && y.precedence == x.precedence && *final(y.parser) == *final(x.parser)
    &&& lv(y) == goto_(lv(x), lv(y).cur)
}
#[verifier::prophetic]
pub open spec fn kept<T: Parser>(x: Local<T>, y: Local<T>) -> bool { frame(x, y) && lv(y) == lv(x) && y.dfa == x.dfa && y.dfa_mut == x.dfa_mut }
pub open spec fn w0<T: Parser>(s: &ParserATNSimulator, l: Local<T>) -> World { (lv(l).world)(s.start_index as int) }
pub open spec fn wf_(full: bool, w: World) -> Option<World> { if full { Some(w) } else { None } }

impl<'a, T: Parser> Local<'a, T> {
//@ fn src/parser_atn_simulator.rs Local::dfa {ret=r}
    requires self.dfa is Some
    ensures *r == self.dfa->0
//@ rewrite self.dfa.as_deref() => self.dfa.as_ref()
//@ end
//@ fn src/parser_atn_simulator.rs Local::dfa_mut {ret=r}
    requires old(self).dfa_mut is Some
    ensures *r == old(self).dfa_mut->0, final(self).dfa_mut == Some(*final(r)), final(self).dfa == old(self).dfa, final(self).outer_context == old(self).outer_context, final(self).precedence == old(self).precedence, final(self).parser == old(self).parser
//@ rewrite __x.deref_mut() => __x
//@ end
//@ fn src/parser_atn_simulator.rs Local::upgrade_lock
    requires old(self).dfa is Some
    ensures final(self).dfa is None, final(self).dfa_mut == old(self).dfa, final(self).outer_context == old(self).outer_context, final(self).precedence == old(self).precedence, final(self).parser == old(self).parser
//@ rewrite RwLockUpgradableReadGuard::upgrade(__x) => __x
//@ end
//@ fn src/parser_atn_simulator.rs Local::downgrade_lock
    requires old(self).dfa_mut is Some
    ensures final(self).dfa_mut is None, final(self).dfa == old(self).dfa_mut, final(self).outer_context == old(self).outer_context, final(self).precedence == old(self).precedence, final(self).parser == old(self).parser
//@ rewrite RwLockWriteGuard::downgrade_to_upgradable(__x) => __x
//@ end
}
impl ParserATNSimulator {
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::get_unique_alt {ret=r}
    requires forall|i: int| 0 <= i < configs.cfgs().len() ==> (#[trigger] configs.cfgs()[i]).alt >= 1
    ensures r == uniq(configs.e()), r == uniq(configs.cfgs())
//@ rewrite configs.get_items() => &configs.configs
//@ loop 0 for {index=it}
    invariant it <= configs.configs@.len(), it_v@ == configs.configs@,
        forall|i: int| 0 <= i < configs.cfgs().len() ==> (#[trigger] configs.cfgs()[i]).alt >= 1,
        uniq(configs.e()) == uniq(configs.cfgs()), it == 0 ==> alt == 0, it > 0 ==> alt == configs.cfgs()[0].alt, forall|i: int| 0 <= i < it ==> (#[trigger] configs.cfgs()[i]).alt == alt,
//@ at fn start
    proof { lemma_uniq_er(configs.cfgs()); }
//@ at loop 0 start
    proof { let _ = configs.cfgs()[it - 1]; assert(configs.cfgs()[it - 1] == configs.configs@[it - 1].v()); if it > 1 { assert(configs.cfgs()[it - 1].alt != configs.cfgs()[0].alt ==> !same_alt(configs.cfgs())); } }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::has_config_in_rule_stop_state {ret=r}
    requires forall|i: int| 0 <= i < configs.cfgs().len() ==> 0 <= (#[trigger] configs.cfgs()[i]).state < self.a.states@.len()
    ensures r == any_stop(self.a, configs.e())
//@ rewrite self.atn() => (&self.a)
//@ rewrite configs.get_items() => &configs.configs
//@ loop 0 for {index=it}
    invariant it <= configs.configs@.len(), it_v@ == configs.configs@,
        forall|i: int| 0 <= i < configs.cfgs().len() ==> 0 <= (#[trigger] configs.cfgs()[i]).state < self.a.states@.len(),
        forall|i: int| 0 <= i < it ==> !st(self.a, (#[trigger] configs.e()[i]).state).stop(),
//@ at loop 0 start
    proof { let _ = configs.cfgs()[it - 1]; let _ = configs.e()[it - 1]; }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::all_configs_in_rule_stop_state {ret=r}
    requires forall|i: int| 0 <= i < configs.cfgs().len() ==> 0 <= (#[trigger] configs.cfgs()[i]).state < self.a.states@.len()
    ensures r == all_stop(self.a, configs.e())
//@ rewrite self.atn() => (&self.a)
//@ rewrite configs.get_items() => &configs.configs
//@ loop 0 for {index=it}
    invariant it <= configs.configs@.len(), it_v@ == configs.configs@,
        forall|i: int| 0 <= i < configs.cfgs().len() ==> 0 <= (#[trigger] configs.cfgs()[i]).state < self.a.states@.len(),
        forall|i: int| 0 <= i < it ==> st(self.a, (#[trigger] configs.e()[i]).state).stop(),
//@ at loop 0 start
    proof { let _ = configs.cfgs()[it - 1]; let _ = configs.e()[it - 1]; }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::get_reachable_target
//@ sig
fn get_reachable_target(&self, trans: &Tr, ttype: isize) -> (r: Option<ATNStateRef>)
    ensures r == (if trans.mat(ttype as int, self.a.max_token_type as int) { Some(trans.tgt() as usize) } else { None }), r is Some ==> r->0 == trans.tgt()
//@ rewrite self.atn() => (&self.a)
//@ end


//@ fn src/parser_atn_simulator.rs ParserATNSimulator::action_transition {ret=r}
//@ sig
fn action_transition(&self, config: &ATNConfig, t: &Tr) -> (r: ATNConfig)
    requires atn_ok(self.a), tr_ok(self.a, *t), config.v().kind is None
    ensures r.v() == moved(config.v(), t.tgt())
//@ rewrite self.atn() => (&self.a)
//@ rewrite t.target => t.get_target()
//@ at fn start
    proof { assert(st_ok(self.a, t.tgt())); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::rule_transition {ret=r}
//@ sig
fn rule_transition(&self, config: &ATNConfig, t: &Tr) -> (r: ATNConfig)
    requires atn_ok(self.a), tr_ok(self.a, *t), config.v().kind is None, config.v().ctx is Some, t.kind() == TransitionType::TRANSITION_RULE
    ensures r.v() == (Cfg { ctx: Some(single(config.v().ctx, t.follow())), ..moved(config.v(), t.tgt()) })
//@ rewrite self.atn() => (&self.a)
//@ rewrite assert!(__e) => vassert(__e)
//@ rewrite t.target => t.get_target()
//@ rewrite t.follow_state => t.follow_state_()
//@ rewrite config.get_context().cloned() => (match config.get_context() { Some(__c) => Some(__c.clone()), None => None })
//@ rewrite __c.into() => Arc::new(__c)
//@ at fn start
    proof { assert(st_ok(self.a, t.tgt())); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::precedence_transition
//@ sig
fn precedence_transition<T: Parser>(&self, config: &ATNConfig, pt: &Tr, collect_predicates: bool, in_context: bool, full_ctx: bool, local: &mut Local<T>, m: Ghost<Md>) -> (r: Option<ATNConfig>)
    requires base_ok(self, *old(local)), atn_ok(self.a), tr_ok(self.a, *pt), config.v().kind is None, pt.kind() == TransitionType::TRANSITION_PRECEDENCE, m@.full == full_ctx, m@.w == wf_(full_ctx, w0(self, *old(local)))
    ensures kept(*old(local), *final(local)), (match r { Some(x) => Some(x.v()), None => None }) == (if collect_predicates && in_context { asked(m@, config.v(), *pt) } else { Some(moved(config.v(), pt.tgt())) })
//@ rewrite self.atn() => (&self.a)
//@ rewrite self.start_index.get() => self.start_index
//@ rewrite local.input() => local.parser
//@ rewrite pt.target => pt.get_target()
//@ rewrite? pt.is_ctx_dependent => pt.is_ctx_dependent_()
//@ rewrite self.eval_predicate(local, __p, __a, __f,) => { let pr = __p; self.eval_predicate(local, &pr, __a, __f) }
//@ at fn start
    let ghost v0 = lv(*local);
    proof { assert(st_ok(self.a, pt.tgt())); local.parser.inv(); assert((v0.idx)(v0.cur) == ix(v0)); }
//@ at before let prec_succeeds
    let ghost v1 = lv(*local);
    proof { assert(ix(v1) == self.start_index); assert(base_ok(self, *local)) by { assert((v1.idx)(v1.cur) == self.start_index); } assert((v1.idx)(v0.cur) == curr_pos); }
//@ at after #1 local.input().seek
    proof { lemma_inj(v0, lv(*local).cur, v0.cur); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::pred_transition
//@ sig
fn pred_transition<T: Parser>(&self, config: &ATNConfig, pt: &Tr, collect_predicates: bool, in_context: bool, full_ctx: bool, local: &mut Local<T>, m: Ghost<Md>) -> (r: Option<ATNConfig>)
    requires base_ok(self, *old(local)), atn_ok(self.a), tr_ok(self.a, *pt), config.v().kind is None, pt.kind() == TransitionType::TRANSITION_PREDICATE, m@.full == full_ctx, m@.w == wf_(full_ctx, w0(self, *old(local)))
    ensures kept(*old(local), *final(local)), (match r { Some(x) => Some(x.v()), None => None }) == (if collect_predicates && (!pt.ctxdep() || in_context) { asked(m@, config.v(), *pt) } else { Some(moved(config.v(), pt.tgt())) })
//@ rewrite self.atn() => (&self.a)
//@ rewrite self.start_index.get() => self.start_index
//@ rewrite local.input() => local.parser
//@ rewrite pt.target => pt.get_target()
//@ rewrite? pt.is_ctx_dependent => pt.is_ctx_dependent_()
//@ rewrite self.eval_predicate(local, __p, __a, __f,) => { let pr = __p; self.eval_predicate(local, &pr, __a, __f) }
//@ at fn start
    let ghost v0 = lv(*local);
    proof { assert(st_ok(self.a, pt.tgt())); local.parser.inv(); assert((v0.idx)(v0.cur) == ix(v0)); }
//@ at before let prec_succeeds
    let ghost v1 = lv(*local);
    proof { assert(ix(v1) == self.start_index); assert(base_ok(self, *local)) by { assert((v1.idx)(v1.cur) == self.start_index); } assert((v1.idx)(v0.cur) == curr_pos); }
//@ at after #1 local.input().seek
    proof { lemma_inj(v0, lv(*local).cur, v0.cur); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::get_epsilon_target
//@ sig
fn get_epsilon_target<T: Parser>(&self, config: &ATNConfig, t: &Tr, collect_predicates: bool, in_context: bool, full_ctx: bool, treat_eofas_epsilon: bool, local: &mut Local<T>, m: Ghost<Md>) -> (r: Option<ATNConfig>)
    requires base_ok(self, *old(local)), atn_ok(self.a), tr_ok(self.a, *t), config.v().kind is None, config.v().ctx is Some, m@.full == full_ctx, m@.eof == treat_eofas_epsilon, m@.w == wf_(full_ctx, w0(self, *old(local)))
    ensures kept(*old(local), *final(local)), (match r { Some(x) => Some(x.v()), None => None }) == epst(m@, config.v(), *t, collect_predicates, in_context)
//@ rewrite self.atn() => (&self.a)
//@ rewrite t.cast::<RuleTransition>() => t.as_rule_()
//@ rewrite t.cast::<PredicateTransition>() => t.as_predicate_()
//@ rewrite t.cast::<ActionTransition>() => t.as_action_()
//@ rewrite t.cast::<PrecedencePredicateTransition>() => t.as_precedence_()
//@ rewrite self.pred_transition(__a, __b, __c, __d, __e, __f,) => self.pred_transition(__a, __b, __c, __d, __e, __f, m)
//@ rewrite self.precedence_transition(__a, __b, __c, __d, __e, __f,) => self.precedence_transition(__a, __b, __c, __d, __e, __f, m)
//@ at fn start
    proof { assert(st_ok(self.a, t.tgt())); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::can_drop_loop_entry_edge_in_left_recursive_rule {ret=r}
    requires atn_ok(self.a), 0 <= _config.v().state < self.a.states@.len(), _config.v().ctx is Some, exists|full: bool| #[trigger] cwf(self.a, full, _config.v().ctx->0)
    ensures r == drops(self.a, _config.v())
//@ rewrite self.atn() => (&self.a)
//@ rewrite unreachable!(__e) => { vassert(false); 0 }
//@ rewrite ptr::eq(__a, __b) => __a.is_(__b)
//@ rewrite 0..ctx_len => upto(ctx_len)
//@ at fn start
    let ghost c = _config.v(); let ghost x = c.ctx->0; let ghost a = self.a; let ghost full = choose|full: bool| #[trigger] cwf(a, full, x);
    proof { stack_frames(a, full, x); assert(st_ok(a, c.state)); if is_prec(st(a, c.state)) { assert(tr_ok(a, st(a, c.state).trs()[0])); } }
//@ loop 0 for {index=it copy}
    invariant it <= it_v@.len(), it_v@.len() == slen(x), forall|k: int| 0 <= k < slen(x) ==> #[trigger] it_v@[k] == k, a == self.a, c == _config.v(), x == c.ctx->0, pred_ctx.v() == x, atn_ok(a), state == st(a, c.state), 0 <= c.state < a.states@.len(), !has_empty(x), forall|k: int| 0 <= k < slen(x) ==> #[trigger] frame_ok(a, full, x, k),
        forall|k: int| 0 <= k < it ==> #[trigger] in_rule(a, c, k)
//@ at loop 0 start
    proof { assert(frame_ok(a, full, x, it - 1)); assert(st_ok(a, sret(x, it - 1))); assert(drops(a, c) ==> back_at(a, c, it - 1)); }
//@ loop 1 for {index=it copy}
    invariant it <= it_v@.len(), it_v@.len() == slen(x), forall|k: int| 0 <= k < slen(x) ==> #[trigger] it_v@[k] == k, a == self.a, c == _config.v(), x == c.ctx->0, pred_ctx.v() == x, atn_ok(a), state == st(a, c.state), 0 <= c.state < a.states@.len(), !has_empty(x), forall|k: int| 0 <= k < slen(x) ==> #[trigger] frame_ok(a, full, x, k),
        is_prec(st(a, c.state)), x != empty_v(), block_end_state_num == loop_end(a, c.state), forall|k: int| 0 <= k < slen(x) ==> #[trigger] in_rule(a, c, k), forall|k: int| 0 <= k < it ==> #[trigger] back_at(a, c, k)
//@ at loop 1 start
    proof { let r = sret(x, it - 1); assert(frame_ok(a, full, x, it - 1)); assert(in_rule(a, c, it - 1)); assert(st_ok(a, c.state)); assert(st_ok(a, r)); if st(a, r).trs().len() == 1 { assert(tr_ok(a, st(a, r).trs()[0])); assert(st_ok(a, to(a, r))); if st(a, to(a, r)).trs().len() == 1 { assert(tr_ok(a, st(a, to(a, r)).trs()[0])); } } assert(drops(a, c) ==> back_at(a, c, it - 1)); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::closure_checking_stop_state
//@ sig
fn closure_checking_stop_state<T: Parser>(&self, mut config: ATNConfig, configs: &mut ATNConfigSet, closure_busy: &mut Busy, collect_predicates: bool, full_ctx: bool, depth: isize, treat_eofas_epsilon: bool, local: &mut Local<T>)
    requires l_ok(self, *old(local)), old(configs).ok(self.a, nalts(le(self, *old(local)))), !old(configs).read_only, old(configs).full_ctx == full_ctx, cfg_ok(self.a, nalts(le(self, *old(local))), config.v()), one(self.a, full_ctx, config.v())
    ensures kept(*old(local), *final(local)), final(configs).ok(self.a, nalts(le(self, *old(local)))), final(configs).flags(old(configs)),
        is_cl(md(le(self, *old(local)), wf_(full_ctx, w0(self, *old(local))), full_ctx, treat_eofas_epsilon), Cl { conf: old(configs).e(), busy: old(closure_busy).s() }, fl(config.v()), collect_predicates, depth as int, Cl { conf: final(configs).e(), busy: final(closure_busy).s() })
//@ rewrite self.atn() => (&self.a)
//@ rewrite __s.add_cached(__c, __m) => __s.add(__c)
//@ rewrite __x.run(|temp| { __body }) => { let temp = __x; __body }
//@ rewrite assert!(__d > isize::min_value()) => passert(__d > isize::MIN)
//@ rewrite panic!(__e) => vassert(false)
//@ rewrite EMPTY_PREDICTION_CONTEXT.clone() => empty_ctx_()
//@ rewrite 0..context.length() => upto(context.length())
//@ rewrite __c.get_parent(i).cloned() => (match __c.get_parent(i) { Some(__x) => Some(__x.clone()), None => None })
//@ at fn start
    let ghost en = le(self, *local); let ghost n = nalts(en); let ghost m = md(en, wf_(full_ctx, w0(self, *local)), full_ctx, treat_eofas_epsilon); let ghost s0 = Cl { conf: configs.e(), busy: closure_busy.s() }; let ghost gc = config.v(); let ghost l0 = *local; let ghost a = self.a; let ghost x = gc.ctx->0;
    proof { stack_frames(a, full_ctx, x); assert(st_ok(a, gc.state)); stack_empty(a, full_ctx); }
    let ghost cs0 = configs.cfgs();
//@ at after configs.add_cached(Box::new(new_config)
    proof { lemma_add(a, n, cs0, configs.cfgs(), Cfg { ctx: Some(empty_v()), ..gc }, !full_ctx); }
//@ at before let context = config.take
    let ghost q = Cl { conf: configs.e(), busy: closure_busy.s() };
    proof { pop_0(m, q, fl(gc), collect_predicates, depth as int); }
//@ loop 0 for {index=it copy}
    invariant it <= it_v@.len(), it_v@.len() == slen(x), forall|k: int| 0 <= k < slen(x) ==> #[trigger] it_v@[k] == k, a == self.a, x == gc.ctx->0, context.v() == x, config.v() == (Cfg { ctx: None, ..gc }), forall|k: int| 0 <= k < slen(x) ==> #[trigger] frame_ok(a, full_ctx, x, k),
        en == le(self, *local), n == nalts(en), kept(l0, *local), l_ok(self, *local), m == md(en, wf_(full_ctx, w0(self, *local)), full_ctx, treat_eofas_epsilon),
        cfg_ok(a, n, gc), one(a, full_ctx, gc), configs.ok(a, n), !configs.read_only, configs.full_ctx == full_ctx, configs.flags(old(configs)),
        is_pop(m, q, fl(gc), collect_predicates, depth as int, it as int, Cl { conf: configs.e(), busy: closure_busy.s() })
//@ at loop 0 start
    let ghost p0 = Cl { conf: configs.e(), busy: closure_busy.s() };
    proof { assert(frame_ok(a, full_ctx, x, it - 1)); if sret(x, it - 1) == PREDICTION_CONTEXT_EMPTY_RETURN_STATE { pop_skip(m, q, fl(gc), collect_predicates, depth as int, it - 1, p0); } }
//@ at loop 0 end
    proof { assert(fl(popped(gc, it - 1)) == popped(fl(gc), it - 1)); pop_go(m, q, fl(gc), collect_predicates, depth as int, it - 1, p0, Cl { conf: configs.e(), busy: closure_busy.s() }); }
//@ at before #0 return;
    proof { cl_pop(m, s0, fl(gc), collect_predicates, depth as int, q, Cl { conf: configs.e(), busy: closure_busy.s() }); }
//@ at before #1 return;
    proof { lemma_add(a, n, cs0, configs.cfgs(), gc, !full_ctx); cl_end(m, s0, fl(gc), collect_predicates, depth as int); }
//@ at fn tail
    proof { cl_work(m, s0, fl(gc), collect_predicates, depth as int, Cl { conf: configs.e(), busy: closure_busy.s() }); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::closure_work
//@ sig
fn closure_work<T: Parser>(&self, config: ATNConfig, configs: &mut ATNConfigSet, closure_busy: &mut Busy, collect_predicates: bool, full_ctx: bool, depth: isize, treat_eofas_epsilon: bool, local: &mut Local<T>)
    requires l_ok(self, *old(local)), old(configs).ok(self.a, nalts(le(self, *old(local)))), !old(configs).read_only, old(configs).full_ctx == full_ctx, cfg_ok(self.a, nalts(le(self, *old(local))), config.v()), one(self.a, full_ctx, config.v()),
        st(self.a, config.v().state).stop() ==> !full_ctx && config.v().ctx == Some(empty_v())
    ensures kept(*old(local), *final(local)), final(configs).ok(self.a, nalts(le(self, *old(local)))), final(configs).flags(old(configs)),
        ({
            let m = md(le(self, *old(local)), wf_(full_ctx, w0(self, *old(local))), full_ctx, treat_eofas_epsilon); let c = fl(config.v());
            is_work(m, stays(m, Cl { conf: old(configs).e(), busy: old(closure_busy).s() }, c), c, collect_predicates, depth as int, ntrs(m, c), Cl { conf: final(configs).e(), busy: final(closure_busy).s() })
        })
//@ rewrite self.atn() => (&self.a)
//@ rewrite __s.add_cached(__c, __m) => __s.add(__c)
//@ rewrite assert!(__d > isize::min_value()) => passert(__d > isize::MIN)
//@ rewrite assert!(!full_ctx) => vassert(!full_ctx)
//@ rewrite __t.iter().enumerate() => &enum_trs(__t)
//@ rewrite tr.as_ref().cast::<EpsilonTransition>().outermost_precedence_return => tr.as_epsilon_().outer_()
//@ rewrite self.get_epsilon_target(__a, __b, __c, __d, __e, __f, __g,) => self.get_epsilon_target(__a, __b, __c, __d, __e, __f, __g, Ghost(m))
//@ at fn start
    let ghost en = le(self, *local); let ghost n = nalts(en); let ghost m = md(en, wf_(full_ctx, w0(self, *local)), full_ctx, treat_eofas_epsilon); let ghost gc = config.v(); let ghost l0 = *local; let ghost a = self.a; let ghost cs0 = configs.cfgs(); let ghost s0 = Cl { conf: configs.e(), busy: closure_busy.s() };
    proof { assert(st_ok(a, gc.state)); stack_frames(a, full_ctx, gc.ctx->0); }
//@ at before for (i, tr)
    proof { if !st(a, gc.state).eps() { lemma_add(a, n, cs0, configs.cfgs(), gc, !full_ctx); } assert((Cl { conf: configs.e(), busy: closure_busy.s() }) == stays(m, s0, fl(gc))); work_0(m, stays(m, s0, fl(gc)), fl(gc), collect_predicates, depth as int); }
//@ loop 0 for {index=it copy}
    invariant it <= it_v@.len(), it_v@.len() == st(a, gc.state).trs().len(), forall|k: int| 0 <= k < it_v@.len() ==> #[trigger] it_v@[k] == (k as usize, &st(a, gc.state).trs()[k]),
        a == self.a, gc == config.v(), en == le(self, *local), n == nalts(en), kept(l0, *local), l_ok(self, *local), m == md(en, wf_(full_ctx, w0(self, *local)), full_ctx, treat_eofas_epsilon), st_ok(a, gc.state), atn_ok(a), p == st(a, gc.state),
        cfg_ok(a, n, gc), one(a, full_ctx, gc), st(a, gc.state).stop() ==> !full_ctx && gc.ctx == Some(empty_v()),
        configs.ok(a, n), !configs.read_only, configs.full_ctx == full_ctx, configs.flags(old(configs)),
        is_work(m, stays(m, s0, fl(gc)), fl(gc), collect_predicates, depth as int, it as int, Cl { conf: configs.e(), busy: closure_busy.s() })
//@ at loop 0 start
    let ghost q = Cl { conf: configs.e(), busy: closure_busy.s() }; let ghost cq = configs.cfgs();
    let ghost g = go(m, q.busy, fl(gc), collect_predicates, depth as int, it - 1);
    proof { assert(tr_ok(a, st(a, gc.state).trs()[it - 1])); assert(st_ok(a, st(a, gc.state).trs()[it - 1].tgt()));
        let k = tr.kind() != TransitionType::TRANSITION_ACTION && collect_predicates; lemma_fl(m, gc, *tr, k, depth == 0); assert(*tr == st(a, gc.state).trs()[it - 1]);
        if g is None { work_skip(m, stays(m, s0, fl(gc)), fl(gc), collect_predicates, depth as int, it - 1, q); }
        stack_frames(a, full_ctx, gc.ctx->0); if tr.kind() == TransitionType::TRANSITION_RULE { stack_push(a, full_ctx, gc.ctx->0, tr.follow()); } }
//@ at before c.reaches_into_outer_context
    passert(c.reaches_into_outer_context < isize::MAX);
    proof { let k = tr.kind() != TransitionType::TRANSITION_ACTION && collect_predicates; let x = epst(m, gc, *tr, k, depth == 0)->0; assert(st(a, m.e.start).rule() < 0x1000_0000) by { assert(st_ok(a, m.e.start)); } assert(c.v() == (Cfg { supp: x.supp || (m.e.prec && tr.outer() == st(m.e.a, m.e.start).rule()), ..x })); }
    let ghost cy = c.v();
//@ at before #0 if !closure_busy.insert
    proof { let k = tr.kind() != TransitionType::TRANSITION_ACTION && collect_predicates; let x = epst(m, gc, *tr, k, depth == 0)->0; assert(c.v() == (Cfg { up: cy.up + 1, ..cy })); assert(fl(c.v()) == left(m, fl(x), *tr)); assert(eqv(fl(c.v())) == eqv(c.v())); }
//@ at before new_depth += 1
    passert(new_depth < isize::MAX);
//@ at after self.closure_checking_stop_state
    proof { work_go(m, stays(m, s0, fl(config.v())), fl(config.v()), collect_predicates, depth as int, it - 1, q, Cl { conf: configs.e(), busy: closure_busy.s() }); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::closure
//@ sig
fn closure<T: Parser>(&self, config: ATNConfig, configs: &mut ATNConfigSet, closure_busy: &mut Busy, collect_predicates: bool, full_ctx: bool, treat_eofas_epsilon: bool, local: &mut Local<T>)
    requires l_ok(self, *old(local)), old(configs).ok(self.a, nalts(le(self, *old(local)))), !old(configs).read_only, old(configs).full_ctx == full_ctx, cfg_ok(self.a, nalts(le(self, *old(local))), config.v()), one(self.a, full_ctx, config.v())
    ensures kept(*old(local), *final(local)), final(configs).ok(self.a, nalts(le(self, *old(local)))), final(configs).flags(old(configs)),
        (Cl { conf: final(configs).e(), busy: final(closure_busy).s() }) == cl(le(self, *old(local)), wf_(full_ctx, w0(self, *old(local))), Cl { conf: old(configs).e(), busy: old(closure_busy).s() }, fl(config.v()), collect_predicates, full_ctx, treat_eofas_epsilon)
//@ rewrite assert!(__e) => vassert(__e)
//@ at fn start
    let ghost en = le(self, *local); let ghost w = wf_(full_ctx, w0(self, *local)); let ghost s0 = Cl { conf: configs.e(), busy: closure_busy.s() }; let ghost c = fl(config.v());
//@ at after self.closure_checking_stop_state
    proof { cl_is(en, w, s0, c, collect_predicates, full_ctx, treat_eofas_epsilon, Cl { conf: configs.e(), busy: closure_busy.s() }); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::remove_all_configs_not_in_rule_stop_state
//@ sig
fn remove_all_configs_not_in_rule_stop_state(&self, configs: ATNConfigSet, look_to_end_of_rule: bool, n: Ghost<int>) -> (r: ATNConfigSet)
    requires atn_ok(self.a), configs.ok(self.a, n@), !look_to_end_of_rule, !configs.read_only, configs.unique_alt == 0, configs.conflicting_alts.s() == Set::<int>::empty()
    ensures r.ok(self.a, n@), r.full_ctx == configs.full_ctx, !r.read_only, r.unique_alt == 0, r.conflicting_alts.s() == Set::<int>::empty(), r.e() == only_stop(self.a, configs.e(), !configs.full_ctx)
//@ rewrite result.add_cached(c, __m) => result.add(Box::new((**c).clone()))
//@ rewrite __s.add_cached(__c, __m) => __s.add(__c)
//@ rewrite self.atn().next_tokens(__s) => self.next_tokens_(__s)
//@ rewrite self.atn() => (&self.a)
//@ rewrite configs.configs => &configs.configs
//@ rewrite __b.into() => Box::new(__b)
//@ at fn start
    let ghost full = configs.full_ctx; let ghost cs = configs.cfgs(); let ghost e = configs.e();
//@ at before for c
    proof { lemma_set_nil(self.a, n@, &result); }
//@ loop 0 for {index=it}
    invariant it <= configs.configs@.len(), it_v@ == configs.configs@, cs == Seq::new(configs.configs@.len(), |i: int| configs.configs@[i].v()), e == er(cs), set_ok(self.a, n@, cs), stk(self.a, full, cs), atn_ok(self.a), !look_to_end_of_rule,
        result.ok(self.a, n@), result.full_ctx == full, !result.read_only, result.unique_alt == 0, result.conflicting_alts.s() == Set::<int>::empty(), result.e() == keep_stop(self.a, e, it as int, !full)
//@ at loop 0 start
    let ghost r0 = result.cfgs();
    proof { assert(cfg_fin(self.a, n@, cs[it - 1])); assert(e[it - 1] == fl(cs[it - 1])); }
//@ at after result.add_cached(c
    proof { lemma_add(self.a, n@, r0, result.cfgs(), cs[it - 1], !full); }
//@ end
#[verifier::external_body]
fn next_tokens_(&self, s: &AState) -> Toks { unimplemented!() }

//@ fn src/parser_atn_simulator.rs ParserATNSimulator::compute_reach_set
//@ sig
fn compute_reach_set<T: Parser>(&self, closure: &ATNConfigSet, t: isize, full_ctx: bool, local: &mut Local<T>) -> (r: Option<ATNConfigSet>)
    requires l_ok(self, *old(local)), closure.ok(self.a, nalts(le(self, *old(local)))), closure.full_ctx == full_ctx
    ensures kept(*old(local), *final(local)),
        ({
            let d = reach(le(self, *old(local)), wf_(full_ctx, w0(self, *old(local))), closure.e(), t as int, full_ctx);
            match r { None => d.len() == 0, Some(x) => d.len() > 0 && x.e() == d && x.ok(self.a, nalts(le(self, *old(local)))) && x.full_ctx == full_ctx && !x.read_only && x.unique_alt == 0 && x.conflicting_alts.s() == Set::<int>::empty() }
        })
//@ rewrite __s.add_cached(__c, __m) => __s.add(__c)
//@ rewrite self.atn() => (&self.a)
//@ rewrite assert!(__e) => vassert(__e)
//@ rewrite closure.get_items() => &closure.configs
//@ rewrite skipped_stop_states.push(c) => skipped_stop_states.push(bref(c))
//@ rewrite self.get_reachable_target(tr.as_ref(), t).map(|target| { __body }) => if let Some(target) = self.get_reachable_target(tr.as_ref(), t) { __body; }
//@ rewrite HashSet::new() => Busy::new()
//@ rewrite intermediate.configs => &intermediate.configs
//@ rewrite *c => (**c).clone()
//@ rewrite self.remove_all_configs_not_in_rule_stop_state(__a, __b, __c) => self.remove_all_configs_not_in_rule_stop_state(__a, __b, Ghost(n))
//@ rewrite c.clone().into() => Box::new((*c).clone())
//@ at fn start
    let ghost n = nalts(le(self, *local)); let ghost a = self.a; let ghost cs = closure.cfgs(); let ghost ce = closure.e(); let ghost l0 = *local; let ghost en = le(self, *local); let ghost w = wf_(full_ctx, w0(self, *local));
    let ghost ln = ce.len() as int;
//@ at before for c in closure
    proof { lemma_set_nil(a, n, &intermediate); assert(skseq(skipped_stop_states@) =~= Seq::<Cfg>::empty()); }
//@ loop 0 for {index=it}
    invariant it <= closure.configs@.len(), it_v@ == closure.configs@, cs == closure.cfgs(), ce == closure.e(), set_ok(a, n, cs), stk(a, full_ctx, cs), atn_ok(a), a == self.a,
        intermediate.ok(a, n), intermediate.full_ctx == full_ctx, !intermediate.read_only, intermediate.unique_alt == 0, intermediate.conflicting_alts.s() == Set::<int>::empty(),
        intermediate.e() == inter(a, ce, t as int, it as int, !full_ctx),
        er(skseq(skipped_stop_states@)) == skipped(a, ce, t as int, full_ctx, it as int),
        sk_ok(a, n, skseq(skipped_stop_states@)), stk(a, full_ctx, skseq(skipped_stop_states@)),
//@ at loop 0 start
    proof { assert(cfg_fin(a, n, cs[it - 1])); assert(st_ok(a, cs[it - 1].state)); assert(ce[it - 1] == fl(cs[it - 1])); assert(cs[it - 1] == closure.configs@[it - 1].v()); }
    let ghost sk0 = skipped_stop_states@;
//@ at after skipped_stop_states.push
    proof { assert(skseq(skipped_stop_states@) =~= skseq(sk0).push(cs[it - 1])); assert(er(skseq(skipped_stop_states@)) =~= er(skseq(sk0)).push(fl(cs[it - 1]))); lemma_sk_push(a, n, skseq(sk0), cs[it - 1]); }
//@ loop 1 for {index=jt}
    invariant jt <= st(a, cs[it - 1].state).trs().len(), jt_v@ == st(a, cs[it - 1].state).trs(), st_ok(a, cs[it - 1].state), atn_ok(a), a == self.a,
        cfg_fin(a, n, cs[it - 1]), one(a, full_ctx, cs[it - 1]), !st(a, cs[it - 1].state).stop(), c.v() == cs[it - 1], 0 < it <= closure.configs@.len(), ce[it - 1] == fl(cs[it - 1]),
        intermediate.ok(a, n), intermediate.full_ctx == full_ctx, !intermediate.read_only, intermediate.unique_alt == 0, intermediate.conflicting_alts.s() == Set::<int>::empty(),
        intermediate.e() == step1(a, inter(a, ce, t as int, it - 1, !full_ctx), ce[it - 1], t as int, jt as int, !full_ctx),
//@ at loop 1 start
    let ghost i0 = intermediate.cfgs();
    proof { assert(tr_ok(a, st(a, cs[it - 1].state).trs()[jt - 1])); assert(st_ok(a, st(a, cs[it - 1].state).trs()[jt - 1].tgt())); }
//@ at loop 1 end
    proof { if tr.mat(t as int, a.max_token_type as int) { lemma_add(a, n, i0, intermediate.cfgs(), moved(cs[it - 1], tr.tgt()), !full_ctx); } }
//@ at before let mut look_to
    let ghost ie = intermediate.e(); let ghost sk = skseq(skipped_stop_states@); let ghost ic = intermediate.cfgs();
    proof { assert(ce.len() == cs.len()); lemma_alts(a, n, &intermediate); }
//@ at before for c in intermediate
    proof { lemma_set_nil(a, n, &reach); }
//@ loop 2 for {index=kt}
    invariant kt <= intermediate.configs@.len(), kt_v@ == intermediate.configs@, ic == intermediate.cfgs(), ie == intermediate.e(), set_ok(a, n, ic), stk(a, full_ctx, ic), a == self.a,
        l_ok(self, *local), kept(l0, *local), n == nalts(le(self, *local)), en == le(self, *local), w == wf_(full_ctx, w0(self, *local)),
        reach.ok(a, n), reach.full_ctx == full_ctx, !reach.read_only, reach.unique_alt == 0, reach.conflicting_alts.s() == Set::<int>::empty(),
        (Cl { conf: reach.e(), busy: closure_busy.s() }) == close(en, w, cl0(), ie, kt as int, full_ctx, t == -1),
//@ at loop 2 start
    proof { assert(cfg_fin(a, n, ic[kt - 1])); assert(ie[kt - 1] == fl(ic[kt - 1])); assert(ic[kt - 1] == intermediate.configs@[kt - 1].v()); }
//@ at before if t == TOKEN_EOF
    proof { assert(ie.len() == ic.len()); assert(reach.e() == reach0(en, w, ce, t as int, full_ctx)); }
//@ at before if !skipped_stop
    proof { assert(reach.e() == reach1(en, w, ce, t as int, full_ctx)); lemma_alts(a, n, &reach); }
//@ loop 3 for {index=mt}
    invariant mt <= skipped_stop_states@.len(), mt_v@ == skipped_stop_states@, sk == skseq(skipped_stop_states@), sk_ok(a, n, sk), stk(a, full_ctx, sk), a == self.a,
        reach.ok(a, n), reach.full_ctx == full_ctx, !reach.read_only, reach.unique_alt == 0, reach.conflicting_alts.s() == Set::<int>::empty(),
        reach.e() == put_all(reach1(en, w, ce, t as int, full_ctx), er(sk), mt as int, !full_ctx)
//@ at loop 3 start
    let ghost r0 = reach.cfgs();
    proof { assert(cfg_fin(a, n, sk[mt - 1])); assert(er(sk)[mt - 1] == fl(sk[mt - 1])); }
//@ at loop 3 end
    proof { lemma_add(a, n, r0, reach.cfgs(), sk[mt - 1], !full_ctx); }
//@ end

//@ fn src/parser_atn_simulator.rs ParserATNSimulator::compute_start_state
//@ sig
fn compute_start_state<T: Parser>(&self, a: ATNStateRef, initial_ctx: Arc<PredictionContext>, full_ctx: bool, local: &mut Local<T>) -> (r: ATNConfigSet)
    requires l_ok(self, *old(local)), a == le(self, *old(local)).start, cwf(self.a, full_ctx, initial_ctx.v())
    ensures kept(*old(local), *final(local)), r.e() == start(le(self, *old(local)), wf_(full_ctx, w0(self, *old(local))), initial_ctx.v(), full_ctx), r.ok(self.a, nalts(le(self, *old(local)))), r.full_ctx == full_ctx, !r.read_only, r.unique_alt == 0, r.conflicting_alts.s() == Set::<int>::empty()
//@ rewrite self.atn() => (&self.a)
//@ rewrite HashSet::new() => Busy::new()
//@ rewrite __t.iter().enumerate() => &enum_trs(__t)
//@ loop 0 for {index=it copy}
    invariant it <= nalts(en), it_v@.len() == nalts(en), forall|k: int| 0 <= k < it_v@.len() ==> #[trigger] it_v@[k] == (k as usize, &st(self.a, en.start).trs()[k]), atn_states@ == self.a.states@,
        l_ok(self, *local), kept(l0, *local), cwf(self.a, full_ctx, initial_ctx.v()), en == le(self, *local), w == wf_(full_ctx, w0(self, *local)), st_ok(self.a, en.start),
        configs.ok(self.a, nalts(en)), configs.full_ctx == full_ctx, !configs.read_only, configs.unique_alt == 0, configs.conflicting_alts.s() == Set::<int>::empty(),
        configs.e() == start_n(en, w, initial_ctx.v(), full_ctx, it as int)
//@ at fn start
    let ghost en = le(self, *local); let ghost w = wf_(full_ctx, w0(self, *local)); let ghost l0 = *local;
    proof { assert(st_ok(self.a, en.start)); }
//@ at after let mut configs
    proof { lemma_set_nil(self.a, nalts(en), &configs); }
//@ at loop 0 start
    proof { assert(tr_ok(self.a, st(self.a, en.start).trs()[it - 1])); assert(st_ok(self.a, st(self.a, en.start).trs()[it - 1].tgt())); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::apply_precedence_filter
//@ sig
fn apply_precedence_filter<T: Parser>(&self, configs: &ATNConfigSet, local: &mut Local<T>, n: Ghost<int>) -> (r: ATNConfigSet)
    requires base_ok(self, *old(local)), configs.ok(self.a, n@), atn_ok(self.a)
    ensures kept(*old(local), *final(local)), r.ok(self.a, n@), r.e() == filtered(lv(*old(local)).prec, configs.e(), !configs.full_ctx), r.full_ctx == configs.full_ctx, !r.read_only, r.unique_alt == 0, r.conflicting_alts.s() == Set::<int>::empty()
//@ rewrite __s.add_cached(__c, __m) => __s.add(__c)
//@ rewrite HashMap::new() => CtxMap::new()
//@ rewrite configs.get_items() => &configs.configs
//@ rewrite local.outer_context() => &local.outer_context
//@ rewrite updated_sem_ctx.as_deref() => updated_sem_ctx.as_ref()
//@ rewrite *updated_sem_ctx != *config.semantic_context => !updated_sem_ctx.same(&*config.semantic_context)
//@ rewrite config.get_context().cloned() => (match config.get_context() { Some(__x) => Some(__x.clone()), None => None })
//@ rewrite states_from_alt1.get(&__k) => states_from_alt1.get_(__k)
//@ rewrite *context == config.get_context() => context.is_(config.get_context())
//@ rewrite Box::new(config.clone()) => Box::new((**config).clone())
//@ at fn start
    let ghost cs = configs.cfgs(); let ghost ce = configs.e(); let ghost lev = lv(*local).prec; let ghost full = configs.full_ctx; let ghost l0 = *local;
//@ at after let mut config_set
    proof { lemma_set_nil(self.a, n@, &config_set); }
//@ loop 0 for {index=it}
    invariant it <= configs.configs@.len(), it_v@ == configs.configs@, cs == configs.cfgs(), ce == configs.e(), set_ok(self.a, n@, cs), stk(self.a, full, cs), atn_ok(self.a), *local == l0, base_ok(self, *local), lev == lv(*local).prec, full == configs.full_ctx,
        config_set.ok(self.a, n@), config_set.full_ctx == full, !config_set.read_only, config_set.unique_alt == 0, config_set.conflicting_alts.s() == Set::<int>::empty(),
        config_set.e() == filt1(lev, ce, it as int, !full), states_from_alt1.m() == seen1(lev, ce, it as int)
//@ at loop 0 start
    let ghost s0 = config_set.cfgs();
    proof { assert(cfg_fin(self.a, n@, cs[it - 1])); assert(ce[it - 1] == fl(cs[it - 1])); assert(cs[it - 1] == configs.configs@[it - 1].v()); }
//@ at after config_set.add_cached(Box::new(ATNConfig::new_with_semantic(
    proof { lemma_add(self.a, n@, s0, config_set.cfgs(), Cfg { state: cs[it - 1].state, alt: cs[it - 1].alt, ctx: cs[it - 1].ctx, sem: updated_sem_ctx.v(), up: 0, supp: false, kind: None }, !full); }
//@ at after config_set.add_cached(Box::new(config.clone
    proof { lemma_add(self.a, n@, s0, config_set.cfgs(), cs[it - 1], !full); }
//@ loop 1 for {index=jt}
    invariant jt <= configs.configs@.len(), jt_v@ == configs.configs@, cs == configs.cfgs(), ce == configs.e(), set_ok(self.a, n@, cs), stk(self.a, full, cs), atn_ok(self.a), full == configs.full_ctx,
        config_set.ok(self.a, n@), config_set.full_ctx == full, !config_set.read_only, config_set.unique_alt == 0, config_set.conflicting_alts.s() == Set::<int>::empty(),
        states_from_alt1.m() == seen1(lev, ce, ce.len() as int),
        config_set.e() == filt2(lev, filt1(lev, ce, ce.len() as int, !full), seen1(lev, ce, ce.len() as int), ce, jt as int, !full)
//@ at loop 1 start
    let ghost s0 = config_set.cfgs();
    proof { assert(cfg_fin(self.a, n@, cs[jt - 1])); assert(ce[jt - 1] == fl(cs[jt - 1])); assert(cs[jt - 1] == configs.configs@[jt - 1].v()); }
//@ at loop 1 end
    proof { lemma_add(self.a, n@, s0, config_set.cfgs(), cs[jt - 1], !full); }
//@ end

//@ fn src/parser_atn_simulator.rs ParserATNSimulator::eval_predicate
//@ sig
fn eval_predicate<T: Parser>(&self, local: &mut Local<T>, pred: &SemanticContext, _alt: isize, _full_ctx: bool) -> (r: bool)
    requires base_ok(self, *old(local))
    ensures kept(*old(local), *final(local)), r == truth((lv(*old(local)).world)(ix(lv(*old(local)))), pred.v())
//@ rewrite pred.borrow().evaluate(local.parser, &*local.outer_context) => pred.evaluate(local.parser, &local.outer_context)
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::eval_semantic_context
//@ sig
fn eval_semantic_context<T: Parser>(&self, local: &mut Local<T>, pred_predictions: &Vec<PredPrediction>, complete: bool) -> (r: BitSet)
    requires base_ok(self, *old(local)), complete, forall|j: int| 0 <= j < pred_predictions@.len() ==> (#[trigger] pred_predictions@[j]).alt >= 0
    ensures kept(*old(local), *final(local)), forall|x: int| #[trigger] r.s().contains(x) == pred_alt(pred_predictions@, (lv(*old(local)).world)(ix(lv(*old(local)))), x)
//@ rewrite pred.pred == SemanticContext::NONE => pred.pred.is_none_()
//@ loop 0 for {index=it}
    invariant it <= pred_predictions@.len(), it_v@ == pred_predictions@, kept(l0, *local), base_ok(self, *local), complete, w == (lv(*local).world)(ix(lv(*local))),
        forall|j: int| 0 <= j < pred_predictions@.len() ==> (#[trigger] pred_predictions@[j]).alt >= 0,
        forall|x: int| #[trigger] predictions.s().contains(x) == pred_alt(pred_predictions@.take(it as int), w, x)
    ensures it == pred_predictions@.len()
//@ at fn start
    let ghost l0 = *local; let ghost w = (lv(*local).world)(ix(lv(*local)));
//@ at loop 0 start
    let ghost s0 = predictions.s(); let ghost pp = pred_predictions@;
    proof { none_true(w); assert(pp[it - 1].alt >= 0);
        assert forall|x: int| #[trigger] pred_alt(pp.take(it as int), w, x) == (pred_alt(pp.take(it - 1), w, x) || (pp[it - 1].alt == x && truth(w, pp[it - 1].pred.v()))) by { lemma_pred_step(pp, it as int, w, x); let _ = s0.contains(x); }
        assert(forall|x: int| s0.contains(x) == #[trigger] pred_alt(pp.take(it - 1), w, x)); }
//@ at fn end
    proof { assert(pred_predictions@.take(pred_predictions@.len() as int) =~= pred_predictions@); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::split_according_to_semantic_validity
//@ sig
fn split_according_to_semantic_validity<T: Parser>(&self, configs: &ATNConfigSet, local: &mut Local<T>, n: Ghost<int>) -> (r: (ATNConfigSet, ATNConfigSet))
    requires base_ok(self, *old(local)), configs.ok(self.a, n@)
    ensures kept(*old(local), *final(local)), r.0.ok(self.a, n@), r.1.ok(self.a, n@),
        forall|c: Cfg| #[trigger] r.0.cfgs().contains(c) == (configs.cfgs().contains(c) && truth((lv(*old(local)).world)(ix(lv(*old(local)))), c.sem)),
        forall|c: Cfg| #[trigger] r.1.cfgs().contains(c) == (configs.cfgs().contains(c) && !truth((lv(*old(local)).world)(ix(lv(*old(local)))), c.sem))
//@ rewrite *c.semantic_context != SemanticContext::NONE => !c.semantic_context.is_none_()
//@ rewrite configs.get_items() => &configs.configs
//@ rewrite Box::new(c.clone()) => Box::new((**c).clone())
//@ at fn start
    let ghost cs = configs.cfgs(); let ghost w = (lv(*local).world)(ix(lv(*local))); let ghost l0 = *local;
//@ at before for c in
    proof { lemma_set_nil(self.a, n@, &succeeded); lemma_set_nil(self.a, n@, &failed); assert(cs.take(0) =~= Seq::<Cfg>::empty()); }
//@ loop 0 for {index=it}
    invariant it <= configs.configs@.len(), it_v@ == configs.configs@, cs == configs.cfgs(), set_ok(self.a, n@, cs), stk(self.a, configs.full_ctx, cs), succeeded.full_ctx == configs.full_ctx, failed.full_ctx == configs.full_ctx, kept(l0, *local), base_ok(self, *local), w == (lv(*local).world)(ix(lv(*local))),
        succeeded.ok(self.a, n@), failed.ok(self.a, n@), !succeeded.read_only, !failed.read_only,
        part_of(succeeded.cfgs(), cs.take(it as int), w, true), part_of(failed.cfgs(), cs.take(it as int), w, false)
//@ at loop 0 start
    let ghost s0 = succeeded.cfgs(); let ghost f0 = failed.cfgs();
    proof { none_true(w); assert(cfg_fin(self.a, n@, cs[it - 1])); assert(cs[it - 1] == configs.configs@[it - 1].v()); }
//@ at loop 0 end
    proof { let good = truth(w, cs[it - 1].sem); lemma_part(cs, it as int, w, s0, succeeded.cfgs(), true); lemma_part(cs, it as int, w, f0, failed.cfgs(), false); lemma_part_fresh(cs, it as int, w, if good { s0 } else { f0 }, good);
        if good { lemma_add(self.a, n@, s0, succeeded.cfgs(), cs[it - 1], !succeeded.full_ctx); } else { lemma_add(self.a, n@, f0, failed.cfgs(), cs[it - 1], !failed.full_ctx); }
        lemma_part(cs, it as int, w, s0, succeeded.cfgs(), true); lemma_part(cs, it as int, w, f0, failed.cfgs(), false); }
//@ at fn end
    proof { assert(cs.take(cs.len() as int) =~= cs); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::get_alt_that_finished_decision_entry_rule
//@ sig
fn get_alt_that_finished_decision_entry_rule(&self, configs: &ATNConfigSet, n: Ghost<int>) -> (r: isize)
    requires configs.ok(self.a, n@), n@ < 0x1000_0000
    ensures r == 0 ==> forall|i: int| 0 <= i < configs.cfgs().len() ==> !finished(self.a, #[trigger] configs.cfgs()[i]),
        r != 0 ==> (exists|i: int| 0 <= i < configs.cfgs().len() && (#[trigger] configs.cfgs()[i]).alt == r && finished(self.a, configs.cfgs()[i])) && (forall|i: int| 0 <= i < configs.cfgs().len() && finished(self.a, #[trigger] configs.cfgs()[i]) ==> r <= configs.cfgs()[i].alt)
//@ rewrite self.atn() => (&self.a)
//@ rewrite configs.get_items() => &configs.configs
//@ rewrite c.get_context().map(|x| x.has_empty_path()) == Some(true) => (match c.get_context() { Some(x) => x.has_empty_path(), None => false })
//@ rewrite __e.get_state_type() == &RuleStopState => is_stop_(__e.get_state_type())
//@ rewrite alts.get_min().unwrap_or(INVALID_ALT) => (match alts.get_min() { Some(x) => x, None => INVALID_ALT })
//@ loop 0 for {index=it}
    invariant it <= configs.configs@.len(), it_v@ == configs.configs@, configs.ok(self.a, n@), n@ < 0x1000_0000, alts.wf(),
        forall|x: int| #[trigger] alts.mem(x) == fins(self.a, configs.cfgs(), it as int, x)
//@ at loop 0 start
    let ghost a0 = alts;
    proof { assert(cfg_fin(self.a, n@, configs.cfgs()[it - 1])); assert(configs.cfgs()[it - 1] == configs.configs@[it - 1].v()); }
//@ at loop 0 end
    proof { assert forall|x: int| #[trigger] alts.mem(x) == fins(self.a, configs.cfgs(), it as int, x) by { let _ = a0.mem(x); let _ = configs.cfgs()[it - 1];
        if fins(self.a, configs.cfgs(), it - 1, x) { let i = choose|i: int| 0 <= i < it - 1 && (#[trigger] configs.cfgs()[i]).alt == x && finished(self.a, configs.cfgs()[i]); assert(finished(self.a, configs.cfgs()[i])); } } }
//@ at before return alts
    proof { let l = configs.cfgs().len() as int;
        if forall|x: int| !alts.mem(x) { assert forall|i: int| 0 <= i < l implies !finished(self.a, #[trigger] configs.cfgs()[i]) by { if finished(self.a, configs.cfgs()[i]) { assert(fins(self.a, configs.cfgs(), l, configs.cfgs()[i].alt)); assert(alts.mem(configs.cfgs()[i].alt)); } } }
        assert forall|i: int| 0 <= i < l && finished(self.a, #[trigger] configs.cfgs()[i]) implies alts.mem(configs.cfgs()[i].alt) by { assert(fins(self.a, configs.cfgs(), l, configs.cfgs()[i].alt)); }
        assert forall|x: int| #[trigger] alts.mem(x) implies x >= 1 by { let i = choose|i: int| 0 <= i < l && (#[trigger] configs.cfgs()[i]).alt == x && finished(self.a, configs.cfgs()[i]); assert(cfg_fin(self.a, n@, configs.cfgs()[i])); } }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule
//@ sig
fn get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule<T: Parser>(&self, configs: &ATNConfigSet, local: &mut Local<T>, n: Ghost<int>) -> (r: isize)
    requires base_ok(self, *old(local)), configs.ok(self.a, n@), n@ < 0x1000_0000
    ensures kept(*old(local), *final(local)), salvage(self.a, configs.cfgs(), (lv(*old(local)).world)(ix(lv(*old(local)))), r as int)
//@ rewrite self.split_according_to_semantic_validity(__a, __b) => self.split_according_to_semantic_validity(__a, __b, n)
//@ rewrite self.get_alt_that_finished_decision_entry_rule(__a) => self.get_alt_that_finished_decision_entry_rule(__a, n)
//@ at fn start
    let ghost w = (lv(*local).world)(ix(lv(*local))); let ghost cs = configs.cfgs();
//@ at before #0 let alt
    let ghost sv = sem_valid_configs.cfgs(); let ghost si = sem_invalid_configs.cfgs();
    proof { lemma_fin(self.a, cs, sv, w, true); lemma_fin(self.a, cs, si, w, false); }
//@ at after #0 let alt
    proof { lemma_salv(self.a, cs, sv, w, true, alt as int); }
//@ at after #1 let alt
    proof { lemma_salv(self.a, cs, si, w, false, alt as int); }
//@ at before INVALID_ALT
    proof { if si.len() == 0 { lemma_salv(self.a, cs, si, w, false, 0); } }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::get_preds_for_ambig_alts
//@ sig
fn get_preds_for_ambig_alts(&self, ambig_alts: &BitSet, configs: &ATNConfigSet, nalts: usize) -> (r: Option<Vec<SemanticContext>>)
    requires configs.ok(self.a, nalts as int), nalts < 0x1000_0000
    ensures match r {
        None => forall|w: World, x: int| ambig_alts.s().contains(x) && has_alt(configs.cfgs(), x) ==> #[trigger] holds(configs.cfgs(), w, x),
        Some(p) => p@.len() == nalts + 1 && some_pred(p@) && (forall|w: World, x: int| ambig_alts.s().contains(x) && has_alt(configs.cfgs(), x) ==> 1 <= x <= nalts && (#[trigger] holds(configs.cfgs(), w, x) == truth(w, p@[x].v())))
    }
//@ rewrite alt_to_pred.resize_with(__n, || None) => resize_none(&mut alt_to_pred, __n)
//@ rewrite configs.configs.iter() => &configs.configs
//@ rewrite alt_to_pred.into_iter().map(|it| { __body }).collect() => map_all(alt_to_pred, |it: Option<SemanticContext>| -> (r: SemanticContext) ensures dflt(it, r) { __body })
//@ rewrite alt_to_pred.iter().filter(|it| __e).count() => count_where(&alt_to_pred, |it: &SemanticContext| -> (b: bool) ensures b == (it.v() != none_v()) { __e })
//@ rewrite **it != SemanticContext::NONE => !it.is_none_()
//@ rewrite SemanticContext::NONE => SemanticContext::none()
//@ rewrite alt_to_pred[alt] = __e; => { let __p = __e; alt_to_pred.set(alt, __p); }
//@ loop 0 for {index=it}
    invariant it <= configs.configs@.len(), it_v@ == configs.configs@, cs == configs.cfgs(), set_ok(self.a, nalts as int, cs), alt_to_pred@.len() == nalts + 1, nalts < 0x1000_0000,
        collected(alt_to_pred@, cs.take(it as int), ambig_alts.s())
//@ at fn start
    let ghost cs = configs.cfgs();
//@ at before for c in
    proof { assert(cs.take(0) =~= Seq::<Cfg>::empty()); }
//@ at loop 0 start
    let ghost p0 = alt_to_pred@;
    proof { assert(cfg_fin(self.a, nalts as int, cs[it - 1])); assert(cs[it - 1] == configs.configs@[it - 1].v()); }
//@ at loop 0 end
    proof { lemma_collect(p0, alt_to_pred@, cs, it as int, ambig_alts.s()); }
//@ at before let alt_to_pred
    let ghost p1 = alt_to_pred@;
    proof { assert(cs.take(cs.len() as int) =~= cs); }
//@ at before if npred_alts
    proof {
        assert forall|w: World, x: int| ambig_alts.s().contains(x) && has_alt(cs, x) implies 1 <= x <= nalts && (#[trigger] holds(cs, w, x) == truth(w, alt_to_pred@[x].v())) by {
            let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).alt == x; assert(cfg_fin(self.a, nalts as int, cs[i]));
            assert(col1(p1, cs, ambig_alts.s(), x)); assert(p1[x] is Some); assert(dflt(p1[x], alt_to_pred@[x])); let _ = truth(w, (p1[x]->0).v());
        }
        if npred_alts > 0 {
            let j = choose|j: int| 0 <= j < alt_to_pred@.len() && (#[trigger] alt_to_pred@[j]).v() != none_v();
            assert(dflt(p1[j], alt_to_pred@[j]));
            assert(col1(p1, cs, ambig_alts.s(), j));
            if j == 0 { assert(!has_alt(cs, 0)) by { if has_alt(cs, 0) { let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).alt == 0; assert(cfg_fin(self.a, nalts as int, cs[i])); } } }
        } else {
            assert forall|w: World, x: int| ambig_alts.s().contains(x) && has_alt(cs, x) implies #[trigger] holds(cs, w, x) by { assert(alt_to_pred@[x].v() == none_v()); none_true(w); }
        }
    }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::get_predicate_predictions
//@ sig
fn get_predicate_predictions(&self, ambig_alts: &BitSet, alt_to_pred: Vec<SemanticContext>) -> (r: Vec<PredPrediction>)
    requires alt_to_pred@.len() < 0x1000_0001
    ensures some_pred(alt_to_pred@) ==> forall|w: World, x: int| #[trigger] pred_alt(r@, w, x) == (1 <= x < alt_to_pred@.len() && ambig_alts.s().contains(x) && truth(w, alt_to_pred@[x].v())),
        some_pred(alt_to_pred@) && r@.len() == 0 ==> forall|x: int| 1 <= x < alt_to_pred@.len() ==> !#[trigger] ambig_alts.s().contains(x),
        !some_pred(alt_to_pred@) ==> r@.len() == 0, forall|j: int| 0 <= j < r@.len() ==> 1 <= (#[trigger] r@[j]).alt < 0x1000_0001 && ambig_alts.s().contains(r@[j].alt as int)
//@ rewrite alt_to_pred.into_iter().enumerate().skip(1) => &enum_skip1(&alt_to_pred)
//@ rewrite pred != SemanticContext::NONE => !pred.is_none_()
//@ rewrite PredPrediction { alt: i as isize, pred, } => PredPrediction { alt: i as isize, pred: pred.clone() }
//@ rewrite vec![] => Vec::<PredPrediction>::new()
//@ loop 0 for {index=it copy}
    invariant it <= it_v@.len(), it_v@.len() == (if alt_to_pred@.len() == 0 { 0 } else { alt_to_pred@.len() - 1 }), alt_to_pred@.len() < 0x1000_0001, forall|k: int| 0 <= k < it_v@.len() ==> #[trigger] it_v@[k] == ((k + 1) as usize, &alt_to_pred@[k + 1]),
        contains_predicate == (exists|j: int| 1 <= j <= it && j < alt_to_pred@.len() && (#[trigger] alt_to_pred@[j]).v() != none_v()),
        forall|w: World, x: int| #[trigger] pred_alt(pairs@, w, x) == (1 <= x <= it && ambig_alts.s().contains(x) && truth(w, alt_to_pred@[x].v())),
        pairs@.len() == 0 ==> forall|x: int| 1 <= x <= it ==> !#[trigger] ambig_alts.s().contains(x),
        forall|j: int| 0 <= j < pairs@.len() ==> 1 <= (#[trigger] pairs@[j]).alt < 0x1000_0001 && ambig_alts.s().contains(pairs@[j].alt as int)
//@ at loop 0 start
    let ghost p0 = pairs@;
    proof { let _ = alt_to_pred@[it as int]; assert(it_v@[it - 1] == (it, &alt_to_pred@[it as int])); }
//@ at loop 0 end
    proof {
        if ambig_alts.s().contains(it as int) {
            let np = pairs@[p0.len() as int];
            assert(pairs@ =~= p0.push(np)); assert(np.alt == it && np.pred.v() == alt_to_pred@[it as int].v());
            assert forall|w: World, x: int| #[trigger] pred_alt(pairs@, w, x) == (1 <= x <= it && ambig_alts.s().contains(x) && truth(w, alt_to_pred@[x].v())) by {
                lemma_pred_step(pairs@, pairs@.len() as int, w, x); assert(pairs@.take(pairs@.len() as int) =~= pairs@); assert(pairs@.take(pairs@.len() - 1) =~= p0); let _ = pred_alt(p0, w, x);
            }
        } else { assert(pairs@ == p0); assert forall|w: World, x: int| #[trigger] pred_alt(pairs@, w, x) == (1 <= x <= it && ambig_alts.s().contains(x) && truth(w, alt_to_pred@[x].v())) by { let _ = pred_alt(p0, w, x); } }
    }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::get_conflicting_alts {ret=r}
    ensures forall|x: int| #[trigger] r.s().contains(x) == has_alt(configs.e(), x)
//@ at after let altsets
    proof { lemma_groups(altsets@, configs.e()); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::get_conflicting_alts_or_unique_alt {ret=r}
    requires 0 <= configs.unique_alt
    ensures forall|x: int| #[trigger] r.s().contains(x) == (if configs.unique_alt != 0 { x == configs.unique_alt } else { configs.conflicting_alts.s().contains(x) })
//@ rewrite BitSet::new().modify_with(|it| { __body }) => { let mut it0 = BitSet::new(); { let it = &mut it0; __body } it0 }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::predicate_dfa_state
//@ sig
fn predicate_dfa_state(&self, dfa_state: &mut DFAState, decision_state: &AState)
    requires decision_state.trs().len() < 0x1000_0000, old(dfa_state).configs.ok(self.a, decision_state.trs().len() as int), old(dfa_state).configs.unique_alt >= 0, old(dfa_state).predicates@.len() == 0,
        exists|x: int| #[trigger] offered(old(dfa_state).cs(), x), forall|x: int| #[trigger] offered(old(dfa_state).cs(), x) ==> has_alt(old(dfa_state).configs.cfgs(), x)
    ensures final(dfa_state).configs == old(dfa_state).configs, final(dfa_state).edges == old(dfa_state).edges, final(dfa_state).is_accept_state == old(dfa_state).is_accept_state, final(dfa_state).requires_full_context == old(dfa_state).requires_full_context, final(dfa_state).state_number == old(dfa_state).state_number,
        accept_ok(*final(dfa_state))
//@ rewrite dfa_state.configs.as_ref() => &dfa_state.configs
//@ rewrite alts_to_collect_preds_from.iter().next() => alts_to_collect_preds_from.least()
//@ rewrite __o.unwrap_or(__x) => (match __o { Some(__y) => __y, None => __x })
//@ at fn start
    let ghost c = dfa_state.cs(); let ghost cs = dfa_state.configs.cfgs(); let ghost n = decision_state.trs().len() as int;
    proof { lemma_holds(cs); assert forall|x: int| #[trigger] offered(c, x) implies 1 <= x <= n by { let i = choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).alt == x; assert(cfg_fin(self.a, n, cs[i])); } }
//@ at after let alts_to_collect
    proof { let am = alts_to_collect_preds_from.s(); assert forall|x: int| #[trigger] am.contains(x) == offered(c, x) by { } assert forall|x: int| #[trigger] offered(c, x) implies am.contains(x) by {} let x0 = choose|x: int| #[trigger] offered(c, x); assert(am.contains(x0)); lemma_two(am); }
//@ at after dfa_state.predicates =
    proof { assert forall|w: World, x: int| #[trigger] viable(c, w, x) == pred_alt(dfa_state.predicates@, w, x) by { let _ = holds(cs, w, x); let _ = holds(c.c, w, x); let _ = offered(c, x); } }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::no_viable_alt
//@ sig
fn no_viable_alt<T: Parser>(&self, local: &mut Local<T>, _configs: &ATNConfigSet, start_index: isize) -> (r: PErr)
    requires at_token(lv(*old(local)), start_index as int)
    ensures kept(*old(local), *final(local)), r.first() == start_index, r.offending() == ix(lv(*old(local)))
//@ rewrite local.parser.get_input_stream().get(__i).borrow() => local.parser.tok_at(__i)
//@ rewrite local.input().lt(1).unwrap().borrow() => local.parser.lt_(1)
//@ rewrite Token::to_owned(__x) => __x
//@ rewrite ANTLRError::NoAltError(NoViableAltError::new_full(__a, __b, __c, )) => PErr::new_full(__a, __b, __c)
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::get_existing_target_state {ret=r}
    requires previousD < dfa.states@.len(), -1 <= t < isize::MAX
    ensures r == (if dfa.states@[previousD as int].edge(t + 1) == 0 { None } else { Some(dfa.states@[previousD as int].edge(t + 1)) })
//@ rewrite __v.get(__i).and_then(|__x| match __y { 0 => None, __z => Some(__w), }) ==>> match vget(&__v, __i) { Some(__x) => match __x { 0 => None, __z => Some(__w) }, None => None }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::add_dfaedge
    requires 0 <= self.a.max_token_type < 0x1000_0000, old(from).edges@.len() == 0 || old(from).edges@.len() == self.a.max_token_type + 2
    ensures same_verdict(*final(from), *old(from)), final(from).edges@.len() == 0 || final(from).edges@.len() == self.a.max_token_type + 2,
        forall|u: int| #[trigger] final(from).edge(u) == (if u == t + 1 && -1 <= t <= self.a.max_token_type { to } else { old(from).edge(u) })
//@ rewrite self.atn() => (&self.a)
//@ rewrite __v.resize(__n, 0) => resize0(&mut __v, __n)
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::add_dfastate
//@ sig
fn add_dfastate(&self, dfa: &mut DFA, mut dfastate: DFAState, e: Ghost<Env>) -> (r: DFAStateRef)
    requires dfa_ok(e@, old(dfa)), new_ok(e@, dfastate), dfastate.state_number == 0
    ensures dfa_ok(e@, final(dfa)), grows(e@, old(dfa), final(dfa)), first(e@) <= r < final(dfa).states@.len(), final(dfa).states@[r as int].cs() == dfastate.cs(), final(dfa).states@[r as int].configs.e() == dfastate.configs.e(),
        forall|s: int| 0 <= s < old(dfa).states@.len() ==> #[trigger] final(dfa).states@[s] == old(dfa).states@[s]
//@ rewrite let states = &mut dfa.states; =>
//@ rewrite dfastate.default_hash() => 0u64
//@ rewrite dfa.states_map.get_mut(&key) => dfa.states_map.get_(&key)
//@ rewrite states[it] == dfastate => dfa.states[it].eq(&dfastate)
//@ rewrite st.iter().find(|__p| __e) => find_by(&st, |it: DFAStateRef| -> (r: bool) requires it < dfa.states@.len(), dfa.states@[it as int].configs.ups(), dfastate.configs.ups() ensures r ==> dfa.states@[it as int].cs() == dfastate.cs() { __e })
//@ rewrite if let Some(&st) = __e { __b } => if let Some(st) = __e { __b }
//@ rewrite states.len() => dfa.states.len()
//@ rewrite states.push(__x); => dfa.states.push(__x);
//@ rewrite dfa.states_map.entry(key).or_insert(Vec::new()).push(state_number) => dfa.states_map.push_at(key, state_number)
//@ at fn start
    proof { vec_bound(dfa.states); }
    let ghost d0 = *dfa; let ghost dd = dfastate;
//@ at before if let Some(&st)
    proof {
        assert forall|i: int| 0 <= i < st@.len() implies dfa.states@[(#[trigger] st@[i]) as int].configs.ups() && st@[i] < dfa.states@.len() by { assert(dfa.states_map.m()[key][i] == st@[i]); assert(state_ok(e@, dfa.states@, st@[i] as int)); lemma_ups(e@.a, nalts(e@), &dfa.states@[st@[i] as int].configs); }
        lemma_ups(e@.a, nalts(e@), &dfastate.configs);
    }
//@ at before states.push
    let ghost n0 = dfastate;
    proof { assert(n0.cs().c =~= dd.cs().c); assert(n0.cs() == dd.cs()); assert(verdict_ok(n0)); }
//@ at after states.push
    proof { lemma_push(e@, &d0, dfa, n0); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::compute_target_state
//@ sig
fn compute_target_state<T: Parser>(&self, previousD: DFAStateRef, t: isize, local: &mut Local<T>) -> (r: DFAStateRef)
    requires l_ok(self, *old(local)), first(le(self, *old(local))) <= previousD < ((*old(local)).dfa->0).states@.len(), -1 <= t < 0x1000_0000
    ensures frame(*old(local), *final(local)), lv(*final(local)) == lv(*old(local)), l_ok(self, *final(local)), le(self, *final(local)) == le(self, *old(local)),
        grows(le(self, *old(local)), &(*old(local)).dfa->0, &(*final(local)).dfa->0),
        ({
            let d = reach(le(self, *old(local)), None, ((*old(local)).dfa->0).states@[previousD as int].cs().c, t as int, false);
            if d.len() == 0 { r == usize::MAX } else { first(le(self, *old(local))) <= r < ((*final(local)).dfa->0).states@.len() && target_cs(le(self, *old(local)), d, ((*final(local)).dfa->0).states@[r as int].cs()) }
        })
//@ rewrite RwLockUpgradableReadGuard::rwlock(__x).read() => snapshot(__x)
//@ rewrite closure.states[previousD].configs.as_ref() => &closure.states[previousD].configs
//@ rewrite reach.into() => Box::new(reach)
//@ rewrite D.configs.as_ref() => &D.configs
//@ rewrite self.prediction_mode.get() => self.prediction_mode
//@ rewrite alts.iter().next() => alts.least()
//@ rewrite self.atn() => (&self.a)
//@ rewrite self.add_dfastate(__a, __b) => self.add_dfastate(__a, __b, Ghost(en))
//@ at fn start
    let ghost en = le(self, *local); let ghost l0 = *local; let ghost d0 = local.dfa->0; let ghost n = nalts(en); let ghost c0 = d0.states@[previousD as int].cs().c; let ghost rc = reach(en, None, c0, t as int, false);
    proof { vec_bound(d0.states); assert(state_ok(en, d0.states@, previousD as int)); assert(edge_ok(en, d0.states@, previousD as int, t as int)); }
//@ at after self.add_dfaedge(&mut dfa.states[previousD], t, ERROR
    proof { lemma_edge(en, &d0, dfa, previousD as int, t as int); }
//@ at before let predicted_alt
    proof { lemma_alts(self.a, n, &reach); lemma_uniq_er(reach.cfgs()); lemma_holds(reach.cfgs()); assert(st_ok(self.a, en.start)); }
    let ghost cs = reach.cfgs();
//@ at before #0 let alts
    proof { assert(has_alt(rc, rc[0].alt)); }
//@ at after #0 let alts
    proof { assert(alts.s().contains(rc[0].alt)); lemma_two(alts.s()); assert forall|x: int| #[trigger] alts.s().contains(x) implies 1 <= x <= n by { assert(has_alt(rc, x)); let i = choose|i: int| 0 <= i < rc.len() && (#[trigger] rc[i]).alt == x; assert(cs[i].alt == x); assert(cfg_fin(self.a, n, cs[i])); } }
//@ at before if D.is_accept_state
    let ghost D0 = D;
    proof { assert(D.configs.cfgs() =~= cs); assert(D.configs.e() =~= rc); assert(target_cs(en, rc, D.cs())); lemma_offered(en, rc, D.cs()); if !any_sem(cs) { lemma_nosem(cs); } }
//@ at after self.predicate_dfa_state
    let ghost Dp = D;
    proof { assert(accept_ok(D)); }
//@ at after if !D.predicates
    proof { assert(D.cs() == Dp.cs()); assert(accept_ok(D)); }
//@ at before let D =
    let ghost D1 = D; let ghost d1 = *dfa;
    proof { assert(D1.cs() == D0.cs());
        if uniq(rc) != 0 { assert(offered(D1.cs(), uniq(rc))); } else if conflicting(en, rc) { assert(offered(D1.cs(), rc[0].alt)); assert(D1.cs().conf.contains(rc[0].alt)); }
        if D1.is_accept_state && !any_sem(cs) { assert forall|w: World, x: int| offered(D1.cs(), x) implies #[trigger] holds(rc, w, x) by { assert(has_alt(rc, x)); let _ = has_alt(cs, x); let _ = holds(cs, w, x); } }
        if D1.is_accept_state { if any_sem(cs) { assert(accept_ok(D1)); } else if uniq(rc) != 0 { assert(D1.predicates@.len() == 0); assert(D1.prediction == uniq(rc)); assert(accept_ok(D1)); } else { assert(least_of(D1.cs().conf, D1.prediction as int)); assert forall|y: int| #[trigger] offered(D1.cs(), y) implies D1.prediction <= y by { assert(D1.cs().conf.contains(y)); } assert(accept_ok(D1)); } }
        assert(D1.is_accept_state == decided(en, rc)); assert(D1.requires_full_context == conflicting(en, rc));
        assert(verdict_ok(D1)); }
//@ at before self.add_dfaedge(&mut dfa.states[previousD], t, D
    let ghost d2 = *dfa;
    proof { vec_bound(d2.states); assert(state_ok(en, d2.states@, previousD as int)); assert(edge_ok(en, d2.states@, previousD as int, t as int)); }
//@ at after self.add_dfaedge(&mut dfa.states[previousD], t, D
    proof { assert(dfa.states@[previousD as int].cs() == d2.states@[previousD as int].cs()); assert forall|x: int| first(en) <= x < dfa.states@.len() implies (#[trigger] dfa.states@[x]).cs() == d2.states@[x].cs() by { } lemma_edge(en, &d2, dfa, previousD as int, t as int); lemma_grows(en, &d0, &d2, dfa); }
//@ end
// the listeners are told; they leave the parser as it is
#[verifier::external_body]
fn report_attempting_full_context<T: Parser>(&self, dfa: &DFA, conflicting_alts: &BitSet, configs: &ATNConfigSet, start_index: isize, stop_index: isize, parser: &mut T) ensures final(parser).v() == old(parser).v() { unimplemented!() }
#[verifier::external_body]
fn report_context_sensitivity<T: Parser>(&self, dfa: &DFA, prediction: isize, configs: &ATNConfigSet, start_index: isize, stop_index: isize, parser: &mut T) ensures final(parser).v() == old(parser).v() { unimplemented!() }
#[verifier::external_body]
fn report_ambiguity<T: Parser>(&self, dfa: &DFA, start_index: isize, stop_index: isize, exact: bool, ambig_alts: &BitSet, configs: &ATNConfigSet, parser: &mut T) ensures final(parser).v() == old(parser).v() { unimplemented!() }
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::exec_atn_with_full_context
//@ sig
fn exec_atn_with_full_context<T: Parser>(&self, local: &mut Local<T>, s0: ATNConfigSet, v0: Ghost<PV>) -> (r: Result<isize, PErr>)
    requires l_ok(self, *old(local)), s0.ok(self.a, nalts(le(self, *old(local)))), s0.full_ctx, pv_ok(v0@), ix(v0@) == self.start_index, lv(*old(local)) == goto_(v0@, lv(*old(local)).cur)
    ensures frame(*old(local), *final(local)), exists|k: int| #[trigger] full_at(le(self, *old(local)), w0(self, *old(local)), v0@, s0.e(), k, r)
//@ rewrite self.start_index.get() => self.start_index
//@ rewrite self.prediction_mode.get() => self.prediction_mode
//@ rewrite local.input() => local.parser
//@ rewrite self.get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(__a, __b,) => self.get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(__a, __b, Ghost(n))
//@ loop 0 loop
    invariant_except_break
        l0 == *old(local), c0 == s0.e(), en == le(self, l0), w == w0(self, l0), l_ok(self, *local), frame(l0, *local), local.dfa == l0.dfa, !found_exact_ambig, full_ctx,
        lv(*local) == goto_(v0@, posn(v0@, k)), t == ty(v0@, posn(v0@, k)), prev.e() == run(en, Some(w), v0@, c0, true, k), prev.ok(self.a, n), prev.full_ctx,
        k >= 0, en == le(self, *local), w == w0(self, *local), n == nalts(en), n < 0x1000_0000, pv_ok(v0@), ix(v0@) == self.start_index, en.a == self.a, en.mode == self.prediction_mode,
        forall|i: int| 1 <= i <= k ==> #[trigger] going_ll(en, w, v0@, c0, i)
    ensures l_ok(self, *local), frame(l0, *local), local.dfa == l0.dfa, prev.e() == run(en, Some(w), v0@, c0, true, k + 1), prev.e().len() > 0, ll_done(en.mode, prev.e(), predicted_alt as int), k >= 0,
        forall|i: int| 1 <= i <= k ==> #[trigger] going_ll(en, w, v0@, c0, i)
//@ at fn start
    let ghost en = le(self, *local); let ghost l0 = *local; let ghost w = w0(self, *local); let ghost c0 = s0.e(); let ghost mut k = 0int; let ghost n = nalts(en);
    proof { assert(st_ok(self.a, en.start)); lemma_start(v0@); }
//@ at before let mut t
    proof { lemma_inj(v0@, lv(*local).cur, v0@.cur); }
//@ at loop 0 start
    let ghost pc = prev.cfgs();
    proof { lemma_posn(v0@, k); local.parser.inv(); }
//@ at before if alt
    proof { assert(lv(*local).cur == v0@.cur) by { lemma_inj(v0@, lv(*local).cur, v0@.cur); } assert(er(pc) == run(en, Some(w), v0@, c0, true, k)); assert(salvage(en.a, pc, w, alt as int)); }
//@ at before return Ok(alt)
    proof { lemma_dead_ok(en, w, pc, ix(v0@), (v0@.idx)(posn(v0@, k)), alt); assert(full_at(en, w, v0@, c0, k + 1, Ok(alt))); }
//@ at before return Err
    proof { lemma_dead_err(en, w, pc, ix(v0@), (v0@.idx)(posn(v0@, k)), err); assert(full_at(en, w, v0@, c0, k + 1, Err(err))); }
//@ at before prev.set_unique_alt
    proof { lemma_groups_led(alt_sub_sets@, prev.e(), n); lemma_alts(self.a, n, &prev); lemma_uniq_er(prev.cfgs()); assert(prev.e() == run(en, Some(w), v0@, c0, true, k + 1)); }
    let ghost pe = prev.e();
//@ at before if t != TOKEN_EOF
    proof { assert(prev.e() =~= pe); assert forall|x: int| !#[trigger] ll_done(en.mode, pe, x) by { let _ = all_least(alt_sub_sets@, x); } assert(ll_open(en.mode, pe)); assert(going_ll(en, w, v0@, c0, k + 1)); lemma_posn(v0@, k + 1); k = k + 1; }
//@ at loop 0 end
    proof { assert((lv(*local).idx)(v0@.cur) == self.start_index); }
//@ at after let dfa
    proof { assert forall|r: Result<isize, PErr>| r == Ok::<isize, PErr>(predicted_alt) implies #[trigger] full_at(en, w, v0@, c0, k + 1, r) by { } assert(full_at(en, w, v0@, c0, k + 1, Ok(predicted_alt))); }
//@ end
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::exec_atn
//@ sig
fn exec_atn<T: Parser>(&self, local: &mut Local<T>, s0: DFAStateRef, c0: Ghost<Seq<Cfg>>) -> (r: Result<isize, PErr>)
    requires l_ok(self, *old(local)), first(le(self, *old(local))) <= s0 < ((*old(local)).dfa->0).states@.len(), plain(((*old(local)).dfa->0).states@[s0 as int].cs(), c0@), ix(lv(*old(local))) == self.start_index
    ensures frame(*old(local), *final(local)), predicted(le(self, *old(local)), lv(*old(local)), c0@, r)
//@ rewrite self.start_index.get() => self.start_index
//@ rewrite self.prediction_mode.get() => self.prediction_mode
//@ rewrite local.input() => local.parser
//@ rewrite __o.unwrap_or_else(|| __e) => (match __o { Some(__x) => __x, None => __e })
//@ rewrite debug_assert!(__e) => vassert(__e)
//@ rewrite previousDstate.configs.as_ref() => &previousDstate.configs
//@ rewrite Dstate.configs.as_ref() => &Dstate.configs
//@ rewrite self.get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(__a, __b,) => self.get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(__a, __b, Ghost(n))
//@ rewrite PredictionContext::from_rule_context::<T::Node>(self.atn(), local.outer_context(),) => PredictionContext::from_rule_context_(&self.a, &local.outer_context)
//@ rewrite __a.iter().next().unwrap() => __a.least().unwrap()
//@ rewrite self.exec_atn_with_full_context(__a, __b) => self.exec_atn_with_full_context(__a, __b, Ghost(v0))
//@ loop 0 loop
    invariant l0 == *old(local), v0 == lv(l0), en == le(self, l0), n == nalts(en), n < 0x1000_0000, w == (v0.world)(ix(v0)), pv_ok(v0), ix(v0) == self.start_index, en.a == self.a, en.mode == self.prediction_mode,
        l_ok(self, *local), le(self, *local) == en, frame(l0, *local), k >= 0,
        lv(*local) == goto_(v0, posn(v0, k)), token == ty(v0, posn(v0, k)), first(en) <= previousD < (local.dfa->0).states@.len(), (local.dfa->0).states@[previousD as int].cs().c == run(en, None, v0, c0@, false, k),
        forall|i: int| 1 <= i <= k ==> #[trigger] going(en, v0, c0@, i)
//@ at fn start
    let ghost en = le(self, *local); let ghost l0 = *local; let ghost v0 = lv(*local); let ghost w = (v0.world)(ix(v0)); let ghost mut k = 0int; let ghost n = nalts(en);
    proof { assert(st_ok(self.a, en.start)); lemma_start(v0); local.parser.inv(); }
//@ at loop 0 start
    let ghost rc = run(en, None, v0, c0@, false, k + 1);
    proof { vec_bound((local.dfa->0).states); lemma_posn(v0, k); local.parser.inv(); assert(state_ok(en, (local.dfa->0).states@, previousD as int)); assert(edge_ok(en, (local.dfa->0).states@, previousD as int, token as int)); assert((lv(*local).idx)(v0.cur) == self.start_index);
        assert(rc == reach(en, None, (local.dfa->0).states@[previousD as int].cs().c, token as int, false)); }
//@ at before debug_assert
    proof { vec_bound((local.dfa->0).states); }
//@ at after let states
    let ghost st0 = dfa.states@; let ghost pc = st0[previousD as int].configs.cfgs();
    proof { assert(state_ok(en, st0, previousD as int)); assert(er(pc) == run(en, None, v0, c0@, false, k)); }
//@ at before if alt != INVALID_ALT
    proof { lemma_inj(v0, lv(*local).cur, v0.cur); assert(salvage(en.a, pc, w, alt as int)); }
//@ at before return Ok(alt)
    proof { lemma_dead_ok(en, w, pc, ix(v0), (v0.idx)(posn(v0, k)), alt); assert(sll_at(en, v0, c0@, k + 1, Ok(alt))); }
//@ at before return Err(err)
    proof { lemma_dead_err(en, w, pc, ix(v0), (v0.idx)(posn(v0, k)), err); assert(sll_at(en, v0, c0@, k + 1, Err(err))); }
//@ at after let Dstate
    let ghost ds = Dstate.cs();
    proof { assert(state_ok(en, st0, D as int)); assert(target_cs(en, rc, ds)); lemma_offered(en, rc, ds); assert(ds.c == rc); assert(Dstate.requires_full_context == conflicting(en, rc)); assert(Dstate.is_accept_state == decided(en, rc)); }
//@ at after conflicting_alts = self.eval_semantic_context
    proof { lemma_inj(v0, lv(*local).cur, v0.cur); lemma_preds(ds, w, conflicting_alts.s(), Dstate.predicates@); lemma_two(conflicting_alts.s()); }
//@ at before return Ok(conflicting_alts
    proof { lemma_sll_only(en, v0, c0@, k, ds, conflicting_alts.s()); lemma_bounded(Dstate.predicates@, w, conflicting_alts.s()); }
//@ at before self.report_attempting_full_context
    proof { if Dstate.predicates@.len() == 0 { lemma_many(en, rc, ds, w, *Dstate); } else { lemma_not_only(ds, w, conflicting_alts.s()); } lemma_inj(v0, lv(*local).cur, posn(v0, k)); }
//@ at after let s0_closure
    proof { assert(w0(self, *local) == w); assert(s0_closure.e() == start(en, Some(w), stack_of(v0.ctx), true)); }
//@ at before return self.exec_atn_with_full
    proof { lemma_sll_full(en, v0, c0@, k, ds); }
//@ at before return Ok(Dstate.prediction)
    proof { assert(least_viable(ds, w, Dstate.prediction as int)); lemma_sll_least(en, v0, c0@, k, ds, Dstate.prediction); }
//@ at after let alts
    proof { lemma_inj(v0, lv(*local).cur, v0.cur); lemma_preds(ds, w, alts.s(), Dstate.predicates@); lemma_two(alts.s()); assert((lv(*local).idx)(v0.cur) == self.start_index); lemma_sll_preds(en, v0, c0@, k, ds, alts.s()); lemma_bounded(Dstate.predicates@, w, alts.s()); }
//@ at before previousD = D
    proof { assert(going(en, v0, c0@, k + 1)); lemma_posn(v0, k + 1); k = k + 1; }
//@ at loop 0 end
    proof { assert((lv(*local).idx)(v0.cur) == self.start_index); }
//@ end
// decision_to_dfa()[decision].upgradable_read(): the lock's invariant (established by DFA::new, kept at every release)
#[verifier::external_body]
fn locked_dfa(&self, decision: usize) -> (r: DFA)
    requires decision < self.a.decision_to_state@.len()
    ensures r.decision == decision, dfa_ok(env_of(self, &r), &r), r.atn_start_state == self.a.decision_to_state@[decision as int], r.is_precedence_dfa == is_prec(st(self.a, r.atn_start_state as int))
{ unimplemented!() }
//@ fn src/parser_atn_simulator.rs ParserATNSimulator::adaptive_predict
//@ sig
fn adaptive_predict<T: Parser>(&mut self, decision: isize, parser: &mut T) -> (r: Result<isize, PErr>)
    requires 0 <= decision < old(self).a.decision_to_state@.len()
    ensures final(parser).v() == old(parser).v(), final(self).a == old(self).a, final(self).prediction_mode == old(self).prediction_mode,
        predicted(decision_env(old(self), decision as int), old(parser).v(), sll_start(decision_env(old(self), decision as int), old(parser).v().prec), r)
//@ rewrite self.start_index.set(__e) => self.start_index = __e
//@ rewrite self.start_index.get() => self.start_index
//@ rewrite parser.get_input_stream_mut().index() => parser.index()
//@ rewrite let mut merge_cache: MergeCache = __e; =>
//@ rewrite Local { outer_context: __a, dfa: __b, dfa_mut: None, merge_cache: __m, precedence: __p, parser, pd: PhantomData } => Local { outer_context: __a, dfa: __b, dfa_mut: None, precedence: __p, parser, pd: PhantomData }
//@ rewrite self.decision_to_dfa()[__d].upgradable_read().into() => Some(self.locked_dfa(__d))
//@ rewrite local.input() => local.parser
//@ rewrite s0.unwrap_or_else(|| { __body }) => match s0 { Some(__x) => __x, None => { __body } }
//@ rewrite EMPTY_PREDICTION_CONTEXT.clone() => empty_ctx_()
//@ rewrite self.apply_precedence_filter(__a, __b) => self.apply_precedence_filter(__a, __b, Ghost(nalts(en)))
//@ rewrite self.add_dfastate(__a, __b,) => self.add_dfastate(__a, __b, Ghost(en))
//@ rewrite local.dfa_mut.as_mut().unwrap().set_precedence_start_state(__a, __b) => { let __pr = __a; local.dfa_mut().set_precedence_start_state(__pr, __b) }
//@ rewrite local.dfa_mut().s0.replace(s0) => local.dfa_mut().s0 = Some(s0)
//@ rewrite self.exec_atn(__a, __b) => self.exec_atn(__a, __b, Ghost(c0))
//@ at fn start
    let ghost v0 = parser.v();
    proof { parser.inv(); }
//@ at before let m =
    let ghost en = le(self, local); let ghost c0 = sll_start(en, v0.prec); let ghost lz = local;
    proof { stack_empty(self.a, false); assert(en == decision_env(old(self), decision as int)); assert((v0.idx)(v0.cur) == self.start_index); assert(local.parser.v() == v0); assert(at_token(lv(local), self.start_index as int)); }
//@ at after let m =
    proof { assert(l_ok(self, local)) by { assert((lv(local).idx)(v0.cur) == self.start_index); } if en.prec { assert(level_ok(en, (local.dfa->0).states@, v0.prec)); } }
    let ghost lm = local;
//@ at after local.upgrade_lock
    let ghost da = local.dfa_mut->0;
    proof { assert(dfa_ok(en, &da)); assert(first(en) <= da.states@.len()); }
//@ at after local.dfa_mut().states[s0].configs
    let ghost db = local.dfa_mut->0;
    proof { lemma_first_configs(en, &da, &db); }
//@ at after #0 s0 = self.add_dfastate
    let ghost dc = local.dfa_mut->0;
    proof { assert(plain(dc.states@[s0 as int].cs(), c0)); assert(dc.states@.len() >= 2); }
//@ at after local.dfa_mut.as_mut().unwrap().set_precedence_start_state
    proof { lemma_level(en, &dc, &(local.dfa_mut->0), v0.prec, s0); }
//@ at after #1 s0 = self.add_dfastate
    let ghost dd = local.dfa_mut->0;
    proof { assert(plain(dd.states@[s0 as int].cs(), c0)); }
//@ at after local.dfa_mut().s0.replace
    proof { lemma_s0(en, &dd, &(local.dfa_mut->0), s0, v0.prec); }
//@ at after local.downgrade_lock
    proof { assert(l_ok(self, local)); assert(le(self, local) == en); }
//@ at before self.exec_atn
    proof { assert(l_ok(self, local)); assert(le(self, local) == en); assert(plain((local.dfa->0).states@[s0 as int].cs(), c0)); }
//@ at before local.input().seek
    proof { assert((lv(local).idx)(v0.cur) == self.start_index); assert(frame(lm, local)); assert(unmarked(lv(lm), v0)); lemma_marks(en, lv(lm), v0, c0, result); }
//@ at after local.input().seek
    proof { lemma_inj(v0, lv(local).cur, v0.cur); }
//@ at after local.input().release
    proof { assert(lv(local).marks =~= v0.marks); }
//@ end
}
impl IntervalSet {
    // P01
    #[verifier::external_body]
    pub fn get_min(&self) -> (r: Option<isize>)
        requires self.wf()
        ensures match r { Some(m) => self.mem(m as int) && forall|v: int| #[trigger] self.mem(v) ==> m <= v, None => forall|v: int| !#[trigger] self.mem(v) }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Toks { x: usize }
impl Toks { #[verifier::external_body] pub fn contains(&self, t: isize) -> bool { unimplemented!() } }
// HashSet<ATNConfig>
#[verifier::external_body]
pub struct Busy { x: usize }
impl Busy {
    pub uninterp spec fn s(&self) -> ISet<Cfg>;
    #[verifier::external_body]
    pub fn new() -> (r: Busy) ensures r.s() == ISet::<Cfg>::empty() { unimplemented!() }
    // equality of configurations (P13)
    #[verifier::external_body]
    pub fn insert(&mut self, c: ATNConfig) -> (r: bool) ensures r == !old(self).s().contains(eqv(c.v())), final(self).s() == old(self).s().insert(eqv(c.v())), !r ==> final(self).s() == old(self).s() { unimplemented!() }
}
pub proof fn lemma_set_nil(a: ATN, n: int, s: &ATNConfigSet) requires s.configs@.len() == 0, !s.has_semantic_context, !s.dips_into_outer_context ensures s.ok(a, n), s.e() =~= Seq::<Cfg>::empty(), s.cfgs() =~= Seq::<Cfg>::empty() { }
pub open spec fn skseq(s: Seq<&ATNConfig>) -> Seq<Cfg> { Seq::new(s.len(), |i: int| s[i].v()) }
pub open spec fn sk_ok(a: ATN, n: int, s: Seq<Cfg>) -> bool { forall|i: int| 0 <= i < s.len() ==> cfg_fin(a, n, #[trigger] s[i]) }
pub proof fn lemma_sk_push(a: ATN, n: int, s: Seq<Cfg>, c: Cfg) requires sk_ok(a, n, s), cfg_fin(a, n, c) ensures sk_ok(a, n, s.push(c)) { }
pub proof fn lemma_alts(a: ATN, n: int, s: &ATNConfigSet) requires s.ok(a, n) ensures s.e().len() == s.cfgs().len(), forall|i: int| 0 <= i < s.cfgs().len() ==> (#[trigger] s.cfgs()[i]).alt >= 1 && 0 <= s.cfgs()[i].state < a.states@.len()
{ assert forall|i: int| 0 <= i < s.cfgs().len() implies (#[trigger] s.cfgs()[i]).alt >= 1 && 0 <= s.cfgs()[i].state < a.states@.len() by { assert(cfg_fin(a, n, s.cfgs()[i])); } }
pub fn bref(c: &Box<ATNConfig>) -> (r: &ATNConfig) ensures *r == **c { &**c }
// HashMap<state, context>
#[verifier::external_body]
pub struct CtxMap { x: usize }
pub struct CtxRef { pub c: Ghost<Option<int>> }
impl CtxRef { #[verifier::external_body] pub fn is_(&self, o: Option<&Arc<PredictionContext>>) -> (r: bool) ensures r == (self.c@ == (match o { Some(x) => Some(x.v()), None => None })) { unimplemented!() } }
impl CtxMap {
    pub uninterp spec fn m(&self) -> Map<int, Option<int>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<int, Option<int>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, o: Option<&Arc<PredictionContext>>) ensures final(self).m() == old(self).m().insert(k as int, (match o { Some(x) => Some(x.v()), None => None })) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_(&self, k: usize) -> (r: Option<CtxRef>) ensures match r { Some(x) => self.m().contains_key(k as int) && self.m()[k as int] == x.c@, None => !self.m().contains_key(k as int) } { unimplemented!() }
}
#[verifier::external_body]
pub fn upto(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == k { (0..n).collect() }
#[verifier::external_body]
pub fn enum_trs(t: &Vec<Tr>) -> (r: Vec<(usize, &Tr)>) ensures r@.len() == t@.len(), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == (k as usize, &t@[k]) { t.iter().enumerate().collect() }
pub proof fn lemma_pred_step(p: Seq<PredPrediction>, n: int, w: World, x: int)
    requires 0 < n <= p.len()
    ensures pred_alt(p.take(n), w, x) == (pred_alt(p.take(n - 1), w, x) || (p[n - 1].alt == x && truth(w, p[n - 1].pred.v())))
{
    let q = p.take(n); let o = p.take(n - 1);
    if pred_alt(o, w, x) { let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).alt == x && truth(w, o[j].pred.v()); assert(q[j] == o[j]); }
    if pred_alt(q, w, x) { let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).alt == x && truth(w, q[j].pred.v()); if j < n - 1 { assert(o[j] == q[j]); } }
    if p[n - 1].alt == x && truth(w, p[n - 1].pred.v()) { assert(q[n - 1] == p[n - 1]); }
}
pub open spec fn part_of(s: Seq<Cfg>, c: Seq<Cfg>, w: World, good: bool) -> bool { forall|x: Cfg| #[trigger] s.contains(x) == (c.contains(x) && truth(w, x.sem) == good) }
pub proof fn lemma_part_fresh(c: Seq<Cfg>, n: int, w: World, s: Seq<Cfg>, good: bool)
    requires 0 < n <= c.len(), uniqk(c), part_of(s, c.take(n - 1), w, good)
    ensures fresh(s, c[n - 1])
{
    assert forall|i: int| 0 <= i < s.len() implies lkey(#[trigger] s[i]) != lkey(c[n - 1]) by {
        assert(s.contains(s[i])); let o = c.take(n - 1); let k = choose|k: int| 0 <= k < o.len() && #[trigger] o[k] == s[i]; assert(c[k] == s[i]);
    }
}
pub proof fn lemma_part(c: Seq<Cfg>, n: int, w: World, s: Seq<Cfg>, t: Seq<Cfg>, good: bool)
    requires 0 < n <= c.len(), part_of(s, c.take(n - 1), w, good)
    ensures truth(w, c[n - 1].sem) == good && t == s.push(c[n - 1]) ==> part_of(t, c.take(n), w, good),
        truth(w, c[n - 1].sem) != good && t == s ==> part_of(t, c.take(n), w, good)
{
    assert(c.take(n) =~= c.take(n - 1).push(c[n - 1]));
    let o = c.take(n - 1); let e = c[n - 1];
    assert forall|x: Cfg| #[trigger] o.push(e).contains(x) == (o.contains(x) || x == e) by {
        if o.contains(x) { let k = choose|k: int| 0 <= k < o.len() && o[k] == x; assert(o.push(e)[k] == x); }
        if x == e { assert(o.push(e)[o.len() as int] == x); }
    }
    assert forall|x: Cfg| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e) by {
        if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(s.push(e)[k] == x); }
        if x == e { assert(s.push(e)[s.len() as int] == x); }
    }
}
pub open spec fn some_pred(p: Seq<SemanticContext>) -> bool { exists|i: int| 1 <= i < p.len() && (#[trigger] p[i]).v() != none_v() }
pub open spec fn dflt(o: Option<SemanticContext>, r: SemanticContext) -> bool { match o { Some(x) => r == x, None => r.v() == none_v() } }
#[verifier::external_body]
pub fn resize_none(v: &mut Vec<Option<SemanticContext>>, n: usize) requires old(v)@.len() == 0 ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] is None { v.resize_with(n, || None) }
// into_iter().map(f).collect()
#[verifier::external_body]
pub fn map_all<F: Fn(Option<SemanticContext>) -> SemanticContext>(v: Vec<Option<SemanticContext>>, f: F) -> (r: Vec<SemanticContext>)
    requires forall|x: Option<SemanticContext>| f.requires((x,))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i])
{ unimplemented!() }
// iter().filter(f).count()
#[verifier::external_body]
pub fn count_where<F: Fn(&SemanticContext) -> bool>(v: &Vec<SemanticContext>, f: F) -> (r: usize)
    requires forall|x: &SemanticContext| f.requires((x,))
    ensures r == 0 ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((&v@[i],), false), r > 0 ==> exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && f.ensures((&v@[i],), true)
{ unimplemented!() }
#[verifier::external_body]
pub fn enum_skip1(t: &Vec<SemanticContext>) -> (r: Vec<(usize, &SemanticContext)>) ensures r@.len() == (if t@.len() == 0 { 0 } else { t@.len() - 1 }), forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == ((k + 1) as usize, &t@[k + 1]) { t.iter().enumerate().skip(1).collect() }
// p[x]: the disjunction of the predicates of x's configurations, if x is one of the alternatives asked for
pub open spec fn col1(p: Seq<Option<SemanticContext>>, c: Seq<Cfg>, am: Set<int>, x: int) -> bool {
    (p[x] is Some) == (am.contains(x) && has_alt(c, x)) && (p[x] is Some ==> forall|w: World| #[trigger] truth(w, (p[x]->0).v()) == holds(c, w, x))
}
pub open spec fn collected(p: Seq<Option<SemanticContext>>, c: Seq<Cfg>, am: Set<int>) -> bool { forall|x: int| 0 <= x < p.len() ==> #[trigger] col1(p, c, am, x) }
pub proof fn lemma_collect(p: Seq<Option<SemanticContext>>, q: Seq<Option<SemanticContext>>, cs: Seq<Cfg>, n: int, am: Set<int>)
    requires 0 < n <= cs.len(), collected(p, cs.take(n - 1), am), p.len() == q.len(), 0 <= cs[n - 1].alt < p.len(),
        ({ let c = cs[n - 1]; let x = c.alt; if am.contains(x) { q == p.update(x, q[x]) && q[x] is Some && (match p[x] { None => (q[x]->0).v() == c.sem, Some(o) => forall|w: World| #[trigger] truth(w, (q[x]->0).v()) == (truth(w, o.v()) || truth(w, c.sem)) }) } else { q == p } })
    ensures collected(q, cs.take(n), am)
{
    let o = cs.take(n - 1); let t = cs.take(n); let c = cs[n - 1];
    assert(t =~= o.push(c));
    assert forall|x: int| 0 <= x < q.len() implies #[trigger] col1(q, t, am, x) by {
        assert(col1(p, o, am, x));
        assert(has_alt(t, x) == (has_alt(o, x) || c.alt == x)) by {
            if has_alt(o, x) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).alt == x; assert(t[i] == o[i]); }
            if has_alt(t, x) && c.alt != x { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).alt == x; assert(i < n - 1); assert(o[i] == t[i]); }
            if c.alt == x { assert(t[n - 1] == c); }
        }
        assert forall|w: World| #[trigger] holds(t, w, x) == (holds(o, w, x) || (c.alt == x && truth(w, c.sem))) by {
            if holds(o, w, x) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).alt == x && truth(w, o[i].sem); assert(t[i] == o[i]); }
            if holds(t, w, x) && !(c.alt == x && truth(w, c.sem)) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).alt == x && truth(w, t[i].sem); assert(i < n - 1); assert(o[i] == t[i]); }
            if c.alt == x && truth(w, c.sem) { assert(t[n - 1] == c); }
        }
        if c.alt == x && am.contains(x) && p[x] is None {
            assert forall|w: World| !#[trigger] holds(o, w, x) by { if holds(o, w, x) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).alt == x && truth(w, o[i].sem); assert(has_alt(o, x)); } }
        }
        assert forall|w: World| q[x] is Some implies #[trigger] truth(w, (q[x]->0).v()) == holds(t, w, x) by { if p[x] is Some { let _ = truth(w, (p[x]->0).v()); } }
    }
}
pub proof fn lemma_holds(c: Seq<Cfg>) ensures forall|w: World, x: int| #[trigger] holds(er(c), w, x) == holds(c, w, x), forall|x: int| #[trigger] has_alt(er(c), x) == has_alt(c, x)
{
    let e = er(c);
    assert forall|w: World, x: int| #[trigger] holds(e, w, x) == holds(c, w, x) by {
        if holds(e, w, x) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).alt == x && truth(w, e[i].sem); assert(c[i].alt == x && truth(w, c[i].sem)); }
        if holds(c, w, x) { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).alt == x && truth(w, c[i].sem); assert(e[i].alt == x && truth(w, e[i].sem)); }
    }
    assert forall|x: int| #[trigger] has_alt(e, x) == has_alt(c, x) by {
        if has_alt(e, x) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).alt == x; assert(c[i].alt == x); }
        if has_alt(c, x) { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).alt == x; assert(e[i].alt == x); }
    }
}
pub proof fn lemma_groups(v: Seq<BitSet>, c: Seq<Cfg>)
    requires groups_of(v, c)
    ensures forall|x: int| #[trigger] in_some(v, v.len() as int, x) == has_alt(c, x)
{
    let m = choose|m: GM| #[trigger] partition(m, c, true) && listing(v, m);
    let ks = choose|ks: Seq<(int, Option<int>)>| #[trigger] lists(v, m, ks);
    assert forall|x: int| #[trigger] in_some(v, v.len() as int, x) == has_alt(c, x) by {
        if in_some(v, v.len() as int, x) {
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).s().contains(x);
            assert(ks.contains(ks[i])); assert(m.contains_key(ks[i])); assert(m[ks[i]].contains(x)); assert(member(c, true, ks[i], x));
            let j = choose|j: int| 0 <= j < c.len() && key_of(true, #[trigger] c[j]) == ks[i] && c[j].alt == x; assert(c[j].alt == x);
        }
        if has_alt(c, x) {
            let j = choose|j: int| 0 <= j < c.len() && (#[trigger] c[j]).alt == x; let k = ckey(c[j]);
            assert(key_of(true, c[j]) == k); assert(present(c, true, k)); assert(member(c, true, k, x)); assert(m.contains_key(k)); assert(m[k].contains(x)); assert(ks.contains(k));
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(v[i].s().contains(x));
        }
    }
}
pub fn vget(v: &Vec<DFAStateRef>, i: usize) -> (r: Option<DFAStateRef>) ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None }) { if i < v.len() { Some(v[i]) } else { None } }
// Vec::resize(n, 0)
#[verifier::external_body]
pub fn resize0(v: &mut Vec<DFAStateRef>, n: usize)
    requires n >= old(v)@.len()
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { 0 })
{ v.resize(n, 0) }
// states_map[key]: states that were added by add_dfastate
pub open spec fn new_ok(e: Env, s: DFAState) -> bool { s.configs.ok(e.a, nalts(e)) && !s.configs.full_ctx && verdict_ok(s) && s.edges@.len() == 0 }
pub proof fn lemma_push(e: Env, d: &DFA, f: &DFA, n: DFAState)
    requires dfa_ok(e, d), f.states@ == d.states@.push(n), f.s0 == d.s0, f.is_precedence_dfa == d.is_precedence_dfa, f.atn_start_state == d.atn_start_state, f.decision == d.decision, f.states_map == d.states_map, new_ok(e, n)
    ensures dfa_ok(e, f), grows(e, d, f)
{
    assert forall|s: int| first(e) <= s < f.states@.len() implies #[trigger] state_ok(e, f.states@, s) by {
        if s < d.states@.len() { assert(state_ok(e, d.states@, s)); assert forall|t: int| #[trigger] edge_ok(e, f.states@, s, t) by { assert(edge_ok(e, d.states@, s, t)); } }
        else { assert forall|t: int| #[trigger] edge_ok(e, f.states@, s, t) by { } }
    }
    if e.prec { assert forall|p: int| #[trigger] level_ok(e, f.states@, p) by { assert(level_ok(e, d.states@, p)); } }
}
pub proof fn lemma_salv(a: ATN, c: Seq<Cfg>, s: Seq<Cfg>, w: World, good: bool, r: int)
    requires forall|x: int| #[trigger] fin_alt(a, c, w, good, x) == fins(a, s, s.len() as int, x),
        r == 0 ==> forall|i: int| 0 <= i < s.len() ==> !finished(a, #[trigger] s[i]),
        r != 0 ==> (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).alt == r && finished(a, s[i])) && (forall|i: int| 0 <= i < s.len() && finished(a, #[trigger] s[i]) ==> r <= s[i].alt)
    ensures r == 0 ==> fin_none(a, c, w, good), r != 0 ==> fin_least(a, c, w, good, r)
{
    if r != 0 { let _ = fin_alt(a, c, w, good, r); }
}
// the cache read through a second (recursive) read lock while the upgradable one is held: nothing can have changed it
#[verifier::external_body]
pub fn snapshot(d: &DFA) -> (r: DFA) ensures r == *d { unimplemented!() }
pub proof fn lemma_edge(e: Env, d: &DFA, f: &DFA, s: int, t: int)
    requires dfa_ok(e, d), f.s0 == d.s0, f.is_precedence_dfa == d.is_precedence_dfa, f.atn_start_state == d.atn_start_state, f.decision == d.decision, f.states_map == d.states_map, first(e) <= s < d.states@.len(), f.states@.len() == d.states@.len(),
        forall|i: int| 0 <= i < d.states@.len() && i != s ==> #[trigger] f.states@[i] == d.states@[i],
        same_verdict(f.states@[s], d.states@[s]), f.states@[s].edges@.len() == 0 || f.states@[s].edges@.len() == e.a.max_token_type + 2,
        forall|u: int| u != t + 1 ==> #[trigger] f.states@[s].edge(u) == d.states@[s].edge(u),
        edge_ok(e, f.states@, s, t)
    ensures dfa_ok(e, f), grows(e, d, f)
{
    assert forall|x: int| first(e) <= x < f.states@.len() implies (#[trigger] f.states@[x]).cs() == d.states@[x].cs() by { }
    assert forall|x: int| first(e) <= x < f.states@.len() implies #[trigger] state_ok(e, f.states@, x) by {
        assert(state_ok(e, d.states@, x));
        assert forall|u: int| #[trigger] edge_ok(e, f.states@, x, u) by { assert(edge_ok(e, d.states@, x, u)); if x == s && u != t { let _ = f.states@[s].edge(u + 1); } }
    }
    if e.prec { assert forall|p: int| #[trigger] level_ok(e, f.states@, p) by { assert(level_ok(e, d.states@, p)); } }
}
pub proof fn lemma_first_configs(e: Env, d: &DFA, f: &DFA)
    requires dfa_ok(e, d), e.prec, f.s0 == d.s0, f.is_precedence_dfa == d.is_precedence_dfa, f.atn_start_state == d.atn_start_state, f.decision == d.decision, f.states_map == d.states_map, f.states@.len() == d.states@.len(),
        forall|i: int| 0 <= i < d.states@.len() && i != 1 ==> #[trigger] f.states@[i] == d.states@[i], f.states@[1].edges == d.states@[1].edges
    ensures dfa_ok(e, f)
{
    assert forall|x: int| first(e) <= x < f.states@.len() implies #[trigger] state_ok(e, f.states@, x) by {
        assert(state_ok(e, d.states@, x));
        assert forall|u: int| #[trigger] edge_ok(e, f.states@, x, u) by { assert(edge_ok(e, d.states@, x, u)); }
    }
    assert forall|p: int| #[trigger] level_ok(e, f.states@, p) by { assert(level_ok(e, d.states@, p)); }
}
pub proof fn lemma_level(e: Env, d: &DFA, f: &DFA, p: int, s: usize)
    requires dfa_ok(e, d), e.prec, f.s0 == d.s0, f.is_precedence_dfa == d.is_precedence_dfa, f.atn_start_state == d.atn_start_state, f.decision == d.decision, f.states_map == d.states_map, f.states@.len() == d.states@.len(),
        forall|i: int| 0 <= i < d.states@.len() && i != 1 ==> #[trigger] f.states@[i] == d.states@[i],
        forall|q: int| #[trigger] f.states@[1].edge(q) == (if q == p && q >= 0 { s } else { d.states@[1].edge(q) }),
        2 <= s < d.states@.len(), plain(d.states@[s as int].cs(), sll_start(e, p))
    ensures dfa_ok(e, f), plain(f.states@[s as int].cs(), sll_start(e, p))
{
    assert forall|x: int| first(e) <= x < f.states@.len() implies #[trigger] state_ok(e, f.states@, x) by {
        assert(state_ok(e, d.states@, x));
        assert forall|u: int| #[trigger] edge_ok(e, f.states@, x, u) by { assert(edge_ok(e, d.states@, x, u)); }
    }
    assert forall|q: int| #[trigger] level_ok(e, f.states@, q) by { assert(level_ok(e, d.states@, q)); }
}
pub proof fn lemma_s0(e: Env, d: &DFA, f: &DFA, s: usize, p: int)
    requires dfa_ok(e, d), !e.prec, f.s0 == Some(s), f.is_precedence_dfa == d.is_precedence_dfa, f.atn_start_state == d.atn_start_state, f.decision == d.decision, f.states_map == d.states_map, f.states@ == d.states@,
        1 <= s < d.states@.len(), plain(d.states@[s as int].cs(), sll_start(e, p))
    ensures dfa_ok(e, f)
{
    assert(sll_start(e, p) == sll_start(e, 0));
}
// the marks play no part in a prediction
pub open spec fn unmarked(u: PV, v: PV) -> bool { u == (PV { marks: u.marks, ..v }) }
pub proof fn lemma_posn_marks(u: PV, v: PV, k: int) requires unmarked(u, v) ensures posn(u, k) == posn(v, k) decreases k { if k > 0 { lemma_posn_marks(u, v, k - 1); } }
pub proof fn lemma_run_marks(e: Env, w: Option<World>, u: PV, v: PV, c: Seq<Cfg>, full: bool, k: int) requires unmarked(u, v) ensures run(e, w, u, c, full, k) == run(e, w, v, c, full, k) decreases k
{ if k > 0 { lemma_run_marks(e, w, u, v, c, full, k - 1); lemma_posn_marks(u, v, k - 1); } }
pub proof fn lemma_full_marks(e: Env, w: World, u: PV, v: PV, r: Result<isize, PErr>) requires unmarked(u, v), full(e, w, u, r) ensures full(e, w, v, r)
{
    let c = start(e, Some(w), stack_of(v.ctx), true);
    let k = choose|k: int| #[trigger] full_at(e, w, u, c, k, r);
    lemma_run_marks(e, Some(w), u, v, c, true, k); lemma_run_marks(e, Some(w), u, v, c, true, k - 1); lemma_posn_marks(u, v, k - 1);
    assert forall|i: int| 1 <= i < k implies #[trigger] going_ll(e, w, v, c, i) by { assert(going_ll(e, w, u, c, i)); lemma_run_marks(e, Some(w), u, v, c, true, i); }
    assert(full_at(e, w, v, c, k, r));
}
pub proof fn lemma_marks(e: Env, u: PV, v: PV, c: Seq<Cfg>, r: Result<isize, PErr>) requires unmarked(u, v), predicted(e, u, c, r) ensures predicted(e, v, c, r)
{
    let k = choose|k: int| #[trigger] sll_at(e, u, c, k, r);
    lemma_run_marks(e, None, u, v, c, false, k); lemma_run_marks(e, None, u, v, c, false, k - 1); lemma_posn_marks(u, v, k - 1);
    assert forall|i: int| 1 <= i < k implies #[trigger] going(e, v, c, i) by { assert(going(e, u, c, i)); lemma_run_marks(e, None, u, v, c, false, i); }
    let d = run(e, None, u, c, false, k);
    if d.len() > 0 {
        let s = choose|s: CS| #[trigger] target_cs(e, d, s) && sll_verdict(e, u, s, r);
        let w = (v.world)(ix(v));
        if full(e, w, u, r) { lemma_full_marks(e, w, u, v, r); }
        assert(sll_verdict(e, v, s, r));
        assert(target_cs(e, d, s));
    }
    assert(sll_at(e, v, c, k, r));
}
// ---------- P09: a prediction is a function of grammar, decision, context, tokens and predicates ----------
pub open spec fn same_result(a: Result<isize, PErr>, b: Result<isize, PErr>) -> bool {
    match a { Ok(x) => b == Ok::<isize, PErr>(x), Err(x) => match b { Ok(_) => false, Err(y) => x.first() == y.first() && x.offending() == y.offending() } }
}
pub proof fn lemma_salvage_one(a: ATN, c: Seq<Cfg>, w: World, x: int, y: int) requires salvage(a, c, w, x), salvage(a, c, w, y), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).alt >= 1 ensures x == y
{
    assert forall|good: bool, z: int| #[trigger] fin_alt(a, c, w, good, z) implies z >= 1 by { }
}
pub open spec fn alts_pos(c: Seq<Cfg>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).alt >= 1 }
pub proof fn lemma_dead_one(e: Env, w: World, c: Seq<Cfg>, f: int, o: int, a: Result<isize, PErr>, b: Result<isize, PErr>)
    requires dead_end(e, w, c, f, o, a), dead_end(e, w, c, f, o, b), alts_pos(c) ensures same_result(a, b)
{
    let x = choose|x: int| #[trigger] salvage(e.a, c, w, x) && if x == 0 { err_at(a, f, o) } else { a == Ok::<isize, PErr>(x as isize) };
    let y = choose|y: int| #[trigger] salvage(e.a, c, w, y) && if y == 0 { err_at(b, f, o) } else { b == Ok::<isize, PErr>(y as isize) };
    lemma_salvage_one(e.a, c, w, x, y);
}
pub proof fn lemma_done_one(mode: PredictionMode, c: Seq<Cfg>, x: int, y: int) requires c.len() > 0, ll_done(mode, c, x), ll_done(mode, c, y) ensures x == y
{
    let k = key_of(true, c[0]); assert(present(c, true, k));
    if uniq(c) == 0 { assert(lead1(c, k, x)); assert(lead1(c, k, y)); assert(member(c, true, k, x)); assert(member(c, true, k, y)); }
}
pub open spec fn runs_pos(e: Env, w: Option<World>, v: PV, c: Seq<Cfg>, full: bool) -> bool { forall|k: int| alts_pos(#[trigger] run(e, w, v, c, full, k)) }
pub open spec fn full_pos(e: Env, w: World, v: PV) -> bool { runs_pos(e, Some(w), v, start(e, Some(w), stack_of(v.ctx), true), true) }
pub proof fn lemma_full_one(e: Env, w: World, v: PV, a: Result<isize, PErr>, b: Result<isize, PErr>) requires full(e, w, v, a), full(e, w, v, b), full_pos(e, w, v) ensures same_result(a, b)
{
    let c = start(e, Some(w), stack_of(v.ctx), true);
    let j = choose|j: int| #[trigger] full_at(e, w, v, c, j, a); let k = choose|k: int| #[trigger] full_at(e, w, v, c, k, b);
    let dj = run(e, Some(w), v, c, true, j); let dk = run(e, Some(w), v, c, true, k);
    if j < k { assert(going_ll(e, w, v, c, j)); match a { Ok(x) => { if dj.len() > 0 { assert(ll_done(e.mode, dj, x as int)); } }, Err(_) => { } } }
    if k < j { assert(going_ll(e, w, v, c, k)); match b { Ok(x) => { if dk.len() > 0 { assert(ll_done(e.mode, dk, x as int)); } }, Err(_) => { } } }
    assert(j == k);
    if dj.len() == 0 { lemma_dead_one(e, w, run(e, Some(w), v, c, true, j - 1), ix(v), (v.idx)(posn(v, j - 1)), a, b); }
    else { match a { Ok(x) => { match b { Ok(y) => { lemma_done_one(e.mode, dj, x as int, y as int); }, Err(_) => { } } }, Err(_) => { } } }
}
pub proof fn lemma_verdict_one(e: Env, v: PV, s: CS, a: Result<isize, PErr>, b: Result<isize, PErr>) requires sll_verdict(e, v, s, a), sll_verdict(e, v, s, b), full_pos(e, (v.world)(ix(v)), v) ensures same_result(a, b)
{
    let w = (v.world)(ix(v));
    if conflicting(e, s.c) && e.mode != PredictionMode::SLL {
        if exists|x: int| #[trigger] only_viable(s, w, x) {
            let x = choose|x: int| #[trigger] only_viable(s, w, x) && a == Ok::<isize, PErr>(x as isize); let y = choose|y: int| #[trigger] only_viable(s, w, y) && b == Ok::<isize, PErr>(y as isize);
            assert(only_viable(s, w, x) && only_viable(s, w, y)); assert(viable(s, w, y));
        } else { lemma_full_one(e, w, v, a, b); }
    } else if exists|x: int| #[trigger] viable(s, w, x) {
        let x = choose|x: int| #[trigger] least_viable(s, w, x) && a == Ok::<isize, PErr>(x as isize); let y = choose|y: int| #[trigger] least_viable(s, w, y) && b == Ok::<isize, PErr>(y as isize);
        assert(least_viable(s, w, x) && least_viable(s, w, y));
    } else {
        if exists|x: int| #[trigger] least_viable(s, w, x) { let x = choose|x: int| #[trigger] least_viable(s, w, x); assert(viable(s, w, x)); }
    }
}
// whatever two caches hold (both correct), the two predictions end alike
pub proof fn theorem_prediction_is_a_function(e: Env, v: PV, c: Seq<Cfg>, a: Result<isize, PErr>, b: Result<isize, PErr>)
    requires predicted(e, v, c, a), predicted(e, v, c, b), runs_pos(e, None, v, c, false), full_pos(e, (v.world)(ix(v)), v)
    ensures same_result(a, b)
{
    let w = (v.world)(ix(v));
    let j = choose|j: int| #[trigger] sll_at(e, v, c, j, a); let k = choose|k: int| #[trigger] sll_at(e, v, c, k, b);
    let dj = run(e, None, v, c, false, j); let dk = run(e, None, v, c, false, k);
    if j < k { assert(going(e, v, c, j)); }
    if k < j { assert(going(e, v, c, k)); }
    assert(j == k);
    if dj.len() == 0 { lemma_dead_one(e, w, run(e, None, v, c, false, j - 1), ix(v), (v.idx)(posn(v, j - 1)), a, b); }
    else {
        let s = choose|s: CS| #[trigger] target_cs(e, dj, s) && sll_verdict(e, v, s, a); let t = choose|t: CS| #[trigger] target_cs(e, dj, t) && sll_verdict(e, v, t, b);
        assert(s.conf =~= t.conf) by { assert forall|x: int| s.conf.contains(x) == t.conf.contains(x) by { } }
        assert(s == t);
        lemma_verdict_one(e, v, s, a, b);
    }
}
pub proof fn lemma_grows(e: Env, a: &DFA, b: &DFA, c: &DFA) requires grows(e, a, b), grows(e, b, c) ensures grows(e, a, c)
{ assert forall|s: int| first(e) <= s < a.states@.len() implies same_verdict(#[trigger] c.states@[s], a.states@[s]) by { let _ = b.states@[s]; } }
pub proof fn lemma_offered(e: Env, c: Seq<Cfg>, s: CS)
    requires target_cs(e, c, s), c.len() > 0
    ensures forall|x: int| #[trigger] offered(s, x) ==> has_alt(c, x), conflicting(e, c) ==> s.conf.contains(c[0].alt) && offered(s, c[0].alt), uniq(c) != 0 ==> offered(s, uniq(c)) && forall|x: int| !#[trigger] s.conf.contains(x),
        !decided(e, c) ==> (forall|x: int| !#[trigger] offered(s, x)) && (forall|x: int| !#[trigger] s.conf.contains(x))
{
    assert(has_alt(c, c[0].alt));
}
pub proof fn lemma_nosem(c: Seq<Cfg>) requires !any_sem(c) ensures forall|w: World, x: int| has_alt(c, x) ==> #[trigger] holds(c, w, x)
{
    assert forall|w: World, x: int| has_alt(c, x) implies #[trigger] holds(c, w, x) by { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).alt == x; none_true(w); assert(truth(w, c[i].sem)); }
}
pub proof fn lemma_start(v: PV) ensures posn(v, 0) == v.cur { }
pub proof fn lemma_inj(v: PV, a: int, b: int) requires pv_ok(v), 0 <= a <= v.toks.len(), 0 <= b <= v.toks.len(), (v.idx)(a) == (v.idx)(b) ensures a == b { if a < b { assert((v.idx)(a) < (v.idx)(b)); } if b < a { assert((v.idx)(b) < (v.idx)(a)); } }
pub proof fn lemma_posn(v: PV, k: int) requires pv_ok(v), k >= 0 ensures 0 <= posn(v, k) <= v.toks.len(), posn(v, k + 1) == nxt(v, posn(v, k)) decreases k { if k > 0 { lemma_posn(v, k - 1); } }
pub proof fn lemma_fin_er(a: ATN, raw: Seq<Cfg>, w: World) ensures forall|good: bool, x: int| #[trigger] fin_alt(a, er(raw), w, good, x) == fin_alt(a, raw, w, good, x)
{
    let e = er(raw);
    assert forall|good: bool, x: int| #[trigger] fin_alt(a, e, w, good, x) == fin_alt(a, raw, w, good, x) by {
        if fin_alt(a, raw, w, good, x) { let i = choose|i: int| 0 <= i < raw.len() && (#[trigger] raw[i]).alt == x && finished(a, raw[i]) && truth(w, raw[i].sem) == good; assert(e[i] == fl(raw[i])); assert(e[i].alt == x && finished(a, e[i])); }
        if fin_alt(a, e, w, good, x) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).alt == x && finished(a, e[i]) && truth(w, e[i].sem) == good; assert(e[i] == fl(raw[i])); assert(raw[i].alt == x && finished(a, raw[i])); }
    }
}
pub proof fn lemma_salvage_er(a: ATN, raw: Seq<Cfg>, w: World, x: int) requires salvage(a, raw, w, x) ensures salvage(a, er(raw), w, x)
{
    lemma_fin_er(a, raw, w);
    assert forall|good: bool| fin_none(a, raw, w, good) implies #[trigger] fin_none(a, er(raw), w, good) by { assert forall|y: int| !#[trigger] fin_alt(a, er(raw), w, good, y) by { let _ = fin_alt(a, raw, w, good, y); } }
    assert forall|good: bool| fin_least(a, raw, w, good, x) implies #[trigger] fin_least(a, er(raw), w, good, x) by { assert forall|y: int| #[trigger] fin_alt(a, er(raw), w, good, y) implies x <= y by { assert(fin_alt(a, raw, w, good, y)); } }
}
pub proof fn lemma_dead_ok(e: Env, w: World, raw: Seq<Cfg>, f: int, o: int, x: isize) requires salvage(e.a, raw, w, x as int), x != 0 ensures dead_end(e, w, er(raw), f, o, Ok(x)) { lemma_salvage_er(e.a, raw, w, x as int); assert(salvage(e.a, er(raw), w, x as int)); }
pub proof fn lemma_dead_err(e: Env, w: World, raw: Seq<Cfg>, f: int, o: int, x: PErr) requires salvage(e.a, raw, w, 0), x.first() == f, x.offending() == o ensures dead_end(e, w, er(raw), f, o, Err(x)) { lemma_salvage_er(e.a, raw, w, 0); assert(salvage(e.a, er(raw), w, 0)); assert(err_at(Err(x), f, o)); }
// the groups against the configurations
pub proof fn lemma_groups_led(v: Seq<BitSet>, c: Seq<Cfg>, n: int)
    requires groups_of(v, c), c.len() > 0, n < 0x1000_0000, forall|i: int| 0 <= i < c.len() ==> 1 <= (#[trigger] c[i]).alt <= n
    ensures nonempty(v), small(v), v.len() > 0, forall|x: int| #[trigger] all_least(v, x) == leads(c, x), !all_least(v, 0), (!any_single(v)) == no_lone(c),
        (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).s() == v[0].s()) == all_shared(c),
        (forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).s() == v[0].s()) ==> exists|x: int| #[trigger] all_least(v, x)
{
    lemma_conflict(v, c);
    let m = choose|m: GM| #[trigger] partition(m, c, true) && listing(v, m);
    let ks = choose|ks: Seq<(int, Option<int>)>| #[trigger] lists(v, m, ks);
    let k0 = ckey(c[0]);
    assert(key_of(true, c[0]) == k0); assert(present(c, true, k0)); assert(m.contains_key(k0)); assert(ks.contains(k0));
    assert(v.len() > 0);
    assert forall|i: int, x: int| 0 <= i < v.len() implies (#[trigger] v[i].s().contains(x) == member(c, true, ks[i], x)) by { assert(ks.contains(ks[i])); assert(m.contains_key(ks[i])); let _ = m[ks[i]].contains(x); }
    assert forall|i: int| 0 <= i < v.len() implies present(c, true, #[trigger] ks[i]) by { assert(ks.contains(ks[i])); assert(m.contains_key(ks[i])); }
    assert forall|k: (int, Option<int>)| present(c, true, k) implies exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k by { assert(m.contains_key(k)); assert(ks.contains(k)); }
    assert forall|i: int| 0 <= i < v.len() implies small1((#[trigger] v[i]).s()) by { assert forall|a: int| #[trigger] v[i].s().contains(a) implies 0 <= a < 0x1000_0000_0000 by { assert(member(c, true, ks[i], a)); } }
    assert forall|x: int| #[trigger] all_least(v, x) == leads(c, x) by {
        if all_least(v, x) { assert forall|k: (int, Option<int>)| present(c, true, k) implies #[trigger] lead1(c, k, x) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; assert(least_of(v[i].s(), x)); assert forall|y: int| #[trigger] member(c, true, k, y) implies x <= y by { assert(v[i].s().contains(y)); } } }
        if leads(c, x) { assert forall|i: int| 0 <= i < v.len() implies least_of((#[trigger] v[i]).s(), x) by { assert(present(c, true, ks[i])); assert(lead1(c, ks[i], x)); assert(v[i].s().contains(x)); assert forall|y: int| #[trigger] v[i].s().contains(y) implies x <= y by { assert(member(c, true, ks[i], y)); } } }
    }
    if all_least(v, 0) { assert(least_of(v[0].s(), 0)); assert(v[0].s().contains(0)); assert(member(c, true, ks[0], 0)); }
    if !any_single(v) { assert forall|k: (int, Option<int>)| #[trigger] present(c, true, k) implies two(c, k) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; lemma_two(v[i].s()); assert(v[i].s().len() > 1); let (x, y) = choose|x: int, y: int| x != y && v[i].s().contains(x) && v[i].s().contains(y); assert(member(c, true, k, x) && member(c, true, k, y)); } }
    if any_single(v) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).s().len() == 1; lemma_two(v[i].s()); assert(present(c, true, ks[i])); if no_lone(c) { assert(two(c, ks[i])); let (x, y) = choose|x: int, y: int| x != y && #[trigger] member(c, true, ks[i], x) && #[trigger] member(c, true, ks[i], y); assert(v[i].s().contains(x) && v[i].s().contains(y)); } }
    let alleq = forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).s() == v[0].s();
    if alleq {
        assert forall|k: (int, Option<int>), j: (int, Option<int>), x: int| present(c, true, k) && present(c, true, j) implies (#[trigger] member(c, true, k, x) == #[trigger] member(c, true, j, x)) by {
            let a = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k; let b = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == j;
            assert(v[a].s() == v[0].s() && v[b].s() == v[0].s()); let _ = v[a].s().contains(x); let _ = v[b].s().contains(x);
        }
        assert(nonempty(v)); assert(v[0].s().len() > 0); lemma_min(v[0].s());
        let x = choose|x: int| #[trigger] least_of(v[0].s(), x);
        assert(all_least(v, x));
    }
    if all_shared(c) {
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).s() == v[0].s() by {
            assert forall|x: int| v[i].s().contains(x) == v[0].s().contains(x) by { assert(present(c, true, ks[i]) && present(c, true, ks[0])); let _ = member(c, true, ks[i], x); let _ = member(c, true, ks[0], x); }
            assert(v[i].s() =~= v[0].s());
        }
    }
}
pub proof fn lemma_min(s: Set<int>) requires s.len() > 0, small1(s) ensures exists|x: int| #[trigger] least_of(s, x)
{ lemma_two(s); let a = s.choose(); assert(s.contains(a)); lemma_min_from(s, a); }
pub proof fn lemma_min_from(s: Set<int>, a: int) requires s.contains(a), small1(s) ensures exists|x: int| #[trigger] least_of(s, x) decreases a
{ if !least_of(s, a) { let y = choose|y: int| #[trigger] s.contains(y) && y < a; assert(s.contains(y)); lemma_min_from(s, y); } }
pub open spec fn steps(e: Env, v: PV, c: Seq<Cfg>, k: int) -> bool { k >= 0 && forall|i: int| 1 <= i <= k ==> #[trigger] going(e, v, c, i) }
pub proof fn lemma_sll(e: Env, v: PV, c: Seq<Cfg>, k: int, s: CS, r: Result<isize, PErr>)
    requires steps(e, v, c, k), run(e, None, v, c, false, k + 1).len() > 0, decided(e, run(e, None, v, c, false, k + 1)), target_cs(e, run(e, None, v, c, false, k + 1), s), sll_verdict(e, v, s, r)
    ensures predicted(e, v, c, r)
{ assert(sll_at(e, v, c, k + 1, r)); }
pub proof fn lemma_preds(s: CS, w: World, am: Set<int>, p: Seq<PredPrediction>)
    requires forall|x: int| #[trigger] am.contains(x) == pred_alt(p, w, x), forall|w: World, x: int| #[trigger] viable(s, w, x) == pred_alt(p, w, x)
    ensures forall|x: int| #[trigger] am.contains(x) == viable(s, w, x)
{ assert forall|x: int| #[trigger] am.contains(x) == viable(s, w, x) by { let _ = viable(s, w, x); } }
pub open spec fn at_verdict(e: Env, v: PV, c: Seq<Cfg>, k: int, s: CS) -> bool { steps(e, v, c, k) && run(e, None, v, c, false, k + 1).len() > 0 && decided(e, run(e, None, v, c, false, k + 1)) && target_cs(e, run(e, None, v, c, false, k + 1), s) }
// a conflict with exactly one alternative left by the predicates
pub proof fn lemma_sll_only(e: Env, v: PV, c: Seq<Cfg>, k: int, s: CS, am: Set<int>)
    requires at_verdict(e, v, c, k, s), conflicting(e, s.c), e.mode != PredictionMode::SLL, am.len() == 1, forall|x: int| #[trigger] am.contains(x) == viable(s, (v.world)(ix(v)), x)
    ensures forall|x: isize| #[trigger] least_of(am, x as int) ==> predicted(e, v, c, Ok(x))
{
    let w = (v.world)(ix(v)); lemma_two(am);
    assert forall|x: isize| #[trigger] least_of(am, x as int) implies predicted(e, v, c, Ok(x)) by {
        assert(am.contains(x as int)); assert forall|y: int| #[trigger] viable(s, w, y) implies x == y by { assert(am.contains(y)); }
        assert(only_viable(s, w, x as int)); lemma_sll(e, v, c, k, s, Ok(x));
    }
}
// a conflict that goes to full context
pub proof fn lemma_sll_full(e: Env, v: PV, c: Seq<Cfg>, k: int, s: CS)
    requires at_verdict(e, v, c, k, s), conflicting(e, s.c), e.mode != PredictionMode::SLL, forall|x: int| !#[trigger] only_viable(s, (v.world)(ix(v)), x)
    ensures forall|r: Result<isize, PErr>, j: int| #[trigger] full_at(e, (v.world)(ix(v)), v, start(e, Some((v.world)(ix(v))), stack_of(v.ctx), true), j, r) ==> predicted(e, v, c, r)
{ assert forall|r: Result<isize, PErr>, j: int| #[trigger] full_at(e, (v.world)(ix(v)), v, start(e, Some((v.world)(ix(v))), stack_of(v.ctx), true), j, r) implies predicted(e, v, c, r) by { assert(full(e, (v.world)(ix(v)), v, r)); lemma_sll(e, v, c, k, s, r); } }
// without predicates several alternatives are viable
pub proof fn lemma_many(e: Env, c: Seq<Cfg>, s: CS, w: World, d: DFAState)
    requires target_cs(e, c, s), conflicting(e, c), c.len() > 0, d.cs() == s, d.predicates@.len() == 0, accept_ok(d), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).alt >= 1
    ensures forall|x: int| !#[trigger] only_viable(s, w, x)
{
    assert(!same_alt(c));
    let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).alt != c[0].alt;
    assert(has_alt(c, c[i].alt)); assert(has_alt(c, c[0].alt));
    assert(s.conf.contains(c[i].alt) && s.conf.contains(c[0].alt));
    assert(offered(s, c[i].alt) && offered(s, c[0].alt));
    assert(holds(s.c, w, c[i].alt) && holds(s.c, w, c[0].alt));
    assert(viable(s, w, c[i].alt) && viable(s, w, c[0].alt));
}
pub proof fn lemma_not_only(s: CS, w: World, am: Set<int>)
    requires forall|x: int| #[trigger] am.contains(x) == viable(s, w, x), am.len() != 1
    ensures forall|x: int| !#[trigger] only_viable(s, w, x)
{
    lemma_two(am);
    assert forall|x: int| !#[trigger] only_viable(s, w, x) by {
        if only_viable(s, w, x) { assert(am.contains(x)); let (a, b) = choose|a: int, b: int| a != b && am.contains(a) && am.contains(b); assert(viable(s, w, a) && viable(s, w, b)); }
    }
}
pub proof fn lemma_sll_least(e: Env, v: PV, c: Seq<Cfg>, k: int, s: CS, x: isize)
    requires at_verdict(e, v, c, k, s), !conflicting(e, s.c) || e.mode == PredictionMode::SLL, least_viable(s, (v.world)(ix(v)), x as int)
    ensures predicted(e, v, c, Ok(x))
{ lemma_sll(e, v, c, k, s, Ok(x)); }
pub proof fn lemma_sll_preds(e: Env, v: PV, c: Seq<Cfg>, k: int, s: CS, am: Set<int>)
    requires at_verdict(e, v, c, k, s), !conflicting(e, s.c) || e.mode == PredictionMode::SLL, forall|x: int| #[trigger] am.contains(x) == viable(s, (v.world)(ix(v)), x)
    ensures forall|x: isize| #[trigger] least_of(am, x as int) ==> predicted(e, v, c, Ok(x)),
        am.len() == 0 ==> forall|x: PErr| x.first() == ix(v) && #[trigger] x.offending() == ix(v) ==> predicted(e, v, c, Err(x))
{
    let w = (v.world)(ix(v)); lemma_two(am);
    assert forall|x: isize| #[trigger] least_of(am, x as int) implies predicted(e, v, c, Ok(x)) by {
        assert(am.contains(x as int)); assert forall|y: int| #[trigger] viable(s, w, y) implies x <= y by { assert(am.contains(y)); }
        assert(least_viable(s, w, x as int)); lemma_sll(e, v, c, k, s, Ok(x));
    }
    if am.len() == 0 {
        assert forall|x: int| !#[trigger] viable(s, w, x) by { let _ = am.contains(x); }
        assert forall|x: PErr| x.first() == ix(v) && #[trigger] x.offending() == ix(v) implies predicted(e, v, c, Err(x)) by { assert(err_at(Err(x), ix(v), ix(v))); lemma_sll(e, v, c, k, s, Err(x)); }
    }
}
pub proof fn lemma_bounded(p: Seq<PredPrediction>, w: World, am: Set<int>)
    requires forall|x: int| #[trigger] am.contains(x) == pred_alt(p, w, x), forall|j: int| 0 <= j < p.len() ==> 1 <= (#[trigger] p[j]).alt < 0x1000_0001
    ensures forall|x: int| #[trigger] am.contains(x) ==> 1 <= x < 0x1000_0001
{ }
pub open spec fn fins(a: ATN, c: Seq<Cfg>, n: int, x: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] c[i]).alt == x && finished(a, c[i]) }
pub proof fn lemma_fin(a: ATN, c: Seq<Cfg>, s: Seq<Cfg>, w: World, good: bool)
    requires forall|x: Cfg| #[trigger] s.contains(x) == (c.contains(x) && truth(w, x.sem) == good)
    ensures forall|x: int| #[trigger] fin_alt(a, c, w, good, x) == fins(a, s, s.len() as int, x)
{
    assert forall|x: int| #[trigger] fin_alt(a, c, w, good, x) == fins(a, s, s.len() as int, x) by {
        if fin_alt(a, c, w, good, x) { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).alt == x && finished(a, c[i]) && truth(w, c[i].sem) == good; assert(c.contains(c[i])); assert(s.contains(c[i])); let k = choose|k: int| 0 <= k < s.len() && s[k] == c[i]; assert(s[k].alt == x); }
        if fins(a, s, s.len() as int, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).alt == x && finished(a, s[i]); assert(s.contains(s[i])); let k = choose|k: int| 0 <= k < c.len() && c[k] == s[i]; assert(c[k].alt == x); }
    }
}
pub proof fn lemma_uniq_er(c: Seq<Cfg>) ensures uniq(er(c)) == uniq(c) {
    let e = er(c);
    assert(forall|i: int| 0 <= i < c.len() ==> (#[trigger] e[i]).alt == c[i].alt);
    assert(forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).alt == e[i].alt);
    assert(same_alt(e) == same_alt(c));
}
}
fn main() {}
