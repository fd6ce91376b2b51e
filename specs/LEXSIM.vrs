#![allow(unused)]
#![allow(nonstandard_style)]
#![verifier::allow(undeclared_external_trait)]
#![verifier::exec_allows_no_decreases_clause]
#![verifier::allow(decreases_when_exec_allows_no_decreases_clause)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/int_stream.rs const EOF
//@ item src/token.rs const TOKEN_EOF
//@ item src/lexer_atn_simulator.rs const ERROR_DFA_STATE_REF
//@ item src/lexer_atn_simulator.rs const MIN_DFA_EDGE
//@ item src/lexer_atn_simulator.rs const MAX_DFA_EDGE
//@ item src/dfa_state.rs type DFAStateRef
//@ item src/lexer_atn_simulator.rs struct SimState
//@ item src/prediction_context.rs const PREDICTION_CONTEXT_EMPTY_RETURN_STATE
//@ item src/transition.rs enum TransitionType {derive=Structural,PartialEq,Eq,Clone,Copy}
//@ item src/transition.rs struct RuleTransition
//@ item src/transition.rs struct PredicateTransition
//@ item src/transition.rs struct ActionTransition
//@ item src/atn_state.rs type ATNStateRef
//@ item src/lexer_action.rs enum LexerAction
//@ item src/atn_config.rs enum ATNConfigType
pub fn never() requires false {}

// ---------- where a character lies: (line, column) ------------------------------------
pub open spec fn pos(s: Seq<int>, c: int) -> (int, int) decreases c {
    if c <= 0 { (1, 0) } else {
        let p = pos(s, c - 1);
        if s[c - 1] == 10 { (p.0 + 1, 0) } else { (p.0, p.1 + 1) }
    }
}
pub proof fn lemma_pos(s: Seq<int>, c: int) requires c >= 0 ensures 1 <= pos(s, c).0 <= c + 1, 0 <= pos(s, c).1 <= c decreases c {
    if c > 0 { lemma_pos(s, c - 1); }
}

// ---------- the lexer as the simulator sees it: a cursor over characters + predicates ----
// outcome of the user's predicates at one position
pub struct World { pub dummy: int }
pub ghost struct LexV {
    pub syms: Seq<int>,
    pub cur: int,
    // stream index of a character position (byte offset for string inputs)
    pub off: spec_fn(int) -> int,
    // outcome of the predicates when evaluated in front of character c
    pub world: spec_fn(int) -> World,
    // commands and actions executed so far: executor, start of match
    pub ran: Seq<(ExecV, int)>,
}
pub open spec fn at(v: LexV, c: int) -> LexV { LexV { cur: c, ..v } }
pub open spec fn lex_ok(v: LexV) -> bool {
    &&& 0 <= v.cur <= v.syms.len()
    &&& v.syms.len() < 0x1000_0000_0000_0000
    &&& forall|a: int, b: int| 0 <= a < b <= v.syms.len() ==> #[trigger] (v.off)(a) < #[trigger] (v.off)(b)
    &&& forall|a: int| 0 <= a <= v.syms.len() ==> 0 <= #[trigger] (v.off)(a) <= isize::MAX
    &&& forall|a: int| 0 <= a < v.syms.len() ==> 0 <= #[trigger] v.syms[a] <= 0x10FFFF
}
pub trait Lexer: Sized {
    spec fn v(&self) -> LexV;
    // assumed of every character stream (P03)
    proof fn inv(&self) ensures lex_ok(self.v());
    fn la(&mut self, i: isize) -> (r: isize)
        requires i == 1
        ensures r == sym(old(self).v().syms, old(self).v().cur), final(self).v() == old(self).v();
    // at the end of input: panics
    fn consume(&mut self)
        ensures old(self).v().cur < old(self).v().syms.len(), final(self).v() == at(old(self).v(), old(self).v().cur + 1);
    fn index(&self) -> (r: isize) ensures r == (self.v().off)(self.v().cur);
    fn seek(&mut self, i: isize)
        requires exists|c: int| 0 <= c <= old(self).v().syms.len() && #[trigger] (old(self).v().off)(c) == i
        ensures final(self).v() == at(old(self).v(), final(self).v().cur), 0 <= final(self).v().cur <= old(self).v().syms.len(), (old(self).v().off)(final(self).v().cur) == i;
    fn mark(&mut self) -> isize ensures final(self).v() == old(self).v();
    fn release(&mut self, m: isize) ensures final(self).v() == old(self).v();
    // a predicate is asked; it may look at anything but moves nothing
    fn sempred(&mut self, ctx: Option<usize>, rule: isize, pred: isize) -> (r: bool)
        ensures r == truth((old(self).v().world)(old(self).v().cur), rule as int, pred as int), final(self).v() == old(self).v();
}
pub uninterp spec fn truth(w: World, rule: int, pred: int) -> bool;
pub open spec fn sym(s: Seq<int>, c: int) -> int { if 0 <= c < s.len() { s[c] } else { -1 } }
pub open spec fn nxt(s: Seq<int>, c: int) -> int { if 0 <= c < s.len() { c + 1 } else { c } }

// ---------- the automaton ---------------------------------------------------------
// what a match has to execute: commands and actions in order (LEXACT)
pub type ExecV = Seq<LexerAction>;
#[verifier::external_body]
pub struct LexerActionExecutor { x: usize }
pub open spec fn custom(e: ExecV) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]) is LexerCustomAction }
pub open spec fn fixed1(a: LexerAction, offset: isize) -> LexerAction {
    if a is LexerCustomAction { LexerAction::LexerIndexedCustomAction { offset, action: Box::new(a) } } else { a }
}
pub open spec fn fixed(e: ExecV, offset: int) -> ExecV { e.map_values(|a: LexerAction| fixed1(a, offset as isize)) }
pub proof fn lemma_fixed(e: ExecV, o: int) requires !custom(e) ensures fixed(e, o) == e { assert(fixed(e, o) =~= e); }
impl LexerActionExecutor {
    pub uninterp spec fn v(&self) -> ExecV;
    // the contracts verified in LEXACT
    #[verifier::external_body]
    pub fn execute<L: Lexer>(&self, lexer: &mut L, start_index: isize)
        // (the actions may change what later predicates say)
        ensures final(lexer).v() == (LexV { ran: old(lexer).v().ran.push((self.v(), start_index as int)), world: final(lexer).v().world, ..old(lexer).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_copy_append(o: Option<&LexerActionExecutor>, action: LexerAction) -> (r: LexerActionExecutor) ensures r.v() == ov(o).push(action) { unimplemented!() }
    #[verifier::external_body]
    pub fn depends_on_offset(&self) -> (r: bool) ensures r == custom(self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn fix_offset_before_match(self, offset: isize) -> (r: LexerActionExecutor) ensures r.v() == fixed(self.v(), offset as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: LexerActionExecutor) ensures r.v() == self.v() { unimplemented!() }
}
pub open spec fn ov(o: Option<&LexerActionExecutor>) -> ExecV { match o { Some(x) => x.v(), None => Seq::empty() } }
#[verifier::external_body]
pub fn clone_exec(e: Option<&LexerActionExecutor>) -> (r: Option<Box<LexerActionExecutor>>) ensures unbox(r) == (match e { Some(x) => Some(x.v()), None => None::<ExecV> }) { unimplemented!() }
#[verifier::external_body]
pub fn dup_action(a: &LexerAction) -> (r: LexerAction) ensures r == *a { unimplemented!() }

// ---------- call stacks: a lexer never merges them, so they are chains (P12) ------------
// the states to go on in, innermost first
#[verifier::external_body]
pub struct PredictionContext { x: usize }
impl PredictionContext {
    pub uninterp spec fn v(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn bottom() -> (r: Self) ensures r.v() == Seq::<int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_empty_path(&self) -> (r: bool) ensures r == (self.v().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn length(&self) -> (r: usize) ensures r == 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_return_state(&self, i: usize) -> (r: isize) requires i == 0 ensures self.v().len() > 0 ==> r == self.v()[0], self.v().len() == 0 ==> r == PREDICTION_CONTEXT_EMPTY_RETURN_STATE { unimplemented!() }
    // get_parent(i).cloned()
    #[verifier::external_body]
    pub fn parent(&self, i: usize) -> (r: Option<PredictionContext>) requires i == 0 ensures self.v().len() > 0 ==> r is Some && r->0.v() == self.v().drop_first() { unimplemented!() }
    #[verifier::external_body]
    pub fn new_singleton(p: Option<PredictionContext>, ret: isize) -> (r: Self) requires p is Some ensures r.v() == seq![ret as int] + p->0.v() { unimplemented!() }
}

// ---------- configurations (contracts verified in P13) -------------------------------------
// ng: a non-greedy decision was passed on the way
pub ghost struct Cfg { pub state: int, pub alt: int, pub ctx: Option<Seq<int>>, pub ex: Option<ExecV>, pub ng: bool }
#[verifier::external_body]
pub struct ATNConfig { x: usize }
impl ATNConfig {
    pub uninterp spec fn v(&self) -> Cfg;
    #[verifier::external_body]
    pub fn get_state(&self) -> (r: usize) ensures r == self.v().state { unimplemented!() }
    #[verifier::external_body]
    pub fn get_alt(&self) -> (r: isize) ensures r == self.v().alt { unimplemented!() }
    // (configurations of a lexer are all made by new_lexer_atnconfig6 or cloned from such)
    #[verifier::external_body]
    pub fn get_type(&self) -> (r: &ATNConfigType)
        ensures match *r { ATNConfigType::LexerATNConfig { lexer_action_executor, passed_through_non_greedy_decision } => self.v().ng == passed_through_non_greedy_decision && self.v().ex == unbox(lexer_action_executor), _ => false }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_context(&self) -> (r: Option<&PredictionContext>) ensures match r { Some(c) => self.v().ctx == Some(c.v()), None => self.v().ctx is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn take_context(&mut self) -> (r: PredictionContext) requires old(self).v().ctx is Some ensures old(self).v().ctx == Some(r.v()), final(self).v() == (Cfg { ctx: None, ..old(self).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_lexer_executor(&self) -> (r: Option<&LexerActionExecutor>) ensures match r { Some(x) => self.v().ex == Some(x.v()), None => self.v().ex is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn new_lexer_atnconfig6(state: usize, alt: isize, ctx: PredictionContext) -> (r: Self) ensures r.v() == (Cfg { state: state as int, alt: alt as int, ctx: Some(ctx.v()), ex: None, ng: false }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(&self, target: &ATNState) -> (r: Self) ensures r.v() == (Cfg { state: target.num(), ng: self.v().ng || target.nongreedy(), ..self.v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned_with_new_ctx(&self, target: &ATNState, c: Option<PredictionContext>) -> (r: Self)
        ensures r.v() == (Cfg { state: target.num(), ng: self.v().ng || target.nongreedy(), ctx: match c { Some(c) => Some(c.v()), None => None }, ..self.v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned_with_new_exec(&self, target: &ATNState, e: Option<LexerActionExecutor>) -> (r: Self)
        ensures r.v() == (Cfg { state: target.num(), ng: self.v().ng || target.nongreedy(), ex: match e { Some(e) => Some(e.v()), None => None }, ..self.v() }) { unimplemented!() }
}
// an ordered configuration set (P13): its configurations in order
pub struct ATNConfigSet { pub configs: Vec<ATNConfig>, pub has_semantic_context: bool, pub x: usize }
// a configuration is listed once, where it was found first
pub open spec fn add1(m: Seq<Cfg>, c: Cfg) -> Seq<Cfg> { if m.contains(c) { m } else { m.push(c) } }
impl ATNConfigSet {
    pub open spec fn m(&self) -> Seq<Cfg> { self.configs@.map_values(|c: ATNConfig| c.v()) }
    pub open spec fn has_sem(&self) -> bool { self.has_semantic_context }
    #[verifier::external_body]
    pub fn add(&mut self, c: Box<ATNConfig>) -> (r: bool) ensures final(self).m() == add1(old(self).m(), c.v()), final(self).has_sem() == old(self).has_sem() { unimplemented!() }
    #[verifier::external_body]
    pub fn new_ordered() -> (r: Self) ensures r.m() == Seq::<Cfg>::empty(), !r.has_sem() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_semantic_context(&self) -> (r: bool) ensures r == self.has_sem() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_has_semantic_context(&mut self, v: bool) ensures final(self).m() == old(self).m(), final(self).has_sem() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn set_read_only(&mut self, v: bool) ensures final(self).m() == old(self).m(), final(self).has_sem() == old(self).has_sem() { unimplemented!() }
    // get_items().find(f): the first configuration satisfying f
    #[verifier::external_body]
    pub fn find_item<F: Fn(&ATNConfig) -> bool>(&self, f: F) -> (r: Option<&ATNConfig>)
        requires forall|c: &ATNConfig| self.m().contains(c.v()) ==> #[trigger] f.requires((c,))
        ensures match r {
            Some(c) => f.ensures((c,), true) && exists|i: int| 0 <= i < self.m().len() && c.v() == #[trigger] self.m()[i] && forall|j: int| 0 <= j < i ==> exists|d: ATNConfig| d.v() == #[trigger] self.m()[j] && f.ensures((&d,), false),
            None => forall|j: int| #![trigger self.m()[j]] 0 <= j < self.m().len() ==> exists|d: ATNConfig| d.v() == self.m()[j] && f.ensures((&d,), false),
        }
    { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural)]
pub enum ATNStateType { RuleStopState, Other }
use crate::ATNStateType::RuleStopState;
#[verifier::external_body]
pub struct ATNState { x: usize }
impl ATNState {
    pub uninterp spec fn stop(&self) -> bool;
    pub uninterp spec fn rule(&self) -> int;
    #[verifier::external_body]
    pub fn get_state_type(&self) -> (r: &ATNStateType) ensures (*r == ATNStateType::RuleStopState) == self.stop() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_rule_index(&self) -> (r: usize) ensures r == self.rule() { unimplemented!() }
    pub uninterp spec fn num(&self) -> int;
    pub uninterp spec fn nongreedy(&self) -> bool;
    pub uninterp spec fn eps_only(&self) -> bool;
    pub uninterp spec fn tr(&self) -> Seq<Tr>;
    #[verifier::external_body]
    pub fn has_epsilon_only_transitions(&self) -> (r: bool) ensures r == self.eps_only() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_transitions(&self) -> (r: &Vec<Tr>) ensures r@ == self.tr() { unimplemented!() }
    pub fn as_ref(&self) -> (r: &ATNState) ensures r == self { self }
}
#[verifier::external_body]
pub struct Tr { x: usize }
impl Tr {
    pub uninterp spec fn kind(&self) -> TransitionType;
    pub uninterp spec fn target(&self) -> int;
    pub uninterp spec fn follow(&self) -> int;
    pub uninterp spec fn rule(&self) -> int;
    pub uninterp spec fn pred(&self) -> int;
    pub uninterp spec fn action(&self) -> int;
    // matches(x, LEXER_MIN_CHAR_VALUE, LEXER_MAX_CHAR_VALUE): the character is in the transition's set (P02)
    pub uninterp spec fn m(&self, x: int) -> bool;
    pub fn as_ref(&self) -> (r: &Tr) ensures r == self { self }
    #[verifier::external_body]
    pub fn get_target(&self) -> (r: usize) ensures r == self.target() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_serialization_type(&self) -> (r: TransitionType) ensures r == self.kind() { unimplemented!() }
    // matches(symbol, LEXER_MIN_CHAR_VALUE, LEXER_MAX_CHAR_VALUE)
    #[verifier::external_body]
    pub fn matches_char(&self, x: isize) -> (r: bool) ensures r == self.m(x as int) { unimplemented!() }
//@ fn src/transition.rs trait Transition::get_reachable_target {ret=r}
    ensures r is Some == self.m(symbol as int), r is Some ==> r->0 == self.target()
//@ rewrite self.matches(__x, LEXER_MIN_CHAR_VALUE, LEXER_MAX_CHAR_VALUE) => self.matches_char(__x)
//@ end
    #[verifier::external_body]
    pub fn as_rule(&self) -> (r: &RuleTransition) requires self.kind() == TransitionType::TRANSITION_RULE ensures r.follow_state == self.follow(), r.target == self.target() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_pred(&self) -> (r: &PredicateTransition) requires self.kind() == TransitionType::TRANSITION_PREDICATE ensures r.rule_index == self.rule(), r.pred_index == self.pred(), r.target == self.target() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_action(&self) -> (r: &ActionTransition) requires self.kind() == TransitionType::TRANSITION_ACTION ensures r.action_index == self.action(), r.target == self.target() { unimplemented!() }
}
// transitions.iter().enumerate()
#[verifier::external_body]
pub fn numbered<'a>(v: &'a Vec<Tr>) -> (r: Vec<(usize, &'a Tr)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (i as usize, &v@[i]) { unimplemented!() }
pub struct ATN { pub states: Vec<ATNState>, pub rule_to_token_type: Vec<isize>, pub mode_to_start_state: Vec<usize>, pub lexer_actions: Vec<LexerAction> }
// transitions lead to states that exist; a lexer has no precedence predicates (P15)
pub open spec fn tr_ok(a: &ATN, t: Tr) -> bool {
    &&& 0 <= t.target() < a.states@.len()
    &&& t.kind() == TransitionType::TRANSITION_RULE ==> 0 <= t.follow() < a.states@.len()
    &&& t.kind() == TransitionType::TRANSITION_ACTION ==> 0 <= t.action() < a.lexer_actions@.len()
    &&& t.kind() != TransitionType::TRANSITION_PRECEDENCE
}
pub open spec fn st_ok(a: &ATN, s: int) -> bool {
    a.states@[s].num() == s && a.states@[s].tr().len() < 0x7FFF_FFFF && forall|i: int| 0 <= i < a.states@[s].tr().len() ==> tr_ok(a, #[trigger] a.states@[s].tr()[i])
}
impl ATN {
    // every state a configuration can be in exists, and every stop state belongs to a rule (P15)
    pub open spec fn ok(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.states@.len() ==> 0 <= (#[trigger] self.states@[i]).rule() < self.rule_to_token_type@.len()
        &&& forall|i: int| 0 <= i < self.states@.len() ==> #[trigger] st_ok(self, i)
        &&& self.states@.len() < 0x7FFF_FFFF
    }
}
pub open spec fn cfg_ok(a: &ATN, c: Cfg) -> bool {
    0 <= c.state < a.states@.len() && c.ctx is Some && forall|i: int| 0 <= i < c.ctx->0.len() ==> 0 <= #[trigger] (c.ctx->0)[i] < a.states@.len()
}
pub open spec fn in_atn(a: &ATN, c: Seq<Cfg>) -> bool { forall|i: int| 0 <= i < c.len() ==> cfg_ok(a, #[trigger] c[i]) }
pub open spec fn is_acc(a: &ATN, c: Cfg) -> bool { a.states@[c.state].stop() }
// the FIRST configuration that reached the end of its rule decides type and actions
pub open spec fn first_acc(a: &ATN, c: Seq<Cfg>, n: int) -> Option<(int, Option<ExecV>)> decreases c.len() - n {
    if n < 0 || n >= c.len() { None }
    else if is_acc(a, c[n]) { Some((a.rule_to_token_type@[a.states@[c[n].state].rule()] as int, c[n].ex)) }
    else { first_acc(a, c, n + 1) }
}
pub open spec fn acc(a: &ATN, c: Seq<Cfg>) -> Option<(int, Option<ExecV>)> { first_acc(a, c, 0) }
pub proof fn lemma_first(a: &ATN, c: Seq<Cfg>, n: int, i: int)
    requires 0 <= n <= i < c.len(), is_acc(a, c[i]), forall|j: int| n <= j < i ==> !is_acc(a, #[trigger] c[j])
    ensures first_acc(a, c, n) == Some((a.rule_to_token_type@[a.states@[c[i].state].rule()] as int, c[i].ex))
    decreases i - n
{ if n < i { lemma_first(a, c, n + 1, i); } }
pub proof fn lemma_none(a: &ATN, c: Seq<Cfg>, n: int)
    requires 0 <= n, forall|j: int| n <= j < c.len() ==> !is_acc(a, #[trigger] c[j])
    ensures first_acc(a, c, n) is None
    decreases c.len() - n
{ if n < c.len() { lemma_none(a, c, n + 1); } }

// one step on a symbol (get_reachable_config_set) and the start set (compute_start_state)
//
// the automaton without caches: what may be entered without reading, in the order it is found; the result of
// a recursion that does not end within n nested calls is None
pub ghost struct Ev { pub m: Seq<Cfg>, pub acc: bool, pub sem: bool }
pub open spec fn goto(a: &ATN, c: Cfg, s: int) -> Cfg { Cfg { state: s, ng: c.ng || a.states@[s].nongreedy(), ..c } }
// a transition that reads nothing
pub open spec fn eps(a: &ATN, w: World, eofe: bool, c: Cfg, t: Tr) -> Option<Cfg> {
    let g = goto(a, c, t.target());
    match t.kind() {
        TransitionType::TRANSITION_EPSILON => Some(g),
        TransitionType::TRANSITION_RULE => Some(Cfg { ctx: Some(seq![t.follow()] + c.ctx->0), ..g }),
        TransitionType::TRANSITION_PREDICATE => if truth(w, t.rule(), t.pred()) { Some(g) } else { None },
        // only commands of the rule that is matched count, not of those it refers to
        TransitionType::TRANSITION_ACTION => Some(if c.ctx->0.len() == 0 { Cfg { ex: Some((match c.ex { Some(e) => e, None => Seq::empty() }).push(a.lexer_actions@[t.action()])), ..g } } else { g }),
        // behind the end of input, what matches EOF may be passed again
        TransitionType::TRANSITION_RANGE | TransitionType::TRANSITION_SET | TransitionType::TRANSITION_ATOM => if eofe && t.m(-1) { Some(g) } else { None },
        _ => None,
    }
}
pub open spec fn saw(e: Ev, t: Tr) -> Ev { Ev { sem: e.sem || t.kind() == TransitionType::TRANSITION_PREDICATE, ..e } }
// back to the caller
pub open spec fn ret(a: &ATN, c: Cfg) -> Cfg { goto(a, Cfg { ctx: Some(c.ctx->0.drop_first()), ..c }, c.ctx->0[0]) }
// a state that waits for a character is listed; not behind an acceptance if a non-greedy decision was passed
pub open spec fn stay(a: &ATN, c: Cfg, e: Ev) -> Ev {
    if !a.states@[c.state].eps_only() && (!e.acc || !c.ng) { Ev { m: add1(e.m, c), ..e } } else { e }
}
pub open spec fn clos(a: &ATN, w: World, eofe: bool, c: Cfg, e: Ev, n: int) -> Option<Ev> decreases n, 0int, 0int {
    if n <= 0 { None }
    else if a.states@[c.state].stop() {
        if c.ctx->0.len() == 0 { Some(Ev { m: add1(e.m, c), acc: true, sem: e.sem }) } else { clos(a, w, eofe, ret(a, c), e, n - 1) }
    }
    else { closn(a, w, eofe, c, stay(a, c, e), a.states@[c.state].tr().len() as int, n - 1) }
}
// the first i transitions, one after the other
pub open spec fn closn(a: &ATN, w: World, eofe: bool, c: Cfg, e: Ev, i: int, n: int) -> Option<Ev> decreases n, 1int, i {
    if n < 0 { None } else if i <= 0 { Some(e) }
    else {
        match closn(a, w, eofe, c, e, i - 1, n) {
            None => None,
            Some(f) => {
                let t = a.states@[c.state].tr()[i - 1];
                match eps(a, w, eofe, c, t) { None => Some(saw(f, t)), Some(d) => clos(a, w, eofe, d, saw(f, t), n) }
            }
        }
    }
}
pub open spec fn cl(a: &ATN, w: World, eofe: bool, c: Cfg, e: Ev, r: Ev) -> bool { exists|n: int| #[trigger] clos(a, w, eofe, c, e, n) == Some(r) }
pub open spec fn cln(a: &ATN, w: World, eofe: bool, c: Cfg, e: Ev, i: int, r: Ev) -> bool { exists|n: int| #[trigger] closn(a, w, eofe, c, e, i, n) == Some(r) }
pub proof fn mono(a: &ATN, w: World, eofe: bool, c: Cfg, e: Ev, n: int, k: int)
    requires clos(a, w, eofe, c, e, n) is Some, n <= k
    ensures clos(a, w, eofe, c, e, k) == clos(a, w, eofe, c, e, n)
    decreases n, 0int, 0int
{
    if a.states@[c.state].stop() { if c.ctx->0.len() > 0 { mono(a, w, eofe, ret(a, c), e, n - 1, k - 1); } }
    else { monon(a, w, eofe, c, stay(a, c, e), a.states@[c.state].tr().len() as int, n - 1, k - 1); }
}
pub proof fn monon(a: &ATN, w: World, eofe: bool, c: Cfg, e: Ev, i: int, n: int, k: int)
    requires closn(a, w, eofe, c, e, i, n) is Some, n <= k
    ensures closn(a, w, eofe, c, e, i, k) == closn(a, w, eofe, c, e, i, n)
    decreases n, 1int, i
{
    if i > 0 {
        monon(a, w, eofe, c, e, i - 1, n, k);
        let f = closn(a, w, eofe, c, e, i - 1, n)->0;
        let t = a.states@[c.state].tr()[i - 1];
        match eps(a, w, eofe, c, t) { None => {}, Some(d) => { mono(a, w, eofe, d, saw(f, t), n, k); } }
    }
}
// one more transition
pub proof fn cln_step(a: &ATN, w: World, eofe: bool, c: Cfg, e: Ev, i: int, f: Ev, r: Ev)
    requires 0 <= i, cln(a, w, eofe, c, e, i, f),
        match eps(a, w, eofe, c, a.states@[c.state].tr()[i]) { None => r == saw(f, a.states@[c.state].tr()[i]), Some(d) => cl(a, w, eofe, d, saw(f, a.states@[c.state].tr()[i]), r) }
    ensures cln(a, w, eofe, c, e, i + 1, r)
{
    let t = a.states@[c.state].tr()[i];
    let n = choose|n: int| #[trigger] closn(a, w, eofe, c, e, i, n) == Some(f);
    match eps(a, w, eofe, c, t) {
        None => { assert(closn(a, w, eofe, c, e, i + 1, n) == Some(r)); }
        Some(d) => {
            let k = choose|k: int| #[trigger] clos(a, w, eofe, d, saw(f, t), k) == Some(r);
            let z = if n >= k { n } else { k };
            monon(a, w, eofe, c, e, i, n, z); mono(a, w, eofe, d, saw(f, t), k, z);
            assert(closn(a, w, eofe, c, e, i + 1, z) == Some(r));
        }
    }
}
pub proof fn cl_state(a: &ATN, w: World, eofe: bool, c: Cfg, e: Ev, r: Ev)
    requires !a.states@[c.state].stop(), cln(a, w, eofe, c, stay(a, c, e), a.states@[c.state].tr().len() as int, r)
    ensures cl(a, w, eofe, c, e, r)
{
    let n = choose|n: int| #[trigger] closn(a, w, eofe, c, stay(a, c, e), a.states@[c.state].tr().len() as int, n) == Some(r);
    assert(clos(a, w, eofe, c, e, n + 1) == Some(r));
}
pub proof fn cl_ret(a: &ATN, w: World, eofe: bool, c: Cfg, e: Ev, r: Ev)
    requires a.states@[c.state].stop(), if c.ctx->0.len() == 0 { r == (Ev { m: add1(e.m, c), acc: true, sem: e.sem }) } else { cl(a, w, eofe, ret(a, c), e, r) }
    ensures cl(a, w, eofe, c, e, r)
{
    if c.ctx->0.len() == 0 { assert(clos(a, w, eofe, c, e, 1) == Some(r)); } else {
        let n = choose|n: int| #[trigger] clos(a, w, eofe, ret(a, c), e, n) == Some(r);
        assert(clos(a, w, eofe, c, e, n + 1) == Some(r));
    }
}
// where no predicate was seen, the outcome is the same in every world
pub proof fn indep(a: &ATN, w: World, x: World, eofe: bool, c: Cfg, e: Ev, n: int)
    requires clos(a, w, eofe, c, e, n) is Some, !(clos(a, w, eofe, c, e, n)->0).sem
    ensures !e.sem, clos(a, x, eofe, c, e, n) == clos(a, w, eofe, c, e, n)
    decreases n, 0int, 0int
{
    if a.states@[c.state].stop() { if c.ctx->0.len() > 0 { indep(a, w, x, eofe, ret(a, c), e, n - 1); } }
    else { indepn(a, w, x, eofe, c, stay(a, c, e), a.states@[c.state].tr().len() as int, n - 1); }
}
pub proof fn indepn(a: &ATN, w: World, x: World, eofe: bool, c: Cfg, e: Ev, i: int, n: int)
    requires closn(a, w, eofe, c, e, i, n) is Some, !(closn(a, w, eofe, c, e, i, n)->0).sem
    ensures !e.sem, closn(a, x, eofe, c, e, i, n) == closn(a, w, eofe, c, e, i, n)
    decreases n, 1int, i
{
    if i > 0 {
        let f = closn(a, w, eofe, c, e, i - 1, n)->0;
        let t = a.states@[c.state].tr()[i - 1];
        match eps(a, w, eofe, c, t) { None => {}, Some(d) => { indep(a, w, x, eofe, d, saw(f, t), n); } }
        indepn(a, w, x, eofe, c, e, i - 1, n);
    }
}

// reading character t; skip: alternative that has already been accepted
pub ghost struct Rs { pub m: Seq<Cfg>, pub sem: bool, pub skip: int }
pub ghost struct Wo { pub w: World, pub t: int, pub off: int }
pub open spec fn fix(c: Cfg, off: int) -> Cfg { Cfg { ex: match c.ex { Some(e) => Some(fixed(e, off)), None => None }, ..c } }
pub open spec fn dep(c: Cfg) -> bool { match c.ex { Some(e) => custom(e), None => false } }
// the first i transitions of c's state; whether one of them led to an acceptance
pub open spec fn trn(a: &ATN, o: Wo, c: Cfg, car: bool, r: Rs, i: int, n: int) -> Option<(Rs, bool)> decreases i {
    if i <= 0 { Some((r, false)) } else {
        match trn(a, o, c, car, r, i - 1, n) {
            None => None,
            Some((q, done)) => {
                let t = a.states@[c.state].tr()[i - 1];
                if done || !t.m(o.t) { Some((q, done)) }
                else {
                    match clos(a, o.w, o.t == -1, fix(goto(a, c, t.target()), o.off), Ev { m: q.m, acc: car, sem: q.sem || dep(c) }, n) {
                        None => None,
                        Some(e) => Some((Rs { m: e.m, sem: e.sem, skip: if e.acc { c.alt } else { q.skip } }, e.acc)),
                    }
                }
            }
        }
    }
}
pub open spec fn reachn(a: &ATN, o: Wo, cs: Seq<Cfg>, i: int, n: int) -> Option<Rs> decreases i {
    if i <= 0 { Some(Rs { m: Seq::empty(), sem: false, skip: 0 }) } else {
        match reachn(a, o, cs, i - 1, n) {
            None => None,
            Some(r) => {
                let c = cs[i - 1];
                let car = c.alt == r.skip;
                if car && c.ng { Some(r) } else { match trn(a, o, c, car, r, a.states@[c.state].tr().len() as int, n) { None => None, Some((q, d)) => Some(q) } }
            }
        }
    }
}
pub open spec fn tr_to(a: &ATN, o: Wo, c: Cfg, car: bool, r: Rs, i: int, q: Rs, d: bool) -> bool { exists|n: int| #[trigger] trn(a, o, c, car, r, i, n) == Some((q, d)) }
pub open spec fn reach_to(a: &ATN, o: Wo, cs: Seq<Cfg>, i: int, q: Rs) -> bool { exists|n: int| #[trigger] reachn(a, o, cs, i, n) == Some(q) }
pub proof fn mono_tr(a: &ATN, o: Wo, c: Cfg, car: bool, r: Rs, i: int, n: int, k: int)
    requires trn(a, o, c, car, r, i, n) is Some, n <= k
    ensures trn(a, o, c, car, r, i, k) == trn(a, o, c, car, r, i, n)
    decreases i
{
    if i > 0 {
        mono_tr(a, o, c, car, r, i - 1, n, k);
        let q = (trn(a, o, c, car, r, i - 1, n)->0).0;
        let t = a.states@[c.state].tr()[i - 1];
        if !(trn(a, o, c, car, r, i - 1, n)->0).1 && t.m(o.t) { mono(a, o.w, o.t == -1, fix(goto(a, c, t.target()), o.off), Ev { m: q.m, acc: car, sem: q.sem || dep(c) }, n, k); }
    }
}
pub proof fn mono_reach(a: &ATN, o: Wo, cs: Seq<Cfg>, i: int, n: int, k: int)
    requires reachn(a, o, cs, i, n) is Some, n <= k
    ensures reachn(a, o, cs, i, k) == reachn(a, o, cs, i, n)
    decreases i
{
    if i > 0 {
        mono_reach(a, o, cs, i - 1, n, k);
        let r = reachn(a, o, cs, i - 1, n)->0;
        let c = cs[i - 1];
        if !(c.alt == r.skip && c.ng) { mono_tr(a, o, c, c.alt == r.skip, r, a.states@[c.state].tr().len() as int, n, k); }
    }
}
pub proof fn tr_step(a: &ATN, o: Wo, c: Cfg, car: bool, r: Rs, i: int, q: Rs, d: bool, e: Ev)
    requires 0 <= i, tr_to(a, o, c, car, r, i, q, d), !d, a.states@[c.state].tr()[i].m(o.t),
        cl(a, o.w, o.t == -1, fix(goto(a, c, a.states@[c.state].tr()[i].target()), o.off), Ev { m: q.m, acc: car, sem: q.sem || dep(c) }, e)
    ensures tr_to(a, o, c, car, r, i + 1, Rs { m: e.m, sem: e.sem, skip: if e.acc { c.alt } else { q.skip } }, e.acc)
{
    let t = a.states@[c.state].tr()[i];
    let d = fix(goto(a, c, t.target()), o.off);
    let f = Ev { m: q.m, acc: car, sem: q.sem || dep(c) };
    let n = choose|n: int| #[trigger] trn(a, o, c, car, r, i, n) == Some((q, false));
    let b = o.t == -1;
    let k = choose|k: int| #[trigger] clos(a, o.w, b, d, f, k) == Some(e);
    let z = if n >= k { n } else { k };
    mono_tr(a, o, c, car, r, i, n, z); mono(a, o.w, o.t == -1, d, f, k, z);
    assert(trn(a, o, c, car, r, i + 1, z) == Some((Rs { m: e.m, sem: e.sem, skip: if e.acc { c.alt } else { q.skip } }, e.acc)));
}
// a transition that does not match, or after the acceptance
pub proof fn tr_skip(a: &ATN, o: Wo, c: Cfg, car: bool, r: Rs, i: int, j: int, q: Rs, d: bool)
    requires 0 <= i <= j, tr_to(a, o, c, car, r, i, q, d), d || (j == i + 1 && !a.states@[c.state].tr()[i].m(o.t))
    ensures tr_to(a, o, c, car, r, j, q, d)
    decreases j - i
{
    if i < j {
        let n = choose|n: int| #[trigger] trn(a, o, c, car, r, i, n) == Some((q, d));
        assert(trn(a, o, c, car, r, i + 1, n) == Some((q, d)));
        if i + 1 < j { tr_skip(a, o, c, car, r, i + 1, j, q, d); }
    }
}
pub proof fn reach_step(a: &ATN, o: Wo, cs: Seq<Cfg>, i: int, r: Rs, q: Rs, d: bool)
    requires 0 <= i < cs.len(), reach_to(a, o, cs, i, r),
        if cs[i].alt == r.skip && cs[i].ng { q == r } else { tr_to(a, o, cs[i], cs[i].alt == r.skip, r, a.states@[cs[i].state].tr().len() as int, q, d) }
    ensures reach_to(a, o, cs, i + 1, q)
{
    let n = choose|n: int| #[trigger] reachn(a, o, cs, i, n) == Some(r);
    let c = cs[i];
    if c.alt == r.skip && c.ng { assert(reachn(a, o, cs, i + 1, n) == Some(q)); } else {
        let car = c.alt == r.skip; let k = choose|k: int| #[trigger] trn(a, o, c, car, r, a.states@[c.state].tr().len() as int, k) == Some((q, d));
        let z = if n >= k { n } else { k };
        mono_reach(a, o, cs, i, n, z); mono_tr(a, o, c, c.alt == r.skip, r, a.states@[c.state].tr().len() as int, k, z);
        assert(reachn(a, o, cs, i + 1, z) == Some(q));
    }
}
pub proof fn indep_tr(a: &ATN, o: Wo, p: Wo, c: Cfg, car: bool, r: Rs, i: int, n: int)
    requires trn(a, o, c, car, r, i, n) is Some, !(trn(a, o, c, car, r, i, n)->0).0.sem, p.t == o.t
    ensures !r.sem, trn(a, p, c, car, r, i, n) == trn(a, o, c, car, r, i, n)
    decreases i
{
    if i > 0 {
        let q = (trn(a, o, c, car, r, i - 1, n)->0).0;
        let t = a.states@[c.state].tr()[i - 1];
        if !(trn(a, o, c, car, r, i - 1, n)->0).1 && t.m(o.t) {
            indep(a, o.w, p.w, o.t == -1, fix(goto(a, c, t.target()), o.off), Ev { m: q.m, acc: car, sem: q.sem || dep(c) }, n);
            if c.ex is Some { lemma_fixed(c.ex->0, o.off); lemma_fixed(c.ex->0, p.off); }
        }
        indep_tr(a, o, p, c, car, r, i - 1, n);
    }
}
pub proof fn indep_reach(a: &ATN, o: Wo, p: Wo, cs: Seq<Cfg>, i: int, n: int)
    requires reachn(a, o, cs, i, n) is Some, !(reachn(a, o, cs, i, n)->0).sem, p.t == o.t
    ensures reachn(a, p, cs, i, n) == reachn(a, o, cs, i, n)
    decreases i
{
    if i > 0 {
        let r = reachn(a, o, cs, i - 1, n)->0;
        let c = cs[i - 1];
        if !(c.alt == r.skip && c.ng) { indep_tr(a, o, p, c, c.alt == r.skip, r, a.states@[c.state].tr().len() as int, n); }
        indep_reach(a, o, p, cs, i - 1, n);
    }
}
// the configurations after reading t
pub open spec fn step(a: &ATN, c: Seq<Cfg>, t: int, w: World, offset: int) -> Seq<Cfg> {
    (choose|r: Rs| #[trigger] reach_to(a, Wo { w, t, off: offset }, c, c.len() as int, r)).m
}
pub proof fn lemma_step(a: &ATN, c: Seq<Cfg>, t: int, w: World, offset: int, r: Rs)
    requires reach_to(a, Wo { w, t, off: offset }, c, c.len() as int, r)
    ensures step(a, c, t, w, offset) == r.m, !r.sem ==> forall|x: World, o: int| #[trigger] step(a, c, t, x, o) == r.m
{
    let o = Wo { w, t, off: offset };
    same_reach(a, o, c, r, choose|r: Rs| #[trigger] reach_to(a, o, c, c.len() as int, r));
    if !r.sem {
        let n = choose|n: int| #[trigger] reachn(a, o, c, c.len() as int, n) == Some(r);
        assert forall|x: World, y: int| #[trigger] step(a, c, t, x, y) == r.m by {
            let p = Wo { w: x, t, off: y };
            indep_reach(a, o, p, c, c.len() as int, n);
            assert(reach_to(a, p, c, c.len() as int, r));
            same_reach(a, p, c, r, choose|r: Rs| #[trigger] reach_to(a, p, c, c.len() as int, r));
        }
    }
}
pub proof fn same_reach(a: &ATN, o: Wo, c: Seq<Cfg>, r: Rs, q: Rs)
    requires reach_to(a, o, c, c.len() as int, r), reach_to(a, o, c, c.len() as int, q)
    ensures r == q
{
    let n = choose|n: int| #[trigger] reachn(a, o, c, c.len() as int, n) == Some(r);
    let k = choose|k: int| #[trigger] reachn(a, o, c, c.len() as int, k) == Some(q);
    if n <= k { mono_reach(a, o, c, c.len() as int, n, k); } else { mono_reach(a, o, c, c.len() as int, k, n); }
}
// the start set: the rules of the mode in their order, numbered from 1
pub open spec fn initn(a: &ATN, w: World, s: int, i: int, n: int) -> Option<Ev> decreases i {
    if i <= 0 { Some(Ev { m: Seq::empty(), acc: false, sem: false }) } else {
        match initn(a, w, s, i - 1, n) {
            None => None,
            Some(e) => clos(a, w, false, Cfg { state: a.states@[s].tr()[i - 1].target(), alt: i, ctx: Some(Seq::empty()), ex: None, ng: false }, Ev { acc: false, ..e }, n),
        }
    }
}
pub open spec fn init_to(a: &ATN, w: World, s: int, i: int, m: Seq<Cfg>, sem: bool) -> bool { exists|n: int| initn_is(#[trigger] initn(a, w, s, i, n), m, sem) }
pub open spec fn initn_is(e: Option<Ev>, m: Seq<Cfg>, sem: bool) -> bool { match e { Some(e) => e.m == m && e.sem == sem, None => false } }
pub proof fn mono_init(a: &ATN, w: World, s: int, i: int, n: int, k: int)
    requires initn(a, w, s, i, n) is Some, n <= k
    ensures initn(a, w, s, i, k) == initn(a, w, s, i, n)
    decreases i
{
    if i > 0 {
        mono_init(a, w, s, i - 1, n, k);
        let e = initn(a, w, s, i - 1, n)->0;
        mono(a, w, false, Cfg { state: a.states@[s].tr()[i - 1].target(), alt: i, ctx: Some(Seq::empty()), ex: None, ng: false }, Ev { acc: false, ..e }, n, k);
    }
}
pub proof fn indep_init(a: &ATN, w: World, x: World, s: int, i: int, n: int)
    requires initn(a, w, s, i, n) is Some, !(initn(a, w, s, i, n)->0).sem
    ensures initn(a, x, s, i, n) == initn(a, w, s, i, n)
    decreases i
{
    if i > 0 {
        let e = initn(a, w, s, i - 1, n)->0;
        indep(a, w, x, false, Cfg { state: a.states@[s].tr()[i - 1].target(), alt: i, ctx: Some(Seq::empty()), ex: None, ng: false }, Ev { acc: false, ..e }, n);
        indep_init(a, w, x, s, i - 1, n);
    }
}
pub proof fn init_step(a: &ATN, w: World, s: int, i: int, m: Seq<Cfg>, sem: bool, r: Ev)
    requires 0 <= i, init_to(a, w, s, i, m, sem),
        cl(a, w, false, Cfg { state: a.states@[s].tr()[i].target(), alt: i + 1, ctx: Some(Seq::empty()), ex: None, ng: false }, Ev { m, acc: false, sem }, r)
    ensures init_to(a, w, s, i + 1, r.m, r.sem)
{
    let c = Cfg { state: a.states@[s].tr()[i].target(), alt: i + 1, ctx: Some(Seq::empty()), ex: None, ng: false };
    let n = choose|n: int| initn_is(#[trigger] initn(a, w, s, i, n), m, sem); let acc = (initn(a, w, s, i, n)->0).acc;
    let k = choose|k: int| #[trigger] clos(a, w, false, c, Ev { m, acc: false, sem }, k) == Some(r);
    let z = if n >= k { n } else { k };
    mono_init(a, w, s, i, n, z); mono(a, w, false, c, Ev { m, acc: false, sem }, k, z);
    assert(initn(a, w, s, i + 1, z) == Some(Ev { m: r.m, acc: r.acc, sem: r.sem }));
}
pub open spec fn init_is(a: &ATN, w: World, s: int, m: Seq<Cfg>) -> bool { exists|sem: bool| #[trigger] init_to(a, w, s, a.states@[s].tr().len() as int, m, sem) }
pub open spec fn init(a: &ATN, start: int, w: World) -> Seq<Cfg> { choose|m: Seq<Cfg>| #[trigger] init_is(a, w, start, m) }
pub proof fn same_init(a: &ATN, w: World, s: int, m: Seq<Cfg>, p: Seq<Cfg>)
    requires init_is(a, w, s, m), init_is(a, w, s, p)
    ensures m == p
{
    let l = a.states@[s].tr().len() as int;
    let x = choose|sem: bool| #[trigger] init_to(a, w, s, l, m, sem);
    let y = choose|sem: bool| #[trigger] init_to(a, w, s, l, p, sem);
    let n = choose|n: int| initn_is(#[trigger] initn(a, w, s, l, n), m, x);
    let k = choose|n: int| initn_is(#[trigger] initn(a, w, s, l, n), p, y);
    if n <= k { mono_init(a, w, s, l, n, k); } else { mono_init(a, w, s, l, k, n); }
}
pub proof fn lemma_init(a: &ATN, s: int, w: World, m: Seq<Cfg>, sem: bool)
    requires init_to(a, w, s, a.states@[s].tr().len() as int, m, sem)
    ensures init(a, s, w) == m, !sem ==> forall|x: World| #[trigger] init(a, s, x) == m
{
    let l = a.states@[s].tr().len() as int;
    assert(init_is(a, w, s, m));
    same_init(a, w, s, m, init(a, s, w));
    if !sem {
        let n = choose|n: int| initn_is(#[trigger] initn(a, w, s, l, n), m, sem);
        assert forall|x: World| #[trigger] init(a, s, x) == m by {
            indep_init(a, w, x, s, l, n);
            assert(init_to(a, x, s, l, m, sem)); assert(init_is(a, x, s, m));
            same_init(a, x, s, m, init(a, s, x));
        }
    }
}

// ---------- the cache -------------------------------------------------------------
pub struct DFAState { pub state_number: usize, pub configs: Box<ATNConfigSet>, pub edges: Vec<DFAStateRef>, pub is_accept_state: bool, pub prediction: isize, pub lexer_action_executor: Option<Box<LexerActionExecutor>> }
pub struct DFA { pub states: Vec<DFAState>, pub s0: Option<DFAStateRef> }
pub open spec fn unbox(e: Option<Box<LexerActionExecutor>>) -> Option<ExecV> { match e { Some(x) => Some(x.v()), None => None } }
impl DFAState {
    pub open spec fn m(&self) -> Seq<Cfg> { self.configs.m() }
    pub open spec fn edge(&self, t: int) -> usize { if 0 <= t < self.edges@.len() { self.edges@[t] } else { 0 } }
    pub open spec fn verdict(&self) -> Option<(int, Option<ExecV>)> { if self.is_accept_state { Some((self.prediction as int, unbox(self.lexer_action_executor))) } else { None } }
    #[verifier::external_body]
    pub fn new_dfastate(state_number: usize, configs: Box<ATNConfigSet>) -> (r: DFAState)
        ensures r.configs == configs, r.edges@.len() == 0, !r.is_accept_state
    { unimplemented!() }
    // PartialEq for DFAState: equality of the configuration sets
    #[verifier::external_body]
    pub fn same_state(&self, o: &DFAState) -> (r: bool) ensures r ==> self.configs.m() == o.configs.m() { unimplemented!() }
}
// an entry says what the automaton does, in every world, from wherever it is used
pub open spec fn edge_ok(a: &ATN, d: Seq<DFAState>, s: int, t: int) -> bool {
    let x = d[s].edge(t);
    x != 0 ==> if x == usize::MAX { forall|w: World, o: int| (#[trigger] step(a, d[s].m(), t, w, o)).len() == 0 }
        else { 0 < x < d.len() && d[x as int].m().len() > 0 && forall|w: World, o: int| (#[trigger] step(a, d[s].m(), t, w, o)) == d[x as int].m() }
}
pub open spec fn state_ok(a: &ATN, d: Seq<DFAState>, s: int) -> bool {
    &&& in_atn(a, d[s].m())
    &&& d[s].verdict() == acc(a, d[s].m())
    &&& forall|t: int| #[trigger] edge_ok(a, d, s, t)
    &&& d[s].edges@.len() <= 128
}
pub open spec fn dfa_ok(a: &ATN, start: int, d: &DFA) -> bool {
    &&& 0 < d.states@.len()
    &&& forall|s: int| 1 <= s < d.states@.len() ==> #[trigger] state_ok(a, d.states@, s)
    &&& match d.s0 { Some(s) => 0 < s < d.states@.len() && forall|w: World| #[trigger] init(a, start, w) == d.states@[s as int].m(), None => true }
}
// states are only ever added
pub open spec fn grows(d0: &DFA, d1: &DFA) -> bool {
    d0.states@.len() <= d1.states@.len() && d1.s0 == d0.s0 && forall|s: int| 1 <= s < d0.states@.len() ==> (#[trigger] d1.states@[s]).m() == d0.states@[s].m() && d1.states@[s].verdict() == d0.states@[s].verdict()
}

// a Vec never holds usize::MAX elements (capacity limit of std)
pub axiom fn vec_bound(v: Vec<DFAState>) ensures v@.len() < usize::MAX;
pub proof fn lemma_push(a: &ATN, start: int, d: &DFA, e: &DFA, n: DFAState)
    requires dfa_ok(a, start, d), e.states@ == d.states@.push(n), e.s0 == d.s0,
        in_atn(a, n.m()), n.edges@.len() == 0, n.verdict() == acc(a, n.m())
    ensures dfa_ok(a, start, e), grows(d, e)
{
    assert forall|s: int| 1 <= s < e.states@.len() implies #[trigger] state_ok(a, e.states@, s) by {
        if s < d.states@.len() {
            assert(state_ok(a, d.states@, s));
            assert forall|t: int| #[trigger] edge_ok(a, e.states@, s, t) by { assert(edge_ok(a, d.states@, s, t)); }
        } else {
            assert forall|t: int| #[trigger] edge_ok(a, e.states@, s, t) by { }
        }
    }
}
pub proof fn lemma_edge(a: &ATN, start: int, d: &DFA, e: &DFA, s: int, t: int)
    requires dfa_ok(a, start, d), e.s0 == d.s0, 1 <= s < d.states@.len(), e.states@.len() == d.states@.len(),
        forall|i: int| 0 <= i < d.states@.len() && i != s ==> #[trigger] e.states@[i] == d.states@[i],
        e.states@[s].configs == d.states@[s].configs, e.states@[s].verdict() == d.states@[s].verdict(), e.states@[s].edges@.len() <= 128,
        forall|u: int| u != t ==> #[trigger] e.states@[s].edge(u) == d.states@[s].edge(u),
        edge_ok(a, e.states@, s, t)
    ensures dfa_ok(a, start, e), grows(d, e)
{
    assert forall|i: int| 1 <= i < e.states@.len() implies #[trigger] state_ok(a, e.states@, i) by {
        assert(state_ok(a, d.states@, i));
        assert forall|u: int| #[trigger] edge_ok(a, e.states@, i, u) by {
            assert(edge_ok(a, d.states@, i, u));
            if i == s && u == t {} else if i == s { assert(e.states@[s].edge(u) == d.states@[s].edge(u)); } else { assert(e.states@[i] == d.states@[i]); }
        }
    }
}

// ---------- one match: k steps from (c, p) ---------------------------------------------
pub ghost struct Run { pub c: Seq<Cfg>, pub p: int }
pub open spec fn run(a: &ATN, v: LexV, c: Seq<Cfg>, k: int) -> Run decreases k {
    if k <= 0 { Run { c, p: v.cur } } else {
        let r = run(a, v, c, k - 1);
        Run { c: step(a, r.c, sym(v.syms, r.p), (v.world)(r.p + 1), (v.off)(r.p) - (v.off)(v.cur)), p: nxt(v.syms, r.p) }
    }
}
// step i was made on end of input and accepted
pub open spec fn eof_step(a: &ATN, v: LexV, c: Seq<Cfg>, i: int) -> bool { run(a, v, c, i - 1).p == v.syms.len() && acc(a, run(a, v, c, i).c) is Some }
// number of steps at which the match ends: no alternative is left, or it was accepted at end of input
pub open spec fn ends(a: &ATN, v: LexV, c: Seq<Cfg>, k: int) -> bool {
    &&& k >= 0
    &&& forall|i: int| 1 <= i <= k ==> (#[trigger] run(a, v, c, i)).c.len() > 0
    &&& forall|i: int| 1 <= i < k ==> !#[trigger] eof_step(a, v, c, i)
    &&& {
        ||| run(a, v, c, k + 1).c.len() == 0
        ||| k > 0 && eof_step(a, v, c, k)
    }
}
pub open spec fn ends_pre(a: &ATN, v: LexV, c: Seq<Cfg>, k: int) -> bool {
    &&& k >= 0
    &&& forall|i: int| 1 <= i <= k ==> (#[trigger] run(a, v, c, i)).c.len() > 0
    &&& forall|i: int| 1 <= i <= k ==> !#[trigger] eof_step(a, v, c, i)
}
// prev_accept remembers the longest accepted prefix so far
pub open spec fn accepted(a: &ATN, v: LexV, c: Seq<Cfg>, k: int, p: SimState, d: DFA) -> bool {
    match longest(a, v, c, k) {
        Some(i) => match p.dfa_state {
            Some(x) => 0 < x < d.states@.len() && d.states@[x as int].m() == run(a, v, c, i).c && p.index == (v.off)(run(a, v, c, i).p)
                && pos(v.syms, run(a, v, c, i).p) == (p.line as int, p.column as int),
            None => false,
        },
        None => p.dfa_state is None,
    }
}
// the longest accepted prefix among the first k steps
pub open spec fn longest(a: &ATN, v: LexV, c: Seq<Cfg>, k: int) -> Option<int> decreases k + 1 {
    if k < 0 { None } else if acc(a, run(a, v, c, k).c) is Some { Some(k) } else { longest(a, v, c, k - 1) }
}
pub proof fn lemma_longest(a: &ATN, v: LexV, c: Seq<Cfg>, k: int)
    requires longest(a, v, c, k) is Some
    ensures 0 <= longest(a, v, c, k)->0 <= k, acc(a, run(a, v, c, longest(a, v, c, k)->0).c) is Some
    decreases k + 1
{ if k >= 0 && acc(a, run(a, v, c, k).c) is None { lemma_longest(a, v, c, k - 1); } }
pub proof fn lemma_run_p(a: &ATN, v: LexV, c: Seq<Cfg>, k: int)
    requires 0 <= v.cur <= v.syms.len()
    ensures v.cur <= run(a, v, c, k).p <= v.syms.len()
    decreases k
{ if k > 0 { lemma_run_p(a, v, c, k - 1); } }

// what matching one token has to do, in terms of the automaton alone (c: its start set)
pub open spec fn matched(a: &ATN, v: LexV, c: Seq<Cfg>, v1: LexV, r: Result<isize, LexErr>) -> bool {
    exists|k: int| #[trigger] ends(a, v, c, k) && match longest(a, v, c, k) {
        Some(i) => {
            let x = acc(a, run(a, v, c, i).c)->0;
            // the longest prefix accepted; of equally long ones the first rule (acc)
            &&& r == Ok::<isize, LexErr>(x.0 as isize)
            &&& v1.cur == run(a, v, c, i).p
            // its commands, only those, once
            &&& v1.ran == match x.1 { Some(e) => v.ran.push((e, (v.off)(v.cur))), None => v.ran }
        }
        None => {
            &&& v1.cur == run(a, v, c, k).p
            &&& v1.ran == v.ran
            &&& if sym(v.syms, v1.cur) == -1 && v1.cur == v.cur { r == Ok::<isize, LexErr>(-1isize) } else { r is Err }
        }
    } && v1.syms == v.syms && v1.off == v.off
}
pub struct LexErr { pub start_index: isize }

// ---------- the simulator ------------------------------------------------------------
// what prev_accept remembers is a position of this input, with its line and column
pub open spec fn captured(p: SimState, v: LexV) -> bool {
    exists|c: int| 0 <= c <= v.syms.len() && #[trigger] (v.off)(c) == p.index && pos(v.syms, c) == (p.line as int, p.column as int)
}
// (current_pos holds two Cells shared with the lexer: here plain fields, get/set rewritten)
pub struct LexerPosition { pub line: isize, pub char_position_in_line: isize }
pub struct LexerATNSimulator { pub a: &'static ATN, pub start_index: isize, pub current_pos: LexerPosition, pub mode: usize, pub prev_accept: SimState }

// predicates see the position behind the character that is being matched
pub open spec fn wof(v: LexV, speculative: bool) -> World { (v.world)(if speculative { v.cur + 1 } else { v.cur }) }
pub open spec fn ev(s: ATNConfigSet, acc: bool) -> Ev { Ev { m: s.m(), acc, sem: s.has_sem() } }
impl SimState {
//@ fn src/lexer_atn_simulator.rs SimState::reset
    ensures final(self).dfa_state is None
//@ end
}

impl LexerATNSimulator {
    // the line and column kept are those of the current character
    pub open spec fn tracks(&self, v: LexV) -> bool {
        self.current_pos.line == pos(v.syms, v.cur).0 && self.current_pos.char_position_in_line == pos(v.syms, v.cur).1
    }
    pub open spec fn frame(&self, o: &Self) -> bool { self.a == o.a && self.start_index == o.start_index && self.mode == o.mode }
    pub open spec fn keeps(&self, o: &Self) -> bool { self.frame(o) && self.prev_accept == o.prev_accept }
    fn atn(&self) -> (r: &'static ATN) ensures r == self.a { self.a }

//@ fn src/lexer_atn_simulator.rs ILexerATNSimulator for LexerATNSimulator::get_line {ret=r}
    ensures r == self.current_pos.line
//@ rewrite? self.current_pos.line.get() => self.current_pos.line
//@ rewrite? self.current_pos.char_position_in_line.get() => self.current_pos.char_position_in_line
//@ end
//@ fn src/lexer_atn_simulator.rs ILexerATNSimulator for LexerATNSimulator::get_char_position_in_line {ret=r}
    ensures r == self.current_pos.char_position_in_line
//@ rewrite? self.current_pos.line.get() => self.current_pos.line
//@ rewrite? self.current_pos.char_position_in_line.get() => self.current_pos.char_position_in_line
//@ end
//@ fn src/lexer_atn_simulator.rs ILexerATNSimulator for LexerATNSimulator::set_line
    ensures final(self).current_pos.line == line, final(self).current_pos.char_position_in_line == old(self).current_pos.char_position_in_line
//@ rewrite? self.current_pos.line.set(__x) => self.current_pos.line = __x
//@ rewrite? self.current_pos.char_position_in_line.set(__x) => self.current_pos.char_position_in_line = __x
//@ end
//@ fn src/lexer_atn_simulator.rs ILexerATNSimulator for LexerATNSimulator::set_char_position_in_line
    ensures final(self).current_pos.char_position_in_line == column, final(self).current_pos.line == old(self).current_pos.line
//@ rewrite? self.current_pos.line.set(__x) => self.current_pos.line = __x
//@ rewrite? self.current_pos.char_position_in_line.set(__x) => self.current_pos.char_position_in_line = __x
//@ end

//@ fn src/lexer_atn_simulator.rs ILexerATNSimulator for LexerATNSimulator::consume
//@ sig
fn consume<L: Lexer>(&mut self, _input: &mut L)
    requires old(self).tracks(old(_input).v())
    ensures old(_input).v().cur < old(_input).v().syms.len(), final(self).tracks(final(_input).v()), final(_input).v() == at(old(_input).v(), old(_input).v().cur + 1), final(self).keeps(old(self))
//@ rewrite cell_update(&self.current_pos.line, |__v| __e) => { let __v = self.current_pos.line; self.current_pos.line = __e }
//@ rewrite cell_update(&self.current_pos.char_position_in_line, |__v| __e) => { let __v = self.current_pos.char_position_in_line; self.current_pos.char_position_in_line = __e }
//@ rewrite? self.current_pos.line.set(__x) => self.current_pos.line = __x
//@ rewrite? self.current_pos.char_position_in_line.set(__x) => self.current_pos.char_position_in_line = __x
//@ at fn start
    proof { _input.inv(); lemma_pos(_input.v().syms, _input.v().cur); }
//@ end

//@ fn src/lexer_atn_simulator.rs trait ILexerATNSimulator::recover
//@ sig
fn recover<L: Lexer>(&mut self, _re: LexErr, input: &mut L)
    requires old(self).tracks(old(input).v())
    ensures final(self).tracks(final(input).v()), final(input).v() == at(old(input).v(), nxt(old(input).v().syms, old(input).v().cur))
//@ at fn start
    proof { input.inv(); }
//@ at before self.consume
    assert(input.v().cur < input.v().syms.len());
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::accept
//@ sig
fn accept<L: Lexer>(&mut self, input: &mut L)
    requires captured(old(self).prev_accept, old(input).v())
    ensures final(self).tracks(final(input).v()), final(input).v() == at(old(input).v(), final(input).v().cur), final(self).keeps(old(self)),
        0 <= final(input).v().cur <= old(input).v().syms.len(), (old(input).v().off)(final(input).v().cur) == old(self).prev_accept.index
//@ rewrite? self.current_pos.line.set(__x) => self.current_pos.line = __x
//@ rewrite? self.current_pos.char_position_in_line.set(__x) => self.current_pos.char_position_in_line = __x
//@ at fn start
    proof { input.inv(); }
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::capture_sim_state
//@ sig
fn capture_sim_state<L: Lexer>(&mut self, dfa: &DFA, input: &L, dfa_state: DFAStateRef) -> (r: bool)
    requires dfa_state < dfa.states@.len()
    ensures r == dfa.states@[dfa_state as int].is_accept_state, final(self).frame(old(self)), final(self).current_pos == old(self).current_pos,
        r ==> final(self).prev_accept == (SimState { index: (input.v().off)(input.v().cur) as isize, line: old(self).current_pos.line, column: old(self).current_pos.char_position_in_line, dfa_state: Some(dfa_state) }),
        !r ==> final(self).prev_accept == old(self).prev_accept
//@ rewrite? self.current_pos.line.get() => self.current_pos.line
//@ rewrite? self.current_pos.char_position_in_line.get() => self.current_pos.char_position_in_line
//@ at fn start
    proof { input.inv(); }
//@ end

// evaluating a predicate while matching looks one character further and comes back
//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::evaluate_predicate
//@ sig
fn evaluate_predicate<L: Lexer>(&mut self, rule_index: isize, pred_index: isize, speculative: bool, lexer: &mut L) -> (r: bool)
    requires old(self).tracks(old(lexer).v())
    ensures final(self).tracks(final(lexer).v()), final(lexer).v() == old(lexer).v(), final(self).keeps(old(self)),
        // the predicate sees the position it has in the rule: behind the character being matched
        r == truth((old(lexer).v().world)(if speculative { old(lexer).v().cur + 1 } else { old(lexer).v().cur }), rule_index as int, pred_index as int)
//@ rewrite lexer.input() => lexer
//@ rewrite? self.current_pos.line.get() => self.current_pos.line
//@ rewrite? self.current_pos.char_position_in_line.get() => self.current_pos.char_position_in_line
//@ rewrite? self.current_pos.line.set(__x) => self.current_pos.line = __x
//@ rewrite? self.current_pos.char_position_in_line.set(__x) => self.current_pos.char_position_in_line = __x
//@ at fn start
    proof { lexer.inv(); }
    let ghost v0 = lexer.v();
//@ at before lexer.input().seek
    proof { assert((lexer.v().off)(v0.cur) == index); }
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::get_existing_target_state {ret=r}
    requires _s < dfa.states@.len(), -1 <= t, dfa.states@[_s as int].edges@.len() <= 128
    ensures r == (if dfa.states@[_s as int].edge(t as int) == 0 { None } else { Some(dfa.states@[_s as int].edge(t as int)) })
//@ rewrite __e as usize => as_index(__e)
//@ rewrite __v.get(__i).and_then(|__x| match __y { 0 => None, __z => Some(__w), }).copied() ==>> match vget(&__v, __i) { Some(__x) => match __x { 0 => None, __z => Some(__w) }, None => None }
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::add_dfaedge
    requires old(_from).edges@.len() <= 128
    ensures final(_from).configs == old(_from).configs, final(_from).verdict() == old(_from).verdict(), final(_from).edges@.len() <= 128,
        forall|u: int| #[trigger] final(_from).edge(u) == (if u == t && 0 <= t <= 127 { _to } else { old(_from).edge(u) })
//@ rewrite __v.resize(__n, 0) => resize0(&mut __v, __n)
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::get_epsilon_target
//@ sig
fn get_epsilon_target<L: Lexer>(&mut self, _config: &mut ATNConfig, _trans: &Tr, _configs: &mut ATNConfigSet, _speculative: bool, _treat_eofas_epsilon: bool, lexer: &mut L) -> (r: Option<ATNConfig>)
    requires old(self).a.ok(), tr_ok(old(self).a, *_trans), old(self).tracks(old(lexer).v()), cfg_ok(old(self).a, old(_config).v())
    ensures final(self).tracks(final(lexer).v()), final(lexer).v() == old(lexer).v(), final(self).keeps(old(self)), *final(_config) == *old(_config),
        final(_configs).m() == old(_configs).m(), final(_configs).has_sem() == (old(_configs).has_sem() || _trans.kind() == TransitionType::TRANSITION_PREDICATE),
        match r { Some(d) => eps(old(self).a, wof(old(lexer).v(), _speculative), _treat_eofas_epsilon, old(_config).v(), *_trans) == Some(d.v()) && cfg_ok(old(self).a, d.v()),
            None => eps(old(self).a, wof(old(lexer).v(), _speculative), _treat_eofas_epsilon, old(_config).v(), *_trans) is None }
//@ rewrite self.atn().states.get(__i).unwrap().as_ref() => (&self.atn().states[__i])
//@ rewrite? self.atn().states[__i].as_ref() => (&self.atn().states[__i])
//@ rewrite _trans.cast::<RuleTransition>() => _trans.as_rule()
//@ rewrite _trans.cast::<PredicateTransition>() => _trans.as_pred()
//@ rewrite _trans.cast::<ActionTransition>() => _trans.as_action()
//@ rewrite Some(pred_ctx.into()) => Some(pred_ctx)
//@ rewrite _config.get_context().map(|__x| __e) != Some(false) => match _config.get_context() { Some(__x) => __e, None => true }
//@ rewrite self.atn().lexer_actions[__i].clone() => dup_action(&self.atn().lexer_actions[__i])
//@ rewrite lexer_action_executor.as_deref() => match lexer_action_executor { Some(__x) => Some(&**__x), None => None }
//@ rewrite _trans.matches(EOF, LEXER_MIN_CHAR_VALUE, LEXER_MAX_CHAR_VALUE) => _trans.matches_char(EOF)
//@ rewrite panic!(__e) => never()
//@ at fn start
    proof { lexer.inv(); assert(st_ok(self.a, _trans.target())); }
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::closure
//@ sig
fn closure<L: Lexer>(&mut self, config0: ATNConfig, _configs: &mut ATNConfigSet, acc0: bool, _speculative: bool, _treat_eofas_epsilon: bool, lexer: &mut L) -> (r: bool)
    requires old(self).a.ok(), old(self).tracks(old(lexer).v()), in_atn(old(self).a, old(_configs).m()), cfg_ok(old(self).a, config0.v())
    ensures final(self).tracks(final(lexer).v()), final(lexer).v() == old(lexer).v(), final(self).keeps(old(self)), in_atn(old(self).a, final(_configs).m()),
        cl(old(self).a, wof(old(lexer).v(), _speculative), _treat_eofas_epsilon, config0.v(), ev(*old(_configs), acc0), ev(*final(_configs), r))
//@ rewrite config.get_context().map(|__x| __e) != Some(false) => match config.get_context() { Some(__x) => __e, None => true }
//@ rewrite config.get_context().map(|__x| __e) == Some(false) => match config.get_context() { Some(__x) => !__e, None => false }
//@ rewrite EMPTY_PREDICTION_CONTEXT.clone() => PredictionContext::bottom()
//@ rewrite ctx.get_parent(__i).cloned() => ctx.parent(__i)
//@ rewrite config.config_type => *config.get_type()
//@ rewrite self.atn().states[__i].as_ref() => (&self.atn().states[__i])
//@ rewrite atn.states[__i].as_ref() => (&atn.states[__i])
//@ loop 0 for {iter=it}
    invariant
        self.a == a, a.ok(), self.tracks(lexer.v()), lexer.v() == v, self.keeps(old(self)), in_atn(a, _configs.m()),
        config.v() == (Cfg { ctx: None, ..c }), cfg_ok(a, c), c.ctx == Some(ctx.v()), ctx.v().len() > 0, a.states@[c.state].stop(),
        0 <= it.index() <= it.seq().len(), it.seq().len() == 1, it.seq()[0] == 0,
        it.index() == 0 ==> ev(*_configs, _current_alt_reached_accept_state) == e,
        it.index() > 0 ==> cl(a, wof(v, _speculative), _treat_eofas_epsilon, ret(a, c), e, ev(*_configs, _current_alt_reached_accept_state)),
//@ at loop 0 start
    proof { assert(st_ok(a, ctx.v()[0])); }
//@ loop 1 for {index=it}
    invariant
        self.a == a, a.ok(), self.tracks(lexer.v()), lexer.v() == v, self.keeps(old(self)), in_atn(a, _configs.m()),
        config.v() == c, config0.v() == c, cfg_ok(a, c), it_v@ == a.states@[c.state].tr(), 0 <= it <= it_v@.len(), !a.states@[c.state].stop(),
        cln(a, wof(v, _speculative), _treat_eofas_epsilon, c, stay(a, c, e), it as int, ev(*_configs, _current_alt_reached_accept_state)),
//@ at loop 1 start
    let ghost c = config0.v(); let ghost f = ev(*_configs, _current_alt_reached_accept_state);
    proof { assert(st_ok(a, c.state)); assert(tr_ok(a, a.states@[c.state].tr()[it - 1])); assert(*tr == a.states@[c.state].tr()[it - 1]); }
//@ at loop 1 end
    proof { let c = config0.v(); cln_step(a, wof(v, _speculative), _treat_eofas_epsilon, c, stay(a, c, e), it - 1, f, ev(*_configs, _current_alt_reached_accept_state)); }
//@ at fn start
    let mut config = config0; let mut _current_alt_reached_accept_state = acc0;
    let ghost a = self.a; let ghost v = lexer.v(); let ghost c = config0.v(); let ghost e = ev(*_configs, acc0);
    proof { lexer.inv(); assert(st_ok(a, c.state)); }
//@ at before return true
    proof { cl_ret(a, wof(v, _speculative), _treat_eofas_epsilon, c, e, ev(*_configs, true)); }
//@ at before return _current_alt
    proof { cl_ret(a, wof(v, _speculative), _treat_eofas_epsilon, c, e, ev(*_configs, _current_alt_reached_accept_state)); }
//@ at before for tr
    proof { assert(closn(a, wof(v, _speculative), _treat_eofas_epsilon, c, stay(a, c, e), 0, 0) == Some(ev(*_configs, _current_alt_reached_accept_state))); }
//@ at fn end
    proof { cl_state(a, wof(v, _speculative), _treat_eofas_epsilon, c, e, ev(*_configs, _current_alt_reached_accept_state)); }
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::get_reachable_config_set
//@ sig
fn get_reachable_config_set<L: Lexer>(&mut self, _closure: &ATNConfigSet, _reach: &mut ATNConfigSet, _t: isize, lexer: &mut L)
    requires old(self).a.ok(), old(_reach).m() == Seq::<Cfg>::empty(), !old(_reach).has_sem(), old(self).tracks(old(lexer).v()), in_atn(old(self).a, _closure.m()), old(self).start_index >= 0
    ensures final(self).tracks(final(lexer).v()), final(lexer).v() == old(lexer).v(), final(self).keeps(old(self)),
        final(_reach).m() == step(old(self).a, _closure.m(), _t as int, wof(old(lexer).v(), true), (old(lexer).v().off)(old(lexer).v().cur) - old(self).start_index),
        in_atn(old(self).a, final(_reach).m()),
        // results that depend on predicates or on where the match started are flagged
        !final(_reach).has_sem() ==> forall|w: World, o: int| #[trigger] step(old(self).a, _closure.m(), _t as int, w, o) == final(_reach).m()
//@ rewrite lexer.input() => lexer
//@ rewrite _closure.get_items() => &_closure.configs
//@ rewrite __o.map(|__x| { __body }) => match __o { Some(__x) => Some({ __body }), None => None }
//@ rewrite self.atn().states[__i].as_ref() => (&self.atn().states[__i])
//@ loop 0 for {index=it}
    invariant
        self.a == a, a.ok(), self.tracks(lexer.v()), lexer.v() == v, self.keeps(old(self)), in_atn(a, _reach.m()), lex_ok(v), self.start_index >= 0,
        it_v == &_closure.configs, 0 <= it <= it_v@.len(), in_atn(a, cs), cs == _closure.m(), o == (Wo { w: wof(v, true), t: _t as int, off: (v.off)(v.cur) - self.start_index }),
        reach_to(a, o, cs, it as int, Rs { m: _reach.m(), sem: _reach.has_sem(), skip: skip_alt as int }),
//@ at loop 0 start
    let ghost c = cs[it - 1]; let ghost r0 = Rs { m: _reach.m(), sem: _reach.has_sem(), skip: skip_alt as int }; let ghost car = c.alt == r0.skip; let ghost trs = a.states@[c.state].tr();
    proof { assert(config.v() == c); assert(cfg_ok(a, c)); assert(st_ok(a, c.state)); }
//@ at before continue
    proof { reach_step(a, o, cs, it - 1, r0, r0, false); }
//@ at before for tr
    let ghost mut acc = false;
    proof { assert(trn(a, o, c, car, r0, 0, 0) == Some((r0, false))); }
//@ loop 1 for {index=jt}
    invariant_except_break
        tr_to(a, o, c, car, r0, jt as int, Rs { m: _reach.m(), sem: _reach.has_sem(), skip: skip_alt as int }, false),
    invariant
        self.a == a, a.ok(), self.tracks(lexer.v()), lexer.v() == v, self.keeps(old(self)), in_atn(a, _reach.m()), lex_ok(v), self.start_index >= 0,
        jt_v@ == trs, trs == a.states@[c.state].tr(), 0 <= jt <= jt_v@.len(), config.v() == c, cfg_ok(a, c), current_alt_reached_accept_state == car, car == (c.alt == r0.skip),
        o == (Wo { w: wof(v, true), t: _t as int, off: (v.off)(v.cur) - self.start_index }),
    ensures
        exists|d: bool| #[trigger] tr_to(a, o, c, car, r0, trs.len() as int, Rs { m: _reach.m(), sem: _reach.has_sem(), skip: skip_alt as int }, d),
//@ at loop 1 start
    let ghost r1 = Rs { m: _reach.m(), sem: _reach.has_sem(), skip: skip_alt as int };
    proof { lexer.inv(); assert(st_ok(a, c.state)); assert(tr_ok(a, a.states@[c.state].tr()[jt - 1])); assert(*tr == a.states@[c.state].tr()[jt - 1]); assert(st_ok(a, tr.target()));
        if !tr.m(_t as int) { tr_skip(a, o, c, car, r0, jt - 1, jt as int, r1, false); } }
//@ at before if self.closure
    let ghost nv = new.v();
    proof { assert(nv.ex == fix(goto(a, c, tr.target()), o.off).ex); assert(nv == fix(goto(a, c, tr.target()), o.off)); }
//@ at before break
    proof { let e = ev(*_reach, true); tr_step(a, o, c, car, r0, jt - 1, r1, false, e);
        tr_skip(a, o, c, car, r0, jt as int, jt_v@.len() as int, Rs { m: _reach.m(), sem: _reach.has_sem(), skip: skip_alt as int }, true); }
//@ at loop 1 end
    proof { if tr.m(_t as int) { let e = ev(*_reach, false); tr_step(a, o, c, car, r0, jt - 1, r1, false, e); } }
//@ at loop 0 end
    proof { let r2 = Rs { m: _reach.m(), sem: _reach.has_sem(), skip: skip_alt as int };
        let d = choose|d: bool| #[trigger] tr_to(a, o, c, car, r0, trs.len() as int, r2, d);
        reach_step(a, o, cs, it - 1, r0, r2, d); }
//@ at fn start
    let ghost a = self.a; let ghost v = lexer.v(); let ghost cs = _closure.m(); let ghost o = Wo { w: wof(v, true), t: _t as int, off: (v.off)(v.cur) - self.start_index };
    proof { lexer.inv(); assert(reachn(a, o, cs, 0, 0) == Some(Rs { m: Seq::empty(), sem: false, skip: 0 })); }
//@ at fn tail
    proof { lemma_step(a, cs, _t as int, wof(v, true), o.off, Rs { m: _reach.m(), sem: _reach.has_sem(), skip: skip_alt as int }); }
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::compute_start_state
//@ sig
fn compute_start_state<L: Lexer>(&mut self, _p: &ATNState, start: Ghost<int>, lexer: &mut L) -> (r: Box<ATNConfigSet>)
    requires old(self).a.ok(), old(self).tracks(old(lexer).v()), 0 <= start@ < old(self).a.states@.len(), *_p == old(self).a.states@[start@]
    ensures final(self).tracks(final(lexer).v()), final(lexer).v() == old(lexer).v(), final(self).keeps(old(self)),
        r.m() == init(old(self).a, start@, (old(lexer).v().world)(old(lexer).v().cur)), in_atn(old(self).a, r.m()),
        !r.has_sem() ==> forall|w: World| #[trigger] init(old(self).a, start@, w) == r.m()
//@ rewrite _p.get_transitions().iter().enumerate() => numbered(_p.get_transitions())
//@ rewrite EMPTY_PREDICTION_CONTEXT.clone() => PredictionContext::bottom()
//@ loop 0 for {index=it copy}
    invariant
        self.a == a, a.ok(), self.tracks(lexer.v()), lexer.v() == v, self.keeps(old(self)), in_atn(a, config_set.m()),
        0 <= start@ < a.states@.len(), *_p == a.states@[start@], it_v@.len() == _p.tr().len(), 0 <= it <= it_v@.len(), forall|k: int| 0 <= k < it_v@.len() ==> (#[trigger] it_v@[k]) == (k as usize, &_p.tr()[k]),
        init_to(a, w, start@, it as int, config_set.m(), config_set.has_sem()), w == wof(v, false),
//@ at loop 0 start
    let ghost e0 = ev(config_set, false);
    proof { assert(st_ok(a, start@)); assert(tr_ok(a, a.states@[start@].tr()[it - 1])); }
//@ rewrite self.closure(atn_config, __b, __c, __d, __e, __f) => { let acc = self.closure(atn_config, __b, __c, __d, __e, __f); proof { init_step(a, w, start@, it - 1, e0.m, e0.sem, ev(config_set, acc)); } }
//@ at fn start
    let ghost a = self.a; let ghost v = lexer.v(); let ghost w = wof(v, false);
    proof { assert(initn(a, w, start@, 0, 0) == Some(Ev { m: Seq::empty(), acc: false, sem: false })); }
//@ at fn end
    proof { lemma_init(a, start@, w, config_set.m(), config_set.has_sem()); }
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::add_dfastate
//@ sig
fn add_dfastate(&self, dfa: &mut DFA, _configs: Box<ATNConfigSet>, start: Ghost<int>) -> (r: DFAStateRef)
    requires self.a.ok(), dfa_ok(self.a, start@, old(dfa)), in_atn(self.a, _configs.m()), !_configs.has_sem()
    ensures dfa_ok(self.a, start@, final(dfa)), grows(old(dfa), final(dfa)), 0 < r < final(dfa).states@.len(), final(dfa).states@[r as int].m() == _configs.m()
//@ rewrite __c.get_items().find(|__x| RuleStopState == *__e) => __c.find_item(|__x: &ATNConfig| -> (b: bool) requires 0 <= __x.v().state < self.a.states@.len() ensures b == is_acc(self.a, __x.v()) { RuleStopState == *__e })
//@ rewrite __o.map(|__c| { __body }) => match __o { Some(__c) => Some({ __body }), None => None }
//@ rewrite __o.map(LexerActionExecutor::clone).map(Box::new) => clone_exec(__o)
//@ rewrite let states = &mut dfa.states; =>
//@ rewrite dfastate.default_hash() => 0u64
//@ rewrite dfa.states_map.entry(key).or_insert_with(Vec::new) => bucket(dfa, key)
//@ rewrite let same_hash = __e; => let mut same_hash = __e;
//@ rewrite same_hash.iter().copied().find(|__p| __e) => find_same(&same_hash, dfa, &dfastate)
//@ rewrite __o.unwrap_or_else(|| { __body }) => match __o { Some(x) => x, None => { __body } }
//@ rewrite? states.deref().len() => dfa.states.len()
//@ rewrite? states.len() => dfa.states.len()
//@ rewrite states.push(__x) => dfa.states.push(__x)
//@ at fn start
    proof { vec_bound(dfa.states); }
    let ghost d0 = *dfa;
    let ghost c0 = *_configs;
//@ at before let states
    proof {
        let m = c0.m();
        assert(dfastate.configs.m() == m);
        if rule_index is None {
            assert forall|j: int| 0 <= j < m.len() implies !is_acc(self.a, #[trigger] m[j]) by { }
            lemma_none(self.a, m, 0);
        } else {
            let i = choose|i: int| 0 <= i < m.len() && is_acc(self.a, #[trigger] m[i]) && (forall|j: int| 0 <= j < i ==> !is_acc(self.a, #[trigger] m[j]));
            lemma_first(self.a, m, 0, i);
        }
        assert(dfastate.verdict() == acc(self.a, m));
    }
//@ at before states.push
    let ghost n0 = dfastate;
//@ at after states.push
    proof { lemma_push(self.a, start@, &d0, dfa, n0); }
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::compute_target_state
//@ sig
fn compute_target_state<L: Lexer>(&mut self, dfa: &mut Option<DFA>, s: DFAStateRef, _t: isize, lexer: &mut L, start: Ghost<int>) -> (r: DFAStateRef)
    requires old(self).a.ok(), (*old(dfa)) is Some, dfa_ok(old(self).a, start@, &(*old(dfa))->0), 0 < s < ((*old(dfa))->0).states@.len(),
        old(self).tracks(old(lexer).v()), _t == sym(old(lexer).v().syms, old(lexer).v().cur), old(self).start_index >= 0
    ensures (*final(dfa)) is Some, dfa_ok(old(self).a, start@, &(*final(dfa))->0), grows(&(*old(dfa))->0, &(*final(dfa))->0),
        final(self).tracks(final(lexer).v()), final(lexer).v() == old(lexer).v(), final(self).keeps(old(self)),
        ({
            let next = step(old(self).a, ((*old(dfa))->0).states@[s as int].m(), _t as int, (old(lexer).v().world)(old(lexer).v().cur + 1), (old(lexer).v().off)(old(lexer).v().cur) - old(self).start_index);
            if next.len() == 0 { r == usize::MAX } else { 0 < r < ((*final(dfa))->0).states@.len() && ((*final(dfa))->0).states@[r as int].m() == next }
        })
//@ rewrite RwLockUpgradableReadGuard::upgrade(__x) => __x
//@ rewrite RwLockWriteGuard::downgrade_to_upgradable(__x) => __x
//@ rewrite self.add_dfastate(__a, __b) => self.add_dfastate(__a, __b, start)
//@ at fn start
    proof { lexer.inv(); vec_bound((dfa->0).states); assert(state_ok(self.a, (dfa->0).states@, s as int)); }
    let ghost a = self.a;
    let ghost d0 = dfa->0;
//@ at after self.add_dfaedge(&mut dfa_mut.states[s]
    proof { lemma_edge(&a, start@, &d0, &dfa_mut, s as int, _t as int); }
//@ at after let to
    let ghost d1 = dfa_mut;
    proof { vec_bound(d1.states); assert(state_ok(&a, d1.states@, s as int)); }
//@ at after self.add_dfaedge(from
    proof { lemma_edge(&a, start@, &d1, &dfa_mut, s as int, _t as int); }
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::fail_or_accept
//@ sig
fn fail_or_accept<L: Lexer>(&mut self, _t: isize, lexer: &mut L, dfa: DFA) -> (r: Result<isize, LexErr>)
    requires
        _t == sym(old(lexer).v().syms, old(lexer).v().cur),
        old(self).tracks(old(lexer).v()),
        match old(self).prev_accept.dfa_state { Some(s) => s < dfa.states@.len() && captured(old(self).prev_accept, old(lexer).v()), None => true },
    ensures
        final(lexer).v().syms == old(lexer).v().syms, final(lexer).v().off == old(lexer).v().off, 0 <= final(lexer).v().cur <= old(lexer).v().syms.len(),
        final(self).tracks(final(lexer).v()), final(self).frame(old(self)),
        match old(self).prev_accept.dfa_state {
            Some(s) => r == Ok::<isize, LexErr>(dfa.states@[s as int].prediction) && (old(lexer).v().off)(final(lexer).v().cur) == old(self).prev_accept.index
                && final(lexer).v().ran == match dfa.states@[s as int].lexer_action_executor { Some(e) => old(lexer).v().ran.push((e.v(), old(self).start_index as int)), None => old(lexer).v().ran },
            None => final(lexer).v().cur == old(lexer).v().cur && final(lexer).v().ran == old(lexer).v().ran
                && if _t == EOF && (old(lexer).v().off)(old(lexer).v().cur) == old(self).start_index { r == Ok::<isize, LexErr>(-1isize) } else { r is Err },
        }
//@ at fn start
    proof { lexer.inv(); }
//@ rewrite lexer.input() => lexer
//@ rename LexerNoAltError => LexErr
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::exec_atn {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn exec_atn<L: Lexer>(&mut self, ds0: DFAStateRef, lexer: &mut L, dfa: DFA, start: Ghost<int>) -> (r: Result<isize, LexErr>)
    requires old(self).a.ok(), dfa_ok(old(self).a, start@, &dfa), 0 < ds0 < dfa.states@.len(), old(self).tracks(old(lexer).v()),
        old(self).prev_accept.dfa_state is None, old(self).start_index == (old(lexer).v().off)(old(lexer).v().cur)
    ensures final(self).tracks(final(lexer).v()), matched(old(self).a, old(lexer).v(), dfa.states@[ds0 as int].m(), final(lexer).v(), r),
        final(self).a == old(self).a
//@ rewrite lexer.input() => lexer
//@ rewrite __o.unwrap_or_else(|| __e) => match __o { Some(x) => x, None => __e }
//@ rewrite self.compute_target_state(__a, __b, __c, __d) => self.compute_target_state(__a, __b, __c, __d, start)
//@ at fn start
    proof { lexer.inv(); }
    let ghost v = lexer.v();
    let ghost a = self.a;
    let ghost c = dfa.states@[ds0 as int].m();
    let ghost mut k: int = 0;
    proof { assert(run(&a, v, c, 0) == (Run { c, p: v.cur })); assert(state_ok(&a, dfa.states@, ds0 as int)); assert(longest(&a, v, c, -1) is None); }
//@ loop 0 loop
    invariant_except_break
        0 < s < (dfa->0).states@.len(), (dfa->0).states@[s as int].m() == run(&a, v, c, k).c,
        lexer.v() == at(v, run(&a, v, c, k).p),
        ends_pre(&a, v, c, k),
    invariant
        a.ok(), lex_ok(v), self.a == a, k >= 0,
        dfa is Some, dfa_ok(&a, start@, &dfa->0),
        self.start_index == (v.off)(v.cur),
        self.tracks(lexer.v()), symbol == sym(v.syms, lexer.v().cur),
        accepted(&a, v, c, k, self.prev_accept, dfa->0),
    ensures
        lexer.v() == at(v, run(&a, v, c, k).p),
        ends(&a, v, c, k),
//@ at loop 0 start
    proof {
        lexer.inv(); vec_bound((dfa->0).states);
        assert(state_ok(&a, (dfa->0).states@, s as int));
        assert(edge_ok(&a, (dfa->0).states@, s as int, symbol as int));
        assert(run(&a, v, c, k + 1) == (Run { c: step(&a, run(&a, v, c, k).c, sym(v.syms, run(&a, v, c, k).p), (v.world)(run(&a, v, c, k).p + 1), (v.off)(run(&a, v, c, k).p) - (v.off)(v.cur)), p: nxt(v.syms, run(&a, v, c, k).p) }));
        lemma_run_p(&a, v, c, k);
    }
//@ at after #1 let target
    proof { vec_bound((dfa->0).states); if target != ERROR_DFA_STATE_REF { assert(state_ok(&a, (dfa->0).states@, target as int)); }
        if longest(&a, v, c, k) is Some { lemma_longest(&a, v, c, k); }
    }
//@ at before self.consume
    // (never past the end: that would panic)
    assert(lexer.v().cur < lexer.v().syms.len());
//@ at before if self.capture_sim_state
    proof { k = k + 1; lemma_run_p(&a, v, c, k - 1); }
//@ at fn end
    assert(dfa_ok(&a, start@, &dfa->0)); // lock invariant, given back with the lock
    proof { if longest(&a, v, c, k) is Some { lemma_longest(&a, v, c, k); let i = longest(&a, v, c, k)->0; lemma_run_p(&a, v, c, i);
         assert((lexer.v().off)(run(&a, v, c, i).p) == self.prev_accept.index); assert(captured(self.prev_accept, lexer.v()));
         assert(state_ok(&a, (dfa->0).states@, (self.prev_accept.dfa_state->0) as int)); } lemma_run_p(&a, v, c, k); }
//@ end

//@ fn src/lexer_atn_simulator.rs LexerATNSimulator::match_atn
//@ sig
fn match_atn<L: Lexer>(&mut self, lexer: &mut L, dfa: DFA) -> (r: Result<isize, LexErr>)
    requires old(self).a.ok(), old(self).mode < old(self).a.mode_to_start_state@.len(), old(self).a.mode_to_start_state@[old(self).mode as int] < old(self).a.states@.len(),
        dfa_ok(old(self).a, old(self).a.mode_to_start_state@[old(self).mode as int] as int, &dfa), old(self).tracks(old(lexer).v()),
        old(self).prev_accept.dfa_state is None, old(self).start_index == (old(lexer).v().off)(old(lexer).v().cur)
    ensures final(self).tracks(final(lexer).v()),
        matched(old(self).a, old(lexer).v(), init(old(self).a, old(self).a.mode_to_start_state@[old(self).mode as int] as int, (old(lexer).v().world)(old(lexer).v().cur)), final(lexer).v(), r),
        final(self).a == old(self).a
//@ rewrite let atn = __e; =>
//@ rewrite let start_state = *atn.mode_to_start_state.get(self.mode).ok_or_else(|| __e)?; => let start_state = self.a.mode_to_start_state[self.mode]; let start: Ghost<int> = Ghost(start_state as int);
//@ rewrite self.compute_start_state(atn.states[start_state].as_ref(), lexer) => self.compute_start_state(&self.a.states[start_state], start, lexer)
//@ rewrite RwLockUpgradableReadGuard::upgrade(__x) => __x
//@ rewrite RwLockWriteGuard::downgrade_to_upgradable(__x) => __x
//@ rewrite self.add_dfastate(__a, __b) => self.add_dfastate(__a, __b, start)
//@ rewrite self.exec_atn(__a, __b, __c) => self.exec_atn(__a, __b, __c, start)
//@ at fn start
    proof { lexer.inv(); }
//@ at after let next_state
    let ghost d1 = dfa_mut;
//@ at fn end
    proof { assert forall|i: int| 1 <= i < dfa_mut.states@.len() implies #[trigger] state_ok(self.a, dfa_mut.states@, i) by { assert(state_ok(self.a, d1.states@, i)); } }
//@ end

// the cache behind its lock: the lock's invariant is dfa_ok. It holds of a fresh cache (DFA::new: one null state,
// no start state) and of what exec_atn holds when it gives the lock back (asserted there).
#[verifier::external_body]
fn locked_dfa(&self, mode: usize) -> (r: DFA)
    ensures dfa_ok(self.a, self.a.mode_to_start_state@[mode as int] as int, &r)
{ unimplemented!() }
//@ fn src/lexer_atn_simulator.rs ILexerATNSimulator for LexerATNSimulator::match_token
//@ sig
fn match_token<L: Lexer>(&mut self, mode: usize, lexer: &mut L) -> (r: Result<isize, LexErr>)
    requires old(self).a.ok(), mode < old(self).a.mode_to_start_state@.len(), old(self).a.mode_to_start_state@[mode as int] < old(self).a.states@.len(),
        old(self).tracks(old(lexer).v())
    ensures
        // whatever is cached, the result is that of the automaton started for this mode
        matched(old(self).a, old(lexer).v(), init(old(self).a, old(self).a.mode_to_start_state@[mode as int] as int, (old(lexer).v().world)(old(lexer).v().cur)), final(lexer).v(), r),
        final(self).tracks(final(lexer).v())
//@ rewrite lexer.input() => lexer
//@ rewrite (|| __b)() => __b
//@ rewrite let temp = __e; =>
//@ rewrite let dfa = temp.get(mode).ok_or_else(|| __e)?; =>
//@ rewrite dfa.upgradable_read() => self.locked_dfa(mode)
//@ rewrite self.exec_atn(__a, __b, __c) => self.exec_atn(__a, __b, __c, Ghost(self.a.mode_to_start_state@[mode as int] as int))
//@ at fn start
    proof { lexer.inv(); }
//@ end
}
// `as usize` of a negative number wraps to a huge one
#[verifier::external_body]
pub fn as_index(i: isize) -> (r: usize) ensures i >= 0 ==> r == i, i < 0 ==> r >= 0x8000_0000_0000_0000 { i as usize }
pub fn vget(v: &Vec<DFAStateRef>, i: usize) -> (r: Option<DFAStateRef>) ensures r == (if i < v@.len() { Some(v@[i as int]) } else { None }) { if i < v.len() { Some(v[i]) } else { None } }
// Vec::resize(n, 0)
#[verifier::external_body]
pub fn resize0(v: &mut Vec<DFAStateRef>, n: usize)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { 0 })
{ v.resize(n, 0) }
// states_map[key]: indices of states
#[verifier::external_body]
pub fn bucket(d: &DFA, key: u64) -> (r: Vec<DFAStateRef>) ensures forall|i: int| 0 <= i < r@.len() ==> 0 < #[trigger] r@[i] < d.states@.len() { unimplemented!() }
// iter().copied().find(|&i| states[i] == dfastate)
#[verifier::external_body]
pub fn find_same(v: &Vec<DFAStateRef>, d: &DFA, s: &DFAState) -> (r: Option<DFAStateRef>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] < d.states@.len()
    ensures match r { Some(x) => 0 < x < d.states@.len() && d.states@[x as int].configs.m() == s.configs.m(), None => true }
{ unimplemented!() }
} // verus!
fn main() {}
