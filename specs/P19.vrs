#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/int_stream.rs const EOF
//@ item src/token.rs const TOKEN_EOF
//@ item src/token.rs const TOKEN_EPSILON
//@ item src/token.rs const TOKEN_INVALID_TYPE
//@ item src/token.rs const TOKEN_DEFAULT_CHANNEL
//@ item src/atn_state.rs const ATNSTATE_INVALID_STATE_NUMBER
//@ item src/atn_state.rs const ATNSTATE_BLOCK_START
//@ item src/atn_state.rs const ATNSTATE_PLUS_BLOCK_START
//@ item src/atn_state.rs const ATNSTATE_STAR_BLOCK_START
//@ item src/atn_state.rs const ATNSTATE_STAR_LOOP_ENTRY
//@ item src/atn_state.rs const ATNSTATE_PLUS_LOOP_BACK
//@ item src/atn_state.rs const ATNSTATE_STAR_LOOP_BACK
//@ include iset_contract.inc
impl IntervalSet {
    // proved in P01
    #[verifier::external_body]
    pub fn get_min(&self) -> (r: Option<isize>)
        requires self.wf()
        ensures match r { Some(m) => self.mem(m as int) && forall|v: int| self.mem(v) ==> m <= v, None => forall|v: int| !self.mem(v) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_token_string(&self, v: &Vocab) -> (r: String) { unimplemented!() }
}
pub type TSet = spec_fn(int) -> bool;

// ---------- tokens and the token stream (contract proved for CommonTokenStream in TOKC) -------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Tok { pub ttype: isize, pub index: isize, pub line: isize, pub column: isize }
impl Tok {
    pub fn get_token_type(&self) -> (r: isize) ensures r == self.ttype { self.ttype }
    pub fn get_token_index(&self) -> (r: isize) ensures r == self.index { self.index }
    pub fn get_line(&self) -> (r: isize) ensures r == self.line { self.line }
    pub fn get_column(&self) -> (r: isize) ensures r == self.column { self.column }
}
pub ghost struct InV { pub toks: Seq<Tok>, pub cur: int }
pub open spec fn in_ok(v: InV) -> bool {
    &&& 0 <= v.cur < v.toks.len()
    &&& forall|i: int| 0 <= i < v.toks.len() ==> ((#[trigger] v.toks[i]).ttype == TOKEN_EOF) == (i == v.toks.len() - 1) && v.toks[i].index >= 0 && in_range(v.toks[i].ttype as int)
    &&& forall|i: int, j: int| 0 <= i < j < v.toks.len() ==> (#[trigger] v.toks[i]).index < (#[trigger] v.toks[j]).index
}
pub open spec fn at_eof(v: InV) -> bool { v.toks[v.cur].ttype == TOKEN_EOF }
pub open spec fn in_adv(v: InV) -> InV { if at_eof(v) { v } else { InV { cur: v.cur + 1, ..v } } }
// type of the i-th token to come
pub open spec fn la_of(v: InV, i: int) -> int { v.toks[if v.cur + i - 1 < v.toks.len() { v.cur + i - 1 } else { v.toks.len() - 1 }].ttype as int }
#[verifier::external_body]
pub struct Input { x: usize }
impl Input {
    pub uninterp spec fn v(&self) -> InV;
    #[verifier::external_body]
    pub fn la(&mut self, i: isize) -> (r: isize) requires in_ok(old(self).v()), i == 1 || i == 2 ensures final(self).v() == old(self).v(), r == la_of(old(self).v(), i as int) { unimplemented!() }
    // position in the buffer: the index of the current token
    #[verifier::external_body]
    pub fn index(&self) -> (r: isize) requires in_ok(self.v()) ensures r == self.v().toks[self.v().cur].index { unimplemented!() }
    // any buffered token, hidden ones included
    #[verifier::external_body]
    pub fn get(&self, i: isize) -> (r: &Tok) requires in_ok(self.v()), 0 <= i <= self.v().toks[self.v().cur].index
        ensures i == self.v().toks[self.v().cur].index ==> *r == self.v().toks[self.v().cur] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_text_from_interval(&self, a: isize, b: isize) -> (r: String) { unimplemented!() }
}

// ---------- the automaton and its first sets (FIRST sets are P16) ------------------------------
#[derive(Clone, Copy)]
pub struct Trans { pub target: usize, pub follow_state: usize, pub rule: bool }
impl Trans {
    pub fn as_ref(&self) -> (r: &Trans) ensures r == self { self }
    pub fn get_target(&self) -> (r: usize) ensures r == self.target { self.target }
    // cast::<RuleTransition>()
    pub fn cast_rule(&self) -> (r: &Trans) requires self.rule ensures r == self { self }
}
pub struct State { pub num: usize, pub ttype: isize, pub trans: Vec<Trans> }
impl State {
    pub fn as_ref(&self) -> (r: &State) ensures r == self { self }
    pub fn get_transitions(&self) -> (r: &Vec<Trans>) ensures r == &self.trans { &self.trans }
    pub fn get_state_type_id(&self) -> (r: isize) ensures r == self.ttype { self.ttype }
}
pub struct Atn { pub states: Vec<State> }
pub uninterp spec fn nt(a: Atn, s: int) -> TSet;                     // tokens that can come next, within the rule (EPSILON: none needed)
pub uninterp spec fn nt_ctx(a: Atn, s: int, c: Seq<int>) -> TSet;    // the same, going on in the enclosing rules
pub uninterp spec fn expected(a: Atn, s: int, st: Seq<int>) -> TSet; // all tokens that can come next
impl Atn {
    #[verifier::external_body]
    pub fn next_tokens(&self, s: &State) -> (r: &IntervalSet) ensures r.wf(), forall|x: int| (#[trigger] r.mem(x)) == nt(*self, s.num as int)(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_tokens_in_ctx(&self, s: &State, c: Option<&Ctx>) -> (r: IntervalSet) requires c is Some
        ensures r.wf(), forall|x: int| (#[trigger] r.mem(x)) == nt_ctx(*self, s.num as int, (c->0).v())(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_expected_tokens(&self, s: isize, st: &Vec<isize>) -> (r: IntervalSet)
        ensures r.wf(), forall|x: int| (#[trigger] r.mem(x)) == expected(*self, s as int, ints(st@))(x) { unimplemented!() }
}
pub open spec fn ints(s: Seq<isize>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn state_in(a: Atn, s: int) -> bool { 0 <= s < a.states@.len() && a.states@[s].num == s && a.states@[s].trans@.len() > 0 && (a.states@[s].trans@[0].target as int) < a.states@.len() && a.states@[a.states@[s].trans@[0].target as int].num == a.states@[s].trans@[0].target }
pub open spec fn follow_of(a: Atn, s: int) -> int { a.states@[s].trans@[0].follow_state as int }
pub open spec fn invoke_ok(a: Atn, s: int) -> bool { 0 <= s < a.states@.len() && a.states@[s].trans@.len() > 0 && a.states@[s].trans@[0].rule && follow_of(a, s) < a.states@.len() && a.states@[follow_of(a, s)].num == follow_of(a, s) }

// ---------- rule contexts: the invoking states, innermost first; the start rule's is negative --------
#[verifier::external_body]
pub struct Ctx { x: usize }
impl Ctx {
    pub uninterp spec fn v(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Ctx) ensures r.v() == self.v() { unimplemented!() }
    pub fn deref(&self) -> (r: &Ctx) ensures r == self { self }
    #[verifier::external_body]
    pub fn get_invoking_state(&self) -> (r: isize) requires self.v().len() > 0 ensures r == self.v()[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_parent_ctx(&self) -> (r: Option<Ctx>) requires self.v().len() > 0
        ensures match r { Some(c) => c.v() == self.v().drop_first() && self.v().len() > 1, None => self.v().len() == 1 } { unimplemented!() }
}
// invoking states of the rules being parsed (the start rule is not invoked)
pub open spec fn stack(v: Seq<int>) -> Seq<int> decreases v.len() { if v.len() == 0 || v[0] < 0 { Seq::<int>::empty() } else { seq![v[0]] + stack(v.drop_first()) } }
pub open spec fn ctx_ok(a: Atn, v: Seq<int>) -> bool { v.len() > 0 && forall|i: int| 0 <= i < v.len() && #[trigger] v[i] >= 0 ==> invoke_ok(a, v[i]) }
// states_stack(ctx).collect()
#[verifier::external_body]
pub fn stack_of(c: &Ctx) -> (r: Vec<isize>) ensures ints(r@) == stack(c.v()) { unimplemented!() }
#[verifier::external_body]
pub fn clone_states(v: &Vec<isize>) -> (r: Vec<isize>) ensures r@ == v@ { unimplemented!() }
// tokens that can follow one of the enclosing rules
pub open spec fn follows(a: Atn, st: Seq<int>) -> TSet { |x: int| x != TOKEN_EPSILON && exists|i: int| 0 <= i < st.len() && nt(a, follow_of(a, #[trigger] st[i]))(x) }

// ---------- the parser, as the strategy uses it ----------------------------------------------
// what comes out: reports to the error listeners, and the leaves consumed tokens become
pub ghost enum Out { Report(Option<int>), Leaf(bool, Tok) }
pub struct Vocab { pub x: usize }
impl Vocab {
    #[verifier::external_body]
    pub fn get_display_name(&self, t: isize) -> (r: String) { unimplemented!() }
}
pub struct Sim { pub a: Atn }
impl Sim { pub fn atn(&self) -> (r: &Atn) ensures r == &self.a { &self.a } }
pub struct Parser { pub input: Input, pub state: isize, pub ctx: Ctx, pub interp: Sim, pub vocab: Vocab, pub out: Ghost<Seq<Out>> }
impl Parser {
    pub open spec fn iv(&self) -> InV { self.input.v() }
    pub open spec fn cur(&self) -> Tok { self.iv().toks[self.iv().cur] }
    pub open spec fn a(&self) -> Atn { self.interp.a }
    pub open spec fn ok(&self) -> bool { in_ok(self.iv()) && in_range(self.state as int) && state_in(self.a(), self.state as int) && ctx_ok(self.a(), self.ctx.v()) }
    pub open spec fn exp(&self) -> TSet { expected(self.a(), self.state as int, stack(self.ctx.v())) }
    pub open spec fn recov(&self) -> TSet { follows(self.a(), stack(self.ctx.v())) }
    // nothing but the input position and the output differs
    pub open spec fn from(&self, o: &Parser) -> bool { self.state == o.state && self.ctx == o.ctx && self.interp == o.interp && self.vocab == o.vocab && self.iv().toks == o.iv().toks }
    pub open spec fn same(&self, o: &Parser) -> bool { self.from(o) && self.iv() == o.iv() && self.out@ == o.out@ }
    pub fn get_state(&self) -> (r: isize) ensures r == self.state { self.state }
    pub fn get_interpreter(&self) -> (r: &Sim) ensures r == &self.interp { &self.interp }
    pub fn get_vocabulary(&self) -> (r: &Vocab) ensures r == &self.vocab { &self.vocab }
    pub fn get_parser_rule_context(&self) -> (r: &Ctx) ensures r == &self.ctx { &self.ctx }
    #[verifier::external_body]
    pub fn get_input_stream_mut(&mut self) -> (r: &mut Input) ensures *r == old(self).input, *final(self) == (Parser { input: *final(r), ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_current_token(&self) -> (r: &Tok) requires in_ok(self.iv()) ensures *r == self.cur() { unimplemented!() }
    // proved of BaseParser in P17: the current token becomes a leaf (an error leaf while recovering), end of input stays
    #[verifier::external_body]
    pub fn consume(&mut self, h: &mut DefaultErrorStrategy)
        requires in_ok(old(self).iv())
        ensures *final(h) == *old(h), final(self).from(&*old(self)), final(self).iv() == in_adv(old(self).iv()),
            final(self).out@ == old(self).out@.push(Out::Leaf(old(h).error_recovery_mode, old(self).cur())) { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_error_listeners(&mut self, msg: String, tok: Option<isize>, err: Option<&ANTLRError>)
        ensures final(self).from(&*old(self)), final(self).iv() == old(self).iv(),
            final(self).out@ == old(self).out@.push(Out::Report(match tok { Some(i) => Some(i as int), None => None })) { unimplemented!() }
//@ fn src/parser.rs Parser<'input> for BaseParser::get_expected_tokens
//@ sig
fn get_expected_tokens(&self) -> (r: IntervalSet)
    ensures r.wf(), forall|x: int| (#[trigger] r.mem(x)) == self.exp()(x)
//@ rewrite let states_stack = states_stack(self.ctx.as_ref().unwrap().clone()); => let states_stack = stack_of(&self.ctx);
//@ rewrite self.interp.atn().get_expected_tokens(self.state, states_stack) => self.interp.atn().get_expected_tokens(self.state, &states_stack)
//@ end
    // the token made up for a missing one
    #[verifier::external_body]
    pub fn create(&self, ttype: isize, text: String, start: isize, stop: isize, line: isize, column: isize) -> (r: Tok)
        ensures r.ttype == ttype, r.index == -1, r.line == line, r.column == column { unimplemented!() }
}
#[verifier::external_body]
pub fn text0(s: &'static str) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn text1(s: &'static str, a: &String) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn text2(s: &'static str, a: &String, b: &String) -> (r: String) { unimplemented!() }
pub fn max0(i: isize) -> (r: isize) ensures r == (if i >= 0 { i } else { 0 }) { if i >= 0 { i } else { 0 } }
#[verifier::external_body]
pub fn get_or_new(o: &mut Option<IntervalSet>) -> (r: &mut IntervalSet)
    ensures (match *old(o) { Some(s) => *r == s, None => r.wf() && !r.read_only && forall|v: int| !r.mem(v) }), *final(o) == Some(*final(r)) { unimplemented!() }

// ---------- errors -----------------------------------------------------------------------
pub struct BaseRecognitionError { pub message: String, pub offending_token: Tok, pub offending_state: isize, pub states_stack: Vec<isize> }
pub struct InputMisMatchError { pub base: BaseRecognitionError }
pub struct NoViableAltError { pub base: BaseRecognitionError, pub start_token: Tok }
pub struct FailedPredicateError { pub base: BaseRecognitionError }
pub enum ANTLRError { NoAltError(NoViableAltError), InputMismatchError(InputMisMatchError), PredicateError(FailedPredicateError), Other }
pub open spec fn offending(e: ANTLRError) -> Option<Tok> {
    match e { ANTLRError::NoAltError(x) => Some(x.base.offending_token), ANTLRError::InputMismatchError(x) => Some(x.base.offending_token), ANTLRError::PredicateError(x) => Some(x.base.offending_token), ANTLRError::Other => None }
}
impl ANTLRError {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) { unimplemented!() }
//@ fn src/errors.rs ANTLRError::get_offending_token
//@ sig
fn get_offending_token(&self) -> (r: Option<&Tok>)
    ensures match r { Some(t) => offending(*self) == Some(*t), None => offending(*self) is None }
//@ end
}
impl BaseRecognitionError {
//@ fn src/errors.rs BaseRecognitionError::new
//@ sig
fn new(recog: &mut Parser) -> (r: BaseRecognitionError)
    requires old(recog).ok()
    ensures *final(recog) == *old(recog), r.offending_token == old(recog).cur(), r.offending_state == old(recog).state, ints(r.states_stack@) == stack(old(recog).ctx.v())
//@ rewrite "".to_string() => text0("")
//@ rewrite recog.get_current_token().borrow().to_owned() => *recog.get_current_token()
//@ rewrite states_stack(recog.get_parser_rule_context().clone()).collect() => stack_of(recog.get_parser_rule_context())
//@ end
//@ fn src/errors.rs BaseRecognitionError::get_expected_tokens
//@ sig
fn get_expected_tokens(&self, recognizer: &Parser) -> (r: IntervalSet)
    ensures r.wf(), forall|x: int| (#[trigger] r.mem(x)) == expected(recognizer.a(), self.offending_state as int, ints(self.states_stack@))(x)
//@ rewrite self.states_stack.iter().copied() => &self.states_stack
//@ end
}
impl NoViableAltError {
//@ fn src/errors.rs NoViableAltError::new_full
//@ sig
fn new_full(recog: &mut Parser, start_token: Tok, offending_token: Tok) -> (r: NoViableAltError)
    requires old(recog).ok()
    ensures *final(recog) == *old(recog), r.start_token == start_token, r.base.offending_token == offending_token, r.base.offending_state == old(recog).state, ints(r.base.states_stack@) == stack(old(recog).ctx.v())
//@ rewrite "".to_string() => text0("")
//@ rewrite states_stack(recog.get_parser_rule_context().clone()).collect() => stack_of(recog.get_parser_rule_context())
//@ end
}
impl InputMisMatchError {
//@ fn src/errors.rs InputMisMatchError::new
//@ sig
fn new(recognizer: &mut Parser) -> (r: InputMisMatchError)
    requires old(recognizer).ok()
    ensures *final(recognizer) == *old(recognizer), r.base.offending_token == old(recognizer).cur(), r.base.offending_state == old(recognizer).state, ints(r.base.states_stack@) == stack(old(recognizer).ctx.v())
//@ end
//@ fn src/errors.rs InputMisMatchError::with_states_stack
//@ sig
fn with_states_stack(recognizer: &mut Parser, offending_state: isize, states_stack: Vec<isize>) -> (r: InputMisMatchError)
    requires old(recognizer).ok()
    ensures *final(recognizer) == *old(recognizer), r.base.offending_token == old(recognizer).cur(), r.base.offending_state == offending_state, r.base.states_stack == states_stack
//@ end
}

// ---------- the default strategy ------------------------------------------------------------
pub struct PhantomData;
pub struct DefaultErrorStrategy {
    pub pd: PhantomData,
    pub error_recovery_mode: bool,
    pub last_error_index: isize,
    pub last_error_states: Option<IntervalSet>,
    pub insertion_index: isize,
    pub insertion_states: Option<IntervalSet>,
    pub next_tokens_state: isize,
    pub next_tokens_stack: Option<Vec<isize>>,
}
pub open spec fn oset_ok(o: Option<IntervalSet>) -> bool { match o { Some(s) => s.wf() && !s.read_only, None => true } }
pub open spec fn oset(o: Option<IntervalSet>, x: int) -> bool { match o { Some(s) => s.mem(x), None => false } }
// the output grows by reporting the current token once, unless an error is being recovered from already
pub open spec fn told(o: Seq<Out>, n: Seq<Out>, rec: bool, tok: Option<int>) -> bool { n == (if rec { o } else { o.push(Out::Report(tok)) }) }
// the leaves tokens [i, j) become when they are skipped
pub open spec fn skipped(o: Seq<Out>, rec: bool, t: Seq<Tok>, i: int, j: int) -> Seq<Out> decreases j - i { if i >= j { o } else { skipped(o, rec, t, i, j - 1).push(Out::Leaf(rec, t[j - 1])) } }
pub open spec fn reports(s: Seq<Out>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { reports(s.drop_last()) + (if s.last() is Report { 1nat } else { 0nat }) } }
pub proof fn lemma_push_reports(s: Seq<Out>, x: Out) ensures reports(s.push(x)) == reports(s) + (if x is Report { 1nat } else { 0nat }) { assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_skip_reports(o: Seq<Out>, rec: bool, t: Seq<Tok>, i: int, j: int) ensures reports(skipped(o, rec, t, i, j)) == reports(o) decreases j - i
{ if i < j { lemma_skip_reports(o, rec, t, i, j - 1); lemma_push_reports(skipped(o, rec, t, i, j - 1), Out::Leaf(rec, t[j - 1])); } }
// skipped to the first of `set`, or to the end of input
pub open spec fn stops_at(t: Seq<Tok>, i: int, j: int, set: TSet) -> bool {
    &&& i <= j < t.len()
    &&& forall|k: int| i <= k < j ==> (#[trigger] t[k]).ttype != TOKEN_EOF && !set(t[k].ttype as int)
    &&& t[j].ttype == TOKEN_EOF || set(t[j].ttype as int)
}
// at most one report, and none while an error is being recovered from
pub open spec fn one_report(o: Seq<Out>, n: Seq<Out>, rec: bool) -> bool { reports(n) == reports(o) || (!rec && reports(n) == reports(o) + 1) }
// states generated parsers call sync in
pub open spec fn sync_state(ty: int) -> bool { ty == ATNSTATE_BLOCK_START || ty == ATNSTATE_PLUS_BLOCK_START || ty == ATNSTATE_STAR_BLOCK_START || ty == ATNSTATE_STAR_LOOP_ENTRY || ty == ATNSTATE_PLUS_LOOP_BACK || ty == ATNSTATE_STAR_LOOP_BACK }
impl DefaultErrorStrategy {
    pub open spec fn ok(&self) -> bool { oset_ok(self.last_error_states) && oset_ok(self.insertion_states) }
    // everything except what insertions remember
    pub open spec fn like(&self, o: &DefaultErrorStrategy) -> bool { self.last_error_index == o.last_error_index && self.last_error_states == o.last_error_states && self.next_tokens_state == o.next_tokens_state && self.next_tokens_stack == o.next_tokens_stack }
    pub open spec fn cleared(&self, o: &DefaultErrorStrategy) -> bool {
        *self == (DefaultErrorStrategy { error_recovery_mode: false, last_error_index: -1isize, last_error_states: None, insertion_index: -1isize, insertion_states: None, ..*o })
    }
    // a token has been inserted here already, and nothing was matched since
    pub open spec fn inserted(&self, p: &Parser) -> bool { self.insertion_index == p.cur().index && oset(self.insertion_states, p.state as int) }
//@ fn src/error_strategy.rs DefaultErrorStrategy::new {ret=r}
    ensures !r.error_recovery_mode, r.ok(), r.last_error_index == -1, r.last_error_states is None, r.insertion_states is None, r.next_tokens_stack is None
//@ end

//@ fn src/error_strategy.rs DefaultErrorStrategy::begin_error_condition
//@ sig
fn begin_error_condition(&mut self, _recognizer: &Parser)
    ensures *final(self) == (DefaultErrorStrategy { error_recovery_mode: true, ..*old(self) })
//@ end
//@ fn src/error_strategy.rs DefaultErrorStrategy::end_error_condition
//@ sig
fn end_error_condition(&mut self, _recognizer: &Parser)
    ensures final(self).cleared(&*old(self))
//@ end
//@ fn src/error_strategy.rs DefaultErrorStrategy::first_insertion
//@ sig
fn first_insertion(&mut self, recognizer: &mut Parser) -> (r: bool)
    requires old(self).ok(), old(recognizer).ok()
    ensures final(self).ok(), final(recognizer).same(&*old(recognizer)), final(self).like(&*old(self)), final(self).error_recovery_mode == old(self).error_recovery_mode,
        r == !old(self).inserted(&*old(recognizer)),
        final(self).inserted(&*old(recognizer)),
//@ rewrite self.insertion_states.get_or_insert(IntervalSet::new()) => get_or_new(&mut self.insertion_states)
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for DefaultErrorStrategy::in_error_recovery_mode
//@ sig
fn in_error_recovery_mode(&mut self, _recognizer: &mut Parser) -> (r: bool)
    ensures *final(_recognizer) == *old(_recognizer), *final(self) == *old(self), r == old(self).error_recovery_mode
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for DefaultErrorStrategy::report_match
//@ sig
fn report_match(&mut self, recognizer: &mut Parser)
    ensures *final(recognizer) == *old(recognizer), final(self).cleared(&*old(self))
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for DefaultErrorStrategy::reset
//@ sig
fn reset(&mut self, recognizer: &mut Parser)
    ensures *final(recognizer) == *old(recognizer), final(self).cleared(&*old(self))
//@ end
//@ fn src/error_strategy.rs DefaultErrorStrategy::get_expected_tokens
//@ sig
fn get_expected_tokens(&self, recognizer: &Parser) -> (r: IntervalSet)
    ensures r.wf(), forall|x: int| (#[trigger] r.mem(x)) == recognizer.exp()(x)
//@ end
    // texts of the reports
    #[verifier::external_body]
    pub fn report_no_viable_alternative(&self, p: &mut Parser, e: &NoViableAltError) -> (r: String) ensures final(p).same(&*old(p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn report_input_mismatch(&self, p: &Parser, e: &InputMisMatchError) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    pub fn report_failed_predicate(&self, p: &Parser, e: &FailedPredicateError) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_token_error_display(&self, t: &Tok) -> (r: String) { unimplemented!() }
//@ fn src/error_strategy.rs DefaultErrorStrategy::report_unwanted_token
//@ sig
fn report_unwanted_token(&mut self, recognizer: &mut Parser)
    requires old(recognizer).ok()
    ensures final(recognizer).from(&*old(recognizer)), final(recognizer).iv() == old(recognizer).iv(),
        told(old(recognizer).out@, final(recognizer).out@, old(self).error_recovery_mode, Some(old(recognizer).cur().index as int)),
        *final(self) == (DefaultErrorStrategy { error_recovery_mode: true, ..*old(self) }),
//@ rewrite recognizer.get_current_token().borrow() => recognizer.get_current_token()
//@ rewrite format!("extraneous input {} expecting {}", token_name, expecting) => text2("extraneous input {} expecting {}", &token_name, &expecting)
//@ end
//@ fn src/error_strategy.rs DefaultErrorStrategy::report_missing_token
//@ sig
fn report_missing_token(&mut self, recognizer: &mut Parser)
    requires old(recognizer).ok()
    ensures final(recognizer).from(&*old(recognizer)), final(recognizer).iv() == old(recognizer).iv(),
        told(old(recognizer).out@, final(recognizer).out@, old(self).error_recovery_mode, Some(old(recognizer).cur().index as int)),
        *final(self) == (DefaultErrorStrategy { error_recovery_mode: true, ..*old(self) }),
//@ rewrite recognizer.get_current_token().borrow() => recognizer.get_current_token()
//@ rewrite format!("missing {} at {}", expecting, self.get_token_error_display(t)) => text2("missing {} at {}", &expecting, &self.get_token_error_display(t))
//@ end
//@ fn src/error_strategy.rs DefaultErrorStrategy::single_token_insertion
//@ sig
fn single_token_insertion(&mut self, recognizer: &mut Parser) -> (r: bool)
    requires old(self).ok(), old(recognizer).ok()
    ensures
        final(self).ok(), final(recognizer).from(&*old(recognizer)), final(recognizer).iv() == old(recognizer).iv(), final(self).like(&*old(self)),
        // exactly when the current token can follow the missing one, and this was not tried before
        r == (nt_ctx(old(recognizer).a(), old(recognizer).a().states@[old(recognizer).state as int].trans@[0].target as int, old(recognizer).ctx.v())(old(recognizer).cur().ttype as int)
            && !old(self).inserted(&*old(recognizer))),
        r ==> told(old(recognizer).out@, final(recognizer).out@, old(self).error_recovery_mode, Some(old(recognizer).cur().index as int))
            && final(self).error_recovery_mode && final(self).inserted(&*old(recognizer)),
        !r ==> final(recognizer).out@ == old(recognizer).out@ && final(self).error_recovery_mode == old(self).error_recovery_mode,
//@ rewrite __r.next_tokens_in_ctx::<Ctx>(__a, __b) => __r.next_tokens_in_ctx(__a, __b)
//@ end
//@ fn src/error_strategy.rs DefaultErrorStrategy::single_token_deletion
//@ sig
fn single_token_deletion(&mut self, recognizer: &mut Parser) -> (r: Option<Tok>)
    requires old(self).ok(), old(recognizer).ok()
    ensures
        final(self).ok(), final(recognizer).ok(), final(recognizer).from(&*old(recognizer)),
        // exactly when the token after the current one is expected: the current one is reported and dropped
        r is Some == old(recognizer).exp()(la_of(old(recognizer).iv(), 2)),
        r is Some ==> {
            &&& r == Some(final(recognizer).cur()) && final(recognizer).iv() == in_adv(old(recognizer).iv())
            &&& final(recognizer).out@ == (if old(self).error_recovery_mode { old(recognizer).out@ } else { old(recognizer).out@.push(Out::Report(Some(old(recognizer).cur().index as int))) }).push(Out::Leaf(true, old(recognizer).cur()))
            &&& final(self).cleared(&*old(self))
        },
        r is None ==> final(recognizer).same(&*old(recognizer)) && *final(self) == *old(self),
//@ rewrite let matched_symbol = recognizer.get_current_token(); => let matched_symbol = *recognizer.get_current_token();
//@ end
//@ fn src/error_strategy.rs DefaultErrorStrategy::get_missing_symbol
//@ sig
fn get_missing_symbol(&self, recognizer: &mut Parser) -> (r: Tok)
    requires old(recognizer).ok()
    ensures final(recognizer).same(&*old(recognizer)),
        // not a token of the input; one of the expected ones
        r.index == -1, old(recognizer).exp()(r.ttype as int) || (r.ttype == TOKEN_INVALID_TYPE && forall|x: int| !#[trigger] old(recognizer).exp()(x)),
//@ at after let expected_token_type = expected.get_min().unwrap_or(TOKEN_INVALID_TYPE);
    proof {
        assert forall|x: int| #[trigger] recognizer.exp()(x) == expected.mem(x) by { assert(expected.mem(x) == recognizer.exp()(x)); }
        assert(expected.mem(expected_token_type as int) || expected_token_type == TOKEN_INVALID_TYPE);
        if !expected.mem(expected_token_type as int) { assert(forall|x: int| !expected.mem(x)); }
    }
//@ rewrite "<missing EOF>".to_owned() => text0("<missing EOF>")
//@ rewrite format!("<missing {}>", recognizer.get_vocabulary().get_display_name(expected_token_type)) => text1("<missing {}>", &recognizer.get_vocabulary().get_display_name(expected_token_type))
//@ rewrite <T::TF as TokenFactory<'input>>::Data::from_text(&token_text) => token_text
//@ rewrite let mut curr = recognizer.get_current_token().borrow(); => let mut curr = *recognizer.get_current_token();
//@ rewrite recognizer.get_input_stream().run(|it| it.get((it.index() - 1).max(0)).borrow()) => { let __i = max0(recognizer.input.index() - 1); *recognizer.input.get(__i) }
//@ rewrite recognizer.get_token_factory().create(__n, __t, Some(__x), __c, __s, __p, __l, __m,) => recognizer.create(__t, __x, __s, __p, __l, __m)
//@ end
//@ fn src/error_strategy.rs DefaultErrorStrategy::get_error_recovery_set
//@ sig
fn get_error_recovery_set(&self, recognizer: &Parser) -> (r: IntervalSet)
    requires recognizer.ok()
    ensures r.wf(), forall|x: int| (#[trigger] r.mem(x)) == recognizer.recov()(x)
//@ rewrite tr.cast::<RuleTransition>() => tr.cast_rule()
//@ rewrite let mut ctx = Some(recognizer.get_parser_rule_context().clone()); => let mut ctx = Some(recognizer.get_parser_rule_context().clone()); let ghost full = stack(recognizer.ctx.v()); let ghost mut n: int = 0; proof { reveal_with_fuel(stack, 1); }
//@ loop 0 while_let
        invariant
            recognizer.ok(), *atn == recognizer.a(), recover_set.wf(), !recover_set.read_only, full == stack(recognizer.ctx.v()), 0 <= n <= full.len(),
            match ctx { Some(c) => c.v().len() > 0 && ctx_ok(*atn, c.v()) && full.skip(n) =~= stack(c.v()), None => n == full.len() },
            forall|x: int| (#[trigger] recover_set.mem(x)) == (exists|i: int| 0 <= i < n && nt(*atn, follow_of(*atn, #[trigger] full[i]))(x)),
        ensures n == full.len()
        decreases match ctx { Some(c) => c.v().len() + 1, None => 0 }
//@ at before if c.get_invoking_state() < 0
    let ghost cv = c.v(); let ghost rs0 = recover_set;
//@ at after recover_set.add_set(follow)
    proof {
        assert(stack(cv) =~= seq![cv[0]] + stack(cv.drop_first()));
        assert(full.skip(n)[0] == cv[0]);
        assert(full.skip(n + 1) =~= full.skip(n).skip(1));
        assert(stack(cv).skip(1) =~= stack(cv.drop_first()));
        assert forall|x: int| (#[trigger] recover_set.mem(x)) == (exists|i: int| 0 <= i < n + 1 && nt(*atn, follow_of(*atn, #[trigger] full[i]))(x)) by {
            if recover_set.mem(x) { if rs0.mem(x) {} else { assert(nt(*atn, follow_of(*atn, full[n]))(x)); } }
        }
        n = n + 1;
    }
//@ end
//@ fn src/error_strategy.rs DefaultErrorStrategy::consume_until
//@ sig
fn consume_until(&mut self, recognizer: &mut Parser, set: &IntervalSet)
    requires old(recognizer).ok(), set.wf()
    ensures
        *final(self) == *old(self), final(recognizer).ok(), final(recognizer).from(&*old(recognizer)),
        stops_at(old(recognizer).iv().toks, old(recognizer).iv().cur, final(recognizer).iv().cur, |x: int| set.mem(x)),
        final(recognizer).out@ == skipped(old(recognizer).out@, old(self).error_recovery_mode, old(recognizer).iv().toks, old(recognizer).iv().cur, final(recognizer).iv().cur),
//@ loop 0 while
        invariant
            set.wf(), recognizer.ok(), recognizer.from(&*old(recognizer)), *self == *old(self), old(recognizer).ok(),
            ttype == recognizer.cur().ttype, old(recognizer).iv().cur <= recognizer.iv().cur,
            forall|k: int| old(recognizer).iv().cur <= k < recognizer.iv().cur ==> (#[trigger] recognizer.iv().toks[k]).ttype != TOKEN_EOF && !set.mem(recognizer.iv().toks[k].ttype as int),
            recognizer.out@ == skipped(old(recognizer).out@, old(self).error_recovery_mode, old(recognizer).iv().toks, old(recognizer).iv().cur, recognizer.iv().cur),
        decreases recognizer.iv().toks.len() - recognizer.iv().cur
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for DefaultErrorStrategy::recover
//@ sig
fn recover(&mut self, recognizer: &mut Parser, _e: &ANTLRError) -> (r: Result<(), ANTLRError>)
    requires old(self).ok(), old(recognizer).ok()
    ensures
        r is Ok, final(self).ok(), final(recognizer).ok(), final(recognizer).from(&*old(recognizer)), final(self).error_recovery_mode == old(self).error_recovery_mode,
        ({
            let o = *old(recognizer); let n = *final(recognizer); let rec = old(self).error_recovery_mode; let t = o.iv().toks;
            // failing again where it has failed before costs one token: recovery cannot go on forever
            let again = old(self).last_error_index == o.cur().index && oset(old(self).last_error_states, o.state as int);
            let i = if again { in_adv(o.iv()).cur } else { o.iv().cur };
            // then tokens are skipped up to the first that can follow an enclosing rule
            &&& stops_at(t, i, n.iv().cur, o.recov())
            &&& n.out@ == skipped(if again { o.out@.push(Out::Leaf(rec, o.cur())) } else { o.out@ }, rec, t, i, n.iv().cur)
            &&& again && !at_eof(o.iv()) ==> n.iv().cur > o.iv().cur
            &&& final(self).last_error_index == t[i].index && oset(final(self).last_error_states, o.state as int)
            &&& forall|x: int| oset(old(self).last_error_states, x) ==> #[trigger] oset(final(self).last_error_states, x)
        }),
        final(self).insertion_index == old(self).insertion_index, final(self).insertion_states == old(self).insertion_states,
//@ rewrite self.last_error_states.get_or_insert(IntervalSet::new()).apply(|x| x.add_one(__e)) => { let x = get_or_new(&mut self.last_error_states); x.add_one(__e) }
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for DefaultErrorStrategy::report_error
//@ sig
fn report_error(&mut self, recognizer: &mut Parser, e: &ANTLRError)
    requires old(recognizer).ok()
    ensures final(recognizer).from(&*old(recognizer)), final(recognizer).iv() == old(recognizer).iv(),
        told(old(recognizer).out@, final(recognizer).out@, old(self).error_recovery_mode, match offending(*e) { Some(t) => Some(t.index as int), None => None }),
        *final(self) == (DefaultErrorStrategy { error_recovery_mode: true, ..*old(self) }),
//@ rewrite e.get_offending_token().map(|it| it.get_token_index()) => (match e.get_offending_token() { Some(it) => Some(it.get_token_index()), None => None })
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for DefaultErrorStrategy::recover_inline
//@ sig
fn recover_inline(&mut self, recognizer: &mut Parser) -> (r: Result<Tok, ANTLRError>)
    requires old(self).ok(), old(recognizer).ok()
    ensures
        final(self).ok(), final(recognizer).ok(), final(recognizer).from(&*old(recognizer)),
        ({
            let o = *old(recognizer); let n = *final(recognizer); let rec = old(self).error_recovery_mode;
            let ll2 = nt_ctx(o.a(), o.a().states@[o.state as int].trans@[0].target as int, o.ctx.v());
            if o.exp()(la_of(o.iv(), 2)) {
                // one token too many: it is dropped, the next one matched
                let mid = in_adv(o.iv());
                &&& r is Ok && r->Ok_0 == mid.toks[mid.cur] && n.iv() == in_adv(mid) && !final(self).error_recovery_mode
                &&& n.out@ == (if rec { o.out@ } else { o.out@.push(Out::Report(Some(o.cur().index as int))) }).push(Out::Leaf(true, o.cur())).push(Out::Leaf(false, mid.toks[mid.cur]))
            } else if ll2(o.cur().ttype as int) && !old(self).inserted(&o) {
                // one token missing: it is made up (at most once at a place), nothing is consumed
                &&& r is Ok && (r->Ok_0).index == -1 && (o.exp()((r->Ok_0).ttype as int) || ((r->Ok_0).ttype == TOKEN_INVALID_TYPE && forall|x: int| !#[trigger] o.exp()(x)))
                &&& n.iv() == o.iv() && told(o.out@, n.out@, rec, Some(o.cur().index as int)) && final(self).error_recovery_mode && final(self).inserted(&o)
            } else {
                // otherwise the rule is given up: nothing consumed, nothing reported yet
                &&& r is Err && r->Err_0 is InputMismatchError && offending(r->Err_0) == Some(o.cur())
                &&& n.iv() == o.iv() && n.out@ == o.out@ && final(self).error_recovery_mode == rec
            }
        }),
        one_report(old(recognizer).out@, final(recognizer).out@, old(self).error_recovery_mode),
//@ rewrite self.single_token_deletion(recognizer).map(|it| it.to_owned()) => self.single_token_deletion(recognizer)
//@ rewrite next_tokens_stack.clone() => clone_states(next_tokens_stack)
//@ at fn start
    proof { let o = old(recognizer).out@; let c = old(recognizer).cur(); let m = in_adv(old(recognizer).iv()); let d = m.toks[m.cur];
        let a = if old(self).error_recovery_mode { o } else { o.push(Out::Report(Some(c.index as int))) };
        lemma_push_reports(o, Out::Report(Some(c.index as int))); lemma_push_reports(a, Out::Leaf(true, c)); lemma_push_reports(a.push(Out::Leaf(true, c)), Out::Leaf(false, d)); }
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for DefaultErrorStrategy::sync
//@ sig
fn sync(&mut self, recognizer: &mut Parser) -> (r: Result<(), ANTLRError>)
    requires old(self).ok(), old(recognizer).ok(), sync_state(old(recognizer).a().states@[old(recognizer).state as int].ttype as int)
    ensures
        final(self).ok(), final(recognizer).ok(), final(recognizer).from(&*old(recognizer)),
        ({
            let o = *old(recognizer); let n = *final(recognizer); let rec = old(self).error_recovery_mode;
            let f = nt(o.a(), o.state as int); let ty = o.a().states@[o.state as int].ttype;
            // nothing to do while recovering, or when the current token fits or may belong to what follows the rule
            if rec || f(o.cur().ttype as int) || f(TOKEN_EPSILON as int) { r is Ok && n.same(&o) && final(self).error_recovery_mode == rec }
            else if ty == ATNSTATE_BLOCK_START || ty == ATNSTATE_PLUS_BLOCK_START || ty == ATNSTATE_STAR_BLOCK_START || ty == ATNSTATE_STAR_LOOP_ENTRY {
                if o.exp()(la_of(o.iv(), 2)) {
                    &&& r is Ok && n.iv() == in_adv(o.iv()) && !final(self).error_recovery_mode
                    &&& n.out@ == o.out@.push(Out::Report(Some(o.cur().index as int))).push(Out::Leaf(true, o.cur()))
                } else { r is Err && r->Err_0 is InputMismatchError && offending(r->Err_0) == Some(o.cur()) && n.same(&o) && !final(self).error_recovery_mode }
            } else {
                // at the end of an iteration: skip to a token that goes on with the loop or follows an enclosing rule
                &&& r is Ok && final(self).error_recovery_mode && stops_at(o.iv().toks, o.iv().cur, n.iv().cur, |x: int| o.exp()(x) || o.recov()(x))
                &&& n.out@ == skipped(o.out@.push(Out::Report(Some(o.cur().index as int))), true, o.iv().toks, o.iv().cur, n.iv().cur)
            }
        }),
        one_report(old(recognizer).out@, final(recognizer).out@, old(self).error_recovery_mode),
//@ rewrite Some(states_stack(recognizer.get_parser_rule_context().clone()).collect()) => Some(stack_of(recognizer.get_parser_rule_context()))
//@ at fn start
    proof { let o = old(recognizer).out@; let c = old(recognizer).cur(); let q = o.push(Out::Report(Some(c.index as int)));
        lemma_push_reports(o, Out::Report(Some(c.index as int))); lemma_push_reports(q, Out::Leaf(true, c));
        assert forall|j: int| reports(#[trigger] skipped(q, true, old(recognizer).iv().toks, old(recognizer).iv().cur, j)) == reports(q) by { lemma_skip_reports(q, true, old(recognizer).iv().toks, old(recognizer).iv().cur, j); } }
//@ end
}

// ---------- the bail strategy: nothing is repaired, the parse ends at the first error ------------------
pub struct BailErrorStrategy(pub DefaultErrorStrategy);
pub struct ParseCancelledError(pub ANTLRError);
pub enum BErr { FallThrough(Ghost<ANTLRError>) }
impl BailErrorStrategy {
    // marks the contexts as failed and wraps the error
    #[verifier::external_body]
    pub fn process_error(&self, p: &mut Parser, e: &ANTLRError) -> (r: BErr) ensures final(p).same(&*old(p)), r == BErr::FallThrough(Ghost(*e)) { unimplemented!() }
//@ fn src/error_strategy.rs BailErrorStrategy::new {ret=r}
    ensures !r.0.error_recovery_mode, r.0.ok()
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for BailErrorStrategy::reset
//@ sig
fn reset(&mut self, recognizer: &mut Parser)
    ensures *final(recognizer) == *old(recognizer), final(self).0.cleared(&old(self).0)
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for BailErrorStrategy::recover_inline
//@ sig
fn recover_inline(&mut self, recognizer: &mut Parser) -> (r: Result<Tok, BErr>)
    requires old(recognizer).ok()
    ensures final(recognizer).same(&*old(recognizer)), *final(self) == *old(self), r is Err, offending((r->Err_0)->FallThrough_0@) == Some(old(recognizer).cur())
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for BailErrorStrategy::recover
//@ sig
fn recover(&mut self, recognizer: &mut Parser, e: &ANTLRError) -> (r: Result<(), BErr>)
    ensures final(recognizer).same(&*old(recognizer)), *final(self) == *old(self), r == Err::<(), BErr>(BErr::FallThrough(Ghost(*e)))
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for BailErrorStrategy::sync
//@ sig
fn sync(&mut self, _recognizer: &mut Parser) -> (r: Result<(), BErr>)
    ensures *final(_recognizer) == *old(_recognizer), *final(self) == *old(self), r is Ok
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for BailErrorStrategy::in_error_recovery_mode
//@ sig
fn in_error_recovery_mode(&mut self, recognizer: &mut Parser) -> (r: bool)
    ensures *final(recognizer) == *old(recognizer), *final(self) == *old(self), r == old(self).0.error_recovery_mode
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for BailErrorStrategy::report_error
//@ sig
fn report_error(&mut self, recognizer: &mut Parser, e: &ANTLRError)
    requires old(recognizer).ok()
    ensures final(recognizer).from(&*old(recognizer)), final(recognizer).iv() == old(recognizer).iv(),
        told(old(recognizer).out@, final(recognizer).out@, old(self).0.error_recovery_mode, match offending(*e) { Some(t) => Some(t.index as int), None => None }),
        final(self).0.error_recovery_mode,
//@ end
//@ fn src/error_strategy.rs ErrorStrategy<'a, T> for BailErrorStrategy::report_match
//@ sig
fn report_match(&mut self, _recognizer: &mut Parser)
    ensures *final(_recognizer) == *old(_recognizer), *final(self) == *old(self)
//@ end
}
} // verus!
fn main() {}
