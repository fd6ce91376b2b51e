// ---------- what a configuration is made of ----------------------------------------
// call stacks, predicates and action lists are compared by value: their views are their equality classes
#[verifier::external_body]
pub struct PredictionContext { x: usize }
impl PredictionContext { pub uninterp spec fn v(&self) -> int; }
#[verifier::external_body]
pub struct SemanticContext { x: usize }
pub uninterp spec fn none_v() -> int;
impl SemanticContext {
    pub uninterp spec fn v(&self) -> int;
    // SemanticContext::NONE
    #[verifier::external_body]
    pub fn none() -> (r: SemanticContext) ensures r.v() == none_v() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_none_(&self) -> (r: bool) ensures r == (self.v() == none_v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn same(&self, o: &SemanticContext) -> (r: bool) ensures r == (self.v() == o.v()) { unimplemented!() }
}
impl Clone for SemanticContext {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.v() == self.v() { unimplemented!() }
}
#[verifier::external_body]
pub struct LexerActionExecutor { x: usize }
impl LexerActionExecutor { pub uninterp spec fn v(&self) -> int; }
pub open spec fn ctx_v(c: Option<Arc<PredictionContext>>) -> Option<int> { match c { Some(a) => Some(a.v()), None => None } }
pub open spec fn ex_v(c: Option<Box<LexerActionExecutor>>) -> Option<int> { match c { Some(a) => Some(a.v()), None => None } }
#[verifier::external_body]
pub fn same_ctx(a: &Option<Arc<PredictionContext>>, b: &Option<Arc<PredictionContext>>) -> (r: bool) ensures r == (ctx_v(*a) == ctx_v(*b)) { unimplemented!() }
// kind: None = parser configuration, Some((actions, passed a non-greedy decision)) = lexer configuration
pub ghost struct Cfg { pub state: int, pub alt: int, pub ctx: Option<int>, pub sem: int, pub up: int, pub supp: bool, pub kind: Option<(Option<int>, bool)> }
// what equality of configurations looks at
pub open spec fn eqv(c: Cfg) -> Cfg { Cfg { up: 0, ..c } }
//@ item src/atn_state.rs type ATNStateRef
//@ item src/atn_state.rs enum ATNStateType
//@ item src/atn_state.rs enum ATNDecisionState
//@ item src/atn_state.rs enum ATNBlockStart
//@ item src/atn_config.rs enum ATNConfigType
use crate::ATNConfigType::LexerATNConfig;
//@ item src/atn_config.rs struct ATNConfig
pub open spec fn kind_v(t: ATNConfigType) -> Option<(Option<int>, bool)> {
    match t { ATNConfigType::BaseATNConfig => None, ATNConfigType::LexerATNConfig { lexer_action_executor, passed_through_non_greedy_decision } => Some((ex_v(lexer_action_executor), passed_through_non_greedy_decision)) }
}
impl ATNConfig {
    pub open spec fn v(&self) -> Cfg { Cfg { state: self.state as int, alt: self.alt as int, ctx: ctx_v(self.context), sem: self.semantic_context.v(), up: self.reaches_into_outer_context as int, supp: self.precedence_filter_suppressed, kind: kind_v(self.config_type) } }
}
// derived
impl Clone for ATNConfig {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.v() == self.v(), r.config_type is LexerATNConfig == self.config_type is LexerATNConfig { unimplemented!() }
}
// derived
#[verifier::external_body]
pub fn same_kind(a: &ATNConfigType, b: &ATNConfigType) -> (r: bool) ensures r == (kind_v(*a) == kind_v(*b)) { unimplemented!() }
// a state of the automaton as far as configurations look at it
pub trait ATNState {
    spec fn num(&self) -> int;
    spec fn nongreedy(&self) -> bool;
    fn get_state_number(&self) -> (r: usize) ensures r == self.num();
    fn get_state_type(&self) -> (r: &ATNStateType)
        ensures self.nongreedy() == (match *r { ATNStateType::DecisionState { nongreedy, .. } => nongreedy, _ => false });
}
