#![allow(unused)]
#![allow(nonstandard_style)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include iset_contract.inc
//@ item src/int_stream.rs const EOF
//@ item src/token.rs const TOKEN_EOF
//@ item src/atn_deserializer.rs const SERIALIZED_VERSION
//@ item src/transition.rs const TRANSITION_EPSILON
//@ item src/transition.rs const TRANSITION_RANGE
//@ item src/transition.rs const TRANSITION_RULE
//@ item src/transition.rs const TRANSITION_PREDICATE
//@ item src/transition.rs const TRANSITION_ATOM
//@ item src/transition.rs const TRANSITION_ACTION
//@ item src/transition.rs const TRANSITION_SET
//@ item src/transition.rs const TRANSITION_NOTSET
//@ item src/transition.rs const TRANSITION_WILDCARD
//@ item src/transition.rs const TRANSITION_PRECEDENCE
//@ item src/atn_state.rs const ATNSTATE_INVALID_TYPE
//@ item src/atn_state.rs const ATNSTATE_BASIC
//@ item src/atn_state.rs const ATNSTATE_RULE_START
//@ item src/atn_state.rs const ATNSTATE_BLOCK_START
//@ item src/atn_state.rs const ATNSTATE_PLUS_BLOCK_START
//@ item src/atn_state.rs const ATNSTATE_STAR_BLOCK_START
//@ item src/atn_state.rs const ATNSTATE_TOKEN_START
//@ item src/atn_state.rs const ATNSTATE_RULE_STOP
//@ item src/atn_state.rs const ATNSTATE_BLOCK_END
//@ item src/atn_state.rs const ATNSTATE_STAR_LOOP_BACK
//@ item src/atn_state.rs const ATNSTATE_STAR_LOOP_ENTRY
//@ item src/atn_state.rs const ATNSTATE_PLUS_LOOP_BACK
//@ item src/atn_state.rs const ATNSTATE_LOOP_END
//@ item src/atn_state.rs const ATNSTATE_INVALID_STATE_NUMBER
//@ item src/lexer_action.rs const LEXER_ACTION_TYPE_CHANNEL
//@ item src/lexer_action.rs const LEXER_ACTION_TYPE_CUSTOM
//@ item src/lexer_action.rs const LEXER_ACTION_TYPE_MODE
//@ item src/lexer_action.rs const LEXER_ACTION_TYPE_MORE
//@ item src/lexer_action.rs const LEXER_ACTION_TYPE_POP_MODE
//@ item src/lexer_action.rs const LEXER_ACTION_TYPE_PUSH_MODE
//@ item src/lexer_action.rs const LEXER_ACTION_TYPE_SKIP
//@ item src/lexer_action.rs const LEXER_ACTION_TYPE_TYPE
//@ item src/lexer_action.rs enum LexerAction {derive=PartialEq,Eq,Structural}
//@ retype Box<LexerAction> => u8
use LexerAction::*;
//@ item src/atn_type.rs enum ATNType {derive=PartialEq,Eq,Structural}
//@ item src/atn_state.rs type ATNStateRef
//@ item src/atn_state.rs enum ATNBlockStart {derive=PartialEq,Eq,Structural}
//@ item src/atn_state.rs enum ATNDecisionState {derive=PartialEq,Eq,Structural}
//@ item src/atn_state.rs enum ATNStateType {derive=PartialEq,Eq,Structural}
//@ item src/transition.rs enum TransitionType {derive=Structural,PartialEq,Eq,Clone,Copy}
//@ item src/transition.rs struct EpsilonTransition
//@ item src/transition.rs struct RangeTransition
//@ item src/transition.rs struct RuleTransition
//@ item src/transition.rs struct PredicateTransition
//@ item src/transition.rs struct AtomTransition
//@ item src/transition.rs struct ActionTransition
//@ item src/transition.rs struct SetTransition
//@ item src/transition.rs struct NotSetTransition
//@ item src/transition.rs struct WildcardTransition
//@ item src/transition.rs struct PrecedencePredicateTransition
pub struct OnceCell { x: u8 }
impl OnceCell { #[verifier::external_body] pub fn new() -> OnceCell { unimplemented!() } }

//@ item src/atn_state.rs struct BaseATNState
//@ retype OnceCell<IntervalSet> => OnceCell
//@ retype Vec<Box<dyn Transition>> => Vec<AnyTransition>
//@ item src/atn.rs struct ATN
//@ retype HashMap<String, ATNStateRef> => u8
//@ retype Vec<Box<dyn ATNState>> => Vec<BaseATNState>
pub struct ATNDeserializer { x: u8 }

#[verifier::external_body]
pub fn never<T>() -> (r: T) requires false { unimplemented!() }
// a panic that refuses the input
#[verifier::external_body]
pub fn refuse() ensures false { unimplemented!() }
// ---------- edges ------------------------------------------------------------------------------
// Box<dyn Transition>: one of the ten kinds
pub enum AnyTransition { Eps(EpsilonTransition), Range(RangeTransition), Rule(RuleTransition), Pred(PredicateTransition), Atom(AtomTransition), Act(ActionTransition), Set(SetTransition), Not(NotSetTransition), Any(WildcardTransition), Prec(PrecedencePredicateTransition) }
impl EpsilonTransition { pub fn boxed(self) -> (r: AnyTransition) ensures r == AnyTransition::Eps(self) { AnyTransition::Eps(self) } }
impl RangeTransition { pub fn boxed(self) -> (r: AnyTransition) ensures r == AnyTransition::Range(self) { AnyTransition::Range(self) } }
impl RuleTransition { pub fn boxed(self) -> (r: AnyTransition) ensures r == AnyTransition::Rule(self) { AnyTransition::Rule(self) } }
impl PredicateTransition { pub fn boxed(self) -> (r: AnyTransition) ensures r == AnyTransition::Pred(self) { AnyTransition::Pred(self) } }
impl AtomTransition { pub fn boxed(self) -> (r: AnyTransition) ensures r == AnyTransition::Atom(self) { AnyTransition::Atom(self) } }
impl ActionTransition { pub fn boxed(self) -> (r: AnyTransition) ensures r == AnyTransition::Act(self) { AnyTransition::Act(self) } }
impl SetTransition { pub fn boxed(self) -> (r: AnyTransition) ensures r == AnyTransition::Set(self) { AnyTransition::Set(self) } }
impl NotSetTransition { pub fn boxed(self) -> (r: AnyTransition) ensures r == AnyTransition::Not(self) { AnyTransition::Not(self) } }
impl WildcardTransition { pub fn boxed(self) -> (r: AnyTransition) ensures r == AnyTransition::Any(self) { AnyTransition::Any(self) } }
impl PrecedencePredicateTransition { pub fn boxed(self) -> (r: AnyTransition) ensures r == AnyTransition::Prec(self) { AnyTransition::Prec(self) } }
// what an edge means (o: None when it does not matter)
pub ghost enum TV {
    Eps { t: int, o: Option<int> }, Range { t: int, a: int, b: int }, Rule { t: int, f: int, r: int, p: int }, Pred { t: int, r: int, i: int, c: bool }, Atom { t: int, a: int },
    Act { t: int, r: int, i: int, c: bool }, Set { t: int, s: ISet<int> }, Not { t: int, s: ISet<int> }, Any { t: int }, Prec { t: int, p: int },
}
pub open spec fn is_set(x: IntervalSet, s: ISet<int>) -> bool { x.wf() && forall|v: int| (#[trigger] x.mem(v)) == s.contains(v) }
pub open spec fn is_edge(x: AnyTransition, w: TV) -> bool {
    match (x, w) {
        (AnyTransition::Eps(e), TV::Eps { t, o }) => e.target == t && (o is Some ==> e.outermost_precedence_return == o->0),
        (AnyTransition::Range(e), TV::Range { t, a, b }) => e.target == t && e.start == a && e.stop == b,
        (AnyTransition::Rule(e), TV::Rule { t, f, r, p }) => e.target == t && e.follow_state == f && e.rule_index == r && e.precedence == p,
        (AnyTransition::Pred(e), TV::Pred { t, r, i, c }) => e.target == t && e.rule_index == r && e.pred_index == i && e.is_ctx_dependent == c,
        (AnyTransition::Atom(e), TV::Atom { t, a }) => e.target == t && e.label == a,
        (AnyTransition::Act(e), TV::Act { t, r, i, c }) => e.target == t && e.rule_index == r && e.action_index == i && e.is_ctx_dependent == c,
        (AnyTransition::Set(e), TV::Set { t, s }) => e.target == t && is_set(e.set, s),
        (AnyTransition::Not(e), TV::Not { t, s }) => e.target == t && is_set(e.set, s),
        (AnyTransition::Any(e), TV::Any { t }) => e.target == t,
        (AnyTransition::Prec(e), TV::Prec { t, p }) => e.target == t && e.precedence == p,
        _ => false,
    }
}
pub open spec fn tgt(w: TV) -> int {
    match w { TV::Eps { t, .. } => t, TV::Range { t, .. } => t, TV::Rule { t, .. } => t, TV::Pred { t, .. } => t, TV::Atom { t, .. } => t, TV::Act { t, .. } => t, TV::Set { t, .. } => t, TV::Not { t, .. } => t, TV::Any { t } => t, TV::Prec { t, .. } => t }
}
pub open spec fn is_eps(w: TV) -> bool { w is Eps || w is Rule || w is Pred || w is Act || w is Prec }
// the label, as the runtime compares it (of a negated set: the excluded symbols)
pub open spec fn lab(w: TV) -> Option<ISet<int>> {
    match w {
        TV::Range { a, b, .. } => Some(ISet::new(|v: int| a <= v <= b)),
        TV::Atom { a, .. } => Some(ISet::new(|v: int| v == a)),
        TV::Set { s, .. } => Some(s),
        TV::Not { s, .. } => Some(s),
        _ => None,
    }
}
pub open spec fn dup(x: TV, y: TV) -> bool { tgt(x) == tgt(y) && ((lab(x) is Some && lab(y) is Some && lab(x)->0 =~= lab(y)->0) || (is_eps(x) && is_eps(y))) }
pub open spec fn ranged(x: AnyTransition) -> bool { match x { AnyTransition::Range(e) => in_range(e.start as int) && in_range(e.stop as int), AnyTransition::Atom(e) => in_range(e.label as int), _ => true } }
pub enum Cow { Owned(IntervalSet) }
// Option<Cow<IntervalSet>> ==, derived: the same intervals
#[verifier::external_body]
pub fn label_eq(a: &Option<IntervalSet>, b: &Option<IntervalSet>) -> (r: bool)
    ensures r ==> match (*a, *b) { (Some(x), Some(y)) => x.intervals@ == y.intervals@, (None, None) => true, _ => false }
{ unimplemented!() }
pub fn same_label(a: Option<IntervalSet>, b: Option<IntervalSet>) -> (r: bool)
    ensures r ==> match (a, b) { (Some(x), Some(y)) => forall|s: ISet<int>, t: ISet<int>| #![trigger is_set(x, s), is_set(y, t)] is_set(x, s) && is_set(y, t) ==> s == t, (None, None) => true, _ => false }
{
    let r = label_eq(&a, &b);
    proof {
        if r && a is Some && b is Some {
            let (x, y) = (a->0, b->0);
            assert forall|s: ISet<int>, t: ISet<int>| #![trigger is_set(x, s), is_set(y, t)] is_set(x, s) && is_set(y, t) implies s == t by {
                assert forall|v: int| s.contains(v) == t.contains(v) by { assert(x.mem(v) == y.mem(v)); }
                assert(s =~= t);
            }
        }
    }
    r
}

//@ global rewrite Cow::Owned(__x) => __x
//@ global rewrite Cow::Borrowed(&__x) => __x.clone()
//@ global retype Cow<'_, IntervalSet> => IntervalSet
impl AtomTransition {
//@ fn src/transition.rs Transition for AtomTransition::get_label {ret=r}
    requires in_range(self.label as int)
    ensures match r { Some(x) => x.wf() && forall|v: int| (#[trigger] x.mem(v)) == (v == self.label), None => false }
//@ end
}
impl RangeTransition {
//@ fn src/transition.rs Transition for RangeTransition::get_label {ret=r}
    requires in_range(self.start as int), in_range(self.stop as int)
    ensures match r { Some(x) => x.wf() && forall|v: int| (#[trigger] x.mem(v)) == (self.start <= v <= self.stop), None => false }
//@ end
}
impl SetTransition {
//@ fn src/transition.rs Transition for SetTransition::get_label {ret=r}
    ensures r == Some(self.set)
//@ end
}
impl NotSetTransition {
//@ fn src/transition.rs Transition for NotSetTransition::get_label {ret=r}
    ensures r == Some(self.set)
//@ end
}
pub struct Defaults { x: u8 }
impl Defaults {
//@ fn src/transition.rs trait Transition::get_label {ret=r name=get_label}
    ensures r is None
//@ end
//@ fn src/transition.rs trait Transition::is_epsilon {ret=r name=is_epsilon}
    ensures !r
//@ end
}
//@ fn src/transition.rs Transition for EpsilonTransition::is_epsilon
//@ sig
fn eps_is_epsilon() -> (r: bool)
    ensures r
//@ end
//@ fn src/transition.rs Transition for RuleTransition::is_epsilon
//@ sig
fn rule_is_epsilon() -> (r: bool)
    ensures r
//@ end
//@ fn src/transition.rs Transition for PredicateTransition::is_epsilon
//@ sig
fn pred_is_epsilon() -> (r: bool)
    ensures r
//@ end
//@ fn src/transition.rs Transition for ActionTransition::is_epsilon
//@ sig
fn act_is_epsilon() -> (r: bool)
    ensures r
//@ end
//@ fn src/transition.rs Transition for PrecedencePredicateTransition::is_epsilon
//@ sig
fn prec_is_epsilon() -> (r: bool)
    ensures r
//@ end
impl EpsilonTransition {
//@ fn src/transition.rs Transition for EpsilonTransition::get_target {ret=r}
    ensures r == self.target
//@ end
}
impl RangeTransition {
//@ fn src/transition.rs Transition for RangeTransition::get_target {ret=r}
    ensures r == self.target
//@ end
}
impl RuleTransition {
//@ fn src/transition.rs Transition for RuleTransition::get_target {ret=r}
    ensures r == self.target
//@ end
}
impl PredicateTransition {
//@ fn src/transition.rs Transition for PredicateTransition::get_target {ret=r}
    ensures r == self.target
//@ end
}
impl AtomTransition {
//@ fn src/transition.rs Transition for AtomTransition::get_target {ret=r}
    ensures r == self.target
//@ end
}
impl ActionTransition {
//@ fn src/transition.rs Transition for ActionTransition::get_target {ret=r}
    ensures r == self.target
//@ end
}
impl SetTransition {
//@ fn src/transition.rs Transition for SetTransition::get_target {ret=r}
    ensures r == self.target
//@ end
}
impl NotSetTransition {
//@ fn src/transition.rs Transition for NotSetTransition::get_target {ret=r}
    ensures r == self.target
//@ end
}
impl WildcardTransition {
//@ fn src/transition.rs Transition for WildcardTransition::get_target {ret=r}
    ensures r == self.target
//@ end
}
impl PrecedencePredicateTransition {
//@ fn src/transition.rs Transition for PrecedencePredicateTransition::get_target {ret=r}
    ensures r == self.target
//@ end
}
impl AnyTransition {
    pub fn as_ref(&self) -> (r: &AnyTransition) ensures r == self { self }
    pub open spec fn target(&self) -> int {
        match self { AnyTransition::Eps(e) => e.target as int, AnyTransition::Range(e) => e.target as int, AnyTransition::Rule(e) => e.target as int, AnyTransition::Pred(e) => e.target as int, AnyTransition::Atom(e) => e.target as int,
            AnyTransition::Act(e) => e.target as int, AnyTransition::Set(e) => e.target as int, AnyTransition::Not(e) => e.target as int, AnyTransition::Any(e) => e.target as int, AnyTransition::Prec(e) => e.target as int }
    }
    pub fn get_target(&self) -> (r: usize) ensures r == self.target() {
        match self { AnyTransition::Eps(e) => e.get_target(), AnyTransition::Range(e) => e.get_target(), AnyTransition::Rule(e) => e.get_target(), AnyTransition::Pred(e) => e.get_target(), AnyTransition::Atom(e) => e.get_target(), AnyTransition::Act(e) => e.get_target(), AnyTransition::Set(e) => e.get_target(), AnyTransition::Not(e) => e.get_target(), AnyTransition::Any(e) => e.get_target(), AnyTransition::Prec(e) => e.get_target() }
    }
    pub open spec fn eps(&self) -> bool { self is Eps || self is Rule || self is Pred || self is Act || self is Prec }
    pub fn is_epsilon(&self) -> (r: bool) ensures r == self.eps() {
        match self { AnyTransition::Eps(e) => eps_is_epsilon(), AnyTransition::Rule(e) => rule_is_epsilon(), AnyTransition::Pred(e) => pred_is_epsilon(), AnyTransition::Act(e) => act_is_epsilon(), AnyTransition::Prec(e) => prec_is_epsilon(),
            _ => (Defaults { x: 0 }).is_epsilon() }
    }
    // sets: as many as lab() says
    pub fn get_label(&self) -> (r: Option<IntervalSet>)
        requires ranged(*self)
        ensures forall|w: TV| #[trigger] is_edge(*self, w) ==> match r { Some(x) => lab(w) is Some && is_set(x, lab(w)->0), None => lab(w) is None }
    {
        match self { AnyTransition::Atom(e) => e.get_label(), AnyTransition::Range(e) => e.get_label(), AnyTransition::Set(e) => e.get_label(), AnyTransition::Not(e) => e.get_label(),
            _ => (Defaults { x: 0 }).get_label() }
    }
    pub fn get_serialization_type(&self) -> (r: TransitionType) ensures (r == TransitionType::TRANSITION_RULE) == (self is Rule) {
        match self { AnyTransition::Eps(e) => TransitionType::TRANSITION_EPSILON, AnyTransition::Range(e) => TransitionType::TRANSITION_RANGE, AnyTransition::Rule(e) => rule_kind(), AnyTransition::Pred(e) => TransitionType::TRANSITION_PREDICATE,
            AnyTransition::Atom(e) => TransitionType::TRANSITION_ATOM, AnyTransition::Act(e) => TransitionType::TRANSITION_ACTION, AnyTransition::Set(e) => TransitionType::TRANSITION_SET, AnyTransition::Not(e) => TransitionType::TRANSITION_NOTSET,
            AnyTransition::Any(e) => TransitionType::TRANSITION_WILDCARD, AnyTransition::Prec(e) => TransitionType::TRANSITION_PRECEDENCE }
    }
    // cast::<RuleTransition>()
    pub fn as_rule(&self) -> (r: &RuleTransition) requires self is Rule ensures *self == AnyTransition::Rule(*r) { match self { AnyTransition::Rule(e) => e, _ => { never() } } }
}
//@ fn src/transition.rs Transition for RuleTransition::get_serialization_type
//@ sig
fn rule_kind() -> (r: TransitionType)
    ensures r == TransitionType::TRANSITION_RULE
//@ end

// ---------- states ------------------------------------------------------------------------------
pub open spec fn all_ranged(v: Seq<AnyTransition>) -> bool { forall|i: int| 0 <= i < v.len() ==> ranged(#[trigger] v[i]) }
pub open spec fn edges_are(v: Seq<AnyTransition>, w: Seq<TV>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> is_edge(#[trigger] v[i], w[i]) }
pub open spec fn only_eps(w: Seq<TV>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> is_eps(#[trigger] w[i]) }
impl BaseATNState {
    pub open spec fn same_but_edges(&self, o: &BaseATNState) -> bool { self.rule_index == o.rule_index && self.state_number == o.state_number && self.state_type_id == o.state_type_id && self.state_type == o.state_type }
    pub open spec fn same_but_type(&self, o: &BaseATNState) -> bool { self.rule_index == o.rule_index && self.state_number == o.state_number && self.state_type_id == o.state_type_id && self.transitions == o.transitions && self.epsilon_only_transitions == o.epsilon_only_transitions }
    pub open spec fn out_is(&self, w: Seq<TV>) -> bool { edges_are(self.transitions@, w) && all_ranged(self.transitions@) && self.epsilon_only_transitions == only_eps(w) }
    pub fn as_ref(&self) -> (r: &BaseATNState) ensures r == self { self }
//@ fn src/atn_state.rs BaseATNState::new_base_atnstate {ret=r}
    ensures r.out_is(Seq::<TV>::empty())
//@ end
//@ fn src/atn_state.rs ATNState for BaseATNState::has_epsilon_only_transitions {ret=r}
    ensures r == self.epsilon_only_transitions
//@ end
//@ fn src/atn_state.rs ATNState for BaseATNState::get_rule_index {ret=r}
    ensures r == self.rule_index
//@ end
//@ fn src/atn_state.rs ATNState for BaseATNState::get_state_type {ret=r}
    ensures r == &self.state_type
//@ end
//@ fn src/atn_state.rs ATNState for BaseATNState::get_state_type_mut {ret=r}
    ensures *r == old(self).state_type, final(self).state_type == *final(r), final(self).same_but_type(old(self))
//@ end
//@ fn src/atn_state.rs ATNState for BaseATNState::get_state_number {ret=r}
    ensures r == self.state_number
//@ end
//@ fn src/atn_state.rs ATNState for BaseATNState::get_transitions {ret=r}
//@ retype Vec<Box<dyn Transition>> => Vec<AnyTransition>
    ensures r == &self.transitions
//@ end
//@ fn src/atn_state.rs ATNState for BaseATNState::add_transition
//@ sig
fn add_transition(&mut self, trans: AnyTransition, w: Ghost<Seq<TV>>, x: Ghost<TV>)
//@ rewrite self.transitions.iter() => &self.transitions
//@ rewrite existing.get_label() == trans.get_label() => same_label(existing.get_label(), trans.get_label())
//@ rewrite self.epsilon_only_transitions &= trans.is_epsilon() => self.epsilon_only_transitions = self.epsilon_only_transitions && trans.is_epsilon()
    requires old(self).out_is(w@), is_edge(trans, x@), ranged(trans), forall|i: int| 0 <= i < w@.len() ==> !dup(#[trigger] w@[i], x@)
    ensures final(self).out_is(w@.push(x@)), final(self).same_but_edges(old(self))
//@ at before let mut already_present
        proof { lem_only_eps(w@, x@); }
//@ loop 0 for {index=it}
    invariant it <= it_v@.len(), it_v@ == self.transitions@, !already_present, edges_are(self.transitions@, w@), all_ranged(self.transitions@), is_edge(trans, x@), ranged(trans), forall|i: int| 0 <= i < w@.len() ==> !dup(#[trigger] w@[i], x@)
    ensures !already_present
    decreases it_v@.len() - it
//@ at loop 0 start
        proof { assert(is_edge(self.transitions@[it - 1], w@[it - 1])); assert(ranged(self.transitions@[it - 1])); assert(!dup(w@[it - 1], x@)); }
//@ end
}
pub proof fn lem_only_eps(w: Seq<TV>, x: TV)
    ensures only_eps(w.push(x)) == (if w.len() == 0 { is_eps(x) } else { only_eps(w) && is_eps(x) })
{
    let p = w.push(x);
    if only_eps(p) { assert(is_eps(p[w.len() as int])); assert forall|i: int| 0 <= i < w.len() implies is_eps(#[trigger] w[i]) by { assert(is_eps(p[i])); } }
}

// ---------- the automaton that was serialized ----------------------------------------------------
pub ghost struct GS { pub kind: int, pub rule: int, pub arg: int }
pub ghost struct GE { pub src: int, pub trg: int, pub kind: int, pub a: int, pub b: int, pub c: int }
pub ghost struct GSet { pub eof: bool, pub iv: Seq<(int, int)> }
pub ghost struct GAct { pub kind: int, pub a: int, pub b: int }
pub ghost struct G {
    pub lexer: bool, pub max: int, pub states: Seq<GS>, pub nongreedy: Seq<int>, pub leftrec: Seq<int>,
    pub rules: Seq<(int, int)>,   // start state, token type (lexers)
    pub modes: Seq<int>, pub sets: Seq<GSet>, pub sets32: Seq<GSet>, pub edges: Seq<GE>, pub decs: Seq<int>, pub acts: Seq<GAct>,
}
pub open spec fn TOP() -> int { 0xFFFE }
// numbers that fit a word without looking like -1 or -2
pub open spec fn small(v: int) -> bool { 0 <= v < TOP() }
pub open spec fn word(v: int) -> bool { 0 <= v <= 0xFFFF }
pub open spec fn opt(v: int) -> bool { -1 <= v < TOP() }     // -1: none, serialized as 0xFFFF
pub open spec fn arg_kind(k: int) -> bool { k == 3 || k == 4 || k == 5 || k == 12 }
pub open spec fn dec_kind(k: int) -> bool { k == 3 || k == 4 || k == 5 || k == 6 || k == 10 || k == 11 }
pub open spec fn st_wf(g: G, s: int) -> bool {
    let x = g.states[s];
    &&& 1 <= x.kind <= 12 && opt(x.rule) && (arg_kind(x.kind) ==> small(x.arg))
    &&& x.kind == 2 || x.kind == 7 || x.kind == 10 ==> 0 <= x.rule < g.rules.len()
    &&& x.kind == 2 ==> g.rules[x.rule].0 == s
}
pub open spec fn idx(g: G, s: int) -> bool { 0 <= s < g.states.len() }
pub open spec fn rule_wf(g: G, r: int) -> bool { let x = g.rules[r]; idx(g, x.0) && g.states[x.0].kind == 2 && g.states[x.0].rule == r && opt(x.1) }
pub open spec fn all_idx(g: G, l: Seq<int>) -> bool { l.len() < TOP() && forall|i: int| 0 <= i < l.len() ==> idx(g, #[trigger] l[i]) }
pub open spec fn set_wf(x: GSet, top: int) -> bool { x.iv.len() < TOP() && forall|i: int| 0 <= i < x.iv.len() ==> 0 <= (#[trigger] x.iv[i]).0 <= top && 0 <= x.iv[i].1 <= top }
pub open spec fn edge_wf(g: G, e: GE) -> bool {
    &&& idx(g, e.src) && idx(g, e.trg) && 1 <= e.kind <= 10
    &&& e.kind == 2 ==> word(e.a) && word(e.b) && small(e.c)
    &&& e.kind == 5 ==> word(e.a) && small(e.b) && small(e.c)
    &&& e.kind == 3 ==> idx(g, e.a) && 0 <= g.states[e.a].rule < g.rules.len() && small(e.b) && small(e.c)
    &&& e.kind == 7 || e.kind == 8 ==> 0 <= e.a < g.sets.len() + g.sets32.len() && small(e.b) && small(e.c)
    &&& e.kind != 2 && e.kind != 5 ==> opt(e.a) && opt(e.b) && small(e.c)
}
pub open spec fn act_wf(x: GAct) -> bool { 0 <= x.kind <= 7 && opt(x.a) && opt(x.b) }
pub open spec fn distinct(l: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> l[i] != l[j] }
pub open spec fn wf0(g: G) -> bool {
    &&& small(g.max) && g.states.len() < TOP() && g.rules.len() < TOP() && g.sets.len() + g.sets32.len() < TOP() && g.edges.len() < TOP() && g.acts.len() < TOP()
    &&& forall|s: int| 0 <= s < g.states.len() ==> #[trigger] st_wf(g, s)
    &&& forall|r: int| 0 <= r < g.rules.len() ==> #[trigger] rule_wf(g, r)
    &&& all_idx(g, g.nongreedy) && all_idx(g, g.leftrec) && all_idx(g, g.modes) && all_idx(g, g.decs) && distinct(g.decs)
    &&& forall|i: int| 0 <= i < g.sets.len() ==> set_wf(#[trigger] g.sets[i], 0xFFFF)
    &&& forall|i: int| 0 <= i < g.sets32.len() ==> set_wf(#[trigger] g.sets32[i], 0x10FFFF)
    &&& forall|i: int| 0 <= i < g.edges.len() ==> edge_wf(g, #[trigger] g.edges[i])
    &&& forall|i: int| 0 <= i < g.acts.len() ==> act_wf(#[trigger] g.acts[i])
}
// ---------- its serialized form ------------------------------------------------------------------
pub ghost enum L { N, C(isize, Box<L>) }
// a 16-bit word v is written as the code unit (v + 2) mod 2^16, units that are no characters (surrogates) shifted by 0x3000
pub open spec fn unit(v: int) -> int { let c = if v + 2 > 0xFFFF { v + 2 - 0x10000 } else { v + 2 }; if 0xD800 <= c < 0xE000 { c + 0x3000 } else { c } }
// what is left of v after taking the shifts back
pub open spec fn dw(v: int) -> int { if v >= TOP() { v - 0x10000 } else { v } }
pub open spec fn w(v: int, t: L) -> L { L::C(dw(v) as isize, Box::new(t)) }
pub open spec fn wo(v: int, t: L) -> L { w(if v == -1 { 0xFFFF } else { v }, t) }
pub open spec fn e_ints(l: Seq<int>, i: int, t: L) -> L decreases l.len() - i { if i < 0 || i >= l.len() { t } else { w(l[i], e_ints(l, i + 1, t)) } }
pub open spec fn e_list(l: Seq<int>, t: L) -> L { w(l.len() as int, e_ints(l, 0, t)) }
pub open spec fn e_state(x: GS, t: L) -> L { w(x.kind, wo(x.rule, if arg_kind(x.kind) { w(x.arg, t) } else { t })) }
pub open spec fn e_states(l: Seq<GS>, i: int, t: L) -> L decreases l.len() - i { if i < 0 || i >= l.len() { t } else { e_state(l[i], e_states(l, i + 1, t)) } }
pub open spec fn e_rules(g: G, i: int, t: L) -> L decreases g.rules.len() - i { if i < 0 || i >= g.rules.len() { t } else { w(g.rules[i].0, if g.lexer { wo(g.rules[i].1, e_rules(g, i + 1, t)) } else { e_rules(g, i + 1, t) }) } }
pub open spec fn e_sym(v: int, wide: bool, t: L) -> L { if wide { w(v % 0x10000, w(v / 0x10000, t)) } else { w(v, t) } }
pub open spec fn e_ivs(l: Seq<(int, int)>, i: int, wide: bool, t: L) -> L decreases l.len() - i { if i < 0 || i >= l.len() { t } else { e_sym(l[i].0, wide, e_sym(l[i].1, wide, e_ivs(l, i + 1, wide, t))) } }
pub open spec fn e_set(x: GSet, wide: bool, t: L) -> L { w(x.iv.len() as int, w(if x.eof { 1 } else { 0 }, e_ivs(x.iv, 0, wide, t))) }
pub open spec fn e_sets(l: Seq<GSet>, i: int, wide: bool, t: L) -> L decreases l.len() - i { if i < 0 || i >= l.len() { t } else { e_set(l[i], wide, e_sets(l, i + 1, wide, t)) } }
pub open spec fn e_edge(e: GE, t: L) -> L { w(e.src, w(e.trg, w(e.kind, wo(e.a, wo(e.b, w(e.c, t)))))) }
pub open spec fn e_edges(l: Seq<GE>, i: int, t: L) -> L decreases l.len() - i { if i < 0 || i >= l.len() { t } else { e_edge(l[i], e_edges(l, i + 1, t)) } }
pub open spec fn e_acts(l: Seq<GAct>, i: int, t: L) -> L decreases l.len() - i { if i < 0 || i >= l.len() { t } else { w(l[i].kind, wo(l[i].a, wo(l[i].b, e_acts(l, i + 1, t)))) } }
// the parts, each followed by the rest
pub open spec fn s_acts(g: G, t: L) -> L { if g.lexer { w(g.acts.len() as int, e_acts(g.acts, 0, t)) } else { t } }
pub open spec fn s_decs(g: G, t: L) -> L { e_list(g.decs, s_acts(g, t)) }
pub open spec fn s_edges(g: G, t: L) -> L { w(g.edges.len() as int, e_edges(g.edges, 0, s_decs(g, t))) }
pub open spec fn s_sets32(g: G, t: L) -> L { w(g.sets32.len() as int, e_sets(g.sets32, 0, true, s_edges(g, t))) }
pub open spec fn s_sets(g: G, t: L) -> L { w(g.sets.len() as int, e_sets(g.sets, 0, false, s_sets32(g, t))) }
pub open spec fn s_modes(g: G, t: L) -> L { e_list(g.modes, s_sets(g, t)) }
pub open spec fn s_rules(g: G, t: L) -> L { w(g.rules.len() as int, e_rules(g, 0, s_modes(g, t))) }
pub open spec fn s_states(g: G, t: L) -> L { w(g.states.len() as int, e_states(g.states, 0, e_list(g.nongreedy, e_list(g.leftrec, s_rules(g, t))))) }
pub open spec fn s_atn(g: G, t: L) -> L { w(if g.lexer { 0 } else { 1 }, w(g.max, s_states(g, t))) }

// ---------- reading words -------------------------------------------------------------------------
#[verifier::external_body]
pub struct Data { x: usize }
impl Data {
    pub uninterp spec fn l(&self) -> L;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<isize>)
        ensures match old(self).l() { L::N => r is None && final(self).l() is N, L::C(v, t) => r == Some(v) && final(self).l() == *t }
    { unimplemented!() }
}
// ---------- what deserializing has to give ---------------------------------------------------------
pub open spec fn setv(x: GSet) -> ISet<int> { ISet::new(|v: int| (x.eof && v == -1) || in_iv(x.iv, x.iv.len() as int, v)) }
pub open spec fn in_iv(l: Seq<(int, int)>, n: int, v: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] l[i]).0 <= v <= l[i].1 }
pub open spec fn gset(g: G, i: int) -> GSet { if i < g.sets.len() { g.sets[i] } else { g.sets32[i - g.sets.len()] } }
pub open spec fn meant(g: G, e: GE) -> TV {
    if e.kind == 1 { TV::Eps { t: e.trg, o: None } }
    else if e.kind == 2 { TV::Range { t: e.trg, a: if e.c != 0 { -1 } else { e.a }, b: e.b } }
    else if e.kind == 3 { TV::Rule { t: e.a, f: e.trg, r: e.b, p: e.c } }
    else if e.kind == 4 { TV::Pred { t: e.trg, r: e.a, i: e.b, c: e.c != 0 } }
    else if e.kind == 5 { TV::Atom { t: e.trg, a: if e.c != 0 { -1 } else { e.a } } }
    else if e.kind == 6 { TV::Act { t: e.trg, r: e.a, i: e.b, c: e.c != 0 } }
    else if e.kind == 7 { TV::Set { t: e.trg, s: setv(gset(g, e.a)) } }
    else if e.kind == 8 { TV::Not { t: e.trg, s: setv(gset(g, e.a)) } }
    else if e.kind == 9 { TV::Any { t: e.trg } }
    else { TV::Prec { t: e.trg, p: e.a } }
}
pub open spec fn listed(l: Seq<int>, n: int, s: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] l[i] == s }
pub open spec fn dec_of(l: Seq<int>, n: int, s: int) -> int decreases n { if n <= 0 { -1 } else if l[n - 1] == s { n - 1 } else { dec_of(l, n - 1, s) } }
// the last stop state of rule r among the first n states
pub open spec fn stop_of(l: Seq<GS>, n: int, r: int) -> int decreases n { if n <= 0 { 0 } else if l[n - 1].kind == 7 && l[n - 1].rule == r { n - 1 } else { stop_of(l, n - 1, r) } }
// how far reading has got
pub ghost struct Ph { pub ng: int, pub lr: int, pub st: int, pub dc: int, pub pr: spec_fn(int) -> bool }
pub open spec fn decision(g: G, s: int, p: Ph, d: ATNDecisionState) -> ATNStateType { ATNStateType::DecisionState { decision: dec_of(g.decs, p.dc, s) as isize, nongreedy: listed(g.nongreedy, p.ng, s), state: d } }
// a state of that kind as it is made
pub open spec fn fresh_dec(d: ATNDecisionState) -> ATNStateType { ATNStateType::DecisionState { decision: -1isize, nongreedy: false, state: d } }
pub open spec fn fresh(k: int, arg: int) -> ATNStateType {
    if k == 1 { ATNStateType::BasicState }
    else if k == 2 { ATNStateType::RuleStartState { stop_state: 0, is_left_recursive: false } }
    else if k == 3 { fresh_dec(ATNDecisionState::BlockStartState { end_state: arg as usize, en: ATNBlockStart::BasicBlockStart }) }
    else if k == 4 { fresh_dec(ATNDecisionState::BlockStartState { end_state: arg as usize, en: ATNBlockStart::PlusBlockStart(0) }) }
    else if k == 5 { fresh_dec(ATNDecisionState::BlockStartState { end_state: arg as usize, en: ATNBlockStart::StarBlockStart }) }
    else if k == 6 { fresh_dec(ATNDecisionState::TokenStartState) }
    else if k == 7 { ATNStateType::RuleStopState }
    else if k == 8 { ATNStateType::BlockEndState(0) }
    else if k == 9 { ATNStateType::StarLoopbackState }
    else if k == 10 { fresh_dec(ATNDecisionState::StarLoopEntry { loop_back_state: 0, is_precedence: false }) }
    else if k == 11 { fresh_dec(ATNDecisionState::PlusLoopBack) }
    else { ATNStateType::LoopEndState(arg as usize) }
}
pub proof fn lem_fresh(g: G, s: int) requires 0 <= s < g.states.len(), st_wf(g, s) ensures want(g, s, ph0()) == fresh(g.states[s].kind, g.states[s].arg) { }
pub open spec fn want(g: G, s: int, p: Ph) -> ATNStateType {
    let x = g.states[s];
    if x.kind == 1 { ATNStateType::BasicState }
    else if x.kind == 2 { ATNStateType::RuleStartState { stop_state: stop_of(g.states, p.st, x.rule) as usize, is_left_recursive: listed(g.leftrec, p.lr, s) } }
    else if x.kind == 3 { decision(g, s, p, ATNDecisionState::BlockStartState { end_state: x.arg as usize, en: ATNBlockStart::BasicBlockStart }) }
    else if x.kind == 4 { decision(g, s, p, ATNDecisionState::BlockStartState { end_state: x.arg as usize, en: ATNBlockStart::PlusBlockStart(0) }) }
    else if x.kind == 5 { decision(g, s, p, ATNDecisionState::BlockStartState { end_state: x.arg as usize, en: ATNBlockStart::StarBlockStart }) }
    else if x.kind == 6 { decision(g, s, p, ATNDecisionState::TokenStartState) }
    else if x.kind == 7 { ATNStateType::RuleStopState }
    else if x.kind == 8 { ATNStateType::BlockEndState(0) }
    else if x.kind == 9 { ATNStateType::StarLoopbackState }
    else if x.kind == 10 { decision(g, s, p, ATNDecisionState::StarLoopEntry { loop_back_state: 0, is_precedence: (p.pr)(s) }) }
    else if x.kind == 11 { decision(g, s, p, ATNDecisionState::PlusLoopBack) }
    else { ATNStateType::LoopEndState(x.arg as usize) }
}
// edges of the automaton in order: (source, edge)
pub open spec fn src_edges(g: G) -> Seq<(int, TV)> { Seq::new(g.edges.len(), |i: int| (g.edges[i].src, meant(g, g.edges[i]))) }
pub open spec fn out(l: Seq<(int, TV)>, n: int, s: int) -> Seq<TV> decreases n { if n <= 0 { Seq::<TV>::empty() } else if l[n - 1].0 == s { out(l, n - 1, s).push(l[n - 1].1) } else { out(l, n - 1, s) } }
pub open spec fn outs(l: Seq<(int, TV)>, s: int) -> Seq<TV> { out(l, l.len() as int, s) }
pub open spec fn leftrec(g: G, r: int) -> bool { listed(g.leftrec, g.leftrec.len() as int, g.rules[r].0) }
// the return edge of a call
pub open spec fn ret(g: G, e: TV) -> (int, TV) {
    let r = g.states[tgt(e)].rule;
    (stop_of(g.states, g.states.len() as int, r), TV::Eps { t: e->Rule_f, o: Some(if leftrec(g, r) && e->Rule_p == 0 { r } else { -1 }) })
}
pub open spec fn rets_in(g: G, l: Seq<TV>, k: int) -> Seq<(int, TV)> decreases k { if k <= 0 { Seq::<(int, TV)>::empty() } else if l[k - 1] is Rule { rets_in(g, l, k - 1).push(ret(g, l[k - 1])) } else { rets_in(g, l, k - 1) } }
pub open spec fn rets(g: G, n: int) -> Seq<(int, TV)> decreases n { if n <= 0 { Seq::<(int, TV)>::empty() } else { let l = outs(src_edges(g), n - 1); rets(g, n - 1) + rets_in(g, l, l.len() as int) } }
pub open spec fn all_edges(g: G) -> Seq<(int, TV)> { src_edges(g) + rets(g, g.states.len() as int) }
pub open spec fn nodup(l: Seq<(int, TV)>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() && (#[trigger] l[i]).0 == (#[trigger] l[j]).0 ==> !dup(l[i].1, l[j].1) }
// the loop of a left-recursive rule
pub open spec fn prec(g: G, s: int) -> bool {
    let o = outs(all_edges(g), s);
    let e = tgt(o[o.len() - 1]);
    let eo = outs(all_edges(g), e);
    g.states[s].kind == 10 && leftrec(g, g.states[s].rule) && g.states[e].kind == 12 && only_eps(eo) && g.states[tgt(eo[0])].kind == 7
}
pub open spec fn loops_wf(g: G) -> bool { forall|s: int| #![trigger g.states[s]] 0 <= s < g.states.len() && g.states[s].kind == 10 ==> outs(src_edges(g), s).len() > 0 }
pub open spec fn wf(g: G) -> bool { wf0(g) && nodup(all_edges(g)) && loops_wf(g) }
pub open spec fn st_is(x: BaseATNState, g: G, s: int, p: Ph) -> bool {
    x.state_number == s && (g.states[s].rule >= 0 ==> x.rule_index == g.states[s].rule) && x.state_type_id == g.states[s].kind && x.state_type == want(g, s, p)
}
pub open spec fn states_are(v: Seq<BaseATNState>, n: int, g: G, p: Ph) -> bool { v.len() == n && forall|s: int| 0 <= s < n ==> st_is(#[trigger] v[s], g, s, p) }
pub open spec fn outs_are(v: Seq<BaseATNState>, l: Seq<(int, TV)>, n: int) -> bool { forall|s: int| 0 <= s < v.len() ==> (#[trigger] v[s]).out_is(out(l, n, s)) }
pub open spec fn refs(v: Seq<usize>, l: Seq<int>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == l[i] }
pub open spec fn act_is(x: LexerAction, a: GAct) -> bool {
    x == (if a.kind == 0 { LexerChannelAction(a.a as isize) } else if a.kind == 1 { LexerCustomAction { rule_index: a.a as isize, action_index: a.b as isize } } else if a.kind == 2 { LexerModeAction(a.a as isize) }
    else if a.kind == 3 { LexerMoreAction } else if a.kind == 4 { LexerPopModeAction } else if a.kind == 5 { LexerPushModeAction(a.a as isize) } else if a.kind == 6 { LexerSkipAction } else { LexerTypeAction(a.a as isize) })
}
pub open spec fn acts_are(v: Seq<LexerAction>, l: Seq<GAct>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> act_is(#[trigger] v[i], l[i]) }
pub open spec fn sets_are(v: Seq<IntervalSet>, l: Seq<GSet>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> is_set(#[trigger] v[i], setv(l[i])) }
pub open spec fn starts_are(v: Seq<usize>, g: G, n: int) -> bool { v.len() == g.rules.len() && forall|i: int| 0 <= i < n ==> #[trigger] v[i] == g.rules[i].0 }
pub open spec fn types_are(v: Seq<isize>, g: G, n: int) -> bool { if g.lexer { v.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] v[i] == g.rules[i].1 } else { v.len() == 0 } }
pub open spec fn stops_are(v: Seq<usize>, g: G, n: int) -> bool { v.len() == g.rules.len() && forall|r: int| 0 <= r < v.len() ==> #[trigger] v[r] == stop_of(g.states, n, r) }
pub open spec fn kind_is(a: ATN, g: G) -> bool { a.max_token_type == g.max && a.grammar_type == (if g.lexer { ATNType::LEXER } else { ATNType::PARSER }) }

// ---------- the readers ------------------------------------------------------------------------------
//@ global retype dyn Iterator<Item = isize> => Data
//@ global retype Box<dyn ATNState> => BaseATNState
//@ global retype Box<dyn Transition> => AnyTransition
//@ fn src/atn_deserializer.rs ATNDeserializer::deserialize {closure=0}
//@ sig
fn decode_unit(ch: char) -> (r: isize)
    ensures r == dec_unit(ch as int)
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::deserialize {closure=1}
//@ sig
fn read16(data: &mut Data, v: Ghost<int>, t: Ghost<L>) -> (r: isize)
    requires old(data).l() == w(v@, t@), word(v@)
    ensures r == v@, final(data).l() == t@
//@ at fn start
    proof { lem_u16(dw(v@) as isize); }
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::deserialize {closure=2}
//@ sig
fn read32(data: &mut Data, v: Ghost<int>, t: Ghost<L>) -> (r: isize)
    requires old(data).l() == e_sym(v@, true, t@), 0 <= v@ <= 0x10FFFF
    ensures r == v@, final(data).l() == t@
//@ at fn start
    proof { lem_mask(dw(v@ % 0x10000) as isize); lem_or((v@ % 0x10000) as isize, (v@ / 0x10000) as isize); }
//@ end
pub proof fn lem_or(x: isize, y: isize) requires 0 <= x < 0x10000, 0 <= y <= 0x10 ensures x | y << 16 == x + y * 0x10000 {
    assert(0 <= x < 0x10000 && 0 <= y <= 0x10 ==> x | y << 16 == add(x, mul(y, 0x10000))) by (bit_vector);
}
pub proof fn lem_u16(x: isize) ensures 0 <= x < 0x10000 ==> (x as u16) as int == x, -0x10000 <= x < 0 ==> (x as u16) as int == x + 0x10000 {
    let y = x as i64;
    assert(-0x10000i64 <= y < 0 ==> (y as u16) as int == y + 0x10000) by (bit_vector);
}
impl ATN {
//@ fn src/atn.rs ATN::add_state
//@ rewrite debug_assert_eq!(state.get_state_number(), self.states.len()) => assert(state.state_number == self.states@.len())
    requires state.state_number == old(self).states@.len()
    ensures final(self).states@ == old(self).states@.push(state), *final(self) == (ATN { states: final(self).states, ..*old(self) })
//@ end
//@ fn src/atn.rs ATN::new_atn {ret=r}
//@ rewrite HashMap::new() => 0
    ensures r.states@.len() == 0, r.decision_to_state@.len() == 0, r.lexer_actions@.len() == 0, r.mode_to_start_state@.len() == 0, r.rule_to_start_state@.len() == 0, r.rule_to_stop_state@.len() == 0, r.rule_to_token_type@.len() == 0,
        r.grammar_type == grammar_type, r.max_token_type == max_token_type
//@ end
}
impl ATNDeserializer {
//@ fn src/atn_deserializer.rs ATNDeserializer::check_version
//@ rewrite panic!("Could not deserialize ATN with version {} (expected {})", version, SERIALIZED_VERSION) => refuse()
//@ rewrite self::SERIALIZED_VERSION => SERIALIZED_VERSION
    ensures version == 3
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::read_atn
//@ rewrite panic!("invalid ATN type") => never()
//@ sig
fn read_atn(&self, data: &mut Data, g: Ghost<G>, t: Ghost<L>) -> (r: ATN)
    requires old(data).l() == s_atn(g@, t@), wf0(g@)
    ensures final(data).l() == s_states(g@, t@), kind_is(r, g@), r.states@.len() == 0, r.decision_to_state@.len() == 0, r.lexer_actions@.len() == 0, r.mode_to_start_state@.len() == 0, r.rule_to_start_state@.len() == 0, r.rule_to_stop_state@.len() == 0, r.rule_to_token_type@.len() == 0,
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::state_factory {ret=r}
//@ rewrite panic!("invalid ATN state type") => never()
//@ rewrite Box::new(state) => state
    requires 0 <= type_index <= 12
    ensures r.state_number == state_number, r.rule_index == rule_index as usize, r.state_type_id == type_index, r.out_is(Seq::<TV>::empty()),
        type_index > 0 ==> r.state_type == fresh(type_index as int, 0)
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::lexer_action_factory {ret=r}
//@ rewrite panic!("invalid action type {}", action_type) => never()
    requires 0 <= action_type <= 7
    ensures act_is(r, GAct { kind: action_type as int, a: data1 as int, b: data2 as int })
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::edge_factory
//@ rewrite Box::new(__x) => (__x).boxed()
//@ rewrite panic!("invalid transition type") => never()
//@ rewrite super::token::TOKEN_EOF => TOKEN_EOF
//@ sig
fn edge_factory(&self, _atn: &ATN, type_index: isize, _src: ATNStateRef, target: ATNStateRef, arg1: isize, arg2: isize, arg3: isize, sets: &Vec<IntervalSet>, g: Ghost<G>, e: Ghost<GE>) -> (r: AnyTransition)
    requires wf0(g@), edge_wf(g@, e@), sets_are(sets@, g@.sets + g@.sets32), type_index == e@.kind, target == e@.trg, arg1 == dw(e@.a), arg2 == dw(e@.b), arg3 == e@.c
    ensures is_edge(r, meant(g@, e@)), ranged(r)
//@ at fn start
    proof { lem_mask(arg1); lem_mask(arg2); }
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::read_states
//@ sig
fn read_states(&self, atn: &mut ATN, data: &mut Data, g: Ghost<G>, t: Ghost<L>)
    requires old(data).l() == s_states(g@, t@), wf0(g@), old(atn).states@.len() == 0
    ensures final(data).l() == s_rules(g@, t@), states_are(final(atn).states@, g@.states.len() as int, g@, ph_read(g@)), outs_are(final(atn).states@, src_edges(g@), 0), *final(atn) == (ATN { states: final(atn).states, ..*old(atn) })
//@ rewrite panic!("why invalid state serialized?") => refuse()
//@ loop 0 for
    invariant
        wf0(g@), states_count == g@.states.len(), data.l() == e_states(g@.states, i as int, e_list(g@.nongreedy, e_list(g@.leftrec, s_rules(g@, t@)))),
        states_are(atn.states@, i as int, g@, ph0()), outs_are(atn.states@, src_edges(g@), 0), *atn == (ATN { states: atn.states, ..*old(atn) })
//@ at loop 0 start
        proof { assert(st_wf(g@, i as int)); }
        let ghost before = atn.states@;
//@ at before match state.get_state_type_mut()
        proof { lem_fresh(g@, i as int); }
//@ loop 1 for {iter=it}
    invariant
        wf0(g@), num_non_greedy == g@.nongreedy.len(), data.l() == e_ints(g@.nongreedy, it.index(), e_list(g@.leftrec, s_rules(g@, t@))),
        states_are(atn.states@, g@.states.len() as int, g@, Ph { ng: it.index(), ..ph0() }), outs_are(atn.states@, src_edges(g@), 0), *atn == (ATN { states: atn.states, ..*old(atn) })
//@ loop 2 for {iter=it2}
    invariant
        wf0(g@), num_precedence_states == g@.leftrec.len(), data.l() == e_ints(g@.leftrec, it2.index(), s_rules(g@, t@)),
        states_are(atn.states@, g@.states.len() as int, g@, Ph { ng: g@.nongreedy.len() as int, lr: it2.index(), ..ph0() }), outs_are(atn.states@, src_edges(g@), 0), *atn == (ATN { states: atn.states, ..*old(atn) })
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::read_rules
//@ sig
fn read_rules(&self, atn: &mut ATN, data: &mut Data, g: Ghost<G>, t: Ghost<L>)
    requires old(data).l() == s_rules(g@, t@), wf0(g@), kind_is(*old(atn), g@), states_are(old(atn).states@, g@.states.len() as int, g@, ph_read(g@)), outs_are(old(atn).states@, src_edges(g@), 0),
        old(atn).rule_to_start_state@.len() == 0, old(atn).rule_to_stop_state@.len() == 0, old(atn).rule_to_token_type@.len() == 0,
    ensures final(data).l() == s_modes(g@, t@), states_are(final(atn).states@, g@.states.len() as int, g@, ph_rules(g@, g@.states.len() as int)), outs_are(final(atn).states@, src_edges(g@), 0), rules_are(*final(atn), g@),
        *final(atn) == (ATN { states: final(atn).states, rule_to_start_state: final(atn).rule_to_start_state, rule_to_stop_state: final(atn).rule_to_stop_state, rule_to_token_type: final(atn).rule_to_token_type, ..*old(atn) })
//@ rewrite? atn.states.get(i).unwrap() => &atn.states[i]
//@ rewrite atn.states.get_mut(atn.rule_to_start_state[rule_index]).unwrap() => &mut atn.states[atn.rule_to_start_state[rule_index]]
//@ loop 0 for
    invariant
        wf0(g@), kind_is(*atn, g@), nrules == g@.rules.len(), data.l() == e_rules(g@, i as int, s_modes(g@, t@)), starts_are(atn.rule_to_start_state@, g@, i as int), types_are(atn.rule_to_token_type@, g@, i as int),
        atn.rule_to_stop_state == old(atn).rule_to_stop_state, atn.states == old(atn).states,
        *atn == (ATN { states: atn.states, rule_to_start_state: atn.rule_to_start_state, rule_to_stop_state: atn.rule_to_stop_state, rule_to_token_type: atn.rule_to_token_type, ..*old(atn) })
//@ at loop 0 start
        proof { assert(rule_wf(g@, i as int)); }
//@ loop 1 for {iter=it}
    invariant
        it.snapshot@.end == g@.states.len(), wf0(g@), states_are(atn.states@, g@.states.len() as int, g@, ph_rules(g@, i as int)), outs_are(atn.states@, src_edges(g@), 0), starts_are(atn.rule_to_start_state@, g@, g@.rules.len() as int), types_are(atn.rule_to_token_type@, g@, g@.rules.len() as int), stops_are(atn.rule_to_stop_state@, g@, i as int),
        *atn == (ATN { states: atn.states, rule_to_start_state: atn.rule_to_start_state, rule_to_stop_state: atn.rule_to_stop_state, rule_to_token_type: atn.rule_to_token_type, ..*old(atn) })
//@ at loop 1 start
        proof { assert(st_wf(g@, i as int)); assert(st_is(atn.states@[i as int], g@, i as int, ph_rules(g@, i as int))); if g@.states[i as int].kind == 7 { assert(rule_wf(g@, g@.states[i as int].rule)); } }
        let ghost pre = atn.states@;
//@ at loop 1 end
        proof {
            let r = g@.states[i as int].rule;
            if g@.states[i as int].kind == 7 { assert(rule_wf(g@, r)); }
            assert forall|s: int| 0 <= s < g@.states.len() implies st_is(#[trigger] atn.states@[s], g@, s, ph_rules(g@, i + 1)) by { assert(st_is(pre[s], g@, s, ph_rules(g@, i as int))); assert(st_wf(g@, s)); }
        }
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::read_modes
//@ sig
fn read_modes(&self, atn: &mut ATN, data: &mut Data, g: Ghost<G>, t: Ghost<L>)
    requires old(data).l() == s_modes(g@, t@), wf0(g@), old(atn).mode_to_start_state@.len() == 0
    ensures final(data).l() == s_sets(g@, t@), refs(final(atn).mode_to_start_state@, g@.modes), *final(atn) == (ATN { mode_to_start_state: final(atn).mode_to_start_state, ..*old(atn) })
//@ loop 0 for
    invariant
        wf0(g@), nmodes == g@.modes.len(), data.l() == e_ints(g@.modes, _i as int, s_sets(g@, t@)), atn.mode_to_start_state@.len() == _i, forall|k: int| 0 <= k < _i ==> #[trigger] atn.mode_to_start_state@[k] == g@.modes[k],
        *atn == (ATN { mode_to_start_state: atn.mode_to_start_state, ..*old(atn) })
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::read_sets
//@ sig
fn read_sets16(&self, _atn: &mut ATN, data: &mut Data, l: Ghost<Seq<GSet>>, t: Ghost<L>) -> (r: Vec<IntervalSet>)
    requires old(data).l() == w(l@.len() as int, e_sets(l@, 0, false, t@)), l@.len() < TOP(), forall|i: int| 0 <= i < l@.len() ==> set_wf(#[trigger] l@[i], 0xFFFF)
    ensures final(data).l() == t@, sets_are(r@, l@), *final(_atn) == *old(_atn)
//@ rewrite set.add_range(read_unicode(data), read_unicode(data)) => { let v1 = read16(data, Ghost(l@[_i as int].iv[it.index() as int].0), Ghost(e_sym(l@[_i as int].iv[it.index() as int].1, false, e_ivs(l@[_i as int].iv, it.index() + 1, false, e_sets(l@, _i + 1, false, t@))))); \
  let v2 = read16(data, Ghost(l@[_i as int].iv[it.index() as int].1), Ghost(e_ivs(l@[_i as int].iv, it.index() + 1, false, e_sets(l@, _i + 1, false, t@)))); set.add_range(v1, v2); }
//@ loop 0 for
    invariant
        nsets == l@.len(), data.l() == e_sets(l@, _i as int, false, t@), l@.len() < TOP(), forall|i: int| 0 <= i < l@.len() ==> set_wf(#[trigger] l@[i], 0xFFFF), sets@.len() == _i, *_atn == *old(_atn),
        forall|k: int| 0 <= k < _i ==> is_set(#[trigger] sets@[k], setv(l@[k]))
//@ at loop 0 start
        proof { assert(set_wf(l@[_i as int], 0xFFFF)); }
//@ loop 1 for {iter=it}
    invariant
        set_wf(l@[_i as int], 0xFFFF), intervals == l@[_i as int].iv.len(), data.l() == e_ivs(l@[_i as int].iv, it.index() as int, false, e_sets(l@, _i + 1, false, t@)), set.wf(),
        forall|v: int| (#[trigger] set.mem(v)) == ((l@[_i as int].eof && v == -1) || in_iv(l@[_i as int].iv, it.index() as int, v))
//@ at loop 1 start
        proof { lem_iv_step(l@[_i as int].iv, it.index() as int); }
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::read_sets
//@ sig
fn read_sets32(&self, _atn: &mut ATN, data: &mut Data, l: Ghost<Seq<GSet>>, t: Ghost<L>) -> (r: Vec<IntervalSet>)
    requires old(data).l() == w(l@.len() as int, e_sets(l@, 0, true, t@)), l@.len() < TOP(), forall|i: int| 0 <= i < l@.len() ==> set_wf(#[trigger] l@[i], 0x10FFFF)
    ensures final(data).l() == t@, sets_are(r@, l@), *final(_atn) == *old(_atn)
//@ rewrite set.add_range(read_unicode(data), read_unicode(data)) => { let v1 = read32(data, Ghost(l@[_i as int].iv[it.index() as int].0), Ghost(e_sym(l@[_i as int].iv[it.index() as int].1, true, e_ivs(l@[_i as int].iv, it.index() + 1, true, e_sets(l@, _i + 1, true, t@))))); \
  let v2 = read32(data, Ghost(l@[_i as int].iv[it.index() as int].1), Ghost(e_ivs(l@[_i as int].iv, it.index() + 1, true, e_sets(l@, _i + 1, true, t@)))); set.add_range(v1, v2); }
//@ loop 0 for
    invariant
        nsets == l@.len(), data.l() == e_sets(l@, _i as int, true, t@), l@.len() < TOP(), forall|i: int| 0 <= i < l@.len() ==> set_wf(#[trigger] l@[i], 0x10FFFF), sets@.len() == _i, *_atn == *old(_atn),
        forall|k: int| 0 <= k < _i ==> is_set(#[trigger] sets@[k], setv(l@[k]))
//@ at loop 0 start
        proof { assert(set_wf(l@[_i as int], 0x10FFFF)); }
//@ loop 1 for {iter=it}
    invariant
        set_wf(l@[_i as int], 0x10FFFF), intervals == l@[_i as int].iv.len(), data.l() == e_ivs(l@[_i as int].iv, it.index() as int, true, e_sets(l@, _i + 1, true, t@)), set.wf(),
        forall|v: int| (#[trigger] set.mem(v)) == ((l@[_i as int].eof && v == -1) || in_iv(l@[_i as int].iv, it.index() as int, v))
//@ at loop 1 start
        proof { lem_iv_step(l@[_i as int].iv, it.index() as int); }
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::read_edges
//@ sig
fn read_edges(&self, atn: &mut ATN, data: &mut Data, sets: &Vec<IntervalSet>, g: Ghost<G>, t: Ghost<L>)
    requires old(data).l() == s_edges(g@, t@), wf(g@), states_are(old(atn).states@, g@.states.len() as int, g@, ph_rules(g@, g@.states.len() as int)), outs_are(old(atn).states@, src_edges(g@), 0), rules_are(*old(atn), g@), sets_are(sets@, g@.sets + g@.sets32)
    ensures final(data).l() == s_decs(g@, t@), states_are(final(atn).states@, g@.states.len() as int, g@, ph_rules(g@, g@.states.len() as int)), outs_are(final(atn).states@, all_edges(g@), all_edges(g@).len() as int), *final(atn) == (ATN { states: final(atn).states, ..*old(atn) })
//@ rewrite self.edge_factory(atn, ttype, src, trg, arg1, arg2, arg3, sets) => self.edge_factory(atn, ttype, src, trg, arg1, arg2, arg3, sets, g, Ghost(g@.edges[_i as int]))
//@ rewrite atn.states.get_mut(src).unwrap().add_transition(transition) => { let st = &mut atn.states[src]; st.add_transition(transition, Ghost(out(all_edges(g@), _i as int, src as int)), Ghost(all_edges(g@)[_i as int].1)) }
//@ rewrite atn.states.get(__x).unwrap() => (&atn.states[__x])
//@ rewrite tr.as_ref().cast::<RuleTransition>() => tr.as_rule()
//@ rewrite Box::new(__x) => (__x).boxed()
//@ rewrite let mut new_tr = Vec::new(); => let mut new_tr: Vec<(usize, AnyTransition)> = Vec::new();
//@ rewrite atn.states[state].add_transition(tr) => { let st = &mut atn.states[state]; st.add_transition(tr, Ghost(out(all_edges(g@), n0 + k, state as int)), Ghost(all_edges(g@)[n0 + k].1)) }
//@ rewrite new_tr.drain(..).for_each(|(state, tr)| __body) => { \
    let ghost l0 = new_tr@; let ghost n0 = g@.edges.len() as int; let ghost mut k: int = 0; \
    while new_tr.len() > 0 \
        invariant wf(g@), 0 <= k <= l0.len(), new_tr@ == l0.subrange(k, l0.len() as int), n0 == g@.edges.len(), rets_are(l0, rets(g@, g@.states.len() as int)), states_are(atn.states@, g@.states.len() as int, g@, ph_rules(g@, g@.states.len() as int)), \
            outs_are(atn.states@, all_edges(g@), n0 + k), *atn == (ATN { states: atn.states, ..*old(atn) }) \
        decreases new_tr@.len() \
    { \
        let ghost pre = atn.states@; \
        let (state, tr) = new_tr.remove(0); \
        proof { assert(rets_are(l0, rets(g@, g@.states.len() as int))); assert(l0[k] == (state, tr)); assert(all_edges(g@)[n0 + k] == rets(g@, g@.states.len() as int)[k]); lem_rets_ok(g@, g@.states.len() as int); assert(idx(g@, rets(g@, g@.states.len() as int)[k].0)); \
            lem_nodup_out(all_edges(g@), n0 + k); assert(pre[state as int].out_is(out(all_edges(g@), n0 + k, state as int))); } \
        __body; \
        proof { lem_added(g@, pre, atn.states@, n0 + k, state as int, ph_rules(g@, g@.states.len() as int)); k = k + 1; } \
    } }
//@ loop 0 for
    invariant
        wf(g@), nedges == g@.edges.len(), data.l() == e_edges(g@.edges, _i as int, s_decs(g@, t@)), sets_are(sets@, g@.sets + g@.sets32), states_are(atn.states@, g@.states.len() as int, g@, ph_rules(g@, g@.states.len() as int)),
        outs_are(atn.states@, all_edges(g@), _i as int), *atn == (ATN { states: atn.states, ..*old(atn) })
//@ at loop 0 start
        let ghost pre = atn.states@;
        proof { assert(edge_wf(g@, g@.edges[_i as int])); lem_nodup_out(all_edges(g@), _i as int); assert(all_edges(g@)[_i as int] == src_edges(g@)[_i as int]); assert(pre[g@.edges[_i as int].src].out_is(out(all_edges(g@), _i as int, g@.edges[_i as int].src))); }
//@ at loop 0 end
        proof { lem_added(g@, pre, atn.states@, _i as int, src as int, ph_rules(g@, g@.states.len() as int)); }
//@ loop 1 for {index=it}
    invariant
        wf(g@), it <= it_v@.len(), it_v@ == atn.states@, states_are(atn.states@, g@.states.len() as int, g@, ph_rules(g@, g@.states.len() as int)), outs_are(atn.states@, all_edges(g@), g@.edges.len() as int), rules_are(*atn, g@),
        rets_are(new_tr@, rets(g@, it as int)), *atn == (ATN { states: atn.states, ..*old(atn) })
    decreases it_v@.len() - it
//@ at loop 1 start
        let ghost l = outs(src_edges(g@), it - 1);
        proof { lem_prefix(g@, it - 1); assert(it_v@[it - 1].out_is(l)); assert(rets_in(g@, l, 0) =~= Seq::<(int, TV)>::empty()); assert(rets(g@, it - 1) + rets_in(g@, l, 0) =~= rets(g@, it - 1)); }
//@ loop 2 for {index=jt}
    invariant
        wf(g@), 0 < it <= it_v@.len(), it_v@ == atn.states@, states_are(atn.states@, g@.states.len() as int, g@, ph_rules(g@, g@.states.len() as int)), rules_are(*atn, g@),
        jt <= jt_v@.len(), edges_are(jt_v@, l), l == outs(src_edges(g@), it - 1), rets_are(new_tr@, rets(g@, it - 1) + rets_in(g@, l, jt as int)), *atn == (ATN { states: atn.states, ..*old(atn) })
    decreases jt_v@.len() - jt
//@ at loop 2 start
        proof {
            assert(is_edge(jt_v@[jt - 1], l[jt - 1]));
            lem_out_in(src_edges(g@), g@.edges.len() as int, it - 1, jt - 1);
            if l[jt - 1] is Rule {
                let r = g@.states[tgt(l[jt - 1])].rule;
                let k = from(src_edges(g@), g@.edges.len() as int, it - 1, jt - 1);
                assert(edge_wf(g@, g@.edges[k])); assert(rule_wf(g@, r)); assert(st_wf(g@, tgt(l[jt - 1]))); assert(st_is(atn.states@[tgt(l[jt - 1])], g@, tgt(l[jt - 1]), ph_rules(g@, g@.states.len() as int)));
                assert(st_is(atn.states@[g@.rules[r].0], g@, g@.rules[r].0, ph_rules(g@, g@.states.len() as int)));
                assert((rets(g@, it - 1) + rets_in(g@, l, jt - 1)).push(ret(g@, l[jt - 1])) =~= rets(g@, it - 1) + rets_in(g@, l, jt as int));
            }
        }
//@ at before new_tr.drain
        proof { assert(src_edges(g@).len() == g@.edges.len()); }
//@ loop 3 for {iter=lt}
    invariant
        lt.snapshot@.end == atn.states@.len(), wf(g@), states_are(atn.states@, g@.states.len() as int, g@, ph_rules(g@, g@.states.len() as int)), outs_are(atn.states@, all_edges(g@), all_edges(g@).len() as int), *atn == (ATN { states: atn.states, ..*old(atn) })
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::mark_precedence_decisions
//@ sig
fn mark_precedence_decisions(&self, _atn: &mut ATN, _data: &mut Data, g: Ghost<G>)
    requires wf(g@), states_are(old(_atn).states@, g@.states.len() as int, g@, ph_decs(g@, g@.decs.len() as int)), outs_are(old(_atn).states@, all_edges(g@), all_edges(g@).len() as int), rules_are(*old(_atn), g@)
    ensures states_are(final(_atn).states@, g@.states.len() as int, g@, ph_all(g@)), outs_are(final(_atn).states@, all_edges(g@), all_edges(g@).len() as int), *final(_atn) == (ATN { states: final(_atn).states, ..*old(_atn) })
//@ rewrite _atn.states.iter() => &_atn.states
//@ rewrite state.get_transitions().iter().last().unwrap().get_target() => last_edge(state.get_transitions()).get_target()
//@ rewrite let mut precedence_states = Vec::new(); => let mut precedence_states: Vec<usize> = Vec::new();
//@ loop 0 for {index=it}
    invariant
        wf(g@), it <= it_v@.len(), it_v@ == _atn.states@, *_atn == *old(_atn), states_are(_atn.states@, g@.states.len() as int, g@, ph_decs(g@, g@.decs.len() as int)), outs_are(_atn.states@, all_edges(g@), all_edges(g@).len() as int), rules_are(*_atn, g@),
        forall|s: int| 0 <= s < it && g@.states[s].kind == 10 ==> listed(ints(precedence_states@), precedence_states@.len() as int, s) == #[trigger] prec(g@, s),
        forall|k: int| 0 <= k < precedence_states@.len() ==> idx(g@, #[trigger] precedence_states@[k] as int) && precedence_states@[k] < it && g@.states[precedence_states@[k] as int].kind == 10
    decreases it_v@.len() - it
//@ at loop 0 start
        let ghost ps0 = precedence_states@;
        proof {
            let s = it - 1;
            assert(st_is(it_v@[s], g@, s, ph_decs(g@, g@.decs.len() as int))); assert(st_wf(g@, s)); assert(it_v@[s].out_is(outs(all_edges(g@), s)));
            if g@.states[s].kind == 10 {
                let r = g@.states[s].rule;
                let o = outs(all_edges(g@), s);
                assert(rule_wf(g@, r)); lem_prefix(g@, s); assert(g@.states[s].kind == 10);
                assert(outs(src_edges(g@), s).len() > 0);
                lem_out_more(all_edges(g@), g@.edges.len() as int, all_edges(g@).len() as int, s);
                lem_targets(g@, s);
                let e = tgt(o[o.len() - 1]);
                assert(is_edge(it_v@[s].transitions@[o.len() - 1], o[o.len() - 1]));
                assert(idx(g@, e)); assert(st_is(it_v@[e], g@, e, ph_decs(g@, g@.decs.len() as int))); assert(st_wf(g@, e)); assert(it_v@[e].out_is(outs(all_edges(g@), e)));
                assert(st_is(it_v@[g@.rules[r].0], g@, g@.rules[r].0, ph_decs(g@, g@.decs.len() as int)));
                lem_targets(g@, e);
                if outs(all_edges(g@), e).len() > 0 {
                    let f = tgt(outs(all_edges(g@), e)[0]);
                    assert(is_edge(it_v@[e].transitions@[0], outs(all_edges(g@), e)[0]));
                    assert(idx(g@, f)); assert(st_is(it_v@[f], g@, f, ph_decs(g@, g@.decs.len() as int))); assert(st_wf(g@, f));
                }
            }
        }
//@ at loop 0 end
        proof {
            let s = it - 1;
            assert(precedence_states@ == ps0 || precedence_states@ == ps0.push(s as usize));
            if g@.states[s].kind == 10 { assert((precedence_states@ == ps0.push(s as usize)) == prec(g@, s)); }
            assert forall|q: int| 0 <= q < it && g@.states[q].kind == 10 implies listed(ints(precedence_states@), precedence_states@.len() as int, q) == #[trigger] prec(g@, q) by {
                lem_listed(ps0, precedence_states@, s as usize, q);
                if q == s { if listed(ints(ps0), ps0.len() as int, q) { let i = choose|i: int| 0 <= i < ps0.len() && #[trigger] ints(ps0)[i] == q; assert(ps0[i] < it - 1); } }
            }
        }
//@ loop 1 for {index=kt copy}
    invariant
        wf(g@), kt <= kt_v@.len(), states_are(_atn.states@, g@.states.len() as int, g@, ph_mark(g@, ints(kt_v@), kt as int)), outs_are(_atn.states@, all_edges(g@), all_edges(g@).len() as int), *_atn == (ATN { states: _atn.states, ..*old(_atn) }),
        forall|k: int| 0 <= k < kt_v@.len() ==> idx(g@, #[trigger] kt_v@[k] as int) && g@.states[kt_v@[k] as int].kind == 10
    decreases kt_v@.len() - kt
//@ at loop 1 start
        let ghost pre = _atn.states@;
//@ at loop 1 end
        proof {
            let l = ints(kt_v@);
            assert forall|q: int| 0 <= q < g@.states.len() implies st_is(#[trigger] _atn.states@[q], g@, q, ph_mark(g@, l, kt as int)) by {
                assert(st_is(pre[q], g@, q, ph_mark(g@, l, kt - 1))); assert(st_wf(g@, q));
                assert(listed(l, kt as int, q) == (listed(l, kt - 1, q) || l[kt - 1] == q)) by { if listed(l, kt as int, q) { let i = choose|i: int| 0 <= i < kt && #[trigger] l[i] == q; if i < kt - 1 { assert(listed(l, kt - 1, q)); } } if l[kt - 1] == q { assert(listed(l, kt as int, q)); } if listed(l, kt - 1, q) { let i = choose|i: int| 0 <= i < kt - 1 && #[trigger] l[i] == q; assert(l[i] == q); } }
            }
            assert forall|q: int| 0 <= q < g@.states.len() implies (#[trigger] _atn.states@[q]).out_is(out(all_edges(g@), all_edges(g@).len() as int, q)) by { assert(pre[q].out_is(out(all_edges(g@), all_edges(g@).len() as int, q))); }
        }
//@ at fn tail
        proof {
            assert forall|q: int| 0 <= q < g@.states.len() implies st_is(#[trigger] _atn.states@[q], g@, q, ph_all(g@)) by { assert(st_wf(g@, q)); if g@.states[q].kind == 10 { let b = prec(g@, q); } }
        }
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::read_decisions
//@ sig
fn read_decisions(&self, atn: &mut ATN, _data: &mut Data, g: Ghost<G>, t: Ghost<L>)
    requires old(_data).l() == s_decs(g@, t@), wf0(g@), old(atn).decision_to_state@.len() == 0, states_are(old(atn).states@, g@.states.len() as int, g@, ph_rules(g@, g@.states.len() as int)), outs_are(old(atn).states@, all_edges(g@), all_edges(g@).len() as int)
    ensures final(_data).l() == s_acts(g@, t@), refs(final(atn).decision_to_state@, g@.decs), states_are(final(atn).states@, g@.states.len() as int, g@, ph_decs(g@, g@.decs.len() as int)), outs_are(final(atn).states@, all_edges(g@), all_edges(g@).len() as int),
        *final(atn) == (ATN { states: final(atn).states, decision_to_state: final(atn).decision_to_state, ..*old(atn) })
//@ rewrite atn.states.get_mut(s).unwrap() => &mut atn.states[s]
//@ loop 0 for
    invariant
        wf0(g@), ndecisions == g@.decs.len(), _data.l() == e_ints(g@.decs, i as int, s_acts(g@, t@)), atn.decision_to_state@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] atn.decision_to_state@[k] == g@.decs[k],
        states_are(atn.states@, g@.states.len() as int, g@, ph_decs(g@, i as int)), outs_are(atn.states@, all_edges(g@), all_edges(g@).len() as int),
        *atn == (ATN { states: atn.states, decision_to_state: atn.decision_to_state, ..*old(atn) })
//@ at loop 0 start
        let ghost pre = atn.states@;
//@ at loop 0 end
        proof {
            assert forall|q: int| 0 <= q < g@.states.len() implies st_is(#[trigger] atn.states@[q], g@, q, ph_decs(g@, i + 1)) by { assert(st_is(pre[q], g@, q, ph_decs(g@, i as int))); assert(st_wf(g@, q)); }
            assert forall|q: int| 0 <= q < g@.states.len() implies (#[trigger] atn.states@[q]).out_is(out(all_edges(g@), all_edges(g@).len() as int, q)) by { assert(pre[q].out_is(out(all_edges(g@), all_edges(g@).len() as int, q))); }
        }
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::read_lexer_actions
//@ sig
fn read_lexer_actions(&self, atn: &mut ATN, _data: &mut Data, g: Ghost<G>, t: Ghost<L>)
    requires old(_data).l() == s_acts(g@, t@), g@.lexer, wf0(g@), old(atn).lexer_actions@.len() == 0
    ensures final(_data).l() == t@, acts_are(final(atn).lexer_actions@, g@.acts), *final(atn) == (ATN { lexer_actions: final(atn).lexer_actions, ..*old(atn) })
//@ loop 0 for
    invariant
        wf0(g@), nactions == g@.acts.len(), _data.l() == e_acts(g@.acts, _i as int, t@), atn.lexer_actions@.len() == _i, forall|k: int| 0 <= k < _i ==> act_is(#[trigger] atn.lexer_actions@[k], g@.acts[k]),
        *atn == (ATN { lexer_actions: atn.lexer_actions, ..*old(atn) })
//@ at loop 0 start
        proof { assert(act_wf(g@.acts[_i as int])); }
//@ end
//@ fn src/atn_deserializer.rs ATNDeserializer::verify_atn
//@ sig
fn verify_atn(&self, _atn: &mut ATN, _data: &mut Data) ensures *final(_atn) == *old(_atn)
//@ end
    // (bounded only: byte order and the table of identifiers)
    #[verifier::external_body]
    fn check_uuid(&self, data: &mut Data, u: Ghost<Seq<int>>, t: Ghost<L>) requires u@.len() == 8, forall|i: int| 0 <= i < 8 ==> word(#[trigger] u@[i]), old(data).l() == e_ints(u@, 0, t@) ensures final(data).l() == t@, supported(u@) { unimplemented!() }
    #[verifier::external_body]
    fn is_verify(&self) -> bool { unimplemented!() }
//@ fn src/atn_deserializer.rs ATNDeserializer::deserialize {pub}
//@ sig
fn deserialize(&self, data: Chars, version: Ghost<int>, u: Ghost<Seq<int>>, g: Ghost<G>) -> (r: ATN)
    requires decoded(data.units()) == serialized(version@, u@, g@), 0 <= version@ <= 0xFFFF, u@.len() == 8, forall|i: int| 0 <= i < 8 ==> word(#[trigger] u@[i]), wf(g@)
    ensures version@ == 3, supported(u@), is_atn(r, g@)
//@ rewrite data.clone().map(__f) => data.decode()
//@ rewrite self.check_uuid(&mut data) => self.check_uuid(&mut data, u, Ghost(s_atn(g@, L::N)))
//@ rewrite self.read_atn(__d) => self.read_atn(__d, g, Ghost(L::N))
//@ rewrite self.read_states(__a, __d) => self.read_states(__a, __d, g, Ghost(L::N))
//@ rewrite self.read_rules(__a, __d) => self.read_rules(__a, __d, g, Ghost(L::N))
//@ rewrite self.read_modes(__a, __d) => self.read_modes(__a, __d, g, Ghost(L::N))
//@ rewrite sets.extend(self.read_sets(__a, __d, __f)) => { let mut wide = self.read_sets32(__a, __d, Ghost(g@.sets32), Ghost(s_edges(g@, L::N))); sets.append(&mut wide); }
//@ rewrite self.read_sets(__a, __d, __f) => self.read_sets16(__a, __d, Ghost(g@.sets), Ghost(s_sets32(g@, L::N)))
//@ rewrite self.read_edges(__a, __d, __s) => self.read_edges(__a, __d, __s, g, Ghost(L::N))
//@ rewrite self.read_decisions(__a, __d) => self.read_decisions(__a, __d, g, Ghost(L::N))
//@ rewrite self.read_lexer_actions(__a, __d) => self.read_lexer_actions(__a, __d, g, Ghost(L::N))
//@ rewrite self.mark_precedence_decisions(__a, __d) => self.mark_precedence_decisions(__a, __d, g)
//@ rewrite self.deserialization_options.is_verify() => self.is_verify()
//@ end
}
// what was serialized: version, identifier, the automaton
pub open spec fn serialized(version: int, u: Seq<int>, g: G) -> L { L::C((version - 2) as isize, Box::new(e_ints(u, 0, s_atn(g, L::N)))) }
pub uninterp spec fn supported(u: Seq<int>) -> bool;
// everything the automaton consists of, and nothing else
pub open spec fn is_atn(a: ATN, g: G) -> bool {
    &&& kind_is(a, g)
    &&& states_are(a.states@, g.states.len() as int, g, ph_all(g))
    &&& outs_are(a.states@, all_edges(g), all_edges(g).len() as int)
    &&& rules_are(a, g) && refs(a.mode_to_start_state@, g.modes) && refs(a.decision_to_state@, g.decs)
    &&& if g.lexer { acts_are(a.lexer_actions@, g.acts) } else { a.lexer_actions@.len() == 0 }
}
// std::str::Chars: the code units
pub ghost enum U { N, C(char, Box<U>) }
#[verifier::external_body]
pub struct Chars { x: usize }
pub open spec fn dec_unit(c: int) -> int { (if c > 0xFFFF { c - 0x3000 } else { c }) - 2 }
pub open spec fn decoded(u: U) -> L decreases u { match u { U::N => L::N, U::C(c, t) => L::C(dec_unit(c as int) as isize, Box::new(decoded(*t))) } }
pub proof fn lem_unit(v: int) requires 0 <= v <= 0xFFFF ensures dec_unit(unit(v)) == dw(v), !(0xD800 <= unit(v) < 0xE000), 0 <= unit(v) <= 0x10FFFF { }
impl Chars {
    pub uninterp spec fn units(&self) -> U;
    // .clone().map(decode_unit)
    #[verifier::external_body]
    pub fn decode(&self) -> (r: Data) ensures r.l() == decoded(self.units()) { unimplemented!() }
}
pub open spec fn ph_rules(g: G, n: int) -> Ph { Ph { st: n, ..ph_read(g) } }
pub open spec fn ph_decs(g: G, n: int) -> Ph { Ph { dc: n, ..ph_rules(g, g.states.len() as int) } }
pub open spec fn ph_mark(g: G, l: Seq<int>, k: int) -> Ph { Ph { pr: |s: int| listed(l, k, s), ..ph_decs(g, g.decs.len() as int) } }
pub open spec fn ph_all(g: G) -> Ph { Ph { pr: |s: int| prec(g, s), ..ph_decs(g, g.decs.len() as int) } }
pub open spec fn ints(v: Seq<usize>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
pub fn last_edge(v: &Vec<AnyTransition>) -> (r: &AnyTransition) requires v@.len() > 0 ensures *r == v@[v@.len() - 1] { &v[v.len() - 1] }
pub open spec fn ret_is(x: (usize, AnyTransition), l: (int, TV)) -> bool { x.0 == l.0 && is_edge(x.1, l.1) && ranged(x.1) }
pub open spec fn rets_are(v: Seq<(usize, AnyTransition)>, l: Seq<(int, TV)>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> ret_is(#[trigger] v[i], l[i]) }
pub proof fn lem_listed(a: Seq<usize>, b: Seq<usize>, x: usize, q: int)
    requires b == a || b == a.push(x)
    ensures listed(ints(b), b.len() as int, q) == (listed(ints(a), a.len() as int, q) || (b == a.push(x) && x == q))
{
    if listed(ints(a), a.len() as int, q) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] ints(a)[i] == q; assert(ints(b)[i] == q); }
    if b == a.push(x) && x == q { assert(ints(b)[a.len() as int] == q); }
    if listed(ints(b), b.len() as int, q) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] ints(b)[i] == q; if i < a.len() { assert(ints(a)[i] == q); } }
}
// where the k-th edge leaving s comes from
pub open spec fn from(l: Seq<(int, TV)>, n: int, s: int, k: int) -> int decreases n { if n <= 0 { 0 } else if l[n - 1].0 == s && k == out(l, n - 1, s).len() { n - 1 } else { from(l, n - 1, s, k) } }
pub proof fn lem_out_in(l: Seq<(int, TV)>, n: int, s: int, k: int)
    requires 0 <= n <= l.len(), 0 <= k < out(l, n, s).len()
    ensures 0 <= from(l, n, s, k) < n, l[from(l, n, s, k)] == (s, out(l, n, s)[k])
    decreases n
{
    if n > 0 { if l[n - 1].0 == s && k == out(l, n - 1, s).len() { } else { lem_out_in(l, n - 1, s, k); } }
}
pub proof fn lem_nodup_out(l: Seq<(int, TV)>, n: int)
    requires nodup(l), 0 <= n < l.len()
    ensures forall|k: int| 0 <= k < out(l, n, l[n].0).len() ==> !dup(#[trigger] out(l, n, l[n].0)[k], l[n].1)
{
    assert forall|k: int| 0 <= k < out(l, n, l[n].0).len() implies !dup(#[trigger] out(l, n, l[n].0)[k], l[n].1) by { lem_out_in(l, n, l[n].0, k); let i = from(l, n, l[n].0, k); assert(l[i].0 == l[n].0); }
}
pub proof fn lem_same_out(a: Seq<(int, TV)>, b: Seq<(int, TV)>, n: int, s: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures out(a, n, s) == out(b, n, s)
    decreases n
{ if n > 0 { lem_same_out(a, b, n - 1, s); } }
pub proof fn lem_prefix(g: G, s: int) ensures out(all_edges(g), g.edges.len() as int, s) == outs(src_edges(g), s) { lem_same_out(all_edges(g), src_edges(g), g.edges.len() as int, s); }
pub proof fn lem_out_more(l: Seq<(int, TV)>, m: int, n: int, s: int) requires 0 <= m <= n ensures out(l, m, s).len() <= out(l, n, s).len() decreases n - m { if m < n { lem_out_more(l, m, n - 1, s); } }
pub proof fn lem_stop(l: Seq<GS>, n: int, r: int) requires 0 <= n ensures 0 <= stop_of(l, n, r), stop_of(l, n, r) < n || stop_of(l, n, r) == 0 decreases n { if n > 0 { lem_stop(l, n - 1, r); } }
pub open spec fn ret_ok(g: G, x: (int, TV)) -> bool { idx(g, x.0) && idx(g, tgt(x.1)) }
pub proof fn lem_rets_in(g: G, l: Seq<TV>, k: int)
    requires 0 <= k <= l.len(), g.states.len() > 0, forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Rule ==> idx(g, l[i]->Rule_f)
    ensures forall|i: int| 0 <= i < rets_in(g, l, k).len() ==> ret_ok(g, #[trigger] rets_in(g, l, k)[i])
    decreases k
{
    if k > 0 {
        lem_rets_in(g, l, k - 1);
        let a = rets_in(g, l, k - 1);
        if l[k - 1] is Rule { lem_stop(g.states, g.states.len() as int, g.states[tgt(l[k - 1])].rule); assert(ret_ok(g, ret(g, l[k - 1]))); assert(rets_in(g, l, k) == a.push(ret(g, l[k - 1]))); }
        else { assert(rets_in(g, l, k) == a); }
        assert forall|i: int| 0 <= i < rets_in(g, l, k).len() implies ret_ok(g, #[trigger] rets_in(g, l, k)[i]) by { if i < a.len() { assert(ret_ok(g, a[i])); } }
    }
}
pub proof fn lem_rets_ok(g: G, n: int)
    requires wf0(g), 0 <= n <= g.states.len()
    ensures forall|i: int| 0 <= i < rets(g, n).len() ==> ret_ok(g, #[trigger] rets(g, n)[i])
    decreases n
{
    if n > 0 {
        lem_rets_ok(g, n - 1);
        let l = outs(src_edges(g), n - 1);
        assert forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is Rule implies idx(g, l[i]->Rule_f) by { lem_out_in(src_edges(g), g.edges.len() as int, n - 1, i); assert(edge_wf(g, g.edges[from(src_edges(g), g.edges.len() as int, n - 1, i)])); }
        lem_rets_in(g, l, l.len() as int);
        let (a, b) = (rets(g, n - 1), rets_in(g, l, l.len() as int));
        assert forall|i: int| 0 <= i < rets(g, n).len() implies ret_ok(g, #[trigger] rets(g, n)[i]) by { if i < a.len() { assert(rets(g, n)[i] == a[i]); } else { assert(rets(g, n)[i] == b[i - a.len()]); } }
    }
}
// edges lead to states
pub proof fn lem_targets(g: G, s: int)
    requires wf0(g)
    ensures forall|k: int| 0 <= k < outs(all_edges(g), s).len() ==> idx(g, tgt(#[trigger] outs(all_edges(g), s)[k]))
{
    let l = all_edges(g);
    assert forall|k: int| 0 <= k < outs(l, s).len() implies idx(g, tgt(#[trigger] outs(l, s)[k])) by {
        lem_out_in(l, l.len() as int, s, k);
        let i = from(l, l.len() as int, s, k);
        if i < g.edges.len() { assert(l[i] == src_edges(g)[i]); assert(edge_wf(g, g.edges[i])); }
        else { lem_rets_ok(g, g.states.len() as int); assert(l[i] == rets(g, g.states.len() as int)[i - g.edges.len()]); }
    }
}
pub proof fn lem_added(g: G, a: Seq<BaseATNState>, b: Seq<BaseATNState>, n: int, s: int, p: Ph)
    requires
        0 <= n < all_edges(g).len(), s == all_edges(g)[n].0, idx(g, s), states_are(a, g.states.len() as int, g, p), outs_are(a, all_edges(g), n), b.len() == a.len(), b == a.update(s, b[s]), b[s].same_but_edges(&a[s]),
        b[s].out_is(out(all_edges(g), n, s).push(all_edges(g)[n].1))
    ensures states_are(b, g.states.len() as int, g, p), outs_are(b, all_edges(g), n + 1)
{
    assert forall|q: int| 0 <= q < b.len() implies st_is(#[trigger] b[q], g, q, p) by { assert(st_is(a[q], g, q, p)); }
    assert forall|q: int| 0 <= q < b.len() implies (#[trigger] b[q]).out_is(out(all_edges(g), n + 1, q)) by { assert(a[q].out_is(out(all_edges(g), n, q))); }
}
pub open spec fn rules_are(a: ATN, g: G) -> bool { starts_are(a.rule_to_start_state@, g, g.rules.len() as int) && types_are(a.rule_to_token_type@, g, g.rules.len() as int) && stops_are(a.rule_to_stop_state@, g, g.states.len() as int) }
pub proof fn lem_iv_step(l: Seq<(int, int)>, n: int)
    requires 0 <= n < l.len()
    ensures forall|v: int| #[trigger] in_iv(l, n + 1, v) == (in_iv(l, n, v) || l[n].0 <= v <= l[n].1)
{
    assert forall|v: int| #[trigger] in_iv(l, n + 1, v) == (in_iv(l, n, v) || l[n].0 <= v <= l[n].1) by {
        if in_iv(l, n, v) { let i = choose|i: int| 0 <= i < n && (#[trigger] l[i]).0 <= v <= l[i].1; assert(0 <= i < n + 1 && l[i].0 <= v <= l[i].1); }
        if l[n].0 <= v <= l[n].1 { assert(0 <= n < n + 1); }
        if in_iv(l, n + 1, v) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] l[i]).0 <= v <= l[i].1; if i < n { assert(in_iv(l, n, v)); } }
    }
}
pub open spec fn ph0() -> Ph { Ph { ng: 0, lr: 0, st: 0, dc: 0, pr: |s: int| false } }
pub open spec fn ph_read(g: G) -> Ph { Ph { ng: g.nongreedy.len() as int, lr: g.leftrec.len() as int, ..ph0() } }
pub proof fn lem_mask(x: isize) ensures 0 <= x < 0x10000 ==> x & 0xFFFF == x, -0x10000 <= x < 0 ==> x & 0xFFFF == x + 0x10000 {
    assert(0 <= x < 0x10000 ==> x & 0xFFFF == x) by (bit_vector);
    assert(-0x10000 <= x < 0 ==> x & 0xFFFF == add(x, 0x10000)) by (bit_vector);
}
} // verus!
fn main() {}
