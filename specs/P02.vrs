#![allow(unused)]
#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use std::borrow::Cow;
verus! {
global size_of usize == 8;
//@ include iset_contract.inc

pub type ATNStateRef = usize;
//@ item src/lexer.rs const LEXER_MIN_CHAR_VALUE
//@ item src/lexer.rs const LEXER_MAX_CHAR_VALUE

// the symbols an optional label denotes
pub open spec fn label_is(l: Option<Cow<'_, IntervalSet>>, d: spec_fn(int) -> bool) -> bool {
    match l {
        Some(Cow::Owned(s)) => s.wf() && forall|v: int| #[trigger] s.mem(v) == d(v),
        Some(Cow::Borrowed(s)) => s.wf() && forall|v: int| #[trigger] s.mem(v) == d(v),
        None => false,
    }
}

// An edge: `denotes(v, lo, hi)` is the property's own definition of what the edge stands for
// (v ranges over all symbols, [lo, hi] is the vocabulary).
pub trait Transition {
    spec fn denotes(&self, v: int, lo: int, hi: int) -> bool;
    spec fn eps(&self) -> bool;
    spec fn tgt(&self) -> ATNStateRef;
    spec fn ok(&self) -> bool;
    fn get_target(&self) -> (r: ATNStateRef)
        ensures r == self.tgt();
    fn set_target(&mut self, s: ATNStateRef)
        ensures final(self).tgt() == s,
                forall|v: int, lo: int, hi: int| #[trigger] final(self).denotes(v, lo, hi) == old(self).denotes(v, lo, hi);
    fn matches(&self, symbol: isize, min_vocab_symbol: isize, max_vocab_symbol: isize) -> (r: bool)
        requires self.ok()
        ensures r == self.denotes(symbol as int, min_vocab_symbol as int, max_vocab_symbol as int);
//@ fn src/transition.rs trait Transition::get_reachable_target {ret=r nopub}
    requires self.ok()
    ensures r == (if self.denotes(symbol as int, 0, 0x10FFFF) { Some(self.tgt()) } else { None })
//@ end
}
// default bodies used by the edge kinds that do not override them
pub struct Defaults { }
impl Defaults {
//@ fn src/transition.rs trait Transition::is_epsilon {ret=r name=is_epsilon_default}
    ensures r == false
//@ end
//@ fn src/transition.rs trait Transition::get_label {ret=r name=get_label_default}
    ensures r is None
//@ end
}
//@ item src/transition.rs struct AtomTransition
//@ item src/transition.rs struct RuleTransition
//@ item src/transition.rs struct EpsilonTransition
//@ item src/transition.rs struct RangeTransition
//@ item src/transition.rs struct ActionTransition
//@ item src/transition.rs struct SetTransition
//@ item src/transition.rs struct NotSetTransition
//@ item src/transition.rs struct WildcardTransition
//@ item src/transition.rs struct PredicateTransition
//@ item src/transition.rs struct PrecedencePredicateTransition

impl Transition for AtomTransition {
    open spec fn denotes(&self, v: int, lo: int, hi: int) -> bool { v == self.label }
    open spec fn eps(&self) -> bool { false }
    open spec fn tgt(&self) -> ATNStateRef { self.target }
    open spec fn ok(&self) -> bool { in_range(self.label as int) }
//@ fn src/transition.rs Transition for AtomTransition::get_target {nopub ret=r}
//@ end
//@ fn src/transition.rs Transition for AtomTransition::set_target {nopub}
//@ end
//@ fn src/transition.rs Transition for AtomTransition::matches {nopub ret=r}
//@ end
}
impl AtomTransition {
//@ fn src/transition.rs Transition for AtomTransition::get_label {ret=r}
    requires self.ok()
    ensures label_is(r, |v: int| self.denotes(v, 0, 0))
//@ end
}

impl Transition for RangeTransition {
    open spec fn denotes(&self, v: int, lo: int, hi: int) -> bool { self.start <= v <= self.stop }
    open spec fn eps(&self) -> bool { false }
    open spec fn tgt(&self) -> ATNStateRef { self.target }
    open spec fn ok(&self) -> bool { in_range(self.start as int) && in_range(self.stop as int) }
//@ fn src/transition.rs Transition for RangeTransition::get_target {nopub ret=r}
//@ end
//@ fn src/transition.rs Transition for RangeTransition::set_target {nopub}
//@ end
//@ fn src/transition.rs Transition for RangeTransition::matches {nopub ret=r}
//@ end
}
impl RangeTransition {
//@ fn src/transition.rs Transition for RangeTransition::get_label {ret=r}
    requires self.ok()
    ensures label_is(r, |v: int| self.denotes(v, 0, 0))
//@ end
}

impl Transition for SetTransition {
    open spec fn denotes(&self, v: int, lo: int, hi: int) -> bool { self.set.mem(v) }
    open spec fn eps(&self) -> bool { false }
    open spec fn tgt(&self) -> ATNStateRef { self.target }
    open spec fn ok(&self) -> bool { self.set.wf() }
//@ fn src/transition.rs Transition for SetTransition::get_target {nopub ret=r}
//@ end
//@ fn src/transition.rs Transition for SetTransition::set_target {nopub}
//@ end
//@ fn src/transition.rs Transition for SetTransition::matches {nopub ret=r}
//@ end
}
impl SetTransition {
//@ fn src/transition.rs Transition for SetTransition::get_label {ret=r}
    requires self.ok()
    ensures label_is(r, |v: int| self.denotes(v, 0, 0))
//@ end
}

impl Transition for NotSetTransition {
    open spec fn denotes(&self, v: int, lo: int, hi: int) -> bool { lo <= v <= hi && !self.set.mem(v) }
    open spec fn eps(&self) -> bool { false }
    open spec fn tgt(&self) -> ATNStateRef { self.target }
    open spec fn ok(&self) -> bool { self.set.wf() }
//@ fn src/transition.rs Transition for NotSetTransition::get_target {nopub ret=r}
//@ end
//@ fn src/transition.rs Transition for NotSetTransition::set_target {nopub}
//@ end
//@ fn src/transition.rs Transition for NotSetTransition::matches {nopub ret=r}
//@ end
}
impl NotSetTransition {
//@ fn src/transition.rs Transition for NotSetTransition::get_label {ret=r}
    // by convention the label of a negated set is the excluded set (its users complement it)
    requires self.ok()
    ensures label_is(r, |v: int| self.set.mem(v))
//@ end
}

impl Transition for WildcardTransition {
    open spec fn denotes(&self, v: int, lo: int, hi: int) -> bool { lo <= v <= hi }
    open spec fn eps(&self) -> bool { false }
    open spec fn tgt(&self) -> ATNStateRef { self.target }
    open spec fn ok(&self) -> bool { true }
//@ fn src/transition.rs Transition for WildcardTransition::get_target {nopub ret=r}
//@ end
//@ fn src/transition.rs Transition for WildcardTransition::set_target {nopub}
//@ end
//@ fn src/transition.rs Transition for WildcardTransition::matches {nopub ret=r}
//@ end
}
impl Transition for EpsilonTransition {
    open spec fn denotes(&self, v: int, lo: int, hi: int) -> bool { false }
    open spec fn eps(&self) -> bool { true }
    open spec fn tgt(&self) -> ATNStateRef { self.target }
    open spec fn ok(&self) -> bool { true }
//@ fn src/transition.rs Transition for EpsilonTransition::get_target {nopub ret=r}
//@ end
//@ fn src/transition.rs Transition for EpsilonTransition::set_target {nopub}
//@ end
//@ fn src/transition.rs Transition for EpsilonTransition::matches {nopub ret=r}
//@ end
}
impl EpsilonTransition {
//@ fn src/transition.rs Transition for EpsilonTransition::is_epsilon {ret=r}
    ensures r == self.eps()
//@ end
}
impl Transition for ActionTransition {
    open spec fn denotes(&self, v: int, lo: int, hi: int) -> bool { false }
    open spec fn eps(&self) -> bool { true }
    open spec fn tgt(&self) -> ATNStateRef { self.target }
    open spec fn ok(&self) -> bool { true }
//@ fn src/transition.rs Transition for ActionTransition::get_target {nopub ret=r}
//@ end
//@ fn src/transition.rs Transition for ActionTransition::set_target {nopub}
//@ end
//@ fn src/transition.rs Transition for ActionTransition::matches {nopub ret=r}
//@ end
}
impl ActionTransition {
//@ fn src/transition.rs Transition for ActionTransition::is_epsilon {ret=r}
    ensures r == self.eps()
//@ end
}
impl Transition for PredicateTransition {
    open spec fn denotes(&self, v: int, lo: int, hi: int) -> bool { false }
    open spec fn eps(&self) -> bool { true }
    open spec fn tgt(&self) -> ATNStateRef { self.target }
    open spec fn ok(&self) -> bool { true }
//@ fn src/transition.rs Transition for PredicateTransition::get_target {nopub ret=r}
//@ end
//@ fn src/transition.rs Transition for PredicateTransition::set_target {nopub}
//@ end
//@ fn src/transition.rs Transition for PredicateTransition::matches {nopub ret=r}
//@ end
}
impl PredicateTransition {
//@ fn src/transition.rs Transition for PredicateTransition::is_epsilon {ret=r}
    ensures r == self.eps()
//@ end
}
impl Transition for PrecedencePredicateTransition {
    open spec fn denotes(&self, v: int, lo: int, hi: int) -> bool { false }
    open spec fn eps(&self) -> bool { true }
    open spec fn tgt(&self) -> ATNStateRef { self.target }
    open spec fn ok(&self) -> bool { true }
//@ fn src/transition.rs Transition for PrecedencePredicateTransition::get_target {nopub ret=r}
//@ end
//@ fn src/transition.rs Transition for PrecedencePredicateTransition::set_target {nopub}
//@ end
//@ fn src/transition.rs Transition for PrecedencePredicateTransition::matches {nopub ret=r}
//@ end
}
impl PrecedencePredicateTransition {
//@ fn src/transition.rs Transition for PrecedencePredicateTransition::is_epsilon {ret=r}
    ensures r == self.eps()
//@ end
}
// invoking a rule consumes nothing by itself; such an edge is never asked for a symbol
impl RuleTransition {
//@ fn src/transition.rs Transition for RuleTransition::get_target {ret=r}
    ensures r == self.target
//@ end
//@ fn src/transition.rs Transition for RuleTransition::set_target
    ensures final(self).target == s, final(self).follow_state == old(self).follow_state, final(self).rule_index == old(self).rule_index, final(self).precedence == old(self).precedence
//@ end
//@ fn src/transition.rs Transition for RuleTransition::is_epsilon {ret=r}
    ensures r
//@ end
}
// end of input is matched only by an edge that names it
pub proof fn eof_only_named(a: AtomTransition, r: RangeTransition, s: SetTransition, n: NotSetTransition, w: WildcardTransition)
    ensures a.denotes(-1, 0, 0x10FFFF) <==> a.label == -1,
            r.denotes(-1, 0, 0x10FFFF) <==> r.start <= -1 <= r.stop,
            s.denotes(-1, 0, 0x10FFFF) <==> s.set.mem(-1),
            !n.denotes(-1, 0, 0x10FFFF), !w.denotes(-1, 0, 0x10FFFF)
{ }
} // verus!
fn main() {}
