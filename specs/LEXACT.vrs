#![allow(unused)]
#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/lexer.rs const LEXER_MORE
//@ item src/lexer.rs const LEXER_SKIP

// ---------- what a lexer's commands act on ---------------------------------
pub ghost struct LV {
    pub channel: int,
    pub mode: int,
    pub stack: Seq<int>,
    pub ttype: int,
    // position in the input
    pub idx: int,
    // calls of user code: rule, action, input position
    pub log: Seq<(int, int, int)>,
}
pub open spec fn push(v: LV, m: int) -> LV { LV { stack: v.stack.push(v.mode), mode: m, ..v } }
pub open spec fn pop(v: LV) -> LV { if v.stack.len() == 0 { v } else { LV { stack: v.stack.drop_last(), mode: v.stack.last(), ..v } } }

// user code (custom action) may change anything except the input position; the call is logged
pub uninterp spec fn user(v: LV, rule: int, action: int) -> LV;
pub open spec fn called(v: LV, rule: int, action: int) -> LV {
    LV { idx: v.idx, log: v.log.push((rule, action, v.idx)), ..user(v, rule, action) }
}

// the interface commands use (BaseLexer's implementations are verified below)
pub trait Lexer {
    spec fn lv(&self) -> LV;
    fn set_channel(&mut self, v: isize) ensures final(self).lv() == (LV { channel: v as int, ..old(self).lv() });
    fn push_mode(&mut self, m: usize) ensures final(self).lv() == push(old(self).lv(), m as int);
    fn pop_mode(&mut self) -> (r: Option<usize>) ensures final(self).lv() == pop(old(self).lv());
    fn set_type(&mut self, t: isize) ensures final(self).lv() == (LV { ttype: t as int, ..old(self).lv() });
    fn set_mode(&mut self, m: usize) ensures final(self).lv() == (LV { mode: m as int, ..old(self).lv() });
    fn more(&mut self) ensures final(self).lv() == (LV { ttype: -2, ..old(self).lv() });
    fn skip(&mut self) ensures final(self).lv() == (LV { ttype: -3, ..old(self).lv() });
    fn action(&mut self, ctx: Option<usize>, rule_index: isize, action_index: isize) ensures final(self).lv() == called(old(self).lv(), rule_index as int, action_index as int);
    fn input_index(&mut self) -> (r: isize) ensures r == old(self).lv().idx, final(self).lv() == old(self).lv(), r >= 0;
    fn input_seek(&mut self, i: isize) ensures final(self).lv() == (LV { idx: i as int, ..old(self).lv() });
}

//@ item src/lexer_action.rs enum LexerAction
use crate::LexerAction::LexerIndexedCustomAction;

// what one command does
pub open spec fn effect(a: LexerAction, v: LV) -> LV decreases a {
    match a {
        LexerAction::LexerChannelAction(c) => LV { channel: c as int, ..v },
        LexerAction::LexerCustomAction { rule_index, action_index } => called(v, rule_index as int, action_index as int),
        LexerAction::LexerModeAction(m) => LV { mode: (m as usize) as int, ..v },
        LexerAction::LexerMoreAction => LV { ttype: -2, ..v },
        LexerAction::LexerPopModeAction => pop(v),
        LexerAction::LexerPushModeAction(m) => push(v, (m as usize) as int),
        LexerAction::LexerSkipAction => LV { ttype: -3, ..v },
        LexerAction::LexerTypeAction(t) => LV { ttype: t as int, ..v },
        LexerAction::LexerIndexedCustomAction { offset, action } => effect(*action, v),
    }
}
pub open spec fn positional(a: LexerAction) -> bool {
    a is LexerCustomAction || a is LexerIndexedCustomAction
}
impl LexerAction {
//@ fn src/lexer_action.rs LexerAction::is_position_dependent {ret=r}
    ensures r == positional(*self)
//@ end
//@ fn src/lexer_action.rs LexerAction::execute
//@ sig
fn execute<T: Lexer>(&self, lexer: &mut T)
    ensures final(lexer).lv() == effect(*self, old(lexer).lv())
    decreases *self
//@ end
}
#[verifier::external_body]
pub fn clone_action(a: &LexerAction) -> (r: LexerAction) ensures r == *a { unimplemented!() }

//@ item src/lexer_action_executor.rs struct LexerActionExecutor

// the executor does not move the input itself; the position an action is to see:
pub open spec fn at(a: LexerAction, start: int, stop: int, cur: int) -> int {
    match a {
        LexerAction::LexerIndexedCustomAction { offset, action } => start + offset,
        LexerAction::LexerCustomAction { .. } => stop,
        _ => cur,
    }
}
// actions run in order, each once, each seeing its position
pub open spec fn run(acts: Seq<LexerAction>, n: int, start: int, stop: int, v: LV) -> LV decreases n {
    if n <= 0 { v } else {
        let w = run(acts, n - 1, start, stop, v);
        effect(acts[n - 1], LV { idx: at(acts[n - 1], start, stop, w.idx), ..w })
    }
}
// user code and commands leave the input position alone
pub proof fn lemma_idx(a: LexerAction, v: LV) ensures effect(a, v).idx == v.idx decreases a {
    match a { LexerAction::LexerIndexedCustomAction { offset, action } => { lemma_idx(*action, v); } _ => {} }
}
pub open spec fn offsets_ok(acts: Seq<LexerAction>, start: int) -> bool {
    forall|i: int| 0 <= i < acts.len() ==> match #[trigger] acts[i] {
        LexerAction::LexerIndexedCustomAction { offset, action } => 0 <= offset && start + offset <= isize::MAX,
        _ => true,
    }
}
// an action once given a position keeps it; a positional one without gets `offset`
pub open spec fn fixed(a: LexerAction, offset: isize) -> LexerAction {
    if a is LexerCustomAction { LexerAction::LexerIndexedCustomAction { offset, action: Box::new(a) } } else { a }
}
impl LexerActionExecutor {
//@ fn src/lexer_action_executor.rs LexerActionExecutor::new {ret=r}
    ensures r.lexer_actions@ == lexer_actions@
//@ rewrite lexer_actions.iter().fold(MurmurHasher::default(), |mut acc, x| { x.hash(&mut acc); acc }).finish() => hash_of(&lexer_actions)
//@ end
//@ fn src/lexer_action_executor.rs LexerActionExecutor::new_copy_append {ret=r}
    ensures r.lexer_actions@ == (match old_ { Some(o) => o.lexer_actions@, None => Seq::empty() }).push(lexer_action)
//@ rename old => old_
//@ rewrite __o.cloned().unwrap_or_else(|| __e) => match __o { Some(o) => clone_exec(o), None => __e }
//@ end
//@ fn src/lexer_action_executor.rs LexerActionExecutor::depends_on_offset {ret=r}
    ensures r == exists|i: int| 0 <= i < self.lexer_actions@.len() && (#[trigger] self.lexer_actions@[i]) is LexerCustomAction
//@ rewrite self.lexer_actions.iter().any(|__a| __body) => any_action(&self.lexer_actions, |__a: &LexerAction| -> (b: bool) ensures b == (*__a is LexerCustomAction) { __body })
//@ end
//@ fn src/lexer_action_executor.rs LexerActionExecutor::fix_offset_before_match
//@ sig
fn fix_offset_before_match(self, offset: isize) -> (r: LexerActionExecutor)
    ensures r.lexer_actions@ == self.lexer_actions@.map_values(|a: LexerAction| fixed(a, offset))
//@ rename self => this
//@ rewrite __a.clone() => clone_action(__a)
//@ rewrite for __p in __v.iter_mut() { __body } => { let ghost v0 = __v@; let mut gi: usize = 0; while gi < __v.len() \
   invariant gi <= __v@.len(), __v@.len() == v0.len(), forall|i: int| 0 <= i < gi ==> __v@[i] == fixed(#[trigger] v0[i], offset), forall|i: int| gi <= i < v0.len() ==> __v@[i] == #[trigger] v0[i] decreases v0.len() - gi \
   { { let __p = &mut __v[gi]; __body } gi = gi + 1; } assert(__v@ =~= v0.map_values(|a: LexerAction| fixed(a, offset))); }
//@ at fn start
    let mut this = self;
//@ end
//@ fn src/lexer_action_executor.rs LexerActionExecutor::execute
//@ sig
fn execute<L: Lexer>(&self, lexer: &mut L, start_index: isize)
    requires offsets_ok(self.lexer_actions@, start_index as int), start_index >= 0
    ensures ({
        let v = old(lexer).lv();
        let w = run(self.lexer_actions@, self.lexer_actions@.len() as int, start_index as int, v.idx, v);
        // every command and action took effect once, in order; the input is back at the end of the match
        final(lexer).lv() == (LV { idx: v.idx, ..w })
    })
//@ rewrite lexer.input().index() => lexer.input_index()
//@ rewrite lexer.input().seek(__x) => lexer.input_seek(__x)
//@ loop 0 for {iter=it}
    invariant
        start_index >= 0, stop_index == old(lexer).lv().idx,
        offsets_ok(self.lexer_actions@, start_index as int),
        it.seq() == self.lexer_actions@.map_values(|x: LexerAction| &x),
        lexer.lv() == run(self.lexer_actions@, it.index() as int, start_index as int, stop_index as int, old(lexer).lv()),
        requires_seek == (lexer.lv().idx != stop_index),
//@ at loop 0 start
    proof {
        assert(it.seq()[it.index() as int] == &self.lexer_actions@[it.index() as int]);
        assert(*action == self.lexer_actions@[it.index() as int]);
    }
//@ at before action.execute(lexer)
    proof { lemma_idx(*action, lexer.lv()); }
//@ end
}
// slice::Iter::any
#[verifier::external_body]
pub fn any_action<F: Fn(&LexerAction) -> bool>(v: &Vec<LexerAction>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],))
    ensures r ==> exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && f.ensures((&v@[i],), true),
            !r ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((&v@[i],), false)
{ v.iter().any(f) }
#[verifier::external_body]
pub fn hash_of(v: &Vec<LexerAction>) -> u64 { 0 }
#[verifier::external_body]
pub fn clone_exec(v: &LexerActionExecutor) -> (r: LexerActionExecutor) ensures r == *v { unimplemented!() }
} // verus!
fn main() {}
