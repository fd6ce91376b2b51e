#![allow(unused)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@ include cfg_types.inc
//@ item src/atn.rs const INVALID_ALT
//@ item src/prediction_mode.rs enum PredictionMode {derive=Structural,PartialEq,Eq,Clone,Copy}
impl ATNConfig {
//@ fn src/atn_config.rs ATNConfig::new {ret=r}
    ensures r.v() == (Cfg { state: state as int, alt: alt as int, ctx: ctx_v(context), sem: none_v(), up: 0, supp: false, kind: None })
//@ rewrite SemanticContext::NONE => SemanticContext::none()
//@ end
//@ fn src/atn_config.rs ATNConfig::new_with_semantic {ret=r}
    ensures r.v() == (Cfg { state: state as int, alt: alt as int, ctx: ctx_v(context), sem: semantic_context.v(), up: 0, supp: false, kind: None })
//@ end
//@ fn src/atn_config.rs ATNConfig::get_state {ret=r}
    ensures r == self.v().state
//@ end
//@ fn src/atn_config.rs ATNConfig::get_alt {ret=r}
    ensures r == self.v().alt
//@ end
//@ fn src/atn_config.rs ATNConfig::get_context {ret=r}
    ensures match r { Some(c) => self.v().ctx == Some(c.v()), None => self.v().ctx is None }
//@ rewrite self.context.as_ref() => (match &self.context { Some(__x) => Some(__x), None => None })
//@ end
}
// ---------- the configuration set, as P13 proves it -------------------------------------
pub uninterp spec fn merged(a: int, b: int, root_is_wildcard: bool) -> int;
pub open spec fn mg(a: int, b: int, w: bool) -> int { if a == b { a } else { merged(a, b, w) } }
pub open spec fn maxi(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn join(a: Cfg, b: Cfg, w: bool) -> Cfg { Cfg { ctx: Some(mg(a.ctx->0, b.ctx->0, w)), up: maxi(a.up, b.up), supp: a.supp || b.supp, ..a } }
pub open spec fn lkey(c: Cfg) -> (int, int, int) { (c.state, c.alt, c.sem) }
pub open spec fn fresh(o: Seq<Cfg>, c: Cfg) -> bool { forall|i: int| 0 <= i < o.len() ==> lkey(#[trigger] o[i]) != lkey(c) }
pub open spec fn added(o: Seq<Cfg>, n: Seq<Cfg>, c: Cfg, w: bool) -> bool {
    ||| exists|i: int| 0 <= i < o.len() && lkey(#[trigger] o[i]) == lkey(c) && n == o.update(i, join(o[i], c, w))
    ||| fresh(o, c) && n == o.push(c)
}
#[verifier::external_body]
pub struct ATNConfigSet { x: usize }
impl ATNConfigSet {
    pub uninterp spec fn cfgs(&self) -> Seq<Cfg>;
    pub uninterp spec fn full(&self) -> bool;
    pub uninterp spec fn sem(&self) -> bool;
    pub open spec fn ok(&self) -> bool { okcfgs(self.cfgs()) }
    #[verifier::external_body]
    pub fn new_base_atnconfig_set(full_ctx: bool) -> (r: ATNConfigSet) ensures r.cfgs() =~= Seq::<Cfg>::empty(), r.full() == full_ctx, !r.sem() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, config: Box<ATNConfig>) -> (r: bool)
        requires config.v().ctx is Some
        ensures added(old(self).cfgs(), final(self).cfgs(), config.v(), !old(self).full()), final(self).full() == old(self).full()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn has_semantic_context(&self) -> (r: bool) ensures r == self.sem() { unimplemented!() }
    #[verifier::external_body]
    pub fn length(&self) -> (r: usize) ensures r == self.cfgs().len() { unimplemented!() }
    // the i-th of get_items()
    #[verifier::external_body]
    pub fn item(&self, i: usize) -> (r: &ATNConfig) requires i < self.cfgs().len() ensures r.v() == self.cfgs()[i as int] { unimplemented!() }
}
pub open spec fn okcfgs(c: Seq<Cfg>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).ctx is Some && c[i].alt >= 0 }
//@ include alts.inc
// the configurations with their predicates dropped
pub open spec fn stripped(c: Cfg) -> Cfg { Cfg { state: c.state, alt: c.alt, ctx: c.ctx, sem: none_v(), up: 0, supp: false, kind: None } }
pub open spec fn strip_to(c: Seq<Cfg>, st: Seq<Seq<Cfg>>) -> bool {
    &&& st.len() == c.len() + 1 && st[0].len() == 0
    &&& forall|i: int| 0 <= i < c.len() ==> added(#[trigger] st[i], st[i + 1], stripped(c[i]), false)
}
pub proof fn lemma_strip_ok(c: Seq<Cfg>, st: Seq<Seq<Cfg>>, n: int)
    requires strip_to(c, st), okcfgs(c), 0 <= n <= c.len()
    ensures okcfgs(st[n])
    decreases n
{
    if n > 0 { lemma_strip_ok(c, st, n - 1); assert(added(st[n - 1], st[n - 1 + 1], stripped(c[n - 1]), false)); let _ = c[n - 1]; }
}
pub open spec fn sll_verdict(c: Seq<Cfg>) -> bool { conflict(c) && !lone_state(c) }

//@ fn src/prediction_mode.rs has_sll_conflict_terminating_prediction {ret=r}
    requires configs.ok()
    ensures mode != PredictionMode::SLL || !configs.sem() ==> r == sll_verdict(configs.cfgs()),
        mode == PredictionMode::SLL && configs.sem() ==> exists|st: Seq<Seq<Cfg>>| #[trigger] strip_to(configs.cfgs(), st) && r == sll_verdict(st.last())
//@ rewrite configs.get_items().for_each(|it| { __body }) => { let mut gi: usize = 0; let ghost mut st: Seq<Seq<Cfg>> = seq![Seq::<Cfg>::empty()]; \
    while gi < configs.length() invariant gi <= configs.cfgs().len(), configs.ok(), dup.full(), st.len() == gi + 1, st[0].len() == 0, st.last() == dup.cfgs(), \
        forall|i: int| 0 <= i < gi ==> added(#[trigger] st[i], st[i + 1], stripped(configs.cfgs()[i]), false) decreases configs.cfgs().len() - gi \
    { let it = configs.item(gi); assert(it.v().ctx is Some); { __body } proof { let s0 = st; st = st.push(dup.cfgs()); assert(st[gi as int] == s0.last()); } gi = gi + 1; } \
    proof { assert(strip_to(configs.cfgs(), st)); lemma_strip_ok(configs.cfgs(), st, gi as int); hist = st; } }
//@ rewrite it.get_context().cloned() => (match it.get_context() { Some(__x) => Some(__x.clone()), None => None })
//@ rewrite SemanticContext::NONE => SemanticContext::none()
//@ at fn start
    let ghost mut hist: Seq<Seq<Cfg>> = Seq::empty(); let ghost orig = configs.cfgs(); let ghost sem0 = configs.sem();
//@ rewrite let altsets = __a; => let altsets = __a; proof { lemma_conflict(altsets@, configs.cfgs()); if sem0 && mode == PredictionMode::SLL { assert(strip_to(orig, hist)); assert(hist.last() == configs.cfgs()); } }
//@ end
//@ fn src/prediction_mode.rs resolves_to_just_one_viable_alt {ret=r}
    requires nonempty(altsets@), small(altsets@)
    ensures altsets@.len() > 0 ==> (r != 0 ==> all_least(altsets@, r as int)), altsets@.len() > 0 ==> (forall|x: int| all_least(altsets@, x) ==> r == x), altsets@.len() == 0 ==> r == 0
//@ end
//@ fn src/prediction_mode.rs all_subsets_conflict {ret=r}
    ensures r == !any_single(altsets@)
//@ end
//@ fn src/prediction_mode.rs all_subsets_equal {ret=r}
    ensures r == (forall|i: int| 0 <= i < altsets@.len() ==> (#[trigger] altsets@[i]).s() == altsets@[0].s())
//@ rewrite let mut iter = altsets.iter(); => let mut gi: usize = 0;
//@ rewrite iter.next() => (if gi < altsets.len() { gi = gi + 1; Some(&altsets[gi - 1]) } else { None })
//@ rewrite iter.all(|it| __body) => { let mut res = true; while gi < altsets.len() \
    invariant_except_break res, forall|i: int| 0 <= i < gi ==> (#[trigger] altsets@[i]).s() == altsets@[0].s() \
    invariant altsets@.len() > 0 ==> first == Some(&altsets@[0]), gi <= altsets@.len(), \
    ensures res == (forall|i: int| 0 <= i < altsets@.len() ==> (#[trigger] altsets@[i]).s() == altsets@[0].s()) decreases altsets.len() - gi \
    { let it = &altsets[gi]; if !(__body) { res = false; break; } gi = gi + 1; } res }
//@ rewrite it == first.unwrap() => it.same(first.unwrap())
//@ end
//@ fn src/prediction_mode.rs has_non_conflicting_alt_set {ret=r}
    ensures r == any_single(altsets@)
//@ rewrite altsets.iter().any(|it| __body) => { let mut gi: usize = 0; let mut res = false; while gi < altsets.len() \
    invariant_except_break !res, forall|i: int| 0 <= i < gi ==> (#[trigger] altsets@[i]).s().len() != 1 \
    invariant gi <= altsets@.len(), \
    ensures res == any_single(altsets@) decreases altsets.len() - gi \
    { let it = &altsets[gi]; if __body { res = true; break; } gi = gi + 1; } res }
//@ end
//@ fn src/prediction_mode.rs has_conflicting_alt_set {ret=r}
    ensures r == any_conflict(altsets@)
//@ rewrite for alts in altsets { __body } => let mut gi: usize = 0; while gi < altsets.len() invariant gi <= altsets@.len(), forall|i: int| 0 <= i < gi ==> (#[trigger] altsets@[i]).s().len() <= 1 decreases altsets.len() - gi \
    { let alts = &altsets[gi]; gi = gi + 1; __body }
//@ end
//@ fn src/prediction_mode.rs get_alts {ret=r}
    ensures forall|a: int| #[trigger] r.s().contains(a) == in_some(altsets@, altsets@.len() as int, a)
//@ rewrite altsets.iter().fold(BitSet::new(), |mut acc, it| { __body }) => { let mut acc = BitSet::new(); let mut gi: usize = 0; \
    while gi < altsets.len() invariant gi <= altsets@.len(), forall|a: int| #[trigger] acc.s().contains(a) == in_some(altsets@, gi as int, a) decreases altsets.len() - gi \
    { let it = &altsets[gi]; let ghost s0 = acc.s(); acc = { __body }; proof { assert forall|a: int| #[trigger] acc.s().contains(a) == in_some(altsets@, gi + 1, a) by { let _ = s0.contains(a); let _ = altsets@[gi as int]; } } gi = gi + 1; } acc }
//@ end
//@ fn src/prediction_mode.rs get_conflicting_alt_subsets {ret=r}
    requires configs.ok()
    ensures groups_of(r@, configs.cfgs())
//@ rewrite let mut configs_to_alts: HashMap<(ATNStateRef, &PredictionContext), BitSet> = HashMap::new(); => let mut configs_to_alts = Groups::new(); let mut gi: usize = 0;
//@ rewrite for c in configs.get_items() { __body } => while gi < configs.length() invariant configs.ok(), gi <= configs.cfgs().len(), partition(configs_to_alts.m(), configs.cfgs().take(gi as int), true) decreases configs.cfgs().len() - gi \
    { let c = configs.item(gi); let ghost m0 = configs_to_alts.m(); assert(c.v().ctx is Some && c.v().alt >= 0); __body \
      proof { let t = configs.cfgs().take(gi + 1); assert(t.drop_last() =~= configs.cfgs().take(gi as int)); lemma_part_step(m0, configs_to_alts.m(), t, true); } gi = gi + 1; } \
    proof { assert(configs.cfgs().take(gi as int) =~= configs.cfgs()); }
//@ rewrite configs_to_alts.entry(__k).or_default() => configs_to_alts.entry_or_default(__k)
//@ rewrite configs_to_alts.drain().map(|(_, x)| x).collect() => configs_to_alts.values_()
//@ end
//@ fn src/prediction_mode.rs get_state_to_alt_map {ret=m}
//@ sig
fn get_state_to_alt_map(configs: &ATNConfigSet) -> (m: Groups)
    requires configs.ok()
    ensures partition(m.m(), configs.cfgs(), false)
//@ rewrite let mut m = HashMap::new(); => let mut m = Groups::new(); let mut gi: usize = 0;
//@ rewrite for c in configs.get_items() { __body } => while gi < configs.length() invariant configs.ok(), gi <= configs.cfgs().len(), partition(m.m(), configs.cfgs().take(gi as int), false) decreases configs.cfgs().len() - gi \
    { let c = configs.item(gi); let ghost m0 = m.m(); assert(c.v().ctx is Some && c.v().alt >= 0); __body \
      proof { let t = configs.cfgs().take(gi + 1); assert(t.drop_last() =~= configs.cfgs().take(gi as int)); lemma_part_step(m0, m.m(), t, false); } gi = gi + 1; } \
    proof { assert(configs.cfgs().take(gi as int) =~= configs.cfgs()); }
//@ rewrite m.entry(__k).or_insert(BitSet::new()) => m.entry_or_default(__k)
//@ end
//@ fn src/prediction_mode.rs has_state_associated_with_one_alt {ret=r}
    requires configs.ok()
    ensures r == lone_state(configs.cfgs())
//@ rewrite for alts in x.values() { __body } => let vals = x.values_(); proof { lemma_lone(vals@, x.m(), configs.cfgs()); } let mut gi: usize = 0; \
    while gi < vals.len() invariant gi <= vals@.len(), any_single(vals@) == lone_state(configs.cfgs()), forall|i: int| 0 <= i < gi ==> (#[trigger] vals@[i]).s().len() != 1 decreases vals.len() - gi \
    { let alts = &vals[gi]; gi = gi + 1; __body }
//@ end
//@ fn src/prediction_mode.rs get_single_viable_alt {ret=r}
    requires nonempty(altsets@), small(altsets@)
    ensures altsets@.len() > 0 ==> (r != 0 ==> all_least(altsets@, r as int)), altsets@.len() > 0 ==> (forall|x: int| all_least(altsets@, x) ==> r == x), altsets@.len() == 0 ==> r == 0
//@ rewrite for alt in altsets { __body } => let mut gi: usize = 0; while gi < altsets.len() \
    invariant nonempty(altsets@), small(altsets@), gi <= altsets@.len(), all_least(altsets@.take(gi as int), min_alt as int), gi == 0 ==> min_alt == 0 && viable_alts.s() == Set::<int>::empty(), gi > 0 ==> viable_alts.s() == Set::<int>::empty().insert(min_alt as int), min_alt < 0x1000_0000_0000 \
    decreases altsets.len() - gi \
    { let alt = &altsets[gi]; assert(altsets@[gi as int].s().len() > 0); let ghost old_min = min_alt as int; proof { if gi > 0 { assert(altsets@.take(gi as int)[0] == altsets@[0]); } } gi = gi + 1; __body \
      proof { lemma_two(viable_alts.s()); if gi > 1 { assert(viable_alts.s().contains(min_alt as int)); assert(viable_alts.s().contains(old_min)); } \
        assert(viable_alts.s() =~= Set::<int>::empty().insert(min_alt as int)); \
        assert forall|i: int| 0 <= i < gi implies least_of((#[trigger] altsets@.take(gi as int)[i]).s(), min_alt as int) by { if i < gi - 1 { assert(altsets@.take(gi - 1)[i] == altsets@[i]); } } } } \
    proof { assert(altsets@.take(gi as int) =~= altsets@); assert forall|x: int| altsets@.len() > 0 && all_least(altsets@, x) implies min_alt == x by { assert(least_of(altsets@[0].s(), x)); assert(least_of(altsets@[0].s(), min_alt as int)); } }
//@ rewrite alt.iter().next().unwrap() => { let __l = alt.least(); proof { lemma_two(alt.s()); assert(small1(alt.s())); } __l.unwrap() }
//@ rewrite return INVALID_ALT; => { proof { lemma_two(viable_alts.s()); if gi == 1 { assert(viable_alts.s() =~= Set::<int>::empty().insert(min_alt as int)); } else { assert(viable_alts.s() =~= Set::<int>::empty().insert(old_min).insert(min_alt as int)); if old_min == min_alt { assert(viable_alts.s() =~= Set::<int>::empty().insert(min_alt as int)); } \
      assert forall|x: int| !all_least(altsets@, x) by { if all_least(altsets@, x) { assert(least_of(altsets@[0].s(), x)); assert(altsets@.take(gi - 1)[0] == altsets@[0]); assert(least_of(altsets@[gi - 1].s(), x)); } } } } return INVALID_ALT; }
//@ end
}
fn main() {}
