#![allow(unused)]
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
//@ include cfg_types.inc
pub open spec fn exec_of(c: Cfg) -> Option<int> { match c.kind { Some((e, p)) => e, None => None } }
// set on entering a non-greedy decision and kept for ever after
pub open spec fn passed(c: Cfg, nongreedy: bool) -> Option<(Option<int>, bool)> { match c.kind { Some((e, p)) => Some((e, p || nongreedy)), None => None } }
//@ fn src/atn_config.rs check_non_greedy_decision
//@ sig
fn check_non_greedy_decision<S: ATNState>(source: &ATNConfig, target: &S) -> (r: bool)
    ensures r == ((match source.v().kind { Some((e, p)) => p, None => false }) || target.nongreedy())
//@ end
impl ATNConfig {
//@ fn src/atn_config.rs ATNConfig::get_lexer_executor {ret=r}
    ensures exec_of(self.v()) == (match r { Some(e) => Some(e.v()), None => None })
//@ rewrite lexer_action_executor.as_deref() => (match lexer_action_executor { Some(__x) => Some(&**__x), None => None })
//@ end
//@ fn src/atn_config.rs ATNConfig::new {ret=r}
    ensures r.v() == (Cfg { state: state as int, alt: alt as int, ctx: ctx_v(context), sem: none_v(), up: 0, supp: false, kind: None })
//@ rewrite SemanticContext::NONE => SemanticContext::none()
//@ end
//@ fn src/atn_config.rs ATNConfig::new_with_semantic {ret=r}
    ensures r.v() == (Cfg { state: state as int, alt: alt as int, ctx: ctx_v(context), sem: semantic_context.v(), up: 0, supp: false, kind: None })
//@ end
//@ fn src/atn_config.rs ATNConfig::new_lexer_atnconfig6 {ret=r}
    ensures r.v() == (Cfg { state: _state as int, alt: _alt as int, ctx: Some(_context.v()), sem: none_v(), up: 0, supp: false, kind: Some((None, false)) })
//@ end
//@ fn src/atn_config.rs ATNConfig::cloned
//@ sig
fn cloned<S: ATNState>(&self, target: &S) -> (r: ATNConfig)
    ensures r.v() == (Cfg { state: target.num(), kind: passed(self.v(), target.nongreedy()), ..self.v() }), r.config_type is LexerATNConfig == self.config_type is LexerATNConfig
//@ end
//@ fn src/atn_config.rs ATNConfig::cloned_with_new_semantic
//@ sig
fn cloned_with_new_semantic<S: ATNState>(&self, target: &S, ctx: Box<SemanticContext>) -> (r: ATNConfig)
    ensures r.v() == (Cfg { state: target.num(), kind: passed(self.v(), target.nongreedy()), sem: ctx.v(), ..self.v() })
//@ end
//@ fn src/atn_config.rs ATNConfig::cloned_with_new_ctx
//@ sig
fn cloned_with_new_ctx<S: ATNState>(&self, target: &S, ctx: Option<Arc<PredictionContext>>) -> (r: ATNConfig)
    ensures r.v() == (Cfg { state: target.num(), kind: passed(self.v(), target.nongreedy()), ctx: ctx_v(ctx), ..self.v() })
//@ end
//@ fn src/atn_config.rs ATNConfig::cloned_with_new_exec
//@ sig
fn cloned_with_new_exec<S: ATNState>(&self, target: &S, exec: Option<LexerActionExecutor>) -> (r: ATNConfig)
    ensures r.v() == (Cfg { state: target.num(), kind: match self.v().kind { Some((e, p)) => Some((match exec { Some(x) => Some(x.v()), None => None }, p || target.nongreedy())), None => None }, ..self.v() })
//@ rewrite exec.map(Box::new) => (match exec { Some(x) => Some(Box::new(x)), None => None })
//@ end
//@ fn src/atn_config.rs ATNConfig::get_state {ret=r}
    ensures r == self.v().state
//@ end
//@ fn src/atn_config.rs ATNConfig::get_alt {ret=r}
    ensures r == self.v().alt
//@ end
//@ fn src/atn_config.rs ATNConfig::get_type {ret=r}
    ensures *r == self.config_type
//@ end
//@ fn src/atn_config.rs ATNConfig::get_context {ret=r}
    ensures match r { Some(c) => self.v().ctx == Some(c.v()), None => self.v().ctx is None }
//@ rewrite self.context.as_ref() => (match &self.context { Some(__x) => Some(__x), None => None })
//@ end
//@ fn src/atn_config.rs ATNConfig::set_context
    ensures final(self).v() == (Cfg { ctx: Some(_v.v()), ..old(self).v() })
//@ end
//@ fn src/atn_config.rs ATNConfig::take_context {ret=r}
    requires old(self).v().ctx is Some
    ensures old(self).v().ctx == Some(r.v()), final(self).v() == (Cfg { ctx: None, ..old(self).v() })
//@ end
//@ fn src/atn_config.rs ATNConfig::get_reaches_into_outer_context {ret=r}
    ensures r == self.v().up
//@ end
//@ fn src/atn_config.rs ATNConfig::set_reaches_into_outer_context
    ensures final(self).v() == (Cfg { up: _v as int, ..old(self).v() })
//@ end
//@ fn src/atn_config.rs ATNConfig::is_precedence_filter_suppressed {ret=r}
    ensures r == self.v().supp
//@ end
//@ fn src/atn_config.rs ATNConfig::set_precedence_filter_suppressed
    ensures final(self).v() == (Cfg { supp: _v, ..old(self).v() })
//@ end
//@ fn src/atn_config.rs PartialEq for ATNConfig::eq {ret=r nopub}
    ensures r == (eqv(self.v()) == eqv(other.v()))
//@ rewrite self.context == other.context => same_ctx(&self.context, &other.context)
//@ rewrite self.get_type() == other.get_type() => same_kind(self.get_type(), other.get_type())
//@ rewrite self.semantic_context == other.semantic_context => self.semantic_context.same(&*other.semantic_context)
//@ end
}
// ---------- the set ----------------------------------------------------------------
// hashing: the hasher's state is what was written so far
#[verifier::external_body]
pub struct MurmurHasher { x: usize }
impl MurmurHasher {
    pub uninterp spec fn w(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.w() == Seq::<int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == fin(self.w()) { unimplemented!() }
}
pub uninterp spec fn fin(w: Seq<int>) -> u64;
#[verifier::external_body]
pub fn hash_usize(x: usize, h: &mut MurmurHasher) ensures final(h).w() == old(h).w().push(x as int) { unimplemented!() }
#[verifier::external_body]
pub fn hash_isize(x: isize, h: &mut MurmurHasher) ensures final(h).w() == old(h).w().push(x as int) { unimplemented!() }
// equal predicates hash equally
#[verifier::external_body]
pub fn hash_sem(x: &SemanticContext, h: &mut MurmurHasher) ensures final(h).w() == old(h).w().push(x.v()) { unimplemented!() }
//@ item src/atn_config_set.rs enum Key
pub ghost enum KeyV { Full(Cfg), Partial(int, int, int, int) }
impl Key {
    pub open spec fn v(&self) -> KeyV { match *self { Key::Full(c) => KeyV::Full(eqv(c.v())), Key::Partial(h, s, a, p) => KeyV::Partial(h as int, s as int, a as int, p.v()) } }
}
// HashMap<Key, usize>
#[verifier::external_body]
pub struct Lookup { x: usize }
impl Lookup {
    pub uninterp spec fn m(&self) -> Map<KeyV, usize>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() =~= Map::<KeyV, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Key) -> (r: Option<&usize>)
        ensures match r { Some(i) => self.m().contains_key(k.v()) && self.m()[k.v()] == *i, None => !self.m().contains_key(k.v()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Key, i: usize) ensures final(self).m() == old(self).m().insert(k.v(), i) { unimplemented!() }
}
#[verifier::external_body]
pub struct BitSet { x: usize }
impl BitSet {
    pub uninterp spec fn s(&self) -> ISet<int>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() =~= ISet::<int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: usize) -> (r: bool) ensures final(self).s() =~= old(self).s().insert(x as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn same(&self, o: &BitSet) -> (r: bool) ensures r == (self.s() =~= o.s()) { unimplemented!() }
}
// which of the two key functions a set uses
#[derive(Copy, Clone)]
pub enum KeyFn { local, full }
pub open spec fn keyof(f: KeyFn, c: Cfg) -> KeyV {
    match f { KeyFn::full => KeyV::Full(eqv(c)), KeyFn::local => KeyV::Partial(fin(seq![c.state, c.alt, c.sem]) as i32 as int, c.state, c.alt, c.sem) }
}
// the union of two call stacks (PredictionContext::merge, P12)
pub uninterp spec fn merged(a: int, b: int, root_is_wildcard: bool) -> int;
#[verifier::external_body]
pub struct MergeCache { x: usize }
#[verifier::external_body]
pub fn merge_ctx(a: &Arc<PredictionContext>, b: &Arc<PredictionContext>, root_is_wildcard: bool) -> (r: Arc<PredictionContext>)
    ensures r.v() == merged(a.v(), b.v(), root_is_wildcard), a.v() == b.v() ==> r.v() == a.v()
{ unimplemented!() }
#[verifier::external_body]
pub fn max(a: isize, b: isize) -> (r: isize) ensures r == (if a >= b { a } else { b }) { unimplemented!() }

//@ item src/atn_config_set.rs struct ATNConfigSet
//@ retype fn(&ATNConfig) -> Key => KeyFn
//@ retype HashMap<Key, usize, MurmurHasherBuilder> => Lookup
pub ghost struct SetV { pub cfgs: Seq<Cfg>, pub full: bool, pub sem: bool, pub dips: bool, pub alt: int, pub f: KeyFn, pub confl: ISet<int>, pub ro: bool }
pub fn vassert(c: bool) requires c {}
pub open spec fn vs(c: Seq<Box<ATNConfig>>) -> Seq<Cfg> { c.map(|i: int, x: Box<ATNConfig>| x.v()) }
pub open spec fn mg(a: int, b: int, w: bool) -> int { if a == b { a } else { merged(a, b, w) } }
pub open spec fn maxi(a: int, b: int) -> int { if a >= b { a } else { b } }
// one entry standing for both
pub open spec fn join(a: Cfg, b: Cfg, w: bool) -> Cfg { Cfg { ctx: Some(mg(a.ctx->0, b.ctx->0, w)), up: maxi(a.up, b.up), supp: a.supp || b.supp, ..a } }
pub open spec fn added(o: Seq<Cfg>, n: Seq<Cfg>, c: Cfg, f: KeyFn, w: bool) -> bool {
    ||| exists|i: int| 0 <= i < o.len() && keyof(f, #[trigger] o[i]) == keyof(f, c) && n == o.update(i, join(o[i], c, w))
    ||| fresh(o, c, f) && n == o.push(c)
}
pub open spec fn fresh(o: Seq<Cfg>, c: Cfg, f: KeyFn) -> bool { forall|i: int| 0 <= i < o.len() ==> keyof(f, #[trigger] o[i]) != keyof(f, c) }
pub open spec fn keyed(c: Seq<Cfg>, m: Map<KeyV, usize>, f: KeyFn) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> m.contains_key(keyof(f, #[trigger] c[i])) && m[keyof(f, c[i])] == i
    &&& forall|k: KeyV| #[trigger] m.contains_key(k) ==> m[k] < c.len() && keyof(f, c[m[k] as int]) == k
}
pub open spec fn ctxs(c: Seq<Cfg>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).ctx is Some }
pub proof fn lemma_join_key(f: KeyFn, a: Cfg, c: Cfg, w: bool)
    requires keyof(f, a) == keyof(f, c), a.ctx is Some, c.ctx is Some
    ensures keyof(f, join(a, c, w)) == keyof(f, a)
{
    if f == KeyFn::full { assert(eqv(a) == eqv(c)); assert(a.ctx == c.ctx) by { assert(eqv(a).ctx == eqv(c).ctx); } assert(a.supp == c.supp) by { assert(eqv(a).supp == eqv(c).supp); } assert(eqv(join(a, c, w)) == eqv(a)); }
}
impl ATNConfigSet {
    pub open spec fn v(&self) -> SetV { SetV { cfgs: vs(self.configs@), full: self.full_ctx, sem: self.has_semantic_context, dips: self.dips_into_outer_context, alt: self.unique_alt as int, f: self.hasher, confl: self.conflicting_alts.s(), ro: self.read_only } }
    pub open spec fn wf(&self) -> bool { keyed(self.v().cfgs, self.config_lookup.m(), self.hasher) && ctxs(self.v().cfgs) }
//@ fn src/atn_config_set.rs ATNConfigSet::new_base_atnconfig_set {ret=r}
    ensures r.wf(), r.v() == (SetV { cfgs: Seq::empty(), full: full_ctx, sem: false, dips: false, alt: 0, f: KeyFn::local, confl: ISet::empty(), ro: false })
//@ rewrite HashMap::with_hasher(MurmurHasherBuilder {}) => Lookup::new()
//@ rewrite Default::default() => BitSet::new()
//@ rewrite Self::local_hash_key => KeyFn::local
//@ at fn start
    proof { assert(vs(Seq::empty()) =~= Seq::<Cfg>::empty()); }
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::new_ordered {ret=r}
    ensures r.wf(), r.v() == (SetV { cfgs: Seq::empty(), full: true, sem: false, dips: false, alt: 0, f: KeyFn::full, confl: ISet::empty(), ro: false })
//@ rewrite Self::full_hash_key => KeyFn::full
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::full_hash_key {ret=r}
    ensures r.v() == keyof(KeyFn::full, config.v())
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::local_hash_key {ret=r}
    ensures r.v() == keyof(KeyFn::local, config.v())
//@ rewrite config.get_state().hash(&mut hasher) => hash_usize(config.get_state(), &mut hasher)
//@ rewrite config.get_alt().hash(&mut hasher) => hash_isize(config.get_alt(), &mut hasher)
//@ rewrite config.semantic_context.hash(&mut hasher) => hash_sem(&*config.semantic_context, &mut hasher)
//@ rewrite config.semantic_context.deref().clone() => (&*config.semantic_context).clone()
//@ at fn end
    proof { assert(hasher.w() =~= seq![config.v().state, config.v().alt, config.v().sem]); }
//@ end
    fn apply_key(hasher: KeyFn, config: &ATNConfig) -> (r: Key) ensures r.v() == keyof(hasher, config.v()) {
        match hasher { KeyFn::local => ATNConfigSet::local_hash_key(config), KeyFn::full => ATNConfigSet::full_hash_key(config) }
    }
//@ fn src/atn_config_set.rs ATNConfigSet::add_cached
//@ sig
fn add_cached(&mut self, config: Box<ATNConfig>, mut merge_cache: Option<&mut MergeCache>) -> (r: bool)
    requires old(self).wf(), !old(self).v().ro, config.v().ctx is Some
    ensures r, final(self).wf(), added(old(self).v().cfgs, final(self).v().cfgs, config.v(), old(self).v().f, !old(self).v().full),
        final(self).v() == (SetV { cfgs: final(self).v().cfgs, sem: old(self).v().sem || config.v().sem != none_v(), dips: old(self).v().dips || config.v().up > 0, ..old(self).v() })
//@ rewrite assert!(__c) => vassert(__c)
//@ rewrite *config.semantic_context != SemanticContext::NONE => !config.semantic_context.is_none_()
//@ rewrite hasher(config.as_ref()) => Self::apply_key(hasher, &*config)
//@ rewrite self.configs.get_mut(*existing).unwrap().as_mut() => &mut *self.configs[*existing]
//@ rewrite PredictionContext::merge(__a, __b, __c, &mut merge_cache) => merge_ctx(__a, __b, __c)
//@ at fn start
    let ghost c0 = config.v(); let ghost f0 = self.hasher; let ghost o = self.v().cfgs; let ghost m0 = self.config_lookup.m();
//@ at fn end
    proof {
        let n = self.v().cfgs; let k0 = keyof(f0, c0);
        if m0.contains_key(k0) {
            let i = m0[k0] as int;
            assert(keyof(f0, o[i]) == k0);
            lemma_join_key(f0, o[i], c0, !old(self).v().full);
            assert(n =~= o.update(i, join(o[i], c0, !old(self).v().full)));
            assert(forall|j: int| 0 <= j < n.len() ==> keyof(f0, #[trigger] n[j]) == keyof(f0, o[j]));
        } else {
            assert(n =~= o.push(c0));
            assert(fresh(o, c0, f0));
        }
    }
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::add {ret=r}
    requires old(self).wf(), !old(self).v().ro, config.v().ctx is Some
    ensures r, final(self).wf(), added(old(self).v().cfgs, final(self).v().cfgs, config.v(), old(self).v().f, !old(self).v().full),
        final(self).v() == (SetV { cfgs: final(self).v().cfgs, sem: old(self).v().sem || config.v().sem != none_v(), dips: old(self).v().dips || config.v().up > 0, ..old(self).v() })
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::length {ret=r}
    ensures r == self.v().cfgs.len()
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::is_empty {ret=r}
    ensures r == (self.v().cfgs.len() == 0)
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::has_semantic_context {ret=r}
    ensures r == self.v().sem
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::set_has_semantic_context
    ensures final(self).v() == (SetV { sem: _v, ..old(self).v() }), final(self).config_lookup == old(self).config_lookup
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::read_only {ret=r}
    ensures r == self.v().ro
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::set_read_only
    ensures final(self).v() == (SetV { ro: _read_only, ..old(self).v() }), final(self).config_lookup == old(self).config_lookup
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::full_context {ret=r}
    ensures r == self.v().full
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::get_unique_alt {ret=r}
    ensures r == self.v().alt
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::set_unique_alt
    ensures final(self).v() == (SetV { alt: _v as int, ..old(self).v() }), final(self).config_lookup == old(self).config_lookup
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::get_dips_into_outer_context {ret=r}
    ensures r == self.v().dips
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::set_dips_into_outer_context
    ensures final(self).v() == (SetV { dips: _v, ..old(self).v() }), final(self).config_lookup == old(self).config_lookup
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::get_alts {ret=r}
    requires self.wf(), forall|i: int| 0 <= i < self.configs@.len() ==> (#[trigger] self.configs@[i]).alt >= 0
    ensures forall|a: int| r.s().contains(a) == exists|i: int| 0 <= i < self.v().cfgs.len() && (#[trigger] self.v().cfgs[i]).alt == a
//@ rewrite self.configs.iter().fold(BitSet::new(), |mut acc, c| { __body }) => { let mut acc = BitSet::new(); let mut gi: usize = 0; \
    while gi < self.configs.len() invariant gi <= self.configs@.len(), forall|i: int| 0 <= i < self.configs@.len() ==> (#[trigger] self.configs@[i]).alt >= 0, \
        forall|a: int| acc.s().contains(a) == alt_in(self.v().cfgs, gi as int, a) decreases self.configs.len() - gi \
    { let c = &self.configs[gi]; acc = { __body }; proof { assert(self.v().cfgs[gi as int] == c.v()); assert forall|a: int| acc.s().contains(a) == alt_in(self.v().cfgs, gi + 1, a) by { if alt_in(self.v().cfgs, gi as int, a) {} } } gi = gi + 1; } acc }
//@ end
//@ fn src/atn_config_set.rs ATNConfigSet::optimize_configs
//@ sig
fn optimize_configs(&mut self, _interpreter: &ATNSimulator)
    requires old(self).wf()
    ensures final(self).wf(), final(self).v() == old(self).v()
//@ rewrite for config in self.configs.iter_mut() { __body } => let mut gi: usize = 0; \
    while gi < self.configs.len() invariant gi <= self.configs@.len(), self.wf(), self.v() == old(self).v(), self.v().cfgs.len() == self.configs@.len() decreases self.configs.len() - gi \
    { let ghost s0 = self.v(); assert(s0.cfgs[gi as int] == self.configs@[gi as int].v()); { let config = &mut *self.configs[gi]; __body } \
      proof { assert(self.v().cfgs =~= s0.cfgs); } gi = gi + 1; }
//@ rewrite HashMap::new() => Visited::new()
//@ end
//@ fn src/atn_config_set.rs PartialEq for ATNConfigSet::eq {ret=r nopub}
    ensures r == (same_entries(self.v().cfgs, other.v().cfgs) && self.v().full == other.v().full && self.v().alt == other.v().alt
        && self.v().confl =~= other.v().confl && self.v().sem == other.v().sem && self.v().dips == other.v().dips)
//@ rewrite self.configs == other.configs => vec_eq(&self.configs, &other.configs)
//@ rewrite self.conflicting_alts == other.conflicting_alts => self.conflicting_alts.same(&other.conflicting_alts)
//@ end
}
// ---------- what any history of additions leaves behind -------------------------------
pub open spec fn keys(c: Seq<Cfg>, f: KeyFn) -> Seq<KeyV> { c.map(|i: int, x: Cfg| keyof(f, x)) }
// first occurrences, in order
pub open spec fn dedup(k: Seq<KeyV>) -> Seq<KeyV> decreases k.len() {
    if k.len() == 0 { Seq::empty() } else { let d = dedup(k.drop_last()); if d.contains(k.last()) { d } else { d.push(k.last()) } }
}
// the union of the call stacks added under a key, and whether anything else is asked of it
pub open spec fn total(h: Seq<Cfg>, f: KeyFn, k: KeyV, w: bool) -> Option<Cfg> decreases h.len() {
    if h.len() == 0 { None } else {
        let t = total(h.drop_last(), f, k, w);
        if keyof(f, h.last()) != k { t } else { match t { Some(a) => Some(join(a, h.last(), w)), None => Some(h.last()) } }
    }
}
// sets st[0], st[1], .. : st[0] empty, st[i+1] is st[i] with h[i] added
pub open spec fn history(st: Seq<Seq<Cfg>>, h: Seq<Cfg>, f: KeyFn, w: bool) -> bool {
    &&& st.len() == h.len() + 1
    &&& st[0].len() == 0
    &&& forall|i: int| 0 <= i < h.len() ==> added(#[trigger] st[i], st[i + 1], h[i], f, w) && h[i].ctx is Some
}
// exactly one entry per distinct key, in order of first addition, each carrying the union of what was added under it
pub proof fn lemma_history(st: Seq<Seq<Cfg>>, h: Seq<Cfg>, f: KeyFn, w: bool)
    requires history(st, h, f, w)
    ensures keys(st.last(), f) =~= dedup(keys(h, f)), ctxs(st.last()),
        forall|i: int| #![trigger st.last()[i]] 0 <= i < st.last().len() ==> total(h, f, keyof(f, st.last()[i]), w) == Some(st.last()[i]),
        forall|i: int, j: int| 0 <= i < j < st.last().len() ==> keyof(f, #[trigger] st.last()[i]) != keyof(f, #[trigger] st.last()[j]),
        forall|k: KeyV| total(h, f, k, w) is Some == (#[trigger] keys(st.last(), f).contains(k)),
    decreases h.len()
{
    let n = h.len() as int;
    if n == 0 {
        assert(keys(st.last(), f) =~= dedup(keys(h, f)));
    } else {
        let st0 = st.drop_last(); let h0 = h.drop_last(); let c = h.last();
        assert forall|i: int| 0 <= i < h0.len() implies added(#[trigger] st0[i], st0[i + 1], h0[i], f, w) && h0[i].ctx is Some by { assert(st[i] == st0[i]); }
        lemma_history(st0, h0, f, w);
        let o = st0.last(); let x = st.last();
        assert(o == st[n - 1] && x == st[n]);
        assert(added(st[n - 1], st[n - 1 + 1], h[n - 1], f, w));
        assert(keys(h, f).drop_last() =~= keys(h0, f));
        assert(keys(h, f).last() == keyof(f, c));
        assert(forall|i: int| 0 <= i < o.len() ==> #[trigger] keys(o, f)[i] == keyof(f, o[i]));
        if fresh(o, c, f) && x == o.push(c) {
            assert(!keys(o, f).contains(keyof(f, c)));
            assert(keys(x, f) =~= keys(o, f).push(keyof(f, c)));
            assert(total(h0, f, keyof(f, c), w) is None);
            assert forall|k: KeyV| total(h, f, k, w) is Some == (#[trigger] keys(x, f).contains(k)) by {
                if keys(o, f).contains(k) { let i = choose|i: int| 0 <= i < keys(o, f).len() && keys(o, f)[i] == k; assert(keys(x, f)[i] == k); }
                assert(keys(x, f)[o.len() as int] == keyof(f, c));
                let _ = keys(o, f).contains(k);
            }
            assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies total(h, f, keyof(f, x[i]), w) == Some(x[i]) by { if i < o.len() { assert(x[i] == o[i]); assert(keyof(f, o[i]) != keyof(f, c)); } }
        } else {
            let i = choose|i: int| 0 <= i < o.len() && keyof(f, #[trigger] o[i]) == keyof(f, c) && x == o.update(i, join(o[i], c, w));
            lemma_join_key(f, o[i], c, w);
            assert(keys(x, f) =~= keys(o, f));
            assert(keys(o, f)[i] == keyof(f, c));
            assert(keys(o, f).contains(keyof(f, c)));
            assert forall|j: int| #![trigger x[j]] 0 <= j < x.len() implies total(h, f, keyof(f, x[j]), w) == Some(x[j]) by { let _ = o[j]; }
            assert forall|a: int, b: int| 0 <= a < b < x.len() implies keyof(f, #[trigger] x[a]) != keyof(f, #[trigger] x[b]) by { let _ = o[a]; let _ = o[b]; assert(keyof(f, x[a]) == keyof(f, o[a])); assert(keyof(f, x[b]) == keyof(f, o[b])); }
            assert forall|k: KeyV| total(h, f, k, w) is Some == (#[trigger] keys(x, f).contains(k)) by { let _ = keys(o, f).contains(k); }
        }
    }
}
pub open spec fn alt_in(c: Seq<Cfg>, n: int, a: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] c[i]).alt == a }
pub open spec fn same_entries(a: Seq<Cfg>, b: Seq<Cfg>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> eqv(#[trigger] a[i]) == eqv(b[i]) }
// Vec<Box<ATNConfig>> equality: entry by entry (ATNConfig::eq above)
#[verifier::external_body]
pub fn vec_eq(a: &Vec<Box<ATNConfig>>, b: &Vec<Box<ATNConfig>>) -> (r: bool) ensures r == same_entries(vs(a@), vs(b@)) { unimplemented!() }
#[verifier::external_body]
pub struct Visited { x: usize }
impl Visited { #[verifier::external_body] pub fn new() -> Visited { unimplemented!() } }
#[verifier::external_body]
pub struct PredictionContextCache { x: usize }
#[verifier::external_body]
pub struct ATNSimulator { x: usize }
impl ATNSimulator {
    #[verifier::external_body]
    pub fn shared_context_cache(&self) -> &PredictionContextCache { unimplemented!() }
}
impl PredictionContextCache {
    // an equal context (P12)
    #[verifier::external_body]
    pub fn get_shared_context(&self, c: &Arc<PredictionContext>, v: &mut Visited) -> (r: Arc<PredictionContext>) ensures r.v() == c.v() { unimplemented!() }
}
}
fn main() {}
