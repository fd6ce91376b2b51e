// ---------- bit sets ----------------------------------------------------------------------
#[verifier::external_body]
pub struct BitSet { x: usize }
impl BitSet {
    pub uninterp spec fn s(&self) -> Set<int>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: usize) -> (r: bool) ensures final(self).s() == old(self).s().insert(x as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: usize) -> (r: bool) ensures r == self.s().contains(x as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.s().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: &BitSet) ensures final(self).s() == old(self).s().union(o.s()) { unimplemented!() }
    #[verifier::external_body]
    pub fn same(&self, o: &BitSet) -> (r: bool) ensures r == (self.s() == o.s()) { unimplemented!() }
    // iter().next(): iteration is in ascending order
    #[verifier::external_body]
    pub fn least(&self) -> (r: Option<usize>)
        ensures match r { Some(x) => least_of(self.s(), x as int), None => self.s().len() == 0 }
    { unimplemented!() }
}
impl Clone for BitSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.s() == self.s() { unimplemented!() }
}
pub open spec fn least_of(s: Set<int>, x: int) -> bool { s.contains(x) && forall|y: int| #[trigger] s.contains(y) ==> x <= y }
// HashMap<K, BitSet>: entry(k).or_default(), values(), drain()
pub trait MapKey { spec fn kv(&self) -> (int, Option<int>); }
impl MapKey for (ATNStateRef, &Arc<PredictionContext>) { open spec fn kv(&self) -> (int, Option<int>) { (self.0 as int, Some(self.1.v())) } }
impl MapKey for ATNStateRef { open spec fn kv(&self) -> (int, Option<int>) { (*self as int, None) } }
#[verifier::external_body]
pub struct Groups { x: usize }
pub type GM = Map<(int, Option<int>), Set<int>>;
impl Groups {
    pub uninterp spec fn m(&self) -> GM;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == GM::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_or_default<K: MapKey>(&mut self, k: K) -> (r: &mut BitSet)
        ensures r.s() == at(old(self).m(), k.kv()), final(self).m() == old(self).m().insert(k.kv(), final(r).s())
    { unimplemented!() }
    // the sets, each once, in no particular order
    #[verifier::external_body]
    pub fn values_(&self) -> (r: Vec<BitSet>) ensures listing(r@, self.m()) { unimplemented!() }
}
pub open spec fn at(m: GM, k: (int, Option<int>)) -> Set<int> { if m.contains_key(k) { m[k] } else { Set::empty() } }
// v lists the values of m: one entry per key
pub open spec fn listing(v: Seq<BitSet>, m: GM) -> bool { exists|ks: Seq<(int, Option<int>)>| #[trigger] lists(v, m, ks) }
pub open spec fn lists(v: Seq<BitSet>, m: GM, ks: Seq<(int, Option<int>)>) -> bool {
    &&& ks.len() == v.len() && ks.no_duplicates()
    &&& forall|k: (int, Option<int>)| ks.contains(k) == #[trigger] m.contains_key(k)
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).s() == m[ks[i]]
}
pub open spec fn ckey(c: Cfg) -> (int, Option<int>) { (c.state, c.ctx) }
pub open spec fn skey(c: Cfg) -> (int, Option<int>) { (c.state, None) }
pub open spec fn key_of(by_ctx: bool, c: Cfg) -> (int, Option<int>) { if by_ctx { ckey(c) } else { skey(c) } }
// m is exactly the partition of the alternatives of c by key
pub open spec fn partition(m: GM, c: Seq<Cfg>, by_ctx: bool) -> bool {
    &&& forall|k: (int, Option<int>)| #[trigger] m.contains_key(k) == present(c, by_ctx, k)
    &&& forall|k: (int, Option<int>), a: int| m.contains_key(k) ==> #[trigger] m[k].contains(a) == member(c, by_ctx, k, a)
}
pub open spec fn present(c: Seq<Cfg>, by_ctx: bool, k: (int, Option<int>)) -> bool { exists|i: int| 0 <= i < c.len() && key_of(by_ctx, #[trigger] c[i]) == k }
pub open spec fn member(c: Seq<Cfg>, by_ctx: bool, k: (int, Option<int>), a: int) -> bool { exists|i: int| 0 <= i < c.len() && key_of(by_ctx, #[trigger] c[i]) == k && c[i].alt == a }
pub proof fn lemma_part_step(m: GM, n: GM, c: Seq<Cfg>, by_ctx: bool)
    requires c.len() > 0, partition(m, c.drop_last(), by_ctx), n == m.insert(key_of(by_ctx, c.last()), at(m, key_of(by_ctx, c.last())).insert(c.last().alt))
    ensures partition(n, c, by_ctx)
{
    let d = c.drop_last(); let k0 = key_of(by_ctx, c.last()); let e = c.len() - 1;
    assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == c[i]);
    assert forall|k: (int, Option<int>)| #[trigger] n.contains_key(k) == present(c, by_ctx, k) by {
        let _ = m.contains_key(k);
        if present(d, by_ctx, k) { let i = choose|i: int| 0 <= i < d.len() && key_of(by_ctx, #[trigger] d[i]) == k; assert(key_of(by_ctx, c[i]) == k); }
        if k == k0 { assert(key_of(by_ctx, c[e]) == k); }
        if present(c, by_ctx, k) && k != k0 { let i = choose|i: int| 0 <= i < c.len() && key_of(by_ctx, #[trigger] c[i]) == k; assert(d[i] == c[i]); }
    }
    assert forall|k: (int, Option<int>), a: int| n.contains_key(k) implies #[trigger] n[k].contains(a) == member(c, by_ctx, k, a) by {
        if member(d, by_ctx, k, a) { let i = choose|i: int| 0 <= i < d.len() && key_of(by_ctx, #[trigger] d[i]) == k && d[i].alt == a; assert(key_of(by_ctx, c[i]) == k && c[i].alt == a); }
        if member(c, by_ctx, k, a) && !(k == k0 && a == c.last().alt) { let i = choose|i: int| 0 <= i < c.len() && key_of(by_ctx, #[trigger] c[i]) == k && c[i].alt == a; assert(d[i] == c[i]); assert(member(d, by_ctx, k, a)); }
        if k == k0 && a == c.last().alt { assert(key_of(by_ctx, c[e]) == k && c[e].alt == a); }
        if m.contains_key(k) { let _ = m[k].contains(a); }
        else if k == k0 { if member(d, by_ctx, k, a) { assert(present(d, by_ctx, k)); } }
    }
}
pub open spec fn groups_of(v: Seq<BitSet>, c: Seq<Cfg>) -> bool { exists|m: GM| #[trigger] partition(m, c, true) && listing(v, m) }
// verdicts
pub open spec fn any_conflict(v: Seq<BitSet>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).s().len() > 1 }
pub open spec fn any_single(v: Seq<BitSet>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).s().len() == 1 }
pub open spec fn all_least(v: Seq<BitSet>, x: int) -> bool { forall|i: int| 0 <= i < v.len() ==> least_of((#[trigger] v[i]).s(), x) }
pub open spec fn nonempty(v: Seq<BitSet>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).s().len() > 0 }
// some call stack reached by several alternatives
pub open spec fn conflict(c: Seq<Cfg>) -> bool { exists|k: (int, Option<int>), a: int, b: int| a != b && #[trigger] member(c, true, k, a) && #[trigger] member(c, true, k, b) }
// some state reached by exactly one alternative
pub open spec fn lone_state(c: Seq<Cfg>) -> bool { exists|k: (int, Option<int>), a: int| #[trigger] member(c, false, k, a) && lone(c, k, a) }
pub open spec fn lone(c: Seq<Cfg>, k: (int, Option<int>), a: int) -> bool { forall|b: int| member(c, false, k, b) ==> a == b }
pub proof fn lemma_conflict(v: Seq<BitSet>, c: Seq<Cfg>)
    requires groups_of(v, c)
    ensures any_conflict(v) == conflict(c), nonempty(v)
{
    let m = choose|m: GM| #[trigger] partition(m, c, true) && listing(v, m);
    let ks = choose|ks: Seq<(int, Option<int>)>| #[trigger] lists(v, m, ks);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).s().len() > 0 by {
        let k = ks[i]; assert(ks.contains(k)); assert(m.contains_key(k)); assert(present(c, true, k));
        let j = choose|j: int| 0 <= j < c.len() && key_of(true, #[trigger] c[j]) == k;
        assert(member(c, true, k, c[j].alt)); assert(m[k].contains(c[j].alt)); lemma_two(v[i].s());
    }
    if any_conflict(v) {
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).s().len() > 1;
        assert(ks.contains(ks[i])); assert(m.contains_key(ks[i]));
        lemma_two(v[i].s());
        let (a, b) = choose|a: int, b: int| a != b && v[i].s().contains(a) && v[i].s().contains(b);
        assert(m[ks[i]].contains(a) && m[ks[i]].contains(b));
        assert(member(c, true, ks[i], a) && member(c, true, ks[i], b));
    }
    if conflict(c) {
        let (k, a, b) = choose|k: (int, Option<int>), a: int, b: int| a != b && #[trigger] member(c, true, k, a) && #[trigger] member(c, true, k, b);
        assert(present(c, true, k)); assert(m.contains_key(k)); assert(ks.contains(k));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(m[k].contains(a) && m[k].contains(b)); assert(v[i].s() == m[k]);
        lemma_two(v[i].s());
    }
}
pub proof fn lemma_lone(v: Seq<BitSet>, m: GM, c: Seq<Cfg>)
    requires partition(m, c, false), listing(v, m)
    ensures any_single(v) == lone_state(c)
{
    let ks = choose|ks: Seq<(int, Option<int>)>| #[trigger] lists(v, m, ks);
    if any_single(v) {
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).s().len() == 1;
        let k = ks[i]; assert(ks.contains(k)); assert(m.contains_key(k));
        let a = v[i].s().choose(); assert(m[k].contains(a)); assert(member(c, false, k, a));
        assert forall|b: int| member(c, false, k, b) implies a == b by { assert(m[k].contains(b)); lemma_two(v[i].s()); }
        assert(lone(c, k, a));
    }
    if lone_state(c) {
        let (k, a) = choose|k: (int, Option<int>), a: int| #[trigger] member(c, false, k, a) && lone(c, k, a);
        assert(present(c, false, k)); assert(m.contains_key(k)); assert(ks.contains(k));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(m[k].contains(a)); assert(v[i].s() == m[k]);
        assert forall|b: int| v[i].s().contains(b) implies b == a by { assert(m[k].contains(b)); }
        assert(v[i].s() =~= Set::<int>::empty().insert(a)); lemma_two(v[i].s());
    }
}
pub proof fn lemma_two(s: Set<int>)
    ensures s.len() > 1 ==> exists|a: int, b: int| a != b && s.contains(a) && s.contains(b),
        s.len() <= 1 ==> forall|a: int, b: int| s.contains(a) && s.contains(b) ==> a == b,
        s.len() == 0 ==> forall|a: int| !s.contains(a),
        forall|a: int| s.contains(a) ==> s.len() > 0,
{
    if s.len() > 0 {
        let a = s.choose();
        let t = s.remove(a);
        if t.len() > 0 { let b = t.choose(); assert(t.contains(b)); assert(s.contains(b) && a != b); }
        else { assert forall|x: int| s.contains(x) implies x == a by { if x != a { assert(t.contains(x)); assert(t.len() > 0) by { if t.len() == 0 { assert(t =~= Set::empty()); } } } } }
    } else { assert(s =~= Set::empty()); }
}
pub open spec fn in_some(v: Seq<BitSet>, n: int, a: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] v[i]).s().contains(a) }
pub open spec fn small1(s: Set<int>) -> bool { forall|a: int| #[trigger] s.contains(a) ==> 0 <= a < 0x1000_0000_0000 }
pub open spec fn small(v: Seq<BitSet>) -> bool { forall|i: int| 0 <= i < v.len() ==> small1((#[trigger] v[i]).s()) }
