// Symbol sets by contract only: the bodies of these functions are verified against exactly these
// contracts by P01 (specs/P01.vrs); here they are external.
// ---------- abstract view -------------------------------------------------
// machine-integer range the elements must stay in (every token type / code point does)
pub open spec fn LO() -> int { -0x1000_0000_0000_0000 }
pub open spec fn HI() -> int { 0x1000_0000_0000_0000 }
pub open spec fn in_range(v: int) -> bool { LO() <= v <= HI() }
pub open spec fn iv_ok(x: Interval) -> bool { LO() <= x.a <= x.b <= HI() }
pub open spec fn iv_has(x: Interval, v: int) -> bool { x.a <= v <= x.b }
// canonical representation: non-empty, sorted, pairwise disjoint and non-adjacent
#[verifier::opaque]
pub open spec fn canon(s: Seq<Interval>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> iv_ok(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).b + 1 < (#[trigger] s[j]).a
}
pub proof fn c_ok(s: Seq<Interval>, i: int) requires canon(s), 0 <= i < s.len() ensures iv_ok(s[i]) { reveal(canon); }
pub proof fn c_lt(s: Seq<Interval>, i: int, j: int) requires canon(s), 0 <= i < j < s.len() ensures s[i].b + 1 < s[j].a, iv_ok(s[i]), iv_ok(s[j]) { reveal(canon); assert(iv_ok(s[i])); assert(iv_ok(s[j])); }
pub proof fn c_intro(s: Seq<Interval>)
    requires forall|i: int| 0 <= i < s.len() ==> iv_ok(#[trigger] s[i]), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).b + 1 < (#[trigger] s[j]).a
    ensures canon(s) { reveal(canon); }
pub open spec fn inset(s: Seq<Interval>, v: int) -> bool {
    exists|i: int| 0 <= i < s.len() && iv_has(#[trigger] s[i], v)
}

//@ item src/interval_set.rs struct Interval {derive=Copy,Clone,Eq,PartialEq,Structural}
//@ item src/interval_set.rs struct IntervalSet
impl Clone for IntervalSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl IntervalSet {
    pub open spec fn wf(&self) -> bool { canon(self.intervals@) }
    pub open spec fn mem(&self, v: int) -> bool { inset(self.intervals@, v) }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.wf(), forall|v: int| !r.mem(v), !r.read_only
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_one(&mut self, _v: isize)
        requires old(self).wf(), in_range(_v as int)
        ensures final(self).wf(), forall|v: int| (#[trigger] final(self).mem(v)) == (old(self).mem(v) || v == _v), final(self).read_only == old(self).read_only
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_range(&mut self, l: isize, h: isize)
        requires old(self).wf(), in_range(l as int), in_range(h as int)
        ensures final(self).wf(), forall|v: int| (#[trigger] final(self).mem(v)) == (old(self).mem(v) || l <= v <= h), final(self).read_only == old(self).read_only
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_set(&mut self, _other: &IntervalSet)
        requires old(self).wf(), _other.wf()
        ensures final(self).wf(), forall|v: int| (#[trigger] final(self).mem(v)) == (old(self).mem(v) || _other.mem(v)), final(self).read_only == old(self).read_only
    { unimplemented!() }
    #[verifier::external_body]
    pub fn complement(&self, start: isize, stop: isize) -> (r: IntervalSet)
        requires self.wf(), in_range(start as int), in_range(stop as int)
        ensures r.wf(), forall|v: int| (#[trigger] r.mem(v)) == (start <= v <= stop && !self.mem(v))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, _item: isize) -> (r: bool)
        requires self.wf()
        ensures r == self.mem(_item as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_one(&mut self, el: isize)
        requires old(self).wf(), !old(self).read_only, in_range(el as int)
        ensures final(self).wf(), forall|v: int| (#[trigger] final(self).mem(v)) == (old(self).mem(v) && v != el), final(self).read_only == old(self).read_only
    { unimplemented!() }
}
