#![allow(unused)]
#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use vstd::std_specs::cmp::OrdSpec;
use std::cmp::{max, min, Ordering};
verus! {
global size_of usize == 8;

// ---------- abstract view -------------------------------------------------
// machine-integer range the elements must stay in (every token type / code point does)
pub open spec fn LO() -> int { -0x1000_0000_0000_0000 }
pub open spec fn HI() -> int { 0x1000_0000_0000_0000 }
pub open spec fn in_range(v: int) -> bool { LO() <= v <= HI() }
pub open spec fn iv_ok(x: Interval) -> bool { LO() <= x.a <= x.b <= HI() }
pub open spec fn iv_has(x: Interval, v: int) -> bool { x.a <= v <= x.b }
// canonical representation: non-empty, sorted, pairwise disjoint and non-adjacent
#[verifier::opaque]
pub open spec fn canon(s: Seq<Interval>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> iv_ok(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).b + 1 < (#[trigger] s[j]).a
}
pub proof fn c_ok(s: Seq<Interval>, i: int) requires canon(s), 0 <= i < s.len() ensures iv_ok(s[i]) { reveal(canon); }
pub proof fn c_lt(s: Seq<Interval>, i: int, j: int) requires canon(s), 0 <= i < j < s.len() ensures s[i].b + 1 < s[j].a, iv_ok(s[i]), iv_ok(s[j]) { reveal(canon); assert(iv_ok(s[i])); assert(iv_ok(s[j])); }
pub proof fn c_intro(s: Seq<Interval>)
    requires forall|i: int| 0 <= i < s.len() ==> iv_ok(#[trigger] s[i]), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).b + 1 < (#[trigger] s[j]).a
    ensures canon(s) { reveal(canon); }
pub open spec fn inset(s: Seq<Interval>, v: int) -> bool {
    exists|i: int| 0 <= i < s.len() && iv_has(#[trigger] s[i], v)
}
// number of elements of the set
pub open spec fn card(s: Seq<Interval>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { card(s.drop_last()) + s.last().b - s.last().a + 1 }
}
pub proof fn lemma_card_bound(s: Seq<Interval>)
    requires canon(s)
    ensures 0 <= card(s), s.len() > 0 ==> card(s) <= s.last().b - s[0].a + 1
    decreases s.len()
{
    reveal(canon);
    if s.len() > 0 {
        let d = s.drop_last();
        assert(canon(d)) by {
            assert forall|i: int| 0 <= i < d.len() implies iv_ok(#[trigger] d[i]) by { assert(iv_ok(s[i])); }
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).b + 1 < (#[trigger] d[j]).a by { assert(s[i].b + 1 < s[j].a); }
        }
        lemma_card_bound(d);
        assert(iv_ok(s[s.len() - 1]));
        if d.len() > 0 {
            assert(d[0] == s[0]);
            assert(d.last() == s[s.len() - 2]);
            assert(s[s.len() - 2].b + 1 < s[s.len() - 1].a);
        }
    }
}

// canonical representations are unique, so structural equality is set equality
pub proof fn lemma_unique(s: Seq<Interval>, t: Seq<Interval>)
    requires canon(s), canon(t), forall|v: int| inset(s, v) == inset(t, v)
    ensures s == t
    decreases s.len()
{
    reveal(canon);
    if s.len() == 0 {
        if t.len() > 0 { assert(iv_ok(t[0])); assert(iv_has(t[0], t[0].a as int)); assert(inset(t, t[0].a as int)); assert(inset(s, t[0].a as int)); }
        assert(s =~= t);
    } else if t.len() == 0 {
        assert(iv_ok(s[0])); assert(iv_has(s[0], s[0].a as int)); assert(inset(s, s[0].a as int)); assert(inset(t, s[0].a as int));
    } else {
        let n = s.len() - 1; let m = t.len() - 1;
        let x = s[n]; let y = t[m];
        assert(iv_ok(x) && iv_ok(y));
        // same maximum
        assert(iv_has(s[n], x.b as int)); assert(inset(s, x.b as int)); assert(inset(t, x.b as int));
        assert(iv_has(t[m], y.b as int)); assert(inset(t, y.b as int)); assert(inset(s, y.b as int));
        assert(forall|v: int| inset(s, v) ==> v <= x.b);
        assert(forall|v: int| inset(t, v) ==> v <= y.b);
        assert(x.b == y.b);
        // same start of the last block
        if x.a < y.a {
            let v = y.a - 1;
            assert(iv_has(s[n], v)); assert(inset(s, v)); assert(inset(t, v));
            let k = choose|k: int| 0 <= k < t.len() && iv_has(#[trigger] t[k], v);
            if k < m { assert(t[k].b + 1 < t[m].a); }
            assert(false);
        }
        if y.a < x.a {
            let v = x.a - 1;
            assert(iv_has(t[m], v)); assert(inset(t, v)); assert(inset(s, v));
            let k = choose|k: int| 0 <= k < s.len() && iv_has(#[trigger] s[k], v);
            if k < n { assert(s[k].b + 1 < s[n].a); }
            assert(false);
        }
        assert(x == y);
        let ds = s.drop_last(); let dt = t.drop_last();
        assert forall|v: int| inset(ds, v) == inset(dt, v) by {
            if inset(ds, v) {
                let k = choose|k: int| 0 <= k < ds.len() && iv_has(#[trigger] ds[k], v);
                assert(iv_has(s[k], v)); assert(inset(s, v)); assert(s[k].b + 1 < s[n].a);
                let j = choose|j: int| 0 <= j < t.len() && iv_has(#[trigger] t[j], v);
                assert(j < m); assert(iv_has(dt[j], v));
            }
            if inset(dt, v) {
                let k = choose|k: int| 0 <= k < dt.len() && iv_has(#[trigger] dt[k], v);
                assert(iv_has(t[k], v)); assert(inset(t, v)); assert(t[k].b + 1 < t[m].a);
                let j = choose|j: int| 0 <= j < s.len() && iv_has(#[trigger] s[j], v);
                assert(j < n); assert(iv_has(ds[j], v));
            }
        }
        assert(canon(ds)) by {
            assert forall|i: int| 0 <= i < ds.len() implies iv_ok(#[trigger] ds[i]) by { assert(iv_ok(s[i])); }
            assert forall|i: int, j: int| 0 <= i < j < ds.len() implies (#[trigger] ds[i]).b + 1 < (#[trigger] ds[j]).a by { assert(s[i].b + 1 < s[j].a); }
        }
        assert(canon(dt)) by {
            assert forall|i: int| 0 <= i < dt.len() implies iv_ok(#[trigger] dt[i]) by { assert(iv_ok(t[i])); }
            assert forall|i: int, j: int| 0 <= i < j < dt.len() implies (#[trigger] dt[i]).b + 1 < (#[trigger] dt[j]).a by { assert(t[i].b + 1 < t[j].a); }
        }
        lemma_unique(ds, dt);
        assert(s =~= ds.push(x)); assert(t =~= dt.push(y));
    }
}

// ---------- trusted: std library contracts -------------------------------
pub assume_specification<T: Ord + std::marker::Destruct> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { b } else { a });
pub assume_specification<T: Ord + std::marker::Destruct> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { a } else { b });

pub open spec fn ord3(o: Ordering) -> int { match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 } }
pub open spec fn answers_neq<'a, T: 'a, F: FnMut(&'a T) -> Ordering>(f: F, x: T) -> bool { exists|o: Ordering| o != Ordering::Equal && #[trigger] call_ensures(f, (&x,), o) }
pub assume_specification<'a, T, F: FnMut(&'a T) -> Ordering> [<[T]>::binary_search_by] (s: &'a [T], f: F) -> (r: Result<usize, usize>)
    requires
        forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
        forall|i: int, j: int, o: Ordering, p: Ordering| 0 <= i < j < s@.len()
            && #[trigger] call_ensures(f, (&s@[i],), o) && #[trigger] call_ensures(f, (&s@[j],), p) ==> ord3(o) <= ord3(p),
    ensures match r {
        Ok(i) => i < s@.len() && call_ensures(f, (&s@[i as int],), Ordering::Equal),
        Err(_) => forall|k: int| 0 <= k < s@.len() ==> answers_neq(f, #[trigger] s@[k]),
    };

pub fn vpanic() requires false { }

// ---------- code under contract -------------------------------------------
//@ item src/interval_set.rs struct Interval {derive=Copy,Clone,Eq,PartialEq,Structural}
//@ item src/interval_set.rs struct IntervalSet

impl Interval {
//@ fn src/interval_set.rs Interval::new {ret=r}
    ensures r.a == a, r.b == b
//@ end
//@ fn src/interval_set.rs Interval::length {ret=r}
    requires in_range(self.a as int), in_range(self.b as int)
    ensures r == self.b - self.a
//@ end
//@ fn src/interval_set.rs Interval::union {ret=r}
    ensures r.a == (if self.a <= another.a { self.a } else { another.a }),
            r.b == (if self.b >= another.b { self.b } else { another.b }),
//@ end
//@ fn src/interval_set.rs Interval::starts_before_disjoint {ret=r}
    ensures r == (self.a < other.a && self.b < other.a)
//@ end
//@ fn src/interval_set.rs Interval::starts_before_non_disjoint {ret=r}
    ensures r == (self.a <= other.a && self.b >= other.a)
//@ end
//@ fn src/interval_set.rs Interval::starts_after {ret=r}
    ensures r == (self.a > other.a)
//@ end
//@ fn src/interval_set.rs Interval::starts_after_disjoint {ret=r}
    ensures r == (self.a > other.b)
//@ end
//@ fn src/interval_set.rs Interval::starts_after_non_disjoint {ret=r}
    ensures r == (self.a > other.a && self.a <= other.b)
//@ end
//@ fn src/interval_set.rs Interval::disjoint {ret=r}
    requires iv_ok(*self), iv_ok(*other)
    ensures r == (forall|v: int| !(iv_has(*self, v) && iv_has(*other, v))),
            r == (self.b < other.a || self.a > other.b)
//@ at fn start
    proof { assert(iv_has(*self, self.a as int)); assert(iv_has(*other, other.a as int)); assert(iv_has(*other, self.a as int) || iv_has(*self, other.a as int) || self.b < other.a || self.a > other.b); }
//@ end
//@ fn src/interval_set.rs Interval::adjacent {ret=r}
    requires in_range(self.a as int), in_range(self.b as int), in_range(other.a as int), in_range(other.b as int)
    ensures r == (self.a == other.b + 1 || self.b + 1 == other.a)
//@ end
}

impl IntervalSet {
    pub open spec fn wf(&self) -> bool { canon(self.intervals@) }
    pub open spec fn mem(&self, v: int) -> bool { inset(self.intervals@, v) }

//@ fn src/interval_set.rs IntervalSet::new {ret=r}
    ensures r.wf(), forall|v: int| !r.mem(v), r.intervals@.len() == 0, !r.read_only
//@ at fn start
    proof { reveal(canon); }
//@ end
//@ fn src/interval_set.rs IntervalSet::get_min {ret=r}
//@ rewrite __r.map(|__x| __x.a) => __r.map(|__x: &Interval| -> (o: isize) ensures o == __x.a { __x.a })
    requires self.wf()
    ensures match r {
        Some(m) => self.mem(m as int) && forall|v: int| self.mem(v) ==> m <= v,
        None => forall|v: int| !self.mem(v),
    }
//@ at fn start
    proof { reveal(canon); }
    proof { if self.intervals@.len() > 0 { assert(iv_ok(self.intervals@[0])); assert(iv_has(self.intervals@[0], self.intervals@[0].a as int)); } }
//@ end
//@ fn src/interval_set.rs IntervalSet::add_one
    requires old(self).wf(), in_range(_v as int)
    ensures final(self).wf(), final(self).read_only == old(self).read_only, forall|v: int| (#[trigger] final(self).mem(v)) == (old(self).mem(v) || v == _v)
//@ end
//@ fn src/interval_set.rs IntervalSet::add_range
    requires old(self).wf(), in_range(l as int), in_range(h as int)
    ensures final(self).wf(), final(self).read_only == old(self).read_only, forall|v: int| (#[trigger] final(self).mem(v)) == (old(self).mem(v) || l <= v <= h)
//@ end
//@ fn src/interval_set.rs IntervalSet::add_interval
    requires old(self).wf(), in_range(added.a as int), in_range(added.b as int)
    ensures
        final(self).wf(), final(self).read_only == old(self).read_only,
        forall|v: int| (#[trigger] final(self).mem(v)) == (old(self).mem(v) || iv_has(added, v)),
        final(self).intervals@.len() <= old(self).intervals@.len() + 1,
//@ at fn start
    proof { reveal(canon); }
    let ghost s0 = self.intervals@;
    proof { assert(self.intervals.len() == s0.len()); }
//@ loop 0 while_let
    invariant
        self.intervals@ == s0, self.read_only == old(self).read_only, canon(s0), iv_ok(added), i <= s0.len() <= usize::MAX,
        s0 == old(self).intervals@,
        forall|k: int| 0 <= k < i ==> (#[trigger] s0[k]).b + 1 < added.a,
    ensures i >= s0.len()
    decreases s0.len() - i
//@ at loop 0 start
    proof { c_ok(s0, i as int); }
//@ at before loop {
    let ghost i0 = i as int - 1;
    let ghost mut j = i as int;
//@ loop 1 loop
    invariant
        canon(s0), iv_ok(added), s0 == old(self).intervals@, self.read_only == old(self).read_only,
        0 <= i0, i == i0 + 1, i0 + 1 <= j <= s0.len(),
        self.intervals@.len() == i0 + 1 + s0.len() - j,
        forall|k: int| 0 <= k < i0 ==> #[trigger] self.intervals@[k] == s0[k],
        forall|k: int| i0 < k < self.intervals@.len() ==> #[trigger] self.intervals@[k] == s0[k - i0 - 1 + j],
        forall|k: int| 0 <= k < i0 ==> (#[trigger] s0[k]).b + 1 < added.a,
        added.a <= s0[i0].b + 1, s0[i0].a <= added.b + 1,
        bigger.a == (if added.a <= s0[i0].a { added.a } else { s0[i0].a }),
        bigger.b == (if added.b >= s0[i0].b { added.b } else { s0[i0].b }),
        self.intervals@[i0].a == bigger.a,
        self.intervals@[i0].b == (if added.b >= s0[j - 1].b { added.b } else { s0[j - 1].b }),
        s0[j - 1].a <= added.b + 1,
    ensures
        j < s0.len() ==> self.intervals@[i0].b + 1 < s0[j].a,
    decreases s0.len() - j
//@ at loop 1 start
    proof {
        c_ok(s0, i0);
        c_ok(s0, j - 1);
        if j < s0.len() { c_lt(s0, j - 1, j); c_lt(s0, i0, j);
            assert(self.intervals@[i as int] == s0[j]); }
    }
//@ at loop 1 end
    proof { j = j + 1; }
//@ at loop 1 after
    proof { lemma_merge(s0, self.intervals@, i0, j, added); }
//@ at before #0 return;
    proof { assert(forall|v: int| !iv_has(added, v)); }
//@ at before #1 return;
    proof { assert(self.intervals@ =~= s0); assert forall|v: int| iv_has(added, v) implies inset(s0, v) by { assert(iv_has(s0[i as int], v)); } }
//@ at after self.intervals.insert(i, added)
    proof {
        let s1 = self.intervals@;
        assert(s1 =~= s0.insert(i as int, added));
        lemma_insert(s0, i as int, added);
    }
//@ at after self.intervals.push(added)
    proof {
        assert(self.intervals@ =~= s0.insert(s0.len() as int, added));
        lemma_insert(s0, s0.len() as int, added);
    }
//@ end

//@ fn src/interval_set.rs IntervalSet::add_set
    requires old(self).wf(), _other.wf()
    ensures final(self).wf(), final(self).read_only == old(self).read_only, forall|v: int| (#[trigger] final(self).mem(v)) == (old(self).mem(v) || _other.mem(v))
//@ loop 0 for {iter=it}
    invariant
        self.wf(), _other.wf(), self.read_only == old(self).read_only,
        forall|v: int| #[trigger] inset(self.intervals@, v) == (inset(old(self).intervals@, v) || exists|k: int| 0 <= k < it.index() && iv_has(#[trigger] _other.intervals@[k], v)),
//@ at loop 0 start
    let ghost pre = self.intervals@;
    proof { c_ok(_other.intervals@, it.index() as int); }
//@ at loop 0 end
    proof {
        let n = it.index() as int;
        assert forall|v: int| #[trigger] inset(self.intervals@, v) == (inset(old(self).intervals@, v) || exists|k: int| 0 <= k < n + 1 && iv_has(#[trigger] _other.intervals@[k], v)) by {
            assert(self.mem(v) == (inset(pre, v) || iv_has(_other.intervals@[n], v)));
            if inset(pre, v) && !inset(old(self).intervals@, v) {
                let k = choose|k: int| 0 <= k < n && iv_has(#[trigger] _other.intervals@[k], v);
                assert(0 <= k < n + 1 && iv_has(_other.intervals@[k], v));
            }
        }
    }
//@ at fn start
    proof { reveal(canon); }
//@ end

//@ fn src/interval_set.rs IntervalSet::substract
    requires old(self).wf(), right.wf()
    ensures final(self).wf(), forall|v: int| (#[trigger] final(self).mem(v)) == (old(self).mem(v) && !right.mem(v))
//@ at fn start
    proof { reveal(canon); }
    let ghost s0 = self.intervals@;
    let ghost t = right.intervals@;
    proof { assert(sub_inv(s0, s0, t, 0, 0)); }
//@ loop 0 while
    invariant
        t == right.intervals@, s0 == old(self).intervals@,
        sub_inv(s0, result.intervals@, t, result_i as int, right_i as int),
    decreases result.intervals@.len() - result_i + t.len() - right_i
//@ at loop 0 start
    let ghost cur = result.intervals@;
    proof { c_ok(cur, result_i as int); c_ok(t, right_i as int); }
//@ at before #0 continue
    proof { lemma_sub_skip_right(s0, cur, t, result_i as int, right_i as int - 1); }
//@ at before #1 continue
    proof { lemma_sub_skip_result(s0, cur, t, result_i as int - 1, right_i as int); }
//@ at loop 0 end
    proof {
        assert(result.intervals@ =~= cur.take(i0) + pieces(cur[i0], t[j0]) + cur.skip(i0 + 1));
        lemma_sub_step(s0, cur, result.intervals@, t, i0, j0);
    }
//@ at before match (before_curr, after_curr)
    let ghost i0 = result_i as int;
    let ghost j0 = right_i as int;
//@ at loop 0 after
    proof { lemma_sub_end(s0, result.intervals@, t, result_i as int, right_i as int); }
//@ end

//@ fn src/interval_set.rs IntervalSet::complement {ret=r}
    requires self.wf(), in_range(start as int), in_range(stop as int)
    ensures r.wf(), forall|v: int| (#[trigger] r.mem(v)) == (start <= v <= stop && !self.mem(v))
//@ end

//@ fn src/interval_set.rs IntervalSet::contains {ret=r}
//@ rewrite __v.binary_search_by(|__x| __body) => __v.binary_search_by(|__x: &Interval| -> (o: Ordering) ensures o == (if _item < __x.a { Ordering::Greater } else if _item > __x.b { Ordering::Less } else { Ordering::Equal }) __body)
    requires self.wf()
    ensures r == self.mem(_item as int)
//@ at fn start
    proof { reveal(canon); }
//@ end

//@ fn src/interval_set.rs IntervalSet::length {ret=r}
//@ rewrite __v.iter().fold(__z, |__acc, __it| __e) => { let mut __acc: isize = __z; for __it in gi: __v.iter() invariant __acc == card(__v@.take(gi.index() as int)), canon(__v@) { proof { lemma_card_step(__v@, gi.index() as int); } __acc = __e; } proof { assert(__v@.take(__v@.len() as int) =~= __v@); } __acc }
    requires self.wf()
    ensures r == card(self.intervals@)
//@ end

//@ fn src/interval_set.rs IntervalSet::remove_one
//@ rename int => int_
//@ rewrite panic!(__rest) => vpanic()
    requires old(self).wf(), !old(self).read_only, in_range(el as int)
    ensures final(self).wf(), final(self).read_only == old(self).read_only, forall|v: int| (#[trigger] final(self).mem(v)) == (old(self).mem(v) && v != el)
//@ at fn start
    let ghost s0 = self.intervals@;
    let ghost mut cut = false;
    proof { assert(self.intervals.len() == s0.len()); }
//@ loop 0 for {iter=it}
    invariant_except_break
        canon(self.intervals@), self.intervals@.len() >= s0.len(),
        !cut ==> self.intervals@ == s0,
        !cut ==> forall|k: int| 0 <= k < it.index() ==> (#[trigger] s0[k]).b < el,
    invariant
        canon(s0), s0 == old(self).intervals@, self.read_only == old(self).read_only, in_range(el as int), it.index() <= s0.len(), it.seq().len() == s0.len(),
        cut ==> (forall|v: int| #[trigger] inset(self.intervals@, v) == (inset(s0, v) && v != el)),
    ensures
        canon(self.intervals@), forall|v: int| #[trigger] inset(self.intervals@, v) == (inset(s0, v) && v != el),
//@ at loop 0 start
    let ghost cur = self.intervals@;
    proof { c_ok(cur, i as int); lemma_cut(cur, i as int, el); lemma_absent(cur, i as int, el as int); }
//@ at loop 0 end
    proof {
        if !(cur[i as int].a < el < cur[i as int].b) {
            assert(self.intervals@ =~= cur);
        } else {
            assert forall|v: int| inset(self.intervals@, v) == inset(cut_at(cur, i as int, el), v) by {
                assert(self.mem(v) == (inset(cur, v) && !(el <= v <= cur[i as int].b) || el + 1 <= v <= cur[i as int].b));
                if el + 1 <= v <= cur[i as int].b { assert(iv_has(cur[i as int], v)); }
            }
            lemma_unique(self.intervals@, cut_at(cur, i as int, el));
            cut = true;
        }
    }
//@ at before #0 break
    proof { assert(self.intervals@ =~= cur); }
//@ at before #1 break
    proof { assert(self.intervals@ =~= cut_at(cur, i as int, el)); }
//@ at before #2 break
    proof { assert(self.intervals@ =~= cut_at(cur, i as int, el)); }
//@ at before #3 break
    proof { assert(self.intervals@ =~= cut_at(cur, i as int, el)); }
//@ at before self.add_range
    proof {
        let one = cur.update(i as int, Interval { a: cur[i as int].a, b: (el - 1) as isize });
        assert(self.intervals@ =~= one);
        lemma_shrink(cur, i as int, el);
    }
//@ end
}

pub proof fn lemma_merge(s0: Seq<Interval>, s1: Seq<Interval>, i0: int, j: int, added: Interval)
    requires
        canon(s0), iv_ok(added), 0 <= i0, i0 + 1 <= j <= s0.len(),
        s1.len() == i0 + 1 + s0.len() - j,
        forall|k: int| 0 <= k < i0 ==> #[trigger] s1[k] == s0[k],
        forall|k: int| i0 < k < s1.len() ==> #[trigger] s1[k] == s0[k - i0 - 1 + j],
        forall|k: int| 0 <= k < i0 ==> (#[trigger] s0[k]).b + 1 < added.a,
        added.a <= s0[i0].b + 1, s0[i0].a <= added.b + 1,
        s1[i0].a == (if added.a <= s0[i0].a { added.a } else { s0[i0].a }),
        s1[i0].b == (if added.b >= s0[j - 1].b { added.b } else { s0[j - 1].b }),
        s0[j - 1].a <= added.b + 1,
        j < s0.len() ==> s1[i0].b + 1 < s0[j].a,
    ensures canon(s1), forall|v: int| #[trigger] inset(s1, v) == (inset(s0, v) || iv_has(added, v))
{
    c_ok(s0, i0); c_ok(s0, j - 1);
    assert forall|x: int| 0 <= x < s1.len() implies iv_ok(#[trigger] s1[x]) by {
        if x < i0 { c_ok(s0, x); } else if x > i0 { c_ok(s0, x - i0 - 1 + j); }
    }
    assert forall|x: int, y: int| 0 <= x < y < s1.len() implies (#[trigger] s1[x]).b + 1 < (#[trigger] s1[y]).a by {
        if x < i0 {
            assert(s0[x].b + 1 < added.a);
            if y <= i0 { c_lt(s0, x, y); } else { c_lt(s0, x, y - i0 - 1 + j); }
        } else if x == i0 { if y - i0 - 1 > 0 { c_lt(s0, j, y - i0 - 1 + j); } }
        else { c_lt(s0, x - i0 - 1 + j, y - i0 - 1 + j); }
    }
    c_intro(s1);
    assert forall|v: int| #[trigger] inset(s1, v) == (inset(s0, v) || iv_has(added, v)) by {
        if inset(s1, v) {
            let x = choose|x: int| 0 <= x < s1.len() && iv_has(#[trigger] s1[x], v);
            if x < i0 { assert(iv_has(s0[x], v)); } else if x > i0 { assert(iv_has(s0[x - i0 - 1 + j], v)); }
            else if !iv_has(added, v) { if v < added.a { assert(iv_has(s0[i0], v)); } else { assert(iv_has(s0[j - 1], v)); } }
        }
        if inset(s0, v) {
            let x = choose|x: int| 0 <= x < s0.len() && iv_has(#[trigger] s0[x], v);
            if x < i0 { assert(iv_has(s1[x], v)); } else if x < j {
                if x < j - 1 { c_lt(s0, x, j - 1); }
                if x > i0 { c_lt(s0, i0, x); }
                assert(iv_has(s1[i0], v)); }
            else { assert(iv_has(s1[x - j + i0 + 1], v)); }
        }
        if iv_has(added, v) { assert(iv_has(s1[i0], v)); }
    }
}
pub proof fn lemma_card_step(s: Seq<Interval>, n: int)
    requires canon(s), 0 <= n < s.len()
    ensures
        card(s.take(n + 1)) == card(s.take(n)) + s[n].b - s[n].a + 1,
        0 <= card(s.take(n)) <= HI() - LO() + 1, 0 <= card(s.take(n + 1)) <= HI() - LO() + 1,
        iv_ok(s[n]),
{
    let t = s.take(n + 1);
    assert(t.drop_last() =~= s.take(n));
    lemma_canon_sub(s, n); lemma_canon_sub(s, n + 1);
    lemma_card_bound(s.take(n)); lemma_card_bound(t);
    c_ok(t, n); c_ok(t, 0);
    if n > 0 { c_ok(s.take(n), n - 1); c_ok(s.take(n), 0); }
}
pub proof fn lemma_canon_sub(s: Seq<Interval>, n: int)
    requires canon(s), 0 <= n <= s.len()
    ensures canon(s.take(n))
{
    reveal(canon);
    let t = s.take(n);
    assert forall|i: int| 0 <= i < t.len() implies iv_ok(#[trigger] t[i]) by { assert(iv_ok(s[i])); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).b + 1 < (#[trigger] t[j]).a by { assert(s[i].b + 1 < s[j].a); }
}

// ---------- subtraction ----------------------------------------------------
pub open spec fn apart(x: Interval, y: Interval) -> bool { x.b < y.a || x.a > y.b }
pub open spec fn sub_inv(s0: Seq<Interval>, cur: Seq<Interval>, t: Seq<Interval>, i: int, j: int) -> bool {
    &&& canon(s0) && canon(cur) && canon(t)
    &&& 0 <= i <= cur.len() && 0 <= j <= t.len()
    &&& forall|v: int| inset(cur, v) ==> inset(s0, v)
    &&& forall|v: int| inset(s0, v) && !inset(t, v) ==> inset(cur, v)
    &&& forall|x: int, k: int| 0 <= x < i && 0 <= k < t.len() ==> apart(#[trigger] cur[x], #[trigger] t[k])
    &&& forall|x: int, k: int| i <= x < cur.len() && 0 <= k < j ==> (#[trigger] cur[x]).a > (#[trigger] t[k]).b
}

pub proof fn lemma_sub_skip_right(s0: Seq<Interval>, cur: Seq<Interval>, t: Seq<Interval>, i: int, j: int)
    requires sub_inv(s0, cur, t, i, j), i < cur.len(), j < t.len(), t[j].b < cur[i].a
    ensures sub_inv(s0, cur, t, i, j + 1)
{
    reveal(canon);
    assert forall|x: int, k: int| i <= x < cur.len() && 0 <= k < j + 1 implies (#[trigger] cur[x]).a > (#[trigger] t[k]).b by {
        if k == j && x > i { assert(cur[i].b + 1 < cur[x].a); assert(iv_ok(cur[i])); }
    }
}
pub proof fn lemma_sub_skip_result(s0: Seq<Interval>, cur: Seq<Interval>, t: Seq<Interval>, i: int, j: int)
    requires sub_inv(s0, cur, t, i, j), i < cur.len(), j < t.len(), t[j].a > cur[i].b
    ensures sub_inv(s0, cur, t, i + 1, j)
{
    reveal(canon);
    assert forall|x: int, k: int| 0 <= x < i + 1 && 0 <= k < t.len() implies apart(#[trigger] cur[x], #[trigger] t[k]) by {
        if x == i { if k < j { assert(cur[x].a > t[k].b); } else if k > j { assert(t[j].b + 1 < t[k].a); assert(iv_ok(t[j])); } }
    }
}
pub proof fn lemma_sub_end(s0: Seq<Interval>, cur: Seq<Interval>, t: Seq<Interval>, i: int, j: int)
    requires sub_inv(s0, cur, t, i, j), i == cur.len() || j == t.len()
    ensures canon(cur), forall|v: int| #[trigger] inset(cur, v) == (inset(s0, v) && !inset(t, v))
{
    assert forall|v: int| #[trigger] inset(cur, v) implies !inset(t, v) by {
        if inset(t, v) {
            let x = choose|x: int| 0 <= x < cur.len() && iv_has(#[trigger] cur[x], v);
            let k = choose|k: int| 0 <= k < t.len() && iv_has(#[trigger] t[k], v);
            if x < i { assert(apart(cur[x], t[k])); } else { assert(cur[x].a > t[k].b); }
        }
    }
}
// the four ways a result interval is cut by an overlapping right interval
pub open spec fn pieces(r: Interval, q: Interval) -> Seq<Interval> {
    (if q.a > r.a { seq![Interval { a: r.a, b: (q.a - 1) as isize }] } else { seq![] })
    + (if q.b < r.b { seq![Interval { a: (q.b + 1) as isize, b: r.b }] } else { seq![] })
}
pub proof fn lemma_sub_step(s0: Seq<Interval>, cur: Seq<Interval>, nxt: Seq<Interval>, t: Seq<Interval>, i: int, j: int)
    requires
        sub_inv(s0, cur, t, i, j), i < cur.len(), j < t.len(),
        t[j].b >= cur[i].a, t[j].a <= cur[i].b,
        nxt =~= cur.take(i) + pieces(cur[i], t[j]) + cur.skip(i + 1),
    ensures
        sub_inv(s0, nxt, t, i + (if t[j].a > cur[i].a { 1int } else { 0 }), j + (if t[j].b < cur[i].b { 1int } else { 0 })),
{
    let r = cur[i]; let q = t[j];
    c_ok(cur, i); c_ok(t, j);
    let p = pieces(r, q);
    let n = p.len() as int;
    assert(0 <= n <= 2);
    assert forall|x: int| 0 <= x < i implies #[trigger] nxt[x] == cur[x] by {}
    assert forall|x: int| 0 <= x < n implies #[trigger] nxt[i + x] == p[x] by {}
    assert forall|x: int| i + n <= x < nxt.len() implies #[trigger] nxt[x] == cur[x - n + 1] by {}
    assert(nxt.len() == cur.len() - 1 + n);
    if n >= 1 { assert(nxt[i + 0] == p[0]); assert(iv_ok(p[0])); assert(r.a <= p[0].a && p[0].b <= r.b); }
    if n == 2 { assert(nxt[i + 1] == p[1]); assert(iv_ok(p[1])); assert(r.a <= p[1].a && p[1].b <= r.b); assert(p[0].b + 1 < p[1].a); }
    assert forall|x: int| 0 <= x < nxt.len() implies iv_ok(#[trigger] nxt[x]) by {
        if x < i { c_ok(cur, x); } else if x >= i + n { c_ok(cur, x - n + 1); }
    }
    assert forall|x: int, y: int| 0 <= x < y < nxt.len() implies (#[trigger] nxt[x]).b + 1 < (#[trigger] nxt[y]).a by {
        let ox = if x < i { x } else if x < i + n { i } else { x - n + 1 };
        let oy = if y < i { y } else if y < i + n { i } else { y - n + 1 };
        if ox < oy { c_lt(cur, ox, oy); }
    }
    c_intro(nxt);
    lemma_sub_step_mem(s0, cur, nxt, t, i, j);
    let i2 = i + (if q.a > r.a { 1int } else { 0 });
    let j2 = j + (if q.b < r.b { 1int } else { 0 });
    assert forall|x: int, k: int| 0 <= x < i2 && 0 <= k < t.len() implies apart(#[trigger] nxt[x], #[trigger] t[k]) by {
        if x < i { assert(apart(cur[x], t[k])); }
        else { if k < j { assert(cur[i].a > t[k].b); } else if k > j { c_lt(t, j, k); } }
    }
    assert forall|x: int, k: int| i2 <= x < nxt.len() && 0 <= k < j2 implies (#[trigger] nxt[x]).a > (#[trigger] t[k]).b by {
        let ox = if x < i + n { i } else { x - n + 1 };
        if k < j { assert(cur[ox].a > t[k].b); } else if ox > i { c_lt(cur, i, ox); }
    }
}
pub proof fn lemma_sub_step_mem(s0: Seq<Interval>, cur: Seq<Interval>, nxt: Seq<Interval>, t: Seq<Interval>, i: int, j: int)
    requires
        0 <= i < cur.len(), 0 <= j < t.len(), iv_ok(cur[i]), iv_ok(t[j]),
        t[j].b >= cur[i].a, t[j].a <= cur[i].b,
        nxt =~= cur.take(i) + pieces(cur[i], t[j]) + cur.skip(i + 1),
        forall|v: int| inset(cur, v) ==> inset(s0, v),
        forall|v: int| inset(s0, v) && !inset(t, v) ==> inset(cur, v),
    ensures
        forall|v: int| inset(nxt, v) ==> inset(s0, v),
        forall|v: int| inset(s0, v) && !inset(t, v) ==> inset(nxt, v),
{
    let r = cur[i]; let q = t[j];
    let p = pieces(r, q);
    let n = p.len() as int;
    assert forall|v: int| inset(nxt, v) implies inset(s0, v) by {
        let x = choose|x: int| 0 <= x < nxt.len() && iv_has(#[trigger] nxt[x], v);
        let ox = if x < i { x } else if x < i + n { i } else { x - n + 1 };
        assert(iv_has(cur[ox], v)); assert(inset(cur, v));
    }
    assert forall|v: int| inset(s0, v) && !inset(t, v) implies inset(nxt, v) by {
        assert(inset(cur, v));
        let x = choose|x: int| 0 <= x < cur.len() && iv_has(#[trigger] cur[x], v);
        if x < i { assert(iv_has(nxt[x], v)); }
        else if x > i { assert(iv_has(nxt[x + n - 1], v)); }
        else {
            assert(!iv_has(t[j], v));
            if v < q.a { assert(iv_has(nxt[i], v)); } else { assert(iv_has(nxt[i + n - 1], v)); }
        }
    }
}

// ---------- removal of one element -------------------------------------------
pub open spec fn cut_at(s: Seq<Interval>, i: int, el: isize) -> Seq<Interval> {
    s.take(i) + pieces(s[i], Interval { a: el, b: el }) + s.skip(i + 1)
}
pub proof fn lemma_cut(s: Seq<Interval>, i: int, el: isize)
    requires canon(s), 0 <= i < s.len(), in_range(el as int)
    ensures s[i].a <= el <= s[i].b ==> canon(cut_at(s, i, el)) && forall|v: int| #[trigger] inset(cut_at(s, i, el), v) == (inset(s, v) && v != el)
{
    if s[i].a <= el <= s[i].b {
        let q = Interval { a: el, b: el };
        let t = seq![q];
        assert(iv_ok(q));
        c_intro(t);
        let n = cut_at(s, i, el);
        c_ok(s, i);
        assert forall|x: int, k: int| 0 <= x < i && 0 <= k < t.len() implies apart(#[trigger] s[x], #[trigger] t[k]) by { c_lt(s, x, i); }
        assert(sub_inv(s, s, t, i, 0));
        lemma_sub_step(s, s, n, t, i, 0);
        assert forall|v: int| #[trigger] inset(n, v) == (inset(s, v) && v != el) by {
            assert(iv_has(t[0], v) == (v == el));
            assert(inset(t, v) == (v == el));
            if inset(n, v) {
                let x = choose|x: int| 0 <= x < n.len() && iv_has(#[trigger] n[x], v);
                if v == el {
                    if x < i { c_lt(s, x, i); } else if x >= i + pieces(s[i], q).len() { c_lt(s, i, x - pieces(s[i], q).len() + 1); }
                    assert(false);
                }
            }
        }
    }
}
// shortening one interval to end at el - 1
pub proof fn lemma_shrink(s: Seq<Interval>, i: int, el: isize)
    requires canon(s), 0 <= i < s.len(), s[i].a < el < s[i].b
    ensures ({ let n = s.update(i, Interval { a: s[i].a, b: (el - 1) as isize });
        canon(n) && forall|v: int| #[trigger] inset(n, v) == (inset(s, v) && !(el <= v <= s[i].b)) })
{
    let n = s.update(i, Interval { a: s[i].a, b: (el - 1) as isize });
    c_ok(s, i);
    assert forall|x: int| 0 <= x < n.len() implies iv_ok(#[trigger] n[x]) by { c_ok(s, x); }
    assert forall|x: int, y: int| 0 <= x < y < n.len() implies (#[trigger] n[x]).b + 1 < (#[trigger] n[y]).a by { c_lt(s, x, y); }
    c_intro(n);
    assert forall|v: int| #[trigger] inset(n, v) == (inset(s, v) && !(el <= v <= s[i].b)) by {
        if inset(n, v) {
            let x = choose|x: int| 0 <= x < n.len() && iv_has(#[trigger] n[x], v);
            assert(iv_has(s[x], v));
            if x < i { c_lt(s, x, i); } else if x > i { c_lt(s, i, x); }
        }
        if inset(s, v) && !(el <= v <= s[i].b) {
            let x = choose|x: int| 0 <= x < s.len() && iv_has(#[trigger] s[x], v);
            assert(iv_has(n[x], v));
        }
    }
}
// an element below s[i] and above every earlier interval is not in the set
pub proof fn lemma_absent(s: Seq<Interval>, i: int, el: int)
    requires canon(s), 0 <= i < s.len()
    ensures (forall|k: int| 0 <= k < i ==> (#[trigger] s[k]).b < el) && el < s[i].a ==> !inset(s, el)
{
    if (forall|k: int| 0 <= k < i ==> (#[trigger] s[k]).b < el) && el < s[i].a && inset(s, el) {
        let x = choose|x: int| 0 <= x < s.len() && iv_has(#[trigger] s[x], el);
        if x > i { c_lt(s, i, x); }
    }
}

pub proof fn lemma_insert(s0: Seq<Interval>, i: int, added: Interval)
    requires canon(s0), iv_ok(added), 0 <= i <= s0.len(),
        forall|k: int| 0 <= k < i ==> (#[trigger] s0[k]).b + 1 < added.a,
        i < s0.len() ==> added.b + 1 < s0[i].a,
    ensures ({ let s1 = s0.insert(i, added); canon(s1) && forall|v: int| inset(s1, v) == (inset(s0, v) || iv_has(added, v)) })
{
    reveal(canon);
    let s1 = s0.insert(i, added);
    assert forall|x: int| 0 <= x < s1.len() implies iv_ok(#[trigger] s1[x]) by {
        if x < i { assert(iv_ok(s0[x])); } else if x > i { assert(iv_ok(s0[x - 1])); }
    }
    assert forall|x: int, y: int| 0 <= x < y < s1.len() implies (#[trigger] s1[x]).b + 1 < (#[trigger] s1[y]).a by {
        if x < i { if y < i { assert(s0[x].b + 1 < s0[y].a); } else if y > i { assert(s0[x].b + 1 < s0[y - 1].a); } }
        else if x == i { if y - 1 > i { assert(s0[i].b + 1 < s0[y - 1].a); assert(iv_ok(s0[i])); } }
        else { assert(s0[x - 1].b + 1 < s0[y - 1].a); }
    }
    assert forall|v: int| inset(s1, v) == (inset(s0, v) || iv_has(added, v)) by {
        if inset(s1, v) {
            let x = choose|x: int| 0 <= x < s1.len() && iv_has(#[trigger] s1[x], v);
            if x < i { assert(iv_has(s0[x], v)); } else if x > i { assert(iv_has(s0[x - 1], v)); }
        }
        if inset(s0, v) {
            let x = choose|x: int| 0 <= x < s0.len() && iv_has(#[trigger] s0[x], v);
            if x < i { assert(iv_has(s1[x], v)); } else { assert(iv_has(s1[x + 1], v)); }
        }
        if iv_has(added, v) { assert(iv_has(s1[i], v)); }
    }
}
}
fn main() {}
