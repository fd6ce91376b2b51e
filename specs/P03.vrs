#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/int_stream.rs const EOF

// ---------- what a text is: n characters, the k-th at offset pos(k) with value chr(k); pos(n) is the length -----
pub ghost struct DV { pub n: int, pub pos: spec_fn(int) -> int, pub chr: spec_fn(int) -> int }
impl DV {
    pub open spec fn p(self, k: int) -> int { (self.pos)(k) }
    pub open spec fn c(self, k: int) -> int { (self.chr)(k) }
    // offsets start at 0 and increase strictly
    pub open spec fn ok(self) -> bool {
        &&& self.n >= 0 && self.p(0) == 0 && self.p(self.n) <= 0x7fff_ffff_ffff_ff00
        &&& forall|i: int, j: int| 0 <= i < j <= self.n ==> #[trigger] self.p(i) < #[trigger] self.p(j)
        &&& forall|k: int| 0 <= k < self.n ==> 0 <= #[trigger] self.c(k) <= 0xffff_ffff
    }
    // k is the first character boundary after offset i / the last one before it
    pub open spec fn next_is(self, i: int, k: int) -> bool { 0 <= k <= self.n && i < self.p(k) && (k > 0 ==> self.p(k - 1) <= i) }
    pub open spec fn prev_is(self, i: int, k: int) -> bool { 0 <= k <= self.n && self.p(k) < i && (k < self.n ==> i <= self.p(k + 1)) }
    pub open spec fn nth(self, k: int) -> Option<isize> { if 0 <= k <= self.n { Some(self.p(k) as isize) } else { None } }
}
pub trait InputData {
    spec fn dv(&self) -> DV;
    proof fn mono(&self) ensures self.dv().ok();
    fn len(&self) -> (r: usize) ensures r == self.dv().p(self.dv().n);
    // d characters forward (backward) from `index`, counted from the next (previous) character boundary
    fn offset(&self, index: isize, item_offset: isize) -> (r: Option<isize>)
        requires -1 <= index, index <= self.dv().p(self.dv().n) || item_offset > 0, -0x7fff_ffff_ffff_ff00 <= item_offset,
            item_offset == 0 ==> index >= 0, index + item_offset <= isize::MAX, 
        ensures
            item_offset == 0 ==> r == Some(index),
            item_offset > 0 && index >= self.dv().p(self.dv().n) ==> r is None,
            item_offset < 0 && index <= 0 ==> r is None,
            item_offset > 0 ==> forall|k: int| #[trigger] self.dv().next_is(index as int, k) ==> r == self.dv().nth(k + item_offset - 1),
            item_offset < 0 ==> forall|k: int| #[trigger] self.dv().prev_is(index as int, k) ==> r == self.dv().nth(k + item_offset + 1);
    fn item(&self, index: isize) -> (r: Option<isize>)
        requires -1 <= index <= self.dv().p(self.dv().n)
        ensures forall|k: int| 0 <= k < self.dv().n && #[trigger] self.dv().p(k) == index ==> r == Some(self.dv().c(k) as isize),
            index == self.dv().p(self.dv().n) || index < 0 ==> r is None;
}
// data[start..stop] and data[start..]: the characters between two boundaries (std slicing; panics off a boundary)
pub open spec fn text<D: InputData>(d: &D, a: int, b: int) -> Seq<int> { Seq::new((b - a) as nat, |i: int| d.dv().c(a + i)) }
#[verifier::external_body]
pub struct Piece { x: () }
impl Piece { pub uninterp spec fn v(&self) -> Seq<int>; }
#[verifier::external_body]
pub fn slice<D: InputData>(d: &D, start: usize, stop: usize) -> (r: Piece)
    requires start <= stop, exists|a: int| 0 <= a <= d.dv().n && #[trigger] d.dv().p(a) == start, exists|b: int| 0 <= b <= d.dv().n && #[trigger] d.dv().p(b) == stop
    ensures forall|a: int, b: int| 0 <= a <= b <= d.dv().n && #[trigger] d.dv().p(a) == start && #[trigger] d.dv().p(b) == stop ==> r.v() == text(d, a, b)
{ unimplemented!() }
#[verifier::external_body]
pub fn slice_from<D: InputData>(d: &D, start: usize) -> (r: Piece)
    requires exists|a: int| 0 <= a <= d.dv().n && #[trigger] d.dv().p(a) == start
    ensures forall|a: int| 0 <= a <= d.dv().n && #[trigger] d.dv().p(a) == start ==> r.v() == text(d, a, d.dv().n)
{ unimplemented!() }
// get_text: from the character at `start` to the one containing offset `stop`, clipped at the end
pub open spec fn text_req<D: InputData>(d: &D, start: int, stop: int) -> bool {
    &&& exists|a: int| 0 <= a <= d.dv().n && #[trigger] d.dv().p(a) == start
    &&& start - 1 <= stop <= isize::MAX
}
pub open spec fn text_ens<D: InputData>(d: &D, start: int, stop: int, r: Seq<int>) -> bool {
    &&& forall|a: int, b: int| 0 <= a <= d.dv().n && #[trigger] d.dv().p(a) == start && #[trigger] d.dv().next_is(stop, b) ==> a <= b && r == text(d, a, b)
    &&& forall|a: int| stop >= d.dv().p(d.dv().n) && 0 <= a <= d.dv().n && #[trigger] d.dv().p(a) == start ==> r == text(d, a, d.dv().n)
}
pub proof fn lemma_next<D: InputData>(d: &D, i: int, k: int) -> (r: int)
    requires 0 <= k <= d.dv().n, -1 <= i < d.dv().p(k), ensures d.dv().next_is(i, r), 0 <= r <= k decreases k
{ d.mono(); if k > 0 && i < d.dv().p(k - 1) { lemma_next(d, i, k - 1) } else { k } }
pub proof fn lemma_prev<D: InputData>(d: &D, i: int, k: int) -> (r: int)
    requires 0 <= k <= d.dv().n, d.dv().p(k) < i <= d.dv().p(d.dv().n), ensures d.dv().prev_is(i, r) decreases d.dv().n - k
{ d.mono(); if k < d.dv().n && d.dv().p(k + 1) < i { lemma_prev(d, i, k + 1) } else { k } }

// ---------- slices of code points ([T]) ----------------------------------------------------------
pub trait CodePoint: Copy { spec fn cp(self) -> u32; fn into(self) -> (r: u32) ensures r == self.cp(); }
pub struct Slice<'a, T: CodePoint> { pub s: &'a [T] }
impl<'a, T: CodePoint> Slice<'a, T> {
    // <[T]>::len, <[T]>::get
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.s@.len(), r <= 0x7fff_ffff_ffff_ff00 { self.s.len() }
    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: Option<&T>) ensures i < self.s@.len() ==> r == Some(&self.s@[i as int]), i >= self.s@.len() ==> r is None { self.s.get(i) }
}
pub axiom fn slice_bound<T>(s: &[T]) ensures s@.len() <= 0x7fff_ffff_ffff_ff00;
impl<'a, T: CodePoint> InputData for Slice<'a, T> {
    open spec fn dv(&self) -> DV { DV { n: self.s@.len() as int, pos: |k: int| k, chr: |k: int| self.s@[k].cp() as int } }
    proof fn mono(&self) { slice_bound(self.s); }
//@ fn src/char_stream.rs InputData for [T]::len {ret=r nopub}
//@ end
//@ fn src/char_stream.rs InputData for [T]::offset {ret=r nopub}
//@ end
//@ fn src/char_stream.rs InputData for [T]::item {ret=r nopub}
//@ rewrite self.get(__i).map(|&it| __e) => match self.get(__i) { Some(it) => { let it = *it; Some(__e) } None => None }
//@ rewrite index as usize => as_index(index)
//@ at fn start
    proof { slice_bound(self.s); }
//@ end
}
#[verifier::external_body]
pub fn as_index(i: isize) -> (r: usize) ensures i >= 0 ==> r == i, i < 0 ==> r == i + 0x1_0000_0000_0000_0000 { i as usize }

// ---------- UTF-8 strings ------------------------------------------------------------------------
pub struct Str<'a> { pub s: &'a str }
pub uninterp spec fn upos(s: Seq<char>, k: int) -> int;
// UTF-8: each character takes at least one byte
pub axiom fn utf8(s: &str) ensures upos(s@, 0) == 0, upos(s@, s@.len() as int) <= 0x7fff_ffff_ffff_ff00,
    forall|i: int, j: int| 0 <= i < j <= s@.len() ==> #[trigger] upos(s@, i) < #[trigger] upos(s@, j);
impl<'a> Str<'a> {
    // str::len, str::is_char_boundary, str::get(i..) + chars().next()
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == upos(self.s@, self.s@.len() as int) { self.s.len() }
    #[verifier::external_body]
    fn is_char_boundary(&self, i: usize) -> (r: bool) ensures r == exists|k: int| 0 <= k <= self.s@.len() && #[trigger] upos(self.s@, k) == i { self.s.is_char_boundary(i) }
    #[verifier::external_body]
    fn char_from(&self, i: usize) -> (r: Option<char>)
        ensures forall|k: int| 0 <= k < self.s@.len() && #[trigger] upos(self.s@, k) == i ==> r == Some(self.s@[k]),
            i >= upos(self.s@, self.s@.len() as int) ==> r is None
    { self.s.get(i..).and_then(|it| it.chars().next()) }
}
#[verifier::external_body]
pub fn sgn(i: isize) -> (r: isize) ensures i > 0 ==> r == 1, i < 0 ==> r == -1, i == 0 ==> r == 0 { i.signum() }
impl<'a> InputData for Str<'a> {
    open spec fn dv(&self) -> DV { DV { n: self.s@.len() as int, pos: |k: int| upos(self.s@, k), chr: |k: int| self.s@[k] as int } }
    proof fn mono(&self) { utf8(self.s); }
//@ fn src/char_stream.rs InputData for str::len {ret=r nopub}
//@ end
//@ fn src/char_stream.rs InputData for str::offset {ret=r nopub}
//@ sig
fn offset(&self, index_: isize, item_offset_: isize) -> (r: Option<isize>)
//@ rewrite __x.signum() => sgn(__x)
//@ rewrite while { __body } {} => loop \
    invariant_except_break \
       item_offset != 0, direction == (if item_offset_ > 0 { 1int } else { -1int }), item_offset_ > 0 ==> item_offset > 0, item_offset_ < 0 ==> item_offset < 0, \
       -1 <= index, index <= self.dv().p(self.dv().n) || (item_offset_ > 0 && index == index_), \
       item_offset_ > 0 ==> (index_ <= index && item_offset <= item_offset_), item_offset_ < 0 ==> (index <= index_ && item_offset >= item_offset_), \
       item_offset_ > 0 ==> forall|k: int| #[trigger] self.dv().next_is(index_ as int, k) ==> k + item_offset_ - item_offset <= self.dv().n + 1 && (k + item_offset_ - item_offset <= self.dv().n ==> self.dv().next_is(index as int, k + item_offset_ - item_offset)) && (k + item_offset_ - item_offset > self.dv().n ==> index >= self.dv().p(self.dv().n)), \
       item_offset_ < 0 ==> forall|k: int| #[trigger] self.dv().prev_is(index_ as int, k) ==> k + item_offset_ - item_offset >= -1 && (k + item_offset_ - item_offset >= 0 ==> self.dv().prev_is(index as int, k + item_offset_ - item_offset)) && (k + item_offset_ - item_offset < 0 ==> index <= 0), \
    invariant -1 <= index_, index_ <= self.dv().p(self.dv().n) || item_offset_ > 0, item_offset_ != 0, index_ + item_offset_ <= isize::MAX, -0x7fff_ffff_ffff_ff00 <= item_offset_, \
    ensures \
       item_offset_ > 0 ==> forall|k: int| #[trigger] self.dv().next_is(index_ as int, k) ==> Some(index) == self.dv().nth(k + item_offset_ - 1), \
       item_offset_ < 0 ==> forall|k: int| #[trigger] self.dv().prev_is(index_ as int, k) ==> Some(index) == self.dv().nth(k + item_offset_ + 1), \
       item_offset_ > 0 ==> index_ < self.dv().p(self.dv().n), item_offset_ < 0 ==> index_ > 0, \
    decreases (if item_offset_ > 0 { self.dv().p(self.dv().n) - index } else { index + 1 }) \
    { proof { utf8(self.s); } let ghost i0 = index; let ghost o0 = item_offset; let c = { __body }; \
      proof { assert forall|k: int| item_offset_ > 0 && #[trigger] self.dv().next_is(index_ as int, k) implies true by { } } if !c { break; } }
//@ at fn start
    let mut index = index_; let mut item_offset = item_offset_;
    proof { utf8(self.s); }
//@ end
//@ fn src/char_stream.rs InputData for str::item {ret=r nopub}
//@ rewrite self.get(__i..).and_then(|it| it.chars().next()).map(|it| __e) => match self.char_from(__i) { Some(it) => Some(__e), None => None }
//@ rewrite index as usize => as_index(index)
//@ rewrite it as isize => (it as u32) as isize
//@ at fn start
    proof { utf8(self.s); }
//@ end
}

// ---------- the stream: a cursor over the text -----------------------------------------------------
pub struct InputStream<Data: InputData> { pub data_raw: Data, pub index: isize }
// the k-th next (o > 0) or previous (o < 0) character from character position k, end of input outside
pub open spec fn la_spec<D: InputData>(d: &D, k: int, o: int) -> int {
    let j = if o > 0 { k + o - 1 } else { k + o };
    if 0 <= j < d.dv().n { d.dv().c(j) } else { -1 }
}
impl<Data: InputData> InputStream<Data> {
    pub open spec fn at(&self, k: int) -> bool { 0 <= k <= self.data_raw.dv().n && self.index == self.data_raw.dv().p(k) }
    pub open spec fn wf(&self) -> bool { exists|k: int| self.at(k) }
//@ fn src/input_stream.rs IntStream for InputStream<Data>::consume {nopub}
    requires old(self).wf(), !old(self).at(old(self).data_raw.dv().n)
    ensures final(self).data_raw == old(self).data_raw, forall|k: int| old(self).at(k) ==> final(self).at(k + 1), final(self).wf()
//@ rewrite panic!(__rest) => unreachable_here()
//@ at fn start
    let ghost k0 = choose|k: int| self.at(k);
    proof { self.data_raw.mono(); assert(self.data_raw.dv().next_is(self.index as int, k0 + 1)); }
//@ at fn tail
    proof { assert(self.at(k0 + 1)); }
//@ end
//@ fn src/input_stream.rs IntStream for InputStream<Data>::la {nopub}
//@ sig
fn la(&mut self, offset_: isize) -> (r: isize)
    requires old(self).wf(), offset_ != 0, -0x7fff_ffff <= offset_ <= 0x7fff_ffff,
        old(self).index + offset_ <= isize::MAX
    ensures *final(self) == *old(self), forall|k: int| #[trigger] old(self).at(k) ==> r == la_spec(&old(self).data_raw, k, offset_ as int)
//@ rewrite crate::int_stream::EOF => EOF
//@ rewrite panic!(__rest) => unreachable_here()
//@ rewrite __o.and_then(|index| __e) => match __o { Some(index) => __e, None => None }
//@ rewrite __o.unwrap_or(__e) => match __o { Some(x) => x, None => __e }
//@ at fn start
    let mut offset = offset_;
    let ghost k0 = choose|k: int| self.at(k);
    proof { self.data_raw.mono(); let d = &self.data_raw;
      assert(forall|k: int| #[trigger] self.at(k) ==> k == k0);
      if k0 < d.dv().n { assert(d.dv().next_is(self.index as int, k0 + 1)); }
      if k0 > 0 { assert(d.dv().prev_is(self.index as int, k0 - 1)); } 
      let j = if offset_ > 0 { k0 + offset_ - 1 } else { k0 + offset_ };
      assert(0 <= j < d.dv().n ==> 0 <= d.dv().c(j) && d.dv().nth(j) == Some(d.dv().p(j) as isize) && 0 <= d.dv().p(j) <= d.dv().p(d.dv().n));
      assert(d.dv().nth(d.dv().n) == Some(d.dv().p(d.dv().n) as isize)); }
//@ end
//@ fn src/input_stream.rs IntStream for InputStream<Data>::mark {nopub}
    ensures *final(self) == *old(self)
//@ end
//@ fn src/input_stream.rs IntStream for InputStream<Data>::release {nopub}
    ensures *final(self) == *old(self)
//@ end
//@ fn src/input_stream.rs IntStream for InputStream<Data>::index {nopub ret=r}
    ensures r == self.index, forall|k: int| #[trigger] self.at(k) ==> r == self.data_raw.dv().p(k)
//@ end
//@ fn src/input_stream.rs IntStream for InputStream<Data>::seek {nopub}
    ensures final(self).data_raw == old(self).data_raw, final(self).index == index,
        forall|k: int| 0 <= k <= old(self).data_raw.dv().n && #[trigger] old(self).data_raw.dv().p(k) == index ==> final(self).at(k)
//@ end
//@ fn src/input_stream.rs IntStream for InputStream<Data>::size {nopub ret=r}
    ensures r == self.data_raw.dv().p(self.data_raw.dv().n)
//@ at fn start
    proof { self.data_raw.mono(); }
//@ end
//@ fn src/input_stream.rs InputStream<Data>::reset {nopub}
    ensures final(self).at(0), final(self).data_raw == old(self).data_raw
//@ at fn start
    proof { self.data_raw.mono(); }
//@ end
//@ fn src/input_stream.rs InputStream<&'a Data>::get_text_inner
//@ sig
fn get_text_inner(&self, start: isize, stop: isize) -> (r: Piece)
    requires text_req(&self.data_raw, start as int, stop as int), stop < 0x7fff_ffff_ffff_ff00
    ensures text_ens(&self.data_raw, start as int, stop as int, r.v())
//@ rewrite &self.data_raw[start..stop] => slice(&self.data_raw, start, stop)
//@ rewrite &self.data_raw[start..] => slice_from(&self.data_raw, start)
//@ rewrite __o.unwrap_or(__e) => match __o { Some(x) => x, None => __e }
//@ at fn start
    proof { self.data_raw.mono(); if stop < self.data_raw.dv().p(self.data_raw.dv().n) { let b = lemma_next(&self.data_raw, stop as int, self.data_raw.dv().n); assert(self.data_raw.dv().nth(b) == Some(self.data_raw.dv().p(b) as isize)); assert(b < self.data_raw.dv().n ==> self.data_raw.dv().p(b) < self.data_raw.dv().p(self.data_raw.dv().n)); assert(b > 0 ==> self.data_raw.dv().p(b) > self.data_raw.dv().p(0)); } }
    let ghost st0 = stop as int; let ghost a0 = choose|a: int| 0 <= a <= self.data_raw.dv().n && #[trigger] self.data_raw.dv().p(a) == start;
    proof { self.data_raw.mono(); if a0 > 0 { assert(self.data_raw.dv().p(0) < self.data_raw.dv().p(a0)); } if a0 < self.data_raw.dv().n { assert(self.data_raw.dv().p(a0) < self.data_raw.dv().p(self.data_raw.dv().n)); } }
//@ at fn end
    proof { lemma_text(&self.data_raw, a0, st0); }
//@ end
//@ fn src/input_stream.rs InputStream<Box<Data>>::get_text_owned
//@ sig
fn get_text_owned(&self, start: isize, stop: isize) -> (r: Piece)
    requires text_req(&self.data_raw, start as int, stop as int), stop < 0x7fff_ffff_ffff_ff00
    ensures text_ens(&self.data_raw, start as int, stop as int, r.v())
//@ rewrite &self.data_raw[start..stop] => slice(&self.data_raw, start, stop)
//@ rewrite &self.data_raw[start..] => slice_from(&self.data_raw, start)
//@ rewrite __x.to_owned() => __x
//@ rewrite __o.unwrap_or(__e) => match __o { Some(x) => x, None => __e }
//@ at fn start
    proof { self.data_raw.mono(); if stop < self.data_raw.dv().p(self.data_raw.dv().n) { let b = lemma_next(&self.data_raw, stop as int, self.data_raw.dv().n); assert(self.data_raw.dv().nth(b) == Some(self.data_raw.dv().p(b) as isize)); assert(b < self.data_raw.dv().n ==> self.data_raw.dv().p(b) < self.data_raw.dv().p(self.data_raw.dv().n)); assert(b > 0 ==> self.data_raw.dv().p(b) > self.data_raw.dv().p(0)); } }
    let ghost st0 = stop as int; let ghost a0 = choose|a: int| 0 <= a <= self.data_raw.dv().n && #[trigger] self.data_raw.dv().p(a) == start;
    proof { self.data_raw.mono(); if a0 > 0 { assert(self.data_raw.dv().p(0) < self.data_raw.dv().p(a0)); } if a0 < self.data_raw.dv().n { assert(self.data_raw.dv().p(a0) < self.data_raw.dv().p(self.data_raw.dv().n)); } }
//@ at fn end
    proof { lemma_text(&self.data_raw, a0, st0); }
//@ end
}
pub proof fn lemma_text<D: InputData>(d: &D, a: int, stop: int)
    requires 0 <= a <= d.dv().n, d.dv().p(a) - 1 <= stop
    ensures forall|b: int| #[trigger] d.dv().next_is(stop, b) ==> a <= b, forall|x: int| 0 <= x <= d.dv().n && #[trigger] d.dv().p(x) == d.dv().p(a) ==> x == a,
{ d.mono(); assert forall|b: int| #[trigger] d.dv().next_is(stop, b) implies a <= b by { if b < a { assert(d.dv().p(b) < d.dv().p(a)); } } }
#[verifier::external_body]
pub fn unreachable_here() -> ! requires false { panic!() }
} // verus!
fn main() {}
