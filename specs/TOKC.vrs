#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/int_stream.rs const EOF
//@ item src/token.rs const TOKEN_EOF
//@ item src/token.rs const TOKEN_INVALID_TYPE
//@ item src/token.rs const TOKEN_DEFAULT_CHANNEL
//@ include TOKS_src.inc
//@ include TOKS_win.inc
// contracts of the underlying window, discharged by P04 (specs/TOKS.vrs)
    #[verifier::external_body]
    pub fn new_buffered(source: T) -> (r: Self)
        requires source.sv().n == 0
        ensures r.wf(), r.v() == (UV { cur: 0, p: 0, len: 0, markers: 1, f: source.sv().f, n: 0 })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&mut self, need: isize) -> (r: isize)
        requires old(self).wf(), 0 <= need < BIG, old(self).v().n + need < BIG
        ensures final(self).wf(), final(self).fetched(old(self), if need > 0 { old(self).v().n + need - 1 } else { -1int }),
            0 <= r <= need, final(self).v().n == old(self).v().n + r, r < need ==> final(self).v().n > 0 && eof(final(self).v().f, final(self).v().n - 1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn consume(&mut self)
        requires old(self).wf(), !eof(old(self).v().f, old(self).v().cur), old(self).v().n + 2 < BIG, old(self).v().cur + 2 < BIG
        ensures final(self).wf(), final(self).v().cur == old(self).v().cur + 1, final(self).v().f == old(self).v().f, final(self).v().markers == old(self).v().markers,
            final(self).v().n > final(self).v().cur, final(self).v().n >= old(self).v().n, final(self).v().n <= old(self).v().n + 2,
            old(self).v().markers > 0 ==> final(self).v().p == old(self).v().p + 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, index_: isize)
        requires old(self).wf(), old(self).v().cur - old(self).v().p <= index_ < BIG - 2, old(self).v().n + index_ < BIG - 2, old(self).v().cur - old(self).v().p < index_ || index_ == 0
        ensures final(self).wf(), final(self).v().cur == cut(old(self).v().f, index_ as int) || index_ == old(self).v().cur && *final(self) == *old(self),
            final(self).v().cur - final(self).v().p == old(self).v().cur - old(self).v().p, final(self).v().markers == old(self).v().markers, final(self).v().f == old(self).v().f,
            final(self).v().n >= old(self).v().n, index_ < old(self).v().n ==> final(self).v().n == old(self).v().n
    { unimplemented!() }
    pub fn index(&self) -> (r: isize) requires self.wf() ensures r == self.v().cur { self.current_token_index }
    #[verifier::external_body]
    pub fn size(&self) -> (r: isize) requires self.wf() ensures r == self.v().len { self.tokens.len() as isize }
    #[verifier::external_body]
    pub fn get(&self, index: isize) -> (r: &Tok)
        requires self.wf(), self.v().cur - self.v().p <= index < self.v().n
        ensures r.v() == (self.v().f)(index as int), r.index == index
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_text_from_interval(&self, start: isize, stop: isize) -> (r: Text)
        requires self.wf(), self.v().cur - self.v().p <= start <= self.v().n, start - 1 <= stop < self.v().n
        ensures r.v() == text_of(self.v().f, start as int, stop as int)
    { unimplemented!() }
}
//@ include TOKS_lem.inc

// ---------- the tokens of one channel ---------------------------------------------------------------
pub open spec fn on(f: spec_fn(int) -> TV, ch: int, i: int) -> bool { f(i).channel == ch || eof(f, i) }
// j is the first on-channel token (or the end of input) at or behind i
pub open spec fn next_is(f: spec_fn(int) -> TV, ch: int, i: int, j: int) -> bool {
    i <= j && on(f, ch, j) && forall|m: int| i <= m < j ==> !#[trigger] on(f, ch, m)
}
pub open spec fn nextch(f: spec_fn(int) -> TV, ch: int, i: int) -> int { choose|j: int| next_is(f, ch, i, j) }
pub proof fn lemma_next(f: spec_fn(int) -> TV, ch: int, i: int, j: int)
    requires next_is(f, ch, i, j) ensures nextch(f, ch, i) == j
{ let k = nextch(f, ch, i); assert(next_is(f, ch, i, k)); if k < j { assert(!on(f, ch, k)); } if j < k { assert(!on(f, ch, j)); } }
// the k-th on-channel token from i on (i is number 0), end of input repeating
pub open spec fn fwd(f: spec_fn(int) -> TV, ch: int, i: int, k: int) -> int decreases k {
    if k <= 0 { i } else { let j = fwd(f, ch, i, k - 1); if eof(f, j) { j } else { nextch(f, ch, j + 1) } }
}
// the last on-channel token at or before i, -1 if none
pub open spec fn prevch(f: spec_fn(int) -> TV, ch: int, i: int) -> int decreases i + 1 {
    if i < 0 { -1 } else if on(f, ch, i) { i } else { prevch(f, ch, i - 1) }
}
pub open spec fn back(f: spec_fn(int) -> TV, ch: int, i: int, k: int) -> int decreases k {
    if k <= 0 { i } else { let j = back(f, ch, i, k - 1); if j <= 0 { -1 } else { prevch(f, ch, j - 1) } }
}
pub proof fn lemma_prev(f: spec_fn(int) -> TV, ch: int, i: int) ensures -1 <= prevch(f, ch, i), prevch(f, ch, i) <= i || i < 0 decreases i + 1 { if i >= 0 && !on(f, ch, i) { lemma_prev(f, ch, i - 1); } }
pub proof fn lemma_back(f: spec_fn(int) -> TV, ch: int, i: int, k: int)
    requires i >= -1, k >= 0
    ensures back(f, ch, i, k) >= -1, back(f, ch, i, k) >= 0 ==> back(f, ch, i, k) <= i - k, back(f, ch, i, k) == -1 ==> forall|m: int| m >= k ==> #[trigger] back(f, ch, i, m) == -1
    decreases k
{ if k > 0 { lemma_back(f, ch, i, k - 1); let j = back(f, ch, i, k - 1); if j > 0 { lemma_prev(f, ch, j - 1); } }
  if back(f, ch, i, k) == -1 { assert forall|m: int| m >= k implies #[trigger] back(f, ch, i, m) == -1 by { lemma_back_stay(f, ch, i, k, m); } } }
pub proof fn lemma_back_stay(f: spec_fn(int) -> TV, ch: int, i: int, k: int, m: int)
    requires 0 <= k <= m, back(f, ch, i, k) == -1 ensures back(f, ch, i, m) == -1 decreases m
{ if m > k { lemma_back_stay(f, ch, i, k, m - 1); } }

pub struct CommonTokenStream<T: TokenSource> { pub base: UnbufferedTokenStream<T>, pub channel: isize }
impl<T: TokenSource> CommonTokenStream<T> {
    pub open spec fn f(&self) -> spec_fn(int) -> TV { self.base.v().f }
    pub open spec fn n(&self) -> int { self.base.v().n }
    // everything fetched is kept
    pub open spec fn buf(&self) -> bool {
        let v = self.base.v();
        self.base.wf() && v.p == v.cur && v.n == v.len && v.markers == 1
    }
    // and the stream stands on a token of its channel (or on the end of input)
    pub open spec fn wf(&self) -> bool { self.buf() && self.base.v().cur < self.n() && on(self.f(), self.channel as int, self.base.v().cur) }
    pub open spec fn same(&self, o: &Self) -> bool { self.channel == o.channel && self.buf() && self.base.v() == (UV { n: self.n(), len: self.base.v().len, ..o.base.v() }) && self.n() >= o.n() }
//@ fn src/common_token_stream.rs CommonTokenStream::sync {ret=r attr=verifier::exec_allows_no_decreases_clause}
    requires old(self).buf(), 0 <= i <= 0x400_0000_0000_0000
    ensures final(self).same(old(self)), final(self).n() > cut(old(self).f(), i as int), r == (cut(old(self).f(), i as int) == i),
        i < old(self).n() ==> final(self).n() == old(self).n(),
//@ at fn start
    proof { lemma_cut(self.f(), i as int); lemma_seek(self.f(), self.n(), i as int); vec_bound(self.base.tokens); }
//@ at before return
    proof { lemma_seek(self.f(), self.n(), i as int); lemma_cut(self.f(), i as int); if fetched < need { lemma_last_eof(self.f(), self.n(), i as int); } }
//@ end
//@ fn src/common_token_stream.rs CommonTokenStream::next_token_on_channel {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn next_token_on_channel(&mut self, i_: isize, channel: isize, direction: isize) -> (r: isize)
    requires old(self).buf(), 0 <= i_ <= 0x400_0000_0000_0000, direction == 1 || direction == -1 && i_ < old(self).n()
    ensures final(self).same(old(self)), r < final(self).n(),
        direction == 1 ==> next_is(old(self).f(), channel as int, cut(old(self).f(), i_ as int), r as int) && r < 0x400_0000_0000_0000,
        direction == -1 ==> final(self).n() == old(self).n() && r == prevch(old(self).f(), channel as int, i_ as int),
//@ rewrite __x.borrow() => & __x
//@ at fn start
    let mut i = i_;
    let ghost c = cut(self.f(), i_ as int);
    proof { lemma_cut(self.f(), i as int); }
//@ at after self.sync(i)
    proof { vec_bound(self.base.tokens); lemma_seek(self.f(), self.n(), i_ as int); if c < i_ { lemma_last_eof(self.f(), self.n(), i_ as int); } if i < self.n() { assert(self.base.tok_ok(i as int)); } }
//@ loop 0 while
    invariant
        direction == 1 || direction == -1, self.same(old(self)), 0 <= i < self.n(), *token == self.base.tokens@[i as int], self.n() < 0x400_0000_0000_0000,
        direction == 1 ==> c <= i && forall|m: int| c <= m < i ==> !#[trigger] on(self.f(), channel as int, m),
        direction == -1 ==> self.n() == old(self).n() && prevch(self.f(), channel as int, i_ as int) == prevch(self.f(), channel as int, i as int),
        c == cut(old(self).f(), i_ as int), self.base.tok_ok(i as int),
//@ at loop 0 start
    let ghost i0 = i as int;
//@ at before #1 self.sync(i)
    proof { lemma_cut_eof(self.f(), i as int, i as int); vec_bound(self.base.tokens); }
//@ at after #1 self.sync(i)
    proof { vec_bound(self.base.tokens); assert(self.base.tok_ok(i as int)); }
//@ at before #1 return
    proof { assert(on(self.f(), channel as int, i as int)); if direction == 1 { assert(next_is(self.f(), channel as int, c, i as int)); } }
//@ at before #2 return
    proof { assert(i == -1); assert(prevch(self.f(), channel as int, i0) == prevch(self.f(), channel as int, i0 - 1)); }
//@ at before #3 return
    proof { assert(on(self.f(), channel as int, i as int)); if direction == 1 { assert(next_is(self.f(), channel as int, c, i as int)); } }
//@ end
//@ fn src/common_token_stream.rs CommonTokenStream::with_channel {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn with_channel(lexer: T, channel: isize) -> (r: CommonTokenStream<T>)
    requires lexer.sv().n == 0
    ensures r.wf(), r.channel == channel, r.f() == lexer.sv().f, r.base.v().cur == nextch(r.f(), channel as int, 0)
//@ end
//@ fn src/common_token_stream.rs CommonTokenStream::new {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn new(lexer: T) -> (r: CommonTokenStream<T>)
    requires lexer.sv().n == 0
    ensures r.wf(), r.channel == 0, r.f() == lexer.sv().f, r.base.v().cur == nextch(r.f(), 0, 0)
//@ end
//@ fn src/common_token_stream.rs CommonTokenStream::reset {pub attr=verifier::exec_allows_no_decreases_clause}
    requires old(self).buf()
    ensures final(self).wf(), final(self).channel == old(self).channel, final(self).f() == old(self).f(), final(self).base.v().cur == nextch(final(self).f(), final(self).channel as int, 0)
//@ end
//@ fn src/common_token_stream.rs IntStream for CommonTokenStream::seek {pub attr=verifier::exec_allows_no_decreases_clause}
    requires old(self).buf(), 0 <= index <= 0x400_0000_0000_0000
    ensures final(self).wf(), final(self).channel == old(self).channel, final(self).f() == old(self).f(),
        // the stream stands on the first on-channel token at or behind the position asked for
        final(self).base.v().cur == nextch(final(self).f(), final(self).channel as int, cut(final(self).f(), index as int))
//@ at before self.base.seek(index)
    proof { lemma_next(self.f(), self.channel as int, cut(self.f(), index0 as int), index as int); lemma_seek(self.f(), self.n(), index as int); vec_bound(self.base.tokens); lemma_cut(self.f(), index0 as int); }
//@ at fn start
    let ghost index0 = index as int;
    proof { lemma_cut(self.f(), index0); }
//@ end
//@ fn src/common_token_stream.rs IntStream for CommonTokenStream::index {ret=r pub attr=verifier::exec_allows_no_decreases_clause}
    requires self.buf() ensures r == self.base.v().cur
//@ end
//@ fn src/common_token_stream.rs IntStream for CommonTokenStream::size {ret=r pub attr=verifier::exec_allows_no_decreases_clause}
    requires self.buf() ensures r == self.n()
//@ end
//@ fn src/common_token_stream.rs IntStream for CommonTokenStream::mark {ret=r pub attr=verifier::exec_allows_no_decreases_clause}
    ensures *final(self) == *old(self)
//@ end
//@ fn src/common_token_stream.rs IntStream for CommonTokenStream::release {pub attr=verifier::exec_allows_no_decreases_clause}
    ensures *final(self) == *old(self)
//@ end
//@ fn src/common_token_stream.rs IntStream for CommonTokenStream::consume {pub attr=verifier::exec_allows_no_decreases_clause}
    requires old(self).wf(), !eof(old(self).f(), old(self).base.v().cur)
    ensures final(self).wf(), final(self).channel == old(self).channel, final(self).f() == old(self).f(),
        final(self).base.v().cur == nextch(old(self).f(), old(self).channel as int, old(self).base.v().cur + 1)
//@ at fn start
    proof { vec_bound(self.base.tokens); }
//@ at after self.base.consume()
    let ghost s1 = *self;
    proof { vec_bound(self.base.tokens); lemma_seek(self.f(), self.n(), self.base.v().cur); }
//@ at before self.base.seek(next)
    proof { lemma_next(self.f(), self.channel as int, s1.base.v().cur, next as int); lemma_seek(self.f(), self.n(), next as int); vec_bound(self.base.tokens); }
//@ end
//@ fn src/common_token_stream.rs CommonTokenStream::lt_inner {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn lt_inner(&mut self, k: isize) -> (r: Option<&Tok>)
    requires old(self).wf(), k >= 1
    ensures final(self).same(old(self)), final(self).wf(), ({ let j = fwd(old(self).f(), old(self).channel as int, old(self).base.v().cur, k - 1);
        r is Some && r->0.v() == (old(self).f())(j) && r->0.index == j })
//@ rewrite self.base.tokens.get(__i) => vget(&self.base.tokens, __i)
//@ loop 0 while
    invariant 1 <= n <= k, self.same(old(self)), self.wf(), 0 <= i < self.n(), i == fwd(self.f(), self.channel as int, self.base.v().cur, n - 1), on(self.f(), self.channel as int, i as int)
//@ at loop 0 start
    proof { vec_bound(self.base.tokens); lemma_cut(self.f(), i + 1); if eof(self.f(), i as int) { lemma_last_eof(self.f(), self.n(), i + 1); } else { lemma_cut_eof(self.f(), i + 1, i + 1); } }
    let ghost i0 = i as int;
//@ at loop 0 end
    proof { if !eof(self.f(), i0) { lemma_next(self.f(), self.channel as int, i0 + 1, i as int); } }
//@ at before return
    proof { assert(self.base.tok_ok(i as int)); vec_bound(self.base.tokens); }
//@ end
//@ fn src/common_token_stream.rs CommonTokenStream::lb {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn lb(&mut self, k: isize) -> (r: Option<&Tok>)
    requires old(self).wf(), k >= 1
    ensures final(self).same(old(self)), final(self).wf(), final(self).n() == old(self).n(), ({ let j = back(old(self).f(), old(self).channel as int, old(self).base.v().cur, k as int);
        if j >= 0 { r is Some && r->0.v() == (old(self).f())(j) && r->0.index == j } else { r is None } })
//@ rewrite self.base.tokens.get(__i) => vget(&self.base.tokens, __i)
//@ at fn start
    proof { vec_bound(self.base.tokens); lemma_back(self.f(), self.channel as int, self.base.v().cur, k as int); }
//@ loop 0 while
    invariant 1 <= n <= k + 1, k <= self.base.v().cur, self.same(old(self)), self.wf(), self.n() == old(self).n(), -1 <= i < self.n(), i == back(self.f(), self.channel as int, self.base.v().cur, n - 1)
//@ at loop 0 start
    proof { vec_bound(self.base.tokens); lemma_prev(self.f(), self.channel as int, i - 1); }
//@ at loop 0 after
    proof { let f = self.f(); let ch = self.channel as int; let c = self.base.v().cur; lemma_back(f, ch, c, n - 1); 
       if n <= k { assert(i <= 0); assert(back(f, ch, c, n as int) == -1); lemma_back_stay(f, ch, c, n as int, k as int); }
       if i >= 0 { assert(self.base.tok_ok(i as int)); } vec_bound(self.base.tokens); }
//@ end
//@ fn src/common_token_stream.rs TokenStream<'input> for CommonTokenStream::lt {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn lt(&mut self, k: isize) -> (r: Option<&Tok>)
    requires old(self).wf(), k != 0, k > isize::MIN
    ensures final(self).same(old(self)), final(self).wf(),
        // lookahead: the k-th on-channel token from the current one, end of input repeating
        k > 0 ==> ({ let j = fwd(old(self).f(), old(self).channel as int, old(self).base.v().cur, k - 1); r is Some && r->0.v() == (old(self).f())(j) && r->0.index == j }),
        // lookback: the k-th previous on-channel token, nothing before the first
        k < 0 ==> ({ let j = back(old(self).f(), old(self).channel as int, old(self).base.v().cur, -(k as int));
            if j >= 0 { r is Some && r->0.v() == (old(self).f())(j) && r->0.index == j } else { r is None } })
//@ rewrite self.base.tokens.get(__i) => vget(&self.base.tokens, __i)
//@ rewrite panic!() => unreachable_here()
//@ at fn start
    proof { assert(self.base.tok_ok(self.base.v().cur)); }
//@ end
//@ fn src/common_token_stream.rs IntStream for CommonTokenStream::la {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn la(&mut self, i: isize) -> (r: isize)
    requires old(self).wf(), i != 0, i > isize::MIN
    ensures final(self).same(old(self)), final(self).wf(),
        i > 0 ==> r == (old(self).f())(fwd(old(self).f(), old(self).channel as int, old(self).base.v().cur, i - 1)).ty,
        i < 0 ==> ({ let j = back(old(self).f(), old(self).channel as int, old(self).base.v().cur, -(i as int)); r == if j >= 0 { (old(self).f())(j).ty } else { 0 } })
//@ rewrite __o.map(|t| t.borrow().get_token_type()).unwrap_or(TOKEN_INVALID_TYPE) => match __o { Some(t) => t.get_token_type(), None => TOKEN_INVALID_TYPE }
//@ end
//@ fn src/common_token_stream.rs TokenStream<'input> for CommonTokenStream::get {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn get(&self, index: isize) -> (r: &Tok)
    requires self.buf(), 0 <= index < self.n()
    ensures r.v() == (self.f())(index as int), r.index == index
//@ end
//@ fn src/common_token_stream.rs TokenStream<'input> for CommonTokenStream::get_text_from_interval {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn get_text_from_interval(&self, start: isize, stop: isize) -> (r: Text)
    requires self.buf(), 0 <= start <= self.n(), start - 1 <= stop < self.n()
    ensures r.v() == text_of(self.f(), start as int, stop as int)
//@ end
}
//@ include TOKS_std.inc
} // verus!
fn main() {}
