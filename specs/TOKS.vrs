#![allow(unused)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/int_stream.rs const EOF
//@ item src/token.rs const TOKEN_EOF
//@ item src/token.rs const TOKEN_INVALID_TYPE
//@ item src/token.rs const TOKEN_DEFAULT_CHANNEL

//@ include TOKS_src.inc
//@ include TOKS_win.inc
//@ fn src/token_stream.rs UnbufferedTokenStream::new_unbuffered
//@ sig
fn new_unbuffered(source: T) -> (r: Self)
    requires source.sv().n == 0
    ensures r.wf(), r.v() == (UV { cur: 0, p: 0, len: 0, markers: 0, f: source.sv().f, n: 0 })
//@ end
//@ fn src/token_stream.rs UnbufferedTokenStream::new_buffered
//@ sig
fn new_buffered(source: T) -> (r: Self)
    requires source.sv().n == 0
    ensures r.wf(), r.v() == (UV { cur: 0, p: 0, len: 0, markers: 1, f: source.sv().f, n: 0 })
//@ end
//@ fn src/token_stream.rs UnbufferedTokenStream::get_buffer_start_index {ret=r}
    requires 0 <= self.p <= self.current_token_index
    ensures r == self.v().cur - self.v().p
//@ end
//@ fn src/token_stream.rs UnbufferedTokenStream::fill {ret=r pub}
    requires old(self).wf(), 0 <= need < BIG, old(self).v().n + need < BIG
    ensures final(self).wf(), final(self).fetched(old(self), if need > 0 { old(self).v().n + need - 1 } else { -1int }),
        0 <= r <= need, final(self).v().n == old(self).v().n + r, r < need ==> final(self).v().n > 0 && eof(final(self).v().f, final(self).v().n - 1)
//@ rewrite __x.borrow() => __x
//@ rewrite let token = __e; => let mut token = __e;
//@ rewrite self.tokens.last().unwrap() => self.tokens[self.tokens.len() - 1]
//@ loop 0 for {iter=it}
    invariant 0 <= need < BIG, it.index() == i || it.index() == need,
        self.wf(), self.v() == (UV { len: self.v().len, n: self.v().n, ..old(self).v() }),
        self.v().n == old(self).v().n + it.index(), old(self).v().n + need < BIG,
//@ at loop 0 start
    proof { if self.v().len > 0 { assert(self.tok_ok(self.v().len - 1)); } 
       lemma_last_eof(self.v().f, self.v().n, old(self).v().n + need - 1); }
    let ghost o = *self;
//@ at after self.tokens.push(token)
    proof { assert forall|j: int| 0 <= j < self.v().len implies #[trigger] self.tok_ok(j) by { assert(j < o.v().len ==> o.tok_ok(j)); } }
//@ at fn end
    proof { if self.v().n > 0 { lemma_cut(self.v().f, self.v().n - 1); } if need > 0 { lemma_cut(self.v().f, old(self).v().n + need - 1); } }
//@ end
//@ fn src/token_stream.rs UnbufferedTokenStream::sync
    requires old(self).wf(), -BIG < want < BIG, old(self).v().n + want < BIG, old(self).v().cur + want < BIG
    ensures final(self).wf(), final(self).fetched(old(self), old(self).v().cur + want - 1)
//@ at fn start
    proof { let v = self.v(); if v.cur + want - 1 >= 0 { lemma_cut(v.f, v.cur + want - 1); } }
//@ end
//@ fn src/token_stream.rs TokenStream<'input> for UnbufferedTokenStream::lt
//@ sig
fn lt(&mut self, i: isize) -> (r: Option<&Tok>)
    requires old(self).wf(), i != 0, -BIG < i < BIG, old(self).v().n + i < BIG, old(self).v().cur + i < BIG
    ensures final(self).wf(), final(self).fetched(old(self), if i > 0 { old(self).v().cur + i - 1 } else { -1int }),
        i < 0 ==> final(self).v() == old(self).v(),
        // lookahead i is token cur + i - 1, end of input repeating
        i > 0 ==> r is Some && r->0.v() == (old(self).v().f)(cut(old(self).v().f, old(self).v().cur + i - 1)) && r->0.index == cut(old(self).v().f, old(self).v().cur + i - 1),
        // lookback: the i-th previously consumed token if still in the window; -1 always is
        i < 0 && old(self).v().p + i >= 0 ==> r is Some && r->0.v() == (old(self).v().f)(old(self).v().cur + i) && r->0.index == old(self).v().cur + i,
        i < 0 && old(self).v().p + i < 0 ==> r is None,
//@ rewrite __x as usize => as_index(__x)
//@ rewrite self.tokens.get(__i) => vget(&self.tokens, __i)
//@ rewrite min(__a, __b) => imin(__a, __b)
//@ at fn start
    proof { vec_bound(self.tokens); let v = self.v(); if i < 0 && v.p + i >= 0 { assert(self.tok_ok(v.p + i)); } if i > 0 { lemma_cut(v.f, v.cur + i - 1); } }
//@ at after self.sync(i)
    proof { vec_bound(self.tokens); let v = self.v(); let c = cut(v.f, v.cur + i - 1); 
        if c < v.cur { lemma_cut_eof(v.f, c, v.n - 1); assert(c == v.n - 1); }
        assert(c <= v.n - 1); if v.n - 1 > c { assert(!eof(v.f, c)); } 
        if c < v.cur - v.p { assert(false); }
        assert(self.tok_ok(c - (v.cur - v.p))); }
//@ end
//@ fn src/token_stream.rs TokenStream<'input> for UnbufferedTokenStream::get
//@ sig
fn get(&self, index: isize) -> (r: &Tok)
    requires self.wf(), self.v().cur - self.v().p <= index < self.v().n
    ensures r.v() == (self.v().f)(index as int), r.index == index
//@ at fn start
    proof { assert(self.tok_ok(index - (self.v().cur - self.v().p))); }
//@ end
//@ fn src/token_stream.rs TokenStream<'input> for UnbufferedTokenStream::get_text_from_interval
//@ sig
fn get_text_from_interval(&self, start: isize, stop: isize) -> (r: Text)
    requires self.wf(), self.v().cur - self.v().p <= start <= self.v().n, start - 1 <= stop < self.v().n
    ensures r.v() == text_of(self.v().f, start as int, stop as int)
//@ rewrite panic!(__rest) => unreachable_here()
//@ rewrite String::new() => text_new()
//@ rewrite buf.extend(t.get_text().to_display().chars()) => push_text(&mut buf, t)
//@ rewrite __x.borrow() => & __x
//@ rewrite for i in a..(b + 1) { __body } => { let mut i = a; while i < b + 1 \
    invariant_except_break buf.v() == text_of(self.v().f, start as int, start + (i - a) - 1) \
    invariant self.wf(), a == start - (self.v().cur - self.v().p), b == stop - (self.v().cur - self.v().p), 0 <= a, a <= i <= b + 1, self.v().cur - self.v().p <= start <= self.v().n, start - 1 <= stop < self.v().n, \
    ensures buf.v() == text_of(self.v().f, start as int, stop as int) \
    decreases b + 1 - i \
    { proof { assert(self.tok_ok(i as int)); let k = start + (i - a); if eof(self.v().f, k) { lemma_last_eof(self.v().f, self.v().n, self.v().n); assert(k == self.v().n - 1); } } __body i = i + 1; } }
//@ end
//@ fn src/token_stream.rs IntStream for UnbufferedTokenStream::la
//@ sig
fn la(&mut self, i: isize) -> (r: isize)
    requires old(self).wf(), i != 0, -BIG < i < BIG, old(self).v().n + i < BIG, old(self).v().cur + i < BIG
    ensures final(self).wf(), final(self).fetched(old(self), if i > 0 { old(self).v().cur + i - 1 } else { -1int }), i < 0 ==> final(self).v() == old(self).v(),
        i > 0 ==> r == (old(self).v().f)(cut(old(self).v().f, old(self).v().cur + i - 1)).ty,
        i < 0 && old(self).v().p + i >= 0 ==> r == (old(self).v().f)(old(self).v().cur + i).ty,
//@ rewrite __o.map(|t| t.borrow().get_token_type()).unwrap_or(TOKEN_INVALID_TYPE) => match __o { Some(t) => t.get_token_type(), None => TOKEN_INVALID_TYPE }
//@ end
//@ fn src/token_stream.rs IntStream for UnbufferedTokenStream::consume {pub}
    requires old(self).wf(), !eof(old(self).v().f, old(self).v().cur), old(self).v().n + 2 < BIG, old(self).v().cur + 2 < BIG
    ensures final(self).wf(), final(self).v().cur == old(self).v().cur + 1, final(self).v().f == old(self).v().f, final(self).v().markers == old(self).v().markers,
        final(self).v().n > final(self).v().cur, final(self).v().n >= old(self).v().n, final(self).v().n <= old(self).v().n + 2,
        // with a mark the window keeps its start
        old(self).v().markers > 0 ==> final(self).v().p == old(self).v().p + 1
//@ rewrite panic!(__rest) => unreachable_here()
//@ at fn start
    proof { let v = self.v(); lemma_last_eof(v.f, v.n, v.cur); lemma_cut_eof(v.f, v.cur, v.cur); }
//@ at before self.sync(1)
    proof { let v = self.v(); assert forall|j: int| 0 <= j < v.len implies #[trigger] self.tok_ok(j) by { assert(o1.tok_ok(j)); }
       assert(v.f == o1.v().f && v.n == o1.v().n); assert forall|j: int| 0 <= j < v.n - 1 implies !#[trigger] eof(v.f, j) by { assert(!eof(o1.v().f, j)); }
       assert(!eof(v.f, v.cur - 1)); lemma_last_eof(v.f, v.n, v.cur); lemma_cut_eof(v.f, v.cur, v.cur); }
//@ at before #0 self.p += 1
    let ghost o1 = *self;
    proof { assert(o1.v().n > o1.v().cur); assert(o1.wf()); }
//@ end
//@ fn src/token_stream.rs IntStream for UnbufferedTokenStream::mark {ret=r pub}
    requires old(self).wf(), old(self).v().markers + 1 < BIG
    ensures final(self).wf(), final(self).v() == (UV { markers: old(self).v().markers + 1, ..old(self).v() }), r == -final(self).v().markers
//@ at fn end
    proof { assert forall|j: int| 0 <= j < self.v().len implies #[trigger] self.tok_ok(j) by { assert(old(self).tok_ok(j)); } }
//@ end
//@ fn src/token_stream.rs IntStream for UnbufferedTokenStream::release {pub}
    requires old(self).wf(), old(self).v().markers > 0, _marker_ok(marker, old(self).v().markers)
    ensures final(self).wf(), final(self).v().cur == old(self).v().cur, final(self).v().f == old(self).v().f, final(self).v().n == old(self).v().n, final(self).v().markers == old(self).v().markers - 1,
        // nothing that an outer mark protects is dropped
        old(self).v().markers > 1 ==> final(self).v() == (UV { markers: old(self).v().markers - 1, ..old(self).v() }),
//@ rewrite assert_eq!(__a, __b) => require(__a == __b)
//@ rewrite self.tokens.drain(0..__n) => drain_front(&mut self.tokens, __n)
//@ at fn tail
    proof { let d = old(self).v().len - self.v().len; assert forall|j: int| 0 <= j < self.v().len implies #[trigger] self.tok_ok(j) by { assert(old(self).tok_ok(j + d)); } }
//@ end
//@ fn src/token_stream.rs IntStream for UnbufferedTokenStream::index {ret=r pub}
    requires self.wf()
    ensures r == self.v().cur
//@ end
//@ fn src/token_stream.rs IntStream for UnbufferedTokenStream::seek {pub}
//@ sig
fn seek(&mut self, index_: isize)
    requires old(self).wf(), old(self).v().cur - old(self).v().p <= index_ < BIG - 2, old(self).v().n + index_ < BIG - 2, old(self).v().cur - old(self).v().p < index_ || index_ == 0
    ensures final(self).wf(), final(self).v().cur == cut(old(self).v().f, index_ as int) || index_ == old(self).v().cur && *final(self) == *old(self),
        final(self).v().cur - final(self).v().p == old(self).v().cur - old(self).v().p, final(self).v().markers == old(self).v().markers, final(self).v().f == old(self).v().f,
        final(self).v().n >= old(self).v().n, index_ < old(self).v().n ==> final(self).v().n == old(self).v().n,
//@ rewrite panic!() => unreachable_here()
//@ rewrite min(__a, __b) => imin(__a, __b)
//@ at fn start
    let mut index = index_;
    proof { let v = self.v(); lemma_cut(v.f, index_ as int); }
//@ at before let i =
    proof { vec_bound(self.tokens); let v = self.v(); let c = cut(v.f, index_ as int); 
        if v.n > 0 && c > v.n - 1 { assert(index_ <= old(self).v().cur); } 
        lemma_seek(v.f, v.n, index_ as int); }
//@ at fn end
    proof { assert forall|j: int| 0 <= j < self.v().len implies #[trigger] self.tok_ok(j) by { assert(o2.tok_ok(j)); } }
//@ at after let i =
    let ghost o2 = *self;
//@ end
//@ fn src/token_stream.rs IntStream for UnbufferedTokenStream::size {ret=r pub}
    requires self.wf()
    ensures r == self.v().len
//@ end
}
//@ include TOKS_lem.inc
//@ include TOKS_std.inc
} // verus!
fn main() {}
