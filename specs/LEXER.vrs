#![allow(unused)]
#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ item src/lexer.rs const LEXER_MORE
//@ item src/lexer.rs const LEXER_SKIP
//@ item src/lexer.rs const LEXER_DEFAULT_MODE
//@ item src/token.rs const TOKEN_INVALID_TYPE
//@ item src/token.rs const TOKEN_DEFAULT_CHANNEL
pub const LEXER_DEFAULT_TOKEN_CHANNEL: isize = TOKEN_DEFAULT_CHANNEL;
//@ item src/int_stream.rs const EOF

pub open spec fn pos(s: Seq<int>, c: int) -> (int, int) decreases c {
    if c <= 0 { (1, 0) } else {
        let p = pos(s, c - 1);
        if s[c - 1] == 10 { (p.0 + 1, 0) } else { (p.0, p.1 + 1) }
    }
}
pub open spec fn sym(s: Seq<int>, c: int) -> int { if 0 <= c < s.len() { s[c] } else { -1 } }

// ---------- the character stream ------------------------------------------------------
pub ghost struct CsV { pub syms: Seq<int>, pub cur: int, pub off: spec_fn(int) -> int }
pub open spec fn cs_ok(v: CsV) -> bool {
    &&& 0 <= v.cur <= v.syms.len()
    &&& forall|a: int| 0 <= a <= v.syms.len() ==> 0 <= #[trigger] (v.off)(a) < isize::MAX
    &&& forall|a: int| 0 <= a < v.syms.len() ==> 0 <= #[trigger] v.syms[a] <= 0x10FFFF
}
#[verifier::external_body]
pub struct Cs { x: usize }
impl Cs { pub uninterp spec fn v(&self) -> CsV; }

// ---------- tokens: exactly what the factory is asked for (P21) ---------------------------
#[verifier::external_body]
pub struct Txt { x: usize }
pub struct Tok { pub ttype: isize, pub text: Option<Txt>, pub channel: isize, pub start: isize, pub stop: isize, pub line: isize, pub column: isize, pub has_source: bool }
pub struct Factory { pub x: usize }
impl Factory {
    #[verifier::external_body]
    pub fn create(&self, source: bool, ttype: isize, text: Option<Txt>, channel: isize, start: isize, stop: isize, line: isize, column: isize) -> (r: Tok)
        ensures r == (Tok { ttype, text, channel, start, stop, line, column, has_source: source })
    { unimplemented!() }
}

// ---------- one matching step: [start, end) in the input, with the type it ended up with -----
pub ghost struct Step { pub mode: int, pub start: int, pub end: int, pub err: bool, pub ttype: int }

pub struct LexErr { pub start_index: isize }
// the simulator (LEXSIM.vrs verifies the contracts below)
pub struct LexerPosition { pub line: isize, pub char_position_in_line: isize }
pub struct Sim { pub p: LexerPosition }
impl Sim {
    pub open spec fn tracks(&self, v: CsV) -> bool { self.p.line == pos(v.syms, v.cur).0 && self.p.char_position_in_line == pos(v.syms, v.cur).1 }
    pub fn get_line(&self) -> (r: isize) ensures r == self.p.line { self.p.line }
    pub fn get_char_position_in_line(&self) -> (r: isize) ensures r == self.p.char_position_in_line { self.p.char_position_in_line }
    // commands and user actions of the accepted rule may set type, channel, text, token, mode and mode stack
    #[verifier::external_body]
    pub fn match_token(&mut self, mode: usize, lexer: &mut BaseLexer) -> (r: Result<isize, LexErr>)
        requires old(lexer).input is Some, old(self).tracks((old(lexer).input->0).v())
        ensures
            final(lexer).frame(old(lexer)), final(self).tracks((final(lexer).input->0).v()), old(lexer).cs().cur <= final(lexer).cs().cur,
            final(lexer).token is None || final(lexer).token == old(lexer).token || made_by_user(final(lexer).token->0),
            r is Err ==> final(lexer).token_type == old(lexer).token_type,
            final(lexer).interpreter == old(lexer).interpreter,
            final(lexer).steps@ == old(lexer).steps@.push(Step { mode: mode as int, start: old(lexer).cs().cur, end: final(lexer).cs().cur, err: r is Err,
                ttype: match r { Ok(t) => if final(lexer).token_type == 0 { t as int } else { final(lexer).token_type as int }, Err(_) => -3 } }),
    { unimplemented!() }
}
// BaseLexer: the fields the extracted functions touch; `steps` and `reports` are ghost history
pub struct BaseLexer {
    pub interpreter: Option<Sim>,
    pub input: Option<Cs>,
    pub factory: Factory,
    pub token_start_char_index: isize,
    pub token_start_line: isize,
    pub token_start_column: isize,
    pub token_type: isize,
    pub token: Option<Tok>,
    pub hit_eof: bool,
    pub channel: isize,
    pub mode_stack: Vec<usize>,
    pub mode: usize,
    pub text: Option<Txt>,
    pub steps: Ghost<Seq<Step>>,
    pub reports: Ghost<Seq<int>>,
}
impl BaseLexer {
    pub open spec fn cs(&self) -> CsV { (self.input->0).v() }
    pub open spec fn at_rest(&self) -> bool { self.input is Some && self.interpreter is Some && (self.interpreter->0).tracks(self.cs()) && cs_ok(self.cs()) }
    // what matching and user actions leave alone
    pub open spec fn frame(&self, o: &Self) -> bool {
        &&& self.input is Some
        &&& self.cs() == (CsV { cur: self.cs().cur, ..o.cs() })
        &&& cs_ok(o.cs()) ==> cs_ok(self.cs())
        &&& self.token_start_char_index == o.token_start_char_index && self.token_start_line == o.token_start_line && self.token_start_column == o.token_start_column
        &&& self.hit_eof == o.hit_eof && self.factory == o.factory && self.reports == o.reports
    }
    #[verifier::external_body]
    fn in_mark(&mut self) -> isize requires old(self).input is Some ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    fn in_release(&mut self, m: isize) requires old(self).input is Some ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    fn in_index(&self) -> (r: isize) requires self.input is Some ensures r == (self.cs().off)(self.cs().cur) { unimplemented!() }
    #[verifier::external_body]
    fn in_la(&mut self, i: isize) -> (r: isize) requires old(self).input is Some, i == 1 ensures *final(self) == *old(self), r == sym(old(self).cs().syms, old(self).cs().cur) { unimplemented!() }
    // interpreter.recover(err, input): skips one more character if there is one; extends the erroneous step
    #[verifier::external_body]
    fn do_recover(&mut self, e: LexErr)
        requires old(self).input is Some, old(self).interpreter is Some, (old(self).interpreter->0).tracks(old(self).cs()), old(self).steps@.len() > 0
        ensures
            *final(self) == (BaseLexer { input: final(self).input, interpreter: final(self).interpreter, steps: final(self).steps, ..*old(self) }),
            final(self).frame(old(self)), final(self).interpreter is Some, (final(self).interpreter->0).tracks(final(self).cs()),
            final(self).cs().cur == (if old(self).cs().cur < old(self).cs().syms.len() { old(self).cs().cur + 1 } else { old(self).cs().cur }),
            final(self).steps@ == old(self).steps@.update(old(self).steps@.len() - 1, Step { end: final(self).cs().cur, ..old(self).steps@.last() }),
    { unimplemented!() }
    // notify_listeners: every listener is told once, at the start of the token
    #[verifier::external_body]
    fn notify(&mut self, e: &LexErr)
        ensures *final(self) == (BaseLexer { reports: final(self).reports, ..*old(self) }), final(self).reports@ == old(self).reports@.push(old(self).token_start_char_index as int)
    { unimplemented!() }
    // user callback before a token is emitted
    #[verifier::external_body]
    fn before_emit(&mut self) ensures final(self).frame(old(self)), final(self).cs() == old(self).cs(), final(self).interpreter == old(self).interpreter, final(self).steps == old(self).steps
    { unimplemented!() }

//@ fn src/lexer.rs Lexer for BaseLexer::set_channel
    ensures *final(self) == (BaseLexer { channel: v, ..*old(self) })
//@ end
//@ fn src/lexer.rs Lexer for BaseLexer::set_type
    ensures *final(self) == (BaseLexer { token_type: t, ..*old(self) })
//@ end
//@ fn src/lexer.rs Lexer for BaseLexer::set_mode
    ensures *final(self) == (BaseLexer { mode: m, ..*old(self) })
//@ end
//@ fn src/lexer.rs Lexer for BaseLexer::more
    ensures *final(self) == (BaseLexer { token_type: -2isize, ..*old(self) })
//@ end
//@ fn src/lexer.rs Lexer for BaseLexer::skip
    ensures *final(self) == (BaseLexer { token_type: -3isize, ..*old(self) })
//@ end
//@ fn src/lexer.rs Lexer for BaseLexer::push_mode
    ensures final(self).mode == m, final(self).mode_stack@ == old(self).mode_stack@.push(old(self).mode),
        *final(self) == (BaseLexer { mode: m, mode_stack: final(self).mode_stack, ..*old(self) })
//@ end
//@ fn src/lexer.rs Lexer for BaseLexer::pop_mode {ret=r}
    ensures
        // last in, first out; nothing happens on an empty stack
        old(self).mode_stack@.len() == 0 ==> r is None && final(self).mode_stack@.len() == 0 && *final(self) == (BaseLexer { mode_stack: final(self).mode_stack, ..*old(self) }),
        old(self).mode_stack@.len() > 0 ==> r == Some(old(self).mode_stack@.last()) && final(self).mode == old(self).mode_stack@.last() && final(self).mode_stack@ == old(self).mode_stack@.drop_last()
            && *final(self) == (BaseLexer { mode: final(self).mode, mode_stack: final(self).mode_stack, ..*old(self) })
//@ rewrite __o.map(|__c| __body) => match __o { Some(__c) => Some(__body), None => None }
//@ end

//@ fn src/lexer.rs BaseLexer::get_char_index {ret=r}
    requires self.input is Some
    ensures r == (self.cs().off)(self.cs().cur)
//@ rewrite self.input.as_ref().unwrap().index() => self.in_index()
//@ end
//@ fn src/lexer.rs BaseLexer::set_text
//@ sig
fn set_text(&mut self, _text: Txt)
    ensures *final(self) == (BaseLexer { text: Some(_text), ..*old(self) })
//@ end
//@ fn src/lexer.rs BaseLexer::emit_token
//@ sig
fn emit_token(&mut self, token: Tok)
    ensures *final(self) == (BaseLexer { token: Some(token), ..*old(self) })
//@ end
//@ fn src/lexer.rs BaseLexer::emit
    requires old(self).at_rest()
    ensures final(self).frame(old(self)), final(self).cs() == old(self).cs(), final(self).interpreter == old(self).interpreter, final(self).steps == old(self).steps, final(self).token is Some,
        ({ let t = final(self).token->0;
           &&& t.has_source
           &&& t.ttype == final(self).token_type
           &&& t.channel == final(self).channel
           &&& t.start == old(self).token_start_char_index
           &&& t.stop == (old(self).cs().off)(old(self).cs().cur) - 1
           &&& t.line == old(self).token_start_line
           &&& t.column == old(self).token_start_column })
//@ rewrite <T as LexerRecog<Self>>::before_emit(self) => self.before_emit()
//@ rewrite Some(self.input.as_mut().unwrap()) => true
//@ end
//@ fn src/lexer.rs BaseLexer::emit_eof
    requires old(self).at_rest()
    ensures *final(self) == (BaseLexer { token: final(self).token, ..*old(self) }),
        ({ let v = old(self).cs(); let i = (v.off)(v.cur) as isize;
           final(self).token == Some(Tok { ttype: -1isize, text: None, channel: 0isize, start: i, stop: (i - 1) as isize, line: pos(v.syms, v.cur).0 as isize, column: pos(v.syms, v.cur).1 as isize, has_source: false }) })
//@ rewrite None::<&mut Input> => false
//@ rewrite super::int_stream::EOF => EOF
//@ rewrite self.get_line() => self.interpreter.as_ref().unwrap().get_line()
//@ rewrite self.get_char_position_in_line() => self.interpreter.as_ref().unwrap().get_char_position_in_line()
//@ end

    // between steps
    pub open spec fn mid(o: BaseLexer, f: BaseLexer) -> bool {
        &&& f.at_rest() && f.cs().syms == o.cs().syms && f.cs().off == o.cs().off
        &&& o.steps@.is_prefix_of(f.steps@)
        &&& tiles(f.steps@.skip(o.steps@.len() as int), o.cs().cur, f.cs().cur)
        &&& f.reports@.len() == o.reports@.len() + errs(f.steps@.skip(o.steps@.len() as int), f.steps@.len() - o.steps@.len())
    }
    // what one call of next_token gives
    pub open spec fn gave(o: BaseLexer, f: BaseLexer, r: Tok) -> bool {
        let s = f.steps@.skip(o.steps@.len() as int);
        if o.hit_eof || all_dropped(s) {
            // end of input, for ever
            &&& f.hit_eof
            &&& o.hit_eof ==> s.len() == 0
            &&& Self::eof_at(f, r)
        } else {
            // the steps before the token's first one (b) were all dropped
            exists|b: int| #[trigger] chain(s, b)
                && f.token_start_char_index == (o.cs().off)(s[b].start) && f.token_start_line == pos(o.cs().syms, s[b].start).0 && f.token_start_column == pos(o.cs().syms, s[b].start).1
                // a token made by a user action is passed on as it is, otherwise:
                && (made_by_user(r) || (r.has_source && r.ttype == f.token_type && r.channel == f.channel && r.start == (o.cs().off)(s[b].start) && r.stop == (o.cs().off)(f.cs().cur) - 1
                    && r.line == pos(o.cs().syms, s[b].start).0 && r.column == pos(o.cs().syms, s[b].start).1))
        }
    }
    pub open spec fn eof_at(f: BaseLexer, t: Tok) -> bool {
        let v = f.cs(); let i = (v.off)(v.cur) as isize;
        t == (Tok { ttype: -1isize, text: None, channel: 0isize, start: i, stop: (i - 1) as isize, line: pos(v.syms, v.cur).0 as isize, column: pos(v.syms, v.cur).1 as isize, has_source: false })
    }

//@ fn src/lexer.rs TokenSource for BaseLexer::next_token {attr=verifier::exec_allows_no_decreases_clause}
//@ sig
fn next_token(&mut self) -> (r: Tok)
    requires old(self).at_rest()
    ensures
        // every stretch of input is covered by exactly one step, in order; one report per erroneous step
        Self::mid(*old(self), *final(self)),
        Self::gave(*old(self), *final(self), r),
        !old(self).hit_eof ==> final(self).hit_eof == (final(self).cs().cur == final(self).cs().syms.len())
//@ rewrite self.input().mark() => self.in_mark()
//@ rewrite self.input().release(__x) => self.in_release(__x)
//@ rewrite self.input().index() => self.in_index()
//@ rewrite self.input().la(__x) => self.in_la(__x)
//@ rewrite super::int_stream::EOF => EOF
//@ rewrite __r.unwrap_or_else(|err| __b) => match __r { Ok(x) => x, Err(err) => __b }
//@ rewrite notify_listeners(__a, __b, __c) => self.notify(__b)
//@ rewrite self.interpreter.as_mut().unwrap().recover(err, __x) => self.do_recover(err)
//@ at fn start
    let ghost o = *self;
    let ghost n0 = self.steps@.len() as int;
    proof { assert(self.steps@.skip(n0) =~= Seq::empty()); reveal(tiles); reveal(dropped); }
//@ loop 0 loop
    invariant_except_break
        Self::mid(o, *self), all_dropped(self.steps@.skip(n0)), n0 == o.steps@.len(),
        self.steps@.len() == n0 ==> self.hit_eof == o.hit_eof,
        self.steps@.len() > n0 ==> !o.hit_eof && self.hit_eof == (self.cs().cur == self.cs().syms.len()),
    ensures
        Self::mid(o, *self), self.token is Some, n0 == o.steps@.len(),
        Self::gave(o, *self, self.token->0),
        !o.hit_eof ==> self.hit_eof == (self.cs().cur == self.cs().syms.len()),
//@ loop 1 loop
    invariant_except_break
        forall|i: int| b <= i < self.steps@.skip(n0).len() ==> (#[trigger] self.steps@.skip(n0)[i]).ttype == -2,
        Self::mid(o, *self), self.hit_eof ==> self.cs().cur == self.cs().syms.len(),
    invariant
        !o.hit_eof, n0 == o.steps@.len(), 0 <= b <= self.steps@.skip(n0).len(), dropped(self.steps@.skip(n0), b),
        cs_ok(self.cs()), o.cs().syms == self.cs().syms,
        bcur == (if b < self.steps@.skip(n0).len() { self.steps@.skip(n0)[b].start } else { self.cs().cur }),
        self.token is None || made_by_user(self.token->0),
        self.token_start_char_index == (o.cs().off)(bcur), self.token_start_line == pos(o.cs().syms, bcur).0, self.token_start_column == pos(o.cs().syms, bcur).1,
    ensures
        Self::mid(o, *self), chain(self.steps@.skip(n0), b),
        self.hit_eof == (self.cs().cur == self.cs().syms.len()),
//@ at before #0 self.token = None
    let ghost b = self.steps@.skip(n0).len() as int;
    let ghost bcur = self.cs().cur;
//@ at loop 1 start
    let ghost s1 = self.steps@;
//@ at after let ttype
    proof {
        let s = self.steps@;
        let x = s.last();
        assert(s =~= s1.push(x));
        assert(s.skip(n0) =~= s1.skip(n0).push(x));
        lemma_add(s1.skip(n0), x, o.cs().cur, b);
        assert(o.steps@.is_prefix_of(s)) by { assert(o.steps@ =~= s1.take(n0)); assert(s.take(n0) =~= s1.take(n0)); }
        assert(s.skip(n0).last() == x);
    }
    let ghost x = self.steps@.last();
//@ at before continue 'outer
    proof { assert(self.steps@.skip(n0).last() == x); lemma_drop_all(self.steps@.skip(n0), b); }
//@ at loop 1 after
    proof { lemma_not_dropped(self.steps@.skip(n0), b); }
//@ end
}
// contiguous cover of [from, to)
#[verifier::opaque]
pub open spec fn tiles(s: Seq<Step>, from: int, to: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).start == (if i == 0 { from } else { s[i - 1].end }) && s[i].start <= s[i].end
    &&& to == (if s.len() == 0 { from } else { s.last().end })
}
#[verifier::opaque]
pub open spec fn dropped(s: Seq<Step>, b: int) -> bool {
    (forall|i: int| 0 <= i < b ==> (#[trigger] s[i]).ttype == -3 || s[i].ttype == -2) && (b > 0 ==> s[b - 1].ttype == -3)
}
pub open spec fn all_dropped(s: Seq<Step>) -> bool { dropped(s, s.len() as int) }
pub open spec fn chain(s: Seq<Step>, b: int) -> bool {
    0 <= b < s.len() && dropped(s, b) && (forall|i: int| b <= i < s.len() - 1 ==> (#[trigger] s[i]).ttype == -2) && s.last().ttype != -3 && s.last().ttype != -2
}
pub open spec fn errs(s: Seq<Step>, n: int) -> int decreases n { if n <= 0 { 0 } else { errs(s, n - 1) + if s[n - 1].err { 1int } else { 0int } } }
pub proof fn lemma_errs(a: Seq<Step>, b: Seq<Step>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i]
    ensures errs(a, n) == errs(b, n) decreases n
{ if n > 0 { lemma_errs(a, b, n - 1); assert(a[n - 1] == b[n - 1]); } }
pub proof fn lemma_add(a: Seq<Step>, x: Step, from: int, b: int)
    requires tiles(a, from, x.start), x.start <= x.end, 0 <= b <= a.len(), dropped(a, b)
    ensures tiles(a.push(x), from, x.end), dropped(a.push(x), b), errs(a.push(x), (a.len() + 1) as int) == errs(a, a.len() as int) + if x.err { 1int } else { 0int },
{
    reveal(tiles); reveal(dropped);
    let c = a.push(x);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).start == (if i == 0 { from } else { c[i - 1].end }) && c[i].start <= c[i].end by {
        if i < a.len() { assert(c[i] == a[i]); if i > 0 { assert(c[i - 1] == a[i - 1]); } } else if i > 0 { assert(c[i - 1] == a[i - 1]); }
    }
    assert(c.last() == x);
    assert forall|i: int| 0 <= i < b implies (#[trigger] c[i]).ttype == -3 || c[i].ttype == -2 by { assert(c[i] == a[i]); }
    lemma_errs(a, c, a.len() as int);
}
pub proof fn lemma_drop_all(s: Seq<Step>, b: int)
    requires 0 <= b < s.len(), dropped(s, b), forall|i: int| b <= i < s.len() - 1 ==> (#[trigger] s[i]).ttype == -2, s.last().ttype == -3
    ensures all_dropped(s)
{ reveal(dropped); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).ttype == -3 || s[i].ttype == -2 by {} }
pub proof fn lemma_not_dropped(s: Seq<Step>, b: int) requires chain(s, b) ensures !all_dropped(s) { reveal(dropped); }
pub uninterp spec fn made_by_user(t: Tok) -> bool;
} // verus!
fn main() {}
