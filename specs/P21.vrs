#![allow(unused)]
use vstd::prelude::*;
use std::borrow::Cow;
use std::borrow::Cow::{Borrowed, Owned};
verus! {
global size_of usize == 8;
//@ item src/int_stream.rs const EOF
//@ item src/token.rs const TOKEN_DEFAULT_CHANNEL

// everything a token reports
pub ghost struct TV { pub ty: int, pub channel: int, pub start: int, pub stop: int, pub line: int, pub column: int, pub index: int, pub text: Seq<char> }
// the text of a token from what it stores
pub open spec fn shown(ty: int, stored: Seq<char>) -> Seq<char> { if ty == -1 { "<EOF>"@ } else { stored } }

pub trait AsText { spec fn tv(&self) -> Seq<char>; fn borrow(&self) -> (r: &str) ensures r@ == self.tv(); }
impl AsText for String { open spec fn tv(&self) -> Seq<char> { self@ } 
    #[verifier::external_body]
    fn borrow(&self) -> (r: &str) { self.as_str() } }
pub open spec fn cowv(c: Cow<'_, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
impl<'a> AsText for Cow<'a, str> { open spec fn tv(&self) -> Seq<char> { cowv(*self) }
    #[verifier::external_body]
    fn borrow(&self) -> (r: &str) { &**self } }

// the shared index cell of a token: a plain number here (single owner)
pub struct AtomicIsize { pub x: isize }
impl AtomicIsize {
    pub fn new(x: isize) -> (r: AtomicIsize) ensures r.x == x { AtomicIsize { x } }
    pub fn load(&self) -> (r: isize) ensures r == self.x { self.x }
    pub fn store(&mut self, v: isize) ensures final(self).x == v { self.x = v; }
}
pub struct GenericToken<T: AsText> {
    pub token_type: isize, pub channel: isize, pub start: isize, pub stop: isize, pub token_index: AtomicIsize,
    pub line: isize, pub column: isize, pub text: T, pub read_only: bool,
}
pub type OwningToken = GenericToken<String>;
pub type CommonToken<'a> = GenericToken<Cow<'a, str>>;
impl<T: AsText> GenericToken<T> {
    pub open spec fn v(&self) -> TV { TV { ty: self.token_type as int, channel: self.channel as int, start: self.start as int, stop: self.stop as int,
        line: self.line as int, column: self.column as int, index: self.token_index.x as int, text: shown(self.token_type as int, self.text.tv()) } }
//@ fn src/token.rs Token for GenericToken::get_token_type {pub ret=r}
    ensures r == self.v().ty
//@ end
//@ fn src/token.rs Token for GenericToken::get_channel {pub ret=r}
    ensures r == self.v().channel
//@ end
//@ fn src/token.rs Token for GenericToken::get_start {pub ret=r}
    ensures r == self.v().start
//@ end
//@ fn src/token.rs Token for GenericToken::get_stop {pub ret=r}
    ensures r == self.v().stop
//@ end
//@ fn src/token.rs Token for GenericToken::get_line {pub ret=r}
    ensures r == self.v().line
//@ end
//@ fn src/token.rs Token for GenericToken::get_column {pub ret=r}
    ensures r == self.v().column
//@ end
//@ fn src/token.rs Token for GenericToken::get_text {pub ret=r}
    ensures r@ == self.v().text
//@ end
//@ fn src/token.rs Token for GenericToken::get_token_index {pub ret=r}
    ensures r == self.v().index
//@ rewrite __c.load(Ordering::Relaxed) => __c.load()
//@ end
//@ fn src/token.rs Token for GenericToken::set_token_index
//@ sig
fn set_token_index(&mut self, _v: isize)
    ensures final(self).v() == (TV { index: _v as int, ..old(self).v() })
//@ rewrite __c.store(__v, Ordering::Relaxed) => __c.store(__v)
//@ end
//@ fn src/token.rs Token for GenericToken::to_owned {pub ret=r}
    ensures r.v() == self.v()
//@ rewrite self.text.borrow().to_owned() => own(self.text.borrow())
//@ end
//@ fn src/token.rs trait Token::to_owned {pub ret=r name=to_owned_default}
    ensures r.v() == self.v()
//@ rewrite AtomicIsize::from(__x) => AtomicIsize::new(__x)
//@ rewrite self.get_text().to_display() => own(self.get_text())
//@ end
//@ fn src/token.rs Clone for GenericToken::clone
//@ sig
fn clone(&self) -> (r: Self)
    ensures r.v() == self.v()
//@ rewrite self.text.clone() => clone_text(&self.text)
//@ end
}
// ---------- the factories ------------------------------------------------------------------------------
// a source of text: size and the piece between two positions (P03)
pub trait CharStream {
    spec fn len(&self) -> int;
    spec fn piece(&self, a: int, b: int) -> Seq<char>;
    fn size(&self) -> (r: isize) ensures r == self.len();
    fn get_text(&self, a: isize, b: isize) -> (r: String) ensures r@ == self.piece(a as int, b as int);
    fn get_text_cow(&self, a: isize, b: isize) -> (r: Cow<'static, str>) ensures cowv(r) == self.piece(a as int, b as int);
}
pub open spec fn stored<T: CharStream>(source: Option<&mut T>, text: Option<String>, start: int, stop: int) -> Seq<char> {
    match text {
        Some(t) => t@,
        None => match source {
            Some(s) => if stop >= s.len() || start >= s.len() { "<EOF>"@ } else { s.piece(start, stop) },
            None => Seq::empty(),
        }
    }
}
pub open spec fn created(r: TV, ttype: int, text: Seq<char>, channel: int, start: int, stop: int, line: int, column: int) -> bool {
    r == TV { ty: ttype, channel, start, stop, line, column, index: -1, text: shown(ttype, text) }
}
pub struct CommonTokenFactory { }
impl CommonTokenFactory {
//@ fn src/token_factory.rs TokenFactory<'a> for CommonTokenFactory::create
//@ sig
pub fn create<T: CharStream>(&self, source: Option<&mut T>, ttype: isize, text: Option<String>, channel: isize, start: isize, stop: isize, line: isize, column: isize) -> (r: Box<CommonToken<'static>>)
    ensures created(r.v(), ttype as int, stored(source, text, start as int, stop as int), channel as int, start as int, stop as int, line as int, column as int)
//@ rewrite x.get_text(start, stop).into() => x.get_text_cow(start, stop)
//@ at fn start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ end
}
pub struct OwningTokenFactory { }
impl OwningTokenFactory {
//@ fn src/token_factory.rs TokenFactory<'a> for OwningTokenFactory::create
//@ sig
pub fn create<T: CharStream>(&self, source: Option<&mut T>, ttype: isize, text: Option<String>, channel: isize, start: isize, stop: isize, line: isize, column: isize) -> (r: Box<OwningToken>)
    ensures created(r.v(), ttype as int, stored(source, text, start as int, stop as int), channel as int, start as int, stop as int, line as int, column as int)
//@ rewrite "<EOF>".to_owned() => own("<EOF>")
//@ rewrite String::new() => own("")
//@ at fn start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ end
}
// the arena factory hands out what its inner factory created
pub struct ArenaFactory { pub arena: Arena, pub factory: CommonTokenFactory }
#[verifier::external_body]
pub struct Arena { x: () }
impl Arena {
    // typed_arena::Arena::alloc
    #[verifier::external_body]
    pub fn alloc(&self, t: CommonToken<'static>) -> (r: &CommonToken<'static>) ensures *r == t { unimplemented!() }
}
impl ArenaFactory {
//@ fn src/token_factory.rs TokenFactory<'input> for ArenaFactory::create
//@ sig
pub fn create<T: CharStream>(&self, source: Option<&mut T>, ttype: isize, text: Option<String>, channel: isize, start: isize, stop: isize, line: isize, column: isize) -> (r: &CommonToken<'static>)
    ensures created(r.v(), ttype as int, stored(source, text, start as int, stop as int), channel as int, start as int, stop as int, line as int, column as int)
//@ end
}
#[verifier::external_body]
pub fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
#[verifier::external_body]
pub fn clone_text<T: AsText>(t: &T) -> (r: T) ensures r.tv() == t.tv() { unimplemented!() }
} // verus!
fn main() {}
