#![allow(unused)]
use vstd::prelude::*;
use std::borrow::Cow;
use std::borrow::Cow::{Borrowed, Owned};
verus! {
global size_of usize == 8;
//@ item src/int_stream.rs const EOF
//@ item src/token.rs const TOKEN_EOF
//@ item src/vocabulary.rs struct VocabularyImpl

// a table entry: the name stored for a token type, if any
pub open spec fn entry(t: Seq<Option<String>>, i: int) -> Option<Seq<char>> {
    if 0 <= i < t.len() { match t[i] { Some(s) => Some(s@), None => None } } else { None }
}
pub open spec fn names(t: Seq<Option<String>>) -> Seq<Option<Seq<char>>> { Seq::new(t.len(), |i: int| entry(t, i)) }
pub open spec fn sv(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn cv(c: Cow<'_, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
// decimal rendering of a number
pub uninterp spec fn decimal(i: int) -> Seq<char>;
pub uninterp spec fn upper(c: char) -> bool;
pub open spec fn max2(a: int, b: int) -> int { if a > b { a } else { b } }

impl VocabularyImpl {
    pub open spec fn lit(&self, t: int) -> Option<Seq<char>> { entry(self.literal_names@, t) }
    pub open spec fn sym(&self, t: int) -> Option<Seq<char>> { if t == -1 { Some("EOF"@) } else { entry(self.symbolic_names@, t) } }
    pub open spec fn disp(&self, t: int) -> Seq<char> {
        match entry(self.display_names@, t) {
            Some(d) => d,
            None => match self.lit(t) { Some(l) => l, None => match self.sym(t) { Some(s) => s, None => decimal(t) } },
        }
    }
    pub open spec fn wf(&self) -> bool {
        self.max_token_type == max2(self.literal_names@.len() as int, max2(self.symbolic_names@.len() as int, self.display_names@.len() as int)) - 1
    }
//@ fn src/vocabulary.rs Vocabulary for VocabularyImpl::get_max_token_type {ret=r nopub}
    requires self.wf()
    ensures r + 1 == max2(self.literal_names@.len() as int, max2(self.symbolic_names@.len() as int, self.display_names@.len() as int))
//@ end
//@ fn src/vocabulary.rs Vocabulary for VocabularyImpl::get_literal_name {ret=r nopub}
    ensures sv(r) == self.lit(token_type as int)
//@ rewrite __v.get(__i).and_then(|x| x.as_deref()) => flat(vget(&__v, __i))
//@ rewrite __e as usize => as_index(__e)
//@ at fn start
    proof { vec_bound(self.literal_names); }
//@ end
//@ fn src/vocabulary.rs Vocabulary for VocabularyImpl::get_symbolic_name {ret=r nopub}
    ensures sv(r) == self.sym(token_type as int)
//@ rewrite __v.get(__i).and_then(|x| x.as_deref()) => flat(vget(&__v, __i))
//@ rewrite __e as usize => as_index(__e)
//@ at fn start
    proof { vec_bound(self.symbolic_names); }
//@ end
//@ fn src/vocabulary.rs Vocabulary for VocabularyImpl::get_display_name {ret=r nopub}
    ensures cv(r) == self.disp(token_type as int)
//@ rewrite __v.get(__i).and_then(|x| x.as_deref()) => flat(vget(&__v, __i))
//@ rewrite __o.map(|x| Borrowed(x)).unwrap_or(Owned(__t.to_string())) => match __o { Some(x) => Borrowed(x), None => Owned(show(__t)) }
//@ rewrite __o.or_else(|| __e) => match __o { Some(x) => Some(x), None => __e }
//@ rewrite __e as usize => as_index(__e)
//@ at fn start
    proof { vec_bound(self.display_names); }
//@ end
//@ fn src/vocabulary.rs VocabularyImpl::new
//@ sig
fn new(literal_names: It, symbolic_names: It, display_names: Option<It>) -> (r: VocabularyImpl)
    ensures r.wf(), names(r.literal_names@) == literal_names.v(), names(r.symbolic_names@) == symbolic_names.v(),
        names(r.display_names@) == (match display_names { Some(d) => d.v(), None => Seq::empty() }),
//@ rewrite __o.into_iter().flatten() => flatten(__o)
//@ rewrite __a.modify_with(|__x| __b) => { let mut __x = __a; proof { vec_bound(__x.literal_names); vec_bound(__x.symbolic_names); vec_bound(__x.display_names); } __b; __x }
//@ end
//@ fn src/vocabulary.rs VocabularyImpl::from_token_names
//@ sig
fn from_token_names(token_names: &[Option<&str>]) -> (r: VocabularyImpl)
    ensures r.wf(), r.max_token_type == token_names@.len() - 1,
        forall|i: int| 0 <= i < token_names@.len() ==> #[trigger] entry(r.display_names@, i) == sv(token_names@[i]),
        forall|i: int| 0 <= i < token_names@.len() ==> #[trigger] entry(r.literal_names@, i) == lit_of(sv(token_names@[i])),
        forall|i: int| 0 <= i < token_names@.len() ==> #[trigger] entry(r.symbolic_names@, i) == sym_of(sv(token_names@[i])),
        r.literal_names@.len() == token_names@.len(), r.symbolic_names@.len() == token_names@.len(), r.display_names@.len() == token_names@.len(),
//@ rewrite collect_to_string(token_names.iter()) => collect_to_string(slice_iter(token_names))
//@ rewrite __v.iter().enumerate() => enum_of(&__v)
//@ rewrite __v.clone() => clone_names(&__v)
//@ rewrite __v.iter() => vec_iter(&__v)
//@ rewrite tn.is_empty() => str_empty(tn)
//@ rewrite tn.chars().next().unwrap() => first_char(tn)
//@ rewrite Self::new(__a, __b, __c) => { let ghost l0 = literal_names@; let ghost s0 = symbolic_names@; let r = Self::new(__a, __b, __c); \
    proof { lemma_names(l0); lemma_names(s0); lemma_names(r.literal_names@); lemma_names(r.symbolic_names@); lemma_names(r.display_names@); \
      assert forall|k: int| 0 <= k < tn0.len() implies #[trigger] entry(r.literal_names@, k) == lit_of(tn0[k]) by { assert(names(r.literal_names@)[k] == names(l0)[k]); assert(l0[k] == l0[k]); } \
      assert forall|k: int| 0 <= k < tn0.len() implies #[trigger] entry(r.symbolic_names@, k) == sym_of(tn0[k]) by { assert(names(r.symbolic_names@)[k] == names(s0)[k]); assert(s0[k] == s0[k]); } \
      assert forall|k: int| 0 <= k < tn0.len() implies #[trigger] entry(r.display_names@, k) == tn0[k] by { assert(names(r.display_names@)[k] == tn0[k]); } } r }
//@ rewrite __e.is_uppercase() => is_upper(__e)
//@ rewrite for (i, tn) in __v { __body } => { let it = __v; let mut gi: usize = 0; while gi < it.len() \
    invariant gi <= token_names@.len(), it@ == token_names@, names(token_names@) == tn0, literal_names@.len() == tn0.len(), symbolic_names@.len() == tn0.len(), \
      tn0.len() == token_names@.len(), \
      forall|k: int| #![trigger literal_names@[k]] 0 <= k < gi ==> entry(literal_names@, k) == lit_of(tn0[k]), forall|k: int| #![trigger literal_names@[k]] gi <= k < tn0.len() ==> entry(literal_names@, k) == tn0[k], \
      forall|k: int| #![trigger symbolic_names@[k]] 0 <= k < gi ==> entry(symbolic_names@, k) == sym_of(tn0[k]), forall|k: int| #![trigger symbolic_names@[k]] gi <= k < tn0.len() ==> entry(symbolic_names@, k) == tn0[k], \
    decreases token_names@.len() - gi \
    { let i = gi; let tn = &it[gi]; gi = gi + 1; proof { assert(entry(literal_names@, i as int) == tn0[i as int]); assert(entry(symbolic_names@, i as int) == tn0[i as int]); assert(names(token_names@)[i as int] == entry(token_names@, i as int)); } __body } }
//@ at after let token_names
    let ghost tn0 = names(token_names@);
    proof { lemma_names(token_names@); }
//@ at before for
    proof { assert forall|k: int| 0 <= k < tn0.len() implies #[trigger] entry(literal_names@, k) == tn0[k] by { assert(names(literal_names@)[k] == tn0[k]); }
      assert forall|k: int| 0 <= k < tn0.len() implies #[trigger] entry(symbolic_names@, k) == tn0[k] by { assert(names(symbolic_names@)[k] == tn0[k]); } }
//@ end
}
pub open spec fn lit_of(n: Option<Seq<char>>) -> Option<Seq<char>> {
    match n { Some(s) => if s.len() > 0 && s[0] == '\'' { Some(s) } else { None }, None => None }
}
pub open spec fn sym_of(n: Option<Seq<char>>) -> Option<Seq<char>> {
    match n { Some(s) => if s.len() > 0 && s[0] != '\'' && upper(s[0]) { Some(s) } else { None }, None => None }
}
pub proof fn lemma_names(t: Seq<Option<String>>) ensures names(t).len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] names(t)[i] == entry(t, i) {}

// ---------- trusted: standard library pieces ----------------------------------------------------
pub axiom fn vec_bound<T>(v: Vec<T>) ensures v@.len() <= 0x7fff_ffff_ffff_ffff;
// `x as usize` on a possibly negative number: wraps
#[verifier::external_body]
pub fn as_index(i: isize) -> (r: usize) ensures i >= 0 ==> r == i, i < 0 ==> r == i + 0x1_0000_0000_0000_0000 { i as usize }
#[verifier::external_body]
pub fn vget<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>) ensures i < v@.len() ==> r == Some(&v@[i as int]), i >= v@.len() ==> r is None { v.get(i) }
#[verifier::external_body]
pub fn flat(o: Option<&Option<String>>) -> (r: Option<&str>)
    ensures sv(r) == (match o { Some(Some(s)) => Some(s@), _ => None }) { o.and_then(|x| x.as_deref()) }
#[verifier::external_body]
pub fn show(i: isize) -> (r: String) ensures r@ == decimal(i as int) { i.to_string() }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == max2(a as int, b as int) { if a > b { a } else { b } }
// any iterator over optional names; collect_to_string copies it in order (std iterator/collect/to_owned)
#[verifier::external_body]
pub struct It { v: Vec<Option<String>> }
impl It { pub uninterp spec fn v(&self) -> Seq<Option<Seq<char>>>; }
#[verifier::external_body]
pub fn collect_to_string(it: It) -> (r: Vec<Option<String>>) ensures names(r@) == it.v() { it.v }
#[verifier::external_body]
pub fn flatten(o: Option<It>) -> (r: It) ensures r.v() == (match o { Some(d) => d.v(), None => Seq::empty() }) { unimplemented!() }
#[verifier::external_body]
pub fn slice_iter(o: &[Option<&str>]) -> (r: It) ensures r.v() == Seq::new(o@.len(), |i: int| sv(o@[i])) { unimplemented!() }
#[verifier::external_body]
pub fn vec_iter(o: &Vec<Option<String>>) -> (r: It) ensures r.v() == names(o@) { unimplemented!() }
#[verifier::external_body]
pub fn clone_names(o: &Vec<Option<String>>) -> (r: Vec<Option<String>>) ensures names(r@) == names(o@) { unimplemented!() }
pub fn enum_of(o: &Vec<Option<String>>) -> (r: &Vec<Option<String>>) ensures r@ == o@ { o }
#[verifier::external_body]
pub fn str_empty(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
pub fn first_char(s: &String) -> (r: char) requires s@.len() > 0 ensures r == s@[0] { s.chars().next().unwrap() }
#[verifier::external_body]
pub fn is_upper(c: char) -> (r: bool) ensures r == upper(c) { c.is_uppercase() }
} // verus!
fn main() {}
