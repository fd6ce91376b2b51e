// ---------- trusted: standard library pieces ----------------------------------------------------
#[verifier::external_body]
pub struct Text { s: String }
impl Text { pub uninterp spec fn v(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn text_new() -> (r: Text) ensures r.v() == Seq::<char>::empty() { Text { s: String::new() } }
// buf.extend(token text characters)
#[verifier::external_body]
pub fn push_text(b: &mut Text, t: &Tok) ensures final(b).v() == old(b).v() + t.text@ { }
// no more than 2^58 tokens are ever held
pub axiom fn vec_bound<T>(v: Vec<T>) ensures v@.len() < 0x400_0000_0000_0000;
#[verifier::external_body]
pub fn as_index(i: isize) -> (r: usize) ensures i >= 0 ==> r == i, i < 0 ==> r == i + 0x1_0000_0000_0000_0000 { i as usize }
#[verifier::external_body]
pub fn vget<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>) ensures i < v@.len() ==> r == Some(&v@[i as int]), i >= v@.len() ==> r is None { v.get(i) }
pub fn imin(a: isize, b: isize) -> (r: isize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
#[verifier::external_body]
pub fn drain_front(v: &mut Vec<Tok>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.skip(n as int) { v.drain(0..n); }
#[verifier::external_body]
pub fn unreachable_here() -> ! requires false { panic!() }
pub fn require(b: bool) requires b { }
