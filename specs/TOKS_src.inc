// ---------- tokens and their source ----------------------------------------------------------------
pub struct Tok { pub ty: isize, pub channel: isize, pub index: isize, pub text: Ghost<Seq<char>> }
pub ghost struct TV { pub ty: int, pub channel: int, pub text: Seq<char> }
impl Tok {
    pub open spec fn v(self) -> TV { TV { ty: self.ty as int, channel: self.channel as int, text: self.text@ } }
    pub fn get_token_type(&self) -> (r: isize) ensures r == self.ty { self.ty }
    pub fn get_channel(&self) -> (r: isize) ensures r == self.channel { self.channel }
    pub fn set_token_index(&mut self, i: isize) ensures *final(self) == (Tok { index: i, ..*old(self) }) { self.index = i; }
}
// what a source hands out, call by call
pub ghost struct SV { pub f: spec_fn(int) -> TV, pub n: int }
pub trait TokenSource: Sized {
    spec fn sv(&self) -> SV;
    fn next_token(&mut self) -> (r: Tok)
        ensures r.v() == (old(self).sv().f)(old(self).sv().n), final(self).sv() == (SV { n: old(self).sv().n + 1, ..old(self).sv() });
}
pub open spec fn eof(f: spec_fn(int) -> TV, i: int) -> bool { f(i).ty == -1 }
// position i, or that of the end-of-input token if it comes earlier
pub open spec fn cut(f: spec_fn(int) -> TV, i: int) -> int decreases i {
    if i <= 0 { i } else { let c = cut(f, i - 1); if c == i - 1 && !eof(f, c) { i } else { c } }
}
pub proof fn lemma_cut(f: spec_fn(int) -> TV, i: int)
    requires i >= 0
    ensures 0 <= cut(f, i) <= i, cut(f, i) < i ==> eof(f, cut(f, i)), forall|j: int| 0 <= j < cut(f, i) ==> !#[trigger] eof(f, j)
    decreases i
{ if i > 0 { lemma_cut(f, i - 1); } }
// the first end-of-input position is a fixed point of everything behind it
pub proof fn lemma_cut_eof(f: spec_fn(int) -> TV, e: int, i: int)
    requires 0 <= e <= i, forall|j: int| 0 <= j < e ==> !#[trigger] eof(f, j), e == i || eof(f, e)
    ensures cut(f, i) == e decreases i
{ if i > 0 { if i == e { assert(!eof(f, i - 1)); lemma_cut_eof(f, i - 1, i - 1); } else { lemma_cut_eof(f, e, i - 1); } } }

