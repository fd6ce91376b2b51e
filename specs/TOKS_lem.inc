pub open spec fn _marker_ok(m: isize, n: int) -> bool { m == -n }
pub open spec fn text_of(f: spec_fn(int) -> TV, a: int, b: int) -> Seq<char> decreases b - a + 1 {
    if b < a { Seq::empty() } else { let r = text_of(f, a, b - 1); if eof(f, b) { r } else { r + f(b).text } }
}
// nothing lies behind the end of input
pub proof fn lemma_last_eof(f: spec_fn(int) -> TV, n: int, i: int)
    requires forall|j: int| 0 <= j < n - 1 ==> !#[trigger] eof(f, j), n >= 0
    ensures n > 0 && eof(f, n - 1) && i >= n - 1 ==> cut(f, i) == n - 1
{ if n > 0 && eof(f, n - 1) && i >= n - 1 { lemma_cut_eof(f, n - 1, i); } }
pub proof fn lemma_seek(f: spec_fn(int) -> TV, n: int, i: int)
    requires forall|j: int| 0 <= j < n - 1 ==> !#[trigger] eof(f, j), n >= 0, i >= 0
    ensures i <= n - 1 ==> cut(f, i) == i, n > cut(f, i) ==> cut(f, i) == (if i < n - 1 { i } else { n - 1 })
{ lemma_cut(f, i); if i <= n - 1 { lemma_cut_eof(f, i, i); } else if n > cut(f, i) { let c = cut(f, i); if c < n - 1 { assert(!eof(f, c)); } } }

