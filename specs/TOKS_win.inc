// ---------- the window over the source ---------------------------------------------------------------
pub struct UnbufferedTokenStream<T: TokenSource> {
    pub token_source: T,
    pub tokens: Vec<Tok>,
    pub current_token_index: isize,
    pub markers_count: isize,
    pub p: isize,
}
pub ghost struct UV { pub cur: int, pub p: int, pub len: int, pub markers: int, pub f: spec_fn(int) -> TV, pub n: int }
pub spec const BIG: int = 0x1000_0000_0000_0000;
impl<T: TokenSource> UnbufferedTokenStream<T> {
    pub open spec fn v(&self) -> UV { UV { cur: self.current_token_index as int, p: self.p as int, len: self.tokens@.len() as int, markers: self.markers_count as int, f: self.token_source.sv().f, n: self.token_source.sv().n } }
    // tokens[j] is the source's token number base + j, and knows it
    pub open spec fn tok_ok(&self, j: int) -> bool { self.tokens@[j].v() == (self.v().f)(self.v().cur - self.v().p + j) && self.tokens@[j].index == self.v().cur - self.v().p + j }
    pub open spec fn wf(&self) -> bool {
        let v = self.v();
        &&& 0 <= v.p <= v.len && v.p <= v.cur < BIG && v.n == v.cur - v.p + v.len && v.len == self.tokens@.len() && v.p == self.p && v.cur == self.current_token_index
        &&& 0 <= v.markers < BIG && v.n < BIG
        &&& forall|j: int| 0 <= j < v.len ==> #[trigger] self.tok_ok(j)
        // each token was fetched once, and nothing behind the end of input
        &&& forall|i: int| 0 <= i < v.n - 1 || 0 <= i < v.cur ==> !#[trigger] eof(v.f, i)
        // the previously consumed token stays reachable
        &&& v.cur > 0 ==> v.p > 0
    }
    pub open spec fn fetched(&self, o: &Self, upto: int) -> bool {
        &&& self.v() == (UV { len: self.v().len, n: self.v().n, ..o.v() })
        // nothing is fetched ahead of need
        &&& o.v().n <= self.v().n && (self.v().n <= o.v().n || self.v().n <= upto + 1)
        &&& upto >= 0 ==> self.v().n > cut(o.v().f, upto)
    }
