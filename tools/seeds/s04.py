id="s04_overfetch_marked"; property="P04"
edits=[("src/token_stream.rs","let need = (self.p + want - 1) - self.tokens.len() as isize + 1;","let need = ((self.p + want - 1) - self.tokens.len() as isize + 1).max((self.markers_count > 0 && want > 1) as isize);")]
needs="a mark is held and a token that is already buffered is looked at again with an offset above 1"
breaks="more tokens are taken from the source than the lookahead asks for"
main='''
use demo::parsedrv::*;
use antlr_rust::int_stream::IntStream;
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
fn main(){
  let src = VecSource::new(&[(1,0),(2,0),(3,0),(4,0),(5,0),(6,0),(7,0),(8,0)]);
  let fetched = src.fetched.clone();
  let mut s = UnbufferedTokenStream::new_unbuffered(src);
  let m = s.mark();
  let mut far = 1;
  for (k, want) in [(1,1),(2,2),(2,2),(3,3),(2,2),(2,2),(3,3),(1,1)] {
    let t = s.la(k);
    far = far.max(k as usize);
    let n = *fetched.borrow();
    if t != want || n > far { println!("la({}) = {} with {} tokens fetched for a farthest lookahead of {}", k, t, n, far); std::process::exit(1); }
  }
  s.release(m);
}
'''
