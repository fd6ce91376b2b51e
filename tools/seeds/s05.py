id="s05_lookback_to_first"; property="P05"
edits=[("src/common_token_stream.rs","        while n <= k && i > 0 {","        while n <= k && i > 1 {")]
needs="looking back several tokens so that the very first token of the stream is the answer"
breaks="LB(k) does not find the first token"
main='''
use demo::parsedrv::*;
use antlr_rust::int_stream::IntStream;
use antlr_rust::token::Token;
use antlr_rust::token_stream::TokenStream;
use antlr_rust::common_token_stream::CommonTokenStream;
fn main(){
  for hidden in 0..3 {
    let mut v = vec![(1,0)];
    for _ in 0..hidden { v.push((9,1)); }
    v.extend([(2,0),(3,0)]);
    let mut s = CommonTokenStream::new(VecSource::new(&v));
    s.consume(); s.consume();
    for (k, want) in [(-1, Some(2)), (-2, Some(1)), (-3, None)] {
      let got = s.lt(k).map(|t| t.get_token_type());
      if got != want { println!("lt({}) with {} hidden tokens: {:?} expected {:?}", k, hidden, got, want); std::process::exit(1); }
    }
  }
}
'''
