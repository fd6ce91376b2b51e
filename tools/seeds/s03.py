id="s03_far_lookahead"; property="P03"
edits=[("src/char_stream.rs","        if new_index > self.len() as isize {","        if new_index > self.len() as isize || item_offset > 0x7f {")]
needs="a lookahead of more than 127 items on a byte or code point stream"
breaks="la(k) answers end of input although the text goes on"
main='''
use antlr_rust::input_stream::{ByteStream, CodePoint32BitCharStream};
use antlr_rust::int_stream::IntStream;
fn main(){
  let text: String = (0..400).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
  let cp: Vec<u32> = text.chars().map(|c| c as u32).collect();
  let mut b = ByteStream::new(text.as_bytes());
  let mut c = CodePoint32BitCharStream::new(&cp[..]);
  for at in [0usize, 1, 200, 399] {
    b.seek(at as isize); c.seek(at as isize);
    for k in [1isize, 2, 127, 128, 129, 150, 300, 400, 401] {
      let want = cp.get(at + k as usize - 1).map_or(-1, |x| *x as isize);
      let (x, y) = (b.la(k), c.la(k));
      if x != want || y != want { println!("la({}) at {}: bytes {} code points {} expected {}", k, at, x, y, want); std::process::exit(1); }
    }
  }
}
'''
