id="s02_notset_last_symbol"; property="P02"
edits=[("src/transition.rs","_symbol >= _min_vocab_symbol && _symbol <= _max_vocab_symbol && !self.set.contains(_symbol)","_symbol >= _min_vocab_symbol && _symbol < _max_vocab_symbol && !self.set.contains(_symbol)")]
needs="a negated set asked about the very last symbol of the vocabulary"
breaks="~[...] does not match the last symbol (U+10FFFF, or the highest token type)"
main='''
use antlr_rust::interval_set::IntervalSet;
use antlr_rust::transition::*;
fn main(){
  let mut s=IntervalSet::new(); s.add_range(97,99);
  let t=NotSetTransition{target:1,set:s};
  for max in [10isize,100,0x10FFFF] { for v in [1isize,5,10,97,98,100,0x10FFFF,0x110000] {
    let want = v>=1 && v<=max && !(97..=99).contains(&v);
    if t.matches(v,1,max)!=want { println!("symbol {} of 1..={}",v,max); std::process::exit(1);} } }
}
'''
