id="s01_remove_one_skips"; property="P01"
edits=[("src/interval_set.rs","            let int = &mut self.intervals[i];\n            if el < int.a {","            let int = &mut self.intervals[i];\n            if el <= int.a && i > 0 {")]
needs="remove_one of the first element of an interval that is not the first interval of the set"
breaks="the element stays in the set"
main='''
use antlr_rust::interval_set::IntervalSet;
fn main(){
  let mut a=IntervalSet::new(); a.add_range(1,4); a.add_range(7,9); a.add_one(20);
  for x in [1isize,7,9,20,3] { a.remove_one(x); if a.contains(x) { println!("{} stayed: {:?}",x,a); std::process::exit(1);} }
}
'''
