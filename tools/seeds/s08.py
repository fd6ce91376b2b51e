id="s08_action_position"; property="P08"
edits=[("src/lexer_action_executor.rs","                lexer.input().seek(stop_index);\n                requires_seek = false\n","                requires_seek = start_index != stop_index\n")]
needs="a rule with two custom actions, one inside the match and one at its end"
breaks="the second action sees the input position of the first"
main='''
use demo::gram::*; use demo::lexdrv::*; use std::collections::HashMap;
fn main(){
  let rule=|b:E,t:i32| Rule{body:b,token:t,mode:0,leftrec:false};
  let g=Gram{lexer:true,modes:1,max_token:1,actions:vec![(CUSTOM,0,0),(CUSTOM,0,1)],rules:vec![rule(E::Seq(vec![E::Atom(97),E::Act(0),E::Atom(98),E::Act(1)]),1)]};
  let env=LexEnv::new(&build(&g).raw);
  let none=HashMap::new();
  for t in ["ab","abab"] {
    let got=run_full(&env,t,&[],&none,1);
    let want=Oracle::new(&g,t,&[],&none).run(1);
    if let Err(e)=diff(&got,&want) { println!("{:?}: {}",t,e); std::process::exit(1); }
  }
}
'''
