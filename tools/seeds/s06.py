id="s06_partial_token_at_eof"; property="P06"
edits=[("src/lexer_atn_simulator.rs","if _t == EOF && lexer.input().index() == self.start_index {","if _t == EOF {")]
needs="the input ends in the middle of a token (no shorter accept)"
breaks="the unfinished rest of the input is silently reported as end of input: no error, tiling broken"
main='''
use demo::gram::*; use demo::lexdrv::*; use std::collections::HashMap;
fn main(){
  let rule=|b:E,t:i32| Rule{body:b,token:t,mode:0,leftrec:false};
  let g=Gram{lexer:true,modes:1,max_token:2,actions:vec![],rules:vec![rule(E::Seq(vec![E::Atom(97),E::Atom(98),E::Atom(99)]),1),rule(E::Atom(100),2)]};
  let env=LexEnv::new(&build(&g).raw);
  let none=HashMap::new();
  for t in ["abc","dab","abcdab","d"] {
    let got=run_full(&env,t,&[],&none,1);
    let want=Oracle::new(&g,t,&[],&none).run(1);
    if let Err(e)=diff(&got,&want) { println!("{:?}: {}",t,e); std::process::exit(1); }
  }
}
'''
