id="s07_line_after_rollback"; property="P07"
edits=[("src/lexer_atn_simulator.rs","        self.current_pos.line.set(self.prev_accept.line);\n","        if self.current_pos.line.get() <= self.prev_accept.line {\n            self.current_pos.line.set(self.prev_accept.line);\n        }\n")]
needs="a token whose look-ahead crosses a line feed and is then rolled back to a shorter match"
breaks="tokens after the rollback carry a line that is too large"
main='''
use demo::gram::*; use demo::lexdrv::*; use std::collections::HashMap;
fn main(){
  let rule=|b:E,t:i32| Rule{body:b,token:t,mode:0,leftrec:false};
  let g=Gram{lexer:true,modes:1,max_token:3,actions:vec![],rules:vec![rule(E::Atom(97),1),rule(E::Seq(vec![E::Atom(97),E::Atom(10),E::Atom(98)]),2),rule(E::Atom(10),3)]};
  let env=LexEnv::new(&build(&g).raw);
  let none=HashMap::new();
  for t in ["a","a\\nb","a\\na","a\\n\\na"] {
    let got=run_full(&env,t,&[],&none,1);
    let want=Oracle::new(&g,t,&[],&none).run(1);
    if let Err(e)=diff(&got,&want) { println!("{:?}: {}",t,e); std::process::exit(1); }
  }
}
'''
