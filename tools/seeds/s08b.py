id="s08b_push_same_mode"; property="P08"
edits=[("src/lexer.rs","        self.mode_stack.push(self.mode);\n        self.mode = m;","        if self.mode != m {\n            self.mode_stack.push(self.mode);\n        }\n        self.mode = m;")]
needs="pushMode of the mode that is already current, followed by popMode"
breaks="nested pushes of the same mode are lost, so the first popMode leaves it"
main='''
use demo::gram::*; use demo::lexdrv::*; use std::collections::HashMap;
fn main(){
  let rule=|b:E,t:i32,m:usize| Rule{body:b,token:t,mode:m,leftrec:false};
  let g=Gram{lexer:true,modes:2,max_token:3,actions:vec![(PUSH,1,0),(POP,0,0)],rules:vec![
    rule(E::Seq(vec![E::Atom(97),E::Act(0)]),1,0),rule(E::Seq(vec![E::Atom(97),E::Act(0)]),2,1),rule(E::Seq(vec![E::Atom(98),E::Act(1)]),3,1)]};
  let env=LexEnv::new(&build(&g).raw);
  let none=HashMap::new();
  for t in ["ab","aabb","aabba"] {
    let got=run_full(&env,t,&[],&none,1);
    let want=Oracle::new(&g,t,&[],&none).run(1);
    if let Err(e)=diff(&got,&want) { println!("{:?}: {}",t,e); std::process::exit(1); }
  }
}
'''
