id='s17_lr_start'; property='P17'; bin='p17'
edits=[('src/parser.rs', '        localctx.set_start(Some(prev.start_mut().clone()));', '        localctx.set_start(if self.precedence_stack.len() > 3 { self.input.lt(-1).cloned() } else { Some(prev.start_mut().clone()) });')]
needs='left-recursive contexts nested at least three deep'
breaks='the outer context does not start where its first operand starts'
