id='s11_context_independent'; property='P11'; bin='p11'
edits=[('src/semantic_context.rs', '                if !differs {\n                    return Some(Borrowed(self));\n                }\n\n                if operands.is_empty() {\n                    return None;', '                if !differs || operands.len() == ops.len() {\n                    return Some(Borrowed(self));\n                }\n\n                if operands.is_empty() {\n                    return None;')]
needs='a disjunction whose operands all change but stay, when the precedences are decided'
breaks='the partially evaluated condition still asks for precedences'
cfg=['antlr_verif']
