id='s12_merge_keeps_left_parent'; property='P12'; bin='p12'
edits=[('src/prediction_context.rs', '                    merged.return_states.push(payload);\n                    merged.parents.push(Some(merged_parent));', '                    merged.return_states.push(payload);\n                    merged.parents.push(Some(if i > 1 && j > 1 { a_parent.unwrap().clone() } else { merged_parent }));')]
needs='two stack graphs with at least three tops, the third common to both with different parents'
breaks='stacks of the second graph are lost in the union'
cfg=['antlr_verif']
