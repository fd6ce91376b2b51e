id='s10_ungated_alternative'; property='P10'; bin='p10'
edits=[('src/parser_atn_simulator.rs', '                alt_to_pred[alt] = Some(SemanticContext::or(\n                    alt_to_pred[alt].as_ref(),\n                    Some(&*c.semantic_context),\n                ));', '                if alt_to_pred[alt] != Some(SemanticContext::NONE) || *c.semantic_context != SemanticContext::NONE {\n                    alt_to_pred[alt] = Some(SemanticContext::or(\n                        alt_to_pred[alt].as_ref().filter(|x| **x != SemanticContext::NONE),\n                        Some(&*c.semantic_context),\n                    ));\n                }')]
needs='an ambiguous alternative that is reachable both with and without a predicate, and a predicate that is false'
breaks='the alternative is treated as if its predicate gated every way into it'
