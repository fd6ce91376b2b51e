id='s09_precedence_start_shared'; property='P09'; bin='p09'
edits=[('src/parser_atn_simulator.rs', '.set_precedence_start_state(local.precedence, s0);', '.set_precedence_start_state(local.precedence.min(3), s0);')]
needs='a left-recursive rule entered with a precedence above 3 after it was predicted with a lower one'
breaks='a later prediction uses the start state another precedence left in the cache'
