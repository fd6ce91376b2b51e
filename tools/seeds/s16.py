id='s16_eof_shadow'; property='P16'; bin='p16'
edits=[('src/atn.rs', '        if following.contains(TOKEN_EPSILON) {\n            expected.add_one(TOKEN_EOF);', '        if following.contains(TOKEN_EPSILON) && following.length() == 1 {\n            expected.add_one(TOKEN_EOF);')]
needs='a parser state from which the start rule can end but also go on'
breaks='end of input is missing from the expected tokens'
