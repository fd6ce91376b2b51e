id='s15_wide_code_points'; property='P15'; bin='p15'
edits=[('src/atn_deserializer.rs', '(data.next().unwrap() & 0xFFFF) | data.next().unwrap() << 16', '(data.next().unwrap() & 0xFFFF) + ((data.next().unwrap() & 0xF) << 16)')]
needs='a set of characters reaching plane 16 (above U+FFFFF)'
breaks='the deserialized set differs from the one the grammar has'
cfg=['antlr_verif']
