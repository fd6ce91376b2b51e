id='s13_outer_context_depth'; property='P13'; bin='p13'
edits=[('src/atn_config_set.rs', '                existing.get_reaches_into_outer_context(),\n                config.get_reaches_into_outer_context(),\n            ));', '                existing.get_reaches_into_outer_context(),\n                config.get_reaches_into_outer_context().min(1),\n            ));')]
needs='a configuration added a second time with an outer-context depth above one'
breaks='the merged entry does not carry the greater depth'
cfg=['antlr_verif']
