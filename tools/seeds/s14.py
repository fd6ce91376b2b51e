id='s14_states_by_parent_stack'; property='P14'; bin='p14'
edits=[('src/prediction_mode.rs', '            .entry((c.get_state(), c.get_context().unwrap()))', '            .entry((c.get_state(), c.get_context().map(|x| if x.length() > 2 { x.get_parent(0).unwrap_or(x) } else { x }).unwrap()))')]
needs='configurations whose stack graphs have three or more tops'
breaks='configurations with different stacks are put into one conflicting set'
cfg=['antlr_verif']
