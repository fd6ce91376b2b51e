"""Registry: which templates (specs/*.vrs) and which harness binary decide each property."""
HOOKS = {"guard": "cfg(antlr_verif)", "enable": "RUSTFLAGS='--cfg antlr_verif' cargo build (harness crates of P11-P15)", "source_commits": ["acedbec", "dec1c8f"]}
NOT_APPLICABLE = {}
PROPS = {
    "P01": dict(specs=["P01"], harness="p01", rlimit=30,
                note="Every operation of the symbol set is proved against the mathematical set it denotes (all inputs, all histories, via the canonical-form invariant). Rendering to text is only checked by the bounded stand-in.",
                bounded_covers="to_token_string rendering; witness search for the proved operations",
                assumptions=["elements lie within [-2^60, 2^60] (token types and code points do)",
                             "std: cmp::min/max, slice::binary_search_by behave as documented"]),
    "P02": dict(specs=["P02"], harness="p02", rlimit=30,
                note="matches/get_label/get_target/set_target/is_epsilon/get_reachable_target of every edge kind are proved against the set of symbols the edge denotes, for all symbols, labels and vocabulary bounds.",
                bounded_covers="witness search for the proved functions",
                assumptions=["IntervalSet contracts (discharged by P01's obligations)", "labels lie within [-2^60, 2^60]"]),
    "P03": dict(specs=["P03"], harness="p03", rlimit=40,
                note="offset/item/len of every kind of input data, and consume/la/lookahead/seek/mark/release/get_text/index of InputStream are proved against the sequence of characters of the input, for all inputs and positions; iteration too. Bounded: construction of the streams and end-to-end histories.",
                bounded_covers="construction from text/bytes/code points; random histories of every stream kind",
                assumptions=["std string slicing, char_indices, chars behave as documented", "inputs shorter than 2^60"]),
    "P04": dict(specs=["TOKS"], harness="p04", rlimit=40,
                note="sync/fill/lt/la/consume/mark/release/seek/get/iter of UnbufferedTokenStream are proved against the source's token sequence for every history (window invariant).",
                bounded_covers="text concatenation; end-to-end histories",
                assumptions=["token source: pure sequence, end of input repeats", "Vec::drain as documented", "fewer than 2^60 tokens"]),
    "P05": dict(specs=["TOKC", "TOKS"], harness="p05", rlimit=40,
                note="every operation of CommonTokenStream is proved against the channel-filtered sequence for all channels and histories, over the window contracts proved for UnbufferedTokenStream (TOKS).",
                bounded_covers="text concatenation; end-to-end histories",
                assumptions=["token source: pure sequence, end of input repeats", "fewer than 2^60 tokens"]),
    "P20": dict(specs=["P20"], harness="p20", rlimit=30,
                note="every lookup and the classification of from_token_names are proved for all tables and token types.",
                bounded_covers="witness search; string formatting of numbers",
                assumptions=["str::starts_with/char::is_uppercase/format! as documented"]),
    "P21": dict(specs=["P21"], harness="p21", rlimit=30,
                note="create of all four factories, every getter/setter, to_owned, clone are proved to carry the attributes and text through.",
                bounded_covers="Display formatting; end-to-end creation",
                assumptions=["get_text of the input (P03)", "typed_arena::alloc stores its argument", "positions within the input"]),
    "P06": dict(specs=["LEXSIM", "LEXER"], harness="p06", rlimit=40,
                note="exec_atn/match_token and the functions below it are proved to return the longest accepted prefix (the first accepting configuration's rule) of the automaton given by `step`, whatever is cached; next_token is proved to tile the input with steps, report one error per erroneous step and to repeat end of input for ever. `step` and the start set are defined in the specification from the automaton's transitions alone (closure over epsilon, rule, predicate and action transitions, call stacks, what a non-greedy decision hides, dropping of later alternatives behind an acceptance), and closure, get_epsilon_target, get_reachable_config_set, get_reachable_target and compute_start_state are proved to compute exactly that, for every automaton, configuration and input.",
                bounded_covers="that this automaton is the one of the grammar as written: random grammars x inputs against an independent longest-match oracle that works on the grammar",
                assumptions=["character stream contract (P03)", "configuration set contract (P13)", "the DFA lock protects its contents (parking_lot)", "stacks of a lexer are chains (they are never merged: P12)",
                             "user actions and predicates do not move the input or change the lexer's private state", "termination of the matching loop is not proved"]),
    "P07": dict(specs=["LEXSIM", "LEXER"], harness="p07", rlimit=40,
                note="consume, accept, capture_sim_state, evaluate_predicate, recover, exec_atn, next_token, emit, emit_eof proved to keep line/column equal to the position function of the consumed characters, for all inputs.",
                bounded_covers="whole-lexer runs with predicates, errors, more, skip against positions recomputed from the text",
                assumptions=["LexerPosition is shared between lexer and simulator (established in new_base_lexer)", "inputs shorter than 2^60 characters", "user code does not set line/column"]),
    "P08": dict(specs=["LEXACT", "LEXER", "LEXSIM"], harness="p08", rlimit=40,
                note="Every command's effect, the executor's order/positions, offset fixing, mode stack, and that exactly the accepted alternative's executor runs once are proved; which actions end up in the executor, in which order, is proved too (the lexer's closure is under contract in LEXSIM).",
                bounded_covers="end-to-end commands/modes/overrides against an oracle that works on the grammar",
                assumptions=["LexerAction::clone/LexerActionExecutor::clone are structural", "user actions do not move the input"]),
    "P11": dict(specs=["P11"], harness="p11", cfg=["antlr_verif"], rlimit=30,
                note="new_and, new_or, and, or, filter_precedence_predicate, evaluate, eval_precedence and the parser's precpred are proved: for every formula, every outcome of the user predicates and every precedence, the rewritten condition has the truth value of the formula, partial evaluation leaves no precedence predicate behind, and the result of combining is a function of the set of operands (canonical order).",
                bounded_covers="hashing; end-to-end evaluation through a parser",
                assumptions=["user predicates are pure during one evaluation and predicate (-1,-1) is true (Actions::sempred default)", "derived Clone/PartialEq of SemanticContext are structural", "HashSet collects each distinct element once; min_by_key/max_by_key as documented"]),
    "P13": dict(specs=["P13"], harness="p13", cfg=["antlr_verif"], rlimit=30,
                note="Every method of ATNConfigSet (except the get_items iterator) and every constructor/setter/equality of ATNConfig is proved; a ghost-history lemma shows that any sequence of additions leaves exactly one entry per key, in order of first insertion, carrying the union of the stacks added under it.",
                bounded_covers="hash of a set, get_items, and the merge contract used here (P12) end to end",
                assumptions=["PredictionContext::merge is the union (P12)", "equality and hashing of SemanticContext/PredictionContext are consistent; derived Clone/PartialEq are structural",
                             "HashMap is a finite map; Vec equality is elementwise", "the `hasher` field only ever holds one of the two key functions (the field is private; defunctionalized)"]),
    "P12": dict(specs=["P12"], harness="p12", cfg=["antlr_verif"], rlimit=40,
                note="merge, merge_singletons, merge_root, merge_arrays, combine_common_parents, to_array, alloc, calc_hash, the equality operators and every accessor of a stack graph are proved against the set of call stacks the graph stands for: the result stands for exactly the union (in both merge modes), is sorted, unique and hashed everywhere, the cache only ever holds unions of its keys, and structurally equal graphs are `==` and have equal hashes. Termination included.",
                bounded_covers="witness search for the proved functions; get_shared_context",
                assumptions=["return states lie in 0..=0x7FFFFFFF", "one merge cache serves one merge mode and at most one atn", "HashMap finds keys up to ==; MurmurHasher is a function of the values written", "Arc::ptr_eq implies equality; derived Clone copies; lazy_static EMPTY_PREDICTION_CONTEXT is new_empty()"]),
    "P14": dict(specs=["P14"], harness="p14", cfg=["antlr_verif"], rlimit=30,
                note="Every function of prediction_mode.rs is proved against the partition of the configurations by (state, call stack) resp. by state, for all configuration sets and all collections of alternative sets.",
                bounded_covers="witness search for the proved functions",
                assumptions=["configuration set contract (P13)", "BitSet is a finite set iterated in ascending order; HashMap entry/values/drain visit every key once", "alternative numbers are non-negative"]),
    "P10": dict(specs=["P10"], harness="p10", rlimit=60,
                note="adaptive_predict, exec_atn, exec_atn_with_full_context, compute_target_state, compute_reach_set, compute_start_state, apply_precedence_filter, the predicate evaluation, conflict and dead-end functions, the cache operations (DFA::new, add_dfastate, add_dfaedge, get_existing_target_state, precedence start states) are proved to compute exactly the prediction of the ALL(*) algorithm, written as a specification over the automaton's transitions alone, whatever the cache holds, and to leave position and marks of the stream as they were. The closure below it (closure, closure_checking_stop_state, closure_work, get_epsilon_target, the rule/action/predicate/precedence transitions and the left-recursion loop shortcut) is proved too: for every automaton, configuration and set of followed configurations it adds exactly what the recursive specification adds. That this algorithm picks what the grammar's derivations demand is compared with an independent backtracking parser by the bounded stand-in.",
                bounded_covers="the algorithm against the derivations of the grammar: random grammars x inputs, predictions against the first derivation of an independent backtracking parser",
                assumptions=["call stacks (P12): popping, pushing and merging well-formed stacks gives well-formed ones, in SLL mode an end marker only alone; states, follow states and transition kinds of the automaton are well-formed", "run-time checks of the nesting depth (isize) may panic; they are not proved to hold", "configuration set (P13), stack (P12), conflict (P14) and predicate (P11) contracts", "the merge cache does not change what add does (P12/P13)",
                             "parking_lot locks protect the cache; one prediction mode per cache", "listeners do not move the input; user predicates are pure during one prediction", "termination is not proved"]),
    "P09": dict(specs=["P10", "LEXSIM", "LEXACT"], harness="p09", rlimit=60,
                note="Parser: every cache operation is proved to keep the invariant that each stored state, edge, verdict and precedence start state is what the algorithm computes for it, a prediction over any cache satisfying the invariant is proved to be the one the specification gives, and a theorem shows that specification to be a function (two predictions over two caches end alike, errors included); the empty cache (DFA::new) satisfies it. Lexer: likewise exec_atn/match_token over any correct cache return the longest match of the automaton, closure and everything below it included (an edge is stored only where no predicate and no position-dependent action was met: then the outcome is proved to be the same in every world). Whole runs, concurrency and the equality of everything a user sees are in addition checked on generated grammars.",
                bounded_covers="whole lexers and parsers: each input on an empty cache against shared warm caches in random order and against three threads",
                assumptions=["parking_lot locks are exclusive/shared as documented, so that every reader sees a cache some completed update left behind (the invariant holds at every release)", "well-formed automaton and call stacks (as in P10); run-time checks of the nesting depth (isize) may panic", "one prediction mode per cache",
                             "contracts of P11-P14", "alternatives are numbered from 1", "user predicates are pure during one prediction"]),
    "P17": dict(specs=["P17", "NODE", "TREE"], harness="p17", rlimit=40,
                note="consume, match_token, match_wildcard, enter/exit_rule, enter_outer_alt, enter/push/unroll recursion context are proved to transform the tree under construction exactly as the derivation demands (each consumed token becomes the last leaf of the current node, parents, start/stop, replacement of labelled nodes, left-recursive nesting); the node type is proved to store what it is told; text, LISP form and source interval of a finished tree are proved by induction on the tree.",
                bounded_covers="whole parses (rule by rule nesting and precedence) against an independent backtracking parser; parsing without trees",
                assumptions=["token stream contract (P05), seen through its channel", "error strategy only eats tokens into the current node (P19)", "Rc/RefCell/Cell are a heap of nodes addressed by identity; parents are alive while something below them is parsed",
                             "generated code calls the runtime as the templates do"]),
    "P18": dict(specs=["TREE", "P17"], harness="p18", rlimit=40,
                note="walk/walk_inner are proved by induction to produce exactly enter, children left to right, exit, and one matching callback per leaf, for every tree; consume, enter/exit_rule, enter_outer_alt, push/unroll recursion context and the two trigger functions are proved to tell every attached listener the corresponding event exactly once, in order.",
                bounded_covers="whole parses with listeners against the events of the finished tree",
                assumptions=["a context's generated enter/exit calls enter_every_rule/exit_every_rule and the rule's own callback once", "Rc/RefCell as in P17"]),
    "P19": dict(specs=["P19"], harness="p19", rlimit=40,
                note="every decision of the default strategy is proved against the first sets and the stack of invoking states: report functions report the current token once and only outside recovery; deletion, insertion (at most once at a place) and giving up happen exactly when the next tokens say so; recover consumes one token when it fails again at the same place and stops exactly at the first token of the follow sets of the enclosing rules or end of input; sync by state kind; the bail strategy never consumes.",
                bounded_covers="whole parses of damaged inputs: termination, errors iff not a sentence (independent backtracking parser), leaves in order, positions, bail parses",
                assumptions=["first sets by contract (P16)", "consume as proved in P17; token stream as proved in P05", "sync is called in decision states only and every rule is entered with a rule transition, as generated code does", "termination of whole parses is argued from the proved progress steps and checked on generated grammars only"]),
    "P16": dict(specs=["P16"], harness="p16", rlimit=40,
                note="look_work, look, from_rule_context, next_tokens, next_tokens_in_ctx and get_expected_tokens are proved for every automaton and call stack: the set holds exactly the tokens reachable by a run of the automaton that matches nothing else first (the end of the rule as EPSILON, the end of the outermost rule as EOF); a lemma over runs shows that combining the per-rule sets along the stack gives exactly the first tokens of that stack.",
                bounded_covers="witness search; sets taken in real parses; termination on generated grammars",
                assumptions=["the automaton is well formed (P15) and no rule can re-enter itself before matching a token (ANTLR rejects or rewrites such grammars)", "equality of the visited configurations is (state, alternative, stack): P11/P12", "PredictionContext operations on chains: P12", "OnceCell keeps the first value", "termination is not proved"]),
    "P15": dict(specs=["P15"], harness="p15", cfg=["antlr_verif"], rlimit=40,
                note="deserialize and everything below it (all readers, the three factories, add_state, add_transition, the accessors of a state, precedence marking) is proved against an encoder written as a specification: for every well-formed automaton, deserializing its serialized form gives exactly its states, links, marks, rules, modes, decisions, sets, actions and edges in order, plus the return edges; a version other than 3 or an unsupported identifier never returns.",
                bounded_covers="the identifier check (byte order and table), equality of labels, an independent encoder end to end",
                assumptions=["IntervalSet contracts (P01)", "check_uuid is bounded only", "numbers of states, rules, sets, edges are below 0xFFFE (the 16-bit format has no room for more)", "Box<dyn Transition>/Box<dyn ATNState> dispatch to the type inside; derived equality", "automata in the current format: no state of type 0, no two parallel edges the runtime treats as one"]),
}
