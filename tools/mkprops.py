#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

p("P01", "Symbol sets behave as exact mathematical sets of integers",
  "A symbol set built by any sequence of adding elements, ranges and other sets, removing an element, subtracting and complementing contains exactly the integers the same sequence of mathematical set operations yields. Its stored intervals stay sorted, disjoint and non-adjacent, so equal sets have one representation and compare equal. Membership, minimum, size and rendering all agree with that set.",
  ["inputs", "histories"], "every finite sequence of set operations over all integers that token types and code points can take",
  "Unit tests build four or five concrete sets; merging, splitting and adjacency bugs need particular overlaps of three or more intervals.",
  ["src/interval_set.rs"], [("add_interval", "src/interval_set.rs IntervalSet::add_interval"), ("substract", "src/interval_set.rs IntervalSet::substract"), ("contains", "src/interval_set.rs IntervalSet::contains")],
  ["IntervalSet public API"])

p("P02", "A grammar edge matches exactly the symbols it denotes",
  "For every symbol and every vocabulary bounds, a literal matches only itself, a range exactly its inclusive bounds, a set exactly its members, a negated set exactly the vocabulary symbols outside it, and a wildcard exactly the vocabulary symbols from the first to the last inclusive. Edges that consume nothing (epsilon, actions, predicates) match no symbol, and end of input is matched only by an edge that names it. The reported label of a literal, range or set is exactly the set of symbols it matches, and following an edge on a symbol leads to its target iff it matches.",
  ["inputs", "configurations"], "all symbols, all labels, all vocabulary bounds",
  "Tests only ever try a handful of ASCII symbols; the first and last symbol of a vocabulary, and end of input, are never tried.",
  ["src/transition.rs", "src/atn_deserializer.rs"], [("matches/get_label/get_reachable_target of every edge kind", "src/transition.rs")],
  ["Transition::matches, get_label, get_reachable_target", "lexing and parsing with the edge kinds"])

p("P03", "Character streams are a faithful cursor over the input",
  "For every input text (string, bytes, 8/16/32-bit code points) and every sequence of consume, lookahead and seek, the stream is a cursor over exactly the characters of the input in order: lookahead k is the k-th next (negative: previous) character and end-of-input outside the text, consume advances by exactly one character, and the index never leaves a character boundary. Extracting the text between two positions returns exactly the input between them, clipped at its end. Marking and releasing never move the cursor, and iterating yields exactly the remaining symbols and then ends.",
  ["inputs", "histories"], "all texts including multi-byte characters, all operation sequences",
  "Two unit tests with fixed strings; multi-byte widths, negative lookahead and ends of input are single samples.",
  ["src/input_stream.rs", "src/char_stream.rs", "src/int_stream.rs"], [("IntStream for InputStream / ByteCharStream / CodePoint streams", "src/input_stream.rs"), ("InputData::{offset,item,len}", "src/char_stream.rs")],
  ["InputStream and CodePoint*CharStream API"])

p("P04", "An unbuffered token stream serves the source's tokens, window or not",
  "For every token source and every legal sequence of lookahead, consume, mark, seek and release, an unbuffered token stream shows the same tokens at the same indices as the fully buffered sequence of the source: lookahead k from index i is token i+k-1, end of input repeats after the last token, and lookback -1 is the previously consumed token. Tokens inside an active mark stay reachable by seek until released, and each token is fetched from the source exactly once, in order, none beyond those looked at or moved to.",
  ["inputs", "histories"], "all token sequences and all legal operation histories",
  "One unit test with one three-token history.",
  ["src/token_stream.rs"], [("sync/fill/consume/mark/release/seek/lt", "src/token_stream.rs UnbufferedTokenStream")],
  ["UnbufferedTokenStream as TokenStream/IntStream"])

p("P05", "A buffered token stream shows exactly the tokens of its channel, in order",
  "For every token source and every sequence of lookahead, consume, seek, mark and release, a common token stream's current token, lookahead and lookback are the tokens of its channel (plus the final end-of-input token) in source order, no matter how many off-channel tokens lie between, before or after them. Consuming moves to the next on-channel token, every token (on or off channel) stays addressable under its source index, and text extraction concatenates all tokens of the requested range. Reading past either end never panics and never invents a token, and iterating yields exactly the remaining tokens of the channel.",
  ["inputs", "histories"], "all token sequences with arbitrary channels, all operation histories",
  "Tests use inputs whose first token is on channel and never look back across hidden tokens.",
  ["src/common_token_stream.rs", "src/token_stream.rs"], [("next_token_on_channel/previous_token_on_channel/lt/lb/adjust_seek_index/sync/fetch/consume", "src/common_token_stream.rs")],
  ["CommonTokenStream as TokenStream/IntStream"])

p("P06", "Lexing is longest match, first rule wins, and tiles the input",
  "For every lexer grammar (without predicates) and every input, each token is the longest prefix of the remaining input that any rule of the current mode matches, ties going to the rule listed first, and a non-greedy loop stops at its first possible exit. If no rule matches, exactly one error is reported there, and lexing resumes after at least one more character. Tokens, skipped matches and erroneous stretches together tile the input without gap or overlap; then end-of-input tokens follow for ever.",
  ["inputs", "programs"], "all grammars, all inputs",
  "Tests run a few fixed grammars on a few well-formed inputs.",
  ["src/lexer.rs", "src/lexer_atn_simulator.rs"], [("exec_atn/closure/fail_or_accept/capture_sim_state", "src/lexer_atn_simulator.rs"), ("next_token", "src/lexer.rs")],
  ["BaseLexer::next_token, token start/stop, error listener"])

p("P07", "Every token carries the line and column where it starts",
  "For every input and every lexer grammar, a token's line is one plus the number of line feeds before its first character and its column is the number of characters between the last line feed and its first character. This holds after speculative look-ahead was rolled back, after errors, after skipped and continued (more) matches, and for the end-of-input token.",
  ["inputs", "programs", "histories"], "all inputs, all grammars, all rollback histories",
  "Tests never assert a position after a multi-line token or after rolled-back lookahead.",
  ["src/lexer_atn_simulator.rs", "src/lexer.rs"], [("consume/accept/capture_sim_state/evaluate_predicate", "src/lexer_atn_simulator.rs"), ("token_start_line/token_start_column", "src/lexer.rs next_token")],
  ["Token::get_line/get_column"])

p("P08", "Lexer commands and modes take effect exactly as written, in order",
  "For every lexer grammar and input, the commands and actions of the matched alternative, and only those, run once each, in grammar order, when and only when that token is accepted; a custom action sees the input position it had in the rule. Skip drops the match, more extends the next one, type and channel set those of the emitted token only, and mode, pushMode and popMode follow a last-in-first-out stack with popMode on an empty stack changing nothing.",
  ["inputs", "programs", "histories"], "all grammars with commands, all inputs",
  "Tests use a single XML lexer with two modes and two custom actions.",
  ["src/lexer.rs", "src/lexer_action.rs", "src/lexer_action_executor.rs", "src/lexer_atn_simulator.rs"], [("LexerAction::execute", "src/lexer_action.rs"), ("LexerActionExecutor", "src/lexer_action_executor.rs"), ("push_mode/pop_mode/more/skip", "src/lexer.rs")],
  ["token sequence, mode stack, recorded action calls"])

p("P09", "Prediction caches never change a result",
  "For every grammar, lexing or parsing an input gives the same tokens, tree, errors and chosen alternatives whether the shared automaton caches are empty, warmed by any other inputs in any order, or being filled by other recognizers at the same time. Looking up a cached edge returns what was stored for that state and symbol, or nothing, never the entry of another symbol.",
  ["inputs", "histories", "programs", "schedules"], "all sequences of inputs sharing one cache",
  "Caches are process globals in tests; no test compares a warm run with a cold one.",
  ["src/dfa.rs", "src/dfa_state.rs", "src/lexer_atn_simulator.rs", "src/parser_atn_simulator.rs", "src/atn_config_set.rs"], [("add_dfaedge/get_existing_target_state/add_dfastate", "src/lexer_atn_simulator.rs"), ("add_dfastate/add_dfaedge/get_existing_target_state", "src/parser_atn_simulator.rs"), ("get/set_precedence_start_state", "src/dfa.rs")],
  ["token sequences, trees, adaptive_predict results"])

p("P10", "Adaptive prediction picks the lowest-numbered viable alternative",
  "For every grammar, decision point, calling context and remaining input, in a parse whose start rule ends with end of input: if the rest of the input can still be derived, prediction returns the lowest-numbered alternative that leads to such a derivation, never one whose predicate at its left edge is false while another remains; if it cannot, some error is reported in the end, and prediction itself fails only when no alternative can match the next tokens or every predicate fails. It never consumes input: the stream position after a prediction, successful or failed, is where it was before, and no mark is left on the stream.",
  ["inputs", "programs", "histories"], "all grammars, decisions, contexts and token sequences",
  "Tests parse a few valid sentences of unambiguous grammars.",
  ["src/parser_atn_simulator.rs", "src/prediction_mode.rs", "src/atn_config_set.rs", "src/prediction_context.rs", "src/dfa.rs"], [("adaptive_predict/exec_atn/exec_atn_with_full_context/compute_reach_set/closure", "src/parser_atn_simulator.rs")],
  ["ParserATNSimulator::adaptive_predict", "parser results"])

p("P11", "Rewriting semantic predicates preserves their truth",
  "For every set of predicates and every outcome of the user's predicate functions, combining predicates with and/or, flattening, deduplicating, reducing precedence predicates and partially evaluating precedence yields a condition with the same truth value as the original formula. A condition is reported as settled true or false only when it is so under every outcome, a partially evaluated condition asks for no precedence any more, and combining the same conditions again gives an equal condition with an equal hash.",
  ["inputs", "configurations"], "all predicate formulas, all truth assignments, all precedence levels",
  "No test touches predicates beyond one precedence grammar.",
  ["src/semantic_context.rs"], [("and/or/new_and/new_or/evaluate/eval_precedence/filter_precedence_predicate", "src/semantic_context.rs")],
  ["SemanticContext API", "parsing with predicates"])

p("P12", "Merging call stacks keeps exactly the stacks that went in",
  "For every pair of graph-structured call stacks, merging them yields a graph representing exactly the union of the stacks of both (with the wildcard meaning of the empty stack in local-context mode), never losing or inventing a stack; return states stay sorted and unique in every node, and equal graphs compare equal and hash equally. Merging the same pair again through the merge cache gives the same graph.",
  ["inputs", "histories"], "all acyclic stack graphs, both merge modes, with and without cache",
  "Unit tests check about thirty hand-drawn graphs.",
  ["src/prediction_context.rs"], [("merge/merge_singletons/merge_arrays/merge_root/combine_common_parents", "src/prediction_context.rs")],
  ["PredictionContext::merge and iteration over paths"], "cfg(antlr_verif): re-export of the private module prediction_context")

p("P13", "A configuration set keeps every configuration added to it, once",
  "For every sequence of configurations added, a configuration set contains for each distinct (state, alternative, predicate) exactly one entry whose call stacks are the union of those added under that key, in order of first insertion; an ordered set (used by lexers) contains each distinct configuration exactly once in insertion order. Flags derived from the entries (predicates present, dips into outer context) are set exactly when some added configuration warrants them, and sets with the same entries are equal and hash equally.",
  ["inputs", "histories"], "all add sequences",
  "No unit test of configuration sets exists.",
  ["src/atn_config_set.rs", "src/atn_config.rs"], [("add/add_cached/local_hash_key/full_hash_key", "src/atn_config_set.rs")],
  ["ATNConfigSet API"], "cfg(antlr_verif): constructors of configurations")

p("P14", "Conflict detection partitions configurations exactly",
  "For every configuration set, the conflicting alternative sets are exactly the groups of alternatives that share a state and call stack, the alternatives per state are exactly those occurring with it, and the derived verdicts (unique alternative, conflict present, all subsets conflict, all subsets equal, single viable alternative, some state tied to one alternative) hold precisely when they hold of those groups. The alternative reported as resolved is the minimum of the single viable ones.",
  ["inputs"], "all configuration sets and alternative-set families",
  "No unit test exists; parsing tests reach two or three shapes.",
  ["src/prediction_mode.rs"], [("get_conflicting_alt_subsets/has_sll_conflict_terminating_prediction/resolves_to_just_one_viable_alt/get_single_viable_alt", "src/prediction_mode.rs")],
  ["prediction-mode functions", "adaptive_predict"], "cfg(antlr_verif): re-export of private module prediction_mode")

p("P15", "Deserialization reconstructs exactly the serialized grammar automaton",
  "For every well-formed automaton serialized in the current format (version 3, the latest identifier), deserialization yields exactly the states (kind, rule, end/loop links, non-greedy and left-recursive marks), rules, modes, symbol sets, edges (kind, target, arguments), decisions and lexer actions that were encoded, plus one return edge per rule invocation and the precedence marks of left-recursive loops, and nothing else. Input with a wrong version or identifier is rejected.",
  ["inputs", "programs"], "all well-formed serialized automata including 16-bit and supplementary-plane sets",
  "Only the automata of seven generated grammars are ever read; wrong edges in rarely used kinds go unnoticed.",
  ["src/atn_deserializer.rs", "src/atn_state.rs", "src/atn.rs"], [("read_states/read_rules/read_modes/read_sets/read_edges/read_decisions/read_lexer_actions/edge_factory/state_factory", "src/atn_deserializer.rs")],
  ["ATNDeserializer::deserialize, public fields of the result"])

p("P16", "Expected-token sets are exactly the tokens that can come next",
  "For every grammar, state and call stack, the set of tokens reported as possible next is exactly the set of first tokens of the sentences derivable from that state in that stack, with end of input included exactly when the rest can be empty down to the bottom of the stack. Within a single rule, the ability to reach the end of the rule is reported exactly when an empty derivation exists.",
  ["inputs", "programs"], "all grammars, states and stacks",
  "Tests see the expected set only in one or two error messages.",
  ["src/ll1_analyzer.rs", "src/atn.rs", "src/parser.rs"], [("LL1Analyzer::look_work", "src/ll1_analyzer.rs"), ("ATN::get_expected_tokens/next_tokens", "src/atn.rs")],
  ["ATN::next_tokens, ATN::get_expected_tokens, Parser::get_expected_tokens"])

p("P17", "The parse tree is the derivation, and its leaves are the consumed tokens",
  "For every grammar and input, the tree's leaves in order are exactly the tokens consumed or inserted by recovery, each rule node's parent is the node holding it, and each rule node's start and stop tokens delimit its leaves. Rule nodes nest as the rules were invoked, left-recursive rules nest by precedence and associativity, and the text of a node is the concatenation of its leaves' text.",
  ["inputs", "programs"], "all grammars and inputs, valid or not",
  "Tests compare a few trees of short valid inputs.",
  ["src/parser.rs", "src/parser_rule_context.rs", "src/tree.rs", "src/trees.rs", "src/rule_context.rs"], [("enter_rule/exit_rule/enter_recursion_rule/push_new_recursion_context/unroll_recursion_context/consume", "src/parser.rs"), ("add_child/remove_last_child", "src/parser_rule_context.rs")],
  ["tree API, to_string_tree"])

p("P18", "Walking a tree fires balanced events in document order",
  "For every tree, the walker visits every node exactly once in depth-first left-to-right order: entering a rule node before, and leaving it after, all events of its children, and visiting each terminal and error leaf once with the matching callback. Listeners attached during parsing see the same sequence of enter, exit and terminal events as walking the finished tree gives, except where a context is replaced afterwards.",
  ["inputs", "programs"], "all trees",
  "Tests walk one small tree with one listener.",
  ["src/tree.rs", "src/parser.rs"], [("ParseTreeWalker::walk", "src/tree.rs"), ("trigger_enter_rule_event/trigger_exit_rule_event", "src/parser.rs")],
  ["listener callbacks"])

p("P19", "Error recovery always terminates, reports once and resynchronizes",
  "For every grammar and every token sequence, parsing with the default error strategy ends, consumes each token at most once and in order, and reports an error if and only if the input is not a sentence of the grammar; a mismatched, missing or extraneous token it reports first is never beyond the first token that cannot come. While recovering, no second report is made until a token has been matched or a single unwanted token removed, a missing token is made up at most once at the same place, and recovery skips tokens only up to one that is expected or can follow in some enclosing rule. The bail strategy instead gives up at the first error: no token is repaired, skipped or matched after it.",
  ["inputs", "programs", "fault_sequences"], "all grammars and all erroneous inputs",
  "Tests contain two erroneous inputs.",
  ["src/error_strategy.rs", "src/parser.rs", "src/errors.rs"], [("recover/recover_inline/single_token_insertion/single_token_deletion/sync/report_error/consume_until/get_error_recovery_set", "src/error_strategy.rs")],
  ["error listener, tree, token index after parsing"])

p("P20", "Token names resolve uniformly through the vocabulary",
  "For every table of literal, symbolic and display names and every token type, the literal and symbolic names are the table entries if present, end of input is named EOF, and the display name is the first of display, literal and symbolic name that exists, else the number itself. Token types outside the tables, negative or too large, never panic, and a vocabulary built from plain token names classifies quoted names as literal and capitalised names as symbolic. The maximum token type is the largest index any table covers.",
  ["inputs", "configurations"], "all name tables, all token types",
  "Names only appear in a few expected messages.",
  ["src/vocabulary.rs"], [("get_display_name/get_literal_name/get_symbolic_name/from_token_names", "src/vocabulary.rs")],
  ["VocabularyImpl API"])

p("P21", "Tokens report exactly the attributes and text they were created with",
  "For every token factory and every combination of type, channel, position and override text, a created token returns exactly those attributes; its text is the override text if one was given, else exactly the input between its start and stop positions (which lie within the input), and for the end-of-input token the EOF marker. Copying a token to an owned one changes nothing.",
  ["inputs", "configurations"], "all factories, texts and positions",
  "Tests read the text of a few tokens from one factory.",
  ["src/token_factory.rs", "src/token.rs"], [("TokenFactory::create", "src/token_factory.rs"), ("Token for GenericToken", "src/token.rs")],
  ["TokenFactory::create, Token API"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
