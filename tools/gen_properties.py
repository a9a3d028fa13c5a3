#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

E = ["src/parsers/earley.rs", "src/parsers/earley/state.rs", "src/state.rs"]
prop("C01", "The Earley parser accepts exactly the grammar's language",
  "For every well-formed context-free grammar and every token sequence, parsing returns a tree exactly when the start symbol derives the sequence of token kinds, and returns no tree otherwise. This holds for left- and right-recursive, nullable, cyclic, ambiguous and unproductive grammars, and for token kinds the grammar never mentions. Parsing always terminates and never panics.",
  ["inputs", "programs"], "all well-formed grammars x all finite token sequences",
  "No test in the repository runs the parser at all (only two examples, one token sequence each). Acceptance quantifies over all grammars and inputs, and the hard classes (nullable prefixes, left recursion, cycles, origin = current position) are combinations a handful of examples cannot cover.",
  E, [("predict/scan/complete and their closure loop", "src/parsers/earley.rs: close_state, parse"),
      ("item identity (production, dot, origin)", "src/state.rs ProdState ordering; src/parsers/earley/state.rs EarleyStateKey"),
      ("final-item test", "src/parsers/earley/state.rs: get_final, is_final_key")],
  ["return value of parsers::earley::parse"])
prop("C02", "Every tree in a parse forest is a real derivation of the input",
  "Every tree that can be read out of the forest returned for an accepted input (choosing one alternative at each node) is a derivation tree of the start symbol: each branch carries the action key of a production of the expected nonterminal and one child per element of that production, in order. The leaves of every such tree, left to right, are exactly the input tokens, each with its kind and its value. Cyclic forests never contain a node from which no finite tree can be read.",
  ["inputs", "programs"], "all grammars x accepted inputs x trees readable from the forest",
  "No test inspects a parse tree. Wrong sharing between alternatives only shows with particular ambiguous splits, so single examples look fine.",
  E + ["src/parsers/tree.rs"],
  [("item values and completion build branch nodes", "src/parsers/earley/state.rs: complete, create_next_value, scan, EarleyStateSet::insert"),
   ("node/alternative store", "src/parsers/tree.rs")],
  ["forest reached from the returned node through alts/content/nodes/action/kind/value"])
prop("C03", "The parse forest contains every derivation exactly once",
  "For every accepted input, every derivation tree of that input can be read out of the returned forest, including all of them when there are infinitely many (through cycles). No derivation can be read out in two different ways: with finitely many derivations, the number of trees in the forest equals the number of derivations.",
  ["inputs", "programs"], "all grammars x accepted inputs x derivations",
  "No test looks at ambiguity in the parser; losing an alternative or duplicating one needs a specific combination of splits, nullable parts and completion order.",
  E + ["src/parsers/tree.rs"],
  [("merging of items that differ only in their sub-trees", "src/parsers/earley/state.rs: EarleyStateSet::insert, complete"),
   ("closure runs until nothing changes", "src/parsers/earley.rs: close_state")],
  ["forest returned by parsers::earley::parse"])
prop("C04", "Grammar construction accepts exactly the well-formed grammars",
  "Building a grammar succeeds exactly when the start symbol and every nonterminal used in a production have a rule, every rule has at least one production, and every nonterminal that heads a rule or is used in a production is reachable from the start symbol. Otherwise building returns an error that names exactly the unreachable nonterminals, exactly the nonterminals without a rule and exactly the rules without productions. It never panics.",
  ["inputs", "programs"], "all sets of rules (with at most one rule per head) and start symbols",
  "Tests only build valid grammars; none triggers an error, and every combination of simultaneous faults is a different path.",
  ["src/grammar/base.rs", "src/grammar/base/builder.rs", "src/utils.rs"],
  [("check_grammar", "src/grammar/base.rs"), ("breadth_first_search", "src/utils.rs")],
  ["Result of grammar::build"], "read access to the three sets inside the error value")
prop("C05", "A grammar reports exactly what was built",
  "A built grammar gives back, through every accessor, exactly what was handed to the builder: the start symbol, one rule per head, each rule's productions in the order they were added, and each production's head, action key, action value, and elements with their optional names in order. Lookups by nonterminal and by position agree with iteration and report absence for anything that is not there. Two productions have equal production keys exactly when head and action key are equal; cloning a grammar changes none of this.",
  ["inputs", "programs"], "all well-formed grammars, both builder styles, any names, lengths and action values",
  "Tests build five tiny grammars and query only nullability; long productions, repeated names, shared action keys between rules and empty productions are not touched.",
  ["src/grammar/base.rs", "src/grammar/base/builder.rs"],
  [("builders", "src/grammar/base/builder.rs"), ("Grammar/Rule/Prod accessors", "src/grammar/base.rs")],
  ["Grammar::rules, prods, rule_set, get_rule, try_get_rule; Rule::prods; Prod accessors"])
prop("C06", "Nullability is exact",
  "A nonterminal is reported nullable exactly when it can derive the empty sequence, a production exactly when all its elements can, and the reported set of nullable nonterminals contains exactly those. Nonterminals the grammar does not contain are never nullable.",
  ["inputs", "programs"], "all well-formed grammars on which the analysis succeeds",
  "Tests check five fixed grammars, none with mutual recursion, long chains, or a rule order that needs several rounds.",
  ["src/grammar/passes/nullable.rs", "src/grammar/passes/nullable/nullables.rs"],
  [("fixed point over productions", "src/grammar/passes/nullable/nullables.rs: inner_calculate_nullables"), ("is_prod_nullable", "src/grammar/passes/nullable/nullables.rs")],
  ["Nullable::is_nullable, get_nullable_set, is_prod_nullable, get_nullable_info"])
prop("C07", "Empty-derivation ambiguity and empty-derivation trees are exact",
  "The nullability analysis reports ambiguity exactly when some nonterminal has more than one derivation of the empty sequence. Otherwise it returns for every nullable nonterminal, and for no other, its unique empty derivation: the production used, and below it, for each named nonterminal element of that production, that element's own empty derivation under its name.",
  ["inputs", "programs"], "all well-formed grammars",
  "One test sees one ambiguous grammar; the returned derivations are never inspected. Cycles through nullable nonterminals and derivation order need generated grammars.",
  ["src/grammar/passes/nullable/nullables.rs"],
  [("ambiguity test and ordered tree construction", "src/grammar/passes/nullable/nullables.rs: calculate_nullables")],
  ["Result of the Nullable pass; GrammarNullableInfo::get_nullable_action"])
prop("C08", "FIRST sets are exact",
  "For every nonterminal, the computed first set contains exactly the terminals that can begin some sentential form derived from that nonterminal, taking nullable prefixes into account. A nonterminal with no such terminal has an empty (or absent) set.",
  ["inputs", "programs"], "all well-formed grammars without empty-derivation ambiguity",
  "The pass has no test. Exactness depends on nullable prefixes, mutual recursion and how many rounds the fixed point needs.",
  ["src/grammar/passes/firsts.rs", "src/utils.rs"],
  [("fixed point with nullable prefix rule", "src/grammar/passes/firsts.rs"), ("CollectMap change reporting", "src/utils.rs")],
  ["Firsts::get"])
prop("C09", "FOLLOW sets are exact",
  "For every nonterminal, the computed follow set contains exactly the terminals that can appear immediately after that nonterminal in some sentential form derived from the start symbol, looking through nullable symbols in between. In particular, for a grammar wrapped with its end-of-stream start rule, end-of-stream is in a nonterminal's follow set exactly when that nonterminal can end a sentence. Computing them never fails on a grammar whose nullability analysis succeeds.",
  ["inputs", "programs"], "all well-formed grammars without empty-derivation ambiguity, plain and start-wrapped",
  "The pass has no test and no accessor. Nullable suffixes and propagation chains need generated grammars.",
  ["src/grammar/passes/follows.rs", "src/utils.rs"],
  [("fixed point over adjacent elements and last elements", "src/grammar/passes/follows.rs")],
  ["contents of the Follows pass result"], "read access to the computed follow sets (the type has no accessor)")
prop("C10", "Analyses are computed once per context and shared",
  "Within one pass context every request for an analysis, made directly or as a dependency of another analysis and in whatever order, yields the same shared result, and an analysis that succeeds is computed exactly once. An analysis that fails reports its own error on every request, without disturbing other analyses, and a dependency cycle is reported by a panic instead of running forever or returning a result. Contexts never share results.",
  ["histories", "programs"], "all acyclic/cyclic pass dependency graphs with failing passes, and all request sequences",
  "Tests request one pass once. Failure, repetition, diamonds and cycles are never exercised.",
  ["src/grammar/passes/mod.rs"],
  [("in-progress marker and result map", "src/grammar/passes/mod.rs: get_pass")],
  ["PassContext::get_pass"])
prop("C11", "Null removal preserves the language and removes all nullability",
  "The null-removing transformation yields a grammar that derives exactly the non-empty sequences the original derives, and in which no nonterminal derives the empty sequence and no production is empty; each nonterminal it keeps derives exactly the non-empty sequences it derived before. It fails exactly when the original has an ambiguous empty derivation or its start symbol can only vanish (no production of it survives null removal).",
  ["inputs", "programs"], "all well-formed grammars",
  "The transformation has no test. Combinations of several nullable occurrences in one production and productions that are nullable themselves decide correctness.",
  ["src/grammar/transform/nonnull.rs"],
  [("expansion over null/non-null assignments", "src/grammar/transform/nonnull.rs: build_nonnull_prods"), ("exclusion of the empty variant", "src/grammar/transform/nonnull.rs")],
  ["Result of transform_to_nonnull, read through the Grammar accessors"])
prop("C12", "Null removal keeps every production traceable to its origin",
  "Every production of the null-free grammar identifies the original production it comes from and which of its nonterminal occurrences were assumed empty; dropping exactly those occurrences from the original gives its elements (names included), and it carries the original action value. For each dropped named occurrence it carries that nonterminal's empty derivation under that name, and no others. Every assignment of nullable occurrences to empty/non-empty appears exactly once, except those that leave nothing or keep an occurrence of a nonterminal that can only vanish. Its action keys are equal exactly when original key and assumptions are, and totally ordered in agreement with that.",
  ["inputs", "programs"], "all well-formed grammars without empty-derivation ambiguity, all productions and assignments",
  "The transformation has no test, and these fields have no accessor.",
  ["src/grammar/transform/nonnull.rs"],
  [("ActionKey (origin + null mask)", "src/grammar/transform/nonnull.rs"), ("ActionValue (origin value + null derivations)", "src/grammar/transform/nonnull.rs")],
  ["action keys and action values of the transformed grammar"], "read access to the fields of the transformed action keys and values")
prop("C13", "Start-wrapping adds exactly one start rule and changes nothing else",
  "Wrapping any well-formed grammar always succeeds and adds one fresh start nonterminal with exactly one production: the original start symbol followed by the end-of-stream terminal. All original rules, productions, production order, element names, action keys and action values are preserved one to one. The end-of-stream terminal and the new start nonterminal occur nowhere else and never match an original terminal kind.",
  ["inputs", "programs"], "all well-formed grammars",
  "Two tests wrap one grammar and look only at nullability.",
  ["src/start_grammar.rs"],
  [("wrap_grammar_with_start", "src/start_grammar.rs"), ("start_rule/start_prod", "src/start_grammar.rs")],
  ["Grammar accessors on the wrapped grammar"])
prop("C14", "The forest store behaves as sets of interned alternatives",
  "After any sequence of operations, each forest node holds exactly the set of alternatives added to it directly or copied from another node at the time of copying; each addition reports a change exactly when the set grew, and no operation alters any other node. Two alternatives are the same exactly when they have equal content (kind and value, or action and child nodes in order), nodes are never the same unless it is one node, and every alternative reports the content it was made with. Nodes or alternatives of another owner are rejected by a panic that leaves both stores usable and unchanged.",
  ["histories", "inputs"], "all sequences of store operations over one or several owners, including lazily produced child lists that themselves use the store",
  "The store has no test; the property is over operation histories.",
  ["src/parsers/tree.rs"],
  [("interning of alternatives", "src/parsers/tree.rs: AltSet"), ("node alternative sets", "src/parsers/tree.rs: add_node_alt, add_all"), ("owner identity checks", "src/parsers/tree.rs: is_same")],
  ["TreeHandle, Node, Alternative, Leaf, Branch public methods"])
prop("C15", "A forest store can be shared between threads",
  "Threads may create nodes and alternatives, add alternatives, read nodes, render them to DOT and parse into the store through handles of one owner at the same time: no operation deadlocks or panics, and afterwards every node holds exactly the union of what was added to it. Readers and renderings see at least what was there when they began and nothing that is not there when they end, and parses yield the same forests as they would alone. Of several concurrent additions of the same alternative to the same node exactly one reports a change, and equal content created concurrently is one and the same alternative.",
  ["schedules"], "all interleavings of concurrent store operations",
  "No test uses threads; the failures need a writer to arrive between two steps of another operation.",
  ["src/parsers/tree.rs"],
  [("one RwLock per owner, one acquisition per operation", "src/parsers/tree.rs: with, with_mut")],
  ["concurrent use of TreeHandle/Node methods"])
prop("C16", "DOT output shows exactly the forest reachable from the node",
  "Rendering a forest node to DOT terminates for every forest, cyclic ones included, and produces a directed graph with one vertex per reachable node (the rendered node itself included) and one per reachable alternative. It has one edge from each reachable node to each of its alternatives and, from each branch alternative, one edge per child occurrence, and nothing else. Alternatives are labelled with their action, or kind and value.",
  ["inputs", "histories"], "all forests, including shared, cyclic and empty ones, with arbitrary text in labels",
  "No test calls it; the examples render one tree each and nobody compares the output.",
  ["src/parsers/tree.rs"],
  [("collect_nodes_and_alts", "src/parsers/tree.rs"), ("DotPrinter", "src/parsers/tree.rs")],
  ["Node::to_dot"])
prop("C17", "A token stream replays its tokens from every position",
  "A stream made from a token sequence yields exactly those tokens, kinds and values, in order, then reports the end, and asking at the end never panics. Advancing never changes the stream it was called on: any saved stream position can be advanced again, any number of times and interleaved with others, and yields the same remainder.",
  ["histories", "inputs"], "all token sequences and all branching advance histories",
  "No test uses token streams.",
  ["src/parsers/mod.rs"], [("VecTokenStream::next", "src/parsers/mod.rs")],
  ["TokenStream::next; token contents observed through the leaves of a parse"])
prop("C18", "Reading a text range decomposes it into its characters",
  "Repeatedly reading characters from a text range yields exactly the characters of its text in order, and after every step the remaining text is exactly what has not been read. Advancing by n yields the next n characters, or reports failure and changes nothing when fewer remain; non-mutating forms leave their receiver unchanged and agree with the mutating ones. Removing a suffix range gives exactly the text before it, and a range that is not a suffix (another text, another end, an earlier start) is rejected by a panic.",
  ["inputs", "histories"], "all Unicode texts and all operation sequences over ranges of them",
  "Tests use two short texts and single calls.",
  ["src/utils/buffer.rs"], [("BufferRange methods", "src/utils/buffer.rs")],
  ["BufferRange::as_str, byte_len, empty, read_char(_mut), advance_n(_mut), remove_suffix"])
prop("C19", "Text positions agree with the text",
  "The position of the start or end of a range gives the byte offset, the zero-based line number and the zero-based column of that place in the whole text. Lines are ended by LF, CR or CRLF (counted once); a position inside or at a line terminator belongs to the line it ends. The column is the number of user-perceived characters (grapheme clusters) of that line that begin before the position.",
  ["inputs"], "all Unicode texts x all character boundaries",
  "One test checks two positions in one ASCII text; mixed line endings, empty lines, trailing terminators and multi-byte text are not covered.",
  ["src/utils/buffer.rs"], [("line table", "src/utils/buffer.rs: BufferRange::new"), ("line lookup and column count", "src/utils/buffer.rs: get_line_str_from_byte_offset, get_text_pos_from_byte_offset")],
  ["BufferRange::start_pos, end_pos"], "read access to line, column and byte offset (the accessors are private)")
prop("C20", "A typed map behaves as one map per key type",
  "After any sequence of operations, a lookup returns the value most recently stored under an equal key of the same type, and nothing if there is none; keys of different types never interfere, even if they print or compare alike. Changes made through a mutable lookup are seen by later lookups. Merging moves every entry over, with the moved entry winning on equal keys, and leaves the other map empty and usable.",
  ["histories", "inputs"], "all operation sequences over several maps and several key/value types",
  "The map has no test.",
  ["src/utils/type_map.rs"], [("ordering by type, then value", "src/utils/type_map.rs: cmp_concrete"), ("insert/get/get_mut/merge", "src/utils/type_map.rs")],
  ["TypeMap public methods"])
prop("C21", "Set-collecting maps hold exactly what was inserted and report change exactly",
  "After any sequence of insertions (single values, several values, or copying one key's set into another), the set collected for each key is exactly the union of what was inserted under it. Each insertion reports a change exactly when the set for its key grew. Joining change reports yields changed exactly when one of them did, change-collecting iteration visits every item even after a change, and grouping pairs by key keeps exactly the given pairs.",
  ["histories", "inputs"], "all operation sequences",
  "No direct test. Analyses stop as soon as no change is reported, so a wrong report silently truncates them.",
  ["src/utils.rs"], [("CollectMap", "src/utils.rs"), ("WasChanged, change_iter, change_loop, merge_value_pairs", "src/utils.rs")],
  ["CollectMap methods and their WasChanged results; merge_value_pairs"])
prop("C22", "Fixed-point and search helpers compute exact closures and terminate",
  "Breadth-first search returns exactly the items reachable from the initial ones, the initial ones included, and asks for the successors of each item at most once. Keyed fixed-point propagation leaves the map at the least solution containing the starting entries, and terminates whenever values can only grow finitely often. Plain fixed-point iteration returns the first iterate that maps to itself, a change loop stops after the first pass that reports no change, and taking the only item of a sequence yields it exactly when there is exactly one.",
  ["inputs", "programs"], "all finite graphs, monotone propagation problems, and step functions",
  "No direct test; grammars in tests need at most two rounds.",
  ["src/utils.rs"], [("breadth_first_search, apply_fixed_point, fixed_point, change_loop, take_only", "src/utils.rs")],
  ["return values / final map"])
prop("C23", "Dotted productions and their sets behave as (production, position) pairs",
  "A dotted production is the pair of a production and a position: two are equal exactly when both agree, and ordering is a total order consistent with that. Advancing moves over exactly one element, is possible exactly when an element is left (and, when conditional, exactly when it is the given one), and completeness means that none is left; upcoming elements are those of the production from the position on. A set of dotted productions holds exactly the added ones, reports exactly its complete members, groups its successors by next element without loss or invention, and its closure under a step function is the least closed superset.",
  ["inputs", "histories", "programs"], "all grammars, productions, positions, and sets of dotted productions",
  "src/state.rs has no test; confusing two positions of one production only shows in sets that contain both.",
  ["src/state.rs"], [("ProdState ordering and advancing", "src/state.rs"), ("ProdStateSet::nexts, complete, take_closure", "src/state.rs")],
  ["ProdState and ProdStateSet public methods"])
prop("C24", "Pretty-printing shows the whole grammar",
  "The pretty-printed form of any grammar contains, up to whitespace, exactly the start symbol followed by every rule in order of its head: the head, then its productions in order, each with its elements and their names in order, nonterminals in angle brackets, and a visible mark for an empty production. Neighbouring symbols are always separated by whitespace; line breaking never drops, reorders or invents anything, and printing never panics. The start-wrapped grammar prints the same way with its start symbol and end-of-stream shown.",
  ["inputs", "programs"], "all well-formed grammars, plain and wrapped, of any width",
  "Only one test prints (debug form) and compares nothing; wide grammars that need line breaks are not covered.",
  ["src/grammar/base.rs", "src/start_grammar.rs", "src/grammar/base/element_types.rs"], [("to_doc implementations and to_pretty", "src/grammar/base.rs")],
  ["Grammar::to_pretty"])
prop("C25", "Names are values: compared by content, copied on write",
  "Two names are equal, ordered and hashed exactly as the text they hold, whether or not they share storage, and print as that text. Modifying a name changes only that name: every other name, including the ones it was cloned from or cloned into, keeps its text.",
  ["histories", "inputs"], "all clone/modify histories over all texts",
  "No test modifies or clones names.",
  ["src/utils.rs"], [("Name (reference counted, copy on write)", "src/utils.rs")],
  ["Name::new, str, make_mut, Clone, Ord, Eq, Hash, Display, Debug"])
prop("C26", "Mergeable maps merge values under equal keys and report change exactly",
  "After any sequence of insertions, owned or borrowed, each key maps to the merge, in order, of all values inserted under it, and a lookup returns that key and value, or nothing for a key never inserted. Each insertion reports a change exactly when the key was new or the merge changed its value. Inserting never modifies a borrowed argument.",
  ["histories", "inputs"], "all insertion sequences",
  "The module has no test, and its entry type cannot even be constructed from outside.",
  ["src/utils/mergeables.rs"], [("MergableMap::insert, insert_cow, get_entry", "src/utils/mergeables.rs")],
  ["MergableMap methods and their WasChanged results"], "a constructor for the map's entry type")
prop("C27", "LR(1) item sets are exact",
  "The item set computed from a kernel is exactly its LR(1) closure: for each item with a nonterminal after the dot, every production of that nonterminal is included at its start whenever some terminal can follow there, with exactly the lookaheads that can (looking through nullable symbols up to the item's own lookahead). The shift actions offer exactly the terminals that follow a dot, each leading to the closure of exactly the items advanced over it with their lookaheads. The reducible actions are exactly those of the complete items. Two item sets are equal exactly when they hold the same items with the same lookaheads.",
  ["inputs", "programs"], "all well-formed grammars without empty-derivation ambiguity, and all kernels",
  "The module is private, unused and untested.",
  ["src/parsers/lalr.rs"], [("from_prod_lookahead, shift_actions, reducable_actions", "src/parsers/lalr.rs")],
  ["item sets"], "a way to build item sets and read them (the type is private)")
prop("C28", "Rules and productions compare by identity within their grammar",
  "Rules and productions obtained from one grammar are equal exactly when they are the same rule or production of it, however they were obtained and even if another has identical contents; their ordering is a total order consistent with that, and copies are interchangeable with originals. Comparing rules of different grammars panics, even if one is a clone of the other, and productions of different grammars are never equal.",
  ["inputs", "programs"], "all grammars and all pairs/triples of rules and productions from one or two grammars",
  "No test compares rules or productions.",
  ["src/grammar/base.rs", "src/grammar/base/cmp_wrappers.rs"], [("ParentRef, RefCompare", "src/grammar/base/cmp_wrappers.rs")],
  ["==, cmp on Rule and Prod"])
prop("C29", "Formatting helpers print like the standard collections",
  "For every sequence of items, the list, set, tuple and struct formatting helpers print, in compact and in indented form, exactly what the standard formatting of a list, set, tuple struct or struct with the same name and items prints. Printing the same helper again gives the same text.",
  ["inputs"], "all names and item sequences, nested helpers included",
  "The helpers have no test.",
  ["src/utils/fmt.rs"], [("list_fmt, set_fmt, tuple_fmt, struct_fmt", "src/utils/fmt.rs")],
  ["Debug output"])
prop("C30", "Parses are independent of each other and of declaration details",
  "Parsing the same input again, with the same or an equal grammar, in a fresh forest or in one that already holds other parses, in any order, gives a forest with the same trees. Forests returned earlier are not changed by later parses or additions elsewhere. The order in which rules and productions were declared, and the names used, make no difference beyond renaming, and whether trace logging is enabled makes none at all.",
  ["histories", "inputs", "programs"], "all sequences of parses over shared and separate forests, grammars and permutations of them",
  "No test runs the parser, let alone twice in one store.",
  E + ["src/parsers/tree.rs"],
  [("all parse state is local to the call; the store only grows", "src/parsers/earley.rs: parse; src/parsers/tree.rs")],
  ["forests of successive parses"])

prop("C31", "Debug output shows the parts of a grammar, fully and in order",
  "The debug output of every part of a grammar is, in compact and in indented form, exactly the standard struct form of its content, as #[derive(Debug)] would print it. An element prints as its terminal, or as its nonterminal in angle brackets, after `name:` if it is named. A production is `Prod { head, elems }`, a rule `Rule { head, prods }`, a production key `ProdKey { head, action_key }`, a dotted production `ProdState { prod, index }`, and a grammar `Grammar { Terms, NonTerms, Rules }`, with every occurrence of a terminal, every occurrence of a nonterminal in productions, and every rule, all in order of heads, then of productions, then of position. Clones print alike, and printing never panics; wrapped grammars show the added rule as well.",
  ["inputs", "programs"], "all well-formed grammars, all elements, productions, rules and positions of them",
  "One test prints a grammar and compares nothing.",
  ["src/grammar/base.rs", "src/grammar/base/element_types.rs", "src/state.rs"],
  [("Debug implementations of Grammar, Rule, Prod, ProdElement", "src/grammar/base.rs"), ("Debug of elements", "src/grammar/base/element_types.rs"), ("Debug of ProdState", "src/state.rs")],
  ["{:?} and {:#?} of every part"])
prop("C32", "Keys of text ranges compare as the text they cover",
  "Keys made from text ranges are equal, and ordered, exactly as the texts they cover, whichever texts and positions the ranges come from; so a map keyed by them holds one entry per covered text. A key shows the covered text, and stays valid when every other range of its text is gone.",
  ["inputs", "histories"], "all pairs and triples of ranges of all texts",
  "The key type has no test, and cannot be constructed from outside.",
  ["src/utils/buffer.rs"], [("BufferRangeKey: as_str, PartialEq, Ord", "src/utils/buffer.rs")],
  ["BufferRangeKey comparisons and as_str"], "a constructor (the field is private)")
prop("C33", "Symbols, elements, keys and action trees are values",
  "Two terminals, nonterminals, elements, named elements, stream terminals, start nonterminals, start action keys or action trees are equal exactly when their contents (kind, symbol, name, children) are; ordering is total and agrees with equality, bongo's own terminals and nonterminals are ordered by their text and hash alike when equal, and clones and references are interchangeable with originals. A named element returns the name and element it was made with through every constructor, an element its symbol exactly as its own kind. A stream terminal has kind t exactly when it is the terminal t, and is the end of the stream exactly when made so; a start action key shows its base key, and none for the added production.",
  ["inputs"], "all pairs and triples of symbols, elements, keys and trees",
  "No test compares these types; parsing and the set computations rely on every one of these relations.",
  ["src/grammar/base/element_types.rs", "src/start_grammar.rs", "src/utils.rs"],
  [("Terminal, NonTerminal, Elem, ProdElement", "src/grammar/base/element_types.rs"), ("StreamTerminal, StartNonTerminal, StartActionKey", "src/start_grammar.rs"), ("TreeNode, TreeValue", "src/utils.rs")],
  ["==, cmp, hash, accessors"])
prop("C34", "Null removal keeps every derivation of a non-empty sequence",
  "When null removal succeeds, every non-empty sequence has exactly as many derivations from the start symbol in the null-free grammar as in the original: leaving the parts that cover no token out of a derivation gives a derivation of the null-free grammar, a different one for each, and all of them arise in this way. The null-free grammar can be wrapped and parsed like any other: the parser accepts with it exactly the non-empty sequences of the original language, and its forest contains exactly these derivations.",
  ["inputs", "programs"], "all well-formed grammars x all token sequences",
  "The transformation has no test, and nothing parses with a transformed grammar. Losing or doubling a derivation leaves the language as it is.",
  ["src/grammar/transform/nonnull.rs", "src/start_grammar.rs", "src/parsers/earley/state.rs"],
  [("null removal", "src/grammar/transform/nonnull.rs"), ("wrapping and parsing its result", "src/start_grammar.rs, src/parsers/earley/state.rs")],
  ["productions of the transformed grammar", "the forest of a parse with it"])
prop("C35", "Forest handles, nodes and alternatives are keys: totally and stably ordered",
  "Handles, nodes, alternatives, leaves, branches and node contents taken from forest stores are equal exactly when they are the same handle target, node or alternative, however and whenever they were obtained; what comes from different stores is never the same (leaves of equal content and childless branches aside). Their ordering is total, consistent with equality, and how two of them compare never changes, whatever is made, added, copied or read afterwards: a map or set keyed by them finds every entry again. Clones are interchangeable with originals.",
  ["inputs", "histories"], "all operation sequences on several stores",
  "The tests compare no two nodes or alternatives; an order that depends on contents or on the size of the store corrupts sorted collections later only.",
  ["src/parsers/tree.rs"],
  [("TreeHandle, Node, Alternative, Leaf, Branch, NodeContent: Eq, Ord", "src/parsers/tree.rs")],
  ["==, cmp, partial_cmp, <, clone, is_same, lookups in maps keyed by them"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
