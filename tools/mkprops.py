import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":qt},why_tests_cant=why,anchors=a))

# ---------------- grammar formats -------------
p("G01","MCFG/LCFRS grammar text: reading and printing are faithful",
 "Reading a grammar text in the documented MCFG notation yields exactly the grammar it denotes: its initial nonterminals, and its rules in order with head, composition, successors and weight (1.0 when omitted), whatever legal layout is used (blank or whitespace-only lines, comment lines, trailing comments, spaces around symbols, any of the three arrow spellings, quoted or bare tokens; escapes in quoted tokens are kept as written). Printing a grammar that was read and reading the printed text back gives an equal grammar, including the weights up to rounding; this holds for the PMCFG and for the LCFRS representation.",
 ["inputs"],"all grammars over printable symbols and all legal layouts of their text",
 "The unit tests parse a few fixed strings; layout, quoting, symbol shapes and weights combine without bound.",
 ["src/grammars/pmcfg/from_str.rs","src/grammars/pmcfg/mod.rs","src/grammars/lcfrs/from_str.rs","src/grammars/lcfrs/mod.rs","src/util/parsing.rs","README.md"],
 [("line dispatcher","src/util/parsing.rs initial_rule_grammar_from_str"),("token and list parsers","src/util/parsing.rs parse_token, parse_vec"),("rule parser","src/grammars/pmcfg/from_str.rs parse_pmcfg_rule"),("printer","src/grammars/pmcfg/mod.rs Display impls")],
 ["str::parse::<PMCFG/Lcfrs>","to_string()"])
p("G02","CFG grammar text: reading and printing are faithful",
 "Reading a grammar text in the documented CFG notation yields exactly the grammar it denotes: its initial nonterminals, and its rules in order with head, right-hand side and weight (1.0 when omitted), whatever legal layout is used (blank or whitespace-only lines, comments, spacing, arrow spelling, quoting). Printing the rules of a CFG that was read and reading them back gives equal rules, including the weights up to rounding.",
 ["inputs"],"all CFGs over printable symbols and all legal layouts of their text",
 "The unit tests parse a few fixed strings; layouts, symbols and weights combine without bound.",
 ["src/grammars/cfg/from_str.rs","src/grammars/cfg/mod.rs","src/util/parsing.rs"],
 [("rule parser","src/grammars/cfg/from_str.rs parse_cfg_rule"),("printer","src/grammars/cfg/mod.rs Display impls")],
 ["str::parse::<CFG>","to_string()"])
p("G03","Malformed text is rejected cleanly, never with a crash",
 "Every text reader (grammars and rules in MCFG, LCFRS and CFG notation, automata, equivalence classes, disco-dop grammars and lexers, rparse grammars) returns a value or an error for every input string; it never panics, aborts or loops. In particular a rule or transition with an unbalanced bracket, a missing arrow or a weight that is no number is reported as an error, and so is a disco-dop or rparse line with a malformed weight, yield function or argument; nothing after such a line is silently ignored.",
 ["inputs"],"all input strings, in particular near-misses of legal texts",
 "The tests hold a dozen hand-written illegal strings; the input space is all strings.",
 ["src/util/parsing.rs","src/grammars/pmcfg/from_str.rs","src/grammars/cfg/from_str.rs","src/recognisable/from_str.rs","src/approximation/equivalence_classes.rs","src/grammars/lcfrs/from_discodop.rs","src/grammars/lcfrs/from_rparse.rs","src/automata/tree_stack_automaton/from_str.rs","src/automata/finite_state_automaton/from_str.rs"],
 [("nom parsers mapped to Result","FromStr impls of the listed files")],["FromStr::from_str results"])
p("G04","LCFRS construction accepts exactly the consistent grammars",
 "Building an LCFRS from rules and an initial nonterminal succeeds exactly if all rules of a nonterminal have the same fan-out, the initial nonterminal has fan-out one, and each rule uses every component of every successor exactly once and nothing else. The normal-form test on an LCFRS is true exactly if no component is empty and each rule either contains only variables or is a single terminal.",
 ["inputs"],"all finite rule lists and initial nonterminals, valid and invalid",
 "Three fixed rule lists are tested; each validity clause can fail at any position of any rule.",
 ["src/grammars/lcfrs/mod.rs"],
 [("validity check","src/grammars/lcfrs/mod.rs Lcfrs::new, read_fanouts, check_composition"),("normal form","Lcfrs::in_normal_form")],["Lcfrs::new","Lcfrs::in_normal_form"])
p("G05","Converting an MCFG to an LCFRS preserves its derivations",
 "The LCFRS constructed from an MCFG is linear and non-deleting and has exactly the derivations of the MCFG: they correspond one to one, with the same yield and the same weight, so that both generate the same weighted language.",
 ["inputs"],"all MCFGs with an initial nonterminal of fan-out one",
 "One three-rule grammar is tested; what is lost depends on the deletion pattern and on which rules share successors.",
 ["src/grammars/lcfrs/conversion.rs","search/src/search.rs"],
 [("reachable deletion sets","src/grammars/lcfrs/conversion.rs From<Mcfg> for Lcfrs"),("renumbering of components","to_lcfrs_rule, composition_deletes")],["Lcfrs::from(Mcfg)","Lcfrs::destruct"])
p("G06","Restricting a PMCFG to a smaller grammar class is exact",
 "A PMCFG is accepted as an MCFG exactly if it has one initial nonterminal and no rule uses a variable twice, and the result has the same rules and initial nonterminal. A PMCFG converts to a CFG exactly if every rule has one component and uses no variable other than first components; the CFG then has the same initial nonterminals and the same rules with the same weights in the same order.",
 ["inputs"],"all PMCFGs, inside and outside each class",
 "No test constructs grammars just outside the classes.",
 ["src/grammars/mcfg/mod.rs","src/grammars/cfg/from_pmcfg.rs"],
 [("linearity check","src/grammars/mcfg/mod.rs Mcfg::from_pmcfg"),("rule conversion","src/grammars/cfg/from_pmcfg.rs")],["Mcfg::from_pmcfg","CFG::from(PMCFG)"])
p("G07","disco-dop import yields the grammar the files describe",
 "Reading a grammar in disco-dop's format gives an LCFRS with initial nonterminal ROOT whose rules are those of the file in order: head, successors, and a composition read off the yield function, which lists for each component the successors it takes its next component from. The weight of a rule is its given weight divided by the sum of the given weights of all rules and lexical entries of its head; with a lexer file, each lexical entry adds one terminal rule with its weight, and without one, each nonterminal that occurs only on right-hand sides yields itself with weight 1.",
 ["inputs"],"all disco-dop grammar and lexer files for binary and unary rules with any fan-out",
 "One small grammar and lexer are tested; yield strings, fan-outs and weights vary freely.",
 ["src/grammars/lcfrs/from_discodop.rs"],
 [("parsers and converters","src/grammars/lcfrs/from_discodop.rs")],["DiscoDopGrammar::from_str","Lcfrs::from"])
p("G08","rparse import yields the grammar the file describes",
 "Reading a grammar in rparse's format gives an LCFRS with initial nonterminal VROOT1 and one rule per clause, in order, with the clause's head, successors, composition and relative weight: the k-th argument of the head becomes the k-th component, the i-th bracketed index of a component refers to the next unused component of that successor, and the relative weight written in the clause is the weight of the rule.",
 ["inputs"],"all rparse grammar files",
 "One grammar of a few clauses is tested.",
 ["src/grammars/lcfrs/from_rparse.rs"],[("parser and converter","src/grammars/lcfrs/from_rparse.rs")],["str::parse of an rparse grammar, Lcfrs::destruct"],"a reader for rparse texts (lcfrs_from_rparse, cfg verif_hooks): the module is private")
# ---------------- derivations ------------------
p("D01","Evaluating a derivation gives the string tuple it denotes",
 "Turning a derivation tree of rules into its term and evaluating it gives exactly the tuple of strings obtained by substituting each successor's components for the variables, from the leaves to the root, for every well-formed tree, including rules that copy, delete, permute or empty components; evaluating at an inner address gives the tuple of that subtree. A tree that uses a component its successor does not have is refused loudly instead of yielding a string.",
 ["inputs"],"all derivation trees of PMCFGs",
 "Two fixed trees are tested.",
 ["src/grammars/pmcfg/mod.rs"],[("evaluation","src/grammars/pmcfg/mod.rs to_term, evaluate, evaluate_pos")],["evaluate(to_term(tree).0)"])
p("D02","Separating terminals keeps the derived string and reaches the normal form",
 "For every derivation tree the transformed tree derives the same string tuple, contains the original nodes at their addresses with their heads, and consists only of rules that contain only variables or are exactly one terminal without variables. Applying the transformation a second time changes nothing, and no nonterminal introduced for a terminal coincides with a nonterminal of the tree.",
 ["inputs"],"all derivation trees of PMCFGs over any symbols",
 "Three fixed trees are tested; rules mixing terminals and variables in every order and repeated terminals are not.",
 ["src/grammars/pmcfg/mod.rs"],[("transformation","src/grammars/pmcfg/mod.rs separate_terminal_rules")],["separate_terminal_rules"])
p("D03","Exported parse trees describe the sentence and its constituents",
 "The export-format output of a derivation whose terminals are separated lists the tokens of the derived sentence once each, in order and with their part-of-speech labels, followed by one line per inner constituent with numbers from 500 on; every parent reference points to the constituent that dominates the node in the derivation and the top constituent points to 0. The output for a sentence without a parse lists exactly the words of the sentence, in order, below one common root, and every block carries the requested sentence number.",
 ["inputs"],"all derivation trees of (possibly discontinuous) grammars, all sentence numbers and both output modes",
 "Two fixed trees are tested through an internal function; the output text is not.",
 ["src/grammars/pmcfg/negra.rs"],[("export","src/grammars/pmcfg/negra.rs to_negra, noparse, identify_terminals")],["to_negra","noparse"])
# ---------------- automata ----------------------
p("A01","Automaton-based MCFG parsing finds exactly the grammar's derivations",
 "For a non-deleting MCFG and a word, the automaton constructed from the grammar accepts exactly the words of the grammar, and its runs correspond one to one to the derivations of the word: every run read off as a tree is a derivation of the word whose rule weights multiply to the weight of the run, and every derivation is found. No other input, including words with unknown symbols, has a run.",
 ["inputs"],"all MCFGs and words (runs are enumerated completely where the search space is finite)",
 "The tests hold two grammars and a handful of words.",
 ["src/automata/tree_stack_automaton/from_pmcfg.rs","src/automata/tree_stack_automaton/mod.rs","src/recognisable/automaton.rs"],
 [("grammar to automaton","src/automata/tree_stack_automaton/from_pmcfg.rs"),("configuration search","src/recognisable/automaton.rs"),("tree read-off","to_abstract_syntax_tree")],["TreeStackAutomaton::recognise","to_abstract_syntax_tree"])
p("A02","Automaton-based CFG parsing finds exactly the grammar's derivations",
 "For a CFG and a word, the push-down automaton constructed from the grammar accepts exactly the words of the grammar; its runs correspond one to one to the leftmost derivations of the word, and the weight of each run is the product of the weights of the rules it uses. No other input has a run.",
 ["inputs"],"all CFGs (one or several initial nonterminals) and words",
 "The tests hold two grammars and a handful of words.",
 ["src/automata/push_down_automaton/from_cfg.rs","src/automata/push_down_automaton/mod.rs","src/recognisable/automaton.rs"],
 [("grammar to automaton","src/automata/push_down_automaton/from_cfg.rs"),("search","src/recognisable/automaton.rs")],["PushDownAutomaton::recognise"])
p("A03","Parses are enumerated best first",
 "The exhaustive recogniser enumerates runs in order of non-increasing weight, so the first one is a best parse and the first k are k best parses; this holds for tree-stack, push-down and finite-state automata, also for grammars with infinitely many derivations of a word. For weights wrapped so that smaller is better the order is reversed accordingly.",
 ["inputs"],"all weighted grammars and automata with weights at most one, all words and k",
 "Tests compare sets of parses for unweighted examples; the order is never checked.",
 ["src/recognisable/automaton.rs","src/recognisable/configuration.rs","src/util/reverse.rs","search/src/agenda/binary_heap.rs"],
 [("priority of configurations","src/recognisable/automaton.rs recognise, heuristics"),("agenda","search/src/agenda/binary_heap.rs")],["order and weights of recognise(..)"])
p("A04","Beam search returns a sound part of the exhaustive result",
 "Whatever the beam width, every run returned by the beam-search recogniser is a run of the exhaustive recogniser with the same weight, none is returned twice, and a rejected word stays rejected. With a beam at least as wide as the number of simultaneously open configurations, beam search returns exactly the runs of the exhaustive recogniser.",
 ["inputs","configurations"],"all grammars, words and beam widths",
 "No test runs a beam search on an automaton.",
 ["src/recognisable/automaton.rs","search/src/agenda/limited_heap.rs"],[("bounded agenda","search/src/agenda/limited_heap.rs"),("beam search","src/recognisable/automaton.rs recognise_beam")],["recognise_beam_search"])
p("A05","Tree-stack operations follow the tree-stack model",
 "Under every sequence of push, up, down, set and test operations a tree stack has exactly the nodes, labels and pointer position of the mathematical tree stack (a labelled tree with a designated node): pushing succeeds only on a vacant child position, moving up only to an occupied one, moving down from any node but the root, and failing operations leave the stack unchanged. An instruction of an automaton applies exactly when its label conditions hold and then performs that one operation.",
 ["histories"],"all operation sequences",
 "A dozen fixed sequences are tested.",
 ["src/automata/tree_stack_automaton/tree_stack.rs","src/automata/tree_stack_automaton/tree_stack_instruction.rs"],
 [("tree stack","src/automata/tree_stack_automaton/tree_stack.rs"),("instructions","src/automata/tree_stack_automaton/tree_stack_instruction.rs apply")],["TreeStack::to_tree","Instruction::apply"])
p("A06","Push-down operations follow the push-down model",
 "Under every sequence of operations a push-down has exactly the symbols of a list used as a stack; replacing a top segment applies exactly if the segment is on top and then exchanges it for the new segment; relabelling is applied symbol by symbol. Two push-downs are equal exactly if they hold the same symbols.",
 ["histories"],"all operation sequences and instructions",
 "Fixed examples are tested.",
 ["src/automata/push_down_automaton/mod.rs","src/util/push_down.rs"],[("push-down","src/automata/push_down_automaton/mod.rs PushDown"),("shared push-down","src/util/push_down.rs Pushdown")],["PushDownInstruction::apply","Pushdown API"])
p("A07","Finite-state recognition agrees with the automaton's definition",
 "A finite-state automaton, built from transitions or read from text, accepts a word with a run exactly if there is a path from the initial to a final state spelling the word; runs correspond one to one to such paths (with empty-word transitions as their own steps), and the weight of a run is the product of its transition weights.",
 ["inputs"],"all finite-state automata (with multi-symbol and empty transitions) and words",
 "The tests only parse automata, none recognises a word.",
 ["src/automata/finite_state_automaton/mod.rs","src/automata/finite_state_automaton/from_str.rs","src/recognisable/automaton.rs"],[("automaton","src/automata/finite_state_automaton/mod.rs"),("reader","src/automata/finite_state_automaton/from_str.rs")],["FiniteStateAutomaton::recognise"])
p("A08","Automata keep their transitions through text and internal encodings",
 "Reading an automaton text gives an automaton whose initial configuration and transitions (word, instruction, weight, 1.0 when omitted) are those written, whatever the layout, and which accepts the same words as one built from the same transitions directly. Reading the initial configuration and transitions off a tree-stack or push-down automaton and building an automaton from them gives one with the same runs, and so does printing a tree-stack or finite-state automaton with plain labels and reading the text.",
 ["inputs"],"all tree-stack, push-down and finite-state automata and all legal layouts",
 "One example file is parsed.",
 ["src/recognisable/from_str.rs","src/automata/tree_stack_automaton/from_str.rs","src/automata/tree_stack_automaton/mod.rs","src/automata/push_down_automaton/mod.rs","src/util/integerisable.rs","src/recognisable/transition.rs"],
 [("transition parser","src/recognisable/from_str.rs"),("integer encoding","Integerisable1/2 impls")],["str::parse","Automaton::transitions, from_transitions, initial"])
# ---------------- approximation ------------------
p("X01","Relabelling approximates a push-down automaton from above",
 "For any function on the symbols of a push-down automaton that keeps the bottom symbol apart, the relabelled automaton accepts every word the original accepts, with a best weight at least that of the original's best run. Relabelling with an injective function changes nothing but names: the same words, numbers of runs and weights.",
 ["inputs","configurations"],"all push-down automata from CFGs, all relabellings, all words",
 "One grammar with one relabelling is tested.",
 ["src/approximation/relabel.rs","src/approximation/mod.rs"],[("strategy","src/approximation/relabel.rs"),("automaton approximation","src/approximation/mod.rs approximate_automaton")],["approximate_automaton(..).0.recognise"])
p("X02","The context-free approximation of an MCFG parser is a superset",
 "The push-down automaton approximating the tree-stack automaton of an MCFG accepts every word of the MCFG, with a best weight at least that of the best derivation; storage and instructions are approximated consistently, so that the image of every run of the original is a run of the approximation.",
 ["inputs"],"all MCFGs and words",
 "One grammar is tested with a few words.",
 ["src/approximation/tts.rs","src/approximation/mod.rs"],[("strategy","src/approximation/tts.rs")],["approximate_automaton(..).0.recognise"])
p("X03","Coarse-to-fine recognition returns the parses of the fine automaton",
 "Every parse returned by a coarse-to-fine recogniser is a run of the fine automaton on the word, with its weight, and no run is returned twice; they come best first if no transition of an approximation weighs more than one. Whenever the fine automaton has a run on the word and enough coarse runs are considered, the coarse-to-fine recogniser finds it, and it finds nothing for words the fine automaton rejects.",
 ["inputs","configurations"],"all grammars, approximation chains and words whose coarse search space is finite",
 "One grammar with one word is tested.",
 ["src/recognisable/coarse_to_fine.rs","src/approximation/mod.rs"],[("coarse runs as guides","src/recognisable/coarse_to_fine.rs"),("inverse images of transitions","src/approximation/mod.rs unapproximate_run")],["coarse_to_fine_recogniser!(..).recognise"])
p("X04","Equivalence classes are read and applied as written",
 "Reading an equivalence-class text gives the relation it describes: each listed symbol is mapped to the label of its class (lines with the same label describe one class) and every other symbol to the label of the default class. A text without a default class or with two different ones, or in which a symbol is in two classes or the default label names a listed class, is rejected.",
 ["inputs"],"all class texts and symbols",
 "A few fixed texts are tested.",
 ["src/approximation/equivalence_classes.rs"],[("reader","src/approximation/equivalence_classes.rs FromStr"),("projection","EquivalenceRelation::project, new_safe")],["EquivalenceRelation::from_str, project"])
# ---------------- CS parsing ----------------------
p("C01","Every parse tree from the CS parser is a derivation of the sentence",
 "Each tree enumerated by the Chomsky-Schützenberger parser for an LCFRS in normal form and a sentence is a complete derivation of the grammar: the root is a rule of the initial nonterminal, every successor position holds a rule of the required nonterminal and nothing else occurs, and the derived string is the sentence.",
 ["inputs"],"all LCFRSs in normal form (any fan-out), all sentences",
 "One two-rule grammar with two sentences is tested end to end.",
 ["src/grammars/lcfrs/csparsing/mod.rs","src/grammars/lcfrs/csparsing/automaton/mod.rs","src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs"],
 [("automaton from grammar","csparsing/automaton/mod.rs from_grammar"),("chart","csparsing/automaton/chart.rs, fill_chart"),("tree read-off","csparsing/mod.rs toderiv")],["CSRepresentation::build_generator().with_fallback"])
p("C02","The CS parser misses no parse and repeats none",
 "Without beam, threshold or candidate limit, the Chomsky-Schützenberger parser enumerates every derivation of the sentence exactly once (for grammars without circular chains of components), and nothing at all for sentences outside the language or with unknown words.",
 ["inputs"],"all LCFRSs in normal form without cyclic unary rules, all sentences",
 "Two sentences of one grammar are tested.",
 ["src/grammars/lcfrs/csparsing/automaton/mod.rs","src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs","src/grammars/lcfrs/csparsing/automaton/rulemask.rs"],
 [("lazy k-best enumeration","csparsing/automaton/kbest"),("rule filter","csparsing/automaton/rulemask.rs")],["with_fallback(..).0"])
p("C03","The CS parser enumerates parses best first",
 "The trees enumerated by the Chomsky-Schützenberger parser come in order of non-increasing derivation weight, so that the first is a most probable parse and the first k are k best; the split of a rule's weight over its components does not disturb this.",
 ["inputs"],"all weighted LCFRSs in normal form and sentences",
 "The k-best test covers a two-rule automaton only.",
 ["src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs","src/util/factorizable.rs","unique-heap/src/lib.rs"],[("k-best","csparsing/automaton/kbest/mod.rs kth"),("weight split","src/util/factorizable.rs")],["order of with_fallback(..).0"])
p("C04","Outside estimates never change the result of CS parsing",
 "For every admissible maximum width, precomputing outside estimates changes neither the set of parse trees the Chomsky-Schützenberger parser finds for a sentence nor the order of their weights; they only prune what cannot lead to a parse.",
 ["inputs","configurations"],"all LCFRSs in normal form, sentences shorter and longer than the maximum width, all widths",
 "The tests always use width 0 or compare one table.",
 ["src/grammars/lcfrs/csparsing/automaton/estimates.rs"],[("estimates","csparsing/automaton/estimates.rs SxOutside"),("pruning","csparsing/automaton/mod.rs fill_chart")],["CSRepresentation::new(_, width)"])
p("C05","A stored CS representation parses like the original",
 "Serialising a Chomsky-Schützenberger representation (as the extract command does, compressed or not) and reading it back gives a parser that enumerates the same trees in the same order, with the same fallback trees, for every sentence and setting.",
 ["inputs"],"all LCFRSs in normal form and sentences",
 "Serialisation is exercised for one table in a unit test only.",
 ["src/grammars/lcfrs/csparsing/mod.rs","src/grammars/lcfrs/csparsing/automaton/mod.rs"],[("serde derives and impls","csparsing")],["bincode round trip"])
p("C06","Pruning parameters of the CS parser only ever remove parses",
 "Whatever beam (from zero up), weight threshold and candidate limit are set, each tree the Chomsky-Schützenberger parser returns is among those of the unrestricted parser, none twice; a candidate limit of c considers exactly the c best candidates, so the result is the corresponding prefix. A beam of at least the number of constituents per span and a threshold of zero restrict nothing.",
 ["inputs","configurations"],"all LCFRSs in normal form, sentences and parameter settings",
 "No test sets any of the parameters.",
 ["src/grammars/lcfrs/csparsing/mod.rs","src/grammars/lcfrs/csparsing/automaton/mod.rs","src/grammars/lcfrs/csparsing/automaton/chart.rs"],[("parameters","csparsing/mod.rs GeneratorBuilder"),("beam and threshold","csparsing/automaton/mod.rs fill_chart")],["GeneratorBuilder setters"])
p("C07","The CS parser's fallback covers the whole sentence",
 "Whenever the parser has at least one candidate for a sentence, the fallback tree derives exactly the words of the sentence in order, each once, using rule fragments of the grammar; if there is no candidate there is neither fallback nor parse. The statistics interface reports a parse exactly if the enumeration finds one, with that tree, and otherwise that fallback.",
 ["inputs"],"all LCFRSs in normal form and sentences, in particular those the context-free skeleton accepts but the grammar rejects",
 "Fallback is tested for two hand-built words.",
 ["src/grammars/lcfrs/csparsing/cowderiv.rs","src/grammars/lcfrs/csparsing/mod.rs"],[("fallback","csparsing/cowderiv.rs CowDerivation::fallback"),("debug","csparsing/mod.rs GeneratorBuilder::debug")],["with_fallback(..).1","debug(..)"])
# ---------------- search ---------------------------
p("S01","Graph search visits every reachable node, in the promised order",
 "A search over a graph visits, when restricted to unique nodes, exactly the nodes reachable from the start nodes, each once, even if the graph has cycles or nodes reached along several paths; without that restriction it visits one node per path. Breadth-first search visits nodes in order of distance, depth-first search finishes the newest node's branch first, and weighted search always expands a node of greatest weight among the open ones.",
 ["inputs"],"all finite graphs (for unrestricted search all finite path sets), start sets and weights",
 "No test runs a search; it is only benchmarked indirectly.",
 ["search/src/search.rs","search/src/agenda/mod.rs"],[("search iterator","search/src/search.rs Search, unique::Search")],["Search::{bfs,dfs,weighted,beam}, uniques"])
p("S02","Agendas return what was pushed in priority order within their limits",
 "Under every sequence of pushes and pops, a weighted agenda pops an element of greatest priority among those it holds, holds exactly what was pushed and neither popped nor rejected, and agrees with itself on length, first element and iteration. A capacity-limited agenda keeps the elements of highest priority and hands back the one it drops; a beam agenda rejects exactly elements below the best priority times its factor; a stack is last-in first-out and a queue first-in first-out.",
 ["histories"],"all operation sequences, priorities with ties, capacities and beam factors",
 "Only benchmarks touch the agendas.",
 ["search/src/agenda/mod.rs","search/src/agenda/beam_heap.rs","search/src/agenda/limited_heap.rs","search/src/agenda/binary_heap.rs","search/src/agenda/weighted.rs"],[("agendas","search/src/agenda")],["push, pop, peek, len, into_iter"])
p("S03","The unique heap holds each element at most once, best first",
 "Under every sequence of operations a unique heap holds each element at most once at a time: a push of an element it holds is refused and has no effect, every other push is accepted, and pops return the held element of greatest priority, breaking ties by the element order, together with its priority. Length, emptiness, peeking and iteration agree with the contents, also for a heap built from a list or cleared.",
 ["histories"],"all operation sequences and initial lists with repetitions and ties",
 "One doctest example.",
 ["unique-heap/src/lib.rs"],[("set of seen elements beside a heap","unique-heap/src/lib.rs")],["UniqueHeap API"])
p("S04","The vector multimap is a map from indices to value lists",
 "Under every sequence of insertions, lookups, indexed accesses and iterations a vector-based multimap returns for each index exactly the values stored there, in insertion order, and nothing for indices never used; growing it keeps all earlier values, and turning it into a vector of a requested size yields the same lists padded with empty ones.",
 ["histories"],"all operation sequences",
 "No test exercises the structure directly.",
 ["vecmultimap/src/lib.rs"],[("auto-growing vector","vecmultimap/src/lib.rs")],["VecMultiMap, VecMultiMapAdapter API"])
# ---------------- utilities ------------------------
p("U01","Partitions hold each element in exactly one cell",
 "Constructing a partition succeeds exactly if the given cells are disjoint, and every listed element is then found in exactly the cell that lists it, and no other element in any. Collapsing lists each nonempty cell exactly once; storing and loading a partition preserves it, and loading overlapping cells is an error.",
 ["histories"],"all cell lists, disjoint or not, and elements",
 "One six-element example is tested.",
 ["src/util/partition.rs"],[("cells and index map","src/util/partition.rs")],["Partition::{new,get_cell,collapse}","serde"])
p("U02","Gorn trees behave as maps from addresses to labels",
 "Under every sequence of insertions and removals a Gorn tree returns exactly the last value stored at each address, enumerates all entries once in pre-order of addresses, and counts them; splitting it at an address in that order and mapping its labels act on exactly the entries concerned.",
 ["histories"],"all operation sequences over addresses",
 "The structure has no tests of its own.",
 ["src/util/tree.rs"],[("map from addresses","src/util/tree.rs GornTree")],["GornTree API"])
p("U03","Reversed weights invert the order and keep the arithmetic",
 "Wrapping weights so that smaller is better reverses exactly the comparison of any two weights and nothing else: products, quotients, sums, units, text form and equality are those of the wrapped values.",
 ["inputs"],"all pairs of weights",
 "No test touches the wrapper.",
 ["src/util/reverse.rs"],[("newtype with delegated operations","src/util/reverse.rs")],["Reverse<W> operators"])
p("U04","Splitting a weight into factors loses nothing",
 "For every weight and every number n of factors at least one, splitting gives exactly n weights whose product is the original weight up to rounding, and none of which is greater than one or smaller than the original if the original is at most one.",
 ["inputs"],"all probabilities and factor counts",
 "No test touches the split.",
 ["src/util/factorizable.rs"],[("factorisation","src/util/factorizable.rs")],["Factorizable::factorize"])
# ---------------- Dyck ------------------------------
p("Y01","Dyck language membership is exact",
 "The Dyck-word test accepts a bracket sequence exactly if it reduces to the empty word by repeatedly deleting an opening bracket directly followed by its closing bracket, for any bracket alphabet.",
 ["inputs"],"all bracket sequences",
 "A few fixed words are tested.",
 ["src/dyck/mod.rs"],[("stack automaton","src/dyck/mod.rs recognize")],["dyck::recognize"])
p("Y02","Multiple Dyck language membership is exact",
 "For every partition of the brackets into cells, the multiple-Dyck recognisers accept a word exactly if it is a multiple Dyck word, that is, if it can be cancelled by repeatedly removing, per cell, matching brackets of all members of the cell at once around words that are themselves cancelled together; the variant for sorted words accepts exactly those for which, in addition, the matching pairs directly inside one another at each rank form exactly one cell. A stored and reloaded recogniser behaves the same.",
 ["inputs"],"all partitions and bracket words",
 "A few fixed words over one partition are tested.",
 ["src/dyck/multiple/mod.rs","src/dyck/multiple/automaton/mod.rs","src/dyck/multiple/automaton/instruction.rs"],[("recogniser","src/dyck/multiple")],["MultipleDyckLanguage::recognize"])
p("I01","The command line tools give the results of the library",
 "The command line program prints, for each input line in order, the parses the grammar assigns to it: the grammar commands list best runs up to the requested number, the automaton commands print the constructed or approximated automata, and extracting a Chomsky-Schützenberger representation and parsing with it prints the k best trees in export format, numbered as the input lines or by the given ids, and a no-parse block for sentences outside the language, or the fallback if asked for. Options for beam, approximation, coarse-to-fine recognition and input formats act as documented.",
 ["inputs","configurations"],"all grammar files, corpora and option settings",
 "The binary has no tests.",
 ["src/bin/main.rs","src/bin/pmcfg.rs","src/bin/cfg.rs","src/bin/csparsing.rs","src/bin/approximation.rs","src/bin/tree_stack_automata.rs"],[("subcommands","src/bin")],["stdout of the rustomata binary"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
