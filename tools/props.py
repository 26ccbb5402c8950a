"""The properties: text for properties.jsonl and MANIFEST.json."""
PROPS = []
NOT_APPLICABLE = []
def P(**k): PROPS.append(k)

P(id="P01", title="A regular expression matches exactly the words it denotes",
  statement="For every well-formed regular expression or literal, the automaton compiled from it accepts a word as the symbol attached to it if and only if the word is in the language the expression denotes, including repetitions, alternatives, groups, character sets and their complements, escapes, named sub-expressions, case-insensitive matching and characters outside the 16-bit range. Expressions added to the same automaton do not influence each other's languages. A well-formed expression is reported as free of errors.",
  over=["programs", "inputs"], forall="every well-formed expression (sets of expressions sharing an automaton, with definitions and case options) and every word",
  why="the tests compile about fifty expressions and try a handful of words on each; nesting of repetitions and alternatives, escape spellings and sub-expression combinations are unbounded",
  files=["TameParse/Dfa/ndfa_regex.cpp", "TameParse/Dfa/ndfa_regex.h", "TameParse/Dfa/ndfa.cpp", "TameParse/Dfa/ndfa.h"],
  state=[("builder stack", "start and end states of the open groups", "TameParse/Dfa/ndfa.h builder")],
  mechanism=[("ndfa_regex::compile", "TameParse/Dfa/ndfa_regex.cpp"), ("ndfa_regex::symbol_for_sequence", "TameParse/Dfa/ndfa_regex.cpp"), ("builder", "TameParse/Dfa/ndfa.cpp")],
  observe=["transitions and accept actions of the compiled automaton", "lexeme of a stream over the word"],
  technique="TLA+ (TLC): regular-expression semantics and builder model; every recorded automaton judged for language equivalence by TLC",
  note="Language equivalence between the real automaton and the position automaton of the specification is decided exactly (symbolic product over interval boundaries) for every generated expression; expressions themselves are enumerated exhaustively up to a length bound and sampled beyond it.")
P(id="P02", title="Automaton transformations and lookup tables never change what is recognised",
  statement="Copying an automaton, giving it disjoint symbol sets, making it deterministic, minimising it and merging its symbol sets leave the set of actions reached by every input unchanged (an automaton that stops at an eager action excepted beyond that point), and the deterministic results are deterministic. Every table representation of the result gives the same next state as the automaton itself for every state and character.",
  over=["programs", "inputs"], forall="every finite automaton with any overlapping symbol sets, epsilon moves, accept actions and initial states, and every input word",
  why="tests transform a few automata built from small regular expressions and compare state counts or a few lexemes",
  files=["TameParse/Dfa/ndfa_transformations.cpp", "TameParse/Dfa/remapped_symbol_map.cpp", "TameParse/Dfa/state_machine.h", "TameParse/Dfa/symbol_table.h", "TameParse/Dfa/hard_coded_symbol_table.h", "TameParse/Dfa/symbol_translator.h"],
  state=[("state partition", "blocks of states considered equal so far", "to_compact_dfa")],
  mechanism=[("to_ndfa_with_unique_symbols / to_dfa / to_compact_dfa / to_ndfa_with_merged_symbols", "TameParse/Dfa/ndfa_transformations.cpp"), ("state_machine rows, symbol tables", "TameParse/Dfa/state_machine.h")],
  observe=["transitions of every transformed automaton", "next-state function of every table"],
  technique="TLA+ (TLC): partition-refinement model; TLC decides equivalence of every automaton before and after each transformation",
  note="Equivalence of each real before/after pair is decided exactly by TLC's product exploration; the automata are generated (seeded), so coverage over automata is sampling; 16-bit tables are judged on symbols below 0x10000 only.")
P(id="P03", title="The lexer splits any input into longest matches at the right positions",
  statement="For every lexer and every input, the lexemes delivered one after another tile the input: their texts concatenated are the input, each is the longest non-empty match of an expression of the current start state (ties go to the smallest symbol), and where nothing matches exactly one symbol is delivered as unmatched. Each lexeme carries the offset, line and column at which it starts and ends (CR LF being one line end), whatever table or kind of input stream is used. After the end of the input no lexeme is delivered.",
  over=["inputs", "programs"], forall="every set of expressions, every input (any characters, line-end mixtures, empty), every start-state schedule, every lexer construction and stream kind",
  why="tests lex a few fixed strings; backtracking after a failed longer match, positions after line-end mixtures and the interaction of tables with streams depend on arbitrary inputs",
  files=["TameParse/Dfa/lexer.h", "TameParse/Dfa/lexer.cpp", "TameParse/Dfa/basic_lexer.h", "TameParse/Dfa/position.h", "TameParse/Dfa/position.cpp", "TameParse/Util/stringreader.h"],
  state=[("lookahead buffer", "symbols read beyond the last accepted state", "dfa_lexer_base::dfa_stream"), ("position tracker", "offset, line and column of the next lexeme", "position_tracker")],
  mechanism=[("dfa_stream::operator>>", "TameParse/Dfa/lexer.h"), ("position_tracker::update_position", "TameParse/Dfa/position.h"), ("lexer::compile", "TameParse/Dfa/lexer.cpp")],
  observe=["matched symbol, content, pos() and final_pos() of every lexeme delivered"],
  technique="TLA+ (TLC): lexer state machine refined to maximal munch and liveness-checked; recorded lexeme sequences judged by TLC from the regular-expression semantics",
  note="The scanner model is checked exhaustively on small automata and inputs; real lexers are sampled over generated expressions, inputs, schedules, tables and six input stream kinds.")
P(id="P04", title="Symbol sets behave as sets and are split into a true partition",
  statement="After any history of unions, intersections, exclusions and complements, a symbol set has exactly the members the history gives it, and comparison, ordering and identifiers agree with equality of the sets. Splitting overlapping sets yields pairwise disjoint sets whose unions give back each original set. Looking a symbol up in a translation table yields the one set that contains it, or none.",
  over=["histories", "inputs"], forall="every history of operations on any number of sets with any non-empty ranges of non-negative symbols, and every symbol",
  why="tests apply a few operations to a few ranges; interval arithmetic goes wrong on particular adjacency, overlap and block-boundary configurations",
  files=["TameParse/Dfa/symbol_set.h", "TameParse/Dfa/symbol_set.cpp", "TameParse/Dfa/symbol_map.cpp", "TameParse/Dfa/remapped_symbol_map.cpp", "TameParse/Dfa/symbol_translator.h", "TameParse/Dfa/symbol_table.h", "TameParse/Dfa/range.h"],
  state=[("range list", "sorted, disjoint, non-adjacent ranges", "symbol_set::m_Symbols")],
  mechanism=[("symbol_set operators", "TameParse/Dfa/symbol_set.cpp"), ("remapped_symbol_map::deduplicate", "TameParse/Dfa/remapped_symbol_map.cpp"), ("symbol_translator, symbol_table", "TameParse/Dfa/symbol_translator.h")],
  observe=["ranges and membership of the sets after every step", "result of deduplication", "table lookups"],
  technique="TLA+ (TLC): interval-list and set-splitting models refined to sets; recorded operation histories replayed and judged by TLC",
  note="All three-step histories over four symbols (six in the thorough tier) are enumerated on the real code; longer histories are sampled at block-boundary values. Membership is decided at every range boundary, hence for all symbols.")
P(id="P05", title="UTF-8 input is read as the characters it encodes",
  statement="For every well-formed UTF-8 byte sequence the reader delivers the UTF-16 units of exactly the encoded text, for all lengths of encoding and characters outside the 16-bit range, and then reports its end. When the bytes are malformed or truncated, the characters before that point are delivered unchanged, and the reader then stays at its end without delivering anything further.",
  over=["inputs"], forall="every byte sequence (overlong two/three byte forms and encoded surrogates excepted)",
  why="tests read one or two short strings; decoding errors depend on bit patterns of particular code points and on where a sequence is cut",
  files=["TameParse/Util/utf8reader.h", "TameParse/Util/utf8reader.cpp"],
  state=[("pending surrogate", "second unit of a character still to be delivered", "utf8reader")],
  mechanism=[("utf8reader::get", "TameParse/Util/utf8reader.cpp")],
  observe=["units delivered by get()", "good()/eof state after the end"],
  technique="TLA+ (TLC): UTF-8 codec specification (decode is the inverse of encode, checked by TLC); decoded sequences of the real reader judged by TLC",
  note="Every code point is decoded in the thorough tier, a sample with all length boundaries in the quick tier; malformed sequences: every lead byte with 14 continuations, and sampled damage.")
P(id="P06", title="Case-insensitive matching and character categories follow Unicode",
  statement="Converting a set of characters to upper or lower case yields exactly the images of its members, those without another case being kept. A character matched without regard to case matches itself and its upper and lower case forms and nothing else. A category expression such as {unicode-letter-uppercase} matches exactly the characters of that Unicode category.",
  over=["inputs"], forall="every set of characters, every category name and every character (where all Unicode versions agree)",
  why="tests convert A-Z and a few single characters; the tables have hundreds of entries and the walk over them depends on how a range overlaps them",
  files=["TameParse/Util/unicode.cpp", "TameParse/Util/unicode.h", "TameParse/Unicode/unicode_data.h", "TameParse/Dfa/ndfa_regex.cpp", "TameParse/Dfa/ndfa.cpp"],
  mechanism=[("convert_range", "TameParse/Util/unicode.cpp"), ("unicode_for_expression, compile_expression", "TameParse/Dfa/ndfa_regex.cpp"), ("builder::operator>> case options", "TameParse/Dfa/ndfa.cpp")],
  observe=["ranges of the converted sets", "characters matched by a compiled category or case-insensitive expression"],
  technique="TLA+ (TLC): table-walk model checked against the pointwise image; converted sets and matched characters of the real code judged by TLC against Unicode tables",
  note="Every cased character is covered in windows; category membership is probed over fixed and sampled 512-character windows. Characters whose data changed between Unicode 3.2 and 15 are left open; the oracle tables are Python's unicodedata.")
P(id="P07", title="FIRST and FOLLOW sets of a grammar are exact",
  statement="For every context-free grammar, including left-recursive, mutually recursive and empty rules and optional, repeated and alternative items, the FIRST set of every item holds exactly the terminals its derivations can start with (and the empty marker exactly when it derives nothing), whatever order the sets are asked for. The FOLLOW set of every nonterminal or EBNF item used in the grammar holds exactly the terminals (and end of input) that can follow it.",
  over=["programs"], forall="every grammar table and every order of queries",
  why="tests compute the sets of one textbook grammar; recursion through empty prefixes and EBNF items needs arbitrary grammars",
  files=["TameParse/ContextFree/grammar.cpp", "TameParse/ContextFree/grammar.h", "TameParse/ContextFree/rule.cpp", "TameParse/ContextFree/ebnf_items.cpp", "TameParse/ContextFree/standard_items.cpp"],
  state=[("cached sets", "FIRST and FOLLOW sets worked out so far", "grammar::m_CachedFirstSets")],
  mechanism=[("grammar::first, grammar::follow", "TameParse/ContextFree/grammar.cpp"), ("closure and first of EBNF items", "TameParse/ContextFree/ebnf_items.cpp")],
  observe=["FIRST and FOLLOW sets returned for every symbol"],
  technique="TLA+ (TLC): grammar semantics by least fixpoints; the sets recorded from the real code judged by TLC",
  note="Random grammars (seeded) and a list of classic ones; the sets are compared exactly. Nonterminals and the empty marker within FOLLOW sets, and whether a repetition is followed by its own next round, are left open.")
P(id="P08", title="The parser generator builds the LALR(1) machine of the grammar",
  statement="For every grammar and list of start symbols the generated automaton has one initial state per start symbol and exactly the reachable LR(0) item sets as states, without duplicates, and exactly the LR(0) transitions between them. Every item carries exactly its LALR(1) lookaheads, and the actions of a state are exactly the shifts, gotos, reductions and acceptances these items call for.",
  over=["programs"], forall="every grammar, with empty rules, recursion of all kinds and EBNF items, and every list of start symbols",
  why="tests count the states of a few grammars and look at a handful of actions; lookahead propagation depends on arbitrary shapes of recursion and empty rules",
  files=["TameParse/Lr/lalr_builder.cpp", "TameParse/Lr/lalr_machine.cpp", "TameParse/Lr/lr1_item_set.cpp", "TameParse/Lr/lalr_state.cpp", "TameParse/ContextFree/item.cpp", "TameParse/ContextFree/ebnf_items.cpp"],
  state=[("lookaheads", "lookahead sets of the kernel items and their propagation links", "lalr_machine")],
  mechanism=[("lalr_builder::complete_parser, generate_actions", "TameParse/Lr/lalr_builder.cpp"), ("lalr_machine::add_state", "TameParse/Lr/lalr_machine.cpp")],
  observe=["states, items, lookaheads, transitions and actions of the finished builder"],
  technique="TLA+ (TLC): LR(0)/LALR(1) construction as a state machine, checked order-independent; recorded machines judged by TLC",
  note="The specification's construction is model-checked for every grammar of small families; real machines are judged exactly for random and classic grammars. Guards are judged separately (P14).")
P(id="P09", title="The parser accepts exactly the language, with correct derivations",
  statement="If no conflicts are reported, the generated parser accepts a sequence of tokens from a start symbol exactly when that symbol derives it, and always stops. Every accepted run is a derivation: the reported shifts are the tokens in order with their positions, each reduction is by a rule of the grammar over the most recent results and is handed exactly these, and the final result is the start symbol's. Where shifting and reducing conflict, shifting is chosen, and a token no sentence can continue with is never shifted.",
  over=["inputs", "programs"], forall="every grammar, every start symbol and every sequence of tokens",
  why="tests parse a dozen fixed sentences with two grammars; acceptance of exactly the language is a statement about all sequences",
  files=["TameParse/Lr/parser.h", "TameParse/Lr/parser_state.h", "TameParse/Lr/parser_stack.h", "TameParse/Lr/parser_tables.cpp", "TameParse/Lr/parser_tables.h", "TameParse/Lr/lalr_builder.cpp"],
  state=[("parser stack", "states and results of the symbols read so far", "parser_stack"), ("lookahead queue", "tokens read ahead", "parser_session")],
  mechanism=[("parser::state::process", "TameParse/Lr/parser_state.h"), ("parser_tables", "TameParse/Lr/parser_tables.cpp")],
  observe=["results of process()", "shift and reduce calls with their arguments", "the item returned after acceptance"],
  technique="TLA+ (TLC): LALR parser machine checked against language semantics; real runs judged against language and step semantics by TLC",
  note="Bounded exhaustive words (up to 6 tokens) for every random grammar plus longer random and damaged sentences of random and classic grammars; TLC decides membership and the derivation. With reduce/reduce conflicts only soundness is required.")
P(id="P10", title="Conflicts are reported exactly where the tables are ambiguous",
  statement="For every grammar, a conflict is reported for a state and a token exactly when the LALR(1) actions of that state for that token leave a choice (between shifting and reducing, between reductions, or between accepting and reducing), and it is reported once. The report names the reductions involved, and the items that would shift the token.",
  over=["programs"], forall="every grammar and every list of start symbols",
  why="tests check two conflicts of one grammar; missed or invented conflicts need grammars of other shapes",
  files=["TameParse/Lr/conflict.cpp", "TameParse/Lr/conflict.h"],
  mechanism=[("conflict::find_conflicts", "TameParse/Lr/conflict.cpp")],
  observe=["the list of conflicts: state, token, shift and reduce items"],
  technique="TLA+ (TLC): conflicts defined on the specified LALR(1) actions; the recorded conflict list judged by TLC",
  note="Random and classic grammars (seeded sampling), compared exactly. Shift items may be named with more context than necessary; the reductions must be exact.")
P(id="P11", title="Copies of a parser and references to its stack are independent",
  statement="After any history of pushes, pops, copies, assignments and destructions every reference to a parser stack shows exactly the symbols pushed along its own history, and looking down the stack shows them in order. Two parser states made from one another by copying go on independently: each reads the remaining tokens as if it were alone, whatever the order in which they are advanced and destroyed, and their shared lookahead queue gives each its own next tokens.",
  over=["histories", "schedules"], forall="every history of operations on any number of references and every interleaving of copied parsers",
  why="tests copy a stack once or twice; whether sharing is invisible depends on the whole history",
  files=["TameParse/Lr/parser_stack.h", "TameParse/Lr/parser_state.h", "TameParse/Lr/parser.h"],
  state=[("parser_stack", "shared blocks of stack entries with reference lists", "parser_stack"), ("parser_session", "lookahead queue and the list of states reading it", "parser::session")],
  mechanism=[("parser_stack::reference", "TameParse/Lr/parser_stack.h"), ("parser::state copy constructor, next, look", "TameParse/Lr/parser_state.h")],
  observe=["entries seen through each reference", "events and results of each copied parser"],
  technique="TLA+ (TLC): parser stack with sharing model-checked against plain stacks; recorded histories judged step by step by TLC",
  note="The sharing scheme is model-checked for all short histories; long random histories of the real code (built with AddressSanitizer) are judged.")
P(id="P12", title="Precedences resolve conflicts as declared",
  statement="Where shifting and reducing compete, the declared precedences decide: the operator that binds tighter wins, and among equal ones left-associative means reduce and right-associative shift; every conflict they do not decide is still reported and parsed by shifting. For a grammar of prefix, postfix and infix operators the tree of every expression is the only one that respects the declared precedences and associativity.",
  over=["inputs", "programs"], forall="every grammar, every table of precedences and every sequence of tokens",
  why="tests look at one grammar with two operators; interplay of several levels with prefix and postfix operators needs arbitrary tables and expressions",
  files=["TameParse/Lr/precedence_rewriter.cpp", "TameParse/Lr/precedence_rewriter.h", "TameParse/Lr/lalr_builder.cpp"],
  mechanism=[("precedence_rewriter::rewrite_actions", "TameParse/Lr/precedence_rewriter.cpp")],
  observe=["conflicts left", "reductions in order with their items"],
  technique="TLA+ (TLC): precedence parser checked to build the one respecting tree; real runs and conflicts judged by TLC",
  note="Model-checked for all tables over three operators and short expressions; random operator grammars with random tables and long expressions, and random other grammars, are judged. Rules with several operators with declared precedence are left alone.")
P(id="P13", title="Ignored symbols are skipped exactly where they cannot be used",
  statement="With a set of ignored symbols, a parser without conflicts reads a sequence of tokens as follows: an ignored symbol that no sentence can continue with is skipped (and reported as ignored), any other token is read as itself. The sequence is accepted exactly when what was read is a sentence, with exactly its derivation.",
  over=["inputs", "programs"], forall="every conflict-free grammar, every set of ignored symbols and every sequence of tokens",
  why="tests ignore one symbol in one place; ignored symbols that the grammar also uses depend on the whole parser state",
  files=["TameParse/Lr/ignored_symbols.cpp", "TameParse/Lr/ignored_symbols.h", "TameParse/Lr/parser_state.h"],
  mechanism=[("ignored_symbols::rewrite_actions", "TameParse/Lr/ignored_symbols.cpp"), ("can_reduce", "TameParse/Lr/parser_state.h")],
  observe=["results, shifts and reductions of the parser"],
  technique="TLA+ (TLC): parser with ignored symbols checked against language semantics; real runs judged by TLC",
  note="Model-checked for all small grammars and all choices of ignored symbols; random and classic grammars with random words of the real code are judged. Grammars with conflicts are left open.")
P(id="P14", title="Weak symbols stand for themselves where they can, else for the strong symbol",
  statement="With weak symbols declared, a parser without conflicts reads a weak token as itself where some sentence can continue with it and otherwise as its strong symbol; all other tokens are read as themselves. The sequence is accepted exactly when what was read is a sentence, with exactly its derivation.",
  over=["inputs", "programs"], forall="every conflict-free grammar, every assignment of weak to strong symbols and every sequence of tokens",
  why="tests use one weak keyword in two states; weak tokens that also cause reductions need arbitrary grammars and inputs",
  files=["TameParse/Lr/weak_symbols.cpp", "TameParse/Lr/weak_symbols.h", "TameParse/Lr/parser_state.h", "TameParse/Lr/parser_tables.cpp"],
  mechanism=[("weak_symbols::rewrite_actions", "TameParse/Lr/weak_symbols.cpp"), ("can_reduce, weak reduce actions", "TameParse/Lr/parser_state.h"), ("strong_for_weak", "TameParse/Lr/parser_tables.h")],
  observe=["results, shifts (with the symbol they stand for) and reductions of the parser"],
  technique="TLA+ (TLC): parser with weak symbols checked against language semantics; real runs judged by TLC",
  note="Model-checked for all small grammars and weak/strong pairs; random and classic grammars with random words of the real code are judged. Grammars with conflicts are left open.")
P(id="P15", title="Guards are read exactly where what follows matches them",
  statement="For every grammar with guards, the generated machine has one start state for every guard used, its lookaheads and actions are the LALR(1) ones with guards as symbols, and a guard is tried on exactly the tokens its body can start with. A parser without conflicts reads a guard before anything else wherever some sentence can continue with it and the coming tokens start with its body (itself read with its guards), and reads no guard elsewhere; looking ahead consumes nothing. The sequence is accepted exactly when what was read is a sentence, with exactly its derivation.",
  over=["inputs", "programs"], forall="every grammar with guards, also nested ones, and every sequence of tokens",
  why="tests use three guards on a handful of inputs; where a guard may be tried depends on the whole stack, and nested guards on unbounded lookahead",
  files=["TameParse/Lr/parser_state.h", "TameParse/Lr/lalr_builder.cpp", "TameParse/ContextFree/guard.cpp", "TameParse/Lr/parser.h"],
  state=[("guard lookahead parser", "stack of states and offset of the parser that checks a guard", "parser::guard_actions")],
  mechanism=[("check_guard, process_guard", "TameParse/Lr/parser_state.h"), ("lalr_builder::add_guard", "TameParse/Lr/lalr_builder.cpp"), ("guard::initial", "TameParse/ContextFree/guard.cpp")],
  observe=["states, actions and conflicts of the builder", "results, shifts and reductions of the parser"],
  technique="TLA+ (TLC): guard-checking parser checked against language semantics of guards; real machines and runs judged by TLC",
  note="Model-checked for all grammars of a family (thorough: also guards that look for guards). Random grammars with up to three guards are judged. Left open: guards with empty bodies or that look for themselves, and tokens on which two guards match at once.")
P(id="P16", title="The lexer of a language definition delivers the tokens it declares",
  statement="For every language definition that compiles, at each point of an input the compiled lexer delivers the longest text that matches any declared symbol (its own and inherited ones, with sub-expressions, replacements, additions, literals of the grammar and case-insensitive blocks taken into account), and an error for a character no symbol starts with. Of the symbols that match this text it delivers the one with precedence: weak ones before others, then keywords before lexer symbols before ignored ones, then the one declared first.",
  over=["inputs", "programs"], forall="every language definition and every input text",
  why="tests compile a handful of definitions; how blocks, inheritance, weak symbols and literals combine needs arbitrary definitions and texts",
  files=["TameParse/Compiler/language_stage.cpp", "TameParse/Compiler/lexer_stage.cpp", "TameParse/Compiler/lexer_data.cpp", "TameParse/Lr/weak_symbols.cpp", "TameParse/Compiler/language_accept_action.h"],
  mechanism=[("language_stage::compile, add_ebnf_lexer_items", "TameParse/Compiler/language_stage.cpp"), ("lexer_stage::compile", "TameParse/Compiler/lexer_stage.cpp"), ("weak_symbols::add_symbols", "TameParse/Lr/weak_symbols.cpp")],
  observe=["symbol, offset and length of the tokens of the compiled lexer"],
  technique="TLA+ (TLC): declarations of a definition given a meaning in TLA+; tokens of the real compiled lexers judged by TLC",
  note="Random definitions with inheritance chains of up to three languages and random texts are compiled and lexed by the real code; TLC derives the tokens from the declarations alone. The splitting of weak symbols is model-checked. Left open: which of two ignored symbols the grammar does not use is delivered; complement sets in case-insensitive blocks; malformed or self-referential expressions.")
P(id="P17", title="The parser of a language definition reads texts as the definition calls for",
  statement="For every language definition without undecided conflicts, lexer and parser together read a text as follows: a weak token (also every literal) is read as itself where the parser can use it and otherwise as the strong symbol that matches the same text, ignored symbols are skipped where they cannot be used, conflicts are decided by the declared precedences and then the [conflict=...] attributes, and guards are read where what follows matches. The text is accepted exactly when this reads a sentence of the grammar the definition declares with what it inherits, extends and replaces, with exactly these shifts and reductions; otherwise the error is at the first token that cannot be read.",
  over=["inputs", "programs"], forall="every language definition and every input text",
  why="tests compile a handful of definitions; the features interact (weak tokens that stand for ignored symbols, attributes on weak tokens, guards over skipped tokens, inherited rules)",
  files=["TameParse/Compiler/language_stage.cpp", "TameParse/Compiler/lr_parser_stage.cpp", "TameParse/Compiler/conflict_attribute_rewriter.cpp", "TameParse/Lr/weak_symbols.cpp", "TameParse/Lr/ignored_symbols.cpp", "TameParse/Lr/precedence_rewriter.cpp", "TameParse/Lr/parser_state.h", "TameParse/Lr/parser_tables.cpp"],
  mechanism=[("language_stage::compile_item, add_ebnf_lexer_items", "TameParse/Compiler/language_stage.cpp"), ("lr_parser_stage::compile", "TameParse/Compiler/lr_parser_stage.cpp"), ("conflict_attribute_rewriter::rewrite_actions", "TameParse/Compiler/conflict_attribute_rewriter.cpp"), ("weak_symbols::rewrite_actions", "TameParse/Lr/weak_symbols.cpp")],
  observe=["states and lookaheads of the compiled parser", "results, shifts, reductions and error positions for each text"],
  technique="TLA+ (TLC): semantics of whole definitions (tokens, weak, ignored, precedence, attributes, guards) run in TLC against recorded runs of the real compiled parsers",
  note="Random definitions with all features together are compiled by the real code; TLC derives grammar, tokens, machine and run from the declarations and compares them with what was recorded. Left open: definitions with undecided conflicts or attributes that disagree, infinitely ambiguous grammars, guards that look for themselves, and reductions made before an error.")
P(id="P18", title="The compiler reports exactly the mistakes of a definition, where they are",
  statement="For every set of definition files, what is reported is exactly what is wrong with them, each with its code, file and line: files that cannot be read, languages defined twice, parents that are missing or inherit in a circle; symbols declared twice, or added to, replaced or given a precedence without being declared; undefined nonterminals and start symbols, guards that can be empty or begin with themselves, malformed or circular expressions; and as warnings implicitly declared, unused and never recognised symbols. Every file that is imported, by whatever name, is read once; a later stage runs exactly when the earlier ones found no error, so a definition without errors compiles.",
  over=["inputs", "programs"], forall="every set of definition files with imports and inheritance",
  why="tests provoke a few mistakes one at a time; which mistakes there are depends on all blocks, ancestors and files together, and silence on correct definitions needs arbitrary correct ones",
  files=["TameParse/Compiler/language_stage.cpp", "TameParse/Compiler/lexer_stage.cpp", "TameParse/Compiler/lr_parser_stage.cpp", "TameParse/Compiler/import_stage.cpp", "TameParse/Compiler/language_builder_stage.cpp", "TameParse/Dfa/ndfa_regex.cpp"],
  state=[("import worklist", "files still to go through and files opened", "import_stage::compile")],
  mechanism=[("import_stage::compile", "TameParse/Compiler/import_stage.cpp"), ("language_stage::compile, report_unused_symbols", "TameParse/Compiler/language_stage.cpp"), ("lexer_stage::compile, check_regex", "TameParse/Compiler/lexer_stage.cpp"), ("ndfa_regex::check_regex", "TameParse/Dfa/ndfa_regex.cpp")],
  observe=["code, severity, file and line of every report", "the stage the compilation got to"],
  technique="TLA+ (TLC): the mistakes of a set of definition files derived in TLA+ and compared with recorded reports; reading of imports and inheritance model-checked",
  note="Random sets of files with seeded mistakes at every place are compiled by the real code, with conflicts and their details left to P05 and P07. Left open: whether mistakes in rules that were replaced are reported, and the line of a guard that occurs several times.")
P(id="P19", title="Generated C++ is a parser of the same language and builds its parse trees",
  statement="For every language definition without errors, the C++ source written for it compiles, and run on any text its lexer delivers the same tokens and its parser accepts or stops at the same place as the parser built in memory, without reading outside its tables. The tree it returns is that of the derivation: a node of the symbol's own type for every token and nonterminal, one field per item of the rule (none for guards) under the name given to the item or else derived from it and made unique, and a list with one entry per round for every repetition. Every node runs from the start of its first to the end of its last item, or lies where it was reduced if it has none.",
  over=["inputs", "programs"], forall="every language definition and text",
  why="tests compare small pieces of generated text or run one generated parser; tables with unusual rows, names that coincide and nested repetitions only arise in arbitrary definitions",
  files=["TameParse/Compiler/output_stage.cpp", "TameParse/Compiler/OutputStages/cplusplus.cpp", "TameParse/Util/syntax_ptr.h", "TameParse/Dfa/hard_coded_symbol_table.h", "TameParse/Dfa/state_machine.h", "TameParse/Lr/parser_tables.cpp"],
  state=[("generated tables", "lexer rows, symbol map, accepting states and parser tables as C++ source", "output_cplusplus::source_lexer_state_machine, source_parser_tables"), ("fields", "unique names of the items of each rule", "output_stage::generate_ast_rules")],
  mechanism=[("output_stage::generate_ast_rules, name_for_item", "TameParse/Compiler/output_stage.cpp"), ("output_cplusplus::source_lexer_state_machine, source_parser_tables, source_reduce_actions, source_ast_position_functions", "TameParse/Compiler/OutputStages/cplusplus.cpp")],
  observe=["the generated source, compiled", "tokens, results and trees of the generated parsers"],
  technique="TLA+ (TLC): the tree, field names and positions derived in TLA+ from recorded derivations and compared with those that compiled generated parsers return",
  note="Random definitions (EBNF, guards, inheritance, named items) are compiled to C++, which is built with AddressSanitizer and run on derived and mutated texts. Left open: which of two different items with the same name gets a number, and the name of the token identifier of split weak symbols.")
P(id="P20", title="Running test blocks reports which texts are sentences and what fails where",
  statement="For every definition file, a run of its tests reports each test of each test block exactly once and in order, under the language's name, the test's identifier or nonterminal and a number counted per block, as passed iff its text (or UTF-8 file) is a sentence of that nonterminal of the named language (iff it is not, for !=), with totals that add up. A failed test is reported at its string and where parsing stopped (for strings without escapes), and an empty block, an unknown language or nonterminal, a missing file and failed blocks are reported at their place; the exit code is an error iff an error was reported. Tests of a language that has errors are not run, its errors are reported instead, and every other block still runs.",
  over=["inputs"], forall="every definition file with test blocks whose grammars have no endless derivations",
  why="tests run the blocks of a few correct example files; wrong texts, names, positions and languages with mistakes only occur in arbitrary files",
  files=["TameParse/Compiler/test_stage.cpp", "TameParse/Language/language_parser.cpp", "TameParse/Language/test_block.cpp", "TameParse/Language/process.cpp", "TameParse/Compiler/lr_parser_stage.cpp"],
  state=[("languages, lexers, parsers", "what was built for the tests so far, by language and nonterminal", "test_stage::m_Languages, m_Lexers, m_Parsers"), ("counts", "passed, failed and numbers of the tests of a block", "test_stage::compile")],
  mechanism=[("test_stage::compile, get_language, get_lexer, get_parser", "TameParse/Compiler/test_stage.cpp"), ("add_test_definition", "TameParse/Language/language_parser.cpp")],
  observe=["result lines and totals", "diagnostics with file and position", "exit code"],
  technique="TLA+ (TLC): test runs specified as a fold over blocks on top of the specified parser, compared with recorded runs of the test stage",
  note="Random definitions with random test blocks (literal texts with escapes and line breaks, files, identifiers, several start symbols and languages), and definitions with mistakes. Left open: results where conflicts are not settled by declarations, positions in strings with escapes, languages prefixed to nonterminals (not implemented).")

P(id="P21", title="Definition files are read as they are written",
  statement="Every sequence of tokens that is a definition file by the grammar of the definition language (definition.tp) is read without errors, and the definition read consists of exactly what is written, in order: blocks with names, parents and modifiers, lexemes with kind, operator and text, rules with their items, repetitions, choices, guards and attributes, precedences, start symbols and tests, with the places where they stand; words of the language are keywords only where that keyword can stand and names everywhere else. For every other sequence no definition is read and exactly one error is reported, at the first token that cannot continue what precedes it (a nonterminal, replace, name or modifier that needs certain tokens after it, and lacks them, counts as that token), or as an unexpected end of file. Not claimed: lexemes defined as symbols of other languages (name = language.name), and attributes of brackets that hold no choice.",
  over=["inputs"], forall="every text that consists of tokens of the definition language",
  why="tests read a handful of correct files; what names keywords can be, which of the definition language's guards applies, and where a mistake is noticed depends on arbitrary sequences of tokens",
  files=["TameParse/Language/language_parser.cpp", "TameParse/Language/definition.tp", "TameParse/Compiler/parser_stage.cpp", "TameParse/Lr/parser.h", "TameParse/Lr/parser_state.h", "TameParse/Lr/weak_symbols.cpp", "TameParse/Compiler/OutputStages/cplusplus.cpp"],
  state=[("definition file", "blocks read, with their contents and places", "definition_file, language_block, lexer_block, grammar_block, ebnf_item, test_block"), ("errors", "the mistake found", "language_parser::m_RecentErrors")],
  mechanism=[("language_parser::parse, definition_for, get_errors", "TameParse/Language/language_parser.cpp"), ("parser_stage::compile", "TameParse/Compiler/parser_stage.cpp")],
  observe=["the definition_file", "diagnostics with position"],
  technique="TLA+ (TLC): the definition language specified as a reader of tokens, model-checked over continuations, compared with what the compiler's first stage reads",
  note="All continuations of 28 beginnings by two tokens (sampled in the quick tier), random sentences of the definition language and sentences with one or two tokens changed, rendered with random space and comments.")

P(id="P22", title="The command line tool does what its options and the file ask for, or says why",
  statement="For every definition file and set of options, the tool ends with exit code 0 iff everything asked for was done, and otherwise with the severity of the last error, having reported it with its code at the right file and place: unreadable files and imports, unknown languages and start symbols, conflicts (shift/reduce conflicts warn, reduce/reduce conflicts are errors unless --allow-reduce-conflicts, or unless --enable-lr1-resolver resolves them; all are errors with --no-conflicts), failed tests, rejected input, output that cannot be written; an unknown option is named and ends it with code 1. The language and start symbols compiled are those of the options, else those of the only parser block if neither is given, else (language only) the only language of the file, and the class and namespace are named after the options, the parser block or the language. A generated source and header are complete and under the name asked for (else that of the input file), nothing is written by a run that fails before that, and --silent, --verbose and --suppress-warnings change what is shown and nothing else.",
  over=["inputs", "configurations"], forall="every definition file and combination of options of the tool",
  why="no test runs the tool; which stage ends a run, and with which code, depends on combinations of a file's mistakes with many options",
  files=["parsetool/main.cpp", "parsetool/boost_console.cpp", "TameParse/Compiler/std_console.cpp", "TameParse/Compiler/lr_parser_stage.cpp", "TameParse/Compiler/import_stage.cpp", "TameParse/Compiler/language_builder_stage.cpp", "TameParse/Compiler/OutputStages/cplusplus.cpp"],
  state=[("exit code", "severity of the last error", "std_console::m_ExitCode"), ("what is compiled", "language, start symbols, class name, target", "main: buildLanguageName, startSymbols, buildClassName, targetLanguage")],
  mechanism=[("main", "parsetool/main.cpp"), ("std_console::report_error, boost_console::get_option", "TameParse/Compiler/std_console.cpp"), ("lr_parser_stage::compile", "TameParse/Compiler/lr_parser_stage.cpp")],
  observe=["exit code of the tool", "messages on its error stream and output", "files it writes"],
  technique="TLA+ (TLC): the stages of the tool specified as a state machine over files and options, model-checked over all combinations of a small set and compared with recorded runs of the real tool",
  note="Files are combinations of seven kinds of languages (plain, unused symbols, shift/reduce, reduce/reduce, both, LR(1) only, undefined nonterminal) with imports, parser blocks, tests and mistakes; options are random. Left open: what LALR tables of an LR(1) grammar accept, tests of languages with errors (findings of P20), empty option values.")
