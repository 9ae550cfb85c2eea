# Source of properties.jsonl and MANIFEST.json (run mkdocs.py after editing)
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note))

prop('C01', 'Symbol sets behave as mathematical sets',
     'A set built from any non-empty ranges of non-negative symbols, in any order, contains exactly the symbols of those ranges, and union, intersection, difference and complement give exactly the symbols the set operation says, leaving their operands unchanged. '
     'The ranges enumerated from a set are ordered, disjoint and cannot be merged with each other. Equality is equality of contents and the ordering is a strict total order consistent with it.',
     ['inputs'], 'all range bounds and symbols in the non-negative 32-bit integers, all operand shapes up to the stated number of ranges',
     'Tests build a dozen fixed sets; adjacency, containment and boundary cases of the merging code are exponential in the number of ranges.',
     ['TameParse/Dfa/symbol_set.h', 'TameParse/Dfa/symbol_set.cpp', 'TameParse/Dfa/range.h'],
     [('symbol_set::merge / exclude / operator[] / operator<', 'TameParse/Dfa/symbol_set.cpp'), ('range arithmetic', 'TameParse/Dfa/range.h')])
prop('C02', 'Splitting overlapping symbol sets gives a partition',
     'Identifiers given to symbol sets are stable and unique, and copying a map of sets keeps them. Splitting a collection of overlapping sets gives disjoint sets, and every original set is exactly the union of the new sets that it is reported to be made of.',
     ['inputs'], 'all collections of sets within the stated shape, all symbols',
     'Tests use a few overlapping ASCII ranges; the partition must be right for every relative order of the range bounds.',
     ['TameParse/Dfa/symbol_map.cpp', 'TameParse/Dfa/remapped_symbol_map.cpp'],
     [('symbol_map::identifier_for_symbols', 'TameParse/Dfa/symbol_map.cpp'), ('remapped_symbol_map::deduplicate', 'TameParse/Dfa/remapped_symbol_map.cpp')])
prop('C03', 'Symbol lookup tables agree with the ranges they were built from',
     'For every symbol, looking it up in a run-time table gives the set of the range that contains it and nothing for symbols outside all ranges, however the ranges are placed relative to 256-symbol blocks. The constant table generated for output programs gives the same answer for every symbol.',
     ['inputs'], 'all placements of up to 3 ranges in windows around block boundaries, all 8, 16 and 32 bit symbols',
     'Tests look up a few dozen symbols of one table; block boundaries at 2^8, 2^16 and 2^24 are never hit.',
     ['TameParse/Dfa/symbol_table.h', 'TameParse/Dfa/hard_coded_symbol_table.h', 'TameParse/Dfa/symbol_translator.h'],
     [('symbol_table<N>::add_range / lookup', 'TameParse/Dfa/symbol_table.h'), ('hard_coded_symbol_table::lookup, to_hard_coded_table', 'TameParse/Dfa/hard_coded_symbol_table.h')])
prop('C04', 'A regular expression matches exactly the language its operators denote',
     'For every expression made of literals, ".", grouping, alternation, "*", "+" and "?", the first lexeme a lexer built from it returns is the longest prefix of the input in the language of the expression, and one rejected character when no non-empty prefix is. This does not depend on how the expressions are nested or on which table form the lexer uses.',
     ['inputs', 'programs'], 'every expression up to the stated number of tokens, every input string of the stated length',
     'Tests cover about sixty fixed expression and string pairs; the defects this check found needed particular nestings.',
     ['TameParse/Dfa/ndfa_regex.cpp', 'TameParse/Dfa/ndfa.cpp', 'TameParse/Dfa/ndfa_transformations.cpp', 'TameParse/Dfa/basic_lexer.h'],
     [('ndfa_regex::compile', 'TameParse/Dfa/ndfa_regex.cpp'), ('ndfa::builder push/pop/begin_or/rejoin', 'TameParse/Dfa/ndfa.cpp')])
prop('C05', 'Escapes, classes, categories and named subexpressions mean what they say',
     'In a regular expression a numeric or single-character escape stands for exactly one character, a class matches exactly one of its characters (or, negated, exactly one other), a unicode category matches its characters, and a named subexpression or literal matches exactly what its definition matches. '
     'Checking an expression reports each unclosed bracket at its position and each undefined name, and reports nothing for a correct expression.',
     ['inputs', 'programs'], 'all digit values, class items, names bodies and contexts within the stated sizes, all characters',
     'Tests try a handful of escapes and classes with fixed digits.',
     ['TameParse/Dfa/ndfa_regex.cpp', 'TameParse/Unicode/unicode_data.h'],
     [('symbol_for_sequence, hex, oct', 'TameParse/Dfa/ndfa_regex.cpp'), ('compile_expression, unicode_for_expression', 'TameParse/Dfa/ndfa_regex.cpp'), ('check_regex', 'TameParse/Dfa/ndfa_regex.cpp')])
prop('C06', 'Automaton transformations preserve what is accepted',
     'Making the symbol sets of an automaton disjoint, making it deterministic, minimising it, merging its symbol sets and copying it never change which accept actions are reached by any input. The results are deterministic where that is promised, and minimising never adds states; minimising by the first action keeps the most important action.',
     ['inputs', 'programs'], 'every automaton of the stated number of states and transitions (symbol sets symbolic), every input of the stated length',
     'Tests transform three or four fixed automata.',
     ['TameParse/Dfa/ndfa_transformations.cpp', 'TameParse/Dfa/ndfa.cpp', 'TameParse/Dfa/state.cpp', 'TameParse/Dfa/transition.h'],
     [('to_ndfa_with_unique_symbols, to_dfa, to_compact_dfa, to_ndfa_with_merged_symbols', 'TameParse/Dfa/ndfa_transformations.cpp')])
prop('C07', 'Lexers tokenise by longest match and priority and lose nothing',
     'The lexemes produced for any input, concatenated, are the input, and each has the position where it starts. Each lexeme is the longest match of any definition at that point, reported as the lowest-numbered symbol that matches it, or one unmatched character when nothing matches. Every table representation produces the same lexemes.',
     ['inputs', 'programs'], 'every combination of expressions of the stated sizes, both priority orders, every input of the stated length',
     'Tests check single lexemes of fixed inputs, mostly for one representation.',
     ['TameParse/Dfa/basic_lexer.h', 'TameParse/Dfa/lexer.cpp', 'TameParse/Dfa/state_machine.h', 'TameParse/Dfa/accept_action.cpp'],
     [('dfa_stream::operator>>', 'TameParse/Dfa/basic_lexer.h'), ('fill_accept', 'TameParse/Dfa/basic_lexer.h'), ('flat and compact rows', 'TameParse/Dfa/state_machine.h')])
prop('C08', 'Positions count characters, lines and columns of the text before them',
     'The position reported at any point of a text is the number of characters before it, the number of line ends before it and the number of characters since the last line end, where CR, LF, CR LF, VT, FF, NEL, LS and PS each end a line once. Positions are ordered like the text, and the final position of a lexeme is the position after its last character.',
     ['inputs'], 'every sequence of the stated number of characters from all of unicode, cut into lexemes anywhere',
     'No test looks at positions of line ends other than LF.',
     ['TameParse/Dfa/position.h', 'TameParse/Dfa/lexeme.cpp', 'TameParse/Dfa/basic_lexer.h'],
     [('position_tracker::update_position', 'TameParse/Dfa/position.h')])
prop('C09', 'Input adapters deliver every character of the source exactly once',
     'Reading well formed UTF-8 delivers exactly the UTF-16 characters it encodes, and stops with an error at the first badly formed character. A lexer reading from a string or a stream sees each character once with its unsigned value and then the end of the input.',
     ['inputs'], 'every byte sequence and every string of the stated lengths',
     'Tests only read ASCII.',
     ['TameParse/Util/utf8reader.cpp', 'TameParse/Util/stringreader.h', 'TameParse/Dfa/basic_lexer.h'],
     [('utf8reader::get', 'TameParse/Util/utf8reader.cpp'), ('basic_stringreader::get/good', 'TameParse/Util/stringreader.h'), ('stream_stream', 'TameParse/Dfa/basic_lexer.h')])
prop('C10', 'Case-insensitive matching accepts exactly the case variants',
     'A case-insensitive literal, expression or class matches exactly the characters that equal one of its characters up to upper and lower case, and a case-sensitive one matches only its own characters. Converting a set of characters to one case converts each of its characters and no others.',
     ['inputs'], 'all ranges and characters of the ASCII and Cyrillic blocks',
     'Tests try a few fixed words.',
     ['TameParse/Util/unicode.cpp', 'TameParse/Dfa/ndfa.cpp', 'TameParse/Unicode/unicode_data.h'],
     [('convert_range', 'TameParse/Util/unicode.cpp'), ('builder::operator>>', 'TameParse/Dfa/ndfa.cpp')])
prop('C11', 'Characters above U+FFFF match as surrogate pairs',
     'With surrogate generation on, a class or "." matches the surrogate pair of a character above U+FFFF exactly when it contains that character, and still matches characters below U+10000 exactly when it contains them.',
     ['inputs'], 'all class ranges over U+0080..U+10FFFF and all characters outside the surrogate block',
     'Tests use two fixed supplementary characters.',
     ['TameParse/Dfa/ndfa.cpp'], [('add_with_surrogates, add_surrogate_transition, surrogate_pair', 'TameParse/Dfa/ndfa.cpp')])
prop('C12', 'Items, rules, item sets and states have exact identity and a total order',
     'Grammar items are equal exactly when they have the same kind and content (EBNF items and guards by their rules), rules exactly when they have the same nonterminal and items, item sets and LR states exactly when they have the same members whatever the order they were added in, and LR(1) items when position and lookahead agree; all comparison operators agree with that equality and give a strict total order. '
     'A grammar gives equal items and rules the same identifier and different ones different identifiers, the identifier leads back to the item or rule, and a rule that is extended becomes a different rule. Insert, erase and merge on item sets report whether the set changed. A terminal dictionary never hands out a symbol in use and remembers names and the origin of split symbols.',
     ['inputs', 'histories'], 'all symbol numbers, all kinds of item, all operation sequences within the stated lengths',
     'Tests compare a handful of objects with fixed symbols; orderings and stale identifiers go wrong only for particular combinations.',
     ['TameParse/ContextFree/item.cpp', 'TameParse/ContextFree/rule.cpp', 'TameParse/ContextFree/ebnf_items.cpp', 'TameParse/ContextFree/guard.cpp', 'TameParse/ContextFree/grammar.cpp', 'TameParse/ContextFree/item_set.cpp', 'TameParse/ContextFree/item_set.h', 'TameParse/ContextFree/terminal_dictionary.cpp', 'TameParse/Lr/lr_item.cpp', 'TameParse/Lr/lr_item.h', 'TameParse/Lr/lr_state.h', 'TameParse/Lr/lr1_item_set.h'],
     [('identifier_for_item, identifier_for_rule', 'TameParse/ContextFree/grammar.cpp'), ('rule::operator<<, operator<, compare_items', 'TameParse/ContextFree/rule.cpp'), ('item_set', 'TameParse/ContextFree/item_set.cpp'), ('lr_state::add/operator<', 'TameParse/Lr/lr_state.h'), ('terminal_dictionary::split', 'TameParse/ContextFree/terminal_dictionary.cpp')])
prop('C13', 'FIRST and FOLLOW sets are the textbook fixed points of the grammar',
     'For every grammar, FIRST of an item or rule contains exactly the terminals that can begin a string derived from it, and the empty item exactly when it can derive the empty string; FIRST of a nonterminal contains the nonterminal itself. FOLLOW of a nonterminal contains exactly the terminals that can come after it. '
     'The answers do not depend on the order of the questions, and are right again after rules are added and the caches cleared, and for copies of a grammar, which are independent of the original.',
     ['inputs', 'programs'], 'every grammar of the stated size (BNF rules and an EBNF item), every order of questions',
     'Tests compute the sets of two textbook grammars; recursion through several nonterminals, nullable prefixes and caching interact.',
     ['TameParse/ContextFree/grammar.cpp', 'TameParse/ContextFree/standard_items.cpp', 'TameParse/ContextFree/ebnf_items.cpp'],
     [('grammar::first, first_for_rule, follow, fill_follow', 'TameParse/ContextFree/grammar.cpp'), ('nonterminal::first', 'TameParse/ContextFree/standard_items.cpp'), ('ebnf::first', 'TameParse/ContextFree/ebnf_items.cpp')])
prop('C14', 'The parser accepts exactly the language of a conflict-free grammar',
     'For a context-free grammar for which no conflict is reported, the parser accepts an input exactly when the grammar derives it, always terminates, and the syntax tree it builds is a derivation of the input: each node is labelled with a rule of the item it stands for, has one child for each item of that rule, and its leaves are the input tokens in order.',
     ['inputs', 'programs'], 'every conflict-free BNF grammar of the stated size, every input of at most the stated length',
     'Tests parse a few sentences of a few grammars; wrong tables or stack handling appear only for particular combinations of nullable and recursive rules.',
     ['TameParse/Lr/lalr_builder.cpp', 'TameParse/Lr/lalr_machine.cpp', 'TameParse/Lr/lalr_state.cpp', 'TameParse/Lr/parser.h', 'TameParse/Lr/parser_state.h', 'TameParse/Lr/parser_stack.h', 'TameParse/Lr/parser_tables.cpp', 'TameParse/Lr/ast_parser.h', 'TameParse/Util/astnode.h'],
     [('lalr_builder', 'TameParse/Lr/lalr_builder.cpp'), ('parser::state::process', 'TameParse/Lr/parser_state.h'), ('parser_tables', 'TameParse/Lr/parser_tables.cpp'), ('ast_parser_actions::reduce', 'TameParse/Lr/ast_parser.h')])
prop('C15', 'EBNF operators in grammars mean what they say and shape the syntax tree',
     'In a grammar, (X)? matches X or nothing, (X)+ one or more X, (X)* any number of X and (X|Y) either: a parser for a conflict-free grammar that contains such an item accepts exactly the strings of the language, and the tree has a node for the item whose rule is one of the item\'s rules, with the children of that rule.',
     ['inputs', 'programs'], 'every conflict-free grammar with an EBNF item of the stated size, every input of at most the stated length',
     'Tests parse a few sentences with one of each operator.',
     ['TameParse/ContextFree/ebnf_items.cpp', 'TameParse/ContextFree/ebnf_items.h', 'TameParse/ContextFree/item.cpp', 'TameParse/Lr/lalr_builder.cpp'],
     [('closure of optional, repeating and alternative items', 'TameParse/ContextFree/ebnf_items.cpp'), ('item::fill_follow, insert_closure_item', 'TameParse/ContextFree/item.cpp')])
prop('C16', 'The tables are the LALR(1) tables and every conflict is reported',
     'For every grammar, the states, lookaheads and shift, reduce, accept and goto actions of the built parser are exactly those of the LALR(1) automaton of the grammar (EBNF items expanded left-recursively), for one or several start symbols. '
     'A conflict is reported once for exactly those states and tokens for which more than one of shift, reduce and accept is possible, and names the token, the rules that can be reduced there and the items that can be shifted.',
     ['inputs', 'programs'], 'every grammar of the stated size',
     'Tests check the actions of two textbook grammars and the conflicts of three.',
     ['TameParse/Lr/lalr_builder.cpp', 'TameParse/Lr/lalr_machine.cpp', 'TameParse/Lr/lalr_state.cpp', 'TameParse/Lr/conflict.cpp', 'TameParse/ContextFree/item.cpp', 'TameParse/ContextFree/ebnf_items.cpp'],
     [('complete_parser, complete_lookaheads, generate_closure, actions_for_state, find_lookahead_source', 'TameParse/Lr/lalr_builder.cpp'), ('conflict::find_conflicts', 'TameParse/Lr/conflict.cpp')])
prop('C24', 'Shared containers keep their objects alive exactly as long as needed',
     'A container holds the value it was given through any sequence of copies, assignments (also of itself), clones and storage in other collections; an owned object is destroyed exactly once, when its last container goes, and an object that is not owned never; the comparison operators of containers are those of their contents.',
     ['inputs', 'histories'], 'every sequence of the stated number of operations on three containers, all values',
     'No test counts destructions or compares containers with >= or <=.',
     ['TameParse/Util/container.h'], [('container::reference', 'TameParse/Util/container.h')])
prop('C17', 'Operator precedences resolve conflicts and shape the syntax tree',
     'In a grammar of expressions, a conflict between shifting an operator and reducing a rule is resolved exactly when both have a precedence (the rule that of its only operator that has one): the higher precedence wins, and for equal precedences a left associative operator reduces and a right associative one shifts. '
     'Every other conflict is still reported. With all conflicts resolved the parser accepts exactly the expressions of the grammar and its trees group the operators by precedence and associativity.',
     ['inputs', 'programs'], 'every set of operator rules of the stated number (infix, prefix, postfix, ternary), all precedences (any int) and associativities, every input of at most the stated length',
     'Tests check one table of four operators with fixed precedences.',
     ['TameParse/Lr/precedence_rewriter.cpp', 'TameParse/Lr/precedence_rewriter.h', 'TameParse/Lr/conflict.cpp', 'TameParse/Lr/lalr_builder.cpp'],
     [('precedence_rewriter::rewrite_actions', 'TameParse/Lr/precedence_rewriter.cpp')])
prop('C18', 'Weak symbols are themselves where they can be and their strong symbol otherwise',
     'When a terminal is declared weak for a strong terminal, a token of the weak kind is read as itself wherever the language allows it as the next token, and otherwise as the strong terminal wherever the language allows that; in no other case is it accepted. '
     'Weak symbols bring no conflicts into a grammar that has none, and the tree shows the token as the terminal it was read as.',
     ['inputs', 'programs'], 'every conflict-free grammar of the stated size, every choice of the weak and strong terminal, every input of at most the stated length',
     'Tests parse a few sentences of two grammars; the weak reductions interact with the lookahead of every state.',
     ['TameParse/Lr/weak_symbols.cpp', 'TameParse/Lr/parser_state.h', 'TameParse/Lr/parser.h', 'TameParse/Lr/parser_tables.h', 'TameParse/Lr/parser_tables.cpp'],
     [('weak_symbols::rewrite_actions', 'TameParse/Lr/weak_symbols.cpp'), ('can_reduce, fake_reduce', 'TameParse/Lr/parser_state.h'), ('strong_for_weak', 'TameParse/Lr/parser_tables.h')])
prop('C19', 'A guard matches exactly when the tokens that follow begin with what it looks for',
     'At a point where the language allows a guard, the guard is taken exactly when the tokens that follow, without being consumed, begin with a string the guard looks for; otherwise the input goes on as if it were not there. '
     'The parser accepts an input exactly when the language allows the tokens with these guards added, for guards in rules and inside EBNF items, and the tree shows each guard at the token it stands before.',
     ['inputs', 'programs'], 'every conflict-free grammar of the stated size with guards at every place, every input of at most the stated length',
     'Tests use four fixed grammars with guards of one or two tokens.',
     ['TameParse/Lr/parser_state.h', 'TameParse/Lr/parser.h', 'TameParse/Lr/lalr_builder.cpp', 'TameParse/ContextFree/guard.cpp', 'TameParse/Lr/parser_tables.cpp'],
     [('check_guard, process_guard', 'TameParse/Lr/parser_state.h'), ('guard_actions', 'TameParse/Lr/parser.h'), ('add_guard', 'TameParse/Lr/lalr_builder.cpp'), ('guard::initial', 'TameParse/ContextFree/guard.cpp')],
     'Guards that look for themselves (documented not to be valid), that match nothing at all, or that can follow themselves without a token between are left out.')
prop('C20', 'Ignored symbols are skipped exactly where the language has no use for them',
     'A token of an ignored kind is used wherever the language allows it as the next token and skipped everywhere else; all other tokens are treated as if the skipped ones were not there. Ignoring symbols brings no conflicts into a grammar that has none.',
     ['inputs', 'programs'], 'every conflict-free grammar of the stated size, every choice of the ignored terminal, every input of at most the stated length',
     'Tests ignore a symbol that the grammar never uses.',
     ['TameParse/Lr/ignored_symbols.cpp', 'TameParse/Lr/ignored_symbols.h', 'TameParse/Lr/parser_state.h'],
     [('ignored_symbols::rewrite_actions', 'TameParse/Lr/ignored_symbols.cpp')])
prop('C21', 'Parser tables hold exactly the builder\'s actions and survive copying',
     'Looking up any symbol, known or not, in any state of the parser tables gives exactly the actions the builder has for it, with guards first, then weak reductions, shifts and reductions; each reduce action leads to the identifier, nonterminal and length of its rule. '
     'The tables know the strong symbol of each weak one (and no other) and the states that end a guard. Copied, assigned and ready made tables answer the same, independently of the original.',
     ['inputs', 'programs'], 'every grammar of the stated size, every state, all symbols',
     'Tests compare the tables of one grammar.',
     ['TameParse/Lr/parser_tables.cpp', 'TameParse/Lr/parser_tables.h'],
     [('parser_tables constructors, operator=', 'TameParse/Lr/parser_tables.cpp'), ('find_terminal, find_nonterminal, strong_for_weak, has_end_of_guard', 'TameParse/Lr/parser_tables.h')])
prop('C22', 'Copies of parsers, parser states and stacks are independent',
     'A parser state can be copied at any point; the copy and the original can then be run in any order, or either be destroyed, and each accepts or rejects and builds the tree as if it were the only one. Copies of a parser stack are independent stacks. A copied or assigned parser works when the original is gone. '
     'After any token, can_reduce tells for exactly the symbols that can come next that they will be shifted, and without a symbol it answers for the next token or the end of the input.',
     ['inputs', 'histories'], 'every conflict-free grammar of the stated size and input of at most the stated length, any point of copying, 6 orders; all sequences of stack operations of the stated length',
     'No test runs two states of one session against each other.',
     ['TameParse/Lr/parser_state.h', 'TameParse/Lr/parser.h', 'TameParse/Lr/parser_stack.h'],
     [('state copy constructor, trim_lookahead, look, can_reduce', 'TameParse/Lr/parser_state.h'), ('parser_stack', 'TameParse/Lr/parser_stack.h')])
prop('C25', 'What is destroyed leaves nothing behind',
     'Building grammars, parsers, tables, expressions and lexers, copying and assigning them, and parsing and lexing with them allocates nothing that is still there when they have all been destroyed: doing it a second time leaves as many objects as doing it once.',
     ['inputs', 'programs'], 'every grammar and expression of the stated size, 3 ways of making tables, 4 kinds of lexer, every input of the stated length',
     'No test counts objects; a leak shows only in long running programs.',
     ['TameParse/ContextFree/item.cpp', 'TameParse/ContextFree/ebnf_items.cpp', 'TameParse/ContextFree/grammar.cpp', 'TameParse/Lr/parser_tables.cpp', 'TameParse/Lr/parser_state.h', 'TameParse/Lr/lalr_builder.cpp', 'TameParse/Dfa/symbol_table.h', 'TameParse/Dfa/ndfa.cpp', 'TameParse/Dfa/lexer.cpp'],
     [('cache_closure', 'TameParse/ContextFree/item.cpp'), ('parser_tables', 'TameParse/Lr/parser_tables.cpp'), ('symbol_level', 'TameParse/Dfa/symbol_table.h')])

prop('C26', 'A definition file gives a parser for exactly the language it describes',
     'Text of a language block that describes a grammar, in any of the notations for it (alternatives with "|", "|=" or several grammar sections, EBNF operators with or without brackets, terminals as defined symbols, keywords, characters, strings or undefined names, sections in any order, comments), is accepted, '
     'reports an error exactly when a nonterminal is used and never defined, and is compiled to a lexer and a parser that accept exactly the character sequences whose symbols are a sentence of the grammar.',
     ['inputs', 'programs'], 'every grammar of the stated size in every notation of the stated kinds, every input of the stated number of characters',
     'Tests compile a dozen fixed definitions and look at single items of the result.',
     ['TameParse/Compiler/language_stage.cpp', 'TameParse/Compiler/lexer_stage.cpp', 'TameParse/Compiler/lr_parser_stage.cpp', 'TameParse/Language/language_parser.cpp', 'TameParse/Compiler/import_stage.cpp', 'TameParse/Language/definition.tp'],
     [('language_stage::compile, compile_item', 'TameParse/Compiler/language_stage.cpp'), ('lexer_stage::compile', 'TameParse/Compiler/lexer_stage.cpp'), ('definition_parser actions', 'TameParse/Language/language_parser.cpp')],
     'The parser for definition files is generated from /repo (natively, by its bootstrap parser) on each run, as the build does, and is part of the encoded code. Grammars with conflicts are left out.')
prop('C27', 'The sections of a definition file decide what a piece of input is',
     'Input is split into the longest pieces that some symbol of the definition matches. A piece that several match is a weak symbol if one does and the grammar wants it there, then a keyword, then a lexer symbol, then an ignored one; a weak symbol is the strong symbol that matches as well where only that is wanted. '
     'Ignored symbols are skipped where the grammar has no use for them. Case insensitivity and named expressions apply as written, and the order of the sections does not matter for this.',
     ['inputs', 'programs'], 'every pair of symbol definitions in every pair of kinds of block within the stated sizes, every input of the stated number of characters',
     'Tests look at the tokens of two fixed definitions.',
     ['TameParse/Compiler/lexer_stage.cpp', 'TameParse/Compiler/language_stage.cpp', 'TameParse/Compiler/lr_parser_stage.cpp', 'TameParse/Lr/weak_symbols.cpp', 'TameParse/Dfa/ndfa_regex.cpp'],
     [('lexer_stage::compile, language_accept_action', 'TameParse/Compiler/lexer_stage.cpp'), ('language_stage::compile (lexer sections)', 'TameParse/Compiler/language_stage.cpp'), ('weak_symbols::add_symbols', 'TameParse/Lr/weak_symbols.cpp')],
     'Left out: pieces that two weak symbols match (not specified). A weak symbol that is not always the same strong symbol is a known finding.')
prop('C28', 'The generated C++ parser is the parser, and its nodes are the input',
     'For every correct definition the generator writes C++ that compiles. Its lexer and its tables are those of the compiled definition, so it accepts the same inputs with the same lexemes; and in the syntax tree that it builds the fields named in the definition hold the items of the rule that was used, in order, with nothing lost or invented, '
     'the fields of other rules are not set, lists hold their items in the order of the input, and a node begins where its first item begins and ends where its last one ends (an item without symbols is at the next token).',
     ['inputs', 'programs'], 'every input of the stated number of characters, and every state and symbol of the tables, for 6 definitions with all notations that change the shape of the tree',
     'No test runs a generated parser other than the one for definition files.',
     ['TameParse/Compiler/OutputStages/cplusplus.cpp', 'TameParse/Compiler/output_stage.cpp', 'TameParse/Dfa/hard_coded_symbol_table.h', 'TameParse/Dfa/state_machine.h', 'TameParse/Util/syntax_ptr.h', 'TameParse/Lr/parser_state.h'],
     [('output_cplusplus (lexer tables, parser tables, classes, reduce actions)', 'TameParse/Compiler/OutputStages/cplusplus.cpp'), ('output_stage::generate_ast_rules', 'TameParse/Compiler/output_stage.cpp')],
     'The generator is built natively from /repo and run on the definitions in harness/gen on each run; the sources it writes are then encoded with the rest. That they compile is decided by the compiler, not by the solver. At the end of the input there are no positions. Alternatives with the same items behind different guards are a known finding.')
prop('C29', 'A language that inherits another is that language with its own definitions',
     'A language that inherits from another, directly or through others and wherever in the file they are, accepts exactly what the language with the definitions of both accepts: new nonterminals, lexer symbols and named expressions are added, "|=" adds to what was inherited, "replace" puts the new definition (and its kind: keyword, lexer, ignored, weak, case insensitive) in its place, also for the definitions that use it; everything else is inherited unchanged. '
     'Defining again what was inherited with "=", and adding to or replacing a symbol that is not there or of another kind, are reported as the errors they are, and nothing else is an error.',
     ['inputs', 'programs'], 'every base language and every change of the stated kinds and sizes, every input of the stated number of characters',
     'Tests look at one inherited language with one fixed input.',
     ['TameParse/Compiler/language_stage.cpp', 'TameParse/Compiler/import_stage.cpp', 'TameParse/Compiler/lexer_stage.cpp', 'TameParse/Compiler/Data/lexer_data.cpp', 'TameParse/Language/language_parser.cpp'],
     [('language_stage::compile, export_to', 'TameParse/Compiler/language_stage.cpp'), ('lexer_data', 'TameParse/Compiler/Data/lexer_data.cpp'), ('ndfa_lexer_compiler::compile_expression', 'TameParse/Compiler/lexer_stage.cpp')],
     'Left out (not specified): which of two symbols of one kind wins when one of them was moved there by "replace", changes of the same symbol twice in one language, adding weak definitions to a strong symbol, languages that inherit from themselves.')
prop('C30', 'What a definition says about a conflict is what the parser does',
     'A definition can decide a conflict between reading on and reducing: with "[conflict=shift]", "[conflict=reduce]" or "[conflict=weak reduce]" after the symbol that would be read, also inside EBNF items, or with a precedence section, wherever that is, in the language or in one that inherits from it or is inherited. '
     'Later levels of a section bind tighter; within a level "left" reduces, "right" reads on, "non-associative" decides nothing. A weak reduction is made only if the symbol can be read after it. The parser makes exactly the choices that were asked for, conflicts decided so are not reported, every other conflict is, and a section that names an undefined symbol is an error.',
     ['inputs', 'programs'], 'every grammar of the stated size and every way to decide its conflicts of the stated kinds, every input of the stated number of characters',
     'Tests compile fixed definitions and do not look at which conflicts are left.',
     ['TameParse/Compiler/conflict_attribute_rewriter.cpp', 'TameParse/Compiler/precedence_block_rewriter.cpp', 'TameParse/Compiler/language_stage.cpp', 'TameParse/Compiler/lr_parser_stage.cpp', 'TameParse/Compiler/Data/rule_item_data.cpp', 'TameParse/Lr/precedence_rewriter.cpp'],
     [('conflict_attribute_rewriter::rewrite_actions', 'TameParse/Compiler/conflict_attribute_rewriter.cpp'), ('precedence_block_rewriter', 'TameParse/Compiler/precedence_block_rewriter.cpp'), ('precedence_rewriter::rewrite_actions', 'TameParse/Lr/precedence_rewriter.cpp')],
     'Left out: whether a conflict that is left is called shift/reduce or reduce/reduce, and what the parser then does; definitions whose parser does not end for some input.')

prop('C31', 'Imports and inheritance find each language once, and end',
     'A definition has every language of its own file and of every file that is imported, directly or through others, once, however the files import each other, themselves or one file by different names. Compilation ends for all of them, with an error exactly where one is due: '
     'a file that cannot be read, a file that is not a definition, a language that is defined twice, a language that inherits from one that is not there, or from itself directly or through others. A language has the symbols of all it inherits from and no others. Every file that was opened is closed.',
     ['inputs', 'programs'], 'every way in which the stated number of files import each other and the stated number of languages inherit from each other, every input of one character',
     'No test imports a file or has an error in an inherited language.',
     ['TameParse/Compiler/import_stage.cpp', 'TameParse/Compiler/parser_stage.cpp', 'TameParse/Compiler/language_stage.cpp', 'TameParse/Language/language_parser.cpp', 'TameParse/Language/language_block.cpp'],
     [('import_stage::compile', 'TameParse/Compiler/import_stage.cpp'), ('parser_stage::compile', 'TameParse/Compiler/parser_stage.cpp'), ('language_stage::compile (inheritance)', 'TameParse/Compiler/language_stage.cpp')],
     'Files are in memory: how a console finds files by their names is outside.')
