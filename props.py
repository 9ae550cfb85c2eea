# What each check runs: a list of harness runs, each a bounded symbolic exploration of the real code.
DFA = ['Dfa', 'Util']
def R(harness, *args, **kw):
    d = dict(harness=harness, groups=kw.pop('groups', DFA), args=list(args))
    d.update(kw)
    return d
def T(harness, *args, **kw):
    return R(harness, *args, thorough_only=True, **kw)

ANYSYM = 'all symbols 0..2^31-2, all range bounds in 0..2^31-1'
PROPS = {}

def b(text): return dict(bounds=text)

PROPS['C01'] = dict(runs=[
    R('h_symset.cpp', 3, 0, 0, **b('single ranges: ' + ANYSYM)),
    R('h_symset.cpp', 0, 3, 0, **b('sets built from 3 ranges; ' + ANYSYM)),
    R('h_symset.cpp', 1, 2, 2, **b('7 operations on sets of 2 and 2 ranges; ' + ANYSYM)),
    R('h_symset.cpp', 2, 2, 2, 1, **b('ordering of sets of 2, 2 and 1 ranges; ' + ANYSYM)),
    R('h_symset.cpp', 0, 4, 0, **b('sets built from 4 ranges; ' + ANYSYM)),
    R('h_symset.cpp', 2, 2, 2, 2, **b('ordering of sets of 2, 2 and 2 ranges; ' + ANYSYM)),
    T('h_symset.cpp', 1, 1, 3, **b('7 operations on sets of 1 and 3 ranges; ' + ANYSYM)),
    T('h_symset.cpp', 1, 3, 2, **b('7 operations on sets of 3 and 2 ranges; ' + ANYSYM)),
])
PROPS['C02'] = dict(runs=[
    R('h_symmap.cpp', 1, 1, **b('2 sets of 1 range; ' + ANYSYM)),
    R('h_symmap.cpp', 1, 1, 1, **b('3 sets of 1 range; ' + ANYSYM)),
    R('h_symmap.cpp', 1, 2, **b('sets of 1 and 2 ranges; ' + ANYSYM)),
    R('h_symmap.cpp', 2, 2, **b('sets of 2 and 2 ranges; ' + ANYSYM)),
    T('h_symmap.cpp', 1, 1, 2, **b('sets of 1, 1 and 2 ranges; ' + ANYSYM)),
])
PROPS['C03'] = dict(runs=[
    R('h_symtab.cpp', 2, 2, 0, 3, 5, 7, 7, 9, 250, 256, **b('1 byte table, 2 ranges with bounds in the stated windows, every byte')),
    R('h_symtab.cpp', 0, 2, 0, 2, 254, 258, 254, 258, 510, 514, **b('2 byte table, 2 ranges around the 256 boundaries, every symbol 0..65535')),
    R('h_symtab.cpp', 1, 2, 0, 1, 65534, 65538, 65535, 65537, 131071, 131073, **b('4 byte table, 2 ranges around the 65536 boundaries, every symbol')),
    R('h_symtab.cpp', 1, 2, 65535, 65537, 16777214, 16777217, 16777216, 16777217, 2147483647, 2147483647, **b('4 byte table, 2 ranges around the 2^24 boundary, every symbol')),
    T('h_symtab.cpp', 0, 3, 0, 0, 254, 257, 510, 514, 766, 769, 766, 769, 65534, 65536, **b('2 byte table, 3 ranges, every symbol')),
])
RXR = dict(reach=['accepted', 'rejected'])
PROPS['C04'] = dict(runs=[
    R('h_regex.cpp', 4, 3, 0, 1, 32, 126, 97, **RXR, **b('every expression of <= 4 tokens from a b . ( ) | * + ?, every input of 3 characters 32..126; flat tables')),
    R('h_regex.cpp', 4, 3, 1, 0, 32, 126, 97, **RXR, **b('as before, compact tables')),
    R('h_regex.cpp', 4, 3, 2, 0, 32, 126, 97, **RXR, **b('as before, minimised automaton with merged symbols')),
    R('h_regex.cpp', 3, 3, 0, 1, 0x3000, 0xd7ff, 0x4fff, **RXR, **b('every expression of <= 3 tokens, every input of 3 characters 0x3000..0xd7ff')),
    R('h_regex2.cpp', 2, 3, 3, -1, 2, **b('6 contexts of a bracketed expression of <= 3 tokens, every input of 3 characters')),
    R('h_regex.cpp', 5, 3, 0, 0, 32, 126, 97, **RXR, **b('every expression of <= 5 tokens, every input of 3 characters')),
    T('h_regex2.cpp', 2, 4, 4, -1, 2, **b('6 contexts of a bracketed expression of <= 4 tokens, every input of 4 characters')),
    T('h_regex.cpp', 5, 4, 0, 1, 32, 126, 97, **RXR, **b('every expression of <= 5 tokens (repeated quantifiers too), every input of 4 characters')),
    T('h_regex.cpp', 6, 3, 2, 0, 32, 126, 97, **RXR, **b('every expression of <= 6 tokens, every input of 3 characters, minimised')),
    T('h_regex.cpp', 6, 4, 0, 0, 32, 126, 97, **RXR, **b('every expression of <= 6 tokens, every input of 4 characters')),
])
PROPS['C05'] = dict(runs=
    [R('h_regex2.cpp', 0, k, d, **b('%s escape with %d digits of any value, every following character' % (['\\u', '\\x', '\\o', '\\ddd'][k], d))) for k, d in ((0, 4), (0, 5), (0, 2), (1, 2), (1, 3), (2, 5), (2, 7), (3, 3), (3, 4), (3, 1))] + [
    R('h_regex2.cpp', 5, **b('every printable single character escape, every character 0..0xd7ff')),
    R('h_regex2.cpp', 1, 2, 0, 0, **b('classes of 2 items (characters, ranges, quoted and special characters), every character 0..0x10ffff')),
    R('h_regex2.cpp', 1, 2, 1, 0, **b('negated classes of 2 items, every character 0..0x10ffff')),
    R('h_regex2.cpp', 1, 1, 1, 1, **b('negated classes with surrogates on, every character 0..0xd7ff')),
    R('h_regex2.cpp', 2, 3, 3, -1, **b('6 contexts of a named expression of <= 3 tokens, every input of 3 characters')),
    R('h_regex2.cpp', 2, 3, 3, -1, 1, **b('6 contexts of a named literal of <= 3 characters, every input of 3 characters')),
    R('h_regex2.cpp', 3, 4, **b('error reports for every string of 4 characters from ( ) a | \\')),
    R('h_regex2.cpp', 4, **b('21 unicode categories x 3 prefixes, every printable ASCII character')),
    T('h_regex2.cpp', 1, 3, 0, 0, **b('classes of 3 items, every character 0..0x10ffff')),
    T('h_regex2.cpp', 2, 4, 4, -1, **b('6 contexts of a named expression of <= 4 tokens, every input of 4 characters')),
    T('h_regex2.cpp', 3, 6, **b('error reports for every string of 6 characters')),
])
PROPS['C06'] = dict(runs=[
    R('h_ndfa.cpp', 3, 2, 0, 3, 2, **b('every automaton of 3 states and 2 transitions (4 kinds of symbol set), 16 accept configurations, every input of 3 symbols')),
    R('h_ndfa.cpp', 2, 2, 1, 2, 1, **b('every automaton of 2 states and 2 transitions with any symbol ranges, every input of 2 symbols')),
    R('h_ndfa.cpp', 3, 3, 0, 2, 1, **b('every automaton of 3 states and 3 transitions, every input of 2 symbols')),
    R('h_ndfa.cpp', 3, 2, 0, 3, 2, 1, **b('as the first run, with an accept action that is marked eager')),
    R('h_ndfa.cpp', 3, 2, 0, 2, 2, 2, **b('every automaton of 3 states and 2 transitions with two initial states, every input of 2 symbols')),
    R('h_ndfa.cpp', 3, 2, 0, 3, 1, 3, **b('two initial states and an eager action, every input of 3 symbols')),
    R('h_ndfa.cpp', 3, 2, 1, 2, 0, **b('every automaton of 3 states and 2 transitions with any symbol ranges, every input of 2 symbols')),
    T('h_ndfa.cpp', 3, 3, 0, 3, 2, **b('every automaton of 3 states and 3 transitions, 16 accept configurations, every input of 3 symbols')),
    T('h_ndfa.cpp', 3, 3, 1, 2, 0, **b('every automaton of 3 states and 3 transitions with any symbol ranges, every input of 2 symbols')),
])
LEXR = dict(reach=['end', 'several'])
PROPS['C07'] = dict(runs=
    [R('h_lexer.cpp', 3, t, 2, 0, **LEXR, **b('an expression of <= 2 tokens and a keyword, both priorities, every input of 3 characters, table kind %d' % t)) for t in range(5)] +
    [R('h_lexer.cpp', 3, t, 2, 2, **LEXR, **b('2 expressions of <= 2 tokens, both priorities, every input of 3 characters, table kind %d' % t)) for t in (0, 1, 2, 3)] + [
    T('h_lexer.cpp', 3, 2, 2, 1, 2, **LEXR, **b('3 expressions of <= 2, 1, 2 tokens')),
    T('h_lexer.cpp', 3, 2, 3, 2, **LEXR, **b('2 expressions of <= 3, 2 tokens')),
    T('h_lexer.cpp', 4, 1, 2, 2, **LEXR, **b('2 expressions of <= 2 tokens, every input of 4 characters')),
    T('h_lexer.cpp', 4, 3, 3, 0, **LEXR, **b('an expression of <= 3 tokens and a keyword, every input of 4 characters')),
])
PROPS['C08'] = dict(runs=[
    R('h_pos.cpp', 3, 0, **b('every sequence of 3 characters 0..0x10ffff, cut anywhere')),
    R('h_pos.cpp', 3, 1, **b('through a lexer ([a-z]+), every sequence of 3 characters')),
    R('h_pos.cpp', 3, 2, **b('through a lexer (.), every sequence of 3 characters')),
    T('h_pos.cpp', 4, 0, **b('every sequence of 4 characters, cut anywhere')),
    T('h_pos.cpp', 4, 2, **b('through a lexer (.), every sequence of 4 characters')),
])
PROPS['C09'] = dict(runs=
    [R('h_utf8.cpp', n, 0, reach=(['end', 'bad', 'pair'] if n > 3 else ['end', 'bad']), **b('every sequence of %d bytes' % n)) for n in (1, 2, 3, 4, 5, 6)] +
    [R('h_input.cpp', 3, k, **b('every string of 3 characters, %s' % ['string reader, bytes', 'string reader, wide', 'stream, bytes', 'stream, wide'][k])) for k in range(4)] + [
    T('h_utf8.cpp', 9, 0, reach=['end', 'bad', 'pair'], **b('every sequence of 9 bytes')),
    T('h_input.cpp', 5, 0, **b('every string of 5 bytes')), T('h_input.cpp', 5, 2, **b('every stream of 5 bytes')),
])
PROPS['C10'] = dict(runs=[
    R('h_case.cpp', 0, 0, 127, **b('case conversion of every ASCII range, every character')),
    R('h_case.cpp', 0, 1024, 1119, **b('case conversion of every Cyrillic range (U+0400..U+045F), every character')),
    R('h_case.cpp', 1, 0, 127, **b('literals: every ASCII character')),
    R('h_case.cpp', 1, 1024, 1119, **b('literals: every Cyrillic character')),
    R('h_case.cpp', 2, 1024, 1119, **b('classes: every Cyrillic range, every character')),
])
SUR = dict(reach=['narrow', 'wide'])
PROPS['C11'] = dict(runs=[
    R('h_surr.cpp', 1, 0, 0, **SUR, **b('classes of 1 range over U+0080..U+10FFFF, every character outside the surrogates')),
    R('h_surr.cpp', 1, 0, 1, **SUR, **b('negated classes of 1 range, every character')),
    R('h_surr.cpp', 0, 1, 0, **SUR, **b('".", every character')),
    T('h_surr.cpp', 2, 0, 0, **SUR, **b('classes of 2 ranges, every character')),
])
CF = ['Dfa', 'Util', 'ContextFree', 'Lr']
PROPS['C12'] = dict(runs=[
    R('h_items.cpp', 0, 2, 10, groups=CF, **b('every pair of items of the 10 kinds, every symbol number')),
    R('h_items.cpp', 0, 3, 6, groups=CF, **b('every triple of items of 6 kinds, every symbol number')),
    R('h_items.cpp', 1, 3, groups=CF, **b('every pair of rules of at most 3 items, every symbol number')),
    R('h_items.cpp', 2, 3, groups=CF, **b('every sequence of 3 operations on 2 item sets, any item asked for')),
    R('h_items.cpp', 3, 4, groups=CF, **b('every sequence of 4 operations on a terminal dictionary, every symbol number')),
    R('h_items.cpp', 4, 2, groups=CF, **b('every pair of states of at most 2 items')),
    R('h_items.cpp', 5, groups=CF, **b('every triple of LR(1) items of 2 rules, 2 offsets and 8 lookahead sets')),
    T('h_items.cpp', 0, 3, 10, groups=CF, **b('every triple of items of 10 kinds, every symbol number')),
    R('h_items.cpp', 7, 1, groups=CF, reach=['same', 'different', 'end'], **b('every pair of EBNF items and guards of at most 3 inner rules of at most 1 item (a terminal, a nonterminal or an optional item), every symbol number')),
    T('h_items.cpp', 7, 2, groups=CF, reach=['same', 'different', 'end'], **b('inner rules of at most 2 items')),
    T('h_items.cpp', 2, 4, groups=CF, **b('every sequence of 4 operations on 2 item sets')),
    T('h_items.cpp', 4, 3, groups=CF, **b('every pair of states of at most 3 items')),
])
FST = ['end', 'changed', 'copied']
PROPS['C13'] = dict(runs=[
    R('h_first.cpp', 0, 2, 2, 3, 2, groups=CF, reach=FST, **b('every grammar of 2 nonterminals, 2 terminals and 3 rules of at most 2 items; a rule added afterwards; a copy')),
    R('h_first.cpp', 1, 2, 1, 2, 1, 1, groups=CF, reach=FST, **b('every grammar of 2 nonterminals, 1 terminal and 2 rules of an EBNF item (inner rules of at most 1 item) and at most 1 item')),
    R('h_first.cpp', 1, 1, 2, 1, 2, 2, groups=CF, reach=FST, **b('every grammar of 1 nonterminal, 2 terminals and 1 rule of an EBNF item (inner rules of at most 2 items) and at most 2 items')),
    R('h_first.cpp', 1, 2, 1, 2, 1, 2, groups=CF, reach=FST, **b('every grammar of 2 nonterminals, 1 terminal and 2 rules of an EBNF item (inner rules of at most 2 items) and at most 1 item')),
    T('h_first.cpp', 0, 3, 2, 3, 2, groups=CF, reach=FST, **b('every grammar of 3 nonterminals, 2 terminals and 3 rules of at most 2 items')),
])
PRS = ['end', 'accepted', 'rejected']
PROPS['C14'] = dict(runs=[
    R('h_lalr.cpp', 0, 2, 2, 2, 2, 3, groups=CF, reach=PRS, **b('every grammar of 2 nonterminals, 2 terminals and 2 rules of at most 2 items that has no conflicts, every input of at most 3 terminals')),
    R('h_lalr.cpp', 0, 2, 2, 3, 2, 4, groups=CF, reach=PRS, **b('every grammar of 2 nonterminals, 2 terminals and 3 rules of at most 2 items that has no conflicts, every input of at most 4 terminals')),
    R('h_lalr.cpp', 0, 2, 2, -1, 2, 5, groups=CF, reach=PRS, **b('every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z), x and y of at most 1 item, z of at most 2 terminals or optional terminals, every input of at most 5 terminals')),
    T('h_lalr.cpp', 0, 2, 2, -2, 2, 6, groups=CF, reach=PRS, **b('every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z), x and y of at most 2 items, every input of at most 6 terminals')),
    T('h_lalr.cpp', 0, 2, 2, 3, 3, 4, groups=CF, reach=PRS, **b('every conflict-free grammar of 3 rules of at most 3 items, every input of at most 4 terminals')),
    T('h_lalr.cpp', 0, 3, 2, 4, 2, 4, groups=CF, reach=PRS, **b('every conflict-free grammar of 3 nonterminals and 4 rules of at most 2 items, every input of at most 4 terminals')),
])
PROPS['C15'] = dict(runs=[
    R('h_lalr.cpp', 1, 1, 2, 1, 1, 4, 1, groups=CF, reach=PRS, **b('every conflict-free grammar of 1 rule of an EBNF item (inner rules of at most 1 item) and at most 1 item, every input of at most 4 terminals')),
    R('h_lalr.cpp', 1, 1, 2, 1, 2, 4, 2, groups=CF, reach=PRS, **b('every conflict-free grammar of 1 rule of an EBNF item (inner rules of at most 2 items) and at most 2 items, every input of at most 4 terminals')),
    R('h_lalr.cpp', 1, 2, 2, 2, 1, 3, 1, groups=CF, reach=PRS, **b('every conflict-free grammar of 2 nonterminals and 2 rules of an EBNF item and at most 1 item, every input of at most 3 terminals')),
    R('h_lalr.cpp', 2, 1, 5, 0, 2, 3, groups=CF, reach=PRS, **b('every EBNF item of EBNF items of EBNF items with at most 5 different terminals, every input of at most 3 terminals')),
    T('h_lalr.cpp', 2, 1, 8, 1, 2, 3, groups=CF, reach=PRS, **b('every EBNF item of EBNF items of EBNF items with at most 8 terminals, followed by a terminal')),
    T('h_lalr.cpp', 1, 2, 2, 2, 1, 3, 2, groups=CF, reach=PRS, **b('every conflict-free grammar of 2 nonterminals and 2 rules of an EBNF item (inner rules of at most 2 items) and at most 1 item, every input of at most 3 terminals')),
])
PROPS['C24'] = dict(runs=[
    R('h_items.cpp', 6, 2, groups=CF, **b('every sequence of 2 operations on 3 containers, every value')),
    T('h_items.cpp', 6, 3, groups=CF, **b('every sequence of 3 operations on 3 containers, every value')),
])
CON = ['end', 'shift/reduce', 'reduce/reduce']
PROPS['C16'] = dict(runs=[
    R('h_tables.cpp', 0, 2, 2, 3, 2, 1, groups=CF, reach=CON, **b('every grammar of 2 nonterminals, 2 terminals and 3 rules of at most 2 items')),
    R('h_tables.cpp', 0, 2, 2, 3, 2, 2, groups=CF, reach=CON, **b('the same grammars with both nonterminals as languages')),
    R('h_tables.cpp', 0, 2, 2, -2, 2, 1, groups=CF, **b('every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z), x and y of at most 2 items, z of at most 2 terminals or optional terminals')),
    R('h_tables.cpp', 0, 2, 2, -2, 2, 2, groups=CF, **b('the same grammars with both nonterminals as languages')),
    R('h_tables.cpp', 1, 1, 2, 1, 2, 1, 2, groups=CF, reach=CON, **b('every grammar of 1 rule of an EBNF item (inner rules of at most 2 items) and at most 2 items, 2 terminals')),
    R('h_tables.cpp', 1, 2, 1, 2, 1, 1, 2, groups=CF, reach=CON, **b('every grammar of 2 nonterminals, 1 terminal and 2 rules of an EBNF item (inner rules of at most 2 items) and at most 1 item')),
    R('h_tables.cpp', 1, 1, 2, 1, 1, 1, 1, 1, groups=CF, reach=CON, **b('every grammar of 1 rule of an EBNF item that contains another EBNF item (inner rules of at most 1 item), 2 terminals')),
    T('h_tables.cpp', 0, 3, 2, 3, 2, 1, groups=CF, reach=CON, **b('every grammar of 3 nonterminals, 2 terminals and 3 rules of at most 2 items')),
    T('h_tables.cpp', 0, 2, 2, 4, 2, 1, groups=CF, reach=CON, **b('every grammar of 2 nonterminals, 2 terminals and 4 rules of at most 2 items')),
    T('h_tables.cpp', 0, 2, 2, 3, 3, 1, groups=CF, reach=CON, **b('every grammar of 2 nonterminals, 2 terminals and 3 rules of at most 3 items')),
    T('h_tables.cpp', 1, 1, 2, 1, 1, 1, 2, 1, groups=CF, reach=CON, **b('every grammar of 1 rule of an EBNF item that contains another EBNF item (inner rules of at most 2 items), 2 terminals')),
])
LVL = ['end', 'accepted', 'rejected']
PROPS['C17'] = dict(runs=[
    R('h_prec.cpp', 1, 2, 3, groups=CF, reach=['end', 'accepted', 'rejected'], **b('every expression grammar of one operator rule (infix, prefix, postfix or ternary), any precedences and associativities, every input of at most 3 tokens')),
    R('h_prec.cpp', 2, 2, 6, groups=CF, reach=LVL + ['unresolved'], **b('every expression grammar of 2 operator rules, any precedences and associativities, every input of at most 6 tokens')),
    T('h_prec.cpp', 2, 3, 7, groups=CF, reach=LVL + ['unresolved'], **b('2 operator rules, every input of at most 7 tokens')),
    T('h_prec.cpp', 3, 3, 5, groups=CF, reach=LVL + ['unresolved'], **b('3 operator rules, every input of at most 5 tokens')),
])
PROPS['C18'] = dict(runs=[
    R('h_weak.cpp', 1, 2, 2, 2, 2, 3, groups=CF, reach=LVL + ['strong'], **b('every conflict-free grammar of 2 nonterminals, 2 terminals and 2 rules of at most 2 items, either terminal weak for the other, every input of at most 3 tokens')),
    R('h_weak.cpp', 1, 2, 2, 3, 2, 3, groups=CF, reach=LVL + ['strong'], **b('as before, 3 rules')),
    R('h_weak.cpp', 1, 1, 2, 1, 1, 3, 2, groups=CF, reach=LVL + ['strong'], **b('grammars of one rule with an EBNF item (inner rules of at most 2 items) and at most 1 item')),
    R('h_weak.cpp', 3, 2, 3, 2, 2, 3, groups=CF, reach=LVL + ['strong'], **b('2 nonterminals, 3 terminals, 2 rules, two weak symbols for one strong symbol, given in one or two calls')),
    R('h_weak.cpp', 1, 2, 2, -1, 2, 4, groups=CF, reach=LVL + ['strong'], **b('every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z) with a weak symbol, x and y of at most 1 item, z of at most 2 terminals or optional terminals, inputs of at most 4 tokens')),
    T('h_weak.cpp', 3, 2, 3, -1, 1, 3, groups=CF, reach=LVL + ['strong'], **b('every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z) with two weak symbols')),
    T('h_weak.cpp', 1, 2, 3, 3, 2, 3, groups=CF, reach=LVL + ['strong'], **b('3 terminals and 3 rules')),
    T('h_weak.cpp', 3, 2, 3, 2, 3, 4, groups=CF, reach=LVL + ['strong'], **b('two weak symbols, 2 rules of at most 3 items, inputs of at most 4 tokens')),
])
PROPS['C19'] = dict(runs=[
    R('h_guard.cpp', 0, 2, 2, 2, 2, 3, 1, 0, groups=CF, reach=LVL + ['guard', 'no guard'], **b('every conflict-free grammar of 2 nonterminals, 2 terminals, 2 rules of at most 2 items and a guard of 1 item anywhere, every input of at most 3 tokens')),
    R('h_guard.cpp', 1, 1, 2, 1, 1, 3, 2, 0, groups=CF, reach=LVL + ['guard'], **b('one rule of at most 1 item and an EBNF item that contains the guard (of at most 2 items)')),
    R('h_guard.cpp', 0, 1, 2, 2, 2, 3, 2, 1, groups=CF, reach=LVL + ['guard', 'no guard'], **b('1 nonterminal, 2 rules, a guard of at most 2 items in one or two places')),
    R('h_guard.cpp', 0, 2, 2, -1, 2, 3, 1, 0, groups=CF, reach=LVL + ['guard', 'no guard'], **b('every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z) with a guard of 1 item anywhere, x and y of at most 1 item, z of at most 2 terminals or optional terminals')),
    T('h_guard.cpp', 0, 2, 2, -1, 2, 4, 1, 0, groups=CF, reach=LVL + ['guard', 'no guard'], **b('every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z), z of at most 2 items, inputs of at most 4 tokens')),
    T('h_guard.cpp', 0, 2, 2, 2, 2, 3, 2, 1, groups=CF, reach=LVL + ['guard', 'no guard'], **b('2 rules, a guard of at most 2 items in one or two places')),
    T('h_guard.cpp', 0, 2, 2, 3, 2, 3, 1, 0, groups=CF, reach=LVL + ['guard', 'no guard'], **b('3 rules, a guard of 1 item')),
    T('h_guard.cpp', 1, 2, 2, 2, 1, 3, 2, 0, groups=CF, reach=LVL + ['guard'], **b('2 nonterminals, 2 rules of at most 1 item, an EBNF item with the guard')),
])
PROPS['C20'] = dict(runs=[
    R('h_weak.cpp', 0, 2, 2, 2, 2, 3, groups=CF, reach=LVL + ['skipped'], **b('every conflict-free grammar of 2 nonterminals, 2 terminals and 2 rules of at most 2 items, either terminal ignored, every input of at most 3 tokens')),
    R('h_weak.cpp', 0, 2, 2, 3, 2, 3, groups=CF, reach=LVL + ['skipped'], **b('as before, 3 rules')),
    R('h_weak.cpp', 0, 1, 2, 1, 1, 3, 2, groups=CF, reach=LVL + ['skipped'], **b('grammars of one rule with an EBNF item (inner rules of at most 2 items) and at most 1 item')),
    R('h_weak.cpp', 2, 2, 3, 2, 2, 3, groups=CF, reach=LVL + ['skipped', 'strong'], **b('2 nonterminals, 3 terminals, 2 rules, an ignored and a weak symbol')),
    R('h_weak.cpp', 0, 2, 2, -1, 2, 4, groups=CF, reach=LVL + ['skipped'], **b('every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z) with an ignored symbol, x and y of at most 1 item, z of at most 2 terminals or optional terminals, inputs of at most 4 tokens')),
    T('h_weak.cpp', 2, 2, 3, -1, 1, 3, groups=CF, reach=LVL + ['skipped', 'strong'], **b('every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z) with an ignored and a weak symbol')),
    T('h_weak.cpp', 0, 2, 3, 3, 2, 3, groups=CF, reach=LVL + ['skipped'], **b('3 terminals and 3 rules')),
    T('h_weak.cpp', 2, 2, 3, 2, 3, 4, groups=CF, reach=LVL + ['skipped', 'strong'], **b('an ignored and a weak symbol, 2 rules of at most 3 items, inputs of at most 4 tokens')),
])
TAB = ['end', 'found', 'none']
PROPS['C21'] = dict(runs=
    [R('h_ptab.cpp', m, 2, 2, 2, 2, 0, 0, groups=CF, reach=TAB, **b('every grammar of 2 nonterminals, 2 terminals and 2 rules of at most 2 items, every state, any symbol; %s tables' % n)) for m, n in ((0, 'built'), (1, 'copied'), (2, 'assigned'), (4, 'copies of ready made'))] + [
    R('h_ptab.cpp', 0, 1, 2, 1, 2, 1, 1, groups=CF, reach=TAB + ['eog'], **b('1 rule of at most 2 items, a guard and weak symbols; built tables')),
    R('h_ptab.cpp', 4, 1, 2, 2, 1, 1, 1, groups=CF, reach=TAB + ['eog'], **b('2 rules of at most 1 item, a guard and weak symbols; copies of ready made tables')),
    R('h_ptab.cpp', 2, 1, 2, 2, 1, 1, 1, groups=CF, reach=TAB + ['eog'], **b('2 rules of at most 1 item, a guard and weak symbols; assigned tables')),
    R('h_ptab.cpp', 3, 2, 2, 2, 1, 0, 1, groups=CF, reach=TAB, **b('2 rules of at most 1 item and weak symbols; ready made tables')),
    T('h_ptab.cpp', 0, 2, 2, 2, 2, 0, 1, groups=CF, reach=TAB, **b('2 rules of at most 2 items and weak symbols')),
    T('h_ptab.cpp', 1, 2, 1, 2, 1, 1, 1, groups=CF, reach=TAB + ['eog'], **b('2 nonterminals, 2 rules, a guard and weak symbols')),
])
PROPS['C22'] = dict(runs=[
    R('h_pstack.cpp', 5, 2, groups=CF, reach=['end', 'copied', 'assigned', 'grown'], **b('every sequence of 5 operations (push, pop, copy, assign, destroy, look) on 2 stacks, any values')),
    R('h_state.cpp', 0, 2, 2, 2, 2, 3, groups=CF, reach=LVL + ['destroyed', 'behind'], **b('every conflict-free grammar of 2 nonterminals, 2 terminals and 2 rules of at most 2 items, every input of at most 3 tokens, a state copied after any number of steps, 6 orders of running and destroying the two, with and without a third that stays at the start meanwhile')),
    R('h_state.cpp', 1, 2, 2, 2, 2, 3, groups=CF, reach=LVL + ['yes', 'no'], **b('can_reduce before any step of the parser (hard coded tables), any symbol')),
    R('h_state.cpp', 2, 2, 2, 2, 2, 3, groups=CF, reach=LVL + ['yes', 'no'], **b('the same with an assigned parser')),
    R('h_state.cpp', 1, 2, 2, -1, 1, 3, groups=CF, reach=LVL + ['yes', 'no'], **b('can_reduce, every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z)')),
    T('h_state.cpp', 0, 2, 2, -1, 1, 2, groups=CF, reach=LVL + ['destroyed'], **b('copied states, every grammar of two contexts of one nonterminal (A -> a B x | b B y, B -> z)')),
    R('h_state.cpp', 0, 1, 2, 1, 1, 2, 1, groups=CF, reach=LVL + ['destroyed'], **b('copied states, grammars of one rule with an EBNF item')),
    T('h_pstack.cpp', 6, 2, groups=CF, reach=['end', 'copied', 'assigned', 'grown'], **b('every sequence of 6 operations on 2 stacks')),
    T('h_pstack.cpp', 5, 3, groups=CF, reach=['end', 'copied', 'assigned', 'grown'], **b('every sequence of 5 operations on 3 stacks')),
    T('h_state.cpp', 0, 2, 2, 3, 2, 2, groups=CF, reach=LVL + ['destroyed'], **b('copied states, 3 rules, inputs of at most 2 tokens')),
    T('h_state.cpp', 1, 2, 2, 3, 2, 3, groups=CF, reach=LVL + ['yes', 'no'], **b('can_reduce, 3 rules')),
])
PROPS['C25'] = dict(runs=[
    R('h_leak.cpp', 0, 2, 2, 2, 2, 2, groups=CF, reach=LVL, **b('every grammar of 2 nonterminals, 2 terminals and 2 rules of at most 2 items, 3 ways to make the tables, with and without copies, every input of at most 2 tokens')),
    R('h_leak.cpp', 1, 1, 2, 1, 1, 2, 2, groups=CF, reach=LVL, **b('every grammar of one rule of an EBNF item (inner rules of at most 2 items) and at most 1 item')),
    R('h_leak.cpp', 2, 2, 2, 2, 1, 2, groups=CF, reach=LVL, **b('every grammar of 2 rules of at most 1 item and a guard')),
    R('h_leak.cpp', 3, 1, 1, 1, 1, 1, 1, groups=CF, reach=LVL, **b('every grammar of one rule of an EBNF item within an EBNF item')),
    R('h_leak.cpp', 4, 2, 2, 2, 2, 2, groups=CF, reach=LVL, **b('every grammar of 2 rules of at most 2 items with a weak and an ignored symbol')),
    R('h_leak.cpp', 5, 0, 0, 0, 0, 2, 2, groups=CF, **b('2 expressions (of <= 2 tokens and 1 token) and 2 named ones, 4 kinds of lexer, every input of 2 characters')),
    T('h_leak.cpp', 5, 0, 0, 0, 0, 3, 3, groups=CF, **b('expressions of <= 3 tokens, every input of 3 characters')),
    T('h_leak.cpp', 1, 1, 2, 1, 2, 2, 2, groups=CF, reach=LVL, **b('one rule of an EBNF item and at most 2 items')),
    T('h_leak.cpp', 0, 2, 2, 3, 2, 1, groups=CF, **b('every grammar of 3 rules of at most 2 items')),
])
LNG = CF + ['Language', 'Compiler']
PROPS['C26'] = dict(runs=[
    R('h_lang.cpp', 0, 2, 2, 2, 2, 3, groups=LNG, reach=['accepted', 'rejected', 'end', 'undefined'], **b('every grammar of 2 nonterminals, 2 terminals and 2 rules of at most 2 items in 3 styles and 5 ways to write the terminals, every input of 3 characters 0..126')),
    R('h_lang.cpp', 1, 1, 2, 1, 0, 2, 1, groups=LNG, reach=['accepted', 'rejected', 'end'], **b('every EBNF item of at most 1 inner item, alone or in 5 other items, with and without brackets, every input of 2 characters')),
    T('h_lang.cpp', 1, 1, 2, 1, 1, 2, 1, groups=LNG, **b('every rule of an EBNF item of at most 1 inner item and at most 1 other item, every input of 2 characters')),
    T('h_lang.cpp', 0, 2, 2, 3, 2, 3, groups=LNG, **b('every grammar of 3 rules of at most 2 items, every input of 3 characters')),
])
SYM2 = 'two symbols of 7 definitions, %s, before or after the grammar %s, every input of 2 characters 0..126'
PROPS['C27'] = dict(runs=[
    R('h_lexdef.cpp', 2, 1, 2, 3, groups=LNG, reach=['accepted', 'rejected', 'end', 'strong'], **b(SYM2 % ('the first in weak keywords, the second in any of 8 kinds of block', 'of 2 grammars'))),
    R('h_lexdef.cpp', 2, 7, 1, 2, groups=LNG, reach=['accepted', 'rejected', 'end'], **b(SYM2 % ('the first ignored, the second in any of 8 kinds of block', '"x \'a\'? y"'))),
    T('h_lexdef.cpp', 2, 0, 9, groups=LNG, **b(SYM2 % ('both in any of 8 kinds of block', 'of 9 grammars'))),
    T('h_lexdef.cpp', 3, 3, 2, 4, groups=LNG, **b('the first symbol in weak lexer, the second in any block, 2 grammars, every input of 3 characters')),
], finding_runs=[dict(harness='h_lexdef.cpp', args=[2, 0, 2, -1, 1], args_finding=[2, 0, 2, -1, 1], groups=LNG, defines=[])])
GEN = LNG + ['Generated']
def G(*a, **k): return R('h_gen.cpp', *a, groups=GEN, **k)
def GT(*a, **k): return T('h_gen.cpp', *a, groups=GEN, **k)
AR = ['accepted', 'rejected', 'end']
PROPS['C28'] = dict(runs=[
    G(0, 2, 0, 0, 0, **b('definition 0, every state and symbol of the tables')),
    G(1, 2, 0, 0, 0, **b('definition 1, every state and symbol of the tables')),
    G(2, 2, 0, 0, 0, **b('definition 2, every state and symbol of the tables')),
    G(3, 2, 0, 0, 0, **b('definition 3, every state and symbol of the tables')),
    G(4, 2, 0, 0, 0, **b('definition 4, every state and symbol of the tables, the constants for symbols')),
    G(5, 2, 0, 0, 0, **b('definition 5, every state and symbol of the tables')),
    G(5, 0, 3, 32, 122, **b('definition 5 (symbols that match the same text), every input of 3 characters 32..122')),
    G(5, 1, 3, 32, 122, reach=['end', 'no match'], **b('lexer of definition 5, every input of 3 characters 32..122')),
    G(0, 0, 3, 30, 122, reach=AR + ['list', 'nested'], **b('definition 0, every input of 3 characters 30..122')),
    G(1, 0, 5, 97, 124, reach=AR + ['names', 'optional'], **b('definition 1, every input of 5 characters 97..124')),
    G(2, 0, 5, 97, 104, reach=AR + ['list in a list', 'optional'], **b('definition 2, every input of 5 characters 97..104')),
    G(3, 0, 3, 43, 122, reach=AR + ['weak', 'guard', 'strong'], **b('definition 3, every input of 3 characters 43..122')),
    G(3, 0, 2, 9, 40960, 1, reach=AR + ['plus'], **b('definition 3, start symbol <T>, every input of 2 characters 9..40960')),
    G(4, 0, 3, 97, 122, reach=AR + ['names', 'same name'], **b('definition 4, every input of 3 characters 97..122')),
    G(4, 0, 4, 40, 42, reach=AR + ['comment'], **b('definition 4, every input of 4 characters 40..42')),
    G(4, 0, 2, 30, 122, reach=AR + ['numbered'], **b('definition 4, every input of 2 characters 30..122')),
    G(0, 1, 2, 0, 255, reach=['end', 'no match'], **b('lexer of definition 0, every input of 2 characters 0..255')),
    G(1, 1, 2, 0, 255, reach=['end', 'no match'], **b('lexer of definition 1, every input of 2 characters 0..255')),
    G(3, 1, 2, 0, 1114111, reach=['end', 'no match'], **b('lexer of definition 3, every input of 2 characters 0..1114111')),
    G(4, 1, 2, 0, 255, reach=['end', 'no match'], **b('lexer of definition 4, every input of 2 characters 0..255')),
    GT(0, 0, 4, 30, 122, **b('definition 0, every input of 4 characters 30..122')),
    GT(1, 0, 7, 97, 124, **b('definition 1, every input of 7 characters 97..124')),
    GT(2, 0, 7, 97, 104, **b('definition 2, every input of 7 characters 97..104')),
    GT(3, 0, 3, 9, 40960, **b('definition 3, every input of 3 characters 9..40960')),
    GT(3, 0, 4, 32, 1640, 1, **b('definition 3, start symbol <T>, every input of 4 characters 32..1640')),
    GT(4, 0, 3, 9, 98, reach=AR + ['tab'], **b('definition 4, every input of 3 characters 9..98')),
    GT(0, 1, 3, 0, 255, **b('lexer of definition 0, every input of 3 characters 0..255')),
])

CH = 'base language of symbols %s, %s change(s) (=, |=, replace) of a named expression or a symbol in any of 5 kinds of block, directly or through a third language, every input of 2 characters 0..126'
PROPS['C29'] = dict(runs=[
    R('h_inherit.cpp', 0, 1, 2, 1, 2, 2, groups=LNG, reach=['accepted', 'rejected', 'end', 'refused'], **b('every base grammar of one rule of at most 2 items, one inherited change (=, |=, replace) of at most 2 items, every input of 2 characters')),
    R('h_inherit.cpp', 0, 2, 1, 1, 1, 2, groups=LNG, reach=['accepted', 'rejected', 'end', 'refused'], **b('every base grammar of two rules of at most 1 item, one inherited change of at most 1 item, every input of 2 characters')),
    R('h_inherit.cpp', 1, 2, 0, 1, 1, 0, 2, 1, 1, 2, groups=LNG, reach=['accepted', 'rejected', 'end', 'refused'], **b(CH % ('in lexer', 1))),
    R('h_inherit.cpp', 1, 2, 0, 1, 1, 2, 2, 1, 1, 2, groups=LNG, reach=['accepted', 'rejected', 'end', 'refused'], **b(CH % ('in ignore and lexer', 1))),
    R('h_inherit.cpp', 1, 2, 2, 1, 1, 3, 2, 1, 1, 2, groups=LNG, reach=['accepted', 'rejected', 'end', 'refused'], **b(CH % ('in weak lexer and lexer', 1))),
    T('h_inherit.cpp', 1, 2, 1, 1, 2, 0, 1, 1, 1, 1, groups=LNG, **b(CH % ('in lexer', 2))),
    T('h_inherit.cpp', 1, 2, 2, 1, 1, -1, 1, 2, 3, 1, groups=LNG, **b(CH % ('in any of 5 kinds and 2 kinds of block', 1))),
    T('h_inherit.cpp', 1, 3, 0, 1, 1, 2, 2, 1, 1, 2, groups=LNG, **b('the same with every input of 3 characters')),
    T('h_inherit.cpp', 0, 2, 1, 2, 1, 2, groups=LNG, **b('two inherited changes, in one language or two')),
    T('h_inherit.cpp', 0, 2, 2, 1, 1, 2, groups=LNG, **b('every base grammar of two rules of at most 2 items, one change of at most 1 item')),
])
CFR = ['accepted', 'rejected', 'end', 'decided', 'reported']
PROPS['C30'] = dict(runs=[
    R('h_conf.cpp', 2, 3, 1, 2, groups=LNG, reach=['accepted', 'rejected', 'end', 'reported', 'undefined'], **b('expressions with one of 6 operator rules and a precedence section of at most 2 levels, in the same language or an inheriting or an inherited one, every input of 3 characters')),
    R('h_conf.cpp', 2, 3, 2, 1, groups=LNG, reach=['accepted', 'rejected', 'end', 'reported', 'undefined'], **b('expressions with two of 6 operator rules and a precedence section of one level, every input of 3 characters')),
    R('h_conf.cpp', 1, 3, 1, 0, 1, groups=LNG, reach=CFR, **b('a rule with one of 4 EBNF operators, whose first symbol has one of 3 attributes, in an inherited language, every input of 3 characters')),
    R('h_conf.cpp', 0, 2, 1, 2, 2, 2, 1, groups=LNG, reach=CFR, **b('every grammar of 2 rules of at most 2 items where one terminal has one of 3 attributes, in an inherited language, every input of 2 characters')),
    T('h_conf.cpp', 0, 2, 1, 2, 2, 3, groups=LNG, **b('every grammar of 2 rules of at most 3 items where one terminal has one of 3 attributes, every input of 2 characters')),
    T('h_conf.cpp', 0, 3, 1, 2, 2, 3, groups=LNG, **b('the same with every input of 3 characters')),
    T('h_conf.cpp', 1, 3, 1, 1, groups=LNG, **b('EBNF operators with inner rules of at most 2 items, every input of 3 characters')),
    T('h_conf.cpp', 2, 3, 2, 2, groups=LNG, **b('expressions with two of 6 operator rules and a precedence section of at most 2 levels, every input of 3 characters')),
])
IM = ['symbol', 'no symbol', 'end', 'loop']
PROPS['C31'] = dict(runs=[
    R('h_import.cpp', 2, 2, 1, 1, groups=LNG, reach=IM + ['no file', 'no language', 'twice'], **b('2 files that import each other, themselves and one that is not there in any way, one of 2 languages in each that inherits from any or one that is not there')),
    R('h_import.cpp', 2, 1, 1, 2, groups=LNG, reach=IM + ['twice'], **b('2 files that import each other, themselves and one that is not a definition in any way')),
    R('h_import.cpp', 2, 2, 1, 3, groups=LNG, reach=IM + ['no language', 'twice'], **b('2 files with two names each that import each other and themselves in any way, one of 2 languages in each')),
    R('h_import.cpp', 1, 3, 3, 1, groups=LNG, reach=IM + ['no file', 'no language', 'twice'], **b('a file with at most 3 languages that inherit from each other in any way')),
    R('h_import.cpp', 3, 1, 1, 0, groups=LNG, reach=IM + ['twice'], **b('3 files that import each other and themselves in any way')),
    R('h_import.cpp', 2, 2, 2, 0, groups=LNG, reach=IM + ['no language', 'twice'], **b('2 files that import each other and themselves in any way, at most 2 of 2 languages in each')),
    T('h_import.cpp', 3, 2, 1, 0, groups=LNG, **b('3 files that import each other and themselves in any way, one of 2 languages in each')),
    T('h_import.cpp', 1, 3, 4, 0, groups=LNG, **b('a file with at most 4 definitions of 3 languages')),
])
