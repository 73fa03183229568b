prop('C01', 'Every Unicode property class means the set Unicode gives it',
     'For every general category, block and script name, \\p{name} (and its negations) matches exactly the code points the Unicode Character '
     'Database gives that name. A name is accepted only when the whole text between the braces equals it; any other name throws.',
     ['inputs'], 'all 1.1 million code points of every property, every text between the braces',
     'the tests compare no property with the Unicode data; one wrong bound in 2800 range literals goes unnoticed',
     ['parser/tokeniser/unicode.hpp', 'parser/tokeniser/blocks.hpp', 'parser/tokeniser/scripts.hpp', 'parser/tokeniser/re_tokeniser_helper.hpp'],
     [('sets', 'parser/tokeniser/{unicode,blocks,scripts}.hpp'), ('name search', 'parser/tokeniser/re_tokeniser_helper.hpp: unicode_escape')],
     'constant extraction compared with the Unicode data; abstract interpretation of the name search',
     'Literals are taken from the type-checked program, parsed to code point sets and compared with UnicodeData/Blocks/Scripts. The search loop is '
     'analysed by partitioned abstract interpretation. That the tokeniser reads a literal the way the check does is C03/C25.')
prop('C02', 'Ignoring case adds exactly the simple case counterparts',
     'With the ignore-case flag, a character or class matches exactly what it matched before plus the simple one-to-one upper/lower case counterparts '
     'of each member (locale mapping for one-byte characters); without it nothing is added. A negated class is negated after the counterparts have been added.',
     ['inputs', 'configurations'], 'every code point, every range, every flag scope, each character width',
     'the tests fold a few ASCII letters; a wrong range in the table of counterparts or a range partly overlapping it is never tried',
     ['parser/tokeniser/fold2.inc', 'parser/tokeniser/fold4.inc', 'parser/tokeniser/re_tokeniser.hpp', 'parser/tokeniser/re_tokeniser_helper.hpp'],
     [('table and overlap computation', 'parser/tokeniser/fold2.inc, fold4.inc; parser/tokeniser/re_tokeniser_helper.hpp'), ('where folding happens', 'parser/tokeniser/re_tokeniser.hpp, re_tokeniser_helper.hpp')],
     'table extraction compared with the Unicode data; abstract interpretation of the overlap arithmetic and of every insertion',
     AI + '. The table is compared with UnicodeData; the overlap formula is evaluated on every order type of range against table entry.')
prop('C09', 'Lexing never touches the input at or past its end',
     'For any machine, feature combination and input range, scanning for a token reads a character only at a position that was compared '
     'and found different from the end of the range, and advances only from such a position. The end-of-input token is reported exactly '
     'when the scan position equals the end.',
     ['inputs', 'programs', 'configurations'], 'every machine, every input range (including empty ones and a bad last character), every flag combination',
     'the tests lex a handful of whole strings with sentinel bytes behind them, where an over-read goes unnoticed',
     ['lookup.hpp'], [('scan loop and end tests', 'lookup.hpp: detail::next'), ('skip of an unmatched character', 'lookup.hpp: inc_end')],
     'abstract interpretation: guarded-dereference/advance rule on every partition',
     AI + '. Decided for 12 instantiations of lookup (all feature flags, narrow/wide, forward and random access iterators, recursive). Assumes '
     'that the input and the results object do not alias.')
prop('C10', 'Everything reported about a token comes from one accepting row',
     'The id, user id, end position, line-start flag, next start state and push/pop effect reported for a token all belong to the last '
     'accepting table row passed at one input position of the scan; a scan that passes no accepting row reports the error id, consumes one '
     'character (if configured to) and changes no state. Popping an empty stack is reported as an error, never performed.',
     ['inputs', 'programs', 'configurations'], 'every machine, input, start state, stack and flag combination',
     'a stale field only shows up where a shorter match with different data precedes a longer one; the tests hardly ever combine them',
     ['lookup.hpp', 'match_results.hpp'], [('remembered token data', 'lookup.hpp: lookup_state::end_state/reset_*'), ('commit of a match', 'lookup.hpp: detail::next')],
     'abstract interpretation: group-consistency invariant over remembered token data',
     AI + '. The relation between table rows read and results written is extracted per lookup instantiation and compared with the rule. '
     'Assumes table rows are constant during a call (C12).')
prop('C11', 'Scanning follows the transition tables exactly',
     'A scan starts in the row for the current start state (its line-start row exactly when at the start of a line), moves per character '
     'to the row the table names (most significant part first for wide characters), takes the end-of-line transition exactly before CR, LF '
     'or the end of input, and stops only when no transition exists. The line-start flag is true exactly after a newline.',
     ['inputs', 'programs', 'configurations'], 'every machine, input and flag combination',
     'tests sample a few machines; bare CR, anchors after skipped tokens and multi-byte prefixes are not combined',
     ['lookup.hpp'], [('stepping', 'lookup.hpp: lookup_state::next_char/is_eol/bol_start_state/check_eol')],
     'abstract interpretation: extracted transition relation compared with the table semantics',
     AI + '. Assumes row offsets do not overflow (C21) and that the input does not change during a call.')
prop('C13', 'clear, reset, swap, == and copying act on the whole object',
     'Clearing rules, machines, results, tokens and internals leaves the same state as constructing them afresh (clearing one start state empties '
     'everything recorded for it and nothing else); resetting results equals constructing them on the new range. Swapping exchanges, '
     'comparing compares and copying copies every member.',
     ['histories', 'inputs'], 'every object history before the operation',
     'a forgotten member only shows when the object was used with that feature before; the tests build fresh objects',
     ['internals.hpp', 'match_results.hpp', 'rules.hpp', 'state_machine.hpp', 'string_token.hpp', 'parser/tokeniser/re_token.hpp', 'iterator.hpp'],
     [('clear / swap', 'internals.hpp: basic_internals'), ('clear / reset / ==', 'match_results.hpp'), ('clear', 'rules.hpp: basic_rules::clear'),
      ('clear / swap / ==', 'state_machine.hpp')],
     'abstract interpretation: memberwise final-state comparison',
     AI + '. Final symbolic member states after clear/reset/swap/copy are compared member by member with default construction / '
     'construction from the range / the other object. The comparison of recursive results is that of their base (their stack is not compared).')
prop('C12', 'Machines and rules can be shared for reading, between threads too',
     'Scanning, replacing, saving, printing, generating code from and building from const machines and rules leaves them as they were and keeps '
     'no hidden state: everything a call changes is reachable only through its own results, output or locals. Copies of machines and rules share nothing.',
     ['schedules', 'histories'], 'every interleaving of calls on shared machines with separate results', 'the tests are single threaded',
     ['lookup.hpp', 'state_machine.hpp', 'internals.hpp', 'rules.hpp', 'debug.hpp', 'generate_cpp.hpp', 'replace.hpp'],
     [('write set of a scan', 'lookup.hpp: detail::next'), ('deep const data', 'internals.hpp: basic_internals')],
     'effect analysis: write sets, static storage, const removal, pointer members',
     'Effect analysis over the type-checked program of all five analysis units plus the abstract-interpretation write sets of 12 lookup instantiations. '
     'Trusts the C++ const rules and that const operations of standard containers do not race.')
prop('C14', 'A saved machine loads back unchanged',
     'Saving a machine and loading it gives a machine equal in every member, for every machine, every unsigned id type and every character type. '
     'Loading a machine saved for another character or id size throws instead of misreading it.',
     ['inputs', 'programs'], 'every machine, id type (8 bit included) and character type', 'one round trip of one machine cannot show a member that '
     'happened to hold its default, or an id that is white space as a character',
     ['serialise.hpp'], [('writer', 'serialise.hpp: save/output_vec'), ('reader', 'serialise.hpp: load/input_vec')],
     'abstract interpretation: writer/reader protocol extraction and pairing',
     AI + '. The token grammar save writes and the one load reads are extracted (counted loops included), paired value by value and compared with '
     'the members they come from and go to, for 5 instantiations. Assumes formatted stream IO of numbers round-trips.')
prop('C06', 'A rejected addition leaves the rules unchanged',
     'If pushing a rule, inserting a macro or adding a start state throws, the rules hold exactly what they held before, so '
     'adding other rules afterwards and building gives what it would have given without the failed call. A rule is recorded completely or not at all.',
     ['inputs', 'histories'], 'every rejected regex, name, id or start state list, after every history of additions',
     'tests that expect an exception stop there; nothing is built from the rules object afterwards',
     ['rules.hpp'], [('rule addition', 'rules.hpp: basic_rules::push'), ('macros', 'rules.hpp: basic_rules::insert_macro'),
                     ('start states', 'rules.hpp: basic_rules::push_state')],
     'dataflow: no throwing step after the first write to the object, on every path',
     'Interprocedural may-throw summaries and a forward dataflow of (members written, calls that already succeeded) over the control-flow '
     'graph of every public adding function with its helpers inlined. Memory exhaustion is not considered a rejection.')
prop('C07', 'A failed build leaves the machine as it was',
     'If building a machine from rules throws, the machine passed in keeps its previous contents. A build that returns has replaced every '
     'member of the machine, whatever it held before.',
     ['histories', 'inputs'], 'every machine contents before the build, every rules object',
     'the tests build into fresh machines only', ['generator.hpp', 'state_machine.hpp'],
     [('build', 'generator.hpp: basic_generator::build')],
     'dataflow: no throwing step after the first write to the output, every member written at each return',
     'The same dataflow as C06 on the output argument of every instantiated build. Memory exhaustion is not considered a failed build.')
prop('C29', 'Wide characters are matched byte by byte without gaining or losing any',
     'With input characters wider than one byte every character set becomes alternatives of byte sequences that together match exactly the '
     'characters of the set: each range is cut into parts that cover it exactly, parts are joined only when all higher bytes agree, and every '
     'part becomes its byte ranges in the order lookup reads them.',
     ['inputs', 'programs'], 'every character range and every set of ranges, 16 and 24 bit',
     'tests use a handful of wide sets; block boundaries, several planes and joining of parts are not combined',
     ['parser/parser.hpp', 'lookup.hpp'],
     [('cutting', 'parser.hpp: slice_range'), ('filing', 'parser.hpp: insert_range'), ('words', 'parser.hpp: create_sequence/push_ranges/push_range')],
     'abstract interpretation: byte boxes of every path compared with the range over all order types of its bytes; filing and traversal by path facts',
     AI + '. The bounds of the parts are compared on all combinations of the byte values 0, 1, 2, 254 and 255, which represent every order and '
     'adjacency the extracted comparisons can tell apart; only terms are evaluated, no code is run.')
prop('C30', 'The earliest rule wins a tie, with all of its own data',
     'When several rules match the same longest text, the token reported has the id, user id, next start state, push and pop of the rule '
     'added first, all from that one rule. Every push overload records exactly the data it is given (regex, id, user id, and next state/push/pop '
     'as the state text says) once per start state named.',
     ['inputs', 'programs', 'configurations'], 'every set of rules, states and overlapping regexes',
     'a mixed-up column shows only for rules that differ in just that column and overlap; tests rarely give overlapping rules different push, pop or user ids',
     ['rules.hpp', 'generator.hpp', 'parser/parser.hpp', 'parser/tree/end_node.hpp', 'parser/tree/selection_node.hpp', 'partition/equivset.hpp'],
     [('recording', 'rules.hpp: basic_rules::push'), ('rules to tree', 'generator.hpp: build_tree; parser/parser.hpp: parse; parser/tree/end_node.hpp'),
      ('accepting rows', 'generator.hpp: closure/closure_ex'), ('merging', 'partition/equivset.hpp: intersect; generator.hpp: build_equiv_list')],
     'abstract interpretation: data-flow composition from rule columns to row slots, group updates and order of merging',
     AI + '. The chain rules column -> parse argument -> end node field -> accessor -> row slot is extracted and composed per instantiation. '
     'That the positions followed are those of the regex is C05.')
prop('C26', 'A machine advertises exactly the features its rules use',
     'The features recorded for a start state are exactly those its rules need (^, $, skip, again, push/pop) and a machine has those of all its states, '
     'plus multi_state when there are several. Reversing rules exchanges ^ and $. Rules of a state in which some rule starts with ^ all '
     'match at the start of a line too.',
     ['inputs', 'configurations', 'histories'], 'every push overload, every rule text, id, state list; any number of states',
     'a missing feature only shows with reduced lookup flags, in generated code, or for a plain rule at a line start; tests use the default flags',
     ['rules.hpp', 'generator.hpp', 'parser/tokeniser/re_tokeniser.hpp'],
     [('recording', 'rules.hpp: basic_rules::push, reverse'), ('combining', 'generator.hpp: create'), ('line start alternatives', 'generator.hpp: build_tree'),
      ('anchors', 'parser/tokeniser/re_tokeniser.hpp: next')],
     'abstract interpretation: decided feature bits per partition; evaluation of the extracted bit arithmetic',
     AI + '. For every partition of each push overload the bits or-ed are compared with what the facts of that partition say about the rule.')
prop('C03', 'Escapes, POSIX names and brackets stand for the documented characters',
     'For every character type, \\ followed by any character, \\c, octal and hexadecimal escapes, \\d \\D \\s \\S \\w \\W and the twelve POSIX names stand for exactly the documented characters, and '
     'a number that does not fit the character type is refused. A bracket expression matches exactly the characters, escapes, names and ranges written in it, or the others with ^, and a range is refused '
     'exactly if an end is a set or its last character comes before its first.',
     ['inputs'], 'every text and every character',
     'the tests try one or two characters of each escape and name; a wrong end, a missing member, a number at the limit or an item in an unusual place shows only for one text',
     ['parser/tokeniser/re_tokeniser_helper.hpp', 'char_traits.hpp'],
     [('escapes', 're_tokeniser_helper.hpp: escape_sequence, charset_shortcut, chr, decode_octal, decode_hex, decode_control_char'), ('POSIX names', 're_tokeniser_helper.hpp: posix, alnum_alpha ... xdigit, insert_charset'),
      ('brackets', 're_tokeniser_helper.hpp: charset, charset_range')],
     'path partitions of the tokeniser evaluated for every character; literals parsed as character sets; digit loops by induction',
     AI + '. Each partition of an escape function is judged for every 8-bit character and for wide ones at every constant the code compares with. Folded characters are left to C02, what \\p{} names to C01, '
     'reads beyond the end to C24. The locale classes are glibc ctype masks.')
prop('C04', 'Regular expressions are accepted and grouped as the grammar says',
     'A regular expression is accepted exactly when it consists of alternatives of sequences of operands with matched parentheses, nothing missing and at '
     'most one quantifier per operand (none for ^); everything else throws. Quantifiers bind tighter than sequence, sequence tighter than |; a macro stands for its own bracketed tokens. '
     '{+} and {-} combine exactly the single sets on their two sides.',
     ['inputs'], 'every sequence of tokens, macro definition and nesting depth',
     'the tests parse a few dozen expressions; one wrong entry of 576 in the precedence table only shows for one pair of tokens',
     ['parser/parser.hpp', 'parser/tokeniser/re_token.hpp', 'rules.hpp'],
     [('precedence table', 'parser/tokeniser/re_token.hpp: precedence'), ('shift/reduce', 'parser/parser.hpp: parse, reduce'),
      ('macros and set operators', 'rules.hpp: tokenise, process_macro, process_diff, check_diff')],
     'precedence relations computed from the grammar compared with the extracted table; abstract interpretation of the parser',
     AI + '. Wirth-Weber relations are computed from the grammar and compared with every entry the parse can reach; each reduction is compared with its '
     'production. That tree operations build the right trees is C05, character level C03/C24. Assertions hold.')
prop('C05', 'Expression trees stand for exactly the operators and quantifiers written',
     'Sequence and alternative join their two operands in order; ?, *, +, {n}, {n,} and {n,m} and their lazy forms let their operand occur exactly the numbers of times they say, '
     'and skip lazily exactly when lazy. Nullability, first, last and following positions of every node are those of its parts, and a repeated part is copied, never shared. '
     'A rule is its expression followed by one end marker carrying the rule.',
     ['inputs'], 'every expression of any size, every repetition bound, every nesting',
     'the tests use a handful of quantifiers on single characters; a wrong position set shows only for nullable or repeated groups in certain places',
     ['parser/parser.hpp', 'parser/tree/node.hpp', 'parser/tree/sequence_node.hpp', 'parser/tree/selection_node.hpp', 'parser/tree/iteration_node.hpp', 'parser/tree/leaf_node.hpp',
      'parser/tree/end_node.hpp'],
     [('position sets', 'parser/tree/*_node.hpp: constructors'), ('copies', 'parser/tree: copy, traverse, copy_node'), ('operators', 'parser/parser.hpp: sequence, perform_or, optional, '
      'zero_or_more, one_or_more, repeatn'), ('root of a rule', 'parser/parser.hpp: parse, fixup_bol')],
     'abstract interpretation with a domain of position sets and of repetition counts',
     AI + '. Each constructor is compared with the equations of its kind under every nullability; loops of a quantifier are summarised in the domain of repetition counts and '
     'compared with the bounds (0..5). The automaton built from the trees is C30.')
prop('C25', 'Character sets are combined exactly and stay sorted, disjoint and merged',
     'Inserting a range or set, taking the complement, the common part or the difference of two sets yields exactly the characters set theory says, for every character type '
     'up to its highest character. The stored ranges stay sorted, disjoint and not adjacent, so equal sets compare equal. The two sets of an intersection lose exactly the common part.',
     ['inputs'], 'every pair of sets of every size, including ranges that end at 0 or at the highest character',
     'the tests combine a few sets of two or three ranges; the cases differ in order, touching and limits of each pair of ranges',
     ['string_token.hpp', 'char_traits.hpp'],
     [('insertion', 'string_token.hpp: insert'), ('complement', 'string_token.hpp: negate'), ('common part and difference', 'string_token.hpp: intersect, remove, adjust'),
      ('highest character', 'char_traits.hpp: max_val')],
     'abstract interpretation; the transition relation of a loop round decided for every order of the ends of two ranges',
     AI + '. What one round does is a set of partitions over the four ends compared; every order type of them (adjacent, touching, at 0, at the highest character) is decided '
     'and compared with the set-theoretic step; the whole operation follows by induction over the rounds.')

prop('C34', 'No character, rule position or transition is lost building the tables',
     'The sets used by the rules of a start state are split into disjoint columns that together hold every character and know every set it came from. Every row holds, for every column and '
     'for line start and line end, the way on to the row of all positions that can follow there (left out only for lazy ways on from lazily accepting rows). Every state is built from its own rules.',
     ['inputs'], 'every list of rules, every number of sets and rows, every id type and character type',
     'the tests build some two hundred small machines; losing a part needs sets that overlap in a particular order',
     ['generator.hpp', 'partition/charset.hpp', 'partition/equivset.hpp', 'internals.hpp'],
     [('splitting into disjoint sets', 'generator.hpp: partition_charsets, build_equiv_list'), ('common parts', 'partition/charset.hpp, partition/equivset.hpp: intersect'),
      ('columns', 'generator.hpp: build_set_mapping, fill_lookup'), ('rows', 'generator.hpp: build_dfa, set_transitions')],
     'abstract interpretation; per round conservation rules over the partitions of each loop',
     AI + '. For every partition of a round the three parts (rest of the old set, common part, rest of the new set) must each be known empty or stored; the row loop is compared with '
     'its specification for every accept flag, repeat kind and result.')

prop('C35', 'Rules that match nothing or can never match are refused and named',
     'A build throws when a rule can match the empty text or can never be the one reported, unless the matching flag allows it, and names that rule; otherwise neither is a reason '
     'to refuse. It also throws for a start state without rules and exactly when rows or columns cannot be numbered by the id type.',
     ['inputs'], 'every rule set, flag combination and id type',
     'the tests try a few suppressed rules; a rule wrongly counted as used needs a particular tie',
     ['generator.hpp'],
     [('empty matches', 'generator.hpp: check_zero_len'), ('suppressed rules', 'generator.hpp: check_suppressed, closure_ex'), ('messages', 'generator.hpp: regex_from_idx'),
      ('limits', 'generator.hpp: build, build_dfa')],
     'abstract interpretation; every outcome decided for every flag, membership and size case',
     AI + '. The outcome (throw, go on, return) of each partition is compared with the specification for all values of the flags, end marks, used set and sizes it is consistent with.')

prop('C19', 'UTF-8 and UTF-16 are decoded and encoded exactly',
     'The decoding iterators give the code point of every well-formed sequence, go on right behind it (back to the one before with -) and throw std::range_error for stray, missing or cut off '
     'trailing units. The encoding iterators give the units of every code point in order. Iterators are equal exactly at the same unit.',
     ['inputs'], 'every code point, every unit sequence',
     'the tests decode a few characters; a wrong bit or a length boundary shows only for particular code points',
     ['utf_iterators.hpp'],
     [('decoding', 'utf_iterators.hpp: basic_utf8_in_iterator, basic_utf16_in_iterator'), ('encoding', 'utf_iterators.hpp: basic_utf8_out_iterator, basic_utf16_out_iterator'),
      ('byte order', 'utf_iterators.hpp: basic_flip_iterator')],
     'abstract interpretation with known bits over blocks of unit values',
     AI + '. For every partition the lead and trailing units allowed by its facts are enumerated as blocks (fixed high bits, open low bits); the bits of the stored result must be exactly the right '
     'bits of the right units, and the lengths, positions and refusals those of the encoding. Overlong forms, encoded surrogates and code points above 10FFFF are not specified.')

prop('C20', 'Names, ids, start state lists and state numbers mean what they say',
     'Only [A-Za-z_][-0-9A-Za-z_]* names a start state or macro, and rules may have every id but 0 and npos. A new start state gets the next number, its own slot in every table and is found by '
     'number and name; none gets npos. "*" is every state, a list is cut at its commas, >a:b at its colon, and unknown states and macros are refused.',
     ['inputs', 'histories'], 'every name, id, list text and sequence of additions, every character and id type',
     'the tests use a handful of names and two or three states; the limits of the id type and list ends are never reached',
     ['rules.hpp'],
     [('names', 'rules.hpp: validate'), ('ids', 'rules.hpp: check_for_invalid_id'), ('numbers', 'rules.hpp: push_state, state'), ('lists', 'rules.hpp: push'),
      ('macros', 'rules.hpp: insert_macro, process_macro')],
     'abstract interpretation; scan loops as character class automata, facts about every id and character decided over blocks of values',
     AI + '. Each partition of validate is walked along the name; the list loop is decided for both ends of a name (comma, end) from what the round leaves behind.')

prop('C21', 'What the id type cannot number is refused, never wrapped',
     'When a lexer has more start states, character sets, columns or rows than its id type has numbers (markers aside), push_state or build throws and nothing is renumbered; what does fit is '
     'never refused. Rules are counted beyond the id type: their number is not limited by it and no two are mixed up.',
     ['inputs'], 'every rule set, every id type',
     'the tests use an 8 bit id type in one or two places; a wrapped number needs a machine of exactly the critical size',
     ['generator.hpp', 'rules.hpp', 'parser/parser.hpp', 'parser/tree/end_node.hpp'],
     [('columns and rows', 'generator.hpp: build, build_dfa'), ('start states', 'rules.hpp: push_state'), ('sets', 'parser.hpp: lookup'), ('rules', 'generator.hpp: build_tree, closure_ex, check_suppressed; end_node.hpp')],
     'abstract interpretation; outcomes decided at every critical size, and a width analysis of where rule numbers are held',
     AI + '. Outcomes are compared at and around the limits for 8 and 16 bit ids. Character sets are counted before they are intersected.')

prop('C24', 'Reading a regex stays inside it',
     'Whatever the text of a rule or macro is, however it breaks off, the tokeniser reads no character behind its terminator, never moves on from its end, compares class and block names only up to '
     'their own end, and takes options only from a stack that holds some. Every rule is read from its first character to its last.',
     ['inputs'], 'every text given as a regex',
     'the tests try a few malformed regexes; an access behind the end needs a text that breaks off in one particular place, and may go unnoticed',
     ['parser/tokeniser/re_tokeniser.hpp', 'parser/tokeniser/re_tokeniser_helper.hpp', 'parser/tokeniser/re_tokeniser_state.hpp', 'rules.hpp'],
     [('positions', 're_tokeniser_state.hpp: next, increment, eos'), ('escapes and classes', 're_tokeniser_helper.hpp: escape_sequence, charset, posix and what they call'),
      ('options', 're_tokeniser.hpp: next, read_options'), ('texts', 're_tokeniser_helper.hpp: insert_charset, charset_shortcut')],
     'abstract interpretation with distances to the end; loop and call conditions inferred as a fixed point',
     AI + '. What every function needs to know where it is called is inferred from its calls. A character other than 0 is known not to be the terminator.')
prop('C36', 'The punctuation of a regex is read as the documented tokens',
     'Outside strings and comments each character of a regex is the documented token, with its lazy form exactly if ? follows, and the text moves on by exactly what the token takes. Strings, (?#) comments '
     'and, with skip_ws, white space and C comments are left out exactly where they may be; an option group sets and clears exactly its flags, up to its bracket. A repeat has the counts written and a macro '
     'the name written, and impossible ones are refused.',
     ['inputs', 'configurations'], 'every text, flags and nesting',
     'the tests read a handful of regexes; a nested comment, a count at its limit, an option group within another or a character behind a string shows only in one text',
     ['parser/tokeniser/re_tokeniser.hpp', 'parser/tokeniser/re_tokeniser_state.hpp'],
     [('tokens', 're_tokeniser.hpp: next, add_char'), ('left out', 're_tokeniser.hpp: comment, skip'), ('options', 're_tokeniser.hpp: read_options'), ('braces', 're_tokeniser.hpp: open_curly, repeat_n, macro')],
     'loop invariants over the text position; every stretch of code between loops, calls and ends judged against a step of the token grammar',
     AI + '. The spots a loop may be at are found from every way to it. The characters looked at are those the code compares with, their neighbours and samples, with up to three more behind them; counts and flags are sampled '
     'at their limits. Escapes and brackets are C03, reads beyond the end C24, the meaning of anchors C26.')

prop('C16', 'replace() writes the input with exactly the matches replaced',
     'replace() gives the whole input in order, with every match replaced by the replacement for its id (the text given, the entry of the map, or what the '
     'function in the map returns for the matched range; a match without an entry stays as it is) and with text that is skipped left as it is. '
     'Tokens are looked up one after the other from the start of the input, at the start of a line and in INITIAL, up to its end. The output iterator returned '
     'is the one behind everything written.',
     ['inputs'], 'every input, machine and replacement',
     'the 18 overloads repeat the same loop by hand and the tests call none of them',
     ['replace.hpp'],
     [('18 overloads', 'replace.hpp: lexertl::replace')],
     'abstract interpretation: output grammar between lookups',
     AI + '. Each overload is cut where it looks a token up; the pieces written between two lookups (calls of std::copy with the output iterator threaded through, '
     'or appends to the string returned) are compared, as ranges of symbolic positions, with the text since the last match followed by the replacement '
     'for this one. Which position, string and iterator play which part is found from the loop itself.')

prop('C33', 'Results hand out exactly the token text and iterators take one token at a time',
     'str, view, substr, subview and length of a result give exactly the characters from first to second, less the number asked to be left out at each end. '
     'A lexing iterator starts on the first token of the range, line start and start state it was given, every step looks up exactly one '
     'token, i++ gives the token from before the step, and it equals the end iterator exactly when the input is used up.',
     ['inputs', 'histories'], 'every result and every position of an iterator',
     'the tests step through a handful of inputs and never use subview, substr with two offsets or i++',
     ['match_results.hpp', 'iterator.hpp'],
     [('str / substr / view / subview / length', 'match_results.hpp: match_results'), ('constructor, ++, *, ->, sm', 'iterator.hpp: iterator')],
     'abstract interpretation of accessors and iterator steps',
     AI + '. The position and length of every text returned are compared as linear forms of first and second; every path through a step is checked for one lookup '
     'with its own machine and results and for the condition under which the machine is dropped.')

prop('C22', 'Everything public compiles for every type it is offered for',
     'Every public header can be included on its own. Rules, machines, generators, lookup, results, lexing and UTF iterators, files, saving, loading, dumping, drawing, '
     'converting, generating and replacing compile for char, wchar_t and char32_t, for unsigned ids of every width, for every kind of iterator and for every combination of features. '
     'Signed ids, copies of memory files, rules of a different character type than the machine, and writing through results, machines or rules that are only shown are refused.',
     ['programs', 'configurations'], 'every choice of character, id and iterator type and of features the library offers',
     'a template is only compiled when it is used: the tests use it with char and 16 bit ids, nearly always, and a test cannot show that a program does not compile',
     ['rules.hpp', 'state_machine.hpp', 'generator.hpp', 'lookup.hpp', 'match_results.hpp', 'iterator.hpp', 'debug.hpp', 'dot.hpp', 'serialise.hpp', 'generate_cpp.hpp', 'replace.hpp',
      'sm_to_csm.hpp', 'memory_file.hpp', 'stream_shared_iterator.hpp', 'utf_iterators.hpp'],
     [('basic_rules', 'rules.hpp: basic_rules'), ('machines', 'state_machine.hpp: basic_state_machine'), ('results', 'match_results.hpp: match_results'), ('lookup', 'lookup.hpp: lookup')],
     'type checked witnesses, and compile-fail witnesses with accepted twins',
     'Each witness is a translation unit that instantiates one template or family of functions for one choice of types against the headers of the tree, decided by clang\'s type checker alone. '
     'A witness that has to be refused counts only when its twin without the forbidden construct is accepted.')
