WHY_IN = ('The existing tests fix a few dozen hand-written examples; the claim ranges over every input ')

p('P01', 'A grammar accepts and matches exactly what PEG semantics prescribe',
  'For every grammar and every text, whether a parser matches, how much of the text it consumes and which named elements '
  'appear in which nesting is exactly what parsing-expression-grammar semantics prescribe: ordered choice, greedy repetition, '
  'optional, bounded repetition, interleave, positive and negative lookahead and lookbehind, terminals, regular expressions, '
  'case-insensitive terminals and named symbols. It makes no difference whether the grammar is written in EBNF or assembled '
  'from parser-objects.',
  ['programs', 'inputs'], 'All grammars over the documented combinators, all input texts, all start symbols.',
  WHY_IN + 'and grammar; tests sample a handful of grammars and never compare against an independent PEG interpreter.',
  ['parse.py', 'ebnf.py'],
  [('parser classes (Series, Alternative, Option, ZeroOrMore, OneOrMore, Counted, Interleave, Lookahead, Lookbehind, Text, RegExp)', 'parse.py:2900-5100'),
   ('EBNF-compiler on_* methods', 'ebnf.py:2340-3773')],
  'generated grammars and texts, differential against an independent PEG interpreter',
  'Grammars are generated by grammar depth; the oracle is an interpreter without memoization or optimization.')

p('P02', 'Syntax trees are lossless and positions are exact',
  'As long as nothing is dropped, the concatenation of the leaf contents of a parse tree is exactly the parsed text, also when '
  'parsing fails or stops early; and every node\'s position is the offset of its content in the text.  Content that a grammar '
  'explicitly drops is the only content that may be missing.',
  ['programs', 'inputs'], 'All grammars without drop-declarations, all texts, matching or not.',
  WHY_IN + 'including non-matching ones with partial trees.',
  ['parse.py', 'nodetree.py'],
  [('Grammar.__call__ stitching unparsed rest', 'parse.py:2000-2330'), ('RootNode / with_pos', 'nodetree.py:970-1010')],
  'generated grammars, texts and error positions; round-trip and position invariants')

p('P03', 'Early tree reduction follows the declared shape and nothing else',
  'Declaring symbols as disposable, dropping tokens, whitespace or symbols, and choosing a tree-reduction level changes only '
  'which nodes appear: disposable symbols and anonymous nodes are dissolved into their parents as documented for the '
  'respective level, dropped items disappear, and everything else keeps its name, its content, its order and its position.',
  ['programs', 'configurations', 'inputs'], 'All grammars, all choices of disposable and dropped symbols and of the reduction level, all texts.',
  'Tests show a few shapes for fixed grammars; the claim is about every combination of declarations.',
  ['parse.py', 'ebnf.py'],
  [('Parser.__call__ / _return_values / flatten and squeeze levels', 'parse.py:2760-3100'), ('@disposable, @drop, @reduction', 'ebnf.py:2560-2760')],
  'generated grammars and declarations, reference tree reduction as model')

p('P04', 'Grammar optimizations never change the result',
  'Switching the grammar-optimizations of the EBNF-compiler on or off, in any combination, changes neither whether and how far a text '
  'matches nor the named nodes of the resulting tree, their content and their positions, except for texts where the backtracking of regular '
  'expressions, to which parts of the grammar are compiled, makes a difference.',
  ['programs', 'configurations', 'inputs'], 'All grammars, all subsets of the optimizations, all texts.',
  'The tests run almost exclusively with one optimization setting; equality between settings is a relation that single examples do not check.',
  ['ebnf.py', 'parse.py'],
  [('optimization switches and smart regular expressions', 'ebnf.py:2330-3600'), ('SmartRE, early-token matching', 'parse.py:3300-3650')],
  'generated grammars, differential between optimization settings')

p('P05', 'Left-recursive grammars parse left-associatively, without hanging',
  'Directly and indirectly left-recursive symbols are supported: a left-recursive rule matches the same texts as its '
  'equivalent iterative formulation and yields the left-associative nesting. Parsing always terminates, whatever the recursion.',
  ['programs', 'inputs'], 'All directly and indirectly left-recursive rules, all texts.',
  'Existing tests check a handful of arithmetic grammars; termination and equivalence range over all recursion patterns and texts.',
  ['parse.py'],
  [('Forward.__call__ seed and grow', 'parse.py:5210-5400')],
  'generated left-recursive grammars, differential against iterative reference parsers')

p('P06', 'Captured values are matched exactly and survive backtracking',
  'Retrieving or popping a captured symbol matches exactly the value captured most recently and still on the stack; when '
  'parsing backtracks over captures or pops, the stack is as if the abandoned attempt had never happened. Values left on the '
  'stack at the end of the parse are reported.',
  ['programs', 'inputs', 'histories'], 'All grammars with capture, retrieve, pop and optional pop, all texts, all backtracking histories.',
  'Depends on the history of captures, pops and roll-backs; tests sample few histories.',
  ['parse.py'],
  [('Capture, Retrieve, Pop, rollback stack', 'parse.py:4780-5100'), ('Grammar.push_rollback__ / rollback_to__', 'parse.py:2080-2130')],
  'generated grammars with captures, differential against an interpreter with explicit stack copies')

p('P07', 'A parser object can be reused: no result depends on earlier runs',
  'The result of parsing a text with a start-symbol is the same, whether the parser object is fresh or has been used for any '
  'sequence of parses before, successful, failed or aborted, with whatever start-symbols, and whether or not the run is being '
  'traced or logged. Requesting parser objects repeatedly never leaks results between them.',
  ['histories', 'programs', 'inputs'], 'All sequences of (text, start symbol, complete match or prefix, tracing) applied to one parser object.',
  'Depends on call histories; tests use nearly always a fresh parser or independent calls.',
  ['parse.py', 'trace.py', 'dsl.py'],
  [('Grammar.reset__, memoization, variables, rollback stack', 'parse.py:1950-2330'), ('tracing', 'trace.py')],
  'stateful: generated call histories on a reused parser, differential against a fresh one')

p('P08', 'Parsing always returns a tree and reports every failure',
  'Calling a parser with any text and any start-symbol never raises and never hangs because of the text; it always yields a '
  'tree. A text that is not completely matched always yields at least one error with a location within the text, and a '
  'text that is matched without mandatory-violations yields none.',
  ['programs', 'inputs'], 'All grammars, all texts (including empty ones, odd unicode and deep nesting), all start symbols.',
  WHY_IN + ', in particular malformed ones.',
  ['parse.py', 'error.py'],
  [('Grammar.__call__', 'parse.py:2150-2330')],
  'grammar-based fuzzing with mutated texts; invariants on tree and errors')

p('P09', 'Errors after the point of no return are located, and recovery works as declared',
  'If a mandatory item does not match, exactly this is reported, at the place where the item was expected and with the message '
  'declared for this situation. Parsing resumes where the declared skip- or resume-rule points to and the text skipped on '
  'the way is preserved in the tree; without violated mandatory item, recovery rules have no effect.',
  ['programs', 'inputs', 'fault_sequences'], 'All placements of the mandatory marker and skip/resume/error declarations, all defects in the text, several in sequence.',
  'Tests inject single errors in a few grammars; the claim covers every sequence of defects.',
  ['parse.py', 'ebnf.py'],
  [('Series / MandatoryNary.mandatory_violation, reentry_point', 'parse.py:3900-4250'), ('@skip, @resume, @error', 'ebnf.py:2600-2760')],
  'generated statement-lists with injected defects, model of expected errors and recovery')

p('P10', 'The EBNF-compiler never crashes and compiles only working parsers',
  'Compiling any text as EBNF-grammar terminates with a result and a list of located errors instead of an exception. If there are no '
  'errors, the generated Python code can be executed and yields a parser that answers any text with a tree or located errors; undefined symbols, '
  'duplicate definitions and unconnected symbols are reported. A faulty grammar does not affect other grammars in the same process.',
  ['inputs', 'programs'], 'All texts, in particular near-valid grammars.',
  'Tests contain some dozens of faulty grammars, out of an unbounded set of mutations.',
  ['ebnf.py', 'dsl.py', 'parse.py'],
  [('EBNFCompiler', 'ebnf.py:1420-3773'), ('grammar_provider, create_parser', 'dsl.py')],
  'mutation fuzzing of grammars; invariants on compile results')

p('P11', 'Writing a grammar out as EBNF and reading it back preserves its language',
  'A parser rendered as EBNF, and a grammar\'s syntax tree serialized back to EBNF, can be compiled again, and the result '
  'accepts the same texts and produces the same trees as the original.',
  ['programs', 'inputs'], 'All grammars and texts.',
  'Only a few grammars are round-tripped by the tests, and mostly by comparing strings.',
  ['ebnf.py', 'parse.py'],
  [('EBNF_from_AST serialization', 'ebnf.py:1050-1200'), ('as_ebnf, Parser.__repr__', 'parse.py:2290-2330')],
  'generated grammars, round-trip and differential parsing')

p('P12', 'All notational variants of EBNF mean the same',
  'A grammar can be written in any of the supported EBNF-dialects (different definition, separator and end-of-rule signs, '
  'postfix or bracket notation for options and repetitions, quoting styles, macros and their expansions, comments and line-breaks) '
  'and always yields a parser with the same behaviour.',
  ['programs', 'inputs', 'configurations'], 'All combinations of notations for all grammars.',
  'Combinations of notations are far too many for example-based tests.',
  ['ebnf.py'],
  [('EBNF grammar variants, free-form scanner, macros', 'ebnf.py:250-1000')],
  'generated grammars rendered in random dialects, metamorphic equality')

p('P13', 'Insignificant whitespace and comments are skipped everywhere and only there',
  'With whitespace and comments declared in a grammar, inserting or removing declared whitespace or comments at any '
  'place where insignificant whitespace is allowed changes nothing but the whitespace in the tree; and anywhere else '
  'it is significant. The mixin of whitespace and comments matches exactly the alternating sequences of both.',
  ['programs', 'inputs', 'configurations'], 'All whitespace- and comment-declarations, all texts, all insertion points.',
  'A relation between pairs of texts over unboundedly many insertion points.',
  ['ebnf.py', 'parse.py'],
  [('@whitespace, @comment, @literalws; mixin_comment', 'parse.py:1580-1640'), ('on_directive', 'ebnf.py:2560-2720')],
  'generated grammars and texts with inserted whitespace, metamorphic and reference checks')

p('P15', 'Source maps lead every position back to where its text came from',
  'After preprocessing, be it the inclusion of files, tokenizing or chains of these, every position of the generated text maps '
  'to the file and offset that this very character comes from, and error locations are reported accordingly. '
  'Circular includes are reported and never loop.',
  ['inputs', 'programs', 'histories'], 'All include-structures, all tokenizations, all chains, all positions.',
  'Tests check a few positions in a few files; the claim is for every position of every include tree.',
  ['preprocess.py', 'error.py'],
  [('make_source_map / source_map / neutral_mapping', 'preprocess.py:280-420'), ('preprocess_includes, chain_preprocessors', 'preprocess.py:180-580')],
  'generated include-trees and token-streams with provenance model')

p('P16', 'Threads do not influence each other',
  'Parsing, transforming and compiling in several threads at once, with different configurations, yields in every thread '
  'what it yields when run alone, under any interleaving. Presets made in one thread are visible as defaults in threads that '
  'start later, while thread-local settings never leak.',
  ['schedules', 'configurations'], 'All schedules of a bounded number of threads that set and read configuration and parse.',
  'Thread schedules are not controlled by any existing test.',
  ['configuration.py', 'toolkit.py', 'parse.py', 'dsl.py'],
  [('THREAD_LOCALS, access_presets', 'configuration.py:500-820, toolkit.py')],
  'generated thread programs under controlled interleaving, differential against sequential runs')

p('P17', 'Configuration values obey their scope and their validation',
  'A value that has been set is the value that is read, in the same thread, until it is changed; thread-independent presets '
  'serve as default; reading groups of values by pattern returns exactly the values single reads return. Invalid values or '
  'keys are rejected and leave the configuration unchanged, and configuration files have the effect of the corresponding presets.',
  ['histories', 'configurations'], 'All histories of setting, presetting, reading, resetting and loading of configuration values.',
  'Depends on histories of operations; tests try very few.',
  ['configuration.py'],
  [('get_config_value, set_config_value, presets, read_local_config', 'configuration.py:430-980')],
  'stateful: model-based histories of configuration operations')

p('P18', 'Trees survive the round trip through S-expressions',
  'Serializing any tree as S-expression, in flat, indented or compact form, and parsing it back yields the same names, attributes, structure '
  'and content.',
  ['inputs', 'configurations'], 'All trees, including contents with quotes, brackets, line-breaks and control characters; all formatting options.',
  WHY_IN + '; awkward contents and attributes are mostly untested.',
  ['nodetree.py'],
  [('as_sxpr, parse_sxpr', 'nodetree.py:2150-2330, 4700-4900')],
  'generated trees, round-trip')

p('P19', 'Trees survive the round trip through XML, and XML output is well-formed',
  'Serializing any tree that can be expressed in XML yields well-formed XML that an independent XML-parser reads as the same '
  'elements, attributes and character data, and reading it back yields the same tree. This holds irrespective of '
  'the formatting options, as far as these are declared to preserve whitespace.',
  ['inputs', 'configurations'], 'All trees with XML-compatible names, all serialization options.',
  WHY_IN + '; special characters, mixed content and option combinations are hardly tested.',
  ['nodetree.py'],
  [('as_xml, parse_xml', 'nodetree.py:2330-2700, 4900-5200')],
  'generated trees, round-trip and differential against the standard library XML parser')

p('P20', 'Trees survive the round trip through JSON, SXML-, dictionary- and element-trees',
  'Every tree exported as JSON (including positions and attributes) or as ElementTree and imported again is equal to '
  'the original; the exported JSON is valid JSON for any content.',
  ['inputs', 'configurations'], 'All trees, all flavours and options.',
  WHY_IN + 'and flavour.',
  ['nodetree.py', 'toolkit.py'],
  [('to_json_obj, from_json_obj, as_etree, from_etree', 'nodetree.py:2700-3000, 5200-5300')],
  'generated trees, round-trip')

p('P21', 'Selecting and traversing nodes visits exactly the matching nodes, in order',
  'Selections of nodes, children, leaves or paths, in forward or reverse direction, with or without root, starting anywhere '
  'and skipping subtrees, yield exactly those nodes that match the criterion, each once, in document order (or its reverse).',
  ['inputs', 'configurations'], 'All trees, all selection criteria and option combinations.',
  'The product of trees, criteria and options cannot be sampled by examples.',
  ['nodetree.py'],
  [('select_if, select, select_children, select_path, pick, index', 'nodetree.py:1180-1700')],
  'generated trees and criteria, differential against a naive enumeration')

p('P22', 'Walking along paths reaches every node once and in document order',
  'Moving to the next, previous, first or last leaf or along the paths of a tree by path-navigation visits the leaves in '
  'document order without omission or repetition, and forward and backward navigation are inverse to each other. Paths '
  'that are constructed for a node always lead from the root to that very node.',
  ['inputs', 'histories'], 'All trees, all starting paths, all navigation sequences.',
  'Tests navigate in one or two sample trees.',
  ['nodetree.py'],
  [('next_path, prev_path, next_leaf_path, foregoing_str, ensuing_str, reconstruct_path', 'nodetree.py:3050-3500')],
  'generated trees and walks, differential against enumerated paths')

p('P23', 'Tree equality, copying and editing behave like lists of nodes',
  'Copies of a tree are equal to and independent of the original; two trees compare equal exactly if names, content, structure and, '
  'where asked for, attributes agree. Reading, inserting, removing or replacing children by index, slice or name, and adding or '
  'removing attribute-values behaves like the same operations on a list or dictionary.',
  ['inputs', 'histories'], 'All trees and all histories of edits.',
  'Depends on operation histories.',
  ['nodetree.py'],
  [('Node.__getitem__, __setitem__, __delitem__, insert, remove, equals, __deepcopy__, attr helpers', 'nodetree.py:780-1180')],
  'stateful: model-based edit histories on generated trees')

p('P24', 'Content mappings locate every text position in the right leaf',
  'A content mapping presents the selected part of a tree as a plain string; every position in that string is mapped to the '
  'path of the leaf and the offset within this leaf which the character comes from, and back. Ignored parts of the tree never '
  'appear and never shift other positions.',
  ['inputs', 'configurations'], 'All trees, all selection and ignore criteria, all positions including boundaries and empty leaves.',
  'Tests check single positions in sample trees.',
  ['nodetree.py'],
  [('ContentMapping', 'nodetree.py:3640-4100')],
  'generated trees, model mapping by enumeration of characters')

p('P25', 'Adding markup to a range of text keeps the text and covers exactly that range',
  'Adding an element around any range of text in any tree leaves the text content unchanged, and the nodes of the added element '
  'together cover exactly the characters of that range. The tree stays consistent with its content mapping so that '
  'further elements can be added.',
  ['inputs', 'histories'], 'All trees, all ranges, all sequences of markup-operations, divisible and non-divisible elements.',
  'Histories of overlapping markups are unbounded; tests contain some dozens.',
  ['nodetree.py'],
  [('ContentMapping.markup, insert_node', 'nodetree.py:4100-4560')],
  'stateful: generated markup sequences with a character-interval model')

p('P26', 'Splitting and merging nodes neither loses nor duplicates content',
  'Splitting a node or a chain of nodes at any position yields parts that together contain the content in '
  'order; each part carries the name and attributes of the original. Merging and flattening neighbouring or nested nodes '
  'preserves the text and the order of what remains.',
  ['inputs', 'configurations'], 'All trees and split points, left-biased or not.',
  'Split positions at boundaries and empty nodes are many and mostly untested.',
  ['nodetree.py', 'transform.py'],
  [('split_node, deep_split, leaf_path/can_split', 'nodetree.py:3500-3640')],
  'generated trees and cuts, content and structure invariants')

p('P27', 'Errors attached to a tree are kept, ordered and attributed correctly',
  'Errors added to a tree are all reported, exactly once, sorted by position, with severity-filters, maximum severity and the '
  'error-state of nodes being consistent with this list, through copying, swapping and merging of trees.',
  ['histories', 'inputs'], 'All trees and histories of adding errors and manipulating the tree.',
  'Depends on histories of operations.',
  ['nodetree.py', 'error.py'],
  [('RootNode.add_error, new_error, errors, node_errors, swallow, transfer_errors', 'nodetree.py:3000-3050, 5300-5700')],
  'stateful: generated error-histories with a list model')

p('P28', 'String views are indistinguishable from the strings they stand for',
  'A view on a part of a text behaves like the string it denotes: indexing, slicing, searching, counting, splitting, stripping, '
  'comparing, hashing, matching regular expressions and concatenating all give the results of the plain string, with positions relative to the view.',
  ['inputs'], 'All texts, all views (including views of views), all arguments including negative and out of range ones.',
  'Arguments are unbounded; tests use few views and mostly positive in-range arguments.',
  ['stringview.py'],
  [('StringView', 'stringview.py:60-400')],
  'generated views and operations, differential against str')

p('P29', 'Incremental edits of a text buffer produce the edited text',
  'After any sequence of edits addressed by line and column, the buffer contains exactly the text that applying the same '
  'edits to a plain string yields, its version counter increases with each edit, and snapshots are those of the latest state.',
  ['histories', 'inputs'], 'All texts and edit histories, including empty insertions, deletions over line-ends and edits at the end of the text.',
  'Depends on edit histories; tests apply few edits.',
  ['stringview.py'],
  [('TextBuffer', 'stringview.py:400-492')],
  'stateful: generated edit histories, string model')

p('P30', 'Positions, lines and columns convert into each other consistently',
  'For every position in a text, line and column are those obtained by counting line-breaks, converting back yields the position, and '
  'errors carry exactly the line, column and range that belong to their position; error-messages are rendered with '
  'this location, their severity and their code.',
  ['inputs', 'configurations'], 'All texts, all positions including the end of the text, all severities.',
  'Boundary positions and unusual line structures are sparsely covered by tests.',
  ['toolkit.py', 'error.py'],
  [('linebreaks, line_col, text_pos, adjust locations', 'toolkit.py:1200-1400, error.py:300-480')],
  'generated texts and positions, counting oracle')

p('P31', 'Tree-traversal applies each transformation to exactly the addressed nodes',
  'Traversing a tree with a transformation-table applies, depth first, to every node exactly the transformations the table '
  'assigns to its name (or its wildcard, pre- and post- and conditional rules), in the given order and with the right path, '
  'and to no other node. Splitting or merging tables does not change the result.',
  ['inputs', 'programs'], 'All trees and transformation tables.',
  'The combinations of keys, filters and hooks are unbounded, and the order of application is observed by few tests.',
  ['transform.py'],
  [('traverse, merge_treetops, key_tag_name, BLOCK_CHILDREN', 'transform.py:430-760')],
  'generated trees and tables with recording transformations, reference traversal')

p('P32', 'Structure-changing transformations keep the text content',
  'Transformations that flatten, reduce, merge, rename, move, wrap, group, replace or normalise nodes leave the text content of the '
  'tree and the order of its leaves unchanged, keep attributes and positions that are not explicitly discarded, and leave the nodes that '
  'they are not meant for untouched. Inserting transformations add nodes at exactly the given places.',
  ['inputs', 'programs'], 'All trees, all content-preserving transformations and sequences of them.',
  'Tests show one or two examples per transformation.',
  ['transform.py'],
  [('flatten, reduce_single_child, replace_by_single_child, merge_adjacent, move_fringes, collapse etc.', 'transform.py:900-1800')],
  'generated trees and transformation sequences; content invariant and reference results')

p('P33', 'Removing transformations remove exactly what they are declared to remove',
  'Transformations and conditions that select nodes (whitespace, empty nodes, brackets, infix operators, tokens, named or anonymous nodes, first or last '
  'children) drop or accept exactly those nodes that meet the condition and keep all others in order.',
  ['inputs', 'programs'], 'All trees, all removal transformations and their conditions.',
  'Boundary cases (empty, single-child, leaf nodes) are sparsely tested.',
  ['transform.py'],
  [('remove_*, strip, lstrip, rstrip, keep_*, is_*, has_* conditions', 'transform.py:1050-1400, 1900-2150')],
  'generated trees, reference filters')

p('P34', 'Tree-walkers call the right method once per node and report what fails',
  'Compiling a tree visits each node with exactly the method named after it (or the declared fallback), children in order, and '
  'uses the returned values as the result; the same compiler object can be used repeatedly. Errors raised for nodes are '
  'located at these nodes and suppress or abort the result as documented.',
  ['inputs', 'programs', 'histories'], 'All trees and all visitor classes, repeated use.',
  'Tests use fixed visitor classes on fixed trees.',
  ['compile.py', 'nodetree.py'],
  [('Compiler.__call__, compile, fallback_compiler, visit_attributes', 'compile.py:180-420'), ('Node.evaluate', 'nodetree.py')],
  'generated visitor classes and trees, reference evaluation')

p('P35', 'Processing pipelines give each target the result of its own chain of stages',
  'Running a source through a network of processing stages yields for each requested target exactly what running the stages on the '
  'path from source to target one after the other yields, independent of the order of the junctions and of which other '
  'targets are requested, and no stage sees changes that belong to another branch. Errors of all stages on the path are '
  'collected once, in order; a fatal error or a cancellation is reported and ends the processing, and never yields a target beyond it.',
  ['programs', 'configurations', 'fault_sequences'], 'All acyclic junction networks, target sets and failing stages.',
  'Tests run linear pipelines and one or two branches.',
  ['pipeline.py', 'compile.py'],
  [('full_pipeline, run_pipeline, extract_data', 'pipeline.py')],
  'generated junction networks, differential against sequential execution')

p('P36', 'JSON output is valid and faithful, JSON-RPC messages are well-formed',
  'Serializing any JSON-compatible value yields valid JSON that reads back as the same value, whatever strings it contains; already '
  'serialized parts are embedded verbatim; pretty-printed JSON is equivalent to the original, and RPC-messages carry method, parameters, '
  'id, result and error as the protocol demands.',
  ['inputs', 'configurations'], 'All JSON-values, partially serialized values, all formatting options.',
  'Special characters, nested partially serialized values and option combinations are hardly tested.',
  ['toolkit.py'],
  [('json_dumps, json_rpc, pp_json, JSONstr, JSONnull', 'toolkit.py:1480-1800')],
  'generated values, round-trip and differential against the json module')

p('P37', 'The server frames messages correctly however the byte-stream is chunked',
  'A stream of requests sent to the server is decoded into the same requests and answered with the same responses no matter how '
  'the bytes are split into chunks or which headers accompany them, and every response goes to the request with the same id. '
  'Malformed requests are answered with an error, and never take the server down or swallow later requests.',
  ['schedules', 'inputs', 'fault_sequences'], 'All request sequences, all chunkings of the byte-stream, all malformed requests.',
  'Tests always send whole messages over the loopback interface.',
  ['server.py'],
  [('read_full_block / split_header / gen_lsp_table / Server.handle', 'server.py:300-800, 1000-1900')],
  'generated request streams with generated chunkings fed to in-memory connections, model of responses')

p('P38', 'Grammar tests report a case as passed exactly if it behaves as specified',
  'Test-files are read as they are written: every case keeps name, kind and text, in all supported file formats. A test-run '
  'reports an error for a "match" case exactly if the symbol does not match the text completely (blanks at its end put aside), for a "fail" case exactly if it does, '
  'and for expected trees and results exactly if the actual tree differs.',
  ['inputs', 'programs', 'configurations'], 'All grammars, all test-suites, all expected outcomes.',
  'The test-framework itself is tested with few suites.',
  ['testing.py'],
  [('unit_from_config, unit_from_json, grammar_unit', 'testing.py:200-1100')],
  'generated grammars and suites, independent verdicts as oracle')

p('P40', 'Generated typed dictionaries check JSON-data against the interface',
  'Validation of function arguments and JSON-data against typed interfaces accepts exactly those values that conform to the declared types, '
  'with required and optional fields, unions, lists, literals and nesting, and rejects all others with a type error.',
  ['inputs', 'programs'], 'All declared types and all JSON-values.',
  'Tests validate a few instances.',
  ['ts2python', 'validate.py'],
  [('validate_type, type_check', 'ts2python/json_validation.py')],
  'generated types with conforming and mutated values, reference type checker')

p('P41', 'Text utilities do what they document for every string',
  'Bracket matching, indentation and normalization of docstrings, text wrapping, abbreviation, escaping and string-compression helpers preserve or '
  'report exactly the content they are documented to preserve or report, for any string.',
  ['inputs'], 'All strings and parameters.',
  'Utilities are tested, if at all, with one or two examples.',
  ['toolkit.py'],
  [('matching_brackets, normalize_docstring, wrap_str_literal, abbreviate_middle, as_list, concurrent helpers', 'toolkit.py:600-1400')],
  'generated strings, reference implementations and invariants')

p('P44', 'Re-generating a parser script keeps the user\'s own code',
  'Compiling a grammar to a parser-script repeatedly replaces only the generated parser section: everything the user has written into the '
  'other sections stays as it is, character by character, across any number of recompilations. A grammar with errors leaves the script on disk untouched.',
  ['histories', 'inputs', 'programs'], 'All sequences of grammar changes, user edits and recompilations.',
  'Depends on the history of edits and recompilations; tests try one.',
  ['dsl.py'],
  [('compile_on_disk, read_sections', 'dsl.py:560-800')],
  'stateful: generated edit-and-recompile histories in scratch directories')

p('P45', 'Batch-processing yields the same results as processing one by one',
  'Processing many documents in one batch, sequentially or in parallel, produces for each document the same output and errors as '
  'processing it alone: the same files with the same content, and the same list of error-files, in the order of the documents. A document '
  'that fails or cannot be read is reported and does not affect the others.',
  ['inputs', 'schedules', 'fault_sequences'], 'All sets of documents, including faulty ones, any number of workers.',
  'Tests process two or three well-formed files.',
  ['dsl.py'],
  [('batch_process, process_file', 'dsl.py:850-1030')],
  'generated document sets, differential against single processing')
