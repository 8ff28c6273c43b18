"""Writes properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
D = 'DHParser/'
p('P01', 'Parsing conforms to the PEG semantics of the grammar',
  'For every grammar in the documented EBNF notation and every document, the generated parser accepts exactly the documents (and, when partial matches are allowed, exactly the prefix) that the textbook semantics of ordered choice, greedy repetition, counted repetition, interleaving, lookahead, lookbehind and regular expressions prescribe. The nodes bearing the names of grammar symbols nest and cover the text exactly as in the derivation prescribed by that semantics.',
  ['programs', 'inputs'], 'all grammars built from the documented operators (non-left-recursive, no stateful parsers) x all documents x start symbols',
  'tests/test_parse.py and test_ebnf.py sample a few dozen hand-written grammars on one or two documents each; no independent semantics is ever compared',
  [D+'parse.py', D+'ebnf.py'], [('parser classes', 'DHParser/parse.py: Text, RegExp, Series, Alternative, ZeroOrMore, OneOrMore, Option, Counted, Interleave, Lookahead, Lookbehind, Synonym, Forward'), ('EBNF compiler', 'DHParser/ebnf.py: EBNFCompiler.on_* methods'), ('driver', 'DHParser/parse.py: Grammar.__call__, Parser.__call__')])
p('P02', 'Left-recursive grammars parse the longest input, left-associatively',
  'Directly, indirectly or mutually left-recursive grammars of operator-expression form recognise the same language and the same left-to-right grouping as an equivalent iterative definition. Parsing them terminates and memoization never leaves a partial recursion result visible.',
  ['programs', 'inputs'], 'all operator-precedence style left-recursive grammars (direct, indirect, mutual, several nested levels, mixed with right recursion, embedded in brackets and lookaheads) x documents',
  'only a dozen left-recursive grammars with a handful of inputs are tested',
  [D+'parse.py'], [('seed-and-grow', 'DHParser/parse.py: Forward.__call__ recursion depth bookkeeping'), ('memo suspension', 'DHParser/parse.py: Grammar.suspend_memoization__')])
p('P03', 'Captured values are compared and unwound exactly under backtracking',
  'With capturing and retrieving elements, a retrieve matches exactly the most recently captured, not yet consumed value, and a consuming retrieve removes exactly that value. When the parser backtracks out of an alternative, option, repetition, lookahead or failed sequence, every capture and consumption made inside is undone (an optional retrieve that is itself the whole lookahead, the documented DEDENT idiom, excepted), so that the overall result equals that of a parser which passes the stacks along purely functionally.',
  ['programs', 'inputs', 'histories'], 'all grammars combining capture, retrieve and pop (nested, repeated, in lookaheads and options, via symbols used at several places) with choice and repetition x documents',
  'unit tests cover a few well-behaved delimiters; the space of backtracking histories over the stacks is not explored',
  [D+'parse.py'], [('variable stacks and rollback', 'DHParser/parse.py: Grammar.variables__, push_rollback__, rollback_to__, Capture, Retrieve, Pop')])
p('P04', 'Concrete syntax trees are lossless and positions are exact',
  'The text of the concrete syntax tree of any parse, be it successful or erroneous, is the parsed document, character by character, unless the grammar explicitly drops content. Every node reports as its position the offset at which its text occurs in the document, and every error carries a position inside the document.',
  ['programs', 'inputs'], 'all grammars (also with mandatory items, resume and skip rules, lookaheads, whitespace) x arbitrary documents, also ones the grammar rejects',
  'a test compares content only for the particular document it parses; erroneous documents take many different recovery paths',
  [D+'parse.py', D+'nodetree.py'], [('zombie nodes for unparsed text', 'DHParser/parse.py: Grammar.__call__, ZOMBIE_TAG'), ('position assignment', 'DHParser/nodetree.py: Node.with_pos')])
p('P05', 'Tree-shaping options never change language, content or named structure',
  'Choosing any tree-reduction level, disposing (hiding) symbols, or switching on early tree reduction changes neither which documents are accepted nor the text content of the tree nor the nesting, names and extents of the remaining named nodes. Reduction levels only remove or merge anonymous nodes and never introduce empty anonymous ones, and dropping removes exactly the text of dropped items.',
  ['programs', 'inputs', 'configurations'], 'all grammars x hide/drop sets x the four reduction levels x documents',
  'the tests assert particular trees for particular grammars at particular levels',
  [D+'parse.py', D+'ebnf.py'], [('tree reduction', 'DHParser/parse.py: CombinedParser._return_value*, TreeReduction'), ('hide/drop directives', 'DHParser/ebnf.py: on_directive')])
p('P06', 'Parser objects carry no state from one parse into the next',
  'Parsing a document with a parser object that has already been used, in any way, for any number of other documents, start symbols, failed, aborted or traced runs yields the same tree and the same errors as a fresh parser object. Parser objects of different threads do not influence each other, and parsing the same text always gives the same result.',
  ['histories', 'schedules', 'inputs'], 'all histories of uses of one parser object (documents, start parsers, match modes, exceptions, cancellations) and all interleavings of threads each using their own parser',
  'tests use nearly always one fresh parser and one document; histories of mixed uses and concurrent use are not explored',
  [D+'parse.py', D+'ebnf.py', D+'toolkit.py'], [('reset', 'DHParser/parse.py: Grammar.reset__, Parser.reset, memo dictionaries'), ('thread-local factories', 'DHParser/toolkit.py: ThreadLocalSingletonFactory')])
p('P07', 'Tracing and logging only observe the parse',
  'Switching on history-tracking for all or some parsers of a grammar changes neither acceptance, nor the resulting tree, nor the reported genuine errors. The recorded history is faithful: each recorded match is a text that really occurs at the recorded place of the document.',
  ['programs', 'inputs', 'configurations'], 'all grammars (also stateful, recovering and left-recursive ones) x documents x traced subsets of parsers',
  'the tracer is tested with three example grammars and never against the untraced run in general',
  [D+'trace.py', D+'log.py', D+'parse.py'], [('tracer', 'DHParser/trace.py: trace_history, set_tracer'), ('history records', 'DHParser/log.py: HistoryRecord')])
p('P08', 'Cancellation is honoured promptly and leaves everything reusable',
  'If the cancellation query of a running parse, tree-traversal, compilation or pipeline starts to return true at any point, processing stops after boundedly many further steps, the result is marked with a cancellation error, and no exception escapes. Afterwards the same objects process the next document as if nothing had happened; a query that never returns true has no influence on the result.',
  ['crash_points', 'programs', 'inputs'], 'every poll at which cancellation can be signalled, for parsers (also stateful and left-recursive), transformers, compilers and pipelines',
  'existing tests cancel at one arbitrary, timing-dependent moment',
  [D+'parse.py', D+'transform.py', D+'compile.py', D+'pipeline.py'], [('polling', 'DHParser/parse.py: Grammar.cancel_query__; DHParser/compile.py: Compiler.cancel_query; DHParser/pipeline.py: run_pipeline')])
p('P09', 'Error reporting and recovery: located, sound and complete',
  'A document is reported free of errors exactly if the grammar matches all of it; a violated mandatory element is reported as an error at exactly the location where it was expected, and custom error messages are chosen by what follows there. Where skip- or resume-rules apply, parsing continues at exactly the place designated by the first matching rule, so that later errors are still found and later intact parts are still parsed into their regular nodes.',
  ['programs', 'inputs', 'fault_sequences'], 'grammars with mandatory items and skip/resume/error rules x documents with any number of injected faults at any places',
  'tests inject one or two particular faults into particular documents',
  [D+'parse.py', D+'ebnf.py', D+'error.py'], [('mandatory violation', 'DHParser/parse.py: ErrorCatchingNary.mandatory_violation, reentry_point'), ('resume', 'DHParser/parse.py: Parser.__call__ ParserError handling'), ('directives', 'DHParser/ebnf.py: X_skip, X_resume, X_error')])
p('P10', 'Parsing terminates with effort bounded by memoization',
  'For every grammar the compiler accepts without reporting errors and every document, parsing terminates, also when repeated elements match the empty string. For grammars without stateful and left-recursive elements the effort is bounded relative to grammar size and document length: linear where there are no repetitions, at most quadratic where repetitions are nested in alternatives, about linear for ordinary grammars with unambiguous repetitions - and it never explodes with nested alternatives that share a prefix.',
  ['programs', 'inputs'], 'all grammars (including empty-matching loops and exponentially backtracking ones) x document lengths',
  'time limits are not tested at all; a broken memo table keeps all results right',
  [D+'parse.py'], [('packrat memo', 'DHParser/parse.py: Parser.__call__ visited'), ('infinite loop protection', 'DHParser/parse.py: ZeroOrMore, OneOrMore, Counted, Interleave')])
p('P11', 'Equivalent notations of one grammar yield equivalent parsers',
  'The same grammar written with any of the documented syntactical variants (definition and separator signs, classical, PEG-like or regex-like repetition and option notation, commas or juxtaposition, explicit or implicit brackets, comments and layout, character ranges and escapes) compiles to parsers with the same behaviour. Operator precedence is the documented one: postfix and prefix operators bind tighter than interleave, interleave tighter than sequence and sequence tighter than choice.',
  ['programs', 'inputs', 'configurations'], 'all grammars x notational variants x flavor settings x layouts',
  'tests check a few notations on a few fixed grammars',
  [D+'ebnf.py'], [('EBNF grammar, heuristic flavors', 'DHParser/ebnf.py: HeuristicEBNFGrammar, FixedEBNFGrammar, EBNF_AST_transformation_table, assemble'), ('parser mode selection', 'DHParser/ebnf.py: get_ebnf_grammar, parse_ebnf')])
p('P12', 'Generated parser code equals the in-memory parser; bootstrapping is stable',
  'The Python source generated for a grammar, executed on its own in a fresh interpreter, behaves like the parser object created in memory for all documents, whatever optimizations are requested, and optimizations do not change the language or the named nodes. Compiling the same grammar twice yields the same code, and the EBNF parser generated from the EBNF grammar of EBNF recognises and compiles grammars like the built-in one.',
  ['programs', 'inputs'], 'all grammars x documents; repeated compilation histories and hash seeds',
  'the generated source and the optimizations are only checked for a few examples',
  [D+'ebnf.py', D+'dsl.py', D+'parse.py'], [('code generation', 'DHParser/ebnf.py: assemble_parser'), ('create_parser, compileEBNF, grammar_provider', 'DHParser/dsl.py'), ('optimizations (SmartRE)', 'DHParser/ebnf.py: smartRE_sequence, smartRE_expression, on_literal')])
p('P13', 'Faulty or hostile grammars are diagnosed, never crash the compiler',
  'Whatever text is submitted as a grammar, compilation ends either with a working parser or with error messages located inside the grammar text, and never with an internal exception or non-termination. Undefined and doubly defined symbols, ill-formed regular expressions, unknown directives and statically detectable endless loops are always reported as errors.',
  ['inputs', 'programs', 'fault_sequences'], 'all texts: mutations of valid grammars, random token soup, and grammars with seeded semantic mistakes',
  'only a fixed list of mistakes is tested',
  [D+'ebnf.py', D+'dsl.py', D+'compile.py'], [('static checks', 'DHParser/ebnf.py: EBNFCompiler.assemble_parser, on_definition, on_symbol, check_rx'), ('static analysis', 'DHParser/parse.py: Grammar static_analysis')])
p('P14', 'Whitespace, comment, literal and case directives act as documented',
  'The directives for insignificant whitespace, comments, whitespace attached to literals, case-insensitivity and dropping determine precisely where whitespace and comments may occur and how literals are compared: a grammar with directives accepts the same documents as the grammar in which whitespace is written out explicitly at every place the documentation says. Directives never affect grammars compiled later or in other threads.',
  ['programs', 'inputs', 'configurations'], 'all combinations of directives x grammars x documents with whitespace and comments inserted at legal and illegal places',
  'tests exercise single directives on single inputs',
  [D+'ebnf.py', D+'parse.py'], [('directives', 'DHParser/ebnf.py: EBNFDirectives, on_directive, on_literal, on_plaintext, on_whitespace'), ('whitespace regexp', 'DHParser/parse.py: mixin_comment, WSP_RE__')])
p('P15', 'Tree serializations are faithful and readable back',
  'Every node tree survives serialization and reading back through S-expressions, JSON, XML, ElementTree, pickling and copying with its names, structure, content and attributes intact, and for those formats that record them its positions. Every rendering variant (compact, flattened, indented, custom line widths) denotes the same tree, and XML output is well-formed for every tree whose names are XML names and, with whitespace-preserving settings, has exactly the content of the tree.',
  ['inputs', 'configurations'], 'all trees (empty nodes, mixed structure, attributes, quotes, brackets, backslashes, linebreaks, markup characters, unicode) x all serialization formats and options',
  'doctests and tests round-trip a handful of benign trees',
  [D+'nodetree.py'], [('writers', 'DHParser/nodetree.py: Node.as_sxpr, as_xml, as_json, as_tree, as_etree, serialize'), ('readers', 'DHParser/nodetree.py: parse_sxpr, parse_xml, parse_json, Node.from_etree, deserialize')])
p('P16', 'Tree queries and path navigation agree with the document order',
  'Every selection, search, indexing and path-navigation function returns exactly the nodes or paths that a naive walk through the tree in document order would return, in exactly that order (or its reverse), once each, honouring include-root, skip, stop and direction options. Locating a node by text offset returns the leaf whose text covers the offset.',
  ['inputs'], 'all trees x selection criteria x start points x option combinations',
  'tests use two or three fixed trees with distinctive names',
  [D+'nodetree.py'], [('selection', 'DHParser/nodetree.py: Node.select, select_if, pick, locate, find_parent, select_path, select_path_if, pick_path, locate_path, reconstruct_path, next_path, prev_path, next_leaf_path, find_common_ancestor')])
p('P17', 'Content mappings agree with the tree text and stay valid under edits',
  'A mapping between text and tree translates every offset of the (selected) content to the unique leaf and relative offset holding that character and back again, for any selection and ignore criteria. After any sequence of insertions and markups applied through the mapping it equals a mapping freshly built from the changed tree.',
  ['inputs', 'histories'], 'all trees x select/ignore criteria x offsets x sequences of edits',
  'tests check single look-ups and single edits on short texts',
  [D+'nodetree.py'], [('ContentMapping', 'DHParser/nodetree.py: ContentMapping.get_path_index, get_path_and_offset, rebuild_mapping, insert_node')])
p('P18', 'Adding markup or milestones never alters text or existing structure',
  'Marking up any text range of a tree with a new element leaves the text content unchanged, keeps every pre-existing element with its attributes (possibly split into chained fragments), keeps their order and nesting, and the new elements together cover exactly the given range of text. Splitting nodes at any offset divides the text exactly there, and inserting a milestone puts it exactly at the given text position.',
  ['inputs', 'histories'], 'all trees x ranges (also overlapping element boundaries) x divisibility settings x sequences of markups',
  'tests mark up a few fixed texts; overlapping-hierarchy cases are combinatorial',
  [D+'nodetree.py'], [('markup', 'DHParser/nodetree.py: ContentMapping.markup, markup_left, markup_right, markup_leaf'), ('splitting', 'DHParser/nodetree.py: split_node, deep_split, can_split, insert_node')])
p('P19', 'Tree transformation runs each rule exactly where and when it should',
  'A transformation table is applied to every node of the tree exactly once, children before parents (or, where so requested, before the children), selecting the rule by node name with the documented wildcard and filter semantics, and giving each rule the true path from the root to the node. The rules that merely rearrange the tree (flattening, replacing by or reducing to children, merging, collapsing, fringe moving) never change, lose or duplicate text, and errors attached to nodes are not lost.',
  ['inputs', 'programs'], 'all trees x transformation tables x sequences of rearranging rules',
  'each rule is tested on one or two trees',
  [D+'transform.py', D+'nodetree.py'], [('traverse', 'DHParser/transform.py: traverse, traverse_locally, transformer'), ('rules', 'DHParser/transform.py: replace_by_single_child, reduce_single_child, flatten, collapse, merge_*, move_fringes, ...')])
p('P20', 'Errors attached to trees keep identity, order, location and severity',
  'Each error added to a tree is kept exactly once, is found again at its node and at its position, is listed in the order of positions, and the severity flag of the tree is the maximum of all errors. Line and column of each error are those of its position in the original document, within its bounds, and removing, copying, transferring or serializing trees keeps the bookkeeping consistent.',
  ['histories', 'inputs'], 'all sequences of error additions, transfers, copies and tree edits x documents with all kinds of linebreaks',
  'tests add one or two errors and look at them',
  [D+'nodetree.py', D+'error.py', D+'toolkit.py'], [('RootNode error book-keeping', 'DHParser/nodetree.py: RootNode.add_error, error_nodes, error_positions, transfer_errors, errors_sorted'), ('locations', 'DHParser/error.py: add_source_locations; DHParser/toolkit.py: line_col, linebreaks, text_pos')])
p('P21', 'String views behave like the substrings they stand for',
  'Every operation on a view of a substring, including views of views, gives the same result as the same operation on the corresponding ordinary string, and positions in regular-expression matches are relative to the view. Views never expose text outside their bounds and editing buffers apply every sequence of line/column edits exactly like the same edits on a plain string, keeping version and snapshot in step.',
  ['inputs', 'histories'], 'all strings x nested slices x operations with all argument ranges; all sequences of edits',
  'tests exercise one string with hand-picked offsets',
  [D+'stringview.py'], [('StringView', 'DHParser/stringview.py: StringView'), ('TextBuffer', 'DHParser/stringview.py: TextBuffer.update, text_edits, snapshot')])
p('P22', 'Preprocessing maps every position back to its true origin',
  'After any chain of preprocessors and nested or repeated file inclusions, each character of the processed text that stems from an input file is mapped back to exactly the file and offset it came from, so that reported error locations name the right file, line and column. Text outside of include instructions is passed through verbatim, includes inside comments are left alone, and circular inclusion is reported instead of looping.',
  ['inputs', 'configurations', 'histories'], 'all include graphs x file contents x preprocessors chained x positions',
  'tests use two or three files with one inclusion each',
  [D+'preprocess.py', D+'error.py'], [('source maps', 'DHParser/preprocess.py: SourceMap, source_map, tokenized_to_original_mapping'), ('includes', 'DHParser/preprocess.py: preprocess_includes, generate_include_map, gen_find_include_func'), ('chaining', 'DHParser/preprocess.py: chain_preprocessors')])
p('P23', 'The server answers every request exactly once with its own result',
  'For every stream of requests, however it is cut into chunks and whatever mix of plain, synchronous, thread- and process-executed, failing or unknown calls it contains, each request with an id receives exactly one well-formed response carrying its id and the result (or error) of precisely that call. Malformed requests yield error responses and do not affect the others, and uninitialized or shut-down language-server sessions refuse calls as the protocol demands.',
  ['schedules', 'inputs', 'fault_sequences'], 'all request streams x chunkings x completion orders x malformed messages',
  'tests send a few messages with a few chunk sizes',
  [D+'server.py'], [('connection handler', 'DHParser/server.py: Server.handle, handle_jsonrpc_request, handle_plaindata_request, Connection, ExecutionEnvironment'), ('stream proxies', 'DHParser/server.py: StreamReaderProxy, StreamWriterProxy')])
p('P24', 'Configuration values are validated, isolated and inherited as documented',
  'A configuration value set in one thread is visible there at once and nowhere else; presets are visible in every thread and process started afterwards and never overwrite what a thread has set itself. Invalid values are rejected and leave the old value in place, reading any value back gives what was written, and concurrent reading and setting never raises spurious errors.',
  ['schedules', 'histories', 'configurations'], 'all sequences of set, get, preset, and read operations x interleavings of threads x worker processes',
  'tests check single-threaded behaviour plus one spawned process',
  [D+'configuration.py'], [('thread-local values and presets', 'DHParser/configuration.py: get_config_value, set_config_value, access_presets, finalize_presets, validate_value, read_local_config')])
p('P25', 'Pipelines deliver every requested target once and unpolluted by other branches',
  'Running a pipeline of transformations from given source stages yields for each reachable requested target exactly the composition of the steps leading to it, each step being executed at most once and on its own copy whenever the input is needed elsewhere, irrespective of the order in which steps and targets are given. Errors of a stage are handed on to the stages derived from it, a fatal error stops the pipeline without an exception, and batch processing gives each file precisely the result it has when processed alone.',
  ['programs', 'schedules', 'fault_sequences'], 'all tree-shaped stage graphs x target sets x failing stages x parallel batch runs',
  'the tests use one linear pipeline with two branches',
  [D+'pipeline.py', D+'dsl.py'], [('run_pipeline, full_pipeline', 'DHParser/pipeline.py'), ('process_file, batch_process', 'DHParser/dsl.py')])
p('P26', 'Compilation visits the tree faithfully and turns failures into messages',
  'A compiler object calls for every node it compiles the handler for its name (or the documented fallback) exactly once with the true path, calls attribute handlers for exactly the attributes present, runs finalizers in order after compilation, and is fully reset before each run. Compiling any source through all phases never raises because of faulty input or because a later phase fails on a tree with earlier errors; instead all messages are returned sorted, with locations, and a fatal error stops later phases.',
  ['inputs', 'fault_sequences', 'histories'], 'all trees x handler sets x phases failing at any node x reuse histories',
  'tests define two or three compilers with fixed input',
  [D+'compile.py'], [('Compiler', 'DHParser/compile.py: Compiler.__call__, compile, fallback_compiler, finalize'), ('compile_source, process_tree', 'DHParser/compile.py')])
p('P27', 'Regenerating a parser script preserves everything the user edited',
  'Recompiling a changed grammar replaces only the generated parser part of an existing parser script; every other section survives verbatim, however often this is repeated. A grammar with errors leaves the existing script untouched, an unchanged grammar is recognised as up to date, a changed one as outdated, and the resulting script always runs and parses like the current grammar.',
  ['histories', 'inputs', 'crash_points'], 'all sequences of grammar edits, section edits, failing edits and recompilations',
  'one test recompiles once',
  [D+'dsl.py'], [('compile_on_disk, split_source, recompile_grammar, grammar_changed', 'DHParser/dsl.py')])
p('P28', 'The grammar-test framework gives true verdicts and loses no test',
  'Running a unit-test file against a grammar reports a failure for exactly those match-, fail-, AST- and CST-tests whose expectation is not met by the parser, independent of order and of other tests in the file. Test files are read back exactly as written, with every case, its text, its multi-line content and its stage, in both supported notations, and malformed files are rejected.',
  ['programs', 'inputs'], 'all test-suites (texts with quotes, indentation, linebreaks) x grammars',
  'the framework is tested with a few hand-written suites',
  [D+'testing.py'], [('unit_from_config, unit_to_config, normalize_code, merge_test_units', 'DHParser/testing.py'), ('grammar_unit', 'DHParser/testing.py')])
p('P29', 'JSON output of the toolkit is valid JSON denoting the same value',
  'Every JSON-like value, including ones with already serialized fragments, is rendered by the compact encoder and the request encoder into valid JSON that decodes to the same value, whatever characters its strings and keys contain. Bracket matching, identifier making, string wrapping and table expansion likewise keep the meaning of the data they process for every input.',
  ['inputs'], 'all JSON values, strings, bracket texts and tables',
  'doctests show one example each',
  [D+'toolkit.py'], [('json_dumps, json_rpc, pp_json, json_encode_string', 'DHParser/toolkit.py'), ('matching_brackets, wrap_str_literal, expand_table, as_identifier', 'DHParser/toolkit.py')])
p('P30', 'The bundled XML parser agrees with a reference XML parser',
  'For every well-formed document in the supported XML subset, the bundled XML parser accepts it and yields the element structure, attributes and character data an independent XML parser reports, and it rejects documents whose tags do not match. Whitespace-significant text, entities, CDATA, comments and processing instructions are neither lost nor invented.',
  ['inputs'], 'all well-formed documents of the subset and single-fault mutations of them',
  'tests parse a couple of sample documents',
  [D+'parsers/XMLParser.py'], [('XML grammar and AST/XML compiler', 'DHParser/parsers/XMLParser.py')])
p('P31', 'Transformation conditions and editing rules do exactly what they say',
  'A condition on a path (name, content, token, attribute, ancestor, descendant, sibling and leaf conditions, and their negations and combinations) holds for exactly the nodes of the tree its documentation describes, for the root and the leaves as for any other node, and never changes anything. Rules that remove, keep, strip, insert, rename or re-associate nodes, edit attributes or texts, or report errors, affect exactly the designated nodes, leave the rest of the tree, the kept nodes and all errors untouched, and conditional rules apply exactly if their condition holds.',
  ['inputs', 'programs'], 'all trees x nodes x conditions and rules with their arguments',
  'each condition and rule is tested with one or two trees, several with none',
  [D+'transform.py'], [('conditions', 'DHParser/transform.py: is_one_of, content_matches, has_ancestor, has_descendant, has_sibling, neg, any_of, three_valued'), ('editing rules', 'DHParser/transform.py: keep_children*, remove_*, strip, insert, delimit_children, pull_up, left_associative, apply_if, apply_ifelse')])
p('P32', 'Shared helpers: positions, paths, tables, caches, executors and logs are right',
  'Line and column are computed correctly for every position of every text and refused outside of it; a relative path leads from the first to the second path without detour, and splitting a path terminates and loses nothing; symbol tables are expanded completely and ambiguous names are refused; a circular path is reported exactly as it runs; completion lists contain exactly the matching entries; cached data is never stale, is found again by other processes, and damaged cache files are never fatal; a thread-local singleton is created exactly once per thread; every kind of executor runs all its tasks and yields their results or exceptions; log files receive exactly what was logged while logging was on, in the designated place, per thread.',
  ['inputs', 'histories', 'schedules'], 'all texts x positions; all pairs of paths; all tables; all histories of cache operations, threads and logging switches',
  'a handful of texts and one or two paths are tested; caches, completion lists, singletons and the state of logging hardly at all',
  [D+'toolkit.py', D+'lsp.py', D+'log.py'], [('positions, paths, tables, caches', 'DHParser/toolkit.py: line_col, relative_path, split_path, expand_table, cached_load'), ('executors and singletons', 'DHParser/toolkit.py: instantiate_executor, ThreadLocalSingletonFactory'), ('logs', 'DHParser/log.py: start_logging, suspend_logging, log_dir, local_log_dir'), ('completion', 'DHParser/lsp.py: shortlist, gen_lsp_table')])
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
ids = [x['id'] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
with open('properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
