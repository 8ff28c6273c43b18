"""Registry: chunk numbers, minima for the deciding monitors, evidence rules."""
CHECKS = {}


def c(pid, quick, thorough, minima, rule, technique, note, level='exploration', assumptions=(), **kw):
    CHECKS[pid] = dict(chunks={'quick': quick, 'thorough': thorough}, minima=minima, rule=rule,
                       technique=technique, note=note, level=level,
                       assumptions=list(assumptions), **kw)


c('P01', 16, 64, {'full parses compared': 3000, 'accepted by reference': 500, 'rejected by reference': 500,
                  'prefix parses compared': 1000, 'named nodes compared': 3000},
  'random EBNF grammars over all documented stateless operators x documents derived from the grammar, '
  'mutated or random; non-trivial: the document is accepted, or a non-empty prefix of it matches',
  'differential monitor: generated parser vs independent reference PEG interpreter',
  'each generated parser run is compared (acceptance, prefix, named-node structure and extents) with an '
  'independent interpreter; trusts the ~100 line interpreter and the standard regular expression engine')

c('P02', 16, 64, {'grammars': 300, 'accepted': 3000, 'rejected': 800, 'mutually recursive grammars': 100,
                  'parses with recursion nested 3 or deeper': 500},
  'random operator grammars (1-4 precedence levels, direct, indirect, grouped, postfix, mutual left recursion, '
  'embedded in contexts that re-parse at the same place) x derived/mutated expressions; non-trivial: an expression '
  'longer than one character is recognised',
  'differential monitor: left-recursive parser vs iterative precedence-climbing reference',
  'acceptance, matched prefix and complete named-node grouping are compared with an iterative reference evaluator '
  'that contains no recursion at the left')

c('P03', 16, 64, {'grammars': 500, 'accepted': 1500, 'rejected': 1000, 'final stacks compared': 2000,
                  'documents with sequence failed after a stack change': 300, 'documents with popped': 1000,
                  'documents with stack change inside lookahead': 100},
  'random grammars mixing captures, retrieves, pops and optional pops with choice, option, repetition and lookahead x '
  'derived and mutated documents; non-trivial: the reference changes a stack',
  'differential monitor: stateful parser vs purely functional reference',
  'acceptance, matched prefix, named structure and the values left on the stacks at the end are compared with a '
  'reference interpreter that passes immutable stacks')

c('P21', 8, 64, {'view operations compared': 100000, 'views of views': 10000, 'edits applied': 10000,
                 'buffer states compared': 40000},
  'random texts x nested views x operations with random (negative, out of range) arguments; random edit histories; '
  'non-trivial: distinct view/operation pairs and edited buffers',
  'differential monitor: string view vs str, text buffer vs edits on a plain string',
  'every operation of a view is compared with the same operation on the substring; line/column edits with edits on a '
  'plain string; regular expressions without anchors and lookbehind only, because matching sees the underlying text')

c('P29', 8, 48, {'encodings decoded again': 20000, 'bracket matchings compared': 5000, 'regex bracket matchings compared': 5000,
                 'literals wrapped': 5000, 'texts wrapped': 3000, 'tables compared': 5000, 'identifiers compared': 5000},
  'random JSON values (hostile keys and strings, serialized fragments, custom encoder) and random texts, brackets, regular '
  'expressions, literals, tables; non-trivial: distinct encodings, matched brackets, really wrapped texts',
  'round-trip monitor against the standard JSON decoder, the Python evaluator and independent scanners',
  'whatever the encoders emit is decoded by the standard library and compared with the value; multi-line strings, which '
  'pp_json deliberately renders as several strings, and NaN/Infinity are not JSON values')

c('P16', 8, 64, {'query results compared': 100000, 'text offsets located': 20000, 'child edits compared': 3000},
  'random trees (repeated names, empty leaves, single-child chains) x random queries (all kinds of criteria, include-root, '
  'reverse, skip) and navigation steps; non-trivial: distinct non-empty answers',
  'differential monitor: tree queries vs naive walk in document order',
  'each answer is compared by object identity with the answer of a naive recursive walk; child-editing methods with list '
  'operations')

c('P15', 8, 64, {'annotated XML documents': 1500, 'trees with errors read back': 400, 'round trips compared': 30000, 'S-expression variants': 4000, 'JSON variants': 3000, 'reflowed S-expressions': 100,
                 'XML documents parsed by ElementTree': 1500, 'XML documents parsed by parse_xml': 300, 'ElementTrees read back': 300},
  'random trees (quotation marks, brackets, blanks, line breaks, markup characters in texts and attributes; anonymous and '
  'namespaced names) x random rendering options; non-trivial: distinct renderings',
  'round-trip monitor: serializations read back by DHParser and by independent decoders (json, ElementTree, pickle)',
  'every rendering is read back and compared with the tree in names, structure, content, attributes and positions; XML is '
  'read by the standard library parser; control characters are excluded')

c('P17', 8, 64, {'mapping answers compared': 100000, 'mappings compared after edits': 2000},
  'random trees x selections (names, ancestors, predicates) x ignore criteria x all offsets; random histories of insertions '
  'and markups; non-trivial: distinct answers and edit histories',
  'differential monitor: content mapping vs naive flattening of the tree',
  'every offset, node and path of the mapping is compared with a naive walk; after each edit the mapping is compared with a '
  'naive flattening of the changed tree, by object identity')

c('P18', 8, 64, {'markups checked': 3000, 'markups that split elements': 300, 'splits checked': 800, 'milestones inserted': 800,
                 'full splits checked': 800, 'leaf markups checked': 300, 'chained fragments': 100, 'trees with positions checked': 1000},
  'random trees x ranges x divisibility tables, greedy or not, ignore criteria, chaining; splits and milestones at all '
  'places; non-trivial: distinct operations on non-empty ranges',
  'invariant monitor over the flattened tree before and after each operation',
  'each character keeps its chain of named elements (new elements removed), new elements cover exactly the range, only '
  'divisible elements are split, positions stay true; each element carries an identifying attribute')

c('P19', 8, 64, {'rule calls compared': 20000, 'traversals compared': 1500, 'tables with filters': 500, 'rules applied': 3000,
                 'results compared with reference': 1500, 'trees with errors': 1000, 'whole transformations': 300,
                 'operator chains turned': 300, 'errors looked up after a rule': 500},
  'random trees with attributes, positions and errors x random tables (names, lists, wildcards, before/after rules, filters, '
  'own key functions, used twice) and x every rearranging rule at random paths and in random tables; non-trivial: rules were called on '
  'branches',
  'trace monitor: logged rule calls vs a naive reference walk; conservation monitor and functional references for the rules',
  'calls (rule, path) are compared with a naive walk; text, errors, node uniqueness and positions are compared before and after '
  'each rule; results of the simple rules are compared with a functional definition of the documented effect')

c('P20', 8, 64, {'states checked': 10000, 'errors added': 5000, 'duplicates refused': 200, 'errors over the limit': 100, 'copies': 300,
                 'picklings': 300, 'transfers': 300, 'locations checked': 10000, 'errors found at their node': 5000,
                 'parsed documents with errors': 200},
  'random histories of adding (at nodes, by position, with limits, duplicates, before the tree is complete), copying, pickling, '
  'transferring and serializing errors of random multi-line trees with own source mappings; non-trivial: histories with errors',
  'reference-model monitor: list model of the errors of a tree checked after every operation',
  'error list, order, severity flag, node attachment and line/column are recomputed naively after every step of each history')

c('P04', 8, 64, {'grammars accepted': 1000, 'trees checked': 15000, 'erroneous documents': 5000, 'documents with several errors': 500,
                 'documents with a skip- or resume-node': 300, 'leaves compared': 30000, 'byte order marks': 300},
  'random grammars with mandatory items, skip-, resume- and error-rules, whitespace, comments, all reduction levels, hidden '
  'symbols x derived, mutated, concatenated and hostile documents x start symbols; non-trivial: distinct non-empty documents',
  'invariant monitor over every concrete syntax tree',
  'the text of each tree is compared with the document, each position with the running offset, each error position and line '
  'with the document')

c('P05', 8, 64, {'grammars accepted': 1000, 'documents compared': 10000, 'trees compared: none': 1000, 'trees compared: flatten': 1000,
                 'trees compared: merge_treetops': 1000, 'trees compared: merge': 1000, 'trees with dropped content': 1000,
                 'documents compared between levels': 5000, 'erroneous documents compared between levels': 2000},
  'random grammars x four reduction levels x hidden and dropped symbols and classes (in all notations) x documents; '
  'erroneous, left-recursive and stateful documents across levels; non-trivial: something is matched',
  'differential monitor: reduced tree vs projection of the reference match; metamorphic monitor across levels',
  'the expected tree of each level is computed from an unreduced reference match; the promises of each level are checked on '
  'the tree; errors must not depend on the level')
c('P06', 8, 64, {'parses with a used parser compared': 1500, 'runs canceled': 20, 'runs aborted by an exception': 20, 'trees modified': 40,
   'earlier results re-examined': 500, 'parses in concurrent threads': 500, 'thread switches observed between parses': 50,
   'processes with different hash seeds': 6, 'documents exceeding the recursion limit': 4},
  'random operation histories (parses of any symbol, tracing, cancellation, aborts, modified results) x grammars of all kinds; '
  'concurrent threads; processes with different hash seeds; non-trivial: there were operations before the judged parse',
  'differential history monitor: used parser object vs fresh parser object, in random operation histories, threads and processes',
  'the same class compiled separately and freshly instantiated for each call is the oracle; earlier results are re-examined')

c('P07', 16, 64, {'traced parses with a cancellation query': 2500, 'traced parses, one': 800, 'traced parses compared': 3000, 'history records examined': 30000, 'recorded matches compared': 8000,
                  'recorded symbol results verified': 500, 'parses with resume notices': 50, 'log files examined': 100},
  'random grammars (plain, with mandatory items and recovery rules, stateful, left-recursive) x documents x tracing of all '
  'parsers, of some, resume-notices, log files; non-trivial: a history was recorded',
  'differential monitor: traced vs untraced parse; offline checker over the recorded history',
  'tree and genuine errors of a traced parse are compared with those of an untraced parse by a fresh object; each history '
  'record is compared with the document, a sample is verified by re-running the symbol untraced at that place')

c('P08', 16, 64, {'objects used directly after a canceled run': 1000, 'parses canceled': 2000, 'compilations canceled': 1500, 'runs canceled: source': 300, 'runs canceled: pipeline': 100,
                  'runs canceled: full': 100, 'documents parsed after cancellation': 2000, 'runs after cancellation': 400,
                  'parses with a query that never turns true': 1000},
  'random grammars, trees and pipelines x queries that turn true at the k-th poll (sweep over k); non-trivial: the query '
  'returned true',
  'online monitor: counting cancellation query, step log; differential comparison of re-used objects',
  'polls and steps after the first true answer are counted, results must be marked; every further result of the same objects '
  'is compared with that of fresh objects; transformation tables (traverse()) take no cancellation query')

c('P09', 16, 64, {'documents': 10000, 'documents with violated mandatory items': 3000, 'documents with several violations': 300,
                  'skips or resumptions': 1500, 'custom messages': 500, 'documents free of errors': 1000, 'trees with recovery compared': 500,
                  'searches compared': 5000, 'matches inside comments passed over': 200, 'documents with violated recovery rules': 300},
  'random grammars with mandatory markers, error-, skip- and resume-directives (regular expressions, literals, parsers; comments) x '
  'derived and damaged documents; non-trivial: an error was found or something matched',
  'differential monitor: error catching parser vs reference interpreter with exceptions',
  'error positions, codes and messages, the places where parsing continues and the named nodes outside the skipped passages are '
  'compared with an independent interpreter; after an uncaught error on the first level nothing further is compared')

c('P10', 16, 64, {'parses measured': 3000, 'nested prefix-sharing parses': 1000, 'parses with loops over nullable elements': 500,
                  'scaling series free of errors': 100, 'scaling series rec': 20, 'random grammars, loop-free': 100, 'random grammars, with loops': 300,
                  'deeply nested documents': 60, 'recursion limit reported': 10},
  'nested alternatives with shared prefixes, repetitions of nullable elements, realistic grammars on documents of growing length '
  '(also with errors and recovery), random grammars, deeply nested documents; non-trivial: all',
  'online resource monitor: executed lines of the package (sys.monitoring) against bounds relative to grammar size and document length',
  'the run is stopped when the number of executed lines exceeds the bound: (K x subexpressions x length), squared in length where '
  'there are repetitions; documents repeated f times may cost 1.3 f times the lines')

c('P11', 16, 64, {'grammars': 300, 'documents compared: free of errors': 1000, 'documents compared: with errors': 1000, 'variants: heuristic': 100},
  'random grammars (also with marked lookaheads, symbols hidden, literal whitespace) printed in random notations (quotes, '
  'postfix, ranges, layout, comments, macros, minimal brackets, heuristic and configurable delimiters) and parsed; non-trivial: document not empty',
  'differential monitor: parser of a notational variant against the parser of the canonical, fully bracketed notation',
  'a document is compared by named nodes with content and positions and by all errors with code and position')
c('P12', 16, 64, {'grammars run in a fresh interpreter': 200, 'documents: fresh interpreter against memory': 1000, 'optimized grammars': 500,
                  'optimized grammars: changed by the optimization': 100, 'documents: optimized, free of errors': 800,
                  'bootstrapping, fixed: with errors': 100, 'bootstrapping, fixed: free of errors': 100,
                  'bootstrapping, heuristic: with errors': 100, 'bootstrapping, heuristic: free of errors': 50},
  'random grammars of all kinds; generated code executed in a fresh interpreter with another hash seed; optimization levels; valid and '
  'mutated grammar texts through built-in and bootstrapped EBNF parsers; non-trivial: document not empty',
  'differential monitor: generated against in-memory parser, optimized against plain, bootstrapped against built-in, code byte by byte',
  'complete trees with positions, attributes and errors are compared (optimized: language, named nodes and content)')
c('P13', 16, 64, {'kind: token soup': 500, 'kind: circular': 600, 'kind: mutated grammar': 1000, 'kind: directives': 500, 'kind: mistake': 500, 'grammars with errors reported': 1500,
                  'grammars accepted': 300, 'documents parsed with accepted grammars': 1000},
  'token soup, valid and published grammars with 1-3 tokens deleted, inserted, exchanged or characters mutated, directives with '
  'arbitrary values, 17 kinds of definite mistakes planted at random places, deep nesting; non-trivial: grammar not blank',
  'online monitor of exceptions, internal-failure error codes and non-termination while grammars are compiled and run; conformance '
  'monitor of the position of errors and of the mistakes that must be reported',
  'an AssertionError or other exception, a failure code (10100-10500) without a prior ordinary error, an error off the text, '
  'line/column that differ from the position, or a planted mistake that is accepted is a violation')
c('P22', 16, 64, {'positions: original text': 20000, 'positions: inserted text': 5000, 'errors located': 1000, 'errors of preprocessors': 300, 'circular includes': 300,
                  'grammars with includes: mistake': 100, 'grammars with includes: correct': 50, 'tokenized documents: correct': 200, 'tokenized documents: with an error': 100},
  'random trees of files in several folders with include instructions of four styles (adjacent, repeated, nested, in comments), followed '
  'by chains of tokenizing, deleting and inserting preprocessors; circular includes; grammars spread over files; token parsers; '
  'non-trivial: with includes or tokens',
  'conformance monitor: each position of the processed text against an independent expansion that carries the origin of every character',
  'text, file and offset of every position, and file, line and column of reported errors are compared with the reference expansion')
c('P14', 16, 64, {'documents: directly after compilation, accepted': 3000, 'documents: directly after compilation, rejected': 1500,
                  'documents: after compilation of other grammars, accepted': 500, 'remaining text: only whitespace': 200, 'remaining text: more than whitespace': 500,
                  'grammars compiled again': 400, 'grammars compiled concurrently': 100},
  'random grammars with all kinds of quotation marks under random combinations of the directives whitespace, comment, literalws, ignorecase and '
  'drop; documents derived with whitespace and comments, mutated; compilation interleaved and concurrent; non-trivial: a prefix matches',
  'conformance monitor: parser against a reference interpreter in which whitespace is written out; differential monitor of repeated compilation',
  'acceptance (complete and up to trailing whitespace), named nodes and their content without dropped parts are compared')
c('P24', 16, 64, {'deprecated names': 150, 'histories': 500, 'reads: own value': 3000, 'reads: inherited value': 5000, 'writes: valid': 1500, 'writes: invalid': 300,
                  'presets: set': 800, 'reads: while presets are being accessed': 200, 'configuration texts read': 300,
                  'configuration texts read: faulty': 150, 'configurations dumped': 200, 'stress: runs': 20, 'stress: writes': 1500, 'stress: reads': 1500,
                  'configuration files: sets of files read': 100, 'processes: fork': 10, 'processes: spawn': 10},
  'random histories of all operations in up to six threads that are stepped one after the other; free-running threads with delays injected '
  'into the configuration module; sets of configuration files in the four places; worker processes of all start methods, nested; '
  'non-trivial: more than ten steps',
  'conformance monitor: every value read against a reference model of presets and thread-local values; online monitor of exceptions',
  'each read of a value must yield what the thread has set or a preset valid since its start; invalid values must be rejected without effect')
c('P26', 16, 64, {'compiler runs': 5000, 'compiler runs: failing': 800, 'compiler runs: reused': 3000, 'nodes compiled': 15000, 'attributes visited': 1500,
                  'finalizers': 3000, 'sources processed': 800, 'sources processed: with errors': 1000, 'crashes after errors: compilation': 150,
                  'crashes after errors: transformation': 150, 'crashes without errors': 200, 'later phases not run': 500, 'messages located': 3000},
  'random trees with unusual names and attributes through compiler classes with random handlers, wildcards, attribute visitors, nested '
  'finalizers and failures, each object being used several times; correct and faulty sources through four phases that add messages of all '
  'levels, damage the tree and fail at random nodes in different ways; non-trivial: tree with children',
  'conformance monitor: log of all handler calls (node, path, tree) and the resulting tree against a reference traversal; messages, '
  'phases and exceptions against those that were planted',
  'calls, their order, paths and results are compared step by step; each planted message must be returned once, sorted and located')
c('P25', 16, 64, {'connections': 20000, 'pipelines run': 2000, 'pipelines run: stopped': 300, 'pipelines run: failing': 100, 'steps executed': 8000, 'targets compared': 6000,
                  'errors compared': 2000, 'unknown targets rejected': 200, 'documents': 500, 'documents: fatal': 30, 'files in batches': 150,
                  'batches: multicore': 5, 'batches: multithreading': 3, 'batches: submit-threads': 5, 'outputs of different kinds': 300},
  'random tree-shaped graphs of up to eight stages with steps that change the tree, add messages of all levels, fail or deliver data, given in '
  'random order, with one or several given stages and random targets; documents through a grammar and its stages; files processed alone and in '
  'batches by threads and processes; non-trivial: more than one junction or file',
  'conformance monitor: each delivered target, its messages and the log of executed steps against a composition computed from scratch; '
  'differential monitor: files of a batch against files processed alone',
  'each target must equal the composition of its steps, no step may run twice or after a fatal error, files are compared byte by byte')
c('P27', 16, 64, {'histories': 100, 'recompilations: taken place': 300, 'scripts compared section by section': 300, 'write faults': 25, 'scripts called': 40, 'sections edited': 90, 'status queries: unchanged': 300, 'status queries: changed': 80},
  'random histories of editing, breaking and restoring a grammar (also by included files), editing or blanking sections of the script, '
  'deleting and damaging it, full disks, and recompiling in all ways offered; non-trivial: recompilation takes place',
  'conformance monitor: each section of the script on disk against a model of what was written by the user or is generated from scratch',
  'scripts are compared character by character after each step; their parsers are compared with the current grammar')
c('P30', 32, 128, {'documents: well-formed': 4000, 'events compared': 30000, 'whitespace removed: strictly comparable': 4000, 'documents serialized': 2000, 'mismatching tags: name': 150, 'mutated documents: not well-formed': 1200},
  'random documents with declarations, document types, comments, processing instructions, CDATA, references, unusual names, nested up to '
  '40 levels; one tag changed, dropped or added; one character changed; non-trivial: more than one empty element',
  'differential monitor: events of the expat parser against those derived from the tree',
  'elements, attributes, text, comments, processing instructions and declarations are compared in order; mismatching tags must be reported')
c('P28', 48, 240, {'suites: dictionary': 200, 'suites: config': 100, 'suites: json': 100, 'cases read back': 10000, 'verdicts: success': 3000, 'verdicts: failure of match-test': 500, 'verdicts: failure of fail-test': 70, 'verdicts: failure of AST-test sxpr': 70, 'malformed files: duplicate': 50},
  'random test-suites (match-, fail-, AST-, CST- and value-tests with right and wrong expectations, as dictionary, config-file or JSON-file) for '
  'three written and random grammars; files with quotes, indentation, blank lines, comments; malformed files; non-trivial: a failing test or a non-empty text',
  'conformance monitor: verdict per test against a plain parse by a fresh parser; files compared with what was written into them',
  'each test of each suite is judged; symbols with lookaheads are judged only where a plain parse is free of errors')
c('P23', 48, 240, {'requests': 6000, 'plain requests': 500, 'malformed messages': 400, 'sessions with worker processes': 30, 'sessions: pipes': 25, 'messages: result: in_thread': 300, 'messages: refused: echo': 80},
  'random streams of 1-30 JSON-RPC and plain messages (positional and named parameters, integer and string ids, notifications, malformed messages, '
  'LSP-calls in any order) to synchronous, asynchronous, thread- and process-executed, failing, dying and unknown functions, cut into chunks in seven ways, '
  'over asyncio-streams and pipes, with end of stream; non-trivial: several messages under way at the same time',
  'conformance monitor: offline checker over the recorded output (each id exactly once, own result) and a model of the session states',
  'the server counts as idle when no task of the event loop is left; only then a missing response is a violation; worker processes occur in one of eight sessions')

c('P31', 8, 48, {'conditions judged': 50000, 'conditions true': 5000, 'results compared': 8000, 'meta rules judged': 2000, 'error rules judged': 500,
                 'positions of inserted nodes': 500},
  'random trees x conditions (nested, with generations, in both ways of passing sets) and editing rules with random arguments; non-trivial: '
  'conditions that hold, rules that change the tree',
  'differential monitor: conditions and editing rules vs naive definitions on plain tuples',
  'each condition is evaluated on every path of the tree; each rule is compared with the same edit of nested tuples and must leave the rest of the '
  'tree, the identity of kept nodes and all errors alone')
c('P32', 32, 240, {'positions located': 30000, 'relative paths': 8000, 'paths split': 30000, 'tables expanded': 2000, 'circular paths': 2000,
                   'completions': 2000, 'cached loads': 400, 'cache hits': 120, 'damaged caches': 100, 'caches used by other processes': 5,
                   'thread-local singletons': 1000, 'tasks executed': 700, 'steps with logs': 1500},
  'random texts x positions; random pairs of paths; random tables, circular paths and completion lists; histories of cache operations (with damage '
  'and other processes); threads creating singletons; tasks in all executors; histories of logging switches; non-trivial: several lines, different paths, ...',
  'reference comparison, state-machine model and invariant monitors over recorded histories',
  'naive definitions for the pure helpers; a model of the cache and of the set of log files (content, place) is compared after every step')
