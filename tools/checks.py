"""Registry of the checks: which harness decides which property, and how far."""

CHECKS = {}

# every workload that touches the core, for the checks of memory and of leaks
CORE = [('seq', 'seq_share,seq_types,seq_maps,seq_reject', 4000), ('seq', 'seq_long,seq_huge,seq_drain,seq_bulk,seq_bigmap', 300), ('viewlists', None, 1200), ('compare', None, 1500), ('views', None, 1500),
        ('arith', None, 4000), ('unary', None, 4000), ('casts', None, 800), ('reduce', None, 4000), ('move', None, 4000), ('dft', None, 2000), ('poly', None, 3000),
        ('json', None, 4000), ('stream', None, 3000), ('strings', None, 5000), ('regex', None, 3000), ('ranges', None, 4000), ('print', None, 3000),
        ('functor', None, 3000), ('ind', None, 1500), ('config', None, 2000), ('txtini', None, 1500), ('xml', None, 1500), ('ged', None, 800), ('snd', None, 1200),
        ('graph', None, 1200), ('corrupt', None, 2000)]
COREMODS = ['txt', 'ini', 'xml', 'ged', 'snd', 'graph']


def core(keys):
    return [(h, o, q, 25 * q, keys) for h, o, q in CORE]


def c(pid, runs, rule, modules=(), need=(), assumptions=(), env=None, keys=None, technique=None, note=None, uar=False, memcheck=None, thread=None, fallback=False):
    CHECKS[pid] = dict(runs=runs, rule=rule, modules=list(modules), need=list(need), assumptions=list(assumptions),
                       env=env or {}, keys=keys, technique=technique, note=note, uar=uar, memcheck=memcheck, thread=thread, fallback=fallback)


c('C35', [('functor', None, 40000, 1500000)],
  'random unary, binary, arithmetic, n-ary and dimensionless functors, with or without offsets, their own allocation, inner functors and exceptions, on operands of '
  'every numeric type, as arrays and guarded views of up to four dimensions, allocated, explicit and in-place outputs, some unfit; a case is distinct by '
  'kind, types, mode and shapes', need=['blocks', 'binary_blocks', 'arith_blocks', 'nary_blocks', 'elements', 'composed', 'allocated', 'in_place', 'into_output', 'functor_threw', 'generators', 'rejected'],
  technique='runtime monitor: recorded calls and outputs checked against the blocks they should cover, under ASan/UBSan')

c('C36', [('ind', None, 16000, 400000)],
  'random index values (boundary values of every width included) and random searched arrays and maps; '
  'a case is distinct by the value or by the searched contents',
  need=['found', 'absent', 'indices'],
  technique='runtime monitor: integer reference model over index operations and searches, under ASan/UBSan')

SEQ = ('random programs of value operations run beside a reference model of the values; every variable, alias and element is '
       'compared after every step; a case is distinct by its sequence of states')
SEQT = 'runtime monitor: stateful reference model of values beside the real library, under ASan/UBSan'
c('C01', [('programs', 'program_mixed', 8000, 250000, '^crash'), ('programs', 'program_reject', 2000, 60000, '^crash')] + core('^crash'),
  'random programs of 15 to 60 calls drawn from the whole interface over six shared variables and their elements (assignment, sharing, sequence and map operations, views, '
  'sorting, comparison, strings, regular expressions, printing and reading, arithmetic, functions, reductions, transposition, concatenation), in and out of the '
  'domain of the call; then every other core workload, with use-after-return detection; a program is distinct by its set of operations and operand kinds',
  need=['programs', 'steps', 'maths_steps', 'rejected', 'values_read', 'blocks', 'states_compared'], uar=True, memcheck=(160, 8000), modules=COREMODS,
  assumptions=['no cycles; views go before their array is shortened; integers stay clear of overflow and division by zero; no stale element references'],
  technique='runtime monitor: AddressSanitizer (use after return included), UndefinedBehaviorSanitizer, C++ library assertions and numeric-library range checks over generated programs')

c('C02', [('seq', 'seq_life', 14000, 300000), ('seq', 'seq_bulk', 800, 40000), ('programs', 'program_mixed', 2500, 80000, '^(leak|crash)')] + core('^(leak|crash)'), SEQ + '; then every other core workload, each case run twice for its allocation balance', need=['releases_seen', 'states_compared', 'balance_checks', 'programs'], modules=COREMODS,
  technique='runtime monitor: allocation balance and release of each storage block against model reachability, under ASan/LSan')
c('C03', [('seq', 'seq_share', 14000, 300000), ('views', 'view_programs', 3000, 80000)], SEQ + '; then programs of views, their copies and the arrays beneath', need=['states_compared', 'steps', 'view_elements'], technique=SEQT)
c('C04', [('seq', 'seq_seq', 14000, 300000), ('seq', 'seq_long', 600, 12000), ('seq', 'seq_huge', 250, 8000), ('seq', 'seq_drain', 160, 6000), ('viewlists', 'viewlist_seq', 3000, 60000)], SEQ, need=['states_compared', 'long_arrays', 'huge_arrays', 'inserts', 'removes', 'views_compared'], technique=SEQT)
c('C05', [('seq', 'seq_types', 14000, 300000), ('casts', None, 20000, 600000)], SEQ + '; then the casting functors over scalars, arrays, lists, maps and views of them, '
  'out of place, into an output and in place', need=['states_compared', 'rejected', 'arrays_cast', 'cast_into', 'cast_inplace', 'lists_cast', 'maps_cast', 'scalars_cast'], technique=SEQT)
c('C06', [('seq', 'seq_maps', 14000, 300000), ('seq', 'seq_bigmap', 600, 12000), ('viewlists', 'viewlist_map', 3000, 60000)], SEQ, need=['keys_found', 'keys_absent', 'big_maps', 'map_inserts', 'map_views_compared'], technique=SEQT)
c('C30', [('seq', 'seq_reject', 12000, 300000), ('programs', 'program_reject', 6000, 200000)], SEQ, need=['rejected', 'states_compared', 'rejections_compared'], technique=SEQT)

c('C07', [('compare', None, 10000, 400000)],
  'random quadruples of near-equal values of every kind reached directly, as elements, map values, copies and views; random arrays to sort and '
  'search; a case is distinct by its values', need=['equal_pairs', 'unequal_pairs', 'views_compared', 'sorted', 'sorted_rows', 'index_absent', 'ordered_keys'],
  technique='runtime monitor: reference order over recorded comparison results plus order laws, under ASan/UBSan')

c('C08', [('views', None, 8000, 250000), ('viewlists', 'viewlist_window', 3000, 60000)],
  'random programs creating, moving, nesting, writing, copying and releasing views of arrays of every numeric type; every element of every array and '
  'view is read back in every way after every step and compared with an address model; then windows over arrays of anything, through which elements are taken, set, '
  'extended and compared; a case is distinct by array, shape and offset',
  need=['view_elements', 'view_assignments', 'orphaned', 'other_assignments', 'growth', 'subviews', 'moves', 'unfit', 'writes', 'windows_compared', 'dereferenced', 'element_set', 'nested_push'],
  technique='runtime monitor: address model of views beside the real views, under ASan/UBSan and numeric-library range checks')

NUM = 'numeric-library range checks'
c('C09', [('arith', None, 50000, 1500000)],
  'random operator, form (scalar, element, array, guarded view), element type, shape and right operand, out of place, in place or into an output; '
  'a case is distinct by operator, mode, forms, types and shapes',
  need=['out_of_place', 'in_place', 'into_output', 'broadcast', 'shape_mismatch', 'rejected', 'negated', 'var_arrays'],
  technique='runtime monitor: elementwise reference of results, operands and guard elements, under ASan/UBSan and ' + NUM)

c('C10', [('unary', None, 80000, 3000000)],
  'random function, form, element type and shape, out of place, into an output or in place, plus special values and nested arrays; a case is distinct '
  'by function, mode, form, type and shape', need=['out_of_place', 'in_place', 'into_output', 'rejected', 'special_values', 'nested', 'maps'],
  technique='runtime monitor: elementwise reference of results, inputs and guard elements, under ASan/UBSan')
c('C11', [('reduce', None, 80000, 3000000)],
  'random reduction or product (sum, asum, iamax, dot, matrix product), element types, shapes, forms (arrays, strided views), matching or not, out of '
  'place or into an output; a case is distinct by function, types, shapes and forms',
  need=['wrong_output', 'sum', 'asum', 'iamax', 'dot', 'gemm', 'into_output', 'matrix_blocks', 'rows', 'rejected'],
  technique='runtime monitor: extended-precision reference of results, inputs and guard elements, BLAS range monitor, under ASan/UBSan')
c('C12', [('move', None, 80000, 3000000)],
  'random transpose, concatenation, swap, set or view assignment with operand types, shapes and forms, matching or not; a case is distinct by operation, '
  'types, shapes and forms', need=['transposed', 'in_place', 'stacks_in_place', 'concatenated', 'swapped', 'set', 'view_assigned', 'into_output', 'rows', 'rejected'],
  technique='runtime monitor: bit-exact index model of results, operands and guard elements, BLAS/MKL range monitor, under ASan/UBSan')
c('C13', [('dft', None, 20000, 500000)],
  'random length, element type, rows, form; forward and inverse, reused transform objects, wrong types, lengths and outputs; a case is distinct by '
  'direction, type, form and shape', need=['forward', 'inverse', 'round_trip', 'reused', 'rows', 'into_output', 'rejected'],
  technique='runtime monitor: extended-precision reference transform of results, inputs and guard elements, DFTI range monitor, under ASan/UBSan')
c('C14', [('poly', None, 60000, 2500000)],
  'random roots or coefficients on rows of arrays of every type, random matrices; a case is distinct by operation, type, form and shape',
  need=['expanded', 'roots', 'eigenvalues', 'complex_eigenvalues', 'eigenvectors', 'rows', 'into_output', 'rejected'],
  technique='runtime monitor: expansion and power-sum reference of results, inputs and guard elements, LAPACK range monitor, under ASan/UBSan')
c('C15', [('json', 'json_roundtrip', 40000, 1500000)],
  'random nested values of nil, numbers, strings, arrays and maps, printed at a random precision and read back, once or twice, through string streams and '
  'variable streams; a case is distinct by its value and precision', need=['round_trips', 'deep'],
  technique='runtime monitor: model of the value a text denotes against what is read back, under ASan/UBSan')
c('C16', [('json', 'jsonread*', 40000, 1500000)],
  'random valid documents (layouts, escapes, nesting), alone or in sequence, documents cut at a random place, mutated and random bytes; a case is distinct '
  'by its bytes', need=['documents', 'consecutive', 'adjacent', 'deep', 'unicode_escapes', 'cut_short', 'garbage_rejected', 'garbage_accepted', 'bottomless'],
  technique='runtime monitor: value generated with each document against what is read, rejection and survival of the rest, under ASan/UBSan and a hang watchdog')
c('C17', [('stream', None, 40000, 1500000)],
  'random programs of formatted and unformatted writes and reads, seeks, ungets, end of file and growth of the variable itself; a case is distinct by its '
  'program', need=['programs', 'writes', 'reads', 'seeks', 'ungets', 'drained', 'end_of_file', 'outside_growth', 'bytes'],
  technique='runtime monitor: standard string stream in lock step, state, content and every value read compared after each operation, under ASan/UBSan')
c('C18', [('strings', 'split_*,join_*', 40000, 1500000)],
  'random strings, separators that occur, overlap or abut in them, limits, white space of every kind, subjects that are elements or map values; a case is '
  'distinct by string, separator and limit', need=['splits', 'pieces', 'limited', 'words', 'joins', 'rejected'],
  technique='runtime monitor: pieces and joined strings of the real code against a reference splitter, inputs re-read afterwards, under ASan/UBSan')
c('C19', [('strings', 'text_*', 60000, 2000000)],
  'random byte strings (all values, any length), nested arrays and maps of them, in and out of place; well-formed and structurally broken UTF-8; streams of '
  'lines of lengths around the growth points of the buffer; a case is distinct by its operation and text',
  need=['out_of_place', 'in_place', 'nested', 'rejected', 'lengths', 'malformed', 'lines', 'no_final_newline'],
  assumptions=['overlong encodings, surrogates and code points beyond U+10FFFF are not used as length inputs'],
  technique='runtime monitor: result and input strings byte for byte against a reference, under ASan/UBSan')
c('C20', [('regex', None, 40000, 1200000)],
  'random expressions (literals, classes, groups, alternation, greedy and lazy repeats, anchors, look-ahead, back references) on random subjects and on '
  'subjects derived from the expression; formats of group references; reused objects on single strings, arrays, maps and nested arrays; invalid '
  'expressions; a case is distinct by expression, subject and format',
  need=['finds', 'found', 'groups', 'absent', 'replaced', 'substituted', 'reused', 'nested', 'rejected'],
  assumptions=['no newlines or NULs; no lazy repeats with an upper bound or around groups (Boost.Regex itself deviates there)'],
  technique='runtime monitor: groups and replaced text against an independent backtracking matcher, subjects re-read afterwards, under ASan/UBSan')
c('C21', [('txtini', None, 20000, 500000)],
  'random text files (any bytes, line lengths around the buffer growth points, with and without final newline) and INI files (sections, both separators, '
  'comments, blanks, reassignment, odd names), malformed lines and missing files; arrays written; a case is distinct by file content', modules=['txt', 'ini'],
  need=['disk_full', 'lines', 'no_final_newline', 'sections', 'comments', 'settings', 'reassigned', 'malformed', 'missing', 'written', 'unwritable'],
  technique='runtime monitor: lines and settings read by the real modules against a reference reader, open files counted, under ASan/UBSan')
c('C22', [('xml', None, 14000, 300000)],
  'random element trees (UTF-8 names, attributes, text, entities and character references, white space in every allowed place, deep nesting) as documents '
  'and as values to be written, sequences of loads and edits of several trees, twenty kinds of malformed document; a case is distinct by its document',
  modules=['xml'], need=['disk_full', 'documents', 'elements', 'attributes', 'round_trips', 'written', 'write_rejected', 'kept_apart', 'malformed'],
  assumptions=['no comments, processing instructions, CDATA or DOCTYPE (not supported); nesting up to 400'],
  technique='runtime monitor: trees loaded by the real module against the generated tree, before and after writing, under ASan/UBSan')
c('C23', [('ged', None, 6000, 150000)],
  'random GEDCOM files: individuals and families in any order with any cross reference names, dangling references, repeated children, events, notes, '
  'continuations, unknown records and nested sub-records whose tags look like those of records; several loads by the same and other instances, failed '
  'loads between them; a case is distinct by file content', modules=['ged'],
  need=['individuals', 'families', 'children', 'other_records', 'kept_apart', 'rejected'],
  assumptions=['lines end in a newline alone, as the reader expects, and have a level number'],
  technique='runtime monitor: records and links loaded by the real module against the generated file, earlier results re-read after every load, under ASan/UBSan')
c('C24', [('snd', None, 10000, 250000)],
  'random samples of 1 to 12 channels as vectors, matrices, or views at an offset, any sample rate, written, inspected, read, and written again; WAV files '
  'composed by the harness, of no frames too; unreadable and unwritable files and unsuitable data; a case is distinct by its shape, rate and samples',
  modules=['snd'], need=['disk_full', 'round_trips', 'samples', 'multichannel', 'views', 'rewritten', 'files', 'empty_files', 'rejected'],
  technique='runtime monitor: file bytes parsed by a WAV reader of our own and samples read back by the real module, buffer ranges given to libsndfile '
  'checked against the shadow memory, open files counted, under ASan/UBSan')
c('C29', [('corrupt', None, 16000, 800000)],
  'valid files of every format cut short, spliced, repeated, bit-flipped and sprinkled with tokens that mean something to their reader, random bytes, deep '
  'and long runs of tokens; then a good file read by the same instance; a case is distinct by format and content',
  modules=['txt', 'ini', 'xml', 'ged', 'snd'], need=['txt', 'ini', 'xml', 'ged', 'snd', 'json', 'values', 'exceptions', 'recovered'],
  technique='runtime monitor: real readers on mutated files under ASan/UBSan with shadow-checked libsndfile buffers, allocator balance, open files and CPU '
  'time per read; values printed, copied and compared')
c('C25', [('config', None, 40000, 1000000)],
  'random option declarations and command lines (clusters, attached and separate arguments, repeats, permuted arguments, "--"), through parse() and as a '
  'getopt loop, abandoned loops before; random histories of configuration objects: sections, sets, files, malformed files and typed lookups; a case is '
  'distinct by its specification and command line or history', modules=['ini'],
  need=['parsed', 'options', 'arguments', 'repeated', 'defaults', 'looped', 'abandoned', 'undeclared', 'without_argument', 'helps', 'sets', 'files', 'bad_files', 'lookups', 'unset', 'sections_verified'],
  assumptions=['no undeclared options or missing option arguments in parse(), for which it ends the process by design'],
  technique='runtime monitor: options, arguments and configuration lookups of the real code against a reference model over whole histories, under ASan/UBSan')
c('C26', [('path', None, 5000, 120000)],
  'random directory trees (files, directories, links of all kinds, pipes; any bytes in the names, up to 255 of them; empty, wide and deep directories), listed '
  'by absolute, relative and default path, repeatedly; missing paths, plain files, unreadable directories; a case is distinct by its tree',
  modules=['path'], need=['dir', 'rdir', 'tree', 'entries', 'details', 'links', 'current', 'file', 'missing', 'appeared'],
  assumptions=['paths shorter than the system\'s limit; the unreadable directory needs seteuid() and is left out without it'],
  technique='runtime monitor: listings by the real module against the tree put on disk, disk state and open files before and after, under ASan/UBSan')
c('C27', [('graph', None, 8000, 200000)],
  'random histories of vertex and edge additions (parallel edges, self loops, edges to vertices not there yet) over one to four graphs of two modules, up to '
  '3000 operations, written part way and at the end to files used before; negative vertices and unwritable files; a case is distinct by its history',
  modules=['graph'], need=['disk_full', 'writes', 'vertices', 'edges', 'parallel', 'loops', 'implied', 'written_between', 'negative', 'unwritable'],
  technique='runtime monitor: the written file parsed by a graphviz reader of our own and compared with a model of the history, under ASan/UBSan')
c('C28', [('module', None, 12000, 300000)],
  'random histories of loads, instance creations with random arguments, uses, throwing factories and unloads in any order over two probe modules that report '
  'their instances; files that are no libraries, libraries without a factory or whose factory makes nothing; the real text, INI and path modules loaded '
  'several times; a case is distinct by its history', modules=['probe1', 'probe2', 'probe3', 'probe4', 'txt', 'ini', 'path'],
  need=['loads', 'instances', 'uses', 'unloads', 'several_loaders', 'factory_throws', 'no_library', 'no_factory', 'no_instance', 'recovered', 'wrong_kind', 'real'],
  assumptions=['loaders are not copied; no truncated library whose header is intact (the dynamic linker itself dies on those)'],
  technique='runtime monitor: constructions and destructions reported by probe modules, objects loaded according to the dynamic linker, open files, '
  'allocator balance, under ASan/UBSan')
c('C31', [('gnuplot', None, 1200, 40000)],
  'random scripts of commands (any bytes but newlines, up to 70 kB), scalars, vectors of up to 20000, views at an offset and matrices of four types, over several '
  'writes with and without file names to one or two plotting processes that may start or read slowly, unsupported data between them; a case is distinct by its scripts',
  modules=['gnuplot'], need=['sessions', 'commands', 'vectors', 'views', 'matrices', 'named', 'slow', 'unsupported', 'lines'],
  assumptions=['gnuplot is a stand-in on the PATH that keeps what it receives; blank lines in a matrix are not judged (gnuplot ignores them)'],
  technique='runtime monitor: bytes received by a stand-in gnuplot once the module has gone, against the script, processes and files left open, under ASan/UBSan')
c('C32', [('curl', None, 800, 20000)],
  'random bodies (any bytes, sizes around buffer boundaries, up to 200 kB) from file URLs and from a loopback HTTP server that delivers them by length, chunked or '
  'until it closes, in up to 60 pieces with random delays, over several instances; deliveries cut short or reset, refused connections, bad URLs; a case is '
  'distinct by its transfers', modules=['curl'],
  need=['files', 'http', 'chunked', 'cut', 'unfetchable', 'bytes', 'other_status'],
  assumptions=['an HTTP status other than 200 is not an error to the library: its body is returned'],
  technique='runtime monitor: strings returned by the real module against the bytes a loopback server and files hold, allocator balance and open files, under ASan/UBSan')
c('C33', [('ranges', None, 60000, 2000000)],
  'ranges of five types with random bounds, steps and forms, bounds given as values or as array elements; fill and shape constructors of every type; strings, '
  'integer, complex and argument vector buffers overwritten and freed afterwards; initialiser lists of every type and of any values, lists of lists and the comma '
  'operator; a case is distinct by its arguments',
  need=['ranges', 'iranges', 'empty_ranges', 'endless', 'fills', 'shapes', 'strings', 'buffers', 'argument_vectors', 'lists', 'commas', 'rejections'],
  assumptions=['integer ranges stay clear of the limits of the type (the sum beyond them overflows); characters count as unsigned; lists beginning with a number hold that type'],
  technique='runtime monitor: content, type and shape of every constructed variable against plain C++ arithmetic, buffers freed before the result is read, under ASan/UBSan')
c('C34', [('print', None, 80000, 2500000)],
  'random values of every type and nesting: scalars, strings with any bytes, arrays, maps, vectors and tensors of up to five dimensions at an offset, nested up to '
  '60 deep, built in several ways, printed to streams of random precision and format, to a variable, and by element; a case is distinct by the expected text and format',
  need=['prints', 'tensors', 'matrices', 'maps', 'nested', 'strings', 'arrays', 'rebuilt', 'varstreams', 'element_prints'],
  assumptions=['no field width; views are of numbers or characters'],
  technique='runtime monitor: text printed by the real code against a reference printer, value and stream state before and after, under ASan/UBSan')
c('C37', [('threads', None, 600, 15000)],
  'two to four threads, each running a random program of up to eight workloads (strings, regular expressions, sequences, maps, JSON, arithmetic, mathematics, conversions, '
  'transforms, polynomials, user functors, streams, constructors, exceptions) over values of its own, the same program on the same or on other values or different ones; '
  'each program is then run alone and the results compared; a case is distinct by its programs', need=['threads', 'bytes_compared'] + ['op%d' % k for k in range(14)] + ['throwing'],
  thread=[('threads', None, 400, 8000)],
  assumptions=['the numerical library is not instrumented: its accesses are not seen by the race detector, only its results are'],
  technique='race detector (ThreadSanitizer) over threads with separate variables, and results against the same program run alone, under TSan and under ASan/UBSan')
c('C38', [('errors', None, 6000, 120000)],
  'a pool of errors made of strings, numbers, arrays and stream contents, thrown from up to 200 calls down and in other threads, copied, assigned, kept in lists and exception pointers, '
  'nested in each other\'s unwinding, dropped in any order, their what() read after every step; timers overlapping, ended in any order and by unwinding, what they print caught; '
  'a case is distinct by its history', need=['made', 'copied', 'assigned', 'dropped', 'thrown', 'deep', 'other_thread', 'nested', 'kept', 'lists', 'looks', 'library', 'timers', 'long', 'unwound'],
  assumptions=['the stack trace after the first line is not judged; default number formatting on std::cout'],
  technique='runtime monitor: what() of every error alive against what it was made of after every step; timer output against times taken around its life; under ASan/UBSan')
c('C39', [('dft', None, 6000, 200000), ('move', 'move_transpose', 16000, 400000)],
  'the library built as it is where there is no MKL, over a stand-in for KissFFT: forward and inverse transforms of random arrays, reused and copied functors, misfits; '
  'transposes out of place, into outputs and in place; threads with transforms of their own; a case is distinct by operation, type and shape',
  need=['forward', 'inverse', 'round_trip', 'reused', 'rows', 'into_output', 'rejected', 'transposed', 'in_place', 'stacks_in_place', 'threads'],
  fallback=True, thread=[('dft', 'dft_threads', 300, 8000)],
  assumptions=['KissFFT is not on this machine: a stand-in with its interface and restrictions (no real transforms of odd length) takes its place'],
  technique='runtime monitor: every element against reference transforms and transposes, on the other build configuration, under ASan/UBSan, and under ThreadSanitizer')

c('C40', [('nomem', None, 6000, 200000)],
  'a random operation of about a hundred (copies, insertions, conversions, functors, views, text, streams, regular expressions, files, modules) on random operands, repeated '
  'with its first, second, third... allocation failing until there are none left; a case is distinct by operation and operands',
  modules=['txt', 'ini', 'xml', 'ged', 'graph'], need=['ran_out', 'completed', 'retried', 'results', 'stored'],
  assumptions=['only operator new fails; malloc() within other libraries does not'],
  technique='fault injection at every allocation under ASan/UBSan; operands, results, storage and files compared afterwards')

c('C41', [('cost', None, 1200, 60000)],
  'a random operation of about sixty on operands of two sizes, 32 times apart, the storage allocated counted; maps of two sizes, a hundred times apart, the processor '
  'time of looking keys up measured; a case is distinct by operation and size',
  modules=['txt', 'ini', 'xml'], need=['compared', 'grown', 'looked_up'],
  assumptions=['what is allocated with operator new is counted; time is that of the processor, the least of three runs'],
  technique='runtime monitor: allocation counters and processor time compared between sizes, under ASan/UBSan')


c('C42', [('locale', None, 8000, 300000)],
  'a random operation on random values, done under the usual locale and again under one of the program with another decimal point, grouping and names; a case is distinct by '
  'operation and result',
  modules=['txt', 'ini', 'xml', 'ged', 'graph'], need=['compared', 'results'],
  assumptions=['the other locale is a numpunct facet of the harness, installed with std::locale::global; no system locale is needed'],
  technique='runtime monitor: differential oracle, the same operation under two global locales, under ASan/UBSan')