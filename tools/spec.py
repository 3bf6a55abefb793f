#!/usr/bin/env python3
"""Single source for properties.jsonl (and, through mkmanifest.py, MANIFEST.json)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "API programs are free of memory errors and undefined behaviour",
  "Any program that uses the public interface within its preconditions (indices given to at() in range, no cyclic structures, raw pointers not pointing into the array being changed, shapes that fit) never makes the library read or write outside live storage, use freed or uninitialised storage, hand a numerical library a range it does not own, or execute undefined behaviour. This holds whether the calls succeed or are rejected with an exception, and whatever mixture of scalars, strings, dense arrays, nested arrays, maps, views, streams and functors the program uses.",
  ["programs", "inputs"], "every sequence of in-precondition public calls on values of every type and nesting",
  "The tests run a handful of straight-line programs in a build without sanitizers, and compare printed text only.",
  ["lube/var.cpp", "lube/heap.cpp", "lube/view.cpp", "lube/func.cpp", "lube/math.cpp", "lube/string.cpp", "lube/stream.cpp", "lube/clapack.cpp"],
  [("Heap::resize / alloc / dealloc", "lube/heap.cpp"), ("var::operator [] growth", "lube/var.cpp"), ("BLAS calls on raw pointers", "lube/clapack.cpp")],
  ["process exit under AddressSanitizer/UBSan", "pointer ranges at the BLAS/LAPACK/MKL boundary"])

p("C02", "Array storage lives exactly as long as something refers to it",
  "The storage of an array, map or string stays valid while any variable, element of a reachable array or map, view or element reference still refers to it, and is released exactly once, immediately when the last of these goes away, however it goes (overwrite, clear, scope exit, move, pop, shift, remove, shrink, map overwrite, or unwinding from an exception). A program that drops all its handles leaves no library-owned memory allocated.",
  ["programs", "histories"], "every history of creating, sharing, nesting, viewing, moving, overwriting and dropping handles, including histories with thrown exceptions",
  "Tests print values; a leaked or prematurely released block is invisible in their output and no leak or lifetime checker runs.",
  ["lube/var.cpp", "lube/heap.cpp", "lube/view.cpp"],
  [("var::attach / var::detach", "lube/var.cpp"), ("Heap::attach / Heap::detach", "lube/heap.cpp"), ("View holds its Heap", "lube/view.cpp")],
  ["heap block liveness (allocator shadow state) after every step", "allocator live bytes at case end"],
  [("mRefCount", "number of handles on a block", "lube/heap.h")])

p("C03", "Assignment shares arrays, scalars are values, copy() separates",
  "Assigning, passing or storing an array makes another handle on the same storage, so an element change, in-place operation or growth through either handle is seen through both, while scalar numbers and characters are independent values after assignment. copy() gives an array of the same type, length and contents whose own elements are independent of the original (nested arrays stay shared, and the copy of a view is a view on a separate copy of the data), for every element type.",
  ["programs", "histories"], "every graph of handles reachable through assignment, element storage, copy and nesting, for every element type",
  "The tests contain one alias and one copy on strings; aliasing is a property of whole histories.",
  ["lube/var.cpp", "lube/heap.cpp", "lube/view.cpp"],
  [("var::operator =", "lube/var.cpp"), ("var::copy", "lube/var.cpp"), ("Heap::copy", "lube/heap.cpp")],
  ["full content of every variable after every step"])

p("C04", "Stack, queue and list operations behave as on a sequence",
  "push, pop, top, shift, unshift, insert, remove, append, resize, clear, size and indexing act on an array of any element type exactly as on a finite sequence: each yields the element it should, preserves the order and values of all the other elements, and changes the length by exactly what it inserts or takes. Inserting an array into a dense array or string splices its elements, including when it is inserted into itself; shrinking and regrowing, or growing past any internal capacity, loses nothing that is still inside the sequence.",
  ["programs", "histories", "inputs"], "every sequence of operations on arrays of every element type and every length, across reallocation boundaries",
  "Tests do a few pushes, one insert, one remove, one shift and one pop on short string arrays, never across a capacity boundary.",
  ["lube/var.cpp", "lube/heap.cpp"],
  [("var::push/pop/insert/remove/shift/unshift/append/resize", "lube/var.cpp"), ("Heap::resize/shift/unshift/append", "lube/heap.cpp")],
  ["content, length and element type after every operation", "returned element"])

p("C05", "Element types are preserved and conversions are exact",
  "A dense array keeps its element type: storing any number into it converts that number as the C++ conversion to the element type would, reading returns the stored value with that type, and the reported type, element type and type names agree with what was stored. Converting a scalar to another numeric type equals the C++ conversion (real part for complex to real), and converting a string parses the leading number or throws if there is none, leaving the original untouched. The casting functors convert the elements of lists, the values of maps (whose keys stay) and text held in arrays the same way; an array keeps the type its storage has.",
  ["inputs"], "every pair of source and target type and every representable value whose C++ conversion is defined",
  "Tests exercise a couple of int/double mixes and one string conversion.",
  ["lube/var.cpp", "lube/heap.cpp"],
  [("var::operator = into references", "lube/var.cpp"), ("Cast<T>::scalar", "lube/var.cpp"), ("var::get/ptr", "lube/var.cpp")],
  ["value, type(), atype(), typeStr(), atypeStr()"])

p("C06", "Maps hold one value per key, sorted, with exact lookup",
  "A map built by any history of indexing by key, overwriting, removing and copying holds exactly the keys ever indexed and not removed, each once, in ascending key order, each with the last value stored under it. Lookup by key through operator[], at() and index() finds a key if and only if it is present, at() and index() never create entries, key(i) and the i-th value stay paired, and nested maps and values of any type obey the same rules.",
  ["histories", "inputs"], "every history of map operations over keys of string and numeric types, including keys with equal prefixes, empty keys and keys with embedded or high bytes",
  "Tests build maps of two or three short string keys and print them.",
  ["lube/var.cpp", "lube/heap.cpp"],
  [("var::operator [](var)", "lube/var.cpp"), ("var::binary", "lube/var.cpp"), ("var::index, var::at(var), var::key", "lube/var.cpp")],
  ["keys and values in order after every operation"])

p("C07", "Comparison is a consistent total preorder and sorting obeys it",
  "Over values of every kind (nil, numbers, complex, strings, arrays, nested arrays, maps, views of each other's data) == is an equivalence that holds exactly when kind, length and contents (keys included) are equal, and < is a strict weak order compatible with it: strings order bytewise, arrays lexicographically, and no value is below itself or above and below another at once. sort() and the in-place sort functor return a non-decreasing permutation of their input and index() reports the first equal element or a negative index.",
  ["inputs"], "all pairs and triples of values, and every array to sort (NaN excluded)",
  "Tests compare two strings and sort one short array; laws over pairs and triples need many values.",
  ["lube/var.cpp", "lube/heap.cpp", "lube/math.cpp"],
  [("var::operator != / operator <", "lube/var.cpp"), ("Heap::neq / Heap::lt", "lube/heap.cpp"), ("var::sort / Sort::vector", "lube/var.cpp, lube/math.cpp")],
  ["boolean results of all six comparisons", "sorted output"])

p("C08", "Views address exactly their region of the underlying array",
  "A view of any shape and offset reads and writes element (i,j,...) at offset plus the row-major position of the underlying array and nothing else, and reports the shape, strides, dimension, size and offset it was made with; writes through it are visible in the array and in every overlapping view and vice versa. Views of views, sub-views, moved (offset, advance) views and views that outlive the array variable obey the same rule, and assigning an equally shaped and typed float, double or complex array or view to a view copies the elements into the viewed region, while assigning a view of another type or shape makes the variable a handle of that view and leaves the array as it was.",
  ["programs", "inputs"], "every shape, offset and chain of views over numeric and character arrays, and every interleaving of writes through array and views",
  "Tests look at four small fixed shapes and print them.",
  ["lube/view.cpp", "lube/var.cpp", "lube/math.cpp"],
  [("View::setStrides / View::offset", "lube/view.cpp"), ("var::operator ()", "lube/var.cpp"), ("Set functor via View::copyable", "lube/math.cpp")],
  ["every element of the underlying array after every write"])

p("C09", "Arithmetic equals elementwise arithmetic with broadcasting",
  "+, -, *, / and pow, in place or out of place, on scalars, arrays and views of every supported element type give at every element the value of the corresponding C++ operation in the left operand's type (up to rounding), a scalar right operand being applied to every element and a lower-dimensional array being repeated over each equally sized block. The out-of-place form returns new storage with the left operand's shape and leaves both operands unchanged; the in-place form changes the left operand only, and unsupported type combinations are rejected with an exception rather than computed wrongly.",
  ["inputs"], "every operator, element type, shape and broadcast combination, in place and out of place, with operands distinct or identical",
  "Tests evaluate about ten fixed expressions and print the result; the operands are not checked afterwards and most types and shapes are never used.",
  ["lube/math.cpp", "lube/func.cpp", "lube/clapack.cpp"],
  [("Add/Sub/Mul/Div/Pow functors", "lube/math.cpp"), ("ArithmeticFunctor::broadcast", "lube/func.cpp"), ("blas::axpy/scal/tbmv/sbmv", "lube/clapack.cpp")],
  ["result, both operands and shapes after the call"])

p("C10", "Mathematical functions equal the standard ones elementwise",
  "sin, cos, tan, atan, floor, sqrt, log, exp, real, imag, abs, arg and norm of a scalar, array or view equal the C++ standard function of each element in its own type, keep the shape, and leave the input unchanged unless called in place or with an explicit output, in which case exactly that output receives the result. real, imag, abs, arg and norm of complex data return real data of the same precision and shape; element types that a function does not support are rejected with an exception. Over a list or a map a function applies to each value; a map keeps its keys.",
  ["inputs"], "every function, element type, shape and value in the function's domain",
  "Tests evaluate a few functions on one 3x2 array and two complex scalars, printed to 4 digits.",
  ["lube/math.cpp", "lube/func.cpp"],
  [("CMATH/COMPLEX_UNARY_FUNCTOR", "lube/math.cpp"), ("UnaryFunctor::broadcast", "lube/func.cpp"), ("RealUnaryFunctor::alloc", "lube/math.cpp")],
  ["result type, shape and elements; input after the call"])

p("C11", "Sums, dot products and matrix products are correct for every shape",
  "sum, absolute sum, index of absolute maximum and dot product over the last dimension, and the matrix product, equal their mathematical definition (up to rounding; dot conjugates its first complex argument; ties in the maximum resolve to the first) for every supported type and every shape with any number of leading dimensions. The result has the documented shape (last dimension 1, or the second matrix's column count), inputs are unchanged, and incompatible inner shapes or types are rejected.",
  ["inputs"], "every functor, supported type, shape up to four dimensions and data",
  "Tests use one vector of four and one 2x3 matrix.",
  ["lube/math.cpp", "lube/func.cpp", "lube/clapack.cpp"],
  [("Sum/ASum/IAMax/Dot", "lube/math.cpp"), ("blas::gemm/dot/asum/iamax", "lube/clapack.cpp")],
  ["result against a naive reference; inputs after the call"])

p("C12", "Transpose, concatenate, swap and set only move data, to the right place",
  "Transposing swaps the last two dimensions of every trailing matrix (in place or into new storage, for any number of matrices) so that transposing twice restores the original; concatenating joins arrays along the last dimension row by row; swap exchanges the contents of two equally shaped arrays; set and in-view assignment overwrite exactly the destination. Every element of the result is bit-identical to the element it comes from, inputs not named as outputs are unchanged, and mismatching shapes or types are rejected.",
  ["inputs"], "every shape, element type supported by the functor, and number of operands",
  "Tests print one transpose, two concatenations and one swap.",
  ["lube/math.cpp", "lube/transpose-mkl.cpp", "lube/func.cpp"],
  [("Transpose", "lube/transpose-mkl.cpp"), ("Concatenate/Swap/Set", "lube/math.cpp"), ("NaryFunctor::broadcast", "lube/func.cpp")],
  ["every element and the shape of the result, and every input, bitwise"])

p("C13", "The DFT matches its definition on every row and inverts",
  "The forward transform of every row of an array equals the discrete Fourier transform of that row alone (length n/2+1 complex outputs for real input, n for complex input), and the inverse transform of a forward transform returns the original data, both within rounding, for every length, every number of rows and leading dimensions, and for single and double, real and complex data. Transforms leave their input unchanged, a transform object can be copied and reused any number of times, and input of the wrong element type is rejected.",
  ["inputs"], "every length, batch shape, element type and data",
  "The test transforms two rows of ten floats.",
  ["lube/dft-mkl.cpp", "lube/dft.h", "lube/func.cpp"],
  [("DFTBase::alloc/scalar/vector", "lube/dft-mkl.cpp"), ("UnaryFunctor::broadcast", "lube/func.cpp")],
  ["transform output against the O(n^2) definition; round trip; input after the call"])

p("C14", "Polynomial roots and coefficients, and eigenvalues, agree",
  "poly of a list of roots gives the monic polynomial with those roots, for real and complex single and double precision and on every row of a matrix; roots of a real polynomial gives all its roots with multiplicity, and expanding these roots gives back the normalised polynomial, within numerical conditioning. The eigenvalue wrappers return the eigenvalues of the matrix given and report success.",
  ["inputs"], "every degree and every well-conditioned set of roots or matrix",
  "The tests try one cubic and one fixed matrix.",
  ["lube/math.cpp", "lube/clapack.cpp"],
  [("Roots::vector companion matrix", "lube/math.cpp"), ("polyt", "lube/math.cpp"), ("lapack::geev/gees", "lube/clapack.cpp")],
  ["coefficients and roots against an independent expansion"])

p("C15", "What is written as JSON text reads back as the same value",
  "For every value built of nil, integers, floating point numbers, strings (any bytes but NUL, quotes and backslashes included), arrays and string-keyed maps, nested arbitrarily, writing it as text and reading the text back gives the same structure, keys, strings and numbers. Integers come back exactly and floating point numbers to the precision with which the stream printed them; the library's own conventions apply (a one-element number array reads back as the number, an empty array as nil, integers as long).",
  ["inputs"], "every nested value in that domain, at every stream precision",
  "The test writes and reads five fixed string-only values.",
  ["lube/json.cpp", "lube/stream.cpp"],
  [("JSON::format/formatArray", "lube/json.cpp"), ("JSON::doValue/doArray/doObject/doString/doRaw", "lube/json.cpp")],
  ["text written and value read back"])

p("C16", "The JSON reader accepts all valid JSON and survives anything else",
  "Every valid JSON document (any whitespace layout, compact or not, standard string escapes, nested to 64 levels) reads as the value it denotes (true and false as 1 and 0, null as nil), consecutive documents can be read from one stream, and a document cut short inside a string, array or object is rejected with an exception. Any other byte sequence gives some value or an exception, in bounded time, and never a crash.",
  ["inputs"], "every byte string up to a few kilobytes; every valid document",
  "The test only reads what the library itself wrote.",
  ["lube/json.cpp"],
  [("JSON::doValue and helpers", "lube/json.cpp"), ("toNumber", "lube/json.cpp")],
  ["parsed value against an independent JSON parser", "termination"])

p("C17", "A string stream on a variable behaves like a byte-exact string stream",
  "Text inserted through a stream onto a variable is appended to its string byte for byte, all 256 byte values included, and extraction (characters, numbers, words, lines, unget, seek to a position, end of file) consumes the bytes in order exactly as a standard string stream positioned independently of writes. Formatting numbers and text through it gives the same characters as a standard string stream, and the variable given and read back is the stream's content at every moment.",
  ["histories", "inputs"], "every interleaving of insertions and extractions over all byte values",
  "The test writes a few ASCII characters and reads them once.",
  ["lube/stream.cpp"],
  [("varbuf::overflow/underflow/uflow/pbackfail/seekpos", "lube/stream.cpp")],
  ["stream state, extracted values and content, against std::string model"],
  [("mInd", "read position", "lube/var.h")])

p("C18", "Split and join are exact and inverse to each other",
  "Splitting on a separator returns the maximal pieces between successive non-overlapping occurrences (empty pieces included, at most the requested number with the rest kept whole), and splitting on white space the non-empty words, limited likewise; joining with a separator concatenates pieces with the separator between. Joining a split with the same separator gives back the original string, and the inputs are unchanged.",
  ["inputs"], "every string without NUL, separator and limit",
  "Tests split three fixed strings.",
  ["lube/string.cpp"],
  [("var::split / var::join", "lube/string.cpp")],
  ["pieces and joined string against a reference implementation"])

p("C19", "Case change, stripping, code-point length and line reading are exact",
  "Upper- and lower-casing change exactly the ASCII letters and no other byte, stripping removes exactly the leading and trailing white space, both on single strings and on nested arrays of strings, in place or (leaving the input unchanged) out of place, for every string and byte value. The code-point length counts valid UTF-8 sequences and is negative exactly for malformed strings (the length of an array of anything else is its number of elements), and reading lines from a stream yields every line of it once, in order, with or without a final newline, whatever the length.",
  ["inputs"], "every string (all byte values, any length including empty) and stream content",
  "Tests use a few short fixed strings.",
  ["lube/string.cpp", "lube/utf8.cpp"],
  [("ToUpper/ToLower/Strip", "lube/string.cpp"), ("var::len / utf8len", "lube/utf8.cpp"), ("var::getline", "lube/string.cpp")],
  ["result and input strings byte for byte"])

p("C20", "Regular expression search, match and replace are exact",
  "search returns the leftmost match with its capture groups, or nil if there is none, and match does so only if the expression covers the whole string, in both cases leaving the subject unchanged; replace substitutes every non-overlapping match, expanding group references, in the subject itself. An invalid expression raises an exception, and expression objects can be copied and reused on any number of subjects and arrays of subjects.",
  ["inputs"], "every subject string without NUL and every expression in the common regular expression subset",
  "Tests try three expressions on one word.",
  ["lube/string.cpp", "lube/regex.h"],
  [("Search/Match/Replace functors", "lube/string.cpp")],
  ["groups and replaced text against an independent regex engine"])

p("C21", "Text and INI files load as exactly their lines and settings",
  "Reading a text file gives its lines in order, each exactly its bytes without the newline. Reading an INI file gives for every section and key the stripped value of the last assignment with '=' (or else ':'), keys before any section under the empty section, comments and blank lines ignored, and a malformed section or line, or a missing file, raises an exception. Writing an array with either puts the printed form of each element on a line of its own, replacing what the file held, and reports a file that cannot be opened or completely written.",
  ["inputs"], "every file without NUL bytes",
  "Tests load one file of each kind.",
  ["lube/txtfile.cpp", "lube/inifile.cpp", "lube/string.cpp"],
  [("txtfile::read", "lube/txtfile.cpp"), ("inifile::read", "lube/inifile.cpp")],
  ["loaded value against a reference parser"])

p("C22", "XML files load as their element tree and survive a write and read",
  "Reading a well-formed XML document of elements, attributes and character data (entities and character references included) gives the tree of elements in document order with their names, attributes and text, line breaks in text aside; writing an element tree and reading it back gives an equal tree. A document that is not well-formed, or is truncated, a missing file, and one that cannot be completely written, are rejected with an exception, and parsing one document never alters the tree of another.",
  ["inputs", "histories"], "every element tree with arbitrary UTF-8 names, attributes and text, and every sequence of loads",
  "The test prints one small file.",
  ["lube/xmlfile.cpp"],
  [("Expat handlers", "lube/xmlfile.cpp"), ("XMLWriter::writeElem/escape", "lube/xmlfile.cpp")],
  ["tree against an independent XML parser; text concatenated between child elements"])

p("C23", "GEDCOM files load every individual and family, correctly linked",
  "Loading a GEDCOM file gives one entry per individual and per family record, in file order, with the individual's name, title and sex as written, and each family's husband, wife and children given as the positions of exactly the individuals its cross references name. Header, submitter, event and unrecognised sub-records do not change that, and each load is independent of earlier ones.",
  ["inputs", "histories"], "every file of the supported record types with individuals preceding the families that name them, any number of records and any cross reference names",
  "The test loads one sample file and prints progress messages.",
  ["lube/gedfile.cpp"],
  [("GEDCOM::doFile/doIndividual/doFamily", "lube/gedfile.cpp"), ("cross reference maps", "lube/gedfile.cpp")],
  ["individual and family arrays against a reference reading of the file"])

p("C24", "Audio written to a file reads back as the same samples and shape",
  "Float samples in [-1,1) written as a mono or multi-channel WAV file and read back have the same number of samples and channels and differ at each sample by less than two 16-bit quantisation steps, each channel being one row; the sample rate is stored in the file. An unreadable file, an unwritable path or a file that cannot be completely written raises an exception, and no file stays open afterwards.",
  ["inputs"], "every number of frames and channels and every sample value in range",
  "The audio test cannot run here (its input file is a download) and uses one mono file.",
  ["lube/sndfile.cpp", "lube/transpose-mkl.cpp"],
  [("sndfile::read / sndfile::write", "lube/sndfile.cpp")],
  ["samples read back, and an independent reading of the WAV header and data", "open file descriptors", "frame counts at the audio library boundary"])

p("C25", "Command line options and configuration values resolve exactly",
  "Parsing a command line returns for every declared option its default, or the argument (or 1 for a flag) given last, wherever and in whatever clustering it appears among the arguments, and args() returns exactly the non-option arguments in order; in a loop over the options an undeclared one, or one that lacks its argument, is given as '?', and the help lists every option with its default. A configuration lookup returns the value of the entry in the current section converted to the requested type, or the default if it has not been set by any file or call, later settings winning, other sections untouched.",
  ["inputs", "histories"], "every option specification and argument vector, and every sequence of configuration loads, sets, section changes and lookups",
  "The test parses one fixed command line and one configuration file.",
  ["lube/config.cpp", "lube/config.h"],
  [("Option::parse/args", "lube/config.cpp"), ("Config::configFile/config/configSet", "lube/config.cpp")],
  ["returned maps, arguments and values against a reference"])

p("C26", "Directory listings are complete and exact",
  "Listing a directory gives one entry per directory entry and nothing else, the recursive listing one entry per file or directory below it, and the tree the same hierarchy nested, whatever the names; with details requested each entry carries its parent path, stem and extension. A path that does not exist raises an exception, and listing changes nothing on disk.",
  ["inputs"], "every directory tree of files, directories and links, with arbitrary names",
  "The test lists one directory of three files.",
  ["lube/path.cpp"],
  [("Path::dir/rdir/tree", "lube/path.cpp")],
  ["listings against the operating system's own"])

p("C27", "A graph is written with exactly its vertices and edges",
  "After any sequence of vertex and edge additions the graphviz output contains each vertex once, numbered from zero in creation order as addVertex() returned, and each edge once with its direction, parallel edges and self loops included, in one syntactically valid digraph; a file that cannot be opened or completely written is reported. Graph objects are independent of each other.",
  ["histories"], "every sequence of additions over one or several graphs",
  "The test writes one small graph.",
  ["lube/graph.cpp"],
  [("Graph::addVertex/addEdge/writeGraphViz", "lube/graph.cpp")],
  ["parsed output file"])

p("C28", "Modules load, create independent instances, and unload cleanly",
  "Loading a module by name gives working instances, as many as asked for, that do not share state and stay valid until the loader is destroyed, when each is destroyed exactly once before its code is unloaded; loading the same module several times, in any order of destruction, keeps the others working. A module that does not exist, is no library, or has no factory raises an exception and leaves nothing loaded or allocated.",
  ["histories", "fault_sequences"], "every sequence of module loads, failed loads, instance creations and unloads",
  "Tests load one module once per program and never a missing or broken one.",
  ["lube/module.cpp", "lube/module.h"],
  [("module::module/create/~module", "lube/module.cpp")],
  ["results from instances; constructions and destructions counted by a probe module; loaded libraries"])

p("C29", "Corrupt input files never crash, hang or leak",
  "Reading any byte content as a text, INI, XML, GEDCOM or audio file or as a JSON stream ends in bounded time with a value or a C++ exception, without invalid memory access and without leaving memory or open files behind. The value, if any, is a normal value that can be printed, copied and dropped.",
  ["inputs", "fault_sequences"], "every file content up to some kilobytes, in particular truncations, splices and bit flips of valid files",
  "Tests only read one valid file per format.",
  ["lube/txtfile.cpp", "lube/inifile.cpp", "lube/xmlfile.cpp", "lube/gedfile.cpp", "lube/sndfile.cpp", "lube/json.cpp"],
  [("file module readers", "lube/*file.cpp"), ("GEDCOM level loop", "lube/gedfile.cpp")],
  ["outcome of each read under sanitizers", "allocator live bytes", "open file descriptors", "CPU time"])

p("C30", "A rejected operation leaves its operands as they were",
  "When an operation is rejected with an exception (out-of-range insert or remove, pop or shift of an empty array, negative index, view or offset that does not fit, index outside a view's shape, growing a view, pushing an incompatible scalar, unconvertible or undefined operand, mismatched shapes or types, unsupported element type, calling a map operation on a non-map) every variable has the same type, length and contents as before. The exception is a std::exception with a non-empty message, nothing leaks, and the variables stay fully usable. (An operation applied in place to every element of a nested array may have been applied to the elements before the one it can not apply to.)",
  ["fault_sequences", "programs"], "every rejected call in every program state",
  "No test provokes an exception.",
  ["lube/var.cpp", "lube/view.cpp", "lube/func.cpp", "lube/math.cpp", "lube/heap.cpp"],
  [("throw error(...) / std::range_error guards", "lube/*.cpp")],
  ["content of all variables before and after each rejected call"])

p("C31", "Plot scripts reach gnuplot complete and in order",
  "Writing a plot sends gnuplot, in order, exactly the given commands, each vector as one line per element and each matrix as one line per column, terminated by 'e', with the output file settings first when a file is named, and all of it has been delivered when the module goes. Data of an unsupported type or dimension is rejected with an exception.",
  ["inputs"], "every sequence of commands, vectors and matrices",
  "The file test that would plot does not run here, and it does not look at what gnuplot receives.",
  ["lube/gnuplot.cpp"],
  [("gnuplot::write / puts / ~gnuplot", "lube/gnuplot.cpp")],
  ["bytes received by a stand-in gnuplot"])

p("C32", "A URL transfer returns exactly the bytes served",
  "Transferring a URL returns the body exactly, byte for byte and of any size, however the data is chunked, and repeated transfers are independent; a URL that cannot be fetched raises an exception.",
  ["inputs", "schedules"], "every body content and size and every chunking of its delivery",
  "The only test needs the network and is not run.",
  ["lube/curl.cpp"],
  [("Easy::writeCallback / perform", "lube/curl.cpp")],
  ["returned string against the bytes served over loopback and file URLs"])

p("C33", "Ranges, initialisers and constructors produce the stated contents",
  "range and irange give every value from low to high by the step (high included, respectively excluded) in the operand type; fill constructors, shape constructors, initialiser lists, the comma operator and construction from C arrays, argument vectors and strings give arrays with exactly the stated elements, lengths, types and shape. Objects made from a caller's buffer do not depend on it afterwards.",
  ["inputs"], "every bound, step, length, type and list",
  "Tests use a handful of fixed initialisers.",
  ["lube/var.cpp"],
  [("range/irange", "lube/var.cpp"), ("var constructors, view() initialiser functions", "lube/var.cpp")],
  ["content, type and shape of each constructed variable"])

p("C34", "Printed text shows every element of a value",
  "Writing a variable to a stream prints scalars and array elements as the stream would print the underlying C++ values (complex included), strings in double quotes, arrays in brackets and maps in braces in order, matrices row by row with all their elements, and higher tensors as their shape followed by their matrices in order. Printing never changes the value, and prints the same for equal arrays regardless of how they were built.",
  ["inputs"], "every value of every element type, nesting and shape, at every stream precision",
  "The reference outputs contain a few dozen fixed values; complex double arrays and most shapes never appear.",
  ["lube/json.cpp"],
  [("JSON::format/formatArray/formatView", "lube/json.cpp")],
  ["text against a reference printer; the value after printing"])

p("C35", "User functors are applied to every sub-array exactly once",
  "A user-defined unary, binary or n-ary functor of dimension d is called once for every d-dimensional trailing block of its first input or, if n-ary, its output (together with the corresponding block of every other operand), in order, with views covering exactly those blocks, whatever the number of leading dimensions; an arithmetic functor is called once for every block of its left operand that has the dimensions of the right one, which it is given whole; one of dimension zero is called once for every element, in whatever order. What the functor writes to its output block lands in that block of the result and nowhere else, input and output may be the same variable, functors can be made of functors, an exception it throws leaves the later blocks untouched, and operands of too small a dimension, or of another type or number of blocks than the operation needs, are rejected before it is called.",
  ["inputs", "programs"], "every functor kind and dimension, input shape, number of inputs and output",
  "The test runs one unary and one n-ary functor of dimension one on one shape each.",
  ["lube/func.cpp", "lube/func.h"],
  [("UnaryFunctor/BinaryFunctor/ArithmeticFunctor/NaryFunctor::broadcast and vector", "lube/func.cpp"), ("var::subview", "lube/var.cpp")],
  ["recorded calls (shape, address, content, order) and the whole output"])

p("C36", "Index values follow their two-valued truth and negation rules",
  "An index value is true exactly when it is not negative, its complement is minus one less itself and self-inverse, and all arithmetic, comparison and increment on it behaves as on the integer it holds. Every search that returns an index returns a true one exactly when it found something.",
  ["inputs"], "every representable index value and every search",
  "The test checks four values.",
  ["lube/ind.h", "lube/var.cpp"],
  [("class ind", "lube/ind.h")],
  ["operator results against integer arithmetic"])

p("C37", "Threads that share no variable do not disturb each other",
  "Threads of one program whose variables are all their own (no array, map, view, stream or functor with state is used by two of them; the library's constants and ready-made functors may be) each get exactly what the same calls give on their own, whatever the interleaving, exceptions included. The library never has two such threads access the same storage without synchronisation. Options and configurations, which are global by design, and modules are not covered.",
  ["schedules", "inputs"], "every interleaving of any programs on separate variables",
  "The tests run no threads.",
  ["lube/var.cpp", "lube/heap.cpp", "lube/func.cpp", "lube/math.cpp", "lube/string.cpp", "lube/json.cpp"],
  [("nil and the functor objects", "lube/var.h"), ("Cast<T>::scalar", "lube/var.cpp"), ("var::str", "lube/var.cpp")],
  ["race detector reports", "the text of everything each thread computed, against the same program alone"])

p("C38", "Errors say what they were made of, timers how long they lived",
  "error(v).what() begins with the printed text of v followed by the end or a new line (a stack trace may follow), stays the same and readable for as long as that error or the one it was copied or assigned from is asked, however deep it is thrown, through whatever it is caught (by value, as std::exception, by exception_ptr, in another thread, while another error is on its way), whatever becomes of v and of the other copies; nothing leaks. Errors of the library itself are std::exceptions with a message. A timer prints, on std::cout and only when it ends (also by unwinding), one line \"<name>: <t> ms\" where t is the time it lived.",
  ["histories", "schedules"], "every history of making, throwing, copying and dropping errors; every overlap of timers",
  "The one test program that throws prints one message and is not run.",
  ["lube/var.cpp"],
  [("error::error, error::what, error::backTrace", "lube/var.cpp"), ("timer::~timer", "lube/var.cpp")],
  ["what() of every error alive after every step", "text on std::cout against times measured around the timer"])

p("C39", "The library built without MKL transforms and transposes as with it",
  "Where MKL is not available the library is built with its own transpose and with KissFFT (dft-kiss.cpp, transpose-adhoc.cpp). Then transpose moves elements exactly as in C12: the result, an output of the transposed shape, and the matrices of a stack in place, all else being rejected with output and input left alone. The forward and inverse transforms are those of C13 for single precision, real of even length and complex of any length; double precision, real transforms of odd length, lengths below one, other types and arrays that do not fit are rejected. Functors can be copied and reused, functors of different threads do not touch the same storage unsynchronised, and nothing is accessed out of bounds or leaked.",
  ["inputs", "schedules"], "every shape, length, precision and history of functors in the other configuration of the build",
  "The tests are only ever run on the configuration that was built, and transposes and transforms a few fixed arrays.",
  ["lube/transpose-adhoc.cpp", "lube/dft-kiss.cpp"],
  [("Transpose::scalar, Transpose::vector", "lube/transpose-adhoc.cpp"), ("DFTBase::scalar, DFTBase::vector", "lube/dft-kiss.cpp")],
  ["elements of results, outputs and inputs", "sanitizer and race detector reports"])

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
if __name__ == "__main__":
    main()

p("C40", "Running out of memory leaves every value valid",
  "When an allocation made by an operation fails, the operation throws (or completes without what it could not store) and nothing is corrupted: every value involved can still be read, printed, changed and released, values that the operation does not modify are exactly as they were, no storage, file or module instance is leaked, and the same operation carried out again with memory available gives the usual result. An array whose growth failed has the size and the elements it had.",
  ["fault_sequences", "inputs"], "every operation and every allocation within it that fails",
  "No test makes an allocation fail.",
  ["lube/heap.cpp", "lube/var.cpp", "lube/view.cpp", "lube/module.cpp", "lube/dft-mkl.cpp"],
  [("Heap::resize/alloc", "lube/heap.cpp"), ("var::array/resize", "lube/var.cpp"), ("View::View", "lube/view.cpp"), ("module::create", "lube/module.cpp")],
  ["operands before and after; allocated bytes; open files; result of the repeated call"])

p("C41", "Sharing is free, growth is amortised and look-up is by bisection",
  "Assigning, passing, returning and storing an array or map, taking a view or an element of it, removing from its ends, looking a key up, and the in-place forms of arithmetic, functions and text operations allocate an amount of storage that does not depend on its size. Growing an array one element at a time at either end, appending, inserting into a map, copying, out-of-place arithmetic and functions, splitting, joining, replacing, reading and writing JSON, streams, lines and files allocate storage in proportion to the size of what is produced. The time to find a key in a map, or that it is not there, hardly grows with the size of the map.",
  ["inputs"], "every size, and every element type",
  "Tests use a handful of elements and look at the results only.",
  ["lube/heap.cpp", "lube/var.cpp", "lube/func.cpp", "lube/json.cpp", "lube/string.cpp", "lube/stream.cpp"],
  [("allocSize/Heap::resize", "lube/heap.cpp"), ("var::var(const var&)/operator =", "lube/var.cpp"), ("var::binary", "lube/var.cpp"), ("UnaryFunctor/ArithmeticFunctor in place", "lube/func.cpp")],
  ["bytes and number of allocations; processor time"])

p("C42", "Results do not depend on the locale of the program",
  "Whatever global std::locale the program has set (another decimal point, thousands separated, other names of true and false), JSON is read and written, numbers are converted to text and text to numbers, errors are described, variables pass through varstreams, and text, INI, GEDCOM, XML and graph files and configurations are read and written exactly as under the classic locale, so that what one program writes another reads. Streams that the program itself made, and passes for printing, keep the locale it gave them.",
  ["inputs", "configurations"], "every value, every text and file, and every locale",
  "Tests run under the classic locale only, in which every way of formatting agrees.",
  ["lube/json.cpp", "lube/stream.cpp", "lube/var.cpp", "lube/txtfile.cpp", "lube/inifile.cpp", "lube/graph.cpp", "lube/config.cpp"],
  [("varstream::varstream", "lube/stream.cpp"), ("JSON", "lube/json.cpp"), ("TXT::write/INI::write", "lube/txtfile.cpp"), ("SharedGraphFile::write", "lube/graph.cpp")],
  ["text and values under two locales"])
