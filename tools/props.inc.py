TST = 'the example programs build a few literal containers, print them and check only the exit status'
prop('P01', 'Stored values are read back exactly, with their type',
 'Whatever value is stored in a container through a typed setter, assignment or constructor (pointer, bool, 32/64-bit integer, real, complex, string, vector or matrix of those, with zero or more elements) is reported with that type and read back bit for bit by the typed accessors, whatever the container held before. Storing a value replaces everything previously stored; a typed read of a container that holds another type is refused instead of returning a wrong value.',
 ['inputs', 'histories'], 'all stored values (every bit), all 21 value types, all previous contents of the container',
 'value ranges, special floats, empty vectors and the product previous-type x new-type are not enumerable; ' + TST,
 [C, H], [('setters and operator= per type', C), ('clear/allocate_* of the previous content', C), ('get_* accessors', C)], [('type tag and tagged union', 'the value held by a container')])
prop('P02', 'Copying a container copies everything and shares nothing',
 'Copying or assigning a container, also when the source is part of the destination or contains it, gives a destination equal to the source in every nested value and type; the source keeps its value. Afterwards changing or destroying either one never affects the other, and the old content of the destination is gone.',
 ['inputs', 'histories'], 'all shapes of source and destination within the nesting bound, all values, later modification of either side, all overlaps of source and destination',
 'the tests copy containers only in passing and never modify one side and compare the other, nor copy onto a container with another content',
 [C], [('load / from_gc / copy constructor / operator=', C), ('swap-free deep copy per type', C)])
prop('P03', 'Comparison reports no difference exactly for equal containers',
 'Comparing two containers yields an empty report if and only if they have the same type, the same sizes and the same values at every nested position (same keys for maps); otherwise the report names a difference. Comparison terminates, modifies neither side and does not depend on which side is given first.',
 ['inputs'], 'all pairs of containers in the bounds: every type, sizes, values (all bits), keys',
 'no test compares containers that differ in one element, and equal vectors made the comparison loop for ever', [C],
 [('compare_content', C)])
prop('P05', 'Promotion to a wider type keeps every value',
 'Promoting a container to a wider numeric type, or to a vector or matrix form, keeps every stored number exactly (in the same order and shape), produces the requested type and is idempotent; a promotion that is not possible is refused and leaves the content unchanged.',
 ['inputs'], 'all source types and sizes in the bounds, all values, all promotion targets',
 'promotion is a table of 21 source types x 13 targets with value conversions; tests touch a handful of cells with small literals', [C],
 [('promote_to_* family', C), ('get_vec_*/get_mat_* implicit widening', C)])
prop('P06', 'Scalar numeric conversions are exact or refused',
 'Reading a stored bool, integer, real or complex number as another numeric type either returns exactly the stored number or is refused with an error; it is never wrapped, truncated or read with a part dropped, and a number that fits the requested type is not refused. This holds for the converting getters, for keyed lookups with conversion and for optional reads, which report whether a value was read.',
 ['inputs'], 'all stored numeric values (all bits, incl. NaN, infinities, limits) x all target types x all conversion entry points',
 'conversion errors appear only at range limits and special values; tests read back small integers', [C, H],
 [('get_value(T&) overloads, get_as_*, get_number, get_complex_number', C), ('get_map_number/int, get_if_exists', C)])
prop('P07', 'Bulk copies to typed vectors and matrices are exact or refused',
 'Copying the content of a container into a vector or matrix of a given numeric type (or into a vector of strings) delivers exactly the stored elements in order (column by column for matrices and vectors of columns), replaces the previous content of the destination and leaves the container unchanged, or is refused with an error. Content whose values all fit the requested element type is not refused (for a matrix, content of the same or a narrower element type and vectors of fitting columns); content that is not numeric, or columns of different length, is refused.',
 ['inputs'], 'all stored types, sizes in the bounds, all element values, all targets',
 'each target has its own conversion switch over 21 types; tests cover one or two with small literals', [PR],
 [('copyto_vec_int/uint/long/ulong/real/complex/string', PR), ('copyto_mat_int/long/real/complex', PR)])
prop('P08', 'Indexed access reaches exactly the addressed element or is refused',
 'Access by index, or by row and column (matrices are stored column by column), reads or writes exactly the addressed element and no other, for every vector, matrix and vector of containers, and agrees with the sizes the container reports. An index outside the content is refused by the read-only and checked accessors instead of touching other memory; the accessors that grow a container keep every existing element.',
 ['inputs'], 'all types, sizes in the bounds, all 32-bit indices, all element values',
 'wrong strides, off-by-one limits and missing range checks show only for particular shapes and indices; tests use in-range literals', [C, H],
 [('operator[], operator(), get_*_at, get_number_at, set/get *_at', C), ('mat_type layout', 'src/GenericContainerSupport.cc'), ('get_num_elements, num_rows, num_cols', C)])
prop('P09', 'Keyed access finds exactly the stored keys; merging keeps both sides',
 'A key is found exactly when it was stored and yields the value stored under it, for any key bytes, single lookups, lists of candidate keys and nested key sequences; reads never insert keys, insertion and removal affect only the named key, and the listing names each stored key once. Merging gives the union of both maps, the source winning on common keys, leaves the source unchanged and is refused on content that is not a map.',
 ['inputs', 'histories'], 'all maps in the bounds (symbolic keys and values), all looked-up keys, all other contents',
 'keys that are prefixes of one another, missing keys and lookups on read-only containers matter, and tests only look up keys they stored', [C, H],
 [('operator()(key), operator[](key), exists, must_exists, erase, get_keys', C), ('get_map_* and get_if_exists', C), ('merge', C)])
prop('P04', 'No history of operations corrupts or leaks memory',
 'Whatever sequence of stores, copies, growth, promotions, merges, removals, restores and refused accesses is applied to containers, also between a container and its own parts, no operation reads or writes outside live memory, every container stays readable afterwards, and destroying the containers releases everything they allocated exactly once.',
 ['histories', 'inputs'], 'all sequences of operations up to the bound, over two containers and their parts, with symbolic operations, keys, indices and numbers',
 'a dangling pointer or a leak needs a particular order of operations on particular types; tests run one fixed order and are not run under a memory checker',
 [C, H], [('clear and the type-tagged union', C), ('copy, assignment and move of parts', C), ('container growth through operator[] and push_*', C)])
prop('P10', 'Appending keeps all elements and adds exactly the new one',
 'Appending a boolean, integer, real, complex or string to a container that holds a vector keeps every element in order and adds the given value as the last one, widening the element type when necessary without changing any number, and leaves a vector of containers for values of different nature. An append that is not possible is refused and changes nothing.',
 ['inputs', 'histories'], 'all contents (every type, sizes in the bounds), all appended values, sequences of two appends',
 'the append functions are a table of stored type x appended type with a conversion in each cell; tests append three literals', [C],
 [('push_bool/int/long/real/complex/string', C)])
prop('P11', 'Collapsing nested vectors never changes or loses a value',
 'Collapsing turns a vector of numbers into a numeric vector, a vector of strings into a string vector and a vector of equally long numeric vectors into the matrix whose columns they are, at every nesting level, with every value at its position. It never fails, leaves all other content as it is, and doing it twice changes nothing more.',
 ['inputs'], 'all vectors in the bounds of any mix of element types and lengths, also nested in maps and vectors, all values',
 'the outcome depends on the combination of element types and lengths; tests see a few literal files', ['src/GenericContainerCollapse.cc'],
 [('collapse', 'src/GenericContainerCollapse.cc')])
S = 'src/GenericContainerSerialize.cc'
prop('P12', 'Restoring a serialized container gives back the same container',
 'For every container, storing it in a byte buffer writes exactly the announced number of bytes and restoring from that buffer reads exactly as many and gives a container equal in every nested type, size and value (all bits, strings with any bytes), whatever the destination held before. A buffer that is too small is refused without writing outside it.',
 ['inputs'], 'all containers in the bounds, all values, all buffer sizes around the announced size',
 'each of the 21 types has its own size formula, writer and reader, which must agree for every content; tests serialize one small map', [S],
 [('mem_size', S), ('serialize', S), ('de_serialize', S)])
prop('P13', 'Restoring from arbitrary bytes never reads outside the buffer',
 'Restoring from any sequence of bytes, including truncated, corrupted or hostile ones, either gives a valid container and reports how many bytes were used (no more than were given), or is refused with an error; it never reads outside the buffer, allocates out of proportion to it, or leaks. Every strict prefix of a stored container is refused.',
 ['inputs'], 'all byte buffers up to the length bound; all strict prefixes of stored containers of every type',
 'the input space is all byte strings; no test restores malformed bytes', [S], [('de_serialize', S)])
J = 'src_json_interface/to_json.cc'; FJ = 'src_json_interface/from_json.cc'
prop('P14', 'JSON written for a container is valid JSON denoting its content',
 'For every container the JSON text written is a single syntactically valid JSON value whose structure, keys, order, strings (after unescaping, any bytes), booleans and numbers are those of the container: vectors as arrays, matrices as arrays of columns, complex numbers and pointers as strings, empty containers as empty arrays or objects, non-finite reals as null. Writing changes neither the container nor the formatting state of the stream.',
 ['inputs'], 'all containers in the bounds: every type, size, value, string and key bytes',
 'special characters, empty containers, non-finite numbers and unusual types produce broken JSON only for particular content; no test parses what was written',
 [J, C], [('to_json per type', J), ('string_escape, to_string(complex)', C)])
prop('P15', 'Reading JSON accepts exactly valid JSON and yields what it denotes',
 'Reading any text never throws or touches memory it should not: it reports success exactly when the text is one valid JSON value, and then the container holds that value (integers of 32 and 64 bits exactly, strings and keys byte for byte with all escapes decoded, the last of repeated keys, arrays collapsed to typed vectors), independent of what it held before. A refused text leaves the container as it was.',
 ['inputs'], 'all texts up to the length bound, all strings, escapes and integers around the type limits in JSON templates, all previous contents',
 'malformed texts, escapes, integer limits, repeated keys and previous content are not reached by reading three literal files', [FJ],
 [('from_json / decode_json', FJ), ('collapse of the result', 'src/GenericContainerCollapse.cc')], None, 'Real numbers: only their type is compared; the conversion of digits to binary belongs to the vendored JSON library.')

TT = 'src_toml_interface/to_toml.cc'; FT = 'src_toml_interface/from_toml.cc'
prop('P17', 'TOML written for a map is read back with the same content',
 'Writing a container holding a map as TOML either is refused (reported, not a crash) because it holds something TOML cannot represent, or produces a valid TOML document that, read back, gives the same keys, nesting, order, strings byte for byte, booleans and numbers, with types that TOML lacks written under their own tag. Writing never throws and does not change the container.',
 ['inputs'], 'all maps in the bounds: every value type, size, string and key bytes, nesting',
 'special characters in strings and keys, empty content and unusual types break only for particular content; tests write one file and do not compare it', [TT, FT],
 [('to_toml per type', TT), ('from_toml', FT)])
prop('P18', 'Reading TOML never crashes and yields exactly what the document denotes',
 'Reading any text as TOML never throws, hangs or touches memory it should not: it reports whether the text was accepted, a refused text leaves the container as it was, and an accepted one replaces whatever the container held. Integers up to 64 bits, strings with escapes, dates, arrays, tables, dotted keys and arrays of tables are delivered exactly; integers out of range, impossible dates, bad escapes and repeated keys are refused.',
 ['inputs'], 'all ASCII texts up to the length bound, also after several openings; all digits, escapes, dates and keys in document templates; previous contents',
 'malformed texts, limits of integers and previous content are not reached by reading one literal file', [FT, 'src_toml_interface/toml++'],
 [('from_toml / TOML_to_GC', FT), ('the vendored parser', 'src_toml_interface/toml++')])

TY = 'src_yaml_interface/to_yaml.cc'; FY = 'src_yaml_interface/from_yaml.cc'
prop('P16', 'YAML written for a container is read back with the same content',
 'For every container the YAML text written is valid YAML that, read back, gives the same keys, nesting, order, strings byte for byte, booleans and numbers (matrices as sequences of columns, complex numbers as text, pointers as integers, empty maps, empty vectors of containers and matrices without columns as null, non-finite reals as such). Writing never throws and changes neither the container nor the formatting state of the stream.',
 ['inputs'], 'all containers in the bounds: every type, size, string and key bytes, nesting, at top level and inside maps and vectors',
 'special characters in strings and keys, keys that look like numbers or booleans, empty content and unusual types break only for particular content; tests do not compare what was written', [TY, FY],
 [('to_yaml per type', TY), ('from_yaml', FY), ('string_escape, to_string(complex)', C)])
prop('P19', 'Reading YAML never crashes and yields exactly what the document denotes',
 'Reading any text as YAML never throws, hangs or touches memory it should not: it reports whether the text was accepted, a refused text leaves the container as it was, and an accepted one replaces whatever the container held. Integers up to 64 bits (wider ones as text), quoted strings with escapes, plain words, block scalars, block and flow sequences and mappings, comments and aliases are delivered exactly; repeated keys, keys that are not strings and unknown aliases are refused.',
 ['inputs'], 'all ASCII texts up to the length bound, also after 15 openings; all digits, escapes, string bytes and keys in document templates; previous contents',
 'malformed texts, limits of integers and previous content are not reached by reading one literal file', [FY, 'src_yaml_interface/fkYAML'],
 [('from_yaml / YAML_to_GC', FY), ('the vendored parser', 'src_yaml_interface/fkYAML')])
CI = 'src/GenericContainerInterface_C.cc'; LU = 'src_lua_interface/GenericContainerInterface_lua.cc'
prop('P20', 'The C interface stores and reads exactly what it is given, or says so',
 'Through the C interface every value or array stored at the current position of the selected container is read back exactly, replacing only that element; reading never changes a container, and no exception ever reaches the C code. Moving into a vector element or map entry, back up (never above the first level) and to the start reaches exactly those elements; calls that cannot be carried out (nothing selected, wrong type, position out of range or negative length) return a non-zero code or a neutral value and change nothing. Keys are listed once each and then end with a null pointer; deleting a container by its identifier releases it, deselects it and leaves the others as they are.',
 ['inputs', 'histories'], 'one call of each of the 50 functions on all content in the bounds with all argument values; all sequences of moves, stores and deletions up to the length bound over two containers',
 'tests are one C program with fixed valid calls; wrong types, limits, deletions and unusual sequences are never exercised', [CI, 'include/GenericContainer/GenericContainerInterface_C.h'],
 [('extern "C" functions', CI), ('the explorer: head stack, keys', CI)])
prop('P21', 'Values exchanged with Lua arrive unchanged and leave the stack balanced',
 'A container sent to Lua as a global or as the argument of a function and read back holds the same booleans, strings (any bytes), keys, nesting and numbers (64-bit integers exactly; whole reals may come back as integers, integers that stand in an array with reals as reals, empty tables as empty content), and content without a Lua counterpart is absent. Tables that a container cannot represent (keys that are no positions, both positions and names, a table inside itself), missing globals, functions that fail and commands that do not run are reported by an exception. Whatever happens, the Lua stack is left as it was found and the interpreter stays usable.',
 ['inputs', 'histories'], 'all containers in the bounds, all numbers, string bytes and kinds of elements; all integer keys up to 3; nesting to 70 levels; repeated failing calls',
 'tests read one script with well-formed tables; 64-bit limits, mixed arrays, zero bytes, deep nesting and repeated failures are never exercised', [LU, 'src_lua_interface/lua-5.4.6/src'],
 [('GC_to_lua', LU), ('lua_table_to_GC, push_vec_element, push_hash_element', LU), ('LuaInterpreter', LU)])
SU = 'src/GenericContainerSupport.cc'; TB = 'src/GenericContainerTables.cc'
prop('P22', 'The readable dump shows every stored value at its place',
 'For every container the readable dump shows every stored value exactly once, in order, beside its key (or the header text of a formatted key) or position, integers in decimal, pointers in hexadecimal, strings byte for byte, with the given prefix on the lines of the first level and the given indentation once more at each further level. The listing of types and the summary show the type and size of every element likewise. Printing changes neither the container nor the formatting state of the stream.',
 ['inputs'], 'all containers in the bounds: every type, size, value and string bytes, formatted keys, prefixes and indentations',
 'tests print to the terminal and compare nothing; formatting state, formatted keys, nesting and special content matter only for particular content', [C],
 [('dump, print', C), ('print_content_types, info', C), ('operator << of vectors and matrices', C)])
prop('P23', 'Reading a formatted table gives exactly the rows and columns of the text',
 'Reading a table takes the first line that is not a comment as column names and every later line that is not a comment, up to the first blank one, as a row: each field is stored exactly once, as the number it denotes, in its column and in order, whether or not the text ends with a newline. Only lines that begin with a comment character are comments (whose parameters are delivered when asked for); a row with another number of fields is refused; whatever the container held before is replaced.',
 ['inputs'], 'all texts over a 6-letter alphabet up to the length bound; tables of several shapes with arbitrary header and comment bytes, delimiters and digits; previous contents',
 'comment characters inside lines, missing final newlines, wrong rows and previous content are not in the one data file of the tests', [SU],
 [('read_formatted_data', SU), ('read_formatted_data2', SU), ('tokenizeString, get_line_and_skip_comments', SU)])
prop('P24', 'Writing a table writes every header and number, or refuses the table',
 'Writing a table, plain with any delimiter or aligned, writes one line with all the headers and then one line per row with all its numbers in the order of the columns, and nothing else. A table with more or fewer headers than columns, with columns of different length or with columns that are not numbers is refused with an error and never touches memory outside the table; the formatting state of the stream is left as it was.',
 ['inputs'], 'all tables in the bounds: numbers of headers, columns and rows, column types, values, header bytes and delimiters',
 'tests write one well-formed table', [TB, SU],
 [('write_table', TB), ('write_table_formatted', TB), ('write_formatted_data', SU)])
J2 = 'src_json_interface/from_json2.cc'; JL = 'src_json_interface/jsonLexer.cc'
prop('P25', 'The alternative JSON reader accepts exactly JSON and reads what it denotes',
 'The alternative JSON reader accepts exactly the texts of the JSON grammar (a blank text and bytes that are not valid UTF-8 may go either way); afterwards the container holds the denoted value and nothing of what it held before: integers that fit exactly, other numbers as reals, strings with all escapes decoded, arrays with their nesting, objects with the last of repeated keys. A text that is refused, by an exception, leaves the container as it was, and no memory outside the text is read.',
 ['inputs'], 'all texts up to the length bound; integers around the limits with arbitrary digits; strings and escapes with arbitrary bytes; trees of every shape and long or deep texts',
 'no test runs this reader; nesting, limits of integers, escapes, truncated texts and previous content matter only for particular texts', [J2, JL],
 [('from_json2', J2), ('yy::jsonLexer::yylex', JL), ('GenericContainerWrapper', 'src_json_interface/jsonParser.tab.hh')])
prop('P26', 'Running out of memory is reported and never corrupts a container',
 'When an allocation fails anywhere inside an operation that stores, copies, promotes, appends, inserts, collapses, merges or restores, the operation reports it by an exception. Afterwards every container involved can be read, copied, overwritten and destroyed without touching invalid memory, and the source of a copy is unchanged.',
 ['fault_sequences', 'inputs'], 'every fault schedule with one failing allocation among the first ones of each operation, on containers of every type with arbitrary content',
 'no test makes an allocation fail; each operation has several allocations, and only a failure at a particular one leaves a type without its data', [C, PR, S],
 [('GenericContainer::allocate_*', C), ('GenericContainer::promote_to_*', PR), ('GenericContainer::from_gc', C), ('GenericContainer::from_mem', S)])
ML = 'src_matlab_interface/GenericContainerInterface_matlab.cc'
prop('P27', 'Values exchanged with MATLAB arrive unchanged',
 'Converting a container to a MATLAB value gives the corresponding kind (logical, integer, double, complex, char, cell, struct; nothing stored and pointers give an empty array) with the same shape, vectors as rows, and every number, boolean, text (without zero bytes) and key exactly, nested to any depth; plain values convert alike, vectors as columns. Converting MATLAB data replaces the content of the container with the same values in the same places: real and complex numbers of every class (unsigned 64-bit ones up to the signed maximum; complex parts as reals), logicals, texts, cells, structs, sparse matrices as column starts, row indices and values, one-row arrays as vectors and other two-dimensional ones as matrices. Numeric arrays with more dimensions are reported and store nothing; nothing else is printed and no memory outside the data is touched.',
 ['inputs'], 'all containers in the bounds; MATLAB arrays of every class, complexity and shape in the bounds, all bits of every number; nested cells and structs; previous contents',
 'the MATLAB interface is not part of the build: no test compiles or runs it', [ML, 'include/GenericContainer/GenericContainerInterface_matlab.hh'],
 [('GenericContainer_to_mxArray', ML), ('mxArray_to_GenericContainer, mxSparse_to_GenericContainer', ML), ('to_mxArray, mexPrint', ML)],
 note='MATLAB itself is replaced by a model of its documented matrix interface.')
JI='include/GenericContainer/GenericContainerInterface_'
prop('P28', 'Files, texts and streams are read alike and read errors are reported',
 'A JSON, YAML or TOML document or a table is accepted or refused alike, and gives the same content, whether it is read by file name, from a text or from a stream (one that can be rewound or not), whatever the target held before; what is written into a string replaces its content and is what is written to a stream. A file that does not exist or cannot be read, a stream that has failed before, and one whose reading fails at any position are reported and never taken as an empty or shorter document. A Lua script run from a file has the effect of the same commands, and a script that is missing, cannot be read or fails in any way is reported.',
 ['inputs','fault_sequences'], 'all texts and documents in the bounds, previous contents of the target, ways of reading, and every position at which reading fails',
 'tests read the intact files of the examples; no test has a missing file, a failing stream or one that cannot be rewound', [JI+'json.hh', JI+'yaml.hh', JI+'toml.hh', 'src/GenericContainerSupport.cc', 'src_lua_interface/GenericContainerInterface_lua.cc'],
 [('file_JSON_to_GC, JSON_to_GC, GC_to_JSON', JI+'json.hh'), ('file_YAML_to_GC, YAML_to_GC, GC_to_YAML', JI+'yaml.hh'), ('file_TOML_to_GC, TOML_to_GC, GC_to_TOML', JI+'toml.hh'), ('GenericContainer::read_formatted_data, read_formatted_data2', 'src/GenericContainerSupport.cc'), ('LuaInterpreter::do_file', 'src_lua_interface/GenericContainerInterface_lua.cc')],
 note='The file system is replaced by a table of files with contents and an optional position at which reading fails; replays use real files in a scratch directory.')
NA = []
