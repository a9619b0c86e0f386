#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The texts live here because JSON lines are unpleasant to edit."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(quant.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
            'mechanism': [dict(name=n, where=w) for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': None}})

U = 'pyuff/pyuff.py'
T = 'pyuff/tools.py'
def D(*ns): return ['pyuff/datasets/dataset_%d.py' % n for n in ns]
ALLD = D(15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467)
IDX = [('_block_ind', 'byte offsets of every set found by the last refresh', U),
       ('_set_types/_set_formats/_n_sets', 'index reported to the user', U),
       ('_refreshed', 'whether the index matches the file', U)]

prop('C01', 'A UFF file behaves as an ordered list of sets under any op sequence',
     """After any sequence of successful writes ('add' or 'overwrite', a single set or a list, ASCII or binary, supported or
     unsupported types) and reads through one UFF object, the file holds exactly the ordered list those writes imply: overwrite
     replaces everything, add appends, a set of an unsupported type contributes nothing. At every step the set count, types,
     formats and reads by index, by list of indices and of all sets agree with that list, and a newly created UFF object on the
     same file agrees too. Out-of-range indices and reads of a non-existing file raise an error and never return data.""",
     ['histories'], 'every sequence, up to a bounded length, over a menu of write and read operations, from an absent, empty or already filled file',
     'The tests run one or two fixed write/read sequences; stale-index and mode bugs need particular histories (overwrite after add, unsupported first, read before first write, list with binary set not first).',
     [U], [('write_sets/_write_set', U), ('refresh', U), ('read_sets/_read_set', U)], IDX,
     ['UFF.get_n_sets', 'UFF.get_set_types', 'UFF.get_set_formats', 'UFF.read_sets', 'file bytes'])

prop('C02', 'Every set in a file is found once, with its type, format and own content',
     """For every file that is a sequence of delimited sets - whatever mix of LF or CRLF line ends, delimiters blank-padded to 80
     columns, a missing final newline, text between sets (not itself starting a line with a delimiter), a last set cut short before its closing delimiter, unknown set types,
     and data lines, names or integer values that end in the characters of a delimiter - the object reports every complete set
     exactly once, in file order, with its own type and ASCII/binary format. The samples of a binary set may contain any byte
     values, including ones that spell a delimiter or a newline. Reading a set by its position yields the content of that set
     and nothing of its neighbours.""",
     ['inputs'], 'all combinations, within bounds, of set kinds, neighbours, line-end styles, delimiter paddings, gaps, terminations and look-alike contents',
     'The tests index a few sample files written by three programs; framing errors depend on byte patterns (delimiter text in values or binary samples, padding, CR/LF mixes) that those files do not contain.',
     [U] + D(58), [('delimiter scan in refresh', U), ('n_bytes handling for binary sets', U), ('_read_set slicing', U)], IDX,
     ['UFF.get_n_sets', 'UFF.get_set_types', 'UFF.get_set_formats', 'UFF.read_sets'])

prop('C03', 'ASCII functions (58) survive a write/read round trip',
     """A data-set 58 written in ASCII and read back has the same function type, ids, names, nodes, directions, axis descriptions,
     unit exponents and number of points, and the same abscissa and ordinate to the precision of the declared format, real or
     complex, evenly or unevenly spaced, single or double precision, for every number of points from one up. With force_double
     the ordinate comes back in double-precision format whatever precision was requested.""",
     ['inputs'], 'every number of points up to a bound (all line remainders) x real/complex x even/uneven x single/double x force_double x value magnitudes and signs x every header field at its extremes',
     'The tests round-trip a couple of fixed-size functions; line-remainder, column-width, sign and exponent effects depend on the point count and values.',
     D(58) + [U, T], [('_write58', D(58)[0]), ('_extract58', D(58)[0]), ('_parse_header_line', T)], (),
     ['UFF.write_sets', 'UFF.read_sets'])

prop('C04', 'Binary functions (58b) round trip bit-exactly and agree with ASCII',
     """A data-set 58 written in binary form and read back has bit-identical double-precision samples (single-precision samples
     when single precision is kept), for real and complex, even and uneven data of any length and any value or byte pattern, in
     'add' and in 'overwrite' mode and at any position in the file. Its header fields come back exactly as those of the same set
     written in ASCII, it is reported as binary, and the byte count in its header equals the size of the stored samples. Single
     and double precision binary sets in either declared byte order are read correctly.""",
     ['inputs', 'histories'], 'every point count up to a bound x real/complex x even/uneven x single/double x force_double x byte order x mode x position in file x adversarial byte patterns',
     'The existing tests write one binary function in add mode; overwrite, single precision, other byte order and adversarial bytes are never written.',
     D(58) + [U], [('_write58 binary branch', D(58)[0]), ('_extract58 binary branch', D(58)[0])], (),
     ['UFF.write_sets', 'UFF.read_sets', 'file bytes'])

prop('C05', 'Nodal results (55) survive a write/read round trip',
     """A data-set 55 of any analysis type the library writes (normal mode, complex eigenvalue, frequency response) with 3- or
     6-component, real or complex data, over any list of nodes including one node, comes back with the same ids, type codes,
     mode, load case and frequency data, modal parameters, node numbers and every component r1..r6 of every node, to format
     precision.""",
     ['inputs'], 'analysis type x data type x 3/6 components x node counts x node-number widths x value alphabets x every header field at extremes',
     'The tests round-trip one sample per analysis type with fixed sizes.',
     D(55) + [T], [('_write55', D(55)[0]), ('_extract55', D(55)[0])], (), ['UFF.write_sets', 'UFF.read_sets'])

prop('C06', 'Analysis data (2414) survives a write/read round trip',
     """A data-set 2414 whose location is nodes, elements or nodes on elements (1, 2, 3) - or, at nodes, of frequency-response analysis with complex data of up to three components - comes back after a write with the same
     header ids, codes, integer and real analysis data, entity numbers and values for every entity, to format precision, for any
     number of entities and any values of either sign; no data-set following it in the file is affected.""",
     ['inputs'], 'dataset location x analysis type x data characteristic x entity counts x value alphabets x header fields at extremes',
     'The tests read sample files and round-trip one of them.',
     D(2414) + [T], [('_write2414', D(2414)[0]), ('_extract2414', D(2414)[0])], (), ['UFF.write_sets', 'UFF.read_sets'])

prop('C07', 'Nodes and coordinate systems (15, 18, 2411, 2420) round trip',
     """Nodes written as data-set 15 or 2411 and coordinate systems written as 18 or 2420 come back with the same numbers, system
     ids, types, colors, names, coordinates and transformation matrices, entry for entry and in order, to format precision, for
     any number of entries including one.""",
     ['inputs'], 'entry counts x integer widths x colors x coordinate magnitudes/signs x matrix entries x names',
     'The tests use a handful of nodes and one or two systems with simple values.',
     D(15, 18, 2411, 2420) + [T], [('_write15/_extract15', D(15)[0]), ('_write18/_extract18', D(18)[0]), ('_write2411/_extract2411', D(2411)[0]), ('_write2420/_extract2420', D(2420)[0])], (),
     ['UFF.write_sets', 'UFF.read_sets'])

prop('C08', 'Connectivity and groups (82, 2412, 2429, 2467) round trip',
     """Trace lines (82), elements (2412), and permanent groups (2429, 2467) come back after a write with the same header values,
     names, and the same lists of nodes, elements or group entities in the same order and of the same length, for any list
     lengths including one, repeated numbers, zeros (pen lifts), several element kinds in a set, several groups in a set and groups without
     entities. (Elements are listed under the
     number of their kind, triangles of kind 41 and quads of kind 44 under their names as well.)""",
     ['inputs'], 'list lengths over all line remainders x repeated/zero entries x element kinds and node counts x group counts x entity counts x header fields at extremes',
     'The tests use one or two fixed lists; line remainders, repeated nodes, beam kinds, elements with more than eight nodes and multi-group sets are never written.',
     D(82, 2412, 2429, 2467) + [T], [('_write82/_extract82', D(82)[0]), ('_write2412/_extract2412', D(2412)[0]), ('_write2429/_extract2429', D(2429)[0]), ('_write2467/_extract2467', D(2467)[0])], (),
     ['UFF.write_sets', 'UFF.read_sets'])

prop('C09', 'Header sets (151, 164, 1858, 2400) round trip',
     """File header (151), units (164), function qualifiers (1858) and model header (2400) come back after a write with every text
     field, code, date, time, integer and conversion factor unchanged (reals to format precision), for field values up to the
     full width of each field.""",
     ['inputs'], 'every field at empty, short, full-width values; digit counts and signs; value alphabets; pairs of adjacent fields at full width',
     'The tests round-trip one instance of each.',
     D(151, 164, 1858, 2400) + [T], [('_write151/_extract151', D(151)[0]), ('_write164/_extract164', D(164)[0]), ('_write1858/_extract1858', D(1858)[0]), ('_write2400/_extract2400', D(2400)[0])], (),
     ['UFF.write_sets', 'UFF.read_sets'])

prop('C10', 'Written files follow the published universal-file record layout',
     """Every supported data-set is written so that any program that follows the published fixed-column record layouts of the
     format reads the same values: six-column delimiters and set number on lines of their own, every field in its documented
     columns, documented values per line, and header counts that match the data that follows.""",
     ['inputs'], 'the same input spaces as C03-C09, decoded by an independent fixed-column decoder',
     'The tests read files back only with the same library, so an error made alike by writer and reader goes unseen.',
     ALLD + [T], [('format strings in the writers', 'pyuff/datasets'), ('_write_record', T)], (), ['file bytes'])

prop('C11', 'Files that follow the published layout are read correctly',
     """A file laid out by the published fixed-column formats, by any program, is read with the values it encodes for every
     supported set type: E or D exponents where the layout uses D format, upper- or lower-case exponent letters, fields that touch without a separating blank in the fixed-column
     records of 58, 55 header lines and the header sets, LF or CRLF ends, and lines blank-padded to 80 columns or trimmed.
     Single and double precision, both byte orders, and multi-line records are read according to the set's own header.""",
     ['inputs'], 'set types x counts x value alphabets x encodings (exponent letter, padding, line ends), generated by an independent encoder',
     'The tests read a few vendor files; the combinations of layout freedom are far more.',
     ALLD + [T, U], [('_extract* readers', 'pyuff/datasets'), ('_parse_header_line', T)], (), ['UFF.read_sets'])

prop('C12', 'Reading and writing again preserves the sets of a file',
     """For any file of supported sets, writing what read_sets returned to a new file, and reading that, yields the same
     sets in the same order with the same values; repeating the cycle changes nothing further, and the second and later
     generations of the file are byte-identical.""",
     ['inputs', 'histories'], 'every data file shipped with the repository and the generated sets of C03-C09, through up to three generations, single sets and whole files',
     'The tests round-trip five sample files once, comparing some sets.',
     [U] + ALLD, [('read_sets -> write_sets', U)], (), ['UFF.read_sets', 'file bytes'])

prop('C13', 'A rejected set leaves the file untouched; writes are all-or-nothing',
     """When a write call for a set raises because the set is incomplete or ill-formed, the file is byte-for-byte what it
     was before the call (still absent if it was absent) in both 'add' and 'overwrite' mode, the object still reads every earlier set, and a
     later valid write works as if the rejected call had never been made. When a list of sets is written, the sets before the
     rejected one are stored completely and nothing of it or of later ones is.""",
     ['fault_sequences', 'histories'], 'every set type x every required key removed x every field replaced by unusable values x mode x earlier file content x position in a list, then a follow-up operation',
     'No test looks at the file after a failed write.',
     [U] + ALLD, [('_write_set', U), ('required-key handling in writers', 'pyuff/datasets')], IDX, ['exceptions of UFF.write_sets', 'file bytes', 'UFF.read_sets'])

prop('C14', 'An interrupted append never damages the sets already in the file',
     """If appending a set (that does not spell its own closing delimiter before its end) stops at any byte - the process is killed, or the system refuses to write more - every set that was in the
     file before is still reported and reads back the same, and the interrupted set is reported either not at all or completely.
     When the append fails with an error the caller gets that error, and the same or another set can be appended afterwards and reads
     back.""",
     ['crash_points', 'fault_sequences'], 'every byte of the appended data as cut point, by file prefix, by write error and by process kill, for every set type in ASCII and binary',
     'No test interrupts a write.',
     [U], [('write path of _write_set', U), ('delimiter pairing in refresh', U)], IDX, ['file bytes after the fault', 'UFF.read_sets of a new object'])

prop('C15', 'Reading is pure, repeatable and independent of order',
     """Reading sets, in any order, singly, by list or all at once, header-only or in full, repeatedly or through different objects, always gives the same
     values for the same set, leaves the file and its modification time unchanged, and what the caller does to a returned set
     never changes what a later read returns.""",
     ['histories'], 'every sequence of read operations up to a bound over files of all set types, with caller mutations of the results between reads',
     'The tests read each set once.',
     [U] + ALLD, [('read_sets', U), ('_extract*', 'pyuff/datasets')], IDX, ['UFF.read_sets', 'file bytes', 'mtime'])

prop('C16', "Writing never alters the caller's values and sets do not leak into each other",
     """Writing a set leaves every value the caller supplied in it unchanged (apart from replaced non-finite samples, and the documented automatic fields - data type, abscissa_min, n_bytes, counts and defaults, in groups too - which may be added or updated; modal_a and modal_b may become equal complex numbers), never modifies the caller's arrays in place, and
     the bytes stored for a set depend only on that set: writing the same set again, after other sets, or in a list with others
     produces the same bytes.""",
     ['inputs', 'histories'], 'every ordered pair of sets over all types and variants (same object twice, shared arrays, lists) x modes',
     'The tests never compare a set before and after, nor the bytes of one set in different contexts.',
     [U, T] + ALLD, [('_opt_fields', T), ('_write*', 'pyuff/datasets')], (), ["caller's dictionaries and arrays", 'file bytes'])

prop('C17', 'Header-only reading agrees with full reading',
     """Reading function sets with header_only returns exactly the header fields that a full read returns, with no data, for ASCII and binary sets of any
     length; other set types are read as usual, and the option never influences later reads.""",
     ['inputs', 'histories'], 'all 58 variants x lengths x neighbours, all other types, and all short sequences mixing header-only and full reads',
     'One test reads headers of one file.',
     D(58) + [U], [('_extract58 header_only', D(58)[0]), ('read_sets', U)], (), ['UFF.read_sets(header_only=True)'])

prop('C18', 'Omitted optional fields are stored with their documented defaults',
     """A set written without any subset of its optional fields is stored as if those fields had been given their documented
     default values; supplying an optional field is always honoured, and a set lacking a required field is refused with an error.""",
     ['inputs'], 'every set type x every single and every pair of optional fields omitted, all omitted, each required field omitted',
     'The tests omit a few fixed fields.',
     [T] + ALLD, [('_opt_fields', T), ('KeyError handlers', 'pyuff/datasets')], (), ['file bytes', 'exceptions of UFF.write_sets'])

prop('C19', 'prepare_* functions return exactly the fields they were given',
     """Each prepare_* function returns a set of the right type in which every argument given appears unchanged under its own name and
     no other field takes its value, with all other documented fields present when return_full_dict is set and absent otherwise; the result can be written and read back with
     those values.""",
     ['inputs'], 'every function x each argument singly, every pair of arguments, and all arguments with pairwise distinct values x return_full_dict',
     'The tests check that a call with all arguments does not raise and compare a few keys.',
     ALLD, [('prepare_*', 'pyuff/datasets')], (), ['prepare_* return values'])

prop('C20', 'prepare_* functions refuse values outside the documented types',
     """Each prepare_* function raises an error when an argument has a type other than the documented one (text where numbers are wanted, numbers where text is wanted,
     fractional values where whole numbers or codes are wanted) or is a code outside the listed values, and accepts every listed value; it never alters its arguments.
     The fields of data-set 58 that are ignored on writing (spec_data_type, byte_ordering, fp_format, n_ascii_lines, n_bytes) are not concerned, nor are whole
     floats equal to a listed code, int32 arrays, and a scalar in place of a list of numbers.""",
     ['inputs'], 'every function x every argument x a menu of ill-typed values and, for code arguments, every integer near the documented range',
     'The tests do not call prepare functions with bad values.',
     ALLD, [('argument checks in prepare_*', 'pyuff/datasets')], (), ['exceptions of prepare_*'])

prop('C21', 'fix_58b repairs the misplaced delimiter and changes nothing else',
     """For a file of sets that follow each other directly, fix_58b writes a new file in which every closing delimiter that stood on a line of its own after the data follows
     that data directly, all other bytes are unchanged (blanks after a moved delimiter may go and its line end may become a plain newline), the original file is untouched, and every set of the original is found
     in the new file with the same content; binary sets that could not be read because of the stray line break read correctly.""",
     ['inputs'], 'all short files over set kinds x line ends x final newline x explicit or default target name',
     'One test fixes one vendor file.',
     D(58), [('fix_58b', D(58)[0])], (), ['new file bytes', 'UFF.read_sets'])

prop('C22', '2412 to 82 conversion draws exactly the edges of every quad',
     """convert_dataset_2412_to_82 returns, for each 2412 set that holds quads (has a non-empty 'quad' entry) and in order, one trace-line set with a trace number of its own whose lines are the
     four closed edges of each of that set's quads, separated by pen lifts, and nothing from other sets; sets of other types or without quads
     contribute nothing, and the input is not changed.""",
     ['inputs'], 'all lists up to a bounded length of quad, triangle, mixed and foreign sets with 0 to several elements',
     'One test converts a single sample.',
     [T], [('convert_dataset_2412_to_82', T)], (), ['returned sets'])

prop('C23', 'One damaged set does not affect reading the others',
     """If the content of one set is damaged in any way that leaves the delimiters in place (the damage spells no delimiter, and a damaged byte count does not point at the closing delimiter of another set), the other sets are still counted, typed and read
     exactly as before, and reading the damaged set either raises an error or returns a set; it never hangs, and afterwards the same object still reads the
     others.""",
     ['fault_sequences', 'inputs'], 'set type x position among neighbours x every line removed, duplicated, emptied or truncated and every column overwritten',
     'No test reads damaged files.',
     [U] + ALLD, [('exception handling in refresh/_read_set', U)], IDX, ['UFF.read_sets', 'UFF.get_set_types'])

prop('C24', 'Non-finite samples are stored as finite numbers',
     """In a function written with NaN or infinite ordinate samples, at any positions, real or complex, ASCII or binary, every NaN is stored as zero, every infinity as the largest number of double precision of its sign (in single-precision binary data: infinity or the largest of that precision), and all other samples as without them; the caller's own array is
     not changed.""",
     ['inputs'], 'all placements of NaN/+inf/-inf over short functions x real/complex x even/uneven x ASCII/binary x precision',
     'No test writes non-finite data.',
     [U] + D(58), [('nan_to_num in _write_set', U)], (), ['UFF.read_sets', "caller's array"])

prop('C25', 'After refresh an object reflects the file as it is now',
     """When a file is changed by another UFF object or program - extended, replaced, emptied, deleted or recreated - an object that is then refreshed,
     or that writes, reports exactly the sets now in the file, and reads them (before that, nothing is promised); a write in 'add' mode by one of two objects never
     loses what the other wrote.""",
     ['schedules', 'histories'], 'all interleavings of short operation sequences of two objects on one file and of outside changes to it',
     'The tests use one object per file.',
     [U], [('refresh', U), ('_write_set refresh after write', U)], IDX, ['UFF.get_*', 'UFF.read_sets'])

prop('C26', 'Objects on different files, and different threads, do not interfere',
     """Two UFF objects on different files, driven by different threads in any interleaving, each behave as if they were
     alone: files, indexes and read results are those of the sequential run.""",
     ['schedules'], 'all schedules up to a preemption bound, with switch points at every executed line of the library, for pairs of operations over all set types',
     'The tests are single-threaded; shared scratch state or mutable defaults only show under interleaving.',
     [U, T] + ALLD, [('absence of shared mutable state', 'pyuff')], (), ['file bytes', 'UFF.read_sets'])

prop('C27', 'The file is open only while an operation runs',
     """After every call - successful or failing, reading, writing, refreshing or fixing - the library holds no open file, so the file
     can be replaced or deleted; everything a successful write stored is in the file when the call returns.""",
     ['histories', 'fault_sequences'], 'every operation of every kind, successful and failing at each point, followed by an inspection of open descriptors and of the file through another descriptor',
     'No test inspects open files.',
     [U] + D(58), [('open/close in refresh, _read_set, _write_set, fix_58b', U)], (), ['/proc/self/fd', 'file bytes at return'])

prop('C28', 'Files and results do not depend on the environment',
     """The bytes written and the values read for the same sets are the same under every locale, time zone, hash seed, current directory and
     interpreter optimisation level, and whatever numpy's print options are, and so are the results and refusals of the prepare_* functions; only a date and time the caller left out may differ.""",
     ['configurations'], 'combinations of locale, encoding mode, hash seed, time zone, optimisation, print options and relative/absolute path settings over all set types',
     'The tests run in one environment.',
     [U] + ALLD, [('explicit utf-8 encoding and fixed formats', U)], (), ['file bytes', 'UFF.read_sets'])

prop('C29', 'Over-long text never disturbs other fields or other sets',
     """A text field longer than its columns, or containing any characters that end no line, non-ASCII and control characters included (after a first one that is not blank), never changes any other field of the set nor any other
     set: either the write is refused or the text is stored cut to its field and everything else reads back unchanged.""",
     ['inputs'], 'every text field of every set type x lengths around its width x character classes',
     'The tests write short ASCII texts.',
     ALLD + [T], [('format strings in the writers', 'pyuff/datasets')], (), ['UFF.read_sets'])

prop('C30', 'Any file can be opened and asked',
     """For a file with any bytes at all - empty, cut anywhere, with odd line ends, half delimiters, damaged or foreign content, wrong byte counts in binary headers - making an object and asking for the
     number, types and formats of its sets neither raises nor hangs, and the three answers agree with each other. Every set they report is, when read by its index, either returned as a dict of the reported type
     or refused with an error; reading all sets succeeds exactly if every one can be read; indices outside the range are refused; asking again, a refresh and a new object give the same, and the file
     is never changed.""",
     ['inputs', 'fault_sequences'], 'every short sequence of lines over an alphabet of delimiters, near delimiters, headers and noise, every short string of bytes, every damaged byte of a file of several sets',
     'The tests open a few well-formed files.',
     [U] + D(58), [('refresh and its block finding', U), ('_read_set', U)], IDX, ['UFF', 'UFF.get_n_sets', 'UFF.get_set_types', 'UFF.get_set_formats', 'UFF.read_sets'])

prop('C31', 'A write changes no byte that was in the file',
     """Adding sets leaves every byte the file held where it was, whatever those bytes are (text, sets of other programs, pieces of sets, any line end, any size), and puts exactly the bytes that
     writing the same set alone gives after them, preceded by at most a line end if the file did not end with one; overwriting leaves exactly those bytes. A list gives the bytes of its sets in order. Sets of
     unsupported types add nothing, and a refused set, an unknown mode or an empty list changes nothing. The mode is not case-sensitive.""",
     ['histories', 'inputs'], 'every previous content of a menu, of every last byte and of every size around buffer sizes x every set kind x mode x way to write, and sequences of writes',
     'The tests add to files pyuff has just written itself and do not compare bytes.',
     [U] + ALLD, [('_write_set', U)], (), ['file bytes'])

prop('C32', 'A reader beside an append never misses or misreads earlier sets',
     """While one thread or program adds sets to a file, another that opens, refreshes and reads the same file with an object of its own finds, at every moment, all sets that were in the file before, with
     their types and contents, and the sets being added only as a whole or not at all, or as a last unfinished set; it never raises for the earlier ones. When the append is over, both see all sets.
     (The bytes of the added sets do not spell their own closing delimiter before their end.)""",
     ['schedules', 'crash_points'], 'all interleavings of an appending and a reading thread at the lines of the library up to a preemption bound, and every pair of bytes of the append as the moments of the refresh and of the read',
     'The tests are single-threaded and read only finished files.',
     [U] + ALLD, [('_write_set storing', U), ('refresh', U)], IDX, ['UFF.read_sets', 'UFF.get_set_types'])

prop('C33', 'The kind of every returned field depends only on type and layout',
     """The fields of a set that was read, and the python type, element type and dimensions of each of them, depend only on the type of the set and the layout it has (for example real or complex, even or uneven,
     precision, analysis type): not on the values or the number of entries (one is not special), on who wrote the file, on the place of the set in it, on the other sets, nor on the way it was asked for.
     The answers of the query methods have one kind each, too.""",
     ['inputs'], 'every layout of every set type x counts of entries x every field and column at every value of an alphabet x writers x places in a file x ways to ask',
     'The tests compare values of a few files, mostly with comparisons that do not tell scalars from arrays.',
     [U] + ALLD, [('the readers', 'pyuff/datasets'), ('read_sets', U)], (), ['UFF.read_sets'])

prop('C34', 'Exactly the listed set types are stored and read; queries are truthful',
     """get_supported_sets lists exactly the types that write_sets stores: any other type, of any value, is ignored when written and comes back as a set with nothing but its type number when a file that holds it is
     read, with the same number reported by the index. After every operation file_exists, get_file_name, get_status, refresh and the counts say what is true of the file.""",
     ['inputs', 'histories'], 'every type number up to a bound and the edges beyond, written and read; every history of writes, reads, refreshes and outside removals up to a depth with all queries after each step',
     'The tests ask once for the supported sets and never write an unsupported one.',
     [U], [('get_supported_sets', U), ('dispatch in _read_set and _write_set', U), ('file_exists/get_status/refresh', U)], IDX, ['UFF.get_supported_sets', 'UFF.get_status', 'UFF.file_exists', 'UFF.read_sets'])

prop('C35', 'An object works on exactly the file it was given, whatever its name',
     """Whatever the name of the file - any ending or none, blanks, quotes, wildcards, variables, percent signs, non-ASCII letters - and however it is given - relative, absolute, as a Path, through links, by keyword - all
     operations of an object read and change that file only: no other file is made, changed or removed, links stay links, and the results are the same for every name.""",
     ['inputs', 'histories'], 'names x ways to give them x sequences of operations in a folder with other files, and every name of one and two characters of an alphabet',
     'The tests use a few plain relative names.',
     [U], [('__init__, file_exists, open calls', U)], (), ['directory contents', 'file bytes', 'UFF.read_sets'])

prop('C36', 'A call leaves the process as it was',
     """Apart from the file, the object and the dictionaries it was given, no call of the library - successful or failing - changes anything in the process that a caller could notice: current folder, environment, umask, locale,
     time zone, numpy's error state, print options and random state, the random generator, warning filters, streams, recursion and resource limits, signal handlers, threads, open descriptors, temporary files.
     Reading, writing and preparing sets print nothing (except that reading a 2414 of a location that is not supported says so; fix_58b tells where it wrote).""",
     ['histories', 'configurations'], 'every call, successful and failing, on every layout of every set type and for every prepare argument, in a usual and in an unusual state of the process; every pair of calls',
     'No test looks at the process around the calls.',
     [U, T] + ALLD, [('absence of global side effects', 'pyuff')], (), ['process state before and after each call'])

prop('C37', 'What is stored depends on the values, not on what holds them',
     """The same set stored from another form of its dictionary gives the same bytes: whole numbers as python or numpy integers of any size, whole floats or 0-d arrays, the flags of 58 (binary, abscissa_spacing) as bool, too; real and complex numbers as python or numpy numbers
     that hold them exactly; columns as list, tuple or array of any element type; texts as instances of a subclass of str; keys in any order, a subclass of dict, and further keys the set type does not know. (Exceptions:
     the matrices of 2420 are arrays, the version and type numbers of 151 integers, elements and groups are in lists; the element type of the values of 58, 55 and 2414 still tells real from complex.)""",
     ['inputs'], 'every layout of every set type x every value in it x every form that holds the value; all values at once; every key first and last; every field of the other types as an extra one',
     'The tests write each set in the one form they read or prepared it in.',
     ALLD + [U, T], [('conversion in the writers', 'pyuff/datasets')], (), ['file bytes'])

prop('C38', 'A call interrupted at any point gives nothing wrong and leaves nothing half done',
     """When a call of the library is interrupted anywhere in it - Ctrl-C, no memory left, an error of the system - it either raises or has done exactly what it does otherwise: what it returns is what the uninterrupted call returns,
     and a set that cannot be read or a call that is refused is not accepted for it. Reads, refreshes and queries never change the file, and the same object answers the same call correctly afterwards. An interrupted append has
     added nothing or a whole set (of a list: the first sets), an interrupted overwrite has left the old file, an empty one or whole new sets; writing the same dictionaries again stores what the first call would have stored, and
     after a refresh the object agrees with a new one. prepare_* functions, the 2412 conversion and fix_58b leave their arguments and the original file as they were. No file stays open and nothing else in the process changes.""",
     ['fault_sequences'], 'every call on every kind of set x every point of execution inside the library x kind of exception', 'No test interrupts a call; where an exception is swallowed shows only when it arrives in one particular line.',
     [U, T] + ALLD, [('exception handlers of refresh, _read_set, _write_set, _store', U), ('exception handlers of the readers, writers and prepare functions', 'pyuff/datasets')], IDX, ['results', 'file bytes', 'open descriptors'])

prop('C39', 'A set with unexpected values is refused or stays one set',
     """Whatever a field of a set given to a write holds - nothing, None, a value of another kind, a column that is too short or too long, a number without bounds, an object that cannot be printed - the write either raises, and the file
     is as it was (of a list, the sets before the refused one are stored), or the file holds exactly one more set, of the type that was given: every set before and after it is found with its own type and reads as it
     always did, the object that wrote and a new one agree, reading the new set ends with a dictionary of that type or an error, and further sets can be added and read. (Texts do not hold a line that is a delimiter.)""",
     ['inputs'], 'every layout of every set type x every field of it and of its groups and elements x every odd value x every way of writing; pairs of fields', 'The tests write well-formed sets.',
     [U, T] + ALLD, [('write_sets, _write_set', U), ('conversion in the writers', 'pyuff/datasets')], IDX, ['file bytes', 'types and sets read'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        fh.write(json.dumps(p) + '\n')
print(len(P), 'properties')
