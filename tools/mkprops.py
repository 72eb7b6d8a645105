#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording edits are reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

S = "src/libzt/"
p("C01", "A hash table behaves as a finite map under every history of operations",
  "After any history of insertions, deletions, copies and traversals, looking up a key returns exactly the datum stored for it (storing under a present key is refused and keeps the resident entry unless duplicates are allowed), a deleted or never-stored key is reported absent, deletion hands back the datum it removed and leaves every other key reachable, and a traversal visits each live entry exactly once with the key and datum it was stored with and stops when the visitor asks. "
  "This holds for integer, string, case-insensitive string, binary-buffer and user-supplied key functions, for every size hint and collision pattern, with and without duplicate keys allowed (duplicates: newest first). "
  "Destroying the table releases everything it allocated and touches nothing it does not own.",
  ["histories", "inputs", "configurations"],
  "every operation history, every key type (including user hash functions returning any value), every size hint and flag combination",
  "table_test inserts a few dozen fixed keys and deletes one; chains longer than two, deletion in the middle of a chain, embedded zero bytes and adversarial hashes are never reached.",
  [S+"zt_table.c", S+"zt_table.h"],
  [("bucket chains with head insertion", "zt_table_set / zt_table_get / zt_table_del"), ("bucket count selection", "zt_table_init"), ("duplicate policy", "ZT_TABLE_ALLOW_DUP_KEYS"), ("traversal", "zt_table_for_each / zt_table_copy")],
  ["return values of every table call", "arguments passed to the iterator"])
p("C02", "Sets obey set algebra",
  "A set's membership and element count always equal those of the mathematical set produced by the same history of insertions (re-inserting is reported as already present) and removals. "
  "Union, intersection and difference of any two sets yield exactly the mathematical result and leave the operands unchanged; subset and equality agree with it; iteration visits each member exactly once and stops on request.",
  ["histories", "inputs"], "every pair of element populations (overlapping, disjoint, nested, empty) and every operation history",
  "set_test uses three fixed sets of small integers; overlap patterns and removal of members are not varied.",
  [S+"zt_set.c", S+"zt_set.h", S+"zt_table.c"],
  [("membership stored in a table", "zt_set_insert / zt_set_remove / zt_set_is_member"), ("algebra", "zt_set_union / zt_set_intersection / zt_set_difference / zt_set_is_subset / zt_set_is_equal")])
p("C03", "The ordered tree is a correct, balanced ordered dictionary",
  "After any history of insertions and removals the tree contains exactly the inserted-and-not-removed nodes in comparator order: insertion of an equal element is refused and returns the resident one, exact find, find-at-or-above, minimum, maximum, successor and full or deletion-safe traversal agree with a sorted model. "
  "The tree stays balanced (red-black colouring rules and consistent parent links, so height is at most 2*log2(n+1)), whatever the order of operations.",
  ["histories", "inputs"], "every insertion/removal order over every key population",
  "tree_test inserts ten fixed numbers and walks them; the rebalancing cases on removal are only reachable through many distinct histories.",
  [S+"zt_tree.c", S+"zt_tree.h"],
  [("red-black insertion/removal rebalancing", "zt_rbt_insert / zt_rbt_remove"), ("ordered queries", "zt_rbt_find / zt_rbt_nfind / zt_rbt_next / zt_rbt_minmax")])
p("C04", "Linked lists, queues and stacks keep every element exactly once, in order",
  "Under any history of insertion (at either end or next to any element), removal, joining and traversal, an intrusive list holds exactly the elements placed on it, each once, in the specified order, readable identically forwards and backwards; a queue returns elements first-in first-out and a stack last-in first-out. "
  "Emptiness is reported exactly when nothing is held, taking from an empty queue or stack yields no element, and safe traversals tolerate removal of the current element.",
  ["histories"], "every operation history over any number of lists sharing a population of elements",
  "list/queue/stack tests walk one fixed sequence of ten elements each.",
  [S+"zt_list.h", S+"zt_queue.h", S+"zt_stack.h"],
  [("circular doubly linked list", "zt_elist_*"), ("queue and stack wrappers", "zt_queue_* / zt_stack_*")])
p("C05", "Cons-list functions compute the list they are specified to compute",
  "For every list, consing, pushing, popping (of items or cells), indexing, taking tails, reversing (by copy or in place), splitting into halves, merging and sorting by a predicate yield exactly the corresponding sequence of the same values in the specified order; copying functions leave their argument unchanged and in-place ones reuse its cells without losing or duplicating a value. "
  "Freeing every resulting list returns all memory with no cell released twice.",
  ["inputs", "histories"], "lists of every length, composed operations",
  "llist_test exercises each function on one short list.",
  [S+"zt_llist.h", S+"zt_llist.c"], [("cons cells", "zt_llist_cons / zt_llist_reverse / zt_llist_nreverse / zt_llist_split / zt_llist_nmerge / zt_llist_sort")])
p("C06", "A pointer array is a faithful growable sequence",
  "After any history of additions, removals, index reads, moves, resizes, copies and concatenations (including an array with itself) the array's count and contents equal the same operations on a sequence in which a removal takes out one occurrence and fills its place with the last element; removal reports success exactly when the element was present, index -1 reads the last element, and every other out-of-range index is rejected. "
  "No operation reads or writes outside the array's storage, a removed or finally released pointer is handed to the owner's callback exactly once, and failed operations leave the array unchanged.",
  ["histories", "inputs"], "every operation history and index (negative, boundary, out of range)",
  "There is no test of pointer arrays.",
  [S+"zt_ptr_array.c", S+"zt_ptr_array.h"], [("growth and shifting", "zt_ptr_array_add / _del / _move_idx_to_idx / _resize / _cat / _copy_data")])
p("C07", "A fixed-element array stores, copies and resizes elements faithfully",
  "For every element size and length, a new array is zero filled, reading an index (in place or by copy) returns the bytes last stored there, a resize keeps the common prefix and clears what it adds, copies of any length equal the common prefix and are independent of the original, and loading from caller data or a string reproduces it. "
  "Length and element size are always reported exactly, no access leaves the array's storage, and freeing releases all of it exactly once.",
  ["histories", "inputs"], "every element size, length and operation history",
  "array_test uses one int array of length ten.",
  [S+"zt_array.c", S+"zt_array.h"], [("element addressing by length*size", "zt_array_get / zt_array_put / zt_array_elem_copy"), ("resize and copy", "zt_array_resize / zt_array_copy / zt_array_with / zt_array_set_data")])
p("C08", "A byte buffer is a lossless first-in first-out byte queue",
  "After any history of appends (single, vectored, or moved from another buffer), drains, removals, reservations and expansions, the buffer's length and readable bytes equal those of the model byte sequence: appended data comes last, draining or removing takes exactly the oldest bytes requested (at most everything), a drain returns how many remain and a removal copies out exactly what it takes and returns its size; an empty buffer yields no data. "
  "Growth, including after partial drains, never loses or alters a byte; the free space reported really exists, covers what was reserved, and an impossible request is refused leaving the content intact. No operation leaves the allocation, and freeing releases everything exactly once.",
  ["histories", "inputs"], "every history of append/drain/remove/reserve sizes over any number of buffers",
  "buf_test performs one fixed dozen of operations; growth after partial drains and capacity accounting are never stressed.",
  [S+"zt_buf.c", S+"zt_buf.h"], [("capacity accounting and growth", "zt_buf_add / zt_buf_expand / zt_buf_reserve / zt_buf_unused_sz"), ("draining", "zt_buf_drain / zt_buf_remove"), ("moving", "zt_buf_add_buf / zt_buf_iov_add")])
p("C09", "A binary stream reads back exactly what was written",
  "Every sequence of 8/16/32/64-bit integers, floats, doubles and arrays written to a stream is read back bit-for-bit in the same order after rewinding; with byte flipping enabled each value or array is stored (or read) byte-reversed, so that flipping on both sides restores it and on one side reverses it. "
  "Seeking (even behind the end), truncating, rewinding, emptiness, cloning, replacing the data or the underlying array and re-writing in the middle behave like a random-access file that grows on demand with holes reading as zero; clones read as their original would and are independent, and no sequence of writes leaves the stream's storage, loses earlier data or leaks.",
  ["histories", "inputs", "configurations"], "every sequence of typed writes, offsets and flip settings",
  "bstream_test writes a fixed handful of values; growth across writes, overwrites, positions behind the end and array writes are not varied.",
  [S+"zt_bstream.c", S+"zt_bstream.h", S+"zt_array.c"], [("growth", "zt_bstream_write"), ("byte flipping", "_array_put / _array_get"), ("data replacement", "zt_bstream_set_data / zt_bstream_set_array / zt_bstream_clone")])
p("C10", "Base-16/32/64 coding is RFC 4648 and round-trips every byte string",
  "Encoding any byte string in any of the supported alphabets, with or without padding, yields exactly the RFC 4648 text, and decoding that text (with embedded white space, and with or without its padding) returns the original bytes. "
  "Decoding any other text either is rejected (foreign character, impossible number of digits) or yields bytes that re-encode to the same alphabet characters up to the unused bits of the last one; encoded sizes are reported exactly and decoded sizes never under-estimated, a too-small buffer is refused untouched, and neither direction writes past the size it was given, reads past its input or modifies it.",
  ["inputs"], "every byte string, every text, every buffer size, alphabet and padding setting",
  "base_test uses the RFC vectors and a few malformed strings.",
  [S+"zt_base.c", S+"zt_base.h"], [("table-driven encode", "zt_base_encode"), ("validating decode", "zt_base_decode")])
p("C11", "String queries return what they are specified to return and modify nothing",
  "For every string and index pair (negative indices count from the end, indices behind the end mean the last character, swapped indices are the same slice, an empty string is an empty slice), slice length and position conversion, three-way comparison of slices, forward and reverse character search, any-of and up-to search, substring search in either direction (absolute positions, -1 when not found; single-character search reports 0), reverse span/complement-span and the absolute-path test return the result of a reference model. "
  "They never read outside the string and never modify it.",
  ["inputs"], "every string and index pair over small alphabets and all byte values",
  "cstr_test fixes one sentence and a few index pairs.",
  [S+"zt_cstr.c", S+"zt_cstr.h"], [("index conversion", "IDXLEN/IDX/CONVERT in zt_cstr.c"), ("searches", "zt_cstr_find / rfind / any / rany / chr / rchr / upto / rupto / cmp / rspn / rcspn")])
p("C12", "String construction and in-place editing produce exactly the specified text",
  "For every input, slicing, repetition, concatenation of slices, reversal, character mapping, copying, splitting at delimiters, cutting into suffixes or prefixes, chomping and stripping, integer formatting at an offset, hexadecimal conversion in both directions, hex dumping (from memory or a reader, to a callback or standard output), and path base/directory/append operations produce exactly the reference result, within the given buffer size, terminated where a string is promised, and report insufficient space, malformed digits or a stopping printer as documented. "
  "Inputs are not modified; results handed to the caller are independent of them and freeing the results releases everything.",
  ["inputs"], "every string, slice, buffer size and numeric value",
  "cstr_test fixes a few literals per function; buffer boundaries, empty strings and odd lengths are not covered.",
  [S+"zt_cstr.c", S+"zt_cstr.h"], [("construction", "zt_cstr_sub / dup / cat / catv / reverse / map / copy"), ("editing", "zt_cstr_strip / chomp / split / cut / tok"), ("conversions", "zt_cstr_itoa / zt_binary_to_hex / zt_hex_to_binary / zt_hexdump"), ("paths", "zt_cstr_basename / dirname / path_append")])
p("C13", "The formatting engine prints what C printf would and never overruns its buffer",
  "For every supported conversion (c d u o x e f g s p), flag, width, precision (literal or taken from the arguments) and argument the formatted text and the reported length equal those of standard C formatting (pointers: bare hexadecimal), for every output sink (string buffer, stream, allocated string, caller-supplied function); both introducers and their escapes work. "
  "Formatting into a bounded buffer stores the prefix that fits, reports what it stored, never writes past the buffer and always terminates it; no conversion reads a string argument beyond its precision or terminator. User-registered conversions receive exactly their own arguments, flags, width and precision, and later arguments stay in step.",
  ["inputs", "configurations"], "every combination of flags, width, precision, conversion and argument; every buffer size",
  "format_test compares some dozens of fixed formats with an off-by-one comparison function.",
  [S+"zt_format.c", S+"zt_format.h"], [("conversion parsing", "zt_vfmt"), ("padding", "zt_fmt_putd / zt_fmt_puts"), ("sinks", "zt_fmt_sprintf / zt_fmt_strprintf")])
p("C14", "Pools never hand out overlapping live blocks and conserve their elements",
  "Every block obtained from a heap, pool or pool group is aligned for ordinary objects, at least as large as requested, disjoint from every other live block, and keeps the bytes its holder wrote until it is returned; a returned block becomes reusable (a pool grows only when every element is in use) and the reported statistics (elements and pages held, free, allocated and freed) agree with the live population at all times. "
  "A page is given back exactly when its last element returns and the pool's policy (default, never-free, or the caller's release test, told the true page counts) says so; a group serves each request from the smallest pool whose elements fit; a pool with live elements refuses destruction, and destroying a pool, group or heap returns every byte exactly once.",
  ["histories", "configurations"], "every allocation/free history, element size, page size and cache setting",
  "mem_test and mem_pools perform one fixed sequence of allocations and never check block overlap or statistics.",
  [S+"zt_mem.c", S+"zt_mem.h"], [("free list and pages", "zt_mem_pool_alloc / zt_mem_pool_free"), ("page release", "zt_mem_pool_release_free_pages"), ("size classes", "zt_mem_pool_group_alloc")])
p("C15", "A nested memory pool frees everything it owns exactly once",
  "Every buffer allocated from, duplicated into or added to an easy memory pool stays valid and unmodified until that pool is destroyed, and destroying a pool releases all its buffers and, recursively, all its sub-pools exactly once, through the deallocator each buffer was added with. "
  "Destroying a sub-pool leaves its parent and siblings (and their contents) intact, whatever the shape of the pool tree and the order of destruction.",
  ["histories"], "every tree of pools and every order of additions and destructions",
  "There is no registered test that destroys sub-pools in varying order.",
  [S+"zt_ez_mempool.c", S+"zt_ez_mempool.h"], [("sub-pool list", "zt_ez_mempool_init / zt_ez_mempool_destroy"), ("buffer list", "zt_ez_mempool_add_buffer")])
p("C16", "The garbage collector frees each unreachable object once and never a live one",
  "Whatever the object graph, the interleaving of registrations, protections, unprotections, pointer writes announced through the write barrier and incremental or full scans, an object reachable from a protected root is never released, and the collector never touches a released object. "
  "After mutation stops, a bounded number of full scans releases every unreachable object, including cycles, exactly once, and destroying the collector releases each remaining object exactly once.",
  ["histories", "schedules", "configurations"], "every mutation history, graph shape and incremental scan setting",
  "gc_test builds two fixed graphs and counts marks.",
  [S+"zt_gc.c", S+"zt_gc.h"], [("tri-colour incremental scan", "zt_gc_scan / zt_gc_mark / zt_gc_mark_value"), ("roots", "zt_gc_protect / zt_gc_unprotect"), ("barrier", "zt_gc_register_value / zt_gc_enable")])
p("C17", "SHA-1 digests are correct for every message however it is fed",
  "For every message and every way of splitting it into updates, the digest equals the FIPS 180-1 SHA-1 of the concatenated message, the caller's data is not modified or read beyond its length, and one digest computation does not influence another, interleaved or concurrent. "
  "Rendering a digest as hexadecimal and parsing it back are exact inverses.",
  ["inputs", "histories", "schedules"], "every message, alignment and chunking",
  "sha1_test uses three published vectors.",
  [S+"zt_sha1.c", S+"zt_sha1.h"], [("block buffering", "zt_sha1_update"), ("padding", "zt_sha1_finalize"), ("hex form", "zt_sha1_tostr / zt_str_tosha1")])
p("C18", "Hash functions are FNV-1a, composable and length-exact",
  "The 32- and 64-bit hashes of any byte string equal FNV-1a from the given starting value (zero standing for the FNV offset basis), hashing a concatenation equals chaining the hashes of its parts, string and buffer forms agree, and folding to narrower widths equals xor-folding and stays within the requested width. "
  "No byte outside the given length influences the result or is read.",
  ["inputs"], "every byte string, split, starting value and mask width",
  "hash_test checks a handful of strings.",
  [S+"zt_hash.c", S+"zt_hash.h"], [("FNV loops", "zt_hash32_buff / zt_hash64_buff / zt_hash32_cstr / zt_hash64_cstr"), ("folding macros", "ZT_HASH*_MASK")])
p("C19", "Seeded random generators reproduce MT19937 and are independent",
  "A generator seeded with any integer or any non-empty array yields exactly the MT19937 reference sequence, in every output form (32-bit, and the real intervals, whose results always lie inside their interval); an unseeded generator seeds itself from the clock. "
  "Generators with separate state do not affect one another, interleaved or used by different threads, and a copied state continues like the original.",
  ["inputs", "histories", "schedules"], "every seed, seed array, output position and interleaving of generators",
  "random_test prints a few values from one seed.",
  [S+"zt_random.c", S+"zt_random.h"], [("state refill", "zt_random_mt_*")])
p("C20", "UUIDs are well formed, name-deterministic, unique when random, and round-trip",
  "Name-based identifiers equal the RFC 4122 version-5 value of namespace and name, random identifiers carry version and variant bits and never repeat, across threads and processes alike; every identifier survives conversion to each of its text forms and back, comparison is equality of all 128 bits, and text forms always have their documented length and alphabet. "
  "Parsing rejects any text that is not a well-formed identifier without reading beyond it.",
  ["inputs", "schedules", "histories"], "every namespace/name, every 128-bit value, every text, every number of generating threads",
  "uuid_test makes a few identifiers in one thread.",
  [S+"zt_uuid.c", S+"zt_uuid.h"], [("version 5", "zt_uuid5"), ("version 4 seeding", "zt_uuid4"), ("text forms", "zt_uuid_tostr / zt_uuid_fromstr")])
p("C21", "The IPv4 table answers containment exactly",
  "After any history of adding networks, as text or as nodes, searching an address or a network succeeds exactly when some network in the table contains it, and returns such a network of that table; every prefix length including zero, single hosts, duplicates and every table size are handled, text and numeric forms convert exactly, and malformed network text is refused. "
  "Tables are independent of each other; searching leaks nothing, and destroying a table releases everything it held and touches no other table.",
  ["histories", "inputs"], "every set of prefixes, every address, any number of tables of any size",
  "The existing ipv4 test is not even registered; it probes a handful of addresses.",
  [S+"zt_ipv4_tbl.c", S+"zt_ipv4_tbl.h"], [("per-prefix hash buckets", "zt_ipv4_tbl_add_node / zt_ipv4_tbl_search_node"), ("text parsing", "zt_ipv4_str2net"), ("ownership", "zt_ipv4_tbl_destroy")])
p("C22", "Configuration files parse into exactly the typed values they contain",
  "Every well-formed configuration text yields, for each block and variable, the last value written there with its type (boolean, integer, float, bare or quoted string), references to variables defined earlier follow their target, comments and blank lines are ignored wherever they may stand, and programmatic sets read back exactly, of any type; absent names and mismatched types are reported as errors and leave the caller's variable alone. "
  "Any byte sequence whatsoever used as a configuration file is either parsed, or rejected with a report in the log, without memory error, hang or leak, and closing a configuration releases everything.",
  ["inputs", "histories"], "every configuration text (well formed or hostile) and every history of gets and sets",
  "cfg_test loads one file.",
  [S+"zt_cfg.c", S+"zt_cfg/cfg_ini.c", S+"zt_cfg/cfg_private.c"], [("line parser", "parse_file in cfg_ini.c"), ("block/variable store", "cfg_private.c")])
p("C23", "Command-line options are delivered exactly once, in order, with the right value",
  "For every sound option table and argument vector, each option occurrence (short, clustered, long; value attached, after '=' or as the next argument) is delivered once, in command-line order, with exactly its value converted to its declared type (a value attached to a short option is never taken for further options); processing stops at the first non-option and reports its position, and a negative callback result ends it at once. "
  "Unknown options (each by exactly its own name), missing values, malformed and out-of-range numbers and booleans are reported through the error handler and leave the destination untouched; the default handler prints the report and ends the program with its code; faulty tables are reported; usage and help text shows every option with its whole description; no input makes the parser read outside the arguments or crash.",
  ["inputs", "configurations"], "every option table and argument vector, including hostile ones",
  "opts_test runs two fixed command lines.",
  [S+"zt_opts.c", S+"zt_opts.h"], [("argument scan", "zt_opt_process_args"), ("typed conversion", "zt_opt_get_value and the zt_opt_* callbacks"), ("help layout", "_zt_opt_help_stdout_printer")])
p("C24", "Log records are complete, level-filtered, well formatted and never interleaved",
  "A message is emitted exactly once, to every sink it is addressed to, exactly when its level passes the logger's threshold, and the text delivered is the requested decorations (time, level, program, host, process, source) followed by the formatted message, whatever characters any of them contain. "
  "Concurrent users of an open logger never lose, split or interleave records or race, changing level or options takes effect for subsequent messages, and a logger that cannot be opened is reported as such without leak.",
  ["inputs", "schedules", "configurations", "fault_sequences"], "every level, option combination, message text and number of threads",
  "log_test prints one line per level from one thread.",
  [S+"zt_log.c", S+"zt_log/log_file.c", S+"zt_log/log_stderr.c", S+"zt_log/log_syslog.c", S+"zt_log/log_private.c"], [("level filter", "zt_log_lprintf / zt_log_lvprintf"), ("format assembly", "zt_log_gen_fmt")])
p("C25", "A thread pool processes every submitted item exactly once and always terminates",
  "Every item inserted into a running pool is handed to exactly one input worker, every non-null result is handed to exactly one output worker or reader and finalized once, and nothing is invented or lost, under every number of threads, producers and interleaving. "
  "Shutting the pool down always terminates all its threads promptly, whether they are idle or busy, notification pipes carry one wakeup per inserted item plus one at shutdown, and no execution contains a data race.",
  ["schedules", "histories", "configurations"], "every thread count, producer/consumer interleaving and moment of shutdown",
  "No test covers threads; only an example program runs one schedule.",
  [S+"zt_threads.c", S+"zt_threads.h", S+"zt_threads/zt_threads_pthreads.c"], [("queue under mutex/condition", "zt_threadpool_insert_iput / iput_loop / oput_loop"), ("shutdown", "zt_threadpool_kill")])
p("C26", "Path helpers create and find exactly the requested directories",
  "Creating a directory path creates exactly the named directories (with missing parents only when asked, each with the requested mode), succeeds when they already exist as directories, is safe against concurrent creation by others, and otherwise fails and terminates, for every path. "
  "Existence tests agree with the file system, and the base-directory search returns the longest leading part of the given path that contains the marker, leaving the working directory alone.",
  ["inputs", "schedules", "fault_sequences"], "every path and file system state, concurrent creators",
  "path_test creates one fixed tree.",
  [S+"zt_path.c", S+"zt_path.h"], [("mkdir -p loop", "zt_mkdir"), ("search", "zt_find_basedir")])
p("C27", "Program name and location are derived correctly from argv[0] and PATH",
  "The program name is the last component of what was set, stays stable until replaced, and can be asked for with or without its directory. The program path is the directory of the program: the one written in its name (against the working directory when relative), or for a bare name the first element of PATH (any element, including the last and empty ones) that holds it as a file, falling back to the working directory. "
  "No value of argv[0], PATH or the working directory makes the search read or write outside its buffers.",
  ["inputs", "configurations"], "every argv[0] and PATH",
  "progname_test uses the test binary's own name.",
  [S+"zt_progname.c", S+"zt_progname.h"], [("PATH search", "zt_progpath / _proc_get_path")])
p("C28", "Time arithmetic is exact and timing runs the measured code as asked",
  "For normalised operands, adding, subtracting, comparing and differencing time values agrees with exact arithmetic, results are normalised (microseconds in range, correct sign), and the difference of two readings in order is never negative. "
  "Timing a function runs it exactly the requested number of times with the given argument, and calibration subtracts the measured overhead of an empty run and nothing else.",
  ["inputs"], "every pair of time values and repeat count",
  "time_test times one sleep.",
  [S+"zt_time.c", S+"zt_time.h"], [("timeval arithmetic", "zt_add_time / zt_sub_time / zt_diff_time / zt_cmp_time"), ("repetition", "zt_time")])
p("C29", "Checked integer arithmetic accepts exactly the representable results",
  "For each of the 8-, 16- and 32-bit integer types, addition, subtraction, multiplication and division, and for the long types addition and subtraction, return the mathematically exact result whenever it is representable and are refused with a fatal assertion exactly when it is not, including division by zero and minimum divided by minus one. "
  "The checks themselves never overflow or otherwise invoke undefined behaviour.",
  ["inputs"], "every pair of operands of every type",
  "int_test checks a dozen pairs.",
  [S+"zt_int.h"], [("range assertions", "ZT_INT_* / UINT_* macros in zt_int.h")])
p("C30", "The unit-test framework reports the truth about the tests it runs",
  "Running all suites, one suite or one named test executes exactly the selected tests, with setup and teardown around each, and the reported numbers of tests, assertions, failures, errors and the exit status are exactly what happened; a failed assertion or raised exception ends only its own test. "
  "Naming something that does not exist is reported as failure, never as success or a crash.",
  ["programs", "inputs"], "every set of suites and tests with every mixture of outcomes, every selection string",
  "The framework is used to run its own tests, all of which pass.",
  [S+"zt_unit.c", S+"zt_unit.h", S+"zt_unit_cpp.cpp"], [("selection", "zt_unit_run_by_name"), ("accounting and non-local exit", "zt_unit_test_run / zt_unit_assert")])
p("C31", "Process-lifecycle services run once, in order, and leave the documented state",
  "Functions registered for process exit each run exactly once per registration with their own argument, in reverse order of registration, including those registered by running exit functions. "
  "A pid file ends up containing exactly the calling process's id, with failure reported whenever it cannot be created or completely written; daemonising leaves a detached process in a new session (not its leader) with the requested root and mask, its standard streams leading nowhere and every other descriptor closed, or none at all on failure.",
  ["histories", "crash_points", "fault_sequences"], "every registration history and exit path; every pid-file state",
  "atexit and daemon tests register one function / write one file.",
  [S+"zt_atexit.c", S+"zt_daemon.c"], [("exit stack", "zt_atexit / _atexit_call"), ("pid file", "zt_writepid"), ("detach", "zt_daemonize")])
p("C32", "Independent objects used from different threads never interfere",
  "Threads that each use only their own tables, trees, buffers, streams, strings, digests, formats, encoders, pools, collectors, generators, option sets and configurations obtain exactly the results a single thread would, with no data race on any schedule. "
  "In particular no library function keeps unsynchronised hidden state shared between callers.",
  ["schedules", "programs"], "every assignment of library calls to threads operating on disjoint objects",
  "All tests are single threaded.",
  [S+"zt_table.c", S+"zt_format.c", S+"zt_mem.c", S+"zt_cstr.c", S+"zt_base.c", S+"zt_random.c"], [("absence of shared mutable statics", "file-scope statics across src/libzt")])
p("C33", "Out-of-memory is reported cleanly at every allocation point",
  "If a memory allocation made by a library operation fails, alone or with every later one, the operation either reports failure through its documented result or stops the process through the library's fatal-assertion report; it never corrupts memory or crashes uncontrolledly. "
  "After a reported failure the objects involved can still be used and destroyed, leaking nothing.",
  ["fault_sequences", "crash_points"], "every allocation index of every operation in the workloads",
  "No test injects allocation failure.",
  [S+"zt_malloc.c", S+"zt_buf.c", S+"zt_ptr_array.c", S+"zt_base.c", S+"zt_ez_mempool.c", S+"zt_ipv4_tbl.c", S+"zt_threads.c"], [("checked allocation", "zt_calloc_p / zt_malloc_p / zt_realloc_p / zt_strdup_p"), ("assertion report", "zt_assert_always")])
p("C34", "Requested sizes are honoured or refused, never truncated",
  "Whatever count, element size, length, offset or capacity hint is requested, including combinations whose product or sum exceeds what a size can represent, the request is either served in full (every element of what is handed out can be used) or refused through the documented result or the fatal-assertion report. "
  "No request yields an object smaller than asked for, and requests the memory allows for are served.",
  ["inputs"], "every number and size from zero to the largest representable, for every sizing operation",
  "Tests use small sizes.",
  [S+"zt_malloc.c", S+"zt_array.c", S+"zt_cstr.c", S+"zt_mem.c", S+"zt_table.c", S+"zt_bstream.c", S+"zt_base.c", S+"zt_buf.c", S+"zt_ptr_array.c", S+"zt_ipv4_tbl.c"], [("checked product", "zt_malloc / zt_realloc / zt_array_new"), ("page size", "x_calculate_page_data"), ("heap size", "zt_mem_heap_init")])
p("C35", "A failed check is reported once and ends what it must; a passed one is silent",
  "For every assertion macro, in C and C++, a condition that holds is evaluated exactly once and changes nothing, and one that fails produces exactly one report on the default logger's sink, at the error level (critical for zt_abort), naming the condition verbatim, the source file, line and function; then zt_assert, zt_assert_always and zt_abort end the process by SIGABRT without running exit functions, zt_assert_return and zt_assert_returnV leave the function with the given value, and zt_assert_nf goes on. "
  "The report has reached the sink when the process ends, checks failing in several threads are each reported, and with NDEBUG or NO_ASSERT zt_assert and zt_assert_nf do nothing at all while the others still act.",
  ["inputs", "schedules", "histories"], "every condition text, source position, level, sink and sequence of checks; concurrent failures",
  "assert_test covers two returning macros.",
  [S+"zt_assert.c", S+"zt_assert.h", S+"zt_log/log_file.c"], [("macros", "zt_assert and friends"), ("reports", "_zt_log_assertion / _zt_log_abort")])
p("C36", "Compiling the library's own checks in changes nothing for valid use",
  "A library built with its assertions compiled in (no NDEBUG) never trips one of them on valid use of any module. "
  "Its operations have the same effects and results as those of the library built without them.",
  ["inputs", "histories", "schedules", "programs"], "every valid use of every operation",
  "The tests run against one build with assertions compiled out.",
  [S+"zt_assert.h", S+"zt_array.c", S+"zt_list.h", S+"zt_cstr.c", S+"zt_bstream.c", S+"zt_mem.c", S+"zt_gc.c", S+"zt_int.h"], [("assertions", "zt_assert across src/libzt")])
p("C37", "Work, memory and stack stay proportionate to the data",
  "For every order and content of the data, the work of each operation grows as its structure promises: adding, finding and removing in a table of fitting size, pushing, popping and joining of lists, queues and stacks, element access, pool, buffer and stream operations take (averaged over a sequence) a bounded amount of work each, tree operations the logarithm of the number of elements, sorting n log n; converting, hashing, comparing, searching, splitting, dumping, parsing and writing a text or block take work in proportion to its length. "
  "The memory held grows in proportion to what is held, and not at all when elements come and go; the stack needed does not grow with the amount of data.",
  ["inputs", "histories"], "every amount, order and content of data",
  "The tests use a few elements, for which every cost is small.",
  [S+"zt_table.c", S+"zt_tree.c", S+"zt_llist.h", S+"zt_list.h", S+"zt_array.c", S+"zt_ptr_array.c", S+"zt_buf.c", S+"zt_bstream.c", S+"zt_cstr.c", S+"zt_base.c", S+"zt_mem.c", S+"zt_gc.c", S+"zt_cfg.c", S+"zt_opts.c"], [("growth", "zt_ptr_array_add, zt_buf_add, zt_array_resize, zt_bstream_write, zt_rbt_insert fixups, _zt_llist_merge_sort, zt_cstr_rspn, zt_mem_pool_alloc")])
p("C38", "The library may be used from within its own callbacks and exit functions",
  "A function the library calls back (hash, compare, iteration, predicate, owner, sink, conversion, release-test, deallocator, mark, release, option, error, timed or test function) may itself use any part of the library, including another call of the operation that is calling it, on other objects: both the inner and the outer operation give exactly the results they give without the other, and neither blocks. "
  "An exit function may use the library and every object the program still holds, whenever it was registered.",
  ["programs", "histories"], "every nesting of operations through callbacks, to any depth; every moment of registering an exit function",
  "The callbacks in the tests only touch their own counters.",
  [S+"zt_table.c", S+"zt_set.c", S+"zt_tree.c", S+"zt_llist.h", S+"zt_format.c", S+"zt_mem.c", S+"zt_ez_mempool.c", S+"zt_gc.c", S+"zt_opts.c", S+"zt_unit.c", S+"zt_atexit.c"], [("callbacks", "function pointers taken by zt_table, zt_set, zt_rbt, zt_llist, zt_fmt, zt_mem_pool, zt_gc, zt_opts, zt_unit"), ("exit", "_atexit_call / zt_mem_release")])
p("C39", "A header macro acts as the one expression or statement it looks like",
  "Every macro the headers offer to user code (minimum, maximum, absolute value, clamping, bit, column, array-size, containing-structure, copying, sign, hash-folding, random-fraction, coding, allocation and release, list and tree walking, element access, logging, assertion, waiting and test-comparison macros) gives exactly the result its documentation states for the values of its operands, whatever operators and names the operands are written with and whatever operators surround the macro. "
  "Used as a statement it is governed completely by a condition or loop in front of it and changes nothing but what it is documented to change: setting or clearing bits leaves all other bits of a target of any width alone, a message is written (with the place it was written from, where the macro says so) exactly when control reaches the macro, and a wait lasts for the value of its operand.",
  ["programs", "inputs"], "every operand expression without side effects, every surrounding expression or statement, C and C++, debugging and assertions on or off",
  "The tests use the macros with single names as operands, as statements of their own.",
  [S+"zt_macros.h", S+"zt_log.h", S+"zt_unit.h", S+"zt_time.h", S+"zt_ptr_array.h", S+"zt_base.h", S+"zt_hash.h", S+"zt_list.h", S+"zt_tree.h", S+"zt_int.h", "src/zt.h"], [("macro definitions", "zt_macros.h, zt_log.h (zt_log_dprintf, ZT_LOG_*DEBUG*), zt_unit.h (ZT_UNIT_ASSERT_EQUAL), zt_time.h (usleep, zt_copy_timeval), zt.h (zt_malloc family, zt_free)")])
p("C40", "Nothing depends on memory that was never set",
  "Whatever the stack, the heap and the caller's result objects held before, the library answers, returns, writes and does the same: no decision, address, returned object or byte handed to the system (file, pipe, log, terminal) depends on memory that neither the library nor its user has set, on successful and on rejecting paths alike.",
  ["inputs", "histories", "environments"], "every call of every module, every previous content of memory",
  "A test run sees one content of memory, mostly zero bytes.",
  [S+"zt_cstr.c", S+"zt_uuid.c", S+"zt_array.c", S+"zt_bstream.c", S+"zt_buf.c", S+"zt_mem.c", S+"zt_opts.c", S+"zt_threads.c", S+"zt_unit.c", "src/libzt/zt_log/log_private.c"], [("local buffers", "zt_hexdump, zt_log_gen_fmt, zt_uuid_fillstr, zt_base_decode"), ("growing objects", "zt_array_resize, zt_buf_expand"), ("returned objects", "zt_uuid4, zt_mem_pool_get_stats, zt_time_result_to_elapsed")])
p("C41", "Threads go through the installed backend alone, and any sound one suffices",
  "Every call of the threading layer reaches the installed backend exactly once, with its own arguments, and returns the backend's answer; an incomplete backend is refused and leaves the previous one in place, and with none installed locking and waiting succeed, do nothing and create nothing. "
  "A pool works over any backend that keeps the usual promises of locks, conditions and threads: in every interleaving, and however often a wait ends by itself, some thread can always go on until the shutdown is complete, a lock is released or waited on only by its holder, callbacks run without the pool's locks, each thread has its own initialisation, callbacks set earlier stay set until replaced or reset, no worker stays idle while an item waits, and every item is delivered exactly once.",
  ["schedules", "histories", "configurations"], "every backend that keeps its contract, every interleaving at its calls, every sequence of installations",
  "Tests use the one built-in backend and the few schedules the machine happens to produce; a lost wakeup or an early end needs one particular interleaving.",
  [S+"zt_threads.c", S+"zt_threads.h", S+"zt_threads/zt_threads_pthreads.c"], [("dispatch", "zt_threads_lock, zt_threads_cond_wait, zt_threads_start, zt_threads_set_*_callbacks"), ("worker loops", "_zt_threadpool_iput_loop, _zt_threadpool_oput_loop"), ("shutdown", "zt_threadpool_kill")])
p("C42", "A call depends on its arguments and objects alone, and disturbs nothing else",
  "What a call of the data structure, text, coding, hashing, collector, configuration, option, path, logging and time functions does and returns depends on its arguments and the objects they reach alone: not on the locale of the process, the value of errno, the rounding mode, the file mode mask, the working directory (for absolute paths), the environment, closed standard input, blocked or arriving signals, or which descriptors are free. "
  "And it leaves the state the caller shares with it as it was: working directory, mask, locale, rounding mode, signal mask, handlers and timers, environment, open descriptors, limits, threads, standard output, getopt's variables, and the state of random(), lrand48(), strtok() and gmtime(). Numbers are formatted as printf formats them in each locale.",
  ["environments", "inputs", "histories"], "every surrounding process state, every input and history",
  "Tests run in one process state (the C locale, errno 0, default masks) and look at results only, never at what else changed.",
  [S+"zt_cfg/cfg_private.c", S+"zt_cfg/cfg_ini.c", S+"zt_opts.c", S+"zt_format.c", S+"zt_cstr.c", S+"zt_uuid.c", S+"zt_path.c", S+"zt_log/log_private.c", S+"zt_time.c", S+"zt_ipv4_tbl.c"], [("number parsing", "get_type, zt_opt_int, zt_opt_long, zt_opt_intmax, zt_ipv4_tbl_add_frm_str"), ("character classes", "zt_fmt_format, zt_hexdump, zt_cstr_strip"), ("process state", "zt_mkdir, zt_uuid4, zt_log_gen_fmt, zt_cstr_tok")])
p("C43", "Looking does not change: questions and inputs are only read",
  "Asking an object (looking up, counting, comparing, walking, searching, copying or encoding from it, displaying it, reading settings, levels or statistics) writes nothing to it or to anything reachable from it, and whatever a caller hands over for reading (keys, texts, digests, blocks, formats, paths, definitions, option tables, vectors) is left as it is even for a moment, so that constants and read-only memory will do. "
  "Hence any number of threads may ask the same object at once without locks, without a data race, and each gets the answer a single one would.",
  ["schedules", "inputs", "histories"], "every object state, every query, every set of concurrent queries",
  "Tests ask from one thread with writable memory; a lookup that reorders, caches or patches and restores goes unseen.",
  [S+"zt_table.c", S+"zt_set.c", S+"zt_tree.c", S+"zt_cstr.c", S+"zt_base.c", S+"zt_uuid.c", S+"zt_ipv4_tbl.c", S+"zt_cfg/cfg_interface.c", S+"zt_mem.c", S+"zt_array.c", S+"zt_ptr_array.c", S+"zt_hash.c", S+"zt_opts.c"], [("lookups", "zt_table_get, zt_set_is_member, zt_rbt_find, zt_ipv4_tbl_search_node, zt_cfg_get, zt_mem_pool_get"), ("const inputs", "zt_cstr_* (const char *), zt_base_encode, zt_uuid_fromstr, zt_sha1_update, zt_hexdump_str")])
p("C44", "Every build of the library means the same",
  "Whatever compiler and language mode, optimisation level, signedness of plain char, previous content of automatic memory, and configuration (assertions in or out, with or without threads, with the system's or the library's own version of a helper function) the library is built with, its functions, macros and inline functions give the same results, texts, codes and files for the same calls; "
  "in particular a result never depends on an order of evaluation, overflow, aliasing or value representation the language leaves open, and text with bytes above 127 is treated alike.",
  ["inputs", "histories", "configurations"], "every build the supported compilers and configurations allow, every input and history",
  "Tests run against one build by one compiler on one machine, where whatever the language leaves open happens to go one way.",
  ["CMakeLists.txt", "src/zt.h", S+"zt_internal.h", S+"zt_base.c", S+"zt_base.h", S+"zt_cstr.c", S+"zt_format.c", S+"zt_uuid.c", S+"zt_sha1.c", S+"zt_hash.c", S+"zt_int.h", S+"zt_macros.h", S+"zt_bstream.c", S+"zt_random.c", "src/libzt/replace/asprintf.c"], [("plain char", "dictionary of zt_base_definition_t, zt_cstr_chr, zt_cstr_tok, zt_fmt_vformat"), ("configuration", "HAVE_PTHREADS, WITH_THREADS, HAVE_ASPRINTF, NDEBUG"), ("inline functions and macros", "zt_list.h, zt_int.h, zt_hash.h")])
p("C45", "What the system refuses is reported, survived and harms nothing",
  "When a call to the operating system fails, is interrupted by a signal or is served only in part - opening, reading, writing, closing, creating or looking at files and directories, pipes, threads, locks, thread-specific keys, randomness, names and places - the operation concerned either does the whole of its job all the same or reports failure through its documented result; "
  "success is never reported for something that was not done, and what could be done is not lost or done twice. No such failure crashes or blocks the process, loses memory or descriptors, or touches what belongs to others, and afterwards the same operation succeeds.",
  ["fault_sequences", "inputs", "schedules"], "every operation that uses the operating system, every call in it, every error",
  "Tests run where every system call succeeds in full and at once.",
  [S+"zt_cfg/cfg_ini.c", S+"zt_log/log_file.c", S+"zt_log/log_private.c", S+"zt_log.c", S+"zt_uuid.c", S+"zt_path.c", S+"zt_progname.c", S+"zt_daemon.c", S+"zt_threads.c", S+"zt_threads/zt_threads_pthreads.c", S+"zt_unit.c", S+"zt_format.c"], [("reading", "parse_cfg, uuid4_seed"), ("writing", "zt_log_file, zt_writepid, zt_threadpool_insert_iput"), ("creating", "zt_mkdir, zt_threadpool_init, zt_threadpool_start, make_ctx_key")])
p("C46", "An object may be its own counterpart and take back what it gave out",
  "Where an operation takes several operands, the same object may fill several of the places, and where it writes a result, the result may lie over an operand that is only read from there on: the outcome is what separate equal objects would have given. "
  "This holds for time arithmetic, set algebra (a destination that is an operand gains what it would gain from a twin), tables copied into themselves, pointer arrays joined to themselves, buffers added to themselves, comparisons and searches of a text in itself, decoding, hexadecimal decoding, digests and name-based identifiers over their own input, text copied within itself, and directory and name of a path taken in place. "
  "And a value obtained from an object (an element, a part of its data, a stored key, a setting's text, the program's name) may be handed back to that object although taking it in may move, replace or release what it refers to.",
  ["inputs", "histories"], "every operation with several operands or a stored value, every way of sharing them",
  "Tests give every parameter an object of its own.",
  [S+"zt_time.c", S+"zt_set.c", S+"zt_table.c", S+"zt_ptr_array.c", S+"zt_array.c", S+"zt_bstream.c", S+"zt_buf.c", S+"zt_base.c", S+"zt_cstr.c", S+"zt_sha1.c", S+"zt_uuid.c", S+"zt_progname.c", S+"zt_cfg/cfg_private.c"], [("result over operand", "zt_add_time, zt_base_decode, zt_hex_to_binary, zt_sha1_data, zt_uuid5, zt_cstr_basename, zt_cstr_dirname"), ("same object twice", "zt_set_union, zt_table_copy, zt_ptr_array_cat, zt_buf_add_buf, zt_bstream_set_array"), ("own values", "zt_buf_add, zt_buf_iov_add, zt_cfg_set, zt_progname, zt_table_del")])
p("C47", "What is given for a call may go after it; what is given out stays",
  "Whatever a call takes by address and does not by its nature keep - texts, names, paths, formats, bytes, keys of a lookup, seeds, vectors of arguments, tables of options, descriptions and callbacks - may be overwritten or freed as soon as the call returns, and may be at the same address with other content in the next call: names are found, options, settings and logs hold, and generators, digests and networks go on as if it were still there. "
  "Copies share nothing with their source: arrays, streams, buffers, joined, reversed and combined containers are unaffected by what happens to what they were made from, and by each other. A result handed out for the caller to release, and a text handed out by an object that lives, keeps its content whatever is called in the meantime.",
  ["inputs", "histories"], "every input given by address, every copy and every result, every history after it",
  "Tests pass literals and variables that live to the end of the test, and look at a result once.",
  [S+"zt_cstr.c", S+"zt_format.c", S+"zt_base.c", S+"zt_uuid.c", S+"zt_sha1.c", S+"zt_random.c", S+"zt_mem.c", S+"zt_table.c", S+"zt_set.c", S+"zt_array.c", S+"zt_bstream.c", S+"zt_buf.c", S+"zt_ptr_array.c", S+"zt_llist.h", S+"zt_ez_mempool.c", S+"zt_ipv4_tbl.c", S+"zt_cfg/cfg_private.c", S+"zt_opts.c", S+"zt_unit.c", S+"zt_log/log_file.c", S+"zt_progname.c", S+"zt_path.c", S+"zt_threads.c"], [("names", "zt_mem_pool_init, zt_mem_heap_init, zt_mem_pool_group_init, zt_table_init, zt_unit_register_suite, zt_progname"), ("values", "zt_opt_string, zt_opt_string_array, zt_cfg_set, zt_cfg_get, zt_ez_mempool_strdup"), ("copies", "zt_array_copy, zt_bstream_clone, zt_ptr_array_cat, zt_llist_reverse, zt_set_union, zt_table_copy"), ("results", "zt_cstr_sub, zt_cstr_split, zt_base_encode, zt_uuid_tostr, zt_ipv4_int2ip, zt_fmt_strprintf, zt_find_basedir")])
p("C48", "A callback may go on using the very object that called it",
  "The functions a program hands to an object may use that same object while it is calling them. The callback of a table or set traversal may look things up, insert, delete the item it was given, traverse again, copy and combine, and the traversal still delivers every item that was there exactly once; hash, compare, match and order functions may ask the container they serve. "
  "A free callback of a nested pool may allocate from that pool, make sub-pools and destroy others, and everything is freed exactly once; that of a pointer array may add and remove; a collector's release callback may register, protect, mark and unregister other values. A pool's release test may read its statistics, tidy it and allocate; a running test may register tests and suites, which run in turn; an option's callback may have the same parser process further arguments.",
  ["inputs", "histories"], "every callback, every use of the calling object within its contract, at every point and depth",
  "The tests' callbacks count or print.",
  [S+"zt_table.c", S+"zt_set.c", S+"zt_ez_mempool.c", S+"zt_ptr_array.c", S+"zt_tree.c", S+"zt_mem.c", S+"zt_unit.c", S+"zt_opts.c", S+"zt_gc.c"], [("traversals", "zt_table_for_each, zt_set_for_each, zt_gc_for_each, zt_rbt_for_each_safe"), ("release", "zt_ez_mempool_destroy, zt_ptr_array_del, zt_gc_free_white, zt_mem_pool_release"), ("nested runs", "zt_unit_run_suite, zt_opt_process_args")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P))
