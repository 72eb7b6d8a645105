"""What each check runs.  A stage is one harness binary built with one sanitizer family; quick/thorough are case counts."""
def S(name, src, san="asan", quick=None, thorough=None, **kw):
    d = dict(name=name, src=src, san=san, **kw)
    if quick: d["quick"] = quick
    if thorough: d["thorough"] = thorough
    return d
CHECKS = {}
def C(pid, rule, stages, require=(), assumptions=(), technique="", note=""):
    CHECKS[pid] = dict(rule=rule, stages=stages, require=list(require), assumptions=list(assumptions), technique=technique, note=note)

C("C01", "seeded random histories of set/get/del/copy/for_each on 1-3 tables, all key kinds, hints and flags, compared step by step with a multimap model; a case is non-trivial if it performed at least one store and one lookup; distinct = distinct operation sequences",
  [S("c01_table", "c01_table.cpp", quick=40000, thorough=1300000)],
  require=["set.new", "set.refused", "get.hit", "get.miss", "del.hit", "del.miss", "del.mid_chain", "iter.full", "iter.stopped", "copy", "dup.set"],
  assumptions=["key_len never exceeds the key object's size", "string keys are NUL terminated with key_len == strlen", "keys outlive the table"],
  technique="reference-model monitor over random histories, ASan+UBSan, heap balance")
C("C02", "seeded random element populations and histories for up to 4 sets, compared with std::set; distinct = distinct histories",
  [S("c02_set", "c02_set.cpp", quick=25000, thorough=850000, probes=["remove"])],
  require=["insert.new", "insert.present", "union", "intersection", "difference", "subset.true", "subset.false", "equal.true", "equal.false", "iter.full", "iter.stopped"],
  technique="reference-model monitor over random histories, ASan+UBSan, heap balance")
C("C03", "seeded insertion/removal histories (random, ascending, descending, clustered keys; 4 comparator result conventions) against std::map with a full red-black walk after each step; non-trivial = more than three steps",
  [S("c03_tree", "c03_tree.cpp", quick=53000, thorough=1750000)],
  require=["insert.new", "insert.equal", "remove.leaf", "remove.one_child", "remove.two_children", "find.hit", "find.miss", "nfind", "traversals", "remove.during_traversal"],
  technique="structural-invariant and reference-model monitor over random histories, ASan+UBSan")
C("C04", "seeded histories over 1-4 lists/queues/stacks sharing a population of elements, each compared with vectors after every step in both directions",
  [S("c04_list", "c04_list.cpp", quick=160000, thorough=3000000)],
  require=["add", "add_tail", "add.middle", "remove", "join", "join.empty", "enqueue", "dequeue", "dequeue.empty", "push", "pop", "pop.empty", "remove.during_traversal"],
  assumptions=["the source head of a join is not used again until reset"],
  technique="reference-model monitor over random histories, ASan+UBSan")
C("C05", "seeded compositions of list operations over 1-4 lists, each compared with vectors after every step, cells tracked by address; non-trivial = more than two operations",
  [S("c05_llist", "c05_llist.cpp", quick=20000, thorough=700000)],
  require=["push", "cons", "pop", "pop.empty", "cell.move", "nth", "nreverse", "reverse", "split", "split.single", "merge", "sort", "free"],
  assumptions=["indexes are within the list", "the sort/merge predicate answers whether its first argument belongs after its second", "merge inputs are sorted"],
  technique="reference-model monitor over random histories, ASan+UBSan, heap balance")
C("C06", "seeded histories over 1-3 pointer arrays (with/without owner callback, duplicates, wild indices) compared with vectors after every step",
  [S("c06_ptr_array", "c06_ptr_array.cpp", quick=100000, thorough=3000000)],
  require=["add", "grown", "del.hit", "del.miss", "move", "move.rejected", "resize", "resize.rejected", "cat", "cat.self", "copy", "get.rejected", "free.members"],
  assumptions=["with an owner callback no pointer is stored twice"],
  technique="reference-model monitor over random histories, ASan+UBSan, heap balance")
C("C07", "seeded histories over up to 5 arrays of element sizes 1..100 compared byte for byte with a model after every step",
  [S("c07_array", "c07_array.cpp", quick=120000, thorough=3000000)],
  require=["new", "with.copy", "with.adopt", "with.cstr", "put", "resize.grow", "resize.shrink", "resize.from_empty", "copy", "free", "set_data", "set_length"],
  assumptions=["indexes are within the array and resize lengths are positive (asserted preconditions)", "data replaced by set_data is released by the caller"],
  technique="reference-model monitor over random histories, ASan+UBSan, heap balance")
C("C08", "seeded histories over 1-3 buffers (sizes up to 1.5 kB, in every tenth case 40 kB, including impossible sizes) compared byte for byte with strings after each step; non-trivial = more than two operations",
  [S("c08_buf", "c08_buf.cpp", quick=160000, thorough=3000000)],
  require=["add.fits", "grow", "grow.drained", "drain.part", "drain.all", "drain.zero", "remove", "remove.over", "reserve", "expand", "grow.impossible", "iov_add", "add_buf", "fill.unused", "poke", "free"],
  assumptions=["data added does not alias the buffer's own storage"],
  technique="reference-model monitor over random histories, ASan+UBSan, heap balance")
C("C09", "seeded sequences of typed and array writes/reads, seeks, truncations, clones, data replacement and flips over 1-4 streams, compared with a random-access byte model after every step; one third of the cases are pure write/rewind/read-back round trips",
  [S("c09_bstream", "c09_bstream.cpp", quick=120000, thorough=3000000)],
  require=["write", "write.flipped", "write.array", "read", "read.flipped", "read.array", "hole", "roundtrip", "seek", "truncate", "clone", "set_data.copy", "set_data.adopt", "set_array"],
  assumptions=["reads stay within the stream's storage (asserted precondition)", "element sizes are 1..127"],
  technique="reference-model monitor over random histories, ASan+UBSan, heap balance")
C("C10", "seeded byte strings (all single bytes, lengths up to 5000) through all six codings against an independent bit-level reference: size queries, exact, slack, too-small and self-allocated buffers; own text, white-spaced text and mutated text decoded in exact-size buffers",
  [S("c10_base", "c10_base.cpp", quick=480000, thorough=3000000)],
  require=["encode", "encode.size", "encode.alloc", "encode.refused", "decode.ok", "decode.rejected", "decode.alloc", "decode.refused", "decode.spaces", "decode.empty", "null.args"],
  assumptions=["a decode size query may over-estimate (as the existing tests pin)", "a self-allocated output of a rejected text is released by the caller"],
  technique="differential monitor against a reference codec, exact-size buffers under ASan+UBSan, heap balance")
C("C11", "seeded strings (empty, tiny, binary, blank and path alphabets) with six random slices each (positive, negative, clamped, swapped indices); every query compared with std::string searches on the slice; inputs live in exact-size heap blocks",
  [S("c11_cstrq", "c11_cstrq.cpp", quick=360000, thorough=3000000)],
  require=["len", "pos", "cmp.equal", "cmp.samelen", "cmp.differ", "chr", "rchr", "any", "rany", "upto", "rupto", "find", "rfind", "find.found", "find.none", "rspn", "rcspn", "abspath", "set.found", "set.none"],
  assumptions=["negative indexes reach at most the first character (asserted precondition)", "characters are passed as plain char", "chr/rchr report not-found as 0, as the existing tests pin"],
  technique="differential monitor against std::string, exact-size buffers under ASan+UBSan, heap balance")
C("C12", "seeded strings, slices, buffer sizes, integers and byte blocks through every constructing, editing, path, integer and hex function, compared with independent reference implementations; buffers have exactly the size passed",
  [S("c12_cstre", "c12_cstre.cpp", quick=240000, thorough=3000000)],
  require=["sub", "dup", "cat", "catv", "reverse", "map", "copy", "basename", "basename.truncated", "dirname", "dirname.truncated", "path_append", "split", "cut", "tok", "chomp", "strip", "strip.newline", "itoa", "itoa.refused", "to_hex", "from_hex", "from_hex.bad", "dump", "dump.address", "dump.stopped", "dump.reader", "dump.printed"],
  assumptions=["negative indexes reach at most the first character (asserted precondition)", "mapping alphabets have equal length (asserted)", "delimiters of cut/tok are not NUL"],
  technique="differential monitor against reference implementations, exact-size buffers under ASan+UBSan, heap balance")
C("C13", "seeded format strings of 1-12 pieces (literals, escapes, both introducers, every conversion/flag/width/precision form, up to three user-registered conversions of random argument types) into every sink, compared piece by piece with the C library; string arguments, argument slots and target buffers are exact-size heap blocks; non-trivial = at least one conversion",
  [S("c13_format", "c13_format.cpp", quick=390000, thorough=3000000)],
  require=["conv.c", "conv.d", "conv.u", "conv.o", "conv.x", "conv.p", "conv.s", "conv.float", "s.skip", "s.unterminated", "escape", "user", "register", "sink.format", "sink.sprintf", "sink.truncated", "sink.strprintf", "sink.fprintf", "sink.printf", "puts", "putd"],
  assumptions=["conversions are registered ones (asserted)", "floating-point precision is at most 99 (asserted)", "flags are those C defines for the conversion", "string arguments are not null"],
  technique="differential monitor against the C library, exact-size buffers under ASan+UBSan, heap balance")
C("C14", "seeded allocation/release histories over 1-12 pools of any element size, page policy and release test, pool groups (sorted or not) and heaps; every live block is pattern filled and re-verified, its page identified from the allocator, and the statistics compared with the live population after every operation",
  [S("c14_mem", "c14_mem.cpp", quick=18000, thorough=600000)],
  require=["alloc", "alloc.reuse", "page.new", "page.released", "page.kept", "test.yes", "test.no", "release", "release_free_pages", "destroy", "destroy.refused", "group.new", "group.unsorted", "group.terminated", "group.alloc", "group.destroy", "group.destroy.live", "heap", "display", "get"],
  assumptions=["element counts are not negative", "a group request fits its largest pool (asserted)", "pool names are distinct when pools are looked up by name"],
  technique="shadow-state monitor (live blocks, pages, statistics) over random histories, ASan+UBSan, heap balance")
C("C15", "seeded histories building trees of pools, filling them through every entry point with every kind of deallocator and destroying them in any order; all surviving buffers are re-verified around every destruction; non-trivial = more than one pool",
  [S("c15_ezpool", "c15_ezpool.cpp", quick=220000, thorough=3000000)],
  require=["root", "subpool", "alloc", "add", "add.refused", "strdup", "strdup.empty", "destroy.leaf", "destroy.tree", "destroy.subpool"],
  technique="shadow-state monitor over random histories, ASan+UBSan, heap balance")
C("C16", "seeded mutation histories (new, link, unlink, protect, unprotect, re-root, unregister, re-register, incremental and full collections, disable/enable) over object graphs with up to four references each and all scan settings; every release and mark is checked against reachability in a model at that moment and released memory is freed under ASan",
  [S("c16_gc", "c16_gc.cpp", quick=41000, thorough=1350000)],
  require=["register", "store", "clear", "protect.new", "protect.registered", "protect.existing", "protect.again", "unprotect", "reroot", "unregister", "reregister", "release", "release.unregisters", "collect.full", "collect.full.frees", "collect.disabled", "collect.increment", "incremental", "incremental.complete", "enable", "disable", "for_each", "quiesce", "quiesce.frees", "destroy.disabled", "print"],
  assumptions=["values are prepared, then registered (or protected) once before they are linked, and linked before the next registration", "stores are announced with zt_gc_mark", "a value is unregistered only when no registered value refers to it"],
  technique="reachability-model monitor on mark/release callbacks over random histories, ASan+UBSan, heap balance")
C("C17", "seeded messages (lengths dense around block and padding boundaries) fed to 1-3 interleaved contexts in random pieces at random alignments from exact-size buffers, compared with an independent SHA-1; one-shot and hexadecimal forms; a plain-build stage for messages of 512 MB to 4 GB",
  [S("c17_sha1", "c17_sha1.cpp", quick=32000, thorough=1050000), S("c17_big", "c17_sha1.cpp", san="plain", quick=1, thorough=6, defs=["-DBIG", "-DNDEBUG"], cpu=300)],
  require=["interleaved", "update.empty", "update.part", "update.block", "update.blocks", "update.unaligned", "final", "reused", "data", "hex", "long.512M"],
  technique="differential monitor against a reference SHA-1, exact-size buffers under ASan+UBSan")
C("C18", "seeded byte strings hashed whole, chained at random cuts and as strings from exact-size buffers, compared with FNV-1a in wider arithmetic; every folding width of random and extreme hashes",
  [S("c18_hash", "c18_hash.cpp", quick=480000, thorough=3000000)],
  require=["init.default", "init.given", "buff", "chain", "cstr", "fold"],
  assumptions=["a starting value of 0 selects the FNV offset basis"],
  technique="differential monitor against a reference FNV-1a, exact-size buffers under ASan+UBSan")
C("C19", "1-3 interleaved generators seeded by integers and arrays of 1-3000 words, up to 2000 outputs each in all four forms compared with an independent MT19937",
  [S("c19_random", "c19_random.cpp", quick=40000, thorough=1650000)],
  require=["seed.int", "seed.array", "seed.long", "uint32", "float", "float00", "float10", "refill", "reseed", "interleaved", "copied", "autoseed"],
  assumptions=["a seed array has at least one word"],
  technique="differential monitor against a reference MT19937, ASan+UBSan")
C("C20", "seeded 128-bit values through every text form (allocated, exact, larger, too small and query buffers) against independent renderers; valid, mutated, truncated, overlong and overflowing texts in exact-size blocks against an independent parser; version 5 against a reference SHA-1; version 4 from one thread, 2-5 threads, forked children and their threads, and a process without free descriptors, its threads and children, every identifier checked for version, variant and repetition, also under TSan",
  [S("c20_uuid", "c20_uuid.cpp", quick=96000, thorough=3000000), S("c20_tsan", "c20_uuid.cpp", san="tsan", quick=6400, thorough=225000, defs=["-DTSAN", "-DNDEBUG"])],
  require=["roundtrip", "fill.exact", "fill.larger", "fill.refused", "fill.query", "parse.ok", "parse.length", "parse.alphabet", "parse.overflow", "cmp", "null", "v5", "v4", "v4.threads", "v4.forked", "v4.starved", "format.unknown", "v4.bits"],
  assumptions=["uniqueness is observed over the identifiers of one run"],
  technique="differential monitor against reference codecs and SHA-1, uniqueness log over threads and processes, ASan+UBSan, TSan")
C("C21", "seeded histories over up to 4 tables of any size: additions (text and nodes, all prefix lengths, duplicates, 0/0), malformed texts, address and network searches aimed at the edges of stored networks, conversions, table destruction in any order, compared with a linear scan; texts live in exact-size blocks",
  [S("c21_ipv4", "c21_ipv4.cpp", quick=40000, thorough=1300000)],
  require=["table.another", "destroy.one", "destroy.last", "add.text", "add.node", "add.host", "add.any", "add.duplicate", "add.covered", "all.lengths", "malformed", "convert", "null", "search.hit", "search.miss", "search.network.hit", "search.network.miss", "search.node"],
  assumptions=["a prefix length above 32 means 32", "nodes are created while some table exists", "once a table holds 0.0.0.0/0 further additions answer that network"],
  technique="reference-model monitor over random histories, exact-size buffers under ASan+UBSan, heap balance")
C("C22", "half of the cases: generated well-formed files (blocks, comments, numbers at the limits, booleans, quoted and bare strings, references, duplicates, last line unterminated) compared in full with a model, then programmatic sets of every type; the other half: mutated and random files, parsed or rejected under ASan with heap balance, then sets and gets on what was accepted",
  [S("c22_cfg", "c22_cfg.cpp", quick=90000, thorough=3000000)],
  require=["line.block", "line.comment", "line.blank", "value.number", "value.bool", "value.quoted", "value.bare", "value.ref", "last.unterminated", "get.bool", "get.int", "get.float", "get.string", "get.ref", "get.mismatch", "get.absent", "set.int", "set.float", "set.bool", "set.string", "set.own", "set.refused", "wellformed", "hostile.parsed", "hostile.rejected", "missing"],
  assumptions=["a line has at most 1000 characters and a value is not empty (well-formed)", "a boolean is set by the text true, yes, no or false", "a string obtained from a variable is used until that variable is set again"],
  technique="reference-model monitor over generated and mutated files, ASan+UBSan, heap balance, CPU watchdog")
C("C23", "seeded option tables (1-10 options of every built-in and three user-written kinds, short/long/both) and argument vectors (long, '=', clusters, attached and separate values, truncated, unknown and odd arguments) in exact-size blocks, every delivery, value, report and the stop position compared with an independent parser; usage and help texts; faulty tables; the default handler in a child process",
  [S("c23_opts", "c23_opts.cpp", quick=57000, thorough=1900000)],
  require=["deliver." + k for k in ["null", "intmax", "int", "long", "flag", "bool", "string", "array", "userflag", "userval", "take"]] + ["missing", "value.attached", "value.separate", "value.range", "value.malformed", "unknown", "stop", "long", "long.equals", "short", "short.clustered", "usage", "help", "validate.faulty", "validate.sound", "error.text", "default.error", "default.ok", "array.several", "refused"],
  assumptions=["the argument vector ends with a null pointer at argc >= 1", "long names are not empty, option texts are present", "string options have a destination", "after an unknown letter the rest of that argument is skipped"],
  technique="reference-parser monitor on callbacks and the error handler, exact-size blocks under ASan+UBSan, heap balance")
W24 = ["-Wl,--wrap=" + f for f in ["vsyslog", "__vsyslog_chk", "openlog", "closelog", "gethostname", "__gethostname_chk"]]
C("C24", "seeded histories over up to 12 loggers (file append/overwrite, stderr, system log, implicit default): messages at every level and option set with %-laden texts, program names, host names and source positions, error-text messages, level/option changes, default replacement and closing, every sink compared byte for byte with a model (system log and host name through recording stand-ins); 2-6 threads sharing a sink with first use and reconfiguration racing, every line accounted for, also under TSan",
  [S("c24_log", "c24_log.cpp", quick=22000, thorough=700000, ldflags=W24), S("c24_tsan", "c24_log.cpp", san="tsan", quick=880, thorough=29500, ldflags=W24, defs=["-DTSAN", "-DNDEBUG"])],
  require=["open.stderr", "open.syslog", "open.append", "open.overwrite", "open.failed", "set.level", "set.opts", "swap", "remove", "default.created", "close.file", "close.other", "debug.info", "log", "log.v", "log.strerror", "emitted", "filtered", "with.source", "to.default", "to.file", "to.stderr", "to.syslog", "opt.1", "opt.2", "opt.4", "opt.8", "opt.16", "threads.records", "threads.interleavings", "threads.first_use", "threads.reconfigured", "threads.source"],
  assumptions=["a logger is closed, replaced or made default while no other thread logs through it", "the program name is set while no other thread logs"],
  technique="reference-model monitor on every sink, exactly-once and ordering check of records over threads, ASan+UBSan, TSan, heap balance")
C("C25", "seeded pools (1-6 threads, pipes on/off, output workers and/or 1-3 outside readers, finalizer on/off, 0-4 producer threads, items that create items, direct outputs) shut down while idle, busy, empty, during insertion, never or partly started, with random yields and sleeps injected around every lock, unlock, signal and wait through the library's callback tables; each item's counters, pipe bytes, thread ends and leftovers checked; the same under TSan; locks, conditions, timeouts and failing pipes; a watchdog reports a shutdown that does not end",
  [S("c25_asan", "c25_threads.cpp", quick=3000, thorough=210000), S("c25_tsan", "c25_threads.cpp", san="tsan", quick=2000, thorough=140000, defs=["-DTSAN", "-DNDEBUG"])],
  require=["pool", "threads.started", "input.handled", "output.handled", "finalized", "kill.idle", "kill.empty", "kill.during", "inserted.late", "start.failed", "never.started", "children", "order", "pipe.input", "pipe.output", "pipe.failed", "reader.pipe", "reader.poll", "perturbed", "perturbed.sleep", "primitives", "timeout", "timeout.long", "thread.kill", "thread.detach", "idle", "balance"],
  assumptions=["an input worker is configured", "callback tables are set while no pool runs", "notification pipes do not fill up", "a pool is shut down once; items inserted after the shutdown began may stay queued"],
  technique="exactly-once accounting over perturbed schedules, TSan, ASan+UBSan, liveness watchdog")
C("C26", "seeded trees of directories, files and links laid out twice; zt_mkdir with and without parents on relative, absolute, dotted, doubled, trailing-slash, linked, overlong paths under several modes and masks compared with a plain per-prefix reference by result and resulting tree; refusals from any mkdir on and creators that are faster injected at the system call; 2-6 threads creating overlapping paths; existence and base-directory search compared with stat",
  [S("c26_path", "c26_path.cpp", quick=6000, thorough=200000, ldflags=["-Wl,--wrap=mkdir"])],
  require=["created", "created.parents", "already", "failed.parents", "failed.single", "long", "concurrent.create", "exists.yes", "exists.no", "basedir.itself", "basedir.ancestor", "basedir.root", "basedir.none", "basedir.long"],
  assumptions=["nobody removes directories meanwhile"],
  technique="differential monitor against the file system, injected system-call failures and races, ASan+UBSan")
C("C27", "histories of settings in seeded trees: names plain, stripped, empty, overlong; programs given by absolute, relative, dotted and overlong paths; bare names searched in PATHs of 0-400 elements (absolute, relative, empty, missing, doubled and trailing slashes, overlong, links), some of which hold the program, a directory or a dangling link of its name; working directories plain, root, deep and removed; PATH unset; compared with a reference resolution, global redzones watched",
  [S("c27_progname", "c27_progname.cpp", quick=40000, thorough=1300000)],
  require=["name.stripped", "name.whole", "name.kept", "name.long", "cwd.gone", "cwd.deep", "path.unset", "found.first", "found.middle", "found.last", "found.relative", "found.empty", "not.found", "given.long", "given.absolute", "given.relative", "given.dot", "os"],
  assumptions=["a name or path handed in is not the library's own buffer", "programs found in PATH are executable files"],
  technique="reference-model monitor, ASan+UBSan with global redzones")
C("C28", "seeded pairs of normalised time values (zero, one, boundary microseconds, 32- and 64-bit edges, negative seconds), operands and result aliased in every way, checked against 128-bit arithmetic; zt_time and calibration run against a simulated CPU clock (linker-wrapped getrusage) with every count from -4 to 60; elapsed figures and the printed line recomputed",
  [S("c28_time", "c28_time.cpp", quick=150000, thorough=3000000, ldflags=["-Wl,--wrap=getrusage"])],
  require=["add", "sub", "diff", "less", "greater", "equal", "aliased", "calibrate", "timed", "timed.nothing", "print"],
  assumptions=["operands are normalised and results representable"],
  technique="reference-model monitor, simulated clock, ASan+UBSan")
W29 = ["-Wl,--wrap=_zt_log_assertion", "-Wl,--wrap=abort"]
C("C29", "every pair of operands of the two 8-bit types for all four operations, every right operand of the 16-bit types with a walk over the left ones (all of them in the thorough tier), seeded pairs of the wider types at and around the edges of the representable, compared with 128-bit arithmetic; refusals observed as the fatal assertion report; the same with unsigned plain char, and for representable results with assertions compiled out",
  [S("c29_all16", "c29_int.cpp", quick=400, thorough=65549, ldflags=W29, defs=["-DASSERTS", "-DALL16", "-fno-sanitize=address"]), S("c29_int", "c29_int.cpp", quick=40000, thorough=1000000, ldflags=W29, defs=["-DASSERTS", "-fno-sanitize=address"]), S("c29_uchar", "c29_int.cpp", quick=1000, thorough=100000, ldflags=W29, defs=["-DASSERTS", "-funsigned-char", "-fno-sanitize=address"]), S("c29_nochecks", "c29_int.cpp", quick=1000, thorough=100000, ldflags=W29)],
  require=["exhaustive", "row16", "char", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "exact", "refused", "by.zero"],
  assumptions=["assertions are compiled in for refusals", "long multiplication and division do not exist on this platform (the header omits them)"],
  technique="reference-model monitor, ASan+UBSan, exhaustive for 8-bit operands")
C("C30", "generated units of 0-4 suites of 0-5 scripted C (longjmp) and C++ (throw) tests that pass, fail plainly, with text, in nested calls, call FAIL, throw strings, NULL, numbers and objects, return early; run as a whole, by suite, directly, by name (existing, missing, malformed) and through zt_unit_main, repeatedly; the executed steps, all totals, per-suite and per-test records, error texts, the printed report and the exit status compared with a model",
  [S("c30_unit", "c30_unit.cpp", quick=42000, thorough=1400000, extra=["c30_c.c"])],
  require=["test.passed", "test.failed", "test.exception", "test.again", "c", "cpp", "suite", "suite.empty", "by.suite", "by.test", "not.found", "run.all", "direct", "help", "list", "main.ok", "main.failed", "stats", "errors", "empty", "release.suite", "release.test"],
  assumptions=["names contain no dot", "assertions fail inside the test function, not in setup or teardown"],
  technique="reference-model monitor over executed steps and report, ASan+UBSan, heap balance")
W31 = ["-Wl,--wrap=" + f for f in ["write", "close", "fork", "sleep", "getrlimit", "getrlimit64"]]
C("C31", "child processes that register 0-120 exit functions (some twice, some with a null argument, some registering further ones while running, some from a libc exit function) and exit; pid files new, existing, linked, relative, uncreatable, on a full device, with interrupted, short and failing writes and failing close, from parent and forked child; daemons started with various masks, roots and open descriptors and failing forks, inspected from inside and reaped",
  [S("c31_life", "c31_life.cpp", quick=15000, thorough=500000, ldflags=W31), S("c31_unlimited", "c31_life.cpp", thorough=1, ldflags=W31, defs=["-DUNLIMITED", "-DNDEBUG"], cpu=200, wall=250)],
  require=["exit", "exit.functions", "exit.nested", "exit.late", "exit.twice", "exit.none", "exit.null", "pid.new", "pid.existing", "pid.refused", "pid.fault", "pid.interrupted", "pid.child", "daemon", "daemon.anywhere", "daemon.refused"],
  assumptions=["the one-second wait of the intermediate process is shortened"],
  technique="process-level monitors (shared-memory exit log, subreaper, descriptor audit), injected system-call failures, ASan+UBSan")
C("C32", "2-6 threads started together, each running seeded workloads over objects of its own from 25 modules (tables, sets, trees, lists, pointer and typed arrays, buffers, byte streams, encoders, strings, formatting, pools, chunk pools, collectors, digests, hashes, generators, identifiers, address tables, configurations, options, paths, own log files, times); every result digested and compared with the same workload run alone afterwards; random identifiers compared over all threads; exit functions registered from several threads counted at exit; ThreadSanitizer watches every access, AddressSanitizer the same runs at higher speed; distinct = distinct result histories",
  [S("c32_tsan", "c32_indep.cpp", san="tsan", quick=900, thorough=50000, defs=["-DTSAN", "-DNDEBUG"]), S("c32_asan", "c32_indep.cpp", quick=1200, thorough=70000)],
  require=["table", "set", "tree", "list", "llist", "ptr_array", "array", "buf", "bstream", "base", "cstr", "format", "pool", "ez", "gc", "sha1", "hash", "random", "uuid", "ipv4", "cfg", "opts", "path", "log", "time", "atexit", "threads", "ids.distinct"],
  assumptions=["no conversion is registered with zt_fmt_register and neither the program name, the default logger nor the time calibration is set while the threads run", "pool names looked up belong to the thread that looks"],
  technique="ThreadSanitizer race detection and differential monitor (concurrent against single-threaded digests)")
W33 = ["-Wl,--wrap=" + f for f in ["malloc", "calloc", "realloc", "strdup", "fopen", "fopen64", "vasprintf", "__vasprintf_chk", "asprintf", "__asprintf_chk"]]
C("C33", "23 workloads covering every allocating module; each is first run whole to count its allocations, then again in a fresh child process for chosen (thorough: up to 60, all when fewer) allocation numbers, that one failing or that one and all later ones; afterwards the same workload must succeed in the same process; distinct = distinct (workload, seed)",
  [S("c33_oom", "c33_oom.cpp", quick=1900, thorough=24000, ldflags=W33)],
  require=["inject", "inject.persistent", "fatal", "survived"],
  assumptions=["allocations made inside libc (other than fopen, strdup and the asprintf family) succeed"],
  technique="allocation-failure injection at every allocation call with reference-model and sanitizer oracles in child processes")
W34 = ["-Wl,--wrap=" + f for f in ["malloc", "calloc", "realloc"]]
C("C34", "seeded requests (element counts times sizes, lengths, offsets, hints) that are small, too large to provide, or whose product or sum just exceeds what a size can represent and leaves a small remainder, to arrays (new, wrap, copy, resize), string repetition, memory heaps, pools, pool groups, chunk pools, tables, buffers, byte streams, encoders, pointer arrays, address tables and the allocation macros; each in a child process whose allocator refuses more than 256 MB; what is said to be served is used at both ends and checked, what is small must be served",
  [S("c34_sizes", "c34_sizes.cpp", quick=2500, thorough=150000, ldflags=W34)],
  require=["array", "repeat", "heap", "pool", "chunk", "table", "buffer", "stream", "encode", "pointers", "plain", "addresses", "served", "refused", "stopped"],
  assumptions=["no more than 256 MB can be allocated at once"],
  technique="boundary-biased size generation under ASan+UBSan with a capped allocator, outcome and content oracle in child processes")
C("C35", "seeded sequences of 1-8 checks of every macro at oddly named places (quotes, escapes, conversions, long conditions, deep and long paths, huge lines), holding or failing, in C with assertions on, NDEBUG and NO_ASSERT and in C++, and direct reports with arbitrary texts, run in child processes that report to a file, to stderr or to the implicit default at every level and option set; evaluations of the condition, continuation, returned values, the terminating signal, exit functions and every line of the sink compared with a model; 2-5 threads failing at once",
  [S("c35_assert", "c35_assert.cpp", quick=6000, thorough=150000, defs=["-DC35"], extra=["c35_on.c", "c35_ndebug.c", "c35_noassert.c"])],
  require=["holds", "inactive", "reported", "filtered", "fatal.on", "fatal.c++", "fatal.ndebug", "fatal.no_assert", "abort", "survived", "direct.assertion", "direct.abort", "path.long", "strdup", "strdup.null", "to.file", "to.stderr", "to.default", "threads"],
  assumptions=["source file names end in a plain name shorter than 256 characters"],
  technique="process-level reference-model monitor on report sinks and outcome, ASan+UBSan")
C("C38", "the workloads of C32 (and test suites being run) with nested runs: from inside a random selection of the callbacks the library makes (hash, compare and iteration functions of tables and sets, tree comparisons, list predicates, owner callbacks of pointer arrays, dump and format sinks, user conversions, page release tests, deallocators, mark and release functions, option callbacks and error handlers, timed functions, test bodies, setup and teardown functions, exit functions) a whole workload of the same or another kind is run, up to three deep; every digest compared with the same workload run without nesting; non-trivial = at least one nested run; distinct = distinct histories of results",
  [S("c38_reent", "c38_reent.cpp", quick=12000, thorough=400000)],
  require=["in." + k for k in ("table", "set", "tree", "llist", "ptr_array", "cstr", "format", "pool", "ez", "gc", "opts", "time", "unit")] + ["same." + k for k in ("table", "set", "tree", "llist", "ptr_array", "cstr", "format", "pool", "ez", "gc", "opts", "time", "unit")] + ["depth.3", "atexit", "held"],
  assumptions=["the object a callback is made for is not changed by the callback", "conversions are registered before the runs"],
  technique="differential monitor (nested against un-nested digests) under ASan+UBSan, CPU watchdog, heap balance")
C("C41", "seeded pools (1-4 threads, 0-3 producers, items that insert items and outputs, callbacks that insert, own loops, disabled loops, threads that fail to start, groups of items that can only be handled at the same time) over a backend of our own that runs one thread at a time and chooses the next at every lock, unlock, wait, signal, start, join and callback (uniform, priorities with change points, sticky; a third with waits that end by themselves): locks and waits checked against their owners, a state in which no thread can go on reported at once, exactly-once accounting at the end; random sequences of installing, refusing, removing and calling recorder backends compared with the expected call, arguments and answer; non-trivial = every case; distinct = distinct sequences of scheduling choices",
  [S("c41_sched", "c41_sched.cpp", quick=24000, thorough=400000)],
  require=["pool", "choice", "switch", "wait", "wait.spurious", "signal.one", "signal.all", "signal.nobody", "contended", "policy.random", "policy.priority", "policy.sticky", "rendezvous.in", "rendezvous.out", "idle.all", "kill.during", "start.failed", "no.input.loop", "own.input.loop", "own.output.loop", "set.piecewise", "inserted.late", "pipe.input", "pipe.output", "order", "installed", "refused", "remove", "call.routed", "call.none", "call.optional", "pool.bare", "balance"],
  assumptions=["an input worker is configured", "backends are changed while no pool runs", "a thread object is released by free()"],
  technique="online lock-discipline and deadlock monitor over scheduler-chosen interleavings, exactly-once accounting, call-routing monitor, ASan+UBSan")
C("C42", "the workloads of C32 once in a plain process and again, with the same seed, in one whose locale, of the process or of the thread (C, C.UTF-8, German and Turkish, made with localedef), errno before every call and in every callback, rounding mode, file mode mask, working directory, environment, standard input, blocked signals, free descriptors and arriving signals differ at random; digests compared; before and after every run a snapshot of the process (directory, masks, handlers, environment, locale, rounding, descriptors, limits, timers, threads, streams, output written) and the C library's hidden state (random, lrand48, strtok, gmtime) compared; numbers formatted in every locale compared with printf; non-trivial = every case; distinct = distinct histories of results",
  [S("c42_ambient", "c42_ambient.cpp", quick=32000, thorough=1600000)],
  require=["table", "set", "tree", "list", "llist", "ptr_array", "array", "buf", "bstream", "base", "cstr", "format", "pool", "ez", "gc", "sha1", "hash", "random", "uuid", "ipv4", "cfg", "opts", "path", "log", "time", "text", "C", "C.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "tr_TR.UTF-8", "errno", "rounding", "umask", "directory", "environment", "stdin.closed", "thread.locale", "blocked", "descriptors", "signals", "numbers"],
  assumptions=["formatted numbers, printable characters of a dump and month names follow the locale, as printf, isprint and strftime do", "formatted numbers follow the rounding mode", "floating-point exception flags are not part of the state"],
  technique="differential monitor (digests under a perturbed and a plain process) and before/after snapshots of process state, ASan+UBSan")
W39 = ["-Wl,--wrap=" + f for f in ["select", "nanosleep", "clock_nanosleep", "usleep", "poll"]]
C("C39", "seeded values through every operand shape (arithmetic, bit, comparison, logical, conditional, comma, shift, unary) of the header macros in every place (alone, operand of unary and binary operators, branch of an if with else, body of a loop), compiled as C with DEBUG and assertions, as C with NDEBUG and as C++; results compared with the same expression on precomputed values, reports counted and their positions compared, waits added up by wrapped calls; non-trivial = at least one comparison; distinct = distinct values and macro families",
  [S("c39_macro", "c39_macro.cpp", quick=800000, thorough=12000000, defs=["-DC39"], extra=["c39_on.c", "c39_off.c"], ldflags=W39)],
  require=["numbers", "pairs", "indents", "bits", "places", "memory", "texts", "walks", "trees", "folds", "code", "logs", "waits", "units", "sizes", "lengths", "c.debug", "c.ndebug", "c++", "checks"],
  assumptions=["operands have no side effects where the macro names them more than once"],
  technique="differential monitor (macro against precomputed operands) under ASan+UBSan, report and wait counters")
W37 = ["-Wl,--wrap=" + f for f in ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strnlen", "strcpy", "strncpy", "strcat", "strncat", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "strstr", "strspn", "strcspn", "strpbrk", "strdup"]]
OPS37 = ["table.int", "table.str", "table.case", "table.buf", "table.churn", "table.one", "set", "tree", "tree.one", "elist", "join", "queue", "stack", "llist", "llist.sort", "llist.merge", "array", "array.one", "pointers", "pointers.one", "buffer", "buffer.pipe", "buffer.reserved", "stream", "stream.one", "base", "hex", "sha1", "hash", "random", "uuid", "cstr", "strip", "dirs", "split", "cut", "dump", "format", "pool", "pool.churn", "pool.one", "ez", "gc", "gc.flat", "ipv4", "cfg", "opts", "log"]
C("C37", "48 workloads (building, using, walking and clearing each container, buffer and stream in four patterns: ascending, descending, random and mixed; coding, hashing, comparing, searching, splitting and dumping data; pools, collector, tables of nets, settings, options and logs), each run twice on a thread with a 192 kB stack, for n elements and for 8n (n 2000 to 40000, one in twenty 80000 to 800000, thorough others up to 320000); the work (executed basic blocks of the library plus an eighth of the bytes libc handled for it) and the peak of allocated bytes for 8n at most 2 times (constant), 3 times (logarithmic), 20 times (linear) or 24 times (n log n) those for n, by the class of the workload; non-trivial = work counted; distinct = distinct workloads, sizes, seeds and patterns",
  [S("c37_cost", "c37_cost.cpp", san="cost", quick=960, thorough=19200, extra=["c37_ops.c"], ldflags=W37)],
  require=["work", "big"] + OPS37,
  assumptions=["tables are created for the number of elements they get, pools for their element size", "sets hold no more than their fixed table is made for", "growing a buffer may copy what it holds each time its size passes a multiple of its step"],
  technique="scaling monitor over counted basic blocks, libc bytes and allocator peaks, bounded stack")
# every workload again, with the library's assertions compiled in (those that trip assertions on purpose excepted)
DBG = []
for _pid, _c in list(CHECKS.items()):
    if _pid in ("C37", "C29", "C33", "C34", "C35", "C39"): continue
    for _s in _c["stages"]:
        if _s["san"] != "asan" or "quick" not in _s or _s.get("valgrind"): continue
        _d = dict(_s, name="dbg_" + _s["name"], san="dbg", quick=max(64, _s["quick"] // 40), thorough=_s["quick"], rel_defs=_s.get("defs", ["-DNDEBUG"]) + ["-DCHECKED"], defs=[x for x in _s.get("defs", []) if x != "-DNDEBUG"] + ["-DCHECKED"])
        _d.pop("probes", None); DBG.append(_d)
C("C36", "the workloads of the checks C01-C28, C30-C32 and C38 (smaller numbers of cases, the same generators and oracles) against the library and its headers compiled with their assertions; an assertion that ends a workload is a violation, and so is an oracle or sanitizer report that the same case does not give without assertions",
  DBG, require=["set.new", "insert.new", "add_tail", "pool", "created", "deliver.string", "emitted"],
  assumptions=["an empty block is not handed to an array for keeping"],
  technique="differential execution of the checked and unchecked builds under ASan+UBSan")
# every workload again under memcheck: nothing may depend on memory that was not set
VG, WVG = [], ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free")]
VGN = {"c01_table": 1200, "c02_set": 800, "c03_tree": 1200, "c05_llist": 800, "c21_ipv4": 1000, "c24_log": 600, "c25_asan": 120, "c26_path": 80, "c27_progname": 500, "c29_all16": 16, "c31_life": 120, "c32_asan": 100, "c33_oom": 12, "c34_sizes": 100, "c35_assert": 80, "c14_mem": 400, "c42_ambient": 130}
for _pid, _c in list(CHECKS.items()):
    if _pid in ("C36", "C37"): continue
    for _s in _c["stages"]:
        if _s["san"] != "asan" or "quick" not in _s: continue
        _n = VGN.get(_s["name"], 2000); _own = any("--wrap=malloc" in x for x in _s.get("ldflags", []))
        _d = dict(_s, name="vg_" + _s["name"], san="plain", valgrind=True, split=0.5, cpu=300, wall=600, quick=_n, thorough=_n * 12, defs=_s.get("defs", ["-DNDEBUG"]) + ["-DMEMCHECK"] + (["-DTRACK"] if _pid == "C14" else []))
        if not _own: _d.update(ldflags=_s.get("ldflags", []) + WVG, extra=_s.get("extra", []) + ["vg_wrap.c"])
        _d.pop("probes", None); VG.append(_d)
C("C40", "the workloads of the checks C01-C35, C38, C39, C41 and C42 (smaller numbers of cases, the same generators and oracles) run under valgrind's memcheck, which follows every bit from where it is set to every branch, address and system call that uses it; a branch, an address, a comparison made by an oracle, or a byte handed to the system that depends on memory that was not set is a violation, and so is any invalid access or oracle report",
  VG, require=["set.new", "insert.new", "add_tail", "pool", "created", "deliver.string", "emitted", "alloc.reuse", "display"],
  assumptions=["valgrind's model of the instruction set and of the system calls"],
  technique="valgrind memcheck (definedness of every bit) over the model-checked workloads")
W43 = ["-Wl,--wrap=" + f for f in ["malloc", "calloc", "realloc", "free", "strdup"]]
C("C43", "seeded objects of every kind (tables, sets, trees, lists, arrays, buffers, streams, pools, groups, heaps, collectors, net tables, settings, option tables, loggers, identifiers, definitions of codes) built in an area of their own, together with every key, text, number, definition and block handed over for reading; the area is made read-only, some 40 questions are asked of each, and a write there is attributed to the function asked; the same scenes under the race detector with three threads that ask the same questions of one object at once and must get the same answers; non-trivial = answers digested; distinct = distinct digests",
  [S("c43_look", "c43_look.cpp", quick=120000, thorough=6000000, ldflags=W43), S("c43_tsan", "c43_look.cpp", san="tsan", quick=16000, thorough=600000, ldflags=W43, defs=["-DTSAN", "-DNDEBUG"])],
  require=["table", "set", "tree", "lists", "arrays", "bytes", "text", "ids", "settings", "memory", "asked", "locked", "together"],
  assumptions=["functions that hand out a block, move a read position or advance a generator are not questions"],
  technique="write-protection monitor over queries and inputs, ThreadSanitizer and differential monitor over concurrent queries")
C("C44", "the seeded workloads of C32 and C42 and one in C over the macros and inline functions of the headers, run against ten builds of the library in one process (gcc and clang; -O0 to -O3, -Os, link-time optimisation; plain char signed and unsigned; automatic variables preset to zero, to a pattern or not at all; strict aliasing and wrapping on and off; C99 and C17; assertions in and out; with and without threads; with the library's own replacements of system functions); each digest compared with that of the plain build; non-trivial = every case; distinct = distinct digests",
  [S("c44_builds", "c44_builds.cpp", san="plain", quick=300000, thorough=2500000, variant="c44_variant.cpp", variant_c="c44_hdr.c", ldflags=["-rdynamic", "-ldl"])],
  require=["header", "text", "table", "set", "tree", "list", "llist", "ptr_array", "array", "buf", "bstream", "base", "cstr", "format", "pool", "ez", "gc", "sha1", "hash", "random", "uuid", "ipv4", "cfg", "opts", "path", "log", "time"],
  assumptions=["one processor architecture (64-bit x86), one C library", "a build the compiler refuses is left out and named in the evidence, unless it is one with the library's own versions of helper functions"],
  technique="differential execution of the library's builds")
W45 = ["-Wl,--wrap=" + f for f in ["fopen", "fopen64", "write", "pipe", "pthread_create", "pthread_mutex_init", "pthread_cond_init", "mkdir", "stat", "stat64", "getcwd", "__getcwd_chk", "readlink", "gethostname", "creat", "close"]]
C("C45", "seeded workloads over everything that uses the system (configuration files, file and terminal loggers, random identifiers in threads and children, directories, existence tests and searches, program location, pid files, thread pools with and without pipes, test reports, formatted output), each in a process of its own: chosen system calls fail with every plausible code, once or from then on, or are interrupted; streams are read a few bytes at a time, and reading or writing fails after a chosen number of bytes; terminals are full or closed; all thread-specific keys are taken; the outcome is compared with what the file system, the pipes and the workers really hold, then the same workload must succeed; non-trivial = a failure was met; distinct = distinct (workload, seed)",
  [S("c45_os", "c45_os.cpp", quick=6000, thorough=150000, ldflags=W45), S("c45_plain", "c45_os.cpp", san="plain", quick=4000, thorough=150000, ldflags=W45)],
  require=["injected", "cfg", "cfg.rejected", "cfg.unreadable", "log", "log.hit", "mkdir", "mkdir.failed", "exists", "stat.failed", "pool", "pool.refused", "pool.start.failed", "pool.interrupted", "pool.wakeups", "uuid", "uuid.norandom", "prog", "prog.failed", "pid", "pid.failed", "output.full", "unit.full", "keys", "fatal"],
  assumptions=["the C library behaves as documented when a system call fails below it"],
  technique="system-call fault injection with reference-model, file-system and sanitizer oracles in child processes")
C("C46", "seeded objects made their own counterpart and values handed back to where they came from: times with the result over either or both operands; sets as each other's operand and destination in every combination; tables copied into themselves and emptied by their own stored keys; pointer arrays joined to themselves; elements put and copied within their array; streams repositioned in the array they have; buffers added to themselves, in whole, in part and in vectors of parts; codes, hexadecimal text and digests turned back in place; texts searched, joined, mapped, split by and copied within themselves; directory and name taken in place; the program's name set again from itself; settings set from values they gave out; each compared with the same operation on separate twins or a model; non-trivial = every case; distinct = distinct operands",
  [S("c46_self", "c46_self.cpp", quick=160000, thorough=6000000), S("c46_checked", "c46_self.cpp", san="plain", quick=80000, thorough=3000000, defs=["-DCHECKED"])],
  require=["time", "set", "table", "table.own.key", "pointers.cat", "pointers.place", "pointers.add", "array", "stream.seek", "stream.part", "buffer", "buffer.self", "buffer.parts", "decode", "decode.bad", "hex", "sha1", "uuid", "text", "copy.within", "basename", "dirname", "program", "settings", "settings.same", "settings.other", "settings.name"],
  assumptions=["encoding and hexadecimal text grow and are not made in place", "zt_progpath is not given its own result", "a stream is not written from the array it owns"],
  technique="differential monitor (shared operand against a separate twin) under ASan+UBSan")
C("C47", "seeded calls of everything that takes text, bytes, tables of definitions or callbacks, each input in a block of its own that is overwritten and freed when the call returns, and each result read when it is made and again after all that followed: texts joined, cut, mapped and formatted; codes, digests, identifiers and generators; names of pools, heaps, groups, tables and test suites, all looked up by name later; arrays, streams, buffers, sets, tables and lists copied, the source changed and destroyed; settings from a file that is replaced after it was read; options from argument vectors and tables that are gone; log files, program names, networks; tables of thread callbacks; the same questions asked of blocks that come and go and of texts that stay; half the cases with all inputs following each other at the same addresses; non-trivial = every case; distinct = distinct inputs",
  [S("c47_after", "c47_after.cpp", quick=60000, thorough=2500000), S("c47_checked", "c47_after.cpp", san="plain", quick=60000, thorough=2500000, defs=["-DCHECKED"])],
  require=["part", "repeat", "join", "joinv", "backwards", "mapped", "path", "split", "cut", "tok", "format", "message", "error", "copy", "encoded", "decoded", "address", "digest", "uuid", "generator", "pool", "heap", "group", "table.name", "unit", "array", "stream", "buffer", "pointers", "set", "table", "list", "strdup", "network", "settings", "settings.set", "settings.got", "log", "options.text", "options.list", "program", "basedir", "callbacks", "thread", "question"],
  assumptions=["keys and data of tables, members of sets, elements of pointer arrays and lists belong to the caller and are kept by design", "the program's name and location are given out as the library's own"],
  technique="lifetime monitor (overwritten and freed inputs, re-read results) under ASan+UBSan")
C("C48", "seeded callbacks that go on using the object that called them: tables and sets traversed by callbacks that look up, insert, delete the delivered item, traverse again, copy and combine, and whose hash, compare and match functions ask the same table; nested pools whose free callbacks allocate from, extend, subdivide and destroy pools of the same family; pointer arrays whose free callback adds and removes; trees whose order function searches and walks the tree; pools whose release test reads statistics, tidies the pool and allocates from it; test runs whose tests register tests and suites; options whose callback has the same parser process further arguments; a collector's values unregistered while it is traversed; each against a model; non-trivial = at least one nested use allowed; distinct = distinct histories",
  [S("c48_own", "c48_own.cpp", quick=120000, thorough=3000000), S("c48_checked", "c48_own.cpp", san="plain", quick=120000, thorough=3000000, defs=["-DCHECKED"])],
  require=["table.get", "table.delete", "table.insert", "table.refused", "table.nested", "table.copy", "table.stop", "table.hash.asks", "table.compare.asks", "set.match.asks", "set.member", "set.insert", "set.nested", "set.algebra", "ez.cb.add", "ez.cb.strdup", "ez.cb.sub", "ez.cb.destroy", "ez.cb.parent", "ez.freed", "array.cb.add", "array.cb.del", "tree.ask", "tree.walk.remove", "pool.stats", "pool.tidy", "pool.alloc", "unit.test", "unit.suite", "unit.later", "opts.nested", "gc.nested", "gc.unregister"],
  assumptions=["a traversal's callback removes no item but the one it was given", "free callbacks do not use what was freed before", "a pool is not destroyed from its own free callback"],
  technique="reference-model monitor of nested use under ASan+UBSan")
