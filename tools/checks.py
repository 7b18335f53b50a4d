CHECKS = {}
NOT_APPLICABLE = {}
HIST = "exhaustive operation-history exploration of the real library (fork tree) against a reference model"
ENUM = "exhaustive bounded enumeration of inputs on the real code against a reference model"
def check(pid, **kw):
    kw.setdefault("technique", HIST if kw["level"] == "model_checking" else ENUM)
    kw.setdefault("note", kw["rule"])
    CHECKS[pid] = kw

check("A01", level="model_checking", harnesses=[dict(name="a01", src=["a01.cpp"])],
      rule="history tree: every enabled begin/set/end at every node over 12 attribute mixes; distinct = distinct context-model states; every transition runs the real library and every query result is compared with the model",
      assumptions=["values from a two-value alphabet per attribute", "histories up to the per-scenario depth listed"])
check("A02", level="model_checking", harnesses=[dict(name="a02", src=["a01.cpp"], args=["--snap"])],
      rule="history tree over set/exchange/end on attributes whose ids collide in the context store, and all two-thread operation interleavings; each snapshot is compared entry by entry with the model",
      assumptions=["records stay below the snapshot capacity of 120 entries"])
check("A03", level="model_checking", harnesses=[dict(name="a03", src=["a03.cpp"])],
      rule="history tree over matched and mismatched begin/end/set operations (thread, process and channel scope) with an error-stop model; after every history the trace and the validator verdict are compared; plus all two-thread interleavings",
      assumptions=["ends of attribute keys that were never created are out of scope"])
check("A04", level="exploration", harnesses=[dict(name="a04", src=["a04.cpp"])],
      rule="all programs of up to three marking constructs (42 constructs incl. exceptional exit) in nesting/sequence shapes; each is executed with the constructs and as plain begin/end and the full traces are compared; distinct = distinct observed traces",
      assumptions=["Fortran and Python bindings are not exercised", "annotation objects are used with values of the type of their key"])
check("A05", level="model_checking", harnesses=[dict(name="a05", src=["a05.cpp"])],
      rule="history tree over attribute creations (colliding names x types/properties/metadata x C, C++ and new-thread calls) and over value-path requests, with lookup of everything ever created after each step; plus every combination of node-block fill level and path length around the block size",
      assumptions=["value types match the attribute type"])
check("B01", level="exploration", harnesses=[dict(name="b01", src=["b01.cpp"], config="asan")],
      rule="every value, pair and triple of a 150-value boundary alphabet over all types (exact-size buffers under ASan/UBSan) against an independent oracle with 128-bit arithmetic; every attribute flag set and buffer size",
      assumptions=["not-a-number excluded from ordering", "doubles print with the documented six decimals"])
check("B02", level="exploration", harnesses=[dict(name="b02", src=["b02.cpp"], config="asan")],
      rule="every integer pair, packed value pair, node and node list, snapshot record (all buffer lengths), record list (all splits) over boundary alphabets in exact-size buffers under ASan/UBSan; plus the C snapshot interface for every buffer length on a family of live contexts",
      assumptions=["snapshot buffers are at least two bytes long", "pointer values are not exchanged between processes"])
check("D01", level="model_checking", harnesses=[dict(name="d01", src=["d01.cpp"], libs="-Wl,--wrap=memset"), dict(name="d01c", src=["d01c.cpp"], config="asan", libs="-Wl,--wrap=memset")],
      rule="history tree over annotation and channel operations (create, activate, deactivate, flush, flush+clear, delete, snapshot) on up to three differently configured channels; what every channel recorded is compared with a per-channel model after every history, then finalization is run and flush/finish events are counted",
      assumptions=["channel operations are issued from one thread (documented restriction)"])

check("E02", level="model_checking", harnesses=[dict(name="e02", src=["e02.cpp"], config="asan", libs="-Wl,--wrap=memset")],
      rule="history tree over snapshots of three sizes, flush, clear and exiting threads, started from empty, nearly full and byte-full buffers, for every policy and buffer size; every chunk size up to 400 bytes with every sequence of record sizes (address sanitizer on)",
      assumptions=["buffers of one MiB and (misconfigured) zero size at library level; all small sizes at chunk level", "snapshots of other threads taken while a flush runs are out of scope"])
check("D02", level="model_checking", harnesses=[dict(name="d02", src=["d02.cpp"], libs="-Wl,--wrap=memset")],
      rule="history tree over annotation, snapshot, exiting-thread, memory tracking and loop operations mixed with flush, clear, write and write+clear, for seven combinations of collecting services under a controlled clock; every flush is compared with a reference model of the data since the last clear",
      assumptions=["flush and clear are not concurrent with annotations (documented restriction)"])
check("E01", level="model_checking", harnesses=[dict(name="e01", src=["e01.cpp"], libs="-Wl,--wrap=memset")],
      rule="history tree over region, value, metric and attribute-creation operations with trace and aggregation active together, for nine key/metric configurations; after every history the profile is compared with an independent aggregation of the trace; plus key populations up to 8192 keys with colliding hashes",
      assumptions=["snapshots of threads other than the first are merged by key before comparing, as profiles are kept per thread"])
check("E03", level="model_checking", harnesses=[dict(name="e03", src=["e03.cpp"], libs="-Wl,--wrap=memset")],
      rule="history tree over begin/set/end of ten kinds of attributes (early and late created), channel (de)activation and exiting threads for 23 trigger, level and filter configurations; the full trace is compared with an independent model; plus all filter texts of one to three patterns in several spellings against nineteen region names",
      assumptions=["branch filters look at the open regions of the calling thread (and the scope of the event's own attribute)"])
check("E04", level="model_checking", harnesses=[dict(name="e04", src=["e04.cpp"], libs="-Wl,--wrap=memset")],
      rule="history tree over begin/set/end, snapshot, exiting threads and profile start/stop/clear under a controlled clock that advances by a distinct power of two before each operation, so each reported time identifies the intervals it consists of; traces, aggregated inclusive profiles and the region-profile interfaces are compared with the model",
      assumptions=["a thread's first time measurement counts from the creation of the channel", "region types named in profile requests exist", "flat inclusive times add up all instances of a region, including recursive ones", "inclusive times are checked while the channel stays active"])
check("E05", level="model_checking", harnesses=[dict(name="e05", src=["e05.cpp"], libs="-Wl,--wrap=memset")],
      rule="history tree over loop, iteration (short, long, with nested content), region and channel (de)activation operations under a controlled clock for loop statistics, nine loop-monitor configurations and the region monitor; the full snapshot trace is compared with a model of each service",
      assumptions=["one thread", "loop services are activated outside of loops", "a loop is not nested in itself (its value-only iteration attribute cannot be nested)"])

check("E06", level="model_checking", harnesses=[dict(name="e06", src=["e06.cpp"], libs="-Wl,--wrap=memset")],
      rule="history tree over track (all interfaces, re-tracked addresses, zero and multi-GiB sizes), untrack, snapshot and region operations for eight configurations of the allocation services, every snapshot compared with the model; plus every sequence of tracking toggles over families of disjoint and overlapping regions followed by a lookup of every address around them",
      assumptions=["addresses are arbitrary numbers (the services never access the memory)", "allocstats only considers memory tracked inside annotated regions", "an address covered by several tracked regions may be attributed to any of them"])
check("F01", level="exploration", harnesses=[dict(name="f01", src=["f01.cpp"], libs="-Wl,--wrap=memset")],
      rule="every string up to the length bound over a ten-character alphabet (separators, escapes, newline, non-ASCII), every byte, a boundary alphabet of every numeric type, in each of nine positions of a file; every attribute flag set x type x metadata chain; every sequence of record shapes up to the length bound x globals; each written with the real writer, read back and compared; plus the operation-history tree of a live trace flushed to a file against an in-process flush",
      assumptions=["control characters other than newline are not representable in the format", "blob, pointer and hidden values are not stored by design", "the empty string is not an attribute name"])
check("F02", level="exploration", harnesses=[dict(name="f02", src=["f02.cpp"])],
      rule="every ordered selection (with repetition) up to the length bound from eight files with conflicting ids, names, types, properties and metadata, read into one database or merged database to database; every numbering of the nodes of a file by ids 12..23, read after each of several files; every file's records must equal those of the file read alone",
      assumptions=["files define each node before it is used and each id once, as the library writes them"])
check("F03", level="exploration", harnesses=[dict(name="f03", src=["f03.cpp"], config="asan")],
      rule="every cut, every start offset, every byte replaced or inserted (21 byte values; all 256 thorough), every byte range up to 24 removed, every record pair removed/copied/swapped, every number replaced by 60 values (every pair of numbers thorough), for three files; the real reader, seven queries over all formatters and aggregators, and a database merge run on each under ASan/UBSan",
      assumptions=["a cut inside a number or a string cannot be detected: only the records before the damage must be unchanged (and all other records where the damage is inside one snapshot record)"])
check("F04", level="exploration", harnesses=[dict(name="f04", src=["f04.cpp"])],
      rule="every string up to the length bound over a ten-character alphabet, every code point below U+0250, the numeric boundary alphabet, in nine positions; every attribute flag set x type x metadata; every pair of hierarchy paths of up to three entries; every record sequence up to the bound; each file is read by the library's reader and by the real Python reader and all records, globals, paths and attribute properties are compared by typed value",
      assumptions=["text is valid UTF-8", "a record holds an as-value attribute at most once (records are dictionaries)", "metadata attributes of one attribute have distinct names"])
check("Q01", level="exploration", harnesses=[dict(name="q01", src=["q01.cpp"])],
      rule="every ordered combination of up to three clauses from 31 clause forms x letter case, spacing and quoting styles, compared with the query it was generated from; every string up to three special characters, quoted or escaped, at 16 positions; every sequence of up to five tokens of a 24-token alphabet (and every continuation of eleven longer prefixes) against an independent recognizer that gives the meaning or rejects; accepted queries are printed and parsed again",
      assumptions=["empty elements of GROUP BY and argument lists are ignored", "quoting does not turn a keyword into a name", "an unterminated quote ends at the end of the text"])
check("Q02", level="exploration", harnesses=[dict(name="q02", src=["q02.cpp"])],
      rule="every condition (10 attributes x existence, three comparisons and their negations x boundary values) on every record of up to four entries from a 25-entry alphabet of values and hierarchy paths, every pair of conditions on every record of up to three entries; in the filter itself, in complete queries and in the --select filter syntax, against an evaluation on the model record",
      assumptions=["condition values are well-formed for the attribute's type", "a negated order comparison is the opposite comparison on an existing value", "attribute names are unique in the data set", "truth values are not ordered"])
check("Q03", level="exploration", harnesses=[dict(name="q03", src=["q03.cpp"])],
      rule="every derived-attribute definition (six operators x argument tuples over integers, unsigned, floating point, hierarchy and unknown attributes x scale factors x six conditions) on every record of up to four entries of a boundary alphabet, and every chain of two definitions on every record of up to three entries, against an independent evaluation; plus complete queries that filter on and group by the result",
      assumptions=["the arguments of first and sum have one type", "arithmetic on text and on integers beyond 2^53 with fractional factors is unspecified", "result names differ from existing attributes"])
check("Q04", level="exploration", harnesses=[dict(name="q04", src=["q04.cpp"])],
      rule="every sequence of up to three records (thorough: four) of a 17-record alphabet (integer, unsigned and floating-point values, hierarchy paths, references, immediate keys, pre-aggregated counts) under eleven groupings with all operators together, without the inclusive ones, and each alone (two records), evaluated at once and through partial aggregations merged into an empty database, into each other, in a chain and through files, against an independent evaluation; plus thousands of groups",
      assumptions=["each record has at most one value of an aggregated attribute, of one type across the data set", "the average of integers is their truncated quotient", "a ratio with a zero denominator and floating-point sums that round are unspecified", "the aggregated attribute is not itself a group key"])
check("Q05", level="exploration", harnesses=[dict(name="q05", src=["q05.cpp"])],
      rule="every select list, sort order and width option of a set of some hundred table and tree queries on every sequence of up to three records (thorough: four) of a 13-record alphabet (numbers of all types and magnitudes, texts, hierarchies, references, hidden, global and aliased attributes); the output must be exactly the layout computed from the plain records",
      assumptions=["values are single-line text without path separators", "values longer than the configured column width are shortened", "several sort criteria apply in the given order, the last one being the most significant, as in the documented example", "a tree shows records with a path and, for attributes with several values in a record, the innermost; the header of a selected tree column that has no value at all is unspecified"])
check("Q06", level="exploration", harnesses=[dict(name="q06", src=["q06.cpp"])],
      rule="every combination of the JSON options and seven select lists, and json-split, on every sequence of up to two records (thorough: three) of a 13-record alphabet with all value types, special numbers, nesting and globals; and every string of one character and of two characters (one of them special; thorough: all) as value, region, reference, attribute name, alias, metadata and global; the output is decoded with a strict JSON reader and compared with the plain records",
      assumptions=["text is valid UTF-8 without NUL", "output names are unique in a record", "numbers that JSON cannot express (infinities, NaN) and addresses are written as text"])
check("Q07", level="exploration", harnesses=[dict(name="q07", src=["q07.cpp"])],
      rule="every history of up to three (thorough: four) annotation operations, traced and aggregated, and every query of a grid of 588 (LET x WHERE x SELECT/GROUP BY x FORMAT): inside the program (write_report_for_query) and through the reader library on the written file for all queries; the report service, the query tool (query option, query file, standard input, output file) and a chain of two tools (preprocess and filter first) for a rotating subset that covers every query; all outputs must have the same records, columns and metadata",
      assumptions=["records may come in any order", "the channel name in the metadata is not compared", "the query tool of this version reads its files one after another"])
check("M01", level="model_checking", harnesses=[dict(name="m01", src=["m01.cpp", "@REPO@/src/caliper/aggregate_over_mpi.cpp"], flags="-I@ROOT@/harness/mpistub"),
                                                  dict(name="m01p", src=["m01p.cpp", "m01tool.cpp"] + ["@REPO@/src/" + f for f in ("caliper/aggregate_over_mpi.cpp", "caliper/collective_flush.cpp", "caliper/CollectiveOutputChannel.cpp", "caliper/MpiChannelManager.cpp", "caliper/OutputCommMpi.cpp", "services/mpireport/MpiReport.cpp", "tools/cali-query/query_common.cpp", "tools/util/Args.cpp")], flags="-I@ROOT@/harness/mpistub -I@REPO@/src/tools/cali-query -I@REPO@/src/caliper -I@REPO@/src/interface/c_fortran")],
      rule="a simulated MPI with blocked-rank and deadlock detection. Every distribution of every sequence of up to two records (thorough: three) of a 17-record alphabet over 1-5 ranks (thorough: 9) for eleven groupings and all operators; messages of all sizes; ranks as processes of their own; all combinations of eight annotated programs on 1-3 ranks (thorough: 4) through the collective flush, the collective output channel, the mpireport service, the channel manager, the runtime report, the spot profile with time series, and the parallel query tool; results compared with an independent evaluation (query tool: with the serial tool). As all receives name their source and tag (the simulator fails on any other), all schedules under one send mode are equivalent; all sends buffered and all sends synchronous are both run",
      assumptions=["MPI is a simulator that implements the calls used with the standard's semantics; a send may block until received or not", "one value type per attribute; floating-point sums that round are unspecified", "globals are those of rank 0", "all ranks call the collective operations"])
SCHED = "stateless model checking of the real code: exhaustive exploration of thread schedules up to a number of preemptions (dynamic partial-order reduction), with race, deadlock and lifetime checks in every execution"
SCHED_ASSUME = ["sequentially consistent execution at the granularity of synchronization operations (which decides all executions of programs without data races; races are checked for in every run, with happens-before from the memory orders given)",
                "schedules that differ only in the order of independent operations are equivalent", "code inside the C++ library binary is not watched for races; memory is never reused within a run", "at most three threads besides the main thread"]
check("C02", level="model_checking", technique=SCHED, harnesses=[dict(name="c02", src=["c02.cpp"], config="sched", libs="-Wl,--wrap=memset")],
      rule="the real library under a controlled scheduler: all schedules up to equivalence with one preemption (two for a selection; thorough: up to three) of all pairs of 16 operations that create or look up attributes, values and paths by two threads, also at a node block boundary, two operations each, and three threads. Every run checks for data races (vector clocks), use of freed memory, deadlocks and livelocks, that each thread can use what it got at once, and afterwards: one attribute per name, announced once, all identifiers unique and found, all nodes linked, all channels flush",
      assumptions=SCHED_ASSUME)
check("C01", level="model_checking", technique=SCHED, harnesses=[dict(name="c01", src=["c01.cpp"], config="sched", libs="-Wl,--wrap=memset")],
      rule="the real library under a controlled scheduler: all schedules up to equivalence with one preemption (process-scope operations: two; thorough: up to three) of all pairs of 17 annotation operations (regions, values, snapshots, metrics, process and channel scope, globals, tracked memory, new attributes, context queries) by two threads, two operations each, and three threads, with event, trace, aggregate, timer, alloc, validator and statistics services in three channels. Every run checks for data races, use of freed memory, deadlocks and livelocks; that each thread's trace is what the real library records when the thread runs alone; that aggregated data is the sum over the threads; that everything seen of process-scope values is explained by some order of the operations; and that tracked memory is accounted for",
      assumptions=SCHED_ASSUME + ["flushing while other threads record is out of scope (documented as best effort)"])
check("C03", level="model_checking", technique=SCHED, harnesses=[
          dict(name="c03", src=["c03.cpp"], config="plain", libs="-Wl,--wrap=memset"),
          dict(name="c03s", src=["c03s.cpp"], config="sched", libs="-Wl,--wrap=memset")],
      rule="(1) all scripts of lifecycle steps (main and two threads start, annotate and end, release by any thread, open regions) up to a length, ended by return from main or exit() on any thread, in five configurations and real processes: the library initializes and finalizes exactly once, everything recorded before is written, and every API function called afterwards (from a static destructor that runs last) returns without effect; (2) under a controlled scheduler all schedules up to equivalence with bounded preemptions of two or three threads whose first calls initialize the library and that end at once: no race, deadlock or crash, one initialization, one default channel, and each thread's records are kept",
      assumptions=SCHED_ASSUME + ["other threads are joined or idle while the program finalizes", "ConfigManager is not used in static destructors"])
check("C04", level="model_checking", technique=SCHED, harnesses=[dict(name="c04", src=["c04.cpp"], config="sched", libs="-Wl,--wrap=memset")],
      rule="a signal handler that queries the context, pulls snapshots and records in four channels runs at every memory access of each of 33 operations (and at every pair of accesses), on warm and on fresh threads, on a thread that existed before the channels, and with full buffers. Where the handler is locked out and writes nothing the program continues unchanged, so those points share one execution; each other point (or pair) is an execution of its own. The handler must not allocate or wait, sees the context before or after the interrupted step or nothing, records at most once per channel, and everything else comes out as without it",
      assumptions=SCHED_ASSUME + ["the handler runs on the thread under test; other threads are idle", "no interruption during finalization"])
check("G02", level="exploration", harnesses=[dict(name="g02", src=["g02.cpp"], libs="-Wl,--wrap=memset")],
      rule="(1) every combination of seven sources that define settings (explicit, environment, two user profiles, presets, files, defaults), 13 profile selections, environment allowed or not, and three ways to name the files; (2) all configuration files of up to four lines (thorough: five) of an 18-line alphabet, in one or two files, with three selections; (3) all lists of up to three words in all quoting styles and separators, nested lists and dictionaries; numbers around all limits, all truth-value words of up to five letters, any text of up to five characters (thorough: seven); (4) the default channel and user channels from all combinations of sources, and all service lists of up to three entries: what is enabled is exactly what the highest-precedence definition says",
      assumptions=["settings are made before the library initializes", "numbers are well-formed; how malformed numbers are read is unspecified apart from being reported and not failing"])
check("G03", level="exploration", harnesses=[dict(name="g03", src=["g03.cpp"], libs="-Wl,--wrap=memset")],
      rule="against a model of the file system and the standard streams: (1) all file name patterns of up to three tokens (thorough: four) of a 24-token alphabet with three sets of values, and any pattern text of up to six characters (thorough: eight); (2) all sequences of up to five operations (thorough: six) on output streams (files, new directories, unopenable files, patterns, standard and user streams, modes, writing); (3) all pairs of eleven destinations of recorder and report services with up to four steps (thorough: five) that record, flush, and change the values used in file names, also with the same destination: every file and stream has exactly the right channel's records, nothing else is written",
      assumptions=["two channels do not write to the same file"])
