#!/usr/bin/env python3
# Source of properties.jsonl (one property per entry). Regenerate with: python3 tools/mkprops.py
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if hook: d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

# ---------------------------------------------------------------- annotations
prop("A01", "Begin/end/set annotations keep exact nested context stacks",
 "For every sequence of correctly matched begin, set and end operations on any mix of nested, value-only, non-merged, hidden, thread-scope and process-scope attributes, querying an attribute returns the value of its innermost open entry and nothing once all its entries are closed. The current region path lists exactly the open nested regions in opening order. Closing a region restores precisely the value that was visible before its matching begin.",
 ["histories"], "all operation sequences up to a depth over an alphabet of attributes covering every storage/scope combination, via the C and C++ entry points",
 "The unit tests run a handful of fixed begin/end scripts; interactions between attributes that share a storage slot depend on the operation order and are not sampled.",
 ["src/caliper/Caliper.cpp", "src/caliper/cali.cpp", "src/caliper/Blackboard.cpp", "src/caliper/MetadataTree.cpp"],
 [("blackboard slot per attribute or per stack", "src/caliper/Caliper.cpp begin/end/set"), ("value tree path add/remove/replace", "src/caliper/MetadataTree.cpp")],
 ["Caliper::get", "Caliper::pull_snapshot", "cali_get_current_region_or"])
prop("A02", "Snapshots contain exactly the visible current context",
 "A snapshot contains, for every attribute visible in snapshots, exactly the currently open values of the calling thread and of the process, plus exactly the trigger data given to it, and nothing of attributes that are hidden, closed, or belong to another thread. This holds for any set, delete and re-set order and regardless of how attributes are distributed in the context store.",
 ["histories"], "all set/exchange/delete/begin/end sequences up to a depth over attributes chosen to collide in the context store, on thread and process scope",
 "Tests never make attribute ids collide in the context store and take snapshots at a few fixed points only.",
 ["src/caliper/Blackboard.cpp", "src/caliper/Caliper.cpp", "include/caliper/SnapshotRecord.h"],
 [("open-addressing table with visibility bitmap", "src/caliper/Blackboard.cpp"), ("pull_snapshot", "src/caliper/Caliper.cpp")],
 ["Caliper::pull_snapshot", "Caliper::get_path_node"])
prop("A03", "Misnested or unmatched end calls are contained",
 "An end call that does not match the innermost open region of its nesting stack, or that has no open region at all, never crashes, never corrupts data recorded before it, and only stops further region tracking of its own thread and scope; data recorded from other threads, in other scopes or on other channels is unaffected by it. The annotation validator reports an error for a run if and only if some region was begun but never validly ended: still open at the end of the run, or open when a mismatched end occurred.",
 ["histories"], "all begin/end sequences (matched or not) up to a depth, over several nested and value-only attributes, on the default and on a second channel, from one and from two threads",
 "Tests check one or two hand-written misnestings; which earlier data survives depends on the history before the error.",
 ["src/caliper/Caliper.cpp", "src/services/validator/AnnotationValidator.cpp"],
 [("stack error flag", "src/caliper/Caliper.cpp"), ("annotation validator service", "src/services/validator")],
 ["flushed records", "validator log line"])
prop("A04", "All annotation interfaces record the same context",
 "The C functions, the by-name functions, the convenience macros, and the C++ annotation, function, loop and region guard objects are interchangeable: any mixed, well-nested program written with them produces the same sequence of recorded contexts as the corresponding plain begin/end calls. Guard objects close exactly what they opened on every exit path, and loop markers record every iteration number and nothing after the loop.",
 ["programs", "histories"], "all well-nested annotation programs up to a size built from every public marking construct, with normal and early (return/exception) exits",
 "Tests exercise each construct on its own in one fixed nesting.",
 ["src/caliper/Annotation.cpp", "src/caliper/cali.cpp", "include/caliper/cali_macros.h", "include/caliper/Annotation.h"],
 [("RAII guards", "src/caliper/Annotation.cpp"), ("macros", "include/caliper/cali_macros.h")],
 ["trace service output"])
prop("A05", "Attribute keys and value-tree nodes have a stable unique identity",
 "Creating an attribute with a name that exists returns the existing attribute with its original type and properties, different names give different ids, and lookup by name or id always finds exactly the created attribute with its metadata. A path of values requested twice yields the same node, different paths yield different nodes, and following parents of a node gives back exactly the requested path, for any path length and value.",
 ["histories"], "all creation/lookup sequences up to a depth over colliding names, types, properties and metadata; all value paths up to a length over a value alphabet, including paths that cross internal block boundaries",
 "Tests create a few attributes with distinct names and short paths.",
 ["src/caliper/Caliper.cpp", "src/caliper/MetadataTree.cpp", "src/caliper/MemoryPool.cpp", "src/common/Attribute.cpp"],
 [("attribute map", "src/caliper/Caliper.cpp create_attribute"), ("metadata tree", "src/caliper/MetadataTree.cpp")],
 ["Caliper::create_attribute", "Caliper::get_attribute", "Caliper::make_tree_entry", "cali_find_attribute"])

# ---------------------------------------------------------------- values and encodings
prop("B01", "Values compare, convert and print consistently",
 "Ordering of values (not-a-number excluded) is a strict weak order, and equality implies equal order. Integer values convert to another numeric type if and only if the target can represent them (nearest value for doubles), doubles convert to integers by truncation if the result is in range, and everything else is reported as not convertible. Printing a value and parsing it back as the same type returns an equal value (doubles to their six displayed decimals), and sum, minimum and maximum of same-typed values match exact arithmetic where it is representable. No operation accesses memory outside the given values and buffers.",
 ["inputs"], "all pairs and triples over a boundary-value alphabet of every value type (integer limits, large unsigned, signed zero, empty and prefix strings, embedded special characters)",
 "Unit tests check a few ordinary values per type; order and conversion laws quantify over pairs and triples including limits.",
 ["src/common/cali_variant.c", "src/common/Variant.cpp", "include/caliper/common/Variant.h", "src/common/cali_types.c"],
 [("cali_variant_compare/eq/to_*", "src/common/cali_variant.c"), ("Variant::to_string/operator+=", "src/common/Variant.cpp")])
prop("B02", "Binary encodings decode to exactly what was encoded",
 "Packed values, integers, nodes and snapshot records decode to exactly the encoded content and consume exactly the bytes that were produced, for every content and for any concatenation of records. Buffers assembled by appending or merging parts contain exactly the union of their parts' records in order, and encoding never writes beyond the declared maximum size. Memory addresses (pointer-typed values) are meaningful in one process only and are excluded.",
 ["inputs", "histories"], "all records and node lists up to a size over a boundary-value alphabet of ids and values; all append/merge sequences up to a depth",
 "Tests encode one or two ordinary records; multi-byte boundaries, capacity limits and merge orders are not sampled.",
 ["src/common/CompressedSnapshotRecord.cpp", "src/common/NodeBuffer.cpp", "src/common/SnapshotBuffer.cpp", "src/common/cali_variant.c", "src/common/util/vlenc.h"],
 [("vlenc/vldec", "src/common/util/vlenc.h"), ("NodeBuffer/SnapshotBuffer", "src/common")])

# ---------------------------------------------------------------- concurrency
prop("C01", "Concurrent annotation never loses, mixes or corrupts thread data",
 "When several threads annotate at the same time, under every thread schedule no operation races, crashes, deadlocks or blocks forever, each thread's recorded contexts are exactly those it would record alone, and process-scope values are always one of the values actually written. Per-thread counts and values in the aggregated or traced result equal the sum over the threads' own histories.",
 ["schedules"], "all interleavings of two to three annotating threads with bounded preemptions over begin/end/set/snapshot workloads with the trace, aggregation and timer services active",
 "Tests run threads freely and see one or two schedules; data races and lost updates need particular interleavings.",
 ["src/caliper/Caliper.cpp", "src/caliper/Blackboard.h", "src/services/aggregate", "src/services/trace", "src/services/event"],
 [("thread-local data + spin locks", "src/caliper/Caliper.cpp"), ("per-thread aggregation/trace buffers", "src/services/aggregate, src/services/trace")])
prop("C02", "Concurrent attribute and value-node creation is atomic",
 "When several threads create attributes or values at the same time, under every schedule all callers asking for the same attribute name get the same attribute, its creation is announced exactly once, every attribute and node is immediately usable and visible to all threads, and no identifier is used twice.",
 ["schedules"], "all interleavings, with bounded preemptions, of two to three threads creating attributes and value paths with equal and different names",
 "A race in creation needs two threads inside a window of a few instructions; the tests' free-running threads do not hit it reliably.",
 ["src/caliper/Caliper.cpp", "src/caliper/MetadataTree.cpp", "src/caliper/MemoryPool.cpp"],
 [("attribute lock and lookup", "src/caliper/Caliper.cpp create_attribute"), ("compare-and-swap node insertion", "src/caliper/MetadataTree.cpp")])
prop("C03", "Initialization, thread exit and finalization are safe in any order",
 "Caliper is initialized exactly once no matter which threads make the first calls at the same time, threads may start and exit at any time without losing or corrupting what they recorded, and the library is finalized once, at program exit, whichever thread ends the program, with everything recorded until then written. Annotation and query calls made after finalization are ignored safely. (Other threads are joined or idle during finalization.) No schedule crashes, deadlocks or initializes twice.",
 ["schedules"], "all interleavings, with bounded preemptions, of two to three threads whose first calls initialize the library, and all sequences up to a length of lifecycle steps (first use, thread start and end, release, exit on any thread, calls in static destructors)",
 "Tests always initialize from the main thread before starting others.",
 ["src/caliper/Caliper.cpp"],
 [("instance() double-checked init, thread-local release", "src/caliper/Caliper.cpp")])
prop("C04", "Sampling inside a signal handler is safe at every interruption point",
 "If a signal handler takes a snapshot or queries the context at any instant during any annotation operation of the interrupted thread, the operation and the handler both complete without deadlock, crash or corruption, the handler records either nothing or a context that was current immediately before or after the interrupted operation, and the final data is the same as without the interruption plus the handler's own records.",
 ["schedules"], "every memory access of every annotation operation of a set of workloads as interruption point, with trace and aggregation active",
 "A real sampling timer hits random points; tests cannot choose the instant.",
 ["src/caliper/Caliper.cpp", "include/caliper/common/util/lockfree-tree.hpp", "src/services/trace", "src/services/aggregate"],
 [("siglock / signal-safe instance", "src/caliper/Caliper.cpp")])

# ---------------------------------------------------------------- channels
prop("D01", "Channels are independent measurement configurations",
 "Creating, activating, deactivating, flushing, clearing or deleting a channel never changes what other channels record: each active channel records exactly the events that occur between its activation and deactivation according to its own configuration. Deactivated channels record nothing, deleted channels flush at most once, and annotations opened while a channel is inactive are still visible in its later snapshots.",
 ["histories"], "all sequences up to a depth of create/activate/deactivate/flush/clear/delete and annotation operations over two or three differently configured channels",
 "Tests use at most two channels in one fixed order of operations.",
 ["src/caliper/Caliper.cpp", "src/caliper/ChannelController.cpp", "src/caliper/cali.cpp"],
 [("channel list and event callbacks", "src/caliper/Caliper.cpp")])
prop("D02", "Flush reports exactly the data since the last clear",
 "A flush emits every record collected since the last clear exactly once and changes nothing, so that an immediately repeated flush emits the same data; after a clear nothing collected earlier is ever emitted again while later data and open regions are fully kept. This holds for every combination of data-collecting services and any number of flush and clear operations.",
 ["histories"], "all sequences up to a depth of annotation, flush, clear and flush-and-clear operations with trace, aggregation, timing, statistics and allocation services",
 "Tests flush once at the end.",
 ["src/caliper/Caliper.cpp", "src/services/trace", "src/services/aggregate", "src/services/LoopStatistics.cpp"],
 [("flush/clear events", "src/caliper/Caliper.cpp flush, clear, flush_and_write")])

# ---------------------------------------------------------------- services
prop("E01", "On-line aggregation equals aggregating the full trace",
 "For every annotation history and every choice of aggregation key, the profile produced on-line contains, for every distinct key, exactly the number of snapshots and the sum, minimum, maximum and scaled values obtained by recording the full trace of the same history and aggregating it afterwards. No entry is missing, duplicated or attributed to another key.",
 ["histories", "configurations"], "all annotation histories up to a depth, with value-only and nested attributes and aggregatable values, for all aggregation keys from a list",
 "Tests compare a few fixed programs against hard-coded profiles.",
 ["src/services/aggregate/Aggregate.cpp", "src/services/aggregate/AggregationDB.cpp"],
 [("AggregationDB", "src/services/aggregate")])
prop("E02", "Traces are complete and in order within the configured buffer policy",
 "The trace contains every snapshot of a thread exactly once and in the order it was taken, with any buffer size: with a growing buffer nothing is lost, with the stop policy exactly a prefix is kept and the number of dropped snapshots is reported, and with the flush policy the written output across all flushes contains every snapshot exactly once. No policy writes outside its buffer.",
 ["histories", "configurations"], "all snapshot sequences up to a depth with record sizes around the chunk limits, for every policy and a range of buffer sizes",
 "Tests fill one buffer with one record size; the boundary arithmetic depends on the exact sizes of all previous records.",
 ["src/services/trace/Trace.cpp", "src/services/trace/TraceBufferChunk.cpp"],
 [("chunk buffer and overflow policy", "src/services/trace")])
prop("E03", "Snapshots are triggered exactly by the configured events and regions",
 "With event-triggered snapshots every begin, set and end of a configured trigger attribute takes exactly one snapshot carrying the right trigger data, and nothing else does. Include, exclude, branch and nesting-level region filters select exactly the regions their patterns describe, for every nesting and every pattern form.",
 ["histories", "configurations"], "all annotation sequences up to a depth for every trigger list and filter configuration from a list covering exact, prefix and regular-expression forms",
 "Tests use single filters on one fixed region sequence.",
 ["src/services/event/EventTrigger.cpp", "src/caliper/RegionFilter.cpp"],
 [("event trigger", "src/services/event"), ("region filter", "src/caliper/RegionFilter.cpp")])
prop("E04", "Time is attributed exactly once and exactly to the right region",
 "For every annotation history and every advance of the clock, the exclusive time attributed to a region path equals the time during which exactly that path was current, the inclusive time of a region instance equals its duration, and the exclusive times of everything sum to the total elapsed time. In-process region profiles report the same exclusive, inclusive, flat and nested times.",
 ["histories"], "all annotation histories with clock advances up to a depth under a controlled clock",
 "Real clocks make exact assertions impossible; tests only check that a time value exists.",
 ["src/services/timer/Timer.cpp", "src/caliper/RegionProfile.cpp", "src/reader/Preprocessor.cpp"],
 [("timer service", "src/services/timer"), ("region profiles", "src/reader/*RegionProfile.cpp")])
prop("E05", "Loop and region monitors count iterations and regions exactly",
 "For every loop program and clock behaviour, loop statistics report the exact number of iterations and the exact minimum, maximum and total iteration time; the loop monitor snapshots after exactly the configured number of iterations or time and accounts for every iteration exactly once; the region monitor snapshots exactly the regions that exceed its minimum duration and are not skipped.",
 ["histories", "configurations"], "all loop/region programs with clock advances up to a depth, for all configured intervals and target lists",
 "Tests run one loop with one interval under the real clock.",
 ["src/services/LoopStatistics.cpp", "src/services/monitor/LoopMonitor.cpp", "src/services/monitor/RegionMonitor.cpp"],
 [("loop statistics / monitors", "src/services")])
prop("E06", "Tracked memory regions resolve every address and every byte exactly",
 "For every sequence of track and untrack operations, the reported active memory equals the total size of the live tracked regions at that instant, high-water marks equal the running maximum, and an address is attributed to a tracked region if and only if it lies inside that live region. Sizes of any magnitude, and arrays of any dimension, are accounted exactly.",
 ["histories"], "all track/untrack/lookup sequences up to a depth over overlapping, adjacent, repeated, zero-sized and very large regions",
 "Tests track a few small, disjoint buffers.",
 ["src/services/alloc/AllocService.cpp", "src/caliper/cali_datatracker.cpp", "src/services/allocstats"],
 [("splay tree of tracked regions", "src/services/alloc")])

# ---------------------------------------------------------------- files
prop("F01", "Writing and reading a data file preserves all data",
 "Reading back a written data file yields the same attributes with the same types, properties and metadata, the same value hierarchy and the same records with equal values in the same order, and the same global values. This holds for every storable value type (blobs, pointers and hidden values are not stored) and for any string of printable, blank, newline, separator, quote and non-ASCII characters, including empty strings (other control characters are dropped by the format).",
 ["inputs"], "all records up to a size over an alphabet of attribute types/properties and boundary values, and all strings up to a length over the format's special characters",
 "Tests read a few committed files; escaping and references depend on content combinations never sampled.",
 ["src/reader/CaliWriter.cpp", "src/reader/CaliReader.cpp", "src/common/util/format_util.h"],
 [("cali format writer/reader", "src/reader")])
prop("F02", "Merging data files gives the union of their records",
 "Reading several data files, in any order, into one database gives exactly the union of the records each file gives on its own, with the same attribute names, types, values and hierarchy, even where the files use the same ids for different things, different ids for the same thing, or attributes that agree in name only. No record's values depend on which other files were read.",
 ["inputs", "histories"], "all sets and orders of two or three small files from a family with overlapping and conflicting ids, attributes and hierarchies",
 "Tests merge one or two compatible files.",
 ["src/reader/CaliperMetadataDB.cpp", "src/reader/CaliReader.cpp", "src/tools/cali-query/cali-query.cpp"],
 [("id map and node merge", "src/reader/CaliperMetadataDB.cpp")])
prop("F03", "Damaged data files are handled without crashing or inventing data",
 "For every data file that is cut at any byte or has any byte or record damaged, reading terminates without crashing or accessing invalid memory, all records that precede the damage are delivered unchanged, records of a damaged file never refer to the data of other files, and downstream queries on what was read do not crash either.",
 ["fault_sequences", "inputs"], "every truncation point and every single-byte substitution/deletion/duplication of representative files, every record deletion, swap and duplication",
 "Tests read only intact files.",
 ["src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp"],
 [("record parser", "src/reader/CaliReader.cpp")])
prop("F04", "The Python reader reads the same data as the C++ reader",
 "For every data file the library can write, the pure-Python reader returns the same records, attribute metadata, globals and hierarchical paths as the library's own reader.",
 ["inputs"], "all files from a family of records over every attribute type and special characters, including nested references and empty values",
 "Python tests read two or three committed files.",
 ["python/caliper-reader/caliperreader/caliperreader.py", "src/reader/CaliWriter.cpp"],
 [("Python cali parser", "python/caliper-reader")])

# ---------------------------------------------------------------- queries
prop("Q01", "Query text is parsed exactly or rejected",
 "Every well-formed query text, with any clause order, letter case, spacing and quoting the language documents, produces exactly the described query, and printing a query gives text with the same meaning; every text outside the language is rejected with an error and never crashes or is silently misread.",
 ["inputs"], "all clause combinations and orders, and all token sequences up to a length over the language's tokens and special characters",
 "Tests parse a few dozen fixed strings.",
 ["src/reader/CalQLParser.cpp", "src/reader/QuerySpec.cpp"],
 [("recursive descent parser", "src/reader/CalQLParser.cpp")])
prop("Q02", "Query filters select exactly the matching records",
 "A query's filter keeps a record if and only if the record satisfies every condition: existence of the attribute, equality, ordering and their negations, on every value of the attribute in the record, for values of every type and for hierarchical attributes at any depth.",
 ["inputs"], "all combinations of up to two conditions over all operators and a boundary-value alphabet, on all records up to a size",
 "Tests use one or two filters on one data set.",
 ["src/reader/RecordSelector.cpp"],
 [("record selector", "src/reader/RecordSelector.cpp")])
prop("Q03", "Derived query attributes compute exactly their definition",
 "Attributes defined in a query by ratio, scale, truncate, first, sum or string-free conditions are added to exactly those records whose inputs allow it, with exactly the defined value, and can be used by the other clauses; the original attributes are unchanged.",
 ["inputs"], "all derived-attribute definitions (with and without conditions) over boundary values, on all records up to a size",
 "Tests check one ordinary value per operator.",
 ["src/reader/Preprocessor.cpp"],
 [("preprocessor kernels", "src/reader/Preprocessor.cpp")])
prop("Q04", "Aggregation queries compute the exact result per group",
 "For every set of input records, every aggregation operator and every grouping, the result has exactly one record per distinct group key with exactly the defined statistic over the group's input values; inclusive operators add each record to every enclosing path exactly once. Splitting the input in any way and merging partial results, in any order, gives the same result.",
 ["inputs", "schedules"], "all multisets of up to a few records over a small value/path alphabet, for every operator and grouping, and every split into partial aggregations",
 "Tests use one data set per operator and never merge partial results in different orders.",
 ["src/reader/Aggregator.cpp"],
 [("aggregation kernels and aggregation tree", "src/reader/Aggregator.cpp")])
prop("Q05", "Table and tree output shows every result exactly once, in order",
 "Table output has one row per result record with each selected value under its own column, sorted as requested, and tree output places each record exactly once under its parent path with its values in the right columns. Nothing selected is missing, duplicated, cut or shown in another row or column.",
 ["inputs", "configurations"], "all small record sets over a path/value alphabet, with all select, sort, alias and width options",
 "Tests compare output for a few fixed inputs.",
 ["src/reader/TableFormatter.cpp", "src/reader/TreeFormatter.cpp", "src/reader/SnapshotTree.cpp"],
 [("formatters", "src/reader")])
prop("Q06", "JSON output is valid and faithful",
 "Every JSON format variant produces syntactically valid JSON for every data content, and the decoded content has exactly the selected records, attribute names, values and hierarchy.",
 ["inputs", "configurations"], "all small record sets over strings with special characters, all value types and nesting, for every JSON variant and option",
 "Tests parse the JSON of one well-behaved data set.",
 ["src/reader/JsonFormatter.cpp", "src/reader/JsonSplitFormatter.cpp"],
 [("JSON formatters", "src/reader")])
prop("Q07", "All ways to run a query give the same answer",
 "Running a query in-process at flush time, through the library's query interface on the written data, through the query tool with any of its input and option forms, or as a chain of two compatible queries (filter first, then aggregate) gives the same records and metadata, and reporting does not change the data unless it is asked to clear it.",
 ["configurations", "histories"], "all combinations of a grid of queries, all histories up to a depth, and all ways to run a query",
 "Tests run each path on a different example.",
 ["src/tools/cali-query/cali-query.cpp", "src/reader/QueryProcessor.cpp", "src/services/report/Report.cpp", "src/caliper/cali.cpp"],
 [("query processor, query tool", "src/reader, src/tools")])

# ---------------------------------------------------------------- configuration
prop("G01", "Configuration strings are checked and applied exactly",
 "A measurement configuration string is accepted if and only if checking it reports no error; accepted strings start exactly the named configurations with exactly the given options and parameters in effect, in any order and spacing, and rejected strings start nothing and give an error message. Every option of every built-in configuration expands to a valid, working measurement setup.",
 ["inputs", "configurations"], "all strings up to a length over the grammar's tokens, and all built-in configurations with all single options and pairs of options",
 "Tests check a few dozen fixed strings and few option pairs.",
 ["src/caliper/ConfigManager.cpp", "src/caliper/builtin_configmanager.cpp", "src/caliper/controllers"],
 [("option parser and spec", "src/caliper/ConfigManager.cpp")])
prop("G02", "Runtime settings follow the documented precedence",
 "Each runtime setting has the value given by the highest-precedence source that defines it (explicit setting, environment, configuration file profile, preset, built-in default), for every combination of sources, and settings given as text are interpreted with their documented type, list and quoting rules.",
 ["configurations", "inputs"], "all combinations of sources for several settings, all small configuration files over the file grammar, all list strings up to a length over separator and quote characters",
 "Tests check one or two sources at a time.",
 ["src/common/RuntimeConfig.cpp", "src/common/StringConverter.cpp"],
 [("config lookup", "src/common/RuntimeConfig.cpp")])
prop("G03", "Output goes exactly to the configured destination",
 "Output is written completely and only to the configured stream or file: file name patterns are expanded field by field with the current global values, missing fields keep or drop exactly as documented, existing directories are used or created as configured, and different channels writing to different files never mix.",
 ["inputs", "configurations"], "all patterns up to a length over pattern tokens and attribute values; all combinations of stream kinds, modes and repeated writes",
 "Tests check one pattern.",
 ["src/common/OutputStream.cpp", "src/common/SnapshotTextFormatter.cpp", "src/services/recorder/Recorder.cpp"],
 [("output stream", "src/common/OutputStream.cpp"), ("text formatter", "src/common/SnapshotTextFormatter.cpp")])

# ---------------------------------------------------------------- distributed
prop("M01", "Cross-process aggregation equals serial aggregation of all data",
 "For every number of processes and every distribution of records over them, the result of cross-process aggregation on the root (by the aggregation itself, the collective flush, collective output channels, the mpireport service, the built-in parallel reports and the parallel query tool) equals the serial aggregation of all records together, and the exchange completes on every process without deadlock whether or not messages are buffered, including processes with no data at all; only the root writes output.",
 ["schedules", "inputs"], "all process counts up to a bound, all distributions of a small record set, all combinations of small programs over the ranks, for buffered and synchronous message semantics",
 "Tests run one program with a few ranks where MPI is available.",
 ["src/caliper/aggregate_over_mpi.cpp", "src/caliper/collective_flush.cpp", "src/caliper/CollectiveOutputChannel.cpp", "src/caliper/MpiChannelManager.cpp", "src/services/mpireport/MpiReport.cpp", "src/caliper/controllers/SpotController.cpp", "src/tools/mpi-caliquery/mpi-caliquery.cpp", "src/common/NodeBuffer.cpp", "src/common/SnapshotBuffer.cpp"],
 [("binary-tree reduction", "src/caliper/aggregate_over_mpi.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in sorted(P, key=lambda p: p["id"]): f.write(json.dumps(p) + "\n")
print(len(P))
