"""Which harness components decide which property."""
NOT_APPLICABLE = {}
LN = "Search over generated cases against an explicit oracle: a pass means no counterexample among the cases counted in the evidence file, not a proof."


def H(name, variant="asan", src=None, quick=(20000, 40), thorough=(3000000, 600), **kw):
    return dict(name=name, variant=variant, src=src or [name + ".cpp"], quick=quick, thorough=thorough, **kw)


PROPS = {
    "C01": dict(
        components=[H("timeline", quick=(24000, 40))],
        technique="stateful property-based testing: generated operation histories on several timelines against a reference model of delivery (per listener and timeline: contiguous, exactly-once, byte-identical), shrunk tape as replay; built with AddressSanitizer",
        level_note=LN,
        rule="a case is a history of create / push / flush / register / unregister-all / destroy operations on 1..n timelines; non-trivial when it pushes at least 3 events, flushes at least once and at least one listener received data"),
    "C03": dict(
        components=[H("roundtrip", client=True, quick=(12000, 40))],
        technique="property-based round-trip testing: generated event sequences over 17 real event classes are pushed through timelines and a file dump listener of generated buffer sizes and modes, the file is read by the parser library in both views and compared with the pushed values",
        level_note=LN,
        rule="a case is 1-3 timelines, a listener configuration and a generated push/flush sequence; non-trivial with at least 3 events and more bytes than the listener buffer holds"),
    "C05": dict(
        components=[H("parser_robust", src=["parser.cpp"], flags="-DROBUST", client=True, quick=(24000, 45)), H("parser_threads", variant="tsan", client=True, quick=(3000, 20), thorough=(200000, 300), nondet=True, case_timeout=60),
            H("parser_threads_asan", src=["parser_threads.cpp"], client=True, quick=(3000, 12), thorough=(200000, 150), nondet=True, case_timeout=60)],
        technique="structure-aware fuzzing: generated valid streams damaged by truncation, byte changes, splices, dropped descriptions and ill-formed metadata; oracle: exact prefix of events, termination, memory safety (ASan) and no growth of live memory across repeated reads; plus readers used by several threads (class queries, waiting, stops by threads and callbacks, kept copies of events) under ThreadSanitizer and ASan against the same oracle",
        level_note=LN,
        rule="a case is a generated stream plus one kind of damage; non-trivial when at least two items are complete before the damage and the damage lies inside the stream"),
    "C06": dict(
        components=[H("parser_view", src=["parser.cpp"], client=True, quick=(12000, 40))],
        technique="differential / metamorphic property-based testing: each generated stream is encoded in both byte orders by an independent encoder and parsed in both views, all four results compared with the model",
        level_note=LN,
        rule="a case is a generated set of classes and a stream of instances; non-trivial with at least two class instances"),
    "C15": dict(
        components=[H("streams", client=True, quick=(8000, 40), nondet=True, case_timeout=20), H("streams_races", variant="tsan", src=["streams.cpp"], client=True, quick=(2000, 12), thorough=(200000, 200), nondet=True, case_timeout=40)],
        technique="property-based testing of both stream kinds against generated sources: byte strings, sender chunkings, read sequences, signals, restarts and stop points over real files, named pipes and loopback TCP; oracle: byte-exact prefix, exact end, bounded stop, no descriptor left, no data race (ThreadSanitizer)",
        level_note=LN,
        rule="a case is a source of generated bytes with a generated chunking and mix of reads; non-trivial with at least two bytes in the source"),
    "C10": dict(
        components=[H("conc_timeline", variant="sched", quick=(16000, 30)), H("realthreads", variant="tsan", quick=(3000, 12), nondet=True, case_timeout=60)],
        technique="schedule fuzzing: generated concurrent programs (2-3 threads pushing, flushing, registering) run under a cooperative scheduler that can preempt at every memory access of the library, with generated preemption points; oracle: per-listener history check (exactly once, whole, per-thread order, delivered after flush), no deadlock, ASan; plus generated programs of 2-6 real threads under ThreadSanitizer against the same oracle",
        level_note=LN,
        rule="a case is a concurrent program plus a schedule (non-trivial: at least 2 pushes and more context switches than threads) or a program run by real threads (non-trivial: at least 20 operations)"),
    "C11": dict(
        components=[H("conc_global", variant="sched", quick=(14000, 35)), H("exittrace", quick=(6000, 15), nondet=True)],
        technique="schedule fuzzing: generated programs of 2-3 threads that first use, push through, register listeners on and exit with their global timelines (and same-named timelines they create), under generated preemption points; oracle: each listener's per-thread stream is the suffix of the thread's expected stream that starts no later than its registration; and generated programs that trace from the destructors of thread-local objects, thread keys and exit handlers of exiting threads and processes (AddressSanitizer, exact stream per thread)",
        level_note=LN,
        rule="a case is a concurrent program plus a schedule (non-trivial: a listener, at least 4 operations and more context switches than threads) or a set of exiting threads, or a process (non-trivial: traces before and during the exit)"),
    "C12": dict(
        components=[H("conc_ids", variant="sched", quick=(10000, 25)), H("clock", quick=(4000, 10))],
        technique="schedule fuzzing of id and thread-id requests by several generations of threads under generated preemption points (uniqueness / monotonicity oracle), and property-based testing of the clock against generated system clocks whose wall time jumps",
        level_note=LN,
        rule="a case is a concurrent program of id requests plus a schedule (non-trivial: at least 6 requests and 2 threads with ids), or a sequence of clock readings (non-trivial: at least 3)"),
    "C08": dict(
        components=[H("labels", quick=(10000, 25)), H("labels_bulk", variant="plain", src=["labels.cpp"], flags="-DBULK", quick=(8, 40), thorough=(200, 300), case_timeout=120),
                    H("conc_labels", variant="sched", src=["labels.cpp"], flags="-DCONC", quick=(6000, 20))],
        technique="stateful property-based testing of label histories on several timelines against a model map (families of similar labels, up to 230000 labels per timeline), plus schedule fuzzing of concurrent use of one thread-safe map",
        level_note=LN,
        rule="a case is a history of adding labels and pushing the map (non-trivial: at least 3 new labels and a repeat or map push), a set of 230000 labels, or a concurrent program plus schedule (non-trivial: at least 3 uses and more switches than threads)"),
    "C09": dict(
        components=[H("tasks", variant="asanclk", quick=(24000, 35))],
        technique="stateful property-based testing with a virtual clock: histories of schedule / remove / tick / clock advance with scripted callbacks (that take time, stop, remove and schedule tasks) against a model of due times",
        level_note=LN,
        rule="a case is a history over generated tasks; non-trivial with at least 2 tasks, 2 ticks and one execution"),
    "C07": dict(
        components=[H("spans", variant="asanclk", src=["spans.cpp", "spans_c.c"], quick=(10000, 35))],
        technique="stateful property-based testing with a virtual clock: generated trees of spans (explicit API, C and C++ scoped tracepoints, 9 event classes of 40 to 1400 bytes) executed with generated exits (fall-through, return, break, continue, goto, exception) on several timelines, against a model of stop order, durations, labels and ids",
        level_note=LN,
        rule="a case is a set of generated span trees on 1-4 timelines; non-trivial with at least 4 spans and nesting"),
    "C13": dict(
        components=[H("filedump", variant="asan", quick=(12000, 25)), H("conc_filedump", variant="sched", src=["filedump.cpp"], flags="-DCONC", quick=(8000, 20))],
        technique="stateful property-based testing with fault injection: histories of serialized and raw chunks, flushes and stops on real files (older content, unwritable paths, full device, file size limit) against a model of the file content, with snapshots checked to be prefixes; plus schedule fuzzing of concurrent delivery, flush and stop",
        level_note=LN,
        rule="a case is a history on one listener with generated buffer size and fault (non-trivial: at least 2 chunks, more bytes than the buffer and a flush or stop), or a concurrent program plus schedule (non-trivial: 2 chunks and more switches than threads)"),
    "C04": dict(
        components=[H("metadata", variant="asan", quick=(12000, 25)), H("conc_registry", variant="sched", src=["metadata.cpp"], flags="-DCONC", quick=(8000, 20))],
        technique="stateful property-based testing: histories of init / deinit / register / push-metadata over real classes and generated run-time classes (0-200 fields, names up to 9000 bytes), metadata decoded by an independent reader and compared with the model; plus schedule fuzzing of concurrent registration and metadata requests",
        level_note=LN,
        rule="a case is a history (non-trivial: at least 2 registrations and one metadata request) or a concurrent program plus schedule (non-trivial: 2 registrations and more switches than threads)"),
    "C02": dict(
        components=[H("encode", quick=(10000, 15)), dict(kind="py", module="klassgen", name="klassgen", quick=(400, 35), thorough=(20000, 600))],
        technique="property-based testing of generated programs: random class declarations (kinds, C types, up to 24 own fields, inheritance) compiled as C and C++ with two compilers, instances with random values; reflection data against offsetof/sizeof, size and bytes against a model in Python; plus random instances of 18 fixed classes against an independent encoder under AddressSanitizer",
        level_note=LN,
        rule="a case is one instance of a generated class in a generated program (non-trivial: the program has at least 4 fields and 2 instances) or a batch of instances of fixed classes (non-trivial: at least 3 instances and a string)"),
    "C14": dict(
        components=[H("tcp", quick=(6000, 40), nondet=True, case_timeout=30), H("tcp_races", variant="tsan", src=["tcp.cpp"], quick=(1000, 15), thorough=(100000, 200), nondet=True, case_timeout=60)],
        technique="stateful property-based testing with real loopback sockets: generated histories of clients connecting, reading at different speeds, closing, resetting, half-closing, of chunks delivered by two threads, a timeline and the connection callback, and of stops; oracle: metadata first, then whole unmodified events, contiguous per source to the last one, the same order at every client, connections closed, port and descriptors released",
        level_note=LN + " Schedules are those of the real machine.",
        rule="a case is a history of clients, deliveries and stops on one listener; non-trivial with at least one client that stayed to the end and 3 events"),
    "C16": dict(
        components=[dict(kind="py", module="chrome", name="chrome", quick=(9000, 30), thorough=(1000000, 600), nondet=True)],
        technique="property-based testing of the real converter executable (AddressSanitizer): generated recorded streams (class sets, labels, string mappings, map files, both byte orders, truncation) written by an independent encoder; the output parsed by a JSON reader and compared entry by entry with a model of the stream",
        level_note=LN,
        rule="a case is one generated recorded stream converted by one run of the converter; non-trivial when the model has at least two entries"),
    "C17": dict(
        components=[dict(kind="py", module="callgrind", name="callgrind", quick=(9000, 30), thorough=(1000000, 600), nondet=True)],
        technique="property-based testing of the real converter executable (AddressSanitizer): generated forests of nested spans on several threads in several arrival orders; the callgrind files parsed and compared with a model of the call graph (unique nestings exactly, ambiguous ones through cost invariants)",
        level_note=LN,
        rule="a case is one generated set of spans converted by one run of the converter; non-trivial when a thread with unique nesting has a call"),
    "C18": dict(
        components=[dict(kind="py", module="labeltool", name="labeltool", quick=(2500, 30), thorough=(300000, 600))],
        technique="property-based testing: generated source trees (tracepoints, near misses, arbitrary bytes, dangling links) through the real label generator, its header, LUA file and map compared with a model; the maps of several runs loaded in generated orders by the client's map (AddressSanitizer) and every number resolved against the model",
        level_note=LN,
        rule="a case is one or more source trees, runs of the generator and a loading order; non-trivial with at least two labels"),
    "C19": dict(
        components=[H("oom", src=["memory.cpp"], flags="-DOOM", quick=(4000, 35))],
        technique="stateful property-based testing with exhaustive fault injection: generated histories of library calls under a custom allocator, repeated once for every (or a sample of) allocation request with that request and possibly the following ones failing; oracle: a model that follows the reported results, plus an allocator that knows every block (AddressSanitizer)",
        level_note=LN,
        rule="a case is a history and all its repetitions with failures; non-trivial with at least 5 repetitions and one event received"),
    "C20": dict(
        components=[H("teardown", src=["memory.cpp"], quick=(9000, 30)), H("conc_features", variant="sched", quick=(4000, 15))],
        technique="stateful property-based testing: generated histories over timelines, groups, listeners, features, schedulers, nested initialization and threads with global timelines, torn down in generated orders before and after ht_deinit(), twice in a row; oracle: an allocator that knows every block, counted destroy callbacks, descriptors and threads, and a model of who is alive; plus schedule fuzzing of concurrent registration of feature classes",
        level_note=LN,
        rule="a case is a history plus an order of teardown (non-trivial: at least 10 allocations and 2 events received) or a concurrent program plus schedule (non-trivial: 3 registrations and more switches than threads)"),
    "C21": dict(
        components=[H("cmdline", variant="asan", client=True, quick=(9000, 25)), dict(kind="py", module="clientmain", name="clientmain", quick=(2500, 15), thorough=(300000, 600))],
        technique="property-based testing: generated option sets and argument vectors (values that look like options, near misses, repeated and missing options) against a model of the parser; generated source strings (file names that look like addresses, addresses of real loopback servers, near misses) against what is opened or connected; generated library arguments through ht_init against the buffer size observed on the wire; plus the converter executable run with generated command lines",
        level_note=LN,
        rule="a case is an option set with argument vectors (non-trivial: 2 options declared and 2 used), a set of source strings (non-trivial: 2) or an argument vector of the library (non-trivial: the option is used), or a run of the converter (non-trivial: at least 3 arguments)"),
    "C24": dict(
        components=[H("usage", variant="asanclk", ldflags="-Wl,--wrap=fopen,--wrap=fopen64,--wrap=open,--wrap=open64", quick=(20000, 25))],
        technique="property-based testing with a virtual clock: histories of samples over generated contents of /proc/PID/stat and statm (any process name, extreme counters, vanishing processes) and over real processes with generated names that burn time and stop; oracle: the counters themselves",
        level_note=LN,
        rule="a case is a history of samples of one process; non-trivial with at least 2 generated samples, or a real process that used at least one clock tick"),
    "C23": dict(
        components=[H("allochooks", variant="hooks", quick=(30000, 25))],
        technique="stateful property-based testing: generated histories of malloc, calloc, realloc, free (also through strdup, new and aligned blocks) on several threads with generated sets of hooks that are changed on the way and allocate themselves; oracle: the C library's rules for the memory (content, alignment, size, overlap, failure) and an exact trace of the hooks",
        level_note=LN,
        rule="a case is a history of calls and hook sets, or one per thread; non-trivial with at least 3 calls and a hook"),
    "C22": dict(
        components=[dict(kind="py", module="pybind", name="pybind", quick=(100000, 22), thorough=(1000000, 900)),
                    dict(kind="py", module="pyclient", name="pyclient", quick=(100000, 30), thorough=(1000000, 900), nondet=True)],
        technique="property-based testing: generated Python programs (functions, lambdas, closures, methods of every kind, callable objects, partials, generators, coroutines; generated signatures, calls that fit or do not, exceptions, renames, threads, toggles, ways to exit) run with and without the decorator, differential on everything they observe, plus a model of the recorded spans checked in the written file; generated streams through the Python client in generated usage scenarios; the modules are built with AddressSanitizer",
        level_note=LN,
        rule="a case is a generated program (non-trivial: at least 3 calls and a recorded span) or up to six client scenarios (non-trivial: 5 events delivered)"),
    "C28": dict(
        components=[H("features", quick=(12000, 20)), H("conc_features28", variant="sched", src=["conc_features.cpp"], quick=(4000, 10))],
        technique="stateful property-based testing: generated histories of registering up to 40 feature classes, setting, reading, rejecting and destroying features on several timelines across re-initialisations against a model, plus concurrent registrations under generated schedules",
        level_note=LN,
        rule="a case is a history on one process; non-trivial with at least 3 features set and 2 classes registered (schedules: at least 3 registrations and a switch inside the library)"),
    "C27": dict(
        components=[dict(kind="py", module="tree", name="tree", quick=(100000, 75), thorough=(1000000, 900), case_timeout=300, shrink_time=90)],
        technique="property-based testing: generated configurations of the project's own build (options, compiler, build type, generator, directories), each built and installed in a scratch directory and used from there by generated programs through pkg-config or find_package; recordings go through the installed converter and parser library; oracle: a simulation of the program's trace",
        level_note=LN,
        rule="a case is a configuration or a program used with one; non-trivial if the program was traced, recorded and compared"),
    "C26": dict(
        components=[dict(kind="py", module="progs", name="progs", quick=(100000, 40), thorough=(1000000, 900))],
        technique="property-based testing: generated programs of several translation units that include the public headers in any selection and order (C of six standards, C++ of five, both compilers, static and shared library), with tracepoints and pushed events in nested blocks, loops, early returns, jumps, exceptions, lambdas, templates and calls across the units, on up to three threads; oracle: a simulation of the program's trace",
        level_note=LN,
        rule="a case is a program; non-trivial with at least 2 units and 4 events"),
    "C25": dict(
        components=[H("timeline_amalgc", variant="amalgc", src=["timeline.cpp"], quick=(4000, 4), thorough=(1000000, 90)),
                    H("timeline_amalgcpp", variant="amalgcpp", src=["timeline.cpp"], quick=(4000, 4), thorough=(1000000, 90)),
                    H("roundtrip_amalgc", variant="amalgc", src=["roundtrip.cpp"], client=True, quick=(3000, 4), thorough=(1000000, 90)),
                    H("teardown_amalgc", variant="amalgc", src=["memory.cpp"], quick=(2000, 5), thorough=(1000000, 90)),
                    H("teardown_amalgcpp", variant="amalgcpp", src=["memory.cpp"], quick=(2000, 4), thorough=(1000000, 90)),
                    H("metadata_amalgc", variant="amalgc", src=["metadata.cpp"], quick=(3000, 3), thorough=(1000000, 60)),
                    H("encode_amalgc", variant="amalgc", src=["encode.cpp"], quick=(3000, 2), thorough=(1000000, 30)),
                    H("labels_amalgc", variant="amalgc", src=["labels.cpp"], quick=(3000, 3), thorough=(1000000, 60)),
                    H("spans_amalgcclk", variant="amalgcclk", src=["spans.cpp", "spans_c.c"], quick=(3000, 4), thorough=(1000000, 60)),
                    H("spans_amalgcppclk", variant="amalgcppclk", src=["spans.cpp", "spans_c.c"], quick=(3000, 3), thorough=(1000000, 60)),
                    H("tcp_amalgc", variant="amalgc", src=["tcp.cpp"], quick=(1500, 6), thorough=(300000, 120), nondet=True, case_timeout=30),
                    H("tasks_nothreads", variant="nothreadsclk", src=["tasks.cpp"], quick=(3000, 3), thorough=(1000000, 60)),
                    H("timeline_nothreads", variant="nothreads", src=["timeline.cpp"], quick=(3000, 3), thorough=(1000000, 60)),
                    H("labels_nothreads", variant="nothreads", src=["labels.cpp"], quick=(3000, 3), thorough=(1000000, 60)),
                    H("filedump_nothreads", variant="nothreads", src=["filedump.cpp"], quick=(3000, 3), thorough=(1000000, 60)),
                    H("conc_global_c", variant="schedc", src=["conc_global.cpp"], quick=(6000, 8), thorough=(1000000, 300)),
                    H("conc_ids_c", variant="schedc", src=["conc_ids.cpp"], quick=(4000, 4), thorough=(1000000, 60)),
                    H("exittrace_amalgc", variant="amalgc", src=["exittrace.cpp"], flags="-DCXX_LIBRARY=0", quick=(1500, 4), thorough=(1000000, 60), nondet=True),
                    H("exittrace_nothreads", variant="nothreads", src=["exittrace.cpp"], flags="-DNOTHREADS", quick=(1500, 4), thorough=(1000000, 60), nondet=True),
                    H("clock_amalgc", variant="amalgc", src=["clock.cpp"], quick=(2000, 2), thorough=(300000, 20)),
                    H("realthreads_c", variant="tsanc", src=["realthreads.cpp"], quick=(2000, 5), thorough=(300000, 200), nondet=True, case_timeout=60),
                    H("realthreads_cg", variant="tsancg", src=["realthreads.cpp"], quick=(2000, 5), thorough=(300000, 200), nondet=True, case_timeout=60),
                    dict(kind="py", module="amalgprog", name="amalgprog", quick=(400, 20), thorough=(20000, 600))],
        technique="differential / stateful property-based testing across build configurations: the history generators and models of C01-C04, C07-C09, C11-C14 and C20 run against the single-file library (as C and as C++, the harness sees only the generated header), the library forced to C (under generated schedules and under ThreadSanitizer) and the library without threads; plus generated programs (feature set, directory order, languages, compilers, standards, event classes, tracepoints) built on a freshly generated single-file library and judged against a model of their output",
        level_note=LN,
        rule="a case is a history, schedule or program of the component it belongs to (non-trivial as stated for the property the harness was made for; a generated program: at least 2 tracepoints and 2 instances)"),
}
