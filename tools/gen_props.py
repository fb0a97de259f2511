#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


prop("C01", "Timelines deliver every event exactly once, in order, whole and unmodified",
     "Every event pushed to a timeline reaches every listener of that timeline's group exactly once, in push order per timeline, as a whole event with exactly the values it had when it was pushed, and never reaches listeners of another group or listeners already unregistered. "
     "Events may be held back only while they fit in the timeline's buffer; after a flush or after destroying the timeline nothing is held back. "
     "This is independent of buffer size (including 0 and sizes smaller than an event), event sizes, serialized or raw mode, number of listeners, and how many timelines share a named group.",
     ["histories", "inputs", "configurations"],
     "all histories of creating, pushing to, flushing, registering listeners on, unregistering and destroying timelines, with arbitrary event classes, values and buffer sizes",
     "The tests push a few fixed events through one buffer size; the guarantee is about every alignment of event sizes with buffer boundaries and every interleaving of registrations and flushes.",
     ["lib/timeline.c", "lib/timeline_listener.c", "lib/registry.c", "lib/include/internal/bag.h", "lib/bag.c"],
     [("buffer, flush and oversized-event path", "lib/timeline.c"), ("listener fan-out and named groups", "lib/timeline_listener.c, lib/registry.c")],
     [("pending buffer", "events pushed but not yet delivered", "lib/timeline.c")], ["listener callback arguments"])

prop("C02", "Every declared event class is encoded exactly as its declaration says",
     "For any event class a program declares (up to 24 fields of its own of any supported type, any depth of inheritance) the serialized form of an instance is its class id, timestamp and event id followed by the fields of its base classes and then its own fields in declaration order, each integer, double and pointer with its full declared width, each nested struct in its own serialized form and each string as its bytes plus one NUL (a missing string as an empty one). "
     "The size reported for an instance always equals the number of bytes serialization writes, and serialization writes nothing beyond them. "
     "The reflection data of the class (field names, declared type names, sizes, offsets, signedness, kind) describes the declaration truthfully.",
     ["programs", "inputs"],
     "all event class declarations built from the supported field types and all field values, including extreme integers, empty, long and missing strings",
     "Unit tests check a handful of hand-written classes; the macros have to be right for every declaration a user can write.",
     ["lib/include/hawktracer/event_macros.h", "lib/include/hawktracer/event_macros_impl.h", "lib/include/hawktracer/mkcreflect.h", "lib/include/hawktracer/events.h", "lib/events.c", "lib/event_utils.c"],
     [("size / serialize code generated per class", "lib/include/hawktracer/event_macros_impl.h"), ("reflection tables", "lib/include/hawktracer/mkcreflect.h")], None, ["bytes seen by a serialized listener"])

prop("C03", "A recorded trace file reads back as exactly the events that were pushed",
     "Whatever sequence of events of classes with integer and string fields a program pushes to timelines whose listener is a file dump, reading the finished file with the parser library yields exactly those events in order, each with its class, field names, types and values (integers of every width and sign, strings byte for byte), preceded only by the metadata events. "
     "This holds for every timeline buffer size, file listener buffer size, serialized or raw timeline, and for several timelines recording into one file.",
     ["inputs", "configurations", "histories"],
     "all event sequences over all parseable event classes and all buffer configurations of timeline and listener",
     "The integration tests round-trip a few fixed events with one configuration; field, padding, boundary and buffer errors show only for particular combinations.",
     ["lib/listeners/file_dump_listener.c", "lib/listener_buffer.c", "lib/timeline.c", "lib/registry.c", "parser/protocol_reader.cpp", "parser/event.cpp", "parser/klass_register.cpp", "parser/file_stream.cpp"],
     [("write side", "lib/listeners/file_dump_listener.c, lib/listener_buffer.c"), ("read side", "parser/protocol_reader.cpp")], None, ["events passed to the parser's callback"])

prop("C04", "Every stream describes its own event classes before it uses them",
     "The metadata written at the start of a stream begins with the byte-order marker and then describes, exactly once each and with the right id, name, field count, and every field's name, type name, width and kind in order, every event class registered so far, and carries the system information. "
     "This holds for any number of registered classes, any name lengths, serialized and raw listeners, and after any history of initialising and deinitialising the library. "
     "Class ids are unique among registered classes, registering a class again returns its id unchanged, and metadata size reported equals the bytes delivered.",
     ["histories", "inputs", "configurations"],
     "all sets of registered classes, init/deinit/register histories and both delivery modes",
     "Tests register a few short classes once; the metadata block size, repeated initialisation and many classes are never combined.",
     ["lib/registry.c", "lib/init.c", "lib/system_info.c", "lib/timeline_listener.c", "lib/event_utils.c"],
     [("class registry and metadata push", "lib/registry.c"), ("initialisation counting", "lib/init.c")], [("class registry", "registered classes, id = position", "lib/registry.c")], ["metadata bytes handed to a listener"])

prop("C05", "The parser survives any input and delivers every event before the first damage",
     "Reading any sequence of bytes (a truncated, corrupted, reordered or arbitrary stream, with any chunking) never crashes, hangs, reads or writes outside its buffers, or keeps the reader from stopping. "
     "All events that are complete and well-formed before the first damaged or missing byte are delivered unchanged and in order. "
     "After the input ends or is rejected the reader reports completion, to every thread that waits for it, and can read its source again. Other threads may look classes up and stop the reader meanwhile, as may its callbacks: what they see of the classes only grows towards their descriptions, a stop ends the delivery after a prefix of the events, and none arrives after it returned. Copies of events stay valid when the reader and the classes are gone.",
     ["inputs", "fault_sequences"],
     "all byte strings, in particular every truncation point and mutation of generated valid streams",
     "Tests feed only well-formed streams; the damage space cannot be enumerated by hand.",
     ["parser/protocol_reader.cpp", "parser/event.cpp", "parser/event_klass.cpp", "parser/klass_register.cpp", "parser/include/hawktracer/parser/event.hpp"],
     [("header, class-info and field readers", "parser/protocol_reader.cpp")], None, ["parser callback", "process health"])

prop("C06", "Parsing is independent of the writer's byte order and of the event view",
     "A stream written on a machine of the opposite byte order is parsed to the same classes and the same field values as its native twin, for all integer widths and signs. "
     "The flat and the tree view of one stream hold the same values for the same fields, the tree view nesting each base class under its own event. The debug listener prints, for either view, every field of every event with its type, name and value, and counts the events of each class.",
     ["inputs", "configurations"],
     "all generated streams of all classes in both byte orders and both views",
     "Tests run on one host with native streams and hand-picked conversions.",
     ["parser/protocol_reader.cpp", "parser/include/hawktracer/parser/endianness_convert.hpp", "parser/event.cpp", "parser/include/hawktracer/parser/event.hpp"],
     [("byte order conversion", "parser/include/hawktracer/parser/endianness_convert.hpp"), ("flat / tree building", "parser/protocol_reader.cpp")])

prop("C07", "Tracepoints yield one properly nested span per scope, on every exit path",
     "Each started callstack event or scoped tracepoint produces exactly one event when it stops: with the label it was started with, its start timestamp and id, a duration equal to the clock difference between start and stop, and the id of the stopping thread, whatever ends the scope (fall-through, return, break, continue, exception). "
     "Events are emitted in stop order and nest properly at any depth and with event classes of any size mixed in one stack. "
     "Different timelines' stacks never affect each other.",
     ["histories", "programs", "inputs"],
     "all start/stop histories on several timelines, with arbitrary classes, depth and clock steps, in C and C++ scopes left in every possible way",
     "Tests nest two or three levels with equal event types; growth and shrinking of the stack with mixed sizes is untested.",
     ["lib/feature_callstack.c", "lib/stack.c", "lib/scoped_tracepoint.c", "lib/include/hawktracer/scoped_tracepoint.h", "lib/include/hawktracer/scoped_tracepoint.hpp", "lib/include/hawktracer/string_scoped_tracepoint.h"],
     [("stack of open spans", "lib/feature_callstack.c, lib/stack.c"), ("scope guards", "lib/include/hawktracer/scoped_tracepoint.hpp")])

prop("C08", "Every cached-string id in a stream resolves to the string it stands for",
     "The id returned for a label is announced in the timeline's stream by a mapping event carrying that exact label, before any later event can use it and exactly once per label; asking again for the same label returns the same id. "
     "Two different labels never share an id, in one timeline or across timelines, dynamic labels are copied when added, and pushing the map again re-announces every label added so far exactly once.",
     ["histories", "inputs"],
     "all histories of adding static and dynamic labels (any strings, any number) and re-announcing the map on several timelines",
     "Tests add a few labels; collisions, bucket growth and re-announcement completeness depend on the whole set.",
     ["lib/feature_cached_string.c", "lib/hash_map.c", "lib/include/internal/hash.h", "lib/posix_mapped_tracepoint.c"],
     [("label tables", "lib/feature_cached_string.c, lib/hash_map.c"), ("label hash", "lib/include/internal/hash.h")])

prop("C09", "The task scheduler runs each task when due, never early, removed or twice",
     "On each tick every scheduled task whose time has come runs exactly once and no other task runs; a task asking to stop, or removed, never runs again. "
     "After a run the next due time is the previous due time plus the period (ignore-delays mode) or the time after the run plus the period (restart mode). "
     "Task ids are unique, removal reports whether the task existed, and the optimal tick period is the greatest common divisor of the non-zero periods.",
     ["histories", "inputs"],
     "all histories of schedule, remove, tick and clock advance with arbitrary periods, modes and callback results",
     "Tests schedule one or two tasks with a stubbed clock; removal while iterating and many tasks with mixed periods are not explored.",
     ["lib/task_scheduler.c", "lib/bag.c"], [("tick loop", "lib/task_scheduler.c")])

prop("C10", "A thread-safe timeline loses, tears and duplicates nothing under any schedule",
     "When several threads push to, flush and register listeners on one thread-safe timeline, every event pushed is delivered exactly once, whole and unmodified, to each listener registered before the push began, events of one thread arrive in their push order, and all are delivered after a flush that follows them. "
     "No schedule crashes, deadlocks or calls one listener for two chunks at the same time.",
     ["schedules", "histories"],
     "all interleavings of small concurrent programs on thread-safe timelines, and random larger ones",
     "Test runs see whatever schedule the machine produces, usually none with a switch inside the critical regions.",
     ["lib/timeline.c", "lib/timeline_listener.c", "lib/mutex.cpp", "lib/feature_cached_string.c"],
     [("timeline lock", "lib/timeline.c"), ("listener container lock", "lib/timeline_listener.c")])

prop("C11", "Global timelines of all threads feed every listener of the global group",
     "Each thread has its own global timeline, all belong to one named group, and every event any thread pushes through its global timeline, at any time before it exits, reaches every listener registered earlier on that group by any thread, at the latest when the thread exits, with each thread's order kept and open spans and labels of different threads never mixed. "
     "Timelines created concurrently with the same group name always share one group. "
     "The destructors of thread-local objects and thread keys (and of static objects and exit handlers) may trace too, whatever the order they run in.",
     ["schedules", "histories"],
     "all interleavings of threads starting, first using their global timeline, pushing, registering listeners and exiting",
     "The first-use race and thread-exit flush depend on schedules no test forces.",
     ["lib/global_timeline.cpp", "lib/timeline_listener.c", "lib/registry.c", "lib/mutex.cpp"],
     [("per-thread timeline", "lib/global_timeline.cpp"), ("find-or-create of named groups", "lib/timeline_listener.c, lib/registry.c")])

prop("C12", "Event ids and thread ids are unique in a process under any schedule",
     "Two events initialised through one id provider, from any threads and timelines, never get the same event id, and ids handed to one thread increase. "
     "Every thread has a non-zero thread id that never changes during its life and is never shared with another thread of the process. "
     "Timestamps taken by one thread never decrease.",
     ["schedules", "histories"],
     "all interleavings of id and thread-id requests from any number of threads",
     "A lost increment needs a switch between two machine instructions.",
     ["lib/event_id_provider.cpp", "lib/thread.c", "lib/monotonic_clock.cpp", "lib/timeline.c"],
     [("id counter", "lib/event_id_provider.cpp"), ("thread id counter", "lib/thread.c")])

prop("C13", "The file dump listener writes exactly what it was given, through any fault",
     "After a flush that includes the stream, or a stop, the file holds the metadata followed by all bytes of all events delivered so far, in order and byte-identical to the serialized events, for any buffer size and mix of serialized and raw chunks; at any moment the file holds a prefix of that sequence. "
     "Events delivered after stop leave the file alone, stopping or flushing repeatedly or from several threads is harmless, and an unwritable path or a failing disk yields an error or lost data but never a crash. Whatever a failing disk loses, the file stays a prefix (also if there is space again later), and a flush that includes the stream succeeds only if nothing has been lost.",
     ["histories", "fault_sequences", "configurations"],
     "all histories of deliver, flush, stop and destroy, with arbitrary chunking, buffer sizes and file errors",
     "Tests write a few events to one file without faults.",
     ["lib/listeners/file_dump_listener.c", "lib/listener_buffer.c"],
     [("listener buffer", "lib/listener_buffer.c"), ("file writes", "lib/listeners/file_dump_listener.c")])

prop("C14", "Each TCP client receives the metadata and then the complete live event stream",
     "Every client connected to a TCP listener receives the stream metadata first and then every event delivered after the client got its metadata, whole, in order and byte-identical to the serialized event, until it disconnects or the listener stops (stopping sends what is still buffered), whatever other clients do (connect, read slowly, disconnect, reset, half-close). "
     "The client-connected callback runs once per client and events pushed in it reach that client. "
     "A vanished client or an interrupted send never crashes or blocks the traced program; a port in use, a missing resource or a thread that cannot be started is an error of creating the listener that leaves nothing behind, and a failing accept() does not end the service; stopping is idempotent, closes all connections and releases the port, and no descriptor is left open.",
     ["schedules", "histories", "fault_sequences"],
     "all histories of clients connecting, reading, vanishing, events being pushed, flushing and stopping",
     "The tests connect one well-behaved client.",
     ["lib/listeners/tcp_listener.c", "lib/tcp_server.cpp", "lib/listener_buffer.c"],
     [("accept thread and client set", "lib/tcp_server.cpp"), ("metadata to new clients", "lib/listeners/tcp_listener.c")])

prop("C15", "Input streams hand over exactly the bytes of their source, then end",
     "Reading a file or TCP stream by any mix of single-byte and block reads yields exactly the source's bytes in order, every byte value included, independent of how the source delivers them in chunks. "
     "The end is reported once the source is exhausted and not before, a block read succeeds if and only if all requested bytes were available, a missing source fails to start, signals the program handles change nothing, and stopping a stream unblocks a reader waiting on it and a start waiting for the server. A stream started again delivers its source from the beginning and nothing of an earlier run; one without a source has no bytes.",
     ["inputs", "schedules", "fault_sequences"],
     "all source contents, all chunkings by the sender, all read sequences and stop points",
     "Tests read short text files; byte values, chunk boundaries and ends of data are not varied.",
     ["parser/file_stream.cpp", "client_utils/tcp_client_stream.cpp", "client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp", "parser/include/hawktracer/parser/stream.hpp"],
     [("file stream", "parser/file_stream.cpp"), ("receive thread and queue", "client_utils/tcp_client_stream.cpp")])

prop("C16", "The Chrome trace output is valid JSON that represents every span exactly",
     "For any recorded stream the Chrome converter produces a valid JSON document holding, in stream order, one complete event per event that has a duration and a label (its label field, or else a string field called name), with that label whatever UTF-8 text it is (numeric labels resolved through the mappings seen so far in the stream or loaded from map files, otherwise shown as the number), its thread id, start and duration in whole microseconds, and all remaining fields as arguments. A truncated stream yields the entries before the cut. A stream received live over TCP is converted as if it were a file, up to the point where the user ends the trace. "
     "Mapping and metadata events produce no entries of their own.",
     ["inputs", "histories"],
     "all streams of callstack and other events, all labels, field values and mapping orders",
     "Converter output is untested in the repository.",
     ["client/chrome_trace_converter.cpp", "client/converter.cpp", "client/tracepoint_map.cpp", "client/main.cpp"],
     [("JSON writer", "client/chrome_trace_converter.cpp"), ("label map", "client/tracepoint_map.cpp")])

prop("C17", "Call graphs attribute every span's time to the right caller exactly once",
     "For any set of properly nested spans per thread the call graph has each span under the innermost span of its thread that contains it (start and end included), whatever order the events arrive in; calls of one label under one caller are one node. "
     "The callgrind output lists every function with its self cost (duration minus direct children) and each call with the callee's inclusive cost, so self costs of a thread add up to the duration of its root spans.",
     ["inputs", "histories"],
     "all forests of nested spans over several threads, with equal starts, zero durations and any arrival order",
     "Tests compare two fixed files.",
     ["client/call_graph.cpp", "client/call_graph.hpp", "client/callgrind_converter.cpp"],
     [("tree building", "client/call_graph.cpp"), ("cost output", "client/callgrind_converter.cpp")])

prop("C18", "Label maps made by the label tool resolve every labelled tracepoint id",
     "The label generator assigns each label of a tracepoint written in its documented form on a line of the scanned sources a distinct number, the same for every output it generates, whatever the sources contain around it, and the map it writes, loaded by the client, resolves every number to its label and category. "
     "Loading a list of such maps keeps the entries of all of them, later ones winning, a missing file being skipped, and an id without entry is shown as the number.",
     ["inputs", "programs"],
     "all source trees with labelled tracepoints, all map files and all combinations of maps",
     "Tests scan one fixed source per language and never load a map in the client.",
     ["tools/generate_tracepoint_labels.py", "client/tracepoint_map.cpp", "client/tracepoint_map.hpp"],
     [("label scan and numbering", "tools/generate_tracepoint_labels.py"), ("map loading and lookup", "client/tracepoint_map.cpp")])

prop("C19", "Running out of memory at any allocation never crashes or corrupts tracing",
     "If any memory request made through the library's allocator fails, alone or together with those that follow it, the public call that needed it reports an error or loses only its own effect (a span that could not be stored takes those nested in it along): nothing crashes, hangs or corrupts memory, and nothing that was obtained is leaked once everything is destroyed. "
     "After memory is available again timelines, listeners, features and schedulers created before or after work as if the failed call had not been made.",
     ["fault_sequences", "histories"],
     "every allocation index of every generated operation history, single and persistent failures",
     "A few hand-written tests fail one chosen allocation each.",
     ["lib/alloc.c", "lib/timeline.c", "lib/timeline_listener.c", "lib/registry.c", "lib/hash_map.c", "lib/stack.c", "lib/task_scheduler.c", "lib/feature_cached_string.c", "lib/feature_callstack.c", "lib/listeners/file_dump_listener.c"],
     [("error paths", "all of lib")])

prop("C20", "Everything created is released exactly once, whatever the order of teardown",
     "After all timelines, listeners, features, schedulers and the library itself have been torn down, in any permitted order including timelines outliving deinitialisation, all memory obtained through the library's allocator has been returned to that allocator, and no file, socket or thread of the library is left. "
     "Each listener's destroy callback runs exactly once, after its last event and when its group disappears or is cleared, and each feature handed to a timeline is destroyed exactly once: with the timeline, or at once if the timeline rejects it. The library stays initialised until as many deinitialisations as initialisations were made, and can be initialised again.",
     ["histories"],
     "all histories of creating, attaching, sharing by name, unregistering, destroying, initialising and deinitialising",
     "Tests destroy in one fixed order and do not count.",
     ["lib/timeline.c", "lib/timeline_listener.c", "lib/registry.c", "lib/feature_cached_string.c", "lib/feature_callstack.c", "lib/alloc.c", "lib/init.c"],
     [("reference counted groups", "lib/timeline_listener.c"), ("feature ownership", "lib/timeline.c")])

prop("C21", "Command lines and source addresses are accepted or rejected exactly as described",
     "The client's option parser returns exactly the values given for declared options and flags in any order (the first value if an option is repeated; a value may look like an option), fails if and only if an argument is not a declared option, lacks its value or a mandatory option is missing, and its help lists every option. "
     "A source string is opened as a file if such a file exists, and otherwise as a TCP stream if and only if it is a dotted quad of numbers up to 255 with an optional port up to 65535 (8765 unless given as a number); the stream then connects to exactly that address. "
     "The converter writes its output to the given path, with strftime() patterns replaced, only if the command line, the format and the source are valid, and ends with success only if all of it could be written. "
     "Of the arguments given to ht_init() only the library's own are acted upon, the buffer size only if it is a number, and the argument vector is left untouched.",
     ["inputs"],
     "all argument vectors over generated option sets, all source strings",
     "Tests check a few examples per rule.",
     ["client_utils/command_line_parser.cpp", "client_utils/stream_factory.cpp", "lib/command_line_parser.c", "lib/init.c"],
     [("option parser", "client_utils/command_line_parser.cpp"), ("stream factory", "client_utils/stream_factory.cpp"), ("library arguments", "lib/command_line_parser.c")])

prop("C22", "Tracing Python code never changes what it does, and its spans are recorded",
     "A function wrapped by the tracing decorator, called as function or method with any positional and keyword arguments, returns the same value or raises the same exception as without it, takes and releases no references, and whatever else is decorated (properties, class methods, callables without a name) keeps working. "
     "If tracing is enabled and the library is initialized when the call begins, the call records exactly one span with the function's name at that time, properly nested in its thread; every file listener has the spans and the names once the interpreter has exited, however it exits. "
     "Events delivered to the Python client, polled or through a callback, are the events of the stream in order with the values that were recorded, for all integer widths and signs and all strings; the client can be stopped, restarted or dropped at any moment, also by its callback and from several threads, waiting for a server or for events never holds up other Python threads, and no misuse crashes the interpreter.",
     ["programs", "inputs"],
     "all Python functions, argument shapes and call trees; all event values",
     "The Python test calls two functions without arguments.",
     ["bindings/python3/hawktracer_core_python.cpp", "bindings/python3/hawktracer_client_python.cpp", "bindings/python3/client_context.cpp"],
     [("decorator", "bindings/python3/hawktracer_core_python.cpp"), ("event conversion", "bindings/python3/hawktracer_client_python.cpp")])

prop("C23", "Allocation hooks see every allocation and never change its result",
     "With allocation hooks compiled in, every malloc, calloc, realloc and free of the program behaves as the C library defines it, and each registered pre and post hook is called exactly once per call with the call's arguments and result, including calls made concurrently. "
     "Between calls the hooks can be replaced or removed, which takes effect with the next call. The skip functions, which a hook uses for its own memory, behave like the functions they stand for and never call a hook.",
     ["histories", "schedules"],
     "all sequences of allocation calls and hook changes, from several threads",
     "Tests call each function once.",
     ["lib/platform/linux/alloc_hooks.c", "lib/include/hawktracer/alloc_hooks.h"],
     [("interposed allocation functions", "lib/platform/linux/alloc_hooks.c")])

prop("C24", "CPU and memory monitors report what the kernel reports, for any process",
     "The memory usage read for a process equals the kernel's counters for it, and the CPU usage equals the share of the elapsed time that the process spent running between two samples, whatever the process is called. "
     "A process that does not exist yields an error, never a made-up value, and all-zero counters of a process that exists are a value, not an error.",
     ["inputs", "configurations"],
     "all process names, page counts and elapsed times",
     "Tests only check that the own process gives some value.",
     ["lib/platform/linux/cpu_usage.c", "lib/platform/linux/memory_usage.c"],
     [("/proc readers", "lib/platform/linux/cpu_usage.c, lib/platform/linux/memory_usage.c")])

prop("C25", "The single-file library and every build configuration behave like the library",
     "The single-file library generated by tools/amalgamate.py, as C or as C++, with any set of configured features and whatever order the directories list their entries in, compiles with the compilers and language standards the library supports, links with a C or C++ program of any number of source files that include hawktracer.h, and gives the same guarantees as the library built the usual way: the same events with the same bytes in the same order, per-thread global timelines, unique ids, nested spans, resolved labels, no leaks. "
     "The same holds for a library compiled as C (with POSIX mutexes, clock and thread-exit handling) and, in a single-threaded program, for one built without thread support. "
     "The C and C++ versions can be generated into one directory at the same time; hawktracer.h and ht_config.h there are complete at every moment.",
     ["programs", "configurations", "histories", "schedules"],
     "all configurations of features, languages, standards and directory orders, all programs using the public headers, all histories and schedules of the other properties",
     "The amalgamated library is only compiled by the build, never linked or run by a test, and the C code paths of the portable files are never compiled.",
     ["tools/amalgamate.py", "cmake/test_amalgamation.cmake", "lib/global_timeline.cpp", "lib/event_id_provider.cpp", "lib/mutex.cpp", "lib/monotonic_clock.cpp", "lib/tcp_server.cpp", "lib/include/hawktracer/macros.h", "lib/include/hawktracer/scoped_tracepoint.h", "lib/include/hawktracer/string_scoped_tracepoint.h"],
     [("amalgamation", "tools/amalgamate.py"), ("C implementations of mutex, clock, ids and per-thread timelines", "lib/mutex.cpp, lib/monotonic_clock.cpp, lib/event_id_provider.cpp, lib/global_timeline.cpp, lib/tcp_server.cpp")])

prop("C26", "Programs using the public headers compile, link and trace as they are written",
     "A C (C89 with GNU extensions, or C99 and later) or C++ (11 and later) program of any number of source files that includes any selection of the public headers, in any order and any number of times, compiles with gcc and clang, links with the shared and the static library, and traces exactly what it executes: one span per executed tracepoint, ended when the enclosing scope is left in whatever way (end of block, loop iteration, break, continue, goto, return, exception), with the label of that tracepoint (a cached one announced before its first use), and one event per push macro with the given values. "
     "Expressions given as label or value are evaluated exactly once per execution; arguments may be any expression of the right type and may use variables of any name; duration macros yield the exact number of nanoseconds for every argument that fits 64 bits; HT_TIMELINE_PUSH_EVENT_PEDANTIC causes no compiler warnings.",
     ["programs", "inputs", "configurations"],
     "all programs built from the public macros and headers, all language standards, compilers and ways of linking",
     "The tests are C++ programs compiled once, with one compiler and standard, that use each macro in one place; headers are never included alone or in another order.",
     ["lib/include/hawktracer.h", "lib/include/hawktracer/scoped_tracepoint.h", "lib/include/hawktracer/scoped_tracepoint.hpp", "lib/include/hawktracer/string_scoped_tracepoint.h", "lib/include/hawktracer/tracepoint.h", "lib/include/hawktracer/global_timeline.h", "lib/include/hawktracer/posix_mapped_tracepoint.h", "lib/include/hawktracer/timeline.h", "lib/include/hawktracer/duration_conversion.h", "lib/include/hawktracer/event_macros.h", "lib/scoped_tracepoint.c", "lib/posix_mapped_tracepoint.c", "parser/include/hawktracer/parser", "client_utils/include/hawktracer"],
     [("scoped tracepoints in C and C++", "lib/include/hawktracer/scoped_tracepoint.h, lib/scoped_tracepoint.c"), ("static labels, once per place and thread", "lib/include/hawktracer/string_scoped_tracepoint.h, lib/posix_mapped_tracepoint.c"), ("push macros", "lib/include/hawktracer/timeline.h")])

prop("C27", "Every configuration builds, installs and works from the installed tree",
     "With any combination of the documented build options, gcc or clang, build type, generator and library directory, the project configures, builds and installs; a program then builds against the installed headers and libraries with the flags of pkg-config or through find_package and traces what it executes; the recording it writes is read completely by a program using the installed parser library and shown completely by the installed converter.",
     ["configurations", "programs"],
     "all combinations of the build options and all programs of C26",
     "The tests are built in one configuration, never installed, and link with build-tree targets and forced includes.",
     ["CMakeLists.txt", "lib/CMakeLists.txt", "parser/CMakeLists.txt", "client/CMakeLists.txt", "client_utils/CMakeLists.txt", "cmake", "lib/include/hawktracer/ht_config.h.in", "lib/platform", "client/main.cpp"],
     [("options and features", "CMakeLists.txt, cmake/platform_features.cmake, lib/CMakeLists.txt"), ("configuration header", "lib/include/hawktracer/ht_config.h.in"), ("package files", "cmake/packager.cmake, CMakeLists.txt")])

prop("C28", "Timelines hand out exactly the features they were given",
     "As many feature classes as the library has room for can be registered, by any threads and across deinitialisations; each gets an id of its own that never changes, registering one again and registering one too many are reported and change nothing. "
     "For each class a timeline returns the very feature object that was set on it, unchanged, or nothing, whatever was set on other timelines or for other classes. A feature of an unregistered class, or a second one of a class, is rejected with the error that says so and destroyed at once, and nothing else is; destroying a timeline destroys its features, each exactly once, and no other timeline's.",
     ["histories", "schedules"],
     "all histories of registering, setting, reading and destroying on any number of timelines, and all schedules of concurrent registrations",
     "Tests register one class and set one feature.",
     ["lib/registry.c", "lib/timeline.c", "lib/include/hawktracer/feature.h", "lib/feature_callstack.c", "lib/feature_cached_string.c"],
     [("feature class registry", "lib/registry.c"), ("feature slots of a timeline", "lib/timeline.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
