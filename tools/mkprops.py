import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":"queue positions","meaning":state,"where":"runtime/RuntimeLogger.h"}]
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("P01","C++17 log statements decode to exactly what printf would have printed",
"For every log statement built with the C++17 flavour, whose format uses standard printf conversions other than %n with matching argument types, the decompressed text is byte-for-byte what printf would produce for the same format and argument values. Each decoded line also carries the source file, line number and severity name of the statement that produced it. This holds for any mix of flags, static or dynamic width and precision (negative values included), length modifiers, escaped percent signs, literal backslashes, empty, long or precision-limited strings, and extreme numeric values.",
["inputs","programs"],"every format string over the printf grammar, every number and type of arguments, every argument value",
"The space of formats x argument types x values is unbounded; the tests fix a few dozen statements, mostly with small values.",
["runtime/NanoLogCpp17.h","runtime/Packer.h","runtime/Log.cc","runtime/LogDecompressor.cc"],
[("compile-time format analysis","runtime/NanoLogCpp17.h"),("argument sizing, storing and compressing","runtime/NanoLogCpp17.h"),("format re-parsing and argument printing","runtime/Log.cc")],
observe="text written by the decompressor")
p("P02","Preprocessor log statements decode to exactly what printf would have printed",
"For every log statement accepted by the preprocessor flavour, the decompressed text is byte-for-byte what printf would produce for the same format and argument values, with the file, line and severity of the original statement. This holds for all conversions, flags, static or dynamic widths and precisions, string lengths and numeric values, and for any number of statements and source files combined in one program.",
["inputs","programs"],"every program made of accepted log statements, every argument value",
"The generated record, compress and dictionary code differs per statement; tests compare a few generated texts and run one small application.",
["preprocessor/parser.py","preprocessor/FunctionGenerator.py","runtime/Log.cc","runtime/Packer.h"],
[("record/compress/dictionary code generation","preprocessor/FunctionGenerator.py"),("statement extraction","preprocessor/parser.py"),("dictionary-driven printing","runtime/Log.cc")],
observe="text written by the decompressor built with the program")
p("P03","Concurrent logging: every message exactly once, in order, under its own thread",
"Whatever number of threads log concurrently, and however they interleave with the background output thread, every accepted message appears in the decompressed output exactly once and unaltered. The messages of one thread carry that thread's identifier, distinct from every other thread's, and appear in the order the thread logged them. A producer that outruns the output side waits; its messages are never dropped, overwritten or duplicated.",
["schedules","histories"],"every interleaving of logging threads with the background thread, every burst size, message size, buffer wrap position and I/O latency",
"Races and wrap-around conditions depend on interleavings and buffer positions that a handful of test runs do not reach.",
["runtime/RuntimeLogger.h","runtime/RuntimeLogger.cc","runtime/Log.cc"],
[("per-thread staging buffers","runtime/RuntimeLogger.h"),("background scan/compress/write loop","runtime/RuntimeLogger.cc"),("first-use registration of log statements","runtime/RuntimeLogger.h")],
observe="decompressed output",hook="compile-time buffer sizes, to reach wrap-around and full-buffer states cheaply")
p("P04","sync() returns only after every earlier message is in the log file",
"When a call to sync() returns, every message whose logging call completed before that sync() call began is already in the log file and can be decompressed from the file as it is at that moment. This holds for messages of any thread, including exited ones, for any I/O latency, and for concurrent sync() calls. sync() always returns once I/O completes and no new messages keep arriving.",
["schedules","histories","fault_sequences"],"every interleaving of loggers, syncing threads, thread exits and I/O completion times",
"The unit tests exercise a few states with one thread; premature or missed wake-ups need particular interleavings with I/O and thread exits.",
["runtime/RuntimeLogger.cc","runtime/NanoLog.cc"],
[("sync request / second pass / wait-for-I/O state machine","runtime/RuntimeLogger.cc"),("full pass over all thread buffers","runtime/RuntimeLogger.cc")],
observe="log file contents at the instant sync() returns",hook="compile-time buffer sizes")
p("P05","Nothing logged is lost when threads or the process exit normally",
"Messages logged by a thread that has since exited, and messages pending when the process exits normally (return from main or exit()) without an explicit sync, are all in the log file once the process is gone. Exiting threads in any order and number does not lose, duplicate or mis-attribute the messages of any other thread.",
["schedules","histories","programs"],"every order and timing of thread creation, logging, thread exit and process exit",
"Tests join a thread or two; loss depends on which buffers are being reclaimed while others still hold data.",
["runtime/RuntimeLogger.h","runtime/RuntimeLogger.cc"],
[("flush on destruction","runtime/RuntimeLogger.cc"),("deferred reclamation of exited threads' buffers","runtime/RuntimeLogger.cc")],
observe="log file after the process has terminated",hook="compile-time buffer sizes")
p("P06","Switching log files splits the stream cleanly and each file stands alone",
"After a successful switch to a new log file, everything logged before the switch is in the old file and everything logged after is in the new file, each exactly once and in order. Every file decompresses on its own, including messages of statements first used before the switch. A switch to an unusable path reports an error to the caller and leaves logging to the current file intact.",
["histories","schedules","inputs"],"every sequence of logging, switches to new, existing or unusable files, and thread activity",
"Tests switch once or twice; dictionary and buffer state carried across many switches is not sampled.",
["runtime/RuntimeLogger.cc","runtime/NanoLog.cc","runtime/Log.cc"],
[("log file replacement","runtime/RuntimeLogger.cc"),("dictionary re-emission per file","runtime/RuntimeLogger.cc")],
observe="decompressed contents of each file")
p("P07","Exactly the messages at or above the current log level are recorded",
"A log statement is recorded if and only if, at the moment it executes, its severity is at or above the importance of the current log level; suppressed statements have no effect on the log. The level reported back is the last one set, with out-of-range values clamped to the nearest valid level. This holds for every history of level changes, in both the C++17 and the preprocessor flavour, and recorded messages carry their own severity.",
["histories","inputs"],"every sequence of level changes and log statements of every severity",
"Tests sample a few level/severity pairs in one flavour.",
["runtime/NanoLogCpp17.h","runtime/NanoLog.h","runtime/NanoLog.cc","runtime/RuntimeLogger.cc","preprocessor/FunctionGenerator.py"],
[("severity filter at the log statement","runtime/NanoLogCpp17.h"),("severity filter in generated code","preprocessor/FunctionGenerator.py"),("level clamp","runtime/RuntimeLogger.cc")],
observe="getLogLevel() and the decompressed output")
p("P08","Appending executions to one log file keeps every execution readable",
"When several executions, of the same or of different programs or builds, write one after another to the same log file, decompression yields the messages of all executions, each printed with its own execution's format strings, files, lines, severities and time base, in execution order and with a marker between executions. What an earlier execution wrote is never modified by a later one.",
["histories","programs"],"every sequence of executions with differing statement sets, thread counts and message histories",
"Tests append at most one extra execution of the same program.",
["runtime/Log.cc","runtime/RuntimeLogger.cc"],
[("checkpoint and dictionary reset on a new execution","runtime/Log.cc"),("append-mode log file","runtime/Config.h")],
observe="ordered and unordered decompression of the combined file")
p("P09","Ordered decompression prints all messages of an execution in time order",
"For every log that the background thread can write, ordered decompression prints exactly the same set of messages as unordered decompression, with the messages of each execution in non-decreasing order of the time at which they were logged, provided each message became visible to the output thread at the time it carries. The messages of one thread always keep the order in which that thread logged them.",
["histories","schedules"],"every assignment of messages with timestamps to threads, passes and output extents that the background thread's scan can produce",
"Merging depends on how messages spread over passes and extents; tests build one or two such layouts by hand.",
["runtime/Log.cc"],
[("three-stage merge by timestamp","runtime/Log.cc"),("pass markers on extents","runtime/RuntimeLogger.cc")],
observe="ordered decompression output")
p("P10","Printed timestamps are correct wall-clock times with nanosecond digits",
"Every decoded line starts with a local date and time of fixed format with exactly nine fractional digits, equal to the execution's recorded start time plus the elapsed cycle count divided by the recorded clock rate, within floating-point rounding. This holds for messages logged before or after the recorded start, for any clock rate, and at second boundaries; later cycle counts never print as earlier times.",
["inputs","configurations"],"every message cycle count, start cycle count, start time and clock rate",
"Tests check a couple of hand-picked instants; borrow/carry at second boundaries and negative offsets need targeted values.",
["runtime/Log.cc","runtime/Cycles.cc"],
[("cycle to wall-clock conversion","runtime/Log.cc"),("cycles to seconds","runtime/Cycles.cc")],
observe="timestamp column of decompressed output")
p("P11","A log cut off at any byte still yields everything complete before the cut",
"If a log file is truncated at an arbitrary byte, as after a crash or a full disk, decompression terminates without crashing and prints every message whose output block lies entirely before the cut, unaltered. It never prints a message that was not logged.",
["crash_points","inputs"],"every truncation point of every log file",
"Tests decode complete files only; the number of cut points is the file length.",
["runtime/Log.cc","runtime/LogDecompressor.cc"],
[("extent and dictionary reading with end-of-file handling","runtime/Log.cc")],
observe="exit status and output of both decompression commands on the truncated file")
p("P12","Numbers, pointers and floats survive packing unchanged",
"Packing any integer, pointer or floating-point value of any supported width and unpacking it again gives back the identical value, using no more bytes than the type has and leaving both cursors at the same offset. This holds for any sequence of mixed values packed together with their size nibbles, including the computed end of the packed area.",
["inputs"],"all values of all supported types, all sequences of mixed types",
"Tests pick representative values; boundary and sign cases per byte width and odd/even positions are combinatorial.",
["runtime/Packer.h"],
[("variable-length integer packing","runtime/Packer.h"),("nibble-indexed reader","runtime/Packer.h")],
observe="unpacked values and cursor positions")
p("P13","The per-thread staging queue is a lossless FIFO under every interleaving",
"For every interleaving of one producer reserving and committing records and one consumer peeking and releasing bytes, the consumer sees exactly the committed bytes, in order, each once. Reserved space never overlaps bytes the consumer has not released, a reservation that fits is eventually granted once the consumer drains, and the queue reports itself deletable only when its owner is gone and it is empty.",
["schedules","histories"],"every sequence of record sizes and partial releases, every interleaving at memory-access granularity",
"Unit tests drive the queue from one thread through a few positions.",
["runtime/RuntimeLogger.h","runtime/RuntimeLogger.cc"],
[("reserve / commit / peek / consume","runtime/RuntimeLogger.cc"),("wrap-around marker","runtime/RuntimeLogger.cc")],
state="producer and consumer positions, end-of-recorded-space marker",observe="bytes returned to the consumer",hook="compile-time buffer sizes")
p("P14","Output-buffer boundaries never change, lose or overrun encoded messages",
"For any sequence of messages, statement registrations and output-buffer sizes, encoding reports how much input it accepted, writes only inside the given buffer, and resubmitting the unaccepted remainder into fresh buffers yields output that decodes to exactly the original messages in order. Thread identifiers, pass markers and statement dictionaries survive any such split.",
["inputs","histories"],"every message sequence, thread id, statement set and sequence of output buffer sizes",
"Tests check a few exactly-full buffers; splits interact with message sizes, dictionary entries and headers.",
["runtime/Log.cc","runtime/Log.h"],
[("extent encoding with space checks","runtime/Log.cc"),("incremental dictionary encoding","runtime/Log.cc")],
observe="encoder output buffers and their decoding")
p("P15","The iteration API returns every message's identity, time and raw arguments",
"Iterating over a log returns every message once, in unordered file order, and for each one its statement identifier, its cycle timestamp, the exact number of arguments (dynamic widths and precisions are not counted) and, for each argument, the value that was logged (long doubles excepted). Iteration then reports the end, with an invalid message, and printing while iterating gives the same text as plain decompression.",
["inputs","histories"],"every log and every number and type of arguments, reusing one message object throughout",
"Tests read two or three messages with a few integer arguments; growth beyond inline storage and reuse are not explored.",
["runtime/Log.h","runtime/Log.cc"],
[("message object with growable argument storage","runtime/Log.h"),("iterative decoder","runtime/Log.cc")],
observe="values returned by the iteration API")
p("P16","Preprocessing changes only log statements and keeps program behaviour",
"For every program with log statements anywhere C++ allows a statement, the preprocessed program compiles whenever the original does and behaves as the original apart from logging: every other token, string and line number is preserved, and each logging argument is evaluated exactly once. Every log call in the source is turned into a recorded message; text that merely looks like a log call (in strings, comments, longer identifiers) is left alone.",
["programs"],"every C++ source with log statements in any layout: several per line, spanning lines, in headers, macros, templates, branches without braces",
"The tests compare a handful of fixed sources with stored output.",
["preprocessor/parser.py"],
[("statement and argument scanner","preprocessor/parser.py"),("line-marker preserving code injection","preprocessor/parser.py")],
observe="behaviour and diagnostics of the program compiled from preprocessed source, and its log")
p("P17","Decompressor find, aggregation and latency commands agree with the log",
"For every log, the decompressor's search command lists exactly the statements whose format contains the given text, with their ids, files and lines; its min/max/mean aggregation reports the exact count, minimum, maximum, total and mean over the matching messages; and its inter-log-time command reports a distribution consistent with the logged timestamps. The commands terminate cleanly also when nothing matches.",
["inputs","histories"],"every log, every search text, every statement id, every set of values",
"No test runs these commands with more than one fixed log, if at all.",
["runtime/LogDecompressor.cc","runtime/Log.cc"],
[("search over compiled metadata","runtime/LogDecompressor.cc"),("aggregation over iterated messages","runtime/LogDecompressor.cc")],
observe="standard output and exit status of the decompressor")
p("P18","Combining source files gives each statement one consistent identity",
"For any set of preprocessed source files, including statements in shared headers, equal statements in different files and several statements on one line, the combined build links, gives every distinct statement its own identity, and decodes every message with its own format, file, line and severity. The result does not depend on the order in which the files are processed or combined.",
["programs","histories"],"every set of source files, every processing and combination order",
"Tests combine one or two fixed files in one order.",
["preprocessor/FunctionGenerator.py","preprocessor/parser.py"],
[("statement naming","preprocessor/FunctionGenerator.py"),("merging of per-file metadata","preprocessor/FunctionGenerator.py")],
observe="linked program's log and the generated metadata")
p("P19","Every part of the system reads a format string the same way",
"For every format string, the compile-time analysis, the preprocessor's parser and the decompressor agree with printf on how many arguments there are, which are dynamic widths or precisions, which are strings, and what precision limits them. Formats that are not supported (such as %n or unknown conversions) are rejected before any message is logged, never mis-decoded.",
["inputs"],"every string over the printf grammar and its near misses",
"Three independent hand-written parsers exist; tests compare each to a few examples and never to each other.",
["runtime/NanoLogCpp17.h","runtime/Log.cc","preprocessor/FunctionGenerator.py"],
[("compile-time analysis","runtime/NanoLogCpp17.h"),("decoder format splitting","runtime/Log.cc"),("preprocessor format splitting","preprocessor/FunctionGenerator.py")],
observe="analysis results and decoded argument structure")
p("P20","Runtime statistics equal what was actually logged and written",
"After a sync, the reported number of events equals the number of messages recorded since start, and the reported output byte count equals the number of bytes written to the log files, for any history of threads, message sizes, level changes and file switches. The per-thread allocation counts reported equal the messages logged by that thread.",
["histories","schedules"],"every history of logging, syncing and file switching",
"Tests only check the shape of the statistics text.",
["runtime/RuntimeLogger.cc","runtime/Log.cc"],
[("event and byte counters","runtime/RuntimeLogger.cc")],
observe="getStats() and getHistograms() text against the log files")
p("P21","Time traces print the most recent events of all threads in time order",
"A time trace prints, in non-decreasing time order and formatted exactly as printf would, the most recent events recorded by each thread since the last reset, starting at the latest of the oldest events still retained by each thread. Elapsed times shown equal the differences of the recorded cycle counts converted at the clock rate. Wrap-around of a thread's trace never mixes in stale or reset events, and events recorded while a trace is being printed neither appear in it nor disturb it.",
["histories","inputs"],"every history of records, resets and prints over any number of buffers",
"There are no tests of this component in the repository's stable suite.",
["runtime/TimeTrace.cc","runtime/TimeTrace.h"],
[("circular per-thread buffers","runtime/TimeTrace.cc"),("merge and print","runtime/TimeTrace.cc")],
observe="trace text")
p("P22","Cycle/time conversions are mutually consistent for any clock rate",
"Converting cycle counts to seconds, nanoseconds or microseconds and back agrees with exact arithmetic within rounding for every count and clock rate, is monotonic, and uses the caller's clock rate whenever one is given. The measured clock rate is positive and matches wall-clock time, and a busy wait lasts at least the time requested.",
["inputs","configurations"],"every cycle count, duration and clock rate",
"Tests cover no conversion with an explicit clock rate.",
["runtime/Cycles.cc","runtime/Cycles.h"],
[("conversions","runtime/Cycles.cc"),("calibration","runtime/Cycles.cc")],
observe="returned values")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
