import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

CMD='internal/cmd/subcommands.go'
add('C01','The object histogram is exact for every class and array type',
 "For every well-formed heap dump, `objects` lists every class that has instances and every array type that occurs, one row per class or array type and no other rows. Each row's count is the exact number of such objects in the dump and its size is their exact total shallow size (instances x the instance size declared by the class; elements x element width for arrays, references counted at the dump's identifier size), shown in B/K/M/G rounded down. The `Instances` and `Total Size` headers are the sums over all rows.",
 ['inputs'],'every well-formed dump: any mix of classes, same-named classes of different loaders, object and primitive arrays, empty arrays, nested array types, any segmentation, 4- or 8-byte identifiers, totals far beyond 2^32',
 "No test runs the counting pipeline end to end (internal/objects has no tests); the storage test adds five headers. Wrong sums appear only for particular mixes of types, class identities and magnitudes.",
 ['internal/objects/objects.go','internal/storage/meta.go','internal/dump/parser.go','internal/core/sizes.go','internal/format/format.go'],
 [('per-type counters filled during parsing','internal/storage/meta.go AddInstance'),('size multiplication and totals','internal/objects/objects.go GetObjects'),('unit rounding','internal/format/format.go Size')],
 ['stdout of neojhat objects --no-color'],[('Counters','per class / element type counts of objects and elements','internal/storage/meta.go')])
add('C02','Every dumped object is found by its identifier, exactly and anywhere',
 "For every well-formed dump whose objects appear in ascending identifier order, looking up any instance, object array or primitive array by its identifier through the index yields exactly that object's header and contents, however many objects precede it and wherever it lies in the file (beyond 4 GiB included). An identifier that no such object has yields a not-found error, never another object.",
 ['inputs'],'all identifier sets (dense, sparse, near 0, above 2^63, 32-bit), all object counts around and far beyond the index write batch, all file offsets',
 "The tests store at most 1000 dense keys 0..999 with one batch size, and look up one object per kind at a three-digit offset.",
 ['internal/storage/index.go','internal/storage/big.go','internal/dump/parser.go','internal/dump/parsed_accessor.go','internal/core/sizes.go'],
 [('batched write of sorted (id, offset) pairs','internal/storage/index.go Put/Close'),('binary search','internal/storage/index.go Get'),('position accounting while parsing','internal/dump/parser.go'),('seek and parse on demand','internal/dump/parsed_accessor.go')],
 ['dump.ParsedAccessor lookups','types of locals in neojhat threads --local-vars'],[('pos','byte position of the parser in the dump','internal/dump/parser.go'),('index files','sorted 16-byte key/offset records','<dump>.db/*.idx.bin')])
add('C03','Strings, classes, frames, traces and roots survive indexing unchanged',
 "For every well-formed dump, each UTF-8 string, class load, stack frame, stack trace, class dump (constants, static and instance fields of all Java types included) and GC root of the five supported kinds (JNI global, JNI local, Java frame, sticky class, thread object) of the dump can be read back from the saved index exactly as it was written in the dump (any NaN as a NaN), in the same order where order is meaningful. The identifier size and the dump's timestamp survive too.",
 ['inputs'],'all record contents: every Java type and value (NaN, negative, extreme), empty and very long strings, any bytes, 4- and 8-byte identifiers, zero to tens of thousands of records and fields, records saved and restored through files',
 "The tests decode one hand-written instance of each record and round-trip one value; field width, order, sign and zero-value problems need other values.",
 ['internal/core/base_parsers.go','internal/core/primitive_parsers.go','internal/core/file_header_parser.go','internal/storage/small.go','internal/dump/parser.go'],
 [('record decoders','internal/core/base_parsers.go'),('gob save/restore','internal/storage/small.go SerializeTo/RestoreFrom')],
 ['storage.SmallRecordsReadStorage getters after SerializeTo/RestoreFrom'])
add('C04','The thread dump shows every thread and its stack faithfully',
 "For every well-formed dump of a JVM with the JDK 9-18 java.lang.Thread layout, `threads` prints each thread GC root exactly once, in ascending thread-id order, with the name, id, priority, daemon flag and status held in the fields declared by java.lang.Thread itself (even when a subclass declares fields of the same names). Status is RUNNABLE, BLOCKED, WAITING, TIMED_WAITING, TERMINATED or NEW according to java.lang.Thread.getState() for that status word (0, a thread not started yet, is NEW). Under it the frames of that thread's stack trace appear in order, each with return type, class, method, argument types and `file:line`, `file:NativeMethod`, `file:CompiledMethod`, `file` alone for an unknown line, or nothing for an unknown file.",
 ['inputs'],'all dumps with any number of threads, stacks of any depth, shared frames, thread subclasses, any ids, priorities, status words HotSpot sets, daemon flags, line-number codes and names',
 "internal/threads has no tests at all; the output tests print two fixed frames of one hand-made thread.",
 ['internal/threads/threads.go','internal/threads/models.go','internal/output/threads.go','internal/core/types.go','internal/java/heap.go'],
 [('collection of threads, traces, frames','internal/threads/threads.go GetThreadDump'),('status mapping','internal/threads/models.go ThreadStatus.String'),('sorting and printing','internal/output/threads.go')],
 ['stdout of neojhat threads --no-color'])
add('C05','Local variables are listed under exactly the frame that holds them',
 "With --local-vars every JNI-local and Java-frame GC root whose thread serial and frame number denote a printed frame is listed exactly once, under that frame of that thread and no other, JNI locals before Java locals and otherwise in dump order. It is shown by the type of the object it refers to: the class of an instance, the element type and dimensions of an array, or `class X` when it refers to the class X itself. Without --local-vars no locals are shown.",
 ['inputs','configurations'],'all assignments of local roots to threads and frames (including roots of frameless threads), all kinds of referenced objects, plain and HTML output',
 "No test covers the matching of roots to threads and frames; the printer is tested with two hand-made locals.",
 ['internal/threads/threads.go','internal/output/threads.go','internal/output/templates/threads.html'],
 [('nested map thread serial -> frame position -> locals','internal/threads/threads.go'),('type lookup through the indexes','internal/threads/threads.go readObjectName')],
 ['stdout of neojhat threads --local-vars (plain and html)'])
add('C06','summary reports every system property, completely and correctly',
 "For every well-formed dump of a JDK 9+ JVM, `summary --all-props` lists every key/value pair held by java.lang.System's properties exactly once, sorted by key, with the full value (surrounding white space aside), including pairs whose keys collide in the same hash bin. The Environment section shows os.arch, os.name, java.home, java.version, java.vm.vendor and `java.vm.name (java.vm.version, java.vm.info)` of those properties. Without --all-props there is no Properties section.",
 ['inputs','configurations'],'all property sets: any number of entries, any bin layout (empty bins, chains, tree bins), any Unicode keys and values, any identifier size',
 "internal/summary has no tests; the output test prints one hand-made property.",
 ['internal/summary/summary.go','internal/java/heap.go','internal/output/summary.go'],
 [('walk System.props -> map -> table -> nodes','internal/summary/summary.go getAllProps'),('environment selection','internal/summary/summary.go getEnv')],
 ['stdout of neojhat summary [--all-props]'])
add('C07','summary heap statistics and uptime are exact',
 "For every well-formed dump, `summary` reports as Classes the number of distinct loaded classes, as GC Roots the number of GC-root records in the dump, as Instances the number of objects and arrays, as Heap Size their total shallow size, the last two equal to the totals that `objects` reports for the same dump. JVM Uptime is exactly the dump's timestamp minus the start time recorded by the JVM's runtime bean.",
 ['inputs'],'all dumps: all root kinds in any proportion, repeated class loads, any sizes, any 64-bit millisecond timestamps up to the year 2200, start times before or after 2^32 ms boundaries',
 "internal/summary has no tests.",
 ['internal/summary/summary.go','internal/storage/meta.go','internal/core/file_header_parser.go'],
 [('counting and sizing','internal/summary/summary.go getHeap'),('uptime','internal/summary/summary.go getSystem, getJvmStartTime'),('timestamp words','internal/core/file_header_parser.go')],
 ['stdout of neojhat summary'])
add('C08','A field read from an object is that field of the right class, bit-exact',
 "For every object and class hierarchy in a well-formed dump, reading an instance field by name yields the exact value stored for the most derived class in the object's hierarchy that declares the field, and names that class; a name nobody in the hierarchy declares yields an error. Class descriptions list the class's own static and instance fields with names, types and values (any NaN as a NaN) in dump order, and the full chain of superclasses.",
 ['inputs'],'all hierarchies (depth, number of fields, all nine Java types, same names at several levels), all payload bytes, 4- and 8-byte identifiers',
 "The tests read three int fields of one three-level hierarchy with 8-byte identifiers.",
 ['internal/java/heap.go','internal/java/models.go','internal/core/primitive_parsers.go','internal/core/sizes.go'],
 [('offset accumulation over the hierarchy','internal/java/heap.go GetFieldValueByName/findField'),('class linking','internal/java/heap.go ParseClass')],
 ['java.Heap.ParseNormalObject/ParseClass/GetFieldValueByName'])
add('C09','Java strings are shown as the text they hold',
 "Every java.lang.String of a JDK 9+ dump is decoded to the same text it has in Java: Latin-1 strings (coder 0) byte by byte as U+0000-U+00FF, UTF-16 strings (coder 1, little-endian) as UTF-16 including surrogate pairs, whatever the string's length and wherever its fields and array lie. Output is always valid UTF-8 for such strings.",
 ['inputs'],'all strings: empty, long, Latin-1 with high bytes, BMP, supplementary characters, compact strings disabled, any declaration order of the String fields',
 "The only test decodes the ASCII string 'java'.",
 ['internal/java/heap.go'],[('string decoding','internal/java/heap.go ParseJavaString, parseByteArrayFull')],
 ['thread names and property values in the reports','java.Heap.ParseJavaString'])
add('C10','Every JVM type descriptor is rendered as its Java source form',
 "For every valid JVM method descriptor, the frame line shows exactly its parameter types, in order and separated by `, `, and its return type, in Java source form (primitives by name, classes dotted, one `[]` per array dimension). The same holds for array class names in the histogram and in local variables, and class names are shown with `/` replaced by `.`; class names may contain any character the JVM allows in them.",
 ['inputs'],'the whole descriptor grammar: any number of parameters, any nesting of array dimensions, class names containing L, V, primitives letters, digits, $, parentheses, spaces, non-ASCII letters',
 "The unit test tries five descriptors.",
 ['internal/format/format.go','internal/output/threads.go','internal/objects/objects.go'],
 [('descriptor scanner','internal/format/format.go Signature'),('class names','internal/format/format.go ClassName')],
 ['frame and local lines of neojhat threads','rows of neojhat objects'])
add('C11','The objects table is sorted as asked, aligned and deterministic',
 "Rows of `objects` are in descending order of count by default or of size with --sort-by size (the sorted column is marked with an arrow), ties broken by name in ascending order, and the same dump always yields byte-identical output. Every row shows `count (p%)` and `size (p%)` where p is the row's share of the total rounded down, and all rows, header included, have their column separators at the same character positions.",
 ['inputs','configurations'],'all dumps, including equal counts, equal sizes, same-named classes, non-ASCII names, all-zero sizes and a single row; both sort orders',
 "One golden file with five already sorted rows; map iteration order makes ties a per-run matter.",
 ['internal/output/objects.go','internal/objects/objects.go','internal/objects/models.go','internal/format/format.go'],
 [('sorting and percentages','internal/output/objects.go getPrintItems'),('column widths','internal/output/objects.go print')],
 ['stdout of neojhat objects with --sort-by count/size'])
add('C12','HTML reports carry the same facts and never let dump data become markup',
 "For every dump and command, the page printed by --output html contains the same rows, threads, frames, locals, properties and values, in the same order, as the plain report of the same dump and options. Any character sequence coming from the dump (class, method, file and thread names, property keys and values) appears in the page as inert text: it can neither open nor close an element, nor alter the structure of the page. The page is self-contained: it runs no scripts and loads nothing from elsewhere.",
 ['inputs','configurations'],'all dumps with hostile strings (tags, quotes, entities, script and comment closers, template syntax) in every string position; all three commands and their options',
 "Golden HTML files contain only harmless names.",
 ['internal/output/objects.go','internal/output/summary.go','internal/output/threads.go','internal/output/html.go','internal/output/templates/core.html','internal/output/templates/objects.html','internal/output/templates/summary.html','internal/output/templates/threads.html'],
 [('auto-escaping templates','internal/output/*.go, internal/output/templates/*.html')],
 ['stdout of neojhat ... --output html'])
add('C13','Colour changes nothing but colour',
 "For every dump and command, the default coloured plain report with its ANSI SGR sequences removed equals the --no-color report of the same dump and options, up to leading indentation; with --no-color the report itself adds no escape sequences. Each coloured span is closed on its own line (line breaks inside the dump's own strings aside).",
 ['inputs','configurations'],'all dumps, all three commands, all option combinations',
 "No test exercises the coloured printers.",
 ['internal/output/colors.go','internal/output/objects.go','internal/output/summary.go','internal/output/threads.go',CMD],
 [('separate colour printers','internal/output/threads.go ThreadsPlainColor; colour functions passed to print/printSummary')],
 ['stdout with and without --no-color'])
add('C14','Reusing the index never changes a report; the dump is never touched',
 "In any sequence of threads, summary and objects commands with any options on an unchanged dump, each report is byte-identical to the one produced by the same command on a fresh copy without an index. No command ever modifies the dump file, and nothing is created, changed or removed outside `<dump>.db`.",
 ['histories','configurations'],'all sequences of commands and options, starting with any of them, index present or absent, relative or absolute paths',
 "internal/cmd has no tests; no test ever runs two commands on one dump.",
 [CMD,'cmd/neojhat/main.go','internal/storage/small.go','internal/storage/meta.go','internal/storage/big.go'],
 [('index creation on first use, reuse afterwards',CMD+' ParseHprof'),('save and restore of small records and counters','internal/storage/small.go, meta.go')],
 ['stdout, exit status, directory tree and content hashes around each run'],[('<dump>.db','saved index',CMD)])
add('C15','An interrupted or failed analysis never spoils later ones',
 "Whenever an analysis is killed or fails at any point while it builds the index, every later command on the (intact, complete) dump either produces exactly the right report or, if it too is interrupted, fails; it never reports wrong or partial data and is not left permanently unable to analyse the dump. The same holds when the dump was first incomplete or invalid and has since been replaced by a valid one.",
 ['crash_points','fault_sequences','histories'],'every file-system operation of index creation as a kill point, every prefix length of each index file, repeated kills, and every parse failure, followed by any command',
 "No test runs the index-creating command, let alone interrupts it.",
 [CMD,'internal/storage/index.go','internal/storage/small.go','internal/storage/meta.go'],
 [('index files written one after another into <dump>.db',CMD+' ParseHprof')],
 ['state of <dump>.db after a kill','exit status and stdout of the following runs'])
add('C16','A truncated dump is always reported as an error',
 "If a heap dump is cut off at any byte before the end of its heap-dump-end record, every command fails: it exits with a non-zero status and an error message, and prints no report. This holds on the first run and on every later run on the truncated file.",
 ['inputs','histories'],'every prefix of every well-formed dump',
 "The tests feed each decoder one too-short input; none truncates a whole dump.",
 ['internal/dump/parser.go','internal/core/base_parsers.go','internal/core/primitive_parsers.go',CMD],
 [('short reads are errors','internal/core/primitive_parsers.go (io.ReadFull, binary.Read)'),('skips that must succeed','internal/dump/parser.go skip')],
 ['exit status and stdout'])
add('C17','Unsupported or anomalous dumps are refused, never silently misread',
 "A file whose header is not `JAVA PROFILE 1.0.2`, whose identifier size is neither 4 nor 8, that contains a top-level record or heap sub-record of an unknown kind, or in which the objects of one kind (instances, object arrays, primitive arrays) are not in ascending identifier order, is refused with an error and non-zero exit status and no report is printed. GC-root sub-record kinds that the HPROF format defines are accepted and counted as GC roots.",
 ['inputs'],'all positions of the anomaly in otherwise well-formed dumps; all 256 tags and sub-tags; any header bytes and identifier sizes',
 "The tests check one bad header and one backward key; nothing places an anomaly inside a dump.",
 ['internal/dump/parser.go','internal/core/file_header_parser.go','internal/core/tags.go','internal/storage/index.go'],
 [('version and tag checks','internal/dump/parser.go ParseHeapDump'),('monotonic key check','internal/storage/index.go Put'),('identifier size check','internal/core/primitive_parsers.go ParseIdentifier')],
 ['exit status and stdout'])
add('C18','No input makes the tool crash, hang or exhaust memory',
 "For every sequence of bytes given as a dump, every command terminates promptly with either a report (status 0) or an error message (status 1); it never panics, overflows the stack, aborts, or allocates memory out of proportion to the size of the file, of the report and of the objects it has to read for it, whatever lengths, counts, types and references the file claims.",
 ['inputs','configurations'],'all byte strings: mutated, spliced and random dumps, lying lengths and counts, dangling, cyclic and mistyped references, empty files, with the interactive display on or off',
 "The tests only use valid records and short reads.",
 ['internal/core/base_parsers.go','internal/core/primitive_parsers.go','internal/core/sizes.go','internal/dump/parser.go','internal/java/heap.go','internal/output/objects.go','internal/cmd/interactive_print.go'],
 [('error returns in all decoders','internal/core/*.go'),('type sizes','internal/core/sizes.go OfType')],
 ['exit status, stderr, peak memory and run time of the process'])
add('C19','The progress display is race-free and never affects the report',
 "Running with the interactive progress display (the default) yields exactly the same standard output and exit status as --non-interactive, under every scheduling of the display and the parser, without data races between them. The progress shown is always between 0% and 100%, and after a complete parse the parser's position equals the number of bytes of the dump it has consumed.",
 ['schedules','inputs','configurations'],'all interleavings of the progress goroutine with parsing, for dumps of any size and for failing parses',
 "No test runs the display; no test uses the race detector; position is checked on one 487-byte dump.",
 ['internal/cmd/interactive_print.go','internal/dump/parser.go',CMD],
 [('polling of the parser position','internal/cmd/interactive_print.go interactive/progressBar'),('position accounting','internal/dump/parser.go GetPosition')],
 ['race detector reports','stdout, stderr and exit status with and without --non-interactive'],[('pos','position shared by parser and display','internal/dump/parser.go')])
add('C20','Memory use does not grow with the heap being analysed',
 "The peak memory of every command is bounded by the size of the dump's symbol data (strings, classes, frames, traces, roots) and of the texts it prints, plus a constant: neither the number of instances and arrays nor the bytes of their contents increase it, so dumps far larger than RAM can be analysed.",
 ['inputs'],'all dumps, with heap contents from kilobytes to gigabytes and from a few to millions of objects',
 "Unit tests use dumps of a few hundred bytes.",
 ['internal/dump/parser.go','internal/storage/index.go','internal/storage/big.go','internal/dump/parsed_accessor.go'],
 [('payloads are skipped','internal/dump/parser.go skip'),('index written in batches','internal/storage/index.go Put'),('lookups by ReadAt','internal/storage/index.go Get')],
 ['peak resident memory (ru_maxrss) of the process'])
add('C21','Reports depend only on the content of the dump, not on its encoding',
 "Two dumps of the same logical heap yield the same reports when they differ only in how heap records are split into segments, in the order of top-level records (strings, class loads, frames and traces may also follow heap segments), in how sub-records of different kinds interleave, in the values of string identifiers and serials, in time stamps of records, or in an order-preserving renaming of object identifiers. They also yield the same reports with 4- and 8-byte identifiers, except for the sizes of reference arrays.",
 ['inputs'],'all pairs of encodings of all logical heaps',
 "Tests parse single fixed byte strings.",
 ['internal/dump/parser.go','internal/core/primitive_parsers.go','internal/core/sizes.go','internal/storage/small.go'],
 [('segment loop','internal/dump/parser.go ParseHeapDump'),('identifier width','internal/core/primitive_parsers.go ParseIdentifier')],
 ['stdout of all three commands on re-encoded dumps'])
add('C22','Failures to write the index are reported, never swallowed',
 "If any write, close or creation of an index file fails while a dump is being indexed (for example because the disk is full), the command exits with a non-zero status and an error message and prints no report. Once space is available again the same command succeeds with the right report.",
 ['fault_sequences'],'every position and kind of failing file operation during indexing',
 "Tests write to memory buffers that never fail.",
 ['internal/storage/index.go','internal/storage/big.go','internal/storage/small.go','internal/storage/meta.go','internal/dump/parser.go',CMD],
 [('error propagation from the index writers','internal/storage/index.go Put/Write/Close'),('closing of the indexes after parsing','internal/dump/parser.go ParseHeapDump')],
 ['result of Parser.ParseHeapDump with failing writers','exit status of the command on a full file system'])
add('C23','Concurrent analyses of one dump do not corrupt each other',
 "When several commands run at the same time on the same dump, with no index or an existing one, each of them either prints exactly the report it would print alone or fails with an error and no report. Once they have all ended, every command on the dump prints the right report.",
 ['schedules','histories'],'all interleavings of two or more concurrent commands of any kind, with and without an index',
 "No test runs commands, let alone concurrently.",
 [CMD],[('creation of <dump>.db and its files',CMD+' ParseHprof')],
 ['stdout and exit status of each process'])
add('C24','The command line honours every option and rejects what it does not know',
 "Every documented option of threads, summary and objects takes effect exactly as documented and independently of the order and spelling (-x, --x, --x=value) of the others, with plain, count-sorted, coloured output as defaults. An unknown option, an unknown value for --output or --sort-by, or an unreadable dump file leads to a non-zero exit status and a message, no report, and no file or directory created. --help, or leaving out the command or --hprof, prints the usage with every documented option and no report.",
 ['configurations'],'all combinations, orders and spellings of options for all commands; all invalid values',
 "internal/cmd and cmd/neojhat have no tests.",
 ['cmd/neojhat/main.go','internal/cmd/flags.go',CMD,'internal/objects/models.go'],
 [('flag sets and value parsers','internal/cmd/flags.go'),('dispatch','cmd/neojhat/main.go')],
 ['stdout, exit status and directory contents'])
add('C25','A report always describes the current content of the dump file',
 "When a dump file is replaced or rewritten with different content under the same name (so that its size, modification time or header differs) after it has been analysed, later commands report on the new content, never on the old one and never on a mixture.",
 ['histories'],'all sequences of analyses and replacements of a dump (larger, smaller or same size; newer or older modification time)',
 "No test runs two analyses of one path.",
 [CMD],[('decision to reuse <dump>.db',CMD+' ParseHprof')],
 ['stdout after replacing the dump'])
add('C26','A failure to read the dump or its index never yields a wrong report',
 "Whenever opening, measuring, positioning or reading the dump or a file of its index fails while a command runs (for good or for a moment, with or without an existing index), or such a file ends earlier than it should, the command either fails with a non-zero exit status and a message and prints no report, or prints exactly the right report. Reads that deliver fewer bytes than asked for, or are interrupted by signals, change nothing. When the fault is gone every command prints the right report.",
 ['fault_sequences'],'every position, duration and kind of failing, short or interrupted read of the dump and of each index file, in first and later runs of all commands',
 "Tests read from memory, where reads never fail and are never short.",
 ['internal/dump/parser.go','internal/dump/parsed_accessor.go','internal/storage/index.go','internal/storage/small.go','internal/storage/meta.go','internal/core/primitive_parsers.go','internal/core/base_parsers.go','internal/java/heap.go','internal/summary/summary.go','internal/threads/threads.go',CMD],
 [('end of input told from failures','internal/dump/parser.go ParseHeapDump'),('lookup errors','internal/storage/index.go Get'),('seek and read on demand','internal/dump/parsed_accessor.go'),('restoring of the saved records','internal/storage/small.go RestoreFrom, internal/storage/meta.go RestoreFrom')],
 ['stdout and exit status under injected read faults'])
add('C27','Reports depend only on the content of the dump and the options',
 "The standard output of a successful command is a function of the bytes of the dump and the options alone. It is byte for byte the same when the command is repeated, in every time zone, locale and terminal and with any other environment variables, from any working directory, whatever the spelling of the dump's path (relative, absolute, through links, with any characters), its permissions, owner and times, umask, the user, the number of processors and settings of the garbage collector, and the kind of standard input, output and error (file, pipe, socket, terminal, closed input). It is also the same after the dump was moved or copied together with its index, and when the dump and an existing index can only be read.",
 ['configurations','inputs','histories'],'all environments, paths and kinds of standard streams, for all dumps and options',
 "Tests call functions on in-memory values in one environment; no test runs a command.",
 ['cmd/neojhat/main.go',CMD,'internal/cmd/flags.go','internal/output/summary.go','internal/output/threads.go','internal/output/objects.go','internal/summary/summary.go','internal/format/format.go'],
 [('times and durations of the summary','internal/summary/summary.go'),('place of the index',CMD+' ParseHprof'),('choice of colours',CMD+' GetThreads, GetSummary, GetObjects')],
 ['stdout in varied environments compared byte by byte'])
add('C28','A report is printed in full, or the command fails',
 "A command ends with status 0 only if it has written every byte of its report to standard output. If a write to standard output fails (full disk, input/output error, quota, reader that closed the pipe) at any point of the report, plain, coloured or HTML, the command ends with a non-zero status or is ended by SIGPIPE. Writes that accept fewer bytes than offered or are interrupted, slow readers and non-blocking pipes and sockets lose or repeat nothing. The index stays usable in all cases.",
 ['fault_sequences'],'every position and kind of failing, short or interrupted write of every report; readers of any speed that stop at any point',
 "Tests print into memory buffers, where writes never fail.",
 ['internal/output/threads.go','internal/output/summary.go','internal/output/objects.go',CMD,'cmd/neojhat/main.go'],
 [('errors of the printers','internal/output/*.go'),('exit status','cmd/neojhat/main.go')],
 ['bytes received from standard output and exit status under injected write faults'])
add('C29','Nothing but one complete index is left beside the dump',
 "A command that ends by itself, with a report or with an error (refused dumps, failing file operations, full disks included), leaves in <dump>.db no other files than those a plain successful analysis leaves, and nothing anywhere else (next to the dump, in the temporary, home or working directory). What killed commands left in <dump>.db is removed by the next command that prints a report once it is more than a day old, so interrupted analyses do not fill the disk. Files in <dump>.db that the tool did not create are left as they are.",
 ['histories','fault_sequences','crash_points'],'all histories of successful, refused, failing and killed commands on a dump',
 "No test creates an index directory.",
 [CMD,'internal/storage/index.go','internal/storage/big.go'],
 [('temporary files of the index and their removal',CMD+' ParseHprof')],
 ['names of all files after each command'])
add('C30','A dump is analysed only once',
 "Once a command has analysed a dump and ended with a report, later commands on the unchanged dump reuse its index: they create, rewrite and remove no file of <dump>.db (leftovers of killed commands aside), and the amount of data they read from the dump and the index does not grow with the number or the contents of objects that the report does not show (searching the index aside). This holds for later commands of any kind, with any options, in any order, after refused, failing, killed or concurrent later commands, and after the dump was moved or copied together with its index and with its modification time, or its permissions, owner or links were changed.",
 ['histories','configurations'],'all sequences of commands, options and changes that keep the content, size and modification time of the dump',
 "No test runs two commands on a dump or looks at what a command reads or writes.",
 [CMD,'internal/dump/parsed_accessor.go','internal/storage/index.go','internal/storage/small.go','internal/storage/meta.go','internal/java/heap.go'],
 [('decision to reuse <dump>.db',CMD+' ParseHprof'),('seek and read on demand','internal/dump/parsed_accessor.go'),('binary search in the index','internal/storage/index.go Get')],
 ['inode, times and content of the files of <dump>.db','system calls that read the dump and the index'])
add('C31','Work and index size grow in proportion to the dump',
 "The processor time of every command and the size of the index grow (almost) in proportion to the size of the dump, whatever the dump has much of: objects, arrays, array elements, classes, fields, constants, strings, long strings, roots of any kind, stack traces, frames, threads, locals, properties, colliding properties, segments, or long names and descriptors. The index takes a bounded number of bytes per object (about 16) besides the records that are no objects.",
 ['inputs'],'all well-formed dumps of any size',
 "Tests parse dumps of some records, on which quadratic work takes no time.",
 ['internal/dump/parser.go','internal/dump/parsed_accessor.go','internal/storage/index.go','internal/storage/big.go','internal/storage/small.go','internal/java/heap.go','internal/threads/threads.go','internal/summary/summary.go','internal/objects/objects.go','internal/output/threads.go'],
 [('index batches and their merge','internal/storage/index.go'),('maps of records','internal/storage/small.go'),('field and class lookup','internal/java/heap.go'),('per-thread lookup of roots and frames','internal/threads/threads.go')],
 ['user and system time of the command on dumps of different size','size of the files of <dump>.db'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P))
