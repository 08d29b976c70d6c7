"""The properties, and which workload/monitor sections decide each.  tools/gen.py writes properties.jsonl and MANIFEST.json from this."""

PROPS = []

MODEL = "sanitized differential monitoring against a reference model"


def prop(id, title, statement, over, text, why, files, mechanism, units, rule, technique=MODEL, level="exploration",
         note=None, observe=None, state=None, assumptions=None, **kw):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
        units=units, rule=rule, technique=technique, level=level,
        note=note or "Bounded randomised exploration under ASan+UBSan: a pass means no violation on the generated executions; not a proof.",
        observe=observe or [], state=state or [], assumptions=assumptions or [], **kw))


def u(harness, section, count, **kw):
    return dict(harness=harness, section=section, count=count, **kw)


INC = "inc/vita/"
SRC = "src/vita/"

MEM = {"VERIF_ONLY": "memory"}

prop("P01", "A vector always behaves as the sequence its operations describe",
     "After any sequence of creating, pushing, inserting, setting, removing (order-preserving or swap-with-last), popping, reserving, resizing, shrinking, clearing, "
     "duplicating and searching, a vector holds exactly the elements an ideal sequence would hold, in that order, bit for bit, and reports that length. "
     "Its capacity never falls below its length, spare capacity it reports is usable without reallocation, and growth never loses or duplicates an element. "
     "The typed accessors for every supported element type agree with the untyped ones.",
     ["inputs", "histories"], "every sequence of vector operations with valid arguments, every element size, every element type, and every allocator choice",
     "The unit test runs one fixed script on int32 elements; it cannot reach other element sizes, growth boundaries at arbitrary positions, or long mixed histories.",
     [SRC + "container/vec.c", SRC + "container/common.c", INC + "container/vec.h"],
     [dict(name="growth, shifting on insert/remove, typed wrappers", where="src/vita/container/vec.c")],
     [u("h_cont", "vec", 24000), u("h_cont", "vec_typed", 9000), u("h_cont", "vec_big", 800), u("h_cont", "vec_vast", 28, serial=True), u("h_cont", "vec", 800, flavour="gcc-o2"), u("h_cont", "vec", 20000, flavour="msan", thorough_only=True)],
     "random operation histories over element sizes 1..2000 and three allocators, plus lengths and positions around 2^8 and 2^16 and storage beyond 4 GiB; after every operation the whole contents, length and capacity relations are compared with a model; distinct = distinct (contents, capacity) states observed")

prop("P02", "A pointer list always behaves as the sequence its operations describe",
     "After any sequence of creating, pushing, inserting, setting, removing by position or by element, popping, reserving, resizing, shrinking, clearing, duplicating and searching, "
     "a pointer list holds exactly the pointers an ideal sequence would hold, in that order, and reports that length; popping an empty list yields nothing. "
     "The list never dereferences, changes or frees what the pointers refer to.",
     ["inputs", "histories"], "every sequence of pointer-list operations with valid arguments and every allocator choice",
     "The unit test is one fixed script with a few elements; it does not explore growth boundaries, removals at the ends, or mixed histories.",
     [SRC + "container/plist.c", INC + "container/plist.h"],
     [dict(name="growth, shifting on insert/remove", where="src/vita/container/plist.c")],
     [u("h_cont", "plist", 30000), u("h_cont", "plist_big", 400), u("h_cont", "plist_vast", 12, serial=True), u("h_cont", "plist", 800, flavour="gcc-o2"), u("h_cont", "plist", 20000, flavour="msan", thorough_only=True)],
     "random operation histories over three allocators; after every operation the whole contents and length are compared with a model; elements are poisoned addresses so that any dereference faults; distinct = distinct (contents, capacity) states observed")

prop("P03", "String edits produce exactly the text they describe, always terminated",
     "After any sequence of creating, setting, appending, inserting (including at the very end), removing, resizing, reserving, shrinking, clearing and duplicating, "
     "a string's text equals the text an ideal string would have, its reported length equals that text's length, and the text is terminated inside the string's own storage. "
     "Empty texts are ordinary values, and spare capacity a string reports is usable without reallocation.",
     ["inputs", "histories"], "every sequence of editing operations with valid positions, every text including empty and non-ASCII, every allocator choice",
     "The unit test edits a handful of short ASCII literals in one order; off-by-one growth, terminator placement and empty operands at arbitrary states are not reached.",
     [SRC + "container/str.c", INC + "container/str.h"],
     [dict(name="editing functions and terminator maintenance", where="src/vita/container/str.c")],
     [u("h_str", "edit", 40000), u("h_str", "str_big", 1200), u("h_str", "edit", 1000, flavour="gcc-o2"), u("h_str", "edit", 20000, flavour="msan", thorough_only=True), u("h_str", "edit_vast", 1, flavour="o2", serial=True, fixed=True, thorough_only=True, case_s=600)],
     "random editing histories over random texts and three allocators; text, length, terminator and capacity compared with a model after every operation; distinct = distinct (text, capacity) states")

prop("P04", "String search, replacement, stripping and comparison match their definitions",
     "For every text and argument, searching, counting, locating, prefix/suffix and equality tests, removal and replacement of first, last or all occurrences or of single characters, stripping, "
     "case conversion, numeric tests and insertion before or after a substring give the result of their definition computed on the text, and report not-found as documented. "
     "They always terminate and leave the string a correctly terminated text whose length matches, including when the text is empty, nothing matches, everything matches, or the replacement contains the searched text.",
     ["inputs"], "every text (empty, all-matching, non-ASCII, overlapping occurrences) and every needle, replacement and character set within the documented argument rules",
     "The tests check one or two literals per function; absent, leading, trailing, adjacent, overlapping and empty matches combine without bound.",
     [SRC + "container/str.c", INC + "container/str.h"],
     [dict(name="find/remove/replace/strip/compare family", where="src/vita/container/str.c")],
     [u("h_str", "query", 60000), u("h_str", "str_big", 600), u("h_str", "query", 1500, flavour="gcc-o2"), u("h_str", "query", 20000, flavour="msan", thorough_only=True), u("h_str", "query_vast", 1, flavour="o2", serial=True, fixed=True, thorough_only=True, case_s=600)],
     "random texts over small alphabets (so that matches, overlaps and boundary matches are frequent) against independent reference implementations; distinct = distinct (text, operation, arguments) outcomes",
     quick=8)

prop("P05", "Splitting, joining and popping parts lose and invent nothing",
     "Splitting a text by a separator yields exactly its non-empty pieces in order, and nothing at all when the separator does not occur; joining texts yields the texts in order with the separator between neighbours only, and joining none yields nothing. "
     "Popping the part before the first or after the last separator returns that part and leaves exactly the rest, and leaves the text untouched when there is nothing to pop. "
     "Extracting between two delimiters returns the text between the first left delimiter and the first right delimiter after it, or nothing when they do not occur in that order.",
     ["inputs"], "every text, separator and list of parts: leading, trailing, adjacent and only separators, multi-character separators, empty parts, supplied or fresh destinations",
     "The tests use one comma list and one path; the separator layouts that break splitting (trailing, only, overlapping) are not sampled.",
     [SRC + "container/str.c", INC + "container/str.h"],
     [dict(name="split, split between, join, pop first/last", where="src/vita/container/str.c")],
     [u("h_str", "split", 80000), u("h_str", "str_big", 600), u("h_str", "split", 2000, flavour="gcc-o2"), u("h_str", "split", 20000, flavour="msan", thorough_only=True), u("h_str", "split_vast", 1, flavour="o2", serial=True, fixed=True, thorough_only=True, case_s=600)],
     "random piece/separator layouts compared with reference split/join/pop; distinct = distinct (text, separator) inputs with their outcome",
     quick=8)

prop("P06", "Formatted text is stored completely whatever its length",
     "Appending or inserting formatted text gives exactly the text standard formatting of the same arguments gives, at the requested position, complete and terminated, however long the formatted text is. The rest of the string is unchanged. When the arguments cannot be formatted the call says so and the string stays as it was.",
     ["inputs"], "every format result length, in particular around internal temporary-buffer sizes and available capacity, every insertion position including the end",
     "The tests format a few short strings; the switch between temporary storage kinds happens at lengths no test reaches.",
     [SRC + "container/str.c"],
     [dict(name="formatted append/insert with two-pass sizing", where="src/vita/container/str.c")],
     [u("h_str", "fmt", 40000), u("h_str", "fmt", 1500, flavour="gcc-o2"), u("h_str", "fmt", 20000, flavour="msan", thorough_only=True)],
     "random formats whose results are concentrated around 0, the capacity, and 1000..1030 characters, compared with snprintf; distinct = distinct (length of formatted text, position class, prior length) situations",
     quick=20)

prop("P07", "Iteration visits every element exactly once in order",
     "A full forward pass of a slider over a vector, pointer list or string yields every element once from first to last and then reports the end; a full backward pass yields every element once from last to first; "
     "after the end or an explicit reset the next pass starts over. Applying a function to all elements calls it once per element, in order, with the right element and index.",
     ["inputs", "histories"], "every container kind, element size and length including empty, every mix of passes and resets",
     "The tests slide forward over one small container and never compare a complete backward pass element by element.",
     [SRC + "container/common.c", SRC + "container/plist.c", SRC + "container/vec.c", SRC + "container/str.c"],
     [dict(name="slider index", where="src/vita/container/common.c"), dict(name="slider index", where="src/vita/container/plist.c")],
     [u("h_cont", "iter", 60000)],
     "random containers, random sequences of complete passes, partial passes with reset, and apply calls; visited addresses/values compared with the contents; distinct = distinct (kind, length, pass history)",
     quick=15)

prop("P14", "A span reads and writes exactly the window it was made from",
     "A span over a buffer, or over a sub-range of one starting anywhere including its first element, has exactly the length of that range, and reading or writing its i-th element, through the untyped or any typed accessor, "
     "touches exactly the i-th element of the range and nothing else. A span never copies, grows or frees the buffer.",
     ["inputs"], "every buffer, sub-range, element size, index in range, and element type",
     "The test takes one inner sub-range of one int array.",
     [SRC + "container/span.c", INC + "container/span.h"],
     [dict(name="pointer/length window", where="src/vita/container/span.c")],
     [u("h_cont", "span", 40000), u("h_cont", "span_vast", 27, serial=True)],
     "random buffers with red zones, random ranges, random reads/writes compared byte for byte with a shadow buffer; distinct = distinct (element size, range, length)",
     quick=15)

SAN = "compiler sanitizers plus resource-balance monitors over generated object histories"
ACC = "online accounting monitor over generated allocator histories, under sanitizers"
FAULT = "allocation fault injection at every allocation point, outcome monitored"
DEATH = "monitored death tests: generated contract-breaking calls observed from a parent process"

prop("P08", "No use of the library corrupts memory or loses resources",
     "Whatever objects a program creates, derives from one another (duplicates, split pieces, joined texts, popped parts), grows, shrinks and destroys, in any order and with any mix of allocators, "
     "the library never reads or writes outside live storage, never uses freed storage, never frees twice, and after all objects are destroyed (or their allocator is) nothing it allocated remains. "
     "The same holds for every call of the file, directory, path, option, log, date, number and socket functions, whether it succeeds or fails; such a call leaves no file, directory or socket open beyond those it hands to the caller.",
     ["inputs", "histories"], "every interleaving of creations, uses and destructions of any number of objects with any allocators, and every sequence of succeeding and failing system-facing calls",
     "Tests run without memory instrumentation, and each uses few objects in a fixed order; a stray byte or a leaked block leaves every assertion true.",
     [SRC + "container/", SRC + "allocator/mallocator.c", SRC + "system/", SRC + "util/", SRC + "network/sockets.c"],
     [dict(name="ownership of object header and storage block", where="src/vita/container/common.c")],
     [u("h_mem", "lifetimes", 6000), u("h_mem", "lifetimes", 1500, flavour="gcc-o2"), u("h_mem", "lifetimes", 1500, flavour="asan-ndebug"), u("h_mem", "sysuse", 5000), u("h_mem", "sysuse", 1200, flavour="gcc-o2"), u("h_mem", "sysuse", 1200, flavour="asan-ndebug"), u("h_mem", "lifetimes", 4000, flavour="msan", thorough_only=True)]
     # the workloads of the behavioural properties once more, decided here by the sanitizers and the balance of blocks alone
     + [u(h, n, c, env=MEM) for h, n, c in [("h_cont", "vec", 1200), ("h_cont", "vec_typed", 300), ("h_cont", "plist", 1200), ("h_cont", "iter", 600), ("h_cont", "span", 300), ("h_str", "edit", 1500), ("h_str", "query", 2500), ("h_str", "split", 1200), ("h_str", "fmt", 800),
        ("h_path", "text", 1200), ("h_misc", "conv", 600), ("h_misc", "conv_small", 300), ("h_misc", "argopt", 1500), ("h_misc", "help", 300), ("h_misc", "prims", 60), ("h_time", "text", 800), ("h_time", "refuse", 500)]]
     # and against uninitialised memory
     + [u(h, n, c, flavour="msan", env=MEM) for h, n, c in [("h_mem", "lifetimes", 500), ("h_cont", "vec", 300), ("h_cont", "plist", 300), ("h_str", "edit", 500), ("h_str", "query", 500), ("h_str", "split", 300), ("h_str", "fmt", 200),
        ("h_path", "text", 300), ("h_misc", "conv", 150), ("h_misc", "argopt", 400), ("h_io", "files", 200)]],
     "up to 48 objects alive at once under three allocators, random uses and destructions under ASan/UBSan (and MSan in thorough), heap-block balance per case; random sequences of 30 kinds of system-facing calls with descriptor balance per call; distinct = distinct history prefixes",
     technique=SAN)

prop("P09", "The allocator's books always balance",
     "At every moment the allocator's statistics equal the facts: the number of allocations, reallocations and frees made, the bytes currently in use, and the bytes released so far. "
     "Every block is zeroed when handed out, keeps its content until its owner changes it, keeps its leading content when resized, never overlaps another live block, and destroying the allocator releases every block still alive, once. Giving it a block that is not its own changes nothing in its books.",
     ["histories"], "every sequence of allocations, resizes and frees of any blocks in any order",
     "The test performs three or four calls; the internal table's growth and removal from its middle only matter in long histories.",
     [SRC + "allocator/mallocator.c", INC + "allocator/mallocator.h"],
     [dict(name="object table and counters", where="src/vita/allocator/mallocator.c")],
     [u("h_mem", "accounting", 8000), u("h_mem", "accounting_big", 2, serial=True), u("h_mem", "accounting_many", 12, fixed=True), u("h_mem", "accounting", 1500, flavour="gcc-o2")],
     "random histories of up to hundreds of live blocks; the five counters compared with the monitor's own after every call, block patterns verified; distinct = distinct (counters, live blocks) states",
     technique=ACC)

prop("P10", "The choice of allocator changes nothing but where memory comes from",
     "The same program gives the same observable results whichever allocator its objects are created with. Every block such an object owns (header, storage after any growth, duplicates, pieces split into a list with an allocator, file contents) comes from that "
     "allocator and goes back to that allocator, and only there; a block given to a string to own is resized and freed with the allocator named when it was given.",
     ["inputs", "histories"], "every program over strings, vectors, lists and file reading, for each allocator including user-supplied ones",
     "The tests pass an allocator in a few places and never check which blocks came from it; a block obtained elsewhere is only noticed when it is freed.",
     [SRC + "container/common.c", SRC + "container/str.c", SRC + "container/vec.c", SRC + "container/plist.c", SRC + "system/fileio.c"],
     [dict(name="alloctr field selects allocation path", where="src/vita/container/common.c")],
     [u("h_mem", "transparent", 8000)],
     "each random program is run with no allocator, the library's, and a tracking user-supplied one; transcripts must be identical and block ownership is asserted after every step; distinct = distinct transcripts",
     technique="differential monitoring of one program under three allocators, with block-ownership assertions")

prop("P11", "Running out of memory ends the program cleanly, never corrupts it",
     "When any allocation a library call needs cannot be satisfied, because the system refuses it or because the requested size is beyond what can exist, the program ends at that point with a failure status and a message saying that allocation failed. "
     "It never continues with missing or too little storage, never writes outside storage, and never crashes by signal.",
     ["inputs", "fault_sequences"], "every allocation point of every operation, every unsatisfiable size including those whose byte count exceeds the address range",
     "No test makes an allocation fail.",
     [SRC + "core/core.c", SRC + "allocator/mallocator.c", SRC + "container/vec.c", SRC + "container/plist.c", SRC + "container/str.c"],
     [dict(name="checked malloc/calloc/realloc wrappers", where="src/vita/core/core.c")],
     [u("h_mem", "oom", 96), u("h_mem", "oom", 24, flavour="asan-ndebug"), u("h_mem", "huge", 1200), u("h_mem", "huge", 300, flavour="asan-ndebug")],
     "workloads over every module; each of their allocations in turn (all in thorough, all or a spread sample in quick) is made to fail in a child process under ASan; plus oversized requests; distinct = distinct (workload, allocator, failing allocation) and (operation, size) situations",
     technique=FAULT, level="fault_enumeration",
     note="Every allocation point of the listed workloads is failed once (thorough tier); the workloads themselves are sampled. Single faults only.")

prop("P12", "Calls that break the argument rules are refused, not carried out",
     "In the default (debug) build a call with a missing or never-created object, an out-of-range or reversed position, a zero size where one is required, or an invalid removal strategy ends the program with a failure status and a diagnostic naming the violated rule and the source location, before any memory outside the object is touched. "
     "Storing text that does not fit a string's length, replacing characters by a longer list, comparing more characters than a text has, changing a view, writing a number into a buffer too small for it, reading a date from text that is not in its format, and parsing options without any are refused like this in every build. "
     "The diagnostic goes to where debug output was directed.",
     ["inputs"], "every container, string, span, allocator, file, path, date, option, log and conversion function with contract-breaking arguments, every element type, every distance out of range",
     "The test suite cannot contain a call that ends the process, so no refusal is ever exercised.",
     [INC + "util/debug.h", SRC + "util/debug.c", SRC + "container/vec.c", SRC + "container/plist.c", SRC + "container/str.c", SRC + "container/span.c"],
     [dict(name="debug assertions and enforcement macros", where="inc/vita/util/debug.h")],
     [u("h_mem", "contract", 6000), u("h_mem", "contract", 1200, flavour="asan-ndebug")],
     "over 500 contract-breaking calls, each with random object sizes and distances up to the largest size_t, in child processes under ASan (so that an access before the refusal is seen); exit status and diagnostic checked; distinct = (call, distance, size)",
     technique=DEATH)

prop("P13", "A view never changes or frees the text it looks at",
     "A string view refers to exactly the given text, allocates nothing, answers every query as an owning string with the same text would, reports no spare space, and its duplicate is an independent owning string. "
     "Destroying a view leaves the text alone, and any operation that would change a view's text or size is refused before a single byte of the text changes.",
     ["inputs"], "every text and every query, duplicate, destroy and changing operation on a view",
     "The tests create one view of one literal.",
     [SRC + "container/str.c", SRC + "container/common.c"],
     [dict(name="is_view flag", where="src/vita/container/common.c")],
     [u("h_mem", "views", 12000), u("h_mem", "view_grow", 1500), u("h_mem", "view_grow", 600, flavour="asan-ndebug")],
     "texts placed in read-only memory ending at an unmapped page, so any write or over-read faults; query results compared with references; distinct = distinct (text, query) and (operation, sizes)",
     technique="read-only guard pages plus reference checks and death tests, under sanitizers",
     quick=8)

FS = "file-system state monitor: every operation checked against a model of the tree, under sanitizers, destructive calls intercepted"

prop("P19", "Path texts are built, taken apart and located as defined",
     "Building a path gives its parts in order with one separator between neighbours; the base name is the part after the last separator, or the whole text when there is none (a single separator at the very end belongs to the last part, and may or may not be kept); popping removes exactly the last part and stops at a single part; "
     "validating changes only foreign separators; a leading ~ is replaced by the home directory when one is set and everything else is unchanged. "
     "The current directory and the program's own location are exactly what the system reports. Results are terminated texts whose length matches and can be used, grown and destroyed like any other string of the chosen allocator.",
     ["inputs", "configurations"], "every list of parts, path text, home setting, current directory (including a deleted one) and allocator",
     "The tests use a few literals; single components, empty parts, unset home, and the memory behind the returned strings are not sampled.",
     [SRC + "system/path.c", INC + "system/path.h"],
     [dict(name="path text functions", where="src/vita/system/path.c")],
     [u("h_path", "text", 30000), u("h_path", "text", 3000, flavour="gcc-o2")],
     "random parts, paths, HOME values and current directories, compared with reference definitions and with getcwd/readlink; strings are grown and destroyed afterwards; distinct = distinct (operation, input)",
     quick=15)

prop("P20", "Directory operations do what they report, and report what they did",
     "Making a directory (alone or with all its parents), removing an empty one, deleting a file, renaming, and deleting a tree return success exactly when the file system is then in the described state, and on failure leave unrelated entries alone; making a directory that exists succeeds, making one where a file stands fails; a rename takes the place of a file only for a file, and never of a directory that has entries. "
     "Existence, kind and size answers agree with the file system. A listing contains every entry once and nothing else, recursively every entry of the whole tree below, with or without hidden names as requested, and freeing a listing releases everything it holds.",
     ["inputs", "histories", "configurations"], "every tree of files, directories and links, any file names, sizes beyond 32 bits, absolute or relative spellings, and every history of operations on it",
     "The tests operate on one or two fixed directories and check the return value more than the resulting tree.",
     [SRC + "system/path.c", INC + "system/path.h"],
     [dict(name="directory operations", where="src/vita/system/path.c")],
     [u("h_path", "dirs", 2400), u("h_path", "deep", 100), u("h_path", "dirs", 200, flavour="gcc-o2")],
     "random histories on real scratch trees as an unprivileged user; after every call the whole tree is walked and compared with the model; listings compared as sets; trees up to 300 levels, 3.4 KiB paths and 1200 entries per directory; distinct = distinct tree states",
     technique=FS)

prop("P21", "Deleting a tree deletes that tree and nothing else",
     "Recursively deleting a directory never removes, changes or descends into anything outside it, whatever links lie inside it or lead to it, and leaves siblings with similar names alone. "
     "It returns success exactly when the directory is gone; when some part cannot be removed it returns failure.",
     ["inputs", "configurations", "fault_sequences"], "every tree with symbolic links to outside files, outside directories, ancestors or nothing, hard links, and parts whose permissions forbid removal",
     "The test removes one plain tree it has just created; links and permission failures are never present.",
     [SRC + "system/path.c"],
     [dict(name="recursive listing and removal", where="src/vita/system/path.c")],
     [u("h_path", "contain", 3000), u("h_path", "deep", 100), u("h_path", "contain", 300, flavour="gcc-o2")],
     "random trees with every kind of link and with locked parts, removed as an unprivileged user while every remove/rmdir/unlink/rename is intercepted; names, modes, sizes and contents of everything outside compared before and after; distinct = distinct tree shapes",
     technique=FS)

IO = "byte-exact file-content monitor with injected environment faults, under sanitizers"

prop("P17", "What is written to a file is what is read back",
     "Writing replaces a file's content with exactly the given or formatted text, appending adds exactly that text at the end, the line variants add exactly one line end, and no other file changes; the content is in the file when the call returns. "
     "Reading a whole file returns exactly its bytes, whatever they are and however many, terminated, in a string of the chosen allocator; reading into a buffer stores exactly the file's first bytes that fit and nothing outside the buffer; reading a missing file returns nothing.",
     ["inputs", "histories"], "every text and byte content, every size including empty and around buffer sizes, every mix of the writing and reading functions over several files",
     "The test writes and reads a few short literals to one file.",
     [SRC + "system/fileio.c", INC + "system/fileio.h"],
     [dict(name="whole-file reads and writes", where="src/vita/system/fileio.c")],
     [u("h_io", "files", 6000), u("h_io", "files", 600, flavour="gcc-o2"), u("h_io", "files", 600, flavour="asan-ndebug"), u("h_io", "files_vast", 400), u("h_io", "read_vast", 1, flavour="o2", serial=True, fixed=True, case_s=120), u("h_io", "files", 1000, flavour="msan", thorough_only=True)],
     "random histories of all writing and reading functions over four files; after every call every file is read with plain system calls and compared with the model; distinct = distinct file contents",
     technique=IO)

prop("P18", "File operations that fail say so and do no damage",
     "When the data could not be written completely, because the device or the permitted size is exhausted, the directory is missing, the target is a directory or protected, no descriptor is left, or the text cannot be formatted, every writing function reports failure; when it reports success the complete data is in the file. "
     "A failed append leaves what the file already held, a file that could not be opened is unchanged. Reads that cannot succeed return nothing. No descriptor or memory is lost on any failure path.",
     ["inputs", "fault_sequences"], "every writing and reading function, every data size, every byte position at which the write is cut short, and every kind of unusable target",
     "No test runs out of space or permissions.",
     [SRC + "system/fileio.c"],
     [dict(name="status of write and close", where="src/vita/system/fileio.c")],
     [u("h_io", "fail", 9000), u("h_io", "fail", 2000, flavour="asan-ndebug")],
     "file-size limits at every relation to the data size, a full device, missing/protected/directory targets and exhausted descriptors, as an unprivileged user; result compared with the bytes really in the file; distinct = distinct (function, size, limit) and (function, fault) situations",
     technique="environment fault injection (size limits, full device, permissions, descriptor exhaustion) with outcome monitor", level="fault_enumeration",
     note="Every writer is combined with every fault kind; sizes and cut positions are sampled.")

prop("P25", "A log message goes to exactly its destination, complete, at once",
     "A message is written, with the time, level, optional condition and source location, complete and as one line entry, to the file named in the call, else to its level's redirection, else to standard error, and to nowhere else; earlier content of a file is kept and the entry is in the file when the call returns. "
     "Redirecting a level affects that level only and takes effect for the next message, the caller's file-name buffer may be reused afterwards, and a destination that cannot be opened falls back to standard error. "
     "A message whose condition holds writes nothing; fatal and assertion messages end the program with a failure status after the message is out.",
     ["inputs", "histories"], "every sequence of redirections and messages of every level, length, content, and file-name length up to the system maximum",
     "The test logs a few lines and reads nothing back; fatal messages end the process and cannot be in a unit test.",
     [SRC + "util/log.c", INC + "util/log.h"],
     [dict(name="per-level destination table", where="src/vita/util/log.c")],
     [u("h_io", "log", 6000), u("h_io", "log_quit", 900), u("h_io", "log", 800, flavour="asan-ndebug")],
     "random redirection/message histories with four files, standard error and an unopenable destination; after each message all destinations are compared with their models; ending levels observed from a parent process; distinct = distinct (level, destination, length) and ended messages",
     technique="output monitor over all destinations, plus monitored death tests, under sanitizers")

prop("P26", "Debug output is complete, goes where directed, and failed conditions act",
     "A violated condition is reported once with time, subject, the condition's text, source location and message, and a satisfied one produces nothing; a condition is evaluated exactly once. Enforced conditions end the program with a failure status, checked ones do not, whatever the output setting. "
     "Debug output goes to the chosen file, keeping its earlier content, or to standard error, also when the file cannot be opened; when output is disabled nothing is printed, and enabling it again restores it.",
     ["inputs", "histories"], "every sequence of redirections, switching off and on, checks, notes and prints, with messages of any length and content",
     "The test calls the macros without capturing output, and cannot contain a failing enforcement.",
     [SRC + "util/debug.c", INC + "util/debug.h"],
     [dict(name="debug output switch and destination", where="src/vita/util/debug.c")],
     [u("h_io", "debug", 6000), u("h_io", "debug_quit", 900), u("h_io", "debug", 800, flavour="asan-ndebug"), u("h_io", "debug_quit", 200, flavour="asan-ndebug")],
     "random histories with four files, standard error and an unopenable destination, all compared with models after each call; ending calls observed from a parent; distinct = distinct (call kind, destination, length)",
     technique="output monitor over all destinations, plus monitored death tests, under sanitizers")

prop("P22", "Calendar answers are right for every date",
     "For every date of the years 1 to 9999, in any time zone and at any time of day, leap years, days in the month and year, the week day (Monday 1 to Sunday 7) and the day of the year are those of the Gregorian calendar; "
     "an invalid (negative) year counts as 1900 and an out-of-range month as the nearest month. Creating a date brings every part into its range, keeps a given week or year day and fills in a missing one correctly. The current time is the system's.",
     ["inputs", "configurations"], "every date from year 1 to 9999, every time of day, several time zones with and without daylight saving, every out-of-range argument",
     "The test checks one year and seven consecutive days.",
     [SRC + "time/datetime.c", INC + "time/datetime.h"],
     [dict(name="leap rule, month lengths, week and year day", where="src/vita/time/datetime.c")],
     [u("h_time", "calendar", 9999, fixed=True), u("h_time", "create", 30000), u("h_time", "calendar", 1200, flavour="gcc-o2"), u("h_time", "calendar", 59994, fixed=True, thorough_only=True)],
     "every day of every year 1..9999 once (thorough: in six time zones), each at a random time of day, against an independent civil calendar; random and boundary arguments for creation; distinct = (year, zone) and created dates",
     exhaustive="all dates of years 1..9999 (time of day sampled)",
     quick=10)

prop("P23", "A date survives being written as text and read back",
     "Every date of the years 1000 to 9999 is written in each of the three timestamp formats exactly as the format says, inside the given buffer, and reading that text gives back the same date with the right week and year day; the readable form names the right day and month. "
     "A text is accepted by a format exactly when it has digits and separators precisely where the format has them and nothing else; checking never reads beyond the text; reading a text that is not accepted ends the program with a failure status in every build.",
     ["inputs", "configurations"], "every date and time, every buffer size from the documented minimum, every malformed text (short, long, wrong separators), every format, any time zone",
     "The test converts one date per format and rejects a few texts of the right length.",
     [SRC + "time/datetime.c"],
     [dict(name="timestamp formats and validation", where="src/vita/time/datetime.c")],
     [u("h_time", "text", 50000), u("h_time", "refuse", 800), u("h_time", "refuse", 200, flavour="asan-ndebug"), u("h_time", "text", 3000, flavour="gcc-o2"), u("h_time", "text", 10000, flavour="msan", thorough_only=True)],
     "random and boundary dates written, compared and read back in six time zones; damaged texts in exactly sized heap blocks under ASan against a strict pattern matcher; refusals observed from a parent; distinct = distinct texts",
     quick=9)

prop("P24", "Date arithmetic agrees with counting seconds",
     "Converting a date to seconds and back gives the same date; adding a delta of any mix of positive and negative years, months, days, hours, minutes and seconds gives the date that counting would give, with carries into every part and the right week and year day; "
     "differences in seconds, minutes, hours and days are the exact number of whole units, negative when the first date is earlier; the broken-down difference adds up to the difference. With daylight saving, converting back and adding nothing or whole days keeps the clock time.",
     ["inputs", "configurations"], "every pair of dates of the years 1000 to 9999, every delta of 16-bit parts, several time zones",
     "The test makes one addition and one difference a few days apart.",
     [SRC + "time/datetime.c"],
     [dict(name="normalisation through the C library's calendar", where="src/vita/time/datetime.c")],
     [u("h_time", "arith", 120000), u("h_time", "arith", 6000, flavour="gcc-o2")],
     "random and boundary dates and deltas against an independent count of days; distinct = distinct result dates",
     assumptions=["vt_datetime_diff computes its parts in single precision (known finding, pinned by the repository's own test): its sum may deviate by 1 s + difference * 2^-22; day counts beyond 16 bits cannot be represented and are not exercised"],
     quick=10)

prop("P15", "Numbers survive conversion to text and back",
     "Every value of every integer type, written as text into a buffer that has just enough room, is its exact decimal form, and reading that text gives the value back; every floating-point value is written in the C library's fixed notation and read back as that text's value. "
     "Reading accepts digits and dots, with a leading minus for signed types, and gives zero for anything else; leading zeros and a fraction after an integer are handled as in the C library. "
     "A buffer that is too small ends the program with a failure status before anything is written past it, in every build.",
     ["inputs"], "every value of eleven numeric types, every text, every buffer size",
     "The test converts one or two values per type.",
     [SRC + "core/conv.c", INC + "core/conv.h"],
     [dict(name="number/text conversion", where="src/vita/core/conv.c")],
     [u("h_misc", "conv", 160000), u("h_misc", "conv_small", 1600), u("h_misc", "conv", 8000, flavour="gcc-o2"), u("h_misc", "conv_small", 400, flavour="asan-ndebug")],
     "boundary-biased random values of each type through exactly sized heap buffers and back; random well- and ill-formed texts; undersized buffers observed from a parent; distinct = distinct (value, text) pairs",
     assumptions=["texts whose number does not fit the target type are not judged"],
     quick=6)

prop("P16", "Command-line options get exactly the values given for them",
     "Each option named by its long or short form, followed by '=' or by a separate argument, gets exactly that value converted to its type; an option that stands last or is followed by an argument starting with '-' counts as 1; the last one given wins and every option not mentioned keeps its default. "
     "Text options end up holding exactly the given text in memory of the chosen allocator, whatever they held before and however long it is. An unknown option, however close to a known name, is named in a message, stops parsing with an error and leaves later options alone; a lone request for help is reported; an unusable option table is refused without assigning anything. "
     "The help text lists every option, aligned, with its description, between the given header and footer.",
     ["inputs", "histories"], "every table of options of all fifteen types, every argument list built from valid and unknown options, every allocator choice",
     "The test parses two fixed command lines.",
     [SRC + "util/argopt.c", INC + "util/argopt.h"],
     [dict(name="option matching and typed assignment", where="src/vita/util/argopt.c")],
     [u("h_misc", "argopt", 50000), u("h_misc", "help", 8000), u("h_misc", "argopt", 3000, flavour="gcc-o2"), u("h_misc", "argopt", 3000, flavour="asan-ndebug")],
     "random option tables and command lines in exactly sized heap blocks, every resulting value compared with a model; help output captured and compared; distinct = distinct command lines and help texts",
     assumptions=["separate values beginning with '-' and option names containing '=' are not exercised: they are options by definition"])

prop("P27", "A TCP connection delivers exactly the bytes sent, in order, to the right peer",
     "Whatever is sent on a connection arrives at its peer complete, unchanged and in order, in pieces no larger than the receiver's buffer, and nowhere else; connections are accepted in the order they were made, on the port asked for, and a closed peer shows as the end of the data after everything sent has arrived. "
     "Polling reports exactly the sockets with something to read. A timed receive returns data as soon as it is there, 0 when the time is up and not before, and waits for ever with -1. Sending to a peer that is gone is reported as an error and never ends the process. A server can be started again on its port at once, and a client connects to exactly the address and port it was given.",
     ["inputs", "histories", "schedules"], "every interleaving of connecting, accepting, sending, receiving, polling and closing over several connections, every transfer and buffer size, every arrival time",
     "The socket programs among the tests need a partner and are not run.",
     [SRC + "network/sockets.c", INC + "network/sockets.h"],
     [dict(name="stream sockets", where="src/vita/network/sockets.c")],
     [u("h_net", "tcp", 900, serial=True, timing=True, scale=20), u("h_net", "bulk", 240, timing=True, scale=20), u("h_net", "idle", 2, timing=True, scale=10)],
     "random histories over up to six loopback connections, each direction a numbered byte stream checked at every receive; bulk transfers with a concurrent reader; late arrivals and elapsed times measured; distinct = distinct (due, buffer, call) situations and transfer sizes",
     technique="event-order and conservation monitor over real loopback sockets, under sanitizers",
     assumptions=["the loopback interface works"])

prop("P28", "Datagrams and socket failures are reported as they are",
     "A datagram arrives whole, unchanged, in order and only at its destination, or cut to the receiver's buffer; its sender's address is reported so that a reply to it reaches that sender; an address is made of exactly the given host and port. "
     "Every call that fails says so with its documented code, whichever step failed: creating, configuring, binding, listening, connecting, accepting, sending, receiving, waiting; an error waiting on a socket is not mistaken for a timeout. A failed call leaves no descriptor open.",
     ["inputs", "histories", "fault_sequences"], "every exchange among several datagram sockets, every datagram size up to the maximum, every failing step and error code, exhausted descriptors, unusable sockets",
     "No test uses datagrams or makes a socket call fail.",
     [SRC + "network/sockets.c"],
     [dict(name="datagram sockets, error paths", where="src/vita/network/sockets.c")],
     [u("h_net", "udp", 700, serial=True, timing=True, scale=20), u("h_net", "neterr", 4500, serial=True, timing=True), u("h_net", "neterr", 900, flavour="asan-ndebug", serial=True, timing=True)],
     "random exchanges among up to five loopback datagram sockets against per-socket queues; each setup system call made to fail in turn, real occupied ports, refused connections, dead and wrong-kind sockets, descriptor exhaustion, with descriptors counted before and after; distinct = distinct (size, buffer) and (fault, errno, type) situations",
     technique="loopback exchange monitor and system-call fault injection with descriptor accounting, under sanitizers",
     assumptions=["the loopback interface works and keeps the order of datagrams sent from one processor"])

prop("P29", "Mathematical helpers return what they are named for",
     "For all arguments, the greatest common divisor and least common multiple are the non-negative mathematical ones, also with zero and negative numbers; a number is called a palindrome exactly when its decimal digits are; mapping between ranges is linear with both ends mapped to the ends; "
     "the fast square roots are within two millionths of the true ones over the whole normal range; closeness compares the distance with the tolerance, or the machine epsilon when it is negative. Random numbers stay within their bounds, vary, and a normal distribution without spread is its mean.",
     ["inputs"], "every argument in the functions' domains",
     "The test checks two or three values of each.",
     [SRC + "math/math.c", INC + "math/math.h"],
     [dict(name="numeric helpers", where="src/vita/math/math.c")],
     [u("h_misc", "math", 16000), u("h_misc", "math", 1600, flavour="gcc-o2")],
     "random and structured arguments (palindromes and near-palindromes, common factors, boundary values) against independent algorithms; distinct = distinct palindrome candidates",
     assumptions=["arguments whose exact result overflows the result type are not judged; random bounds are taken as closed, since float rounding can reach the upper one"],
     quick=15)

prop("P30", "The small primitives compute exactly their definitions",
     "Minimum, maximum and clamp of every numeric type, the index maps between one, two and three dimensions, memory copy, move (overlapping too), set, compare and swap, and zero-initialised allocation with content-preserving resize do exactly what their definitions say for all arguments and never touch a byte outside them. "
     "Status names match their codes and unknown codes have none; version texts match their numbers.",
     ["inputs"], "every argument of every primitive and numeric type",
     "The test checks single values; no test covers sizes, overlaps, or all types.",
     [INC + "algorithm/comparison.h", SRC + "container/common.c", SRC + "core/core.c", SRC + "core/version.c", SRC + "util/compiler.c"],
     [dict(name="comparison, index and memory primitives", where="src/vita/core/core.c")],
     [u("h_misc", "prims", 12000), u("h_misc", "prims", 1200, flavour="gcc-o2")],
     "random and boundary arguments in exactly sized heap blocks against direct definitions; distinct = distinct index situations",
     quick=15)

prop("P31", "Different threads can use different objects at the same time",
     "Threads that work at the same time on objects of their own (containers, strings, allocators, files and directories, sockets, logging, option parsing, number and date conversion, the current time), or only read shared containers and strings, neither race nor influence each other: each gets exactly the results it would get alone. Messages (of up to a few hundred characters) that several threads log to one file at the same time all arrive, each of them whole and those of one thread in order. "
     "Not included are changes of the process-wide log and debug settings, and the random generator.",
     ["schedules", "histories"], "every mix of operations of these modules and every interleaving of two to four threads",
     "All tests are single-threaded.",
     [SRC + "container/", SRC + "core/", SRC + "allocator/mallocator.c", SRC + "system/", SRC + "util/argopt.c"],
     [dict(name="no hidden shared state", where="src/vita")],
     [u("h_thr", "threads", 3000, flavour="tsan"), u("h_thr", "threads", 1500, flavour="tsan-o0"), u("h_thr", "threads", 1600)],
     "random work lists run alone for reference and then in 2..4 concurrent threads, under the race detector (release build, optimised and not) and under ASan (debug build), results compared; distinct = distinct observed orders of the threads' operations",
     technique="race detector plus sequential-equivalence monitor over concurrent runs",
     note="Interleavings are sampled by the scheduler; the race detector reports a race whenever two unsynchronised accesses are executed at all, whatever their timing.",
     assumptions=["the C library's own functions are thread-safe where POSIX says so"])
