#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ALLSRC = ["src/allocator.c","src/array_list.c","src/char_array.c","src/cmdline_parser.c","src/env.c","src/error_handling.c",
 "src/filesystem.c","src/find.c","src/format_string.c","src/hash_map.c","src/logging.c","src/process.c","src/qsort.c","src/repl_str.c",
 "src/sha256.c","src/shared_library.c","src/snprintf.c","src/split.c","src/strcasecmp.c","src/strdup.c","src/strerror.c",
 "src/string_array.c","src/string_map.c","src/testing/fault_injection.c","src/time.c","src/time_unix.c","src/uint8_array.c"]
CONT = ["src/array_list.c","src/char_array.c","src/hash_map.c","src/string_array.c","src/string_map.c","src/uint8_array.c"]
ALLOCF = [f for f in ALLSRC if f not in ("src/env.c","src/find.c","src/qsort.c","src/sha256.c","src/snprintf.c","src/strcasecmp.c","src/strerror.c","src/testing/fault_injection.c","src/time.c","src/time_unix.c","src/cmdline_parser.c","src/error_handling.c")]

# ---------------------------------------------------------------- memory
p("M01","No block is leaked on any path",
 "When an operation returns, on every path including every combination of allocation and system-call failures, each memory block it obtained has been released, returned to the caller, or stored in an object the caller can still finalise. Replacing or removing stored data releases the block that held it, and finalising an object releases every block the object owns.",
 ["inputs","fault_sequences"],"every path of every allocating operation, under every subset of failing allocations, system calls and injected faults",
 "Existing tests inject a handful of failing allocations and never look at what is still allocated; the leak paths are the combinations they do not enumerate.",
 ALLOCF,[("goto-fail / early-return cleanup blocks","each allocating function"),("fini functions","src/*_list.c, src/*_map.c, src/*_array.c, src/shared_library.c, src/logging.c")],["allocator calls","return"])
p("M02","Released memory is never used, kept or released twice",
 "No operation touches a block after it was released or releases a block twice. When an operation returns, successfully or not, no object the caller can still reach refers to a released block, so finalising or reusing the object is safe after every failure.",
 ["inputs","fault_sequences","histories"],"every path of every operation and every failure combination, followed by any further operation on the same object",
 "Tests seldom continue to use an object after a failed operation; dangling pointers are invisible until the second operation.",
 ALLOCF,[("pointer reset after release","fini/unload/resize functions"),("assign only after success of reallocation","array_list, char_array, string_array, string_map")],["allocator calls","object fields at return"])
p("M03","Every allocation failure is noticed and reported",
 "Whenever an allocator returns no memory, the null result is never dereferenced and the operation tells its caller that it failed: status-returning operations return a failure status (the out-of-memory status where documented) and pointer-returning operations return null.",
 ["inputs","fault_sequences"],"each allocation request of each operation failing in turn and in combination",
 "Tests fail one allocation in some operations; most request sites are never made to fail.",
 ALLOCF,[("null test after each allocate/zero_allocate/reallocate/strdup","every allocating function")],["return value","error state"])
p("M04","Memory comes only from the caller's allocator",
 "Every block an operation obtains, resizes or releases goes through the allocator the caller supplied for that operation or object, always with that same allocator's state value, and each block is released through the allocator it came from. Only the default allocator itself uses the C heap.",
 ["inputs","programs"],"every allocation, reallocation and release performed by any operation, for every custom allocator and state value",
 "Nearly all tests use the default allocator, for which a wrong state pointer or a direct free() is unobservable.",
 ALLOCF,[("allocator struct stored in the object","*_impl_s.allocator, *.allocator fields"),("default allocator wrappers","src/allocator.c")],["allocator function pointer and state argument"])
p("M05","Reads and writes stay inside their buffers",
 "No operation reads or writes outside the memory it was given or allocated: caller buffers with a stated size, container storage, internal fixed-size buffers and freshly allocated blocks are accessed only within bounds for every input, including empty strings, zero sizes and maximum lengths.",
 ["inputs"],"all strings, lengths, indices, sizes and container states accepted by the operations",
 "Boundary lengths (0, exactly full, one over) are sampled in few tests, and an overrun by one byte does not fail a test without a sanitizer.",
 ALLSRC,[("explicit size checks before memcpy/memmove/snprintf","all modules"),("capacity >= length invariants","containers")],["each load/store/memcpy"])
p("M06","Size computations for allocations cannot wrap around",
 "When the number of bytes needed for a request exceeds what can be represented, the operation fails; it never obtains a block smaller than the data it goes on to keep in it.",
 ["inputs"],"all element counts, element sizes and string lengths",
 "Needs sizes near the maximum representable value, which no test passes.",
 ["src/array_list.c","src/string_array.c","src/string_map.c","src/hash_map.c","src/char_array.c","src/uint8_array.c","src/split.c","src/repl_str.c","src/strdup.c","src/format_string.c","src/filesystem.c"],
 [("overflow guards","string_map reserve, calloc-style zero_allocate")],["size argument of allocator calls"])
# ---------------------------------------------------------------- API contract
p("A01","Invalid arguments are rejected, not dereferenced",
 "A null pointer, a finalised or never initialised object, or an invalid allocator passed where the documentation says it is invalid makes the operation fail with the documented failure value before anything is read or modified through it.",
 ["inputs"],"every pointer or allocator argument of every public operation being null, zero-initialised or invalid, in every combination",
 "Tests cover some single-argument cases; many operations' null cases are not exercised, and several test binaries are not run at all.",
 ALLSRC,[("null-argument check macros","include/rcutils/error_handling.h"),("allocator validity check","rcutils_allocator_is_valid and RCUTILS_CHECK_ALLOCATOR")],["return value"])
p("A02","Failures report documented, distinct status values",
 "Each status-returning operation returns only the status values its documentation lists, all status values are pairwise distinct, and success is never returned when a step the operation depends on failed.",
 ["inputs","fault_sequences"],"every path of every status-returning operation",
 "Tests mostly compare with success/not-success and reach few failure paths.",
 ALLSRC+["include/rcutils/types/rcutils_ret.h"],[("return statements and status propagation","all modules")],["return value"])
p("A03","A failing operation leaves an error message",
 "When an operation that reports errors through a status returns a failing status for an invalid argument, an exhausted resource or a failed system call, an error message is set in the calling thread (the documented validity test of an allocator may be silent, and the directory size operations report on the standard error stream); lookup queries documented to set no message leave the error state untouched.",
 ["inputs","fault_sequences"],"every failing path of every operation that uses the error state",
 "Tests rarely inspect the message, and reset it blindly.",
 ALLSRC,[("set-error macros","include/rcutils/error_handling.h")],["error state at return"])
p("A04","No failure of an internal step is dropped",
 "Inside the library, the failure of every status-returning step, allocation, or system call that the result depends on is examined and leads to failure, cleanup or a documented fallback; it is never silently discarded.",
 ["inputs","fault_sequences"],"every internal call whose callee can fail",
 "A dropped status matters only when the step fails, which tests do not provoke.",
 ALLSRC,[("status tests after calls","all modules")],["call sites"])
p("A05","Queries never modify what they inspect",
 "Read-only operations (lookups, size and capacity queries, comparisons, searches, predicates, and operations taking an input through a read-only argument) change neither the object or text they inspect nor any of the data it owns.",
 ["inputs","histories"],"every read-only operation on every object state",
 "Tests check the result of the query, not that the rest of the object is unchanged.",
 CONT+["src/find.c","src/strdup.c","src/split.c","src/repl_str.c","src/filesystem.c","src/shared_library.c","src/time.c"],
 [("const parameters and no writes through them","query functions")],["memory reachable from arguments"])
p("A06","Compilers diagnose ignored results and bad formats",
 "Every public operation whose failure must not be ignored is declared so that discarding its result is diagnosed at compile time, and every public printf-style operation is declared so that mismatching format arguments are diagnosed.",
 ["programs"],"all client programs compiled with the supported compilers",
 "Tests are programs that compile cleanly; they cannot show that bad programs are diagnosed.",
 ["include/rcutils"],[("RCUTILS_WARN_UNUSED and RCUTILS_ATTRIBUTE_PRINTF_FORMAT","include/rcutils/macros.h, declarations")],["compiler diagnostics"])
p("A07","Public headers are self-contained in C and C++ and link",
 "Each public header can be included on its own, in any order, from C11 and C++17 programs (the atomics helper from C11 only), gives its functions C linkage, and every function it declares for this platform is defined and exported by the library.",
 ["programs"],"all client programs and include orders",
 "Each test includes a fixed set of headers in one order, and calls a subset of the functions.",
 ["include/rcutils","resource/logging_macros.h.em"],[("extern \"C\" blocks, include guards, includes","each header")],["compilation","symbol table"])
# ---------------------------------------------------------------- containers
p("C01","Array list: elements are addressed and counted exactly",
 "Reading, overwriting or removing an element succeeds exactly when the index is less than the current size and touches only that element; adding stores the new element after all existing ones. Size changes by exactly one on a successful add or remove and otherwise not at all, and never exceeds the capacity.",
 ["inputs","histories"],"all indices, element sizes, sizes and capacities",
 "Tests use a few indices and one element size.",
 ["src/array_list.c"],[("index-vs-size checks","rcutils_array_list_get/set/remove"),("grow before write","rcutils_array_list_add")],["list contents","size"])
p("C02","A failed container operation changes nothing",
 "When an operation that modifies an array list, hash map, string map or string array fails, the container's previously stored contents, its size and its invariants are as before the call, and it can still be used and finalised. A failed operation on a character array keeps its buffer, length, capacity and ownership (or, when formatting fails after growing, leaves an empty array). Excepted by their documentation: copying a string map may be partial, and a failed resize of a uint8 array gives up its storage.",
 ["inputs","fault_sequences","histories"],"every failing path of every modifying container operation",
 "Tests check the status of failing calls, not that the container is unchanged.",
 CONT,[("commit after last fallible step","modifying functions")],["container fields at failing returns"])
p("C03","Hash map: entries are matched by key and counted exactly",
 "An entry is found exactly when its hash and the user's comparison say its key equals the requested key; storing under an existing key replaces the value without changing the count, storing a new key adds exactly one, removing subtracts exactly one. Key and value copies use exactly the configured sizes, and the bucket count stays a power of two that selects buckets consistently for all operations.",
 ["inputs","histories"],"all keys, hash functions (including total collisions), sizes and operation sequences",
 "Tests use few keys; collisions, growth with collisions and failures during growth are hardly sampled.",
 ["src/hash_map.c"],[("bucket selection by hash & (capacity-1)","src/hash_map.c"),("hash and key comparison","lookup helper"),("size bookkeeping","set/unset")],["map state","returned data"])
p("C04","String map: keys match exactly and bookkeeping is consistent",
 "A lookup succeeds exactly when the whole requested key equals a stored key; setting an existing key replaces only its value, setting a new one adds exactly one pair, unsetting frees the pair and subtracts exactly one. The count never exceeds the capacity, and reserving space never drops stored pairs.",
 ["inputs","histories"],"all keys (prefixes of each other, unterminated with explicit length, empty), capacities and sequences",
 "The string map test binary is not part of the running suite, and prefix keys with explicit lengths are not covered.",
 ["src/string_map.c"],[("key comparison","key lookup helper"),("size bookkeeping","set/unset/clear/reserve")],["map state","returned value"])
p("C05","String array: ownership, resize and ordering are sound",
 "Initialising or growing leaves every new slot empty, shrinking and finalising release each removed string exactly once, and comparison treats arrays lexicographically with null slots handled consistently: sorting places empty slots last under a consistent total order.",
 ["inputs","histories"],"all sizes, contents and null-slot patterns",
 "Tests use two or three strings.",
 ["src/string_array.c","src/qsort.c","include/rcutils/types/string_array.h"],[("zeroed growth","rcutils_string_array_resize"),("comparison function","rcutils_string_array_sort_compare")],["array slots","comparison result"])
p("C06","Byte and character buffers: length, capacity and ownership agree",
 "After every operation the stored length never exceeds the capacity and the capacity is never larger than the real storage; text appended or formatted is complete and null-terminated. A buffer borrowed from the caller is never released or reallocated by the library: it is copied into storage of its own when it must grow.",
 ["inputs","histories"],"all lengths, capacities, ownership states and sequences of operations",
 "Tests cover growth of owned buffers only for a few sizes.",
 ["src/char_array.c","src/uint8_array.c"],[("expand-as-needed before write","src/char_array.c"),("owns_buffer flag","src/char_array.c")],["buffer fields","allocator calls"])
p("C07","Initialise and finalise are symmetric and repeatable",
 "A zero-initialised object has every field zero, finalising it is harmless where documented, finalising twice is harmless, and after finalising an object it is back in the state that initialisation accepts. Initialising an array list, map or shared library that is initialised already fails without touching it.",
 ["histories"],"all init/use/fini sequences on every object type",
 "Tests run one init/fini cycle per object.",
 CONT+["src/shared_library.c","src/allocator.c"],[("impl pointer reset","fini functions"),("already-initialised checks","hash_map/string_map init")],["object fields"])
# ---------------------------------------------------------------- errors
p("E01","Error state and library state are isolated per thread",
 "All error state is per thread: setting, reading or resetting the error in one thread is never visible in another. Apart from the logging configuration and the fault-injection counter, the library keeps no writable process-wide state, so operations on distinct objects can run concurrently.",
 ["schedules","programs"],"all interleavings of operations in different threads",
 "Tests are single-threaded; a shared static buffer never shows.",
 ALLSRC,[("RCUTILS_THREAD_LOCAL","include/rcutils/macros.h, src/error_handling.c"),("no other mutable statics","all modules")],["global variables"])
p("E02","Error text is bounded, terminated and complete",
 "For every message, file name and line number, the stored and the formatted error text fits its fixed-size storage, is null-terminated, is truncated rather than overrun, and otherwise consists of the message, the file and the decimal line number in the documented order.",
 ["inputs"],"all message and file-name lengths and all 64-bit line numbers",
 "Those test binaries are not part of the running suite; exact-boundary lengths and extreme line numbers are unsampled.",
 ["src/error_handling.c","src/error_handling_helpers.h"],[("bounded copy helper","src/error_handling_helpers.h"),("storage-size constants","include/rcutils/error_handling.h")],["error string"])
p("E03","Error state life cycle: set, read, reset",
 "Setting an error with a valid message and file makes the error visible with exactly that message, file and line and invalidates any previously formatted text; reading it changes nothing; resetting clears it completely; setting with a null message or file changes nothing.",
 ["histories"],"all sequences of set, read and reset in a thread",
 "The error handling tests are not part of the running suite, and only cover short sequences.",
 ["src/error_handling.c"],[("is-set and is-formatted flags","src/error_handling.c")],["error state"])
# ---------------------------------------------------------------- logging
p("L01","Disabled log statements do nothing",
 "A log statement of any severity and any feature combination emits through the logger at most once, with its own severity, logger name and call location, and only if that logger is enabled for that severity at that moment; otherwise its format arguments are not evaluated and it outputs nothing (a throttled statement whose clock cannot be read additionally reports that).",
 ["inputs","programs","configurations"],"every severity and every generated macro variant, in every logging state",
 "Tests instantiate a small part of the generated macro matrix.",
 ["resource/logging_macros.h.em","rcutils/logging.py","src/logging.c"],[("is-enabled test in the base macro","resource/logging_macros.h.em")],["calls to the log function"])
p("L02","Log severities can be compiled out exactly",
 "For each compile-time minimum severity, statements below the minimum compile to nothing at all and statements at or above it are unaffected.",
 ["configurations","programs"],"every minimum-severity setting and every severity",
 "Tests are built with the default minimum severity only.",
 ["resource/logging_macros.h.em"],[("RCUTILS_LOG_MIN_SEVERITY conditionals","resource/logging_macros.h.em")],["compiled code"])
p("L03","Effective logger level is the nearest ancestor's",
 "The effective level of a logger is its own level if set, otherwise that of its nearest ancestor by name with a level set, otherwise the default level; a message is emitted exactly when its severity is at least that level.",
 ["inputs","histories"],"all logger names, hierarchies, level settings and severities",
 "Tests use a two- or three-level hierarchy.",
 ["src/logging.c"],[("ancestor walk","rcutils_logging_get_logger_effective_level"),("level comparison","rcutils_logging_logger_is_enabled_for")],["returned level"])
p("L04","Severity, token, color and environment tables agree",
 "Severity names, numeric values, colors and output streams agree with each other everywhere they are listed: every severity has its documented name, is accepted by name, has exactly one color, and every documented output token is recognised and produces its documented field.",
 ["inputs","configurations"],"all severities and all tokens",
 "Tests check the default token set with INFO mostly.",
 ["src/logging.c","include/rcutils/logging.h","rcutils/logging.py","resource/logging_macros.h.em"],[("name, token and escape tables","src/logging.c")],["formatted output"])
p("L05","Logging start-up and shutdown are idempotent and complete",
 "Initialising logging twice, shutting down twice, or shutting down without initialising is harmless; shutting down releases everything initialisation and level setting acquired and returns the logging system to its uninitialised state; a failed initialisation leaves it uninitialised with nothing leaked.",
 ["histories","fault_sequences"],"all sequences of initialise, configure, log and shutdown, with failures at any step",
 "Most logging test binaries are not part of the running suite; failures in the middle of initialisation are not provoked.",
 ["src/logging.c"],[("initialised flag","src/logging.c"),("severities map life cycle","src/logging.c")],["logging globals"])
p("L06","Log calls reach the installed handler intact",
 "When an enabled message is logged and a handler is installed, that handler is called exactly once with the given location, severity, name, format, arguments and a current timestamp; a changed handler or level takes effect from the next message on. Argument lists are always started, copied and ended in matching pairs.",
 ["inputs","histories"],"all messages, handlers and handler changes",
 "Tests install one recording handler.",
 ["src/logging.c"],[("single handler call","rcutils_log / vlog"),("va_start/va_copy/va_end pairing","src/logging.c, src/snprintf.c, src/char_array.c, src/format_string.c")],["handler calls"])
p("L07","Logging environment settings are validated",
 "Each logging environment variable accepts exactly its documented values, selects the documented behaviour, and any other value makes initialisation fail with an invalid-argument status instead of being silently ignored.",
 ["inputs","configurations"],"all values of each documented logging environment variable",
 "One bad value per variable is tested.",
 ["src/logging.c"],[("environment parsing","logging initialisation")],["return status","selected stream/buffering/color"])
p("L08","User text is never interpreted as a format",
 "Every printf-style call inside the library uses a constant format or forwards a format parameter of a function itself declared printf-like; caller-supplied names, paths, keys and environment values only ever appear as arguments, with matching conversion types.",
 ["inputs"],"all caller-supplied strings, including those with percent signs",
 "No test passes percent signs through every such parameter.",
 ALLSRC,[("constant format strings","all printf-style calls")],["format argument of printf-style calls"])
# ---------------------------------------------------------------- OS
p("O01","Operating-system handles are always closed",
 "Every directory stream and dynamic-library handle an operation opens is closed exactly once on every path, or handed to an object whose finalisation closes it; a closed handle is never used again.",
 ["inputs","fault_sequences"],"every path of the directory and shared-library operations",
 "Leaked descriptors do not fail a test.",
 ["src/filesystem.c","src/shared_library.c"],[("closedir/dlclose on each exit","src/filesystem.c, src/shared_library.c")],["system calls"])
p("O02","File-system queries only query",
 "Path predicates and size queries never create, modify or delete anything; the only operation that creates anything is the directory-creation operation, which rejects empty and non-absolute paths and treats an existing directory as success.",
 ["inputs"],"all path strings and file-system states",
 "The filesystem test binary is not part of the running suite.",
 ["src/filesystem.c"],[("stat-only predicates","src/filesystem.c"),("absolute path check","rcutils_mkdir")],["system calls"])
p("O03","Environment access is well-defined",
 "Reading a variable yields a non-null string, empty when the variable is unset, or an explanation on invalid arguments; setting a null value removes the variable; a name that is null, empty or contains an equals sign never changes the environment, a failed change is reported, and an existing variable that must not be overwritten is left alone.",
 ["inputs"],"all names and values",
 "Only a few names are tested.",
 ["src/env.c"],[("argument checks and getenv/setenv/unsetenv selection","src/env.c")],["returned string","process environment"])
p("O04","Shared libraries: names, state and handles agree",
 "A library object holds either both a handle and its path or neither; loading into a loaded object fails or replaces it safely, unloading clears it even when the system reports an error; platform file names are built with the right prefix and suffix and only if they fit the caller's buffer.",
 ["inputs","histories","fault_sequences"],"all library names, buffer sizes and load/unload sequences",
 "Only one library and two buffer sizes are tested.",
 ["src/shared_library.c"],[("load/unload state transitions","src/shared_library.c"),("platform name construction","rcutils_get_platform_library_name")],["library object","output buffer"])
p("O05","Clocks: the right clock, in nanoseconds, validated",
 "System time comes from the realtime clock and steady time from the monotonic clock, converted to nanoseconds without truncation of seconds; out-of-range readings are reported as errors and the output is written only on success.",
 ["inputs"],"all clock readings",
 "The time test binary is not part of the running suite, and the clock cannot be made to fail in most tests.",
 ["src/time_unix.c","include/rcutils/time.h"],[("clock_gettime call and conversion","src/time_unix.c")],["output time value"])
p("O06","Time values are rendered exactly",
 "For every signed 64-bit time value, the nanoseconds and seconds strings show sign, zero-padded seconds and nanoseconds with fixed widths, the date string shows the instant of the value's magnitude with zero-padded milliseconds, and output is truncated to the caller's buffer and always terminated.",
 ["inputs"],"all time values including negative and extreme ones; all buffer sizes",
 "The time test binary is not part of the running suite, and samples few values.",
 ["src/time.c"],[("division, remainder and format widths","src/time.c")],["output string"])
# ---------------------------------------------------------------- strings
p("O07","Path predicates report what the system says",
 "Each path predicate is true exactly when the status of the given path can be read and shows what its name promises (exists, directory, regular file, readable and/or writable by its owner) and false for a null path; the working directory is reported into exactly the given buffer; the size reported for a regular file is its size, and zero for anything else.",
 ["inputs","fault_sequences"],"every path, file type, permission set and failing system call",
 "Tests create a handful of files with default permissions, and their suite is not among the reliable ones.",
 ["src/filesystem.c"],[("predicates over stat()","src/filesystem.c")],["returned answer"])
p("O08","Paths are put together completely",
 "Joining two paths yields the first, one separator and the second, and expanding a leading tilde yields the home directory followed by the rest of the path, complete for every length; a path without a tilde is copied unchanged. Nothing is returned only for null arguments, a missing home directory or a failure.",
 ["inputs","configurations"],"all paths, lengths and home directories",
 "Tests join short paths and expand one home directory, and their suite is not among the reliable ones.",
 ["src/filesystem.c","include/rcutils/filesystem.h"],[("join and tilde expansion","src/filesystem.c"),("size limit of the formatting","src/format_string.c")],["returned path"])
p("O09","Directory listings and sizes count every entry once",
 "A directory iterator shows, in turn, exactly the entries the system lists, and each step says whether there was a further one. The size of a directory is the sum of the sizes of the files in it, each counted once on top of the others, leaving out `.` and `..`; subdirectories are descended into whenever the depth is not limited and never beyond the limit.",
 ["inputs","histories","fault_sequences"],"all directory contents, depths, depth limits and failing system calls",
 "Tests list two fixed directories, and their suite is not among the reliable ones.",
 ["src/filesystem.c","include/rcutils/filesystem.h"],[("iterator","rcutils_dir_iter_next"),("listing loop","rcutils_calculate_directory_size_with_recursion")],["entry names","returned size"])
p("S01","Searches return the documented position or not-found",
 "Character searches return the first (or last) position of the delimiter within the given length, and the not-found value for null or empty input or when absent; positions returned are always inside the text.",
 ["inputs"],"all strings, delimiters and lengths",
 "A few strings are tested.",
 ["src/find.c"],[("scan loops or library scans","src/find.c")],["returned index"])
p("S02","String copies and formatted strings are complete and terminated",
 "Duplicated and formatted strings are fresh, null-terminated, exactly as long as the source (limited to the requested maximum), and nothing beyond the source's stated length is read; formatting wrappers report the full length, pass the caller's size and arguments through unchanged, and never leave errno-based failures undetected.",
 ["inputs"],"all strings, lengths and limits",
 "A few lengths and limits are tested.",
 ["src/strdup.c","src/format_string.c","src/snprintf.c","src/repl_str.c"],[("length computation, copy, termination","src/strdup.c, src/format_string.c")],["returned string"])
p("S03","Splitting partitions the text at delimiters",
 "Every token produced by splitting is a piece of the input copied completely and null-terminated (for the full split: non-empty and between delimiters; for splitting at the last delimiter: the two sides of it); every slot of the resulting array holds a token; on failure the output array is empty and nothing is leaked.",
 ["inputs","fault_sequences"],"all strings (leading, trailing, repeated delimiters) and allocation failures",
 "Tests sample some strings; failure cleanup is not sampled.",
 ["src/split.c"],[("token counting and copying","src/split.c")],["output array"])
p("S04","Case-insensitive comparison reports through the right sign",
 "Case-insensitive comparison forwards both strings (and length) in order to the platform comparison and stores its result unchanged, for limited and unlimited variants alike, and rejects nulls without writing the result.",
 ["inputs"],"all string pairs and lengths",
 "A few pairs are tested.",
 ["src/strcasecmp.c"],[("strcasecmp/strncasecmp call","src/strcasecmp.c")],["result"])
p("S05","Locale-independent alphanumeric test is exact",
 "A character is classified alphanumeric exactly when it is an ASCII digit or letter, for all 256 character values and both char signedness conventions.",
 ["inputs"],"all character values",
 "Tests iterate over only part of the range.",
 ["include/rcutils/isalnum_no_locale.h"],[("range comparisons","rcutils_isalnum_no_locale")],["result"])
p("S06","Command-line lookup stays inside the argument range",
 "Option lookup never looks outside the given half-open argument range. The existence query reports presence exactly when one argument in the range equals the option; the value query returns the argument right after the first one that begins with the option text if that too lies inside the range, and null otherwise.",
 ["inputs"],"all argument vectors and options",
 "Few vectors are tested.",
 ["src/cmdline_parser.c"],[("range-bounded loop","src/cmdline_parser.c")],["returned pointer"])
p("S07","Substring replacement preserves all other text",
 "Replacing yields a fresh, terminated string whose length equals the source length adjusted by the number of non-overlapping matches times the length difference, with every match replaced and all other text unchanged; the source is not modified.",
 ["inputs"],"all source, pattern and replacement strings",
 "A dozen strings are tested.",
 ["src/repl_str.c"],[("match cache and copy loop","src/repl_str.c")],["returned string"])
# ---------------------------------------------------------------- misc
p("X01","Fault injection fires exactly once, atomically",
 "After the counter is set to a non-negative n, exactly the (n+1)-th fault point reached fails, whichever threads reach it; a negative counter never changes and never fails. The counter is only ever accessed with atomic read-modify-write operations.",
 ["schedules","histories"],"all interleavings of threads reaching fault points and all counter values",
 "Tests are single-threaded.",
 ["src/testing/fault_injection.c","include/rcutils/testing/fault_injection.h"],[("compare-exchange loop","src/testing/fault_injection.c")],["counter","returned count"])
p("X02","SHA-256 matches the standard for every message",
 "The digest equals the FIPS 180-4 SHA-256 of the concatenation of all updates, independent of how the message is split into updates, for every message and length.",
 ["inputs","histories"],"all messages and all ways of splitting them",
 "A few vectors are tested.",
 ["src/sha256.c","include/rcutils/sha256.h"],[("block transform, buffering and padding","src/sha256.c")],["digest"])
p("X03","Sorting validates its arguments and delegates faithfully",
 "Sorting fails on null arguments without touching the data, treats an empty array as success, and otherwise hands exactly the given array, count, element size and comparison to the sort.",
 ["inputs"],"all argument combinations",
 "The null combinations are not all tested.",
 ["src/qsort.c"],[("argument checks","rcutils_qsort")],["call to the platform sort"])
p("X04","Executable name and process id are reported faithfully",
 "The executable name is a fresh, terminated copy of the last path component of the program's invocation path for every invocation path, and the process id is the operating system's.",
 ["inputs"],"all invocation paths",
 "Tests see one invocation path.",
 ["src/process.c"],[("basename and copy","src/process.c")],["returned string"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
