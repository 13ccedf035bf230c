#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
E = "src/include/falcon/engine/"
PS = E + "pagedstack.h"
I = "src/include/falcon/"

prop("C01", "Paged stack behaves as a LIFO sequence under any operation history",
 "For every page size, preallocation count and element type, and after any sequence of pushes (single, multiple, emplaced), pops (single, multiple, reversed), top reads and writes, count and iterator discards, clears and shrinks that respects the documented preconditions, the stack's size, emptiness, top, peeked values and full content equal those of a plain sequence given the same operations. No element is lost, duplicated, resurrected or reordered when operations cross page boundaries. The reported statistics (number of the current page, elements in it, page size) agree with that size.",
 ["histories", "inputs", "configurations"],
 "all operation sequences inside the documented preconditions, all page sizes >= 1 and preallocation counts >= 1, trivial and non-trivial element types",
 "The tests run a few fixed scripts with one page size; page-boundary states depend on the history (emptied pages kept as spares, stale content of spare pages), which scripts sample and cannot enumerate.",
 [PS, E + "distribute.h"],
 [("push/advance/growBase", PS), ("internal_pop/internal_pop_one/pop_reverse", PS), ("discard/internal_discard/clear", PS), ("peek*/from_top", PS)],
 ["size()", "empty()", "top()", "peek()", "getStats()", "pop()"])

prop("C02", "Every traversal of the paged stack visits exactly its elements, in order",
 "Forward iteration visits the elements top to bottom, reverse iteration bottom to top, and iteration from a given depth visits exactly that many topmost elements upwards; each ends precisely at its end position whatever spare pages exist. Constant and mutable iterators, pre- and post- increment and decrement and step-by-n agree with index arithmetic on the same sequence, and two iterators are equal exactly when they denote the same position. Writing through a mutable iterator changes exactly the element it denotes.",
 ["histories", "inputs", "configurations"],
 "all reachable stack states (including those with spare or just-emptied pages), all iterator walks inside [begin, end]",
 "Tests iterate stacks with a fixed shape; whether the end is recognised depends on the allocated page list, i.e. on the past of the stack.",
 [PS], [("iterator_base / reverse_iterator_base", PS), ("begin/end/rbegin/rend/from_top", PS)],
 ["begin()/end()", "rbegin()/rend()", "cbegin()/crbegin()", "from_top()"])

prop("C03", "Synchronous iterators stay valid while the stack changes under them",
 "A synchronous iterator can be kept, copied, assigned, advanced and read while elements are pushed and popped: it yields the element at its own position while that position still exists, falls back to the current top when the position has been removed, and reports an empty stack with an error instead of touching freed memory. A shrink requested while any synchronous iterator is alive is carried out when, and only when, the last of them is gone, and immediately when none is alive. Both the mutable and the read-only flavour offer this.",
 ["histories", "configurations"],
 "all interleavings of iterator creation/copy/assignment/move/destruction with pushes, pops, clears, discards and shrinks",
 "Tests use one iterator on one history; copying, several live iterators and the deferred shrink interact only across long histories.",
 [PS], [("sync_iterator_base::synchronize", PS), ("m_syncIterCount/m_shrinkRequest/removeSyncIterator/shrink_to_fit", PS)],
 ["sync_begin()/sync_end()", "get()", "getStats() page count"])

prop("C04", "The paged stack gives back every element and every byte it takes",
 "Every element constructed inside the stack is destroyed exactly once: when it leaves the stack (at the latest when clear, discard or pop returns) or when the stack dies; every byte obtained from the user's allocator is returned to that allocator. Elements never change address while on the stack, growth happens only by whole preallocated groups of pages, pushing and popping inside already allocated pages allocates nothing, and shrinking frees exactly the pages above the current one.",
 ["histories", "configurations", "inputs"],
 "all operation histories, page sizes, preallocation counts, allocators (stateful included) and element types with observable lifetime",
 "Tests use plain integers and the default allocator, so neither lifetimes nor relocation nor allocator balance are visible to them.",
 [PS], [("growBase reserve", PS), ("internal_shrink_to_fit", PS), ("page clear/resize on removal", PS)],
 ["element constructor/destructor counts", "allocator allocate/deallocate log", "element addresses", "getStats()"])

prop("C05", "A failing element or allocator leaves the paged stack consistent",
 "When copying or constructing an element throws, or the allocator fails, in the middle of an operation, the stack stays consistent: emptiness, size, content and iteration still agree with each other, a failed single push or emplace leaves the stack as it was, and a failed multiple push or pop has applied exactly the steps that completed before the fault. The stack stays fully usable afterwards and still releases everything.",
 ["fault_sequences", "histories"],
 "every position at which an element copy/construction/assignment or an allocation can fail, in every operation history",
 "No test injects a fault; the critical states appear only when the fault falls on a page boundary.",
 [PS], [("advance before push_back/emplace_back", PS), ("growBase", PS)],
 ["size()/empty()/top() after the exception", "further pushes and pops", "constructor/destructor balance"])

prop("C06", "A paged stack built with a real mutex is safe to share between threads",
 "When the stack is instantiated with a locking mutex, concurrent calls of its non-iterator operations behave as if executed one at a time in some order compatible with each caller's program order: every caller gets values consistent with that order, no element is lost or duplicated, and no operation deadlocks or leaves the mutex locked, even when an element operation throws.",
 ["schedules", "histories"],
 "all interleavings of concurrent pushes, pops, multi-pushes, multi-pops, discards, peeks, size and statistics queries",
 "The one threaded test exercises a single shape on whatever schedule the OS happens to produce.",
 [PS], [("std::lock_guard<_Mutex> in each public operation", PS), ("lock_guard", PS)],
 ["values returned to each thread", "final content", "mutex state"])

prop("C07", "Copies and moves of a paged stack are independent and equal",
 "A stack that is copy-constructed, copy-assigned, move-constructed or move-assigned holds the same sequence as its source had; afterwards any operation on one of the two never changes or damages the other, and both release exactly their own elements. A moved-from stack can be destroyed or assigned to.",
 ["histories"],
 "all pairs of histories before and after the copy or move",
 "No test copies a stack.",
 [PS], [("implicit copy/move members, m_curBase", PS)], ["content of both stacks", "destructor counts"])

prop("C08", "The lightweight lock excludes, publishes and never loses a lock",
 "At most one thread is between lock and unlock of the same lightweight lock, for every spin count; whatever was written before an unlock is visible after the next lock; a free lock can always be acquired, and it reports itself locked exactly while some thread holds it.",
 ["schedules", "configurations"],
 "all interleavings of any number of threads over lock, unlock and the locked query, all spin counts, spurious compare-exchange failures included",
 "The tests increment a counter a few times from two threads; a lost exclusion or a missing release needs one particular interleaving or a particular memory order.",
 [I + "futex.h"], [("compare_exchange_weak loop with acquire", I + "futex.h"), ("release store in unlock", I + "futex.h")],
 ["critical section occupancy", "plain data written inside (data-race detector)", "isLocked()"])

prop("C09", "The recursive lock counts its owner's acquisitions and excludes others",
 "A thread that holds the recursive lock can lock it again without blocking; the lock becomes free exactly when the owner has unlocked it as many times as it locked it, and until then every other thread's lock call waits. It reports itself locked exactly while owned, and reports ownership to a thread exactly when that thread holds it; locks and threads do not interfere with each other's state.",
 ["schedules", "histories"],
 "all interleavings of nested lock/unlock sequences of several threads over several recursive locks",
 "No test of the recursive lock exists in the stable suite.",
 [I + "futex.h", "src/engine/futex.cpp"], [("RFutex::lock owner CAS", I + "futex.h"), ("m_count", I + "futex.h"), ("thread ids", "src/engine/futex.cpp")],
 ["isOwner()", "isLocked()", "occupancy"])

prop("C10", "A contended lightweight lock waits as its spin count promises",
 "With spin count zero a waiting thread never yields the processor; with one it yields at every failed attempt; with N greater than one it yields after each N failed attempts, for as long as the contention lasts. An uncontended acquisition never yields, and a waiter acquires the lock at its first attempt after it is released.",
 ["configurations", "schedules"],
 "all spin counts and all contention lengths",
 "Tests only check that the lock terminates; the waiting policy is invisible to them.",
 [I + "futex.h"], [("sc countdown and yield", I + "futex.h")], ["calls to yield per failed attempt"])

prop("C11", "Atomic primitives compute exactly and lose no concurrent update",
 "Each atomic primitive (increment, decrement, add, fetch, set, exchange, compare-and-swap, xor, and, or) returns the documented value (new value for arithmetic, previous value for exchange and bit operations, success for compare-and-swap) and leaves the 32-bit two's complement result for every operand, wrapping around. Under concurrency no update is lost or applied twice, and every returned value is one the variable actually held at the moment of the operation.",
 ["inputs", "schedules"],
 "all 32-bit operand pairs; all interleavings of concurrent operations on one variable",
 "There is no test at all for these primitives.",
 [I + "atomic_gcc.h", I + "atomic.h"], [("__sync builtins", I + "atomic_gcc.h")], ["returned values", "final value"])

prop("C12", "A singleton yields one instance, built once, whoever asks first",
 "All accessors of all singleton handles of one type, read-only or mutable, direct or dereferenced, on any thread and in any order, refer to the same single instance; it is constructed exactly once, on first use and not before, and different types never share an instance.",
 ["schedules", "histories"],
 "all access orders, any number of handles and threads racing on the first access",
 "The test touches one handle on one thread after construction.",
 [I + "singleton.h"], [("function-local static in get()", I + "singleton.h")], ["addresses", "constructor counts"])

prop("C13", "Item conversions agree with the value the item was built from",
 "An item built from any supported value reports the matching type name, and converts to text, boolean, integer and back to its native type as defined by that value: nil is \"nil\"/false/0, booleans are \"true\"/\"false\" and 1/0, numbers print like standard streams print them and convert by truncation, strings are themselves, true when non-empty, and read as decimal integers. Every value in range is preserved exactly; text that is no number, or too large a number, converts without terminating the program; unsupported types are rejected with an error.",
 ["inputs"],
 "all values of all supported native types (extremes, empty and binary strings, zero signs, 50-digit numbers)",
 "The tests check one value per type.",
 [E + "item.h", E + "itemdata.h", E + "inthandler.h", E + "floathandler.h", E + "boolhandler.h", E + "nilhandler.h", E + "stringhandler.h", E + "bignumhandler.h", "src/engine/handlerfactory.cpp"],
 [("Item(T) dispatch", E + "item.h"), ("ItemData(T)", E + "itemdata.h"), ("handlers", E)], ["toString()", "toBool()", "toInt()", "get<T>()", "typeName()"])

prop("C14", "Items own their values through copies, moves and destruction",
 "Items may be copied, moved, assigned (to themselves included), swapped, stored in containers and destroyed in any order: every copy keeps converting to the same value as its source independently of what happens to the source, and every owned value is released exactly once. A value allocated by a type handler is a usable default value of that type and is released by the same handler; flat handlers own nothing.",
 ["histories", "inputs"],
 "all sequences of construction, copy, move, assignment and destruction over all supported value types",
 "The tests never copy an item holding a string or a big number.",
 [E + "item.h", E + "deephandler.h", E + "deepflatcopyhandler.h", E + "flathandler.h"], [("~Item -> handler->destroy", E + "item.h"), ("DeepHandler::allocate/destroy", E + "deephandler.h")],
 ["heap balance / use-after-free detector", "values of the copies"])

prop("C15", "Compiled code reproduces its source, however long, through any copies",
 "Compiling a source token and rendering the resulting code yields exactly that token for every length and content; a code object keeps rendering the same text through any sequence of copies, moves and assignments, independently of the objects it was copied from, and every code object can be destroyed or assigned to afterwards in any order. Empty input yields empty code.",
 ["inputs", "histories"],
 "all whitespace-free source tokens of any length and content; all copy/move/assign/destroy sequences",
 "The test compiles one short literal.",
 ["src/engine/code.cpp", "src/engine/compiler.cpp", E + "code.h", E + "compiler.h"], [("Code buffer", "src/engine/code.cpp"), ("Compiler::compile", "src/engine/compiler.cpp")], ["Code::toString()"])

prop("C16", "Each accepted log message reaches exactly the listeners entitled to it",
 "A message is accepted exactly when its level is not above the system's level at the call, and every accepted message is handed, once and unchanged (file, line, level, category, text), to every registered listener that is enabled, not detached, admits its level and admits its category, and to no other; each listener sees the messages in the order they were logged. A listener registered before a message is logged receives it, a detached listener receives nothing more and is released by the system.",
 ["histories", "inputs", "configurations"],
 "all sequences of logging, level changes, listener registration, enabling, disabling, level/category change and detachment, all message contents; also when listeners log or register listeners themselves",
 "Tests use one or two listeners with fixed scripts and a handful of messages.",
 ["src/engine/logsystem.cpp", I + "logsystem.h"], [("sendMessageToListeners", "src/engine/logsystem.cpp"), ("processNewListeners/cleanupTerminatedListeners", "src/engine/logsystem.cpp")], ["listener callbacks"])

prop("C17", "Concurrent producers lose, tear and reorder nothing",
 "When any number of threads log at the same time, every accepted message arrives once and intact, messages of one thread arrive in the order that thread logged them, all listeners that see two messages see them in the same order, and listeners are never called for two messages at once.",
 ["schedules"],
 "all interleavings of producers with the delivery thread, including listener registration, level changes and diagnostics queries at the same time",
 "Tests log from one thread; a lost wake-up, an unprotected queue or a pool handing one record to two producers needs a particular interleaving.",
 ["src/engine/logsystem.cpp", I + "logsystem.h"], [("m_mtxMessage/m_cvLogs queue", "src/engine/logsystem.cpp"), ("m_mtxPool", "src/engine/logsystem.cpp")], ["listener callbacks", "data-race detector"])

prop("C18", "The log service starts, stops, restarts and dies cleanly",
 "Starting and stopping the log service in any order and number of times, and destroying it in any state (never started, running, with queued messages, stopped), always terminates: stop and destruction return only once no listener is being or will be called, messages logged while the service is not running are kept and delivered, in order, after the next start, and a restarted service delivers again. No message or listener outlives the system, and nothing is freed twice.",
 ["histories", "schedules"],
 "all start/stop/log/destroy sequences, at any point of the delivery thread's work",
 "Tests start once and let the destructor stop.",
 ["src/engine/logsystem.cpp"], [("start/stop/~LogSystem, m_isTerminated", "src/engine/logsystem.cpp")], ["callbacks after stop", "termination", "heap balance"])

prop("C19", "Log records are pooled within bounds and diagnostics tell the truth",
 "The record pool never exceeds its threshold, records are conserved (created minus destroyed equals pooled plus in flight, counting the initial pool), reusing a pooled record keeps nothing of and leaks nothing from its previous content, and once the system is idle and destroyed no memory remains. Diagnostics report the actual number of received messages, pooled records, created and discarded records, largest queue length, and pending, active and enabled listeners.",
 ["histories", "inputs", "schedules"],
 "all logging histories and message sizes, bursts larger than the pool included",
 "Tests compare two counters after short bursts; leaks and stale content are invisible to them.",
 ["src/engine/logsystem.cpp", I + "logsystem.h"], [("allocateMsg/disposeMsg", "src/engine/logsystem.cpp"), ("getDiags", "src/engine/logsystem.cpp")], ["getDiags()", "heap balance"])

prop("C20", "Listener category filters select by whole-string regular expression",
 "A listener with a category filter admits exactly the messages without category and those whose whole category matches the regular expression; an empty filter admits everything. Setting an invalid expression raises the documented error and leaves the previous filter in force; the filter reads back as set, and filtering writes nothing to the standard streams.",
 ["inputs", "histories"],
 "all (expression, category) pairs and all sequences of valid and invalid filter changes",
 "Tests use two literal filters.",
 [I + "logsystem.h", "src/engine/logsystem.cpp"], [("Listener::category / checkCategory", I + "logsystem.h")], ["category()", "checkCategory()", "delivered messages", "captured stdout/stderr"])

prop("C21", "Each message is written as one well-formed log line",
 "The stream listener writes, for every message and every system time, exactly one line: local time as YYYY-MM-DD HH:MM:SS (zero padded), the four-character level name in brackets, the category in parentheses only when there is one, the file name without its directory, colon, the line number in decimal, the text, a newline; and flushes it. The layout depends only on the message and the time, not on formatting state the stream or earlier messages left behind, and leaves no formatting state behind that alters what others write on the stream.",
 ["inputs", "histories"],
 "all messages (any path shape, negative lines, empty texts, unknown levels) and all times, on streams in any formatting state",
 "Tests match one line against a loose pattern at the current time.",
 ["src/engine/logstream.cpp", I + "logstream.h"], [("LogStreamListener::onMessage", "src/engine/logstream.cpp"), ("levelToString", "src/engine/logsystem.cpp")], ["bytes written", "flush calls", "interposed clock"])

prop("C22", "Log output can be redirected at any time without loss or misuse",
 "The stream listener writes nowhere until given a stream; after a redirection (borrowed, shared or owned stream) returns, every later message is written whole to the new stream and to no other, including while messages are being written concurrently. An owned stream lives until the listener releases it or dies and is destroyed once, a shared one is kept alive at least while it is the target, a borrowed one is never destroyed.",
 ["histories", "schedules"],
 "all sequences and interleavings of redirections of all three kinds with messages and listener destruction",
 "Tests set a stream once per kind.",
 [I + "logstream.h", "src/engine/logstream.cpp"], [("own/share/writeOn under m_mtxStream", I + "logstream.h")], ["content of each stream", "destructor counts"])

prop("C23", "A log statement or block produces exactly the composed message",
 "Each single-line statement or block whose level is enabled produces exactly one message carrying the statement's file, line and level and the text its inserted values would produce on a fresh standard stream, whatever earlier statements, other threads' statements or stream manipulators did; a statement or block below the enabled level produces none, does not render the values inserted into it, and a disabled block's body is not executed.",
 ["histories", "inputs", "schedules"],
 "all sequences of statements and blocks on any number of threads, all levels, inserted values and stream manipulators",
 "logger.fut checks a few literals and is not in the stable suite.",
 [I + "logger.h", "src/engine/logger.cpp"], [("AutoEnd/BlockEnd/commit/readyStream", I + "logger.h"), ("thread_local composer", "src/engine/logger.cpp")], ["messages received by a listener"])

prop("C24", "Log categories are per thread and temporary categories last one message",
 "Every message carries the category last set by its own thread, whatever level is in force when it is set and whatever other threads set; a message-scoped category replaces it for exactly that message, and the next message of that thread carries the thread's category again. A message-scoped category in a statement that is not logged has no effect.",
 ["histories", "schedules"],
 "all sequences of category changes, scoped categories, level changes and messages on any number of threads",
 "Tests use one thread and two categories.",
 [I + "logger.h"], [("m_category/m_tempCategory thread locals, commit()", I + "logger.h"), ("LOG_CATEGORY / LOG_CAT", I + "logger.h")], ["category of received messages"])

prop("C25", "The category filter helper adds one filtered view and restores the logger",
 "Setting the logger's category filter keeps the default output as it was for the general level, and additionally sends to the default output's stream the messages of matching category up to the filter's level, raising the general level only if needed; setting a new filter replaces the previous one and clearing it restores the general level in force before the first filter, however many filters were set. Clearing without a filter changes nothing.",
 ["histories", "inputs"],
 "all sequences of filter setting, clearing, and logging at every level and category",
 "logger.fut sets and clears one filter.",
 ["src/engine/logger.cpp", I + "logger.h", I + "logproxy.h"], [("categoryFilter/clearFilter/m_proxy/m_proxyBaseLevel", "src/engine/logger.cpp"), ("LogProxyListener::onMessage", I + "logproxy.h")], ["lines written by the default listener", "level()"])

prop("C26", "Compile-time log level removes exactly the levels above it",
 "With any compile-time minimum level, statements and blocks at or below it behave exactly as in a full build, and those above it never log, never render their values and never execute their blocks, whatever the run-time level; disabling all levels removes every statement, and category changes still take effect for the messages that remain.",
 ["configurations", "histories"],
 "all compile-time levels (disabled to trace) x all run-time levels x all statement levels and sequences",
 "The tests are built with one compile-time level.",
 [I + "logger.h"], [("FALCON_MIN_LOG_LEVEL in AutoEnd/BlockEnd/LOG_BLOCK/LOG_CATEGORY", I + "logger.h")], ["messages received", "side effects of operands"])

prop("C27", "The test framework's verdict and exit status tell the truth",
 "A test passes exactly when set-up, body and tear-down completed, no check failed, no exception escaped and nothing was captured on its error stream; the run's exit status is zero exactly when every executed test passed. A failed test records the last failed check's expression, source file name, line and actual value; an escaping exception is recorded with its text; one test's outcome never affects another's.",
 ["histories", "inputs"],
 "all collections of tests with arbitrary outcomes in set-up, body and tear-down, in any order and repeated",
 "The framework's own tests contain only a handful of fixed outcomes, and the suite runs on the framework itself, which would hide a wrong verdict.",
 ["src/fut/testcase.cpp", "src/fut/unittest.cpp", I + "fut/fut.h"], [("TestCase::run/checkFail", "src/fut/testcase.cpp"), ("hasPassed/runAllTests", "src/fut/unittest.cpp")], ["exit status", "status()", "failDesc()/failFile()/failLine()"])

prop("C28", "The runner executes exactly the selected tests, grouped, with fixtures",
 "Without selection every registered test runs once; with selections exactly the selected ones run, once per selection, whatever is registered besides. Tests of a component run together and components run in lexicographic order; each execution is set-up, body, tear-down, with tear-down invoked whenever set-up completed, even if the body throws.",
 ["configurations", "histories"],
 "all registrations (names, components, interleaved order) and all selection lists",
 "The framework's tests use one or two components and no selection.",
 ["src/fut/unittest.cpp", "src/fut/testcase.cpp"], [("runAllTests component grouping", "src/fut/unittest.cpp"), ("parseParams -t", "src/fut/unittest.cpp"), ("TestCase::run", "src/fut/testcase.cpp")], ["execution trace recorded by the tests themselves"])

prop("C29", "Test output is captured per test and reported as verbosity says",
 "What a test writes on standard output and error is captured by the framework, restored afterwards, attributed to that test alone and printed as the verbosity rules: silent prints nothing, failed tests' captured text is shown, passing tests' error text only from level 4 and output text only from level 5, per-test results from level 2 and announcements from level 3. Executions are numbered consecutively and the final report lists exactly the executed tests that failed; with capture off the text passes through unaltered.",
 ["configurations", "histories", "inputs"],
 "all verbosity levels, capture on/off, test outputs and outcomes",
 "One test pins one verbosity combination.",
 ["src/fut/unittest.cpp", "src/fut/testcase.cpp"], [("beginTest/endTest rdbuf capture", "src/fut/testcase.cpp"), ("endTest/report verbosity rules", "src/fut/unittest.cpp")], ["text printed on stdout/stderr"])

prop("C30", "The XML report is well formed and says what happened",
 "For every set of tests, names and failure texts the XML report is a well-formed document that lists each executed test exactly once under its component, with ids and names as given, marks as failed exactly the failed ones with their message, type, file and line, and carries counts equal to what it lists.",
 ["inputs", "configurations"],
 "all test names, ids, failure messages (markup characters and any printable text included) and outcome mixes",
 "No test reads the XML report.",
 ["src/fut/unittest.cpp"], [("saveToXML", "src/fut/unittest.cpp")], ["the report file"])

prop("C31", "Check macros decide exactly the relation they name",
 "Every comparison check passes exactly when the named relation holds between expected and actual value, for every pair and kind of operand expression without side effects; otherwise it marks the test failed, records source file, line, expression text and actual value, and leaves the test body immediately, as does an explicit failure. Floating point equality accepts values closer than one ten-thousandth and rejects clearly different ones, inequality being its opposite; exception checks pass exactly when an exception of the named kind is (or is not) thrown.",
 ["inputs"],
 "all operand values of the usual types and expression shapes (operators of any precedence), all thrown types",
 "fut_checks compares a couple of literals per macro and never observes a failing check.",
 [I + "fut/fut.h", "src/fut/testcase.cpp"], [("FALCON_TEST_CHECK_LOGIC, EXPECT_*", I + "fut/fut.h"), ("checkFail", "src/fut/testcase.cpp")], ["status and description recorded by the test case", "statements executed after the check"])

prop("C32", "The test program's command line means what the help says",
 "Every well-formed combination of the documented options, in any order and repetition (last value wins, selections accumulate), configures the run as documented; help prints the usage and runs nothing, an unknown option, a missing option value, an out-of-range verbosity or an unknown test name runs nothing; each of these returns a non-zero status with a diagnostic, without crashing. Default name and id are the program's file name without directory and extension.",
 ["inputs", "configurations"],
 "all argument vectors built from documented options, values and garbage",
 "No test passes arguments.",
 ["src/fut/unittest.cpp"], [("parseParams/usage/detectTestName", "src/fut/unittest.cpp")], ["exit status", "execution trace", "report", "printed text"])

prop("C33", "Elapsed times are the clock differences they claim to be",
 "A test's, a component's and the run's reported time equals the difference between the clock at its end and at its beginning in milliseconds, excluding a test's set-up and tear-down, also for failing and throwing tests, with millisecond reading truncated from the system clock for any clock value; a clock that steps backwards across midnight is compensated by one day, and reports show the value in seconds with three decimals.",
 ["inputs", "histories"],
 "all clock sequences (the harness owns the clock) and test outcomes",
 "fut_timing sleeps and checks a wide real-time window.",
 ["src/fut/marktime-unix.c++", I + "fut/timelapse.h", "src/fut/testcase.cpp", "src/fut/unittest.cpp"], [("markTime", "src/fut/marktime-unix.c++"), ("TimeLapse::elapsed", I + "fut/timelapse.h")], ["elapsedTime()", "printed and XML times"])

prop("C34", "Public headers compose in any order in any number of source files",
 "Every public header compiles on its own and together with any other selection of public headers in any order, repeated or not, and any number of source files doing so, and using what the headers offer, link into one program with the library.",
 ["programs", "configurations"],
 "all ordered selections of public headers distributed over several translation units",
 "Each test is a single source file with one include order.",
 ["src/include/falcon"], [("include guards, inline definitions", "src/include/falcon")], ["compiler and linker verdict"])

prop("C35", "Distributing an iterator fills every target once, in order",
 "Distributing an input sequence over N targets assigns the first N elements to the targets in order, converting as assignment does, reads each element once, advances the iterator exactly N-1 steps (visible to the caller when it passes a variable) and never reads beyond the N-th element.",
 ["inputs"],
 "all sequences, iterator kinds (forward, input/single-pass, counting), target counts and target types",
 "It is only exercised indirectly with random access sequences.",
 [E + "distribute.h"], [("distribute recursion", E + "distribute.h")], ["targets", "iterator position and dereference counts"])

prop("C36", "A proxy listener hands on exactly what it admits",
 "A proxy listener hands every message that the log system gives it (those its own level, category filter, enabled and detached state admit) to the listener behind it, exactly once, unchanged and in order, whatever levels and categories that listener admits itself and whether or not it is registered anywhere; any number of proxies, and proxies of proxies, do so independently of each other. A proxy keeps the listener behind it alive while it lives, and no longer.",
 ["histories"],
 "all graphs of listeners and proxies over one or more log systems x histories of messages, level, filter, registration and reference changes",
 "No test uses a proxy directly; logger.fut sees one through the category filter helper.",
 [I + "logproxy.h", I + "logsystem.h", "src/engine/logsystem.cpp"], [("LogProxyListener::onMessage / m_other", I + "logproxy.h"), ("sendMessageToListeners", "src/engine/logsystem.cpp")], ["messages received by the listeners behind proxies", "lifetime of those listeners"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
