"""The registered checks: what run.py builds and runs for each property."""


def instrument_accesses(flags):
    """Compiler instrumentation of every memory access, served by the harness's own runtime."""
    return [f for f in flags if not f.startswith(("-fsanitize", "-fno-sanitize"))] + ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1"]


CHECKS = {
    "C01": dict(
        flavors=[dict(name="asan", src=["c01.cpp", "c01_s.cpp", "c01_r.cpp"])],
        technique="model-based stateful property testing (choice-sequence generator, shrinking) under ASan/UBSan",
        rule="a case is a random history of 4..64 operations over one stack (random page size, preallocation, element type), compared with a vector model after each; "
             "non-trivial: at least two operations moved the current page up or down",
        assumptions=["operations respect the documented preconditions (no pop/peek/discard beyond the size, page size and preallocation >= 1)",
                     "iterator discard removes the pointed element as the existing tests fix it"]),
    "C02": dict(
        flavors=[dict(name="asan", src=["c02.cpp", "c02_s.cpp"])],
        technique="model-based property testing of iterator walks over generated stack states under ASan/UBSan",
        rule="a case is up to 4 rounds of a random operation history followed by full traversals in every direction, a random iterator walk and a write; "
             "non-trivial: a traversed state had more than one page in use",
        assumptions=["iterators move only inside [begin, end] and are used only until the next modification of the stack"]),
    "C03": dict(
        flavors=[dict(name="asan", src=["c03.cpp@0", "c03.cpp@1", "c03.cpp@2", "c03.cpp@3"]), dict(name="coop", src=["c03_mt.cpp"]), dict(name="tsan", src=["c03_rt.cpp"], san="tsan", workers=4)],
        technique="model-based stateful property testing (absolute-index model of iterators, page-count model of the deferred shrink) under ASan/UBSan; generated schedules checked by a linearization search; real-thread stress under ThreadSanitizer",
        rule="a case is a random history mixing stack operations with creation, copy, assignment, stepping, reading and destruction of up to 6 synchronous iterators and shrinks, by one thread or, under generated schedules, by several (explained by a linearization search); "
             "non-trivial: a resynchronisation together with a copy or assignment, or a deferred shrink carried out; of the concurrent cases, three uses of iterators and enough switches; every real-thread case counts",
        assumptions=["iterators do not outlive their stack", "an iterator past the bottom is only compared or destroyed, and one on the top is not moved further up"]),
    "C04": dict(
        flavors=[dict(name="asan", src=["c04.cpp"])],
        technique="stateful property testing with lifetime-tracking elements and a stateful accounting allocator under ASan/UBSan",
        rule="a case is a random operation history on a stack of tracked elements; after every operation live elements, addresses, page count and bytes held are compared with the model; "
             "non-trivial: the stack grew beyond its initial pages",
        assumptions=["the allocator follows the rebind interface the stack requires"]),
    "C05": dict(level="fault_enumeration",
        flavors=[dict(name="asan", src=["c05.cpp"])],
        technique="property testing with injected faults (n-th element operation or allocation fails) against a partial-application model under ASan/UBSan",
        rule="a case is a random history in which operations run with an armed fault at a random element operation or allocation; "
             "non-trivial: at least one fault fell next to a page boundary",
        assumptions=["operations declared not to throw (top(value), discard, clear) are exercised without faults inside them"]),
    "C06": dict(
        flavors=[dict(name="coop", src=["c06.cpp"]), dict(name="tsan", src=["c06_rt.cpp"], san="tsan", workers=4)],
        technique="concurrent-history property testing: generated operation scripts and generated schedules (cooperative scheduler) checked by a linearization search; real-thread stress under ThreadSanitizer",
        rule="a case is 2-3 threads with up to 4 generated operations each (faults injected in one arm) under a generated schedule with switches at every lock, unlock, allocation and element operation; "
             "non-trivial: the threads were switched more than twice as often as needed to run them one after the other; every real-thread case counts",
        assumptions=["threads only remove or peek elements they are entitled to (their share of the initial ones and their own pushes)", "top() read through its reference and iterators are outside the concurrent contract"]),
    "C07": dict(
        flavors=[dict(name="asan", src=["c07.cpp"]), dict(name="tsan", src=["c07_rt.cpp"], san="tsan", workers=3)],
        technique="model-based stateful property testing of a family of stacks related by copies and moves, with lifetime-tracking elements and accounting allocators under ASan/UBSan; copies used on different threads, under ThreadSanitizer",
        rule="a case is a random history over up to four stacks mixing operations with copy/move construction and assignment, self-assignment and destruction, all stacks being compared with their models after each step; "
             "non-trivial: at least two copies or moves, one of them of a stack with more than one page in use; every real-thread case counts",
        assumptions=["a moved-from stack is only assigned to or destroyed"]),
    "C08": dict(
        flavors=[dict(name="coop", src=["c08.cpp"], unity=["futex.cpp"], optional=True), dict(name="tsan", src=["c08_rt.cpp"], libs=["engine"], engine_only=["futex.cpp"], san="tsan", workers=3)],
        technique="property testing under generated schedules (cooperative scheduler, injected spurious compare-exchange failures) against a lock-state model; real-thread stress under ThreadSanitizer",
        rule="a case is 2-4 threads running generated lock/observe/unlock scripts over up to two locks of generated spin counts, switched at every atomic access; "
             "non-trivial: a lock was requested while held; every real-thread case counts",
        assumptions=["the scheduler explores sequentially consistent interleavings; orderings weaker than the code states are left to ThreadSanitizer's happens-before analysis"]),
    "C09": dict(
        flavors=[dict(name="coop", src=["c09.cpp"], unity=["futex.cpp"], optional=True), dict(name="tsan", src=["c09_rt.cpp"], libs=["engine"], engine_only=["futex.cpp"], san="tsan", workers=3, arms=["threads"]),
                 dict(name="plain", src=["c09_rt.cpp"], libs=["engine"], engine_only=["futex.cpp"], san="none", flags=["-O1"], workers=4, arms=["extremes"])],
        technique="property testing under generated schedules (cooperative scheduler) against an owner/depth model; real-thread stress under ThreadSanitizer; recursion up to 200000 deep and up to 66000 threads",
        rule="a case is 2-4 threads running generated nested lock/observe/unlock scripts over up to three recursive locks (taken in a global order), switched at every atomic access; "
             "non-trivial: both a contended and a nested acquisition happened; every real-thread case counts",
        assumptions=["locks are unlocked only by their owner", "fewer than 2^32 threads ever lock"]),
    "C10": dict(
        flavors=[dict(name="coop", src=["c10.cpp"], unity=["futex.cpp"], optional=True), dict(name="threads", src=["c10_rt.cpp"], libs=["engine"], engine_only=["futex.cpp"], san="none", flags=["-O1"], workers=3)],
        technique="property testing under generated schedules with an exact per-call model of failed attempts and yields (cooperative scheduler, sched_yield interposed); yields of real waiting threads counted",
        rule="a case is 1-4 threads contending for one lock of generated spin count with generated critical section lengths and spurious failures; "
             "non-trivial: some call failed at least twice its spin count (three times for zero); every real-thread case (waiters of a held lock) counts",
        assumptions=["an attempt is a read-modify-write of the lock, or a read that found it taken; spurious compare-exchange failures are failed attempts"]),
    "C11": dict(
        flavors=[dict(name="coop", src=["c11.cpp", "c11_ops.cpp"], src_flags={"c11_ops.cpp": instrument_accesses}),
                 dict(name="threads", src=["c11_rt.cpp"], san="none", flags=["-O2"], workers=3)],
        technique="property testing against a 32-bit model (sequential), linearization search under generated schedules with every memory access of the primitives as a scheduling point, value-chain oracle on real threads",
        rule="a case is a sequence of primitives on one variable with edge-biased operands, or 2-3 threads with up to 4 primitives each under a generated schedule, or a real-thread run; "
             "non-trivial: every sequential and real-thread case; scheduled cases whose threads interleaved",
        assumptions=["the gcc flavour of the header is the one built here"]),
    "C12": dict(
        flavors=[dict(name="coop", src=["c12.cpp", "c12_ops.cpp"], flags=["-DCOOP"], src_flags={"c12_ops.cpp": instrument_accesses}),
                 dict(name="tsan", src=["c12.cpp", "c12_ops.cpp"], san="tsan", workers=3)],
        technique="property testing of access histories, one fresh process per case, under generated schedules (every memory access of the accessors and every construction step a scheduling point) and with real threads under ThreadSanitizer",
        rule="a case is 1-4 threads using up to four singleton types through generated accessors of shared, global and local handles in a fresh process; "
             "non-trivial: some type is used by more than one thread",
        assumptions=["the constructor of the instance does not throw"]),
    "C13": dict(
        flavors=[dict(name="asan", src=["c13.cpp"], libs=["engine"], engine_only=["handlerfactory.cpp"]), dict(name="tsan", src=["c13_rt.cpp"], libs=["engine"], engine_only=["handlerfactory.cpp"], san="tsan", workers=3)],
        technique="property testing of every conversion over generated values of every supported type against an independent computation (ostream, decimal text, truncation) under ASan/UBSan; threads converting items of their own, under ThreadSanitizer",
        rule="a case is one item built from a generated value (edge-biased integers of every width, floats from bit patterns, binary and numeric strings, up to 50-digit decimals) and all its conversions, or an unsupported type; "
             "non-trivial: every type but nil and boolean; every real-thread case counts",
        assumptions=["a float converts to an integer only when its truncation fits 64 bits; unsigned values above the signed range only keep their native value"]),
    "C14": dict(
        flavors=[dict(name="asan", src=["c14.cpp"], libs=["engine"], engine_only=["handlerfactory.cpp"]), dict(name="tsan", src=["c14_rt.cpp"], libs=["engine"], engine_only=["handlerfactory.cpp"], san="tsan", workers=3)],
        technique="model-based stateful property testing of item histories with lifetime-tracked values, under ASan/UBSan and a per-case allocation balance; copies living on different threads, under ThreadSanitizer",
        rule="a case is a random history of construction, copy, move, assignment, swap, container storage and destruction over five items, a vector, a map and a paged stack, every item being converted after each step; "
             "non-trivial: at least one heap-owned value and one copy; every real-thread case counts",
        assumptions=["moved-from items are only assigned to or destroyed"]),
    "C15": dict(
        flavors=[dict(name="asan", src=["c15.cpp"], libs=["engine"], engine_only=["code.cpp", "compiler.cpp"]), dict(name="tsan", src=["c15_rt.cpp"], libs=["engine"], engine_only=["code.cpp", "compiler.cpp"], san="tsan", workers=3)],
        technique="round-trip and model-based stateful property testing under ASan/UBSan with a per-case allocation balance; compilations and copies on different threads, under ThreadSanitizer",
        rule="a case is a token of generated length and content (binary included, lengths biased to 15 and 1000) compiled and rendered, or a random history of copies, moves, assignments, swaps and destructions over five code objects; "
             "non-trivial: a token beyond the small-string length, or at least three transfers; every real-thread case counts",
        assumptions=["moved-from code is only assigned to or destroyed"]),
    "C16": dict(
        flavors=[dict(name="coop", src=["c16.cpp"], flags=["-DCOOP", "-O0"], unity=["logsystem.cpp"], optional=True),
                 dict(name="threads", src=["c16.cpp"], flags=["-O0"], libs=["engine"], engine_only=["logsystem.cpp"])],
        technique="model-based stateful property testing (history of listener configurations gives must/may/must-not deliveries) under generated schedules (cooperative scheduler) and with real threads, ASan/UBSan",
        rule="a case is a history of up to 48 operations (log at any level and category, level changes, adding, enabling, filtering, detaching listeners, start, stop, drain) over up to 6 listeners, or several systems side by side with repeated and binary messages; "
             "non-trivial: at least three listeners and a category filter; every case of several systems",
        assumptions=["a configuration change made while messages are pending may or may not apply to them", "listeners do not throw", "listeners do not stop the service from inside a call"]),
    "C17": dict(
        flavors=[dict(name="coop", src=["c17.cpp"], flags=["-DCOOP", "-O0"], unity=["logsystem.cpp"], optional=True),
                 dict(name="tsan", src=["c17.cpp"], libs=["engine"], engine_only=["logsystem.cpp"], san="tsan", workers=4)],
        technique="concurrent-history property testing: generated producer scripts and schedules (cooperative scheduler) against the delivery rules; real-thread stress under ThreadSanitizer",
        rule="a case is 2-4 producer threads (up to 7 real ones) with generated messages, up to 6 listeners coming and going and the system level changing meanwhile, under a generated schedule; "
             "non-trivial: at least two threads and three messages",
        assumptions=["listeners do not throw"]),
    "C18": dict(
        flavors=[dict(name="coop", src=["c18.cpp"], flags=["-DCOOP", "-O0"], unity=["logsystem.cpp"], optional=True),
                 dict(name="tsan", src=["c18.cpp"], libs=["engine"], engine_only=["logsystem.cpp"], san="tsan", workers=4)],
        technique="stateful property testing of service histories under generated schedules (cooperative scheduler, deadlocks and calls after stop detected exactly) under ASan/UBSan with an allocation balance; real threads under ThreadSanitizer",
        rule="a case is a history of start, stop, log, drain and destruction by one controller with concurrent producers, or by 2-3 contending threads, under a generated schedule, or of several systems started, stopped and destroyed side by side; "
             "non-trivial: the service was started and stopped at least once, or several threads or systems took part",
        assumptions=["stop is not called from inside a listener", "nobody uses the system while it is being destroyed", "when several threads start and stop at once only termination and eventual delivery are required"]),
    "C19": dict(
        flavors=[dict(name="coop", src=["c19.cpp"], flags=["-DCOOP", "-O0"], unity=["logsystem.cpp"], optional=True),
                 dict(name="tsan", src=["c19.cpp"], libs=["engine"], engine_only=["logsystem.cpp"], san="tsan", workers=4)],
        technique="model-based stateful property testing of record conservation and diagnostics under generated schedules with an allocation balance (ASan); real threads under ThreadSanitizer",
        rule="a case is a history of message bursts (up to 104 at once), drains, stops, starts, listener changes and diagnostics; non-trivial: a burst larger than the pool, and every concurrent case",
        assumptions=["messages handed over as objects (log(Message*)) are not counted as created records and are left out", "between start and drain the counters are only checked against bounds",
                     "a detached listener may be counted as active until the next message"]),
    "C20": dict(
        flavors=[dict(name="asan", src=["c20.cpp"], flags=["-O0"], libs=["engine"], engine_only=["logsystem.cpp"]),
                 dict(name="tsan", src=["c20.cpp"], flags=["-O0"], libs=["engine"], engine_only=["logsystem.cpp"], san="tsan", workers=4, arms=["changes"])],
        technique="property testing against an independent matcher for generated regular expressions (position sets), under ASan/UBSan, with standard streams captured; filters changing while messages flow, under ThreadSanitizer",
        rule="a case is a history of filter changes (valid, empty, invalid) and category checks with samples and near misses of the expression, or a filtered listener in a running system; "
             "non-trivial: both matching and non-matching categories were checked",
        assumptions=["expressions from an ECMAScript subset: literals, any character, classes, ranges, class escapes, groups, alternatives, greedy and lazy repetition of single characters, anchors around the whole", "categories without line breaks"]),
    "C21": dict(
        flavors=[dict(name="asan", src=["c21.cpp"], flags=["-O0"], libs=["engine"], engine_only=["logstream.cpp", "logsystem.cpp"]),
                 dict(name="tsan", src=["c21.cpp"], flags=["-DRT_ONLY"], libs=["engine"], engine_only=["logstream.cpp", "logsystem.cpp"], san="tsan", workers=3, arms=["systems"])],
        technique="property testing against an independently formatted line under a virtual system clock, generated time zones and generated stream states, ASan/UBSan; concurrent listeners under ThreadSanitizer",
        rule="a case is up to 7 messages of generated content written at generated times (often close to each other) in seven time zones, which may change in between, to streams in generated formatting states; non-trivial: a stream in a non-default state; every concurrent case",
        assumptions=["times between 1970 and 2255", "streams in a good state"]),
    "C22": dict(
        flavors=[dict(name="coop", src=["c22.cpp"], flags=["-DCOOP", "-O0"], unity=["logsystem.cpp", "logstream.cpp"], optional=True),
                 dict(name="asan", src=["c22.cpp"], flags=["-O0"], libs=["engine"], engine_only=["logsystem.cpp", "logstream.cpp"]),
                 dict(name="tsan", src=["c22.cpp"], libs=["engine"], engine_only=["logsystem.cpp", "logstream.cpp"], san="tsan", workers=4, arms=["concurrent"])],
        technique="model-based stateful property testing with streams that record their text and destruction; concurrent redirection under generated schedules (points inside every stream write) and under ThreadSanitizer",
        rule="a case is a history of messages and redirections over borrowed, shared and owned streams, or a writer and a redirecting thread; non-trivial: at least two redirections one of them to an owned stream, and every concurrent case",
        assumptions=["streams given are not null", "a borrowed stream outlives its use as target"]),
    "C23": dict(
        flavors=[dict(name="asan", src=["c23.cpp"], flags=["-O0"], libs=["engine"], engine_only=["logger.cpp", "logstream.cpp", "logsystem.cpp"])],
        technique="property testing of generated logging programs (one process each) against a fresh-stream model, with generated thread switches inside value rendering and nested statements, ASan/UBSan",
        rule="a case is a program of up to 3 threads with up to 10 steps each: statements and blocks at any level with generated values and manipulators, nested statements, blocks left early, level and category changes; "
             "non-trivial: several manipulators, and a nested statement or more than one thread",
        assumptions=["the level does not change while a statement is being composed", "a statement whose rendering throws, and a block left by break, return or exception, may give its message or none"]),
    "C24": dict(
        flavors=[dict(name="asan", src=["c24.cpp"], flags=["-O0"], libs=["engine"], engine_only=["logger.cpp", "logstream.cpp", "logsystem.cpp"])],
        technique="property testing of generated multi-threaded logging programs (one process each) against a per-thread category model, ASan/UBSan",
        rule="as for C23 with category changes and temporary categories in most steps; non-trivial: more than one thread and a temporary category in use",
        assumptions=["temporary categories are not empty", "as for C23"]),
    "C25": dict(
        flavors=[dict(name="asan", src=["c25.cpp"], flags=["-O0"], libs=["engine"], engine_only=["logger.cpp", "logstream.cpp", "logsystem.cpp"], arms=["histories"]),
                 dict(name="tsan", src=["c25.cpp"], libs=["engine"], engine_only=["logger.cpp", "logstream.cpp", "logsystem.cpp"], san="tsan", workers=4, arms=["concurrent"])],
        technique="model-based stateful property testing of filter histories with generated regular expressions (own matcher), counting the copies of every message on every stream, ASan/UBSan with an allocation balance; filter changes against real logging threads under ThreadSanitizer",
        rule="a case is a history of setting, replacing, clearing (and failing to set) the filter, level changes without a filter, redirections and messages in matching, nearly matching and other categories; "
             "non-trivial: a filter was set and both matching and non-matching messages were seen under it; every concurrent case",
        assumptions=["the levels are not changed by hand while a filter is set", "a message of no category may or may not show in the filtered view",
                     "the system is drained before the configuration changes, except in the concurrent arm, which checks bounds and the final state"]),
    "C26": dict(
        flavors=[dict(name="asan", src=["c26.cpp"] + ["c26.cpp@%d" % n for n in range(7)], flags=["-O0"], libs=["engine"], engine_only=["logger.cpp", "logstream.cpp", "logsystem.cpp"],
                      part_flags={str(n): ["-Dfalcon=falcon%d" % n, "-Dlp=lp%d" % n, "-DFALCON_MIN_LOG_LEVEL=::falcon::LL" + l] for n, l in enumerate("DISABLE CRIT ERR WARN INFO DEBUG TRACE".split())},
                      lib_parts=[str(n) for n in range(7)])],
        technique="property testing of generated logging programs (one process each), the same generator compiled at each of the seven compile-time levels, against the fresh-stream and category model, ASan/UBSan",
        rule="a case is a program as for C23 and C24 in a build with one of the seven compile-time levels; non-trivial: statements admitted at run time of which some are kept and some removed at compile time",
        assumptions=["as for C23 and C24", "a removed statement may still evaluate its operands, but doesn't render them", "composing by hand through the Logger's accessors is not subject to the compile-time level"]),
    "C27": dict(
        flavors=[dict(name="asan", src=["c27.cpp"], flags=["-O0"], libs=["fut"])],
        technique="model-based property testing of generated test programs (set-up, body and tear-down with random outcomes, run repeatedly by several programs in process) against a model of each test's outcome, ASan/UBSan with an allocation balance",
        rule="a case is up to 8 tests in up to 4 components with random actions in each phase, run 1-3 times under random options and selections, or one at a time by name, or hundreds of tests; non-trivial: passing and failing tests in one run",
        assumptions=["anything captured on the standard error stream makes a test fail, with or without -e (pinned by fut_verbosity)", "when a test throws and its tear-down also fails or throws, either outcome may be recorded", "captured text without NUL characters"]),
    "C28": dict(
        flavors=[dict(name="asan", src=["c28.cpp"], flags=["-O0"], libs=["fut"])],
        technique="model-based property testing of generated test programs: the execution trace the tests record is compared with the selection, the grouping and the phases the plan implies, ASan/UBSan with an allocation balance",
        rule="a case is up to 12 tests in up to 4 components registered in random order, with random outcomes in set-up, body and tear-down, and a random selection; non-trivial: several components, one of them with several executions",
        assumptions=["tests with the same full name are never selected by name", "the order within a component is left open"]),
    "C29": dict(
        flavors=[dict(name="asan", src=["c29.cpp"], flags=["-O0"], libs=["fut"])],
        technique="model-based property testing of generated test programs at every verbosity, with captured and printed text compared to what the plans write, ASan/UBSan with an allocation balance",
        rule="a case is up to 7 tests writing marked texts on the standard streams (in odd formatting states, sometimes breaking the stream) run once or twice at a random verbosity, with or without capture; "
             "non-trivial: some text was captured and shown, or a test failed",
        assumptions=["captured text without NUL characters", "the line layout of results is only looked at for name, number and verdict"]),
    "C30": dict(
        flavors=[dict(name="asan", src=["c30.cpp"], flags=["-O0"], libs=["fut"])],
        technique="model-based property testing of generated test programs with markup in names, ids and failure texts: the report is read by a strict XML reader and compared with the run, ASan/UBSan with an allocation balance",
        rule="a case is up to 8 tests, run once or twice with a report in random options; non-trivial: some name, id or failure text has markup characters, and a test failed",
        assumptions=["texts are UTF-8 without control characters other than tab and line feed", "file and line are only looked at for failed checks"]),
    "C31": dict(
        flavors=[dict(name="asan", src=["c31.cpp"] + ["c31_shapes.cpp@%d" % n for n in range(8)], flags=["-O0"], libs=["fut"])],
        technique="property testing of every check macro over generated operand values, types, expression shapes and thrown exceptions, against the relation computed outside of the macro (and equality against inequality), ASan/UBSan with an allocation balance",
        rule="a case is one use of a macro, or a loop of up to 12 checks, in a test body with random operands; non-trivial: every operand that is not a plain name (shapes), every value and string case, "
             "floating point distances near the border, something thrown, a loop with passing and failing checks",
        assumptions=["operands have no side effects", "floating point distances within 1% of the border may go either way (but not both ways)", "whether a body goes on after a failed exception check is left open",
                     "the description tells the expression's parts and the actual value in this order; the rest of its wording is open"]),
    "C32": dict(
        flavors=[dict(name="asan", src=["c32.cpp"], flags=["-O0"], libs=["fut"])],
        technique="property testing of generated command lines against a model of the documented options (what runs, what is captured, shown, named and saved; what is refused), ASan/UBSan with an allocation balance",
        rule="a case is a program of up to 5 tests run with a name and up to 12 options, values and (in a third of the cases) garbage; non-trivial: two or more different options, or something refused",
        assumptions=["verbosities with trailing garbage, program names with several dots or starting with a dot, and empty report paths are left out", "levels 3 and 4 can't be told apart by passing tests"]),
    "C33": dict(
        flavors=[dict(name="asan", src=["c33.cpp"], flags=["-O0"], libs=["fut"])],
        technique="property testing with the system clock replaced by one that moves by generated steps during the tests' phases: every reported time is compared with the clock's differences, ASan/UBSan with an allocation balance",
        rule="a case is a history of stopwatch calls and clock steps, or a program of up to 6 tests whose set-up, body and tear-down take generated times; "
             "non-trivial: steps that are no whole milliseconds and something measured; a test taking time in its body and outside of it",
        assumptions=["clock values from 1970 on", "the clock steps back by less than a day", "when set-up throws the test took no time"]),
    "C35": dict(
        flavors=[dict(name="asan", src=["c35.cpp"], flags=["-O0"])],
        technique="property testing with iterators and targets that record every read, step and assignment, and with the standard library's containers and streams, against plain indexing, ASan/UBSan with an allocation balance",
        rule="a case distributes a sequence of generated values, from a generated position, over 1 to 14 targets by a generated kind of iterator; non-trivial: more than one target",
        assumptions=["targets are no elements of the sequence", "no operation throws"]),
    "C36": dict(
        flavors=[dict(name="asan", src=["c36.cpp"], flags=["-O0"], libs=["engine"], engine_only=["logsystem.cpp"])],
        technique="model-based stateful property testing of running log systems with generated listeners, proxies and proxies of proxies against a delivery model, under ASan/UBSan with an allocation balance",
        rule="a case is a history of messages and changes of levels, filters, registrations and references over 1-2 systems, 1-2 listeners and 1-4 proxies; "
             "non-trivial: a proxy handed on a message the listener behind it would not have got itself",
        assumptions=["settings change only while no message is being delivered", "the listeners behind proxies are neither disabled nor detached"]),
    "C34": dict(custom="c34",
        technique="property testing of generated programs: random sequences of public headers over several source files with uses of what they offer, compiled by two compilers, linked with the library and run; failing programs are shrunk",
        rule="a case is a program of 1 to 4 source files; non-trivial: files sharing headers, or four headers or more in a file",
        assumptions=["the headers for other systems (atomic_vc.h) are left out", "uses include the standard headers they need themselves", "all files of a program have the same compile-time log level"]),
}
