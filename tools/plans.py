"""What each check runs: build variants (worker i takes variants[i % n]), wall time per tier, and how its cases are described."""
COMMON_ASSUMPTIONS = ["sequentially consistent interleaving of instrumented memory accesses", "the compiler at -O0 with the repository's own language settings", "finite sampling: absence of a violation is evidence, not proof"]
CONT = "seeded operation histories (5-200 operations, values from narrow colliding ranges to type extremes, in- and out-of-range positions) on one or two containers of every element type (numbers, strings, records, odd sizes), with seeded heap contents, placement and reuse; after each operation the whole container is compared with a reference model; non-trivial = at least one operation ran on a live container; distinct = by hash of everything read back"
PLANS = {
 "C10": dict(variants=["default", "default", "default", "asandebug"], quick_s=19, thorough_s=300, rule=CONT + "; about half of the operations run with one allocation (or every allocation from some point on) failing", probes=["allocation failure fired inside an operation", "operation reported failure", "sorted list reached"]),
 "C17": dict(variants=["default", "default", "default", "asandebug"], quick_s=19, thorough_s=300, rule=CONT, probes=["allocation failure fired inside an operation", "operation reported failure", "sorted list reached"]),
 "C18": dict(variants=["default", "default", "default", "asandebug"], quick_s=19, thorough_s=300, rule=CONT, probes=["allocation failure fired inside an operation", "operation reported failure"]),
 "C19": dict(variants=["default", "default", "default", "asandebug"], quick_s=19, thorough_s=300, rule=CONT, probes=["allocation failure fired inside an operation", "operation reported failure"]),
 "C20": dict(variants=["default", "default", "default", "asandebug"], quick_s=19, thorough_s=300, rule=CONT, probes=["allocation failure fired inside an operation", "operation reported failure"]),
}
CL_PROBES = ["a cluster split", "a parent cluster was chosen over its descendants", "duplicate points or a zero core distance", "an infinite stability", "more neighbours asked for than points", "an operation failed for want of memory", "a failed object ran again successfully", "a confidence that is not a number", "element-wise data with several columns", "exactly tied stabilities", "an allocation failed and the operation still completed", "compared with a fresh object", "labels of the caller's own were post-processed", "statistics of a large made-up distance map", "integer coordinates near the limits of their type", "a compact hierarchy left out a level", "a tree was built without self edges"]
GEN = "seeded cases: 1-36 points (one case in sixteen: 37-130, sometimes up to 600, in up to 100 groups) of clustered, gridded, duplicated, collinear or random values in every element type and layout, minPts from 2 past the number of points; seeded team sizes (1-16 workers asked for, fewer granted), scheduling policy (random, priority-based with change points, starvation, round robin, reversed, switch-at-conflict) and heap contents; "
def cl(extra, **kw):
    d = dict(variants=["default", "short", "default", "long"], quick_s=22, thorough_s=420, probes=CL_PROBES, space="inputs, call histories, worker schedules and heap states", rule=GEN + extra + "; non-trivial = at least four points were clustered into a hierarchy of two or more levels (or a list of clusters was sorted); distinct = by hash of the results read back together with the schedule taken")
    d.update(kw); return d
PLANS.update({
 "C01": cl("each history runs once on one worker and once under the seeded schedule, and every result is compared bit for bit", space="inputs, team sizes and worker schedules"),
 "C02": cl("every instrumented access inside a parallel region is checked with vector clocks against all unordered accesses of other workers that change the stored value", space="inputs, team sizes and worker schedules", variants=["default", "default", "short", "debug"]),
 "C03": cl("distances and core distances are recomputed from the data independently"),
 "C04": cl("the hierarchy is rebuilt by an independent reference (components of the thresholded mutual-reachability graph) and compared level by level"),
 "C05": cl("an independent search finds the best total stability over all non-overlapping cluster sets; on exact (power of two) thresholds ties must go to the parent"),
 "C06": cl("scores are recomputed from the reference hierarchy"),
 "C07": cl("after every successful step of a run/re-run/clean history the object is compared with a new object given the same data and minPts"),
 "C08": cl("life-cycle histories on one or two objects through both interfaces with red zones, quarantine, stack shadow (asan variant) and a leak check at the end", variants=["default", "asan", "default", "asanshort", "short", "asandebug", "asan", "asanlong"]),
 "C09": cl("each history runs in a quiet reference memory and again with garbage-filled heap and stack, seeded placement and reuse, another clock and another legal qsort; results, printed text (up to the time stamps of log lines) and files are compared", space="inputs, call histories, heap and stack contents and clocks", variants=["default", "debug", "short", "default"]),
 "C11": cl("allocations at seeded positions of each call fail, once or from there on; after every failure the object is used again or destroyed", space="call histories and allocation failures", quick_s=29, variants=["default", "default", "asan", "short"]),
 "C12": cl("two or three caller threads with own objects and containers, optionally reading one shared finished object, under seeded interleavings with race detection; each thread's log is compared with the log of a run on its own", space="interleavings of caller threads", quick_s=29, variants=["default", "default", "debug", "default"]),
 "C13": cl("an independent minimum spanning tree gives the weight; edges, adjacency lists and order are checked"),
 "C14": cl("cluster maps, distance ranges, statistics, confidences and validity are recomputed independently, from the object's labels, from labels of the caller's own and from made-up distance maps of up to 900 clusters", variants=["default", "short", "asan", "default", "long"]),
 "C15": cl("each operation is done through the C and the C++ interface and the results are compared", variants=["default", "short", "debug", "long"]),
 "C16": cl("synthetic distance and cluster maps with ties, infinities and undefined keys, given lists and both interfaces, with a bound on steps"),
 "C24": cl("the same oracles as C03-C06, C13, C14, C16 and the container checks on data exact in every configuration", variants=["short", "long", "asanshort", "short", "default", "long", "short", "asanlong"], space="build configurations, inputs and schedules"),
 "C29": cl("what the print functions write to the simulated standard output and log is parsed back into numbers and compared with the result itself, for object labels and labels of the caller's own", variants=["default", "short", "asandebug", "long", "default", "asan", "debug", "short"], space="results, printing histories and configurations"),
 "C30": cl("the steps are called one at a time in histories mixed with whole runs, with compact or full hierarchies and with or without self edges, and compared with a new object's whole run", variants=["default", "default", "asan", "short", "default", "long", "asanshort", "debug"], space="call histories, options, schedules and allocation failures"),
 "C25": cl("every call runs against a step budget polynomial in points, clusters and dimensions, under starving and unfair schedules", variants=["default", "default", "long", "short"], space="inputs and schedules"),
})
MISC_PROBES = ["opening a file failed", "a write or close failed", "", "", "a hierarchy of a clustered object was exported", "no name was given", "a name or message of hundreds of bytes", "a time that cannot be represented as a date", "memory ran out while logging", "lines of several threads alternate in the log"]
def misc(rule, keep, **kw):
    d = dict(quick_s=19, thorough_s=300, rule=rule, probes=[(n if i in keep else "") for i, n in enumerate(MISC_PROBES)]); d.update(kw); return d
PLANS.update({
 "C21": misc("seeded hierarchies (0-14 levels, 0-40 points, thresholds from zero to infinity) and hierarchies of clustered objects exported again and again under seeded names, with any operation of the in-memory disk failing, writing short or finding the disk full; every file is compared with the hierarchy, other files, open streams and blocks are compared with before; non-trivial = at least one export ran", {0, 1, 4, 5, 6}, variants=["default", "short", "asan", "debug"], space="hierarchies, names and disk faults"),
 "C22": misc("seeded histories of opening, writing and closing the log by one to five threads with messages of up to some thousands of bytes, clocks that stand, jump and overflow, failing disks and failing allocations; the text written is parsed back into messages and compared with what each thread wrote and the clock it read; non-trivial = at least one message was written", {1, 6, 7, 8, 9}, variants=["default", "debug", "asandebug", "debug"], space="messages, clocks, thread interleavings and faults"),
})
PLANS["C23"] = dict(variants=["java"], quick_s=26, thorough_s=300, space="Java histories, inputs, virtual-machine and memory failures and schedules", probes=["the virtual machine refused a request", "native memory ran out", "a call failed with an exception", "several Java objects at once", "use of a cleaned object", "several Java threads", "a re-run gave labels", "a run succeeded after one that failed", "a re-run before any run"],
 rule="seeded histories of constructing, running, re-running and cleaning one to nine Java objects by one to three Java threads, with rectangular and malformed datasets of up to 600 points, requests to the virtual machine refused and native allocations failing at seeded places; non-trivial = at least one native method ran; distinct = by hash of the labels returned together with the schedule taken",
 real=["modules/java/src/Hdbscan.cpp", "Hdbscan.java, in a quarter of the cases, run by a real Java virtual machine with its native calls answered by the simulator"], stub=["JNI function table: a fake with reference checking and pending-exception rules, element copies in the checked heap", "in the other cases the Java class: its calls to the native methods are made by the harness; its fields and native methods are read from Hdbscan.java"])
PLANS["C26"] = dict(variants=["python", "pyshort", "python", "pylong"], quick_s=32, thorough_s=300, space="Python histories, datasets, interpreter and native allocation failures and schedules", probes=["memory ran out", "a call was refused", "several Python objects at once", "a re-run gave labels", "a run succeeded after one that failed", "used before any run", "results were kept and looked at later", "a dataset that is not a plain C array", "arguments that cannot be used", "an object was initialised again", "an object of a subclass", "attributes were set or deleted", "the history was repeated to look for leaks", "a hierarchy was compared", "a cluster map was compared"],
 rule="seeded histories of constructing, initialising again, running, re-running, reading and deleting one to three Python objects, keeping what they handed out, with datasets of every layout and data type NumPy has (strided, reversed, byte-swapped, unaligned, read-only, subclassed, wrong), allocations of the interpreter, NumPy and the native library failing at seeded places, and the history repeated to look for leaks; non-trivial = at least one method was called; distinct = by hash of the labels, hierarchies and maps returned together with the schedule taken",
 real=["modules/python/src/PyHdbscan.c", "CPython 3.12", "NumPy"], stub=["the interpreter's and NumPy's allocators: the checked heap, without reuse of freed memory, whose allocations can fail"])

PLANS["C28"] = dict(variants=["default", "asan", "short", "debug", "long"], quick_s=22, thorough_s=300, space="histories of the parts, inputs, allocation failures and schedules", probes=["an allocation failed inside a call", "distances were computed again", "a C++ object", "edges of equal weight", "a self edge", "more neighbours asked for than points", "descendants were handed on", "constraints were counted", "a virtual child was released"],
 rule="seeded histories of 4-24 operations by one or two caller threads on distance tables, graphs of up to 14 vertices and 60 edges, and cluster trees, in heap memory, caller's memory and C++ objects, with one allocation or all from some point on failing in half of the single-threaded cases; after every operation everything alive is compared with a reference; non-trivial = at least one part was computed or built; distinct = by hash of everything read back together with the schedule taken")
