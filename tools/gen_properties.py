#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so the texts stay readable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
H="src/hdbscan.c"; D="src/distance.c"; CL="src/cluster.c"; G="src/undirected_graph.c"; O="src/outlier_score.c"; CPP="src/hdbscan.cpp"
L="modules/collections/src/list.c"; S="modules/collections/src/set.c"; HT="modules/collections/src/hashtable.c"; LL="modules/collections/src/linkedlist.c"
U="modules/utils/src/utils.c"; LG="modules/utils/src/logger.c"
p("C01","Clustering results do not depend on threads or interleaving",
 "For the same dataset, settings and call sequence, the distances, core distances, hierarchy, flat labels, cluster tree and outlier scores are bit-for-bit the same whatever number of worker threads each parallel region is granted and however their steps interleave, a team of one included.",
 ["schedules","inputs"],"every dataset of finite values, every minPts >= 2, every team size granted to each region and every interleaving of the workers",
 "The existing tests run each input once on whatever schedule the machine happens to produce, and the stable ones never cluster anything; a lost update or an order-dependent merge needs a particular interleaving.",
 [H,D,G],[("private/critical clauses of the parallel loops","src/hdbscan.c, src/distance.c, src/undirected_graph.c")],["hdbscan_run","hdbscan_rerun"])
p("C02","Parallel regions contain no data race",
 "While any public operation runs its parallel regions, no two worker threads access the same memory location without synchronisation when at least one of the accesses changes the stored value. This covers clustering, re-clustering, the statistics and sorting operations and the C++ interface.",
 ["schedules","inputs"],"every input that reaches a parallel region, every team size, every interleaving",
 "A race shows only under a particular interleaving and often leaves the tested outputs unchanged; no test controls the schedule.",
 [H,D,G,CPP],[("private clauses, critical sections, disjoint loop indices","every '#pragma omp' in src/")],["every public operation with a parallel region"])
p("C03","Distances and core distances equal their definition",
 "After clustering, the distance reported for two points is the Euclidean distance between them (symmetric, zero for a point and itself) and the core distance of each point is the distance to its (minPts-1)-th nearest other point, counting ties, or the largest representable distance when there are too few points. This holds for every element type, for row-wise data and for element-wise data (each element a point), and after re-clustering with another minPts.",
 ["inputs","schedules","configurations"],"every finite dataset of every element type and layout, with ties and duplicates, every minPts, every schedule",
 "The tests compare two sample datasets; ties, duplicates, small inputs, other element types and other schedules are not reached.",
 [D,H],[("triangular distance vector and bounded insertion of the nearest distances","src/distance.c distance_compute, distance_get_core_distances")],["distance_get","coreDistances after hdbscan_run / hdbscan_rerun"])
p("C04","The hierarchy is the exact density hierarchy of the data",
 "The hierarchy has one level for each distinct threshold at which some cluster splits, shrinks or vanishes, numbered from 1 in decreasing order of the threshold, plus an all-noise level with threshold zero numbered 0; each level stores the labels in force just before its threshold is applied. At every level two points carry the same cluster label exactly when they belong to the same connected group of at least minPts points of the mutual-reachability graph restricted to shorter-or-equal links, points in smaller or edgeless groups are noise for ever after, and a cluster keeps its label until it splits into two or more groups, each of which gets a new label.",
 ["inputs","schedules"],"every finite dataset, every minPts >= 2, every schedule",
 "The tests look at a few sizes and labels for sample data; correctness of every level for every shape, tie and schedule is not sampled.",
 [H,G,CL],[("edge removal in decreasing weight order with component exploration","src/hdbscan.c hdbscan_compute_hierarchy_and_cluster_tree")],["hierarchy after hdbscan_run / hdbscan_rerun"])
p("C05","Flat labels are the most stable non-overlapping clusters",
 "The flat labelling selects, among all sets of clusters below the root that do not overlap in the cluster tree, one that maximises total stability (a parent wins a tie against its descendants); each selected cluster labels exactly the points it held when it was born and every other point is labelled noise (0). When the root never splits every point is noise. The caller is warned of infinite cluster stability exactly when a cluster of the hierarchy has it.",
 ["inputs","schedules"],"every finite dataset, every minPts >= 2, every schedule",
 "Optimality over all antichains for all inputs and schedules is not visible from a handful of expected labels.",
 [H,CL],[("bottom-up propagation of stability and descendants","src/cluster.c cluster_propagate; src/hdbscan.c hdbscan_propagate_tree, hdbscan_find_prominent_clusters")],["clusterLabels after hdbscan_run / hdbscan_rerun"])
p("C06","Outlier scores are complete, correct and sorted",
 "After clustering there is exactly one outlier score per point, each carrying that point's core distance and the score 1 - e/d, where d is the level at which the point became noise and e the lowest level at which any cluster descending from its last cluster (itself included) dies; the score is 0 when d is 0, always lies in [0,1], and the list is ordered by score, then core distance, then point number.",
 ["inputs","schedules"],"every finite dataset, every minPts >= 2, every schedule",
 "No existing test computes scores independently, and the degenerate shapes (no split, duplicates, very small inputs) are not sampled.",
 [H,O,CL],[("score loop, qsort and propagated lowest death level","src/hdbscan.c hdbscsan_calculate_outlier_scores; src/cluster.c cluster_propagate")],["outlierScores after hdbscan_run / hdbscan_rerun"])
p("C07","Any run/re-run history ends in the same state as a fresh run",
 "After any sequence of runs and re-runs on one object, whatever datasets and minPts values came before, the object's results equal those of a newly created object given the last dataset and the last minPts. Cleaning an object and running it again is part of such a history.",
 ["histories","inputs","schedules"],"every sequence of run, rerun and clean on one object, every dataset and minPts",
 "Tests make one short fixed sequence; stale state shows up only for particular sequences and sizes.",
 [H,D],[("minimal clean before a re-run, full clean before a run","src/hdbscan.c hdbscan_minimal_clean, hdbscan_clean, hdbscan_rerun, hdbscan_run")],["all result fields"])
p("C08","Every object life cycle is memory safe and leaves nothing behind",
 "For any sequence of creating, running, re-running, cleaning and destroying clustering objects (and the maps, statistics and sorted lists derived from them), including destroying an object that never ran and running on a dataset without points, which is reported as an error, or on one whose values are infinite or no numbers, no access falls outside live memory, nothing is freed twice, and once everything is destroyed no memory remains allocated.",
 ["histories","inputs","schedules"],"every sequence of life-cycle operations through the C and C++ interfaces, every dataset size from none up",
 "The tests do not observe memory, and use only create-run-destroy on larger data.",
 [H,D,CL,G,L,HT,CPP,"src/distance.cpp"],[("init/clean/destroy functions","src/hdbscan.c, src/distance.c, src/undirected_graph.c, src/hdbscan.cpp")],["hdbscan_init, hdbscan_clean, hdbscan_destroy and the C++ class"])
p("C09","Results do not depend on leftover memory contents or addresses",
 "For the same inputs and calls, every result, every printed line (apart from the time stamp of log lines) and every exported file is the same whatever the initial contents of freshly allocated memory and of the stack, whatever the addresses and the order in which memory is handed out, and whatever the clock reads.",
 ["configurations","inputs","histories"],"every initial content of heap and stack, every reuse order of freed memory, every clock value",
 "On a test machine fresh memory is mostly zero, so a read of uninitialised memory gives the expected value there and garbage elsewhere.",
 [H,D,CL,G,L,HT,CPP],[("explicit initialisation of every field","init functions and array initialisation loops")],["all results, stdout, exported files"])
p("C10","A failed allocation in a container operation is reported and harmless",
 "When memory runs out inside an operation on a list, set, hash table or linked list, the operation reports failure in its documented way, never crashes, leaks nothing, and leaves the container exactly as it was before the call, so that later operations behave as if the failed call had not been made.",
 ["fault_sequences","histories"],"every operation history and every allocation, or set of allocations, failing within it",
 "Tests never make an allocation fail.",
 [L,S,HT,LL],[("allocation results checked before the container is changed","array_list_grow, array_list_insert_at, hashtable_insert, node_creator")],["return values and later lookups"])
p("C11","Clustering survives memory exhaustion at any point",
 "When any one allocation, or every allocation from some point on, fails during creation, a run or a re-run, the call does not crash or hang, and it reports an error unless its result is complete and correct; afterwards the object can be destroyed without a leak or double free, and it can be run again with memory available, giving the same results as a fresh object. Asking for more points than memory can hold distances for is such a failure. A cluster map, distance map or sorted list derived from a finished object while memory runs out is either correct or not returned at all, and a list the caller gave to a sort that fails keeps its clusters, or stays empty if it was.",
 ["fault_sequences","inputs","histories"],"every allocation index failing, singly or persistently, in every run and re-run history",
 "Tests never make an allocation fail.",
 [H,D,CL,G],[("error returns and clean-up paths","src/hdbscan.c hdbscan_run, hdbscan_rerun, hdbscan_do_run")],["return code of hdbscan_init, hdbscan_run, hdbscan_rerun"])
p("C12","Separate objects can be used from separate threads",
 "Threads that each work on their own clustering objects and containers, concurrently and in any interleaving, obtain exactly the results (and write exactly the files) they would obtain alone, and no unsynchronised access is shared between them. Any number of threads may also read one finished object (distances, cluster map, minimum/maximum distances, look-ups) at the same time.",
 ["schedules","histories"],"every interleaving of caller threads, each running any history on its own objects",
 "Tests are single threaded; hidden shared state is only visible under concurrent use.",
 [H,D,CL,G,L,HT,LG],[("no mutable state outside the objects passed in","all of src/ and modules/")],["results per thread"])
p("C13","The spanning tree is a minimum spanning tree of mutual reachability",
 "After clustering, the object's tree has n-1 edges that connect all points, each carrying the mutual-reachability distance of its two end points (the largest of their distance and their two core distances), with the least possible total weight, plus one self edge per point carrying that point's core distance; the edges are listed in non-decreasing order of weight. Constructing the tree alone gives, for each point, an adjacency list with exactly its edges.",
 ["inputs","schedules"],"every finite dataset, every minPts >= 2, every schedule",
 "No existing test compares the tree with an independent minimum spanning tree.",
 [H,G],[("Prim construction and edge quicksort","src/hdbscan.c hdbscan_construct_mst; src/undirected_graph.c graph_init, graph_quicksort_by_edge_weight")],["mst after hdbscan_run / hdbscan_construct_mst"])
p("C14","Cluster maps, distance ranges, statistics and confidences are correct",
 "The cluster map of a label range lists, for every label present, exactly the indices with that label in increasing order, in lists that can be searched; the distance map gives, per cluster, the smallest and largest core and pairwise distances (ignoring zero distances in the minima); the statistics are the maximum, mean, sample variance, standard deviation, skewness and kurtosis of the max/min ratios over the clusters, and each confidence is 100*(max-ratio)/max. The validity score is determined by the signs of skewness and kurtosis alone. An empty range gives an empty map, and the statistics of no clusters read nothing and have zero maxima, variances and deviations.",
 ["inputs","schedules","configurations"],"every label vector and sub-range, every clustered dataset, every schedule, every prior content of the caller's statistics structure",
 "Tests print these values for sample data; small ranges, a garbage-filled structure and other schedules are not reached.",
 [H],[("map construction and statistics loops","src/hdbscan.c hdbscan_create_cluster_map, hdbscan_get_min_max_distances, hdbscan_calculate_stats, hdbscan_analyse_stats")],["returned maps, stats struct, validity"])
p("C15","The C++ interface gives the same results as the C interface",
 "The C++ clustering class and functions give the same labels, hierarchy, scores, cluster maps, distance maps, statistics, validity and orderings as the corresponding C operations for every dataset and call history, including running, re-running and cleaning an object repeatedly before it goes out of scope; and the spanning tree, clusters and outlier scores of an object read the same through the C++ declarations as through the C ones.",
 ["inputs","histories","schedules"],"every dataset and history of the C++ operations, every schedule",
 "The C++ interface is exercised by samples only, never compared with the C one.",
 [CPP,"src/distance.cpp","src/undirected_graph.cpp"],[("thin wrappers and re-implemented map functions","src/hdbscan.cpp")],["clustering::hdbscan members and free functions"])
p("C16","Cluster ordering terminates with an ordered permutation",
 "Sorting clusters by similarity or by size, through either interface, with or without a given list of clusters and for any confidence values including undefined ones, terminates within a number of steps polynomial in the list length and returns a permutation of the clusters; whenever the keys are all defined the clusters come out in non-decreasing order of their own key.",
 ["inputs","schedules"],"every distance or cluster map, every given cluster list, every schedule, NaN and infinite keys included",
 "Tests sort one sample; a non-terminating or mispaired sort needs particular values.",
 [H,CPP],[("quicksort partition","src/hdbscan.c partition, hdbscan_quicksort, hdbscan_sort_by_similarity, hdbscan_sort_by_length")],["returned list"])
p("C17","Array lists behave like a sequence under every history",
 "After any history of append, insert, replace, remove, pop, find, sort, clear and read operations, in-bounds or out-of-bounds, an array list holds exactly the sequence that a plain sequence would hold after the same operations, every return value and output value agrees, and a failed operation changes nothing.",
 ["histories","fault_sequences"],"every operation history on lists of every element size, with growth at every size and memory layout, including failed growth",
 "The tests make one short history per element type.",
 [L],[("grow, shift and copy","modules/collections/src/list.c")],["array_list_* operations"])
p("C18","Hash tables behave like a map under every history",
 "After any history of insert, replace, look-up, remove and clear operations, with any mixture of colliding keys, numbers or strings kept anywhere in memory, a hash table maps exactly the keys a plain map would to the same values, its size and its ordered key set agree with it, replacing a value hands the old value back, and clearing or destroying releases every value exactly once.",
 ["histories","fault_sequences"],"every operation history for every key and value type, owned keys released by the caller's key destroyer included, every bucket count, including failed allocations",
 "The tests insert and remove a few keys without chains being cut in the middle.",
 [HT,S],[("bucket chains and ordered key set","modules/collections/src/hashtable.c")],["hashtable_* operations"])
p("C19","Linked lists behave like a sequence under every history",
 "After any history of adding at either end, looking up with or without removal, removing, reading by position, reading head and tail, and clearing, a linked list holds exactly the sequence a plain sequence would hold, forwards and backwards, and destroying it releases everything.",
 ["histories","fault_sequences"],"every operation history including removal of the first, a middle, the last and the only element, and failed allocations",
 "The test makes one short history.",
 [LL],[("node link and unlink","modules/collections/src/linkedlist.c")],["linkedlist_* operations, head/tail/next/prev"])
p("C20","Sets stay sorted and duplicate-free under every history",
 "After any history of insert, remove, find, positional read and removal, and clear operations, a set holds exactly the distinct elements a plain ordered set would hold, in increasing order, reports for every insertion whether the element was new, and finds exactly the elements it holds.",
 ["histories","fault_sequences"],"every operation history for every element type, including after clearing and under failed growth",
 "The tests insert a few values once.",
 [S,L],[("binary search insertion","modules/collections/src/set.c")],["set_* operations"])
p("C21","Hierarchy export is exact and survives I/O failures",
 "Exporting a hierarchy to a name writes exactly two files, one giving the number of levels and one giving, per level in key order, the threshold and every point's label, and touches no other file. When opening, writing or closing a file fails at any point the call still returns, leaks no stream, leaves the hierarchy unchanged, and any of the two files none of whose own operations failed is exact, as is every file of a later export with working storage.",
 ["fault_sequences","inputs","histories"],"every hierarchy and file name, every failing open, short write, full disk or failing close",
 "No existing test exports a hierarchy or makes I/O fail.",
 [H,LG],[("two fopen/fprintf/fclose sequences","src/hdbscan.c hdbscan_print_hierarchies")],["simulated file system"])
p("C22","Log lines are exact for any clock, schedule and memory state",
 "Every message written to the log appears exactly once, complete and unmixed, prefixed with the date and time read from the clock and its severity unless it has no severity, for messages of any length, whatever the clock reads or however it jumps, for any number of threads logging at once, and a failed allocation or a log file that cannot be opened never crashes the caller.",
 ["schedules","fault_sequences","configurations"],"every message, clock value, interleaving of logging threads and allocation or I/O failure, in normal and debug builds",
 "Tests never log concurrently, move the clock or make an allocation fail.",
 [LG],[("date formatting and single write","modules/utils/src/logger.c logger_write")],["simulated stdout and log file"])
p("C23","Java objects are independent and return exact labels",
 "Through the Java binding each clustering object returns, for any interleaving of creations, runs and re-runs over several objects, exactly the labels the native library gives for that object's own data and minPts, and a cluster map that lists under every label exactly the points with that label; array elements obtained from the virtual machine are all released and native memory is allocated and released in matching pairs, with nothing left once every object has been cleaned. A run that cannot be carried out (a dataset that is not rectangular, memory that runs out, a minPts below two, a re-run before any run or after cleaning) throws an exception and never crashes.",
 ["histories","inputs","fault_sequences","schedules"],"every history over several Java objects and threads, every dataset, every request refused by the virtual machine and every failing allocation",
 "No test loads the binding; a single object used once hides shared state.",
 ["modules/java/src/Hdbscan.cpp","modules/java/src/bw/co/roguesystems/Hdbscan.java"],[("JNI entry points","modules/java/src/Hdbscan.cpp")],["labels returned to Java"])
p("C24","Every build-time numeric configuration clusters alike",
 "Whatever label, index and distance types the library is built with, clustering a dataset whose values and distances are exact in all of them yields the same partition, hierarchy shape and ordering of outliers, the same cluster map, distance ranges, statistics and sorted cluster lists, and every container keeps its ordering guarantees for those types.",
 ["configurations","inputs","schedules"],"every supported combination of label, index and distance types",
 "Tests build one configuration only.",
 [H,D,CL,G,"config.h.in"],[("comparison function chosen by element width","src/*.c")],["labels, hierarchy, scores per build"])
p("C25","Every clustering call terminates within a bounded number of steps",
 "A run, a re-run or any post-processing call, on finite data and on data holding infinities or values that are no numbers, returns within a number of steps bounded by a fixed polynomial in the number of points, clusters and dimensions, under every schedule, including workers that are starved for as long as another can run and teams smaller than asked for.",
 ["schedules","inputs"],"every dataset, every minPts, every fair or unfair schedule",
 "A livelock or deadlock needs a particular interleaving or value; a passing test says nothing about others.",
 [H,D,G,L,S],[("loop structure and critical sections","src/hdbscan.c, src/undirected_graph.c")],["simulated step count per call"])
p("C26","Python objects are independent and their results stay valid",
 "Through the Python binding each clustering object returns the labels and hierarchy the native library gives for that object's own data and settings, whatever other objects are created, run, re-run or destroyed in between, and lists, dictionaries and arrays handed out earlier keep their contents. A call that cannot be carried out - unusable arguments or datasets, use too early, exhausted memory - raises an exception or reports a non-zero code and leaves the object usable, and repeating a history leaves no more and more memory behind.",
 ["histories","inputs"],"every history over several Python objects, including garbage collection of one while another is in use, and allocation failures at any point",
 "No test imports the binding.",
 ["modules/python/src/PyHdbscan.c"],[("type methods","modules/python/src/PyHdbscan.c")],["arrays returned to Python"])
p("C27","Hashing and prime selection agree with arithmetic",
 "Every key hashes to a bucket below the bucket count and equal keys hash alike; the prime chosen for a requested bucket count is a prime number (or zero when none is smaller).",
 ["inputs"],"every key and bucket count",
 "Only a few values are tried.",
 [U,"modules/collections/src/primes.c"],[("hash functions and prime table","modules/utils/src/utils.c")],["return values"])
p("C28","Distance tables, graphs and clusters keep their contract on their own",
 "Used directly by a caller, through C or C++, in heap memory or the caller's own: a distance table holds the distances and core distances of the data last computed, for any number of neighbours, however often it is computed, re-evaluated or cleaned; a graph built from edge lists holds exactly those edges, each listed at both ends (a self edge once), sorting orders them by weight and only permutes them, and removing an edge takes one occurrence from both ends. A cluster accounts for detached points, stability, death, constraints and its virtual child, and hands its parent either itself or its chosen descendants, by constraints first and stability second; outlier scores compare by score, then core distance, then id, and the comparison functions of the element types order their values as numbers, given directly or through pointers. When memory runs out the call reports it, gives back what it allocated and leaves what it was given as it was, and destroying or releasing a part frees everything it owns and nothing else.",
 ["histories","inputs","schedules","fault_sequences"],"every history over such objects, every dataset, edge list and cluster tree, every allocation that fails and every schedule",
 "The tests use each part once in one order, with memory always available.",
 [D,G,CL,"src/distance.cpp","src/undirected_graph.cpp"],[("construction, use and release of the parts","src/distance.c, src/undirected_graph.c, src/cluster.c")],["distance_*","graph_*","cluster_*","clustering::Distance","clustering::UndirectedGraph"])
p("C29","Printed reports state the results",
 "Printing a result says what the result is: the printed cluster map lists every label with exactly its members, the printed sizes the number of members of each, the printed distance map the four distances of each cluster, the printed statistics the values of the statistics structure, the printed hierarchy every level with its threshold and every point's label, the printed scores, graphs and distance tables their entries, for every label, index and value the configuration can hold, through C and C++. Printing changes nothing and loses nothing, whatever is printed before or after it.",
 ["inputs","histories","configurations"],"every result and map, including labels near the limits of the configured type, empty results and repeated printing, in every build configuration",
 "The tests print sample results and nobody reads what was printed.",
 [H,G,D,"src/hdbscan.cpp","src/outlier_score.c"],[("print functions","src/hdbscan.c hdbscan_print_*, src/hdbscan.cpp, src/undirected_graph.c graph_print, src/distance.c distance_print, src/outlier_score.c")],["standard output and the log"])
p("C30","Clustering step by step gives what one run gives",
 "Taking the steps of a clustering one at a time - distances, spanning tree, hierarchy, propagation, selection, scores - through the public C functions or C++ methods leaves the same distances, labels, hierarchy, clusters, tree and outlier scores as one run over the same data with the same minPts, whatever was done with the object before. A compact hierarchy leaves out exactly the levels that neither split a cluster, nor follow one that does, nor come first, numbers the rest without gaps and changes nothing else; a tree built without self edges lacks only those. A step for which memory runs out reports it, and the object can be cleaned, used again and destroyed without losing memory.",
 ["histories","inputs","schedules","fault_sequences"],"every dataset, minPts, choice of hierarchy and self edges, history of the object, schedule and failing allocation",
 "The tests only cluster through one run call with the full hierarchy, so the compact hierarchy, trees without self edges and the single steps never execute on their own.",
 [H,"src/hdbscan.cpp",G],[("the steps and their order","src/hdbscan.c hdbscan_do_run, hdbscan_construct_mst, hdbscan_compute_hierarchy_and_cluster_tree, hdbscan_propagate_tree, hdbscan_find_prominent_clusters, hdbscsan_calculate_outlier_scores")],["the step functions of hdbscan.h and the methods of clustering::hdbscan"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
