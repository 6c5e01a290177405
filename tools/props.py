#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (source of truth for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = "libCacheSim/cache/eviction/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, harness=None, technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, harness=harness, technique=technique, note=note))

prop("P01", "A cache never exceeds its size and its accounting is exact",
     "After every operation, the bytes a cache reports as occupied are at most its configured size, and its reported object count and bytes equal the number and the total size (plus per-object metadata where charged) of the objects a lookup finds. No sequence of requests, lookups, removals and evictions, with object sizes that may change and may exceed the cache, crashes the cache, corrupts memory or makes an operation run forever.",
     ["histories", "configurations"], "every history of requests, lookups, removals and forced evictions, for every eviction algorithm, its documented parameters, cache sizes from a few bytes up, with and without metadata, at any initial hash table size",
     "The unit tests replay one trace at a few sizes and compare final miss ratios; they never look at occupancy, never remove objects, never change object sizes and use one hash power.",
     ["libCacheSim/cache/cache.c", EV, "libCacheSim/dataStructure/hashtable/chainedHashTableV2.c", "libCacheSim/cache/cacheObj.c"],
     [("evict until the new object fits, then insert", "libCacheSim/cache/cache.c cache_get_base"), ("insert/remove accounting", "libCacheSim/cache/cache.c cache_insert_base, cache_remove_obj_base"), ("per algorithm evict/remove", EV)],
     ["get_occupied_byte", "get_n_obj", "find without update"], "pbt cachelib p_cache",
     "stateful property-based testing against a shadow map, under AddressSanitizer",
     "Randomised histories with shrinking; bounded length and object count; assumes documented API use.")
prop("P02", "A request reports a hit exactly when the object was cached",
     "A request is reported as a hit if and only if the object was resident just before it; after a request for an object the cache accepts, that object is resident. Objects leave a cache only by eviction for space, by explicit removal, or where the algorithm documents it, and never while the request's object still fits.",
     ["histories", "configurations"], "every request history over every algorithm, size, parameter and metadata setting",
     "Tests compare one aggregate miss count per algorithm on one trace; compensating errors, wrong objects being resident, or wrong results at other sizes are invisible.",
     ["libCacheSim/cache/cache.c", EV], [("request handling", "libCacheSim/cache/cache.c cache_get_base"), ("lookup", "libCacheSim/cache/cache.c cache_find_base")],
     ["return value of a request", "find without update before and after"], "pbt cachelib p_cache",
     "stateful property-based testing: residency invariant before/after each request",
     "Randomised; decides single-step truthfulness for every generated history.")
prop("P03", "Removal and eviction remove exactly what they report",
     "Removing an object reports true exactly when it was resident and makes precisely that object absent; evicting makes exactly one resident object absent, and it is the one that the eviction-candidate query named just before where the algorithm supports that query. A cache can always be drained to empty by evictions or removals and then used as new.",
     ["histories"], "every interleaving of requests, candidate queries, evictions and removals, on every algorithm that supports them",
     "No unit test calls remove, evict or to_evict directly.",
     [EV, "libCacheSim/cache/cache.c", "libCacheSim/cache/eviction/fifo/README.md"] if False else [EV, "libCacheSim/cache/cache.c"],
     [("remove", EV + "*_remove"), ("evict", EV + "*_evict"), ("candidate", EV + "*_to_evict")],
     ["return values", "find without update"], "pbt cachelib p_cache", "stateful property-based testing with drain-to-empty epilogues",
     "Randomised; algorithms whose code declares remove/evict unsupported are excluded (listed in DESIGN.md).")
prop("P04", "Queue-based algorithms evict exactly what their definition says",
     "FIFO, LRU, MRU, Clock, Sieve, SLRU, 2Q, S3-FIFO, ARC and QDLP keep, after every request, exactly the resident set that a direct transcription of the published/documented algorithm keeps on the same requests and parameters, and so report the same hits.",
     ["histories", "configurations"], "every request history, object sizes, cache size and algorithm parameter",
     "Golden miss ratios on one trace with eight sizes sample a handful of histories and would accept a different policy with the same counts; parameters are hardly exercised.",
     [EV + f for f in ["FIFO.c", "LRU.c", "MRU.c", "Clock.c", "Sieve.c", "SLRU.c", "TwoQ.c", "S3FIFO.c", "ARC.c", "QDLP.c"]],
     [("queues", "libCacheSim/cache/cacheObj.c list helpers"), ("policies", EV)], ["hit/miss sequence", "resident set"], "pbt cachelib models p_models",
     "model-based differential testing against independent reference models",
     "Randomised histories up to 420 operations with shrinking; the reference models are independent transcriptions, so a shared misreading of the definition would go unseen.")
prop("P05", "Ranking-based algorithms evict the object with the lowest rank",
     "LFU, LFU with aging, GDSF, Size, Hyperbolic, Belady and BeladySize each evict, among the candidates their definition considers, the object with the lowest documented rank (frequency, aged frequency, frequency over size, size, hits per age, next use), with documented tie-breaking, on every request history.",
     ["histories", "configurations"], "every request history, object sizes and cache size",
     "One trace and final miss ratios only; rank updates after re-insertion, ties and size changes are not sampled.",
     [EV + f for f in ["LFU.c", "LFUDA.c", "cpp/GDSF.cpp", "cpp/LFU.cpp", "Size.c", "Hyperbolic.c", "Belady.c", "BeladySize.c", "cpp/abstractRank.hpp"]],
     [("ranking", EV + "cpp/abstractRank.hpp"), ("frequency lists", EV + "LFU.c")], ["hit/miss sequence", "resident set"], "pbt cachelib models p_models",
     "model-based differential testing against independent reference models",
     "Randomised histories; sampling algorithms are decided in a configuration where every object is sampled; LeCaR is held to one of its two experts.")
prop("P06", "Belady is optimal for unit-size objects",
     "With objects of equal size, the offline-optimal algorithm has, on every request sequence and cache size, the minimum possible number of misses: no other algorithm beats it and it equals the exact optimum.",
     ["histories", "configurations"], "every request sequence with equal sizes, cache size and competing algorithm",
     "The test checks one miss count; optimality is a statement about all sequences and all algorithms.",
     [EV + "Belady.c", "libCacheSim/dataStructure/pqueue.c"], [("furthest next use first", EV + "Belady.c Belady_evict")],
     ["miss counts"], "pbt cachelib models p_models",
     "metamorphic/differential testing against an exact optimum (exhaustive search / OPT model) and all other algorithms",
     "Randomised; the exact dynamic programme covers at most 8 objects and 4 slots, larger instances use furthest-in-future.")
prop("P07", "Observing a cache does not change it",
     "Lookups without update, admission queries, eviction-candidate queries (where the algorithm is deterministic), and reading the object count or occupied bytes never change any later hit, miss or eviction.",
     ["histories"], "every history with observations inserted at arbitrary places, every algorithm",
     "Tests never interleave observers with requests, so a side effect of an observer cannot show.",
     ["libCacheSim/cache/cache.c", EV], [("find without update", EV + "*_find"), ("can_insert, get_n_obj, get_occupied_byte", EV)], ["hit/miss sequence with and without the observers"],
     "pbt cachelib p_cache", "metamorphic testing: same history with and without observers",
     "Randomised; observers documented by the code to reorganise the cache (LHD/WTinyLFU-like) are excluded per algorithm.")
prop("P08", "Results depend only on the requests: determinism, clones, renaming",
     "Replaying a history on a fresh cache, on a clone, on a cache re-created at a size, at any initial hash table size, with object ids renamed, or while other caches are being used, gives the same hits and misses.",
     ["histories", "configurations"], "every history, id renaming, hash table size and interleaving with unrelated caches, for every algorithm whose definition does not involve randomness or id hashes; randomised ones replayed under one seed",
     "Each test runs one cache at a time on one trace with fixed ids and one hash power.",
     ["libCacheSim/cache/cache.c", EV, "libCacheSim/cache/cacheUtils.h" if False else "libCacheSim/cache/cache.c"],
     [("clone_cache, create_cache_with_new_size", "libCacheSim/cache/cache.c"), ("hash table growth", "libCacheSim/dataStructure/hashtable/chainedHashTableV2.c")],
     ["hit/miss sequence"], "pbt cachelib p_cache", "metamorphic testing across equivalent configurations",
     "Randomised; hash-dependent algorithms are excluded from id renaming.")
prop("P09", "LRU results agree with stack distances and satisfy inclusion",
     "For unit-size objects, an LRU cache of n objects hits exactly the requests whose stack distance is below n, so a larger cache never misses more; the one-pass LRU miss-ratio profiler gives the same miss ratio at every size as simulating that size.",
     ["histories", "configurations"], "every request sequence and cache size",
     "The profiler test compares a few points of one trace to recorded numbers.",
     ["libCacheSim/profiler/profilerLRU.c", "libCacheSim/dataStructure/splay.c", EV + "LRU.c"],
     [("splay-tree stack distance", "libCacheSim/profiler/profilerLRU.c"), ("LRU", EV + "LRU.c")], ["miss ratio curve", "miss counts of simulated caches"],
     "pbt cachelib tracefmt p_dist",
     "differential testing: profiler vs simulation vs naive stack distance",
     "profiler and LRU at up to 18 sizes per trace vs stack distances by definition; inclusion chains by bytes")
prop("P10", "Reuse-distance computations match their definition",
     "For every trace, the stack distances, the distances since last access and since first access, computed by the library and by the command line tool, equal those a direct computation over the request sequence gives, and saving then loading them returns the same values.",
     ["inputs"], "every request sequence, distance type and output format",
     "The test prints or compares a few values of one trace.",
     ["libCacheSim/profiler/dist.c", "libCacheSim/bin/distUtil"], [("stack distance", "libCacheSim/profiler/dist.c get_stack_dist"), ("access distance", "libCacheSim/profiler/dist.c get_access_dist")],
     ["returned arrays", "output files"], "pbt cachelib tracefmt p_dist bin:distUtil",
     "differential testing against a naive O(n^2) oracle; save/load round trip",
     "all four distances, files and loaded arrays, traces to 400,000 requests, command line tool")
prop("P11", "Multi-cache simulation equals replaying each cache alone",
     "Simulating many caches or sizes in parallel over one trace reports, for every cache, exactly the request, byte and miss counts that replaying the trace once through that cache gives, whatever the number of threads and the order in which they finish, including with a warm-up prefix or a separate warm-up trace, and leaves the given reader and cache usable.",
     ["schedules", "inputs", "configurations"], "every trace, set of caches/sizes, thread count and thread interleaving, warm-up setting",
     "The simulator tests compare a few sizes of one trace and cannot vary the schedule.",
     ["libCacheSim/profiler/simulator.c", "libCacheSim/traceReader/reader.c", "libCacheSim/cache/cache.c"], [("thread pool with one reader clone per task", "libCacheSim/profiler/simulator.c")],
     ["cache_stat_t results"], "pbt cachelib tracefmt p_sim",
     "differential testing of parallel vs sequential replay over generated traces, thread counts and schedules",
     "generated traces, cache sets, warm-up choices and thread counts; every cache of a multi-cache run compared with replaying the same requests into a fresh cache, plus a recording cache which sees exactly what each simulated cache is given; schedules varied by naps in the task submission")
prop("P12", "A reader returns exactly the requests the trace file contains",
     "For every supported trace format (csv, txt, generic binary, oracleGeneral, Twitter, Valpin, LCS-like and compressed variants), reading a file returns exactly the requests written to it, in order, with their ids, sizes, times and other recorded fields, and reports the right number of requests, whether its type is given, named, or left to be detected from its path.",
     ["inputs", "configurations"], "every request sequence representable in the format, every format, field layout, delimiter, header and compression",
     "Tests read one sample trace per format and check some of the first requests.",
     ["libCacheSim/traceReader/"], [("format readers", "libCacheSim/traceReader/generalReader, customizedReader"), ("open/map/decompress", "libCacheSim/traceReader/reader.c")],
     ["request fields", "get_num_of_req"], "pbt cachelib tracefmt p_reader",
     "round-trip property-based testing with independent encoders",
     "26 record formats x ids, sizes, times, header; files written by encoders of our own; plain, truncated and zstd; opened by type, by type name and parameter text, and by detection from the path (auto)")
prop("P13", "Reader navigation agrees with plain sequential reading",
     "Any interleaving of reading, rewinding, skipping, reading backwards, jumping to the end or to a fraction, peeking first/last/one-above requests and cloning returns the requests that an index into the sequentially read list predicts, and a clone or peek never disturbs the original.",
     ["histories", "inputs"], "every interleaving of navigation calls over every trace and format that supports them",
     "Tests use each call once in a fixed order on one trace.",
     ["libCacheSim/traceReader/reader.c", "libCacheSim/include/libCacheSim/reader.h"], [("reset, skip, read above, clone", "libCacheSim/traceReader/reader.c")],
     ["request fields"], "pbt cachelib tracefmt p_reader",
     "stateful model-based testing: reader vs list index",
     "model = index into the sequentially read list; 3 readers (clones) per history; text, binary and zstd")
prop("P14", "Reader options filter the request stream as documented",
     "Limiting the number of requests, ignoring object sizes, skipping zero-size objects, expanding repeat counts, choosing field columns, delimiter and header, and numeric versus hashed string ids give exactly the full stream transformed accordingly, on every trace.",
     ["inputs", "configurations"], "every combination of reader options over every trace and format",
     "Tests use one or two fixed option sets.",
     ["libCacheSim/traceReader/reader.c", "libCacheSim/traceReader/generalReader"], [("option handling", "libCacheSim/traceReader/reader.c read_one_req")],
     ["request fields"], "pbt cachelib tracefmt p_reader",
     "metamorphic testing of options against the unfiltered stream",
     "cap, skip n, ignore size, zero sizes, repeats, string ids against the unfiltered stream")
prop("P15", "cachesim reports what a direct simulation of the trace gives",
     "For every trace, format, algorithm list, size specification (with units, as a fraction of the working set, automatic) and option (ignore sizes, metadata, request limit, warm-up, admission), the command line simulator prints and writes, per cache, the miss ratio, byte miss ratio, request count and size that the same configuration gives when driven directly.",
     ["inputs", "configurations"], "every trace and command line of the documented grammar",
     "No test runs the command line program.",
     ["libCacheSim/bin/cachesim"], [("argument parsing", "libCacheSim/bin/cachesim/cli_parser.c"), ("cache creation", "libCacheSim/bin/cachesim/cache_init.h"), ("simulation", "libCacheSim/bin/cachesim/sim.c")],
     ["stdout", "result files"], "pbt cachelib tracefmt p_cachesim bin:cachesim",
     "generated command lines and traces, compared to an independent model of the run",
     "generated traces, options and algorithm lists; every printed and written result and periodic report of the program compared with caches driven directly over the same requests")
prop("P16", "Spatial sampling keeps or drops whole objects",
     "A spatially sampled stream is a subsequence of the full stream that contains either all or none of the requests of each object, the same objects on every pass and every clone, nested as the ratio grows and with about the requested share of objects; temporal sampling keeps every k-th request.",
     ["inputs", "configurations"], "every trace, ratio and salt", "Tests check one count for one ratio.",
     ["libCacheSim/traceReader/sampling"], [("hash of the object id", "libCacheSim/traceReader/sampling/spatial.c"), ("counter", "libCacheSim/traceReader/sampling/temporal.c")],
     ["sampled request stream"], "pbt cachelib tracefmt p_reader",
     "metamorphic testing: subsequence, per-object consistency, repeatability, bounds on the share",
     "spatial sampler over 25 ratios and salts, temporal sampler, clones and resets")
prop("P17", "Trace tools convert, print and filter without losing or changing requests",
     "Converting a trace to the oracle format keeps every request's time, object and size in order and annotates each with the position of the next request for the same object; printing lists exactly the requests in order; filtering writes exactly the requests that miss in the given cache.",
     ["inputs", "configurations"], "every trace, input format and tool option", "No test runs these programs.",
     ["libCacheSim/bin/traceUtils"], [("conversion by reading backwards", "libCacheSim/bin/traceUtils/traceConvLCS or oracle*.cpp"), ("printing", "libCacheSim/bin/traceUtils/tracePrint.cpp"), ("filtering", "libCacheSim/bin/traceUtils/traceFilter.cpp")],
     ["output files", "stdout"], "pbt cachelib tracefmt p_utils bin:traceConv bin:tracePrint bin:traceFilter",
     "round-trip and differential testing of the programs over generated traces",
     "generated traces in every command line format; the converted, printed and filtered output of the programs compared record by record with the requests the trace was written from")
prop("P18", "Admission policies admit exactly the objects they describe, in every cache",
     "The size policy admits exactly objects under its threshold, the Bloom-filter policy admits exactly objects seen before (never rejecting one it has seen), the probabilistic policy admits the configured share, and with a policy installed no rejected object ever becomes resident while hits on resident objects are unaffected; clones of a cache keep its policy.",
     ["histories", "configurations"], "every request history, policy, threshold and eviction algorithm",
     "No test uses an admission policy.",
     ["libCacheSim/cache/admission", "libCacheSim/cache/cache.c"], [("policy", "libCacheSim/cache/admission/*.c"), ("consulted before insertion", "libCacheSim/cache/cache.c cache_can_insert_default")],
     ["residency", "policy return value"], "pbt cachelib models p_admit",
     "stateful property-based testing with shadow policies over all eviction algorithms",
     "oracle: exact rules and spied decisions")
prop("P19", "Prefetching changes only what is cached, never capacity or truthfulness",
     "With any prefetcher installed, a cache still never exceeds its size, reports exact counts and truthful hits, and never prefetches an object it would refuse; the one-block-lookahead prefetcher brings in the next block exactly after a long enough sequential run.",
     ["histories", "configurations"], "every request history, prefetcher, parameters and eviction algorithm",
     "Tests compare one final miss count per prefetcher on one trace.",
     ["libCacheSim/cache/prefetch", "libCacheSim/cache/cache.c"], [("prefetch hook after each request", "libCacheSim/cache/cache.c cache_get_base"), ("prefetchers", "libCacheSim/cache/prefetch")],
     ["occupied bytes", "resident set"], "pbt cachelib p_prefetch",
     "stateful property-based testing with a shadow map and an OBL model",
     "oracle: accounting, truth and an exact model of one-block lookahead")
prop("P20", "The object hash tables behave as maps",
     "Under any sequence of insertions, lookups, deletions, random picks and iterations, with growth and colliding ids, the object hash tables contain exactly the objects inserted and not deleted, each reachable and visited once, at any initial size.",
     ["histories", "configurations"], "every operation sequence and initial table size, including adversarially colliding ids",
     "The data structure test inserts a fixed range of ids.",
     ["libCacheSim/dataStructure/hashtable"], [("chained table with stored keys and growth", "libCacheSim/dataStructure/hashtable/chainedHashTableV2.c")],
     ["lookup results", "iteration"], "pbt cachelib p_ds",
     "stateful model-based testing against a standard map, under AddressSanitizer",
     "Randomised operation sequences; the version 1 table (not selected in the default build) is included with its list links; rand is only required to return a member.")
prop("P21", "Ordered and probabilistic data structures keep their contracts",
     "The priority queue always pops the item its comparison ranks highest (by default the largest priority) and honours priority changes and removals, the splay tree answers rank and order queries exactly, the Bloom filter never forgets an added item, and the counting filter never under-estimates, under any operation sequence.",
     ["histories"], "every operation sequence and filter size",
     "The tests exercise them with one fixed sequence or not at all.",
     ["libCacheSim/dataStructure/pqueue.c", "libCacheSim/dataStructure/splay.c", "libCacheSim/dataStructure/bloom.c", "libCacheSim/dataStructure/minimalIncrementCBF.c"],
     [("heap", "libCacheSim/dataStructure/pqueue.c"), ("splay", "libCacheSim/dataStructure/splay.c"), ("filters", "libCacheSim/dataStructure/bloom.c, minimalIncrementCBF.c")],
     ["query results"], "pbt cachelib p_ds",
     "stateful model-based testing against standard containers",
     "Randomised; error rates of the filters are bounded statistically with a wide margin.")
prop("P22", "Trace analysis reports the statistics of the trace",
     "For every trace, the analyzer's summary (requests, objects, bytes, one-hit wonders, compulsory misses, time span) and its per-request and per-object distributions (popularity, object size, reuse distance in requests and seconds, request rate, access pattern) equal those computed directly from the requests.",
     ["inputs", "configurations"], "every trace and task selection", "The test runs the analyzer once and compares nothing or a few numbers.",
     ["libCacheSim/traceAnalyzer"], [("single pass over the trace", "libCacheSim/traceAnalyzer/analyzer.cpp"), ("per-task accumulators", "libCacheSim/traceAnalyzer")],
     ["output files"], "pbt cachelib tracefmt p_analyzer bin:traceAnalyzer",
     "differential testing of the output files against a naive computation",
     "generated traces in every command line format and generated task selections; the summary and every output file compared with statistics computed from the requests written; experimental tasks (lifetime, probAtAge, createFutureReuse, sizeChange), which no option enables, are out")
prop("P23", "No trace file or parameter text corrupts memory or hangs the program",
     "Whatever bytes a trace file holds and whatever text is given as reader, cache, admission or prefetch parameters, the program either processes it or stops with a diagnostic; it never reads or writes out of bounds, crashes or runs forever. (Running out of memory because a number asks for more than there is, and taking time in proportion to a count given as a parameter, are not violations.)",
     ["inputs"], "every byte string as a trace file of each format and every parameter string", "Tests only read well-formed sample traces.",
     ["libCacheSim/traceReader", "libCacheSim/bin/cli_reader_utils.c", EV], [("bounds of mapped files", "libCacheSim/traceReader/reader.c"), ("parameter parsing", EV + "*_parse_params")],
     ["termination status"], "pbt cachelib tracefmt p_fuzz",
     "structured and mutation fuzzing under AddressSanitizer with hang detection",
     "generated and mutated files, parameter texts and moves in the file, run in child processes under AddressSanitizer with mapped files copied into memory of exactly their size; hangs have a limit of 20 s")
prop("P24", "The command line programs answer every argument list",
     "Whatever options, option values and positional arguments are given, on any readable trace, cachesim, distUtil, traceConv, tracePrint, traceFilter and traceAnalyzer either complete or stop with a diagnostic; they never corrupt memory, crash or run forever, and never change the trace. (Numbers that only ask for more memory or threads than there are do not count.)",
     ["inputs", "configurations"], "every argument list of the six programs over every trace of every format", "Tests call the library; no test runs a program.",
     ["libCacheSim/bin"], [("argument parsing", "libCacheSim/bin/cachesim/cli_parser.c, distUtil/cli.c, traceUtils/cli_parser.cpp, traceAnalyzer/cli_parser.cpp"), ("what the programs do", "libCacheSim/bin/cachesim/sim.c, libCacheSim/traceAnalyzer, libCacheSim/profiler/dist.c")],
     ["termination status", "standard error", "the trace file"], "pbt cachelib tracefmt p_cli abin:cachesim abin:distUtil abin:traceConv abin:tracePrint abin:traceFilter abin:traceAnalyzer",
     "structured fuzzing of argument lists of programs built with AddressSanitizer",
     "generated argument lists (documented, extreme, garbage, cut off, repeated and long values, missing and superfluous arguments, other types and paths) on generated traces; programs built with AddressSanitizer; hang limit 60 s")
prop("P25", "Expired objects are never hits in a build with TTL support",
     "In a build with TTL support (cmake -DSUPPORT_TTL=ON), with every algorithm that supports expiry (2Q, LIRS, Cacheus, LHD and GLCache do not), a request hits only if the object was inserted and has not expired at the request's time; an expired object counts as a miss, its space is reclaimed and it can be inserted again, and an object without a time to live does not expire.",
     ["histories", "configurations"], "every history of requests with time-to-live values and arbitrary time advances, every algorithm that supports expiry (2Q, LIRS, Cacheus, LHD and GLCache do not)",
     "The default test build has TTL disabled.",
     ["libCacheSim/cache/cache.c", "libCacheSim/cache/cacheObj.c"], [("expiry at lookup", "libCacheSim/cache/cache.c cache_find_base"), ("expiry time set on insertion", "libCacheSim/cache/cache.c cache_insert_base")],
     ["return value of a request"], "ttl:pbt ttl:cachelib ttl:p_ttl",
     "stateful property-based testing against a shadow map with expiry times",
     "generated request histories with times to live against the expiry of each object's last insertion, exact object and byte counts where nothing is evicted, and exact models of LRU, FIFO and MRU with expiry, under AddressSanitizer")

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["harness"]:
            checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                           "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Checks need no hooks in /repo. Known findings and repairs: known_findings.txt."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    with open(V + "/check_table", "w") as f:
        for p in P:
            if p["harness"]:
                f.write(p["id"] + " " + p["harness"] + "\n")
main()
