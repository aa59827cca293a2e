#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the lists below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import CHECKS

BT = "include/indexes/btree/concurrent_map.h"
HT = "include/indexes/hashtable/concurrent_map.h"
AT = "include/indexes/art/concurrent_map.h"
EP = "include/indexes/utils/EpochManager.h"
TESTS_NONE = "No test instantiates the concurrent classes at all, so no schedule of theirs is ever run; "

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Concurrent B-tree point operations are linearizable",
     "Insert, upsert, update, delete and search called on one concurrent B-tree map from any number of threads return exactly what the same calls would return if executed one at a time on an ordered map, in some order that respects real time. This holds through node splits, merges and root growth or shrinkage caused by any of the threads, and every value returned is one that was written, whole. No operation makes an unrelated key appear, vanish or change.",
     ["schedules", "histories", "configurations"], "every interleaving (x86-TSO), every mix of operations and keys, several node sizes, key and value types",
     TESTS_NONE + "and a unit test of a race samples a handful of the schedules the hardware happens to produce.",
     [BT, "include/indexes/btree/common.h"],
     [("optimistic version checks with restart", BT + ": get_leaf_containing, *_internal"), ("pessimistic lock coupling for splits and merges", BT + ": split/merge/trim")],
     ["return values of the public operations", "search of every key after the threads stop"], [("node version", "odd/even lock state plus change counter", BT)])
prop("C02", "Concurrent B-tree iteration and range queries are ordered, bounded, complete",
     "Any iteration, lower/upper bound walk or forward or reverse range query over a concurrent B-tree map yields keys in strictly ascending (or descending) order - the keys' own order, or that of the comparison given - inside the requested bounds, each with a value that key held at some moment during the iteration, whatever other threads, or the iterating thread itself, do meanwhile. A key that is present during the whole iteration is never skipped, and the iteration always ends. With no other thread active it yields exactly the elements that searches find.",
     ["schedules", "histories", "inputs"], "every interleaving of iterations (both directions, both bound kinds, mixed steps) with inserts, updates, deletes, splits and merges",
     TESTS_NONE + "the test suite iterates only the single-threaded map.",
     [BT], [("low-key/high-key chaining between leaves", BT + ": get_next_leaf/get_prev_leaf"), ("snapshot of a leaf's slots with version validation", BT + ": iterator_impl")],
     ["sequence of (key, value) pairs an iterator yields"])
prop("C03", "Concurrent B-tree memory: no use after free, nothing leaked",
     "No operation or iterator of a concurrent B-tree map ever touches memory (nodes, keys, values) that has been released or never allocated, releases anything twice, or returns while holding one of the map's locks, in any schedule. Everything the map allocated, including key objects that own memory, is destroyed and released exactly once, at the latest when the map is destroyed.",
     ["schedules", "histories"], "every interleaving and operation history ending in destruction, any reclamation threshold",
     TESTS_NONE + "and address sanitizers only see the schedules and histories that happen to be run.",
     [BT, EP], [("epoch-based retirement of nodes and removed entries", BT + ": m_gc/retire"), ("EpochGuard around every operation and iterator", BT)],
     ["every memory access of the code", "allocations still live after destruction"], hook="INDEXES_SIM_RECLAMATION_THRESHOLD")
prop("C04", "Concurrent hash table operations are linearizable, also while it grows",
     "Insert, upsert, update, delete and search called on one concurrent hash table from any number of threads return exactly what the same calls would return if executed one at a time on a map, in some order that respects real time. This holds while the table migrates to a larger one because of inserts or an explicit reserve, with colliding hashes and chained overflow, and whatever the initial capacity. No element is lost, duplicated or resurrected by a migration.",
     ["schedules", "histories", "configurations"], "every interleaving (x86-TSO), hash functions from perfect to constant, any initial capacity, concurrent reserve calls",
     TESTS_NONE + "the hash table has no test and is not even compiled by the build.",
     [HT], [("per-bucket locks and states", HT + ": bucket state machine"), ("cooperative migration with forwarding of migrated buckets", HT + ": migrate")],
     ["return values of the public operations", "search of every key after the threads stop"])
prop("C05", "Concurrent hash table memory: no use after free, nothing leaked",
     "No operation of a concurrent hash table ever touches a table or entry that has been released, releases anything twice, or returns while holding one of the table's locks, in any schedule, including operations that started before a migration finished. Every table and every key or value it stored is destroyed and released exactly once, at the latest when the map is destroyed.",
     ["schedules", "histories"], "every interleaving and operation history ending in destruction, any reclamation threshold",
     TESTS_NONE + "and the lifetime of an old table depends on which threads still hold it.",
     [HT, EP], [("retirement of migrated tables through epochs", HT), ("EpochGuard around every operation", HT)],
     ["every memory access of the code", "allocations still live after destruction"], hook="INDEXES_SIM_RECLAMATION_THRESHOLD")
prop("C06", "Concurrent ART operations are linearizable",
     "Insert, upsert, update, delete and search called on one concurrent adaptive radix tree from any number of threads return exactly what the same calls would return if executed one at a time on a map from 64-bit keys, in some order that respects real time. This holds while nodes grow to a larger kind, shrink, are split on a prefix mismatch or are removed, for any set of keys including those that share long byte prefixes.",
     ["schedules", "histories", "inputs"], "every interleaving (x86-TSO), key sets with any prefix structure, node sizes crossing every kind boundary in both directions",
     TESTS_NONE + "the radix tree has no test at all.",
     [AT, "include/indexes/art/common.h"], [("optimistic lock coupling with dead-node marks", AT), ("copy-on-grow/shrink and prefix split under parent and node locks", AT)],
     ["return values of the public operations", "search of every key after the threads stop"])
prop("C07", "Concurrent ART memory: no use after free, nothing leaked",
     "No operation of a concurrent adaptive radix tree ever touches a node that has been released, releases one twice, or returns while holding one of the tree's locks, in any schedule. Every node it allocated is released exactly once, at the latest when the tree is destroyed.",
     ["schedules", "histories"], "every interleaving and operation history ending in destruction, any reclamation threshold",
     TESTS_NONE + "and address sanitizers only see the schedules that happen to be run.",
     [AT, EP], [("epoch-based retirement of replaced nodes and leaves", AT)],
     ["every memory access of the code", "allocations still live after destruction"], hook="INDEXES_SIM_RECLAMATION_THRESHOLD")
prop("C08", "Epoch reclamation never destroys an object a guarded thread can reach",
     "An object handed to the epoch-based reclaimer after it was made unreachable is never destroyed while any thread is still inside a guarded section it entered before the object was made unreachable. This holds for any number of threads entering, leaving, registering and unregistering at any moment, for any reclamation threshold, and on hardware that delays stores.",
     ["schedules", "histories"], "every interleaving (x86-TSO, including delayed stores) of guarded sections, retirements and thread churn",
     TESTS_NONE + "and the window between announcing an epoch and reading a shared pointer is a few instructions.",
     [EP], [("per-thread announced epoch, published before reads", EP + ": enter_epoch"), ("minimum announced epoch bounds what is reclaimed", EP + ": get_min_used_epoch")],
     ["reads by a guarded thread of an object another thread unlinks and retires"], hook="INDEXES_SIM_RECLAMATION_THRESHOLD")
prop("C09", "Retired objects are destroyed exactly once, and eventually",
     "Every object handed to the epoch-based reclaimer is destroyed exactly once, with its own destruction function. Once no thread is inside a guarded section, a full reclamation destroys everything retired so far, including objects retired by threads that have since unregistered, and destroying the reclaimer leaves nothing behind. A thread whose retired objects reach the reclamation threshold in force reclaims, and any reclamation by a thread destroys everything that thread retired in an epoch that ended before the oldest guarded section still active began; so steady retirement with threads that keep leaving their guarded sections keeps the number of unreclaimed objects bounded.",
     ["schedules", "histories"], "every interleaving of retirements, reclamations and thread churn",
     TESTS_NONE + "a missed object is silent.",
     [EP], [("per-thread retire lists, drained on threshold", EP + ": retire_in_*_epoch, do_reclaim"), ("reclaim_all and destructor", EP)],
     ["count of destructions per retired object"], hook="INDEXES_SIM_RECLAMATION_THRESHOLD")
prop("C10", "Size, emptiness, height and moves of concurrent maps are exact at rest",
     "Once the threads using a concurrent map have stopped, its reported size equals the number of keys that searches find and it reports itself empty exactly when there are none, whatever history of racing operations, growth and shrinkage came before. The reported height of the B-tree stays within the logarithmic bounds for its contents' history, the reported load factor of a hash table is the percentage of its buckets in use, reserving room for a number of elements leaves it with no fewer buckets than that, and a map move-constructed from another holds exactly the other's elements and remains fully usable.",
     ["schedules", "histories"], "every interleaving and history, observed at rest between phases",
     TESTS_NONE + "and counter drift appears only when particular operations race.",
     [BT, HT, AT], [("size counters updated next to the change they count", BT + ", " + HT + ", " + AT)],
     ["size(), empty(), height(), load_factor() after the threads stop", "search of every key"])
prop("C11", "Concurrent maps make progress: no deadlock, livelock or blocking lookups",
     "Once the scheduler is fair, every operation on a concurrent map completes within a bounded number of steps of the running threads, whatever stalls, preemptions and interleavings came before: no deadlock, lost wake-up, endless restart or cyclic structure. Lookups of word-sized values in the hash table and the radix tree complete even while every other thread is stopped at an arbitrary point in the middle of its operation.",
     ["schedules"], "every interleaving, threads stopped at arbitrary points, then a fair schedule",
     TESTS_NONE + "and a deadlock needs one particular interleaving.",
     [BT, HT, AT], [("lock ordering parent before child, try-lock and restart", BT + ", " + AT), ("lookups that read optimistically and do not lock for word-sized values", HT + ", " + AT)],
     ["number of simulated steps until the operations return"])
prop("C12", "Concurrent maps survive allocation failure",
     "If an allocation fails at any point inside any operation of a concurrent map, that operation throws and either took full effect or none, other keys are unaffected, no lock stays held, and every later operation by any thread works correctly and completes. Nothing crashes, terminates or returns a wrong result because of the failure.",
     ["fault_sequences", "schedules", "histories"], "allocation failures at any subset of allocation points, under every interleaving",
     TESTS_NONE + "and no test makes an allocation fail.",
     [BT, HT, AT], [("allocation before modification, RAII lock guards", BT + ", " + HT + ", " + AT)],
     ["exceptions and return values of the operations", "search of every key after the threads stop"])
prop("C13", "Single-threaded B-tree map stays a correct map across allocation failures",
     "After any history of operations on the single-threaded B-tree map in which any subset of allocations failed, an operation that failed either took full effect or none, and every later insertion, lookup, update, erase, iteration and bound query answers exactly as an ordered map with the same contents and comparison, whose size, emptiness and height it also reports; iterators move in both directions, also back from the end. No operation touches released memory, releases twice or crashes, and everything allocated is released by the time the map is destroyed, also by operations that failed.",
     ["fault_sequences", "histories", "configurations"], "every history of operations with allocation failures at any point, several node sizes, key and value types",
     "The tests run three fixed workloads without a single allocation failure, with default-sized nodes and trivially destructible types.",
     ["include/indexes/btree/map.h", "include/indexes/btree/common.h"], [("node split before insertion, merge after erase", "include/indexes/btree/map.h")],
     ["return values", "iteration order and contents", "every memory access"])
prop("C14", "Single-threaded ART map stays a correct map across allocation failures",
     "After any history of operations on the single-threaded radix tree map in which any subset of allocations failed, an operation that failed either took full effect or none, and every later insertion, lookup, update and delete answers exactly as a map with the same contents, with a matching size. No operation touches released memory, releases twice or crashes, and everything allocated is released by the time the map is destroyed, also by operations that failed.",
     ["fault_sequences", "histories"], "every history of operations with allocation failures at any point, key sets with any prefix structure",
     "The radix tree map has no test.",
     ["include/indexes/art/map.h", "include/indexes/art/common.h"], [("node growth, shrinkage and prefix split", "include/indexes/art/map.h")],
     ["return values", "every memory access"])
U = "src/benchmark/utils/"
Y = "src/benchmark/ycsb/"
prop("C15", "Workload generators and client stay correct when shared by concurrent clients",
     "When any number of client threads share one set of workload generators, the counter hands out every number exactly once, in an order that respects real time, and the uniform generator hands out exactly the sequence one client alone would draw, each value once. Zipfian, scrambled Zipfian, latest and discrete generators return, for every random number whatsoever, an item inside their declared range, and the one their distribution assigns to that random number, also when the number of items grows meanwhile. A workload built on them inserts the keys of a gapless sequence, each once, runs transactions only on loaded records, chooses only operations of non-zero proportion, names only fields that exist, and keeps scan and field lengths between one and the configured maximum; the client reports success exactly when the database did.",
     ["schedules", "histories", "inputs", "configurations"], "every interleaving of draws, random number streams chosen by the simulator including extreme ones, every request distribution, field and scan length distribution",
     "The generators and the workload have no test; the benchmark runs them with one fixed random stream and ignores what they return.",
     [U + n for n in ("counter_generator.h", "uniform_generator.h", "zipfian_generator.h", "scrambled_zipfian_generator.h", "skewed_latest_generator.h", "discrete_generator.h")] +
     [Y + "core/core_workload.h", Y + "core/core_workload.cpp", Y + "core/client.h"],
     [("atomic counter", U + "counter_generator.h: CounterGenerator::Next"), ("draws under a mutex", U + "zipfian_generator.h, uniform_generator.h, discrete_generator.h"),
      ("redraw until the key is loaded", Y + "core/core_workload.h: NextTransactionKey")],
     ["values drawn", "calls the client makes to its database"])
prop("C16", "Benchmark databases apply record operations atomically",
     "Insert, read, update, scan and delete of records called on a benchmark database from any number of client threads behave as if executed one at a time on a table of records, in an order that respects real time: a read returns the requested fields of one state of the named record, an update changes exactly the fields given, a delete removes exactly the named record, and a scan returns existing records in key order from the start key, as many as asked for if there are as many. Over the concurrent B-tree, this holds for each record, and a scan returns for each one a state it had during the scan. No record is leaked, released twice or used after release, and a benchmark run on loaded records has no failing operation.",
     ["schedules", "histories", "configurations"], "every interleaving of record operations on few records, for each of the databases the factory creates",
     "The databases have no test; the benchmark ignores what their operations return.",
     [Y + "db/locked_map_db.h", Y + "db/concurrent_map_db.h", Y + "db/db_factory.cpp"],
     [("one mutex around every operation", Y + "db/locked_map_db.h"), ("records behind pointers in a concurrent B-tree", Y + "db/concurrent_map_db.h")],
     ["results of the record operations", "every memory access", "objects still allocated when the database is destroyed"])
prop("C17", "Memory held by an index stays proportional to its contents",
     "After any history of operations on a map - filling and draining, sliding windows of keys, random replacement, overwriting, by one thread or by several - once no operation runs and everything retired has been reclaimed, the memory the map holds is at most a constant factor of what a freshly built map with the same contents holds (for the hash table: with the most elements that were ever present at once), plus a few nodes per level. Emptied and shrunken nodes are merged, reduced or released and the space of removed elements is reused, so steady turnover of elements does not make an index grow. While a single thread works, the retired objects that await reclamation stay bounded by the reclamation threshold.",
     ["histories", "schedules", "configurations"], "every long history of insertions, overwrites and deletions, sequential or concurrent, every node size, key and value type",
     "Growth shows only after thousands of turnovers in particular patterns; no test measures memory or deletes more than it inserts.",
     [BT, HT, AT, "include/indexes/btree/map.h", "include/indexes/art/map.h"],
     [("merge of underfull leaf and inner nodes, trimming of the slot and entry space", BT + ", include/indexes/btree/map.h: merge/trim"),
      ("shrinking to a smaller node kind and removal of one-child nodes", AT + ", include/indexes/art/map.h: shrink"),
      ("new table sized by live elements, tombstones dropped", HT + ": migrate")],
     ["bytes allocated by the map at rest", "retired objects not yet reclaimed"], hook="INDEXES_SIM_RECLAMATION_THRESHOLD")


json.dump  # keep linters quiet
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
NA = {}
hooks = {"guard": "INDEXES_SIM_RECLAMATION_THRESHOLD",
         "enable": "check.py compiles /repo's headers with -DINDEXES_SIM_RECLAMATION_THRESHOLD=::sim_reclamation_threshold()",
         "source_commits": ["ada1cf4"]}
NOTE = ("Sampled evidence: tens of thousands of seeded simulated executions per second of the real code; every plain and atomic access, lock, "
        "allocation and sleep is a scheduling point the simulator controls. Assumes x86-TSO and the stand-ins listed in the evidence.")
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": hooks, "checks": [], "not_applicable": []}
for p in P:
    c = CHECKS.get(p["id"])
    if not c:
        man["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
        continue
    man["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                          "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                          "evidence_file": f"evidence/{p['id']}.json",
                          "technique": "deterministic simulation with fault injection: " + c["tech"],
                          "level": "exploration", "level_note": NOTE + (" " + c["note"] if "note" in c else "")})
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
import jsonschema
for ln in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(ln), json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
