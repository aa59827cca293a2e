"""Which simulations decide which property, and what they are built from."""
_U = ["include/indexes/utils/EpochManager.h", "include/indexes/utils/Utils.h"]
COMPONENTS = {
    "btree": {"sut": [("ad_btree.cpp", range(11))], "harness": ["ad_btree_main.cpp", "mapdrv.cpp"],
              "real": ["include/indexes/btree/concurrent_map.h", "include/indexes/btree/common.h", "include/indexes/btree/key.h"] + _U},
    "hash": {"sut": [("ad_hash.cpp", range(8))], "harness": ["ad_hash_main.cpp", "mapdrv.cpp"],
             "real": ["include/indexes/hashtable/concurrent_map.h"] + _U},
    "art": {"sut": [("ad_art.cpp", range(5))], "harness": ["ad_art_main.cpp", "mapdrv.cpp"],
            "real": ["include/indexes/art/concurrent_map.h", "include/indexes/art/common.h"] + _U},
    "epoch": {"sut": [("ad_epoch.cpp", range(3))], "harness": ["epochdrv.cpp"], "real": _U},
    "btmap": {"sut": [("ad_btmap.cpp", range(9))], "harness": ["ad_btmap_main.cpp", "mapdrv.cpp"],
              "real": ["include/indexes/btree/map.h", "include/indexes/btree/common.h", "include/indexes/btree/key.h", "include/indexes/utils/Utils.h"]},
    "artmap": {"sut": [("ad_artmap.cpp", range(4))], "harness": ["ad_artmap_main.cpp", "mapdrv.cpp"],
               "real": ["include/indexes/art/map.h", "include/indexes/art/common.h", "include/indexes/utils/Utils.h"]},
}
COMPONENTS["ycsb"] = {
    "sut": [("ad_ycsb.cpp", [0]), ("@repo/src/benchmark/ycsb/core/core_workload.cpp", [0]), ("@repo/src/benchmark/ycsb/db/db_factory.cpp", [0])],
    "harness": ["ycsbdrv.cpp"],
    "flags": ["-include", "stdinc.h", "-include", "ycsb_rng.h", "-I@repo/src/benchmark", "-I@repo/src/benchmark/ycsb"],
    "real": ["src/benchmark/utils/*_generator.h", "src/benchmark/utils/utils.h", "src/benchmark/ycsb/core/core_workload.{h,cpp}", "src/benchmark/ycsb/core/client.h",
             "src/benchmark/ycsb/db/*", "include/indexes/btree/map.h", "include/indexes/btree/concurrent_map.h"] + _U}
_LIN = "seeded schedules, histories checked for linearizability per key"
_MEM = "seeded schedules on a simulated heap that checks every access"
_SEQ = "seeded operation sequences with injected allocation failures against an executable map model, on a simulated heap that checks every access"
_BTV = ["values stored in the concurrent B-tree are trivially copyable; its keys may own memory"]
_MAPS = ("btree", "hash", "art")
# property -> simulations (component, profile, share of the time)
CHECKS = {
    "C01": {"runs": [("btree", "point", 1)], "tech": _LIN, "assume": _BTV},
    "C02": {"runs": [("btree", "scan", 1)], "tech": "seeded schedules, iteration results checked against the recorded history", "assume": _BTV},
    "C03": {"runs": [("btree", "memory", 1)], "tech": _MEM, "assume": _BTV},
    "C04": {"runs": [("hash", "point", 1)], "tech": _LIN},
    "C05": {"runs": [("hash", "memory", 1)], "tech": _MEM},
    "C06": {"runs": [("art", "point", 1)], "tech": _LIN},
    "C07": {"runs": [("art", "memory", 1)], "tech": _MEM},
    "C08": {"runs": [("epoch", "main", 1)], "tech": "seeded schedules with delayed stores and thread churn, guarded reads checked on a simulated heap"},
    "C09": {"runs": [("epoch", "lifecycle", 1), ("epoch", "main", 1)], "tech": "seeded schedules with thread churn, destructions counted per retired object"},
    "C10": {"runs": [(c, p, 1) for c in _MAPS for p in ("book", "lifecycle")], "tech": "seeded schedules, counters and contents compared at rest", "secs": 75},
    "C11": {"runs": [(c, "progress", 1) for c in _MAPS], "tech": "seeded schedules with stalled and frozen threads, progress within a bounded number of fair steps", "secs": 75},
    "C12": {"runs": [(c, "alloc", 1) for c in _MAPS], "tech": "seeded schedules with injected allocation failures, histories checked for linearizability", "secs": 75},
    "C13": {"runs": [("btmap", "seq", 1)], "tech": _SEQ},
    "C14": {"runs": [("artmap", "seq", 1)], "tech": _SEQ},
    "C15": {"runs": [("ycsb", "gen", 1), ("ycsb", "work", 1)], "tech": "seeded schedules and random numbers chosen by the simulator, draws checked against a sequential model"},
    "C16": {"runs": [("ycsb", "db", 2), ("ycsb", "bench", 1)], "tech": "seeded schedules, histories of record operations checked for linearizability on a simulated heap that checks every access",
            "assume": ["memory allocation succeeds in the benchmark databases"]},
    "C17": {"runs": [(c, "space", 1) for c in ("btree", "hash", "art", "btmap", "artmap")], "secs": 60,
            "tech": "long seeded operation histories under seeded schedules, memory held at rest compared with a freshly built map"},
}
PROBES = {
    "C01": ["split", "merge", "trim", "reclaim"],
    "C02": ["split", "merge", "trim", "lower_bound", "upper_bound"],
    "C03": ["split", "merge", "trim", "reclaim"],
    "C04": ["migrat", "reserve", "Upsert", "reclaim"],
    "C05": ["migrat", "reserve", "reclaim"],
    "C06": ["expand", "shrink", "node256", "node48", "replace"],
    "C07": ["expand", "shrink", "node256", "node48", "reclaim"],
    "C08": ["retire"],
    "C09": ["retire"],
    "C10": ["split", "merge", "trim", "migrat", "expand", "shrink", "size"],
    "C11": ["split", "merge", "trim", "migrat", "expand", "shrink"],
    "C12": ["split", "merge", "trim", "migrat", "expand", "shrink"],
    "C13": ["split", "merge", "trim", "erase", "find", "lower_bound", "upper_bound"],
    "C14": ["expand", "shrink", "node256", "node48", "replace"],
    "C15": ["Next", "Last", "BuildValues", "DoTransaction"],
    "C17": ["split", "merge", "trim", "migrat", "expand", "shrink", "reclaim"],
    "C16": ["Read", "Scan", "Update", "Delete", "insert", "retire", "DoTransaction"],
}
STUBS = [
    "threads (sync_prim ThreadRegistry -> simulated threads)",
    "mutexes (sync_prim Mutex -> simulator)",
    "heap (operator new/delete, malloc -> simulated heap with failure injection)",
    "clock, sleep and yield (-> simulated clock)",
    "GSL span/not_null and folly builtins (minimal stand-ins, dependencies are not installed)",
]
ASSUME = [
    "x86-TSO memory model: sequentially consistent interleavings plus store buffering; weaker architectures are not simulated",
    "reclaim_all(), moves and destruction only while no other thread uses the map",
    "a clean batch is evidence from sampled schedules, not proof",
]
