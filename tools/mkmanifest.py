#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+/TLC specification; "
CHECKS = {
    "C01": (T + "transition system of KeyLife.tla walked on the real key (injected storage faults, crashes, reloads); concurrent histories under a controlled scheduler accepted by KeyConc.tla", "model_checking",
            "Exhaustive over the spec's bounded state graph; the implementation is driven through the reachable (state, action) pairs. Assumes a container that reports failed updates."),
    "C03": (T + "transition system of KeyLife.tla walked on the real key", "model_checking",
            "As C01, comparing every observable (next number, reservations, lost count)."),
    "C04": (T + "transition system of KeyLife.tla at the end of the key walked on the real key", "model_checking",
            "As C01, with bases such that the last numbers of the key are in the explored window."),
    "C20": (T + "transition system of KeyLife.tla with DangerousSetSeqNo walked on the real key", "model_checking",
            "As C01, with DangerousSetSeqNo as an action; forward moves only, no Sign in flight."),
    "C05": (T + "Lock.tla walked by real processes (aliases of the path, stale and broken lock files, kills, failed attempts); histories of concurrent processes and goroutines, scheduled system call by system call with injected failures and kills (seccomp), accepted by LockConc.tla; LockImpl.tla checks the protocol of the lock file", "model_checking",
            "Exhaustive over Lock.tla and LockImpl.tla within their bounds; the interleavings of the real processes are sampled. Pid reuse by another process and hard links to the key are not covered."),
    "C06": (T + "keys, signatures and sizes of Xmss.tla evaluated by TLC per instance and compared byte for byte with the code's", "translation_validation",
            "For every instance explored the byte layouts, address schedules, digits and sizes are TLC's evaluation of Xmss.tla; only the hash functions come from Go's standard library."),
    "C07": (T + "Xmss.tla decides for every signature derived from a genuine one (bit flips, swaps, crafted near-misses) whether it verifies; replayed against Verify", "translation_validation",
            "TLC-evaluated instances; the perturbations cover every field of the layout of the specification. Soundness of hashing is assumed."),
    "C08": (T + "SubTreeCache.tla (cache written store by store, crashes, foreign and damaged slots) yields the states a slot may be in, composed into caches of the real key; CacheLife.tla (the cache is no variable of what is observed) walked on the real key with its cache damaged in between; every byte of caches changed", "model_checking",
            "Exhaustive over the bounded specification; on the implementation every (state, action) pair of CacheLife and every slot state, in random caches of several instances. Collision resistance of the checksum's hash is assumed."),
    "C09": (T + "histories of the real code under a controlled scheduler (locks, condition variables and goroutines replaced) accepted by KeyConc.tla", "model_checking",
            "Random and priority-based schedules of random scenarios with faults; each history judged exactly by TLC. Schedules are sampled, not exhausted."),
    "C10": (T + "histories of the real code under a controlled scheduler accepted by KeyConc.tla; deadlocks, panics and wrong signatures detected on the way", "model_checking",
            "As C09. Interleavings at lock operations, goroutine starts, container calls and statements of the functions dealing with private keys."),
    "C19": (T + "histories of the real code under a controlled scheduler, with every container call taking time, accepted by KeyConc.tla", "model_checking",
            "As C09."),
    "C11": (T + "tables and theorems of Codec.tla (headers, sizes, names, registry) evaluated by TLC and compared with the code on the whole header space", "translation_validation",
            "Exhaustive over the headers with the right magic byte in the thorough tier, strided in quick."),
    "C12": (T + "acceptance predicate of Codec.tla against malformed inputs derived from it", "model_checking",
            "The header space and every length around those of the specification; contents are sampled."),
    "C13": (T + "name grammar and registry of Codec.tla, evaluated by TLC, against the code's names, OIDs and contexts", "translation_validation",
            "Every parameter set of the specification, every registered one, and the ill-formed names TLC derives."),
    "C14": (T + "digits and checksum of WOTS+ as of Xmss.tla: TLC proves the incomparability of digests on small instances, and evaluates the chain lengths the code has to use", "translation_validation",
            "Theorems for every digest of the small instances; conformance of the code's digits on sampled and boundary digests of all parameter sets."),
    "C15": (T + "transition system of Container.tla (every history of operations, closes, kills, lost and converted caches) walked on the real filesystem container", "model_checking",
            "Every (state, action) pair of the bounded specification is performed on the real container, plus random products of 40 subtrees; a kill is simulated by copying the directory."),
    "C16": (T + "message as a stream: the transition system of Stream.tla (chunking, EOF placement, errors) replayed through the readers given to SignFrom and VerifyFrom", "model_checking",
            "Exhaustive over the reader behaviours of the bounded specification."),
    "C17": (T + "the value of a function is one: keys, roots and signatures of Xmss.tla's structure computed with every combination of fast and plain hashing, thread count and call order", "translation_validation",
            "Compares the four-way, threaded and plain paths with one another on the same inputs, each anchored in the TLC-evaluated structure of Xmss.tla."),
    "C02": (T + "system calls of the real code on its files, recorded with strace (with injected failures and kills), followed by FsCrash.tla: TLC computes every directory a power loss may leave, the real code loads each, TLC judges", "model_checking",
            "Every crash point of every recorded history, with every subset of the unsynced changes. Histories and injected faults are sampled."),
    "C18": (T + "as C02, for histories which create and replace keys: FsCrash.tla computes the directories a crash may leave; the real code loads each; TLC judges", "model_checking",
            "As C02."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. No hooks in /repo: the harness drives the public API, containers and readers of its own, and strace."}
for p in props:
    if p in CHECKS:
        t, l, n = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "bin/check %s quick" % p,
                            "thorough_cmd": "bin/check %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
