#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "stateful property-based testing (proptest, shrinking) against a reference model"
T = {
    "C01": ("property-based testing plus exhaustive enumeration of every scalar of up to 32 bits", "Both directions of the bijection checked on every value of every scalar of up to 32 bits and on sampled and boundary positions of 64-bit ones, against independently computed values, in a checked and a release build."),
    "C02": ("property-based testing over randomly generated composite types", "Random types nested from every provided composition are generated as programs together with an independent oracle of their values; positions sampled, small types enumerated; both builds. Sampling of types."),
    "C03": ("property-based testing over scalars, generated composite types and generated declarations", "Out-of-range numbers biased to boundaries and wrap-around candidates; both builds. Sampling."),
    "C04": ("property-based differential testing of ordinal order against Ord", "Pairs of values of scalars, generated composite types and generated derived types; the oracle is Ord of the built value and an independent position order; both builds. Sampling."),
    "C05": ("generated declarations compiled and executed against an independent oracle (grammar-based fuzzing with shrinking)", "Random struct and enum declarations with hostile names, generics and attributes; a twin without derive(Ordinal) separates generator errors from rejections by the derive; both builds. Sampling of declarations."),
    "C06": ("generated oversized types compiled and executed", "Random types with more than usize::MAX values and types at the edge; each request must be rejected by the compiler, panic, or give the exact position; both builds. Sampling."),
    "C26": ("generated container uses compiled and executed", "Every constructor with generated key types and right and wrong size parameters; wrong ones must be rejected by the compiler, right ones must compile and work. Sampling of types and sizes."),
    "C07": (PBT, "Random operation sequences on the all-values iterator of ten key types compared step by step with a deque of remaining ordinals, in a checked and a release build. Sampling, not proof; trusts the harness's key types and std's deque."),
    "C08": (PBT, "Random histories on heap and array maps over 21 type combinations compared with BTreeMap after every step, in a checked and a release build. Sampling; histories up to 60 operations."),
    "C09": (PBT, "Random histories with entry operations compared with BTreeMap; both builds. Sampling."),
    "C10": (PBT, "Seven iterator kinds of both sparse maps driven by random operation sequences, compared with a deque; both builds. Sampling."),
    "C11": (PBT, "drain, clear and retain on random contents with random driving, then reuse of the map, compared with a model; both builds. Sampling."),
    "C12": (PBT, "Random store histories on both total maps compared with a vector; both builds. Sampling."),
    "C13": ("property-based testing with injected initialiser failures", "Failure injected at a random call of try_new over 18 type combinations; calls, error and map compared with a model; both builds. Sampling."),
    "C14": ("property-based testing of random transformation chains against a vector model", "Chains of up to 20 transformations on eight key types; both builds. Sampling."),
    "C15": (PBT, "Every iterator kind of both total maps driven by random operation sequences with exact lengths; both builds. Sampling."),
    "C16": (PBT, "Random histories on the three set types over 38 element types compared with BTreeSet; both builds. Sampling."),
    "C17": (PBT, "Set iterators driven by random operation sequences compared with a deque; both builds. Sampling."),
    "C18": ("property-based testing: full set and equality for every element count 0..=64", "Every size 0..=64 enumerated; pairs of contents and construction orders sampled; both builds."),
    "C19": ("property-based testing with injected panics and failures over values with identity", "Histories on all four map types and transformation chains with a panic or failure at a random callback (initialiser, mapping function, predicate, clone, drop, key conversion); every value's creation and drops are recorded; both builds. Sampling."),
    "C20": (PBT, "Single-threaded histories on cells of 14 types with every valid ordering, compared with a plain variable; both builds. Sampling."),
    "C21": ("randomly generated concurrent programs, on real threads and under Miri's randomised scheduler and weak-memory emulation, judged by a linearizability check", "Programs of 2 to 4 threads and up to 20 operations on up to 3 cells; outcomes must be explained by an interleaving per cell (over all cells when sequentially consistent) and memory published must be seen. Sampling of programs and schedules."),
    "C23": ("property-based testing under a counting allocator", "Every allocation made by operations of random histories is attributed to the operation that made it; both builds. Sampling."),
    "C24": ("property-based testing with counting keys and per-operation time on containers over up to 2^24 keys", "Key conversions per operation counted; thread CPU time of single operations on huge containers bounded far above constant and far below linear cost; both builds. Sampling."),
    "C27": ("generated histories with hostile keys and callbacks, executed under Miri and AddressSanitizer", "65 subjects; natively under AddressSanitizer in volume, and in Miri under both aliasing models in small numbers. Sampling; histories of up to 40 operations."),
    "C28": ("generated programs: every operation as a generic function with minimal bounds, called with random key and value types, compiled and executed", "337 operations and 106 signatures accepted for all types; each operation called with a dozen random key and value types of few capabilities, nested, results compared with what was put in; both builds. The table of operations is written by hand; sampling of types."),
    "C29": ("property-based testing and generated programs on a 32-bit target (i686, standard library built from source, executed natively)", "The checks of conversions, composite and derived types, maps, sets, iterators, atomics and size parameters again, in smaller numbers, built for and executed on a target with 32-bit usize, with and without overflow checks; 32-bit scalars swept exhaustively. Sampling otherwise; one target stands for all 32-bit ones."),
    "C30": ("property-based testing and generated programs against the crate built without its optional feature", "The checks of conversions, the derive (generated declarations), listings, all containers, cells, drops, allocation, work per operation, size refusals and generic use, in smaller numbers, in builds without the either feature. Sampling; quick takes a few minutes."),
    "C31": ("property-based testing with counting keys, CPU time per pass and threads with small stacks", "One to six passes per case over containers of 300 to 2^20 keys with random contents; every iterator driven in 16 ways, plus clone, drain, clear, retain, collect, format, transform, bulk lookups; at most 24 conversions and 500 ns of CPU time per key; heap containers on 160 KiB of stack; both builds. Sampling."),
    "C32": ("property-based testing with injected panics against a model of what may be left", "Histories of up to 40 operations on sparse maps, total maps, sets and cells with a panic at a random point of user code; contents compared with what the operation may leave; both builds. Sampling."),
    "C33": ("property-based testing under an allocator that counts bytes", "Random histories on up to three containers of some 80 types; sizes of the containers and bytes held after and during every operation; both builds. Sampling."),
    "C22": (PBT, "Histories over up to three clones of every container and clones of every cloneable iterator; both builds. Sampling."),
    "C25": ("property-based testing: differential Debug text against std collections", "Plain and pretty text of containers and partly consumed iterators over random histories; both builds. Sampling."),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in T:
            checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                           "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
        else:
            na.append({"property": i, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "./check.py setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Genuine defects found are repaired by fix: commits; see known_findings.txt and DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
