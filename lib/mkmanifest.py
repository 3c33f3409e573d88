#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification (TLC) bound to the code by trace validation: "
CHECKS = {
    "C01": ("Annoy.tla; TLC's call histories and random ones replayed, every observation checked by AnnoyTrace.tla",
            "All call sequences of the small model reach the code; larger sizes, id gaps and memory growth by seeded histories. Trusts the harness' projection of what the API shows."),
    "C06": ("Annoy.tla / AnnoyTrace.tla", "As C01; answers are compared bit for bit before and after saving and loading."),
    "C08": ("Annoy.tla / AnnoyTrace.tla", "As C01, for every call in every phase of one and two indexes."),
    "C15": ("Annoy.tla / AnnoyTrace.tla", "As C01, with the environment putting unusable files of seven kinds at the paths."),
    "C16": ("Annoy.tla / AnnoyTrace.tla", "As C01; mappings and descriptors are read from /proc after each call, with Go's finalizers kept from hiding leaks."),
    "C19": ("Metric.tla model-checked with five broken distances; its pairs of vectors put to real indexes and every reported distance judged by MetricTrace.tla",
            "Exact integer arithmetic for small integer vectors; for other vectors the parts of the laws are computed in the harness in float64 and judged by the specification."),
    "C20": ("Rng.tla model-checked with six broken generators; its call sequences and random ones made on the generators, judged by RngTrace.tla",
            "All call sequences of the small model reach each generator; the streams themselves are learned, so no generator algorithm is prescribed."),
    "C21": ("Annoy.tla / AnnoyTrace.tla; Together.tla model-checked with five broken designs, its interleavings run on indexes with common parts and judged by TogetherTrace.tla",
            "As C01, with two and three indexes that share nothing, a loader, all parts, or a builder; and programs of two to four indexes in turns and at the same time (also under the race detector), compared with each alone."),
    "C02": ("Forest.tla model-checked; layouts decoded from the memory of real builds checked by ForestTrace.tla",
            "Every node of every tree of thousands of builds; index sizes up to a few thousand items. Trusts the harness' decoder of nodes."),
    "C03": ("Search.tla model-checked; real searches with sufficient budgets checked by SearchTrace.tla",
            "Exactness is judged by the order that the specification derives from distances computed in the harness with math/big-free float64 arithmetic."),
    "C04": ("Search.tla / SearchTrace.tla", "As C03, for k and budgets of all magnitudes."),
    "C05": ("Search.tla / SearchTrace.tla", "As C03; which nodes a real search visits is recorded through an injected distance."),
    "C07": ("SaveFS.tla and SaveRace.tla model-checked with six broken designs; system calls of real saves, kills and failures at each of them checked by SaveFSTrace.tla, saves at the same time by TogetherTrace.tla",
            "Process death and failing calls, not power loss. Uses strace to record, kill and inject."),
    "C09": ("BuildProto.tla model-checked with seven broken protocols; its schedules and random ones are imposed on the real workers, and each worker's steps checked by BuildTrace.tla",
            "Workers are interleaved at lock calls (and node look-ups); memory without the node lock is inaccessible while they run. Below that granularity the race detector on free-running builds."),
    "C10": ("Forest.tla / ForestTrace.tla", "Worker shares observed through an injected policy, tree counts in decoded builds."),
    "C11": ("Forest.tla / ForestTrace.tla", "Pairs of builds with equal and different seeds compared byte for byte."),
    "C12": ("Search.tla / SearchTrace.tla", "Concurrent searches judged like sequential ones, and under the race detector."),
    "C13": ("PSort.tla model-checked with three broken designs; its inputs and larger ones sorted by the code, judged by OrderTrace.tla",
            "Every slice and range of the small model reaches the code; beyond sixty elements the parts of the contract are computed in the harness and judged by the specification."),
    "C14": ("PQueue.tla model-checked with four broken designs; its histories and random ones run on the queue, judged by OrderTrace.tla",
            "Every call history of the small model reaches the code."),
    "C17": ("Layout.tla model-checked with seven broken layouts; places of nodes, guarded builds and indexes of up to 160 GB (sparse) judged by LayoutTrace.tla in exact 64-bit arithmetic",
            "Node addresses are those of all four type combinations and both distances, vector lengths to 60000; indexes beyond 4 GB hold a few items in reserved memory."),
    "C18": ("Annoy.tla, Forest.tla, Search.tla and their trace specifications, on dot product indexes", "As C02-C05 and C01."),
    "C22": ("Locks.tla model-checked with three broken designs; its call sequences and random ones made on the policies, judged by LocksTrace.tla",
            "Calls are made one at a time, with timeouts of seconds before a missing answer counts; free-running callers under the race detector as well."),
    "C24": ("BuildMem.tla and FileMem.tla model-checked with ten broken designs; their call sequences and random ones made on the build allocator and the loaders, judged by MemTrace.tla",
            "All call sequences of the small models reach the code; callers at the same time also under the race detector."),
    "C25": ("Builder.tla model-checked with seven broken designs; its call sequences and random ones made on builders, the indexes judged by BuilderTrace.tla",
            "Policy and generator are recognised by the trees they grow, loaders by mappings, sorters by calls, verbosity by output."),
    "C26": ("Tool.tla model-checked with five broken designs; runs of the real tool judged by ToolTrace.tla",
            "The index the tool keeps is loaded and searched again; runs without -keep are judged on their files, their sums being random."),
    "C27": ("Divide.tla model-checked with five broken designs; the splits of real trees judged by DivideTrace.tla",
            "Chance is judged within six standard deviations, groups that lie apart by 25 of 30 trees."),
    "C28": ("Blocks.tla model-checked with seven broken designs; calls on real nodes followed byte by byte, and calls of the helpers, judged by BlocksTrace.tla",
            "Numbers are chosen so that nothing is rounded; rounding is C19's matter."),
    "C23": ("Forest.tla / ForestTrace.tla; files written by hand in the layout of the specification are loaded and searched", "The byte layout is written down independently in the harness."),
}
NOT_YET = "the check is not built yet"


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
    for p in props:
        if p in CHECKS:
            tech, note = CHECKS[p][:2]
            m["checks"].append({
                "property": p,
                "quick_cmd": "python3 check.py --prop %s --tier quick" % p,
                "thorough_cmd": "python3 check.py --prop %s --tier thorough" % p,
                "technique": TECH + tech,
                "level": "model_checking",
                "level_note": note,
            })
        else:
            m["not_applicable"].append({"property": p, "reason": NOT_YET})
    m["notes"] = "Properties that are known to fail or were repaired: known-findings.txt. Design: DESIGN.md."
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
