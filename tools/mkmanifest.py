#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after an edit; output is committed)."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
SHIM = "monitored execution on a checking MPI stand-in + reference model, ASan/UBSan"
N = {
 "C01": (SHIM, "Every owned element compared with a reference model after each of ~10^5 random switches per run; sampled, not exhaustive."),
 "C02": (SHIM, "Reference model of reductions with exactly representable values; both reduction strategies, sync/async, random schedules; sampled."),
 "C03": (SHIM, "Neutral elements compared for all types/operations, message counters of the MPI stand-in must stay 0; sampled."),
 "C04": (SHIM, "Exact deadlock detection, size/type/order matching, buffer checksums while requests are active, nothing in flight at quiescence; random eager/rendezvous and delay schedules."),
 "C05": (SHIM, "Precomputed transitions/action sequences (with and without reservations) executed repeatedly, interleaved with direct switches, against the same reference model."),
}
U = "monitored execution of the real library against an independent model, ASan/UBSan"
N.update({
 "C07": (U, "Owners of every index counted for ~10^5 random partitioner runs."),
 "C08": (U, "Shapes, borders and balance recomputed independently for ~10^5 random partitioner runs."),
 "C09": (U, "All list queries compared with the index-by-index ownership of ~10^5 random lists."),
 "C10": (U, "Range algebra compared with set semantics on ~10^6 random pairs incl. 64-bit extremes."),
 "C11": (U, "All process ids of random groups; filtered, own and complete views compared, transitions too."),
 "C12": (U, "Canonical form of random insertion orders recomputed from the inserted ranges."),
 "C13": (U, "Every byte compared after pack/unpack/copy with random splits, element sizes and embedded areas."),
 "C14": (U, "Every element reached through all access paths after random switch sequences."),
 "C15": (U, "Logging allocators as online monitor: liveness, containment, overlap and balance after each step."),
 "C17": (U, "Ownership before/after migration compared for random lists and groups; switching under migrated partitionings is covered by C01."),
 "C16": (U + "; monitored multi-process runs on the MPI stand-in", "Random group trees against a model, collective work inside every group; sampled."),
 "C18": (SHIM, "Full content of the stores compared on all ranks after ~4000 random synchronisations per run."),
 "C19": (SHIM, "Map semantics, enumeration, order and callbacks compared with a model after each round of random operations."),
 "C20": (SHIM, "Published spaces and locations compared on all ranks after each synchronisation, incl. 64-bit bounds."),
 "C25": (SHIM + "; logging allocators", "Statistics of every container compared with the traffic counted at the MPI interface after each of ~3*10^5 switches, and with the allocators' view."),
 "C26": ("log monitor: messages as requested vs. text written; differential runs with/without logging on the MPI stand-in, ASan/UBSan", "~2*10^5 messages compared line by line; communication traces and results with and without logging compared for random worlds; sampled."),
 "C28": (U + " with a virtual clock", "Every measured time and profile file recomputed for ~3*10^4 random call sequences; random agent histories against a model."),
 "C06": ("differential execution of real processes on all backends against one reference model, ASan/UBSan", "The same ~130 random programs per run on the single, MPI, elastic TCP and multi-threaded TCP backend with random settings; sampled."),
 "C21": ("real processes of the elastic TCP backend under ASan/UBSan with random joins and removals; online checks in each process, offline cross-check of all processes' records", "~200 random histories per quick run (~700 world changes at random times); sampled, schedules not enumerated."),
 "C22": ("real processes of the elastic TCP backend under ASan/UBSan while random clients attack their control ports; every result of the computation and every answer checked", "150 jobs per quick run with ~10,000 clients and ~30,000 lines of text or bytes; sampled."),
 "C23": ("real processes of the message passing transport under ASan/UBSan and TSan with faults injected into its system calls; online checks of every message", "140 jobs of 1-8 processes per quick run (~24,000 messages, ~800,000 elements of reductions, ~4,000 stalls); half under the race detector; sampled schedules."),
 "C29": ("random API lifecycles under ASan/UBSan with a monitor attributing every block of memory kept to repetition and place of allocation", "~6,000 programs of up to 50 operations, each repeated 4 times, per quick run, plus 1.1 million objects of each kind; sampled."),
 "C24": ("real processes of all example programs on all backends, output compared with an independent serial reference, ASan/UBSan", "~230 random runs (program, options, sizes, 1..13 processes, backend, settings) per quick run; sampled."),
 "C27": (U, "Arithmetic of all types/operations recomputed, with guard bytes and aliasing."),
})
exec(open(os.path.join(here, "notes.py")).read()) if os.path.exists(os.path.join(here, "notes.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
na = []
for p in props:
    if p in N:
        t, note = N[p]
        checks.append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough", "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "hooks": {"guard": "LAIK_VERIF_PACKBUFSIZE", "enable": "checks compile /repo/src with -DLAIK_VERIF_PACKBUFSIZE=32000 so that transfers of modest size are split into several messages; everything else is observed through the public API and stand-ins for MPI, sockets and allocators", "source_commits": ["734cfba"]}, "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
