#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "interprocedural rank-uniformity dataflow: guards and trip counts of every collective are proved uniform",
 "C02": "communicator provenance analysis over the effect summary of every distributed routine",
 "C03": "typestate of communicators, MPI datatypes and files along every non-error path",
 "C06": "alias and mutation analysis of every parameter of the distributed and utility routines",
 "G01": "name, import, attribute, field and call-signature resolution over the syntax tree and effect summaries",
 "K01": "macro-expanded syntax of the Fortran wrapper checked against the rank/type table of its interfaces",
 "K02": "guard and error-check dominance over the control flow of every Fortran wrapper routine",
 "K03": "open/close typestate over the control flow of every Fortran wrapper routine",
}
DEFAULT = "symbolic value-and-effect summaries of the source, canonicalised and compared with the specified summary"
NOTE = ("Decided from the source on every run: {what}. Assumes the documented behaviour of numpy, mpi4py, h5py and MPI. "
        "A construct the analysis cannot decide is listed as undecided in the evidence and gives no alarm, so a pass covers only the discharged obligations.")
WHAT = {
 "C01": "every collective's guards and loop trip counts are derived from rank-uniform values",
 "C02": "every communication effect names the caller's communicator or one split from it",
 "C03": "every acquired resource is released exactly once on every non-error path and not used afterwards",
 "C06": "no write reaches storage aliased with a caller's array outside the documented results",
 "G01": "every name, import, library attribute, field and call signature resolves",
 "K01": "all generated variants have the type, rank and kind of their interface slot",
 "K02": "handle checks dominate uses and every open/create/extend/select/read/write status is examined",
 "K03": "every open has its close on each path and the dataset cache is keyed and invalidated consistently",
}
DW = "results, memory writes, raised errors and effects of the routines in scope, as functions of their inputs over all paths, equal the reviewed specification up to value-preserving rewriting"
NA = {
 "A01": "Sorting correctness is an induction over a numerical splitting loop and data-dependent permutations; no sound static argument in reach decides it. The static parts (who sends what, termination, stability, inputs) are claimed as C04, C05, C07, C08.",
 "A02": "Round-trip equality of written and read values runs through the HDF5 library and file contents; deciding it needs execution. The static parts (ranges moved, types chosen, buffers) are claimed as C05, B01-B03, K01, K03.",
 "A03": "Load balance quantifies over run-time sizes and data distributions that no static bound in reach covers.",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                       "technique": TECH.get(i, DEFAULT), "level": "other", "level_note": NOTE.format(what=WHAT.get(i, DW))})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q vsa checks", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
