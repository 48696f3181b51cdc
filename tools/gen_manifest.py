#!/usr/bin/env python3
"""Writes MANIFEST.json from run/props.py (claimed checks) and properties.jsonl (everything else is not_applicable)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "run"))
import props
NA = {
 "P22": "The chain update is interleaved with C++ stream output and a global generator inside one long loop (cdream's dream); the stream internals cannot be encoded within reach. Its random generator is decided in P23.",
 "P30": "Option-driven set-up reads FITS images through CFITSIO and ends the process on errors; the library cannot be encoded, and a stand-in for it that would leave the dimension checks alone was not built in the time available.",
 "P31": "The engine executes OpenMP regions with one thread; no encoding of thread schedules was built, so nothing is claimed about them.",
 "P33": "FITS input/output is done inside CFITSIO, a system library without source or IR here; the repository code is a thin sequence of library calls, so no symbolic encoding of the round trip is possible.",
 "P34": "Convergence of an iterative floating-point minimiser to a local optimum for any model is not a bounded assertion: no unrolling bound settles it and the nonlinear real arithmetic of a run is out of solver reach.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        note = "Every path of the named entry points within the bounds in the evidence file is executed symbolically from LLVM IR compiled from /repo on this run; each assertion and each memory access is decided by Z3 for all inputs of the path. " + p.get("note", "")
        checks.append(dict(property=i, quick_cmd="python3 run/check.py " + i, thorough_cmd="python3 run/check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the compiled real code with SMT (Z3) deciding every branch and assertion", level="model_checking", level_note=note.strip()))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na, notes="See DESIGN.md. Checks need no instrumentation hooks in /repo."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
