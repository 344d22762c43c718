#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the harness files present in rt/h."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = set(os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(V, "rt/h/c*.rs")))
CONC = {"C05", "C07", "C08", "C09", "C11", "C12", "C15", "C18", "C19"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = "solver-based symbolic execution of the compiled library (LLVM IR of /repo/src -> SMT, z3)"
        n = ("Bounded: every path within the bounds written in the harness is executed symbolically over the IR of the unmodified "
             "library sources and every assertion is decided by z3 over all symbolic values; counterexamples are replayed natively. ")
        if i in CONC:
            t += "; thread interleavings as SMT variables over an event unfolding"
            n += ("Interleavings: all lock-operation interleavings of the listed scenarios, as ordering variables of an SMT problem "
                  "whose closure under further behaviour is itself shown unsatisfiable. ")
        n += "Trusted: the std stand-ins of rt/vstd.rs, rustc's IR, the IR interpreter of engine/ (validated on sampled paths against native runs), z3."
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i,
                           thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="harness not built yet"))
m = dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the library is compiled unmodified against a stand-in for std (rt/vstd.rs) passed as --extern std.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
