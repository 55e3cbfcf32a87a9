#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: which properties are claimed, and why the others are not."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/analyzer")
import props
SIM = "path-sensitive value-numbering dataflow over MIR, loops by inferred simulation relations"
TMPL = "symbolic token templates of the generated code, derived from MIR with loops in closed form"
NOTE = "decided from rustc's MIR of the current tree for all inputs; the meaning of std and external crates is a trusted model"
TECH = {   # id -> (technique, note)
 "C28": (TMPL + "; flow of hash-map iteration order to the output; call-graph effects", NOTE),
 "C29": (TMPL + "; loop-invariant analysis of the token table", NOTE),
 "C30": (TMPL + ", and the key of the sort it goes through", NOTE),
 "C42": (TMPL + ", per kind of rule", NOTE),
 "C25": ("comparison of the MIR of the debug and release builds; inferred simulation relation where they differ", NOTE),
 "C39": ("effect analysis over the call graph of rustc's MIR: callee paths, statics, thread-locals and unsafe operations", NOTE),
 "C40": ("dataflow of every result value in rustc's MIR to a caller, a panic or a failing branch", NOTE),
 "C41": ("loop and recursion progress over rustc's MIR: natural loops, lexicographic ranking over the path graph, structural descent", NOTE),
}
NA = {
 "C50": "needs an inductive semantic proof over all lawful Lang implementations and value spaces of Maranget's algorithm; no static dataflow or type argument in reach bounds it (the structural halves are C10-C13)",
 "C51": "depends on line-index's internal UTF-16 tables for every text; the conversion's arithmetic is in an external crate and no static rule over this repository decides it (the delegation is C18 and C19)",
 "C52": "an asymptotic cost over runtime sizes of shared maps; no sound static cost argument for Rc unwrapping and rehashing is in reach",
 "C53": "a round trip over all well-formed strings through two stateful loops needs an inductive string argument outside dataflow; each direction's exact behaviour is C31",
}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not props.have(i):
        na.append({"property": i, "reason": "not yet claimed: check under construction"})
        continue
    t, n = TECH.get(i, (SIM, NOTE))
    checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                   "technique": t, "level": "proof", "level_note": n})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
