#!/usr/bin/env python3
"""writes MANIFEST.json from the registry"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer"))
import registry
NA = {
    "P02": "a time bound over runtime quantities (input length, look-ahead depth, deque growth); no static cost argument in reach is sound and tight enough for it",
    "P03": "native stack depth of recursive parsing depends on runtime nesting and frame sizes chosen by the code generator; recursion is deliberately unbounded, so a static rule could only reject every recursive grammar",
}
TECH = {
    "mir": "abstract interpretation (relational dataflow fixpoint) of rustc MIR against a reference body in lock step",
    "alone": "abstract interpretation (relational dataflow fixpoint) of rustc MIR",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in registry.PROPS:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": registry.TECHNIQUE.get(p, TECH["mir"]), "level": "other",
                       "level_note": registry.LEVEL_NOTE.get(p, "For all inputs, literals, element counts and component outcomes: a fixpoint of the "
                       "abstract semantics with no undecided obligation. Sound up to the listed assumptions (evidence: assumptions), the MIR "
                       "parser/interpreter in /verif/analyzer and its models of std.")})
na = [{"property": p, "reason": NA.get(p, "no check yet: the analysis for this part is not finished")} for p in props if p not in registry.PROPS]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read the MIR of /repo as it is. Every obligation and its verdict is in evidence/<id>.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
