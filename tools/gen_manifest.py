#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed if it has a specification or a rule."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C33": "global Delaunayhood after every insertion history is a geometric theorem about runtime coordinates; no static argument in reach bounds it. Its local ingredients (predicates, link updates) are C32 and C30",
 "C34": "convergence to the physical solution is a statement about accumulated numerical error over resolution on concrete runs; no sound static bound is in reach. The conservation identities it rests on are C19, C21 and C22",
 "C35": "absence of cyclic dependencies depends on runtime mesh geometry and partition; the bookkeeping whose correctness termination needs is C18, C23 and C08",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
rules = set(re.findall(r'"(C\d\d)"\s*=>', open(V + "/analyzer/src/rules/mod.rs").read()))
LEVEL_NOTE = ("every obligation is decided by comparing normalised value graphs built from /repo's source with the specification "
              "(or by the named dataflow, layout or ordering rule); no execution, no sampling; obligations outside the canonical "
              "fragment are listed as undecided in the evidence")
checks, na = [], []
TECH = "static analysis: gated-SSA value graph (global value numbering) of the source compared with a specification graph"
RULE_TECH = {}
tp = V + "/tools/rule_technique.json"
if os.path.exists(tp):
    RULE_TECH = json.load(open(tp))
for p in props:
    i = p["id"]
    spec = os.path.exists(f"{V}/spec/{i}.rs")
    if spec or i in rules:
        t = [TECH] if spec else ["static analysis"]
        if i in rules:
            t.append(RULE_TECH.get(i, "dedicated syntax-tree rule"))
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": "; ".join(t), "level": "other", "level_note": LEVEL_NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check built yet")})
m = {"version": 1,
     "setup_cmd": "cd analyzer && RUSTUP_TOOLCHAIN=stable cargo build --release --offline",
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
