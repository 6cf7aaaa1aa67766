"""Records the names the rules know (sa/names.json) from /repo's current tree."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa"))
import facts, canon
d = facts.extract()
crates = {c: json.load(open(os.path.join(d, c + ".json"))) for c in ("dump_syms", "bin")}
s = canon.survey(crates)
with open(canon.NAMES, "w") as f:
    f.write("{\n")
    for i, k in enumerate(("adts", "fns")):
        f.write(" %s: {\n" % json.dumps(k) + ",\n".join("  %s: %s" % (json.dumps(p), json.dumps(v)) for p, v in sorted(s[k].items())) + "\n }" + (",\n" if i == 0 else "\n"))
    f.write("}\n")
