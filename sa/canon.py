"""Names are not behaviour: functions, types, fields and parameters that were merely renamed or moved are given back the names
the rules know (sa/names.json, made from the tree the rules were written for by tools/mknames.py)."""
import json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = os.path.join(HERE, "names.json")


def callees(b):
    out = set()
    for k in b["blocks"]:
        t = k["t"]
        if t["t"] == "call" and "k" in t["f"]:
            f = t["f"]["k"].get("fn")
            if f:
                out.add(f.get("r") or f["p"])
    return out


def survey(crates):
    """-> {"fns": {path: [kind, types, names, callees]}, "adts": {path: [[variant, [[field, type], ...]], ...]}}"""
    fns, adts = {}, {}
    for c, d in crates.items():
        ty = d["types"]
        kids = {}
        for b in d["bodies"]:
            if "::{closure#" in b["path"]:
                kids.setdefault(b["path"].split("::{closure#", 1)[0], []).append(b)
        for b in d["bodies"]:
            if "::{closure#" in b["path"] or "::{" in b["path"]:
                continue
            cs = callees(b)
            for k in kids.get(b["path"], ()):
                cs |= callees(k)
            fns[b["path"]] = [c, [ty[b["locals"][i][0]]["s"] for i in range(b["argc"] + 1)], [b["locals"][i][1] for i in range(1, b["argc"] + 1)], sorted(cs)]
        for p, a in d["adts"].items():
            if a is not None and a.get("local") and not p.startswith("<"):
                adts[p] = [[v["name"], [[f["name"], f["ty"]] for f in v["fields"]]] for v in a["variants"]]
    return {"fns": fns, "adts": adts}


def sub(texts, new, old):
    for new, old in ((new, old), (new.split("::", 1)[-1], old.split("::", 1)[-1])):
        r = re.compile(r"(?<![\w:])" + re.escape(new) + r"(?!\w)")
        texts = {c: r.sub(lambda m: old, t) for c, t in texts.items()}
    return texts


def last(p):
    return p.rsplit("::", 1)[-1]


def same(x, y):
    """Likeness of two sets of callees."""
    x, y = set(x), set(y)
    return len(x & y) / max(1, len(x | y))


def canon(texts):
    """texts: {crate: JSON text} -> ({crate: facts}, what was given back its name)"""
    if not os.path.exists(NAMES):
        return {c: json.loads(t) for c, t in texts.items()}, []
    base = json.load(open(NAMES))
    crates = {c: json.loads(t) for c, t in texts.items()}
    notes = []
    now = survey(crates)

    def shape(p, a):
        # a type may mention itself
        return [[v if len(a) > 1 else "", [[f, t.replace(last(p), "Self")] for f, t in fs]] for v, fs in a]

    def types(p, a):
        return [[v, [t for _, t in fs]] for v, fs in shape(p, a)]
    moved = []
    gone = [p for p in base["adts"] if p not in now["adts"]]
    fresh = [p for p in now["adts"] if p not in base["adts"]]
    for p in gone:
        c = [n for n in fresh if shape(n, now["adts"][n]) == shape(p, base["adts"][p])]
        c = c or [n for n in fresh if types(n, now["adts"][n]) == types(p, base["adts"][p])]
        c = [n for n in c if last(n) == last(p)] or c
        if len(c) == 1:
            moved.append((c[0], p))
            fresh.remove(c[0])
    for n, p in moved:
        texts = sub(texts, n, p)
        notes.append("type %s is %s" % (n, p))
    if moved:
        crates = {c: json.loads(t) for c, t in texts.items()}
        now = survey(crates)
    moved = []
    gone = [p for p in base["fns"] if p not in now["fns"]]
    fresh = [p for p in now["fns"] if p not in base["fns"]]
    for p in gone:
        b = base["fns"][p]
        c = [n for n in fresh if now["fns"][n][0] == b[0] and sorted(now["fns"][n][1][1:]) == sorted(b[1][1:]) and now["fns"][n][1][0] == b[1][0]]
        d = [n for n in c if last(n) == last(p)] or [n for n in c if same(now["fns"][n][3], b[3]) >= 0.5]
        d.sort(key=lambda n: -same(now["fns"][n][3], b[3]))
        if d and (len(d) == 1 or same(now["fns"][d[0]][3], b[3]) > same(now["fns"][d[1]][3], b[3])):
            moved.append((d[0], p))
            fresh.remove(d[0])
    for n, p in moved:
        texts = sub(texts, n, p)
        notes.append("function %s is %s" % (n, p))
    if moved:
        crates = {c: json.loads(t) for c, t in texts.items()}
        now = survey(crates)
    # fields of the same types at the same places
    ren = {}
    for p, a in base["adts"].items():
        n = now["adts"].get(p)
        if n and n != a and [[v if len(a) > 1 else "", [t for _, t in fs]] for v, fs in n] == [[v if len(a) > 1 else "", [t for _, t in fs]] for v, fs in a]:
            m = {x[0]: y[0] for (_, f1), (_, f2) in zip(n, a) for x, y in zip(f1, f2) if x[0] != y[0]}
            # a mere change of order is not a renaming
            m = {x: y for x, y in m.items() if x not in [f for _, fs in a for f, _ in fs]}
            if m:
                ren[p] = m
                notes.append("fields %s of %s" % (", ".join("%s (%s)" % (x, y) for x, y in sorted(m.items())), p))
    if ren:
        for d in crates.values():
            for p, m in ren.items():
                a = d["adts"].get(p)
                if a:
                    for v in a["variants"]:
                        for f in v["fields"]:
                            f["name"] = m.get(f["name"], f["name"])
            fields(d["bodies"], ren)
    for d in crates.values():
        for b in d["bodies"]:
            o = base["fns"].get(b["path"])
            if o and len(o[2]) == b["argc"]:
                here = [d["types"][b["locals"][i][0]]["s"] for i in range(1, b["argc"] + 1)]
                if here == o[1][1:]:
                    cur = [b["locals"][i][1] for i in range(1, b["argc"] + 1)]
                    if sorted(map(str, cur)) == sorted(map(str, o[2])):
                        continue      # at most reordered
                    for i, n in enumerate(o[2]):
                        if n and b["locals"][i + 1][1] != n:
                            b["locals"][i + 1][1] = n
                elif sorted(here) == sorted(o[1][1:]):
                    pass
    return crates, notes


def fields(x, ren):
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "." and isinstance(x[1], str) and isinstance(x[2], str):
            m = ren.get(x[2])
            if m:
                x[1] = m.get(x[1], x[1])
            return
        if len(x) > 4 and x[0] == "agg" and x[2] in ren:
            x[4] = [ren[x[2]].get(n, n) for n in x[4]]
        for y in x:
            if isinstance(y, (list, dict)):
                fields(y, ren)
    else:
        for y in x.values():
            if isinstance(y, (list, dict)):
                fields(y, ren)
