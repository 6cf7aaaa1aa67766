"""Pretty-prints the facts of a function (for diagnosis)."""
import sys
import facts


def place(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == ".":
            s += ".%s" % e[1]
        elif e[0] == "as":
            s = "(%s as %s)" % (s, e[1])
        else:
            s += str(e)
    return s


def op(o):
    if "c" in o:
        return place(o["c"])
    if "m" in o:
        return "move " + place(o["m"])
    k = o["k"]
    if "fn" in k:
        f = k["fn"]
        return "fn:" + (f.get("r") or f["p"])
    for n in ("str", "bytes", "int", "def", "static"):
        if n in k:
            return "%s:%r" % (n, k[n])
    return "const " + str(k.get("s"))


def rv(r):
    if r[0] == "use":
        return op(r[1])
    if r[0] == "ref":
        return "&" + ("mut " if r[2] else "") + place(r[1])
    if r[0] == "cast":
        return "%s as %s" % (op(r[2]), r[1])
    if r[0] == "bin":
        return "%s(%s, %s)" % (r[1], op(r[2]), op(r[3]))
    if r[0] == "discr":
        return "discr(%s)" % place(r[1])
    if r[0] == "agg":
        return "%s %s::%s{%s}" % (r[1], r[2], r[3], ", ".join("%s: %s" % (n, op(o)) for n, o in zip(r[4] or range(99), r[5])))
    return str(r)


def fn(f, types=False):
    print("fn", f.path, "argc", f.argc, f.kind, f.sp)
    for i, (t, n) in enumerate(f.locals):
        if n or i <= f.argc or types:
            print("   _%d: %s  %s" % (i, f.prog.tystr((f.crate, t)), n or ""))
    for n, p in f.up:
        print("   up", n, p)
    for i, b in enumerate(f.blocks):
        print(" bb%d%s:" % (i, " (cleanup)" if b["cl"] else ""))
        for s in b["s"]:
            if s[0] == "=":
                print("    %s = %s" % (place(s[1]), rv(s[2])))
            elif s[0] not in ("dead", "live"):
                print("    ", s)
        t = b["t"]
        k = t["t"]
        if k == "call":
            print("    %s = %s(%s) -> %s unwind %s   @%s" % (place(t["d"]), op(t["f"]), ", ".join(op(a) for a in t["a"]), t.get("to"), t.get("u"), t.get("sp")))
        elif k == "switch":
            print("    switch %s %s else %s" % (op(t["d"]), t["v"], t["o"]))
        else:
            print("    ", {x: y for x, y in t.items() if x not in ("sp",)})


if __name__ == "__main__":
    p = facts.load()
    for f in p.fns.values():
        if any(f.path == a or (a.endswith("*") and a[:-1] in f.path) for a in sys.argv[1:]):
            fn(f)
