"""One symbol per address, in address order, at its own address."""
from checklib import *
from checks import symmap, emit
from checks.symmap import SYM, strip, is_range, No

ASSUMPTIONS = ["BTreeMap has one value per key and is iterated in the order of the keys",
               "the addresses of the debug info are taken modulo 2^32",
               "address and size of the markers put after the last symbol of a PE file are decided on sample values"]


def base(t):
    """Through the casts and the conversions of integers."""
    while True:
        if t.k == "cast":
            t = t.a[1]
        elif t.k == "call" and short(t.a[0]) in ("u32::from", "From::from", "Into::into", "u64::from") and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


class R(symmap.Base):
    def __init__(self, rep, name):
        super().__init__(rep)
        self.name = name

    def insert(self, I, st, key, v, site):
        v = strip(v)
        if v.k == "agg" and v.a[0] == SYM:
            f = dict(zip(v.a[2], v.a[3]))
            self.rep.ob("key", site, self.same(I, st, f["rva"], key), "the symbol is put at its address: key %s, address %s" % (show(key)[:80], show(f["rva"])[:80]))
            self.origin(I, st, site, f["rva"], f["len"])
            return
        # a symbol of the other file
        own = v.k == "idx" and (self.own(key, v.a[0]) and v.a[1] is key or key.k == "fld" and key.a[1] == "rva" and strip(key.a[0]) is v)
        self.rep.ob("key", site, own and self.name == "merge", "the symbol of the other file keeps its address: key %s, symbol %s" % (show(key)[:80], show(v)[:80]))

    def same(self, I, st, a, b):
        return a is b or I.resolve(st, a) is I.resolve(st, b)

    def origin(self, I, st, site, rva, ln):
        k, l = base(rva), base(ln)
        if self.name == "functions":
            want = k.k == "fld" and k.a[1] == "address" and k.a[0].k == "arg" or (k.k == "fld" and k.a[1] == "address")
            wl = l.k == "fld" and l.a[1] == "size" and k.k == "fld" and l.a[0] is k.a[0]
            n, m = "the address of the function", "the size of the same function"
        elif self.name == "publics":
            want = k.k == "fld" and k.a[1] == "address"
            wl = l.k == "fld" and l.a[1] == "size" and want and l.a[0] is k.a[0]
            n, m = "the address of the symbol", "the size of the same symbol"
        elif self.name == "placeholders":
            want = k.k == "fld" and k.a[1] == "begin_address"
            wl = want and self.diff(l, k)
            n, m = "the begin address of the record", "the distance to its end address"
        elif self.name == "sections":
            if k.k == "fld" and k.a[1] == "sh_addr":
                want = True
            else:
                want = self.after(I, st, k)
            wl = l.k == "int" and str(l.a[0]) == "0"
            n, m = "the address of the section or the one after the last symbol", "zero"
        else:
            want = wl = False
            n, m = "that of a symbol of one of the files", "that of the same symbol"
        self.rep.ob("address", site, want, "the address is %s: %s" % (n, show(rva)[:100]))
        self.rep.ob("size", site, wl, "the size is %s: %s" % (m, show(ln)[:100]))

    def diff(self, l, k):
        b = k.a[0]
        ends = [x for x in subterms(l) if x.k == "fld" and x.a[1] == "end_address" and x.a[0] is b]
        if not ends:
            return False
        for e in (1, 5, 9, 100):
            for s in (0, 1, 5, 7):
                if s > e:
                    continue
                try:
                    if evalt(l, {ends[0]: e, k: s}) != e - s:
                        return False
                except No:
                    return False
        return True

    def sticky(self, t, v):
        return self.name == "sections" and isinstance(v, bool) and t.k == "bin" and any(x.k == "fld" and x.a[1] == "len" for x in subterms(t))

    def after(self, I, st, k):
        """last.rva + max(last.len, 1), for the lengths that what was tested allows"""
        known = [(t, v) for t, v in st.f.items() if self.sticky(t, v)]
        rv = [x for x in subterms(k) if x.k == "fld" and x.a[1] == "rva"]
        ln = [x for t in [k] + [t for t, _ in known] for x in subterms(t) if x.k == "fld" and x.a[1] == "len"]
        # the key of the last symbol is its address
        el = [x for x in subterms(k) if x.k == "elem"]
        if len(set(ln)) != 1 or len(rv) > 1:
            return False
        r = rv[0] if rv else el[0] if len(el) else None
        if r is None or rv and rv[0].a[0] is not ln[0].a[0]:
            return False
        some = False
        for a in (0, 1, 7, 100):
            for n in (0, 1, 2, 9):
                if any(holds(t, {r: a, ln[0]: n}) is (not v) for t, v in known):
                    continue
                some = True
                try:
                    if evalt(k, {r: a, ln[0]: n}) != a + max(n, 1):
                        return False
                except No:
                    return False
        return some

    def change(self, I, st, key, field, v, site):
        if field in ("rva", "len"):
            self.rep.ob("kept", site, False, "the %s of a symbol of the table is changed" % field)


def holds(t, env):
    try:
        x, y = evalt(t.a[1], env), evalt(t.a[2], env)
    except No:
        return None
    return {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}.get(t.a[0])


def evalt(t, env):
    if t in env:
        return env[t]
    if t.k == "int":
        return int(t.a[0])
    if t.k == "cast":
        return evalt(t.a[1], env)
    if t.k == "bin" and t.a[0] in ("Add", "Sub"):
        a, b = evalt(t.a[1], env), evalt(t.a[2], env)
        return a + b if t.a[0] == "Add" else a - b
    if t.k == "pay":
        t = t.a[0]
    if t.k in ("call", "max", "min"):
        n = t.k if t.k != "call" else short(t.a[0])
        args = t.a[1] if t.k == "call" else t.a
        vs = [evalt(x, env) for x in args]
        if n in ("max", "Ord::max", "u32::max"):
            return max(vs)
        if n in ("min", "Ord::min"):
            return min(vs)
        if n.endswith(("checked_add", "saturating_add", "wrapping_add")):
            return sum(vs)
        if n.endswith(("checked_sub", "saturating_sub", "wrapping_sub")):
            return vs[0] - vs[1]
    raise No()


class Out(emit.Emit):
    """The order of the records of the symbols."""

    def loop(self, I, st, ev, it, v):
        src = I.resolve(st, it.a[0])
        rng = is_range(src)
        if rng:
            src = I.resolve(st, src.a[1][0])
        if src.k == "fld" and src.a[1] == "symbols":
            self.rep.ob("order", ev.site(), (rng or it.a[1] in ("map", "values", "mapmut", "valuesmut")) and not [k for k, _ in it.a[2] if k not in ("map", "enumerate", "swap", "inspect")],
                        "the symbols are written in the order of the table%s" % "".join(" " + k for k, _ in it.a[2]))

    def fields(self, I, st, ev, kind, holes, toks):
        if kind in ("PUBLIC", "FUNC"):
            f, b = fields_of(holes[0])
            self.rep.ob("printed", ev.site() + " " + kind, f[-1:] == ["rva"], "the address written is the one of the symbol: %s" % show(holes[0])[-60:])
            if kind == "FUNC" and len(holes) > 1:
                f, b = fields_of(holes[1])
                self.rep.ob("printed", ev.site() + " " + kind + " size", f[-1:] == ["len"], "the size written is the one of the symbol: %s" % show(holes[1])[-60:])


class Quiet:
    """A report which ignores the rules of another check."""
    def __init__(self, rep):
        self.rep = rep

    def ob(self, rid, *a, **k):
        if rid in self.rep.rules:
            return self.rep.ob(rid, *a, **k)


def lint(ctx):
    """Every assignment to the address or the size of a symbol, anywhere in the program."""
    rep = ctx.rep
    for fn, proj, sp in all_writes(ctx.prog):
        for e in proj:
            if e[0] == "." and len(e) > 2 and e[2] == SYM:
                rep.ob("kept", "%s (%s) %s" % (sp, fn.path.replace("dump_syms::", ""), e[1]), e[1] not in ("rva", "len"), "the %s of a symbol is changed" % e[1])
    for adt, field in (("dump_syms::object_info::ObjectInfo", "symbols"), ("dump_syms::collector::Collector", "syms")):
        a = ctx.prog.adts.get(adt)
        ty = [f["ty"] for v in (a or {"variants": []})["variants"] for f in v["fields"] if f["name"] == field]
        rep.ob("type", adt.replace("dump_syms::", "") + "." + field, bool(ty) and re.match(r"alloc::collections::btree::map::BTreeMap<u(32|64), symbol::Symbol>$", ty[0]) is not None,
               "the table is a map ordered by the address: %s" % (ty or ["missing"])[0])


def check(ctx):
    rep = ctx.rep
    rep.rule("key", "a symbol joins the table at its own address")
    rep.rule("address", "the address of a symbol is the one of the function, symbol, record or section it is made from")
    rep.rule("size", "so is its size")
    rep.rule("kept", "the address and the size of a symbol aren't changed afterwards")
    rep.rule("type", "the table of the symbols is a map ordered by their address")
    rep.rule("order", "the symbols are written in the order of the table")
    rep.rule("printed", "the address written is the one of the symbol")
    for r, root in symmap.roots(lambda n: R(rep, n)):
        run(ctx, r, root)
    lint(ctx)
    q = Out(Quiet(rep))
    run(ctx, q, DISPLAY)
    rep.floor("key", 4, "additions to the symbol table")
    rep.floor("address", 3, "new symbols")
    rep.floor("printed", 3, "FUNC and PUBLIC records")
    rep.floor("order", 1, "the loop over the symbols")
    rep.floor("kept", 2, "functions that change symbols")

