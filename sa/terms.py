"""Hash-consed terms: the value numbers of the analysis."""


class T:
    __slots__ = ("k", "a", "_h", "_phis", "_ref", "n")
    table = {}

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.n < o.n


def mk(k, *a):
    key = (k,) + a
    t = T.table.get(key)
    if t is None:
        t = T()
        t.k, t.a = k, a
        t._h = hash(key)
        t._phis = None
        t._ref = None
        t.n = len(T.table)
        T.table[key] = t
    return t


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


_EMPTY = frozenset()


def points(t):
    """The program points whose (re-)execution redefines something the term mentions."""
    if t._phis is None:
        s = set()
        if t.k in ("phi", "elem", "site", "new", "hv", "upd") and isinstance(t.a[0], tuple):
            s.add(t.a[0])
        for c in kids(t):
            s |= points(c)
        t._phis = frozenset(s) if s else _EMPTY
    return t._phis


def hasref(t):
    """Does the term contain a pointer to a cell of the store?"""
    if t._ref is None:
        t._ref = t.k == "ref" or any(hasref(c) for c in kids(t))
    return t._ref


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(kids(x))
    return seen


UNIT = mk("agg", "()", "", (), ())
TRUE = mk("bool", True)
FALSE = mk("bool", False)


def some(t):
    return mk("agg", "core::option::Option", "Some", ("0",), (t,))


NONE = mk("agg", "core::option::Option", "None", (), ())


def ok(t):
    return mk("agg", "core::result::Result", "Ok", ("0",), (t,))


def err(t):
    return mk("agg", "core::result::Result", "Err", ("0",), (t,))


def tup(*ts):
    return mk("agg", "()", "", tuple(str(i) for i in range(len(ts))), tuple(ts))


def short(p):
    """Last two segments of a path, with <A as B>::m read as B::m."""
    if p.startswith("<"):
        d, i = 0, 0
        for i, c in enumerate(p):
            if c == "<":
                d += 1
            elif c == ">":
                d -= 1
                if d == 0:
                    break
        inner, rest = p[1:i], p[i + 1:]
        if " as " in inner:
            tr = inner.split(" as ", 1)[1]
            tr = tr.split("<", 1)[0]
            return tr.rsplit("::", 1)[-1] + rest
        return p
    parts = p.split("::")
    return "::".join(parts[-2:])


def show(t, d=0):
    if d > 12:
        return ".."
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    k, a = t.k, t.a
    if k in ("int", "const", "static", "fn"):
        return str(a[0]) if k != "fn" else "fn " + str(a[0])
    if k in ("str", "bool"):
        return repr(a[0])
    if k == "arg":
        return "$" + str(a[1])
    if k == "agg":
        n = a[0].rsplit("::", 1)[-1] + ("::" + a[1] if a[1] and a[1] != a[0].rsplit("::", 1)[-1] else "")
        if a[0] == "()":
            return "(" + ", ".join(show(x, d + 1) for x in a[3]) + ")"
        return n + "{" + ", ".join("%s: %s" % (f, show(x, d + 1)) for f, x in zip(a[2] or range(99), a[3])) + "}"
    if k == "fld":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if k == "pay":
        return "%s<%s>.%s" % (show(a[0], d + 1), a[1], a[2])
    if k == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x, d + 1) for x in a[1]))
    if k == "site":
        return "%s@%s(%s)" % (short(a[1]), a[0][1], ", ".join(show(x, d + 1) for x in a[2]))
    if k == "new":
        return "new %s@%s" % (short(a[1]), a[0][1])
    if k == "elem":
        return "elem@%s(%s)" % (a[0][1] if len(a[0]) > 1 else "", show(a[1], d + 1))
    if k == "ref":
        return "&%s%s%s" % ("mut " if a[2] else "", ("_%s.%s" % a[0]) if a[0][0] != "h" else "*(" + show(a[0][1], d + 1) + ")", "".join("." + ".".join(show(x, d + 1) for x in e[1:]) for e in a[1]))
    if k == "bin":
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if k == "phi":
        return "phi(%s)" % ":".join(show(x, d + 1) for x in a)
    if k == "upd":
        return "upd:%s[%d](%s)" % (short(a[1]), a[3], ", ".join(show(x, d + 1) for x in a[2]))
    if k == "rec":
        return "{%s with %s}" % (show(a[0], d + 1), ", ".join("%s: %s" % (n, show(x, d + 1)) for n, x in a[1]))
    if k == "fmt":
        return "fmt[" + " ".join(repr(x[1]) if x[0] == "lit" else "{%s:%s}" % (show(x[3], d + 1), x[1]) for x in a[0]) + "]"
    return "%s(%s)" % (k, ", ".join(show(x, d + 1) for x in a))

