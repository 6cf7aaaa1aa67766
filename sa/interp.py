"""Path-sensitive forward abstract interpretation with value numbering over the inlined MIR.

Nothing is executed: values are symbolic terms (terms.py), branches refine a set of facts, paths are joined where
control flow joins unless the shape of the live values (enum variants, booleans) or the state of the
rule's automaton tells them apart.  No solver is involved: a fact is known because a branch on that very term was
taken.  A rule (see rules.py) is a set of hooks called on the events met on the way.
"""
import re
from terms import *
import models

MAXS = 24          # states told apart at one join point before coarsening
MAXDEPTH = 40
MAXSTEPS = 400000


class Budget(Exception):
    pass


class State:
    __slots__ = ("s", "f", "a")

    def __init__(self, s=None, f=None, a=None):
        self.s, self.f, self.a = s if s is not None else {}, f if f is not None else {}, a

    def copy(self):
        return State(dict(self.s), dict(self.f), self.a)


class Ev:
    """A call event."""
    __slots__ = ("name", "path", "decl", "raw", "args", "fid", "bb", "fn", "sp", "rt", "targs", "mutlocs", "trait", "optys")

    def site(self):
        return "%s (%s)" % (self.sp, self.fn.path.replace("dump_syms::", ""))

    @property
    def point(self):
        return (self.fid, self.bb)


BIN = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok", "Continue": "Break", "Break": "Continue",
       "Occupied": "Vacant", "Vacant": "Occupied", "Ready": "Pending", "Pending": "Ready",
       "Borrowed": "Owned", "Owned": "Borrowed"}


def analyse_fn(f):
    """Successors, liveness, address-taken locals, join blocks and drop flags."""
    if f.succs is not None:
        return
    n = len(f.blocks)
    succs, use, dfn = [], [], []
    taken = set()
    boolconst = {}
    usedother = set()

    def place_uses(p, out):
        out.add(p[0])
        for e in p[1:]:
            if e[0] == "[]":
                out.add(e[1])

    def op_uses(o, out):
        if "c" in o:
            place_uses(o["c"], out)
        elif "m" in o:
            place_uses(o["m"], out)

    for b in f.blocks:
        u, d = set(), set()

        def add(us):
            u.update(us - d)

        for s in b["s"]:
            if s[0] == "=":
                us = set()
                r = s[2]
                k = r[0]
                if k in ("use", "repeat"):
                    op_uses(r[1], us)
                elif k in ("ref", "rawptr"):
                    place_uses(r[1], us)
                    if not any(e[0] == "*" for e in r[1][1:]):
                        taken.add(r[1][0])
                elif k == "cast":
                    op_uses(r[2], us)
                elif k == "bin":
                    op_uses(r[2], us)
                    op_uses(r[3], us)
                elif k == "un":
                    op_uses(r[2], us)
                elif k == "discr":
                    place_uses(r[1], us)
                elif k == "agg":
                    for o in r[5]:
                        op_uses(o, us)
                if len(s[1]) > 1:
                    place_uses(s[1], us)
                add(us)
                usedother |= us
                if len(s[1]) == 1:
                    d.add(s[1][0])
                    isb = k == "use" and "k" in r[1] and "int" in r[1]["k"]
                    boolconst[s[1][0]] = boolconst.get(s[1][0], True) and isb
            elif s[0] == "setd":
                us = set()
                place_uses(s[1], us)
                add(us)
            elif s[0] in ("dead", "live"):
                d.add(s[1])
        t = b["t"]
        k = t["t"]
        us = set()
        sw = None
        if k == "switch":
            op_uses(t["d"], us)
            sw = us
            ss = [x[1] for x in t["v"]] + [t["o"]]
        elif k == "goto":
            ss = [t["to"]]
        elif k == "call":
            op_uses(t["f"], us)
            for a in t["a"]:
                op_uses(a, us)
            if len(t["d"]) > 1:
                place_uses(t["d"], us)
            ss = [t["to"]] if t.get("to") is not None else []
        elif k == "drop":
            place_uses(t["p"], us)
            ss = [t["to"]]
        elif k == "assert":
            op_uses(t["c"], us)
            for o in t.get("ops", []):
                op_uses(o, us)
            ss = [t["to"]]
        elif k == "return":
            us.add(0)
            ss = []
        else:
            ss = []
        add(us)
        if sw is None:
            usedother |= us
        if k == "call" and len(t["d"]) == 1:
            boolconst[t["d"][0]] = False
        succs.append(ss)
        use.append(u)
        dfn.append((d, t["d"][0] if k == "call" and len(t["d"]) == 1 else None))
    preds = [[] for _ in range(n)]
    for i, ss in enumerate(succs):
        for x in ss:
            preds[x].append(i)
    live = [set() for _ in range(n)]
    live_out = [set() for _ in range(n)]
    work = list(range(n))
    while work:
        i = work.pop()
        out = set()
        for x in succs[i]:
            out |= live[x]
        live_out[i] = out
        d, cd = dfn[i]
        o2 = out - {cd} if cd is not None else out
        new = use[i] | (o2 - d)
        if new != live[i]:
            live[i] = new
            work.extend(preds[i])
    # drop flags: unnamed bools, only assigned constants and only used in switches
    flags = set()
    for l, isb in boolconst.items():
        if isb and l > f.argc and f.locals[l][1] is None and f.prog.tystr((f.crate, f.locals[l][0])) == "bool" \
                and l not in usedother and l not in taken:
            # used in a switch that leads to a drop
            flags.add(l)
    real = set()
    for i, b in enumerate(f.blocks):
        t = b["t"]
        if t["t"] == "switch":
            l = (t["d"].get("c") or t["d"].get("m") or [None])[0]
            if l in flags:
                tg = [x[1] for x in t["v"]] + [t["o"]]
                if any(f.blocks[x]["t"]["t"] == "drop" and not f.blocks[x]["s"] for x in tg):
                    real.add(l)
    f.succs, f.preds = succs, preds
    f.live_in = (live, live_out, taken, real)
    # loop heads, by depth first search: used for the iteration order only
    order, seen = {}, set()
    post = []
    stack = [(0, iter(succs[0]))] if n else []
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(succs[x])))
                break
        else:
            stack.pop()
            post.append(b)
    for i, b in enumerate(reversed(post)):
        order[b] = i
    f._loops = order


class Interp:
    def __init__(self, prog, rule):
        self.prog, self.rule = prog, rule
        self.frames = [(None, None, "<root>")]
        self.fidx = {}
        self.phi_ops = {}
        self.memo = {}
        self.steps = 0
        self.maxsteps = MAXSTEPS
        self.fns_seen = set()
        self.calls_seen = set()
        self.stack = []
        self.proms = {}
        self.ret_env = []

    # ---------------------------------------------------------------- frames
    def fid(self, parent, bb, path):
        k = (parent, bb, path)
        i = self.fidx.get(k)
        if i is None:
            i = len(self.frames)
            self.frames.append(k)
            self.fidx[k] = i
        return i

    def chain(self, fid):
        out = []
        while fid:
            p, bb, path = self.frames[fid]
            out.append(path)
            fid = p
        return out

    # ---------------------------------------------------------------- memory
    def cellval(self, st, cell):
        v = st.s.get(cell)
        if v is None:
            if cell[0] == "h":
                return cell[1]
            return mk("uninit", cell)
        return v

    def proj(self, st, v, e, heap=True):
        n = 0
        while v.k == "ref":
            v = self.load(st, v)
            n += 1
            if n > 20:
                return mk("fld", v, str(e))
        k = v.k
        if heap and ("h", v) in st.s and k not in ("agg",):
            v = st.s[("h", v)]
            k = v.k
            heap = False
        if e[0] == "f":
            n = e[1]
            if k == "agg":
                if n in v.a[2]:
                    return v.a[3][v.a[2].index(n)]
                return mk("fld", v, n)
            if k == "rec":
                for kk, x in v.a[1]:
                    if kk == n:
                        return x
                return self.proj(st, v.a[0], e, heap)
            return models.fld(v, n)
        if e[0] == "p":
            V, n = e[1], e[2]
            if k == "agg":
                if v.a[1] == V and n in v.a[2]:
                    return v.a[3][v.a[2].index(n)]
                if v.a[0].startswith("coroutine:"):
                    return mk("fld", v, V + "." + n)
                return mk("pay", v, V, n)
            if k == "rec":
                for kk, x in v.a[1]:
                    if kk == V + "." + n:
                        return x
                return self.proj(st, v.a[0], e, heap)
            return models.pay(v, V, n)
        if e[0] == "i":
            return models.index(v, e[1])
        return mk("fld", v, str(e))

    def setproj(self, st, v, path, new):
        if not path:
            return new
        while v.k == "ref":
            v = self.load(st, v)
        e, rest = path[0], path[1:]
        inner = self.setproj(st, self.proj(st, v, e), rest, new) if rest else new
        if e[0] in ("f", "p"):
            if v.k == "agg" and (e[0] == "f" or v.a[1] == e[1]) and e[-1] in v.a[2]:
                i = v.a[2].index(e[-1])
                return mk("agg", v.a[0], v.a[1], v.a[2], v.a[3][:i] + (inner,) + v.a[3][i + 1:])
            key = e[1] if e[0] == "f" else e[1] + "." + e[2]
            if v.k == "rec":
                d = dict(v.a[1])
                base = v.a[0]
            else:
                d, base = {}, v
            d[key] = inner
            return mk("rec", base, tuple(sorted(d.items(), key=lambda x: x[0])))
        if e[0] == "i":
            if v.k == "puti" and v.a[1] is e[1]:
                v = v.a[0]
            return mk("puti", v, e[1], inner)
        return mk("rec", v, ((str(e), inner),))

    def loadloc(self, st, cell, path):
        v = self.cellval(st, cell)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def load(self, st, ref):
        return self.loadloc(st, ref.a[0], ref.a[1])

    def storeloc(self, st, cell, path, new, site=None):
        # a path that goes through a pointer stored in the cell: follow it
        v = self.cellval(st, cell)
        for i, e in enumerate(path):
            if v.k == "ref":
                return self.storeloc(st, v.a[0], v.a[1] + path[i:], new, site)
            v = self.proj(st, v, e)
        st.s[cell] = self.setproj(st, self.cellval(st, cell), path, new)

    def deref_loc(self, st, v):
        """The location a pointer value designates."""
        if v.k == "ref":
            return v.a[0], v.a[1]
        if v.k == "agg" and v.a[0].rsplit("::", 1)[-1] in ("Pin", "AssertUnwindSafe", "ManuallyDrop", "Box", "Unique", "NonNull") and v.a[3]:
            return self.deref_loc(st, v.a[3][0])
        return ("h", v), ()

    def loc(self, st, fid, place):
        cell, path = (fid, place[0]), ()
        pend = None
        for e in place[1:]:
            if e[0] == "*":
                v = self.loadloc(st, cell, path)
                cell, path = self.deref_loc(st, v)
            elif e[0] == ".":
                path = path + ((("p", pend, e[1]) if pend is not None else ("f", e[1])),)
                pend = None
            elif e[0] == "as":
                pend = e[1]
            elif e[0] == "[]":
                path = path + (("i", self.resolve(st, self.cellval(st, (fid, e[1])))),)
            elif e[0] == "[c]":
                path = path + (("i", mk("int", e[1]) if not e[2] else mk("call", "from_end", (mk("int", e[1]),))),)
            elif e[0] == "[..]":
                if e[3] and not e[2]:
                    path = path + (("i", mk("agg", "core::ops::range::RangeFrom", None, ("start",), (mk("int", e[1]),))),)
                else:
                    path = path + (("i", mk("call", "subslice", (mk("int", e[1]), mk("int", e[2]), mk("bool", bool(e[3]))))),)
            else:
                path = path + (("f", str(e)),)
        return cell, path

    def resolve(self, st, v, d=0):
        """Replaces the pointers into the store by the values they designate."""
        if v.k == "ref":
            if d > 8:
                return v
            return self.resolve(st, self.load(st, v), d + 1)
        h = st.s.get(("h", v))
        if h is not None and h is not v and d < 8:
            return self.resolve(st, h, d + 1)
        if not hasref(v):
            return v
        if d > 8:
            return v

        def go(x):
            if isinstance(x, T):
                return self.resolve(st, x, d + 1)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        return mk(v.k, *[go(x) for x in v.a])

    # ---------------------------------------------------------------- facts
    def known(self, st, t):
        """True/False/None for a boolean term."""
        k = t.k
        if k == "bool":
            return t.a[0]
        if k == "not":
            r = self.known(st, t.a[0])
            return None if r is None else not r
        if k == "is":
            v = self.variant(st, t.a[0])
            if isinstance(v, str):
                return v == t.a[1]
            if isinstance(v, frozenset) and t.a[1] in v:
                return False
            return st.f.get(t)
        r = st.f.get(t)
        if r is not None:
            return r if isinstance(r, bool) else None
        if k == "bin":
            op, a, b = t.a
            if op == "Eq":
                if a is b:
                    return True
                for x, y in ((a, b), (b, a)):
                    c = st.f.get(x)
                    if c is not None and isinstance(c, T) and models.isconst(y):
                        return c is y
                if models.isconst(a) and models.isconst(b):
                    return a is b
                va, vb = self.variant(st, a), self.variant(st, b)
                if isinstance(va, str) and isinstance(vb, str) and va != vb:
                    return False
            if op == "Lt":
                if a is b:
                    return False
                if a.k == "int" and b.k == "int":
                    return a.a[0] < b.a[0]
                if st.f.get(mk("bin", "Lt", b, a)) is True:
                    return False
                e = models.eq(a, b)
                if st.f.get(e) is True:
                    return False
            if op == "BitAnd":
                x, y = self.known(st, a), self.known(st, b)
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            if op == "BitOr":
                x, y = self.known(st, a), self.known(st, b)
                if x is True or y is True:
                    return True
                if x is False and y is False:
                    return False
        if k == "has":
            m, key = t.a
            while m.k in ("puti", "rec"):
                if m.k == "puti":
                    if m.a[1] is key:
                        return True
                    if not (models.isconst(m.a[1]) and models.isconst(key)):
                        break
                m = m.a[0]
            if m.k == "new":
                return False
            return st.f.get(mk("has", m, key))
        return None

    def head(self, st, v):
        """The value whose variant matters: through pointers, updated records and the heap."""
        seen = set()
        n = 0
        while True:
            n += 1
            if n > 40:
                return v
            if v.k == "ref":
                v = self.load(st, v)
            elif v.k in ("rec", "omap"):
                v = v.a[0]
            else:
                h = st.s.get(("h", v))
                if h is None or h is v or v in seen:
                    return v
                seen.add(v)
                v = h

    def variant(self, st, v):
        v = self.head(st, v)
        if v.k == "agg":
            return v.a[1] or None
        if v.k == "okof":
            r = self.variant(st, v.a[0])
            return {"Ok": "Some", "Err": "None"}.get(r) if isinstance(r, str) else None
        if v.k == "errof":
            r = self.variant(st, v.a[0])
            return {"Ok": "None", "Err": "Some"}.get(r) if isinstance(r, str) else None
        f = st.f.get(v)
        if isinstance(f, (str, frozenset)):
            return f
        return None

    def assume_variant(self, st, v, V):
        v = self.head(st, v)
        if v.k == "agg":
            return v.a[1] == V or v.a[1] == ""
        if v.k == "okof":
            return self.assume_variant(st, v.a[0], {"Some": "Ok", "None": "Err"}.get(V, V))
        if v.k == "errof":
            return self.assume_variant(st, v.a[0], {"Some": "Err", "None": "Ok"}.get(V, V))
        f = st.f.get(v)
        if isinstance(f, str):
            return f == V
        if isinstance(f, frozenset) and V in f:
            return False
        st.f[v] = V
        # what a comparison means
        if v.k == "call" and v.a[0] == "cmp" and len(v.a[1]) == 2:
            a, b = v.a[1]
            if V == "Equal":
                return self.assume1(st, models.eq(a, b), True)
            if V == "Less":
                return self.assume1(st, models.lt(a, b), True)
            if V == "Greater":
                return self.assume1(st, models.lt(b, a), True)
        r = self.rule.on_fact(self, st, v, V)
        return True if r is None else r

    def exclude_variants(self, st, v, Vs):
        v = self.head(st, v)
        if v.k == "agg":
            return v.a[1] not in Vs
        if v.k in ("okof", "errof"):
            left = {"Some", "None"} - set(Vs)
            if len(left) == 1:
                return self.assume_variant(st, v, left.pop())
            return bool(left)
        f = st.f.get(v)
        if isinstance(f, str):
            return f not in Vs
        old = f if isinstance(f, frozenset) else frozenset()
        st.f[v] = old | frozenset(Vs)
        self.rule.on_exclude(self, st, v, st.f[v])
        return True

    def assume(self, st, t, val):
        """-> the states (possibly several) in which the boolean term has that value; consumes st."""
        k = t.k
        if k == "not":
            return self.assume(st, t.a[0], not val)
        r = self.known(st, t)
        if r is not None:
            return [st] if r == val else []
        if k == "bin" and t.a[0] in ("BitAnd", "BitOr"):
            a, b = t.a[1], t.a[2]
            strong = (t.a[0] == "BitAnd") == val      # both sides have the value
            if strong:
                out = []
                for s1 in self.assume(st, a, val):
                    out += self.assume(s1, b, val)
                return out
            s2 = st.copy()
            out = self.assume(st, a, val)
            for s in self.assume(s2, a, not val):
                out += self.assume(s, b, val)
            return out
        if k == "call" and t.a[0] == "unwrap_or" and t.a[1][1].k == "bool":
            # opt.map(test).unwrap_or(default)
            o, d = t.a[1]
            out = []
            s2 = st.copy()
            if d.a[0] == val and self.assume_variant(s2, o, "None"):
                out.append(s2)
            if self.assume_variant(st, o, "Some"):
                out += self.assume(st, self.proj(st, o, ("p", "Some", "0")), val)
            return out
        return [st] if self.assume1(st, t, val) else []

    def assume1(self, st, t, val):
        k = t.k
        if k == "not":
            return self.assume1(st, t.a[0], not val)
        r = self.known(st, t)
        if r is not None:
            return r == val
        if k == "is":
            if val:
                return self.assume_variant(st, t.a[0], t.a[1])
            o = BIN.get(t.a[1])
            if o:
                return self.assume_variant(st, t.a[0], o)
            return self.exclude_variants(st, t.a[0], {t.a[1]})
        st.f[t] = val
        if k == "bin" and t.a[0] == "Eq":
            a, b = t.a[1], t.a[2]
            if val:
                for x, y in ((a, b), (b, a)):
                    if models.isconst(y) and not models.isconst(x):
                        if x not in st.f:
                            st.f[x] = y
                    vy = self.variant(st, y)
                    if isinstance(vy, str) and y.k == "agg" and x.k != "agg":
                        if not self.assume_variant(st, x, vy):
                            return False
                        for n, p in zip(y.a[2], y.a[3]):
                            e = models.eq(self.proj(st, x, ("p", vy, n)), p)
                            if e.k != "bool":
                                st.f.setdefault(e, True)
                    elif isinstance(vy, str) and models.isconst(y) is False and y.k != "agg":
                        pass
            else:
                for x, y in ((a, b), (b, a)):
                    if y.k == "agg" and y.a[1] and not y.a[3] and x.k != "agg":
                        if not self.exclude_variants(st, x, {y.a[1]}):
                            return False
                        if y.a[1] in BIN and st.f.get(x) == frozenset({y.a[1]}):
                            st.f[x] = BIN[y.a[1]]
        r = self.rule.on_fact(self, st, t, val)
        return True if r is None else r

    # ---------------------------------------------------------------- joins
    def shape(self, st, v, d):
        k = v.k
        if k == "bool":
            return v.a[0]
        if k == "agg":
            if d == 0:
                return v.a[1] or None
            sub = tuple(self.shape(st, x, d - 1) for x in v.a[3])
            if not v.a[1] or v.a[1] == v.a[0].rsplit("::", 1)[-1]:
                return sub if any(x is not None for x in sub) else None
            return (v.a[1],) + sub
        if k == "fn":
            return v
        f = st.f.get(v)
        if f is None or isinstance(f, T):
            if k == "rec" and d:
                sub = tuple((n, self.shape(st, x, d - 1)) for n, x in v.a[1])
                return sub if any(x[1] is not None for x in sub) else None
            if k in ("is", "not", "bin", "okof", "errof"):
                if k in ("okof", "errof"):
                    return self.variant(st, v)
                return self.known(st, v)
            return None
        return f

    def sig(self, st, fid, flags, level):
        if level >= 2:
            return (st.a, tuple(sorted((t.n, str(v)) for t, v in st.f.items() if self.rule.sticky(t, v))))
        out = []
        d = 3 if level == 0 else 1
        for c, v in st.s.items():
            if level == 1 and c[0] != fid:
                continue
            if c[0] == fid and c[1] in flags:
                continue
            sh = self.shape(st, v, d)
            if sh is not None:
                out.append((c[0] if c[0] != "h" else -1, str(c[1]) if c[0] != "h" else str(c[1].n), sh))
        out.sort(key=lambda x: (x[0], x[1]))
        return (st.a, tuple(out), tuple(sorted((t.n, str(v)) for t, v in st.f.items() if self.rule.sticky(t, v))))

    def phi(self, point, cell, path):
        return mk("phi", point, cell, path) if self.tag is None else mk("phi", point, cell, path, self.tag)

    def stale(self, st, point, keep=()):
        """The point is executed (again): what refers to its previous execution is no longer that value."""
        self.tag = self.rule.phi_tag(st.a)
        for c in list(st.s):
            v = st.s[c]
            if point in points(v):
                if v.k == "phi" and v.a[0] == point and v.a[1] == c and v.a[2] == ():
                    continue
                if c[0] == "h":
                    if point in points(c[1]):
                        continue
                n = self.phi(point, c, ())
                if hasref(v):
                    continue
                self.phi_ops.setdefault(n, set()).add(v)
                st.s[c] = self.stale_value(st, point, c, (), v)
        for t in list(st.f):
            if point in points(t):
                if t.k == "phi" and t.a[0] == point and t in keep:
                    continue
                del st.f[t]

    def stale_value(self, st, point, c, path, v):
        """Renames only the parts of the value that refer to the point."""
        if point not in points(v):
            return v
        if v.k == "phi" and v.a[0] == point and v.a[1] == c and v.a[2] == path:
            return v
        if v.k == "agg":
            return mk("agg", v.a[0], v.a[1], v.a[2],
                      tuple(self.stale_value(st, point, c, path + (n,), x)
                            for n, x in zip(v.a[2] or [str(i) for i in range(len(v.a[3]))], v.a[3])))
        if v.k == "rec" and point not in points(v.a[0]):
            return mk("rec", v.a[0], tuple((n, self.stale_value(st, point, c, path + (n,), x)) for n, x in v.a[1]))
        n = self.phi(point, c, path)
        self.phi_ops.setdefault(n, set()).add(v)
        if v in st.f and isinstance(st.f[v], (str, frozenset, bool)):
            st.f[n] = st.f[v]
        return n

    def merge(self, point, cell, path, a, b, ch, sa=None, sb=None):
        if a is b:
            return a
        if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[2] == b.a[2] and len(a.a[3]) == len(b.a[3]):
            names = a.a[2] or [str(i) for i in range(len(a.a[3]))]
            return mk("agg", a.a[0], a.a[1], a.a[2], tuple(
                self.merge(point, cell, path + (n,), x, y, ch) for n, x, y in zip(names, a.a[3], b.a[3])))
        ra = a if a.k == "rec" else mk("rec", a, ())
        rb = b if b.k == "rec" else mk("rec", b, ())
        if (a.k == "rec" or b.k == "rec") and ra.a[0] is rb.a[0]:
            da, db = dict(ra.a[1]), dict(rb.a[1])
            out = {}
            base = ra.a[0]
            for n in sorted(set(da) | set(db)):
                if "." in n:
                    dflt = models.pay(base, *n.split(".", 1))
                else:
                    dflt = models.fld(base, n)
                out[n] = self.merge(point, cell, path + (n,), da.get(n, dflt), db.get(n, dflt), ch)
            return mk("rec", base, tuple(sorted(out.items(), key=lambda x: x[0])))
        p = self.phi(point, cell, path)
        ops = self.phi_ops.setdefault(p, set())
        for x in (a, b):
            if x is not p:
                ops.add(x)
        if a is not p:
            ch.append(p)
        return p

    def join(self, old, new, point):
        """Joins new into old; True if old changed."""
        self.tag = self.rule.phi_tag(old.a)
        ch = []
        out = {}
        for c, v in old.s.items():
            w = new.s.get(c)
            if w is None:
                if c[0] == "h":
                    w = c[1]
                else:
                    ch.append(c)
                    continue
            out[c] = self.merge(point, c, (), v, w, ch)
        for c, w in new.s.items():
            if c not in old.s and c[0] == "h":
                out[c] = self.merge(point, c, (), c[1], w, ch)
                if out[c] is not c[1]:
                    ch.append(c)
        phis = set(x for x in ch if isinstance(x, T))
        f = {}
        for t, v in old.f.items():
            w = new.f.get(t)
            if w is None:
                w = self.derive(new, t, v)
            if w == v or w is v:
                f[t] = v
            elif isinstance(v, (str, frozenset)) and isinstance(w, (str, frozenset)):
                pass
        # facts about a merged value that hold on both sides
        for p in phis:
            c, path = p.a[1], p.a[2]
            a = self.at(old, c, path)
            b = self.at(new, c, path)
            if a is not None and b is not None:
                va, vb = self.variant(old, a), self.variant(new, b)
                if va is not None and va == vb:
                    f[p] = va
                else:
                    ka, kb = old.f.get(a), new.f.get(b)
                    if isinstance(ka, bool) and ka == kb:
                        f[p] = ka
                    elif isinstance(ka, T) and ka is kb:
                        f[p] = ka
        changed = bool(ch) or len(f) != len(old.f) or any(t not in old.f for t in f)
        if changed and (out != old.s or f != old.f):
            old.s, old.f = out, f
            return True
        return False

    def derive(self, st, t, v):
        if isinstance(v, bool):
            return self.known(st, t)
        if isinstance(v, (str, frozenset)):
            w = self.variant(st, t)
            return w
        return None

    def at(self, st, c, path):
        v = st.s.get(c)
        if v is None:
            return c[1] if c[0] == "h" else None
        for n in path:
            if v is None:
                return None
            if v.k == "agg":
                names = v.a[2] or [str(i) for i in range(len(v.a[3]))]
                v = v.a[3][list(names).index(n)] if n in names else None
            elif v.k == "rec":
                d = dict(v.a[1])
                if n in d:
                    v = d[n]
                elif "." in n:
                    v = models.pay(v.a[0], *n.split(".", 1))
                else:
                    v = models.fld(v.a[0], n)
            elif v.k == "phi":
                return None
            else:
                v = models.fld(v, n) if "." not in n else models.pay(v, *n.split(".", 1))
        return v

    def arrive(self, table, bb, st, fid, point, flags):
        """Joins an arriving state at a block; -> (key, state) to process or None."""
        self.rule.on_arrive(self, st, fid, point)
        keep = set()
        for c, v in st.s.items():
            if v.k == "phi" and v.a[0] == point and v.a[1] == c:
                keep.add(v)
        self.stale(st, point, keep)
        lst = table.setdefault(bb, {})
        level = 0
        if len(lst) >= MAXS:
            level = 1
            if len(lst) >= 2 * MAXS:
                level = 2
        k = self.sig(st, fid, flags, level)
        if level and k not in lst:
            # already told apart at a finer level?
            k0 = self.sig(st, fid, flags, 0)
            if k0 in lst:
                k = k0
        old = lst.get(k)
        if old is None:
            lst[k] = st
            return k, st
        if self.join(old, st, point):
            return k, old
        return None

    # ---------------------------------------------------------------- running a function
    def run(self, fn, args, st, parent, bb):
        """Runs the body on the arguments; -> list of (state, value) at its returns."""
        analyse_fn(fn)
        fid = self.fid(parent, bb, fn.path)
        self.fns_seen.add(fn.path)
        key = (fid, tuple(args), frozenset(st.s.items()), frozenset(st.f.items()), st.a)
        m = self.memo.get(key)
        if m is not None:
            return [(s.copy(), v) for s, v in m]
        st = st.copy()
        for i, a in enumerate(args):
            st.s[(fid, i + 1)] = a
        live, live_out, taken, flags = fn.live_in
        multi = [len(set(p)) > 1 for p in fn.preds]
        order = fn._loops
        table, exits = {}, {}
        import heapq
        work, seq = [], 0
        pending = set()

        def push(b, s):
            nonlocal seq
            if fn.blocks[b]["cl"]:
                return
            if multi[b]:
                # forget the dead locals
                lv = live[b]
                for c in [c for c in s.s if c[0] == fid and c[1] >= 0 and c[1] not in lv and c[1] not in taken]:
                    del s.s[c]
                self.gc(s)
                r = self.arrive(table, b, s, fid, (fid, b), flags)
                if r is None:
                    return
                if (b, r[0]) in pending:
                    return
                pending.add((b, r[0]))
                seq += 1
                heapq.heappush(work, (order.get(b, 0), seq, b, r[0], None))
            else:
                seq += 1
                heapq.heappush(work, (order.get(b, 0), seq, b, None, s))

        self.stack.append(fid)
        push_entry = State(st.s, st.f, st.a)
        seq += 1
        heapq.heappush(work, (0, seq, 0, None, push_entry))
        while work:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Budget("more than %d steps" % self.maxsteps)
            _, _, b, k, s = heapq.heappop(work)
            if k is not None:
                pending.discard((b, k))
                s = table[b][k]
            s = s.copy()
            for nb, ns, rv in self.block(fn, fid, b, s):
                if nb is None:
                    # return
                    rv = self.escape(ns, rv, fid)
                    for c in [c for c in ns.s if c[0] == fid]:
                        del ns.s[c]
                    ns.s[(fid, -1)] = rv
                    r = self.arrive(exits, 0, ns, fid, (fid, "ret"), ())
                else:
                    push(nb, ns)
        self.stack.pop()
        out = []
        for s in exits.get(0, {}).values():
            s = s.copy()
            v = s.s.pop((fid, -1))
            out.append((s, v))
        self.memo[key] = [(s.copy(), v) for s, v in out]
        return out

    def gc(self, st):
        """Drops the facts about values that nothing holds any more (only when there are many)."""
        if len(st.f) < 120:
            return
        alive = set()
        for v in st.s.values():
            alive |= subterms(v, alive)
        for t in list(st.f):
            if t not in alive and not any(x in alive for x in kids(t)) and not self.rule.sticky(t, st.f[t]):
                del st.f[t]

    def escape(self, st, v, fid):
        """Pointers to the locals of a frame that ends are replaced by what they designate."""
        if not hasref(v):
            return v
        if v.k == "ref":
            if v.a[0][0] == fid:
                return self.escape(st, self.load(st, v), fid)
            return v

        def go(x):
            if isinstance(x, T):
                return self.escape(st, x, fid)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        return mk(v.k, *[go(x) for x in v.a])

    def operand(self, st, fn, fid, o):
        if "c" in o or "m" in o:
            p = o.get("c") or o.get("m")
            cell, path = self.loc(st, fid, p)
            return self.loadloc(st, cell, path)
        if "k" in o:
            return self.constant(fn, o["k"])
        return mk("const", "rt")

    def constant(self, fn, k):
        prog = self.prog
        if "fn" in k:
            f = k["fn"]
            return mk("fn", f.get("r") or f["p"], f["p"], fn.crate, tuple(f["a"]))
        if "str" in k:
            return mk("str", k["str"])
        if "bytes" in k:
            return mk("bytes", tuple(k["bytes"]))
        ty = prog.types[fn.crate][k["t"]]
        if "int" in k:
            if ty["s"] == "bool":
                return TRUE if k["int"] else FALSE
            if ty["s"] == "char":
                return mk("str", chr(k["int"]))
            n = k["int"]
            if ty["s"].startswith("i") and n >= 1 << 31:
                bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(ty["s"], 64)
                if n >= 1 << (bits - 1):
                    n -= 1 << bits
            return mk("int", n)
        if "static" in k:
            return mk("static", k["static"])
        if "prom" in k:
            return self.promoted(k["prom"])
        s = k.get("s", "")
        if ty["s"] == "()":
            return UNIT
        if ty.get("k") == "adt" and self.prog.adts.get(ty.get("path")):
            last = re.sub(r"<.*>", "", s).rsplit("::", 1)[-1].strip("(){} ")
            for v in self.prog.adts[ty["path"]]["variants"]:
                if v["name"] == last and not v["fields"]:
                    return mk("agg", ty["path"], v["name"], (), ())
        if "def" in k:
            return mk("const", k["def"])
        if ty.get("k") == "closure" or s.startswith("{closure") or "{closure@" in ty["s"]:
            if ty.get("path"):
                return mk("agg", "closure:" + ty["path"], "", (), ())
        return mk("const", s)

    def promoted(self, path):
        v = self.proms.get(path)
        if v is None:
            f = self.prog.fns.get(path)
            v = mk("const", path)
            if f is not None:
                self.proms[path] = v
                analyse_fn(f)
                st = State()
                rule, self.rule = self.rule, models.NullRule()
                try:
                    res = []
                    fid = self.fid(0, 0, path)
                    st2 = State()
                    b = 0
                    for _ in range(50):
                        nx = list(self.block(f, fid, b, st2))
                        if len(nx) != 1:
                            break
                        nb, st2, rv = nx[0]
                        if nb is None:
                            v = self.resolve(st2, rv)
                            break
                        b = nb
                finally:
                    self.rule = rule
            self.proms[path] = v
        return v

    def block(self, fn, fid, b, st, start=0):
        """Interprets a block; yields (next block or None, state, return value)."""
        blk = fn.blocks[b]
        for n in range(start, len(blk["s"])):
            s = blk["s"][n]
            if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("BitOr", "BitAnd") and len(s[1]) > 1 and self.opty(fn, s[2][3]) == "bool":
                # a flag somewhere that is set or cleared under a condition
                old, c = (self.resolve(st, self.operand(st, fn, fid, o)) for o in s[2][2:4])
                cell, path = self.loc(st, fid, s[1])
                if old is self.resolve(st, self.loadloc(st, cell, path)):
                    act = s[2][1] == "BitOr"
                    out = []
                    for s2 in self.assume(st.copy(), models.tobool(c), not act):
                        out += self.block(fn, fid, b, s2, n + 1)
                    for s2 in self.assume(st, models.tobool(c), act):
                        self.assign(fn, fid, b, s2, [s[0], s[1], ["bool", act]] + list(s[3:]))
                        out += self.block(fn, fid, b, s2, n + 1)
                    return out
            if s[0] == "=":
                self.assign(fn, fid, b, st, s)
            elif s[0] == "dead":
                st.s.pop((fid, s[1]), None)
            elif s[0] == "setd":
                cell, path = self.loc(st, fid, s[1])
                v = self.loadloc(st, cell, path)
                if not (v.k == "agg" and not v.a[0].startswith("coroutine:")):
                    self.storeloc(st, cell, path + (("f", "#d"),), mk("str", str(s[2])))
        t = blk["t"]
        k = t["t"]
        if k == "goto":
            return [(t["to"], st, None)]
        if k == "return":
            return [(None, st, self.cellval(st, (fid, 0)) if (fid, 0) in st.s else UNIT)]
        if k == "switch":
            return self.switch(fn, fid, st, t)
        if k == "call":
            return self.call(fn, fid, b, st, t)
        if k == "drop":
            return self.drop(fn, fid, b, st, t)
        if k == "assert":
            c = self.operand(st, fn, fid, t["c"])
            c = self.resolve(st, c)
            ops = [self.resolve(st, self.operand(st, fn, fid, o)) for o in t.get("ops", [])]
            r = self.rule.on_assert(self, st, t, c, ops, fn)
            exp = t["e"]
            return [(t["to"], s2, None) for s2 in self.assume(st, models.tobool(c), bool(exp))]
        return []

    def assign(self, fn, fid, b, st, s):
        r = s[2]
        v = self.rvalue(fn, fid, b, st, r, s)
        p = s[1]
        if len(p) == 1:
            st.s[(fid, p[0])] = v
            return
        cell, path = self.loc(st, fid, p)
        if path or cell[0] != fid:
            # a write somewhere: through a pointer, or in a field
            self.rule.on_write(self, st, cell, path, v, "%s (%s)" % (s[3], fn.path.replace("dump_syms::", "")), fn)
        self.storeloc(st, cell, path, v)

    def rvalue(self, fn, fid, b, st, r, s):
        k = r[0]
        if k == "use":
            return self.operand(st, fn, fid, r[1])
        if k == "bool":
            return TRUE if r[1] else FALSE
        if k in ("ref", "rawptr"):
            cell, path = self.loc(st, fid, r[1])
            mut = bool(r[2]) if k == "ref" else True
            if cell[0] == "h" and not path and cell not in st.s and not mut:
                return cell[1]
            return mk("ref", cell, path, mut)
        if k == "cast":
            v = self.operand(st, fn, fid, r[2])
            if r[1].startswith("IntToInt"):
                return models.cast(self.prog.types[fn.crate][r[3]]["s"], self.resolve(st, v))
            return v
        if k == "bin":
            x = self.resolve(st, self.operand(st, fn, fid, r[2]))
            y = self.resolve(st, self.operand(st, fn, fid, r[3]))
            self.rule.on_bin(self, st, r[1], x, y, s[3], fn)
            return models.binop(r[1], x, y)
        if k == "un":
            v = self.resolve(st, self.operand(st, fn, fid, r[2]))
            if r[1] == "Not":
                return models.not_(v)
            if r[1] == "PtrMetadata":
                return models.length(v)
            return mk("call", "un" + r[1], (v,))
        if k == "discr":
            cell, path = self.loc(st, fid, r[1])
            v = self.loadloc(st, cell, path)
            return mk("discr", v, fn.crate, r[2])
        if k == "agg":
            vals = tuple(self.operand(st, fn, fid, o) for o in r[5])
            kind = r[1]
            if kind == "tuple":
                return tup(*vals)
            if kind == "array":
                return mk("agg", "[]", "", tuple(str(i) for i in range(len(vals))), vals)
            if kind in ("closure", "coroutine"):
                return mk("agg", kind + ":" + r[2], "", tuple(str(i) for i in range(len(vals))), vals)
            if kind == "rawptr":
                return vals[0]
            names = tuple(r[4])
            self.rule.on_agg(self, st, r[2], r[3], names, vals, "%s (%s)" % (s[3], fn.path.replace("dump_syms::", "")), fn, fid)
            return models.agg(r[2], r[3], names, vals)
        if k == "repeat":
            return mk("call", "repeat", (self.resolve(st, self.operand(st, fn, fid, r[1])),))
        return mk("const", str(r))

    def switch(self, fn, fid, st, t):
        v = self.operand(st, fn, fid, t["d"])
        if v.k == "ref":
            v = self.resolve(st, v)
        out = []
        if v.k == "discr":
            return self.switch_variant(fn, st, v, t)
        if v.k in ("bool", "is", "not", "has") or (v.k == "bin" and v.a[0] in ("Eq", "Lt", "BitAnd", "BitOr") and self.isbool(fn, t)) \
                or self.isbool(fn, t):
            v = models.tobool(v)
            zero = None
            for val, to in t["v"]:
                if val == 0:
                    zero = to
            if zero is not None:
                for s in self.assume(st.copy(), v, False):
                    out.append((zero, s, None))
                for s in self.assume(st, v, True):
                    out.append((t["o"], s, None))
                return out
            for s in self.assume(st.copy(), v, True):
                out.append((t["v"][0][1], s, None))
            for s in self.assume(st, v, False):
                out.append((t["o"], s, None))
            return out
        # integers and characters
        ty = self.opty(fn, t["d"])
        cs = []
        for val, to in t["v"]:
            c = mk("str", chr(val)) if ty == "char" else mk("int", val)
            cs.append(c)
            for s in self.assume(st.copy(), models.eq(v, c), True):
                out.append((to, s, None))
        ss = [st]
        for c in cs:
            ss = [s2 for s in ss for s2 in self.assume(s, models.eq(v, c), False)]
        return out + [(t["o"], s, None) for s in ss]

    def opty(self, fn, o):
        p = o.get("c") or o.get("m")
        if p and len(p) == 1:
            return self.prog.types[fn.crate][fn.locals[p[0]][0]]["s"]
        return None

    def isbool(self, fn, t):
        return t.get("b") or self.opty(fn, t["d"]) == "bool"

    def switch_variant(self, fn, st, v, t):
        val, crate, tyi = v.a
        ty = self.prog.types[crate][tyi]
        out = []
        if ty.get("k") == "adt" and self.prog.adts.get(ty.get("path")):
            adt = self.prog.adts[ty["path"]]
            names = {x["discr"]: x["name"] for x in adt["variants"]}
            seen = []
            for n, to in t["v"]:
                nm = names.get(n, str(n))
                seen.append(nm)
                s = st.copy()
                if self.assume_variant(s, val, nm):
                    out.append((to, s, None))
            rest = [x["name"] for x in adt["variants"] if x["name"] not in seen]
            if fn.blocks[t["o"]]["t"]["t"] != "unreachable" or fn.blocks[t["o"]]["s"]:
                if len(rest) == 1:
                    if self.assume_variant(st, val, rest[0]):
                        out.append((t["o"], st, None))
                elif rest:
                    if self.exclude_variants(st, val, set(seen)):
                        out.append((t["o"], st, None))
            return out
        # a coroutine
        d = self.proj(st, val, ("f", "#d"))
        cur = int(d.a[0]) if d.k == "str" and d.a[0].isdigit() else 0
        for n, to in t["v"]:
            if n == cur:
                return [(to, st, None)]
        return [(t["o"], st, None)]

    def drop(self, fn, fid, b, st, t):
        ty = self.prog.types[fn.crate][t["ty"]]
        cell, path = self.loc(st, fid, t["p"])
        v = self.loadloc(st, cell, path) if (cell in st.s or cell[0] == "h") else None
        if v is not None:
            self.rule.on_drop(self, st, v, ty, "%s (%s)" % (t.get("sp"), fn.path.replace("dump_syms::", "")), fn)
            p = ty.get("path")
            if p and p.startswith("dump_syms::"):
                d = self.prog.fns.get("<%s as core::ops::drop::Drop>::drop" % p)
                if d is not None and d.path not in self.chain(fid):
                    return [(t["to"], s, None) for s, _ in
                            self.run(d, [mk("ref", cell, path, True)], st, fid, b)]
        if cell == (fid, t["p"][0]) and not path:
            st.s.pop(cell, None)
        return [(t["to"], st, None)]

    # ---------------------------------------------------------------- calls
    def call(self, fn, fid, b, st, t):
        f = self.operand(st, fn, fid, t["f"])
        raw = [self.operand(st, fn, fid, o) for o in t["a"]]
        out = []
        to = t.get("to")
        ev = Ev()
        ev.fid, ev.bb, ev.fn, ev.sp = fid, b, fn, t.get("sp")
        ev.rt = self.prog.types[fn.crate][t["rt"]] if "rt" in t else {"s": "?", "k": "other"}
        ev.optys = []
        for o in t["a"]:
            p = o.get("c") or o.get("m")
            if p and len(p) == 1:
                ev.optys.append(self.prog.types[fn.crate][fn.locals[p[0]][0]])
            elif "k" in o:
                ev.optys.append(self.prog.types[fn.crate][o["k"]["t"]])
            else:
                ev.optys.append(None)
        # the values of the dead locals of this frame are not needed in the callee
        for s, v in self.dispatch(st, f, raw, ev):
            if to is None:
                continue
            p = t["d"]
            if len(p) == 1:
                s.s[(fid, p[0])] = v
            else:
                cell, path = self.loc(s, fid, p)
                self.rule.on_write(self, s, cell, path, v, "%s (%s)" % (t.get("sp"), fn.path.replace("dump_syms::", "")), fn)
                self.storeloc(s, cell, path, v)
            out.append((to, s, None))
        if len(out) > 6:
            # many alternatives: join those which look the same
            tab = {}
            for _, s, _ in out:
                self.arrive(tab, b, s, fid, (fid, b, "c"), ())
            out = [(to, s.copy(), None) for s in tab[b].values()]
        return out

    def dispatch(self, st, f, raw, ev):
        """Calls the value f on the raw arguments."""
        ev.raw = raw
        if f.k == "ref":
            f = self.load(st, f)
        if f.k == "fn":
            path, decl = f.a[0], f.a[1]
            ev.path, ev.decl = path, decl
            ev.name = models.name_of(decl)
            ev.targs = [self.prog.types[f.a[2]][i] for i in f.a[3]]
            return self.call_path(st, ev)
        if f.k == "agg" and f.a[0].startswith("closure:"):
            return self.call_closure(st, f, raw, ev)
        ev.path = ev.decl = "<indirect>"
        ev.name = "<indirect>"
        ev.targs = []
        return self.external(st, ev)

    def call_path(self, st, ev):
        path = ev.path
        fn = self.prog.fns.get(path)
        raw = ev.raw
        if fn is not None:
            if fn.kind in ("Closure",) or "{closure#" in path.rsplit("::", 1)[-1]:
                # closure called with its arguments in a tuple
                if len(raw) == 2 and fn.argc != 2 or (len(raw) == 2 and raw[1].k == "agg" and raw[1].a[0] == "()"):
                    a = raw[1]
                    n = fn.argc - 1
                    raw = [raw[0]] + [self.proj(st, a, ("f", str(i))) for i in range(n)]
            return self.call_local(st, fn, raw, ev)
        # constructors used as functions
        par, _, last = path.rpartition("::")
        adt = self.prog.adts.get(par)
        if adt and adt["kind"] == "enum":
            for v in adt["variants"]:
                if v["name"] == last and len(v["fields"]) == len(raw):
                    names = tuple(x["name"] for x in v["fields"])
                    self.rule.on_agg(self, st, par, last, names, tuple(raw), ev.site(), ev.fn, ev.fid)
                    return [(st, models.agg(par, last, names, tuple(raw)))]
        adt = self.prog.adts.get(path)
        if adt and adt["kind"] == "struct" and len(adt["variants"][0]["fields"]) == len(raw):
            names = tuple(x["name"] for x in adt["variants"][0]["fields"])
            return [(st, models.agg(path, last, names, tuple(raw)))]
        return self.external(st, ev)

    def call_local(self, st, fn, raw, ev):
        ev.args = [self.resolve(st, a) for a in raw]
        ev.raw = raw
        r = self.rule.on_call(self, st, ev)
        if r is not None:
            return r
        if fn.path.endswith(" as core::clone::Clone>::clone") and self.plain_clone(fn):
            return [(st, ev.args[0])]
        ch = self.chain(ev.fid)
        if fn.path in ch or len(ch) > MAXDEPTH or not self.rule.inline(fn.path):
            return self.opaque(st, ev)
        self.calls_seen.add((ev.fn.path, ev.bb, fn.path))
        # locals of the caller that are dead after the call don't matter in the callee
        live, live_out, taken, flags = ev.fn.live_in
        if isinstance(ev.bb, int):
            lo = live_out[ev.bb]
            for c in [c for c in st.s if c[0] == ev.fid and isinstance(c[1], int) and c[1] >= 0 and c[1] not in lo and c[1] not in taken]:
                del st.s[c]
        out = self.run(fn, raw, st, ev.fid, ev.bb)
        r = []
        for s, v in out:
            v2 = self.rule.on_return(self, s, fn, v, ev)
            r.append((s, v if v2 is None else v2))
        return r

    tag = None
    clones = {}

    def plain_clone(self, fn):
        """Is this implementation of Clone a copy of every field (as a derived one)?"""
        r = Interp.clones.get(fn)
        if r is None:
            Interp.clones[fn] = False
            I = Interp(self.prog, models.QuietRule())
            x = mk("arg", fn.path, "self")
            r = True
            res = I.root(fn.path, [x])
            for s, v in res:
                v = I.resolve(s, v)
                if v is x or v.k == "phi":
                    r = r and (v is x or all(o is x for o in I.phi_ops.get(v, ())))
                elif v.k == "agg":
                    en = self.prog.adts.get(v.a[0], {"kind": "struct"})["kind"] == "enum"
                    r = r and all(y is (models.pay(x, v.a[1], n) if en else models.fld(x, n)) for n, y in zip(v.a[2], v.a[3]))
                else:
                    r = False
            Interp.clones[fn] = r = bool(r and res)
        return r

    def call_closure(self, st, clo, args, ev, tag=""):
        """Calls a closure value (or a function item) on the arguments."""
        n = 0
        while clo.k in ("ref",):
            clo = self.load(st, clo)
            n += 1
            if n > 10:
                break
        while clo.k == "agg" and clo.a[0].endswith("::AssertUnwindSafe"):
            clo = clo.a[3][0]
        ev2 = Ev()
        for x in ("fid", "fn", "sp", "rt"):
            setattr(ev2, x, getattr(ev, x))
        ev2.bb = (ev.bb, tag) if tag else ev.bb
        ev2.optys = [None] * len(args)
        ev2.targs = []
        if clo.k == "fn":
            ev2.raw = list(args)
            ev2.path, ev2.decl = clo.a[0], clo.a[1]
            ev2.name = models.name_of(ev2.decl)
            ev2.targs = [self.prog.types[clo.a[2]][i] for i in clo.a[3]]
            ev2.rt = {"s": "?", "k": "other"}
            return self.call_path(st, ev2)
        if clo.k == "agg" and clo.a[0].startswith("closure:"):
            path = clo.a[0][8:]
            fn = self.prog.fns.get(path)
            if fn is not None:
                cell = (ev.fid, "clo:" + path + str(ev2.bb))
                # by reference or by value: the environment lives in a cell of its own
                envty = self.prog.types[fn.crate][fn.locals[1][0]]
                ev2.path = ev2.decl = path
                ev2.name = "closure"
                ev2.raw = [clo] + list(args)
                if envty.get("k") == "ref":
                    st.s[cell] = clo
                    env = mk("ref", cell, (), True)
                else:
                    env = clo
                if len(args) != fn.argc - 1:
                    if len(args) == 1 and args[0].k == "agg" and args[0].a[0] == "()":
                        args = args[0].a[3]
                    args = (list(args) + [mk("hv", ev.point, i) for i in range(fn.argc - 1 - len(args))])[:fn.argc - 1]
                res = self.call_local(st, fn, [env] + list(args), ev2)
                for s, v in res:
                    s.s.pop(cell, None)
                return res
        ev2.raw = [clo] + list(args)
        ev2.args = [self.resolve(st, a) for a in ev2.raw]
        return [(st, mk("call", "apply", tuple(ev2.args)))]

    def mutlocs(self, st, ev):
        """(position, cell, path) of the arguments the callee may write through."""
        out = []
        for i, a in enumerate(ev.raw):
            if a.k == "ref" and a.a[2]:
                out.append((i, a.a[0], a.a[1]))
            elif a.k != "ref" and i < len(ev.optys) and ev.optys[i] and ev.optys[i].get("k") == "ref" and ev.optys[i].get("mut"):
                out.append((i,) + self.deref_loc(st, a))
        return out

    def opaque(self, st, ev):
        """A call that isn't followed: a pure function of its arguments, unless the rule says otherwise."""
        ev.args = [self.resolve(st, a) for a in ev.raw]
        args = tuple(ev.args)
        for i, cell, path in self.mutlocs(st, ev):
            n = mk("upd", "", ev.path, args, i)
            self.rule.on_mutate(self, st, cell, path, n, ev)
            self.storeloc(st, cell, path, n)
        return [(st, mk("call", ev.path, args))]

    def external(self, st, ev):
        ev.args = [self.resolve(st, a) for a in ev.raw]
        r = self.rule.on_call(self, st, ev)
        if r is not None:
            return r
        m = models.find(ev)
        if m is not None:
            r = m(self, st, ev)
            if r is not None:
                return r
        return self.default_ext(st, ev)

    def default_ext(self, st, ev):
        """An external function without a model: it runs the closures it is given zero or one time."""
        states = [st]
        for i, a in enumerate(ev.raw):
            v = a
            n = 0
            while v.k == "ref" and n < 10:
                v = self.load(st, v)
                n += 1
            if v.k == "agg" and v.a[0].startswith("closure:") or (v.k == "fn" and v.a[0] in self.prog.fns):
                nxt = []
                for s in states:
                    nxt.append(s.copy())
                    fnp = v.a[0][8:] if v.k == "agg" else v.a[0]
                    g = self.prog.fns.get(fnp)
                    na = g.argc - (1 if v.k == "agg" else 0) if g else 1
                    for s2, _ in self.call_closure(s, v, [mk("hv", ev.point, "%s.%d" % (i, j)) for j in range(na)], ev, "hof%d" % i):
                        nxt.append(s2)
                states = nxt
        out = []
        impure = models.impure(ev)
        for s in states:
            args = tuple(self.resolve(s, a) for a in ev.raw) if len(states) > 1 else tuple(ev.args)
            if impure:
                self.stale(s, ev.point)
                ret = mk("site", ev.point, ev.decl, args)
            elif models.fresh(ev):
                self.stale(s, ev.point)
                ret = mk("new", ev.point, ev.decl if not ev.targs or ev.name != "Default::default" else "%s<%s>" % (ev.decl, ev.targs[0]["s"]))
            else:
                ret = mk("call", models.canon(ev), args)
            for i, cell, path in self.mutlocs(s, ev):
                n = mk("upd", ev.point if impure else "", ev.decl, args, i)
                self.rule.on_mutate(self, s, cell, path, n, ev)
                self.storeloc(s, cell, path, n)
            out.append((s, ret))
        return out

    # ---------------------------------------------------------------- entry points
    def root(self, path, args=None, st=None):
        fn = self.prog.fns[path]
        analyse_fn(fn)
        st = st or State()
        st.a = self.rule.initial()
        if args is None:
            args = []
            for i in range(1, fn.argc + 1):
                args.append(mk("arg", path, fn.locals[i][1] or str(i)))
        res = self.run(fn, args, st, 0, path)
        for s, v in res:
            self.rule.on_exit(self, s, fn, v)
        return res

    # provenance: everything that may flow in a term, through the phis
    def sources(self, t, limit=4000):
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > limit:
                break
            if x.k == "phi":
                stack.extend(self.phi_ops.get(x, ()))
            stack.extend(kids(x))
        return seen

    def alts(self, t):
        """The values a term may stand for, through the joins at its head."""
        seen, stack, out = set(), [t], []
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "phi" and x in self.phi_ops:
                stack.extend(self.phi_ops[x])
            else:
                out.append(x)
        return out
