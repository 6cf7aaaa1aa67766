"""Where a text is cut: positions of the cuts relative to the bytes around them."""
from checklib import *


def after1(t, e):
    """t is e + 1."""
    return t.k == "bin" and t.a[0] == "Add" and e in t.a[1:] and any(x.k == "int" and str(x.a[0]) == "1" for x in t.a[1:])


def before1(t):
    """x if t is x + 1."""
    if t.k == "bin" and t.a[0] == "Add":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if y.k == "int" and str(y.a[0]) == "1":
                return x
    return None


def code(v):
    if hasattr(v, "k") and v.k in ("int", "char", "str"):
        v = v.a[0]
        if isinstance(v, str) and v.isdigit():
            v = int(v)
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return v
    if isinstance(v, str) and len(v) == 1:
        return ord(v)
    return None


class Cuts:
    """Mixin: what is known of the byte at a position when the position is kept for later."""

    def cuts(self):
        if not hasattr(self, "_cuts"):
            self._cuts = {}
        return self._cuts

    def byte_at(self, st, v):
        if v.k == "elem" and v.a[2] == "#":
            return code(st.f.get(mk("elem", v.a[0], v.a[1], "")))
        for t, w in st.f.items():
            if t.k == "idx" and t.a[1] is v:
                c = code(w)
                if c is not None:
                    return c
        return None

    def place(self, st, v):
        """(at|after, byte) of a position, from what is known now."""
        b = self.byte_at(st, v)
        if b is not None:
            return "at", b
        x = before1(v)
        if x is not None:
            b = self.byte_at(st, x)
            if b is not None:
                return "after", b
        return None

    def on_arrive(self, I, st, fid, point):
        d = self.cuts()
        for c, v in st.s.items():
            if v.k == "elem" or v.k == "bin" and v.a[0] == "Add":
                d.setdefault((c, v), set()).add(self.place(st, v))

    def places(self, I, t, here=None):
        """All places a position can be: zero, len, (at|after, byte); None among them if one isn't known."""
        out, seen, stack = set(), set(), [(None, t)]
        d = self.cuts()
        while stack:
            c, x = stack.pop()
            if (c, x) in seen:
                continue
            seen.add((c, x))
            if c is None and here is not None:
                out.add(here)
                continue
            if x.k == "int" and str(x.a[0]) == "0":
                out.add("zero")
            elif is_call(x, "len"):
                out.add("len")
            elif (c, x) in d and None not in d[(c, x)]:
                out |= d[(c, x)]
            elif x.k == "phi" and x in I.phi_ops and x.a[2] == ():
                stack.extend((x.a[1], o) for o in I.phi_ops[x])
            else:
                out.add(None)
        return out
