"""Numbering of the source files and of the inline origins: shared by C08 and C09.

A table (list + maps) gives each object a number; the rule is the one of interning: the number returned is the one a map
holds for that very object, or the length of the list just before the object was added to it."""
from checklib import *
from checks import symmap

D = "dump_syms::"


def uncast(t):
    while t.k == "cast" or t.k == "call" and short(t.a[0]) in ("u32::from", "usize::from", "From::from", "Into::into") and len(t.a[1]) == 1:
        t = t.a[1] if t.k == "cast" else t.a[1][0]
    if t.k == "pay" and t.a[0].k == "call" and short(t.a[0].a[0]) in ("TryFrom::try_from", "TryInto::try_into"):
        return uncast(t.a[0].a[1][0])
    return t


def field_of(t):
    """Name of the field a term (the value of a table) comes from."""
    if t.k == "fld":
        return t.a[1]
    if t.k == "phi" and t.a[2] and isinstance(t.a[2][-1], str):
        return t.a[2][-1]
    if t.k == "phi" and t.a[2] and isinstance(t.a[2][-1], tuple):
        return t.a[2][-1][1]
    return None


def is_len(t):
    return t.k == "call" and t.a[0] == "len"


def len_of(t):
    return t.a[1][0]


class Intern(CRule):
    """Automaton: set of ("push", field, list before, value), ("map", field, key, value), ("set", path, value)."""
    lists = ()
    maps = {}

    def initial(self):
        return frozenset()

    def on_mutate(self, I, st, cell, path, v, ev):
        if path and path[-1][0] == "f" and path[-1][1] in self.lists and v.k == "upd":
            n = short(v.a[1])
            L, x = v.a[2][0], (v.a[2] + (None,))[1]
            if n == "Vec::push":
                st.a = st.a | {("push", path[-1][1], I.resolve(st, L), I.resolve(st, x))}
            elif n not in ("Vec::reserve", "Vec::shrink_to_fit"):
                self.rep.ob("table", ev.site() + " " + n, False, "the list is only ever added to: %s" % n)

    def on_write(self, I, st, cell, path, v, site, fn):
        names = [e[1] for e in path if e[0] == "f"]
        if path and path[-1][0] == "i" and len(path) > 1 and path[-2][0] == "f" and path[-2][1] in self.maps:
            st.a = st.a | {("map", path[-2][1], I.resolve(st, path[-1][1]), I.resolve(st, v))}
        elif any(e[0] == "f" and e[1] in self.maps or e[0] == "f" and e[1] in self.lists for e in path):
            self.other(I, st, path, I.resolve(st, v), site)

    def other(self, I, st, path, v, site):
        self.rep.ob("table", site, False, "the tables are only ever added to: %s is changed" % ".".join(str(e[1])[:20] for e in path))

    def good(self, I, st, v):
        """Is the value added to the list the right one?"""
        return False

    def stored(self, I, st, v):
        return False

    def number(self, I, st, v):
        v = uncast(v)
        if v.k == "idx":
            f = field_of(v.a[0])
            return f in self.maps and self.maps[f](I, st, I.resolve(st, v.a[1]))
        if is_len(v):
            L = len_of(v)
            return any(e[0] == "push" and e[2] is L and self.good(I, st, e[3]) for e in st.a)
        return self.stored(I, st, v)

    def on_exit(self, I, st, fn, v):
        name = fn.path.replace(D, "")
        pushes = [e for e in st.a if e[0] == "push"]
        v = I.resolve(st, v)
        al = I.alts(v)
        self.rep.ob("number", "exit of %s %s" % (name, "new" if pushes else "known"), all(self.number(I, st, a) for a in al), "the number is the one of this very object: %s" % show(v)[:150])
        if pushes:
            self.rep.ob("number", "exit of %s pushes" % name, len(pushes) == 1 and all(is_len(uncast(a)) for a in al), "one object is added, and its number is returned")
            known = [e for e in st.a if e[0] == "map"]
            self.rep.ob("table", "exit of %s recorded" % name, self.recorded(I, st, known), "the number of a new object is remembered")
        for e in st.a:
            if e[0] == "push":
                self.rep.ob("table", "exit of %s push" % name, self.good(I, st, e[3]), "what is added to the list is the object itself: %s" % show(e[3])[:150])
            if e[0] == "map":
                self.rep.ob("table", "exit of %s map %s" % (name, e[1]), self.maps[e[1]](I, st, e[2]) and all(self.number(I, st, a) for a in I.alts(e[3])),
                            "the number of this very object is remembered for it: %s -> %s" % (show(e[2])[:90], show(e[3])[:60]))

    def recorded(self, I, st, known):
        return bool(known)


class Collect(CRule):
    """The numbers given to the line and inline records. Automaton: (file number not used yet, source of the last file number)."""
    opaque = ("SourceFiles::get_id", "SourceFiles::get_true_id", "Lines::add_line", "Lines::add_inline", "InlineOrigins::get_id",
              "Collector::collect_function_with_inlines_recursive")

    def __init__(self, rep):
        super().__init__(rep)
        self.later = []
        self.excused = []
        self.sites = set()

    def initial(self):
        return (None, None)

    def on_call(self, I, st, ev):
        n = ev.name
        a = [I.resolve(st, x) for x in ev.args]
        if n == "SourceFiles::get_id":
            self.pending(st, ev.site())
            t = self.fileterm(I, st, ev, a)
            st.a = (t, a[2])
        elif n == "SourceFiles::get_true_id":
            if a[1] is st.a[0]:
                st.a = (None, st.a[1])
        elif n == "Lines::add_line":
            self.sites.add((ev.fn.path, ev.sp))
            self.line(I, st, ev.site(), a[2], a[3])
        elif n == "Lines::add_inline":
            self.sites.add((ev.fn.path, ev.sp))
            s, r = a[1], a[2]
            if s.k == "agg" and r.k == "agg":
                f, g = dict(zip(s.a[2], s.a[3])), dict(zip(r.a[2], r.a[3]))
                self.line(I, st, ev.site(), f["call_line_number"], f["call_file_id"])
                self.inline_(I, st, ev.site(), f, g)
            else:
                self.rep.ob("line", ev.site(), False, "the inline record is made of known parts: %s" % show(s)[:100])
        elif n == "Collector::collect_function_with_inlines_recursive":
            self.pending(st, ev.site())
            self.recurse(I, st, ev, a)
        return None

    def fileterm(self, I, st, ev, a):
        return None

    def pending(self, st, site):
        pass

    def line(self, I, st, site, num, fid):
        pass

    def inline_(self, I, st, site, site_, range_):
        pass

    def recurse(self, I, st, ev, a):
        pass


def collect_roots():
    return (D + "collector::Collector::collect_function_without_inlines", D + "collector::Collector::collect_function_with_inlines_recursive")


class Merge(symmap.Base):
    """The records of the other file get their new numbers before they join the table."""
    kinds = ()         # ("lines", "inlines")

    def __init__(self, rep):
        super().__init__(rep)
        self.name = "merge"

    def on_call(self, I, st, ev):
        n = ev.name
        if n in ("Symbol::remap_lines", "Symbol::remap_inlines"):
            k = n.rsplit("_", 1)[1]
            v = I.resolve(st, ev.args[0])
            own = [x for x in I.alts(v)]
            okk = all(strip_idx(self, I, x) for x in own)
            self.rep.ob("remap", ev.site() + " " + n, okk and not self.got(st, "remap", k), "the numbers of a symbol of the other file are changed, once: %s" % show(v)[:110])
            self.remap_args(I, st, ev, k)
            self.know(st, "remap", k)
        return None

    def remap_args(self, I, st, ev, k):
        pass

    def insert(self, I, st, key, v, site):
        if v.k == "agg":
            return
        pub = self.val3(st, "new", "is_public")
        if pub is True:
            self.rep.ob("remap", site, True, "a public symbol has no line")
            return
        for k in self.kinds:
            self.rep.ob("remap", site + " " + k, self.got(st, "remap", k), "the %s of the function have their new numbers" % k)


def strip_idx(self, I, t):
    while t.k == "upd" and "remap" in str(t.a[1]):
        t = t.a[2][0]
    if t.k == "phi":
        return all(strip_idx(self, I, x) for x in I.alts(t) if x is not t) and len(I.alts(t)) > 0 and I.alts(t) != [t]
    return t.k == "idx" and self.own(t.a[1], t.a[0])


def merge_root(ctx, r):
    r.opaque = ("SourceMap::merge", "inline_origins::merge_inline_origins", "Symbol::remap_lines", "Symbol::remap_inlines")
    r.source = lambda I, st, it: it.a[1] in ("map", "mapmut", "values", "valuesmut") and not symmap.is_range(it.a[0])
    return run(ctx, r, D + "object_info::ObjectInfo::merge")
