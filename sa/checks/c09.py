"""Inline origin ids always designate the right INLINE_ORIGIN record, and inline records the right call."""
from checklib import *
from checks import ids, emit, c07, c08, c10
from checks.ids import D, uncast, field_of, is_len, len_of

ASSUMPTIONS = ["the numbers fit in 32 bits", "symbolic gives the inlinees of a function with their own name and lines"]


class GetId(ids.Intern):
    opaque = ("InlineOrigins::demangle_and_sanitize",)
    lists = ("demangled_names",)

    def __init__(self, rep):
        super().__init__(rep)
        self.maps = {"index_for_mangled_name": self.by_name}

    def by_name(self, I, st, k):
        return k.k == "arg" and k.a[1] == "name"

    def good(self, I, st, v):
        return any(x.k == "arg" and x.a[1] == "name" for x in subterms(v))


def counting(t):
    """A range of numbers, which is no list of names."""
    return t.k == "agg" and t.a[0].startswith("core::ops::range") or t.k == "range"


class MergeLists(CRule):
    """Automaton: what happened to the list of the left file: ("left", term) / pushes of a loop."""

    def initial(self):
        return ()

    def isarg(self, t, n):
        return t.k == "arg" and t.a[1] == n

    def on_elem(self, I, st, ev, it, v):
        if not counting(it.a[0]) and any(self.isarg(x, "right") for x in subterms(it.a[0])):
            bad = [k for k, _ in it.a[2] if k not in ("map", "enumerate", "swap", "inspect")]
            self.rep.ob("merge", ev.site() + " all", not bad, "all the names are kept%s" % "".join(" " + b for b in bad))
            self.finish(st, ev.site())
            st.a = st.a + (("elem", v),)

    def on_end(self, I, st, ev, it):
        if not counting(it.a[0]) and any(self.isarg(x, "right") for x in subterms(it.a[0])):
            self.finish(st, ev.site())
            st.a = st.a + (("all",),)

    def finish(self, st, site):
        """One turn of a loop over the names: the number is the length before the addition."""
        if st.a and st.a[-1][0] != "all" and any(e[0] == "elem" for e in st.a):
            i = max(i for i, e in enumerate(st.a) if e[0] == "elem")
            evs = st.a[i + 1:]
            name = st.a[i][1]
            add = [e for e in evs if e[0] == "add"]
            num = [e for e in evs if e[0] == "num"]
            okk = len(add) == len(num) == 1 and add[0][2] is name and is_len(num[0][1]) and len_of(num[0][1]) is add[0][1]
            self.rep.ob("merge", site + " turn", okk, "each name is added, and its number is the length before it: %s" % [show(x)[:60] for e in evs for x in e[1:]])
            st.a = st.a[:i] + (("turn",),) if not any(e == ("turn",) for e in st.a[:i]) else st.a[:i]

    def on_mutate(self, I, st, cell, path, v, ev):
        if v.k != "upd":
            return
        n = short(v.a[1])
        if n.endswith(("reserve", "shrink_to_fit", "reserve_exact")):
            return
        if n in ("Vec::push", "Vec::extend", "Extend::extend", "Vec::append"):
            L, x = I.resolve(st, v.a[2][0]), I.resolve(st, v.a[2][1])
            if n == "Vec::push" and any(e[0] == "elem" for e in st.a):
                if uncast(x) is not x or is_len(x):
                    st.a = st.a + (("num", uncast(x)),)
                else:
                    st.a = st.a + (("add", L, x),)
            elif self.leftish(I, L):
                st.a = st.a + (("app", L, x),)
        elif self.leftish(I, I.resolve(st, v.a[2][0])):
            self.rep.ob("merge", ev.site() + " " + n, False, "the names keep their places: %s" % n)

    def leftish(self, I, t):
        return any(self.isarg(x, "left") for x in I.sources(t))

    def on_write(self, I, st, cell, path, v, site, fn):
        if cell[0] == "h" and self.isarg(cell[1], "left") and not path:
            st.a = st.a + (("set", I.resolve(st, v)),)

    def allright(self, t):
        """The names of the right list, all of them in their order."""
        if self.isarg(t, "right"):
            return True
        if t.k in ("coll", "iter") and not (t.a[2] if t.k == "iter" else t.a[1]):
            return self.allright(t.a[0])
        return False

    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        lf = None
        for t, x in st.f.items():
            pass
        empty = {w: self.known_empty(st, w) for w in ("left", "right")}
        evs = [e for e in st.a if e[0] in ("app", "set")]
        key = "exit of merge_inline_origins "
        if any(e[0] in ("turn", "all", "elem") for e in st.a):
            self.rep.ob("merge", key + "loop", not evs and st.a[-1] == ("all",), "all the names were added, one by one")
            return
        if not evs:
            self.rep.ob("merge", key + "nothing", empty["right"] is True, "the names stay as they are only if there is no other one")
            return
        self.rep.ob("merge", key + "once", len(evs) == 1, "the names are added once")
        e = evs[0]
        x = e[-1]
        self.rep.ob("merge", key + e[0], self.allright(x) and (e[0] == "app" or empty["left"] is True),
                    "all the names of the other file are %s: %s" % ("added" if e[0] == "app" else "taken over, there is no other one", show(x)[:100]))
        a, b = self.range(v)
        if a is None:
            self.rep.ob("merge", key + "numbers", False, "the new numbers are a range: %s" % show(v)[:140])
            return
        left = e[1] if e[0] == "app" else None
        rl = models.length(self.right(st))

        def isl(t):
            t = uncast(t)
            return left is not None and is_len(t) and len_of(t) is left
        def isr(t):
            t = uncast(t)
            return is_len(t) and self.isarg(len_of(t), "right")
        zero = a.k == "int" and a.a[0] == 0
        start = isl(a) or zero and (e[0] == "set" or empty["left"] is True)
        if zero:
            end = isr(b) or is_len(uncast(b)) and self.allright(len_of(uncast(b)))
        else:
            t = uncast(b)
            end = t.k == "bin" and t.a[0] == "Add" and (isl(t.a[1]) and isr(t.a[2]) or isl(t.a[2]) and isr(t.a[1]))
            end = end or is_len(t) and len_of(t).k == "upd" and len_of(t).a[2][0] is left
        self.rep.ob("merge", key + e[0] + " numbers", start and end, "the new numbers are the places of the added names: %s to %s" % (show(a)[:80], show(b)[:80]))

    def right(self, st):
        return mk("arg", "?", "right")

    def range(self, v):
        t = v
        # the numbers of a range, each moved by the same amount
        if v.k == "coll" and len(v.a[1]) == 1 and v.a[0].k == "iter" and [k for k, _ in v.a[0].a[2]] == ["map"]:
            a, b = self.range(v.a[0].a[0])
            x = uncast(v.a[1][0])
            if a is not None and x.k == "bin" and x.a[0] == "Add":
                for o, e in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                    if uncast(e).k == "elem" and uncast(e).a[1] is v.a[0].a[0] and not any(y.k == "elem" for y in subterms(o)):
                        return models.binop("Add", o, a), models.binop("Add", o, b)
            return None, None
        while t.k == "coll":
            if t.a[1]:
                return None, None
            t = t.a[0]
        if t.k == "iter":
            if t.a[2]:
                return None, None
            t = t.a[0]
        if t.k == "agg" and t.a[0].endswith("::Range"):
            f = dict(zip(t.a[2], t.a[3]))
            return f.get("start"), f.get("end")
        if t.k == "range":
            return t.a[0], t.a[1]
        return None, None

    def known_empty(self, st, who):
        for t, v in st.f.items():
            if t.k == "bin" and t.a[0] == "Eq" and isinstance(v, bool):
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if x.k == "int" and x.a[0] == 0 and is_len(y) and self.isarg(len_of(y), who):
                        return v
        return None


class RemapInlines(c08.RemapInlines):
    field, arr = "inline_origin_id", "inline_origin_remapping"


class Collect(ids.Collect):
    """Which origin, address range and depth an inline record gets.
    Automaton: (inlined call not handled yet, its line not recorded yet, the call is known to have no line)."""

    def __init__(self, rep):
        super().__init__(rep)
        self.inl = []
        self.pairs = []

    def initial(self):
        return (None, None, False)

    def on_call(self, I, st, ev):
        n = ev.name
        if n in ("Lines::add_inline", "Collector::collect_function_with_inlines_recursive"):
            return ids.Collect.on_call(self, I, st, ev)
        return None

    def inline_(self, I, st, site, s, r):
        d = uncast(s["call_depth"])
        self.rep.ob("depth", site, d.k == "arg" and d.a[1] == "call_depth", "the record has the depth of this function: %s" % show(d)[:60])
        self.inl.append((I, site, s["inline_origin_id"], uncast(r["rva"]), uncast(r["len"])))

    def recurse(self, I, st, ev, a):
        fun, depth = a[0], a[-1]
        ops = depth.a[1:] if depth.k == "bin" and depth.a[0].startswith("Add") else depth.a[1] if depth.k == "call" and "_add" in short(depth.a[0]) else ()
        one = any(x.k == "arg" and x.a[1] == "call_depth" for x in ops) and any(x.k == "int" and x.a[0] == 1 for x in ops)
        self.rep.ob("depth", ev.site() + " recursion", one, "an inlined call is one deeper than its caller: %s" % show(depth)[:60])
        okk = fun.k == "elem" and self.inlinees(fun.a[1])
        self.rep.ob("depth", ev.site() + " callee", okk, "the calls inlined in an inlined function are recorded too: %s" % show(fun)[:60])
        if fun is st.a[0]:
            st.a = (None, st.a[1], False)

    def inlinees(self, t):
        return isinstance(t, T) and t.k == "fld" and t.a[1] == "inlinees" and t.a[0].k == "arg" and t.a[0].a[1] == "fun"

    def nested(self, t):
        return isinstance(t, T) and t.k == "fld" and t.a[1] == "lines" and t.a[0].k == "elem" and self.inlinees(t.a[0].a[1])

    def on_next(self, I, st, ev, it):
        if self.inlinees(it.a[0]) and st.a[0] is not None:
            self.rep.ob("origin", ev.site() + " followed", st.a[2], "an inlined call is left out only if it has no line")
        if self.nested(it.a[0]) and not it.a[2]:
            self.rep.ob("origin", ev.site() + " lines", st.a[1] is None, "the addresses of each line of an inlined call are recorded")

    def on_elem(self, I, st, ev, it, v):
        if self.inlinees(it.a[0]):
            self.rep.ob("origin", ev.site() + " all", all(k in ("filter", "inspect") for k, _ in it.a[2]), "all the inlined calls are considered")
            st.a = (v, st.a[1], False)
        if self.nested(it.a[0]):
            bad = [k for k, _ in it.a[2] if k not in ("map", "inspect")]
            self.rep.ob("origin", ev.site() + " each", not bad, "all the lines of an inlined call are considered%s" % "".join(" " + b for b in bad))
            if it.a[2]:
                self.pairs.append((I, ev.site(), v))
            else:
                st.a = (st.a[0], v, st.a[2])

    def on_skip(self, I, st, ev, it):
        if self.inlinees(it.a[0]):
            self.rep.ob("origin", ev.site() + " followed", st.a[2] or any(self.noline(t) and v is True for t, v in st.f.items()), "an inlined call is left out only if it has no line")

    def on_end(self, I, st, ev, it):
        if self.inlinees(it.a[0]):
            if st.a[0] is not None:
                self.rep.ob("origin", ev.site() + " followed", st.a[2], "an inlined call is left out only if it has no line")
            st.a = (None, st.a[1], False)
        if self.nested(it.a[0]) and not it.a[2]:
            self.rep.ob("origin", ev.site() + " lines", st.a[1] is None, "the addresses of each line of an inlined call are recorded")
            st.a = (st.a[0], None, st.a[2])

    def noline(self, t):
        return t.k == "bin" and t.a[0] == "Eq" and any(x.k == "int" and x.a[0] == 0 and is_len(y) and len_of(y).k == "fld" and len_of(y).a[1] == "lines"
                                                       for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])))

    def on_fact(self, I, st, t, v):
        if v is True and self.noline(t):
            st.a = (st.a[0], st.a[1], True)

    def on_mutate(self, I, st, cell, path, v, ev):
        if v.k == "upd" and short(v.a[1]) == "Vec::push":
            x = I.resolve(st, v.a[2][1])
            self.pairs.append((I, ev.site(), x))
            if st.a[1] is not None and x.k == "agg" and x.a[0] == "()" and any(y is st.a[1] for y in subterms(x)):
                st.a = (st.a[0], None, st.a[2])

    def pair(self, I, site, x):
        if not (x.k == "agg" and x.a[0] == "()" and len(x.a[3]) == 2):
            return False, "a range of addresses and the number of the function: %s" % show(x)[:100]
        rng, o = x.a[3]
        if not (rng.k == "agg" and rng.a[0].endswith("::Range")):
            return False, "a range of addresses: %s" % show(rng)[:100]
        f = dict(zip(rng.a[2], rng.a[3]))
        s, e = f["start"], f["end"]
        line = s.a[0] if s.k == "fld" and s.a[1] == "address" else None
        if line is None or not (line.k == "elem" and self.nested(line.a[1])):
            return False, "the range starts at the address of a line of the inlined call: %s" % show(s)[:100]
        parts = {y.a[1] for y in subterms(e) if y.k == "fld" and y.a[0] is line}
        if parts != {"address", "size"}:
            return False, "the range ends with that line: %s" % show(e)[:100]
        call = line.a[1].a[0]
        for a, old in fresh_alts(I, o):
            n = cargs(a)[1] if is_call(a, "InlineOrigins::get_id") else None
            if n is None or old or not (n.k == "fld" and n.a[1] == "name" and n.a[0] is call):
                return False, "the number is that of the name of the inlined call: %s" % show(a)[:100]
        return True, "a range of an inlined call goes with the number of its name"

    def after(self):
        for I, site, x in self.pairs:
            okk, why = self.pair(I, site, x)
            self.rep.ob("origin", site + " pair", okk, why)
        for I, site, o, a, l in self.inl:
            x = o.a[0] if o.k == "fld" and o.a[1] == "1" else None
            okk = x is not None
            if okk:
                r = models.fld(x, "0")
                s, e = models.fld(r, "start"), models.fld(r, "end")
                okk = a is s and l.k == "bin" and l.a[0] == "Sub" and l.a[1] is e and l.a[2] is s
            self.rep.ob("origin", site, okk, "the record has the addresses and the number of one and the same inlined call: %s, %s, %s" % (show(o)[:50], show(a)[:50], show(l)[:80]))
            if okk:
                for y in I.alts(x):
                    src = y.a[1] if y.k == "elem" else None
                    good = src is not None and all(self.list_(I, z) for z in I.alts(src))
                    self.rep.ob("origin", site + " from", good, "the record comes from the list of the inlined calls: %s" % show(y)[:100])

    def list_(self, I, z):
        while z.k in ("sorted", "coll") or z.k == "iter" and not z.a[2]:
            z = z.a[0]
        return all(w.k == "new" or w.k == "upd" and short(w.a[1]) in ("Vec::push", "Vec::extend", "Extend::extend") for w in I.alts(z))


class Top(CRule):
    opaque = ("Collector::collect_function_with_inlines_recursive", "Collector::collect_function_without_inlines", "Collector::demangle", "Lines::finalize")

    def on_call(self, I, st, ev):
        if ev.name == "Collector::collect_function_with_inlines_recursive":
            a = [I.resolve(st, x) for x in ev.args]
            self.rep.ob("depth", ev.site() + " top", a[-1].k == "int" and a[-1].a[0] == 0, "the calls inlined in the function itself have depth 0: %s" % show(a[-1])[:60])
        return None


class Merge(ids.Merge):
    kinds = ("inlines",)

    def remap_args(self, I, st, ev, k):
        if k != "inlines":
            return
        a = I.resolve(st, ev.args[2])
        okk = is_call(a, "inline_origins::merge_inline_origins")
        if okk:
            l, r = cargs(a)
            okk = field_of(l) == "inline_origins" and field_of(r) == "inline_origins" and l is not r
        self.rep.ob("remap", ev.site() + " origins", okk, "the new numbers are those given by the merge of the tables: %s" % show(a)[:120])

    def on_exit(self, I, st, fn, v):
        s = st.copy()
        if not I.assume_variant(s, v, "Ok"):
            return
        x = v.a[3][0] if v.k == "agg" else models.pay(v, "Ok", "0")
        f = I.resolve(s, I.proj(s, x, ("f", "inline_origins")))
        al = I.alts(f) if f.k != "fld" else [b for a in I.alts(x) if not (a.k == "agg" and a.a[1] == "Err") for b in I.alts(I.resolve(s, I.proj(s, a, ("f", "inline_origins"))))]
        self.rep.ob("remap", "exit of merge", all(a.k == "upd" and "merge_inline_origins" in a.a[1] and a.a[3] == 0 for a in al), "the table of the result is the merged one: %s" % show(f)[:120])


class Build(c08.Build):
    field, fun = "inline_origins", "InlineOrigins::get_list"


class List(CRule):
    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        self.rep.ob("build", "exit of get_list", v.k == "fld" and v.a[1] == "demangled_names" and v.a[0].k == "arg", "the table is kept as it is: %s" % show(v)[:80])


class Quiet(c10.Quiet):
    def ob(self, rid, site, ok_, text, key=None):
        if rid in ("number", "every") or rid == "field" and any(k in site for k in ("INLINE field 2", "INLINE field 5", "INLINE_ORIGIN")):
            return self.rep.ob("written", site, ok_, text, key)


def check(ctx):
    rep = ctx.rep
    rep.rule("number", "a function name gets the number it already has, or the position where it is added")
    rep.rule("table", "the numbers are remembered under the name they belong to, and the table only grows")
    rep.rule("merge", "in a merge the names of the other file keep their order and get the numbers of their new places")
    rep.rule("renumber", "every inline record is renumbered with the remapping")
    rep.rule("remap", "the functions of the other file are renumbered before they join the table, with the remapping of the tables")
    rep.rule("build", "the table of the module is the one filled by the collection")
    rep.rule("written", "INLINE_ORIGIN records are numbered by their position and the INLINE records hold the numbers")
    rep.rule("depth", "the depth of a record is the number of the calls it is inlined in")
    rep.rule("origin", "an inline record names the function whose lines cover its addresses")
    run(ctx, GetId(rep), D + "inline_origins::InlineOrigins::get_id")
    run(ctx, MergeLists(rep), D + "inline_origins::merge_inline_origins")
    r = Collect(rep)
    run(ctx, r, ids.collect_roots()[1])
    r.after()
    sites = r.sites
    for c in all_calls(ctx.prog):
        if c.path == D + "line::Lines::add_inline":
            rep.ob("origin", "%s (%s) known" % (c.sp, c.fn.path.replace(D, "")), (c.fn.path, c.sp) in sites, "the record is added where its numbers are known")
    run(ctx, Top(rep), D + "collector::Collector::collect_function")
    run(ctx, RemapInlines(rep), D + "symbol::Symbol::remap_inlines")
    ids.merge_root(ctx, Merge(rep))
    run(ctx, Build(rep), D + "object_info::ObjectInfo::from_object")
    run(ctx, List(rep), D + "inline_origins::InlineOrigins::get_list")
    r = c07.R(Quiet(rep))
    run(ctx, r, DISPLAY)
    r.after(())
    rep.floor("number", 3, "exits of the numbering function")
    rep.floor("merge", 2, "merge of the tables")
    rep.floor("renumber", 3, "renumbering")
    rep.floor("remap", 4, "additions of the symbols of the other file")
    rep.floor("written", 3, "numbers written")
    rep.floor("build", 1, "tables")
    rep.floor("depth", 2, "depths")
    rep.floor("origin", 6, "origins")
