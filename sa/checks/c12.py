"""Line and inline ranges are sorted and sized before they are emitted."""
from checklib import *
from checks import symmap
from checks.ids import D, uncast, field_of, is_len, len_of

ASSUMPTIONS = ["slice::sort_by_key, Vec::dedup_by and slice::windows do what they document"]
LN = D + "line::Lines"


class Build(CRule):
    """The lines of a symbol are finished, for this very symbol."""
    opaque = ("Collector::collect_function_with_inlines_recursive", "Collector::collect_function_without_inlines", "Lines::finalize", "Lines::add_line",
              "Lines::add_inline", "SourceFiles::get_id", "SourceFiles::get_true_id", "InlineOrigins::get_id", "Collector::demangle")

    def __init__(self, rep):
        super().__init__(rep)
        self.later = []

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if adt == D + "symbol::Symbol":
            f = dict(zip(names, [I.resolve(st, v) for v in vals]))
            self.later.append((I, site, f["source"], f["rva"], f["len"]))

    def after(self):
        for I, site, s, rva, ln in self.later:
            for a in I.alts(s):
                self.one(I, site, a, rva, ln)

    def one(self, I, site, a, rva, ln):
        if a.k == "agg" or a.k in ("new", "call", "site") and not (a.k != "new" and a.a[0] and not short(a.a[0] if a.k == "call" else a.a[1]).endswith(("default", "Lines::new"))):
            f = dict(zip(a.a[2], a.a[3])) if a.k == "agg" else {}
            empty = all(f[n].k in ("new", "call", "site") for n in ("lines", "inlines")) if f else True
            self.rep.ob("finish", site + " empty", empty, "the symbol has no line: %s" % show(a)[:100])
            return
        if a.k == "upd" and short(a.a[1]) == "Lines::finalize" and a.a[3] == 0:
            r, l = uncast(a.a[2][1]), uncast(a.a[2][2])
            self.rep.ob("finish", site, r is uncast(rva) and l is uncast(ln), "the lines are finished with the address and the size of the symbol: %s, %s" % (show(r)[:40], show(l)[:40]))
            return
        self.rep.ob("finish", site, False, "the lines aren't finished after the last addition: %s" % show(a)[:100])


class Add(CRule):
    """The mark that the lines are in order is only kept when they are."""

    def sticky(self, t, v):
        return isinstance(v, bool)

    def on_exit(self, I, st, fn, v):
        me = None
        for c in st.s:
            if c[0] == "h" and c[1].k == "arg" and c[1].a[1] == "self":
                me = c
        if me is None:
            self.rep.ob("mark", "exit of add_line", False, "the line is recorded")
            return
        def now(n):
            return I.resolve(st, I.loadloc(st, me, (("f", n),)))
        old = lambda n: models.fld(me[1], n)
        m = now("are_lines_sorted")
        prev = I.known(st, old("are_lines_sorted"))
        vals = I.alts(m)
        L = now("lines")
        push = L.k == "upd" and short(L.a[1]) == "Vec::push" and L.a[2][0] is old("lines") and L.a[2][1].k == "agg"
        self.rep.ob("mark", "exit of add_line push", push, "one line is added at the end: %s" % show(L)[:100])
        rva = dict(zip(L.a[2][1].a[2], L.a[2][1].a[3]))["rva"] if push else None
        for x in vals:
            okk = x.k == "bool" and x.a[0] is False
            if not okk and x.k == "bool":
                okk = prev is True and self.infact(st, old, rva, push)
            elif not okk:
                okk = prev is True and self.ordered(x, old, rva, push) or x is old("are_lines_sorted") and (prev is False or self.infact(st, old, rva, push))
            if not okk and x.k == "bin" and x.a[0] == "BitAnd":
                okk = old("are_lines_sorted") in x.a[1:] and any(self.ordered(y, old, rva, push) for y in x.a[1:])
            self.rep.ob("mark", "exit of add_line", okk, "the lines are marked as being in order only if this one isn't before the previous one: %s (was %s)" % (show(x)[:80], prev))
        r = now("last_line_rva")
        self.rep.ob("mark", "exit of add_line last", push and (r is rva or self.biggest(r, rva, old("last_line_rva"))), "the address of the last line is remembered: %s" % show(r)[:60])

    def biggest(self, r, a, b):
        """The bigger one of the two: no line that is in order has a smaller address than it either."""
        ops = r.a if r.k == "max" else r.a[1] if r.k == "call" and short(r.a[0]).split("::")[-1] == "max" else ()
        return set(ops) == {a, b}

    def infact(self, st, old, rva, push):
        return any(self.ordered(t if v is True else mk("not", t), old, rva, push) for t, v in st.f.items() if isinstance(v, bool))

    def ordered(self, t, old, rva, push):
        """last address <= this one"""
        def last(x):
            return x is old("last_line_rva") or x.k == "fld" and x.a[1] == "rva" and any(y is old("lines") for y in subterms(x))
        if t.k == "not":
            u = t.a[0]
            return u.k == "bin" and (u.a[0] == "Lt" and u.a[1] is rva and last(u.a[2]) or u.a[0] == "Gt" and last(u.a[1]) and u.a[2] is rva)
        return t.k == "bin" and (t.a[0] in ("Le", "Lt") and last(t.a[1]) and t.a[2] is rva or t.a[0] in ("Ge", "Gt") and t.a[1] is rva and last(t.a[2]))


class New(CRule):
    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        f = dict(zip(v.a[2], v.a[3])) if v.k == "agg" else {}
        okk = f and f["lines"].k in ("new", "call") and f["inlines"].k in ("new", "call") and f["last_line_rva"].k == "int" and f["last_line_rva"].a[0] == 0
        self.rep.ob("mark", "exit of Lines::new", okk, "there is no line at first: %s" % show(v)[:120])


class Finalize(CRule):
    """Automaton: (lines in order: sorted or marked, lengths set, last length considered, ranges sorted, ranges merged, inlines done)."""

    def initial(self):
        return frozenset()

    def __init__(self, rep):
        super().__init__(rep)
        self.merged = 0
        self.lens = 0
        self.deferred = []

    def add(self, st, x):
        st.a = st.a | {x}

    def sticky(self, t, v):
        return field_of(t) == "are_lines_sorted" and isinstance(v, bool)

    def on_fact(self, I, st, t, v):
        if v is True and t.k == "fld" and t.a[1] == "are_lines_sorted":
            self.add(st, "order")
        if v is True and t.k == "bin" and t.a[0] == "Eq" and any(x.k == "int" and x.a[0] == 0 and is_len(y) and self.mine(len_of(y)) for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1]))):
            self.add(st, "noline")
        if self.beyond(t, v):
            self.add(st, "nolast")
        if v in ("None", False) and "split_last" in show(t)[:40] or v == "None" and t.k == "call" and short(t.a[0]).endswith(("last_mut", "last")):
            self.add(st, "noline")

    def beyond(self, t, v):
        """The last line is known not to start before the end of the function."""
        both = lambda x: {"sym_rva", "sym_len"} <= {y.a[1] for y in subterms(x) if y.k == "arg"}
        if v == "None":
            return t.k == "call" and short(t.a[0]).split("::")[-1] in ("checked_add", "checked_sub") and both(t)
        if not (isinstance(v, bool) and t.k == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge")):
            return False
        op, x, y = t.a
        if op in ("Gt", "Ge"):
            op, x, y = {"Gt": "Lt", "Ge": "Le"}[op], y, x
        line = lambda z: z.k == "fld" and z.a[1] == "rva" and self.lastof(z.a[0])
        # x < y or x <= y
        return line(x) and both(y) and v is False or both(x) and line(y) and v is True

    def mine(self, t):
        """The list of the lines, whatever was done to it."""
        while t.k in ("sorted", "upd", "rec", "puti"):
            t = t.a[2][0] if t.k == "upd" else t.a[0]
        return field_of(t) == "lines"

    def on_mutate(self, I, st, cell, path, v, ev):
        names = [e[1] for e in path if e[0] == "f"]
        if v.k == "sorted":
            key = v.a[1]
            asc = key.k == "fld" and key.a[1] == "rva" and key.a[0].k == "elem"
            if names[-1:] == ["lines"]:
                self.rep.ob("order", ev.site(), asc, "the lines are sorted by address: %s" % show(key)[:60])
                if asc:
                    self.add(st, "order")
            elif "inlines" in names or path and path[-1][0] == "i":
                self.rep.ob("ranges", ev.site(), asc, "the ranges are sorted by address: %s" % show(key)[:60])
                st.a = (st.a - {"merged"}) | ({"sorted"} if asc else set())
        elif v.k == "upd" and names[-1:] == ["lines"]:
            n = short(v.a[1])
            if n.split("::")[-1] not in ("split_last_mut", "iter_mut", "last_mut", "windows", "split_at_mut", "as_mut_slice", "get_mut", "chunks_mut"):
                self.rep.ob("order", ev.site() + " " + n, False, "the lines are kept: %s" % n)
        elif v.k == "upd" and ("inlines" in names):
            n = short(v.a[1])
            if n == "Vec::dedup_by":
                self.rep.ob("ranges", ev.site() + " merge", "sorted" in st.a, "the ranges are in order when they are merged")
                self.add(st, "merged")
            elif n.split("::")[-1] in ("retain", "clear", "truncate", "dedup", "dedup_by_key", "pop", "remove"):
                self.rep.ob("ranges", ev.site() + " " + n, False, "the ranges are kept: %s" % n)

    # the ranges of each call
    def inl(self, it):
        s = it.a[0] if it.k == "iter" else None
        if s is None:
            return False
        if s.k == "ref":
            return bool(s.a[1]) and s.a[1][-1] == ("f", "inlines")
        return field_of(s) == "inlines"

    def on_elem(self, I, st, ev, it, v):
        if self.inl(it):
            bad = [k for k, _ in it.a[2] if k not in ("map", "inspect")]
            self.rep.ob("ranges", ev.site() + " all", not bad, "the ranges of all the calls are considered%s" % "".join(" " + b for b in bad))
            st.a = (st.a - {"sorted", "merged", "inlines"}) | {"ranges"}
        elif it.k == "iter" and "ranges" in st.a and "merged" not in st.a and not self.lines_it(it):
            # merged by a loop of its own
            self.add(st, "merged")

    def lines_it(self, it):
        return any(field_of(x) == "lines" for x in subterms(it.a[0]))

    def on_next(self, I, st, ev, it):
        if self.inl(it) and "ranges" in st.a:
            self.rep.ob("ranges", ev.site() + " each", "sorted" in st.a and "merged" in st.a, "the ranges of each call are sorted and merged")

    def on_end(self, I, st, ev, it):
        if self.inl(it):
            st.a = (st.a - {"sorted", "merged", "ranges"}) | {"inlines"}
        elif self.lines_it(it) and "lens?" in st.a:
            self.add(st, "lens")
        elif self.lines_it(it):
            self.add(st, "noloop")
        elif "ranges" in st.a and "sorted" in st.a and it.k == "iter":
            self.add(st, "merged")

    def on_write(self, I, st, cell, path, v, site, fn):
        v = I.resolve(st, v)
        if path and path[-1] == ("f", "lines") and v.k == "sorted" and self.mine(v):
            # sorted elsewhere, then put back
            key = v.a[1]
            asc = key.k == "fld" and key.a[1] == "rva" and key.a[0].k == "elem"
            self.rep.ob("order", site, asc, "the lines are sorted by address: %s" % show(key)[:60])
            if asc:
                self.add(st, "order")
        if path and path[-1] == ("f", "are_lines_sorted") and v.k == "bool" and v.a[0] is True:
            self.rep.ob("order", site, "order" in st.a, "the lines are marked as being in order once they are")
        if not (path and path[-1] == ("f", "len")):
            if path and path[-1] == ("f", "rva"):
                self.rep.ob("order", site, False, "the addresses don't change")
            return
        for x in I.alts(v):
            self.length(I, st, cell, path, x, site)

    def length(self, I, st, cell, path, v, site):
        if v.k == "elem":
            # from the list of the lengths
            src = v.a[1]
            while src.k == "iter" and not src.a[2]:
                src = src.a[0]
            if src.k == "coll" and src.a[1]:
                v = src.a[1][-1] if isinstance(src.a[1][-1], T) else src.a[1][0]
            elif src.k in ("new", "phi", "upd"):
                self.deferred.append((I, src, site, "order" in st.a))
                self.add(st, "lens?")
                return
        t = uncast(v)
        if t.k == "call" and t.a[0] == "unwrap_or":
            # the distance, or what it was
            self.length(I, st, cell, path, mk("pay", t.a[1][0], "Some", "0"), site)
            t = t.a[1][1]
        if t.k == "fld" and t.a[1] == "len" and cell[0] == "h" and cell[1] is t.a[0] and len(path) == 1 and "order" in st.a and self.lastof(t.a[0]):
            self.add(st, "last")
            return
        names = {x.a[1] for x in subterms(t) if x.k == "arg"}
        if "sym_rva" in names or "sym_len" in names:
            checked = t.k == "pay" and t.a[1] == "Some" and t.a[0].k == "call" and short(t.a[0].a[0]).endswith("checked_sub")
            t = t.a[0] if checked else t
            last = [t.a[2]] if t.k == "bin" and t.a[0] == "Sub" else [cargs(t)[1]] if t.k == "call" and "_sub" in short(t.a[0]) else []
            last = [x for x in last if x.k == "fld" and x.a[1] == "rva"]
            okk = {"sym_rva", "sym_len"} <= names and len(last) == 1 and self.lastof(last[0].a[0])
            guard = t.k == "call" and short(t.a[0]).endswith("saturating_sub") or checked or any(self.guard(I, f, b, t) for f, b in st.f.items())
            self.rep.ob("length", site + " last", okk and guard and "order" in st.a, "the last line extends to the end of the function, if it is in it: %s" % show(t)[:120])
            self.add(st, "last")
            return
        ranges = [x for x in subterms(t) if x.k == "fld" and x.a[1] == "len" or x.k == "phi" and field_of(x) == "len"]
        if ranges:
            okk = self.total(t)
            self.merged += 1
            eq = any(b is True and self.adjacent(f, cell[1] if cell[0] == "h" and len(path) == 1 else None) for f, b in st.f.items())
            self.rep.ob("ranges", site + " sum", okk and eq, "a range grows by the one that follows it at once: %s" % show(t)[:100])
            self.add(st, "grown")
            return
        self.distance(t, site, "order" in st.a)
        self.add(st, "lens?")

    def after(self):
        """The lengths that were put in a list first."""
        for I, src, site, order in self.deferred:
            todo, seen = [src], set()
            while todo:
                x = todo.pop()
                if x in seen or x.k == "new":
                    continue
                seen.add(x)
                if x.k == "upd" and short(x.a[1]) == "Vec::push":
                    todo.append(x.a[2][0])
                    for y in I.alts(x.a[2][1]):
                        self.distance(uncast(y), site, order)
                elif x.k == "phi":
                    todo += [y for y in I.alts(x) if y is not x]
                else:
                    self.rep.ob("length", site, False, "the length is the distance to the next line: %s" % show(x)[:120])

    def distance(self, t, site, order):
        okk = t.k == "bin" and t.a[0] == "Sub" and all(field_of(o) == "rva" for o in t.a[1:])
        if t.k == "call" and short(t.a[0]).split("::")[-1] in ("saturating_sub", "wrapping_sub"):
            okk = all(field_of(o) == "rva" for o in t.a[1])
            t = mk("bin", "Sub", *t.a[1])
        why = "the length is the distance to the next line: %s" % show(t)[:120]
        if okk:
            a, b = t.a[1].a[0], t.a[2].a[0]
            okk = self.next_(a, b)
        self.lens += 1
        self.rep.ob("length", site, okk and order, why + ("" if order else " (not in order)"))

    def next_(self, a, b):
        """Is a the line after b?"""
        if a is b:
            return False
        if a.k == "idx" and b.k == "idx" and a.a[0] is b.a[0]:
            i, j = a.a[1], b.a[1]
            if i.k == j.k == "int":
                return i.a[0] == j.a[0] + 1
            plus = lambda x, y: x.k == "bin" and x.a[0] == "Add" and any(z is y for z in x.a[1:]) and any(z.k == "int" and z.a[0] == 1 for z in x.a[1:])
            minus = lambda x, y: y.k == "bin" and y.a[0] == "Sub" and y.a[1] is x and y.a[2].k == "int" and y.a[2].a[0] == 1
            return plus(i, j) or minus(i, j)
        # other ways to walk the same list in step
        return any(self.mine(x) for x in subterms(a)) and any(self.mine(x) for x in subterms(b))

    def lastof(self, x):
        return any(self.mine(y) for y in subterms(x)) and ("last" in show(x) or any(y.k == "bin" and y.a[0] == "Sub" for y in subterms(x)))

    def guard(self, I, f, b, t):
        if not (t.k == "bin" and t.a[0] == "Sub" and f.k == "bin"):
            return False
        e, l = t.a[1], t.a[2]
        op, x, y = f.a
        return b is True and (op in ("Lt", "Le") and x is l and y is e or op in ("Gt", "Ge") and x is e and y is l) or b is False and (op in ("Lt", "Le") and x is e and y is l or op in ("Gt", "Ge") and x is l and y is e)

    def total(self, o, d=0):
        """The sum of lengths: of a range that has grown, and of the one it grows by."""
        adds = o.k == "bin" and o.a[0] == "Add" or o.k == "call" and short(o.a[0]).split("::")[-1] in ("saturating_add", "wrapping_add")
        ops = o.a[1:] if o.k == "bin" else o.a[1] if o.k == "call" else ()
        return adds and len(ops) == 2 and all(field_of(x) == "len" or d < 3 and self.total(x, d + 1) for x in ops)

    def adjacent(self, f, owner=None):
        if not (f.k == "bin" and f.a[0] == "Eq"):
            return False
        def end(x):
            x = x.a[0] if x.k == "pay" and x.a[1] == "Some" else x
            ops = x.a[1:] if x.k == "bin" and x.a[0] == "Add" else x.a[1] if x.k == "call" and "_add" in short(x.a[0]) else ()
            mine = lambda o: o.k == "phi" and o.a[1][-1] is owner or o.k == "fld" and o.a[0] is owner
            own = owner is None or all(mine(o) or self.total(o) and any(mine(x) for x in subterms(o)) for o in ops)
            return len(ops) == 2 and {"len" if self.total(o) else field_of(o) for o in ops} == {"rva", "len"} and own
        def start(x):
            x = x.a[3][0] if x.k == "agg" and x.a[1] == "Some" else x
            return field_of(x) == "rva"
        return end(f.a[1]) and start(f.a[2]) or end(f.a[2]) and start(f.a[1])

    def on_return(self, I, st, fn, v, ev):
        if not ("{closure#" in fn.path and "ranges" in st.a and self.prog_ret(fn) == "bool"):
            return
        v = I.resolve(st, v)
        eq = any(b is True and self.adjacent(f) for f, b in st.f.items())
        for x in I.alts(v):
            if x.k == "bool":
                self.rep.ob("ranges", "result of " + fn.path.replace(D, ""), x.a[0] is False and not eq or x.a[0] is True and eq and "grown" in st.a,
                            "a range goes away exactly when the one before it was extended to it")
        st.a = st.a - {"grown"}

    def prog_ret(self, fn):
        return fn.prog.tystr(fn.local_ty(0))

    def on_exit(self, I, st, fn, v):
        self.rep.ob("length", "exit of finalize", "noline" in st.a or "lens" in st.a or "noloop" in st.a, "the lengths of the lines are set")
        self.rep.ob("length", "exit of finalize last", bool(st.a & {"noline", "last", "nolast"}), "the last line has its length, unless it isn't before the end of the function")
        self.rep.ob("ranges", "exit of finalize", "inlines" in st.a, "the ranges of the calls are sorted")


def check(ctx):
    rep = ctx.rep
    rep.rule("finish", "the lines of a symbol are finished after the last one was added, with the address and size of the symbol")
    rep.rule("mark", "lines marked as being in order are in order")
    rep.rule("order", "the lines are sorted by address unless they already are in order")
    rep.rule("length", "the length of a line is the distance to the next one, or to the end of the function")
    rep.rule("ranges", "the ranges of each inlined call are sorted by address and merged when they are adjacent")
    rep.rule("only", "the lines only change where these rules look")
    for root in ROOTS:
        r = Build(rep)
        run(ctx, r, root)
        r.after()
    run(ctx, New(rep), LN + "::new")
    run(ctx, Add(rep), LN + "::add_line")
    r = Finalize(rep)
    run(ctx, r, LN + "::finalize")
    r.after()
    rep.ob("ranges", "finalize merges", r.merged > 0, "adjacent ranges are merged")
    rep.ob("length", "finalize sizes", r.lens > 0, "the lines get their length")
    where = {}
    for fn, proj, sp in all_writes(ctx.prog):
        for e in proj:
            if e[0] != "." or len(e) < 3:
                continue
            p = fn.path.split("::{closure")[0]
            if e[2] == D + "line::Line" and e[1] in ("rva", "len") or e[2] == D + "line::InlineAddressRange" or e[2] == LN and e[1] in ("are_lines_sorted", "last_line_rva"):
                rep.ob("only", "%s (%s) %s" % (sp, fn.path.replace(D, ""), e[1]), p in r_fns(rep), "the addresses and lengths are only set by the code analysed here")
    rep.floor("finish", 3, "symbols")
    rep.floor("mark", 3, "additions of lines")
    rep.floor("order", 1, "sorting")
    rep.floor("length", 3, "lengths")
    rep.floor("ranges", 5, "ranges")


def r_fns(rep):
    return rep.fns


ROOTS = (D + "collector::Collector::collect_function", D + "collector::Collector::collect_placeholder_functions", D + "collector::Collector::collect_publics", D + "symbol::add_executable_section_symbols")
