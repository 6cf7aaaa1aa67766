"""The output always conforms to the Breakpad symbol grammar."""
from checklib import *
from checks import emit

ASSUMPTIONS = ["AsciiCfiWriter writes complete STACK records", "the breakpad form of a debug id and the names of the architectures have no blank"]


class R(emit.Emit):
    def __init__(self, rep):
        super().__init__(rep)
        self.counters = []

    def after(self, wanted):
        super().after(wanted)
        sites = {}
        for s, n in self.counters:
            sites.setdefault(s, []).append(n)
        for s, ns in sites.items():
            # the first iterations may have a constant
            zero = any(n.k == "int" and str(n.a[0]) == "0" for n in ns)
            bad = [n for n in ns if n.k != "int" and not self.counter(self.I, n, zero)]
            self.rep.ob("number", s, not bad and any(n.k != "int" for n in ns), "the number of the record counts the elements: %s" % show((bad or ns)[0])[:80])

    def on_skip(self, I, st, ev, it):
        self.clean_skip(I, st, it, ev, "clean")
        super().on_skip(I, st, ev, it)

    def fields(self, I, st, ev, kind, holes, toks):
        rep = self.rep
        def fl(i):
            f, b = fields_of(holes[i])
            return f[-1] if f else None
        if kind == "MODULE":
            got = [fl(i) for i in range(len(holes))]
            if len([t for t in toks if t[0] == "hole"]) < 3 or toks[-1][0] != "hole":
                got.append("file_name")
            got = got[-3:]
            rep.ob("field", ev.site() + " MODULE", got == ["cpu", "debug_id", "file_name"], "the fields are the platform, the architecture, the debug id and the name: %s" % got)
        if kind in ("FILE", "ORIGIN"):
            n = holes[0]
            src = n.a[1] if n.k == "elem" and n.a[2] == "#" else None
            same = len(holes) < 2 or all(a.k == "str" or any(x.k == "elem" and x.a[1] is src and x.a[2] != "#" for x in subterms(a)) for a in I.alts(holes[1]))
            if src is None:
                # a counter: decided when the loop is known
                self.counters.append((ev.site() + " " + kind, n))
                self.I = I
                return
            rep.ob("number", ev.site() + " " + kind, bool(src) and same, "the number of the record is the position of its text in the list: %s" % show(n)[:60])
        if kind in ("PUBLIC", "FUNC", "INFO"):
            letter = toks[-1][1] if toks[-1][0] == "hole" else ""
            rep.ob("clean", ev.site() + " " + kind, letter in (emit.C, ""), "the %s is written without control characters" % ("line" if kind == "INFO" else "name"))
        if kind == "ORIGIN" and len(holes) > 1:
            for a in I.alts(holes[1]):
                if a.k == "str":
                    continue
                rep.ob("clean", ev.site() + " ORIGIN", "inline_origins" in fields_of(a.a[1] if a.k == "elem" else a)[0] or self.cleaned(a) is not None, "the name is an element of inline_origins, which only holds cleaned names")

    def counter(self, I, n, zero=False):
        if n.k != "phi":
            return False
        seen = I.sources(n)
        return (zero or any(x.k == "int" and str(x.a[0]) == "0" for x in seen)) and any(x.k == "bin" and x.a[0] == "Add" and any(y.k == "int" and str(y.a[0]) == "1" for y in x.a[1:]) for x in seen)


class Origins(emit.Clean, CRule):
    """What is put in the list of the inline origins."""

    def __init__(self, rep):
        super().__init__(rep)
        self.cleans = {}
        self.pushed = {}

    def on_elem(self, I, st, ev, it, v):
        self.clean_elem(I, st, it, v)

    def on_skip(self, I, st, ev, it):
        self.clean_skip(I, st, it, ev, "clean")

    def on_call(self, I, st, ev):
        emit.Clean.on_call(self, I, st, ev)
        if ev.name in ("Vec::push", "Vec::insert") and ev.targs and "String" in ev.targs[0].get("s", ""):
            v = ev.args[-1]
            al = I.alts(v)
            other = lambda a: a.k in ("elem", "idx") and (a.a[1] if a.k == "elem" else a.a[0]).k == "arg" and "merge" in (a.a[1] if a.k == "elem" else a.a[0]).a[0]
            self.rep.ob("clean", ev.site() + " " + ev.name, self.cleaned(v, I) is not None or all(a.k == "str" or other(a) or self.cleaned(a, I) is not None for a in al), "the name put in the list has no control characters: %s" % show(v)[:100])
        if ev.name in ("Vec::extend", "Extend::extend", "Vec::append", "Vec::extend_from_slice"):
            self.rep.ob("clean", ev.site() + " " + ev.name, all(x.k not in ("str",) for x in subterms(ev.args[1])), "only elements of another list are added")
        return None


class Stack(CRule):
    """The stack texts of two files are joined with a line break between them. Automaton: a line break was just added."""
    opaque = ("SourceMap::merge", "inline_origins::merge_inline_origins", "Symbol::remap_lines", "Symbol::remap_inlines")

    def initial(self):
        return False

    def sticky(self, t, v):
        if t.k == "call" and short(t.a[0]) == "str::ends_with":
            return True
        return isinstance(v, bool) and t.k == "bin" and t.a[0] == "Eq" and any(x.k == "int" and str(x.a[0]) == "10" for x in t.a[1:])

    def text(self, I, st, t):
        return any(x.k == "fld" and x.a[1] == "stack" for x in I.sources(I.resolve(st, t)))

    def broken(self, I, st, t):
        """Is the text known to end with a line break?"""
        t = I.resolve(st, t)
        for a in I.alts(t):
            if a.k == "fmt" and a.a[0] and a.a[0][-1][0] == "lit" and a.a[0][-1][1].endswith("\n"):
                continue
            if any(v is True and self.sticky(f, v) and any(y.k == "call" and y.a[1] and any(z is a for z in subterms(y)) for y in subterms(f)) for f, v in st.f.items()):
                continue
            if any(v is True and f.k == "call" and short(f.a[0]) == "str::ends_with" and any(z is a for z in subterms(f)) for f, v in st.f.items()):
                continue
            if I.known(st, models.is_empty(a)) is True:
                continue
            return False
        return True

    def on_call(self, I, st, ev):
        if ev.name in ("String::push_str", "String::extend", "String::insert_str", "AddAssign::add_assign", "Add::add") and len(ev.args) > 1 and self.text(I, st, ev.args[0]) and self.text(I, st, ev.args[1]):
            self.rep.ob("stack", ev.site(), self.broken(I, st, ev.args[0]), "the first text ends with a line break: %s" % show(I.resolve(st, ev.args[0]))[:100])
        return None

    def on_write(self, I, st, cell, path, v, site, fn):
        v = I.resolve(st, v)
        if v.k != "fmt" or not path or path[-1] != ("f", "stack"):
            return
        first, lit = None, ""
        for tk in v.a[0]:
            if tk[0] == "lit":
                lit += tk[1]
                continue
            x = I.resolve(st, tk[3])
            if x.k == "str":
                lit += x.a[0]
                continue
            if first is not None and self.text(I, st, x):
                self.rep.ob("stack", site, lit == "\n" or lit == "" and self.broken(I, st, first), "the first text ends with a line break: %s" % show(v)[:100])
            first, lit = x, ""


def check(ctx):
    rep = ctx.rep
    rep.rule("record", "every line written is one record of the grammar")
    rep.rule("order", "the records come in the documented order")
    rep.rule("field", "each field of a record is the right field of the right symbol, in its documented form (hexadecimal or decimal)")
    rep.rule("marker", "the multiple marker is there if and only if the symbol is marked as multiple")
    rep.rule("kind", "PUBLIC for the public symbols, FUNC for the other ones")
    rep.rule("every", "a record is written for each element of each list")
    rep.rule("complete", "all the lists and the stack are written")
    rep.rule("number", "FILE and INLINE_ORIGIN records are numbered by their position")
    rep.rule("clean", "the names are written without control characters, and nothing else is left out of them")
    rep.rule("name", "a record that has a name has one that isn't blank")
    rep.rule("stack", "the stack records of merged files stay on lines of their own")
    r = R(rep)
    run(ctx, r, DISPLAY)
    r.after(("FILE", "ORIGIN", "FUNC", "PUBLIC", "STACK"))
    for root, part in (("<dump_syms::symbol::Symbol as core::fmt::Display>::fmt", ()), ("<dump_syms::line::Lines as core::fmt::Display>::fmt", ("INLINE", "LINE"))):
        r = R(rep)
        r.partial = "line" in root
        if root in ctx.prog.fns:
            run(ctx, r, root)
            r.after(part)
    for root in ("dump_syms::inline_origins::InlineOrigins::get_id", "dump_syms::inline_origins::merge_inline_origins"):
        run(ctx, Origins(rep), root)
    run(ctx, Stack(rep), "dump_syms::object_info::ObjectInfo::merge")
    rep.floor("record", 10, "records")
    rep.floor("marker", 2, "FUNC and PUBLIC records with and without marker")
    rep.floor("number", 2, "FILE and INLINE_ORIGIN records")
    rep.floor("clean", 4, "names")
    rep.floor("name", 3, "PUBLIC, FUNC and INLINE_ORIGIN records")
    rep.floor("stack", 1, "joining of the stack texts")
    rep.floor("complete", 5, "exits")
