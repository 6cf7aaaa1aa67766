"""Better symbol information is never displaced by worse."""
from checklib import *
from checks.symmap import *

ASSUMPTIONS = ["the map is a BTreeMap: an entry is vacant or occupied, range() gives the keys in order",
               "the comparisons with the symbol below are decided on %d sample triples (address, start, length); they are linear" % len(EVAL)]


class R(Base):
    def __init__(self, rep, name):
        super().__init__(rep)
        self.name = name
        self.loops = {}        # loop -> [does it change the table, obligations]

    def loop_of(self, st):
        for f in st.a[1]:
            if f[0] == "loop":
                return self.loops.setdefault(f[1], [False, []])
        return self.loops.setdefault(None, [False, []])

    def on_elem(self, I, st, ev, it, v):
        Base.on_elem(self, I, st, ev, it, v)
        if st.a[0] and self.source(I, st, it):
            self.know(st, "loop", ev.site())

    def on_skip(self, I, st, ev, it):
        if self.source(I, st, it):
            self.know(st, "loop", ev.site())
        Base.on_skip(self, I, st, ev, it)

    def after(self):
        """A loop that only reads the symbols isn't the one that merges them."""
        if self.name != "merge":
            return ()
        n = [k for k, (ch, _) in self.loops.items() if ch]
        self.rep.ob("kept", "loop (merge)", bool(n), "a loop of the merge adds the symbols of one file to the other")
        for k, (ch, obs) in self.loops.items():
            if ch:
                for o in obs:
                    self.rep.ob(*o)
        return n

    def insert(self, I, st, key, v, site):
        self.loop_of(st)[0] = True
        occ = self.val3(st, "has", key)
        pub, syn = self.attrs(I, st, v)
        cp, cs = self.val3(st, "cur", key, "is_public"), self.val3(st, "cur", key, "is_synthetic")
        if occ is False:
            okk, why = True, "the address was free"
        elif occ is None:
            okk, why = False, "it isn't known whether the address already has a symbol"
        elif cs is True and syn is False:
            okk, why = True, "a synthetic symbol is replaced by a real one"
        elif cp is True and pub is False and (syn is False or cs is True):
            okk, why = True, "a public symbol is replaced by a function"
        else:
            okk, why = False, "a symbol (public: %s, synthetic: %s) is replaced by another one (public: %s, synthetic: %s)" % (cp, cs, pub, syn)
        self.rep.ob("replace", site, okk, why)
        if occ is False and self.name in ("publics", "placeholders", "merge") and not (pub is False and syn is False) and not (self.name == "merge" and pub is False):
            p = self.position(st, key)
            self.rep.ob("inside", site, p == "out", "the address %s is outside the symbol below: %s" % (show(key)[:80], {"out": "yes", "in": "no, it is inside", None: "not known"}[p]))
        if self.name == "functions":
            z = self.val3(st, "zero")
            self.rep.ob("zero", site, z is False, "the address of the function isn't zero: %s" % ("checked" if z is False else "not checked"))

    def change(self, I, st, key, field, v, site):
        if field == "is_multiple":
            k = I.known(st, v)
            if k is True:
                occ = self.val3(st, "has", key) is True
                ns, cs = self.newsyn if self.newsyn is not None else self.val3(st, "new", "is_synthetic"), self.val3(st, "cur", key, "is_synthetic")
                self.rep.ob("multiple", site, occ and ns is not True and not (self.name == "merge" and cs is True),
                            "a second real symbol was met at this address (occupied: %s, second one synthetic: %s, first one synthetic: %s)" % (occ, ns, cs))
                self.know(st, "mark", True)
            else:
                self.rep.ob("multiple", site, False, "the multiple marker is only ever set: %s" % show(v)[:80])
        elif field in ("is_public", "is_synthetic"):
            self.rep.ob("replace", site, False, "the kind of a symbol of the table is changed")

    def on_exit(self, I, st, fn, v):
        if fn.locals[0] and I.prog.types[fn.crate][fn.locals[0][0]].get("path") == models.RES:
            s = st.copy()
            if not I.assume_variant(s, v, "Ok"):
                return
        if self.loop and self.name != "sections" and st.a[0]:
            # the next elements aren't looked at
            o = ("kept", "loop left early (%s)" % self.name, False, "the loop goes over all the elements: it is left in the middle, " + ", ".join(sorted(show(f)[:90] for f in st.a[1])))
            if self.name == "merge":
                self.loop_of(st)[1].append(o)
            else:
                self.rep.ob(*o)
        Base.on_exit(self, I, st, fn, v)

    def finish(self, I, st, site):
        act, _ = st.a
        if not act:
            return
        np = self.newpub if self.newpub is not None else self.val3(st, "new", "is_public")
        ns = self.newsyn if self.newsyn is not None else self.val3(st, "new", "is_synthetic")
        if self.got(st, "ins", True):
            why = "added"
        elif self.name == "functions" and self.val3(st, "zero"):
            why = "at address zero"
        elif self.name == "publics" and (self.val3(st, "skip") or self.got(st, "skip", "?")):
            why = "a constant of the compiler"
        elif self.name == "placeholders" and (self.got(st, "err", True) or self.got(st, "negative", True)):
            why = "malformed"
        elif self.name == "sections":
            why = "sections"
        else:
            why = None
            keys = {f[1] for f in st.a[1] if f[0] == "has"} | {f[1] for f in st.a[1] if f[0] == "none"}
            for _, t, v in [f for f in st.a[1] if f[0] == "rng"]:
                for x in subterms(t):
                    if is_range(x):
                        keys |= {y for y in subterms(x.a[1][1]) if below(x, y)}
            if np is True or ns is True:
                if any(self.position(st, k) == "in" for k in keys):
                    why = "inside a known symbol"
            occ = [k for k in keys if self.val3(st, "has", k)]
            if not why and occ:
                k = occ[0]
                cp, cs = self.val3(st, "cur", k, "is_public"), self.val3(st, "cur", k, "is_synthetic")
                if np is not True and ns is not True and cp is not False:
                    bad = "a function is dropped although the symbol at its address may be a public one"
                elif self.name == "merge" and ns is not True and cs is not False:
                    bad = "a real symbol is dropped although the one at its address may be synthetic"
                elif self.got(st, "mark", True):
                    bad, why = None, "the symbol of its address is marked as multiple"
                elif ns is True:
                    bad, why = None, "synthetic and the address has a symbol"
                elif self.val3(st, "name"):
                    bad, why = None, "same name"
                elif self.name == "publics" and cp is False:
                    bad, why = None, "the public symbol of a function"
                else:
                    bad = "the symbol at its address isn't marked as multiple"
            elif not why:
                bad = "nothing is done with it"
        o = ("kept", site + " (" + self.name + ")", why is not None, "each %s is accounted for: %s" % (
            {"functions": "function", "publics": "symbol", "placeholders": "exception record", "merge": "symbol of the other file", "sections": "section"}[self.name],
            why or bad + " " + ", ".join(sorted(show(f)[:90] for f in st.a[1]))))
        if self.name == "merge":
            self.loop_of(st)[1].append(o)
        else:
            self.rep.ob(*o)


class Skip(CRule):
    """Which names are those of constants. Automaton: what is known of the name: True: begins as a constant, "?": something that isn't understood."""

    def initial(self):
        return frozenset()

    def on_fact(self, I, st, t, v):
        if v in (False, "None") or not any(x.k == "arg" for x in subterms(t)):
            return
        k = "?"
        while t.k == "any":
            t = t.a[1]
        if t.k == "call" and short(t.a[0]) in BEGINS and len(t.a[1]) == 2:
            ps = prefixes(st, t.a[1][0], t.a[1][1])
            if ps is not None:
                k = all(p.startswith(CONSTANTS) for p in ps)
        elif t.k == "bin" and t.a[0] == "Eq" and any(begin(x) is not None for x in t.a[1:]):
            l = [lits(x.a[3][0] if x.k == "agg" and x.a[0] == models.OPT and x.a[3] else x) for x in t.a[1:] if begin(x) is None]
            if l and l[0]:
                k = all(p.startswith(CONSTANTS) for p in l[0])
        elif v == "Some":
            k = False
        elif t.k == "call" and short(t.a[0]) in ("str::contains", "str::ends_with", "str::strip_suffix", "str::find", "str::is_char_boundary") or t.k == "bin" and t.a[0] in ("Lt", "Le", "Gt", "Ge"):
            k = False
        st.a = st.a | {k}

    def on_exit(self, I, st, fn, v):
        for s in I.assume(st.copy(), I.resolve(st, v), True):
            self.rep.ob("constants", "result of " + fn.path.replace("dump_syms::", ""), s.a & {True, "?"},
                        "a symbol taken for a constant of the compiler begins with one of %s: %s" % (", ".join(CONSTANTS), sorted(map(str, s.a))))


def check(ctx):
    rep = ctx.rep
    rep.rule("replace", "a symbol is only added at a free address, or in place of a less informative one")
    rep.rule("inside", "a public or placeholder symbol is only added outside the known symbols")
    rep.rule("zero", "functions at address zero are ignored")
    rep.rule("multiple", "a symbol is only marked as multiple when a second real one is met at its address, and never unmarked")
    rep.rule("kept", "each symbol is added, or left out because of a better one or of its nature, with the kept one marked as multiple when needed")
    rep.rule("steps", "functions, then exception records, then symbols, then sections are collected, and all of them are kept")
    rep.rule("given", "every function of the debug info that can be read is collected")
    rep.rule("removed", "symbols of the table are never removed")
    rep.rule("constants", "only the constants of the compiler are left out because of their name")
    if "dump_syms::symbol::should_skip_symbol" in ctx.prog.fns:
        run(ctx, Skip(rep), "dump_syms::symbol::should_skip_symbol")
    run(ctx, Steps(rep), "dump_syms::object_info::ObjectInfo::from_object")
    removals(ctx, rep, "removed")
    for r, root in roots(lambda n: R(rep, n)):
        run(ctx, r, root)
        r.after()
    rep.floor("replace", 6, "additions to the symbol table")
    rep.floor("inside", 2, "additions of public and placeholder symbols")
    rep.floor("zero", 1, "addition of a function")
    rep.floor("multiple", 2, "markings as multiple")
    rep.floor("kept", 4, "ends of the handling of an element")
    rep.floor("steps", 5, "steps of the collection")
    rep.floor("given", 1, "loop over the functions")
    rep.floor("removed", 5, "uses of the table")
