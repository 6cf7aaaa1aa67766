"""Path mappings: first match wins, in the documented order."""
from checklib import *
from collections import namedtuple
from checks.cuts import Cuts, after1

ASSUMPTIONS = ["regex::Regex and Sha512 do what they are documented to do", "serde gives the mappings of the file in their order"]
MOD = "dump_syms::mapping::"
NEW, GEN, MAP, APPLY, DIGEST = MOD + "PathMappings::new", MOD + "PathMappingGenerator::new", MOD + "PathMappings::map", MOD + "PathMappingGenerator::apply", MOD + "get_digest"
APPEND = ("Vec::extend_from_slice", "String::push_str", "Vec::extend", "Extend::extend", "Vec::append", "AddAssign::add_assign", "Write::write_all", "String::extend", "Write::write_str", "Vec::splice", "Vec::insert", "Vec::push", "String::push", "String::insert_str")
MADE = "PathMappingGenerator::new"


def field(t, name, base=None):
    return t.k == "fld" and t.a[1] == name and (base is None or t.a[0] is base)


def argn(t, name):
    return t.k == "arg" and t.a[1] == name


def utf8(t):
    """The text of a path."""
    return t.k == "pay" and t.a[1] in ("Some", "Ok") and is_call(t.a[0], "Path::to_str", "TryFrom::try_from") and argn(cargs(t.a[0])[0], "file")


# ---------------------------------------------------------------- mapping of a path
M = namedtuple("M", "pend hit end")


class Map(CRule):
    """Automaton: mapping that wasn't tried yet, a mapping matched, all were tried."""
    opaque = ("PathMappingGenerator::apply",)

    def initial(self):
        return M(None, False, False)

    def __init__(self, rep):
        super().__init__(rep)
        self.out = []
        self.cached = []
        self.known = {}

    def sticky(self, t, v):
        return is_call(t, "Path::to_str") or t.k == "has"

    def mine(self, it):
        return it.k == "iter" and any(field(x, "mappings") for x in subterms(it.a[0]))

    def on_elem(self, I, st, ev, it, v):
        if self.mine(it):
            self.rep.ob("each", ev.site(), it.a[1] == "seq" and all(k in ("map", "filter_map", "enumerate", "swap", "inspect", "find_map") for k, _ in it.a[2]), "the mappings are tried in their order: %s" % show(it)[:100])
            self.untried(st, ev)
            st.a = st.a._replace(pend=v)

    def untried(self, st, ev):
        self.rep.ob("each", ev.site() + " tried", st.a.pend is None, "a mapping is passed over without being tried")

    def on_next(self, I, st, ev, it):
        if self.mine(it):
            self.untried(st, ev)

    def on_end(self, I, st, ev, it):
        if self.mine(it):
            self.untried(st, ev)
            st.a = st.a._replace(end=True)

    def on_fact(self, I, st, t, v):
        if t.k == "pay" and t.a[1] == "Ok" and is_call(t.a[0], "PathMappingGenerator::apply") and v == "Some":
            st.a = st.a._replace(hit=True)
        return None

    def on_call(self, I, st, ev):
        if ev.path == APPLY:
            m, p, s = [I.resolve(st, a) for a in ev.args[:3]]
            self.rep.ob("each", ev.site() + " after a match", not st.a.hit, "no other mapping is tried once one matched")
            self.rep.ob("whole", ev.site(), argn(p, "file") and utf8(s), "a mapping is given the path and its text: %s, %s" % (show(p)[:60], show(s)[:60]))
            if st.a.pend is not None and m is st.a.pend:
                st.a = st.a._replace(pend=None)
        if ev.args and "cache" in show(ev.args[0])[:400] and ev.name.split("::")[0] in ("HashMap", "BTreeMap", "Entry", "OccupiedEntry", "VacantEntry"):
            k = I.resolve(st, ev.args[1]) if len(ev.args) > 1 else None
            if ev.name in ("HashMap::get", "HashMap::contains_key", "HashMap::insert", "HashMap::entry", "HashMap::remove", "HashMap::get_mut", "HashMap::entry_ref"):
                self.rep.ob("key", ev.site() + " " + ev.name, k is not None and utf8(strip(k)), "the results are kept by path: %s" % show(k)[:80])
            if ev.name == "HashMap::insert":
                self.cached.append((ev.site(), I.resolve(st, ev.args[2]), st.a))
        return None

    def on_write(self, I, st, cell, path, v, site, fn):
        if path and len(path) > 1 and ("f", "cache") in path:
            self.cached.append((site, I.resolve(st, v), st.a))

    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        k = I.variant(st, v)
        if k == "Err":
            return
        x = v.a[3][0] if v.k == "agg" else models.pay(v, "Ok", "0")
        x = I.resolve(st, x)
        o = I.variant(st, x)
        s = [w for t, w in st.f.items() if is_call(t, "Path::to_str") and isinstance(w, str)]
        hits = [t for t, w in st.f.items() if t.k == "has" and "cache" in show(t) and w is True]
        if o == "None":
            ok = not st.a.hit and not hits and (st.a.end or "None" in s)
            self.rep.ob("none", "exit of map", ok, "a path is left alone only when no mapping matches it (matched: %s, all tried: %s)" % (st.a.hit, st.a.end))
        elif o == "Some":
            y = x.a[3][0] if x.k == "agg" else models.pay(x, "Some", "0")
            self.out.append((y, st.a, bool(hits)))
        else:
            # the result of the search as a whole
            self.out.append((x, st.a, bool(hits)))

    def result(self, t):
        """The result of a mapping that matched."""
        t = strip(t)
        if t.k == "pay" and t.a[1] == "Some":
            t = t.a[0]
            return t.k == "pay" and t.a[1] == "Ok" and is_call(t.a[0], "PathMappingGenerator::apply")
        return False

    def on_arrive(self, I, st, fid, point):
        # what is known of a result that is kept in a variable
        for c, v in st.s.items():
            if v.k == "pay" and v.a[1] == "Ok" and is_call(v.a[0], "PathMappingGenerator::apply"):
                self.known.setdefault((point, c, v), set()).add(st.f.get(v))

    def kept_in(self, I, t):
        """Values a variable can have, without those known to be None."""
        out, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "phi" and x in I.phi_ops:
                stack += [o for o in I.phi_ops[x] if self.known.get((x.a[0], x.a[1], o)) != {"None"}]
            else:
                out.append(x)
        return out

    def spread(self, I, t, depth=0):
        """Alternatives of the payload of a result."""
        out = []
        for z in I.alts(t):
            if depth < 4 and z.k == "pay" and z.a[1] == "Some" and z.a[0].k == "phi":
                for o in self.kept_in(I, z.a[0]):
                    if o.k == "agg":
                        out += self.spread(I, o.a[3][0], depth + 1) if o.a[1] == "Some" else []
                    else:
                        out.append(models.pay(o, "Some", "0"))
            else:
                out.append(z)
        return out

    def after(self, I):
        for y, a, hit in self.out:
            for z in self.spread(I, y):
                z = strip(z)
                kept = z.k == "idx" and "cache" in show(z)
                self.rep.ob("result", "exit of map" + (" (known)" if kept else ""), kept and utf8(strip(z.a[1])) or self.result(z) and a.hit, "the result is the one of the mapping that matched, or the one kept for this path: %s" % show(z)[:120])
        for site, y, a in self.cached:
            for z in self.spread(I, y):
                self.rep.ob("result", site + " kept", self.result(z) and a.hit, "what is kept is the result of the mapping that matched: %s" % show(z)[:100])


def strip(t):
    while True:
        if is_call(t, "String::as_str", "ToString::to_string", "str::to_string", "str::to_owned", "Clone::clone", "String::clone", "Deref::deref", "AsRef::as_ref", "String::into_boxed_str"):
            t = cargs(t)[0]
        elif t.k == "fmt" and len(t.a[0]) == 1 and t.a[0][0][0] == "arg" and t.a[0][0][1] == "d":
            t = t.a[0][0][3]
        else:
            return t


# ---------------------------------------------------------------- one mapping
P = namedtuple("P", "el step none", defaults=(False,))


class Apply(CRule):
    """Automaton: the current piece of the destination, how far it was copied."""
    opaque = ("mapping::get_digest",)
    write_errors = False

    def initial(self):
        return P(None, 0)

    def sticky(self, t, v):
        return t.k == "has" or is_call(t, "Regex::captures", "Captures::get", "Regex::is_match") or self.nofiles(t) or field(t, "kind")

    def nofiles(self, t):
        return t.k == "bin" and t.a[0] == "Eq" and any(is_call(x, "len") and field(x.a[1][0], "files") for x in t.a[1:]) and any(x.k == "int" and str(x.a[0]) == "0" for x in t.a[1:])

    def facts(self, I, st):
        d = {"listed": None, "re": None, "group": None}
        for t, v in st.f.items():
            if self.nofiles(t) and v is True:
                d["listed"] = True
            if t.k == "has" and field(t.a[0], "files") and argn(t.a[1], "file_str"):
                d["listed"] = d["listed"] or v
            if is_call(t, "Regex::captures") and field(cargs(t)[0], "re") and argn(cargs(t)[1], "file_str"):
                d["re"] = v == "Some"
            if is_call(t, "Captures::get") and v == "None":
                d["group"] = False
        return d

    def mine(self, it):
        return it.k == "iter" and any(field(x, "actions") for x in subterms(it.a[0]))

    def copied(self, I, st, ev):
        e, n, none = st.a
        if e is not None:
            self.rep.ob("copy", ev.site() + " piece", n == 2 or n == 1 and none, "both the text and the value of a piece are copied (step %d)" % n)

    def on_fact(self, I, st, t, v):
        if v == "None" and st.a.el is not None and t is models.fld(st.a.el, "kind"):
            st.a = st.a._replace(none=True)
        return None

    def on_next(self, I, st, ev, it):
        if self.mine(it):
            self.copied(I, st, ev)
            st.a = P(None, 0)

    def on_elem(self, I, st, ev, it, v):
        if self.mine(it):
            self.rep.ob("copy", ev.site(), whole(it) and not any(k in ("rev", "filter", "filter_map") for k, _ in it.a[2]) and it.a[1] == "seq", "all the pieces are copied, in order")
            self.copied(I, st, ev)
            e = v
            if v.k == "agg" and v.a[0] == "()":
                e = [x for x in v.a[3] if x.k == "elem" and x.a[2] != "#"][0]
            st.a = P(e, 0)

    def on_end(self, I, st, ev, it):
        if self.mine(it):
            self.copied(I, st, ev)
            st.a = P(None, 0)

    def on_call(self, I, st, ev):
        e, n, none = st.a
        if e is None or ev.name not in APPEND or len(ev.args) < 2:
            return None
        x = strip(I.resolve(st, ev.args[1]))
        if x.k == "iter" and x.a[1] == "seq" and not x.a[2]:
            x = strip(x.a[0])        # extended with the bytes or characters of the value
            if is_call(x, "str::bytes", "str::chars", "String::bytes", "String::chars"):
                x = strip(cargs(x)[0])
        if is_call(x, "String::as_bytes", "str::as_bytes", "String::into_bytes"):
            x = strip(cargs(x)[0])
        kind = models.fld(e, "kind")
        k = I.variant(st, kind)
        chunk = x.k == "idx" and field(x.a[0], "mapping") and x.a[1].k == "agg" and [y for y in x.a[1].a[3]] == [models.fld(e, "start"), models.fld(e, "end")]
        if chunk:
            self.rep.ob("copy", ev.site(), n == 0, "the text of a piece is copied first, once")
            st.a = P(e, 1, none)
            return None
        ok = False
        if k == "Group":
            if is_call(x, "Match::as_str"):
                x = cargs(x)[0]
            if x.k == "pay" and x.a[1] == "Some" and is_call(x.a[0], "Captures::get"):
                c, g = cargs(x.a[0])
                ok = g is models.pay(kind, "Group", "0") and c.k == "pay" and is_call(c.a[0], "Regex::captures") and argn(cargs(c.a[0])[1], "file_str") and field(cargs(c.a[0])[0], "re")
            elif is_call(x, "Index::index") or x.k == "idx":
                c, g = cargs(x) if is_call(x, "Index::index") else x.a[:2]
                ok = g is models.pay(kind, "Group", "0") and c.k == "pay" and is_call(c.a[0], "Regex::captures")
        elif k == "MappingVar":
            ok = x is models.pay(kind, "MappingVar", "0")
        elif k == "Digest":
            ok = x.k == "pay" and x.a[1] == "Ok" and is_call(x.a[0], "mapping::get_digest") and argn(cargs(x.a[0])[0], "file") and cargs(x.a[0])[1] is models.pay(kind, "Digest", "0")
        self.rep.ob("copy", ev.site() + " value", ok and n == 1, "then its value (%s): %s" % (k, show(x)[:120]))
        st.a = P(e, 2)
        return None

    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        k = I.variant(st, v)
        f = self.facts(I, st)
        if k == "Err":
            return
        x = I.resolve(st, v.a[3][0] if v.k == "agg" else models.pay(v, "Ok", "0"))
        o = I.variant(st, x)
        if o == "None":
            self.rep.ob("match", "exit of apply without result", f["listed"] is False or f["re"] is False or f["group"] is False, "a mapping doesn't match only when its list of files or its expression says so: %s" % f)
        else:
            self.rep.ob("match", "exit of apply with a result", f["listed"] is True and f["re"] is True, "a mapping matches when the file is in its list, if there is one, and its expression matches: %s" % f)


class Sha(CRule):
    """The digest of a file."""

    def sticky(self, t, v):
        return argn(t, "uppercase")

    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        if I.variant(st, v) != "Ok":
            return
        x = I.resolve(st, v.a[3][0] if v.k == "agg" else models.pay(v, "Ok", "0"))
        up = I.known(st, mk("arg", DIGEST, "uppercase"))
        for a in I.alts(x):
            spec, t, low = None, None, a
            while is_call(low, "str::to_uppercase", "str::to_lowercase", "str::to_ascii_uppercase", "str::to_ascii_lowercase"):
                spec = spec or ("X" if "upper" in show(low)[:40] else "x")
                low = cargs(low)[0]
            if low.k == "fmt" and len(low.a[0]) == 1 and low.a[0][0][0] == "arg":
                spec, t = spec or low.a[0][0][1], low.a[0][0][3]
            s = subterms(t) if t is not None else ()
            ok = up is not None and spec == ("X" if up else "x") and any(is_call(y, "Digest::digest") or "digest" in str(y.a[0]).lower() + str(y.a[1]).lower() for y in s if y.k in ("call", "site")) and any(argn(y, "file") for y in s)
            self.rep.ob("digest", "exit of get_digest (%s)" % up, ok, "the digest of the file, in %s: %s" % ("upper case" if up else "lower case", show(a)[:100]))


# ---------------------------------------------------------------- reading of a destination
G = namedtuple("G", "text tail")


class Gen(Cuts, CRule):
    """Automaton: name between braces whose meaning isn't recorded yet; the end of the destination was recorded."""

    def initial(self):
        return G(None, False)

    def __init__(self, rep):
        super().__init__(rep)
        self.ends = []
        self.none = []

    def sticky(self, t, v):
        if t.k == "bin" and any(x.k == "str" for x in t.a[1:]):
            return True
        return t.k == "has" or is_call(t, "str::parse") or t.k == "bin" and t.a[0] == "Lt"

    def named(self, t):
        """A piece of the destination, as text."""
        t = strip(t)
        while t.k == "pay" and t.a[1] == "Ok" and "from_utf8" in show(t.a[0])[:60]:
            t = cargs(t.a[0])[0]
        if t.k == "idx" and t.a[1].k == "agg" and len(t.a[1].a[3]) == 2:
            return t.a[1].a[3]
        return None

    def on_call(self, I, st, ev):
        if ev.name.endswith("from_utf8"):
            n = self.named(I.resolve(st, ev.args[0]))
            if n:
                st.a = st.a._replace(text=n)
        return None

    def pending(self, st, site):
        self.rep.ob("invalid", site, st.a.text is None, "a name between braces that means nothing is an error")

    def on_next(self, I, st, ev, it):
        self.pending(st, ev.site())

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if adt == MOD + "ActionKind":
            fs = dict((t, v) for t, v in st.f.items())
            def eq(s):
                return any(t.k == "bin" and t.a[0] == "Eq" and v is True and any(x.k == "str" and x.a[0] == s for x in t.a[1:]) for t, v in fs.items())
            x = I.resolve(st, vals[0]) if vals else None
            if variant == "Digest":
                ok = x is TRUE and eq("DIGEST") or x is FALSE and eq("digest") or x.k == "bin"
            elif variant == "MappingVar":
                ok = x.k == "idx" and argn(x.a[0], "mapping_vars") and self.named(x.a[1]) is not None
            elif variant == "Group":
                ok = x.k in ("pay", "okof") and is_call(x.a[0], "str::parse") and self.named(cargs(x.a[0])[0]) is not None
            else:
                ok = not vals
            self.rep.ob("piece", site + " " + variant, ok, "the name between braces is %s: %s" % (variant, show(x)[:100] if x is not None else ""))
        if adt == MOD + "Action":
            d = dict(zip(names, [I.resolve(st, v) for v in vals]))
            k = d["kind"]
            kind = I.variant(st, k)
            if kind == "None" or k.k == "agg" and k.a[1] == "None":
                self.rep.ob("piece", site + " end", is_call(d["end"], "len"), "the last piece goes to the end of the destination: %s" % show(d["end"])[:60])
                st.a = st.a._replace(tail=True)
                self.ends.append((site + " end", d["start"], self.place(st, d["start"]), None, None))
            else:
                t = st.a.text
                e = d["end"]
                ok = t is not None and after1(t[0], e)
                self.rep.ob("piece", site + " text", ok, "the text before the braces ends where the braces start: %s, %s" % (show(e)[:60], show(t)[:100]))
                self.ends.append((site, d["start"], self.place(st, d["start"]), e, self.place(st, e)))
                st.a = st.a._replace(text=None)

    def after(self, I):
        for l in self.none:
            ok = any(p and p <= {"zero", ("after", 125)} for p in (self.places(I, x, here) for x, here in l))
            self.rep.ob("piece", "exit of PathMappingGenerator::new", ok, "the end of the destination is a piece too, unless there is nothing after the last one: %s" % [show(x)[:60] for x, _ in l])
        starts = set()
        for site, s, ps, e, pe in self.ends:
            p = self.places(I, s, ps)
            starts |= p
            self.rep.ob("piece", site + " from", p <= {"zero", ("after", 125)}, "a piece starts where the one before ends: %s" % sorted(map(str, p)))
            if e is not None:
                p = self.places(I, e, pe)
                self.rep.ob("piece", site + " to", p <= {"zero", ("at", 123)} and p, "the text of a piece ends at the braces: %s" % sorted(map(str, p)))
        self.rep.ob("piece", "starts", starts == {"zero", ("after", 125)}, "the pieces follow each other: %s" % sorted(map(str, starts)))

    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        if I.variant(st, v) == "Err":
            return
        self.pending(st, "exit of PathMappingGenerator::new")
        # nothing is left at the end: the position isn't less than the length
        none = [t.a[1] for t, w in st.f.items() if t.k == "bin" and t.a[0] == "Lt" and is_call(t.a[2], "len") and w is False]
        none += [t.a[2] for t, w in st.f.items() if t.k == "bin" and t.a[0] == "Le" and is_call(t.a[1], "len") and w is True]
        none += [x for t, w in st.f.items() if t.k == "bin" and t.a[0] == "Eq" and w is True for x, y in (t.a[1:], t.a[:0:-1]) if is_call(y, "len")]
        if not st.a.tail:
            self.none.append([(x, self.place(st, x)) for x in none])
        x = v.a[3][0] if v.k == "agg" else models.pay(v, "Ok", "0")
        for f, a in (("mapping", "mapping"), ("files", "files")):
            y = I.resolve(st, I.proj(st, x, ("f", f)))
            while is_call(y, "[T]::to_vec", "str::as_bytes", "String::into_bytes") or strip(y) is not y:
                y = cargs(y)[0] if is_call(y, "[T]::to_vec", "str::as_bytes", "String::into_bytes") else strip(y)
            self.rep.ob("kept", f, argn(y, a), "a mapping keeps its %s: %s" % (f, show(y)[:60]))
        y = I.resolve(st, I.proj(st, x, ("f", "re")))
        self.rep.ob("kept", "re", y.k in ("pay", "okof") and is_call(y.a[0], "Regex::new") and argn(strip(cargs(y.a[0])[0]), "re"), "and its expression: %s" % show(y)[:60])


# ---------------------------------------------------------------- the list of the mappings
class Order(CRule):
    """Automaton: kind of the last mapping added, pair or entry that has no mapping yet."""
    opaque = ("PathMappingGenerator::new", "Mappings::new")
    KINDS = ("of the file, with files", "of the file", "of the command line")
    O = namedtuple("O", "last pend vars")

    def __init__(self, rep):
        super().__init__(rep)
        self.pushed = []        # (site, receiver, value, kind or None, automaton)
        self.made = []
        self.lists = []
        self.vars = []
        self.sets = []
        self.ends = []

    def initial(self):
        return self.O((), None, False)

    def sticky(self, t, v):
        return t.k == "bin" and t.a[0] == "Eq" and any(is_call(x, "len") for x in t.a[1:]) and not any(x.k == "phi" for x in subterms(t)) or t.k == "arg" and isinstance(v, str)

    def kind(self, I, st, t):
        """The kind of a mapping that is made."""
        t = strip(t)
        if t.k == "pay" and t.a[1] == "Ok" and is_call(t.a[0], MADE):
            a = cargs(t.a[0])
            s, d = a[0], a[1]
            if s.k == "fld" and d.k == "fld" and (s.a[1], d.a[1]) == ("source", "destination") and s.a[0] is d.a[0] and field(a[3], "files", s.a[0]):
                e = I.known(st, models.is_empty(a[3]))
                return {True: 1, False: 0}.get(e)
            if s.k == "elem" and d.k == "idx" and d.a[1].k == "elem" and d.a[1].a[2] == "#" and d.a[1].a[1] is s.a[1] and a[3].k == "new" \
                    and any(argn(y, "sources") for y in subterms(s.a[1])) and any(argn(y, "destinations") for y in subterms(d.a[0])):
                return 2
            if s.k == "elem" and d.k == "elem" and s.a[0][:2] == d.a[0][:2]:
                def src(x, n):
                    return any(argn(y, n) for y in subterms(x.a[1]))
                if src(s, "sources") and src(d, "destinations") and a[3].k == "new":
                    return 2
            if s.k == "idx" and d.k == "idx" and s.a[1] is d.a[1] and any(argn(y, "sources") for y in subterms(s.a[0])) and any(argn(y, "destinations") for y in subterms(d.a[0])) and a[3].k == "new":
                return 2
        return None

    def mine(self, it):
        if it.k != "iter":
            return None
        if any(field(x, "mappings") for x in subterms(it.a[0])):
            return "file"
        if any(argn(x, "sources") for x in subterms(it.a[0])):
            return "line"
        return None

    def straight(self, it):
        if it.k != "iter" or not whole(it) or it.a[1] not in ("seq", "range") or any(k in ("rev", "chain") for k, _ in it.a[2]):
            return False
        return all(self.straight(y) for k, x in it.a[2] if k == "zip" for y in (x if isinstance(x, tuple) else (x,)) if hasattr(y, "k") and y.k == "iter")

    def left(self, st, ev):
        self.rep.ob("all", ev.site(), st.a.pend is None, "no mapping is left out")

    def on_elem(self, I, st, ev, it, v):
        m = self.mine(it)
        if m:
            self.rep.ob("all", ev.site() + " in order", self.straight(it), "the mappings are read in their order: %s" % show(it)[:100])
            self.gathered(st, ev)
            self.left(st, ev)
            # the ones a filter leaves out are read by another loop
            st.a = st.a._replace(pend=v)

    def on_next(self, I, st, ev, it):
        if self.mine(it):
            self.gathered(st, ev)
            self.left(st, ev)

    def gathered(self, st, ev):
        # all that comes out is put in a list, which is looked at later
        if collecting(ev) and st.a.pend is not None:
            st.a = st.a._replace(pend=None)

    def on_end(self, I, st, ev, it):
        m = self.mine(it)
        if m:
            self.gathered(st, ev)
            self.left(st, ev)
            self.ends.append((m, it))

    def on_call(self, I, st, ev):
        if ev.path == GEN:
            self.made.append((ev.site(), tuple(I.resolve(st, a) for a in ev.args), st.copy(), ev))
        t0 = ev.targs[0].get("s", "") if ev.targs else ""
        if ev.name in ("Vec::push", "Vec::insert", "Vec::extend", "Extend::extend", "Vec::append", "VecDeque::push_back", "VecDeque::push_front") and ("PathMappingGenerator" in t0 or "PathMappingGenerator" in str([t.get("s") for t in ev.targs])):
            v = I.resolve(st, ev.args[-1])
            k = self.kind(I, st, v)
            st.a = st.a._replace(pend=None)
            self.pushed.append((ev, (ev.args[0], I.resolve(st, ev.args[0])), (ev.args[-1], v), k, st.a))
        return None

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if adt == MOD + "PathMappings":
            d = dict(zip(names, vals))
            self.lists.append((site, I.resolve(st, d["mappings"])))

    def on_write(self, I, st, cell, path, v, site, fn):
        self.sets.append((site, path, I.resolve(st, v), dict(st.f)))

    # the order is decided on the list as it was built
    def after(self, I):
        rep = self.rep
        for ev, recv, v, k, a in self.pushed:
            rep.ob("pushed", ev.site(), ev.name not in ("Vec::insert", "VecDeque::push_front"), "a mapping is added at the end")
        self.unknown = []
        total = set()
        for site, t in self.lists:
            total |= self.held(I, t)
            bad = [(x, y) for x, y in self.adds(I, t) if x and y and max(x) > min(y)]
            rep.ob("order", site, not bad, "%s" % ["%s is added after %s" % (self.KINDS[min(y)], self.KINDS[max(x)]) for x, y in bad][:1])
        rep.ob("order", "mappings of all kinds", total == {0, 1, 2} and not self.unknown, "the list holds the mappings %s%s" % (" and ".join(self.KINDS[k] for k in sorted(total)), "".join("; not known: %s" % show(x)[:100] for x in self.unknown[:1])))

    def parts(self, I, t):
        """(lists this one is made of, lists or kinds of elements that are added to them)"""
        if t.k == "new" or is_call(t, "Vec::new", "Vec::with_capacity"):
            return [], []
        if t.k == "phi":
            return list(I.phi_ops.get(t, ())), []
        if t.k == "rec":
            return [t.a[0]], []
        if t.k == "coll" and t.a[1] and self.straight(t.a[0]) and all(k in ("zip", "map", "enumerate", "swap", "inspect", "filter") for k, _ in t.a[0].a[2]):
            ks = {k for x in t.a[1] for k in self.collected(I, x)}
            if ks and None not in ks:
                return [], list(ks)
        if t.k == "iter":
            if t.a[2] or t.a[1] != "seq":
                self.unknown.append(t)
            return [t.a[0]], []
        if t.k == "upd":
            n = str(t.a[1])
            if "drain" in n or "take" in n:
                return [], []
            if t.a[3] == 1 and "append" in n:
                return [], []
            if len(t.a[2]) > 1 and any(x in n for x in ("push", "extend", "append")):
                x = t.a[2][1]
                ks = {k for ev, recv, v, k, a in self.pushed if x in v and t.a[2][0] in recv}
                add = [k for k in ks if k is not None]
                if None in ks or not ks:
                    add.append(x.a[1] if x.k == "elem" else x)
                return [t.a[2][0]], add
        self.unknown.append(t)
        return [], []

    def collected(self, I, x):
        """The kinds of a mapping that is made and put in a list at once."""
        x = strip(x)
        if not (x.k == "pay" and x.a[1] == "Ok" and is_call(x.a[0], MADE)):
            return [None]
        return [self.kind(I, st, x) for site, a, st, ev in self.made if a == tuple(cargs(x.a[0]))] or [None]

    def held(self, I, t):
        """Kinds of the mappings that a list can hold."""
        seen, stack, out = set(), [t], set()
        while stack:
            x = stack.pop()
            if isinstance(x, int):
                out.add(x)
            elif x not in seen:
                seen.add(x)
                b, e = self.parts(I, x)
                stack += b + e
        return out

    def adds(self, I, t):
        """(kinds in a list, kinds that are added to it) for each step of how the list is made"""
        seen, stack, out = set(), [t], []
        while stack:
            x = stack.pop()
            if isinstance(x, int) or x in seen:
                continue
            seen.add(x)
            b, e = self.parts(I, x)
            for y in e:
                for z in b:
                    out.append((self.held(I, z), {y} if isinstance(y, int) else self.held(I, y)))
            stack += b + e
        return out


class Vars(CRule):
    opaque = ("PathMappingGenerator::new", "Mappings::new")

    def __init__(self, rep):
        super().__init__(rep)
        self.given = []

    def sticky(self, t, v):
        return t.k == "arg" and isinstance(v, str)

    # automaton: variable of the command line that isn't in the list yet
    def initial(self):
        return None

    def mine(self, it):
        return it.k == "iter" and not it.a[2] and it.a[1].startswith("hash") and it.a[0].k in ("new", "phi", "puti", "coll")

    def left(self, st, ev):
        self.rep.ob("vars", ev.site() + " each", st.a is None, "each variable of the command line is used: %s" % (show(st.a)[:60] if st.a else ""))

    def on_elem(self, I, st, ev, it, v):
        if self.mine(it):
            self.left(st, ev)
            st.a = v

    def on_next(self, I, st, ev, it):
        if self.mine(it):
            self.left(st, ev)

    def on_end(self, I, st, ev, it):
        if self.mine(it):
            self.left(st, ev)
            st.a = None

    def on_call(self, I, st, ev):
        if st.a is not None and ev.name in ("HashMap::insert", "BTreeMap::insert", "Entry::insert", "OccupiedEntry::insert", "Entry::insert_entry") and any(strip(I.resolve(st, a)) in subterms(st.a) for a in ev.args[1:]):
            st.a = None
        if ev.path == GEN:
            self.given.append((ev.site(), I.resolve(st, ev.args[2]), any(argn(x, "sources") for x in subterms(I.resolve(st, ev.args[0])))))
        return None

    def chain(self, I, t):
        """-> (bases, [(key, value)])"""
        base, puts, seen, stack = [], [], set(), [t]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "phi" and x in I.phi_ops:
                stack.extend(I.phi_ops[x])
            elif x.k == "puti":
                stack.append(x.a[0])
                puts.append((x.a[1], x.a[2]))
            elif x.k == "rec":
                stack.append(x.a[0])
            elif x.k == "coll" and self.pairs(x):
                puts += self.pairs(x)
            elif x.k == "upd" and "extend" in str(x.a[1]) and len(x.a[2]) == 2 and x.a[2][1].k in ("coll", "iter") and self.pairs(x.a[2][1]):
                stack.append(x.a[2][0])
                puts += self.pairs(x.a[2][1])
            else:
                base.append(x)
        return base, puts

    def around(self, I, t):
        """Whatever a list of variables is made of."""
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x not in seen:
                seen.add(x)
                b, ps = self.chain(I, x)
                stack += b + [y for p in ps for y in p] + [y.a[1] for p in ps for y in p if y.k == "elem"]
        return seen

    def pairs(self, c):
        """The pairs that come out of an iterator."""
        it, vals = (c.a[0], c.a[1]) if c.k == "coll" else (c, ())
        if it.k != "iter" or not whole(it) or any(k in ("filter", "filter_map") for k, _ in it.a[2]):
            return []
        return [(v.a[3][0], v.a[3][1]) for v in vals if v.k == "agg" and len(v.a[3]) == 2]

    def split(self, k, n):
        """The part of a variable before or after the first =."""
        k = strip(k)
        if k.k == "pay" and k.a[1] == "Some" and k.a[0].k == "elem":
            k = k.a[0]
        if k.k == "elem" and is_call(k.a[1], "str::splitn") and self.turn(k) == n:
            s = cargs(k.a[1])
            return s[1].k == "int" and str(s[1].a[0]) == "2" and s[2].k in ("str", "char") and str(s[2].a[0]) in ("=", "61") and s[0].k == "elem"
        if k.k == "idx" and k.a[1].k == "int" and str(k.a[1].a[0]) == str(n):
            s = [x for x in subterms(k.a[0]) if is_call(x, "str::splitn")]
            return len(s) == 1 and cargs(s[0])[1].k == "int" and str(cargs(s[0])[1].a[0]) == "2" and cargs(s[0])[2].k in ("str", "char") and str(cargs(s[0])[2].a[0]) in ("=", "61") and cargs(s[0])[0].k == "elem"
        if k.k == "fld" and k.a[1] == str(n) and k.a[0].k == "pay" and is_call(k.a[0].a[0], "str::split_once"):
            c = cargs(k.a[0].a[0])
            return c[0].k == "elem" and c[1].k in ("str", "char") and str(c[1].a[0]) in ("=", "61")
        return False

    def turn(self, k):
        """Which part of a text that is split this is: parts are taken one after the other."""
        return sorted({x.a[0] for x in self.taken if x.a[1] is k.a[1]}).index(k.a[0])

    def after(self, I):
        rep = self.rep
        sites = {}
        self.taken = {y for _, t, _ in self.given for z in self.around(I, t) for y in subterms(z) if y.k == "elem"}
        for site, t, line in self.given:
            base, puts = self.chain(I, t)
            if not line:
                rep.ob("vars", site, all(field(b, "variables") for b in base), "the variables of the mapping file, with those of the command line: %s" % show(base)[:100])
                for k, v in puts:
                    k, v = strip(k), strip(v)
                    src = k.a[1] if k.k == "elem" else None
                    rep.ob("vars", site + " override", src is not None and v.k == "idx" and v.a[0] is src and v.a[1] is k, "each variable of the command line replaces the one of the file: %s = %s" % (show(k)[:60], show(v)[:60]))
                    b2, p2 = self.chain(I, src) if src is not None else ([], [])
                    sites.setdefault((site, line), []).append((b2, p2))
            else:
                sites.setdefault((site, line), []).append((base, puts))
            sites.setdefault((site, line), [])
        for (site, line), l in sites.items():
            puts = [p for b, ps in l for p in ps]
            ok = bool(puts) and all(b.k == "new" for bs, _ in l for b in bs) and all(self.split(a, 0) and self.split(b, 1) for a, b in puts)
            rep.ob("vars", site + " command line", ok, "the variables of the command line are name=value: %s" % show(puts)[:100])


class Errors(CRule):
    """A mapping, a variable or a list of pairs that is invalid is an error."""
    opaque = ("PathMappingGenerator::new", "Mappings::new")

    def sticky(self, t, v):
        return self.same(t) or is_call(t, MADE, "Mappings::new") and v == "Err" or self.pair(t) and v in (False, "None") or t.k == "arg" and isinstance(v, str)

    def same(self, t):
        return t.k == "bin" and t.a[0] == "Eq" and all(is_call(x, "len", "unwrap_or", "map_or") for x in t.a[1:]) and {y.a[1] for y in subterms(t) if y.k == "arg"} >= {"sources", "destinations"}

    def pair(self, t):
        return any(is_call(x, "str::splitn", "str::split_once") for x in subterms(t)) and t.k in ("bin", "call")

    def initial(self):
        return ()

    def on_fact(self, I, st, t, v):
        # also in an iteration that is over
        if self.pair(t) and (v is False or v == "None") or is_call(t, MADE) and v == "Err":
            st.a = (t,)
        return None

    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        if I.variant(st, v) == "Err" or v.k == "agg" and v.a[1] == "Err":
            return
        bad = list(st.a) + [t for t, w in st.f.items() if is_call(t, MADE, "Mappings::new") and w == "Err" or self.same(t) and w is False or self.pair(t) and (w is False or w == "None")]
        self.rep.ob("error", "exit of PathMappings::new", not bad, "success only if all is valid: %s" % (show(bad[0])[:100] if bad else ""))
        kinds = {n: I.variant(st, mk("arg", NEW, n)) for n in ("sources", "destinations")}
        one = any(self.same(t) and w is True for t, w in st.f.items())
        zero = [n for n in kinds if any(t.k == "bin" and t.a[0] == "Eq" and w is True and any(argn(y, n) for y in subterms(t)) and any(x.k == "int" and str(x.a[0]) == "0" for x in t.a[1:]) for t, w in st.f.items())]
        self.rep.ob("error", "exit of PathMappings::new pairs", kinds == {"sources": "None", "destinations": "None"} or one or len(zero) == 2 or all(kinds[n] == "None" or n in zero for n in kinds),
                    "as many sources as destinations: %s" % kinds)


# ---------------------------------------------------------------- where the paths are mapped
class Used(CRule):
    opaque = ("PathMappings::map", "SourceFiles::get_path")

    def __init__(self, rep):
        super().__init__(rep)
        self.paths = []

    def sticky(self, t, v):
        return is_call(t, "PathMappings::map") or t.k == "pay" and is_call(t.a[0], "PathMappings::map") or field(t, "mapping") and isinstance(v, str)

    def on_call(self, I, st, ev):
        if ev.path == MAP:
            p = strip(I.resolve(st, ev.args[1]))
            self.rep.ob("used", ev.site(), is_call(p, "SourceFiles::get_path"), "the full path is what is mapped: %s" % show(p)[:80])
        if ev.name == "Vec::push" and "String" in str([t.get("s") for t in ev.targs]):
            x = I.resolve(st, ev.args[1])
            if x.k == "agg" and x.a[3]:
                x = x.a[3][-1]
            self.paths.append((ev.site(), x, dict(st.f), st.copy()))
        return None

    def after(self, I):
        for site, x, f, st in self.paths:
            for a in I.alts(x):
                a = strip(a)
                res = {w for t, w in f.items() if is_call(t, "PathMappings::map") and isinstance(w, str)}
                opt = {w for t, w in f.items() if t.k == "pay" and t.a[1] == "Ok" and is_call(t.a[0], "PathMappings::map") and isinstance(w, str)}
                has = {w for t, w in f.items() if field(t, "mapping") and isinstance(w, str)}
                if is_call(a, "unwrap_or"):
                    m, d = cargs(a)
                    ok = m.k == "pay" and m.a[1] == "Ok" and is_call(m.a[0], "PathMappings::map") and is_call(strip(d), "SourceFiles::get_path")
                    self.rep.ob("used", site + " mapped", ok, "the mapped path, or the path itself: %s" % show(a)[:120])
                elif is_call(a, "SourceFiles::get_path"):
                    ok = "None" in has or "Err" in res or "None" in opt
                    self.rep.ob("used", site + " kept", ok, "a path is kept only when no mapping gives another one (%s %s %s)" % (has, res, opt))
                else:
                    ok = a.k == "pay" and a.a[1] == "Some" and a.a[0].k == "pay" and is_call(a.a[0].a[0], "PathMappings::map")
                    self.rep.ob("used", site + " mapped", ok, "the path is the mapped one: %s" % show(a)[:120])


def check(ctx):
    rep = ctx.rep
    rep.rule("each", "the mappings are tried one after the other, in order, until one matches")
    rep.rule("whole", "a mapping is tried on the path itself")
    rep.rule("key", "the results are kept by path")
    rep.rule("result", "the result is the one of the first mapping that matches")
    rep.rule("none", "there is no result only when no mapping matches")
    rep.rule("match", "a mapping matches when its expression does, and the path is in its list of files if it has one")
    rep.rule("copy", "the result is the destination, with the values of its names")
    rep.rule("digest", "the digest is the one of the file")
    rep.rule("piece", "each name between braces stands for a digest, a variable or a group, and what is around is kept")
    rep.rule("invalid", "a name that means nothing is an error")
    rep.rule("kept", "a mapping keeps its expression, destination and files")
    rep.rule("all", "each mapping of the file and each pair of the command line gives a mapping")
    rep.rule("pushed", "the mappings are added at the end of the list")
    rep.rule("order", "first the mappings of the file that list files, then those that don't, then those of the command line")
    rep.rule("vars", "the variables of the command line override those of the mapping file")
    rep.rule("error", "an invalid mapping, variable or number of pairs is an error")
    rep.rule("used", "a source file is written with its mapped path, or its path when there is none")
    r = Map(rep)
    I, _ = run(ctx, r, MAP)
    if I:
        r.after(I)
    run(ctx, Apply(rep), APPLY)
    run(ctx, Sha(rep), DIGEST)
    r = Gen(rep)
    I, _ = run(ctx, r, GEN)
    if I:
        r.after(I)
    for cls in (Order, Vars):
        r = cls(rep)
        I, _ = run(ctx, r, NEW)
        if I:
            r.after(I)
    run(ctx, Errors(rep), NEW)
    r = Used(rep)
    I, _ = run(ctx, r, "dump_syms::source::SourceFiles::get_id")
    if I:
        r.after(I)
    # the results are only kept by map
    for fn, proj, site in all_writes(ctx.prog):
        if any(p[0] == "." and p[1] == "cache" and "PathMappings" in str(p[2]) for p in proj if isinstance(p, (list, tuple)) and len(p) > 2):
            rep.ob("key", "%s (%s)" % (site, fn.path), fn.path.startswith(MOD), "the kept results are only touched by the mappings")
    rep.floor("each", 3, "loop over the mappings")
    rep.floor("key", 1, "lookup and store of a result")
    rep.floor("result", 2, "results")
    rep.floor("none", 1, "exit without result")
    rep.floor("match", 2, "exits of apply")
    rep.floor("copy", 3, "copies")
    rep.floor("digest", 2, "digests")
    rep.floor("piece", 6, "pieces")
    rep.floor("invalid", 2, "names between braces")
    rep.floor("kept", 3, "parts of a mapping")
    rep.floor("all", 2, "loops over the mappings")
    rep.floor("order", 1, "list of the mappings")
    rep.floor("vars", 3, "variables")
    rep.floor("error", 2, "exits of PathMappings::new")
    rep.floor("used", 2, "paths")
