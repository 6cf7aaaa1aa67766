"""The changes made to the symbol table: shared by C10 and C11.

For each element of the source (function, symbol, section, exception record, symbol of the other file of a merge) the
automaton knows what was found out about it, about the symbol which is already at its address and about the known
symbol just below it, and what was done with it."""
import itertools
from checklib import *

SYM = "dump_syms::symbol::Symbol"
EVAL = [(k, r, l) for k in (1, 2, 3, 5, 8, 11) for r in (0, 1, 2, 3, 5, 8, 11) for l in (0, 1, 2, 3, 4, 6, 20) if r <= k]


class No(Exception):
    pass


def ev(t, key, env, m):
    """Value of an integer or boolean term for a key, and the address and length of the symbol below."""
    if t is key:
        return env[0]
    if t.k == "int":
        return int(t.a[0])
    if t.k == "bool":
        return t.a[0]
    if t.k == "cast":
        return ev(t.a[1], key, env, m)
    if t.k == "bin":
        a, b = ev(t.a[1], key, env, m), ev(t.a[2], key, env, m)
        op = t.a[0]
        f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b,
             "Eq": lambda: a == b, "Ne": lambda: a != b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "Mul": lambda: a * b}.get(op)
        if f is None:
            raise No()
        return f()
    if t.k == "un" and t.a[0] == "Not":
        return not ev(t.a[1], key, env, m)
    if t.k == "ovf":
        a, b = ev(t.a[1], key, env, m), ev(t.a[2], key, env, m)
        return a - b < 0 if t.a[0] == "Sub" else False
    if t.k == "fld" and t.a[0].k == "idx" and m(t.a[0].a[0]):
        if t.a[1] == "rva":
            return env[1]
        if t.a[1] == "len":
            return env[2]
    if t.k == "elem" and m(t.a[1]):
        return env[1]
    if t.k in ("call", "max", "min"):
        n = t.k if t.k != "call" else short(t.a[0])
        args = t.a[1] if t.k == "call" else t.a
        if n in ("max", "min", "Ord::max", "Ord::min", "u32::max", "u32::min"):
            return (max if "max" in n else min)(*[ev(x, key, env, m) for x in args])
        if n in ("u32::saturating_add", "u32::wrapping_add", "u64::saturating_add"):
            return sum(ev(x, key, env, m) for x in args)
        if n in ("u32::saturating_sub", "u32::wrapping_sub", "u64::saturating_sub"):
            return max(0, ev(args[0], key, env, m) - ev(args[1], key, env, m))
    if t.k == "pay" and t.a[0].k == "call" and short(t.a[0].a[0]) in ("u32::checked_add", "u32::checked_sub", "u64::checked_add", "u64::checked_sub"):
        a, b = [ev(x, key, env, m) for x in t.a[0].a[1]]
        if t.a[0].a[0].endswith("add"):
            return a + b
        if a < b:
            raise No()
        return a - b
    raise No()


def strip(t):
    """Through the casts and the changes of other fields."""
    while True:
        if t.k == "cast":
            t = t.a[1]
        elif t.k == "upd" and "remap" in str(t.a[1]):
            t = t.a[2][0]
        else:
            return t


def is_range(t):
    return t.k == "call" and short(t.a[0]) == "BTreeMap::range"


def below(t, key):
    """Is this the range of the addresses below the key? -> None, '<' or '<='"""
    b = t.a[1][1]
    lo, hi = None, None
    if b.k == "agg" and b.a[0] == "()" and len(b.a[3]) == 2:
        lo, hi = b.a[3]
        if not (lo.k == "agg" and (lo.a[1] == "Unbounded" or lo.a[1] == "Included" and lo.a[3][0].k == "int" and str(lo.a[3][0].a[0]) == "0")):
            return None
        if hi.k == "agg" and hi.a[1] in ("Excluded", "Included") and hi.a[3][0] is key:
            return "<" if hi.a[1] == "Excluded" else "<="
        return None
    if b.k == "agg":
        f = dict(zip(b.a[2], b.a[3]))
        n = b.a[0].rsplit("::", 1)[-1]
        if n == "RangeTo" and f.get("end") is key:
            return "<"
        if n == "RangeToInclusive" and f.get("end") is key:
            return "<="
        if n == "Range" and f.get("end") is key and f["start"].k == "int" and str(f["start"].a[0]) == "0":
            return "<"
    return None


BEGINS = ("str::starts_with", "str::strip_prefix", "[T]::starts_with", "[T]::strip_prefix")
CONSTANTS = ("??_C", "__real@", "__xmm@", "__ymm@")


def lits(t):
    """The strings the term may be, or None."""
    if t.k == "str":
        return [t.a[0]]
    if t.k == "bytes":
        return [bytes(t.a[0]).decode("latin-1")]
    if t.k == "elem" and t.a[1].k == "agg" and t.a[1].a[0] == "[]":
        out = [lits(x) for x in t.a[1].a[3]]
        return None if None in out else sum(out, [])
    return None


def prefixes(st, t, p):
    """What a name begins with when the rest t of it begins with p: the possible strings, or None if they aren't known."""
    ps = lits(p)
    if ps is None:
        return None
    if t.k == "pay" and t.a[0].k == "call" and short(t.a[0].a[0]) in ("str::strip_prefix", "[T]::strip_prefix"):
        b = prefixes(st, *t.a[0].a[1])
        return None if b is None else [x + y for x in b for y in ps]
    if plain(t) or t.k == "call" and short(t.a[0]) in ("str::trim_start_matches", "str::trim_start", "str::trim", "str::trim_matches"):
        return ps
    if t.k == "pay" and t.a[0].k == "call" and short(t.a[0].a[0]) == "str::get":
        t = t.a[0]
    if t.k in ("call", "idx"):
        # the rest after something the name is known to begin with
        a = t.a[1] if t.k == "call" else t.a
        n = [x.a[3][0].a[0] for x in a[1:] if x.k == "agg" and x.a[0].endswith("range::RangeFrom") and x.a[3][0].k == "int"]
        for f, v in st.f.items():
            if n and v is True and f.k == "call" and short(f.a[0]) in ("str::starts_with", "[T]::starts_with") and f.a[1][0] is a[0]:
                l = lits(f.a[1][1])
                if l and all(len(x) == int(n[0]) for x in l):
                    b = prefixes(st, *f.a[1])
                    return None if b is None else [x + y for x in b for y in ps]
    return None


def plain(t):
    """Is it the whole name?"""
    while t.k in ("fld", "pay") or t.k == "call" and short(t.a[0]) in ("str::as_bytes", "Symbol::name", "String::as_bytes"):
        t = t.a[0] if t.k != "call" else t.a[1][0]
    return t.k in ("elem", "arg")


def begin(t):
    """The name, when the term is a part at its beginning."""
    if t.k == "pay":
        t = t.a[0]
    if t.k == "call" and short(t.a[0]) in ("str::get", "Index::index", "slice::get") or t.k == "idx":
        a = t.a[1] if t.k == "call" else t.a
        if plain(a[0]):
            return a[0]
    return None


class Base(CRule):
    """Automaton: (active, frozenset of facts)."""
    what = ""
    newpub = newsyn = None        # what is known of the new symbols by their nature
    loop = True

    def initial(self):
        return (not self.loop, frozenset())

    def sticky(self, t, v):
        return t.k == "fld" and t.a[1] in ("is_public", "is_synthetic")

    # ------------------------------------------------ knowledge
    def know(self, st, *f):
        st.a = (st.a[0], st.a[1] | {f})

    def got(self, st, *f):
        return f in st.a[1]

    def val3(self, st, *f):
        return True if (f + (True,)) in st.a[1] else False if (f + (False,)) in st.a[1] else None

    def own(self, k, m):
        """Is k the key of an element of the map m itself?"""
        return k.k == "elem" and k.a[1] is m

    def on_fact(self, I, st, t, v):
        if t.k == "has" and isinstance(v, bool):
            self.know(st, "has", t.a[1], v)
        elif t.k == "fld" and t.a[1] in ("is_public", "is_synthetic") and isinstance(v, bool):
            b = t.a[0]
            while b.k == "upd" and "remap" in str(b.a[1]):
                b = b.a[2][0]
            if b.k == "idx" and not any(is_range(x) for x in [b.a[0]]):
                if self.own(b.a[1], b.a[0]):
                    self.know(st, "new", t.a[1], v)
                else:
                    self.know(st, "cur", b.a[1], t.a[1], v)
        elif t.k == "bin" and t.a[0] == "Eq" and isinstance(v, bool):
            x, y = t.a[1], t.a[2]
            if x.k == "fld" and y.k == "fld" and x.a[1] == y.a[1] == "name":
                self.know(st, "name", v)
            for a, b in ((x, y), (y, x)):
                if v is True and a.k == "str" and begin(b) is not None:
                    self.know(st, "skip", a.a[0].startswith(CONSTANTS))
                elif v is True and a.k == "int" and begin(b) is not None and any(z.k == "fld" and z.a[1] == "name" for z in subterms(b)):
                    self.know(st, "skip", "?")
                if a.k == "int" and str(a.a[0]) == "0" and strip(b).k == "fld" and strip(b).a[1] == "address":
                    self.know(st, "zero", v)
        elif t.k in ("call", "site") and is_call(t, "symbol::should_skip_symbol") and isinstance(v, bool):
            self.know(st, "skip", v)
        elif t.k == "call" and len(t.a[1]) == 2 and short(t.a[0]) in BEGINS and v in (True, "Some"):
            ps = prefixes(st, t.a[1][0], t.a[1][1])
            self.know(st, "skip", "?" if ps is None else all(p.startswith(CONSTANTS) for p in ps))
        elif v == "Err" and self.elemof(t):
            self.know(st, "err", True)
        elif v == "None" and t.k == "call" and short(t.a[0]) == "u32::checked_sub" and self.span(*t.a[1]):
            self.know(st, "negative", True)
        elif v is True and t.k == "bin" and t.a[0] == "Lt" and self.span(t.a[1], t.a[2]):
            self.know(st, "negative", True)
        elif v == "None" and t.k == "call" and short(t.a[0]) in ("u32::checked_add",):
            self.know(st, "overflow", True)
        if isinstance(v, bool) and t.k in ("bin", "un", "call") and any(is_range(x) for x in subterms(t)):
            self.know(st, "rng", t, v)

    def span(self, a, b):
        """Whether a and b are the end and the begin of an exception record."""
        a, b = strip(a), strip(b)
        return a.k == b.k == "fld" and a.a[1] == "end_address" and b.a[1] == "begin_address"

    def elemof(self, t):
        return any(x.k == "elem" for x in subterms(t))

    def position(self, st, key):
        """'in' or 'out' if the key is known to be inside / outside the symbol below it, else None."""
        for f in st.a[1]:
            if f[0] == "none" and f[1] is key:
                return "out"
        rs = [f for f in st.a[1] if f[0] == "rng"]
        if not rs:
            return None
        incl = False
        maps = set()
        for _, t, v in rs:
            for x in subterms(t):
                if is_range(x):
                    b = below(x, key)
                    if b is None:
                        return None
                    incl = incl or b == "<="
                    maps.add(x.a[1][0])
                    if not self.got(st, "back", x):
                        return None
        ok_, inn, out = False, True, True
        for env in EVAL:
            if env[1] == env[0] and not incl:
                continue
            try:
                if any(ev(t, key, env, is_range) != v for _, t, v in rs):
                    continue
            except No:
                return None
            ok_ = True
            inside = env[1] < env[0] and env[0] - env[1] < env[2]
            inn, out = inn and inside, out and not inside
        if not ok_:
            return "out"
        return "in" if inn else "out" if out else None

    # ------------------------------------------------ elements
    def source(self, I, it):
        return False

    def on_next(self, I, st, ev, it):
        if self.source(I, st, it):
            self.finish(I, st, ev.site())
            st.a = (False, frozenset())

    def on_elem(self, I, st, ev, it, v):
        if self.source(I, st, it):
            st.a = (True, st.a[1])
            if it.a[0].k == "ref":
                self.know(st, "src", it.a[0].a[0], it.a[0].a[1])
        for x in [it.a[0]]:
            if is_range(x) and not it.a[2] and ev.name in ("DoubleEndedIterator::next_back", "Iterator::last"):
                self.know(st, "back", x)
            if is_range(x) and len(it.a[2]) == 1 and it.a[2][0][0] == "rev" and ev.name == "Iterator::next":
                self.know(st, "back", x)

    def on_end(self, I, st, ev, it):
        if self.source(I, st, it):
            st.a = (False, frozenset())
        x = it.a[0]
        if is_range(x) and all(k == "rev" for k, _ in it.a[2]):
            b = x.a[1][1]
            for y in subterms(b):
                if below(x, y):
                    self.know(st, "none", y)

    def on_skip(self, I, st, ev, it):
        if self.source(I, st, it):
            st.a = (True, st.a[1])
            self.finish(I, st, ev.site())
            st.a = (False, frozenset())

    def on_exit(self, I, st, fn, v):
        self.finish(I, st, "exit of " + fn.path.replace("dump_syms::", ""))

    def finish(self, I, st, site):
        pass

    # ------------------------------------------------ changes
    def target(self, I, st, cell, path):
        """-> (path of the map, key, rest of the path) for a change inside the symbol table, else None."""
        for i, e in enumerate(path):
            if e[0] == "i":
                p = path[:i]
                if p and p[-1][0] == "f" and p[-1][1] not in ("syms", "symbols"):
                    return None
                for f in st.a[1]:
                    if f[0] == "src" and f[1] == cell and f[2] == p:
                        return None
                return p, e[1], path[i + 1:]
        return None

    def attrs(self, I, st, v):
        """-> (is_public, is_synthetic) of the new symbol as far as known."""
        pub, syn = self.val3(st, "new", "is_public"), self.val3(st, "new", "is_synthetic")
        v = strip(v)
        if v.k == "agg" and v.a[0] == SYM:
            f = dict(zip(v.a[2], v.a[3]))
            return I.known(st, f["is_public"]), I.known(st, f["is_synthetic"])
        return pub, syn

    def on_write(self, I, st, cell, path, v, site, fn):
        t = self.target(I, st, cell, path)
        if t is None:
            return
        _, key, rest = t
        v = I.resolve(st, v)
        if not rest:
            self.insert(I, st, key, v, site)
            self.know(st, "ins", True)
        elif rest[0][0] == "f":
            self.change(I, st, key, rest[0][1], v, site)

    def insert(self, I, st, key, v, site):
        pass

    def change(self, I, st, key, field, v, site):
        pass


def roots(make):
    """-> [(rule, root)]: make(name) gives a rule."""
    out = []
    D = "dump_syms::"

    def src_calls(*names):
        return lambda I, st, it: not is_range(it.a[0]) and any(is_call(x, *names) for x in subterms(it.a[0]))

    r = make("functions")
    r.loop, r.newpub, r.newsyn = False, False, False
    r.opaque = ("Collector::collect_function_with_inlines_recursive", "Collector::collect_function_without_inlines", "Lines::finalize", "Collector::demangle")
    out.append((r, D + "collector::Collector::collect_function"))

    r = make("publics")
    r.newpub, r.newsyn = True, False
    r.opaque = ("symbol::should_skip_symbol", "Collector::demangle_str", "ParsedWinFuncName::parse_unknown")
    r.source = src_calls("Object::symbols")
    out.append((r, D + "collector::Collector::collect_publics"))

    r = make("placeholders")
    r.newpub, r.newsyn = False, True
    r.source = lambda I, st, it: any(x.k == "arg" and x.a[1] not in ("self", "module_name") for x in subterms(it.a[0])) and not any(is_range(x) for x in subterms(it.a[0]))
    out.append((r, D + "collector::Collector::collect_placeholder_functions"))

    r = make("sections")
    r.newpub, r.newsyn = True, True
    r.source = lambda I, st, it: any(x.k == "fld" and x.a[1] == "section_headers" for x in subterms(it.a[0]))
    out.append((r, D + "symbol::add_executable_section_symbols"))

    r = make("merge")
    r.opaque = ("SourceMap::merge", "inline_origins::merge_inline_origins", "Symbol::remap_lines", "Symbol::remap_inlines")
    r.source = lambda I, st, it: it.a[1] in ("map", "mapmut", "values", "valuesmut") and not is_range(it.a[0])
    out.append((r, D + "object_info::ObjectInfo::merge"))
    return out


class Steps(CRule):
    """The order of the collection: functions, exception records, symbols, sections. Automaton: (steps done, pending function)."""
    opaque = ("Collector::collect_function", "Collector::collect_placeholder_functions", "Collector::collect_publics",
              "symbol::add_executable_section_symbols", "symbol::get_compressed_minidebuginfo", "object_info::get_stack_info")

    def initial(self):
        return (frozenset(), None)

    def isfun(self, it):
        return is_call(it.a[0], "ObjectDebugSession::functions") or any(is_call(x, "ObjectDebugSession::functions") for x in subterms(it.a[0]))

    def on_next(self, I, st, ev, it):
        if self.isfun(it) and st.a[1] is not None:
            self.given(I, st, ev)

    def given(self, I, st, ev):
        self.rep.ob("given", ev.site(), False, "a function that could be read isn't collected")
        st.a = (st.a[0], None)

    def on_fact(self, I, st, t, v):
        if v == "Err" and t is st.a[1]:
            st.a = (st.a[0], None)
        mini = any(is_call(x, "symbol::get_compressed_minidebuginfo") for x in subterms(t)) if isinstance(v, str) else False
        if mini and (v == "None" and is_call(t, "symbol::get_compressed_minidebuginfo") or v == "Err" and is_call(t, "Object::parse", "ElfObject::parse")):
            st.a = (st.a[0] | {"no M"}, st.a[1])
        if isinstance(v, str) and (v == "None" and is_call(t, "PeObject::exception_data") or t.k == "arg" and t.a[1] == "main_object" and v != "Pe"):
            st.a = (st.a[0] | {"no X"}, st.a[1])

    def on_exclude(self, I, st, t, vs):
        if t.k == "arg" and t.a[1] == "main_object" and "Pe" in vs:
            st.a = (st.a[0] | {"no X"}, st.a[1])

    def on_elem(self, I, st, ev, it, v):
        if self.isfun(it):
            bad = [k for k, _ in it.a[2] if k not in ("map", "enumerate", "swap", "inspect", "filter_map", "flat_map", "flatten")]
            self.rep.ob("given", ev.site() + " all", not bad, "the loop goes over all the functions%s" % "".join(" " + b for b in bad))
            if self.elem(it, v):
                st.a = (st.a[0], v)

    def elem(self, it, v):
        return not it.a[2]

    def on_end(self, I, st, ev, it):
        if self.isfun(it):
            if st.a[1] is not None:
                self.given(I, st, ev)
            st.a = (st.a[0] | {"F"}, None)

    def on_call(self, I, st, ev):
        n, d = ev.name, st.a[0]
        if n == "Collector::collect_function":
            self.rep.ob("steps", ev.site() + " " + n, not d & {"P", "X", "S"}, "the functions are collected before the other symbols")
            st.a = (d, None)
        elif n == "Collector::collect_placeholder_functions":
            self.rep.ob("steps", ev.site() + " " + n, "F" in d and not d & {"P", "S"}, "the exception records are collected after the functions and before the symbols")
            st.a = (d | {"X"}, None)
        elif n == "Collector::collect_publics":
            self.rep.ob("steps", ev.site() + " " + n, "F" in d and "S" not in d, "the symbols are collected after the functions and before the sections")
            o = I.resolve(st, ev.args[1])
            st.a = (d | {"M" if any(is_call(x, "symbol::get_compressed_minidebuginfo") for x in subterms(o)) else "P"}, None)
        elif n == "symbol::add_executable_section_symbols":
            self.rep.ob("steps", ev.site() + " " + n, {"F", "P"} <= d, "the sections come last")
            st.a = (d | {"S"}, None)
        return None

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if adt == "dump_syms::object_info::ObjectInfo":
            v = I.resolve(st, vals[list(names).index("symbols")])
            good = all(is_call(a, "symbol::add_executable_section_symbols") for a in I.alts(v)) and any(x.k == "upd" and "collect_publics" in x.a[1] for x in I.sources(v))
            d = st.a[0]
            self.rep.ob("steps", site + " minidebuginfo", d & {"M", "no M"}, "the symbols of the embedded debug data are collected, if there are some")
            self.rep.ob("steps", site + " exception records", d & {"X", "no X"}, "the exception records of a PE are collected, if there are some")
            self.rep.ob("steps", site + " symbols", good and {"F", "P", "S"} <= st.a[0], "all the symbols that were collected are those of the module: %s %s" % (sorted(st.a[0]), show(v)))


REMOVERS = ("remove", "remove_entry", "pop_first", "pop_last", "retain", "split_off", "clear", "append", "extract_if", "into_iter", "into_values")


def removals(ctx, rep, rid):
    """Nothing removes symbols from the table."""
    n = 0
    for c in all_calls(ctx.prog):
        m = re.match(r".*btree.*(BTreeMap|OccupiedEntry)(?:<.*>)?::(\w+)$", c.path)
        if m and any("symbol::Symbol" in t for t in c.targs):
            n += 1
            rep.ob(rid, "%s (%s) %s" % (c.sp, c.fn.path.replace("dump_syms::", ""), m.group(2)), m.group(2) not in REMOVERS, "the symbols of the table aren't removed: %s" % m.group(2))
    return n
