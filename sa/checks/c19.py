"""One naming rule for functions, publics and inlines."""
from checklib import *
from checks import emit
import relang

ASSUMPTIONS = ["symbolic's demangler demangles", "regex::Regex matches as documented"]
# what compilers add to the names: several of these may follow each other at the end of a name
SUFFIXES = r"((\.(cold|constprop|llvm|localalias|lto_priv|isra|part|str)(\.[0-9]+)?)|( ?\[clone[^\]]*\] ?))+$"
ANON = ("`anonymous namespace'", "(anonymous namespace)")
COL = "dump_syms::collector::Collector::"
GET_ID = "dump_syms::inline_origins::InlineOrigins::get_id"
CONV = ("Name::as_str", "Name::to_string", "Cow::into_owned", "Cow::to_string", "Name::as_ref", "Name::into_string", "Name::into_cow")


def plain(t):
    """Through the conversions that keep a text."""
    while True:
        if is_call(t, "Cow::into_owned", "String::as_str", "ToString::to_string", "str::to_string", "Cow::as_ref", "Deref::deref", "str::to_owned", "AsRef::as_ref", "Cow::deref", "String::from", "Cow::into_string"):
            t = cargs(t)[0]
        elif t.k == "fmt" and len(t.a[0]) == 1 and t.a[0][0][0] == "arg" and t.a[0][0][1] == "d":
            t = t.a[0][0][3]
        else:
            return t


class Names(emit.Clean, CRule):
    opaque = ("is_inside_symbol", "ParsedWinFuncName::parse_unknown", "should_skip_symbol", "Lines::finalize", "collect_function_with_inlines_recursive",
              "collect_function_without_inlines")
    write_errors = False

    def __init__(self, rep, prog):
        super().__init__(rep)
        self.prog = prog
        self.cleans, self.pushed = {}, {}
        self.got = {}
        self.aggs, self.sizes = set(), set()

    def sticky(self, t, v):
        s = t.a[0] if t.k == "discr" else t
        if is_call(s, "Demangle::demangle", "Name::language", "Demangle::detect_language", "Symbol::name"):
            return True
        if s.k == "fld" and s.a[1] == "name" and s.a[0].k == "elem":
            return True
        return isinstance(v, bool) and t.k == "bin" and t.a[0] == "Eq" and any(is_call(x, "Name::language", "Demangle::detect_language") or x.k == "discr" and (
            is_call(x.a[0], "Name::language", "Demangle::detect_language") or x.a[0].k == "fld" and x.a[0].a[1] == "platform") for x in t.a[1:])

    # ------------------------------------------------ the parts of the rule
    def regex(self, t):
        """The text of a regular expression."""
        if t.k == "static":
            out = set()
            for n, f in self.prog.fns.items():
                if n == t.a[0] or n.startswith(t.a[0] + "::"):
                    for b in f.blocks:
                        for s in b["s"]:
                            if s[0] == "=":
                                out |= set(strings(s[2]))
                        x = b.get("t")
                        if x and x["t"] == "call":
                            out |= set(strings(x["a"]))
            return out.pop() if len(out) == 1 else None
        for x in subterms(t):
            if is_call(x, "Regex::new") and cargs(x)[0].k == "str":
                return cargs(x)[0].a[0]
            if x.k == "static" and x is not t:
                return self.regex(x)
        return None

    def fixed_text(self, t, ev):
        """The text of a name, after both fixes -> the name, or None and why."""
        done, why = set(), None
        while True:
            t = plain(t)
            if is_call(t, "str::replace", "str::replacen"):
                a = cargs(t)
                if a[1].k != "str" or a[2].k != "str" or (a[1].a[0], a[2].a[0]) != ANON or len(a) > 3:
                    return None, "another replacement: %s" % show(tup(*a[1:]))[:80]
                done.add("anonymous")
                t = a[0]
            elif is_call(t, "Regex::replace", "Regex::replace_all"):
                a = cargs(t)
                rx = self.regex(a[0])
                if rx is None or a[2].k != "str" or a[2].a[0] != "":
                    return None, "another replacement: %s" % show(t)[:80]
                why = relang.same_suffix(rx, SUFFIXES)
                if why:
                    return None, "the expression doesn't match the suffixes: %s" % why
                done.add("suffix")
                t = a[0 + 1]
            elif is_call(t, "Name::as_str"):
                t = cargs(t)[0]
                break
            else:
                break
        if done != {"anonymous", "suffix"}:
            return None, "what is fixed: %s" % sorted(done)
        return t, None

    def fixed(self, t, ev):
        """A name whose text was fixed -> the name it is made from."""
        t = plain(t)
        if not is_call(t, "Name::new"):
            return None, "the name is used without being fixed: %s" % show(t)[:80]
        x, m, l = cargs(t)
        n, why = self.fixed_text(x, ev)
        if n is None:
            return None, why
        for y, f in ((m, "Name::mangling"), (l, "Name::language")):
            if is_call(y, f) and cargs(y)[0] is n:
                continue
            if is_call(n, "Name::new") and cargs(n)[1 if f == "Name::mangling" else 2] is y:
                continue
            return None, "the fixed name has another %s" % f
        return n, None

    def options(self, t):
        """-> (return type, parameters)"""
        if is_call(t, "DemangleOptions::complete"):
            return True, True
        if is_call(t, "DemangleOptions::name_only"):
            return False, False
        if is_call(t, "DemangleOptions::return_type", "DemangleOptions::parameters"):
            o, b = self.options(cargs(t)[0]), cargs(t)[1]
            if o and b.k == "bool":
                return (b.a[0], o[1]) if is_call(t, "DemangleOptions::return_type") else (o[0], b.a[0])
        return None

    def lang(self, I, st, n, name):
        """Is the language known to be (or not to be) that one?"""
        for f, v in st.f.items():
            x = f.a[0] if f.k == "discr" else f
            if is_call(x, "Name::language", "Demangle::detect_language") and cargs(x)[0] is n and isinstance(v, str):
                return v == name
            if f.k == "bin" and f.a[0] == "Eq" and isinstance(v, bool):
                for y, z in (f.a[1:], f.a[:0:-1]):
                    y, z = [w.a[0] if w.k == "discr" else w for w in (y, z)]
                    if is_call(y, "Name::language", "Demangle::detect_language") and cargs(y)[0] is n and z.k == "agg" and z.a[1] == name:
                        return v
        return None

    def origin(self, I, st, ev, n):
        """The text or name of the debug info the name stands for -> (text, None) or (None, why)."""
        n = plain(n)
        if is_call(n, "Name::new"):
            x, m, l = cargs(n)
            if m.k != "agg" or m.a[1] == "Unmangled":
                return None, "the name isn't taken for a mangled one"
            if not (is_call(l, "Demangle::detect_language") or l.k == "agg" and l.a[1] == "Unknown"):
                return None, "the language is neither detected nor unknown: %s" % show(l)[:60]
            if is_call(l, "Demangle::detect_language"):
                d = plain(cargs(l)[0])
                if not is_call(d, "Name::new") or plain(cargs(d)[0]) is not plain(x) or cargs(d)[1].k != "agg" or cargs(d)[1].a[1] == "Unmangled" or cargs(d)[2].k != "agg" or cargs(d)[2].a[1] != "Unknown":
                    return None, "the language of something else is detected"
            return plain(x), None
        return n, None

    def judge(self, I, st, t, site):
        """-> (source, None) or (None, why)"""
        t = plain(t)
        if t.k == "pay" and t.a[1] == "Some" and is_call(t.a[0], "Demangle::demangle") or is_call(t, "Demangle::try_demangle") or is_call(t, "unwrap_or") and is_call(cargs(t)[0], "Demangle::demangle"):
            if is_call(t, "unwrap_or"):
                d, alt = cargs(t)
                alt = plain(alt)
                if is_call(alt, "Name::as_str"):
                    alt = cargs(alt)[0]
                if plain(alt) is not plain(cargs(d)[0]):
                    return None, "a name that can't be demangled isn't kept: %s" % show(alt)[:80]
                t = d
            d = t.a[0] if t.k == "pay" else t
            n, o = cargs(d)[:2]
            if self.options(o) != (False, True):
                return None, "the name is demangled with its parameters and without its return type: %s" % show(o)[:100]
            n, why = self.fixed(n, site)
            if n is None:
                return None, why
            return self.origin(I, st, site, n)
        if t.k == "str":
            if t.a[0] != "<name omitted>":
                return None, "another name: %r" % t.a[0]
            for f, v in st.f.items():
                x = f.a[0] if f.k == "discr" else f
                if v == "None" and (is_call(x, "Symbol::name") or x.k == "fld" and x.a[1] == "name"):
                    return t, None
            return None, "<name omitted> for a symbol that may have a name"
        x = cargs(t)[0] if is_call(t, "Name::as_str") else t
        n, why = self.fixed(x, site)
        if n is not None:
            # kept: C, or it can't be demangled
            fx = plain(x)
            if self.lang(I, st, fx, "C") or self.lang(I, st, n, "C"):
                return self.origin(I, st, site, n)
            for f, v in st.f.items():
                y = f.a[0] if f.k == "discr" else f
                if v == "None" and is_call(y, "Demangle::demangle") and plain(cargs(y)[0]) is fx:
                    if self.options(cargs(y)[1]) != (False, True):
                        return None, "demangled with other options"
                    return self.origin(I, st, site, n)
            return None, "a name that isn't C isn't demangled"
        # raw: the language isn't known
        for f, v in st.f.items():
            for y in (subterms(f) if isinstance(v, (bool, str)) else ()):
                if is_call(y, "Demangle::detect_language"):
                    nm = plain(cargs(y)[0])
                    if is_call(nm, "Name::new") and plain(cargs(nm)[0]) is t and cargs(nm)[1].k == "agg" and cargs(nm)[1].a[1] != "Unmangled" and self.lang(I, st, cargs(y)[0], "Unknown"):
                        return t, None
        return None, why

    # ------------------------------------------------ where the names are used
    def source(self, I, st, s, site, synthetic=None):
        rep = self.rep
        if s.k == "str":
            rep.ob("source", site + " no name", True, "a symbol without name")
            return
        win = None
        for f, v in st.f.items():
            if f.k == "bin" and f.a[0] == "Eq" and isinstance(v, bool):
                ds = [x.a[0] for x in f.a[1:] if x.k == "discr"]
                if len(ds) == 2 and any(x.k == "fld" and x.a[1] == "platform" for x in ds) and any(x.k == "agg" and x.a[1] == "Win" for x in ds):
                    win = v
            if f.k == "fld" and f.a[1] == "platform":
                win = v == "Win" if isinstance(v, str) else "Win" not in v and win
        x = s
        if x.k == "fld" and x.a[1] == "name" and is_call(x.a[0], "ParsedWinFuncName::parse_unknown"):
            rep.ob("source", site + " decoration", win is True, "the decoration of a name is removed on Windows only (%s)" % win)
            x = plain(cargs(x.a[0])[0])
        elif x.k == "pay":
            rep.ob("source", site + " decoration", win is False, "the decoration of a name is removed on Windows (%s)" % win)
        if x.k == "pay" and x.a[1] == "Some":
            x = x.a[0]
            ok = x.k == "fld" and x.a[1] == "name" and x.a[0].k == "elem" or is_call(x, "Symbol::name") and cargs(x)[0].k == "elem"
        else:
            ok = x.k == "fld" and x.a[1] == "name" and x.a[0].k == "arg" or x.k == "arg" and x.a[1] == "name"
        rep.ob("source", site, ok, "the name is the one of the function, symbol or inlinee: %s" % show(s)[:100])

    def name(self, I, st, v, site):
        v = I.resolve(st, v)
        for a in I.alts(v):
            c = self.cleaned(a, I)
            for b in I.alts(c if c is not None else a):
                s, why = self.judge(I, st, b, site)
                self.rep.ob("named", site, s is not None, "the name follows the rule: %s" % (why or "yes"))
                if s is not None:
                    self.source(I, st, s, site)

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if adt != "dump_syms::symbol::Symbol":
            return
        self.aggs.add(fn.path)
        d = dict(zip(names, vals))
        if fn.path.endswith("::default"):
            return          # the values that a "..Default::default()" completes are seen once they are complete
        syn = d.get("is_synthetic")
        if syn is not None and I.resolve(st, syn) is TRUE:
            return
        self.name(I, st, d["name"], site)
        self.size(I, st, d["parameter_size"], site, fn)

    def on_write(self, I, st, cell, path, v, site, fn):
        if path and path[-1] == ("f", "name") and len(path) > 1 and any(e == ("f", "syms") for e in path):
            self.name(I, st, v, site)
        if path and path[-1] == ("f", "parameter_size") and len(path) > 1 and any(e == ("f", "syms") for e in path):
            self.size(I, st, v, site, fn)

    def size(self, I, st, v, site, fn):
        for a in I.alts(I.resolve(st, v)):
            given = any(x.k == "fld" and x.a[1] == "param_size" and is_call(x.a[0], "ParsedWinFuncName::parse_unknown") for x in subterms(a))
            if given:
                self.sizes.add(fn.path)
            self.rep.ob("decoration", "%s parameter_size" % site, given or a.k == "int" and a.a[0] == 0, "the size of the parameters is the one of the decoration, or it isn't known: %s" % show(a)[:80])

    def on_elem(self, I, st, ev, it, v):
        self.clean_elem(I, st, it, v)

    def on_skip(self, I, st, ev, it):
        self.clean_skip(I, st, it, ev, "named")

    def on_call(self, I, st, ev):
        emit.Clean.on_call(self, I, st, ev)
        if ev.name in ("Vec::push", "Vec::insert") and ev.targs and "String" in ev.targs[0].get("s", ""):
            self.name(I, st, ev.args[-1], ev.site() + " " + ev.name)
        return None


def strings(x):
    if isinstance(x, dict):
        if isinstance(x.get("str"), str):
            yield x["str"]
        for v in x.values():
            yield from strings(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from strings(v)


class Given(CRule):
    """What the list of the inline origins is asked for."""
    opaque = ("InlineOrigins::get_id", "SourceFiles::get_id", "get_true_id", "add_line", "add_inline", "Lines::finalize", "Collector::demangle")

    def on_call(self, I, st, ev):
        if ev.path == GET_ID:
            for a in I.alts(I.resolve(st, ev.args[1])):
                self.rep.ob("given", ev.site(), a.k == "fld" and a.a[1] == "name" and a.a[0].k == "elem" and "inlinees" in fields_of(a.a[0].a[1])[0], "the name of an inlinee: %s" % show(a)[:80])
        return None


FRONT = ("str::split_once", "str::find", "str::split", "str::splitn", "str::split_terminator", "str::split_inclusive", "str::char_indices", "str::match_indices", "str::matches")
UNDO = ("str::trim", "str::trim_start", "str::trim_end", "str::trim_start_matches", "str::trim_end_matches", "str::trim_matches", "str::trim_left_matches", "str::trim_right_matches",
        "str::replace", "str::replacen", "str::to_lowercase", "str::to_uppercase")


def chars(t):
    """The characters of the texts in a term."""
    out = ""
    for x in subterms(t):
        if x.k == "str" and isinstance(x.a[0], str):
            out += x.a[0]
        elif x.k == "bytes":
            out += bytes(x.a[0]).decode("latin-1")
        elif x.k == "int" and isinstance(x.a[0], int) and 32 < x.a[0] < 127:
            out += chr(x.a[0])
    return out


class Win(CRule):
    """The decoration of the calling conventions of Windows: what is certainly wrong with what is left of a name."""

    def sticky(self, t, v):
        return True

    def on_exit(self, I, st, fn, v):
        if not fn.path.endswith("ParsedWinFuncName::parse_unknown"):
            return
        v = I.resolve(st, v)
        if v.k != "agg" or "name" not in (v.a[2] or ()):
            return
        d = dict(zip(v.a[2], v.a[3]))
        for name in I.alts(I.resolve(st, d["name"])):
            for size in I.alts(I.resolve(st, d["param_size"])):
                why = self.wrong(st, plain(name), size)
                self.rep.ob("decoration", "%s, %s" % (show(name)[:60], show(size)[:90]), why is None, "only the decoration is removed: %s" % (why or "yes"))

    def wrong(self, st, n, z):
        whole = n.k == "arg"
        ats = [x for x in subterms(z) if x.k == "call" and "@" in chars(x) and short(x.a[0]).startswith("str::")]
        for x in list(subterms(n)) + list(subterms(z)):
            if is_call(x, *FRONT) and "@" in chars(mk("()", *cargs(x)[1:])):
                return "the size is after the last @, not after the first one: %s" % show(x)[:60]
            if is_call(x, *UNDO):
                return "more than the decoration may be removed: %s" % show(x)[:60]
        if whole and ats:
            return "the size is taken, but the name keeps it"
        asked = [x for x, v in st.f.items() if is_call(x, "str::contains")]
        if not whole and asked:
            for c in ":(":
                if not any(c in chars(x) and st.f[x] is False for x in asked):
                    return "a name with %s isn't a decorated one" % c
        cut = n.a[0].a[0] if n.k == "fld" and n.a[0].k == "pay" and is_call(n.a[0].a[0], "str::rsplit_once") else None
        sz = None
        for x in ats:
            if is_call(x, "str::rsplit_once"):
                sz = x
                break
        if cut is not None and n.a[1] == "1":
            return "the name is before the @"
        if cut is not None and sz is not None and cut is not sz:
            return "the name and the size aren't from the same place"
        if cut is not None and sz is None and z.k == "agg" and z.a[1] == "None":
            return "something is cut from a name that has no size"
        if cut is not None and z.k != "agg":
            return "something is cut from a name that may have no size: %s" % show(z)[:60]
        if sz is not None and cut is sz:
            src, sep = cargs(sz)[:2]
            src = plain(src)
            if sep.k == "str" and sep.a[0] == "@@" and src.k != "arg":
                return "the names of __vectorcall have no leading character"
            if sep.k == "str" and sep.a[0] == "@":
                if src.k == "arg":
                    return "the leading character is kept"
                if not any("@@" in chars(x) for x in st.f):
                    return "the names of __vectorcall aren't told from the others"
        if not whole and not ats:
            yes = [chars(x) for x, v in st.f.items() if v not in (False, "None") and not isinstance(v, tuple)]
            no = [chars(x) for x, v in st.f.items() if v is False]
            if not any("_" in x and ("@" not in x or any("@" in y and "_" not in y for y in no)) for x in yes) and "_" not in chars(n):
                return "only _ is removed from a name that has no size"
        return None


class Only:
    """A report that only keeps one rule."""

    def __init__(self, rep, keep):
        self.rep, self.keep = rep, keep

    def ob(self, rid, *a, **k):
        if rid in self.keep:
            return self.rep.ob(rid, *a, **k)


def check(ctx):
    rep = ctx.rep
    rep.rule("named", "the name of a function, public or inline origin is fixed, then demangled with its parameters and without its return type, unless it is C or can't be demangled")
    rep.rule("source", "it is made from the name found in the debug info or the symbol table")
    rep.rule("given", "the inline origins are made from the names of the inlinees")
    rep.rule("name", "a symbol or an inline origin whose name is blank is written with <name omitted>")
    rep.rule("decoration", "on Windows, only the decoration of the calling convention is removed, and the size of the parameters it gives is the one of the symbol")
    rep.rule("others", "the other symbols are placeholders")
    aggs = set()
    for root in (COL + "collect_function", COL + "collect_publics", GET_ID):
        r = Names(rep, ctx.prog)
        run(ctx, r, root)
        aggs |= r.aggs
        if root.endswith("collect_publics"):
            rep.ob("decoration", root + " sizes", bool(r.sizes), "the sizes of the parameters are used")
    run(ctx, Win(rep), "dump_syms::symbol::ParsedWinFuncName::parse_unknown")
    run(ctx, Given(rep), COL + "collect_function")
    for root in (COL + "collect_placeholder_functions", "dump_syms::symbol::add_executable_section_symbols"):
        r = Names(rep, ctx.prog)
        run(ctx, r, root)
        aggs |= r.aggs
    for fn in ctx.prog.fns.values():
        if fn.crate != "dump_syms" or "::test" in fn.path or " as core::" in fn.path or " as std::" in fn.path:
            continue
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][2] == "dump_syms::symbol::Symbol":
                    rep.ob("others", "%s (%s)" % (s[3], fn.path), fn.path in aggs, "a symbol made here is one of those that were looked at")
    e = emit.Emit(Only(rep, ("name",)))
    run(ctx, e, DISPLAY)
    rep.floor("named", 3, "names of functions, publics (2) and inline origins")
    rep.floor("source", 4, "names of functions, publics (2) and inline origins")
    rep.floor("given", 1, "names of inlinees")
    rep.floor("name", 3, "PUBLIC, FUNC and INLINE_ORIGIN records")
    rep.floor("others", 3, "symbols made")
