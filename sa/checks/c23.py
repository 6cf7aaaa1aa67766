"""Each file format is handled by its own reader."""
from checklib import *
from checks import c18

ASSUMPTIONS = ["symbolic recognises the formats and reads the objects correctly"]
READ = {"ObjectInfo::from_elf": "Elf", "ObjectInfo::from_macho": "MachO", "ObjectInfo::from_pdb": "Pdb", "ObjectInfo::from_pe_with_mapping": "Pe", "ObjectInfo::from_pe": "Pe",
        "ObjectInfo::from_object": None}
FROM = "dump_syms::object_info::ObjectInfo::from_object"


def arg(t, *names):
    return t.k == "arg" and t.a[1] in names


def given(t, *names):
    """The text given, possibly converted."""
    while t.k == "fmt" and len(t.a[0]) == 1 and t.a[0][0][0] == "arg":
        t = t.a[0][0][3]
    return arg(t, *names)


def deep(I, t):
    """All the terms a value is made of."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y not in seen:
                seen.add(y)
                if y.k == "phi" and y in I.phi_ops:
                    todo += list(I.phi_ops[y])
    return seen


class Parts:
    """Which piece of a name is taken: pieces are known by their terms."""
    front = frozenset()        # pieces taken at the wrong end

    def on_elem(self, I, st, ev, it, v):
        src = it.a[0]
        if not is_call(src, "str::split", "str::rsplit", "str::splitn", "str::rsplitn", "str::split_terminator", "str::rsplit_terminator"):
            return
        back = (ev.name.split("::")[-1] in ("next_back", "last")) != any(k == "rev" for k, _ in it.a[2])
        r = short(src.a[0]).startswith("str::rsplit")
        if back == r or it.a[2] and any(k != "rev" for k, _ in it.a[2]):
            self.front = self.front | {v}

    def cut(self, I, a, sep):
        """-> None for a name that isn't cut, True if its last component is kept, else False."""
        src = deep(I, a)
        if any(x in self.front for x in src) or any(is_call(x, "str::find", "str::split_once") for x in src):
            return False
        calls = [x for x in src if is_call(x, "str::rsplit", "str::rfind", "str::rsplit_once", "str::rsplitn", "str::split", "Path::file_name")]
        if not calls:
            return None
        good = any(is_call(x, "Path::file_name") or len(cargs(x)) > 1 and sep in show(cargs(x)[-1]) for x in calls)
        for x in src:
            found = lambda y: y.k == "pay" and is_call(y.a[0], "str::rfind")
            if x.k == "bin" and any(found(y) for y in x.a[1:]):
                good = good and x.a[0].startswith("Add") and any(y.k == "int" and y.a[0] == 1 for y in x.a[1:])
            if x.k == "idx" and x.a[1].k == "agg" and any(found(y) for y in x.a[1].a[3]):
                good = False
            if x.k == "fld" and x.a[1] == "0" and x.a[0].k == "pay" and is_call(x.a[0].a[0], "str::rsplit_once"):
                good = False
        return good


class Dispatch(CRule):
    """Automaton: the readers that were tried."""
    opaque = tuple(READ) + ("cache::get_sym_servers", "utils::get_pe_pdb_buf", "utils::find_pe_for_pdb")

    def initial(self):
        return frozenset()

    def peeked(self, t):
        return is_call(t, "debuginfo::peek", "object::peek", "debuginfo::object::peek", "Archive::peek", "Object::peek") or t.k in ("call", "site") and (t.a[0] if t.k == "call" else t.a[1]).endswith("::peek")

    def sticky(self, t, v):
        return self.peeked(t)

    def form(self, I, st):
        for t, v in st.f.items():
            if self.peeked(t) and isinstance(v, str):
                a = cargs(t)
                self.rep.ob("detected", "peek", arg(a[0], "buf") and (len(a) < 2 or a[1].a and a[1].a[0] is True), "the format is detected from the contents, fat binaries included: %s" % show(t)[:80])
                return v
        return None

    def on_call(self, I, st, ev):
        r = next((x for x in READ if ev.path.endswith(x)), None)
        if ev.path.endswith("utils::get_pe_pdb_buf"):
            st.a = st.a | {"pdb of the pe"}
            return None
        if not r:
            return None
        f = self.form(I, st)
        a = [I.resolve(st, x) for x in ev.args]
        w = ev.site()
        want = READ[r]
        if r == "ObjectInfo::from_pdb" and f == "Pe":
            want = "Pe"
        self.rep.ob("reader", w, f is not None and f == want, "%s is used for a %s file" % (ev.name, f))
        if r == "ObjectInfo::from_elf":
            self.rep.ob("reader", w + " file", arg(a[0], "buf") and given(a[1], "filename"), "the file read is the input, with its name: %s, %s" % (show(a[0])[:60], show(a[1])[:60]))
            self.rep.ob("platform", w, a[2].k == "agg" and a[2].a[1] == "Linux", "the platform of an ELF file is Linux: %s" % show(a[2])[:60])
        if r == "ObjectInfo::from_macho":
            self.rep.ob("reader", w + " file", arg(a[0], "buf") and given(a[1], "filename"), "the file read is the input, with its name: %s, %s" % (show(a[0])[:60], show(a[1])[:60]))
            self.rep.ob("architecture", w, arg(a[2], "arch"), "the architecture is the one asked for: %s" % show(a[2])[:60])
        if r == "ObjectInfo::from_pdb" and f == "Pdb":
            good = a[0].k == "pay" and is_call(a[0].a[0], "PdbObject::parse") and arg(cargs(a[0].a[0])[0], "buf")
            self.rep.ob("reader", w + " file", good and given(a[1], "filename"), "the file read is the input, with its name: %s, %s" % (show(a[0])[:60], show(a[1])[:60]))
        if r == "ObjectInfo::from_pdb" and f == "Pe":
            def of(t, n):
                return t.k == "fld" and t.a[1] == n and t.a[0].k == "pay" and is_call(t.a[0].a[0], "utils::get_pe_pdb_buf") and arg(cargs(t.a[0].a[0])[1], "buf")
            some = lambda t, p: t.k == "agg" and t.a[1] == "Some" and p(t.a[3][0])
            good = a[0].k == "pay" and is_call(a[0].a[0], "PdbObject::parse") and of(cargs(a[0].a[0])[0], "1")
            self.rep.ob("reader", w + " pdb of the pe", good, "the PDB read is the one of the PE: %s" % show(a[0])[:100])
            self.rep.ob("reader", w + " names", of(a[1], "2") and some(a[2], lambda t: given(t, "filename")), "the PDB has its own name, the PE that of the input: %s, %s" % (show(a[1])[:80], show(a[2])[:60]))
            self.rep.ob("reader", w + " pe", some(a[3], lambda t: of(t, "0")), "the PE is the input: %s" % show(a[3])[:100])
        if READ[r] == "Pe":
            good = any(x.k == "pay" and is_call(x.a[0], "PeObject::parse") and arg(cargs(x.a[0])[0], "buf") for x in subterms(a[1]))
            self.rep.ob("reader", w + " file", good and given(a[0], "filename"), "the file read is the input, with its name: %s, %s" % (show(a[1])[:60], show(a[0])[:60]))
            self.rep.ob("reader", w + " pdb first", "pdb of the pe" in st.a, "a PE is dumped on its own only after its PDB was looked for")
        return None

    def on_exit(self, I, st, fn, v):
        if v.k == "agg" and v.a[1] == "Err" or not I.assume_variant(st.copy(), v, "Ok"):
            return
        f = self.form(I, st)
        self.rep.ob("unknown", "exit of " + fn.path, f in ("Elf", "MachO", "Pe", "Pdb"), "success is only returned for a known format: %s" % f)
        self.exits.append(("exit of %s %s" % (fn.path, f), v))

    exits = None

    def after(self, I):
        for where, v in self.exits:
            todo, seen = [v], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.k == "agg" and x.a[1] == "Ok":
                    todo.append(x.a[3][0])
                elif x.k == "phi" and x in I.phi_ops:
                    todo += list(I.phi_ops[x])
                elif x.k == "pay":
                    todo.append(x.a[0])
                elif not (x.k == "agg" and x.a[1] == "Err"):
                    self.rep.ob("reader", where, x.k in ("call", "site") and (x.a[0] if x.k == "call" else x.a[1]).endswith(tuple(READ)), "the result is that of a reader: %s" % show(x)[:80])


class Reader(Parts, CRule):
    """What a reader reads. The automaton counts the objects read."""
    opaque = ("ObjectInfo::from_object",)

    def __init__(self, rep, kind):
        super().__init__(rep)
        self.kind = kind
        self.pe_names = []

    def sticky(self, t, v):
        s = subterms(t)
        return isinstance(v, (bool, str)) and any(is_call(x, "Object::arch", "Archive::object_count", "PeObject::debug_file_name", "Option::is_some") for x in s)

    def initial(self):
        return 0

    def on_call(self, I, st, ev):
        if ev.path != FROM:
            return None
        st.a = 1
        a = [I.resolve(st, x) for x in ev.args]
        rep, k = self.rep, self.kind
        w = "%s %s" % (k, ev.site())
        plat = a[4]
        if k == "from_elf":
            rep.ob("object", w, a[0].k == "pay" and is_call(a[0].a[0], "Object::parse", "ElfObject::parse") and arg(cargs(a[0].a[0])[0], "buf"), "the object is the one in the file: %s" % show(a[0])[:80])
            rep.ob("name", w, given(a[1], "file_name"), "the name is the one given: %s" % show(a[1])[:60])
            rep.ob("platform", w, arg(plat, "platform"), "the platform is the one given: %s" % show(plat)[:60])
        if k == "from_macho":
            for t in ([a[0]] if a[0].k == "phi" and False else I.alts(a[0])):
                self.macho(I, st, w, t)
            rep.ob("name", w, given(a[1], "file_name"), "the name is the one given: %s" % show(a[1])[:60])
            rep.ob("platform", w, plat.k == "agg" and plat.a[1] == "Mac", "the platform of a Mach-O file is Mac: %s" % show(plat)[:60])
        if k in ("from_elf", "from_macho"):
            rep.ob("object", w + " no pe", all(x.k == "agg" and x.a[1] == "None" for x in a[2:4]), "there is no PE: %s" % [show(x)[:40] for x in a[2:4]])
        if k == "from_pdb":
            rep.ob("object", w, a[0].k == "agg" and a[0].a[1] == "Pdb" and arg(a[0].a[3][0], "pdb"), "the object is the PDB: %s" % show(a[0])[:80])
            rep.ob("object", w + " pe", all(self.pe(I, st, t) for t in I.alts(a[2])), "the PE is the one given: %s" % show(a[2])[:80])
            rep.ob("name", w, given(a[1], "pdb_name"), "the name is that of the PDB: %s" % show(a[1])[:60])
            rep.ob("name", w + " pe", arg(a[3], "pe_name"), "the PE name is the one given: %s" % show(a[3])[:60])
            rep.ob("platform", w, plat.k == "agg" and plat.a[1] == "Win", "the platform of a PDB is Windows: %s" % show(plat)[:60])
        if k == "from_pe_with_mapping":
            rep.ob("object", w, a[0].k == "agg" and a[0].a[1] == "Pe" and arg(a[0].a[3][0], "pe"), "the object is the PE: %s" % show(a[0])[:80])
            rep.ob("name", w + " pe", a[3].k == "agg" and a[3].a[1] == "Some" and given(a[3].a[3][0], "pe_name"), "the PE name is the one given: %s" % show(a[3])[:60])
            rep.ob("platform", w, plat.k == "agg" and plat.a[1] == "Win", "the platform of a PE is Windows: %s" % show(plat)[:60])
            self.pe_names += [(w, I.resolve(st, x)) for x in I.alts(a[1])]
        return None

    def pe(self, I, st, t):
        if t.k == "omap":
            return arg(t.a[0], "pe") and any("Pe" in str(x.a[:2]) for x in subterms(t.a[1]) if x.k in ("call", "agg"))
        if t.k == "agg" and t.a[1] == "Some":
            return any(arg(x, "pe") for x in subterms(t))
        if t.k == "agg" and t.a[1] == "None":
            return any(arg(x, "pe") and v == "None" for x, v in st.f.items())
        return False

    def macho(self, I, st, w, t):
        rep = self.rep
        s = subterms(t)

        def archive(x):
            return any(is_call(y, "Archive::parse") and arg(cargs(y)[0], "buf") for y in subterms(x))
        one = next((v for x, v in st.f.items() if x.k == "bin" and x.a[0] == "Eq" and any(is_call(y, "Archive::object_count") for y in x.a[1:]) and any(y.k == "int" and y.a[0] == 1 for y in x.a[1:]) and isinstance(v, bool)), None)
        if any(is_call(x, "Archive::object_by_index") and cargs(x)[1].k == "int" and cargs(x)[1].a[0] == 0 for x in s):
            rep.ob("architecture", w + " single", archive(t) and one is True, "the first object is used when it is the only one")
            return
        els = [x for x in s if x.k == "elem" and is_call(x.a[1], "Archive::objects")]
        if els:
            eq = any(x.k == "bin" and x.a[0] == "Eq" and v is True and any(arg(y, "arch") for y in x.a[1:]) and any(is_call(y, "Object::arch") and cargs(y)[0] is t for y in x.a[1:]) for x, v in st.f.items())
            rep.ob("architecture", w + " selected", archive(t) and eq, "in a fat binary the object of the architecture asked for is used: %s" % show(t)[:80])
            return
        rep.ob("architecture", w, False, "the object is one of the file: %s" % show(t)[:80])

    def on_exit(self, I, st, fn, v):
        if v.k == "agg" and v.a[1] == "Err" or not I.assume_variant(st.copy(), v, "Ok"):
            return
        self.rep.ob("object", "exit of " + fn.path, st.a == 1 and all(is_call(x if x.k != "agg" else x.a[3][0], "ObjectInfo::from_object") or any(is_call(y, "ObjectInfo::from_object") for y in subterms(x)) or x.k == "agg" and x.a[1] == "Err" for y in I.alts(v) for x in (I.alts(y.a[3][0]) if y.k == "agg" and y.a[1] == "Ok" else (y,))),
                    "success is only returned with what was read: %s" % show(v)[:80])


class Module(Parts, CRule):
    """The name of the module. What is known of the kind of the object decides it."""
    opaque = ("Collector::collect_functions", "Collector::collect_publics", "Collector::collect_placeholder_functions", "get_compressed_minidebuginfo", "add_executable_section_symbols",
              "object_info::get_stack_info", "SourceFiles::get_mapping", "InlineOrigins::get_list", "SourceFiles::new")

    def sticky(self, t, v):
        return is_call(t, "Object::has_debug_info")

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if not adt.endswith("object_info::ObjectInfo"):
            return
        d = dict(zip(names, vals))
        kind = I.variant(st, mk("arg", fn.path, "main_object"))
        self.got.append((site, kind, I.resolve(st, d["file_name"]), dict(st.f)))
        b = I.resolve(st, d["bin_type"])
        has = [v for t, v in st.f.items() if is_call(t, "Object::has_debug_info") and arg(cargs(t)[0], "main_object") and isinstance(v, bool)]
        for t in I.alts(b):
            self.rep.ob("type", site, has and t.k == "agg" and t.a[1] == ("DebugInfo" if has[0] else "Stripped"), "a file with debug information is known as such, one without as stripped: %s %s" % (show(t)[:40], has))
        s = I.resolve(st, d["stack"])
        for t in I.alts(s):
            good = is_call(t, "object_info::get_stack_info")
            if good:
                m, p = cargs(t)[:2]
                good = m.k == "agg" and m.a[1] == "Some" and arg(m.a[3][0], "main_object") and arg(p, "pe_object")
            self.rep.ob("stack", site, good, "the stack records are those of the object and of its PE: %s" % show(t)[:80])

    got = None

    def after(self, I):
        own = {"ElfObject::name": "Elf", "MachObject::name": "MachO", "MachOObject::name": "MachO"}
        for site in {x[0] for x in self.got}:
            alts = {a for s, k, t, f in self.got if s == site for a in I.alts(t)}
            cut, uncut, kinds = set(), set(), set()
            for a in alts:
                src = deep(I, a)
                core = frozenset(x for x in src if x.k == "arg" or is_call(x, *own))
                c = self.cut(I, a, "/")
                self.rep.ob("name", site + " part", c is not False, "the last component is the one after the last slash: %s" % show(a)[:100])
                (cut if c else uncut).add(core)
                if c:
                    # what the part is taken from may be one of several names
                    for x in src:
                        if is_call(x, "str::rsplit", "str::rfind", "str::rsplit_once", "str::rsplitn", "str::split", "Path::file_name"):
                            cut |= {frozenset(z for z in deep(I, y) if z.k == "arg" or is_call(z, *own)) for y in I.alts(cargs(x)[0])}
                for x in core:
                    if x.k == "arg":
                        self.rep.ob("name", "%s given" % site, arg(x, "main_file_name", "main_object"), "the name is made from the one given: %s" % show(a)[:100])
                    else:
                        n = next(n for n in own if is_call(x, n))
                        o = cargs(x)[0]
                        kinds.add(own[n])
                        self.rep.ob("name", "%s %s" % (site, own[n]), o.k == "pay" and o.a[1] == own[n] and arg(o.a[0], "main_object"), "the name is the one in the object: %s" % show(x)[:100])
                kinds |= {"given" for x in core if arg(x, "main_file_name")}
            self.rep.ob("name", site + " kinds", kinds == {"Elf", "MachO", "given"}, "the names in ELF and Mach-O objects are used, else that of the file: %s" % sorted(kinds))
            self.rep.ob("name", site + " last component", cut and uncut <= cut, "only the last component of the name is kept")


class Stack(CRule):
    """Automaton: what was processed."""

    def initial(self):
        return ()

    def sticky(self, t, v):
        return isinstance(v, (bool, str)) and (arg(t, "pe", "pdb") or is_call(t, "Object::has_unwind_info"))

    def info(self, st, who):
        """Does that object exist and have unwinding information? None if it isn't known."""
        for t, v in st.f.items():
            if arg(t, who) and v == "None":
                return False
            if is_call(t, "Object::has_unwind_info") and any(arg(x, who) for x in subterms(cargs(t)[0])) and isinstance(v, bool):
                return v
        return None

    def on_call(self, I, st, ev):
        if ev.name == "AsciiCfiWriter::process":
            o = I.resolve(st, ev.args[1])
            who = [x.a[1] for x in subterms(o) if arg(x, "pe", "pdb")]
            st.a = st.a + tuple(who)
            if who == ["pe"]:
                self.rep.ob("stack", ev.site() + " pe", self.info(st, "pe") is True, "the records of the PE are used when it has some")
            else:
                self.rep.ob("stack", ev.site() + " object", who == ["pdb"] and self.info(st, "pe") is False and self.info(st, "pdb") is True, "the records of the object are used when it has some and its PE hasn't: %s" % who)
        return None

    def on_exit(self, I, st, fn, v):
        pe, o = self.info(st, "pe"), self.info(st, "pdb")
        want = ("pe",) if pe else ("pdb",) if pe is False and o else () if pe is False and o is False else None
        self.rep.ob("stack", "exit of " + fn.path, st.a == want, "the records there are were processed: %s" % (st.a,))


class Label(CRule):
    def initial(self):
        return ()

    def sticky(self, t, v):
        return isinstance(v, str)

    def on_text(self, I, st, ev, w, tk):
        st.a = st.a + ((tk[1] if tk[0] == "lit" else tk[3].a[0] if tk[3].k == "str" else "?"),)

    def on_exit(self, I, st, fn, v):
        if not I.assume_variant(st.copy(), v, "Ok"):
            return
        k = [x for t, x in st.f.items() if arg(t, "self") and isinstance(x, str)]
        k = k[0] if k else None
        want = {"Linux": "Linux", "Mac": "Mac", "Win": "windows"}
        self.rep.ob("label", "%s" % k, "".join(st.a) == want.get(k), "the name of the platform %s is %s" % (k, "".join(st.a)))


class Archs(CRule):
    """Automaton: the names were written."""

    def initial(self):
        return False

    def on_call(self, I, st, ev):
        if ev.name == "stdio::_print":
            for t in [I.resolve(st, a) for a in ev.args]:
                self.text(I, st, ev, t)
        return None

    def on_text(self, I, st, ev, w, tk):
        if tk[0] == "arg":
            self.text(I, st, ev, tk[3])

    def text(self, I, st, ev, t):
        self.texts.append((ev.site(), t))

    texts = None

    def after(self, I):
        for site, t in self.texts:
            s = deep(I, t)
            if any(is_call(x, "Object::arch") for x in s) and any(is_call(x, "Arch::name") for x in s):
                its = [x for x in s if x.k == "iter" and is_call(x.a[0], "Archive::objects")]
                els = [x for x in s if x.k == "elem" and is_call(x.a[1], "Archive::objects")]
                self.rep.ob("list", site, (its or els) and all(whole(x) and not any(k in ("filter", "filter_map") for k, _ in x.a[2]) for x in its), "the architectures of all the objects are listed: %s" % show(t)[:80])


class Cab(CRule):
    """What is read in a cabinet is the file of that name."""

    def on_call(self, I, st, ev):
        if ev.name == "Cabinet::read_file" and len(ev.args) > 1:
            eqs = [t for t, v in st.f.items() if v is True and t.k == "bin" and t.a[0] == "Eq"]
            self.got.append((ev.site(), ev.args[1], eqs))
        return None

    def after(self, I):
        for site, name, eqs in self.got:
            for a in I.alts(name):
                es = [x for x in deep(I, a) if is_call(x, "FileEntry::name")]
                ok = False
                for t in eqs:
                    for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                        xs, ys = deep(I, x), deep(I, y)
                        ok = ok or any(e in xs for e in es) and any(arg(z, "path") for z in ys) and all(any(is_call(z, "Path::file_name") for z in zs) for zs in (xs, ys))
                self.rep.ob("cabinet", site, bool(es) and ok, "the file of the cabinet that is read has the name of the input: %s" % show(a)[:100])


def check(ctx):
    rep = ctx.rep
    for r, t in (("detected", "the format is detected from the contents"), ("reader", "each format has its reader, which reads the input"), ("platform", "each format has its platform"),
                 ("unknown", "any other format is an error"), ("object", "a reader reads the object in the file"), ("architecture", "in a fat binary the architecture asked for is selected"),
                 ("name", "the name of the module follows the rules of its format"), ("stack", "the stack records are those of the PE or of the object"), ("label", "the platform of the MODULE record"),
                 ("type", "a file is known as stripped or not"), ("list", "--list-arch lists the architectures"),
                 ("cabinet", "in a cabinet the file that is read has the name of the input"),
                 ("own-id", "a module has the ids of the object it was read from")):
        rep.rule(r, t)
    d = Dispatch(rep)
    d.exits = []
    I, _ = run(ctx, d, "dump_syms::dumper::get_object_info")
    if I:
        d.after(I)
    for f in ("from_elf", "from_macho", "from_pdb", "from_pe_with_mapping"):
        r = Reader(rep, f)
        I, _ = run(ctx, r, "dump_syms::object_info::ObjectInfo::" + f)
        if I:
            for w in {w for w, t in r.pe_names}:
                srcs = [[y for x in deep(I, a) for y in (x,)] for w2, t in r.pe_names if w2 == w for a in I.alts(t)]
                dbg = [any(is_call(x, "PeObject::debug_file_name") and arg(cargs(x)[0], "pe") for x in s) for s in srcs]
                own = [any(arg(x, "pe_name") for x in s) for s in srcs]
                cs = [r.cut(I, a, "\\") for w2, t in r.pe_names if w2 == w for a in I.alts(t)]
                rep.ob("name", w + " last component", True in cs and False not in cs, "only the last component of the name in the PE is kept")
                rep.ob("name", w + " debug file", any(dbg) and any(own) and all(d or o for d, o in zip(dbg, own)), "the name is that of the PDB named in the PE, or that of the PE")
    m = Module(rep)
    m.got = []
    I, _ = run(ctx, m, FROM)
    if I:
        m.after(I)
    ids = c18.Ids(rep)
    ids.code = set()
    I, _ = run(ctx, ids, FROM)
    if I:
        ids.done(I)
    run(ctx, Stack(rep), "dump_syms::object_info::get_stack_info")
    run(ctx, Label(rep), "<dump_syms::platform::Platform as core::fmt::Display>::fmt")
    r = Cab(rep)
    r.got = []
    I, _ = run(ctx, r, "dump_syms::utils::read_cabinet")
    if I:
        r.after(I)
    rep.floor("cabinet", 1, "reading of a cabinet")
    r = Archs(rep)
    r.texts = []
    I, _ = run(ctx, r, "dump_syms::mac::print_macho_architectures")
    if I:
        r.after(I)
    rep.floor("reader", 12, "uses of the readers")
    rep.floor("platform", 4, "readers")
    rep.floor("architecture", 2, "selection of the object")
    rep.floor("object", 9, "objects read")
    rep.floor("name", 8, "names")
    rep.floor("stack", 2, "stack records")
    rep.floor("label", 3, "platforms")
    rep.floor("list", 1, "list of architectures")
    rep.floor("type", 1, "module")
    rep.floor("own-id", 4, "ids of a module")
    rep.floor("unknown", 1, "exit")
    rep.floor("detected", 1, "detection")
