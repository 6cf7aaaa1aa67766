"""Only files of the same module are combined."""
from checklib import *

ASSUMPTIONS = ["a symbol server or cache holds under an id the file that has this id"]
MERGE = "dump_syms::object_info::ObjectInfo::merge"
MAPS = ("HashMap::remove", "HashMap::insert", "HashMap::get", "HashMap::get_mut", "HashMap::entry", "HashMap::contains_key", "HashMap::remove_entry", "BTreeMap::remove",
        "BTreeMap::insert", "BTreeMap::get", "BTreeMap::get_mut", "BTreeMap::entry", "BTreeMap::contains_key")


def arg(t, name):
    return t.k == "arg" and t.a[1] == name


def eq_debug(t):
    """The two terms of a comparison of debug ids."""
    if t.k == "bin" and t.a[0] == "Eq":
        x, y = t.a[1:]
        for z in (x, y):
            if z.k == "fld" and z.a[1] == "debug_id" or is_call(z, "PdbObject::debug_id", "PeObject::debug_id", "Object::debug_id") or arg(z, "pdb_debug_id"):
                return x, y
    return None


def nonzero(t):
    """-> (object, polarity) if the condition says that the object has (True) or hasn't (False) a debug id that isn't 0."""
    if t.k == "not":
        r = nonzero(t.a[0])
        return r and (r[0], not r[1])
    if t.k == "any":
        src, p = t.a[0], t.a[1]
        neg = p.k == "not"
        p = p.a[0] if neg else p
        if not neg or p.k != "bin" or p.a[0] != "Eq" or not is_call(src, "str::bytes", "str::chars", "str::as_bytes"):
            return None
        x = [y for y in p.a[1:] if y.k in ("int", "str")]
        s = cargs(src)[0]
        if len(x) == 1 and x[0].a[0] in (48, "0") and s.k == "fld" and s.a[1] == "debug_id":
            return s.a[0], True
    if t.k == "bin" and t.a[0] == "Eq":
        own = lambda z: z.k == "fld" and z.a[1] == "debug_id"
        for x, y in (t.a[1:], t.a[:0:-1]):
            z = x.a[1][0] if is_call(x, "len") and y.k == "int" and str(y.a[0]) == "0" else x if y.k == "str" and y.a[0] == "" else None
            if z is not None and is_call(z, "str::trim_start_matches", "str::trim_end_matches", "str::trim_matches") and own(cargs(z)[0]) and cargs(z)[1].k == "str" and cargs(z)[1].a[0] == "0":
                return cargs(z)[0].a[0], False
            if own(x) and y.k == "str" and y.a[0] == "0" * 33:
                return x.a[0], False
    return None


class Merge(CRule):
    opaque = ("SourceMap::merge", "merge_inline_origins", "Symbol::remap_lines", "Symbol::remap_inlines")
    SIDES = ("left", "right")

    def side(self, t, f):
        """The file whose field it is."""
        if t.k == "fld" and t.a[1] == f and t.a[0].k == "arg" and t.a[0].a[1] in self.SIDES:
            return t.a[0].a[1]
        if t.k == "pay" or t.k == "agg" and t.a[1] == "Some":
            return self.side(t.a[0] if t.k == "pay" else t.a[3][0], f)
        return None

    def sticky(self, t, v):
        s = subterms(t)
        return any(x.k == "fld" and x.a[1] in ("code_id", "symbols", "bin_type", "debug_id") for x in s) and not any(x.k in ("elem",) for x in s)

    def stripped(self, I, st, side):
        """Is that file known to be stripped, or not?"""
        b = models.fld(mk("arg", MERGE, side), "bin_type")
        for t, v in st.f.items():
            if t.k == "bin" and t.a[0] == "Eq" and isinstance(v, bool):
                x, y = t.a[1:]
                for x, y in ((x, y), (y, x)):
                    if y.k == "discr" and y.a[0].k == "agg" and x.k == "discr" and x.a[0] is b:
                        return v if y.a[0].a[1] == "Stripped" else not v
                    if y.k == "agg" and x is b:
                        return v if y.a[1] == "Stripped" else not v
        k = I.variant(st, b)
        return None if k is None else k == "Stripped"

    def on_exit(self, I, st, fn, v):
        if not I.assume_variant(st.copy(), v, "Ok"):
            return
        where = "exit of %s" % fn.path
        l, r = [models.fld(mk("arg", MERGE, s), "debug_id") for s in self.SIDES]
        same = any(eq_debug(t) and set(t.a[1:]) == {l, r} and val is True for t, val in st.f.items())
        self.rep.ob("same-id", where, same, "two files are merged only when their debug ids are equal")
        o = v.a[3][0] if v.k == "agg" else models.pay(v, "Ok", "0")
        got = {}
        for f in ("debug_id", "code_id", "pe_name", "cpu", "platform", "file_name"):
            ts = I.alts(I.resolve(st, I.proj(st, o, ("f", f))))
            got[f] = {self.side(t, f) for t in ts}
            self.rep.ob("identity", "%s %s" % (where, f), None not in got[f], "%s of the result is the one of one of the files: %s" % (f, [show(t)[:60] for t in ts]))
        if None in got["code_id"] | got["pe_name"] | got["file_name"]:
            return
        self.rep.ob("identity", where + " pe with code id", got["code_id"] == got["pe_name"] and len(got["code_id"]) == 1, "the PE name is the one that goes with the code id: %s, %s" % (sorted(got["code_id"]), sorted(got["pe_name"])))
        if len(got["code_id"]) == 1:
            s = next(iter(got["code_id"]))
            other = self.SIDES[1 - self.SIDES.index(s)]
            mine, its = [I.variant(st, models.fld(mk("arg", MERGE, x), "code_id")) for x in (s, other)]
            self.rep.ob("identity", where + " code id kept", mine == "Some" or its == "None", "the code id isn't lost when only one file has it: that of %s is %s, that of %s is %s" % (s, mine, other, its))
        for s in got["file_name"]:
            other = self.SIDES[1 - self.SIDES.index(s)]
            self.rep.ob("identity", where + " name", self.stripped(I, st, s) is True or self.stripped(I, st, other) is not True, "the name is that of the stripped file (the one that is used), when there is one")


class Group(CRule):
    """In a run over several files: which files are put together."""
    opaque = ("dumper::get_object_info", "dumper::store", "ObjectInfo::merge", "utils::read_file")

    def sticky(self, t, v):
        return nonzero(t) is not None

    def on_call(self, I, st, ev):
        if ev.name in MAPS and len(ev.args) > 1 and any("ObjectInfo" in t["s"] for t in ev.targs):
            key = I.resolve(st, ev.args[1])
            facts = [(nonzero(t)[0], nonzero(t)[1] == v) for t, v in st.f.items() if nonzero(t) and isinstance(v, bool)]
            where = "%s %s" % (ev.site(), ev.name)
            if not facts:
                self.rep.ob("grouped", where, False, "it isn't known here whether the file has a debug id: %s" % show(key)[:100])
                return None
            obj, has = facts[-1]
            for k in I.alts(key):
                if has:
                    self.rep.ob("grouped", where, k.k == "fld" and k.a[1] == "debug_id" and k.a[0] is obj, "a file with a debug id is put with those of the same id: %s" % show(k)[-80:])
                else:
                    s = subterms(k)
                    self.rep.ob("grouped", where + " without id", any(x.k == "fld" and x.a[1] == "file" for x in s) and not any(x.k == "fld" and x.a[1] in ("debug_id", "file_name") or is_call(x, "Path::file_name", "Path::file_stem", "Path::parent", "Path::extension", "utils::get_filename") for x in s),
                                "a file without a debug id is on its own, under its path: %s" % show(k)[-80:])
            if len(ev.args) > 2:
                for x in I.alts(I.resolve(st, ev.args[2])):
                    y = x
                    while y.k == "pay" and y.a[1] == "Ok" and y is not obj:
                        y = y.a[0]
                    # A phi of the loop has the file of another turn besides: the same read, in that turn
                    mine = lambda a: a is obj or is_call(self.read(a), "dumper::get_object_info") and is_call(self.read(obj), "dumper::get_object_info")
                    good = mine(y) or is_call(y, "ObjectInfo::merge") and any(mine(a) for a in cargs(y))
                    self.rep.ob("grouped", where + " value", good, "what is kept under the key is that file, possibly merged: %s" % show(x)[-80:])
        if ev.path == MERGE:
            self.sites.add(ev.sp)
        return None

    sites = set()

    @staticmethod
    def read(t):
        while t.k == "pay" and t.a[1] == "Ok":
            t = t.a[0]
        return t


class FindPe(CRule):
    """The PE of a PDB."""
    opaque = ("utils::read_file",)

    def sticky(self, t, v):
        return eq_debug(t) is not None

    def on_exit(self, I, st, fn, v):
        if v.k == "agg" and v.a[1] == "None" or not I.assume_variant(st.copy(), v, "Some"):
            return
        where = "exit of " + fn.path
        for x in I.alts(v):
            if x.k == "agg" and x.a[1] == "None":
                continue
            o = x.a[3][0] if x.k == "agg" else models.pay(x, "Some", "0")
            buf = {t for t in fresh_alts(I, I.proj(st, o, ("f", "1")))}
            good = False
            for t, val in st.f.items():
                e = eq_debug(t)
                if e and val is True and any(arg(y, "pdb_debug_id") for y in e):
                    y = [y for y in e if not arg(y, "pdb_debug_id")]
                    if y and is_call(y[0], "PeObject::debug_id"):
                        pes = fresh_alts(I, cargs(y[0])[0])
                        bs = {(b, old) for p, old in pes for b in ([cargs(p.a[0])[0]] if p.k == "pay" and is_call(p.a[0], "PeObject::parse") else [None])}
                        good = good or None not in {b for b, _ in bs} and self.flat(I, bs) == self.flat(I, buf)
            self.rep.ob("same-id", where, good, "the PE found for a PDB has the debug id of that PDB: %s" % [show(b)[:60] for b, _ in buf])

    def flat(self, I, s):
        return {y for b, old in s for y in fresh_alts(I, b)}


class FindPdb(CRule):
    """The PDB of a PE."""
    opaque = ("utils::read_file", "cache::search_file")

    def initial(self):
        return ()

    def sticky(self, t, v):
        return eq_debug(t) is not None

    def on_fact(self, I, st, t, v):
        # the values of the paths where a local PDB is the right one are kept apart
        if eq_debug(t) and v is True:
            st.a = (True,)

    def phi_tag(self, a):
        return a

    def parts(self, I, st, t):
        """The values of a part of a joined value."""
        if t.k in ("fld", "pay"):
            out = []
            for x in self.parts(I, st, t.a[0]):
                if t.k == "pay" and x.k == "agg" and x.a[1] not in (None, t.a[1]):
                    continue
                out += I.alts(I.proj(st, x, ("f", t.a[1]) if t.k == "fld" else ("p",) + t.a[1:]))
            return out
        return I.alts(t)

    def on_exit(self, I, st, fn, v):
        if v.k == "agg" and v.a[1] == "None" or not I.assume_variant(st.copy(), v, "Some"):
            return
        where = "exit of " + fn.path
        for x in I.alts(v):
            if x.k == "agg" and x.a[1] == "None":
                continue
            o = x.a[3][0] if x.k == "agg" else models.pay(x, "Some", "0")
            pe, b = [I.proj(st, o, ("f", i)) for i in "01"]
            for buf in ([b] if b.k == "phi" and any(is_call(y, "utils::read_file") for y in I.alts(b)) and len({is_call(y, "utils::read_file") for y in I.alts(b)}) == 1 else self.parts(I, st, b)):
                if any(is_call(y, "utils::read_file") for y in I.alts(buf)):
                    good = False
                    for t, val in st.f.items():
                        e = eq_debug(t)
                        if e and val is True:
                            ps = [y for y in e if is_call(y, "PdbObject::debug_id")]
                            es = [y for y in e if is_call(y, "PeObject::debug_id") and cargs(y)[0] is pe]
                            good = good or bool(ps and es) and any(is_call(z, "PdbObject::parse") and cargs(z)[0] is buf for z in subterms(ps[0]))
                    self.rep.ob("same-id", where + " local", good, "a PDB found locally has the debug id of the PE: %s" % show(buf)[:80])
                else:
                    ss = [y for y in subterms(buf) if is_call(y, "cache::search_file")]
                    good = len(ss) == 1 and any(is_call(z, "PeObject::debug_id") and cargs(z)[0] is pe for z in subterms(cargs(ss[0])[1]))
                    self.rep.ob("same-id", where + " searched", good, "a PDB searched in a cache or on a server is searched by the debug id of the PE: %s" % show(buf)[:80])


class Pair(CRule):
    """A PE and a PDB are only given together to the reader when they were found for each other."""
    opaque = ("utils::find_pe_for_pdb", "utils::get_pe_pdb_buf", "cache::get_sym_servers", "ObjectInfo::from_pdb", "ObjectInfo::from_elf", "ObjectInfo::from_macho", "ObjectInfo::from_pe_with_mapping")

    def on_call(self, I, st, ev):
        if ev.path.endswith("ObjectInfo::from_pdb"):
            self.sites.add(ev.sp)
            pdb, name, pe_name, pe = [I.resolve(st, a) for a in ev.args[:4]]
            where = ev.site()
            for t in I.alts(pe):
                if t.k == "agg" and t.a[1] == "None":
                    self.rep.ob("paired", where + " alone", pe_name.k == "agg" and pe_name.a[1] == "None", "a PDB alone has no PE name")
                    continue
                s = subterms(t)
                f = [x for x in s if is_call(x, "utils::find_pe_for_pdb")]
                g = [x for x in s if is_call(x, "utils::get_pe_pdb_buf")]
                if f:
                    good = any(is_call(x, "PdbObject::debug_id") and cargs(x)[0] is pdb for x in subterms(cargs(f[0])[1]))
                    self.rep.ob("paired", where + " PE", good, "the PE is the one found for this PDB")
                    self.rep.ob("paired", where + " PE name", any(x is f[0] for x in subterms(pe_name)), "the PE name is that of this PE: %s" % show(pe_name)[:80])
                elif g:
                    h = [x for x in subterms(pdb) if is_call(x, "utils::get_pe_pdb_buf")]
                    self.rep.ob("paired", where + " PDB", len(h) == 1 and len(g) == 1 and h[0] is g[0], "the PDB is the one found for this PE")
                    self.rep.ob("paired", where + " PDB name", any(x is g[0] for x in subterms(name)), "the PDB name is that of this PDB: %s" % show(name)[:80])
                    self.rep.ob("paired", where + " PE name", any(x.k == "arg" and x.a[1] in ("filename", "file") for x in subterms(pe_name)), "the PE name is that of the input: %s" % show(pe_name)[:80])
                else:
                    self.rep.ob("paired", where, False, "the PE and the PDB weren't found for each other: %s" % show(t)[:80])
        return None

    sites = set()


class Ids(CRule):
    """What identifies the result of reading one file."""
    opaque = ("Collector::collect_functions", "Collector::collect_publics", "Collector::collect_placeholder_functions", "get_compressed_minidebuginfo", "add_executable_section_symbols",
              "object_info::get_stack_info", "SourceFiles::get_mapping", "InlineOrigins::get_list", "SourceFiles::new")

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if not adt.endswith("object_info::ObjectInfo"):
            return
        f = {n: I.resolve(st, v) for n, v in zip(names, vals)}

        def of(t, what, who):
            return any(is_call(x, what) and arg(cargs(x)[0], who) for x in subterms(t))
        for t in I.alts(f["debug_id"]):
            self.rep.ob("own-id", site + " debug id", of(t, "Object::debug_id", "main_object") and any(is_call(x, "DebugId::breakpad") for x in subterms(t)) and not of(t, "Object::debug_id", "pe_object"),
                        "the debug id is that of the object, in the form of Breakpad: %s" % show(t)[:100])
        for t in I.alts(f["cpu"]):
            self.rep.ob("own-id", site + " architecture", is_call(t, "Arch::name") and of(t, "Object::arch", "main_object"), "the architecture is that of the object: %s" % show(t)[:100])
        self.rep.ob("own-id", site + " platform", arg(f["platform"], "platform"), "the platform is the one given: %s" % show(f["platform"])[:60])
        for t in I.alts(f["pe_name"]):
            s = {x for x in subterms(t) if x.k == "arg"}
            self.rep.ob("own-id", site + " pe name", {x.a[1] for x in s} <= {"pe_file_name"} and (s or t.k == "agg" and I.variant(st, mk("arg", fn.path, "pe_file_name")) == "None"), "the PE name is the one given: %s" % show(t)[:60])
        self.code |= {(site, t) for t in I.alts(f["code_id"])}

    def done(self, I):
        """The code id comes from the PE when there is one that has it, else from the object."""
        for site, t in self.code:
            s = subterms(t)
            main = any(is_call(x, "Object::code_id") and arg(cargs(x)[0], "main_object") for x in s)
            pe = any(is_call(x, "Object::code_id") and any(arg(y, "pe_object") for y in subterms(cargs(x)[0])) for x in s)
            none = t.k == "agg" and t.a[1] == "None"
            self.rep.ob("own-id", site + " code id " + ("none" if none else "pe" if pe else "object" if main else "?"), main or pe or none, "the code id is that of the PE or of the object: %s" % show(t)[:100])
            if main or pe:
                self.rep.ob("own-id", site + " code id case", any(is_call(x, "str::to_uppercase", "str::to_ascii_uppercase", "String::to_uppercase") for x in s), "the code id is in upper case")

    def sticky(self, t, v):
        return is_call(t, "Object::code_id") or arg(t, "pe_object")

    code = set()

    def on_exit(self, I, st, fn, v):
        pass


def check(ctx):
    rep = ctx.rep
    rep.rule("same-id", "two files are combined only if they carry the same debug id")
    rep.rule("identity", "the identity of a merged module is that of the files it was made from")
    rep.rule("grouped", "the files of a run are put together by debug id, those without one are kept apart")
    rep.rule("paired", "a PE and a PDB are read together only when they were found for each other")
    rep.rule("own-id", "a module has the ids of the object it was read from")
    rep.rule("all-sites", "every place where files are combined was analysed")
    Group.sites, Pair.sites = set(), set()
    run(ctx, Merge(rep), MERGE)
    run(ctx, Group(rep), "dump_syms::dumper::consumer")
    run(ctx, FindPe(rep), "dump_syms::windows::utils::find_pe_for_pdb")
    run(ctx, FindPdb(rep), "dump_syms::windows::utils::get_pe_pdb_buf")
    run(ctx, Pair(rep), "dump_syms::dumper::get_object_info")
    ids = Ids(rep)
    ids.code = set()
    I, _ = run(ctx, ids, "dump_syms::object_info::ObjectInfo::from_object")
    if I:
        ids.done(I)
    for c in all_calls(ctx.prog):
        if c.path == MERGE:
            rep.ob("all-sites", "%s in %s" % (c.sp, c.fn.path), c.sp in Group.sites, "merging of two files")
        if c.path.endswith("ObjectInfo::from_pdb"):
            rep.ob("all-sites", "%s in %s" % (c.sp, c.fn.path), c.sp in Pair.sites, "reading of a PDB and a PE")
    rep.floor("same-id", 4, "merge, PE of a PDB, PDB of a PE")
    rep.floor("identity", 9, "fields of the merged module")
    rep.floor("grouped", 3, "lookup and insertion, with and without id")
    rep.floor("paired", 5, "PDB and PE")
    rep.floor("own-id", 7, "fields of the module")
    rep.floor("all-sites", 2, "merge, from_pdb")
