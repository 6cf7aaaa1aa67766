"""Symbols are stored at FILE/DEBUG_ID/FILE.sym inside the store."""
from checklib import *

ASSUMPTIONS = ["the breakpad form of a debug id has no path separator"]
LOWER = ("str::to_lowercase", "str::to_ascii_lowercase", "String::to_lowercase", "str::make_ascii_lowercase")
PACKED = {"pd_": "pdb", "ex_": "exe", "dl_": "dll"}


def store_dir(t):
    """The store directory of an output."""
    if t.k == "pay" and t.a[0].k in ("fld", "arg") and (t.a[1], t.a[2]) in (("Store", "0"), ("FileAndStore", "store_directory")):
        return True
    return False


def strip(t):
    """The text, without conversions that keep it."""
    while True:
        if is_call(t, "Path::to_str", "OsStr::to_str", "Path::to_string_lossy"):
            t = cargs(t)[0]
        elif t.k in ("pay", "okof") and (t.k == "okof" or t.a[1] in ("Some", "Ok")) and is_call(t.a[0], "Path::to_str"):
            t = cargs(t.a[0])[0]
        elif t.k == "fmt" and len(t.a[0]) == 1 and t.a[0][0][0] == "arg":
            t = t.a[0][0][3]
        else:
            return t


def is_name(t):
    t = strip(t)
    return t.k == "fld" and t.a[1] == "file_name"


def is_ext(t):
    """The extension of the name of the module -> the name."""
    t = strip(t)
    if t.k == "pay" and is_call(t.a[0], "Path::extension") and is_name(cargs(t.a[0])[0]):
        return strip(cargs(t.a[0])[0])
    if t.k == "fld" and t.a[1] == "1" and t.a[0].k == "pay" and is_call(t.a[0].a[0], "str::rsplit_once") and is_name(cargs(t.a[0].a[0])[0]):
        return strip(cargs(t.a[0].a[0])[0])
    return None


def is_stem(t):
    t = strip(t)
    if t.k == "pay" and is_call(t.a[0], "Path::file_stem") and is_name(cargs(t.a[0])[0]):
        return strip(cargs(t.a[0])[0])
    if t.k == "fld" and t.a[1] == "0" and t.a[0].k == "pay" and is_call(t.a[0].a[0], "str::rsplit_once") and is_name(cargs(t.a[0].a[0])[0]):
        return strip(cargs(t.a[0].a[0])[0])
    return None


def ext_fact(t, v):
    """A fact on the extension of the name -> (name, extension or None for no extension, holds)."""
    if isinstance(v, str) and v in ("Some", "None") and is_call(t, "Path::extension", "str::rsplit_once") and is_name(cargs(t)[0]):
        return strip(cargs(t)[0]), None, v == "None"
    if not isinstance(v, bool):
        return None
    if t.k == "bin" and t.a[0] == "Eq":
        for x, y in (t.a[1:], t.a[:0:-1]):
            if y.k == "str" and is_call(strip(x), *LOWER):
                e = is_ext(cargs(strip(x))[0])
                if e:
                    return e, y.a[0], v
    if is_call(t, "str::eq_ignore_ascii_case"):
        x, y = cargs(t)
        for x, y in ((x, y), (y, x)):
            e = is_ext(x)
            if e and y.k == "str":
                return e, y.a[0].lower(), v
    if is_call(t, "str::ends_with"):
        x, y = cargs(t)
        x = strip(x)
        if is_call(x, *LOWER) and is_name(cargs(x)[0]) and y.k == "str" and y.a[0].startswith("."):
            return strip(cargs(x)[0]), y.a[0][1:], v
    return None


def contained(st, n):
    """The name is known to be a single normal component."""
    bans = set()
    for t, v in st.f.items():
        if t.k == "bin" and t.a[0] == "Eq":
            for x, y in (t.a[1:], t.a[:0:-1]):
                if v is True and is_call(x, "Path::file_name") and strip(cargs(x)[0]) is n and y.k == "agg" and y.a[1] == "Some" and strip(y.a[3][0]) is n:
                    return True
                if v is True and x.k == "pay" and is_call(x.a[0], "Path::file_name") and strip(cargs(x.a[0])[0]) is n and strip(y) is n:
                    return True
                if v is False and strip(x) is n and y.k == "str":
                    bans.add(y.a[0])
        if v is False and is_call(t, "str::contains") and strip(cargs(t)[0]) is n:
            bans |= {"/", "\\", ".."} & set(subs(cargs(t)[1]))
    return {"/", ".."} <= bans


def subs(t):
    for x in subterms(t):
        if x.k == "str":
            yield x.a[0]
        if x.k in ("int", "char"):
            yield chr(x.a[0]) if isinstance(x.a[0], int) and x.a[0] < 0x110000 else str(x.a[0])


class Store(CRule):
    """Automaton: directories that exist."""
    opaque = READERS + ("ObjectInfo::dump", DISPLAY)

    def initial(self):
        return frozenset()

    def sticky(self, t, v):
        if ext_fact(t, v):
            return True
        if isinstance(v, str) and v in ("File", "Store", "FileAndStore"):
            return True
        s = subterms(t)
        return isinstance(v, bool) and any(is_name(x) for x in s) and not any(x.k in ("elem", "phi") for x in s)

    def on_call(self, I, st, ev):
        if ev.name in ("fs::create_dir_all", "DirBuilder::create"):
            d = I.resolve(st, ev.args[-1])
            self.dirs.add((ev.site(), d))
            I.stale(st, ev.point)
            s2 = st.copy()
            st.a = st.a | {d}
            return [(st, ok(UNIT)), (s2, err(mk("site", ev.point, "directory error", ())))]
        if ev.name in ("File::create", "File::create_new", "OpenOptions::open", "fs::write"):
            p = I.resolve(st, ev.args[0] if ev.name != "OpenOptions::open" else ev.args[1])
            for q in I.alts(p):
                if any(store_dir(x) for x in subterms(q)):
                    self.path(I, st, ev, q)
        if ev.path.endswith("ObjectInfo::dump"):
            o = I.resolve(st, ev.args[0])
            for x in I.sources(I.resolve(st, ev.args[1])):
                if is_call(x, "File::create", "File::create_new", "OpenOptions::open"):
                    q = cargs(x)[0] if not is_call(x, "OpenOptions::open") else cargs(x)[1]
                    if any(store_dir(y) for y in subterms(q)):
                        ids = {y.a[0] for y in subterms(q) if y.k == "fld" and y.a[1] in ("file_name", "debug_id")}
                        self.rep.ob("own", ev.site(), ids == {o}, "the path is made from the name and the id of the module that is written: %s, %s" % ([show(i)[-60:] for i in ids], show(o)[-60:]))
        return None

    dirs = None

    def path(self, I, st, ev, q):
        rep = self.rep
        cs = models.comps(q)
        site = ev.site()
        shape = len(cs) == 4 and store_dir(cs[0])
        rep.ob("place", site + " shape", shape, "the path is the store, the name, the id and the file: %s" % show(q)[:200])
        if not shape:
            return
        d, base, did, f = cs
        names = {x for x in subterms(q) if x.k == "fld" and x.a[1] == "file_name"}
        n = next(iter(names)) if len(names) == 1 else None
        rep.ob("place", site + " name", n is not None, "one name is used: %s" % [show(x)[-60:] for x in names])
        if n is None:
            return
        known = {}
        for t, v in st.f.items():
            e = ext_fact(t, v)
            if e and e[0] is n:
                known[e[1]] = known.get(e[1], False) or e[2]
        if sum(1 for x, v in known.items() if x is not None and v) > 1:
            return          # two different extensions: no such path
        noext = known.get(None, False)
        ext = next((x for x, v in known.items() if x is not None and v), None)

        def isnt(x):
            return noext or (ext is not None and ext != x) or known.get(x) is False
        base = strip(base)
        if base is n:
            rep.ob("place", site + " directory", all(isnt(x) for x in PACKED), "the directory is the name, which is not that of a compressed file: %s" % sorted(map(str, known.items())))
        elif is_call(base, "Path::with_extension"):
            b, x = cargs(base)
            rep.ob("place", site + " directory unpacked", strip(b) is n and x.k == "str" and ext in PACKED and PACKED[ext] == x.a[0], "the directory is the name of the uncompressed file: %s, extension %s" % (show(base)[-80:], ext))
        else:
            rep.ob("place", site + " directory", False, "the directory is the name: %s" % show(base)[:100])
        rep.ob("place", site + " id", strip(did).k == "fld" and strip(did).a[1] == "debug_id" and strip(did).a[0] is n.a[0], "the second directory is the debug id: %s" % show(did)[:80])
        if is_call(f, "Path::with_extension"):
            b, x = cargs(f)
            good = strip(b) is n and x.k == "str" and x.a[0] == "sym" and ext == "pdb"
            rep.ob("place", site + " file pdb", good, "the file is the name with sym for pdb: %s" % show(f)[:80])
        else:
            tk = models.tokens(f)
            tk = tuple(tk)
            if tk and tk[0][0] == "lit" or not tk:
                tk = (("?",), ("?",))
            one = len(tk) == 2 and tk[0][0] == "arg" and tk[1] == ("lit", ".sym")
            stem = is_stem(tk[0][3]) if one else None
            if one and strip(tk[0][3]) is n:
                rep.ob("place", site + " file", isnt("pdb"), "the file is the name followed by .sym, when it isn't a PDB: %s" % sorted(map(str, known.items())))
            else:
                rep.ob("place", site + " file pdb", stem is n and ext == "pdb", "the file is the name without .pdb followed by .sym: %s, extension %s" % (show(f)[:80], ext))
        rep.ob("inside", site, contained(st, n), "the name is known to be a single component of a path: %s" % show(n)[-60:])
        ps = [x for x in st.a if x.k == "pay" and is_call(x.a[0], "Path::parent") and cargs(x.a[0])[0] is q or models.comps(x) == cs[:3]]
        rep.ob("directories", site, bool(ps) or I.variant(st, mk("call", "Path::parent", (q,))) == "None", "the directory of the file was created before: %s" % [show(x)[:80] for x in st.a])


def check(ctx):
    rep = ctx.rep
    rep.rule("place", "the file of a module is created at store/name/debug id/name.sym")
    rep.rule("inside", "the name is checked before it is used in a path")
    rep.rule("own", "the name and the id of the path are those of the module that is written there")
    rep.rule("directories", "the directories are created before the file")
    root = "dump_syms::dumper::store"
    for r in [root] if root in ctx.prog.fns else ["dump_syms::dumper::single_file", "dump_syms::dumper::several_files"]:
        x = Store(rep)
        x.dirs = set()
        run(ctx, x, r)
    rep.floor("place", 6, "parts of the path")
    rep.floor("inside", 1, "creation in the store")
    rep.floor("own", 1, "writing in the store")
    rep.floor("directories", 1, "creation in the store")
