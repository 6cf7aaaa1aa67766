"""Every option takes effect, for one file or several."""
import os, re
from checklib import *
import facts

ASSUMPTIONS = ["clap gives the values of the options as they are on the command line"]
M = mk("arg", "clap", "matches")
GETS = ("ArgMatches::get_one", "ArgMatches::get_many", "ArgMatches::get_flag", "ArgMatches::remove_one", "ArgMatches::remove_many", "ArgMatches::try_get_one", "ArgMatches::get_raw")
# what --help documents: (long, short) -> (kind, default)
OPTIONS = {("output", "o"): ("value", None), ("store", "s"): ("value", None), ("debug-id", None): ("value", None), ("code-id", None): ("value", None),
           ("symbol-server", None): ("value", None), ("check-cfi", None): ("flag", None), ("verbose", None): ("value", "error"), ("arch", "a"): ("value", "arch"),
           ("type", "t"): ("value", ""), ("list-arch", None): ("flag", None), (None, "j"): ("value", ""), ("mapping-var", None): ("list", None),
           ("mapping-src", None): ("list", None), ("mapping-dest", None): ("list", None), ("mapping-file", None): ("value", None), ("inlines", None): ("flag", None),
           ("extra-info", None): ("list", None), ("no-generator", None): ("flag", None)}
# settings of an option which change its values
ALTERS = ("value_delimiter", "value_terminator", "env", "default_missing_value", "default_missing_values", "default_value_if", "default_value_ifs", "overrides_with", "overrides_with_all",
          "conflicts_with", "conflicts_with_all", "exclusive", "requires", "requires_all", "requires_if", "last", "raw", "trailing_var_arg", "ignore_case", "num_args_", "group", "default_values")
FIELDS = {"symbol_server": "symbol-server", "debug_id": "debug-id", "code_id": "code-id", "mapping_file": "mapping-file"}
LISTS = {"mapping_var": "mapping-var", "mapping_src": "mapping-src", "mapping_dest": "mapping-dest"}
FLAGS = {"check_cfi": "check-cfi", "emit_inlines": "inlines"}
LEVELS = {"off": "Off", "warn": "Warn", "info": "Info", "debug": "Debug", "trace": "Trace", "error": "Error"}


def text(t):
    """A constant text or character."""
    if t.k == "str":
        return t.a[0]
    if t.k in ("int", "char"):
        return chr(t.a[0]) if isinstance(t.a[0], int) else t.a[0]
    return None


def option(t):
    """The id of the option whose value it is."""
    if t.k == "pay" and t.a[1] in ("Some", "Ok"):
        t = t.a[0]
    if is_call(t, *GETS) and cargs(t)[0] is M:
        return text(cargs(t)[1])
    return None


def empty(t):
    return t.k == "new" or t.k == "agg" and not t.a[3] or is_call(t, "Vec::new", "Vec::with_capacity")


class Main(CRule):
    opaque = ("dumper::single_file", "dumper::several_files", "print_macho_architectures", "utils::read_file")
    cmd = None

    def __init__(self, rep):
        super().__init__(rep)
        self.table, self.runs, self.sets, self.logs = {}, [], [], []

    def sticky(self, t, v):
        if isinstance(v, str) and is_call(t, *GETS):
            return option(t) in ("output", "store")
        if not isinstance(v, bool):
            return False
        if t.k == "bin" and t.a[0] == "Eq":
            x = [y for y in t.a[1:] if y.k == "str"]
            if x and any(self.name(y) in ("output", "verbose") for y in t.a[1:]):
                return True
            return any(y.k == "call" and y.a[0] == "len" for y in t.a[1:])
        return self.name(t) in ("no-generator", "list-arch")

    def name(self, t):
        """The documented name of the option."""
        return self.ids.get(option(t))

    ids = {}

    def initial(self):
        return False

    def on_call(self, I, st, ev):
        if ev.name in ("Command::get_matches", "Command::get_matches_from", "Command::get_matches_mut"):
            self.options(I, st, I.resolve(st, ev.args[0]))
            return [(st, M)]
        if ev.name == "OnceCell::set" and "EXTRA_INFO" in show(ev.args[0]):
            self.sets.append((ev.site(), I.resolve(st, ev.args[1]), dict(st.f)))
            st.a = True
        if ev.name.endswith("Logger::init"):
            self.logs.append((ev.site(), I.resolve(st, ev.args[0]), dict(st.f)))
        if ev.path.endswith(("dumper::single_file", "dumper::several_files")):
            # all that is known is needed after the run
            self.runs.append((ev.site(), ev.name, I.resolve(st, ev.args[0]), I.resolve(st, ev.args[1]), st.copy()))
            self.rep.ob("extra", ev.site(), st.a is True, "the extra lines are set before the files are dumped")
        if ev.path.endswith("print_macho_architectures"):
            self.lists.append((ev.site(), I.resolve(st, ev.args[0]), st.copy()))
        return None

    def on_end(self, I, st, ev, it):
        pass

    def options(self, I, st, t):
        rep = self.rep
        args = []
        while is_call(t, "Command::arg", "Command::args") or t.k == "call" and short(t.a[0]).startswith("Command::") and t.a[1]:
            if is_call(t, "Command::arg"):
                args.append(cargs(t)[1])
            elif is_call(t, "Command::args"):
                x = cargs(t)[1]
                x = x.a[0] if x.k == "iter" else x
                args += list(x.a[3]) if x.k == "agg" else [x]
            t = cargs(t)[0]
        for a in args:
            o = {}
            bad = []
            while a.k == "call" and short(a.a[0]).startswith("Arg::"):
                n = short(a.a[0])[5:]
                if n == "new":
                    o["id"] = text(a.a[1][0])
                    break
                o.setdefault(n, a.a[1][1] if len(a.a[1]) > 1 else None)
                if n in ALTERS:
                    bad.append(n)
                a = a.a[1][0]
            key = (text(o["long"]) if "long" in o else None, text(o["short"]) if "short" in o else None)
            if key == (None, None):
                key = "files"
            o["bad"] = bad
            self.table[key] = o
        self.ids = {o.get("id"): k if k == "files" else k[0] or k[1] for k, o in self.table.items()}
        for k, (kind, default) in OPTIONS.items():
            where = "option " + ("--" + k[0] if k[0] else "-" + k[1])
            o = self.table.get(k)
            rep.ob("option", where, o is not None and o.get("id"), "the documented option exists, with its names")
            if o is None:
                continue
            act = o.get("action")
            act = act.a[1] if act is not None and act.k == "agg" else "Set" if act is None else "?"
            rep.ob("option", where + " kind", act == {"value": "Set", "flag": "SetTrue", "list": "Append"}[kind] and not o["bad"], "it is a %s: %s %s" % (kind, act, o["bad"]))
            d = o.get("default_value")
            if default is None:
                good = d is None
            elif default == "arch":
                good = d is not None and is_call(d, "Arch::name") and d.a[1][0].k == "agg"
            else:
                good = d is not None and text(d) == default
            rep.ob("option", where + " default", good, "its default is the documented one: %s" % (show(d)[:60] if d else None))
        o = self.table.get("files", {})
        rep.ob("option", "files", "id" in o and not o["bad"] and "num_args" in o, "any number of files may be given")

    def opt(self, I, st, t, name):
        """The value is that of the option, if it is given."""
        if t.k == "agg" and t.a[1] == "Some":
            return self.name(t.a[3][0]) == name and t.a[3][0].k == "pay"
        if t.k == "agg" and t.a[1] == "None":
            return any(v == "None" and self.name(x) == name for x, v in st.f.items())
        return self.name(t) == name and t.k != "pay"

    def values(self, I, st, t, name):
        """The values are those of the option, in their order."""
        if t.k == "omap":
            g, c = t.a[0], t.a[1]
        elif t.k == "agg" and t.a[1] == "Some":
            g, c = None, t.a[3][0]
        elif t.k == "agg" and t.a[1] == "None":
            return any(v == "None" and self.name(x) == name for x, v in st.f.items())
        elif self.name(t) == name:
            return True
        else:
            return False
        if g is not None and self.name(g) != name:
            return False
        return all(self.coll(x, name, I) for x in ([c] if c.k == "phi" else I.alts(c)))

    def coll(self, c, name, I=None):
        if I is not None and c.k in ("phi", "upd"):
            # a list built in a loop
            base, pushed = listed(I, c)
            return all(empty(b) for b in base) and bool(pushed) and all(p.k == "elem" and self.name(p.a[1]) == name for p in pushed)
        if c.k == "iter":
            c = mk("coll", c, ())
        if c.k != "coll" or c.a[0].k != "iter":
            return False
        it = c.a[0]
        return self.name(it.a[0]) == name and all(k in ("map", "cloned", "copied") for k, _ in it.a[2]) and all(v.k == "elem" and v.a[1] is it.a[0] for v in c.a[1])

    def after(self, I):
        rep = self.rep
        for site, name, c, files, st in self.runs:
            def field(f):
                return I.alts(I.resolve(st, I.proj(st, c, ("f", f))))
            for f, o in FIELDS.items():
                ts = field(f)
                rep.ob("config", "%s %s" % (site, f), all(self.opt(I, st, t, o) for t in ts), "%s is the value of --%s: %s" % (f, o, [show(t)[:80] for t in ts]))
            for f, o in LISTS.items():
                ts = field(f)
                rep.ob("config", "%s %s" % (site, f), all(self.values(I, st, t, o) for t in ts), "%s are the values of --%s: %s" % (f, o, [show(t)[:80] for t in ts]))
            for f, o in FLAGS.items():
                ts = field(f)
                rep.ob("config", "%s %s" % (site, f), all(self.flag(st, t, o) for t in ts), "%s is true if and only if --%s is given: %s" % (f, o, [show(t)[:80] for t in ts]))
            ts = field("arch")
            rep.ob("config", site + " arch", all(self.name(t) == "arch" for t in ts), "the architecture is the value of --arch: %s" % [show(t)[:80] for t in ts])
            ts = field("num_jobs")
            given, cpus = [], []
            for t in ts:
                ps = [x for x in subterms(t) if is_call(x, "str::parse", "FromStr::from_str", "usize::from_str")]
                if t.k == "unwrap_or" or is_call(t, "unwrap_or", "Result::unwrap_or_else"):
                    given.append(t), cpus.append(t)
                elif ps and t.k in ("pay", "okof") and self.name(cargs(ps[0])[0]) == "j":
                    given.append(t)
                elif is_call(t, "num_cpus::get", "thread::available_parallelism") or any(is_call(x, "thread::available_parallelism") for x in subterms(t)):
                    cpus.append(t)
                else:
                    given = []
                    break
            rep.ob("config", site + " num_jobs", given and cpus, "the number of jobs is the value of -j, or the number of processors: %s" % [show(t)[:80] for t in ts])
            for t in field("output"):
                self.output(I, st, site, t)
            if name.endswith("single_file"):
                good = files.k == "idx" and self.coll(files.a[0], "files", I) and text(files.a[1]) == "\0"
                good = good or files.k == "pay" and is_call(files.a[0], "slice::first", "Iterator::next") or files.k == "elem" and self.coll(files.a[1], "files", I)
                one = any(t.k == "bin" and t.a[0] == "Eq" and v is True and any(y.k == "int" and y.a[0] == 1 for y in t.a[1:]) and any(y.k == "call" and y.a[0] == "len" for y in t.a[1:]) for t, v in st.f.items())
                f = files.a[0] if files.k == "fld" and files.a[1] == "0" else None
                if f is not None and f.k == "pay" and f.a[1] == "Some" and is_call(f.a[0], "[T]::split_first") and self.coll(cargs(f.a[0])[0], "files", I):
                    good, one = True, I.known(st, models.is_empty(models.fld(f, "1"))) is True
                rep.ob("files", site, good and one, "the file is the one given, when there is only one: %s" % show(files)[:100])
            else:
                rep.ob("files", site, self.coll(files, "files", I), "the files are all the files given: %s" % show(files)[:100])
            fl = [v for t, v in st.f.items() if self.name(t) == "list-arch" and isinstance(v, bool)]
            rep.ob("action", site, fl and not any(fl), "the files are dumped when --list-arch isn't given")
        for site, b, st in self.lists:
            fl = [v for t, v in st.f.items() if self.name(t) == "list-arch" and isinstance(v, bool)]
            rep.ob("action", site, fl and all(fl), "the architectures are listed when --list-arch is given")
        for site, t, f in self.logs:
            for a in I.alts(t):
                self.level(site, a, f)
        for site, t, f in self.sets:
            self.extra(I, site, t, f)

    def flag(self, st, t, name):
        if t.k == "bool" or t.k == "int" and isinstance(t.a[0], bool):
            return any(self.name(x) == name and v is t.a[0] for x, v in st.f.items())
        return self.name(t) == name

    def output(self, I, st, site, t):
        rep = self.rep
        given = {}
        dash = None
        for x, v in st.f.items():
            n = self.name(x)
            if n in ("output", "store") and isinstance(v, str) and x.k != "pay":
                given[n] = v == "Some"
            if x.k == "bin" and x.a[0] == "Eq" and any(self.name(y) == "output" for y in x.a[1:]) and any(text(y) == "-" for y in x.a[1:]) and isinstance(v, bool):
                dash = v
        want = {(True, True): "FileAndStore", (True, False): "File", (False, True): "Store", (False, False): "File"}.get((given.get("output"), given.get("store")))
        kind = t.a[1] if t.k == "agg" else None
        where = "%s output %s" % (site, want)
        rep.ob("output", where, want is not None and kind == want, "the output is %s: %s" % (want, show(t)[:100]))
        if kind != want or kind is None:
            return
        v = dict(zip(t.a[2], t.a[3]))
        if kind in ("File", "FileAndStore"):
            for fo in I.alts(v["0" if kind == "File" else "file"]):
                k = fo.a[1] if fo.k == "agg" else None
                if not given["output"]:
                    rep.ob("output", where + " none", k == "Stdout", "without --output the text goes to stdout: %s" % show(fo)[:80])
                else:
                    good = k == "Stdout" and dash is True or k == "Path" and dash is False and self.name(fo.a[3][0]) == "output"
                    rep.ob("output", where + " file", good, "the file is the value of --output, - is for stdout: %s" % show(fo)[:80])
        if kind in ("Store", "FileAndStore"):
            ts = I.alts(v["0" if kind == "Store" else "store_directory"])
            rep.ob("output", where + " store", all(self.name(x) == "store" for x in ts), "the store is the value of --store: %s" % [show(x)[:80] for x in ts])

    def level(self, site, a, f):
        if a.k != "agg":
            ps = [x for x in subterms(a) if is_call(x, "str::parse", "FromStr::from_str") and self.name(cargs(x)[0]) == "verbose"]
            self.rep.ob("verbosity", site, bool(ps), "the verbosity is the value of --verbose: %s" % show(a)[:80])
            return
        eq = {text(y): v for t, v in f.items() if t.k == "bin" and t.a[0] == "Eq" and isinstance(v, bool) and any(self.name(x) == "verbose" for x in t.a[1:]) for y in t.a[1:] if y.k == "str"}
        yes = [x for x, v in eq.items() if v]
        if yes:
            good = LEVELS.get(yes[0], "Error") == a.a[1]
        else:
            good = a.a[1] == "Error" and all(x in eq for x in LEVELS if x != "error")
        self.rep.ob("verbosity", "%s %s" % (site, yes[0] if yes else "default"), good, "the verbosity is the value of --verbose (%s): %s" % (yes[0] if yes else "none of %s" % sorted(map(str, eq)), a.a[1]))

    def extra(self, I, site, t, f):
        gen = [v for x, v in f.items() if self.name(x) == "no-generator" and isinstance(v, bool)]
        base, pushed = listed(I, t)
        mine = [p for p in pushed if p.k == "elem" and self.name(p.a[1]) == "extra-info"]
        pushed = [p for p in pushed if p not in mine]
        rep = self.rep
        rep.ob("extra", site + " known", len(gen) == 1, "--no-generator is looked at")
        if len(gen) != 1:
            return
        if gen[0]:
            rep.ob("extra", site + " no generator", not pushed, "with --no-generator there is no GENERATOR line: %s" % [show(p)[:60] for p in pushed])
        else:
            v = re.search(r'^version = "(.*)"', open(os.path.join(facts.REPO, "Cargo.toml")).read(), re.M).group(1)
            p = text(pushed[0]) if len(pushed) == 1 else None
            rep.ob("extra", site + " generator", p == "GENERATOR mozilla/dump_syms " + v, "without --no-generator there is a GENERATOR line: %s" % (p or [show(x)[:60] for x in pushed]))
        # the lines given
        found = bool(mine)
        good = True
        for x in base:
            if x.k == "unwrap_or" or is_call(x, "unwrap_or"):
                x = (x.a if x.k == "unwrap_or" else cargs(x))[0]
            if empty(x):
                continue
            v = self.values(I, None, x, "extra-info") if x.k == "omap" else self.coll(x, "extra-info")
            good, found = good and v, found or v
        rep.ob("extra", site + " lines", good and found, "the lines are those given with --extra-info: %s %s" % ([show(x)[:100] for x in base], [show(x)[:60] for x in mine]))

    lists = None


READ = ("ObjectInfo::from_elf", "ObjectInfo::from_macho", "ObjectInfo::from_pdb", "ObjectInfo::from_pe_with_mapping", "ObjectInfo::from_pe")


class Run(CRule):
    """The values of the configuration reach what they are for."""
    opaque = READ + ("PathMappings::new", "utils::read_file", "cache::get_sym_servers", "cache::search_file", "windows::utils::get_pe_pdb_buf", "windows::utils::find_pe_for_pdb", "ObjectInfo::merge",
                     "ObjectInfo::dump", "utils::get_path_for_sym", DISPLAY)

    def __init__(self, rep, cfg, kind):
        super().__init__(rep)
        self.cfg, self.kind = cfg, kind
        self.sent, self.sinks = [], []

    def c(self, f):
        return models.fld(self.cfg, f)

    def sticky(self, t, v):
        return t is self.c("debug_id") or t is self.c("code_id") or isinstance(v, str) and v in ("Some", "None") and t.k == "pay" and is_call(t.a[0], "PathMappings::new")

    def on_call(self, I, st, ev):
        p = ev.path
        if ev.name == "Sender::send":
            self.sent.append((I.resolve(st, ev.args[1]), dict(st.f)))
        if ev.name in ("Builder::spawn", "thread::spawn", "Scope::spawn"):
            self.spawned = True
        what = next((x for x in READ + ("PathMappings::new", "cache::get_sym_servers", "cache::search_file", "dumper::store", "ObjectInfo::dump") if p.endswith(x)), None)
        if what:
            fn = I.prog.fns.get(p)
            names = [x for x in (fn.params if fn and hasattr(fn, "params") else [])]
            self.sinks.append((what, ev.site(), [I.resolve(st, a) for a in ev.args], st.copy()))
        return None

    spawned = False

    def on_elem(self, I, st, ev, it, v):
        if it.k == "iter" and it.a[0].k not in ("arg",):
            self.loops.append((ev.site(), it))

    def through(self, t):
        """What is taken from a job was put in it."""
        fs, b = fields_of(t)
        if is_call(b, "Receiver::recv", "Receiver::try_recv") or b.k == "elem" and is_call(b.a[1], "Receiver::iter"):
            out = []
            fs = fs[1:] if fs and fs[0] == "Ok.0" else fs
            for v, facts in self.sent:
                x = v
                for f in fs:
                    V, n = f.split(".") if "." in f else (None, f)
                    if x.k != "agg" or V is not None and x.a[1] != V:
                        x = None
                        break
                    d = dict(zip(x.a[2], x.a[3]))
                    if d.get("typ") is not None and d["typ"].k == "agg" and d["typ"].a[1] == "Dump":
                        x = None
                        break
                    x = d.get(n)
                    if x is None:
                        break
                if x is not None:
                    out.append((x, facts))
            return out or [(t, None)]
        return [(t, None)]

    def vals(self, I, t):
        return [y for y, _ in self.fvals(I, t, None)]

    def fvals(self, I, t, facts):
        return [(y, facts if f is None else f) for x in I.alts(t) for z, f in self.through(x) for y in I.alts(z)]

    def after(self, I):
        rep = self.rep
        for what, site, args, st in self.sinks:
            w = "%s: %s" % (self.kind, site)
            if what == "PathMappings::new":
                for f, a in zip(("mapping_var", "mapping_src", "mapping_dest", "mapping_file"), args):
                    ts = self.vals(I, a)
                    rep.ob("handed", "%s %s" % (w, f), all(t is self.c(f) for t in ts), "the mappings are made from %s: %s" % (f, [show(t)[:60] for t in ts]))
            elif what == "cache::get_sym_servers":
                ts = self.vals(I, args[0])
                rep.ob("handed", w + " symbol_server", all(t is self.c("symbol_server") for t in ts), "the servers are those configured: %s" % [show(t)[:60] for t in ts])
            elif what == "cache::search_file":
                d, c = self.c("debug_id"), self.c("code_id")
                for t in self.vals(I, args[1]):
                    b = t.a[0] if t.k == "pay" else t
                    good = b is d or b is c and I.variant(st, d) == "None"
                    good = good or is_call(b, "Option::or") and cargs(b) == (d, c)
                    rep.ob("handed", w + " id", good, "the file is searched by its debug id, else by its code id: %s" % show(t)[:80])
            elif what in READ:
                i = {"ObjectInfo::from_pdb": 4, "ObjectInfo::from_pe_with_mapping": 2}.get(what, 3)
                if what == "ObjectInfo::from_pe":
                    rep.ob("handed", w + " reader", False, "this reader has no mapping")
                    continue
                for t, facts in self.fvals(I, args[i], st.f):
                    b = t
                    while b.k in ("pay", "omap") or b.k == "agg" and b.a[1] == "Some":
                        b = b.a[0] if b.k != "agg" else b.a[3][0]
                    good = is_call(b, "PathMappings::new") or t.k == "agg" and t.a[1] == "None" and any(v == "None" and any(is_call(y, "PathMappings::new") for y in subterms(x)) for x, v in facts.items())
                    rep.ob("handed", w + " mapping", good, "the source paths are mapped with the configured mappings: %s" % show(t)[:80])
                ts = self.vals(I, args[i + 1])
                rep.ob("handed", w + " inlines", all(t is self.c("emit_inlines") for t in ts), "the inlines are wanted or not as configured: %s" % [show(t)[:60] for t in ts])
                if what.endswith("macho"):
                    for t in self.vals(I, args[2]):
                        b = t.a[0] if t.k == "pay" else t
                        rep.ob("handed", w + " arch", is_call(b, "FromStr::from_str", "str::parse", "Arch::from_str") and cargs(b)[0] is self.c("arch"), "the architecture is the configured one: %s" % show(t)[:80])
            elif what == "dumper::store":
                a, b = self.vals(I, args[0]), self.vals(I, args[1])
                rep.ob("handed", w + " output", all(t is self.c("output") for t in a), "the output is the configured one: %s" % [show(t)[:60] for t in a])
                rep.ob("handed", w + " check_cfi", all(t is self.c("check_cfi") for t in b), "the CFI is checked if it is configured: %s" % [show(t)[:60] for t in b])


class Jobs(CRule):
    """As many workers as configured."""
    opaque = ("dumper::consumer", "PathMappings::new")

    def on_spawn(self, I, st, ev, *a):
        self.spawns.append(st.copy())

    def on_elem(self, I, st, ev, it, v):
        self.its.append(it)

    def __init__(self, rep):
        super().__init__(rep)
        self.spawns, self.its = [], []


class Read(CRule):
    """A reader hands the options down."""
    opaque = ("Collector::collect_functions", "Collector::collect_publics", "Collector::collect_placeholder_functions", "get_compressed_minidebuginfo", "add_executable_section_symbols",
              "object_info::get_stack_info", "SourceFiles::get_mapping", "InlineOrigins::get_list", "SourceFiles::new")

    def __init__(self, rep, root):
        super().__init__(rep)
        self.root = root

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if adt.endswith("collector::Collector"):
            d = dict(zip(names, vals))
            t = I.resolve(st, d["collect_inlines"])
            self.rep.ob("reader", "%s inlines" % self.root, t.k == "arg" and t.a[1] == "collect_inlines", "the inlines are collected as asked: %s" % show(t)[:60])

    def on_call(self, I, st, ev):
        if ev.path.endswith("SourceFiles::new"):
            t = I.resolve(st, ev.args[0])
            self.rep.ob("reader", "%s mapping" % self.root, t.k == "arg" and t.a[1] == "mapping", "the source paths are mapped with the given mappings: %s" % show(t)[:60])
        return None


def inl(t):
    return t.k == "fld" and t.a[1] == "collect_inlines"


class Gate(CRule):
    """Inlines are collected if and only if they are wanted. Automaton: the inlined calls of the function were gone through."""
    opaque = ("Lines::finalize", "Lines::add_line", "SourceFiles::get_id", "Collector::demangle")

    def initial(self):
        return False

    def sticky(self, t, v):
        return inl(t)

    def on_call(self, I, st, ev):
        if ev.path.endswith(("Lines::add_inline", "InlineOrigins::get_id")):
            w = [v for t, v in st.f.items() if inl(t)]
            self.rep.ob("gate", ev.site(), w == [True], "an inlined call is only recorded when inlines are wanted")
        if ev.name in ("BTreeMap::insert",) and any("Symbol" in t["s"] for t in ev.targs):
            w = [v for t, v in st.f.items() if inl(t)]
            self.rep.ob("gate", ev.site() + " all", w == [False] or w == [True] and st.a, "when inlines are wanted, all the inlined calls of a function are recorded (%s)" % w)
        return None

    def on_end(self, I, st, ev, it):
        if it.k == "iter" and whole(it) and it.a[0].k == "fld" and it.a[0].a[1] == "inlinees" and it.a[0].a[0].k == "arg":
            st.a = True


class Info(CRule):
    """The extra lines are written. Automaton: (line to be written, written, all gone through)."""

    def initial(self):
        return (None, False, False)

    def extra(self, t):
        return t.k == "pay" and is_call(t.a[0], "OnceCell::get", "OnceLock::get") and "EXTRA_INFO" in show(t.a[0])

    def sticky(self, t, v):
        return is_call(t, "OnceCell::get", "OnceLock::get")

    def on_elem(self, I, st, ev, it, v):
        if it.k == "iter" and self.extra(it.a[0]):
            self.close(st, ev)
            st.a = (v, False, False)

    def close(self, st, ev):
        if st.a[0] is not None:
            self.rep.ob("extra", ev.site() + " written", st.a[1] is True, "each extra line is written as an INFO record")
        st.a = (None, False, st.a[2])

    def on_end(self, I, st, ev, it):
        if it.k == "iter" and self.extra(it.a[0]):
            self.close(st, ev)
            st.a = (None, False, whole(it))

    def on_text(self, I, st, ev, w, tk):
        if st.a[0] is not None:
            if tk == ("lit", "INFO "):
                st.a = (st.a[0], "INFO", False)
            elif tk[0] == "arg" and st.a[1] == "INFO" and any(x is st.a[0] for x in subterms(tk[3])):
                st.a = (st.a[0], True, False)

    def on_exit(self, I, st, fn, v):
        if not I.assume_variant(st.copy(), v, "Ok"):
            return
        k = [x for t, x in st.f.items() if self.sticky(t, x) and isinstance(x, str)]
        self.rep.ob("extra", "exit of " + fn.path, k == ["None"] or k == ["Some"] and st.a[2], "all the extra lines are written, if there are some (%s)" % k)


def check(ctx):
    rep = ctx.rep
    for r, t in (("option", "each documented option exists, with its names, its kind and its default"),
                 ("config", "each field of the configuration has the value of its option"),
                 ("output", "the output is made from --output and --store"),
                 ("files", "all the files given are dumped"),
                 ("action", "--list-arch lists the architectures, otherwise the files are dumped"),
                 ("verbosity", "the log level is that of --verbose"),
                 ("extra", "the INFO lines given and the GENERATOR line are in the output"),
                 ("handed", "each value of the configuration reaches what it is for, for one file and for several"),
                 ("jobs", "the number of workers is the configured one"),
                 ("reader", "each reader hands the options down"),
                 ("gate", "inlined calls are recorded if and only if they are wanted"),
                 ("default", "the default configuration is the documented one")):
        rep.rule(r, t)
    m = Main(rep)
    m.lists = []
    I, _ = run(ctx, m, "bin::main")
    if I:
        m.after(I)
    for root, kind in (("dump_syms::dumper::single_file", "one file"), ("dump_syms::dumper::several_files", "several files")):
        r = Run(rep, mk("arg", root, "config"), kind)
        r.loops = []
        I, _ = run(ctx, r, root)
        if I:
            r.after(I)
            if kind == "several files":
                # a loop over a range that depends on the number of jobs creates the workers
                ok = [it for s, it in r.loops if any(x is r.c("num_jobs") for y in I.sources(it.a[0]) for x in subterms(y))]
                rep.ob("jobs", root, bool(ok) and r.spawned, "the loop that creates the workers depends on the number of jobs: %s" % [show(i)[:100] for i in ok][:1])
    for f in READ[:4]:
        root = {"from_elf": "dump_syms::linux", "from_macho": "dump_syms::mac", "from_pdb": "dump_syms::windows::pdb", "from_pe_with_mapping": "dump_syms::windows::pdb"}[f.split("::")[1]]
        cands = [p for p in ctx.prog.fns if p.endswith(f)]
        for p in cands:
            run(ctx, Read(rep, f), p)
    run(ctx, Gate(rep), "dump_syms::collector::Collector::collect_function")
    run(ctx, Info(rep), DISPLAY)

    class D(CRule):
        def on_exit(self, I, st, fn, v):
            want = {"symbol_server": "None", "debug_id": "None", "code_id": "None", "mapping_var": "None", "mapping_src": "None", "mapping_dest": "None", "mapping_file": "None"}
            for f, w in want.items():
                t = I.resolve(st, I.proj(st, v, ("f", f)))
                rep.ob("default", f, I.variant(st, t) == w, "%s is not set: %s" % (f, show(t)[:60]))
            for f, w in (("num_jobs", 1), ("check_cfi", True), ("emit_inlines", True)):
                t = I.resolve(st, I.proj(st, v, ("f", f)))
                rep.ob("default", f, t.a and t.a[0] == w and t.k in ("int", "bool"), "%s is %s: %s" % (f, w, show(t)[:60]))
            t = I.resolve(st, I.proj(st, v, ("f", "output")))
            rep.ob("default", "output", t.k == "arg", "the output is the one given: %s" % show(t)[:60])
            t = I.resolve(st, I.proj(st, v, ("f", "arch")))
            rep.ob("default", "arch", is_call(t, "Arch::name") and t.a[1][0].k == "agg", "the architecture is that of the build: %s" % show(t)[:60])
    run(ctx, D(rep), "dump_syms::dumper::Config::with_output")
    rep.floor("option", 50, "options")
    rep.floor("config", 16, "fields of the configuration, for one file and for several")
    rep.floor("output", 8, "outputs")
    rep.floor("files", 1, "one file and several")
    rep.floor("action", 2, "dump of one file and of several, list")
    rep.floor("verbosity", 1, "log level")
    rep.floor("extra", 5, "extra lines")
    rep.floor("handed", 30, "values handed down")
    rep.floor("reader", 8, "readers")
    rep.floor("gate", 2, "recording of inlined calls")
    rep.floor("default", 12, "fields")
