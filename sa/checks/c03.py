"""A failure is never reported as success."""
from checklib import *

ASSUMPTIONS = ["a function of std or of a dependency that returns Ok did what it documents",
               "the fallbacks that are allowed to go on after a failed step are those of FALLBACKS below"]
RES = models.RES
OPT = models.OPT
D = "dump_syms::"

# operations that may fail without the dump being a failure: (name of the operation, None or condition on its arguments)
FALLBACKS = {
    "fs::canonicalize": "the sources usually aren't on this machine: the path is normalised instead",
    "Path::canonicalize": "same",
    "str::parse": "a number is recognised or not in a name, in a mapping or in --num-jobs",
    "PathMappings::map": "a path whose mapping fails is kept",
    "AsciiCfiWriter::process": "what could be read of the unwind info is kept, the error is logged",
    "lzma_rs::xz_decompress": "no usable mini debug info",
    "goblin::Object::parse": "sections are only looked up in the formats goblin knows",
    "Object::parse#mini": "no usable mini debug info",
    "PeObject::parse#found": "the search for the PE of a PDB only gives one that parses (see C18)",
    "Cabinet::new": "not a cabinet: used as is",
    "Receiver::recv": "nobody will send anything any more",
    "TermLogger::init": "no logs", "CombinedLogger::init": "no logs", "SimpleLogger::init": "no logs", "WriteLogger::init": "no logs",
    "ConfigBuilder::set_time_offset_to_local": "logs in UTC", "log::set_boxed_logger": "no logs", "log::set_logger": "no logs",
}
REST = "a function, after which the next ones aren't read"
MAKE_ERR = ("Error::msg", "__private::format_err", "Error::new", "Error::from_fmt", "Error::construct")


SPAWNED = mk("is", mk("const", "spawned"), "Ok")


class R(CRule):
    """Automaton: the failure not accounted for yet, as (site, what, kind), or None."""
    allowed = ()            # operations allowed to fail under this root
    items = ()              # sources of items allowed to fail under this root

    def __init__(self, rep, root, opaque=(), allowed=(), items=(), fail_none=()):
        super().__init__(rep)
        self.opaque = tuple(opaque)
        self.allowed = allowed
        self.items = items
        self.rootname = root
        self.fail_none = fail_none

    def initial(self):
        return (None, False, None)

    def pend(self, st, site, what):
        st.a = (st.a[0] or (site, what),) + st.a[1:]

    def clear(self, st):
        st.a = (None,) + st.a[1:]

    def op(self, I, st, ev):
        """Name of the operation."""
        n = ev.name
        if ev.decl.startswith("goblin::") and n == "Object::parse":
            return "goblin::Object::parse"
        if n == "Object::parse" and any(is_call(x, "symbol::get_compressed_minidebuginfo") or is_call(x, "lzma_rs::xz_decompress") or x.k == "upd" and "xz_decompress" in x.a[1] for x in I.sources(ev.args[0])):
            return "Object::parse#mini"
        if n == "PeObject::parse" and any(is_call(x, "utils::find_pe_for_pdb") for x in I.sources(ev.args[0])):
            return "PeObject::parse#found"
        if n in ("String::from_utf8", "str::from_utf8", "converts::from_utf8") and not any(x.k in ("site", "upd") and ("read_to_end" in str(x.a[1]) or "fs::read" in str(x.a[1])) for x in I.sources(ev.args[0])):
            return "str::parse"
        return n

    def on_call(self, I, st, ev):
        n = ev.name
        if n in MAKE_ERR and "anyhow" in ev.decl:
            self.pend(st, ev.site(), "error made here")
            return None
        if n in ("Builder::spawn", "thread::spawn", "functions::spawn", "Scope::spawn", "Builder::spawn_scoped"):
            st.f[SPAWNED] = True
        if n == "process::exit":
            p = st.a[0]
            if p:
                c = ev.args[0]
                self.rep.ob("exit-status", ev.site(), c.k == "int" and str(c.a[0]) not in ("0",), "after the failure of %s (%s) the process exits with a non-zero status: %s" % (p[1], p[0], show(c)))
            return None
        if n.startswith("JoinHandle::join") or n == "ScopedJoinHandle::join":
            return self.join(I, st, ev)
        if ev.rt.get("path") != RES:
            return None
        if ev.decl.startswith((RES, OPT, "core::ops::try_trait", "core::iter", "core::fmt", "anyhow::", "futures")) or n in (
                "Mutex::lock", "Mutex::into_inner", "Arc::try_unwrap", "panic::catch_unwind", "Builder::spawn", "Future::poll", "panicking::catch_unwind",
                "Iterator::collect", "Iterator::try_for_each", "Iterator::try_fold", "Mutex::try_lock", "Formatter::write_fmt", "Formatter::write_str", "Clone::clone", "Into::into", "From::from",
                "FnOnce::call_once", "FnMut::call_mut", "Fn::call", "Iterator::next", "OnceCell::set", "OnceLock::set", "Formatter::write_char", "Formatter::pad", "Option::transpose"):
            return None
        if n.startswith("Formatter::") or n.endswith("::fmt") or ev.decl.startswith("<indirect"):
            return None
        if n.startswith("Write::") and ev.targs and models.peel(ev.targs[0]) in ("alloc::string::String",):
            return None
        fn = I.prog.fns.get(ev.path)
        if fn is not None and self.inline(ev.path) and ev.path not in I.chain(ev.fid):
            return None
        o = self.op(I, st, ev)
        free = o in FALLBACKS or o in self.allowed
        # both outcomes; what the function wrote through its arguments isn't known any more
        I.stale(st, ev.point)
        for i, cell, path in I.mutlocs(st, ev):
            v = mk("upd", ev.point, ev.decl, tuple(ev.args), i)
            I.storeloc(st, cell, path, v)
        s2 = st.copy()
        val = mk("site", ev.point, ev.decl, tuple(ev.args))
        self.rep.ob("op", ev.site() + " " + n, True, "failure followed" if not free else "may fail: " + FALLBACKS.get(o, "allowed here"))
        if not free:
            self.pend(s2, ev.site(), n)
        if ev.path.endswith(("ObjectInfo::from_pe_with_mapping", "ObjectInfo::from_pe")) and st.a[0]:
            # documented fallback: the PE alone when its PDB isn't usable
            self.clear(st)
        if n == "Cabinet::new":
            st.f[mk("is", mk("const", "cabinet"), "Ok")] = True
            s2.f[mk("is", mk("const", "cabinet"), "Ok")] = False
        return [(st, ok(mk("pay", val, "Ok", "0"))), (s2, err(mk("pay", val, "Err", "0")))]

    def sticky(self, t, v):
        return t.k == "is" and t.a[0].k == "const" and t.a[0].a[0] in ("cabinet", "spawned")

    def join(self, I, st, ev):
        I.stale(st, ev.point)
        st.a = st.a[:2] + (None,) + st.a[3:]
        val = mk("site", ev.point, "join", tuple(ev.args))
        self.rep.ob("op", ev.site() + " join", True, "failure of a worker followed")
        s2, s3 = st.copy(), st.copy()
        for s, w in ((s2, "the work of a thread"), (s3, "a thread (panic)")):
            self.pend(s, ev.site(), w)
        inner = ev.rt.get("args", [{}])
        return [(st, ok(ok(UNIT))), (s2, ok(err(mk("pay", val, "Err", "0")))), (s3, err(mk("site", ev.point, "panic", ())))]

    # items of iterators that are results
    def on_fact(self, I, st, t, v):
        if v == "Ok" and st.a[3:] and t is st.a[3]:
            st.a = st.a[:3]
        if v == "Err" and t.k == "elem":
            src = t.a[1]
            ss = subterms(src)
            names = {short(x.a[0]) for x in ss if x.k == "call"} | {short(x.a[1]) for x in ss if x.k == "site"}
            free = bool(names & set(self.items))
            site = "items of " + (", ".join(sorted(names)) or show(src)[:60])
            self.rep.ob("op", site, True, "failure of an item followed" if not free else "an item may fail")
            if free and "ObjectDebugSession::functions" in names:
                # unless the next ones aren't read either
                self.pend(st, site, REST)
            elif not free:
                self.pend(st, site, "the work of a thread" if any(x.k == "site" and x.a[1] == "join" for x in I.sources(src)) else "an item")
        if v == "None" and any(is_call(x, *self.fail_none) for x in ([t] if t.k != "fld" else [t.a[0]])):
            self.pend(st, "%s returns no data" % show(t)[:60], "the search")

    def on_spawn(self, I, st, ev):
        return (None, False, None)

    def on_unwound(self, I, st, ev):
        return (("%s" % ev.site(), "a panic"),) + st.a[1:]

    def on_thread_exit(self, I, st, v, ev):
        s = st.copy()
        if I.assume_variant(s, v, "Ok"):
            p = s.a[0]
            self.rep.ob("worker", "exit of the worker", p is None, "the worker ends with Ok%s" % ("" if p is None else " after the failure of %s (%s)" % (p[1], p[0])),
                        key="exit of the worker" + ("" if p is None else str(p)))

    def is_handle(self, t):
        return any(x.k == "site" and x.a[1] == "spawn" for x in subterms(t))

    # the outcomes of the workers may be put in a list first
    def outcomes(self, I, it):
        ss = I.sources(it.a[0])
        return any(x.k == "site" and x.a[1] == "join" for x in ss) and not any(k in ("filter", "take", "skip", "step_by", "take_while", "skip_while", "map_while") for k, _ in it.a[2])

    def looked(self, ev):
        return not collecting(ev) or ev.rt.get("path") in (RES, OPT)

    def on_skip(self, I, st, ev, it):
        self.goes_on(st, it)

    def goes_on(self, st, it):
        if st.a[0] and st.a[0][1] is REST and any(is_call(x, "ObjectDebugSession::functions") for x in subterms(it)):
            self.clear(st)

    def on_next(self, I, st, ev, it):
        self.goes_on(st, it)
        if st.a[3:] and st.a[3] != "bad" and self.outcomes(I, it):
            st.a = st.a[:3] + ("bad",)
        if st.a[2] is not None:
            self.rep.ob("joined", ev.site(), False, "the result of the worker %s isn't looked at" % show(st.a[2])[:80])

    def on_elem(self, I, st, ev, it, v):
        ss = I.sources(it.a[0])
        if self.looked(ev) and self.outcomes(I, it) and v.k != "agg" and st.a[3:] != ("bad",):
            st.a = st.a[:3] + (v,)
        if any(x.k == "site" and x.a[1] == "spawn" for x in ss) and not any(k in ("map",) and False for k, _ in it.a[2]):
            if any(k in ("filter", "take", "skip", "step_by", "take_while", "skip_while", "map_while") for k, _ in it.a[2]):
                self.rep.ob("joined", ev.site(), False, "some workers are left out")
            if not any(x.k == "site" and x.a[1] == "join" for x in I.sources(v)) and v.k != "agg":
                st.a = st.a[:2] + (mk("const", "worker"),) + st.a[3:]

    def on_end(self, I, st, ev, it):
        self.goes_on(st, it)
        ss = I.sources(it.a[0])
        if any(x.k == "site" and x.a[1] == "spawn" for x in ss):
            self.rep.ob("joined", ev.site(), st.a[2] is None, "all the workers are joined")
            st.a = (st.a[0], True, None) + st.a[3:]
        if self.outcomes(I, it) and not st.a[3:] and st.a[0] and st.a[0][1] == "the work of a thread" and self.looked(ev):
            # every outcome was looked at and is a success: no work of a thread failed
            self.clear(st)
        if self.outcomes(I, it):
            st.a = st.a[:3]

    def on_exit(self, I, st, fn, v):
        rt = fn.locals[0][0]
        ty = I.prog.types[fn.crate][rt]
        p = ty.get("path")
        s = st.copy()
        if p == RES:
            good = I.assume_variant(s, v, "Ok")
        elif p == OPT:
            good = I.assume_variant(s, v, "Some")
        elif str(p).endswith("ExitCode"):
            def failing(x):
                n = [y for y in subterms(x) if y.k == "int"]
                return show(x).endswith("ExitCode::FAILURE") or is_call(x, "ExitCode::from", "From::from") and len(n) == 1 and n[0].a[0] not in (0, "0")
            good = not all(failing(x) for x in I.alts(I.resolve(s, v)))
        elif self.rootname.endswith("cache::search_file"):
            good = I.assume_variant(s, I.proj(s, v, ("f", "0")), "Some")
        else:
            good = True
        if not good:
            if self.rootname == "bin::main" and st.a[0] is not None:
                self.rep.ob("exit-status", "exit of main", True, "after the failure of %s (%s) main returns a failure: %s" % (st.a[0][1], st.a[0][0], show(v)[:80]))
            return
        if self.rootname.endswith("utils::read_cabinet"):
            cab = s.f.get(mk("is", mk("const", "cabinet"), "Ok"))
            w = I.resolve(s, I.proj(s, v, ("p", "Some", "0")))
            if cab is not False:
                for x in I.alts(w):
                    good = any(is_call(y, "Cabinet::read_file") or y.k in ("site", "upd") and "read_file" in str(y.a[1]) for y in I.sources(x))
                    self.rep.ob("cabinet", "utils::read_cabinet", good, "what is returned for a cabinet was extracted from it: %s" % show(x)[:120])
        pe = s.a[0]
        name = fn.path.replace(D, "")
        self.rep.ob("success", name, pe is None, "%s reports success%s" % (name, "" if pe is None else " after the failure of %s (%s)" % (pe[1], pe[0])),
                    key=name + ("" if pe is None else " " + str(pe)))
        if self.spawns and s.f.get(SPAWNED):
            self.rep.ob("joined", "success of " + name, s.a[1], "the results of all the workers were looked at before")

    spawns = False


def check(ctx):
    rep = ctx.rep
    rep.rule("op", "operations that can fail, whose failure is followed to the exits")
    rep.rule("success", "success isn't reported on a path where an operation failed")
    rep.rule("exit-status", "the process exits with a non-zero status after a failure")
    rep.rule("cabinet", "a cabinet is never used as is")
    rep.rule("worker", "a worker doesn't end with Ok on a path where an operation failed or that panicked")
    rep.rule("joined", "the result of every worker is looked at")
    up = READERS + (DISPLAY,)
    col = ("Collector::collect_functions", "Collector::collect_publics", "Collector::collect_placeholder_functions", "symbol::add_executable_section_symbols",
           "symbol::get_compressed_minidebuginfo")
    roots = [
        (D + "dumper::single_file", dict(opaque=up, fail_none=("cache::search_file",))),
        (D + "dumper::several_files", dict(opaque=up)),
        (D + "utils::read_file", {}),
        (D + "utils::read", {}),
        (D + "utils::read_cabinet", {}),
        (D + "mapping::PathMappings::new", {}),
        (D + "mapping::PathMappings::map", {}),
        (D + "cache::search_file", dict(opaque=("utils::read_file",), allowed=("RequestBuilder::send#head",))),
        (D + "cache::get_sym_servers", {}),
        (D + "windows::utils::get_pe_pdb_buf", dict(opaque=("cache::search_file", "utils::read_file"), allowed=("PdbObject::parse",))),
        (D + "windows::utils::find_pe_for_pdb", dict(opaque=("utils::read_file",), allowed=("PeObject::parse",))),
        (D + "object_info::ObjectInfo::from_elf", dict(opaque=("ObjectInfo::from_object",))),
        (D + "object_info::ObjectInfo::from_macho", dict(opaque=("ObjectInfo::from_object",), items=("Archive::objects",))),
        (D + "object_info::ObjectInfo::from_pdb", dict(opaque=("ObjectInfo::from_object",))),
        (D + "object_info::ObjectInfo::from_pe", dict(opaque=("ObjectInfo::from_object",))),
        (D + "object_info::ObjectInfo::from_object", dict(opaque=col + ("SourceFiles::new",))),
        (D + "object_info::ObjectInfo::merge", dict(opaque=("SourceMap::merge", "Symbol::remap_lines", "Symbol::remap_inlines"))),
        (D + "collector::Collector::collect_functions", dict(opaque=("Collector::collect_function",), items=("ObjectDebugSession::functions",))),
        (D + "mac::print_macho_architectures", {}),
        ("bin::action::Action::action", dict(opaque=("dumper::single_file", "dumper::several_files", "mac::print_macho_architectures", "utils::read_file"))),
        ("bin::main", dict(opaque=("action::Action::action",))),
    ]
    for root, kw in roots:
        r = R(rep, root, **kw)
        r.spawns = root.endswith("several_files") and root.startswith(D)
        run(ctx, r, root)
    rep.floor("op", 20, "operations that can fail")
    rep.floor("success", 15, "exits with success")
    rep.floor("worker", 1, "exit of the worker")
    rep.floor("joined", 1, "loop over the workers")
    rep.floor("exit-status", 1, "exit in main")
