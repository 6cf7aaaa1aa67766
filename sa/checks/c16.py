"""Standard output only carries what was asked for."""
from checklib import *
import json

ASSUMPTIONS = ["simplelog in the mode Stderr, eprintln! and the default panic message write on the standard error",
               "clap writes on the standard output only for --help and --version"]
ARCH = "dump_syms::mac::print_macho_architectures"
WRITER = "dump_syms::dumper::get_writer_for_sym"
FO = "dump_syms::dumper::FileOutput"
ACTION = "bin::action::Action::action"
PRINTS = ("stdio::_print",)
NAMES = ("/dev/stdout", "/dev/fd/1", "/proc/self/fd/1", "/proc/self/fd/", "/dev/fd/", "/dev/tty", "CONOUT$")
# loggers that may write on the standard output
LOGGERS = ("SimpleLogger::", "TestLogger::", "env_logger", "fern::", "stderrlog")


def fields(o):
    """Every function mentioned anywhere in a body (called, or used as a value)."""
    if isinstance(o, dict):
        f = o.get("fn")
        if isinstance(f, dict) and ("r" in f or "p" in f):
            yield f.get("r") or f["p"]
        for v in o.values():
            yield from fields(v)
    elif isinstance(o, list):
        for v in o:
            yield from fields(v)


def strings(o):
    if isinstance(o, dict):
        for k, v in o.items():
            if k == "str" and isinstance(v, str):
                yield v
            else:
                yield from strings(v)
    elif isinstance(o, list):
        for v in o:
            yield from strings(v)


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.out = {}
        for f in prog.fns.values():
            s = set(fields(f.blocks))
            s |= set(prog.children.get(f.path, ()))
            self.out[f.path] = s

    def reach(self, roots, cut=()):
        seen, stack = set(), [r for r in roots if r not in cut]
        while stack:
            f = stack.pop()
            if f in seen:
                continue
            seen.add(f)
            for g in self.out.get(f, ()):
                if g in self.out and g not in cut:
                    stack.append(g)
        return seen


class Writer(CRule):
    """The writer that is made for a destination."""

    def __init__(self, rep):
        super().__init__(rep)
        self.outs = []

    def sticky(self, t, v):
        return t.k == "arg" and isinstance(v, str)

    def fo(self, I, st):
        t = mk("arg", WRITER, "fo")
        return I.variant(st, t)

    def on_call(self, I, st, ev):
        if ev.path == "std::io::stdio::stdout":
            self.rep.ob("stdout", ev.site(), self.fo(I, st) == "Stdout", "the standard output is only opened when it is the destination: %s" % self.fo(I, st))
        return None

    def on_exit(self, I, st, fn, v):
        self.outs.append((self.fo(I, st), I.resolve(st, v)))

    def after(self, I):
        for k, v in self.outs:
            for a in I.alts(v):
                s = subterms(a)
                std = [x for x in s if is_call(x, "stdio::stdout", "Stdout::lock", "io::stdout")]
                if k == "Stdout":
                    self.rep.ob("locked", "exit of get_writer_for_sym (stdout)", any(is_call(x, "Stdout::lock") for x in s), "the standard output is locked until the text is written: %s" % show(a)[:120])
                else:
                    self.rep.ob("stdout", "exit of get_writer_for_sym (%s)" % k, isinstance(k, str) and not std, "another destination isn't the standard output: %s" % show(a)[:120])


def option(t, name):
    """The value of an option of the command line."""
    return any(is_call(x, "ArgMatches::get_one") and cargs(x)[1].k == "str" and cargs(x)[1].a[0] == name for x in subterms(t))


class Made(CRule):
    """Where the standard output is chosen as a destination."""
    opaque = ("Action::action",)

    def __init__(self, rep):
        super().__init__(rep)
        self.spare, self.used = [], []

    def on_call(self, I, st, ev):
        if ev.name.split("::")[-1] == "unwrap_or" and len(ev.args) == 2:
            a, b = [I.resolve(st, x) for x in ev.args]
            if b.k == "agg" and b.a[0] == FO and b.a[1] == "Stdout":
                none = {n for n in ("output", "store") for t, v in st.f.items() if v == "None" and option(t, n)}
                k = I.variant(st, a)
                self.used.append((ev.site(), k == "Some" or "store" in none and ("output" in none if k == "None" else option(a, "output"))))
        return None

    def after(self):
        for site in self.spare:
            self.rep.ob("chosen", site, self.used and all(ok for _, ok in self.used), "the standard output is the destination when neither a file nor a store is given: %s" % sorted({s for s, ok in self.used if not ok}))

    def sticky(self, t, v):
        return t.k == "bin" and t.a[0] == "Eq" and any(x.k == "str" for x in t.a[1:]) or isinstance(v, str) and (is_call(t, "ArgMatches::get_one", "map") or t.k in ("omap", "arg"))

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if adt == FO and variant == "Stdout":
            dash = any(t.k == "bin" and t.a[0] == "Eq" and v is True and any(x.k == "str" and x.a[0] == "-" for x in t.a[1:]) and (any(x.k == "arg" for x in subterms(t)) or option(t, "output")) for t, v in st.f.items())
            none = {n for n in ("output", "store") for t, v in st.f.items() if v == "None" and option(t, n)}
            if not dash and none == {"store"} and fn.path.startswith("bin::"):
                # the value used when there is no file
                self.spare.append(site)
                return
            self.rep.ob("chosen", site, dash or none == {"output", "store"}, "the standard output is the destination for -, or when no destination is given (%s)" % (sorted(none) or dash))


class List(CRule):
    """What is printed."""
    opaque = ("dumper::single_file", "dumper::several_files", "utils::read_file")

    def __init__(self, rep):
        super().__init__(rep)
        self.printed = []

    def sticky(self, t, v):
        return t.k == "arg" and isinstance(v, str)

    def on_call(self, I, st, ev):
        if ev.name in PRINTS:
            k = I.variant(st, mk("arg", ACTION, "self"))
            self.rep.ob("print", ev.site(), k == "ListArch", "only the list of the architectures is printed: %s" % k)
            self.printed.append((ev.site(), I.resolve(st, ev.args[0]) if ev.args else None))
        return None

    def after(self, I):
        name = archs = False
        for site, t in self.printed:
            s = subterms(t) if t is not None else ()
            if t is None or t.k != "fmt":
                self.rep.ob("list", site, False, "what is printed isn't known: %s" % (show(t)[:80] if t is not None else ""))
                continue
            for tk in t.a[0]:
                if tk[0] != "arg":
                    continue
                x = I.sources(tk[3])
                args = {y.a[1] for y in x if y.k == "arg"}
                read = any(is_call(y, "utils::read_file") for y in x)
                arch = any(is_call(y, "Archive::objects", "Archive::object_by_index") for y in x)
                lit = all(y.k in ("str", "phi", "int") for y in I.alts(tk[3]))
                f = not read and bool(args & {"filename", "filenames", "file_name"})
                name = name or f
                archs = archs or arch
                self.rep.ob("list", site + " %s" % tk[1], f or arch or lit, "the name of the file or its architectures: %s" % show(tk[3])[:100])
        self.rep.ob("list", "name and architectures", name and archs, "the list gives the name of the file and its architectures")


class Main(CRule):
    opaque = ("Action::action",)

    def __init__(self, rep):
        super().__init__(rep)

    def initial(self):
        return frozenset()

    def sticky(self, t, v):
        return is_call(t, "Action::action")

    def on_call(self, I, st, ev):
        if "simplelog" in ev.path and ev.name.split("::")[-1] in ("init", "new") and "Logger" in ev.name:
            if ev.name.startswith("TermLogger"):
                a = [I.resolve(st, x) for x in ev.args]
                m = [I.variant(st, x) for x in a if x.k == "agg" and "TerminalMode" in str(x.a[0])] or [show(x) for x in a if "Terminal" in show(x)[:60]]
                self.rep.ob("log", ev.site(), m == ["Stderr"], "the messages go to the standard error: %s" % m)
            else:
                self.rep.ob("log", ev.site(), ev.name.startswith(("CombinedLogger", "WriteLogger")), "the messages go to the standard error: %s" % ev.name)
        if ev.name in ("stdio::_eprint", "io::_eprint") and ev.args:
            t = I.resolve(st, ev.args[0])
            if any(is_call(x, "Action::action") for x in subterms(t)):
                st.a = st.a | {"told"}
        if ev.name in ("Write::write_all", "Write::write_fmt", "Write::write") and "stderr" in show(I.resolve(st, ev.args[0]))[:300]:
            st.a = st.a | {"told"}
        if ev.name in ("process::exit",) or ev.path.endswith("process::exit"):
            self.told(I, st, ev.site())
        return None

    def told(self, I, st, site):
        if any(is_call(t, "Action::action") and v == "Err" for t, v in st.f.items()):
            self.rep.ob("error", site, "told" in st.a or any(is_call(t, "log::__private_api::log") for t in st.f), "an error is told on the standard error")

    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        if I.variant(st, v) != "Err":
            self.told(I, st, "exit of main")


def check(ctx):
    rep, prog = ctx.rep, ctx.prog
    rep.rule("print", "nothing is printed on the standard output but the list of the architectures")
    rep.rule("list", "the list has the name of the file and its architectures")
    rep.rule("stdout", "the standard output is only opened when it is the destination of the symbols")
    rep.rule("locked", "the writer holds the lock of the standard output, so that the modules don't mix")
    rep.rule("chosen", "the standard output is the destination for - or when no destination is given")
    rep.rule("log", "the messages go to the standard error")
    rep.rule("error", "an error of the program is told on the standard error")
    rep.rule("other", "nothing else reaches the standard output: other processes, files by name, descriptors")
    g = Graph(prog)
    roots = [f.path for f in prog.fns.values() if f.pub or f.path.startswith("<") or f.path == "bin::main"]
    every = g.reach(roots)
    # what only runs to list the architectures, from the public function that does it
    rest = g.reach(roots, cut=(ARCH,))
    only = every - rest
    acts = {f for f in every if f.startswith("bin::action::")}
    calls = 0
    for c in all_calls(prog):
        if c.fn.path not in every:
            continue
        calls += 1
        n, site = short(c.path), "%s (%s)" % (c.sp, c.fn.path.replace("dump_syms::", ""))
        low = c.path.lower()
        if n in PRINTS:
            rep.ob("print", site + " reachable", c.fn.path in only or c.fn.path in acts, "printed outside of the list of the architectures")
        elif c.path in prog.fns:
            pass
        elif n in ("stdio::stdout",) or "stdout" in low and "stdio::stdout::" not in low:
            rep.ob("stdout", site + " opened", c.path == "std::io::stdio::stdout" and (c.fn.path == WRITER or c.fn.path in g.reach([WRITER]) and c.fn.path not in g.reach(roots, cut=(WRITER,))), "opened elsewhere: %s" % c.path)
        elif any(x in c.path for x in LOGGERS):
            rep.ob("log", site, False, "a logger that writes on the standard output: %s" % c.path)
        elif "process::Command::" in c.path or c.path.endswith("FromRawFd::from_raw_fd") or low.startswith(("libc::write", "nix::unistd::write", "rustix::io::write")):
            rep.ob("other", site, False, "%s may write on the standard output" % c.path)
        elif "TermLogger::" in c.path:
            rep.ob("log", site + " from main", c.fn.path == "bin::main" or c.fn.path in g.reach(["bin::main"]), "the logger is set up by main")
    for f in every:
        for s in strings(prog.fns[f].blocks):
            if any(s == x or s.startswith(x) and x.endswith("/") for x in NAMES):
                rep.ob("other", "%s in %s" % (s, f), False, "a file that is the standard output")
    rep.ob("other", "program", calls > 1000, "%d calls in %d functions examined" % (calls, len(every)))
    r = Writer(rep)
    I, _ = run(ctx, r, WRITER)
    if I:
        r.after(I)
    makes = set()
    for f in every:
        for b in prog.fns[f].blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] == FO and s[2][3] == "Stdout":
                    makes.add(f.split("::{closure#")[0])
    for f in sorted(makes):
        if "Clone" not in f:
            r = Made(rep)
            run(ctx, r, "bin::main" if f.startswith("bin::") else f)
            r.after()
    r = List(rep)
    I, _ = run(ctx, r, ACTION)
    if I:
        r.after(I)
    run(ctx, Main(rep), "bin::main")
    rep.floor("print", 2, "prints of the list")
    rep.floor("list", 1, "parts of the list")
    rep.floor("stdout", 1, "places where the standard output is opened")
    rep.floor("locked", 1, "writer on the standard output")
    rep.floor("chosen", 1, "choices of the standard output")
    rep.floor("log", 1, "logger")
    rep.floor("error", 1, "exit on an error")
