"""Success means every requested output is completely written."""
from checklib import *

ASSUMPTIONS = ["a write or a flush that reports success has written the bytes",
               "an empty store directory means that no store was requested (as in --store \"\")"]
OUT = ("File", "Store", "FileAndStore")
FO = ("Path", "Stdout", "Stderr")


def dest(I, st, w):
    """The destination a writer writes to."""
    ss = I.sources(I.resolve(st, w))
    ds = set()
    for x in ss:
        if is_call(x, "File::create", "File::create_new"):
            ds.add(("path", cargs(x)[0]))
        elif is_call(x, "io::stdout", "stdio::stdout"):
            ds.add(("stdout",))
        elif is_call(x, "io::stderr", "stdio::stderr"):
            ds.add(("stderr",))
        elif is_call(x, "OpenOptions::open"):
            ds.add(("path", cargs(x)[1]))
    return ds


def is_output(t):
    return t.k == "fld" and t.a[1] == "output"


class Dest(CRule):
    """Knows which destinations were requested and which have been written and flushed.
    Automaton: (active, frozenset of ("text"|"done", destination))."""
    opaque = READERS + (DISPLAY,)

    def initial(self):
        return (self.start, frozenset())

    start = True

    def sticky(self, t, v):
        if isinstance(v, str):
            if v in OUT and is_output(t):
                return True
            if v in FO and t.k == "pay" and is_output(t.a[0]):
                return True
        if isinstance(v, bool) and t.k == "bin" and t.a[0] == "Eq" and any(a.k == "call" and a.a[0] == "len" and self.dirterm(a.a[1][0]) for a in t.a[1:]):
            return True
        return False

    def dirterm(self, t):
        return t.k == "pay" and is_output(t.a[0])

    def wanted(self, I, st):
        """-> the destinations requested on this path, or None if the output isn't known on it."""
        out = None
        for t, v in st.f.items():
            if isinstance(v, str) and v in OUT and is_output(t):
                out = set()
                if v in ("File", "FileAndStore"):
                    fo = models.pay(t, v, "0" if v == "File" else "file")
                    k = I.variant(st, fo)
                    if k == "Path":
                        out.add(("path", models.pay(fo, "Path", "0")))
                    elif k == "Stdout":
                        out.add(("stdout",))
                    elif k == "Stderr":
                        out.add(("stderr",))
                    else:
                        out.add(("file?", fo))
                if v in ("Store", "FileAndStore"):
                    d = models.pay(t, v, "0" if v == "Store" else "store_directory")
                    e = I.known(st, models.is_empty(d))
                    if e is None:
                        out.add(("store?", d))
                    elif e is False:
                        out.add(("store", d))
        return out

    @staticmethod
    def same(w, d):
        if w[0] == "path":
            return d[0] == "path" and d[1] is w[1]
        if w[0] in ("store", "store?"):
            return d[0] == "path" and d[1].k == "path" and d[1].a[0][0] is w[1] and len(d[1].a[0]) > 1
        return d == w

    def mark(self, st, kind, ds):
        act, got = st.a
        st.a = (act, got | frozenset((kind, d) for d in ds))

    def on_text(self, I, st, ev, w, tk):
        if tk[0] == "arg" and ("ObjectInfo" in tk[2] or tk[2] == "bytes" and self.whole(I, tk[3])):
            ds = dest(I, st, w)
            self.rep.ob("one-destination", ev.site(), len(ds) == 1, "the text goes to exactly one known destination: %s" % sorted(show(d) for d in ds))
            self.mark(st, "text", ds)
            if not any("BufWriter" in str(x.a[0]) or "LineWriter" in str(x.a[0]) for x in I.sources(I.resolve(st, w)) if x.k == "call"):
                if all(d[0] == "path" for d in ds):
                    self.mark(st, "done", ds)

    def whole(self, I, t):
        return any(x.k == "fmt" and any(y[0] == "arg" and "ObjectInfo" in y[2] for y in x.a[0]) for x in subterms(t))

    def on_call(self, I, st, ev):
        n = ev.name
        if n in ("Write::flush", "BufWriter::into_inner"):
            ds = dest(I, st, ev.raw[0])
            s2 = st.copy()
            I.stale(s2, ev.point)
            act, got = st.a
            for d in ds:
                if ("text", d) in got:
                    self.mark(st, "done", (d,))
            r = mk("site", ev.point, "flush error", ())
            return [(st, ok(UNIT if n == "Write::flush" else ev.args[0])), (s2, err(r))]
        if n == "fs::write":
            I.stale(st, ev.point)
            s2 = st.copy()
            if self.whole(I, ev.args[1]):
                self.mark(st, "text", {("path", ev.args[0])})
                self.mark(st, "done", {("path", ev.args[0])})
            return [(st, ok(UNIT)), (s2, err(mk("site", ev.point, "write error", ())))]
        if n in ("File::create", "OpenOptions::open", "File::create_new", "io::stdout", "io::stderr", "stdio::stdout", "stdio::stderr"):
            if n.endswith("stdout"):
                d = ("stdout",)
            elif n.endswith("stderr"):
                d = ("stderr",)
            else:
                d = ("path", ev.args[-1])
            if n == "OpenOptions::open":
                # the text replaces what the file had
                ups, x = {}, I.resolve(st, ev.args[0])
                while x.k in ("upd", "call", "site"):
                    a, k = (x.a[1], x.a[0]) if x.k == "call" else (x.a[2], x.a[1])
                    ups.setdefault(str(k).rsplit("::", 1)[-1], a[1] if len(a) > 1 else None)
                    if not a:
                        break
                    x = a[0]
                on = lambda k: k in ups and ups[k] is not None and I.known(st, ups[k]) is True
                self.rep.ob("replaced", ev.site(), (on("truncate") or on("create_new")) and not on("append"), "the file is emptied first: %s" % show(ev.args[0])[:120])
            else:
                self.rep.ob("replaced", ev.site(), True, "%s: what was there is replaced" % n)
            w = self.wanted(I, st)
            self.rep.ob("requested", ev.site(), w is not None and any(self.same(x, d) for x in w),
                        "%s is among the requested destinations %s" % (show(d), "(unknown)" if w is None else sorted(show(x) for x in w)))
        if n == "Receiver::recv":
            self.end(I, st, ev, "the next job is taken")
            st.a = (False, frozenset())
        if n == "Sender::send" and any(x.k == "agg" and x.a[1] == "Dump" for x in subterms(ev.args[1])):
            st.a = (False, frozenset())
        return None

    def on_fact(self, I, st, t, v):
        if v == "Dump":
            st.a = (True, frozenset())

    def on_elem(self, I, st, ev, it, v):
        if self.many and not collecting(ev) and any(i.a[1].startswith("hash") for i in layers(it)):
            st.a = (True, frozenset())

    many = False

    def end(self, I, st, ev, what):
        act, got = st.a
        if not act:
            return
        w = self.wanted(I, st)
        site = ev if isinstance(ev, str) else ev.site()
        if w is None:
            self.rep.ob("complete", site, False, "%s but the requested output was not even looked at on this path" % what)
            return
        for x in w:
            done = any(self.same(x, d) for k, d in got if k == "done")
            text = any(self.same(x, d) for k, d in got if k == "text")
            self.rep.ob("complete", site + " " + x[0], done, "%s: %s has %s" % (
                what, show(x), "received the text, flushed" if done else "received the text but it wasn't flushed" if text else "received nothing"))

    def on_exit(self, I, st, fn, v):
        if self.many:
            return
        for V in ("Ok",):
            s = st.copy()
            if I.assume_variant(s, v, V):
                self.end(I, s, "exit of " + fn.path.split("::", 1)[1], "success is returned")

    def on_thread_exit(self, I, st, v, ev):
        s = st.copy()
        if I.assume_variant(s, v, "Ok"):
            self.end(I, s, "exit of the worker", "success is returned")


def check(ctx):
    rep = ctx.rep
    rep.rule("complete", "each requested destination has received the whole text, flushed, when success is returned")
    rep.rule("requested", "only requested destinations are opened")
    rep.rule("replaced", "the text replaces what a file had")
    rep.rule("one-destination", "the destination of each writing of the text is known")
    r = Dest(rep)
    run(ctx, r, "dump_syms::dumper::single_file")
    r = Dest(rep)
    r.start, r.many = False, True
    run(ctx, r, "dump_syms::dumper::several_files")
    rep.floor("complete", 8, "exits with each kind of destination, for one and several files")
    rep.floor("requested", 1, "opening of the file, of stdout and stderr")
    rep.floor("one-destination", 1, "writing of the text")
