"""The symbol cache only ever holds complete, genuine files."""
from checklib import *
from checks import net

ASSUMPTIONS = ["renaming a file within its directory is atomic",
               "a write or a flush that reports success has handed the bytes to the system",
               "the length and the status of a response are checked by reqwest as documented"]
OPEN = {"File::create": 0, "File::create_new": 0, "OpenOptions::open": 1, "fs::write": 0, "BufWriter::create": 0}
MOVE = {"fs::rename": (0, 1), "fs::copy": (0, 1), "fs::hard_link": (0, 1), "unix::fs::symlink": (0, 1), "fs::symlink": (0, 1)}
UNIQ = ("Atomic::fetch_add", "AtomicUsize::fetch_add", "thread::current", "Thread::id", "Instant::now", "SystemTime::now", "Uuid::new_v4", "rand::random")
NOTFOUND = "Symbol Not Found"


def final(t):
    """The job whose place in the cache the path is."""
    if t.k == "pay" and t.a[1] == "Some" and t.a[0].k == "fld" and t.a[0].a[1] == "cache":
        return t.a[0].a[0]
    return None


def temp(t):
    """-> (the final path, what makes the name different) for a name derived from a final path."""
    if is_call(t, "Path::with_extension", "Path::with_file_name"):
        if final(cargs(t)[0]) is not None:
            return cargs(t)[0], cargs(t)[1]
    if t.k == "path":
        c = t.a[0]
        if len(c) == 2 and c[0].k == "pay" and is_call(c[0].a[0], "Path::parent") and final(cargs(c[0].a[0])[0]) is not None:
            return cargs(c[0].a[0])[0], c[1]
    if t.k in ("fmt",):
        for x in t.a[0]:
            if x[0] == "arg" and final(x[3]) is not None and x is t.a[0][0]:
                return x[3], t
    return None, None


def body(t):
    """The response whose whole body the bytes are, and how they were got."""
    if t.k == "upd" and short(t.a[1]) == "Response::copy_to" and t.a[3] == 1:
        return t.a[2][0], t
    if t.k == "upd" and short(t.a[1]) == "Read::read_to_end" and t.a[3] == 1:
        return t.a[2][0], t
    if t.k == "pay" and t.a[1] == "Ok" and is_call(t.a[0], "Response::bytes"):
        return cargs(t.a[0])[0], t
    if is_call(t, "Bytes::to_vec", "Vec::from"):
        return body(cargs(t)[0])
    return None, None


def text(t):
    if t.k == "bytes":
        return bytes(t.a[0]).decode("latin-1")
    return t.a[0] if t.k == "str" else ""


class R(CRule):
    """Automaton: the files being written: frozenset of (path, stage), stage "open", "text", "done"."""
    opaque = net.OPAQUE

    def initial(self):
        return frozenset()

    def sticky(self, t, v):
        if is_call(t, "Response::copy_to", "Read::read_to_end", "[T]::starts_with", "str::starts_with", "Response::error_for_status", "StatusCode::is_success", "StatusCode::is_client_error", "StatusCode::is_server_error"):
            return True
        return t.k == "bin" and any(body(y)[0] is not None for x in t.a[1:] if is_call(x, "len") for y in x.a[1])

    # --- what is known of the data
    def genuine(self, I, st, t):
        """-> [] or what is missing for the data to be a successful response, complete, not empty, not a not-found page"""
        resp, how = body(t)
        if resp is None:
            return ["it isn't the body of a response: %s" % show(t)[:80]]
        bad = []
        if not self.success(I, st, resp):
            bad.append("the status of the response wasn't checked")
        if how.k == "upd" and not any(v == "Ok" and is_call(x, short(how.a[1])) and cargs(x)[0] is how.a[2][0] for x, v in st.f.items()):
            bad.append("the body may be incomplete")
        if I.known(st, models.is_empty(t)) is not False:
            bad.append("it may be empty")
        if not any(v is False and is_call(x, "[T]::starts_with", "str::starts_with") and cargs(x)[0] is t and cargs(x)[1].k in ("bytes", "str") and text(cargs(x)[1]) and NOTFOUND.startswith(text(cargs(x)[1])) for x, v in st.f.items()):
            bad.append("it may be a not-found page")
        return bad

    def success(self, I, st, resp):
        for x in subterms(resp):
            if x.k == "pay" and x.a[1] == "Ok" and is_call(x.a[0], "Response::error_for_status"):
                return True
        for x, v in st.f.items():
            if is_call(x, "Response::error_for_status", "Response::error_for_status_ref") and v == "Ok" and cargs(x)[0] is resp:
                return True
            if v is True and any(is_call(y, "Response::status") and cargs(y)[0] is resp for y in subterms(x)):
                if is_call(x, "StatusCode::is_success"):
                    return True
                if x.k == "bin" and x.a[0] == "Eq" and any(y.k == "int" and y.a[0] == 200 or "OK" in show(y)[-20:] for y in x.a[1:]):
                    return True
        # what error_for_status does
        no = {n for n in ("is_client_error", "is_server_error") for x, v in st.f.items() if v is False and is_call(x, "StatusCode::" + n) and any(is_call(y, "Response::status") and cargs(y)[0] is resp for y in subterms(x))}
        if len(no) == 2:
            return True
        return False

    def url(self, t):
        """The job whose url was asked for to get the data."""
        for x in subterms(t):
            if is_call(x, "Client::get") and cargs(x)[-1].k == "fld" and cargs(x)[-1].a[1] == "url":
                return cargs(x)[-1].a[0]
        return None

    def files(self, I, st, w):
        out = set()
        for x in I.sources(I.resolve(st, w)):
            if is_call(x, *OPEN):
                out.add(cargs(x)[OPEN[short(x.a[0] if x.k == "call" else x.a[1])]])
        return out

    def mark(self, st, p, stage):
        st.a = frozenset(x for x in st.a if x[0] is not p) | {(p, stage)}

    def stage(self, st, p):
        return next((s for q, s in st.a if q is p), None)

    def on_call(self, I, st, ev):
        n = ev.name
        if n in OPEN:
            p = I.resolve(st, ev.args[OPEN[n]])
            base, ext = temp(p)
            self.rep.ob("temporary", ev.site(), base is not None and base is not p, "what is opened for writing is never the file that is looked up: %s" % show(p)[:100])
            if base is not None:
                s = subterms(ext)
                self.rep.ob("own-name", ev.site(), any(is_call(x, "process::id") for x in s) and any(is_call(x, *UNIQ) for x in s) or any(is_call(x, "Uuid::new_v4", "rand::random") for x in s),
                            "nobody else writes in the temporary file: its name has the process id and a counter: %s" % show(ext)[:120])
                lit = [x for x in (ext.a[0] if ext.k == "fmt" else ()) if x[0] == "lit"]
                self.rep.ob("own-name", ev.site() + " suffix", bool(lit) or ext.k == "str", "the name of the temporary file has a part of its own")
            self.mark(st, p, "open")
            if n == "fs::write":
                s2 = st.copy()
                I.stale(s2, ev.point)
                self.data(I, st, ev, p, I.resolve(st, ev.args[1]))
                self.mark(st, p, "done")
                return [(st, ok(UNIT)), (s2, err(mk("site", ev.point, "write error", ())))]
        if n in ("Write::flush", "BufWriter::into_inner", "File::sync_all", "File::sync_data"):
            s2 = st.copy()
            I.stale(s2, ev.point)
            if n in ("Write::flush", "BufWriter::into_inner"):
                for p in self.files(I, st, ev.raw[0]):
                    if self.stage(st, p) == "text":
                        self.mark(st, p, "done")
            return [(st, ok(ev.args[0] if n == "BufWriter::into_inner" else UNIT)), (s2, err(mk("site", ev.point, "flush error", ())))]
        if n == "Write::write":
            self.rep.ob("whole", ev.site(), False, "a single write may not write all the bytes")
        if n in MOVE:
            a, b = MOVE[n]
            p, q = I.resolve(st, ev.args[a]), I.resolve(st, ev.args[b])
            self.rep.ob("whole", ev.site(), n == "fs::rename" and self.stage(st, p) == "done", "the file gets its name with a renaming, once all its bytes are written and flushed with success: %s, %s" % (n, self.stage(st, p)))
            base, _ = temp(p)
            self.rep.ob("where", ev.site(), base is q and final(q) is not None, "the file gets the name where it is looked up: %s" % show(q)[:100])
            self.moved = True
        return None

    def on_text(self, I, st, ev, w, tk):
        for p in self.files(I, st, w):
            if tk[0] == "arg":
                self.data(I, st, ev, p, tk[3])
            if self.stage(st, p) in ("open",):
                src = I.sources(I.resolve(st, w))
                buffered = any("BufWriter" in str(x.a) or "LineWriter" in str(x.a) for x in src) or any(is_call(x, "BufWriter::new", "BufWriter::with_capacity") for y in [I.resolve(st, w)] for x in subterms(y))
                self.mark(st, p, "text" if buffered else "done")
            elif self.stage(st, p) in ("text", "done"):
                self.rep.ob("whole", ev.site(), False, "the bytes are written once")

    def data(self, I, st, ev, p, t):
        bad = self.genuine(I, st, t)
        self.rep.ob("genuine", ev.site(), not bad, "what is stored is %s" % ("a complete response with a good status, not empty and not a not-found page" if not bad else "not known to be genuine: " + "; ".join(bad)))
        base, _ = temp(p)
        self.rep.ob("where", ev.site() + " data", base is not None and final(base) is not None and final(base) is self.url(t), "the data stored is what the server of this job sent for it")

    def on_fact(self, I, st, t, v):
        p = net.exists(t)
        if p is not None and p.k == "path" and net.cache_of(p.a[0][0]) is not None:
            self.rep.ob("looked-up", "search in the cache", net.place(I, p) is not None, "a file is looked up at CACHE/BASE/ID/FILE: %s" % show(p)[:140])

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if adt == net.JOB:
            net.check_job(self.rep, I, st, names, vals, site)

    def on_exit(self, I, st, fn, v):
        d = I.proj(st, v, ("f", "0"))
        s = st.copy()
        if not I.assume_variant(s, d, "Some"):
            return
        for x in I.alts(d):
            if x.k == "agg" and x.a[1] == "None":
                continue
            x = x.a[3][0] if x.k == "agg" else models.pay(x, "Some", "0")
            for y in I.alts(x):
                if is_call(y, "utils::read_file"):
                    ps = I.alts(cargs(y)[0])
                    self.rep.ob("looked-up", "result read in the cache", all(net.place(I, q) is not None for q in ps), "the file read is the one looked up: %s" % [show(q)[:80] for q in ps])
                    continue
                if y.k == "pay" and is_call(y.a[0], "utils::read_cabinet"):
                    y = cargs(y.a[0])[0]
                bad = self.genuine(I, s, y)
                self.rep.ob("returned", "exit of %s" % fn.path, not bad, "the data returned is %s" % ("a complete response with a good status, not empty and not a not-found page" if not bad else "not known to be genuine: " + "; ".join(bad)))


def check(ctx):
    rep = ctx.rep
    net.job_rules(rep)
    rep.rule("temporary", "bytes are never written under the name that is looked up")
    rep.rule("own-name", "two runs or two threads never write in the same temporary file")
    rep.rule("whole", "a file gets its name once all its bytes are written and flushed with success")
    rep.rule("where", "the data of a job is stored at the place of that job")
    rep.rule("genuine", "only genuine data is stored")
    rep.rule("returned", "only genuine data is returned")
    rep.rule("looked-up", "files are looked up at the place where they are stored")
    r = R(rep)
    run(ctx, r, net.SEARCH)
    net.job_fields(ctx.prog, rep)
    rep.floor("place", 1, "the jobs")
    rep.floor("temporary", 1, "creation of the temporary file")
    rep.floor("own-name", 1, "creation of the temporary file")
    rep.floor("whole", 1, "the renaming")
    rep.floor("where", 2, "the renaming, the writing")
    rep.floor("genuine", 1, "the writing")
    rep.floor("returned", 1, "the result")
    rep.floor("looked-up", 2, "search, result")
