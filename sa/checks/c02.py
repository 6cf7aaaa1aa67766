"""No input's symbols are lost in a multi-file run."""
from checks.conc import *
from checks import c11
from checks.symmap import roots

ASSUMPTIONS = ["the queue delivers each message once, in order", "what merge keeps of two files is the subject of C11, C08 and C09",
               "writing a received module out completely is the subject of C04"]

READ = ("ObjectInfo::from_elf", "ObjectInfo::from_macho", "ObjectInfo::from_pdb", "ObjectInfo::from_pe_with_mapping", "ObjectInfo::from_pe")


def from_reader(I, t):
    return any(is_call(x, *READ) for x in I.sources(t))


class R(Worker):
    """owed: the module read in this job isn't recorded yet; removed: a recorded module was taken out;
    out: a module taken out of the results to be dumped isn't sent or written yet."""

    def sticky(self, t, v):
        return isinstance(v, bool) and t.k == "bin" and t.a[0] == "Eq" and any(
            (a.k == "site" and a.a[1] == "fetch_sub") or (a.k == "call" and a.a[0] == "len" and any(x.k == "site" and x.a[1] == "locked" for x in subterms(a))) for a in t.a[1:])

    def on_fact(self, I, st, t, v):
        if not self.get(st, "thread"):
            return
        if v == "Get":
            self.set(st, owed=True, job="Get", drained=None, counted=None)
        elif v == "Dump":
            self.set(st, owed=None, job="Dump", drained=None, counted=None)
        elif v == "Err" and is_call(t, "ObjectInfo::merge"):
            self.set(st, fails=True)

    def on_call(self, I, st, ev):
        n = ev.name
        thread = self.get(st, "thread")
        if n in CHANNEL_RECV:
            self.done(I, st, ev.site(), "the next job is taken")
            self.set(st, owed=None, removed=None, out=None, drained=None, counted=None, poisoned=None, job=None, fails=None, one=None)
            return None
        if n in ("Atomic::fetch_sub", "AtomicUsize::fetch_sub"):
            self.rep.ob("recorded", ev.site(), not self.get(st, "owed") and not self.get(st, "removed"),
                        "the module is recorded when its file is counted")
            self.set(st, counted=True)
            I.stale(st, ev.point)
            return [(st, mk("site", ev.point, "fetch_sub", tuple(ev.args)))]
        if n in CHANNEL_SEND:
            msg = ev.args[1]
            if self.is_job_none(msg):
                if self.get(st, "counted") and not self.get(st, "failed") and not self.get(st, "fails"):
                    self.rep.ob("all-out", ev.site(), self.handed(I, st), "every recorded module is handed out before the workers are told to end")
                self.set(st, poisoned=True)
            else:
                dump = [x for x in subterms(msg) if x.k == "agg" and x.a[1] == "Dump"]
                if thread:
                    self.rep.ob("all-out", ev.site() + " order", not self.get(st, "poisoned"), "the modules are handed out before the end markers")
                    if dump:
                        o = self.get(st, "out")
                        src = I.sources(dump[0])
                        self.rep.ob("handed-out", ev.site(), o is not None and o in src, "the module handed out is the one taken from the results")
                        self.set(st, out=None)
                        self.one(I, st)
                else:
                    self.set(st, owes=None)
        if ev.path.endswith("ObjectInfo::merge") and thread:
            a, b = ev.args[0], ev.args[1]
            r = self.get(st, "removed")
            ok_ = r is not None and any(r in I.sources(x) for x in (a, b)) and any(from_reader(I, x) for x in (a, b)) and not (r in I.sources(a) and r in I.sources(b))
            self.rep.ob("merged", ev.site(), ok_, "the module just read is merged with the one recorded under its key: %s" % show(r)[:80] if r is not None else "nothing was recorded")
        return None

    def on_write(self, I, st, cell, path, v, site, fn):
        if not path or path[-1][0] != "i" or not self.get(st, "thread"):
            return
        m = I.loadloc(st, cell, path[:-1])
        if not any(x.k == "site" and x.a[1] == "locked" for x in subterms(m)):
            return
        key = path[-1][1]
        v = I.resolve(st, v)
        src = I.sources(v)
        r = self.get(st, "removed")
        h = I.known(st, mk("has", m, key))
        mine = from_reader(I, v)
        keeps = h is False or any(x.k == "idx" and x.a[0] is m and x.a[1] is key for x in src)
        self.rep.ob("insert", site, mine and keeps and (r is None or r in src),
                    "the module read is recorded and replaces nothing but what it was merged with (read here: %s, key known to be free or merged: %s, merged with what was taken out: %s)" % (
                        mine, keeps, r is None or r in src))
        self.set(st, owed=None, removed=None)

    def on_mutate(self, I, st, cell, path, v, ev):
        if not self.get(st, "thread"):
            return
        if v.k == "upd" and v.a[1] == "remove" and any(x.k == "site" and x.a[1] == "locked" for x in subterms(v)):
            m, k = v.a[2]
            self.set(st, removed=models.index(m, k))
        elif ev.name in ("HashMap::clear", "HashMap::retain", "HashMap::extract_if") and any(x.k == "site" and x.a[1] == "locked" for x in subterms(v)):
            self.rep.ob("insert", ev.site(), False, "%s drops recorded modules" % ev.name)

    def results(self, it):
        i = layers(it)[-1]
        return i.a[1].startswith("hash") and any(x.k == "site" and x.a[1] == "locked" for x in subterms(i.a[0]))

    def on_lock(self, I, st, ev, cell):
        # what was taken out must be back before the lock is released: see on_drop
        pass

    def on_drop(self, I, st, v, ty, site, fn):
        if "MutexGuard" in (ty.get("path") or "") and self.get(st, "thread"):
            self.rep.ob("one-section", "%s unlock" % site, not self.get(st, "removed") or self.get(st, "fails"),
                        "a module taken out of the results is put back, merged, before the results are unlocked (or the run fails)")

    def on_elem(self, I, st, ev, it, v):
        if collecting(ev) and self.get(st, "thread"):
            return
        if not self.get(st, "thread"):
            if self.files(it):
                self.rep.ob("file-sent", ev.site(), not self.get(st, "owes") and not drops(it), "each file is sent to the workers")
                self.set(st, owes=True)
            return
        if self.results(it):
            self.rep.ob("handed-out", ev.site() + " each", self.get(st, "out") is None or self.nostore(st), "each module taken from the results is sent or written before the next one")
            d = drops(it)
            one = self.len1(I, st, it)
            self.rep.ob("all-out", ev.site() + " filter", not d or one, "no recorded module is left out (%s)" % d)
            x = v.a[3][1] if v.k == "agg" and v.a[0] == "()" and len(v.a[3]) == 2 else v
            self.set(st, out=x, one=one or None)

    def len1(self, I, st, it):
        return I.known(st, models.eq(models.length(layers(it)[-1].a[0]), mk("int", 1))) is True

    def on_skip(self, I, st, ev, it):
        if not collecting(ev) and self.get(st, "thread") and self.results(it):
            self.rep.ob("all-out", ev.site() + " skip", False, "a recorded module is left out")

    def on_end(self, I, st, ev, it):
        if collecting(ev) and self.get(st, "thread"):
            return
        if not self.get(st, "thread"):
            if self.files(it):
                self.rep.ob("file-sent", ev.site() + " last", not self.get(st, "owes"), "each file is sent to the workers")
            return
        if self.results(it):
            self.rep.ob("handed-out", ev.site() + " last", self.get(st, "out") is None or self.nostore(st), "each module taken from the results is sent or written")
            self.set(st, out=None)
            if not drops(it):
                self.set(st, drained=True)

    def files(self, it):
        return is_files(it)

    def one(self, I, st):
        if self.get(st, "one"):
            self.set(st, drained=True, one=None)

    def on_text(self, I, st, ev, w, tk):
        if tk[0] == "arg" and "ObjectInfo" in tk[2]:
            o = self.get(st, "out")
            if o is not None:
                self.rep.ob("handed-out", ev.site(), o in I.sources(tk[3]), "the module written is the one taken from the results")
                self.set(st, out=None)
                self.one(I, st)

    def nostore(self, st):
        return any(v is True and t.k == "bin" and t.a[0] == "Eq" and any(
            a.k == "call" and a.a[0] == "len" and a.a[1][0].k == "pay" and a.a[1][0].a[0].k == "fld" and a.a[1][0].a[0].a[1] == "output" for a in t.a[1:]) for t, v in st.f.items())

    def handed(self, I, st):
        """Everything is out; a module needs no writing when the store directory is empty (see C04)."""
        if self.get(st, "one") and self.nostore(st):
            return True
        return bool(self.get(st, "drained") and self.get(st, "out") is None)

    def on_return(self, I, st, fn, v, ev):
        # the run fails: the end markers are due whatever was handed out (C03 looks at what becomes of the error)
        if self.get(st, "thread"):
            V = I.variant(st, v)
            if V == "Err":
                self.set(st, fails=True)
            elif V == "Ok":
                self.set(st, fails=None)

    def on_spawn(self, I, st, ev):
        return (("thread", True),)

    def on_unwound(self, I, st, ev):
        return (("thread", True), ("failed", True))

    def done(self, I, st, site, what):
        if self.get(st, "job") == "Get":
            self.rep.ob("recorded", site, not self.get(st, "owed") and not self.get(st, "removed"), "%s: the module read before is recorded" % what)
        if self.get(st, "counted"):
            one = [v for t, v in st.f.items() if isinstance(v, bool) and t.k == "bin" and t.a[0] == "Eq" and any(a.k == "site" and a.a[1] == "fetch_sub" for a in t.a[1:])]
            if one and one[-1] and not self.get(st, "failed"):
                # the count was the last one, unless the comparison is another one (C01 looks at it)
                self.rep.ob("all-out", site, self.handed(I, st), "%s: after the last file every recorded module was handed out" % what)

    def on_thread_exit(self, I, st, v, ev):
        s = st.copy()
        if self.get(s, "failed"):
            return
        if I.assume_variant(s, v, "Ok"):
            self.done(I, s, "exit of the worker", "the worker succeeds")


class Only:
    """The part of a report that is about one rule."""

    def __init__(self, rep, rule, as_):
        self.rep, self.rule_, self.as_ = rep, rule, as_

    def ob(self, rid, *a, **k):
        if rid == self.rule_:
            self.rep.ob(self.as_, *a, **k)


class Merge(CRule):
    """The unwind information of both files is in the result."""
    write_errors = False

    def sticky(self, t, v):
        if not (isinstance(v, bool) and t.k == "bin"):
            return False
        if t.a[0] == "Eq" and any(a.k == "call" and a.a[0] == "len" and a.a[1][0].k == "fld" and a.a[1][0].a[1] == "stack" for a in t.a[1:]):
            return True
        # which of the two is bigger: the two cases are told apart
        ss = subterms(t)
        return len([x for x in ss if x.k == "arg"]) == 2 and not any(x.k == "elem" for x in ss)

    def on_exit(self, I, st, fn, v):
        s = st.copy()
        if not I.assume_variant(s, v, "Ok"):
            return
        r = I.resolve(s, I.proj(s, v, ("p", "Ok", "0")))
        stack = I.resolve(s, I.proj(s, r, ("f", "stack")))
        src = I.sources(stack)
        for side in ("left", "right"):
            o = mk("fld", mk("arg", fn.path, side), "stack")
            e = I.known(s, models.is_empty(o))
            self.rep.ob("merge-stack", "result of merge, stack of " + side, e is True or o in src,
                        "the unwind records of both files are kept (%s: %s)" % (show(o), "known to be empty" if e is True else "in the result" if o in src else "lost"))
        syms = I.resolve(s, I.proj(s, r, ("f", "symbols")))
        src = I.sources(syms)
        for side in ("left", "right"):
            o = mk("fld", mk("arg", fn.path, side), "symbols")
            self.rep.ob("merge-symbols", "result of merge, symbols of " + side, o in src or side in st.a, "all the symbols of both files are kept or looked at (%s)" % show(o))

    def on_end(self, I, st, ev, it):
        src = I.resolve(st, it.a[0])
        if drops(it) or ev.site() not in self.merging:
            return
        for side in ("left", "right"):
            if any(x.k == "fld" and x.a[1] == "symbols" and x.a[0].k == "arg" and x.a[0].a[1] == side for x in I.sources(src)):
                st.a = tuple(sorted(set(st.a) | {side}))


def check(ctx):
    rep = ctx.rep
    rep.rule("recorded", "a file is counted as processed only once its module is recorded")
    rep.rule("insert", "recording a module never loses another one")
    rep.rule("merged", "a module already known is merged with the one just read")
    rep.rule("one-section", "looking up, merging and recording happen under one lock")
    rep.rule("handed-out", "each module taken from the results is sent or written")
    rep.rule("all-out", "after the last file all the recorded modules are handed out, before the end markers")
    rep.rule("file-sent", "each file gives one job")
    rep.rule("merge-stack", "merging keeps the unwind records of both files")
    rep.rule("merge-symbols", "merging keeps the symbols of both files")
    run(ctx, R(rep), ROOT)
    m = Merge(rep)
    m.merging = set()
    for r, root in roots(lambda n: c11.R(Only(rep, "kept", "merge-symbols"), n)):
        if r.name == "merge":
            run(ctx, r, root)
            m.merging = set(r.after())
    run(ctx, m, "dump_syms::object_info::ObjectInfo::merge")
    for rid, n, what in (("recorded", 2, "the countdown, the end of a job"), ("insert", 1, "recording in the results"), ("merged", 1, "merge in a worker"), ("one-section", 1, "unlock"),
                         ("handed-out", 3, "drain of the results"), ("all-out", 3, "end of the run"), ("file-sent", 2, "sending of the files"), ("merge-stack", 2, "merge"), ("merge-symbols", 4, "merge")):
        rep.floor(rid, n, what)
