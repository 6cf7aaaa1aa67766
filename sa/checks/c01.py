"""A multi-file run always terminates."""
from checks.conc import *
import interp

ASSUMPTIONS = ["reading or parsing one file terminates (it may fail or panic)",
               "crossbeam's unbounded channel never blocks a sender and hands each message to one receiver",
               "a panic unwinds (panic=unwind), as in the committed profiles"]
PANICS = READERS


class R(Worker):
    opaque = READERS + (DISPLAY,)

    def __init__(self, rep):
        super().__init__(rep)
        self.spawn_bounds, self.poison_bounds = set(), set()
        self.counter_init, self.iter_files = set(), set()

    # -------------------------------------------------- locks
    def on_call(self, I, st, ev):
        n = ev.name
        thread = self.get(st, "thread")
        if n in CHANNEL_RECV:
            if thread:
                self.rep.ob("wait-unlocked", ev.site(), not self.get(st, "held"), "no lock is held while waiting for a job")
                self.job_done(I, st, ev)
                self.set(st, job=None, dec=None, zero=None)
            I.stale(st, ev.point)
            s2 = st.copy()
            self.set(s2, gone=True)
            r = mk("site", ev.point, "recv", (ev.args[0],))
            a, b = st, s2
            out = []
            if I.assume_variant(a, r, "Ok"):
                out.append((a, r))
            if n != "Receiver::recv":
                self.rep.ob("blocking-recv", ev.site(), False, "a worker that doesn't wait for the next job may leave before it is sent (%s)" % n)
            # all the senders are gone: a worker has one itself, this doesn't happen while it runs
            if I.assume_variant(b, r, "Err"):
                out.append((b, r))
            return out
        if n in CHANNEL_SEND:
            msg = ev.args[1]
            if self.is_job_none(msg):
                if thread:
                    if self.get(st, "loop") == "need":
                        self.set(st, loop="idle")
            elif not thread:
                self.set(st, owes=None)
        if n in ("Atomic::fetch_sub", "AtomicUsize::fetch_sub"):
            I.stale(st, ev.point)
            r = mk("site", ev.point, "fetch_sub", tuple(ev.args))
            self.rep.ob("countdown", ev.site(), ev.args[1].k == "int" and ev.args[1].a[0] == 1, "the counter goes down by one: %s" % show(ev.args[1]))
            self.rep.ob("countdown", ev.site() + " once", self.get(st, "job") == "Get" and not self.get(st, "dec"),
                        "a file is counted once, when it is processed (job: %s, already counted: %s)" % (self.get(st, "job"), bool(self.get(st, "dec"))))
            self.set(st, dec=True)
            return [(st, r)]
        if n.startswith(("Atomic::", "AtomicUsize::")) and n.rsplit("::", 1)[-1] not in ("new", "load", "fetch_sub") and thread:
            self.rep.ob("countdown", ev.site(), False, "the counter is only modified by an atomic decrement, not %s" % n)
        if n in ("Atomic::new", "AtomicUsize::new") and not thread:
            self.counter_init.add(ev.args[0])
        if ev.decl.startswith(("crossbeam", "std::sync::mpsc")) and n.rsplit("::", 1)[-1] in ("bounded", "sync_channel", "unbounded", "channel"):
            self.rep.ob("unbounded", ev.site(), n.rsplit("::", 1)[-1] in ("unbounded", "channel"), "the workers send to the queue they receive from: it must be unbounded (%s)" % n)
        if n == "JoinHandle::join" and not thread:
            self.rep.ob("sent-before-join", ev.site(), self.get(st, "sent"), "every file is sent before the workers are waited for")
            self.rep.ob("sent-before-join", ev.site() + " locks", not self.get(st, "held"), "no lock is held while waiting for the workers")
        if thread and not self.get(st, "catch"):
            if ev.path.endswith(PANICS):
                self.rep.ob("panic-caught", ev.site(), False, "%s may panic and nothing would release the other workers" % n)
        return None

    def on_lock(self, I, st, ev, cell):
        held = self.get(st, "held", frozenset())
        self.rep.ob("no-relock", ev.site(), not held, "no lock is held when a lock is taken")
        self.set(st, held=held | {cell})

    def on_drop(self, I, st, v, ty, site, fn):
        if "Guard" in (ty.get("path") or ty.get("s", "")) and v.k == "ref":
            held = self.get(st, "held", frozenset())
            m = v.a[0]
            if m in held:
                self.set(st, held=(held - {m}) or None)

    # -------------------------------------------------- jobs
    def job_done(self, I, st, ev):
        j = self.get(st, "job")
        if j == "Get":
            self.rep.ob("counted", ev.site(), self.get(st, "dec"), "a processed file is counted before the next job is taken")
            if self.get(st, "dec"):
                self.last(I, st, ev.site())
        elif j == "Dump":
            self.rep.ob("counted", ev.site() + " dump", not self.get(st, "dec"), "only the files are counted, not the dumps")

    def last(self, I, st, site):
        """After the countdown: whoever brings the counter to zero releases everybody."""
        one = None
        for t, v in st.f.items():
            if isinstance(v, bool) and t.k == "bin" and t.a[0] == "Eq":
                for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if a.k == "site" and a.a[1] == "fetch_sub" and b.k == "int" and b.a[0] == 1:
                        one = v
        if one is None:
            self.rep.ob("last-releases", site + " ?", False, "the result of the countdown itself must tell which worker is the last")
        elif one:
            self.rep.ob("last-releases", site, self.get(st, "poisoned"), "the worker that processed the last file sends the end marker to every worker")

    def sticky(self, t, v):
        return isinstance(v, bool) and t.k == "bin" and t.a[0] == "Eq" and any(a.k == "site" and a.a[1] == "fetch_sub" for a in t.a[1:])

    def on_fact(self, I, st, t, v):
        if v in ("Get", "Dump") and self.get(st, "thread"):
            self.set(st, job=v)
        if v == "None" and self.get(st, "thread") and t.k == "pay" and t.a[0].k == "site" and t.a[0].a[1] == "recv":
            self.set(st, gone=True)
        if isinstance(v, bool) and self.get(st, "thread"):
            self.counting(I, st, t, v)

    def counting(self, I, st, t, v):
        """A loop that counts by itself: while left > 0 { left -= 1 }, while i < n { i += 1 }."""
        if not (t.k == "bin" and t.a[0] in ("Lt", "Eq")):
            return
        a, b = t.a[1], t.a[2]
        zero = lambda x: x.k == "int" and x.a[0] == 0
        if t.a[0] == "Lt":
            x, n, more = (b, None, v) if zero(a) else (a, b, v)
        else:
            x, n, more = (b, None, not v) if zero(a) else (a, None, not v) if zero(b) else (a, b, not v)
            if n is not None and n.k == "phi":
                x, n = n, x
        if x.k != "phi":
            if not more and x in self.spawn_bounds and (n is None or zero(n)) or not more and zero(x) and n in self.spawn_bounds:
                self.set(st, poisoned=True)     # there is no worker at all
            return
        step = "Sub" if n is None else "Add"
        ops = I.phi_ops.get(x, ())
        steps = [o for o in ops if o.k == "bin" and o.a[0] == step and (o.a[2].k == "int" and o.a[2].a[0] == 1 or step == "Add" and o.a[1].k == "int" and o.a[1].a[0] == 1) or step == "Add" and o.k == "int" and o.a[0] == 1]
        inits = [o for o in ops if o not in steps and o is not x]
        if not steps or len(inits) != 1 or n is not None and not zero(inits[0]):
            return
        if more:
            self.set(st, loop="broken" if self.get(st, "loop") in ("need", "broken") else "need")
        elif self.get(st, "loop") not in ("need", "broken"):
            self.poison_bounds.add(I.resolve(st, inits[0] if n is None else n))
            self.set(st, poisoned=True, loop=None)
        else:
            self.set(st, loop=None)

    # -------------------------------------------------- loops
    def rng(self, it):
        if it.k == "iter" and it.a[0].k == "agg" and it.a[0].a[0].endswith("ops::range::Range") and not drops(it):
            s, e = it.a[0].a[3]
            if s.k == "int" and s.a[0] == 0:
                return e
        return None

    def on_next(self, I, st, ev, it):
        e = self.rng(it)
        if e is not None and not self.get(st, "thread"):
            self.cur = e

    def on_elem(self, I, st, ev, it, v):
        e = self.rng(it)
        if self.get(st, "thread"):
            if e is not None:
                if self.get(st, "loop") == "need":
                    self.set(st, loop="broken")
                elif self.get(st, "loop") != "broken":
                    self.set(st, loop="need")
        else:
            if self.files(I, it):
                self.rep.ob("file-sent", ev.site(), not self.get(st, "owes"), "each file is sent to the workers before the next one is taken up")
                self.rep.ob("file-sent", ev.site() + " all", not drops(it), "no file is left out (%s)" % drops(it))
                self.set(st, owes=True)
            if e is not None:
                self.cur = e

    def files(self, I, it):
        return is_files(it)

    def on_end(self, I, st, ev, it):
        e = self.rng(it)
        if self.get(st, "thread"):
            if e is not None:
                if self.get(st, "loop") not in ("need", "broken"):
                    self.poison_bounds.add(I.resolve(st, e))
                    self.set(st, poisoned=True, loop=None)
                else:
                    self.set(st, loop=None)
        elif self.files(I, it):
            self.rep.ob("file-sent", ev.site() + " last", not self.get(st, "owes"), "each file is sent to the workers")
            self.set(st, sent=True)

    # -------------------------------------------------- threads
    some = True

    def on_spawn(self, I, st, ev):
        # whether there is known to be a file
        if not any(v is False and t.k == "bin" and t.a[0] in ("Eq", "Lt") and any(x.k == "int" and x.a[0] in (0, 1) for x in t.a[1:]) and
                   any(x.k == "call" and x.a[0] == "len" and x.a[1][0].k == "arg" and x.a[1][0].a[0] == ROOT for x in t.a[1:]) for t, v in st.f.items()):
            self.some = False
        self.spawn_bounds.add(getattr(self, "cur", None))
        return (("thread", True),)

    def on_catch(self, I, st, ev, enter):
        self.set(st, catch=True)

    def on_unwound(self, I, st, ev):
        return (("thread", True),)

    def on_return(self, I, st, fn, v, ev):
        return None

    def on_panic(self, I, st, ev, why):
        if not self.get(st, "thread") or self.get(st, "catch"):
            return
        fine = self.get(st, "poisoned") or self.get(st, "gone")
        for t, v in st.f.items():
            if v == "Err" and t.k == "site" and short(t.a[1]) in CHANNEL_SEND:
                fine = True       # nobody is left to be released
        self.rep.ob("panic-caught", ev.site(), fine, "a worker that ends by a panic has released the other ones")

    def on_thread_exit(self, I, st, v, ev):
        self.rep.ob("exit-releases", "exit of the worker", self.get(st, "gone") or self.get(st, "poisoned"),
                    "a worker only ends when it is told to, or after having released the other ones")


class Catch(R):
    pass


def positive(I, t, files, d=0, nj=False):
    """Is the number at least one when there is at least one file?"""
    if d > 10:
        return False
    if t.k == "int":
        return t.a[0] >= 1
    if nj and t.k == "fld" and t.a[1] == "num_jobs":
        return True
    if t.k == "call":
        n = t.a[0].rsplit("::", 1)[-1]
        a = t.a[1]
        if n == "min":
            return all(positive(I, x, files, d + 1, nj) for x in a)
        if n == "max":
            return any(positive(I, x, files, d + 1, nj) for x in a)
        if n == "clamp":
            return positive(I, a[1], files, d + 1, nj) and positive(I, a[2], files, d + 1, nj)
        if n == "len":
            return files(a[0])
        if n in ("get",):
            return True
    if t.k == "bin" and t.a[0] == "Add":
        return positive(I, t.a[1], files, d + 1, nj) or positive(I, t.a[2], files, d + 1, nj)
    if t.k == "phi":
        ops = list(I.phi_ops.get(t, ()))
        good = [positive(I, x, files, d + 1, nj) for x in ops]
        if all(good):
            return True
        # if n == 0 { 1 } else { n }
        return any(any(x.k == "int" and x.a[0] >= 1 for x in subterms(o)) for o, g in zip(ops, good) if g) and all(
            g or positive(I, o, files, d + 1, True) for g, o in zip(good, ops))
    return False


def none_without(I, t, files, d=0):
    """Is the number zero when there is no file?"""
    if d > 10:
        return True
    if t.k == "int":
        return t.a[0] == 0
    if t.k == "call":
        n = t.a[0].rsplit("::", 1)[-1]
        a = t.a[1]
        if n == "min":
            return any(none_without(I, x, files, d + 1) for x in a)
        if n == "max":
            return all(none_without(I, x, files, d + 1) for x in a)
        if n == "len":
            return files(a[0])
        return n == "clamp"       # it would panic
    if t.k == "bin" and t.a[0] == "Mul":
        return none_without(I, t.a[1], files, d + 1) or none_without(I, t.a[2], files, d + 1)
    if t.k == "phi":
        return any(none_without(I, x, files, d + 1) for x in I.phi_ops.get(t, ()))
    return t.k not in ("fld", "bin")


# ---------------------------------------------------------------- loops advance
ADVANCE = ("next", "next_back", "recv", "pop", "pop_front", "read", "read_line", "read_until", "poll", "nth", "remove", "next_if", "try_recv", "advance", "drain", "take")


def loops(ctx):
    rep = ctx.rep
    for path, f in sorted(ctx.prog.fns.items()):
        if "serde" in path or "promoted" in path:
            continue
        interp.analyse_fn(f)
        n = len(f.blocks)
        cl = set(i for i, b in enumerate(f.blocks) if b["cl"])
        adv = set()
        for i, b in enumerate(f.blocks):
            t = b["t"]
            if t["t"] == "call":
                k = (t["f"].get("k") or {}).get("fn")
                if k:
                    last = k["p"].rsplit("::", 1)[-1]
                    if last in ADVANCE or last.startswith("next_"):
                        adv.add(i)
            if t["t"] not in ("goto", "switch", "call", "drop", "assert", "return", "unreachable"):
                adv.add(i)

        def comps(dead):
            import sys
            idx, low, st, on, out, c = {}, {}, [], set(), [], [0]

            def go(v0):
                stack = [(v0, None)]
                while stack:
                    v, it = stack.pop()
                    if it is None:
                        idx[v] = low[v] = c[0]
                        c[0] += 1
                        st.append(v)
                        on.add(v)
                        it = iter([x for x in f.succs[v] if x not in dead])
                    adv2 = False
                    for w in it:
                        if w not in idx:
                            stack.append((v, it))
                            stack.append((w, None))
                            adv2 = True
                            break
                        elif w in on:
                            low[v] = min(low[v], low[w])
                    if adv2:
                        continue
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        if len(comp) > 1 or v in f.succs[v]:
                            out.append(comp)
                    if stack:
                        p = stack[-1][0]
                        low[p] = min(low[p], low[v])
            for v in range(n):
                if v not in idx and v not in dead:
                    go(v)
            return out
        for comp in comps(cl):
            sp = f.blocks[min(comp)]["t"].get("sp") or f.sp
            bad = []
            for rest in [c for c in comps(cl | adv) if set(c) <= set(comp)]:
                # a cycle without any step of an iterator: it must change something its exits look at
                if len(rest) == 1 and not f.blocks[rest[0]]["s"] and f.blocks[rest[0]]["t"]["t"] in ("goto", "unreachable", "drop", "assert"):
                    continue       # the resumption of a finished coroutine
                if not changes(f, rest):
                    bad.append(rest)
            key = path.replace("dump_syms::", "") + " loop#%d" % sum(1 for k in rep.obs if k[0] == "advances" and k[1].startswith(path.replace("dump_syms::", "") + " loop#"))
            where = "%s (%s)" % (f.sp, path.replace("dump_syms::", ""))
            if bad:
                sps = [f.blocks[b]["t"].get("sp") for b in bad[0] if f.blocks[b]["t"].get("sp")]
                where = "%s (%s)" % (sps[0] if sps else f.sp, path.replace("dump_syms::", ""))
            rep.ob("advances", where, not bad, "every turn of the loop takes one step of an iterator or changes what its exit depends on", key=key)


def changes(f, comp):
    """Does the cycle assign something its exits depend on and that it carries from one turn to the next?"""
    comp = set(comp)
    live, live_out, taken, flags = f.live_in
    heads = [b for b in comp if any(p not in comp for p in f.preds[b])] or [min(comp)]
    carried = set()
    for h in heads:
        carried |= live[h]
    carried -= flags
    # what the exits look at, inside the cycle
    look = set()
    defs = {}
    for b in comp:
        blk = f.blocks[b]
        for s in blk["s"]:
            if s[0] == "=":
                us = set()
                interp_uses(s[2], us)
                defs.setdefault(s[1][0], set()).update(us)
                if len(s[1]) > 1:
                    defs[s[1][0]].add(s[1][0])
        t = blk["t"]
        if t["t"] == "switch":
            look |= opl(t["d"])
        elif t["t"] == "call":
            us = set()
            for o in t["a"]:
                us |= opl(o)
            defs.setdefault(t["d"][0], set()).update(us)
    look -= flags
    todo = list(look)
    while todo:
        x = todo.pop()
        for y in defs.get(x, ()):
            if y not in look:
                look.add(y)
                todo.append(y)
    return any(x in carried and x in defs for x in look)


def opl(o):
    p = o.get("c") or o.get("m")
    if not p:
        return set()
    return {p[0]} | {e[1] for e in p[1:] if e[0] == "[]"}


def interp_uses(r, us):
    k = r[0]
    if k in ("use", "repeat"):
        us |= opl(r[1])
    elif k in ("ref", "rawptr", "discr"):
        us |= opl({"c": r[1]})
    elif k in ("cast", "un"):
        us |= opl(r[2])
    elif k == "bin":
        us |= opl(r[2]) | opl(r[3])
    elif k == "agg":
        for o in r[5]:
            us |= opl(o)


def check(ctx):
    rep = ctx.rep
    rep.rule("no-relock", "no lock is taken while one is held")
    rep.rule("wait-unlocked", "no worker waits for a job with a lock held")
    rep.rule("counted", "each processed file is counted exactly once before the worker waits again")
    rep.rule("countdown", "the count of the files left is a single atomic decrement per file")
    rep.rule("last-releases", "the worker that counts the last file releases all the workers")
    rep.rule("exit-releases", "a worker ends only on the end marker or after releasing the others")
    rep.rule("panic-caught", "no panic can end a worker before it released the others")
    rep.rule("unbounded", "the queue the workers send to is unbounded")
    rep.rule("blocking-recv", "the workers block while they wait for a job")
    rep.rule("sent-before-join", "the main thread waits for the workers after having sent every file, without lock")
    rep.rule("file-sent", "each file gives one job")
    rep.rule("bounds", "as many end markers as workers, at least one worker, as many counted files as files")
    rep.rule("advances", "every loop of the crate advances")
    r = R(rep)
    I, res = run(ctx, r, ROOT)
    if I:
        files = lambda t: t.k == "arg" and t.a[0] == ROOT and t.a[1] != "config"
        sp = r.spawn_bounds
        rep.ob("bounds", "number of workers", len(sp) == 1 and None not in sp and positive(I, list(sp)[0], files),
               "at least one worker is started when there is a file: %s" % [show(x)[:120] for x in sp if x])
        rep.ob("bounds", "number of workers without file", r.some or all(none_without(I, x, files) for x in sp if x is not None), "no worker is started when there is no file: it would wait forever")
        rep.ob("bounds", "number of end markers", r.poison_bounds and r.poison_bounds <= sp, "the number of end markers is the number of workers: %s, %s" % (
            [show(x)[:80] for x in r.poison_bounds], [show(x)[:80] for x in sp if x]))
        ok_ = len(r.counter_init) == 1 and all(is_call(x, "len") and files(cargs(x)[0]) for x in r.counter_init)
        rep.ob("bounds", "initial count", ok_, "the count starts at the number of files: %s" % [show(x)[:80] for x in r.counter_init])
    loops(ctx)
    for rid, n, what in (("no-relock", 2, "locks of the results"), ("wait-unlocked", 1, "the wait for a job"), ("counted", 1, "end of a job"), ("countdown", 2, "the countdown"),
                         ("last-releases", 1, "the last file"), ("exit-releases", 1, "exit of the worker"), ("panic-caught", 1, "panics of the worker"), ("unbounded", 1, "the queue"),
                         ("sent-before-join", 2, "join of the workers"), ("file-sent", 3, "sending of the files"), ("advances", 40, "loops of the crate")):
        rep.floor(rid, n, what)
