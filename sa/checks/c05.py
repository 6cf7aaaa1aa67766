"""--check-cfi gates every output."""
from checklib import *

ASSUMPTIONS = ["the functions of std and of the dependencies behave as documented"]


class R(CRule):
    opaque = READERS + (DISPLAY,)

    def sticky(self, t, v):
        return self.cfi(t) or self.stack(t)

    def cfi(self, t):
        return t.k == "fld" and t.a[1] == "check_cfi"

    def stack(self, t):
        # len(x.stack) == 0
        return t.k == "bin" and t.a[0] == "Eq" and any(
            a.k == "call" and a.a[0] == "len" and a.a[1][0].k == "fld" and a.a[1][0].a[1] == "stack" for a in t.a[1:])

    def gate(self, st):
        """-> (the check is known not to apply, the module is known to have unwind info, both known to fail)"""
        off = any(v is False for t, v in st.f.items() if self.cfi(t))
        on = any(v is True for t, v in st.f.items() if self.cfi(t))
        has = any(v is False for t, v in st.f.items() if self.stack(t))
        none = any(v is True for t, v in st.f.items() if self.stack(t))
        return off, has, on and none

    def on_call(self, I, st, ev):
        if ev.name in MAKES and "simplelog" not in ev.fn.path:
            self.effect(st, ev, ev.name)
        if ev.name in ("Error::msg", "__private::format_err", "Error::new", "Error::from_fmt"):
            chain = I.chain(ev.fid)
            off, has, failed = self.gate(st)
            if (off or has) or failed:
                # an error made up after the gate was looked at
                why = self.reason(st)
                self.rep.ob("not-prevented", ev.site(), failed or why, "the error needs the check to be enabled and the module to have no unwind info%s" %
                            ("" if failed or not why else " (another condition: %s)" % why))
        if ev.name.startswith("Receiver::"):
            self.forget(st)
        return None

    def forget(self, st):
        """Another module is taken up: what is known of the previous one doesn't matter."""
        self.note(st)
        for t in list(st.f):
            if self.stack(t):
                del st.f[t]

    def note(self, st):
        if self.gate(st)[2]:
            st.a = "failed"

    def on_elem(self, I, st, ev, it, v):
        if it.a[1].startswith("hash"):
            self.forget(st)

    def reason(self, st):
        """The error has another cause: the name of the module isn't a file name."""
        for t, v in st.f.items():
            if find(t, lambda x: is_call(x, "Path::file_name", "Path::components", "Path::is_absolute", "ObjectInfo::get_name") or (x.k == "fld" and x.a[1] == "file_name")):
                return show(t)[:80]
        return None

    def effect(self, st, ev, what):
        off, has, failed = self.gate(st)
        self.rep.ob("gated", ev.site(), (off or has) and not failed,
                    "%s is only reached when the check is disabled or the module has unwind info%s" % (what, "" if off or has else ": not known on this path"))

    def on_text(self, I, st, ev, w, tk):
        if tk[0] == "arg" and "ObjectInfo" in tk[2]:
            self.seen = True
            self.effect(st, ev, "the symbol text")
            # the module whose unwind info was looked at is the one written
            for t, v in st.f.items():
                if self.stack(t) and v is False:
                    obj = [a.a[1][0].a[0] for a in t.a[1:] if a.k == "call"][0]
                    self.rep.ob("same-module", ev.site(), obj is tk[3], "the unwind info looked at is that of the module written: %s / %s" % (show(obj)[:60], show(tk[3])[:60]))

    def on_exit(self, I, st, fn, v):
        self.ends(I, st, v, "exit of " + fn.path.replace("dump_syms::", ""))

    def on_thread_exit(self, I, st, v, ev):
        self.ends(I, st, v, "exit of the worker")

    def ends(self, I, st, v, site):
        s = st.copy()
        self.note(s)
        if s.a == "failed":
            self.rep.ob("fails", site, not I.assume_variant(s, v, "Ok"), "a failed check makes the run fail: no success is returned on this path")


def check(ctx):
    rep = ctx.rep
    rep.rule("gated", "nothing is created or written for a module before the CFI check is known to be off or passed")
    rep.rule("same-module", "the check looks at the module that is written")
    rep.rule("not-prevented", "the CFI error is only raised with the check on and no unwind info")
    rep.rule("fails", "a module without unwind info makes the run fail when the check is on")
    for root in ("dump_syms::dumper::single_file", "dump_syms::dumper::several_files"):
        run(ctx, R(rep), root)
    rep.floor("gated", 4, "creation of the store directory, of the file, stdout and stderr, writing of the text")
    rep.floor("not-prevented", 1, "the error of the check")
    rep.floor("fails", 2, "ends with a failed check")
    rep.floor("same-module", 1, "the text written")
