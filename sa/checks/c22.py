"""No undefined behaviour: the unchecked operations are conversions of bytes that are always valid UTF-8."""
from checklib import *
from checks.cuts import Cuts

ASSUMPTIONS = ["the dependencies have no undefined behaviour of their own when they are called from safe code",
               "code under #[cfg(windows)] isn't part of this build"]
MOD = "dump_syms::mapping::"
GEN, APPLY = MOD + "PathMappingGenerator::new", MOD + "PathMappingGenerator::apply"
UNCHECKED = ("alloc::string::String::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked", "alloc::str::from_boxed_utf8_unchecked",
             "core::str::from_utf8_unchecked", "core::str::<impl str>::from_utf8_unchecked")
# a text seen as bytes
AS_BYTES = ("String::as_bytes", "String::into_bytes", "str::as_bytes", "str::into_boxed_bytes", "str::bytes")
SAFE = ("mapping", "actions", "start", "end")


def unchecked(name):
    return name.endswith("from_utf8_unchecked")


class Text(Cuts, CRule):
    opaque = ("mapping::get_digest",)
    write_errors = False

    def __init__(self, rep):
        super().__init__(rep)
        self.text = set()
        self.made = []
        self.slices = {}
        self.actions = []
        self.gens = []

    def on_call(self, I, st, ev):
        if ev.name in AS_BYTES:
            self.text.add(I.resolve(st, ev.args[0]))
            self.text.add(ev.args[0])
        if unchecked(ev.path):
            self.made.append((ev.site(), I.resolve(st, ev.args[0])))
        if ev.name in ("Index::index", "[T]::get", "[T]::split_at") and len(ev.args) > 1:
            r = I.resolve(st, ev.args[1])
            if r.k == "agg":
                self.slices.setdefault(tuple(r.a[3]), []).append(tuple(self.place(st, x) for x in r.a[3]))
        return None

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        d = dict(zip(names, [I.resolve(st, v) for v in vals]))
        if adt == MOD + "Action":
            self.actions.append((site, [(n, d[n], self.place(st, d[n])) for n in ("start", "end")]))
        if adt == MOD + "PathMappingGenerator":
            self.gens.append((site, d["mapping"]))

    # ------------------------------------------------------------ after the analysis
    def bytes_of_text(self, I, t, seen=()):
        """The bytes are those of a whole text, or of several one after the other."""
        if t in seen:
            return None
        seen = seen + (t,)
        if t in self.text or t.k in ("str", "fmt") or t.k == "new":
            return None
        if t.k == "int":
            return None if 0 <= int(t.a[0]) < 128 else t
        if t.k == "phi" and t in I.phi_ops:
            for o in I.phi_ops[t]:
                b = self.bytes_of_text(I, o, seen)
                if b is not None:
                    return b
            return None
        if t.k == "upd" and len(t.a[2]) > 1:
            n = str(t.a[1])
            if any(x in n for x in ("push", "extend", "append", "write_all", "push_str")) and t.a[3] == 0:
                for o in t.a[2][:2]:
                    b = self.bytes_of_text(I, o, seen)
                    if b is not None:
                        return b
                return None
            return t
        if is_call(t, "[T]::to_vec", "Vec::from", "Clone::clone", "[T]::to_owned", "Vec::with_capacity", "Vec::new", "String::new", "String::with_capacity", "ToString::to_string", "str::to_string", "str::replace", "Match::as_str", "mapping::get_digest", "From::from", "Into::into"):
            if is_call(t, "ToString::to_string", "str::to_string", "str::replace", "Match::as_str", "mapping::get_digest", "Vec::with_capacity", "Vec::new", "String::new", "String::with_capacity"):
                return None
            return self.bytes_of_text(I, cargs(t)[0], seen)
        if t.k in ("coll", "iter"):
            # all the bytes, as they are
            it = t.a[0] if t.k == "coll" else t
            if it.k == "iter" and not it.a[2] and it.a[1] == "seq" and (t.k == "iter" or not t.a[1]):
                return self.bytes_of_text(I, it.a[0], seen)
            return t
        if is_call(t, "str::bytes"):
            return None
        if t.k == "idx" and t.a[1].k == "agg":
            r = t.a[1]
            v = t.a[0]
            # the destination of the mapping, between the positions recorded for one of its pieces
            if v.k == "fld" and v.a[1] == "mapping":
                ok = True
                for b in r.a[3]:
                    piece = b.k == "fld" and b.a[1] in ("start", "end") and any(x.k == "fld" and x.a[1] == "actions" and x.a[0] is v.a[0] for x in subterms(b.a[0]))
                    ok = ok and (piece or b.k == "int" and str(b.a[0]) == "0" or is_call(b, "len") and cargs(b)[0] is v)
                return None if ok else t
            if self.bytes_of_text(I, v, seen) is None:
                for here in self.slices.get(tuple(r.a[3]), [tuple(None for _ in r.a[3])]):
                    for b, h in zip(r.a[3], here):
                        if not self.ascii(self.places(I, b, h)):
                            return t
                return None
        return t

    def ascii(self, p):
        """The cuts are at the ends, or on either side of an ASCII character."""
        return bool(p) and all(x in ("zero", "len") or isinstance(x, tuple) and x[1] < 128 for x in p)


def check(ctx):
    rep = ctx.rep
    prog = ctx.prog
    rep.rule("inventory", "the crate's own code has no unchecked operation but the conversion of bytes into text")
    rep.rule("bytes", "bytes that are converted without a check are whole texts, one after the other")
    rep.rule("cut", "a destination is only cut at its ends or beside an ASCII character")
    rep.rule("kept", "the pieces of a destination aren't changed once they are recorded")
    own = [u for u in prog.unchecked if not u[4]]
    for kind, what, site, fn, _ in own:
        site = "%s (%s)" % (site.strip('"'), fn.replace("dump_syms::", ""))
        rep.ob("inventory", site, kind == "call" and unchecked(what), "%s: %s" % (kind, what))
    rep.ob("inventory", "crate", len(prog.fns) > 200, "%d bodies examined" % len(prog.fns))
    rep.notes.append("%d bodies; %d unchecked operations of the crate, %d of macros of other crates and of the compiler" % (len(prog.fns), len(own), len(prog.unchecked) - len(own)))
    sites = [u for u in own if u[0] == "call" and unchecked(u[1])]
    if not sites:
        return
    # from where the conversions are reached
    callers = {}
    for c in all_calls(prog):
        callers.setdefault(c.path, set()).add(c.fn.path.split("::{closure#")[0])
    roots, seen, stack = set(), set(), [u[3].split("::{closure#")[0] for u in sites]
    while stack:
        f = stack.pop()
        if f in seen:
            continue
        seen.add(f)
        if f == APPLY or not callers.get(f):
            roots.add(f)
        else:
            stack += callers[f]
    slices = False
    for root in sorted(roots):
        r = Text(rep)
        I, _ = run(ctx, r, root)
        if not I:
            continue
        for site, t in r.made:
            for a in I.alts(t):
                b = r.bytes_of_text(I, t)
                rep.ob("bytes", site, b is None, "not known to be UTF-8: %s" % (show(b)[:160] if b is not None else ""))
                slices = True
    found = {k[1] for k in rep.obs if k[0] == "bytes"}
    for u in sites:
        s = u[2].strip('"').split(":")[0]
        rep.ob("bytes", "%s (%s) reached" % (u[2].strip('"'), u[3].replace("dump_syms::", "")), any(x.split(" ")[0] == u[2].strip('"') for x in found), "the conversion is reached from %s" % ", ".join(sorted(roots)))
    if slices:
        r = Text(rep)
        I, _ = run(ctx, r, GEN)
        if I:
            for site, l in r.actions:
                for n, t, here in l:
                    p = r.places(I, t, here)
                    rep.ob("cut", "%s %s" % (site, n), r.ascii(p), "cut at: %s" % sorted(map(str, p)))
            for site, t in r.gens:
                for a in I.alts(t):
                    b = r.bytes_of_text(I, a)
                    rep.ob("cut", site + " destination", b is None, "the destination is a text: %s" % (show(b)[:80] if b is not None else ""))
        rep.floor("cut", 3, "pieces of a destination")
        for adt in ("Action", "PathMappingGenerator"):
            for fn in prog.fns.values():
                for b in fn.blocks:
                    for s in b["s"]:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] == MOD + adt:
                            # the analysis of the constructor has seen it
                            seen_ = fn.path in rep.fns or any(fn.path == f for f in I.fns_seen) if I else False
                            rep.ob("kept", "%s made in %s" % (adt, fn.path), seen_, "%s is only made by PathMappingGenerator::new" % adt)
        for fn, proj, site in all_writes(prog):
            if any(isinstance(p, (list, tuple)) and p[0] == "." and p[1] in SAFE and len(p) > 2 and ("mapping::Action" in str(p[2]) or "PathMappingGenerator" in str(p[2])) for p in proj):
                rep.ob("kept", "%s (%s)" % (site, fn.path), False, "a piece or a destination is changed after it was recorded")
