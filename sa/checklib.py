"""What the checks share: the report (obligations, violations, floors) and helpers on terms."""
import re
from terms import *
import interp, models, rules


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obs = {}         # (rule, key) -> [ok, evaluations, site, text]
        self.roots = []
        self.fns = set()
        self.steps = 0
        self.calls = 0
        self.rules = {}
        self.notes = []

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rid, site, ok, text, key=None):
        """One obligation of the rule, at a construct; it may be evaluated on several paths."""
        assert rid in self.rules, rid
        k = (rid, key or site)
        o = self.obs.get(k)
        if o is None:
            self.obs[k] = [bool(ok), 1, site, text]
        else:
            o[1] += 1
            if o[0] and not ok:
                o[0], o[2], o[3] = False, site, text
        return ok

    def floor(self, rid, n, what):
        """The rule must have been evaluated on at least n constructs."""
        c = sum(1 for r, _ in self.obs if r == rid)
        self.ob(rid + "#", what, c >= n, "%d of at least %d constructs found: %s" % (c, n, what)) if (rid + "#") in self.rules else None
        if (rid + "#") not in self.rules:
            self.rules[rid + "#"] = "the constructs rule %s is about exist" % rid
            self.ob(rid + "#", what, c >= n, "%d of at least %d constructs found: %s" % (c, n, what))

    def violations(self):
        return [(r, k, o) for (r, k), o in self.obs.items() if not o[0]]


class CRule(rules.Rule):
    """A rule which reports into the report."""
    rep = None
    opaque = ()          # functions (suffixes of paths) that aren't followed

    def __init__(self, rep):
        self.rep = rep
        self._inl = {}

    def inline(self, path):
        r = self._inl.get(path)
        if r is None:
            r = self._inl[path] = not any(path.endswith(x) for x in self.opaque)
        return r


def run(ctx, rule, root, args=None, budget=None):
    """Analyses the program from the root under the rule."""
    rep = ctx.rep
    if root not in ctx.prog.fns:
        rep.rule("anchor", "the entry points the rules start from exist")
        rep.ob("anchor", root, False, "the entry point %s doesn't exist any more" % root)
        return None, None
    res = None
    for maxs in (24, 8, 3):
        # fewer states are told apart when there are too many paths
        interp.MAXS = maxs
        I = interp.Interp(ctx.prog, rule)
        if budget:
            I.maxsteps = budget
        try:
            res = I.root(root, args)
            break
        except interp.Budget:
            rep.steps += I.steps
            rep.notes.append("budget exceeded from %s with %d states" % (root, maxs))
    interp.MAXS = 24
    if res is None:
        raise interp.Budget("too many paths from " + root)
    rep.roots.append(root)
    rep.fns |= I.fns_seen
    rep.steps += I.steps
    rep.calls += len(I.calls_seen)
    return I, res


# ---------------------------------------------------------------- helpers on terms
def is_call(t, *names):
    """A call term of one of these functions (short names)."""
    if t.k == "call":
        return short(t.a[0]) in names or t.a[0] in names
    if t.k == "site":
        return short(t.a[1]) in names or t.a[1] in names
    return False


def cargs(t):
    return t.a[1] if t.k == "call" else t.a[2]


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


def fields_of(t):
    """Names of the fields read along the spine of the term."""
    out = []
    while True:
        if t.k == "fld":
            out.append(t.a[1])
            t = t.a[0]
        elif t.k == "pay":
            out.append(t.a[1] + "." + t.a[2])
            t = t.a[0]
        elif t.k == "idx":
            out.append("[]")
            t = t.a[0]
        else:
            return list(reversed(out)), t


def collecting(ev):
    """The elements are only put in a collection, which is looked at later."""
    return ev.name.split("::")[-1] in ("collect", "from_iter", "extend")


def layers(it):
    """The iterator, and those the collections it goes over were made from."""
    out = []
    while it.k in ("iter", "coll", "sorted"):
        if it.k == "iter":
            out.append(it)
        it = it.a[0]
    return out


def whole(it):
    """The iterator goes over its whole source, when it isn't left before its end."""
    return it.k == "iter" and not any(k in ("take", "skip", "step_by", "take_while", "skip_while", "map_while") for k, _ in it.a[2])


def listed(I, t):
    """A list that is built up: (what it starts from, what is pushed on it)."""
    base, pushed, seen, stack = [], [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "phi" and x in I.phi_ops:
            stack.extend(I.phi_ops[x])
        elif x.k == "upd" and any(n in str(x.a[1]) for n in ("Vec::push",)):
            stack.append(x.a[2][0])
            if x.a[2][1] not in pushed:
                pushed.append(x.a[2][1])
        else:
            base.append(x)
    return base, pushed


class CallSite:
    __slots__ = ("fn", "path", "targs", "sp", "args")


def fresh_alts(I, t):
    """The values a term may stand for, each with whether it dates from an earlier iteration of the loop it belongs to."""
    seen, stack, out = set(), [(t, False)], []
    while stack:
        x, old = stack.pop()
        if (x, old) in seen:
            continue
        seen.add((x, old))
        if x.k == "phi" and x in I.phi_ops:
            for y in I.phi_ops[x]:
                stack.append((y, old or y.k != "phi" and any(z.k == "elem" and z.a[0] == x.a[0] for z in subterms(y))))
        else:
            out.append((x, old))
    return out


def all_calls(prog, crates=("dump_syms", "bin")):
    """Every call of the program whose callee is known."""
    for fn in prog.fns.values():
        if fn.crate not in crates:
            continue
        for b in fn.blocks:
            t = b.get("t")
            if not t or t["t"] != "call":
                continue
            f = t["f"].get("k", {}).get("fn") if isinstance(t["f"], dict) else None
            if not f:
                continue
            c = CallSite()
            c.fn, c.path, c.sp, c.args = fn, f.get("r") or f["p"], t.get("sp"), t["a"]
            c.targs = [prog.types[fn.crate][a]["s"] for a in f.get("a", []) if isinstance(a, int)]
            yield c


def all_writes(prog, crates=("dump_syms", "bin")):
    """Every place that is assigned or mutably borrowed: (fn, projections, site)."""
    for fn in prog.fns.values():
        if fn.crate not in crates:
            continue
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                if len(s[1]) > 1:
                    yield fn, s[1][1:], s[3]
                r = s[2]
                if r[0] in ("ref", "addr", "rawptr") and len(r) > 2 and r[2] and len(r[1]) > 1:
                    yield fn, r[1][1:], s[3]
            t = b.get("t")
            if t and t["t"] == "call" and len(t.get("d") or []) > 1:
                yield fn, t["d"][1:], t.get("sp")



# the functions that read the inputs: what they return is the starting point of the dump
READERS = ("ObjectInfo::from_elf", "ObjectInfo::from_macho", "ObjectInfo::from_pdb", "ObjectInfo::from_pe",
           "ObjectInfo::from_pe_with_mapping", "ObjectInfo::from_object", "utils::read_file", "PathMappings::new",
           "cache::search_file", "cache::get_sym_servers", "windows::utils::get_pe_pdb_buf", "windows::utils::find_pe_for_pdb",
           "ObjectInfo::merge")
DISPLAY = "<dump_syms::object_info::ObjectInfo as core::fmt::Display>::fmt"
MAKES = {"File::create", "fs::create_dir_all", "fs::create_dir", "OpenOptions::open", "fs::write", "File::create_new", "fs::copy", "fs::rename",
         "File::options", "stdio::stdout", "stdio::stderr", "io::stdout", "io::stderr", "fs::hard_link"}
