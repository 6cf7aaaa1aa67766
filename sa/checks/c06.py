"""The symbol text is a function of the inputs."""
from checklib import *
from checks.c16 import Graph, fields
import models

ASSUMPTIONS = ["the libraries that read the files (symbolic, goblin, pdb, gimli) and the demanglers give the same result for the same bytes",
               "the standard sorts and the BTree containers order by the values only",
               "the other files the tool looks at (sources to canonicalize, PDB files beside a PE file, the cache) belong to the inputs"]
OBJ = "dump_syms::object_info::ObjectInfo"
MOD = "object_info::ObjectInfo"
CONSUMER = "dump_syms::dumper::consumer"
# what the text of a module is made by
TEXT = ("dump_syms::object_info", "dump_syms::source", "dump_syms::symbol", "dump_syms::line", "dump_syms::inline_origins", "dump_syms::collector",
        "dump_syms::mapping", "dump_syms::mapper", "dump_syms::linux", "dump_syms::mac", "dump_syms::platform", "dump_syms::common", "dump_syms::utils")
# functions that look for the input files
LOOKUP = ("dump_syms::cache::", "dump_syms::windows::utils::")
# values that aren't a function of the inputs: (part of the path, what it is)
SOURCES = (
    ("std::time::", "the time"), ("chrono::", "the time"), ("time::offset_date_time", "the time"),
    ("rand::", "a random number"), ("getrandom::", "a random number"), ("fastrand::", "a random number"), ("Uuid::new_v", "a random number"), ("RandomState", "a random number"),
    ("Hasher::finish", "a seeded hash"), ("BuildHasher::hash_one", "a seeded hash"), ("::hash_one", "a seeded hash"),
    ("std::process::id", "the process id"), ("std::thread::id", "the thread"), ("std::thread::current", "the thread"), ("thread::ThreadId", "the thread"), ("Thread::id", "the thread"), ("Thread::name", "the thread"),
    ("std::env::", "the environment"), ("dirs::", "the environment"), ("dirs_next::", "the environment"), ("num_cpus::", "the machine"), ("available_parallelism", "the machine"),
    ("as_ptr", "an address"), ("as_mut_ptr", "an address"), ("Argument::new_pointer", "an address"), ("fmt::Pointer", "an address"), ("ptr::addr", "an address"), ("::into_raw", "an address"), ("ptr::eq", "an address"), ("ptr_eq", "an address"), ("ptr::hash", "an address"), ("const_ptr", "an address"), ("mut_ptr", "an address"), ("NonNull", "an address"), ("as_ptr_range", "an address"),
    ("Vec::capacity", "a capacity"), ("String::capacity", "a capacity"), ("HashMap::capacity", "a capacity"), ("HashSet::capacity", "a capacity"),
    ("Metadata::modified", "the time"), ("Metadata::created", "the time"), ("Metadata::accessed", "the time"),
    ("sync::atomic::Atomic::fetch", "a counter shared by the modules"), ("sync::atomic::Atomic::swap", "a counter shared by the modules"), ("sync::atomic::Atomic::load", "a counter shared by the modules"), ("sync::atomic::Atomic::compare", "a counter shared by the modules"),
    ("LocalKey::with", "a state of the thread"), ("LocalKey::get", "a state of the thread"), ("LocalKey::take", "a state of the thread"), ("LocalKey::replace", "a state of the thread"),
    ("rayon::", "the order of the threads"), ("rayon_core::", "the order of the threads"), ("Receiver::try_recv", "the order of the threads"), ("Arc::strong_count", "the order of the threads"), ("JoinHandle::is_finished", "the order of the threads"),
)
# these belong to the workers themselves
WORKERS = ("sync::atomic::", "std::thread::", "JoinHandle", "num_cpus::", "available_parallelism")
HASHED = re.compile(r"(hashbrown|std::collections::hash|std::collections)(::hash)?::(map|set|hash_map|hash_set|raw)::(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|ExtractIf|DrainFilter|Union|Intersection|Difference|SymmetricDifference|RawIter|IterHash)\b")
CONT = re.compile(r"(hashbrown|std::collections::hash|std::collections)(::hash)?::(map|set|hash_map|hash_set)::Hash(Map|Set)<")
KEYED = ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "BinaryHeap")
# what doesn't depend on the order of a sequence
ANYORDER = ("len", "keyed", "is_empty", "contains", "Iterator::count", "Iterator::sum", "Iterator::min", "Iterator::max", "Iterator::any", "Iterator::all", "contains_key")


def hashed(it):
    return it.k == "iter" and (it.a[1].startswith("hash") or it.a[0].k in ("call", "site") and is_hash_call(it.a[0]))


def is_hash_call(t):
    n = t.a[0] if t.k == "call" else t.a[1]
    return isinstance(n, str) and re.search(r"\bHash(Map|Set)::(union|intersection|difference|symmetric_difference|extract_if|drain_filter|into_iter|raw_)", n) is not None


def part(key, src):
    """The key of a sort is the element, or its key or its value as a whole: it tells the elements apart."""
    while key.k == "cast" or key.k == "agg" and len(key.a[3]) == 1:
        key = key.a[3][0] if key.k == "agg" else key.a[-1]
    if key.k == "agg" and key.a[3]:
        return any(part(x, src) for x in key.a[3])
    if key.k == "fld" and key.a[1] in ("0", "1"):
        key = key.a[0]
    return key.k == "elem" or key.k == "const" and key.a[0] == "natural"


def unfixed(t, stop=frozenset(), ops=None, one=False):
    """A part of the term whose order is the one of a hash table."""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if hashed(x):
            return x
        if x.k == "call" and (short(x.a[0]) in ANYORDER or x.a[0] in ANYORDER) or x.k in ("any", "has"):
            continue
        if x.k == "sorted" and part(x.a[1], x.a[0]):
            continue
        if x.k == "elem":
            # one element of a sequence: it is its position that isn't known
            if isinstance(x.a[2] if len(x.a) > 2 else "", str) and len(x.a) > 2 and str(x.a[2]).startswith("hash"):
                if one and x.a[0] not in stop:
                    return x
            continue
        if x.k == "phi":
            if ops is not None and x.a[0] not in stop:
                stack.extend(ops.get(x, ()))
            continue
        stack.extend(kids(x))
    return None


class Order(CRule):
    """What is done in the order of a hash table."""
    opaque = ("dumper::consumer", "dumper::several_files")

    def __init__(self, rep, root):
        super().__init__(rep)
        self.root = root
        self.loops = {}
        self.exits = []
        self.sinks = {}
        self.chain = None        # the functions that are followed (all of them when None)

    def inline(self, path):
        if self.chain is not None and path not in self.chain and "{closure" not in path:
            return False
        return super().inline(path)

    def initial(self):
        return frozenset()

    def modules(self, ev):
        return any(MOD in t["s"] for t in ev.targs)

    def ordered_by_hash(self, it):
        return unfixed(it) is not None

    def on_call(self, I, st, ev):
        if ev.name in ("Iterator::collect", "FromIterator::from_iter", "Iterator::sum", "Iterator::min", "Iterator::max"):
            it = models.val(I, st, ev.raw[0])
            tgt = (ev.rt.get("path") or "").rsplit("::", 1)[-1]
            if it.k == "iter" and self.ordered_by_hash(I.resolve(st, it)) and (tgt in KEYED or ev.name not in ("Iterator::collect", "FromIterator::from_iter")):
                res, vals = models.consume(I, st, it, ev, lambda s, v: [(s, None)])
                return [(s, mk("call", "keyed", (models.coll_term(I, s, it, vals),))) for s, _ in res]
        if self.chain is not None and ev.path in I.prog.fns and ev.path not in self.chain:
            for a in ev.raw:
                self.sink(I, st, ev.site(), a, "what %s is given" % short(ev.path))
        if ev.name in ("Extend::extend", "FromIterator::from_iter") and ev.targs and not self.modules(ev) and not any(k in ev.targs[0]["s"].split("<")[0] for k in KEYED) \
                and any(CONT.match(t["s"].lstrip("&").replace("mut ", "")) for t in ev.targs[1:]):
            self.rep.ob("order", ev.site(), False, "a sequence isn't made of a hash table in its order: %s" % ev.name)
        if ev.name == "Extend::extend" and ev.targs and any(k in ev.targs[0]["s"].split("<")[0] for k in KEYED):
            it = models.val(I, st, ev.raw[1])
            cell, path = I.deref_loc(st, ev.raw[0])
            I.storeloc(st, cell, path, mk("call", "keyed", (I.resolve(st, ev.raw[0]), I.resolve(st, it))))
            return [(st, models.UNIT)]
        if ev.name in ("Iterator::find", "Iterator::position", "Iterator::find_map", "Iterator::last", "Iterator::nth", "Iterator::fold", "Iterator::reduce", "Iterator::max_by_key", "Iterator::min_by_key",
                       "Iterator::max_by", "Iterator::min_by", "Iterator::try_fold", "Iterator::enumerate", "[T]::join", "[T]::concat", "[T]::first", "[T]::last", "Iterator::take", "Iterator::skip", "Iterator::step_by", "[T]::swap_remove", "Vec::pop") and ev.raw and not self.modules(ev):
            u = unfixed(I.resolve(st, ev.raw[0]))
            self.rep.ob("order", ev.site(), u is None, "%s doesn't depend on the order of a hash table%s" % (ev.name, ": " + show(u)[:100] if u is not None else ""))
        return None

    def on_next(self, I, st, ev, it):
        if it.k != "iter" or self.modules(ev):
            return
        u = unfixed(I.resolve(st, it))
        if u is not None:
            if ev.name in ("Iterator::next", "DoubleEndedIterator::next_back") and not cyclic(ev.fn, ev.point[1]):
                self.rep.ob("order", ev.site(), False, "no element is picked of a hash table: %s" % show(u)[:100])
            self.loops.setdefault(ev.point, [ev.site(), show(u)[:100]])

    def on_elem(self, I, st, ev, it, v):
        if ev.point in self.loops:
            st.a = st.a | {ev.point}

    def on_end(self, I, st, ev, it):
        st.a = st.a - {ev.point}

    def on_text(self, I, st, ev, w, tk):
        if st.a:
            self.rep.ob("order", ev.site(), False, "no text is written in a loop over a hash table")
        if tk and tk[0] == "arg":
            self.sink(I, st, ev.site(), tk[3], "the text")

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if not adt.startswith(("dump_syms::", "bin::")) or "{closure" in adt:
            return
        for n, v in zip(names or (), vals):
            self.sink(I, st, site, v, "the field %s of %s" % (n, short(adt)))

    def on_write(self, I, st, cell, path, v, site, fn):
        if path and cell[0] == "h":
            self.sink(I, st, site, v, "what is stored")

    def on_mutate(self, I, st, cell, path, v, ev):
        if v.k != "sorted" and cell[0] == "h":
            self.sink(I, st, ev.site(), v, "what is stored")

    def sink(self, I, st, site, v, what):
        v = I.resolve(st, v)
        if isinstance(v, T):
            self.sinks[(site, what, v)] = True

    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        if v.k == "agg" and v.a[1] in ("Err",):
            return
        self.exits.append(v)

    def after(self, I):
        """-> True when the value given back has the order of a hash table."""
        rep = self.rep
        heads = {}
        for pt, (site, what) in self.loops.items():
            heads.setdefault(pt, (site, what))
        for site, what, v in self.sinks:
            u = unfixed(v, frozenset(heads), I.phi_ops)
            rep.ob("order", "%s: %s" % (site, what), u is None, "%s isn't in the order of a hash table: %s" % (what, show(u)[:140] if u is not None else ""))
        for p, ops in I.phi_ops.items():
            h = [k for k in heads if p.a[0] == k or p.a[0] == k + ("loop",) or p.a[0][:2] == k[:2] and len(p.a[0]) > 2 and p.a[0][2] == "loop"]
            if not h:
                continue
            site, what = heads[h[0]]
            pts = {p.a[0]}
            for o in ops:
                self.carried(I, p, o, pts, site, what)
        leak = False
        for v in self.exits:
            for x in (v,):
                u = unfixed(x, frozenset(), I.phi_ops, True)
                if u is not None:
                    leak = show(u)[:140]
        return leak

    def carried(self, I, p, o, pts, site, what, depth=0):
        """What a loop in the order of a hash table carries from one iteration to the next one."""
        rep = self.rep
        key = "%s: carried %s" % (site, ".".join(str(x) for x in p.a[2]) or "value")
        inloop = lambda t: any(x.k == "phi" and x.a[0] in pts or x.k == "elem" and (x.a[0] in pts or x.a[0][:2] in {q[:2] for q in pts}) for x in subterms(t))
        x = o
        while True:
            if x is p or x.k == "phi" and x.a[0] in pts and x.a[1] == p.a[1]:
                return rep.ob("order", key, True, "what the loop carries doesn't depend on the order")
            if not inloop(x) and not (x.k == "phi" and depth < 4 and any(inloop(y) for y in I.phi_ops.get(x, ()))):
                return rep.ob("order", key, True, "what the loop carries doesn't depend on the order")
            if x.k == "phi" and depth < 4 and x in I.phi_ops and x.a[0] not in pts:
                return all([self.carried(I, p, y, pts, site, what, depth + 1) for y in I.phi_ops[x]])
            if x.k == "puti" and not any(y.k == "phi" and y.a[0] in pts for y in subterms(x.a[2])) and not any(y.k == "phi" and y.a[0] in pts for y in subterms(x.a[1])) and any(y.k == "elem" for y in subterms(x.a[1])):
                x = x.a[0]
                continue
            if x.k == "call" and x.a[0] == "keyed" and not any(y.k == "phi" and y.a[0] in pts for a in x.a[1][1:] for y in subterms(a)):
                x = x.a[1][0]
                continue
            if x.k == "bin" and x.a[0].replace("Unchecked", "").replace("WithOverflow", "") in ("Add", "BitOr", "BitAnd", "BitXor", "Mul"):
                me = [y for y in x.a[1:3] if inloop(y) and any(z.k == "phi" and z.a[0] in pts for z in subterms(y))]
                if len(me) == 1:
                    x = me[0]
                    continue
            if x.k == "rec":
                return all([self.carried(I, p, y, pts, site, what, depth + 1) for y in [x.a[0]] + [z for _, z in x.a[1]]])
            if x.k == "fld" and x.a[0].k == "bin":
                x = x.a[0]
                continue
            return rep.ob("order", key, False, "a loop over %s doesn't build anything in its order: %s" % (what, show(o)[:160]))


def cyclic(fn, b):
    """The block is in a loop."""
    seen, stack = set(), list(fn.succs[b])
    while stack:
        x = stack.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            stack.extend(fn.succs[x])
    return False


def indir(t):
    return is_call(t, "fs::read_dir", "Path::read_dir")


class Dir(CRule):
    """The file taken of a directory is the only one."""

    def initial(self):
        return (0, False)

    def listed(self, I, st, it):
        return it.k == "iter" and any(indir(x) for x in subterms(I.resolve(st, it)))

    def on_elem(self, I, st, ev, it, v):
        if self.listed(I, st, it):
            st.a = (min(st.a[0] + 1, 2), st.a[1])

    def on_end(self, I, st, ev, it):
        if self.listed(I, st, it):
            st.a = (st.a[0], True)

    def sticky(self, t, v):
        return any(indir(x) for x in subterms(t))

    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        if not any(indir(x) for x in subterms(v)) or v.k == "agg" and v.a[1] == "Err":
            return
        one = st.a == (1, True)
        for t, x in st.f.items():
            if is_call(t, "len") and any(indir(y) for y in subterms(t)) and (x == 1 or isinstance(x, T) and x.k == "int" and x.a[0] == 1):
                one = True
            if t.k == "bin" and t.a[0] == "Eq" and x is True and any(is_call(y, "len") and any(indir(z) for z in subterms(y)) for y in t.a[1:]) and any(y.k == "int" and y.a[0] == 1 for y in t.a[1:]):
                one = True
        self.rep.ob("order", "exit of %s" % fn.path, one, "a file is only taken of a directory when it is the only one: %s" % show(v)[:100])


def callers(prog, g, f):
    return sorted({x.split("::{closure")[0] for x, s in g.out.items() if f in s and x.split("::{closure")[0] != f})


def outer(prog, f):
    while "::{closure" in f:
        f = f.rsplit("::{closure", 1)[0]
    return f


def check(ctx):
    rep, prog = ctx.rep, ctx.prog
    rep.rule("order", "nothing that reaches the text is made in the order of a hash table: loops over hash tables only fill keyed containers, and sequences made of them are sorted by their elements first")
    rep.rule("source", "what makes the text of a module uses nothing that changes from run to run: time, random numbers, seeded hashes, addresses, process and thread ids, the environment, shared counters")
    rep.rule("merge-order", "the files of a module are combined in an order given by the inputs")
    g = Graph(prog)
    fns = [f for f in prog.fns.values() if f.crate in ("dump_syms", "bin")]
    # --- R1
    roots = []
    for f in fns:
        sites = set()
        for l in f.locals:
            s = prog.types[f.crate][l[0]]["s"]
            if HASHED.search(s) and MOD not in s:
                sites.add(s)
        for b in f.blocks:
            t = b.get("t")
            if t and t["t"] == "call" and isinstance(t["f"], dict):
                fn = t["f"].get("k", {}).get("fn")
                if fn:
                    n = fn.get("r") or fn["p"]
                    ta = [prog.types[f.crate][a]["s"] for a in fn.get("a", []) if isinstance(a, int)]
                    if any(CONT.search(a.lstrip("&").replace("mut ", "")[:60]) and MOD not in a for a in ta) and n.rsplit("::", 1)[-1] in ("into_iter", "extend", "from_iter", "zip", "chain", "collect", "flatten", "flat_map", "sum"):
                        sites.add(n)
                    if "Argument::new_debug" in n:
                        rep.ob("order", "debug format in %s" % f.path, not any(CONT.search(a) for a in ta) or f.path not in textual(prog, g), "a hash table isn't written with its debug format")
        if sites:
            r = outer(prog, f.path)
            if r in prog.fns and r not in roots:
                roots.append(r)
    rep.ob("order", "hash iterations", True, "functions that go through a hash table: %s" % ", ".join(sorted(roots)))
    done, pend = set(), [(r, ()) for r in roots]
    while pend:
        r, chain = pend.pop()
        if (r, chain) in done:
            continue
        done.add((r, chain))
        o = Order(rep, r)
        if chain:
            o.chain = set(chain)
        bad = len(rep.violations())
        I, res = run(ctx, o, r)
        if I is None:
            continue
        leak = o.after(I)
        if len(rep.violations()) > bad:
            continue
        cs = callers(prog, g, r)
        if leak and cs and len(chain) < 4:
            pend += [(c, chain + (r,)) for c in cs]
            rep.ob("order", "value of %s" % r, True, "the value has the order of a hash table: its callers are checked")
        else:
            rep.ob("order", "value of %s" % r, not leak, "the value isn't in the order of a hash table: %s" % (leak or ""))
    for r in sorted({outer(prog, f.path) for f in fns if any(x.endswith(("fs::read_dir", "Path::read_dir")) for x in fields(f.blocks))}):
        if not r.startswith(LOOKUP):
            run(ctx, Dir(rep), r)
    # --- R2
    text = textual(prog, g)
    rep.fns |= text
    dump = g.reach([f for f in prog.fns if f.startswith(("dump_syms::dumper", "bin::"))], {f for f in prog.fns if f.startswith(LOOKUP)})
    for f in sorted(text | dump):
        fn = prog.fns[f]
        bad = {}
        for x in set(fields(fn.blocks)):
            if x in prog.fns:
                continue
            for p, w in SOURCES:
                if p in x and not (f not in text and any(k in x for k in WORKERS)):
                    bad[x] = w
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2] and s[2][0] == "cast" and any(isinstance(k, str) and ("PointerExpose" in k or "PtrToInt" in k) for k in s[2][1:]):
                    bad["a pointer cast to an integer"] = "an address"
        if f not in text:
            bad = {k: w for k, w in bad.items() if "process::exit" not in k}
        rep.ob("source", f, not bad, "uses nothing that changes from run to run: %s" % "; ".join("%s (%s)" % kv for kv in sorted(bad.items())))
    rep.floor("source", 150, "functions that make the text of a module")
    # --- R3
    m = OBJ + "::merge"
    w = g.reach([CONSUMER])
    rep.ob("merge-order", "dumper::consumer", m not in w, "the files of a module are merged by the workers in the order in which they finish them, and merging isn't symmetric (dumper::consumer calls ObjectInfo::merge on what the other workers have recorded)", key="dumper::consumer")


_text = {}


def textual(prog, g):
    r = _text.get(id(prog))
    if r is None:
        roots = [f for f in prog.fns if any(f.replace("<", "").startswith(t) for t in TEXT) or any((" as " in f and f.lstrip("<").startswith(t)) for t in TEXT)]
        roots = [f for f in roots if not f.startswith(LOOKUP)]
        r = _text[id(prog)] = g.reach(roots, {f for f in prog.fns if f.startswith(LOOKUP)})
    return r
