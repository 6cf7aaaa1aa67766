"""File ids always designate the right FILE record."""
from checklib import *
from checks import ids, emit, c07, c10
from checks.ids import D, uncast, field_of, is_len, len_of

ASSUMPTIONS = ["the numbers fit in 32 bits", "the FILE records are numbered by position in the list (decided here on the writer too)"]


def is_path(t):
    return is_call(t, "SourceFiles::get_path")


class GetId(ids.Intern):
    opaque = ("SourceFiles::get_path", "PathMappings::map")
    lists = ("fake_id_to_ref", "id_to_ref")

    def __init__(self, rep):
        super().__init__(rep)
        self.maps = {"ref_to_id": self.by_path, "cache": self.by_file}

    def by_path(self, I, st, k):
        return all(is_path(a) and self.of_args(a) for a in I.alts(k))

    def of_args(self, p):
        a = cargs(p)
        return len(a) == 4 and a[2].k == "arg" and a[2].a[1] == "compilation_dir" and a[3].k == "arg" and a[3].a[1] == "file"

    def by_file(self, I, st, k):
        if is_path(k):
            return self.of_args(k)
        parts = list(k.a[3]) if k.k == "agg" else [k]
        d = any(p.k == "arg" and p.a[1] == "compilation_dir" for p in parts)
        f = {short(p.a[0]) for p in parts if p.k == "call" and len(p.a[1]) == 1 and p.a[1][0].k == "arg" and p.a[1][0].a[1] == "file"}
        return d and ({"FileInfo::dir_str", "FileInfo::name_str"} <= f or "FileInfo::path_str" in f)

    def good(self, I, st, v):
        x = v
        if v.k == "agg" and v.a[0] == "()":
            if not (v.a[3][0].k == "agg" and v.a[3][0].a[1] == "None"):
                return False
            x = v.a[3][1]
        return all(self.path(I, st, a) for a in I.alts(x))

    def path(self, I, st, x):
        if is_path(x):
            return self.of_args(x)
        if x.k in ("unwrap_or",) or x.k == "call" and short(x.a[0]) == "unwrap_or":
            m, d = x.a[:2] if x.k == "unwrap_or" else x.a[1]
            return is_path(d) and self.mapped(I, m, d)
        if x.k == "pay" and x.a[1] == "Some":
            return self.mapped(I, x.a[0], None)
        return False

    def mapped(self, I, m, d):
        for a in I.alts(m):
            if a.k == "agg" and a.a[1] == "None" and a.a[0] == models.OPT:
                continue
            if a.k == "pay" and a.a[1] == "Ok":
                a = a.a[0]
            elif a.k == "okof":
                a = a.a[0]
            if not (is_call(a, "PathMappings::map") and is_path(cargs(a)[1]) and self.of_args(cargs(a)[1])):
                return False
        return True

    def recorded(self, I, st, known):
        return any(e[1] == "ref_to_id" for e in known)


class GetTrueId(ids.Intern):
    lists = ("id_to_ref",)
    maps = {"fake_id_to_ref": None}

    def fake(self, t):
        return t.k == "idx" and field_of(t.a[0]) == "fake_id_to_ref" and uncast(t.a[1]).k == "arg"

    def good(self, I, st, v):
        return v.k == "fld" and v.a[1] == "1" and self.fake(v.a[0])

    def stored(self, I, st, v):
        return v.k == "pay" and v.a[1] == "Some" and v.a[0].k == "fld" and v.a[0].a[1] == "0" and self.fake(v.a[0].a[0])

    def other(self, I, st, path, v, site):
        okk = len(path) == 3 and path[0] == ("f", "fake_id_to_ref") and path[1][0] == "i" and uncast(I.resolve(st, path[1][1])).k == "arg" and path[2] == ("f", "0") and v.k == "agg" and v.a[1] == "Some"
        self.rep.ob("table", site, okk, "only the number of this very file is recorded")
        if okk:
            st.a = st.a | {("map", "fake_id_to_ref", v.a[3][0], v.a[3][0])}

    def on_exit(self, I, st, fn, v):
        st = st.copy()
        rec = [e for e in st.a if e[0] == "map"]
        st.a = frozenset(e for e in st.a if e[0] != "map")
        name = fn.path.replace(D, "")
        v = I.resolve(st, v)
        new = [e for e in st.a if e[0] == "push"]
        for a in I.alts(v):
            self.rep.ob("number", "exit of %s %s" % (name, "new" if new else "known"), self.number(I, st, a), "the number is the one of this very file: %s" % show(v)[:150])
        if new:
            self.rep.ob("table", "exit of %s recorded" % name, len(new) == 1 and len(rec) == 1 and uncast(rec[0][2]) is uncast(I.alts(v)[0]), "the number of a file is remembered")
            self.rep.ob("table", "exit of %s push" % name, self.good(I, st, new[0][3]), "the path of this very file is added to the list")


class Collect(ids.Collect):
    def fileterm(self, I, st, ev, a):
        okk = field_of(a[1]) == "compilation_dir" and a[2].k == "fld" and a[2].a[1] == "file"
        owner = a[1].a[0] if a[1].k == "fld" else None
        src = {x for t in I.alts(a[2].a[0]) for x in I.sources(t) if x.k == "fld" and x.a[1] == "lines"} if okk else set()
        self.rep.ob("line", ev.site(), okk and src and all(x.a[0] is owner for x in src), "the file is the one of a line of the function, with the directory of this function: %s, %s" % (show(a[1])[:60], show(a[2])[:60]))
        return mk("call", ev.path, tuple(a)) if True else None

    def pending(self, st, site):
        self.rep.ob("pending", site, st.a[0] is None, "the file numbers given by the table are all used, in order")

    def on_fact(self, I, st, t, v):
        if v is True and t.k == "bin" and t.a[0] == "Eq" and st.a[0] is not None and st.a[0] in t.a[1:]:
            o = [x for x in t.a[1:] if x is not st.a[0]]
            if o:
                self.excused.append((I, o[0]))
                st.a = (None, st.a[1])

    def on_exit(self, I, st, fn, v):
        self.pending(st, "exit of " + fn.path)

    def line(self, I, st, site, num, fid):
        self.later.append((I, site, uncast(num), fid, st.a[1]))

    def line_(self, I, site, num, fid, cur):
        """cur: the last file that was numbered. A joined value may also stand for the numbers of other paths, where the last
        file numbered was another one: these are decided there."""
        al = fresh_alts(I, fid)
        okk = all(is_call(x, "SourceFiles::get_true_id") and is_call(cargs(x)[1], "SourceFiles::get_id") for x, _ in al)
        same = False
        if okk:
            fs = [(cargs(cargs(x)[1])[2], old) for x, old in al]
            mine = [old for f, old in fs if f is cur]
            same = cur is not None and cur.k == "fld" and cur.a[1] == "file" and num.k == "fld" and num.a[1] == "line" and num.a[0] is cur.a[0] and bool(mine) and not any(mine)
        self.rep.ob("line", site, okk and same, "the line number and the file are those of the same line: %s, %s" % (show(num)[:60], show(fid)[-90:]))

    def after(self):
        for x in self.later:
            self.line_(*x)
        for I, o in self.excused:
            self.rep.ob("pending", "reused number", all(is_call(a, "SourceFiles::get_id") for a in I.alts(o)), "the number is one that was already used: %s" % show(o)[:80])


class MapMerge(CRule):
    """Automaton: (active, events of the element, fields replaced, all elements seen)."""

    def initial(self):
        return (None, frozenset(), frozenset(), False)

    def phi_tag(self, a):
        return tuple(sorted(e[0] for e in a[1]))

    def src(self, I, st, it):
        return [x for x in subterms(it.a[0]) if x.k == "fld" and x.a[1] in ("ref_to_id", "id_to_ref") and x.a[0].k == "arg" and x.a[0].a[1] == "other"]

    def on_next(self, I, st, ev, it):
        if self.src(I, st, it) and not collecting(ev):
            self.finish(I, st, ev.site())

    def on_elem(self, I, st, ev, it, v):
        if self.src(I, st, it) and not collecting(ev):
            bad = [k for i in layers(it) for k, _ in i.a[2] if k not in ("map", "enumerate", "swap", "inspect", "rev")]
            self.rep.ob("merge", ev.site() + " all", not bad, "all the files of the other table are numbered%s" % "".join(" " + b for b in bad))
            st.a = (v, frozenset(), st.a[2], False)

    def on_end(self, I, st, ev, it):
        if self.src(I, st, it) and not collecting(ev):
            self.finish(I, st, ev.site())
            st.a = (None, frozenset(), st.a[2], True)

    def on_mutate(self, I, st, cell, path, v, ev):
        if path and path[-1] == ("f", "id_to_ref") and v.k == "upd" and short(v.a[1]) == "Vec::push":
            self.add(st, ("push", I.resolve(st, v.a[2][0]), I.resolve(st, v.a[2][1])))
        elif path and path[-1][0] == "f" and path[-1][1] in ("id_to_ref", "ref_to_id") and v.k == "upd" and short(v.a[1]).split("::")[1] not in ("reserve", "insert", "entry"):
            self.rep.ob("merge", ev.site(), False, "the tables are only added to: %s" % short(v.a[1]))

    def add(self, st, e):
        st.a = (st.a[0], st.a[1] | {e}, st.a[2], st.a[3])

    def on_write(self, I, st, cell, path, v, site, fn):
        v = I.resolve(st, v)
        if path and path[-1][0] == "i":
            k = I.resolve(st, path[-1][1])
            if len(path) > 1 and path[-2] == ("f", "ref_to_id"):
                self.add(st, ("map", k, v))
            else:
                self.add(st, ("remap", k, v))
        elif path and path[-1][0] == "f" and path[-1][1] in ("ref_to_id", "id_to_ref"):
            # self takes the tables of the other one
            if v.k == "fld" and v.a[0].k == "arg" and v.a[0].a[1] == "other" and v.a[1] == path[-1][1]:
                st.a = (st.a[0], st.a[1], st.a[2] | {path[-1][1]}, st.a[3])
        elif not path and v.k == "agg" and v.a[0].endswith("source::SourceMap") and cell[0] == "h" and cell[1].k == "arg" and cell[1].a[1] == "self":
            got = {n for n, x in zip(v.a[2], v.a[3]) if x.k == "fld" and x.a[0].k == "arg" and x.a[0].a[1] == "other" and x.a[1] == n}
            st.a = (st.a[0], st.a[1], st.a[2] | got, st.a[3])
        elif not path and v.k == "arg" and v.a[1] == "other" and cell[0] == "h" and cell[1].k == "arg" and cell[1].a[1] == "self":
            st.a = (st.a[0], st.a[1], st.a[2] | {"id_to_ref", "ref_to_id"}, st.a[3])

    def finish(self, I, st, site):
        e = st.a[0]
        if e is None:
            return
        evs = st.a[1]
        rm = [x for x in evs if x[0] == "remap"]
        okk = len(rm) == 1
        why = "%d new numbers are given to a file" % len(rm)
        if okk:
            _, k, v = rm[0]
            k = uncast(k)
            vs = {uncast(x) for x in I.alts(v)}
            v = vs.pop() if len(vs) == 1 else uncast(v)
            key, num = self.parts(e)
            okk = k is num
            why = "the new number is put at the position of the old one"
            pushed = [x for x in evs if x[0] == "push"]
            same = [x for x in vs | {v} if is_len(x) and pushed and len_of(x) is pushed[0][1]]
            if same and all(is_len(x) and field_of(len_of(x)) == "id_to_ref" for x in vs):
                # the lengths of earlier turns of the loop join the value
                v, vs = same[0], ()
            if okk and vs:
                okk = not any(x[0] in ("push", "map") for x in evs) and all(x.k == "idx" and field_of(x.a[0]) == "ref_to_id" and x.a[1] is key for x in vs)
                why = "a known path keeps its number"
            elif okk and v.k == "idx":
                okk = field_of(v.a[0]) == "ref_to_id" and v.a[1] is key and not any(x[0] in ("push", "map") for x in evs)
                why = "a known path keeps its number: %s" % show(v)[:100]
            elif okk and is_len(v):
                L = len_of(v)
                pu = [x for x in evs if x[0] == "push"]
                mp = [x for x in evs if x[0] == "map"]
                okk = len(pu) == 1 and pu[0][1] is L and self.other(pu[0][2], num) and len(mp) == 1 and mp[0][1] is key and uncast(mp[0][2]) is v
                why = "a new path is added with its number: push %s, map %s" % ([show(x[2])[:60] for x in pu], [show(x[1])[:60] for x in mp])
            elif okk:
                okk, why = False, "the new number is that of the path in the table: %s" % show(v)[:100]
        self.rep.ob("merge", site + " element", okk, why)
        st.a = (None, frozenset(), st.a[2], st.a[3])

    def parts(self, e):
        if e.k == "agg":
            a, b = e.a[3]
            if a.k == "elem" and a.a[1].k == "coll" and b is models.index(a.a[1], a) and len(a.a[1].a[1]) == 1:
                # a map made from number to path
                x, = a.a[1].a[1]
                if x.k == "agg" and len(x.a[3]) == 2 and uncast(x.a[3][0]).k == "idx" and uncast(x.a[3][0]).a[1] is x.a[3][1] and field_of(uncast(x.a[3][0]).a[0]) == "ref_to_id":
                    return b, uncast(a)
            return e.a[3][0], uncast(e.a[3][1])
        if e.k == "elem" and e.a[1].k == "fld":
            return e, mk("idx", e.a[1], e)
        src = e.a[1] if e.k == "elem" else None
        while src is not None and src.k == "sorted":
            src = src.a[0]
        if src is not None and src.k == "coll" and len(src.a[1]) == 1:
            # pairs made from the table: the number first?
            x, = src.a[1]
            if x.k == "agg" and len(x.a[3]) == 2 and uncast(x.a[3][0]).k == "idx" and uncast(x.a[3][0]).a[1] is x.a[3][1] and field_of(uncast(x.a[3][0]).a[0]) == "ref_to_id":
                return models.fld(e, "1"), models.fld(e, "0")
        return models.fld(e, "0"), models.fld(e, "1")

    def other(self, v, num):
        return v.k == "idx" and v.a[0].k == "fld" and v.a[0].a[1] == "id_to_ref" and v.a[0].a[0].k == "arg" and v.a[0].a[0].a[1] == "other" and uncast(v.a[1]) is num

    def on_exit(self, I, st, fn, v):
        site = "exit of " + fn.path.replace(D, "")
        s = st.copy()
        if I.assume_variant(s, v, "None"):
            oth, me = empty(s, "other"), empty(s, "self")
            took = s.a[2] >= {"id_to_ref", "ref_to_id"}
            self.rep.ob("merge", site + " None", oth is True and not s.a[2] or me is True and took, "the numbers stay only when one of the tables is empty (other: %s, this one: %s, taken over: %s)" % (oth, me, sorted(s.a[2])))
        s = st.copy()
        if I.assume_variant(s, v, "Some"):
            self.rep.ob("merge", site + " Some", s.a[3] and not s.a[2], "all the files of the other table were numbered")


def empty(st, who):
    """What is known of the emptiness of a table: both of its parts have the same size."""
    for t, v in st.f.items():
        if t.k == "bin" and t.a[0] == "Eq" and isinstance(v, bool):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if x.k == "int" and x.a[0] == 0 and is_len(y) and field_of(len_of(y)) in ("id_to_ref", "ref_to_id"):
                    o = len_of(y)
                    if o.k == "fld" and o.a[0].k == "arg" and o.a[0].a[1] == who:
                        return v
    return None


class Remap(CRule):
    """Every line / inline record gets its new number."""
    what, field, index, arr = "lines", "file_id", "file_id", "file_remapping"

    def initial(self):
        return (None, False, False)      # element not changed yet, all seen, stored

    def mine(self, I, st, it):
        s = it.a[0]
        if s.k == "ref":
            return any(e == ("f", self.what) for e in s.a[1])
        return any(field_of(x) == self.what for x in [s])

    def on_next(self, I, st, ev, it):
        if self.mine(I, st, it) and not it.a[2] and st.a[0] is not None:
            self.rep.ob("renumber", ev.site(), False, "a record keeps its old number")

    def on_elem(self, I, st, ev, it, v):
        if self.mine(I, st, it):
            bad = [k for k, _ in it.a[2] if k not in ("map", "enumerate", "swap", "inspect")]
            self.rep.ob("renumber", ev.site() + " all", not bad, "all the records are renumbered%s" % "".join(" " + b for b in bad))
            if it.a[2]:
                self.mapped(I, st, ev, v)
            else:
                st.a = (v, False, False)

    def on_skip(self, I, st, ev, it):
        self.rep.ob("renumber", ev.site() + " all", False, "some records are left out")

    def on_end(self, I, st, ev, it):
        if self.mine(I, st, it):
            st.a = (None, True, st.a[2])

    def mapped(self, I, st, ev, v):
        pass

    def on_write(self, I, st, cell, path, v, site, fn):
        v = I.resolve(st, v)
        if path and path[-1] == ("f", self.field):
            self.write(I, st, path, v, site)

    def write(self, I, st, path, v, site):
        if len(path) > 1 and path[-2][0] == "i":
            k = path[-2][1]
            old = v.a[1] if v.k == "idx" else None
            o = uncast(old) if old is not None else None
            okk = o is not None and o.k == "fld" and o.a[1] == self.field and o.a[0].k == "idx" and o.a[0].a[1] is k and self.array(v.a[0])
            self.rep.ob("renumber", site, okk, "the new number is the one the remapping gives for the old one: %s" % show(v)[:120])
            st.a = (None, st.a[1], st.a[2])

    def array(self, t):
        return any(x.k == "arg" and x.a[1] == self.arr for x in subterms(t))

    def on_exit(self, I, st, fn, v):
        a = [x for x in st.f if x.k == "arg" and x.a[1] == self.arr]
        none = any(st.f[x] == "None" for x in a)
        self.rep.ob("renumber", "exit of " + fn.path, none or st.a[1], "all the records are renumbered when there is a remapping")


class RemapInlines(Remap):
    what, field, arr = "inlines", "call_file_id", "file_remapping"
    optional = True

    def on_write(self, I, st, cell, path, v, site, fn):
        v = I.resolve(st, v)
        if len(path) > 1 and path[-2] == ("f", "inlines") and path[-1][0] == "i":
            self.pair(I, st, site, I.resolve(st, path[-1][1]), v)
            st.a = (None, st.a[1], True)
        elif path and path[-1] == ("f", "inlines"):
            if v.k == "coll":
                st.a = (st.a[0], st.a[1], True)
            elif v.k == "new":
                pass
            else:
                self.rep.ob("renumber", site, v.k in ("coll", "phi"), "the inline records are replaced by the renumbered ones")

    def mapped(self, I, st, ev, v):
        """The pair (site, ranges) that replaces an inline record."""
        if not (v.k == "agg" and v.a[0] == "()" and len(v.a[3]) == 2):
            self.rep.ob("renumber", ev.site() + " pair", False, "each record is replaced by a renumbered one: %s" % show(v)[:100])
            return
        self.pair(I, st, ev.site(), I.resolve(st, v.a[3][0]), I.resolve(st, v.a[3][1]))

    def pair(self, I, st, site, s, r):
        e = s.a[0] if s.k == "rec" else None
        if s.k == "agg":
            f = dict(zip(s.a[2], s.a[3]))
            b = [x for x in f.values() if x.k == "fld"]
            e = b[0].a[0] if b else None
        else:
            f = dict(s.a[1]) if s.k == "rec" else {}
            e = s.a[0] if s.k == "rec" else s
        new = f.get(self.field)
        none = any(x.k == "arg" and x.a[1] == self.arr and y == "None" for x, y in st.f.items())
        if new is None or new.k == "fld":
            okk = none and (new is None or new.a[1] == self.field)
            why = "a record keeps its number when there is no remapping"
        else:
            o = uncast(new.a[1]) if new.k == "idx" else None
            okk = o is not None and o.k == "fld" and o.a[1] == self.field and o.a[0] is e and self.array(new.a[0])
            why = "the new number is the one the remapping gives for the old one: %s" % show(new)[:120]
        self.rep.ob("renumber", site + " " + self.field + (" kept" if new is None else ""), okk, why)
        self.rep.ob("renumber", site + " ranges", r.k == "idx" and r.a[1] is e or r.k == "fld" and r.a[0] is e, "the address ranges are those of the same record: %s" % show(r)[:80])
        keep = [k for k in f if k not in ("call_file_id", "inline_origin_id") and f[k].k != "fld"]
        self.rep.ob("renumber", site + " others", not keep, "the other parts of the record don't change: %s" % keep)

    def on_exit(self, I, st, fn, v):
        self.rep.ob("renumber", "exit of " + fn.path, st.a[2] or st.a[1], "the renumbered records replace the old ones")


class Merge(ids.Merge):
    kinds = ("lines", "inlines")

    def remap_args(self, I, st, ev, k):
        a = I.resolve(st, ev.args[1])
        self.rep.ob("remap", ev.site() + " files", self.fromfiles(I, a), "the new file numbers are those given by the merge of the tables: %s" % show(a)[:120])

    def fromfiles(self, I, a):
        if a.k == "agg" and a.a[1] == "Some" and a.a[0] == models.OPT:
            a = a.a[3][0]
        if a.k == "omap":
            a = a.a[0]
        if a.k == "pay":
            a = a.a[0]
        if not is_call(a, "SourceMap::merge"):
            return False
        l, r = cargs(a)
        return field_of(l) == "files" and field_of(r) == "files" and l is not r

    def on_exit(self, I, st, fn, v):
        s = st.copy()
        if not I.assume_variant(s, v, "Ok"):
            return
        x = v.a[3][0] if v.k == "agg" else models.pay(v, "Ok", "0")
        f = I.resolve(s, I.proj(s, x, ("f", "files")))
        al = I.alts(f) if f.k != "fld" else [b for a in I.alts(x) if not (a.k == "agg" and a.a[1] == "Err") for b in I.alts(I.resolve(s, I.proj(s, a, ("f", "files"))))]
        self.rep.ob("remap", "exit of merge", all(a.k == "upd" and "SourceMap::merge" in a.a[1] and a.a[3] == 0 for a in al), "the file table of the result is the merged one: %s" % show(f)[:120])


class Build(CRule):
    """The table of the module is the one the numbers were taken from."""
    opaque = ("Collector::collect_functions", "Collector::collect_placeholder_functions", "Collector::collect_publics", "SourceFiles::get_mapping",
              "symbol::add_executable_section_symbols", "symbol::get_compressed_minidebuginfo", "object_info::get_stack_info", "InlineOrigins::get_list")
    field, fun = "files", "SourceFiles::get_mapping"

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if adt == "dump_syms::object_info::ObjectInfo":
            v = I.resolve(st, vals[list(names).index(self.field)])
            okk = all(is_call(a, self.fun) and any(x.k == "upd" and "collect_functions" in x.a[1] for x in I.sources(a)) for a in I.alts(v))
            self.rep.ob("build", site + " " + self.field, okk, "the table of the module is the one filled by the collection: %s" % show(v)[:100])


class Mapping(CRule):
    def on_exit(self, I, st, fn, v):
        v = I.resolve(st, v)
        for n in ("ref_to_id", "id_to_ref"):
            x = I.resolve(st, I.proj(st, v, ("f", n)))
            self.rep.ob("build", "exit of get_mapping " + n, x.k == "fld" and x.a[1] == n and x.a[0].k == "arg", "the tables are kept as they are: %s" % show(x)[:80])


class Path(CRule):
    """The path of a source file."""
    opaque = ("Platform::join_paths", "Platform::is_absolute_path", "utils::normalize_path", "SourceFiles::path_to_string")

    def sticky(self, t, v):
        return isinstance(v, bool)

    def on_exit(self, I, st, fn, v):
        al = I.alts(I.resolve(st, v))
        for a in al:
            self.rep.ob("path", "exit of get_path", self.text(I, st, a), "the path is made of the directory and the name of the file: %s" % show(a)[:160])

    def text(self, I, st, t):
        while True:
            if t.k == "call" and short(t.a[0]) in ("Path::to_string_lossy", "PathBuf::from", "ToString::to_string", "String::from", "Cow::into_owned", "Path::display", "From::from", "utils::normalize_path",
                                                  "Path::new", "AsRef::as_ref", "Deref::deref", "OsStr::to_string_lossy", "PathBuf::as_path"):
                t = t.a[1][0]
            elif t.k == "path" and len(t.a[0] if isinstance(t.a[0], tuple) else t.a) == 1:
                t = (t.a[0] if isinstance(t.a[0], tuple) else t.a)[0]
            elif t.k in ("unwrap_or", "okor", "unwrap_or_else"):
                return all(self.text(I, st, x) for x in t.a if isinstance(x, T))
            elif t.k == "pay" and is_call(t.a[0], "fs::canonicalize", "Path::canonicalize"):
                t = cargs(t.a[0])[0]
            elif t.k == "okof" and is_call(t.a[0], "fs::canonicalize", "Path::canonicalize"):
                t = cargs(t.a[0])[0]
            elif t.k == "phi":
                al = [a for a in I.alts(t)]
                return bool(al) and all(a is not t and self.text(I, st, a) for a in al)
            elif t.k == "fmt" and len(t.a[0]) == 1 and t.a[0][0][0] == "arg":
                t = t.a[0][0][3]
            else:
                break
        if is_call(t, "Platform::join_paths"):
            _, d, n = cargs(t)
            return is_call(n, "FileInfo::name_str") and all(self.dir(I, st, x) for x in I.alts(d))
        return False

    def dir(self, I, st, d):
        if is_call(d, "FileInfo::dir_str"):
            return True
        if is_call(d, "Platform::join_paths"):
            _, c, x = cargs(d)
            return is_call(x, "FileInfo::dir_str") and is_call(c, "SourceFiles::path_to_string") and cargs(c)[0].k == "arg"
        return False

    def on_call(self, I, st, ev):
        if ev.name == "Platform::join_paths":
            a = [I.resolve(st, x) for x in ev.args]
            if is_call(a[2], "FileInfo::dir_str"):
                ab = [v for t, v in st.f.items() if is_call(t, "Platform::is_absolute_path")]
                self.rep.ob("path", ev.site(), ab == [False], "the compilation directory is only put before a relative directory")
            if is_call(a[2], "FileInfo::name_str"):
                ab = [v for t, v in st.f.items() if is_call(t, "Platform::is_absolute_path") and is_call(cargs(t)[1], "FileInfo::dir_str")]
                em = I.known(st, models.is_empty(mk("arg", 2, "compilation_dir")))
                em = em if em is not None else next((v for t, v in st.f.items() if any(x.k == "arg" and x.a[1] == "compilation_dir" for x in subterms(t))), None)
                plain = all(is_call(x, "FileInfo::dir_str") for x in I.alts(a[1]))
                if plain:
                    self.rep.ob("path", ev.site() + " relative", ab == [True] or em is True, "a relative directory is put after the compilation directory")
        return None


class Join(CRule):
    """A directory and what is in it. Only separators are removed, and one is put between the two."""

    def __init__(self, rep):
        super().__init__(rep)
        self.got = []

    def sticky(self, t, v):
        return isinstance(v, bool) or t.k == "arg"

    def on_exit(self, I, st, fn, v):
        self.got.append((I.resolve(st, v), dict(st.f)))

    def seps(self, p):
        if p.k in ("char", "str"):
            return {str(p.a[0])}
        if p.k == "agg" and p.a[0] == "[]":
            return {c for x in p.a[3] for c in (self.seps(x) or {"?"})}
        return None

    def after(self, I):
        for v, f in self.got:
            unix = next((x for t, x in f.items() if t.k == "arg" and t.a[1] == "self" and isinstance(x, str)), None) in ("Linux", "Mac")
            for a in I.alts(v):
                seen, todo = set(), [a]
                while todo:
                    for y in subterms(todo.pop()):
                        if y not in seen:
                            seen.add(y)
                            if y.k == "phi":
                                todo += list(I.phi_ops.get(y, ()))
                why = None
                side = lambda x: {y.a[1] for y in subterms(x) if y.k == "arg"}
                if not {"left", "right"} <= {y.a[1] for y in seen if y.k == "arg"}:
                    why = "one of the two isn't there"
                for y in seen:
                    if y.k != "call" or not short(y.a[0]).startswith("str::"):
                        continue
                    n, c = short(y.a[0])[5:], cargs(y)
                    if n in ("trim_end_matches", "trim_start_matches", "strip_suffix", "strip_prefix") and len(c) > 1:
                        ps = self.seps(c[1])
                        if side(c[0]) != ({"left"} if n in ("trim_end_matches", "strip_suffix") else {"right"}):
                            why = "%s at the wrong end" % n
                        elif ps is not None and not ps <= ({"/"} if unix else {"/", "\\", "//", "\\\\"}):
                            why = "what is removed isn't a separator: %s" % " ".join(sorted(ps))
                    elif n in ("replace", "replacen", "trim", "trim_end", "trim_start", "trim_matches", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "rsplit_once", "split_once"):
                        why = "the text is changed: %s" % n
                if a.k == "fmt" and not why:
                    order = [sorted(side(tk[3]))[:1] for tk in a.a[0] if tk[0] == "arg" and side(tk[3])]
                    lits = "".join(tk[1] for tk in a.a[0] if tk[0] == "lit")
                    if order not in ([["left"], ["right"]],) and len(order) == 2:
                        why = "the directory comes first"
                    whole = all(tk[0] == "lit" or side(tk[3]) for tk in a.a[0])
                    first = [x for t, x in f.items() if is_call(t, "str::starts_with") and side(t) == {"left"} and isinstance(x, bool)]
                    if whole and len(order) == 2:
                        want = {"/"} if unix or first == [True] else {"\\"} if first == [False] else {"/", "\\"}
                        if lits not in want:
                            why = "the separator is %r" % lits
                self.rep.ob("path", "platform::Platform::join_paths", why is None, "a directory and a name are joined as they are%s" % (": " + why if why else ""))


class Norm(CRule):
    """The components are kept, apart from . and .. Automaton: what the component is, what was done for it."""

    def after(self, I):
        pass

    def initial(self):
        return (None, frozenset())

    def mine(self, t):
        return t.k == "elem" and any(is_call(x, "Path::components") for x in subterms(t.a[1]))

    def on_fact(self, I, st, t, v):
        if isinstance(v, str) and self.mine(t):
            st.a = (v, st.a[1])

    def done(self, st, ev):
        v, did = st.a
        if v is not None:
            want = {"Normal": {"push"}, "RootDir": {"push"}, "ParentDir": {"pop"}, "CurDir": set()}.get(v)
            if want is not None:
                self.rep.ob("path", "utils::normalize_path " + v, did == want, "a component %s is kept, removed or taken back as it should be: %s" % (v, ", ".join(sorted(did)) or "nothing"))
        st.a = (None, frozenset())

    def on_next(self, I, st, ev, it):
        self.done(st, ev)

    def on_elem(self, I, st, ev, it, v):
        self.done(st, ev)

    def on_end(self, I, st, ev, it):
        self.done(st, ev)

    def on_call(self, I, st, ev):
        n = ev.name.split("::")[-1]
        if ev.name in ("PathBuf::push", "PathBuf::pop", "Path::push", "Path::pop"):
            if n == "pop" or any(self.mine(x) for x in subterms(ev.args[1])):
                st.a = (st.a[0], st.a[1] | {n})
        return None


class Quiet(c10.Quiet):
    """Only the numbers of the records are of interest here."""

    def ob(self, rid, site, ok_, text, key=None):
        if rid in ("number", "every") or rid == "field" and any(k in site for k in ("LINE field 4", "INLINE field 3", "INLINE field 4")):
            return self.rep.ob("written", site, ok_, text, key)


def used_sites(ctx, rep, seen):
    for c in all_calls(ctx.prog):
        if c.path in (D + "line::Lines::add_line", D + "line::Lines::add_inline"):
            rep.ob("line", "%s (%s) known" % (c.sp, c.fn.path.replace(D, "")), (c.fn.path, c.sp) in seen, "the record is added where its numbers are known")
    for fn, proj, sp in all_writes(ctx.prog):
        for e in proj:
            if e[0] == "." and len(e) > 2 and (e[2], e[1]) in ((D + "line::Line", "file_id"), (D + "line::InlineSite", "call_file_id"), (D + "line::InlineSite", "inline_origin_id")):
                rep.ob("renumber", "%s (%s) %s" % (sp, fn.path.replace(D, ""), e[1]), "remap_" in fn.path, "the numbers are only changed by the renumbering")


def check(ctx):
    rep = ctx.rep
    rep.rule("number", "a file gets the number it already has, or the position where its path is added")
    rep.rule("table", "the numbers are remembered under the file they belong to, and the tables only grow")
    rep.rule("path", "the path is made of the directories and the name given by the debug info")
    rep.rule("line", "the number of a line or call record is the one of the file of that very line")
    rep.rule("pending", "each number handed out is used at once, so that both tables number the files alike")
    rep.rule("merge", "in a merge each file of the other table gets the number of the same path")
    rep.rule("renumber", "every record is renumbered with the remapping")
    rep.rule("remap", "the functions of the other file are renumbered before they join the table, with the remapping of the tables")
    rep.rule("build", "the table of the module is the one filled by the collection")
    rep.rule("written", "FILE records are numbered by their position and the records hold the numbers")
    run(ctx, GetId(rep), D + "source::SourceFiles::get_id")
    run(ctx, GetTrueId(rep), D + "source::SourceFiles::get_true_id")
    run(ctx, Path(rep), D + "source::SourceFiles::get_path")
    for r, root in ((Join(rep), D + "platform::Platform::join_paths"), (Norm(rep), D + "utils::normalize_path")):
        if root in ctx.prog.fns:
            I, _ = run(ctx, r, root)
            if I:
                r.after(I)
    seen = set()
    for root in ids.collect_roots():
        r = Collect(rep)
        run(ctx, r, root)
        r.after()
        seen |= r.sites
    used_sites(ctx, rep, seen)
    run(ctx, MapMerge(rep), D + "source::SourceMap::merge")
    run(ctx, Remap(rep), D + "symbol::Symbol::remap_lines")
    run(ctx, RemapInlines(rep), D + "symbol::Symbol::remap_inlines")
    ids.merge_root(ctx, Merge(rep))
    run(ctx, Build(rep), D + "object_info::ObjectInfo::from_object")
    run(ctx, Mapping(rep), D + "source::SourceFiles::get_mapping")
    r = c07.R(Quiet(rep))
    run(ctx, r, DISPLAY)
    r.after(())
    rep.floor("number", 4, "exits of the numbering functions")
    rep.floor("line", 4, "line and call records")
    rep.floor("merge", 3, "merge of the tables")
    rep.floor("renumber", 5, "renumbering")
    rep.floor("remap", 6, "additions of the symbols of the other file")
    rep.floor("path", 1, "paths")
    rep.floor("written", 4, "numbers written")
    rep.floor("build", 1, "tables")
