"""Offsets, sizes and names from the input are never trusted."""
from checklib import *
from checks.c16 import Graph, fields
import models

ASSUMPTIONS = ["numbers of elements in memory, positions in a string and the depth of a recursion are far from the limits of their types",
               "the libraries that parse the files report malformed ones with their results",
               "file names given by the command line or by a server are UTF-8 where they are shown"]
# where what comes from the input is handled: nothing may panic there
STRICT = ("src/object_info.rs", "src/symbol.rs", "src/line.rs", "src/collector.rs", "src/source.rs", "src/inline_origins.rs", "src/mac.rs", "src/platform.rs", "src/linux/", "src/windows/pdb.rs")
# where files are found and read: panics that name the file are its reports
LOOSE = ("src/utils.rs", "src/common.rs", "src/dumper.rs", "src/cache.rs", "src/windows/utils.rs")
IDS = ("file_id", "call_file_id", "inline_origin_id")
# functions of the libraries which give lengths and positions of what is in memory
SIZES = ("len", "str::find", "str::rfind", "Iterator::position", "Iterator::count", "Metadata::len", "FileEntry::uncompressed_size", "Vec::capacity", "char::len_utf8", "chars::count", "Iterator::rposition")
CUTS = {"str::split_at": 1, "[T]::split_at": 1, "[T]::split_at_mut": 1, "String::remove": 1, "String::insert": 1, "String::insert_str": 1, "String::split_off": 1, "String::truncate": 1,
        "Vec::remove": 1, "Vec::swap_remove": 1, "Vec::insert": 1, "Vec::split_off": 1, "String::replace_range": 1, "String::drain": 1, "Vec::drain": 1, "[T]::copy_within": 1,
        "[T]::rotate_left": 1, "[T]::rotate_right": 1, "[T]::chunks": 1, "[T]::chunks_exact": 1, "[T]::windows": 1, "[T]::swap": 1, "Bytes::slice": 1, "Bytes::split_to": 1}
ALLOC = {"Vec::with_capacity": 0, "String::with_capacity": 0, "Vec::reserve": 1, "String::reserve": 1, "Vec::resize": 1, "vec::from_elem": 1, "[T]::repeat": 1, "str::repeat": 1, "Vec::reserve_exact": 1}
PIECES = ("Path::file_name", "Path::extension", "Path::parent", "Path::file_stem", "Path::strip_prefix", "str::find", "str::rfind", "str::split_once", "str::rsplit_once", "str::strip_prefix", "str::strip_suffix",
          "str::parse", "[T]::get", "[T]::first", "[T]::last", "str::get", "converts::from_utf8", "String::from_utf8", "[T]::split_first", "[T]::split_last", "TryInto::try_into", "TryFrom::try_from",
          "str::from_utf8", "FromStr::from_str", "CStr::from_bytes_until_nul", "[T]::get_mut")
PARSERS = ("symbolic", "goblin", "pdb::", "cab::", "lzma_rs", "gimli", "object::", "scroll", "serde_json", "msvc_demangler", "cpp_demangle", "rustc_demangle")


def src(fn):
    return (fn.sp or "").split(":")[0] if isinstance(fn.sp, str) else (fn.sp[0] if fn.sp else "")


def strip(t):
    while t.k == "cast":
        t = t.a[-1]
    return t


def num(t):
    return t.a[0] if t.k == "int" and isinstance(t.a[0], int) else None


def ascii_char(t):
    """The lengths of a pattern when it is known: {bytes}"""
    if t.k == "str":
        return {len(t.a[0].encode())}
    if t.k in ("char", "int", "const"):
        v = t.a[0]
        if isinstance(v, str) and len(v) == 1:
            return {len(v.encode())}
        if isinstance(v, int):
            return {1 if v < 128 else 2}
    if t.k == "agg" and t.a[0] in ("[]", "array"):
        r = [ascii_char(x) for x in t.a[3]]
        return set().union(*r) if r and all(r) else None
    return None


class Trust(CRule):
    FINDER = "windows::utils::find_pe_for_pdb"

    def __init__(self, rep, prog, root, inl, depth):
        super().__init__(rep)
        self.prog, self.root, self.inl, self.depth = prog, root, inl, depth
        self.ranges = []
        self.later = []

    def inline(self, path):
        return path == self.root or "{closure" in path or path in self.inl

    def sticky(self, t, v):
        if v == "Ok" and is_call(t, "PeObject::parse") or v is True and t.k == "bin" and t.a[0] == "Eq" and any(is_call(x, "PeObject::debug_id") for x in t.a[1:]):
            return True
        if isinstance(v, bool) and t.k == "fld" and "sorted" in t.a[1]:
            return True
        return v is True and is_call(t, "str::starts_with", "str::is_char_boundary", "str::is_ascii")

    # ------------------------------------------------------------ facts
    def le(self, I, st, y, x, d=0):
        """y <= x is known."""
        if y is x:
            return True
        sx, sy = strip(x), strip(y)
        if sx is sy and x.k == y.k:
            return True
        a, b = num(sy), num(sx)
        if a == 0 or a is not None and b is not None and a <= b:
            return True
        if b in (2**16 - 1, 2**32 - 1, 2**64 - 1) and x.k == "int":
            return True
        if sy.k == "elem" and self.within(sy, sx) or a is not None and sx.k == "elem" and self.within(sx, None, a):
            return True
        if d > 3:
            return False
        for t, v in st.f.items():
            if t.k == "bin" and len(t.a) == 3:
                o, p, q = t.a
                if o == "Lt" and (p is y and q is x and v is True or p is x and q is y and v is False):
                    return True
                if o == "Le" and (p is y and q is x and v is True or p is x and q is y and v is False):
                    return True
                if o in ("Gt", "Ge") and (p is x and q is y and v is True or p is y and q is x and v is False):
                    return True
                if o == "Eq" and v is True and (p is x and q is y or p is y and q is x):
                    return True
                if o in ("Lt", "Le") and a is not None and q is x and v is True and num(p) is not None and num(p) + (o == "Lt") >= a:
                    return True
                if o == "Lt" and a is not None and p is x and v is False and num(q) is not None and num(q) >= a:
                    return True
            if a is not None and t is x and isinstance(v, T) and num(v) is not None and num(v) >= a:
                return True
        if a == 1 and any(t.k == "bin" and t.a[0] == "Eq" and v is False and {0} == {num(z) for z in t.a[1:] if num(z) is not None} and x in t.a[1:] for t, v in st.f.items()):
            return True
        if is_call(x, "saturating_add", "max", "Ord::max", "cmp::max") or x.k == "call" and x.a[0].rsplit("::", 1)[-1] in ("saturating_add", "max"):
            return any(self.le(I, st, y, z, d + 1) for z in cargs(x)[:2])
        if x.k == "call" and x.a[0].rsplit("::", 1)[-1] == "unwrap_or" and len(cargs(x)) == 2:
            return self.le(I, st, y, mk("pay", cargs(x)[0], "Some", "0"), d + 1) and self.le(I, st, y, cargs(x)[1], d + 1)
        if y.k == "call" and y.a[0].rsplit("::", 1)[-1] in ("saturating_sub",):
            return self.le(I, st, cargs(y)[0], x, d + 1)
        if y.k == "call" and y.a[0].rsplit("::", 1)[-1] == "min":
            return any(self.le(I, st, z, x, d + 1) for z in cargs(y)[:2])
        if x.k == "pay" and x.a[1] == "Some" and x.a[0].k == "call" and x.a[0].a[0].rsplit("::", 1)[-1] == "checked_add":
            return any(self.le(I, st, y, z, d + 1) for z in cargs(x.a[0])[:2])
        if x.k == "bin" and x.a[0].startswith("Add"):
            return any(self.le(I, st, y, z, d + 1) for z in x.a[1:3])
        if y.k == "phi" and y in I.phi_ops and d < 2:
            return all(self.le(I, st, z, x, d + 2) for z in I.phi_ops[y])
        return False

    def within(self, e, n, low=None):
        """An element of a range: below its end n, not below low."""
        r = e.a[1]
        if r.k == "agg" and r.a[0].endswith("Range"):
            f = dict(zip(r.a[2], r.a[3]))
            if n is not None:
                return strip(f.get("end")) is n
            return num(strip(f.get("start"))) is not None and num(strip(f.get("start"))) >= low
        return False

    def lt(self, I, st, i, n):
        """i < n is known (n is a length)."""
        a = num(strip(i))
        i0 = strip(i)
        if i0.k == "elem" and self.within(i0, n):
            return True
        if i0.k == "bin" and i0.a[0].startswith("Sub") and num(strip(i0.a[2])) not in (None, 0) and (i0.a[1] is n or self.le(I, st, i0.a[1], n)):
            return True                # the difference itself is an obligation
        for t, v in st.f.items():
            if t.k == "bin" and len(t.a) == 3:
                o, p, q = t.a
                if o == "Lt" and v is True and strip(p) is i0 and q is n or o == "Le" and v is False and strip(q) is i0 and p is n:
                    return True
        if a is None:
            return False
        if is_call(n, "len"):
            s = cargs(n)[0]
            if s.k == "elem" and is_call(s.a[1], "[T]::windows", "[T]::chunks_exact", "[T]::array_windows"):
                k = num(cargs(s.a[1])[1])
                if k is not None and a < k:
                    return True
            if s.k == "agg" and s.a[0] == "[]" and a < len(s.a[3]):
                return True
            if a == 0 and self.filled(I, st, s):
                return True
            if self.boundary(I, st, s, mk("int", a + 1)):
                return True            # the bytes of a text that begins with as many
        return self.le(I, st, mk("int", a + 1), n)

    # ------------------------------------------------------------ what is trusted
    def counted(self, I, t, d=0):
        """A number of things in memory, a position, a depth."""
        t = strip(t)
        if num(t) is not None or t.k in ("const", "char"):
            return True
        if t.k in ("call", "site"):
            n = t.a[0] if t.k == "call" else t.a[1]
            if short(n) in SIZES or n in SIZES or any(n.endswith("::" + s.split("::")[-1]) and s.split("::")[-1] in ("uncompressed_size",) for s in SIZES):
                return True
            if n.rsplit("::", 1)[-1] in ("unwrap_or", "min", "max", "saturating_sub", "unwrap_or_default", "map_or"):
                return (any if n.rsplit("::", 1)[-1] == "min" else all)(self.counted(I, x, d + 1) for x in cargs(t) if x.k not in ("closure",))
            return n.startswith("dump_syms::") and n in self.prog.fns
        if t.k == "elem":
            return str(t.a[2] if len(t.a) > 2 else "") == "#" or any(is_call(x, "str::char_indices", "str::match_indices") for x in subterms(t.a[1])) or t.a[1].k == "agg" and "range" in t.a[1].a[0].lower() and all(self.counted(I, x) for x in t.a[1].a[3])
        if t.k == "pay":
            return self.counted(I, t.a[0], d + 1)
        if t.k == "fld":
            if t.a[1] in IDS:
                return True
            if t.a[1] in ("0", "1"):
                return self.counted(I, t.a[0], d + 1)
            return False
        if t.k == "bin":
            return all(self.counted(I, x, d + 1) for x in t.a[1:3])
        if t.k == "arg":
            return t.a[1] in self.depth.get(t.a[0], ())
        if t.k == "phi":
            if d > 5:
                return True
            return all(self.counted(I, x, d + 3) for x in I.phi_ops.get(t, ()))
        if t.k == "omap":
            return all(self.counted(I, x, d + 1) for x in t.a if isinstance(x, T))
        return False

    def ident(self, I, t):
        """An index made by the tool itself (C08 and C09 decide that it is the right one)."""
        t = strip(t)
        if t.k == "fld" and t.a[1] in IDS:
            return True
        if t.k == "arg" and ("source::Source" in t.a[0] or "InlineOrigins" in t.a[0]):
            return True
        if t.k == "fld" and t.a[1] in ("1", "0") or t.k in ("idx", "elem"):
            return any(x.k == "fld" and x.a[1] in ("ref_to_id", "index_for_mangled_name", "cache") for x in subterms(t))
        if t.k == "phi":
            return all(self.ident(I, x) for x in I.phi_ops.get(t, ()) if x is not t)
        return False

    # ------------------------------------------------------------ positions in a text
    def boundary(self, I, st, s, p, d=0):
        p0, s0 = strip(p), s
        n = num(p0)
        if n == 0 or is_call(p0, "len") and cargs(p0)[0] is s0:
            return True
        if s0.k == "str" and n is not None and n <= len(s0.a[0]) and s0.a[0][:n].isascii():
            return True
        if p0.k == "pay" and p0.a[1] == "Some" and is_call(p0.a[0], "str::find", "str::rfind") and cargs(p0.a[0])[0] is s0:
            return True
        if p0.k == "bin" and p0.a[0].startswith("Add"):
            for x, y in (p0.a[1:3], p0.a[2:0:-1]):
                c, f = num(strip(y)), strip(x)
                if f.k == "pay" and is_call(f.a[0], "str::find", "str::rfind") and cargs(f.a[0])[0] is s0:
                    pat = cargs(f.a[0])[1]
                    if c is not None and ascii_char(pat) == {c} or is_call(strip(y), "len") and cargs(strip(y))[0] is pat:
                        return True
        if p0.k == "call" and p0.a[0].rsplit("::", 1)[-1] == "unwrap_or":
            return self.boundary(I, st, s, mk("pay", cargs(p0)[0], "Some", "0"), d + 1) and self.boundary(I, st, s, cargs(p0)[1], d + 1)
        if p0.k == "elem" and any(is_call(x, "str::char_indices", "str::match_indices") for x in subterms(p0)):
            return True
        if p0.k == "fld" and p0.a[1] == "0" and any(is_call(x, "str::char_indices", "str::match_indices") and cargs(x)[0] is s0 for x in subterms(p0)):
            return True
        if p0.k == "phi" and d < 3:
            return bool(I.phi_ops.get(p0)) and all(self.boundary(I, st, s, x, d + 1) for x in I.phi_ops[p0] if x is not p0)
        if p0.k == "omap" and d < 3:
            return False
        asc = False
        for t, v in st.f.items():
            if is_call(t, "str::is_char_boundary") and v is True and cargs(t)[0] is s0 and strip(cargs(t)[1]) is p0:
                return True
            if is_call(t, "str::is_ascii", "[T]::is_ascii") and v is True and cargs(t)[0] is s0:
                asc = True
            if is_call(t, "str::starts_with") and v is True and cargs(t)[0] is s0 and n is not None:
                ls = ascii_char(cargs(t)[1])
                if ls == {n}:
                    return True
                pat = cargs(t)[1]
                if pat.k == "str" and pat.a[0].isascii() and n <= len(pat.a[0]):
                    return True
            if is_call(t, "str::strip_prefix") and v == "Some" and cargs(t)[0] is s0 and n is not None and ascii_char(cargs(t)[1]) == {n}:
                return True
            if t.k == "bin" and t.a[0] == "Eq" and v is True and n is not None and any(z.k == "str" for z in t.a[1:]):
                w = [z for z in t.a[1:] if z.k == "str"][0].a[0]
                o = [z for z in t.a[1:] if z.k != "str"]
                if o and o[0] is s0 and n <= len(w.encode()) and w.isascii():
                    return True
        return asc and self.le(I, st, p, mk("call", "len", (s0,)))

    def bounds(self, r):
        """(start, end) of a range, None for an open end."""
        if r.k == "agg" and "ange" in r.a[0]:
            f = dict(zip(r.a[2], r.a[3]))
            k = r.a[0].rsplit("::", 1)[-1]
            return f.get("start"), f.get("end"), "Inclusive" in k
        return None

    def same_len(self, I, base, field=None):
        """The sequence before it was sorted or its elements were changed in place: all of these have the same length,
        or None. With a field: only changes of other fields are looked through."""
        seen, stack, ends = set(), [base], set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "puti" and (field is None or x.a[2].k == "rec" and all(k != field for k, _ in x.a[2].a[1])):
                stack.append(x.a[0])
            elif x.k == "sorted" and field is None:
                stack.append(x.a[0])
            elif x.k == "phi" and I.phi_ops.get(x):
                stack.extend(I.phi_ops[x])
            else:
                ends.add(x)
        return (seen, ends)

    def lens(self, I, base):
        seen, ends = self.same_len(I, base)
        return [mk("call", "len", (x,)) for x in (seen if len(ends) == 1 else (base,))]

    def cut(self, I, st, base, r, text):
        if not text:
            return any(self.cut_(I, st, base, r, text, n) for n in self.lens(I, base))
        return self.cut_(I, st, base, r, text, None)

    def cut_(self, I, st, base, r, text, n):
        if text and base.k == "elem" and base.a[1].k == "agg" and base.a[1].a[0] == "[]" and base.a[1].a[3] and all(x.k == "str" for x in base.a[1].a[3]):
            # one of some constants
            return all(self.cut_(I, st, x, r, text, n) for x in base.a[1].a[3])
        b = self.bounds(r)
        if b is None:
            if r.k in ("const",) or r.k == "agg" and r.a[0].endswith("RangeFull"):
                return True
            if text:
                return self.boundary(I, st, base, r)
            return self.ident(I, r) or self.lt(I, st, r, n)
        s, e, inc = b
        if inc:
            return False
        if text:
            ok = all(x is None or self.boundary(I, st, base, x) for x in (s, e))
            if ok and s is not None and e is not None:
                ok = self.le(I, st, s, e) or num(s) == 0
            return ok
        ok = e is None or self.le(I, st, e, n)
        if s is not None:
            ok = ok and self.le(I, st, s, e if e is not None else n)
        return ok

    # ------------------------------------------------------------ hooks
    def strict(self, fn):
        return src(fn).startswith(STRICT)

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if self.root.endswith(self.FINDER) and variant == "Some" and adt.endswith("Option"):
            v = I.resolve(st, vals[0])
            if v.k == "agg" and len(v.a[3]) == 2:
                b = v.a[3][1]
                self.later.append(("found", "%s (%s)" % (site, fn.path.replace("dump_syms::", "")), None, (b,), st.copy()))
        if adt == "core::ops::range::Range":
            v = dict(zip(names, [I.resolve(st, x) for x in vals]))
            if "start" in v:
                self.ranges.append((site, self.le(I, st, v["start"], v["end"])))

    def on_assert(self, I, st, t, c, ops, fn):
        k, site = t["k"], "%s (%s)" % (t.get("sp"), fn.path.replace("dump_syms::", ""))
        if I.known(st, models.tobool(c)) is bool(t["e"]) if hasattr(I, "known") else False:
            return
        if k.startswith("overflow:"):
            op = k.split(":")[1]
            self.later.append(("arith", site, op, ops, st.copy()))
        elif k == "bounds":
            n, i = ops[0], ops[1]
            ok = self.ident(I, i) or self.lt(I, st, i, n)
            self.later.append(("index", site, ok, (n, i), st.copy()))
        elif k in ("divzero", "remzero", "div", "rem") or "zero" in k:
            d = ops[-1] if ops else None
            self.rep.ob("arith", site, d is not None and num(d) not in (None, 0), "the divisor isn't zero: %s" % (show(d) if d is not None else ""))

    def on_call(self, I, st, ev):
        n = ev.name
        last = ev.path.rsplit("::", 1)[-1]
        if n in ("Index::index", "IndexMut::index_mut"):
            ty = ev.targs[0]["s"] if ev.targs else ""
            ty = ty.lstrip("&").replace("mut ", "")
            if "HashMap" in ty or "BTreeMap" in ty or "serde_json" in ty:
                base = I.resolve(st, ev.raw[0])
                self.rep.ob("index", ev.site(), any(t.k == "has" or is_call(t, "HashMap::contains_key", "BTreeMap::contains_key") and v is True for t, v in st.f.items()), "a key that is looked up with an index exists: %s" % show(base)[:80])
                return None
            self.later.append(("cut", ev.site(), ty in ("str", "alloc::string::String"), (I.resolve(st, ev.raw[0]), I.resolve(st, ev.raw[1])), st.copy()))
        elif n in CUTS:
            i = CUTS[n]
            if i < len(ev.raw):
                a = I.resolve(st, ev.raw[i])
                if n in ("[T]::chunks", "[T]::chunks_exact", "[T]::windows"):
                    self.rep.ob("cut", ev.site(), num(a) not in (None, 0), "the size of the pieces isn't zero: %s" % show(a)[:80])
                else:
                    self.later.append(("cut", ev.site(), n.startswith(("str", "String")), (I.resolve(st, ev.raw[0]), a), st.copy()))
        elif n in ALLOC or short(ev.path) in ALLOC:
            i = ALLOC.get(n, ALLOC.get(short(ev.path)))
            if i < len(ev.raw):
                self.later.append(("room", ev.site(), None, (I.resolve(st, ev.raw[i]),), st.copy()))
        elif last.startswith(("wrapping_", "overflowing_", "unchecked_")) and "num" in ev.path or last in ("get_unchecked", "get_unchecked_mut", "from_raw_parts", "unwrap_unchecked"):
            self.rep.ob("arith", ev.site(), False, "nothing wraps around: %s" % n)
        elif last in ("copy_from_slice", "clone_from_slice", "copy_nonoverlapping"):
            a, b = (I.resolve(st, x) for x in ev.raw[:2])
            self.rep.ob("cut", ev.site(), any(t.k == "bin" and t.a[0] == "Eq" and v is True and all(is_call(z, "len") for z in t.a[1:]) for t, v in st.f.items()), "the two slices have the same length: %s" % show(b)[:80])
        return None

    def on_panic(self, I, st, ev, why):
        if why == "unwrap":
            v = I.resolve(st, ev.raw[0])
            self.later.append(("unwrap", ev.site(), ev, (v, ev.args[0] if ev.args else v), st.copy()))
        elif self.strict(ev.fn):
            self.rep.ob("panic", ev.site(), False, "nothing panics on what was read: %s" % (show(ev.args[0])[:100] if ev.args else why))

    # ------------------------------------------------------------ decisions, when the joins are complete
    def after(self, I):
        rep = self.rep
        for kind, site, x, ops, st in self.later:
            if kind == "arith":
                ok = False
                if x == "Sub":
                    # (the count of the files: C01)
                    ok = self.minus(I, st, *ops) or is_call(strip(ops[0]), "Atomic::fetch_sub", "AtomicUsize::fetch_sub") and num(ops[1]) == 1
                elif x in ("Add", "Mul"):
                    ok = all(self.counted(I, o) for o in ops) or x == "Add" and self.below(I, st, ops)
                elif x in ("Shl", "Shr"):
                    ok = num(strip(ops[-1])) is not None
                elif x == "Neg":
                    ok = num(strip(ops[0])) is not None
                rep.ob("arith", site, ok, "%s doesn't overflow: %s" % (x, " , ".join(show(o)[:90] for o in ops)))
            elif kind == "index":
                n, i = ops
                ok = x or self.ident(I, i) or self.lt(I, st, i, n)
                rep.ob("index", site, ok, "an index is in the bounds: %s of %s" % (show(i)[:90], show(n)[:90]))
            elif kind == "cut":
                base, r = ops
                ok = self.cut(I, st, base, r, x) or not x and self.owned(I, base, r)
                rep.ob("cut", site, ok, "a %s is cut at a known position: %s at %s" % ("text" if x else "sequence", show(base)[:80], show(r)[:120]))
            elif kind == "room":
                rep.ob("room", site, self.room(I, ops[0]), "the room that is asked for doesn't come from the input: %s" % show(ops[0])[:120])
            elif kind == "found":
                b = set(I.alts(ops[0]))
                ok = any(is_call(t, "PeObject::parse") and v == "Ok" and set(I.alts(cargs(t)[0])) == b for t, v in st.f.items())
                for t, v in st.f.items():
                    if t.k == "bin" and t.a[0] == "Eq" and v is True:
                        for y in subterms(t):
                            if is_call(y, "PeObject::debug_id"):
                                ps = [p.a[0] for p in I.alts(cargs(y)[0]) if p.k == "pay" and p.a[1] in ("Ok", "Some")]
                                ps = [cargs(p)[0] if is_call(p, "Result::ok") else p for p in ps]
                                ok = ok or bool(ps) and len(ps) == len(set(I.alts(cargs(y)[0]))) and all(is_call(p, "PeObject::parse") for p in ps) and {z for p in ps for z in I.alts(cargs(p)[0])} == b
                rep.ob("unwrap", site, ok, "a PE file that is found next to a PDB can be parsed: %s" % show(ops[0])[:100])
            elif kind == "unwrap":
                self.unwrapped(I, site, x, ops, st)

    def owned(self, I, base, r):
        return self.ident(I, r)

    def room(self, I, t):
        if t.k == "phi" and I.phi_ops.get(t):
            return all(x is t or self.room(I, x) for x in I.alts(t))
        if t.k == "fld" and t.a[1] == "num_jobs":      # the user's number
            return True
        if t.k == "call" and t.a[0].rsplit("::", 1)[-1] in ("max", "min") and all(self.room(I, x) for x in cargs(t)):
            return True
        return self.counted(I, t) or t.k == "bin" and all(self.room(I, x) for x in t.a[1:3]) or t.k == "arg"

    def below(self, I, st, ops):
        """x + c with x < something of the same type."""
        for x, c in (ops, ops[::-1]):
            if num(strip(c)) == 1 and any(t.k == "bin" and t.a[0] == "Lt" and v is True and t.a[1] is x for t, v in st.f.items()):
                return True
            for t, v in st.f.items():          # c <= MAX - x
                if t.k == "bin" and t.a[0] in ("Lt", "Le"):
                    hi, lo = (t.a[2], t.a[1]) if v is True else (t.a[1], t.a[2])
                    if lo is c and hi.k == "bin" and hi.a[0].startswith("Sub") and num(hi.a[1]) in (2**16 - 1, 2**32 - 1, 2**64 - 1) and hi.a[2] is x:
                        return True
        return False

    def minus(self, I, st, x, y):
        if self.le(I, st, y, x):
            return True
        l = strip(x)
        if num(y) == 1 and l.k == "call" and l.a[0] == "len" and models.pushed(l.a[1][0]) is not None:
            return True
        # the two ends of a range made in order
        if x.k == "fld" and y.k == "fld" and x.a[1] == "end" and y.a[1] == "start" and x.a[0] is y.a[0]:
            return bool(self.ranges) and all(ok for _, ok in self.ranges)
        # the neighbours of a sorted sequence
        if x.k == "fld" and y.k == "fld" and x.a[1] == y.a[1] and x.a[0].k == "idx" and y.a[0].k == "idx" and x.a[0].a[0] is y.a[0].a[0]:
            w = x.a[0].a[0]
            a, b = num(x.a[0].a[1]), num(y.a[0].a[1])
            p, q = strip(x.a[0].a[1]), strip(y.a[0].a[1])
            if q.k == "bin" and q.a[0].startswith("Sub") and strip(q.a[1]) is p:
                return self.sorted_by(I, st, w, x.a[1])
            if w.k == "elem" and is_call(w.a[1], "[T]::windows") and a is not None and b is not None and a >= b:
                return self.sorted_by(I, st, cargs(w.a[1])[0], x.a[1])
        if x.k == "fld" and y.k == "fld" and x.a[1] == y.a[1] and x.a[0].k == "elem" and y.a[0].k == "elem" and x.a[0].a[:2] == y.a[0].a[:2] and str(x.a[0].a[2]).startswith("+") and y.a[0].a[2] == "":
            return self.sorted_by(I, st, x.a[0].a[1], x.a[1])
        # a symbol found below the address
        if y.k == "fld" and y.a[1] == "rva" or y.k in ("elem",):
            for r in subterms(y):
                if is_call(r, "BTreeMap::range"):
                    b = cargs(r)[1] if len(cargs(r)) > 1 else None
                    if b is not None and x in subterms(b):
                        e = b.a[3][-1] if b.k == "agg" and b.a[3] else None
                        return e is not None and x in subterms(e)
        return self.counted(I, x) and self.counted(I, y) and False

    def sorted_by(self, I, st, s, f):
        for a in self.same_len(I, s, f)[1]:
            if a.k == "sorted":
                continue
            # the flag next to the sequence says that it is sorted (C12 decides that it tells the truth)
            own = a.a[0] if a.k == "fld" else None
            flag = any(v is True and t.k == "fld" and "sorted" in t.a[1] for t, v in st.f.items()) or any(v is True and t.k == "phi" and t.a[2] and "sorted" in str(t.a[2][-1]) for t, v in st.f.items())
            # or the joined value was sorted on this path
            if not flag and not (a is not s and any(x.k == "sorted" and x.a[0] is a for t in st.f for x in subterms(t))):
                return False
        return True

    def unwrapped(self, I, site, ev, ops, st):
        v = ops[1]
        strict = self.strict(ev.fn)
        h = v
        ok, why = False, ""
        if h.k in ("call", "site"):
            n = short(h.a[0] if h.k == "call" else h.a[1])
            full = h.a[0] if h.k == "call" else h.a[1]
            a = cargs(h)
            if n in ("[T]::first", "[T]::last", "[T]::split_last", "[T]::split_first", "[T]::split_last_mut", "[T]::split_first_mut", "[T]::first_mut", "[T]::last_mut", "Iterator::next", "Iterator::last", "Vec::pop") and a:
                ok = any(self.le(I, st, mk("int", 1), mk("call", "len", (x,))) for x in (a[0],)) or any(self.le(I, st, mk("int", 1), x) for x in self.lens(I, a[0])) or self.filled(I, st, a[0])
            elif n == "Path::to_str":
                ok = True
            elif n == "Path::parent":
                ok = a[0].k == "path" and len(a[0].a[0]) > 1
            elif n in ("String::from_utf8", "converts::from_utf8", "str::from_utf8"):
                ok = any(x.k == "upd" and "AsciiCfiWriter" in x.a[1] or is_call(x, "AsciiCfiWriter::new") for x in subterms(v)) and not any(x.k == "arg" for x in subterms(v))
                ok = ok or any("AsciiCfiWriter" in show(x) for x in (v,))
            elif n == "Regex::new":
                ok = all(x.k in ("str", "const") for x in a)
            if n == "PeObject::parse" and any(x.k in ("call", "site") and str(x.a[0] if x.k == "call" else x.a[1]).endswith(self.FINDER) for x in subterms(h)):
                ok = True              # decided where it is found
            if not strict and not ok:
                piece = n in PIECES or any(full.startswith(p) or "<" + p in full for p in PARSERS) or n.split("::")[0] in ("PeObject", "PdbObject", "Object", "ElfObject", "MachObject", "Archive", "Cabinet", "Cab", "MachArchive", "DebugId", "CodeId", "Uuid")
                if not piece:
                    ok = True
                if ev.fn.path.endswith("utils::get_filename"):
                    ok = True          # the path of the command line
        elif not strict:
            ok = True
        rep = self.rep
        rep.ob("unwrap", site, ok, "what is unwrapped is there for every input: %s" % show(v)[:140])

    def filled(self, I, st, s):
        """The ranges of an inline site: they are never empty (add_inline makes the list and puts a range in it)."""
        return any(x.k == "fld" and x.a[1] == "inlines" for x in subterms(s))


def depths(prog):
    """Arguments that only count the depth of a recursion: constants outside, the argument plus one inside."""
    out = {}
    for f in prog.fns.values():
        rec = [b["t"] for b in f.blocks if b.get("t", {}).get("t") == "call" and isinstance(b["t"]["f"], dict) and ((b["t"]["f"].get("k") or {}).get("fn") or {}).get("p") == f.path or
               b.get("t", {}).get("t") == "call" and isinstance(b["t"]["f"], dict) and ((b["t"]["f"].get("k") or {}).get("fn") or {}).get("r") == f.path]
        if rec:
            out[f.path] = rec
    res = {}
    for p, rec in out.items():
        f = prog.fns[p]
        outside = [c for c in all_calls(prog) if c.path == p and c.fn.path.split("::{closure")[0] != p]
        names = [l[1] if len(l) > 1 else None for l in f.locals]
        for i in range(f.argc):
            if outside and all(isinstance(c.args[i], dict) and "k" in c.args[i] and "int" in c.args[i]["k"] for c in outside):
                res.setdefault(p, set()).add(names[i + 1])
    return res


def check(ctx):
    rep, prog = ctx.rep, ctx.prog
    rep.rule("arith", "no sum, difference or product of what was read overflows or wraps: it is checked, saturating, or compared before")
    rep.rule("index", "no index is out of bounds: it is compared to the length before, or is an id the tool made itself")
    rep.rule("cut", "a text is only cut where a search found something or where its beginning is known, a sequence only within its length")
    rep.rule("room", "no room is reserved for a number of elements that only the input tells")
    rep.rule("unwrap", "nothing that a malformed input lacks is taken for granted")
    rep.rule("panic", "the functions that handle what was read have no panic")
    g = Graph(prog)
    scope = {f.path: f for f in prog.fns.values() if f.crate == "dump_syms" and src(f).startswith(STRICT + LOOSE) and "::promoted[" not in f.path and "{closure" not in f.path and f.blocks}
    callers = {}
    for a, s in g.out.items():
        for b in s:
            callers.setdefault(b, set()).add(a.split("::{closure")[0])
    dep = depths(prog)
    roots = []
    for p, f in sorted(scope.items()):
        cs = [c for c in callers.get(p, ()) if c != p]
        if not cs or f.pub or src(f) in ("src/dumper.rs", "src/cache.rs") or any(c not in scope or src(scope[c]) != src(f) for c in cs):
            roots.append(p)
    seen = set()
    for r in roots:
        f = prog.fns[r]
        if f.argc is None or "core::fmt::Debug" in r or "core::clone::Clone" in r or "::cmp::" in r or "core::hash" in r or "serde" in r:
            continue
        same = {p for p, x in scope.items() if src(x) == src(f) and p not in roots} if src(f) not in ("src/dumper.rs", "src/cache.rs") else set()
        t = Trust(rep, prog, r, same, dep)
        I, res = run(ctx, t, r)
        if I is not None:
            t.after(I)
            seen |= I.fns_seen
    for p in sorted(scope):
        rep.ob("panic", "covered: " + p, True, "analysed")
    rep.floor("panic", 80, "functions that handle the input")

