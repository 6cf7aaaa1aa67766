"""Models of the functions the analysed crate calls (core, alloc, std and its dependencies)."""
import re
from terms import *


class NullRule:
    def __getattr__(self, n):
        if n == "inline":
            return lambda *a: True
        if n == "sticky":
            return lambda *a: False
        return lambda *a, **k: None


class QuietRule(NullRule):
    write_errors = fork_values = sequential = False

    def initial(self):
        return ()

    def __getattr__(self, n):
        if n == "inline":
            return lambda *a: True
        if n == "sticky":
            return lambda *a: False
        if n in ("on_spawn", "on_unwound"):
            return lambda I, st, ev: st.a
        return lambda *a, **k: None


OPT, RES = "core::option::Option", "core::result::Result"


# ------------------------------------------------------------------ term constructors
def isconst(t):
    return t.k in ("int", "str", "bool", "bytes", "const") or (t.k == "agg" and not t.a[3])


def not_(t):
    if t.k == "bool":
        return mk("bool", not t.a[0])
    if t.k == "not":
        return t.a[0]
    return mk("not", t)


def length(v):
    if v.k in ("str",):
        return mk("int", len(v.a[0].encode()))
    if v.k == "bytes":
        return mk("int", len(v.a[0]))
    if v.k == "agg" and v.a[0] == "[]":
        return mk("int", len(v.a[3]))
    if v.k == "new":
        return mk("int", 0)
    return mk("call", "len", (v,))


def pushed(v):
    """The sequence before its last addition."""
    if v.k == "upd" and re.sub(r"\[\d+\]$", "", v.a[1]).endswith("Vec::push"):
        return v.a[2][0]
    return None


def is_empty(v):
    return eq(length(v), mk("int", 0))


def eq(a, b):
    if a is b:
        return TRUE
    if b.k == "bool":
        a, b = b, a
    if a.k == "bool":
        return b if a.a[0] else not_(b)
    if isconst(a) and isconst(b) and a.k in ("int", "str", "bool", "bytes", "agg") and b.k == a.k:
        return FALSE
    if {a.k, b.k} == {"str", "bytes"}:
        s, y = (a, b) if a.k == "str" else (b, a)
        return mk("bool", tuple(s.a[0].encode()) == y.a[0])
    if a.k == "agg" and b.k == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a[3]) == len(b.a[3]):
            r = TRUE
            for x, y in zip(a.a[3], b.a[3]):
                r = and_(r, eq(x, y))
            return r
    # == "" is emptiness
    for x, y in ((a, b), (b, a)):
        if y.k == "str" and y.a[0] == "" and x.k != "str":
            return eq(length(x), mk("int", 0))
    # x - 1 == 0 is x == 1
    for x, y in ((a, b), (b, a)):
        if y.k == "int" and x.k == "bin" and x.a[0] == "Sub" and x.a[2].k == "int":
            return eq(x.a[1], mk("int", y.a[0] + x.a[2].a[0]))
    if b < a:
        a, b = b, a
    return mk("bin", "Eq", a, b)


def lt(a, b):
    if a.k == "int" and b.k == "int":
        return mk("bool", a.a[0] < b.a[0])
    if a is b:
        return FALSE
    if a.k == "int" and a.a[0] == 0 and b.k == "call" and b.a[0] == "len":
        return not_(eq(b, a))
    if b.k == "int" and b.a[0] == 1 and a.k == "call" and a.a[0] == "len":
        return eq(a, mk("int", 0))
    return mk("bin", "Lt", a, b)


def and_(a, b):
    if a.k == "bool":
        return b if a.a[0] else FALSE
    if b.k == "bool":
        return a if b.a[0] else FALSE
    if a is b:
        return a
    return mk("bin", "BitAnd", a, b)


def or_(a, b):
    if a.k == "bool":
        return TRUE if a.a[0] else b
    if b.k == "bool":
        return TRUE if b.a[0] else a
    if a is b:
        return a
    return mk("bin", "BitOr", a, b)


def binop(op, x, y):
    if op == "Eq":
        return eq(x, y)
    if op == "Ne":
        return not_(eq(x, y))
    if op == "Lt":
        return lt(x, y)
    if op == "Gt":
        return lt(y, x)
    if op == "Le":
        return not_(lt(y, x))
    if op == "Ge":
        return not_(lt(x, y))
    if op.endswith("WithOverflow"):
        o = op[:-12]
        return tup(binop(o, x, y), mk("ovf", o, x, y))
    if op.endswith("Unchecked"):
        op = op[:-9]
    if op == "BitAnd":
        if x.k == "int" and y.k == "int":
            return mk("int", x.a[0] & y.a[0])
        return and_(x, y)
    if op == "BitOr":
        if x.k == "int" and y.k == "int":
            return mk("int", x.a[0] | y.a[0])
        return or_(x, y)
    if x.k == "int" and y.k == "int":
        a, b = x.a[0], y.a[0]
        try:
            r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b,
                 "Div": lambda: a // b, "Rem": lambda: a % b}.get(op, lambda: None)()
            if r is not None and r >= 0:
                return mk("int", r)
        except ZeroDivisionError:
            pass
    if op in ("Add", "Sub") and y.k == "int" and y.a[0] == 0:
        return x
    if op == "Add" and x.k == "int" and x.a[0] == 0:
        return y
    if op == "Sub" and y.k == "int" and y.a[0] == 1:
        # one less than the length after an addition is the length before it
        l = x.a[1] if x.k == "cast" else x
        if l.k == "call" and l.a[0] == "len" and pushed(l.a[1][0]) is not None:
            r = length(pushed(l.a[1][0]))
            return cast(x.a[0], r) if x.k == "cast" else r
    if op in ("Add", "Mul") and y < x:
        x, y = y, x
    return mk("bin", op, x, y)


def cast(ty, v):
    if v.k == "int":
        bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i32": 31, "i64": 63}.get(ty)
        if bits and 0 <= v.a[0] < 1 << bits:
            return v
    if v.k == "bool":
        return mk("int", int(v.a[0]))
    return mk("cast", ty, v)


def pay(v, V, n):
    if v.k == "omap" and V == "Some":
        return v.a[1]
    if v.k == "okof" and V == "Some":
        return pay(v.a[0], "Ok", n)
    if v.k == "errof" and V == "Some":
        return pay(v.a[0], "Err", n)
    if v.k == "agg" and v.a[1] == V and n in v.a[2]:
        return v.a[3][v.a[2].index(n)]
    return mk("pay", v, V, n)


def fld(v, n):
    if v.k == "agg" and n in v.a[2]:
        return v.a[3][v.a[2].index(n)]
    if v.k == "rec":
        for k, x in v.a[1]:
            if k == n:
                return x
        return fld(v.a[0], n)
    return mk("fld", v, n)


def index(v, i):
    if v.k == "puti":
        if v.a[1] is i:
            return v.a[2]
        if isconst(v.a[1]) and isconst(i):
            return index(v.a[0], i)
    if v.k == "agg" and v.a[0] == "[]" and i.k == "int" and str(i.a[0]) in v.a[2]:
        return v.a[3][i.a[0]]
    if i.k == "int" and v.k == "idx" and v.a[1].k == "agg" and v.a[1].a[0].endswith("::RangeFrom") and v.a[1].a[3][0].k == "int":
        return index(v.a[0], mk("int", v.a[1].a[3][0].a[0] + i.a[0]))
    return mk("idx", v, i)


def agg(path, V, names, vals):
    if path.endswith("::AssertUnwindSafe") or path.endswith("::ManuallyDrop"):
        return vals[0]
    if path.startswith("core::range::"):
        path = "core::ops::range::" + path.rsplit("::", 1)[-1]
    return mk("agg", path, V, names, tuple(vals))


def tobool(v):
    if v.k == "int":
        return mk("bool", bool(v.a[0]))
    return v


def peel(ty):
    s = ty["s"] if isinstance(ty, dict) else ty
    while True:
        n = re.sub(r"^(&('\S+ )?(mut )?|alloc::boxed::Box<|alloc::rcs::arc::Arc<)", "", s)
        if n == s:
            return s
        s = n


STRLIKE = re.compile(r"^(str|alloc::string::String|alloc::borrow::Cow<'_, str>|alloc::borrow::Cow<'?\w*,? ?str>|char|std::path::Display<.*|"
                     r"std::path::PathBuf|std::path::Path|std::ffi::os_str::OsStr|std::ffi::os_str::OsString|"
                     r"alloc::borrow::Cow<.*str>)$")


def strlike(ty):
    return bool(STRLIKE.match(peel(ty)))


def tokens(t):
    if t.k == "fmt":
        return t.a[0]
    if t.k == "str":
        return (("lit", t.a[0]),) if t.a[0] else ()
    return (("arg", "d", "str", t),)


def mkfmt(toks):
    out = []
    for x in toks:
        if x[0] == "arg" and x[1] == "d" and x[3].k in ("fmt", "str") and strlike(x[2]):
            sub = tokens(x[3])
        elif x[0] == "arg" and x[1] == "d" and x[3].k == "int" and not strlike(x[2]):
            sub = (("lit", str(x[3].a[0])),)
        else:
            sub = (x,)
        for y in sub:
            if y[0] == "lit" and not y[1]:
                continue
            if y[0] == "lit" and out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + y[1])
            else:
                out.append(y)
    if not out:
        return mk("str", "")
    if len(out) == 1 and out[0][0] == "lit":
        return mk("str", out[0][1])
    if len(out) == 1 and out[0][1] == "d" and strlike(out[0][2]):
        return out[0][3]
    return mk("fmt", tuple(out))


def concat(a, b):
    return mkfmt(tuple(tokens(a)) + tuple(tokens(b)))


def comps(t):
    return t.a[0] if t.k == "path" else (t,)


def mkpath(cs):
    cs = tuple(c for c in cs if not (c.k == "str" and c.a[0] == ""))
    if len(cs) == 1:
        return cs[0]
    return mk("path", cs)


def join_path(a, b):
    return mkpath(tuple(comps(a)) + tuple(comps(b)))


# ------------------------------------------------------------------ classification
def name_of(decl):
    return short(decl)


IMPURE = ("std::fs::", "std::env::", "std::process::", "std::time::", "std::thread::", "std::io::", "core::io::",
          "alloc::io::", "reqwest::", "crossbeam", "std::sync::", "core::sync::atomic", "tokio::", "rand", "dirs::",
          "num_cpus::", "std::net::", "std::os::", "core::arch", "std::random", "std::backtrace")
IMPURE_NAMES = {"Path::exists", "Path::is_file", "Path::is_dir", "Path::canonicalize", "Path::metadata",
                "Path::read_dir", "Path::try_exists", "Path::is_symlink", "Path::symlink_metadata", "Path::read_link",
                "OnceCell::set"}
PURE_NAMES = {"Metadata::len", "Metadata::is_dir", "Metadata::is_file", "Mutex::new", "Response::status", "DirEntry::path",
              "Cursor::new", "OnceLock::new", "DirEntry::file_name"}


def impure(ev):
    if ev.name in PURE_NAMES:
        return False
    if ev.name in IMPURE_NAMES:
        return True
    p = ev.decl
    if p.startswith(IMPURE):
        return True
    return False


CONTAINERS = ("alloc::vec::Vec", "hashbrown::map::HashMap", "hashbrown::set::HashSet", "std::collections::hash",
              "alloc::collections", "core::sync::atomic", "crossbeam", "std::sync", "once_cell")


def fresh(ev):
    last = ev.name.rsplit("::", 1)[-1]
    if last in ("new", "with_capacity", "default", "with_hasher"):
        p = ev.rt.get("path") or ""
        return p.startswith(CONTAINERS)
    return False


def canon(ev):
    return ev.decl


# ------------------------------------------------------------------ model table
M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def find(ev):
    m = M.get(ev.name)
    if m is None:
        for p, f in PREFIX:
            if ev.decl.startswith(p):
                return f
    return m


PREFIX = []


def prefix(*ps):
    def deco(f):
        for p in ps:
            PREFIX.append((p, f))
        return f
    return deco


def val(I, st, v):
    n = 0
    while v.k == "ref" and n < 20:
        v = I.load(st, v)
        n += 1
    return v


# --- transparent functions
@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
       "String::as_str", "String::as_bytes", "String::into_bytes", "str::as_bytes", "Path::new", "OsStr::new", "Path::as_os_str", "PathBuf::as_path",
       "PathBuf::into_os_string", "Vec::as_slice", "Vec::as_mut_slice", "Box::new", "Arc::new", "Rc::new", "Mutex::new", "Pin::new_unchecked", "Pin::new",
       "IntoFuture::into_future", "hint::must_use", "Path::display", "String::into_boxed_str", "Box::into_inner", "identity::identity", "convert::identity",
       "String::as_mut_str", "Arc::as_ref", "Cell::new", "RefCell::new", "AssertUnwindSafe::new", "OsStr::as_os_str",
       "Vec::into_boxed_slice", "[T]::into_vec", "Arc::from", "Wrapping::new", "OsString::as_os_str",
       "PathBuf::as_os_str", "Pin::as_mut", "Pin::get_mut", "Pin::as_ref", "Name::as_str", "CodeId::as_str", "Match::as_str", "str::as_str", "[T]::as_ref", "RefCell::borrow", "RefCell::borrow_mut", "Peekable::by_ref", "Iterator::by_ref", "Read::by_ref", "Write::by_ref")
def transparent(I, st, ev):
    if ev.name in ("Name::as_str", "CodeId::as_str", "Match::as_str"):
        return [(st, mk("call", ev.name, (ev.args[0],)))]
    if ev.name.startswith("Deref") and ev.targs and re.search(r"Guard|RefMut|cell::Ref\b", ev.targs[0]["s"]) and ev.raw[0].k == "ref":
        g = I.load(st, ev.raw[0])
        if g.k == "ref":
            return [(st, g)]
    return [(st, ev.raw[0])]


@model("Clone::clone", "ToOwned::to_owned", "Path::to_path_buf", "[T]::to_vec", "Cow::into_owned", "Path::into_path_buf", "OsStr::to_os_string",
       "Option::cloned", "Option::copied", "Cow::to_mut", "str::to_owned", "Vec::from_iter", "String::into_string", "str::into_string", "Result::cloned", "Result::copied", "Arc::clone", "slice::to_vec", "Cow::as_ref")
def copying(I, st, ev):
    return [(st, ev.args[0])]


def local_impl(I, trait, ty, arg=None, method="from"):
    """A local implementation of a trait for a type."""
    p = ty.get("path") if isinstance(ty, dict) else None
    c = []
    for k in I.prog.fns:
        if k.startswith("<") and k.endswith(">::" + method) and " as " + trait in k:
            self_ty = k[1:].split(" as ", 1)[0]
            tr = k[1:].split(" as ", 1)[1]
            if p and self_ty.split("<")[0] == p:
                c.append((k, tr))
    return c


@model("From::from", "Into::into", "TryFrom::try_from", "TryInto::try_into")
def convert(I, st, ev):
    if ev.name in ("TryFrom::try_from", "TryInto::try_into"):
        return None
    tgt = None
    if ev.name == "Into::into" and len(ev.targs) > 1:
        tgt, src = ev.targs[1], ev.targs[0]
    elif ev.targs:
        tgt, src = ev.targs[0], ev.targs[1] if len(ev.targs) > 1 else None
    if tgt is not None and tgt.get("path", "").startswith("dump_syms::"):
        c = local_impl(I, "core::convert::From<", tgt)
        if c:
            s = peel(src) if src else ""
            if len(c) > 1:
                c2 = [x for x in c if s.split("::")[-1] in x[1]]
                c = c2 or c
            fn = I.prog.fns[c[0][0]]
            ev.path = fn.path
            return I.call_local(st, fn, ev.raw, ev)
    if tgt is not None and tgt.get("path") == OPT and not (src and src.get("path") == OPT):
        return [(st, some(ev.raw[0]))]
    if tgt is not None and ev.raw[0].k == "ref" and tgt["s"] in ("alloc::string::String", "std::path::PathBuf", "String", "PathBuf"):
        # a copy of what is pointed to
        return [(st, ev.args[0])]
    return [(st, ev.raw[0])]


@model("Symbol::name")
def m_symbol_name(I, st, ev):
    return [(st, fld(ev.args[0], "name"))] if "symbolic" in ev.decl else None


@model("ToString::to_string")
def to_string(I, st, ev):
    ty = ev.targs[0] if ev.targs else {"s": "str"}
    p = ty.get("path") or ""
    return [(st, mkfmt((("arg", "d", p if p.startswith("dump_syms::") else peel(ty), ev.args[0]),)))]


@model("str::to_string", "String::from_utf8_lossy")
def idstr(I, st, ev):
    if ev.name == "String::from_utf8_lossy":
        return None
    return [(st, ev.args[0])]


@model("String::new", "PathBuf::new")
def empty_str(I, st, ev):
    return [(st, mk("str", "") if ev.name == "String::new" else mk("path", ()))]


@model("String::with_capacity")
def empty_str2(I, st, ev):
    return [(st, mk("str", ""))]


@model("Default::default")
def default(I, st, ev):
    t = ev.rt
    return [(st, default_of(I, ev, t, st))]


def default_of(I, ev, t, st):
    s = t["s"]
    p = t.get("path") or ""
    if s == "bool":
        return FALSE
    if s in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "isize", "i8", "i16"):
        return mk("int", 0)
    if s == "&str" or p == "alloc::string::String":
        return mk("str", "")
    if p == OPT:
        return NONE
    if s == "()":
        return UNIT
    I.stale(st, ev.point)
    return mk("new", ev.point, "default<%s>" % (p or s))


# --- booleans and comparisons
@model("__private::not", "Not::not")
def m_not(I, st, ev):
    return [(st, not_(ev.args[0]))]


@model("PartialEq::eq")
def m_eq(I, st, ev):
    return [(st, eq(ev.args[0], ev.args[1]))]


@model("PartialEq::ne")
def m_ne(I, st, ev):
    return [(st, not_(eq(ev.args[0], ev.args[1])))]


@model("PartialOrd::lt", "PartialOrd::gt", "PartialOrd::le", "PartialOrd::ge")
def m_ord(I, st, ev):
    op = {"lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}[ev.name.split("::")[1]]
    return [(st, binop(op, ev.args[0], ev.args[1]))]


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(I, st, ev):
    r = mk("call", "cmp", tuple(ev.args[:2]))
    return [(st, some(r) if ev.name.startswith("Partial") else r)]


@model("Ord::min", "Ord::max", "cmp::min", "cmp::max")
def m_minmax(I, st, ev):
    a, b = ev.args[:2]
    which = ev.name.split("::")[1]
    if a.k == "int" and b.k == "int":
        return [(st, mk("int", (min if which == "min" else max)(a.a[0], b.a[0])))]
    if b < a:
        a, b = b, a
    return [(st, mk("call", which, (a, b)))]


@model("[T]::is_empty", "String::is_empty", "str::is_empty", "Vec::is_empty", "HashMap::is_empty", "BTreeMap::is_empty",
       "HashSet::is_empty", "OsStr::is_empty", "BTreeSet::is_empty", "ExactSizeIterator::is_empty")
def m_is_empty(I, st, ev):
    return [(st, is_empty(ev.args[0]))]


@model("[T]::len", "String::len", "str::len", "Vec::len", "HashMap::len", "BTreeMap::len", "HashSet::len", "ExactSizeIterator::len", "OsStr::len")
def m_len(I, st, ev):
    a = ev.args[0]
    if a.k == "iter" and not a.a[2]:
        a = a.a[0]
    return [(st, length(a))]


# --- arithmetic
@model("Add::add")
def m_add(I, st, ev):
    if ev.targs and strlike(ev.targs[0]):
        return [(st, concat(ev.args[0], ev.args[1]))]
    return [(st, binop("Add", ev.args[0], ev.args[1]))]


@model("Sub::sub", "Mul::mul", "BitAnd::bitand", "BitOr::bitor")
def m_arith(I, st, ev):
    op = {"sub": "Sub", "mul": "Mul", "bitand": "BitAnd", "bitor": "BitOr"}[ev.name.split("::")[1]]
    return [(st, binop(op, ev.args[0], ev.args[1]))]


@model("AddAssign::add_assign")
def m_addassign(I, st, ev):
    r = ev.raw[0]
    cell, path = I.deref_loc(st, r)
    if ev.targs and strlike(ev.targs[0]):
        v = concat(ev.args[0], ev.args[1])
    else:
        v = binop("Add", ev.args[0], ev.args[1])
    write(I, st, cell, path, v, ev)
    return [(st, UNIT)]


def write(I, st, cell, path, v, ev):
    I.rule.on_write(I, st, cell, path, v, ev.site(), ev.fn)
    I.storeloc(st, cell, path, v)


# --- strings
@model("String::push_str", "String::push")
def m_push_str(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    v = concat(ev.args[0], ev.args[1])
    I.rule.on_mutate(I, st, cell, path, v, ev)
    I.storeloc(st, cell, path, v)
    return [(st, UNIT)]


@model("Argument::new_display", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_debug", "Argument::new_octal",
       "Argument::new_binary", "Argument::new_lower_exp", "Argument::new_pointer", "Argument::new_upper_exp")
def m_farg(I, st, ev):
    spec = {"new_display": "d", "new_lower_hex": "x", "new_upper_hex": "X", "new_debug": "?", "new_octal": "o", "new_binary": "b",
            "new_pointer": "p"}.get(ev.name.split("::")[1], "e")
    ty = peel(ev.targs[0]) if ev.targs else "?"
    full = ev.targs[0] if ev.targs else {}
    while full.get("k") == "ref" and full.get("args"):
        full = I.prog.types[ev.fn.crate][full["args"][0]]
    p = full.get("path")
    return [(st, mk("farg", spec, p if p and p.startswith("dump_syms::") else ty, ev.args[0]))]


@model("Arguments::new")
def m_fmt(I, st, ev):
    tmpl, args = ev.args[0], ev.args[1]
    if tmpl.k != "bytes":
        return None
    b = bytes(tmpl.a[0])
    vals = args.a[3] if args.k == "agg" else None
    i, ai, toks = 0, 0, []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            toks.append(("lit", b[i:i + n].decode("utf8", "replace")))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            toks.append(("lit", b[i:i + ln].decode("utf8", "replace")))
            i += ln
        else:
            extra = ""
            idx = ai
            if n & 1:
                fl = int.from_bytes(b[i:i + 4], "little")
                i += 4
                # 0x20 (space) in the fill is the default
                extra += "f%x" % fl
            if n & 2:
                extra += "w%d" % int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 4:
                extra += "p%d" % int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 8:
                idx = int.from_bytes(b[i:i + 2], "little")
                i += 2
            ai = idx + 1
            if vals is None:
                a = index(args, mk("int", idx))
                toks.append(("arg", "d" + extra, "?", a))
                continue
            a = vals[idx]
            if a.k == "farg":
                toks.append(("arg", a.a[0] + extra, a.a[1], a.a[2]))
            else:
                toks.append(("arg", "d" + extra, "?", a))
    return [(st, mk("fmt", tuple(toks)))]


@model("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def m_fmt_const(I, st, ev):
    return [(st, mk("fmt", tuple(tokens(ev.args[0]))))]


@model("fmt::format")
def m_format(I, st, ev):
    a = ev.args[0]
    if a.k != "fmt":
        return None
    # a Display implementation of this crate isn't expanded in a string: it stays a hole of its type
    return [(st, mkfmt(a.a[0]))]


@model("Formatter::write_fmt", "Write::write_fmt")
def m_write_fmt(I, st, ev):
    a = ev.args[1]
    w = ev.raw[0]
    toks = a.a[0] if a.k == "fmt" else tokens(a)
    if ev.targs and peel(ev.targs[0]) == "alloc::string::String":
        cell, path = I.deref_loc(st, w)
        v = concat(ev.args[0], mkfmt(toks))
        I.storeloc(st, cell, path, v)
        return [(st, ok(UNIT))]
    return emit(I, st, ev, w, toks)


def emit(I, st, ev, w, toks):
    """Writes the tokens in order in the writer: the implementations of Display of this crate are followed."""
    states = [st]
    bad = []
    if I.rule.write_errors:
        # the write fails: nobody knows what was written
        s2 = st.copy()
        I.stale(s2, ev.point)
        bad.append((s2, err(mk("site", ev.point, "write error", ()))))
    for n, tk in enumerate(toks):
        nxt = []
        for s in states:
            if tk[0] == "arg" and tk[2].startswith("dump_syms::"):
                tr = {"d": "Display", "x": "LowerHex", "?": "Debug", "X": "UpperHex"}.get(tk[1])
                path = "<%s as core::fmt::%s>::fmt" % (tk[2], tr)
                fn = I.prog.fns.get(path)
                if fn is not None and I.rule.inline(path):
                    import copy
                    e2 = copy.copy(ev)
                    e2.bb = (ev.bb, n)
                    e2.path = e2.decl = path
                    e2.name = "%s::fmt" % tr
                    e2.optys = [None, None]
                    for s2, v in I.call_local(s, fn, [tk[3], w], e2):
                        s3 = s2.copy()
                        if I.assume_variant(s2, v, "Ok"):
                            nxt.append(s2)
                        if I.assume_variant(s3, v, "Err"):
                            bad.append((s3, err(I.proj(s3, v, ("p", "Err", "0")))))
                    continue
            I.rule.on_text(I, s, ev, w, tk)
            nxt.append(s)
        states = nxt
    out = []
    for s in states:
        out.append((s, ok(UNIT)))
    return out + bad


@model("Formatter::write_str", "Formatter::write_char", "Write::write_str", "Write::write_char", "Formatter::pad", "Write::write_all")
def m_write_str(I, st, ev):
    if ev.targs and peel(ev.targs[0]) == "alloc::string::String":
        cell, path = I.deref_loc(st, ev.raw[0])
        I.storeloc(st, cell, path, concat(ev.args[0], ev.args[1]))
        return [(st, ok(UNIT))]
    out = []
    if I.rule.write_errors:
        s2 = st.copy()
        I.stale(s2, ev.point)
        out.append((s2, err(mk("site", ev.point, "write error", ()))))
    if ev.name == "Write::write_all":
        toks = tokens(ev.args[1])
        if len(toks) == 1 and toks[0][0] == "arg":
            if ev.args[1].k == "fmt" and toks[0][2].startswith("dump_syms::"):
                return emit(I, st, ev, ev.raw[0], toks)
            toks = (("arg", "d", "bytes", ev.args[1]),)
    else:
        toks = tokens(ev.args[1])
    for tk in toks:
        I.rule.on_text(I, st, ev, ev.raw[0], tk)
    return [(st, ok(UNIT))] + out


@model("Display::fmt", "LowerHex::fmt", "Debug::fmt", "UpperHex::fmt")
def m_fwd_fmt(I, st, ev):
    spec = {"Display": "d", "LowerHex": "x", "Debug": "?", "UpperHex": "X"}[ev.name.split("::")[0]]
    t = ev.targs[0] if ev.targs else {"s": "?"}
    p = t.get("path") or ""
    return emit(I, st, ev, ev.raw[1], (("arg", spec, p if p.startswith("dump_syms::") else peel(t), ev.args[0]),))


# --- paths
@model("Path::join")
def m_join(I, st, ev):
    return [(st, join_path(ev.args[0], ev.args[1]))]


@model("PathBuf::push")
def m_push(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    I.storeloc(st, cell, path, join_path(ev.args[0], ev.args[1]))
    return [(st, UNIT)]


@model("PathBuf::set_extension", "PathBuf::set_file_name")
def m_set_ext(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    n = "Path::with_extension" if ev.name.endswith("extension") else "Path::with_file_name"
    I.storeloc(st, cell, path, mk("call", n, (ev.args[0], ev.args[1])))
    return [(st, mk("call", ev.decl, tuple(ev.args)))]


@model("Path::with_extension", "Path::with_file_name")
def m_with_ext(I, st, ev):
    return [(st, mk("call", ev.name, (ev.args[0], ev.args[1])))]


@model("Path::parent", "Path::file_name", "Path::extension", "Path::file_stem", "Path::to_str", "OsStr::to_str", "OsStr::to_string_lossy",
       "Path::to_string_lossy", "Path::components")
def m_path_fn(I, st, ev):
    n = ev.name
    if n in ("OsStr::to_str",):
        n = "Path::to_str"
    if n in ("OsStr::to_string_lossy",):
        n = "Path::to_string_lossy"
    return [(st, mk("call", n, (ev.args[0],)))]


# --- Option and Result
def splits(I, st, v, names):
    """-> [(state, variant, payload)] for the feasible variants."""
    out = []
    for i, V in enumerate(names):
        s = st.copy() if i + 1 < len(names) else st
        if I.assume_variant(s, v, V):
            p = None
            if V in ("Some", "Ok", "Err", "Continue", "Break", "Ready"):
                p = I.proj(s, v, ("p", V, "0"))
            out.append((s, V, p))
    return out


def variants_of(ev):
    return ("Some", "None") if ev.decl.startswith(OPT) else ("Ok", "Err")


def calls(I, st, f, args, ev, tag=""):
    return I.call_closure(st, f, args, ev, tag)


@model("Option::is_some", "Result::is_ok", "Option::is_none", "Result::is_err")
def m_is(I, st, ev):
    V = {"is_some": "Some", "is_ok": "Ok", "is_none": "Some", "is_err": "Ok"}[ev.name.split("::")[1]]
    v = ev.args[0]
    t = I.variant(st, v)
    if isinstance(t, str):
        r = mk("bool", t == V)
    else:
        r = mk("is", v, V)
    return [(st, not_(r) if ev.name.split("::")[1] in ("is_none", "is_err") else r)]


@model("Option::as_ref", "Option::as_deref", "Result::as_ref", "Option::as_mut", "Option::as_deref_mut", "Result::as_mut", "Result::as_deref")
def m_as_ref(I, st, ev):
    a = ev.raw[0]
    v = val(I, st, a)
    mut = "mut" in ev.name
    loc = I.deref_loc(st, a) if a.k == "ref" else None
    if loc is None or (v.k != "agg" and not mut):
        return [(st, ev.args[0])]
    out = []
    for s, V, p in splits(I, st, v, variants_of(ev)):
        if V in ("Some", "Ok", "Err"):
            out.append((s, mk("agg", OPT if V == "Some" else RES, V, ("0",), (mk("ref", loc[0], loc[1] + (("p", V, "0"),), mut),))))
        else:
            out.append((s, NONE))
    return out


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err",
       "Option::unwrap_unchecked", "Result::unwrap_unchecked")
def m_unwrap(I, st, ev):
    good = "Some" if ev.decl.startswith(OPT) else ("Err" if "err" in ev.name.split("::")[1] else "Ok")
    out = []
    for s, V, p in splits(I, st, ev.raw[0], variants_of(ev)):
        if V == good:
            out.append((s, p))
        else:
            I.rule.on_panic(I, s, ev, "unwrap")
    return out


@model("Option::unwrap_or", "Result::unwrap_or")
def m_unwrap_or(I, st, ev):
    v = ev.raw[0]
    t = I.variant(st, v)
    if isinstance(t, str):
        return [(st, I.proj(st, v, ("p", t, "0")) if t in ("Some", "Ok") else ev.raw[1])]
    if I.rule.fork_values or hasref(v) or hasref(ev.raw[1]):
        return [(s, p if V in ("Some", "Ok") else ev.raw[1]) for s, V, p in splits(I, st, v, variants_of(ev))]
    return [(st, mk("call", "unwrap_or", (ev.args[0], ev.args[1])))]


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def m_unwrap_or_default(I, st, ev):
    v = ev.raw[0]
    d = default_of(I, ev, ev.rt, st)
    t = I.variant(st, v)
    if isinstance(t, str):
        return [(st, I.proj(st, v, ("p", t, "0")) if t in ("Some", "Ok") else d)]
    if I.rule.fork_values:
        return [(s, p if V in ("Some", "Ok") else d) for s, V, p in splits(I, st, v, variants_of(ev))]
    return [(st, mk("call", "unwrap_or", (ev.args[0], d)))]


@model("Result::ok")
def m_ok(I, st, ev):
    v = ev.raw[0]
    t = I.variant(st, v)
    if isinstance(t, str):
        return [(st, some(I.proj(st, v, ("p", "Ok", "0"))) if t == "Ok" else NONE)]
    return [(st, mk("okof", ev.args[0]))]


@model("Result::err")
def m_err(I, st, ev):
    v = ev.raw[0]
    t = I.variant(st, v)
    if isinstance(t, str):
        return [(st, some(I.proj(st, v, ("p", "Err", "0"))) if t == "Err" else NONE)]
    return [(st, mk("errof", ev.args[0]))]


def _wrap(V, x):
    return {"Some": some, "Ok": ok, "Err": err}[V](x)


@model("Context::context", "Context::with_context")
def m_context(I, st, ev):
    """anyhow: an error (or None) becomes another error."""
    if "anyhow" not in ev.decl:
        return None
    opt = ev.targs and ev.targs[0].get("path") == OPT
    good, bad = ("Some", "None") if opt else ("Ok", "Err")
    out = []
    s = st.copy()
    if I.assume_variant(s, ev.raw[0], good):
        out.append((s, ok(I.proj(s, ev.raw[0], ("p", good, "0")))))
    if I.assume_variant(st, ev.raw[0], bad):
        if ev.name.endswith("with_context"):
            for s, v in calls(I, st, ev.raw[1], [], ev, "f"):
                out.append((s, err(mk("site", ev.point, "context", (ev.args[0], v)))))
        else:
            out.append((st, err(mk("site", ev.point, "context", (ev.args[0], ev.args[1])))))
    return out


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Result::map_err", "Result::or_else", "Option::or_else",
       "Option::unwrap_or_else", "Result::unwrap_or_else", "Option::map_or", "Result::map_or", "Option::map_or_else", "Result::map_or_else",
       "Option::is_some_and", "Result::is_ok_and", "Result::is_err_and", "Option::is_none_or", "Option::inspect", "Result::inspect",
       "Result::inspect_err", "Option::filter", "Option::ok_or_else", "Option::ok_or", "Option::or", "Option::and", "Result::and", "Result::or",
       "Option::flatten", "Option::zip", "Option::unzip", "Option::xor", "Option::transpose", "Result::transpose", "Result::flatten", "Option::map_or_default", "Result::into_ok")
def m_comb(I, st, ev):
    m = ev.name.split("::")[1]
    out = []
    raw = ev.raw
    if m == "map" and ev.decl.startswith(OPT) and I.variant(st, raw[0]) is None and not hasref(raw[0]):
        # a function without effects doesn't fork the path
        s = st.copy()
        if I.assume_variant(s, raw[0], "Some"):
            p = I.proj(s, raw[0], ("p", "Some", "0"))
            a0 = s.a
            res = calls(I, s, raw[1], [p], ev, "f")
            if len(res) == 1:
                s2, r = res[0]
                r = I.resolve(s2, r)
                if s2.a == a0 and not hasref(r) and all(s2.s.get(c) is v for c, v in st.s.items()) and all(c in st.s for c in s2.s if c[0] == "h"):
                    v = ev.args[0]
                    return [(st, v if r is p else mk("omap", v, r))]
            out += [(s2, some(r)) for s2, r in res]
        s = st
        if I.assume_variant(s, raw[0], "None"):
            out.append((s, NONE))
        return out
    for s, V, p in splits(I, st, raw[0], variants_of(ev)):
        good = V in ("Some", "Ok")
        me = _wrap(V, p) if p is not None else NONE
        if m == "map":
            out += [(s2, _wrap(V, r)) for s2, r in calls(I, s, raw[1], [p], ev, "f")] if good else [(s, me)]
        elif m == "map_err":
            out += [(s, me)] if good else [(s2, err(r)) for s2, r in calls(I, s, raw[1], [p], ev, "f")]
        elif m == "and_then":
            out += calls(I, s, raw[1], [p], ev, "f") if good else [(s, me)]
        elif m == "or_else":
            out += [(s, me)] if good else calls(I, s, raw[1], [p] if V == "Err" else [], ev, "f")
        elif m == "unwrap_or_else":
            out += [(s, p)] if good else calls(I, s, raw[1], [p] if V == "Err" else [], ev, "f")
        elif m == "map_or":
            out += calls(I, s, raw[2], [p], ev, "f") if good else [(s, raw[1])]
        elif m == "map_or_default":
            out += calls(I, s, raw[1], [p], ev, "f") if good else [(s, default_of(I, ev, ev.rt, s))]
        elif m == "map_or_else":
            out += calls(I, s, raw[2], [p], ev, "f") if good else calls(I, s, raw[1], [p] if V == "Err" else [], ev, "d")
        elif m in ("is_some_and", "is_ok_and"):
            out += [(s2, r) for s2, r in calls(I, s, raw[1], [p], ev, "f")] if good else [(s, FALSE)]
        elif m == "is_err_and":
            out += [(s, FALSE)] if good else calls(I, s, raw[1], [p], ev, "f")
        elif m == "is_none_or":
            out += calls(I, s, raw[1], [p], ev, "f") if good else [(s, TRUE)]
        elif m == "inspect":
            out += [(s2, me) for s2, _ in calls(I, s, raw[1], [p], ev, "f")] if good else [(s, me)]
        elif m == "inspect_err":
            out += [(s, me)] if good else [(s2, me) for s2, _ in calls(I, s, raw[1], [p], ev, "f")]
        elif m == "filter":
            if not good:
                out.append((s, NONE))
                continue
            for s2, r in calls(I, s, raw[1], [p], ev, "f"):
                r = tobool(I.resolve(s2, r))
                for s3 in I.assume(s2.copy(), r, True):
                    out.append((s3, me))
                for s3 in I.assume(s2, r, False):
                    out.append((s3, NONE))
        elif m == "ok_or":
            out.append((s, ok(p) if good else err(raw[1])))
        elif m == "ok_or_else":
            out += [(s, ok(p))] if good else [(s2, err(r)) for s2, r in calls(I, s, raw[1], [], ev, "f")]
        elif m == "or":
            out.append((s, me if good else raw[1]))
        elif m == "and":
            out.append((s, raw[1] if good else me))
        elif m == "flatten":
            out.append((s, p if good else me))
        elif m == "unzip":
            out.append((s, tup(some(I.proj(s, p, ("f", "0"))), some(I.proj(s, p, ("f", "1")))) if good else tup(NONE, NONE)))
        elif m in ("zip", "xor"):
            for s2, W, q in splits(I, s, raw[1], ("Some", "None")):
                if m == "zip":
                    out.append((s2, some(tup(p, q)) if good and W == "Some" else NONE))
                else:
                    out.append((s2, NONE if good == (W == "Some") else me if good else some(q)))
        elif m == "into_ok":
            out.append((s, p))
        elif m == "transpose":
            if V == "None":
                out.append((s, ok(NONE)))
            elif V == "Err":
                out.append((s, some(err(p))))
            elif V == "Some":
                for s2, W, q in splits(I, s, p, ("Ok", "Err")):
                    out.append((s2, ok(some(q)) if W == "Ok" else err(q)))
            else:
                for s2, W, q in splits(I, s, p, ("Some", "None")):
                    out.append((s2, some(ok(q)) if W == "Some" else NONE))
    return out


@model("Option::take", "Option::replace", "Option::insert", "Option::get_or_insert_with", "Option::get_or_insert", "Option::take_if")
def m_opt_mut(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    m = ev.name.split("::")[1]
    v = I.loadloc(st, cell, path)
    if m == "take":
        write(I, st, cell, path, NONE, ev)
        return [(st, v)]
    if m == "replace":
        write(I, st, cell, path, some(ev.raw[1]), ev)
        return [(st, v)]
    r = mk("ref", cell, path + (("p", "Some", "0"),), True)
    if m == "insert":
        write(I, st, cell, path, some(ev.raw[1]), ev)
        return [(st, r)]
    if m in ("get_or_insert_with", "get_or_insert"):
        out = []
        for s, V, p in splits(I, st, v, ("Some", "None")):
            if V == "Some":
                write(I, s, cell, path, some(p), ev)
                out.append((s, r))
            else:
                for s2, x in (calls(I, s, ev.raw[1], [], ev, "f") if m.endswith("with") else [(s, ev.raw[1])]):
                    write(I, s2, cell, path, some(x), ev)
                    out.append((s2, r))
        return out
    if m == "take_if":
        out = []
        for s, V, p in splits(I, st, v, ("Some", "None")):
            if V == "None":
                out.append((s, NONE))
                continue
            for s2, x in calls(I, s, ev.raw[1], [r], ev, "f"):
                x = tobool(I.resolve(s2, x))
                for s3 in I.assume(s2.copy(), x, True):
                    w = I.loadloc(s3, cell, path)
                    write(I, s3, cell, path, NONE, ev)
                    out.append((s3, w))
                for s3 in I.assume(s2, x, False):
                    out.append((s3, NONE))
        return out
    return None


@model("Try::branch")
def m_branch(I, st, ev):
    t = ev.targs[0] if ev.targs else {}
    p = t.get("path")
    CF = "core::ops::control_flow::ControlFlow"
    if p == OPT:
        names = ("Some", "None")
    elif p == RES:
        names = ("Ok", "Err")
    else:
        return None
    out = []
    for s, V, q in splits(I, st, ev.raw[0], names):
        if V in ("Some", "Ok"):
            out.append((s, mk("agg", CF, "Continue", ("0",), (q,))))
        else:
            out.append((s, mk("agg", CF, "Break", ("0",), (err(q) if V == "Err" else NONE,))))
    return out


@model("FromResidual::from_residual")
def m_residual(I, st, ev):
    r = ev.raw[0]
    v = val(I, st, r)
    if ev.rt.get("path") == RES:
        if v.k == "agg" and v.a[1] == "Err":
            return [(st, err(v.a[3][0]))]
        return [(st, err(I.proj(st, v, ("p", "Err", "0"))))]
    if ev.rt.get("path") == OPT:
        return [(st, NONE)]
    return [(st, v)]


@model("Try::from_output")
def m_from_output(I, st, ev):
    if ev.rt.get("path") == RES:
        return [(st, ok(ev.raw[0]))]
    return [(st, some(ev.raw[0]))]


@model("bool::then", "bool::then_some")
def m_then(I, st, ev):
    out = []
    for s in I.assume(st.copy(), tobool(ev.args[0]), True):
        if ev.name.endswith("some"):
            out.append((s, some(ev.raw[1])))
        else:
            out += [(s2, some(r)) for s2, r in calls(I, s, ev.raw[1], [], ev, "f")]
    for s in I.assume(st, tobool(ev.args[0]), False):
        out.append((s, NONE))
    return out


# --- memory
@model("mem::swap")
def m_swap(I, st, ev):
    a, b = I.deref_loc(st, ev.raw[0]), I.deref_loc(st, ev.raw[1])
    va, vb = I.loadloc(st, *a), I.loadloc(st, *b)
    write(I, st, a[0], a[1], vb, ev)
    write(I, st, b[0], b[1], va, ev)
    return [(st, UNIT)]


def own_content(I, ty, cell, path, v):
    """The content of a place that is about to change, when its name is that of the place: field by field."""
    if path or cell[0] != "h" or v is not cell[1] or not (ty.get("path") or "").startswith("dump_syms::"):
        return v
    adt = I.prog.adts.get(ty["path"])
    if not adt or len(adt["variants"]) != 1:
        return v
    names = tuple(f["name"] if isinstance(f, dict) else f for f in adt["variants"][0]["fields"])
    return mk("agg", ty["path"], adt["variants"][0]["name"], names, tuple(fld(v, n) for n in names))


@model("mem::take")
def m_take(I, st, ev):
    a = I.deref_loc(st, ev.raw[0])
    va = own_content(I, ev.rt, a[0], a[1], I.loadloc(st, *a))
    write(I, st, a[0], a[1], default_of(I, ev, ev.rt, st), ev)
    return [(st, va)]


@model("mem::replace")
def m_replace(I, st, ev):
    a = I.deref_loc(st, ev.raw[0])
    va = own_content(I, ev.rt, a[0], a[1], I.loadloc(st, *a))
    write(I, st, a[0], a[1], ev.raw[1], ev)
    return [(st, va)]


@model("mem::drop")
def m_drop(I, st, ev):
    I.rule.on_drop(I, st, ev.raw[0], ev.targs[0] if ev.targs else {}, ev.site(), ev.fn)
    return [(st, UNIT)]


@model("mem::forget")
def m_forget(I, st, ev):
    return [(st, UNIT)]


@model("Box::new_uninit", "Vec::from_raw_parts")
def m_uninit(I, st, ev):
    I.stale(st, ev.point)
    return [(st, mk("new", ev.point, "box"))]


@model("boxed::box_assume_init_into_vec_unsafe")
def m_into_vec(I, st, ev):
    """vec![a, b]: the array that was written in the box."""
    b = ev.args[0]
    if b.k == "new":
        cell = ("h", fld(b, "0"))
        if cell in st.s:
            v = I.loadloc(st, cell, (("f", "value"), ("f", "value")))
            if v.k == "agg" and v.a[0] == "[]":
                return [(st, v)]
    return [(st, b)]


# --- maps
def mapref(I, st, r):
    return I.deref_loc(st, r)


MAPS = ("HashMap", "BTreeMap")


@model("HashMap::get", "BTreeMap::get", "HashMap::get_mut", "BTreeMap::get_mut", "HashMap::get_key_value", "BTreeMap::get_key_value")
def m_get(I, st, ev):
    m, k = ev.args[0], ev.args[1]
    mut = ev.name.endswith("_mut")
    kv = ev.name.endswith("key_value")
    cell, path = I.deref_loc(st, ev.raw[0])
    h = mk("has", m, k)
    out = []
    for s in I.assume(st.copy(), h, True):
        if mut:
            v = mk("ref", cell, path + (("i", k),), True)
        else:
            v = index(m, k)
        out.append((s, some(tup(k, v) if kv else v)))
    for s in I.assume(st, h, False):
        out.append((s, NONE))
    return out


@model("HashMap::contains_key", "BTreeMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def m_contains(I, st, ev):
    return [(st, mk("has", ev.args[0], ev.args[1]))]


@model("HashMap::insert", "BTreeMap::insert")
def m_insert(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    m, k = ev.args[0], ev.args[1]
    old = index(m, k)
    h = mk("has", m, k)
    r = I.known(st, h)
    write(I, st, cell, path + (("i", k),), ev.raw[2], ev)
    if r is None:
        return [(st, mk("call", "displaced", (m, k)))]
    return [(st, some(old) if r else NONE)]


@model("HashMap::remove", "BTreeMap::remove", "HashMap::remove_entry", "BTreeMap::remove_entry")
def m_remove(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    m, k = ev.args[0], ev.args[1]
    h = mk("has", m, k)
    out = []
    for s in I.assume(st.copy(), h, True):
        n = mk("upd", "", "remove", (m, k), 0)
        I.rule.on_mutate(I, s, cell, path, n, ev)
        I.storeloc(s, cell, path, n)
        s.f[mk("has", n, k)] = False
        v = index(m, k)
        out.append((s, some(tup(k, v) if ev.name.endswith("entry") else v)))
    for s in I.assume(st, h, False):
        out.append((s, NONE))
    return out


@model("HashMap::entry", "BTreeMap::entry", "HashMap::entry_ref")
def m_entry(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    m, k = ev.args[0], ev.args[1]
    p = ev.rt.get("path") or "Entry"
    h = mk("has", m, k)
    out = []
    r = mk("ref", cell, path, True)
    for s in I.assume(st.copy(), h, True):
        out.append((s, mk("agg", p, "Occupied", ("0",), (mk("occ", r, k),))))
    for s in I.assume(st, h, False):
        out.append((s, mk("agg", p, "Vacant", ("0",), (mk("vac", r, k),))))
    return out


def entloc(I, st, e):
    e = val(I, st, e)
    if e.k == "agg" and e.a[1] in ("Occupied", "Vacant"):
        e = e.a[3][0]
    if e.k in ("occ", "vac"):
        r, k = e.a
        if r.k == "ref":
            return r.a[0], r.a[1] + (("i", k),), e
        return ("h", r), (("i", k),), e
    return None


@model("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut", "OccupiedEntry::insert", "VacantEntry::insert",
       "OccupiedEntry::remove", "VacantEntry::key", "OccupiedEntry::key", "Entry::key", "VacantEntry::into_key", "OccupiedEntry::remove_entry", "VacantEntry::insert_entry")
def m_ent(I, st, ev):
    l = entloc(I, st, ev.raw[0])
    if l is None:
        return None
    cell, path, e = l
    m = ev.name.split("::")[1]
    if m in ("get_mut", "into_mut"):
        return [(st, mk("ref", cell, path, True))]
    if m == "get":
        return [(st, mk("ref", cell, path, False))]
    if m in ("insert", "insert_entry"):
        old = I.loadloc(st, cell, path)
        write(I, st, cell, path, ev.raw[1], ev)
        return [(st, old if ev.name.startswith("Occ") else (mk("ref", cell, path, True) if m == "insert" else val(I, st, ev.raw[0])))]
    if m in ("key", "into_key"):
        return [(st, e.a[1])]
    if m in ("remove", "remove_entry"):
        old = I.loadloc(st, cell, path)
        base = I.loadloc(st, cell, path[:-1])
        n = mk("upd", "", "remove", (base, e.a[1]), 0)
        I.rule.on_mutate(I, st, cell, path[:-1], n, ev)
        I.storeloc(st, cell, path[:-1], n)
        st.f[mk("has", n, e.a[1])] = False
        return [(st, tup(e.a[1], old) if m.endswith("entry") else old)]
    return None


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::and_modify", "Entry::or_insert_with_key", "Entry::insert_entry")
def m_or_insert(I, st, ev):
    e = val(I, st, ev.raw[0])
    l = entloc(I, st, e)
    if l is None:
        return None
    cell, path, _ = l
    m = ev.name.split("::")[1]
    r = mk("ref", cell, path, True)
    occ = e.k == "agg" and e.a[1] == "Occupied"
    if m == "and_modify":
        if not occ:
            return [(st, e)]
        return [(s, e) for s, _ in calls(I, st, ev.raw[1], [r], ev, "f")]
    if occ and m != "insert_entry":
        return [(st, r)]
    if m in ("or_insert", "insert_entry"):
        vs = [(st, ev.raw[1])]
    elif m == "or_default":
        vs = [(st, mk("new", ev.point, "default"))]
    else:
        vs = calls(I, st, ev.raw[1], [l[2].a[1]] if m.endswith("key") else [], ev, "f")
    out = []
    for s, v in vs:
        write(I, s, cell, path, v, ev)
        out.append((s, r))
    return out


@model("Index::index")
def m_index(I, st, ev):
    return [(st, index(ev.args[0], ev.args[1]))]


@model("IndexMut::index_mut", "[T]::get_unchecked_mut")
def m_index_mut(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    return [(st, mk("ref", cell, path + (("i", ev.args[1]),), True))]


@model("Vec::push", "VecDeque::push_back", "Vec::extend_from_slice", "Vec::insert", "HashSet::insert", "BTreeSet::insert")
def m_vec_push(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    n = mk("upd", "", ev.name, tuple(ev.args), 0)
    I.rule.on_mutate(I, st, cell, path, n, ev)
    I.storeloc(st, cell, path, n)
    return [(st, UNIT if ev.name.startswith("Vec") else mk("call", ev.decl, tuple(ev.args)))]


@model("Vec::reserve", "String::reserve", "HashMap::reserve", "Vec::shrink_to_fit", "HashMap::shrink_to_fit", "Vec::reserve_exact")
def m_reserve(I, st, ev):
    return [(st, UNIT)]


# --- iterators: iter(source, kind, stages)
def mkiter(src, kind, stages=()):
    return mk("iter", src, kind, stages)


def kind_of(I, ev, ty=None):
    t = ty or (ev.targs[0] if ev.targs else {"s": ""})
    s = t["s"]
    mut = s.startswith("&mut") or "mut " in s[:14]
    b = peel(t)
    if b.startswith(("hashbrown::map::HashMap", "std::collections::hash::map::HashMap", "hashbrown::set::HashSet", "std::collections::hash::set::HashSet")):
        return ("set" if "::set::" in b.split("<")[0] else "map") + ("mut" if mut else ""), True
    if b.startswith("alloc::collections::btree::map::BTreeMap"):
        return "map" + ("mut" if mut else ""), False
    return "seq" + ("mut" if mut else ""), False


@model("IntoIterator::into_iter", "stream::iter", "iter::iter")
def m_into_iter(I, st, ev):
    v = val(I, st, ev.raw[0])
    if v.k == "iter":
        return [(st, v)]
    if ev.name != "IntoIterator::into_iter":
        return [(st, mkiter(ev.args[0], "seq"))]
    k, h = kind_of(I, ev)
    b = peel(ev.targs[0]) if ev.targs else ""
    if k.endswith("mut"):
        cell, path = I.deref_loc(st, ev.raw[0])
        return [(st, mkiter(mk("ref", cell, path, True), ("hash" if h else "") + k))]
    return [(st, mkiter(ev.args[0], ("hash" if h else "") + k))]


@model("[T]::iter", "BTreeMap::iter", "HashMap::iter", "HashSet::iter", "BTreeSet::iter", "Option::iter", "VecDeque::iter", "Vec::iter",
       "HashMap::keys", "BTreeMap::keys", "HashMap::values", "BTreeMap::values", "HashMap::into_keys", "HashMap::into_values", "BTreeMap::into_values", "BTreeMap::into_keys")
def m_iter(I, st, ev):
    v = val(I, st, ev.raw[0])
    if v.k == "iter":
        return [(st, v)]
    t = ev.name.split("::")
    h = "hash" if t[0].startswith("Hash") else ""
    k = {"iter": "map" if t[0] in MAPS else "seq", "keys": "keys", "values": "values", "into_keys": "keys", "into_values": "values"}[t[1]]
    return [(st, mkiter(ev.args[0], h + k))]


@model("[T]::iter_mut", "BTreeMap::iter_mut", "HashMap::iter_mut", "BTreeMap::values_mut", "HashMap::values_mut", "Option::iter_mut", "Vec::iter_mut")
def m_iter_mut(I, st, ev):
    t = ev.name.split("::")
    h = "hash" if t[0].startswith("Hash") else ""
    k = "valuesmut" if t[1] == "values_mut" else ("mapmut" if t[0] in MAPS else "seqmut")
    cell, path = I.deref_loc(st, ev.raw[0])
    return [(st, mkiter(mk("ref", cell, path, True), h + k))]


@model("Vec::drain", "HashMap::drain", "BTreeMap::drain", "HashSet::drain")
def m_drain(I, st, ev):
    t = ev.name.split("::")
    h = "hash" if t[0].startswith("Hash") else ""
    cell, path = I.deref_loc(st, ev.raw[0])
    src = ev.args[0]
    n = mk("upd", "", "drain", tuple(ev.args), 0)
    I.rule.on_mutate(I, st, cell, path, n, ev)
    I.storeloc(st, cell, path, n)
    rest = tuple(ev.args[1:])
    if rest and not (rest[0].k in ("const",) or (rest[0].k == "agg" and rest[0].a[0].endswith("RangeFull"))):
        return [(st, mkiter(mk("call", "subrange", (src,) + rest), h + "seq"))]
    return [(st, mkiter(src, h + ("map" if t[0] in MAPS else "seq")))]


@model("str::chars", "str::bytes", "str::lines", "str::split", "str::splitn", "str::rsplit", "str::rsplitn", "str::char_indices", "[T]::windows", "[T]::chunks", "str::split_whitespace",
       "str::split_terminator", "[T]::split", "Path::ancestors", "str::matches", "BTreeMap::range", "[T]::chunks_exact", "str::split_ascii_whitespace", "BTreeMap::range_mut")
def m_str_iter(I, st, ev):
    if ev.name == "BTreeMap::range":
        return [(st, mkiter(mk("call", "BTreeMap::range", tuple(ev.args)), "map"))]
    if ev.name == "BTreeMap::range_mut":
        return None
    return [(st, mkiter(mk("call", ev.name, tuple(ev.args)), "seq"))]


STAGES = {"map": "map", "filter": "filter", "filter_map": "filter_map", "enumerate": "enumerate", "zip": "zip", "cloned": None, "copied": None,
          "peekable": None, "rev": "rev", "inspect": "inspect", "take": "op", "skip": "op", "step_by": "op", "fuse": None, "chain": "chain",
          "take_while": "take_while", "skip_while": "skip_while", "map_while": "map_while", "flatten": "flatten", "flat_map": "flat_map",
          "buffer_unordered": "await", "buffered": "await", "by_ref": None, "into_iter": None, "then": "await_map"}


def from_zero(it):
    """The numbers from 0 on."""
    r = it.a[0]
    return it.k == "iter" and not it.a[2] and r.k == "agg" and r.a[0].endswith("range::RangeFrom") and r.a[3][0].k == "int" and str(r.a[3][0].a[0]) == "0"


def m_stage(I, st, ev):
    m = ev.name.split("::")[1]
    k = STAGES[m]
    it = val(I, st, ev.raw[0])
    if it.k != "iter":
        it = mkiter(ev.args[0], "seq")
    if k is None:
        return [(st, it)]
    extra = tuple(ev.raw[1:])
    if k in ("zip", "chain") and extra:
        o = val(I, st, extra[0])
        if o.k != "iter":
            kk, h = kind_of(I, ev, ev.targs[1] if len(ev.targs) > 1 else None)
            o = mkiter(I.resolve(st, extra[0]) if not kk.endswith("mut") else extra[0], ("hash" if h else "") + kk)
        extra = (o,)
    if k == "zip" and extra:
        # zipping with the numbers from 0 on is enumerating
        if from_zero(it):
            return [(st, mk("iter", o.a[0], o.a[1], o.a[2] + (("enumerate", ()),)))]
        if from_zero(o):
            return [(st, mk("iter", it.a[0], it.a[1], it.a[2] + (("enumerate", ()), ("swap", ()))))]
    if k == "flatten" and not it.a[2] and ev.targs and (ev.targs[0].get("path") or "") in ("core::option::IntoIter", "core::option::Iter"):
        # an optional collection: its elements, or nothing
        out = []
        for s, V, p in splits(I, st, it.a[0], ("Some", "None")):
            a = [x for x in ev.targs[0].get("args") or [] if isinstance(x, int)]
            kk, h = kind_of(I, ev, I.prog.types[ev.fn.crate][a[-1]] if a else None)
            if V == "None":
                out.append((s, mkiter(mk("agg", "[]", "", (), ()), "seq")))
            elif not kk.endswith("mut"):
                out.append((s, mkiter(I.resolve(s, p), ("hash" if h else "") + kk)))
            elif p.k == "ref":
                out.append((s, mkiter(p, ("hash" if h else "") + kk)))
            else:
                break
        else:
            return out
    if k == "op":
        return [(st, mk("iter", it.a[0], it.a[1], it.a[2] + ((m, extra),)))]
    return [(st, mk("iter", it.a[0], it.a[1], it.a[2] + ((k, extra),)))]


for _n in STAGES:
    M["Iterator::" + _n] = m_stage
    M["StreamExt::" + _n] = m_stage
    M["DoubleEndedIterator::" + _n] = m_stage


def base_elem(I, st, it, point):
    src, kind = it.a[0], it.a[1]
    h = kind.startswith("hash")
    k = kind[4:] if h else kind
    tag = "hash" if h else ""
    if k.endswith("mut"):
        rs = I.resolve(st, src)
        key = mk("elem", point, rs, tag + "key")
        r = mk("ref", src.a[0], src.a[1] + (("i", key),), True) if src.k == "ref" else mk("idx", src, key)
        return tup(key, r) if k == "mapmut" else r
    if k == "map":
        key = mk("elem", point, src, tag + "key")
        return tup(key, index(src, key))
    if k == "keys":
        return mk("elem", point, src, tag + "key")
    if k == "values":
        return index(src, mk("elem", point, src, tag + "key"))
    if src.k == "agg" and src.a[0] == "[]" and len(src.a[3]) == 1:
        return src.a[3][0]
    return mk("elem", point, src, tag)


def pull(I, st, it, point, ev):
    """One element of the iterator: -> [(state, kind, value)], kind in 'some', 'none', 'skip'."""
    if it.k == "ref":
        it = val(I, st, it)
    if it.k != "iter":
        it = mkiter(I.resolve(st, it), "seq")
    if it.a[0].k == "agg" and it.a[0].a[0] == "[]" and not it.a[0].a[3]:
        return [(st, "none", None)]
    out = [(st.copy(), "none", None)]
    I.stale(st, point)
    cur = [(st, base_elem(I, st, it, point))]
    for n, (k, extra) in enumerate(it.a[2]):
        nxt = []
        for s, v in cur:
            tag = "st%d" % n
            if k == "map":
                nxt += calls(I, s, extra[0], [v], ev, tag)
            elif k == "inspect":
                nxt += [(s2, v) for s2, _ in calls(I, s, extra[0], [v], ev, tag)]
            elif k in ("await", "await_map"):
                if k == "await_map":
                    for s1, r1 in calls(I, s, extra[0], [v], ev, tag):
                        nxt += await_value(I, s1, r1, ev, tag + "a")
                else:
                    nxt += await_value(I, s, v, ev, tag)
            elif k in ("filter", "take_while", "skip_while", "reject"):
                for s2, r in calls(I, s, extra[0], [v], ev, tag):
                    r = tobool(I.resolve(s2, r))
                    if k == "reject":
                        nxt += [(s3, v) for s3 in I.assume(s2.copy(), r, False)]
                        out += [(s3, "skip", None) for s3 in I.assume(s2, r, True)]
                        continue
                    if k == "skip_while":
                        nxt.append((s2, v))
                        continue
                    nxt += [(s3, v) for s3 in I.assume(s2.copy(), r, True)]
                    for s3 in I.assume(s2, r, False):
                        out.append((s3, "skip", None) if k == "filter" else (s3, "none", None))
            elif k in ("filter_map", "map_while"):
                for s2, r in calls(I, s, extra[0], [v], ev, tag):
                    for s3, V, p in splits(I, s2, r, ("Some", "None")):
                        if V == "Some":
                            nxt.append((s3, p))
                        else:
                            out.append((s3, "skip" if k == "filter_map" else "none", None))
            elif k == "enumerate":
                nxt.append((s, tup(mk("elem", point, it.a[0], "#"), v)))
            elif k == "swap":
                nxt.append((s, tup(fld(v, "1"), fld(v, "0")) if v.k != "agg" else tup(v.a[3][1], v.a[3][0])))
            elif k == "zip":
                o = extra[0]
                if o.k == "iter" and o.a[0] is it.a[0] and o.a[1] == it.a[1] == "seq" and n == 0 and len(o.a[2]) == 1 and o.a[2][0][0] == "skip" and o.a[2][0][1][0].k == "int":
                    # each element with a later one of the same sequence
                    nxt.append((s, tup(v, mk("elem", point, it.a[0], "+%s" % o.a[2][0][1][0].a[0]))))
                    continue
                for s2, kk, w in pull(I, s, o, point + ("z",), ev):
                    if kk == "some":
                        nxt.append((s2, tup(v, w)))
            elif k == "chain":
                o = extra[0]
                s2 = s.copy()
                nxt.append((s, v))
                for s3, kk, w in pull(I, s2, o, point + ("ch%d" % n,), ev):
                    if kk == "some":
                        nxt.append((s3, w))
            elif k in ("flatten", "flat_map"):
                vs = [(s, v)] if k == "flatten" else calls(I, s, extra[0], [v], ev, tag)
                for s2, w in vs:
                    w = val(I, s2, w)
                    if w.k == "agg" and w.a[0] in (OPT, RES):
                        if w.a[1] in ("Some", "Ok"):
                            nxt.append((s2, w.a[3][0]))
                        else:
                            out.append((s2, "skip", None))
                    else:
                        for s3, kk, x in pull(I, s2, w, point + ("fl%d" % n,), ev):
                            if kk == "some":
                                nxt.append((s3, x))
            else:
                nxt.append((s, v))
        cur = nxt
    for s, v in cur:
        out.append((s, "some", v))
    return out


@model("Iterator::next", "DoubleEndedIterator::next_back", "Iterator::last")
def m_next(I, st, ev):
    it = val(I, st, ev.raw[0])
    if ev.targs and (ev.targs[0].get("path") or "").endswith(("channel::Iter", "channel::IntoIter", "mpsc::Iter", "mpsc::IntoIter")):
        return recv_next(I, st, ev, it)
    I.rule.on_next(I, st, ev, it if it.k == "iter" else mkiter(it if it.k == "agg" and it.a[0].startswith("core::ops::range") else I.resolve(st, it), "seq"))
    if it.k != "iter" and ev.targs and (ev.targs[0].get("path") or "").startswith("dump_syms::"):
        c = local_impl(I, "core::iter::traits::iterator::Iterator", ev.targs[0], method="next")
        if c:
            return I.call_local(st, I.prog.fns[c[0][0]], ev.raw, ev)
    if it.k == "agg" and it.a[0].startswith("core::ops::range"):
        it = mkiter(it, "seq")
    if it.k != "iter":
        it = mkiter(I.resolve(st, it), "seq")
    out = []
    for s, k, v in pull(I, st, it, ev.point, ev):
        if k == "some":
            I.rule.on_elem(I, s, ev, it, v)
            out.append((s, some(v)))
        elif k == "none":
            I.rule.on_end(I, s, ev, it)
            out.append((s, NONE))
        else:
            # the element was filtered out: the next one, or the end
            I.rule.on_skip(I, s, ev, it)
            I.rule.on_end(I, s, ev, it)
            out.append((s, NONE))
    return out


def recv_next(I, st, ev, it):
    """The next message of a channel: what recv does."""
    r = I.resolve(st, it)
    while r.k == "iter":
        r = r.a[0]
    if r.k in ("call", "site"):
        a = r.a[1] if r.k == "call" else r.a[2]
        if a and (r.a[0] if r.k == "call" else r.a[1]).rsplit("::", 1)[-1] in ("iter", "into_iter"):
            r = a[0]
    e = type(ev)()
    for n in type(ev).__slots__:
        if hasattr(ev, n):
            setattr(e, n, getattr(ev, n))
    e.name, e.path, e.decl = "Receiver::recv", "crossbeam_channel::channel::Receiver::recv", "crossbeam_channel::channel::Receiver::recv"
    e.trait, e.raw, e.args, e.targs = None, [r], [r], []
    e.rt = {"k": "adt", "path": RES, "s": "Result", "args": [ev.rt, {"s": "()"}]}
    out = []
    for s, v in I.external(st, e):
        for s2, V, p in splits(I, s, v, ("Ok", "Err")):
            out.append((s2, some(p) if V == "Ok" else NONE))
    return out


@model("Peekable::peek", "Peekable::peek_mut")
def m_peek(I, st, ev):
    it = val(I, st, ev.raw[0])
    if it.k != "iter":
        it = mkiter(ev.args[0], "seq")
    out = []
    for s, k, v in pull(I, st, it, ev.point, ev):
        out.append((s, some(v) if k == "some" else NONE))
    return out


def consume(I, st, it, ev, body):
    """Runs the body on every element, to a fixpoint; body(state, value) -> [(state, stop)].
    -> [(state, stopped value or None)]"""
    point = ev.point + ("loop",)
    table, out = {}, []
    first = I.arrive(table, 0, st, ev.fid, point, ())
    work = [first[0]]
    vals = []
    n = 0
    while work:
        n += 1
        if n > 400:
            raise RuntimeError("an iteration doesn't reach a fixpoint")
        k = work.pop()
        s = table[0][k].copy()
        I.rule.on_next(I, s, ev, it)
        for s2, kk, v in pull(I, s, it, ev.point + ("el",), ev):
            if kk == "none":
                I.rule.on_end(I, s2, ev, it)
                out.append((s2, None))
            elif kk == "skip":
                I.rule.on_skip(I, s2, ev, it)
                r = I.arrive(table, 0, s2, ev.fid, point, ())
                if r:
                    work.append(r[0])
            else:
                I.rule.on_elem(I, s2, ev, it, v)
                if v not in vals:
                    vals.append(v)
                for s3, stop in body(s2, v):
                    if stop is not None:
                        out.append((s3, stop))
                    else:
                        r = I.arrive(table, 0, s3, ev.fid, point, ())
                        if r:
                            work.append(r[0])
    # one state per shape
    tab = {}
    res = []
    for s, stop in out:
        s.s[(ev.fid, "stop")] = stop if stop is not None else UNIT
        I.arrive(tab, 0, s, ev.fid, ev.point + ("end",), ())
    for s in tab.get(0, {}).values():
        s = s.copy()
        stop = s.s.pop((ev.fid, "stop"))
        res.append((s, None if stop is UNIT else stop))
    return res, vals


def asiter(I, st, ev, raw):
    it = val(I, st, raw)
    if it.k == "iter":
        return it
    t = ev.targs[0] if ev.targs else None
    k, h = ("seq", False)
    return mkiter(I.resolve(st, raw), "seq")


def coll_term(I, st, it, vals):
    src = I.resolve(st, it)
    vs = tuple(sorted(set(I.resolve(st, v) for v in vals), key=lambda t: t.n))
    return mk("coll", src, vs)


@model("str::replace")
def m_str_replace(I, st, ev):
    f = ev.raw[1]
    if not (ev.args[2].k == "str" and ev.args[2].a[0] == "") or f.k in ("str", "fn", "char", "int", "const"):
        return None
    if not (f.k in ("closure",) or f.k == "agg" and "{closure" in f.a[0]):
        return None
    it = mkiter(mk("call", "str::chars", (ev.args[0],)), "seq", (("reject", (f,)),))
    res, vals = consume(I, st, it, ev, lambda s, v: [(s, None)])
    return [(s, coll_term(I, s, it, vals)) for s, _ in res]


@model("String::retain")
def m_str_retain(I, st, ev):
    it = mkiter(mk("call", "str::chars", (ev.args[0],)), "seq", (("filter", (ev.raw[1],)),))
    cell, path = I.deref_loc(st, ev.raw[0])
    res, vals = consume(I, st, it, ev, lambda s, v: [(s, None)])
    out = []
    for s, _ in res:
        I.storeloc(s, cell, path, coll_term(I, s, it, vals))
        out.append((s, UNIT))
    return out


@model("Iterator::collect", "StreamExt::collect", "FromIterator::from_iter")
def m_collect(I, st, ev):
    it = asiter(I, st, ev, ev.raw[0])
    p = ev.rt.get("path")
    tgt = p
    if p not in (OPT, RES):
        # the element values are kept to know where they come from
        simple = not it.a[2]
        src = it.a[0]
        if simple and src.k == "agg" and src.a[0] == "[]" and (p or "").endswith("PathBuf"):
            return [(st, mkpath(tuple(c for x in src.a[3] for c in comps(x))))]
        if simple:
            v = mk("coll", it, ())
            return [(st, v)]
        res, vals = consume(I, st, it, ev, lambda s, v: [(s, None)])
        return [(s, coll_term(I, s, it, vals)) for s, _ in res]
    bad = "Err" if p == RES else "None"

    def body(s, v):
        out = []
        for s2, V, q in splits(I, s, v, ("Ok", "Err") if p == RES else ("Some", "None")):
            out.append((s2, None if V in ("Ok", "Some") else (err(q) if p == RES else NONE)))
        return out
    res, vals = consume(I, st, it, ev, body)
    out = []
    for s, stop in res:
        if stop is not None:
            out.append((s, stop))
        else:
            c = coll_term(I, s, it, [I.proj(s, v, ("p", "Ok" if p == RES else "Some", "0")) for v in vals])
            out.append((s, ok(c) if p == RES else some(c)))
    return out


@model("Iterator::for_each")
def m_for_each(I, st, ev):
    it = asiter(I, st, ev, ev.raw[0])
    f = ev.raw[1]
    res, _ = consume(I, st, it, ev, lambda s, v: [(s2, None) for s2, _ in calls(I, s, f, [v], ev, "body")])
    return [(s, UNIT) for s, _ in res]


@model("Iterator::try_for_each")
def m_try_for_each(I, st, ev):
    it = asiter(I, st, ev, ev.raw[0])
    f = ev.raw[1]

    def body(s, v):
        out = []
        for s2, r in calls(I, s, f, [v], ev, "body"):
            for s3, V, p in splits(I, s2, r, ("Ok", "Err") if ev.rt.get("path") == RES else ("Some", "None")):
                out.append((s3, None if V in ("Ok", "Some") else (err(p) if V == "Err" else NONE)))
        return out
    res, _ = consume(I, st, it, ev, body)
    return [(s, stop if stop is not None else (ok(UNIT) if ev.rt.get("path") == RES else some(UNIT))) for s, stop in res]


@model("Iterator::fold", "Iterator::try_fold")
def m_fold(I, st, ev):
    it = asiter(I, st, ev, ev.raw[0])
    f = ev.raw[2]
    cell = (ev.fid, "acc%s" % (ev.bb,))
    I.storeloc(st, cell, (), ev.raw[1])
    p = ev.rt.get("path")
    names = None
    if ev.name == "Iterator::try_fold":
        names = {RES: ("Ok", "Err"), OPT: ("Some", "None")}.get(p)
        if names is None:
            st.s.pop(cell, None)
            return None

    def body(s, v):
        out = []
        for s2, r in calls(I, s, f, [I.loadloc(s, cell, ()), v], ev, "body"):
            if names is None:
                I.storeloc(s2, cell, (), r)
                out.append((s2, None))
                continue
            for s3, V, q in splits(I, s2, r, names):
                if V in ("Ok", "Some"):
                    I.storeloc(s3, cell, (), q)
                    out.append((s3, None))
                else:
                    out.append((s3, err(q) if V == "Err" else NONE))
        return out
    res, _ = consume(I, st, it, ev, body)
    out = []
    for s, stop in res:
        a = I.loadloc(s, cell, ())
        s.s.pop(cell, None)
        out.append((s, stop if stop is not None else a if names is None else _wrap(names[0], a)))
    return out


@model("Iterator::any", "Iterator::all", "Iterator::position", "Iterator::find", "Iterator::find_map", "Iterator::rposition")
def m_search(I, st, ev):
    m = ev.name.split("::")[1]
    it = asiter(I, st, ev, ev.raw[0])
    f = ev.raw[1]
    if m in ("any", "all") and not it.a[2]:
        # a pure predicate gives a boolean term
        s = st.copy()
        lam = mk("elem", ("l",), I.resolve(s, it.a[0]))
        r = I.call_closure(s, f, [lam], ev, "lam")
        if len(r) == 1 and r[0][0].a == st.a and not hasref(r[0][1]):
            p = r[0][1]
            src = I.resolve(st, it.a[0])
            if m == "all":
                return [(st, not_(mk("any", src, not_(p))))]
            return [(st, mk("any", src, p))]

    def body(s, v):
        out = []
        for s2, r in calls(I, s, f, [v], ev, "body"):
            if m == "find_map":
                for s3, V, p in splits(I, s2, r, ("Some", "None")):
                    out.append((s3, some(p) if V == "Some" else None))
                continue
            r = tobool(I.resolve(s2, r))
            hit = m != "all"
            for s3 in I.assume(s2.copy(), r, hit):
                out.append((s3, {"any": TRUE, "all": FALSE, "position": some(mk("elem", ev.point + ("el",), I.resolve(s3, it.a[0]), "#")),
                                 "rposition": some(mk("elem", ev.point + ("el",), I.resolve(s3, it.a[0]), "#")),
                                 "find": some(v)}[m]))
            for s3 in I.assume(s2, r, not hit):
                out.append((s3, None))
        return out
    res, _ = consume(I, st, it, ev, body)
    dflt = {"any": FALSE, "all": TRUE}.get(m, NONE)
    return [(s, stop if stop is not None else dflt) for s, stop in res]


@model("Extend::extend")
def m_extend(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    it = val(I, st, ev.raw[1])
    out = []
    text = bool(ev.targs) and peel(ev.targs[0]) == "alloc::string::String"
    if it.k == "iter" and it.a[2]:
        res, vals = consume(I, st, it, ev, lambda s, v: [(s, None)])
        for s, _ in res:
            c = coll_term(I, s, it, vals)
            old = I.resolve(s, ev.raw[0])
            if text:
                n = c if old.k == "new" or old.k == "str" and old.a[0] == "" else concat(old, c)
            else:
                n = mk("upd", "", "Vec::extend", (old, c), 0)
            I.rule.on_mutate(I, s, cell, path, n, ev)
            I.storeloc(s, cell, path, n)
            out.append((s, UNIT))
        return out
    c = ev.args[1]
    if c.k == "iter":
        c = mk("coll", c, ())
    n = mk("upd", "", "Vec::extend", (ev.args[0], c), 0)
    I.rule.on_mutate(I, st, cell, path, n, ev)
    I.storeloc(st, cell, path, n)
    return [(st, UNIT)]


@model("Vec::append")
def m_append(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    n = mk("upd", "", "Vec::extend", (ev.args[0], ev.args[1]), 0)
    I.rule.on_mutate(I, st, cell, path, n, ev)
    I.storeloc(st, cell, path, n)
    cell, path = I.deref_loc(st, ev.raw[1])
    I.storeloc(st, cell, path, mk("upd", "", "drain", (ev.args[1],), 0))
    return [(st, UNIT)]


@model("Iterator::count", "Iterator::sum", "Iterator::max", "Iterator::min", "Iterator::nth")
def m_agg_iter(I, st, ev):
    it = val(I, st, ev.raw[0])
    if it.k != "iter" or not it.a[2]:
        return [(st, mk("call", ev.name, tuple(ev.args)))]
    res, vals = consume(I, st, it, ev, lambda s, v: [(s, None)])
    return [(s, mk("call", ev.name, (coll_term(I, s, it, vals),))) for s, _ in res]


# --- asynchronous code, read as if it were synchronous
def await_value(I, st, fut, ev, tag):
    v = val(I, st, fut)
    while v.k == "agg" and v.a[0].rsplit("::", 1)[-1] in ("Pin", "MaybeDone", "Box") and v.a[3]:
        v = val(I, st, v.a[3][0])
    if v.k == "rec":
        b = v
        while b.k == "rec":
            b = b.a[0]
    else:
        b = v
    if b.k == "agg" and b.a[0].startswith("coroutine:"):
        path = b.a[0][10:]
        fn = I.prog.fns.get(path)
        if fn is not None:
            import copy
            cell = (ev.fid, "co:" + path + tag + str(ev.bb))
            st.s[cell] = b
            e2 = copy.copy(ev)
            e2.bb = (ev.bb, "aw" + tag)
            e2.path = e2.decl = path
            e2.name = "coroutine"
            e2.optys = [None, None]
            out = []
            args = [mk("ref", cell, (), True)] + [mk("const", "cx")] * (fn.argc - 1)
            for s, r in I.call_local(st, fn, args, e2):
                s.s.pop(cell, None)
                r = val(I, s, r)
                if r.k == "agg" and r.a[1] == "Ready":
                    out.append((s, r.a[3][0]))
                elif r.k == "agg" and r.a[1] == "Pending":
                    continue
                else:
                    out.append((s, I.proj(s, r, ("p", "Ready", "0"))))
            return out
    return [(st, fut)]


@model("Future::poll")
def m_poll(I, st, ev):
    P = "core::task::poll::Poll"
    return [(s, mk("agg", P, "Ready", ("0",), (v,))) for s, v in await_value(I, st, ev.raw[0], ev, "p")]


@model("Runtime::block_on", "executor::block_on", "Handle::block_on", "local_pool::block_on")
def m_block_on(I, st, ev):
    return await_value(I, st, ev.raw[-1], ev, "b")


# --- threads and locks
@model("Mutex::lock", "RwLock::write", "RwLock::read", "Mutex::try_lock")
def m_lock(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    before = I.loadloc(st, cell, path)
    while before.k == "ref":
        cell, path = before.a[0], before.a[1]
        before = I.loadloc(st, cell, path)
    I.stale(st, ev.point)
    c = mk("site", ev.point, "locked", (mk("const", "cell %s %s" % (cell, path)),))
    if not I.rule.sequential:
        I.storeloc(st, cell, path, c)
    I.rule.on_lock(I, st, ev, cell)
    s2 = st.copy()
    g = mk("ref", cell, path, True)
    out = [(st, ok(g))]
    out.append((s2, err(mk("site", ev.point, "poisoned", ()))))
    return out


@model("Mutex::into_inner", "Mutex::get_mut")
def m_into_inner(I, st, ev):
    s2 = st.copy()
    return [(st, ok(ev.raw[0])), (s2, err(mk("site", ev.point, "poisoned", ())))]


@model("Arc::try_unwrap", "Arc::into_inner")
def m_try_unwrap(I, st, ev):
    if ev.name.endswith("into_inner"):
        s2 = st.copy()
        return [(st, some(ev.raw[0])), (s2, NONE)]
    s2 = st.copy()
    return [(st, ok(ev.raw[0])), (s2, err(ev.raw[0]))]


def thread_state(I, st, clo):
    """What the thread can see: the cells its closure refers to, and the facts about these values."""
    s = type(st)({}, {}, st.a)
    todo, vals = [clo], set()
    cells = set()
    while todo:
        v = todo.pop()
        for x in subterms(v):
            if x.k == "ref" and x.a[0] not in cells:
                cells.add(x.a[0])
                if x.a[0] in st.s:
                    s.s[x.a[0]] = st.s[x.a[0]]
                    todo.append(st.s[x.a[0]])
            vals.add(x)
    for c, v in st.s.items():
        if c[0] == "h" and c[1] in vals:
            s.s[c] = v
            vals |= subterms(v)
    for t, v in st.f.items():
        if t in vals or any(k in vals and not isconst(k) for k in kids(t)) or I.rule.sticky(t, v):
            s.f[t] = v
    return s


@model("Builder::spawn", "thread::spawn", "functions::spawn", "Scope::spawn", "Builder::spawn_scoped")
def m_spawn(I, st, ev):
    clo = None
    for a in ev.raw:
        v = val(I, st, a)
        if v.k == "agg" and v.a[0].startswith("closure:") or v.k == "fn":
            clo = v
    I.stale(st, ev.point)
    h = mk("site", ev.point, "spawn", (ev.args[-1],))
    if clo is not None:
        s = thread_state(I, st, clo)
        s.a = I.rule.on_spawn(I, s, ev)
        fnp = clo.a[0][8:] if clo.k == "agg" else clo.a[0]
        g = I.prog.fns.get(fnp)
        args = [mk("hv", ev.point, "scope")] * max(0, (g.argc - 1 if clo.k == "agg" else g.argc)) if g else []
        for s2, v in calls(I, s, clo, args, ev, "thread"):
            I.rule.on_thread_exit(I, s2, v, ev)
    if ev.rt.get("path") == RES:
        s2 = st.copy()
        return [(st, ok(h)), (s2, err(mk("site", ev.point, "spawn error", ())))]
    return [(st, h)]


@model("thread::scope", "scoped::scope")
def m_scope(I, st, ev):
    return calls(I, st, ev.raw[0], [mk("hv", ev.point, "scope")], ev, "scope")


@model("panic::catch_unwind", "panicking::catch_unwind")
def m_catch(I, st, ev):
    s0 = st.copy()
    out = []
    I.rule.on_catch(I, st, ev, True)
    for s, v in calls(I, st, ev.raw[0], [], ev, "catch"):
        out.append((s, ok(v)))
    I.stale(s0, ev.point)
    s0.a = I.rule.on_unwound(I, s0, ev)
    out.append((s0, err(mk("site", ev.point, "panic", ()))))
    return out


@model("OnceCell::get_or_init", "OnceLock::get_or_init", "Lazy::force")
def m_once(I, st, ev):
    if ev.name == "Lazy::force":
        return None
    out = []
    for s, v in calls(I, st, ev.raw[1], [], ev, "init"):
        out.append((s, mk("call", "once", (ev.args[0], I.resolve(s, v)))))
    return out


@prefix("core::panicking", "std::panicking", "std::rt::panic", "core::option::unwrap_failed", "core::result::unwrap_failed", "core::option::expect_failed",
        "core::slice::index::slice", "core::str::slice_error")
def m_panic(I, st, ev):
    if "set_hook" in ev.decl or "take_hook" in ev.decl:
        return None
    if ev.decl.endswith("panicking::panicking"):
        return None
    I.rule.on_panic(I, st, ev, "panic")
    return []


@model("panic::resume_unwind", "process::exit", "process::abort")
def m_diverge(I, st, ev):
    I.rule.on_panic(I, st, ev, ev.name)
    return []


# --- closures called through the Fn traits
@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def m_fn(I, st, ev):
    f = val(I, st, ev.raw[0])
    a = val(I, st, ev.raw[1]) if len(ev.raw) > 1 else UNIT
    args = list(a.a[3]) if a.k == "agg" and a.a[0] == "()" else [a]
    return I.call_closure(st, f, args, ev)


# --- sorting keeps the elements; the order is known afterwards
def sortkey(key, lam, lam2):
    """A comparison of the same part of two elements is a key."""
    if key.k == "call" and key.a[0] == "cmp" and len(key.a[1]) == 2:
        x, y = key.a[1]
        if subst(y, lam2, lam) is x and lam2 not in subterms(x):
            return x
        if subst(x, lam2, lam) is y and lam2 not in subterms(y):
            return mk("agg", "core::cmp::Reverse", "Reverse", ("0",), (y,))
    return key


def subst(t, old, new):
    if t is old:
        return new
    def go(x):
        return subst(x, old, new) if isinstance(x, T) else tuple(go(y) for y in x) if isinstance(x, tuple) else x
    return mk(t.k, *[go(x) for x in t.a]) if old in subterms(t) else t


@model("[T]::sort", "[T]::sort_by", "[T]::sort_by_key", "[T]::sort_unstable", "[T]::sort_unstable_by", "[T]::sort_unstable_by_key", "[T]::sort_by_cached_key")
def m_sort(I, st, ev):
    cell, path = I.deref_loc(st, ev.raw[0])
    key = mk("const", "natural")
    if len(ev.raw) > 1:
        s = st.copy()
        lam = mk("elem", ("l",), ev.args[0])
        lam2 = mk("elem", ("l2",), ev.args[0])
        r = I.call_closure(s, ev.raw[1], [lam] if "key" in ev.name else [lam, lam2], ev, "key")
        if len(r) == 1:
            key = sortkey(I.resolve(r[0][0], r[0][1]), lam, lam2)
        else:
            key = mk("const", "?")
    n = mk("sorted", ev.args[0], key, "unstable" in ev.name)
    I.rule.on_mutate(I, st, cell, path, n, ev)
    I.storeloc(st, cell, path, n)
    return [(st, UNIT)]
