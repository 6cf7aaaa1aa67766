"""The text of a module: the records written by the Display implementations, on every path."""
from checklib import *
import re
from collections import namedtuple

A = namedtuple("A", "order toks loops subs sym done")
X, N, C, R_, S_ = "\ue001", "\ue002", "\ue003", "\ue004", "\ue005"     # hexadecimal, decimal, text without control characters, raw text, stack
SPACE = " "
RECORDS = [
    # kind, pattern, fields in order
    ("MODULE", "MODULE (?:[A-Za-z]+|%s) %s %s %s?" % (R_, R_, R_, C), None),
    ("CODE_ID", C, None),
    ("INFO", "INFO [%s%s]" % (R_, C), None),
    ("FILE", "FILE %s %s?" % (N, C), None),
    ("ORIGIN", "INLINE_ORIGIN %s (?:[%s%s]|<name omitted>)" % (N, R_, C), None),
    ("PUBLIC", "PUBLIC (m )?%s %s (?:[%s%s]|<name omitted>)?" % (X, X, C, R_), ("rva", "parameter_size", "name")),
    ("FUNC", "FUNC (m )?%s %s %s (?:[%s%s]|<name omitted>)?" % (X, X, X, C, R_), ("rva", "len", "parameter_size", "name")),
    ("INLINE", "INLINE %s %s %s %s(?: %s %s)*" % (N, N, N, N, X, X), ("call_depth", "call_line_number", "call_file_id", "inline_origin_id", "rva", "len")),
    ("LINE", "%s %s %s %s" % (X, X, N, N), ("rva", "len", "num", "file_id")),
]
ORDER = {"MODULE": 1, "CODE_ID": 2, "INFO": 3, "FILE": 4, "ORIGIN": 5, "PUBLIC": 6, "FUNC": 6, "INLINE": 6, "LINE": 6, "STACK": 7}
LINES = 6.5        # line records of the FUNC were written: no INLINE record until the next FUNC
INTS = ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "u128")
BLOCKS = {"dump_syms::symbol::Symbol": "SYMBOL", "dump_syms::line::Lines": "LINES"}


def control_facts(st, v):
    for n in ("char::is_control", "char::is_ascii_control", "core::char::methods::char::is_control"):
        for t, x in st.f.items():
            if t.k == "call" and t.a[1] and t.a[1][0] is v and short(t.a[0]).endswith(("is_control", "is_ascii_control")):
                return x
    return None


class Clean:
    """Which iterators over characters leave out the control characters."""

    def clean_elem(self, I, st, it, v):
        s = it.a[0]
        if s.k == "call" and short(s.a[0]).endswith("chars"):
            c = control_facts(st, v)
            key = (s, it.a[2])
            self.cleans[key] = self.cleans.get(key, True) and c is False

    def clean_skip(self, I, st, it, ev, rule):
        """What is left out are control characters."""
        s = it.a[0]
        if s.k == "call" and short(s.a[0]).endswith("chars"):
            ok = any(v is True and t.k == "call" and t.a[1] and t.a[1][0].k == "elem" and t.a[1][0].a[1] is s and short(t.a[0]).endswith(("is_control", "is_ascii_control")) for t, v in st.f.items())
            self.rep.ob(rule, ev.site() + " left out", ok, "what is left out of a name are control characters")

    def on_call(self, I, st, ev):
        if ev.name == "String::push" and len(ev.args) > 1:
            c = ev.args[1]
            self.pushed[c] = self.pushed.get(c, True) and control_facts(st, c) is False
        return None

    def built(self, I, t):
        """A text built character by character, from an empty one."""
        seen, stack, src = set(), [t], None
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "phi" and x in I.phi_ops:
                stack.extend(I.phi_ops[x])
            elif x.k == "fmt":
                for tk in x.a[0]:
                    if tk[0] == "lit":
                        if any(ord(c) < 32 or ord(c) == 127 for c in tk[1]):
                            return None
                    else:
                        stack.append(tk[3])
            elif x.k == "elem" and x.a[1].k == "call" and short(x.a[1].a[0]).endswith("chars"):
                if not self.pushed.get(x):
                    return None
                src = x.a[1].a[1][0]
            elif x.k == "str" and x.a[0] == "" or x.k == "new":
                pass
            else:
                return None
        return src

    def cleaned(self, t, I=None):
        """-> the text the control characters of which were removed, or None."""
        if t.k == "phi" and I is not None:
            return self.built(I, t)
        if t.k == "coll" and t.a[0].k == "iter":
            it = t.a[0]
            if self.cleans.get((it.a[0], it.a[2])) and it.a[0].k == "call":
                return it.a[0].a[1][0]
        if t.k == "call" and short(t.a[0]).endswith("str::replace") or t.k == "call" and short(t.a[0]) == "str::replace":
            p = t.a[1][1]
            if p.k == "fn" and str(p.a[0]).endswith(("is_control", "is_ascii_control")):
                return t.a[1][0]
        return None


def peel_text(t):
    """Through the conversions that keep the text."""
    while t.k == "call" and short(t.a[0]) in ("String::as_str", "ToString::to_string", "str::to_string", "Cow::as_ref", "Deref::deref", "str::to_owned", "AsRef::as_ref"):
        t = t.a[1][0]
    return t


def blank_text(t):
    """-> (text, polarity) if the condition says that the text is (True) or isn't (False) blank."""
    if t.k == "not":
        r = blank_text(t.a[0])
        return r and (r[0], not r[1])
    if t.k == "bin" and t.a[0] == "Eq":
        for x, y in (t.a[1:], t.a[:0:-1]):
            if y.k == "int" and str(y.a[0]) == "0" and is_call(x, "len") and is_call(x.a[1][0], "str::trim", "str::trim_start", "str::trim_end", "str::trim_ascii"):
                return peel_text(x.a[1][0].a[1][0]), True
            if y.k == "str" and y.a[0] == "" and is_call(x, "str::trim", "str::trim_start", "str::trim_end", "str::trim_ascii"):
                return peel_text(x.a[1][0]), True
    if t.k == "any" and is_call(t.a[0], "str::chars"):
        p = t.a[1]
        if p.k == "not" and is_call(p.a[0], "char::is_whitespace", "char::is_ascii_whitespace"):
            return peel_text(cargs(t.a[0])[0]), False
    return None


def not_blank(I, st, t):
    """Is the text known not to be blank here?"""
    if t.k == "str":
        return bool(t.a[0].strip())
    for f, v in st.f.items():
        b = blank_text(f) if isinstance(v, bool) else None
        if b and b[0] is t and b[1] != v:
            return True
    al = I.alts(t)
    return len(al) > 1 and all(not_blank(I, st, peel_text(a)) for a in al)


class Emit(Clean, CRule):
    """Automaton: order of the last record, tokens of the current record, loops whose element has no record yet, loops ended since
    the last FUNC, last FUNC, loops ended."""

    def __init__(self, rep):
        super().__init__(rep)
        self.cleans = {}
        self.pushed = {}
        self.kinds = {}        # source of a loop -> kinds of the records written for its elements
        self.exits = []
        self.subs = []
        self.named = {}

    def initial(self):
        return A(0, (), frozenset(), frozenset(), None, frozenset())

    def sticky(self, t, v):
        if isinstance(v, bool) and blank_text(t) is not None:
            return True
        return t.k == "fld" and t.a[1] in ("is_public", "is_multiple") and isinstance(v, bool)

    # ------------------------------------------------ tokens
    def expand(self, I, st, tk):
        """-> list of ("lit", s) / ("hole", letter, term)"""
        if tk[0] == "lit":
            return [tk]
        _, spec, ty, t = tk
        t = I.resolve(st, t)
        if spec == "x" and ty in INTS:
            return [("hole", X, t)]
        if spec == "d" and ty in INTS:
            return [("hole", N, t)]
        if ty in BLOCKS and spec == "d":
            return [("block", BLOCKS[ty], t)]
        if spec == "d":
            t = peel_text(t)
            if t.k == "str":
                return [("lit", t.a[0])]
            if t.k == "fmt":
                out = []
                for y in t.a[0]:
                    out += self.expand(I, st, y)
                return out
            c = self.cleaned(t, I)
            if c is not None:
                return [("hole", C, c, t)]
            al = I.alts(t)
            if all(a.k == "str" and re.fullmatch(r"[A-Za-z0-9_]+", a.a[0]) for a in al):
                return [("lit", al[0].a[0])]
            if len(al) > 1 and all(a.k == "str" for a in al):
                # one of several texts which isn't known here
                return [("hole", "?", t)]
            cl = [a if a.k == "str" else self.cleaned(a, I) for a in al]
            if all(x is not None for x in cl):
                return [("hole", C, t)]
            return [("hole", R_, t)]
        return [("hole", "?", t)]

    def on_text(self, I, st, ev, w, tk):
        for x in self.expand(I, st, tk):
            self.token(I, st, ev, x)

    def token(self, I, st, ev, x):
        if x[0] == "block":
            self.block(I, st, ev, x)
            return
        toks = st.a.toks
        if x[0] == "hole":
            if not toks and x[1] == R_ and self.is_stack(I, x[2]):
                self.record(I, st, ev, "STACK", [x[2]], "")
                return
            toks = toks + (x,)
        else:
            for part in re.split("(\n)", x[1]):
                if part == "\n":
                    st.a = st.a._replace(toks=toks)
                    self.line(I, st, ev)
                    toks = st.a.toks
                elif part:
                    if toks and toks[-1][0] == "lit":
                        toks = toks[:-1] + (("lit", toks[-1][1] + part),)
                    else:
                        toks = toks + (("lit", part),)
        # the address ranges of an INLINE record, written in a loop
        while len(toks) >= 9 and toks[-4:] == toks[-8:-4] and toks[-4] == ("lit", " "):
            toks = toks[:-4]
        st.a = st.a._replace(toks=toks)

    def is_stack(self, I, t):
        return t.k == "fld" and t.a[1] == "stack"

    def block(self, I, st, ev, x):
        self.rep.ob("record", ev.site(), not st.a.toks, "a symbol starts on a line of its own")
        self.note(st, "FUNC" if x[1] == "SYMBOL" else "LINE", [x[2]])
        if x[1] == "LINES":
            # both kinds of records are written by the block
            self.kinds.setdefault(x[2], set()).update(("INLINE", "LINE"))
            st.a = st.a._replace(subs=st.a.subs | {x[2]}, order=LINES)
        else:
            st.a = st.a._replace(order=ORDER["FUNC"])

    def note(self, st, kind, holes):
        rest = set(st.a.loops)
        for s in st.a.loops:
            if any(y.k == "elem" and y.a[1] is s or y is s for h in holes for y in subterms(h)):
                self.kinds.setdefault(s, set()).add(kind)
                rest.discard(s)
        st.a = st.a._replace(loops=frozenset(rest))

    def line(self, I, st, ev):
        toks = st.a.toks
        st.a = st.a._replace(toks=())
        txt = "".join(t[1] for t in toks)
        holes = [t[2] for t in toks if t[0] == "hole"]
        for kind, pat, fields in RECORDS:
            m = re.fullmatch(pat, txt)
            if m:
                if kind == "CODE_ID" and not self.is_code_id(I, st, holes[0]):
                    continue
                self.record(I, st, ev, kind, holes, m.group(1) if m.groups() else "", fields, toks)
                return
        nice = txt.replace(X, "{hex}").replace(N, "{dec}").replace(C, "{clean text}").replace(R_, "{text}")
        self.rep.ob("record", ev.site(), False, "the line is a record of the grammar: %r" % nice)

    def is_code_id(self, I, st, t):
        x = t
        while x.k == "call" and short(x.a[0]).startswith("str::trim"):
            x = x.a[1][0]
        if x.k != "fmt":
            return False
        tk = []
        for y in x.a[0]:
            tk += self.expand(I, st, y)
        txt = "".join(y[1] for y in tk)
        return re.fullmatch("INFO CODE_ID [%s%s] [%s%s]" % (R_, C, R_, C), txt) is not None and "code_id" in [f for f in fields_of(tk[1][2])[0]]

    def record(self, I, st, ev, kind, holes, marker, fields=None, toks=()):
        order, sym = st.a.order, st.a.sym
        o = ORDER[kind] if kind != "LINE" else LINES
        if order == LINES and kind != "INLINE":
            order = ORDER["LINE"]
        self.rep.ob("record", ev.site() + " " + kind, True, "a %s record" % kind)
        if kind in ("MODULE", "FILE", "PUBLIC", "FUNC"):
            self.named.setdefault(ev.site() + " " + kind, set()).add(bool(toks) and toks[-1][0] == "hole" and toks[-1][1] in (C, R_))
        self.rep.ob("order", ev.site() + " " + kind, o >= order and not (kind in ("MODULE", "STACK") and o == order), "%s comes after the records that precede it (%s)" % (
            kind, [k for k, v in ORDER.items() if v == order] or "lines"))
        if kind in ("INLINE", "LINE") and not self.partial:
            self.rep.ob("order", ev.site() + " " + kind + " after FUNC", sym is not None, "a %s record only follows a FUNC record" % kind)
        st.a = st.a._replace(order=o)
        if fields:
            for i, h in enumerate(holes):
                want = fields[i] if i < len(fields) else fields[4 + i % 2]
                got = fields_of(h)[0]
                self.rep.ob("field", ev.site() + " %s field %d" % (kind, i + 1), bool(got) and got[-1] == want, "field %d of %s is the %s of the symbol: %s" % (i + 1, kind, want, show(h)[-60:]))
        if kind in ("PUBLIC", "FUNC"):
            base = holes[0].a[0] if holes[0].k == "fld" else None
            for h in holes:
                if h.k == "fld":
                    self.rep.ob("field", ev.site() + " " + kind + " one symbol", h.a[0] is base, "all the fields are those of the same symbol")
            if base is not None:
                m = I.known(st, models.fld(base, "is_multiple"))
                self.rep.ob("marker", ev.site() + (" with m" if marker else " without m"), m is bool(marker), "the marker is %s and is_multiple is %s" % ("there" if marker else "absent", m))
                p = I.known(st, models.fld(base, "is_public"))
                self.rep.ob("kind", ev.site() + " " + kind, p is (kind == "PUBLIC"), "a %s record for a symbol with is_public = %s" % (kind, p))
            self.sub(st, ev.site())
            st.a = st.a._replace(subs=frozenset(), sym=base if kind == "FUNC" else None)
        if kind == "STACK":
            self.sub(st, ev.site())
            st.a = st.a._replace(subs=frozenset(), sym=None)
        if kind in ("PUBLIC", "FUNC", "ORIGIN"):
            x = toks[-1] if toks else ("lit", "")
            ok = x[1].endswith("<name omitted>") if x[0] == "lit" else not_blank(I, st, x[-1])
            self.rep.ob("name", ev.site() + " " + kind, ok, "the name in a %s record isn't blank" % kind)
        self.fields(I, st, ev, kind, holes, toks)
        self.note(st, kind, holes)

    def sub(self, st, site):
        if st.a.sym is not None:
            self.subs.append((site, st.a.subs))

    partial = False

    def fields(self, I, st, ev, kind, holes, toks):
        pass

    # ------------------------------------------------ loops
    def chars(self, it):
        return it.a[0].k == "call" and short(it.a[0].a[0]).endswith(("chars", "bytes", "lines"))

    def on_next(self, I, st, ev, it):
        if it.k != "iter" or self.chars(it):
            return
        src = I.resolve(st, it.a[0])
        if src in st.a.loops:
            part = any(t[0] == "hole" and any(y.k == "elem" and y.a[1] is src for y in subterms(t[2])) for t in st.a.toks)
            self.rep.ob("every", ev.site(), part, "an element of %s is passed over without a record" % show(src)[:80])
            st.a = st.a._replace(loops=st.a.loops - {src})

    def on_elem(self, I, st, ev, it, v):
        self.clean_elem(I, st, it, v)
        if self.chars(it):
            return
        src = I.resolve(st, it.a[0])
        stages = [k for k, _ in it.a[2] if k not in ("map", "enumerate", "swap", "inspect")]
        self.rep.ob("every", ev.site(), not stages, "the loop goes over all the elements in order%s" % (": " + ", ".join(stages) if stages else ""))
        st.a = st.a._replace(loops=st.a.loops | {src})
        self.loop(I, st, ev, it, v)

    def loop(self, I, st, ev, it, v):
        pass

    def on_skip(self, I, st, ev, it):
        if not self.chars(it):
            self.rep.ob("every", ev.site(), False, "some elements are left out")

    def on_end(self, I, st, ev, it):
        if not self.chars(it):
            src = I.resolve(st, it.a[0])
            inner = any(x.k == "elem" for x in subterms(src)) and not self.partial
            st.a = st.a._replace(subs=st.a.subs | {src}) if inner else st.a._replace(subs=st.a.subs | {src}, done=st.a.done | {src})

    def on_exit(self, I, st, fn, v):
        s = st.copy()
        if not I.assume_variant(s, v, "Ok"):
            return
        self.rep.ob("record", "exit of " + fn.path, not s.a.toks, "the text ends with a complete record")
        self.sub(s, "exit of " + fn.path)
        self.exits.append((s.a.order, s.a.done))

    def after(self, wanted):
        """What is decided once all the loops are known."""
        for s, v in self.named.items():
            self.rep.ob("field", s + " name", True in v, "the record ends with the name")
        for o, done in self.exits:
            if "STACK" in wanted:
                self.rep.ob("complete", "exit stack", o == ORDER["STACK"], "the stack records end the text")
            have = set()
            for s in done:
                have |= self.kinds.get(s, set())
            for k in wanted:
                if k != "STACK":
                    self.rep.ob("complete", "exit " + k, k in have, "all the %s records are written" % k)
        for site, done in self.subs:
            have = set()
            for s in done:
                have |= self.kinds.get(s, set())
            for k in ("INLINE", "LINE"):
                self.rep.ob("complete", site + " " + k, k in have, "all the %s records of a FUNC are written" % k)
