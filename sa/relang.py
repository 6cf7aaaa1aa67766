"""Regular expressions as languages: do two expressions match the same texts? (Exact: product of the determinised automata,
over ASCII and one character that stands for all the other ones.)"""
import re
try:
    from re import _parser as sre, _constants as K
except ImportError:
    import sre_parse as sre, sre_constants as K
ALPHABET = [chr(i) for i in range(128)] + ["\u4e00"]


class Unknown(Exception):
    pass


class Nfa:
    def __init__(self):
        self.eps, self.tr = [], []

    def state(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def seq(self, items, s):
        for it in items:
            s = self.item(it, s)
        return s

    def item(self, it, s):
        op, av = it
        if op is K.LITERAL:
            return self.chars(s, {chr(av)} if av < 128 else {"\u4e00"})
        if op is K.NOT_LITERAL:
            return self.chars(s, set(ALPHABET) - {chr(av)})
        if op is K.ANY:
            return self.chars(s, set(ALPHABET) - {"\n"})
        if op is K.IN:
            return self.chars(s, self.cls(av))
        if op is K.SUBPATTERN:
            if av[1] or av[2]:
                raise Unknown("flags")
            return self.seq(av[3], s)
        if op is K.BRANCH:
            e = self.state()
            for b in av[1]:
                n = self.state()
                self.eps[s].append(n)
                self.eps[self.seq(b, n)].append(e)
            return e
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(lo):
                s = self.seq(sub, s)
            if hi is K.MAXREPEAT:
                a = self.state()
                self.eps[s].append(a)
                b = self.seq(sub, a)
                self.eps[b].append(a)
                e = self.state()
                self.eps[a].append(e)
                return e
            if hi > 64:
                raise Unknown("repeat")
            e = self.state()
            self.eps[s].append(e)
            for _ in range(hi - lo):
                s = self.seq(sub, s)
                self.eps[s].append(e)
            return e
        raise Unknown(str(op))

    def cls(self, av):
        out, neg = set(), False
        for op, v in av:
            if op is K.NEGATE:
                neg = True
            elif op is K.LITERAL:
                out.add(chr(v) if v < 128 else "\u4e00")
            elif op is K.RANGE:
                out |= {chr(i) for i in range(v[0], min(v[1], 127) + 1)}
                if v[1] > 127:
                    out.add("\u4e00")
            else:
                raise Unknown(str(op))     # the Unicode classes differ from one engine to the other
        return set(ALPHABET) - out if neg else out

    def chars(self, s, cs):
        e = self.state()
        self.tr[s].append((cs, e))
        return e

    def close(self, ss):
        seen, stack = set(ss), list(ss)
        while stack:
            for y in self.eps[stack.pop()]:
                if y not in seen:
                    seen.add(y)
                    stack.append(y)
        return frozenset(seen)

    def step(self, ss, c):
        return self.close({e for s in ss for cs, e in self.tr[s] if c in cs})


def suffix(rx):
    """The automaton of the texts an expression that is tied to the end of the text matches."""
    if re.search(r"(?<!\\)\(\?[a-zA-Z-]+[:)]", rx):
        raise Unknown("flags")
    rx = re.sub(r"\(\?P?<[A-Za-z_0-9]+>", "(", rx)
    rx = re.sub(r"\\z$", "$", rx)
    items = list(sre.parse(rx))
    if not items or items[-1] != (K.AT, K.AT_END):
        raise Unknown("not tied to the end of the text")
    n = Nfa()
    s = n.state()
    e = n.seq(items[:-1], s)
    return n, n.close({s}), e


def same_suffix(a, b):
    """-> None if both expressions match the same ends of texts, or why not."""
    try:
        (n, s, e), (m, t, f) = suffix(a), suffix(b)
    except (Unknown, re.error) as x:
        return "%s" % x
    seen, todo = {(s, t)}, [((s, t), "")]
    while todo:
        (s, t), w = todo.pop(0)
        if (e in s) != (f in t):
            return "they differ on %r" % w
        for c in ALPHABET:
            y = (n.step(s, c), m.step(t, c))
            if y not in seen:
                seen.add(y)
                todo.append((y, w + c))
    return None
