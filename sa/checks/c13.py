"""No network access unless a server is configured and nothing local matches."""
from checklib import *
from checks import net

ASSUMPTIONS = ["only the crate reqwest and std::net reach the network",
               "a file that doesn't exist when it is looked for isn't there"]
# what reqwest offers besides sending something
QUIET = re.compile(r"::(new|header|headers|build|builder|status|error_for_status|error_for_status_ref|copy_to|bytes|text|from|fmt|clone|default|timeout|user_agent|content_length|url|branch|from_residual|from_output|deref|into_future|is_ok|is_err|into|drop)$")


def network(path):
    return ("reqwest::" in path and not QUIET.search(path)) or "std::net::" in path


def requests(name, path):
    """A call that names the url: its argument is checked."""
    return "reqwest" in path and name.rsplit("::", 1)[-1] in ("get", "head", "post", "put", "delete", "patch", "request")


class Search(CRule):
    """The automaton follows the search in the caches: "start", "pend" (a server is looked at, its cache isn't looked in yet), "scan", "done", "hit", "bad"."""
    opaque = net.OPAQUE

    def initial(self):
        return "start"

    def srv_iter(self, it):
        return it.k == "iter" and net.servers(it.a[0])

    def on_elem(self, I, st, ev, it, v):
        if self.srv_iter(it) and st.a in ("start", "scan", "pend", "hit"):
            st.a = "bad" if st.a in ("pend", "hit") else "pend"

    def on_fact(self, I, st, t, v):
        p = net.exists(t)
        if p is not None and isinstance(v, bool):
            w = net.place(I, p)
            if w is not None and st.a in ("start", "scan", "pend"):
                st.a = "hit" if v else "missed"
                return
        if v == "None" and t.k == "fld" and t.a[1] == "cache" and net.is_server(t.a[0]) and st.a in ("start", "scan", "pend"):
            st.a = "missed"

    def on_next(self, I, st, ev, it):
        if self.srv_iter(it):
            if st.a == "missed":
                st.a = "scan"
            elif st.a in ("pend", "hit"):
                st.a = "bad"

    def on_skip(self, I, st, ev, it):
        if self.srv_iter(it):
            if st.a == "missed":
                st.a = "scan"
            elif st.a in ("start", "scan", "pend", "hit"):
                st.a = "bad"

    def on_end(self, I, st, ev, it):
        if self.srv_iter(it):
            if not whole(it):
                st.a = "bad"
            elif st.a in ("start", "scan", "missed"):
                st.a = "done"
            elif st.a in ("pend", "hit"):
                st.a = "bad"

    WHY = {"start": "the caches weren't searched", "pend": "a cache wasn't looked in", "scan": "not all the caches were searched", "missed": "not all the caches were searched",
           "hit": "the file was found in a cache", "bad": "a cache wasn't looked in at CACHE/BASE/ID/FILE", "done": "all the caches were searched in vain"}

    def on_call(self, I, st, ev):
        if network(ev.path):
            self.seen.add(ev.sp)
            self.rep.ob("cache-first", "%s %s" % (ev.site(), ev.name), st.a == "done", "%s is reached when %s" % (ev.name, self.WHY[st.a]))
            srv = mk("arg", net.SEARCH, "sym_servers")
            self.rep.ob("configured", "%s %s" % (ev.site(), ev.name), I.variant(st, srv) == "Some", "%s is only reached with configured servers" % ev.name)
            if requests(ev.name, ev.path):
                u = ev.args[-1]
                for x in I.alts(I.resolve(st, u)):
                    good = x.k == "fld" and x.a[1] == "url" or net.url_of(x)[0] is not None
                    self.rep.ob("asked", ev.site(), good, "the url asked for is that of a job: %s" % show(x)[:160])
        return None

    seen = set()

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if adt == net.JOB:
            net.check_job(self.rep, I, st, names, vals, site)

    def on_exit(self, I, st, fn, v):
        if st.a == "hit":
            ps = [net.exists(t) for t, val in st.f.items() if val is True and net.exists(t) is not None and net.place(I, net.exists(t))]
            d = I.proj(st, v, ("f", "0"))
            good = False
            if ps and d.k == "agg" and d.a[1] == "Some":
                good = all(is_call(x, "utils::read_file") and I.alts(cargs(x)[0]) and all(y in ps for y in I.alts(cargs(x)[0])) for x in I.alts(d.a[3][0]))
            self.rep.ob("used", "exit of " + fn.path, good, "a file found in a cache is the result: %s" % show(d)[:160])


PLACES = ("at the path the PE has for it", "next to the PE", "next to the PE, compressed", "in the current directory")


class Local(CRule):
    """Automaton: (places looked at in vain, loops under way, a file was found)."""
    opaque = ("cache::search_file", "utils::read_file")

    def initial(self):
        return (frozenset(), frozenset(), False)

    def sticky(self, t, v):
        # whether the file that was found is the right one
        return v in ("Ok", "Err") and is_call(t, "PdbObject::parse") or isinstance(v, bool) and t.k == "bin" and t.a[0] == "Eq" and any(is_call(x, "PdbObject::debug_id") for x in t.a[1:])

    def kind(self, I, t):
        s = subterms(t)
        if not any(is_call(x, "PeObject::debug_file_name") for x in s):
            return None
        if any(net.arg(x, "path") for x in s):
            return 2 if any(x.k == "str" and x.a[0] == "pd_" for x in s) else 1
        if any(is_call(x, "env::current_dir") for x in s) or any(is_call(x, "Path::file_name") for x in s):
            return 3
        return 0

    def on_fact(self, I, st, t, v):
        p = net.exists(t)
        if p is None or not isinstance(v, bool):
            return
        if st.a is None:
            return
        looked, loops, found = st.a
        if v:
            st.a = (looked, loops, True)
            return
        if p.k == "elem" and p.a[1].k == "agg" and p.a[1].a[0] == "[]":
            st.a = (looked, loops | {p.a[1]}, found)
        else:
            st.a = (looked | {self.kind(I, x) for x in I.alts(p)}, loops, found)

    def ended(self, I, st, it):
        if st.a is None or it.k != "iter" or it.a[0].k != "agg" or it.a[0].a[0] != "[]":
            return
        looked, loops, found = st.a
        if ("in", it.a[0]) not in loops:
            st.a = None     # not a path: the array isn't empty
        elif it.a[0] in loops and whole(it):
            st.a = (looked | {self.kind(I, x) for x in it.a[0].a[3]}, loops - {it.a[0], ("in", it.a[0])}, found)

    def on_elem(self, I, st, ev, it, v):
        if st.a is not None and it.k == "iter" and it.a[0].k == "agg" and it.a[0].a[0] == "[]":
            st.a = (st.a[0], st.a[1] | {("in", it.a[0])}, st.a[2])

    def on_skip(self, I, st, ev, it):
        self.on_elem(I, st, ev, it, None)

    def on_end(self, I, st, ev, it):
        self.ended(I, st, it)

    def on_call(self, I, st, ev):
        if ev.path.endswith("cache::search_file"):
            self.sites.add(ev.sp)
            if st.a is None:
                return None
            looked, loops, found = st.a
            if found:
                other = [t for t, v in st.f.items() if (v == "Err" and is_call(t, "PdbObject::parse") or v is False and t.k == "bin" and t.a[0] == "Eq" and
                                                        any(is_call(x, "PdbObject::debug_id") for x in t.a[1:]) and any(is_call(x, "PeObject::debug_id") for x in t.a[1:]))
                         and any(is_call(y, "utils::read_file") for x in subterms(t) for y in I.sources(x) if x.k == "phi" or is_call(x, "utils::read_file"))]
                self.rep.ob("local-first", ev.site() + " found", bool(other), "a PDB was found: it is only searched elsewhere if it has another debug id")
            else:
                for i, w in enumerate(PLACES):
                    self.rep.ob("local-first", "%s %s" % (ev.site(), w), i in looked, "the PDB was %s for %s before it is searched in the caches and servers" % ("looked" if i in looked else "not looked", w))
            ids = I.alts(I.resolve(st, ev.args[1]))
            self.rep.ob("right-file", ev.site() + " id", all(any(is_call(x, "PeObject::debug_id") for x in subterms(t)) for t in ids), "the PDB is searched by the debug id of the PE: %s" % [show(x)[:80] for x in ids])
            s = I.resolve(st, ev.args[2])
            self.rep.ob("right-file", ev.site() + " servers", net.arg(s, "symbol_server"), "on the servers given: %s" % show(s)[:80])
        return None

    sites = set()

    def on_exit(self, I, st, fn, v):
        s = st.copy()
        if not I.assume_variant(s, v, "Some"):
            return
        for x in I.alts(v):
            if x.k == "agg" and x.a[1] == "None":
                continue
            t = I.proj(s, models.pay(x, "Some", "0") if x.k != "agg" else x.a[3][0], ("f", "1"))
            src = I.alts(t)
            good = src and all(is_call(y, "utils::read_file") or y.k == "pay" and y.a[0].k == "fld" and y.a[0].a[1] == "0" and is_call(y.a[0].a[0], "cache::search_file") for y in src)
            self.rep.ob("used", "exit of %s" % fn.path, good, "the PDB is what was read locally or what the search gave: %s" % sorted(show(y)[:60] for y in src)[:3])


class Ids(CRule):
    """The file is searched by id if and only if an id is given; the servers are the configured ones."""
    opaque = READERS + ("dumper::get_object_info", "dumper::store")

    def idv(self, I, st):
        out = {}
        for t, v in st.f.items():
            if t.k == "fld" and t.a[1] in ("debug_id", "code_id") and v in ("Some", "None"):
                out[t.a[1]] = v
        return out

    def sticky(self, t, v):
        return t.k == "fld" and t.a[1] in ("debug_id", "code_id")

    def on_call(self, I, st, ev):
        if ev.path.endswith("cache::search_file"):
            self.sites.add(ev.sp)
            k = self.idv(I, st)
            self.rep.ob("by-id", ev.site(), "Some" in k.values(), "the file is only searched in the caches and servers when its debug or code id is given")
            t = I.resolve(st, ev.args[1])
            good = all(x.k == "pay" and x.a[0].k == "fld" and x.a[0].a[1] in ("debug_id", "code_id") for x in I.alts(t))
            self.rep.ob("right-file", ev.site() + " id", good, "it is searched by the id given: %s" % show(t)[:80])
            self.servers(I, st, ev, 2)
        if ev.path.endswith("utils::read_file"):
            k = self.idv(I, st)
            self.rep.ob("by-id", ev.site() + " read", "Some" not in k.values(), "the file itself is read when no id is given")
        if ev.path.endswith("windows::utils::get_pe_pdb_buf"):
            self.servers(I, st, ev, 2)
        if ev.path.endswith("cache::get_sym_servers"):
            t = I.resolve(st, ev.args[0])
            self.rep.ob("from-option", ev.site(), all(x.k == "fld" and x.a[1] == "symbol_server" or net.arg(x, "symbol_server") for x in I.alts(t)),
                        "the servers are those of the option: %s" % show(t)[:80])
        return None

    sites = set()

    def servers(self, I, st, ev, n):
        t = I.resolve(st, ev.args[n])
        ss = [x for x in subterms(t) if is_call(x, "cache::get_sym_servers")]
        self.rep.ob("from-option", ev.site() + " servers", bool(ss) and all(x.k in ("call", "site", "fld", "pay", "arg", "omap", "agg") for x in subterms(t)),
                    "the servers are the configured ones: %s" % show(t)[:100])


class Conf(CRule):
    """Where the servers come from: the option, else the configuration file."""

    def text(self, I, t):
        """The text the configuration is read from: 'option', 'file' or None."""
        s = subterms(t)
        o = any(x.k == "arg" and x.a[1] == "symbol_server" for x in s)
        f = any(x.k == "str" and x.a[0] == ".dump_syms" or x.k == "str" and ".dump_syms" in str(x.a[0]) for x in s)
        return "option" if o else "file" if f else None

    def on_agg(self, I, st, adt, variant, names, vals, site, fn, fid):
        if not adt.endswith("cache::SymbolServer"):
            return
        f = dict(zip(names, vals))
        given = I.variant(st, mk("arg", "dump_syms::cache::get_sym_servers", "symbol_server"))
        ev = site
        for t in I.alts(I.resolve(st, f["server"])):
            src = self.text(I, t)
            if t.k == "str":
                self.rep.ob("conf", site + " default", t.a[0] == "https://msdl.microsoft.com/download/symbols" and self.count(st) == 1,
                            "the default server is only used when 'srv' alone is given: %s with %s parts" % (t.a[0], self.count(st)))
                continue
            n = self.count(st)
            i = self.part(t)
            self.rep.ob("conf", "%s server of %s" % (site, n), (i, n) in ((1, 2), (2, 3)), "the server is the last part of srv*SERVER or srv*CACHE*SERVER: part %s of %s" % (i, n))
            self.rep.ob("conf", site + " from " + str(src), src == ("option" if given == "Some" else "file" if given == "None" else None),
                        "the text comes from the option if it is given, else from the configuration file: it comes from %s with the option %s" % (src, given))
        for t in I.alts(I.resolve(st, f["cache"])):
            n = self.count(st)
            if t.k == "agg" and t.a[1] == "None":
                self.rep.ob("conf", "%s no cache of %s" % (site, n), n in (1, 2), "there is no cache when none is given")
            elif t.k == "agg":
                i = {self.part(x) for x in I.alts(t.a[3][0])}
                self.rep.ob("conf", "%s cache of %s" % (site, n), i == {1} and n == 3, "the cache is the second of the three parts: part %s of %s" % (i, n))
            else:
                self.rep.ob("conf", site + " cache", False, "the cache isn't known: %s" % show(t)[:80])

    def sticky(self, t, v):
        return isinstance(v, bool) and t.k == "bin" and t.a[0] == "Eq" and any(x.k == "call" and x.a[0] == "len" for x in t.a[1:]) and any(x.k == "int" for x in t.a[1:])

    def count(self, st):
        for t, v in st.f.items():
            if t.k == "call" and t.a[0] == "len" and isinstance(v, int) and not isinstance(v, bool):
                return v
            if v is True and t.k == "bin" and t.a[0] == "Eq":
                x, y = t.a[1:]
                for x, y in ((x, y), (y, x)):
                    if x.k == "call" and x.a[0] == "len" and y.k == "int":
                        n, x = y.a[0], x.a[1][0]
                        while x.k == "idx" and x.a[1].k == "agg" and x.a[1].a[0].endswith("RangeFrom") and x.a[1].a[3][0].k == "int":
                            n, x = n + x.a[1].a[3][0].a[0], x.a[0]
                        return n
        return None

    def part(self, t):
        for x in subterms(t):
            if x.k == "idx" and x.a[1].k == "int":
                n, x = x.a[1].a[0], x.a[0]
                while x.k == "idx" and x.a[1].k == "agg" and x.a[1].a[0].endswith("RangeFrom") and x.a[1].a[3][0].k == "int":
                    n, x = n + x.a[1].a[3][0].a[0], x.a[0]
                return n
        return None


def check(ctx):
    rep = ctx.rep
    net.job_rules(rep)
    rep.rule("cache-first", "a request is only sent after the file was looked for in vain in every configured cache")
    rep.rule("configured", "a request is only sent when servers are configured")
    rep.rule("asked", "the requests are those of the jobs")
    rep.rule("used", "a file found locally or in a cache is what is used")
    rep.rule("local-first", "the PDB of a PE is only searched in the caches and servers when it isn't available locally")
    rep.rule("right-file", "what is searched is the file with the id and the servers given")
    rep.rule("by-id", "the input itself is only searched when an id is given")
    rep.rule("from-option", "the servers searched are those of --symbol-server or of the configuration file")
    rep.rule("conf", "the configuration is read as documented")
    rep.rule("no-other", "nothing else reaches the network")
    Search.seen, Local.sites, Ids.sites = set(), set(), set()
    run(ctx, Search(rep), net.SEARCH)
    run(ctx, Local(rep), "dump_syms::windows::utils::get_pe_pdb_buf")
    run(ctx, Ids(rep), "dump_syms::dumper::single_file")
    run(ctx, Ids(rep), "dump_syms::dumper::get_pe_pdb_object_info")
    run(ctx, Conf(rep), "dump_syms::cache::get_sym_servers")
    net.job_fields(ctx.prog, rep)
    for c in all_calls(ctx.prog):
        if network(c.path):
            rep.ob("no-other", "%s in %s" % (c.sp, c.fn.path), c.sp in Search.seen, "%s is part of the search" % c.path)
        if c.path.endswith("cache::search_file"):
            rep.ob("no-other", "%s in %s" % (c.sp, c.fn.path), c.sp in Local.sites | Ids.sites, "%s is one of the searches that were analysed" % c.path)
    rep.floor("cache-first", 2, "head, get and the sendings")
    rep.floor("configured", 2, "head, get and the sendings")
    rep.floor("asked", 2, "head and get")
    rep.floor("url", 1, "the making of the jobs")
    rep.floor("used", 2, "the file in the cache, the PDB")
    rep.floor("local-first", 5, "the four places, the other debug id")
    rep.floor("by-id", 2, "search, plain reading")
    rep.floor("from-option", 3, "servers of the input, of the PDB")
    rep.floor("conf", 6, "default, two parts, three parts")
    rep.floor("no-other", 3, "calls of reqwest and searches")
