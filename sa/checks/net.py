"""What C13 and C14 share: the servers, the caches and the jobs of the symbol cache."""
from checklib import *

SEARCH = "dump_syms::cache::search_file"
JOB = "dump_syms::cache::Job"
EXISTS = ("Path::exists", "Path::is_file", "Path::try_exists")
OPAQUE = ("utils::get_base", "utils::read_file", "utils::read_cabinet")


def servers(t):
    """The servers given to the search."""
    return t.k == "pay" and t.a[0].k == "arg" and t.a[0].a[1] == "sym_servers"


def is_server(t):
    return t.k in ("elem", "idx") and servers(t.a[1] if t.k == "elem" else t.a[0])


def cache_of(t):
    """The server whose cache directory the term is, if it is one."""
    while t.k == "pay" and t.a[1] == "Some":
        t = t.a[0]
    if t.k == "fld" and t.a[1] == "cache" and is_server(t.a[0]):
        return t.a[0]
    return None


def arg(t, name):
    return t.k == "arg" and t.a[1] == name


def is_base(t):
    return is_call(t, "utils::get_base") and arg(cargs(t)[0], "file_name")


def place(I, t):
    """The server in whose cache the path is the place of the file that is searched, if it is that."""
    if t.k != "path":
        return None
    c = t.a[0]
    if len(c) != 4 or not arg(c[2], "id") or not arg(c[3], "file_name"):
        return None
    if not all(is_base(x) for x in I.alts(c[1])):
        return None
    return cache_of(c[0])


def exists(t):
    """The path whose existence the condition is about."""
    if is_call(t, *EXISTS):
        return cargs(t)[0]
    return None


def only_file_name(t):
    return all(x.k not in ("site", "new", "elem", "fld", "pay", "static") and (x.k != "arg" or x.a[1] == "file_name") for x in subterms(t)) and \
        any(arg(x, "file_name") for x in subterms(t))


def toks(t):
    if t.k == "fmt":
        return list(t.a[0])
    return [("arg", "d", "", t)]


def flat(t):
    """The text a term stands for: literals and values."""
    out = []
    for k in toks(t):
        if k[0] == "arg" and k[3].k == "fmt":
            out += flat(k[3])
        elif k[0] == "arg" and k[3].k == "str":
            out.append(("lit", k[3].a[0]))
        else:
            out.append(k)
    r = []
    for k in out:
        if k[0] == "lit" and r and r[-1][0] == "lit":
            r[-1] = ("lit", r[-1][1] + k[1])
        else:
            r.append(k)
    return r


def url_of(t):
    """-> (server or None, the path of the url is FILE/ID/FILE or its compressed name)"""
    ts = flat(t)
    if not ts or ts[0][0] != "arg":
        return None, False
    s = ts[0][3]
    srv = s.a[0] if s.k == "fld" and s.a[1] == "server" and is_server(s.a[0]) else None
    # the rest: "/" FILE "/" ID "/" LAST
    rest = ts[1:]
    good = len(rest) >= 6 and rest[0] == ("lit", "/") and rest[1][0] == "arg" and arg(rest[1][3], "file_name") and rest[2] == ("lit", "/") and \
        rest[3][0] == "arg" and arg(rest[3][3], "id") and rest[4] == ("lit", "/") and rest[5][0] == "arg" and only_file_name(rest[5][3])
    if good:
        whole = arg(rest[5][3], "file_name")
        good = len(rest) == 6 if whole else rest[6:] == [("lit", "_")]
    return srv, good


def check_job(rep, I, st, names, vals, site):
    f = dict(zip(names, vals))
    url, cache = I.resolve(st, f["url"]), I.resolve(st, f["cache"])
    for u in I.alts(url):
        srv, good = url_of(u)
        rep.ob("url", site + " url", srv is not None, "the url starts with the address of a configured server: %s" % show(u)[:160])
        rep.ob("url-path", site + " path", good, "the url is SERVER/FILE/ID/FILE or SERVER/FILE/ID/FIL_: %s" % show(u)[:160])
        cs = [cache]
        if cache.k != "omap":
            cs = I.alts(cache)
        for c in cs:
            if c.k == "omap":
                p, home = c.a[1], cache_of(c.a[0])
            elif c.k == "agg" and c.a[1] == "Some":
                p = c.a[3][0]
                home = cache_of(p.a[0][0]) if p.k == "path" else None
            elif c.k == "agg" and c.a[1] == "None":
                known = srv is not None and I.variant(st, models.fld(srv, "cache")) == "None"
                rep.ob("place", site + " cache", known, "data isn't stored only if the server has no cache")
                continue
            else:
                rep.ob("place", site + " cache", False, "where the data is stored isn't known: %s" % show(c)[:120])
                continue
            w = place(I, p)
            rep.ob("place", site + " cache", w is not None and w is home and w is srv,
                   "the data is stored where the next search looks, CACHE/BASE/ID/FILE, in the cache of the server it comes from: %s" % show(p)[:160])


def job_rules(rep):
    rep.rule("url", "requests only go to the configured servers")
    rep.rule("url-path", "the file asked for is the one that is searched, by its id")
    rep.rule("place", "a file is stored at the place where it is searched")
    rep.rule("job-fixed", "the url and the place are those the job was made with")


def job_fields(prog, rep):
    n = 0
    for fn, proj, site in all_writes(prog):
        for e in proj:
            if isinstance(e, list) and e[0] == "." and len(e) > 2 and e[2] in (JOB, "dump_syms::cache::SymbolServer"):
                rep.ob("job-fixed", "%s in %s" % (site, fn.path), False, "the field %s is modified after the value was made" % e[1])
    rep.ob("job-fixed", "fields of Job and SymbolServer", True, "no statement assigns or mutably borrows a field of a job or of a server")
