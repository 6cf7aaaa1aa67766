"""Extraction and loading of the program facts.

The facts are the type-checked program itself (MIR with resolved callees), printed by the rustc driver
in /verif/driver from /repo's current working tree.  Nothing of the analysed code is executed.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys
import canon

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))


class FactsError(Exception):
    pass


def _hash(extra):
    h = hashlib.sha256()
    files = [os.path.join(VERIF, "driver", "mirfacts.rs")]
    for n in ("Cargo.toml", "Cargo.lock"):
        files.append(os.path.join(REPO, n))
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for n in sorted(os.listdir(REPO)):
        if n.endswith(".rs"):
            files.append(os.path.join(REPO, n))
    for f in files:
        h.update(f.encode() + b"\0")
        try:
            h.update(open(f, "rb").read())
        except OSError:
            h.update(b"<missing>")
        h.update(b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_driver():
    src = os.path.join(VERIF, "driver", "mirfacts.rs")
    out = os.path.join(BUILD, "mirfacts")
    stamp = out + ".stamp"
    want = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == want:
        return out
    os.makedirs(BUILD, exist_ok=True)
    rc, o = _run(["rustc", "+nightly", "-O", "-o", out, src], cwd=BUILD)
    if rc:
        raise FactsError("the facts driver doesn't build:\n" + o[-4000:])
    open(stamp, "w").write(want)
    return out


def extract(features="default"):
    """-> directory with dump_syms.json [and bin.json] for /repo's current tree."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = _hash(features)
        out = os.path.join(BUILD, "facts-" + features)
        stamp = os.path.join(out, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == key:
            return out
        drv = build_driver()
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        target = os.path.join(BUILD, "target")
        # cargo must not consider the crate fresh, or the driver would not run
        shutil.rmtree(os.path.join(target, "debug", "build", "dump_syms"), ignore_errors=True)
        for sub in (".fingerprint", "incremental"):
            d = os.path.join(target, "debug", sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith("dump_syms-"):
                        shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        rc, sysroot = _run(["rustc", "+nightly", "--print", "sysroot"])
        env = dict(os.environ)
        env.pop("RUSTFLAGS", None)
        env.pop("CARGO_BUILD_TARGET", None)
        env.update(LD_LIBRARY_PATH=sysroot.strip() + "/lib", MIRFACTS_OUT=out,
                   RUSTC_WORKSPACE_WRAPPER=drv, CARGO_INCREMENTAL="0",
                   CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        cmd = ["cargo", "+nightly", "check", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
        if features == "none":
            cmd += ["--no-default-features", "--lib"]
        need = ["dump_syms.json"] + (["bin.json"] if features == "default" else [])
        for attempt in (1, 2):
            rc, o = _run(cmd, env=env, cwd=REPO)
            if rc:
                raise FactsError("/repo doesn't compile:\n" + o[-6000:])
            missing = [n for n in need if not os.path.exists(os.path.join(out, n))]
            if not missing:
                break
            shutil.rmtree(target, ignore_errors=True)
        if missing:
            raise FactsError("the driver produced no %s:\n%s" % (missing, o[-3000:]))
        open(stamp, "w").write(key)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


class Fn:
    __slots__ = ("path", "kind", "parent", "pub", "argc", "locals", "up", "blocks", "sp", "crate", "prog",
                 "preds", "succs", "live_in", "_loops", "upnames")

    def __init__(self, prog, crate, b):
        self.prog, self.crate = prog, crate
        self.path, self.kind, self.parent = b["path"], b["kind"], b.get("parent")
        self.pub, self.argc = b.get("pub"), b["argc"]
        self.locals, self.up, self.blocks, self.sp = b["locals"], b.get("up") or [], b["blocks"], b.get("sp")
        self._loops = None
        self.preds = self.succs = self.live_in = None

    def local_ty(self, l):
        return (self.crate, self.locals[l][0])

    def __repr__(self):
        return "<fn %s>" % self.path


class Program:
    def __init__(self, directory, crates=("dump_syms", "bin")):
        self.fns, self.types, self.adts, self.unchecked = {}, {}, {}, []
        texts = {}
        for c in crates:
            p = os.path.join(directory, c + ".json")
            if os.path.exists(p):
                texts[c] = open(p).read()
        facts, self.renamed = canon.canon(texts)
        for c, d in facts.items():
            self.types[c] = d["types"]
            self.unchecked += d["unsafe"]
            for k, v in d["adts"].items():
                if v is not None and (k not in self.adts or self.adts[k] is None):
                    self.adts[k] = v
                    self.adts[k]["_crate"] = c
                else:
                    self.adts.setdefault(k, None)
            for b in d["bodies"]:
                f = Fn(self, c, b)
                self.fns[f.path] = f
        self.children = {}
        for f in self.fns.values():
            if "::{closure#" in f.path:
                self.children.setdefault(f.path.rsplit("::{closure#", 1)[0], []).append(f.path)

    def ty(self, t):
        return self.types[t[0]][t[1]]

    def tystr(self, t):
        return self.ty(t)["s"]


_cache = {}


def load(features="default"):
    d = extract(features)
    if d not in _cache:
        _cache[d] = Program(d, ("dump_syms", "bin") if features == "default" else ("dump_syms",))
    return _cache[d]


if __name__ == "__main__":
    p = load()
    print(len(p.fns), "bodies")
