#!/usr/bin/env python3
"""Makes planted bugs: seedtool.py specs.py [id ...].  A spec module has S = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=str)].
Each is confirmed in a scratch copy of /repo (builds, passes the stable tests, demo 0 without / non-zero with), then written to /verif/seeded/<id>."""
import sys, os, subprocess, importlib.util, json, shutil
SC = "/tmp/seed"
R = SC + "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cd %s; touch -c src/lib.rs src/main.rs; %s" % (R, R, cmd)], capture_output=True, text=True, **k)


def build():
    r = sh("cargo build --workspace --offline 2>&1 && cargo test --workspace --no-run --offline 2>&1")
    return r.returncode == 0, r.stdout[-3000:]


def tests():
    r = sh("timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1")
    ok = set()
    for l in r.stdout.split("\n"):
        if l.startswith("test ") and l.rstrip().endswith("... ok"):
            ok.add(l.split()[1])
    want = [s.split("::", 1)[1] for s in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    return [w for w in want if w not in ok]


def demo(d):
    r = sh("timeout 300 bash %s/demo.sh" % d)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    sp = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    only = set(sys.argv[2:])
    os.makedirs(SC, exist_ok=True)
    for s in m.S:
        if only and s["id"] not in only: continue
        if not only and os.path.exists(os.path.join(V, "seeded", s["id"])): continue
        subprocess.run(["rsync", "-a", "--delete", "/repo/", R + "/"], check=True)
        d = SC + "/demo/" + s["id"]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/demo.sh", "w").write("#!/bin/bash\n" + s["demo"].lstrip("\n"))
        for n, t in s.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
        bad = None
        b, o = build()
        rc, out = demo(d)
        if rc != 0: print(s["id"], "DEMO FAILS ON THE CLEAN TREE", rc, out); continue
        for f, old, new in s["edits"]:
            p = R + "/" + f; t = open(p).read()
            if t.count(old) != 1: bad = "edit applies %d times: %s" % (t.count(old), old[:60]); break
            open(p, "w").write(t.replace(old, new))
        if bad: print(s["id"], bad); continue
        diff = sh("git diff").stdout
        b, o = build()
        if not b: print(s["id"], "DOESN'T BUILD", o); continue
        t = tests()
        if t: print(s["id"], "TESTS FAIL", t); continue
        rc, out = demo(d)
        if rc == 0: print(s["id"], "DEMO PASSES WITH THE BUG", out); continue
        e = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(e, ignore_errors=True); shutil.copytree(d, e)
        open(e + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(e + "/meta.json", "w"), indent=1)
        print(s["id"], "ok: demo says", rc, out.strip().split("\n")[-1][:150]); sys.stdout.flush()
main()
