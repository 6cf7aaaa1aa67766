#!/usr/bin/env python3
"""Development aid: runs every check on every behaviour-preserving ('ok') variant of the specs, and (with --bad) the named property on every bad one.
cross.py [-j N] [--bad] [spec.py ...]   prints only what is unexpected"""
import sys, os, subprocess, importlib.util, glob
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ROOT = os.environ.get("CROSS_ROOT", "/tmp/cross")
args = sys.argv[1:]
J = 6
if "-j" in args:
    i = args.index("-j"); J = int(args[i + 1]); del args[i:i + 2]
BAD = "--bad" in args
args = [a for a in args if a != "--bad"]
specs = args or [f for f in sorted(glob.glob(V + "/tools/mut/*.py")) if not f.endswith(("batch.py", "cross.py"))]
ALL = [os.path.basename(f)[:3].upper() for f in sorted(glob.glob(V + "/sa/checks/c[0-9][0-9].py"))]
ALL = os.environ.get("CROSS_ONLY", "").split() or ALL
free = Queue()
for i in range(J): free.put(i)


def one(job):
    spec, name, props, expect, edits = job
    w = free.get()
    try:
        repo = "%s/%d/repo" % (ROOT, w)
        os.makedirs(repo, exist_ok=True)
        env = dict(os.environ, SA_REPO=repo, SA_BUILD="%s/%d/build" % (ROOT, w), SA_EVIDENCE="%s/%d/evidence" % (ROOT, w), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", repo + "/"], check=True)
        for i in range(0, len(edits), 3):
            f, old, new = edits[i:i + 3]
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) < 1: return ["%s %s EDIT DOESN'T APPLY: %s" % (spec, name, old[:50])]
            open(p, "w").write(s.replace(old, new, 1))
        out = []
        for pid in (ALL if expect == "ok" else props.split()):
            r = subprocess.run(["python3", V + "/sa/run.py", pid], env=env, capture_output=True, text=True)
            o = r.stdout + r.stderr
            v = "VIOLATION property=" + pid in o
            crash = "can't be extracted" in o or "can't follow" in o or r.returncode not in (0, 1)
            if v != (expect == "bad") or crash:
                ls = o.split("\n")
                k = [i for i, l in enumerate(ls) if l.startswith(pid + ": rule")]
                out.append("%s %s %s %s%s | %s" % (spec, name, pid, "caught" if v else "quiet", " CRASH" if crash else "", " | ".join(x.strip()[:160] for x in ls[k[0]:k[0] + 3]) if k else o[-300:]))
                if "can't be extracted" in o: break
        return out
    except Exception as e:
        return ["%s %s %r" % (spec, name, e)]
    finally:
        free.put(w)


jobs = []
for f in specs:
    sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for name, props, expect, *edits in m.V:
        if expect == "ok" or BAD: jobs.append((os.path.basename(f)[:-3], name, props, expect, edits))
n = 0
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, jobs):
        n += len(r)
        for l in r: print(l, flush=True)
print("variants:", len(jobs), "unexpected:", n)
