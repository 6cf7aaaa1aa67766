#!/usr/bin/env python3
"""Development aid: applies textual variants to a scratch copy of /repo and runs checks on it.
batch.py spec.py [name ...]   spec: V = [(name, props, expect 'bad'|'ok', file, old, new), ...]"""
import sys, os, subprocess, importlib.util, time
ROOT = "/tmp/mut"
REPO = ROOT + "/repo"
def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    env = dict(os.environ, SA_REPO=REPO, SA_BUILD=ROOT + "/build", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    bad = 0
    for name, props, expect, *edits in m.V:
        if only and name not in only and not (only & set(props.split())): continue
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", REPO + "/"], check=True)
        ok = True
        for i in range(0, len(edits), 3):
            f, old, new = edits[i:i+3]
            p = os.path.join(REPO, f); s = open(p).read()
            if s.count(old) < 1:
                print("%-34s EDIT DOESN'T APPLY: %s" % (name, old[:50])); ok = False; break
            open(p, "w").write(s.replace(old, new, 1))
        if not ok: bad += 1; continue
        for pid in props.split():
            r = subprocess.run(["python3", "/verif/sa/run.py", pid], env=env, capture_output=True, text=True)
            o = r.stdout + r.stderr
            v = "VIOLATION property=" + pid in o
            want = expect == "bad"
            crash = "can't be extracted" in o or "can't follow" in o
            good = (v == want) and not crash
            if not good: bad += 1
            first = [l for l in o.split("\n") if l.startswith(pid + ": rule")]
            det = o.split("\n")
            d = ""
            if first:
                i = det.index(first[0]); d = " | ".join(x.strip()[:150] for x in det[i:i+3])
            if good and not os.environ.get('W'): continue
            print("%-34s %s %s %s%s" % (name, pid, "ok  " if good else "BAD ", ("caught" if v else "quiet") + (" CRASH" if crash else ""), (" " + d[:int(os.environ.get('W','70' if good else '400'))]) if (v or crash) else ""))
            if crash: print(o[-700:])
            sys.stdout.flush()
    print("variants:", len(m.V), "unexpected:", bad)
main()
