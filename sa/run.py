"""Runs the check of one property (or several): run.py C05 [C06 ...]"""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import facts, checklib

VERIF = facts.VERIF


class Ctx:
    pass


def known():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: "):
                d = l[7:].split(" ", 1)
                out.setdefault(d[0].split("=", 1)[1], set()).add(d[1].split(" -- ")[0].strip())
    return out


def one(pid, tier):
    t0 = time.time()
    rep = checklib.Report(pid)
    err = None
    mod = None
    try:
        ctx = Ctx()
        ctx.rep, ctx.tier = rep, tier
        ctx.load = facts.load
        ctx.prog = facts.load()
        mod = importlib.import_module("checks." + pid.lower())
        mod.check(ctx)
    except facts.FactsError as e:
        err = "the program facts can't be extracted: %s" % e
    except Exception as e:
        err = "the analysis can't follow the code any more: " + traceback.format_exc().strip()[-1500:]
    if err:
        rep.rule("analysis", "the analysis covers the code")
        rep.ob("analysis", "analysis", False, err)
    viol = rep.violations()
    kn = known().get(pid, set())
    new, old = [], []
    for r, k, o in viol:
        (old if "%s @ %s" % (r, k) in kn else new).append((r, k, o))
    for r, k, o in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o[2], o[3]))
    edir = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    replay = os.path.join(edir, pid + ".violations.txt")
    if new:
        with open(replay, "w") as f:
            for r, k, o in new:
                f.write("rule %s: %s\n  at %s\n  %s\n" % (r, rep.rules[r], o[2], o[3]))
        for r, k, o in new[:20]:
            print("%s: rule %s (%s)\n    at %s\n    %s" % (pid, r, rep.rules[r], o[2], o[3]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    elif os.path.exists(replay):
        os.remove(replay)
    n = len(rep.obs)
    good = sum(1 for o in rep.obs.values() if o[0])
    per = {}
    for (r, _), o in rep.obs.items():
        per.setdefault(r, [0, 0])
        per[r][0] += 1
        per[r][1] += o[1]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the MIR of /repo's current tree; no code is run. %d obligations (construct, rule) "
                           "were decided, %d of them on more than one path; %d hold." % (n, sum(1 for o in rep.obs.values() if o[1] > 1), good),
            "obligations": n, "discharged": good,
            "path_evaluations": sum(o[1] for o in rep.obs.values()),
            "entry_points": rep.roots, "functions_analysed": len(rep.fns), "call_sites_followed": rep.calls, "blocks_interpreted": rep.steps,
            "rules": {r: {"text": rep.rules[r], "constructs": per.get(r, [0, 0])[0], "evaluations": per.get(r, [0, 0])[1]} for r in rep.rules},
            "samples": [{"rule": r, "at": o[2], "decided": o[3]} for (r, _), o in list(rep.obs.items())[:400:max(1, n // 12)]],
            "functions": sorted(rep.fns)[:400],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) if mod else [],
        "violations": len(new), "known_findings": len(old),
        "wall_s": round(time.time() - t0, 3),
    }
    json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d hold, %d violations, %d known findings; %d functions, %d blocks; %.1f s" %
          (pid, n, good, len(new), len(old), len(rep.fns), rep.steps, time.time() - t0))
    return 1 if new else 0


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    rc = 0
    for i in ids:
        rc |= one(i, tier)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
