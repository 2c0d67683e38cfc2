#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property of the current /repo tree."""
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import ir, core                     # noqa: E402
from sa.engine import TooComplex            # noqa: E402
from sa.registry import CHECKS              # noqa: E402

VERIF = ir.VERIF


def known():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(kv.split("=", 1) for kv in line[6:].split(" :: ")[0].split() if "=" in kv)
                d["text"] = line.split(" :: ", 1)[1] if " :: " in line else ""
                out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    verbose = "-v" in sys.argv
    t0 = time.time()
    spec = CHECKS[pid]
    prog = ir.load()
    cx = core.Ctx(prog, pid, tier)
    def late(*_):
        raise TooComplex("the analysis did not finish within its time budget")
    signal.signal(signal.SIGALRM, late)
    budget = 600.0
    for fn in spec["run"]:
        t1 = time.time()
        signal.setitimer(signal.ITIMER_REAL, max(20.0, min(300.0, budget)))
        try:
            fn(cx)
        except TooComplex as ex:
            cx.fail_limit(None, "%s: %s" % (fn.__name__, ex))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        budget -= time.time() - t1
    bad = [o for o in cx.obs if not o.ok]
    kn = [k for k in known() if k.get("property") == pid]
    viol, listed = [], []
    for o in bad:
        m = [k for k in kn if k["rule"] == o.rule and k["instance"] == (o.inst or o.where.split(":")[0])]
        (listed if m else viol).append((o, m))
    for (o, m) in {x[1][0]["text"]: x for x in listed}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, m[0]["text"]))
    if verbose:
        for o in cx.obs:
            print("  %-4s %-14s %s %s" % ("ok" if o.ok else "BAD", o.rule, o.where, o.detail if not o.ok else ""))
    # one report per distinct construct
    seen, reports = set(), []
    for (o, _) in viol:
        key = (o.rule, o.where, o.inst)
        if key in seen:
            continue
        seen.add(key)
        reports.append(o)
    rules = {}
    for o in cx.obs:
        r = rules.setdefault(o.rule, [0, 0])
        r[0] += 1
        r[1] += o.ok
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec["level"],
        "coverage": {
            "explanation": spec["explain"] + " Obligations per rule (total/discharged): " +
            ", ".join("%s %d/%d" % (k, v[0], v[1]) for k, v in sorted(rules.items())) +
            ". Functions analysed: %d; abstract paths: %d; loops solved: %d." % (len(cx.functions), cx.paths, cx.loops),
            "obligations": len(cx.obs), "discharged": len([o for o in cx.obs if o.ok]),
            "rules": {k: {"checked": v[0], "discharged": v[1]} for k, v in sorted(rules.items())},
            "functions": sorted(cx.functions), "paths": cx.paths, "loops": cx.loops,
            "sites": sorted({o.where for o in cx.obs})[:400],
            "undecided": cx.undecided, "notes": cx.notes,
            "known_findings": [m[0]["text"] for (o, m) in listed],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reports),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    for u in cx.undecided:
        print("UNDECIDED: property=%s %s" % (pid, u))
    if reports:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as fp:
            for o in reports:
                fp.write("property %s, rule '%s' violated at %s %s\n  %s\n" % (pid, o.rule, o.where, o.inst, o.detail))
                for s in o.path:
                    fp.write("    via %s\n" % s)
        for o in reports[:20]:
            print("%s: rule '%s' %s: %s" % (o.where, o.rule, o.inst, o.detail))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if not cx.obs and not cx.undecided:
        raise ir.AnalysisBroken("no obligations")
    print("%s: %d obligations discharged in %d functions, %d paths (%.1fs)" %
          (pid, len(cx.obs), len(cx.functions), cx.paths, time.time() - t0))
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # a run must not depend on the hash seed
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        sys.exit(main())
    except ir.AnalysisBroken as ex:
        print("ANALYSIS-BROKEN: %s" % ex)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(4)
