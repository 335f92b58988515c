#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property from /repo's current source.

exit 0: held (known findings are printed as KNOWN-FINDING lines)
exit 1: VIOLATION lines
exit 2: the analysis could not give a verdict
"""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import importlib, json, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    from sa import ir, build, common, engine
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        P = ir.program()
        mod = importlib.import_module("sa.rules." + pid.lower())
        R = mod.run(P, tier)
    except (common.Broken, build.BuildError, engine.Budget) as e:
        print("ANALYSIS-BROKEN property=%s %s: %s" % (pid, type(e).__name__, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    known = {}
    for k in json.load(open(os.path.join(HERE, "known_findings.json"))):
        if k.get("status") == "open" and k["property"] == pid:
            known[k["key"]] = k
    new, seen = [], []
    done = set()
    for v in R.violations:
        v["key"] = v["key"].replace(build.REPO, "/repo")
        if v["key"] in done:
            continue
        done.add(v["key"])
        (seen if v["key"] in known else new).append(v)
    for v in seen:
        print("KNOWN-FINDING: property=%s %s (%s, %s)" % (pid, known[v["key"]]["what"], v["function"], v["where"]))
    rp = os.path.join(ev, pid + ".violations.json")
    json.dump(new, open(rp, "w"), indent=1)
    for v in new:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  %s: [%s] in %s: %s" % (v["where"], v["rule"], v["function"], v["what"]))
        if v.get("stack"):
            print("    call stack: %s" % " > ".join(v["stack"]))
        if v.get("path"):
            print("    branch decisions (line, taken T/F): %s" % " ".join(v["path"]))
        print("    key: %s" % v["key"])
    cov = dict(explanation=R.explain, translation_units=len(P.tus), functions_in_program=len(P.fns), tree=build.REPO)
    cov.update(R.cov)
    cov["known_findings"] = [v["key"] for v in seen]
    json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level="other",
                   coverage=cov, assumptions=R.assumptions or common.ASSUME, wall_s=round(time.time() - t0, 2), violations=len(new)),
              open(os.path.join(ev, pid + ".json"), "w"), indent=1, default=str)
    print("%s: %s; %d units, %d functions, %.1fs" % (pid, "VIOLATED" if new else "held", len(P.tus), len(P.fns), time.time() - t0))
    return 1 if new else 0


sys.exit(main())
