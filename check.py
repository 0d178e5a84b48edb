#!/usr/bin/env python3
"""check.py <property id> [--thorough]

Analyses /repo's current sources for one property, rewrites evidence/<id>.json, and exits
  0  every obligation was discharged (listed known findings are printed),
  1  a violation: VIOLATION property=<id> replay=<report file>,
  3  the analysis could not give an answer (an anchor vanished, a rule matched nothing, a parse failure)."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True

from cast import AnalysisBroken  # noqa: E402
from report import Report, load_known  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    R = Report(pid, tier)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    broken = None
    try:
        importlib.import_module(pid.lower()).run(R)
        R.check_floors()
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    known = load_known(os.path.join(HERE, "known-findings.txt"), pid)
    new, old = [], []
    for v in R.violations:
        (old if v["key"] in known else new).append(v)
    cov = {"explanation": R.explain, "obligations": R.total(), "discharged": R.total() - len(R.violations),
           "rules": R.rules, "analysed": R.counts, "samples": R.samples[:12]}
    out = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": R.assumes,
           "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if broken:
        out["coverage"]["analysis_error"] = broken[:1500]
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write("\n")
    rp = os.path.join(ev, pid + ".report.txt")
    with open(rp, "w") as f:
        for v in R.violations:
            f.write("%s%s\n  rule: %s\n  at: %s (in %s)\n  %s\n" % ("[known] " if v["key"] in known else "", v["key"], v["rule"], v["loc"], v["fn"], v["msg"]))
            for d in v["detail"]:
                f.write("    %s\n" % d)
    for v in sorted(set(known[v["key"]] for v in old)):
        print("KNOWN-FINDING: property=%s %s" % (pid, v))
    if new:
        for v in new[:6]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  %s [%s] %s: %s" % (v["loc"], v["fn"], v["rule"], v["msg"]))
            for d in v["detail"][:6]:
                print("      " + d)
        return 1
    if broken:
        print("analysis broken: %s" % broken, file=sys.stderr)
        return 3
    print("%s: %d obligations discharged; %s" % (pid, R.total() - len(old), ", ".join("%s=%s" % kv for kv in sorted(R.counts.items()))))
    return 0


if __name__ == "__main__":
    sys.exit(main())
