"""no access outside an array of fixed size, for any input"""
import cfg
import prog
import bounds
from nullrules import fx

RULE = "index or length within the fixed array"


def guards(p):
    if p.name != "lemon":
        return None
    # parser states in which the last right-hand side entry is used: at least one entry exists then
    return {(("pstate", "state"), cfg.ENUMS[x]): [(("pstate", "nrhs"), (1, 1000))] for x in ("RHS_ALIAS_1", "RHS_ALIAS_2") if x in cfg.ENUMS}


def run(R):
    R.explain = ("Every write into, and every table lookup in, an array of fixed size (local, static, global or inside a record), and every library call that "
                 "fills one, with intervals inferred for the whole program: locals, fields, globals, parameters, results and text lengths. "
                 "Reads of characters of a text buffer are not bounded here (they stop at the terminating 0).")
    R.rule(RULE, "the interval of the index (or the length written) lies within the array's extent at every reachable place")
    R.assumes += ["argc >= 1 and argv is well formed", "text in a fixed buffer is terminated (the writes that fill it are checked)"]
    for p, floor in ((prog.lemon(), 25), (prog.byacc(True), 45), (prog.byacc(False), 35)):
        B = bounds.Bounds(p, fx(p), guards(p)).run()
        R.count(p.name + " places", len(B.sites), floor)
        for k, v in sorted(B.sites.items())[:12]:
            R.ok(RULE, 0, "%s %s: %s" % (k[1], k[0], v))
        R.ok(RULE, len(B.sites), "%s: %d places" % (p.name, len(B.sites)))
        for (kind, f, what), (loc, msg) in sorted(B.viol.items()):
            R.bad(RULE, "%s|%s" % (kind, what), loc, f, msg)
