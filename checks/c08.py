"""an error that is reported always shows in the exit status"""
import cfg
import prog
import strs
from cfg import strip, args
from nullrules import fx
from status import Status

RULE = "reported error gives a nonzero status"


def lemon_diag(p):
    def writes_err(n, f):
        s = strip(args(n)[0])
        if s.kind == "DeclRefExpr":
            if s.ref.name == "stderr":
                return True
            return s.ref.kind == "ParmVarDecl" and s.ref.name in errparams.get(f, ())
        return False
    # FILE* parameters that are handed stderr (directly or through another such parameter)
    errparams = {}
    ch = True
    while ch:
        ch = False
        for f in p.functions:
            for c, n in p.calls(f):
                if c not in p.functions:
                    continue
                ps = [k for k in p.functions[c].kids if k is not None and k.kind == "ParmVarDecl"]
                for i, a in enumerate(args(n)):
                    a = strip(a)
                    if a.kind == "DeclRefExpr" and i < len(ps) and (a.ref.name == "stderr" or a.ref.name in errparams.get(f, ())):
                        if ps[i].name not in errparams.setdefault(c, set()):
                            errparams[c].add(ps[i].name)
                            ch = True

    def is_diag(n, nm, f):
        if nm in ("fprintf", "vfprintf"):
            return writes_err(n, f)
        if nm in ("fputs", "putc", "fputc"):
            s = strip(args(n)[1])
            return s.kind == "DeclRefExpr" and s.ref.name == "stderr"
        return nm == "perror"
    return is_diag


def byacc_diag(p):
    S = strs.Strings(p)

    def is_diag(n, nm, f):
        if nm != "fprintf":
            return False
        s = strip(args(n)[0])
        if s.kind != "DeclRefExpr" or s.ref.name != "stderr":
            return False
        t = S.one(args(n)[1])
        return t is not None and (": e - " in t or ": f - " in t or t.startswith("expected %d ") or t.startswith("invalid option")
                                  or t.startswith("Usage:") or t.startswith("Table is longer"))
    return is_diag


def one(R, p, diag, counters, allowed, floors):
    e = fx(p)
    A = Status(p, e, diag, counters, allowed=allowed)
    # counters only ever incremented (an exit with them is a count), and functions that clear one
    resets = {}
    counted = set()
    for f, d in p.functions.items():
        for n in d.walk():
            if n.kind == "UnaryOperator" and n.op == "++" and strip(n.kids[0]).kind == "MemberExpr" and p.owner(strip(n.kids[0])) in A.counters:
                counted.add((p.owner(strip(n.kids[0])), "count"))
            if n.kind == "BinaryOperator" and n.op == "=" and strip(n.kids[0]).kind == "MemberExpr":
                o = p.owner(strip(n.kids[0]))
                if o in A.counters and (cfg.const_int(n.kids[1]) or 0) == 0:
                    resets.setdefault(f, set()).add(o)
    cg = p.callgraph()
    ch = True
    while ch:
        ch = False
        for f in p.functions:
            for c in cg[f]:
                if c in resets and not resets[c] <= resets.get(f, set()):
                    resets.setdefault(f, set()).update(resets[c])
                    ch = True
    A.resets = resets
    A.counted = counted
    A.run()
    R.ok(RULE, len(A.diags) + len(A.exits), "%s: %d places that print an error, %d places that end the program" % (p.name, len(A.diags), len(A.exits)))
    R.count(p.name + " error messages", len(A.diags), floors[0])
    R.count(p.name + " exits", len(A.exits), floors[1])
    R.count(p.name + " counter updates", len(A.incs), floors[2])
    for (k, loc), (fn, msg, d, path) in sorted(A.viol.items()):
        det = []
        if d and d != "*":
            det.append("error printed at %s in %s" % tuple(d.split("|")))
        if path:
            det.append("lines on the path: " + " ".join(map(str, path[-40:])))
        R.bad(RULE, k, loc, fn, msg, det)
    return A


def run(R):
    R.explain = ("Every place that prints an error message (lemon: all output to stderr; byacc: messages marked e or f, usage, unmet %expect) is followed "
                 "along every path, through callees by summaries, to the calls that end the program; there the status must be nonzero whenever a "
                 "message was printed on the path: error counters that are incremented, handed up, overwritten or lost, and counts that wrap at 256.")
    R.rule(RULE, "no path from an error message ends the program with status 0")
    R.assumes += ["counters do not overflow int", "dislocations_warning is a warning by design although labelled e"]
    one(R, prog.lemon(), lemon_diag(prog.lemon()), [("lemon", "errorcnt"), ("pstate", "errorcnt")], (), (60, 15, 40))
    for p in (prog.byacc(True), prog.byacc(False)):
        rec = [o for o in set(p.field_owner.values()) if o[1] == "exit_code"]
        one(R, p, byacc_diag(p), rec, ("dislocations_warning",), (25, 20, 2))
