"""asking for reports, exports or statistics changes nothing of the generated parser"""
import cfg
import effects
import prog
import strs
from cfg import strip, callee, args
from effects import Effects
from regions import Regions

LEMON = {"main": ("rpflag", "rpyflag", "rpyflag2", "sqlFlag", "quiet", "statistics", "basisflag")}
LEMONF = ("basisflag", "showPrecedenceConflict")
BYACCF = ("vflag", "gflag", "ebnf_flag", "lemon_flag", "naked_flag", "nakedq_flag", "unicc_flag", "carburetta_flag", "sql_flag")
W, L, X = "reports write nothing else reads", "flags only choose reports", "reports end nothing early"
P = "the parser's files"
D = "one file each"


def lemon_flags(p):
    def fl(n, f):
        if n.kind == "DeclRefExpr" and n.ref is not None and n.ref.kind == "VarDecl" and n.ref.name in LEMON.get(f, ()):
            return n.ref.name
        if n.kind == "MemberExpr" and p.owner(n) in [("lemon", x) for x in LEMONF]:
            return n.name
    return fl


def byacc_flags(p):
    def fl(n, f):
        if n.kind == "MemberExpr" and n.name in BYACCF:
            return n.name
    return fl


def allowed(flags):
    def ok(n, f):
        q = n
        while q.parent is not None and (q.parent.kind in cfg.STRIP or q.parent.kind in ("CStyleCastExpr", "ParenExpr")):
            q = q.parent
        q2 = q.parent
        if q2 is None:
            return False
        if q2.kind == "UnaryOperator" and q2.op == "&":
            return True                                   # its place in the table of options
        if q2.kind == "BinaryOperator" and q2.op == "=":
            if q2.kids[0] is q or strip(q2.kids[0]) is strip(q):
                return True                               # set
            return flags(strip(q2.kids[0]), f) is not None   # copied into another flag
        return False
    return ok


# written by reports and read elsewhere, read one by one
EXEMPT = {
    "lemon": {("F", "errorcnt"): "counts errors; decides the exit status only",
              ("F", "outname"): "computed anew by file_open before each use"},
    "byacc": {("F", "itemsetend"): "work area of closure(), which starts from scratch at each call",
              ("E", "itemsetend"): "work area of closure()", ("E", "ruleset"): "work area of closure(), cleared at each call",
              ("E", "itemset"): "work area of closure()"},
}
ENDS = {"lemon": (), "byacc": ("no_space", "on_error", "done", "open_error", "fatal")}


def names_known(n):
    """lookup() of a name taken from symbol_name[]: every symbol is in the table by then, so nothing is created"""
    a = strip(args(n)[-1])
    if a.kind == "DeclRefExpr" and a.ref is not None and a.ref.kind == "VarDecl":
        d = n
        while d.parent is not None and d.kind != "FunctionDecl":
            d = d.parent
        src = [strip(v.kids[0]) for v in d.walk() if v.kind == "VarDecl" and v.id == a.ref.id and v.kids]
        src += [strip(x.kids[1]) for x in d.walk() if x.kind == "BinaryOperator" and x.op == "=" and
                strip(x.kids[0]).kind == "DeclRefExpr" and strip(x.kids[0]).ref.id == a.ref.id]
    else:
        src = [a]
    return bool(src) and all(x.kind == "ArraySubscriptExpr" and strip(x.kids[0]).kind == "MemberExpr" and strip(x.kids[0]).name == "symbol_name" for x in src)


def reads(p, R):
    """(kind, field) -> [(function, node)] of reads outside the observed code"""
    out = {}
    for f, d in p.functions.items():
        for n in d.walk():
            if n.kind == "MemberExpr":
                nm = ("F", n.name)
            elif n.kind == "DeclRefExpr" and n.ref is not None and n.ref.id in cfg.GLOBAL_IDS:
                nm = ("G", n.ref.name)
            else:
                continue
            if R.observed(f, n):
                continue
            q = n
            while q.parent is not None and q.parent.kind in cfg.STRIP:
                q = q.parent
            pa = q.parent
            if pa is not None and pa.kind == "BinaryOperator" and pa.op == "=" and pa.kids[0] is q:
                continue                                  # overwritten
            out.setdefault(nm, []).append((f, n))
    return out


def one(R, name, p, flags, kind, floors):
    fx = Effects(p)
    fx.writes("main")
    G = Regions(p, flags, ("main",), allowed(flags))
    rd = reads(p, G)
    for f, n, fl in G.leaks:
        R.bad(L, "%s|%s|%s" % (name, f, fl), p.loc(n), f, "the value of %s is used other than to choose a report" % fl)
    R.ok(L, len(G.branches), "; ".join("%s in %s" % (fl, f) for f, b, fl, r in G.branches[:4]))
    R.count(name + " branches on report flags", len(G.branches), floors[0])
    R.count(name + " functions of reports", len(G.whole), floors[1])

    handles = {}
    for f, d in p.functions.items():
        for n in d.walk():
            if n.kind == "MemberExpr" and (n.ctype or "").replace(" ", "") == "FILE*":
                q = n
                while q.parent is not None and q.parent.kind in cfg.STRIP:
                    q = q.parent
                pa = q.parent
                if pa is not None and pa.kind == "BinaryOperator" and pa.op == "=" and pa.kids[0] is q:
                    handles.setdefault(n.name, []).append(G.observed(f, n) or cfg.is_null(pa.kids[1]))
    handles = set(h for h, w in handles.items() if all(w))      # files opened for reports only

    ex = EXEMPT["lemon" if name == "lemon" else "byacc"]
    ends = ENDS["lemon" if name == "lemon" else "byacc"]
    nw = 0

    def judge(f, r, n, via=""):
        if r in ex or (r[0] == "F" and r[1] in handles) or r[0] in ("L", "P") or (r[0] in ("R", "?", "EL")):
            return
        base = ("F", r[1]) if r[0] in ("F", "E") else ("G", r[1])
        use = rd.get(base)
        if use:
            R.bad(W, "%s|%s|%s" % (name, f, r[1]), p.loc(n), f, "%s is changed by code that only runs for a report%s, and used by %s" % (
                r[1], via, ", ".join(sorted(set(x for x, _ in use))[:4])),
                ["%s used at %s" % (r[1], p.loc(u)) for _, u in use[:3]])

    for f in sorted(p.functions):
        for r, n in fx.nodes[f]:
            if G.observed(f, n):
                nw += 1
                judge(f, r, n)
        # calls from the region to functions also used elsewhere
        for c, n in p.calls(f):
            if c in p.functions and G.observed(f, n) and c not in G.whole and c not in p.noreturn and n.id not in G.both:
                nw += 1
                if c == "lookup" and names_known(n):
                    continue
                for r in sorted(fx.writes(c), key=str):
                    judge(f, r, n, " (through %s)" % c)
            if c in ("free", "realloc") and G.observed(f, n):
                nw += 1
                a = strip(args(n)[0])
                if a.kind == "MemberExpr" and rd.get(("F", a.name)) and ("F", a.name) not in ex:
                    R.bad(W, "%s|%s|free %s" % (name, f, a.name), p.loc(n), f, "%s is released by code that only runs for a report, and used by %s" % (
                        a.name, ", ".join(sorted(set(x for x, _ in rd[("F", a.name)]))[:4])))
    # locals of functions that go on after the report
    for f, bl in sorted(G.region.items()):
        if f in G.whole:
            continue
        d = p.functions[f]
        ins = G.inside[f]
        wl = {}
        for n in d.walk():
            t = None
            if n.kind == "UnaryOperator" and n.op in ("++", "--", "&"):
                t = strip(n.kids[0])
                if n.op == "&" and (t.ctype or "").startswith(("struct ", "union ")):
                    t = None                               # its fields are followed by name
            elif cfg.is_assign(n):
                t = strip(n.kids[0])
            if t is not None and t.kind == "DeclRefExpr" and n.id in ins and t.ref.id not in cfg.GLOBAL_IDS and not flags(t, f):
                wl.setdefault(t.ref.id, (t.ref.name, n))
        g = p.cfg(f)
        lv = g.live_in()
        after = set()
        for x in g.blocks:
            if x.id in bl:
                for s in x.succs():
                    if s.id not in bl:
                        after |= lv[s.id]
        for v, (nm, n) in wl.items():
            nw += 1
            if v in after:
                R.bad(W, "%s|%s|local %s" % (name, f, nm), p.loc(n), f, "%s is changed by code that only runs for a report and used afterwards" % nm)
    R.ok(W, nw, "%s: %d writes and calls in code that runs only for reports" % (name, nw))
    R.count(name + " writes and calls of reports", nw, floors[2])
    # the parser's own files
    nf = 0
    S = strs.Strings(p)
    for f in sorted(p.functions):
        for x in p.functions[f].walk():
            if name == "lemon" and x.kind == "CallExpr" and callee(x) in ("file_open", "file_makename"):
                nf += 1
                sfx = S.one(args(x)[1])
                if sfx in (".c", ".h") and G.observed(f, x):
                    R.bad(P, "%s|%s|%s" % (name, f, sfx), p.loc(x), f, "the parser's %s file is handled by code that runs or not depending on a report" % sfx)
            if name != "lemon" and x.kind == "MemberExpr" and x.name in ("output_file", "code_file", "defines_file", "externs_file", "union_file", "action_file", "text_file"):
                nf += 1
                if G.observed(f, x):
                    R.bad(P, "%s|%s|%s" % (name, f, x.name), p.loc(x), f, "%s is used by code that runs or not depending on a report" % x.name)
    R.ok(P, nf, "%s: %d uses of the parser's own files, none in report code" % (name, nf))
    R.count(name + " uses of the parser's files", nf, 4)
    # the program is not ended, and the function not left, on behalf of a report
    ne = 0
    for f in sorted(p.functions):
        g = p.cfg(f)
        for c, n in p.calls(f):
            if G.observed(f, n) and (c in p.noreturn or c in ("exit", "abort", "_exit", "longjmp")):
                ne += 1
                if c not in ends and "assert" not in c:
                    R.bad(X, "%s|%s|%s" % (name, f, c), p.loc(n), f, "%s ends the program in code that only runs for a report" % c)
    R.ok(X, ne, "%s: %d places" % (name, ne))


def names_lemon(R, p):
    S = strs.Strings(p)
    seen = {}
    n = 0
    for f in sorted(p.functions):
        for c, x in p.calls(f):
            if c == "file_open":
                a = args(x)
                m, sfx = S.one(a[2]), S.one(a[1])
                n += 1
                if sfx is None or m is None:
                    R.bad(D, "lemon|%s|computed" % f, p.loc(x), f, "the suffix of an output file is not a constant")
                elif not m.startswith("r"):
                    seen.setdefault(sfx, []).append((f, x))
    for sfx, l in sorted(seen.items()):
        for f, x in l[1:]:
            R.bad(D, "lemon|%s|%s" % (f, sfx), p.loc(x), f, "%s is written by %s as well" % (sfx, l[0][0]))
    R.ok(D, n, "lemon: " + " ".join(sorted(seen)))
    R.count("lemon output files", len(seen), 4)


def names_byacc(R, p, name):
    seen = {}
    n = 0
    S = strs.Strings(p)
    for f in sorted(p.functions):
        d = p.functions[f]
        for x in d.walk():
            if x.kind == "BinaryOperator" and x.op == "=" and strip(x.kids[0]).kind == "MemberExpr" and strip(x.kids[1]).kind == "CallExpr" \
                    and callee(strip(x.kids[1])) == "alloc_file_name":
                a = strip(args(strip(x.kids[1]))[-1])
                vals = []
                if a.kind == "DeclRefExpr" and a.ref is not None and a.ref.kind == "VarDecl":
                    for y in d.walk():
                        if y.kind == "BinaryOperator" and y.op == "=" and strip(y.kids[0]).kind == "DeclRefExpr" and strip(y.kids[0]).ref.id == a.ref.id:
                            vals.append(S.one(y.kids[1]))
                        if y.kind == "VarDecl" and y.id == a.ref.id and y.kids:
                            vals.append(S.one(y.kids[0]))
                else:
                    vals = [S.one(a)]
                n += 1
                fld = strip(x.kids[0]).name
                if not vals or None in vals:
                    R.bad(D, "%s|%s|computed" % (name, fld), p.loc(x), f, "the suffix of %s is not a constant" % fld)
                for v in set(vals) - set([None]):
                    seen.setdefault(v, []).append((fld, f, x))
    for v, l in sorted(seen.items()):
        for fld, f, x in l[1:]:
            if fld != l[0][0]:
                R.bad(D, "byacc|%s and %s" % (l[0][0], fld), p.loc(x), f, "%s and %s are the same file (%s)" % (l[0][0], fld, v))
    R.ok(D, n, "%s: %s" % (name, " ".join(sorted(seen))))
    R.count(name + " output files", len(seen), 12)


def run(R):
    R.explain = ("The flags that ask for reports, exports and statistics (lemon: -b -g -p -q -s -S -y -Y; byacc: -v -g -e -L -n -N -C -c -S) are followed to every place they are read. "
                 "Code that is control-dependent on them, and every function reached from nowhere else, must write no field, global or local that any other code reads, release "
                 "nothing other code uses, and not end the program; the flags' values reach nothing but such branches. Write effects are transitive over calls.")
    R.rule(L, "a report flag is only tested, registered or copied to another report flag")
    R.rule(W, "what report code writes or releases is used by report code only")
    R.rule(X, "report code does not end the program except for failed allocations and opens")
    R.assumes += ["fields are told apart by name; pointers into text or arrays are resolved to the field they were taken from"] + \
                 ["%s %s: %s" % (k, r[1], w) for k, d in sorted(EXEMPT.items()) for r, w in sorted(d.items())]
    R.rule(P, "code that runs or not depending on a report does not touch the parser's own files")
    R.rule(D, "every output file has a name of its own")
    p = prog.lemon()
    names_lemon(R, p)
    one(R, "lemon", p, lemon_flags(p), "lemon", (8, 6, 8))
    for bt in (True, False):
        p = prog.byacc(bt)
        names_byacc(R, p, "btyacc" if bt else "yacc")
        one(R, "btyacc" if bt else "yacc", p, byacc_flags(p), "byacc", (25, 15, 40))
