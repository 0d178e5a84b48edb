"""tracing, coverage counting and stack-depth recording never change what a generated parser does"""
import re

import cfg
import lempar
from cast import AnalysisBroken
from cfg import strip, callee
from effects import Effects, lval_root

W, C, J, O, A, N = "what instrumentation writes", "what instrumentation calls", "instrumentation stays in line", "recorded values go nowhere else", "asserted expressions have no effect", "no trace stream, no trace"
MACROS = re.compile(r"\b(NDEBUG|YYCOVERAGE|YYTRACKMAXSTACKDEPTH)\b")
OWN = ("yyTraceFILE", "yyTracePrompt", "yycoverage", "yyhwm")      # the instrumentation's own data
OUT = ("fprintf", "fflush", "fputs", "fputc", "putc", "vfprintf", "fwrite", "snprintf", "sprintf", "strlen", "memset", "strcmp", "__assert_fail",
       "__builtin_expect", "printf", "puts")


def regions():
    """lines of the template whose presence depends on the instrumentation macros"""
    src = open(lempar.SRC, encoding="latin-1").read().split("\n")
    st, out = [], set()
    cont = False
    n = 0
    for i, l in enumerate(src):
        m = re.match(r"\s*#\s*(if|ifdef|ifndef|elif|else|endif)\b(.*)", l)
        if m and not cont:
            d, rest = m.groups()
            rest = re.sub(r"/\*.*?\*/|//.*", "", rest)
            hit = bool(MACROS.search(rest))
            if d in ("if", "ifdef", "ifndef"):
                st.append(hit)
                n += hit
            elif d == "elif":
                st[-1] = st[-1] or hit
            elif d == "endif":
                st.pop()
        elif any(st):
            out.add(i + 1)
        cont = l.endswith("\\")
    if st:
        raise AnalysisBroken("unbalanced conditionals in lempar.c")
    return out, n


def is_assert(n):
    """the condition of an expanded assert(), else None"""
    if n.kind == "ConditionalOperator" and len(n.kids) == 3:
        for k in n.kids[1:]:
            for x in k.walk():
                if x.kind == "CallExpr" and callee(x) in ("__assert_fail", "__assert"):
                    return n.kids[0]
    if n.kind == "IfStmt":
        for k in n.kids[1:]:
            if k is not None and k.kind == "CallExpr" and callee(k) in ("__assert_fail", "__assert"):
                return n.kids[0]
        e = [k for k in n.kids if k is not None]
        if len(e) == 3 and e[1].kind == "NullStmt" and e[2].kind == "CallExpr" and callee(e[2]) in ("__assert_fail", "__assert"):
            return e[0]
    return None


def tests_stream(c):
    """truth value of the condition that means the stream is there, or None"""
    c = strip(c)
    if c.kind == "DeclRefExpr" and c.ref is not None and c.ref.name == "yyTraceFILE":
        return True
    if c.kind == "UnaryOperator" and c.op == "!":
        r = tests_stream(c.kids[0])
        return None if r is None else not r
    if c.kind == "BinaryOperator" and c.op in ("!=", "=="):
        for a, b in ((c.kids[0], c.kids[1]), (c.kids[1], c.kids[0])):
            if cfg.is_null(b) and tests_stream(a) is not None:
                return tests_stream(a) == (c.op == "!=")
    return None


def guarded(p, f, n):
    """n only runs when the trace stream is there"""
    g = p.cfg(f)
    if not hasattr(g, "_vf_where"):
        g._vf_where = {}
        for b in g.blocks:
            for e in b.elems + ([b.term[1]] if b.term and b.term[0] in ("branch", "switch") else []):
                for x in e.walk():
                    g._vf_where[x.id] = b.id
        g._vf_np = {}
        for b in g.blocks:
            for s in b.succs():
                g._vf_np[s.id] = g._vf_np.get(s.id, 0) + 1
    if n.id not in g._vf_where:
        return True                                                        # cannot be reached
    dom = g.dominators()[g._vf_where[n.id]]
    for b in g.blocks:
        if b.term and b.term[0] == "branch":
            t = tests_stream(b.term[1])
            if t is not None:
                s = b.term[2] if t else b.term[3]
                if s.id in dom and g._vf_np.get(s.id) == 1:
                    return True
    return False


def streams(R, p, cfgname):
    need = {}
    sites = {}
    k = 0
    for f in sorted(p.functions):
        for c, n in p.calls(f):
            if c in p.functions:
                sites.setdefault(c, []).append((f, n))
            elif c in OUT and any(x.kind == "DeclRefExpr" and x.ref is not None and x.ref.name == "yyTraceFILE" for x in n.walk()):
                k += 1
                if not guarded(p, f, n):
                    need.setdefault(f, n)
    todo = sorted(need)
    taken = p.addr_taken()
    while todo:
        f = todo.pop()
        ss = sites.get(f, [])
        if not ss or f in taken:
            R.bad(N, f, p.loc(need[f]), f, "writes to the trace stream without testing that there is one (%s)" % cfgname)
            continue
        for c, n in ss:
            if not guarded(p, c, n) and c not in need:
                need[c] = n
                todo.append(c)
    R.ok(N, k, "%s: %d" % (cfgname, k))
    return k


def one(R, cfgname, lines):
    p = lempar.program(cfgname)
    fx = Effects(p)

    def obs(n):
        w = p.where[n.line - 1] if 0 < n.line <= len(p.where) else 0
        return abs(w) in lines
    instr = set(f for f, d in p.functions.items() if obs(d))         # functions that are instrumentation themselves
    # a function called only from instrumentation is instrumentation
    sites = {}
    for f in p.functions:
        for c, n in p.calls(f):
            if c in p.functions:
                sites.setdefault(c, []).append((f, n))

    def own(r):
        return r[0] in ("L", "EL") or r[1] in OWN or (r[0] == "R")
    nw = nc = nj = na = no = 0
    for f, d in sorted(p.functions.items()):
        whole = f in instr
        local = set()
        for n in d.walk():
            if n.kind in ("VarDecl", "ParmVarDecl") and (whole or obs(n)):
                local.add(n.id)
        for r, n in fx.nodes[f]:
            if whole or obs(n):
                nw += 1
                if r[0] == "P" or not own(r):
                    if r[0] == "P" and whole:
                        continue                                       # judged at its calls
                    R.bad(W, "%s|%s" % (f, r[1]), p.loc(n), f, "%s is changed only when the parser is compiled with instrumentation (%s)" % (r[1], cfgname))
        for n in d.walk():
            o = whole or obs(n)
            if o and n.kind.endswith("Stmt"):
                nj += 1
            if o and not whole:
                t = None
                if n.kind == "UnaryOperator" and n.op in ("++", "--"):
                    t = strip(n.kids[0])
                elif cfg.is_assign(n):
                    t = strip(n.kids[0])
                if t is not None:
                    r = lval_root(t)
                    if r[0] == "L":
                        nw += 1
                        if r[1] not in local:
                            R.bad(W, "%s|local" % f, p.loc(n), f, "a variable of the parser proper is changed only when compiled with instrumentation (%s)" % cfgname)
            if n.kind == "CallExpr" and o:
                c = callee(n)
                nc += 1
                if c in p.functions:
                    bad = [r for r in sorted(fx.writes(c), key=str) if not own(r) and not (c in instr and r[0] == "P")]
                    if bad:
                        R.bad(C, "%s|%s" % (f, c), p.loc(n), f, "instrumentation calls %s, which changes %s (%s)" % (c, bad[0][1], cfgname))
                elif c not in OUT:
                    R.bad(C, "%s|%s" % (f, c), p.loc(n), f, "instrumentation calls %s (%s)" % (c or "through a pointer", cfgname))
            if o and not whole and n.kind in ("ReturnStmt", "GotoStmt", "BreakStmt", "ContinueStmt", "LabelStmt", "CaseStmt", "DefaultStmt"):
                q = n.parent
                inside = False
                if n.kind in ("BreakStmt", "ContinueStmt"):
                    while q is not None and not (q.kind in ("ForStmt", "WhileStmt", "DoStmt") or (n.kind == "BreakStmt" and q.kind == "SwitchStmt")):
                        q = q.parent
                    inside = q is not None and obs(q)
                elif n.kind in ("CaseStmt", "DefaultStmt"):
                    while q is not None and q.kind != "SwitchStmt":
                        q = q.parent
                    inside = q is not None and obs(q)
                if not inside:
                    R.bad(J, "%s|%s" % (f, n.kind), p.loc(n), f, "instrumentation leaves its place (%s) and what follows is skipped (%s)" % (n.kind, cfgname))
            if not whole and not o:
                q = n.parent
                if q is not None and q.kind in ("IfStmt", "ForStmt", "WhileStmt", "DoStmt", "SwitchStmt", "ConditionalOperator") and obs(q) and n.line and n.kind != "DeclRefExpr":
                    nj += 1
                    if p.where[n.line - 1] != p.where[q.line - 1]:
                        R.bad(J, "%s|%s" % (f, q.kind), p.loc(n), f, "whether this runs depends on a statement that exists only with instrumentation (%s)" % cfgname)
                # recorded values
                nm = n.name if n.kind == "MemberExpr" else n.ref.name if n.kind == "DeclRefExpr" and n.ref is not None else None
                if nm in OWN:
                    no += 1
                    R.bad(O, "%s|%s" % (f, nm), p.loc(n), f, "%s is used outside the instrumentation" % nm)
            a = is_assert(n)
            if a is not None:
                na += 1
                for x in a.walk():
                    if (x.kind == "UnaryOperator" and x.op in ("++", "--")) or cfg.is_assign(x) or (
                            x.kind == "CallExpr" and callee(x) in p.functions and any(not own(r) for r in fx.writes(callee(x)))):
                        R.bad(A, f, p.loc(n), f, "an asserted expression has an effect that is lost with NDEBUG")
    R.ok(W, nw, "%s: %d writes" % (cfgname, nw))
    R.ok(C, nc, "%s: %d calls" % (cfgname, nc))
    R.ok(J, nj, "%s: %d statements" % (cfgname, nj))
    R.ok(O, len(OWN), "%s: %s" % (cfgname, " ".join(OWN)))
    R.ok(A, na, "%s: %d assertions" % (cfgname, na))
    return nw, nc, na, streams(R, p, cfgname)


def run(R):
    R.explain = ("lempar.c is completed with stand-ins for the generated parts and parsed in 12 configurations. Lines whose presence depends on NDEBUG, YYCOVERAGE or YYTRACKMAXSTACKDEPTH "
                 "(either way) are instrumentation: they may write only the trace stream and prompt, the coverage table, the high-water mark and their own variables, call only output functions and "
                 "functions without other effects, and never jump out; the rest of the template does not read the recorded values; assert() arguments have no effects.")
    R.rule(W, "instrumentation writes only its own data")
    R.rule(C, "instrumentation calls only output functions and functions that change nothing else")
    R.rule(J, "no instrumentation returns, jumps out or decides whether other statements run")
    R.rule(O, "the parser proper never reads the recorded values")
    R.rule(A, "assert() arguments change nothing")
    R.rule(N, "every write to the trace stream happens only after testing that there is one")
    R.assumes += ["the trace stream given to ParseTrace is not a stream the parser's user relies on otherwise"]
    lines, nr = regions()
    R.count("instrumentation conditionals", nr, 12)
    tot = [0, 0, 0, 0]
    for c in sorted(lempar.CONFIGS):
        r = one(R, c, lines)
        tot = [a + b for a, b in zip(tot, r)]
    R.count("configurations", len(lempar.CONFIGS), 12)
    R.count("writes", tot[0], 20)
    R.count("calls", tot[1], 60)
    R.count("assertions", tot[2], 30)
    R.count("writes to the trace stream", tot[3], 30)
