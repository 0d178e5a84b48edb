"""the bytes of a grammar are data: never an index into the character tables, never the end of the input, never a format"""
import re

import cfg
import prog
from cast import AnalysisBroken
from strs import unquote

CHR, EOFR, FMT, ARG, BYTE, IDX = ("character classes get unsigned characters", "the end of the input is told from every byte", "formats are constant", "arguments match their format",
                             "no byte is taken for the end of the input", "no byte is a negative index")
CLASS = {"isspace", "isalpha", "isalnum", "isdigit", "isprint", "isupper", "islower", "toupper", "tolower", "ispunct", "isxdigit", "iscntrl", "isgraph", "isblank"}
GET = {"getc", "fgetc", "getchar", "_IO_getc", "getc_unlocked"}
PRINTF = {"printf": 0, "vprintf": 0, "fprintf": 1, "vfprintf": 1, "sprintf": 1, "vsprintf": 1, "snprintf": 2, "vsnprintf": 2, "dprintf": 1, "asprintf": 1, "vasprintf": 1}
WRAP = ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr")


def bare(n, casts=("ParenExpr", "ImplicitCastExpr")):
    while n is not None and n.kind in casts and n.kids:
        n = n.kids[-1]
    return n


def up(fn):
    par = {}
    for n in fn.walk():
        for k in n.kids:
            if k is not None:
                par[id(k)] = n
    return par


class Prog(object):
    def __init__(self, p):
        self.p = p
        self.par = {}
        self.defs = {}
        self.sites = {}
        self.fielddefs = {}
        self.globaldefs = {}
        for f in p.functions.values():
            self.par[f.name] = up(f)
            for n in f.walk():
                if n.kind == "CallExpr" and cfg.callee(n):
                    self.sites.setdefault(cfg.callee(n), []).append((f, n))
                if n.kind == "VarDecl" and n.kids and n.kids[-1] is not None and (n.extra or {}).get("init"):
                    self.defs.setdefault(n.id, []).append((f, n.kids[-1]))
                if n.kind in ("BinaryOperator", "CompoundAssignOperator") and n.op and n.op.endswith("=") and n.op not in ("==", "!=", "<=", ">="):
                    l = bare(n.kids[0])
                    v = n.kids[1] if n.op == "=" else None
                    if l.kind == "DeclRefExpr":
                        self.defs.setdefault(l.ref.id, []).append((f, v))
                    elif l.kind == "MemberExpr":
                        self.fielddefs.setdefault(l.name, []).append((f, v))
                if n.kind == "UnaryOperator" and n.op in ("++", "--"):
                    l = bare(n.kids[0])
                    if l.kind == "DeclRefExpr":
                        self.defs.setdefault(l.ref.id, []).append((f, None))
                if n.kind == "UnaryOperator" and n.op == "&":
                    l = bare(n.kids[0])
                    if l.kind == "DeclRefExpr":
                        self.defs.setdefault(l.ref.id, []).append((f, None))
        self.params = {}
        for f in p.functions.values():
            for i, k in enumerate([k for k in f.kids if k is not None and k.kind == "ParmVarDecl"]):
                self.params[k.id] = (f, i)

    def values(self, ref):
        """every expression a variable may hold, None where it is not known"""
        out = list(self.defs.get(ref.id, ()))
        if ref.id in self.params:
            f, i = self.params[ref.id]
            s = self.sites.get(f.name, [])
            for g, c in s:
                a = cfg.args(c)
                out.append((g, a[i] if i < len(a) else None))
            if not s:
                out.append((f, None))
        g = self.p.globals.get(ref.name) if ref.id in cfg.GLOBAL_IDS else None
        if g is not None:
            if g.kids and g.kids[-1] is not None:
                out.append((None, g.kids[-1]))
            for f in self.p.functions.values():
                pass
        return out

    def returns(self, name):
        f = self.p.functions[name]
        return [(f, n.kids[0]) for n in f.walk() if n.kind == "ReturnStmt" and n.kids and n.kids[0] is not None]


def literal(n):
    n = bare(n, WRAP)
    return unquote(n.val) if n is not None and n.kind == "StringLiteral" else None


class Chars(object):
    def __init__(self, P):
        self.P = P
        self.busy = set()

    def ascii(self, f, n):
        """every character the pointer leads to is plain ASCII (string constants)"""
        fs = Formats(self.P).strings(f, n)
        return fs is not None and all(all(ord(c) < 128 for c in s) for s in fs)

    def ok(self, f, n, at=None):
        P = self.P
        n0 = n
        v = cfg.const_int(n)
        if v is not None:
            return -1 <= v <= 255
        while n.kind in ("ParenExpr", "ImplicitCastExpr"):
            if (n.ctype or "").replace("const ", "") == "unsigned char":
                return True
            n = n.kids[-1]
        t = (n.ctype or "").replace("const ", "").replace("volatile ", "").strip()
        if t in ("unsigned char", "_Bool"):
            return True
        k = n.kind
        if k == "CStyleCastExpr":
            return self.ok(f, n.kids[-1], at)
        if k == "ConditionalOperator":
            return self.ok(f, n.kids[1], at) and self.ok(f, n.kids[2], at)
        if k == "BinaryOperator":
            if n.op == "=":
                return self.ok(f, n.kids[1], at)
            if n.op == ",":
                return self.ok(f, n.kids[1], at)
            if n.op == "&":
                return any((cfg.const_int(x) or -1) in range(0, 256) for x in n.kids)
            if n.op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                return True
            return False
        if k == "CallExpr":
            c = cfg.callee(n)
            if c in GET or c in ("toupper", "tolower") or c in CLASS:
                return True
            if c in P.p.functions:
                if c in self.busy:
                    return True
                self.busy.add(c)
                r = P.returns(c)
                o = bool(r) and all(self.ok(g, e, e) for g, e in r)
                self.busy.discard(c)
                return o
            return False
        if k == "ArraySubscriptExpr":
            return t == "char" and self.ascii(f, n.kids[0])
        if k == "UnaryOperator" and n.op == "*":
            return t == "char" and self.ascii(f, n.kids[0])
        if k == "DeclRefExpr" and n.ref is not None and n.ref.kind in ("VarDecl", "ParmVarDecl"):
            if at is not None and self.guarded(f, n.ref, at):
                return True
            key = (n.ref.id,)
            if key in self.busy:
                return True
            if t == "char":
                return False
            self.busy.add(key)
            vs = P.values(n.ref)
            o = bool(vs) and all(e is not None and self.ok(g or f, e, e) for g, e in vs)
            self.busy.discard(key)
            return o
        return False

    def guarded(self, f, ref, at):
        """a class test of the same variable, taken as an unsigned character, has succeeded before"""
        par = self.P.par.get(f.name, {})
        n = at
        while n is not None and id(n) in par:
            q = par[id(n)]
            cond = None
            if q.kind == "IfStmt" and len(q.kids) >= 2 and q.kids[1] is n:
                cond = q.kids[0]
            elif q.kind in ("WhileStmt",) and q.kids[-1] is n:
                cond = q.kids[0]
            elif q.kind == "ConditionalOperator" and q.kids[1] is n:
                cond = q.kids[0]
            elif q.kind == "BinaryOperator" and q.op == "&&" and q.kids[1] is n:
                cond = q.kids[0]
            if cond is not None:
                work = [cond]
                while work:
                    c = bare(work.pop())
                    if c.kind == "BinaryOperator" and c.op == "&&":
                        work += list(c.kids)
                    elif c.kind == "BinaryOperator" and c.op == "!=" and cfg.const_int(c.kids[1]) == 0:
                        work.append(c.kids[0])
                    elif c.kind == "CallExpr" and cfg.callee(c) in CLASS - {"toupper", "tolower"}:
                        a = cfg.args(c)[0]
                        b = bare(a)
                        if b.kind == "CStyleCastExpr" and b.ctype == "unsigned char":
                            x = bare(b.kids[-1])
                            if x.kind == "DeclRefExpr" and x.ref is not None and x.ref.id == ref.id:
                                return True
            n = q
        return False


class Formats(object):
    def __init__(self, P):
        self.P = P
        self.busy = set()

    def strings(self, f, n):
        """every text a pointer may have, None when it is not known"""
        P = self.P
        n = bare(n, WRAP)
        if n is None:
            return None
        k = n.kind
        if k == "StringLiteral":
            return [unquote(n.val)]
        if k == "ConditionalOperator":
            a, b = self.strings(f, n.kids[1]), self.strings(f, n.kids[2])
            return None if a is None or b is None else a + b
        if cfg.const_int(n) == 0:
            return []
        if k == "CallExpr" and cfg.callee(n) in P.p.functions:
            c = cfg.callee(n)
            if c in self.busy:
                return []
            self.busy.add(c)
            out = []
            for g, e in P.returns(c):
                s = self.strings(g, e)
                if s is None:
                    out = None
                    break
                out += s
            self.busy.discard(c)
            return out
        if k == "DeclRefExpr" and n.ref is not None and n.ref.kind in ("VarDecl", "ParmVarDecl"):
            if (n.ctype or "").endswith("]") and "const" not in (n.ctype or ""):
                return None
            if n.ref.id in self.busy:
                return []
            self.busy.add(n.ref.id)
            vs = P.values(n.ref)
            out = [] if vs else None
            for g, e in vs:
                s = None if e is None else self.strings(g, e)
                if s is None:
                    out = None
                    break
                out += s
            self.busy.discard(n.ref.id)
            return out
        if k == "ArraySubscriptExpr":
            # a constant table of texts
            b = bare(n.kids[0], WRAP)
            if b.kind == "DeclRefExpr" and b.ref is not None:
                d = None
                for g, e in P.values(b.ref):
                    if e is None or e.kind != "InitListExpr":
                        return None
                    d = e
                if d is None:
                    return None
                out = []
                for x in d.kids:
                    s = self.strings(f, x)
                    if s is None:
                        return None
                    out += s
                return out
            return None
        if k == "MemberExpr":
            key = "." + n.name
            if key in self.busy:
                return []
            vs = P.fielddefs.get(n.name)
            if not vs:
                return None
            self.busy.add(key)
            out = []
            for g, e in vs:
                s = None if e is None else self.strings(g, e)
                if s is None:
                    out = None
                    break
                out += s
            self.busy.discard(key)
            return out
        return None


def conversions(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] != "%":
            i += 1
            continue
        m = re.match(r"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|z|j|t|L)?([diouxXcsp%eEfgGn])", s[i:])
        if not m:
            return None
        i += m.end()
        if m.group(4) == "%":
            continue
        if m.group(1) == "*":
            out.append(("", "d"))
        if m.group(2) == "*":
            out.append(("", "d"))
        out.append((m.group(3) or "", m.group(4)))
    return out


def fits(c, t):
    """does an argument of type t match the conversion"""
    l, k = c
    t = re.sub(r"\b(const|volatile|restrict)\b ?", "", t or "").strip()
    seen = set()
    while t in cfg.TYPEDEFS and t not in seen and cfg.TYPEDEFS[t] != t:
        seen.add(t)
        t = re.sub(r"\b(const|volatile)\b ?", "", cfg.TYPEDEFS[t]).strip()
    ptr = t.endswith("*") or t.endswith("]")
    if k == "s":
        return ptr and re.match(r"(unsigned |signed )?char\b", t) is not None and t.count("*") + t.count("[") == 1
    if k == "p":
        return ptr
    if k == "n":
        return False
    if ptr:
        return False
    if k in "eEfgG":
        return t in ("double", "float")
    long_ = t in ("long", "unsigned long", "long long", "unsigned long long")
    if l in ("l", "z", "j", "t", "ll"):
        return long_
    return not long_ and (t in ("int", "unsigned int", "short", "unsigned short", "char", "signed char", "unsigned char", "_Bool", "unsigned") or t.startswith("enum "))


def analyse(R, p, name):
    P = Prog(p)
    C, F = Chars(P), Formats(P)
    n = {CHR: 0, EOFR: 0, FMT: 0, ARG: 0, BYTE: 0, IDX: 0}
    # functions that hand a format on, with or without the arguments
    fmts = dict(PRINTF)
    wrappers = {}
    changed = True
    while changed:
        changed = False
        for f in p.functions.values():
            if f.name in wrappers or "..." not in (f.ctype or ""):
                continue
            for c in f.walk():
                if c.kind != "CallExpr" or cfg.callee(c) not in fmts or not cfg.callee(c).startswith("v"):
                    continue
                a = cfg.args(c)[fmts[cfg.callee(c)]]
                a = bare(a, WRAP)
                if a.kind == "DeclRefExpr" and a.ref.id in P.params and P.params[a.ref.id][0] is f:
                    wrappers[f.name] = P.params[a.ref.id][1]
                    changed = True
    fmts.update(wrappers)
    for f in sorted(p.functions.values(), key=lambda x: x.name):
        par = P.par[f.name]
        for c in f.walk():
            if c.kind != "CallExpr":
                continue
            nm = cfg.callee(c)
            if nm in CLASS:
                n[CHR] += 1
                a = cfg.args(c)[0]
                if not C.ok(f, a, c):
                    R.bad(CHR, "%s|%s|%s|%s" % (name, f.name, nm, describe(a)), p.loc(c), f.name, "%s gets a character that may be negative: %s" % (nm, describe(a)), [name])
            if nm in GET:
                n[EOFR] += 1
                x, q = c, par.get(id(c))
                narrow = None
                while q is not None and q.kind in WRAP:
                    if (q.ctype or "") in ("char", "unsigned char", "signed char"):
                        narrow = q.ctype
                    x, q = q, par.get(id(q))
                if narrow:
                    R.bad(EOFR, "%s|%s|narrowed" % (name, f.name), p.loc(c), f.name, "what %s returns is made a %s, a byte is then taken for the end of the file, or the end for a byte" % (nm, narrow), [name])
                    continue
                ref = None
                if q is not None and q.kind == "BinaryOperator" and q.op == "=" and x is q.kids[1]:
                    l = bare(q.kids[0])
                    ref = l.ref if l.kind == "DeclRefExpr" else None
                elif q is not None and q.kind == "VarDecl":
                    ref = q
                if ref is None:
                    if q is not None and (q.kind in ("ReturnStmt",) or (q.kind == "BinaryOperator" and q.op in ("==", "!=", "<", ">="))):
                        continue
                    R.bad(EOFR, "%s|%s|lost" % (name, f.name), p.loc(c), f.name, "what %s returns is used without a look whether the input has ended" % nm, [name])
                    continue
                tested = False
                y, z = q, par.get(id(q))
                while z is not None and z.kind in WRAP:
                    y, z = z, par.get(id(z))
                if z is not None and q.kind == "BinaryOperator" and z.kind == "BinaryOperator" and z.op in ("==", "!=") and \
                        cfg.const_int(z.kids[1 if y is z.kids[0] else 0]) != -1:
                    # compared with something else first: the end is looked for in what the outcome guards
                    scope = z
                    while scope is not None and scope.kind not in ("IfStmt", "WhileStmt", "ForStmt", "DoStmt", "ExprStmt", "CompoundStmt"):
                        scope = par.get(id(scope))
                else:
                    scope = f
                for e in (scope or f).walk():
                    if e.kind == "BinaryOperator" and e.op in ("==", "!=", "<", ">", ">=", "<="):
                        l, r = e.kids
                        for u, v in ((l, r), (r, l)):
                            b = bare(u)
                            if b.kind == "BinaryOperator" and b.op == "=":
                                b = bare(b.kids[0])
                            if b.kind == "DeclRefExpr" and b.ref is not None and b.ref.id == ref.id and cfg.const_int(v) in (-1, 0):
                                if cfg.const_int(v) == -1 or e.op in ("<", ">="):
                                    tested = True
                    if e.kind == "ReturnStmt" and e.kids and e.kids[0] is not None:
                        b = bare(e.kids[0])
                        if b.kind == "DeclRefExpr" and b.ref is not None and b.ref.id == ref.id:
                            tested = True
                if not tested:
                    R.bad(EOFR, "%s|%s|untested" % (name, f.name), p.loc(c), f.name, "what %s returns is never compared with the end of the file" % nm, [name])
            if nm in fmts:
                n[FMT] += 1
                args = cfg.args(c)
                i = fmts[nm]
                if i >= len(args):
                    raise AnalysisBroken("call of %s without a format at %s" % (nm, p.loc(c)))
                b = bare(args[i], WRAP)
                if nm.startswith("v") and nm in PRINTF and f.name in wrappers and b.kind == "DeclRefExpr" and P.params.get(b.ref.id, (None, None))[0] is f:
                    continue
                ss = F.strings(f, args[i])
                if ss is None:
                    R.bad(FMT, "%s|%s|%s" % (name, f.name, describe(args[i])), p.loc(c), f.name, "%s is given a format that is not constant: %s" % (nm, describe(args[i])), [name])
                    continue
                if nm.startswith("v") and nm in PRINTF:
                    continue
                for s in ss:
                    n[ARG] += 1
                    cv = conversions(s)
                    if cv is None:
                        R.bad(ARG, "%s|%s|%s" % (name, f.name, s[:30]), p.loc(c), f.name, "the format %r is not understood" % s, [name])
                        continue
                    rest = args[i + 1:]
                    if len(rest) != len(cv):
                        R.bad(ARG, "%s|%s|%s|count" % (name, f.name, s[:30]), p.loc(c), f.name, "the format %r takes %d arguments, %d are given" % (s, len(cv), len(rest)), [name])
                        continue
                    for j, (cc, a) in enumerate(zip(cv, rest)):
                        if not fits(cc, a.ctype):
                            R.bad(ARG, "%s|%s|%s|%d" % (name, f.name, s[:30], j), p.loc(c), f.name, "argument %d of the format %r has type %s" % (j + 1, s, a.ctype), [name])
    for r in (CHR, EOFR, FMT, ARG):
        R.ok(r, n[r], name)
    n[BYTE] = bytes_and_eof(R, P, name)
    return n


class Bytes(object):
    """which byte values an int may hold where it is compared with EOF: a plain char is negative from 0x80 on, 0xff is EOF"""

    def __init__(self, P):
        self.P = P
        self.graphs = {}
        self.memo = {}

    def graph(self, f):
        if f.name not in self.graphs:
            g = cfg.CFG(f, self.P.p.noreturn)
            pos, pred = {}, {}
            for b in g.blocks:
                for i, e in enumerate(b.elems):
                    pos.setdefault(id(e), (b, i))
                for s in b.succs():
                    pred.setdefault(s.id, []).append(b)
            self.graphs[f.name] = (g, pos, pred)
        return self.graphs[f.name]

    def reaching(self, f, use):
        """the expressions a local variable may hold at a use, None for one that is not followed; ("param", i) for the caller's"""
        g, pos, pred = self.graph(f)
        if id(use) not in pos:
            return [None]
        ref = use.ref
        out, seen = [], set()
        work = [pos[id(use)]]
        while work:
            b, i = work.pop()
            hit = False
            for e in reversed(b.elems[:i]):
                if e.kind == "VarDecl" and e.id == ref.id:
                    out.append(e.kids[-1] if e.kids and (e.extra or {}).get("init") else None)
                    hit = True
                elif e.kind in ("BinaryOperator", "CompoundAssignOperator") and e.op in cfg.ASSIGN:
                    l = bare(e.kids[0])
                    if l.kind == "DeclRefExpr" and l.ref.id == ref.id:
                        out.append(e.kids[1] if e.op == "=" else None)
                        hit = True
                elif e.kind == "UnaryOperator" and e.op in ("++", "--"):
                    l = bare(e.kids[0])
                    if l.kind == "DeclRefExpr" and l.ref.id == ref.id:
                        out.append(None)
                        hit = True
                if hit:
                    break
            if hit:
                continue
            if b is g.entry:
                if ref.id in self.P.params:
                    out.append(("param", self.P.params[ref.id][1]))
                continue
            for q in pred.get(b.id, ()):
                if q.id not in seen:
                    seen.add(q.id)
                    work.append((q, len(q.elems)))
        return out

    def plain(self, f, n, busy=frozenset()):
        """where a plain char enters the value of n, or None"""
        while n is not None and n.kind in WRAP and n.kids:
            t = (n.ctype or "").replace("const ", "").strip()
            if t in ("unsigned char", "_Bool", "unsigned short"):
                return None
            n = n.kids[-1]
        if n is None or cfg.const_int(n) is not None:
            return None
        t = (n.ctype or "").replace("const ", "").replace("volatile ", "").strip()
        k = n.kind
        if k == "BinaryOperator" and n.op in ("=", ","):
            return self.plain(f, n.kids[1], busy)
        if k == "ConditionalOperator":
            return self.plain(f, n.kids[1], busy) or self.plain(f, n.kids[2], busy)
        if k == "DeclRefExpr" and n.ref is not None and n.ref.kind in ("VarDecl", "ParmVarDecl") and n.ref.id not in cfg.GLOBAL_IDS:
            if (f.name, id(n)) in busy:
                return None
            busy = busy | {(f.name, id(n))}
            for e in self.reaching(f, n):
                if e is None:
                    continue
                if isinstance(e, tuple):
                    for g, c in self.P.sites.get(f.name, ()):
                        a = cfg.args(c)
                        r = self.plain(g, a[e[1]], busy) if e[1] < len(a) else None
                        if r:
                            return r
                    continue
                r = self.plain(f, e, busy)
                if r:
                    return r
            return None
        if k == "CallExpr":
            c = cfg.callee(n)
            if c in self.P.p.functions and "nocalls" not in busy:
                if (n.ctype or "") in ("char", "signed char"):
                    return "%s()" % c
                if ("ret", c) in busy:
                    return None
                if c in self.memo:
                    return self.memo[c]
                b2 = busy | {("ret", c)}
                out = None
                for g, e in self.P.returns(c):
                    out = self.plain(g, e, b2)
                    if out:
                        break
                if len(busy) <= 1 or out:
                    self.memo[c] = out
                return out
            return None
        if t in ("char", "signed char") and k in ("UnaryOperator", "ArraySubscriptExpr", "MemberExpr"):
            return "%s at %s" % (describe(n), self.P.p.loc(n))
        return None


def bytes_and_eof(R, P, name):
    B = Bytes(P)
    n = 0
    for f in sorted(P.p.functions.values(), key=lambda x: x.name):
        for e in f.walk():
            u = None
            if e.kind == "BinaryOperator" and e.op in ("==", "!="):
                for a, b in (e.kids, e.kids[::-1]):
                    if cfg.const_int(b) == -1 and cfg.const_int(a) is None:
                        u = a
            elif e.kind == "SwitchStmt":
                body = e.kids[-1]
                if any(c.kind == "CaseStmt" and cfg.const_int(c.kids[0]) == -1 for c in body.walk()):
                    u = [k for k in e.kids if k is not None][0]
            if u is None:
                continue
            n += 1
            r = B.plain(f, u)
            if r:
                R.bad(BYTE, "%s|%s|%s" % (name, f.name, describe(u)), P.p.loc(e), f.name,
                      "compared with the end of the input (-1) is a plain char, %s: the byte 0xff is taken for the end" % r, [name])
    R.ok(BYTE, n, name)
    m = 0
    for f in sorted(P.p.functions.values(), key=lambda x: x.name):
        for e in f.walk():
            if e.kind != "ArraySubscriptExpr":
                continue
            m += 1
            r = B.plain(f, e.kids[1], frozenset(["nocalls"]))
            if r:
                R.bad(IDX, "%s|%s|%s" % (name, f.name, describe(e)), P.p.loc(e), f.name,
                      "a table is indexed by a plain char, %s: negative from 0x80 on" % r, [name])
    R.ok(IDX, m, name)
    return n


def describe(n):
    n = bare(n, WRAP)
    if n.kind == "DeclRefExpr":
        return n.ref.name
    if n.kind == "MemberExpr":
        return "." + n.name
    if n.kind == "CallExpr":
        return (cfg.callee(n) or "?") + "()"
    if n.kind == "ArraySubscriptExpr":
        return describe(n.kids[0]) + "[]"
    if n.kind == "UnaryOperator":
        return n.op + describe(n.kids[0])
    return n.kind


def run(R):
    R.explain = ("Every call of a character class function, every read of a byte and every formatted output in both programs is an obligation, decided by following the value through variables, parameters (all callers), fields "
                 "(all stores) and returns: the argument of a class test comes from an unsigned character or a read, the byte read keeps its full width until it has been compared with the end of the file, the format is one "
                 "of a known set of constants, and each of them takes exactly the arguments given, by number and type. Functions that hand a format on (varargs) are found and their callers judged instead.")
    R.rule(CHR, "the argument of isalpha() and its like is EOF or the value of an unsigned char")
    R.rule(EOFR, "what getc() returns is compared with EOF before it is narrowed")
    R.rule(FMT, "no text that is not a constant of the program is used as a format")
    R.rule(ARG, "each constant format takes the number and types of arguments it is given")
    R.rule(IDX, "a character read from a char is not an index, unless made unsigned")
    R.rule(BYTE, "nothing a plain char was read into is compared with -1")
    p = prog.lemon()
    a = analyse(R, p, "lemon")
    b = analyse(R, prog.byacc(True), "btyacc")
    analyse(R, prog.byacc(False), "yacc")
    R.count("lemon: formats", a[FMT], 150)
    R.count("byacc: formats", b[FMT], 150)
    R.count("lemon: class tests", a[CHR], 30)
    R.count("byacc: class tests", b[CHR], 60)
    R.count("byacc: reads", b[EOFR], 6)
    R.count("byacc: comparisons with EOF", b[BYTE], 15)
