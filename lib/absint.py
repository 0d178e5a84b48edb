"""Finite-domain abstract interpretation of C functions over their syntax trees.

A state maps abstract locations to abstract values; what the model leaves open is read as TOP, or is split lazily
into the few abstract points the model names (no value is ever executed, no input is ever chosen: every path of the
function that is feasible under the abstraction is followed, loops to a fixpoint of their head states).

values     int | TOP | ("p", object, offset) pointer | ("s", text, offset) constant string | ("f", name) function
locations  ("h", object, offset, path); a local is object ("loc", depth, declaration)
"""
import os
import re

import cfg
from cast import AnalysisBroken
from cfg import const_int, sizeof_expr
from strs import unquote

TOP = "TOP"


class State(object):
    __slots__ = ("mem", "_h", "_k")

    def __init__(self, mem):
        self.mem = mem
        self._h = self._k = None

    def key(self):
        if self._k is None:
            self._k = frozenset(self.mem.items())
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return self.key() == o.key()

    def put(self, k, v):
        if self.mem.get(k, None) == v and k in self.mem:
            return self
        m = dict(self.mem)
        m[k] = v
        return State(m)

    def drop(self, pred):
        return State(dict((k, v) for k, v in self.mem.items() if not pred(k)))

    def get(self, k, d=None):
        return self.mem.get(k, d)


def ptr(obj, off=0):
    return ("p", obj, off)


def fld(obj, path, off=0):
    return ("h", obj, off, path)


class Model(object):
    """what a check knows about the world around the analysed function"""

    def read(self, lv, st, node):
        """a location without a value: list of (value, state); the value chosen should be put into the state"""
        return [(TOP, st)]

    def call(self, name, node, vals, st, I):
        """list of (value, state), or None: analyse the callee in place (or TOP when it has no body)"""
        return None

    def write(self, lv, v, st, node):
        """list of states, or None for the plain update"""
        return None


class Interp(object):
    def __init__(self, prog, model, limit=40000, heads=400):
        self.p, self.m, self.limit, self.heads = prog, model, limit, heads
        self.depth = 0
        self.ended = []          # (callee, node, state) of paths that end the program
        self.steps = 0
        self.fn = []
        self.unmodelled = set()
        self.tables = {}

    # ---------------------------------------------------------------- running
    def run(self, fname, vals, st):
        """list of (return value, state)"""
        for c, (_, v) in self.p.enum_of.items():
            cfg.ENUMS[c] = v
        return self.invoke(self.p.fn(fname), vals, st)

    def invoke(self, f, vals, st):
        if len(self.fn) > 24:
            raise AnalysisBroken("recursion too deep in %s" % f.name)
        self.depth += 1
        self.fn.append(f.name)
        d = self.depth
        i = 0
        for k in f.kids:
            if k is not None and k.kind == "ParmVarDecl":
                st = st.put(("h", ("loc", d, k.id), 0, ""), vals[i] if i < len(vals) else TOP)
                i += 1
        body = [k for k in f.kids if k is not None and k.kind == "CompoundStmt"][-1]
        outs = []
        for fl, s in self.ex(body, st):
            s = s.drop(lambda k: k[0] in ("h", "zero") and isinstance(k[1], tuple) and k[1][0] == "loc" and k[1][1] >= d)
            v = fl[1] if fl is not None and fl[0] == "ret" else TOP
            if (v, s) not in outs:
                outs.append((v, s))
        self.fn.pop()
        self.depth -= 1
        return outs

    def tick(self, n):
        self.steps += 1
        if self.steps > self.limit * 50:
            raise AnalysisBroken("too many abstract steps in %s" % (self.fn[-1] if self.fn else "?"))

    # ---------------------------------------------------------------- statements
    def ex(self, n, st):
        if n is None:
            return [(None, st)]
        self.tick(n)
        k = n.kind
        if k == "CompoundStmt":
            return self.seq(self.flat(n), 0, st)
        if k == "IfStmt":
            has_else = bool(n.extra and n.extra.get("hasElse"))
            kids = list(n.kids)
            if n.extra and (n.extra.get("hasVar") or n.extra.get("hasInit")):
                raise AnalysisBroken("unsupported if statement")
            outs = []
            for b, s in self.truth(kids[0], st):
                if b:
                    outs += self.ex(kids[1], s)
                elif has_else:
                    outs += self.ex(kids[2], s)
                else:
                    outs.append((None, s))
            return uniq(outs)
        if k in ("WhileStmt", "DoStmt", "ForStmt"):
            return self.loop(n, st)
        if k == "SwitchStmt":
            return self.switch(n, st)
        if k == "ReturnStmt":
            if n.kids and n.kids[0] is not None:
                return [(("ret", v), s) for v, s in self.ev(n.kids[0], st)]
            return [(("ret", TOP), st)]
        if k == "BreakStmt":
            return [(("break",), st)]
        if k == "ContinueStmt":
            return [(("cont",), st)]
        if k == "NullStmt":
            return [(None, st)]
        if k == "GotoStmt":
            return [(("goto", n.extra.get("targetLabelDeclId")), st)]
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt"):
            return self.ex(n.kids[-1], st)
        if k == "DeclStmt":
            cur = [st]
            for d in n.kids:
                if d is None or d.kind != "VarDecl":
                    continue
                nxt = []
                for s in cur:
                    nxt += self.decl(d, s)
                cur = nxt
            return [(None, s) for s in uniq(cur)]
        return uniq([(None, s) for _, s in self.ev(n, st)])

    def decl(self, d, st):
        if d.extra and d.extra.get("storageClass") in ("static", "extern"):
            return [st]
        o = ("loc", self.depth, d.id)
        st = st.drop(lambda k: k[0] == "h" and k[1] == o)
        init = [k for k in d.kids if k is not None]
        if not (d.extra and d.extra.get("init")) or not init:
            return [st]
        i = init[-1]
        if i.kind == "InitListExpr":
            return self.initlist(i, d.ctype, o, 0, "", st)
        return [s.put(("h", o, 0, ""), v) for v, s in self.ev(i, st)]

    def initlist(self, i, t, o, off, path, st):
        """the states in which object `o` holds the initialiser `i` of type `t`"""
        cur = [st]
        t = (t or "").strip()
        flds = None
        if not t.endswith("]"):
            for pre in ("const ", "volatile ", "struct ", "union "):
                if t.startswith(pre):
                    t = t[len(pre):]
            m = re.match(r"\((?:unnamed|anonymous) (?:struct|union)? ?at (.*?):(\d+):\d+\)$", t)
            if m:
                t = "anon@%s:%s" % (os.path.basename(m.group(1)), m.group(2))
            r = self.p.records.get(t)
            flds = [x[1] for x in r] if r else None
        for j, e in enumerate(i.kids):
            if e is None or e.kind == "ImplicitValueInitExpr":
                continue
            if flds is not None:
                if j >= len(flds):
                    break
                wo, wp = off, (path + "." if path else "") + flds[j]
            else:
                wo, wp = off + j, path
            nxt = []
            for s in cur:
                if e.kind == "InitListExpr":
                    nxt += self.initlist(e, e.ctype, o, wo, wp, s)
                    continue
                for v, s2 in self.ev(e, s):
                    nxt.append(s2.put(("h", o, wo, wp), v))
            cur = nxt
        return cur

    def flat(self, n):
        """statements of a block with nested case and label markers unfolded"""
        out = []
        for k in n.kids:
            x = k
            marks = []
            while x is not None and x.kind in ("CaseStmt", "DefaultStmt", "LabelStmt"):
                marks.append(x)
                x = x.kids[-1]
            out.append((marks, x))
        return out

    def seq(self, stmts, start, st):
        outs, work, seen = [], [(start, st)], set()
        while work:
            i, s = work.pop()
            if (i, s) in seen:
                continue
            seen.add((i, s))
            if len(seen) > self.limit:
                raise AnalysisBroken("state explosion in %s" % self.fn[-1])
            if i >= len(stmts):
                outs.append((None, s))
                continue
            for fl, s2 in self.ex(stmts[i][1], s):
                if fl is None:
                    work.append((i + 1, s2))
                elif fl[0] == "goto":
                    for j, (marks, _) in enumerate(stmts):
                        if any(m.kind == "LabelStmt" and (m.extra or {}).get("declId") == fl[1] for m in marks):
                            work.append((j, s2))
                            break
                    else:
                        outs.append((fl, s2))
                else:
                    outs.append((fl, s2))
        return uniq(outs)

    def loop(self, n, st):
        k = n.kind
        if k == "WhileStmt":
            init, cond, inc, body, test = None, n.kids[-2], None, n.kids[-1], True
        elif k == "DoStmt":
            init, cond, inc, body, test = None, n.kids[1], None, n.kids[0], False
        else:
            init, cond, inc, body, test = n.kids[0], n.kids[2], n.kids[3], n.kids[4], True
        outs = []
        work = []
        for fl, s in self.ex(init, st) if init is not None else [(None, st)]:
            work.append((s, test))
        seen = set()
        while work:
            s0, tst = work.pop()
            if (s0, tst) in seen:
                continue
            seen.add((s0, tst))
            if len(seen) > self.limit:
                raise AnalysisBroken("no finite fixpoint at %s:%d" % (n.file, n.line))
            into = []
            if tst and cond is not None:
                for b, s in self.truth(cond, s0):
                    if b:
                        into.append(s)
                    else:
                        outs.append((None, s))
            else:
                into.append(s0)
            for s in into:
                for fl, s2 in self.ex(body, s):
                    if fl is None or fl[0] == "cont":
                        if inc is not None:
                            for _, s3 in self.ev(inc, s2):
                                work.append((s3, True))
                        else:
                            work.append((s2, True))
                    elif fl[0] == "break":
                        outs.append((None, s2))
                    else:
                        outs.append((fl, s2))
        return uniq(outs)

    def switch(self, n, st):
        cond, body = n.kids[-2], n.kids[-1]
        stmts = self.flat(body)
        outs = []
        vals, dflt = [], None
        for i, (marks, _) in enumerate(stmts):
            for m in marks:
                if m.kind == "CaseStmt":
                    lo = const_int(m.kids[0])
                    hi = const_int(m.kids[1]) if len(m.kids) > 2 else lo
                    vals.append((lo, hi, i))
                elif m.kind == "DefaultStmt":
                    dflt = i
        for v, s in self.ev(cond, st):
            starts = []
            if isinstance(v, int):
                hit = [i for lo, hi, i in vals if lo is not None and lo <= v <= hi]
                if hit:
                    starts = [hit[0]]
                elif dflt is not None:
                    starts = [dflt]
                else:
                    outs.append((None, s))
            else:
                starts = sorted(set(i for _, _, i in vals) | (set([dflt]) if dflt is not None else set()))
                if dflt is None:
                    outs.append((None, s))
            for i in starts:
                for fl, s2 in self.seq(stmts, i, s):
                    outs.append((None if fl is not None and fl[0] == "break" else fl, s2))
        return uniq(outs)

    # ---------------------------------------------------------------- expressions
    def truth(self, n, st):
        """list of (bool, state)"""
        n0 = n
        while n.kind in ("ParenExpr", "ImplicitCastExpr") and (n.kind == "ParenExpr" or (n.extra or {}).get("castKind") in (
                "IntegralCast", "IntegralToBoolean", "NoOp")):
            n = n.kids[0]
        k = n.kind
        if k == "UnaryOperator" and n.op == "!":
            return [(not b, s) for b, s in self.truth(n.kids[0], st)]
        if k == "BinaryOperator" and n.op in ("&&", "||"):
            outs = []
            for b, s in self.truth(n.kids[0], st):
                if b == (n.op == "||"):
                    outs.append((b, s))
                else:
                    outs += self.truth(n.kids[1], s)
            return uniq(outs)
        outs = []
        for v, s in self.ev(n, st):
            if v == TOP:
                f, t = s, s
                lv = self.lval_pure(n, s)
                if lv is not None:
                    f = s.put(lv, 0)
                cmp = n
                if cmp.kind == "BinaryOperator" and cmp.op in ("==", "!="):
                    lv = self.lval_pure(cmp.kids[0], s)
                    c = const_int(cmp.kids[1])
                    if lv is not None and c is not None and s.get(lv, TOP) == TOP:
                        if cmp.op == "==":
                            t = s.put(lv, c)
                        else:
                            f = s.put(lv, c)
                outs += [(False, f), (True, t)]
            elif isinstance(v, int):
                outs.append((v != 0, s))
            elif isinstance(v, tuple):
                outs.append((True, s))
            else:
                outs += [(False, s), (True, s)]
        return uniq(outs)

    def lval_pure(self, n, st):
        """location of an expression whose address needs no evaluation with effects, else None"""
        while n is not None and n.kind in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
            n = n.kids[-1]
        if n is None or n.kind not in ("DeclRefExpr", "MemberExpr"):
            return None
        x = n
        while x.kind in ("MemberExpr", "ParenExpr", "ImplicitCastExpr"):
            x = x.kids[-1]
        if x.kind != "DeclRefExpr" or x.ref.kind not in ("VarDecl", "ParmVarDecl"):
            return None
        r = self.lv(n, st)
        if len(r) != 1 or r[0][0] is None or r[0][1] is not st:
            return None
        return r[0][0]

    def lv(self, n, st):
        """list of (location | None, state)"""
        k = n.kind
        if k == "ParenExpr":
            return self.lv(n.kids[0], st)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.lv(n.kids[-1], st)
        if k == "DeclRefExpr":
            r = n.ref
            if r.kind in ("VarDecl", "ParmVarDecl"):
                if r.id in cfg.GLOBAL_IDS:
                    return [(("h", ("g", r.name), 0, ""), st)]
                return [(("h", ("loc", self.depth, r.id), 0, ""), st)]
            return [(None, st)]
        if k == "MemberExpr":
            if n.extra and n.extra.get("isArrow"):
                outs = []
                for v, s in self.ev(n.kids[0], st):
                    outs.append((self.at(v, n.name), s))
                return outs
            outs = []
            for l, s in self.lv(n.kids[0], st):
                outs.append((None if l is None else (l[0], l[1], l[2], (l[3] + "." if l[3] else "") + (n.name or "")), s))
            return outs
        if k == "UnaryOperator" and n.op == "*":
            return [(self.at(v, ""), s) for v, s in self.ev(n.kids[0], st)]
        if k == "ArraySubscriptExpr":
            outs = []
            for b, s in self.ev(n.kids[0], st):
                for i, s2 in self.ev(n.kids[1], s):
                    if isinstance(b, int) and isinstance(i, tuple):
                        b, i = i, b
                    outs.append((self.at(self.padd(b, i), ""), s2))
            return outs
        if k == "StringLiteral":
            return [(("str", unquote(n.val), 0, ""), st)]
        # an rvalue used as an aggregate: no location
        return [(None, s) for _, s in self.ev(n, st)]

    def at(self, v, path):
        if not (isinstance(v, tuple) and v[0] in ("p", "s")):
            return None
        if v[0] == "s":
            return ("str", v[1], v[2], "")
        o, off = v[1], v[2]
        if isinstance(o, tuple) and o[0] == "sub" and off == 0:
            return ("h", o[1], o[2], o[3] + ("." + path if path else ""))
        return ("h", o, off, path)

    def padd(self, b, i):
        if isinstance(b, tuple) and b[0] in ("p", "s"):
            if isinstance(i, int):
                return (b[0], b[1], b[2] + i)
            return TOP
        if isinstance(b, int) and isinstance(i, int):
            return b + i
        return TOP

    def read(self, lv, st, node):
        if lv is None:
            return [(TOP, st)]
        if lv[0] == "str":
            t, i = lv[1], lv[2]
            if 0 <= i < len(t):
                c = ord(t[i])
                return [(c - 256 if 127 < c < 256 else c, st)]
            return [(0 if i == len(t) else TOP, st)]
        if lv in st.mem:
            return [(st.mem[lv], st)]
        if ("zero", lv[1]) in st.mem:
            return [(0, st)]
        if isinstance(lv[1], tuple) and lv[1][0] == "loc":
            return [(TOP, st)]
        r = self.m.read(lv, st, node)
        if isinstance(lv[1], tuple) and lv[1][0] == "g" and len(r) == 1 and r[0][0] == TOP:
            c = self.constant(lv[1][1])
            if c is not None:
                return [(c.get(lv, 0 if ("zero", lv[1]) in c else TOP), r[0][1])]
        return r

    def constant(self, name):
        """what a constant table with an initialiser holds"""
        if name in self.tables:
            return self.tables[name]
        r = None
        d = self.p.globals.get(name)
        if d is not None and (d.ctype or "").startswith("const ") and "*" not in d.ctype and d.kids and d.kids[-1] is not None and d.kids[-1].kind == "InitListExpr":
            self.tables[name] = None
            o = self.initlist(d.kids[-1], d.ctype, ("g", name), 0, "", State({}))
            if len(o) == 1:
                r = dict(o[0].mem)
                r[("zero", ("g", name))] = 1
        self.tables[name] = r
        return r

    def write(self, lv, v, st, node):
        if lv is None or lv[0] == "str":
            return [st]
        r = self.m.write(lv, v, st, node)
        if r is not None:
            return r
        return [st.put(lv, v)]

    def ev(self, n, st):
        """list of (value, state)"""
        if n is None:
            return [(TOP, st)]
        self.tick(n)
        k = n.kind
        if k in ("ParenExpr", "ConstantExpr"):
            return self.ev(n.kids[0], st)
        if k in ("IntegerLiteral", "CharacterLiteral"):
            return [(const_int(n), st)]
        if k == "FloatingLiteral":
            return [(TOP, st)]
        if k == "StringLiteral":
            return [(("s", unquote(n.val), 0), st)]
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck = (n.extra or {}).get("castKind")
            x = n.kids[-1]
            if ck == "LValueToRValue":
                outs = []
                for l, s in self.lv(x, st):
                    outs += self.read(l, s, x)
                return uniq(outs)
            if ck == "ArrayToPointerDecay":
                outs = []
                for l, s in self.lv(x, st):
                    outs.append((self.addr(l), s))
                return outs
            if ck == "FunctionToPointerDecay" or ck == "BuiltinFnToFnPtr":
                while x.kind == "ParenExpr":
                    x = x.kids[0]
                if x.kind == "DeclRefExpr":
                    return [(("f", x.ref.name), st)]
                return [(TOP, s) for _, s in self.ev(x, st)]
            if ck == "NullToPointer":
                return [(0, st)]
            if ck == "ToVoid":
                return [(TOP, s) for _, s in self.ev(x, st)]
            r = self.ev(x, st)
            if ck == "IntegralCast":
                r = [(self.conv(v, n.ctype), s) for v, s in r]
            return r
        if k == "DeclRefExpr":
            if n.ref.kind == "EnumConstantDecl":
                v = const_int(n)
                return [(TOP if v is None else v, st)]
            if n.ref.kind == "FunctionDecl":
                return [(("f", n.ref.name), st)]
            outs = []
            for l, s in self.lv(n, st):
                outs += self.read(l, s, n)
            return outs
        if k in ("MemberExpr", "ArraySubscriptExpr"):
            outs = []
            for l, s in self.lv(n, st):
                outs += self.read(l, s, n)
            return outs
        if k == "UnaryOperator":
            return self.unary(n, st)
        if k == "BinaryOperator":
            return self.binary(n, st)
        if k == "CompoundAssignOperator":
            outs = []
            for r, s in self.ev(n.kids[1], st):
                for l, s1 in self.lv(n.kids[0], s):
                    for v, s2 in self.read(l, s1, n.kids[0]):
                        w = self.arith(n.op[:-1], v, r)
                        for s3 in self.write(l, w, s2, n):
                            outs.append((w, s3))
            return uniq(outs)
        if k == "ConditionalOperator":
            outs = []
            for b, s in self.truth(n.kids[0], st):
                outs += self.ev(n.kids[1] if b else n.kids[2], s)
            return uniq(outs)
        if k == "CallExpr":
            return self.callx(n, st)
        if k == "UnaryExprOrTypeTraitExpr":
            v = sizeof_expr(n)
            return [(v if v is not None else TOP, st)]
        if k == "StmtExpr":
            return [(TOP, s) for fl, s in self.ex(n.kids[0], st) if fl is None]
        if k in ("InitListExpr", "ImplicitValueInitExpr", "CompoundLiteralExpr", "VAArgExpr", "OffsetOfExpr", "PredefinedExpr"):
            return [(TOP, st)]
        raise AnalysisBroken("unsupported expression %s at %s:%d" % (k, n.file, n.line))

    def conv(self, v, t):
        if not isinstance(v, int) or isinstance(v, bool):
            return v
        t = (t or "").replace("const ", "").replace("volatile ", "").strip()
        bits = {"unsigned char": (8, 0), "char": (8, 1), "signed char": (8, 1), "short": (16, 1), "unsigned short": (16, 0),
                "unsigned int": (32, 0), "unsigned long": (64, 0), "int": (32, 1)}.get(t)
        if bits is None:
            return v
        w, sg = bits
        v &= (1 << w) - 1
        if sg and v >= 1 << (w - 1):
            v -= 1 << w
        return v

    def addr(self, l):
        if l is None:
            return TOP
        if l[0] == "str":
            return ("s", l[1], l[2])
        if l[3] == "":
            return ("p", l[1], l[2])
        return ("p", ("sub", l[1], l[2], l[3]), 0)

    def unary(self, n, st):
        op = n.op
        if op == "&":
            x = n.kids[0]
            while x.kind == "ParenExpr":
                x = x.kids[0]
            if x.kind == "DeclRefExpr" and x.ref.kind == "FunctionDecl":
                return [(("f", x.ref.name), st)]
            return [(self.addr(l), s) for l, s in self.lv(x, st)]
        if op == "*":
            outs = []
            for l, s in self.lv(n, st):
                outs += self.read(l, s, n)
            return outs
        if op in ("++", "--"):
            outs = []
            for l, s in self.lv(n.kids[0], st):
                for v, s2 in self.read(l, s, n.kids[0]):
                    w = self.padd(v, 1 if op == "++" else -1)
                    for s3 in self.write(l, w, s2, n):
                        outs.append((v if n.extra and n.extra.get("isPostfix") else w, s3))
            return uniq(outs)
        if op == "!":
            return uniq([(0 if b else 1, s) for b, s in self.truth(n.kids[0], st)])
        outs = []
        for v, s in self.ev(n.kids[0], st):
            if isinstance(v, int):
                v = {"-": -v, "+": v, "~": ~v}.get(op, v)
            else:
                v = v if op in ("+", "__extension__") else TOP
            outs.append((v, s))
        return outs

    def binary(self, n, st):
        op = n.op
        if op == "=":
            outs = []
            for v, s in self.ev(n.kids[1], st):
                for l, s2 in self.lv(n.kids[0], s):
                    for s3 in self.write(l, v, s2, n):
                        outs.append((v, s3))
            return uniq(outs)
        if op == ",":
            outs = []
            for _, s in self.ev(n.kids[0], st):
                outs += self.ev(n.kids[1], s)
            return uniq(outs)
        if op in ("&&", "||"):
            return uniq([(1 if b else 0, s) for b, s in self.truth(n, st)])
        if op == "/":
            c = cfg.array_count(cfg.strip(n.kids[0]), cfg.strip(n.kids[1]))
            if c is not None:
                return [(c, st)]
        outs = []
        for a, s in self.ev(n.kids[0], st):
            for b, s2 in self.ev(n.kids[1], s):
                outs.append((self.arith(op, a, b), s2))
        return uniq(outs)

    def arith(self, op, a, b):
        pa, pb = isinstance(a, tuple), isinstance(b, tuple)
        if op == "+" and (pa or pb):
            return self.padd(a, b) if pa else self.padd(b, a)
        if op == "-" and pa and not pb:
            return self.padd(a, -b) if isinstance(b, int) else TOP
        if op == "-" and pa and pb:
            return a[2] - b[2] if a[:2] == b[:2] and a[0] in "ps" else TOP
        if op in ("==", "!="):
            if a == TOP or b == TOP:
                return TOP
            if (pa and isinstance(b, int)) or (pb and isinstance(a, int)):
                return int(op == "!=") if (b if pa else a) == 0 else TOP
            return int((a == b) == (op == "=="))
        if op in ("<", ">", "<=", ">=") and pa and pb and a[:2] == b[:2] and a[0] in "ps":
            a, b = a[2], b[2]
        if isinstance(a, int) and isinstance(b, int):
            try:
                if op in ("/", "%"):
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return q if op == "/" else a - q * b
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b,
                        "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<": lambda: int(a < b), ">": lambda: int(a > b),
                        "<=": lambda: int(a <= b), ">=": lambda: int(a >= b)}[op]()
            except (ZeroDivisionError, KeyError, ValueError, OverflowError):
                return TOP
        if op == "&" and (a == 0 or b == 0):
            return 0
        return TOP

    def callx(self, n, st):
        cur = [([], st)]
        for a in n.kids[1:]:
            nxt = []
            for vs, s in cur:
                for v, s2 in self.ev(a, s):
                    nxt.append((vs + [v], s2))
            cur = nxt
        outs = []
        name0 = cfg.callee(n)
        for vs, s in cur:
            name = name0
            if name is None or (name not in self.p.functions and name not in self.p.fdecls):
                for v, s2 in self.ev(n.kids[0], s):
                    s = s2
                    if isinstance(v, tuple) and v[0] == "f":
                        name = v[1]
            r = self.m.call(name, n, vs, s, self)
            if r is not None:
                outs += r
                continue
            if name in self.p.noreturn:
                self.ended.append((name, n, s))
                continue
            if name in self.p.functions:
                outs += self.invoke(self.p.functions[name], vs, s)
                continue
            if name in ("strcmp", "strcasecmp") and len(vs) == 2:
                a, b = text(vs[0]), text(vs[1])
                if a is not None and b is not None:
                    outs.append(((a > b) - (a < b), s))
                    continue
            if name == "strncmp" and len(vs) == 3 and isinstance(vs[2], int):
                a, b = text(vs[0]), text(vs[1])
                if a is not None and b is not None:
                    a, b = a[:vs[2]], b[:vs[2]]
                    outs.append(((a > b) - (a < b), s))
                    continue
            if name == "strlen" and text(vs[0]) is not None:
                outs.append((len(text(vs[0])), s))
                continue
            if name == "memset" and len(vs) == 3 and vs[1] == 0 and isinstance(vs[0], tuple) and vs[0][0] == "p" and vs[0][2] == 0 and not (
                    isinstance(vs[0][1], tuple) and vs[0][1][0] == "sub"):
                o = vs[0][1]
                outs.append((vs[0], s.drop(lambda k: k[0] == "h" and k[1] == o).put(("zero", o), 1)))
                continue
            if name == "__builtin_expect":
                outs.append((vs[0], s))
                continue
            self.unmodelled.add(name)
            outs.append((TOP, s))
        return uniq(outs)


def text(v):
    if isinstance(v, tuple) and v[0] == "s":
        t = v[1][v[2]:]
        i = t.find("\0")
        return t if i < 0 else t[:i]
    return None


def uniq(l):
    seen, out = set(), []
    for x in l:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out
