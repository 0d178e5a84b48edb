"""values handed to a generated parser are destroyed or pass to the stack, the actions or the user exactly once"""
import cfg
import lempar
from cast import AnalysisBroken
from cfg import strip, const_int, callee, args, Engine

T, P, D, M, G = "a token's value goes one way", "no entry is dropped", "ends leave nothing on the stack", "destroyed as what it is", "growing keeps the entries"
ACCEPT = "user_accept"


class St(object):
    """tok: how often the token's value was taken; env: what variables and unions hold"""
    __slots__ = ("tok", "gone", "pend", "inc", "ent", "dr", "over", "acc", "env", "_h")

    def __init__(self, **k):
        for a in self.__slots__[:-1]:
            setattr(self, a, k[a])
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (self.tok, self.gone, self.pend, self.inc, self.ent, self.dr, self.over, self.acc, frozenset(self.env.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def but(self, **k):
        d = dict((a, getattr(self, a)) for a in self.__slots__[:-1])
        d.update(k)
        return St(**d)

    def put(self, k, v):
        e = dict(self.env)
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
        return self.but(env=e)


def fresh(env):
    return St(tok=0, gone=False, pend=False, inc=False, ent=(None, None, None), dr=False, over=False, acc=False, env=env)


class An(object):
    def __init__(self, p, cfgname):
        self.p, self.cfgname = p, cfgname
        self.viol, self.sites = {}, {}
        self.stack = []
        self.eng = 0
        self.owner = {}
        for f, d in p.functions.items():
            for n in d.walk():
                if n.kind in ("VarDecl", "ParmVarDecl"):
                    self.owner[n.id] = f

    # ---- reporting
    def site(self, rule, n):
        self.sites.setdefault(rule, set()).add(n.id)

    def bad(self, rule, what, n, msg):
        f = self.stack[-1]
        self.viol.setdefault((rule, "%s|%s" % (f, what)), (self.p.loc(n), f, msg))

    # ---- expressions
    def fld(self, n, name):
        n = strip(n)
        return n.kind == "MemberExpr" and n.name == name and self.is_parser(n.kids[0])

    def is_parser(self, b):
        t = (strip(b).ctype or "").replace("struct ", "").replace("const ", "").replace(" ", "")
        return t in ("yyParser*", "yyParser")

    def entry(self, n, s):
        """which entry an expression of type yyStackEntry points at"""
        v = self.ev(n, s)
        return v[1] if isinstance(v, tuple) and v[0] == "E" else None

    def ev(self, n, s):
        n = strip(n)
        while n.kind in ("CStyleCastExpr", "ParenExpr", "ImplicitCastExpr"):
            n = strip(n.kids[0])
        c = const_int(n)
        if c is not None:
            return c
        k = n.kind
        if k == "DeclRefExpr":
            return s.env.get(n.ref.id)
        if k == "MemberExpr":
            if self.fld(n, "yytos"):
                return ("E", "top")
            if self.fld(n, "yystack"):
                return ("S",)
            if n.name == "major":
                w = self.lentry(n, s)
                return ("maj", w) if w else None
            if n.name == "yy0":
                u = strip(n.kids[0])
                if u.kind == "DeclRefExpr":
                    return s.env.get(("U", u.ref.id))
            return None
        if k == "UnaryOperator":
            if n.op == "&":
                t = strip(n.kids[0])
                if t.kind == "DeclRefExpr":
                    return ("U", t.ref.id)
                if t.kind == "MemberExpr" and t.name == "minor":
                    w = self.lentry(t, s)
                    return ("min", w) if w else None
                if t.kind == "MemberExpr" and t.name in ("yy0", "yy1", "yyinit"):
                    return self.ev_addr(t, s)
                if t.kind == "ArraySubscriptExpr":
                    return self.index(t.kids[0], t.kids[1], s)
                return None
            if n.op in ("++", "--") and self.fld(n.kids[0], "yytos"):
                if n.extra and n.extra.get("isPostfix") and n.op == "--":
                    return ("E", "popped")
                return ("E", "top")
            if n.op == "*":
                return None
            return None
        if k == "BinaryOperator":
            if n.op in ("+", "-"):
                a, b = self.ev(n.kids[0], s), self.ev(n.kids[1], s)
                if n.op == "-" and a == ("E", "top") and b == ("S",):
                    return "depth"
                if a == ("S",) and b == "depth":
                    return ("E", "top")
                if n.op == "+":
                    return self.plus(a, b)
                if n.op == "-" and isinstance(b, int):
                    return self.plus(a, -b)
            if n.op == "=":
                return self.ev(n.kids[1], s)
            return None
        if k == "ConditionalOperator":
            a, b = self.ev(n.kids[1], s), self.ev(n.kids[2], s)
            if a == b:
                return a
            for x, y in ((a, b), (b, a)):
                if x == "depth" and y == 0:
                    return x
            return None
        if k == "CallExpr":
            return s.env.get(("n", n.id))
        if k == "ArraySubscriptExpr":
            b = strip(n.kids[0])
            if b.kind == "DeclRefExpr" and b.ref is not None and b.ref.name == "yyRuleInfoNRhs":
                return ("N", 0)
            return None
        return None

    def ev_addr(self, t, s):
        u = strip(t.kids[0])
        if u.kind == "DeclRefExpr":
            return ("U", u.ref.id)
        if u.kind == "MemberExpr" and u.name == "minor":
            w = self.lentry(u, s)
            return ("min", w) if w else None
        return None

    def plus(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "N" and isinstance(y, int):
                return ("N", x[1] + y)
            if x == ("E", "top"):
                if isinstance(y, tuple) and y[0] == "N":
                    return ("E", "reduced%+d" % y[1])
                if y == 1:
                    return ("E", "above")
                if y == -1:
                    return ("E", "below")
                if y == 0:
                    return x
            if isinstance(x, tuple) and x[0] == "E" and x[1].startswith("reduced") and isinstance(y, int):
                return ("E", "reduced%+d" % (int(x[1][7:]) + y))
        return None

    def index(self, b, i, s):
        vb, vi = self.ev(b, s), self.ev(i, s)
        if vb == ("S",) and vi == "depth":
            return ("E", "top")
        return self.plus(vb, vi)

    def lentry(self, m, s):
        """entry whose member m is"""
        b = strip(m.kids[0])
        if b.kind == "ArraySubscriptExpr":
            v = self.index(b.kids[0], b.kids[1], s)
        elif b.kind == "UnaryOperator" and b.op == "*":
            v = self.ev(b.kids[0], s)
        else:
            v = self.ev(b, s)
        if isinstance(v, tuple) and v[0] == "E":
            return "popped" if v[1] == "above" and s.pend else v[1]
        return None

    # ---- events
    def pop(self, n, s):
        self.site(P, n)
        if s.inc:
            return self.rename(s.but(inc=False, ent=(None, None, None)), {"top": "gone", "below": "top"})
        if s.pend:
            self.bad(P, "popped twice", n, "an entry taken from the stack before this one has not been destroyed")
        return self.rename(s.but(pend=True), {"top": "popped", "below": "top"})

    def push(self, n, s):
        self.site(P, n)
        if s.inc:
            self.bad(P, "pushed twice", n, "the entry pushed before this one was not filled")
        return self.rename(s.but(inc=True, ent=(None, None, None), dr=False), {"top": "below", "above": "top"})

    def rename(self, s, m):
        e = {}
        for k, v in s.env.items():
            if isinstance(v, tuple) and v[0] in ("E", "maj", "min") and v[1] in m:
                v = (v[0], m[v[1]])
            e[k] = v
        return s.but(env=e)

    def take(self, n, s, how):
        self.site(T, n)
        if s.tok:
            self.bad(T, "twice", n, "the value of the token is %s a second time" % how)
        return s.but(tok=min(2, s.tok + 1), gone=how == "destroyed" or s.gone)

    def member_store(self, n, m, s, val):
        """entry->major/minor/stateno = val"""
        if m.name == "yy0" or m.name.startswith("yy"):
            u = strip(m.kids[0])
            if u.kind == "DeclRefExpr":
                return s.put(("U", u.ref.id), val)
            if u.kind == "MemberExpr" and u.name == "minor":
                m = u
            else:
                return s
        if m.name in ("major", "minor", "stateno"):
            w = self.lentry(m, s)
            if w == "top" and s.inc:
                e = list(s.ent)
                e[("major", "minor", "stateno").index(m.name)] = val if val is not None else "?"
                s = s.but(ent=tuple(e))
                if None not in e:
                    self.site(P, n)
                    if e[0] == "M":
                        if e[1] == "V":
                            s = self.take(n, s, "stored")
                        else:
                            self.bad(T, "other value", n, "the token is pushed with a value that is not the one it came with")
                    s = s.but(inc=False, ent=(None, None, None))
            elif w == "popped" and s.pend and m.name == "minor":
                self.bad(P, "overwritten", n, "the value of an entry that has been popped is overwritten before it is destroyed")
        return s

    def elem(self, e, s, ctx):
        k = e.kind
        if k == "VarDecl":
            return [s.put(e.id, self.ev(e.kids[-1], s) if e.kids and e.kids[-1] is not None else None)]
        if k == "UnaryOperator" and e.op in ("++", "--"):
            t = strip(e.kids[0])
            if self.fld(t, "yytos"):
                return [self.push(e, s) if e.op == "++" else self.pop(e, s)]
            if t.kind == "DeclRefExpr":
                v = self.plus(s.env.get(t.ref.id), 1 if e.op == "++" else -1)
                return [s.put(t.ref.id, None if isinstance(v, int) else v)]
            return [s]
        if k in ("BinaryOperator", "CompoundAssignOperator") and cfg.is_assign(e):
            t = strip(e.kids[0])
            if e.op == "=":
                v = self.ev(e.kids[1], s)
            elif e.op in ("+=", "-="):
                r = self.ev(e.kids[1], s)
                v = self.plus(self.ev(t, s), r if e.op == "+=" else (-r if isinstance(r, int) else None))
            else:
                v = None
            if t.kind == "DeclRefExpr":
                return [s.put(t.ref.id, v)]
            if self.fld(t, "yytos"):
                return [self.settop(e, v, s)]
            if t.kind == "MemberExpr":
                return [self.member_store(e, t, s, v)]
            return [s]
        if k == "ReturnStmt":
            return [s.put(("ret", self.stack[-1]), self.ev(e.kids[0], s) if e.kids and e.kids[0] is not None else None)]
        if k == "CallExpr":
            return self.call(e, s)
        return [s]

    def settop(self, n, v, s):
        self.site(P, n)
        if v == ("E", "top"):
            return s
        if v == ("E", "above"):
            return self.push(n, s)
        if v == ("E", "below"):
            return self.pop(n, s)
        if v == ("E", "reduced+1"):
            return self.rename(s.but(dr=False), {"top": "old", "reduced+1": "top"})       # the right-hand side went to the action, the left-hand side takes its place
        if "ParseInit" in self.stack:
            return s
        if v == ("S",) and s.dr:
            return s
        self.bad(P, "moved", n, "the top of the stack is moved without destroying what is passed over")
        return s

    def call(self, n, s):
        nm = callee(n)
        a = args(n)
        vals = [self.ev(x, s) for x in a]
        if s.gone and not s.over:
            for v in vals:
                if v == "V" or (isinstance(v, tuple) and v[0] == "U" and s.env.get(v) == "V" and nm != "yy_destructor"):
                    self.bad(T, "after", n, "the value of the token is used after it was destroyed")
        if nm == "yy_destructor":
            return [self.destroy(n, vals, s)]
        if nm in ("user_overflow", "user_failure"):
            self.site(D, n)
            if not s.dr:
                self.bad(D, nm, n, "%s code runs while the stack may hold entries: they are dropped by what follows or used after an error" % nm[5:])
            return [s.but(over=s.over or nm == "user_overflow")]
        if nm == ACCEPT:
            self.site(P, n)
            return [s.but(acc=True)]
        if nm is None or nm == "free":
            freed = nm == "free" and self.fld(a[0], "yystack") if a else False
            if nm is None and len(a) == 1 and "yyParser" not in str(n.ctype) and self.stack[0] == "ParseFree":
                freed = True
            if freed:
                self.site(D, n)
                if not s.dr:
                    self.bad(D, "released", n, "the stack is released while it may hold entries that were not destroyed")
            return [s]
        if nm in self.p.functions and nm not in self.stack:
            d = self.p.functions[nm]
            ps = [x for x in d.kids if x is not None and x.kind == "ParmVarDecl"]
            t = s
            for q, v in zip(ps, vals):
                t = t.put(q.id, v)
            self.stack.append(nm)
            outs = Engine(self).run(self.p.cfg(nm), [t])
            self.stack.pop()
            res = []
            for o in outs:
                r = o.env.get(("ret", nm))
                e = dict((x, v) for x, v in o.env.items() if self.home(x) != nm)
                if r is not None:
                    e[("n", n.id)] = r
                o = o.but(env=e)
                if o not in res:
                    res.append(o)
            return res
        return [s]

    def home(self, k):
        if isinstance(k, tuple):
            if k[0] == "U":
                return self.owner.get(k[1])
            if k[0] == "ret":
                return k[1]
            if k[0] == "n":
                return self.where.get(k[1])
            return None
        return self.owner.get(k)

    def destroy(self, n, v, s):
        maj, mi = v[1], v[2]
        w = self.p.where[n.line - 1] if 0 < n.line <= len(self.p.where) else 0
        if w < 0:
            return s                                     # generated reduce action: destroys a right-hand side value
        if isinstance(mi, tuple) and mi[0] == "U":
            self.site(M, n)
            if s.env.get(mi) != "V":
                self.bad(M, "unset", n, "what is destroyed was never given a value")
                return s
            if maj != "M":
                self.bad(M, "code", n, "the token's value is destroyed as a different symbol")
            return self.take(n, s, "destroyed")
        if isinstance(mi, tuple) and mi[0] == "min":
            self.site(M, n)
            if mi[1] != "popped":
                self.bad(P, "still there", n, "an entry is destroyed while it is still on the stack")
                return s
            if maj != ("maj", mi[1]):
                self.bad(M, "code", n, "a popped entry is destroyed as a different symbol")
            if not s.pend:
                self.bad(P, "twice", n, "an entry is destroyed twice")
            return s.but(pend=False)
        self.bad(M, "what", n, "what is destroyed here is neither the token nor an entry taken from the stack")
        return s

    # ---- branches
    def branch(self, c, truth, s, ctx):
        c = strip(c)
        while c.kind in ("ParenExpr", "CStyleCastExpr"):
            c = strip(c.kids[0])
        if c.kind == "UnaryOperator" and c.op == "!":
            return self.branch(c.kids[0], not truth, s, ctx)
        if c.kind == "CallExpr" and callee(c) == "__builtin_expect":
            return self.branch(args(c)[0], truth, s, ctx)
        if c.kind == "BinaryOperator" and c.op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.ev(c.kids[0], s), self.ev(c.kids[1], s)
            op = c.op
            if not truth:
                op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
            if a == ("S",) and b == ("E", "top") or isinstance(a, int) and not isinstance(b, int):
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if a == "depth" and isinstance(b, int):
                if (op, b) in ((">", 0), (">=", 1), ("!=", 0)):
                    a, b, op = ("E", "top"), ("S",), ">"
                elif (op, b) in (("<=", 0), ("<", 1), ("==", 0)):
                    a, b, op = ("E", "top"), ("S",), "<="
            if a == ("E", "top") and b == ("S",):
                if op in (">", "!="):
                    return [] if s.dr else [s]
                if op in ("<=", "==", "<"):
                    return [s.but(dr=True)]
                return [s]
            if isinstance(a, int) and isinstance(b, int):
                r = {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
                return [s] if r else []
            if a == "M" and b == 60:                     # YYNOCODE is the code of no token
                return [s] if op != "==" else []
            return [s]
        v = self.ev(c, s)
        if v == "depth":
            if truth:
                return [] if s.dr else [s]
            return [s.but(dr=True)]
        if isinstance(v, int):
            return [s] if bool(v) == truth else []
        return [s]

    def case(self, c, v, others, s, ctx):
        x = self.ev(c, s)
        if isinstance(x, int):
            return [s] if (x == v if v is not None else x not in others) else []
        return [s]

    # ---- roots
    def run(self, f):
        d = self.p.functions[f]
        self.where = dict((n.id, g) for g, h in self.p.functions.items() for n in h.walk() if n.kind == "CallExpr")
        env = {}
        ps = [k for k in d.kids if k is not None and k.kind == "ParmVarDecl"]
        if f == "Parse":
            if len(ps) < 3:
                raise AnalysisBroken("Parse does not take a parser, a token and a value")
            env = {ps[1].id: "M", ps[2].id: "V"}
        self.stack = [f]
        outs = Engine(self, 200000).run(self.p.cfg(f), [fresh(env)])
        for s in outs:
            n = d
            if f == "Parse":
                self.site(T, n)
                if not s.tok and not s.over and not s.acc:
                    self.bad(T, "lost", n, "a path through Parse neither stores nor destroys the value of the token")
            if s.acc and not s.pend:
                self.bad(P, "accepted", n, "the start symbol is left on the stack when the input is accepted")
            if s.pend and not s.acc:
                self.bad(P, "dropped", n, "an entry is taken from the stack and not destroyed")
            if s.inc and not s.over:
                self.bad(P, "unfilled", n, "an entry is pushed without its state, symbol or value")
            if f in ("ParseFinalize", "ParseFree"):
                self.site(D, n)
        return len(outs)


def growth(R, p, cfgname):
    """a new block takes over what the old one held"""
    k = 0
    for f, d in sorted(p.functions.items()):
        for n in d.walk():
            if n.kind == "BinaryOperator" and n.op == "=" and strip(n.kids[0]).kind == "MemberExpr" and strip(n.kids[0]).name == "yystack" and strip(n.kids[1]).kind == "DeclRefExpr":
                v = strip(n.kids[1]).ref
                for x in d.walk():
                    if x.kind == "BinaryOperator" and x.op == "=" and strip(x.kids[0]).kind == "DeclRefExpr" and strip(x.kids[0]).ref.id == v.id:
                        src = strip(x.kids[1])
                        if src.kind != "CallExpr":
                            continue
                        k += 1
                        c = callee(src)
                        if c == "realloc":
                            a = strip(args(src)[0])
                            if not (a.kind == "MemberExpr" and a.name == "yystack"):
                                R.bad(G, "%s|realloc" % f, p.loc(src), f, "the stack grows from a block that is not the old one (%s)" % cfgname)
                        elif c in ("malloc", "calloc"):
                            copied = False
                            for y in d.walk():
                                if y.kind == "BinaryOperator" and y.op == "=" and any(z.kind == "MemberExpr" and z.name == "yystk0" for z in y.kids[1].walk()) and \
                                        any(z.kind == "DeclRefExpr" and z.ref is not None and z.ref.id == v.id for z in y.kids[0].walk()):
                                    copied = True
                                if y.kind == "CallExpr" and callee(y) in ("memcpy", "memmove") and any(
                                        z.kind == "DeclRefExpr" and z.ref is not None and z.ref.id == v.id for z in args(y)[0].walk()):
                                    copied = True
                            if not copied:
                                R.bad(G, "%s|malloc" % f, p.loc(src), f, "a new block for the stack does not take over the entries of the old one (%s)" % cfgname)
    return k


def run(R):
    R.explain = ("lempar.c is completed with stand-ins for the generated parts and parsed in 12 configurations. Parse, ParseFinalize and ParseFree are interpreted path by path with every callee "
                 "in place: what happens to the token's value (stored in a new entry under its own code, or destroyed under its own code, exactly once unless the stack overflows or the input "
                 "is accepted), to every entry the top is moved down over (destroyed under its own code, once, except the start symbol at acceptance and the right-hand side of a rule at its "
                 "reduction), and where the stack must be empty (overflow code, failure code, release).")
    R.rule(T, "on every path through Parse the token's value is stored or destroyed once, and not used after it was destroyed")
    R.rule(P, "an entry the top moves below has been destroyed; an entry pushed gets its state, symbol and value")
    R.rule(D, "overflow code, failure code and release of the stack run only when everything above the bottom was popped")
    R.rule(M, "a value is destroyed under the code of the symbol it belongs to")
    R.rule(G, "a bigger block takes over the entries of the old one")
    R.assumes += ["the value of the token is lost when the stack overflows, and the value of the start symbol when the input is accepted: lemon calls no destructor there",
                  "YYNOCODE is never passed as a token"]
    tot = {}
    gr = 0
    for c in sorted(lempar.CONFIGS):
        p = lempar.program(c)
        n = 0
        for f in ("Parse", "ParseFinalize", "ParseFree"):
            if f not in p.functions:
                raise AnalysisBroken("no function %s in the template" % f)
            A = An(p, c)
            n += A.run(f)
            for r, ids in A.sites.items():
                R.ok(r, len(ids), "%s: %d places from %s" % (c, len(ids), f))
                tot[r] = tot.get(r, 0) + len(ids)
            for (r, key), (loc, fn, msg) in sorted(A.viol.items()):
                R.bad(r, key, loc, fn, msg, ["configuration %s, entered through %s" % (c, f)])
        k = growth(R, p, c)
        gr += k
    R.ok(G, gr)
    R.count("configurations", len(lempar.CONFIGS), 12)
    for r, n in sorted(tot.items()):
        R.count("places: " + r, n, 12)
    R.count("blocks the stack grows into", gr, 6)
