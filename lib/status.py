"""Error reporting and exit status: on which paths a diagnostic was printed, which error counters are then nonzero,
and what value reaches exit()."""
import cfg
from cfg import strip, const_int, key, callee, args, is_assign, Engine, path_lines
from cast import AnalysisBroken

CTX = ()


class St(tuple):
    """(diagnostic origin | None, {(counter, 'small'|'count')}, {(name, value)}, {(condition, truth)})"""
    __slots__ = ()


def mk(d, gen, vals, facts):
    return (d, frozenset(gen), frozenset(vals), frozenset(facts))


class Status(object):
    def __init__(self, prog, effects, is_diag, counters, main="main", allowed=()):
        self.p, self.eff, self.is_diag, self.counters, self.main = prog, effects, is_diag, set(counters), main
        self.allowed = set(allowed)
        self.sum = dict((f, set()) for f in prog.functions)
        self.zexit = {}
        self.viol = {}
        self.diags = set()
        self.exits = set()
        self.incs = set()
        self.fwd = {}

    # functions that hand a parameter on to exit()
    def forwarders(self):
        ch = True
        self.fwd = {"exit": 0, "_exit": 0}
        while ch:
            ch = False
            for f, d in self.p.functions.items():
                if f in self.fwd or f not in self.p.noreturn:
                    continue
                ps = [k for k in d.kids if k is not None and k.kind == "ParmVarDecl"]
                idx = set()
                for c, n in self.p.calls(f):
                    if c in self.fwd:
                        a = args(n)[self.fwd[c]]
                        s = strip(a)
                        if s.kind == "DeclRefExpr" and any(s.ref.id == q.id for q in ps):
                            idx.add([q.id for q in ps].index(s.ref.id))
                if len(idx) == 1:
                    self.fwd[f] = idx.pop()
                    ch = True

    def run(self):
        self.forwarders()
        order = list(self.p.functions)
        self.relevance()
        for rnd in range(12):
            ch = False
            for f in order:
                n = self.analyse(f)
                if n != self.sum[f]:
                    self.sum[f] = n
                    ch = True
            if not ch:
                return
        raise AnalysisBroken("status summaries do not settle")

    def relevance(self):
        """locals and function results that can reach a counter or an exit status"""
        loc, ret = set(), set([self.main])
        ch = True

        def feed(e):
            c = False
            for x in e.walk():
                if x.kind == "DeclRefExpr" and x.ref is not None and x.ref.kind in ("VarDecl", "ParmVarDecl") and x.ref.id not in loc:
                    loc.add(x.ref.id)
                    c = True
                if x.kind == "CallExpr" and callee(x) in self.p.functions and callee(x) not in ret:
                    ret.add(callee(x))
                    c = True
            return c
        for f, d in self.p.functions.items():
            for n in d.walk():
                if n.kind == "IfStmt" and any(x.kind == "CallExpr" and callee(x) in self.fwd for x in n.walk()):
                    k = [x for x in n.kids if x is not None]
                    for x in k[0].walk():
                        if x.kind == "DeclRefExpr" and x.ref is not None and x.ref.kind == "VarDecl" and "*" not in (x.ctype or ""):
                            loc.add(x.ref.id)
        while ch:
            ch = False
            for f, d in self.p.functions.items():
                for n in d.walk():
                    if is_assign(n):
                        l = strip(n.kids[0])
                        if (l.kind == "MemberExpr" and self.p.owner(l) in self.counters) or (l.kind == "DeclRefExpr" and l.ref.id in loc):
                            ch |= feed(n.kids[1])
                    elif n.kind == "VarDecl" and n.id in loc:
                        for x in n.kids:
                            if x is not None:
                                ch |= feed(x)
                    elif n.kind == "CallExpr" and callee(n) in self.fwd:
                        ch |= feed(args(n)[self.fwd[callee(n)]])
                    elif n.kind == "ReturnStmt" and f in ret and n.kids and n.kids[0] is not None:
                        ch |= feed(n.kids[0])
        self.loc, self.ret = loc, ret

    def repeated(self, f):
        if not hasattr(self, "_rp"):
            self._rp = {}
        if f not in self._rp:
            cnt = {}
            for b in self.p.cfg(f).blocks:
                if b.term and b.term[0] == "branch":
                    k = key(b.term[1])
                    if k:
                        cnt[k] = cnt.get(k, 0) + 1
            self._rp[f] = set(k for k, c in cnt.items() if c > 1)
        return self._rp[f]

    def analyse(self, f):
        g = self.p.cfg(f)
        self.f, self.g = f, g
        self.rep = self.repeated(f) if f == self.main else ()
        st = mk(None, (), (), ())
        out = set()
        for d, gen, vals, facts in Engine(self, 40000).run(g, [st]):
            fields = set(x for x in gen if x[0] in self.counters or x[0] == "RET")
            if any(x[0] in self.counters for x in fields):
                d = "*" if d else None
            out.add((d, frozenset(fields)))
        if f == self.main:
            for d, gen in out:
                if d and not any(x[0] == "RET" for x in gen):
                    self.violate("return of main", self.p.functions[f], d, "main returns zero after this diagnostic")
        return out

    def violate(self, k, node, d, msg):
        self.viol[(k, self.p.loc(node))] = (self.f, msg, d, path_lines(self.trace) if hasattr(self, "trace") else [])

    # ---- naming
    def ckey(self, n):
        n = strip(n)
        if n is None:
            return None
        if n.kind == "MemberExpr":
            o = self.p.owner(n)
            if o in self.counters:
                return o
            return None
        if n.kind == "DeclRefExpr" and n.ref.kind in ("VarDecl", "ParmVarDecl") and n.ref.id in self.loc:
            return ("L", n.ref.id)
        if n.kind == "CallExpr" and callee(n) in self.ret:
            return ("C", id(n))
        return None

    def gv(self, st, k):
        for x in st[1]:
            if x[0] == k:
                return "s" if x[1] == "small" else "c"
        for x in st[2]:
            if x[0] == k:
                return x[1]
        return None

    def setv(self, st, k, v):
        d, gen, vals, facts = st
        gen = set(x for x in gen if x[0] != k)
        vals = set(x for x in vals if x[0] != k)
        if v in ("s", "c"):
            gen.add((k, "small" if v == "s" else "count"))
        elif v == "z":
            vals.add((k, "z"))
        nm = k[1] if k[0] == "L" else None
        if facts:
            facts = [x for x in facts if not self._mentions(x[0], k)]
        return mk(d, gen, vals, facts)

    def _mentions(self, ck, k):
        if k[0] == "L":
            return "'%s" % k[1][-6:] in ck
        return ("." + k[1]) in ck or ("->" + k[1]) in ck

    # ---- values
    def truth(self, n, st):
        n = strip(n)
        c = const_int(n)
        if c is not None:
            return bool(c)
        if n.kind == "UnaryOperator" and n.op == "!":
            t = self.truth(n.kids[0], st)
            return None if t is None else not t
        if n.kind == "BinaryOperator" and n.op in ("&&", "||"):
            a, b = self.truth(n.kids[0], st), self.truth(n.kids[1], st)
            if n.op == "&&":
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        k = key(n)
        if k:
            for x in st[3]:
                if x[0] == k:
                    return x[1]
        if n.kind == "BinaryOperator" and n.op in ("==", "!=", ">", "<", ">=", "<="):
            for a, b, op in ((n.kids[0], n.kids[1], n.op),
                             (n.kids[1], n.kids[0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(n.op, n.op))):
                ck, v = self.ckey(a), const_int(b)
                if ck is None or v is None:
                    continue
                g = self.gv(st, ck)
                if g in ("s", "c"):
                    if (op == ">" and v <= 0) or (op == "!=" and v == 0) or (op == ">=" and v <= 1):
                        return True
                    if (op == "<" and v <= 1) or (op == "==" and v == 0) or (op == "<=" and v <= 0):
                        return False
                elif g == "z":
                    return {"==": 0 == v, "!=": 0 != v, ">": 0 > v, "<": 0 < v, ">=": 0 >= v, "<=": 0 <= v}[op]
            return None
        ck = self.ckey(n)
        if ck is not None:
            g = self.gv(st, ck)
            if g in ("s", "c"):
                return True
            if g == "z":
                return False
        return None

    def value(self, n, st):
        """{'z','s','c','any'}"""
        n = strip(n)
        c = const_int(n)
        if c is not None:
            return set(["z" if c % 256 == 0 else "s"])
        if n.kind == "ConditionalOperator":
            t = self.truth(n.kids[0], st)
            r = set()
            if t is not False:
                r |= self.value(n.kids[1], st)
            if t is not True:
                s2 = st
                cd = strip(n.kids[0])
                if cd.kind == "BinaryOperator" and cd.op in (">", ">=") and const_int(cd.kids[1]) is not None and const_int(cd.kids[1]) <= 256:
                    ck = self.ckey(cd.kids[0])
                    if ck is not None and self.gv(st, ck) == "c" and const_int(cd.kids[1]) + (cd.op == ">") <= 256:
                        s2 = self.setv(st, ck, "s")
                r |= self.value(n.kids[2], s2)
            return r
        if (n.kind == "BinaryOperator" and n.op in ("&&", "||", "==", "!=", "<", ">", "<=", ">=")) or (n.kind == "UnaryOperator" and n.op == "!"):
            t = self.truth(n, st)
            return set(["s"]) if t else (set(["z"]) if t is False else set(["any"]))
        ck = self.ckey(n)
        if ck is not None:
            g = self.gv(st, ck)
            return set([g]) if g else set(["any"])
        if n.kind == "BinaryOperator" and n.op in ("+", "|"):
            a, b = self.value(n.kids[0], st), self.value(n.kids[1], st)
            if a == set("z") and b == set("z"):
                return set("z")
            if (a | b) <= set("zsc") and (a <= set("sc") or b <= set("sc")):
                return set("c")
            if a <= set("sc") or b <= set("sc"):
                return set("c")
        return set(["any"])

    # ---- engine hooks
    def exit_here(self, n, e, st):
        d = st[0]
        v = self.value(e, st)
        self.exits.add(self.p.loc(n))
        if self.f in self.fwd:
            v = set(["s"])
        c = set(x for x in v)
        ck = self.ckey(e)
        if "c" in c or (ck in self.counters and self.gv(st, ck) is None and any(x[0] == ck for x in self.counted)):
            self.violate("count as status:%s" % self.f, n, d, "an error count is used as exit status: a multiple of 256 errors gives status 0")
        if d and ("z" in c or "any" in c):
            self.violate("zero exit:%s:%s" % (self.f, d.split("|")[-1]), n, d, "exit status may be 0 although an error was reported")
        if not d and "z" in c:
            self.zexit[self.f] = self.p.loc(n)

    counted = frozenset()

    def elem(self, n, st, ctx):
        k = n.kind
        if k == "VarDecl":
            ini = [x for x in n.kids if x is not None]
            if ini and n.id in self.loc and "*" not in (n.ctype or "") and "[" not in (n.ctype or ""):
                return self.assign(("L", n.id), ini[-1], "=", st)
            return [st]
        if is_assign(n):
            ck = self.ckey(n.kids[0])
            if ck is None:
                return [self.killfacts(st, n.kids[0])]
            return self.assign(ck, n.kids[1], n.op, st)
        if k == "UnaryOperator" and n.op == "++":
            ck = self.ckey(n.kids[0])
            if ck is None:
                return [self.killfacts(st, n.kids[0])]
            if ck in self.counters:
                self.incs.add(self.p.loc(n))
                s = self.setv(st, ck, "c")
                return [mk("*" if s[0] else None, s[1], s[2], s[3])]
            return [self.setv(st, ck, "c")]
        if k == "UnaryOperator" and n.op == "--":
            ck = self.ckey(n.kids[0])
            if ck is not None:
                return [self.setv(st, ck, "any")]
            return [st]
        if k == "ReturnStmt":
            if n.kids and n.kids[0] is not None and self.f in self.ret:
                v = self.value(n.kids[0], st)
                if v <= set("sc"):
                    return [self.setv(st, ("RET",), "c" if "c" in v else "s")] if False else [mk(st[0], set(st[1]) | set([("RET", "count" if "c" in v else "small")]), st[2], st[3])]
            return [st]
        if k != "CallExpr":
            return [st]
        nm = callee(n)
        if nm in self.fwd:
            self.exit_here(n, args(n)[self.fwd[nm]], st)
            return [st]
        if self.is_diag(n, nm, self.f):
            loc = "%s|%s" % (self.p.loc(n), self.f)
            self.diags.add(self.p.loc(n))
            if any(x[0] in self.counters for x in st[1]):
                return [mk("*", st[1], st[2], st[3])]
            return [mk(loc, st[1], st[2], st[3])]
        if nm in self.p.functions:
            if st[0] and nm in self.zexit:
                self.violate("zero exit in %s" % nm, n, st[0], "%s may exit with status 0 (%s) although an error was reported" % (nm, self.zexit[nm]))
            out = []
            w = self.eff.fields(nm) if st[3] else ()
            facts = [x for x in st[3] if not any(("." + q) in x[0] or ("->" + q) in x[0] for q in w)]
            printer = nm not in self.counting and all(x[0] for x in self.sum[nm])
            for d, gen in self.sum[nm]:
                if nm in self.allowed:
                    d = None
                if d and printer:
                    self.diags.add(self.p.loc(n))
                    d = "%s|%s" % (self.p.loc(n), self.f)
                g2 = set(st[1])
                # a counter the callee may clear is unknown again unless set afterwards
                if nm in self.resets:
                    g2 = set(x for x in g2 if x[0] not in self.resets[nm])
                for x in gen:
                    if x[0] == "RET":
                        if nm in self.ret:
                            g2.add((("C", id(n)), x[1]))
                    else:
                        g2.add(x)
                d2 = d or st[0]
                if d2 and any(x[0] in self.counters for x in g2):
                    d2 = "*"
                elif d2 == "*":
                    d2 = d if d and d != "*" else "%s|%s" % (self.p.loc(n), self.f)
                s = mk(d2, g2, st[2], facts)
                if s not in out:
                    out.append(s)
            return out
        return [st]

    def killfacts(self, st, l):
        if not st[3]:
            return st
        k = key(l)
        if k is None:
            return mk(st[0], st[1], st[2], ())
        import nullness
        return mk(st[0], st[1], st[2], [x for x in st[3] if not nullness.mentions(x[0], k)])

    def assign(self, ck, rhs, op, st):
        v = self.value(rhs, st)
        r = strip(rhs)
        st = mk(st[0], [x for x in st[1] if not (x[0][0] == "C" and r.kind == "CallExpr" and x[0][1] == id(r))], st[2], st[3])
        if op == "=":
            if ck in self.counters and st[0] and v & set(["z", "any"]):
                # an overwritten counter no longer remembers the error
                s = self.setv(st, ck, "z" if v == set("z") else "any")
                d = s[0]
                if d == "*" and not any(x[0] in self.counters for x in s[1]):
                    d = "%s|%s" % (self.p.loc(rhs), self.f)
                return [mk(d, s[1], s[2], s[3])]
            if v <= set("sc"):
                s = self.setv(st, ck, "c" if "c" in v else "s")
                if ck in self.counters and s[0]:
                    s = mk("*", s[1], s[2], s[3])
                if ck in self.counters:
                    self.incs.add(self.p.loc(rhs))
                return [s]
            if v == set("z"):
                return [self.setv(st, ck, "z")]
            if "any" not in v:
                return [self.setv(st, ck, x) for x in v]
            return [self.setv(st, ck, "any")]
        if op in ("+=", "|="):
            if v <= set("sc"):
                s = self.setv(st, ck, "c")
                if ck in self.counters and s[0]:
                    s = mk("*", s[1], s[2], s[3])
                return [s]
            if self.gv(st, ck) in ("s", "c") or v == set("z"):
                return [st]
            return [self.setv(st, ck, "any")]
        return [self.setv(st, ck, "any")]

    def branch(self, n, t, st, ctx):
        r = self.truth(n, st)
        if r is not None and r != t:
            return []
        k = key(n)
        n = strip(n)
        # a counter found nonzero / zero
        ck = None
        nz = None
        if n.kind == "BinaryOperator" and const_int(n.kids[1]) is not None:
            ck, v = self.ckey(n.kids[0]), const_int(n.kids[1])
            if (n.op in (">", "!=") and v == 0) or (n.op == ">=" and v == 1):
                nz = t
            elif (n.op == "==" and v == 0) or (n.op == "<=" and v == 0):
                nz = not t
        else:
            ck = self.ckey(n)
            nz = t
        if ck is not None and nz is not None and self.gv(st, ck) in (None, "any"):
            d, gen, vals, facts = st
            if nz:
                st = mk(d, set(gen) | set([(ck, "count")]), vals, facts) if ck in self.counters else st
            elif ck in self.counters or ck[0] == "L":
                st = mk(d, gen, set(x for x in vals if x[0] != ck) | set([(ck, "z")]), facts)
        if k in self.rep:
            st = mk(st[0], st[1], st[2], set(st[3]) | set([(k, t)]))
        return [st]

    def case(self, n, v, vals, st, ctx):
        return [st]

    resets = {}
    counting = frozenset()
