"""a block given back is never used again, and never given back twice"""
import re

import cfg
import prog
from cast import AnalysisBroken
from cfg import Engine, args, callee, const_int, is_assign, is_null, key, path_lines, strip

USE, TWICE = "no use after free", "freed once"
FREE = {"free": 0}
REALLOC = {"realloc": 0}
TAG = re.compile(r"'[0-9a-f]{6}")
HARMLESS = {"free", "realloc"}


def isptr(t):
    t = (t or "").strip()
    if "FILE" in t:
        return False
    return t.endswith("*") or t.endswith("* const") or "*" in t and "(" not in t


def deep(k):
    """paths are followed over two pointers"""
    return k.count("->") + k.count("[") + k.count("*") <= 2


def under(k, x):
    """k is the path x or lies below it"""
    if k == x:
        return True
    if k.startswith(x) and k[len(x):len(x) + 1] in ("-", ".", "["):
        return True
    return ("[%s]" % x) in k or k.startswith("*" + x)


class Blocks(object):
    """state: {("fr", k) the block k points to has been given back, ("in", a, b) both point into the same block,
    ("re", q, p) q is the result of resizing what p points to, ("tv", k, b) the local k is (not) zero}"""

    def __init__(self, p):
        self.p = p
        self.viol = {}
        self.done = {USE: set(), TWICE: set()}
        self.memo = {}
        self.stack = []
        self.fns = set()
        cg = p.callgraph()
        self.frees = set(f for f in p.functions if any(c in FREE or c in REALLOC for c, n in p.calls(f)))
        ch = True
        while ch:
            ch = False
            for f in p.functions:
                if f not in self.frees and any(g in self.frees for g in cg[f]):
                    self.frees.add(f)
                    ch = True
        import effects
        self.eff = effects.Effects(p)
        self.flags = {}

    # ---- names
    def base(self, n):
        """the pointer an address expression starts from"""
        n = strip(n)
        while n is not None:
            if n.kind in ("CStyleCastExpr", "ParenExpr", "ImplicitCastExpr"):
                n = strip(n.kids[-1])
            elif n.kind == "BinaryOperator" and n.op in ("+", "-") and isptr(n.ctype):
                n = strip(n.kids[0] if isptr(strip(n.kids[0]).ctype) or "[" in (strip(n.kids[0]).ctype or "") else n.kids[1])
            elif n.kind == "UnaryOperator" and n.op in ("++", "--"):
                n = strip(n.kids[0])
            elif n.kind == "UnaryOperator" and n.op == "&":
                m = strip(n.kids[0])
                if m.kind == "ArraySubscriptExpr" and isptr(strip(m.kids[0]).ctype):
                    n = strip(m.kids[0])
                elif m.kind == "MemberExpr" and (m.extra or {}).get("isArrow"):
                    n = strip(m.kids[0])
                else:
                    return None
            elif is_assign(n):
                n = strip(n.kids[0])
            else:
                break
        if n is None or not isptr(n.ctype):
            return None
        return key(n)

    def same(self, st, k):
        return set(f[2] if f[1] == k else f[1] for f in st if f[0] == "in" and k in f[1:])

    def kill(self, st, k):
        if k.startswith("*"):
            # the whole object
            o = k[1:] + "->"
            st = frozenset(f for f in st if not any(isinstance(x, str) and x.startswith(o) for x in f[1:]))
        return frozenset(f for f in st if not any(isinstance(x, str) and under(x, k) for x in f[1:]))

    def gone(self, st, k):
        return ("fr", k) in st

    # ---- obligations
    def use(self, n, st, k, how):
        if k is None:
            return
        self.done[USE].add((self.p.loc(n), k))
        if self.gone(st, k):
            self.bad(USE, n, k, how)

    def bad(self, rule, n, k, how):
        nm = TAG.sub("", k)
        i = (rule, self.f, nm, self.p.loc(n))
        if i not in self.viol:
            self.viol[i] = (n, "%s %s after its block has been given back" % (nm, how), path_lines(self.trace), list(self.stack))

    def release(self, n, st, k):
        if k is None:
            return st
        self.done[TWICE].add((self.p.loc(n), k))
        if self.gone(st, k):
            self.bad(TWICE, n, k, "is freed again")
        return st | frozenset([("fr", k)]) | frozenset(("fr", x) for x in self.same(st, k))

    # ---- engine
    def elem(self, n, st, c):
        k = n.kind
        if k == "MemberExpr" and (n.extra or {}).get("isArrow"):
            if not self.address(n):
                self.use(n, st, self.base(n.kids[0]), "is read through")
            return [st]
        if k == "UnaryOperator" and n.op == "*" or k == "ArraySubscriptExpr":
            if not self.address(n):
                self.use(n, st, self.base(n if k == "x" else n.kids[0]), "is read through")
            return [st]
        if k == "UnaryOperator" and n.op in ("++", "--"):
            x = key(n.kids[0])
            if x is None:
                return [st]
            if isptr(strip(n.kids[0]).ctype):
                return [st]
            return [self.kill(st, x)]
        if k == "CompoundAssignOperator":
            x = key(n.kids[0])
            if x is None or isptr(strip(n.kids[0]).ctype):
                return [st]
            return [self.kill(st, x)]
        if k == "VarDecl":
            init = [x for x in n.kids if x is not None and x.kind.endswith(("Expr", "Operator", "Literal"))]
            x = "%s'%s" % (n.name, n.id[-6:])
            if init and (n.extra or {}).get("init"):
                return [self.assign(n, x, n.ctype, init[-1], st)]
            return [self.kill(st, x)]
        if k == "BinaryOperator" and n.op == "=":
            x = key(n.kids[0])
            if x is None:
                return [st]
            return [self.assign(n, x, strip(n.kids[0]).ctype, n.kids[1], st)]
        if k == "CallExpr":
            return self.call(n, st)
        if k == "ReturnStmt" and n.kids and n.kids[0] is not None:
            if isptr(strip(n.kids[0]).ctype):
                self.use(n, st, self.base(n.kids[0]), "is returned")
            return [st]
        return [st]

    def address(self, n):
        q = n.parent
        while q is not None and (q.kind in cfg.STRIP or q.kind in ("ArraySubscriptExpr", "MemberExpr") and not (q.extra or {}).get("isArrow") and "[" in (n.ctype or "")):
            q = q.parent
        return q is not None and q.kind == "UnaryOperator" and q.op == "&" or q is not None and q.kind == "UnaryExprOrTypeTraitExpr"

    def assign(self, n, x, ctype, rhs, st):
        s = strip(rhs)
        while s.kind in ("CStyleCastExpr", "ParenExpr", "ImplicitCastExpr"):
            s = strip(s.kids[-1])
        if not isptr(ctype):
            st = self.kill(st, x)
            v = const_int(rhs)
            if v is not None and x in self.tested(self.f):
                st = st | {("tv", x, bool(v))}
            return st
        if is_null(rhs):
            st = self.kill(st, x)
            return st | {("tv", x, False)} if x in self.tested(self.f) else st
        if s.kind == "CallExpr" and callee(s) in REALLOC:
            p = self.base(args(s)[0])
            st = self.kill(st, x)
            return st | {("re", x, p)} if p is not None and p != x else st
        b = self.base(s)
        if b == x:
            return st
        add = set()
        if b is not None and not under(b, x):
            if self.gone(st, b):
                add.add(("fr", x))
            for y in self.same(st, b) | {b}:
                if not under(y, x):
                    add.add(("in",) + tuple(sorted((x, y))))
            # what is known of the parts
            for f in st:
                if f[0] == "fr" and f[1] != b and under(f[1], b):
                    add.add(("fr", x + f[1][len(b):]))
        elif b is not None:
            # p = p->next
            ys = [y for y in self.same(st, b) if not under(y, x)]
            for y in ys:
                add.add(("in",) + tuple(sorted((x, y))))
            if self.gone(st, b):
                add.add(("fr", x))
        return self.kill(st, x) | frozenset(f for f in add if all(deep(y) for y in f[1:]))

    # ---- calls
    def params(self, f):
        return [x for x in self.p.functions[f].kids if x is not None and x.kind == "ParmVarDecl"]

    def call(self, n, st):
        nm = callee(n)
        a = args(n)
        if nm in FREE and nm not in self.p.functions:
            return [self.release(n, st, self.base(a[0]))]
        if nm in REALLOC and nm not in self.p.functions:
            b = self.base(a[0])
            if b is not None:
                self.use(n, st, b, "is resized")
                return [st | frozenset([("fr", b)]) | frozenset(("fr", x) for x in self.same(st, b))]
            return [st]
        for x in a:
            s = strip(x)
            if isptr(s.ctype) and not is_null(x):
                self.use(n, st, self.base(x), "is passed to %s" % nm)
        if nm not in self.p.functions:
            for x in a:
                s = strip(x)
                if s.kind == "UnaryOperator" and s.op == "&":
                    k = key(s.kids[0])
                    if k:
                        st = self.kill(st, k)
            return [st]
        return self.inside(n, nm, a, st)

    def inside(self, n, nm, a, st):
        glob = lambda k: not TAG.search(k)
        ps = self.params(nm)
        maps = []           # (caller path, callee path)
        for x, q in zip(a, ps):
            s = strip(x)
            pk = "%s'%s" % (q.name, q.id[-6:])
            if s.kind == "UnaryOperator" and s.op == "&":
                k = key(s.kids[0])
                if k:
                    maps.append((k, pk, "&"))
            elif isptr(s.ctype):
                k = self.base(x)
                if k:
                    maps.append((k, pk, "*"))

        def into(k):
            out = []
            for ck, pk, how in maps:
                if how == "*" and k != ck and under(k, ck):
                    out.append(pk + k[len(ck):])
                elif how == "&" and under(k, ck):
                    r = k[len(ck):]
                    out.append("*" + pk if not r else pk + ("->" + r[1:] if r[0] == "." else r))
                elif how == "*" and k == ck:
                    out.append(pk)
            return out
        entry = set()
        for f in st:
            if f[0] == "fr":
                if glob(f[1]):
                    entry.add(f)
                entry |= set(("fr", k) for k in into(f[1]) if deep(k))
            elif f[0] == "in" and glob(f[1]) and glob(f[2]):
                entry.add(f)
        freed = any(f[0] == "fr" for f in entry)
        if not freed and nm not in self.frees:
            return [self.clobber(st, nm, a)]
        outs = self.outcomes(nm, frozenset(entry))
        res = []
        w = self.eff.writes(nm)
        for exitst, rv in outs:
            cur = st
            # globals and parts of arguments: as the callee leaves them
            names = set(r[1] for r in w if r[0] in ("F", "E"))
            gl = set(r[1] for r in w if r[0] in ("G", "EG"))
            keep = set()
            for f in cur:
                if f[0] == "fr" and f[1].startswith("@"):
                    keep.add(f)
                    continue
                if f[0] == "fr" and (glob(f[1]) or any(under(f[1], ck) for ck, pk, how in maps)):
                    # decided by the callee
                    if glob(f[1]) or into(f[1]):
                        if f[1] in [ck for ck, pk, how in maps if how == "*"]:
                            keep.add(f)
                        continue
                if any(isinstance(x, str) and (any(under(x, g) for g in gl) or any(t in names for t in re.split(r"->|\.", x)[1:])) for x in f[1:]):
                    if f[0] == "in" and f in exitst:
                        keep.add(f)
                    continue
                keep.add(f)
            new = set()
            for f in exitst:
                if f[0] == "fr":
                    k = f[1]
                    if k.startswith("@"):
                        k = k[1:]
                        for ck, pk, how in maps:
                            if how == "*" and pk == k:
                                new.add(("fr", ck))
                                new |= set(("fr", y) for y in self.same(st, ck))
                            elif under(k, pk):
                                # what shared the block of a field at the call
                                y0 = ck + k[len(pk):] if how == "*" else ck + "." + k[len(pk) + 2:]
                                new |= set(("fr", y) for y in self.same(st, y0) if y.startswith("@") or
                                           not any(t in names for t in re.split(r"->|\.", y)[1:]))
                        if glob(k):
                            new |= set(("fr", y) for y in self.same(st, k) if not (glob(y) and any(under(y, g) for g in gl)))
                        continue
                    if glob(k):
                        new.add(f)
                        continue
                    for ck, pk, how in maps:
                        if how == "&" and k == "*" + pk:
                            new.add(("fr", ck))
                        elif under(k, pk) and k != pk:
                            r = k[len(pk):]
                            if how == "&" and r.startswith("->"):
                                new.add(("fr", ck + "." + r[2:]))
                            elif how == "*":
                                new.add(("fr", ck + r))
                elif f[0] == "in" and glob(f[1]) and glob(f[2]) and not f[1].startswith("@") and not f[2].startswith("@"):
                    new.add(f)
            r = self.restored(frozenset(keep) | frozenset(x for x in new if deep(x[1])), names)
            if rv is not None:
                r = r | {("rv", str(id(n)), rv)}
            if r not in res:
                res.append(r)
        return res

    def mentions(self, f):
        """names of globals and fields a function and those it calls touch"""
        if not hasattr(self, "_ment"):
            m, cg = {}, self.p.callgraph()
            for g, fn in self.p.functions.items():
                m[g] = set(x.name for x in fn.walk() if x.kind == "MemberExpr") | \
                    set(x.ref.name for x in fn.walk() if x.kind == "DeclRefExpr" and x.ref is not None and x.ref.id in cfg.GLOBAL_IDS)
            ch = True
            while ch:
                ch = False
                for g in m:
                    n = len(m[g])
                    for h in cg[g]:
                        m[g] |= m.get(h, set())
                    ch = ch or len(m[g]) != n
            self._ment = m
        return self._ment[f]

    def outcomes(self, f, entry):
        """each freed block is followed through the callee by itself"""
        if f in self.p.noreturn and f in self.stack:
            return [(frozenset(), None)]
        m = self.mentions(f)
        common = frozenset(x for x in entry if x[0] != "fr")
        base = self.summary(f, frozenset(x for x in common if re.split(r"->|\.|\[", x[1])[-1] in m or re.split(r"->|\.|\[", x[2])[-1] in m))
        pars = set("%s'%s" % (q.name, q.id[-6:]) for q in self.params(f))
        outs = [(set(o), rv) for o, rv in base]
        for x in entry:
            if x[0] != "fr":
                continue
            last = re.split(r"->|\.", x[1])[-1].split("[")[0]
            if last not in m and x[1] not in pars and x[1].lstrip("*") not in pars:
                for o, rv in outs:
                    o.add(x)
                continue
            got = self.summary(f, frozenset([x]))
            for o, rv in outs:
                if any(x in o2 and (rv is None or rv2 is None or rv == rv2) for o2, rv2 in got):
                    o.add(x)
        res = []
        for o, rv in outs:
            if (frozenset(o), rv) not in res:
                res.append((frozenset(o), rv))
        return res

    def clobber(self, st, nm, a):
        w = self.eff.writes(nm)
        names = set(r[1] for r in w if r[0] in ("F", "E"))
        gl = set(r[1] for r in w if r[0] in ("G", "EG"))
        if names or gl:
            st = frozenset(f for f in st if f[0] == "fr" and f[1].startswith("@") or not any(isinstance(x, str) and (any(under(x, g) for g in gl) or any(t in names for t in re.split(r"->|\.", x)[1:])) for x in f[1:]))
        for x in a:
            s = strip(x)
            if s.kind == "UnaryOperator" and s.op == "&":
                k = key(s.kids[0])
                if k:
                    st = self.kill(st, k)
        return self.restored(st, names)

    # ---- functions
    def summary(self, f, entry):
        if f in self.stack:
            return [(frozenset(x for x in entry if x[0] == "fr"), None)]
        if (f, entry) in self.memo:
            return self.memo[(f, entry)]
        st = set(entry)
        for q in self.params(f):
            if isptr(q.ctype):
                pk = "%s'%s" % (q.name, q.id[-6:])
                st.add(("in",) + tuple(sorted((pk, "@" + pk))))
        for g in self.owned():
            st.add(("in",) + tuple(sorted((g, "@" + g))))
            for y in self.same(entry, g):
                if not y.startswith("@"):
                    st.add(("in",) + tuple(sorted((y, "@" + g))))
        st |= self.invariants(f)
        sv = (getattr(self, "f", None), getattr(self, "trace", None))
        self.f = f
        self.stack.append(f)
        self.fns.add(f)
        try:
            exits = Engine(self, 20000).run(self.p.cfg(f), [frozenset(st)], f)
        except AnalysisBroken:
            # too many combinations: without the correlation of tests
            self.flags[f] = set()
            exits = Engine(self, 60000).run(self.p.cfg(f), [frozenset(st)], f)
        self.stack.pop()
        self.f, self.trace = sv
        outs = []
        for s in exits:
            rv = [x[2] for x in s if x[0] == "rv" and x[1] == "return"]
            facts = frozenset(x for x in s if x[0] == "fr" and (not TAG.search(x[1]) or self.outer(x[1], f)) or
                              x[0] == "in" and not TAG.search(x[1] + x[2]) and "@" not in x[1] + x[2])
            o = (facts, rv[0] if rv else None)
            if o not in outs:
                outs.append(o)
        if len(outs) > 12:
            u = frozenset(y for o in outs for y in o[0])
            outs = [(u, None)]
        self.memo[(f, entry)] = outs
        return outs

    def outer(self, k, f):
        """a path that begins at a parameter, other than the parameter itself"""
        if k.startswith("@"):
            return True
        for q in self.params(f):
            pk = "%s'%s" % (q.name, q.id[-6:])
            if k != pk and under(k, pk):
                return TAG.findall(k) == TAG.findall(pk)
        return False

    def owned(self):
        """global pointers whose blocks are given back or resized somewhere"""
        if not hasattr(self, "_own"):
            s = set()
            for f in self.p.functions:
                for c, n in self.p.calls(f):
                    if c in FREE or c in REALLOC:
                        b = self.base(args(n)[0])
                        if b and not TAG.search(b) and b in self.p.globals:
                            s.add(b)
            self._own = s
        return self._own

    def fields(self):
        """(fields whose blocks are given back or resized, {field always set from such a field: that field})"""
        if hasattr(self, "_fields"):
            return self._fields
        own = set()
        for f in self.p.functions:
            for c, n in self.p.calls(f):
                if c in FREE or c in REALLOC:
                    b = self.base(args(n)[0])
                    m = re.match(r"[A-Za-z_0-9]+(?:'[0-9a-f]{6})?->([A-Za-z_0-9]+)$", b or "")
                    if m:
                        own.add(m.group(1))
        sets = {}           # field or local -> what it is set from
        for f, fn in self.p.functions.items():
            for n in fn.walk():
                if n.kind == "BinaryOperator" and n.op == "=":
                    x, t, r = key(n.kids[0]), strip(n.kids[0]).ctype, n.kids[1]
                elif n.kind == "VarDecl" and (n.extra or {}).get("init"):
                    x, t, r = "%s'%s" % (n.name, n.id[-6:]), n.ctype, n.kids[-1]
                else:
                    continue
                if x is None or not isptr(t) or r is None:
                    continue
                m = re.match(r"[^\[\]>.*]+->([A-Za-z_0-9]+)$", x)
                x = "->" + m.group(1) if m else x
                if is_null(r):
                    continue
                q = strip(r)
                while q.kind in ("CStyleCastExpr", "ParenExpr", "ImplicitCastExpr"):
                    q = strip(q.kids[-1])
                srcs = [self.base(r)]
                if q.kind == "CallExpr" and callee(q) in self.p.functions:
                    srcs = [self.base(y) for y in args(q) if isptr(strip(y).ctype) and "char" in strip(y).ctype] or [None]
                for b in srcs:
                    m = re.match(r"[^\[\]>.*]+->([A-Za-z_0-9]+)$", b or "")
                    b = "->" + m.group(1) if m else b
                    if b != x:
                        sets.setdefault(x, set()).add(b)
        into = {}
        for F in own:
            grp = set(x for x in sets) - set("->" + g for g in own)
            ch = True
            while ch:
                ch = False
                for x in list(grp):
                    if any(b != "->" + F and b not in grp for b in sets[x]):
                        grp.discard(x)
                        ch = True
            # what really comes from F
            live = set()
            ch = True
            while ch:
                ch = False
                for x in grp - live:
                    if sets[x] & (live | {"->" + F}):
                        live.add(x)
                        ch = True
            for x in live:
                if x.startswith("->"):
                    into[x[2:]] = F
        # fields other fields point into: the others are only followed where they are freed
        own = set(into.values())
        into = dict((G, F) for G, F in into.items() if F in own)
        self._fields = (own, into)
        return self._fields

    def near(self, f):
        """as mentions, without what only happens when the program ends"""
        if not hasattr(self, "_near"):
            m, cg = {}, self.p.callgraph()
            for g, fn in self.p.functions.items():
                m[g] = set(x.name for x in fn.walk() if x.kind == "MemberExpr")
            ch = True
            while ch:
                ch = False
                for g in m:
                    n = len(m[g])
                    for h in cg[g]:
                        if h not in self.p.noreturn:
                            m[g] |= m.get(h, set())
                    ch = ch or len(m[g]) != n
            self._near = m
        return self._near[f]

    def restored(self, st, names):
        """a callee leaves pointers into a field's block as the program keeps them everywhere"""
        own, into = self.fields()
        if any(G in names or F in names for G, F in into.items()):
            return st | frozenset(x for x in self.invariants(self.f) if "@" not in x[1] + x[2])
        return st

    def invariants(self, f):
        own, into = self.fields()
        m = self.near(f)
        out = set()
        if any(g in self.p.noreturn for g in self.stack if g != "main"):
            return out
        for q in self.params(f):
            if not isptr(q.ctype) or q.ctype.count("*") != 1:
                continue
            pk = "%s'%s" % (q.name, q.id[-6:])
            for F in own & m:
                if self.hasfield(q.ctype, F):
                    out.add(("in",) + tuple(sorted((pk + "->" + F, "@" + pk + "->" + F))))
            for G, F in into.items():
                if G in m and self.hasfield(q.ctype, G):
                    out.add(("in",) + tuple(sorted((pk + "->" + G, pk + "->" + F))))
                    out.add(("in",) + tuple(sorted((pk + "->" + G, "@" + pk + "->" + F))))
        return out

    def hasfield(self, t, F):
        if not hasattr(self, "_rec"):
            self._rec = {}
            for (rec, name) in self.p.field_owner.values():
                self._rec.setdefault(name, set()).add(rec)
        t = t.replace("struct ", "").replace("const ", "").replace("*", "").strip()
        return any(r is not None and (r == t or r == t + "_s" or t in self.alias(r)) for r in self._rec.get(F, ()))

    def alias(self, r):
        return (r, r.lstrip("_"), r.replace("_t", ""), r + "_t")

    # ---- conditions
    def tested(self, f):
        if f not in self.flags:
            s = {}
            for n in self.p.functions[f].walk():
                if n.kind in ("IfStmt", "WhileStmt", "ConditionalOperator"):
                    for x in n.kids[0].walk() if n.kids and n.kids[0] is not None else ():
                        if x.kind == "DeclRefExpr" and x.ref is not None and x.ref.kind in ("VarDecl", "ParmVarDecl") and x.ref.id not in cfg.GLOBAL_IDS:
                            s.setdefault(key(x), set()).add(id(n))
            self.flags[f] = set(k for k, v in s.items() if len(v) > 1)
        return self.flags[f]

    def branch(self, cond, truth, st, c):
        n = strip(cond)
        if n.kind == "UnaryOperator" and n.op == "!":
            return self.branch(n.kids[0], not truth, st, c)
        if n.kind == "BinaryOperator" and n.op in ("==", "!="):
            for x, y in ((n.kids[0], n.kids[1]), (n.kids[1], n.kids[0])):
                if is_null(y) or const_int(y) == 0:
                    return self.branch(x, truth == (n.op == "!="), st, c)
            return [st]
        if is_assign(n) and n.op == "=":
            n = strip(n.kids[0])
        if n.kind == "CallExpr":
            i = str(id(n))
            for f in st:
                if f[0] == "rv" and f[1] == i and f[2] != truth:
                    return []
            return [st]
        k = key(n) if n.kind in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "UnaryOperator") else None
        if k is None:
            return [st]
        if ("tv", k, not truth) in st:
            return []
        if not truth:
            for f in st:
                if f[0] == "re" and f[1] == k:
                    back = {f[2]} | self.same(st, f[2])
                    st = frozenset(x for x in st if not (x[0] == "fr" and x[1] in back))
            if isptr(n.ctype):
                st = frozenset(x for x in st if not (x[0] == "fr" and x[1] == k))
        if k in self.tested(self.f):
            st = st | {("tv", k, truth)}
        return [st]

    def case(self, cond, v, vals, st, c):
        return [st]

    def edge(self, g, b, nb, st, c):
        live = g.live_in()[nb.id]
        if not hasattr(g, "_loc23"):
            g._loc23 = dict(("'" + x.id[-6:], x.id) for x in g.fn.walk() if x.kind == "VarDecl" and x.id not in cfg.GLOBAL_IDS)
        loc = g._loc23
        rv = None
        if nb is g.exit:
            for e in reversed(b.elems):
                if e.kind == "ReturnStmt":
                    x = e.kids[0] if e.kids else None
                    if x is not None:
                        v = const_int(x)
                        k = key(x)
                        if v is not None:
                            rv = bool(v)
                        elif is_null(x):
                            rv = False
                        elif k:
                            t = [f[2] for f in st if f[0] == "tv" and f[1] == k]
                            rv = t[0] if t else None
                    break

        def ok(f):
            if f[0] == "rv":
                return False
            for x in f[1:]:
                if isinstance(x, str):
                    for t in TAG.findall(x):
                        if t in loc and loc[t] not in live:
                            return False
            return True
        st = frozenset(f for f in st if ok(f))
        if rv is not None:
            st = st | {("rv", "return", rv)}
        return st


def run(R):
    R.rule(USE, "a pointer whose block has been freed or resized is not read through, passed on or returned until it is set again")
    R.rule(TWICE, "a block is freed once")
    n = 0
    for p in (prog.lemon(), prog.byacc(True), prog.byacc(False)):
        B = Blocks(p)
        B.summary("main", frozenset())
        for f in sorted(p.functions):
            if f not in B.fns:
                B.summary(f, frozenset())
        for (rule, f, nm, loc), (x, what, lines, stack) in sorted(B.viol.items(), key=lambda v: str(v[0])):
            R.bad(rule, "%s|%s|%s" % (p.name if p.name == "lemon" else "byacc", f, nm), loc, f, what,
                  ["called through: " + " > ".join(stack), "lines on the path: " + " ".join(str(y) for y in lines[-25:])])
        for r in (USE, TWICE):
            R.ok(r, len(B.done[r]), p.name)
        n += len(B.fns)
    R.count("functions", n, 200)
