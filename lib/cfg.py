"""Control-flow graphs over cast.Node trees, evaluation-order elements, and a disjunctive path-state engine."""
import re
from cast import AnalysisBroken

STRIP = ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "ConstantExpr")


def strip(n):
    while n is not None:
        if n.kind in STRIP:
            n = n.kids[-1] if n.kids else None
        elif n.kind == "UnaryOperator" and n.op == "__extension__":
            n = n.kids[0]
        else:
            return n
    return n


def const_int(n):
    """value of an integer constant expression, or None"""
    n = strip(n)
    if n is None:
        return None
    k = n.kind
    if k == "IntegerLiteral":
        return int(n.val)
    if k == "CharacterLiteral":
        v = int(n.val)
        return v - 256 if 127 < v < 256 else v
    if k == "DeclRefExpr" and n.ref is not None and n.ref.kind == "EnumConstantDecl":
        return ENUMS.get(n.ref.name)
    if k == "UnaryOperator":
        v = const_int(n.kids[0])
        if v is None:
            return None
        return {"-": -v, "+": v, "~": ~v, "!": int(not v)}.get(n.op)
    if k == "BinaryOperator":
        if n.op == "/":
            d = array_count(strip(n.kids[0]), strip(n.kids[1]))
            if d is not None:
                return d
        a, b = const_int(n.kids[0]), const_int(n.kids[1])
        if a is None or b is None:
            return None
        try:
            if n.op in ("/", "%"):
                if b == 0:
                    return None
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if n.op == "/" else a - q * b
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b,
                    "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "==": lambda: int(a == b), "!=": lambda: int(a != b),
                    "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
                    "&&": lambda: int(bool(a) and bool(b)), "||": lambda: int(bool(a) or bool(b))}[n.op]()
        except (KeyError, ValueError):
            return None
    if k == "ConditionalOperator":
        c = const_int(n.kids[0])
        if c is None:
            return None
        return const_int(n.kids[1] if c else n.kids[2])
    if k == "UnaryExprOrTypeTraitExpr":
        return sizeof_expr(n)
    return None


ENUMS = {}
RECSIZE = {}

_PRIM = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "float": 4, "double": 8, "_Bool": 1}


TYPEDEFS = {}


def type_size(t):
    t = re.sub(r"\b(const|volatile|restrict)\b ?", "", t).strip()
    if t.endswith("]"):
        i = t.index("[")
        dims = t[i:]
        sz = type_size(t[:i].strip())
        if sz is None:
            return None
        for d in dims.strip("[]").split("]["):
            if not d.isdigit():
                return None
            sz *= int(d)
        return sz
    if t.endswith("*") or "(*)" in t:
        return 8
    if t.startswith("enum "):
        return 4
    s = _PRIM.get(t)
    if s is None and t in TYPEDEFS and TYPEDEFS[t] != t:
        return type_size(TYPEDEFS[t])
    return s


def sizeof_expr(n):
    if n.name != "sizeof":
        return None
    if n.extra and "argType" in n.extra:
        a = n.extra["argType"]
        return type_size(a.get("desugaredQualType") or a.get("qualType") or "")
    c = n.kids[0] if n.kids else None
    if c is None:
        return None
    while c.kind == "ParenExpr":
        c = c.kids[0]
    return type_size(c.ctype)


def array_count(a, b):
    """sizeof(array) / sizeof(element)"""
    if a is None or b is None or a.kind != "UnaryExprOrTypeTraitExpr" or b.kind != a.kind or a.name != "sizeof" or b.name != "sizeof":
        return None
    ta, tb = sizeof_type(a), sizeof_type(b)
    ea, eb = strip(a.kids[0] if a.kids else None), strip(b.kids[0] if b.kids else None)
    if ea is not None and eb is not None and eb.kind == "ArraySubscriptExpr" and ea.kind == "DeclRefExpr":
        eb = strip(eb.kids[0])
        if eb.kind == "DeclRefExpr" and eb.ref.id == ea.ref.id and ta and ta.endswith("]") and "][" not in ta:
            i = ta.rindex("[")
            if ta[i + 1:-1].isdigit():
                return int(ta[i + 1:-1])
    if ta and tb and ta.endswith("]"):
        i = ta.rindex("[")
        if "][" not in ta and ta[:i].strip() == tb.strip() and ta[i + 1:-1].isdigit():
            return int(ta[i + 1:-1])
    return None


def sizeof_type(n):
    if n.extra and "argType" in n.extra:
        a = n.extra["argType"]
        return a.get("desugaredQualType") or a.get("qualType")
    c = n.kids[0] if n.kids else None
    while c is not None and c.kind == "ParenExpr":
        c = c.kids[0]
    return c.ctype if c is not None else None


def callee(n):
    """the function name a CallExpr resolves to, or None for a call through a pointer"""
    f = strip(n.kids[0])
    if f is not None and f.kind == "UnaryOperator" and f.op in ("*", "&"):
        f = strip(f.kids[0])
    if f is not None and f.kind == "DeclRefExpr" and f.ref is not None and f.ref.kind == "FunctionDecl":
        return f.ref.name
    return None


def args(n):
    return n.kids[1:]


def is_null(n):
    """is the expression a null pointer constant"""
    n = strip(n)
    return n is not None and n.kind in ("IntegerLiteral", "GNUNullExpr") and (n.val in (None, "0"))


ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")


def is_assign(n):
    return n.kind in ("BinaryOperator", "CompoundAssignOperator") and n.op in ASSIGN


def key(n, env=None):
    """canonical text of a side-effect-free lvalue/expression; None when there is none.
    env maps a parameter's decl id to the key of the actual argument (used when a callee is inlined)."""
    n = strip(n)
    if n is None:
        return None
    k = n.kind
    if k == "DeclRefExpr":
        if env is not None and n.ref.id in env:
            return env[n.ref.id]
        if n.ref.kind == "EnumConstantDecl":
            return str(ENUMS.get(n.ref.name, n.ref.name))
        if n.ref.kind == "FunctionDecl":
            return n.ref.name
        if n.ref.id in GLOBAL_IDS:
            return n.ref.name
        return "%s'%s" % (n.ref.name, n.ref.id[-6:])
    if k == "MemberExpr":
        b = strip(n.kids[0])
        arrow = bool(n.extra and n.extra.get("isArrow"))
        if b is None:
            return None
        bk = key(b, env)
        if bk is None:
            return None
        if arrow:
            if bk.startswith("&"):
                return bk[1:] + "." + n.name
            return bk + "->" + n.name
        if bk.startswith("*") and b.kind == "UnaryOperator":
            return bk[1:] + "->" + n.name
        if bk.endswith("[0]"):
            return bk[:-3] + "->" + n.name
        return bk + "." + n.name
    if k == "ArraySubscriptExpr":
        a, b = key(n.kids[0], env), key(n.kids[1], env)
        if a is None or b is None:
            return None
        return "%s[%s]" % (a, b)
    if k == "UnaryOperator":
        if n.op in ("++", "--"):
            return None
        a = key(n.kids[0], env)
        if a is None:
            return None
        if n.op == "*":
            if a.startswith("&"):
                return a[1:]
            return "*" + a
        if n.op == "&":
            if a.startswith("*"):
                return a[1:]
            return "&" + a
        c = const_int(n)
        if c is not None:
            return str(c)
        return "%s(%s)" % (n.op, a)
    c = const_int(n)
    if c is not None:
        return str(c)
    if k == "BinaryOperator" and n.op not in ASSIGN and n.op != ",":
        a, b = key(n.kids[0], env), key(n.kids[1], env)
        if a is None or b is None:
            return None
        return "(%s%s%s)" % (a, n.op, b)
    if k == "StringLiteral":
        return n.val
    return None


def key_of_decl(d):
    return "%s'%s" % (d.name, d.id[-6:])


GLOBAL_IDS = set()


class Block(object):
    __slots__ = ("id", "elems", "term", "loop", "label", "npred")

    def __init__(self, i):
        self.id, self.elems, self.term, self.loop, self.label, self.npred = i, [], None, False, None, 0

    def succs(self):
        t = self.term
        if t is None:
            return []
        if t[0] == "goto":
            return [t[1]]
        if t[0] == "branch":
            return [t[2], t[3]]
        if t[0] == "switch":
            return [b for _, b in t[2]] + ([t[3]] if t[3] else [])
        return []


class CFG(object):
    def __init__(self, fn, noreturn=()):
        self.fn = fn
        self.name = fn.name
        self.noreturn = noreturn
        self.blocks = []
        self.labels = {}
        self.brk, self.cont = [], []
        self.entry = self.new()
        self.exit = self.new()
        self.cur = self.entry
        self.params = [k for k in fn.kids if k is not None and k.kind == "ParmVarDecl"]
        body = [k for k in fn.kids if k is not None and k.kind == "CompoundStmt"][-1]
        self.body = body
        self.stmt(body)
        if self.cur is not None:
            self.cur.term = ("goto", self.exit)
        self.exit.term = None
        self._prune()

    def new(self):
        b = Block(len(self.blocks))
        self.blocks.append(b)
        return b

    def _goto(self, b):
        if self.cur is not None:
            self.cur.term = ("goto", b)
        self.cur = None

    def _start(self, b):
        self.cur = b

    def _ensure(self):
        if self.cur is None:
            self.cur = self.new()  # unreachable
        return self.cur

    def add(self, n):
        self._ensure().elems.append(n)

    # ---- expressions
    def expr(self, n):
        if n is None:
            return
        k = n.kind
        if k in STRIP or (k == "UnaryOperator" and n.op == "__extension__"):
            for c in n.kids:
                self.expr(c)
            return
        if k == "UnaryExprOrTypeTraitExpr":
            return
        if k == "BinaryOperator" and n.op in ("&&", "||"):
            t, f, j = self.new(), self.new(), self.new()
            self.cond(n, t, f)
            self._start(t)
            self._goto(j)
            self._start(f)
            self._goto(j)
            self._start(j)
            self.add(n)
            return
        if k == "ConditionalOperator":
            t, f, j = self.new(), self.new(), self.new()
            self.cond(n.kids[0], t, f)
            self._start(t)
            self.expr(n.kids[1])
            self._goto(j)
            self._start(f)
            self.expr(n.kids[2])
            self._goto(j)
            self._start(j)
            self.add(n)
            return
        if k == "StmtExpr":
            for c in n.kids:
                self.stmt(c)
            return
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ASSIGN:
            self.expr(n.kids[1])
            self.expr(n.kids[0])
            self.add(n)
            return
        if k == "CallExpr":
            for c in n.kids:
                self.expr(c)
            self.add(n)
            nm = callee(n)
            if nm in self.noreturn:
                self._ensure().term = ("noreturn", n)
                self.cur = self.new()
            return
        for c in n.kids:
            self.expr(c)
        if k not in ("IntegerLiteral", "StringLiteral", "CharacterLiteral", "InitListExpr"):
            self.add(n)

    def cond(self, n, t, f):
        n0 = n
        while n0.kind in STRIP or (n0.kind == "UnaryOperator" and n0.op == "__extension__"):
            n0 = n0.kids[-1]
        if n0.kind == "UnaryOperator" and n0.op == "!":
            return self.cond(n0.kids[0], f, t)
        if n0.kind == "BinaryOperator" and n0.op == "&&":
            m = self.new()
            self.cond(n0.kids[0], m, f)
            self._start(m)
            return self.cond(n0.kids[1], t, f)
        if n0.kind == "BinaryOperator" and n0.op == "||":
            m = self.new()
            self.cond(n0.kids[0], t, m)
            self._start(m)
            return self.cond(n0.kids[1], t, f)
        c = const_int(n0)
        if c is not None:
            self._ensure()
            self._goto(t if c else f)
            return
        if n0.kind == "BinaryOperator" and n0.op == ",":
            self.expr(n0.kids[0])
            return self.cond(n0.kids[1], t, f)
        self.expr(n0)
        b = self._ensure()
        b.term = ("branch", n0, t, f)
        self.cur = None

    # ---- statements
    def stmt(self, n):
        if n is None:
            return
        k = n.kind
        if k == "CompoundStmt":
            for c in n.kids:
                self.stmt(c)
        elif k == "DeclStmt":
            for c in n.kids:
                if c is not None and c.kind == "VarDecl":
                    static = c.extra and c.extra.get("storageClass") == "static"
                    if not static:
                        for e in c.kids:
                            self.expr(e)
                        self.add(c)
        elif k == "IfStmt":
            kids = [c for c in n.kids if c is not None]
            t, f = self.new(), self.new()
            j = self.new()
            self.cond(kids[0], t, f)
            self._start(t)
            self.stmt(kids[1])
            self._goto(j)
            self._start(f)
            if len(kids) > 2:
                self.stmt(kids[2])
            self._goto(j)
            self._start(j)
        elif k == "WhileStmt":
            kids = [c for c in n.kids if c is not None]
            h, b, x = self.new(), self.new(), self.new()
            h.loop = n
            self._goto(h)
            self._start(h)
            self.cond(kids[0], b, x)
            self.brk.append(x)
            self.cont.append(h)
            self._start(b)
            self.stmt(kids[1])
            self._goto(h)
            self.brk.pop()
            self.cont.pop()
            self._start(x)
        elif k == "DoStmt":
            kids = n.kids
            b, c, x = self.new(), self.new(), self.new()
            b.loop = n
            self._goto(b)
            self.brk.append(x)
            self.cont.append(c)
            self._start(b)
            self.stmt(kids[0])
            self._goto(c)
            self.brk.pop()
            self.cont.pop()
            self._start(c)
            self.cond(kids[1], b, x)
            self._start(x)
        elif k == "ForStmt":
            init, _, cond, inc, body = (n.kids + [None] * 5)[:5]
            if init is not None:
                self.stmt(init)
            h, b, c, x = self.new(), self.new(), self.new(), self.new()
            h.loop = n
            self._goto(h)
            self._start(h)
            if cond is not None:
                self.cond(cond, b, x)
            else:
                self._goto(b)
            self.brk.append(x)
            self.cont.append(c)
            self._start(b)
            self.stmt(body)
            self._goto(c)
            self.brk.pop()
            self.cont.pop()
            self._start(c)
            if inc is not None:
                self.expr(inc)
            self._goto(h)
            self._start(x)
        elif k == "SwitchStmt":
            kids = [c for c in n.kids if c is not None]
            self.expr(kids[0])
            sw = self._ensure()
            x = self.new()
            cases = []
            dflt = [None]
            self.swstack = getattr(self, "swstack", [])
            self.swstack.append((cases, dflt))
            self.brk.append(x)
            self.cur = None
            self.stmt(kids[1])
            self._goto(x)
            self.brk.pop()
            self.swstack.pop()
            sw.term = ("switch", kids[0], cases, dflt[0] or x, n)
            self._start(x)
        elif k == "CaseStmt":
            b = self.new()
            self._goto(b)
            self._start(b)
            v = const_int(n.kids[0])
            self.swstack[-1][0].append((v, b))
            self.stmt(n.kids[-1])
        elif k == "DefaultStmt":
            b = self.new()
            self._goto(b)
            self._start(b)
            self.swstack[-1][1][0] = b
            self.stmt(n.kids[-1])
        elif k == "BreakStmt":
            self._ensure()
            self._goto(self.brk[-1])
        elif k == "ContinueStmt":
            self._ensure()
            self._goto(self.cont[-1])
        elif k == "ReturnStmt":
            for c in n.kids:
                self.expr(c)
            self.add(n)
            self._ensure()
            self._goto(self.exit)
        elif k == "LabelStmt":
            b = self._label(n.extra.get("declId") if n.extra else n.name, n.name)
            self._goto(b)
            self._start(b)
            for c in n.kids:
                self.stmt(c)
        elif k == "GotoStmt":
            self._ensure()
            self._goto(self._label(n.extra.get("targetLabelDeclId"), None))
        elif k in ("NullStmt",):
            pass
        elif k in ("AttributedStmt",):
            for c in n.kids:
                self.stmt(c)
        else:
            self.expr(n)

    def _label(self, i, nm):
        if i not in self.labels:
            self.labels[i] = self.new()
        if nm:
            self.labels[i].label = nm
        return self.labels[i]

    def _prune(self):
        seen, st = set(), [self.entry]
        while st:
            b = st.pop()
            if b.id in seen:
                continue
            seen.add(b.id)
            for s in b.succs():
                s.npred += 1
                st.append(s)
        self.reach = seen
        self.blocks = [b for b in self.blocks if b.id in seen]
        # loop heads by DFS back edges (goto loops included)
        self.heads = set()
        color = {}
        stack = [(self.entry, iter(self.entry.succs()))]
        color[self.entry.id] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                c = color.get(s.id, 0)
                if c == 1:
                    self.heads.add(s.id)
                elif c == 0:
                    color[s.id] = 1
                    stack.append((s, iter(s.succs())))
                    break
            else:
                color[b.id] = 2
                stack.pop()
        self.returns = self.exit.id in seen

    def loops(self):
        """natural loops: {head id: set of block ids}"""
        if not hasattr(self, "_loops"):
            preds = {}
            for b in self.blocks:
                for s in b.succs():
                    preds.setdefault(s.id, []).append(b)
            dom = self.dominators()
            res = {}
            for b in self.blocks:
                for s in b.succs():
                    if s.id in dom.get(b.id, ()):
                        body = res.setdefault(s.id, set([s.id]))
                        st = [b]
                        while st:
                            x = st.pop()
                            if x.id in body:
                                continue
                            body.add(x.id)
                            st.extend(preds.get(x.id, []))
            self._loops = res
        return self._loops

    def dominators(self):
        if not hasattr(self, "_dom"):
            ids = [b.id for b in self.blocks]
            allb = set(ids)
            preds = dict((i, []) for i in ids)
            for b in self.blocks:
                for s in b.succs():
                    preds[s.id].append(b.id)
            dom = dict((i, set(allb)) for i in ids)
            dom[self.entry.id] = set([self.entry.id])
            changed = True
            while changed:
                changed = False
                for b in self.blocks:
                    if b is self.entry:
                        continue
                    ps = [dom[p] for p in preds[b.id]]
                    new = set.intersection(*ps) if ps else set()
                    new = new | set([b.id])
                    if new != dom[b.id]:
                        dom[b.id] = new
                        changed = True
            self._dom = dom
        return self._dom

    def live_in(self):
        """{block id: set of local decl ids whose current value may be read at the start of the block}"""
        if not hasattr(self, "_live"):
            use, defs = {}, {}
            for b in self.blocks:
                u, d = set(), set()
                es = list(b.elems)
                seq = []
                for e in es:
                    seq.append(e)
                if b.term and b.term[0] in ("branch", "switch"):
                    seq.append(b.term[1])
                for e in seq:
                    if e.kind == "VarDecl":
                        d.add(e.id)
                        continue
                    if e.kind == "BinaryOperator" and e.op == "=":
                        l = strip(e.kids[0])
                        if l.kind == "DeclRefExpr":
                            for x in e.kids[1].walk():
                                if x.kind == "DeclRefExpr" and x.ref.id not in d:
                                    u.add(x.ref.id)
                            if l.ref.id not in u:
                                d.add(l.ref.id)
                            continue
                    if e.kind == "DeclRefExpr":
                        p = e.parent
                        while p is not None and p.kind in STRIP:
                            p = p.parent
                        if p is not None and p.kind == "BinaryOperator" and p.op == "=" and strip(p.kids[0]) is e:
                            continue
                        if e.ref.id not in d:
                            u.add(e.ref.id)
                use[b.id], defs[b.id] = u, d
            live = dict((b.id, set(use[b.id])) for b in self.blocks)
            ch = True
            rev = list(reversed(self.blocks))
            while ch:
                ch = False
                for b in rev:
                    n = set(use[b.id])
                    for s in b.succs():
                        n |= live[s.id] - defs[b.id]
                    if n != live[b.id]:
                        live[b.id] = n
                        ch = True
            self._live = live
        return self._live

    def block(self, i):
        if not hasattr(self, "_bm"):
            self._bm = dict((b.id, b) for b in self.blocks)
        return self._bm[i]


class Engine(object):
    """Disjunctive forward analysis.  `an` supplies
         elem(node, state, ctx)          -> iterable of states
         branch(cond, truth, state, ctx) -> iterable of states (empty: infeasible)
         case(switchcond, value|None, others, state, ctx) -> iterable of states
    Returns the set of states at the function exit.  Every reached (block, state) keeps its predecessor, so a
    report can print the path."""

    def __init__(self, an, limit=60000):
        self.an, self.limit = an, limit
        self.steps = 0

    def run(self, g, states, ctx=None):
        an = self.an
        seen = {}
        work = []
        for s in states:
            k = (g.entry.id, s)
            if k not in seen:
                seen[k] = None
                work.append((g.entry, s))
        exits = []
        byid = None
        while work:
            b, s0 = work.pop()
            self.steps += 1
            if len(seen) > self.limit:
                raise AnalysisBroken("state explosion in %s" % g.name)
            cur = [s0]
            here = (b.id, s0)
            if hasattr(an, "at_block"):
                an.at_block(g, b, s0, seen, here)
            an.trace = (g, seen, here)
            for e in b.elems:
                nxt = []
                for s in cur:
                    for r in an.elem(e, s, ctx):
                        if r not in nxt:
                            nxt.append(r)
                cur = nxt
                if not cur:
                    break
            if b is g.exit:
                exits.extend(x for x in cur if x not in exits)
                continue
            t = b.term
            if t is None or t[0] == "noreturn" or not cur:
                continue
            for s in cur:
                outs = []
                if t[0] == "goto":
                    outs = [(t[1], s)]
                elif t[0] == "branch":
                    for r in an.branch(t[1], True, s, ctx):
                        outs.append((t[2], r))
                    for r in an.branch(t[1], False, s, ctx):
                        outs.append((t[3], r))
                elif t[0] == "switch":
                    vals = [v for v, _ in t[2]]
                    for v, blk in t[2]:
                        for r in an.case(t[1], v, vals, s, ctx):
                            outs.append((blk, r))
                    for r in an.case(t[1], None, vals, s, ctx):
                        outs.append((t[3], r))
                for nb, r in outs:
                    if hasattr(an, "edge"):
                        r = an.edge(g, b, nb, r, ctx)
                    k = (nb.id, r)
                    if k not in seen:
                        seen[k] = here
                        work.append((nb, r))
        return exits


def path_lines(trace):
    """line numbers of the path that led to the current point, oldest first"""
    g, seen, here = trace
    blocks = dict((b.id, b) for b in g.blocks)
    out = []
    k = here
    n = 0
    while k is not None and n < 400:
        b = blocks[k[0]]
        ln = None
        if b.elems:
            ln = b.elems[0].line
        elif b.term and b.term[0] == "branch":
            ln = b.term[1].line
        if ln and (not out or out[-1] != ln):
            out.append(ln)
        k = seen.get(k)
        n += 1
    out.reverse()
    return out
