"""Integer intervals of locals, parameters, record fields, globals and results, inferred over a whole program.

Per function: forward dataflow with joins, widening at loop heads (delayed) and a narrowing pass.  Fields, globals,
parameters and results are flow-insensitive invariants, iterated to a fixpoint from the values stored."""
import re

import cfg
from cfg import strip, const_int, key, callee, args, is_assign, type_size
from cast import AnalysisBroken

INF = float("inf")
TOP = (-INF, INF)
STRLEN = ("strlen", "lemonStrlen")


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]))


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi) if lo <= hi else None


_RANGE = {"char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255), "short": (-32768, 32767),
          "unsigned short": (0, 65535), "int": (-2 ** 31, 2 ** 31 - 1), "unsigned int": (0, 2 ** 32 - 1), "long": TOP, "long long": TOP,
          "unsigned long": (0, INF), "unsigned long long": (0, INF), "_Bool": (0, 1)}


def norm(t):
    return (t or "").replace("const ", "").replace("volatile ", "").strip()


def type_range(t):
    t = norm(t)
    if t.startswith("enum "):
        return (-2 ** 31, 2 ** 32 - 1)
    return _RANGE.get(t)


def mul(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


class Intervals(object):
    def __init__(self, prog, effects):
        self.p, self.eff = prog, effects
        self.F = {}      # (record, field) | ('G', name) -> interval
        self.P = {}      # (function, index) -> interval
        self.R = {}      # function -> interval
        self.addr = prog.addr_taken()
        self.taken = {}  # function -> local decl ids whose address is taken
        self.ftaken = set()
        self.rounds = {}
        self.dirty = set()
        self._prep()

    def _prep(self):
        for f, d in self.p.functions.items():
            t = set()
            for n in d.walk():
                if n.kind == "UnaryOperator" and n.op == "&":
                    x = strip(n.kids[0])
                    if x.kind == "DeclRefExpr":
                        t.add(x.ref.id)
                        if x.ref.id in cfg.GLOBAL_IDS:
                            self.ftaken.add(("G", x.ref.name))
                    elif x.kind == "MemberExpr" and type_range(x.ctype):
                        self.ftaken.add(self.p.owner(x))
            self.taken[f] = t
        for g, d in self.p.globals.items():
            for n in d.walk():
                if n.kind == "UnaryOperator" and n.op == "&":
                    x = strip(n.kids[0])
                    if x.kind == "DeclRefExpr":
                        self.ftaken.add(("G", x.ref.name))
        # everything starts zero (memset, calloc, static storage) or holds what is stored to it
        for g, d in self.p.globals.items():
            ini = [k for k in d.kids if k is not None]
            v = const_int(ini[-1]) if ini else 0
            self.F[("G", g)] = (v, v) if v is not None else TOP
        self.live = set()

    # ---- lookup
    def okey(self, n):
        """trackable variable: (key, owner|None)"""
        n = strip(n)
        if n is None:
            return None, None
        if n.kind == "DeclRefExpr" and n.ref.kind in ("VarDecl", "ParmVarDecl"):
            if n.ref.id in cfg.GLOBAL_IDS:
                return n.ref.name, ("G", n.ref.name)
            if n.ref.id in self.taken.get(self.f, ()):
                return None, None
            return key(n), None
        if n.kind == "MemberExpr":
            k = key(n)
            o = self.p.owner(n)
            if k is None or "[" in k or k.startswith("*"):
                return None, o
            return k, o
        return None, None

    def load(self, n, env):
        k, o = self.okey(n)
        tr = type_range(n.ctype) or TOP
        if k is not None and k in env:
            return env[k]
        if o is not None:
            return self.fdef(o, tr)
        return tr

    def fdef(self, o, tr):
        if o in self.ftaken:
            return tr
        v = self.F.get(o, (0, 0))
        return meet(v, tr) or tr

    def ev(self, n, env):
        if n is None:
            return TOP
        k = n.kind
        if k in ("ParenExpr", "ConstantExpr"):
            return self.ev(n.kids[-1], env)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            v = self.ev(n.kids[-1], env)
            tr = type_range(n.ctype)
            if tr is None:
                return TOP if "*" in (n.ctype or "") else v
            if v[0] >= tr[0] and v[1] <= tr[1]:
                return v
            if k == "ImplicitCastExpr" and type_size(norm(n.ctype)) in (4, 8) and tr[0] < 0:
                return meet(v, tr) or tr       # int arithmetic is assumed not to overflow
            if norm(n.ctype) in ("int", "unsigned int", "long", "unsigned long") and tr[0] <= v[0]:
                return meet(v, tr) or tr
            return tr
        c = const_int(n)
        if c is not None:
            return (c, c)
        tr = type_range(n.ctype)
        if k in ("DeclRefExpr", "MemberExpr"):
            return self.load(n, env)
        if k == "ArraySubscriptExpr":
            return tr or TOP
        if k == "UnaryOperator":
            if n.op in ("++", "--"):
                v = self.ev(n.kids[0], env)    # elements run before: the variable already has its new value
                d = 1 if n.op == "++" else -1
                if n.extra and n.extra.get("isPostfix"):
                    return (v[0] - d, v[1] - d)
                return v
            if n.op == "!":
                return (0, 1)
            if n.op == "-":
                v = self.ev(n.kids[0], env)
                return (-v[1], -v[0])
            if n.op == "+" or n.op == "__extension__":
                return self.ev(n.kids[0], env)
            return tr or TOP
        if k == "ConditionalOperator":
            return join(self.ev(n.kids[1], env), self.ev(n.kids[2], env))
        if is_assign(n):
            if n.op == "=":
                v = self.ev(n.kids[1], env)
                return v if tr is None else (meet(v, tr) or tr)
            return self.load(n.kids[0], env) if self.okey(n.kids[0])[0] in env else (tr or TOP)
        if k == "BinaryOperator":
            if n.op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                return (0, 1)
            if n.op == ",":
                return self.ev(n.kids[1], env)
            if "*" in (n.ctype or "") or "*" in (n.kids[0].ctype or ""):
                return TOP
            a, b = self.ev(n.kids[0], env), self.ev(n.kids[1], env)
            r = self.binop(n.op, a, b)
            if tr and tr[0] == 0 and r[0] < 0:
                return tr
            return (meet(r, tr) or tr) if tr else r
        if k == "CallExpr":
            nm = callee(n)
            if nm in STRLEN:
                kk = key(args(n)[0])
                if kk and ("len(%s)" % kk) in env:
                    return env["len(%s)" % kk]
                lb = self.strbound(args(n)[0], env)
                return (0, lb)
            if nm in ("getc", "fgetc", "getchar"):
                return (-1, 255)
            if nm in self.p.functions and nm not in self.STR:
                v = self.R.get(nm)
                if v is None:
                    return tr or TOP
                return (meet(v, tr) or tr) if tr else v
            if nm in ("isalpha", "isdigit", "isupper", "islower", "isspace"):
                return (-INF, INF)
            return tr or TOP
        return tr or TOP

    STR = STRLEN

    @staticmethod
    def binop(op, a, b):
        if op == "+":
            return (a[0] + b[0], a[1] + b[1])
        if op == "-":
            return (a[0] - b[1], a[1] - b[0])
        if op == "*":
            c = [mul(x, y) for x in a for y in b]
            return (min(c), max(c))
        if op == "/":
            if b[0] == b[1] and b[0] > 0:
                q = b[0]
                f = lambda x: x if x in (INF, -INF) else int(abs(x) // q) * (1 if x >= 0 else -1)
                return (f(a[0]), f(a[1]))
            return (-max(abs(a[0]), abs(a[1])), max(abs(a[0]), abs(a[1])))
        if op == "%":
            if b[0] > 0 and b[1] < INF:
                m = b[1] - 1
                if a[0] >= 0:
                    return (0, min(a[1], m))
                return (-m, m)
            return (0, a[1]) if a[0] >= 0 else (-INF, INF)
        if op == "&":
            if b[0] >= 0:
                return (0, min(b[1], a[1] if a[0] >= 0 else b[1]))
            if a[0] >= 0:
                return (0, a[1])
            return TOP
        if op in ("|", "^"):
            if a[0] >= 0 and b[0] >= 0 and a[1] < INF and b[1] < INF:
                return (0, 2 ** max(int(a[1]).bit_length(), int(b[1]).bit_length()) - 1)
            return (0, INF) if a[0] >= 0 and b[0] >= 0 else TOP
        if op == "<<":
            if a[0] >= 0 and b[0] >= 0 and b[1] < 64 and a[1] < INF:
                return (0, int(a[1]) << int(b[1]))
            return (0, INF) if a[0] >= 0 else TOP
        if op == ">>":
            if a[0] >= 0:
                return (0, a[1] if b[0] != b[1] or a[1] == INF else int(a[1]) >> int(b[0]))
            return TOP
        return TOP

    # ---- lengths of strings
    def strbound(self, e, env, depth=0):
        """largest strlen the expression's string can have"""
        e = strip(e)
        if e is None or depth > 4:
            return INF
        if self.strings is not None:
            a = self.strings.all(e)
            if a is not None:
                return max(len(x) for x in a)
        k = key(e)
        if k and ("len(%s)" % k) in env:
            return env["len(%s)" % k][1]
        m = re.match(r"^(?:const )?(?:unsigned |signed )?char\s*\[(\d+)\]$", e.ctype or "")
        if m:
            return int(m.group(1)) - 1
        if e.kind == "ConditionalOperator":
            return max(self.strbound(e.kids[1], env, depth + 1), self.strbound(e.kids[2], env, depth + 1))
        return INF

    strings = None
    fmtlen = None

    # ---- transfer
    def put(self, env, n, v):
        k, o = self.okey(n)
        s = strip(n)
        if o is not None:
            self.store(o, v)
        tr = type_range(s.ctype)
        if tr is None:
            # a pointer or record changed: forget what is reached through it
            if k is not None:
                self.kill_prefix(env, k)
            return
        v = meet(v, tr) or tr
        if o is not None and o[0] != "G":
            for x in [x for x in env if self.kf.get(x) == o and x != k]:
                env[x] = join(env[x], v)
        if k is not None:
            for x in [x for x in env if x.startswith("len(") or x.startswith("nz(")]:
                if self._mentions(x, k):
                    del env[x]
            env[k] = v
            self.kf[k] = o
            self.kt[k] = tr

    def _mentions(self, x, k):
        import nullness
        return nullness.mentions(x, k)

    def kill_prefix(self, env, k):
        for x in [x for x in env if x != k and self._mentions(x, k)]:
            del env[x]

    def store(self, o, v):
        if o in self.ftaken:
            return
        old = self.F.get(o, (0, 0))
        new = join(old, v)
        if new != old:
            n = self.rounds[o] = self.rounds.get(o, 0) + 1
            if n > 5:
                new = (old[0] if new[0] >= old[0] else self.thr(new[0], -1), old[1] if new[1] <= old[1] else self.thr(new[1], 1))
            self.F[o] = new
            self.dirty.add(o)

    def thr(self, v, d):
        n = 0
        if d > 0:
            for t in self.thresholds:
                if t >= v:
                    return t
            return INF
        for t in reversed(self.thresholds):
            if t <= v:
                return t
        return -INF

    def elem(self, n, env):
        k = n.kind
        if k == "VarDecl":
            ini = [x for x in n.kids if x is not None]
            tr = type_range(n.ctype)
            kk = cfg.key_of_decl(n)
            self.kill_prefix(env, kk)
            env.pop(kk, None)
            if n.id in self.taken.get(self.f, ()):
                return
            if ini and tr:
                v = self.ev(ini[-1], env)
                env[kk] = meet(v, tr) or tr
                self.kf[kk], self.kt[kk] = None, tr
            return
        if is_assign(n):
            l = n.kids[0]
            if n.op == "=":
                v = self.ev(n.kids[1], env)
                r = strip(n.kids[1])
                ln = None
                if r.kind == "CallExpr" and callee(r) in ("malloc", "calloc", "realloc"):
                    pass
                self.put(env, l, v)
            else:
                a = self.ev(l, env)
                b = self.ev(n.kids[1], env)
                if "*" in (strip(l).ctype or ""):
                    self.put(env, l, TOP)
                else:
                    self.put(env, l, self.binop(n.op[:-1], a, b))
            return
        if k == "UnaryOperator" and n.op in ("++", "--"):
            a = self.ev(n.kids[0], env)
            d = 1 if n.op == "++" else -1
            self.put(env, n.kids[0], (a[0] + d, a[1] + d))
            return
        if k == "ReturnStmt":
            if n.kids and n.kids[0] is not None and type_range(n.kids[0].ctype):
                v = self.ev(n.kids[0], env)
                old = self.R.get(self.f)
                new = join(old, v)
                if new != old:
                    c = self.rounds[("R", self.f)] = self.rounds.get(("R", self.f), 0) + 1
                    if c > 5:
                        new = (old[0] if new[0] >= old[0] else -INF, old[1] if new[1] <= old[1] else INF)
                    self.R[self.f] = new
                    self.dirty.add(("R", self.f))
            return
        if k == "CallExpr":
            nm = callee(n)
            a = args(n)
            if nm in self.p.functions:
                for i, x in enumerate(a):
                    if type_range(x.ctype):
                        v = self.ev(x, env)
                        old = self.P.get((nm, i))
                        new = join(old, v)
                        if new != old:
                            c = self.rounds[("P", nm, i)] = self.rounds.get(("P", nm, i), 0) + 1
                            if c > 5:
                                new = (old[0] if new[0] >= old[0] else -INF, old[1] if new[1] <= old[1] else INF)
                            self.P[(nm, i)] = new
                            self.dirty.add(("P", nm))
                if nm not in self.live:
                    self.live.add(nm)
                w = self.eff.writes(nm)
                fl = set(r[1] for r in w if r[0] in ("F", "G"))
                for x in list(env):
                    c = x.split(".")[-1].split("->")[-1]
                    if (("->" in x or "." in x) and c in fl) or (x in fl) or x.startswith("len(") or x.startswith("nz("):
                        del env[x]
            elif nm in ("memset", "memcpy", "memmove", "fread", "sscanf", "strcpy", "strcat", "sprintf", "snprintf", "strncpy", "fgets") or nm is None:
                d0 = strip(a[0]) if a else None
                while d0 is not None and d0.kind == "UnaryOperator" and d0.op in ("&", "*") or d0 is not None and d0.kind == "ArraySubscriptExpr":
                    d0 = strip(d0.kids[0])
                dk = key(d0) if d0 is not None else None
                for x in list(env):
                    if x.startswith("len(") or x.startswith("nz("):
                        del env[x]
                    elif dk is None or (nm in ("memset", "memcpy", "memmove", "fread") and self._mentions(x, dk)):
                        if "->" in x or "." in x:
                            del env[x]
                if nm in ("snprintf", "sprintf") and self.fmtlen is not None:
                    kk = key(a[0])
                    i = 2 if nm == "snprintf" else 1
                    lo, hi = self.fmtlen(self, a[i], a[i + 1:], env)
                    if nm == "snprintf":
                        sz = self.ev(a[1], env)
                        lo, hi = min(lo, max(sz[0] - 1, 0)), min(hi, sz[1] - 1)
                    if kk:
                        env["len(%s)" % kk] = (lo, hi)
                if nm is None:
                    for x in list(env):
                        if self.kf.get(x):
                            del env[x]
            elif nm in ("qsort", "atexit", "signal", "bsearch"):
                for b in a:
                    b = strip(b)
                    if b.kind == "UnaryOperator" and b.op == "&":
                        b = strip(b.kids[0])
                    if b.kind == "DeclRefExpr" and b.ref.kind == "FunctionDecl" and b.ref.name not in self.live:
                        self.live.add(b.ref.name)

    # ---- refinement
    def refine(self, env, n, op, v):
        """assume  n op v  (v an interval); returns False when impossible"""
        n = strip(n)
        if op == "<":
            r = (-INF, v[1] - 1)
        elif op == "<=":
            r = (-INF, v[1])
        elif op == ">":
            r = (v[0] + 1, INF)
        elif op == ">=":
            r = (v[0], INF)
        elif op == "==":
            r = v
        else:
            if v[0] != v[1]:
                return True
            cur = self.ev(n, env)
            if cur[0] == v[0] and cur[1] == v[0]:
                return False
            if cur[0] == v[0]:
                r = (v[0] + 1, INF)
            elif cur[1] == v[0]:
                r = (-INF, v[0] - 1)
            else:
                return True
        cur = self.ev(n, env)
        m = meet(cur, r)
        if m is None:
            return False
        if n.kind == "BinaryOperator" and n.op in ("+", "-") and "*" not in (n.ctype or ""):
            a, b = n.kids
            ia, ib = self.ev(a, env), self.ev(b, env)
            if n.op == "+":
                return self.refine2(env, a, (m[0] - ib[1], m[1] - ib[0])) and self.refine2(env, b, (m[0] - ia[1], m[1] - ia[0]))
            return self.refine2(env, a, (m[0] + ib[0], m[1] + ib[1])) and self.refine2(env, b, (ia[0] - m[1], ia[1] - m[0]))
        return self.refine2(env, n, m)

    def refine2(self, env, n, r):
        n = strip(n)
        d = 0
        if n.kind == "UnaryOperator" and n.op in ("++", "--"):
            if n.extra and n.extra.get("isPostfix"):
                d = 1 if n.op == "++" else -1
            n = strip(n.kids[0])
        elif is_assign(n):
            n = strip(n.kids[0])
        if n.kind == "CallExpr" and callee(n) in STRLEN:
            kk = key(args(n)[0])
            if kk:
                env["len(%s)" % kk] = meet(env.get("len(%s)" % kk, (0, INF)), r) or (0, INF)
            return True
        k, o = self.okey(n)
        tr = type_range(n.ctype)
        if k is None or tr is None:
            return True
        cur = self.load(n, env)
        m = meet(cur, (r[0] + d, r[1] + d))
        if m is None:
            return False
        env[k] = m
        self.kf[k], self.kt[k] = o, tr
        return True

    NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
    SWP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}

    def branch(self, n, t, env):
        n = strip(n)
        env = dict(env)
        m = n
        if n.kind == "BinaryOperator" and n.op in ("==", "!=") and const_int(n.kids[1]) is not None:
            m = strip(n.kids[0]) if (t == (n.op == "==")) == (const_int(n.kids[1]) != 0) else None
            if m is not None and t != (n.op == "==") and const_int(n.kids[1]) != 0:
                m = None
        elif not t:
            m = None
        if m is not None and m.kind == "ArraySubscriptExpr" and key(m):
            env["nz(%s)" % key(m)] = (1, 1)
        if n.kind == "BinaryOperator" and n.op in self.NEG:
            a, b = n.kids
            if "*" in (a.ctype or "") or "*" in (b.ctype or ""):
                return env
            op = n.op if t else self.NEG[n.op]
            ia, ib = self.ev(a, env), self.ev(b, env)
            if not self.refine(env, a, op, ib):
                return None
            if not self.refine(env, b, self.SWP[op], ia):
                return None
            return env
        if "*" in (n.ctype or "") or type_range(n.ctype) is None:
            return env
        if not self.refine(env, n, "!=" if t else "==", (0, 0)):
            return None
        return env

    # ---- guarded invariants: while (record, field) holds a value, another field of the same record lies in an interval
    guard = {}

    def assume_guard(self, env, e, v):
        e = strip(e)
        if e.kind != "MemberExpr":
            return True
        for o, iv in self.guard.get((self.p.owner(e), v), ()):
            b = key(e.kids[0])
            if b is None:
                continue
            k = "%s%s%s" % (b, "->" if e.extra and e.extra.get("isArrow") else ".", o[1])
            cur = env.get(k, self.fdef(o, (-2 ** 31, 2 ** 31 - 1)))
            m = meet(cur, iv)
            if m is None:
                return False
            env[k] = m
            self.kf[k], self.kt[k] = o, (-2 ** 31, 2 ** 31 - 1)
        return True

    # ---- one function
    def trips(self, f, g):
        """loops that divide their guard by a constant run at most T times: {head id: (T, counters, body)}"""
        out = {}
        loops = g.loops()
        for h in g.blocks:
            lp = h.loop
            if not lp or h.id not in loops:
                continue
            div = [n for n in lp.walk() if is_assign(n) and n.op in ("/=", ">>=") and (const_int(n.kids[1]) or 0) >= (2 if n.op == "/=" else 1)]
            guards = set(key(strip(n.kids[0])) for n in div)
            div = [n for n in div if any(m.kind == "BinaryOperator" and m.op in (">", "!=") and const_int(m.kids[1]) == 0
                                         and key(m.kids[0]) == key(strip(n.kids[0])) for m in lp.walk())]
            if not div or any(x.kind in ("WhileStmt", "DoStmt", "ForStmt") and x is not lp for x in lp.walk()):
                continue
            n = div[0]
            q = const_int(n.kids[1]) if n.op == "/=" else 2
            t, m = 0, 2 ** ((type_size(norm(strip(n.kids[0]).ctype)) or 8) * 8)
            while m > 0:
                m //= q
                t += 1
            ks = {}
            for x in lp.walk():
                if (is_assign(x) or (x.kind == "UnaryOperator" and x.op in ("++", "--"))) and strip(x.kids[0]).kind == "DeclRefExpr":
                    ks.setdefault(key(x.kids[0]), []).append(x)
            cs = set(k for k, v in ks.items() if len(v) == 1 and v[0].op == "++")
            if cs:
                out[h.id] = (t, cs, loops[h.id])
        return out

    def default(self, k):
        o = self.kf.get(k)
        tr = self.kt.get(k, TOP)
        if o is not None:
            return self.fdef(o, tr)
        if k.startswith("len("):
            return (0, INF)
        if k.startswith("nz("):
            return (0, 1)
        return tr

    def joinenv(self, a, b):
        out = {}
        for k in set(a) | set(b):
            x = a[k] if k in a else self.default(k)
            y = b[k] if k in b else self.default(k)
            out[k] = join(x, y)
        return out

    def function(self, f, visit=None):
        g = self.p.cfg(f)
        self.f = f
        env0 = {}
        self.kf, self.kt = {}, {}
        if not hasattr(g, "_trips"):
            g._trips = self.trips(f, g)
        ent = {}
        i = 0
        for d in g.params:
            tr = type_range(d.ctype)
            if tr and d.id not in self.taken[f]:
                k = cfg.key_of_decl(d)
                self.kf[k], self.kt[k] = None, tr
                if f in self.addr or f == "main":
                    env0[k] = tr
                else:
                    v = self.P.get((f, i))
                    env0[k] = (meet(v, tr) or tr) if v else tr
            i += 1
        if not hasattr(g, "_rpo"):
            order, seen = [], set()
            st = [(g.entry, iter(g.entry.succs()))]
            seen.add(g.entry.id)
            while st:
                b, it = st[-1]
                for s in it:
                    if s.id not in seen:
                        seen.add(s.id)
                        st.append((s, iter(s.succs())))
                        break
                else:
                    order.append(b)
                    st.pop()
            g._rpo = list(reversed(order))
            g._rpoi = dict((b.id, j) for j, b in enumerate(g._rpo))
            cs = set([0, -1])
            for n in g.fn.walk():
                if n.kind in ("IntegerLiteral", "CharacterLiteral", "UnaryExprOrTypeTraitExpr", "DeclRefExpr"):
                    v = const_int(n)
                    if v is not None:
                        cs |= set([v, v - 1, v + 1])
            g._thr = sorted(cs)
        self.thresholds = g._thr
        ins = {g.entry.id: env0}
        visits = {}
        import heapq
        work = [0]
        inw = set([0])

        def flow(b, env, emit0):
            def emit(nb, env):
                tr = g._trips.get(nb.id)
                if tr:
                    for k in tr[1]:
                        if k in env:
                            if b.id not in tr[2]:
                                ent[(nb.id, k)] = max(ent.get((nb.id, k), -INF), env[k][1])
                            elif (nb.id, k) in ent and env[k][1] > ent[(nb.id, k)] + tr[0]:
                                hi = ent[(nb.id, k)] + tr[0]
                                env[k] = (min(env[k][0], hi), hi)
                emit0(nb, env)
            t = b.term
            env = dict(env)
            for e in b.elems:
                if visit:
                    visit(self, f, e, env)
                self.elem(e, env)
            if t is None or t[0] == "noreturn":
                return
            if t[0] == "goto":
                emit(t[1], env)
            elif t[0] == "branch":
                for tr, nb in ((True, t[2]), (False, t[3])):
                    r = self.branch(t[1], tr, env)
                    if r is not None:
                        emit(nb, r)
            elif t[0] == "switch":
                iv = self.ev(t[1], env)
                for v, nb in t[2]:
                    if v is None or iv[0] <= v <= iv[1]:
                        e2 = dict(env)
                        if v is None or self.refine(e2, t[1], "==", (v, v)):
                            if self.assume_guard(e2, t[1], v):
                                emit(nb, e2)
                emit(t[3], env)
        while work:
            j = heapq.heappop(work)
            inw.discard(j)
            b = g._rpo[j]
            visits[b.id] = visits.get(b.id, 0) + 1
            if visits[b.id] > 400:
                raise AnalysisBroken("intervals do not settle in %s" % f)

            def emit(nb, env):
                old = ins.get(nb.id)
                if old is None:
                    new = env
                else:
                    new = self.joinenv(old, env)
                    if nb.id in g.heads and visits.get(nb.id, 0) > 14:
                        for k in new:
                            o = old.get(k, self.default(k))
                            lo, hi = new[k]
                            if lo < o[0]:
                                lo = self.thr(lo, -1) if visits[nb.id] < 40 else -INF
                            if hi > o[1]:
                                hi = self.thr(hi, 1) if visits[nb.id] < 40 else INF
                            new[k] = meet((lo, hi), self.default(k)) or (lo, hi)
                    if new == old:
                        return
                ins[nb.id] = new
                q = g._rpoi[nb.id]
                if q not in inw:
                    inw.add(q)
                    heapq.heappush(work, q)
            v = visit
            visit = None
            flow(b, ins[b.id], emit)
            visit = v
        # narrowing: descending passes in reverse postorder, latest edge values first
        v = visit
        visit = None
        eo = {}
        for b in g._rpo:
            if b.id in ins:
                cnt = [0]

                def emit1(nb, env, b=b, cnt=cnt):
                    eo[(b.id, cnt[0], nb.id)] = env
                    cnt[0] += 1
                flow(b, ins[b.id], emit1)
        for rnd in range(4):
            inc = {}
            for e in eo:
                inc.setdefault(e[2], []).append(e)
            done = set()
            for b in g._rpo:
                es = [e for e in inc.get(b.id, []) if e in eo]
                new = env0 if b is g.entry else None
                for e in es:
                    new = eo[e] if new is None else self.joinenv(new, eo[e])
                for e in [e for e in eo if e[0] == b.id]:
                    del eo[e]
                if new is None:
                    ins.pop(b.id, None)
                    continue
                ins[b.id] = new
                cnt = [0]

                def emit3(nb, env, b=b, cnt=cnt):
                    e = (b.id, cnt[0], nb.id)
                    eo[e] = env
                    if e not in inc.setdefault(nb.id, []):
                        inc[nb.id].append(e)
                    cnt[0] += 1
                flow(b, new, emit3)
        visit = v
        if visit:
            for b in g._rpo:
                if b.id in ins:
                    flow(b, ins[b.id], lambda nb, env: None)
        return ins

    def run(self, roots=("main",)):
        self.live = set(roots) | set(a for a in self.addr if a in self.p.functions)
        users = {}
        for f, d in self.p.functions.items():
            for n in d.walk():
                o = None
                if n.kind == "MemberExpr":
                    o = self.p.owner(n)
                elif n.kind == "DeclRefExpr" and n.ref is not None and n.ref.id in cfg.GLOBAL_IDS:
                    o = ("G", n.ref.name)
                elif n.kind == "CallExpr" and callee(n) in self.p.functions:
                    o = ("R", callee(n))
                if o:
                    users.setdefault(o, set()).add(f)
        todo = set(self.live)
        order = list(self.p.functions)
        for rnd in range(200):
            if not todo:
                self.nrounds = rnd + 1
                return self
            now, todo = todo, set()
            for f in order:
                if f not in now or f not in self.live:
                    continue
                self.dirty, live0 = set(), set(self.live)
                self.function(f)
                todo |= self.live - live0
                for o in self.dirty:
                    if o[0] == "P":
                        todo.add(o[1])
                    else:
                        todo |= users.get(o, set())
        raise AnalysisBroken("program intervals do not settle")

    def visit_all(self, fn):
        for f in self.p.functions:
            if f in self.live:
                self.function(f, fn)
