"""no scanner of lemon steps over the end, or reads before the start, of the text it scans"""
import re

import cfg
import prog
from cfg import Engine, args, callee, const_int, is_assign, is_null, key, path_lines, strip
from cast import AnalysisBroken
from strs import unquote

STEP, READ, BACK = "steps stay before the end", "looks ahead stay within the text", "looks back stay within the text"
CLASS = {"isspace", "isalpha", "isalnum", "isdigit", "isprint", "isupper", "islower", "ispunct", "isxdigit", "isgraph"}
LO, HI = -3, 12


def texttype(t):
    t = (t or "").replace("const ", "").replace("unsigned ", "").replace("signed ", "").strip()
    return t in ("char *", "char *const") or re.match(r"char\s*\[\d*\]$", t) is not None


class Scan(object):
    """state: a set of facts over positions (base, index, offset): ("nz", pos) the text goes on there, ("z", pos) it ends there,
    ("al", v, pos) the variable holds that character, ("vnz", v)/("vz", v) it is (not) zero, ("adv", (base, index), n) at least n
    characters lie before the position"""

    def __init__(self, p):
        self.p = p
        self.viol = {}
        self.done = {STEP: set(), READ: set(), BACK: set()}
        self.fns = set()

    # ---- positions
    def pos(self, n):
        """position a pointer expression leads to"""
        n = strip(n)
        if n is None:
            return None
        if is_assign(n) and n.op in ("=", "+=", "-="):
            return self.pos(n.kids[0])
        if n.kind == "UnaryOperator" and n.op in ("++", "--"):
            q = self.pos(n.kids[0])
            if q is None:
                return None
            if n.extra and n.extra.get("isPostfix"):
                return (q[0], q[1], q[2] + (-1 if n.op == "++" else 1))
            return q
        if n.kind == "UnaryOperator" and n.op == "&":
            return self.char(n.kids[0])
        if n.kind == "BinaryOperator" and n.op in ("+", "-"):
            for x, y in ((n.kids[0], n.kids[1]), (n.kids[1], n.kids[0])):
                if not texttype(strip(x).ctype):
                    continue
                q = self.pos(x)
                i = self.index(y)
                if q is None or i is None or (n.op == "-" and (i[0] or y is n.kids[0])) or (q[1] and i[0]):
                    return None
                return (q[0], q[1] or i[0], q[2] + (i[1] if n.op == "+" else -i[1]))
            return None
        if not texttype(n.ctype):
            return None
        if n.kind in ("DeclRefExpr", "MemberExpr"):
            k = key(n)
            return (k, "", 0) if k else None
        return None

    def index(self, n):
        """(variable or "", constant) of an index"""
        v = const_int(n)
        if v is not None:
            return ("", v)
        n = strip(n)
        if n.kind == "BinaryOperator" and n.op in ("+", "-"):
            a, b = self.index(n.kids[0]), self.index(n.kids[1])
            if a is None or b is None or (a[0] and b[0]) or (n.op == "-" and b[0]):
                return None
            return (a[0] or b[0], a[1] + (b[1] if n.op == "+" else -b[1]))
        if n.kind == "UnaryOperator" and n.op in ("++", "--"):
            k = key(n.kids[0])
            if k is None:
                return None
            d = 0
            if n.extra and n.extra.get("isPostfix"):
                d = -1 if n.op == "++" else 1
            return (k, d)
        if n.kind in ("DeclRefExpr", "MemberExpr"):
            k = key(n)
            return (k, 0) if k else None
        return None

    def char(self, n):
        """position of the character an lvalue names"""
        n = strip(n)
        if n.kind == "UnaryOperator" and n.op == "*":
            return self.pos(n.kids[0])
        if n.kind == "ArraySubscriptExpr":
            a, b = n.kids
            if not texttype(strip(a).ctype):
                a, b = b, a
            q, i = self.pos(a), self.index(b)
            if q is None or i is None or (q[1] and i[0]):
                return None
            return (q[0], q[1] or i[0], q[2] + i[1])
        return None

    # ---- facts
    def learn(self, st, pos, nz):
        """the state once the character at pos is known to be (non)zero; None when that contradicts it"""
        a, b = ("nz", pos), ("z", pos)
        if (b if nz else a) in st:
            return None
        for f in st:
            if f[0] == "al" and f[2] == pos and (("vz" if nz else "vnz"), f[1]) in st:
                return None
        return st | {a if nz else b}

    def learnvar(self, st, v, nz):
        if (("vz" if nz else "vnz"), v) in st:
            return None
        for f in st:
            if f[0] == "al" and f[1] == v:
                return self.learn(st, f[2], nz)
        return st | {("vnz" if nz else "vz", v)}

    def mentions(self, f, k):
        for x in f[1:]:
            if isinstance(x, tuple):
                if k in x[:2]:
                    return True
            elif x == k:
                return True
        return False

    def under(self, f, k):
        for x in f[1:]:
            for y in (x[:2] if isinstance(x, tuple) else (x,)):
                if isinstance(y, str) and (y == k or y.startswith(k + "->") or y.startswith(k + ".") or y == "*" + k):
                    return True
        return False

    def kill(self, st, k):
        return frozenset(f for f in st if not self.under(f, k))

    def shift(self, st, k, n):
        """the pointer or index k has moved by n"""
        out = set()
        for f in st:
            g = f
            if f[0] == "pend" and n < 0 and k in f[1]:
                continue
            if f[0] in ("nz", "z", "hid") and k in f[1][:2]:
                g = (f[0], (f[1][0], f[1][1], f[1][2] - n))
            elif f[0] == "al" and k in f[2][:2]:
                g = ("al", f[1], (f[2][0], f[2][1], f[2][2] - n))
            elif f[0] == "adv" and k in f[1]:
                m = min(3, f[2] + n)
                if m <= 0:
                    continue
                g = ("adv", f[1], m)
            if g[0] in ("nz", "z", "al", "hid") and not LO <= g[-1][2] <= HI:
                continue
            out.add(g)
        return frozenset(out)

    def advanced(self, st, b, i):
        return max([f[2] for f in st if f[0] == "adv" and f[1] == (b, i)] or [0])

    # ---- obligations
    def site(self, rule, n, c):
        self.done[rule].add(self.p.loc(n) + (" %d" % n.col if hasattr(n, "col") else ""))

    def bad(self, rule, n, c, what):
        k = (rule, self.p.loc(n))
        if k not in self.viol:
            self.viol[k] = (c, what, path_lines(self.trace))

    def goes_on(self, st, pos, upto):
        return all(("nz", (pos[0], pos[1], o)) in st for o in range(pos[2], upto))

    def inscope(self, n, c, b, i):
        """an index scans only in loops that look at the text through it"""
        q = n.parent
        while q is not None:
            if id(q) in self.scope[c].get((b, i), ()):
                return True
            q = q.parent
        return False

    def judged(self, c, b, i):
        return (b, i) in self.cursors[c] or (i == "" and (b, "") in self.cursors[c])

    def step(self, n, st, c, b, i, k, by):
        """the position (b, i) moves on by `by` characters"""
        if by <= 0 or not self.judged(c, b, i) or (i and not self.inscope(n, c, b, i)):
            return st
        self.site(STEP, n, c)
        st = self.pending(n, st, c, b, i)
        if by == 1 and not self.goes_on(st, (b, i, 0), by) and self.readby(n):
            return st | {("pend", (b, i))}
        if not self.goes_on(st, (b, i, 0), by):
            self.bad(STEP, n, c, "%s moves on by %d where the text may have ended" % (self.name(b, i), by))
            return st | frozenset(("nz", (b, i, o)) for o in range(0, by))
        return st

    def pending(self, n, st, c, b, i):
        """*p++ may read the end itself if nothing follows"""
        if ("pend", (b, i)) not in st:
            return st
        if ("nz", (b, i, -1)) not in st:
            self.bad(STEP, n, c, "%s has moved on over a character that may have ended the text" % self.name(b, i))
        return st - {("pend", (b, i))}

    def readby(self, n):
        """the step is part of *p++"""
        if not (n.kind == "UnaryOperator" and n.op == "++" and (n.extra or {}).get("isPostfix")):
            return False
        q = n.parent
        while q is not None and q.kind in cfg.STRIP:
            q = q.parent
        return q is not None and (q.kind == "ArraySubscriptExpr" or (q.kind == "UnaryOperator" and q.op == "*"))

    def name(self, b, i):
        t = re.sub(r"'[0-9a-f]{6}", "", b)
        return "%s[%s]" % (t, re.sub(r"'[0-9a-f]{6}", "", i)) if i else t

    def written(self, n):
        """the character passed is the one just stored: *p++ = x, z[i++] = x"""
        q = n.parent
        x = n
        while q is not None and (q.kind in cfg.STRIP or (q.kind == "UnaryOperator" and q.op == "*") or (q.kind == "ArraySubscriptExpr")):
            x, q = q, q.parent
        return q is not None and is_assign(q) and q.kids[0] is x

    # ---- engine
    def elem(self, n, st, c):
        k = n.kind
        if k == "UnaryOperator" and n.op in ("++", "--"):
            lk = key(n.kids[0])
            if lk is None:
                return [st]
            by = 1 if n.op == "++" else -1
            return [self.move(n, st, c, lk, by, self.written(n))]
        if k == "CompoundAssignOperator":
            lk = key(n.kids[0])
            if lk is None:
                return [st]
            v = const_int(n.kids[1])
            if n.op in ("+=", "-=") and v is not None:
                return [self.move(n, st, c, lk, v if n.op == "+=" else -v, False)]
            if n.op in ("+=", "-="):
                return [self.leap(n, st, c, lk)]
            return [self.kill(st, lk)]
        if k in ("UnaryOperator", "ArraySubscriptExpr") and (k != "UnaryOperator" or n.op == "*"):
            q = self.char(n)
            up = n.parent
            while up is not None and up.kind in cfg.STRIP:
                up = up.parent
            if up is not None and up.kind == "UnaryOperator" and up.op == "&":
                return [st]
            if q is not None and self.judged(c, q[0], q[1]):
                if q[2] >= 0:
                    st = self.pending(n, st, c, q[0], q[1])
                if q[2] > 0:
                    self.site(READ, n, c)
                    if not self.goes_on(st, (q[0], q[1], 0), q[2]):
                        self.bad(READ, n, c, "%s is looked at %d ahead where the text may have ended before" % (self.name(q[0], q[1]), q[2]))
                        st = st | frozenset(("nz", (q[0], q[1], o)) for o in range(0, q[2]))
                elif q[2] < 0 and not (strip(n.kids[0]).kind == "UnaryOperator" and strip(n.kids[0]).op == "++") and not self.postinc(n):
                    self.site(BACK, n, c)
                    if self.advanced(st, q[0], q[1]) < -q[2]:
                        self.bad(BACK, n, c, "%s is looked at %d before, which may lie in front of the text" % (self.name(q[0], q[1]), -q[2]))
            return [st]
        if k == "VarDecl":
            init = [x for x in n.kids if x is not None and x.kind.endswith(("Expr", "Operator", "Literal"))]
            lk = "%s'%s" % (n.name, n.id[-6:])
            if init and (n.extra or {}).get("init"):
                return self.assign(n, lk, n.ctype, init[-1], st, c)
            return [self.kill(st, lk)]
        if k == "BinaryOperator" and n.op == "=":
            q = self.char(n.kids[0])
            if q is not None:
                return [self.store(q, n.kids[1], st)]
            lk = key(n.kids[0])
            if lk is None:
                return [st]
            return self.assign(n, lk, strip(n.kids[0]).ctype, n.kids[1], st, c)
        if k == "CallExpr":
            nm = callee(n)
            if nm in self.p.functions:
                self.handed(n, nm, st, c)
                w = self.eff.writes(nm)
                names = set(r[1] for r in w if r[0] in ("F", "E"))
                gl = set(r[1] for r in w if r[0] in ("G", "EG"))
                if names or gl:
                    def hit(f):
                        for x in f[1:]:
                            for y in (x[:2] if isinstance(x, tuple) else (x,)):
                                if isinstance(y, str) and (y in gl or any(t in names for t in re.split(r"->|\.", y)[1:])):
                                    return True
                        return False
                    st = frozenset(f for f in st if not hit(f))
            for x in args(n):
                x = strip(x)
                if x is not None and x.kind == "UnaryOperator" and x.op == "&":
                    kk = key(x.kids[0])
                    if kk:
                        st = self.kill(st, kk)
            return [st]
        return [st]

    def postinc(self, n):
        return any(x.kind == "UnaryOperator" and x.op in ("++", "--") for k in n.kids if k is not None for x in [strip(k)])

    def move(self, n, st, c, lk, by, written):
        for b, i in sorted(self.cursors[c]):
            if lk in (b, i) and by > 0:
                if written:
                    continue
                st = self.step(n, st, c, b, i, lk, by)
        st = self.shift(st, lk, by)
        if by > 0:
            add = set()
            for b, i in self.cursors[c]:
                if lk in (b, i):
                    m = min(3, self.advanced(st, b, i) if ("adv", (b, i), by) in st else 0)
                    if not any(f[0] == "adv" and f[1] == (b, i) for f in st):
                        add.add(("adv", (b, i), min(3, by)))
            st = st | add
        # a scalar that moves is not the character it was
        return frozenset(f for f in st if not (f[0] in ("al", "vnz", "vz") and f[1] == lk))

    def leap(self, n, st, c, lk):
        """p += strlen(x) - 1 where the text is known to begin with x"""
        d = n.kids[1]
        s = strip(d)
        off = 0
        if s.kind == "BinaryOperator" and s.op in ("-", "+") and const_int(s.kids[1]) is not None:
            off = const_int(s.kids[1]) * (-1 if s.op == "-" else 1)
            s = strip(s.kids[0])
        if n.op == "+=" and s.kind == "CallExpr" and callee(s) in ("strlen", "lemonStrlen"):
            x = key(args(s)[0])
            if ("pre", lk, x) in st and off <= 0:
                self.site(STEP, n, c)
                st = self.kill(st, lk)
                return st | {("nz", (lk, "", 0))} if off < 0 else st
        x = self.index(d)
        if n.op == "+=" and x is not None and x[0] and any(b == lk and j == x[0] for b, j in self.cursors[c]):
            self.site(STEP, n, c)
            if not self.goes_on(st, (lk, x[0], 0), x[1]):
                self.bad(STEP, n, c, "%s moves on to %d after %s, where the text may have ended" % (self.name(lk, ""), x[1], self.name(lk, x[0])))
            add = set((f[0], (lk, "", f[1][2] - x[1])) for f in st if f[0] in ("nz", "z") and f[1][:2] == (lk, x[0]))
            return self.kill(st, lk) | frozenset(f for f in add if LO <= f[1][2] <= HI)
        if s.kind != "CallExpr":
            return self.assumed(self.kill(st, lk), lk, c)
        for b, i in sorted(self.cursors[c]):
            if lk in (b, i) and (not i or self.inscope(n, c, b, i)):
                self.site(STEP, n, c)
                if n.op == "+=":
                    self.bad(STEP, n, c, "%s moves on by a number of characters nothing is known about" % self.name(b, i))
        return self.kill(st, lk)

    def assumed(self, st, lk, c):
        """a position computed in a way that is not followed: taken to lie within the text"""
        return st | frozenset(x for b, i in self.cursors[c] if lk in (b, i) for x in (("nz", (b, i, 0)), ("adv", (b, i), 3)))

    def elsewhere(self, s, c):
        """the value comes from outside what is followed here: a computation with positions, or a helper given one"""
        if s.kind == "CallExpr":
            if callee(s) not in self.p.functions:
                return False
            for x in args(s):
                q = self.pos(x) if texttype(strip(x).ctype) else self.index(x)
                if q is not None and any((q[0] in (b, i) if len(q) == 2 else q[:2] in ((b, i), (b, ""))) for b, i in self.cursors[c] if q[0]):
                    return True
            return False
        return s.kind in ("BinaryOperator", "ConditionalOperator", "ParenExpr", "CStyleCastExpr")

    def store(self, q, rhs, st):
        keep = set()
        for f in st:
            if f[0] == "al" and f[2] == q:
                if ("nz", q) in st:
                    keep.add(("vnz", f[1]))
                if ("z", q) in st:
                    keep.add(("vz", f[1]))
                continue
            if f[0] in ("nz", "z", "hid") and f[1] == q:
                continue
            if f[0] == "z":
                continue
            keep.add(f)
        v = const_int(rhs)
        within = ("nz", q) in st or ("hid", q) in st
        if v is not None:
            if v == 0:
                keep.add(("z", q))
            elif within:
                keep.add(("nz", q))
            if v == 0 and within:
                keep.add(("hid", q))
        else:
            k = key(rhs)
            if k:
                if ("vnz", k) in keep:
                    keep.add(("nz", q))
                if ("vz", k) in keep:
                    keep.add(("z", q))
                if not any(f[0] == "al" and f[1] == k for f in keep):
                    keep.add(("al", k, q))
        return frozenset(keep)

    def assign(self, n, lk, ctype, rhs, st, c):
        s = strip(rhs)
        if is_assign(s) and s.op == "=":
            s = strip(s.kids[0])
        if texttype(ctype) or "*" in (ctype or ""):
            if s.kind == "ConditionalOperator":
                out = []
                for x in s.kids[1:]:
                    out += [r for r in self.assign(n, lk, ctype, x, st, c) if r not in out]
                return out
            q = self.pos(s)
            if q is None or not texttype(ctype):
                st = self.kill(st, lk)
                return [self.assumed(st, lk, c) if texttype(ctype) and self.elsewhere(s, c) else st]
            if q[0] == lk or q[1] == lk:
                return [self.move(n, st, c, lk, q[2], False)] if q[:2] == (lk, "") else [self.kill(st, lk)]
            if q[2] > 0 and (self.judged(c, q[0], q[1]) or (lk, "") in self.cursors[c]):
                self.site(STEP, n, c)
                if not self.goes_on(st, (q[0], q[1], 0), q[2]):
                    self.bad(STEP, n, c, "%s is set %d after %s, where the text may have ended" % (self.name(lk, ""), q[2], self.name(q[0], q[1])))
            add = set()
            for f in st:
                if f[0] in ("nz", "z") and f[1][:2] == q[:2]:
                    add.add((f[0], (lk, "", f[1][2] - q[2])))
                elif f[0] == "al" and f[2][:2] == q[:2]:
                    pass
                elif f[0] == "adv" and f[1] == q[:2]:
                    m = min(3, f[2] + q[2])
                    if m > 0:
                        add.add(("adv", (lk, ""), m))
            if q[2] > 0 and not any(f[0] == "adv" for f in add):
                add.add(("adv", (lk, ""), min(3, q[2])))
            st = self.kill(st, lk)
            return [st | frozenset(f for f in add if f[0] == "adv" or LO <= f[1][2] <= HI)]
        # integers and characters
        q = self.char(s) if s.kind in ("UnaryOperator", "ArraySubscriptExpr") else None
        if q is not None:
            st = self.kill(st, lk)
            return [st | {("al", lk, q)}]
        v = const_int(rhs)
        st0 = st
        if v is not None:
            st = self.kill(st, lk)
            add = {("vnz" if v else "vz", lk)}
            for b, j in sorted(self.cursors[c]):
                if j != lk:
                    continue
                if v > 0 and self.inscope(n, c, b, j):
                    self.site(STEP, n, c)
                    if not self.goes_on(st, (b, "", 0), v):
                        self.bad(STEP, n, c, "%s starts %d after the beginning, where the text may have ended" % (self.name(b, j), v))
                for o in range(v, 0):
                    add.add(("nz", (b, j, o - v)))
                for f in st:
                    if f[0] in ("nz", "z") and f[1][:2] == (b, "") and LO <= f[1][2] - v <= HI:
                        add.add((f[0], (b, j, f[1][2] - v)))
                if v > 0:
                    add.add(("adv", (b, j), min(3, v)))
            return [st | frozenset(add)]
        i = self.index(s)
        if i is not None and i[0]:
            if i[0] == lk:
                return [self.move(n, st, c, lk, i[1], False)]
            add = set()
            for f in st0:
                if f[0] in ("nz", "z") and f[1][1] == i[0]:
                    add.add((f[0], (f[1][0], lk, f[1][2] - i[1])))
                elif f[0] == "al" and f[1] == i[0] and not i[1]:
                    add.add(("al", lk, f[2]))
                elif f[0] in ("vnz", "vz") and f[1] == i[0] and not i[1]:
                    add.add((f[0], lk))
                elif f[0] == "adv" and f[1][1] == i[0]:
                    m = min(3, f[2] + i[1])
                    if m > 0:
                        add.add(("adv", (f[1][0], lk), m))
            for b, j in sorted(self.cursors[c]):
                if j == lk and i[1] > 0 and ((b, i[0]) in self.cursors[c]):
                    self.site(STEP, n, c)
                    if not self.goes_on(st0, (b, i[0], 0), i[1]):
                        self.bad(STEP, n, c, "%s is set %d after %s, where the text may have ended" % (self.name(b, j), i[1], self.name(b, i[0])))
            for b, j in self.cursors[c]:
                if j == lk and (b, i[0]) not in self.cursors[c]:
                    add |= {("nz", (b, lk, 0)), ("adv", (b, lk), 3)}
            st = self.kill(st, lk)
            return [st | frozenset(f for f in add if f[0] != "nz" and f[0] != "z" or LO <= f[1][2] <= HI)]
        st = self.kill(st, lk)
        return [self.assumed(st, lk, c) if self.elsewhere(s, c) else st]

    # ---- conditions
    def about(self, n):
        """what a tested expression reads: ("pos", p) or ("var", k)"""
        n = strip(n)
        if is_assign(n) and n.op == "=":
            l = self.char(n.kids[0])
            if l is not None:
                return ("pos", l)
            return ("var", key(n.kids[0])) if "*" not in (strip(n.kids[0]).ctype or "*") else None
        q = self.char(n) if n.kind in ("UnaryOperator", "ArraySubscriptExpr") else None
        if q is not None:
            return ("pos", q)
        if n.kind in ("DeclRefExpr", "MemberExpr") and "*" not in (n.ctype or "*") and "[" not in n.ctype:
            k = key(n)
            return ("var", k) if k else None
        return None

    def apply(self, st, a, nz, x=None):
        r = self.learn(st, a[1], nz) if a[0] == "pos" else self.learnvar(st, a[1], nz)
        if r is not None and x is not None:
            x = strip(x)
            if is_assign(x) and x.op == "=":
                b = self.about(x.kids[1])
                if b is not None and b[1] is not None:
                    return self.apply(r, b, nz, x.kids[1])
        return [] if r is None else [r]

    def branch(self, cond, truth, st, c):
        n = strip(cond)
        if n.kind == "UnaryOperator" and n.op == "!":
            return self.branch(n.kids[0], not truth, st, c)
        if n.kind == "BinaryOperator" and n.op in ("==", "!="):
            eq = truth == (n.op == "==")
            for x, y in ((n.kids[0], n.kids[1]), (n.kids[1], n.kids[0])):
                v = const_int(y)
                s = strip(x)
                if v == 0 and s.kind == "CallExpr":
                    if callee(s) in ("strncmp", "strcmp", "memcmp"):
                        return [self.begins(s, st)] if eq else [st]
                    return self.call_true(s, not eq, st)
                a = self.about(x) if v is not None else None
                if a is not None and a[1] is not None:
                    if v == 0:
                        r = self.apply(st, a, not eq, x)
                        if not eq and a[0] == "var":
                            r = [self.positive(x, s1, c) for s1 in r]
                        return r
                    if eq:
                        return self.apply(st, a, True, x)
                    return [st]
            if "*" in (strip(n.kids[0]).ctype or "") and not is_null(n.kids[1]) and not is_null(n.kids[0]):
                ka, kb = key(n.kids[0]), key(n.kids[1])
                if eq:
                    for p, q in ((ka, kb), (kb, ka)):
                        t = self.found.get(c, {}).get(q)
                        if t:
                            st = st | {("pre", p, t), ("nz", (p, "", 0))}
                else:
                    # not where it began
                    for p, q in ((ka, kb), (kb, ka)):
                        if p and (p, "") in self.cursors[c] and self.starts.get(c, {}).get(p) == q and not self.advanced(st, p, ""):
                            st = st | {("adv", (p, ""), 1)}
            return [st]
        if n.kind == "BinaryOperator" and n.op in ("<", ">", "<=", ">="):
            op = n.op
            l, r = n.kids
            if not truth:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
            if op in (">", ">="):
                l, r = r, l
                op = {">": "<", ">=": "<="}[op]
            # l < r or l <= r
            v = const_int(l)
            a = self.about(r) if v is not None else None
            if a is not None and a[1] is not None and (v > 0 or (v == 0 and op == "<")):
                out = self.apply(st, a, True)
                if a[0] == "var":
                    out = [self.positive(r, s1, c) for s1 in out]
                return out
            if op == "<":
                i, j = self.index(l), self.index(r)
                if i and j and i[0] and j[0] and not i[1] and j[1] <= 0 and not texttype(strip(l).ctype):
                    add = [("nz", (b, i[0], 0)) for b, k in self.cursors[c] if k == i[0] and (b, j[0]) in self.cursors[c]]
                    return [frozenset(f for f in st if not (f[0] == "z" and ("nz", f[1]) in add)) | frozenset(add)]
                if texttype(strip(l).ctype):
                    p, q = self.pos(l), self.pos(r)
                    if q and key(l) and (q[0], "") in self.cursors[c] and self.starts.get(c, {}).get(q[0]) == key(l) and not q[2] and not self.advanced(st, q[0], ""):
                        return [st | {("adv", (q[0], ""), 1)}]
                    if p and q and not p[2] and q[2] <= 0:
                        return [st | {("nz", p)}]
            return [st]
        if n.kind == "CallExpr":
            if callee(n) in ("strncmp", "strcmp", "memcmp"):
                return [st] if truth else [self.begins(n, st)]
            return self.call_true(n, truth, st)
        a = self.about(n)
        if a is not None and a[1] is not None:
            r = self.apply(st, a, truth, n)
            if truth and a[0] == "var":
                r = [self.positive(n, s1, c) for s1 in r]
            return r
        return [st]

    def positive(self, n, st, c):
        """an index known to be above zero"""
        k = key(strip(n))
        add = [("adv", (b, i), 1) for b, i in self.cursors[c] if i == k and not self.advanced(st, b, i)]
        return st | frozenset(add)

    def zero(self, f, k):
        """what a predicate of the program answers for the end of the text as its k-th argument: False, or None when not known"""
        fn = self.p.functions[f]
        ps = [x for x in fn.kids if x is not None and x.kind == "ParmVarDecl"]
        body = [x for x in fn.kids if x is not None and x.kind == "CompoundStmt"]
        if not body or k >= len(ps):
            return None
        rs = [x for x in body[0].walk() if x.kind == "ReturnStmt"]
        if not rs or any(not x.kids for x in rs):
            return None
        pk = "%s'%s" % (ps[k].name, ps[k].id[-6:])
        ptr = texttype(ps[k].ctype)

        def ev(x):
            v = const_int(x)
            if v is not None:
                return v != 0
            x = strip(x)
            while x.kind in ("CStyleCastExpr", "ImplicitCastExpr", "ParenExpr"):
                x = strip(x.kids[-1])
            if ptr:
                q = self.char(x) if x.kind in ("UnaryOperator", "ArraySubscriptExpr") else None
                if q is not None:
                    return False if q == (pk, "", 0) else None
            elif key(x) == pk:
                return False
            if x.kind == "UnaryOperator" and x.op == "!":
                v = ev(x.kids[0])
                return None if v is None else not v
            if x.kind == "BinaryOperator" and x.op in ("&&", "||"):
                a, b = ev(x.kids[0]), ev(x.kids[1])
                s = x.op == "||"
                return s if s in (a, b) else None if None in (a, b) else not s
            if x.kind == "BinaryOperator" and x.op in ("==", "!="):
                for a, b in ((x.kids[0], x.kids[1]), (x.kids[1], x.kids[0])):
                    if const_int(b) is not None and ev(a) is False and const_int(a) is None:
                        return (const_int(b) == 0) == (x.op == "==")
                return None
            if x.kind == "CallExpr" and callee(x) in CLASS:
                return False if ev(args(x)[0]) is False else None
            if x.kind == "CallExpr" and callee(x) in ("strncmp", "strcmp", "memcmp"):
                return True if any(strip(y).kind == "StringLiteral" and z is not y and self.pos(z) == (pk, "", 0) and unquote(strip(y).val)
                                   for y in args(x)[:2] for z in args(x)[:2]) else None
            return None
        vs = [ev(x.kids[0]) for x in rs]
        return False if all(v is False for v in vs) else None

    def call_true(self, n, truth, st):
        if callee(n) in self.p.functions and truth:
            for k, x in enumerate(args(n)):
                x = strip(x)
                a = self.about(x)
                if texttype(x.ctype):
                    q = self.pos(x)
                    a = ("pos", q) if q is not None else None
                if a is not None and a[1] is not None and self.zero(callee(n), k) is False:
                    return self.apply(st, a, True)
            return [st]
        if callee(n) in CLASS and truth:
            x = strip(args(n)[0])
            while x.kind in ("CStyleCastExpr", "ParenExpr", "ImplicitCastExpr"):
                x = strip(x.kids[-1])
            a = self.about(x)
            if a is not None and a[1] is not None:
                return self.apply(st, a, True)
        return [st]

    def begins(self, n, st):
        a = args(n)
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            s = strip(y)
            while s is not None and s.kind in ("CStyleCastExpr", "ImplicitCastExpr", "ParenExpr"):
                s = strip(s.kids[-1])
            if s is not None and s.kind == "StringLiteral":
                q = self.pos(x)
                m = len(unquote(s.val))
                if len(a) > 2:
                    v = const_int(a[2])
                    if v is None:
                        return st
                    m = min(m, v)
                if q is not None:
                    return st | frozenset(("nz", (q[0], q[1], q[2] + o)) for o in range(m) if q[2] + o <= HI)
        return st

    def case(self, cond, v, vals, st, c):
        a = self.about(cond)
        if a is None or a[1] is None:
            return [st]
        if v is not None:
            return self.apply(st, a, v != 0)
        return self.apply(st, a, True) if 0 in vals else [st]

    def wanted(self, f, c):
        if f[0] in ("vnz", "vz"):
            return f[1] in self.chars[c]
        if f[0] in ("nz", "z", "hid"):
            return self.judged(c, f[1][0], f[1][1])
        if f[0] in ("adv", "pend"):
            return self.judged(c, f[1][0], f[1][1])
        if f[0] == "al":
            return self.judged(c, f[2][0], f[2][1])
        return True

    def edge(self, g, b, nb, st, c):
        st = frozenset(f for f in st if self.wanted(f, c))
        live = g.live_in()[nb.id]
        loc = self.locals[c]
        tag = re.compile(r"'[0-9a-f]{6}")

        def ok(f):
            for x in f[1:]:
                for y in (x[:2] if isinstance(x, tuple) else (x,)):
                    if isinstance(y, str):
                        for t in tag.findall(y):
                            if t in loc and loc[t] not in live:
                                return False
            return True
        return frozenset(f for f in st if ok(f))

    # ---- what is scanned
    def prepare(self, f):
        fn = self.p.functions[f]
        cur, tested, moved = set(), set(), {}
        aliases = {}
        found, starts, scope = {}, {}, {}
        for n in fn.walk():
            if n.kind == "BinaryOperator" and n.op == "=" or (n.kind == "VarDecl" and (n.extra or {}).get("init")):
                l = key(n.kids[0]) if n.kind != "VarDecl" else "%s'%s" % (n.name, n.id[-6:])
                r = strip([x for x in n.kids if x is not None][-1])
                if l and r is not None:
                    q = self.char(r) if r.kind in ("UnaryOperator", "ArraySubscriptExpr") else None
                    if q is not None:
                        aliases.setdefault(l, set()).add(q[:2])
                    if r.kind == "CallExpr" and callee(r) == "strstr":
                        found[l] = key(args(r)[1])
                    if texttype(r.ctype) and key(r) and l not in starts:
                        starts[l] = key(r)
        for n in fn.walk():
            q = self.char(n) if n.kind in ("UnaryOperator", "ArraySubscriptExpr") else None
            if q is not None and (n.ctype or "").replace("const ", "") in ("char", "unsigned char"):
                up = n
                while up.parent is not None and up.parent.kind in cfg.STRIP:
                    up = up.parent
                if not (up.parent is not None and is_assign(up.parent) and up.parent.op == "=" and up.parent.kids[0] is up) and \
                        (q[2] >= 0 or self.postinc(n)):
                    cur.add(q[:2])
                    up = n.parent
                    while up is not None:
                        if up.kind in ("ForStmt", "WhileStmt", "DoStmt"):
                            scope.setdefault(q[:2], set()).add(id(up))
                        up = up.parent
            if n.kind in ("UnaryOperator", "CompoundAssignOperator") and n.op in ("++", "+="):
                k = key(n.kids[0])
                if k:
                    moved.setdefault(k, []).append(n)
            if n.kind == "BinaryOperator" and n.op == "=":
                k = key(n.kids[0])
                if k:
                    moved.setdefault(k, [])
        out = set()
        for b, i in cur:
            # positions that only count up to a number are not scanned by what the text says
            ms = moved.get(i if i else b)
            if i:
                ms = list(ms or ()) + [m for m in moved.get(b, ())]
            loops = []
            for m in ms or ():
                q = m
                while q is not None and q.kind not in ("ForStmt", "WhileStmt", "DoStmt"):
                    q = q.parent
                loops.append(q)
            if not ms:
                out.add((b, i)) if not i else None
                continue
            if all(q is not None and self.counted(q) and not self.looks(q, b, i, aliases) for q in loops):
                continue
            if i and not any(q is not None and self.looks(q, b, i, aliases) for q in loops):
                continue
            out.add((b, i))
        self.cursors[f] = out
        self.found[f] = found
        self.scope[f] = scope
        self.chars[f] = set(aliases)
        self.starts[f] = starts
        self.locals[f] = dict(("'" + x.id[-6:], x.id) for x in fn.walk() if x.kind == "VarDecl" and x.id not in cfg.GLOBAL_IDS)

    def conds(self, q):
        if q.kind == "WhileStmt":
            return [q.kids[0]]
        if q.kind == "DoStmt":
            return [q.kids[-1]]
        return [x for x in q.kids[1:3] if x is not None and x.kind not in ("CompoundStmt", "NullStmt")]

    def counted(self, q):
        for x in self.conds(q):
            for n in x.walk():
                if n.kind == "BinaryOperator" and n.op in ("<", ">", "<=", ">=") and "*" not in (strip(n.kids[0]).ctype or ""):
                    return True
        return False

    def looks(self, q, b, i, aliases):
        """the loop's condition looks at the character"""
        for x in self.conds(q):
            for n in x.walk():
                if n.kind in ("UnaryOperator", "ArraySubscriptExpr"):
                    p = self.char(n)
                    if p is not None and p[:2] == (b, i):
                        return True
                if n.kind == "DeclRefExpr" and (b, i) in aliases.get(key(n) or "", ()):
                    return True
        return False

    def handed(self, n, nm, st, c):
        """what is known of the texts a helper is given"""
        ps = [x for x in self.p.functions[nm].kids if x is not None and x.kind == "ParmVarDecl"]
        facts = set()
        for k, x in enumerate(args(n)):
            if k >= len(ps) or not texttype(ps[k].ctype):
                continue
            q = self.pos(x)
            s = strip(x)
            pk = "%s'%s" % (ps[k].name, ps[k].id[-6:])
            if s.kind == "StringLiteral":
                facts |= set(("nz", (pk, "", o)) for o in range(min(HI, len(unquote(s.val)))))
            elif q is not None:
                for f in st:
                    if f[0] in ("nz", "z") and f[1][:2] == q[:2] and LO <= f[1][2] - q[2] <= HI:
                        facts.add((f[0], (pk, "", f[1][2] - q[2])))
                    elif f[0] == "adv" and f[1] == q[:2] and f[2] + q[2] > 0:
                        facts.add(("adv", (pk, ""), min(3, f[2] + q[2])))
        self.given.setdefault(nm, {}).setdefault(id(n), []).append(frozenset(facts))

    def entry(self, f):
        got = self.given.get(f)
        if not got:
            return frozenset()
        sites = [x for g in self.p.functions.values() for x in g.walk() if x.kind == "DeclRefExpr" and x.ref is not None and x.ref.name == f]
        if len(sites) != len(got):
            return frozenset()
        out = None
        for fs in got.values():
            for x in fs:
                out = x if out is None else out & x
        return out or frozenset()

    def order(self):
        """callers before the functions they call"""
        cg = self.p.callgraph()
        done, out = set(), []

        def visit(f):
            if f in done:
                return
            done.add(f)
            for g in sorted(cg.get(f, ())):
                if g in self.p.functions:
                    visit(g)
            out.append(f)
        for f in sorted(self.p.functions):
            visit(f)
        return out[::-1]

    def run(self, eff):
        self.given = {}
        self.eff = eff
        self.cursors, self.found, self.starts, self.locals, self.chars, self.scope = {}, {}, {}, {}, {}, {}
        for f in self.order():
            self.prepare(f)
            if not self.cursors[f]:
                continue
            self.fns.add(f)
            self.trace = None
            Engine(self, 120000).run(self.p.cfg(f), [self.entry(f)], f)


def run(R):
    R.rule(STEP, "a position moves on only over characters known not to be the terminating zero")
    R.rule(READ, "a character ahead is looked at only when those before it are known not to end the text")
    R.rule(BACK, "a character before a position is looked at only when the position has moved on from the start")
    p = prog.lemon()
    import effects
    S = Scan(p)
    S.run(effects.Effects(p))
    for (rule, loc), (f, what, lines) in sorted(S.viol.items()):
        R.bad(rule, "lemon|%s|%s" % (f, what), loc, f, what, ["lines on the path: " + " ".join(str(x) for x in lines[-25:])])
    for r in (STEP, READ, BACK):
        R.ok(r, len(S.done[r]), "lemon")
    R.explain = "Functions that scan text in lemon: " + ", ".join(sorted(S.fns))
    R.count("functions that scan", len(S.fns), 12)
    R.count("steps", len(S.done[STEP]), 40)
    R.count("looks ahead", len(S.done[READ]), 8)
