"""Writes into and table reads from arrays of fixed size, against intervals of index, count and text length."""
import re

import cfg
import strs
from cfg import strip, const_int, key, callee, args, is_assign
from interval import Intervals, INF, type_range

_ARR = re.compile(r"^(.*?)\s*((?:\[\d+\])+)$")
PRINTFS = {"sprintf": 1, "lemon_sprintf": 1}


def array_of(t):
    """(element type, first dimension) of an array type"""
    m = _ARR.match((t or "").strip())
    if not m:
        return None
    d = re.findall(r"\[(\d+)\]", m.group(2))
    return (m.group(1).strip() + "".join("[%s]" % x for x in d[1:]), int(d[0]))


def is_char(t):
    return re.sub(r"\b(const|unsigned|signed|volatile)\b", "", t).strip() == "char"


def base_array(e):
    """the fixed-size array a pointer expression points into: (array node, size, offset expression or None)"""
    e = strip(e)
    if e is None:
        return None
    if e.kind in ("DeclRefExpr", "MemberExpr", "UnaryOperator", "ArraySubscriptExpr"):
        a = array_of(e.ctype)
        if a and not (e.kind == "UnaryOperator" and e.op != "*"):
            return e, a[1], None
    if e.kind == "UnaryOperator" and e.op == "&":
        x = strip(e.kids[0])
        if x.kind == "ArraySubscriptExpr":
            b = base_array(x.kids[0])
            if b and b[2] is None:
                return b[0], b[1], x.kids[1]
    if e.kind == "BinaryOperator" and e.op == "+":
        b = base_array(e.kids[0])
        if b and b[2] is None:
            return b[0], b[1], e.kids[1]
    return None


class Bounds(object):
    def __init__(self, prog, effects, guard=None):
        self.p = prog
        self.I = Intervals(prog, effects)
        self.I.guard = guard or {}
        self.S = strs.Strings(prog)
        self.I.strings = _Wrap(self.S, prog)
        self.I.fmtlen = lambda I, fmt, rest, env: (self.fmtmin(fmt), self.fmtlen(I, fmt, rest, env))
        self.I.run()
        self.sites = {}
        self.viol = {}

    def run(self):
        self.I.visit_all(self.visit)
        return self

    def trailing(self, m):
        """a one-element array at the end of a record stands for as many elements as were allocated"""
        o = self.p.owner(m)
        fl = self.p.records.get(o[0])
        return bool(fl) and fl[-1][1] == o[1]

    def name(self, n):
        k = key(n) or "array"
        return re.sub(r"'[0-9a-f]{6}", "", k)

    def bad(self, f, kind, n, what, msg):
        self.viol[(kind, f, what)] = (self.p.loc(n), msg)

    def visit(self, I, f, n, env):
        k = n.kind
        if is_assign(n) and n.op == "=" and strip(n.kids[0]).kind == "MemberExpr" and I.guard:
            l = strip(n.kids[0])
            for o, iv in I.guard.get((self.p.owner(l), const_int(n.kids[1])), ()):
                b = key(l.kids[0])
                kk = "%s%s%s" % (b, "->" if l.extra and l.extra.get("isArrow") else ".", o[1])
                cur = env.get(kk, I.fdef(o, (-2 ** 31, 2 ** 31 - 1)))
                self.sites[(f, self.p.loc(n), "guard")] = "%s in [%s,%s] when %s is set" % (o[1], cur[0], cur[1], l.name)
                if cur[0] < iv[0] or cur[1] > iv[1]:
                    self.bad(f, "state", n, "%s=%s:%s" % (l.name, const_int(n.kids[1]), o[1]),
                             "%s may be %s when this state is entered, where array elements below it are used" % (o[1], cur[0]))
        if k == "ArraySubscriptExpr":
            b = array_of(strip(n.kids[0]).ctype)
            if b is None:
                return
            base = strip(n.kids[0])
            if b[1] == 1 and base.kind == "MemberExpr" and self.trailing(base):
                return
            p = n.parent
            while p is not None and p.kind in ("ParenExpr",):
                p = p.parent
            wr = p is not None and ((is_assign(p) and self._within(p.kids[0], n)) or (p.kind == "UnaryOperator" and p.op in ("++", "--")))
            addr = p is not None and p.kind == "UnaryOperator" and p.op == "&"
            sub = p is not None and p.kind in ("MemberExpr", "ArraySubscriptExpr")
            if is_char(b[0]) and not wr:
                return
            v = I.ev(n.kids[1], env)
            if is_char(b[0]) and ("nz(%s)" % key(n)) in env and env["nz(%s)" % key(n)][0] == 1:
                v = (v[0], min(v[1], b[1] - 2))       # the element was just read as part of the text: before its end
            hi = b[1] if addr else b[1] - 1
            self.sites[(f, self.p.loc(n), self.name(n))] = "%s[%s..%s] of %d" % (self.name(base), v[0], v[1], b[1])
            if v[0] < 0 or v[1] > hi:
                self.bad(f, "index", n, "%s:%s" % (self.name(base), "write" if wr else "use"),
                         "index of %s is in [%s, %s]; the array has %d elements" % (self.name(base), v[0], v[1], b[1]))
            return
        if k == "UnaryOperator" and n.op == "*":
            p = n.parent
            if p is not None and is_assign(p) and strip(p.kids[0]) is n:
                b = base_array(n.kids[0])
                if b:
                    off = I.ev(b[2], env) if b[2] is not None else (0, 0)
                    self.sites[(f, self.p.loc(n), self.name(b[0]))] = "*%s offset %s" % (self.name(b[0]), off)
                    if off[0] < 0 or off[1] > b[1] - 1:
                        self.bad(f, "index", n, self.name(b[0]) + ":write", "offset of the write into %s is in [%s, %s]; the array has %d elements" % (self.name(b[0]), off[0], off[1], b[1]))
            return
        if k != "CallExpr":
            return
        nm = callee(n)
        a = args(n)
        if nm in PRINTFS or nm in ("strcpy", "strcat", "lemon_strcpy", "lemon_strcat", "snprintf", "vsnprintf", "fgets", "memcpy", "memset", "memmove", "strncpy", "fread", "vsprintf"):
            b = base_array(a[0])
            if b is None:
                return
            off = I.ev(b[2], env) if b[2] is not None else (0, 0)
            room = b[1] - off[1]
            what = "%s:%s" % (self.name(b[0]), nm)
            if nm in PRINTFS:
                need = self.fmtlen(I, a[PRINTFS[nm]], a[PRINTFS[nm] + 1:], env) + 1
            elif nm in ("strcpy", "lemon_strcpy"):
                need = I.strbound(a[1], env) + 1
            elif nm in ("snprintf", "vsnprintf", "fgets"):
                need = I.ev(a[1], env)[1]
            elif nm in ("memcpy", "memset", "memmove", "strncpy"):
                need = I.ev(a[2], env)[1]
                room = b[1] * (cfg.type_size(array_of(b[0].ctype)[0]) or 1) - off[1]
            elif nm == "fread":
                x, y = I.ev(a[1], env), I.ev(a[2], env)
                need = x[1] * y[1]
            else:
                need = INF
            self.sites[(f, self.p.loc(n), what)] = "%s writes up to %s bytes, room %s" % (what, need, room)
            if off[0] < 0 or need > room:
                self.bad(f, "length", n, what, "%s may write %s bytes into %s, which has room for %s"
                         % (nm, "any number of" if need == INF else int(need), self.name(b[0]), room))

    def fmtmin(self, fmt):
        fs = self.I.strings.all(fmt)
        if not fs:
            return 0
        return min(sum(len(x) for x in strs.parse_format(t) if isinstance(x, str)) for t in fs)

    def _within(self, root, n):
        return strip(root) is n

    def fmtlen(self, I, fmt, rest, env):
        fs = self.S.all(fmt) or I.strings.all(fmt)
        if not fs:
            return INF
        worst = 0
        for t in fs:
            tot = 0
            for it in strs_items(t, rest):
                if len(it) == 1:
                    tot += len(it[0])
                    continue
                conv, width, wn, prec, pn, arg = it
                w = 0
                if width == "*":
                    v = I.ev(wn, env) if wn is not None else (-INF, INF)
                    w = max(abs(v[0]), abs(v[1]))
                elif width:
                    w = int(width)
                if conv in "di":
                    v = I.ev(arg, env) if arg is not None else (-INF, INF)
                    ln = max(_digits(v[0]), _digits(v[1]))
                elif conv in "uxXo":
                    v = I.ev(arg, env) if arg is not None else (0, INF)
                    ln = max(_digits(v[1]), 22 if v[0] < 0 else 0) + (12 if conv == "o" else 0)
                elif conv == "c":
                    ln = 1
                elif conv == "s":
                    ln = I.strbound(arg, env) if arg is not None else INF
                    if prec == "*":
                        v = I.ev(pn, env) if pn is not None else (-INF, INF)
                        if v[0] >= 0:
                            ln = min(ln, v[1])
                    elif prec is not None and prec != "":
                        ln = min(ln, int(prec))
                elif conv == "p":
                    ln = 20
                else:
                    ln = INF
                tot += max(ln, w)
            worst = max(worst, tot)
        return worst


def _digits(v):
    if v in (INF, -INF):
        return 21
    return len(str(int(v)))


def strs_items(fmt, rest):
    out = []
    k = 0
    for it in strs.parse_format(fmt):
        if isinstance(it, str):
            out.append((it,))
            continue
        conv, ln, width, prec, flags, haspt = it
        wn = pn = None
        if width == "*":
            wn = rest[k] if k < len(rest) else None
            k += 1
        if prec == "*":
            pn = rest[k] if k < len(rest) else None
            k += 1
        out.append((conv, width, wn, prec, pn, rest[k] if k < len(rest) else None))
        k += 1
    return out


class _Wrap(object):
    """string constants, including locals that are only ever initialised"""

    def __init__(self, S, prog):
        self.S = S
        self.loc = {}
        for f, d in prog.functions.items():
            asg = set()
            for n in d.walk():
                if is_assign(n):
                    l = strip(n.kids[0])
                    if l.kind == "DeclRefExpr":
                        asg.add(l.ref.id)
            for n in d.walk():
                if n.kind == "VarDecl" and n.id not in asg and "char" in (n.ctype or ""):
                    ini = [x for x in n.kids if x is not None]
                    if ini and (("const" in n.ctype and "[" in n.ctype) or "*" in n.ctype):
                        self.loc[n.id] = ini[-1]

    def all(self, e):
        e = strip(e)
        if e is not None and e.kind == "DeclRefExpr" and e.ref.id in self.loc:
            return self.S.all(self.loc[e.ref.id])
        return self.S.all(e)
