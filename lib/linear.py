"""Linear facts over program values: symbolic sizes, positions and counts, with merging at joins and loops.

A value is a linear expression over symbols (Lin); a state maps variables to values, remembers the sizes of memory blocks
and keeps facts `Lin >= 0`.  Obligations are decided by combining facts; nothing is executed."""
from cast import AnalysisBroken

import cfg
from cfg import strip, const_int, key, callee, args, is_assign

PURE = set("strlen lemonStrlen strcmp strncmp strchr strrchr isalnum isalpha isspace isdigit isupper islower tolower toupper isxdigit isprint "
           "printf fprintf puts fputs fputc putc putchar fflush fclose atoi strtol free exit getenv memcmp strstr qsort".split())
DBG = ()
NINF = float("-inf")
K = 6


def lin(c=0, d=None):
    return (c, tuple(sorted((k, v) for k, v in (d or {}).items() if v)))


def sym(s, k=1):
    return (0, ((s, k),))


def add(a, b, k=1):
    d = dict(a[1])
    for s, v in b[1]:
        d[s] = d.get(s, 0) + k * v
    return (a[0] + k * b[0], tuple(sorted((s, v) for s, v in d.items() if v)))


def sub(a, b):
    return add(a, b, -1)


def plus(a, c):
    return (a[0] + c, a[1])


def scale(a, k):
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((s, v * k) for s, v in a[1]))


def divide(a, k):
    if k == 1:
        return a
    if a[0] % k or any(v % k for _, v in a[1]):
        return None
    return (a[0] // k, tuple((s, v // k) for s, v in a[1]))


def show(a):
    t = " ".join("%+d*%s" % (v, s) if v not in (1, -1) else ("%s%s" % ("+" if v > 0 else "-", s)) for s, v in a[1])
    return (t + (" %+d" % a[0] if a[0] or not t else "")).strip()


def subst(a, m):
    r = (a[0], ())
    for s, v in a[1]:
        x = m.get(s)
        r = add(r, x if x is not None else sym(s), v)
    return r


class State(object):
    __slots__ = ("env", "facts", "sz", "dead")

    def __init__(self, env=None, facts=None, sz=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else frozenset()
        self.sz = sz if sz is not None else {}

    def copy(self):
        return State(dict(self.env), self.facts, dict(self.sz))

    def fact(self, l):
        if not l[1]:
            return l[0] >= 0
        # integer tightening: divide by the gcd
        g = 0
        for _, v in l[1]:
            a, b = g, abs(v)
            while b:
                a, b = b, a % b
            g = a
        if g > 1:
            l = (l[0] // g, tuple((s, v // g) for s, v in l[1]))
        if l in self.facts:
            return True
        same = [f for f in self.facts if f[1] == l[1]]
        if any(f[0] <= l[0] for f in same):
            return True
        self.facts = (self.facts - frozenset(same)) | frozenset([l])
        return True

    def sig(self):
        return (frozenset(self.env.items()), self.facts, frozenset(self.sz.items()))


WORK = [0]


def lower(l, facts, depth=5, memo=None):
    """greatest lower bound found for l by adding multiples of facts"""
    idx = {}
    for f in facts:
        for s, v in f[1]:
            idx.setdefault((s, v > 0), []).append(f)
    best = [NINF]
    budget = [4000]
    seen = {}

    def go(l, d):
        if not l[1]:
            if l[0] > best[0]:
                best[0] = l[0]
            return
        if d == 0 or budget[0] <= 0:
            return
        if seen.get(l, -1) >= d:
            return
        seen[l] = d
        budget[0] -= 1
        # the symbol with the fewest matching facts
        cand = None
        for s, v in l[1]:
            m = idx.get((s, v > 0), ())
            if not m:
                return
            if cand is None or len(m) < len(cand[2]):
                cand = (s, v, m)
        s, v, m = cand
        for f in m:
            fv = dict(f[1])[s]
            if v % fv == 0:
                go(add(l, f, -(v // fv)), d - 1)
            elif fv % v == 0 and v in (1, -1):
                continue
    go(l, depth)
    WORK[0] += 4000 - budget[0] + len(facts) // 8
    return best[0]


class TooLong(AnalysisBroken):
    pass


class Linear(object):
    budget = None
    final_owner = None
    loads = ()
    arrays = {}                            # (owner, field): array inside the object whose positions are derived pointers -> its size
    extra = None                           # further bounds worth looking for at joins
    nonnull_derived = False
    lateload = False                       # at joins, a field first looked at on one path has its entry value on the others
    callhook = None                        # summary of a call: list of states, or None
    onbranch = None                        # facts known where a condition holds
    entries = ()                           # records whose members are looked at only inside their block
    """prog: program; fams: [dict(owner, ptr, elem, size=[(const, {field: k})], facts=[...], own=[fields])] invariants.
    inline(fn) decides which callees are analysed in place."""

    def __init__(self, prog, effects=None, families=(), invariants=(), inline=None, tables=None, derived=None, kinds=None):
        self.p = prog
        self.fx = effects
        self.fams = {}
        for f in families:
            self.fams[(f["owner"], f["ptr"])] = f
        self.derived = derived or {}       # (owner, field) -> (owner, base field): pointers into the block of another field
        self.invs = list(invariants)       # (owner, {field: k}, const): sum k*field + const >= 0
        self.inline = inline or (lambda f: False)
        self.tables = tables or {}         # constant table name -> function(index lin, state, symbol) adding facts
        self.sites = {}
        self.viol = {}
        self.emitting = False
        self.depth = 0
        self._al = {}
        self.famfields = {}
        for (o, f), d in self.fams.items():
            for x in [f] + list(d["size"][1]):
                self.famfields.setdefault((o, x), set()).add((o, f))
        self.invfields = set((o, x) for o, d, c in self.invs for x in d)
        self.relevant = set(self.famfields) | self.invfields | set(self.derived)
        self.unit = {}
        self.onaccess = None
        self.oncall = None
        self.alloc = {}                    # allocating functions of the program: name -> size parameter
        self.pre_f = ()
        self.pairs = True                  # look for relations between any two values at joins

    # ---------------------------------------------------------------- sizes
    def tsize(self, t):
        t = (t or "").replace("const ", "").replace("volatile ", "").strip()
        s = cfg.type_size(t)
        if s is not None:
            return s
        if t.endswith("]"):
            i = t.index("[")
            e = self.tsize(t[:i])
            if e is None:
                return None
            for d in t[i:].strip("[]").split("]["):
                if not d.isdigit():
                    return None
                e *= int(d)
            return e
        n = t
        for pre in ("struct ", "union "):
            if n.startswith(pre):
                n = n[len(pre):]
        r = self.p.records.get(n) or self.p.records.get(t)
        if r is None:
            return None
        off, al, mx = 0, 1, 0
        un = t.startswith("union ")
        for x in r:
            ft = x[2] if len(x) > 2 else None
            fs = self.tsize(ft)
            if fs is None:
                return None
            a = self.align(ft)
            al = max(al, a)
            off = (off + a - 1) // a * a + fs
            mx = max(mx, fs)
        tot = mx if un else off
        return (tot + al - 1) // al * al

    def align(self, t):
        t = (t or "").replace("const ", "").strip()
        if t.endswith("]"):
            return self.align(t[:t.index("[")])
        s = cfg.type_size(t)
        if s is not None:
            return min(8, s)
        n = t
        for pre in ("struct ", "union "):
            if n.startswith(pre):
                n = n[len(pre):]
        r = self.p.records.get(n) or self.p.records.get(t) or ()
        return max([self.align(x[2]) for x in r if len(x) > 2] or [1])

    def elsize(self, t):
        t = (t or "").strip()
        if t.endswith("*"):
            return self.tsize(t[:-1]) or 0
        if t.endswith("]"):
            i = t.index("[")
            rest = t[i:]
            j = rest.index("]")
            return self.tsize(t[:i].strip() + rest[j + 1:]) or 0
        return 0

    # ---------------------------------------------------------------- names
    def alias(self, f):
        """locals and parameters of f that are never reassigned"""
        if f not in self._al:
            d = self.p.functions[f]
            asg, addr = set(), set()
            for n in d.walk():
                if is_assign(n) or (n.kind == "UnaryOperator" and n.op in ("++", "--")):
                    l = strip(n.kids[0])
                    if l.kind == "DeclRefExpr":
                        asg.add(l.ref.id)
                if n.kind == "UnaryOperator" and n.op == "&":
                    l = strip(n.kids[0])
                    if l.kind == "DeclRefExpr":
                        addr.add(l.ref.id)
            self._al[f] = (asg, addr)
        return self._al[f]

    def key(self, n):
        return key(n, self.al)

    def fresh(self, st, name):
        """a new value called name; what carried the name before becomes anonymous"""
        self.drop(st, name)
        return sym(name)

    def drop(self, st, name):
        used = any(any(s == name for s, _ in f[1]) for f in st.facts) or any(any(s == name for s, _ in v[1]) for v in st.env.values()) \
            or any(b == name or any(s == name for s, _ in v[1]) for b, v in st.sz.items())
        if not used:
            return
        old = name + "'"
        self.drop(st, old)
        m = {name: sym(old)}
        st.facts = frozenset(subst(f, m) for f in st.facts)
        st.env = dict((k, subst(v, m)) for k, v in st.env.items())
        st.sz = dict((old if b == name else b, subst(v, m)) for b, v in st.sz.items())

    def kill(self, st, k):
        for x in list(st.env):
            if x != k and (x.startswith(k + "->") or x.startswith(k + ".") or x.startswith(k + "[") or ("[%s]" % k) in x or x.startswith("*" + k)):
                del st.env[x]

    # ---------------------------------------------------------------- values
    def load(self, n, k, st):
        if k in st.env:
            return st.env[k]
        # first look at this location: its value on entry
        v = None
        if n is not None and n.kind == "MemberExpr":
            o = self.p.owner(n)
            base = k[:len(k) - len(n.name)]
            if o in self.fams:
                b = "@" + k
                st.sz[b] = self.famsize(o, base, st, entry=True)
                v = sym(b)
            elif o in self.derived:
                bk = base + self.derived[o][1]
                b = self.load_field(self.derived[o], base, st)
                s = "@" + k + ".off"
                v = add(b, sym(s), 1)
            else:
                v = sym("@" + k)
            st.env[k] = v
            if o in self.relevant:
                self.assume(o[0], base, st)
            self.range(n, v, st)
            return v
        v = sym("@" + k)
        st.env[k] = v
        self.range(n, v, st)
        return v

    def load_field(self, o, base, st):
        k = base + o[1]
        if o in self.arrays:
            b = "&" + k
            st.sz[b] = lin(self.arrays[o])
            return sym(b)
        if k in st.env:
            return st.env[k]
        if o in self.fams:
            b = "@" + k
            st.sz[b] = self.famsize(o, base, st, entry=True)
            st.env[k] = sym(b)
        elif o in self.derived:
            b = self.load_field(self.derived[o], base, st)
            st.env[k] = add(b, sym("@" + k + ".off"))
        else:
            st.env[k] = sym("@" + k)
        self.assume(o[0], base, st)
        return st.env[k]

    def famsize(self, o, base, st, entry=False, tag="@"):
        f = self.fams[o]
        c, d = f["size"]
        l = lin(c)
        for x, m in d.items():
            kk = base + x
            if entry:
                xo = (o[0], x)
                if xo in self.derived:
                    v = sym("@" + kk + ".off")
                else:
                    v = sym("@" + kk)
            else:
                v = self.fieldval((o[0], x), base, st)
            l = add(l, scale(v, m))
        return l

    def fieldval(self, o, base, st):
        """value of a field as used in sizes and invariants (derived pointers: their offset)"""
        v = self.load_field(o, base, st)
        if o in self.derived:
            b = self.load_field(self.derived[o], base, st)
            return sub(v, b)
        return v

    def assume(self, rec, base, st):
        """invariants of the object, on entry values"""
        if "inv:" + base in st.env:
            return
        st.env["inv:" + base] = (1, ())
        for o, d, c in list(self.invs) + (list(self.pre_f) if not self.depth else []):
            if o != rec:
                continue
            l = lin(c)
            for x, m in d.items():
                kk = base + x
                l = add(l, sym("@" + kk + (".off" if (o, x) in self.derived else "")), m)
            st.fact(l)

    def range(self, n, v, st):
        t = (n.ctype or "") if n is not None else ""
        if ("unsigned" in t or t in ("size_t", "Yshort")) and "*" not in t and len(v[1]) == 1 and v[0] == 0:
            st.fact(v)

    def tmp(self, n, st):
        return st.env.get("#%s" % n.id)

    def ev(self, n, st):
        n = strip(n)
        if n is None:
            return sym("?")
        c = const_int(n)
        if c is not None:
            return lin(c)
        t = self.tmp(n, st)
        if t is not None:
            return t
        k = n.kind
        if k == "CStyleCastExpr" or k == "ImplicitCastExpr":
            return self.ev(n.kids[0], st)
        if k in ("GNUNullExpr",):
            return lin(0)
        if k == "UnaryExprOrTypeTraitExpr":
            ty = cfg.sizeof_type(n)
            s = self.tsize(ty) if ty else None
            return lin(s) if s is not None else sym("sizeof(%s)" % ty)
        if k == "MemberExpr" and self.entries and self.emitting and self.p.owner(n)[0] in self.entries:
            self.entry_access(n, st)
        if k in ("DeclRefExpr", "MemberExpr"):
            ty = (n.ctype or "")
            kk = self.key(n)
            if kk is None:
                return self.unknown(n, st)
            if ty.endswith("]"):
                b = "&" + kk
                s = self.tsize(ty)
                if s is not None:
                    st.sz[b] = lin(s)
                return sym(b)
            return self.load(n, kk, st)
        if k == "UnaryOperator":
            if n.op == "-":
                return scale(self.ev(n.kids[0], st), -1)
            if n.op == "+":
                return self.ev(n.kids[0], st)
            if n.op == "&":
                x = strip(n.kids[0])
                if x.kind == "ArraySubscriptExpr":
                    v = self.address(x, st)[0]
                    return v if v is not None else self.unknown(n, st)
                kk = self.key(x)
                if kk is not None:
                    b = "&" + kk
                    s = self.tsize(x.ctype)
                    if s is not None:
                        st.sz[b] = lin(s)
                    return sym(b)
                return self.unknown(n, st)
            return self.unknown(n, st)
        if k == "BinaryOperator":
            if n.op in ("+", "-"):
                a, b = n.kids[0], n.kids[1]
                ea, eb = self.elsize(a.ctype), self.elsize(b.ctype)
                va, vb = self.ev(a, st), self.ev(b, st)
                if n.op == "+":
                    if ea and not eb:
                        return add(va, scale(vb, ea))
                    if eb and not ea:
                        return add(vb, scale(va, eb))
                    return add(va, vb)
                if ea and eb:
                    d = sub(va, vb)
                    q = divide(d, ea)
                    if q is not None:
                        return q
                    s = sym("diff(%s)/%d" % (show(d), ea))
                    e = sub(scale(s, ea), d)
                    st.fact(e)
                    st.fact(scale(e, -1))
                    return s
                if ea:
                    return sub(va, scale(vb, ea))
                return sub(va, vb)
            if n.op in ("==", "!=") and self.callhook:
                x, y = n.kids
                vx, vy = self.ev(x, st), self.ev(y, st)
                d = sub(vx, vy)
                if d == (0, ()):
                    return lin(1 if n.op == "==" else 0)
                if (cfg.is_null(y) and self.block(vx, st) is not None) or (cfg.is_null(x) and self.block(vy, st) is not None) \
                        or lower(plus(d, -1), st.facts) >= 0 or lower(plus(scale(d, -1), -1), st.facts) >= 0:
                    return lin(0 if n.op == "==" else 1)
                return self.unknown(n, st)
            if n.op == "*":
                va, vb = self.ev(n.kids[0], st), self.ev(n.kids[1], st)
                if not va[1]:
                    return scale(vb, va[0])
                if not vb[1]:
                    return scale(va, vb[0])
                s = sym("(%s)*(%s)" % tuple(sorted((show(va), show(vb)))))
                return s
            if n.op == "/":
                va, vb = self.ev(n.kids[0], st), self.ev(n.kids[1], st)
                if not vb[1] and vb[0] > 0:
                    q = divide(va, vb[0])
                    if q is not None:
                        return q
                    if lower(va, st.facts) >= 0:
                        s = sym("(%s)/%d" % (show(va), vb[0]))
                        st.fact(sub(va, scale(s, vb[0])))                      # va - k*s >= 0
                        st.fact(plus(sub(scale(s, vb[0]), va), vb[0] - 1))     # k*s - va + k-1 >= 0
                        st.fact(s)
                        return s
                return self.unknown(n, st)
            if n.op == ",":
                return self.ev(n.kids[1], st)
            if n.op == "%":
                va, vb = self.ev(n.kids[0], st), self.ev(n.kids[1], st)
                s = sym("(%s)%%(%s)" % (show(va), show(vb)))
                if "unsigned" in (n.ctype or "") or lower(va, st.facts) >= 0:
                    st.fact(s)
                    st.fact(plus(sub(vb, s), -1))       # the division itself needs a positive divisor
                return s
            return self.unknown(n, st)
        if k == "ArraySubscriptExpr":
            b = strip(n.kids[0])
            if b.kind == "DeclRefExpr" and b.ref.name in self.tables:
                i = self.ev(n.kids[1], st)
                s = "%s[%s]" % (b.ref.name, show(i))
                self.tables[b.ref.name](self, i, st, s)
                return sym(s)
            a, es = self.address(n, st)
            if a is None:
                return self.unknown(n, st)
            if self.emitting and b.kind == "MemberExpr" and self.p.owner(b) in self.loads and self.block(a, st) is not None \
                    and strip(n.kids[1]).kind == "DeclRefExpr":
                self.oblige(n, "load " + self.label(n), a, lin(es), st)
            v = sym("mem%s[%s]" % (show(st.env["?mem"]) if "?mem" in st.env else "", show(a)))
            self.range(n, v, st)
            return v
        return self.unknown(n, st)

    def stored(self, n, st):
        """array elements and pointed-to values may have changed"""
        st.env["?mem"] = sym("m%s" % n.id[-8:])

    def unknown(self, n, st):
        v = sym("n%s" % n.id[-8:])
        return v

    def address(self, n, st):
        """(address, element size) of an lvalue reached through a pointer or array"""
        n = strip(n)
        if n.kind == "ArraySubscriptExpr":
            b = n.kids[0]
            es = self.elsize(b.ctype)
            if es == 0:
                return None, 0
            return add(self.ev(b, st), scale(self.ev(n.kids[1], st), es)), es
        if n.kind == "UnaryOperator" and n.op == "*":
            b = n.kids[0]
            es = self.elsize(b.ctype)
            if es == 0:
                return None, 0
            return self.ev(b, st), es
        if n.kind == "MemberExpr":
            b = strip(n.kids[0])
            if n.extra and n.extra.get("isArrow"):
                es = self.elsize(b.ctype)
                if es == 0:
                    return None, 0
                return self.ev(b, st), es
            return self.address(b, st)
        return None, 0

    def block(self, a, st):
        """the memory block an address lies in"""
        for s, v in a[1]:
            if v == 1 and s in st.sz:
                return s
        return None

    # ---------------------------------------------------------------- obligations
    def oblige(self, n, what, a, width, st, must=False):
        """[a, a+width) lies inside its block"""
        b = self.block(a, st)
        if b is None or (b.startswith("&") and not any(b.endswith("->" + x) or b.endswith("." + x) for _, x in self.arrays)):
            return                                # arrays of fixed size are decided elsewhere
        if not self.emitting:
            return
        off = sub(a, sym(b))
        room = sub(sub(st.sz[b], off), width)
        lo = lower(off, st.facts)
        hi = lower(room, st.facts)
        if hi < 0 and lower(scale(room, 2), st.facts) >= -1:
            hi = 0
        if lo < 0 and what.startswith("load"):
            lo = 0
        if lo < 0 <= hi:
            what += " below"
        kk = (self.stack[-1], self.p.loc(n), what)
        self.sites[kk] = self.sites.get(kk, True) and lo >= 0 and hi >= 0
        if lo < 0 or hi < 0:
            self.viol.setdefault(kk, "offset %s of a block of %s bytes%s" % (show(off), show(st.sz[b]), "" if lo >= 0 else " may be negative"))
        elif kk in self.viol:
            pass

    def obl(self, n, what, l, st):
        """l >= 0 here"""
        if not self.emitting:
            return
        kk = (self.stack[-1], self.p.loc(n), what)
        ok = lower(l, st.facts) >= 0
        self.sites[kk] = self.sites.get(kk, True) and ok
        if not ok:
            self.viol.setdefault(kk, "%s >= 0 is not established" % show(l))

    def entry_access(self, n, st):
        """reading n, a member of an entry of a block: the entry lies inside it"""
        b = strip(n.kids[0])
        if n.extra and n.extra.get("isArrow"):
            a = self.ev(b, st)
            es = self.elsize(b.ctype)
        else:
            a, es = self.address(b, st)
        if a is not None and es:
            self.oblige(n, "access " + self.label(n), a, lin(es), st)

    def store(self, n, lv, st):
        if strip(lv).kind in ("ArraySubscriptExpr",) or (strip(lv).kind == "UnaryOperator" and strip(lv).op == "*") or strip(lv).kind == "MemberExpr":
            x = strip(lv)
            if x.kind == "MemberExpr" and self.key(x) is not None and self.p.owner(x) in self.relevant:
                return
            a, es = self.address(x, st)
            if a is None:
                return
            b = self.block(a, st)
            if b is not None and b.startswith("&") and x.kind == "MemberExpr" and not self.arrays:
                return
            if any(q.startswith("mem") or q.startswith("(mem") for q, _ in a[1] if q != b):
                return                            # the place depends on a value looked up in memory: not a linear fact
            y = strip(x.kids[0])
            if y.kind == "MemberExpr" and self.p.owner(y) not in self.fams and self.p.owner(y)[0] == self.final_owner:
                return                            # arrays of final size filled by counting
            self.oblige(n, "store " + self.label(x), a, lin(es), st)

    def label(self, n):
        import re
        n = strip(n)
        b = n
        while b.kind in ("MemberExpr",) and not (b.extra and b.extra.get("isArrow")) and strip(b.kids[0]).kind != "DeclRefExpr":
            b = strip(b.kids[0])
        if b.kind == "ArraySubscriptExpr":
            b = strip(b.kids[0])
        if b.kind == "UnaryOperator" and b.op == "*":
            b = strip(b.kids[0])
            while b.kind == "UnaryOperator" or (b.kind == "BinaryOperator"):
                b = strip(b.kids[0])
        k = key(b) or b.kind
        return re.sub(r"'[0-9a-f]{6}", "", k)

    # ---------------------------------------------------------------- strings
    def strlen(self, e, st):
        """length of the text e points to"""
        e = strip(e)
        c = e
        if c.kind == "StringLiteral":
            from strs import unquote
            return lin(len(unquote(c.val)))
        v = self.ev(e, st)
        k = "len:" + show(v)
        if k in st.env:
            return st.env[k]
        # known block content plus constant offset
        s = sym("len(%s)" % show(v))
        st.fact(s)
        return s

    # ---------------------------------------------------------------- transfer
    def assign(self, n, lv, val, st):
        l = strip(lv)
        k = self.key(l)
        r = strip(n.kids[1]) if n.op == "=" and len(n.kids) > 1 else None
        if r is not None and k is not None and self.elsize(n.kids[0].ctype) == 0 and self.fields_of(n.kids[0].ctype):
            kr = self.key(r)
            if kr is not None:
                flds = self.fields_of(n.kids[0].ctype)
                src = self.memberbase(kr, r)
                dst = self.memberbase(k, l)
                rec = flds[0]
                vals = dict((x, st.env[src + x]) for x in flds[1] if src + x in st.env)
                for x in flds[1]:
                    if dst + x not in st.env and (rec, x) in self.relevant:
                        self.load_field((rec, x), dst, st)
                self.kill(st, k)
                for x, v in vals.items():
                    st.env[dst + x] = v
                if any((rec, x) in self.relevant for x in vals):
                    st.env["inv:" + dst] = (1, ())
                return
        self.store(n, l, st)
        if l.kind == "ArraySubscriptExpr" or (l.kind == "UnaryOperator" and l.op == "*"):
            self.stored(n, st)
            return
        if k is None:
            return
        if l.kind == "MemberExpr":
            o = self.p.owner(l)
            # other names of the same field
            for x in list(st.env):
                if x != k and (x.endswith("->" + l.name) or x.endswith("." + l.name)):
                    bx = x[:len(x) - len(l.name)]
                    if bx.rstrip(".->") != k[:len(k) - len(l.name)].rstrip(".->") and not self.distinct(bx, k[:len(k) - len(l.name)]):
                        del st.env[x]
            if o in self.relevant:
                base = k[:len(k) - len(l.name)]
                self.load_field(o, base, st)        # entry value and invariants first
                if o in self.derived:
                    self.load_field(self.derived[o], base, st)
        self.kill(st, k)
        st.env[k] = val

    def memberbase(self, k, n):
        if n.kind == "UnaryOperator" and n.op == "*" and k.startswith("*"):
            return k[1:] + "->"
        return k + "."

    def fields_of(self, t):
        t = (t or "").replace("const ", "").strip()
        for pre in ("struct ", "union "):
            if t.startswith(pre):
                t = t[len(pre):]
        r = self.p.records.get(t)
        return (t, [x[1] for x in r]) if r else None

    def distinct(self, a, b):
        a, b = a.rstrip(".->"), b.rstrip(".->")
        return ("'" not in a) != ("'" not in b) and False

    def elem(self, n, st):
        k = n.kind
        if k == "VarDecl":
            kk = key(_Ref(n))
            self.kill(st, kk)
            ini = [x for x in n.kids if x is not None]
            if n.extra and n.extra.get("storageClass") in ("static", "extern"):
                return [st]
            if ini and not (n.ctype or "").endswith("]"):
                st.env[kk] = self.ev(ini[-1], st)
            else:
                st.env.pop(kk, None)
                st.env[kk] = self.fresh(st, "u%s" % n.id[-8:])
                self.range(n, st.env[kk], st)
            return [st]
        if is_assign(n):
            l = strip(n.kids[0])
            if n.op == "=":
                v = self.ev(n.kids[1], st)
            elif n.op in ("+=", "-="):
                es = self.elsize(l.ctype) or 1
                v = add(self.ev(l, st), scale(self.ev(n.kids[1], st), es), 1 if n.op == "+=" else -1)
            else:
                v = self.fresh(st, "n%s" % n.id[-8:])
            self.assign(n, l, v, st)
            st.env["#%s" % n.id] = v
            return [st]
        if k == "UnaryOperator" and n.op in ("++", "--"):
            l = strip(n.kids[0])
            es = self.elsize(l.ctype) or 1
            old = self.ev(l, st)
            new = plus(old, es if n.op == "++" else -es)
            post = bool(n.extra and n.extra.get("isPostfix"))
            self.assign(n, l, new, st)
            st.env["#%s" % n.id] = old if post else new
            return [st]
        if k == "ConditionalOperator":
            a, b = strip(n.kids[1]), strip(n.kids[2])
            ta, tb = self.tmp(a, st), self.tmp(b, st)
            d = st.env.pop("?%s" % n.id, None)
            if d is not None:
                v = self.ev(n.kids[1 if d[0] else 2], st)
            elif ta is not None and tb is None:
                v = ta
            elif tb is not None and ta is None:
                v = tb
            else:
                va, vb = self.ev(a, st), self.ev(b, st)
                v = va if va == vb else self.fresh(st, "n%s" % n.id[-8:])
            for x in (a, b):
                st.env.pop("#%s" % x.id, None)
            st.env["#%s" % n.id] = v
            return [st]
        if k == "CallExpr":
            return self.call(n, st)
        if k == "ReturnStmt":
            x = strip(n.kids[0]) if n.kids and n.kids[0] is not None else None
            if x is not None and self.callhook and (x.kind == "BinaryOperator" and x.op in ("<", ">", "<=", ">=", "==", "!=") or x.kind == "UnaryOperator" and x.op == "!"):
                res = []
                for truth in (True, False):
                    for r in self.branch(x, truth, st):
                        r.env["#ret"] = lin(1 if truth else 0)
                        res.append(r)
                return res
            st.env["#ret"] = self.ev(n.kids[0], st) if n.kids and n.kids[0] is not None else lin(0)
            return [st]
        if k in ("ArraySubscriptExpr", "UnaryOperator", "BinaryOperator"):
            v = "n%s" % n.id[-8:]
            if k == "ArraySubscriptExpr" or (k == "UnaryOperator" and n.op == "*") or (k == "BinaryOperator" and n.op not in ("+", "-", "&&", "||", ",", "<", ">", "<=", ">=", "==", "!=")):
                self.drop(st, v)
                self.range(n, sym(v), st)
                if k == "BinaryOperator" and n.op == "&":
                    for x in n.kids:
                        c = const_int(x)
                        if c is not None and c >= 0:
                            st.fact(sym(v))
                            st.fact(plus(sym(v, -1), c))
                        elif c is None:
                            m = self.ev(x, st)
                            if m != sym(v) and lower(m, st.facts) >= 0:
                                st.fact(sym(v))
                                st.fact(sub(m, sym(v)))
                if k == "BinaryOperator" and n.op == "%":
                    c = const_int(n.kids[1])
                    if c and lower(self.ev(n.kids[0], st), st.facts) >= 0:
                        st.fact(sym(v))
                        st.fact(plus(sym(v, -1), abs(c) - 1))
        return [st]

    def newblock(self, n, size, st):
        b = "B%s" % n.id[-8:]
        self.drop(st, b)
        st.sz.pop(b, None)
        st.sz[b] = size
        return sym(b)

    def call(self, n, st):
        nm = callee(n)
        a = args(n)
        me = "#%s" % n.id
        if self.oncall:
            self.oncall(self, n, nm, st)
        if nm in ("malloc", "calloc", "realloc"):
            if nm == "malloc":
                size = self.ev(a[0], st)
            elif nm == "realloc":
                size = self.ev(a[1], st)
            else:
                x, y = self.ev(a[0], st), self.ev(a[1], st)
                size = scale(y, x[0]) if not x[1] else scale(x, y[0]) if not y[1] else sym("(%s)*(%s)" % tuple(sorted((show(x), show(y)))))
            st.env[me] = self.newblock(n, size, st)
            return [st]
        if nm in self.alloc:
            st.env[me] = self.newblock(n, self.ev(a[self.alloc[nm]], st), st)
            return [st]
        if nm in ("strlen", "lemonStrlen"):
            st.env[me] = self.strlen(a[0], st)
            return [st]
        if nm in ("strchr", "strrchr"):
            # when found, a place inside the text
            ln = self.strlen(a[0], st)
            off = self.fresh(st, "n%s.off" % n.id[-8:])
            st.fact(off)
            st.fact(plus(sub(ln, off), -1))
            st.env[me] = add(self.ev(a[0], st), off)
            return [st]
        if nm in ("strcpy", "lemon_strcpy"):
            ln = self.strlen(a[1], st)
            d = self.ev(a[0], st)
            self.oblige(n, "strcpy " + self.label(a[0]), d, plus(ln, 1), st)
            self.settext(d, ln, st)
            st.env[me] = d
            return [st]
        if nm in ("strcat", "lemon_strcat"):
            d = self.ev(a[0], st)
            l0 = self.strlen(a[0], st)
            ln = add(l0, self.strlen(a[1], st))
            self.oblige(n, "strcat " + self.label(a[0]), d, plus(ln, 1), st)
            self.settext(d, ln, st)
            st.env[me] = d
            return [st]
        if nm in ("memcpy", "memmove", "strncpy", "memset"):
            d = self.ev(a[0], st)
            w = self.ev(a[2], st)
            self.oblige(n, "%s %s" % (nm, self.label(a[0])), d, w, st)
            st.env[me] = d
            return [st]
        if nm in ("fread",):
            d = self.ev(a[0], st)
            x, y = self.ev(a[1], st), self.ev(a[2], st)
            w = scale(y, x[0]) if not x[1] else scale(x, y[0]) if not y[1] else sym("(%s)*(%s)" % tuple(sorted((show(x), show(y)))))
            self.oblige(n, "fread " + self.label(a[0]), d, w, st)
            r = self.fresh(st, "n%s" % n.id[-8:])
            st.fact(r)
            st.fact(sub(y, r))
            st.env[me] = r
            return [st]
        if nm in ("snprintf", "vsnprintf", "fgets"):
            d = self.ev(a[0], st)
            self.oblige(n, "%s %s" % (nm, self.label(a[0])), d, self.ev(a[1], st), st)
            st.env[me] = self.fresh(st, "n%s" % n.id[-8:])
            return [st]
        if nm in ("sprintf", "lemon_sprintf"):
            d = self.ev(a[0], st)
            w = self.fmt(a[1], a[2:], st)
            if w is not None:
                self.oblige(n, "sprintf " + self.label(a[0]), d, plus(w, 1), st)
            st.env[me] = self.fresh(st, "n%s" % n.id[-8:])
            st.fact(st.env[me])
            if w is not None:
                st.fact(sub(w, st.env[me]))
            self.settext(d, st.env[me], st)
            return [st]
        if self.callhook and nm in self.p.functions:
            r = self.callhook(self, n, nm, st)
            if r is not None:
                return r
        if nm in self.p.functions and self.depth < 4 and self.inline(nm) and nm not in self.stack:
            return self.inlined(n, nm, st)
        self.havoc(n, nm, st)
        r = self.fresh(st, "n%s" % n.id[-8:])
        self.range(n, r, st)
        st.env[me] = r
        return [st]

    def settext(self, d, ln, st):
        for k in [k for k in st.env if k.startswith("len:")]:
            del st.env[k]
        st.env["len:" + show(d)] = ln

    def fmt(self, f, rest, st):
        """length of formatted text: literal parts plus the lengths of %s arguments"""
        import strs
        f = strip(f)
        if f.kind != "StringLiteral":
            return None
        from bounds import strs_items
        tot = lin(0)
        for it in strs_items(strs.unquote(f.val), rest):
            if len(it) == 1:
                tot = plus(tot, len(it[0]))
                continue
            conv, width, wn, prec, pn, arg = it
            if conv == "s" and arg is not None and not prec and not width:
                tot = add(tot, self.strlen(arg, st))
            elif conv == "s" and prec == "*" and not width:
                tot = add(tot, self.ev(pn, st))
            elif conv in "di" and not width:
                tot = plus(tot, 11)
            elif conv == "c":
                tot = plus(tot, 1)
            elif conv == "%":
                tot = plus(tot, 1)
            else:
                return None
        return tot

    def havoc(self, n, nm, st):
        """forget what the callee may change"""
        if nm is not None and nm in self.p.functions:
            if self.fx is not None:
                w = self.fx.writes(nm) if callable(getattr(self.fx, "writes", None)) else self.fx.writes[nm]
            else:
                w = None
            self.check_invariants(n, st, w)
            names = set(x[1] for x in w if x[0] in ("F",)) if w is not None else None
            glob = set(x[1] for x in w if x[0] == "G") if w is not None else None
            if w is None or any(x[0] not in ("F", "G", "R") for x in w):
                self.stored(n, st)
        elif nm is None:
            names, glob = None, None
            self.check_invariants(n, st, None)
            self.stored(n, st)
        else:
            names, glob = set(), set()
            if nm not in PURE:
                self.stored(n, st)
        # locals whose address is passed
        for a in args(n):
            a = strip(a)
            if a is not None and a.kind == "UnaryOperator" and a.op == "&":
                k = self.key(a.kids[0])
                if k:
                    self.kill(st, k)
                    st.env[k] = self.fresh(st, "h%s:%s" % (n.id[-8:], k))
        bases = set()
        for x in list(st.env):
            if x.startswith(("#", "?", "len:", "inv:")):
                continue
            i = max(x.rfind("->"), x.rfind("."))
            if i >= 0:
                f = x[i + (2 if x[i] == "-" else 1):]
                if names is None or f in names:
                    base = x[:len(x) - len(f)]
                    del st.env[x]
                    bases.add((base, f))
            elif "'" not in x and (glob is None or x in glob):
                del st.env[x]
                st.env[x] = self.fresh(st, "h%s:%s" % (n.id[-8:], x))
        for base in set(b for b, _ in bases):
            self.rehavoc(n, base, set(f for b, f in bases if b == base), st)

    def rehavoc(self, n, base, fields, st):
        """new values after a call for one object, with the invariants they satisfy"""
        rec = None
        for (o, f) in self.relevant:
            if f in fields:
                rec = o
        tag = "h%s:" % n.id[-8:]
        if rec is not None:
            # blocks whose size changed come with a new base
            fields = set(fields)
            grow = True
            while grow:
                grow = False
                for (o, p), d in self.fams.items():
                    fam = set([p]) | set(d["size"][1]) | set(x for (oo, x), b in self.derived.items() if b == (o, p))
                    if o == rec and fields & fam and not fam <= fields:
                        fields |= fam
                        grow = True
        newv = {}
        order = sorted(fields, key=lambda f: ((rec, f) in self.derived, f))
        for f in order:
            o = (rec, f)
            if o in self.fams:
                newv[f] = self.fresh(st, tag + base + f)
            elif o in self.derived:
                b = newv.get(self.derived[o][1])
                if b is None:
                    b = self.load_field(self.derived[o], base, st)
                newv[f] = add(b, self.fresh(st, tag + base + f + ".off"))
            else:
                newv[f] = self.fresh(st, tag + base + f)
        for f, v in newv.items():
            st.env[base + f] = v
        if rec is None:
            return
        for (o, p), d in self.fams.items():
            if o == rec and p in newv:
                st.sz[newv[p][1][0][0]] = self.famsize((o, p), base, st)
        for o, d, c in self.invs:
            if o != rec or not any(f in newv for f in d):
                continue
            l = lin(c)
            for x, m in d.items():
                l = add(l, scale(self.fieldval((o, x), base, st), m))
            st.fact(l)

    def check_invariants(self, n, st, w, exit=False):
        if not self.emitting:
            return
        bases = {}
        for x in st.env:
            if x.startswith("inv:"):
                b = x[4:]
                if not exit:
                    o = st.env.get(b[:-2]) if b.endswith("->") else None
                    if o is not None and self.block(o, st) is not None and self.block(o, st).startswith("B"):
                        continue                # an object still being made
                bases[b] = 1
        for base in bases:
            for o, d, c in self.invs:
                if not any(base + f in st.env for f in d):
                    continue
                if not self.rec_of(base, o):
                    continue
                l = lin(c)
                ch = False
                if any((o, f) in self.derived and st.env.get(base + self.derived[(o, f)][1]) == lin(0) for f in d):
                    continue                    # no block any more
                for f, m in d.items():
                    v = self.fieldval((o, f), base, st)
                    if v != sym("@" + base + f + (".off" if (o, f) in self.derived else "")):
                        ch = True
                    l = add(l, scale(v, m))
                if not ch:
                    continue
                kk = (self.stack[-1], self.p.loc(n), "invariant %s" % "/".join(sorted(d)))
                ok = lower(l, st.facts) >= 0
                self.sites[kk] = self.sites.get(kk, True) and ok
                if not ok:
                    self.viol.setdefault(kk, "%s >= 0 is not established" % show(l))
            for (o, p), d in self.fams.items():
                if not self.rec_of(base, o) or base + p not in st.env:
                    continue
                v = st.env[base + p]
                if v == lin(0):
                    continue
                b = self.block(v, st)
                if b == "@" + base + p and all(self.fieldval((o, f), base, st) == sym("@" + base + f + (".off" if (o, f) in self.derived else "")) for f in d["size"][1]):
                    continue
                kk = (self.stack[-1], self.p.loc(n), "size of %s" % p)
                if b is None:
                    ok = False
                    l = v
                else:
                    l = sub(sub(st.sz[b], sub(v, sym(b))), self.famsize((o, p), base, st))
                    ok = lower(l, st.facts) >= 0
                self.sites[kk] = self.sites.get(kk, True) and ok
                if not ok:
                    self.viol.setdefault(kk, "the block of %s may be smaller than recorded: %s" % (p, show(l)))

    def rec_of(self, base, o):
        r = self.baserec.get(base)
        return r is None or r == o

    # ---------------------------------------------------------------- inlining
    def inlined(self, n, nm, st):
        d = self.p.functions[nm]
        params = [k for k in d.kids if k is not None and k.kind == "ParmVarDecl"]
        al = dict(self.al)
        asg, addr = self.alias(nm)
        for q, a in zip(params, args(n)):
            k = self.key(a)
            v = self.ev(a, st)
            pk = key(_Ref(q))
            self.kill(st, pk)
            if k is not None and q.id not in asg and ("*" in (q.ctype or "")) and not self.elsize_rec_is_elem(q.ctype):
                al[q.id] = k
            else:
                al.pop(q.id, None)
                st.env[pk] = v
        save = (self.al, self.depth, self.stack)
        self.al, self.depth, self.stack = al, self.depth + 1, self.stack + (nm,)
        outs = self.body(nm, [st])
        self.al, self.depth, self.stack = save
        res = []
        for o in outs:
            r = o.env.pop("#ret", None)
            o.env["#%s" % n.id] = r if r is not None else lin(0)
            res.append(o)
        return self.squeeze(res, "c%s" % n.id[-8:])

    def elsize_rec_is_elem(self, t):
        return False

    def squeeze(self, states, tag):
        u = []
        seen = set()
        for s in states:
            g = s.sig()
            if g not in seen:
                seen.add(g)
                u.append(s)
        if len(u) > K:
            return [self.merge(u, tag)]
        return u

    # ---------------------------------------------------------------- branches
    def branch(self, c, truth, st):
        c = strip(c)
        st = st.copy()
        if c.kind == "BinaryOperator" and c.op in ("==", "!=") and any("*" in (x.ctype or "") for x in c.kids):
            for x, y in ((c.kids[0], c.kids[1]), (c.kids[1], c.kids[0])):
                if cfg.is_null(y):
                    return self.branch(x, truth == (c.op == "!="), st)
        if c.kind == "UnaryOperator" and c.op == "!":
            return self.branch(c.kids[0], not truth, st)
        if c.kind == "BinaryOperator" and c.op in ("<", ">", "<=", ">=", "==", "!="):
            a, b = c.kids[0], c.kids[1]
            va, vb = self.ev(a, st), self.ev(b, st)
            op = c.op
            if not truth:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
            unit = max(self.elsize(a.ctype), 1) if self.elsize(a.ctype) and self.elsize(b.ctype) else 1
            ok = True
            if op == "<":
                ok = self.learn(st, plus(sub(vb, va), -unit))
            elif op == ">":
                ok = self.learn(st, plus(sub(va, vb), -unit))
            elif op == "<=":
                ok = self.learn(st, sub(vb, va))
            elif op == ">=":
                ok = self.learn(st, sub(va, vb))
            elif op == "==":
                ok = self.learn(st, sub(va, vb)) and self.learn(st, sub(vb, va))
            else:
                d = sub(va, vb)
                lo = lower(d, st.facts)
                hi = lower(scale(d, -1), st.facts)
                if lo == 0 and hi == 0 or (not d[1] and d[0] == 0):
                    ok = False
                elif lo >= 0:
                    ok = self.learn(st, plus(d, -unit))
                elif hi >= 0:
                    ok = self.learn(st, plus(scale(d, -1), -unit))
            return [st] if ok else []
        # truth of a value
        v = self.ev(c, st)
        if not v[1]:
            return [st] if bool(v[0]) == truth else []
        if not truth and "*" in (c.ctype or ""):
            b = self.block(v, st)
            if b is not None and c.kind == "MemberExpr" and self.p.owner(c) in self.derived and self.nonnull_derived:
                return []                         # its invariant places it inside a block
            # the pointer is null on this way
            x = c
            while x.kind == "BinaryOperator" and x.op == "=":
                k = self.key(strip(x.kids[0]))
                if k is not None and st.env.get(k) == v:
                    st.env[k] = lin(0)
                x = strip(x.kids[1])
            k = self.key(x) if x.kind in ("DeclRefExpr", "MemberExpr") else None
            if k is not None and st.env.get(k) == v:
                st.env[k] = lin(0)
            return [st]
        if not truth:
            if self.block(v, st) is None or "*" not in (c.ctype or ""):
                ok = self.learn(st, v) and self.learn(st, scale(v, -1))
                return [st] if ok else []
            return [st]
        if "*" not in (c.ctype or ""):
            lo = lower(v, st.facts)
            if lo >= 0:
                self.learn(st, plus(v, -1))
        elif self.block(v, st) is None:
            st.fact(plus(v, -1))
        return [st]

    def learn(self, st, l):
        if not l[1]:
            return l[0] >= 0
        neg = plus(scale(l, -1), -1)       # -l-1 >= 0 means l < 0
        if lower(neg, st.facts, 3) >= 0:
            return False
        st.fact(l)
        return True

    # ---------------------------------------------------------------- joins
    def merge(self, states, tag, prev=None, rnd=0):
        """one state that covers all; differing values get names of this place; facts about them are the best common bounds"""
        if len(states) == 1 and prev is None:
            return states[0]
        # fields first looked at on one path have their entry value on the others
        allk = set().union(*[set(s.env) for s in states])
        bs = [x[4:] for x in sorted(allk) if x.startswith("inv:") and (all(x in s.env for s in states) or self.lateload and (
            x.endswith("->") and x[4:-2].replace("'", "_").isidentifier() and len(set(s.env.get(x[4:-2]) for s in states)) == 1))]
        for base in bs:
            for (o, f) in self.relevant:
                k = base + f
                if k in allk and self.rec_of(base, o):
                    for s in states:
                        if k not in s.env:
                            self.load_field((o, f), base, s)
        keys = set(states[0].env)
        for s in states[1:]:
            keys &= set(s.env)
        env, phis = {}, []
        if len(set(s.env.get("?mem") for s in states)) > 1 or prev is not None:
            env["?mem"] = sym("mj" + tag)
        keys.discard("?mem")
        for k in sorted(keys):
            vs = set(s.env[k] for s in states)
            if k.startswith("#") and len(vs) > 1:
                continue
            if len(vs) == 1 and not (prev is not None and k in prev.get("phi", ())):
                env[k] = states[0].env[k]
            else:
                phis.append(k)
        m = []
        # blocks: keep a common block with a named offset, otherwise a new block of the least common size
        sz = {}
        names = {}
        NUL = lin(0)
        ptrs = set(p for o, p in self.fams) | set(x for o, x in self.derived)
        for k in phis:
            bs = [self.block(s.env[k], s) for s in states]
            isnul = [b is None and s.env[k] == NUL for b, s in zip(bs, states)]
            if any(isnul) and any(b is not None for b in bs) and all(b is not None or z for b, z in zip(bs, isnul)):
                names[k] = ("blk", bs)              # a null pointer constrains nothing
            elif None not in bs and len(set(bs)) == 1:
                names[k] = ("off", bs[0])
            elif None not in bs:
                names[k] = ("blk", bs)
            else:
                names[k] = ("num", None)
        def nm(k):
            return "j%s:%s" % (tag, k)
        maps = [dict() for _ in states]     # new symbol -> value in the state
        der = {}
        for (o, x), (o2, b) in self.derived.items():
            for k in phis:
                if k.endswith(x) and k[-len(x) - 1:-len(x)] in (".", ">"):
                    bk = k[:len(k) - len(x)] + b
                    if bk in keys:
                        der[k] = bk
        for k in sorted(phis, key=lambda k: (k in der, k)):
            kind, b = names[k]
            s = nm(k)
            if k in der and kind != "num":
                # a position inside the block of another field
                env[k] = add(env[der[k]], sym(s + ".off"))
                for i, stt in enumerate(states):
                    maps[i][s + ".off"] = sub(stt.env[k], stt.env[der[k]]) if stt.env[k] != NUL else None
            elif kind == "off":
                env[k] = add(sym(b), sym(s + ".off"))
                for i, stt in enumerate(states):
                    maps[i][s + ".off"] = sub(stt.env[k], sym(b))
            elif kind == "blk":
                env[k] = add(sym(s + ".blk"), sym(s + ".off"))
                for i, stt in enumerate(states):
                    if b[i] is None:
                        maps[i][s + ".off"] = maps[i][s + ".blk"] = maps[i][s + ".sz"] = None
                        continue
                    maps[i][s + ".off"] = sub(stt.env[k], sym(b[i]))
                    maps[i][s + ".blk"] = sym(b[i])
                sz[s + ".blk"] = sym(s + ".sz")
                for i, stt in enumerate(states):
                    if b[i] is not None:
                        maps[i][s + ".sz"] = stt.sz[b[i]]
            else:
                env[k] = sym(s)
                for i, stt in enumerate(states):
                    maps[i][s] = stt.env[k]
        # equal blocks with different recorded size keep it only when the size is the same
        common = set(states[0].sz)
        for s in states[1:]:
            common &= set(s.sz)
        for b in common:
            vs = set(s.sz[b] for s in states)
            if len(vs) == 1:
                sz.setdefault(b, states[0].sz[b])
            elif self.fams and b not in sz and b.startswith("B"):
                s = nm(b) + ".sz"
                sz[b] = sym(s)
                for i, stt in enumerate(states):
                    maps[i][s] = stt.sz[b]
        syms = sorted(set().union(*[set(x) for x in maps])) if maps else []
        num = [s for s in syms if not s.endswith(".blk")]
        # candidate facts
        cand = set()
        for s in num:
            cand.add(((s, 1),))
            cand.add(((s, -1),))
        for i, s in enumerate(num):
            for t in num[i + 1:] if self.pairs else ():
                cand.add(tuple(sorted(((s, 1), (t, -1)))))
                cand.add(tuple(sorted(((s, -1), (t, 1)))))
        others = set()
        for k, v in env.items():
            if not k.startswith(("#", "?", "inv:")) and len(v[1]) == 1:
                others.add(v[1][0][0])
        for b, v in sz.items():
            for q, _ in v[1]:
                others.add(q)
        for stt in states:
            for f in stt.facts:
                if len(f[1]) <= 4:
                    for q, _ in f[1]:
                        others.add(q)
        others -= set(num)
        live = set()
        for v in list(env.values()) + list(sz.values()):
            for q, _ in v[1]:
                live.add(q)
        others = set(o for o in others if o in live)
        for s in num:
            for t in others if self.pairs else ():
                cand.add(tuple(sorted(((s, 1), (t, -1)))))
                cand.add(tuple(sorted(((s, -1), (t, 1)))))
        # facts of each state rewritten over the new names
        for i, stt in enumerate(states):
            inv = {}
            for s in num:
                v = maps[i][s]
                if v is None:
                    continue
                if len(v[1]) == 1 and abs(v[1][0][1]) == 1:
                    inv.setdefault(v[1][0][0], []).append((s, v))
            for f in stt.facts:
                cand.add(f[1])
                if len(f[1]) > 4:
                    continue
                # every symbol may be replaced by each name standing for it
                forms = [f]
                for q, c in f[1]:
                    nf = []
                    for g in forms:
                        nf.append(g)
                        for s, v in inv.get(q, ())[:3]:
                            # q = (sym(s) - const) / coef
                            co = v[1][0][1]
                            expr = scale(plus(sym(s), -v[0]), co)
                            nf.append(subst(g, {q: expr}))
                    forms = nf[:24]
                for g in forms:
                    if g[1]:
                        cand.add(g[1])
        # sizes in terms of the values they were computed from
        for s in num:
            if not s.endswith(".sz"):
                continue
            for i, stt in enumerate(states):
                v = maps[i][s]
                if v is None or len(v[1]) > 3:
                    continue
                inv = {}
                for x in num:
                    y = maps[i][x]
                    if y is not None and x != s and len(y[1]) == 1 and abs(y[1][0][1]) == 1:
                        inv.setdefault(y[1][0][0], []).append(subst((0, ((x, y[1][0][1]),)), {}))
                forms = [v]
                for q, c in v[1]:
                    forms = [h for g in forms for h in [g] + [subst(g, {q: z}) for z in inv.get(q, ())[:3]]][:12]
                for g in forms:
                    t = sub(sym(s), g)
                    if t[1]:
                        cand.add(t[1])
                        cand.add(scale(t, -1)[1])
        if self.extra:
            cand |= set(self.extra(env, states))
        # recorded sizes of the merged blocks
        tmp = State(env, frozenset(), sz)
        for (o, p), d in self.fams.items():
            for k in list(env):
                if not k.endswith(p) or k[:1] in "#?" or not (k == p or k[-len(p) - 1] in ".>"):
                    continue
                base = k[:len(k) - len(p)]
                b = self.block(env[k], tmp)
                if b is None or not all(base + x in env for x in d["size"][1]):
                    continue
                if not self.rec_of(base, o):
                    continue
                t = sub(sub(sz[b], sub(env[k], sym(b))), self.famsize((o, p), base, tmp))
                if t[1]:
                    cand.add(t[1])
        if prev is not None:
            # once a bound is dropped or fixed at a loop head, only those are considered
            if prev.get("cand") is not None and rnd >= 3:
                cand = set(t for t in cand if t in prev["cand"]) | set(prev["cand"])
        facts = {}
        if self.budget and WORK[0] > self.budget:
            raise TooLong("%s: more than %d steps" % (self.fname, self.budget))
        for t in cand:
            lo = None
            for i, stt in enumerate(states):
                if any(maps[i].get(q, 0) is None for q, _ in t):
                    continue
                l = subst((0, t), maps[i])
                x = lower(l, stt.facts, 4)
                lo = x if lo is None else min(lo, x)
                if lo == NINF:
                    break
            if lo is None or lo == NINF:
                continue
            if prev is not None and rnd >= 2 and prev.get("cand") is not None:
                old = prev["cand"].get(t)
                if old is not None and lo > old:
                    lo = old
                if old is not None and lo < old:
                    # a bound that keeps falling: settle on a natural limit or give it up
                    lims = [x for x in (32, 16, 8, 4, 3, 2, 1, 0, -1, -2, -8) if x <= lo]
                    if not lims or rnd >= 9:
                        continue
                    lo = lims[0]
            facts[t] = lo
            if DBG and all(any(w in q for q, _ in t) for w in DBG):
                print("merge", tag, rnd, t, lo)
        res = State(env, frozenset(), sz)
        for t, lo in facts.items():
            res.fact((-lo, t))
        self.last_cand = facts
        return res

    # ---------------------------------------------------------------- functions
    def rpo(self, g):
        seen, out = set(), []

        def go(b):
            st = [(b, iter(b.succs()))]
            seen.add(b.id)
            while st:
                x, it = st[-1]
                for s in it:
                    if s.id not in seen:
                        seen.add(s.id)
                        st.append((s, iter(s.succs())))
                        break
                else:
                    out.append(x)
                    st.pop()
        go(g.entry)
        out.reverse()
        return out

    def body(self, f, states):
        g = self.p.cfg(f)
        order = self.rpo(g)
        pos = dict((b.id, i) for i, b in enumerate(order))
        heads = {}
        emit = self.emitting
        self.emitting = False
        asg, addr = self.alias(f)
        # names of locals that stand for another expression
        al = self.al
        for n in self.p.functions[f].walk():
            if n.kind == "VarDecl" and n.id not in asg and n.id not in addr and "*" in (n.ctype or "") and (n.ctype or "").count("*") == 1:
                ini = [x for x in n.kids if x is not None]
                if ini:
                    x = strip(ini[-1])
                    while x.kind == "CStyleCastExpr":
                        x = strip(x.kids[0])
                    if x.kind == "DeclRefExpr" and x.ref.kind == "ParmVarDecl" and x.ref.id not in asg:
                        al[n.id] = al.get(x.ref.id) or key(x)
        out = []
        back = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 24:
                raise AnalysisBroken("no fixpoint in %s" % f)
            inc = {}
            inc[g.entry.id] = list(states)
            newback = {}
            exits = []
            changed = False
            for b in order:
                ins = inc.get(b.id, [])
                ish = b.id in g.heads
                if ish:
                    allin = ins + back.get(b.id, [])
                    if not allin:
                        continue
                    h = heads.get(b.id)
                    prev = {"phi": h["phi"] if h else set(), "cand": h["cand"] if h else None}
                    # values that differ once stay named
                    keys = set(allin[0].env)
                    for s in allin[1:]:
                        keys &= set(s.env)
                    phi = set(prev["phi"])
                    for k in keys:
                        if len(set(s.env[k] for s in allin)) > 1:
                            phi.add(k)
                    prev["phi"] = phi
                    m = self.merge([x.copy() for x in allin], "%s.%d" % (f, b.id), prev, h["n"] if h else 0)
                    sg = m.sig()
                    if h is None or h["sig"] != sg:
                        changed = True
                    heads[b.id] = {"phi": phi, "cand": dict(self.last_cand), "n": (h["n"] if h else 0) + 1, "sig": sg}
                    cur = [m]
                else:
                    if not ins:
                        continue
                    cur = [x.copy() for x in self.squeeze(ins, "%s.%d" % (f, b.id))]
                outs = self.flow(g, b, cur)
                if b is g.exit:
                    exits.extend(outs)
                    continue
                for nb, s in outs:
                    if pos.get(nb.id, 0) <= pos[b.id]:
                        newback.setdefault(nb.id, []).append(s)
                    else:
                        inc.setdefault(nb.id, []).append(s)
            newback = dict((k, self.squeeze(v, "%s.b%d" % (f, k))) for k, v in newback.items())
            back = newback
            if not g.heads:
                if emit and not self.emitting:
                    self.emitting = True
                    continue_emit = True
                    if rounds == 1:
                        # run again with obligations on
                        inc = {}
                        continue
                out = exits
                break
            if not changed:
                if emit and not self.emitting:
                    self.emitting = True
                    continue
                out = exits
                break
        self.emitting = emit
        return out

    def flow(self, g, b, cur):
        for e in b.elems:
            nxt = []
            for s in cur:
                nxt.extend(self.elem(e, s))
            cur = nxt
        if b is g.exit:
            return cur
        t = b.term
        res = []
        if t is None or t[0] == "noreturn":
            return res
        for s in cur:
            if t[0] == "goto":
                res.append((t[1], s))
            elif t[0] == "branch":
                p = self.condparent(t[1])
                for truth, nb in ((True, t[2]), (False, t[3])):
                    for r in self.branch(t[1], truth, s):
                        if self.onbranch:
                            self.onbranch(self, t[1], truth, r)
                        if p is not None:
                            r.env["?%s" % p.id] = lin(1 if truth else 0)
                        res.append((nb, r))
            elif t[0] == "switch":
                vals = [v for v, _ in t[2]]
                x = self.ev(t[1], s)
                for v, nb in t[2]:
                    r = s.copy()
                    if v is not None and x[1]:
                        if not (self.learn(r, plus(x, -v)) and self.learn(r, plus(scale(x, -1), v))):
                            continue
                    elif v is not None and not x[1] and x[0] != v:
                        continue
                    res.append((nb, r))
                if not (not x[1] and x[0] in vals):
                    res.append((t[3], s.copy()))
        return res

    def condparent(self, c):
        """the ?: whose condition is exactly this expression"""
        p = c.parent
        x = c
        while p is not None and (p.kind in cfg.STRIP):
            x, p = p, p.parent
        if p is not None and p.kind == "ConditionalOperator" and strip(p.kids[0]) is strip(c):
            return p
        return None

    def function(self, f, setup=None):
        """analyse f from an arbitrary state that satisfies the invariants"""
        WORK[0] = 0
        self.fname = f
        self.al = {}
        self.stack = (f,)
        self.depth = 0
        self.baserec = {}
        for n in self.p.functions[f].walk():
            if n.kind == "MemberExpr":
                o = self.p.owner(n)
                if o[0]:
                    k = key(n)
                    if k:
                        self.baserec[k[:len(k) - len(n.name)]] = o[0]
        st = State()
        if setup:
            setup(self, st)
        self.emitting = True
        outs = self.body(f, [st])
        self.emitting = True
        ex = self.p.functions[f]
        for o in outs:
            self.check_invariants(ex, o, None, exit=True)
        return outs


class _Ref(object):
    """a declaration seen as a reference to itself"""
    kind = "DeclRefExpr"
    extra = None

    def __init__(self, d):
        self.ref = d
        self.kids = []
        self.ctype = d.ctype
        self.name = d.name
        self.id = d.id
        self.parent = d.parent
        self.op = None
        self.val = None
