"""Path-sensitive nullness: results that may be null are tested before they are used.

State: a frozenset of (key, 'N'|'P') facts plus boolean facts (key, 'T'|'F') about repeatedly tested conditions.
A possibly-null result splits the state; using a key known to be null is a violation.  Optional record fields split lazily,
at their first use or test.  Callee requirements (parameters dereferenced without a test) and callee results (may return
null) are summarised and applied at call sites."""
import re
from collections import namedtuple

import cfg
from cfg import strip, const_int, key, callee, args, is_assign, is_null, Engine, path_lines
from cast import AnalysisBroken

MAYNULL = {"malloc", "calloc", "realloc", "strdup", "fopen", "fdopen", "tmpfile", "getenv", "strchr", "strrchr", "strstr", "strpbrk",
           "freopen", "fgets", "memchr", "getline", "mkstemp_file", "bsearch", "popen", "opendir"}
ALLOC = {"malloc", "calloc", "realloc", "strdup"}
OPEN = {"fopen", "fdopen", "tmpfile", "freopen"}
# library arguments that must not be null
NEED = {"strlen": (0,), "strcpy": (0, 1), "strcat": (0, 1), "strcmp": (0, 1), "strncmp": (0, 1), "strncpy": (0, 1), "memcpy": (0, 1),
        "memset": (0,), "memmove": (0, 1), "fprintf": (0,), "fputs": (0, 1), "fputc": (1,), "putc": (1,), "fwrite": (0, 3), "fread": (0, 3),
        "fgets": (0, 2), "getc": (0,), "fgetc": (0,), "rewind": (0,), "fclose": (0,), "fseek": (0,), "ftell": (0,), "strchr": (0,),
        "strrchr": (0,), "strstr": (0, 1), "strdup": (0,), "sprintf": (0, 1), "atoi": (0,), "strtol": (0,), "qsort": (0,), "feof": (0,),
        "ferror": (0,), "fflush": (0,), "ungetc": (1,), "fopen": (0,), "access": (0,), "unlink": (0,), "vfprintf": (0,), "puts": (0,)}

NULLS = ("N", "P", "U", "V", "O", "n")
ISNULL = ("N", "U", "V", "O", "n")
Ctx = namedtuple("Ctx", "fn")


def kill(st, k):
    """forget everything that mentions key k"""
    return frozenset(f for f in st if not mentions(f[0], k))


def mentions(x, k):
    i = x.find(k)
    while i >= 0:
        b = x[i - 1] if i else ""
        e = x[i + len(k)] if i + len(k) < len(x) else ""
        if not (b.isalnum() or b == "_") and not (e.isalnum() or e == "_" or e == "'"):
            if not (b in (">", ".") and (k[0].isalpha() or k[0] == "_") and not k.startswith("->")):
                return True
        i = x.find(k, i + 1)
    return False


def optname(n):
    if n.kind == "ArraySubscriptExpr":
        return (strip(n.kids[0]).name or "") + "[]"
    return n.name


class Nullness(object):
    def __init__(self, prog, effects, optional=lambda node: False, maynull_calls=(), sources=MAYNULL, limit=20000):
        self.p, self.eff = prog, effects
        self.optional = optional          # MemberExpr/ArraySubscript node -> may the field be null
        self.sources = set(sources)
        self.extra = set(maynull_calls)   # program functions declared to return null
        self.limit = limit
        self.viol = {}
        self.uses = set()
        self.splits = set()
        self.returns = {}                 # fn -> subset of {'N','P'}
        self.need = {}                    # fn -> {param index: description}
        self.origin = {}
        self._rep = {}
        self.skipped = []
        self.implied = {}                 # flag field -> pointer field that is present whenever the flag is set
        self.leaves = {}                  # fn -> {(param index, path): origin}: a result left untested for the caller to test
        self.deferred = set()
        self.deep = set()                 # functions analysed with correlated conditions

    # ---- repeated conditions worth tracking
    def repeated(self, f):
        if f not in self.deep:
            return ()
        if f not in self._rep:
            cnt = {}
            g = self.p.cfg(f)
            for b in g.blocks:
                if b.term and b.term[0] == "branch":
                    for k in self.cond_keys(b.term[1]):
                        cnt[k] = cnt.get(k, 0) + 1
            self._rep[f] = set(k for k, c in cnt.items() if c > 1)
        return self._rep[f]

    def cond_keys(self, n):
        n = strip(n)
        if n.kind == "BinaryOperator" and n.op in ("==", "!=", "<", ">", "<=", ">="):
            k = key(n)
            return [k] if k else []
        k = key(n)
        return [k] if k and "*" not in (n.ctype or "") else []

    # ---- facts
    def get(self, st, k):
        """'P' non-null; null: 'U' a failed allocation or open not yet tested, 'V' the same once tested, 'O' an absent
        result not yet tested, 'N' otherwise, 'n' the null a local was initialised to"""
        for f in st:
            if f[0] == k and f[1] in NULLS:
                return f[1]
        return None

    def put(self, st, k, v):
        return frozenset([f for f in st if not (f[0] == k and f[1] in NULLS)] + [(k, v)])

    def vkey(self, n):
        n = strip(n)
        if n is None:
            return None
        if is_assign(n) and n.op == "=":
            return key(n.kids[0])
        return key(n)

    def value(self, n, st):
        """'N' | 'P' | None (unknown) for a pointer expression; literal nulls are N"""
        s = strip(n)
        if s is None:
            return None
        if is_null(s):
            return "n"
        if s.kind == "StringLiteral" or (s.kind == "UnaryOperator" and s.op == "&") or "[" in (s.ctype or "") and s.kind in ("DeclRefExpr", "MemberExpr"):
            return "P"
        if s.kind == "BinaryOperator" and s.op in ("+", "-"):
            return "P"
        if s.kind == "DeclRefExpr" and s.ref.kind == "FunctionDecl":
            return "P"
        if s.kind == "UnaryOperator" and s.op in ("++", "--"):
            return "P"
        k = self.vkey(n)
        return self.get(st, k) if k else None

    def isptr(self, n):
        return "*" in (n.ctype or "") and "[" not in (n.ctype or "")

    # ---- engine hooks
    def bad(self, node, k, c, what):
        kk = (self.p.loc(node), k)
        if kk not in self.viol:
            self.viol[kk] = (c.fn, what, node, path_lines(self.trace), self.origin.get((c.fn, k)))

    def use(self, ptr, node, st, c, what):
        """the pointer expression must be non-null here -> surviving states"""
        k = self.vkey(ptr)
        s = strip(ptr)
        v = self.value(ptr, st)
        if v == "n":
            return [self.put(st, k, "P")]      # a local initialised to null and set on a correlated path
        if v in ISNULL:
            self.bad(node, k or "null", c, what)
            return []
        if k is None:
            if s.kind == "CallExpr" and self.may_return_null(s, st):
                self.bad(node, callee(s) + "()", c, what)
            elif s.kind in ("MemberExpr", "ArraySubscriptExpr") and self.optional(s):
                self.bad(node, s.name or "element", c, what)
            return [st]
        self.uses.add((c.fn, self.p.loc(node), k))
        if v is None:
            if s.kind in ("MemberExpr", "ArraySubscriptExpr") and self.optional(s):
                self.splits.add((c.fn, k))
                self.bad(node, k, c, what)
                return [self.put(st, k, "P")]
            pi = self.params.get(c.fn, {}).get(k)
            if pi is not None and (k, "init") in st:
                self.need.setdefault(c.fn, {}).setdefault(pi, self.p.loc(node))
        return [st]

    def may_return_null(self, call, st=None):
        nm = callee(call)
        if nm in self.sources or nm in self.extra:
            return True
        rs = self.returns.get(nm, ())
        if "N" in rs or "U" in rs:
            return True
        a = args(call)
        for r in rs:
            if isinstance(r, tuple) and r[1] < len(a):
                s = strip(a[r[1]])
                if self.value(s, st or frozenset()) in ISNULL or (s.kind in ("MemberExpr", "ArraySubscriptExpr") and self.optional(s)):
                    return True
        return False

    def resource(self, call):
        nm = callee(call)
        return nm in ALLOC or nm in OPEN or "U" in self.returns.get(nm, ())

    def elem(self, n, st, c):
        k = n.kind
        if k == "MemberExpr" and n.extra and n.extra.get("isArrow"):
            return self.use(n.kids[0], n, st, c, "->" + (n.name or ""))
        if k == "UnaryOperator" and n.op == "*":
            return self.use(n.kids[0], n, st, c, "*")
        if k == "ArraySubscriptExpr":
            b = n.kids[0] if self.isptr(strip(n.kids[0])) or "[" in (strip(n.kids[0]).ctype or "") else n.kids[1]
            if "[" in (strip(b).ctype or ""):
                return [st]
            p = n.parent
            while p is not None and p.kind in cfg.STRIP:
                p = p.parent
            if p is not None and p.kind == "UnaryOperator" and p.op == "&":
                return [st]
            return self.use(b, n, st, c, "[]")
        if k == "CallExpr":
            return self.call(n, st, c)
        if k == "VarDecl":
            lk = "%s'%s" % (n.name, n.id[-6:])
            init = [x for x in n.kids if x is not None and x.kind.endswith(("Expr", "Operator", "Literal"))]
            if init and "[" not in (n.ctype or ""):
                return self.assign(lk, n.ctype, init[-1], st, c)
            return [kill(st, lk)]
        if k == "BinaryOperator" and n.op == "=":
            lk = key(n.kids[0])
            if lk is None:
                return [st]
            l = strip(n.kids[0])
            if l.kind == "MemberExpr" and l.name in self.implied and const_int(n.kids[1]) != 0:
                pk = lk[:-len(l.name)] + self.implied[l.name]
                if self.get(st, pk) != "P":
                    self.bad(n, pk, c, "%s is recorded as present" % self.implied[l.name])
            return self.assign(lk, n.kids[0].ctype, n.kids[1], st, c)
        if k == "CompoundAssignOperator" or (k == "UnaryOperator" and n.op in ("++", "--")):
            lk = key(n.kids[0])
            if lk is None:
                return [st]
            v = self.get(st, lk)
            st = kill(st, lk)
            if "*" in (n.kids[0].ctype or ""):
                st = self.put(st, lk, "P")
            return [st]
        if k == "ReturnStmt":
            if n.kids and n.kids[0] is not None and "*" in (n.kids[0].ctype or ""):
                self.ret(n.kids[0], st, c)
            return [st]
        return [st]

    def ret(self, e, st, c):
        s = strip(e)
        if s.kind == "ConditionalOperator":
            for i, x in enumerate(s.kids[1:]):
                if self.feasible(s.kids[0], i == 0, st, c):
                    self.ret(x, st, c)
            return
        v = self.value(e, st)
        r = self.returns.setdefault(c.fn, set())
        if v in ISNULL:
            v = "U" if v in ("U", "V") else "N"
            # null because an argument was null, or because nothing was asked for (a zero size)
            for k, i in self.params.get(c.fn, {}).items():
                if self.get(st, k) in ISNULL:
                    r.add(("if", i))
                    return
            if any((k, "F") in st for k in self.intparams.get(c.fn, ())):
                return
        if v:
            r.add(v)
        elif s.kind == "CallExpr" and self.may_return_null(s, st):
            r.add("U" if self.resource(s) else "N")
        elif s.kind in ("MemberExpr", "ArraySubscriptExpr") and self.optional(s):
            r.add("N")
        else:
            r.add("?")

    def assign(self, lk, ctype, rhs, st, c):
        s = strip(rhs)
        if "*" not in (ctype or "") or "(" in (ctype or "") and "(*)" not in ctype:
            st2 = kill(st, lk)
            v = const_int(rhs)
            if v is not None and lk in self.repeated(c.fn):
                st2 = frozenset(st2 | set([(lk, "T" if v else "F")]))
            return [st2]
        st2 = kill(st, lk)
        if s.kind == "ConditionalOperator":
            out = []
            for i, x in enumerate(s.kids[1:]):
                if not self.feasible(s.kids[0], i == 0, st, c):
                    continue
                for r in self.assign(lk, ctype, x, st, c):
                    if r not in out:
                        out.append(r)
            return out
        if s.kind == "CallExpr":
            if self.may_return_null(s, st):
                nm = callee(s)
                self.origin[(c.fn, lk)] = (nm, self.p.loc(s))
                self.splits.add((c.fn, lk))
                # a search in a text that provably contains the character is not tracked; everything else splits
                return [self.put(st2, lk, "U" if self.resource(s) else "O"), self.put(st2, lk, "P")]
            if callee(s) in self.p.functions and self.returns.get(callee(s)) and callee(s) not in self.extra:
                return [self.put(st2, lk, "P")]
            return [st2]
        v = self.value(rhs, st)
        rk = self.vkey(rhs)
        if v is None and s.kind in ("MemberExpr", "ArraySubscriptExpr") and self.optional(s):
            self.origin[(c.fn, lk)] = (rk, self.p.loc(s))
            self.splits.add((c.fn, lk))
            a, b = self.put(st2, lk, "N"), self.put(st2, lk, "P")
            if rk and not mentions(rk, lk):
                a, b = self.put(a, rk, "N"), self.put(b, rk, "P")
            return [a, b]
        if v is not None:
            if v in ISNULL and rk and (c.fn, rk) in self.origin:
                self.origin[(c.fn, lk)] = self.origin[(c.fn, rk)]
            if v == "n" and ("->" in lk or "." in lk):
                v = "N"
                self.origin[(c.fn, lk)] = ("NULL", self.p.loc(s))
            return [self.put(st2, lk, v)]
        return [st2]

    def call(self, n, st, c):
        nm = callee(n)
        a = args(n)
        cur = [st]
        need = NEED.get(nm)
        if need:
            for i in need:
                if i < len(a):
                    cur = [r for s in cur for r in self.use(a[i], n, s, c, "argument of " + nm)]
        if nm in ("fprintf", "printf", "sprintf", "snprintf") and a:
            cur = self.fmt(n, nm, a, cur, c)
        if nm in self.p.functions:
            for i, where in sorted(self.need.get(nm, {}).items()):
                if i < len(a):
                    cur = [r for s in cur for r in self.use(a[i], n, s, c, "passed to %s, which uses it at %s" % (nm, where))]
            w = self.eff.writes(nm)
            names = set("->" + r[1] for r in w if r[0] in ("F", "E")) | set("." + r[1] for r in w if r[0] in ("F", "E"))
            gl = set(r[1] for r in w if r[0] in ("G", "EG"))
            if names or gl:
                out = []
                for s in cur:
                    for f in s:
                        if f[1] == "U" and (c.fn, f[0]) in self.deferred and (any(self.has(f[0], x) for x in names) or any(mentions(f[0], g) for g in gl)):
                            self.bad(n, f[0], c, "%s is called before it is tested" % nm)
                    out.append(frozenset(f for f in s if not (any(self.has(f[0], x) for x in names) or any(mentions(f[0], g) for g in gl))))
                cur = out
        for (i, path), org in sorted(self.leaves.get(nm, {}).items()):
            lk = path if i is None else key(a[i]) + path
            self.origin[(c.fn, lk)] = org
            self.deferred.add((c.fn, lk))
            cur = [r for s in cur for r in (self.put(s, lk, "U"), self.put(s, lk, "P"))]
        for x in a:
            x = strip(x)
            if x is not None and x.kind == "UnaryOperator" and x.op == "&":
                k = key(x.kids[0])
                if k:
                    for s in cur:
                        for f in s:
                            if f[1] == "U" and f[0].startswith(k + ".") and nm in self.p.functions:
                                self.bad(n, f[0], c, "handed to %s before it is tested" % nm)
                    keep = "*" in (x.kids[0].ctype or "") and self.stores_objects(nm, a, x)
                    nxt = []
                    for s in cur:
                        r = kill(s, k)
                        nxt.append(self.put(r, k, "P") if keep and self.get(s, k) == "P" else r)
                    cur = nxt
        return cur

    def stores_objects(self, nm, a, x):
        """the callee stores through this argument only what it does not take to be absent"""
        f = self.p.functions.get(nm)
        if f is None:
            return False
        i = [strip(y) for y in a].index(x)
        ps = [d for d in f.kids if d is not None and d.kind == "ParmVarDecl"]
        if i >= len(ps):
            return False
        for n in f.walk():
            if n.kind != "DeclRefExpr" or n.ref is None or n.ref.id != ps[i].id:
                continue
            u = n.parent
            while u is not None and u.kind in ("ParenExpr", "ImplicitCastExpr"):
                u = u.parent
            if not (u is not None and u.kind == "UnaryOperator" and u.op == "*"):
                return False
            w = u
            while w.parent is not None and w.parent.kind == "ParenExpr":
                w = w.parent
            o = w.parent
            if o is not None and is_assign(o) and o.kids[0] is w:
                v = strip(o.kids[1])
                if o.op != "=" or is_null(v) or v.kind in ("CallExpr", "ConditionalOperator") or self.optional(v):
                    return False
            elif o is not None and o.kind == "UnaryOperator" and o.op in ("&", "++", "--"):
                return False
        return True

    def has(self, k, x):
        i = k.find(x)
        while i >= 0:
            e = k[i + len(x)] if i + len(x) < len(k) else ""
            if not (e.isalnum() or e == "_"):
                return True
            i = k.find(x, i + 1)
        return False

    def fmt(self, n, nm, a, cur, c):
        from strs import format_items
        fi = {"fprintf": 1, "sprintf": 1, "printf": 0, "snprintf": 2}[nm]
        if fi >= len(a):
            return cur
        s = self.strs.one(a[fi])
        if s is None:
            return cur
        for it in format_items(s, a[fi + 1:]):
            if len(it) > 1 and it[0] == "s" and it[2] is not None and it[1] != "*":
                e = strip(it[2])
                if e.kind == "ConditionalOperator":
                    continue
                cur = [r for s1 in cur for r in self.use(it[2], n, s1, c, "%s argument of " + nm)]
        return cur

    def branch(self, cond, truth, st, c):
        n = strip(cond)
        k = v = None
        if n.kind == "BinaryOperator" and n.op in ("==", "!="):
            for x, y in ((n.kids[0], n.kids[1]), (n.kids[1], n.kids[0])):
                if is_null(y) and "*" in (strip(x).ctype or ""):
                    k = self.vkey(x)
                    isnull = truth == (n.op == "==")
                    return self.test(x, k, isnull, st, c)
            # p == q: equal to something known
            if "*" in (n.kids[0].ctype or "") and (truth == (n.op == "==")):
                ka, kb = self.vkey(n.kids[0]), self.vkey(n.kids[1])
                va, vb = self.value(n.kids[0], st), self.value(n.kids[1], st)
                if va and vb and va != vb:
                    return []
                if ka and vb and not va:
                    return [self.put(st, ka, vb)]
                if kb and va and not vb:
                    return [self.put(st, kb, va)]
        elif "*" in (n.ctype or ""):
            return self.test(n, self.vkey(n), not truth, st, c)
        kk = key(n)
        if kk and truth and n.kind == "MemberExpr" and n.name in self.implied:
            st = self.put(st, kk[:-len(n.name)] + self.implied[n.name], "P")
        if kk and (kk in self.repeated(c.fn) or kk in self.intparams.get(c.fn, ())):
            for f in st:
                if f[0] == kk and f[1] in ("T", "F"):
                    return [st] if (f[1] == "T") == truth else []
            return [frozenset(st | set([(kk, "T" if truth else "F")]))]
        return [st]

    def feasible(self, cond, truth, st, c):
        n = strip(cond)
        if n.kind == "UnaryOperator" and n.op == "!":
            return self.feasible(n.kids[0], not truth, st, c)
        if n.kind == "BinaryOperator" and n.op in ("&&", "||"):
            a = [self.feasible(x, truth, st, c) for x in n.kids]
            return all(a) if (n.op == "&&") == truth else any(a)
        return bool(self.branch(cond, truth, st, c))

    def test(self, x, k, isnull, st, c):
        v = self.value(x, st)
        if v is not None:
            if (v != "P") != isnull:
                return []
            return [self.put(st, k, {"U": "V", "O": "N"}[v])] if v in ("U", "O") and k else [st]
        if k is None:
            return [st]
        st = frozenset(f for f in st if f != (k, "init"))
        s = strip(x)
        if isnull:
            self.origin.setdefault((c.fn, k), ("tested", self.p.loc(s)))
        return [self.put(st, k, "N" if isnull else "P")]

    def case(self, cond, v, vals, st, c):
        return [st]

    def edge(self, g, b, nb, st, c):
        """a fact is kept while its key can still be mentioned"""
        fut = self.future(g)[nb.id]
        if st:
            keep = self.params.get(g.name, {})
            ip = self.intparams.get(g.name, ())
            st = frozenset(f for f in st if f[0] in fut or (f[0] in keep and f[1] == "N") or f[0] in ip or (f[1] == "U" and ("->" in f[0] or "'" not in f[0])))
        return st

    def future(self, g):
        if g.name not in self._dead:
            own = {}
            for b in g.blocks:
                s = set()
                for e in list(b.elems) + ([b.term[1]] if b.term and b.term[0] in ("branch", "switch") else []):
                    for x in e.walk():
                        if x.kind in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "UnaryOperator", "BinaryOperator"):
                            k = key(x)
                            if k:
                                s.add(k)
                own[b.id] = s
            fut = dict((k, set(v)) for k, v in own.items())
            live = g.live_in()
            loc = dict(("'" + x.id[-6:], x.id) for x in g.fn.walk() if x.kind == "VarDecl" and x.id not in cfg.GLOBAL_IDS)
            ch = True
            rev = list(reversed(g.blocks))
            while ch:
                ch = False
                for b in rev:
                    n0 = len(fut[b.id])
                    for s in b.succs():
                        fut[b.id] |= fut[s.id]
                    ch = ch or len(fut[b.id]) != n0
            res = {}
            tag = re.compile(r"'[0-9a-f]{6}")
            for b in g.blocks:
                res[b.id] = set(k for k in fut[b.id] if all(t not in loc or loc[t] in live[b.id] for t in tag.findall(k)))
            self._dead[g.name] = res
        return self._dead[g.name]

    # ---- driver
    def run(self, fns=None, rounds=3):
        from strs import Strings
        self.strs = Strings(self.p)
        self._dead = {}
        self.params = {}
        self.intparams = {}
        todo = sorted(fns or self.p.functions)
        for f in todo:
            self.params[f] = {}
            i = 0
            for x in self.p.functions[f].kids:
                if x is not None and x.kind == "ParmVarDecl":
                    if x.ctype in ("int", "unsigned int", "size_t", "unsigned long", "long"):
                        self.intparams.setdefault(f, set()).add("%s'%s" % (x.name, x.id[-6:]))
                    if "*" in (x.ctype or ""):
                        self.params[f]["%s'%s" % (x.name, x.id[-6:])] = i
                    i += 1
        order = self.postorder(todo)
        for r in range(rounds):
            before = (dict((k, frozenset(v)) for k, v in self.returns.items()), dict((k, tuple(sorted(v))) for k, v in self.need.items()))
            self.viol = {}
            for f in order:
                self.one(f)
            after = (dict((k, frozenset(v)) for k, v in self.returns.items()), dict((k, tuple(sorted(v))) for k, v in self.need.items()))
            if before == after:
                break

    def postorder(self, todo):
        cg = self.p.callgraph()
        seen, out = set(), []

        def go(f):
            if f in seen or f not in todo:
                return
            seen.add(f)
            for x in sorted(cg[f]):
                go(x)
            out.append(f)
        for f in todo:
            go(f)
        return out

    def one(self, f):
        g = self.p.cfg(f)
        st = frozenset((k, "init") for k in self.params[f])
        self.trace = None
        v0 = dict(self.viol)
        try:
            self.leave(f, Engine(self, self.limit).run(g, [st], Ctx(f)))
        except AnalysisBroken:
            # too many combinations: look at one optional field (and then at the other sources) at a time
            opts = set()
            for x in self.p.functions[f].walk():
                if x.kind in ("MemberExpr", "ArraySubscriptExpr") and self.optional(x):
                    opts.add(optname(x))
            full, src = self.optional, self.sources
            self.viol = dict(v0)
            for o in sorted(opts):
                self.optional, self.sources = (lambda n: full(n) and optname(n) == o), set()
                self.leave(f, Engine(self, 4 * self.limit).run(g, [st], Ctx(f)))
            self.optional, self.sources = (lambda n: False), src
            self.leave(f, Engine(self, 4 * self.limit).run(g, [st], Ctx(f)))
            self.optional = full
            return
        if (len(self.viol) > len(v0) or f in self.leaves) and f not in self.deep:
            # look again with correlated conditions
            self.deep.add(f)
            keep = (self.viol, dict(self.returns), dict((k, dict(v)) for k, v in self.need.items()))
            self.viol = v0
            self.returns.pop(f, None)
            self.need.pop(f, None)
            lv = self.leaves.pop(f, None)
            try:
                self.leave(f, Engine(self, self.limit).run(g, [st], Ctx(f)))
            except AnalysisBroken:
                self.viol, self.returns, self.need = keep
                if lv:
                    self.leaves[f] = lv
                self.deep.discard(f)
                self._rep.pop(f, None)

    def leave(self, f, states):
        """a result stored where other functions will find it was tested before the function returns"""
        for st in states:
            for k, v in st:
                if v == "U" and ("->" in k or "'" not in k):
                    nm, loc = self.origin.get((f, k), ("?", "?"))
                    if self.defer(f, k, (nm, loc)):
                        continue
                    kk = (loc, k)
                    if kk not in self.viol:
                        self.viol[kk] = (f, "kept without a test when the function returns", self.p.functions[f], [], (nm, loc))

    def defer(self, f, k, org):
        """a helper may leave its result to be tested by its callers, if each of them names the place"""
        if (f, k) in self.deferred or k.count("->") > 1 or "[" in k or "*" in k:
            return False
        if "'" in k:
            base, _, fld = k.partition("->")
            if base not in self.params.get(f, {}) or "'" in fld or "." in fld:
                return False
            i, path = self.params[f][base], "->" + fld
        else:
            return False
        sites = [(g, n) for g, fn in self.p.functions.items() for n in fn.walk() if n.kind == "CallExpr" and callee(n) == f]
        if not sites or any(n.kind == "DeclRefExpr" and n.ref is not None and n.ref.kind == "FunctionDecl" and n.ref.name == f and not self.called(n)
                            for fn in self.p.functions.values() for n in fn.walk()):
            return False
        for g, n in sites:
            a = args(n)
            x = strip(a[i]) if i < len(a) else None
            if x is None or x.kind != "DeclRefExpr" or not key(a[i]) or g not in self.params:
                return False
        self.leaves.setdefault(f, {})[(i, path)] = org
        return True

    def called(self, n):
        q = n.parent
        while q is not None and q.kind in ("ImplicitCastExpr", "ParenExpr"):
            n, q = q, q.parent
        return q is not None and q.kind == "CallExpr" and q.kids[0] is n
