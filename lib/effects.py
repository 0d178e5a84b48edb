"""Write/read effects: which record fields, globals and pointed-to locals a function may modify, with its callees."""
import cfg
from cfg import strip, callee, args, is_assign

# library functions that write through an argument: name -> argument indices
LIBW = {"memcpy": (0,), "memset": (0,), "memmove": (0,), "strcpy": (0,), "strcat": (0,), "strncpy": (0,), "strncat": (0,),
        "sprintf": (0,), "snprintf": (0,), "vsprintf": (0,), "vsnprintf": (0,), "fgets": (0,), "fread": (0,), "qsort": (0,),
        "sscanf": (2, 3, 4, 5), "strtol": (1,), "strtoul": (1,), "strtod": (1,), "time": (0,), "getline": (0, 1)}
LIBFREE = {"free": (0,), "realloc": (0,), "fclose": (0,)}


def lval_root(e):
    """the object an lvalue designates: ('F', record-less field name) | ('G', global) | ('L', local id) | ('D', type) deref of a
    computed/local pointer"""
    n = strip(e)
    while n is not None:
        if n.kind == "MemberExpr":
            return ("F", n.name)
        if n.kind == "ArraySubscriptExpr":
            b = strip(n.kids[0])
            if "[" in (b.ctype or ""):      # true array: part of its container
                n = b
                continue
            t = _ptr_root(b)
            return t
        if n.kind == "UnaryOperator" and n.op == "*":
            return _ptr_root(strip(n.kids[0]))
        if n.kind == "DeclRefExpr":
            if n.ref.id in cfg.GLOBAL_IDS:
                return ("G", n.ref.name)
            return ("L", n.ref.id)
        if n.kind in ("UnaryOperator", "BinaryOperator") and n.kids:
            n = strip(n.kids[0])
            continue
        if n.kind == "ConditionalOperator":
            n = strip(n.kids[1])
            continue
        return ("?", n.kind)
    return ("?", "")


def _ptr_root(b):
    """storage reached through pointer expression b"""
    while b is not None:
        if b.kind == "MemberExpr":
            return ("E", b.name)            # elements of the array a field points to
        if b.kind == "DeclRefExpr":
            if b.ref.id in cfg.GLOBAL_IDS:
                return ("EG", b.ref.name)
            return ("EL", b.ref.id)         # elements reached through a local pointer
        if b.kind in ("UnaryOperator", "BinaryOperator") and b.kids:
            if b.kind == "UnaryOperator" and b.op == "&":
                return lval_root(b.kids[0])
            b = strip(b.kids[0])
            continue
        if b.kind == "ArraySubscriptExpr":
            b = strip(b.kids[0])
            continue
        if b.kind == "ConditionalOperator":
            b = strip(b.kids[1])
            continue
        return ("?", b.kind)
    return ("?", "")


class Effects(object):
    def __init__(self, prog):
        self.p = prog
        self.direct = {}
        self.nodes = {}
        for f in prog.functions:
            self._scan(f)
        self._tr = None

    def _scan(self, f):
        """direct writes of a function; local pointers are resolved to what they were assigned from"""
        d = self.p.functions[f]
        src = {}
        params = {}
        i = 0
        for k in d.kids:
            if k is not None and k.kind == "ParmVarDecl":
                params[k.id] = i
                i += 1
        for n in d.walk():
            if n.kind == "VarDecl" and n.kids and n.kids[-1] is not None:
                src.setdefault(n.id, []).append(n.kids[-1])
            elif n.kind == "BinaryOperator" and n.op == "=":
                l = strip(n.kids[0])
                if l.kind == "DeclRefExpr":
                    src.setdefault(l.ref.id, []).append(n.kids[1])
        self._src = src
        w = set()
        ns = []

        def expand(r, seen=()):
            if r[0] != "EL":
                return set([r])
            if r[1] in seen:
                return set()
            out = set()
            if r[1] in params:
                out.add(("P", params[r[1]]))
            for e in src.get(r[1], []):
                e = strip(e)
                if e is not None and e.kind == "CallExpr":
                    nm = callee(e)
                    out.add(("R", nm))
                    continue
                q = _ptr_root(e) if e is not None else ("?", "")
                if "*" in (e.ctype if e is not None else ""):
                    out |= expand(q, seen + (r[1],))
            return out
        for n in d.walk():
            t = None
            if n.kind == "UnaryOperator" and n.op in ("++", "--"):
                t = n.kids[0]
            elif is_assign(n):
                t = n.kids[0]
            if t is not None:
                for r in expand(lval_root(t)):
                    if r[0] != "L":
                        w.add(r)
                        ns.append((r, n))
            if n.kind == "CallExpr":
                nm = callee(n)
                if nm in LIBW:
                    a = args(n)
                    for i in LIBW[nm]:
                        if i < len(a):
                            for r in expand(_ptr_root(strip(a[i]))):
                                if r[0] != "L":
                                    w.add(r)
                                    ns.append((r, n))
        self.direct[f] = w
        self.nodes[f] = ns

    def writes(self, f):
        """transitive: {('F'|'E', field) | ('G'|'EG', name) | ('P', i) ...}; parameter writes are mapped at each call"""
        if self._tr is None:
            tr = dict((k, set(v)) for k, v in self.direct.items())
            ch = True
            calls = {}
            for g in self.p.functions:
                calls[g] = [(c, n) for c, n in self.p.calls(g) if c in self.p.functions and c not in self.p.noreturn]
            cg = self.p.callgraph()
            while ch:
                ch = False
                for g in self.p.functions:
                    s = tr[g]
                    n0 = len(s)
                    for c, n in calls[g]:
                        for r in tr[c]:
                            if r[0] == "P":
                                a = args(n)
                                if r[1] < len(a):
                                    q = _ptr_root(strip(a[r[1]]))
                                    if q[0] == "EL":
                                        i = self._param(g, q[1])
                                        s.add(("P", i) if i is not None else ("?", "local"))
                                    elif q[0] not in ("L",):
                                        s.add(q)
                            else:
                                s.add(r)
                    for c in cg[g]:
                        if c in tr and c not in self.p.noreturn:     # what never returns changes nothing for the caller
                            s |= set(r for r in tr[c] if r[0] != "P")
                    if len(s) != n0:
                        ch = True
            self._tr = tr
        return self._tr[f]

    def _param(self, f, i):
        k = 0
        for x in self.p.functions[f].kids:
            if x is not None and x.kind == "ParmVarDecl":
                if x.id == i:
                    return k
                k += 1
        return None

    def fields(self, f):
        return set(r[1] for r in self.writes(f) if r[0] in ("F", "E"))
