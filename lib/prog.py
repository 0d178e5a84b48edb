"""Programs under analysis: lemon, byacc in its two build variants, and instances of lemon's parser template."""
import os
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

import cast
import cfg
from cast import AnalysisBroken

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
INC = os.path.join(HERE, "inc")

BYACC_COMMON = ["closure.c", "error.c", "graph.c", "lalr.c", "lr0.c", "main.c", "mkpar.c", "mstring.c", "output.c",
                "reader.c", "symtab.c", "verbose.c", "warshall.c"]
NORETURN_LIBC = ("exit", "abort", "_exit", "__assert_fail", "vf_assert_fail", "_Exit", "quick_exit", "longjmp")


class Program(object):
    def __init__(self, name, tus):
        self.name = name
        self.tus = tus
        self.functions, self.fn_tu, self.globals, self.records = {}, {}, {}, {}
        self.field_owner, self.enum_of, self.enums, self.fdecls = {}, {}, {}, {}
        for t in tus:
            for n, f in t.functions.items():
                self.functions[n] = f
                self.fn_tu[n] = t
            cfg.TYPEDEFS.update(t.typedefs)
            self.globals.update(dict((k, v) for k, v in t.globals.items() if v.kids or k not in self.globals))
            for rid, (nm, fl) in t.records.items():
                self.records[nm] = fl
            self.field_owner.update(t.field_owner)
            self.enums.update(t.enums)
            self.enum_of.update(t.enum_of)
            for k, v in t.fdecls.items():
                self.fdecls.setdefault(k, []).extend(v)
            for g in t.globals.values():
                cfg.GLOBAL_IDS.add(g.id)
            for g in t.fdecls.values():
                for x in g:
                    cfg.GLOBAL_IDS.add(x.id)
        self.static_locals = {}
        for f in self.functions.values():
            for n in f.walk():
                if n.kind == "VarDecl" and n.extra and n.extra.get("storageClass") in ("static", "extern"):
                    cfg.GLOBAL_IDS.add(n.id)
                    self.static_locals[n.name] = n
        # redeclarations in other units share the name; ids differ, so register every referenced global id
        gl = set(self.globals)
        for f in self.functions.values():
            local = set(n.id for n in f.walk() if n.kind in ("VarDecl", "ParmVarDecl"))
            for n in f.walk():
                if n.kind == "DeclRefExpr" and n.ref is not None and n.ref.id not in local:
                    cfg.GLOBAL_IDS.add(n.ref.id)
        for c, (e, v) in self.enum_of.items():
            cfg.ENUMS[c] = v
        self.noreturn = set(NORETURN_LIBC)
        for nm, ds in self.fdecls.items():
            if nm not in self.functions and any(d.extra and d.extra.get("noreturn") for d in ds):
                self.noreturn.add(nm)
        self._cfgs = {}
        self._find_noreturn()

    def _find_noreturn(self):
        """functions whose exit is unreachable given the others' (greatest fixpoint by iteration)"""
        changed = True
        while changed:
            changed = False
            for nm, f in self.functions.items():
                if nm in self.noreturn:
                    continue
                calls = any(n.kind == "CallExpr" and cfg.callee(n) in self.noreturn for n in f.walk())
                if not calls:
                    continue
                g = cfg.CFG(f, self.noreturn)
                if not g.returns:
                    self.noreturn.add(nm)
                    changed = True
        self._cfgs = {}

    def cfg(self, name):
        if name not in self._cfgs:
            self._cfgs[name] = cfg.CFG(self.functions[name], self.noreturn)
        return self._cfgs[name]

    def fn(self, name):
        if name not in self.functions:
            raise AnalysisBroken("%s: function %s not found" % (self.name, name))
        return self.functions[name]

    def owner(self, member):
        """(record, field) of a MemberExpr"""
        i = member.extra.get("referencedMemberDecl") if member.extra else None
        return self.field_owner.get(i, (None, member.name))

    def calls(self, name):
        """(callee, CallExpr) pairs of a function"""
        return [(cfg.callee(n), n) for n in self.functions[name].walk() if n.kind == "CallExpr"]

    def callgraph(self):
        if not hasattr(self, "_cg"):
            cg = {}
            addr = self.addr_taken()
            for f in self.functions:
                s = set()
                for c, n in self.calls(f):
                    if c in self.functions:
                        s.add(c)
                    elif c is None:
                        s |= set(a for a in addr if a in self.functions)
                    else:
                        # function pointers handed to libc (qsort, atexit, signal) run inside the call
                        for a in cfg.args(n):
                            a = cfg.strip(a)
                            if a is not None and a.kind == "UnaryOperator" and a.op == "&":
                                a = cfg.strip(a.kids[0])
                            if a is not None and a.kind == "DeclRefExpr" and a.ref.kind == "FunctionDecl" and a.ref.name in self.functions:
                                s.add(a.ref.name)
                cg[f] = s
            self._cg = cg
        return self._cg

    def addr_taken(self):
        if not hasattr(self, "_at"):
            at = set()
            for src in list(self.functions.values()) + list(self.globals.values()):
                for n in src.walk():
                    if n.kind == "DeclRefExpr" and n.ref is not None and n.ref.kind == "FunctionDecl":
                        p = n.parent
                        while p is not None and p.kind in cfg.STRIP:
                            p = p.parent
                        if not (p is not None and p.kind == "CallExpr" and cfg.strip(p.kids[0]) is n):
                            at.add(n.ref.name)
            self._at = at
        return self._at

    def reach(self, roots):
        cg = self.callgraph()
        seen, st = set(), [r for r in roots if r in self.functions]
        while st:
            f = st.pop()
            if f in seen:
                continue
            seen.add(f)
            st.extend(cg[f])
        return seen

    def loc(self, n):
        f = n.file or ""
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return "%s:%d" % (f, n.line)


def enclosing(n):
    while n is not None and n.kind != "FunctionDecl":
        n = n.parent
    return n.name if n is not None else None


def _parse_many(jobs):
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(lambda j: cast.parse_tu(*j), jobs))


_cache = {}


def lemon():
    if "lemon" not in _cache:
        p = os.path.join(REPO, "lemon", "lemon.c")
        if not os.path.exists(p):
            raise AnalysisBroken("lemon/lemon.c is missing")
        _cache["lemon"] = Program("lemon", _parse_many([(p, ["-I", INC], [REPO])]))
    return _cache["lemon"]


def byacc(bt=True):
    k = "btyacc" if bt else "yacc"
    if k not in _cache:
        d = os.path.join(REPO, "byacc")
        cfgdir = tempfile.mkdtemp(prefix="vfcfg.")
        try:
            with open(os.path.join(d, "config.h")) as f:
                txt = f.read()
            if not bt:
                txt = "\n".join(l for l in txt.split("\n") if "YYBTYACC" not in l)
            with open(os.path.join(cfgdir, "config.h"), "w") as f:
                f.write(txt)
            srcs = BYACC_COMMON + ["btyaccpar.c" if bt else "yaccpar.c"]
            jobs = [(os.path.join(d, s), ["-DHAVE_CONFIG_H", "-I", INC, "-I", cfgdir, "-I", d], [REPO]) for s in srcs]
            _cache[k] = Program(k, _parse_many(jobs))
        finally:
            shutil.rmtree(cfgdir, ignore_errors=True)
    return _cache[k]
