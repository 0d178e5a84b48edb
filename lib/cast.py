"""Front end: the type-checked program, taken from clang's JSON syntax tree of /repo's current sources.

Nothing here is compiled to code or run.  parse_tu() returns a TU whose functions, records, enums and
globals are light Node trees with resolved references, desugared types and file:line positions.
"""
import json
import os
import subprocess
import sys

CLANG = next((c for c in ("/usr/lib/llvm-18/bin/clang", "/usr/bin/clang-18", "clang") if os.path.exists(c) or c == "clang"))


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, parse failure, vacuous rule)."""


class Node(object):
    __slots__ = ("kind", "id", "kids", "ctype", "name", "op", "ref", "val", "line", "file", "parent", "extra", "order")

    def __repr__(self):
        return "<%s %s @%s:%s>" % (self.kind, self.name or self.op or self.val or "", self.file, self.line)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed([k for k in n.kids if k is not None]))


class Ref(object):
    __slots__ = ("kind", "id", "name", "ctype")

    def __init__(self, kind, id_, name, ctype):
        self.kind, self.id, self.name, self.ctype = kind, id_, name, ctype


class TU(object):
    def __init__(self, path):
        self.path = path
        self.functions = {}      # name -> FunctionDecl Node with body
        self.fdecls = {}         # name -> list of FunctionDecl nodes (incl. prototypes), system ones too
        self.records = {}        # record id -> (name, [(field id, field name, type)])
        self.field_owner = {}    # field id -> (record name, field name)
        self.enums = {}          # enum name -> [(const name, value)]
        self.enum_of = {}        # constant name -> (enum name, value)
        self.globals = {}        # name -> VarDecl Node
        self.typedefs = {}


_file_root = None


def _ctype(d):
    t = d.get("type")
    if not t:
        return ""
    return t.get("desugaredQualType") or t.get("qualType") or ""


class _Loader(object):
    def __init__(self):
        self.file = ""
        self.line = 0

    def loc(self, d):
        """update state from one location object; returns (file,line) of the expansion point"""
        if not d:
            return None
        if "spellingLoc" in d or "expansionLoc" in d:
            r = None
            for k, v in d.items():
                if k == "spellingLoc":
                    self.bare(v)
                elif k == "expansionLoc":
                    r = self.bare(v)
            return r
        return self.bare(d)

    def bare(self, d):
        if "offset" not in d and "line" not in d and "file" not in d:
            return None
        if "file" in d:
            self.file = d["file"]
        if "line" in d:
            self.line = d["line"]
        return (self.file, self.line)

    def skim(self, d):
        """advance the location state over a subtree we do not keep"""
        st = [d]
        # must be in document order: recursive
        self._skim(d)

    def _skim(self, d):
        if isinstance(d, dict):
            for k, v in d.items():
                if k == "loc":
                    self.loc(v)
                elif k == "range":
                    self.loc(v.get("begin"))
                    self.loc(v.get("end"))
                elif isinstance(v, (dict, list)):
                    self._skim(v)
        elif isinstance(d, list):
            for v in d:
                if isinstance(v, (dict, list)):
                    self._skim(v)

    def conv(self, d, parent=None):
        n = Node()
        n.kind = d.get("kind", "")
        n.id = d.get("id")
        n.kids = []
        n.ctype = _ctype(d)
        n.name = d.get("name")
        n.op = d.get("opcode")
        n.val = d.get("value")
        n.ref = None
        n.parent = parent
        n.extra = None
        n.file, n.line = None, 0
        n.order = 0
        inner = None
        p = None
        for k, v in d.items():
            if k == "loc":
                q = self.loc(v)
                if q and n.file is None:
                    n.file, n.line = q
            elif k == "range":
                p = self.loc(v.get("begin"))
                self.loc(v.get("end"))
            elif k == "inner":
                inner = v
                n.kids = [self.conv(c, n) if c else None for c in v]
            elif k == "referencedDecl":
                n.ref = Ref(v.get("kind"), v.get("id"), v.get("name"), _ctype(v))
            elif k == "array_filler":
                self._skim(v)
            elif k in ("isArrow", "isPostfix", "castKind", "hasElse", "isUsed", "storageClass", "tagUsed",
                       "referencedMemberDecl", "variadic", "init", "labelIdent", "targetLabelDeclId", "declId",
                       "isPartOfExplicitCast", "argType", "completeDefinition", "hasVar", "hasInit", "inline",
                       "previousDecl", "ownedTagDecl", "decl", "size"):
                if n.extra is None:
                    n.extra = {}
                n.extra[k] = v
            elif isinstance(v, (dict, list)) and k not in ("type", "field", "computeLHSType", "computeResultType"):
                self._skim(v)
        if p and (n.file is None or n.kind.endswith(("Expr", "Operator", "Stmt", "Literal"))):
            n.file, n.line = p
        if n.file is None:
            n.file, n.line = self.file, self.line
        if d.get("kind") == "CharacterLiteral":
            n.val = d.get("value")
        return n


def parse_tu(path, flags, keep_roots):
    cmd = [CLANG, "-fsyntax-only", "-w", "-std=gnu11", "-D__NO_CTYPE", "-Xclang", "-ast-dump=json"] + list(flags) + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise AnalysisBroken("clang cannot parse %s: %s" % (path, p.stderr.decode()[:800]))
    data = json.loads(p.stdout.decode("utf-8", "replace"))
    del p
    return build(data, path, keep_roots)


def build(data, path, keep_roots):
    sys.setrecursionlimit(100000)
    tu = TU(path)
    ld = _Loader()
    roots = tuple(keep_roots)
    last = None
    for d in data.get("inner", []):
        kind = d.get("kind")
        # peek location
        save = (ld.file, ld.line)
        f = ld.loc(d.get("loc") or {}) if d.get("loc") else None
        fn = ld.file
        ld.file, ld.line = save
        keep = fn.startswith(roots)
        if not keep:
            ld._skim(d)
            if kind == "FunctionDecl":
                nm = d.get("name")
                n = Node()
                n.kind, n.id, n.kids, n.ctype, n.name = kind, d.get("id"), [], _ctype(d), nm
                n.op = n.val = n.ref = n.parent = None
                n.file, n.line, n.order = fn, 0, 0
                n.extra = {"variadic": d.get("variadic", False),
                           "noreturn": any(c.get("kind") == "NoReturnAttr" or c.get("kind") == "C11NoReturnAttr" for c in d.get("inner", []) if c)}
                tu.fdecls.setdefault(nm, []).append(n)
            continue
        n = ld.conv(d)
        if kind == "FunctionDecl":
            tu.fdecls.setdefault(n.name, []).append(n)
            if n.extra is None:
                n.extra = {}
            n.extra["noreturn"] = any(c is not None and c.kind in ("NoReturnAttr", "C11NoReturnAttr") for c in n.kids)
            if any(c is not None and c.kind == "CompoundStmt" for c in n.kids):
                tu.functions[n.name] = n
                for c in n.walk():
                    if c.kind == "RecordDecl":
                        _rec(tu, c)
        elif kind == "RecordDecl":
            _rec(tu, n)
        elif kind == "EnumDecl":
            _enum(tu, n)
        elif kind == "VarDecl":
            old = tu.globals.get(n.name)
            if old is None or n.kids:
                tu.globals[n.name] = n
        elif kind == "TypedefDecl":
            tu.typedefs[n.name] = n.ctype
            if last is not None and last.id in tu.records and tu.records[last.id][0].startswith("anon@") \
                    and not n.ctype.strip().endswith("*") and n.file == last.file and n.line >= last.line:
                # typedef struct { ... } Name;
                old, fields = tu.records[last.id]
                tu.records[last.id] = (n.name, fields)
                for i, o in list(tu.field_owner.items()):
                    if o[0] == old:
                        tu.field_owner[i] = (n.name, o[1])
        last = n if kind == "RecordDecl" else None
    # typedef names for anonymous records
    return tu


def _rec(tu, n):
    fields = []
    nm = n.name or "anon@%s:%d" % (os.path.basename(n.file or ""), n.line)
    for c in n.kids:
        if c is None:
            continue
        if c.kind == "FieldDecl":
            fields.append((c.id, c.name, c.ctype))
            tu.field_owner[c.id] = (nm, c.name)
        elif c.kind == "RecordDecl":
            _rec(tu, c)
        elif c.kind == "EnumDecl":
            _enum(tu, c)
    if fields:
        tu.records[n.id] = (nm, fields)


def _enum(tu, n):
    v = -1
    lst = []
    for c in n.kids:
        if c is not None and c.kind == "EnumConstantDecl":
            v += 1
            for e in c.walk():
                if e.kind == "ConstantExpr" and e.val is not None:
                    v = int(e.val)
                    break
                if e.kind == "IntegerLiteral":
                    v = int(e.val)
            lst.append((c.name, v))
    nm = n.name or "anon@%s:%d" % (os.path.basename(n.file or ""), n.line)
    tu.enums[nm] = lst
    for c, v in lst:
        tu.enum_of[c] = (nm, v)
