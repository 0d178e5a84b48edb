"""Line accounting of generated files: on every path, the running line counter equals the number of newlines written.

An abstract state carries, for every lvalue holding the counter, its offset from (newlines written so far + start),
whether the output is at the beginning of a line, what is known about characters being newlines, and which opaque
texts have been written or counted.  Calls that write or count are inlined with their actual arguments."""
import re
from collections import namedtuple

import cfg
from cfg import strip, const_int, key, callee, args, is_assign, Engine, path_lines
from strs import Strings, format_items, unquote, PRINTF, PUTS, PUTC, FWRITE, WRITERS
from cast import AnalysisBroken

St = namedtuple("St", "fresh bol cnt facts texts alias atoms ret pend")
BAD = 99


def fs(d):
    return frozenset(d.items())


class Ctx(object):
    def __init__(self, fn, env, nodes, parent, site):
        self.fn, self.env, self.nodes, self.parent, self.site = fn, env, nodes, parent, site

    def stack(self):
        r = []
        c = self
        while c is not None:
            r.append(c.fn)
            c = c.parent
        return r[::-1]


class Lines(object):
    """conf: main(stream key)->name of stream; same(name, atoms)->True/False/(atom to split on)
             text(field) multi-line; outname(field), inname(field); counter key predicate"""

    def __init__(self, prog, conf):
        self.p, self.conf = prog, conf
        self.strs = Strings(prog)
        self.viol = {}
        self.sites = set()
        self.own = set()
        self.inp = set()
        self.emits = set()
        self.known = {}
        self.memo = {}
        self.fns = set()
        self._rel = None
        self._mod = {}
        self._ids = {}
        self._cl = {}
        self._dead = {}

    # ---- static facts
    def relevant(self):
        """functions that may write to a stream or touch the counter"""
        if self._rel is None:
            base = set()
            for f, d in self.p.functions.items():
                for n in d.walk():
                    if n.kind == "CallExpr" and callee(n) in WRITERS and not self._std(n):
                        base.add(f)
                        break
                    if self._is_counter_mod(n):
                        base.add(f)
                        break
            cg = self.p.callgraph()
            ch = True
            while ch:
                ch = False
                for f in cg:
                    if f not in base and cg[f] & base:
                        base.add(f)
                        ch = True
            self._rel = base
        return self._rel

    def _std(self, n):
        nm = callee(n)
        si = (PRINTF.get(nm) or PUTS.get(nm) or PUTC.get(nm) or FWRITE.get(nm))[0]
        return key(args(n)[si]) in ("stderr", "stdout")

    def _is_counter_mod(self, n):
        t = None
        if n.kind == "UnaryOperator" and n.op in ("++", "--"):
            t = n.kids[0]
        elif is_assign(n):
            t = n.kids[0]
        if t is None:
            return False
        t = strip(t)
        if t.kind == "UnaryOperator" and t.op == "*" and t.ctype == "int":
            return True
        return t.kind == "MemberExpr" and t.name in self.conf.counter_fields

    def modified(self, f):
        if f not in self._mod:
            s = set()
            for n in self.p.functions[f].walk():
                t = None
                if n.kind == "UnaryOperator" and n.op in ("++", "--", "&"):
                    t = strip(n.kids[0])
                elif is_assign(n):
                    t = strip(n.kids[0])
                if t is not None and t.kind == "DeclRefExpr":
                    s.add(t.ref.id)
            self._mod[f] = s
        return self._mod[f]

    def local_tags(self, f):
        if f not in self._ids:
            self._ids[f] = tuple("'" + n.id[-6:] for n in self.p.functions[f].walk()
                                 if n.kind in ("VarDecl", "ParmVarDecl") and n.id not in cfg.GLOBAL_IDS)
        return self._ids[f]

    # ---- helpers
    def k(self, n, c):
        return key(n, c.env)

    def vkey(self, n, c):
        """key naming the value of an expression after its side effects"""
        n = strip(n)
        if n is None:
            return None
        if is_assign(n):
            return self.k(n.kids[0], c)
        if n.kind == "UnaryOperator" and n.op in ("++", "--") and not (n.extra and n.extra.get("isPostfix")):
            return self.k(n.kids[0], c)
        if n.kind == "UnaryOperator" and n.op == "*":
            i = strip(n.kids[0])
            if i.kind == "UnaryOperator" and i.op == "++":
                b = self.k(i.kids[0], c)
                if b is None:
                    return None
                return b + "[-1]" if i.extra and i.extra.get("isPostfix") else "*" + b
            if i.kind == "BinaryOperator" and i.op in ("+", "-") and "*" in (strip(i.kids[0]).ctype or ""):
                b, v = self.k(i.kids[0], c), const_int(i.kids[1])
                if b is not None and v is not None:
                    return "%s[%d]" % (b, v if i.op == "+" else -v)
        if n.kind == "ArraySubscriptExpr":
            a, i = self.k(n.kids[0], c), n.kids[1]
            si = strip(i)
            if si.kind == "UnaryOperator" and si.op in ("++", "--"):
                return None
        return self.k(n, c)

    def val(self, n, c):
        v = const_int(n)
        if v is not None:
            return v
        k = self.vkey(n, c)
        if k is not None and re.match(r"^-?\d+$", k):
            return int(k)
        return None

    def base(self, n, st, c):
        """the text an expression points into"""
        n = strip(n)
        if n is None:
            return None
        if n.kind == "UnaryOperator" and n.op in ("++", "--", "*", "&"):
            return self.base(n.kids[0], st, c)
        if n.kind == "BinaryOperator" and n.op in ("+", "-"):
            return self.base(n.kids[0], st, c)
        if is_assign(n):
            return self.base(n.kids[0], st, c)
        if n.kind == "ArraySubscriptExpr":
            k = self.k(n, c)
            if k is not None and "char *" in (n.ctype or ""):
                return self._al(k, st)
            return self.base(n.kids[0], st, c)
        if n.kind == "ConditionalOperator":
            return self.base(n.kids[1], st, c) or self.base(n.kids[2], st, c)
        if n.kind == "CallExpr":
            if callee(n) in ("strchr", "strstr", "strrchr", "strpbrk") and args(n):
                return self.base(args(n)[0], st, c)
            return None
        k = self.k(n, c)
        return self._al(k, st) if k else None

    def _al(self, k, st):
        al = dict(st.alias)
        seen = set()
        while k in al and k not in seen:
            seen.add(k)
            k = al[k]
        m = re.match(r"^\*?([\w'>.-]+)$", k)
        return k

    def field(self, k):
        """name of the member a key designates (subscripts of it ignored)"""
        k = k or ""
        while k.endswith("]"):
            d = 0
            for i in range(len(k) - 1, -1, -1):
                d += {"]": 1, "[": -1}.get(k[i], 0)
                if d == 0:
                    break
            k = k[:i]
        m = re.search(r"(?:->|\.)(\w+)$", k)
        return m.group(1) if m else None

    def stream(self, n, st, c):
        k = self.vkey(n, c)
        if k is None:
            return None
        k = self._al(k, st)
        return self.conf.stream(k)

    # ---- boolean evaluation under a state
    def ev(self, n, st, c):
        n0 = strip(n)
        if n0 is None:
            return None
        v = self.val(n0, c)
        if v is not None:
            return bool(v)
        if n0.kind == "UnaryOperator" and n0.op == "!":
            r = self.ev(n0.kids[0], st, c)
            return None if r is None else not r
        if n0.kind == "BinaryOperator" and n0.op in ("&&", "||"):
            a, b = self.ev(n0.kids[0], st, c), self.ev(n0.kids[1], st, c)
            if n0.op == "&&":
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a or b:
                return True
            return False if a is False and b is False else None
        if n0.kind == "BinaryOperator" and n0.op in ("==", "!="):
            a, b = n0.kids
            if "FILE" in a.ctype or "_IO_FILE" in a.ctype:
                x, y = self.stream(a, st, c), self.stream(b, st, c)
                r = None
                if x is not None and y is not None:
                    r = True if x == y else self.conf.equal(x, y, dict(st.atoms))
                if r is True or r is False:
                    return r if n0.op == "==" else not r
                return None
            for x, y in ((a, b), (b, a)):
                cv = const_int(y)
                if cv is None:
                    continue
                xv = self.val(x, c)
                if xv is not None:
                    return (xv == cv) == (n0.op == "==")
                f = dict(st.facts).get(self.vkey(x, c))
                if f == "N":
                    return (cv == 10) == (n0.op == "==")
                if f == "n" and cv == 10:
                    return n0.op == "!="
            return None
        k = self.vkey(n0, c)
        if k is None:
            return None
        nm = self.conf.atom(k)
        at = dict(st.atoms)
        if nm is not None and nm in at:
            return at[nm]
        if k in at:
            return at[k]
        return None

    # ---- state updates
    def drop(self, st, k):
        def keep(x):
            return k not in x
        return st._replace(facts=frozenset(f for f in st.facts if keep(f[0])),
                           cnt=frozenset(f for f in st.cnt if f[0] != k),
                           alias=frozenset(f for f in st.alias if f[0] != k),
                           atoms=frozenset(f for f in st.atoms if f[0] != k))

    def setfact(self, st, k, v):
        if k is None or '"' in k:
            return st
        d = dict(st.facts)
        d[k] = v
        return st._replace(facts=fs(d))

    def assign(self, lhs_key, rhs, st, c, is_local_int=False):
        st0 = st
        rk = self.vkey(rhs, c)
        st = self.drop(st, lhs_key)
        cnt0 = dict(st0.cnt)
        v = self.val(rhs, c)
        rs = strip(rhs)
        if rk is not None and rk in cnt0:
            st = st._replace(cnt=frozenset(set(st.cnt) | set([(lhs_key, cnt0[rk])])))
        elif v is not None and st.fresh and lhs_key in self.cands:
            st = st._replace(cnt=frozenset(set(st.cnt) | set([(lhs_key, v - self.conf.start)])))
        if v is not None and not lhs_key.endswith("outline"):
            st = self.setfact(st, lhs_key, "N" if v == 10 else "n") if self._charish(rhs) else st
        if rk is not None:
            f = dict(st0.facts).get(rk)
            if f:
                st = self.setfact(st, lhs_key, f)
        if rs is not None and rs.kind in ("UnaryOperator", "ArraySubscriptExpr") and strip(rhs).ctype in ("char", "const char"):
            if self.single(self.base(rs.kids[0], st0, c)):
                st = self.setfact(st, lhs_key, "n")
        if rs is not None and rs.kind == "CallExpr" and callee(rs) in ("getc", "fgetc", "_IO_getc", "getc_unlocked"):
            b = self.stream(args(rs)[0], st0, c)
            if b:
                st = st._replace(alias=frozenset(set(st.alias) | set([(lhs_key, "getc:" + b)])))
        t = rs.ctype if rs is not None else ""
        if "char *" in (t or "") or "FILE" in (t or ""):
            b = self.base(rhs, st0, c)
            if b is not None and b != lhs_key:
                st = st._replace(alias=frozenset(set(st.alias) | set([(lhs_key, b)])))
        elif rs is not None and (rs.kind == "BinaryOperator" and rs.op in ("&&", "||", "==", "!=") or (rs.kind == "UnaryOperator" and rs.op == "!")):
            r = self.ev(rhs, st0, c)
            if r is not None:
                st = st._replace(atoms=frozenset(set(st.atoms) | set([(lhs_key, r)])))
        elif rk is not None and (self.conf.atom(rk) or rk in dict(st0.atoms)):
            r = self.ev(rhs, st0, c)
            if r is not None:
                st = st._replace(atoms=frozenset(set(st.atoms) | set([(lhs_key, r)])))
        return st

    def _charish(self, n):
        s = strip(n)
        return s is not None and s.kind == "CharacterLiteral"

    def bump(self, st, k, d):
        cnt = dict(st.cnt)
        if k in cnt:
            v = cnt[k]
            if v != BAD:
                v += d
                if abs(v) > 8:
                    v = BAD
            cnt[k] = v
            st = st._replace(cnt=fs(cnt))
        return st

    def nl(self, st, n):
        if n == 0:
            return st
        cnt = dict(st.cnt)
        for k in cnt:
            if cnt[k] != BAD:
                cnt[k] -= n
                if abs(cnt[k]) > 8:
                    cnt[k] = BAD
        return st._replace(cnt=fs(cnt), pend=None)

    # ---- counting loops
    def counting(self, g):
        """{head id: (block ids, [text nodes])} of loops that scan for newlines, count, and write nothing"""
        if g.name not in self._cl:
            res = {}
            for h, body in g.loops().items():
                cmp_, inc, wr = [], False, False
                for b in g.blocks:
                    if b.id not in body:
                        continue
                    es = list(b.elems)
                    if b.term and b.term[0] in ("branch", "switch"):
                        es.append(b.term[1])
                    for e in es:
                        if e.kind == "CallExpr":
                            nm = callee(e)
                            if nm in WRITERS or nm in self.relevant():
                                wr = True
                            if nm == "strchr" and const_int(args(e)[1]) == 10:
                                cmp_.append(args(e)[0])
                        if e.kind == "BinaryOperator" and e.op in ("==", "!="):
                            for x, y in ((e.kids[0], e.kids[1]), (e.kids[1], e.kids[0])):
                                if const_int(y) == 10:
                                    cmp_.append(x)
                        if e.kind == "UnaryOperator" and e.op == "++" or (e.kind == "CompoundAssignOperator" and e.op == "+="):
                            inc = True
                    if b.term and b.term[0] == "switch" and any(v == 10 for v, _ in b.term[2]):
                        cmp_.append(b.term[1])
                if cmp_ and inc and not wr:
                    res[h] = (body, cmp_)
            self._cl[g.name] = res
        return self._cl[g.name]

    def in_counting(self, g, b):
        for h, (body, cm) in self.counting(g).items():
            if b in body:
                return h
        return None

    def credit(self, st, T):
        if T is None:
            return st
        ts = set(st.texts)
        if (T, "E") in ts:
            ts.discard((T, "E"))
        else:
            ts.add((T, "C"))
        return st._replace(texts=frozenset(ts))

    def edge(self, g, b, nb, st, c):
        for h, (body, cm) in self.counting(g).items():
            if b.id in body and nb.id not in body and self._loop_counts(g, h, c, st):
                T = None
                for x in cm:
                    T = T or self.base(x, st, c)
                st = self.credit(st, T)
        if st.facts or st.alias or st.atoms or st.cnt:
            dead = self.dead(g, nb)
            if dead:
                def ok(x):
                    return not any(t in x for t in dead)
                st = st._replace(facts=frozenset(f for f in st.facts if ok(f[0])), alias=frozenset(f for f in st.alias if ok(f[0])),
                                 atoms=frozenset(f for f in st.atoms if ok(f[0])), cnt=frozenset(f for f in st.cnt if ok(f[0])))
        return st

    def dead(self, g, nb):
        d = self._dead.get((g.name, nb.id))
        if d is None:
            live = g.live_in()[nb.id]
            addr = set()
            for x in g.fn.walk():
                if x.kind == "UnaryOperator" and x.op == "&":
                    y = strip(x.kids[0])
                    if y.kind == "DeclRefExpr":
                        addr.add(y.ref.id)
            d = tuple("'" + x.id[-6:] for x in g.fn.walk() if x.kind == "VarDecl" and x.id not in cfg.GLOBAL_IDS
                      and x.id not in live and x.id not in addr)
            self._dead[(g.name, nb.id)] = d
        return d

    def _loop_counts(self, g, h, c, st):
        body, _ = self.counting(g)[h]
        cnt = dict(st.cnt)
        for b in g.blocks:
            if b.id in body:
                for e in b.elems:
                    t = None
                    if e.kind == "UnaryOperator" and e.op == "++" or e.kind == "CompoundAssignOperator":
                        t = self.k(e.kids[0], c)
                    if t is not None and t in cnt:
                        return True
        return False

    # ---- emission
    def report(self, rule, node, c, msg):
        k = (rule, self.p.loc(node), "/".join(c.stack()[-2:]))
        if k not in self.viol:
            self.viol[k] = (msg, path_lines(self.trace), c.stack(), enclosing_fn(node))

    def emit_text(self, s, st):
        n = s.count("\n")
        if not s:
            return st
        st = self.nl(st, n)
        return st._replace(fresh=False, bol=s.endswith("\n"))

    def emit_char(self, node, st, c):
        v = self.val(node, c)
        if v is not None:
            return [self.emit_text(chr(v & 255), st)]
        k = self.vkey(node, c)
        b = self.base(node, st, c)
        f = dict(st.facts).get(k) if k else None
        st = self.name_check(b, node, st, c)
        if f is None and (self.single(b) or self.single_char(node, c)):
            f = "n"
        if f == "N":
            return [self.emit_text("\n", st)]
        if f == "n":
            return [self.inl(st, b)]
        if k is None:
            a = self.emit_text("\n", st)
            return [a, self.emit_text("x", st)]
        return [self.emit_text("\n", self.setfact(st, k, "N")), self.inl(self.setfact(st, k, "n"), b)]

    def inl(self, st, b):
        """a character other than a newline; files this program wrote itself hold complete lines"""
        return st._replace(fresh=False, bol=None if b in self.conf.line_files else False)

    def single(self, b):
        f = self.field(b)
        if f in self.conf.single_fields:
            return True
        if b is not None and b.startswith('"'):
            return "\n" not in unquote(b)
        m = re.match(r"^\w+('[0-9a-f]{6})(\[|$)", b or "")
        if m:
            for f in self.fns:
                for x in self.p.functions[f].walk():
                    if x.kind == "VarDecl" and x.id.endswith(m.group(1)[1:]):
                        return self._from_names(x.id, f, set())
        return False

    def single_char(self, node, c):
        """a char variable whose every assignment in the function reads a one-line name"""
        n = strip(node)
        while n is not None and n.kind == "DeclRefExpr" and n.ref.id in c.nodes:
            n, c = c.nodes[n.ref.id]
            n = strip(n)
        if n is None or n.kind != "DeclRefExpr" or n.ref.kind not in ("VarDecl", "ParmVarDecl"):
            return False
        return self._from_names(n.ref.id, c.fn, set())

    def _from_names(self, vid, fn, seen):
        if vid in seen:
            return True
        seen.add(vid)
        ok = False
        for x in self.p.functions[fn].walk():
            r = None
            if x.kind == "BinaryOperator" and x.op == "=":
                l = strip(x.kids[0])
                while l.kind == "ArraySubscriptExpr" or (l.kind == "UnaryOperator" and l.op == "*"):
                    l = strip(l.kids[0])
                if l.kind == "DeclRefExpr" and l.ref.id == vid:
                    r = strip(x.kids[1])
            elif x.kind == "VarDecl" and x.id == vid and x.kids:
                r = strip(x.kids[-1])
            if r is None or cfg.is_null(r) or (r.kind == "CallExpr" and callee(r) in ("malloc", "calloc", "realloc")):
                continue
            if r.kind == "StringLiteral" and "\n" not in unquote(r.val):
                ok = True
                continue
            while r is not None and r.kind in ("UnaryOperator", "ArraySubscriptExpr", "BinaryOperator") and not is_assign(r):
                if r.kind == "ArraySubscriptExpr" and strip(r.kids[0]).kind == "MemberExpr":
                    r = strip(r.kids[0])
                    break
                r = strip(r.kids[0])
            if r is None:
                return False
            if is_assign(r):
                r = strip(r.kids[0])
            if r.kind == "MemberExpr":
                if r.name not in self.conf.single_fields:
                    return False
                ok = True
            elif r.kind == "DeclRefExpr":
                if not self._from_names(r.ref.id, fn, seen):
                    return False
                ok = True
            else:
                return False
        return ok

    def name_check(self, b, node, st, c):
        f = self.field(b)
        if st.pend and f:
            if (st.pend[0] == "in" and f in self.conf.out_names) or (st.pend[0] == "own" and f in self.conf.in_names):
                self.report("line-target", node, c, "a #line directive carries the %s file's name with the %s file's line number"
                            % (("output", "input") if st.pend[0] == "in" else ("input", "output")))
            st = st._replace(pend=None)
        return st

    def emit_str(self, node, prec, st, c):
        n = strip(node)
        cc = c
        while n is not None and n.kind == "DeclRefExpr" and n.ref.id in cc.nodes and n.ref.id in cc.env:
            n, cc = cc.nodes[n.ref.id]
            n = strip(n)
        alls = self.strs.all(n)
        k = self.vkey(node, c)
        if alls is None and k and k.startswith('"'):
            alls = [unquote(k)]
        if alls is not None:
            out = []
            for s in alls:
                r = self.emit_text(s, st)
                if r not in out:
                    out.append(r)
            return out
        b = self.base(n, st, cc)
        st = self.name_check(b, node, st, c)
        f = self.field(b)
        if b is not None and any(b.startswith(x) for x in self.linebufs):
            if prec:
                return [st._replace(fresh=False, bol=False)]
            st = self.nl(st, 1)
            return [st._replace(fresh=False, bol=True)]
        if f in self.conf.text_fields:
            self.texts_seen.add(f)
            ts = set(st.texts)
            if (b, "C") in ts:
                ts.discard((b, "C"))
            else:
                ts.add((b, "E"))
            return [st._replace(texts=frozenset(ts), fresh=False, bol=None)]
        if f in self.conf.maybe_text and f not in self.conf.single_fields:
            return [st._replace(fresh=False, bol=None)]
        return [st._replace(fresh=False, bol=False if st.bol is not None else None)]

    def write(self, n, st, c):
        """a call to a stream writer"""
        nm = callee(n)
        a = args(n)
        si = (PRINTF.get(nm) or PUTS.get(nm) or PUTC.get(nm) or FWRITE.get(nm))
        s = self.stream(a[si[0]], st, c)
        sts = [st]
        r = self.conf.is_main(s, dict(st.atoms))
        if r is False:
            return sts
        if r is not True:
            # split on the atom
            out = []
            for v in (True, False):
                at = dict(st.atoms)
                at[r] = v
                s2 = st._replace(atoms=fs(at))
                out += self.write(n, s2, c)
            return out
        self.emits.add(self.p.loc(n))
        if nm in PUTC:
            return self.emit_char(a[0], st, c)
        if nm in PUTS:
            return self.emit_str(a[0], None, st, c)
        if nm in FWRITE:
            return self.emit_str(a[0], "*", st, c)
        fmts = self.strs.all(a[1])
        if fmts is None:
            k = self.vkey(a[1], c)
            fmts = [unquote(k)] if k and k.startswith('"') else None
        if fmts is None:
            raise AnalysisBroken("%s: format of %s is not a constant" % (self.p.loc(n), nm))
        res = []
        for fmt in fmts:
            cur = [st]
            known = self.conf.known_call(fmt, [self.base(x, st, c) for x in a[2:]])
            if known:
                self.known.setdefault(known, self.p.loc(n))
                res.append(st._replace(bol=fmt.endswith("\n"), fresh=False))
                continue
            isline = fmt.startswith("#line ")
            if isline:
                st = self.directive(n, a, st, c)
                cur = [st]
            first = True
            for it in format_items(fmt, a[2:]):
                nxt = []
                for s1 in cur:
                    if len(it) == 1:
                        q = [self.emit_text(it[0], s1)]
                    elif it[0] == "s":
                        q = self.emit_str(it[2], it[1], s1, c)
                    elif it[0] == "c":
                        q = self.emit_char(it[2], s1, c)
                    else:
                        q = [s1._replace(fresh=False, bol=False if s1.bol is not None else None)]
                    if isline and first and len(it) > 1 and it[0] in "dui":
                        kind = self.linekind(a, st, c)
                        q = [x._replace(pend=(kind,)) for x in q]
                    for x in q:
                        if x not in nxt:
                            nxt.append(x)
                if len(it) > 1:
                    first = False
                cur = nxt
            for x in cur:
                if x not in res:
                    res.append(x)
        return res

    def linearg(self, a, st, c):
        """(counter key, added constant) of the number printed, or None"""
        e = strip(a[2])
        cc = c
        while e is not None and e.kind == "DeclRefExpr" and e.ref.id in cc.nodes and e.ref.id in cc.env:
            e, cc = cc.nodes[e.ref.id]
            e = strip(e)
        add = 0
        while e.kind == "BinaryOperator" and e.op in ("+", "-"):
            v = const_int(e.kids[1])
            if v is not None:
                add += v if e.op == "+" else -v
                e = strip(e.kids[0])
                continue
            v = const_int(e.kids[0])
            if v is not None and e.op == "+":
                add += v
                e = strip(e.kids[1])
                continue
            break
        k = self.vkey(e, cc)
        d = dict(st.cnt)
        if k in d:
            return (d[k], add)
        # a copy passed by value
        return None

    def linekind(self, a, st, c):
        return "own" if self.linearg(a, st, c) is not None else "in"

    def directive(self, n, a, st, c):
        r = self.linearg(a, st, c)
        site = self.p.loc(n) + " via " + "/".join(c.stack())
        if st.bol is False:
            self.report("line-bol", n, c, "a #line directive is written in the middle of a line")
        if st.bol is False:
            st = st._replace(bol=True)
        if r is None:
            self.inp.add(site)
            return st
        self.own.add(site)
        off, add = r
        if off == BAD or off + add != self.conf.want:
            self.report("line-count", n, c, "the #line number written for the output file is off by %s"
                        % ("an unbounded amount" if off == BAD else str(off + add - self.conf.want)))
            st = st._replace(cnt=frozenset((k, self.conf.want - add if v == off else v) for k, v in st.cnt))
        if st.texts:
            self.report("line-text", n, c, "newlines in %s are %s" % (sorted(t for t, _ in st.texts),
                        " and ".join(sorted(set({"E": "written but not counted", "C": "counted but not written"}[w] for _, w in st.texts)))))
            st = st._replace(texts=frozenset())
        return st

    def mentions(self, nm, text):
        for f in self.p.reach([nm]):
            for x in self.p.functions[f].walk():
                if x.kind == "StringLiteral" and text in unquote(x.val):
                    return True
        return False

    # ---- engine hooks
    def elem(self, n, st, c):
        k = n.kind
        if k == "VarDecl":
            lk = "%s'%s" % (n.name, n.id[-6:])
            if n.kids and n.kids[-1] is not None and n.kids[-1].kind.endswith(("Expr", "Operator", "Literal")):
                return [self.assign(lk, n.kids[-1], st, c)]
            return [self.drop(st, lk)]
        if k == "CallExpr":
            return self.call(n, st, c)
        if k == "ReturnStmt":
            r = None
            if n.kids and n.kids[0] is not None:
                v = self.val(n.kids[0], c)
                if v is not None:
                    r = ("c", v)
                else:
                    kk = self.vkey(n.kids[0], c)
                    d = dict(st.cnt)
                    if kk in d:
                        r = ("k", d[kk])
            return [st._replace(ret=r)]
        if k == "BinaryOperator" and n.op == "=":
            lk = self.k(n.kids[0], c)
            if lk is None:
                return [st]
            rs = strip(n.kids[1])
            if rs.kind == "CallExpr" and st.ret and st.ret[0] == "k":
                off = st.ret[1]
                st = self.drop(st._replace(ret=None), lk)
                return [st._replace(cnt=frozenset(set(st.cnt) | set([(lk, off)])))]
            # x = x + n
            if rs.kind == "BinaryOperator" and rs.op in ("+", "-") and lk in dict(st.cnt):
                for x, y in ((rs.kids[0], rs.kids[1]), (rs.kids[1], rs.kids[0])):
                    if self.k(x, c) == lk:
                        return self.add(n, lk, y, 1 if rs.op == "+" else -1, st, c)
            return [self.assign(lk, n.kids[1], st, c)]
        if k == "CompoundAssignOperator":
            lk = self.k(n.kids[0], c)
            if lk is None:
                return [st]
            if lk in dict(st.cnt):
                if n.op in ("+=", "-="):
                    return self.add(n, lk, n.kids[1], 1 if n.op == "+=" else -1, st, c)
                return [self.drop(st, lk)]
            al = [f for f in st.alias if f[0] == lk]
            prev = dict(st.facts).get("*" + lk) if n.op == "+=" and const_int(n.kids[1]) == 1 else None
            st = self.drop(st, lk)
            st = st._replace(alias=frozenset(set(st.alias) | set(al)))
            return [self.setfact(st, lk + "[-1]", prev) if prev else st]
        if k == "UnaryOperator" and n.op in ("++", "--"):
            lk = self.k(n.kids[0], c)
            if lk is None:
                return [st]
            if lk in dict(st.cnt):
                h = self.cur_counting
                if h:
                    return [st]
                return [self.bump(st, lk, 1 if n.op == "++" else -1)]
            al = [f for f in st.alias if f[0] == lk]
            prev = dict(st.facts).get("*" + lk) if n.op == "++" else None
            st = self.drop(st, lk)
            st = st._replace(alias=frozenset(set(st.alias) | set(al)))
            if prev:
                st = self.setfact(st, lk + "[-1]", prev)
            return [st]
        return [st]

    def add(self, n, lk, e, sign, st, c):
        v = self.val(e, c)
        if v is not None:
            return [self.bump(st, lk, sign * v)]
        s = strip(e)
        if s.kind == "CallExpr":
            if st.ret and st.ret[0] == "c":
                return [self.bump(st._replace(ret=None), lk, sign * st.ret[1])]
            T = None
            for a in args(s):
                b = self.base(a, st, c)
                if b and self.field(b) in self.conf.text_fields:
                    T = b
            if T and callee(s) in self.p.functions and self._scans(callee(s)):
                return [self.credit(st, T)]
        if s.kind == "DeclRefExpr" or s.kind == "MemberExpr":
            kk = self.vkey(s, c)
            kk = self._al(kk, st)
            f = self.field(kk)
            if f in self.conf.num_of:
                T = kk[:-len(f)] + self.conf.num_of[f]
                return [self.credit(st, T)]
        if s.kind == "ConditionalOperator":
            a, b = self.val(s.kids[1], c), self.val(s.kids[2], c)
            if a is not None and b is not None:
                t = self.ev(s.kids[0], st, c)
                out = []
                if t is not False:
                    out.append(self.bump(st, lk, sign * a))
                if t is not True:
                    out.append(self.bump(st, lk, sign * b))
                return out
        return [self.drop(st, lk)._replace(cnt=frozenset(set(f for f in st.cnt if f[0] != lk) | set([(lk, BAD)])))]

    def _scans(self, f):
        return any((n.kind == "BinaryOperator" and n.op in ("==", "!=") and any(const_int(x) == 10 for x in n.kids)) or
                   (n.kind == "CallExpr" and callee(n) == "strchr" and const_int(args(n)[1]) == 10)
                   for n in self.p.functions[f].walk())

    def call(self, n, st, c):
        nm = callee(n)
        st = st._replace(ret=None)
        if nm in WRITERS:
            return self.write(n, st, c)
        if nm == "fgets":
            b = self.base(args(n)[0], st, c)
            if b:
                self.linebufs.add(b)
            return [st]
        if nm in self.p.functions and nm in self.relevant() and nm not in c.stack():
            return self.inline(n, nm, st, c)
        return [st]

    def inline(self, n, nm, st, c):
        fn = self.p.functions[nm]
        params = [x for x in fn.kids if x is not None and x.kind == "ParmVarDecl"]
        env, nodes = {}, {}
        mod = self.modified(nm)
        st0 = st
        for p, a in zip(params, args(n)):
            k = self.vkey(a, c)
            nodes[p.id] = (a, c)
            if k is not None and p.id not in mod:
                env[p.id] = k
            else:
                lk = "%s'%s" % (p.name, p.id[-6:])
                st = self.assign(lk, a, st, c)
                nodes.pop(p.id)
        ctx = Ctx(nm, env, nodes, c, n)
        mk = (nm, tuple(sorted(env.items())), tuple(id(x[0]) for x in nodes.values()), tuple(c.stack()), st)
        if mk not in self.memo:
            save = (self.trace, self.cur_counting)
            self.memo[mk] = self.runfn(nm, [st], ctx)
            self.trace, self.cur_counting = save
        tags = self.local_tags(nm)
        out = []
        streams = [self.stream(a, st0, c) for a in args(n) if "FILE" in a.ctype]
        for s in self.memo[mk]:
            absorb = self.conf.absorb(self, nm, streams, dict(s.atoms))
            if absorb:
                b, a = dict(st.cnt), dict(s.cnt)
                if any(k in b and a[k] != b[k] for k in a):
                    self.known.setdefault(absorb, self.p.loc(n))
                    s = s._replace(cnt=frozenset((k, b.get(k, v)) for k, v in s.cnt))
            def ok(x):
                return not any(t in x for t in tags)
            s = s._replace(facts=frozenset(f for f in s.facts if ok(f[0])), cnt=frozenset(f for f in s.cnt if ok(f[0])),
                           alias=frozenset(f for f in s.alias if ok(f[0])), atoms=frozenset(f for f in s.atoms if ok(f[0])))
            if s not in out:
                out.append(s)
        return out

    def runfn(self, nm, states, ctx):
        self.fns.add(nm)
        g = self.p.cfg(nm)
        return Engine(self, 200000).run(g, states, ctx)

    def at_block(self, g, b, s, seen, here):
        self.cur_counting = self.in_counting(g, b.id) is not None

    def branch(self, cond, truth, st, c):
        r = self.ev(cond, st, c)
        if r is not None:
            return [st] if r == truth else []
        n0 = strip(cond)
        if n0.kind == "BinaryOperator" and n0.op in ("==", "!="):
            eq = truth == (n0.op == "==")
            for x, y in ((n0.kids[0], n0.kids[1]), (n0.kids[1], n0.kids[0])):
                v = const_int(y)
                if v is not None and "*" not in strip(x).ctype:
                    k = self.vkey(x, c)
                    if v == 10:
                        return [self.setfact(st, k, "N" if eq else "n")]
                    if eq and (strip(y).kind == "CharacterLiteral" or v == -1 or strip(x).ctype == "char"):
                        return [self.setfact(st, k, "n")]
                    return [st]
            if "FILE" in n0.kids[0].ctype:
                x, y = self.stream(n0.kids[0], st, c), self.stream(n0.kids[1], st, c)
                if x is not None and y is not None:
                    a = self.conf.equal(x, y, dict(st.atoms))
                    if isinstance(a, tuple):  # (atom, value when equal)
                        at = dict(st.atoms)
                        at[a[0]] = a[1] if eq else not a[1]
                        return [st._replace(atoms=fs(at))]
            return [st]
        k = self.vkey(n0, c)
        nm = self.conf.atom(k) if k else None
        if nm is not None:
            at = dict(st.atoms)
            at[nm] = truth
            return [st._replace(atoms=fs(at))]
        if k is not None and not truth and n0.ctype in ("char", "int", "unsigned char"):
            return [self.setfact(st, k, "n")] if n0.ctype == "char" and n0.kind != "MemberExpr" else [st]
        return [st]

    def case(self, cond, v, vals, st, c):
        k = self.vkey(cond, c)
        cv = self.val(cond, c)
        if cv is not None:
            if v is None:
                return [] if cv in vals else [st]
            return [st] if v == cv else []
        f = dict(st.facts).get(k) if k else None
        if v is None:
            if 10 in vals:
                return [] if f == "N" else [self.setfact(st, k, "n")]
            return [st]
        if v == 10:
            return [] if f == "n" else [self.setfact(st, k, "N")]
        if f == "N":
            return []
        return [self.setfact(st, k, "n")] if f is None and strip(cond).ctype in ("char", "int") and 10 in vals else [st]

    # ---- roots
    def run_root(self, nm, counters, cands):
        self.linebufs = set()
        self.texts_seen = getattr(self, "texts_seen", set())
        self.cands = cands
        self.trace = None
        self.cur_counting = False
        st = St(True, True, frozenset((k, 0) for k in counters), frozenset(), frozenset(), frozenset(), frozenset(), None, None)
        ctx = Ctx(nm, {}, {}, None, None)
        return self.runfn(nm, [st], ctx)


def enclosing_fn(n):
    while n is not None and n.kind != "FunctionDecl":
        n = n.parent
    return n.name if n is not None else None
