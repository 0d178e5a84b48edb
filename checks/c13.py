"""the generated lemon parser is filled in from the grammar, every part at the place the template expects it"""
import re

import absint
import cfg
import lempar
import prog
from absint import Interp, State, TOP, ptr, fld
from c14 import Lazy
from cast import AnalysisBroken

PLACE, DEF, TAB, TXT, DES, RUL, TPL, HDR = ("every part is written at its place", "definitions", "tables", "names and fallbacks", "destructors", "rules and actions", "the template is copied", "the header")
CUT = "\0"

# what the template calls the place -> what belongs there
WHERE = [("top", "include"), ("top", "tokens"), ("top", "defines"), ("top", "tables"), ("yyFallback", "fallback"), ("yyTokenName", "names"), ("yyRuleName", "rulenames"), ("yy_destructor", "destructors"),
         ("yyStackOverflow", "overflow"), ("yyRuleInfoLhs", "lhs"), ("yyRuleInfoNRhs", "nrhs"), ("yy_reduce", "actions"), ("yy_parse_failed", "failure"), ("yy_syntax_error", "error"), ("yy_accept", "accept")]


def places():
    """for each %% line of the template: the array or function around it"""
    out = []
    cur, pend = "top", None
    for l in open(lempar.SRC, encoding="latin-1").read().split("\n"):
        if l.startswith("%%"):
            out.append(cur)
            continue
        m = re.match(r"static\s.*?(\w+)\s*\[\s*\]\s*=\s*\{\s*$", l)
        if m:
            cur = m.group(1)
        elif re.match(r"\}", l):
            cur = "top"
        elif re.match(r"[A-Za-z_]", l) and not re.match(r"(typedef|struct|union|enum)\b(?!.*\()", l):
            m = re.match(r"[\w\s*]*?\b(\w+)\s*\(", l)
            if m and not l.rstrip().endswith(";"):
                cur = m.group(1)
    return out


def norm(t):
    return " ".join(t.split())


def fmt(f, args):
    out, i, a = [], 0, list(args)
    while i < len(f):
        if f[i] != "%":
            out.append(f[i])
            i += 1
            continue
        m = re.match(r"%([-0]*)(\d+|\*)?(?:\.(\d+|\*))?(l*)([dsciux%])", f[i:])
        if not m:
            return None
        i += m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        w, pr = m.group(2), m.group(3)
        if w == "*":
            w = a.pop(0) if a else None
        if pr == "*":
            pr = a.pop(0) if a else None
            if not isinstance(pr, int):
                return None
        if not a:
            return None
        v = a.pop(0)
        c = m.group(5)
        if c in "diux":
            if not isinstance(v, int):
                return None
            t = str(v)
        elif c == "c":
            if not isinstance(v, int):
                return None
            t = chr(v & 255)
        else:
            if not isinstance(v, str):
                return None
            t = v if pr is None else v[:int(pr)]
        if w and "-" in m.group(1):
            t = t.ljust(int(w))
        elif w:
            t = t.rjust(int(w))
        out.append(t)
    return "".join(out)


def spell(st, v):
    if absint.text(v) is not None:
        return absint.text(v)
    if isinstance(v, tuple) and v[0] == "p":
        out = []
        for i in range(500):
            c = st.get(("h", v[1], v[2] + i, ""))
            if c is None and ("zero", v[1]) in st.mem:
                c = 0
            if c == 0:
                return "".join(out)
            if not isinstance(c, int):
                return None
            out.append(chr(c & 255))
    return None


class World(object):
    """an abstract grammar, its states and the calls that leave lemon"""

    def __init__(self, p, **kw):
        self.p = p
        self.E = dict((c, v) for c, (e, v) in p.enum_of.items())
        self.k = dict(name="Vf", arg=None, ctx=None, tokenprefix=None, tokentype=None, vartype=None, include=None, err=None, wildcard=0, fallback=0, stacksize=None, overflow=None, failure=None, error=None, accept=None,
                      extracode=None, tokendest=None, vardest=None, own=0, types=0, actions=1, big=0, mh=0, nolines=1, defines=0, shape=0)
        self.k.update(kw)
        self.build()

    def build(self):
        k, E = self.k, self.E
        m = {}
        S = lambda t: 0 if t is None else ("s", t, 0)
        L = lambda f, v: m.__setitem__(fld("L", f), v)
        self.tok = ["$", "PLUS", "NUM", "ID"]
        self.nt = ["error", "expr", "list", "prog", "stmt"] if k["err"] is not None else ["expr", "list", "prog", "stmt"]
        self.names = self.tok + self.nt
        n = len(self.names)
        self.nsym, self.nterm = n, len(self.tok)
        for i, nm in enumerate(self.names + ["{default}"]):
            o = "sy%d" % i
            m[("h", "syms", i, "")] = ptr(o)
            for f, v in (("name", S(nm)), ("index", i), ("type", E["TERMINAL"] if i < self.nterm else E["NONTERMINAL"]), ("fallback", 0), ("destructor", 0), ("destLineno", 0), ("datatype", 0), ("dtnum", 0), ("useCnt", 1),
                         ("nsubsym", 0), ("subsym", 0)):
                m[fld(o, f)] = v
        ix = self.names.index
        self.ix = ix
        o = lambda nm: "sy%d" % ix(nm)
        self.types = {}
        if k["types"]:
            for nm, t in (("expr", "struct expr*"), ("list", "struct list"), ("stmt", "struct expr*")):
                m[fld(o(nm), "datatype")] = S(" %s " % t if nm == "stmt" else t)
                self.types[nm] = t
        for nm in self.nt:
            if nm not in self.types and nm != "error":
                self.types[nm] = k["vartype"] or k["tokentype"] or "void*"
        self.own = {}
        if k["own"]:
            for nm, c in (("expr", "freeE($$,$$);"), ("list", "freeL(&$$);" if k["own"] == 1 else "freeE($$,$$);"), ("stmt", "freeE($$,$$);")):
                m[fld(o(nm), "destructor")] = S(c)
                m[fld(o(nm), "destLineno")] = 11
                self.own[nm] = c
        if k["fallback"]:
            m[fld(o("NUM"), "fallback")] = ptr(o("ID"))
        if k["err"] is not None:
            m[fld(o("error"), "useCnt")] = k["err"]
        for f in ("name", "arg", "ctx", "tokenprefix", "tokentype", "vartype", "include", "stacksize", "overflow", "failure", "error", "accept", "extracode", "tokendest", "vardest"):
            L(f, S(k[f]))
        L("errsym", ptr(o("error")) if k["err"] is not None else 0)
        L("wildcard", ptr(o("ID")) if k["wildcard"] else 0)
        L("has_fallback", 1 if k["fallback"] else 0)
        self.nstate, self.nx, self.nrule = (40000 if k["big"] else 5), 3, (30000 if k["big"] else 5)
        for f, v in (("nstate", self.nstate), ("nxstate", self.nx), ("nrule", self.nrule), ("nruleWithAction", 3), ("nsymbol", n), ("nterminal", self.nterm), ("symbols", ptr("syms")), ("sorted", ptr("sorted")),
                     ("rule", ptr("r0")), ("startRule", ptr("r0")), ("filename", S("dir/gram.y")), ("outname", S("dir/gram.c")), ("nolinenosflag", k["nolines"]), ("tablesize", 0), ("nDefine", 0), ("nDefineUsed", 0)):
            L(f, v)
        if k["defines"]:
            L("nDefine", 2)
            L("nDefineUsed", 1)
            L("azDefine", ptr("azD"))
            L("bDefineUsed", ptr("bD"))
            m[("h", "azD", 0, "")], m[("h", "azD", 1, "")] = S("UNUSED"), S("USED")
            m[("h", "bD", 0, "")], m[("h", "bD", 1, "")] = 0, 1
        # rules
        self.rules = [("prog", ["list"], None), ("list", [], None), ("list", ["list", "stmt"], "act(A);"), ("expr", ["NUM", "PLUS", "NUM"], "act(B);"), ("stmt", ["expr", "PLUS"], "act(A);")]
        if not k["actions"]:
            self.rules = [(a, b, None) for a, b, c in self.rules]
        for i, (lhs, rhs, code) in enumerate(self.rules):
            r = "r%d" % i
            for f, v in (("lhs", ptr(o(lhs))), ("lhsalias", 0), ("lhsStart", int(i == 0)), ("ruleline", 20 + i), ("nrhs", len(rhs)), ("rhs", ptr("rhs%d" % i)), ("rhsalias", ptr("ra%d" % i)), ("line", 30 + i),
                         ("code", S(code)), ("codePrefix", 0), ("codeSuffix", 0), ("precsym", 0), ("index", 40 + i), ("iRule", i), ("noCode", int(code is None)), ("codeEmitted", 0), ("canReduce", 1),
                         ("doesReduce", 0), ("neverReduce", 0), ("nextlhs", 0), ("next", ptr("r%d" % (i + 1)) if i + 1 < len(self.rules) else 0)):
                m[fld(r, f)] = v
            for j, x in enumerate(rhs):
                m[("h", "rhs%d" % i, j, "")] = ptr(o(x))
                m[("h", "ra%d" % i, j, "")] = 0
        # states and their actions: lookahead, kind, target
        self.states = [
            ([("NUM", "SHIFT", 1), ("PLUS", "SHIFTREDUCE", 3), ("ID", "ERROR", None), ("list", "SHIFT", 2), ("stmt", "SHIFTREDUCE", 2), ("$", "ACCEPT", None), ("{default}", "REDUCE", 1)], 1),
            ([("NUM", "REDUCE", 4), ("PLUS", "SRCONFLICT", 2), ("ID", "RD_RESOLVED", 2), ("{default}", "REDUCE", 4)], 4),
            ([("NUM", "SHIFT", 0), ("ID", "SH_RESOLVED", 1), ("PLUS", "NOT_USED", 1), ("expr", "SHIFT", 1)], -1)]
        if k["shape"] == 1:
            self.states[2] = (self.states[2][0][:3], 0)
        elif k["shape"] == 2:
            self.states[2] = (self.states[2][0][3:], 2)
        for i, (acts, dflt) in enumerate(self.states):
            s = "st%d" % i
            m[("h", "sorted", i, "")] = ptr(s)
            tk = [a for a in acts if a[0] in self.tok]
            nt = [a for a in acts if a[0] in self.nt]
            for f, v in (("statenum", i), ("ap", ptr("a%d_0" % i)), ("nTknAct", len([a for a in tk if self.value(a) is not None])), ("nNtAct", len([a for a in nt if self.value(a) is not None])), ("iTknOfst", -2147483647),
                         ("iNtOfst", -2147483647), ("iDfltReduce", dflt), ("pDfltReduce", ptr("r%d" % dflt) if dflt >= 0 else 0), ("autoReduce", 0)):
                m[fld(s, f)] = v
            for j, (sp, ty, x) in enumerate(acts):
                a = "a%d_%d" % (i, j)
                t = ptr("st%d" % x) if ty in ("SHIFT", "SH_RESOLVED") else ptr("r%d" % x) if x is not None else 0
                for f, v in (("sp", ptr("sy%d" % (self.names + ["{default}"]).index(sp))), ("type", E[ty]), ("x.stp", t), ("x.rp", t), ("spOpt", 0), ("collide", 0),
                             ("next", ptr("a%d_%d" % (i, j + 1)) if j + 1 < len(acts) else 0)):
                    m[fld(a, f)] = v
        self.mem = m
        self.offs = {True: [7, -3, 12], False: [260, -130, 5]}

    # action values
    def value(self, a):
        sp, ty, x = a
        base = self.nstate
        if ty == "SHIFT":
            return x
        if ty == "SHIFTREDUCE":
            return base + x if sp in self.tok else base + self.nrule + 3 + x
        if ty == "REDUCE":
            return base + self.nrule + 3 + x
        return {"ERROR": base + self.nrule, "ACCEPT": base + self.nrule + 1}.get(ty)

    def ops(self):
        p = self.p

        def emit(st, t):
            return st.put(("ext", "out"), st.get(("ext", "out"), "") + t)

        def isout(v):
            return v == ptr("out")

        def fprintf(vals, st, n, I):
            if not isout(vals[0]):
                return [(TOP, st)]
            f = spell(st, vals[1])
            a = []
            for v in vals[2:]:
                a.append(v if isinstance(v, int) else spell(st, v))
            t = None if f is None else fmt(f, a)
            if t is None:
                t = "@?"
                st = st.put(("ext", "unclear"), st.get(("ext", "unclear"), ()) + (p.loc(n),))
            return [(len(t), emit(st, t))]

        def fputs(vals, st, n, I):
            return [(1, emit(st, spell(st, vals[0]) or "@?") if isout(vals[1]) else st)]

        def fputc(vals, st, n, I):
            return [(vals[0], emit(st, chr(vals[0] & 255) if isinstance(vals[0], int) else "@?") if isout(vals[1]) else st)]

        def xfer(vals, st, n, I):
            return [(TOP, emit(st, CUT + "+"))]

        def skip(vals, st, n, I):
            return [(TOP, emit(st, CUT + "-"))]

        def fresh(vals, st, n, I):
            k = st.get(("ext", "blocks"), 0)
            o = "blk%d" % k
            return [(ptr(o), st.put(("ext", "blocks"), k + 1).put(("zero", o), 1))]

        def qsort(vals, st, n, I):
            b, cnt = vals[0], vals[1]
            if not (isinstance(b, tuple) and b[0] == "p" and isinstance(cnt, int)):
                raise AnalysisBroken("sorting not understood at %s" % p.loc(n))
            cmpf = vals[3][1] if isinstance(vals[3], tuple) and vals[3][0] == "f" else None
            if cmpf is None:
                raise AnalysisBroken("comparison not understood at %s" % p.loc(n))
            order = []
            for i in range(cnt):
                j = 0
                while j < len(order):
                    r = I.invoke(p.fn(cmpf), [(b[0], b[1], b[2] + i), (b[0], b[1], b[2] + order[j])], st)
                    if len(r) != 1 or not isinstance(r[0][0], int):
                        raise AnalysisBroken("comparison not understood at %s" % p.loc(n))
                    if r[0][0] < 0:
                        break
                    j += 1
                order.insert(j, i)
            old = [(k, v) for k, v in st.mem.items() if k[0] == "h" and k[1] == b[1] and b[2] <= k[2] < b[2] + cnt]
            paths = set(k[3] for k, v in old)
            get = dict(old)
            for new, i in enumerate(order):
                for pa in paths:
                    st = st.put(("h", b[1], b[2] + new, pa), get.get(("h", b[1], b[2] + i, pa), 0))
            return [(TOP, st)]

        def add(vals, st, n, I):
            return [(TOP, st.put(("ext", "pend"), st.get(("ext", "pend"), ()) + ((vals[1], vals[2]),)))]

        def insert(vals, st, n, I):
            s = st.get(("ext", "sets"), ())
            l = self.offs[bool(vals[1])]
            v = l[len([x for x in s if x[1] == bool(vals[1])]) % len(l)]
            st = st.put(("ext", "sets"), s + ((st.get(("ext", "pend"), ()), bool(vals[1]), v),)).put(("ext", "pend"), ())
            return [(v, st)]

        def alloc(vals, st, n, I):
            st = st.put(("ext", "tabargs"), tuple(vals))
            st = st.put(fld("at", "nAction"), 14).put(fld("at", "aAction"), ptr("aa"))
            for i in range(14):
                st = st.put(("h", "aa", i, "action"), -1 if i in (3, 13) else 600 + i).put(("h", "aa", i, "lookahead"), -1 if i in (3, 13) else i % 4)
            return [(ptr("at"), st)]

        def size(vals, st, n, I):
            return [(13, st)]

        def mint(vals, st, n, I):
            st2 = st
            if isinstance(vals[2], tuple) and vals[2][0] == "p":
                st2 = st.put(("h",) + vals[2][1:] + (("",) if len(vals[2]) == 3 else ()), 2)
            return [(("s", "@%s..%s@" % (vals[0], vals[1]), 0), st2)]

        def tr(vals, st, n, I):
            return [(1 if self.k["actions"] else 0, st.put(("ext", "translated"), st.get(("ext", "translated"), ()) + (vals[1],)))]

        def code(vals, st, n, I):
            return [(TOP, emit(st, " @code(%s)@ " % (vals[1][1] if isinstance(vals[1], tuple) else "?")))]

        def opened(vals, st, n, I):
            t = [spell(st, v) if isinstance(v, tuple) else None for v in vals]
            return [(ptr("out") if t[2] and "w" in t[2] else 0, st.put(("ext", "opened"), tuple(t[1:])))]

        def mkname(vals, st, n, I):
            return [(("s", "dir/gram" + (spell(st, vals[1]) or "?"), 0), st)]

        def cpy(vals, st, n, I):
            d, t = vals[0], spell(st, vals[1])
            if isinstance(d, tuple) and d[0] == "p" and t is not None:
                for i, c in enumerate(t + "\0"):
                    st = st.put(("h", d[1], d[2] + i, ""), ord(c))
            return [(d, st)]

        def cmp(vals, st, n, I):
            a, b = spell(st, vals[0]), spell(st, vals[1])
            return [(TOP if a is None or b is None else (a > b) - (a < b), st)]

        def ln(vals, st, n, I):
            a = spell(st, vals[0])
            return [(TOP if a is None else len(a), st)]
        return {"fprintf": fprintf, "fputs": fputs, "fputc": fputc, "putc": fputc, "_IO_putc": fputc, "tplt_xfer": xfer, "tplt_skip_header": skip, "calloc": fresh, "malloc": fresh, "qsort": qsort, "acttab_action": add,
                "acttab_insert": insert, "acttab_alloc": alloc, "acttab_action_size": size, "minimum_size_type": mint, "translate_code": tr, "emit_code": code, "file_open": opened, "file_makename": mkname,
                "lemon_strcpy": cpy, "strcpy": cpy, "strcmp": cmp, "lemonStrlen": ln, "strlen": ln, "tplt_open": lambda vals, st, n, I: [(ptr("in"), st)]}

    def dom(self, lv, st):
        return None

    def run(self, fname="ReportTable"):
        I = Interp(self.p, Lazy(self.dom, self.ops(), skip=("free", "fclose", "acttab_free", "printf")))
        args = [ptr("L"), self.k["mh"]] if fname == "ReportTable" else [ptr("L")]
        return I.run(fname, args, State(self.mem))


def pieces(t):
    """text between the copies of the template"""
    return re.split(CUT + "[+-]", t), re.findall(CUT + "([+-])", t)


def ints(t):
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    return [int(x) for x in re.findall(r"-?\d+", t)]


def defines(t):
    d, dup = {}, []
    for l in t.split("\n"):
        m = re.match(r"#define\s+(\w+)(?:\s+(.*))?$", l)
        if m:
            if m.group(1) in d:
                dup.append(m.group(1))
            d[m.group(1)] = norm(m.group(2) or "")
    return d, dup


def arrays(t):
    out = {}
    for m in re.finditer(r"static const (.+?) (\w+)\[\] = \{(.*?)\};", t, re.S):
        out[m.group(2)] = (norm(m.group(1)), ints(m.group(3)))
    return out


CTYPE = {"unsigned char": (0, 255), "unsigned short int": (0, 65535), "unsigned short": (0, 65535), "unsigned int": (0, 2 ** 32 - 1), "signed char": (-128, 127), "short": (-32768, 32767), "short int": (-32768, 32767),
         "int": (-2 ** 31, 2 ** 31 - 1), "unsigned": (0, 2 ** 32 - 1)}


def holds(t, lo, hi):
    m = re.match(r"@(-?\d+)\.\.(-?\d+)@$", t or "")
    r = (int(m.group(1)), int(m.group(2))) if m else CTYPE.get(t)
    return r is not None and r[0] <= lo and hi <= r[1]


class Check(object):
    def __init__(self, R, p):
        self.R, self.p = R, p
        self.n = 0
        self.where = places()
        if len(self.where) != len(WHERE):
            raise AnalysisBroken("the template has %d places for generated text, %d expected" % (len(self.where), len(WHERE)))

    def bad(self, rule, key, fn, msg, w):
        cfgt = ", ".join("%s=%r" % kv for kv in sorted(w.k.items()) if kv[1])
        self.R.bad(rule, "%s|%s" % (fn, key), self.p.loc(self.p.fn(fn)), fn, msg, [cfgt])

    def table(self, w):
        F = "ReportTable"
        outs = w.run()
        if not outs:
            raise AnalysisBroken("ReportTable never ends")
        for _, s in outs:
            self.n += 1
            if s.get(("ext", "unclear")):
                raise AnalysisBroken("text not determined at %s" % (s.get(("ext", "unclear"))[0],))
            t = s.get(("ext", "out"), "")
            parts, marks = pieces(t)
            want = len(WHERE) + 1
            if len(marks) != want:
                self.bad(PLACE, "count", F, "the template is copied in %d steps, it has %d places" % (len(marks), len(WHERE)), w)
                continue
            if s.get(("ext", "opened"), (None,))[0] != ".c":
                self.bad(PLACE, "file", F, "the parser is not written to a .c file", w)
            inc = (w.k["include"] or "").lstrip()
            if (marks[0] == "-") != inc.startswith("/"):
                self.bad(PLACE, "header", F, "the template's first comment is %s" % ("left out although %include has none" if marks[0] == "-" else "kept although %include brings its own"), w)
            if "-" in marks[1:]:
                self.bad(PLACE, "skip", F, "a part of the template is skipped", w)
            sec = {}
            tops = [x for x in WHERE if x[0] == "top"]
            topi = 0
            for i, ctx in enumerate(self.where):
                if ctx == "top":
                    if topi >= len(tops):
                        raise AnalysisBroken("too many places outside functions in the template")
                    nm = tops[topi][1]
                    topi += 1
                else:
                    l = [x[1] for x in WHERE if x[0] == ctx]
                    if len(l) != 1:
                        raise AnalysisBroken("place in %s of the template is unknown" % ctx)
                    nm = l[0]
                sec[nm] = parts[i + 1]
            sec["tail"] = parts[-1]
            if w.k["nolines"]:
                if "#line" in t:
                    self.bad(PLACE, "lines", F, "-l leaves #line directives", w)
            else:
                for k in sec:
                    sec[k] = re.sub(r"(?m)^#line .*\n", "", sec[k])
            if "gram.y" not in parts[0]:
                self.bad(PLACE, "source", F, "the parser does not name its grammar", w)
            if w.k["defines"] and ("-DUSED" not in parts[0] or "UNUSED" in parts[0]):
                self.bad(PLACE, "options", F, "the parser does not name the -D options it depends on", w)
            self.user(w, sec)
            self.defs(w, sec, s)
            self.tabs(w, sec, s)
            self.texts(w, sec)
            self.dest(w, sec)
            self.ruls(w, sec, s)

    def user(self, w, sec):
        F = "ReportTable"
        for place, field in (("overflow", "overflow"), ("failure", "failure"), ("error", "error"), ("accept", "accept"), ("tail", "extracode")):
            if norm(sec[place]) != norm(w.k[field] or ""):
                self.bad(PLACE, field, F, "at the place for %s the parser has %r, the grammar says %r" % (field, norm(sec[place]), w.k[field]), w)
            if w.k[field] and not sec[place].endswith("\n"):
                self.bad(PLACE, field + "|end", F, "the code of %s is not ended by a line of its own" % field, w)
        want = norm(w.k["include"] or "")
        if w.k["mh"]:
            want = norm(want + ' #include "dir/gram.h"')
        if norm(sec["include"]) != want:
            self.bad(PLACE, "include", F, "at the place for %%include the parser has %r, not %r" % (norm(sec["include"]), want), w)

    def defs(self, w, sec, s):
        F = "ReportTable"
        pre = w.k["tokenprefix"] or ""
        d, dup = defines(sec["tokens"])
        want = dict((pre + nm, str(i)) for i, nm in enumerate(w.tok) if i)
        if d != want or dup:
            self.bad(DEF, "tokens", F, "the tokens are defined as %s, not %s" % (sorted(d.items()), sorted(want.items())), w)
        g = re.findall(r"(?m)^#(if\w*)\s+(\S+)", sec["tokens"])
        if g != [("if", "INTERFACE") if w.k["mh"] else ("ifndef", pre + w.tok[1])] or len(re.findall(r"(?m)^#endif", sec["tokens"])) != 1:
            self.bad(DEF, "tokens|guard", F, "the definitions of the tokens are guarded by %s" % (g,), w)
        d, dup = defines(sec["defines"])
        if dup:
            self.bad(DEF, "twice", F, "%s defined twice" % dup, w)
        if len(re.findall(r"(?m)^#if", sec["defines"])) != len(re.findall(r"(?m)^#endif", sec["defines"])):
            self.bad(DEF, "balance", F, "the conditionals are not balanced", w)
        ns, nr = w.nstate, w.nrule
        top = ns + nr + 3 + nr
        nm = w.k["name"] or "Parse"
        E = {"YYNOCODE": str(w.nsym), "YYNSTATE": str(w.nx), "YYNRULE": str(nr), "YYNRULE_WITH_ACTION": "3", "YYNTOKEN": str(w.nterm), "YY_MAX_SHIFT": str(w.nx - 1), "YY_MIN_SHIFTREDUCE": str(ns), "YY_MAX_SHIFTREDUCE": str(ns + nr - 1),
             "YY_ERROR_ACTION": str(ns + nr), "YY_ACCEPT_ACTION": str(ns + nr + 1), "YY_NO_ACTION": str(ns + nr + 2), "YY_MIN_REDUCE": str(ns + nr + 3), "YY_MAX_REDUCE": str(top - 1), "YYSTACKDEPTH": w.k["stacksize"] or "100",
             nm + "TOKENTYPE": w.k["tokentype"] or "void*"}
        if w.k["wildcard"]:
            E["YYWILDCARD"] = str(w.ix("ID"))
        if w.k["fallback"]:
            E["YYFALLBACK"] = "1"
        if w.k["err"]:
            E["YYERRORSYMBOL"] = str(w.ix("error"))
        for x, v in (("ARG", w.k["arg"]), ("CTX", w.k["ctx"])):
            if v:
                var = re.search(r"(\w+)\s*$", v).group(1)
                E.update({nm + x + "_SDECL": v + ";", nm + x + "_PDECL": "," + v, nm + x + "_PARAM": "," + var, nm + x + "_FETCH": "%s=yypParser->%s;" % (v, var), nm + x + "_STORE": "yypParser->%s=%s;" % (var, var)})
            else:
                E.update(dict((nm + x + "_" + y, "") for y in ("SDECL", "PDECL", "PARAM", "FETCH", "STORE")))
        sq = lambda t: re.sub(r"\s*([,=;*])\s*", r"\1", norm(t)) if t is not None else None
        for x in sorted(E):
            if sq(d.get(x)) != sq(E[x]):
                self.bad(DEF, x, F, "%s is %s, it should be %r" % (x, "not defined" if x not in d else "defined as %r" % d[x], E[x]), w)
        for x in sorted(set(d) - set(E) - {"YYCODETYPE", "YYACTIONTYPE", "YYERRSYMDT"}):
            self.bad(DEF, x, F, "%s is defined although the grammar does not ask for it" % x, w)
        if not re.search(r"#ifndef YYSTACKDEPTH\s+#define YYSTACKDEPTH", sec["defines"]):
            self.bad(DEF, "YYSTACKDEPTH|guard", F, "YYSTACKDEPTH of the compiler's command line does not win", w)
        if not holds(d.get("YYCODETYPE"), 0, w.nsym):
            self.bad(DEF, "YYCODETYPE", F, "YYCODETYPE (%s) cannot hold the codes of 0 to %d" % (d.get("YYCODETYPE"), w.nsym), w)
        if not holds(d.get("YYACTIONTYPE"), 0, top - 1):
            self.bad(DEF, "YYACTIONTYPE", F, "YYACTIONTYPE (%s) cannot hold the actions 0 to %d" % (d.get("YYACTIONTYPE"), top - 1), w)
        # the union of values
        m = re.search(r"typedef union \{(.*?)\} YYMINORTYPE;", sec["defines"], re.S)
        if not m:
            self.bad(DEF, "union", F, "there is no union of values", w)
            return
        mem = {}
        for l in m.group(1).split(";"):
            q = re.match(r"\s*(.*\S)\s+(\w+)\s*$", l, re.S)
            if q:
                if q.group(2) in mem:
                    self.bad(DEF, "union|twice", "print_stack_union", "the union has %s twice" % q.group(2), w)
                mem[q.group(2)] = q.group(1)
        if mem.get("yy0") != nm + "TOKENTYPE" or mem.get("yyinit") != "int":
            self.bad(DEF, "union|token", "print_stack_union", "the value of a token has type %s" % mem.get("yy0"), w)
        res = lambda t: (w.k["tokentype"] or "void*") if t == nm + "TOKENTYPE" else t
        w.member = {}
        for i, x in enumerate(w.names):
            n = s.get(fld("sy%d" % i, "dtnum"))
            w.member[x] = n
            if x in w.tok:
                if n != 0:
                    self.bad(DEF, "union|terminal", "print_stack_union", "a token's value is not kept as yy0", w)
            elif x == "error":
                if w.k["err"] and (mem.get("yy%s" % n) != "int" or d.get("YYERRSYMDT") != "yy%s" % n):
                    self.bad(DEF, "union|error", "print_stack_union", "the error symbol's value is kept as yy%s of type %s, YYERRSYMDT is %s" % (n, mem.get("yy%s" % n), d.get("YYERRSYMDT")), w)
            elif res(mem.get("yy%s" % n)) != w.types[x]:
                self.bad(DEF, "union|type", "print_stack_union", "the value of `%s' is kept as yy%s of type %s, its type is %s" % (x, n, mem.get("yy%s" % n), w.types[x]), w)

    def tabs(self, w, sec, s):
        F = "ReportTable"
        E = {}
        d, _ = defines(sec["tables"])
        A = arrays(sec["tables"])
        no = w.nstate + w.nrule + 2
        if tuple(s.get(("ext", "tabargs"), ())) != (w.nsym, w.nterm):
            self.bad(TAB, "size", F, "the table is not laid out for all symbols and tokens", w)
        act = [no if i == 3 else 600 + i for i in range(13)]
        par = lambda x: (d.get(x) or "").strip("()")
        if par("YY_ACTTAB_COUNT") != "13" or A.get("yy_action") != ("YYACTIONTYPE", act):
            self.bad(TAB, "yy_action", F, "yy_action is %s (%s entries); unused entries must be YY_NO_ACTION, all others as laid out" % (A.get("yy_action"), d.get("YY_ACTTAB_COUNT")), w)
        t, la = A.get("yy_lookahead", (None, []))
        body = [w.nsym if i in (3, 13) else i % 4 for i in range(14)]
        if t != "YYCODETYPE" or la[:14] != body:
            self.bad(TAB, "yy_lookahead", F, "yy_lookahead starts %s, not %s" % (la[:14], body), w)
        if len(la) < 13 + w.nterm or any(x < w.nterm for x in la[14:]) or any(not (0 <= x <= w.nsym) for x in la):
            self.bad(TAB, "yy_lookahead|end", F, "yy_lookahead has %d entries; %d are looked at, and those past the table must match no token" % (len(la), 13 + w.nterm), w)
        # rows as handed to the packing
        sets = s.get(("ext", "sets"), ())
        got = {}
        for i in range(w.nx):
            for tk, f in ((True, "iTknOfst"), (False, "iNtOfst")):
                got[(i, tk)] = s.get(fld("st%d" % i, f))
        used = []
        for i, (acts, dflt) in enumerate(w.states):
            for tk in (True, False):
                want = sorted((w.ix(a[0]), w.value(a)) for a in acts if a[0] in (w.tok if tk else w.nt) and w.value(a) is not None)
                o = got[(i, tk)]
                rows = [x for x in sets if x[2] == o and x[1] == tk]
                if not want:
                    if o != -2147483647:
                        self.bad(TAB, "rows|none", F, "a state without actions of a kind gets an offset", w)
                    continue
                if len(rows) != 1 or sorted(rows[0][0]) != want:
                    self.bad(TAB, "rows", F, "the %s row of state %d is %s, its actions are %s" % ("token" if tk else "goto", i, [list(x[0]) for x in rows], want), w)
                used += rows
        if len(sets) != len(used):
            self.bad(TAB, "rows|more", F, "rows are packed that belong to no state", w)
        for kind, tk, arr, none in (("SHIFT", True, "yy_shift_ofst", None), ("REDUCE", False, "yy_reduce_ofst", None)):
            o = [got[(i, tk)] for i in range(w.nx)]
            real = [x for x in o if x != -2147483647]
            lo, hi = min(real + [0]), max(real + [0])
            ty, v = A.get(arr, (None, None))
            v = v or []
            if v == [0] and not real:
                v = []
            for i in range(w.nx):
                if o[i] != -2147483647:
                    if i >= len(v) or v[i] != o[i]:
                        self.bad(TAB, arr, F, "%s of state %d is not where its row lies" % (arr, i), w)
                elif i < len(v):
                    # must lead to the default: past the table for tokens, below every offset for gotos
                    if (tk and v[i] != 13) or (not tk and v[i] >= lo):
                        self.bad(TAB, arr + "|none", F, "%s of state %d, which has no row, is %s" % (arr, i, v[i]), w)
            if par("YY_%s_COUNT" % kind) != str(len(v) - 1):
                self.bad(TAB, kind + "_COUNT", F, "YY_%s_COUNT is %s for %d entries" % (kind, d.get("YY_%s_COUNT" % kind), len(v)), w)
            if par("YY_%s_MIN" % kind) != str(lo) or par("YY_%s_MAX" % kind) != str(hi):
                self.bad(TAB, kind + "_RANGE", F, "YY_%s_MIN and _MAX are %s and %s, the offsets lie in %d..%d" % (kind, d.get("YY_%s_MIN" % kind), d.get("YY_%s_MAX" % kind), lo, hi), w)
            top = max(v + [hi])
            if not holds(ty, min(v + [lo]), top):
                self.bad(TAB, arr + "|type", F, "the type %s of %s cannot hold its entries %s" % (ty, arr, v), w)
        ty, v = A.get("yy_default", (None, None))
        want = [w.nstate + w.nrule + 3 + df if df >= 0 else w.nstate + w.nrule for _, df in w.states]
        if (ty, v) != ("YYACTIONTYPE", want):
            self.bad(TAB, "yy_default", F, "yy_default is %s, not %s" % (v, want), w)

    def texts(self, w, sec):
        F = "ReportTable"
        fb = ints(sec["fallback"])
        want = [w.ix("ID") if x == "NUM" else 0 for x in w.tok] if w.k["fallback"] else []
        if fb != want:
            self.bad(TXT, "fallback", F, "the fallback table is %s, not %s" % (fb, want), w)
        nm = re.findall(r'"([^"]*)"', sec["names"])
        if nm != w.names:
            self.bad(TXT, "names", F, "the names of the symbols are %s, not %s" % (nm, w.names), w)
        rn = [norm(x) for x in re.findall(r'"([^"]*)"', sec["rulenames"])]
        want = [norm("%s ::= %s" % (l, " ".join(r))) for l, r, c in w.rules]
        if rn != want:
            self.bad(TXT, "rulenames", F, "the rules are spelled %s, not %s" % (rn, want), w)

    def dest(self, w, sec):
        F = "ReportTable"
        got = {}
        cases = []
        body = re.sub(r"/\*.*?\*/", "", sec["destructors"], flags=re.S)
        for m in re.finditer(r"((?:\s*case\s+\d+:)+)(.*?)break;", body, re.S):
            cases = [int(x) for x in re.findall(r"case\s+(\d+):", m.group(1))]
            for c in cases:
                if c in got:
                    self.bad(DES, "twice", F, "symbol %d has two destructors" % c, w)
                got[c] = norm(m.group(2)).replace(" ", "")
        rest = re.sub(r"((?:\s*case\s+\d+:)+)(.*?)break;", "", body, flags=re.S)
        if norm(rest):
            self.bad(DES, "rest", F, "stray text among the destructors: %r" % norm(rest), w)
        for i, x in enumerate(w.names):
            t = w.k["tokendest"] if x in w.tok else w.own.get(x, w.k["vardest"])
            if x == "error" and x not in w.own and t:
                continue
            want = None
            if t is not None and x != "$":
                want = ("{%s}" % t.replace("$$", "(yypminor->yy%s)" % w.member.get(x))).replace(" ", "")
            if x == "$":
                continue
            if x not in w.tok and x not in w.own and t is not None and got.get(i) != want and got.get(i) in [
                    ("{%s}" % t.replace("$$", "(yypminor->yy%s)" % w.member.get(y))).replace(" ", "") for y in w.nt if y not in w.own]:
                self.bad(DES, "default|type", F, "the default destructor of `%s' is %s, its value is kept in yy%s" % (x, got.get(i), w.member.get(x)), w)
                continue
            if got.get(i) != want:
                self.bad(DES, "code", F, "the destructor of `%s' is %s, it should be %s" % (x, got.get(i), want), w)

    def ruls(self, w, sec, s):
        F = "ReportTable"
        lhs = ints(sec["lhs"])
        want = [w.ix(l) for l, r, c in w.rules]
        if lhs != want:
            self.bad(RUL, "lhs", F, "the left-hand sides are %s, not %s" % (lhs, want), w)
        nr = ints(sec["nrhs"])
        want = [-len(r) for l, r, c in w.rules]
        if nr != want:
            self.bad(RUL, "nrhs", F, "the lengths of the right-hand sides are %s, not %s" % (nr, want), w)
        t = re.sub(r"/\*.*?\*/", "", sec["actions"], flags=re.S)
        if ("YYMINORTYPE yylhsminor;" in t) != bool(w.k["actions"]):
            self.bad(RUL, "yylhsminor", F, "yylhsminor is %s" % ("declared without use" if not w.k["actions"] else "not declared"), w)
        if sorted(x[1] for x in s.get(("ext", "translated"), ()) if isinstance(x, tuple)) != ["r%d" % i for i in range(len(w.rules))]:
            self.bad(RUL, "translate", F, "not every rule's code is translated once", w)
        t = t.replace("YYMINORTYPE yylhsminor;", "")
        i = t.find("default:")
        if i < 0:
            self.bad(RUL, "default", F, "rules without code have no default", w)
            return
        head, tail = t[:i], t[i + 8:]
        done = {}
        for m in re.finditer(r"((?:\s*case\s+\d+:\s*(?:yytestcase\(\s*yyruleno\s*==\s*\d+\s*\);)?)+)(.*?)break;", head, re.S):
            for c in re.findall(r"case\s+(\d+):", m.group(1)):
                if c in done:
                    self.bad(RUL, "twice", F, "rule %s has two actions" % c, w)
                done[c] = norm(m.group(2))
            for c, e in re.findall(r"case\s+(\d+):\s*yytestcase\(\s*yyruleno\s*==\s*(\d+)\s*\)", m.group(1)):
                if c != e:
                    self.bad(RUL, "testcase", F, "rule %s is tested as rule %s" % (c, e), w)
        first = {}
        for i, (l, r, c) in enumerate(w.rules):
            if c is not None:
                first.setdefault(c, i)
            g = done.get(str(i))
            want = None if c is None else ["@code(r%d)@" % j for j, x in enumerate(w.rules) if x[2] == c]
            if (want is None and g is not None) or (want is not None and g not in want):
                self.bad(RUL, "action", F, "rule %d, whose code is %r, runs %s" % (i, c, g), w)
        red = set(x[2] for acts, _ in w.states for x in acts if x[1] in ("REDUCE", "SHIFTREDUCE"))
        for k, e in re.findall(r"(assert|yytestcase)\(\s*yyruleno\s*([!=]=\s*\d+)\s*\)", tail):
            n = ints(e)[0]
            if k == "assert" and n in red:
                self.bad(RUL, "assert", F, "rule %d is asserted not to reduce although a state reduces by it" % n, w)
        if not re.match(r".*break;\s*$", tail, re.S):
            self.bad(RUL, "default|end", F, "the default of the actions does not end", w)

    # ------------------------------------------------------------ the pieces
    def types(self):
        f = self.p.fn("minimum_size_type")
        pts = [0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 70000, 2 ** 30]
        n = 0
        for lo in sorted(set([0] + [-x for x in pts if x < 2 ** 30])):
            for hi in pts:
                if hi < lo:
                    continue
                for v, s in Interp(self.p, Lazy(lambda lv, st: None, {})).run("minimum_size_type", [lo, hi, 0], State({})):
                    n += 1
                    t = absint.text(v)
                    r = CTYPE.get(t)
                    if r is None or not (r[0] <= lo and hi <= r[1]):
                        self.R.bad(TAB, "minimum_size_type|%s" % t, self.p.loc(f), "minimum_size_type", "%d..%d does not fit the type chosen for it, %s" % (lo, hi, t), [])
        self.R.ok(TAB, n, "minimum_size_type")

    def copy(self):
        f = self.p.fn("tplt_xfer")
        lines = ["a Parse(x) ParseAlloc myParse Parser\n", "(ParseA) *ParseB _ParseC 9Parse ZParse ParsParse\n", "no end of lineParse", "%x %%\n", "%%\n", "behind\n"]
        for name in (None, "Vf"):
            def gets(vals, st, n, I):
                k = st.get(("ext", "k"), 0)
                if k >= len(lines):
                    return [(0, st)]
                b = vals[0]
                for i, c in enumerate(lines[k] + "\0"):
                    st = st.put(("h", b[1], b[2] + i, ""), ord(c))
                return [(b, st.put(("ext", "k"), k + 1))]
            w = World(self.p)
            ops = w.ops()
            del ops["tplt_xfer"]
            ops["fgets"] = gets

            def ncmp(vals, st, n, I):
                a, b = spell(st, vals[0]), spell(st, vals[1])
                if a is None or b is None or not isinstance(vals[2], int):
                    return [(TOP, st)]
                a, b = a[:vals[2]], b[:vals[2]]
                return [((a > b) - (a < b), st)]
            ops["strncmp"] = ncmp

            def fpr(vals, st, n, I, old=ops["fprintf"]):
                v = [("s", spell(st, x), 0) if isinstance(x, tuple) and x[0] == "p" and x != ptr("out") and spell(st, x) is not None else x for x in vals]
                return old(v, st, n, I)
            ops["fprintf"] = fpr
            for _, s in Interp(self.p, Lazy(lambda lv, st: None, ops)).run("tplt_xfer", [("s", name, 0) if name else 0, ptr("in"), ptr("out"), ptr("ln")], State({("h", "ln", 0, ""): 5})):
                t = s.get(("ext", "out"), "")
                want = "".join(lines[:4])
                if name:
                    want = re.sub(r"(?<![A-Za-z])Parse", name, want)
                if t != want:
                    self.R.bad(TPL, "tplt_xfer|text", self.p.loc(f), "tplt_xfer", "the template's text up to the next place is copied as %r, not %r" % (t, want), [])
                if s.get(("ext", "k")) != 5:
                    self.R.bad(TPL, "tplt_xfer|end", self.p.loc(f), "tplt_xfer", "copying the template does not stop right behind the place", [])
                if s.get(("h", "ln", 0, "")) != 9:
                    self.R.bad(TPL, "tplt_xfer|lines", self.p.loc(f), "tplt_xfer", "copying four lines counts %s" % s.get(("h", "ln", 0, "")), [])
            for _, s in Interp(self.p, Lazy(lambda lv, st: None, {"fgets": gets})).run("tplt_skip_header", [ptr("in")], State({})):
                if s.get(("ext", "k")) != 5:
                    self.R.bad(TPL, "tplt_skip_header", self.p.loc(self.p.fn("tplt_skip_header")), "tplt_skip_header", "skipping the first part does not stop right behind its end", [])
        self.R.ok(TPL, 4, "tplt_xfer, tplt_skip_header")

    def code(self):
        f = self.p.fn("emit_code")
        for pre in (None, "before;\n"):
            for c in (None, " act; "):
                for suf in (None, "after;\n"):
                    for nol in (0, 1):
                        w = World(self.p, nolines=nol)
                        ops = w.ops()
                        del ops["emit_code"]
                        S = lambda t: 0 if t is None else ("s", t, 0)
                        m = dict(w.mem)
                        m.update({fld("r0", "codePrefix"): S(pre), fld("r0", "code"): S(c), fld("r0", "codeSuffix"): S(suf), ("h", "ln", 0, ""): 5})
                        for _, s in Interp(self.p, Lazy(lambda lv, st: None, ops)).run("emit_code", [ptr("out"), ptr("r0"), ptr("L"), ptr("ln")], State(m)):
                            t = re.sub(r"(?m)^#line .*\n", "", s.get(("ext", "out"), ""))
                            got = re.findall(r"before|act|after", t)
                            want = [x for x, y in (("before", pre), ("act", c), ("after", suf)) if y]
                            if got != want:
                                self.R.bad(RUL, "emit_code|parts", self.p.loc(f), "emit_code", "the parts of an action are written as %s, not %s" % (got, want), [])
                            if t.count("{") != t.count("}"):
                                self.R.bad(RUL, "emit_code|braces", self.p.loc(f), "emit_code", "the braces around an action are not balanced: %r" % t, [])
        self.R.ok(RUL, 16, "emit_code")

    def header(self):
        n = 0
        for pre in (None, "TK_"):
            w = World(self.p, tokenprefix=pre)
            for _, s in w.run("ReportHeader"):
                n += 1
                t = s.get(("ext", "out"), "")
                if s.get(("ext", "opened"), (None,))[0] != ".h":
                    self.bad(HDR, "file", "ReportHeader", "the header is not written to a .h file", w)
                got = re.findall(r"(\w+)\s*=\s*(\d+)", t) + re.findall(r"(?m)^#define\s+(\w+)\s+(\d+)", t)
                want = [((pre or "") + x, str(i)) for i, x in enumerate(w.tok) if i]
                if got[:len(want)] != want or any(int(v) < w.nterm for x, v in got[len(want):]):
                    self.bad(HDR, "tokens", "ReportHeader", "the header gives the tokens as %s, the parser as %s" % (got, want), w)
        self.R.ok(HDR, n, "ReportHeader")


FULL = dict(name="Vf", arg="struct ctx *pCtx", ctx="int count ", tokenprefix="TK_", tokentype="struct tok", vartype="struct other", include="#include \"x.h\"\n", err=2, wildcard=1, fallback=1, stacksize="500", overflow="ov(1);",
            failure="fa(2);\n", error="er(3);", accept="ac(4);\n", extracode="ex(5);", tokendest="freeT($$);", vardest="freeV($$);", own=1, types=1, actions=1, mh=0, defines=1)
VARY = [("name", None), ("name", "Xy"), ("arg", "int n"), ("arg", "char **pz_2"), ("ctx", "void*p"), ("tokenprefix", "T"), ("tokentype", "int"), ("vartype", "int"), ("include", "/* mine */\n"), ("include", "\n \n/* mine */"), ("include", " x;"),
        ("err", 0), ("err", 1), ("wildcard", 1), ("fallback", 1), ("stacksize", "0"), ("overflow", "o;"), ("failure", "f;"), ("error", "e;"), ("accept", "a;"), ("extracode", "x;\n\n"), ("tokendest", "t($$);"), ("vardest", "v($$);"), ("own", 1), ("own", 2), ("types", 1),
        ("actions", 0), ("big", 1), ("mh", 1), ("nolines", 0), ("defines", 1), ("shape", 1), ("shape", 2)]


def run(R):
    R.explain = ("ReportTable is interpreted over abstract grammars (every optional part absent or present, one at a time from two opposite bases); what it writes between two copies of the template is taken apart and compared with what the "
                 "grammar says, at the place of the template (found by the array or function around it) where it lands. The rows handed to the packing, the offsets stored per state, the padding and the types of the arrays are obligations of "
                 "their own, as are the copying of the template, the parts of an action and the header.")
    R.rule(PLACE, "the code of each directive lands at its own place of the template, once")
    R.rule(DEF, "every macro and the union of values say what the grammar says; action values are disjoint and fit their type")
    R.rule(TAB, "the tables are written as laid out; offsets, padding, counts and types agree")
    R.rule(TXT, "names, fallbacks and rule texts are in the order of their codes")
    R.rule(DES, "each symbol is destroyed by the code the grammar gives for it, on the member its value is kept in")
    R.rule(RUL, "each rule has its left-hand side, length and action under its own number")
    R.rule(TPL, "the template is copied up to each place with the parser's name put in")
    R.rule(HDR, "the header gives the tokens the parser's values")
    R.assumes += ["the packing of rows (acttab_insert) finds a place where a row collides with no other", "translate_code is judged by C12 and C03"]
    p = prog.lemon()
    c = Check(R, p)
    full = lambda **k: World(p, **dict(FULL, **k))
    ws = [World(p), full()]
    for k, v in VARY:
        ws.append(World(p, **{k: v}))
        base = FULL.get(k)
        ws.append(full(**{k: v if v != base else (None if not isinstance(v, int) else 0)}))
    ws += [World(p, tokentype="int", vartype="int", own=1, vardest="v($$);"), World(p, types=1, vardest="v($$);"), World(p, types=1, own=1), World(p, types=1, own=2), World(p, own=1, vardest="v($$);", tokendest="t($$);")]
    for w in ws:
        c.table(w)
    R.ok(DEF, c.n * 30, "ReportTable")
    R.ok(PLACE, c.n * 16, "ReportTable")
    R.ok(TAB, c.n * 8, "ReportTable")
    R.ok(TXT, c.n * 3, "ReportTable")
    R.ok(DES, c.n, "ReportTable")
    R.ok(RUL, c.n * 5, "ReportTable")
    R.count("abstract grammars", c.n, 50)
    c.types()
    c.copy()
    c.code()
    c.header()
