"""what a grammar or a command line says is recorded as documented"""
import cfg
import prog
import absint
from absint import Interp, State, TOP, ptr, fld
from cast import AnalysisBroken
from c14 import Lazy, describe
from strs import unquote

DIR, RULE, OPT, KEY = ("directives", "rules", "options", "byacc declarations")

# directive, field of the grammar, whether a #line precedes code
DIRS = [("name", "name", 0), ("include", "include", 1), ("code", "extracode", 1), ("token_destructor", "tokendest", 1), ("default_destructor", "vardest", 1),
        ("token_prefix", "tokenprefix", 0), ("syntax_error", "error", 1), ("parse_accept", "accept", 1), ("parse_failure", "failure", 1), ("stack_overflow", "overflow", 1),
        ("extra_argument", "arg", 0), ("extra_context", "ctx", 0), ("token_type", "tokentype", 0), ("default_type", "vartype", 0), ("stack_size", "stacksize", 0),
        ("expect", "expect", 0), ("start_symbol", "start", 0)]


def fmt(f, args):
    """the text a printf-like call writes, None when it is not determined"""
    out, i, a = [], 0, list(args)
    while i < len(f):
        if f[i] != "%":
            out.append(f[i])
            i += 1
            continue
        i += 1
        if i < len(f) and f[i] == "%":
            out.append("%")
            i += 1
            continue
        if i >= len(f) or f[i] not in "ds" or not a:
            return None
        v = a.pop(0)
        if f[i] == "d" and isinstance(v, int):
            out.append(str(v))
        elif f[i] == "s" and absint.text(v) is not None:
            out.append(absint.text(v))
        else:
            return None
        i += 1
    return "".join(out)


def spell(st, v):
    """the text a pointer refers to (constant text, or characters stored one by one)"""
    if absint.text(v) is not None:
        return absint.text(v)
    if not (isinstance(v, tuple) and v[0] == "p"):
        return None
    out = []
    for i in range(400):
        c = st.get(("h", v[1], v[2] + i, ""))
        if c == 0:
            return "".join(out)
        if not isinstance(c, int):
            return None
        out.append(chr(c & 255))
    return None


def chars(st, o, off, t):
    for i, c in enumerate(t):
        st = st.put(("h", o, off + i, ""), ord(c))
    return st


class Lemon(object):
    def __init__(self, R, p):
        self.R, self.p = R, p
        self.E = dict((c, v) for c, (e, v) in p.enum_of.items())
        self.f = p.fn("parseonetoken")
        self.n = 0

    def ops(self):
        def count(k):
            def op(vals, st, n, I):
                c = st.get(("ext", k), 0)
                return [(ptr("%s%d" % (k, c)), st.put(("ext", k), c + 1))]
            return op

        def realloc(vals, st, n, I):
            c = st.get(("ext", "block"), 0)
            st = st.put(("ext", "block"), c + 1)
            o = "block%d" % c
            old = vals[0]
            t = spell(st, old) if isinstance(old, tuple) else None
            if t is not None:
                st = chars(st, o, 0, t + "\0")
            elif isinstance(old, tuple) and old[0] == "p":
                for k, v in list(st.mem.items()):
                    if k[0] == "h" and k[1] == old[1]:
                        st = st.put(("h", o, k[2] - old[2], k[3]), v)
            return [(ptr(o), st)]

        def err(vals, st, n, I):
            return [(TOP, st.put(("ext", "errors"), 1))]

        def memcpy(vals, st, n, I):
            d, s, k = vals[0], vals[1], vals[2]
            if not (isinstance(d, tuple) and d[0] == "p" and isinstance(k, int)):
                raise AnalysisBroken("memcpy not understood at %s" % self.p.loc(n))
            t = spell(st, s)
            if t is None:
                for i in range(k):
                    st = st.put(("h", d[1], d[2] + i, ""), st.get(("h", s[1], s[2] + i, ""), TOP) if isinstance(s, tuple) and s[0] == "p" else TOP)
                return [(d, st)]
            return [(d, chars(st, d[1], d[2], (t + "\0")[:k]))]

        def strcpy(vals, st, n, I):
            d, t = vals[0], spell(st, vals[1])
            if not (isinstance(d, tuple) and d[0] == "p") or t is None:
                raise AnalysisBroken("strcpy not understood at %s" % self.p.loc(n))
            return [(d, chars(st, d[1], d[2], t + "\0"))]

        def strcat(vals, st, n, I):
            d, t = vals[0], spell(st, vals[1])
            o = spell(st, d)
            if o is None or t is None:
                raise AnalysisBroken("strcat not understood at %s" % self.p.loc(n))
            return [(d, chars(st, d[1], d[2] + len(o), t + "\0"))]

        def sprintf(vals, st, n, I):
            d = vals[0]
            a = vals[1:] if absint.text(vals[1]) is not None else vals[2:]
            t = fmt(absint.text(a[0]) or "%", [("s", spell(st, x), 0) if isinstance(x, tuple) and spell(st, x) is not None else x for x in a[1:]])
            if t is None or not (isinstance(d, tuple) and d[0] == "p"):
                raise AnalysisBroken("formatted text not understood at %s" % self.p.loc(n))
            return [(len(t), chars(st, d[1], d[2], t + "\0"))]

        def strlen(vals, st, n, I):
            t = spell(st, vals[0])
            return [(TOP if t is None else len(t), st)]

        def sym(find):
            def op(vals, st, n, I):
                x = absint.text(vals[-1])
                if x is None:
                    raise AnalysisBroken("symbol name not understood at %s" % self.p.loc(n))
                if not find:
                    return [(ptr("sym_" + x), st)]
                k = ("init", "known_" + x, 0, "")
                if k in st.mem:
                    return [(ptr("sym_" + x) if st.mem[k] else 0, st)]
                return [(ptr("sym_" + x), st.put(k, 1)), (0, st.put(k, 0).put(("zero", "sym_" + x), 1))]
            return op
        return {"calloc": count("new"), "malloc": count("new"), "realloc": realloc, "ErrorMsg": err, "memcpy": memcpy, "memmove": memcpy, "strcpy": strcpy, "strcat": strcat, "lemon_strcpy": strcpy,
                "lemon_strcat": strcat, "lemon_sprintf": sprintf, "sprintf": sprintf, "snprintf": sprintf, "strlen": strlen, "Symbol_new": sym(False), "Symbol_find": sym(True)}

    def chain(self, first, tokens, mem, dom):
        """the states after a sequence of tokens, starting in grammar-parser state `first`"""
        m = {fld("PS", "state"): self.E[first], fld("PS", "gp"): ptr("L"), fld("PS", "preccounter"): 7, fld("PS", "errorcnt"): 0, fld("PS", "tokenlineno"): 5,
             fld("PS", "filename"): ("s", "a\\b", 0), fld("PS", "declassoc"): self.E["UNK"]}
        for k in ("declargslot", "decllinenoslot", "fallback", "tkclass", "lhs"):
            m[fld("PS", k)] = ptr("stale")
        m[fld("PS", "lhsalias")] = ("s", "STALE", 0)
        m[fld("PS", "declkeyword")] = ("s", "stale", 0)
        m[fld("PS", "insertLineMacro")] = 1
        m[fld("PS", "nrhs")] = 2
        for i in range(4):
            for a, v in (("rhs", ptr("stale")), ("alias", ("s", "STALE", 0))):
                m[fld("PS", a) if i == 0 else ("h", ("sub", "PS", 0, a), i, "")] = v
        m.update(mem)

        def d2(lv, st):
            if isinstance(lv[1], str) and lv[1].startswith("new"):
                return [0]
            if lv[1] == "L" and lv[3] == "ignorePrec":
                return [0]
            if isinstance(lv[1], str) and lv[1].startswith("sym_") and lv[3] in ("type", "nsubsym", "subsym", "bContent", "destLineno", "rule", "fallback", "datatype", "destructor"):
                r = dom(lv, st)
                return r if r is not None else [0]
            if isinstance(lv[1], str) and lv[1].startswith("sym_") and lv[3] == "name":
                return [("s", lv[1][4:], 0)]
            return dom(lv, st)
        cur = [State(m)]
        for i, x in enumerate(tokens):
            ops = self.ops()
            ops["Strsafe"] = lambda vals, st, nd, I, x=x: [(vals[-1] if absint.text(vals[-1]) is not None else ("s", x, 0), st)]
            I = Interp(self.p, Lazy(d2, ops, skip=("fprintf", "printf", "free")))
            pars = [k for k in self.f.kids if k is not None and k.kind == "ParmVarDecl"]
            vals = [ptr("PS") if "pstate" in k.ctype else ptr("L") if "struct lemon *" == k.ctype else TOP for k in pars]
            nxt = []
            for s in cur:
                for _, s2 in I.run("parseonetoken", vals, s.put(fld("PS", "tokenstart"), ("s", x, 0)).put(fld("PS", "tokenlineno"), 5 + i)):
                    if s2 not in nxt:
                        nxt.append(s2)
            cur = nxt
        if not cur:
            raise AnalysisBroken("parseonetoken never returns")
        self.init = m
        self.n += len(cur)
        return cur

    def errors(self, s):
        e = s.get(fld("PS", "errorcnt"))
        return bool(s.get(("ext", "errors"))) or e != 0

    def value(self, s, lv):
        return s.get(lv, s.get(("init",) + lv[1:]))

    def bad(self, rule, key, msg, s):
        self.R.bad(rule, "parseonetoken|" + key, self.p.loc(self.f), "parseonetoken", msg, [describe(s, {}, lambda k, v: v)])

    def kept(self, s, rule, key, what, allow):
        """nothing of the grammar changes but `allow`"""
        for k, v in sorted(s.mem.items(), key=repr):
            if k[0] != "h" or not isinstance(k[1], (str, tuple)):
                continue
            o = k[1][1] if isinstance(k[1], tuple) and k[1][0] == "sub" else k[1]
            if not (o in ("L", "PR", "RF", "RL") or (isinstance(o, str) and o.startswith("sym_"))):
                continue
            if (o, k[3]) in allow or (o, "*") in allow:
                continue
            i = s.get(("init",) + k[1:], self.init.get(k))
            if i is None and ("zero", o) in s.mem:
                i = 0
            if v != i and not (i is None and v == 0):
                self.bad(rule, key + "|also %s" % k[3], "%s changes %s of %s as well" % (what, k[3], "the grammar" if o == "L" else "a symbol" if isinstance(o, str) and o.startswith("sym_") else "a rule"), s)

    # ------------------------------------------------------------ directives with an argument
    def directives(self):
        R, E = self.R, self.E
        for d, field, line in DIRS:
            for arg, txt in (("{some code", "some code"), ("\"quoted", "quoted"), ("word", "word")):
                for old in (None, "OLD", "OLD\n"):
                    for no in (0, 1):
                        mem = dict((fld("L", x[1]), ("s", "other", 0)) for x in DIRS)
                        mem.update({fld("L", field): ("s", old, 0) if old else 0, fld("L", "nolinenosflag"): no})
                        for s in self.chain("WAITING_FOR_DECL_KEYWORD", [d, arg], mem, lambda lv, st: None):
                            got = spell(s, s.get(fld("L", field)))
                            want = old or ""
                            if line and not no:
                                if want and not want.endswith("\n"):
                                    want += "\n"
                                want += '#line 6 "a\\\\b"\n'
                            want += txt
                            if got != want:
                                self.bad(DIR, "%s|text" % d, "the argument of %%%s ends up as %r where %r belongs in `%s`" % (d, got, want, field), s)
                            if s.get(fld("PS", "state")) != E["WAITING_FOR_DECL_OR_RULE"] or self.errors(s):
                                self.bad(DIR, "%s|end" % d, "%%%s with its argument is not complete, or an error is reported" % d, s)
                            self.kept(s, DIR, d, "%" + d, {("L", field)})
            for s in self.chain("WAITING_FOR_DECL_KEYWORD", [d, "."], {fld("L", field): 0, fld("L", "nolinenosflag"): 0}, lambda lv, st: None):
                if not self.errors(s):
                    self.bad(DIR, "%s|missing" % d, "%%%s without an argument is no error" % d, s)
                self.kept(s, DIR, d + "|missing", "%" + d, set())
        R.ok(DIR, len(DIRS) * 19, "%d directives with an argument" % len(DIRS))
        # of a symbol
        for d, field, ln in (("destructor", "destructor", "destLineno"), ("type", "datatype", None)):
            for old in (None, "OLD"):
                for no in (0, 1):
                    def dom(lv, st):
                        return None
                    mem = {fld("sym_foo", field): ("s", old, 0) if old else 0, fld("L", "nolinenosflag"): no, fld("sym_foo", "destLineno"): 3 if old else 0}
                    for s in self.chain("WAITING_FOR_DECL_KEYWORD", [d, "foo", "{text"], mem, dom):
                        if d == "type" and old and s.get(("init", "known_foo", 0, "")) == 0:
                            continue  # what is not known has no type yet
                        if d == "type" and old and s.get(("init", "known_foo", 0, "")) == 1:
                            if not self.errors(s):
                                self.bad(DIR, "type|twice", "a second %type for a symbol is no error", s)
                            self.kept(s, DIR, "type|twice", "a refused %type", set())
                            continue
                        old2 = old
                        got = spell(s, s.get(fld("sym_foo", field)))
                        # a destructor's first line is recorded; #line goes with each further piece
                        want = (old2 or "")
                        if ln and not no and old2:
                            want += '\n#line 7 "a\\\\b"\n'
                        want += "text"
                        if old is None or old2 or d == "type":
                            if got != want:
                                self.bad(DIR, "%s|text" % d, "%%%s of a symbol ends up as %r, not %r" % (d, got, want), s)
                        if ln and s.get(fld("sym_foo", ln)) != (3 if old else 7):
                            self.bad(DIR, "%s|line" % d, "the line of a symbol's destructor is recorded as %s" % (s.get(fld("sym_foo", ln)),), s)
                        if s.get(fld("PS", "state")) != E["WAITING_FOR_DECL_OR_RULE"] or self.errors(s):
                            self.bad(DIR, "%s|end" % d, "%%%s of a symbol is not complete, or an error is reported" % d, s)
                        self.kept(s, DIR, d, "%" + d, {("sym_foo", field), ("sym_foo", "destLineno")})
            for s in self.chain("WAITING_FOR_DECL_KEYWORD", [d, "{text"], {}, lambda lv, st: None):
                if not self.errors(s):
                    self.bad(DIR, "%s|symbol" % d, "%%%s without a symbol is no error" % d, s)
        R.ok(DIR, 18, "%destructor, %type")
        self.lists()

    def lists(self):
        R, E = self.R, self.E
        none = lambda lv, st: None

        def ended(s, key):
            if s.get(fld("PS", "state")) != E["WAITING_FOR_DECL_OR_RULE"]:
                self.bad(DIR, key + "|end", "the declaration does not end at the dot", s)
        # %fallback
        for oldb in (0, ptr("sym_OTHER")):
            for s in self.chain("WAITING_FOR_DECL_KEYWORD", ["fallback", "ID", "A", "B", "."], {fld("sym_B", "fallback"): oldb, fld("sym_A", "fallback"): 0, fld("L", "has_fallback"): 0}, none):
                ended(s, "fallback")
                if oldb == 0:
                    if self.errors(s):
                        self.bad(DIR, "fallback|error", "a correct %fallback is refused", s)
                    if s.get(fld("sym_B", "fallback")) != ptr("sym_ID"):
                        self.bad(DIR, "fallback|second", "the second token of %fallback does not fall back to the first one named", s)
                else:
                    if not self.errors(s):
                        self.bad(DIR, "fallback|twice", "a second fallback for a token is no error", s)
                    if s.get(fld("sym_B", "fallback")) != oldb:
                        self.bad(DIR, "fallback|replaced", "a second fallback replaces the first", s)
                if s.get(fld("sym_A", "fallback")) != ptr("sym_ID"):
                    self.bad(DIR, "fallback|first", "a token of %fallback does not fall back to the first one named", s)
                if not s.get(fld("L", "has_fallback")):
                    self.bad(DIR, "fallback|any", "the grammar is not marked as having fallbacks", s)
                self.kept(s, DIR, "fallback", "%fallback", {("sym_A", "fallback"), ("sym_B", "fallback"), ("L", "has_fallback")})
        for d in ("fallback", "wildcard", "token"):
            for s in self.chain("WAITING_FOR_DECL_KEYWORD", [d, "x"], {}, none):
                if not self.errors(s):
                    self.bad(DIR, d + "|nonterminal", "%%%s takes what is no token without an error" % d, s)
                self.kept(s, DIR, d + "|nonterminal", "a refused %" + d, set())
        # %wildcard
        for old in (0, ptr("sym_OLD")):
            for s in self.chain("WAITING_FOR_DECL_KEYWORD", ["wildcard", "ANY", "."], {fld("L", "wildcard"): old}, none):
                ended(s, "wildcard")
                if s.get(fld("L", "wildcard")) != (old or ptr("sym_ANY")):
                    self.bad(DIR, "wildcard", "the wildcard is not the token first declared", s)
                if self.errors(s) != bool(old):
                    self.bad(DIR, "wildcard|error", "a second wildcard is no error, or the first is one", s)
                self.kept(s, DIR, "wildcard", "%wildcard", {("L", "wildcard")})
        # %token
        for s in self.chain("WAITING_FOR_DECL_KEYWORD", ["token", "A", "B", "."], {}, none):
            ended(s, "token")
            if self.errors(s):
                self.bad(DIR, "token|error", "a correct %token is refused", s)
            self.kept(s, DIR, "token", "%token", set())
        # %token_class
        for sep in ("", "|", "/"):
            for s in self.chain("WAITING_FOR_DECL_KEYWORD", ["token_class", "num", "INT", sep + "FLOAT", "."], {}, none):
                if s.get(("init", "known_num", 0, "")) == 1:
                    if not self.errors(s):
                        self.bad(DIR, "token_class|used", "a token class may take the name of a symbol in use", s)
                    continue
                ended(s, "token_class")
                sub = s.get(fld("sym_num", "subsym"))
                got = [s.get(("h", sub[1], sub[2] + i, "")) for i in (0, 1)] if isinstance(sub, tuple) else None
                if self.errors(s) or s.get(fld("sym_num", "type")) != E["MULTITERMINAL"] or s.get(fld("sym_num", "nsubsym")) != 2 or got != [ptr("sym_INT"), ptr("sym_FLOAT")]:
                    self.bad(DIR, "token_class", "a token class does not consist of the tokens named in it, in order", s)
                self.kept(s, DIR, "token_class", "%token_class", {("sym_num", "*")})
        for s in self.chain("WAITING_FOR_DECL_KEYWORD", ["token_class", "num", "x"], {}, none):
            if not self.errors(s):
                self.bad(DIR, "token_class|nonterminal", "a token class takes what is no token without an error", s)
        for s in self.chain("WAITING_FOR_DECL_KEYWORD", ["yacc_prec"], {fld("L", "yaccPrec"): 0}, none):
            ended(s, "yacc_prec")
            if self.errors(s) or not s.get(fld("L", "yaccPrec")):
                self.bad(DIR, "yacc_prec", "%yacc_prec does not select yacc's precedence rules", s)
            self.kept(s, DIR, "yacc_prec", "%yacc_prec", {("L", "yaccPrec")})
        for w in ("nosuch", "names", "lef", "9"):
            for s in self.chain("WAITING_FOR_DECL_KEYWORD", [w], {}, none):
                if not self.errors(s):
                    self.bad(DIR, "unknown", "the unknown directive %%%s is no error" % w, s)
                self.kept(s, DIR, "unknown", "an unknown directive", set())
        # after an error the parser finds the next declaration
        for st0 in ("RESYNC_AFTER_RULE_ERROR", "RESYNC_AFTER_DECL_ERROR"):
            for x, w in ((".", "WAITING_FOR_DECL_OR_RULE"), ("%", "WAITING_FOR_DECL_KEYWORD"), ("word", st0)):
                for s in self.chain(st0, [x], {}, none):
                    if w == st0:
                        if s.get(fld("PS", "state")) not in (E["RESYNC_AFTER_RULE_ERROR"], E["RESYNC_AFTER_DECL_ERROR"]):
                            self.bad(DIR, "resync|" + x, "after an error reading starts again in the middle", s)
                    elif s.get(fld("PS", "state")) != E[w]:
                        self.bad(DIR, "resync|" + x, "after an error reading does not go on at %r" % x, s)
        R.ok(DIR, 30, "%fallback, %wildcard, %token, %token_class, %yacc_prec, unknown directives, recovery")

    # ------------------------------------------------------------ rules
    def rules(self):
        R, E = self.R, self.E
        none = lambda lv, st: None
        rhss = [([], []), (["A"], [("A", None)]), (["b", "(", "Y", ")"], [("b", "Y")]), (["A", "b", "(", "Y", ")", "C"], [("A", None), ("b", "Y"), ("C", None)])]
        for lhs, la in ((["x"], None), (["x", "(", "X", ")"], "X")):
            for toks, want in rhss:
                for first in (0, ptr("RF")):
                    for init in (False, True):
                        mem = {fld("PS", "firstrule"): first, fld("PS", "lastrule"): ptr("RL") if first else 0, fld("RL", "next"): 0, fld("PS", "prevrule"): ptr("PR"), fld("L", "nrule"): 9,
                               fld("sym_x", "rule"): ptr("RX")}
                        for c in ("b", "A", "C"):
                            mem[fld("sym_" + c, "bContent")] = 0
                        start = "INITIALIZE" if init else "WAITING_FOR_DECL_OR_RULE"
                        if init:
                            if not first:
                                continue
                        for s in self.chain(start, lhs + ["::="] + toks + ["."], mem, none):
                            r = s.get(fld("PS", "prevrule"))
                            if self.errors(s) or not isinstance(r, tuple) or s.get(fld("PS", "state")) != E["WAITING_FOR_DECL_OR_RULE"]:
                                self.bad(RULE, "complete", "a correct rule is refused or not complete at its dot", s)
                                continue
                            g = lambda f: s.get(("h", r[1], r[2], f), 0)
                            rh, al = g("rhs"), g("rhsalias")
                            got = []
                            for i in range(len(want)):
                                a = s.get(("h", rh[1], rh[2] + i, ""), 0) if isinstance(rh, tuple) else None
                                b = s.get(("h", al[1], al[2] + i, ""), 0) if isinstance(al, tuple) else None
                                got.append((a[1][4:] if isinstance(a, tuple) else a, spell(s, b) if b else None))
                            facts = [("left-hand side", g("lhs"), ptr("sym_x")), ("alias of the left-hand side", spell(s, g("lhsalias")) if g("lhsalias") else None, la), ("number of symbols", g("nrhs"), len(want)),
                                     ("right-hand side", got, want), ("action", g("code"), 0), ("mark for no action", bool(g("noCode")), True), ("precedence", g("precsym"), 0),
                                     ("number", g("index"), 0 if init else 9), ("next rule", g("next"), 0), ("next rule of its left-hand side", g("nextlhs"), ptr("RX")),
                                     ("place among the rules of its left-hand side", s.get(fld("sym_x", "rule")), r), ("count of rules", s.get(fld("L", "nrule")), 1 if init else 10),
                                     ("first rule", s.get(fld("PS", "firstrule")), r if init or not first else first), ("last rule", s.get(fld("PS", "lastrule")), r),
                                     ("line", g("ruleline"), 5 + len(lhs) + 1 + len(toks))]
                            if first and not init:
                                facts.append(("place in the list of rules", s.get(fld("RL", "next")), r))
                            for nm, a in want:
                                if a:
                                    facts.append(("mark that a symbol has a value", bool(s.get(fld("sym_" + nm, "bContent"))), True))
                            for what, a, b in facts:
                                if a != b:
                                    self.bad(RULE, what, "a rule's %s is recorded as %s where it should be %s" % (what, a, b), s)
                            self.kept(s, RULE, "rule", "a rule", {("L", "nrule"), ("sym_x", "rule"), ("RL", "next")} | set(("sym_" + nm, "bContent") for nm, a in want if a))
        # alternatives
        for sep in ("|", "/"):
            for s in self.chain("WAITING_FOR_DECL_OR_RULE", ["x", "::=", "A", sep + "B", sep + "C", "(", "Y", ")", "."], {fld("PS", "firstrule"): 0, fld("L", "nrule"): 9, fld("sym_x", "rule"): 0, fld("L", "lastSymId"): 4}, none):
                r = s.get(fld("PS", "prevrule"))
                ok = not self.errors(s) and isinstance(r, tuple) and s.get(("h", r[1], r[2], "nrhs")) == 1
                if ok:
                    rh = s.get(("h", r[1], r[2], "rhs"))
                    ms = s.get(("h", rh[1], rh[2], ""))
                    ok = isinstance(ms, tuple) and s.get(("h", ms[1], ms[2], "type")) == E["MULTITERMINAL"] and s.get(("h", ms[1], ms[2], "nsubsym")) == 3
                    if ok:
                        sub = s.get(("h", ms[1], ms[2], "subsym"))
                        ok = [s.get(("h", sub[1], sub[2] + i, "")) for i in range(3)] == [ptr("sym_A"), ptr("sym_B"), ptr("sym_C")]
                if not ok:
                    self.bad(RULE, "alternatives", "alternatives of one place of a rule are not recorded as written", s)
                self.kept(s, RULE, "alternatives", "a rule", {("L", "nrule"), ("sym_x", "rule"), ("L", "lastSymId")})
        for x in ("|b", "|B"):
            for s in self.chain("WAITING_FOR_DECL_OR_RULE", ["x", "::=", "a" if x == "|B" else "A", x], {}, none):
                if not self.errors(s):
                    self.bad(RULE, "alternatives|nonterminal", "alternatives may contain a nonterminal", s)
        # action and precedence mark
        for prev in (0, ptr("PR")):
            for code in (0, ("s", "old", 0)):
                mem = {fld("PS", "prevrule"): prev, fld("PR", "code"): code, fld("PR", "line"): 1, fld("PR", "noCode"): 1, fld("PR", "neverReduce"): 0}
                for x in ("{ act", "{NEVER-REDUCE"):
                    for s in self.chain("WAITING_FOR_DECL_OR_RULE", [x], mem, none):
                        if not prev or code:
                            if not self.errors(s):
                                self.bad(RULE, "action|misplaced", "code without a rule, or a second action, is no error", s)
                            self.kept(s, RULE, "action|misplaced", "refused code", set())
                        elif x == "{ act":
                            if self.errors(s) or spell(s, s.get(fld("PR", "code"))) != " act" or s.get(fld("PR", "line")) != 5 or s.get(fld("PR", "noCode")):
                                self.bad(RULE, "action", "the action of a rule is not recorded with its text and line", s)
                            self.kept(s, RULE, "action", "an action", {("PR", "code"), ("PR", "line"), ("PR", "noCode")})
                        else:
                            if self.errors(s) or not s.get(fld("PR", "neverReduce")):
                                self.bad(RULE, "never-reduce", "{NEVER-REDUCE is not recorded", s)
                            self.kept(s, RULE, "never-reduce", "{NEVER-REDUCE", {("PR", "neverReduce")})
            for psym in (0, ptr("sym_OLD")):
                mem = {fld("PS", "prevrule"): prev, fld("PR", "precsym"): psym, fld("PR", "precsym_decl"): 0, fld("L", "ignorePrec"): 0}
                for s in self.chain("WAITING_FOR_DECL_OR_RULE", ["[", "TOK", "]"], mem, none):
                    if s.get(fld("PS", "state")) != E["WAITING_FOR_DECL_OR_RULE"]:
                        self.bad(RULE, "mark|end", "a precedence mark does not end at its bracket", s)
                    if not prev or psym:
                        if not self.errors(s):
                            self.bad(RULE, "mark|misplaced", "a precedence mark without a rule, or a second one, is no error", s)
                        self.kept(s, RULE, "mark|misplaced", "a refused mark", set())
                    else:
                        if self.errors(s) or s.get(fld("PR", "precsym")) != ptr("sym_TOK"):
                            self.bad(RULE, "mark", "a precedence mark does not name the rule's symbol", s)
                        self.kept(s, RULE, "mark", "a precedence mark", {("PR", "precsym"), ("PR", "precsym_decl")})
        # what is no rule
        wrong = [["X"], ["x", "A"], ["x", "(", "9"], ["x", "(", "X", "A"], ["x", "(", "X", ")", "A"], ["x", "::=", "("], ["x", "::=", "A", "(", "9"], ["x", "::=", "A", "(", "Y", "Z"], ["x", "::=", "["], ["x", "::=", "|B"],
                 ["[", "x"], ["[", "TOK", "x"]]
        for t in wrong:
            for s in self.chain("WAITING_FOR_DECL_OR_RULE", t, {fld("PS", "prevrule"): ptr("PR"), fld("PR", "precsym"): 0}, none):
                if not self.errors(s):
                    self.bad(RULE, "wrong|%s" % " ".join(t), "`%s' in a rule is no error" % " ".join(t), s)
        R.ok(RULE, 100, "rules, actions and marks")


# ------------------------------------------------------------------------------------------------ options of lemon
STEPS = ["Parse", "FindRulePrecedences", "FindFirstSets", "FindStates", "FindLinks", "FindFollowSets", "FindActions", "CompressTables", "ResortStates", "ReportOutput", "ReportTable", "ReportHeader", "Reprint",
         "Reprint_yacc", "ReportSQL"]
BASE = ["Parse", "FindRulePrecedences", "FindFirstSets", "FindStates", "FindLinks", "FindFollowSets", "FindActions", "CompressTables", "ResortStates", "ReportOutput", "ReportTable", "ReportHeader"]


def without(*x):
    return [e for e in BASE if e not in x]


def lemon_options(R, p):
    f = p.fn("main")
    for s in STEPS:
        if s not in p.functions:
            raise AnalysisBroken("no function %s" % s)
    fields = {"z": ("yaccPrec", "FindRulePrecedences"), "u": ("ignorePrec", "Parse"), "p": ("showPrecedenceConflict", "ReportOutput"), "l": ("nolinenosflag", "Parse"), "b": ("basisflag", "ReportOutput"),
              "E": ("printPreprocessed", "Parse")}
    allf = sorted(set(x for x, _ in fields.values()))
    expect = {"": BASE, "b": BASE, "c": without("CompressTables"), "E": ["Parse"], "f": BASE, "g": None, "y": None, "Y": None, "z": BASE, "u": BASE, "I": BASE, "m": without("ReportHeader"), "l": BASE, "O": BASE,
              "p": BASE, "q": without("ReportOutput"), "r": BASE, "s": BASE, "S": None, "x": [], "W": BASE}
    extra = {"g": ["Reprint"], "y": ["Reprint_yacc"], "Y": ["Reprint_yacc"], "S": ["ReportSQL"]}
    base_args = {}
    n = 0
    for o in sorted(expect):
        seen = {}

        def step(nm):
            def op(vals, st, nd, I):
                a = [v for v in vals if isinstance(v, tuple) and v[0] == "p" and isinstance(v[1], tuple) and v[1][0] == "loc"]
                L = a[0][1] if a else None
                flags = tuple((x, read(st, L, x)) for x in allf)
                st = st.put(("ext", "steps"), st.get(("ext", "steps"), ()) + ((nm, flags, tuple(v for v in vals if isinstance(v, int))),))
                if nm == "Parse" and L is not None:
                    st = st.put(fld(L, "nrule"), 2).put(fld(L, "rule"), 0).put(fld(L, "errorcnt"), 0)
                return [(TOP, st)]
            return op

        def read(st, L, x):
            v = st.get(fld(L, x))
            return 0 if v is None and ("zero", L) in st.mem else v

        def op_exit(vals, st, nd, I):
            ends.append((vals[0] if vals else TOP, st))
            return []
        ends = []
        ops = dict((s, step(s)) for s in STEPS)
        keep = lambda vals, st, nd, I: [(vals[0] if vals else TOP, st)]

        def strchr(vals, st, nd, I):
            t = absint.text(vals[0])
            if t is None or not isinstance(vals[1], int):
                return [(TOP, st)]
            i = t.find(chr(vals[1]))
            return [(0 if i < 0 else ("s", vals[0][1], vals[0][2] + i), st)]
        ops.update({"exit": op_exit, "Symbol_count": lambda vals, st, nd, I: [(3, st)], "Symbol_arrayof": lambda vals, st, nd, I: [(ptr("syms"), st)],
                    "State_arrayof": lambda vals, st, nd, I: [(ptr("sorted"), st)], "Symbol_find": lambda vals, st, nd, I: [(0, st)], "Rule_sort": lambda vals, st, nd, I: [(vals[0], st)],
                    "strchr": strchr})

        def dom(lv, st):
            if lv[1] == "syms":
                return [ptr("sy%d" % lv[2])] if 0 <= lv[2] <= 3 else None
            if isinstance(lv[1], str) and lv[1].startswith("sy") and lv[3] == "name":
                return [("s", {"sy0": "$", "sy1": "x", "sy2": "{default}"}.get(lv[1], "{default}"), 0)]
            if isinstance(lv[1], str) and lv[1].startswith("sy") and lv[3] == "type":
                return [1]
            if lv[1] == "argv":
                return [[("s", "lemon", 0), ("s", "-" + o, 0), ("s", "g.y", 0), 0][lv[2]]] if o else [[("s", "lemon", 0), ("s", "g.y", 0), 0][lv[2]]]
            return None
        I = Interp(p, Lazy(dom, ops, skip=("printf", "fprintf", "Strsafe_init", "Symbol_init", "State_init", "Symbol_new", "SetSize", "qsort", "stats_line", "free", "atoi", "OptPrint", "errline", "Configtable_deinit",
                                           "State_deinit", "Symbol_deinit", "Strsafe_deinit")))
        outs = I.run("main", [3 if o else 2, ptr("argv")], State({}))
        ends += [(v, s) for v, s in outs]
        if not ends:
            raise AnalysisBroken("main never ends with -%s" % o)
        for v, s in ends:
            st = s.get(("ext", "steps"), ())
            names = [x[0] for x in st]
            # a run that ends because something failed is not judged here
            if v != 0 and v != TOP and "ReportTable" not in names:
                w = expect[o] if expect[o] is not None else BASE
                if o in ("E", "x") or names == ["Parse"] or not names:
                    R.bad(OPT, "main|-%s|fails" % o, p.loc(f), "main", "-%s ends the program with status %s" % (o, v), [str(names)])
                continue
            n += 1
            ex = extra.get(o, [])
            got = [x for x in names if x not in ex]
            want = expect[o] if expect[o] is not None else BASE
            if sorted(set(got), key=got.index) != want:
                miss = [x for x in want if x not in got]
                more = [x for x in got if x not in want]
                R.bad(OPT, "main|-%s|steps" % o, p.loc(f), "main", "with -%s: %s" % (o, "; ".join((["%s is not done" % ", ".join(miss)] if miss else []) + (["%s is done" % ", ".join(more)] if more else []) or ["the steps come in another order"])),
                      [str(names)])
            for x in ex:
                if names.count(x) != 1:
                    R.bad(OPT, "main|-%s|extra" % o, p.loc(f), "main", "-%s does not write its output (%s) exactly once" % (o, x), [str(names)])
            for x in set(STEPS) - set(want) - set(ex):
                if x in names and x in ("Reprint", "Reprint_yacc", "ReportSQL"):
                    R.bad(OPT, "main|-%s|unasked" % o, p.loc(f), "main", "%s is written although -%s does not ask for it" % (x, o), [str(names)])
            if o == "Y" and names.index("FindRulePrecedences") > names.index("Reprint_yacc"):
                R.bad(OPT, "main|-Y|precedences", p.loc(f), "main", "-Y prints the grammar before the precedences of its rules are known", [str(names)])
            for nm, flags, args in st:
                for x, v2 in flags:
                    mine = [c for c in fields if fields[c][0] == x]
                    at = fields[mine[0]][1]
                    if nm != at:
                        continue
                    if bool(v2) != (o in mine) or v2 == TOP:
                        R.bad(OPT, "main|-%s|%s" % (o, x), p.loc(f), "main", "%s is %s with -%s when %s runs" % (x, v2, o, nm), [str(names)])
                key = (nm,)
                if o == "":
                    base_args[key] = args
                elif key in base_args:
                    ch = {"m": "ReportTable", "r": "ResortStates"}.get(o)
                    if (args != base_args[key]) != (nm == ch):
                        R.bad(OPT, "main|-%s|%s arguments" % (o, nm), p.loc(f), "main", "-%s %s what %s is told" % (o, "does not change" if nm == ch else "changes", nm), [str(args), str(base_args[key])])
    # the options with text
    tab = {}
    for d in f.walk():
        if d.kind == "VarDecl" and "s_options" in (d.ctype or "") and d.extra and d.extra.get("init"):
            for row in d.kids[-1].kids:
                if row.kind != "InitListExpr" or len(row.kids) < 3:
                    continue
                strs = [x for x in row.kids[1].walk() if x.kind == "StringLiteral"]
                fns = [x.ref.name for x in row.kids[2].walk() if x.kind == "DeclRefExpr" and x.ref is not None and x.ref.kind == "FunctionDecl"]
                if strs:
                    tab[unquote(strs[0].val)] = fns[0] if fns else None
    if not tab:
        raise AnalysisBroken("no option table in main")
    for o, h, field in (("d", None, "outputDir"), ("T", None, "user_templatename")):
        hf = tab.get(o)
        if hf is None or hf not in p.functions:
            R.bad(OPT, "options|-%s" % o, p.loc(f), "main", "-%s has no handler" % o)
            continue
        lem = Lemon(R, p)
        I = Interp(p, Lazy(lambda lv, st: None, lem.ops(), skip=("fprintf",)))
        for _, s in I.run(hf, [ptr("L"), ("s", "a/text", 0)], State({fld("L", "outputDir"): 0, fld("L", "user_templatename"): 0})):
            n += 1
            if spell(s, s.get(fld("L", field))) != "a/text":
                R.bad(OPT, "options|-%s|text" % o, p.loc(p.fn(hf)), hf, "the text of -%s is not what %s holds" % (o, field))
            for k in ("outputDir", "user_templatename"):
                if k != field and s.get(fld("L", k)) != 0:
                    R.bad(OPT, "options|-%s|other" % o, p.loc(p.fn(hf)), hf, "-%s sets %s" % (o, k))
    R.ok(OPT, n, "lemon: main with each option")
    R.count("abstract cases: lemon options", n, 20)


# ------------------------------------------------------------------------------------------------ byacc
KEYS = {"token": "TOKEN", "term": "TOKEN", "left": "LEFT", "right": "RIGHT", "nonassoc": "NONASSOC", "binary": "NONASSOC", "precedence": "PRECEDENCE", "start": "START", "type": "TYPE", "nterm": "TYPE", "union": "UNION",
        "ident": "IDENT", "expect": "EXPECT", "expect-rr": "EXPECT_RR", "pure-parser": "PURE_PARSER", "parse-param": "PARSE_PARAM", "lex-param": "LEX_PARAM", "token-table": "TOKEN_TABLE", "error-verbose": "ERROR_VERBOSE",
        "debug": "NONPOSIX_DEBUG", "define": "HACK_DEFINE", "code": "XCODE", "yacc": "POSIX_YACC"}
BTKEYS = {"locations": "LOCATIONS", "destructor": "DESTRUCTOR", "initial-action": "INITIAL_ACTION"}
MARKS = {"%%": "MARK", "%\\": "MARK", "%{": "TEXT", "%<": "LEFT", "%>": "RIGHT", "%0": "TOKEN", "%2": "NONASSOC"}
SPELL = {"token": ["TOKEN", "Token"], "expect-rr": ["expect_rr"], "pure-parser": ["pure_parser"], "token-table": ["token_table"]}
CALLS = {"IDENT": "copy_ident", "XCODE": "copy_code", "TEXT": "copy_text", "UNION": "copy_union", "TOKEN": "declare_tokens", "LEFT": "declare_tokens", "RIGHT": "declare_tokens", "NONASSOC": "declare_tokens",
         "PRECEDENCE": "declare_tokens", "EXPECT": "declare_expect", "EXPECT_RR": "declare_expect", "TYPE": "declare_types", "START": "declare_start", "PARSE_PARAM": "copy_param", "LEX_PARAM": "copy_param",
         "HACK_DEFINE": "hack_defines", "DESTRUCTOR": "copy_destructor", "INITIAL_ACTION": "copy_initial_action"}
FLAGS = {"PURE_PARSER": "pure_parser", "TOKEN_TABLE": "token_table", "ERROR_VERBOSE": "error_verbose", "LOCATIONS": "locations", "DESTRUCTOR": "destructor", "NONPOSIX_DEBUG": "tflag"}
WITHK = ("TOKEN", "LEFT", "RIGHT", "NONASSOC", "PRECEDENCE", "EXPECT", "EXPECT_RR", "PARSE_PARAM", "LEX_PARAM")


def byacc_keywords(R, p, name, bt):
    E = dict((c, v) for c, (e, v) in p.enum_of.items())
    f = p.fn("keyword")
    g = [v for k, v in p.globals.items() if v.kids and any(x.kind == "InitListExpr" for x in v.kids) and "struct keyword" in (v.ctype or "")]
    if len(g) != 1:
        raise AnalysisBroken("no table of keywords in %s" % name)
    g = g[0]
    rows = []
    for row in g.kids[-1].kids:
        s = [x for x in row.walk() if x.kind == "StringLiteral"]
        if row.kind == "InitListExpr" and s:
            rows.append((unquote(s[0].val), cfg.const_int(row.kids[1])))
    if len(rows) < 20:
        raise AnalysisBroken("only %d keywords in %s" % (len(rows), name))
    by = any(cfg.callee(n) == "bsearch" for n in f.walk() if n.kind == "CallExpr")
    if by:
        for a, b in zip(rows, rows[1:]):
            if not a[0] < b[0]:
                R.bad(KEY, "keyword|sorted|%s" % b[0], p.loc(g), g.name, "the table that is searched by halving is not in order: %s comes after %s" % (b[0], a[0]))
    want = dict(KEYS)
    if bt:
        want.update(BTKEYS)
    n = 0

    def cachec(vals, st, nd, I):
        k = st.get(fld("S", "cinc"))
        if isinstance(k, int):
            st = st.put(fld("S", "cinc"), k + 1)
        return [(TOP, st.put(("ext", "cache"), st.get(("ext", "cache"), "") + (chr(vals[1]) if isinstance(vals[1], int) else "?")))]

    def search(vals, st, nd, I):
        k = st.get(("ext", "cache"), "").split("\0")[0]
        i = [j for j, r in enumerate(rows) if r[0] == k]
        return [(ptr("kw", i[0]) if i else 0, st)]

    def dom(lv, st):
        if lv[1] == "kw" and lv[3] == "token":
            return [rows[lv[2]][1]]
        if lv[1] == ("g", g.name) or lv[1] == "kw":
            return None
        return None
    tests = [("%" + k, v) for k, v in want.items()] + [("%" + s, want[k]) for k, l in SPELL.items() for s in l] + list(MARKS.items()) + [("%nosuch", None), ("%tok", None), ("%tokens", None), ("%?", None)]
    for txt, code in sorted(tests):
        I = Interp(p, Lazy(dom, {"cachec": cachec, "bsearch": search}, skip=()))
        outs = I.run("keyword", [ptr("S")], State({fld("S", "cptr"): ("s", txt + " x\n", 0), fld("S", "cinc"): 7}))
        n += 1
        if code is None:
            if outs:
                R.bad(KEY, "keyword|%s" % txt, p.loc(f), "keyword", "%s is taken as a declaration (%s)" % (txt, name))
            continue
        if not outs:
            R.bad(KEY, "keyword|%s" % txt, p.loc(f), "keyword", "%s is refused (%s)" % (txt, name))
        for v, s in outs:
            if v != E[code]:
                R.bad(KEY, "keyword|%s" % txt, p.loc(f), "keyword", "%s is taken as another declaration (%s)" % (txt, name))
            c = s.get(fld("S", "cptr"))
            if code in ("MARK", "TEXT") or len(txt) > 2 or txt[1:].isalpha() or True:
                if not (isinstance(c, tuple) and c[0] == "s" and c[2] == len(txt)):
                    R.bad(KEY, "keyword|%s|end" % txt, p.loc(f), "keyword", "reading goes on %s %s (%s)" % ("not right after", txt, name))
    R.ok(KEY, n, "%s: keyword" % name)
    # dispatch
    f = p.fn("read_declarations")
    codes = sorted(set(want.values()) | {"MARK", "TEXT"})
    for code in codes:
        def key(vals, st, nd, I):
            k = st.get(("ext", "k"), 0)
            return [(E[code] if k == 0 else E["MARK"], st.put(("ext", "k"), k + 1))]

        def event(nm):
            def op(vals, st, nd, I):
                return [(TOP, st.put(("ext", "ev"), st.get(("ext", "ev"), ()) + ((nm,) + tuple(v for v in vals if isinstance(v, int)),)))]
            return op
        ops = dict((c, event(c)) for c in set(CALLS.values()))
        ops.update({"keyword": key, "nextc": lambda vals, st, nd, I: [(ord("%"), st)], "malloc": lambda vals, st, nd, I: [(ptr("cache"), st)], "allocate": lambda vals, st, nd, I: [(ptr("cache"), st)]})
        m = dict((fld("S", x), 0) for x in FLAGS.values())
        outs = Interp(p, Lazy(lambda lv, st: None, ops)).run("read_declarations", [ptr("S")], State(m))
        if not outs:
            R.bad(KEY, "read_declarations|%s" % code, p.loc(f), "read_declarations", "%s never comes to an end (%s)" % (code, name))
        for _, s in outs:
            n += 1
            evs = s.get(("ext", "ev"), ())
            w = ()
            if code in CALLS:
                w = ((CALLS[code],) + ((E[code],) if code in WITHK else ()),)
            if evs != w:
                R.bad(KEY, "read_declarations|%s|handler" % code, p.loc(f), "read_declarations", "%s is handled by %s, not %s (%s)" % (code, evs, w, name))
            if s.get(("ext", "k")) != (1 if code == "MARK" else 2):
                R.bad(KEY, "read_declarations|%s|end" % code, p.loc(f), "read_declarations", "the declarations end at %s (%s)" % (code, name))
            for c2, fl in sorted(FLAGS.items()):
                if c2 not in want.values():
                    continue
                if bool(s.get(fld("S", fl))) != (c2 == code):
                    R.bad(KEY, "read_declarations|%s|%s" % (code, fl), p.loc(f), "read_declarations", "%s %s %s (%s)" % (code, "does not set" if c2 == code else "sets", fl, name))
    # %expect, %start
    f = p.fn("declare_expect")
    for code, fl in (("EXPECT", "SRexpect"), ("EXPECT_RR", "RRexpect")):
        ops = {"get_number": lambda vals, st, nd, I: [(12, st)]}
        for _, s in Interp(p, Lazy(lambda lv, st: None, ops)).run("declare_expect", [ptr("S"), E[code]], State({fld("S", "cptr"): ("s", "x \t12\n", 0), fld("S", "SRexpect"): -1, fld("S", "RRexpect"): -1, fld("S", "prec"): 3})):
            n += 1
            for x in ("SRexpect", "RRexpect"):
                if s.get(fld("S", x)) != (12 if x == fl else -1):
                    R.bad(KEY, "declare_expect|%s|%s" % (code, x), p.loc(f), "declare_expect", "%s leaves %s as %s (%s)" % (code, x, s.get(fld("S", x)), name))
            if s.get(fld("S", "prec")) != 3:
                R.bad(KEY, "declare_expect|%s|prec" % code, p.loc(f), "declare_expect", "%s opens a precedence level (%s)" % (code, name))
    f = p.fn("declare_start")
    for cls in ("TERM", "NONTERM", "UNKNOWN"):
        for old in (0, ptr("oldgoal")):
            cv = dict((c, v) for c, (e, v) in p.enum_of.items()).get(cls)
            if cv is None:
                cv = {"UNKNOWN": 0, "TERM": 1, "NONTERM": 2}[cls]
            ops = {"nextc": lambda vals, st, nd, I: [(ord("a"), st)], "get_name": lambda vals, st, nd, I: [(ptr("bp"), st)]}
            I = Interp(p, Lazy(lambda lv, st: None, ops, skip=("restarted_warning",)))
            outs = I.run("declare_start", [ptr("S")], State({fld("S", "goal"): old, fld("bp", "class"): cv, fld("bp", "name"): ("s", "a", 0), fld("S", "cptr"): ("s", "a\n", 0)}))
            n += 1
            if cls == "TERM" and outs:
                R.bad(KEY, "declare_start|token", p.loc(f), "declare_start", "a token may be the start symbol (%s)" % name)
            if cls != "TERM" and (not outs or any(s.get(fld("S", "goal")) != ptr("bp") for _, s in outs)):
                R.bad(KEY, "declare_start|goal", p.loc(f), "declare_start", "%%start does not set the start symbol (%s)" % name)
    R.ok(KEY, n, "%s: read_declarations, declare_expect, declare_start" % name)
    R.count("abstract cases: %s declarations" % name, n, 60)


def run(R):
    R.explain = ("lemon's grammar parser is interpreted token by token (parseonetoken with its callees in place, from an arbitrary state left by what came before) for every directive and every form of a rule; afterwards the "
                 "grammar's fields, symbols and rules must hold exactly what was written and nothing else may have changed; what is no directive or rule must be an error. main is interpreted with each option: the steps it takes, in "
                 "order, and the settings in force. byacc's keyword table (order included), its spelling rules, and the handler or setting of each declaration are compared with the documentation, in both variants.")
    R.rule(DIR, "each directive's argument is appended to its own field (with a #line where it is code), symbols and tokens get what is declared for them, anything else is an error")
    R.rule(RULE, "a rule is recorded with its symbols, aliases, action, mark, number and place; anything else is an error")
    R.rule(OPT, "each option has its documented effect on the steps and settings, and no other")
    R.rule(KEY, "every spelling of a declaration leads to its handler or setting, and no other")
    R.assumes += ["text of the grammar is split into tokens as documented (not judged here)", "qsort, Symbol_new and Symbol_find do what they are for"]
    p = prog.lemon()
    L = Lemon(R, p)
    L.directives()
    L.rules()
    R.count("abstract cases: lemon grammar", L.n, 150)
    lemon_options(R, p)
    for bt, name in ((True, "btyacc"), (False, "yacc")):
        byacc_keywords(R, prog.byacc(bt), name, bt)
