"""conflicts are resolved by the documented precedence rules, and only what survives reaches the tables"""
import prog
import absint
from absint import Interp, Model, State, TOP, ptr, fld
from cast import AnalysisBroken

RES, PREC, DECL, ORD, CNT, TAB = ("which action wins", "precedence of a rule", "precedence of a symbol", "earlier comes first",
                                  "conflicts are counted", "only survivors are used")


class Lazy(Model):
    """fields split lazily over the points of `dom(location)`; calls named in `ops`"""

    def __init__(self, dom, ops=None, skip=()):
        self.dom, self.ops, self.skip = dom, ops or {}, set(skip)

    def read(self, lv, st, node):
        d = self.dom(lv, st)
        if d is None:
            return [(TOP, st)]
        out = []
        for v in d:
            s = st.put(lv, v)
            if not isinstance(lv[1], tuple) or lv[1][0] != "loc":
                s = s.put(("init",) + lv[1:], v)
            out.append((v, s))
        return out

    def call(self, name, node, vals, st, I):
        if name in self.ops:
            return self.ops[name](vals, st, node, I)
        if name in self.skip:
            return [(TOP, st)]
        if name in CTYPE and vals and isinstance(vals[0], int):
            return [(int(CTYPE[name](chr(vals[0] & 255))), st)]
        return None


CTYPE = {"isupper": lambda c: "A" <= c <= "Z", "islower": lambda c: "a" <= c <= "z", "isdigit": lambda c: "0" <= c <= "9",
         "isalpha": lambda c: c.isascii() and c.isalpha(), "isalnum": lambda c: c.isascii() and c.isalnum(),
         "isspace": lambda c: c in " \t\n\v\f\r", "toupper": lambda c: ord(c.upper()), "tolower": lambda c: ord(c.lower())}


class Need(Exception):
    pass


def complete(st, dom, oracle):
    """all (chosen, expectation) of an oracle that may ask for attributes the code never looked at"""
    outs = []
    work = [{}]
    while work:
        extra = work.pop()

        def get(lv):
            k = ("init",) + lv[1:]
            if k in st.mem:
                return st.mem[k]
            if lv in extra:
                return extra[lv]
            if lv in st.mem:
                return st.mem[lv]
            raise Need(lv)
        try:
            outs.append((extra, oracle(get)))
        except Need as e:
            lv = e.args[0]
            s2 = State(dict(list(st.mem.items()) + list(extra.items())))
            d = dom(lv, s2)
            if d is None:
                raise AnalysisBroken("no domain for %r" % (lv,))
            for v in d:
                x = dict(extra)
                x[lv] = v
                work.append(x)
    return outs


def describe(st, extra, names):
    out = []
    for k, v in sorted(list(st.mem.items()) + [(("init",) + k[1:], v) for k, v in extra.items()], key=repr):
        if k[0] == "init":
            n = "%s.%s" % (k[1], k[3]) if k[3] else str(k[1])
            out.append("%s=%s" % (n, names(k, v) if isinstance(v, int) else (v[1] if isinstance(v, tuple) else v)))
    return ", ".join(out)[:600]


class Ctx(object):
    def __init__(self, R, p):
        self.R, self.p = R, p
        self.E = dict((c, v) for c, (e, v) in p.enum_of.items())

    def enum(self, names):
        return [self.E[n] for n in names]


# ------------------------------------------------------------------------------------------------ lemon
ATY = ["SHIFT", "ACCEPT", "REDUCE", "ERROR", "SSCONFLICT", "SRCONFLICT", "RRCONFLICT", "SH_RESOLVED", "RD_RESOLVED", "NOT_USED", "SHIFTREDUCE"]


def lemon_resolve(R, p):
    E = dict((c, v) for c, (e, v) in p.enum_of.items())
    for n in ATY + ["LEFT", "RIGHT", "NONE", "PRECEDENCE"]:
        if n not in E:
            raise AnalysisBroken("enumerator %s is gone" % n)
    inv = dict((E[n], n) for n in ATY)
    f = p.fn("FindActions")
    cases = 0
    # the shapes of one state's list after sorting: groups of actions on one lookahead
    for groups in ([1], [2], [1, 1], [3], [2, 1], [1, 2]):
        acts = []
        for g, k in enumerate(groups):
            for j in range(k):
                acts.append(("a%d" % len(acts), g, j))
        nm = [a[0] for a in acts]
        m = {}
        m[fld("L", "nstate")] = 1
        m[fld("L", "sorted")] = ptr("sorted")
        m[fld("sorted", "", 0)] = ptr("st")
        m[fld("st", "cfp")] = 0
        m[fld("st", "ap")] = ptr(nm[0])
        m[fld("L", "start")] = 0
        m[fld("L", "startRule")] = ptr("r_start")
        m[fld("r_start", "lhs")] = ptr("S")
        for c in ("nconflict", "nconflict_sr", "nconflict_rr", "errorcnt"):
            m[fld("L", c)] = 0
        for i, (a, g, j) in enumerate(acts):
            m[fld(a, "next")] = ptr(nm[i + 1]) if i + 1 < len(nm) else 0
            m[fld(a, "sp")] = ptr("tok%d" % g)
            m[fld(a, "x.rp")] = ptr("rule_" + a)
            m[fld("tok%d" % g, "index")] = g
        m[fld("L", "rule")] = ptr("rule_" + nm[0])
        for i, a in enumerate(nm):
            m[fld("rule_" + a, "next")] = ptr("rule_" + nm[i + 1]) if i + 1 < len(nm) else 0
            m[fld("rule_" + a, "ruleline")] = 1
        first = dict((a, j == 0) for a, g, j in acts)
        levels = [-1, 1, 2, 3] if max(groups) > 2 else [-1, 1, 2]

        def dom(lv, st):
            o, path = lv[1], lv[3]
            if isinstance(o, str):
                if path == "type" and o in first:
                    return [E["SHIFT"], E["REDUCE"]] if first[o] else [E["REDUCE"]]
                if path == "precsym" and o.startswith("rule_"):
                    return [0, ptr("psym_" + o[5:])]
                if path == "prec" and (o.startswith("psym_") or o.startswith("tok")):
                    return levels
                if path == "assoc" and o.startswith("tok"):
                    return [E["LEFT"], E["RIGHT"], E["NONE"], E["PRECEDENCE"]]
            return None
        ops = {"msort": lambda vals, st, n, I: [(vals[0], st)],
               "Action_sort": lambda vals, st, n, I: [(vals[0], st)],
               "Action_add": lambda vals, st, n, I: [(TOP, st)],
               "Symbol_find": lambda vals, st, n, I: [(ptr("S"), st)],
               "ErrorMsg": lambda vals, st, n, I: [(TOP, st)]}
        I = Interp(p, Lazy(dom, ops))
        outs = I.run("FindActions", [ptr("L")], State(m))
        if not outs:
            raise AnalysisBroken("FindActions never returns")

        def names(k, v):
            return inv.get(v, v) if k[3] == "type" else v
        for nmc, node, s in I.ended:
            R.bad(RES, "FindActions|stops", p.loc(node), I_fn(node), "resolving conflicts stops the program (%s)" % nmc,
                  [describe(s, {}, names)])

        def oracle(get):
            t = dict((a, get(fld(a, "type"))) for a in nm)
            sr = rr = 0
            for i, (a, g, _) in enumerate(acts):
                for b, g2, _ in acts[i + 1:]:
                    if g2 != g:
                        break
                    if t[a] in (E["SHIFT"], E["ERROR"]) and t[b] == E["REDUCE"]:
                        pb = get(fld("rule_" + b, "precsym"))
                        if pb == 0 or get(fld("tok%d" % g, "prec")) < 0 or get(fld("psym_" + b, "prec")) < 0:
                            t[b] = E["SRCONFLICT"]
                            sr += 1
                            continue
                        x, y = get(fld("tok%d" % g, "prec")), get(fld("psym_" + b, "prec"))
                        if x > y:
                            t[b] = E["RD_RESOLVED"]
                        elif x < y:
                            t[a] = E["SH_RESOLVED"]
                        else:
                            asc = get(fld("tok%d" % g, "assoc"))
                            if asc == E["RIGHT"]:
                                t[b] = E["RD_RESOLVED"]
                            elif asc == E["LEFT"]:
                                t[a] = E["SH_RESOLVED"]
                            else:
                                t[a], t[b] = E["ERROR"], E["RD_RESOLVED"]
                    elif t[a] == E["REDUCE"] and t[b] == E["REDUCE"]:
                        pa, pb = get(fld("rule_" + a, "precsym")), get(fld("rule_" + b, "precsym"))
                        if pa == 0 or pb == 0:
                            t[b] = E["RRCONFLICT"]
                            rr += 1
                            continue
                        x, y = get(fld("psym_" + a, "prec")), get(fld("psym_" + b, "prec"))
                        if x < 0 or y < 0 or x == y:
                            t[b] = E["RRCONFLICT"]
                            rr += 1
                        elif x > y:
                            t[b] = E["RD_RESOLVED"]
                        else:
                            t[a] = E["RD_RESOLVED"]
            return t, sr, rr
        for _, s in outs:
            for extra, (t, sr, rr) in complete(s, dom, oracle):
                cases += 1

                def now(a):
                    v = s.get(fld(a, "type"))
                    if v is None:
                        v = extra.get(fld(a, "type"))
                    return v
                for a in nm:
                    v = now(a)
                    if v != t[a]:
                        R.bad(RES, "FindActions|%s->%s" % (inv.get(t[a], t[a]), inv.get(v, v)), p.loc(f), "FindActions",
                              "an action that should end as %s ends as %s" % (inv.get(t[a], t[a]), inv.get(v, v)),
                              ["lookaheads %s; %s" % (groups, describe(s, extra, names))])
                for c, want in (("nconflict", sr + rr), ("nconflict_sr", sr), ("nconflict_rr", rr)):
                    v = s.get(fld("L", c))
                    if v != want:
                        R.bad(CNT, "FindActions|%s" % c, p.loc(f), "FindActions", "%s is %s where %d conflicts are unresolved" % (c, v, want),
                              ["lookaheads %s; %s" % (groups, describe(s, extra, names))])
                dead = 0
                for a in nm:
                    c = s.get(fld("rule_" + a, "canReduce"))
                    want = 1 if t[a] == E["REDUCE"] else 0
                    dead += 1 - want
                    if c != want:
                        R.bad(TAB, "FindActions|canReduce", p.loc(f), "FindActions", "a rule with %s reduction left is %s as reducible" % (
                            "a" if want else "no", "marked" if c else "not marked"), [describe(s, extra, names)])
                if s.get(fld("L", "errorcnt")) != dead:
                    R.bad(TAB, "FindActions|errorcnt", p.loc(f), "FindActions", "%s errors are counted where %d rules can never be reduced" % (
                        s.get(fld("L", "errorcnt")), dead), [describe(s, extra, names)])
    R.ok(RES, cases, "FindActions over every list of up to three actions")
    R.ok(CNT, cases)
    R.ok(TAB, cases)
    R.count("abstract cases: lemon conflicts", cases, 300)


def I_fn(n):
    return prog.enclosing(n) or "?"


def lemon_order(R, p):
    """a shift comes before reductions on the same lookahead, reductions by rule number"""
    E = dict((c, v) for c, (e, v) in p.enum_of.items())
    f = p.fn("actioncmp")

    def dom(lv, st):
        o, path = lv[1], lv[3]
        if path == "sp":
            return [ptr("t0"), ptr("t1")]
        if path == "index":
            if o in ("t0", "t1"):
                return [0 if o == "t0" else 1]
            return [3, 4]
        if path == "type":
            return [E["SHIFT"], E["REDUCE"], E["SRCONFLICT"], E["SHIFTREDUCE"]]
        if path == "x.rp":
            return [ptr("rule_" + o)]
        return None
    I = Interp(p, Lazy(dom))
    n = 0
    for v, s in I.run("actioncmp", [ptr("A"), ptr("B")], State({})):
        def oracle(get):
            x, y = get(fld("A", "sp"))[1], get(fld("B", "sp"))[1]
            if x != y:
                return -1 if x < y else 1
            x, y = get(fld("A", "type")), get(fld("B", "type"))
            if x != y:
                pair = set((x, y))
                if pair == set((E["SHIFT"], E["REDUCE"])):
                    return -1 if x == E["SHIFT"] else 1
                return None
            if x == E["REDUCE"]:
                x, y = get(fld("rule_A", "index")), get(fld("rule_B", "index"))
                if x != y:
                    return -1 if x < y else 1
            return None
        for extra, want in complete(s, dom, oracle):
            n += 1
            if want is None:
                continue
            if not isinstance(v, int) or (v > 0) - (v < 0) != want:
                R.bad(ORD, "actioncmp", p.loc(f), "actioncmp", "two actions are ordered %s where the %s comes first" % (v, "first" if want < 0 else "second"),
                      [describe(s, extra, lambda k, v: v)])
    R.ok(ORD, n, "actioncmp: lookahead, then shift before reduction, then rule number")


def lemon_ruleprec(R, p):
    E = dict((c, v) for c, (e, v) in p.enum_of.items())
    f = p.fn("FindRulePrecedences")
    n = 0
    for nrhs in range(0, 4):
        m = {fld("L", "rule"): ptr("r"), fld("r", "next"): 0, fld("r", "nrhs"): nrhs, fld("r", "rhs"): ptr("rhs")}
        for i in range(nrhs):
            m[fld("rhs", "", i)] = ptr("s%d" % i)
            for j in range(2):
                m[fld("sub%d" % i, "", j)] = ptr("s%d_%d" % (i, j))
            m[fld("s%d" % i, "subsym")] = ptr("sub%d" % i)
            m[fld("s%d" % i, "nsubsym")] = 2

        def dom(lv, st):
            o, path = lv[1], lv[3]
            if path in ("ignorePrec", "yaccPrec"):
                return [0, 1]
            if o == "r" and path == "precsym":
                return [0, ptr("override")]
            if path == "type":
                return [E["TERMINAL"]] if "_" in o else [E["TERMINAL"], E["NONTERMINAL"], E["MULTITERMINAL"]]
            if path == "prec":
                return [-1, 5] if (st.get(("init", o, 0, "type"), st.get(fld(o, "type"))) != E["NONTERMINAL"]) else [-1]
            return None
        I = Interp(p, Lazy(dom))
        outs = I.run("FindRulePrecedences", [ptr("L")], State(m))

        def oracle(get):
            if get(fld("L", "ignorePrec")):
                return None
            if get(fld("r", "precsym")) != 0:
                return ("keep",)
            y = get(fld("L", "yaccPrec"))
            cand = []
            for i in range(nrhs):
                t = get(fld("s%d" % i, "type"))
                if t == E["TERMINAL"]:
                    cand.append("s%d" % i)
                elif t == E["MULTITERMINAL"]:
                    cand += ["s%d_0" % i, "s%d_1" % i]
            if y:
                if not cand:
                    return ("is", 0)
                c = cand[-1]
                return ("is", ptr(c) if get(fld(c, "prec")) >= 0 else 0)
            for c in cand:
                if get(fld(c, "prec")) >= 0:
                    return ("is", ptr(c))
            return ("is", 0)
        for _, s in outs:
            for extra, want in complete(s, dom, oracle):
                n += 1
                if want is None:
                    if fld("r", "precsym") in s.mem and ("init", "r", 0, "precsym") not in s.mem:
                        R.bad(PREC, "FindRulePrecedences|ignored", p.loc(f), "FindRulePrecedences", "precedences are set although they are to be ignored")
                    continue
                v = s.get(fld("r", "precsym"))
                w = ptr("override") if want[0] == "keep" else want[1]
                if v != w:
                    R.bad(PREC, "FindRulePrecedences|%s" % want[0], p.loc(f), "FindRulePrecedences",
                          "a rule gets the precedence of %s where it should get that of %s" % (v[1] if isinstance(v, tuple) else "nothing", w[1] if isinstance(w, tuple) else "nothing"),
                          [describe(s, extra, lambda k, v: v)])
    R.ok(PREC, n, "FindRulePrecedences over every right-hand side of up to three symbols")
    R.count("abstract cases: lemon rule precedence", n, 60)


def lemon_decl(R, p):
    E = dict((c, v) for c, (e, v) in p.enum_of.items())
    f = p.fn("parseonetoken")
    n = 0

    def run(x, state, dom, extra):
        m = {fld("PS", "state"): E[state], fld("PS", "gp"): ptr("L"), fld("PS", "preccounter"): 7, fld("PS", "errorcnt"): 0,
             fld("PS", "tokenstart"): ("s", x, 0), fld("PS", "declassoc"): E["UNK"]}
        m.update(extra)
        ops = {"Strsafe": lambda vals, st, nd, I: [(("s", x, 0), st)],
               "Symbol_new": lambda vals, st, nd, I: [(ptr("sym_" + (absint.text(vals[-1]) or "?")), st)],
               "Symbol_find": lambda vals, st, nd, I: [(ptr("sym_" + (absint.text(vals[-1]) or "?")), st)]}
        I = Interp(p, Lazy(dom, ops, skip=("ErrorMsg", "fprintf", "printf")))
        pars = [k for k in f.kids if k is not None and k.kind == "ParmVarDecl"]
        vals = []
        for k in pars:
            vals.append(ptr("PS") if "pstate" in k.ctype else ptr("L") if "struct lemon *" == k.ctype else TOP)
        return I.run("parseonetoken", vals, State(m))

    def dom0(lv, st):
        return None
    want = {"left": "LEFT", "right": "RIGHT", "nonassoc": "NONE", "precedence": "PRECEDENCE"}
    for d, a in sorted(want.items()):
        for _, s in run(d, "WAITING_FOR_DECL_KEYWORD", dom0, {}):
            n += 1
            if s.get(fld("PS", "preccounter")) != 8:
                R.bad(DECL, "parseonetoken|%s|level" % d, p.loc(f), "parseonetoken", "%%%s does not open exactly one precedence level" % d)
            if s.get(fld("PS", "declassoc")) != E[a]:
                R.bad(DECL, "parseonetoken|%s|assoc" % d, p.loc(f), "parseonetoken", "%%%s does not declare %s" % (d, a))
            if s.get(fld("PS", "state")) != E["WAITING_FOR_PRECEDENCE_SYMBOL"]:
                R.bad(DECL, "parseonetoken|%s|state" % d, p.loc(f), "parseonetoken", "%%%s is not followed by precedence symbols" % d)
    for d in ("token", "fallback", "type", "destructor", "wildcard", "token_class", "name", "include"):
        for _, s in run(d, "WAITING_FOR_DECL_KEYWORD", dom0, {}):
            n += 1
            if s.get(fld("PS", "preccounter")) != 7:
                R.bad(DECL, "parseonetoken|%s|level" % d, p.loc(f), "parseonetoken", "%%%s opens a precedence level" % d)

    def dom1(lv, st):
        o, path = lv[1], lv[3]
        if path == "ignorePrec":
            return [0, 1]
        if path == "prec" and o == "sym_TOK":
            return [-1, 3]
        return None
    for _, s in run("TOK", "WAITING_FOR_PRECEDENCE_SYMBOL", dom1, {fld("PS", "declassoc"): E["RIGHT"]}):
        def oracle(get):
            if get(fld("L", "ignorePrec")):
                return ("none",)
            if get(fld("sym_TOK", "prec")) >= 0:
                return ("error",)
            return ("set",)
        for extra, w in complete(s, dom1, oracle):
            n += 1
            pr, asc = s.get(fld("sym_TOK", "prec"), extra.get(fld("sym_TOK", "prec"))), s.get(fld("sym_TOK", "assoc"))
            if w[0] == "set" and (pr != 7 or asc != E["RIGHT"]):
                R.bad(DECL, "parseonetoken|symbol|set", p.loc(f), "parseonetoken", "a symbol does not get the level and associativity of its declaration (level %s, associativity %s)" % (pr, asc))
            if w[0] == "error" and (s.get(fld("PS", "errorcnt")) != 1 or pr != 3 or asc is not None):
                R.bad(DECL, "parseonetoken|symbol|twice", p.loc(f), "parseonetoken", "a second precedence for a symbol is not refused as an error")
            if w[0] == "none" and asc is not None:
                R.bad(DECL, "parseonetoken|symbol|ignored", p.loc(f), "parseonetoken", "a precedence is recorded although precedences are to be ignored")
            if s.get(fld("PS", "state")) != E["WAITING_FOR_PRECEDENCE_SYMBOL"]:
                R.bad(DECL, "parseonetoken|symbol|state", p.loc(f), "parseonetoken", "only the first symbol of a precedence declaration is read")
    for _, s in run(".", "WAITING_FOR_PRECEDENCE_SYMBOL", dom0, {}):
        n += 1
        if s.get(fld("PS", "state")) != E["WAITING_FOR_DECL_OR_RULE"]:
            R.bad(DECL, "parseonetoken|dot", p.loc(f), "parseonetoken", "a precedence declaration does not end at the dot")

    def dom2(lv, st):
        o, path = lv[1], lv[3]
        if path == "ignorePrec":
            return [0, 1]
        if path == "prevrule":
            return [0, ptr("PR")]
        if path == "precsym" and o == "PR":
            return [0, ptr("old")]
        return None
    for _, s in run("TOK", "PRECEDENCE_MARK_1", dom2, {}):
        def oracle2(get):
            if get(fld("PS", "prevrule")) == 0:
                return ("error",)
            if get(fld("PR", "precsym")) != 0:
                return ("error",)
            return ("none",) if get(fld("L", "ignorePrec")) else ("set",)
        for extra, w in complete(s, dom2, oracle2):
            n += 1
            v = s.get(fld("PR", "precsym"))
            if w[0] == "set" and v != ptr("sym_TOK"):
                R.bad(PREC, "parseonetoken|mark|set", p.loc(f), "parseonetoken", "a precedence mark does not give the previous rule that symbol's precedence")
            if w[0] == "error" and (s.get(fld("PS", "errorcnt")) != 1 or v == ptr("sym_TOK")):
                R.bad(PREC, "parseonetoken|mark|twice", p.loc(f), "parseonetoken", "a misplaced or second precedence mark is not refused as an error")
            if w[0] == "none" and v == ptr("sym_TOK"):
                R.bad(PREC, "parseonetoken|mark|ignored", p.loc(f), "parseonetoken", "a precedence mark counts although precedences are to be ignored")
    R.ok(DECL, n, "parseonetoken: %left, %right, %nonassoc, %precedence and their symbols")
    R.count("abstract cases: lemon precedence declarations", n, 15)


def lemon_emit(R, p):
    """the number an action becomes in the tables"""
    E = dict((c, v) for c, (e, v) in p.enum_of.items())
    inv = dict((E[n], n) for n in ATY)
    f = p.fn("compute_action")

    def dom(lv, st):
        o, path = lv[1], lv[3]
        if path == "type":
            return [E[n] for n in ATY]
        if path == "index":
            return [2, 12] if o == "sp" else [13]
        if path == "errsym":
            return [0, ptr("err")]
        return None
    m = {fld("A", "sp"): ptr("sp"), fld("A", "x.stp"): ptr("st"), fld("A", "x.rp"): ptr("r"), fld("st", "statenum"): 41, fld("r", "iRule"): 17,
         fld("L", "minReduce"): 1000, fld("L", "minShiftReduce"): 2000, fld("L", "errAction"): 3000, fld("L", "accAction"): 4000, fld("L", "nterminal"): 10}
    n = 0
    for v, s in Interp(p, Lazy(dom)).run("compute_action", [ptr("L"), ptr("A")], State(m)):
        def oracle(get):
            t = get(fld("A", "type"))
            if t == E["SHIFT"]:
                return 41
            if t == E["REDUCE"]:
                return 1017
            if t == E["ERROR"]:
                return 3000
            if t == E["ACCEPT"]:
                return 4000
            if t == E["SHIFTREDUCE"]:
                return 1017 if get(fld("sp", "index")) >= 10 else 2017
            return -1
        for extra, w in complete(s, dom, oracle):
            n += 1
            t = inv[s.get(fld("A", "type"), extra.get(fld("A", "type")))]
            if (w < 0 and not (isinstance(v, int) and v < 0)) or (w >= 0 and v != w):
                R.bad(TAB, "compute_action|%s" % t, p.loc(f), "compute_action", "an action of type %s becomes %s in the tables, not %s" % (
                    t, v, "nothing" if w < 0 else w), [describe(s, extra, lambda k, v: v)])
    R.ok(TAB, n, "compute_action for every type of action")


def lemon_compress(R, p):
    """default reductions and shift-reduce actions leave every surviving action what it was"""
    E = dict((c, v) for c, (e, v) in p.enum_of.items())
    inv = dict((E[n], n) for n in ATY)
    f = p.fn("CompressTables")
    n = 0
    for k in range(1, 4):
        nm = ["a%d" % i for i in range(k)]
        m = {fld("L", "nstate"): 1, fld("L", "sorted"): ptr("sorted"), fld("sorted", "", 0): ptr("st"), fld("st", "ap"): ptr("a0"),
             fld("st", "autoReduce"): 0, fld("st", "pDfltReduce"): 0, fld("st", "iDfltReduce"): -1, fld("L", "nterminal"): 10}
        for i, a in enumerate(nm):
            m[fld(a, "next")] = ptr(nm[i + 1]) if i + 1 < k else 0
            m[fld(a, "sp")] = ptr("tok%d" % i)
            m[fld("tok%d" % i, "index")] = i + 1

        def dom(lv, st):
            o, path = lv[1], lv[3]
            if o in nm:
                if path == "type":
                    return [E[x] for x in ("SHIFT", "REDUCE", "ERROR", "SH_RESOLVED", "RD_RESOLVED", "SRCONFLICT")] if k < 3 else [E["SHIFT"], E["REDUCE"], E["ERROR"]]
                if path == "x.rp":
                    return [ptr("r1"), ptr("r2")]
                if path == "x.stp":
                    return [ptr("q_" + o)]
            if path == "wildcard":
                return [0, ptr("tok0")]
            if path == "lhsStart":
                return [0] if k > 2 else [0, 1]
            if path == "autoReduce":
                return [0, 1]
            if path == "pDfltReduce":
                return [ptr("r3")]
            if path in ("noCode", "nrhs"):
                return [1]
            return None
        ops = {"msort": lambda vals, st, nd, I: [(vals[0], st)], "Action_sort": lambda vals, st, nd, I: [(vals[0], st)],
               "Symbol_new": lambda vals, st, nd, I: [(ptr("DEFAULT"), st.put(fld("DEFAULT", "index"), 99))]}
        I = Interp(p, Lazy(dom, ops))
        outs = I.run("CompressTables", [ptr("L")], State(m))
        if not outs:
            raise AnalysisBroken("CompressTables never returns")
        for nmc, node, s in I.ended:
            R.bad(TAB, "CompressTables|stops", p.loc(node), I_fn(node), "compression stops the program (%s)" % nmc, [describe(s, {}, lambda k, v: v)])
        for _, s in outs:
            def oracle(get):
                w = []
                for a in nm:
                    t = get(fld(a, "type"))
                    if t == E["SHIFT"]:
                        q = "q_" + a
                        w.append(("shiftreduce", "r3") if get(fld(q, "autoReduce")) else ("shift", q))
                    elif t == E["REDUCE"]:
                        w.append(("reduce", get(fld(a, "x.rp"))[1]))
                    elif t == E["ERROR"]:
                        w.append(("error",))
                    else:
                        w.append(None)
                return w
            for extra, want in complete(s, dom, oracle):
                n += 1

                def now(a, path):
                    return s.get(fld(a, path), extra.get(fld(a, path)))
                dflt = [a for a in nm if now(a, "sp") == ptr("DEFAULT")]
                kinds = []
                if len(dflt) > 1 or any(now(a, "type") != E["REDUCE"] for a in dflt):
                    R.bad(TAB, "CompressTables|default", p.loc(f), "CompressTables", "a state gets a default action that is not one reduction", [describe(s, extra, lambda k, v: v)])
                    continue
                d = now(dflt[0], "x.rp")[1] if dflt else None
                explicit = {}
                for i, a in enumerate(nm):
                    t = now(a, "type")
                    if a in dflt or t not in (E["SHIFT"], E["REDUCE"], E["ERROR"], E["SHIFTREDUCE"]):
                        continue
                    explicit[i] = {E["SHIFT"]: lambda: ("shift", now(a, "x.stp")[1]), E["REDUCE"]: lambda: ("reduce", now(a, "x.rp")[1]),
                                   E["ERROR"]: lambda: ("error",), E["SHIFTREDUCE"]: lambda: ("shiftreduce", (now(a, "x.rp") or TOP)[1])}[t]()
                for i, a in enumerate(nm):
                    got = explicit.get(i, ("reduce", d) if d else None)
                    if want[i] is not None and got != want[i]:
                        R.bad(TAB, "CompressTables|%s" % want[i][0], p.loc(f), "CompressTables", "after compression a lookahead whose action was %s has %s" % (
                            " ".join(want[i]), " ".join(map(str, got)) if got else "none"), [describe(s, extra, lambda k, v: v)])
                    if want[i] is None and i in explicit:
                        R.bad(TAB, "CompressTables|lost", p.loc(f), "CompressTables", "an action that lost is used after compression", [describe(s, extra, lambda k, v: v)])
                auto = s.get(fld("st", "autoReduce"))
                if auto and (d is None or explicit):
                    R.bad(TAB, "CompressTables|auto", p.loc(f), "CompressTables", "a state is entered by shift-reduce although it does more than its default reduction", [describe(s, extra, lambda k, v: v)])
                if auto and s.get(fld("st", "pDfltReduce")) != ptr(d):
                    R.bad(TAB, "CompressTables|autorule", p.loc(f), "CompressTables", "a state is entered by shift-reduce with another rule than its default", [describe(s, extra, lambda k, v: v)])
                if d is not None and s.get(fld("L", "wildcard"), 0) == ptr("tok0") and want[0] is not None and want[0][0].startswith("shift"):
                    R.bad(TAB, "CompressTables|wildcard", p.loc(f), "CompressTables", "a state that shifts the wildcard gets a default reduction", [describe(s, extra, lambda k, v: v)])
    R.ok(TAB, n, "CompressTables over every list of up to three actions")
    R.count("abstract cases: lemon compression", n, 60)


# ------------------------------------------------------------------------------------------------ byacc
def by_consts():
    return {"SHIFT": 1, "REDUCE": 2, "TOKEN": 0, "LEFT": 1, "RIGHT": 2, "NONASSOC": 3}


def macros(p):
    """values of the object-like constants byacc's sources use, from its own headers"""
    import re
    import os
    out = {}
    for h in ("defs.h",):
        with open(os.path.join(prog.REPO, "byacc", h)) as fh:
            for m in re.finditer(r"^\s*#\s*define\s+(SHIFT|REDUCE|UNDEFINED|TERM|NONTERM)\s+\(?(-?\d+)\)?\s*$", fh.read(), re.M):
                out[m.group(1)] = int(m.group(2))
    for c, (e, v) in p.enum_of.items():
        out.setdefault(c, v)
    for c in ("SHIFT", "REDUCE", "LEFT", "RIGHT", "NONASSOC", "TOKEN", "UNDEFINED", "TERM", "NONTERM"):
        if c not in out:
            raise AnalysisBroken("byacc: constant %s not found" % c)
    return out


def by_lists(nm, m, K):
    for i, a in enumerate(nm):
        m[fld(a, "next")] = ptr(nm[i + 1]) if i + 1 < len(nm) else 0


def byacc_resolve(R, p, bt):
    K = macros(p)
    f = p.fn("remove_conflicts")
    who = p.name
    cases = 0
    for groups in ([1], [2], [1, 1], [3], [2, 1], [1, 2]):
        acts = []
        for g, k in enumerate(groups):
            for j in range(k):
                acts.append(("a%d" % len(acts), g, j))
        nm = [a[0] for a in acts]
        m = {fld("S", "nstates"): 1, fld("S", "parser"): ptr("parser"), fld("parser", "", 0): ptr(nm[0])}
        by_lists(nm, m, K)
        for a, g, j in acts:
            m[fld(a, "symbol")] = g * 5
            m[fld(a, "suppressed")] = 0
            m[fld(a, "number")] = 50 + int(a[1:])
        first = dict((a, j == 0) for a, g, j in acts)
        grp = dict((a, g) for a, g, j in acts)
        head = {}
        for a, g, j in acts:
            head.setdefault(g, a)
        levels = [0, 1, 2, 3] if max(groups) > 2 else [0, 1, 2]

        def dom(lv, st):
            o, path = lv[1], lv[3]
            if path == "action_code" and o in first:
                return [K["SHIFT"], K["REDUCE"]] if first[o] else [K["REDUCE"]]
            if path == "prec" and o in first:
                return levels
            if path == "assoc" and o in first:
                return [K["LEFT"], K["RIGHT"], K["NONASSOC"]]
            if path in ("lemon_prec_flag", "backtrack"):
                return [0, 1]
            if path == "final_state":
                return [0, 9]
            return None

        def new(vals, st, n, I):
            return [(ptr(("new", n.line, n.order or 0)), st)]
        ops = dict((k, new) for k in ("allocate", "malloc", "calloc", "NEW2"))
        I = Interp(p, Lazy(dom, ops, skip=("no_space", "fprintf")))
        outs = I.run("remove_conflicts", [ptr("S")], State(m))
        if not outs:
            raise AnalysisBroken("remove_conflicts never returns")
        for nmc, node, s in I.ended:
            R.bad(RES, "%s|remove_conflicts|stops" % who, p.loc(node), I_fn(node), "resolving conflicts stops the program (%s)" % nmc)

        def oracle(get):
            sup = dict((a, 0) for a in nm)
            sr = rr = 0
            pref = cur = None
            for a, g, j in acts:
                if g != cur:
                    pref, cur = a, g
                    continue

                def back():
                    if bt and get(fld("S", "backtrack")) and sup[pref] == 0:
                        sup[pref] = 1
                if g == 0 and get(fld("S", "final_state")) == 0:
                    sr += 1
                    sup[a] = 1
                    back()
                elif get(fld(pref, "action_code")) == K["SHIFT"]:
                    x = get(fld(pref, "prec"))
                    y = get(fld(a, "prec")) if x > 0 else 0
                    if x > 0 and y > 0:
                        if x < y:
                            sup[pref], pref = 2, a
                        elif x > y:
                            sup[a] = 2
                        else:
                            asc = get(fld(pref, "assoc"))
                            if asc == K["LEFT"]:
                                sup[pref], pref = 2, a
                            elif asc == K["RIGHT"]:
                                sup[a] = 2
                            else:
                                sup[pref] = sup[a] = 2
                    else:
                        sr += 1
                        sup[a] = 1
                        back()
                else:
                    if get(fld("S", "lemon_prec_flag")):
                        x = get(fld(pref, "prec"))
                        y = get(fld(a, "prec")) if x > 0 else 0
                        if x > 0 and y > 0 and x != y:
                            if x < y:
                                sup[pref], pref = 2, a
                            else:
                                sup[a] = 2
                            continue
                    rr += 1
                    sup[a] = 1
                    back()
            return sup, sr, rr
        for _, s in outs:
            for extra, (sup, sr, rr) in complete(s, dom, oracle):
                cases += 1
                for a in nm:
                    v = s.get(fld(a, "suppressed"))
                    if v != sup[a]:
                        R.bad(RES, "%s|remove_conflicts|%s->%s" % (who, sup[a], v), p.loc(f), "remove_conflicts",
                              "an action is left with suppressed=%s where it should be %s (0 wins, 1 unresolved conflict, 2 lost by precedence)" % (v, sup[a]),
                              ["lookaheads %s; %s" % (groups, describe(s, extra, lambda k, v: v))])
                for c, want in (("SRtotal", sr), ("RRtotal", rr)):
                    if s.get(fld("S", c)) != want:
                        R.bad(CNT, "%s|remove_conflicts|%s" % (who, c), p.loc(f), "remove_conflicts", "%s is %s where %d conflicts are unresolved" % (c, s.get(fld("S", c)), want),
                              ["lookaheads %s; %s" % (groups, describe(s, extra, lambda k, v: v))])
                for c, want in (("SRconflicts", sr), ("RRconflicts", rr)):
                    b = s.get(fld("S", c))
                    v = s.get(("h", b[1], 0, "")) if isinstance(b, tuple) else None
                    if v != want:
                        R.bad(CNT, "%s|remove_conflicts|%s" % (who, c), p.loc(f), "remove_conflicts", "%s of a state is %s where %d conflicts are unresolved" % (c, v, want))
    # counts of several states add up
    m = {fld("S", "nstates"): 2, fld("S", "parser"): ptr("parser"), fld("parser", "", 0): ptr("a0"), fld("parser", "", 1): ptr("b0"),
         fld("S", "final_state"): 9, fld("S", "lemon_prec_flag"): 0, fld("S", "backtrack"): 0}
    by_lists(["a0", "a1"], m, K)
    by_lists(["b0", "b1"], m, K)
    for a in ("a0", "a1", "b0", "b1"):
        m.update({fld(a, "symbol"): 3, fld(a, "suppressed"): 0, fld(a, "prec"): 0, fld(a, "assoc"): K["TOKEN"]})

    def dom2(lv, st):
        if lv[3] == "action_code":
            return [K["SHIFT"], K["REDUCE"]] if lv[1] in ("a0", "b0") else [K["REDUCE"]]
        return None

    def new2(vals, st, n, I):
        return [(ptr(("new", n.line, n.order or 0)), st)]
    for _, s in Interp(p, Lazy(dom2, dict((k, new2) for k in ("allocate", "malloc", "calloc")), skip=("no_space",))).run("remove_conflicts", [ptr("S")], State(m)):
        def oracle3(get):
            return [get(fld(a, "action_code")) == K["SHIFT"] for a in ("a0", "b0")]
        for extra, sh in complete(s, dom2, oracle3):
            cases += 1
            if (s.get(fld("S", "SRtotal")), s.get(fld("S", "RRtotal"))) != (sum(sh), 2 - sum(sh)):
                R.bad(CNT, "%s|remove_conflicts|total" % who, p.loc(f), "remove_conflicts", "the totals are not the sums over the states")
            for c, want in (("SRconflicts", [int(x) for x in sh]), ("RRconflicts", [int(not x) for x in sh])):
                b = s.get(fld("S", c))
                v = [s.get(("h", b[1], i, "")) for i in (0, 1)] if isinstance(b, tuple) else None
                if v != want:
                    R.bad(CNT, "%s|remove_conflicts|%s" % (who, c), p.loc(f), "remove_conflicts", "%s is %s where %s conflicts are unresolved in the two states" % (c, v, want))
    R.ok(RES, cases, "%s: remove_conflicts over every list of up to three actions" % who)
    R.ok(CNT, cases)
    R.count("abstract cases: %s conflicts" % who, cases, 150)


def byacc_order(R, p):
    """add_reduce keeps the row sorted: symbol, shifts first, then rule numbers"""
    K = macros(p)
    f = p.fn("add_reduce")
    n = 0
    for k in range(0, 3):
        nm = ["a%d" % i for i in range(k)]
        m = {fld("S", "rprec"): ptr("rprec"), fld("S", "rassoc"): ptr("rassoc"), fld("rprec", "", 5): 61, fld("rassoc", "", 5): 62}
        by_lists(nm, m, K)

        def rank(get, a):
            return (get(fld(a, "symbol")), 0 if get(fld(a, "action_code")) == K["SHIFT"] else 1, get(fld(a, "number")) if get(fld(a, "action_code")) != K["SHIFT"] else 0)

        def dom(lv, st):
            o, path = lv[1], lv[3]
            if o in nm:
                if path == "symbol":
                    return [2, 3, 4]
                if path == "action_code":
                    return [K["SHIFT"], K["REDUCE"]]
                if path == "number":
                    return [4, 6]
            return None

        def new(vals, st, nd, I):
            return [(ptr("NEW"), st)]
        I = Interp(p, Lazy(dom, dict((x, new) for x in ("allocate", "malloc", "calloc")), skip=("no_space",)))
        outs = I.run("add_reduce", [ptr("S"), ptr(nm[0]) if nm else 0, 5, 3], State(m))
        for v, s in outs:
            def oracle(get):
                rs = [rank(get, a) for a in nm]
                if rs != sorted(rs) or len(set(rs)) != len(rs):
                    return None
                return [a for _, a in sorted([(r, a) for r, a in zip(rs, nm)] + [((3, 1, 5), "NEW")])]
            for extra, want in complete(s, dom, oracle):
                if want is None:
                    continue
                n += 1
                got, x = [], v
                while isinstance(x, tuple) and len(got) < 5:
                    got.append(x[1])
                    x = s.get(fld(x[1], "next"))
                if got != want:
                    R.bad(ORD, "%s|add_reduce" % p.name, p.loc(f), "add_reduce", "a reduction is put at the wrong place of its state's row (%s, not %s)" % (" ".join(map(str, got)), " ".join(want)),
                          [describe(s, extra, lambda k, v: v)])
                for path, w in (("symbol", 3), ("number", 5), ("prec", 61), ("assoc", 62), ("action_code", K["REDUCE"])):
                    if s.get(fld("NEW", path)) != w:
                        R.bad(ORD, "%s|add_reduce|%s" % (p.name, path), p.loc(f), "add_reduce", "a reduction does not carry the %s of its rule" % path)
    R.ok(ORD, n, "%s: add_reduce into every row of up to two actions" % p.name)


def byacc_shifts(R, p):
    K = macros(p)
    f = p.fn("get_shifts")
    m = {fld("S", "shift_table"): ptr("stab"), fld("stab", "", 0): ptr("sp"), fld("sp", "nshifts"): 3, fld("S", "accessing_symbol"): ptr("acc"),
         fld("S", "symbol_prec"): ptr("sprec"), fld("S", "symbol_assoc"): ptr("sassoc"), fld("S", "start_symbol"): 10, fld("S", "ntokens"): 10}
    for i, (st, sy) in enumerate(((21, 2), (22, 5), (23, 14))):
        m[("h", ("sub", "sp", 0, "shift"), i, "") if i else fld("sp", "shift")] = st
        m[fld("acc", "", st)] = sy
        m[fld("sprec", "", sy)] = 30 + sy
        m[fld("sassoc", "", sy)] = 40 + sy
    c = [0]

    def new(vals, st, nd, I):
        k = 0
        while fld("N%d" % k, "made") in st.mem:
            k += 1
        return [(ptr("N%d" % k), st.put(fld("N%d" % k, "made"), 1))]
    outs = Interp(p, Lazy(lambda lv, st: None, dict((x, new) for x in ("allocate", "malloc", "calloc")), skip=("no_space",))).run("get_shifts", [ptr("S"), 0], State(m))
    n = 0
    for v, s in outs:
        n += 1
        got, x = [], v
        while isinstance(x, tuple) and len(got) < 5:
            got.append(tuple(s.get(fld(x[1], q)) for q in ("symbol", "number", "prec", "assoc", "action_code")))
            x = s.get(fld(x[1], "next"))
        want = [(2, 21, 32, 42, K["SHIFT"]), (5, 22, 35, 45, K["SHIFT"])]
        if got != want:
            R.bad(ORD, "%s|get_shifts" % p.name, p.loc(f), "get_shifts", "the shifts of a state are not one action per token shifted, in order, with the token's precedence and associativity",
                  ["found %s" % (got,)])
    R.ok(ORD, n, "%s: get_shifts" % p.name)


def byacc_sole(R, p, bt):
    """the default reduction of a state"""
    K = macros(p)
    f = p.fn("sole_reduction")
    n = 0
    for k in range(0, 4):
        nm = ["a%d" % i for i in range(k)]
        m = {fld("S", "parser"): ptr("parser"), fld("parser", "", 0): ptr(nm[0]) if nm else 0}
        by_lists(nm, m, K)

        def dom(lv, st):
            o, path = lv[1], lv[3]
            if o in nm:
                if path == "action_code":
                    return [K["SHIFT"], K["REDUCE"]]
                if path == "suppressed":
                    return [0, 1, 2] if k < 3 else [0, 2]
                if path == "symbol":
                    return [1, 7]
                if path == "number":
                    return [5, 6]
            if path == "backtrack":
                return [0, 1]
            return None
        for v, s in Interp(p, Lazy(dom)).run("sole_reduction", [ptr("S"), 0], State(m)):
            def oracle(get):
                rules, count = [], 0
                for a in nm:
                    sp = get(fld(a, "suppressed"))
                    if sp == 0 or (sp == 1 and bt and get(fld("S", "backtrack"))):
                        if get(fld(a, "action_code")) == K["SHIFT"]:
                            return 0
                        r = get(fld(a, "number"))
                        if rules and rules[-1] != r:
                            return 0
                        rules.append(r)
                        if get(fld(a, "symbol")) != 1:
                            count += 1
                return rules[0] if count else 0
            for extra, w in complete(s, dom, oracle):
                n += 1
                if v != w:
                    R.bad(TAB, "%s|sole_reduction|%s" % (p.name, "none" if not w else "rule"), p.loc(f), "sole_reduction",
                          "a state's default reduction is %s where it should be %s" % (v, w or "none"), [describe(s, extra, lambda k, v: v)])
    R.ok(TAB, n, "%s: sole_reduction over every row of up to three actions" % p.name)
    R.count("abstract cases: %s default reductions" % p.name, n, 60)


def byacc_rows(R, p, bt):
    """the pairs of a state's row that reach the tables"""
    K = macros(p)
    f = p.fn("token_actions")
    n = 0
    for k in range(0, 3):
        nm = ["a%d" % i for i in range(k)]
        m = {fld("S", "nstates"): 1, fld("S", "ntokens"): 3, fld("S", "parser"): ptr("parser"), fld("parser", "", 0): ptr(nm[0]) if nm else 0,
             fld("S", "symbol_value"): ptr("sval"), fld("S", "nconflicts"): 0, fld("S", "defred"): ptr("defred"), fld("S", "backtrack"): 0}
        for x in ("tally", "width", "froms", "tos", "conflicts"):
            m[fld("S", x)] = ptr(x)
        for i in range(3):
            m[fld("sval", "", i)] = 300 + i
        by_lists(nm, m, K)

        def dom(lv, st):
            o, path = lv[1], lv[3]
            if o in nm:
                if path == "symbol":
                    return [0, 1, 2]
                if path == "action_code":
                    return [K["SHIFT"], K["REDUCE"]]
                if path == "suppressed":
                    return [0, 1, 2]
                if path == "number":
                    return [5, 6]
            if o == "defred":
                return [0, 5]
            return None

        def new(vals, st, nd, I):
            return [(ptr(("new", nd.line)), st)]
        I = Interp(p, Lazy(dom, dict((x, new) for x in ("allocate", "malloc", "calloc")), skip=("no_space", "free")))
        outs = I.run("token_actions", [ptr("S")], State(m))
        if not outs:
            raise AnalysisBroken("token_actions never returns")
        for v, s in outs:
            def oracle(get):
                if not nm:
                    return [[], []]
                ks = [(get(fld(a, "symbol")), get(fld(a, "action_code"))) for a in nm]
                if ks != sorted(ks) or len(set(ks)) != len(ks):
                    return None
                sh, rd = [], []
                used = {}
                for a, (sy, c) in zip(nm, ks):
                    if get(fld(a, "suppressed")) == 0:
                        if used.setdefault(sy, a) != a:
                            return None
                        x = get(fld(a, "number"))
                        if c == K["SHIFT"]:
                            sh.append((300 + sy, x))
                        elif x != get(fld("defred", "", 0)):
                            rd.append((300 + sy, x - 2))
                return [sh, rd]
            for extra, want in complete(s, dom, oracle):
                if want is None:
                    continue
                n += 1
                for i, w in enumerate(want):
                    t = s.get(fld("tally", "", i))
                    if not nm and t is None:
                        t = 0
                    fr, to = s.get(fld("froms", "", i)), s.get(fld("tos", "", i))
                    got = []
                    for j in range(t if isinstance(t, int) else 0):
                        got.append((s.get(("h", fr[1], fr[2] + j, "")) if isinstance(fr, tuple) else None, s.get(("h", to[1], to[2] + j, "")) if isinstance(to, tuple) else None))
                    if got != w:
                        R.bad(TAB, "%s|token_actions|%s" % (p.name, "reduce" if i else "shift"), p.loc(f), "token_actions",
                              "the row of a state holds the %s %s, not %s" % ("reductions" if i else "shifts", got, w), [describe(s, extra, lambda k, v: v)])
                    wd = (max(x for x, _ in w) - min(x for x, _ in w) + 1) if w else 0
                    if nm and s.get(fld("width", "", i)) != wd:
                        R.bad(TAB, "%s|token_actions|width" % p.name, p.loc(f), "token_actions", "the width of a row is %s, not %s" % (s.get(fld("width", "", i)), wd))
    R.ok(TAB, n, "%s: token_actions over every row of up to two actions" % p.name)
    R.count("abstract cases: %s table rows" % p.name, n, 60)


def byacc_ruleprec(R, p):
    K = macros(p)
    f = p.fn("pack_grammar")
    n = 0
    for k in range(0, 4):
        m = {fld("S", "nrules"): 4, fld("S", "nitems"): 4 + k + 1, fld("S", "start_symbol"): 10, fld("S", "goal"): ptr("goal"),
             fld("S", "plhs"): ptr("plhs"), fld("S", "pitem"): ptr("pitem"), fld("plhs", "", 3): ptr("lhs"), fld("lhs", "index"): 11, fld("lhs", "args"): -1,
             fld("goal", "index"): 11, fld("S", "rprec"): ptr("rprec"), fld("S", "rassoc"): ptr("rassoc")}
        for i in range(k):
            m[fld("pitem", "", 4 + i)] = ptr("i%d" % i)
            m[fld("i%d" % i, "index")] = 3 + i
            m[fld("i%d" % i, "assoc")] = 71 + i
        m[fld("pitem", "", 4 + k)] = 0
        m[fld("rassoc", "", 3)] = 99

        def dom(lv, st):
            o, path = lv[1], lv[3]
            if path == "class":
                return [K["TERM"], K["NONTERM"]]
            if path == "prec":
                return [0, int(o[1:]) + 1]
            if path in ("lemon_prec_flag",):
                return [0, 1]
            if o == "rprec" and lv[2] == 3:
                return [K["UNDEFINED"], 55, 0]
            return None

        def new(vals, st, nd, I):
            return [(ptr(("new", nd.line)), st)]

        def renew(vals, st, nd, I):
            return [(vals[0], st)]
        ops = dict((x, new) for x in ("allocate", "malloc", "calloc"))
        ops.update({"realloc": renew, "reallocate": renew})
        I = Interp(p, Lazy(dom, ops, skip=("no_space", "free", "done", "clean_arg_cache")))
        outs = I.run("pack_grammar", [ptr("S")], State(m))
        if not outs:
            raise AnalysisBroken("pack_grammar never returns")
        for v, s in outs:
            def oracle(get):
                d = get(fld("rprec", "", 3))
                if d != K["UNDEFINED"]:
                    return d, 99
                pr, asc = 0, K["TOKEN"]
                for i in range(k):
                    if get(fld("i%d" % i, "class")) == K["TERM"]:
                        if get(fld("S", "lemon_prec_flag")) and pr != 0:
                            continue
                        pr, asc = get(fld("i%d" % i, "prec")), 71 + i
                return pr, asc if pr else None
            for extra, (pr, asc) in complete(s, dom, oracle):
                n += 1
                gp, ga = s.get(fld("rprec", "", 3), extra.get(fld("rprec", "", 3))), s.get(fld("rassoc", "", 3))
                if gp != pr or (asc is not None and ga != asc):
                    R.bad(PREC, "%s|pack_grammar" % p.name, p.loc(f), "pack_grammar", "a rule gets precedence %s and associativity %s where it should get %s and %s" % (gp, ga, pr, asc),
                          [describe(s, extra, lambda k, v: v)])
    R.ok(PREC, n, "%s: pack_grammar over every right-hand side of up to three symbols" % p.name)
    R.count("abstract cases: %s rule precedence" % p.name, n, 60)


def byacc_decl(R, p):
    """declare_tokens: one level per declaration, the level and associativity go to its tokens"""
    K = macros(p)
    f = p.fn("declare_tokens")
    n = 0
    for assoc in ("TOKEN", "LEFT", "RIGHT", "NONASSOC"):
        m = {fld("S", "prec"): 4, fld("S", "goal"): ptr("goal"), fld("S", "tok_no"): 0}

        def dom(lv, st):
            o, path = lv[1], lv[3]
            if o in ("tok0", "tok1"):
                if path == "prec":
                    return [0, 2]
                if path == "tag":
                    return [0]
                if path == "assoc":
                    return [K["TOKEN"]]
                if path == "value":
                    return [K["UNDEFINED"]]
            if path == "ignore_prec_flag":
                return [0, 1]
            return None

        def nextc(vals, st, nd, I):
            k = st.get(fld("S", "tok_no"))
            return [(ord("a") if k < 2 else ord("%"), st)]

        def getname(vals, st, nd, I):
            k = st.get(fld("S", "tok_no"))
            return [(ptr("tok%d" % min(k, 1)), st.put(fld("S", "tok_no"), k + 1))]
        ops = {"nextc": nextc, "get_name": getname, "get_literal": getname}
        I = Interp(p, Lazy(dom, ops, skip=("reprec_warning", "retyped_warning", "revalued_warning")))
        for v, s in I.run("declare_tokens", [ptr("S"), K[assoc]], State(m)):
            def oracle(get):
                if assoc == "TOKEN" or get(fld("S", "ignore_prec_flag")):
                    return [(get(fld("tok%d" % i, "prec")), None) for i in (0, 1)]
                return [(5, K[assoc])] * 2
            for extra, w in complete(s, dom, oracle):
                n += 1
                lvl = s.get(fld("S", "prec"))
                if lvl != (4 if assoc == "TOKEN" else 5):
                    R.bad(DECL, "%s|declare_tokens|%s|level" % (p.name, assoc), p.loc(f), "declare_tokens", "a declaration does not open %s precedence level" % ("no" if assoc == "TOKEN" else "exactly one"))
                for i in (0, 1):
                    g = s.get(fld("tok%d" % i, "prec"), extra.get(fld("tok%d" % i, "prec")))
                    a = s.get(fld("tok%d" % i, "assoc"))
                    if g != w[i][0] or (w[i][1] is not None and a != w[i][1]) or (w[i][1] is None and a not in (None, K["TOKEN"])):
                        R.bad(DECL, "%s|declare_tokens|%s|token" % (p.name, assoc), p.loc(f), "declare_tokens", "a token does not get the level and associativity of its declaration (level %s, associativity %s)" % (g, a),
                              [describe(s, extra, lambda k, v: v)])
                if s.get(fld("S", "tok_no")) != 2:
                    R.bad(DECL, "%s|declare_tokens|list" % p.name, p.loc(f), "declare_tokens", "not every token of a declaration is read")
    R.ok(DECL, n, "%s: declare_tokens" % p.name)


def run(R):
    R.explain = ("The functions that resolve conflicts are interpreted over an abstract domain: what they look at (kind of action, presence and order of precedences, associativity, options) is split "
                 "lazily into finitely many points, every feasible path is followed with the callees in place, and what the path leaves behind is compared with the documented decision table for every "
                 "abstract case the path covers.")
    R.rule(RES, "shift/reduce: without precedence on both sides the shift stays and the conflict is unresolved, else the higher precedence wins, equal ones are decided by the token's associativity "
                "(nonassociative: neither); reduce/reduce: the earlier rule stays and the conflict is unresolved (lemon, byacc with lemon precedence: unless precedences differ)")
    R.rule(CNT, "every unresolved conflict is counted once, per state and in total, under its kind")
    R.rule(PREC, "a rule has the precedence its mark names, else that of the documented token of its right-hand side")
    R.rule(DECL, "each precedence declaration opens one higher level and gives its tokens that level and its associativity")
    R.rule(ORD, "actions on one lookahead are examined shift first, then in the order of the rules")
    R.rule(TAB, "actions that lost are not used: not in the tables, not as default reductions, not to call a rule reducible")
    R.assumes += ["a state has at most one shift per lookahead, and it is sorted before the reductions (rule: earlier comes first)",
                  "what decides one pair of actions depends on the pair and on the action preferred so far: lists of up to three actions per state cover every such combination",
                  "precedence levels start at 1; no precedence is -1 in lemon and 0 in byacc"]
    p = prog.lemon()
    lemon_resolve(R, p)
    lemon_order(R, p)
    lemon_ruleprec(R, p)
    lemon_decl(R, p)
    lemon_emit(R, p)
    lemon_compress(R, p)
    for bt in (True, False):
        b = prog.byacc(bt)
        byacc_resolve(R, b, bt)
        byacc_order(R, b)
        byacc_shifts(R, b)
        byacc_sole(R, b, bt)
        byacc_rows(R, b, bt)
        byacc_ruleprec(R, b)
        byacc_decl(R, b)
