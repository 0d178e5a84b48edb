"""the engine in lemon's template does what its tables say: lookup, shift, reduce, accept, error recovery"""
import concurrent.futures
import os

import lempar
from absint import Interp, State, ptr, fld
from cast import AnalysisBroken
from c14 import Lazy, complete, describe, I_fn

LOOK, ACT, ERR, END, INI = ("the tables are looked up as laid out", "actions are carried out", "errors are reported and recovered from", "accepting and failing", "a parser starts empty")
MAXSHIFT, MINSR, MAXSR, ERRACT, ACCEPT, MINRED = 99, 150, 219, 220, 221, 223
NOCODE, ERRSYM, WILD = 60, 41, 2
NUM = lambda k, v: v


def look_shift(R, p, c, defs):
    f = p.fn("yy_find_shift_action")
    fb, wc = "YYFALLBACK" in defs, "YYWILDCARD" in defs

    def arr(n):
        return ("g", n)

    def dom(lv, st):
        o, off = lv[1], lv[2]
        if o == arr("yy_shift_ofst"):
            return [100 + off]
        if o == arr("yy_lookahead"):
            return [off - 103, 30]
        if o == arr("yy_action"):
            return [5000 + off]
        if o == arr("yy_default"):
            return [7000 + off]
        if o == arr("yyFallback"):
            return [0, 6] if off == 5 else [0]
        if o == arr("yyTraceFILE"):
            return [0]
        return None
    n = 0
    for la in (0, 5):
        for stt in (3, 99, 100, 230):
            def dom2(lv, st, stt=stt):
                if lv[1] == arr("yy_lookahead"):
                    return [lv[2] - 100 - stt, 30]
                return dom(lv, st)
            I = Interp(p, Lazy(dom2, skip=("fprintf",)))
            outs = I.run("yy_find_shift_action", [la, stt], State({}))
            if not outs:
                raise AnalysisBroken("yy_find_shift_action never returns")
            for nm, node, s in I.ended:
                R.bad(LOOK, "yy_find_shift_action|stops", p.loc(node), I_fn(node), "a lookup stops the program (%s)" % c, [describe(s, {}, NUM)])
            for v, s in outs:
                def oracle(get):
                    if stt > MAXSHIFT:
                        return stt
                    i, x = 100 + stt, la
                    while True:
                        if get(fld(arr("yy_lookahead"), "", i + x)) == x:
                            return 5000 + i + x
                        if fb:
                            y = get(fld(arr("yyFallback"), "", x))
                            if y:
                                x = y
                                continue
                        if wc and x > 0 and get(fld(arr("yy_lookahead"), "", i + WILD)) == WILD:
                            return 5000 + i + WILD
                        return 7000 + stt
                for extra, w in complete(s, dom2, oracle):
                    n += 1
                    if v != w:
                        R.bad(LOOK, "yy_find_shift_action", p.loc(f), "yy_find_shift_action",
                              "the action for a token is taken from the wrong place (%s, not %s; 5000.. the action table, 7000.. the defaults)" % (v, w),
                              ["state %d, token %d (%s); %s" % (stt, la, c, describe(s, extra, NUM))])
    R.ok(LOOK, n, "%s: yy_find_shift_action" % c)
    return n


def look_reduce(R, p, c, defs):
    f = p.fn("yy_find_reduce_action")
    err = "YYERRORSYMBOL" in defs

    def arr(n):
        return ("g", n)
    n = 0
    for stt in (0, 7, 80) + ((81,) if err else ()):
        for ofs in (200,) + ((-20, -50, 960) if err else (-20,)):
            la = 40

            def dom(lv, st):
                o, off = lv[1], lv[2]
                if o == arr("yy_reduce_ofst"):
                    return [ofs]
                if o == arr("yy_lookahead"):
                    return [la, 3] if err else [la]
                if o == arr("yy_action"):
                    return [5000 + off]
                if o == arr("yy_default"):
                    return [7000 + off]
                return None
            I = Interp(p, Lazy(dom, skip=("fprintf",)))
            outs = I.run("yy_find_reduce_action", [stt, la], State({}))
            for nm, node, s in I.ended:
                R.bad(LOOK, "yy_find_reduce_action|stops", p.loc(node), I_fn(node), "a lookup stops the program (%s)" % c)
            if not outs:
                raise AnalysisBroken("yy_find_reduce_action never returns")
            for v, s in outs:
                def oracle(get):
                    i = ofs + la
                    if stt > 80 or i < 0 or i >= 1000 or get(fld(arr("yy_lookahead"), "", i)) != la:
                        return 7000 + stt
                    return 5000 + i
                for extra, w in complete(s, dom, oracle):
                    n += 1
                    if v != w:
                        R.bad(LOOK, "yy_find_reduce_action", p.loc(f), "yy_find_reduce_action", "the action after a reduction is taken from the wrong place (%s, not %s)" % (v, w),
                              ["state %d, offset %d (%s); %s" % (stt, ofs, c, describe(s, extra, NUM))])
    R.ok(LOOK, n, "%s: yy_find_reduce_action" % c)
    return n


EV = ("ext", "events")
NASK = ("ext", "asks")


def engine(R, p, c, defs):
    f = p.fn("Parse")
    mode = "error" if "YYERRORSYMBOL" in defs else "none" if "YYNOERRORRECOVERY" in defs else "plain"
    fixed = defs["YYSTACKDEPTH"] != "0"
    base = ("sub", "P", 0, "yystack") if fixed else "stk"

    def slot(i, path):
        if fixed and i == 0:
            return fld("P", "yystack." + path)
        return ("h", base, i, path)

    def ev(st, *e):
        return st.put(EV, st.get(EV, ()) + (e,))

    def depth(st):
        t = st.get(fld("P", "yytos"))
        return t[2] if isinstance(t, tuple) and t[1] == base else None

    def user(kind):
        return lambda vals, st, n, I: [(0, ev(st, kind))]
    acts = {"shift": MAXSHIFT, "shiftreduce": MAXSR, "reduce": MINRED, "accept": ACCEPT, "error": ERRACT}

    def ask(vals, st, n, I):
        la, stt = vals[0], vals[1]
        if isinstance(stt, int) and stt > MAXSHIFT:
            return [(stt, ev(st, "ask", stt, la))]
        k = st.get(NASK, 0)
        if k >= 6:
            R.bad(ERR, "Parse|%s|endless" % mode, p.loc(f), "Parse", "one token is looked up again and again (%s)" % c, [describe(st, {}, NUM), str(st.get(EV))])
            return []
        opts = ["shift", "error", "reduce", "shiftreduce"] if k < 2 else ["shift", "error"]
        if la == NOCODE:
            opts = ["error"]
        if mode == "error" and k >= 2:
            opts = ["shift", "error"]
        if depth(st) == 1:
            opts = opts + ["accept"]
        out = []
        for o in opts:
            s = st.put(NASK, k + 1).put(("init", "ask%d" % k, 0, ""), acts[o])
            out.append((acts[o], ev(s, "ask", stt, la)))
        return out

    def goto(vals, st, n, I):
        k = st.get(("ext", "gotos"), 0)
        stt, la = vals[0], vals[1]
        opts = ([MAXSHIFT, MAXSR, ERRACT] if la == ERRSYM else [9, MINRED + 1] if k == 0 else [9])
        return [(v, ev(st.put(("ext", "gotos"), k + 1).put(("init", "goto%d" % k, 0, ""), v), "goto", stt, la)) for v in opts]
    def grow(vals, st, n, I):
        k = st.get(("ext", "grows"), 0)
        st = st.put(("ext", "grows"), k + 1)
        g = ("init", "grow%d" % k, 0, "")
        return [(0, st.put(g, 0).put(fld("P", "yystksz"), st.get(fld("P", "yystksz")) + 100)), (1, st.put(g, 1))]
    ops = {"yyGrowStack": grow, "yy_find_shift_action": ask, "yy_find_reduce_action": goto, "user_syntax": user("syntax"), "user_accept": user("accept"),
           "user_failure": user("failure"), "user_overflow": user("overflow")}

    def dom(lv, st):
        if lv[1] == ("g", "yyTraceFILE"):
            return [0]
        if lv[1] == ("g", "yyRuleInfoLhs"):
            return [40]
        if lv[1] == ("g", "yyRuleInfoNRhs"):
            return [0, -1, -2]
        return None
    n = 0
    for depth0, room in ((0, 90), (1, 90), (2, 90), (2, 0)):
        for major in (0, 5):
            for cnt in ((-1, 0, 1, 3) if room else (-1,)):
                for top in ((5, ERRSYM) if mode == "error" and depth0 == 2 and room else (5,)):
                    m = {fld("P", "yytos"): ptr(base, depth0), fld("P", "yyerrcnt"): cnt, fld("P", "yyhwm"): depth0,
                         fld("P", "yystackEnd"): ptr(base, depth0 + room), fld("P", "yystksz"): depth0 + room + 1}
                    if not fixed:
                        m[fld("P", "yystack")] = ptr("stk")
                    stack0 = [(0, 0)] + [(10 + i, top if i == depth0 else 20 + i) for i in range(1, depth0 + 1)]
                    for i, (a, b) in enumerate(stack0):
                        m[slot(i, "stateno")] = a
                        m[slot(i, "major")] = b
                    if mode == "none":
                        m.pop(fld("P", "yyerrcnt"))
                    I = Interp(p, Lazy(dom, ops, skip=("fprintf", "user_destroy", "user_code", "user_int")))
                    outs = I.run("Parse", [ptr("P"), major, ("p", "tokval", 0), ptr("arg")], State(m))
                    if not outs:
                        raise AnalysisBroken("Parse never returns")
                    for nm, node, s in I.ended:
                        # a right-hand side longer than the stack, and acceptance with more on it, are excluded by the tables
                        d = depth(s)
                        if d is not None and d >= 0 and not short(s, p):
                            R.bad(ACT, "Parse|stops", p.loc(node), I_fn(node), "an assertion of the engine fails (%s)" % c, [describe(s, {}, NUM), str(s.get(EV))])
                    for _, s in outs:
                        try:
                            r = refer(s, stack0, major, cnt, mode, room, fixed)
                        except NotGrown:
                            R.bad(ACT, "Parse|grow", p.loc(f), "Parse", "an entry is pushed past the end of the stack (%s)" % c, [describe(s, {}, NUM), str(s.get(EV))])
                            continue
                        if r is None:
                            continue
                        n += 1
                        evs, stack, ecnt = r
                        got = [e for e in s.get(EV, ())]
                        d = depth(s)
                        gs = [(s.get(slot(i, "stateno")), s.get(slot(i, "major"))) for i in range(d + 1)] if d is not None else None
                        det = ["%s, token %d, error count %s, stack %s; decisions: %s" % (c, major, cnt, stack0, describe(s, {}, NUM)), "events %s" % (got,), "expected %s" % (evs,)]
                        ge = [e for e in got if e[0] in ("syntax", "failure", "accept", "overflow")]
                        we = [e for e in evs if e[0] in ("syntax", "failure", "accept", "overflow")]
                        if ge != we:
                            R.bad(ERR if any(x[0] == "syntax" for x in ge + we) else END, "Parse|%s|calls %s" % (mode, "/".join(x[0] for x in we)), p.loc(f), "Parse",
                                  "the user's code is called as %s where it should be %s" % (", ".join(x[0] for x in ge) or "nothing", ", ".join(x[0] for x in we) or "nothing"), det)
                        if [e for e in got if e[0] in ("ask", "goto")] != [e for e in evs if e[0] in ("ask", "goto")]:
                            R.bad(ACT, "Parse|%s|asks" % mode, p.loc(f), "Parse", "the tables are asked about other states or symbols than the stack and input hold", det)
                        if gs != stack:
                            R.bad(ERR if any(x == ERRACT for k, x in s.mem.items() if k[0] == "init") else ACT, "Parse|%s|stack" % mode, p.loc(f), "Parse",
                                  "the stack ends as %s where it should be %s" % (gs, stack), det)
                        if ecnt is not None and mode != "none" and s.get(fld("P", "yyerrcnt")) != ecnt:
                            R.bad(ERR, "Parse|%s|count" % mode, p.loc(f), "Parse", "the count that silences further reports ends as %s where it should be %s" % (s.get(fld("P", "yyerrcnt")), ecnt), det)
    R.ok(ACT, n, "%s: Parse from stacks of up to three entries" % c)
    R.ok(ERR, n)
    R.ok(END, n)
    return n


class NotGrown(Exception):
    pass


def short(s, p):
    """the decisions ask for more than the stack holds"""
    evs = s.get(EV, ())
    nr = [v for k, v in s.mem.items() if k[0] == "init" and k[1] == ("g", "yyRuleInfoNRhs")]
    return any(v < 0 for v in nr) or any(e[0] == "ask" for e in evs) and ACCEPT in [v for k, v in s.mem.items() if k[0] == "init"]


def refer(s, stack0, major, cnt, mode, room, fixed):
    """the documented engine on the same decisions; None where the tables exclude them"""
    def ch(k):
        return s.mem[k]
    evs, st = [], list(stack0)
    asks = gotos = grows = 0
    hit = False
    end = len(stack0) - 1 + room

    def full():
        """no room for one more entry, and none to be had"""
        nonlocal end, grows
        if len(st) - 1 < end:
            return False
        if not fixed:
            k = ("init", "grow%d" % grows, 0, "")
            if k not in s.mem:
                raise NotGrown
            grows += 1
            if ch(k) == 0:
                end += 100
                return False
        evs.append(("overflow",))
        del st[1:]
        return True
    while True:
        top = st[-1][0]
        evs.append(("ask", top, major))
        if top > MAXSHIFT:
            a = top
        else:
            k = ("init", "ask%d" % asks, 0, "")
            if k not in s.mem:
                return evs, st, cnt
            a = ch(k)
            asks += 1
        if a >= MINRED:
            rule = a - MINRED
            k = ("init", ("g", "yyRuleInfoNRhs"), rule, "")
            if k not in s.mem:
                return evs, st, cnt
            nr = -ch(k)
            if nr > len(st) - 1:
                return None
            if nr == 0 and full():
                return evs, st, None
            del st[len(st) - nr:]
            k = ("init", "goto%d" % gotos, 0, "")
            if k not in s.mem:
                return evs, st, cnt
            evs.append(("goto", st[-1][0], 40))
            st.append((ch(k), 40))
            gotos += 1
        elif a <= MAXSR:
            if full():
                return evs, st, None
            st.append((a if a <= MAXSHIFT else a + MINRED - MINSR, major))
            return evs, st, None if cnt is None else cnt - 1
        elif a == ACCEPT:
            st.pop()
            evs.append(("accept",))
            return evs, st, -1
        elif mode == "none":
            evs.append(("syntax",))
            return evs, st, cnt
        elif mode == "plain":
            if cnt <= 0:
                evs.append(("syntax",))
            cnt = 3
            if major == 0:
                del st[1:]
                evs.append(("failure",))
                cnt = -1
            return evs, st, cnt
        else:
            if cnt < 0:
                evs.append(("syntax",))
            cnt = 3
            if st[-1][1] == ERRSYM or hit:
                return evs, st, cnt
            g = None
            while len(st) > 1:
                k = ("init", "goto%d" % gotos, 0, "")
                if k not in s.mem:
                    return evs, st, cnt
                evs.append(("goto", st[-1][0], ERRSYM))
                g = ch(k)
                gotos += 1
                if g <= MAXSR:
                    break
                st.pop()
            if len(st) == 1 or major == 0:
                del st[1:]
                evs.append(("failure",))
                return evs, st, None
            if full():
                return None
            st.append((g if g <= MAXSHIFT else g + MINRED - MINSR, ERRSYM))
            hit = True


def start(R, p, c, defs):
    f = p.fn("ParseInit")
    fixed = defs["YYSTACKDEPTH"] != "0"
    base = ("sub", "P", 0, "yystack") if fixed else None

    def new(vals, st, n, I):
        return [(ptr("new"), st), (0, st)]
    I = Interp(p, Lazy(lambda lv, st: [0] if lv[1] == ("g", "yyTraceFILE") else None, {"malloc": new, "realloc": new}, skip=("fprintf",)))
    outs = I.run("ParseInit", [ptr("P"), ptr("ctx")], State({}))
    n = 0
    for nm, node, s in I.ended:
        R.bad(INI, "ParseInit|stops", p.loc(node), I_fn(node), "initialising a parser stops the program (%s)" % c)
    for _, s in outs:
        n += 1
        t = s.get(fld("P", "yytos"))
        want = base if fixed else (s.get(fld("P", "yystack")) or (None, None))[1]
        if not (isinstance(t, tuple) and t[1] == want and t[2] == 0):
            R.bad(INI, "ParseInit|top", p.loc(f), "ParseInit", "a new parser's top is not the bottom of its stack (%s)" % c)
            continue
        lv = I.at(t, "stateno"), I.at(t, "major")
        if [s.get(x) for x in lv] != [0, 0]:
            R.bad(INI, "ParseInit|bottom", p.loc(f), "ParseInit", "the bottom entry of a new parser is not state 0 with symbol 0 (%s)" % c)
        if "YYNOERRORRECOVERY" not in defs and s.get(fld("P", "yyerrcnt")) != -1:
            R.bad(INI, "ParseInit|count", p.loc(f), "ParseInit", "a new parser does not report its first error (%s)" % c)
        if fixed:
            e = s.get(fld("P", "yystackEnd"))
            if not (isinstance(e, tuple) and e[1] == base and e[2] == int(defs["YYSTACKDEPTH"]) - 1):
                R.bad(INI, "ParseInit|end", p.loc(f), "ParseInit", "the end of a new parser's stack is not its last entry (%s)" % c)
    if not outs:
        raise AnalysisBroken("ParseInit never returns")
    R.ok(INI, n, "%s: ParseInit" % c)
    if "ParseFallback" in p.functions:
        for v, s in Interp(p, Lazy(lambda lv, st: [lv[2] + 70] if lv[1] == ("g", "yyFallback") else None)).run("ParseFallback", [0], State({})):
            if v != (70 if "YYFALLBACK" in defs else 0):
                R.bad(LOOK, "ParseFallback", p.loc(p.fn("ParseFallback")), "ParseFallback", "the fallback of a token is not what the fallback table holds (%s)" % c)
        R.ok(LOOK)
    return n


def run(R):
    R.explain = ("lempar.c is completed with stand-ins for the generated parts and parsed in 12 configurations; the tables are abstract, each lookup is split into its possible outcomes. Every path of the "
                 "lookup functions, of Parse (callees in place, from stacks of up to three entries, up to three lookups), of ParseInit and ParseFallback is interpreted and what it does - which entries are asked, "
                 "which user code runs, the stack and the error count it leaves - is compared with the documented engine making the same decisions.")
    R.rule(LOOK, "a token's action is the entry at its state's offset plus its number if the lookahead there is the token, else that of its fallback, else that of the wildcard (not for the end), else the default")
    R.rule(ACT, "shift pushes state and token; shift-reduce pushes the pending reduction; reduce pops the right-hand side and pushes the left-hand side with the state found below; a pending reduction is done first")
    R.rule(ERR, "a syntax error is reported unless tokens were just recovered from; recovery pops to a state that shifts the error symbol and pushes it, discards the token that failed again, or gives up at the end of input")
    R.rule(END, "acceptance and failure each run their code once, with the stack empty")
    R.rule(INI, "a new parser is in state 0 with nothing on the stack and reports its first error")
    R.assumes += ["tables: no action asks for more entries than the stack holds; accept comes with one entry on it; a goto is a state or a pending reduction; fallbacks have no fallback (asserted by the template)",
                  "growth of the stack keeps its entries (C12)"]
    tot = look = 0
    with concurrent.futures.ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1)) as ex:
        for lk, en, log in ex.map(one, sorted(lempar.CONFIGS)):
            look += lk
            tot += en
            for what, a in log:
                getattr(R, what)(*a)
    R.count("configurations", len(lempar.CONFIGS), 12)
    R.count("abstract cases: lookups", look, 100)
    R.count("abstract cases: runs of the engine", tot, 500)


class Log:
    """the report of one configuration, replayed into the real one"""
    def __init__(self):
        self.log = []

    def bad(self, *a):
        self.log.append(("bad", a))

    def ok(self, *a):
        self.log.append(("ok", a))


def one(c):
    R = Log()
    p = lempar.program(c)
    defs = lempar.CONFIGS[c]
    for fn in ("yy_find_shift_action", "yy_find_reduce_action", "Parse", "ParseInit"):
        if fn not in p.functions:
            raise AnalysisBroken("no function %s in the template" % fn)
    look = look_shift(R, p, c, defs) + look_reduce(R, p, c, defs)
    start(R, p, c, defs)
    try:
        n = engine(R, p, c, defs)
    except AnalysisBroken:
        # an engine that does not stop is not explored to the end; what was found on the way stands
        if not any(what == "bad" for what, _ in R.log):
            raise
        n = 1
    return look, n, R.log
