"""the generated parser's stack stays inside its block"""
import linear
import lempar
from linear import Linear, sym, lin, scale, add, sub, plus
from effects import Effects
from concurrent.futures import ProcessPoolExecutor
from cast import AnalysisBroken
import re

P = "yyParser"
ACCEPT = 221                      # YY_ACCEPT_ACTION of the stand-in


def build(cfgname):
    p = lempar.program(cfgname)
    fx = Effects(p)
    L = Linear(p, fx)
    E = L.tsize("struct yyStackEntry")
    if not E:
        raise AnalysisBroken("size of yyStackEntry unknown")
    fixed = cfgname.startswith("depth100")
    tos = {(P, "yytos"): (P, "yystack")}
    if fixed:
        size = dict((x[1], x[2]) for x in p.records[P]).get("yystack", "")
        m = re.search(r"\[(\d+)\]", size)
        if not m:
            raise AnalysisBroken("yystack is not an array")
        n = int(m.group(1)) * E
        tos[(P, "yystackEnd")] = (P, "yystack")
        invs = [(P, {"yytos": 1}, 0), (P, {"yytos": -1}, n - E), (P, {"yystackEnd": 1}, -(n - E)), (P, {"yystackEnd": -1}, n - E)]
        L = Linear(p, fx, families=[], invariants=invs, derived=tos)
        L.arrays = {(P, "yystack"): n}
    else:
        invs = [(P, {"yytos": 1}, 0), (P, {"yytos": -1, "yystksz": E}, -E), (P, {"yystksz": 1}, -1)]
        L = Linear(p, fx, families=[{"owner": P, "ptr": "yystack", "size": (0, {"yystksz": E})}], invariants=invs, derived=tos)
        L.loads = ((P, "yystack"),)
    L.entries = ("yyStackEntry",)

    def nrhs(self, i, st, s):
        v = sym(s)
        st.fact(scale(v, -1))                                   # the table holds negated lengths
        for k, x in list(st.env.items()):
            if k.endswith("->yytos"):
                b = self.block(x, st)
                if b is not None:
                    st.fact(add(sub(x, sym(b)), scale(v, E)))   # a rule is reduced when its right-hand side is on the stack
    def extra(env, states):
        out = []
        nr = set(q for st in states for f in st.facts for q, _ in f[1] if q.startswith("yyRuleInfoNRhs["))
        for k, v in env.items():
            if k.endswith("->yytos") and v[1]:
                for q, _ in v[1]:
                    if q.endswith(".off"):
                        for r in nr:
                            out.append(add(sym(q, -1), sym(r, -E))[1])
                base = k[:-5]
                if not fixed and base + "yystksz" in env and base + "yystack" in env:
                    room = sub(scale(env[base + "yystksz"], E), sub(v, env[base + "yystack"]))
                    out.append(room[1])
                    for r in nr:
                        out.append(add(room, sym(r, -E))[1])
        return out
    L.extra = extra

    def onbranch(self, c, truth, st):
        """the parser accepts with the start symbol on its stack"""
        c = linear.strip(c)
        if c.kind != "BinaryOperator" or c.op not in ("==", "!=") or truth != (c.op == "=="):
            return
        if any(linear.const_int(x) == ACCEPT for x in c.kids):
            for k, x in list(st.env.items()):
                if k.endswith("->yytos"):
                    b = self.block(x, st)
                    if b is not None:
                        st.fact(plus(sub(x, sym(b)), -E))
    L.onbranch = onbranch
    L.tables = {"yyRuleInfoNRhs": nrhs}
    L.inline = lambda f: True
    return p, L, E


GROW = [(P, {"yytos": 1}, 0), (P, {"yystksz": 1}, -1)]


def grow_summary(L, caps, E):
    """a call of a function that enlarges the stack: it fails and changes nothing, or there is room for one more entry"""
    def hook(self, n, nm, st):
        if nm not in caps or nm in self.stack:
            return None
        base = None
        for a in linear.args(n):
            t = (a.ctype or "").replace("struct ", "").replace("const ", "")
            if t.startswith(P):
                k = self.key(linear.strip(a))
                base = k + "->" if k else None
        if base is None:
            raise AnalysisBroken("call of %s without a parser" % nm)
        tos = self.fieldval((P, "yytos"), base, st)
        old = self.load_field((P, "yystksz"), base, st)
        self.obl(n, "top inside one past the stack when it grows", sub(scale(old, E), tos), st)
        self.obl(n, "top not below the stack when it grows", tos, st)
        no = st.copy()
        no.env["#%s" % n.id] = lin(1)
        ok = st
        sz = self.fresh(ok, "h%s:%syystksz" % (n.id[-8:], base))
        blk = self.fresh(ok, "h%s:%syystack" % (n.id[-8:], base))
        ok.sz[blk[1][0][0]] = scale(sz, E)
        ok.env[base + "yystack"] = blk
        ok.env[base + "yystksz"] = sz
        ok.env[base + "yytos"] = add(blk, tos)
        ok.fact(plus(sub(sz, old), -1))
        ok.fact(plus(sz, -1))
        ok.env["#%s" % n.id] = lin(0)
        return [no, ok]
    L.callhook = hook


def capacity(c, f):
    """f alone, called with the top at most one past the stack"""
    p, L, E = build(c)
    L.lateload = L.nonnull_derived = True
    L.invs = GROW + [(P, {"yytos": -1, "yystksz": E}, 0)]
    L.inline = lambda g: True
    L.callhook = lambda *a: None
    L.budget = 6000000
    linear.K = 16
    outs = L.function(f)
    d = p.functions[f]
    par = [k for k in d.kids if k is not None and k.kind == "ParmVarDecl" and P in (k.ctype or "")]
    if len(par) != 1:
        raise AnalysisBroken("%s does not take one parser" % f)
    base = par[0].name
    base = linear.key(linear._Ref(par[0])) + "->"
    n = d
    for st in outs:
        r = st.env.get("#ret")
        fails = r is not None and (linear.lower(plus(r, -1), st.facts) >= 0 or linear.lower(plus(scale(r, -1), -1), st.facts) >= 0)
        tos = L.fieldval((P, "yytos"), base, st)
        sz = L.load_field((P, "yystksz"), base, st)
        moved = sub(tos, sym("@" + base + "yytos.off"))
        L.obl(n, "depth unchanged by growing", moved, st)
        L.obl(n, "depth unchanged by growing ", scale(moved, -1), st)
        if not fails:
            L.obl(n, "room for one more entry after growing", plus(sub(sz, sym("@" + base + "yystksz")), -1), st)
    return dict(L.sites), dict(L.viol)


def stores(d):
    return any(n.kind == "BinaryOperator" and n.op in ("=", "+=", "-=") and linear.strip(n.kids[0]).kind == "MemberExpr" and linear.strip(n.kids[0]).name == "yytos"
               or n.kind == "UnaryOperator" and n.op in ("++", "--") and linear.strip(n.kids[0]).kind == "MemberExpr" and linear.strip(n.kids[0]).name == "yytos" for n in d.walk())


def job(c):
    p, L, E = build(c)
    calls, out = {}, {}
    for f in p.functions:
        for g, _ in p.calls(f):
            if g in p.functions:
                calls.setdefault(g, set()).add(f)
    caps = set(f for f, d in p.functions.items() if any(n.kind == "BinaryOperator" and n.op == "=" and linear.strip(n.kids[0]).kind == "MemberExpr"
                                                         and linear.strip(n.kids[0]).name in ("yystksz", "yystack") for n in d.walk()))

    caps = set(f for f in caps if f != "ParseInit")
    L.lateload = L.nonnull_derived = True
    grow_summary(L, caps, E)

    def one(f, inl):
        if f in caps:
            return capacity(c, f)
        L.inline = lambda g: g in inl
        L.sites, L.viol = {}, {}
        linear.K = 8
        L.budget = 6000000
        L.function(f)
        return dict(L.sites), dict(L.viol)
    for f in sorted(p.functions):
        out[f] = one(f, ())
    bad = set(f for f in out if out[f][1])
    # what holds only in its callers is judged there
    for _ in range(3):
        helpers = set(f for f in bad if f in calls and f not in caps and f not in ("Parse", "ParseInit", "ParseFinalize"))
        again = set(c for f in helpers for c in calls[f])
        for f in sorted(again):
            out[f] = one(f, helpers - set([f]))
        new = set(f for f in out if out[f][1])
        for f in helpers:
            if not any(c in new for c in calls[f]):
                new.discard(f)
                out[f] = (out[f][0], {})
        if new == bad:
            break
        bad = new
    # last: with every helper that looks at the stack analysed in place
    touch = set(f for f, d in p.functions.items() if f not in caps and any(n.kind == "MemberExpr" and n.name in ("yytos", "yystack", "yystackEnd", "yystksz") for n in d.walk()))
    touch -= set(f for f, d in p.functions.items() if f not in bad and stores(d))
    for f in sorted(bad - caps):
        try:
            r = one(f, touch - set([f]))
        except linear.TooLong:
            continue
        if not r[1]:
            out[f] = r
    if not any(out[f][1] for f in out if f in ("Parse", "ParseInit", "ParseFinalize") or f in caps):
        for f in sorted(bad):
            if f in calls and all(not out[g][1] or g in calls for g in calls[f]):
                out[f] = (out[f][0], {})
    return out


RULE = "inside the stack"


def run(R):
    R.explain = ("lemon/lempar.c is completed with stand-ins at its %% places and compiled in 12 configurations (fixed or growing stack; error symbol, plain or no error "
                 "recovery; with and without tracing, coverage and high-water marks). In each, every function is interpreted over linear facts about the position of the top, the "
                 "size of the stack and the length of a right-hand side: the top stays between the first and the last entry, every entry written or read lies in the block, the "
                 "recorded size is the allocated size, and growing keeps the depth and adds room. Functions that rely on what their callers establish are judged inside each caller; "
                 "growing is judged alone and by its result at its calls.")
    R.rule(RULE, "entries are used only between the first and the last of the block; its recorded size is the size allocated")
    R.assumes += ["the parse tables are right: a rule is reduced when its right-hand side is on the stack, and the input is accepted with the start symbol there",
                  "user code called from reductions changes nothing of the parser"]
    names = list(lempar.CONFIGS)
    fl = {"depth100": 25, "depth0": 70}
    merged, locs = {}, {}
    with ProcessPoolExecutor(8) as ex:
        for c, r in zip(names, ex.map(job, names)):
            k = 0
            for f, (sites, viol) in sorted(r.items()):
                k += len(sites)
                R.ok(RULE, len(sites), "%s: %d places of %s" % (c, len(sites), f) if sites else None)
                for (fn, loc, what), msg in sorted(viol.items()):
                    key = "%s|%s" % (fn, what)
                    merged.setdefault(key, (loc, fn, what, msg, []))[4].append("%s, judged from %s" % (c, f))
            R.count(c + " places", k, fl[c.split("-")[0]])
    for key, (loc, fn, what, msg, det) in sorted(merged.items()):
        R.bad(RULE, key, loc, fn, "%s: %s" % (what, re.sub(r"'[0-9a-f]+", "", msg)[:200]), det[:4])
