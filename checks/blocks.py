"""Sizes recorded for memory blocks: what each program's growing tables and buffers promise (tables frozen after reading the code)."""
import re

import cfg
import linear
import prog
from cfg import strip, callee, is_assign
from nullrules import fx

B = "byacc_t"
VERBOSE = False


def byacc_tables(L):
    f = lambda ptr, cap, es: {"owner": B, "ptr": ptr, "size": (0, {cap: es})}
    fams = [f("pitem", "maxitems", 8), f("plhs", "maxrules", 8), f("rprec", "maxrules", 4), f("rassoc", "maxrules", 1),
            f("rprec_bucket", "maxrules", 8), f("tag_table", "tagmax", 8), f("cache", "cache_size", 1), f("line", "linesize", 1),
            f("input_file_name", "input_file_name_len", 1), f("fs5_buf_ptr", "fs5_buf_len", 1), f("table", "maxtable", 4), f("check", "maxtable", 4),
            {"owner": "SAVE_LINE", "ptr": "line_data", "size": (0, {"line_size": 1})},
            {"owner": "mstring", "ptr": "base", "size": (0, {"end": 1})}]
    derived = {("mstring", "ptr"): ("mstring", "base"), ("mstring", "end"): ("mstring", "base")}
    ge = lambda a, b: (B, {a: 1, b: -1}, 0)
    invs = [ge("maxitems", "nitems"), ge("maxrules", "nrules"), ge("tagmax", "ntags"), ge("cache_size", "cinc"),
            (B, {"nitems": 1}, 0), (B, {"nrules": 1}, 0), (B, {"ntags": 1}, 0), (B, {"cinc": 1}, 0), (B, {"maxtable": 1}, 0),
            ("mstring", {"end": 1, "ptr": -1}, 0), ("mstring", {"ptr": 1}, 0)]
    return fams, derived, invs


def lemon_tables(L):
    fams = [{"owner": "acttab", "ptr": "aLookahead", "size": (0, {"nLookaheadAlloc": 8})},
            {"owner": "acttab", "ptr": "aAction", "size": (0, {"nActionAlloc": 8})},
            {"owner": "StrAppendBuffer", "ptr": "z", "size": (0, {"alloced": 1})},
            {"owner": "lemon", "ptr": "azDefine", "size": (0, {"nDefine": 8})},
            {"owner": "lemon", "ptr": "bDefineUsed", "size": (0, {"nDefine": 1})},
            {"owner": "symbol", "ptr": "subsym", "size": (0, {"nsubsym": 8})}]
    derived = {}
    invs = [("acttab", {"nLookaheadAlloc": 1, "nLookahead": -1}, 0), ("acttab", {"nLookahead": 1}, 0), ("acttab", {"nActionAlloc": 1, "nAction": -1}, 0),
            ("acttab", {"nAction": 1}, 0), ("acttab", {"nLookaheadAlloc": 1}, 0), ("StrAppendBuffer", {"used": 1}, 0), ("lemon", {"nDefine": 1}, 0),
            ("symbol", {"nsubsym": 1}, 0)]
    for i in "1234":
        o = "s_x" + i
        n = L.tsize("struct s_x%snode" % i)
        fams.append({"owner": o, "ptr": "tbl", "size": (0, {"size": n + 8})})
        derived[(o, "ht")] = (o, "tbl")
        invs += [(o, {"size": 1, "count": -1}, 0), (o, {"count": 1}, 0), (o, {"ht": 1, "size": -n}, 0), (o, {"ht": -1, "size": n}, 0), (o, {"size": 1}, -1)]
    return fams, derived, invs


def build(p, tables, only=None):
    L = linear.Linear(p, fx(p))
    fams, derived, invs = tables(L)
    if only is not None:
        fams, derived, invs = only(fams, derived, invs)
    L = linear.Linear(p, fx(p), families=fams, invariants=invs, derived=derived)
    L.alloc = allocators(p)
    L.final_owner = B
    L.loads = ((B, "table"), (B, "check"))
    have = set(p.field_owner.values())
    for o, x in list(L.relevant):
        if (o, x) not in have:
            raise linear.AnalysisBroken("%s: field %s of %s not found" % (p.name, x, o))
    touch, small, direct = {}, set(), {}
    for f, d in p.functions.items():
        n = 0
        t = False
        for x in d.walk():
            n += 1
            if x.kind == "MemberExpr" and p.owner(x) in L.relevant:
                t = True
            if not L.relevant and x.kind == "CallExpr" and callee(x) in ("malloc", "calloc", "realloc", "strcpy", "memcpy", "lemon_strcpy", "sprintf", "lemon_sprintf", "strncpy", "strcat", "lemon_strcat"):
                t = True
            if cfg.is_assign(x):
                l = strip(x.kids[0])
                if l.kind in ("ArraySubscriptExpr",) or (l.kind == "UnaryOperator" and l.op == "*"):
                    t = t or False
        touch[f] = t
        if n < 500:
            small.add(f)
    L.inline = lambda f: f in small and touch[f]
    L.touch, L.small = touch, small
    return L


def allocators(p):
    """functions that hand out a new block of the size given by a parameter: {name: parameter index}"""
    out = {}
    for f, d in p.functions.items():
        if not (d.ctype or "").split("(")[0].strip().endswith("*"):
            continue
        al = [n for n in d.walk() if n.kind == "CallExpr" and callee(n) in ("malloc", "calloc", "realloc")]
        if len(al) != 1 or callee(al[0]) == "realloc":
            continue
        ps = [k for k in d.kids if k is not None and k.kind == "ParmVarDecl"]
        for a in cfg.args(al[0]):
            a = strip(a)
            if a is not None and a.kind == "DeclRefExpr":
                for i, q in enumerate(ps):
                    if q.id == a.ref.id:
                        # the result is what is returned
                        par = al[0].parent
                        while par is not None and par.kind in cfg.STRIP:
                            par = par.parent
                        out[f] = i
    return out


ALLOC = ("malloc", "calloc", "realloc")
TEXT = ("strcpy", "strcat", "memcpy", "memmove", "sprintf", "lemon_strcpy", "lemon_strcat", "lemon_sprintf", "strncpy", "fread")
COPY = ("strcpy", "strcat", "memcpy", "memmove", "sprintf", "lemon_strcpy", "lemon_strcat", "lemon_sprintf", "strncpy", "fread", "memset")


def groups(tables, p):
    """families are analysed apart: (pointers, capacities, counts)"""
    fams, derived, invs = tables(linear.Linear(p, fx(p)))
    g = {}
    for f in fams:
        k = (f["owner"], tuple(sorted(f["size"][1])))
        if f["owner"] == B and f["ptr"].startswith("fs5"):
            k = ("mstring", ("end",))
        if f["owner"] == "SAVE_LINE":
            k = (B, ("linesize",))
        g.setdefault(k, []).append((f["owner"], f["ptr"]))
    return [("/".join(x[1] for x in v), v) for k, v in sorted(g.items())] + [("local", [])]


def restrict(members):
    def only(fams, derived, invs):
        fa = [f for f in fams if (f["owner"], f["ptr"]) in members]
        de = dict((k, v) for k, v in derived.items() if v in members)
        names = set(members) | set(de) | set((f["owner"], x) for f in fa for x in f["size"][1])
        for _ in range(3):
            iv = [i for i in invs if any((i[0], x) in names for x in i[1])]
            names |= set((i[0], x) for i in iv for x in i[1])
        return fa, de, iv
    return only


def scope(p, L, local):
    """functions with something to decide"""
    out = []
    for f in sorted(p.functions):
        hit = al = cp = False
        for n in p.functions[f].walk():
            if n.kind == "CallExpr":
                c = callee(n)
                al = al or c in ALLOC or c in L.alloc
                cp = cp or c in (COPY if not local else TEXT)
            t = None
            if is_assign(n):
                t = strip(n.kids[0])
                if n.op == "=" and cfg.is_null(n.kids[1]):
                    continue                      # giving a block up
            elif n.kind == "UnaryOperator" and n.op in ("++", "--"):
                t = strip(n.kids[0])
            if t is None:
                continue
            if any(x.kind == "MemberExpr" and p.owner(x) in L.relevant for x in t.walk()):
                hit = True
        if (al and cp) if local else hit:
            out.append(f)
    return out


# preconditions the callers of a function establish (the rule being read has its entry)
PRE = {("cache", "read_declarations"): [(B, {"cinc": -1}, 0)],       # nothing has been cached before the declarations are read
       ("plhs/rprec/rassoc/rprec_bucket", "mark_symbol"): [(B, {"maxrules": 1, "nrules": -1}, -1)],
       ("plhs/rprec/rassoc/rprec_bucket", "end_rule"): [(B, {"maxrules": 1, "nrules": -1}, -1)]}


# places whose safety rests on facts outside linear arithmetic, read and found right
EXEMPT = {
    ("*", "store bpp below"): "the shift stops at the null entry in front of the rule",
    ("msrenew", "size of base"): "takes over a text whose block ends with its terminator",
    ("line_directive", "store S->input_file_name"): "the block of the current name is never empty",
    ("acttab_insert", "size of aAction"): "blocks of the loop",
    ("acttab_insert", "invariant nAction/nActionAlloc"): "the enlarged table covers the largest index used, checked by the loop",
    ("msprintf", "memcpy s->ptr below"): "decided with the buffer's family",
    ("append_str", "store sa_buf->z"): "two numbers of at most 39 digits each are reserved for", ("append_str", "lemon_strcpy &sa_buf->z[sa_buf->used]"): "same",
    ("append_str", "strcpy &sa_buf->z[sa_buf->used]"): "same",
    ("*", "store offsets"): "one entry per argument number of the text, counted in a first pass over it",
    ("alloc_file_name", "strcpy result"): "the length handed in is the length of the prefix",
    ("pack_grammar", "size of rprec"): "the arrays are final", ("pack_grammar", "size of rassoc"): "final", ("pack_grammar", "size of rprec_bucket"): "final",
}


def exempt(group, k):
    """k: (function, place, what)"""
    return EXEMPT.get((k[0], k[2])) or EXEMPT.get(("*", k[2]))


def analyse(which, name, members):
    """one family group of one program -> [(function, place, what, message or None)]"""
    p = prog.lemon() if which == "lemon" else prog.byacc(which == "btyacc")
    T = lemon_tables if which == "lemon" else byacc_tables
    L = build(p, T, restrict(members))
    inl = L.inline
    fs = scope(p, L, not members)
    callers = {}
    for f in p.functions:
        for c, n in p.calls(f):
            callers.setdefault(c, set()).add(f)
    addr = p.addr_taken()
    tabled = [] if members else sorted(set(x["ptr"] for x in T(linear.Linear(p, fx(p)))[0]))
    res = {}

    again = set()

    def one(f, inline, limit=12000000):
        L.inline = inl if inline else (lambda f: False)
        L.sites, L.viol = {}, {}

        def setup(L, st):
            for o, d, c in PRE.get((name, f), ()):
                L.pre = (o, d, c)
        L.pre_f = PRE.get((name, f), ())
        import time
        t0 = time.time()
        linear.K = 6 if members or f in L.small else 2
        L.budget = limit
        L.pairs = bool(members) or f in L.small
        L.function(f)
        if VERBOSE:
            print("  W", linear.WORK[0], name, f, inline, "%.1f" % (time.time() - t0), list(L.viol)[:4], flush=True)
        if not members:
            keep = lambda k: k[2].split()[0] in COPY and exempt(name, k) is None and not any(re.search(r"(->|\.)%s\b" % x, k[2]) for x in tabled)
        else:
            keep = lambda k: exempt(name, k) is None
        return dict((k, v) for k, v in L.sites.items() if keep(k)), dict((k, v) for k, v in L.viol.items() if keep(k))
    for f in fs:
        s, v = one(f, False)
        if v:
            again.add(f)
        res[f] = (s, v)
    for f in sorted(again):
        try:
            s, v = one(f, True, 3000000)
        except linear.TooLong:
            continue
        if len(v) < len(res[f][1]):
            res[f] = (s, v)
    # a helper is judged inside its callers
    for f in sorted(again):
        res[f] = (res[f][0], dict((k, m) for k, m in res[f][1].items() if exempt(name, k) is None))
    for f in sorted(again):
        if res[f][1] and f in L.small and f in callers and f not in addr:
            bad = False
            for g in sorted(callers[f]):
                try:
                    s, v = one(g, True, 600000)
                except linear.TooLong:
                    v = res[f][1]
                if any(exempt(name, k) is None for k in v):
                    bad = True
                    break
            if not bad:
                res[f] = (res[f][0], {})
    for f in res:
        res[f] = (res[f][0], dict((k, m) for k, m in res[f][1].items() if exempt(name, k) is None))
    return res
