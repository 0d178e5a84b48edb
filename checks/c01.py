"""#line accuracy"""
import re

import cfg
import prog
from cast import AnalysisBroken
from lines import Lines


class LemonConf(object):
    counter_fields = set()
    start = 1
    want = 1
    text_fields = {"code", "codePrefix", "codeSuffix", "destructor", "include", "error", "overflow", "failure", "accept",
                   "extracode", "tokendest", "vardest"}
    maybe_text = set()
    single_fields = {"name", "filename", "outname", "datatype", "lhsalias", "basename"}
    out_names = {"outname"}
    in_names = {"filename"}
    num_of = {}
    line_files = set()

    def stream(self, k):
        return k

    def equal(self, x, y, at):
        return None

    def is_main(self, s, at):
        return s is not None and s.split("'")[0] not in ("stderr", "stdout")

    def atom(self, k):
        return None

    def known_call(self, fmt, bases):
        return None

    def absorb(self, L, nm, streams, at):
        return None


class ByaccConf(object):
    counter_fields = {"outline"}
    start = 0
    want = 2
    line_files = {"getc:text_file", "getc:action_file"}
    text_fields = {"initial_action", "lines", "symbol_destructor", "destructor"}
    maybe_text = set()
    single_fields = {"name", "symbol_name", "symbol_prefix", "type", "type2", "code_file_name", "input_file_name",
                     "externs_file_name", "defines_file_name"}
    out_names = {"code_file_name"}
    in_names = {"input_file_name"}
    num_of = {"num": "lines"}

    def stream(self, k):
        m = re.search(r"(?:->|\.)(\w+)$", k)
        return m.group(1) if m else k

    def equal(self, x, y, at):
        if set((x, y)) == set(("code_file", "output_file")):
            if "rflag" in at:
                return not at["rflag"]
            return ("rflag", False)
        return False

    def is_main(self, s, at):
        if s == "code_file":
            return True
        if s == "output_file":
            return (not at["rflag"]) if "rflag" in at else "rflag"
        return False

    def atom(self, k):
        m = re.search(r"(?:->|\.)(rflag|iflag|lflag)$", k)
        return m.group(1) if m else None

    def known_call(self, fmt, bases):
        for b in bases:
            if b and re.search(r"(?:->|\.)initial_action$", b):
                return "initial-action text"
        return None

    def absorb(self, L, nm, streams, at):
        """recorded finding: the definition of the prefix macros is counted although it goes to the externs file"""
        if "externs_file" in streams and at.get("rflag") is False and L.mentions(nm, "#define YYPREFIX"):
            return "prefix macros in the externs file"
        return None


def lemon_lines():
    p = prog.lemon()
    L = Lines(p, LemonConf())
    cg = p.callgraph()
    dirf = set()
    for f, d in p.functions.items():
        for n in d.walk():
            if n.kind == "CallExpr" and cfg.callee(n) in ("fprintf",) and len(cfg.args(n)) > 2:
                s = L.strs.one(cfg.args(n)[1])
                if s and s.startswith("#line "):
                    dirf.add(f)
    if not dirf:
        raise AnalysisBroken("lemon: no function writes #line directives")
    roots = []
    for f, d in p.functions.items():
        if not (p.reach([f]) & dirf):
            continue
        opens = False
        for n in d.walk():
            if n.kind == "BinaryOperator" and n.op == "=" and "FILE" in n.kids[0].ctype and cfg.strip(n.kids[1]).kind == "CallExpr":
                opens = True
            if n.kind == "VarDecl" and "FILE" in (n.ctype or "") and n.kids and cfg.strip(n.kids[-1]).kind == "CallExpr":
                opens = True
        if opens:
            roots.append(f)
    if not roots:
        raise AnalysisBroken("lemon: no function opens the generated parser")
    for r in roots:
        cands = set()
        for n in p.functions[r].walk():
            if n.kind == "UnaryOperator" and n.op == "&":
                k = cfg.strip(n.kids[0])
                if k.kind == "DeclRefExpr" and k.ctype == "int":
                    cands.add(cfg.key(k))
        L.run_root(r, [], cands)
    return p, L, roots


def byacc_lines(bt):
    p = prog.byacc(bt)
    L = Lines(p, ByaccConf())
    direct = set()
    for f, d in p.functions.items():
        for n in d.walk():
            if n.kind == "MemberExpr" and n.name in ("outline",):
                direct.add(f)
            if n.kind == "MemberExpr" and n.name in ("code_file", "output_file"):
                par = n.parent
                while par is not None and par.kind in cfg.STRIP:
                    par = par.parent
                if par is not None and (par.kind == "VarDecl" or (par.kind == "CallExpr" and cfg.callee(par) not in ("fclose", "fflush", "ferror"))):
                    direct.add(f)
    if not direct:
        raise AnalysisBroken("byacc: nothing counts output lines")
    cg = p.callgraph()
    main = [f for f in cg["main"]] if "main" in cg else None
    if main is None:
        raise AnalysisBroken("byacc: no main")
    # the generation phase: the callee of main that reaches most of the counting functions
    gen = max(main, key=lambda f: len(p.reach([f]) & direct))
    under = p.reach([gen])
    roots = [gen] + sorted(direct - under - set(["main"]))
    res = {}
    for r in roots:
        ctrs = []
        fn = p.functions[r]
        prm = [x for x in fn.kids if x is not None and x.kind == "ParmVarDecl" and "byacc" in x.ctype]
        if not prm:
            continue
        k = cfg.key_of_decl(prm[0]) + "->outline"
        exits = L.run_root(r, [k], set())
        res[r] = exits
        if r != gen:
            for s in exits:
                off = dict(s.cnt).get(k)
                if off != 0 or s.texts:
                    kk = ("line-balance", p.loc(fn), r)
                    L.viol[kk] = ("on some path the number of lines written to the parser file and the number counted differ (%s)" % (off,), [], [r], r)
    return p, L, roots


MSG = {"initial-action text": "newlines of the %initial-action text are written to the parser but not counted",
       "prefix macros in the externs file": "with -i and without -r, the lines of the prefix macros go to the externs file but are counted as parser lines"}


def run(R):
    R.explain = ("Every function that writes the generated parser or touches the running line number is analysed path by path, "
                 "with callees inlined; the abstract state is the difference between the running number and the newlines written. "
                 "At each #line directive naming the generated file the difference must be exactly the one that makes the number "
                 "that of the following line, the directive must start a line, and it must carry the matching file name.")
    R.rule("own-line", "a #line directive naming the generated file carries the number of the line after it")
    R.rule("in-line", "a #line directive naming the grammar file starts a line and does not carry the generated file's name or counter")
    R.rule("balance", "every function outside the generation phase that writes or counts parser lines does both equally")
    R.rule("emission", "every write to the generated parser has a known newline effect")
    R.assumes += ["template lines fit the line buffer", "names, types and declarations taken from the grammar hold no newline",
                  "temporary text and action files hold complete lines"]
    nfn = 0
    for nm, f in (("lemon", lemon_lines), ("byacc+bt", lambda: byacc_lines(True)), ("byacc", lambda: byacc_lines(False))):
        p, L, roots = f()
        R.ok("own-line", len(L.own), nm + ": " + "; ".join(sorted(L.own)[:2]))
        R.ok("in-line", len(L.inp), nm + ": " + "; ".join(sorted(L.inp)[:2]))
        R.ok("emission", len(L.emits), nm + ": " + "; ".join(sorted(L.emits)[:2]))
        R.ok("balance", len(roots))
        R.count(nm + " own sites", len(L.own), 2)
        R.count(nm + " emissions", len(L.emits), 40)
        nfn += len(L.fns)
        for (rule, loc, st), (msg, path, stack, fn) in sorted(L.viol.items()):
            r = {"line-balance": "balance", "line-count": "own-line", "line-text": "own-line"}.get(rule, "in-line")
            R.bad(r, "%s:%s:%s" % (rule, fn, msg), loc, fn, "%s: %s" % (nm, msg),
                  ["call chain: " + " > ".join(stack), "lines on the path: " + " ".join(map(str, path[-40:]))])
        for k, loc in sorted(L.known.items()):
            R.bad("own-line", k, loc, "-", "%s: %s" % (nm, MSG[k]))
    R.count("functions", nfn)
