"""generated lemon parsers: no state outside the parser object, no name outside the chosen prefix"""
import re

import c06
import lempar
import prog
import strs
import cfg
from cfg import strip

S, N, E = "no shared state", "names outside", "emitted definitions"


def one(R, cfgname, lines):
    p = lempar.program(cfgname)
    ns = nn = 0
    seen = set()

    def obs(n):
        w = p.where[n.line - 1] if 0 < n.line <= len(p.where) else 0
        return abs(w) in lines

    def mine(n):
        return n.file and "lempar_" in n.file
    objs = []
    for t in p.tus:
        for nm, d in t.globals.items():
            if mine(d):
                objs.append((None, d))
    for f, d in p.functions.items():
        for n in d.walk():
            if n.kind == "VarDecl" and (n.extra or {}).get("storageClass") in ("static", "extern"):
                objs.append((f, n))
    for f, d in objs:
        if d.id in seen:
            continue
        seen.add(d.id)
        ns += 1
        t = d.ctype or ""
        const = re.match(r"^const [\w ]+(\[\d*\])*$", t) or re.search(r"\*\s*const\s*(\[\d*\])*$", t)
        if not const and not (d.name in c06.OWN and obs(d)):
            R.bad(S, "%s|%s" % (f or "file", d.name), p.loc(d), f or "(file)", "%s keeps a value outside the parser object, shared by all parsers (%s)" % (d.name, cfgname))
        if f is None:
            nn += 1
            if (d.extra or {}).get("storageClass") != "static" and not d.name.startswith("Parse"):
                R.bad(N, d.name, p.loc(d), "(file)", "%s is visible to the linker and not renamed by %%name (%s)" % (d.name, cfgname))
    for f, d in p.functions.items():
        nn += 1
        if (d.extra or {}).get("storageClass") != "static" and not f.startswith("Parse"):
            R.bad(N, f, p.loc(d), f, "%s is visible to the linker and not renamed by %%name (%s)" % (f, cfgname))
    R.ok(S, ns, "%s: %d objects" % (cfgname, ns))
    R.ok(N, nn, "%s: %d names" % (cfgname, nn))
    return ns, nn


def emitted(R):
    """what lemon itself writes into the parser: definitions are static, and constant"""
    p = prog.lemon()
    n = 0
    for f, d in sorted(p.functions.items()):
        for x in d.walk():
            if x.kind != "StringLiteral":
                continue
            s = strs.unquote(x.val)
            if s is None:
                continue
            for l in s.split("\n"):
                m = re.search(r"(\w+)\s*\[[^\]]*\]\s*=\s*\{", l)
                if m:
                    n += 1
                    if not re.match(r"\s*static\s+const\b", l):
                        R.bad(E, "%s|%s" % (f, m.group(1)), p.loc(x), f, "the table %s is written to the parser as a definition that is not static and constant" % m.group(1))
    R.ok(E, n, "%d table definitions written by lemon" % n)
    R.count("table definitions written by lemon", n, 4)


def run(R):
    R.explain = ("lempar.c is completed with stand-ins for the generated parts and parsed in 12 configurations. Every object with static storage must be constant, except the trace stream, the trace "
                 "prompt and the coverage table inside their conditionals; every function and object that is not static must have a name that %name replaces. The same for the table definitions "
                 "written by lemon itself.")
    R.rule(S, "objects with static storage are constant")
    R.rule(N, "what the linker sees begins with the prefix that %name replaces")
    R.rule(E, "tables written by lemon are static const")
    lines, _ = c06.regions()
    a = b = 0
    for c in sorted(lempar.CONFIGS):
        x, y = one(R, c, lines)
        a += x
        b += y
    R.count("configurations", len(lempar.CONFIGS), 12)
    R.count("static objects", a, 80)
    R.count("names", b, 150)
    emitted(R)
