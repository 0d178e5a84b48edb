"""attributes a grammar may omit are tested before use"""
import cfg
import prog
from cast import AnalysisBroken
from nullrules import analyse

# attributes that stay null when the grammar (or command line) leaves them out; confirmed by reading
LEMON = {"lemon": "name arg ctx include error overflow failure accept extracode tokendest vardest tokenprefix tokentype vartype "
                  "stacksize start expect errsym wildcard user_templatename outputDir",
         "rule": "code codePrefix codeSuffix lhsalias precsym rhsalias[]",
         "symbol": "datatype destructor fallback",
         "state": "pDfltReduce", "action": "spOpt", "config": "bplp fplp",
         "pstate": "fallback prevrule decllinenoslot"}
BYACC = {"bucket": "tag", "byacc_t": "initial_action symbol_destructor[] symbol_type_tag[] rprec_bucket[] lex_param parse_param default_destructor[]"}


def table(p, d):
    have = set()
    for rec, fl in p.records.items():
        for _, f, t in fl:
            have.add((rec, f))
    s = set()
    for rec, fs in d.items():
        for f in fs.split():
            nm = f.replace("[]", "")
            if (rec, nm) in have:
                s.add((rec, f))
            else:                      # a renamed record keeps its field names, if they are unique
                own = [r for r, x in have if x == nm]
                if len(own) == 1:
                    s.add((own[0], f))
    return s


def run(R):
    R.explain = ("Path-sensitive nullness over every function of lemon and both byacc variants, with the attributes a grammar may leave "
                 "out taken as possibly null: each use (dereference, %s argument, string-library argument, argument of a callee that uses "
                 "it untested) must follow a test on every path; calls that may change the attribute end the effect of an earlier test.")
    R.rule("guarded", "an attribute that may be absent is used only after a test that it is present")
    R.assumes += ["the table of omittable attributes (checks/c20.py) was confirmed by reading"]
    for p, d, fl in ((prog.lemon(), LEMON, 15), (prog.byacc(True), BYACC, 3), (prog.byacc(False), BYACC, 1)):
        s = table(p, d)
        if len(s) < 3:
            raise AnalysisBroken("%s: the omittable attributes are gone" % p.name)

        def optional(n, s=s, p=p):
            el = ""
            if n.kind == "ArraySubscriptExpr":
                n = cfg.strip(n.kids[0])
                el = "[]"
            return n.kind == "MemberExpr" and (p.owner(n)[0], n.name + el) in s
        N = analyse(R, p, "guarded", optional, 2000, fl, sources=(), implied={"precsym_decl": "precsym"})
        R.count(p.name + " omittable attributes", len(s), 3)
