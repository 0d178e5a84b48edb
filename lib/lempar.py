"""lemon's parser template as analysable programs: every %% is filled with stand-ins for what lemon writes there."""
import os
import tempfile

import cast
import cfg
from cast import AnalysisBroken
from prog import Program, REPO

SRC = os.path.join(REPO, "lemon", "lempar.c")

# stand-ins, in the order lemon fills the template: token values, table bounds and user code as calls of functions nothing is known about
FILL = [
    "#include <stdio.h>\n#include <stdlib.h>\nstruct vf_arg; void user_code(void*,...); void user_destroy(void*,...); void user_overflow(void*,...); void user_failure(void*,...); void user_syntax(void*,...); void user_accept(void*,...); int user_int(void*,...);\n",
    "#define TK_A 1\n#define TK_B 2\n",
    "#define YYCODETYPE unsigned short\n#define YYNOCODE 60\n#define YYACTIONTYPE unsigned short\n#define ParseTOKENTYPE void*\n"
    "typedef union { int yyinit; ParseTOKENTYPE yy0; int yy1; } YYMINORTYPE;\n"
    "#define ParseARG_SDECL struct vf_arg *pArg;\n#define ParseARG_PDECL ,struct vf_arg *pArg\n#define ParseARG_PARAM ,pArg\n"
    "#define ParseARG_FETCH struct vf_arg *pArg=yypParser->pArg;\n#define ParseARG_STORE yypParser->pArg=pArg;\n"
    "#define ParseCTX_SDECL struct vf_arg *pCtx;\n#define ParseCTX_PDECL ,struct vf_arg *pCtx\n#define ParseCTX_PARAM ,pCtx\n"
    "#define ParseCTX_FETCH struct vf_arg *pCtx=yypParser->pCtx;\n#define ParseCTX_STORE yypParser->pCtx=pCtx;\n"
    "#define YYNSTATE 100\n#define YYNRULE 70\n#define YYNRULE_WITH_ACTION 50\n#define YYNTOKEN 30\n"
    "#define YY_MAX_SHIFT 99\n#define YY_MIN_SHIFTREDUCE 150\n#define YY_MAX_SHIFTREDUCE 219\n#define YY_ERROR_ACTION 220\n"
    "#define YY_ACCEPT_ACTION 221\n#define YY_NO_ACTION 222\n#define YY_MIN_REDUCE 223\n#define YY_MAX_REDUCE 292\n",
    "#define YY_ACTTAB_COUNT 1000\n#define YY_SHIFT_COUNT 99\n#define YY_SHIFT_MIN 0\n#define YY_SHIFT_MAX 970\n#define YY_REDUCE_COUNT 80\n#define YY_REDUCE_MIN (-20)\n#define YY_REDUCE_MAX 960\n"
    "static const YYACTIONTYPE yy_action[1000] = {1};\nstatic const YYCODETYPE yy_lookahead[1030] = {1};\n"
    "static const unsigned short int yy_shift_ofst[100] = {1};\nstatic const short yy_reduce_ofst[81] = {1};\nstatic const YYACTIONTYPE yy_default[100] = {1};\n",
    "0," * 30 + "\n",
    "\"$\"," * 60 + "\n",
    "\"r\"," * 70 + "\n",
    "case 1: { user_destroy(pArg,pCtx,&(yypminor->yy0)); } break;\ncase 40: { user_destroy(pArg,pCtx,&(yypminor->yy1)); } break;\n",
    "user_overflow(pArg,pCtx);\n",
    "40," * 70 + "\n", "0," * 70 + "\n",
    "YYMINORTYPE yylhsminor;\ncase 0: { user_code(pArg,pCtx,&yymsp[-1].minor.yy1); } { yy_destructor(yypParser,1,&yymsp[0].minor); } yymsp[-1].minor = yylhsminor; break;\ndefault: break;\n",
    "user_failure(pArg,pCtx);\n",
    "user_syntax(pArg,pCtx,yyminor);\n",
    "user_accept(pArg,pCtx);\n",
]

CONFIGS = {}
for depth in ("100", "0"):
    for rec in ("error", "plain", "none"):
        for dbg in ("trace", "ndebug"):
            d = {"YYSTACKDEPTH": depth}
            if rec == "error":
                d["YYERRORSYMBOL"] = "41"
                d["YYFALLBACK"] = "1"
            elif rec == "none":
                d["YYNOERRORRECOVERY"] = "1"
                d["YYWILDCARD"] = "2"
                d["YYFALLBACK"] = "1"
            if dbg == "ndebug":
                d["NDEBUG"] = "1"
            else:
                d["YYTRACKMAXSTACKDEPTH"] = "1"
                if rec != "plain":
                    d["YYCOVERAGE"] = "1"
            CONFIGS["depth%s-%s-%s" % (depth, rec, dbg)] = d

_cache = {}


def text(defs):
    src = open(SRC, encoding="latin-1").read().split("\n")
    n = sum(1 for l in src if l.startswith("%%"))
    if n != len(FILL):
        raise AnalysisBroken("lempar.c has %d places for generated text, %d expected" % (n, len(FILL)))
    out = ["#define %s %s" % kv for kv in sorted(defs.items()) if kv[0] != "YYERRORSYMBOL" or True]
    where = [0] * len(out)
    k = 0
    for i, l in enumerate(src):
        if l.startswith("%%"):
            f = FILL[k].rstrip("\n").split("\n")
            out += f
            where += [-(i + 1)] * len(f)
            k += 1
        else:
            out.append(l)
            where.append(i + 1)
    return "\n".join(out), where


class Template(Program):
    where = ()

    def loc(self, n):
        w = self.where[n.line - 1] if 0 < n.line <= len(self.where) else 0
        return "lemon/lempar.c:%d%s" % (abs(w), "" if w > 0 else " (generated part)")


def program(name):
    if name not in _cache:
        with tempfile.TemporaryDirectory() as t:
            f = os.path.join(t, "lempar_%s.c" % name)
            src, where = text(CONFIGS[name])
            open(f, "w", encoding="latin-1").write(src)
            tu = cast.parse_tu(f, ["-UNDEBUG"] if "NDEBUG" not in CONFIGS[name] else [], [REPO, t])
        p = Template("lempar-" + name, [tu])
        p.where = where
        _cache[name] = p
    return _cache[name]
