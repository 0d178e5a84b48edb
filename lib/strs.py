"""String literals, printf formats and their arguments."""
import re

import cfg

_ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "\"": "\"", "'": "'", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "?": "?"}


def unquote(v):
    """C text of a StringLiteral node's value -> str"""
    if v is None:
        return None
    i = v.find('"')
    s = v[i + 1:v.rfind('"')]
    out = []
    k = 0
    while k < len(s):
        c = s[k]
        if c != "\\":
            out.append(c)
            k += 1
            continue
        k += 1
        c = s[k]
        if c == "x":
            m = re.match(r"[0-9a-fA-F]+", s[k + 1:])
            out.append(chr(int(m.group(0), 16) & 255))
            k += 1 + len(m.group(0))
        elif c in "01234567":
            m = re.match(r"[0-7]{1,3}", s[k:])
            out.append(chr(int(m.group(0), 8) & 255))
            k += len(m.group(0))
        else:
            out.append(_ESC.get(c, c))
            k += 1
    return "".join(out)


class Strings(object):
    """resolve an expression to the string constants it can denote"""

    def __init__(self, prog):
        self.p = prog
        self.fields = None

    def _fields(self):
        if self.fields is None:
            d = {}
            for f in self.p.functions.values():
                for n in f.walk():
                    if n.kind == "BinaryOperator" and n.op == "=":
                        l = cfg.strip(n.kids[0])
                        if l.kind == "MemberExpr":
                            d.setdefault(self.p.owner(l), []).append(n.kids[1])
            self.fields = d
        return self.fields

    def one(self, e, depth=0):
        """the single string an expression denotes, or None"""
        r = self.all(e, depth)
        return r[0] if r is not None and len(r) == 1 else None

    def all(self, e, depth=0):
        e = cfg.strip(e)
        if e is None or depth > 4:
            return None
        if e.kind == "StringLiteral":
            return [unquote(e.val)]
        if e.kind == "ConditionalOperator":
            a, b = self.all(e.kids[1], depth + 1), self.all(e.kids[2], depth + 1)
            return None if a is None or b is None else a + b
        if e.kind == "DeclRefExpr" and e.ref.kind == "VarDecl":
            g = self.p.globals.get(e.ref.name)
            if g is not None and g.kids:
                return self.all(g.kids[-1], depth + 1)
        if e.kind == "MemberExpr":
            vs = self._fields().get(self.p.owner(e), [])
            if len(vs) == 1:
                return self.all(vs[0], depth + 1)
        return None


_CONV = re.compile(r"%(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+)?)?(?P<len>hh|h|ll|l|z|j|t|L)?(?P<conv>[a-zA-Z%])")


def parse_format(s):
    """[(literal text | (conv, length, width, prec, flags))] in order"""
    out = []
    pos = 0
    for m in _CONV.finditer(s):
        if m.start() > pos:
            out.append(s[pos:m.start()])
        pos = m.end()
        if m.group("conv") == "%":
            out.append("%")
        else:
            haspt = "." in m.group(0)
            out.append((m.group("conv"), m.group("len") or "", m.group("width"), m.group("prec") if haspt else None, m.group("flags"), haspt))
    if pos < len(s):
        out.append(s[pos:])
    return out


def format_items(fmt, args):
    """pair conversions with argument nodes: [(text,) | (conv, prec, node, precnode)]"""
    out = []
    k = 0
    for it in parse_format(fmt):
        if isinstance(it, str):
            out.append((it,))
            continue
        conv, ln, width, prec, flags, haspt = it
        if width == "*":
            k += 1
        pn = None
        if prec == "*":
            pn = args[k] if k < len(args) else None
            k += 1
        out.append((conv, prec, args[k] if k < len(args) else None, pn))
        k += 1
    return out


# stream writers: name -> (index of stream, index of format/text or None)
PRINTF = {"fprintf": (0, 1), "vfprintf": (0, 1)}
PUTS = {"fputs": (1, 0)}
PUTC = {"putc": (1, 0), "fputc": (1, 0), "_IO_putc": (1, 0), "putc_unlocked": (1, 0), "fputc_unlocked": (1, 0)}
FWRITE = {"fwrite": (3, 0)}
STDOUT = {"printf", "puts", "putchar", "vprintf"}
WRITERS = set(PRINTF) | set(PUTS) | set(PUTC) | set(FWRITE)
