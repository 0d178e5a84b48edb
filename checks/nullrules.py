import re

import effects
import nullness
import prog

_fx = {}


def fx(p):
    if p.name not in _fx:
        _fx[p.name] = effects.Effects(p)
    return _fx[p.name]


def clean(k):
    return re.sub(r"'[0-9a-f]{6}", "", k)


def analyse(R, p, rule, optional, floor_uses, floor_splits, sources=nullness.MAYNULL, implied=None):
    N = nullness.Nullness(p, fx(p), optional, sources=sources)
    N.implied = implied or {}
    N.run()
    R.ok(rule, len(N.splits), "%s: %s" % (p.name, "; ".join("%s in %s" % (clean(k), f) for f, k in sorted(N.splits)[:3])))
    R.count(p.name + " pointer uses", len(N.uses), floor_uses)
    R.count(p.name + " possibly-null values", len(N.splits), floor_splits)
    R.count(p.name + " functions", len(p.functions), 50)
    for (loc, k), (fn, what, node, path, org) in sorted(N.viol.items()):
        d = ["value: %s" % clean(k)]
        if org:
            d.append("null from: %s at %s" % org)
        if path:
            d.append("lines on the path: " + " ".join(map(str, path[-40:])))
        R.bad(rule, "%s:%s:%s" % (fn, clean(k), what), loc, fn, "%s may be null here (%s)" % (clean(k), what), d)
    return N
