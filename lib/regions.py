"""Code that runs or not depending on a flag: control-dependent blocks, and functions reached from nowhere else."""
import cfg
from cfg import strip, callee


def postdominators(g):
    """an end of the program joins anything, except where nothing else follows"""
    pd, plain = _pd(g, True), _pd(g, False)
    n = len(g.blocks) + 1
    return dict((i, plain[i] if len(s) >= n else s) for i, s in pd.items())


def _pd(g, ends):
    ids = [b.id for b in g.blocks]
    allb = set(ids) | set([-1])
    by = dict((b.id, b) for b in g.blocks)
    pd = dict((i, set(allb)) for i in ids)
    pd[-1] = set([-1])

    def succ(b):
        s = [x.id for x in b.succs()]
        return s if s else ([-1] if b is g.exit or not ends else [])
    ch = True
    while ch:
        ch = False
        for b in reversed(g.blocks):
            ss = succ(b)
            new = (set.intersection(*[pd[s] for s in ss]) if ss else set(allb)) | set([b.id])
            if new != pd[b.id]:
                pd[b.id] = new
                ch = True
    return pd


def sides(g, b, pd=None):
    """blocks run only because of the branch at the end of b, for each successor"""
    pd = pd or postdominators(g)
    by = dict((x.id, x) for x in g.blocks)
    stop = pd[b.id] - set([b.id])
    # postdominators of noreturn paths: a side that always ends the program joins nothing
    res = []
    for s in b.succs():
        seen = set()
        st = [s.id]
        while st:
            i = st.pop()
            if i in seen or i in stop or i < 0:
                continue
            seen.add(i)
            st.extend(x.id for x in by[i].succs())
        res.append(seen)
    return res


class Regions(object):
    """flags(node) -> name when node reads a flag.  After construction:
    branches: [(function, branch block, flag, [region nodes per side])]; region: {function: set(block ids)};
    whole: functions reached only from regions; leaks: reads of a flag that are not a branch condition"""

    def __init__(self, p, flags, roots, allowed_use):
        self.p = p
        self.flags = flags
        self.branches, self.leaks = [], []
        self.region = {}
        cond = set()
        for f in p.functions:
            g = p.cfg(f)
            pd = None
            for b in g.blocks:
                if b.term and b.term[0] in ("branch", "switch"):
                    fl = [flags(n, f) for n in b.term[1].walk()]
                    fl = [x for x in fl if x]
                    if not fl:
                        continue
                    for n in b.term[1].walk():
                        cond.add(n.id)
                    pd = pd or postdominators(g)
                    r = sides(g, b, pd)
                    self.branches.append((f, b, fl[0], r))
                    for s in r:
                        self.region.setdefault(f, set()).update(s)
            for n in p.functions[f].walk():
                fl = flags(n, f)
                if fl and n.id not in cond and not allowed_use(n, f):
                    self.leaks.append((f, n, fl))
        # functions called only from regions
        self.inside = {}
        for f, bl in self.region.items():
            ids = set()
            g = p.cfg(f)
            for b in g.blocks:
                if b.id in bl:
                    for e in b.elems:
                        for n in e.walk():
                            ids.add(n.id)
                    if b.term and b.term[0] in ("branch", "switch"):
                        for n in b.term[1].walk():
                            ids.add(n.id)
            self.inside[f] = ids
        # calls made on both sides of one flag happen either way
        byflag = {}
        for f, b, fl, r in self.branches:
            if b.term[0] != "branch":
                continue
            g = p.cfg(f)
            for side, bl in zip((True, False), r):
                other = set()
                for f2, b2, fl2, r2 in self.branches:
                    if f2 == f and fl2 != fl:
                        for s2 in r2:
                            other |= s2
                for x in g.blocks:
                    if x.id in bl and x.id not in other:
                        for e in x.elems:
                            if e.kind == "CallExpr" and callee(e) in p.functions:
                                byflag.setdefault((f, fl, callee(e)), {}).setdefault(side, []).append(e.id)
        self.both = set()
        for k, d in byflag.items():
            if len(d) == 2:
                for x in d.values():
                    self.both |= set(x)
        sites = {}
        for f in p.functions:
            for c, n in p.calls(f):
                if c in p.functions:
                    sites.setdefault(c, []).append((f, n))
        taken = p.addr_taken()
        whole = set(f for f in p.functions if f in sites and f not in taken and f not in roots)
        ch = True
        while ch:
            ch = False
            for f in list(whole):
                if not all(c in whole or (n.id in self.inside.get(c, ()) and n.id not in self.both) for c, n in sites[f]):
                    whole.discard(f)
                    ch = True
        self.whole = whole

    def observed(self, f, n):
        return f in self.whole or n.id in self.inside.get(f, ())
