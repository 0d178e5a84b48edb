"""Obligations, violations, floors and known findings of one check."""
import os

from cast import AnalysisBroken


class Report(object):
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations, self.rules, self.assumes, self.samples = [], {}, [], []
        self.counts = {}
        self.floors = {}
        self.explain = ""
        self._obl = {}
        self._keys = set()

    def rule(self, name, text):
        self.rules[name] = text
        self._obl.setdefault(name, 0)

    def ok(self, rule, n=1, sample=None):
        """n obligations of the rule were examined (whether or not they hold)"""
        if rule not in self.rules:
            raise AnalysisBroken("undeclared rule " + rule)
        self._obl[rule] += n
        if sample and len([s for s in self.samples if s.startswith(rule + ":")]) < 3:
            self.samples.append("%s: %s" % (rule, sample))

    def bad(self, rule, key, loc, fn, msg, detail=()):
        """an obligation that does not hold; key is stable under edits elsewhere (no line numbers)"""
        k = "%s|%s" % (rule, key)
        if (k, loc) in self._keys:
            return
        self._keys.add((k, loc))
        self.violations.append({"key": k, "rule": rule, "loc": loc, "fn": fn, "msg": msg, "detail": [str(d) for d in detail]})

    def count(self, name, n, floor=None):
        self.counts[name] = n
        if floor is not None:
            self.floors[name] = floor

    def total(self):
        return sum(self._obl.values())

    def check_floors(self):
        for n, f in self.floors.items():
            if self.counts.get(n, 0) < f:
                raise AnalysisBroken("%s: only %d instances (at least %d expected)" % (n, self.counts.get(n, 0), f))
        for r, n in self._obl.items():
            self.counts.setdefault("obligations " + r, n)
            if n == 0:
                raise AnalysisBroken("rule %s matched nothing" % r)


def load_known(path, pid):
    """lines  'known: property=<id> key=<key> :: <what fails>'"""
    d = {}
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                k, what = l.split(" key=", 1)[1].split(" :: ", 1)
                d[k] = what
    return d
