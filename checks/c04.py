"""growing tables, buffers and exactly sized blocks hold what is put into them"""
import re
from concurrent.futures import ProcessPoolExecutor

import blocks
import prog

RULE = "block large enough"


def job(a):
    return blocks.analyse(*a)


def run(R):
    R.explain = ("For every memory block whose size is kept in a field (12 tables and buffers of byacc, 9 of lemon), each function that changes the block, its "
                 "capacity, its count, or stores into it is interpreted over linear facts (sizes, counts, text lengths; joins by candidate inequalities, loops "
                 "with widening): the new block has the size recorded, the count stays within the capacity, and each store and copy lands inside. Blocks of "
                 "computed size that are filled in the same function are judged the same way. A helper that only holds inside its callers is judged in each of them.")
    R.rule(RULE, "sizes recorded are the sizes allocated; stores and copies end inside the block")
    R.assumes += ["the table of (block, capacity, count) triples in checks/blocks.py names every growing table", "sizes do not overflow their integer types",
                  "places listed in EXEMPT of checks/blocks.py were read and are not linear facts"]
    jobs = []
    for w, T in (("lemon", blocks.lemon_tables), ("btyacc", blocks.byacc_tables), ("yacc", blocks.byacc_tables)):
        p = prog.lemon() if w == "lemon" else prog.byacc(w == "btyacc")
        jobs += [(w, n, m) for n, m in blocks.groups(T, p)]
    jobs.sort(key=lambda j: 0 if "base" in j[1] or "pitem" in j[1] else 1)
    tot = {}
    fl = {"lemon": 70, "btyacc": 300, "yacc": 250}
    with ProcessPoolExecutor(8) as ex:
        for (w, n, m), r in zip(jobs, ex.map(job, jobs)):
            for f, (sites, viol) in sorted(r.items()):
                k = len(sites)
                tot[w] = tot.get(w, 0) + k
                R.ok(RULE, k, "%s %s: %d places of %s" % (w, n, k, f) if k else None)
                for (fn, loc, what), msg in sorted(viol.items()):
                    R.bad(RULE, "%s|%s|%s" % (w, fn, what), loc, fn, "%s: %s" % (what, re.sub(r"'[0-9a-f]+", "", msg)[:200]), ["judged from %s, block group %s" % (f, n)])
    for w in tot:
        R.count(w + " places", tot[w], fl[w])
