import sys, json; sys.path.insert(0, "/verif")
from vp.checks.cfgval import *
p = prog("std_alloc")
ti, base = cfgval(p); T = p.T[ti]; M = {m: method(p, base, m) for m in ("len", "parse", "write_to", "extend_to")}
class R:
    def check(self, c, *a):
        if not c: print(a)
out = {}
for vi, v in enumerate(T["variants"]):
    keys = {}
    fty = v["f"][0][1]
    one_item(R(), p, ti, base, M, v["n"], vi, fty, None, None, keys)
    codes = None
    if p.T[fty]["k"] == "adt" and p.T[fty]["adt"] == "enum":
        codes = {}
        I, res, _ = encodings(p, ti, M["write_to"][0], vi, "slice")
        for s, by, n, x in res:
            for i, var in enumerate(p.T[fty]["variants"]):
                s2 = s.fork()
                d = Lin(I.sdiscr(fty, var["d"]))
                if not s2.assume(eq(I.discr_of(s, x.f[0]), d)) or s2.facts.contradictory(): continue
                codes[var["n"]] = subst(by[4], {a: d for a in by[4].atoms() if a.kind == "discr"}).c
    out[v["n"]] = [list(keys)[0], tyname(p, fty), codes]
json.dump(out, open(REF, "w"), indent=0, sort_keys=True)
