import sys, json; sys.path.insert(0, "/verif")
from vp.checks.scale import *
p = prog("std_alloc")
g, w, u = scaled_fields(p)
json.dump({n: d for n, d in g.items() if d}, open(REF, "w"), indent=1, sort_keys=True)
print(u)
