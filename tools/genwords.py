import sys, json; sys.path.insert(0, "/verif")
from vp.checks.words import *
p = prog("std_alloc"); g, w = compute(p)
for k, v in g.items(): print(k, "=>", v if isinstance(v, str) else "UNSUPPORTED " + str(v))
json.dump({k: v for k, v in g.items() if isinstance(v, str)}, open(REF, "w"), indent=0, sort_keys=True)
