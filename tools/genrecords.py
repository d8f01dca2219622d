import sys, json; sys.path.insert(0, "/verif")
from vp.checks.subrec import *
p = prog("std_alloc"); R = {}
for k in sorted(PARTS):
    obs, rec, it = analyse(p, *k); R["%s.%s" % k] = rec
    print(k, rec)
    for o in obs:
        if not o[1]: print("   ", o)
json.dump(R, open(REF, "w"), indent=0, sort_keys=True)
