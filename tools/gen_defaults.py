"""regenerates refs/defaults.json from the current tree (to be reviewed against the protocol description)"""
import sys, json; sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
from vp.checks.defaults import *
O = observed(prog("std_alloc"))
for k, v in O.items(): print(k, v[0] or v)
json.dump({k: v[0] for k, v in sorted(O.items()) if v[0]}, open(REF, "w"), indent=1)
