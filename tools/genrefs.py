"""Regenerates the reference tables from the current tree (for review by a human; never run by a check)."""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vp.model_ublox import prog
from vp.checks import accessors
what = sys.argv[1:]
if not what or "accessors" in what:
    got, _ = accessors.compute(prog("std_alloc"))
    bad = {k: v for k, v in got.items() if isinstance(v, tuple)}
    print("undecided:", bad)
    json.dump({k: v for k, v in got.items() if not isinstance(v, tuple)}, open(accessors.REF, "w"), indent=0, sort_keys=True)
