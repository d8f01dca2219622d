"""writes refs/flags.json (reviewed against the protocol description)"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.checks.enums import *
p = prog("std_alloc"); out = {}
for n, (ti, fl) in sorted(flag_types(p).items()):
    path = p.T[ti]["path"]
    out[n] = {"bits": bits_ty(p, ti), "flags": {k: v for k, v in sorted(fl.items()) if not k.upper().startswith("RESERVED")},
              "roles": [r for r in ("from", "into_raw", "bits") if (path + "::" + r) in p.funs]}
open("refs/flags.json", "w").write(json.dumps(out, sort_keys=True).replace("}, \"", "},\n \"") + "\n")
