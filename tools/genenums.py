"""writes refs/enums.json (reviewed against the protocol description)"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.checks.enums import *
p = prog("std_alloc"); g, w = compute_enums(p); out = {}
for n, d in sorted(g.items()):
    codes = {c: v for c, v in d.get("decode", {}).items() if v != "!panic" and not v.startswith("Reserved")} or {c: v for v, c in d.get("encode", {}).items() if not v.startswith("Reserved")}
    e = {"codes": dict(sorted(codes.items())), "rest": "reserved" if len(d.get("discr", {})) == 256 else "error"}
    if "valid" in d: e["valid"] = True
    if "decode" in d: e["decode"] = True
    if "encode" in d: e["encode"] = True
    if "decode" in d: e["discr"] = True
    out[n] = e
open("refs/enums.json", "w").write(json.dumps(out, sort_keys=True).replace("}, \"", "},\n \"") + "\n")
