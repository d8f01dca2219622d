"""writes refs/builders.json (reviewed against the packet declarations and the protocol description)"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.checks.build import *
p = prog("std_alloc"); out = {}
for n, (ti, d) in sorted(fixed_builders(p).items()):
    I, res = array_form(p, ti, d["into_packet_bytes"][0])
    b = per_byte(res)
    out[n] = {"class": int(b[2]), "id": int(b[3]), "len": int(b[4]) + 256 * int(b[5]), "payload": b[6:-2]}
open("refs/builders.json", "w").write(json.dumps(out, sort_keys=True).replace("]}, \"", "]},\n \"") + "\n")
