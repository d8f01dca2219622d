#!/usr/bin/env python3
"""refs/{words,accessors,builders}_sem.json: the documented texts' meaning as decision diagrams; computed from a tree whose texts equal the reviewed ones"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.checks import words, accessors
from vp.model_ublox import prog
from vp.interp import Unsupported
for m in (words, accessors):
    R = json.load(open(m.REF)); got, _ = m.compute(prog("std_alloc")); out = {}; no = []
    for k in sorted(R):
        if got.get(k) != R[k]: continue
        try: out[k] = got[k].sem()
        except (Unsupported, AttributeError) as e: no.append((k, str(e)[:80]))
    json.dump(out, open(m.REF.replace(".json", "_sem.json"), "w"), indent=0, sort_keys=True)
    print(m.REF, len(out), "without:", len(no), no[:12])
from vp.checks import build
R = json.load(open(build.REF)); out = {}; p = prog("std_alloc")
for n, (ti, d) in sorted(build.fixed_builders(p).items()):
    I, res = build.array_form(p, ti, d["into_packet_bytes"][0])
    for i, (g, w) in enumerate(zip(build.per_byte(I, [(bs, b[6:-2]) for bs, b in res]), R[n]["payload"])):
        if g == w: out["%s %d" % (n, i)] = g.sem()
        else: print("differs", n, i)
json.dump(out, open(build.REF.replace(".json", "_sem.json"), "w"), indent=0, sort_keys=True)
print(build.REF, len(out))
