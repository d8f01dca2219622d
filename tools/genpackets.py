"""writes refs/packets.json: identity, length and content conditions of every receivable packet (reviewed by hand against the protocol description)"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.model_ublox import *
p = prog("std_alloc")
S = "ubx_packets::UbxPacketMeta"
out = {}
special = {
 "CfgNav5": [["in", 2, [0,2,3,4,5,6,7,8,9,10]], ["in", 3, [1,2,3]], ["in", 30, [0,3,6,7]]],
 "CfgOdo": [["in", 5, [0,1,2,3,4]]], "CfgPrtI2c": [["in", 0, [0]]], "CfgPrtSpi": [["in", 0, [4]]], "CfgPrtUart": [["in", 0, [1,2,3]]],
 "CfgTmode2": [["in", 0, [0,1,2]]], "CfgTp5": [["in", 0, [0,1]]],
 "EsfMeas": [["len>=", 8], ["lenx", 8, [[4, 5, 3, 8], [4, 4, 3, 4]]], ["recs", 0, 4]],
 "EsfRaw": [["len>=", 4], ["recs", 4, 8]],
 "NavSat": [["len>=", 8], ["recs", 8, 12]], "RxmRawx": [["len>=", 16], ["recs", 16, 32]], "RxmSfrbx": [["len>=", 8], ["recs", 8, 4]],
 "MonVer": [["len>=", 40], ["cstr", 0, 30], ["cstr", 30, 10], ["recs", 40, 30], ["cstrs", 40, 30]],
 "InfDebug": [], "InfError": [], "InfNotice": [], "InfTest": [], "InfWarning": [],
}
maxd = {"MonVer": 1240, "EsfMeas": 1240, "EsfRaw": 1240, "NavSat": 1240, "RxmRawx": 8176, "RxmSfrbx": 72}
for im in p.impls:
    if im.get("trait") != S: continue
    n = p.tname(im["self"]).rsplit("::", 1)[1]
    c = {k: p.consts[pth]["v"] for k, pth in im["items"]}
    if not any(k.endswith("::%sRef::<'_>::validate" % n) for k in p.funs): continue
    fx = c["FIXED_PAYLOAD_LEN"]["adt"]
    fixed = fx[1][0]["int"] if fx[0] == 1 else None
    req = []
    if fixed is not None and n not in ("NavSat",): req.append(["len=", fixed])
    req += special.get(n, [])
    out[n] = {"class": c["CLASS"]["int"], "id": c["ID"]["int"], "fixed": fixed, "max": maxd.get(n, fixed if fixed is not None else 1240), "req": req}
json.dump(out, open("refs/packets.json", "w"), indent=None, sort_keys=True)
s = open("refs/packets.json").read().replace("}, ", "},\n "); open("refs/packets.json", "w").write(s + "\n")
print(len(out))
