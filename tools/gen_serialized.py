"""refs/serialized.json: declared fields of every received packet and record, read from the declarations in the source text."""
import json, re, sys
src = open("/repo/ublox/src/ubx_packets/packets.rs").read()
out = {}
for m in re.finditer(r"(?:pub )?struct (\w+)(?:<[^>]*>)? \{", src):
    name = m.group(1); body = src[m.end():]; d = 1; i = 0
    while d: d += {"{": 1, "}": -1}.get(body[i], 0); i += 1
    body = body[:i - 1]
    pre = src[:m.start()]; a = pre.rstrip()
    # attributes directly above
    k = max(a.rfind("}\n"), a.rfind(";\n")); attrs = a[k + 1:]
    if "ubx_packet_recv" not in attrs: continue
    body = re.sub(r"//[^\n]*", "", body)
    fs = []; j = 0; alias = None
    while j < len(body):
        s = re.match(r"\s+", body[j:])
        if s: j += s.end(); continue
        if body.startswith("#[", j):
            d = 0; e = j + 1
            while True:
                d += {"[": 1, "]": -1}.get(body[e], 0); e += 1
                if d == 0: break
            al = re.search(r"\balias\s*=\s*(\w+)", body[j:e])
            if al and body.startswith("#[ubx", j): alias = al.group(1)
            j = e; continue
        f = re.match(r"(?:pub )?(\w+)\s*:\s*", body[j:])
        if not f: raise SystemExit("%s: %r" % (name, body[j:j + 40]))
        j += f.end(); d = 0
        while j < len(body) and not (body[j] == "," and d == 0):
            d += {"[": 1, "(": 1, "<": 1, "]": -1, ")": -1, ">": -1}.get(body[j], 0); j += 1
        j += 1
        fs.append([f.group(1), alias or f.group(1)]); alias = None
    out[name + "Ref"] = fs
json.dump(out, open("/verif/refs/serialized.json", "w"), indent=0, sort_keys=True)
print(len(out), sum(map(len, out.values())))
