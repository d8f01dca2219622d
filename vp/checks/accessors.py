"""C08: every accessor's value as a function of the payload bytes, against the reviewed reference."""
import json, os
from ..model_ublox import *
from ..canon import canon
from ..bdd import Mean, same_meaning
from ..interp import Unsupported
from .packets import ref as packet_ref
from .subrec import valid_state
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REF = os.path.join(VERIF, "refs", "accessors.json")

def compute(p):
    """{view.method: canonical text | ('!', reason)} for every public field accessor"""
    out = {}; where = {}
    vt = view_types(p); known = packet_ref()
    for (v, m), f in sorted(accessors(p).items()):
        if f["vis"] != "pub" or is_iter_ty(p, f["locals"][0][0]): continue
        where[v + "." + m] = f
        try:
            I = Interp(p); n = v[:-3] if v.endswith("Ref") else v
            st = valid_state(I, p, vt[v], n)[0] if n in known else None     # views exist over validated payloads only (C09, C28)
            k0 = len(st.facts.bs) if st else 0
            I, outs = run_accessor(p, f, vt[v], st, I)
            if not outs: out[v + "." + m] = "diverges"; continue
            res = [(list(s.facts.bs[k0:]), I.deep(s, x)) for s, x in outs]; pre = st.facts.bs[:k0] if st else ()
            out[v + "." + m] = Mean(canon(I, res, pre), I, res, pre)
        except Unsupported as e:
            out[v + "." + m] = ("!", "%s %s" % (e, getattr(e, "at", "")))
    return out, where

def c08(r, tier):
    r.rule = ("each accessor's MIR is interpreted over a symbolic payload of symbolic length; the resulting value, as a linear/bit-field form over "
              "payload bytes, must equal the reference form reviewed against the protocol description (refs/accessors.json)")
    p = prog("std_alloc")
    ref = json.load(open(REF)); SEM = json.load(open(REF.replace(".json", "_sem.json")))
    got, where = compute(p)
    for k, want in sorted(ref.items()):
        if k not in got:
            r.bad("accessor " + k, "", "documented accessor no longer exists"); continue
        g = got[k]
        sp = where[k]["span"]; r.fn(where[k]["path"])
        if isinstance(g, tuple): r.undecided("accessor " + k, sp, g[1]); continue
        e = same_meaning(g, want, SEM.get(k))
        if e is None: r.undecided("accessor " + k, sp, "reads %s ; documented %s" % (g, want))
        else: r.check(e, "accessor " + k, sp, "reads %s ; documented %s" % (g, want))
    new = sorted(set(got) - set(ref))
    r.count("accessors", len(got)); r.count("accessors_without_reference", len(new))
    if new: r.notes.append("no reference for: " + ", ".join(new[:20]))
    r.need("field accessors", len(got), 700)
    for k in list(sorted(got))[::150]: r.sample([k, str(got[k])])
