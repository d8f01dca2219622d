"""Builders and the checksum contract."""
from .model_ublox import *
from .interp import Interp, State, Unsupported
from .checks import checksum as _ck

def flat(I, s, seq):
    """short stretches of other arrays as individual bytes, so that equal contents have one form"""
    out = []
    for g in seq.segs:
        if g[0] == "sub" and g[3].is_const() and 0 <= g[3].c <= 128: g = ("lit", tuple(I.elem(s, g[1], g[2] + i) for i in range(g[3].c)))
        if g[0] == "lit" and out and out[-1][0] == "lit": out[-1] = ("lit", out[-1][1] + tuple(g[1]))
        else: out.append(g)
    return Seq(tuple(out))

def ck_pair(seq):
    if seq.length() == ZERO: return ZERO, ZERO
    return (of_atom(atom("opq", ("ckA", seq), 0, 255)), of_atom(atom("opq", ("ckB", seq), 0, 255)))
def fed_of(a, b):
    """the sequence a running checksum pair stands for, or None"""
    if a == ZERO and b == ZERO: return Seq(())
    for x, nm in ((a, "ckA"), (b, "ckB")):
        if not (isinstance(x, Lin) and x.c == 0 and len(x.m) == 1 and x.m[0][1] == 1 and x.m[0][0].kind == "opq" and x.m[0][0].args[0] == nm): return None
    sa, sb = a.m[0][0].args[1], b.m[0][0].args[1]
    return sa if sa == sb else None

def checksum_contracts(I, p):
    """replace the checksum routines (decided by C30) by their contract"""
    whole, accs = _ck.find(p)
    def whole_c(I, s, args, dt, ref):
        a, b = ck_pair(flat(I, s, I.load_slice(s, args[0])))
        return [(s, Agg("tuple", 0, (a, b)))]
    def upd_c(I, s, args, dt, ref):
        v = I.load(s, args[0])
        if not isinstance(v, Agg): return NotImplemented
        fed = fed_of(*v.f)
        if fed is None: return NotImplemented
        I.store(s, args[0], Agg(v.ty, v.var, ck_pair(flat(I, s, fed + I.load_slice(s, args[1])))))
        return [(s, UNIT)]
    for f in whole:
        if "checksum" in f["path"].lower(): I.ext[f["key"]] = whole_c
    for ti, d in accs.items():
        if "result" in d:
            for f in d["update"]: I.ext[f["key"]] = upd_c

def builders(p):
    """{name: (type index, {method: function})}"""
    out = {}
    for i, t in enumerate(p.T):
        if t["k"] != "adt" or not t["local"] or t["adt"] != "struct" or not t["path"].endswith("Builder"): continue
        if p.raw_generic(t): pass
        base = t["path"].rsplit("::", 1)[-1]
        d = {}
        for k, f in p.funs.items():
            if f["argc"] < 1 or f["locals"][1][0] != i: continue
            nm = f["path"].rsplit("::", 1)[-1]
            d.setdefault(nm, []).append(f)
        if d: out.setdefault(base, []).append((i, d))
    return out

def builder_value(I, st, ti, prefix=""):
    t = I.T[ti]
    return Agg(ti, 0, tuple(I.sym_value(st, x[1], prefix + x[0]) for x in t["variants"][0]["f"]))

def scaleback_contract(I, p):
    """saturating float-to-integer conversions (decided by C18) as uninterpreted integers of the right range"""
    import re
    for k, f in p.funs.items():
        m = re.search(r"ScaleBack::<.*>::as_([iu])(8|16|32|64)$", k)
        if m and f["argc"] == 2:
            lo, hi = rng_of(int(m.group(2)), m.group(1) == "i")
            nm = "as_" + m.group(1) + m.group(2)
            def c(I, s, args, dt, ref, nm=nm, lo=lo, hi=hi):
                v = args[0]
                while isinstance(v, Agg): v = v.f[0]
                return [(s, of_atom(atom("opq", (nm, v, args[1]), lo, hi)))]
            I.ext[k] = c
