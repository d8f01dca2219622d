"""C37: what default builders and default setting values put on the wire."""
import json, os, re
from ..model_build import *
from ..prog import short
from .build import fixed_builders, lit_bytes
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REF = os.path.join(VERIF, "refs", "defaults.json")

def default_of(p):
    """{type name: (type index, default function)}"""
    out = {}
    for f in p.funs.values():
        if not f["local"] or f["trait"] != "std::default::Default" or f["argc"] != 0 or f["name"] != "default": continue
        t = p.T[f["locals"][0][0]]
        if t["k"] == "adt" and "InternalBitFlags" not in t["path"] and f["key"] in p._rootset(): out[short(t["path"])] = (f["locals"][0][0], f)
    return out

def raws(p):
    """{type index: raw encoder}"""
    out = {}
    for f in p.funs.values():
        if f["local"] and f["name"] in ("into_raw", "bits") and f["argc"] == 1 and f["key"] in p._rootset():
            ti = f["locals"][1][0]; t = p.T[ti]
            if t["k"] == "ref": ti = t["to"]
            if ti not in out or f["name"] == "into_raw": out[ti] = f
    return out

RANGE = {"as_i8": (-2**7, 2**7 - 1), "as_i16": (-2**15, 2**15 - 1), "as_i32": (-2**31, 2**31 - 1), "as_u8": (0, 255), "as_u16": (0, 65535), "as_u32": (0, 2**32 - 1)}

def fconst(x):
    return float(x[2]) if isinstance(x, tuple) and x[:2] == ("f", "const") else None

def scaled_constants(I):
    """scaled conversions of constants by value (saturating rounding of field times reciprocal: C18)"""
    for k in list(I.ext):
        m = re.search(r"ScaleBack::<.*>::(as_[iu]\d+)$", k)
        if not m or m.group(1) not in RANGE: continue
        def c(I, s, args, dt, ref, lo=RANGE[m.group(1)][0], hi=RANGE[m.group(1)][1], old=I.ext[k]):
            v = args[0]
            while isinstance(v, Agg): v = v.f[0]
            a, b = fconst(v), fconst(args[1])
            if a is None or b is None or a * b != a * b: return old(I, s, args, dt, ref)
            x = a * b
            return [(s, Lin(lo if x <= lo else hi if x >= hi else int(x + 0.5) if x >= 0 else -int(0.5 - x)))]
        I.ext[k] = c

def one(p, f):
    """the single value of a function without arguments"""
    I = Interp(p); checksum_contracts(I, p); scaleback_contract(I, p); scaled_constants(I)
    outs = [(s, v) for s, v in I.run(f["key"], [], State()) if not s.facts.contradictory()]
    if I.panics or len(outs) != 1: raise Unsupported("not a single value: %d outcomes, %d panics" % (len(outs), len(I.panics)))
    return I, outs[0][0], outs[0][1]

def observed(p):
    """{name: (text, span, key)}: 'payload' of default builders, raw code of default settings, variant of other defaults"""
    out = {}; D = default_of(p); B = fixed_builders(p); R = raws(p)
    for n, (ti, f) in sorted(D.items()):
        try:
            I, s, v = one(p, f)
            if n in B:
                g = B[n][1]["into_packet_bytes"][0]
                outs = [(a, b) for a, b in I.run(g["key"], [v], s) if not a.facts.contradictory()]
                if len(outs) != 1: raise Unsupported("%d outcomes" % len(outs))
                bs = lit_bytes(I, *outs[0])[6:-2]
                txt = " ".join("%02x" % (b.c & 255) if isinstance(b, Lin) and b.is_const() else "(%s)" % show(b) for b in bs)
            elif ti in R:
                a = v if p.T[R[ti]["locals"][1][0]]["k"] != "ref" else None
                if a is None: s.store[("S", "dv")] = v; a = Ptr(("S", "dv"))
                outs = [(x, y) for x, y in I.run(R[ti]["key"], [a], s) if not x.facts.contradictory()]
                if len(outs) != 1: raise Unsupported("%d outcomes" % len(outs))
                txt = "raw " + show(outs[0][1])
            elif isinstance(v, Agg) and p.T[ti].get("adt") == "enum" and not v.f: txt = "variant " + p.T[ti]["variants"][v.var]["n"]
            else: continue
            out[n] = (txt, f["span"], f["key"])
        except Unsupported as e: out[n] = (None, f["span"], "%s %s" % (e, getattr(e, "at", "")))
    return out

def c37(r, tier):
    r.rule = ("the Default implementation of every builder and setting type is evaluated on the MIR and followed through the type's own encoder; the resulting payload bytes, raw code or variant must be the documented default "
              "(refs/defaults.json): fields without a documented default are zero, change masks are empty")
    p = prog("std_alloc"); O = observed(p); R = json.load(open(REF)); n = 0
    for k, want in sorted(R.items()):
        if k not in O: r.bad("default of " + k, "", "no default any more (documented: %s)" % want); continue
        got, sp, key = O[k]
        if got is None: r.undecided("default of " + k, sp, key); continue
        n += 1; r.fn(key)
        r.check(got == want, "default of " + k, sp, "is %s, documented %s" % (got, want))
        r.sample({"type": k, "default": got})
    r.need("defaults", len(O), 25)
