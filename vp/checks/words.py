"""C21: packed words: which bits each decoded component comes from, which values are handled, where encoding puts them."""
import json, os
from ..model_build import *
from ..canon import canon
from ..bdd import Mean, same_meaning
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REF = os.path.join(VERIF, "refs", "words.json")
FLAGNAMES = {"bits", "bits_mut", "is_empty", "is_all", "complement", "iter", "iter_names", "into_raw", "clone", "fmt", "not", "empty", "all"}

def word(I, st, bits):
    """a symbolic word, little-endian over named bytes, so that results have one canonical form"""
    x = ZERO
    for i in range(bits // 8): x = x + of_atom(atom("el", ("W", Lin(i)), 0, 255)) * (1 << (8 * i))
    return x

def leaf_value(I, ti, x):
    """a value of a struct that wraps exactly one integer, holding x; None when it is not of that shape"""
    t = I.T[ti]
    if t["k"] == "int": return x
    if t["k"] != "adt" or t["adt"] != "struct" or not t["local"]: return None
    fs = t["variants"][0]["f"]
    if len(fs) != 1 or fs[0][1] is None: return None
    v = leaf_value(I, fs[0][1], x)
    return None if v is None else Agg(ti, 0, (v,))
def leaf_bits(p, ti):
    t = p.T[ti]
    if t["k"] == "int": return t["bits"], t["signed"]
    if t["k"] != "adt" or t["adt"] != "struct" or not t["local"] or len(t["variants"][0]["f"]) != 1 or t["variants"][0]["f"][0][1] is None: return None
    return leaf_bits(p, t["variants"][0]["f"][0][1])

def short(p, ti): return p.T[ti]["path"].rsplit("::", 1)[-1]
def is_flags(p, ti):
    t = p.T[ti]; fs = t["variants"][0]["f"] if t["adt"] == "struct" else []
    return len(fs) == 1 and fs[0][1] is not None and p.T[fs[0][1]].get("path", "").endswith("InternalBitFlags")

def decoders(p):
    """{type name: (type, function)} functions from an unsigned integer to a local type"""
    out = {}
    for k, f in sorted(p.funs.items()):
        if f["argc"] != 1 or f["path"].rsplit("::", 1)[-1] != "from": continue
        a = p.T[f["locals"][1][0]]; r = f["locals"][0][0]; t = p.T[r]
        if a["k"] != "int" or t["k"] != "adt" or not t["local"] or "InternalBitFlags" in t["path"] or is_flags(p, r): continue
        out[short(p, r)] = (r, f)
    return out

def own_methods(p):
    """[(type, name, function, by_ref)] one-argument inherent methods of the local value types"""
    out = []
    seen = set()
    for k, f in sorted(p.funs.items()):
        if f["argc"] != 1: continue
        ti = f["locals"][1][0]; byref = False
        if p.T[ti]["k"] == "ref": ti = p.T[ti]["to"]; byref = True
        t = p.T[ti]
        if t["k"] != "adt" or not t["local"] or "InternalBitFlags" in t["path"] or t["path"].endswith(("Ref", "Owned", "Builder", "Iter")): continue
        if t["path"].startswith(("ubx_packets::packets::_", "ubx_packets::cfg_val")) or "cfg_val::" in t["path"]: continue
        if not f["path"].startswith(t["path"] + "::"): continue
        nm = f["path"].rsplit("::", 1)[-1]
        if (ti, nm) in seen: continue
        seen.add((ti, nm)); out.append((ti, nm, f, byref))
    return out

def outcomes(I, outs):
    r = [(list(s.facts.bs), I.deep(s, v)) for s, v in outs if not s.facts.contradictory()]
    return r + [(list(q.st.facts.bs), "!panic") for q in I.panics if not q.st.facts.contradictory()]

def compute(p):
    """{obligation: canonical text | ('!', reason)}, {obligation: span}"""
    out = {}; where = {}
    D = decoders(p)
    def put(k, f, fn):
        where[k] = f["span"]
        try: out[k] = fn()
        except Unsupported as e: out[k] = ("!", "%s %s" % (e, getattr(e, "at", "")))
    def decoded(f, ti):
        I = Interp(p); st = State()
        x = word(I, st, p.int_bits(f))
        return I, x, I.run(f["key"], [x], st)
    for n, (ti, f) in D.items():
        if p.T[ti]["adt"] == "enum" and p.int_bits(f) == 8: continue         # C10
        put("decode " + n, f, lambda: (lambda I, x, o: Mean(canon(I, outcomes(I, o)), I, outcomes(I, o)))(*decoded(f, ti)))
    for ti, nm, f, byref in own_methods(p):
        n = short(p, ti)
        if is_flags(p, ti) and nm in FLAGNAMES: continue
        def go():
            I = Interp(p)
            b = leaf_bits(p, ti)
            if b is not None and not b[1]: starts = [(State(), leaf_value(I, ti, word(I, None, b[0])))]
            elif n in D and (p.T[ti]["adt"] != "enum"):
                I0, x, o = decoded(D[n][1], ti); starts = [(s, v) for s, v in o if not s.facts.contradictory()]
            else: return None
            res = []
            for s, v in starts:
                s = s.fork(); I = Interp(p)
                if byref: s.store[("S", "w")] = v; v = Ptr(("S", "w"))
                res += outcomes(I, I.run(f["key"], [v], s))
            return Mean(canon(I, res), I, res)
        k = "%s.%s" % (n, nm)
        put(k, f, go)
        if out[k] is None: del out[k], where[k]
    # encoders over symbolic parts, and the constructors that take parts
    for k, f in sorted(p.funs.items()):
        ti = f["locals"][0][0]; t = p.T[ti]; nm = f["path"].rsplit("::", 1)[-1]
        if nm == "new" and t["k"] == "adt" and t["local"] and f["path"] == t["path"] + "::new" and short(p, ti) in D and f["argc"] >= 1:
            raw = p.funs.get(t["path"] + "::into_raw")
            if raw is None: continue
            def go():
                I = Interp(p); st = State()
                args = [I.sym_value(st, f["locals"][i + 1][0], "arg%d" % i) for i in range(f["argc"])]
                res = []
                for s, v in I.run(f["key"], args, st):
                    J = Interp(p)
                    res += outcomes(J, J.run(raw["key"], [v], s))
                res += outcomes(I, [])
                return Mean(by_case(res), I, res)
            put("encode new %s" % short(p, ti), f, go)
    return out, where

def by_case(res):
    """path results over enum-valued arguments, one row per combination of cases"""
    import itertools
    ds = {}
    for bs, v in res:
        for a in atoms_of(tuple(bs) + ((v,) if not isinstance(v, str) else ())):
            if a.kind == "discr" and a.hi is not None: ds[a] = a.args[1] if len(a.args) > 1 else range(a.lo, a.hi + 1)
    keys = sorted(ds, key=repr)
    rows = []
    for combo in itertools.product(*(ds[k] for k in keys)):
        m = {k: Lin(c) for k, c in zip(keys, combo)}
        hit = set()
        for bs, v in res:
            c = [subst(b, m) for b in bs]
            if any(x is False for x in c): continue
            rest = [show(x) for x in c if x is not True]
            hit.add(" & ".join(sorted(rest) + [v if isinstance(v, str) else show(bitnorm(subst(v, m)))]))
        rows.append("%s:%s" % (",".join(map(str, combo)), " | ".join(sorted(hit)) or "diverges"))
    return "[%s] %s" % (",".join(map(repr, keys)), "; ".join(rows))

def bitnorm(v):
    if isinstance(v, Lin):
        b = to_bits(v, 64)
        if b is not None: return from_bits(b)
    return v

def c21(r, tier):
    r.rule = ("each word's decoder, component methods and encoder are summarised over a word whose bytes are symbolic; every component's value as a function of the word's bits "
              "(or of the constructor's arguments for encoders) must equal the documented one (refs/words.json), with no bit pattern left unhandled; decoding followed by encoding "
              "must keep every documented bit in place")
    p = prog("std_alloc")
    R = json.load(open(REF)); SEM = json.load(open(REF.replace(".json", "_sem.json"))); got, where = compute(p)
    for k, want in sorted(R.items()):
        if k not in got: r.bad(k, "", "documented word conversion no longer exists"); continue
        g = got[k]; sp = where[k]
        if isinstance(g, tuple): r.undecided(k, sp, g[1]); continue
        m = same_meaning(g, want, SEM.get(k))
        if m is None: r.undecided(k, sp, "is %s ; documented %s" % (g, want))
        else: r.check(m, k, sp, "is %s ; documented %s" % (g, want))
        r.check("!panic" not in g, k + " handles every value", sp, "panics for part of the range: " + g)
    new = sorted(set(got) - set(R))
    if new: r.notes.append("no reference for: " + ", ".join(new))
    r.count("conversions", len(got))
    r.need("word conversions", len(got), 45)
