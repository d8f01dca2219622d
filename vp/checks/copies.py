"""C42: copies are exact and equality looks at everything."""
import itertools
from ..model_ublox import *
from ..interp import Interp, State, Unsupported
from ..terms import *
from ..bdd import Sem
from ..models import seq_eq, veq

def impls(p, tr):
    """[(type, function)] of the impls of a trait on the crate's own types"""
    out = []
    for im in p.impls:
        t = im["trait"]
        if t is None or t.split("<")[0].rsplit("::", 1)[-1] != tr: continue
        ty = p.T[im["self"]]
        if ty["k"] != "adt" or not ty.get("local") or "InternalBitFlags" in ty["s"] or "<impl " in ty["s"]: continue
        for nm, path in im["items"]:
            for f in p.by_path.get(path, ()):
                if f["argc"] and f["name"] in ("clone", "eq"): out.append((im["self"], f))
    return out

def values(I, st, ti, nm):
    """[(variant index or None, value)] covering a type, every part a symbol"""
    t = I.T[ti]
    if not t.get("variants") or (len(t["variants"]) > 1 and not any(v["f"] for v in t["variants"])): return [(None, I.sym_value(st, ti, nm))]
    out = []
    for i, v in enumerate(t["variants"]):
        out.append((i, Agg(ti, i, tuple(I.sym_value(st, x[1], "%s.%s%s" % (nm, "" if len(t["variants"]) == 1 else v["n"] + ".", x[0])) for x in v["f"]))))
    return out

def leaves(v, out):
    """the parts of a value"""
    if isinstance(v, Agg) and v.var != "vec":
        for x in v.f: leaves(x, out)
    else: out.append(v)
    return out

def fresh(p, ti, nm, i, I=None, st=None):
    I = I or Interp(p); st = st or State()
    v = dict(values(I, st, ti, nm))[i]; st.store[("S", "&" + nm)] = v
    return I, st, v

def cases(p, ti): return [i for i, _ in values(Interp(p), State(), ti, "x")]
def live(outs): return [(s, w) for s, w in outs if not s.facts.contradictory()]

def rest(I, s, v):
    """what a walker made of a slice and a position has still ahead"""
    if isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[0], Ptr) and v.f[0].sl is not None and isinstance(v.f[1], Lin):
        a, n = v.f[0].sl
        return v.f[0].al, v.f[0].path, a + v.f[1], n - v.f[1]

def clone_wrong(p, ti, f):
    """(None or what is wrong, number of cases)"""
    n = 0
    for i in cases(p, ti):
        I, st, v = fresh(p, ti, "x", i); n += 1
        outs = live(I.run(f["key"], [Ptr(("S", "&x"))], st))
        if not outs: return "copying never returns", n
        for s, w in outs:
            a, b = leaves(v, []), leaves(w, [])
            same = isinstance(w, type(v)) and (not isinstance(v, Agg) or w.var == v.var) and len(a) == len(b)
            if same and rest(I, s, v) is not None and rest(I, s, v) == rest(I, s, w): continue      # what is left to walk is what matters
            for x, y in zip(a, b) if same else ():
                if show(x) == show(y): continue
                if isinstance(x, Lin) and isinstance(y, Lin) and s.facts.entails(eq(x, y)): continue
                return "the copy of a value holding %s holds %s instead" % (show(x)[:120], show(y)[:120]), n
            if not same: return "the copy of %s is %s" % (show(v)[:160], show(w)[:160]), n
            if show(s.store[("S", "&x")]) != show(v): return "copying changes the original", n
        if I.panics:
            # parts no user can set may be related in a way that excludes it
            if not all(x[2] for w in p.T[ti]["variants"] for x in w["f"]): raise Unsupported("copying may panic: %s" % I.panics[0])
            return "copying may panic: %s" % I.panics[0], n
    return None, n

def equal(I, st, x, y):
    """the condition that two parts are equal"""
    if isinstance(x, Lin) or I.is_bool(x): return veq(I, x, y)
    if isinstance(x, tuple) and x and x[0] == "f": return fl_eq(x, y)
    if isinstance(x, Ptr):
        if x.sl is not None: return seq_eq(I, st, I.load_slice(st, x), I.load_slice(st, y))
        return equal(I, st, I.load(st, x), I.load(st, y))
    if isinstance(x, Seq): return seq_eq(I, st, x, y)
    raise Unsupported("equality of %s" % show(x))

def fl_eq(a, b):
    a, b = sorted((a, b), key=show)
    return ("ba", atom("fcmp", ("Eq", a, b), 0, 1))

def eq_wrong(p, ti, f):
    n = 0; cs = cases(p, ti)
    for i in cs:
        for j in cs:
            I, st, x = fresh(p, ti, "x", i); _, _, y = fresh(p, ti, "y", j, I, st); n += 1
            outs = live(I.run(f["key"], [Ptr(("S", "&x")), Ptr(("S", "&y"))], st))
            if I.panics: return "comparing may panic: %s" % I.panics[0], n
            what = "%s and %s" % (show(x)[:80], show(y)[:80])
            S = Sem(I)
            want = i == j
            if want and isinstance(x, Agg): want = b_and(*[equal(I, st, a, b) for a, b in zip(leaves(x, []), leaves(y, []))])
            elif want: want = eq(I.discr_of(st, x), I.discr_of(st, y))
            ok = True
            for v in (x, y):
                if isinstance(v, SymV): d = I.discr_of(st, v); ok = S.B.a(ok, S.cond(b_or(*[eq(d, Lin(k)) for k in d.m[0][0].args[1]])))
            got = False; t = S.B.a(ok, S.cond(want))
            for s, r in outs:
                c = ok
                for b in s.facts.bs: c = S.B.a(c, S.cond(b))
                if r is not True and r is not False and not I.is_bool(r): raise Unsupported("equality is %s" % show(r))
                got = S.B.o(got, S.B.a(c, S.cond(r)))
            if got is not t:
                why = "never equal" if got is False else "always equal" if got is True else "equal when " + " or ".join(show(b_and(r, *s.facts.bs)) for s, r in outs if r is not False)[:200]
                return "%s: %s; they should be equal when %s" % (what, why, "never" if want is False else show(want)[:200]), n
    return None, n

def c42(r, tier):
    r.rule = ("every clone of a type of this crate is run on a value with symbolic parts, variant by variant, and must give back exactly that value; every equality is run on each "
              "pair of variants with symbolic parts, and must hold exactly when the variants agree and every part is equal")
    for fs in ("serde",) if tier == "quick" else ("serde", "std_alloc", "core"):
        p = prog(fs)
        for tr, fn, need in (("Clone", clone_wrong, 40), ("PartialEq", eq_wrong, 10)):
            L = impls(p, tr)
            for ti, f in L:
                r.fn(f["path"]); oid = "%s of %s (%s)" % ({"Clone": "copy", "PartialEq": "equality"}[tr], p.T[ti]["s"].replace("ubx_packets::packets::", ""), fs)
                try:
                    why, n = fn(p, ti, f); r.count("cases", n)
                    r.check(why is None, oid, f["span"], why)
                except Unsupported as e: r.undecided(oid, f["span"], "%s %s" % (e, getattr(e, "at", "")))
            r.need("%s implementations in %s" % (tr, fs), len(L), need)
