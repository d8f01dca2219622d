"""C10: enumerated values; C11: flag words."""
import json, os
from ..model_ublox import *
from ..interp import Interp, State, Unsupported
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REF = os.path.join(VERIF, "refs", "enums.json")
REFB = os.path.join(VERIF, "refs", "flags.json")

def short_ty(p, ti): return p.T[ti]["path"].rsplit("::", 1)[-1]

def values_of(s, a, dom):
    """members of dom the state's facts about atom a allow"""
    bs = [b for b in s.facts.bs if atoms_of(b) == {a} or (a in atoms_of(b) and len(atoms_of(b)) == 1)]
    out = []
    for c in dom:
        if all(subst(b, {a: Lin(c)}) is not False for b in bs): out.append(c)
    return out

def outcome_name(I, v):
    if isinstance(v, Agg) and isinstance(v.ty, int) and I.T[v.ty]["k"] == "adt" and I.T[v.ty]["adt"] == "enum" and isinstance(v.var, int):
        n = I.T[v.ty]["variants"][v.var]["n"]
        return n if not v.f else n + "(" + ",".join(show(x) for x in v.f) + ")"
    return show(v)

def table(p, key, dom=range(256), bits=8):
    """{input value: result text | '!panic'} of a one-argument integer function"""
    f = p.funs[key]
    I = Interp(p); st = State()
    x = sym("x", 0, (1 << bits) - 1)
    outs = I.run(key, [x], st)
    a = x.m[0][0]
    t = {}
    def put(s, r, v=None):
        for c in values_of(s, a, dom):
            rr = r
            if v is not None:
                rr = outcome_name(I, subst(v, {a: Lin(c)}))
            if c in t and t[c] != rr: t[c] = t[c] + "|" + rr
            else: t[c] = rr
    for s, v in outs:
        if I.is_bool(v):
            for c in values_of(s, a, dom):
                b = subst(v, {a: Lin(c)})
                t[c] = b
        else: put(s, None, v)
    for pn in I.panics: put(pn.st, "!panic")
    return t

def enum_types(p):
    """enums with conversion functions: {type index: {role: function}}"""
    out = {}
    for i, t in enumerate(p.T):
        if t["k"] != "adt" or not t["local"] or t["adt"] != "enum": continue
        r = {}
        for role in ("from", "from_unchecked", "is_valid", "into_raw"):
            f = p.funs.get("%s::%s" % (t["path"], role))
            if f is not None and f["argc"] == 1: r[role] = f
        if r: out[i] = r
    return out

def from_trait(p, ti):
    """impl From<int> for E"""
    t = p.T[ti]["path"]
    for k, f in p.funs.items():
        if k.startswith("<%s as std::convert::From<" % t) and f["argc"] == 1 and p.T[f["locals"][1][0]]["k"] == "int":
            yield f

def compute_enums(p):
    out = {}; where = {}
    for ti, roles in enum_types(p).items():
        n = short_ty(p, ti)
        d = {}
        dec = roles.get("from") or roles.get("from_unchecked")
        where[n] = (dec or list(roles.values())[0])["span"]
        try:
            if dec is not None and p.int_bits(dec) == 8: d["decode"] = table(p, dec["key"])
            if "is_valid" in roles:
                t = table(p, roles["is_valid"]["key"]); d["valid"] = sorted(c for c in t if t[c] is True)
                if any(v not in (True, False) for v in t.values()): d["valid"] = "?"
            if "into_raw" in roles:
                enc = {}
                for vi, var in enumerate(p.T[ti]["variants"]):
                    if var["f"]: continue
                    I = Interp(p); st = State()
                    o = I.run(roles["into_raw"]["key"], [Agg(ti, vi, ())], st)
                    enc[var["n"]] = o[0][1].c if len(o) == 1 and isinstance(o[0][1], Lin) and o[0][1].is_const() else show(o[0][1]) if o else "!panic"
                d["encode"] = enc
            d["discr"] = {v["n"]: int(v["d"]) for v in p.T[ti]["variants"] if not v["f"] and v["d"] is not None}
        except Unsupported as e:
            d["!"] = "%s %s" % (e, getattr(e, "at", ""))
        out[n] = d
    return out, where

def c10(r, tier):
    r.rule = ("decode, validity and encode functions of every enumerated type are tabulated from their path summaries; accepted set = handled set = documented set, "
              "each code maps to its documented variant and back; every accessor of such a type decodes one validated byte")
    p = prog("std_alloc")
    R = json.load(open(REF))
    got, where = compute_enums(p)
    for n, ref in sorted(R.items()):
        if n not in got: r.bad("enumeration " + n, "", "documented enumeration no longer has its conversions"); continue
        g = got[n]; sp = where[n]
        if "!" in g: r.undecided("enumeration " + n, sp, g["!"]); continue
        codes = {int(c): v for c, v in ref["codes"].items()}
        total = ref["rest"] == "reserved"
        if "decode" in g or ref.get("decode"):
            d = g.get("decode", {})
            for c, v in sorted(codes.items()):
                r.check(d.get(c) == v, "%s code %d decodes to %s" % (n, c, v), sp, "decodes to %s" % d.get(c))
            other = [c for c in range(256) if c not in codes]
            if total:
                names = {}
                for c in other: names.setdefault(d.get(c), []).append(c)
                badc = [c for c in other if d.get(c) in (None, "!panic") or d.get(c) in codes.values() or (len(names[d.get(c)]) > 1)]
                r.check(not badc, "%s keeps undocumented codes" % n, sp, "codes %s" % [(c, d.get(c)) for c in badc[:6]])
            else:
                handled = sorted(c for c in d if d[c] != "!panic")
                r.check(handled == sorted(codes), "%s handles exactly its codes" % n, sp, "handles %s, documented %s" % (handled[:20], sorted(codes)))
        if "valid" in ref:
            r.check(g.get("valid") == sorted(codes), "%s accepts exactly its codes" % n, sp, "accepts %s, documented %s" % (g.get("valid"), sorted(codes)))
        if ref.get("encode"):
            e = g.get("encode", {})
            for c, v in sorted(codes.items()):
                r.check(e.get(v) == c, "%s::%s encodes to %d" % (n, v, c), sp, "encodes to %s" % e.get(v))
            if total:
                d = g.get("decode", {})
                badc = [c for c in range(256) if e.get(d.get(c)) != c]
                r.check(not badc, "%s encode inverts decode" % n, sp, badc[:8])
            else:
                extra = [v for v in e if v not in codes.values()]
                r.check(not extra, "%s has no variant without a code" % n, sp, extra[:5])
        if ref.get("discr") and "decode" in g:
            # types encoded by a cast: discriminant is the code
            badc = [(c, v) for c, v in g["decode"].items() if v != "!panic" and g["discr"].get(v) != c]
            r.check(not badc, "%s discriminants are the codes" % n, sp, badc[:5])
    new = sorted(set(got) - set(R))
    if new: r.notes.append("enumerations without reference: " + ", ".join(new))
    # accessors of partial enumerations read one byte that validation restricts to the handled codes
    partial = {n for n, ref in R.items() if ref["rest"] == "error"}
    from .packets import ref as pref
    PR = pref(); vt = view_types(p)
    for (v, m), f in sorted(accessors(p).items()):
        rt = p.T[f["locals"][0][0]]
        if rt["k"] != "adt" or rt["path"].rsplit("::", 1)[-1] not in partial: continue
        n = rt["path"].rsplit("::", 1)[-1]; oid = "%s.%s decodes a validated %s" % (v, m, n)
        try: I, outs = run_accessor(p, f, vt[v])
        except Unsupported as e: r.undecided(oid, f["span"], str(e)); continue
        codes = {int(c): x for c, x in R[n]["codes"].items()}
        els = {a for s, _ in outs for b in s.facts.bs for a in atoms_of(b) if a.kind == "el"}
        req = {x[1]: sorted(x[2]) for x in PR.get(v[:-3], {}).get("req", []) if x[0] == "in"}
        if len(els) != 1:
            if len(codes) == 1 and not els: r.undecided(oid, f["span"], "reads no byte"); continue
            r.undecided(oid, f["span"], "not a single byte: %s" % [repr(a) for a in els]); continue
        a = next(iter(els)); off = a.args[1].c
        t = {}
        for s, val in outs:
            for c in values_of(s, a, range(256)): t[c] = outcome_name(I, val)
        r.fn(f["path"])
        r.check(all(t.get(c) == x for c, x in codes.items()) and req.get(off) == sorted(codes), oid, f["span"],
                "byte %d maps %s, validation allows %s, documented %s" % (off, dict(list(t.items())[:6]), req.get(off), codes))
    r.need("enumerations", len([n for n in R if n in got]), 15)

# ---------------------------------------------------------------- C11
def flag_types(p):
    """{short name: (type index, {flag: value})}"""
    out = {}
    for im in p.impls:
        if not (im.get("trait") or "").endswith("bitflags::Flags"): continue
        t = p.T[im["self"]]
        n = t["path"].rsplit("::", 1)[-1]
        if n == "InternalBitFlags": continue
        fl = {}
        for k, v in p.consts.items():
            if k.startswith(t["path"] + "::") and k.count("::") == t["path"].count("::") + 1:
                x = v["v"]
                while "adt" in x and x["adt"][1]: x = x["adt"][1][0]
                if "int" in x: fl[k.rsplit("::", 1)[1]] = x["int"]
        out[n] = (im["self"], fl)
    return out

def wrap_bits(I, ti, x):
    """a flag word value holding the integer x"""
    t = I.T[ti]
    if t["k"] == "int": return x
    return Agg(ti, 0, (wrap_bits(I, t["variants"][0]["f"][0][1], x),))
def unwrap_bits(v):
    while isinstance(v, Agg): v = v.f[0]
    return v
def bits_ty(p, ti):
    while p.T[ti]["k"] == "adt": ti = p.T[ti]["variants"][0]["f"][0][1]
    return p.T[ti]["bits"]

def c11(r, tier):
    r.rule = ("for every flag word type: the decode function's summary keeps the whole raw word for every input, the encode function and bits() return it unchanged, "
              "and each named constant is the documented bit")
    p = prog("std_alloc")
    R = json.load(open(REFB)); F = flag_types(p)
    for n, ref in sorted(R.items()):
        if n not in F: r.bad("flag type " + n, "", "documented flag word no longer exists"); continue
        ti, fl = F[n]; w = bits_ty(p, ti)
        path = p.T[ti]["path"]
        r.check(w == ref["bits"], "width of " + n, "", w)
        for k, v in sorted(ref["flags"].items()):
            r.check(fl.get(k) == v, "%s::%s" % (n, k), "", "is %s, documented %#x" % (fl.get(k), v))
        x = sym("raw%d" % w, 0, (1 << w) - 1)
        for role in ref["roles"]:
            f = p.funs.get("%s::%s" % (path, role))
            oid = "%s::%s" % (n, role)
            if f is None: r.bad(oid, "", "no such conversion"); continue
            r.fn(f["path"])
            arg = x if role in ("from", "from_unchecked") else wrap_bits(Interp(p), ti, x)
            st = State()
            if p.T[f["locals"][1][0]]["k"] == "ref":
                st.store[("S", "w")] = arg; arg = Ptr(("S", "w"))
            I = Interp(p)
            try: outs = I.run(f["key"], [arg], st)
            except Unsupported as e: r.undecided(oid, f["span"], "%s %s" % (e, getattr(e, "at", ""))); continue
            good = bool(outs) and not I.panics
            res = []
            for s, v in outs:
                l = unwrap_bits(v); res.append(show(l))
                if l != x and not (isinstance(l, Lin) and s.facts.entails(eq(l, x))): good = False
            # a split result may keep bits only case by case: compare bit by bit
            r.check(good, oid, f["span"], "gives %s for raw word x" % "; ".join(res)[:300])
    new = sorted(set(F) - set(R))
    if new: r.notes.append("flag types without reference: " + ", ".join(new))
    r.need("flag types", len([n for n in R if n in F]), 20)
