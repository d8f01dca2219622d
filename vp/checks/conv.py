"""C22/C23: convenience conversions as functions of payload fields."""
import re
from fractions import Fraction as Q
from ..model_build import *
from ..canon import canon
from ..models import some, none

# ------------------------------------------------------------------ real-valued linear forms
class NotLinear(Exception): pass
class Pole(NotLinear): pass
def scal(c, d): return {k: v * c for k, v in d.items()}
def realform(v):
    """a float expression as {leaf text: coefficient} over the reals ('' is the constant term)"""
    if isinstance(v, Lin): return {"": Q(v.c)} if v.is_const() else {show(v): Q(1)}
    if not (isinstance(v, tuple) and v and v[0] == "f"): raise NotLinear(show(v))
    op = v[1]
    if op == "const":
        x = float(v[2])
        if x != x or abs(x) == float("inf"): raise NotLinear(show(v))
        return {"": Q(x)}
    if op == "i2f":
        if v[2] < 64: raise NotLinear("a 32-bit float intermediate: " + show(v))
        return realform(v[3])
    if op in ("f64to32",): raise NotLinear("a 32-bit float intermediate: " + show(v))
    if op == "f32to64": return realform(v[2]) if v[2][:2] == ("f", "f64to32") else {show(v[2]): Q(1)}
    if op == "neg": return scal(Q(-1), realform(v[2]))
    if op in ("add", "sub"):
        a, b = realform(v[2]), realform(v[3]); out = dict(a)
        for k, x in b.items(): out[k] = out.get(k, Q(0)) + (x if op == "add" else -x)
        return out
    if op in ("mul", "div"):
        a, b = realform(v[2]), realform(v[3])
        if set(b) <= {""} and (op == "mul" or b.get("", 0) != 0):
            c = b.get("", Q(0)); return scal(c if op == "mul" else 1 / c, a)
        if op == "mul" and set(a) <= {""}: return scal(a.get("", Q(0)), b)
        if op == "div" and any(k and x for k, x in b.items()):
            # a quotient by a payload quantity is constant only for a multiple of it
            k0 = next(k for k, x in b.items() if k and x); q = a.get(k0, Q(0)) / b[k0]
            if all(a.get(k, Q(0)) == q * b.get(k, Q(0)) for k in set(a) | set(b)): return {"": q}
            raise Pole("a division by %s" % text(b))
        raise NotLinear(show(v))
    return {show(v): Q(1)}
def same_form(got, want):
    g = {k: x for k, x in got.items() if x != 0}
    if set(g) != set(want): return False
    return all(abs(g[k] - w) <= abs(w) * Q(1, 10**9) for k, w in want.items())
def text(d): return " + ".join("%.12g*%s" % (float(x), k) if k else "%.12g" % float(x) for k, x in sorted(d.items())) or "0"

# documented: component -> {payload field: unit}
S = lambda o, n=4: ("i" if n > 0 else "u") + "%dle(P[%d])" % (abs(n) * 8, o)
DOC = {
    ("Position", "NavPosLlhRef"): {"lon": {S(4): "1e-7"}, "lat": {S(8): "1e-7"}, "alt": {S(16): "1e-3"}},
    ("Position", "NavHpPosLlhRef"): {"lon": {S(8): "1e-7", S(24, 1): "1e-9"}, "lat": {S(12): "1e-7", S(25, 1): "1e-9"}, "alt": {S(20): "1e-3", S(27, 1): "1e-4"}},
    ("PositionECEF", "NavHpPosEcefRef"): {"x": {S(8): "1e-2", S(20, 1): "1e-4"}, "y": {S(12): "1e-2", S(21, 1): "1e-4"}, "z": {S(16): "1e-2", S(22, 1): "1e-4"}},
    ("Velocity", "NavVelNedRef"): {"speed": {S(20, -4): "1e-2"}, "heading": {S(24): "1e-5"}},
    ("Position", "NavPvtRef"): {"lon": {S(24): "1e-7"}, "lat": {S(28): "1e-7"}, "alt": {S(36): "1e-3"}},
    ("Velocity", "NavPvtRef"): {"speed": {S(60, -4): "1e-3"}, "heading": {S(64): "1e-5"}},
}

def from_impls(p):
    out = {}
    for k, f in p.funs.items():
        if f["argc"] != 1 or f["path"].rsplit("::", 1)[-1] not in ("from", "try_from", "into"): continue
        a = p.T[f["locals"][1][0]]; r = p.T[f["locals"][0][0]]
        if a["k"] == "ref": a = p.T[a["to"]]
        if a["k"] != "adt" or not a["local"]: continue
        out[(r["s"], a["path"].rsplit("::", 1)[-1])] = f
    return out

def named_fields(p, v):
    t = p.T[v.ty]; return {x[0]: y for x, y in zip(t["variants"][v.var]["f"], v.f)}

def c22(r, tier):
    r.rule = ("each conversion is interpreted over a symbolic payload; every component is reduced to a real-valued linear form over payload fields and must have exactly the documented fields "
              "and units; the reverse conversions into AID-INI are compared field by field, flags bit by bit, over a symbolic position and a symbolic date-time")
    p = prog("std_alloc"); F = from_impls(p); vt = view_types(p); n = 0
    for (tgt, src), want in sorted(DOC.items()):
        base = "%s from %s" % (tgt, src)
        f = next((f for (t, a), f in F.items() if t.rsplit("::", 1)[-1] == tgt and a == src), None)
        if f is None: r.bad(base, "", "documented conversion no longer exists"); continue
        r.fn(f["key"]); sp = f["span"]
        try:
            I, outs = run_view(p, f, vt, src, Interp(p))
            outs = [(s, I.deep(s, v)) for s, v in outs if not s.facts.contradictory()]
            pan = [q for q in I.panics if not q.st.facts.contradictory()]
            if not outs: r.bad(base, sp, "never returns"); continue
            r.check(not pan, base + " returns for every value", sp, "; ".join(map(repr, pan[:3])))
            for c, w in sorted(want.items()):
                n += 1; bad = und = None
                for s, v in outs:
                    fs = named_fields(p, v)
                    if c not in fs: bad = "component missing"; break
                    try: g = realform(fs[c])
                    except NotLinear as e:
                        if "32-bit float" in str(e) or isinstance(e, Pole): bad = "computed through %s" % e
                        else: und = str(e)
                        continue
                    wq = {k: Q(x) for k, x in w.items()}
                    if not same_form(g, wq):
                        if all(k == "" or re.match(r"^[iu]\d+le\(P\[\d+\]\)$|^P\[\d+\]$", k) for k in g): bad = "is %s ; documented %s" % (text(g), text(wq))
                        else: und = "is " + text(g)
                if bad: r.bad("%s: %s" % (base, c), sp, bad)
                elif und: r.undecided("%s: %s" % (base, c), sp, und)
                else: r.ok("%s: %s" % (base, c), sp, text({k: Q(x) for k, x in w.items()}))
        except Unsupported as e: r.undecided(base, sp, "%s %s" % (e, getattr(e, "at", "")))
    aid_ini(r, p)
    r.count("components", n); r.need("conversion components", n, 15)

LEN = {"NavPosLlhRef": 28, "NavHpPosLlhRef": 36, "NavHpPosEcefRef": 28, "NavVelNedRef": 36, "NavPvtRef": 92}
def run_view(p, f, vt, src, I):
    """over a validated payload: the length is the packet's (C09 decides that validation ensures it)"""
    st = State(); payload_view(I, st, vt[src])
    st.assume(eq(sym("len(P)", 0, (1 << 63) - 1), Lin(LEN[src])))
    return run_accessor(p, f, vt[src], st=st, I=I)

def aid_ini(r, p):
    B = {n: v for n, v in builders(p).items()}
    if "AidIniBuilder" not in B: r.bad("AidIniBuilder", "", "builder no longer exists"); return
    ti, d = B["AidIniBuilder"][0]
    for m in ("set_position", "set_time"):
        if m not in d: r.bad("AidIniBuilder." + m, "", "documented method no longer exists"); return
    def start(I, st): return builder_value(I, st, ti)
    def names(v): return named_fields(p, v)
    # position
    f = d["set_position"][0]; r.fn(f["key"]); base = "AidIniBuilder.set_position"; sp = f["span"]
    try:
        I = Interp(p); st = State(); b = start(I, st); old = names(b)
        pt = p.T[f["locals"][2][0]]
        pos = I.sym_value(st, f["locals"][2][0], "pos")
        if isinstance(pos, Ptr): pos = I.load(st, pos)
        pv = Agg(f["locals"][2][0], 0, tuple(I.get_step(st, pos, ("f", i)) if not isinstance(pos, Agg) else pos.f[i] for i in range(len(pt["variants"][0]["f"]))))
        pn = {x[0]: show(y) for x, y in zip(pt["variants"][0]["f"], pv.f)}
        outs = I.run(f["key"], [b, pv], st)
        want = {"ecef_x_or_lat": ("lat", "1e7"), "ecef_y_or_lon": ("lon", "1e7"), "ecef_z_or_alt": ("alt", "100")}
        r.check(not [q for q in I.panics if not q.st.facts.contradictory()], base + " returns for every value", sp, repr(I.panics[:2]))
        for s, v in outs:
            if s.facts.contradictory(): continue
            g = names(I.deep(s, v))
            for k, x in g.items():
                oid = "%s: %s" % (base, k)
                if k in want:
                    y = x.m[0][0] if isinstance(x, Lin) and x.c == 0 and len(x.m) == 1 and x.m[0][1] == 1 else None
                    if y is None or y.kind != "f2i": r.undecided(oid, sp, show(x)); continue
                    fx = y.args[-1]
                    if isinstance(fx, tuple) and fx[:2] in (("f", "round"), ("f", "trunc")): fx = fx[2]
                    try:
                        gf = realform(fx); nm, unit = want[k]
                        r.check(same_form(gf, {pn[nm]: Q(unit)}), oid, sp, "is %s ; documented %s*%s" % (text(gf), unit, pn[nm]))
                    except NotLinear as e: (r.bad if isinstance(e, Pole) else r.undecided)(oid, sp, str(e))
                elif k == "flags": flagbits(r, oid, sp, x, old[k], {0: 1, 5: 1})
                else: r.check(show(x) == show(old[k]), oid, sp, "changed to " + show(x))
    except Unsupported as e: r.undecided(base, sp, "%s %s" % (e, getattr(e, "at", "")))
    # time
    f = d["set_time"][0]; r.fn(f["key"]); base = "AidIniBuilder.set_time"; sp = f["span"]
    try:
        I = Interp(p); st = State(); b = start(I, st); old = names(b)
        tm, exp = chrono_reads(I)
        st.store[("S", "tm")] = Agg(f["locals"][2][0], "instant", tuple(tm[k] for k in INST))
        st.assume(le(Lin(2000), tm["year"])); st.assume(le(tm["year"], Lin(2099)))
        outs = I.run(f["key"], [b, st.store[("S", "tm")]], st)
        r.check(not [q for q in I.panics if not q.st.facts.contradictory()], base + " returns for every instant of 2000-2099", sp, repr(I.panics[:2]))
        want = {"week_or_ym": (tm["year"] - 2000) * 100 + tm["month"], "tow_or_hms": tm["day"] * 1000000 + tm["hour"] * 10000 + tm["minute"] * 100 + tm["second"],
                "tow_ns": tm["nanosecond"]}
        for s, v in outs:
            if s.facts.contradictory(): continue
            g = names(I.deep(s, v))
            for k, x in g.items():
                oid = "%s: %s" % (base, k)
                if k in want: r.check(x == want[k], oid, sp, "is %s ; documented %s" % (show(x), show(want[k])))
                elif k == "flags": flagbits(r, oid, sp, x, old[k], {1: 1, 10: 1})
                else: r.check(show(x) == show(old[k]), oid, sp, "changed to " + show(x))
    except Unsupported as e: r.undecided(base, sp, "%s %s" % (e, getattr(e, "at", "")))

def flagbits(r, oid, sp, x, old, setb):
    while isinstance(x, Agg) and len(x.f) == 1: x = x.f[0]
    while isinstance(old, Agg) and len(old.f) == 1: old = old.f[0]
    gb, ob = to_bits(x, 32), to_bits(old, 32)
    if gb is None or ob is None: r.undecided(oid, sp, show(x)); return
    wb = [setb.get(i, ob[i]) for i in range(32)]
    bad = [i for i in range(32) if gb[i] != wb[i]]
    r.check(not bad, oid, sp, "flag bits %s are not as documented" % bad)

# ------------------------------------------------------------------ chrono
INST = ("year", "month", "day", "hour", "minute", "second", "nanosecond")
RANGE = {"year": (-262143, 262142), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59), "nanosecond": (0, 1999999999)}
def chrono_reads(I):
    tm = {k: sym("tm." + k, *RANGE[k]) for k in INST}
    def comp(k):
        def f(I, s, args, dt, ref):
            v = args[0]
            while isinstance(v, Ptr): v = I.load(s, v)
            if not (isinstance(v, Agg) and v.var == "instant"): return NotImplemented
            return [(s, v.f[INST.index(k)])]
        return f
    for k in INST:
        for t in ("Datelike", "Timelike"): I.ext["chrono::%s::%s" % (t, k)] = comp(k)
    def off(k, d):
        def f(I, s, args, dt, ref):
            r = comp(k)(I, s, args, dt, ref)
            return r if r is NotImplemented else [(s, r[0][1] + d)]
        return f
    for nm, k in (("month0", "month"), ("day0", "day")): I.ext["chrono::Datelike::" + nm] = off(k, -1)
    def year_ce(I, s, args, dt, ref):
        r = comp("year")(I, s, args, dt, ref)
        if r is NotImplemented: return r
        y = r[0][1]
        if s.decide(lt(y, Lin(1))): return [(s, Agg("tuple", 0, (False, Lin(1) - y)))]
        return [(s, Agg("tuple", 0, (True, y)))]
    I.ext["chrono::Datelike::year_ce"] = year_ce
    return tm, None

def chrono_model(I, p):
    """chrono constructors: a calendar value is valid under an opaque predicate of its parts; panicking forms panic where it does not hold"""
    def okp(nm, *a): return ("ba", atom(nm, tuple(a), 0, 1))
    def opt(cond, mk):
        def f(I, s, args, dt, ref):
            out = []
            c, v = mk(I, s, args, dt)
            a, b = s.fork(), s
            if a.assume(c): out.append((a, some(dt, v)))
            if b.assume(neg(c)): out.append((b, none(dt)))
            return out
        return f
    def must(mk):
        def f(I, s, args, dt, ref):
            c, v = mk(I, s, args, dt)
            b = s.fork()
            if b.assume(neg(c)): I.model_panic("call:%s on an impossible value" % ref["path"].rsplit("::", 1)[-1], b)
            return [(s, v)] if s.assume(c) else []
        return f
    def inner(dt): 
        t = p.T[dt]
        return t["variants"][1]["f"][0][1] if t["k"] == "adt" and t["path"] == "std::option::Option" else dt
    def ymd(I, s, a, dt): return okp("ymd_valid", *a[:3]), Agg(inner(dt), "date", tuple(a[:3]))
    def hmsn(h, m, sec, n): return b_and(lt(h, Lin(24)), lt(m, Lin(60)), lt(sec, Lin(60)), b_or(lt(n, Lin(10**9)), b_and(eq(sec, Lin(59)), lt(n, Lin(2 * 10**9)))))
    def hms(I, s, a, dt): return hmsn(a[0], a[1], a[2], ZERO), Agg(inner(dt), "time", tuple(a[:3]) + (ZERO,))
    def hmsx(mult):
        def g(I, s, a, dt): return hmsn(a[0], a[1], a[2], a[3] * mult), Agg(inner(dt), "time", tuple(a[:3]) + (a[3] * mult,))
        return g
    def dt_of(ti, d, t, n=ZERO): return Agg(ti, "dt", d.f + t.f[:3] + (t.f[3] + n,))
    def d_hms(mult, extra):
        def g(I, s, a, dt):
            d = a[0] if isinstance(a[0], Agg) else I.load(s, a[0])
            if not (isinstance(d, Agg) and d.var == "date"): raise Unsupported("date %s" % show(d))
            n = a[4] * mult if extra else ZERO
            return hmsn(a[1], a[2], a[3], n), Agg(inner(dt), "dt", d.f + (a[1], a[2], a[3], n))
        return g
    X = I.ext
    for base, mk in (("chrono::NaiveDate::from_ymd", ymd), ("chrono::NaiveTime::from_hms", hms), ("chrono::NaiveTime::from_hms_nano", hmsx(1)), ("chrono::NaiveTime::from_hms_micro", hmsx(1000)),
                     ("chrono::NaiveTime::from_hms_milli", hmsx(10**6)), ("chrono::NaiveDate::and_hms", d_hms(1, False)), ("chrono::NaiveDate::and_hms_nano", d_hms(1, True)),
                     ("chrono::NaiveDate::and_hms_milli", d_hms(10**6, True)), ("chrono::NaiveDate::and_hms_micro", d_hms(1000, True))):
        X[base + "_opt"] = opt(None, mk); X[base] = must(mk)
    X["chrono::NaiveDateTime::new"] = X["chrono::NaiveDate::and_time"] = lambda I, s, a, dt, ref: [(s, dt_of(dt, I.load(s, a[0]) if isinstance(a[0], Ptr) else a[0], a[1]))]
    def dur(mult):
        return lambda I, s, a, dt, ref: [(s, Agg(dt, "dur", (a[0] * mult,)))]
    for t in ("chrono::TimeDelta", "chrono::Duration"):
        for nm, m in (("nanoseconds", 1), ("microseconds", 1000), ("milliseconds", 10**6), ("seconds", 10**9)): X["%s::%s" % (t, nm)] = dur(m)
    def shift(s, v, d, sign, ti): return Agg(ti, v.var, v.f[:6] + (v.f[6] + d.f[0] * sign,))
    def span_ok(s, v, d):
        # chrono's date range is years +-262142: a date of a 16-bit year cannot leave it by less than a day
        lo, hi = v.f[0].range(); a, b = d.f[0].range(); n0, n1 = v.f[6].range()
        day = 86400 * 10**9
        return None not in (lo, hi, a, b, n0, n1) and lo >= -262000 and hi <= 262000 and abs(a) + abs(n0) < day and abs(b) + abs(n1) < day
    def addf(sign, optional):
        def f(I, s, a, dt, ref):
            v, d = a[0], a[1]
            if not (isinstance(v, Agg) and v.var == "dt" and isinstance(d, Agg) and d.var == "dur"): return NotImplemented
            if not span_ok(s, v, d): raise Unsupported("date-time shift of unknown size")
            x = shift(s, v, d, sign, inner(dt))
            return [(s, some(dt, x) if optional else x)]
        return f
    for ty in ("chrono::NaiveDateTime", "chrono::DateTime<Tz>", "chrono::DateTime"):
        for tr, sg in (("Add::add", 1), ("Sub::sub", -1)):
            X["<%s as std::ops::%s>" % (ty, tr.replace("::", ">::", 1)) if False else "<%s as std::ops::%s<chrono::TimeDelta>>::%s" % (ty, tr.split("::")[0], tr.split("::")[1])] = addf(sg, False)
    for nm, sg in (("checked_add_signed", 1), ("checked_sub_signed", -1)):
        X["chrono::NaiveDateTime::" + nm] = addf(sg, True); X["chrono::DateTime::<Tz>::" + nm] = addf(sg, True)
    def sameat(i):
        def f(I, s, a, dt, ref):
            v = I.load(s, a[i]) if isinstance(a[i], Ptr) else a[i]
            return [(s, Agg(dt, v.var, v.f))] if isinstance(v, Agg) and v.var == "dt" else NotImplemented
        return f
    same, same2 = sameat(0), sameat(1)
    X["chrono::DateTime::<Tz>::from_naive_utc_and_offset"] = same; X["chrono::NaiveDateTime::and_utc"] = same; X["chrono::DateTime::<Tz>::from_utc"] = same
    X["chrono::TimeZone::from_utc_datetime"] = same2

PVT = {"year": "u16le(P[4])", "month": "P[6]", "day": "P[7]", "hour": "P[8]", "minute": "P[9]", "second": "P[10]", "nanosecond": "i32le(P[16])"}

def c23(r, tier):
    r.rule = ("the conversion is interpreted over a symbolic payload with chrono's constructors replaced by their documented contract (calendar validity as a predicate of the parts, panicking forms "
              "panic where it fails); every successful path must carry exactly the packet's seven calendar fields under valid parts and |nanosecond| < 10^9, every failing path an impossible part, and no path panics")
    r.assumptions.append("chrono 0.4: *_opt constructors return None exactly for impossible parts; date range +-262142 years")
    p = prog("std_alloc"); vt = view_types(p)
    f = next((f for (t, a), f in from_impls(p).items() if a == "NavPvtRef" and "DateTime" in t), None)
    if f is None: r.bad("DateTime from NavPvtRef", "", "documented conversion no longer exists"); return
    r.fn(f["key"]); sp = f["span"]; base = "DateTime from NavPvtRef"
    I = Interp(p); chrono_model(I, p)
    try: _, outs = run_view(p, f, vt, "NavPvtRef", I)
    except Unsupported as e: r.undecided(base, sp, "%s %s" % (e, getattr(e, "at", ""))); return
    pan = [q for q in I.panics if not q.st.facts.contradictory()]
    r.check(not pan, base + " never panics", sp, "; ".join("%s in %s" % (q.kind, q.fn) for q in pan[:3]))
    # field terms as the accessors yield them
    views = accessors(p); fld = {}
    J = Interp(p); st0 = State(); v, ptr = payload_view(J, st0, vt["NavPvtRef"])
    def rd(o, n, sg):
        x = ZERO
        for i in range(n): x = x + J.seq_at(st0, st0.store[("S", "P")], Lin(o + i)) * (1 << (8 * i))
        return wrap(x, 8 * n, True) if sg else x
    want = {"year": rd(4, 2, False), "month": rd(6, 1, False), "day": rd(7, 1, False), "hour": rd(8, 1, False), "minute": rd(9, 1, False), "second": rd(10, 1, False)}
    nano = None
    acc = views.get(("NavPvtRef", "nanosecond"))
    if acc is not None:
        K, o = run_accessor(p, acc, vt["NavPvtRef"]); nano = o[0][1] if o else None
    if nano is None or show(nano) != PVT["nanosecond"]: r.undecided(base, sp, "nanosecond accessor is not the documented field (C08)"); return
    for k, w in want.items():
        if show(w) != PVT[k]: r.undecided(base, sp, "field form %s" % show(w)); return
    want["nanosecond"] = nano
    tup = tuple(want[k] for k in INST)
    ymd_ok = ("ba", atom("ymd_valid", tup[:3], 0, 1))
    hms_ok = b_and(lt(tup[3], Lin(24)), lt(tup[4], Lin(60)), lt(tup[5], Lin(60)))
    n_ok = b_and(lt(Lin(-10**9), nano), lt(nano, Lin(10**9)))
    oks = errs = 0
    for s, v in outs:
        if s.facts.contradictory(): continue
        v = I.deep(s, v)
        if not isinstance(v, Agg): r.undecided(base, sp, show(v)); continue
        t = p.T[v.ty]; case = t["variants"][v.var]["n"]
        if case == "Ok":
            oks += 1; g = v.f[0]
            if not (isinstance(g, Agg) and g.var == "dt"): r.undecided(base + " value", sp, show(g)); continue
            r.check(all(a == b for a, b in zip(g.f, tup)), base + " yields the packet's instant", sp, "is %s ; documented %s" % (show(g), ", ".join(map(show, tup))))
            for nm, c in (("date", ymd_ok), ("time", hms_ok), ("nanosecond part", n_ok)):
                r.check(s.facts.entails(c), base + " accepts only a possible " + nm, sp, "succeeds without %s" % show(c))
        else:
            errs += 1
            t2 = s.fork()
            possible = t2.assume(ymd_ok) and t2.assume(hms_ok) and t2.assume(n_ok) and not t2.facts.contradictory() and not any(s.facts.entails(neg(g)) for g in (ymd_ok, hms_ok, n_ok))
            r.check(not possible, base + " rejects only impossible instants", sp, "fails under " + " & ".join(show(b) for b in s.facts.bs[-4:]))
    r.check(oks >= 1, base + " succeeds for possible instants", sp, "no successful path")
    r.count("paths", oks + errs)
    r.need("conversion paths", oks + errs, 2)
