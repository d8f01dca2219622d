"""C18: scaled fields saturate. The conversions are decided over a finite partition of the extended real line (intervals between the
constants a path compares with); the scale factors are compared with the documented ones."""
import json, os, re
from fractions import Fraction as Q
from ..model_build import *
from .build import array_form, fixed_builders
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REF = os.path.join(VERIF, "refs", "scales.json")
NAN, INFTY = "nan", "inf"

class Cell:
    """a set of values of the product field * reciprocal scale: a point, an open interval, an infinity or NaN; signed zero distinguished"""
    def __init__(self, lo, hi, sign, text): self.lo, self.hi, self.sign, self.text = lo, hi, sign, text
    def __repr__(self): return self.text

def fconsts(x, acc):
    if isinstance(x, tuple):
        if x[:2] == ("f", "const"):
            v = float(x[2])
            if v == v and abs(v) != float("inf"): acc.add(Q(v))
        else:
            for y in x: fconsts(y, acc)
    elif isinstance(x, Atom):
        for y in x.args: fconsts(y, acc)
    elif isinstance(x, Lin):
        for a, _ in x.m: fconsts(a, acc)
    elif isinstance(x, Agg):
        for y in x.f: fconsts(y, acc)

def cells(cs, lo, hi):
    ts = {Q(0)}
    for c in set(cs) | {Q(lo), Q(hi), Q(lo - 1), Q(hi + 1)}:
        for d in (0, Q(1, 2), -Q(1, 2)): ts.add(c + d); ts.add(Q((c + d).__floor__())); ts.add(Q((c + d).__ceil__()))
    ts = sorted(ts)
    out = [Cell(NAN, NAN, s, "NaN") for s in (0, 1)]
    out.append(Cell("-inf", "-inf", 1, "-infinity")); out.append(Cell("+inf", "+inf", 0, "+infinity"))
    out.append(Cell(("open", None), ("open", ts[0]), 1, "below %s" % ts[0]))
    for i, t in enumerate(ts):
        if t == 0: out += [Cell(t, t, 0, "+0"), Cell(t, t, 1, "-0")]
        else: out.append(Cell(t, t, int(t < 0), str(t)))
        if i + 1 < len(ts): out.append(Cell(("open", t), ("open", ts[i + 1]), int(ts[i + 1] <= 0), "between %s and %s" % (t, ts[i + 1])))
    out.append(Cell(("open", ts[-1]), ("open", None), 0, "above %s" % ts[-1]))
    return out

def halfaway(x): return (x + Q(1, 2)).__floor__() if x >= 0 else -((-x + Q(1, 2)).__floor__())

class V:
    """evaluated float expression on a cell: kind 'nan' | 'inf' (sign) | range [lo, hi] with open flags; None bound = unbounded"""
    def __init__(self, kind, lo=None, hi=None, lo_open=False, hi_open=False, sign=None):
        self.kind, self.lo, self.hi, self.lo_open, self.hi_open, self.sign = kind, lo, hi, lo_open, hi_open, sign
    def cmp(self, o):
        """'lt' | 'eq' | 'gt' | None for definite order against another"""
        for a, b, x, y in ((self, o, "lt", "gt"), (o, self, "gt", "lt")):
            if a.kind == "inf":
                if b.kind == "inf" and a.sign == b.sign: return "eq"
                return y if a.sign == 0 else x
            if b.kind == "inf": return x if b.sign == 0 else y
        if self.lo is not None and self.lo == self.hi and o.lo == o.hi == self.lo: return "eq"
        if self.hi is not None and o.lo is not None and (self.hi < o.lo or (self.hi == o.lo and (self.hi_open or o.lo_open))): return "lt"
        if self.lo is not None and o.hi is not None and (self.lo > o.hi or (self.lo == o.hi and (self.lo_open or o.hi_open))): return "gt"
        return None

class Ev:
    def __init__(self, base, cell): self.base, self.c, self.shifted = base, cell, False
    def expr(self, x):
        c = self.c
        if x == self.base:
            if c.lo == NAN: return V(NAN, sign=c.sign)
            if c.lo in ("-inf", "+inf"): return V("inf", sign=c.sign)
            if isinstance(c.lo, tuple): return V("r", c.lo[1], c.hi[1], True, True, c.sign)
            return V("r", c.lo, c.hi, False, False, c.sign)
        if isinstance(x, tuple) and x[:2] == ("f", "const"):
            v = float(x[2])
            if v != v: return V(NAN, sign=0)
            if abs(v) == float("inf"): return V("inf", sign=int(v < 0))
            return V("r", Q(v), Q(v), sign=int(str(v).startswith("-")))
        if isinstance(x, tuple) and x[0] == "f":
            op = x[1]; a = [self.expr(y) for y in x[2:] if isinstance(y, tuple)]
            if op in ("round", "floor", "ceil", "trunc"):
                v = a[0]
                if v.kind != "r": return v
                def one(b, op_, side):
                    if b is None: return None
                    if op == "round":
                        if not op_: return Q(halfaway(b))
                        fr = b + Q(1, 2)
                        if fr.denominator == 1: return fr if side > 0 else fr - 1
                        return Q(fr.__floor__())
                    g = {"floor": lambda t: t.__floor__(), "ceil": lambda t: t.__ceil__(), "trunc": lambda t: t.__floor__() if t >= 0 else t.__ceil__()}[op]
                    if op_ and b.denominator == 1:
                        f = op if op != "trunc" else ("floor" if b > 0 or (b == 0 and side > 0) else "ceil")
                        if side > 0: return b if f == "floor" else b + 1      # just above an integer
                        return b - 1 if f == "floor" else b                   # just below an integer
                    return Q(g(b))
                return V("r", one(v.lo, v.lo_open, 1), one(v.hi, v.hi_open, -1), False, False, v.sign)
            if op == "neg":
                v = a[0]
                if v.kind != "r": return V(v.kind, sign=None if v.sign is None else 1 - v.sign)
                return V("r", None if v.hi is None else -v.hi, None if v.lo is None else -v.lo, v.hi_open, v.lo_open, None if v.sign is None else 1 - v.sign)
            if op == "add" and len(a) == 2 and a[0].kind == "r" and a[0].lo == a[0].hi is not None and not a[0].lo_open: a = a[::-1]
            if op in ("add", "sub") and len(a) == 2 and a[1].kind == "r" and a[1].lo == a[1].hi is not None and not a[1].lo_open:
                # in the reals: enough to show that a value is stored wrongly, not that every value is stored right
                v, d = a[0], a[1].lo if op == "add" else -a[1].lo
                self.shifted = True
                if v.kind != "r": return v
                lo, hi = None if v.lo is None else v.lo + d, None if v.hi is None else v.hi + d
                return V("r", lo, hi, v.lo_open, v.hi_open, 0 if lo is not None and lo > 0 else 1 if hi is not None and hi < 0 else None)
            if op in ("min", "max") and len(a) == 2:
                if a[0].kind == NAN: return a[1]
                if a[1].kind == NAN: return a[0]
                o = a[0].cmp(a[1])
                if o is None: raise Unsupported("undetermined %s" % op)
                return a[0] if (o == "lt") == (op == "min") else a[1]
            if op == "clamp" and len(a) == 3:
                if a[0].kind == NAN: return a[0]
                o = a[0].cmp(a[1]); o2 = a[0].cmp(a[2])
                if o == "lt": return a[1]
                if o2 == "gt": return a[2]
                if o is None or o2 is None: raise Unsupported("undetermined clamp")
                return a[0]
        raise Unsupported("float expression %s" % show(x))
    def fact(self, b):
        if isinstance(b, bool): return b
        if b[0] == "and": return all(self.fact(x) for x in b[1])
        if b[0] == "or": return any(self.fact(x) for x in b[1])
        if b[0] == "nba": return not self.fact(("ba", b[1]))
        if b[0] != "ba": raise Unsupported("condition %s" % show(b))
        a = b[1]
        if a.kind == "fcmp":
            op, x, y = a.args; x, y = self.expr(x), self.expr(y)
            if NAN in (x.kind, y.kind): return op == "Ne"
            o = x.cmp(y)
            if o is None:
                if op in ("Le",) and x.hi is not None and y.lo is not None and x.hi <= y.lo: return True
                if op in ("Ge",) and x.lo is not None and y.hi is not None and x.lo >= y.hi: return True
                if op in ("Lt",) and x.lo is not None and y.hi is not None and x.lo >= y.hi: return False
                raise Unsupported("undetermined comparison %s on %s" % (show(b), self.c))
            return {"Lt": o == "lt", "Le": o != "gt", "Gt": o == "gt", "Ge": o != "lt", "Eq": o == "eq", "Ne": o != "eq"}[op]
        if a.kind == "fis_sign_negative": return self.sign(a.args[0]) == 1
        if a.kind == "fis_sign_positive": return self.sign(a.args[0]) == 0
        if a.kind == "fis_nan": return self.expr(a.args[0]).kind == NAN
        if a.kind == "fis_infinite": return self.expr(a.args[0]).kind == "inf"
        if a.kind == "fis_finite": return self.expr(a.args[0]).kind == "r"
        if a.kind == "ffits":
            bits, sg, x = a.args; lo, hi = rng_of(bits, bool(sg)); v = self.expr(x)
            if v.kind != "r": return False
            L = v.cmp(V("r", Q(lo - 1), Q(lo - 1))); H = v.cmp(V("r", Q(hi + 1), Q(hi + 1)))
            if L == "gt" and H == "lt": return True
            if L in ("lt", "eq") or H in ("gt", "eq"): return False
            raise Unsupported("undetermined range of %s" % show(x))
        raise Unsupported("condition %s" % show(b))
    def sign(self, x):
        v = self.expr(x)
        if v.sign is None: raise Unsupported("sign of %s" % show(x))
        return v.sign
    def result(self, v):
        """integer range of a returned value"""
        if isinstance(v, Lin):
            if v.is_const(): return v.c, v.c
            if v.c == 0 and len(v.m) == 1 and v.m[0][1] == 1 and v.m[0][0].kind == "f2i":
                bits, sg, x = v.m[0][0].args; lo, hi = rng_of(bits, bool(sg)); e = self.expr(("f", "trunc", x))
                if e.kind == NAN: return 0, 0
                if e.kind == "inf": return (hi, hi) if e.sign == 0 else (lo, lo)
                return (lo if e.lo is None else max(lo, min(hi, int(e.lo)))), (hi if e.hi is None else max(lo, min(hi, int(e.hi))))
            if len(v.m) == 1 and v.m[0][0].kind == "wrap":
                w, sg, l = v.m[0][0].args; a, b = self.result(l); lo, hi = rng_of(w, sg)
                if lo <= a and b <= hi and v.m[0][1] == 1 and v.c == 0: return a, b
                return None
        return None

def conversions(p):
    out = []
    for k, f in sorted(p.funs.items()):
        m = re.search(r"ScaleBack::<(f32|f64)>::as_([iu])(8|16|32|64)$", k)
        if m and f["argc"] == 2: out.append((k, f, m.group(1), m.group(2) == "i", int(m.group(3))))
    return out

def decide(p, k, f, signed, bits):
    """None when the conversion rounds to nearest and saturates everywhere, else a reason"""
    lo, hi = rng_of(bits, signed)
    I = Interp(p); st = State()
    a = [I.sym_value(st, f["locals"][i][0], n) for i, n in ((1, "recip"), (2, "x"))]
    sc = a[0]
    while isinstance(sc, Agg): sc = sc.f[0]
    base = f_op("mul", sc, a[1])
    outs = [(s, v, None) for s, v in I.run(k, a, st)] + [(q.st, None, q) for q in I.panics]
    cs = set()
    for s, v, q in outs:
        for b in s.facts.bs: fconsts(b, cs)
        if v is not None: fconsts(v, cs)
    ncell = 0; unsure = None
    for c in cells(cs, lo, hi):
        E = Ev(base, c); hit = 0; ncell += 1
        for s, v, q in outs:
            if s.facts.contradictory() or not all(E.fact(b) for b in s.facts.bs): continue
            if q is not None: return "panics when the scaled value is %s (%s)" % (c, q.kind), ncell, len(outs)
            hit += 1
            if c.lo == NAN: continue
            got = E.result(v)
            if got is None: raise Unsupported("result %s" % show(v))
            w = E.expr(("f", "round", base))
            if w.kind == "inf": want = (hi, hi) if w.sign == 0 else (lo, lo)
            else: want = (lo if w.lo is None else max(lo, min(hi, int(w.lo)))), (hi if w.hi is None else max(lo, min(hi, int(w.hi))))
            if want[0] != want[1] and isinstance(v, Lin) and not v.is_const():
                x = v.m[0][0].args[-1]
                if E.shifted: unsure = "float expression %s" % show(x); continue
                if x != ("f", "round", base): return "stores %s instead of the nearest integer when the scaled value is %s" % (show(v), c), ncell, len(outs)
            if got != want: return "stores %s..%s instead of %s..%s when the scaled value is %s" % (got + want + (c,)), ncell, len(outs)
        if not hit: return "never returns when the scaled value is %s" % c, ncell, len(outs)
        if E.shifted: unsure = "a sum of floats"
    if unsure: raise Unsupported(unsure)
    return None, ncell, len(outs)

def scaled_fields(p):
    """{builder: {field: (conversion, reciprocal text)}}"""
    out = {}; where = {}; und = {}
    B = fixed_builders(p)
    for n, (ti, d) in sorted(B.items()):
        where[n] = d["into_packet_bytes"][0]["span"]
        try: I, res = array_form(p, ti, d["into_packet_bytes"][0])
        except Unsupported as e: und[n] = str(e); continue
        g = {}
        for bs, v in res:
            for a in atoms_of(tuple(v)):
                if a.kind == "opq" and str(a.args[0]).startswith("as_"): g.setdefault(show(a.args[2]), set()).add("%s %s" % (a.args[0], show(a.args[1])))
                if a.kind == "f2i": g.setdefault(show(a.args[-1]), set()).add("cast " + show(of_atom(a)))
        out[n] = {k: " / ".join(sorted(x)) for k, x in g.items()}
    return out, where, und

def c18(r, tier):
    r.rule = ("every saturating conversion's path conditions and results are evaluated on a finite partition of the extended reals (the intervals between all constants the "
              "code compares with, the type's bounds, half-integers, both zeros, infinities and NaN); no cell may panic, in-range cells give the nearest integer, the rest the extreme; "
              "each scaled field's reciprocal and wire type equal the documented ones (refs/scales.json)")
    p = prog("std_alloc")
    C = conversions(p); nc = 0; used = set()
    got, where, und = scaled_fields(p)
    for k, f, ft, signed, bits in C:
        oid = "conversion %s to %s%d" % (ft, "i" if signed else "u", bits); r.fn(k)
        try:
            why, cells_, paths = decide(p, k, f, signed, bits)
            r.count("cells", cells_); r.count("paths", paths)
            r.check(why is None, oid, f["span"], why)
        except Unsupported as e: r.undecided(oid, f["span"], str(e))
        nc += 1
    R = json.load(open(REF))
    for n, fs in sorted(R.items()):
        if n in und: r.undecided("scaled fields of " + n, where[n], und[n]); continue
        if n not in got: r.bad("scaled fields of " + n, "", "documented builder no longer exists"); continue
        for fld_, want in sorted(fs.items()):
            g = got[n].get(fld_)
            if g is None: r.bad("scale of %s.%s" % (n, fld_), where[n], "the field is not converted with a documented scale"); continue
            r.check(g == want, "scale of %s.%s" % (n, fld_), where[n], "%s, documented %s" % (g, want))
    r.need("saturating conversions", nc, 6)
    r.count("scaled_fields", sum(len(x) for x in R.values()))
