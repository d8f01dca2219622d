"""C17: what a builder writes, the accessor of the same field reads back."""
from fractions import Fraction as Q
from ..model_build import *
from .build import fixed_builders, lit_bytes
from .packets import validators
from ..model_ublox import *
TWO_WAY = ("CfgAnt", "CfgInf", "CfgItfm", "CfgNav5", "CfgNavX5", "CfgOdo", "CfgPrtI2c", "CfgPrtSpi", "CfgPrtUart", "CfgTmode2", "CfgTmode3", "CfgTp5")
# documented width of the components a caller may give as a whole word (wider values are cut to the width): builder -> {component: bits}
WIDTHS = {"CfgItfm": {"config.bb_threshold.0": 4, "config.cw_threshold.0": 5, "config.algorithm_bits.0": 22, "config2.general.0": 12}}

def enum_fields(I, v):
    if isinstance(v, SymV) and I.T[v.ty]["k"] == "adt" and I.T[v.ty]["adt"] == "enum" and all(not x["f"] for x in I.T[v.ty]["variants"]): yield v
    elif isinstance(v, Agg):
        for x in v.f: yield from enum_fields(I, x)

def norm(v):
    if isinstance(v, Lin):
        b = to_bits(v, 64)
        if b is not None: return from_bits(b)
    return v
def same_int(s, a, b): return a == b or norm(a) == norm(b) or s.facts.entails(eq(a, b)) or s.facts.entails(eq(norm(a), norm(b)))

def equal(I, s, want, got):
    """None when the value read is the value written, else what differs"""
    if isinstance(want, Lin) and isinstance(got, Lin): return None if same_int(s, want, got) else "reads %s" % show(norm(got))
    if isinstance(want, SymV):
        if isinstance(got, SymV): return None if want.name == got.name else "reads %s" % show(got)
        if isinstance(got, Agg) and I.T[want.ty]["k"] == "adt" and I.T[want.ty]["adt"] == "enum" and isinstance(got.var, int) and got.ty == want.ty:
            vs = I.T[want.ty]["variants"]; d = I.discr_of(s, want)
            if s.facts.entails(eq(d, Lin(I.sdiscr(want.ty, vs[got.var]["d"])))): return None
            which = [x["n"] for x in vs if not (lambda f: f is None or f.contradictory())(s.facts.add(eq(d, Lin(I.sdiscr(want.ty, x["d"])))))]
            return "reads %s when %s was written" % (vs[got.var]["n"], " or ".join(which))
        return "reads %s" % show(got)
    if isinstance(want, Seq) and isinstance(got, Seq):
        if want.length() != got.length() or not want.length().is_const(): return "reads %s bytes, %s written" % (show(got.length()), show(want.length()))
        for i in range(want.length().c):
            a, b = el(I, s, want, i), el(I, s, got, i)
            if equal(I, s, a, b): return "element %d: %s" % (i, equal(I, s, a, b))
        return None
    if isinstance(want, Agg) and isinstance(got, Agg):
        if want.ty != got.ty or want.var != got.var or len(want.f) != len(got.f): return "reads %s" % show(got)
        for x, y in zip(want.f, got.f):
            e = equal(I, s, x, y)
            if e: return e
        return None
    if want == got or (I.is_bool(want) and I.is_bool(got) and s.facts.entails(b_or(b_and(want, got), b_and(neg(want), neg(got))))): return None
    return "reads %s" % show(got)

def el(I, s, q, i):
    for g in q.segs:
        n = len(g[1]) if g[0] == "lit" else g[3].c
        if i < n: return g[1][i] if g[0] == "lit" else I.elem(s, g[1], g[2] + i)
        i -= n

def narrow(v, widths):
    """the same value with the named components restricted to their documented widths"""
    if isinstance(v, Agg): return Agg(v.ty, v.var, tuple(narrow(x, widths) for x in v.f))
    if isinstance(v, Lin) and len(v.m) == 1 and v.m[0][0].kind == "sym" and v.m[0][0].args[0] in widths: return sym(v.m[0][0].args[0], 0, (1 << widths[v.m[0][0].args[0]]) - 1)
    return v

def factor(v):
    """(k, x) when the float v is k * x, x not itself a constant multiple"""
    k = 1.0
    while isinstance(v, tuple) and v[0] == "f":
        if v[1] in ("mul", "div") and len(v) == 4:
            a, b = v[2], v[3]
            if v[1] == "mul" and a[:2] == ("f", "const"): k *= float(a[2]); v = b; continue
            if b[:2] == ("f", "const") and float(b[2]) != 0: k = k * float(b[2]) if v[1] == "mul" else k / float(b[2]); v = a; continue
        elif v[1].startswith("f") and "to" in v[1] and v[1][1:3].isdigit(): v = v[2]; continue
        break
    return k, v

def float_check(I, s, want, got):
    """the float read must be k * n with n the saturating conversion of the given value times 1/k"""
    k, x = factor(got)
    if not (isinstance(x, tuple) and x[:2] == ("f", "i2f")):
        if x == want: return None if abs(k - 1) < 1e-6 else "reads %s times the value written" % k
        raise Unsupported("scaled field reads %s" % show(got))
    n = x[3] if len(x[3].m) == 1 else norm(x[3])
    if not (isinstance(n, Lin) and n.c == 0 and len(n.m) == 1 and n.m[0][1] == 1 and n.m[0][0].kind == "opq" and str(n.m[0][0].args[0]).startswith("as_")):
        return "reads %s" % show(got)
    _, ks, v = n.m[0][0].args
    k2, w = factor(ks); k3, src = factor(v)
    if not (isinstance(w, tuple) and w[:2] == ("f", "const")): raise Unsupported("scale %s" % show(ks))
    t = k * k2 * float(w[2]) * k3
    if src != want: return "reads back %s" % show(src)
    return None if abs(t - 1) < 1e-6 else "written times %s, read times %s" % (k2 * float(w[2]) * k3, k)

def field_check(I, s, want, got, oid="", span="", seen=None):
    if isinstance(want, tuple) and want[:2] == ("f", "sym"):
        if seen is not None: seen.append((oid, span, want, got))
        return float_check(I, s, want, got)
    return equal(I, s, want, got)

def c17(r, tier, seen=None):
    r.rule = ("for every two-way packet the builder's array is evaluated over symbolic field values, its payload handed to the packet's own validator and to the accessor of the same name; "
              "the validator must accept on every path and the accessor's result must be the field's own symbol (scaled fields: reciprocal factors around one saturating conversion)")
    p = prog("std_alloc")
    B = fixed_builders(p); vt = view_types(p); acc = accessors(p); va = validators(p); done = set(); nf = 0
    for bn, (ti, d) in sorted(B.items()):
        n = bn[:-len("Builder")]; view = n + "Ref"
        if view not in vt: continue
        done.add(n)
        f = d["into_packet_bytes"][0]; r.fn(f["path"])
        try:
            I = Interp(p); checksum_contracts(I, p); scaleback_contract(I, p)
            st = State(); bv = narrow(builder_value(I, st, ti), WIDTHS.get(n, {}))
            for e in enum_fields(I, bv):
                dv = I.discr_of(st, e)
                st.assume(b_or(*[eq(dv, Lin(I.sdiscr(e.ty, x["d"]))) for x in I.T[e.ty]["variants"]]))
            outs = [(s, v) for s, v in I.run(f["key"], [bv], st) if not s.facts.contradictory()]
            starts = []
            for s, v in outs:
                bs = lit_bytes(I, s, v)[6:-2]
                s.store[("S", "P")] = Seq((("lit", tuple(bs)),))
                starts.append((s, Ptr(("S", "P"), (), (ZERO, Lin(len(bs))))))
        except Unsupported as e:
            r.undecided("builder " + n, f["span"], "%s %s" % (e, getattr(e, "at", ""))); continue
        # the packet's validator accepts what was built
        g = va.get(n) or va.get(view)
        if g is None: r.bad("built %s accepted" % n, f["span"], "no validator")
        else:
            try:
                why = None
                for s, ptr in starts:
                    J = Interp(p); res = J.run(g["key"], [ptr], s.fork())
                    for s2, v in res:
                        if s2.facts.contradictory(): continue
                        if not (isinstance(v, Agg) and v.var == 0): why = "a built payload is refused: %s when %s" % (show(J.deep(s2, v)), " & ".join(show(b) for b in s2.facts.bs[-4:]))
                    if J.panics: why = "may panic: %s" % J.panics[0]
                r.check(why is None, "built %s accepted" % n, g["span"], why)
            except Unsupported as e: r.undecided("built %s accepted" % n, g["span"], "%s %s" % (e, getattr(e, "at", "")))
        for i, fd in enumerate(p.T[ti]["variants"][0]["f"]):
            a = acc.get((view, fd[0])); oid = "%s.%s reads back" % (n, fd[0])
            if a is None:
                r.bad(oid, f["span"], "the builder has the field but the view has no such accessor"); continue
            r.fn(a["path"]); nf += 1
            try:
                why = None
                for s, ptr in starts:
                    s = s.fork(); s.store[("S", "self")] = Agg(vt[view], 0, (ptr,))
                    J = Interp(p); res = J.run(a["key"], [Ptr(("S", "self"))], s)
                    live = [(s2, w) for s2, w in res if not s2.facts.contradictory()]
                    pn = [q for q in J.panics if not q.st.facts.contradictory()]
                    if pn: why = "may panic: %s" % pn[0]
                    elif not live: why = "never returns"
                    for s2, w in live: why = why or field_check(J, s2, bv.f[i], J.deep(s2, w), oid, a["span"], seen)
                r.check(why is None, oid, a["span"], "%s, the builder was given %s" % (why, show(I.deep(st, bv.f[i]))[:120]))
            except Unsupported as e: r.undecided(oid, a["span"], "%s %s" % (e, getattr(e, "at", "")))
    for n in TWO_WAY:
        if n not in done: r.bad("two-way packet " + n, "", "no longer both built and read")
    r.count("two_way_packets", len(done)); r.count("fields", nf)
    r.need("two-way packet fields", nf, 110)

# ---- C32: how far a value read back is from the one written ----
def rounded(text, bits):
    """the constant as a float of that width"""
    import struct
    v = float(text)
    return Q(struct.unpack("<f", struct.pack("<f", v))[0]) if bits == 32 else Q(v)
def pow2(q):
    q = abs(q)
    return q != 0 and (q.numerator & (q.numerator - 1)) == 0 and (q.denominator & (q.denominator - 1)) == 0
UNIT = {32: Q(1, 1 << 24), 64: Q(1, 1 << 53)}

def relerr(v, bits):
    """(factor, relative error bound, base) of a float expression that is a multiple of one base"""
    u = UNIT[bits]
    if v[:2] == ("f", "const"): return rounded(v[2], bits), Q(0), None
    if v[:2] == ("f", "sym"): return Q(1), Q(0), v
    if v[:2] == ("f", "i2f"):
        n = v[3] if len(v[3].m) == 1 else norm(v[3])
        lo, hi = n.m[0][0].lo, n.m[0][0].hi
        exact = v[2] == 64 and max(abs(lo), abs(hi)) <= 1 << 53 or max(abs(lo), abs(hi)) <= 1 << 24
        if not (n.c == 0 and len(n.m) == 1 and n.m[0][1] == 1): raise Unsupported("integer %s" % show(n))
        return Q(1), Q(0) if exact else UNIT[v[2]], n.m[0][0]
    if v[1] in ("mul", "div") and len(v) == 4:
        (ka, ea, ba), (kb, eb, bb) = relerr(v[2], bits), relerr(v[3], bits)
        if ba is not None and bb is not None or (v[1] == "div" and bb is not None): raise Unsupported("product of values")
        exact = any(b is None and pow2(k) for k, b in ((ka, ba), (kb, bb)))
        k = ka * kb if v[1] == "mul" else ka / kb
        e = (1 + ea) * (1 + eb) * (1 + (0 if exact else u)) - 1 if v[1] == "mul" else (1 + ea) / (1 - eb) * (1 + (0 if exact else u)) - 1
        return k, e, ba if ba is not None else bb
    if v[1] in ("f32to64", "f64to32", "f32tof64", "f64tof32"): 
        down = v[1] in ("f64to32", "f64tof32")
        k, e, b = relerr(v[2], 64 if down else 32)
        return k, (1 + e) * (1 + (UNIT[32] if down else 0)) - 1, b
    raise Unsupported("float expression %s" % show(v))

def c32(r, tier):
    r.rule = ("forward rounding-error analysis of each scaled field's write and read expressions: the stored number is the value times a constant, rounded to nearest (every conversion used is "
              "decided as in C18), the value read is that number times a constant; the constants multiply to one up to the float type's precision and no other rounding occurs, so the value "
              "read is within half a unit of the one written, plus a relative error of a few units in the last place, bounded here in exact rationals")
    from . import scale
    p = prog("std_alloc")
    seen = []; sub = type(r)(r.pid); c17(sub, tier, seen)
    r.funcs |= sub.funcs
    used = {}
    worst = {32: Q(0), 64: Q(0)}; stable = 0; done = {}
    for oid, sp, want, got in seen:
        fid = oid.replace(" reads back", "")
        try:
            k, x = factor(got); bits = x[2] if isinstance(x, tuple) and x[:2] == ("f", "i2f") else 64
            S, er, n = relerr(got, bits)
            if not (isinstance(n, Atom) and n.kind == "opq" and str(n.args[0]).startswith("as_")): raise Unsupported("not a stored number: %s" % show(got))
            conv, ks, v = n.args
            K, ek, b0 = relerr(ks, bits); K2, ev, src = relerr(v, bits)
            if b0 is not None or src != want: raise Unsupported("written from %s" % show(v))
            exact = pow2(K) or pow2(K2) and K2 == 1 and pow2(K)
            e = (1 + ek) * (1 + ev) * (1 + (0 if exact else UNIT[bits])) * (1 + er)
            rho = max(abs(K * K2 * S * e - 1), abs(K * K2 * S / e - 1))
            used[(bits, conv)] = True
            lim = 8 * UNIT[bits]
            why = None if rho <= lim else "the factors written with and read with differ by a relative %.3g, more than the float type's rounding" % float(rho)
            worst[bits] = max(worst[bits], rho)
            m = max(abs(n.lo), abs(n.hi))
            if rho * m * 2 < Q(1, 2): stable += 1
            done.setdefault(fid, (sp, []))[1].append(why)
        except Unsupported as ex: done.setdefault(fid, (sp, []))[1].append(ex)
    for fid, (sp, ws) in sorted(done.items()):
        b = [w for w in ws if isinstance(w, str)]; u = [w for w in ws if isinstance(w, Unsupported)]
        if b: r.bad(fid, sp, b[0])
        elif u: r.undecided(fid, sp, str(u[0]))
        else: r.ok(fid, sp)
    for o in sub.obl:
        # a scaled field that does not read back at all
        if o[1] == "bad" and o[0].replace(" reads back", "") in done: r.bad(o[0], o[2], o[3])
    C = {(ft, ("i" if sg else "u") + str(b)): (k, f, sg, b) for k, f, ft, sg, b in scale.conversions(p)}
    for bits, conv in sorted(used):
        c = C.get(("f%d" % bits, conv[3:])); oid = "rounding of f%d %s" % (bits, conv)
        if c is None: r.bad(oid, "", "the conversion is gone"); continue
        k, f, sg, b = c; r.fn(k)
        try:
            why, cells_, paths = scale.decide(p, k, f, sg, b); r.check(why is None, oid, f["span"], why)
        except Unsupported as ex: r.undecided(oid, f["span"], str(ex))
    r.need("scaled fields written and read", len(done), 20)
    r.count("scaled_fields", len(done)); r.count("fields_that_read_and_written_back_keep_their_number", stable)
    r.notes.append("largest relative rounding besides the half unit: f32 %.2e, f64 %.2e" % (float(worst[32]), float(worst[64])))
