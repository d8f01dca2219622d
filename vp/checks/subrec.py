"""C27: iterators over repeated parts, by induction on the number of records already yielded."""
import json, os
from ..model_ublox import *
from ..interp import Interp, State, Unsupported
from .packets import conds, first_zero, ref as packet_ref, plen
from ..models import utf8_atom
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REF = os.path.join(VERIF, "refs", "records.json")
# (view, accessor): offset of the repeated part, record length, number of records (None: what the payload's length leaves; or [byte, low bit, high bit] of a counting field)
PARTS = {("NavSatRef", "svs"): (8, 12, None), ("RxmRawxRef", "measurements"): (16, 32, None), ("RxmSfrbxRef", "dwrd"): (8, 4, None),
         ("EsfRawRef", "data"): (4, 8, None), ("MonVerRef", "extension"): (40, 30, None), ("EsfMeasRef", "data"): (8, 4, (5, 3, 8))}
N = sym("N", 0, 1 << 40); K = sym("k", 0, 1 << 40)

def cstr_facts(I, st, off, width):
    F = first_zero(I, off)
    return [le(F, Lin(width - 1)), utf8_atom(Seq((("sub", "P", off if isinstance(off, Lin) else Lin(off), F),)))]

def valid_state(I, p, ti, n, length=None):
    """a payload that satisfies the packet's documented conditions (C09 decides that validation ensures them); repeated strings are instantiated by the caller"""
    req = packet_ref()[n]["req"]
    st = State(); L = length if length is not None else plen()
    al = ("S", "P"); st.store[al] = Seq((("sub", "P", ZERO, L),))
    st.store[("S", "self")] = Agg(ti, 0, (Ptr(al, (), (ZERO, L)),))
    for t, b in conds(I, req):
        if length is not None: b = subst(b, {plen().m[0][0]: length})
        if not st.assume(b): raise Unsupported("conditions of %s are contradictory" % n)
    for x in req:
        if x[0] == "cstr":
            for b in cstr_facts(I, st, x[1], x[2]): st.assume(b)
    return st, Ptr(("S", "self"))

def extrapolate(a, b, k):
    """the value after k steps, when one step takes a to b by constant increments"""
    if isinstance(a, Lin) and isinstance(b, Lin):
        d = b - a
        if not d.is_const(): raise Unsupported("non-constant step %s" % show(d))
        return a + k * d.c
    if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.f) == len(b.f): return Agg(a.ty, a.var, tuple(extrapolate(x, y, k) for x, y in zip(a.f, b.f)))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.al == b.al and len(a.path) == len(b.path) and (a.sl is None) == (b.sl is None):
        path = tuple((x[0], extrapolate(x[1], y[1], k)) if x[0] == "i" and isinstance(x[1], Lin) else x for x, y in zip(a.path, b.path))
        return Ptr(a.al, path, None if a.sl is None else tuple(extrapolate(x, y, k) for x, y in zip(a.sl, b.sl)))
    if a == b: return a
    raise Unsupported("iterator state changes shape: %s to %s" % (show(a), show(b)))
def same(s, a, b):
    if a == b: return True
    if isinstance(a, Lin) and isinstance(b, Lin): return s.facts.entails(eq(a, b))
    if isinstance(a, Agg) and isinstance(b, Agg): return a.var == b.var and len(a.f) == len(b.f) and all(same(s, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.al == b.al and len(a.path) == len(b.path) and all(x == y or (x[0] == "i" and y[0] == "i" and same(s, x[1], y[1])) for x, y in zip(a.path, b.path)) and \
            (a.sl is None) == (b.sl is None) and (a.sl is None or all(same(s, x, y) for x, y in zip(a.sl, b.sl)))
    return False

def iterator_methods(p):
    """{iterator type path: {method: function}} of the hand-written iterator implementations"""
    out = {}
    for k, f in p.funs.items():
        if not f.get("span", "").startswith("ublox") or f["argc"] < 1: continue
        t = p.T[f["locals"][1][0]]
        if t["k"] == "ref": t = p.T[t["to"]]
        if t["k"] == "adt" and t["local"] and t["path"] in iter_types(p):
            if " as " in f["path"] and ("Iterator" in f["path"]): out.setdefault(t["path"], {})[f["path"].rsplit("::", 1)[-1]] = f
    return out

class It:
    """one repeated part: generic state of its iterator after k records"""
    def __init__(self, p, v, m):
        self.p, self.v, self.m = p, v, m
        self.off, self.stride, self.cnt = PARTS[(v, m)]
        self.acc = accessors(p)[(v, m)]
        self.ity = self.acc["locals"][0][0]
        self.meth = iterator_methods(p).get(p.T[self.ity]["path"], {})
        if "next" not in self.meth: raise Unsupported("no next method on %s" % p.tname(self.ity))
        self.strings = any(x[0] == "cstrs" for x in packet_ref()[v[:-3]]["req"])
    def start(self):
        """[(state, iterator value, number of records)]"""
        I = Interp(self.p)
        ti = view_types(self.p)[self.v]
        length = None if self.cnt else Lin(self.off) + N * self.stride
        st, self_ = valid_state(I, self.p, ti, self.v[:-3], length)
        outs = I.run(self.acc["key"], [self_], st)
        n = of_atom(fld(sym_byte(self.cnt[0]), self.cnt[1], self.cnt[2] - self.cnt[1])) if self.cnt else N
        return [(s, v, n) for s, v in outs if not s.facts.contradictory()], [q for q in I.panics if not q.st.facts.contradictory()]
    def record_facts(self, I, s, k):
        if not self.strings: return
        for b in cstr_facts(I, s, k * self.stride + self.off, self.stride): s.assume(b)
    def step(self, s, it):
        """run next from iterator value `it`: ([(state, returned value, iterator value)], panics)"""
        I = Interp(self.p)
        s.store[("S", "it")] = it
        o = I.run(self.meth["next"]["key"], [Ptr(("S", "it"))], s)
        return [(x, I.deep(x, y), x.store[("S", "it")], y) for x, y in o if not x.facts.contradictory()], [q for q in I.panics if not q.st.facts.contradictory()]
    def general(self, s, v0, n):
        """iterator value after k records as a function of k"""
        s1 = s.fork()
        if not s1.assume(le(Lin(1), n)): raise Unsupported("never a record")
        self.record_facts(Interp(self.p), s1, ZERO)
        o, pan = self.step(s1, v0)
        if pan: return None, pan
        vs = [x[2] for x in o if case(self.p, x[3]) == "Some"]
        if not vs: return None, []
        return lambda k: extrapolate(v0, vs[0], k), []

def sym_byte(i): return atom("el", ("P", Lin(i)), 0, 255)
def case(p, v): return p.T[v.ty]["variants"][v.var]["n"] if isinstance(v, Agg) and isinstance(v.ty, int) and isinstance(v.var, int) else "?"

def analyse(p, v, m):
    """(list of (obligation suffix, ok, detail)), record text"""
    out = []; recs = set()
    it = It(p, v, m)
    starts, pan = it.start()
    out.append(("is created for every valid payload", not pan and bool(starts), "; ".join(map(repr, pan[:2]))))
    for s, v0, n in starts:
        gen, pan = it.general(s, v0, n)
        if pan: out.append(("yields the first record", False, "; ".join(map(repr, pan[:2])))); continue
        if gen is None: out.append(("yields the first record", False, "ends at once although a record is left")); continue
        # any record
        a = s.fork(); a.assume(le(K + 1, n)); it.record_facts(Interp(p), a, K)
        o, pan = it.step(a, gen(K))
        out.append(("never panics while records are left", not pan, "; ".join("%s in %s" % (q.kind, q.fn) for q in pan[:2])))
        bad = [show(y) for x, y, w, raw in o if case(p, raw) != "Some"]
        out.append(("yields a record while records are left", not bad and bool(o), "ends early: %s" % bad[:2]))
        for x, y, w, raw in o:
            if case(p, raw) != "Some": continue
            recs.add(show(y.f[0]))
            out.append(("moves on by exactly one record", same(x, w, gen(K + 1)), "after a record the iterator is %s, expected %s" % (show(w), show(gen(K + 1)))))
        # the end
        e = s.fork(); e.assume(eq(K, n))
        o, pan = it.step(e, gen(K))
        out.append(("never panics at the end", not pan, "; ".join("%s in %s" % (q.kind, q.fn) for q in pan[:2])))
        bad = [show(y) for x, y, w, raw in o if case(p, raw) != "None"]
        out.append(("ends after the last record", not bad and bool(o), "yields %s beyond the last record" % bad[:2]))
        for x, y, w, raw in o:
            o2, pan2 = it.step(x.fork(), w)
            out.append(("stays ended", not pan2 and all(case(p, q[3]) == "None" for q in o2), "yields again after the end"))
        # hints
        for nm, f in sorted(it.meth.items()):
            if nm == "next": continue
            if nm not in ("size_hint", "len", "count"):
                out.append(("method " + nm, None, "an overridden iterator method this analysis does not model")); continue
            h = s.fork(); h.assume(le(K, n)); I = Interp(p)
            h.store[("S", "it")] = gen(K)
            q = I.run(f["key"], [Ptr(("S", "it")) if p.T[f["locals"][1][0]]["k"] == "ref" else gen(K)], h)
            for x, y in q:
                if x.facts.contradictory(): continue
                left = n - K
                if nm == "size_hint":
                    lo, hi = y.f
                    ok = x.facts.entails(le(lo, left))
                    if case(p, hi) == "Some": ok = ok and x.facts.entails(le(left, hi.f[0])); exact = same(x, lo, left) and same(x, hi.f[0], left)
                    else: exact = lo == ZERO
                    out.append(("size_hint", ok and exact, "says %s..%s with %s records left" % (show(lo), show(hi), show(left))))
                else: out.append((nm, same(x, y, left), "says %s with %s records left" % (show(y), show(left))))
            out.append((nm + " never panics", not [q for q in I.panics if not q.st.facts.contradictory()], repr(I.panics[:1])))
    return out, " || ".join(sorted(recs)), it

def c27(r, tier):
    r.rule = ("for each repeated part the iterator made by the accessor is followed by induction: its state after k records is v0 + k*step; from that state, with records left, next must return the record at "
              "offset + k*stride decoded as documented and lead to the state for k+1; with none left it must return None and stay there; size hints, where given, must be the records left")
    p = prog("std_alloc")
    R = json.load(open(REF)); A = accessors(p); n = 0
    for (v, m) in sorted(PARTS):
        base = "%s.%s" % (v, m)
        if (v, m) not in A: r.bad(base, "", "documented repeated part no longer has an iterator"); continue
        sp = A[(v, m)]["span"]
        try: obs, rec, it = analyse(p, v, m)
        except Unsupported as e: r.undecided(base, sp, "%s %s" % (e, getattr(e, "at", ""))); continue
        r.fn(it.acc["key"], *[f["key"] for f in it.meth.values()])
        wh = it.meth["next"]["span"]
        for o, ok, d in obs:
            if ok is None: r.undecided("%s %s" % (base, o), wh, d)
            else: r.check(ok, "%s %s" % (base, o), wh, d)
        r.check(rec == R.get(base), base + " record", wh, "is %s ; documented %s" % (rec, R.get(base)))
        r.sample([base, rec]); n += 1
    other = sorted("%s.%s" % k for k, f in A.items() if is_iter_ty(p, f["locals"][0][0]) and k not in PARTS)
    if other: r.notes.append("no reference for: " + ", ".join(other))
    r.count("repeated_parts", n); r.need("repeated parts with an iterator", sum(1 for k in PARTS if k in A), len(PARTS))
