"""The stream parser over an arbitrary buffer that honours the UnderlyingBuffer contract."""
from .model_ublox import *
from .interp import Interp, State, Unsupported, NeedSplit
from .iters import explore
from . import loops
from .models import check, as_slice, range_of, some, none
MAXLEN = (1 << 63) - 1
CAP = sym("capacity", 0, (1 << 64) - 1)

def buf_of(I, s, p):
    while True:
        v = I.load(s, p)
        if isinstance(v, Ptr): p = v; continue
        return p, v

def contract(I, p, tparam=None):
    """UnderlyingBuffer methods on a type parameter, by contract: the content is one byte sequence of at most CAP bytes"""
    U = "parser::UnderlyingBuffer::"
    def isbuf(v): return isinstance(v, Agg) and v.var == "vec"
    def c(f):
        def g(I, s, args, dt, ref):
            q, v = buf_of(I, s, args[0])
            if not isbuf(v): return NotImplemented
            return explore(I, s, lambda s: f(s, q, v.f[0], args, dt, v))
        return g
    def clear(s, q, seq, a, dt, v): I.store(s, q, v.with_f(0, Seq(()))); return [(s, UNIT)]
    def ln(s, q, seq, a, dt, v): return [(s, seq.length())]
    def cap(s, q, seq, a, dt, v): return [(s, CAP)]
    def empty(s, q, seq, a, dt, v): return [(s, eq(seq.length(), ZERO))]
    def ext(s, q, seq, a, dt, v):
        o = I.load_slice(s, as_slice(I, s, a[1])); n = o.length(); room = CAP - seq.length()
        if getattr(I, "unlimited", False) or s.decide(le(n, room)): take = n
        else: take = room
        I.store(s, q, v.with_f(0, norm(I, s, seq + I.seq_slice(s, o, ZERO, take))))
        if I.cost: s.eff = s.eff + (("cost", take, 1, "extend_from_slice"),)
        return [(s, n - take)]
    def drain(s, q, seq, a, dt, v):
        n = I.as_lin(a[1]); l = seq.length()
        if s.decide(le(l, n)): I.store(s, q, v.with_f(0, Seq(())))
        else:
            I.store(s, q, v.with_f(0, norm(I, s, I.seq_slice(s, seq, n, l - n))))
            if I.cost: s.eff = s.eff + (("cost", l - n, 1, "drain"),)
        return [(s, UNIT)]
    for nm, f in (("clear", clear), ("len", ln), ("max_capacity", cap), ("is_empty", empty), ("extend_from_slice", ext), ("drain", drain)): I.ext[U + nm] = c(f)
    def index(I, s, args, dt, ref):
        if not isinstance(args[0], Ptr) or args[0].sl is not None: return NotImplemented
        q, v = buf_of(I, s, args[0])
        if not isbuf(v) or q.sl is not None: return NotImplemented
        if isinstance(args[1], Agg) and len(args[1].f) != 2: return NotImplemented
        def go(s):
            seq = v.f[0]; i = args[1]
            if isinstance(i, Agg):
                a, b = i.f[0], i.f[1]
                if not check(I, s, le(a, b), "slice start after end"): return []
                if not check(I, s, le(b, seq.length()), "slice end beyond the buffer"): return []
                return [(s, Ptr(q.al, q.path, (a, b - a)))]
            if not check(I, s, lt(i, seq.length()), "index beyond the buffer"): return []
            return [(s, Ptr(q.al, q.path + (("i", i),)))]
        return explore(I, s, go)
    I.ext["std::ops::Index::index"] = index

def norm(I, s, seq):
    """drop empty pieces"""
    out = []
    for g in seq.segs:
        l = seg_len(g)
        if s.facts.entails(eq(l, ZERO)): continue
        out.append(g)
    return Seq(tuple(out))
