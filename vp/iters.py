"""Consumption of slice iterators by a predicate or a fold: closed forms where the predicate is pure, inductive summaries otherwise."""
from .terms import *
from .interp import Unsupported, NeedSplit, Abort
from .models import rx, none, some
from . import loops

def explore(I, st, fn):
    """fn(state) -> outs, restarted with a refined state whenever it needs a case split"""
    pend = [st]; outs = []
    while pend:
        s = pend.pop()
        base = s.fork(); n0 = s.n
        np = len(I.panics)
        try: outs.extend(fn(s))
        except NeedSplit as e:
            del I.panics[np:]
            base.n = n0
            pend.extend(I.split(base, e.cond))
    return outs

def pure_pred(I, st, f, arg, dt):
    """the closure's result on a generic argument as one boolean, when it has no effect"""
    base = st.fork()
    np, nl, nu, nb = len(I.panics), len(I.loop_records), len(I.unsafe_ops), len(I.unsafe_bad)
    sv = I.nosplit; I.nosplit = 0
    try:
        outs = explore(I, base.fork(), lambda s: I.call_value(s, f, [arg], dt))
    except (Unsupported, Abort):
        return None
    finally:
        I.nosplit = sv
        ok = len(I.panics) == np and len(I.loop_records) == nl
        del I.panics[np:]; del I.loop_records[nl:]; del I.unsafe_ops[nu:]; del I.unsafe_bad[nb:]
    if not ok: return None
    res = False
    for s, v in outs:
        for k, x in base.store.items():
            if s.store.get(k) != x: return None
        new = [b for b in s.facts.bs if b not in base.facts.bs]
        if s.eff != base.eff: return None
        if not I.is_bool(v): return None
        res = b_or(res, b_and(v, *new))
    return res

def first_atom(phi_j, j):
    """least j >= 0 at which the element predicate holds (phi stated over the bound index j)"""
    return of_atom(atom("first", (phi_j,), 0, None))

J = atom("sym", ("j",), 0, None)
JL = of_atom(J)

def elem_ptr(p, i): return Ptr(p.al, p.path + (("i", p.sl[0] + i),))

@rx(r"^<std::slice::Iter<'a, T> as std::iter::(Iterator|ExactSizeIterator|DoubleEndedIterator)>::(position|any|all|find|rposition)$")
def m_search(I, st, args, dt, ref, at):
    m = (ref["rpath"] or ref["path"]).rsplit("::", 1)[1]
    itp = args[0]
    it = I.load(st, itp)
    if not (isinstance(it, Agg) and it.var == "iter"): return NotImplemented
    p = it.f[0]; n = p.sl[1]
    f = args[1]
    seq = None
    try: seq = I.load_slice(st, p)
    except NeedSplit: raise
    bt = I.p.ty("bool")
    if m != "rposition" and seq is not None and len(seq.segs) == 1 and seq.segs[0][0] == "sub":
        e = elem_ptr(p, JL)
        arg = e
        if m == "find":
            al = ("C", st.fresh("fnd")); st.store[al] = e; arg = Ptr(al)
        s0 = st.fork()
        s0.assume(lt(JL, n))
        # the predicate over a generic element of the sequence
        phi = pure_pred(I, s0, f, arg, bt)
        if phi is not None:
            want = neg(phi) if m == "all" else phi      # the event that stops the scan
            if want is False: F = None
            else: F = first_atom(want, J)
            if want is True:
                hit = st.decide(lt(ZERO, n)); F = ZERO
            elif F is None: hit = False
            else: hit = st.decide(lt(F, n))
            if hit:
                if want is not True:
                    if not st.assume(subst(want, {J: F})): return []
                    st.facts = st.facts.add_forall((J, ZERO, F, neg(want)))
                if I.cost: st.eff = st.eff + (("cost", F, 1, m),)
                I.store(st, itp, it.with_f(0, Ptr(p.al, p.path, (p.sl[0] + F + 1, n - F - 1))))
                if m == "position": return [(st, some(dt, F))]
                if m == "find": return [(st, some(dt, elem_ptr(p, F)))]
                return [(st, m == "any")]
            if want is not False and want is not True: st.facts = st.facts.add_forall((J, ZERO, n, neg(want)))
            if I.cost: st.eff = st.eff + (("cost", n, 1, m),)
            I.store(st, itp, it.with_f(0, Ptr(p.al, p.path, (p.sl[0] + n, ZERO))))
            if m in ("position", "find"): return [(st, none(dt))]
            return [(st, m == "all")]
    # general case
    kk = ("C", st.fresh("cnt")); st.store[kk] = ZERO
    fk = ("C", st.fresh("cl")); st.store[fk] = f
    def body(s):
        def step(s):
            it = I.load(s, itp); p = it.f[0]; n = p.sl[1]
            if s.decide(eq(n, ZERO)): return [("exit", "none", s)]
            if m == "rposition":
                e = elem_ptr(p, n - 1); rest = Ptr(p.al, p.path, (p.sl[0], n - 1))
            else:
                e = elem_ptr(p, ZERO); rest = Ptr(p.al, p.path, (p.sl[0] + 1, n - 1))
            I.store(s, itp, it.with_f(0, rest))
            a = e
            if m == "find":
                al = ("C", s.fresh("fnd")); s.store[al] = e; a = Ptr(al)
            outs = []
            for s2, v in I.call_value(s, Ptr(fk), [a], bt):
                outs.extend(split_bool(I, s2, v, lambda s3: [("exit", ("hit", e), s3)] if m != "all" else [back(s3)],
                                       lambda s3: [back(s3)] if m != "all" else [("exit", ("hit", e), s3)]))
            return outs
        def back(s):
            s.store[kk] = s.store[kk] + 1
            return ("back", s)
        return explore(I, s, step)
    res = []
    for o in loops.run(I, st, body, m, None, "", "slice iterator " + m):
        s = o[-1]; key = o[1]
        c = s.store.pop(kk); s.store.pop(fk, None)
        if key == "none":
            res.append((s, none(dt) if m in ("position", "find", "rposition") else m == "all"))
        else:
            if m in ("position", "rposition"): 
                if m == "rposition":
                    c = I.load(s, itp).f[0].sl[1]
                res.append((s, some(dt, c)))
            elif m == "find":
                p2 = I.load(s, itp).f[0]
                res.append((s, some(dt, Ptr(p2.al, p2.path + (("i", p2.sl[0] - 1),)))))
            else: res.append((s, m == "any"))
    return res

def split_bool(I, s, v, yes, no):
    if v is True: return yes(s)
    if v is False: return no(s)
    d = s.facts.decide(v)
    if d is True: return yes(s)
    if d is False: return no(s)
    out = []
    for c, k in ((v, yes), (neg(v), no)):
        if I.nosplit: raise Abort()
        s2 = s.fork()
        if s2.assume(c): out.extend(k(s2))
    return out

@rx(r"^<std::slice::Iter<'a, T> as std::iter::Iterator>::(for_each|fold|find_map)$")
def m_fold(I, st, args, dt, ref, at):
    m = (ref["rpath"] or ref["path"]).rsplit("::", 1)[1]
    it0 = args[0]
    ik = None
    if isinstance(it0, Ptr): ik = it0
    else:
        al = ("C", st.fresh("it")); st.store[al] = it0; ik = Ptr(al)
    it = I.load(st, ik)
    if not (isinstance(it, Agg) and it.var == "iter"): return NotImplemented
    acc = ("C", st.fresh("acc"))
    fk = ("C", st.fresh("cl"))
    if m == "fold": st.store[acc] = args[1]; st.store[fk] = args[2]
    else: st.store[acc] = UNIT; st.store[fk] = args[1]
    def body(s):
        def step(s):
            it = I.load(s, ik); p = it.f[0]; n = p.sl[1]
            if s.decide(eq(n, ZERO)): return [("exit", "end", s)]
            e = elem_ptr(p, ZERO)
            I.store(s, ik, it.with_f(0, Ptr(p.al, p.path, (p.sl[0] + 1, n - 1))))
            outs = []
            av = [s.store[acc], e] if m == "fold" else [e]
            for s2, v in I.call_value(s, Ptr(fk), av, dt):
                if m == "find_map":
                    d = I.discr_of(s2, v)
                    if d == ZERO: outs.append(("back", s2))
                    elif d == Lin(1): s2.store[acc] = v; outs.append(("exit", "hit", s2))
                    else: raise Unsupported("find_map over opaque option")
                    continue
                if m == "fold": s2.store[acc] = v
                outs.append(("back", s2))
            return outs
        return explore(I, s, step)
    res = unroll(I, st, body)
    if res is None: res = loops.run(I, st, body, m, None, "", "slice iterator " + m)
    out = []
    for o in res:
        s = o[-1]
        v = s.store.pop(acc)
        if m == "find_map" and o[1] == "end": v = none(dt)
        out.append((s, v))
    return out

def unroll(I, st, body, limit=64):
    if I.nosplit > 3: return None
    np, nl = len(I.panics), len(I.loop_records)
    I.nosplit += 1
    try:
        cur = [st.fork()]; outs = []
        for _ in range(limit):
            nxt = []
            for s in cur:
                for o in body(s): (nxt.append(o[1]) if o[0] == "back" else outs.append(o))
            if not nxt: return outs
            if len(nxt) > 1: break
            cur = nxt
    except Abort: pass
    finally: I.nosplit -= 1
    del I.panics[np:]; del I.loop_records[nl:]
    return None
