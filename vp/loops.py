"""Loop summaries: inductive invariants by template refinement (no unrolling), counters, folds, universal facts.

A loop is given as a Python callable body(state) -> [('back', state) | ('exit', key, state) | ('ret', state)].
The head state is generalised until the body maps it into itself; every claim attached to the head state is
checked to hold on entry and to be preserved by every path back to the head."""
import itertools
from .terms import *
from .facts import Facts
from .interp import Unsupported, Abort, NeedSplit

_ids = itertools.count(1)

class Rec:
    """what was established about one loop"""
    __slots__ = ("fn", "span", "entry", "head", "backs", "exits", "k", "leaves", "rank", "invs", "stack", "deltas", "kend")

class Leaf:
    __slots__ = ("name", "init", "sym", "kind")
    def __init__(self, name, init, sym_, kind): self.name, self.init, self.sym, self.kind = name, init, sym_, kind

class Gen:
    """generalises head values so that they cover the back values"""
    def __init__(self, tag):
        self.tag = tag
        self.leaves = {}          # leaf name -> Leaf
    def fresh(self, name, init, kind, ty=None):
        lf = self.leaves.get(name)
        if lf is None:
            nm = "%s.%s" % (self.tag, name)
            if kind == "int": s = sym(nm)
            elif kind == "bool": s = ("ba", atom("sym", (nm,), 0, 1))
            elif kind == "float": s = ("f", "sym", nm)
            elif kind == "symv": s = SymV(ty, nm)
            elif kind == "seq": s = nm
            lf = self.leaves[name] = Leaf(name, init, s, kind)
        return lf.sym
    def join(self, h, b, v0, name):
        """h: current head value, b: value at a back edge, v0: value on entry"""
        if h == b: return h
        if isinstance(h, Lin) and isinstance(b, Lin):
            if name in self.leaves: return h
            return self.fresh(name, h, "int")
        if isbool(h) and isbool(b):
            if name in self.leaves: return h
            return self.fresh(name, h, "bool")
        if isinstance(h, tuple) and h and h[0] == "f" and isinstance(b, tuple) and b and b[0] == "f":
            if name in self.leaves: return h
            return self.fresh(name, h, "float")
        if isinstance(h, Agg) and isinstance(b, Agg) and h.ty == b.ty and h.var == b.var and len(h.f) == len(b.f):
            return Agg(h.ty, h.var, tuple(self.join(x, y, (v0.f[i] if isinstance(v0, Agg) and i < len(v0.f) else None), "%s.%d" % (name, i)) for i, (x, y) in enumerate(zip(h.f, b.f))))
        if isinstance(h, Clo) and isinstance(b, Clo) and h.key == b.key:
            return Clo(h.key, tuple(self.join(x, y, None, "%s.%d" % (name, i)) for i, (x, y) in enumerate(zip(h.up, b.up))), h.ty)
        if isinstance(h, Ptr) and isinstance(b, Ptr) and h.al == b.al and len(h.path) == len(b.path):
            p = []
            for i, (x, y) in enumerate(zip(h.path, b.path)):
                if x == y: p.append(x)
                elif x[0] == "i" and y[0] == "i": p.append(("i", self.join(x[1], y[1], None, "%s[%d]" % (name, i))))
                else: raise Unsupported("loop pointer %r / %r" % (h, b))
            sl = h.sl
            if h.sl != b.sl:
                if h.sl is None or b.sl is None: raise Unsupported("loop pointer metadata")
                sl = (self.join(h.sl[0], b.sl[0], None, name + ".off"), self.join(h.sl[1], b.sl[1], None, name + ".len"))
            return Ptr(h.al, tuple(p), sl)
        if isinstance(h, Seq) and isinstance(b, Seq):
            lf = self.leaves.get(name)
            if lf is not None and lf.kind in ("acc", "seq"): 
                if lf.kind == "acc":
                    # head is init ++ acc; still an extension of it?
                    if is_prefix(h, b): return h
                    # fall back to a fully unknown content
                    lf.kind = "seq"
                    return self.seq_any(name, lf.init)
                return h
            if is_prefix(h, b):
                lf = Leaf(name, h, "%s.%s.acc" % (self.tag, name), "acc")
                self.leaves[name] = lf
                n = self.fresh(name + ".#", ZERO, "int")
                return h + Seq((("sub", lf.sym, ZERO, n),))
            self.leaves[name] = Leaf(name, h, None, "seq")
            return self.seq_any(name, h)
        if isinstance(h, (Agg, SymV)) and isinstance(b, (Agg, SymV)) and isinstance(h.ty, int):
            if isinstance(h, SymV) and name in self.leaves: return h
            return self.fresh(name, h, "symv", h.ty)
        raise Unsupported("loop-carried value changes shape: %r / %r at %s" % (h, b, name))
    def seq_any(self, name, init):
        n = init.length()
        ln = n if n.is_const() else self.fresh(name + ".#n", n, "int")
        return Seq((("sub", "%s.%s.any" % (self.tag, name), ZERO, ln),))

def isbool(v):
    return v is True or v is False or (isinstance(v, tuple) and v and v[0] in ("le", "eq", "ne", "ba", "nba", "and", "or"))

def is_prefix(a, b):
    """b == a ++ something (syntactically)"""
    sa, sb = a.segs, b.segs
    if not sa: return True
    if len(sb) < len(sa): return False
    if sa[:-1] != sb[:len(sa) - 1]: return False
    x, y = sa[-1], sb[len(sa) - 1]
    if x == y: return True
    if x[0] == y[0] == "lit": return y[1][:len(x[1])] == x[1]
    if x[0] == y[0] == "sub" and x[1] == y[1] and x[2] == y[2]: return len(sb) == len(sa) or True
    return False
def suffix_after(a, b):
    """the part of b after prefix a"""
    sa, sb = a.segs, b.segs
    if not sa: return b
    x, y = sa[-1], sb[len(sa) - 1]
    rest = sb[len(sa):]
    if x == y: return Seq(rest)
    if x[0] == "lit": return Seq((("lit", y[1][len(x[1]):]),) + rest)
    return Seq((("sub", y[1], x[2] + x[3], y[3] - x[3]),) + rest)

def get_leaf(st, name_map): pass

def subst_state(st, m):
    if not m: return
    for k, v in list(st.store.items()):
        if v is not None:
            nv = subst(v, m)
            if nv is not v: st.store[k] = nv
    st.facts = subst_facts(st.facts, m)
    if st.eff: st.eff = tuple(subst(e, m) for e in st.eff)

def subst_facts(f, m):
    g = Facts(foralls=tuple(subst_fa(x, m) for x in f.foralls))
    r = g.add(*[subst(b, m) for b in f.bs])
    if r is None: return Facts((False,)) if False else CONTRA
    return r
CONTRA = Facts((("le", Lin(1)),))
def subst_fa(fa, m):
    v, lo, hi, phi = fa
    return (v, subst(lo, m), subst(hi, m), subst(phi, {a: l for a, l in m.items() if a is not v}))

def leaf_values(gen, head, st, live):
    """values of the generalised leaves in another state, by walking head and st together"""
    out = {}
    def walk(h, b, name):
        if name in gen.leaves:
            lf = gen.leaves[name]
            if lf.kind in ("int", "bool", "float", "symv"):
                out[name] = b; return
            if lf.kind == "acc":
                if isinstance(b, Seq) and is_prefix(lf.init, b):
                    acc = suffix_after(lf.init, b)
                    out[name] = acc; out[name + ".#"] = acc.length(); return
                raise Unsupported("loop accumulator")
            if lf.kind == "seq":
                out[name] = b
                if name + ".#n" in gen.leaves: out[name + ".#n"] = b.length()
                return
        if isinstance(h, Agg) and isinstance(b, Agg) and len(h.f) == len(b.f):
            for i, (x, y) in enumerate(zip(h.f, b.f)): walk(x, y, "%s.%d" % (name, i))
        elif isinstance(h, Clo) and isinstance(b, Clo):
            for i, (x, y) in enumerate(zip(h.up, b.up)): walk(x, y, "%s.%d" % (name, i))
        elif isinstance(h, Ptr) and isinstance(b, Ptr):
            for i, (x, y) in enumerate(zip(h.path, b.path)):
                if x[0] == "i": walk(x[1], y[1], "%s[%d]" % (name, i))
            if h.sl is not None:
                walk(h.sl[0], b.sl[0], name + ".off"); walk(h.sl[1], b.sl[1], name + ".len")
    for k in live:
        if k in head.store and head.store[k] is not None: walk(head.store[k], st.store.get(k), kname(k))
    return out

def kname(k): return "%s%s" % (k[0], "_".join(str(x) for x in k[1:])) if k[0] in "LC" else "%s" % (k,)

class SpecFail(Exception): pass

def run(interp, st0, body, tag, live=None, span="", fn=""):
    """returns the list of exits of the generalised loop"""
    I = interp
    np, nl, nu, nb = len(I.panics), len(I.loop_records), len(I.unsafe_ops), len(I.unsafe_bad)
    base = st0.fork()
    for spec, over in ((True, True), (True, False), (False, False)):
        try: return run1(I, base.fork(), body, tag, live, span, fn, spec, over)
        except SpecFail:
            if not spec and not over: raise
            del I.panics[np:]; del I.loop_records[nl:]; del I.unsafe_ops[nu:]; del I.unsafe_bad[nb:]

def run1(interp, st0, body, tag, live, span, fn, spec, over):
    I = interp
    speculated = False
    uid = "%s#%d" % (tag, next(_ids))
    entry = st0
    keys = [k for k, v in st0.store.items() if v is not None and k[0] != "K"] if live is None else live
    gen = Gen(uid)
    head_store = {k: st0.store[k] for k in st0.store}
    # --- 1. find which leaves change
    def attempt(hs, facts):
        h = st0.fork(); h.store = dict(hs); h.facts = facts
        np, nl = len(I.panics), len(I.loop_records)
        nu, nb = len(I.unsafe_ops), len(I.unsafe_bad)
        outs = body(h.fork())
        return h, outs, (np, nl, nu, nb)
    def rollback(m):
        del I.panics[m[0]:]; del I.loop_records[m[1]:]; del I.unsafe_ops[m[2]:]; del I.unsafe_bad[m[3]:]
    for rnd in range(30):
        h, outs, mark = attempt(head_store, st0.facts)
        backs = [o[1] for o in outs if o[0] == "back"]
        if not backs: return outs
        nstore = dict(head_store)
        for b in backs:
            for k in keys:
                if k not in b.store or b.store[k] is None:
                    nstore.pop(k, None); continue
                if k not in nstore: continue
                nstore[k] = gen.join(nstore[k], b.store[k], st0.store.get(k), kname(k))
        rollback(mark)
        if nstore == head_store: break
        head_store = nstore
    else: raise Unsupported("loop generalisation does not converge in " + fn)
    keys = [k for k in keys if k in head_store]
    # facts about modified leaves do not survive: facts mention old values (initial symbols), which stay valid
    # --- 2. constant deltas
    vals = [leaf_values(gen, h, b, keys) for b in backs]
    kat = sym("%s.k" % uid, 0, None)
    deltas = {}
    for n, lf in gen.leaves.items():
        if lf.kind != "int": continue
        ds = set()
        for v in vals:
            x = v.get(n)
            ds.add((x - lf.sym) if isinstance(x, Lin) else None)
        if len(ds) == 1:
            d = next(iter(ds))
            if d is not None and d.is_const(): deltas[n] = d.c
        if n not in deltas and spec:
            # guess that the one constant step is the only one that happens; verified below
            cs = {d.c for d in ds if d is not None and d.is_const()}
            for v in vals:
                x = v.get(n)
                # a step that only an unproved bound keeps from being plain
                if isinstance(x, Lin) and x.c == 0 and len(x.m) == 1 and x.m[0][1] == 1 and x.m[0][0].kind == "wrap":
                    d = x.m[0][0].args[2] - lf.sym
                    w = x.m[0][0].args[0]
                    if d.is_const(): cs.add(d.c - (1 << w) if d.c >> (w - 1) == 1 else d.c)
            if len(cs) == 1 and 0 not in cs: deltas[n] = next(iter(cs)); speculated = True
    m = {}
    for n, d in deltas.items():
        lf = gen.leaves[n]
        m[lf.sym.m[0][0]] = lf.init + kat * d
    head_store = {k: (subst(v, m) if v is not None else None) for k, v in head_store.items()}
    free = [n for n, lf in gen.leaves.items() if lf.kind == "int" and n not in deltas]
    # --- 3. candidate invariants
    h0 = st0.fork(); h0.store = dict(head_store)
    h, outs, mark = attempt(head_store, st0.facts)
    backs = [o[1] for o in outs if o[0] == "back"]
    rollback(mark)
    init_map = {gen.leaves[n].sym.m[0][0]: gen.leaves[n].init for n in free}
    init_map[kat.m[0][0]] = ZERO
    sub_m = m
    # initial values may themselves mention other leaves' initial values only -> fine
    cands = candidates(I, gen, free, kat, deltas, st0, h, backs, keys, head_store, init_map)
    # entry check
    cands = [c for c in cands if st0.facts.entails(subst(c, init_map))]
    # --- 3b. sequences overwritten in place, one element a round
    writes = {}
    if over:
        vals = [leaf_values(gen, h, b, keys) for b in backs]
        for n, lf in gen.leaves.items():
            if lf.kind == "seq":
                w = overwritten(lf, "%s.%s.any" % (uid, n), [v.get(n) for v in vals], kat, uid, st0)
                if w is not None: writes[n] = w
    if writes:
        mp = {"%s.%s.any" % (uid, n): w for n, w in writes.items()}
        for kk in keys: head_store[kk] = put_written(head_store[kk], mp)
        for n, w in writes.items():
            c = le(w[0] + kat, gen.leaves[n].init.length())
            if c is not True and c not in cands: cands.append(c)
    # --- 4. Houdini
    for rnd in range(40):
        f = st0.facts.add(*cands)
        if f is None: raise Unsupported("contradictory loop entry")
        h, outs, mark = attempt(head_store, f)
        if speculated: outs = [o for o in outs if not o[-1].facts.contradictory()]
        backs = [o[1] for o in outs if o[0] == "back"]
        bad = set()
        for b in backs:
            v = leaf_values(gen, h, b, keys)
            bm = {kat.m[0][0]: kat + 1}
            for n in free: bm[gen.leaves[n].sym.m[0][0]] = v.get(n) if isinstance(v.get(n), Lin) else sym("%s.unknown.%s" % (uid, n))
            for n, lf in gen.leaves.items():
                if lf.kind == "bool" and n in v: bm[lf.sym[1]] = v[n]
            for i, c in enumerate(cands):
                if i in bad: continue
                if not b.facts.entails(subst_c(c, bm)): bad.add(i)
        if not bad:
            # the counters must still step by their constant
            for b in backs:
                v = leaf_values(gen, h, b, keys)
                for n, d in deltas.items():
                    x = v.get(n)
                    want = subst(gen.leaves[n].sym, m) + d
                    if not (isinstance(x, Lin) and (x == want or b.facts.entails(eq(x, want)))):
                        if speculated or writes: raise SpecFail()
                        raise Unsupported("counter delta not stable for %s in %s" % (n, fn))
                for n, w in writes.items():
                    if not same_seq(b, v.get(n), w[1](kat + 1)): raise SpecFail()
            break
        cands = [c for i, c in enumerate(cands) if i not in bad]
        rollback(mark)
    else: raise Unsupported("invariant refinement does not converge in " + fn)
    # --- 5. derived closed forms and universal facts
    closed = folds(I, gen, kat, deltas, h, backs, keys, free, uid, m)
    fas = foralls(I, gen, kat, h, backs, uid, free)
    rank = ranking(gen, kat, deltas, free, h, backs, keys)
    rec = Rec()
    rec.fn, rec.span, rec.entry, rec.head, rec.backs, rec.k, rec.leaves, rec.rank, rec.invs = fn, span, st0, h, backs, kat, gen.leaves, rank, list(cands)
    rec.stack = tuple(g["path"] for g in I.stack); rec.deltas = deltas
    res = []; kend = rec.kend = []
    for o in outs:
        if o[0] == "back": continue
        s = o[-1]
        mm = dict(closed)
        for fa in fas: s.facts = s.facts.add_forall(fa)
        if I.cost: s.eff = s.eff + (("cost", kat, I.cost_weight(st0, backs), span or fn),)
        subst_state(s, mm) if mm else None
        sub_seqs(s, gen, closed_seqs=folds_seq(I, gen, kat, h, backs, keys))
        e = solve_k(s, kat.m[0][0], init_map)
        kend.append(e)
        if e is not None: subst_state(s, {kat.m[0][0]: e})
        if s.facts is CONTRA: continue
        if backs and backs[0].eff != st0.eff and s.eff[:len(st0.eff)] == st0.eff:
            per = tuple(b.eff[len(st0.eff):] for b in backs)
            s.eff = st0.eff + (("loop", kat, per),) + s.eff[len(st0.eff):]
        res.append(o)
    rec.exits = res
    I.loop_records.append(rec)
    return res

def overwritten(lf, name, backs, kat, uid, st0):
    """(base, k -> content after k rounds) when every round writes element base + k with element c + k of a sequence that stays as it is"""
    if not backs or len(lf.init.segs) != 1 or lf.init.segs[0][0] not in ("sub", "rep"): return None
    k = kat.m[0][0]; got = set()
    def inv(l): return isinstance(l, Lin) and not any(a is k or uid in str(a.args) for a in atoms_of(l))
    for b in backs:
        if not isinstance(b, Seq): return None
        pos = ZERO; hit = None
        for g in b.segs:
            if g[0] == "sub" and g[1] == name and g[2] == pos: pass
            elif g[0] == "lit" and len(g[1]) == 1 and hit is None: hit = (pos, g[1][0])
            else: return None
            pos = pos + seg_len(g)
        if hit is None: return None
        got.add(hit)
    if len(got) != 1: return None
    at, e = next(iter(got))
    base = at - kat; n = lf.init.length(); g = lf.init.segs[0]
    if not inv(base): return None
    def part(o, l): return (("sub", g[1], g[2] + o, l),) if g[0] == "sub" else (("rep", g[1], l),)
    if not isinstance(e, Lin): return None
    if inv(e): mid = lambda q: (("rep", e, q),)
    elif e.c == 0 and len(e.m) == 1 and e.m[0][1] == 1 and e.m[0][0].kind == "el":
        x, idx = e.m[0][0].args; c = idx - kat
        if not inv(c) or (isinstance(x, str) and uid in x and x != name): return None
        if x == name:
            # read ahead of the writing position: still the initial element
            if g[0] != "sub" or not st0.facts.entails(le(base, c)): return None
            x, c = g[1], g[2] + c
        elif g[0] == "sub" and x == g[1]: return None
        mid = lambda q: (("sub", x, c, q),)
    else: return None
    return base, (lambda q: Seq(part(ZERO, base) + mid(q) + part(base + q, n - base - q))), kat
def put_written(v, m):
    if isinstance(v, Seq):
        if len(v.segs) == 1 and v.segs[0][0] == "sub" and v.segs[0][1] in m:
            w = m[v.segs[0][1]]; return w[1](w[2])
        return v
    if isinstance(v, Agg): return Agg(v.ty, v.var, tuple(put_written(x, m) for x in v.f))
    if isinstance(v, Clo): return Clo(v.key, tuple(put_written(x, m) for x in v.up), v.ty)
    return v
def same_seq(s, a, b):
    """the same content, up to how it is cut into pieces"""
    if not isinstance(a, Seq): return False
    def canon(q):
        out = []
        for g in q.segs:
            if s.facts.entails(eq(seg_len(g), ZERO)): continue
            if g[0] == "lit":
                for e in g[1]:
                    if isinstance(e, Lin) and e.c == 0 and len(e.m) == 1 and e.m[0][1] == 1 and e.m[0][0].kind == "el": out.append(["sub", e.m[0][0].args[0], e.m[0][0].args[1], Lin(1)])
                    else: out.append(["rep", e, Lin(1)])
                    join(out)
            else: out.append(list(g)); join(out)
        return out
    def join(out):
        if len(out) < 2 or out[-1][0] != out[-2][0] or out[-1][1] != out[-2][1]: return
        x, y = out[-2], out[-1]
        if x[0] == "rep": x[2] = x[2] + y[2]; out.pop()
        elif s.facts.entails(eq(x[2] + x[3], y[2])): x[3] = x[3] + y[3]; out.pop()
    x, y = canon(a), canon(b)
    return len(x) == len(y) and all(p[0] == q[0] and p[1] == q[1] and all(s.facts.entails(eq(u, w)) for u, w in zip(p[2:], q[2:])) for p, q in zip(x, y))

def subst_c(c, m):
    return subst(c, m)

def solve_k(s, k, init_map):
    """a loop-invariant expression equal to the counter in this state, if determined"""
    kl = of_atom(k)
    for b in s.facts.bs:
        if b[0] == "eq":
            for a, c in b[1].m:
                if a is k and abs(c) == 1:
                    e = (b[1] - kl * c) * (-c)
                    if k not in e.atoms(): return e
    cands = []
    for b in s.facts.bs:
        if b[0] == "le":
            for a, c in b[1].m:
                if a is k and abs(c) == 1:
                    cands.append(((b[1] - kl * c) * (-c), c))
    tried = set()
    for e, c in cands:
        if e in tried or k in e.atoms(): continue
        tried.add(e)
        # c>0: k <= e ; c<0: k >= e
        if s.facts.entails(le(e, kl) if c > 0 else le(kl, e)): return e
    if s.facts.entails(eq(kl, ZERO)): return ZERO
    return None

def candidates(I, gen, free, kat, deltas, st0, h, backs, keys, head_store, init_map):
    out = []
    def add(c):
        if c is True or c is False: return
        if c not in out: out.append(c)
    k = kat.m[0][0]
    leafsyms = {gen.leaves[n].sym.m[0][0]: n for n in free}
    hav = set(leafsyms) | {k}
    # lengths and other loop-invariant quantities in the state
    bounds = []
    def addb(l):
        if isinstance(l, Lin) and not any(a in hav for a in l.atoms()) and l not in bounds: bounds.append(l)
    def scan(v, d=0):
        if isinstance(v, Lin):
            if v.m: addb(v)
        elif isinstance(v, Seq): addb(v.length())
        elif isinstance(v, Agg):
            for x in v.f: scan(x, d + 1)
        elif isinstance(v, Clo):
            for x in v.up: scan(x, d + 1)
        elif isinstance(v, Ptr) and v.sl:
            if k in v.sl[1].atoms(): add(le(ZERO, v.sl[1]))
            scan(v.sl[1])
    for kk in keys: scan(head_store.get(kk))
    for n in free: addb(gen.leaves[n].init)
    # guards: linear facts on back paths over head quantities, shifted by one step of the counter
    h0 = set(h.facts.bs)
    common = None
    for b in backs:
        new = [x for x in b.facts.bs if x not in h0]
        flat = set()
        for x in new:
            if x[0] in ("le", "eq", "ne"): flat.add(x)
        for x in flat:
            if any(a is k for a in x[1].atoms()) and x[0] == "le":
                add(subst(x, {k: kat - 1}))
    for n, d in deltas.items():
        if d < 0: add(le(ZERO, gen.leaves[n].init + kat * d))
    for n in free:
        x = gen.leaves[n].sym; x0 = gen.leaves[n].init
        add(le(x0, x)); add(le(x, x0))
        add(le(ZERO, x))
        for w in (8, 16, 32, 64): add(le(x, Lin((1 << w) - 1)))
        for w in (8, 16, 32, 64):
            add(le(x, Lin((1 << (w - 1)) - 1))); add(le(Lin(-(1 << (w - 1))), x))
        for e in bounds[:24]:
            add(le(x, e)); 
        # relation to counters
        add(le(x0 + kat, x)); add(le(x, x0 + kat))
    # relations between free leaves
    for n1, n2 in itertools.combinations(free, 2):
        a, b = gen.leaves[n1], gen.leaves[n2]
        add(eq(a.sym - a.init, b.sym - b.init)); add(eq(a.sym - a.init, b.init - b.sym))
        add(le(a.sym, b.sym)); add(le(b.sym, a.sym))
        add(le(a.sym + b.sym, a.init + b.init)); add(le(a.init + b.init, a.sym + b.sym))
    # strides
    for n in free:
        x = gen.leaves[n].sym; x0 = gen.leaves[n].init
        vals = []
        # one half must be exhausted before the other moves
        for n2 in free:
            if n2 == n: continue
            y = gen.leaves[n2].sym
            for e in bounds[:12]:
                add(b_or(eq(x, x0), eq(y, e)))
    return out

def folds(I, gen, kat, deltas, h, backs, keys, free, uid, m):
    """closed forms for accumulators: sums of bytes and sums of sums (mod 2^w)"""
    out = {}
    vals = [leaf_values(gen, h, b, keys) for b in backs]
    if len(backs) < 1: return out
    k = kat.m[0][0]
    first = {}
    for n in free:
        x = gen.leaves[n].sym
        vs = {v.get(n) for v in vals}
        if len(vs) != 1: continue
        v = next(iter(vs))
        if not isinstance(v, Lin) or len(v.m) != 1 or v.c or v.m[0][1] != 1 or v.m[0][0].kind != "wrap": continue
        bits, sg, inner = v.m[0][0].args
        if sg: continue
        rest = inner - x
        first[n] = (bits, rest)
    sums = {}
    for n, (bits, rest) in first.items():
        # byte accumulator: rest == el(base, o + k)
        if rest.c == 0 and len(rest.m) == 1 and rest.m[0][1] == 1 and rest.m[0][0].kind == "el":
            e = rest.m[0][0]
            base, idx = e.args
            o = idx - kat
            if k in o.atoms() or any(a.kind == "sym" and str(a.args[0]).startswith(uid) for a in o.atoms()): continue
            sums[n] = (bits, base, o, e)
    for n, (bits, base, o, e) in sums.items():
        lf = gen.leaves[n]
        seg = Seq((("sub", base, o, kat),))
        out[lf.sym.m[0][0]] = wrap(lf.init + fold1(seg), bits, False)
        for n2, (bits2, rest2) in first.items():
            if n2 == n or bits2 > bits: continue
            # second-order accumulator: rest == a + e
            if rest2 == lf.sym + of_atom(e):
                l2 = gen.leaves[n2]
                prod = mul_l(kat, lf.init)
                out[l2.sym.m[0][0]] = wrap(l2.init + prod + fold2(seg), bits2, False)
    return out

def fold1(seq):
    """sum of the bytes of a sequence"""
    return fold_expand(seq, 1)
def fold2(seq):
    """sum of all prefix sums"""
    return fold_expand(seq, 2)
def fold_expand(seq, order):
    if all(s[0] == "lit" for s in seq.segs):
        els = [e for s in seq.segs for e in s[1]]
        l = ZERO
        for i, e in enumerate(els): l = l + e * (1 if order == 1 else len(els) - i)
        return l
    return of_atom(atom("S%d" % order, (seq,), 0, None))
def mul_l(a, b):
    if b.is_const(): return a * b.c
    if a.is_const(): return b * a.c
    x, y = sorted((a, b), key=show)
    return of_atom(atom("mul", (x, y)))

def folds_seq(I, gen, kat, h, backs, keys):
    """accumulated sequences whose k-th element is the k-th element of a fixed sequence"""
    out = {}
    accs = [n for n, lf in gen.leaves.items() if lf.kind == "acc"]
    if not accs: return out
    vals = [leaf_values(gen, h, b, keys) for b in backs]
    for n in accs:
        lf = gen.leaves[n]
        hs = set()
        for v in vals:
            acc = v.get(n)
            cur = Seq((("sub", lf.sym, ZERO, gen.leaves[n + ".#"].sym),))
            hs.add(acc)
        if len(hs) != 1: continue
        acc = next(iter(hs))
        segs = acc.segs
        if len(segs) == 2 and segs[0][0] == "sub" and segs[0][1] == lf.sym and segs[1][0] == "lit" and len(segs[1][1]) == 1:
            e = segs[1][1][0]
            if isinstance(e, Lin) and e.c == 0 and len(e.m) == 1 and e.m[0][1] == 1 and e.m[0][0].kind == "el":
                base, idx = e.m[0][0].args
                o = idx - kat
                if kat.m[0][0] not in o.atoms(): out[lf.sym] = (base, o)
    return out
def sub_seqs(s, gen, closed_seqs):
    if not closed_seqs: return
    for k, v in list(s.store.items()):
        if v is not None: s.store[k] = map_seq(v, closed_seqs)
def map_seq(v, m):
    if isinstance(v, Seq):
        return Seq(tuple(("sub", m[x[1]][0], m[x[1]][1] + x[2], x[3]) if x[0] == "sub" and x[1] in m else x for x in v.segs))
    if isinstance(v, Agg): return Agg(v.ty, v.var, tuple(map_seq(x, m) for x in v.f))
    return v

def foralls(I, gen, kat, h, backs, uid, free):
    """facts that held on every completed iteration, as universal facts over the iteration number"""
    if not backs: return []
    h0 = set(h.facts.bs)
    k = kat.m[0][0]
    freeat = {gen.leaves[n].sym.m[0][0] for n in gen.leaves if gen.leaves[n].kind == "int" and n in free}
    for lf in gen.leaves.values():
        if lf.kind == "bool": freeat.add(lf.sym[1])
    common = set()
    for b in backs:
        for x in b.facts.bs:
            if x in h0 or x in common: continue
            ats = atoms_of(x)
            if k in ats and not (ats & freeat) and all(b2.facts.entails(x) for b2 in backs if b2 is not b): common.add(x)
    out = []
    for x in sorted(common, key=show):
        ats = atoms_of(x)
        if k in ats and not (ats & freeat):
            used = {a.args[0] for a in ats if a.kind == "sym"}
            j = next(atom("sym", (nm,), 0, None) for nm in ("j", "i", "i2", "i3", "i4") if nm not in used)
            out.append((j, ZERO, kat, subst(x, {k: of_atom(j)})))
    # universal facts of nested searches stay attached to the back states; not propagated
    return out

def ranking(gen, kat, deltas, free, h, backs, keys):
    """a reason why the loop ends: (description) or None"""
    k = kat.m[0][0]
    if not backs: return "no iteration"
    # counter bounded by a loop-invariant quantity on every back path
    def bounded_counter():
        for b in backs:
            ok = False
            for x in b.facts.bs:
                if x[0] == "le" and any(a is k and c > 0 for a, c in x[1].m):
                    rest = [a for a, c in x[1].m if a is not k]
                    if not any(str(a.args[0]).startswith(str(k.args[0])[:-2]) for a in rest if a.kind == "sym"):
                        ok = True; break
            if not ok: return False
        return True
    if bounded_counter(): return "counter bounded by a loop-invariant quantity"
    vals = [leaf_values(gen, h, b, keys) for b in backs]
    measures = [[n] for n in free] + [list(c) for c in itertools.combinations(free, 2)]
    for ms in measures:
        hx = ZERO
        for n in ms: hx = hx + gen.leaves[n].sym
        for sgn in (1, -1):
            ok = True
            for b, v in zip(backs, vals):
                bx = ZERO
                for n in ms:
                    if not isinstance(v.get(n), Lin): ok = False; break
                    bx = bx + v[n]
                if not ok: break
                # strictly increasing towards an invariant bound / decreasing towards 0
                if sgn > 0:
                    if not b.facts.entails(le(hx + 1, bx)): ok = False; break
                else:
                    if not b.facts.entails(le(bx + 1, hx)): ok = False; break
            if not ok: continue
            # boundedness
            if sgn < 0:
                if h.facts.entails(le(ZERO, hx)): return "decreasing: " + show(hx)
            else:
                ubs = []
                for c in h.facts.bs:
                    pass
                lim = True
                for n in ms:
                    x = gen.leaves[n].sym.m[0][0]
                    found = False
                    for c in h.facts.bs:
                        if c[0] == "le" and any(a is x and q > 0 for a, q in c[1].m) and not any(a is not x and a.kind == "sym" and str(a.args[0]).startswith(gen.tag) for a, q in c[1].m):
                            found = True; break
                    if not found: lim = False; break
                if lim: return "increasing below an invariant bound: " + show(hx)
    return None

def summarise(interp, fr, head, blocks, st):
    I = interp
    live = I.p.live_in(fr.f)[head]
    st = st.fork()
    for k in list(st.store):
        if k[0] == "L" and k[1] == fr.id and k[2] not in live and not referenced(st, k): del st.store[k]
    def body(s):
        return I.exec_region(fr, head, s, (head, blocks))
    blk = fr.f["blocks"][head]
    return run(I, st, body, fr.f["path"].rsplit("::", 1)[-1], None, blk["sp"], fr.f["path"])

def referenced(st, key):
    """some pointer in the store points to this allocation"""
    def has(v):
        if isinstance(v, Ptr): return v.al == key
        if isinstance(v, Agg): return any(has(x) for x in v.f)
        if isinstance(v, Clo): return any(has(x) for x in v.up)
        if isinstance(v, Seq): return any(has(e) for s in v.segs if s[0] == "lit" for e in s[1])
        return False
    return any(k != key and v is not None and has(v) for k, v in st.store.items())
