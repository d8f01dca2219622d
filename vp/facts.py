"""Linear-relational abstract domain: conjunctions of linear constraints over integer atoms, opaque
booleans, disjunctive clauses and bounded universal facts. Entailment is decided by the domain's own
emptiness test (rational polyhedra with integer tightening and limited case splits)."""
from fractions import Fraction
from .terms import *

CACHE = {}
STATS = {"lp": 0, "hit": 0}

def atom_axioms(a):
    """constraints that always hold about an atom"""
    out = []
    if a.kind == "div":                      # floor(x / c), c > 0 const
        x, c = a.args
        q = of_atom(a)
        out.append(q * c - x)                # c*q <= x
        out.append(x - q * c - (c - 1))      # x <= c*q + c-1
    elif a.kind == "fld":
        b, lo, w = a.args
        n = width(b)
        if n is not None:
            q = of_atom(a) * (1 << lo)
            # b = high*2^(lo+w) + q + low
            out.append(q - of_atom(b))       # field part never exceeds the whole
            if lo + w == n:
                out.append(of_atom(b) - q - ((1 << lo) - 1))
    elif a.kind == "min2":
        x, y = a.args
        m = of_atom(a)
        out += [m - x, m - y]
    elif a.kind == "max2":
        x, y = a.args
        m = of_atom(a)
        out += [x - m, y - m]
    elif a.kind == "wrap":
        pass
    return out

def feasible(les, eqs):
    """rational feasibility with integer tightening of {l<=0} and {l==0}; False means certainly empty"""
    # closure over axioms
    les = list(les); eqs = list(eqs)
    seen = set()
    work = [l for l in les + eqs]
    while work:
        l = work.pop()
        for a in l.atoms():
            if a in seen: continue
            seen.add(a)
            for ax in atom_axioms(a):
                les.append(ax); work.append(ax)
    key = (frozenset(les), frozenset(eqs))
    r = CACHE.get(key)
    if r is not None:
        STATS["hit"] += 1
        return r
    STATS["lp"] += 1
    r = _feasible(les, eqs, seen)
    CACHE[key] = r
    return r

def _feasible(les, eqs, seen):
    cons = [("eq", l) for l in eqs] + [("le", l) for l in les]
    # ranges as constraints
    for a in seen:
        if a.lo is not None: cons.append(("le", Lin(a.lo, ((a, -1),))))
        if a.hi is not None: cons.append(("le", Lin(-a.hi, ((a, 1),))))
    eqs = [l for k, l in cons if k == "eq"]
    les = [l for k, l in cons if k == "le"]
    # eliminate equalities with a unit coefficient
    while eqs:
        e = None
        for cand in eqs:
            if any(abs(k) == 1 for _, k in cand.m): e = cand; break
        if e is None:
            c2 = []
            changed = False
            for l in eqs:
                if not l.m:
                    if l.c != 0: return False
                    changed = True
                    continue
                g = gcd_all(l)
                if l.c % g: return False
                n = Lin(l.c // g, tuple((a, k // g) for a, k in l.m))
                if n != l: changed = True
                c2.append(n)
            eqs = c2
            if not changed: break
            continue
        eqs.remove(e)
        a, k = next((a, k) for a, k in e.m if abs(k) == 1)
        # a = -(e - k a)/k
        rest = Lin(e.c, tuple((x, c) for x, c in e.m if x is not a)) * (-k)
        def sub(l):
            for x, c in l.m:
                if x is a:
                    return Lin(l.c, tuple((y, d) for y, d in l.m if y is not a)) + rest * c
            return l
        eqs = [sub(l) for l in eqs]
        les = [sub(l) for l in les]
        e2 = []
        for l in eqs:
            if not l.m:
                if l.c != 0: return False
            else: e2.append(l)
        eqs = e2
    tight = {}
    for l in les:
        if not l.m:
            if l.c > 0: return False
            continue
        g = gcd_all(l)
        if g > 1: l = Lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.m))
        o = tight.get(l.m)
        if o is None or o < l.c: tight[l.m] = l.c
    for m, c in tight.items():
        nm = tuple((a, -k) for a, k in m)
        if nm in tight and c + tight[nm] > 0: return False
    return simplex(tight, eqs)

def simplex(tight, eqs):
    """general simplex (bounds on variables and on slack rows), exact rationals"""
    lo = {}; hi = {}; rows = {}
    nslack = 0
    def bound(v, l, h):
        if l is not None and (lo.get(v) is None or lo[v] < l): lo[v] = l
        if h is not None and (hi.get(v) is None or hi[v] > h): hi[v] = h
    forms = {}
    for m, c in list(tight.items()) + [(e.m, None) for e in eqs]:
        pass
    def add(m, c, iseq):
        nonlocal nslack
        if len(m) == 1:
            a, k = m[0]
            b = Fraction(-c, k)
            if iseq: bound(a, b, b)
            elif k > 0: bound(a, None, b)
            else: bound(a, b, None)
            return
        # normalise sign so that m and -m share a row
        s = 1
        if m[0][1] < 0: s = -1
        key = tuple((a, k * s) for a, k in m)
        v = forms.get(key)
        if v is None:
            v = ("s", nslack); nslack += 1
            forms[key] = v
            rows[v] = {a: Fraction(k) for a, k in key}
        b = Fraction(-c)
        if iseq: bound(v, b * s, b * s)
        elif s > 0: bound(v, None, b)
        else: bound(v, -b, None)
    for m, c in tight.items(): add(m, c, False)
    for e in eqs: add(e.m, e.c, True)
    for v in set(lo) & set(hi):
        if lo[v] > hi[v]: return False
    order = {}
    def oid(v):
        return (0, v[1]) if isinstance(v, tuple) else (1, v.id)
    val = {}
    nonbasic = set()
    for r in rows.values(): nonbasic.update(r)
    for v in nonbasic:
        val[v] = lo[v] if lo.get(v) is not None and lo[v] > 0 else (hi[v] if hi.get(v) is not None and hi[v] < 0 else Fraction(0))
    for b, r in rows.items(): val[b] = sum((k * val[a] for a, k in r.items()), Fraction(0))
    for it in range(2000):
        bad = None
        for b in sorted(rows, key=oid):
            if lo.get(b) is not None and val[b] < lo[b]: bad = (b, 1); break
            if hi.get(b) is not None and val[b] > hi[b]: bad = (b, -1); break
        if bad is None: return True
        b, d = bad
        r = rows[b]
        piv = None
        for v in sorted(r, key=oid):
            k = r[v] * d
            if k > 0 and (hi.get(v) is None or val[v] < hi[v]): piv = v; break
            if k < 0 and (lo.get(v) is None or val[v] > lo[v]): piv = v; break
        if piv is None: return False
        target = lo[b] if d > 0 else hi[b]
        # pivot b <-> piv
        k = r.pop(piv)
        theta = (target - val[b]) / k
        newrow = {a: -c / k for a, c in r.items()}
        newrow[b] = Fraction(1) / k
        del rows[b]
        val[b] = target
        val[piv] = val[piv] + theta
        for o, ro in rows.items():
            c = ro.pop(piv, None)
            if c:
                val[o] = val[o] + c * theta
                for a, kk in newrow.items():
                    n = ro.get(a, 0) + c * kk
                    if n: ro[a] = n
                    else: ro.pop(a, None)
        rows[piv] = newrow
    return True

class Facts:
    __slots__ = ("bs", "set", "foralls", "_lin")
    def __init__(self, bs=(), st=None, foralls=()):
        self.bs = bs
        self.set = st if st is not None else frozenset(bs)
        self.foralls = foralls
        self._lin = None
    def add(self, *xs):
        """returns new facts, or None when syntactically contradictory"""
        bs = list(self.bs); st = set(self.set)
        work = list(xs)
        while work:
            x = work.pop(0)
            if x is True: continue
            if x is False: return None
            if x[0] == "and": work = list(x[1]) + work; continue
            if x in st: continue
            if neg(x) in st: return None
            st.add(x); bs.append(x)
        f = Facts(tuple(bs), frozenset(st), self.foralls)
        return f
    def add_forall(self, fa):
        if fa in self.foralls: return self
        return Facts(self.bs, self.set, self.foralls + (fa,))
    def lin(self):
        if self._lin is None:
            les = [b[1] for b in self.bs if b[0] == "le"]
            eqs = [b[1] for b in self.bs if b[0] == "eq"]
            nes = [b[1] for b in self.bs if b[0] == "ne"]
            ors = [b for b in self.bs if b[0] == "or"]
            self._lin = (les, eqs, nes, ors)
        return self._lin

    def _relevant(self, extra):
        les, eqs, nes, ors = self.lin()
        want = set()
        def addatoms(l):
            for a in l.atoms():
                if a not in want:
                    want.add(a)
                    for ax in atom_axioms(a):
                        addatoms(ax)
        for l in extra: addatoms(l)
        L, E, N = [], [], []
        pend = [("l", l) for l in les] + [("e", l) for l in eqs]
        changed = True
        while changed:
            changed = False
            rest = []
            for k, l in pend:
                if any(a in want for a in l.atoms()):
                    (L if k == "l" else E).append(l)
                    addatoms(l); changed = True
                else: rest.append((k, l))
            pend = rest
        N = [l for l in nes if any(a in want for a in l.atoms())]
        O = [o for o in ors if any(any(a in want for a in lin_atoms(x)) for x in o[1])]
        return L, E, N, O

    def empty_with(self, les=(), eqs=(), depth=2):
        """True when facts & les<=0 & eqs==0 is certainly empty"""
        L, E, N, O = self._relevant(list(les) + list(eqs))
        L = L + list(les); E = E + list(eqs)
        return not self._feas(L, E, N, O, depth)

    def _feas(self, L, E, N, O, depth):
        if not feasible(L, E): return False
        # disequalities: tighten at boundaries
        for i, l in enumerate(N):
            if l in E or -l in E: return False
        if depth <= 0: return True
        for i, l in enumerate(N):
            a = feasible(L + [l + 1], E)
            b = feasible(L + [-l + 1], E)
            if not a and not b: return False
            if not a or not b:
                rest = N[:i] + N[i + 1:]
                return self._feas(L + [(-l + 1) if not a else (l + 1)], E, rest, O, depth)
        for i, o in enumerate(O):
            rest = O[:i] + O[i + 1:]
            alive = []
            for x in o[1]:
                l2, e2, n2, ok = split_conj(x, self.set)
                if not ok: continue
                if feasible(L + l2, E + e2): alive.append((l2, e2, n2))
            if not alive: return False
            if len(alive) == 1:
                l2, e2, n2 = alive[0]
                return self._feas(L + l2, E + e2, N + n2, rest, depth)
            if depth > 0:
                if not any(self._feas(L + l2, E + e2, N + n2, rest, depth - 1) for l2, e2, n2 in alive): return False
        return True

    def entails(self, b):
        if b is True: return True
        if b is False: return self.empty_with()
        if b in self.set: return True
        t = b[0]
        if t == "and": return all(self.entails(x) for x in b[1])
        if t == "le": return self.empty_with(les=[-b[1] + 1])
        if t == "eq": return self.empty_with(les=[-b[1] + 1]) and self.empty_with(les=[b[1] + 1])
        if t == "ne":
            return self.empty_with(eqs=[b[1]])
        if t == "or":
            if any(self.entails(x) for x in b[1]): return True
            l, e, ok = [], [], True
            f = self
            for x in b[1]:
                f2 = f.add(neg(x))
                if f2 is None: return True
                f = f2
            return f.contradictory()
        return False

    def contradictory(self):
        les, eqs, nes, ors = self.lin()
        return not self._feas(les, eqs, nes, ors, 2)

    def decide(self, b):
        """True / False / None"""
        if b is True or b is False: return b
        if b in self.set: return True
        if neg(b) in self.set: return False
        if b[0] in ("and", "or"):
            if self.entails(b): return True
            if self.entails(neg(b)): return False
            return None
        if b[0] in ("ba", "nba"): return None
        if self.entails(b): return True
        if self.entails(neg(b)): return False
        return None

def lin_atoms(b):
    if b[0] in ("le", "eq", "ne"): return b[1].atoms()
    if b[0] in ("and", "or"):
        return [a for x in b[1] for a in lin_atoms(x)]
    return []

def split_conj(x, known):
    """conjunct x -> (les, eqs, nes, ok)"""
    l, e, n = [], [], []
    parts = x[1] if x[0] == "and" else (x,)
    for p in parts:
        if p[0] == "le": l.append(p[1])
        elif p[0] == "eq": e.append(p[1])
        elif p[0] == "ne": n.append(p[1])
        elif p[0] in ("ba", "nba"):
            if neg(p) in known: return l, e, n, False
    return l, e, n, True
