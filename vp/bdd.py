"""Canonical meaning of a summarised function of bits: every output bit and every case condition as a reduced ordered decision diagram over
the input bits. Two summaries with the same meaning have the same form however their paths are organised. No search: diagrams are built bottom up."""
import hashlib
from .terms import *
from .interp import Unsupported
from .canon import length_only

W = 70
LIMIT = 200000

class Bdd:
    """nodes are (key, low, high) interned; leaves False and True"""
    def __init__(self): self.uniq = {}; self.memo = {}; self.h = {}
    def mk(self, k, lo, hi):
        if lo is hi: return lo
        n = self.uniq.get((k, id(lo), id(hi)))
        if n is None:
            if len(self.uniq) > LIMIT: raise Unsupported("decision diagram too large")
            n = (k, lo, hi); self.uniq[(k, id(lo), id(hi))] = n
        return n
    def var(self, k): return self.mk((k[1], k[0]), False, True)          # bits of equal weight side by side: comparisons and sums stay small
    def ite(self, f, g, h):
        if f is True: return g
        if f is False: return h
        if g is h: return g
        if g is True and h is False: return f
        m = (id(f), id(g), id(h))
        r = self.memo.get(m)
        if r is None:
            k = min(x[0] for x in (f, g, h) if x is not True and x is not False)
            def co(x, b): return x[2 if b else 1] if x is not True and x is not False and x[0] == k else x
            r = (self.mk(k, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1))), f, g, h)   # keeps operands alive
            self.memo[m] = r
        return r[0]
    def n(self, a): return self.ite(a, False, True)
    def a(self, a, b): return self.ite(a, b, False)
    def o(self, a, b): return self.ite(a, True, b)
    def x(self, a, b): return self.ite(a, self.n(b), b)
    def text(self, n):
        """a name that depends only on the function"""
        if n is True or n is False: return "1" if n else "0"
        if n[1] is False and n[2] is True: return keytext(n[0])
        if n[1] is True and n[2] is False: return "!" + keytext(n[0])
        r = self.h.get(id(n))
        if r is None:
            r = "#" + hashlib.sha1(("%s?%s:%s" % (keytext(n[0]), self.text(n[2]), self.text(n[1]))).encode()).hexdigest()[:12]
            self.h[id(n)] = r
        return r
def keytext(k): return "%s.%d" % (k[1], k[0])

class Sem:
    def __init__(self, I): self.B = Bdd(); self.I = I; self.atoms = {}; self.deps = 0
    # ---- integers
    def const(self, c): return [bool((c >> i) & 1) for i in range(W)]
    def add(self, x, y):
        B = self.B; c = False; out = []
        for a, b in zip(x, y):
            if a is False and c is False: out.append(b); continue
            if b is False and c is False: out.append(a); continue
            s = B.x(a, b); out.append(B.x(s, c)); c = B.o(B.a(a, b), B.a(s, c))
        return out
    def mul(self, x, k):
        if k < 0: return self.add([self.B.n(b) for b in self.mul(x, -k)], self.const(1))
        r = None; j = 0
        while k:
            if k & 1:
                s = [False] * j + x[:W - j]; r = s if r is None else self.add(r, s)
            k >>= 1; j += 1
        return r if r is not None else self.const(0)
    def lin(self, l):
        r = self.const(l.c)
        # disjoint unsigned pieces first, so that no carries arise
        for a, k in sorted(l.m, key=lambda t: (t[1] < 0, show(of_atom(t[0])))): r = self.add(r, self.mul(self.atom(a), k))
        return r
    def ext(self, bits, signed): return (bits + [bits[-1] if signed else False] * W)[:W]
    def atom(self, a):
        r = self.atoms.get(a)
        if r is None: r = self.atoms[a] = self.atom_(a)
        return r
    def atom_(self, a):
        k = a.kind
        if k == "fld": return self.ext(self.atom(a.args[0])[a.args[1]:a.args[1] + a.args[2]], False)
        if k == "sfld": return self.ext(self.atom(a.args[0])[a.args[1]:a.args[1] + a.args[2]], a.lo is not None and a.lo < 0)
        if k == "fldx": return self.ext(self.lin(a.args[0])[a.args[1]:a.args[1] + a.args[2]], False)
        if k == "sbit": return self.ext([self.atom(a.args[0])[a.args[1]]], False)
        if k == "b2i": return self.ext([self.cond(a.args[0])], False)
        if k == "wrap": return self.ext(self.lin(a.args[2])[:a.args[0]], a.args[1])
        if k == "lin": return self.lin(a.args[0])
        if k == "div" and isinstance(a.args[1], int) and a.args[1] & (a.args[1] - 1) == 0:
            n = a.args[1].bit_length() - 1; x = self.lin(a.args[0]); return self.ext(x[n:], True)
        if k == "op" and a.args[0] in ("and", "or", "xor"):
            f = {"and": self.B.a, "or": self.B.o, "xor": self.B.x}[a.args[0]]
            return self.ext([f(x, y) for x, y in zip(self.lin(a.args[1]), self.lin(a.args[2]))], True)
        if k in ("bitand", "bitor", "bitxor"):
            f = {"bitand": self.B.a, "bitor": self.B.o, "bitxor": self.B.x}[k]
            x, y = (self.B.n(self.atom(t[0])[t[1]]) if t[2] else self.atom(t[0])[t[1]] for t in a.args)
            return self.ext([f(x, y)], False)
        if k in ("op", "mul"): raise Unsupported("arithmetic %s" % show(of_atom(a)))
        if a.lo is None or a.hi is None: raise Unsupported("unbounded quantity %s" % show(of_atom(a)))
        n = max(a.hi.bit_length(), (-a.lo - 1).bit_length() if a.lo < 0 else 0) + (1 if a.lo < 0 else 0)
        if n > 64: raise Unsupported("wide quantity")
        nm = show(of_atom(a))
        return self.ext([self.B.var((nm, i)) for i in range(n)] or [False], a.lo < 0)
    # ---- conditions
    def cond(self, b):
        if b is True or b is False: return b
        B = self.B; t = b[0]
        if t == "and":
            r = True
            for x in b[1]: r = B.a(r, self.cond(x))
            return r
        if t == "or":
            r = False
            for x in b[1]: r = B.o(r, self.cond(x))
            return r
        if t == "nba": return B.n(self.cond(("ba", b[1])))
        if t == "ba":
            a = b[1]
            if a.kind == "discr": return B.n(self.zero(self.atom(a)))
            return B.var((show(b), 0))
        if t in ("eq", "ne", "le"):
            try: x = self.lin(b[1])
            except Unsupported:
                c = neg(b); s, s2 = show(b), show(c)
                return B.var((s, 0)) if s <= s2 else B.n(B.var((s2, 0)))
            z = self.zero(x)
            if t == "eq": return z
            if t == "ne": return B.n(z)
            return B.o(z, x[W - 1])
        raise Unsupported("condition %s" % show(b))
    def zero(self, x):
        r = True
        for a in x: r = self.B.a(r, self.B.n(a))
        return r
    # ---- values
    def merge(self, cs):
        """canonical text of a value given by cases [(condition, value)]"""
        groups = {}
        for c, v in cs:
            if c is False: continue
            if isinstance(v, Lin): g = "int"
            elif self.I.is_bool(v): g = "bool"
            elif isinstance(v, Agg): g = "%s/%d" % (aggname(v) or "tuple", len(v.f))
            elif isinstance(v, tuple) and v and v[0] == "f":
                g = "f " + v[1] if v[1] != "const" else "f const " + str(v[2])
                if v[1] == "i2f": g += str(v[2])
            elif isinstance(v, str): g = "'" + v
            else: g = "= " + show(v)
            groups.setdefault(g, []).append((c, v))
        out = []
        for g in sorted(groups):
            xs = groups[g]; B = self.B; any_ = False
            for c, _ in xs: any_ = B.o(any_, c)
            t = g
            if g in ("int", "bool"):
                vs = [(c, self.lin(v) if g == "int" else [self.cond(v)]) for c, v in xs]
                bits = []
                for i in range(W if g == "int" else 1):
                    r = False
                    for c, x in vs: r = B.o(r, B.a(c, x[i]))
                    bits.append(B.text(r))
                while len(bits) > 1 and bits[-1] == bits[-2]: bits.pop()
                t = g + "[" + " ".join(bits) + "]"
            elif isinstance(xs[0][1], Agg):
                t = g + "(" + ", ".join(self.merge([(c, v.f[i]) for c, v in xs]) for i in range(len(xs[0][1].f))) + ")"
            elif g.startswith("f ") and not g.startswith("f const"):
                n = len(xs[0][1])
                if any(len(v) != n for c, v in xs): raise Unsupported("float operation")
                t = g + "(" + ", ".join(self.merge([(c, v[i]) for c, v in xs]) if isinstance(xs[0][1][i], (Lin, tuple)) else show(xs[0][1][i]) for i in range(2, n)) + ")"
            out.append("%s when %s" % (t, B.text(any_)) if len(groups) > 1 else t)
        return " | ".join(out)

def sem(I, outs, pre=()):
    """outs: [(facts, value)] -> text that depends only on the function computed (where pre holds)"""
    S = Sem(I)
    p = True
    for b in pre: p = S.B.a(p, S.cond(b)) if not length_only(b) else p
    for a in sorted({a for fs, v in outs for a in atoms_of(tuple(fs) + (() if isinstance(v, str) else (v,))) if a.kind == "discr" and len(a.args) > 1}, key=repr):
        p = S.B.a(p, S.cond(b_or(*[eq(of_atom(a), Lin(d)) for d in a.args[1]])))      # an enumeration holds one of its variants
    cs = []
    for fs, v in outs:
        c = p
        for b in fs:
            if not length_only(b): c = S.B.a(c, S.cond(b))
        cs.append((c, v))
    t = S.merge(cs)
    return t if len(t) < 400 else t[:120] + "... #" + hashlib.sha1(t.encode()).hexdigest()[:16]

class Mean(str):
    """canonical text with the outcomes it was made from, so that a differing text can still be compared by meaning"""
    def __new__(cls, text, I, outs, pre=()):
        x = str.__new__(cls, text); x.src = (I, outs, tuple(pre)); return x
    def sem(self): return sem(*self.src)

def same_meaning(got, want, want_sem):
    """True / False / None (not comparable)"""
    if got == want: return True
    if not isinstance(got, Mean) or want_sem is None: return False if not isinstance(got, Mean) else None
    try: return got.sem() == want_sem
    except Unsupported: return None
    except RecursionError: return None
