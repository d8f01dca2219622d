"""Abstract values: linear integer forms over atoms, bit fields, boolean facts, floats, sequences, pointers."""
from math import gcd
from functools import reduce

INF = None

class Atom:
    __slots__ = ("kind", "args", "lo", "hi", "id", "_h")
    table = {}
    count = 0
    def __repr__(self): return show_atom(self)

def atom(kind, args, lo=INF, hi=INF):
    k = (kind, args)
    a = Atom.table.get(k)
    if a is None:
        a = Atom()
        a.kind, a.args, a.lo, a.hi = kind, args, lo, hi
        a.id = Atom.count; Atom.count += 1
        Atom.table[k] = a
    elif kind in ("sym", "discr") and (a.lo != lo or a.hi != hi):
        # same name, other range: a different quantity
        return atom(kind, args + (lo, hi), lo, hi) if len(args) == 1 else a
    return a

class Lin:
    """c + sum coef*atom, mathematical integers"""
    __slots__ = ("c", "m", "_h")
    def __init__(self, c, m=()):
        self.c = c; self.m = m; self._h = hash((c, m))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.m == o.m
    def __ne__(self, o): return not self == o
    def is_const(self): return not self.m
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.m)
        if not o.m: return Lin(self.c + o.c, self.m)
        if not self.m: return Lin(self.c + o.c, o.m)
        d = dict(self.m)
        for a, k in o.m:
            n = d.get(a, 0) + k
            if n: d[a] = n
            else: d.pop(a, None)
        return mk(self.c + o.c, d)
    def __neg__(self): return self * -1
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.m)
        return self + (o * -1)
    def __mul__(self, k):
        if k == 0: return ZERO
        if k == 1: return self
        return Lin(self.c * k, tuple((a, c * k) for a, c in self.m))
    def range(self):
        lo = hi = self.c
        for a, k in self.m:
            l, h = (a.lo, a.hi) if k > 0 else (a.hi, a.lo)
            lo = None if (lo is None or l is None) else lo + k * l
            hi = None if (hi is None or h is None) else hi + k * h
        return lo, hi
    def atoms(self): return [a for a, _ in self.m]
    def __repr__(self): return show(self)

def mk(c, d):
    if len(d) > 1:
        # re-merge adjacent bit fields of the same atom
        return Lin(c, tuple(sorted(d.items(), key=lambda t: t[0].id)))
    return Lin(c, tuple(d.items()))

ZERO = Lin(0)
def const(n): return Lin(n)
def of_atom(a): return Lin(0, ((a, 1),))
def sym(name, lo=INF, hi=INF):
    return of_atom(atom("sym", (name,), lo, hi))
def rng_of(bits, signed):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

# ---------------------------------------------------------------- bit fields
def fld(a, lo, w):
    """bit field [lo, lo+w) of a non-negative atom"""
    if a.kind == "fld":
        return fld(a.args[0], a.args[1] + lo, w) if lo + w <= a.args[2] else None
    n = width(a)
    if n is not None:
        if lo >= n: return None
        w = min(w, n - lo)
        if lo == 0 and w == n: return a
    return atom("fld", (a, lo, w), 0, (1 << w) - 1)

def width(a):
    if a.lo is not None and a.lo >= 0 and a.hi is not None: return max(1, a.hi.bit_length())
    return None

def base_of(a):
    return (a.args[0], a.args[1]) if a.kind in ("fld", "sfld", "sbit") else (a, 0)

def to_bits(l, n):
    """bits of l mod 2^n as a list of sources: 0 | 1 | (atom, i, negated); None when not decomposable"""
    mod = 1 << n
    items = []
    for a, k in l.m:
        k %= mod
        if k == 0: continue
        items.append((a, k))
    c = l.c % mod
    bits = [0] * n
    # whole-value two's complement with negation: allow coefficient mod 2^n = 2^n - 2^j only for 1-bit fields with const carry
    neg = []
    for a, k in items:
        if k & (k - 1): 
            nk = mod - k
            if nk & (nk - 1) == 0 and width(a) is not None:
                neg.append((a, nk)); continue
            return None
        j = k.bit_length() - 1
        w = width(a)
        base, lo = base_of(a)
        if w is None:
            # unbounded-range atom: only usable when its own two's complement is defined (signed symbol)
            sb = signed_bits(a)
            if sb is None: return None
            for i in range(n - j):
                if bits[i + j] != 0: return None
                bits[i + j] = (a, min(i, sb - 1), False)
            continue
        for i in range(w):
            if i + j >= n: break
            if bits[i + j] != 0: return None
            bits[i + j] = (base, lo + i, False)
    if neg:
        # c - 2^j*bit : needs constant bit j set -> negated bit
        for a, nk in neg:
            j = nk.bit_length() - 1; w = width(a)
            base, lo = base_of(a)
            # a field taken away from the value it is part of
            if all(bits[j + i] == (base, lo + i, False) for i in range(min(w, n - j))):
                for i in range(min(w, n - j)): bits[j + i] = 0
                continue
            if w != 1:
                # all ones minus a value: every bit turned over
                m = ((1 << w) - 1) << j
                if c & m != m or m >> n or any(bits[j + i] != 0 for i in range(w)): return None
                for i in range(w): bits[j + i] = (base, lo + i, True)
                c &= ~m; continue
            if not (c >> j) & 1 or bits[j] != 0: return None
            base, lo = base_of(a)
            bits[j] = (base, lo, True)
            c &= ~nk
    for j in range(n):
        if (c >> j) & 1:
            if bits[j] != 0: return None
            bits[j] = 1
    return bits

def signed_bits(a):
    """width of a signed atom's natural two's complement, if its range is exactly a signed type"""
    if a.lo is not None and a.lo < 0 and a.hi is not None:
        n = a.hi.bit_length() + 1
        if a.lo == -(1 << (n - 1)) and a.hi == (1 << (n - 1)) - 1: return n
    return None

def sbit(a, i):
    """bit i of signed atom's two's complement, as an atom in 0..1"""
    return atom("sbit", (a, i), 0, 1)

def from_bits(bits, signed=False):
    n = len(bits)
    c = 0
    terms = {}
    # recover whole signed atoms
    i = 0
    out = []
    def add(a, k):
        terms[a] = terms.get(a, 0) + k
        if terms[a] == 0: del terms[a]
    nneg = n
    while i < n:
        b = bits[i]
        if b == 0: i += 1; continue
        if b == 1: c += 1 << i; i += 1; continue
        a, k, neg = b
        if neg:
            f = fld(a, k, 1) if signed_bits(a) is None else sbit(a, k)
            c += 1 << i; add(f, -(1 << i)); i += 1; continue
        j = i + 1
        while j < n and isinstance(bits[j], tuple) and bits[j][0] is a and not bits[j][2] and bits[j][1] == k + (j - i): j += 1
        w = j - i
        sb = signed_bits(a)
        if sb is not None:
            # low w bits of a signed atom starting at k
            if k == 0 and w == sb and i == 0 and (j == n or all(bits[x] == (a, sb - 1, False) for x in range(j, n))):
                # full value (sign extended to n bits): unsigned view = a + 2^n*sign ; signed view = a
                if signed: return of_atom(a) + c
                add(a, 1); add(sbit(a, sb - 1), 1 << n); i = n; continue
            add(atom("sfld", (a, k, w), 0, (1 << w) - 1) if w > 1 else sbit(a, k), 1 << i); i = j; continue
        f = fld(a, k, w)
        if f is not None: add(f, 1 << i)
        i = j
    l = mk(c, terms)
    if signed and bits:
        top = bits[-1]
        if top == 1: l = l - (1 << n)
        elif isinstance(top, tuple):
            a, k, neg = top
            f = fld(a, k, 1) if signed_bits(a) is None else sbit(a, k)
            if neg: l = l - (1 << n) + of_atom(f) * (1 << n)
            else: l = l - of_atom(f) * (1 << n)
    return l

def wrap(l, bits, signed):
    lo, hi = rng_of(bits, signed)
    a, b = l.range()
    if a is not None and b is not None and lo <= a and b <= hi: return l
    bs = to_bits(l, bits)
    if bs is not None: return from_bits(bs, signed)
    if l.is_const():
        v = l.c & ((1 << bits) - 1)
        if signed and v >> (bits - 1): v -= 1 << bits
        return Lin(v)
    m = 1 << bits
    # a nested wrap of at least this width does not matter modulo 2^bits
    if any(at.kind == "wrap" and at.args[0] >= bits for at, _ in l.m):
        l2 = Lin(l.c)
        for at, k in l.m:
            l2 = l2 + (at.args[2] * k if at.kind == "wrap" and at.args[0] >= bits else Lin(0, ((at, k),)))
        return wrap(l2, bits, signed)
    # canonical: reduce coefficients modulo 2^bits into the centred range
    def red(k):
        k %= m
        return k - m if k >= m // 2 else k
    l2 = mk(l.c % m, {a: red(k) for a, k in l.m if red(k)})
    # strip nested wraps of at least this width
    return of_atom(atom("wrap", (bits, signed, l2), lo, hi))

# ---------------------------------------------------------------- booleans
def b_atom(a): return ("ba", a)
def gcd_all(l):
    return reduce(gcd, (abs(k) for _, k in l.m), 0)

def le0(l):
    """l <= 0"""
    lo, hi = l.range()
    if hi is not None and hi <= 0: return True
    if lo is not None and lo > 0: return False
    g = gcd_all(l)
    if g > 1:
        l = Lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.m))
    if len(l.m) == 1:
        a, k = l.m[0]
        if k == 1 and a.lo is not None and -l.c == a.lo: return eq0(l)
        if k == -1 and a.hi is not None and l.c == a.hi: return eq0(l)
    return ("le", l)

def ne0(l):
    if len(l.m) == 1 and l.m[0][1] == 1:
        a = l.m[0][0]
        if a.lo is not None and -l.c == a.lo: return le0(-l + 1)
        if a.hi is not None and -l.c == a.hi: return le0(l + 1)
    return ("ne", l)

def eq0(l):
    lo, hi = l.range()
    if l.is_const(): return l.c == 0
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
    g = gcd_all(l)
    if l.c % g: return False
    if g > 1: l = Lin(l.c // g, tuple((a, k // g) for a, k in l.m))
    if l.m[0][1] < 0: l = -l
    if len(l.m) == 1 and l.m[0][1] == 1 and l.m[0][0].kind == "b2i" and l.c in (0, -1):
        b = l.m[0][0].args[0]
        return neg(b) if l.c == 0 else b
    return ("eq", l)

def neg(b):
    if b is True: return False
    if b is False: return True
    t = b[0]
    if t == "le": return le0(-b[1] + 1)
    if t == "eq": return ne0(b[1])
    if t == "ne": return ("eq", b[1])
    if t == "ba": return ("nba", b[1])
    if t == "nba": return ("ba", b[1])
    if t == "and": return b_or(*[neg(x) for x in b[1]])
    if t == "or": return b_and(*[neg(x) for x in b[1]])
    raise ValueError(b)

def b_and(*xs):
    out = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        if x[0] == "and": out.extend(y for y in x[1] if y not in out)
        elif x not in out: out.append(x)
    for x in out:
        if neg(x) in out: return False
    if not out: return True
    return out[0] if len(out) == 1 else ("and", tuple(out))

def b_or(*xs):
    out = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        if x[0] == "or": out.extend(y for y in x[1] if y not in out)
        elif x not in out: out.append(x)
    for x in out:
        if neg(x) in out: return True
    if not out: return False
    return out[0] if len(out) == 1 else ("or", tuple(out))

def lt(a, b): return le0(a - b + 1)
def le(a, b): return le0(a - b)
def eq(a, b): return eq0(a - b)
def ne(a, b): return neg(eq0(a - b))

def b2i(b):
    if b is True: return Lin(1)
    if b is False: return ZERO
    # a single bit compared with 0/1 is the bit itself
    if b[0] in ("eq", "ne") and len(b[1].m) == 1:
        a, k = b[1].m[0]
        if a.lo == 0 and a.hi == 1 and k == 1:
            if (b[0], b[1].c) in (("eq", -1), ("ne", 0)): return of_atom(a)
            if (b[0], b[1].c) in (("eq", 0), ("ne", -1)): return Lin(1) - of_atom(a)
    if b[0] == "le" and len(b[1].m) == 1:
        a, k = b[1].m[0]
        if a.lo == 0 and a.hi == 1:
            if k == -1 and b[1].c == 1: return of_atom(a)
            if k == 1 and b[1].c == 0: return Lin(1) - of_atom(a)
    return of_atom(atom("b2i", (b,), 0, 1))

# ---------------------------------------------------------------- structured values
class Agg:
    __slots__ = ("ty", "var", "f")
    def __init__(self, ty, var, f): self.ty, self.var, self.f = ty, var, f
    def __eq__(self, o): return isinstance(o, Agg) and self.ty == o.ty and self.var == o.var and self.f == o.f
    def __hash__(self): return hash((self.ty, self.var, self.f))
    def __repr__(self): return "%s#%s(%s)" % (self.ty, self.var, ", ".join(map(repr, self.f)))
    def with_f(self, i, v):
        return Agg(self.ty, self.var, self.f[:i] + (v,) + self.f[i + 1:])

class SymV:
    """an unconstrained value of a type (index in the type table), identified by name"""
    __slots__ = ("ty", "name")
    def __init__(self, ty, name): self.ty, self.name = ty, name
    def __eq__(self, o): return isinstance(o, SymV) and self.ty == o.ty and self.name == o.name
    def __hash__(self): return hash((self.ty, self.name))
    def __repr__(self): return "?%s" % (self.name,)

class Ptr:
    __slots__ = ("al", "path", "sl")
    def __init__(self, al, path=(), sl=None): self.al, self.path, self.sl = al, path, sl
    def __eq__(self, o): return isinstance(o, Ptr) and self.al == o.al and self.path == o.path and self.sl == o.sl
    def __hash__(self): return hash((self.al, self.path, self.sl))
    def __repr__(self):
        s = "&%s%s" % (self.al, "".join("." + str(p[1]) if p[0] in "fd" else "[%r]" % (p[1],) for p in self.path))
        return s + ("[%r;+%r]" % self.sl if self.sl else "")

class Seq:
    """concatenation of segments: ('lit', elems) | ('sub', base, off, len) | ('rep', v, len)"""
    __slots__ = ("segs",)
    def __init__(self, segs): self.segs = norm_segs(segs)
    def __eq__(self, o): return isinstance(o, Seq) and self.segs == o.segs
    def __hash__(self): return hash(self.segs)
    def length(self):
        n = ZERO
        for s in self.segs: n = n + seg_len(s)
        return n
    def __add__(self, o): return Seq(self.segs + o.segs)
    def __repr__(self): return " ++ ".join(show_seg(s) for s in self.segs) or "[]"

def seg_len(s): return Lin(len(s[1])) if s[0] == "lit" else (s[3] if s[0] == "sub" else s[2])
def norm_segs(segs):
    out = []
    for s in segs:
        n = seg_len(s)
        if n == ZERO: continue
        if out:
            p = out[-1]
            if p[0] == "lit" and s[0] == "lit":
                out[-1] = ("lit", p[1] + s[1]); continue
            if p[0] == "sub" and s[0] == "sub" and p[1] == s[1] and p[2] + p[3] == s[2]:
                out[-1] = ("sub", p[1], p[2], p[3] + s[3]); continue
        out.append(s)
    return tuple(out)

class Clo:
    __slots__ = ("key", "up", "ty")
    def __init__(self, key, up, ty): self.key, self.up, self.ty = key, up, ty
    def __eq__(self, o): return isinstance(o, Clo) and (self.key, self.up) == (o.key, o.up)
    def __hash__(self): return hash((self.key, self.up))
    def __repr__(self): return "closure<%s>%r" % (self.key, self.up)

class Fn:
    __slots__ = ("ref",)
    def __init__(self, ref): self.ref = ref
    def __eq__(self, o): return isinstance(o, Fn) and self.ref["path"] == o.ref["path"] and self.ref["key"] == o.ref["key"]
    def __hash__(self): return hash((self.ref["path"], self.ref["key"]))
    def __repr__(self): return "fn<%s>" % (self.ref["key"] or self.ref["path"])

UNIT = Agg("tuple", 0, ())

# floats: ('f', op, args...)
def fconst(x):
    return ("f", "const", repr(float(x)))
def f_op(op, *args):
    if op in ("mul", "add"):
        args = tuple(sorted(args, key=show))
        if op == "mul":
            for i in (0, 1):
                if args[i] == fconst(1.0): return args[1 - i]
    if op == "div" and args[1] == fconst(1.0): return args[0]
    if all(isinstance(a, tuple) and a[:2] == ("f", "const") for a in args) and op in ("mul", "add", "sub", "div", "neg"):
        v = [float(a[2]) for a in args]
        try:
            r = {"mul": lambda: v[0] * v[1], "add": lambda: v[0] + v[1], "sub": lambda: v[0] - v[1], "div": lambda: v[0] / v[1], "neg": lambda: -v[0]}[op]()
            return fconst(r)
        except Exception: pass
    return ("f", op) + tuple(args)

# ---------------------------------------------------------------- printing (canonical text)
def show_atom(a):
    k = a.kind
    if k == "sym": return str(a.args[0])
    if k == "el": return "%s[%s]" % (a.args[0], show(a.args[1]))
    if k == "fld":
        return "%s.bits[%d..%d]" % (show_atom(a.args[0]), a.args[1], a.args[1] + a.args[2])
    if k == "sbit": return "%s.bit[%d]" % (show_atom(a.args[0]), a.args[1])
    if k == "sfld": return "%s.bits[%d..%d]" % (show_atom(a.args[0]), a.args[1], a.args[1] + a.args[2])
    if k == "discr": return "discr(%s)" % (a.args[0],)
    if k == "wrap": return "wrap%s%d(%s)" % ("i" if a.args[1] else "u", a.args[0], show(a.args[2]))
    return "%s(%s)" % (k, ", ".join(show(x) for x in a.args))

def le_groups(l):
    """recognise little-endian multi-byte groups in a linear form; returns (list of text, rest dict)"""
    rest = dict(l.m)
    out = []
    els = {}
    for a, k in l.m:
        if a.kind == "el" and a.hi == 255: els.setdefault((a.args[0], a.args[1].m), {})[a.args[1].c] = (a, k)
    for (s, m), d in els.items():
        for o in sorted(d):
            if o not in d: continue
            a, k = d[o]
            if a not in rest: continue
            n = 1
            while o + n in d and d[o + n][1] == k << (8 * n) and d[o + n][0] in rest: n += 1
            if n not in (1, 2, 4, 8):
                n = max(x for x in (1, 2, 4, 8) if x <= n)
            top = d[o + n - 1][0]
            sg = fld(top, 7, 1)
            signed = rest.get(sg) == -(k << (8 * n))
            if n == 1 and not signed: continue
            for i in range(n): del rest[d[o + i][0]]
            if signed: del rest[sg]
            base = Lin(o, m)
            t = "%s%dle(%s[%s])" % ("i" if signed else "u", 8 * n, s, show(base))
            out.append(t if k == 1 else "%d*%s" % (k, t))
    return out, rest

AGG = [None]
def aggname(x):
    return AGG[0](x.ty, x.var) if AGG[0] else "%s#%s" % (x.ty, x.var)
def show(x):
    if x is True: return "true"
    if x is False: return "false"
    if x is None: return "none"
    if isinstance(x, (int, str)): return str(x)
    if isinstance(x, Lin):
        ts, rest = le_groups(x)
        ts += [(show_atom(a) if k == 1 else "%d*%s" % (k, show_atom(a))) for a, k in rest.items()]
        ts.sort()
        if x.c or not ts: ts.append(str(x.c))
        return "+".join(ts)
    if isinstance(x, Atom): return show_atom(x)
    if isinstance(x, Seq): return repr(x)
    if isinstance(x, Agg):
        n = aggname(x)
        return "%s(%s)" % (n, ", ".join(show(f) for f in x.f)) if x.f or n == "" else n
    if isinstance(x, tuple) and x and x[0] == "f":
        if x[1] == "const": return "f(%s)" % x[2]
        return "%s(%s)" % (x[1], ", ".join(show(a) for a in x[2:]))
    if isinstance(x, tuple) and x and x[0] in ("le", "eq", "ne"):
        return "%s%s" % (show(x[1]), {"le": "<=0", "eq": "==0", "ne": "!=0"}[x[0]])
    if isinstance(x, tuple) and x and x[0] in ("ba", "nba"): return ("" if x[0] == "ba" else "!") + show_atom(x[1])
    if isinstance(x, tuple) and x and x[0] in ("and", "or"): return "(" + (" & " if x[0] == "and" else " | ").join(sorted(show(y) for y in x[1])) + ")"
    if isinstance(x, tuple): return "(" + ", ".join(show(y) for y in x) + ")"
    return repr(x)

def show_seg(s):
    if s[0] == "lit": return "[%s]" % ", ".join(show(e) for e in s[1])
    if s[0] == "sub": return "%s[%s;+%s]" % (s[1], show(s[2]), show(s[3]))
    return "rep(%s;%s)" % (show(s[1]), show(s[2]))

# ---------------------------------------------------------------- substitution / traversal
def subst(x, m):
    """replace atoms by linear forms throughout a value (m: {Atom: Lin})"""
    if not m: return x
    return _Sub(m).go(x)

class _Sub:
    def __init__(self, m): self.m = m; self.memo = {}
    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            if a in self.m: r = self.m[a]
            else:
                na = self.args(a.args)
                if na == a.args: r = of_atom(a)
                else: r = rebuild(a, na)
            self.memo[a] = r
        return r
    def args(self, xs): return tuple(self.go(x) for x in xs)
    def go(self, x):
        if isinstance(x, Lin):
            if not any(True for _ in x.m): return x
            out = Lin(x.c)
            ch = False
            parts = []
            for a, k in x.m:
                r = self.atom(a)
                if not (r.c == 0 and len(r.m) == 1 and r.m[0] == (a, 1)): ch = True
                parts.append((r, k))
            if not ch: return x
            for r, k in parts: out = out + r * k
            return out
        if isinstance(x, Atom):
            r = self.atom(x)
            if r.c == 0 and len(r.m) == 1 and r.m[0][1] == 1: return r.m[0][0]
            return atom("lin", (r,), *r.range())
        if isinstance(x, Seq):
            out = []
            for s in x.segs:
                if s[0] == "lit": out.append(("lit", self.args(s[1])))
                elif s[0] == "sub": out.append(("sub", s[1], self.go(s[2]), self.go(s[3])))
                else: out.append(("rep", self.go(s[1]), self.go(s[2])))
            return Seq(tuple(out))
        if isinstance(x, Agg): return Agg(x.ty, x.var, self.args(x.f))
        if isinstance(x, Clo): return Clo(x.key, self.args(x.up), x.ty)
        if isinstance(x, Ptr):
            return Ptr(x.al, self.args(x.path), None if x.sl is None else self.args(x.sl))
        if isinstance(x, tuple) and x:
            if x[0] == "le": return le0(self.go(x[1]))
            if x[0] == "eq": return eq0(self.go(x[1]))
            if x[0] == "ne": return neg(eq0(self.go(x[1])))
            if x[0] in ("ba", "nba"):
                r = self.m.get(x[1])
                if r is not None and r.is_const(): return (r.c != 0) == (x[0] == "ba")
                return (x[0], self.go(x[1]))
            if x[0] == "and": return b_and(*[self.go(y) for y in x[1]])
            if x[0] == "or": return b_or(*[self.go(y) for y in x[1]])
            return self.args(x)
        return x

def rebuild(a, na):
    k = a.kind
    if k == "fld":
        base = na[0]
        if isinstance(base, Atom) and base.kind == "lin": base = base.args[0]
        l = of_atom(base) if isinstance(base, Atom) else base
        bs = to_bits(l, 64)
        if bs is not None: return from_bits(bs[na[1]:na[1] + na[2]])
        return of_atom(atom("fldx", (l, na[1], na[2]), 0, (1 << na[2]) - 1))
    if k == "div": return floordiv(na[0], na[1])
    if k == "wrap": return wrap(na[2], na[0], na[1])
    if k == "b2i": return b2i(na[0])
    return of_atom(atom(k, na, a.lo, a.hi))

def floordiv(l, c):
    if l.is_const(): return Lin(l.c // c)
    if c == 1: return l
    # exact part
    q = {}; r = {}
    for a, k in l.m:
        if k % c == 0: q[a] = k // c
        else: r[a] = k
    qc, rc = divmod(l.c, c)
    rest = mk(rc, r)
    lo, hi = rest.range()
    base = mk(qc, q)
    if lo is not None and hi is not None and lo >= 0 and hi < c: return base
    if c & (c - 1) == 0:
        bs = to_bits(rest, 64) if (lo is not None and lo >= 0) else None
        if bs is not None and hi is not None and hi < (1 << 64):
            return base + from_bits(bs[c.bit_length() - 1:])
    # move constants out: keep rest constant in [0,c)
    rl, rh = rest.range()
    return base + of_atom(atom("div", (rest, c), None if rl is None else rl // c, None if rh is None else rh // c))

def atoms_of(x, acc=None):
    """all atoms occurring anywhere in a value"""
    if acc is None: acc = set()
    if isinstance(x, Lin):
        for a, _ in x.m: atoms_of(a, acc)
    elif isinstance(x, Atom):
        if x not in acc:
            acc.add(x)
            for y in x.args: atoms_of(y, acc)
    elif isinstance(x, Seq):
        for s in x.segs: atoms_of(s[1:], acc)
    elif isinstance(x, Agg): atoms_of(x.f, acc)
    elif isinstance(x, Clo): atoms_of(x.up, acc)
    elif isinstance(x, Ptr):
        atoms_of(x.path, acc)
        if x.sl: atoms_of(x.sl, acc)
    elif isinstance(x, tuple):
        for y in x: atoms_of(y, acc)
    return acc
