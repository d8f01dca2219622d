"""The supplied buffers against the buffer contract (C07), their panics (part of C02), and unsafe operations (C28)."""
from ..model_parser import *
from .dual import seq_diff, facts_of, same_el

TRAIT = "UnderlyingBuffer"
METHODS = ("clear", "len", "max_capacity", "extend_from_slice", "drain", "find", "is_empty", "new", "index")

class Buf:
    """a supplied buffer type with its methods"""
    def __init__(self, p, ti, im):
        self.p, self.ti = p, ti
        self.name = p.tname(ti).split("<")[0].rsplit("::", 1)[-1]
        self.vec = p.T[ti]["path"].endswith("vec::Vec")
        self.funs = {}
        for k, f in p.funs.items():
            if "{closure" in k: continue
            nm = f["path"].rsplit("::", 1)[-1]
            if self.vec:
                if k.startswith("<std::vec::Vec<u8> as parser::UnderlyingBuffer>"): self.funs[nm] = f
                continue
            pth = p.T[ti]["path"]
            if f["argc"] and nm in ("clear", "len", "max_capacity", "extend_from_slice", "drain", "find", "is_empty") and TRAIT in k and p.T[f["locals"][1][0]]["k"] == "ref" and p.T[f["locals"][1][0]]["to"] == ti: self.funs[nm] = f
            if nm == "index" and f["argc"] == 2 and p.T[f["locals"][1][0]].get("to") == ti:
                a = p.T[f["locals"][2][0]]
                self.funs["index" if a["k"] == "int" else "index range"] = f
            if nm == "new" and f["locals"][0][0] == ti: self.funs["new"] = f
        for k, f in p.funs.items():
            if k.startswith("<Self as ") and f["path"].endswith("UnderlyingBuffer::is_empty"): self.default_empty = f
            if k.startswith("<Self as ") and f["path"].endswith("UnderlyingBuffer::find"): self.default_find = f
    def state(self, inv):
        I = Interp(self.p); contract(I, self.p); st = State()
        if self.vec:
            L = sym("len(B)", 0, MAXLEN)
            st.store[("S", "buf")] = Agg(self.ti, "vec", (Seq((("sub", "B", ZERO, L),)),))
            self.cap = None; self.ints = []
            return I, st
        v = I.sym_value(st, self.ti, "b")
        self.ints = []
        for y, x in zip(I.T[self.ti]["variants"][0]["f"], v.f):
            if isinstance(x, Lin): self.ints.append(y[0])
            elif isinstance(x, Ptr) and x.sl is not None: self.cap = x.sl[1]; self.mem = x
        st.store[("S", "buf")] = v
        for c in inv: st.assume(self.inst(I, c, v))
        return I, st
    def inst(self, I, c, v):
        fs = {y[0]: x for y, x in zip(I.T[self.ti]["variants"][0]["f"], v.f)}
        return le(fs[c], self.cap)
    def content(self, I, s):
        """[(state, content)] as the buffer itself presents it: its bytes 0..len()"""
        if self.vec: return [(s, s.store[("S", "buf")].f[0])]
        out = []
        n = len(I.panics)
        for s2, l in I.run(self.funs["len"]["key"], [Ptr(("S", "buf"))], s.fork()):
            f = self.funs["index range"]
            for s3, q in I.run(f["key"], [Ptr(("S", "buf")), Agg(f["locals"][2][0], 0, (ZERO, l))], s2):
                if s3.facts.contradictory(): continue
                out += explore(I, s3, lambda s: [(s, norm(I, s, I.load_slice(s, q)))])
        del I.panics[n:]
        return out

def buffers(p):
    out = []
    for im in p.impls:
        if (im.get("trait") or "").endswith("::" + TRAIT): out.append(Buf(p, im["self"], im))
    return out

class Res:
    def __init__(self, b): self.b = b; self.problems = {}; self.und = {}; self.panics = []; self.broken = set(); self.unsafe_bad = []; self.unsafe_ops = []; self.paths = 0

def analyse(p, b):
    if not b.vec:
        b.state([])
        if not hasattr(b, "mem"): raise Unsupported("shape of " + b.name)
    inv = list(b.ints) if not b.vec else []
    for rnd in range(6):
        R = Res(b); R.inv = inv
        go(R, p)
        if not R.broken: return R
        inv = [c for c in inv if c not in R.broken]
    return R

HOOK = None
def go(R, p):
    b = R.b; n = sym("n", 0, (1 << 64) - 1)
    def bad(oid, msg, s=None):
        if ".any[" in msg: R.und.setdefault(oid, "content after a loop that is not summarised: " + msg); return
        R.problems.setdefault(oid, msg + (" when " + facts_of(s) if s is not None else ""))
    def each(name, args, judge, pre=None):
        f = b.funs.get(name)
        if f is None: return
        oid = "%s: %s" % (b.name, name)
        try:
            I, st = b.state(R.inv)
            a = [x(I, st, f["locals"][i + 2][0]) if callable(x) else x for i, x in enumerate(args)]
            for s0, C in b.content(I, st):
                s = s0
                if pre and not all(s.assume(c) for c in pre(C)): continue
                if s.facts.contradictory(): continue
                s.store[("S", "buf")] = st.store[("S", "buf")]
                outs = I.run(f["key"], [Ptr(("S", "buf"))] + a, s.fork())
                R.paths += len(outs)
                for s2, v in outs:
                    if s2.facts.contradictory(): continue
                    if not b.vec:
                        for c in R.inv:
                            if not s2.facts.entails(b.inst(I, c, s2.store[("S", "buf")])): R.broken.add(c)
                    if HOOK: HOOK(b, name, f, I, s2, C, a)
                    judge(oid, I, s2, v, C, a)
            for x in I.panics:
                if not x.st.facts.contradictory(): R.panics.append((name, x))
            R.unsafe_bad += [(name,) + tuple(x[:4]) for x in I.unsafe_bad if not x[4].facts.contradictory()]
            R.unsafe_ops += [(name,) + tuple(x[:4]) for x in I.unsafe_ops]
        except Unsupported as e: R.und[oid] = "%s %s" % (e, getattr(e, "at", ""))
    def holds(oid, I, s, want, what="the content afterwards is wrong"):
        for s2, C in b.content(I, s):
            d = seq_diff(I, s2, C, want)
            if d: bad(oid, "%s: %s" % (what, d), s2)
    def same(oid, I, s, C): holds(oid, I, s, C, "the content changes")
    # construction
    f = b.funs.get("new")
    if f is not None:
        oid = b.name + ": new"
        try:
            I, st = b.state([])
            for s, v in I.run(f["key"], [b.mem], st):
                s.store[("S", "buf")] = v
                for c in R.inv:
                    if not s.facts.entails(b.inst(I, c, v)): R.broken.add(c)
                holds(oid, I, s, Seq(()), "a new buffer is not empty")
            for x in I.panics: R.panics.append(("new", x))
        except Unsupported as e: R.und[oid] = str(e)
    def j_clear(oid, I, s, v, C, a): holds(oid, I, s, Seq(()))
    each("clear", [], j_clear)
    def j_len(oid, I, s, v, C, a):
        if not s.facts.entails(eq(v, C.length())): bad(oid, "reports %s for %s bytes" % (show(v), show(C.length())), s)
        same(oid, I, s, C)
    each("len", [], j_len)
    def j_empty(oid, I, s, v, C, a):
        e = eq(C.length(), ZERO)
        for s2, t in explore(I, s, lambda s: [(s, s.decide(v))]):
            if s2.facts.decide(e) is not t: bad(oid, "is %s for %s bytes" % (t, show(C.length())), s2)
        same(oid, I, s, C)
    each("is_empty", [], j_empty)
    def room(C): return (Lin((1 << 64) - 1) if b.vec else b.cap) - C.length()
    def j_cap(oid, I, s, v, C, a):
        if not s.facts.entails(le(v, room(C) + C.length())): bad(oid, "promises more room than there is: " + show(v), s)
        if not s.facts.entails(le(C.length(), v)): bad(oid, "is below the current length: " + show(v), s)
        same(oid, I, s, C)
    each("max_capacity", [], j_cap)
    def data(I, st, ti): return I.sym_value(st, ti, "D")
    def j_ext(oid, I, s, v, C, a):
        D = Seq((("sub", "D", ZERO, a[0].sl[1]),)); l = a[0].sl[1]
        for s2, fits in explore(I, s, lambda s: [(s, s.decide(le(l, room(C))))]):
            took = l if fits else room(C)
            if not s2.facts.entails(eq(v, l - took)): bad(oid, "reports %s bytes left over instead of %s" % (show(v), show(l - took)), s2)
            holds(oid, I, s2, norm(I, s2, C + Seq((("sub", "D", ZERO, took),))))
    each("extend_from_slice", [data], j_ext)
    def j_drain(oid, I, s, v, C, a):
        for s2, more in explore(I, s, lambda s: [(s, s.decide(le(C.length(), n)))]):
            if more: holds(oid, I, s2, Seq(())); continue
            def g(s3): 
                holds(oid, I, s3, norm(I, s3, I.seq_slice(s3, C, n, C.length() - n))); return []
            explore(I, s2, g)
    each("drain", [n], j_drain)
    x = sym("value", 0, 255)
    def j_find(oid, I, s, v, C, a): find_judge(bad, oid, I, s, v, C, x); same(oid, I, s, C)
    each("find", [x], j_find)
    # the trait's own definitions, over any buffer honouring the contract
    for nm in ("default_find", "default_empty"):
        f = getattr(b, nm, None)
        if f is None: continue
        oid = "trait default: " + nm[8:]
        try:
            I = Interp(p); contract(I, p); st = State()
            C = Seq((("sub", "B", ZERO, sym("len(B)", 0, MAXLEN)),))
            st.store[("S", "any")] = Agg(p.T[f["locals"][1][0]]["to"], "vec", (C,))
            for s, v in I.run(f["key"], [Ptr(("S", "any"))] + ([x] if nm == "default_find" else []), st):
                if s.facts.contradictory(): continue
                if nm == "default_find": find_judge(bad, oid, I, s, v, C, x)
                elif v != eq(C.length(), ZERO):
                    for s2, t in explore(I, s, lambda s: [(s, s.decide(v))]):
                        if s2.facts.decide(eq(C.length(), ZERO)) is not t: bad(oid, show(v), s2)
            for y in I.panics:
                if not y.st.facts.contradictory(): bad(oid, "may panic: %s" % y.kind, y.st)
        except Unsupported as e: R.und[oid] = "%s %s" % (e, getattr(e, "at", ""))
    def j_idx(oid, I, s, v, C, a):
        def g(s2):
            y = I.load(s2, v); w = I.seq_at(s2, C, n)
            if not (y == w or same_el(s2, y, w)): bad(oid, "reads %s instead of %s" % (show(y), show(w)), s2)
            return []
        explore(I, s, g)
    each("index", [n], j_idx, lambda C: [lt(n, C.length())])
    m = sym("m", 0, (1 << 64) - 1)
    def j_rng(oid, I, s, v, C, a):
        def g(s2):
            d = seq_diff(I, s2, norm(I, s2, I.load_slice(s2, v)), I.seq_slice(s2, C, n, m - n))
            if d: bad(oid, d, s2)
            return []
        explore(I, s, g)
    each("index range", [lambda I, st, ti: Agg(ti, 0, (n, m))], j_rng, lambda C: [le(n, m), le(m, C.length())])

def find_judge(bad, oid, I, s, v, C, x):
    from ..facts import Facts
    if v.var == 1:
        i = v.f[0]
        def g(s2):
            if not s2.facts.entails(lt(i, C.length())): bad(oid, "reports a position outside the content", s2)
            elif not at_is(s2, I, C, i, x): bad(oid, "reports a position holding another value", s2)
            return []
        explore(I, s, g)
        upto = i
    else: upto = C.length()
    if s.facts.entails(le(upto, ZERO)): return
    j = atom("sym", ("w",), 0, None)
    for jj, lo, hi, phi in s.facts.foralls:
        if not (s.facts.entails(le(lo, ZERO)) and s.facts.entails(le(upto, hi))): continue
        g = C.segs[0]
        e = of_atom(atom("el", (g[1], g[2] + of_atom(jj)), 0, 255))
        if Facts((phi,)).entails(ne(e, x)): return
    bad(oid, "bytes before %s are not known to differ from the value" % show(upto), s)
def at_is(s, I, C, i, x):
    w = I.seq_at(s, C, i)
    if s.facts.entails(eq(w, x)): return True
    for b in s.facts.bs:
        if b[0] == "eq" and len(b[1].m) == 2:
            e = [a for a, k in b[1].m if a.kind == "el"]
            if len(e) == 1 and same_el(s, of_atom(e[0]), w) and s.facts.entails(eq(of_atom(e[0]), x)): return True
    return False

_cache = {}
def results(p):
    if id(p) not in _cache:
        out = []
        for b in buffers(p):
            try: out.append(analyse(p, b))
            except Unsupported as e: out.append((b, str(e)))
        _cache[id(p)] = out
    return _cache[id(p)]

def c07(r, tier):
    r.rule = ("each method of each supplied buffer, run abstractly from every state satisfying the inferred class invariant, for every argument: result and content afterwards (as the buffer's own "
              "len and range index present it) must be those of a bounded byte sequence")
    p = prog("std_alloc")
    rs = results(p)
    for R in rs:
        if isinstance(R, tuple): r.undecided(R[0].name, "", R[1]); continue
        names = sorted({n for n in R.problems} | set(R.und) | {"%s: %s" % (R.b.name, m) for m in R.b.funs} | {"trait default: " + nm[8:] for nm in ("default_find", "default_empty") if getattr(R.b, nm, None)})
        for oid in names:
            f = R.b.funs.get(oid.split(": ")[1]); sp = f["span"] if f else ""
            if f: r.fn(f["path"])
            if oid in R.problems: r.bad(oid, sp, R.problems[oid])
            elif oid in R.und: r.undecided(oid, sp, R.und[oid])
            else: r.ok(oid, sp)
        r.count("paths", R.paths)
        r.notes.append("%s invariant: %s" % (R.b.name, ", ".join(R.inv)))
        for m in ("clear", "len", "max_capacity", "extend_from_slice", "drain"): r.check(m in R.b.funs, "anchor: %s %s" % (R.b.name, m))
    r.need("supplied buffers", len(rs), 2)

def panics(r, p):
    for R in results(p):
        if isinstance(R, tuple): r.undecided(R[0].name, "", R[1]); continue
        by = {}
        for nm, x in R.panics: by.setdefault(nm, x)
        for nm, f in sorted(R.b.funs.items()):
            oid = "%s: %s" % (R.b.name, nm); r.fn(f["path"])
            if oid in R.und: r.undecided(oid, f["span"], R.und[oid])
            elif nm in by: r.bad(oid, by[nm].span, "%s in %s when %s" % (by[nm].kind, by[nm].fn, facts_of(by[nm].st)))
            else: r.ok(oid, f["span"])
