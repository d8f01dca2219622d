"""The stream view (retained bytes followed by new bytes) as one sequence: C06; its absence of panics feeds C02."""
from ..model_parser import *

def adt_named(p, name):
    return [i for i, t in enumerate(p.T) if t["k"] == "adt" and t["local"] and t["path"].rsplit("::", 1)[-1] == name]

class Dual:
    """one way of setting up a DualBuffer over symbolic contents"""
    def __init__(self, p):
        self.p = p
        self.funs = {}
        for k, f in p.funs.items():
            if "{closure" in k or "DualBuffer" not in f["path"]: continue
            nm = f["path"].rsplit("::", 1)[-1]
            if " @ " in k and k.split(" @ ", 1)[1] == f["path"] and nm not in self.funs: self.funs[nm] = f
        self.ty = None
        for nm, f in self.funs.items():
            t = p.T[f["locals"][1][0]] if f["argc"] else None
            if nm in ("len", "drain", "take") and t and t["k"] == "ref": self.ty = t["to"]; break
        self.inv = None

    def state(self, inv=None):
        I = Interp(self.p); contract(I, self.p); st = State()
        v = I.sym_value(st, self.ty, "d")
        t = I.T[self.ty]["variants"][0]["f"]
        ints = []
        self.talloc = None; n = None
        for (nm, ti), x in zip([(y[0], y[1]) for y in t], v.f):
            if isinstance(x, Lin): ints.append((nm, x))
            elif isinstance(x, Ptr) and x.sl is not None: n = x.sl[1]; self.nal = x.al; self.nname = nm
            elif isinstance(x, Ptr):
                c = st.store[x.al]
                self.talloc = x.al
        if self.talloc is None or n is None: raise Unsupported("shape of the stream view")
        r = sym("len(B)", 0, MAXLEN)
        self.r, self.n = r, n
        st.store[self.talloc] = Agg(st.store[self.talloc].ty, "vec", (Seq((("sub", "B", ZERO, r),)),))
        st.assume(le(r, CAP))
        st.store[("S", "dual")] = v
        self.val = v; self.ints = ints
        for c in (inv if inv is not None else self.inv): st.assume(c)
        return I, st
    def candidates(self):
        self.state(inv=[])
        out = []
        for nm, x in self.ints:
            for b in (self.r, self.n): out.append((nm, b))
        return out
    def inst(self, cand, v, s, I):
        """candidate invariant over the dual value v in state s"""
        fs = dict(zip([y[0] for y in I.T[self.ty]["variants"][0]["f"]], v.f))
        nm, b = cand
        lim = s.store[self.talloc].f[0].length() if b == self.r else self.n
        return le(fs[nm], lim)
    def view(self, I, s):
        """what remains to be read, as the drop glue would hand it back if the buffer had room for it all"""
        s2 = s.fork()
        seqs = []
        f = self.funs["drop"]
        sv = I.panics[:]
        I.unlimited = True
        try: outs = I.run(f["key"], [Ptr(("S", "dual"))], s2)
        finally: I.unlimited = False
        for s3, _ in outs:
            if s3.facts.contradictory(): continue
            seqs.append((s3, s3.store[self.talloc].f[0]))
        self.lost = [x for x in I.panics[len(sv):] if not x.st.facts.contradictory()]
        I.panics[:] = sv
        return seqs

def seq_diff(I, s, a, b):
    """None when the sequences are equal in every completion of s, else a description of a difference"""
    out = []
    if not s.facts.entails(eq(a.length(), b.length())):
        return "length %s instead of %s" % (show(a.length()), show(b.length()))
    q = sym("q", 0, None)
    s0 = s.fork()
    if not s0.assume(lt(q, a.length())) or s0.facts.contradictory(): return None
    def go(s):
        x = I.seq_at(s, a, q); y = I.seq_at(s, b, q)
        if x == y or same_el(s, x, y): return [(s, None)]
        return [(s, "byte %s is %s instead of %s" % (show(q), show(x), show(y)))]
    for s2, d in explore(I, s0, go):
        if d and not s2.facts.contradictory(): return d
    return None
def same_el(s, x, y):
    """the same element, its index possibly written differently"""
    if not (isinstance(x, Lin) and isinstance(y, Lin)) or x.c or y.c or len(x.m) != 1 or len(y.m) != 1: return False
    a, b = x.m[0][0], y.m[0][0]
    return a.kind == "el" and b.kind == "el" and a.args[0] == b.args[0] and x.m[0][1] == y.m[0][1] == 1 and s.facts.entails(eq(a.args[1], b.args[1]))

def sub_of(I, s, seq, a, n, fn):
    """outs of fn(state, sub-sequence), splitting cases as needed"""
    return explore(I, s, lambda s: fn(s, I.seq_slice(s, seq, a, n)))

def facts_of(s): return " & ".join(show(b) for b in s.facts.bs[-10:])

HOOK = None            # observer of every return of every operation (run time accounting)
class Run:
    def __init__(self, D, inv):
        self.D = D; self.inv = inv; self.problems = {}; self.panics = []; self.npaths = 0; self.und = {}; self.loops = []
        self.broken = set(); self.hook = HOOK
    def bad(self, oid, msg, s=None):
        if ".any[" in msg: self.und.setdefault(oid, "content after a loop that is not summarised: " + msg); return
        self.problems.setdefault(oid, msg + (" when " + facts_of(s) if s is not None else ""))
    def method(self, name, args, pre, judge):
        """run a method from an arbitrary well-formed state; judge(I, s, v, V0seq, outs)"""
        D = self.D; p = D.p; oid = "stream view: " + name
        f = D.funs.get(name)
        if f is None: return
        try:
            I, st = D.state(self.inv)
            V0 = None
            V = D.r + ZERO
            a = []
            for i, x in enumerate(args):
                if callable(x): x = x(I, f["locals"][i + 2][0])
                a.append(x)
            # the view before, in every case of the representation
            for s0, V in D.view(I, st):
                s = st.fork()
                for b in s0.facts.bs: s.assume(b)
                if not all([s.assume(c) for c in pre(V)]): continue
                if s.facts.contradictory(): continue
                outs = I.run(f["key"], [Ptr(("S", "dual"))] + a, s)
                self.npaths += len(outs)
                for s2, v in outs:
                    if s2.facts.contradictory(): continue
                    d2 = s2.store[("S", "dual")]
                    for c in self.inv_c if name != "drop" else ():
                        if not s2.facts.entails(D.inst(c, d2, s2, I)): self.broken.add(c)
                    if self.hook: self.hook(name, f, I, s2, a)
                    judge(I, s2, v, V)
            for x in I.panics:
                if not x.st.facts.contradictory(): self.panics.append((name, x))
            self.loops += I.loop_records
        except Unsupported as e:
            self.und[oid] = "%s %s" % (e, getattr(e, "at", ""))
    def view_is(self, oid, I, s, want, note="the bytes left to read are wrong"):
        """the view in s equals want"""
        for s2, got in self.D.view(I, s):
            d = seq_diff(I, s2, got, want)
            if d: self.bad(oid, "%s: %s" % (note, d), s2)
        for x in self.D.lost: self.bad(oid, "leaves a state in which the rest cannot be handed back (%s)" % x.kind, x.st)

def analyse(p):
    D = Dual(p)
    if D.ty is None: raise Unsupported("no stream view found")
    cands = D.candidates()
    for rnd in range(6):
        D.state(inv=[])
        R = Run(D, None)
        R.inv_c = cands
        # invariants over the initial symbols
        I, st = D.state(inv=[])
        R.inv = [D.inst(c, D.val, st, I) for c in cands]
        D.inv = R.inv
        go(R)
        if not R.broken: return R
        cands = [c for c in cands if c not in R.broken]
    return R

def go(R):
    D = R.D; p = D.p
    c = sym("c", 0, (1 << 64) - 1); c2 = sym("c2", 0, (1 << 64) - 1)
    def rest(oid, I, s, V, a):
        def g(s2, want): R.view_is(oid, I, s2, want); return []
        sub_of(I, s, V, a, V.length() - a, g)
    # construction
    f = D.funs.get("new")
    if f is not None:
        oid = "stream view: new"
        try:
            I, st = D.state([])
            outs = I.run(f["key"], [Ptr(D.talloc), Ptr(D.nal, (), (ZERO, D.n))], st)
            for s, v in outs:
                s.store[("S", "dual")] = v
                for cc in R.inv_c:
                    if not s.facts.entails(D.inst(cc, v, s, I)): R.broken.add(cc)
                want = Seq((("sub", "B", ZERO, D.r), ("sub", I_name(D), ZERO, D.n)))
                R.view_is(oid, I, s, norm(I, s, want), "a fresh view is not the retained bytes followed by the new ones")
            for x in I.panics: R.panics.append(("new", x))
        except Unsupported as e: R.und[oid] = str(e)
    # length
    def j_len(I, s, v, V):
        if not s.facts.entails(eq(v, V.length())): R.bad("stream view: len", "reports %s for %s bytes" % (show(v), show(V.length())), s)
        rest("stream view: len", I, s, V, ZERO)
    R.method("len", [], lambda V: [], j_len)
    def j_empty(I, s, v, V):
        e = eq(V.length(), ZERO)
        if not (s.facts.decide(v) is not None and s.facts.decide(v) == s.facts.decide(e)) and v != e: R.bad("stream view: is_empty", "is %s" % show(v), s)
    R.method("is_empty", [], lambda V: [], j_empty)
    # indexing
    def j_index(I, s, v, V):
        oid = "stream view: index"
        def g(s2):
            x = I.load(s2, v) if isinstance(v, Ptr) else v
            y = I.seq_at(s2, V, c)
            if not (x == y or same_el(s2, x, y)): R.bad(oid, "reads %s instead of %s" % (show(x), show(y)), s2)
            return []
        explore(I, s, g)
        rest(oid, I, s, V, ZERO)
    R.method("index", [c], lambda V: [lt(c, V.length())], j_index)
    # draining
    def j_drain(I, s, v, V): rest("stream view: drain", I, s, V, c)
    R.method("drain", [c], lambda V: [le(c, V.length())], j_drain)
    def j_clear(I, s, v, V): rest("stream view: clear", I, s, V, V.length())
    R.method("clear", [], lambda V: [], j_clear)
    # peeking
    def j_peek(I, s, v, V):
        oid = "stream view: peek_raw"
        def g(s2):
            a = I.load_slice(s2, v.f[0]); b = I.load_slice(s2, v.f[1])
            got = norm(I, s2, a + b)
            want = I.seq_slice(s2, V, c, c2 - c)
            d = seq_diff(I, s2, got, want)
            if d: R.bad(oid, d, s2)
            return []
        explore(I, s, g)
        rest(oid, I, s, V, ZERO)
    rng = lambda I, ti: Agg(ti, 0, (c, c2))
    R.method("peek_raw", [rng], lambda V: [le(c, c2), le(c2, V.length())], j_peek)
    # taking
    def j_take(I, s, v, V, oid="stream view: take"):
        if v.var == 0:
            def g(s2):
                got = I.load_slice(s2, v.f[0])
                want = I.seq_slice(s2, V, ZERO, c)
                d = seq_diff(I, s2, got, want)
                if d: R.bad(oid, "hands out the wrong bytes: " + d, s2)
                return []
            explore(I, s, g)
            rest(oid, I, s, V, c)
        else:
            if not s.facts.entails(lt(CAP, c)): R.bad(oid, "refuses bytes that fit the buffer", s)
            rest(oid, I, s, V, ZERO)
    R.method("take", [c], lambda V: [le(c, V.length())], j_take)
    # room for a later take
    def j_room(I, s, v, V):
        oid = "stream view: can_drain_and_take"
        for s2, b in explore(I, s, lambda s: [(s, s.decide(v))]):
            if not b:
                if not s2.facts.entails(b_or(lt(V.length(), c + c2), lt(CAP, c2))): R.bad(oid, "refuses bytes that are present and fit the buffer", s2)
                continue
            if not s2.facts.entails(le(c + c2, V.length())): R.bad(oid, "promises more bytes than there are", s2); continue
            rest(oid, I, s2.fork(), V, ZERO)
            np = len(I.panics)
            for s3, _ in I.run(D.funs["drain"]["key"], [Ptr(("S", "dual")), c], s2.fork()):
                for s4, t in I.run(D.funs["take"]["key"], [Ptr(("S", "dual")), c2], s3):
                    if s4.facts.contradictory(): continue
                    if t.var != 0: R.bad(oid, "promises bytes that cannot then be taken", s4)
            for x in I.panics[np:]:
                if not x.st.facts.contradictory(): R.bad(oid, "promises bytes, taking them panics (%s)" % x.kind, x.st)
            del I.panics[np:]
    if "drain" in D.funs and "take" in D.funs:
        R.method("can_drain_and_take", [c, c2], lambda V: [le(c, V.length())], j_room)
    # what would be lost
    def j_lost(I, s, v, V):
        oid = "stream view: potential_lost_bytes"
        L = V.length()
        ok = s.facts.entails(b_or(b_and(le(L, CAP), eq(v, ZERO)), b_and(lt(CAP, L), eq(v, L - CAP))))
        if not ok: R.bad(oid, "reports %s of %s bytes" % (show(v), show(L)), s)
        rest(oid, I, s, V, ZERO)
    R.method("potential_lost_bytes", [], lambda V: [], j_lost)
    # what is handed back when the iteration ends
    def j_drop(I, s, v, V):
        oid = "stream view: drop"
        got = s.store[D.talloc].f[0]
        for s2, b in explore(I, s, lambda s: [(s, s.decide(le(V.length(), CAP)))]):
            def g(s3, want):
                d = seq_diff(I, s3, got, want)
                if d: R.bad(oid, "the retained bytes are wrong: " + d, s3)
                return []
            sub_of(I, s2, V, ZERO, V.length() if b else CAP, g)
    R.method("drop", [], lambda V: [], j_drop)

def I_name(D): return D.nal[1]
NEEDED = ("new", "len", "index", "drain", "take", "drop")
_cache = {}
def result(p):
    if id(p) not in _cache: _cache[id(p)] = analyse(p)
    return _cache[id(p)]

def c06(r, tier):
    r.rule = ("each operation of the two-part stream view is run abstractly from every well-formed state (retained bytes, new bytes, offsets and capacity all symbolic); its result and the "
              "view left behind must be those of the same operation on one sequence; the view itself is what the drop glue hands back")
    p = prog("std_alloc")
    try: R = result(p)
    except Unsupported as e: r.undecided("stream view", "", "%s %s" % (e, getattr(e, "at", ""))); return
    report(r, R)
    # buffer queries of the parser
    parser_queries(r, p)
    r.notes.append("class invariant: " + ", ".join(show(b) for b in R.inv))

def report(r, R):
    D = R.D
    for nm in NEEDED: r.check(nm in D.funs, "anchor: stream view method " + nm)
    for nm, f in sorted(D.funs.items()):
        oid = "stream view: " + nm; r.fn(f["path"])
        if oid in R.und: r.undecided(oid, f["span"], R.und[oid])
        elif oid in R.problems: r.bad(oid, f["span"], R.problems[oid])
        else: r.ok(oid, f["span"])
    r.count("paths", R.npaths)

def parser_queries(r, p):
    for k, f in p.funs.items():
        if k.split(" @ ")[-1] != f["path"] or "Parser::<" not in f["path"]: continue
        nm = f["path"].rsplit("::", 1)[-1]
        if nm not in ("buffer_len", "is_buffer_empty"): continue
        I = Interp(p); contract(I, p); st = State()
        I.sym_value(st, f["locals"][1][0], "par")
        al = [a for a, v in st.store.items()]
        q = parser_state(I, st, f)
        oid = "parser: " + nm; r.fn(f["path"])
        try: outs = I.run(f["key"], [q], st)
        except Unsupported as e: r.undecided(oid, f["span"], str(e)); continue
        L = sym("len(B)", 0, MAXLEN)
        want = L if nm == "buffer_len" else eq(L, ZERO)
        r.check(outs and all(v == want or (nm == "buffer_len" and s.facts.entails(eq(v, L))) for s, v in outs) and not I.panics, oid, f["span"], [show(v) for _, v in outs][:3])

def parser_state(I, st, f):
    """a parser whose retained bytes are B"""
    pt = I.T[f["locals"][1][0]]["to"]
    v = I.sym_value(st, pt, "par")
    fs = []
    for x in v.f:
        if isinstance(x, SymV) and I.T[x.ty]["k"] == "param": x = Agg(x.ty, "vec", (Seq((("sub", "B", ZERO, sym("len(B)", 0, MAXLEN)),)),))
        fs.append(x)
    st.store[("S", "parser")] = Agg(v.ty, v.var, tuple(fs))
    return Ptr(("S", "parser"))
