"""The frame scanner over the one-sequence stream view (whose operations are decided by C06): C01, C02, C04, C05, C29."""
from ..model_parser import *
from . import dual as _dual
from . import packets as _packets
from .dual import Dual, adt_named
from ..model_build import ck_pair, fed_of
from ..report import relies

N = sym("len(V)", 0, MAXLEN)
P0 = sym("pos0", 0, None)
SLOT = 9

def V(i): return of_atom(atom("el", ("V", i if isinstance(i, Lin) else Lin(i)), 0, 255))

class Scan:
    def __init__(self, p):
        self.p = p
        self.D = Dual(p)
        if self.D.ty is None: raise Unsupported("no stream view")
        self.calc = {}
    def mk(self, I, st, pos):
        fs = I.T[self.D.ty]["variants"][0]["f"]
        t = self.talloc(I, st)
        vals = [None] * SLOT
        for i, (nm, ti) in enumerate([(y[0], y[1]) for y in fs]):
            k = I.T[ti]
            if k["k"] == "ref" and I.T[k["to"]]["k"] == "param": vals[i] = Ptr(t)
        st.store[("S", "V")] = Seq((("sub", "V", ZERO, N),))
        return Agg(self.D.ty, "dual", tuple(vals) + (pos,))
    def talloc(self, I, st):
        al = ("S", "T"); fs = I.T[self.D.ty]["variants"][0]["f"]
        for y in fs:
            k = I.T[y[1]]
            if k["k"] == "ref" and I.T[k["to"]]["k"] == "param": st.store[al] = Agg(k["to"], "room", ())
        return al

    def contracts(self, I):
        D = self.D; me = self
        def dual_of(I, s, p):
            q, v = p, None
            while True:
                v = I.load(s, q)
                if isinstance(v, Ptr): q = v; continue
                break
            return q, v
        def c(fn, pre=None):
            def g(I, s, args, dt, ref):
                if not isinstance(args[0], Ptr): return NotImplemented
                q, v = dual_of(I, s, args[0])
                if not (isinstance(v, Agg) and v.var == "dual"): return NotImplemented
                return explore(I, s, lambda s: fn(s, q, I.load(s, q).f[SLOT], args, dt))
            return g
        def move(s, q, to):
            v = I.load(s, q); frm = v.f[SLOT]
            I.store(s, q, v.with_f(SLOT, to))
            s.eff = s.eff + (("pos", frm, to),)
        def ln(s, q, pos, a, dt): return [(s, N - pos)]
        def empty(s, q, pos, a, dt): return [(s, eq(N - pos, ZERO))]
        def index(s, q, pos, a, dt):
            if not check(I, s, lt(a[1], N - pos), "index beyond the stream view"): return []
            return [(s, Ptr(("S", "V"), (("i", pos + a[1]),)))]
        def drain(s, q, pos, a, dt):
            if not check(I, s, le(a[1], N - pos), "drain beyond the stream view"): return []
            move(s, q, pos + a[1]); return [(s, UNIT)]
        def clear(s, q, pos, a, dt): move(s, q, N); return [(s, UNIT)]
        def peek(s, q, pos, a, dt):
            x, y = a[1].f[0], a[1].f[1]
            if not check(I, s, le(x, y), "peek of a backward range"): return []
            if not check(I, s, le(y, N - pos), "peek beyond the stream view"): return []
            w = s.fresh("split"); k = sym("split%s" % w, 0, None)
            if not s.assume(le(k, y - x)): return []
            return [(s, Agg("tuple", 0, (Ptr(("S", "V"), (), (pos + x, k)), Ptr(("S", "V"), (), (pos + x + k, y - x - k)))))]
        def take(s, q, pos, a, dt):
            n = a[1]
            if not check(I, s, le(n, N - pos), "take beyond the stream view"): return []
            outs = []
            bad = s.fork()
            move(s, q, pos + n)
            outs.append((s, Agg(dt, 0, (Ptr(("S", "V"), (), (pos, n)),))))
            room = any(b[0] == "ba" and b[1].kind == "opq" and b[1].args[0] == "room" and bad.facts.entails(eq(b[1].args[1], pos)) and bad.facts.entails(eq(b[1].args[2], n)) for b in bad.facts.bs)
            if not room and bad.assume(lt(CAP, n)) and not bad.facts.contradictory():
                et = I.T[dt]["variants"][1]["f"][0][1]
                outs.append((bad, Agg(dt, 1, (me.oom(I, et, n),))))
            return outs
        def room(s, q, pos, a, dt):
            d, t = a[1], a[2]
            if not check(I, s, le(d, N - pos), "query beyond the stream view"): return []
            no = s.fork(); outs = []
            if s.assume(le(d + t, N - pos)) and s.assume(("ba", atom("opq", ("room", pos + d, t), 0, 1))): outs.append((s, True))
            for b in (lt(N - pos, d + t), b_and(le(d + t, N - pos), lt(CAP, t))):
                x = no.fork()
                if x.assume(b) and not x.facts.contradictory(): outs.append((x, False))
            return outs
        def lost(s, q, pos, a, dt):
            l = N - pos; x = s.fork(); outs = []
            if s.assume(le(l, CAP)) and not s.facts.contradictory(): outs.append((s, ZERO))
            if x.assume(lt(CAP, l)) and not x.facts.contradictory(): outs.append((x, l - CAP))
            return outs
        tab = {"len": ln, "is_empty": empty, "index": index, "drain": drain, "clear": clear, "peek_raw": peek, "take": take,
               "can_drain_and_take": room, "potential_lost_bytes": lost}
        for k, f in self.p.funs.items():
            if "DualBuffer" not in f["path"] or "{closure" in k: continue
            nm = f["path"].rsplit("::", 1)[-1]
            if nm in tab: I.ext[k] = c(tab[nm])
            elif nm == "new": I.ext[k] = self.new
            elif nm == "drop": I.ext[k] = lambda I, s, a, dt, ref: [(s, UNIT)]
        def cap(I, s, args, dt, ref):
            q, v = dual_of(I, s, args[0])
            return [(s, CAP)] if isinstance(v, Agg) and v.var in ("room", "vec") else NotImplemented
        I.ext["parser::UnderlyingBuffer::max_capacity"] = cap
        # the running checksum (decided by C30), fed with pieces of the stream
        whole, accs = _packets_checksum(self.p)
        def upd(I, s, args, dt, ref):
            v = I.load(s, args[0])
            if not isinstance(v, Agg): return NotImplemented
            fed = fed_of(*v.f)
            if fed is None: return NotImplemented
            seq = norm(I, s, fed + I.load_slice(s, args[1]))
            if I.cost: s.eff = s.eff + (("cost", args[1].sl[1], 1, "checksum update"),)
            I.store(s, args[0], Agg(v.ty, v.var, ck_pair(seq))); return [(s, UNIT)]
        for ti, d in accs.items():
            if "result" in d:
                for f in d["update"]: I.ext[f["key"]] = upd
        def one(I, s, args, dt, ref):
            if I.cost: s.eff = s.eff + (("cost", args[0].sl[1], 1, "checksum"),)
            return [(s, Agg("tuple", 0, ck_pair(norm(I, s, I.load_slice(s, args[0])))))]
        for f in whole:
            if "checksum" in f["path"].lower(): I.ext[f["key"]] = one
        def mp(I, s, args, dt, ref):
            t = I.T[dt]; pt = t["variants"][0]["f"][0][1]
            s.eff = s.eff + (("match", args[0], args[1], I.load_slice(s, args[2])),)
            return [(s, Agg(dt, 0, (SymV(pt, "delivered"),)))]
        for k, f in self.p.funs.items():
            if f["path"].endswith("::match_packet"): I.ext[k] = mp
    def oom(self, I, et, n):
        for i, v in enumerate(I.T[et]["variants"]):
            if v["n"] == "OutOfMemory": return Agg(et, i, (n,))
        raise Unsupported("error type")
    def new(self, I, s, args, dt, ref):
        self.made.append((args[0], args[1]))
        return [(s, self.mk(I, s, ZERO))]

    def next(self):
        p = self.p
        fs = [f for k, f in p.funs.items() if f["path"].rsplit("::", 1)[-1] == "next" and "ParserIter" in f["path"] and k.endswith(" @ " + f["path"])]
        if len(fs) != 1: raise Unsupported("ParserIter::next not found")
        f = fs[0]
        I = Interp(p); self.contracts(I); st = State(); self.made = []
        ti = p.T[f["locals"][1][0]]["to"]
        st.store[("S", "it")] = self.iter_value(I, st, ti)
        st.assume(le(P0, N))
        outs = I.run(f["key"], [Ptr(("S", "it"))], st)
        return f, I, [(s, v) for s, v in outs if not s.facts.contradictory()]
    def iter_value(self, I, st, ti):
        fs = I.T[ti]["variants"][0]["f"]
        self.extra = [y[0] for y in fs if y[1] != self.D.ty]
        self.slot = [i for i, y in enumerate(fs) if y[1] == self.D.ty]
        if len(self.slot) != 1: raise Unsupported("ParserIter without a stream view")
        return Agg(ti, 0, tuple(self.mk(I, st, P0) if y[1] == self.D.ty else I.sym_value(st, y[1], "it." + y[0]) for y in fs))
    def pos(self, s, al=("S", "it")): return s.store[al].f[self.slot[0]].f[SLOT]

    def consume(self):
        p = self.p
        fs = [f for k, f in p.funs.items() if f["path"].rsplit("::", 1)[-1] == "consume" and "Parser::<" in f["path"] and k.endswith(" @ " + f["path"])]
        if len(fs) != 1: raise Unsupported("Parser::consume not found")
        f = fs[0]
        I = Interp(p); self.contracts(I); st = State(); self.made = []
        q = _dual.parser_state(I, st, f)
        d = I.sym_value(st, f["locals"][2][0], "D")
        outs = I.run(f["key"], [q, d], st)
        return f, I, [(s, v) for s, v in outs if not s.facts.contradictory()], q, d

def _packets_checksum(p):
    from . import checksum
    return checksum.find(p)

_c = {}
def scan(p):
    """analyse `next` and `consume` once per process; also cached on disk by the content of the dump"""
    if id(p) not in _c:
        S = Scan(p)
        S.nx = S.next()
        S.cons = S.consume()
        _c[id(p)] = S
    return _c[id(p)]

# ---------------------------------------------------------------- justification of discarded bytes
B5, B62 = 0xB5, 0x62
def LEN(x): return V(x + 4) + V(x + 5) * 256
def max_doc(): return max(d["max"] for n, d in _packets.ref().items() if n not in _packets.RECORDS)

def skip_plain(s, cur, end):
    """advance cur over bytes known not to be the first sync character"""
    for rnd in range(12):
        if s.facts.entails(le(end, cur)): return cur
        if s.facts.entails(ne(V(cur), Lin(B5))) or not s.facts.entails(ne(V(cur), Lin(B5))) and known_ne(s, cur):
            cur = cur + 1; continue
        step = None
        for j, lo, hi, phi in s.facts.foralls:
            a = stream_ne(s, phi, j)
            if a is None: continue
            # covers [lo+a, hi+a)
            if hi + a != cur and s.facts.entails(le(lo + a, cur)) and s.facts.entails(le(cur, hi + a)) and not s.facts.entails(eq(cur, hi + a)): step = hi + a; break
        if step is None: return cur
        cur = step
    return cur
def known_ne(s, cur):
    """the byte at cur is known to differ from the first sync character, its index written in some equal way"""
    for b in s.facts.bs:
        if b[0] not in ("eq", "ne", "le") or len(b[1].m) != 1: continue
        a = b[1].m[0][0]
        if a.kind == "el" and a.args[0] == "V" and s.facts.entails(eq(a.args[1], cur)) and s.facts.entails(ne(of_atom(a), Lin(B5))): return True
    return False
def stream_ne(s, phi, j):
    """offset a such that phi(j) says V[j+a] is not the first sync character"""
    from ..facts import Facts
    for at in atoms_of(phi):
        if at.kind == "el" and at.args[0] == "V":
            a = at.args[1] - of_atom(j)
            if j in a.atoms(): continue
            if Facts((phi,)).entails(ne(of_atom(at), Lin(B5))): return a
    return None
def byte_is(s, i, v):
    if s.facts.entails(eq(V(i), Lin(v))): return True
    for b in s.facts.bs:
        if b[0] == "eq" and len(b[1].m) == 1:
            a = b[1].m[0][0]
            if a.kind == "el" and a.args[0] == "V" and s.facts.entails(eq(a.args[1], i)) and s.facts.entails(eq(of_atom(a), Lin(v))): return True
    return False
def byte_not(s, i, v):
    if s.facts.entails(ne(V(i), Lin(v))): return True
    for b in s.facts.bs:
        if b[0] in ("eq", "ne", "le") and len(b[1].m) == 1:
            a = b[1].m[0][0]
            if a.kind == "el" and a.args[0] == "V" and s.facts.entails(eq(a.args[1], i)) and s.facts.entails(ne(of_atom(a), Lin(v))): return True
    return False
def align(s, i):
    """the index as it is written in the facts, if an equal one occurs"""
    return i

def advance(s, cur, end, mx):
    """how far discarding from cur is justified without a reported rejection, up to end"""
    for rnd in range(12):
        cur = skip_plain(s, cur, end)
        if s.facts.entails(le(end, cur)): return cur
        if s.facts.entails(le(cur + 2, N)) and byte_is(s, cur, B5) and byte_not(s, cur + 1, B62): cur = cur + 1; continue
        if s.facts.entails(le(cur + 6, N)) and s.facts.entails(lt(Lin(mx), LEN(cur))): cur = cur + 1; continue
        return cur
    return cur

def runs(eff, skip=0):
    """maximal runs of consecutive position changes (a summarised loop in between has been judged on its own)"""
    out = []; cur = None
    for e in eff[skip:]:
        if e[0] == "pos":
            if cur is None: cur = [e[1], e[2]]
            else: cur[1] = e[2]
        elif e[0] == "loop":
            if cur is not None: out.append(cur)
            cur = None
    return out, cur

def show_state(s): return " & ".join(show(b) for b in s.facts.bs if not _trivial(b))[-500:]
def _trivial(b): return False
def mismatch(s, cur, end): return "bytes from %s are discarded up to %s, justified only up to %s; when %s"

class Judge:
    def __init__(self, p):
        self.p = p
        self.S = scan(p)
        self.f, self.I, self.outs = self.S.nx
        self.mx = max_doc()
        self.ceil = max([m["MAX_PAYLOAD_LEN"] for m in _packets.metas(p).values() if m.get("MAX_PAYLOAD_LEN")] or [0])
        self.recs = []
        for rec in self.I.loop_records: self.recs.append(rec)
    def kind(self, s, v):
        """('none',) / ('ok', packet) / ('err', name, fields) / None"""
        if not isinstance(v, Agg): return None
        if v.var == 0: return ("none",)
        r = v.f[0]
        if not isinstance(r, Agg): return None
        if r.var == 0: return ("ok", r.f[0])
        e = r.f[0]
        if not isinstance(e, Agg): return None
        vr = self.I.T[e.ty]["variants"][e.var]
        return ("err", vr["n"], {y[0]: x for y, x in zip(vr["f"], e.f)})
    def start_end(self, s):
        """the position where the judging of this return starts (last loop head or entry) and where it ends"""
        rs, cur = runs(s.eff)
        end = self.S.pos(s)
        if cur is None: return end, end
        return cur[0], end
    def frame_candidates(self, s, start, end):
        """positions at which the facts place a sync pair"""
        out = []
        for b in s.facts.bs:
            if b[0] == "eq" and len(b[1].m) == 1:
                a = b[1].m[0][0]
                if a.kind == "el" and a.args[0] == "V" and s.facts.entails(eq(of_atom(a), Lin(B5))) and a.args[1] not in out: out.append(a.args[1])
        for x in (end, end - 2, end - 1):
            if x not in out: out.append(x)
        return out
    def header(self, s, x): return byte_is(s, x, B5) and byte_is(s, x + 1, B62)

def judge(p):
    if not hasattr(p, "_judge"): p._judge = Judge(p)
    return p._judge

def guard(r, fn, what="frame scanner"):
    p = prog("std_alloc")
    try: return fn(p)
    except Unsupported as e: r.undecided(what, "", "%s %s" % (e, getattr(e, "at", ""))); return None

def uses(r, tier, view, buf, ck=False):
    """the contracts the scanner was analysed over: operations of the stream view, of the supplied buffers, the checksum"""
    from . import buffers, checksum
    def sel(names): return lambda o: names is None or (o.rsplit(": ", 1)[-1] in names)
    relies(r, _dual.c06, tier, sel(view), "the stream view")
    relies(r, buffers.c07, tier, sel(buf), "the supplied buffers")
    if ck: relies(r, checksum.c30, tier, lambda o: True, "the checksum routines")

def deliveries(J):
    for s, v in J.outs:
        k = J.kind(s, v)
        if k and k[0] == "ok": yield s, v

def c01(r, tier):
    r.rule = ("every path of ParserIter::next that delivers a packet, from any stream and position: sync pair, class, id, little-endian length, payload slice and both UBX checksum bytes must be "
              "entailed at the place the payload is taken from")
    J = guard(r, judge)
    if J is None: return
    r.fn(J.f["path"]); n = 0
    for i, (s, v) in enumerate(deliveries(J)):
        n += 1
        d = delivered(J, s, v)
        if d[0] == "bad": r.bad("delivery", J.f["span"], d[1])
        elif d[0] == "und": r.undecided("delivery", J.f["span"], d[1])
        else: r.ok("delivery path %d" % n, J.f["span"], d[1])
    r.need("delivering paths", n, 1)
    r.count("paths", len(J.outs))
    uses(r, tier, ("new", "len", "is_empty", "index", "peek_raw", "take", "drain"), ("index", "index range", "drain", "extend_from_slice", "len", "new"), ck=True)

def delivered(J, s, v):
    """('ok', start, text) when the delivered packet is a whole checksum-correct frame of the stream"""
    ms = [e for e in s.eff if e[0] == "match"]
    if len(ms) != 1: return ("und", "delivered without (or with several) dispatch")
    _, c, i, seq = ms[0]
    pk = J.kind(s, v)[1]
    if not (isinstance(pk, SymV) and pk.name == "delivered"): return ("und", "the delivered value is not the dispatched one: %s" % show(pk))
    seq = norm(J.I, s, seq)
    if len(seq.segs) == 0:
        # empty payload: its place is known from the position
        o = J.S.pos(s) - 2; l = ZERO
    elif len(seq.segs) == 1 and seq.segs[0][0] == "sub" and seq.segs[0][1] == "V": o, l = seq.segs[0][2], seq.segs[0][3]
    else: return ("bad", "the payload is not a stretch of the stream: %s" % show(seq))
    x = o - 6
    w = show_state(s)
    if not s.facts.entails(le(ZERO, x)): return ("bad", "the payload starts before a whole header; when " + w)
    def is_el(t, idx): return isinstance(t, Lin) and (s.facts.entails(eq(t, V(idx))) or _dual.same_el(s, t, V(idx)))
    if not J.header(s, x): return ("bad", "no sync pair before the delivered frame at %s; when %s" % (show(x), w))
    if not is_el(c, x + 2): return ("bad", "class is %s instead of byte 2 of the frame" % show(c))
    if not is_el(i, x + 3): return ("bad", "id is %s instead of byte 3 of the frame" % show(i))
    if not s.facts.entails(eq(l, LEN(x))): return ("bad", "payload of %s bytes instead of the frame's length field" % show(l))
    if not s.facts.entails(le(x + 8 + l, N)): return ("bad", "the frame is not complete; when " + w)
    want = ck_pair(Seq((("sub", "V", x + 2, l + 4),)))
    for t, b, nm in ((want[0], V(x + 6 + l), "first"), (want[1], V(x + 7 + l), "second")):
        if not any(ck_known(s, t, b, x + 2, l + 4, y) for y in ("ckA", "ckB") if y == t.m[0][0].args[0]):
            return ("bad", "the %s checksum byte is not verified over class, id, length and payload; when %s" % (nm, w))
    return ("ok", x, "frame at %s, payload %s" % (show(x), show(seq)))

def ck_known(s, t, b, off, ln, which):
    """facts contain  ck(stretch) == V[..]  with the stretch and the byte at the right places"""
    if s.facts.entails(eq(t, b)): return True
    for f in s.facts.bs:
        if f[0] != "eq" or f[1].c != 0 or len(f[1].m) != 2: continue
        cks = [a for a, k in f[1].m if a.kind == "opq" and a.args[0] == which]
        els = [a for a, k in f[1].m if a.kind == "el" and a.args[0] == "V"]
        if len(cks) != 1 or len(els) != 1 or sum(k for a, k in f[1].m) != 0: continue
        if stretch_is(s, cks[0].args[1], off, ln) and s.facts.entails(eq(els[0].args[1], b.m[0][0].args[1])): return True
    return False
def stretch_is(s, seq, off, ln):
    if not seq.segs: return s.facts.entails(eq(ln, ZERO))
    cur = off
    for g in seq.segs:
        if g[0] == "sub" and g[1] == "V":
            if not s.facts.entails(eq(g[2], cur)): return False
            cur = cur + g[3]
        elif g[0] == "lit":
            for e in g[1]:
                if not (e == V(cur) or _dual.same_el(s, e, V(cur))): return False
                cur = cur + 1
        else: return False
    return s.facts.entails(eq(cur, off + ln))

def c02(r, tier):
    r.rule = ("every operation of the stream view under its contract's precondition, and every path of consume, next and drop over that contract: no reachable panic edge; "
              "preconditions are checked at each use")
    p = prog("std_alloc")
    def run(p): return _dual.result(p)
    R = guard(r, run, "stream view")
    if R is not None:
        by = {}
        for nm, x in R.panics: by.setdefault(nm, x)
        for nm, f in sorted(R.D.funs.items()):
            r.fn(f["path"]); oid = "stream view: " + nm
            if oid in R.und: r.undecided(oid, f["span"], R.und[oid])
            elif nm in by: r.bad(oid, by[nm].span, "%s when %s" % (by[nm].kind, show_state(by[nm].st)))
            else: r.ok(oid, f["span"])
    S = guard(r, scan)
    if S is not None:
        for nm, (f, I) in (("next", S.nx[:2]), ("consume", S.cons[:2])):
            r.fn(f["path"]); r.count("paths of " + nm, len((S.nx if nm == "next" else S.cons)[2]))
            bad = [x for x in I.panics if not x.st.facts.contradictory()]
            for x in bad[:5]: r.bad("parser: " + nm, x.span, "%s in %s when %s" % (x.kind, x.fn, show_state(x.st)))
            if not bad: r.ok("parser: " + nm, f["span"])
    from . import buffers
    buffers.panics(r, p)
    drops(r, p)
    others(r, p)
    uses(r, tier, ("new", "len", "can_drain_and_take", "potential_lost_bytes"), ("len", "max_capacity", "extend_from_slice"))

def others(r, p):
    """the remaining operations of the parser (construction, queries) reach no panic"""
    for k, f in sorted(p.funs.items()):
        if "Parser" not in f["path"] or "ParserIter" in f["path"] or "{closure" in k: continue
        if k.split(" @ ")[-1] != f["path"] and " @ " in k: continue
        nm = f["path"].rsplit("::", 1)[-1]
        if nm == "consume" or "Parser<" not in f["path"] and "Parser::<" not in f["path"]: continue
        I = Interp(p); contract(I, p); st = State(); oid = "parser: " + nm; r.fn(f["path"])
        try:
            args = []
            for i in range(f["argc"]):
                ti = f["locals"][i + 1][0]; t = I.T[ti]
                if t["k"] == "ref" and I.T[t["to"]]["k"] == "adt": args.append(_dual.parser_state(I, st, f))
                elif t["k"] == "param": args.append(Agg(ti, "vec", (Seq((("sub", "B", ZERO, sym("len(B)", 0, MAXLEN)),)),)))
                else: args.append(I.sym_value(st, ti, "a%d" % i))
            I.run(f["key"], args, st)
            bad = [x for x in I.panics if not x.st.facts.contradictory()]
            r.check(not bad, oid, f["span"], bad[:1])
        except Unsupported as e: r.undecided(oid, f["span"], "%s %s" % (e, getattr(e, "at", "")))

def drops(r, p):
    for im in p.impls:
        if im.get("trait") == "std::ops::Drop":
            n = p.tname(im["self"])
            if "DualBuffer" in n: continue
            r.undecided("drop of " + n, im.get("span", ""), "a destructor not covered by the stream view's contract")

def c04(r, tier):
    r.rule = "each loop met on any path of next and consume has a ranking argument; each returned item advances the stream position by at least one byte"
    J = guard(r, judge)
    if J is None: return
    S = J.S
    for nm, (f, I) in (("next", S.nx[:2]), ("consume", S.cons[:2])):
        r.fn(f["path"])
        recs = {}
        for rec in I.loop_records:
            recs.setdefault((rec.fn, rec.span), []).append(rec)
        for (fn, sp), rs in sorted(recs.items(), key=str):
            miss = [x for x in rs if x.rank is None]
            r.check(not miss, "loop in %s reached from %s" % (fn, nm), sp, [x.rank for x in rs][:1] if not miss else "no reason why it ends: " + rank_why(miss[0]))
        r.count("loops", len(recs))
    n = 0; worst = None
    for s, v in J.outs:
        k = J.kind(s, v)
        if k is None: r.undecided("returned item", J.f["span"], show(v)); continue
        if k[0] == "none": continue
        n += 1
        if not s.facts.entails(le(P0 + 1, J.S.pos(s))): worst = "%s returned without consuming a byte (position %s); when %s" % (k[:2], show(J.S.pos(s)), show_state(s))
        if not s.facts.entails(le(J.S.pos(s), N)): worst = "position %s beyond the stream" % show(J.S.pos(s))
    r.check(worst is None, "each item consumes at least one byte", J.f["span"], worst or "%d returning paths" % n)
    r.need("returning paths", n, 2)
    uses(r, tier, ("new", "len", "is_empty", "drain", "take", "clear"), ("len", "drain", "clear"))

def rank_why(rec):
    return "; ".join("from %s" % show_state(b)[-200:] for b in rec.backs[:1])

def c05(r, tier):
    r.rule = ("for every stream, position and iteration of the scanner: the bytes discarded must be exactly ones that cannot start a deliverable frame, each reported rejection must be true and "
              "name the right values, and the scanner may end only at an incomplete frame or at the end of the stream")
    J = guard(r, judge)
    if J is None: return
    S = J.S; f = J.f; sp = f["span"]; r.fn(f["path"], S.cons[0]["path"])
    # iterations
    nb = 0; bad = None
    for rec in J.recs:
        for b in rec.backs:
            if b.facts.contradictory(): continue
            nb += 1
            rs, cur = runs(b.eff, len(rec.entry.eff) if rec.entry is not None else 0)
            for a, e in rs + ([cur] if cur else []):
                got = advance(b, a, e, J.mx)
                if not b.facts.entails(eq(got, e)): bad = "an iteration discards bytes from %s up to %s, justified up to %s only; when %s" % (show(a), show(e), show(got), show_state(b))
            if any(x[0] == "match" for x in b.eff[len(rec.entry.eff):]): bad = "a matched frame is dropped without being delivered"
    r.check(bad is None, "bytes discarded while scanning", sp, bad or "%d iteration paths" % nb)
    # returns
    probs = {}; counts = {}
    for s, v in J.outs:
        k = J.kind(s, v)
        if k is None: r.undecided("returned item", sp, show(v)); continue
        a, e = J.start_end(s)
        what = {"none": "ending", "ok": "delivered frame", "err": "rejection"}[k[0]] + (" " + k[1] if k[0] == "err" else "")
        counts[what] = counts.get(what, 0) + 1
        m = judge_return(J, s, v, k, a, e)
        if m: probs.setdefault(what, m)
        rs, _ = runs(s.eff)
        for x, y in rs:
            got = advance(s, x, y, J.mx)
            if not s.facts.entails(eq(got, y)): probs.setdefault(what, "bytes from %s up to %s are discarded, justified up to %s; when %s" % (show(x), show(y), show(got), show_state(s)))
    for w, n in sorted(counts.items()):
        r.check(w not in probs, w, sp, probs.get(w, "%d paths" % n))
    for w in ("ending", "delivered frame", "rejection InvalidChecksum"): r.check(w in counts, "anchor: some path is a " + w)
    # the first scan when data is fed
    cf, CI, couts, q, d = S.cons
    bad = None
    for s, v in couts:
        if not isinstance(v, Agg): bad = "unexpected result"; continue
        dv = [x for x in v.f if isinstance(x, Agg) and x.var == "dual"]
        if len(dv) != 1: bad = "no stream view in the result"; continue
        e = dv[0].f[SLOT]
        got = advance(s, ZERO, e, J.mx)
        if not s.facts.entails(eq(got, e)): bad = "feeding discards bytes up to %s, justified up to %s; when %s" % (show(e), show(got), show_state(s))
    for rec in CI.loop_records:
        for b in rec.backs:
            rs, cur = runs(b.eff, len(rec.entry.eff))
            for a, e in rs + ([cur] if cur else []):
                got = advance(b, a, e, J.mx)
                if not b.facts.entails(eq(got, e)): bad = "feeding discards bytes from %s up to %s; when %s" % (show(a), show(e), show_state(b))
    r.check(bad is None and couts, "bytes discarded when data is fed", cf["span"], bad or "%d paths" % len(couts))
    made = S.made
    okm = all(isinstance(x, Ptr) and x.al == ("S", "parser") and y == d for x, y in made) and made
    r.check(okm, "the whole of the new data follows the retained bytes", cf["span"], [(show(x), show(y)) for x, y in made][:1])
    uses(r, tier, None, None, ck=True)

def judge_return(J, s, v, k, a, e):
    w = show_state(s)
    if k[0] == "ok":
        d = delivered(J, s, v)
        if d[0] != "ok": return d[1]
        x = d[1]
        got = advance(s, a, x, J.mx)
        if not s.facts.entails(eq(got, x)): return "bytes before the delivered frame are lost: from %s up to %s, justified up to %s; when %s" % (show(a), show(x), show(got), w)
        if not s.facts.entails(eq(e, x + 8 + LEN(x))): return "scanning resumes at %s instead of right after the frame at %s; when %s" % (show(e), show(x), w)
        return None
    if k[0] == "none":
        got = advance(s, a, e, J.mx)
        if not s.facts.entails(eq(got, e)): return "bytes from %s up to %s are discarded, justified up to %s; when %s" % (show(a), show(e), show(got), w)
        m = incomplete(J, s, e)
        if m: return m
        t = s.fork()        # MINCAP: the smallest buffer the documentation allows
        if t.assume(lt(CAP, N - e), le(Lin(4), CAP)) and not t.facts.contradictory(): return "it ends with more bytes unread than the buffer can keep, without saying that any are lost; when " + w
        return None
    # rejection
    cands = J.frame_candidates(s, a, e)
    msg = None
    for x in cands:
        if not J.header(s, x): continue
        got = advance(s, a, x, J.mx)
        if not s.facts.entails(eq(got, x)): continue
        if not (s.facts.entails(eq(e, x + 2)) or s.facts.entails(eq(e, x + 1))):
            msg = msg or "after the rejection scanning resumes at %s, not right after the sync pair at %s; when %s" % (show(e), show(x), w); continue
        m = rejection(J, s, k, x)
        if m is None: return None
        msg = m
    return msg or "a rejection is not tied to a sync pair; when " + w

def rejection(J, s, k, x):
    w = show_state(s)
    if k[1] == "InvalidChecksum":
        l = LEN(x)
        if not s.facts.entails(le(x + 8 + l, N)): return "checksum reported for an incomplete frame; when " + w
        want = [of_atom(atom("opq", (nm, None), 0, 255)) for nm in ()]
        ck = find_ck(s, x + 2, l + 4)
        exp = [t for t in (k[2].get("expect"), k[2].get("got"))]
        if None in exp: return None
        if not le_pair(s, exp[0], V(x + 6 + l), V(x + 7 + l)): return "the expected checksum reported is %s, not the frame's own bytes; when %s" % (show(exp[0]), w)
        g = exp[1]
        at = ck_atoms(g)
        if len(at) != 2 or [a.args[0] for a in at] != ["ckA", "ckB"] or not all(stretch_is(s, a.args[1], x + 2, l + 4) for a in at): return "the computed checksum reported is %s; when %s" % (show(g), w)
        # it must really differ
        f = s.facts.add(eq(of_atom(at[0]), V(x + 6 + l)), eq(of_atom(at[1]), V(x + 7 + l)))
        if f is not None and not f.contradictory() and not differs(s, at, x + 6 + l): return "a frame with a correct checksum can be rejected; when " + w
        return None
    if k[1] == "OutOfMemory":
        req = k[2].get("required_size")
        if s.facts.entails(le(x + 6, N)):
            l = LEN(x)
            if not s.facts.entails(lt(CAP, l + 8)): return "out of space reported for a frame that fits the buffer; when " + w
            if req is not None and not (s.facts.entails(le(l, req)) and s.facts.entails(le(req, l + 8))): return "required size reported is %s for a frame of %s payload bytes" % (show(req), show(l))
            return None
        if not s.facts.entails(lt(CAP, Lin(8))): return "out of space reported before the length is known; when " + w
        if req is not None and not s.facts.entails(le(req, Lin(8))): return "required size reported is " + show(req)
        return None
    return "unknown rejection " + k[1]

def differs(s, at, o):
    """the facts contain a disjunction (or one disequality) of checksum bytes and frame bytes"""
    def ne_ok(b):
        if b[0] != "ne" or b[1].c != 0 or len(b[1].m) != 2: return False
        cks = [a for a, k in b[1].m if a in at]; els = [a for a, k in b[1].m if a.kind == "el" and a.args[0] == "V"]
        if len(cks) != 1 or len(els) != 1: return False
        return s.facts.entails(eq(els[0].args[1], o + at.index(cks[0])))
    for b in s.facts.bs:
        if ne_ok(b): return True
        if b[0] == "or" and all(ne_ok(y) for y in b[1]): return True
    return False
def find_ck(s, off, ln): return None
def ck_atoms(l):
    if not isinstance(l, Lin) or l.c: return []
    m = sorted(l.m, key=lambda y: y[1])
    if [y[1] for y in m] != [1, 256]: return []
    return [y[0] for y in m if y[0].kind == "opq"]
def le_pair(s, l, a, b):
    if s.facts.entails(eq(l, a + b * 256)): return True
    if not isinstance(l, Lin) or l.c: return False
    m = sorted(l.m, key=lambda y: y[1])
    if [y[1] for y in m] != [1, 256]: return False
    return _dual.same_el(s, of_atom(m[0][0]), a) and _dual.same_el(s, of_atom(m[1][0]), b)

def incomplete(J, s, e):
    """the scanner ends only at the end of the stream or at an incomplete frame"""
    w = show_state(s)
    if s.facts.entails(le(N, e)): return None
    if not byte_is(s, e, B5): return "it ends at %s, which is neither the end of the stream nor a frame start; when %s" % (show(e), w)
    if s.facts.entails(lt(N, e + 2)): return None
    if not byte_is(s, e + 1, B62): return "it ends at a first sync character not followed by the second; when " + w
    if s.facts.entails(lt(N, e + 6)): return None
    if s.facts.entails(lt(N, e + 8 + LEN(e))): return None
    return "it ends although the frame at %s may be complete; when %s" % (show(e), w)

def c29(r, tier):
    r.rule = ("on every path where ParserIter::next reports the end, what is left is empty or starts with the first sync character and is shorter than header + largest accepted payload + checksum")
    J = guard(r, judge)
    if J is None: return
    r.fn(J.f["path"]); n = 0; bad = None; und = None
    for s, v in J.outs:
        k = J.kind(s, v)
        if k is None: und = show(v); continue
        if k[0] != "none": continue
        n += 1
        e = J.S.pos(s); left = N - e
        if s.facts.entails(le(left, ZERO)): continue
        if not byte_is(s, e, B5): bad = "left-over bytes do not start at a possible frame; when " + show_state(s)
        if not s.facts.entails(lt(left, Lin(8 + J.ceil))): bad = "%s bytes may be left over; when %s" % (show(left), show_state(s))
    if und: r.undecided("backlog", J.f["span"], und)
    r.check(bad is None, "backlog when nothing more can be delivered", J.f["span"], bad or "%d ending paths" % n)
    r.notes.append("largest declared payload: %d" % J.ceil)
    r.need("ending paths", n, 1)
    uses(r, tier, ("new", "len", "index", "take", "drain", "clear", "drop"), ("len", "drain", "clear", "extend_from_slice", "new"))
