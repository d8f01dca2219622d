"""Run time as a function of the bytes consumed: C33."""
from ..model_parser import *
from . import dual as _dual, buffers as _buffers, checksum as _checksum, packets as _packets, parser as _parser

A = 16                                     # charged steps allowed per byte
def total(eff):
    """(sum of the charged work, None) or (None, why no bound follows from the text)"""
    t = ZERO
    for e in eff:
        if e[0] != "cost" or e[2] == "moves": continue
        if e[2] is None:
            return None, "each of %s rounds of the loop at %s does work that is not constant" % (show(e[1]), e[3])
        t = t + e[1] * e[2]
    return t, None

class Worst:
    """one verdict per operation from many paths"""
    def __init__(self): self.d = {}
    def put(self, oid, span, s, eff, limit, text):
        x = self.d.setdefault(oid, [span, [], 0, set()]); x[2] += 1
        t, why = total(eff)
        x[3] |= {e[3] for e in eff if e[0] == "cost" and e[2] != "moves"}
        if why is None and s.facts.entails(le(t, limit)): return
        if why is None:
            # each summand within the allowance of its own
            parts = [e[1] * e[2] for e in eff if e[0] == "cost" and e[2] != "moves"]
            if len(parts) <= A // 2 and all(s.facts.entails(le(q * len(parts), limit)) for q in parts): return
            why = "does %s steps of work where %s are allowed (%s): %s" % (show(t), show(limit), text, ", ".join("%s at %s" % (show(e[1]), e[3]) for e in eff if e[0] == "cost" and e[2] != "moves"))
        x[1].append(why + "; when " + _parser.show_state(s))
    def report(self, r):
        for oid, (span, bad, n, places) in sorted(self.d.items()):
            if bad: r.bad(oid, span, bad[0])
            else: r.ok(oid, span, "%d paths%s" % (n, "; work at " + ", ".join(sorted(places)) if places else ""))

def segments(eff):
    """stretches between summarised loops that advance the stream (those are judged round by round)"""
    out = [[]]
    for e in eff:
        if e[0] == "loop":
            if any(x[0] == "pos" for per in e[2] for x in per): out.append([])
        else: out[-1].append(e)
    return out

def scanner(r, p, W):
    S = _parser.Scan(p)
    f, I, outs = S.next()
    r.fn(f["path"])
    ceil = max([m["MAX_PAYLOAD_LEN"] for m in _packets.metas(p).values() if m.get("MAX_PAYLOAD_LEN")] or [0])
    frame = ceil + 64
    K = Lin(A * frame)
    text = "%d per byte consumed plus %d frames" % (A, A)
    def adv(seg, s):
        ps = [e for e in seg if e[0] == "pos"]
        return (ps[-1][2] - ps[0][1]) if ps else ZERO
    def judge(oid, span, s, eff):
        for seg in segments(eff): W.put(oid, span, s, seg, adv(seg, s) * A + K, text)
    for s, v in outs: judge("scanner: return", f["span"], s, s.eff)
    n = 0
    for rec in I.loop_records:
        ne = len(rec.entry.eff); moving = False
        for b in rec.backs:
            if b.facts.contradictory(): continue
            new = b.eff[ne:]
            if any(e[0] == "pos" for e in new): moving = True
        if not moving: continue
        for b in rec.backs:
            if b.facts.contradictory(): continue
            n += 1
            new = b.eff[ne:]; d = adv([e for e in new if e[0] == "pos"], b)
            judge("scanner: round of the loop at %s" % rec.span.rsplit("/", 1)[-1], rec.span, b, new)
            oid = "scanner: every round consumes, loop at %s" % rec.span.rsplit("/", 1)[-1]
            x = W.d.setdefault(oid, [rec.span, [], 0, set()]); x[2] += 1
            if not b.facts.entails(le(Lin(1), d)): x[1].append("a round may consume nothing; when " + _parser.show_state(b))
    r.count("loop rounds", n); r.count("paths", len(outs))
    # what is left over when the iteration ends is a partial frame
    oid = "scanner: the rest kept when iteration ends is shorter than a frame"
    x = W.d.setdefault(oid, [f["span"], [], 0, set()])
    for s, v in outs:
        if isinstance(v, Agg) and v.var == 0:
            x[2] += 1
            end = S.pos(s)
            if not s.facts.entails(le(_parser.N - end, Lin(ceil + 7))): x[1].append("up to %s bytes stay behind; when %s" % (show(_parser.N - end), _parser.show_state(s)))
        elif isinstance(v, Agg):
            # an item costs at least a byte
            o2 = "scanner: every item consumes"
            y = W.d.setdefault(o2, [f["span"], [], 0, set()]); y[2] += 1
            seg = segments(s.eff)[-1]
            if not s.facts.entails(le(Lin(1), adv(seg, s))): y[1].append("an item may be produced without consuming; when " + _parser.show_state(s))
    g, I2, outs2, q, d = S.consume()
    r.fn(g["path"])
    for s, v in outs2: W.put("consume", g["span"], s, s.eff, _parser.N * 4 + 1024, "the retained and the new bytes")

def view(r, p, W):
    c = sym("c", 0, (1 << 64) - 1)
    K = Lin(256)
    def hook(nm, f, I, s, a):
        D = cur[0]; oid = "stream view: " + nm
        if nm == "drain": lim, t = c * 4 + K, "the bytes given up"
        elif nm == "take": lim, t = (c + moved(I, s, D)) * 4 + K, "the bytes taken and those moved into the store for good"
        elif nm in ("drop", "clear"): lim, t = D.r * 4 + D.n * 4 + K, "the retained and the new bytes"
        else: lim, t = Lin(1024), "constant"
        W.put(oid, f["span"], s, s.eff, lim, t)
    def moved(I, s, D):
        # positions in the inputs only advance; a byte passed over is not moved again
        d = s.store[("S", "dual")]; t = ZERO
        for (nm, x), y in ((q, z) for q in D.ints for (fl, z) in zip([y[0] for y in I.T[D.ty]["variants"][0]["f"]], d.f) if fl == q[0]):
            if isinstance(y, Lin) and s.facts.entails(le(x, y)): t = t + (y - x)
        return t
    cur = [None]
    init = _dual.Run.__init__
    def spy(self, D, inv): cur[0] = D; init(self, D, inv)
    _dual.Run.__init__ = spy; _dual.HOOK = hook
    try: R = _dual.analyse(p)
    finally: _dual.Run.__init__ = init; _dual.HOOK = None
    for nm, f in R.D.funs.items(): r.fn(f["path"])
    for oid, why in R.und.items(): r.undecided(oid, "", why)
    # operations outside the contract of C06 are not charged to the scanner: say so
    for m in ("drain", "take", "len", "drop"): r.check(m in R.D.funs, "anchor: stream view " + m)

def stores(r, p, W):
    K = Lin(256)
    def hook(b, nm, f, I, s, C, a):
        oid = "%s: %s" % (b.name, nm); n = C.length() * 4
        if nm == "drain": lim, t = n + K, "the buffered bytes"
        elif nm in ("find", "clear"): lim, t = n + K, "the buffered bytes"
        elif nm.startswith("extend"):
            x = ZERO
            for y in a:
                if isinstance(y, Ptr) and y.sl is not None: x = x + y.sl[1] * 4
            lim, t = n + x + K, "the buffered bytes and the new ones"
        else: lim, t = Lin(1024), "constant"
        W.put(oid, f["span"], s, s.eff, lim, t)
    _buffers.HOOK = hook
    try:
        for b in _buffers.buffers(p):
            try: R = _buffers.analyse(p, b)
            except Unsupported as e: r.undecided(b.name, "", str(e)); continue
            for nm, f in b.funs.items(): r.fn(f["path"])
            for oid, why in R.und.items(): r.undecided(oid, "", why)
    finally: _buffers.HOOK = None

def sums(r, p, W):
    whole, accs = _checksum.find(p)
    n = sym("len(D)", 0, (1 << 63) - 1)
    todo = [(f, None) for f in whole if "checksum" in f["path"].lower()]
    for ti, d in sorted(accs.items()):
        if "result" in d: todo += [(f, (ti, (sym("A0", 0, 255), sym("B0", 0, 255)))) for f in d["update"]]
    for f, acc in todo:
        r.fn(f["path"])
        try: I, res = _checksum.run_on(p, f, Seq((("sub", "D", ZERO, n),)), acc)
        except Unsupported as e: r.undecided("checksum: " + f["path"], f["span"], "%s" % e); continue
        for s, _ in res: W.put("checksum: " + f["path"], f["span"], s, s.eff, n * A + 256, "%d per byte" % A)

def c33(r, tier):
    r.rule = ("work is charged per loop round and per byte handed to a library routine; on every path of the scanner between two rounds of its outer loop the charge is at most %d per byte consumed plus a "
              "constant set by the largest frame, every round and every item consumes, the rest kept is shorter than a frame, and each operation of the stream view, the buffers and the checksum is "
              "charged at most in proportion to the bytes it moves" % A)
    p = prog("std_alloc")
    W = Worst()
    Interp.COST = True
    try:
        for nm, go in (("frame scanner", scanner), ("stream view", view), ("supplied buffers", stores), ("checksum", sums)):
            try: go(r, p, W)
            except Unsupported as e: r.undecided(nm, "", "%s %s" % (e, getattr(e, "at", "")))
    finally: Interp.COST = False
    W.report(r)
    r.need("operations judged", len(W.d), 8)
