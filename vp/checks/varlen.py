"""C16: builders with a repeated part append exactly one well-formed frame."""
from ..model_build import *
from ..loops import suffix_after, is_prefix
# builder: (class, id, fixed part of the payload as (field, width), repeated field)
DOC = {"CfgValSetBuilder": (0x06, 0x8a, (("version", 1), ("layers", 1), ("reserved1", 2)), "cfg_data")}
MAXPAY = 65535

def length_bytes(a, b):
    """the quantity whose low two bytes a, b are; None when they are not two bytes of one quantity"""
    if a.is_const() and b.is_const(): return a + b * 256
    for src in atoms_of(a):
        if src.kind == "raw":
            if [from_bits([(src, 8 * i + j, False) for j in range(8)]) for i in range(2)] == [a, b]: return src.args[1]
    x = a + b * 256
    ab, bb = to_bits(a, 8), to_bits(b, 8)
    if ab is None or bb is None: return x
    return from_bits(ab + bb)

def low16(x):
    """a simpler quantity congruent to x modulo 2^16"""
    while True:
        y = Lin(x.c, tuple((a, k) for a, k in x.m if k % 65536))
        if len(y.m) == 1 and y.c == 0 and y.m[0][1] == 1:
            a = y.m[0][0]
            if a.kind == "wrap" and a.args[0] >= 16: y = a.args[2]
        if y == x: return x
        x = y

def flat_bytes(v, n):
    while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
    if n == 1: return [v]
    b = to_bits(v, 8 * n)
    return None if b is None else [from_bits(b[8 * i:8 * i + 8]) for i in range(n)]

def setup(p, ti, rep):
    I = Interp(p); checksum_contracts(I, p); st = State(); b = builder_value(I, st, ti)
    fs = {x[0]: b.f[i] for i, x in enumerate(p.T[ti]["variants"][0]["f"])}
    def enc(I, s, args, dt, ref):
        it = args[0]; L = of_atom(atom("opq", ("enclen", it), 5, 12)); o = I.load(s, args[1])
        if not (isinstance(o, Agg) and o.var == "vec"): return NotImplemented
        s = s.fork(); I.store(s, args[1], Agg(o.ty, "vec", (o.f[0] + Seq((("sub", ("enc", it), ZERO, L),)),)))
        return [(s, L)]
    for k, g in p.funs.items():
        if g["path"].endswith("cfg_val::CfgVal::extend_to"): I.ext[k] = enc
    return I, st, b, fs

def check_frame(I, s, out, prefix, doc, fs, st0):
    """None when `out` is prefix ++ one well-formed frame, else (definite, reason)"""
    cls, id_, fixed, rep = doc
    if not is_prefix(prefix, out): return True, "bytes already present change: %s" % show(out)
    f = suffix_after(prefix, out)
    segs = list(f.segs)
    if not segs or segs[0][0] != "lit" or segs[-1][0] != "lit": return False, "frame of unknown shape: %s" % show(f)
    head = list(segs[0][1]); nfix = sum(w for _, w in fixed)
    if len(segs) == 1: head, tail = head[:-2], head[-2:]; mid = []
    else: tail = list(segs[-1][1]); mid = segs[1:-1]
    if len(tail) != 2: return True, "%d bytes after the repeated part instead of the two checksum bytes" % len(tail)
    want = [Lin(0xb5), Lin(0x62), Lin(cls), Lin(id_)]
    if head[:4] != want: return True, "starts with %s" % [show(x) for x in head[:4]]
    body = []
    for nm, w in fixed:
        x = flat_bytes(fs[nm], w)
        if x is None: return False, "field %s" % nm
        body += x
    if head[6:] != body: return True, "fixed fields are %s, documented %s" % ([show(x) for x in head[6:]], [show(x) for x in body])
    pay = Seq((("lit", tuple(head[6:])),) + tuple(mid)) if head[6:] else Seq(tuple(mid))
    n = pay.length()
    x = length_bytes(head[4], head[5])
    if x is None: return True, "length bytes are %s for %s payload bytes" % ([show(x) for x in head[4:6]], show(n))
    x = low16(x)
    if not s.facts.entails(eq(x, n)): return True, "the length bytes say %s, the payload is %s bytes" % (show(x), show(n))
    ca, cb = ck_pair(Seq((("lit", tuple(head[2:])),) + tuple(mid)))
    if tail != [ca, cb]: return True, "checksum bytes are %s, documented %s" % ([show(x) for x in tail], [show(ca), show(cb)])
    return None

def check_records(I, fs, rep):
    """the repeated part is the encodings of all items in order"""
    ptr = fs[rep]
    recs = [R for R in I.loop_records if any(isinstance(v, Agg) and v.var == "vec" for v in R.head.store.values())]
    if len(recs) != 1: return False, "%d loops append to the output" % len(recs)
    R = recs[0]
    key = next(k for k, v in R.head.store.items() if isinstance(v, Agg) and v.var == "vec")
    h = R.head.store[key].f[0]
    for b in R.backs:
        add = suffix_after(h, b.store[key].f[0]) if is_prefix(h, b.store[key].f[0]) else None
        if add is None: return False, "a pass rewrites the output"
        want = Ptr(ptr.al, ptr.path + (("i", ptr.sl[0] + R.k),))
        good = Seq((("sub", ("enc", want), ZERO, of_atom(atom("opq", ("enclen", want), 5, 12))),))
        if add != good: return True, "pass k appends %s, documented the encoding of item k" % show(add)
    for e in R.kend:
        if e is None: return False, "the number of items written is not determined"
        if e != ptr.sl[1]: return True, "writes %s of %s items" % (show(e), show(ptr.sl[1]))
    return None

def c16(r, tier):
    r.rule = ("the appending function of each variable-length builder is interpreted with an output of arbitrary content and an item list of arbitrary length (item encoding by contract, C19); "
              "the loop's invariant and closed form give the appended bytes, which must be sync, class, id, the payload's true length, fixed fields, item encodings in order, and the checksum of that frame; the vector form starts from empty")
    r.assumptions.append("the frame's payload fits its 16-bit length field")
    p = prog("std_alloc"); B = builders(p); n = 0
    have = {b: [(ti, d) for ti, d in l if "extend_to" in d] for b, l in B.items()}
    for bn, doc in sorted(DOC.items()):
        if not have.get(bn): r.bad(bn, "", "documented builder no longer has extend_to"); continue
        ti, d = have[bn][0]
        gen = [f for f in d["extend_to"] if "<T>" in f["key"]] or d["extend_to"]
        vec = [f for k, f in p.funs.items() if f["path"].endswith("into_packet_vec") and f["locals"][1][0] == ti or f["path"].endswith("into_packet_vec") and bn in f["path"]]
        for form, fl, least in (("extend_to", gen, None), ("extend_to", gen, 64), ("into_packet_vec", vec, None)):
            oid = "%s.%s%s" % (bn, form, " after at least %d other bytes:" % least if least else "")
            if not fl: r.bad(oid, "", "documented function no longer exists"); continue
            f = fl[0]; r.fn(f["key"]); sp = f["span"]; n += 1
            try:
                I, st, b, fs = setup(p, ti, doc[3])
                if form == "extend_to":
                    tt = p.T[f["locals"][2][0]]["to"]
                    pre = Seq((("sub", "O", ZERO, sym("len(O)", 0, 1 << 62)),))
                    if least: st.assume(le(Lin(least), pre.length()))
                    st.store[("S", "out")] = Agg(tt, "vec", (pre,))
                    outs = [(s, s.store[("S", "out")]) for s, v in I.run(f["key"], [b, Ptr(("S", "out"))], st)]
                else:
                    pre = Seq(()); outs = I.run(f["key"], [b], st)
                pan = []
                for q in I.panics:
                    if q.st.facts.contradictory(): continue
                    if "overflow" in q.kind and oversized(q.st): continue
                    pan.append(q)
                r.check(not pan, oid + " never panics", sp, "; ".join("%s in %s" % (q.kind, q.fn) for q in pan[:2]))
                outs = [(s, v) for s, v in outs if not s.facts.contradictory()]
                if not outs: r.bad(oid, sp, "never returns")
                for s, v in outs:
                    if not (isinstance(v, Agg) and v.var == "vec"): r.undecided(oid + " frame", sp, show(v)); continue
                    why = check_frame(I, s, v.f[0], empty_ok(s, pre), doc, fs, st)
                    if why is None: r.ok(oid + " frame", sp)
                    elif why[0]: r.bad(oid + " frame", sp, why[1])
                    else: r.undecided(oid + " frame", sp, why[1])
                    r.count("paths")
                why = check_records(I, fs, doc[3])
                if why is None: r.ok(oid + " records", sp)
                elif why[0]: r.bad(oid + " records", sp, why[1])
                else: r.undecided(oid + " records", sp, why[1])
            except Unsupported as e: r.undecided(oid, sp, "%s %s" % (e, getattr(e, "at", "")))
    other = sorted(b for b, l in have.items() if l and b not in DOC)
    if other: r.notes.append("no reference for: " + ", ".join(other))
    r.need("appending functions", n, 2)

def empty_ok(s, pre):
    return Seq(()) if s.facts.entails(eq(pre.length(), ZERO)) else pre

def oversized(st):
    """the failing sum is over a payload longer than the length field can say"""
    for v in st.store.values():
        if isinstance(v, Agg) and v.var == "vec":
            n = v.f[0].length()
            m = Lin(n.c, tuple((a, c) for a, c in n.m if show(of_atom(a)) != "len(O)"))
            if st.facts.entails(lt(Lin(MAXPAY + 8), m)): return True
    return False
