"""C19: configuration items: keys, encodings, decodings, lengths, list reading."""
import json, os
from ..model_build import *
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REF = os.path.join(VERIF, "refs", "cfgvals.json")
WIDTH = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8}
SIZES = {"bool": "1 bit", "u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8}

def cfgval(p):
    ts = [i for i, t in enumerate(p.T) if t["k"] == "adt" and t["local"] and t["adt"] == "enum" and t["path"].rsplit("::", 1)[-1] == "CfgVal" and not t.get("args")]
    if len(ts) != 1: return None, None
    return ts[0], p.T[ts[0]]["path"]

def method(p, base, m):
    """all instances of a method (generic ones included)"""
    return [f for k, f in sorted(p.funs.items()) if f["path"] == "%s::%s" % (base, m) and (k.endswith(" @ " + f["path"]) or " @ " not in k)]

def item(I, st, ti, vi):
    t = I.T[ti]["variants"][vi]
    return Agg(ti, vi, tuple(I.sym_value(st, x[1], "x") for x in t["f"]))

def encodings(p, ti, f, vi, kind):
    """[(facts, bytes, returned length, value)] of writing one item, by 'slice' (into a big enough slice) or 'extend'"""
    I = Interp(p); st = State(); v = item(I, st, ti, vi)
    st.store[("S", "v")] = v
    if kind == "slice":
        st.store[("S", "D")] = Seq((("sub", "D", ZERO, sym("len(D)", 0, (1 << 63) - 1)),))
        out = Ptr(("S", "D"), (), (ZERO, sym("len(D)", 0, (1 << 63) - 1)))
    else:
        oty = p.T[f["locals"][2][0]]["to"]
        st.store[("S", "D")] = Agg(oty, "vec", (Seq((("sub", "D", ZERO, sym("len(D)", 0, (1 << 63) - 1)),)),))
        out = Ptr(("S", "D"))
    res = []
    for s, n in I.run(f["key"], [Ptr(("S", "v")), out], st):
        if s.facts.contradictory(): continue
        seq = I.load_slice(s, out) if kind == "slice" else I.load(s, out).f[0]
        D0 = ("sub", "D", ZERO, sym("len(D)", 0, (1 << 63) - 1))
        if seq.segs == (D0,): by = []           # nothing is written at all
        elif kind == "slice":
            segs = seq.segs
            if not segs or segs[0][0] != "lit": raise Unsupported("item encoding %r" % seq)
            by = list(segs[0][1])
            rest = Seq(segs[1:])
            if rest != Seq((("sub", "D", Lin(len(by)), sym("len(D)", 0, (1 << 63) - 1) - len(by)),)): raise Unsupported("bytes after the item change: %r" % rest)
        else:
            segs = seq.segs
            if len(segs) != 2 or segs[0] != ("sub", "D", ZERO, sym("len(D)", 0, (1 << 63) - 1)) or segs[1][0] != "lit": raise Unsupported("item encoding %r" % seq)
            by = list(segs[1][1])
        res.append((s, by, n, subst_value(s, v)))
    pan = []
    for q in I.panics:
        if kind == "slice" and q.st.facts.entails(lt(sym("len(D)", 0, (1 << 63) - 1), Lin(5))): continue
        if q.st.facts.contradictory(): continue
        pan.append(q)
    return I, res, pan

def subst_value(s, v): return v

def expected(I, s, x, ty):
    """little-endian bytes of a value of a plain type, None when it is an enumeration or a mask (decided by code tables)"""
    t = I.T[ty]
    if t["k"] == "bool": return [b2i(x)] if I.is_bool(x) else None
    if t["k"] == "int":
        seq = I.to_le(x, t)
        return list(seq.segs[0][1]) if seq.segs and seq.segs[0][0] == "lit" else None
    return None

def tyname(p, ti): return p.T[ti]["s"].rsplit("::", 1)[-1]

def c19(r, tier):
    r.rule = ("for every item: the bytes written by each encoder (slice, growable output) are evaluated symbolically and must be the documented key and the value little-endian; the key's "
              "size class must equal the number of value bytes; the reported length must equal the bytes written; decoding those bytes followed by anything must give back the item; "
              "list reading is checked inductively at item boundaries")
    p = prog("std_alloc")
    R = json.load(open(REF))
    ti, base = cfgval(p)
    if ti is None: r.bad("configuration items", "", "CfgVal not found"); return
    T = p.T[ti]; names = {v["n"]: i for i, v in enumerate(T["variants"])}
    M = {m: method(p, base, m) for m in ("len", "parse", "write_to", "extend_to")}
    for m, fs in M.items():
        r.fn(*[f["path"] for f in fs])
        if not fs: r.bad("configuration item " + m, "", "CfgVal::%s not found" % m); return
    sp = M["write_to"][0]["span"]
    keys = {}
    npaths = 0
    for n, (wkey, wty, wcodes) in sorted(R.items()):
        vi = names.get(n)
        if vi is None: r.bad("item " + n, sp, "documented item no longer exists"); continue
        fty = T["variants"][vi]["f"][0][1]
        if tyname(p, fty) != wty: r.bad("item %s type" % n, sp, "%s, documented %s" % (tyname(p, fty), wty))
        try: npaths += one_item(r, p, ti, base, M, n, vi, fty, wkey, wcodes, keys)
        except Unsupported as e: r.undecided("item " + n, sp, "%s %s" % (e, getattr(e, "at", "")))
    for n, vi in sorted(names.items()):
        if n in R: continue
        try: npaths += one_item(r, p, ti, base, M, n, vi, T["variants"][vi]["f"][0][1], None, None, keys)
        except Unsupported as e: r.undecided("item " + n, sp, "%s %s" % (e, getattr(e, "at", "")))
    for k, ns in sorted(keys.items()): r.check(len(ns) == 1, "key 0x%08x names one item" % k, sp, "shared by " + ", ".join(ns))
    r.count("paths", npaths); r.need("items", len(names), 400)
    lists(r, p, ti, base)

def one_item(r, p, ti, base, M, n, vi, fty, wkey, wcodes, keys):
    npaths = 0
    I0 = Interp(p); st0 = State(); st0.store[("S", "v")] = item(I0, st0, ti, vi)
    ln = {v for s, v in I0.run(M["len"][0]["key"], [Ptr(("S", "v"))], st0) if not s.facts.contradictory()}
    sp = M["write_to"][0]["span"]
    why = None; key = None; codes = {}
    for m, kind in (("write_to", "slice"), ("extend_to", "extend")):
        for f in M[m]:
            I, res, pan = encodings(p, ti, f, vi, kind)
            for q in pan:
                # a slice that holds the whole item must not be refused
                L = max((len(b) for _, b, _, _ in res), default=12)
                f2 = q.st.facts.add(le(Lin(L), sym("len(D)", 0, (1 << 63) - 1)))
                if f2 is not None and not f2.contradictory(): why = "%s can panic although there is room (%s)" % (m, q.kind)
            if not res: why = "%s never returns" % m
            for s, by, nret, v in res:
                npaths += 1
                if len(by) < 5 or not all(isinstance(b, Lin) and b.is_const() for b in by[:4]): why = "%s does not start with a fixed key: %s" % (m, [show(b) for b in by[:4]]); continue
                k = sum(b.c << (8 * i) for i, b in enumerate(by[:4]))
                if key is None: key = k
                elif key != k: why = "encoders disagree on the key: 0x%08x, 0x%08x" % (key, k)
                if wkey is not None and k != wkey: why = "%s writes key 0x%08x, documented 0x%08x" % (m, k, wkey)
                w = WIDTH.get((k >> 28) & 7)
                if w != len(by) - 4: why = "%s writes %d value bytes under a key of size class %s" % (m, len(by) - 4, w)
                if nret != Lin(len(by)): why = "%s reports %s for %d bytes" % (m, show(nret), len(by))
                if ln != {Lin(len(by))}: why = "len() is %s for %d bytes" % ([show(x) for x in ln], len(by))
                x = v.f[0]
                e = expected(I, s, x, fty)
                t = p.T[fty]
                if e is not None:
                    if by[4:] != e: why = "%s writes %s for a %s" % (m, [show(b) for b in by[4:]], t["s"])
                elif t["k"] == "adt" and t["adt"] == "enum":
                    for i, var in enumerate(t["variants"]):
                        s2 = s.fork()
                        if not s2.assume(eq(I.discr_of(s, x), Lin(I.sdiscr(fty, var["d"])))) or s2.facts.contradictory(): continue
                        b = by[4]
                        if isinstance(b, Lin) and not b.is_const(): b = subst(b, {a: Lin(I.sdiscr(fty, var["d"])) for a in b.atoms() if a.kind == "discr"})
                        c = b.c if isinstance(b, Lin) and b.is_const() else show(b)
                        if codes.setdefault(var["n"], c) != c: why = "encoders disagree on the code of " + var["n"]
                # decoding what was written, whatever follows
                back = decode(p, base, M, s, by)
                if back is None: raise Unsupported("decoding")
                if not same(I, back, Agg(ti, vi, v.f), s): why = "decoding its encoding gives %s instead of %s" % (" or ".join(show(b) for _, b in back) or "a panic", show(v))
    if wcodes is not None and codes != wcodes: why = "value codes %s, documented %s" % (codes, wcodes)
    if key is not None: keys.setdefault(key, []).append(n)
    r.check(why is None, "item " + n, sp, why)
    return npaths

def decode(p, base, M, s, by):
    """values parse can give for these bytes followed by anything, under the facts of s"""
    I = Interp(p); s2 = s.fork()
    n = sym("len(rest)", 0, (1 << 62))
    s2.store[("S", "E")] = Seq((("lit", tuple(by)), ("sub", "rest", ZERO, n)))
    out = []
    for s3, v in I.run(M["parse"][0]["key"], [Ptr(("S", "E"), (), (ZERO, n + len(by)))], s2):
        if not s3.facts.contradictory(): out.append((s3, v))
    if any(not q.st.facts.contradictory() for q in I.panics): out.append((s2, "a panic"))
    return out

def same(I, outs, want, s):
    if not outs: return False
    for s2, v in outs:
        if v == want: continue
        if not isinstance(v, Agg) or v.ty != want.ty or v.var != want.var: return False
        a, b = v.f[0], want.f[0]
        if I.is_bool(a) or I.is_bool(b):
            A = a if I.is_bool(a) else None; B = b if I.is_bool(b) else None
            if isinstance(A, bool) and B is not None and s2.facts.entails(B if A else neg(B)): continue
            if A is not None and B is not None and show(A) == show(B): continue
            return False
        if isinstance(a, Agg) and not isinstance(b, Agg):
            if not isinstance(a.var, int) or a.f: return False
            t = I.T[a.ty]
            if not s2.facts.entails(eq(I.discr_of(s2, b), Lin(I.sdiscr(a.ty, t["variants"][a.var]["d"])))): return False
            continue
        x, y = I.as_lin(a), I.as_lin(b)
        if x is None or y is None: return False
        if s2.facts.entails(eq(x, y)): continue
        bx, by_ = to_bits(x, 64), to_bits(y, 64)
        if bx is None or bx != by_: return False
    return True

# ---------------------------------------------------------------- lists
def lists(r, p, ti, base):
    itn = [t for t in {p.T[im["self"]]["path"] for im in p.impls if im.get("trait") == "std::iter::Iterator" and p.T[im["self"]]["k"] == "adt"} if t.rsplit("::", 1)[-1] == "CfgValIter"]
    nx = [f for k, f in p.funs.items() if k.endswith("::next") and "CfgValIter" in k and f["argc"] == 1]
    if not itn or len(nx) != 1: r.bad("item list", "", "CfgValIter not found"); return
    f = nx[0]; r.fn(f["path"]); sp = f["span"]
    L = of_atom(atom("opq", ("item length",), 5, 12))
    try:
        I = Interp(p); st = State()
        def parse(I, s, args, dt, ref):
            s2 = s.fork(); s2.eff = s.eff + (("parse", args[0]),)
            return [(s2, SymV(dt, "item"))]
        def ln(I, s, args, dt, ref):
            v = I.load(s, args[0])
            return [(s, L)] if v == SymV(ti, "item") else NotImplemented
        I.ext[base + "::parse"] = parse; I.ext[base + "::len"] = ln
        ity = p.T[f["locals"][1][0]]["to"]
        it = I.sym_value(st, ity, "it"); st.store[("S", "it")] = it
        fs = {x[0]: i for i, x in enumerate(p.T[ity]["variants"][0]["f"])}
        if set(fs) != {"data", "offset"}: raise Unsupported("fields of CfgValIter: %s" % sorted(fs))
        d, o = it.f[fs["data"]], it.f[fs["offset"]]
        n = d.sl[1]; why = None
        # reading position inside the list
        outs = [(s, v) for s, v in I.run(f["key"], [Ptr(("S", "it"))], st) if not s.facts.contradictory()]
        inside = le(o, n)
        for s, v in outs:
            f2 = s.facts.add(inside)
            if f2 is None or f2.contradictory(): continue
            now = I.load(s, Ptr(("S", "it")))
            if v.var == 1:
                if not f2.entails(lt(o, n)): why = "yields an item past the end of the list"
                if [e for e in s.eff if e[0] == "parse"] != [("parse", Ptr(d.al, d.path, (d.sl[0] + o, n - o)))]: why = "an item is not decoded from the current position: %s" % (s.eff,)
                if v.f[0] != SymV(ti, "item"): why = "yields %s" % show(v)
                if now.f[fs["offset"]] != o + L: why = "advances to %s instead of by the item's length" % show(now.f[fs["offset"]])
            else:
                if not f2.entails(le(n, o)): why = "ends before the end of the list"
                if now != it: why = "moves at the end"
            if now.f[fs["data"]] != d: why = "the list itself changes"
        for q in I.panics:
            f2 = q.st.facts.add(inside)
            if f2 is not None and not f2.contradictory() and not q.st.facts.entails(lt(sym("x", 1 << 62), Lin(0))):
                if "overflow" in q.kind: continue
                why = "may panic: %s" % q
        if not outs: why = "never returns"
        r.check(why is None, "reading an item list", sp, why)
    except Unsupported as e: r.undecided("reading an item list", sp, "%s %s" % (e, getattr(e, "at", "")))
    # the constructor writes the items one after another and views exactly them
    nw = [f for k, f in p.funs.items() if f["path"].rsplit("::", 1)[-1] == "new" and "CfgValIter" in k]
    if not nw: r.bad("building an item list", sp, "CfgValIter::new not found"); return
    f = nw[0]; r.fn(f["path"]); sp = f["span"]
    try:
        I = Interp(p); st = State()
        def wt(I, s, args, dt, ref):
            s2 = s.fork(); s2.eff = s.eff + (("write", args[0], args[1]),)
            return [(s2, of_atom(atom("opq", ("written", args[0]), 5, 12)))]
        I.ext[base + "::write_to"] = wt
        a = [I.sym_value(st, f["locals"][1][0], "D"), I.sym_value(st, f["locals"][2][0], "items")]
        outs = [(s, v) for s, v in I.run(f["key"], a, st) if not s.facts.contradictory()]
        why = None
        if not outs: why = "never returns"
        rec = [x for x in I.loop_records]
        if outs and all(s.facts.entails(eq(a[1].sl[1], ZERO)) for s, v in outs): why = "never returns for a list that is not empty: %s" % [str(x) for x in I.panics][:1]
        for s, v in outs:
            fs = {x[0]: i for i, x in enumerate(p.T[v.ty]["variants"][0]["f"])}
            d = v.f[fs["data"]]; off = v.f[fs["offset"]]
            if off != ZERO: why = "starts reading at %s" % show(off)
            if d.al != a[0].al or d.sl[0] != a[0].sl[0]: why = "does not view the start of the storage"
            ev = [e for e in s.eff]
            if not ev and s.facts.entails(eq(a[1].sl[1], ZERO)): continue
            if len(ev) != 1 or ev[0][0] != "loop" or any(len(x) != 1 for x in ev[0][2]): raise Unsupported("writes: %s" % (ev,))
            k = ev[0][1]
            for body in ev[0][2]:
                _, vp, dst = body[0]
                if vp != Ptr(a[1].al, a[1].path + (("i", a[1].sl[0] + (k if isinstance(k, Lin) else of_atom(k))),)): why = "items are not written in order: %s" % (vp,)
                cur = d.sl[1]
                if dst.al != a[0].al or dst.sl[0] != a[0].sl[0] + cur: why = "an item is written at %s, the list ends at %s" % (show(dst.sl[0]), show(cur))
        if len(rec) != 1 and why is None: raise Unsupported("loops: %d" % len(rec))
        R_ = rec[0] if rec else None
        # the writing position starts at zero and advances by exactly what was written
        cur = {d.sl[1] for s, v in outs for d in [v.f[fs["data"]]] if s.eff}
        locs = [(key, v) for key, v in R_.head.store.items() if v in cur] if R_ else []
        if why is None:
            if len(cur) != 1 or len(locs) != 1: raise Unsupported("writing position: %s" % [show(c) for c in cur])
            key, v0 = locs[0]
            if R_.entry.store.get(key) != ZERO: why = "starts writing at %s" % show(R_.entry.store.get(key))
            for bk in R_.backs:
                w = bk.eff[-1]
                if bk.store[key] != v0 + of_atom(atom("opq", ("written", w[1]), 5, 12)): why = "the next item is written at %s" % show(bk.store[key])
        r.check(why is None, "building an item list", sp, why)
    except Unsupported as e: r.undecided("building an item list", sp, "%s %s" % (e, getattr(e, "at", "")))
