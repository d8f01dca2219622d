"""C14 fixed-length builders, C15 streaming form."""
import json, os, itertools
from ..bdd import Mean, same_meaning
from ..model_build import *
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REF = os.path.join(VERIF, "refs", "builders.json")

def discr_atoms(outs):
    ds = {}
    for bs, _ in outs:
        for b in bs:
            for a in atoms_of(b):
                if a.kind == "discr" and a.hi is not None: ds[a] = a.args[1] if len(a.args) > 1 else range(a.lo or 0, a.hi + 1)
                elif a.kind in ("sym", "el") and a.lo == 0 and a.hi == 1: ds[a] = range(2)
    return ds

class Multi(Exception): pass

def per_byte(I, outs):
    """canonical text per byte, comparable by meaning when the text differs (Mean)"""
    try: ts = per_byte_text(outs)
    except Unsupported as e:
        if not str(e).startswith(("path condition", "too many enum")): raise
        ts = ["(%s)" % e] * len(outs[0][1])
    return [Mean(t, I, [(bs, v[i]) for bs, v in outs]) for i, t in enumerate(ts)]

def per_byte_text(outs):
    """outs: [(facts list, [byte terms])] -> canonical text per byte, enumerating the finitely many enum cases the paths distinguish"""
    n = {len(v) for _, v in outs}
    if len(n) != 1: raise Multi("paths of different length: %s" % sorted(n))
    n = n.pop()
    if len(outs) == 1: return [show(x) for x in outs[0][1]]
    ds = discr_atoms(outs)
    keys = sorted(ds, key=repr)
    tot = 1
    for k in keys: tot *= len(ds[k])
    if tot > 20000: raise Unsupported("too many enum cases")
    rows = []
    for combo in itertools.product(*(ds[k] for k in keys)):
        m = {k: Lin(c) for k, c in zip(keys, combo)}
        hit = None
        for bs, v in outs:
            if any(subst(b, m) is False for b in bs): continue
            rest = [b for b in bs if subst(b, m) is not True]
            if rest: raise Unsupported("path condition beyond enum cases: %s" % show(rest[0]))
            w = tuple(show(subst(x, m)) if isinstance(x, Lin) else show(x) for x in v)
            if hit is not None and hit != w: raise Multi("ambiguous")
            hit = w
        rows.append((combo, hit))
    out = []
    for i in range(n):
        texts = {h[i] for c, h in rows if h is not None}
        if len(texts) == 1: out.append(texts.pop()); continue
        # case variables this byte depends on
        dep = []
        for j in range(len(keys)):
            groups = {}
            for c, h in rows:
                if h is not None: groups.setdefault(c[:j] + c[j + 1:], set()).add(h[i])
            if any(len(g) > 1 for g in groups.values()): dep.append(j)
        tab = {}
        for c, h in rows:
            if h is not None: tab[tuple(c[j] for j in dep)] = h[i]
        out.append("[%s]{%s}" % (",".join(repr(keys[j]) for j in dep), ";".join("%s:%s" % (",".join(map(str, k)), v) for k, v in sorted(tab.items()))))
    return out

def lit_bytes(I, st, v):
    if isinstance(v, Ptr): v = I.load_slice(st, v) if v.sl is not None else I.load(st, v)
    if not isinstance(v, Seq): raise Unsupported("not a byte array: %r" % (v,))
    out = []
    for s in v.segs:
        if s[0] == "lit": out += list(s[1])
        elif s[0] == "sub" and s[3].is_const(): out += [I.elem(st, s[1], s[2] + i) for i in range(s[3].c)]
        else: raise Unsupported("array of unknown content")
    return out

def array_form(p, ti, f):
    I = Interp(p); checksum_contracts(I, p); scaleback_contract(I, p)
    st = State(); bv = builder_value(I, st, ti)
    outs = I.run(f["key"], [bv], st)
    res = []
    for s, v in outs:
        if s.facts.contradictory(): continue
        res.append((list(s.facts.bs), lit_bytes(I, s, v)))
    return I, res

def ck_ok(bs):
    """the last two bytes are the checksum pair over everything between sync and checksum"""
    want = ck_pair(Seq((("lit", tuple(bs[2:-2])),)))
    return (bs[-2], bs[-1]) == want

def fixed_builders(p):
    out = {}
    for n, vs in builders(p).items():
        for ti, d in vs:
            if "into_packet_bytes" in d: out[n] = (ti, d)
    return out

def c14(r, tier):
    r.rule = ("the array a builder returns is evaluated symbolically, byte by byte, as a function of the builder's fields; header constants, per-byte field image and checksum coverage "
              "must equal the documented frame (refs/builders.json)")
    p = prog("std_alloc")
    R = json.load(open(REF)); SEM = json.load(open(REF.replace(".json", "_sem.json"))); B = fixed_builders(p)
    for n, ref in sorted(R.items()):
        if n not in B: r.bad("builder " + n, "", "documented builder no longer exists"); continue
        ti, d = B[n]
        for f in d["into_packet_bytes"] + [x for x in d.get("from", []) if x["argc"] == 1 and p.T[x["locals"][0][0]]["k"] == "array"]:
            oid = "%s as %s" % (n, "array conversion" if f["path"].endswith("from") else "into_packet_bytes")
            sp = f["span"]; r.fn(f["path"])
            try:
                I, res = array_form(p, ti, f)
                if I.panics: r.bad(oid, sp, "may panic: %s" % I.panics[0]); continue
                if not res: r.bad(oid, sp, "never returns"); continue
                bad = [b for _, b in res if len(b) != ref["len"] + 8]
                if bad: r.bad(oid + " length", sp, "frame of %d bytes, documented %d" % (len(bad[0]), ref["len"] + 8)); continue
                head = [Lin(x) for x in (0xb5, 0x62, ref["class"], ref["id"], ref["len"] & 255, ref["len"] >> 8)]
                bad = [b for _, b in res if b[:6] != head]
                r.check(not bad, oid + " header", sp, "%s, documented %s" % (bad and [show(x) for x in bad[0][:6]], [x.c for x in head]))
                bad = [b for _, b in res if not ck_ok(b)]
                r.check(not bad, oid + " checksum", sp, bad and [show(x)[:200] for x in bad[0][-2:]])
                got = per_byte(I, [(bs, b[6:-2]) for bs, b in res])
                for i, (g, w) in enumerate(zip(got, ref["payload"])):
                    m = same_meaning(g, w, SEM.get("%s %d" % (n, i)))
                    if m is None: r.undecided("%s payload byte %d" % (oid, i), sp, "is %s, documented %s" % (g, w))
                    else: r.check(m, "%s payload byte %d" % (oid, i), sp, "is %s, documented %s" % (g, w))
            except Multi as e: r.bad(oid, sp, str(e))
            except Unsupported as e: r.undecided(oid, sp, "%s %s" % (e, getattr(e, "at", "")))
    new = sorted(set(B) - set(R))
    if new: r.notes.append("builders without reference: " + ", ".join(new))
    r.need("fixed-length builders", len(B), 15)

# ---------------------------------------------------------------- C15
def writer_ext(I):
    """an arbitrary writer: every call may succeed or fail, and is recorded"""
    def split(I, s, dt, ev):
        t = I.T[dt]
        ok = s.fork(); ok.eff = s.eff + (ev + ("ok",),)
        er = s.fork(); nm = "error%d" % len(s.eff)
        et = t["variants"][1]["f"][0][1]
        e = SymV(et, nm)
        er.eff = s.eff + (ev + (nm,),)
        return [(ok, Agg(dt, 0, (UNIT,))), (er, Agg(dt, 1, (e,)))]
    def res(I, s, args, dt, ref): return split(I, s, dt, ("reserve", args[1]))
    def wr(I, s, args, dt, ref): return split(I, s, dt, ("write", I.load_slice(s, args[1])))
    I.ext["ubx_packets::MemWriter::reserve_allocate"] = res
    I.ext["ubx_packets::MemWriter::write"] = wr

def stream_form(p, ti, f):
    I = Interp(p); checksum_contracts(I, p); scaleback_contract(I, p); writer_ext(I)
    st = State(); bv = builder_value(I, st, ti)
    al = ("S", "out"); st.store[al] = SymV(p.T[f["locals"][2][0]]["to"], "out")
    return I, I.run(f["key"], [bv, Ptr(al)], st)

def c15(r, tier):
    r.rule = ("create_packet is explored over a writer whose every call may fail; on each path the recorded calls must be one reservation of exactly the frame length first, "
              "then writes, nothing after a failure, the failing call's error returned; the writes of success paths concatenate to the array form byte for byte")
    p = prog("std_alloc")
    B = fixed_builders(p); seen = 0
    for n, (ti, d) in sorted(B.items()):
        fs = d.get("create_packet", [])
        if not fs: r.bad("streaming form of " + n, "", "no create_packet"); continue
        for f in fs[:1]:
            seen += 1
            sp = f["span"]; r.fn(f["path"])
            try:
                I, outs = stream_form(p, ti, f)
                if I.panics: r.bad(n + " streaming panics", sp, I.panics[0]); continue
                I2, arr = array_form(p, ti, d["into_packet_bytes"][0])
                good = []
                ln = {len(b) for _, b in arr}
                why = None; npath = 0
                for s, v in outs:
                    if s.facts.contradictory(): continue
                    npath += 1
                    ev = s.eff
                    fails = [i for i, e in enumerate(ev) if e[2] != "ok"]
                    if any(e[0] == "loop" for e in ev): raise Unsupported("writes in a loop")
                    if not ev or ev[0][0] != "reserve" or sum(e[0] == "reserve" for e in ev) != 1: why = "space is not requested once before the writes: %s" % ev_text(ev)
                    elif not (isinstance(ev[0][1], Lin) and ev[0][1].is_const() and {ev[0][1].c} == ln): why = "requests %s bytes for a frame of %s" % (show(ev[0][1]), sorted(ln))
                    if fails and fails[0] != len(ev) - 1: why = "continues after a failed call: %s" % ev_text(ev)
                    if fails:
                        e = ev[fails[0]][2]
                        if v.var != 1 or not (isinstance(v.f[0], SymV) and v.f[0].name == e): why = "a failing call's error is not returned: %s -> %s" % (ev_text(ev), show(v))
                    else:
                        if v.var != 0: why = "reports failure although every call succeeded: %s" % show(v)
                        else: good.append((list(s.facts.bs), [b for e in ev[1:] for b in lit_bytes(I, s, e[1])]))
                r.count("paths", npath)
                if why: r.bad(n + " writer protocol", sp, why)
                else: r.ok(n + " writer protocol", sp)
                if not good: r.bad(n + " bytes", sp, "no successful path"); continue
                a = per_byte(I2, arr); b = per_byte(I, good)
                same = len(a) == len(b) and all(x == y or same_meaning(x, y, y.sem()) for x, y in zip(a, b))
                r.check(same, n + " streamed bytes equal the array form", sp, first_diff(a, b))
            except Multi as e: r.bad(n + " streamed bytes equal the array form", sp, str(e))
            except Unsupported as e: r.undecided("streaming form of " + n, sp, "%s %s" % (e, getattr(e, "at", "")))
    r.need("streaming builders", seen, 15)
    vec_writer(r, p)

def ev_text(ev): return "; ".join("%s(%s)=%s" % (e[0], show(e[1])[:60], e[2]) for e in ev)
def first_diff(a, b):
    if len(a) != len(b): return "%d bytes streamed, %d in the array" % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return "byte %d: streamed %s, array %s" % (i, y[:200], x[:200])

def vec_writer(r, p):
    """the provided growable writer: reserving changes nothing, writing appends exactly the bytes, both succeed"""
    p = prog("std"); n = 0
    for what in ("reserve_allocate", "write"):
        f = p.funs.get("<std::vec::Vec<u8> as ubx_packets::MemWriter>::" + what)
        oid = "Vec<u8> writer " + what
        if f is None: r.bad(oid, "", "Vec<u8> is no longer a writer"); continue
        r.fn(f["path"]); sp = f["span"]
        try:
            I = Interp(p); st = State(); vt = p.T[f["locals"][1][0]]["to"]
            st.store[("S", "v")] = I.sym_value(st, vt, "v")
            old = st.store[("S", "v")].f[0]
            arg = I.sym_value(st, f["locals"][2][0], "buf")
            outs = [(s, v) for s, v in I.run(f["key"], [Ptr(("S", "v")), arg], st) if not s.facts.contradictory()]
            want = old if what != "write" else old + I.load_slice(st, arg)
            why = None
            if I.panics: why = "may panic: %s" % I.panics[0]
            if not outs: why = "never returns"
            for s, v in outs:
                if v.var != 0: why = "can report failure"
                elif I.load(s, Ptr(("S", "v"))).f[0] != want: why = "leaves %s, expected %s" % (show(I.load(s, Ptr(("S", "v"))).f[0])[:150], show(want)[:150])
            r.check(why is None, oid, sp, why)
        except Unsupported as e: r.undecided(oid, sp, str(e))
