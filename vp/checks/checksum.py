"""C30: every checksum routine is the 8-bit Fletcher pair over its input."""
from ..model_ublox import *
from ..interp import Interp, State, Unsupported
from ..loops import fold1, fold2, mul_l

def is_byte_slice(p, ti):
    t = p.T[ti]
    if t["k"] != "ref": return False
    s = p.T[t["to"]]
    return s["k"] == "slice" and p.T[s["elem"]].get("k") == "int" and p.T[s["elem"]]["bits"] == 8
def is_pair(p, ti):
    t = p.T[ti]
    return t["k"] == "tuple" and len(t["elems"]) == 2 and all(p.T[e]["k"] == "int" and p.T[e]["bits"] == 8 for e in t["elems"])

def find(p):
    """(whole-slice functions, accumulator types {type: {update, result, init...}})"""
    whole = []; accs = {}
    for k, f in p.funs.items():
        if "{" in k: continue
        args = [f["locals"][i + 1][0] for i in range(f["argc"])]; ret = f["locals"][0][0]
        nm = f["path"].rsplit("::", 1)[-1]
        if len(args) == 1 and is_byte_slice(p, args[0]) and is_pair(p, ret): whole.append(f)
        elif len(args) == 2 and p.T[args[0]]["k"] == "ref" and p.T[p.T[args[0]]["to"]]["k"] == "adt" and is_byte_slice(p, args[1]):
            ti = p.T[args[0]]["to"]
            if p.T[ti]["local"] and p.T[args[0]].get("mut"):
                v = p.T[ti]["variants"]
                if v and len(v[0]["f"]) == 2 and all(p.T[x[1]]["k"] == "int" and p.T[x[1]]["bits"] == 8 for x in v[0]["f"]):
                    accs.setdefault(ti, {}).setdefault("update", []).append(f)
    for k, f in p.funs.items():
        ret = f["locals"][0][0]
        args = [f["locals"][i + 1][0] for i in range(f["argc"])]
        if ret in accs and not args: accs[ret].setdefault("init", []).append(f)
        if len(args) == 1 and (args[0] in accs or (p.T[args[0]]["k"] == "ref" and p.T[args[0]]["to"] in accs)) and is_pair(p, ret):
            accs[args[0] if args[0] in accs else p.T[args[0]]["to"]].setdefault("result", []).append(f)
    return whole, accs

def lit(n): return Seq((("lit", tuple(of_atom(atom("sym", ("b%d" % i,), 0, 255)) for i in range(n))),)) if n else Seq(())

def plain(l, names):
    """no undetermined loop quantities"""
    for a in atoms_of(l):
        if a.kind == "sym" and "#" in str(a.args[0]): return False
    return True

def w8(l): return wrap(l, 8, False)

def want_pair(a0, b0, seq):
    n = seq.length()
    return w8(a0 + fold1(seq)), w8(b0 + mul_l(n, a0) + fold2(seq))

def run_on(p, f, seq, acc=None):
    I = Interp(p); st = State()
    st.store[("S", "D")] = seq
    sl = Ptr(("S", "D"), (), (ZERO, seq.length()))
    args = [sl]
    if acc is not None:
        st.store[("S", "acc")] = Agg(acc[0], 0, acc[1])
        args = [Ptr(("S", "acc")), sl]
    outs = I.run(f["key"], args, st)
    res = []
    for s, v in outs:
        if s.facts.contradictory(): continue
        fin = s.store[("S", "acc")].f if acc is not None else v.f
        res.append((s, fin))
    return I, res

def judge(r, p, f, acc_ty, oid):
    sp = f["span"]; r.fn(f["path"])
    A, B = sym("A0", 0, 255), sym("B0", 0, 255)
    acc = (acc_ty, (A, B)) if acc_ty is not None else None
    a0, b0 = (A, B) if acc else (ZERO, ZERO)
    # any length
    try:
        n = sym("len(D)", 0, (1 << 63) - 1)
        seq = Seq((("sub", "D", ZERO, n),))
        I, res = run_on(p, f, seq, acc)
        wa, wb = want_pair(a0, b0, seq)
        good = bool(res) and not [x for x in I.panics if not x.st.facts.contradictory()]
        why = [str(x) for x in I.panics[:2]]; definite = bool(why) and False
        for s, (ga, gb) in res:
            for g, w in ((ga, wa), (gb, wb)):
                if g == w: continue
                if isinstance(g, Lin) and not s.facts.entails(eq(seq.length(), ZERO)) is True and g == w: continue
                if s.facts.entails(eq(seq.length(), ZERO)):
                    w0 = want_pair(a0, b0, Seq(()))[0 if w is wa else 1]
                    if g == w0: continue
                good = False; why.append("gives %s, UBX checksum is %s" % (show(g), show(w)))
                if plain(g, None): definite = True
    except Unsupported as e:
        good = False; definite = False; why = ["%s %s" % (e, getattr(e, "at", ""))]
    if good: r.ok(oid + " (any input)", sp); return
    if definite: r.bad(oid + " (any input)", sp, why[0]); return
    # not closed: every short input must still agree; a difference is decisive
    for m in range(0, 6):
        try: I, res = run_on(p, f, lit(m), acc)
        except Unsupported as e: continue
        wa, wb = want_pair(a0, b0, lit(m))
        for x in I.panics:
            if not x.st.facts.contradictory(): r.bad(oid + " (any input)", sp, "may panic on %d bytes: %s at %s" % (m, x.kind, x.span)); return
        for s, (ga, gb) in res:
            if (ga, gb) != (wa, wb) and not (s.facts.entails(eq(ga, wa)) and s.facts.entails(eq(gb, wb))):
                r.bad(oid + " (any input)", sp, "on %d bytes gives (%s, %s), UBX checksum is (%s, %s)" % (m, show(ga), show(gb), show(wa), show(wb))); return
    r.undecided(oid + " (any input)", sp, why[:1])

def c30(r, tier):
    r.rule = ("each checksum routine is summarised over a byte slice of any length; its result must be the closed-form Fletcher sums (S1 = sum of bytes, S2 = sum of prefix sums, mod 256); "
              "the accumulator's update must extend any running pair by those sums, so that pieces compose")
    p = prog("std_alloc")
    whole, accs = find(p)
    for f in whole:
        if "checksum" in f["path"].lower() or "ck" in f["path"].lower(): judge(r, p, f, None, f["path"])
    nacc = 0
    for ti, d in sorted(accs.items()):
        if "result" not in d: continue
        nacc += 1
        for f in d["update"]: judge(r, p, f, ti, f["path"])
        for f in d.get("init", []):
            I = Interp(p); st = State(); oid = f["path"] + " starts from zero"; r.fn(f["path"])
            try: outs = I.run(f["key"], [], st)
            except Unsupported as e: r.undecided(oid, f["span"], str(e)); continue
            r.check(all(v.f == (ZERO, ZERO) for s, v in outs) and outs, oid, f["span"], [show(v) for s, v in outs])
        for f in d["result"]:
            I = Interp(p); st = State(); oid = f["path"] + " reports both sums in order"; r.fn(f["path"])
            v0 = Agg(ti, 0, (sym("A0", 0, 255), sym("B0", 0, 255))); a = v0
            if p.T[f["locals"][1][0]]["k"] == "ref": st.store[("S", "acc")] = v0; a = Ptr(("S", "acc"))
            try: outs = I.run(f["key"], [a], st)
            except Unsupported as e: r.undecided(oid, f["span"], str(e)); continue
            r.check(all(v.f == v0.f for s, v in outs) and outs, oid, f["span"], [show(v) for s, v in outs])
        if not d.get("init"): r.notes.append("no constructor found for " + p.tname(ti))
    r.need("checksum routines", len([f for f in whole if "checksum" in f["path"].lower()]) + nacc, 1)
    r.count("routines", len(whole) + nacc)
