"""C09 validation conditions, C12 dispatch, C13 length ceiling."""
import json, os
from ..model_ublox import *
from ..interp import Interp, State, Unsupported
from ..facts import Facts
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REF = os.path.join(VERIF, "refs", "packets.json")
META = "ubx_packets::UbxPacketMeta"
RECORDS = {"NavSatSvInfo", "RxmRawxInfo"}     # views of repeated parts, never delivered on their own

def ref(): return json.load(open(REF))

def validators(p):
    out = {}
    for k, f in p.funs.items():
        if k.endswith("::validate") and f["argc"] == 1:
            n = k[:-len("::validate")].replace("::<'_>", "").rsplit("::", 1)[-1]
            out[n] = f
    return out

def metas(p):
    """{packet name: {CLASS, ID, FIXED_PAYLOAD_LEN, MAX_PAYLOAD_LEN}}"""
    out = {}
    for im in p.impls:
        if im.get("trait") != META: continue
        c = {}
        for k, pth in im["items"]:
            v = p.consts[pth]["v"]
            if "int" in v: c[k] = v["int"]
            elif "adt" in v: c[k] = v["adt"][1][0]["int"] if v["adt"][0] == 1 else None
        out[p.tname(im["self"]).rsplit("::", 1)[-1]] = c
    return out

# ---------------------------------------------------------------- conditions over a payload named P of symbolic length
def plen(name="P"): return sym("len(%s)" % name, 0, (1 << 63) - 1)
def pbyte(i, name="P"): return of_atom(atom("el", (name, Lin(i) if isinstance(i, int) else i), 0, 255))

def first_zero(I, off, name="P"):
    from ..iters import first_atom, JL, J
    return first_atom(eq0(pbyte(JL + off, name)), J)

def conds(I, req, name="P"):
    """list of (text, boolean) for the requirement entries, leaving out what is checked separately (chunked strings)"""
    L = plen(name); out = []
    for r in req:
        k = r[0]
        if k == "len=": b = eq(L, Lin(r[1]))
        elif k == "len>=": b = le(Lin(r[1]), L)
        elif k == "in": b = b_or(*[eq(pbyte(r[1], name), Lin(v)) for v in r[2]])
        elif k == "recs":
            d = floordiv_total(L - r[1], r[2])
            b = d
        elif k == "lenx":
            x = Lin(r[1])
            for c, by, lo, hi in r[2]: x = x + of_atom(fld(pbyte(by, name).m[0][0], lo, hi - lo)) * c
            b = le(x, L)
        elif k == "cstr":
            F = first_zero(I, r[1], name)
            b = le(F, Lin(r[2] - 1))
        elif k == "cstrs": continue
        else: raise AssertionError(k)
        out.append((" ".join(map(str, r)), b))
    return out

def floordiv_total(l, c):
    """l is a multiple of c; l may be stated with an offset, so normalise the constant"""
    from ..terms import floordiv
    l = Lin(l.c % c, l.m)
    return eq0(l - floordiv(l, c) * c)

def vocabulary(b, name="P"):
    """only the payload's length, its bytes and first-terminator positions"""
    for a in atoms_of(b):
        if a.kind == "sym" and str(a.args[0]) not in ("len(%s)" % name, "j"): return False
        if a.kind not in ("sym", "el", "fld", "div", "first", "mod") and not (a.kind == "opq" and str(a.args[0]).startswith("utf8")): return False
    return True

def run_validate(p, f, name="P"):
    I = Interp(p); st = State()
    arg = I.sym_value(st, f["locals"][1][0], name)
    return I, I.run(f["key"], [arg], st)

def c09(r, tier):
    r.rule = ("every path of each type's validate is summarised over a symbolic payload; accepting paths must entail the type's documented length and "
              "content conditions, rejecting paths must contradict them")
    p = prog("std_alloc")
    R = ref(); V = validators(p)
    for n, d in sorted(R.items()):
        f = V.get(n + "Ref")
        if f is None: r.bad("validator of " + n, "", "no validate function for a documented packet type"); continue
        r.fn(f["path"]); sp = f["span"]
        try: I, outs = run_validate(p, f)
        except Unsupported as e:
            r.undecided("validate " + n, sp, "%s %s" % (e, getattr(e, "at", ""))); continue
        cs = conds(I, d["req"])
        chunks = [x for x in d["req"] if x[0] == "cstrs"]
        utf = [x for x in d["req"] if x[0] == "cstr"]
        nok = 0; status = None
        for s, v in outs:
            if s.facts.contradictory(): continue
            if v.var == 0:
                nok += 1
                for t, b in cs:
                    if s.facts.entails(b): continue
                    status = bad_or_und(status, s, "accepts a payload violating '%s' when %s" % (t, facts_text(s)))
                for x in chunks:
                    why = chunked(I, s, x)
                    if why: status = ("bad", why) if skipped(I, s, x) else bad_or_und(status, s, why)
                for x in utf:
                    if not has_utf8(I, s, x): status = bad_or_und(status, s, "accepts a string at offset %d that is not checked to be valid text" % x[1])
            else:
                f2 = s.facts.add(*[b for _, b in cs] + [b for x in chunks for b in chunk_instances(I, s, x)])
                if f2 is None or f2.contradictory(): continue
                if utf_rejection(I, s, f2, utf, chunks): continue
                status = bad_or_und(status, s, "rejects a payload meeting every condition (%s) when %s" % ("; ".join(t for t, _ in cs), facts_text(s)))
        for pn in I.panics:
            if not pn.st.facts.contradictory(): status = ("bad", "may panic (%s at %s)" % (pn.kind, pn.span))
        if nok == 0 and status is None: status = ("bad", "accepts nothing")
        r.count("paths", len(outs)); r.count("conditions", len(cs))
        oid = "validate " + n
        if status is None: r.ok(oid, sp, d["req"])
        elif status[0] == "bad": r.bad(oid, sp, status[1])
        else: r.undecided(oid, sp, status[1])
    for n in sorted(V):
        if n[:-3] not in R: r.notes.append("packet type without reference: " + n)
    r.need("validators", len(V), 55)

def facts_text(s): return " & ".join(show(b) for b in s.facts.bs)[:400] or "always"
def bad_or_und(cur, s, msg):
    if cur is not None and cur[0] == "bad": return cur
    if all(vocabulary(b) for b in s.facts.bs): return ("bad", msg)
    return cur or ("und", msg)

def chunk_instances(I, s, x):
    """the chunk condition at every loop counter the state mentions"""
    ks = {a for b in s.facts.bs for a in atoms_of(b) if a.kind == "sym" and str(a.args[0]).endswith(".k")}
    return [le(first_zero(I, of_atom(k) * x[2] + x[1]), Lin(x[2] - 1)) for k in ks]
def chunked(I, s, x):
    """every whole chunk is known to be terminated and valid text"""
    n = floordiv(plen() - x[1], x[2])
    if s.facts.entails(lt(plen(), Lin(x[1] + x[2]))): return None
    for nm in ("i", "j", "i2"):
        v = atom("sym", (nm,), 0, None)
        F = first_zero(I, of_atom(v) * x[2] + x[1])
        if nm == "j": continue
        for want in ("first", "utf8"):
            hit = False
            for j, lo, hi, phi in s.facts.foralls:
                if j is not v or lo != ZERO or not s.facts.entails(le(n, hi)): continue
                if want == "first":
                    f = Facts((phi,))
                    if f.entails(le(F, Lin(x[2] - 1))): hit = True
                elif phi[0] == "ba" and show(phi) == utf8_name(I, of_atom(v) * x[2] + x[1], F): hit = True
            if not hit: break
        else: return None
    return "accepts repeated strings that are not all checked (%s)" % want

def skipped(I, s, x):
    """some whole chunk is certainly never looked at: the checks found all have the documented form but a range that leaves out the first
    or the last chunks"""
    n = floordiv(plen() - x[1], x[2])
    hits = []
    for j, lo, hi, phi in s.facts.foralls:
        for c in range(0, 4):
            F = first_zero(I, of_atom(j) * x[2] + x[1] + c * x[2])
            if Facts((phi,)).entails(le(F, Lin(x[2] - 1))): hits.append((lo + c, hi + c)); break
        else:
            if phi[0] in ("ba", "nba"): continue
            if not any(a.kind == "first" for a in atoms_of(phi)):
                if not any(a.kind == "el" for a in atoms_of(phi)): continue
                offs = [a.args[1] - of_atom(j) for a in atoms_of(phi) if a.kind == "el"]
                if all(s.facts.entails(le(o + hi, Lin(x[1]))) for o in offs): continue
            else:
                fs = [a for a in atoms_of(phi) if a.kind == "first"]
                if all(any(show(of_atom(a)) == show(first_zero(I, of_atom(j) * x[2] + x[1] + c * x[2])) for c in range(0, 4)) for a in fs): continue
            return False
    if not hits: return False
    for lo, hi in hits:
        if not (s.facts.entails(le(Lin(1), lo)) or s.facts.entails(lt(hi, n))): return False
    # the chunk left out exists and no single fact speaks of it
    k = 0 if all(s.facts.entails(le(Lin(1), lo)) for lo, hi in hits) else None
    if k is None and hits: return all(s.facts.entails(lt(hi, n)) for lo, hi in hits)
    f2 = s.facts.add(le(Lin(1), n))
    if f2 is None or f2.contradictory(): return False
    for b in s.facts.bs:
        for a in atoms_of(b):
            if a.kind in ("el", "first") and "j" not in show(a) and a.kind == "el":
                i = as_lin_off(a)
                if i is None or x[1] <= i < x[1] + x[2]: return False
            if a.kind == "first" and any(show(t) == show(first_zero(I, x[1])) for t in [of_atom(a)]): return False
    return True
def as_lin_off(a):
    i = a.args[1]
    return i.c if isinstance(i, Lin) and not i.m else None
def utf8_name(I, off, F): return "utf8(P[%s;+%s])" % (show(off), show(F))
def has_utf8(I, s, x):
    want = utf8_name(I, Lin(x[1]), first_zero(I, x[1]))
    return any(b[0] == "ba" and show(b) == want for b in s.facts.bs)
def utf_rejection(I, s, f2, utf, chunks):
    """refused because one of the required strings is not valid text"""
    ok = {"!" + utf8_name(I, Lin(x[1]), first_zero(I, x[1])) for x in utf}
    for x in chunks:
        for k in {a for b in s.facts.bs for a in atoms_of(b) if a.kind == "sym" and str(a.args[0]).endswith(".k")}:
            off = of_atom(k) * x[2] + x[1]
            ok.add("!" + utf8_name(I, off, first_zero(I, off)))
    return any(b[0] == "nba" and show(b) in ok for b in f2.bs)

# ---------------------------------------------------------------- C12
def valid_atom(n): return ("ba", atom("opq", ("valid:" + n,), 0, 1))

def dispatch(p):
    """outcomes of match_packet with validation kept abstract: [(state, value)], plus the payload pointer"""
    V = validators(p)
    I = Interp(p); st = State()
    mp = [f for k, f in p.funs.items() if k.endswith("::match_packet")]
    if len(mp) != 1: raise Unsupported("match_packet not found")
    f = mp[0]
    a = [I.sym_value(st, f["locals"][i + 1][0], nm) for i, nm in enumerate(("class", "id", "P"))]
    seen = []
    def mk_ext(n):
        def ext(I, s, args, dt, ref):
            pay = args[0]
            if isinstance(pay, Agg): pay = pay.f[0]
            if pay != a[2]: seen.append((n, show(pay)))
            out = []
            for val in (True, False):
                s2 = s.fork()
                if not s2.assume(valid_atom(n) if val else neg(valid_atom(n))): continue
                t = I.T[dt]
                if val: out.append((s2, Agg(dt, 0, (UNIT,))))
                else:
                    et = t["variants"][1]["f"][0][1]
                    out.append((s2, Agg(dt, 1, (SymV(et, "err"),))))
            return out
        return ext
    for n, g in V.items(): I.ext[g["key"]] = mk_ext(n)
    outs = I.run(f["key"], list(a), st)
    return I, f, a, outs, seen

def c12(r, tier):
    r.rule = ("match_packet is summarised over symbolic class, id and payload with each type's validation as an uninterpreted condition: every documented type "
              "must be the result exactly for its class, id and accepted payloads, everything else is Unknown with the same class, id and payload")
    p = prog("std_alloc")
    R = ref(); M = metas(p)
    try: I, f, a, outs, seen = dispatch(p)
    except Unsupported as e:
        r.undecided("match_packet", "", "%s %s" % (e, getattr(e, "at", ""))); return
    sp = f["span"]; r.fn(f["path"])
    r.check(not seen, "validation sees the whole payload", sp, seen[:3])
    r.check(not I.panics, "match_packet does not panic", sp, I.panics[:2])
    c, i, pay = a
    by = {}
    for s, v in outs:
        if s.facts.contradictory(): continue
        if v.var != 0: r.bad("every frame is delivered", sp, "match_packet returns an error when " + facts_text(s)); continue
        e = v.f[0]; vn = I.T[e.ty]["variants"][e.var]["n"]
        if vn == "Unknown":
            u = e.f[0]; fs = {x[0]: y for x, y in zip(I.T[u.ty]["variants"][0]["f"], u.f)}
            r.check(fs.get("payload") == pay and I.as_lin(fs.get("class")) is not None and s.facts.entails(eq(fs["class"], c)) and s.facts.entails(eq(fs["msg_id"], i)),
                    "Unknown keeps class, id and payload", sp, show(u))
        else:
            if e.f[0].f != (pay,): r.bad("payload of " + vn, sp, "the view is not over the whole payload: " + show(e.f[0]))
        by.setdefault(vn, []).append(s)
    need = 0
    for n, d in sorted(R.items()):
        if n in RECORDS: continue
        need += 1
        m = M.get(n, {})
        oid = "delivery of " + n
        if (m.get("CLASS"), m.get("ID")) != (d["class"], d["id"]):
            r.bad(oid, sp, "declared class/id %s, documented %s" % ((m.get("CLASS"), m.get("ID")), (d["class"], d["id"]))); continue
        here = [eq(c, Lin(d["class"])), eq(i, Lin(d["id"])), valid_atom(n + "Ref")]
        # outcomes possible for a frame of this class and id which this type's validation accepts
        wrong = []
        okk = False
        for vn, ss in by.items():
            for s in ss:
                f2 = s.facts.add(*here)
                if f2 is None or f2.contradictory(): continue
                if vn == n: okk = True; continue
                # another type wins: only acceptable if its own conditions exclude ours
                if vn != "Unknown" and vn in R and disjoint(I, R[vn]["req"], d["req"]): continue
                wrong.append(vn)
        if not okk: r.bad(oid, sp, "no path delivers it" + (" (taken by %s)" % ", ".join(sorted(set(wrong))) if wrong else ""))
        elif wrong: r.bad(oid, sp, "its frames can be delivered as " + ", ".join(sorted(set(wrong))))
        else: r.ok(oid, sp)
        for s in by.get(n, []):
            if not all(s.facts.entails(b) for b in here): r.bad("conditions for " + n, sp, "delivered when " + facts_text(s))
    for vn in by:
        if vn != "Unknown" and vn not in R: r.notes.append("delivered type without reference: " + vn)
    # class_and_msg_id
    for k, g in p.funs.items():
        if not k.endswith("::class_and_msg_id"): continue
        I2 = Interp(p); st = State()
        ti = I2.T[g["locals"][1][0]]["to"]; r.fn(g["path"])
        for vi, var in enumerate(I2.T[ti]["variants"]):
            s = State(); s.store[("S", "pr")] = Agg(ti, vi, tuple(I2.sym_value(s, x[1], "f%d" % j) for j, x in enumerate(var["f"])))
            pv = s.store[("S", "pr")]
            try: o = I2.run(k, [Ptr(("S", "pr"))], s)
            except Unsupported as e: r.undecided("class_and_msg_id of " + var["n"], g["span"], str(e)); continue
            if var["n"] == "Unknown":
                u = pv.f[0]; fs = {x[0]: y for x, y in zip(I2.T[u.ty]["variants"][0]["f"], u.f)}
                want = (fs["class"], fs["msg_id"])
            elif var["n"] in R: want = (Lin(R[var["n"]]["class"]), Lin(R[var["n"]]["id"]))
            else: continue
            r.check(all(v.f == want for _, v in o) and o, "class_and_msg_id of " + var["n"], g["span"], [show(v) for _, v in o][:2])
    r.need("receivable types", need, 55)

def disjoint(I, a, b):
    f = Facts()
    cs = [x for _, x in conds(I, a)] + [x for _, x in conds(I, b)]
    f = f.add(*cs)
    return f is None or f.contradictory()

# ---------------------------------------------------------------- C13
def c13(r, tier):
    r.rule = "constants of the packet declarations and the parser's ceiling, evaluated by the compiler, compared with the documented maxima"
    p = prog("std_alloc")
    R = ref(); M = metas(p)
    top = [(k, v) for k, v in p.consts.items() if k.rsplit("::", 1)[-1] == "MAX_PAYLOAD_LEN" and not k.startswith("<")]
    try:
        _, f, _, outs, _ = dispatch(p)
        deliv = {p.T[v.f[0].ty]["variants"][v.f[0].var]["n"] for s, v in outs if v.var == 0}
    except Unsupported as e:
        deliv = set(R)
        r.notes.append("dispatch not summarised (%s): all documented types assumed deliverable" % e)
    for k, v in top:
        c = v["v"].get("int")
        for n, d in sorted(R.items()):
            if n not in deliv: continue
            r.check(c is not None and c >= d["max"], "ceiling admits " + n, v["span"], "%s = %s, documented maximum of %s is %d" % (k, c, n, d["max"]))
    r.need("ceiling constants", len(top), 1)
    for n, d in sorted(R.items()):
        m = M.get(n)
        if m is None: r.bad("declaration of " + n, "", "no length declaration"); continue
        r.check(m["MAX_PAYLOAD_LEN"] >= d["max"], "declared maximum of " + n, "", "declares %s, documented %s" % (m["MAX_PAYLOAD_LEN"], d["max"]))
        r.check(m["FIXED_PAYLOAD_LEN"] == d["fixed"], "declared fixed length of " + n, "", "declares %s, documented %s" % (m["FIXED_PAYLOAD_LEN"], d["fixed"]))
    for n, m in sorted(M.items()):
        if m["FIXED_PAYLOAD_LEN"] is not None: r.check(m["FIXED_PAYLOAD_LEN"] <= m["MAX_PAYLOAD_LEN"], "maximum covers fixed length of " + n, "", m)
    # the ceiling used while parsing is that constant
    r.count("constants", len(top) + 2 * len(M))
