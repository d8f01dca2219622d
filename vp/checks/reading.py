"""C03: nothing a user can read from a delivered packet panics.  C20: what the serialised form of each packet contains."""
import json, os, re
from ..model_ublox import *
from ..interp import Interp, State, Unsupported
from ..reads import *
from .packets import ref as packet_ref
from .subrec import It, PARTS, K, N, valid_state, case, analyse
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SREF = os.path.join(VERIF, "refs", "serialized.json")
KINDS = ("Debug", "Serialize")

def brief(fn): return re.sub(r"(\w+::)+(?=\w)", "", fn).replace("<", "[").replace(">", "]")
def real(I): return [q for q in I.panics if not q.st.facts.contradictory()]

class Reading:
    """all obligations of C03 for one program"""
    def __init__(self, r, p):
        self.r, self.p = r, p
        self.vt = view_types(p); self.A = accessors(p)
        self.meth = {}
        for (v, m), f in self.A.items(): self.meth.setdefault(v, []).append((m, f))
        self.values = 0
    def verdict(self, oid, sp, panics, detail=""):
        if not panics: return self.r.ok(oid, sp)
        seen = set()
        for q in panics:
            why = "%s in %s" % (q.kind, brief(q.fn))
            if why in seen: continue
            seen.add(why)
            self.r.bad("%s: %s" % (oid, why), sp, "%s at %s%s" % (why, q.span, detail))
    def render_value(self, s, v):
        """panics of the Debug and Serialize forms of one value"""
        out = []
        for kind in KINDS:
            for join in (True, False):
                R = Reader(self.p, kind, join); I = R.install(Interp(self.p))
                R.visit(I, s.fork(), v)
                self.values += R.visited
                pan = real(I)
                if not pan or not join: break
            out += pan
        return out
    def method(self, view, m, f, mk):
        """one accessor, and the rendering of every value it can return"""
        oid = "%s.%s" % (view, m); sp = f["span"]; self.r.fn(f["key"])
        try:
            I, s0, self_ = mk()
            outs = [(s, x) for s, x in I.run(f["key"], [self_], s0) if not s.facts.contradictory()]
            pan = real(I)
            self.verdict(oid + " never panics", sp, pan)
            if f["vis"] != "pub": return
            bad = []
            for s, x in outs: bad += self.render_value(s, x)
            self.verdict(oid + " renders", sp, bad)
        except Unsupported as e: self.r.undecided(oid, sp, "%s %s" % (e, getattr(e, "at", "")))
    def view_render(self, view, mk):
        """the view's own Debug and Serialize, its accessors being covered separately"""
        ti = self.vt[view]
        for kind in KINDS:
            R = Reader(self.p, kind)
            R.opaque_methods = {f["key"] for m, f in self.meth.get(view, ())}
            for f in R.impl.get(ti) or R.by_path.get(self.p.T[ti]["path"]) or []:
                oid = "%s %s" % (view, kind); self.r.fn(f["key"])
                try:
                    I, s, self_ = mk(); R.install(I)
                    outs = R.body(I, s, f, self_)
                    self.verdict(oid + " never panics", f["span"], real(I))
                    self.r.check(bool(outs) or bool(real(I)), oid + " returns", f["span"], "no path returns")
                except Unsupported as e: self.r.undecided(oid, f["span"], "%s %s" % (e, getattr(e, "at", "")))
                break

def record_view(p, ti, n, st=None):
    I = Interp(p); s = State(); al = ("S", "P")
    s.store[al] = Seq((("sub", "P", ZERO, Lin(n)),))
    s.store[("S", "self")] = Agg(ti, 0, (Ptr(al, (), (ZERO, Lin(n))),))
    return I, s, Ptr(("S", "self"))

def c03(r, tier):
    r.rule = ("every accessor of every packet view is interpreted over a payload of which only the packet's documented validity conditions are known (C09: validation establishes them); every value it returns is followed "
              "into the library's Debug and Serialize code; sub-record iterators are followed by induction over the records and every record's accessors and renderings likewise; no path may reach a panic")
    r.assumptions.append("core::fmt, serde and the caller's serializer do not themselves panic")
    p = prog("std_alloc"); Rd = Reading(r, p); packets = packet_ref(); n = 0
    done = set()
    for name in sorted(packets):
        view = name + "Ref"
        if view not in Rd.vt: r.bad(view, "", "documented packet no longer has a view"); continue
        done.add(view); n += 1
        def mk(view=view, name=name):
            I = Interp(p); s, self_ = valid_state(I, p, Rd.vt[view], name); return I, s, self_
        for m, f in sorted(Rd.meth.get(view, ())): Rd.method(view, m, f, mk)
        Rd.view_render(view, mk)
    # repeated parts
    for (v, m) in sorted(PARTS):
        base = "%s.%s" % (v, m)
        if (v, m) not in Rd.A: continue
        sp = Rd.A[(v, m)]["span"]
        try:
            it = It(p, v, m); starts, pan = it.start()
            Rd.verdict(base + " iterator is created", sp, pan)
            for f in it.meth.values(): r.fn(f["key"])
            for s, v0, cnt in starts:
                gen, pan = it.general(s, v0, cnt)
                if gen is None:
                    Rd.verdict(base + " first step", sp, pan)
                    if not pan: r.undecided(base, sp, "the iterator never yields")
                    continue
                a = s.fork(); a.assume(le(K + 1, cnt)); it.record_facts(Interp(p), a, K)
                o, pan = it.step(a, gen(K)); Rd.verdict(base + " step with records left", sp, pan)
                e = s.fork(); e.assume(eq(K, cnt))
                o2, pan2 = it.step(e, gen(K)); Rd.verdict(base + " step at the end", sp, pan2)
                for x, y, w, raw in o2:
                    o3, pan3 = it.step(x.fork(), w); Rd.verdict(base + " step beyond the end", sp, pan3)
                lens = {}
                for x, y, w, raw in o:
                    # iterators that do not advance as expected are C27's finding; here the next state is stepped as well
                    if not raw.f: continue
                    rec = raw.f[0]
                    Rd.verdict(base + " record renders", sp, Rd.render_value(x, rec))
                    t = p.T[rec.ty] if isinstance(rec, Agg) and isinstance(rec.ty, int) else None
                    nm = t["path"].rsplit("::", 1)[-1] if t else None
                    if nm in Rd.vt and isinstance(rec.f[0], Ptr) and rec.f[0].sl and rec.f[0].sl[1].is_const(): lens.setdefault(nm, set()).add(rec.f[0].sl[1].c)
                for nm, ls in sorted(lens.items()):
                    for L in sorted(ls):
                        done.add(nm)
                        mk = lambda nm=nm, L=L: record_view(p, Rd.vt[nm], L)
                        for mm, f in sorted(Rd.meth.get(nm, ())): Rd.method(nm, mm, f, mk)
                        Rd.view_render(nm, mk)
                for nm, f in sorted(it.meth.items()):
                    if nm in ("next",): continue
                    for cond in (le(K, cnt),):
                        h = s.fork(); h.assume(cond); I = Interp(p); h.store[("S", "it")] = gen(K)
                        I.run(f["key"], [Ptr(("S", "it")) if p.T[f["locals"][1][0]]["k"] == "ref" else gen(K)], h)
                        Rd.verdict("%s iterator %s" % (base, nm), f["span"], real(I))
        except Unsupported as e: r.undecided(base, sp, "%s %s" % (e, getattr(e, "at", "")))
    other = sorted(v for v in Rd.vt if v not in done and v in Rd.meth)
    if other: r.notes.append("views not reached from a delivered packet in this analysis: " + ", ".join(other))
    # the packet enum
    ei = next((i for i, t in enumerate(p.T) if t["k"] == "adt" and t["local"] and t["path"].endswith("::PacketRef")), None)
    if ei is None: r.bad("PacketRef", "", "the packet enum no longer exists")
    else: packet_enum(Rd, ei, packets)
    r.count("packets", n); r.count("values_rendered", Rd.values)
    r.need("packet views", n, len(packets))

def packet_enum(Rd, ei, packets):
    p, r = Rd.p, Rd.r
    fns = {}
    for kind in KINDS:
        R = Reader(p, kind)
        for f in (R.impl.get(ei) or R.by_path.get(p.T[ei]["path"]) or [])[:1]: fns[kind] = f
    own = [f for k, f in p.funs.items() if f["argc"] == 1 and f["path"].startswith(p.T[ei]["path"] + "::") and p.T[f["locals"][1][0]]["k"] == "ref"]
    for f in own: fns[f["path"].rsplit("::", 1)[-1]] = f
    for nm, f in sorted(fns.items()):
        r.fn(f["key"])
        for i, v in enumerate(p.T[ei]["variants"]):
            oid = "PacketRef::%s %s never panics" % (v["n"], nm)
            try:
                R = Reader(p, nm if nm in KINDS else "Debug")
                R.opaque_methods = {g["key"] for g in Rd.A.values()}
                I = R.install(Interp(p))
                I.pre_ext, s = R.sink, State()
                if v["n"] in packets:
                    s, _ = valid_state(I, p, v["f"][0][1], v["n"]); inner = s.store[("S", "self")]
                else: inner = I.sym_value(s, v["f"][0][1], "unknown")
                s.store[("S", "pk")] = Agg(ei, i, (inner,))
                outs = R.body(I, s, f, Ptr(("S", "pk"))) if nm in KINDS else I.run(f["key"], [Ptr(("S", "pk"))], s)
                Rd.verdict(oid, f["span"], real(I))
            except Unsupported as e: r.undecided(oid, f["span"], "%s %s" % (e, getattr(e, "at", "")))

# ---------------------------------------------------------------- C20
def sinks(s): return [e[1:] for e in s.eff if e[0] == "sink"]
def acc_name(v):
    """the accessor whose result v is; repeated parts are handed on inside the sequence wrapper"""
    wrapped = False
    if isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]; wrapped = True
    return (v.name if isinstance(v.name, str) else "")[len("result of "):] if isinstance(v, SymV) and str(v.name).startswith("result of ") else None, wrapped

def entries(log):
    """[(name, value)] of a map's entries, or None when the log is not a plain map"""
    out = []; key = None
    for what, vals in log:
        if what == "serialize_key" and key is None and vals[0][0] == "str": key = vals[0][1]; continue
        if what == "serialize_value" and key is not None: out.append((key, vals[0])); key = None; continue
        if what != "serialize_entry" or key is not None or vals[0][0] != "str": return None
        out.append((vals[0][1], vals[1]))
    return out if key is None else None

def check_fields(r, oid, sp, got, want, p, methods):
    """got: [(name, value)], want: [[field, accessor]]"""
    if got is None: return r.undecided(oid, sp, "not a plain map of named entries")
    names = [n for n, v in got]
    for fld_, acc in want:
        k = names.count(fld_)
        o = "%s.%s" % (oid, fld_)
        if k == 0: r.bad(o, sp, "the field is missing"); continue
        if k > 1: r.bad(o, sp, "the field is written %d times" % k); continue
        v = got[names.index(fld_)][1]; a, wrapped = acc_name(v)
        if a is None: r.undecided(o, sp, "value %s" % show(v)); continue
        r.check(a == acc, o, sp, "holds the result of %s, documented %s" % (a, acc))
        f = methods.get(a)
        if f is not None and is_iter_ty(p, f["locals"][0][0]) and not wrapped and not is_option(p, f["locals"][0][0]): r.undecided(o + " sequence", sp, "iterator handed on as a value")
    extra = [n for n in names if n not in [w[0] for w in want]]
    r.check(not extra, oid + " nothing else", sp, "also writes %s" % extra)

def is_option(p, ti): return p.T[ti]["k"] == "adt" and p.T[ti]["path"].endswith("option::Option")

def c20(r, tier):
    r.rule = ("the generated serialisation code is interpreted over an opaque serialiser; the entries handed to it must be exactly the declared fields, each once, under its own name and holding its accessor's result; "
              "the packet enum must serialise each kind with its own class and id; every serialised component type must be written as its own variant name or number, its bits, or its own fields")
    r.assumptions.append("serde's own implementations for numbers, arrays, strings and options are correct; a serialiser that reports an error ends the output")
    p = prog("std_alloc"); W = json.load(open(SREF)); packets = packet_ref()
    vt = view_types(p); A = accessors(p); meth = {}
    for (v, m), f in A.items(): meth.setdefault(v, {})[m] = f
    opaque = {f["key"] for f in A.values()}
    sf = impl_fns(p, "SerializeUbxPacketFields"); n = 0
    def run(view, f, mk):
        R = Reader(p, "Serialize"); R.opaque_methods = opaque
        I, s, self_ = mk(); R.install(I)
        outs = [x for x, v in R.body(I, s, f, self_) if not x.facts.contradictory()]
        logs = []
        for x in outs:
            l = sinks(x)
            if l not in logs: logs.append(l)
        return logs
    for view in sorted(W):
        if view not in vt: r.bad(view, "", "documented packet no longer has a view"); continue
        ti = vt[view]; name = view[:-3]
        def mk():
            I = Interp(p); s, self_ = valid_state(I, p, ti, name); return I, s, self_
        for what, table in (("fields", sf), ("map", Reader(p, "Serialize").impl)):
            fs = table.get(ti)
            oid = "%s %s" % (view, what)
            if not fs: r.bad(oid, "", "is not serialised"); continue
            f = fs[0]; sp = f["span"]; r.fn(f["key"])
            try: logs = run(view, f, mk)
            except Unsupported as e: r.undecided(oid, sp, "%s %s" % (e, getattr(e, "at", ""))); continue
            if not logs: r.bad(oid, sp, "never completes"); continue
            for l in logs:
                if what == "map":
                    if not (l and l[0][0] == "serialize_map" and l[-1][0] == "end"): r.undecided(oid, sp, "not one map: %s" % [x[0] for x in l][:3]); continue
                    l = l[1:-1]
                check_fields(r, oid, sp, entries(l), W[view], p, meth.get(view, {}))
        n += 1
    packet_enum_serial(r, p, vt, W, packets, opaque)
    seq_wrapper(r, p)
    records_serial(r, p, W)
    component_types(r, p, vt)
    r.count("packets", n); r.need("packet views", n, len(W))

def packet_enum_serial(r, p, vt, W, packets, opaque):
    ei = next((i for i, t in enumerate(p.T) if t["k"] == "adt" and t["local"] and t["path"].endswith("::PacketRef")), None)
    fs = Reader(p, "Serialize").impl.get(ei)
    if ei is None or not fs: return r.bad("PacketRef", "", "the packet enum is not serialised")
    f = fs[0]; sp = f["span"]; r.fn(f["key"])
    sfn = {}
    for ti, l in impl_fns(p, "SerializeUbxPacketFields").items(): sfn[p.T[ti]["path"]] = l[0]
    for i, v in enumerate(p.T[ei]["variants"]):
        oid = "PacketRef::%s" % v["n"]
        try:
            R = Reader(p, "Serialize"); R.opaque_methods = opaque; I = R.install(Interp(p)); s = State()
            def fields(I, s, args, dt, ref):
                s = s.fork(); s.eff = s.eff + (("sink", "fields", (args[0],)),)
                return [(s, R.ok(I, s, dt, "fields"))]
            for l in sfn.values(): I.ext[l["key"]] = fields
            I.ext["ubx_packets::packets::SerializeUbxPacketFields::serialize_fields"] = fields
            known = v["n"] in packets
            if known: s, _ = valid_state(I, p, v["f"][0][1], v["n"]); inner = s.store[("S", "self")]
            else: inner = I.sym_value(s, v["f"][0][1], "unknown")
            pk = ("S", "pk"); s.store[pk] = Agg(ei, i, (inner,))
            outs = [x for x, _ in R.body(I, s, f, Ptr(pk)) if not x.facts.contradictory()]
            if not outs: r.bad(oid, sp, "never completes"); continue
            for x in outs:
                l = sinks(x)
                if known:
                    if not (l and l[0][0] == "serialize_map" and l[-1][0] == "end"): r.undecided(oid, sp, "not one map: %s" % [y[0] for y in l][:4]); continue
                    ent = [y for y in l[1:-1] if y[0] == "serialize_entry"]; fl = [y for y in l[1:-1] if y[0] == "fields"]
                    r.check(len(fl) == 1 and target(I, x, fl[0][1][0]) == inner, oid + " fields", sp, "the packet's fields are written %d times" % len(fl))
                    d = {}
                    for y in ent: d.setdefault(y[1][0][1] if y[1][0][0] == "str" else "?", []).append(y[1][1])
                    for key, want in (("class", packets[v["n"]]["class"]), ("msg_id", packets[v["n"]]["id"])):
                        r.check(d.get(key) == [Lin(want)], "%s %s" % (oid, key), sp, "is %s, documented %d" % ([show(z) for z in d.get(key, [])], want))
                        own = [w for w in W.get(v["n"] + "Ref", ()) if w[0] == key]
                        r.check(not own, "%s key %s once" % (oid, key), sp, "the packet has a field of the same name, so the key appears twice")
                    r.check(not set(d) - {"class", "msg_id"}, oid + " nothing else", sp, "also writes %s" % sorted(set(d) - {"class", "msg_id"}))
                else:
                    got = {}
                    for what, vals in l:
                        if what in ("serialize_field", "serialize_entry") and vals[0][0] == "str": got.setdefault(vals[0][1], []).append(vals[1])
                    ut = p.T[v["f"][0][1]]; names = [z[0] for z in ut["variants"][0]["f"]]
                    for k, nm in enumerate(names):
                        val = I.deep(x, inner.f[k])
                        r.check(got.get(nm) == [val], "%s %s" % (oid, nm), sp, "is %s, should be %s once" % ([show(z) for z in got.get(nm, [])], show(val)))
                    r.check(not set(got) - set(names), oid + " nothing else", sp, "also writes %s" % sorted(set(got) - set(names)))
        except Unsupported as e: r.undecided(oid, sp, "%s %s" % (e, getattr(e, "at", "")))

def target(I, s, v):
    while isinstance(v, Ptr): v = I.load(s, v)
    return v

def seq_wrapper(r, p):
    """the wrapper around iterators writes the sequence of what the iterator yields"""
    R = Reader(p, "Serialize")
    for ti, fs in R.impl.items():
        if not p.T[ti]["path"].endswith("::FieldIter"): continue
        f = fs[0]; r.fn(f["key"])
        try:
            I = R.install(Interp(p)); s = State(); it = SymV(p.T[ti]["variants"][0]["f"][0][1], "the iterator")
            def clone(I, s, args, dt, ref): return [(s, target(I, s, args[0]))]
            I.ext["std::clone::Clone::clone"] = clone
            s.store[("S", "w")] = Agg(ti, 0, (it,))
            for x, _ in R.body(I, s, f, Ptr(("S", "w"))):
                r.check(sinks(x) == [("collect_seq", (it,))], "repeated parts are a sequence of their records", f["span"], "hands on %s" % str(sinks(x))[:200])
        except Unsupported as e: r.undecided("repeated parts are a sequence of their records", f["span"], str(e))
        return
    r.bad("repeated parts are a sequence of their records", "", "the sequence wrapper no longer exists")

def records_serial(r, p, W):
    """the records of each repeated part are serialisable views, structures or numbers"""
    A = accessors(p)
    for (v, m) in sorted(PARTS):
        if (v, m) not in A: r.bad("%s.%s records" % (v, m), "", "documented repeated part no longer exists"); continue
        ity = p.T[A[(v, m)]["locals"][0][0]]
        item = next((im for im in p.impls if im.get("trait") == "std::iter::Iterator" and p.T[im["self"]]["k"] == "adt" and p.T[im["self"]]["path"] == ity.get("path")), None)
        r.check(item is not None, "%s.%s is an iterator" % (v, m), A[(v, m)]["span"], "no longer an iterator")

def component_types(r, p, vt):
    """every serialised type that is not a packet: enums by own name or number, words by their bits, structures by their own fields"""
    views = {p.T[i]["path"] for i in vt.values()}; R0 = Reader(p, "Serialize"); n = 0
    for ti in sorted(R0.impl):
        t = p.T[ti]
        if t["k"] != "adt" or t["path"] in views or t["path"].rsplit("::", 1)[-1] in ("PacketRef", "PacketSerializer", "FieldIter"): continue
        nm = t["path"].rsplit("::", 1)[-1]; f = R0.impl[ti][0]; sp = f["span"]; r.fn(f["key"]); n += 1
        bad = und = None
        for i, var in enumerate(t["variants"]):
            try:
                R = Reader(p, "Serialize"); I = R.install(Interp(p)); s = State()
                x = Agg(ti, i, tuple(I.sym_value(s, y[1], y[0]) for y in var["f"]))
                s.store[("S", "v")] = x
                for e, _ in R.body(I, s, f, Ptr(("S", "v"))):
                    if e.facts.contradictory(): continue
                    w = component(I, e, t, var, x, sinks(e))
                    if w is None: continue
                    if w[0]: bad = bad or w[1]
                    else: und = und or w[1]
            except Unsupported as e: und = und or str(e)
        if bad: r.bad("type " + nm, sp, bad)
        elif und: r.undecided("type " + nm, sp, und)
        else: r.ok("type " + nm, sp)
    r.count("component_types", n)

def unwrap_bits(v):
    while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
    return v

def component(I, s, t, var, x, log):
    if not log: return True, "nothing is written"
    what, vals = log[0]
    if t["adt"] == "enum":
        if what == "serialize_unit_variant":
            ok = len(log) == 1 and vals[2] == ("str", var["n"])
            return None if ok else (True, "%s is written as %s" % (var["n"], show_log(log)))
        if what.startswith(("serialize_u", "serialize_i")) and len(vals) == 1 and not var["f"]:
            d = Lin(I.sdiscr(x.ty, var["d"]))
            return None if len(log) == 1 and vals[0] == d else (True, "%s is written as %s, its number is %s" % (var["n"], show_log(log), show(d)))
        if what == "serialize_newtype_variant":
            ok = len(log) == 1 and vals[2] == ("str", var["n"]) and vals[3] == I.deep(s, x.f[0])
            return None if ok else (True, "%s is written as %s" % (var["n"], show_log(log)))
        return False, "written as %s" % show_log(log)
    names = [f[0] for f in var["f"]]
    if what == "serialize_newtype_struct": return None if len(log) == 1 and vals[1] == I.deep(s, x.f[0]) else (True, "written as %s" % show_log(log))
    if what in ("serialize_struct", "serialize_map"):
        got = {}
        for w, v in log[1:]:
            if w in ("serialize_field", "serialize_entry") and v[0][0] == "str": got.setdefault(v[0][1], []).append(v[1])
        for k, n in enumerate(names):
            if got.get(n) != [I.deep(s, x.f[k])]: return True, "field %s is written as %s" % (n, [show(z) for z in got.get(n, [])])
        return None if set(got) == set(names) else (True, "also writes %s" % sorted(set(got) - set(names)))
    if what.startswith(("serialize_u", "serialize_i")) and len(vals) == 1 and len(names) == 1:
        return None if len(log) == 1 and unwrap_bits(vals[0]) == unwrap_bits(x.f[0]) else (True, "written as %s instead of its bits %s" % (show_log(log), show(unwrap_bits(x.f[0]))))
    return False, "written as %s" % show_log(log)
def show_log(log): return "; ".join("%s(%s)" % (w, ", ".join(v[1] if isinstance(v, tuple) and v[:1] == ("str",) else show(v) for v in vals)) for w, vals in log[:4])
