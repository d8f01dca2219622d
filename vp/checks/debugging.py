"""C38: what the debug text of packets and their parts shows."""
from ..model_ublox import *
from ..interp import Interp, State, Unsupported
from ..reads import *
from .packets import ref as packet_ref
from .subrec import valid_state
from .reading import SREF, acc_name, target, sinks, show_log
import json

class Shown(Reader):
    """a Debug reader that records what is handed to the formatter"""
    def __init__(self, p): super().__init__(p, "Debug")
    def log(self, s, what, vals):
        s = s.fork(); s.eff = s.eff + (("sink", what, tuple(vals)),); return s
    def val(self, I, s, v):
        if is_str(v): return ("str", v.al[2])
        while isinstance(v, Ptr) and v.sl is None and v.al[0] != "K": v = I.load(s, v)
        return I.deep(s, v)
    def strs(self, I, s, v):
        x = I.load_slice(s, v) if isinstance(v, Ptr) and v.sl is not None else I.load(s, v) if isinstance(v, Ptr) else v
        if isinstance(x, Agg): return list(x.f)
        if isinstance(x, Seq) and all(g[0] == "lit" for g in x.segs): return [y for g in x.segs for y in g[1]]
        raise Unsupported("a list of names or values that is not written out")
    def sink(self, I, s, args, dt, ref):
        r = ref["rpath"] or ref["path"]; nm = ref["path"]
        if nm.startswith("core::"): nm = "std::" + nm[6:]
        for a in ("::<'a, 'b>", "::<'a, 'b, 'c>", "::<'a>", "::<'_>"): nm = nm.replace(a, "")
        last = nm.rsplit("::", 1)[-1]
        if not nm.startswith("std::fmt::"): return NotImplemented
        done = lambda s: [(s, self.ok(I, s, dt, last))]
        v = lambda x: self.val(I, s, x)
        if nm in ("std::fmt::Debug::fmt", "std::fmt::Display::fmt"): return done(self.log(s, "value", [v(args[0])]))
        if last in ("debug_struct", "debug_tuple"): return done(self.log(s, "name", [v(args[1])]))
        if last == "field":
            s = self.log(s, "field", [v(x) for x in args[1:]] if len(args) == 3 else [None, v(args[1])])
            return [(s, args[0])]
        if last in ("finish", "finish_non_exhaustive"): return done(s if last == "finish" else self.log(s, "more", []))
        if last == "debug_c_like_enum_write_str":       # names packed into one text, one space apart; the number says where the name starts
            txt, at = v(args[1]), args[2]
            if not (isinstance(txt, tuple) and isinstance(at, Lin) and at.is_const()): raise Unsupported("a variant name that is not a constant")
            return done(self.log(s, "name", [("str", txt[1][at.c:].split(" ")[0])]))
        if last.startswith("debug_") and last.endswith("_finish"):
            tup = last.startswith("debug_tuple"); name = v(args[1]); rest = list(args[2:])
            if not isinstance(name, tuple): raise Unsupported("a name that is not a constant")
            if last.endswith("fields_finish"):
                names = None if tup else self.strs(I, s, rest.pop(0)) if len(rest) == 2 else None
                vals = self.strs(I, s, rest[0])
            elif not tup and " " not in name[1] and rest and len(rest) % 2 == 0 and all(isinstance(v(x), tuple) for x in rest[0::2]): names, vals = rest[0::2], rest[1::2]
            else: names, vals = None, rest
            if names is None and not tup:
                parts = name[1].split(" "); name = ("str", parts[0]); names = [("str", x) for x in parts[1:]]
            else: names = [None if tup else v(x) for x in names or vals]
            if len(names) != len(vals): raise Unsupported("names and values of different numbers")
            s = self.log(s, "name", [name])
            for n, x in zip(names, vals): s = self.log(s, "field", [n, v(x)])
            return done(s)
        if last == "write_str": return done(self.log(s, "name", [v(args[1])]))
        if last == "write_fmt": return done(self.log(s, "format", []))
        return NotImplemented

def shown(log):
    """(name, [(field, value)]) or None"""
    if not log or log[0][0] != "name" or log[0][1][0][0] != "str": return None
    out = []
    for what, vals in log[1:]:
        if what != "field": return None
        out.append((None if vals[0] is None else vals[0][1] if isinstance(vals[0], tuple) else "?", vals[1]))
    return log[0][1][0][1], out

def paths(I, R, s, f, ptr):
    out = []
    for x, _ in R.body(I, s, f, ptr):
        if x.facts.contradictory(): continue
        l = sinks(x)
        if l not in [y[1] for y in out]: out.append((x, l))
    return out

def fields_ok(r, oid, sp, got, want):
    names = [n for n, v in got]
    for fn_, acc in want:
        k = names.count(fn_); o = "%s.%s" % (oid, fn_)
        if k != 1: r.bad(o, sp, "the field is shown %d times" % k); continue
        v = dict(got)[fn_]; a, _ = acc_name(v)
        if a is None: r.undecided(o, sp, "value %s" % show(v)); continue
        r.check(a == acc, o, sp, "shows the result of %s instead of %s" % (a, acc))
    extra = [n for n in names if n not in [w[0] for w in want]]
    r.check(not extra, oid + " nothing else", sp, "also shows %s" % extra)

def c38(r, tier):
    r.rule = ("the Debug code of every packet view, of the packet enumeration and of every structured or enumerated component is interpreted over an opaque formatter; what it hands over must be the packet's name and each "
              "declared field once, under its own name, holding its accessor's result; the enumeration must show the kind's own name and the packet itself; components must show their own name and their own parts")
    r.assumptions.append("core::fmt renders what it is handed")
    p = prog("std_alloc"); W = json.load(open(SREF)); packets = packet_ref(); vt = view_types(p); A = accessors(p)
    opaque = {f["key"] for f in A.values()}; n = 0
    R0 = Reader(p, "Debug")
    fn = lambda ti: (R0.impl.get(ti) or R0.by_path.get(p.T[ti]["path"]) or [None])[0]
    for view in sorted(W):
        if view not in vt: r.bad(view, "", "documented packet no longer has a view"); continue
        ti = vt[view]; f = fn(ti); name = view[:-3]
        if f is None: r.bad(view, "", "has no debug text"); continue
        n += 1; r.fn(f["key"]); sp = f["span"]
        try:
            R = Shown(p); R.opaque_methods = opaque; I = R.install(Interp(p))
            if name in packets: s, self_ = valid_state(I, p, ti, name)
            else:
                from .reading import record_view
                I2, s, self_ = record_view(p, ti, 64)
            for x, l in paths(I, R, s, f, self_):
                g = shown(l)
                if g is None: r.undecided(view, sp, "shown as %s" % [y[0] for y in l][:6]); continue
                r.check(g[0] == name, view + " name", sp, "is shown as %s" % g[0])
                fields_ok(r, view, sp, g[1], W[view])
        except Unsupported as e: r.undecided(view, sp, "%s %s" % (e, getattr(e, "at", "")))
    # the packet enumeration
    ei = next((i for i, t in enumerate(p.T) if t["k"] == "adt" and t["local"] and t["path"].endswith("::PacketRef")), None)
    components(r, p, fn, {p.T[i]["path"] for i in vt.values()}, ei)
    r.count("packets", n); r.need("packet views", n, len(W))

def components(r, p, fn, views, ei):
    n = 0; seen = set()
    methods = {}
    for k, f in p.funs.items():
        if f["argc"] == 1 and " as " not in f["path"]:
            t = p.T[f["locals"][1][0]]
            if t["k"] == "ref": t = p.T[t["to"]]
            if t["k"] == "adt" and t["local"]: methods.setdefault(t["path"], {})[f["path"].rsplit("::", 1)[-1]] = f
    for ti, t in enumerate(p.T):
        if t["k"] != "adt" or not t["local"] or t["path"] in views or t["path"] in seen: continue
        f = fn(ti)
        if f is None or "InternalBitFlags" in t["path"]: continue
        seen.add(t["path"]); nm = t["path"].rsplit("::", 1)[-1]; sp = f["span"]; r.fn(f["key"]); n += 1
        bad = und = None
        for i, var in enumerate(t.get("variants", ())):
            try:
                R = Shown(p); R.opaque_methods = {g["key"] for g in methods.get(t["path"], {}).values()}
                I = R.install(Interp(p)); s = State()
                for nm_, g in methods.get(t["path"], {}).items(): I.ext[g["key"]] = lambda I, s, args, dt, ref, nm_=nm_: [(s, SymV(dt, "result of " + nm_))]
                x = Agg(ti, i, tuple(I.sym_value(s, y[1], y[0]) for y in var["f"])); s.store[("S", "v")] = x
                for e, l in paths(I, R, s, f, Ptr(("S", "v"))):
                    w = component(I, e, t, var, x, l, methods.get(t["path"], {}))
                    if w is None: continue
                    if w[0]: bad = bad or w[1]
                    else: und = und or w[1]
            except Unsupported as e: und = und or "%s %s" % (e, getattr(e, "at", ""))
        what = "type " + nm
        if bad: r.bad(what, sp, bad)
        elif und: r.undecided(what, sp, und)
        else: r.ok(what, sp)
    r.count("component_types", n)

def component(I, s, t, var, x, log, methods):
    g = shown(log)
    own = var["n"] if t["adt"] == "enum" else t["path"].rsplit("::", 1)[-1]
    if [y[0] for y in log] == ["value"] and len(var["f"]) == 1: return None if log[0][1][0] == x.f[0] else (True, "%s shows %s" % (own, show(log[0][1][0])))
    if g is None: return False, "%s is shown as %s" % (own, [y[0] for y in log][:5])
    if g[0] != own: return True, "%s is shown as %s" % (own, g[0])
    acc = [acc_name(v)[0] for n, v in g[1]]
    if g[1] and all(a is not None and a in methods for a in acc):
        for (n, v), a in zip(g[1], acc):
            if n != a: return True, "%s shows the result of %s under the name %s" % (own, a, n)
        return (True, "%s shows a part twice" % own) if len(set(acc)) != len(acc) else None
    names = [f[0] for f in var["f"]]; tup = all(n.isdigit() for n in names)
    if len(g[1]) != len(names): return True, "%s shows %d of its %d parts" % (own, len(g[1]), len(names))
    for k, ((n, v), want) in enumerate(zip(sorted(g[1], key=lambda y: names.index(y[0]) if y[0] in names else 99), names)):
        if n is not None and n != want: return True, "%s shows a part named %s" % (own, n)
        if v != I.deep(s, x.f[k]) and v != x.f[k]:
            return (True, "%s.%s is shown as %s" % (own, want, show(v)))
    return None
