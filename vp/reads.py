"""Rendering and serialising values: the library's Debug / Serialize code over opaque core::fmt and serde sinks.

A sink call only hands values on; `visit` follows each handed-on value into the library's own Debug or Serialize code.
Methods of the value being rendered are summarised: they run once on a copy of the state (their panics are recorded),
and when they have several outcomes each outcome is visited and one opaque value stands for all of them."""
from .terms import *
from .interp import Interp, State, Unsupported

def impl_fns(p, trait_last):
    """{type index: function} of the local implementations of a trait with one rendering method"""
    out = {}; by = {}
    for k, f in p.funs.items(): by.setdefault(f["path"], []).append(f)
    for im in p.impls:
        tr = im.get("trait") or ""
        if tr.split("<")[0].rsplit("::", 1)[-1] != trait_last: continue
        for nm, path in im["items"]:
            fs = by.get(path)
            if fs and nm in ("fmt", "serialize", "serialize_fields"): out.setdefault(im["self"], []).extend(fs)
    return out

class Reader:
    """kind: "Debug" or "Serialize" """
    def __init__(self, p, kind, join=True):
        self.p, self.kind, self.join = p, kind, join
        self.impl = impl_fns(p, kind)
        self.by_path = {}
        for ti, fs in self.impl.items():
            t = p.T[ti]
            if t["k"] == "adt": self.by_path.setdefault(t["path"], fs)
        self.pure = {}
        for k, f in p.funs.items():
            if f["argc"] == 1:
                t = p.T[f["locals"][1][0]]
                if t["k"] == "ref" and p.T[t["to"]]["k"] == "adt" and p.T[t["to"]]["local"] and " as " not in f["path"]: self.pure[k] = f
        self.opaque_methods = set()      # keys of functions analysed elsewhere: they stand for themselves here
        self.visited = 0

    def install(self, I):
        for k in self.pure: I.ext[k] = self.summary
        I.pre_ext = self.sink
        return I

    # -- library methods
    def summary(self, I, s, args, dt, ref):
        f = self.pure[ref["key"]]
        if ref["key"] in self.opaque_methods: return [(s, SymV(dt, "result of %s" % f["path"].rsplit("::", 1)[-1]))]
        outs = I.exec_body(f, args, s.fork())
        outs = [(x, v) for x, v in outs if not x.facts.contradictory()]
        if len(outs) <= 1 or not self.join: return outs
        for x, v in outs: self.visit(I, x, v)
        return [(s, SymV(dt, "result of %s" % f["path"].rsplit("::", 1)[-1]))]

    # -- sinks
    def ok(self, I, s, dt, tag):
        t = I.T[dt]
        if t["k"] == "adt" and t["path"].endswith("result::Result"):
            return Agg(dt, 0, (I.sym_value(s, t["variants"][0]["f"][0][1], "sink") if t["variants"][0]["f"][0][1] is not None else UNIT,))
        if t["k"] == "tuple" and not t["elems"]: return UNIT
        return SymV(dt, "sink")

    def sink(self, I, s, args, dt, ref):
        r = ref["rpath"] or ref["path"]
        for nm in {ref["path"], r}:
            if nm.startswith("core::"): nm = "std::" + nm[6:]
            nm = nm.replace("::<'a, 'b>", "").replace("::<'a, 'b, 'c>", "").replace("::<'a>", "").replace("::<'_>", "")
            last = nm.rsplit("::", 1)[-1]
            if nm.startswith("std::fmt::"):
                if self.kind != "Debug" and last == "fmt" : return NotImplemented
                if nm in ("std::fmt::Debug::fmt", "std::fmt::Display::fmt"):
                    self.visit(I, s, args[0]); return [(s, self.ok(I, s, dt, last))]
                if nm.startswith(("std::fmt::Formatter::", "std::fmt::builders::", "std::fmt::Debug", "std::fmt::Arguments", "std::fmt::rt::")):
                    vs = args[1:] if nm.startswith(("std::fmt::Formatter", "std::fmt::Debug", "std::fmt::builders")) else args
                    for v in vs: self.visit(I, s, v)
                    if isinstance(args[0], Ptr) and I.T[dt]["k"] == "ref" and last in ("field", "entry", "entries", "key", "value"): return [(s, args[0])]
                    return [(s, self.ok(I, s, dt, last))]
            if nm.startswith(("serde::Serializer::", "serde::ser::")):
                if last == "serialize_fields": return NotImplemented
                if nm == "serde::Serialize::serialize":
                    s = self.hand(I, s, "value", [args[0]]); return [(s, self.ok(I, s, dt, last))]
                s = self.hand(I, s, last, args[1:]); return [(s, self.ok(I, s, dt, last))]
        return NotImplemented

    def hand(self, I, s, what, vals):
        for v in vals: self.visit(I, s, v)
        s = s.fork()
        s.eff = s.eff + (("sink", what, tuple(("str", v.al[2]) if is_str(v) else I.deep(s, v) for v in vals)),)
        return s

    # -- values
    def visit(self, I, s, v, depth=0):
        """follow a rendered value into the library's own rendering code"""
        if depth > 12: raise Unsupported("deep value")
        if isinstance(v, Ptr):
            if v.al[0] == "K" or v.sl is not None: 
                if v.sl is not None and v.al[0] != "K":
                    try: x = I.load_slice(s, v)
                    except Unsupported: return
                    self.visit(I, s, x, depth + 1)
                return
            x = I.load(s, v)
            if isinstance(x, Agg) and isinstance(x.ty, int) and self.render(I, s, x, v): return
            return self.visit(I, s, x, depth + 1)
        if isinstance(v, Seq):
            for g in v.segs:
                if g[0] == "lit":
                    for y in g[1]: self.visit(I, s, y, depth + 1)
            return
        if isinstance(v, Agg):
            if isinstance(v.ty, int) and self.render(I, s, v, None): return
            for x in v.f: self.visit(I, s, x, depth + 1)

    def render(self, I, s, x, ptr):
        t = I.T[x.ty]
        fs = self.by_path.get(t["path"]) if t["k"] == "adt" and t["local"] else None
        if not fs: return False
        if "InternalBitFlags" in t["path"]: return True
        f = next((g for g in fs if same_adt(I, g, x.ty)), fs[0])
        s = s.fork()
        if ptr is None:
            al = ("C", s.fresh("v")); s.store[al] = x; ptr = Ptr(al)
        self.visited += 1
        self.body(I, s, f, ptr)
        return True

    def body(self, I, s, f, ptr):
        """run a rendering function on the value at ptr; the paths it returns by"""
        args = [ptr] + [I.sym_value(s, f["locals"][i + 2][0], "out%d" % i) for i in range(f["argc"] - 1)]
        return I.exec_body(f, args, s)

def same_adt(I, g, ti):
    t = I.T[g["locals"][1][0]]
    return t["k"] == "ref" and t["to"] == ti
def is_str(v): return isinstance(v, Ptr) and v.al[0] == "K" and v.al[1] == "str"
