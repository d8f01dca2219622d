"""C40: component types that can be deserialised accept their own serialised form and give back the same value."""
import re
from ..model_ublox import *
from ..interp import Interp, State, Unsupported
from ..reads import *
from .reading import sinks, show_log

class Mismatch(Exception): pass

def text_of(v):
    if is_str(v): return v.al[2]
    raise Unsupported("a name that is not a constant")
def texts(I, s, v):
    x = I.load_slice(s, v) if isinstance(v, Ptr) and v.sl is not None else I.load(s, v)
    out = []
    for g in x.segs:
        if g[0] != "lit": raise Unsupported("a list of names that is not written out")
        out += [text_of(y) for y in g[1]]
    return out
def const_str(I, s, t):
    al = ("K", "str", t); b = t.encode()
    s.store.setdefault(al, Seq((("lit", tuple(Lin(y) for y in b)),)))
    return Ptr(al, (), (ZERO, Lin(len(b))))

class Replay:
    """runs a Deserialize body against the recorded serialised form of one value"""
    def __init__(self, p, base, x, form):
        self.p, self.base, self.x, self.form = p, base, x, form
        self.visited = []
    def fun(self, what, visitor=None):
        for k, f in sorted(self.p.funs.items()):
            if f["path"].startswith("<" + self.base + "::") and f["path"].endswith("::" + what) and "{closure" not in k and (" @ " not in k or k.endswith(" @ " + f["path"])):
                if visitor is None or visitor in f["path"]: return f
        raise Unsupported("no %s" % what)
    def okv(self, I, s, dt, v):
        t = I.T[dt]
        if t["k"] == "adt" and t["path"].endswith("result::Result"): return Agg(dt, 0, (v,))
        raise Unsupported("result type %s" % t["s"])
    def call(self, I, s, f, args):
        outs = []
        for x, v in I.exec_body(f, args, s.fork()):
            if not x.facts.contradictory(): outs.append((x, v))
        return outs
    def ext(self, I, s, args, dt, ref):
        nm = ref["path"]; last = nm.rsplit("::", 1)[-1]
        if not nm.startswith(("serde::", "serde_core::")): return NotImplemented
        kind = self.form[0]
        if nm.endswith("Deserialize::deserialize") or last == "deserialize" and "Deserialize" in nm:
            # the content of a newtype or number, read by its own type
            if kind in ("number", "newtype"): return [(s, self.okv(I, s, dt, self.form[-1]))]
            raise Mismatch("reads a bare value where %s is written" % kind)
        if last.startswith("deserialize_"):
            want = last[len("deserialize_"):]
            got = {"number": self.form[1] if kind == "number" else "", "unit_variant": "enum", "newtype_variant": "enum", "newtype": "newtype_struct", "struct": "struct"}[kind]
            if want in ("any", "ignored_any"): raise Unsupported("self-describing form")
            if want == "identifier": raise Unsupported("identifier")
            if want != got and not (kind == "number" and re.fullmatch(r"[ui]\d+", want)): raise Mismatch("expects %s where %s is written" % (want.replace("_", " "), "the number" if kind == "number" else got.replace("_", " ")))
            visitor = args[-1]
            if kind == "number": return self.call(I, s, self.fun("visit_" + self.form[1]), [visitor, self.form[2]])
            if kind == "newtype": return self.call(I, s, self.fun("visit_newtype_struct"), [visitor, SymV(None, "content")])
            names = texts(I, s, args[-2])
            if kind == "struct":
                if names != [n for n, v in self.form[1]]: raise Mismatch("names its fields %s, written as %s" % (names, [n for n, v in self.form[1]]))
                for i, (n, v) in enumerate(self.form[1]): self.identifier(I, s, n, i)
                self.left = [v for n, v in self.form[1]]
                return self.call(I, s, self.fun("visit_seq"), [visitor, SymV(None, "content")])
            if self.form[1] not in names: raise Mismatch("does not know the variant %s" % self.form[1])
            return self.call(I, s, self.fun("visit_enum"), [visitor, SymV(None, "content")])
        if last == "variant":
            t = I.T[dt]; tup = t["variants"][0]["f"][0][1]
            field = self.identifier(I, s, self.form[1], None, I.T[tup]["elems"][0])
            return [(s, self.okv(I, s, dt, Agg(tup, 0, (field, SymV(I.T[tup]["elems"][1], "access")))))]
        if last == "unit_variant":
            if kind != "unit_variant": raise Mismatch("expects no content where the variant has some")
            return [(s, self.okv(I, s, dt, UNIT))]
        if last == "newtype_variant":
            if kind != "newtype_variant": raise Mismatch("expects content where the variant has none")
            return [(s, self.okv(I, s, dt, self.form[2]))]
        if last == "next_element":
            opt = I.T[dt]["variants"][0]["f"][0][1]
            if not self.left: return [(s, self.okv(I, s, dt, Agg(opt, 0, ())))]
            # the n-th call of a straight-line body: progress is kept in the recorded effects
            k = sum(1 for e in s.eff if e[0] == "element")
            if k >= len(self.left): return [(s, self.okv(I, s, dt, Agg(opt, 0, ())))]
            s = s.fork(); s.eff = s.eff + (("element", k),)
            return [(s, self.okv(I, s, dt, Agg(opt, 1, (self.left[k],))))]
        if nm.startswith(("serde::de::Error::", "serde_core::de::Error::")): return [(s, SymV(dt, "refused"))]
        return NotImplemented
    def identifier(self, I, s, name, index, want_ty=None):
        """the field or variant a name stands for, by the library's own name table"""
        f = self.fun("visit_str", "__FieldVisitor")
        s2 = s.fork(); arg = const_str(I, s2, name)
        outs = self.call(I, s2, f, [I.sym_value(s2, f["locals"][1][0], "visitor"), arg])
        if len(outs) != 1: raise Unsupported("name table")
        v = outs[0][1]
        if v.var != 0: raise Mismatch("does not recognise the name %s" % name)
        g = v.f[0]
        if index is not None and g.var != index: raise Mismatch("takes the name %s for another one" % name)
        return g

def form_of(I, s, x, log):
    if not log: return None
    what, v = log[0]
    if what == "serialize_unit_variant" and len(log) == 1: return ("unit_variant", v[2][1])
    if what == "serialize_newtype_variant" and len(log) == 1: return ("newtype_variant", v[2][1], x.f[0])
    if what == "serialize_newtype_struct" and len(log) == 1: return ("newtype", x.f[0])
    m = re.fullmatch(r"serialize_([ui]\d+)", what)
    if m and len(log) == 1: return ("number", m.group(1), v[0])
    if what == "serialize_struct" and log[-1][0] == "end" and all(w == "serialize_field" for w, _ in log[1:-1]):
        t = I.T[x.ty]; fs = {f[0]: i for i, f in enumerate(t["variants"][x.var]["f"])}
        out = []
        for w, y in log[1:-1]:
            # by value, so that a renamed key still names the field it holds
            k = [i for i in range(len(x.f)) if I.deep(s, x.f[i]) == y[1]]
            if len(k) != 1: k = [fs[y[0][1]]] if y[0][1] in fs else k
            if len(k) != 1: return None
            out.append((y[0][1], x.f[k[0]]))
        return ("struct", out)
    return None

def c40(r, tier):
    r.rule = ("for every component type that implements both directions: the recorded serialised form of each variant is replayed into the interpreted deserialisation code (kind of value, names, the library's own name "
              "tables, order and content), which must accept it and return the value that was written")
    r.assumptions.append("serde's own implementations for numbers, strings and options are correct, and a data format hands back what was written")
    p = prog("std_alloc"); n = 0
    De = impl_fns(p, "Deserialize")
    both = {}
    for im in p.impls:
        if (im.get("trait") or "").split("<")[0].rsplit("::", 1)[-1] != "Deserialize": continue
        t = p.T[im["self"]]
        if t["k"] != "adt" or not t["local"] or t["path"].endswith("__Field"): continue
        path = next((q for nm, q in im["items"] if nm == "deserialize"), None)
        if path: both[im["self"]] = (path, im["span"])
    Se = Reader(p, "Serialize").impl
    for ti, (path, sp) in sorted(both.items(), key=lambda z: p.T[z[0]]["path"]):
        t = p.T[ti]; nm = t["path"].rsplit("::", 1)[-1]
        if ti not in Se: r.notes.append("%s can be deserialised but not serialised" % nm); continue
        f = next((g for k, g in sorted(p.funs.items()) if g["path"] == path and (" @ " not in k or k.endswith(" @ " + path)) and "{closure" not in k), None)
        if f is None: r.undecided(nm, sp, "no body"); continue
        n += 1; r.fn(f["key"])
        bad = und = None
        for i, var in enumerate(t["variants"]):
            try:
                R = Reader(p, "Serialize"); I = R.install(Interp(p)); s = State()
                x = Agg(ti, i, tuple(I.sym_value(s, y[1], y[0]) for y in var["f"])); s.store[("S", "v")] = x
                for e, _ in R.body(I, s, Se[ti][0], Ptr(("S", "v"))):
                    if e.facts.contradictory(): continue
                    form = form_of(I, e, x, sinks(e))
                    if form is None: raise Unsupported("written as %s" % show_log(sinks(e)))
                    J = Interp(p); Q = Replay(p, path, x, form); J.pre_ext = Q.ext
                    s2 = e.fork(); s2.eff = ()
                    outs = [(a, v) for a, v in J.exec_body(f, [SymV(f["locals"][1][0], "source")], s2) if not a.facts.contradictory()]
                    if not outs: bad = bad or "%s: never returns" % var["n"]
                    for a, v in outs:
                        if v.var != 0: bad = bad or "%s: its own serialised form is refused" % var["n"]
                        elif J.deep(a, v.f[0]) != J.deep(a, x): bad = bad or "%s: comes back as %s" % (var["n"], show(v.f[0])[:200])
            except Mismatch as e: bad = bad or "%s: %s" % (var["n"], e)
            except Unsupported as e: und = und or "%s: %s %s" % (var["n"], e, getattr(e, "at", ""))
        oid = "type %s" % nm
        if bad: r.bad(oid, sp, bad)
        elif und: r.undecided(oid, sp, und)
        else: r.ok(oid, sp)
    r.count("types", n); r.need("types with both directions", n, 15)
