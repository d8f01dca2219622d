"""C41: what the text of an error says."""
from ..model_ublox import *
from ..interp import Interp, State, Unsupported
from ..reads import *
from .debugging import Shown
import re

def pieces(tmpl):
    """the compiler's encoding of a format string: literal pieces and places (argument number or None for the next one)"""
    out, i, nxt = [], 0, 0
    while True:
        b = tmpl[i]; i += 1
        if b == 0: break
        if b < 0x80: out.append(("text", bytes(tmpl[i:i + b]).decode())); i += b
        elif b == 0x80:
            n = tmpl[i] | tmpl[i + 1] << 8; i += 2
            out.append(("text", bytes(tmpl[i:i + n]).decode())); i += n
        elif b >= 0xC0:
            k = nxt
            if b & 1: i += 4
            if b & 2: i += 2
            if b & 4: i += 2
            if b & 8: k = tmpl[i] | tmpl[i + 1] << 8; i += 2
            out.append(("arg", k)); nxt = k + 1
        else: raise Unsupported("format string encoding %#x" % b)
    return out

class Told(Shown):
    def const_bytes(self, I, s, v):
        if is_str(v): return v.al[2]
        x = I.load_slice(s, v) if isinstance(v, Ptr) and v.sl is not None else I.load(s, v) if isinstance(v, Ptr) else v
        if isinstance(x, Seq):
            out = []
            for g in x.segs:
                if g[0] != "lit": raise Unsupported("a format string that is not a constant")
                out += g[1]
            if all(isinstance(y, Lin) and y.is_const() for y in out): return [y.c for y in out]
        raise Unsupported("a format string that is not a constant")
    def sink(self, I, s, args, dt, ref):
        nm = ref["path"]; last = nm.rsplit("::", 1)[-1]
        if "fmt::rt::Argument" in nm and last.startswith("new_"):
            return [(s, Agg(dt, "fmtarg", (args[0],)))]
        if "fmt::Arguments" in nm and last in ("new", "new_v1", "new_const", "from_str", "from_str_nonconst"):
            c = self.const_bytes(I, s, args[0])
            if isinstance(c, str): return [(s, Agg(dt, "fmtargs", (("text", c),)))]
            av = I.load_slice(s, args[1]) if args[1].sl is not None else I.load(s, args[1])
            vals = [y for g in av.segs for y in g[1]] if isinstance(av, Seq) else list(av.f)
            out = []
            for k, x in pieces(c):
                if k == "text": out.append((k, x))
                else: out.append(("val", self.val(I, s, vals[x].f[0])))
            return [(s, Agg(dt, "fmtargs", tuple(out)))]
        if last == "write_fmt" and len(args) == 2:
            a = args[1]
            if not isinstance(a, Agg) or a.var != "fmtargs": raise Unsupported("a message that is not a format string")
            for k, x in a.f: s = self.log(s, k, [x if k == "text" else x])
            return [(s, self.ok(I, s, dt, last))]
        if last in ("write_str", "pad") and "fmt::" in nm:
            return [(s2, self.ok(I, s2, dt, last)) for s2 in [self.log(s, "text", [self.const_bytes(I, s, args[1])])]]
        if nm in ("std::fmt::Display::fmt", "std::fmt::Debug::fmt", "core::fmt::Display::fmt") or re.match(r"^<.* as (std|core)::fmt::(Display|Debug|LowerHex|UpperHex)>::fmt$", nm) or re.match(r"^(std|core)::fmt::(num::)?(imp::)?<impl (std|core)::fmt::\w+ for .*>::fmt$", nm):
            if ref["key"] and ref["key"] in I.p.funs and I.p.funs[ref["key"]]["local"]: return NotImplemented
            s = self.log(s, "val", [self.val(I, s, args[0])]); return [(s, self.ok(I, s, dt, last))]
        return super().sink(I, s, args, dt, ref)

ERRORS = ("MemWriterError", "ParserError", "DateTimeError")
def c41(r, tier):
    r.rule = ("the Display code of every error type is interpreted over an opaque formatter; each kind of error must have a text of its own, show each of its parts exactly once and nothing else, "
              "and a place announced by the name of a part must hold that part")
    r.assumptions.append("core::fmt renders what it is handed")
    p = prog("std_alloc"); R0 = Reader(p, "Display"); n = 0
    for ti, t in enumerate(p.T):
        if t["k"] != "adt" or not t["local"] or "InternalBitFlags" in t["path"]: continue
        fs = R0.impl.get(ti) or R0.by_path.get(t["path"]) or []
        nm = t["path"].rsplit("::", 1)[-1]
        if not fs:
            if nm in ERRORS and not any(x["k"] == "adt" and x["path"] == t["path"] and R0.impl.get(i) for i, x in enumerate(p.T)): r.bad(nm, "", "the error has no text")
            continue
        f = fs[0]; sp = f["span"]; r.fn(f["key"]); texts = {}
        if p.T[f["locals"][1][0]].get("to") != ti: continue
        for i, var in enumerate(t["variants"]):
            oid = "%s::%s" % (nm, var["n"]); n += 1
            try:
                R = Told(p); I = R.install(Interp(p)); s = State()
                x = Agg(ti, i, tuple(I.sym_value(s, y[1], y[0]) for y in var["f"])); s.store[("S", "v")] = x
                outs = [(e, [(w, vals[0]) for k, w, vals in (y for y in e.eff if y[0] == "sink")]) for e, _ in R.body(I, s, f, Ptr(("S", "v"))) if not e.facts.contradictory()]
                if I.panics: r.bad(oid, sp, "its text may panic: %s" % (I.panics[0],)); continue
                if not outs: r.bad(oid, sp, "has no text"); continue
                for e, log in outs:
                    why = und = None; shown = []; said = ""
                    text = "".join(v if w == "text" else "{}" for w, v in log)
                    for w, v in log:
                        if w == "text": said = said + v; continue
                        if w != "val": und = "shown as %s" % w; break
                        k = next((k for k, y in enumerate(x.f) if v == y or v == I.deep(e, y)), None)
                        if k is None: und = "shows %s" % show(v)[:80]; break
                        shown.append(var["f"][k][0])
                        words = re.findall(r"[A-Za-z_]+", said); names = [y[0] for y in var["f"] if y[0] in words or y[0].split("_")[0] in words[-1:]]
                        if words and words[-1] in [y[0] for y in var["f"]] and words[-1] != shown[-1]: why = "announces %s and shows %s" % (words[-1], shown[-1])
                        said = ""
                    for y in var["f"]:
                        if und is None and shown.count(y[0]) != 1: why = why or "%s is shown %d times" % (y[0], shown.count(y[0]))
                    lit = re.sub(r"\{\}|\W", "", text)
                    if not lit and not var["f"]: why = why or "says nothing"
                    if lit and text in texts and texts[text] != i: why = why or "has the same text as %s" % t["variants"][texts[text]]["n"]
                    texts[text] = i
                    if why: r.bad(oid, sp, why + " (%s)" % text)
                    elif und: r.undecided(oid, sp, und)
                    else: r.ok(oid, sp, text); r.sample("%s: %s" % (oid, text))
            except Unsupported as e: r.undecided(oid, sp, "%s %s" % (e, getattr(e, "at", "")))
    r.count("kinds_of_error", n); r.need("kinds of error", n, 9)
