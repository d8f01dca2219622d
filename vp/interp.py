"""Abstract interpreter over resolved MIR: trace-partitioned, linear-relational, byte-provenance domain.
Loops are unrolled only when their trip count is fixed by the program text (arrays of known size);
every other loop is replaced by an inductive invariant found by template refinement."""
import itertools
from .terms import *
from .facts import Facts
from .prog import short

class Unsupported(Exception): pass
class NeedSplit(Exception):
    def __init__(self, cond): self.cond = cond
class Abort(Exception): pass

class State:
    __slots__ = ("store", "facts", "n", "eff", "skips")
    def __init__(self, store=None, facts=None, n=0, eff=()):
        self.store = store if store is not None else {}
        self.facts = facts or Facts()
        self.n = n; self.eff = eff
    def fork(self):
        s = State(dict(self.store), self.facts, self.n, self.eff); return s
    def assume(self, *bs):
        """conjoin; returns False when contradictory"""
        f = self.facts.add(*bs)
        if f is None: return False
        self.facts = f
        return True
    def holds(self, b): return self.facts.entails(b)
    def decide(self, b):
        r = self.facts.decide(b)
        if r is None: raise NeedSplit(b)
        return r
    def fresh(self, tag):
        self.n += 1
        return "%s~%d" % (tag, self.n)

class Panic:
    __slots__ = ("fn", "span", "kind", "st", "stack")
    def __init__(self, fn, span, kind, st, stack): self.fn, self.span, self.kind, self.st, self.stack = fn, span, kind, st, stack
    def __repr__(self): return "panic %s in %s (%s)" % (self.kind, self.fn, self.span)

MAXLEN = (1 << 63) - 1
PANIC_PREFIX = ("core::panicking::", "std::rt::", "std::panicking::", "core::option::unwrap_failed", "core::option::expect_failed",
                "core::result::unwrap_failed", "core::slice::index::slice_", "core::str::slice_error_fail", "alloc::raw_vec::capacity_overflow",
                "core::cell::panic", "std::process::abort", "core::intrinsics::abort", "core::slice::copy_from_slice_impl::len_mismatch_fail")

class Frame:
    __slots__ = ("f", "id", "loops", "depth")

class Interp:
    def __init__(self, prog, models=None, ext=None, budget=200000):
        self.p = prog
        self.T = prog.T
        self.ext = ext or {}
        self.panics = []
        self.fid = itertools.count(1)
        self.nosplit = 0
        self.steps = 0
        self.budget = budget
        self.loop_records = []
        self.stack = []
        self.elem_ty = {}
        self.contracts = {}
        self.covered = set()
        self.max_unroll = 600
        self.panic_filter = None
        self.opaque_ok = lambda path, ref: False
        self.cand_hook = None
        from .models import MODELS, MODEL_RX
        from . import iters
        self.models = MODELS; self.model_rx = MODEL_RX
        self._mcache = {}
        self.unsafe_ops = []
        self.unsafe_bad = []
        self.grow_params = True
        self.cur = None
        self.pre_ext = None
        self.cost = Interp.COST

    COST = False              # set while run time is being accounted: effects ("cost", amount, weight, place)
    def cost_weight(self, st0, backs):
        """work per round of a loop: a constant, None when a round's work is not one, or "moves" when the rounds advance the stream (judged by themselves)"""
        w = 1
        for b in backs:
            new = b.eff[len(st0.eff):] if b.eff[:len(st0.eff)] == st0.eff else b.eff
            if any(e[0] == "pos" for e in new): return "moves"
            c = 1
            for e in new:
                if e[0] == "cost":
                    if e[2] == "moves": return "moves"
                    if e[2] is None or not e[1].is_const(): c = None; break
                    c += e[1].c * e[2]
            if c is None: w = None; break
            w = max(w, c)
        return w
    def cost_of(self, s, name, args):
        from .models import CONSTANT_TIME
        if CONSTANT_TIME.search(name): return None
        tot = ZERO
        if name.endswith("::drain") and len(args) == 2 and isinstance(args[1], Agg):
            # what follows the removed range moves
            from .models import range_of
            try:
                v = self.load(s, args[0]); n = v.f[0].length(); e = range_of(self, s, args[1], n)
                return n - e[1]
            except (Unsupported, NeedSplit, AttributeError, TypeError): pass
        if name.endswith("::copy_within") and isinstance(args[1], Agg):
            from .models import range_of
            try:
                e = range_of(self, s, args[1], args[0].sl[1]); return e[1] - e[0]
            except (Unsupported, NeedSplit, AttributeError, TypeError): pass
        for a in args:
            if isinstance(a, Ptr) and a.sl is not None: tot = tot + a.sl[1]
            elif isinstance(a, Lin) and "copy" in name: tot = tot + a
            elif isinstance(a, Ptr):
                try: v = self.load(s, a)
                except (Unsupported, NeedSplit): continue
                if isinstance(v, Ptr) and v.sl is not None: tot = tot + v.sl[1]
                if isinstance(v, Agg) and v.var == "vec": tot = tot + v.f[0].length()
        return None if tot.is_const() and tot.c < 64 else tot

    # ------------------------------------------------------------ types and symbolic values
    def int_ty(self, ti):
        t = self.T[ti]
        if t["k"] == "int": return t["bits"], t["signed"]
        if t["k"] == "char": return 32, False
        if t["k"] == "bool": return 1, False
        return None

    def sym_value(self, st, ti, name, sized_hint=None):
        t = self.T[ti]; k = t["k"]
        if k == "int":
            lo, hi = rng_of(t["bits"], t["signed"]); return sym(name, lo, hi)
        if k == "char": return sym(name, 0, 0x10FFFF)
        if k == "bool": return ("ba", atom("sym", (name,), 0, 1))
        if k == "float": return ("f", "sym", name)
        if k in ("ref", "ptr"):
            to = self.T[t["to"]]
            al = ("S", name)
            if to["k"] in ("slice", "str"):
                n = sym("len(%s)" % name, 0, MAXLEN)
                if al not in st.store:
                    st.store[al] = Seq((("sub", name, ZERO, n),))
                    self.elem_ty[name] = to.get("elem", None) if to["k"] == "slice" else "u8"
                return Ptr(al, (), (ZERO, n))
            if al not in st.store:
                st.store[al] = None
                st.store[al] = self.sym_value(st, t["to"], "*" + name if not name.startswith("*") else "*" + name)
            return Ptr(al)
        if k == "array" and t["n"] is not None:
            self.elem_ty[name] = t["elem"]
            return Seq((("sub", name, ZERO, Lin(t["n"])),)) if t["n"] else Seq(())
        if k == "tuple":
            return Agg("tuple", 0, tuple(self.sym_value(st, e, "%s.%d" % (name, i)) for i, e in enumerate(t["elems"])))
        if k == "adt":
            if t["path"].endswith("vec::Vec"):
                self.elem_ty[name] = t["args"][0]
                return Agg(ti, "vec", (Seq((("sub", name, ZERO, sym("len(%s)" % name, 0, MAXLEN)),)),))
            if t["adt"] == "struct" and t["variants"]:
                fs = t["variants"][0]["f"]
                if all(x[1] is not None for x in fs) and len(fs) <= 64 and not t["path"].startswith(("std::fmt", "core::fmt", "std::slice", "std::iter", "alloc::")):
                    return Agg(ti, 0, tuple(self.sym_value(st, x[1], "%s.%s" % (name, x[0])) for x in fs))
        if k == "fndef": return SymV(ti, name)
        return SymV(ti, name)

    def elem(self, st, base, idx):
        et = self.elem_ty.get(base, "u8")
        if et == "u8" or et is None: return of_atom(atom("el", (base, idx), 0, 255))
        t = self.T[et]
        if t["k"] == "int":
            lo, hi = rng_of(t["bits"], t["signed"])
            return of_atom(atom("el", (base, idx), lo, hi))
        return self.sym_value(st, et, "%s[%s]" % (base, show(idx)))

    def variants(self, ti):
        return self.T[ti]["variants"]

    def discr_of(self, st, v):
        if isinstance(v, Agg):
            if isinstance(v.ty, int) and self.T[v.ty]["k"] == "adt":
                if not isinstance(v.var, int): raise Unsupported("discriminant of modelled value %r" % v)
                return Lin(int(self.T[v.ty]["variants"][v.var]["d"]) if self.T[v.ty]["adt"] == "enum" else 0)
            return ZERO
        if isinstance(v, SymV):
            t = self.T[v.ty]
            if t["k"] != "adt": return of_atom(atom("discr", (v.name,)))
            ds = [self.sdiscr(v.ty, x["d"]) for x in t["variants"]]
            if not ds: raise Unsupported("discriminant of uninhabited %s" % t["s"])
            return of_atom(atom("discr", (v.name, tuple(sorted(ds))), min(ds), max(ds)))
        raise Unsupported("discriminant of %r" % (v,))
    def sdiscr(self, ti, d):
        d = int(d)
        dt = self.T[ti]["dty"]
        if dt is not None:
            t = self.T[dt]
            if t["k"] == "int" and t["signed"] and d >> (t["bits"] - 1) & 1: d -= 1 << t["bits"] if d < (1 << t["bits"]) else 1 << 128
        return d

    # ------------------------------------------------------------ memory
    def seq_at(self, st, seq, idx):
        """element at index (must be provably or assumably in range); may raise NeedSplit"""
        if isinstance(seq, SymV): raise Unsupported("index into opaque %r" % seq)
        pos = ZERO
        segs = seq.segs
        for n, s in enumerate(segs):
            ln = seg_len(s)
            end = pos + ln
            last = n == len(segs) - 1
            if last or st.decide(lt(idx, end)):
                rel = idx - pos
                if s[0] == "lit":
                    if rel.is_const():
                        if not 0 <= rel.c < len(s[1]): raise Unsupported("constant index %s out of literal" % rel.c)
                        return s[1][rel.c]
                    els = s[1]
                    if len(els) == 1 : return els[0]
                    for i in range(len(els) - 1):
                        if st.decide(eq(rel, Lin(i))): return els[i]
                    return els[-1]
                if s[0] == "sub": return self.elem(st, s[1], s[2] + rel)
                return s[1]
            pos = end
        raise Unsupported("index into empty sequence")

    def seq_slice(self, st, seq, off, ln):
        """sub-sequence [off, off+ln), assumed in range"""
        total = seq.length()
        if off == ZERO and ln == total: return seq
        out = []
        pos = ZERO
        end_want = off + ln
        if ln == ZERO: return Seq(())
        for i, s in enumerate(seq.segs):
            sl = seg_len(s); end = pos + sl
            last = i == len(seq.segs) - 1
            # starts after this segment?
            if not last and st.decide(le(end, off)): pos = end; continue
            if out and st.decide(le(end_want, pos)): break
            # a = max(off-pos,0), b = min(end_want-pos, sl)
            a = ZERO if out else off - pos
            b_full = True if last and st.holds(le(end, end_want)) else (False if last else st.decide(le(end, end_want)))
            if last and not b_full:
                b = end_want - pos
            else: b = sl if b_full else end_want - pos
            n = b - a
            if s[0] == "lit":
                if not (a.is_const() and n.is_const()):
                    # enumerate
                    for v in range(len(s[1]) + 1):
                        if a.is_const(): break
                        if st.decide(eq(a, Lin(v))): a = Lin(v); break
                    n = b - a
                    for v in range(len(s[1]) + 1):
                        if n.is_const(): break
                        if st.decide(eq(n, Lin(v))): n = Lin(v); break
                if not (a.is_const() and n.is_const()): raise Unsupported("symbolic cut of literal segment")
                out.append(("lit", s[1][a.c:a.c + n.c]))
            elif s[0] == "sub": out.append(("sub", s[1], s[2] + a, n))
            else: out.append(("rep", s[1], n))
            if not b_full: break
            pos = end
        return Seq(tuple(out))

    def seq_set(self, st, seq, idx, v):
        n = seq.length()
        if len(seq.segs) == 1 and seq.segs[0][0] == "lit" and idx.is_const():
            e = seq.segs[0][1]
            if not 0 <= idx.c < len(e): raise Unsupported("constant store out of range")
            return Seq((("lit", e[:idx.c] + (v,) + e[idx.c + 1:]),))
        if len(seq.segs) == 1 and seq.segs[0][0] == "rep" and n.is_const() and n.c <= 4096:
            return self.seq_set(st, Seq((("lit", (seq.segs[0][1],) * n.c),)), idx, v)
        if len(seq.segs) == 1 and seq.segs[0][0] == "lit":
            e = seq.segs[0][1]
            for i in range(len(e)):
                if st.decide(eq(idx, Lin(i))): return Seq((("lit", e[:i] + (v,) + e[i + 1:]),))
            raise Unsupported("store index")
        a = self.seq_slice(st, seq, ZERO, idx)
        b = self.seq_slice(st, seq, idx + 1, n - idx - 1)
        return Seq(a.segs + (("lit", (v,)),) + b.segs)

    def get_path(self, st, v, path):
        for s in path:
            v = self.get_step(st, v, s)
        return v
    def get_step(self, st, v, s):
        k = s[0]
        if k == "f":
            if isinstance(v, Agg): 
                if s[1] >= len(v.f): raise Unsupported("field %d of %r" % (s[1], v))
                return v.f[s[1]]
            if isinstance(v, Clo): return v.up[s[1]]
            if isinstance(v, SymV):
                return self.sym_field(st, v, 0, s[1], s[2] if len(s) > 2 else None)
            raise Unsupported("field of %r" % (v,))
        if k == "d":
            if isinstance(v, Agg): return v
            if isinstance(v, SymV): return ("down", v, s[1])
            raise Unsupported("downcast of %r" % (v,))
        if k == "i":
            if isinstance(v, Seq): return self.seq_at(st, v, s[1])
            if isinstance(v, Agg) and v.var == "vec": return self.seq_at(st, v.f[0], s[1])
            if isinstance(v, SymV): raise Unsupported("index of opaque %r" % v)
            # pointer to a single element seen as one-element slice
            if s[1] == ZERO: return v
            raise Unsupported("index of %r" % (v,))
        raise Unsupported("step %r" % (s,))
    def sym_field(self, st, v, var, i, fty):
        t = self.T[v.ty]
        if t["k"] == "adt" and t["variants"] and var < len(t["variants"]):
            fs = t["variants"][var]["f"]
            vn = t["variants"][var]["n"] + "." if t["adt"] == "enum" else ""
            return self.sym_value(st, fs[i][1], "%s.%s%s" % (v.name, vn, fs[i][0]))
        if fty is not None: return self.sym_value(st, fty, "%s.%d" % (v.name, i))
        raise Unsupported("field %d of opaque %s" % (i, t["s"]))

    def load(self, st, ptr):
        if ptr.al not in st.store: raise Unsupported("load of dead/unknown memory %r" % (ptr,))
        v = st.store[ptr.al]
        path = ptr.path
        i = 0
        while i < len(path):
            s = path[i]
            if s[0] == "d" and isinstance(v, SymV):
                if i + 1 < len(path) and path[i + 1][0] == "f":
                    v = self.sym_field(st, v, s[1], path[i + 1][1], path[i + 1][2] if len(path[i + 1]) > 2 else None)
                    i += 2; continue
                return v
            v = self.get_step(st, v, s)
            i += 1
        if v is None: raise Unsupported("uninitialised %r" % (ptr,))
        return v

    def load_slice(self, st, ptr):
        """content of a slice pointer as a Seq"""
        if ptr.sl is None:
            v = self.load(st, ptr)
            if isinstance(v, Seq): return v
            if isinstance(v, Agg) and v.var == "vec": return v.f[0]
            raise Unsupported("not a slice: %r" % (ptr,))
        off, ln = ptr.sl
        base = self.load(st, Ptr(ptr.al, ptr.path))
        if isinstance(base, Agg) and base.var == "vec": base = base.f[0]
        if not isinstance(base, Seq):
            if ln == Lin(1) and off == ZERO: return Seq((("lit", (base,)),))
            if isinstance(base, SymV): raise Unsupported("slice of opaque %r" % base)
            raise Unsupported("slice of %r" % (base,))
        return self.seq_slice(st, base, off, ln)

    def set_path(self, st, v, path, nv):
        if not path: return nv
        s = path[0]
        if s[0] == "f":
            if isinstance(v, Agg):
                return v.with_f(s[1], self.set_path(st, v.f[s[1]], path[1:], nv))
            if isinstance(v, Clo):
                return Clo(v.key, v.up[:s[1]] + (self.set_path(st, v.up[s[1]], path[1:], nv),) + v.up[s[1] + 1:], v.ty)
            raise Unsupported("store to field of %r" % (v,))
        if s[0] == "d":
            if isinstance(v, SymV): raise Unsupported("store into opaque enum %r" % v)
            return self.set_path(st, v, path[1:], nv)
        if s[0] == "i":
            if isinstance(v, Seq):
                old = self.seq_at(st, v, s[1]) if path[1:] else None
                return self.seq_set(st, v, s[1], self.set_path(st, old, path[1:], nv))
            if isinstance(v, Agg) and v.var == "vec":
                old = self.seq_at(st, v.f[0], s[1]) if path[1:] else None
                return v.with_f(0, self.seq_set(st, v.f[0], s[1], self.set_path(st, old, path[1:], nv)))
            if s[1] == ZERO and not path[1:]: return nv
        raise Unsupported("store step %r into %r" % (s, v))

    def store(self, st, ptr, nv):
        if not ptr.path:
            st.store[ptr.al] = nv; return
        if ptr.al not in st.store:
            raise Unsupported("store into unknown memory %r" % (ptr,))
        v = st.store[ptr.al]
        if v is None: raise Unsupported("store into uninitialised %r" % (ptr,))
        st.store[ptr.al] = self.set_path(st, v, ptr.path, nv)

    # ------------------------------------------------------------ places / operands
    def place(self, st, fr, p):
        ptr = Ptr(("L", fr.id, p[0]))
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, ptr)
                if isinstance(v, SymV):
                    t = self.T[v.ty]
                    if t["k"] in ("ref", "ptr"): v = self.sym_value(st, v.ty, v.name)
                if isinstance(v, Agg) and v.var == "box": v = v.f[0]
                if not isinstance(v, Ptr): raise Unsupported("deref of %r" % (v,))
                ptr = v
                if fr.f["local"] and e is p[1][0] and self.T[fr.f["locals"][p[0]][0]]["k"] == "ptr":
                    from .models import elem_check
                    elem_check(self, st, ptr, "raw pointer access", False)
            elif k == "f": ptr = Ptr(ptr.al, ptr.path + (("f", e[1], e[2]),))
            elif k == "d": ptr = Ptr(ptr.al, ptr.path + (("d", e[1]),))
            elif k == "i":
                ix = self.load(st, Ptr(("L", fr.id, e[1])))
                ptr = self.index_ptr(ptr, ix)
            elif k == "c":
                if e[3]:
                    n = ptr.sl[1] if ptr.sl else self.load(st, ptr).length()
                    ptr = self.index_ptr(ptr, n - e[1])
                else: ptr = self.index_ptr(ptr, Lin(e[1]))
            elif k == "s":
                if ptr.sl: off, n = ptr.sl
                else: off, n = ZERO, self.load(st, ptr).length()
                to = (n - e[2]) if e[3] else Lin(e[2])
                ptr = Ptr(ptr.al, ptr.path, (off + e[1], to - e[1]))
            elif k == "cast": pass
            else: raise Unsupported("projection %r" % (e,))
        return ptr
    def index_ptr(self, ptr, ix):
        off = ptr.sl[0] if ptr.sl else ZERO
        return Ptr(ptr.al, ptr.path + (("i", off + ix),))

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            p = o[1]
            if not p[1]:
                al = ("L", fr.id, p[0])
                v = st.store.get(al)
                if v is None:
                    t = self.T[fr.f["locals"][p[0]][0]]
                    if t["k"] in ("tuple",) and not t["elems"]: return UNIT
                    return self.zst(fr.f["locals"][p[0]][0], p)
                return v
            ptr = self.place(st, fr, p)
            if ptr.sl is not None:
                return self.load_slice(st, ptr)
            return self.load(st, ptr)
        if k == "c": return self.const_val(st, o[1], o[2], o[3] if len(o) > 3 else None)
        if k == "rt": return o[1] == "OverflowChecks"
        raise Unsupported("operand %r" % (o,))

    def zst(self, ti, p):
        t = self.T[ti]
        if t["k"] == "closure" and not t["upvars"]:
            for f in self.p.by_path.get(t["path"], ()): return Clo(f["key"], (), ti)
        if t["k"] == "adt" and t["adt"] == "struct" and t["variants"] and not t["variants"][0]["f"]: return Agg(ti, 0, ())
        raise Unsupported("read of uninitialised local %r : %s" % (p, t["s"]))

    def const_val(self, st, ti, v, name=None):
        t = self.T[ti]
        if "fn" in v: return Fn(v["fn"])
        if "int" in v: return Lin(v["int"])
        if "bool" in v: return v["bool"]
        if "float" in v: return fconst(float(v["float"].replace("inf", "inf")))
        if "str" in v:
            al = ("K", "str", v["str"])
            b = v["str"].encode()
            st.store.setdefault(al, Seq((("lit", tuple(Lin(x) for x in b)),)))
            return Ptr(al, (), (ZERO, Lin(len(b))))
        if "ref" in v:
            inner = v["ref"]
            to = t.get("to")
            if "slice" in inner:
                et = self.T[to]["elem"]
                seq = Seq((("lit", tuple(self.const_val(st, et, x) for x in inner["slice"])),))
                al = ("K", "slice", seq)
                st.store.setdefault(al, seq)
                return Ptr(al, (), (ZERO, seq.length()))
            val = self.const_val(st, to, inner)
            al = ("K", "ref", val, to)
            st.store.setdefault(al, val)
            return Ptr(al)
        if "arr" in v:
            return Seq((("lit", tuple(self.const_val(st, t["elem"], x) for x in v["arr"])),))
        if "tup" in v:
            return Agg("tuple", 0, tuple(self.const_val(st, e, x) for e, x in zip(t["elems"], v["tup"])))
        if "adt" in v:
            var, fs = v["adt"]
            ft = t["variants"][var]["f"] if t["variants"] else []
            return Agg(ti, var, tuple(self.const_val(st, ft[i][1], x) for i, x in enumerate(fs)))
        if "zst" in v:
            if t["k"] == "closure":
                for f in self.p.by_path.get(t["path"], ()): return Clo(f["key"], (), ti)
            return Agg(ti, 0, ())
        if "promo" in v: return self.promoted(st, v["promo"])
        if "unev" in v:
            s = v["unev"] + ("" if v.get("self") is None else "<%s>" % self.p.tname(v["self"]))
            if v.get("promoted") is not None: raise Unsupported("generic promoted constant %s" % s)
            return self.sym_value(st, ti, "const " + s)
        if "param" in v: return self.sym_value(st, ti, "const " + v["param"])
        if "static" in v: return SymV(ti, "static " + v["static"])
        if t["k"] == "tuple" and not t["elems"]: return UNIT
        return SymV(ti, "const " + (name or t["s"]))

    # ------------------------------------------------------------ rvalues
    def norm_int(self, st, l, bits, signed):
        lo, hi = rng_of(bits, signed)
        a, b = l.range()
        if a is not None and b is not None and lo <= a and b <= hi: return l
        if l.is_const(): return wrap(l, bits, signed)
        if (a is not None and lo <= a or st.holds(le(Lin(lo), l))) and (b is not None and b <= hi or st.holds(le(l, Lin(hi)))): return l
        return wrap(l, bits, signed)

    def as_lin(self, v):
        if isinstance(v, Lin): return v
        if v is True or v is False or (isinstance(v, tuple) and v and v[0] in ("le", "eq", "ne", "ba", "nba", "and", "or")): return b2i(v)
        raise Unsupported("integer expected, got %r" % (v,))

    def is_bool(self, v):
        return v is True or v is False or (isinstance(v, tuple) and v and v[0] in ("le", "eq", "ne", "ba", "nba", "and", "or"))

    def binop(self, st, op, a, b, lt_, checked_ok=False):
        t = self.T[lt_]
        if t["k"] == "float":
            if op in ("Add", "Sub", "Mul", "Div", "Rem"): return f_op(op.lower(), a, b)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if op in ("Gt", "Ge"): a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
                if op == "Ne": return ("nba", atom("fcmp", ("Eq",) + tuple(sorted((a, b), key=show)), 0, 1))
                if op == "Eq": a, b = sorted((a, b), key=show)
                return ("ba", atom("fcmp", (op, a, b), 0, 1))
            raise Unsupported("float op " + op)
        if t["k"] == "bool" or (self.is_bool(a) and self.is_bool(b)):
            if op == "BitAnd": return b_and(a, b)
            if op == "BitOr": return b_or(a, b)
            if op in ("Eq", "Ne", "BitXor"):
                if a is True: r = b
                elif a is False: r = neg(b)
                elif b is True: r = a
                elif b is False: r = neg(a)
                else: r = b_or(b_and(a, b), b_and(neg(a), neg(b)))
                return r if op == "Eq" else neg(r)
            a, b = b2i(a), b2i(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr) or t["k"] in ("ptr", "ref", "fnptr"):
            if op == "Offset": return self.ptr_add(a, b)
            if op in ("Eq", "Ne"):
                if a == b: return op == "Eq"
                return ("ba" if op == "Eq" else "nba", atom("ptreq", (a, b), 0, 1))
            raise Unsupported("pointer op " + op)
        if t["k"] == "tuple" and not t["elems"]: return op in ("Eq", "Le", "Ge")
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            if isinstance(a, SymV) or isinstance(b, SymV): raise Unsupported("arithmetic %s on opaque %r %r" % (op, a, b))
            a, b = self.as_lin(a), self.as_lin(b)
        it = self.int_ty(lt_)
        if it is None: raise Unsupported("binop %s on %s" % (op, t["s"]))
        bits, sg = it
        if op in ("Eq",): return eq(a, b)
        if op == "Ne": return ne(a, b)
        if op == "Lt": return lt(a, b)
        if op == "Le": return le(a, b)
        if op == "Gt": return lt(b, a)
        if op == "Ge": return le(b, a)
        if op == "Cmp":
            o = self.p.ty("std::cmp::Ordering")
            if st.decide(lt(a, b)): return Agg(o, 0, ())
            if st.decide(eq(a, b)): return Agg(o, 1, ())
            return Agg(o, 2, ())
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if base in ("Add", "Sub", "Mul"):
            if base == "Add": l = a + b
            elif base == "Sub": l = a - b
            else:
                if a.is_const(): l = b * a.c
                elif b.is_const(): l = a * b.c
                else:
                    x, y = sorted((a, b), key=show)
                    rs = [p * q for p in x.range() for q in y.range()] if None not in x.range() + y.range() else None
                    l = of_atom(atom("mul", (x, y), min(rs) if rs else None, max(rs) if rs else None))
            lo, hi = rng_of(bits, sg)
            if op.endswith("WithOverflow"):
                ok = b_and(le(Lin(lo), l), le(l, Lin(hi)))
                if ok is True or st.holds(ok): return Agg("tuple", 0, (l, False))
                if st.holds(neg(ok)) : return Agg("tuple", 0, (wrap(l, bits, sg), True))
                if checked_ok: return Agg("tuple", 0, (l, neg(ok)))
                return Agg("tuple", 0, (wrap(l, bits, sg), neg(ok)))
            if op.endswith("Unchecked"): return self.norm_int(st, l, bits, sg)
            return self.norm_int(st, l, bits, sg)
        if base in ("Div", "Rem"):
            if a.is_const() and b.is_const() and b.c != 0:
                q = abs(a.c) // abs(b.c)
                if (a.c < 0) != (b.c < 0): q = -q
                return Lin(q) if base == "Div" else Lin(a.c - q * b.c)
            if b.is_const() and b.c > 0 and ((a.range()[0] is not None and a.range()[0] >= 0) or st.holds(le(ZERO, a))):
                if base == "Rem" and b.c & (b.c - 1) == 0 and a.range()[0] is not None and a.range()[0] >= 0:
                    bs = to_bits(a, 64)
                    if bs is not None: return from_bits(bs[:b.c.bit_length() - 1])
                q = floordiv(a, b.c)
                return q if base == "Div" else a - q * b.c
            lo, hi = rng_of(bits, sg)
            if base == "Rem" and not sg:
                return of_atom(atom("op", ("rem", a, b), 0, hi))
            return of_atom(atom("op", (base.lower(), a, b), lo, hi))
        if base in ("Shl", "Shr"):
            if not b.is_const():
                return of_atom(atom("op", (base.lower(), a, b), *rng_of(bits, sg)))
            s = b.c % bits
            if s == 0: return a
            if a.is_const():
                if base == "Shl": return wrap(Lin(a.c << s), bits, sg)
                return Lin(a.c >> s)
            if base == "Shl":
                return self.norm_int(st, a * (1 << s), bits, sg)
            if not sg:
                bs = to_bits(a, bits)
                if bs is not None: return from_bits(bs[s:] + [0] * s)
                return floordiv(a, 1 << s)
            bs = to_bits(a, bits)
            if bs is not None: return from_bits(bs[s:] + [bs[-1]] * s, True)
            return floordiv(a, 1 << s)
        if base in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, base, a, b, bits, sg)
        raise Unsupported("binop " + op)

    def bitop(self, st, op, a, b, bits, sg):
        x, y = to_bits(a, bits), to_bits(b, bits)
        if x is not None and y is not None:
            out = []
            for p, q_ in zip(x, y):
                if isinstance(p, int) and not isinstance(q_, int): p, q_ = q_, p
                if op == "BitAnd":
                    r = 0 if (p == 0 or q_ == 0) else (p if q_ == 1 else (p if p == q_ else None))
                elif op == "BitOr":
                    r = 1 if (p == 1 or q_ == 1) else (p if q_ == 0 else (p if p == q_ else None))
                else:
                    if isinstance(p, int): r = p ^ q_
                    elif q_ == 0: r = p
                    elif q_ == 1: r = (p[0], p[1], not p[2])
                    else: r = 0 if p == q_ else None
                if r is None: out = None; break
                out.append(r)
            if out is not None: return from_bits(out, sg)
            # mixed bits: only some positions unresolved -> per-bit atoms
            out = []
            for i, (p, q_) in enumerate(zip(x, y)):
                if isinstance(p, int) and not isinstance(q_, int): p, q_ = q_, p
                if op == "BitAnd": r = 0 if (p == 0 or q_ == 0) else (p if q_ == 1 else (p if p == q_ else None))
                elif op == "BitOr": r = 1 if (p == 1 or q_ == 1) else (p if q_ == 0 else (p if p == q_ else None))
                else: r = None if not isinstance(q_, int) else (p if q_ == 0 else ((p[0], p[1], not p[2]) if not isinstance(p, int) else 1 - p))
                if r is None:
                    u, v = sorted((p, q_), key=lambda t: (show_atom(t[0]), t[1], t[2]))
                    r = (atom("bit" + op[3:].lower(), (u, v), 0, 1), 0, False)
                out.append(r)
            return from_bits(out, sg)
        lo, hi = rng_of(bits, sg)
        if op == "BitAnd":
            for u, v in ((a, b), (b, a)):
                if v.is_const() and v.c >= 0:
                    m = v.c
                    if (m + 1) & m == 0:   # low mask: mod 2^k
                        lo_, hi_ = u.range()
                        if (lo_ is not None and lo_ >= 0) or st.holds(le(ZERO, u)): return u - floordiv(u, m + 1) * (m + 1)
                    return of_atom(atom("op", ("and", u, v), 0, m))
        u, v = sorted((a, b), key=show)
        return of_atom(atom("op", (op[3:].lower(), u, v), lo, hi))

    def ptr_add(self, p, n):
        if p.path and p.path[-1][0] == "i":
            return Ptr(p.al, p.path[:-1] + (("i", p.path[-1][1] + n),))
        if p.sl: return Ptr(p.al, p.path + (("i", p.sl[0] + n),))
        if n == ZERO: return p
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def cast(self, st, kind, v, f, t):
        tf, tt = self.T[f], self.T[t]
        if kind == "IntToInt":
            if isinstance(v, SymV): raise Unsupported("cast of opaque %r" % v)
            l = self.as_lin(v)
            b, s = self.int_ty(t)
            if tt["k"] == "bool": return ne(l, ZERO)
            return self.norm_int(st, l, b, s)
        if kind == "IntToFloat": return ("f", "i2f", tt["bits"], self.as_lin(v))
        if kind == "FloatToInt":
            b, s = self.int_ty(t); lo, hi = rng_of(b, s)
            return of_atom(atom("f2i", (b, int(s), v), lo, hi))
        if kind == "FloatToFloat":
            if tt["bits"] > tf["bits"] and isinstance(v, tuple) and v[:2] == ("f", "const"): return v
            return v if tt["bits"] == tf["bits"] else ("f", "f%dto%d" % (tf["bits"], tt["bits"]), v)
        if kind.startswith("PointerCoercion(Unsize"):
            if isinstance(v, Ptr) and tf["k"] in ("ref", "ptr"):
                a = self.T[tf["to"]]; b = self.T[tt["to"]]
                if a["k"] == "array" and b["k"] == "slice":
                    n = Lin(a["n"]) if a["n"] is not None else self.load(st, v).length()
                    if v.path and v.path[-1][0] == "i" and False: pass
                    return Ptr(v.al, v.path, (ZERO, n))
            return v
        if kind.startswith("PointerCoercion"): return v
        if kind in ("PtrToPtr", "FnPtrToPtr"):
            if isinstance(v, Ptr):
                a = self.T[tf["to"]] if "to" in tf else None; b = self.T[tt["to"]] if "to" in tt else None
                if a and b:
                    if a["k"] in ("slice", "str") and b["k"] not in ("slice", "str"):
                        return Ptr(v.al, v.path + (("i", v.sl[0] if v.sl else ZERO),))
                    if a["k"] == "array" and b["k"] != "array" and b["k"] != "slice":
                        return Ptr(v.al, v.path + (("i", ZERO),))
            return v
        if kind == "Transmute" or kind == "Subtype" or kind == "BoxDerefTransmute":
            if f == t or kind == "Subtype": return v
            if tf["k"] == "array" and tt["k"] in ("int", "float"):
                return self.from_le(st, v, tt)
            if tt["k"] == "array" and tf["k"] in ("int", "float"):
                return self.to_le(v, tf)
            if tf["k"] == "int" and tt["k"] == "int": return self.norm_int(st, v, tt["bits"], tt["signed"])
            if tf["k"] == "float" and tt["k"] == "int":
                b, s = self.int_ty(t); return of_atom(atom("fbits", (v,), *rng_of(b, s)))
            if tf["k"] == "int" and tt["k"] == "float": return self.bits_to_float(v, tt["bits"])
            if tf["k"] in ("ref", "ptr") and tt["k"] in ("ref", "ptr"): return v
            if isinstance(v, Ptr): return v
            if tf["k"] == "int" and tt["k"] == "adt" and tt["adt"] == "enum":
                # discriminant to fieldless enum
                for i, x in enumerate(tt["variants"]):
                    if st.decide(eq(v, Lin(self.sdiscr(t, x["d"])))): return Agg(t, i, ())
                raise Unsupported("transmute to enum: value outside variants")
            raise Unsupported("transmute %s -> %s" % (tf["s"], tt["s"]))
        if kind in ("PointerExposeProvenance", "PointerWithExposedProvenance"): raise Unsupported(kind)
        raise Unsupported("cast " + kind)

    def bits_to_float(self, v, bits):
        if len(v.m) == 1 and v.c == 0 and v.m[0][1] == 1 and v.m[0][0].kind == "fbits": return v.m[0][0].args[0]
        bs = to_bits(v, bits)
        if bs is not None and isinstance(bs[0], tuple) and bs[0][0].kind == "fbits" and bs == [(bs[0][0], i, False) for i in range(bits)]: return bs[0][0].args[0]
        return ("f", "frombits%d" % bits, v)
    def from_le(self, st, seq, tt):
        n = tt["bits"] // 8
        if isinstance(seq, SymV): raise Unsupported("bytes of opaque")
        l = ZERO
        for i in range(n): l = l + self.as_lin(self.seq_at(st, seq, Lin(i))) * (1 << (8 * i))
        if tt["k"] == "float": return self.bits_to_float(l, tt["bits"])
        return wrap(l, tt["bits"], tt["signed"]) if tt["signed"] else l
    def to_le(self, v, tf):
        n = tf["bits"] // 8
        if tf["k"] == "float":
            v = of_atom(atom("fbits", (v,), 0, (1 << tf["bits"]) - 1))
        bs = to_bits(v, tf["bits"])
        if bs is None:
            lo, hi = rng_of(tf["bits"], False)
            u = v if not tf.get("signed") else None
            a = atom("raw", (tf["bits"], v), lo, hi)
            bs = [(a, i, False) for i in range(tf["bits"])]
        return Seq((("lit", tuple(from_bits(bs[8 * i:8 * i + 8]) for i in range(n))),))

    def rvalue(self, st, fr, r, peek_assert=False):
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k == "ref" or k == "rawptr":
            ptr = self.place(st, fr, r[2] if k == "ref" else r[1])
            p0 = (r[2] if k == "ref" else r[1])
            if ptr.path and ptr.path[-1][0] == "i" and ptr.sl is None:
                pass
            return ptr
        if k == "bin": 
            a = self.operand(st, fr, r[2]); b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4], peek_assert)
        if k == "un":
            a = self.operand(st, fr, r[2]); t = self.T[r[3]]
            if r[1] == "PtrMetadata":
                if isinstance(a, Ptr):
                    if a.sl: return a.sl[1]
                    v = self.load(st, a)
                    if isinstance(v, Seq): return v.length()
                    return UNIT
                raise Unsupported("metadata of %r" % (a,))
            if t["k"] == "bool" or self.is_bool(a): return neg(a)
            if t["k"] == "float": return f_op("neg", a)
            bits, sg = self.int_ty(r[3])
            if r[1] == "Not": return (Lin(-1) - a) if sg else (Lin((1 << bits) - 1) - a)
            if r[1] == "Neg": return self.norm_int(st, -a, bits, sg)
            raise Unsupported("unop " + r[1])
        if k == "cast": return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "discr":
            ptr = self.place(st, fr, r[1])
            return self.discr_of(st, self.load(st, ptr))
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            a = r[1]
            if a[0] == "array": return Seq((("lit", ops),))
            if a[0] == "tuple": return Agg("tuple", 0, ops)
            if a[0] == "adt":
                if a[3] is not None: raise Unsupported("union aggregate")
                return Agg(a[1], a[2], ops)
            if a[0] == "closure": return Clo(a[3], ops, a[1])
            if a[0] == "rawptr":
                p, meta = ops
                if isinstance(p, Ptr) and isinstance(meta, Lin):
                    if p.path and p.path[-1][0] == "i": return Ptr(p.al, p.path[:-1], (p.path[-1][1], meta))
                    return Ptr(p.al, p.path, (ZERO, meta))
                return p
            raise Unsupported("aggregate " + a[0])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] is None: raise Unsupported("repeat of generic length")
            if r[2] <= 4096: return Seq((("lit", (v,) * r[2]),))
            return Seq((("rep", v, Lin(r[2])),))
        if k == "tls": return SymV(None, "tls")
        raise Unsupported("rvalue %r" % (r,))

    # ------------------------------------------------------------ execution
    def run(self, key, args, st):
        """abstractly executes a function; returns list of (state, value)"""
        f = self.p.funs.get(key)
        if f is None: raise Unsupported("no body for " + key)
        return self.exec_body(f, args, st)

    def exec_body(self, f, args, st):
        if len(self.stack) > 60: raise Unsupported("inlining too deep at " + f["key"])
        self.covered.add(f["key"])
        fr = Frame(); fr.f = f; fr.id = next(self.fid); fr.loops = self.p.loops(f)
        if len(args) != f["argc"]:
            raise Unsupported("arity of %s: %d args for %d" % (f["key"], len(args), f["argc"]))
        for i, a in enumerate(args): st.store[("L", fr.id, i + 1)] = a
        self.stack.append(f)
        try:
            outs = self.exec_region(fr, 0, st, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            assert o[0] == "ret"
            s = o[1]
            v = s.store.get(("L", fr.id, 0))
            if v is None: v = UNIT if self.T[f["locals"][0][0]]["k"] == "tuple" else self.zst_ret(f)
            for k in [k for k in s.store if k[0] == "L" and k[1] == fr.id]: del s.store[k]
            res.append((s, v))
        return res
    def promoted(self, st, v):
        """value of a promoted constant of generic code: its body has no inputs; what it points to stays in the store"""
        f = dict(v, key="promoted " + v["id"], path=v["id"], span=self.stack[-1]["span"] if self.stack else "")
        fr = Frame(); fr.f = f; fr.id = f["key"] + " in " + (self.stack[-1]["key"] if self.stack else ""); fr.loops = {}
        self.stack.append(f)
        try: outs = self.exec_region(fr, 0, st.fork(), None)
        finally: self.stack.pop()
        if len(outs) != 1 or outs[0][0] != "ret": raise Unsupported("generic promoted constant " + v["id"])
        for k, x in outs[0][1].store.items():
            if k not in st.store: st.store[k] = x
        return outs[0][1].store[("L", fr.id, 0)]
    def zst_ret(self, f):
        ti = f["locals"][0][0]; t = self.T[ti]
        if t["k"] == "adt" and t["adt"] == "struct": return Agg(ti, 0, ())
        raise Unsupported("no return value in " + f["key"])

    def exec_region(self, fr, start, st, loop):
        work = [(start, st)]
        outs = []
        first = True
        while work:
            bb, s = work.pop()
            if loop is not None:
                if bb == loop[0] and not first: outs.append(("back", s)); continue
                if bb not in loop[1]: outs.append(("exit", bb, s)); continue
            if bb in fr.loops and not (loop is not None and bb == loop[0] and first):
                first = False
                for o in self.do_loop(fr, bb, s):
                    if o[0] == "exit": work.append((o[1], o[2]))
                    else: outs.append(o)
                continue
            first = False
            for o in self.exec_block(fr, bb, s):
                if o[0] == "go": work.append((o[1], o[2]))
                else: outs.append(o)
        return outs

    def split(self, s, cond):
        """two states for cond / not cond (feasible ones)"""
        if self.nosplit: raise Abort()
        out = []
        for c in (cond, neg(cond)):
            s2 = s.fork()
            if not s2.assume(c): continue
            out.append(s2)
        return out

    def exec_block(self, fr, bb, s):
        """returns [('go', bb, st) | ('ret', st)]"""
        blk = fr.f["blocks"][bb]
        stm = blk["s"]; term = blk["t"]
        pend = [(0, s)]
        done = []
        while pend:
            i, s = pend.pop()
            while i <= len(stm):
                self.steps += 1
                if self.steps > self.budget: raise Unsupported("analysis budget exceeded in " + fr.f["key"])
                n0 = s.n
                try:
                    if i < len(stm):
                        x = stm[i]
                        if x[0] == "=":
                            pk = i == len(stm) - 1 and term[0] == "assert"
                            v = self.rvalue(s, fr, x[2], pk)
                            if x[1][1]:
                                self.store(s, self.place(s, fr, x[1]), v)
                            else: s.store[("L", fr.id, x[1][0])] = v
                        elif x[0] == "setd":
                            ptr = self.place(s, fr, x[1]); v = self.load(s, ptr)
                            if not isinstance(v, Agg): raise Unsupported("set discriminant")
                            self.store(s, ptr, Agg(v.ty, x[2], v.f))
                        else: raise Unsupported(x[0])
                        i += 1
                        continue
                    done.extend(self.terminator(fr, bb, blk, term, s))
                    break
                except NeedSplit as e:
                    s.n = n0
                    for s2 in self.split(s, e.cond): pend.append((i, s2))
                    break
                except Unsupported as e:
                    if not getattr(e, "at", None):
                        e.at = "%s (%s)" % (fr.f["path"], blk["sp"])
                    raise
        return done

    def model_panic(self, kind, st):
        fr, blk = self.cur
        self.record_panic(fr, blk, kind, st)
    def unsafe_op(self, st, what, ok, detail=""):
        """record one memory-unsafe operation with the condition under which it is in bounds"""
        fr, blk = self.cur
        good = ok if isinstance(ok, bool) else bool(st.holds(ok))
        self.unsafe_ops.append((what, good, detail, fr.f["path"], blk["sp"], st))
        if not good: self.violate_unsafe(st, what, None if isinstance(ok, bool) else ok)
    def violate_unsafe(self, st, what, ok):
        fr, blk = self.cur
        self.unsafe_bad.append((what, show(ok) if ok is not None else "", fr.f["path"], blk["sp"], st))

    def record_panic(self, fr, blk, kind, st):
        self.panics.append(Panic(fr.f["path"], blk["sp"], kind, st, tuple(g["path"] for g in self.stack)))

    def terminator(self, fr, bb, blk, t, s):
        k = t[0]
        self.cur = (fr, blk)
        if k == "goto": return [("go", t[1], s)]
        if k == "return": return [("ret", s)]
        if k == "switch":
            v = self.operand(s, fr, t[1])
            if self.is_bool(v):
                r = s.decide(v)
                for val, tgt in t[2]:
                    if int(val) == (1 if r else 0): return [("go", tgt, s)]
                return [("go", t[3], s)]
            l = self.as_lin(v)
            bits, sg = self.int_ty(t[4])
            def norm(val):
                val = int(val)
                if sg and val >> (bits - 1) & 1: val -= 1 << bits
                return val
            # enum discriminants are printed in the discriminant type
            if l.is_const():
                for val, tgt in t[2]:
                    if norm(val) == l.c or int(val) == l.c: return [("go", tgt, s)]
                return [("go", t[3], s)]
            outs = []
            conds = []
            free = len(l.m) == 1 and not any(l.m[0][0] in lin_set(b) for b in s.facts.bs)
            othr = fr.f["blocks"][t[3]]
            oth_dead = othr["t"][0] == "unreachable" and not othr["s"]
            for val, tgt in t[2]:
                c = eq(l, Lin(norm(val)))
                if c is False: continue
                if not free:
                    d = s.facts.decide(c)
                    if d is True:
                        return [("go", tgt, s)]
                    if d is False: continue
                conds.append((c, tgt))
            live = len(conds) + (0 if oth_dead else 1)
            if self.nosplit and live > 1: raise Abort()
            if oth_dead and len(conds) == 1: 
                s.assume(conds[0][0]); return [("go", conds[0][1], s)]
            for c, tgt in conds:
                s2 = s.fork()
                if s2.assume(c): outs.append(("go", tgt, s2))
            if not oth_dead:
                s2 = s
                ok = True
                for c, _ in conds:
                    if not s2.assume(neg(c)): ok = False; break
                if ok and len(l.m) == 1 and l.m[0][0].kind == "discr":
                    ok = not s2.facts.contradictory() if len(conds) < 12 else self.domain_left(s2, l.m[0][0], l)
                elif ok and len(l.m) == 1 and l.m[0][0].lo is not None and l.m[0][0].hi is not None and l.m[0][0].hi - l.m[0][0].lo < 256:
                    ok = self.domain_left(s2, l.m[0][0], l)
                if ok: outs.append(("go", t[3], s2))
            return outs
        if k == "assert":
            c = self.operand(s, fr, t[1])
            want = c if t[2] else neg(c)
            if want is True: return [("go", t[5], s)]
            d = s.facts.decide(want)
            if d is True: return [("go", t[5], s)]
            bad = s.fork()
            if d is False or bad.assume(neg(want)):
                self.record_panic(fr, blk, t[3], bad)
            if d is False: return []
            if not s.assume(want): return []
            return [("go", t[5], s)]
        if k == "unreachable":
            return []
        if k == "drop":
            outs = [s]
            if t[3]: outs = self.drop_place(s, self.place(s, fr, t[1]), t[4])
            return [("go", t[2], x) for x in outs]
        if k == "call":
            f = self.operand(s, fr, t[1])
            args = [self.operand(s, fr, a) for a in t[2]]
            dest = self.place(s, fr, t[3])
            res = self.call(fr, blk, s, f, args, t[5], t[6], t[4] is None)
            out = []
            for s2, v in res:
                if t[4] is None: continue
                if v is None: continue
                self.store_dest(s2, dest, v)
                out.append(("go", t[4], s2))
            return out
        if k == "resume": return []
        raise Unsupported("terminator " + k)

    def store_dest(self, s, dest, v): self.store(s, dest, v)

    def domain_left(self, s, a, l):
        lo, hi = a.lo, a.hi
        if lo is None or hi is None or hi - lo > 5000: return True
        if a.kind == "discr": pass
        excl = set()
        for b in s.facts.bs:
            if b[0] == "ne" and len(b[1].m) == 1 and b[1].m[0][0] is a and b[1].m[0][1] == 1: excl.add(-b[1].c)
            if b[0] == "eq" and len(b[1].m) == 1 and b[1].m[0][0] is a: return True
        return len([1 for e in excl if lo <= e <= hi]) < hi - lo + 1

    def drop_place(self, s, ptr, ti):
        t = self.T[ti]
        if t["k"] != "adt": 
            if t["k"] == "closure" or t["k"] == "tuple" or t["k"] == "param" or t["k"] == "array": return [s]
            return [s]
        if t["path"].startswith(("std::vec", "alloc::", "std::string", "std::boxed")): return [s]
        outs = [s]
        if t["drop"] is not None:
            if t["drop"] not in self.p.funs:
                if t["local"]: raise Unsupported("drop of " + t["s"])
                return [s]
            outs = [x for x, _ in self.exec_body(self.p.funs[t["drop"]], [ptr], s)]
        if t["adt"] == "struct" and t["variants"]:
            for i, fd in enumerate(t["variants"][0]["f"]):
                if fd[1] is None: continue
                ft = self.T[fd[1]]
                if ft["k"] == "adt" and (ft["drop"] is not None):
                    outs = [y for x in outs for y in self.drop_place(x, Ptr(ptr.al, ptr.path + (("f", i, fd[1]),)), fd[1])]
        return outs

    # ------------------------------------------------------------ calls
    def is_panic(self, ref):
        p = ref["path"]; r = ref["rpath"]
        return any(p.startswith(x) or r.startswith(x) for x in PANIC_PREFIX)

    def call(self, fr, blk, s, f, args, dt, at, diverges):
        if isinstance(f, Ptr): f = self.load(s, f)
        if isinstance(f, Clo): return self.call_closure(s, f, args, None)
        if not isinstance(f, Fn): raise Unsupported("indirect call of %r" % (f,))
        ref = f.ref
        if self.T[dt]["k"] == "never" or (diverges and self.is_panic(ref)):
            msg = ""
            for a in args:
                if isinstance(a, Ptr) and a.al[0] == "K" and a.al[1] == "str": msg = a.al[2]; break
            self.record_panic(fr, blk, "call:" + short(ref["path"]) + (":" + msg if msg else ""), s)
            return []
        return self.call_fn(s, ref, args, dt, at)

    def model_for(self, name):
        if name in self._mcache: return self._mcache[name]
        m = self.models.get(name)
        if m is None:
            for rx, fn in self.model_rx:
                if rx.search(name): m = fn; break
        self._mcache[name] = m
        return m

    def call_fn(self, s, ref, args, dt, at=None):
        if self.pre_ext is not None:
            r = self.pre_ext(self, s, args, dt, ref)
            if r is not NotImplemented: return r
        for nm in (ref["key"], ref["rpath"], ref["path"]):
            if nm and nm in self.ext:
                r = self.ext[nm](self, s, args, dt, ref)
                if r is not NotImplemented: return r
        if ref.get("ctor"):
            t = self.T[dt]
            # tuple struct / variant constructor used as a function
            if t["k"] == "adt":
                nm = short(ref["path"])
                for i, v in enumerate(t["variants"]):
                    if v["n"] == nm: return [(s, Agg(dt, i, tuple(args)))]
        if ref["key"] in self.contracts:
            r = self.contracts[ref["key"]](self, s, args, dt, ref)
            if r is not NotImplemented: return r
        # dispatch a trait call on a statically known concrete value (closures, modelled iterators)
        for nm in (ref["rpath"], ref["path"]):
            if nm:
                m = self.model_for(nm)
                if m is not None:
                    if self.cost:
                        c = self.cost_of(s, nm, args)
                        if c is not None: s.eff = s.eff + (("cost", c, 1, short(nm)),)
                    r = m(self, s, args, dt, ref, at)
                    if r is not NotImplemented: return r
        tr = ref.get("trait", "")
        if tr in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
            return self.call_value(s, args[0], list(args[1].f), dt)
        key = ref["key"]
        if key and key in self.p.funs:
            return self.exec_body(self.p.funs[key], args, s)
        if self.opaque_ok(ref["path"], ref):
            return [(s, self.opaque_result(s, ref, args, dt))]
        raise Unsupported("call of %s (%s)" % (ref["path"], ref["rpath"]))

    def opaque_result(self, s, ref, args, dt):
        nm = "%s(%s)" % (short(ref["path"]), ", ".join(show(self.deep(s, a)) for a in args))
        return self.sym_value(s, dt, nm)

    def deep(self, s, v, d=0):
        """resolve pointers to the values they point to (for naming results)"""
        if d > 4: return v
        if isinstance(v, Ptr):
            try:
                if v.sl is not None: return self.load_slice(s, v)
                return self.deep(s, self.load(s, v), d + 1)
            except (Unsupported, NeedSplit): return v
        if isinstance(v, Agg): return Agg(v.ty, v.var, tuple(self.deep(s, x, d + 1) for x in v.f))
        return v

    def call_value(self, s, f, args, dt):
        """call a closure / function value with untupled arguments"""
        while isinstance(f, Ptr):
            ptr = f
            f = self.load(s, f)
            if isinstance(f, Clo): return self.call_closure(s, f, args, ptr)
        if isinstance(f, Clo): return self.call_closure(s, f, args, None)
        if isinstance(f, Fn): return self.call_fn(s, f.ref, args, dt)
        if isinstance(f, Agg) and isinstance(f.ty, int) and self.T[f.ty]["k"] == "fndef":
            raise Unsupported("call of fn item %s" % self.T[f.ty]["s"])
        raise Unsupported("call of value %r" % (f,))

    def call_closure(self, s, c, args, ptr):
        f = self.p.funs.get(c.key)
        if f is None: raise Unsupported("closure body %s" % c.key)
        lt_ = self.T[f["locals"][1][0]] if f["argc"] >= 1 else None
        if lt_ and lt_["k"] == "ref":
            if ptr is None:
                al = ("C", s.fresh("clo"))
                s.store[al] = c
                ptr = Ptr(al)
            self_ = ptr
        else: self_ = c
        return self.exec_body(f, [self_] + list(args), s)

    # ------------------------------------------------------------ loops
    def do_loop(self, fr, head, st):
        blocks = fr.loops[head]
        r = self.try_unroll(fr, head, blocks, st)
        if r is not None: return r
        if self.nosplit: raise Abort()
        from .loops import summarise
        return summarise(self, fr, head, blocks, st)

    def try_unroll(self, fr, head, blocks, st):
        np, nl = len(self.panics), len(self.loop_records)
        self.nosplit += 1
        try:
            cur = [st.fork()]
            outs = []
            for it in range(self.max_unroll):
                nxt = []
                for s in cur:
                    for o in self.exec_region(fr, head, s, (head, blocks)):
                        if o[0] == "back": nxt.append(o[1])
                        else: outs.append(o)
                if not nxt: return outs
                if len(nxt) > 4: break
                cur = nxt
                if it > 8 and self.opaque_growth(st, cur): break
            del self.panics[np:]; del self.loop_records[nl:]
            return None
        except Abort:
            del self.panics[np:]; del self.loop_records[nl:]
            return None
        finally:
            self.nosplit -= 1
    def opaque_growth(self, st, cur): return False

def lin_set(b):
    if b[0] in ("le", "eq", "ne"): return [a for a, _ in b[1].m]
    if b[0] in ("and", "or"): return [a for x in b[1] for a in lin_set(x)]
    return []
