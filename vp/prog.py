"""Loads a MIR dump; type and function lookup; CFG helpers."""
import json, re
from . import terms
from .terms import *

# without the standard library the compiler prints paths through core / alloc; one spelling for all feature sets
_CORE_ONLY = ("slice::index", "slice::iter", "slice::copy_from_slice_impl", "num::niche_types", "fmt::rt", "fmt::num", "panicking", "f32", "f64", "str::traits", "hash::impls", "ub_checks", "tuple")
_RENAME = re.compile(r"(?<![\w:/$])(?:core|alloc)::(?!(?:%s)\b)(?=array::|\w+::\w)" % "|".join(_CORE_ONLY))

class Prog:
    def __init__(self, path):
        with open(path) as f: t = f.read()
        if '"std"' not in t[:t.index("]")]: t = _RENAME.sub("std::", t)
        d = json.loads(t)
        self.raw = d
        self.T = d["types"]
        self.funs = {f["key"]: f for f in d["funs"] if "error" not in f}
        self.consts = {c["path"]: c for c in d["consts"]}
        self.items = d["items"]; self.impls = d["impls"]; self.crates = d["crates"]; self.roots = d["roots"]
        self.by_path = {}
        for f in d["funs"]:
            if "error" in f: continue
            self.by_path.setdefault(f["path"], []).append(f)
        self._tidx = {}
        for i, t in enumerate(self.T): self._tidx.setdefault(t["s"], i)
        self._cfg = {}
        prog = self
        def aggname(ty, var):
            if isinstance(ty, int):
                t = prog.T[ty]
                if t["k"] == "adt":
                    v = t["variants"]
                    n = short(t["path"])
                    if n in ("InternalBitFlags",): n = "bits"
                    if t["adt"] == "enum" and isinstance(var, int) and var < len(v): return n + "::" + v[var]["n"]
                    return n
                return t["s"]
            return "" if ty == "tuple" else str(ty)
        terms.AGG[0] = aggname
        self.aggname = aggname
        self.roots_local = [self.funs[k] for k in self.roots if k in self.funs]

    def activate(self):
        """type names are printed with this program's tables"""
        terms.AGG[0] = self.aggname
    def ty(self, s):
        return self._tidx.get(s)
    def raw_generic(self, t): return bool(t.get("args"))
    def int_bits(self, f):
        t = self.T[f["locals"][1][0]]
        return t["bits"] if t["k"] == "int" else None
    def tname(self, i): return self.T[i]["s"]
    def root(self, path):
        """the root (identity) instance of a local function by def path"""
        for f in self.by_path.get(path, ()):
            if f["key"] in self._rootset(): return f
        return None
    def _rootset(self):
        if not hasattr(self, "_rs"): self._rs = set(self.roots)
        return self._rs

    def loops(self, f):
        """natural loops: {head: set(blocks)} (non-cleanup blocks)"""
        k = f["key"]
        if k in self._cfg: return self._cfg[k]
        bl = f["blocks"]; n = len(bl)
        succ = [self.succ(b) for b in bl]
        # reachable, rpo
        order = []; seen = set()
        stack = [(0, iter(succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ[s]))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]: preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps: continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while pos[x] > pos[y]: x = idom[x]
                        while pos[y] > pos[x]: y = idom[y]
                if idom.get(b) != x: idom[b] = x; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(preds[x])
        self._cfg[k] = loops
        return loops

    def succ(self, b):
        t = b["t"]; k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return [x[1] for x in t[2]] + [t[3]]
        if k == "drop": return [t[2]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[5]]
        return []

    def live_in(self, f):
        """ordinary liveness of locals at block entries"""
        k = ("live", f["key"])
        if k in self._cfg: return self._cfg[k]
        bl = f["blocks"]
        gen = []; kill = []
        def place_use(p, g):
            g.add(p[0])
            for e in p[1]:
                if e[0] == "i": g.add(e[1])
        def op_use(o, g):
            if o[0] in ("cp", "mv"): place_use(o[1], g)
        def rv_use(r, g):
            for x in r[1:]:
                if isinstance(x, list):
                    if x and x[0] in ("cp", "mv"): op_use(x, g)
                    elif r[0] in ("ref", "rawptr", "discr") and x and isinstance(x[0], int): place_use(x, g)
                    elif r[0] == "agg":
                        for o in x:
                            if isinstance(o, list) and o and o[0] in ("cp", "mv"): op_use(o, g)
        for b in bl:
            g = set(); kl = set()
            def use(fn, *a):
                t = set(); fn(*a, t)
                g.update(t - kl)
            def deff(p):
                if p[1]:
                    use(place_use, p)
                else: kl.add(p[0])
            for s in b["s"]:
                if s[0] == "=":
                    use(rv_use, s[2]); deff(s[1])
                elif s[0] == "setd": use(place_use, s[1])
            t = b["t"]
            if t[0] == "switch": use(op_use, t[1])
            elif t[0] == "drop": use(place_use, t[1])
            elif t[0] == "call":
                use(op_use, t[1])
                for a in t[2]: use(op_use, a)
                deff(t[3])
            elif t[0] == "assert":
                use(op_use, t[1])
                for o in t[4]: use(op_use, o)
            elif t[0] == "return": g.add(0)
            gen.append(g); kill.append(kl)
        live = [set() for _ in bl]
        ch = True
        while ch:
            ch = False
            for i in range(len(bl) - 1, -1, -1):
                o = set()
                for s in self.succ(bl[i]): o |= live[s]
                n = gen[i] | (o - kill[i])
                if n != live[i]: live[i] = n; ch = True
        self._cfg[k] = live
        return live

def short(p):
    return p.rsplit("::", 1)[-1]
