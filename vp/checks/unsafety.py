"""C28: where memory-unsafe operations are, and that each is in bounds."""
import os, re
from ..model_parser import *
from ..interp import Interp, State, Unsupported
from .buffers import Buf, buffers, results
from .. import dump as _dump
FEATURES = ("std_alloc", "serde", "alloc", "core")
REPO = os.environ.get("VP_REPO", "/repo")
# emitted by the compiler's own format_args!; its argument array is built by the compiler
COMPILER = re.compile(r"^(std|core|alloc)::fmt::(Arguments::<'\w+>::new\w*|rt::\w+.*)$")

def sites(p):
    """memory-unsafe operations in the crate's own bodies: {(function path, what): (function, span)}"""
    out = {}
    def fnrefs(x):
        if isinstance(x, dict):
            if "safe" in x and "path" in x: yield x
            for y in x.values(): yield from fnrefs(y)
        elif isinstance(x, list):
            for y in x: yield from fnrefs(y)
    def places(x):
        """places [local, projections] in a statement or terminator"""
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(e, list) and e and isinstance(e[0], str) for e in x[1]): yield x
            for y in x: yield from places(y)
        elif isinstance(x, dict):
            for y in x.values(): yield from places(y)
    n = 0
    for k, f in p.funs.items():
        if not f["local"]: continue
        n += 1
        if f.get("unsafe"): out.setdefault((f["path"], "declared unsafe"), (f, f["span"]))
        for b in f["blocks"]:
            for ref in fnrefs(b):
                if ref["safe"] is False and not COMPILER.match(ref["path"]): out.setdefault((f["path"], ref["path"]), (f, b["sp"]))
            for pl in places(b):
                if pl[0] < len(f["locals"]) and pl[1] and pl[1][0][0] == "*" and p.T[f["locals"][pl[0]][0]]["k"] == "ptr": out.setdefault((f["path"], "raw pointer access"), (f, b["sp"]))
    return out, n

def callers(p):
    """{function path: set of local functions that mention it}"""
    out = {}
    def refs(x):
        if isinstance(x, dict):
            if "path" in x and "safe" in x:
                yield x["path"]
                if x.get("rpath"): yield x["rpath"]
            for y in x.values(): yield from refs(y)
        elif isinstance(x, list):
            for y in x: yield from refs(y)
    for k, f in p.funs.items():
        if not f["local"]: continue
        for b in f["blocks"]:
            for q in refs(b): out.setdefault(q, set()).add(f["path"])
        
    return out

def strip(s): return re.sub(r"//[^\n]*|/\*.*?\*/|b?r?\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])'", lambda m: re.sub(r"[^\n]", " ", m.group(0)), s, flags=re.S)

def owner(p, f, bufs):
    """the fixed buffer whose method f is (also for closures inside its methods)"""
    for b in bufs:
        base = p.T[b.ti]["path"]
        if f["path"].startswith("<" + base) or f["path"].startswith(base + "::") or re.search(r"<impl [^>]*%s" % re.escape(base), f["path"]): return b
    return None

def c28(r, tier):
    r.rule = ("all bodies of the crate, including macro-generated ones, are searched for calls of unsafe functions, raw-pointer accesses and unsafe function declarations, in every feature set; each must belong to a fixed "
              "buffer (a method of it, or a function only such methods call); every method of the fixed buffer is interpreted from every state of its inferred class invariant with arbitrary arguments, and each "
              "unsafe operation met must lie inside the backing storage; the macro crate must not generate the unsafe keyword")
    main = prog("std_alloc"); total = 0; allowed_sites = {}
    for fs in FEATURES:
        p = prog(fs); S, n = sites(p); total += n
        bufs = [b for b in buffers(p) if not b.vec]
        call = callers(p); byp = {}
        for f in p.funs.values():
            if f["local"]: byp.setdefault(f["path"], []).append(f)
        def confined(path, seen=()):
            """only the fixed buffer's methods lead to this function"""
            fl = byp.get(path, [])
            if any(owner(p, f, bufs) for f in fl): return True
            if path in seen: return True
            par = re.sub(r"::\{closure.*$", "", path)
            if par != path: return confined(par, seen + (path,))
            if any(f["vis"] == "pub" and f.get("reach") for f in fl): return False
            cs = call.get(path, set())
            return bool(cs) and all(confined(c, seen + (path,)) for c in cs)
        for (path, what), (f, sp) in sorted(S.items()):
            oid = "confined: %s in %s" % (what, path)
            ok = confined(path)
            r.check(ok, oid + (" [%s]" % fs if fs != "std_alloc" else ""), sp, "a memory-unsafe operation outside the fixed buffer")
            if ok and what != "declared unsafe": allowed_sites.setdefault((path, what.split("::")[-1]), sp)
    r.count("bodies_searched", total)
    # bounds
    p = main; met = set(); nb = 0
    for R in results(p):
        b = R[0] if isinstance(R, tuple) else R.b
        if b.vec: continue
        nb += 1
        if isinstance(R, tuple): r.undecided("bounds: " + b.name, "", R[1]); continue
        check_bounds(r, p, b, list(R.inv), met)
    r.need("fixed buffers", nb, 1)
    for (path, what), sp in sorted(allowed_sites.items()):
        if not any(m[0] == path for m in met):
            r.undecided("bounds: %s in %s" % (what, path), sp, "the operation was not met while interpreting the buffer's methods")
    # the macro crate's templates
    src = os.path.join(REPO, "ublox_derive", "src"); k = 0
    for root, _, files in os.walk(src):
        for fn in sorted(files):
            if not fn.endswith(".rs") or fn in ("tests.rs",): continue
            t = strip(open(os.path.join(root, fn)).read()); k += 1
            t = re.sub(r"#!?\[[^\]]*\]", " ", t)
            hit = [i + 1 for i, l in enumerate(t.split("\n")) if re.search(r"\bunsafe\b", l)]
            r.check(not hit, "templates: " + fn, "%s:%s" % (os.path.relpath(os.path.join(root, fn), REPO), hit[0] if hit else 1), "the macro crate's source uses the unsafe keyword")
    r.need("macro sources", k, 3)

def check_bounds(r, p, b, inv, met):
    """every method of the fixed buffer keeps the invariant and its unsafe operations stay in bounds"""
    base = p.T[b.ti]["path"]
    fl = []
    for k, f in sorted(p.funs.items()):
        if not f["local"] or "{closure" in k or f["argc"] < 1: continue
        t = p.T[f["locals"][1][0]]; to = p.T[t["to"]] if t["k"] == "ref" else t
        if to["k"] == "adt" and to["path"] == base: fl.append((f, t["k"] == "ref", "mut" in t["s"][:12] if t["k"] == "ref" else False))
    for rnd in range(5):
        ops, bad, und, broken = [], [], [], set()
        for f, byref, mut in fl:
            try:
                I, st = b.state(inv)
                args = [Ptr(("S", "buf")) if byref else st.store[("S", "buf")]] + [I.sym_value(st, f["locals"][i + 1][0], "a%d" % i) for i in range(1, f["argc"])]
                outs = I.run(f["key"], args, st)
                for s, v in outs:
                    if s.facts.contradictory() or not byref: continue
                    for c in inv:
                        if not s.facts.entails(b.inst(I, c, s.store[("S", "buf")])): broken.add(c)
                ops += [(f, x) for x in I.unsafe_ops]
                bad += [(f, x) for x in I.unsafe_bad if not x[4].facts.contradictory()]
            except Unsupported as e: und.append((f, "%s %s" % (e, getattr(e, "at", ""))))
        if not broken: break
        inv = [c for c in inv if c not in broken]
    for f, byref, mut in fl: r.fn(f["key"])
    und_fns = {f["path"]: w for f, w in und}
    for f, byref, mut in fl:
        oid = "bounds: %s" % f["path"]
        mine = [x for g, x in bad if g is f]
        if mine:
            for x in mine[:2]: r.bad(oid, x[3], "%s may leave the backing storage: %s is not implied (in %s)" % (x[0], x[1], x[2]))
        elif f["path"] in und_fns: r.undecided(oid, f["span"], und_fns[f["path"]])
        else: r.ok(oid, f["span"])
    for g, x in ops: met.add((x[3], x[0]))
    r.count("unsafe_operations_checked", len(ops))
    for g, x in ops[:6]: r.sample([g["path"], x[0], x[2]])
    r.notes.append("%s invariant: %s" % (b.name, ", ".join(inv)))
