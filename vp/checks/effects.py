"""C34 no hidden state or outside effects.  C35 what works without an allocator never allocates.  C36 no recursion."""
import re
from ..model_ublox import *
FEATURES = ("std_alloc", "serde", "alloc", "core")
LABEL = {"std_alloc": "all features", "serde": "serde only", "alloc": "alloc only", "core": "no features"}

def walk(x):
    """function references in a block: dicts of the driver's fnref"""
    if isinstance(x, dict):
        if "safe" in x and "path" in x: yield x
        for y in x.values(): yield from walk(y)
    elif isinstance(x, list):
        for y in x: yield from walk(y)

def target(q): return q.get("rpath") or q["path"]
def krate(q): return q.get("rkrate") or q.get("krate") or ""
def own(p): return [f for f in p.funs.values() if f["local"]]
def where(f): return f["path"]

# ------------------------------------------------------------------ C34
OUTSIDE = re.compile(r"(?:^|<)(?:std|core|alloc)::(?:io|fs|net|env|process|thread|time|os|random|sync|cell|backtrace|sys|dbg|task|hash::random|collections::hash\w*)(?:::|$)"
                     r"|^chrono::(?:offset::)?(?:utc::|local::)?(?:Utc|Local)(?:::now|::today)|(?:^|::)(?:Local)(?:::|$)|::now$|::today$|^std::hash::RandomState")
PURE = re.compile(r"^<std::vec::Vec<.*> as std::io::Write>::|^<dyn std::io::Write|^std::io::Write::(?:write|write_all|by_ref)$|^(?:std|core)::time::Duration|^std::io::(?:Error|ErrorKind)\b"
                  r"|^<(?:std|core)::cell::(?:Ref|RefMut)\b")
STATE = re.compile(r"(?:^|[<\s,&(])(?:std|core|alloc)::(?:cell::(?:Cell|RefCell|UnsafeCell|OnceCell|LazyCell)|sync::(?:atomic::\w+|\w*Mutex|\w*RwLock|Once\w*|Lazy\w*|mpsc::\w+)|thread::LocalKey)\b")
SINK = re.compile(r"^std::io::Write::")

def c34(r, tier):
    r.rule = ("in every feature set: the crate declares no mutable, interior-mutable or thread-local static; no type it declares and no value its functions handle is an interior-mutability cell; no body refers to an operation "
              "with outside effects or outside inputs (input/output, files, environment, clock, threads, synchronisation, random state), the growable vector's in-memory writer excepted; no pointer is turned into a number. "
              "With no hidden state every accessor, builder and parser step is a function of its arguments")
    r.assumptions.append("chrono, num-traits, bitflags and serde operations other than those named have no outside effects of their own; a user's buffer, writer or serializer may do what it likes")
    n = 0
    for fs in FEATURES:
        p = prog(fs); p.activate(); tag = "" if fs == "std_alloc" else " [%s]" % LABEL[fs]
        for path, c in sorted(p.consts.items()):
            if c.get("static"):
                r.check(not (c["mut"] or not c["freeze"] or c["tls"]), "static %s holds no state%s" % (path, tag), c["span"], "a %s static" % ("mutable" if c["mut"] else "thread-local" if c["tls"] else "interior-mutable"))
        for it in p.items:
            t = p.T[it["ty"]]
            cells = [f for v in t.get("variants", ()) for f in v.get("f", ()) if isinstance(f, (list, dict)) and STATE.search(fty(p, f))]
            r.check(not cells, "type %s holds no cell%s" % (it["path"], tag), it["span"], "a field whose contents change behind a shared reference: %s" % (fty(p, cells[0]) if cells else ""))
        for f in own(p):
            n += 1; bad = []
            for b in f["blocks"]:
                for q in walk(b["t"]) if True else ():
                    bad += outside(p, q, b["sp"])
                for st in b["s"]:
                    for q in walk(st): bad += outside(p, q, b["sp"])
                    if st[0] == "=" and isinstance(st[2], list) and st[2] and st[2][0] == "cast" and "Expose" in str(st[2][1]): bad.append(("a pointer turned into a number", b["sp"]))
            for l in f["locals"]:
                m = STATE.search(p.T[l[0]]["s"])
                if m: bad.append(("a value of type " + p.T[l[0]]["s"], f["span"])); break
            r.check(not bad, "%s has no outside effect%s" % (f["key"], tag), bad[0][1] if bad else f["span"], "; ".join(sorted({x[0] for x in bad})[:3]))
            r.fn(f["key"])
    r.count("bodies", n); r.need("bodies", n, 2000)

def fty(p, f):
    for x in (f.values() if isinstance(f, dict) else f):
        if isinstance(x, int) and not isinstance(x, bool) and x < len(p.T): return p.T[x]["s"]
    return ""

def outside(p, q, sp):
    out = []
    for s in {q["path"], q.get("rpath") or q["path"]}:
        if not OUTSIDE.search(s) or PURE.search(s): continue
        if SINK.search(s) and q["args"] and "vec::Vec<u8" in p.T[q["args"][0]]["s"]: continue
        out.append(("refers to " + s, sp))
    return out

# ------------------------------------------------------------------ C35
def graph(p):
    """{key: ([(target key or None, ref, span)])} over all dumped bodies"""
    out = {}
    for k, f in p.funs.items():
        es = []
        for b in f["blocks"]:
            if b.get("cl"): continue
            for q in walk(b): es.append((q.get("key"), q, b["sp"]))
        out[k] = es
    return out

ALLOC = re.compile(r"^(?:std|alloc)::(?:fmt::format|format|slice::<impl \[.*\]>::(?:to_vec|into_vec|concat|join|repeat|sort(?:_by\w*)?)|str::<impl str>::(?:to_\w+|into_\w+|repeat|replace\w*)|string::|vec::|boxed::|rc::|sync::Arc|collections::|borrow::ToOwned|alloc::)")
HARMLESS = re.compile(r"::(?:len|is_empty|as_slice|as_mut_slice|as_ptr|as_mut_ptr|deref|deref_mut|index|index_mut|clear|drain|truncate|iter|capacity|new|drop|borrow|as_ref|as_str|fmt)$|<.*Drain")
PANIC = re.compile(r"^(?:std|core)::panicking|^(?:std|core)::fmt::|rt::begin_panic|panic_fmt")

def allocates(q):
    t = target(q); k = krate(q)
    if k == "alloc" or (k == "std" and ALLOC.search(t)): return not HARMLESS.search(t)
    return bool(ALLOC.search(t)) and k not in ("core",) and not HARMLESS.search(t)

def c35(r, tier):
    r.rule = ("the functions that exist without an allocator (feature sets without alloc and std, with and without serde) are taken with all features on; following every call, closure and resolved trait method inside the crate "
              "and the generic library code it instantiates, none may reach an operation of the alloc library that obtains memory. Calls on the user's own buffer, writer or serializer type stay abstract")
    r.assumptions.append("chrono, num-traits, bitflags and serde operations used by the decoding and building code do not allocate (they are themselves built without an allocator in these feature sets)")
    base = set()
    for fs in ("core", "serde"):
        p = prog(fs); base |= {f["path"] for f in own(p)}
    n = 0
    for fs in ("std_alloc", "alloc"):
        p = prog(fs); p.activate(); G = graph(p); tag = "" if fs == "std_alloc" else " [%s]" % LABEL[fs]
        clos = {}; roots = set(p.roots)
        for f in own(p):
            m = re.match(r"(.*)::\{closure", f["path"])
            if m: clos.setdefault(m.group(1), []).append(f["key"])
        memo = {}
        def reach(k0):
            """first allocating operation reachable, with the way to it"""
            seen = {k0: None}; work = [k0]
            while work:
                k = work.pop()
                for t, q, sp in G.get(k, ()):
                    if allocates(q):
                        way = [target(q)]; x = k
                        while x is not None: way.append(x.split(" @ ")[0]); x = seen[x]
                        return way, sp
                    if t and t in G and t not in seen: seen[t] = k; work.append(t)
                for t in clos.get(p.funs[k]["path"], ()):
                    if t not in seen: seen[t] = k; work.append(t)
            return None
        for f in own(p):
            if f["path"] not in base or "{closure" in f["path"] or f["vis"] != "pub" or f["key"] not in roots: continue
            n += 1; w = reach(f["key"])
            r.check(w is None, "%s never allocates%s" % (f["key"].split(" @ ")[0], tag), w[1] if w else f["span"], "reaches %s" % " from ".join(w[0][:4]) if w else "")
            r.fn(f["key"])
    r.count("entry_points", n); r.need("functions available without an allocator", n, 600)

# ------------------------------------------------------------------ C36
FMT = {"new_debug": "std::fmt::Debug", "new_display": "std::fmt::Display"}

def rec_edges(p):
    """call edges over keys; formatting and serialisation of a value lead to that type's own implementation"""
    impl = {}
    for f in own(p):
        m = re.match(r"<(.*) as (.*)>::(\w+)$", f["path"])
        if m: impl.setdefault((re.sub(r"<.*", "", m.group(1)).lstrip("&"), re.sub(r"<.*", "", m.group(2))), []).append(f["key"])
    paths = {}
    for f in own(p): paths.setdefault(f["path"], []).append(f["key"])
    def adt(ti):
        t = p.T[ti]
        while t["k"] == "ref": t = p.T[t["to"]]
        return t["path"] if t["k"] == "adt" else None
    def trait_impl(ti, tr):
        a = adt(ti)
        return impl.get((a, tr), []) + impl.get((a, tr.replace("std::", "core::")), []) if a else []
    E = {}
    for k, f in p.funs.items():
        es = {}
        for b in f["blocks"]:
            if b.get("cl"): continue
            for q in walk(b):
                ts = []
                if q.get("key"): ts.append(q["key"])
                else: ts += paths.get(target(q), [])
                nm = target(q).rsplit("::", 1)[-1]
                if f["local"]:
                    if nm in FMT:
                        for a in q["args"]: ts += trait_impl(a, FMT[nm])
                    if q.get("krate") in ("serde", "serde_core") and nm.startswith(("serialize_", "collect_")):
                        for a in q["args"]: ts += trait_impl(a, "serde::Serialize") + trait_impl(a, "serde_core::Serialize") + trait_impl(a, "serde_core::ser::Serialize")
                    if nm in ("into", "try_into") and len(q["args"]) == 2:
                        tr = "std::convert::From" if nm == "into" else "std::convert::TryFrom"
                        src, dst = q["args"][0], q["args"][1]
                        for t in trait_impl(dst, tr):
                            g = p.funs[t]
                            if g["argc"] == 1 and adt(g["locals"][1][0]) == adt(src) and p.T[g["locals"][1][0]]["s"] == p.T[src]["s"]: ts.append(t)
                for t in ts: es.setdefault(t, b["sp"])
            for st in b["s"]:
                if st[0] == "=" and isinstance(st[2], list) and st[2] and st[2][0] == "agg" and f["local"]: pass
        E[k] = es
    for f in own(p):
        m = re.match(r"(.*)::\{closure[^}]*\}$", f["path"])
        if m:
            for g in paths.get(m.group(1), ()): E[g].setdefault(f["key"], f["span"])
    # &dyn Debug / &dyn Display made from a concrete type
    for k, f in p.funs.items():
        if not f["local"]: continue
        for b in f["blocks"]:
            for st in b["s"]:
                if st[0] != "=" or not isinstance(st[2], list) or not st[2] or st[2][0] != "cast": continue
                for tr in ("Debug", "Display"):
                    if "dyn std::fmt::" + tr in casts_to(p, st[2]):
                        for t in trait_impl_of_operand(p, f, st[2], impl, "std::fmt::" + tr): E[k].setdefault(t, b["sp"])
    return E

def casts_to(p, c):
    for x in reversed(c):
        if isinstance(x, int) and not isinstance(x, bool): return p.T[x]["s"]
    return ""

def trait_impl_of_operand(p, f, c, impl, tr):
    for x in c:
        if isinstance(x, list) and x and x[0] in ("cp", "mv") and not x[1][1]:
            t = p.T[f["locals"][x[1][0]][0]]
            while t["k"] == "ref": t = p.T[t["to"]]
            if t["k"] == "adt": return impl.get((t["path"], tr), [])
    return []

def scc(E):
    """strongly connected components with a cycle (iterative Tarjan)"""
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for root in E:
        if root in idx: continue
        work = [(root, iter(E[root]))]; idx[root] = low[root] = n[0]; n[0] += 1; st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in E: continue
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w); work.append((w, iter(E[w]))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    if len(c) > 1 or v in E[v]: out.append(c)
    return out

def c36(r, tier):
    r.rule = ("call graph of every body of the crate and of the generic library code instantiated for it, with closures, resolved trait methods, conversions and the formatting and serialisation of the crate's own types; "
              "a cycle through a function of the crate is recursion whose depth the input could drive")
    r.assumptions.append("a user's buffer, writer, serializer or formatter does not call back into the library on the same data")
    n = e = 0
    for fs in FEATURES:
        p = prog(fs); p.activate(); E = rec_edges(p); tag = "" if fs == "std_alloc" else " [%s]" % LABEL[fs]
        cyc = {}
        for c in scc(E):
            loc = [k for k in c if p.funs[k]["local"]]
            for k in loc: cyc[k] = c
        for f in own(p):
            n += 1; e += len(E[f["key"]])
            c = cyc.get(f["key"])
            if c:
                nxt = [t for t in E[f["key"]] if t in c]
                r.bad("%s does not call itself%s" % (f["key"].split(" @ ")[0], tag), E[f["key"]][nxt[0]], "calls %s, which leads back to it" % nxt[0].split(" @ ")[0])
            else: r.ok("%s does not call itself%s" % (f["key"].split(" @ ")[0], tag), f["span"])
            r.fn(f["key"])
    r.count("call_edges", e); r.need("bodies", n, 2000)
