"""C39: everything a client can hold can be moved to and shared between threads; errors are ordinary error types."""
import os, shutil, re
from .. import dump as D
from ..witness import Set
from ..model_ublox import *
from .forge import LIB

HDR = """#![allow(warnings)]
"""
MOD = """use ublox::*;
use ublox::cfg_val::*;
fn need<T: %s>() {}
pub fn client() { need::<%s>(); }"""

def generics(s):
    """the generic parameters a type is written with, filled in"""
    m = re.search(r"<(.*)>$", s)
    if not m: return ""
    out = []
    for a in m.group(1).split(","):
        a = a.strip()
        if a.startswith("'"): out.append("'static")
        elif re.fullmatch(r"[A-Z]\w?", a): out.append("Vec<u8>")
        else: out.append(a)
    return "<%s>" % ", ".join(out)

def wanted(p):
    """[(what, type text, bound, anchor)]"""
    W = []; seen = set()
    for it in p.items:
        if not (it["pub"] and it["reach"]): continue
        t = p.T[it["ty"]]; nm = it["path"].rsplit("::", 1)[-1]
        if nm in seen or t["k"] != "adt": continue
        seen.add(nm)
        if nm in ("DualBuffer", "InternalBitFlags"): continue
        g = generics(t["s"].replace(" ", "")) if nm not in GEN else GEN[nm]
        W.append(("%s can cross threads" % nm, nm + g, "Send + Sync", it["span"]))
    for e in ("ParserError", "DateTimeError", "MemWriterError<ParserError>"):
        W.append(("%s is an error type" % e.split("<")[0], e, "std::error::Error + Send + Sync + 'static", ""))
    return W
GEN = {"MemWriterError": "<ParserError>"}

def c39(r, tier):
    r.rule = ("for every public type of the crate a client program that requires it to be sendable and shareable between threads is compiled and must be accepted; the error types must be standard error types; "
              "a twin that requires the same of a reference-counted pointer must be refused")
    r.assumptions.append("a type the client supplies (buffer, writer, iterator) is itself sendable")
    p = prog("std_alloc"); W = wanted(p)
    with D.Lock("client"):
        d = os.path.join(D.BUILD, "witness-threads"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/Cargo.toml", "w").write(LIB % os.path.join(D.REPO, "ublox"))
        if os.path.exists(D.REPO + "/Cargo.lock"): shutil.copy2(D.REPO + "/Cargo.lock", d)
        S = Set(d, ["--lib"], os.path.join(D.BUILD, "target-client"), d + "/lib.rs", HDR, "vp_client")
        try:
            S.compile([])
            rej, acc = S.rejected([("w%d" % i, MOD % (b, t)) for i, (w, t, b, a) in enumerate(W)] + [("twin", MOD % ("Send + Sync", "std::rc::Rc<u8>")), ("twin2", MOD % ("std::error::Error", "Vec<u8>"))])
        except D.BuildError as e:
            print(str(e)[-2000:]); r.undecided("client build", "", str(e)[-800:]); return
        finally: shutil.rmtree(d, ignore_errors=True)
    for t in ("twin", "twin2"): r.need("refused twin", 1 if t in rej else 0, 1)
    for i, (w, t, b, a) in enumerate(W):
        if "w%d" % i not in rej: r.ok(w, a); continue
        es = rej["w%d" % i]
        if any(c == "E0277" for c, m in es): r.bad(w, a, [m for c, m in es if c == "E0277"][0])
        else: r.undecided(w, a, es[0][1])
    r.count("types", len(W)); r.need("public types", len(W), 150)
