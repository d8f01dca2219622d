"""C24: what each feature set links, and that every feature set has the same decoding and building behaviour as the full one."""
import re, sys, importlib, multiprocessing, os
from .. import model_ublox as M
from .. import dump as D
# feature set -> crates of the standard distribution it may link
STD = {"std", "alloc", "core", "proc_macro", "test", "std_detect", "panic_unwind", "panic_abort", "unwind"}
MAY = {"core": {"core"}, "serde": {"core"}, "alloc": {"core", "alloc"}, "std": None}
DESC = {"core": "no features", "serde": "serde only", "alloc": "alloc only", "std": "default features"}
# decoding and fixed-length building, decided in each feature set by the rules of these properties
QUICK = ["C01", "C02", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19", "C21", "C22", "C23", "C27", "C30", "C31"]
DEEP = QUICK + ["C03"]

def rows(feat, ids):
    """obligations of the given checks with the feature set in the place of the full one"""
    sys.setrecursionlimit(20000)
    from ..report import Report
    from ..registry import CHECKS
    orig = M.prog
    def prog(f="std_alloc"): return orig(feat if f == "std_alloc" else f)
    out = {"crates": orig(feat).crates}
    for pid in ids:
        mod, fn = CHECKS[pid].rsplit(".", 1); m = importlib.import_module("vp.checks." + mod)
        for nm, mm in list(sys.modules.items()):
            if nm.startswith("vp.") and getattr(mm, "prog", None) is orig: mm.prog = prog
        r = Report(pid)
        try: getattr(m, fn)(r, "quick")
        except D.BuildError: raise
        except Exception as e: r.undecided("rule of " + pid, "", repr(e)[:300])
        out[pid] = [(o[0], o[1], str(o[2]), str(o[3])[:500]) for o in r.obl]
    return out

def job(a):
    try: return rows(*a)
    except D.BuildError as e: return {"error": str(e)[-1500:]}

def c24(r, tier):
    r.rule = ("the crate is compiled under each feature set; the linked crates of the compilation are listed and compared with what the feature set may link; the rules of the decoding and "
              "building properties are applied to each feature set's own typed MIR and every obligation must come out as it does with all features on")
    ids = DEEP if tier == "thorough" else QUICK
    feats = ["std_alloc", "core", "alloc", "serde", "std"]
    M.prog("std_alloc")       # the full build must exist: otherwise nothing is said
    M._progs.clear()
    with multiprocessing.get_context("fork").Pool(5) as pool: res = dict(zip(feats, pool.map(job, [(f, ids) for f in feats], 1)))
    base = res["std_alloc"]
    if "error" in base: r.undecided("full feature set", "", base["error"]); return
    for f in feats[1:]:
        g = res[f]
        if "error" in g:
            r.bad("%s builds" % DESC[f], "ublox/Cargo.toml", "the tree builds with all features but not with %s: %s" % (DESC[f], g["error"][-600:])); continue
        r.ok("%s builds" % DESC[f])
        if MAY[f] is not None:
            extra = sorted(c for c in g["crates"] if c in STD and c not in MAY[f])
            r.check(not extra, "%s links only %s" % (DESC[f], " and ".join(sorted(MAY[f]))), "ublox/src/lib.rs", "links %s" % ", ".join(extra))
            r.sample([f, " ".join(g["crates"])])
        for pid in ids:
            b = {}; o = {}
            for x in base[pid]: b[x[0]] = x
            for x in g[pid]: o[x[0]] = x
            for k, x in sorted(b.items()):
                oid = "%s: %s: %s" % (DESC[f], pid, k)
                y = o.get(k)
                if x[1] == "undecided": continue
                if y is None:
                    if f in ("core", "serde") and re.match(r"(Vec: |parser: default$|Vec<u8> )", k): continue      # the growable buffer needs an allocator
                    if x[1] == "ok": r.bad(oid, x[2], "holds with all features, absent with %s" % DESC[f])
                elif y[1] == "undecided": r.undecided(oid, y[2], y[3])
                elif y[1] == x[1]: r.ok(oid, y[2])
                elif y[1] == "bad": r.bad(oid, y[2], "holds with all features on, but with %s: %s" % (DESC[f], y[3]))
                else: r.bad(oid, y[2], "fails only with all features on: %s" % x[3])
            for k, y in sorted(o.items()):
                if k not in b and y[1] == "bad": r.bad("%s: %s: %s" % (DESC[f], pid, k), y[2], y[3])
    r.need("compared obligations", len(r.obl), 4000)
    r.count("feature_sets", 5)
