"""Obligation bookkeeping, known findings, evidence files and exit status."""
import os, json, time, sys, re, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUST = ["rustc's type checker, trait resolution and MIR construction (nightly 1.101)",
         "the abstract interpreter and its models of core/alloc operations (vp/*.py)"]

class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obl = []          # (id, status, where, detail)
        self.funcs = set()
        self.counts = {}
        self.notes = []
        self.rule = ""
        self.samples = []
        self.assumptions = list(TRUST)
    def ok(self, oid, where="", detail=""): self.obl.append((oid, "ok", where, detail))
    def bad(self, oid, where="", detail=""): self.obl.append((oid, "bad", where, detail))
    def undecided(self, oid, where="", detail=""): self.obl.append((oid, "undecided", where, detail))
    def check(self, cond, oid, where="", detail=""):
        (self.ok if cond else self.bad)(oid, where, detail)
        return cond
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def need(self, what, n, least):
        """anchors must not silently vanish"""
        self.check(n >= least, "anchor: at least %d %s" % (least, what), "", "found %d" % n)
    def fn(self, *ks): self.funcs.update(ks)
    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)

def relies(r, fn, tier, pick, what):
    """the contracts another check establishes and this one uses: their failures are reported here as well"""
    sub = Report(r.pid); fn(sub, tier)
    n = 0
    for oid, stt, where, det in sub.obl:
        if not pick(oid) or oid.startswith("anchor"): continue
        if stt == "ok": n += 1
        elif stt == "bad": r.bad("relies on " + oid, where, det)
        else: r.undecided("relies on " + oid, where, det)
    r.funcs |= sub.funcs
    r.ok("relies on the contracts of " + what, "", "%d hold" % n)
    r.need("contracts of %s" % what, sum(1 for o in sub.obl if pick(o[0])), 1)

def known():
    """known-findings.txt: 'finding: property=<id> <obligation id>  -- text' and 'fixed: property=<id> <commit> text'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"finding: property=(\S+) obligation=<(.*?)> (.*)$", l)
            if m: out.append(m.groups())
    return out

def main(pid, fn):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = Report(pid)
    crashed = None
    try: fn(r, tier)
    except Exception as e:
        from .dump import BuildError
        if isinstance(e, BuildError):
            print(str(e)[-3000:]); print("UNDECIDED property=%s: the tree does not build" % pid)
        else: traceback.print_exc()
        crashed = e
    kf = {o: t for p, o, t in known() if p == pid}
    bad = [o for o in r.obl if o[1] == "bad"]
    seen = set(); viol = []
    for o in bad:
        if o[0] in kf:
            if o[0] not in seen: print("KNOWN-FINDING: property=%s %s: %s" % (pid, o[0], kf[o[0]]))
            seen.add(o[0])
        else: viol.append(o)
    und = [o for o in r.obl if o[1] == "undecided"]
    for o in und[:20]: print("UNDECIDED property=%s %s at %s: %s" % (pid, o[0], o[2], str(o[3])[:300]))
    good = sum(1 for o in r.obl if o[1] == "ok")
    cov = {"explanation": r.rule or "static analysis of the current tree's MIR",
           "obligations": len(r.obl), "discharged": good, "undecided": len(und), "known_findings": len(seen),
           "functions_analysed": len(r.funcs), "functions_sample": sorted(r.funcs)[:12], "samples": r.samples or [list(map(str, o)) for o in r.obl[:4]]}
    cov.update(r.counts)
    if r.notes: cov["notes"] = r.notes
    if crashed is not None: cov["crashed"] = repr(crashed)[:500]
    if und: cov["undecided_list"] = [list(map(str, o)) for o in und[:50]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": r.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    evd = os.path.join(os.environ.get("VP_BUILD") or VERIF, "evidence")     # VP_BUILD: trial runs against a scratch copy
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    rdir = os.path.join(os.environ.get("VP_BUILD") or os.path.join(VERIF, ".build"), "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + ".txt")
    if viol:
        with open(rp, "w") as f:
            for o in viol: f.write("%s\n  at %s\n  %s\n\n" % (o[0], o[2], o[3]))
        for o in viol[:15]: print("  violated: %s\n    at %s\n    %s" % (o[0], o[2], str(o[3])[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("property=%s obligations=%d discharged=%d undecided=%d known=%d functions=%d wall=%.1fs" % (pid, len(r.obl), good, len(und), len(seen), len(r.funcs), time.time() - t0))
    return 0
