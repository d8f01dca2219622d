"""Try edited copies of /repo against checks: tools/variants/<set>.py lists (name, 'ok' or 'bad', file, [(old, new), ...], [checks]).
'ok' edits keep the behaviour and must leave the checks quiet; 'bad' ones must be reported by at least one of the checks.
Also: variants.py seeds [id...] runs every planted change against its property's check. Works in /tmp/vw, never in /repo."""
import sys, os, subprocess, importlib.util, shutil, threading, queue, glob, json, re
ROOT = os.environ.get("VW", "/tmp/vw"); JOBS = int(os.environ.get("JOBS", "7"))
def prep(i):
    d = "%s/%d" % (ROOT, i)
    shutil.rmtree(d + "/repo", ignore_errors=True); os.makedirs(d + "/build", exist_ok=True)
    subprocess.run(["cp", "-a", "--reflink=auto", "/repo", d + "/repo.full"]) if False else subprocess.run("mkdir -p %s/repo && cd /repo && tar c --exclude=./target --exclude=.git . | tar x -C %s/repo" % (d, d), shell=True, check=True)
    for f in glob.glob("/verif/.build/driver-*"):
        if not os.path.exists(d + "/build/" + os.path.basename(f)): shutil.copy2(f, d + "/build/")
    return d
def run_one(d, name, kind, apply, checks):
    snap = {}
    r = apply(d + "/repo", snap)
    if r: return "?? %s %s" % (name, r), False
    env = dict(os.environ, VP_REPO=d + "/repo", VP_BUILD=d + "/build")
    try:
        q = subprocess.run(["python3", "-m", "vp.check"] + checks, cwd="/verif", capture_output=True, text=True, timeout=1800, env=env)
    except subprocess.TimeoutExpired: return "XX %s %s TIMEOUT" % (name, kind), False
    finally:
        for f, t in snap.items(): open(f, "w").write(t)
    t = q.stdout + q.stderr
    ls = t.splitlines()
    res = []
    if "does not build" in t: res.append("NOBUILD " + t[-1200:])
    if "Traceback" in t: res.append("CRASH " + t[-800:])
    v = [l for l in ls if l.startswith("VIOLATION")]
    for i, l in enumerate(ls):
        if l.strip().startswith("violated:"): res.append("V " + " / ".join(x.strip() for x in ls[i:i + 3]))
        if l.startswith("UNDECIDED"): res.append("und " + l[10:])
    ok = (not v if kind == "ok" else bool(v)) and not any(x.startswith(("NOB", "CRA")) for x in res)
    ids = [re.search(r"property=(\S+)", l).group(1) for l in v]
    return "%s %-34s %-4s %s %s" % ("ok " if ok else "XX ", name, kind, ",".join(ids), " | ".join(x[:140 if ok else 500] for x in res[:1 if ok else 4])), ok
def edit(file, edits):
    def ap(root, snap):
        p = root + "/" + file; src = open(p).read(); new = src
        for a, b in edits:
            if a not in new: return "edit does not match: " + a[:60]
            new = new.replace(a, b, 1)
        snap[p] = src; open(p, "w").write(new)
    return ap
def edit_many(parts):
    """several refactorings in one tree; parts: (file, old, new)"""
    def ap(root, snap):
        for f, a, b in parts:
            p = root + "/" + f; src = open(p).read()
            if a not in src: return "edit does not match: " + a[:80]
            snap.setdefault(p, src); open(p, "w").write(src.replace(a, b, 1))
    return ap
def patch(f):
    def ap(root, snap):
        for l in open(f):
            if l.startswith("+++ b/"):
                p = root + "/" + l[6:].strip(); snap[p] = open(p).read()
        q = subprocess.run(["patch", "-p1", "-s", "-i", f], cwd=root, capture_output=True, text=True)
        if q.returncode: return "patch fails " + q.stdout
    return ap
def main():
    todo = []
    if sys.argv[1] == "seeds":
        for d in sorted(glob.glob("/verif/seeded/*")):
            n = os.path.basename(d)
            if sys.argv[2:] and not any(o in n for o in sys.argv[2:]): continue
            todo.append((n, "bad", patch(d + "/patch.diff"), [json.load(open(d + "/meta.json"))["property"]]))
    else:
        spec = importlib.util.spec_from_file_location("v", "/verif/tools/variants/%s.py" % sys.argv[1])
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for name, kind, file, edits, checks in m.VARIANTS:
            if sys.argv[2:] and not any(o in name for o in sys.argv[2:]): continue
            todo.append((name, kind, edit(file, edits) if isinstance(file, str) else edit_many(edits), checks))
    q = queue.Queue(); [q.put(x) for x in todo]; bad = []
    def work(i):
        d = prep(i)
        while True:
            try: x = q.get_nowait()
            except queue.Empty: return
            line, ok = run_one(d, *x)
            print(line, flush=True)
            if not ok: bad.append(x[0])
    ts = [threading.Thread(target=work, args=(i,)) for i in range(min(JOBS, len(todo)))]
    [t.start() for t in ts]; [t.join() for t in ts]
    print("variants: %d, unexpected: %d %s" % (len(todo), len(bad), bad))
main()
