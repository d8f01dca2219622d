#!/usr/bin/env python3
"""Systematic small changes of the source, each tried against the checks (in /tmp/mut, never in /repo).
usage: mutate.py <file key> [from-line to-line] [max] [jobs]   results: /tmp/mut/<key>.log, one JSON line per change.
A change no check reports is then compiled and tested; survivors are judged by hand (equivalent, or missed)."""
import sys, os, re, subprocess, json, threading, queue, random, shutil, glob
ROOT = "/tmp/mut"
P = "ublox/src/"
PARS = ["C06 C07 C01 C02 C04 C05 C29 C30", "C28 C36 C34"]
PKT = ["C08 C09 C10 C11 C12 C14 C18 C21 C27 C31 C37 C22", "C17 C19 C16 C15 C32 C40 C20", "C03 C38"]
FILES = {"parser": (P + "parser.rs", PARS), "up": (P + "ubx_packets.rs", ["C30 C15 C14 C31 C16 C12", "C20 C38 C34 C03"]),
         "types": (P + "ubx_packets/types.rs", ["C22 C23 C09 C08", "C20 C38 C03"]),
         "cfg": (P + "ubx_packets/cfg_val.rs", ["C19 C16 C17", "C20 C34 C03"]),
         "pkt": (P + "ubx_packets/packets.rs", PKT),
         "out": ("ublox_derive/src/output.rs", ["C08 C09 C10 C11 C12 C13 C14 C15 C16 C17", "C20 C03 C38 C28", "C26"]),
         "inp": ("ublox_derive/src/input.rs", ["C25", "C08 C09 C10 C11 C14"]),
         "dtypes": ("ublox_derive/src/types.rs", ["C25", "C08 C09 C10 C11 C14"]),
         "err": (P + "error.rs", ["C38 C05 C34"])}
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \| ", [" & "]), (r" & ", [" | "]),
       (r" << ", [" >> "]), (r" >> ", [" << "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"if !", ["if "]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
       (r"\.\.=", [".."]), (r"wrapping_add", ["wrapping_sub"]), (r"from_le_bytes", ["from_be_bytes"]), (r"to_le_bytes", ["to_be_bytes"]),
       (r"\bNone\b", []), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r" as u8\b", [" as i8 as u8"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("])]
def mutants(src, lo, hi):
    L = src.split("\n"); out = []
    testmod = next((i for i, l in enumerate(L) if "#[cfg(test)]" in l and i + 1 < len(L) and "mod" in L[i + 1]), len(L))
    for i, l in enumerate(L[:testmod]):
        n = i + 1
        if not lo <= n <= hi: continue
        s = l.strip()
        if not s or s.startswith(("//", "#[", "#!", "use ", "extern ", "///")): continue
        code = l.split("//")[0]
        for pat, subs in OPS:
            for m in re.finditer(pat, code):
                for r in subs: out.append((n, l[:m.start()] + r + l[m.end():]))
        for m in re.finditer(r"(?<![\w.\"'])(0x[0-9a-fA-F]+|\d+)(?![\w.])", code):
            t = m.group(0); v = int(t, 0)
            for w in (v + 1, v - 1):
                if w >= 0: out.append((n, l[:m.start()] + (hex(w) if t.startswith("0x") else str(w)) + l[m.end():]))
        if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ", "pub ", "static ", "break", "continue", "}", ")")) and s.count("(") == s.count(")") and not L[i - 1].strip().endswith(("=", "(", "+", ",", "|", "&&", "||")):
            out.append((n, re.match(r"\s*", l).group(0) + "{}"))
    return out
def prep(i):
    d = "%s/%d" % (ROOT, i); shutil.rmtree(d + "/repo", ignore_errors=True); os.makedirs(d + "/build", exist_ok=True)
    subprocess.run("mkdir -p %s/repo && cd /repo && tar c --exclude=./target --exclude=.git . | tar x -C %s/repo" % (d, d), shell=True, check=True)
    for f in glob.glob("/verif/.build/driver-*"):
        if not os.path.exists(d + "/build/" + os.path.basename(f)): shutil.copy2(f, d + "/build/")
    return d
BASE = None
def tests(d):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=d + "/tt", CARGO_PROFILE_DEV_DEBUG="0")
    bad = []
    for f in ["--features ublox/alloc", "--no-default-features"]:
        try: q = subprocess.run("cargo test --workspace --no-fail-fast --offline %s -- --test-threads 2" % f, shell=True, cwd=d + "/repo", env=e, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired: return "timeout"
        if "could not compile" in q.stderr: return "nocompile"
        bad += re.findall(r"^test (.*) \.\.\. FAILED", q.stdout, re.M)
        if bad: break
    return "fails:" + bad[0] if bad else "pass"
def one(d, file, stages, n, new):
    p = d + "/repo/" + file; src = open(p).read(); L = src.split("\n"); old = L[n - 1]; L[n - 1] = new
    open(p, "w").write("\n".join(L))
    r = {"line": n, "old": old.strip(), "new": new.strip(), "by": None, "und": [], "tests": None}
    try:
        env = dict(os.environ, VP_REPO=d + "/repo", VP_BUILD=d + "/build")
        for st in stages:
            try: q = subprocess.run(["python3", "-m", "vp.check"] + st.split(), cwd="/verif", capture_output=True, text=True, timeout=1500, env=env)
            except subprocess.TimeoutExpired: r["by"] = "TIMEOUT " + st; break
            t = q.stdout + q.stderr
            if "does not build" in t: r["by"] = "nobuild"; break
            if "Traceback" in t: r["crash"] = t[-600:]
            v = re.findall(r"^VIOLATION property=(\S+)", t, re.M)
            r["und"] += [l[10:170] for l in t.splitlines() if l.startswith("UNDECIDED")]
            if v: r["by"] = ",".join(v); break
        if r["by"] is None or r["by"].startswith("TIMEOUT"): r["tests"] = tests(d)
    finally: open(p, "w").write(src)
    return r
def main():
    key = sys.argv[1]; lo, hi = (int(sys.argv[2]), int(sys.argv[3])) if len(sys.argv) > 3 else (1, 10**9)
    mx = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9; jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 6
    file, stages = FILES[key]
    ms = mutants(open("/repo/" + file).read(), lo, hi)
    if os.environ.get("AGAIN"):     # only those nothing reported last time
        L = open("/repo/" + file).read().split("\n")
        left = [r for r in map(json.loads, open("%s/%s.log" % (ROOT, key))) if r["by"] is None or r["by"].startswith(("EXC", "TIME"))]
        ms = [m for m in ms if any(r["line"] == m[0] and r["new"].strip() == m[1].strip() for r in left)]
        key += ".again"
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(ms)
    ms = ms[:mx]; q = queue.Queue(); [q.put(m) for m in ms]
    log = open("%s/%s.log" % (ROOT, key), "a") if os.makedirs(ROOT, exist_ok=True) is None else None
    def work(i):
        d = prep(i)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            try: r = one(d, file, stages, *m)
            except Exception as e: r = {"line": m[0], "new": m[1], "by": "EXC %r" % e, "tests": None}
            log.write(json.dumps(r) + "\n"); log.flush()
    off = int(os.environ.get("OFF", "0"))
    ts = [threading.Thread(target=work, args=(off + i,)) for i in range(jobs)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print("done", len(ms))
main()
