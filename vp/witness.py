"""Compile-fail witnesses: many small modules compiled together against the current sources; a witness is rejected when the compiler reports an error inside it."""
import os, subprocess, json, shutil, glob
from . import dump as D

def env_for(target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER"): e.pop(k, None)
    e.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    return e

def spans_in(msg, fname):
    """line numbers of the file that a diagnostic points at, following macro expansions to their call sites"""
    out = set()
    def add(sp):
        while sp:
            if sp["file_name"].endswith(fname): out.update(range(sp["line_start"], sp["line_end"] + 1))
            sp = (sp.get("expansion") or {}).get("span")
    for sp in msg.get("spans", []): add(sp)
    return out

def cargo_errors(cwd, args, target):
    """[(code, text, lines)] per error diagnostic of the package"""
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json"] + args, cwd=cwd, env=env_for(target), capture_output=True, text=True)
    out = []
    for l in r.stdout.splitlines():
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error": out.append((m["target"]["name"], m["message"]))
    return r.returncode, out, r.stderr

class Set:
    """compiles (name, source) modules; file: where the module file is written; header: text before the modules"""
    def __init__(self, cwd, args, target, file, header, crate):
        self.cwd, self.args, self.target, self.file, self.header, self.crate = cwd, args, target, file, header, crate
    def compile(self, mods):
        """-> {name: [(code, message)]} for modules with errors"""
        lines = self.header.split("\n"); where = []
        for n, src in mods:
            a = len(lines) + 1
            lines += ["mod %s {" % n] + src.strip("\n").split("\n") + ["}"]
            where.append((a, len(lines), n))
        with open(self.file, "w") as f: f.write("\n".join(lines) + "\n")
        D.forget(self.target)
        for fp in glob.glob(self.target + "/debug/build/" + self.crate) + glob.glob(self.target + "/debug/.fingerprint/" + self.crate + "-*"): shutil.rmtree(fp)
        rc, errs, err = cargo_errors(self.cwd, self.args, self.target)
        got = {}; stray = []
        for tn, m in errs:
            ls = spans_in(m, os.path.basename(self.file)); hit = False
            for a, b, n in where:
                if any(a <= x <= b for x in ls):
                    hit = True; got.setdefault(n, []).append(((m.get("code") or {}).get("code"), m["message"]))
            if not hit and m.get("spans"): stray.append(m["rendered"][:600])
        if rc and not got: raise D.BuildError("witness build fails outside the witnesses:\n" + ("\n".join(stray) or err[-3000:]))
        return got
    def rejected(self, mods):
        """compile repeatedly, dropping rejected modules, until the rest is accepted: ({rejected name: errors}, [accepted names])"""
        rej = {}; left = list(mods)
        while left:
            got = self.compile(left)
            if not got: break
            rej.update(got); left = [x for x in left if x[0] not in got]
        return rej, [x[0] for x in left]
