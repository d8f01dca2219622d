#!/usr/bin/env python3
"""Confirm planted changes in a scratch copy of /repo and write seeded/<id>/.  usage: seed.py [ID...]
Specs: tools/seeds/<id>.py defining PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Rust main.rs text), FEATURES, DEPS"""
import sys, os, subprocess, json, shutil, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
SETS = ["--features ublox/alloc", "", "--no-default-features --features ublox/alloc", "--no-default-features --features ublox/serde", "--no-default-features"]
DEMO_SH = '''#!/bin/bash
# run in a checkout of the repository; builds demo.rs against its ublox crate in a scratch directory
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/" 2>/dev/null || true
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
ublox = { path = "$repo/ublox"@FEAT@ }
@DEPS@
[workspace]
EOF
cd "$t"
CARGO_TARGET_DIR="${DEMO_TARGET:-$t/target}" cargo build --offline -q
timeout 60 "${DEMO_TARGET:-$t/target}/debug/demo"
'''
def sh(c, cwd=WT, env=None, t=240):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only"); e.update(env or {})
    try: r = subprocess.run(["bash", "-c", c], cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as x: return 124, "timeout"
    return r.returncode, r.stdout + r.stderr
def tests():
    ok, bad = set(), set()
    for f in SETS:
        rc, out = sh("cargo test --workspace --no-fail-fast --offline %s -- --test-threads 8" % f)
        if "could not compile" in out: return None, out[-1500:]
        for m in re.finditer(r"^test (.*) \.\.\. (ok|FAILED)", out, re.M): (ok if m.group(2) == "ok" else bad).add(re.sub(r"line \d+", "", m.group(1)))
    return ok - bad, bad
FRAME = """#[allow(dead_code)]
fn frame(class: u8, id: u8, pl: &[u8]) -> Vec<u8> {
    let mut v = vec![0xb5, 0x62, class, id, pl.len() as u8, (pl.len() >> 8) as u8];
    v.extend_from_slice(pl);
    let (mut a, mut b) = (0u8, 0u8);
    for x in &v[2..] { a = a.wrapping_add(*x); b = b.wrapping_add(a); }
    v.push(a); v.push(b); v
}
"""
def main(ids):
    if not os.path.isdir(WT): sh("cp -a /repo " + WT, "/")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD")
    base = None
    for i in ids:
        m = {"FEATURES": "", "DEPS": "", "DEMO": "", "SH": None}; exec(open("%s/tools/seeds/%s.py" % (V, i)).read(), m)
        d = V + "/seeded/" + i; tmp = "/tmp/seedout-" + i
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        if m["DEMO"]: open(tmp + "/demo.rs", "w").write((FRAME if "frame(" in m["DEMO"] and "fn frame" not in m["DEMO"] else "") + m["DEMO"])
        open(tmp + "/demo.sh", "w").write((m["SH"] or DEMO_SH).replace("@FEAT@", m["FEATURES"]).replace("@DEPS@", m["DEPS"])); os.chmod(tmp + "/demo.sh", 0o755)
        json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(tmp + "/meta.json", "w"), indent=1)
        sh("git checkout -q -- .")
        if base is None: base, bb = tests(); print("baseline tests ok:", len(base), "bad:", bb)
        rc, out = sh("bash %s/demo.sh" % tmp, env={"DEMO_TARGET": "/tmp/seedwt/target/demo-" + i})
        if rc != 0: print(i, "DEMO FAILS ON UNCHANGED TREE", rc, out[-1500:]); continue
        good = True
        for fn, old, new in m["EDITS"]:
            s = open(WT + "/" + fn).read()
            if s.count(old) != 1: print(i, "edit matches", s.count(old), "times:", old[:80]); good = False; break
            open(WT + "/" + fn, "w").write(s.replace(old, new))
        if not good: sh("git checkout -q -- ."); continue
        sh("git diff > %s/patch.diff" % tmp)
        ok, bad = tests()
        if ok is None: print(i, "DOES NOT COMPILE", bad); continue
        miss = base - ok
        if miss: print(i, "TESTS NOTICE:", sorted(miss)[:4]); sh("git checkout -q -- ."); continue
        rc2, out2 = sh("bash %s/demo.sh" % tmp, env={"DEMO_TARGET": "/tmp/seedwt/target/demo-" + i})
        sh("git checkout -q -- .")
        shutil.rmtree("/tmp/seedwt/target/demo-" + i, ignore_errors=True)
        if rc2 == 0: print(i, "DEMO DOES NOT NOTICE"); continue
        if "could not compile" in out2 and not m.get("COMPILE_IS_THE_POINT"): print(i, "DEMO DOES NOT COMPILE WITH CHANGE", out2[-800:]); continue
        shutil.rmtree(d, ignore_errors=True); shutil.move(tmp, d)
        print(i, "confirmed:", out2.strip().splitlines()[-1][:150] if out2.strip() else rc2)
main(sys.argv[1:])
