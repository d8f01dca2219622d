"""Builds the MIR dump of /repo's current tree (driver + cargo +nightly check), cached by content hash."""
import os, sys, subprocess, hashlib, json, fcntl, shutil, glob, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD") or os.path.join(VERIF, ".build")
STOPS = ["core::fmt", "std::fmt", "alloc::", "std::io", "std::alloc", "std::vec", "std::string", "std::boxed",
         "core::panicking", "std::panicking", "std::rt", "core::str", "std::str", "chrono::", "serde", "serde_core",
         "num_traits::", "core::hash", "std::hash", "core::ffi", "std::ffi", "core::unicode", "core::char",
         "std::collections", "std::env", "std::time", "std::thread", "std::sync", "std::intrinsics", "core::intrinsics",
         "bitflags::parser", "bitflags::iter"]
FEATURES = {
    "std": [],
    "std_alloc": ["--features", "ublox/alloc"],
    "alloc": ["--no-default-features", "--features", "ublox/alloc"],
    "serde": ["--no-default-features", "--features", "ublox/serde"],
    "core": ["--no-default-features"],
}
class BuildError(Exception): pass

def _sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()

def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]

def src_files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in fs:
            if f.endswith((".rs", ".toml", ".lock", ".md")): out.append(os.path.join(d, f))
    return out

class Lock:
    def __init__(self, name): self.p = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def ensure_driver():
    src = os.path.join(VERIF, "driver/src/main.rs")
    with Lock("driver"):
        h = file_hash([src]); out = os.path.join(BUILD, "driver-" + h)
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, "driver-*")): os.remove(old)
            r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", "-Awarnings", src, "-o", out + ".tmp"],
                               capture_output=True, text=True, cwd=BUILD)
            if r.returncode: raise BuildError("driver build failed:\n" + r.stderr[-4000:])
            os.rename(out + ".tmp", out)
        return out

def cargo_env(driver, outdir, target):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "RUSTUP_TOOLCHAIN"): env.pop(k, None)
    env.update(RUSTC_WORKSPACE_WRAPPER=driver, LD_LIBRARY_PATH=_sysroot() + "/lib", VP_OUT=outdir,
               VP_STOPS=",".join(STOPS), CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true",
               RUSTFLAGS="-Zalways-encode-mir", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    return env

def forget(target):
    """drop the crate's own build products (both of cargo's layouts): file times must not decide what is rebuilt"""
    for pat in ("/.fingerprint/ublox-*", "/.fingerprint/ublox_derive-*", "/build/ublox", "/build/ublox_derive"):
        for fp in glob.glob(target + "/debug" + pat) + glob.glob(target + "/*/debug" + pat): shutil.rmtree(fp)

def dump(feature="std_alloc", extra=()):
    """Returns the path of the JSON dump of crate ublox under the feature set."""
    driver = ensure_driver()
    key = file_hash(src_files(REPO + "/ublox") + src_files(REPO + "/ublox_derive") + [driver] +
                    [p for p in (REPO + "/Cargo.lock", REPO + "/Cargo.toml") if os.path.exists(p)]) + "-" + hashlib.sha256((feature + ",".join(STOPS)).encode()).hexdigest()[:8]
    outdir = os.path.join(BUILD, "dump-" + feature)
    final = os.path.join(outdir, "ublox-" + key + ".json")
    with Lock("dump-" + feature):
        if os.path.exists(final): return final
        os.makedirs(outdir, exist_ok=True)
        for old in glob.glob(outdir + "/*.json*"): os.remove(old)
        target = os.path.join(BUILD, "target-" + feature)
        forget(target)
        env = cargo_env(driver, outdir, target); env["VP_CRATES"] = "ublox"
        lock = ["--locked"] if os.path.exists(REPO + "/Cargo.lock") else []
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", *lock, "-p", "ublox", "--lib", *FEATURES[feature], *extra],
                           cwd=REPO, env=env, capture_output=True, text=True)
        raw = os.path.join(outdir, "ublox.json")
        if r.returncode or not os.path.exists(raw):
            raise BuildError("cargo check (%s) failed:\n%s" % (feature, r.stderr[-6000:]))
        os.rename(raw, final)
        return final

if __name__ == "__main__":
    t = time.time()
    for f in sys.argv[1:] or ["std_alloc"]:
        p = dump(f); print(p, os.path.getsize(p), round(time.time() - t, 1))
