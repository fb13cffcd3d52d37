"""Regenerate the compiler facts (typed THIR as JSON) of /repo's current tree.

Everything is built into /verif/.cache (ignored by git): the driver (rustc_private, nightly), the dependencies
(crates.io sources from the offline cargo cache; stand-ins from /verif/shims for the four git dependencies that
are not available offline) and the crate under analysis itself, which rustc type-checks afresh on every run
whose sources differ from those of the previous one.
"""
import hashlib, json, os, shutil, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))

class BuildError(Exception):
    pass

def _hash_tree(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode() + b"\0" + open(root, "rb").read())
            continue
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "__pycache__"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def _run(cmd, cwd, env=None, what=""):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed (%s):\n%s" % (what, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def driver():
    key = _hash_tree(os.path.join(VERIF, "driver", "src"), os.path.join(VERIF, "driver", "Cargo.toml"))
    out = os.path.join(CACHE, "driver-%s" % key)
    if not os.path.exists(out):
        td = os.path.join(CACHE, "driver-target")
        _run(["cargo", "+nightly", "build", "--offline", "--target-dir", td], os.path.join(VERIF, "driver"), what="driver build")
        shutil.copy(os.path.join(td, "debug", "factdump"), out + ".tmp")
        os.rename(out + ".tmp", out)
    return out

def _dump(ws, crate, key, extra_src):
    """type-check workspace `ws` with the driver; returns the parsed facts"""
    out = os.path.join(CACHE, "facts", key)
    js = os.path.join(out, "%s.json" % crate)
    if not os.path.exists(js):
        drv = driver()
        os.makedirs(out, exist_ok=True)
        sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
        td = os.path.join(CACHE, "target")
        env = {"LD_LIBRARY_PATH": os.path.join(sysroot, "lib"), "FACTDUMP_OUT": out + ".tmp", "FACTDUMP_CRATES": crate,
               "RUSTC_WORKSPACE_WRAPPER": drv, "RUSTC": os.path.join(VERIF, "tools", "rustcw")}
        shutil.rmtree(out + ".tmp", ignore_errors=True)
        os.makedirs(out + ".tmp")
        # force re-analysis of the crate itself (dependencies stay cached)
        fp = os.path.join(td, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if f.startswith(crate.replace("_", "-") + "-"): shutil.rmtree(os.path.join(fp, f))
        try:
            log = _run(["cargo", "+nightly", "check", "--offline", "--lib", "--target-dir", td], ws, env, "type check of %s" % crate)
        except BuildError as e:
            if not os.path.exists(os.path.join(out + ".tmp", "%s.json" % crate)): raise
            log = str(e)
        if not os.path.exists(os.path.join(out + ".tmp", "%s.json" % crate)):
            raise BuildError("the driver wrote no facts for %s:\n%s" % (crate, log[-3000:]))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(out + ".tmp", out)
    return json.load(open(js))

def _lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def core():
    with _lock():
        ws = os.path.join(CACHE, "ws-core")
        os.makedirs(ws, exist_ok=True)
        toml = open(os.path.join(VERIF, "tools/ws/Cargo.toml.in")).read().replace("@REPO@", REPO).replace("@VERIF@", VERIF)
        _write(os.path.join(ws, "Cargo.toml"), toml)
        if not os.path.exists(os.path.join(ws, "Cargo.lock")):
            shutil.copy(os.path.join(VERIF, "tools/ws/Cargo.lock"), os.path.join(ws, "Cargo.lock"))
        key = "core-" + _hash_tree(os.path.join(REPO, "rust-src/src"), os.path.join(VERIF, "shims"), os.path.join(VERIF, "driver/src"), os.path.join(ws, "Cargo.toml"))
        return _dump(ws, "carmen_core", key, None)

def spec():
    with _lock():
        ws = os.path.join(CACHE, "ws-spec")
        os.makedirs(ws, exist_ok=True)
        toml = open(os.path.join(VERIF, "tools/ws/Cargo.toml.in")).read().replace("@REPO@/rust-src", VERIF + "/spec").replace("@VERIF@", VERIF).replace('name = "carmen-core"', 'name = "carmen-spec"')
        _write(os.path.join(ws, "Cargo.toml"), toml)
        if not os.path.exists(os.path.join(ws, "Cargo.lock")):
            lock = open(os.path.join(VERIF, "tools/ws/Cargo.lock")).read().replace('name = "carmen-core"', 'name = "carmen-spec"')
            _write(os.path.join(ws, "Cargo.lock"), lock)
        key = "spec-" + _hash_tree(os.path.join(VERIF, "spec/src"), os.path.join(VERIF, "shims"), os.path.join(VERIF, "driver/src"))
        return _dump(ws, "carmen_spec", key, None)

def _write(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)

if __name__ == "__main__":
    t = time.time()
    try:
        f = core()
        print(len(f["bodies"]), "bodies", f["failed"], "%.1fs" % (time.time() - t))
    except BuildError as e:
        print(e); sys.exit(2)
