"""Builds /verif/seeded/<id>/ from tools/seeds*.py: each seed is an edit of /repo that breaks a property, with a demonstration.
usage: mkseed.py [id...]       verifies that the demonstration passes before and fails after, then writes the folder"""
import os, sys, shutil, subprocess, json, runpy, tempfile, glob
V, REPO = "/verif", "/repo"
SEEDS = []
def seed(id, prop, edits, kind, demo, needs, breaks):
    SEEDS.append((id, prop, edits, kind, demo, needs, breaks))

SH_HEAD = """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$t/target" CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=-Awarnings TMPDIR="$t"
mkdir -p "$t/d/src"
"""
SH = {
"fmt": SH_HEAD + """sed -e "s#@REPO@#$repo#g" "$here/main.rs" > "$t/d/src/main.rs"
printf '[package]\\nname = "d"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\ninteger-encoding = "1.0"\\n[workspace]\\n' > "$t/d/Cargo.toml"
cd "$t/d" && cargo build -q --offline || exit 2
"$t/target/debug/d"
""",
"lib": SH_HEAD + """cp -r "$here/kit/shims" "$t/shims"
mkdir -p "$t/core"
sed -e "s#@REPO@#$repo#g" -e "s#@VERIF@#$t#g" "$here/kit/Cargo.toml.in" > "$t/core/Cargo.toml"
sed -e "s#@REPO@#$repo#g" "$here/main.rs" > "$t/d/src/main.rs"
printf '[package]\\nname = "d"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\ncarmen-core = { path = "%s" }\\ntempfile = "3.0"\\nfixedbitset = "0.3.0"\\nserde_json = "1.0"\\n[workspace]\\n' "$t/core" > "$t/d/Cargo.toml"
cp "$here/kit/Cargo.lock" "$t/d/Cargo.lock"
cd "$t/d" && cargo build -q --offline || exit 2
"$t/target/debug/d"
""",
"js": SH_HEAD + """cd "$repo" && node "$here/demo.js"
""",
}
FMT_PRE = """#![allow(dead_code, unused_imports)]
#[path = "@REPO@/rust-src/src/gridstore/gridstore_format.rs"]
mod f;
use f::*;
"""
LIB_PRE = open(os.path.join(V, "tools", "demo_prelude.rs")).read() if os.path.exists(os.path.join(V, "tools", "demo_prelude.rs")) else ""

def run_demo(d, repo):
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors="replace")

def make(s):
    id, prop, edits, kind, demo, needs, breaks = s
    scratch = tempfile.mkdtemp(prefix="seed_")
    try:
        wt = os.path.join(scratch, "repo")
        subprocess.run(["git", "clone", "-q", REPO, wt], check=True)
        d = os.path.join(scratch, "out"); os.makedirs(d)
        if kind == "js":
            open(os.path.join(d, "demo.js"), "w").write(demo)
        else:
            open(os.path.join(d, "main.rs"), "w").write((FMT_PRE if kind == "fmt" else LIB_PRE) + demo)
        if kind == "lib":
            k = os.path.join(d, "kit"); os.makedirs(k)
            shutil.copytree(V + "/shims", k + "/shims", ignore=shutil.ignore_patterns("target"))
            shutil.copy(V + "/tools/ws/Cargo.toml.in", k)
            shutil.copy(V + "/tools/ws/demo.lock", k + "/Cargo.lock")
        open(os.path.join(d, "demo.sh"), "w").write(SH[kind]); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc0, o0 = run_demo(d, wt)
        if rc0 != 0: return id, "BAD: fails on the unchanged tree (%d)\n%s" % (rc0, o0[-1500:])
        for f, o, n in edits:
            p = os.path.join(wt, f); t = open(p).read()
            if t.count(o) < 1: return id, "BAD: no match for %r" % o[:60]
            if t.count(o) > 1: return id, "BAD: %d matches for %r" % (t.count(o), o[:60])
            open(p, "w").write(t.replace(o, n))
        diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout.decode()
        rc1, o1 = run_demo(d, wt)
        if rc1 in (0, 2): return id, "BAD: exits %d with the change\n%s" % (rc1, o1[-1500:])
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        dst = os.path.join(V, "seeded", id)
        if os.path.exists(dst): shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return id, "ok   " + o1.strip().splitlines()[-1][:120] if o1.strip() else "ok"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds*.py"))): runpy.run_path(f, {"seed": seed})
    sel = sys.argv[1:]
    with ThreadPoolExecutor(4) as ex:
        for id, r in ex.map(make, [s for s in SEEDS if (not sel and not os.path.exists(V + "/seeded/" + s[0])) or s[0] in sel or any(x.endswith("*") and s[0].startswith(x[:-1]) for x in sel)]):
            print(id, r); sys.stdout.flush()
