"""Development aid: apply small edits to a scratch copy of the repository and show what the rules say.
usage: mut.py LISTFILE [name...]   (LISTFILE defines MUTS = [(name, expect, file, old, new), ...]; expect: 'bug' | 'ok')"""
import os, sys, shutil, subprocess, json, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(m):
    name, expect, file, old, new = m[:5]
    d = "/tmp/mut/%s" % name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo/rust-src", "/repo/native", "/repo/index.js", "/repo/package.json", d], check=True)
    edits = [(file, old, new)] + list(m[5:])
    for f, o, n in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(o) < 1: return name, expect, "NOMATCH %r" % o
        s = s.replace(o, n, 1)
        open(p, "w").write(s)
    r = subprocess.run([sys.executable, V + "/sa/tob.py"] + FILTER, env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1800)
    shutil.rmtree(d)
    return name, expect, r.stdout.decode()
if __name__ == "__main__":
    g = runpy.run_path(sys.argv[1])
    FILTER = g.get("FILTER", [])
    sel = sys.argv[2:]
    ms = [m for m in g["MUTS"] if not sel or m[0] in sel]
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for name, expect, out in ex.map(one, ms):
            lines = out.strip().splitlines()
            diff = [l for l in lines if " diff " in l or " missing " in l or "VIOL" in l]
            other = [l for l in lines if l not in diff]
            got = "bug" if diff else "ok" if len(other) == 1 and "obligations" in other[0] else "unk"
            flag = "" if got == expect else "  <<<<<<" if (expect, got) != ("ok", "unk") else "  (undetermined)"
            print("%-30s expect %-4s got %-4s%s" % (name, expect, got, flag))
            for l in (diff or other)[: (0 if got == expect else 1)]: print("      ", l[:150])
            sys.stdout.flush()
