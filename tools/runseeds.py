"""Development aid: apply each seeded bug to a scratch copy and list which properties' checks report it.
usage: runseeds.py [id...]"""
import os, sys, subprocess, json, shutil, glob
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
sel = sys.argv[1:]
props = {}
def one(s):
    d = "/tmp/rs/%s" % s; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a"] + ["/repo/" + x for x in ("rust-src", "native", "index.js", "package.json")] + [d], check=True)
    subprocess.run(["git", "init", "-q"], cwd=d)
    subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % s], cwd=d, check=True)
    meta = json.load(open(V + "/seeded/%s/meta.json" % s))
    r = subprocess.run([sys.executable, V + "/sa/tob.py", "-p"], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(d)
    o = r.stdout.decode()
    viol = sorted({l.split()[1] for l in o.splitlines() if l.startswith("VIOL ")})
    undet = sorted({l.split()[1] for l in o.splitlines() if l.startswith("UNDET ")})
    return s, meta["property"], viol, undet, o
todo = [s for s in sorted(os.listdir(V + "/seeded")) if not sel or s in sel]
with ThreadPoolExecutor(4) as ex:
    for s, p, viol, undet, o in ex.map(one, todo):
        print("%-28s %-4s %s  viol=%s undet=%s" % (s, p, "caught" if p in viol else "MISSED", ",".join(viol), ",".join(undet)))
        if p not in viol: print("\n".join(l[:300] for l in o.splitlines() if l.startswith(("UNDET", "ERR")))[:1500])
        sys.stdout.flush()
