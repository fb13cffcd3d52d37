import os
import sys, time
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))))
from sa.world import *
from sa import rules
from sa.terms import *
if __name__ == "__main__":
    if "-p" in sys.argv:
        # per property, as the checks report it
        from sa import runner
        W = None; sel = [a for a in sys.argv[1:] if not a.startswith("-")]
        try: W = World()
        except Exception as e: print("ERR", str(e)[-600:])
        for pid in sorted({x for o in rules.OBS + rules.RULES for x in [o.prop]}):
            if sel and pid not in sel: continue
            _, R = runner.judge(pid, "thorough", W)
            for n, k, v, why, site in R.items:
                if v in ("diff", "missing"): print("VIOL", pid, n, (why or "")[:300].replace("\n", " "))
                elif v != "same": print("UNDET", pid, n, (why or "")[:300].replace("\n", " "))
        sys.exit(0)
    W = World()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    for o in rules.OBS:
        if args and not any(a in o.prop or a in o.spec for a in args): continue
        t = time.time()
        try:
            r = rules.check_ob(W, o)
        except Gone as m: r = [("?", "gone", str(m))]
        except Missing as m: r = [("?", "missing", str(m))]
        except ev.Unsupported as m: r = [("?", "unsupported", str(m))]
        for c, v, why in r:
            if v != "same" or "-v" in sys.argv: print(o.prop, o.spec, c, v, (why or "")[:int(os.environ.get("WIDTH", "400"))], "%.2fs" % (time.time() - t))
    print(len(rules.OBS), "obligations")
