import sys, time
sys.path.insert(0, "/verif")
from sa import facts, ev
from sa.terms import *
def load(spec=False):
    c = ev.Crate(facts.spec() if spec else facts.core())
    ev.declare_types(c)
    return c
if __name__ == "__main__":
    c = load("--spec" in sys.argv)
    pats = [a for a in sys.argv[1:] if not a.startswith("-")]
    tot = bad = 0
    for p, b in c.bodies.items():
        if b["kind"] not in ("Fn", "AssocFn"): continue
        if pats and not any(q in p for q in pats): continue
        tot += 1
        t = time.time()
        try:
            e = ev.Ev(c)
            s = e.run(p)
            dt = time.time() - t
            if "-q" not in sys.argv:
                print("==", p, "%.2fs" % dt, e.notes or ""); print("  ret", show(s.ret, 14)[:3000])
                for k, v in s.outs.items(): print("  out", k, show(v, 14)[:3000])
            elif dt > 1: print("slow", p, "%.1f" % dt)
        except Exception as x:
            bad += 1
            import traceback
            print("!!", p, type(x).__name__, str(x)[:200])
            if "-t" in sys.argv: traceback.print_exc()
    print(tot, "functions", bad, "failed")
