"""Runs the obligations and rules of one property and reports."""
import json, os, sys, time, hashlib, traceback
from . import facts, ev, rules
from .world import World, Missing, Gone
from .terms import show

V = facts.VERIF

def known():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                d = dict(x.split("=", 1) for x in l[7:].split(" :: ")[0].split(" "))
                out.append((d["property"], d["key"], l[7:].split(" :: ", 1)[1] if " :: " in l else ""))
    return out

class Result:
    def __init__(self):
        self.items = []      # (name, key, verdict, why, site)
    def add(self, name, verdict, why="", site="", key=None):
        why = why or ""
        key = key or hashlib.sha256(("%s|%s" % (name, why)).encode()).hexdigest()[:12]
        self.items.append((name, key, verdict, why, site))

def judge(pid, tier, W=None):
    R = Result()
    try:
        W = W or World()
    except facts.BuildError as e:
        R.add("analysable source", "diff", "the source no longer parses or resolves: " + str(e)[-1500:], "rust-src/src/lib.rs", "build")
        return None, R
    W.tier = tier
    W.end = time.monotonic() + 600
    for o in rules.OBS:
        if o.prop != pid or (o.tier == "thorough" and tier != "thorough"): continue
        try:
            for c, v, why in rules.check_ob(W, o):
                R.add("%s[%s]" % (o.name(), c), v, why, o.where)
        except Gone as m:
            R.add(o.name(), "unknown", "%s has another name or signature" % m, o.where)
        except Missing as m:
            if W.broken(str(m)): R.add(o.name(), "unknown", "a body did not type-check against the stand-in dependencies", o.where)
            else: R.add(o.name(), "missing", "entry point %s is gone" % m, o.where)
        except ev.Unsupported as e:
            R.add(o.name(), "unknown", "outside the evaluator: %s" % str(e)[:300], o.where)
        except RecursionError:
            R.add(o.name(), "unknown", "evaluation too deep", o.where)
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            R.add(o.name(), "unknown", "evaluator: %s %s" % (type(e).__name__, str(e)[:200]), o.where)
    for r in rules.RULES:
        if r.prop != pid or (r.tier == "thorough" and tier != "thorough"): continue
        try:
            for name, verdict, why, site in r.fn(W):
                R.add("%s: %s" % (r.name, name), verdict, why, site)
        except Gone as m: R.add(r.name, "unknown", "%s has another name or signature" % m, "")
        except Missing as m:
            if W.broken(str(m)): R.add(r.name, "unknown", "a body did not type-check against the stand-in dependencies", "")
            else: R.add(r.name, "missing", "entry point %s is gone" % m, "")
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            R.add(r.name, "unknown", "analysis: %s %s" % (type(e).__name__, str(e)[:200]), "")
    return W, R

def run(pid, tier, t0):
    W, R = judge(pid, tier)
    man = json.load(open(os.path.join(V, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == pid), "other")
    kf = {(p, k): txt for p, k, txt in known()}
    viol, kn = [], []
    for it in R.items:
        if it[2] in ("diff", "missing"):
            (kn if (pid, it[1]) in kf else viol).append(it)
    if not R.items: viol.append(("obligations", "none", "missing", "no obligation was generated", ""))
    same = [i for i in R.items if i[2] == "same"]
    unk = [i for i in R.items if i[2] == "unknown"]
    cov = {
        "obligations": len(R.items), "discharged": len(same), "refuted": len(viol) + len(kn), "undetermined": len(unk),
        "explanation": "Each obligation compares the canonical value-flow term of an entry point of the current tree with that of the "
                       "reference semantics, or evaluates a structural rule over the type-checked program; 'discharged' are equal for every input, "
                       "'undetermined' are differences the refuter could not turn into a definite disagreement (not alarmed).",
        "rule": "reference equivalence by canonical terms (sa/ev.py, sa/terms.py) refuted only by definite disagreement (sa/refute.py)",
        "checker_cmd": "python3 check.py %s" % pid,
        "trusted_base": ["rustc type checker and THIR lowering", "sa/ev.py models of std and dependency functions", "spec/src reference semantics", "shims/ stand-ins (types only)"],
        "functions_analysed": sorted(W.functions) if W else [],
        "functions_entered": len(W.functions) if W else 0,
        "calls_followed": len(W.calls) if W else 0,
        "call_sites": sorted(W.calls)[:80] if W else [],
        "undetermined_items": [{"name": i[0], "why": i[3][:400]} for i in unk][:50],
        "samples": [{"obligation": i[0], "verdict": i[2], "site": i[4]} for i in R.items[:12]],
    }
    if W and W.core.f.get("failed"): cov["bodies_not_type_checked"] = W.core.f["failed"]
    ev_ = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
           "assumptions": ["Bodies are judged as the functions their canonical terms denote; arithmetic is exact and unsigned/overflow wrap-around is outside the terms unless modelled",
                           "dependencies behave as documented"],
           "wall_s": round(time.time() - t0, 2)}
    if viol: ev_["violations"] = len(viol)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev_, open(os.path.join(V, "evidence", "%s.json" % pid), "w"), indent=1, default=str)
    for i in kn: print("KNOWN-FINDING: property=%s %s %s" % (pid, i[0], kf[(pid, i[1])] or i[3][:200]))
    for i in unk: print("undetermined: %s: %s" % (i[0], i[3][:160]))
    rp = os.path.join(V, "evidence", "%s.replay.txt" % pid)
    if viol:
        with open(rp, "w") as f:
            for i in viol: f.write("obligation: %s\nkey: %s\nsite: %s\nverdict: %s\n%s\n\n" % (i[0], i[1], i[4], i[2], i[3]))
            f.write("replay: cd /verif && python3 check.py %s\n" % pid)
        for i in viol[:12]: print("  %s at %s: %s" % (i[0], i[4], i[3][:500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp): os.unlink(rp)
    print("OK property=%s obligations=%d discharged=%d undetermined=%d (%.1fs)" % (pid, len(R.items), len(same), len(unk), time.time() - t0))
    return 0
