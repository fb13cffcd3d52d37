"""Obligations: what each property requires, as comparisons of canonical terms, and the rules that are not comparisons."""
from .world import *
from . import ev, lib
from .refute import Diff

class Ob:
    """one obligation: the named reference function against an observation of the real code"""
    def __init__(self, prop, spec, impl, comps=("ret",), where=None, tag="", tier="quick"):
        self.prop, self.spec, self.impl, self.comps, self.where, self.tag, self.tier = prop, spec, impl, comps, where, tag, tier
        self.whole = True
    def name(self): return self.spec + ("/" + self.tag if self.tag else "")

class Rule:
    """a rule over the type-checked program: fn(W) yields (instance, verdict, why, site)"""
    def __init__(self, prop, name, fn, tier="quick"):
        self.prop, self.name, self.fn, self.tier = prop, name, fn, tier

OBS = []
RULES = []
def plist(p): return [p] if isinstance(p, str) else list(p)
def ob(prop, spec, comps=("ret",), where=None, tag="", tier="quick", sbounds=(), modulo=()):
    def deco(f):
        for p in plist(prop):
            o = Ob(p, spec, f, comps, where, tag, tier); o.sbounds = sbounds; o.modulo = modulo; OBS.append(o)
        return f
    return deco

class Part:
    """A function proved equal to its reference by its own obligation; callers are compared with both left uninterpreted.

    `args(W, *reference arguments)` gives the arguments the code passes for them."""
    def __init__(self, spec, core, args=None): self.spec, self.core, self.args = spec, core, args
PARTS = {}
def part(spec, core, args=None): PARTS[spec] = Part(spec, core, args); return spec

def align(W, t, names, spec):
    """calls of reference functions and of their counterparts under one name"""
    if not names: return t
    by = {}
    for n in names: by[W.canon(n if spec else PARTS[n].core, spec)] = PARTS[n]
    for _ in range(6):
        m = {}
        for x in subterms(t):
            if x.op in ("call", "out") and x.args[0] in by:
                P = by[x.args[0]]
                k = 1 if x.op == "call" else 2
                if any(y is not x and y.op in ("call", "out") and y.args[0] in by for a in x.args[k:] for y in subterms(a)): continue
                a = list(x.args[k:])
                if P.args and spec: a = P.args(W, *a)
                m[x] = typed(mk(x.op, "=" + P.spec, *x.args[1:k], *a), x.ty)
        if not m: return t
        t = substitute(t, m)
    return t
def rule(prop, name, tier="quick"):
    def deco(f):
        for p in plist(prop): RULES.append(Rule(p, name, f, tier))
        return f
    return deco

def check_ob(W, o):
    """-> list of (component, verdict, why)"""
    key = (o.spec, o.impl, o.comps)
    memo = W.__dict__.setdefault("obmemo", {})
    if key in memo: return memo[key]
    out = []
    import time
    if W.__dict__.get("end"): ev.DEADLINE[0] = min(W.end, time.monotonic() + 150)
    if o.modulo:
        # callees with an obligation of their own stay uninterpreted, provided that obligation holds
        ok, mod = True, []
        def take(n):
            nonlocal ok
            qs = [q for q in OBS if q.spec == n]
            try:
                W.canon(PARTS[n].core)
                ok = ok and all(v == "same" for q in qs if q.spec != o.spec for _, v, _ in check_ob(W, q))   # a function calling itself: by induction on the calls
                mod.append(n)
            except Gone:
                for q in qs:
                    for m in q.modulo: take(m)
        for n in o.modulo: take(n)
        out = compare_ob(W, o, mod)
        if not ok or any(v != "same" for _, v, _ in out):
            full = inlined(W, o)        # with the callees taken apart: callees that changed together with this function
            bad = []
            for n in o.modulo:
                for q in OBS:
                    if q.spec == n and q.spec != o.spec:
                        bad += ["through %s: %s" % (n, why) for _, v, why in W.obmemo.get((q.spec, q.impl, q.comps), ()) if v == "diff"]
            def verdict(c, v, why):
                if full.get(c) == "same": return c, "same", ""
                if ok: return c, v, why
                # a callee is not its reference: what was found with callees left uninterpreted says nothing by itself
                return (c, "diff", bad[0]) if bad else (c, "unknown", why if v == "unknown" else "a callee is not shown equal to its reference")
            out = [verdict(*x) for x in out]
    else: out = compare_ob(W, o, ())
    memo[key] = out
    return out

def inlined(W, o, seconds=25):
    """verdicts with nothing left uninterpreted, as far as a short time takes"""
    import time
    old = ev.DEADLINE[0]
    ev.DEADLINE[0] = min(old, time.monotonic() + seconds)
    try: return {c: v for c, v, _ in compare_ob(W, o, ())} if o.whole else {}
    except (ev.Unsupported, RecursionError): return {}
    finally: ev.DEADLINE[0] = old

def compare_ob(W, o, modulo):
    out = compare_as(W, o, modulo, o.comps, Diff.compare)
    left = tuple(c for c, v, _ in out if v == "unknown")
    if left:
        # once more with carried values listed by the names of their variables: where these agree, a single cause is seen more easily
        lib.BYNAME[0] = True
        try: more = {c: (c, v, why) for c, v, why in compare_as(W, o, modulo, left, Diff.compare_cause) if v == "diff"}
        except (ev.Unsupported, RecursionError): more = {}
        finally: lib.BYNAME[0] = False
        out = [more.get(x[0], x) for x in out]
    return out

def compare_as(W, o, modulo, comps, how):
    out = []
    s = W.call(o.spec, spec=True, bounds=tuple(o.sbounds) + tuple(W.canon(n, True) for n in modulo))
    args = W.params(o.spec)
    W.gs, W.alive, W.private = [], set(), False
    W.bounds = tuple(W.canon(PARTS[n].core) for n in modulo)
    try: got = o.impl(W, *args)
    finally: W.bounds = ()
    if not isinstance(got, dict): got = {"ret": got}
    d = Diff()
    d.alive = [align(W, c, modulo, True) for c in s.alive] + [align(W, c, modulo, False) for c in W.alive]
    for c in comps:
        ref = s.ret if c == "ret" else s.io if c == "io" else s.outs[int(c)]
        v, why = how(d, align(W, ref, modulo, True), align(W, got[c], modulo, False), assume=And(s.g, *W.gs))
        out.append((c, v, why))
    # where the reference returns, so does the code (debug_assert! aside)
    gs = [align(W, g, modulo, False) for g in W.gs]
    may = align(W, s.g, modulo, True)
    left = restrict(And(*gs), may) if may is not FALSE and how == Diff.compare else TRUE
    if W.private: left = beyond_callers(left)
    if left is not TRUE:
        e = Diff()
        for c in o.comps: e.voc |= e.symbols(align(W, s.ret if c == "ret" else s.io if c == "io" else s.outs[int(c)], modulo, True))
        e.voc |= e.symbols(may)
        v, why = e.compare(TRUE, left, assume=may)
        if v == "diff" and not any(reads_there(left, x) for x in [restrict(align(W, x, modulo, True), Not(left)) for x in [s.ret, s.io] + list(s.outs.values())]):
            out.append(("panic", v, "panics where the reference returns: %s" % why))
    return out
def beyond_callers(t):
    """guard t of an internal function, taken to hold where it hangs on the shape of the arguments alone: callers see to that"""
    def plain(a): return all(y.op in ("ite", "le", "lt_", "is", "num", "poly", "len", "sym", "field", "payload") for y in subterms(a) if isinstance(y, T))
    def go(t, free):
        if t is FALSE: return TRUE if free else FALSE
        if t.op != "ite": return t
        a = atom(t.args[0])
        f = free or plain(t.args[0])
        return Or(And(a, go(t.args[1], f)), And(Not(a), go(t.args[2], f)))
    return go(t, False)
def reads_there(left, t):
    """does t, a result of the reference, read something whose presence `left` is about?"""
    lens = {y.args[0] for y in subterms(left) if y.op == "len"} | {y.args[0] for y in subterms(left) if y.op == "is"}
    return any(y.op in ("index", "payload", "slice") and y.args[0] in lens for y in subterms(t))
from . import rules_format, rules_common, rules_builder, rules_store, rules_stack, rules_coalesce
