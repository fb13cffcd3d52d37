"""Deciding that two canonical terms are different functions of their inputs.

`Diff().compare(a, b)` answers ("same"|"diff"|"unknown", explanation). Two distinct canonical forms are only called
different when the difference is exhibited in vocabulary whose meaning is fixed: different variants, different
input projections, different fields of the byte layout, comparator diagrams that order some pair differently, or
numeric terms whose value ranges are disjoint on a feasible cell of the partition induced by the constants.
Everything that involves a construct the evaluator left uninterpreted is "unknown".
"""
from fractions import Fraction
import itertools, math, time
from .terms import *
from . import terms as TM
from . import lib

OPAQUE = {"opaque", "unfold", "unreached", "closure", "noval", "apply", "collect", "groupby", "litother", "transpose",
          "setfield", "setpayload", "mutiter", "mutvals", "mutenum", "lambda", "lparam", "fnref", "fn", "cparam", "call", "out",
          "loopfix", "loopout", "loopret", "loopval", "fold", "folds", "first", "firstis", "until", "any", "default", "static",
          "zip", "enum", "stepby", "takewhile", "skipwhile", "natural", "pair", "constpat", "divzero", "fmod", "unique", "deref", "heapcleared"}
NUMERIC = {"num", "poly", "idiv", "imod", "band", "bor", "bxor", "pow2", "toint", "ceil", "floor", "sqrt", "pow", "wrap", "ite", "abs"}
# functions of the arguments that tell different arguments apart
FAITHFUL = {"leint", "hins", "hdel", "hget", "hset", "hseq", "heapnew", "bytes", "vdec", "vdeclen", "varint", "varlen", "slice", "drop", "take", "index", "mget", "has", "sort", "dedup", "kmerge", "runs",
            "rev", "sum", "maxof", "minof", "call", "out", "overlay", "arr", "one", "fold", "folds", "scanseq", "ins", "field", "payload", "len", "range",
            "sqrt", "pow", "toint", "ceil", "floor", "pow2", "idiv", "imod", "band", "bor", "first", "any", "until", "skipwhile", "takewhile", "seqset", "mapdel", "maxby", "minby", "str", "sym", "firstis", "loopfix", "loopout", "loopret", "loopval", "is", "eq", "less", "wrap"}

class Late(Exception): pass

def closed(c):
    """what a condition says about the inputs alone (tests on elements of a sequence quantified away)"""
    for _ in range(60):
        bad = next((y for y in subterms(c) if y.op == "ite" and any(z.op in ("pos", "acc", "lparam", "cmpA", "cmpB") for z in subterms(y.args[0]))), None)
        if bad is None: return c
        a = bad.args[0]
        c = Or(TM.cof(c, a, False), TM.cof(c, a, True))
    return TRUE

class Diff:
    loose = False
    def __init__(self, budget=150_000_000):
        self.memo = {}
        self.mays = {}
        self.alive = ()      # conditions on loop state under which neither side panics
        self.voc = set()
        self.budget = budget
        self.end = None
        self.depth = 0

    # ---------------------------------------------------------- entry
    def compare(self, ref, got, path=(), assume=TRUE):
        """compared only where `assume` holds (neither side panics)"""
        if ref is got: return "same", None
        self.voc |= self.symbols(ref)
        loose = closed(assume)
        ref0, got0 = (TM.ite(loose, ref, BOTTOM), TM.ite(loose, got, BOTTOM)) if loose is not TRUE else (ref, got)
        self.refsub = set(subterms(ref)); self.gotsub = set(subterms(got))
        if assume is not TRUE:
            s = set(subterms(assume)); self.refsub |= s; self.gotsub |= s
        if assume is not TRUE:
            if assume is FALSE: return "unknown", "never returns"
            ref, got = TM.ite(assume, ref, BOTTOM), TM.ite(assume, got, BOTTOM)
            if ref is got: return "same", None
        r = self.timed(lambda: self.cmp(ref, got, path)) or ("unknown", "time")
        if r[0] == "unknown":
            e = self.errors(ref, got)
            if e: return "diff", e
            e = self.timed(lambda: self.reads(ref0, got0, path), 20)
            if e: return "diff", e
            e = self.timed(lambda: self.explain(ref, got))
            if e: return "diff", e
            e = self.timed(lambda: self.cause(ref0, got0), 60)
            if e: return "diff", e
        return r

    def compare_cause(self, ref, got, assume=TRUE):
        """a single cause of the difference, or nothing"""
        if ref is got: return "unknown", None
        self.voc |= self.symbols(ref)
        loose = closed(assume)
        if loose is not TRUE: ref, got = TM.ite(loose, ref, BOTTOM), TM.ite(loose, got, BOTTOM)
        self.refsub = set(subterms(ref)); self.gotsub = set(subterms(got))
        e = self.timed(lambda: self.cause(ref, got), 60)
        return ("diff", e) if e else ("unknown", None)

    def timed(self, f, limit=45):
        self.end = PAIREND[0] = time.monotonic() + limit
        self.depth = 0
        try: return f()
        except Late:
            self.memo = {k: v for k, v in self.memo.items() if v[1] != "recursion"}
            return None
        finally: self.end = PAIREND[0] = None

    def tick(self):
        if self.end and time.monotonic() > self.end: raise Late()

    def reads(self, ref, got, path):
        """what is asked of the database"""
        def q(t): return {y for y in subterms(t) if y.op == "call" and isinstance(y.args[0], str) and y.args[0].startswith("DB::")}
        a, b = q(ref), q(got)
        if len(a) != 1 or len(b) != 1 or a == b: return None
        x, y = next(iter(a)), next(iter(b))
        if x.args[0] != y.args[0] or len(x.args) != len(y.args): return None
        for p, r in zip(x.args[1:], y.args[1:]):
            v, why = self.cmp(p, r, path)
            if v == "diff": return "%s is asked for something else: %s" % (x.args[0], why)
        return None

    def heap(self, x, y, path):
        """priority queues built from the same queue"""
        OPS = ("hins", "hdel", "hset")
        if x.op == y.op == "hins":
            if x.args[0] is y.args[0]: return self.cmp(x.args[1], y.args[1], path)
            if x.args[1] is y.args[1]: return self.cmp(x.args[0], y.args[0], path)
        if x.op == y.op == "hdel":
            if x.args[0] is y.args[0]: return self.feas(path, "drops the %s of the queue, not the %s" % (y.args[1], x.args[1]))
            if x.args[1] == y.args[1]: return self.cmp(x.args[0], y.args[0], path)
        if x.op == y.op == "hset" and x.args[:2] == y.args[:2]: return self.cmp(x.args[2], y.args[2], path)
        def base(t):
            """(queue it started from, terms put in, fewest and most elements gained)"""
            if t.op == "ite":
                (a, n, l, h), (b, m, k, g) = base(t.args[1]), base(t.args[2])
                return (a if a is b else None), n + m, min(l, k), max(h, g)
            if t.op not in OPS: return t, [], 0, 0
            a, n, l, h = base(t.args[0])
            d = 1 if t.op == "hins" else -1 if t.op == "hdel" else 0
            return a, n + ([t.args[-1]] if t.op != "hdel" else []), l + d, h + d
        (a, p, lp, hp), (b, q, lq, hq) = base(x), base(y)
        if a is None or a is not b: return None
        if hp < lq or hq < lp: return self.feas(path, "a queue with another number of elements")
        for l, m in ((p, q), (q, p)):
            new = l
            if new and not m and all(not free(v, a) for v in new):
                return self.feas(path, "the queue %s" % ("is not updated" if l is p else "is updated"))
        return None

    def errors(self, ref, got):
        """an error the reference reports and the code can no longer make"""
        if any(y.op in ("unreached", "opaque", "noval", "bottom") for y in subterms(got)): return None
        def kinds(t): return {(y.args[0], y.args[1]) for y in subterms(t) if y.op == "adt" and isinstance(y.args[0], str) and y.args[0].endswith("Error")}
        kr, kg = kinds(ref), kinds(got)
        if not kr or {t for t, _ in kr} != {t for t, _ in kg}: return None
        gone = sorted(kr - kg)
        return "never fails with %s" % "::".join(gone[0]) if gone else None

    # ---------------------------------------------------------- one cause
    def explain(self, x, y):
        """the two terms agree but for one subexpression, and that one definitely differs"""
        self.tries = 0
        for p, q, path in self.chain(x, y, ()):
            if not (self.known(p) and self.known(q)): continue
            if not self.consistent(path): continue
            v, why = self.cmp(p, q, path)
            if v == "diff": return why
        return None

    def resorted(self, u, v):
        """v is u with one order of a sort exchanged for another, and the sorted sequence is laid out in the result"""
        su = {t for t in subterms(u) if t.op == "sort"}; sv = {t for t in subterms(v) if t.op == "sort"}
        for s in su - sv:
            for t in sv - su:
                if s.args[0] is not t.args[0] or s.args[1] is t.args[1] or substitute(u, {s: t}) is not v: continue
                if sorted_source(s.args[0]) or not laid_out(u, s): continue
                self.loose = True
                try: w, why = self.cmp(s.args[1], t.args[1], ())
                finally: self.loose = False
                if w == "diff": return "sorted in another order: %s" % why
        return None

    def cause(self, x, y):
        """y is x with one test (or one value) exchanged wherever it occurs, and the exchange shows"""
        w = self.resorted(x, y)
        if w: return w
        for u, v in ((x, y), (y, x)):
            A, P, ux = split(u, v)
            B, Q, uy = split(v, u)
            if DEBUG: print("CAUSE", len(A), len(B), len(P), len(Q), [show(t, 4)[:90] for t in A[:6]], [show(t, 4)[:90] for t in B[:6]], [show(t, 4)[:90] for t in P[:6]], [show(t, 4)[:90] for t in Q[:6]])
            if len(A) > 16 or len(B) > 16 or len(P) > 12 or len(Q) > 12: continue
            w = None
            if not A and not B: w = self.local(u, v)
            if w is None: w = self.stuck(u, v, P)
            if w: return w
            n = 0
            for m, leaf in self.swaps(A, P, B, Q, ux, uy):
                self.tick()
                n += 1
                if n > 60: break
                try: ok = self.arrives(u, v, m, 3)
                except (RecursionError, AssertionError): ok = False
                if not ok: continue
                if DEBUG: print("EXCHANGE", [(show(a, 5)[:200], show(b, 5)[:200]) for a, b in m.items()])
                if leaf:
                    p, q = next(iter(m.items()))
                    if not (self.known(p) and self.known(q)): continue
                    self.loose = True
                    try: w, why = self.cmp(p, q, ())
                    finally: self.loose = False
                    if DEBUG: print("LEAF", w, str(why)[:200])
                    if w == "diff": return why
                else:
                    w = self.shows(u, m)
                    if w: return w
        return None

    def swaps(self, A, P, B, Q, ux, uy):
        """ways to exchange something of one side for something of the other"""
        both = lambda bs: [w for b in bs for w in (TM.atom(b), Not(TM.atom(b)))]
        if A:
            if not B:
                for val in (TRUE, FALSE): yield {a: val for a in A}, False
            if B:
                # the same test, read at several points
                for a in A[:3]:
                    for b in B[:6]:
                        f = like(a, b)
                        if f:
                            m = {x: f(x) for x in A}
                            if all(m.values()): yield {x: TM.atom(w) for x, w in m.items()}, False
                subs = {t: set(subterms(t)) for t in A + B}
                for neg in (False, True):
                    m = {}
                    for a in A:
                        b = max(B, key=lambda b: (len(subs[a] & subs[b]), -b.id))
                        m[a] = Not(TM.atom(b)) if neg else TM.atom(b)
                    yield m, False
            if len(A) <= 3 and len(B) <= 3:
                one = [TRUE, FALSE] + both(B)
                for ws in itertools.islice(itertools.product(one, repeat=len(A)), 64):
                    if len(set(ws)) > 1 or len(A) == 1: yield dict(zip(A, ws)), False
            if len(A) == 1 and len(B) == 2:
                c, d = (TM.atom(b) for b in B)
                for e in (c, Not(c)):
                    for f in (d, Not(d)): yield {A[0]: And(e, f)}, False
                    for f in (d, Not(d)): yield {A[0]: Or(e, f)}, False
        if P or Q:
            if P and Q and not A and not B:
                for p in P[:4]:
                    for q in Q[:4]:
                        if p.op in ("acc", "pos") or q.op in ("acc", "pos"): continue
                        yield {p: q}, True
                if len(P) == len(Q) <= 6:
                    subs = {t: set(subterms(t)) for t in P + Q}
                    m = {p: max(Q, key=lambda q: (len(subs[p] & subs[q]), -q.id)) for p in P}
                    if len(set(m.values())) == len(m): yield m, True
            # the value is exchanged for one that occurs elsewhere too: seen in what is built from it
            for top, low, flip in ((ux, Q + B, False), (uy, P + A, True)):
                for q in low[:4]:
                    for t in sorted((t for t in top if t.op == q.op and t is not q and t.op not in ("ite", "poly") and len(t.args) == len(q.args)), key=lambda t: t.id)[:40]:
                        ps = {}
                        if not pairs(t, q, ps, 4): continue
                        m = {b: a for a, b in ps.items()} if flip else ps
                        if len(m) == len(ps) and all(a.op not in ("acc", "pos", "num") and b.op not in ("acc", "pos") for a, b in m.items()): yield m, True

    def arrives(self, u, v, m, more):
        """does exchanging m everywhere (and the same test or value where it is read again later) turn u into v?"""
        z = swap(u, m)
        if z is v: return True
        if z is u: return False
        w = prune(z)
        if w is v: return True
        if not more: return False
        z = w
        self.tick()
        A, P, _ = split(z, v)
        B, Q, _ = split(v, z)
        if len(A) > 16 or len(B) > 16 or not A and not P: return False
        nxt = {}
        for a in A:
            like_a = [p for p in m if skel(p) == skel(a)]
            if not like_a: return False
            r = m[like_a[0]]
            if r in (TRUE, FALSE): nxt[a] = r; continue
            if r.op != "ite": return False
            b, neg = r.args[0], r.args[1] is FALSE
            f = like(like_a[0], b)
            t = f(a) if f else None
            if t is None: t = next((x for x in B if skel(x) == skel(b)), None)
            if t is None: return False
            nxt[a] = Not(TM.atom(t)) if neg else TM.atom(t)
        if not A:
            for p in P:
                like_p = [x for x in m if skel(x) == skel(p)]
                if not like_p: continue
                t = next((x for x in Q if skel(x) == skel(m[like_p[0]])), None)
                if t is not None: nxt[p] = t
        return bool(nxt) and self.arrives(z, v, nxt, more - 1)

    def shows(self, x, m):
        """a place in x where the exchanged test decides between two things that differ"""
        memo = {}
        def has(t):
            r = memo.get(t)
            if r is None:
                memo[t] = False
                r = memo[t] = t in m or any(has(k) if isinstance(k, T) else isinstance(k, tuple) and any(isinstance(z, T) and has(z) for z in k) for k in t.args)
            return r
        limits = bounds_of(x)
        plain = not any(a.op in ("has", "is") or any(y.op in ("len", "has") for y in subterms(a)) for a in m)
        st, seen, n = [(x, ())], {}, 0
        while st:
            t, path = st.pop()
            if not has(t): continue
            if seen.get(t, 0) > (3 if t.op == "ite" else 0): continue
            seen[t] = seen.get(t, 0) + 1
            if t.op != "ite":
                b = TM.BINDS.get(t.op, ())
                for i, k in enumerate(t.args):
                    pp = tuple((a, v) for a, v in path if not any(z.op in ("pos", "acc") for z in subterms(a))) if i in b else path
                    if isinstance(k, T): st.append((k, pp))
                    elif isinstance(k, tuple): st += [(z, pp) for z in kids_of(k)]
                continue
            a, h, l = t.args
            for k in kids(a): st.append((k, path))
            st += [(h, path + ((a, True),)), (l, path + ((a, False),))]
            if a not in m: continue
            n += 1
            if n > 60: return None
            self.tick()
            r = m[a]
            if r in (TRUE, FALSE) and self.guarded(a, path): continue
            for va in (True, False):
                for cube in itertools.islice(cubes(r, not va), 6):
                    p = path + ((a, va),) + cube
                    if not (self.known(h) and self.known(l)) or not self.consistent(p + within(p, limits)): continue
                    self.loose = plain
                    try: v, why = self.cmp(h, l, p) if va else self.cmp(l, h, p)
                    finally: self.loose = False
                    if DEBUG: print("SITE", va, show(h, 3)[:200], "|", show(l, 3)[:200], v, str(why)[:300])
                    if v == "diff": return why
        return None

    def local(self, u, v, whole=None):
        """the same tests and values put together differently"""
        whole = whole or u
        us, vs = set(subterms(u)), set(subterms(v))
        inner = lambda a, b: sorted((t for t in a - b if t.op in LOOPS and t is not u and t is not v), key=lambda t: t.id)[:4]
        for X in inner(us, vs):
            for Y in inner(vs, us):
                if X.op != Y.op or len(X.args) != len(Y.args): continue
                try: z = prune(substitute(u, {X: Y}))
                except Exception: continue
                if DEBUG: print("LOCALLOOP", z is v)
                if z is v: return self.local(X, Y, whole)
        ps = {}
        PAIRPATH.clear()
        if not pairs(u, v, ps, 14) or not ps: return None
        limits = bounds_of(u)
        if DEBUG: print("LOCAL", [(show(a, 3)[:80], show(b, 3)[:80]) for a, b in ps.items()][:6], len(ps))
        if not all(a.op == "ite" or b.op == "ite" for a, b in ps.items()): return None
        def walk(p, q, path, n):
            """the first place where two diagrams come apart for good"""
            if p is q: return None
            self.tick()
            a, b = TM.top(p), TM.top(q)
            if a is None and b is None:
                extra = within(path, limits)
                if any(x.op == "has" and any(z.op == "acc" for z in subterms(x.args[0])) for x, _ in path):
                    extra = at_start(whole, path)
                    if extra is None: return None
                if not (self.known(p) and self.known(q)) or not self.consistent(path + extra): return None
                r, why = self.cmp(p, q, path)
                return why if r == "diff" else None
            if n == 0: return None
            t = a if b is None or a is not None and TM.atom_key(a) <= TM.atom_key(b) else b
            for val in (True, False):
                pp = path + ((t, val),)
                w = walk(TM.cof(p, t, val), TM.cof(q, t, val), pp, n - 1) if self.consistent(pp) else None
                if w: return w
            return None
        for p, q in ps.items():
            w = walk(p, q, PAIRPATH.get((p, q), ()), 14)
            if w: return w
        return None

    def stuck(self, u, v, P):
        """a carried value of one side that the other side never moves from where it starts"""
        for p in P:
            if p.op != "acc" or not isinstance(p.args[1], str): continue
            for L in subterms(u):
                if L.op not in lib.LOOPSTATE or not tagged(L) or p.args[1] not in L.args[-1] or lib.own_level(L) != p.args[0]: continue
                i = L.args[-1].index(p.args[1])
                init, step = L.args[1][i], L.args[2][i]
                try: z = substitute(u, {p: init})
                except Exception: continue
                z = prune(z)
                if DEBUG: print("STUCK", show(p), z is v)
                if z is not v: continue
                m = {}
                for t in subterms(u):
                    if t.op == "ite" and t.args[0] not in m and any(y is p for y in subterms(t.args[0])):
                        c = TM.go_atom(t.args[0], lambda y: substitute(y, {p: init}))
                        m[t.args[0]] = c
                w = self.shows(u, m) if m else None
                if w: return w
        return None

    def guarded(self, a, path):
        """another test of the same carried quantity comes first: the states in which `a` matters may never occur"""
        def forms(t): return t.args[0] if t.op in ("le", "lt_") else None
        f = forms(a)
        if f is None or not carried(f): return False
        for b, _ in path:
            g = forms(b)
            if g is not None and (g is f or TM.add(f, g).op == "num"): return True
        return False

    def consistent(self, path):
        t = tuple((a, v) for a, v in path if a.op in ("le", "lt_"))
        return not t or self.feasible(t)

    def chain(self, x, y, path):
        """pairs whose replacement turns x into y, deepest first"""
        if x is y: return
        if x.op == y.op and len(x.args) == len(y.args) and x.op not in ("num",):
            if x.op == "ite" and x.args[0] is y.args[0]:
                ks = [(x.args[1], y.args[1], path + ((x.args[0], True),)), (x.args[2], y.args[2], path + ((x.args[0], False),))]
            else: ks = [(a, b, path) for a, b in flat(x, y)]
            ks = [k for k in ks if k[0] is not k[1]]
            if all(isinstance(a, T) and isinstance(b, T) for a, b, _ in ks):
                if len(ks) == 1:
                    yield from self.chain(*ks[0])
                elif len(ks) > 1:
                    h = self.holes(x, y, path)
                    if h: yield h
                    cands = []
                    self.gather(x, y, path, cands, set())
                    for p, q, pp in cands[:60]:
                        self.tries += 1
                        if self.tries > 120: break
                        if any(t is p for t in subterms(q)) and p.op in ("sym", "pos", "acc"): pass
                        self.tick()
                        try: z = substitute(x, {p: q})
                        except Exception: continue
                        if z is y:
                            yield p, q, pp
        yield x, y, path

    def holes(self, x, y, path):
        """the one pair of terms that sits wherever the two terms part"""
        found = {}
        seen = set()
        def go(x, y, path):
            if x is y or (x, y) in seen: return
            seen.add((x, y))
            if len(found) > 1: return
            if x.op == y.op and len(x.args) == len(y.args) and x.op != "num":
                if x.op == "ite" and x.args[0] is y.args[0]:
                    go(x.args[1], y.args[1], path + ((x.args[0], True),))
                    go(x.args[2], y.args[2], path + ((x.args[0], False),))
                    return
                f = flat(x, y)
                if f and all(isinstance(a, T) and isinstance(b, T) for a, b in f):
                    for a, b in f: go(a, b, path)
                    return
            found.setdefault((x, y), path)
        go(x, y, path)
        if len(found) == 1:
            (p, q), pp = next(iter(found.items()))
            return p, q, pp
        return None

    def gather(self, x, y, path, out, seen):
        if x is y or (x, y) in seen or len(out) > 200: return
        seen.add((x, y))
        if x.op == y.op and len(x.args) == len(y.args) and x.op != "num":
            if x.op == "ite" and x.args[0] is y.args[0]:
                self.gather(x.args[1], y.args[1], path + ((x.args[0], True),), out, seen)
                self.gather(x.args[2], y.args[2], path + ((x.args[0], False),), out, seen)
            else:
                for a, b in flat(x, y):
                    if a is b: continue
                    if isinstance(a, T) and isinstance(b, T): self.gather(a, b, path, out, seen)
        elif x.op == y.op == "cat":
            A, B = parts(x), parts(y)
            while A and B and A[0] is B[0]: A, B = A[1:], B[1:]
            while A and B and A[-1] is B[-1]: A, B = A[:-1], B[:-1]
            if len(A) < len(parts(x)): self.gather(cat(*A), cat(*B), path, out, seen)
        out.append((x, y, path))

    def symbols(self, t):
        """uninterpreted function symbols (with callee) occurring in t"""
        out = set()
        for y in subterms(t):
            if y.op in OPAQUE: out.add((y.op, y.args[0] if y.args and isinstance(y.args[0], str) else ""))
        return out

    def known(self, t):
        """only vocabulary the reference uses too"""
        return self.symbols(t) <= self.voc and not any(y.op in ("unreached", "opaque", "noval") for y in subterms(t))

    # ---------------------------------------------------------- structural comparison
    def cmp(self, a, b, path):
        if a is b: return "same", None
        key = (a, b, path)
        r = self.memo.get(key)
        if r is None:
            self.tick()
            self.memo[key] = ("unknown", "recursion")
            self.depth += 1
            r = self._cmp(a, b, path) if self.depth < 80 else ("unknown", "depth")
            self.depth -= 1
            self.memo[key] = r
        return r

    def _cmp(self, a, b, path):
        if a.op == "ite" or b.op == "ite" or a in (TRUE, FALSE) or b in (TRUE, FALSE):
            return self.diagram(a, b, path)
        return self.leaf(a, b, path)

    def diagram(self, a, b, path):
        unk = None
        n = 0
        seen = set()
        st = [(a, b, tuple(path))]
        best = None
        while st:
            x, y, p = st.pop()
            if x is y: continue
            self.tick()
            if (x, y) in seen and len(seen) > 400: continue
            seen.add((x, y))
            n += 1
            if n > 3000: return "unknown", "diagram too large"
            tx, ty = TM.top(x), TM.top(y)
            if tx is None and ty is None:
                if x in (TRUE, FALSE) or y in (TRUE, FALSE):
                    if x in (TRUE, FALSE) and y in (TRUE, FALSE):
                        f = self.feasible(p)
                        if f: return "diff", "%s instead of %s when %s" % (show(y), show(x), self.path(p))
                        unk = unk or "truth values differ on a path not shown feasible"
                    else: unk = unk or "truth value against a term"
                    continue
                v, why = self.leaf(x, y, p)
                if v == "diff":
                    return v, why
                if v == "unknown": unk = unk or why
                continue
            if tx is None: t = ty
            elif ty is None: t = tx
            else: t = min(tx, ty, key=TM.atom_key)
            dv = decided(p, t)
            if dv is not None:
                st.append((follow(x, t, dv), follow(y, t, dv), p))
                continue
            st.append((TM.cof(x, t, False), TM.cof(y, t, False), p + ((t, False),)))
            st.append((TM.cof(x, t, True), TM.cof(y, t, True), p + ((t, True),)))
        return ("unknown", unk) if unk else ("same", None)

    def leaf(self, x, y, path):
        if x is y: return "same", None
        if x.op == "bottom" or y.op == "bottom": return "unknown", "impossible value"
        if numericish(x) and numericish(y): return self.numeric(x, y, path)
        if {x.op, y.op} & {"poly", "num"} and {x.op, y.op} & {"field", "index", "payload", "mget"}: return self.numeric(x, y, path)
        if x.op == "adt" and y.op == "adt":
            if x.args[0] != y.args[0]:
                return "unknown", "types %s / %s" % (x.args[0], y.args[0])
            if x.args[1] != y.args[1]:
                return self.feas(path, "%s instead of %s" % (y.args[1], x.args[1]))
            return self.args(x.args[2:], y.args[2:], path, names=self.fieldnames(x))
        if x.op == "tuple" and y.op == "tuple" and len(x.args) == len(y.args):
            return self.args(x.args, y.args, path)
        if x.op == "adt" and y.op != "adt":
            return self.eta(x, y, path)
        if y.op == "adt" and x.op != "adt":
            return self.eta(y, x, path)
        if seqish(x) or seqish(y):
            v = self.seq(x, y, path)
            if v[0] != "unknown": return v
        r = self.heads(x, y, path)
        if r[0] == "unknown" and self.known(x) and self.known(y):
            if self.independent(x, y, path): return self.feas(path, "%s, which does not depend on it, instead of %s" % (show(y, 5), show(x, 5)))
            if self.independent(y, x, path): return self.feas(path, "%s instead of %s, which does not depend on it" % (show(y, 5), show(x, 5)))
        return r

    def independent(self, x, y, path):
        """x is a piece of the input that y does not involve, and the path does not tie it down"""
        c = chain_of(x)
        if c is None or y.op in ("bottom", "unit") or mentions(y, c): return False
        for a, v in path:
            if a.op in ("has", "is"):
                continue
            if mentions(a, c): return False
        return True

    def eta(self, x, y, path):
        """structure against a value of unknown structure"""
        if is_struct(x) and len(x.args) > 2 and y.op in ("sym", "field", "index", "payload", "acc"):
            f = TM.expand(y, x)
            if f and len(f) == len(x.args) - 2: return self.args(x.args[2:], f, path, names=self.fieldnames(x))
        if x.op == "adt" and not is_struct(x) and y.op in ("sym", "field", "index", "payload", "acc", "call", "mget"):
            atoms_ = [(a, v) for a, v in path if a.op == "is" and a.args[0] is y]
            for a, v in atoms_:
                if v and a.args[1] == x.args[1]:
                    d = TM.ADTS.get(x.args[0])
                    for vn, fs, tys in d["variants"] if d else ():
                        if vn == x.args[1] and len(fs) == len(x.args) - 2:
                            return self.args(x.args[2:], [TM.payload(y, vn, f, t) for f, t in zip(fs, tys)], path, names=fs)
                    if len(x.args) == 3: return self.args(x.args[2:], [TM.payload(y, x.args[1], "0")], path)
                    return "unknown", "payload"
                if v: return self.feas(path, "%s instead of %s" % (a.args[1], x.args[1]))
            names = [v[0] for v in TM.ADTS[x.args[0]]["variants"]] if x.args[0] in TM.ADTS else {"Option": ["None", "Some"], "Result": ["Ok", "Err"]}.get(x.args[0], [])
            left = [n for n in names if all(a.args[1] != n for a, v in atoms_)]
            if atoms_ and left == [x.args[1]]:
                if len(x.args) == 2: return "same", None
                if len(x.args) == 3: return self.args(x.args[2:], [TM.payload(y, x.args[1], "0")], path)
            if atoms_ and len(left) == 1: return self.feas(path, "%s instead of %s" % (left[0], x.args[1]))
            if atoms_: return "unknown", "variant not settled"
        if x.op == "adt" and not is_struct(x) and projection(y) and self.known(y):
            return self.feas(path, "%s against the independent value %s" % (show(x, 4), show(y, 4)))
        return "unknown", "value against structure"

    def fieldnames(self, x):
        d = TM.ADTS.get(x.args[0])
        if d:
            for vn, fs, _ in d["variants"]:
                if vn == x.args[1]: return fs
        return None

    def args(self, xs, ys, path, names=None):
        """components that can be observed one by one"""
        if len(xs) != len(ys): return "unknown", "arity"
        unk = None
        for i, (p, q) in enumerate(zip(xs, ys)):
            v, why = self.cmp(p, q, path)
            if v == "diff":
                return v, "%s: %s" % (names[i], why) if names and i < len(names) else why
            if v == "unknown": unk = unk or why
        return ("unknown", unk) if unk else ("same", None)

    def feas(self, path, why):
        if self.feasible(path):
            return "diff", why + (" when %s" % self.path(path) if path else "")
        return "unknown", "path not shown feasible"

    # ---------------------------------------------------------- sequences
    def seq(self, x, y, path):
        A, B = parts(x), parts(y)
        while A and B and A[0] is B[0]: A, B = A[1:], B[1:]
        while A and B and A[-1] is B[-1]: A, B = A[:-1], B[:-1]
        if not A and not B: return "same", None
        if self.loose:
            w = self.trimmed(x, y, path) or self.trimmed(y, x, path)
            if w: return self.feas(path + w[0], w[1])
        if not A or not B:
            rest = A or B
            if any(minlen(p) > 0 for p in rest): return self.feas(path, "%s %s" % ("missing" if A else "extra", show(cat(*rest), 6)))
            if all(self.known(p) for p in rest) and all(canbe(p) for p in rest):
                return self.feas(path, "%s %s" % ("missing" if A else "extra", show(cat(*rest), 6)))
            return "unknown", "possibly empty remainder"
        unk = None
        # element by element while the pieces are unit-aligned
        for p, q in itertools.zip_longest(A, B):
            if p is None or q is None:
                if unk is None and minlen(p or q) > 0: return self.feas(path, "%s %s" % ("extra" if p is None else "missing", show(p or q, 6)))
                return "unknown", unk or "lengths"
            if p is q: continue
            v, why = self.piece(p, q, path)
            if v == "diff" and unk is None: return v, why
            if v == "unknown":
                unk = unk or why
            if not (p.op == q.op == "one"): break
        # all pieces aligned on the other end?
        if len(A) == len(B) and all(p.op == q.op for p, q in zip(A, B)):
            for p, q in zip(A, B):
                if p is q: continue
                v, why = self.piece(p, q, path)
                if v == "diff" and all(unitlike(r) for r in A + B): return v, why
        return "unknown", unk or "sequences"

    def trimmed(self, x, y, path):
        """x is y with some elements left out"""
        def unbounded(t):
            while t.op == "sort": t = t.args[0]
            if t.op == "comp": return canbe(t.args[1]) and unbounded(t.args[0])
            return t.op in ("field", "index", "payload", "sym", "call", "loopout", "mget", "scanseq")
        if x.op == "take" and x.args[0] is y and unbounded(y): return (), "no more than %s of %s" % (show(x.args[1]), show(y, 4))
        if x.op == "comp" and x.args[0] is y and x.args[1].op == "ite":
            for c in itertools.islice(paths_to(x.args[1], EMPTY), 6):
                if all(self.known(a) for a, _ in c) and self.feasible(path + c): return c, "some of %s left out" % show(y, 4)
        return None

    def piece(self, p, q, path):
        if p.op == "one" and q.op == "one":
            return self.cmp(p.args[0], q.args[0], path)
        if p.op == q.op == "bytes":
            if p.args[1] != q.args[1]: return self.feas(path, "byte order %s instead of %s" % (q.args[1], p.args[1]))
            if p.args[2] is not q.args[2] and p.args[2] != q.args[2]: return self.feas(path, "width %s instead of %s" % (q.args[2], p.args[2]))
            return self.cmp(p.args[0], q.args[0], path)
        if p.op == q.op == "varint": return self.cmp(p.args[0], q.args[0], path)
        if p.op == q.op == "comp": return self.compare_comp(p, q, path)
        kinds = {"one", "bytes", "varint"}
        if p.op in kinds and q.op in kinds:
            if "varint" in (p.op, q.op): return self.feas(path, "%s where %s is expected" % (show(q, 5), show(p, 5)))
            P, Q = expand_bytes(p), expand_bytes(q)
            if P and Q:
                if P[0] is Q[0]:
                    if len(P) != len(Q): return self.feas(path, "%d bytes where %d are expected" % (len(Q), len(P)))
                    return "unknown", "bytes"
                return self.cmp(P[0].args[0], Q[0].args[0], path)
        if p.op == q.op: return self.heads(p, q, path)
        return self.heads(p, q, path)

    def compare_comp(self, p, q, path):
        sa, sb = p.args[0], q.args[0]
        if sa is sb: return self.body(p.args[1], q.args[1], path)
        from .lib import binder
        bq = substitute(q.args[1], {binder(sb): binder(sa)})
        bq = substitute(bq, {sb: sa})
        vs, why = self.cmp(sa, sb, path)
        vb, whyb = self.body(p.args[1], bq, path)
        if vs == "diff" and vb == "same": return "diff", "over different elements: %s" % why
        if vs == "diff" and vb == "diff": return "diff", "over different elements: %s" % why
        if vs == "same" and vb != "same": return vb, whyb
        return "unknown", why or whyb

    def body(self, x, y, path):
        return self.cmp(x, y, path)

    def lam(self, x, y, path):
        """two functions of aligned parameters"""
        if x.args[1] != y.args[1]: return "unknown", "arity of functions"
        b = y.args[2]
        if x.args[0] != y.args[0]:
            m = {}
            for z in subterms(b):
                if z.op == "lparam" and z.args[0] == y.args[0]: m[z] = typed(mk("lparam", x.args[0], *z.args[1:]), z.ty)
            b = substitute(b, m)
        return self.cmp(x.args[2], b, path)

    # ---------------------------------------------------------- loops
    def unfold(self, x, y, path):
        """iterators driven by their own state: what they yield in a given state, and the state they go to"""
        if len(x.args[0]) != len(y.args[0]): return "unknown", "state kept differently"
        for p, q in zip(x.args[0], y.args[0]):
            if p is not q: return "unknown", "unfold / unfold"
        if x.args[2] is not y.args[2]:
            v, why = self.cmp(x.args[2], y.args[2], path)
            return (v, why) if v == "diff" else ("unknown", "unfold / unfold")
        return "unknown", "unfold / unfold"

    def loop(self, x, y, path):
        """loops over aligned sources with aligned state: different when exactly one ingredient differs"""
        from .lib import binder
        sa, sb = x.args[0], y.args[0]
        ya = y.args[1:]
        vs, why = "same", None
        if sa is not sb:
            vs, why = self.cmp(sa, sb, path)
            if vs == "unknown": return vs, why
            sub_ = {binder(sb): binder(sa)}
            ya = tuple(subst_in(a, sub_) for a in ya)
            ya = tuple(subst_in(a, {sb: sa}) for a in ya)
        if x.op == "fold":
            xs, ys = (x.args[1:2], x.args[2:3]), (ya[0:1], ya[1:2])
        else:
            xs, ys = x.args[1:], ya
            if tagged(x) or tagged(y):      # state listed by name
                if not (tagged(x) and tagged(y)) or xs[-1] != ys[-1]: return "unknown", "loop rewritten"
                xs, ys = xs[:-1], ys[:-1]
        n = len(xs[0])
        if n != len(ys[0]): return "unknown", "loop rewritten"
        ax, ay = self.accs(xs, n), self.accs(ys, n)
        best = None
        perms = [tuple(range(n))] if n == 1 or n > 6 or tagged(x) else self.orders(xs[0], ys[0], path)
        for perm in perms[:24]:
            # perm[i] = index on y's side of x's i-th state component
            ren = {}
            for i in range(n):
                for a in ay.get(perm[i], ()):
                    t = next((b for b in ax.get(i, ()) if b.args[2:] == a.args[2:]), None)
                    t = t or typed(mk("acc", (next(iter(ax.values()))[0].args[0] if ax else a.args[0]), i, *a.args[2:]), a.ty)
                    if t is not a: ren[a] = t
            res = [("source", vs, why)] if vs != "same" else []
            for k, (p, q) in enumerate(zip(xs, ys)):
                if not isinstance(p, tuple):
                    if p is subst_in(q, ren): continue
                    v, w = self.arg(p, subst_in(q, ren), path)
                    if v != "same": res.append((k, v, w))
                    continue
                if len(p) != len(q): res.append((k, "unknown", "exits differ in number")); continue
                for i in range(len(p)):
                    t = q[perm[i]] if len(q) == n and k < 2 else q[i]
                    t = subst_in(t, ren)
                    if p[i] is t: continue
                    v, w = self.arg(p[i], t, path)
                    if v != "same": res.append((k, v, w))
            if not res: return "same", None
            score = (len(res), sum(1 for r in res if r[1] == "unknown"))
            if best is None or score < best[0]: best = (score, res)
            if score == (1, 0): break
        res = best[1]
        if any(r[1] == "unknown" for r in res): return "unknown", next(r[2] for r in res if r[1] == "unknown")
        if len(res) == 1: return "diff", res[0][2]
        return "unknown", "loop rewritten"

    def accs(self, parts, n):
        """placeholders of the loop's own state, by index"""
        out = {}
        top = None
        for p in parts:
            for t in (p if isinstance(p, tuple) else (p,)):
                for z in subterms(t) if isinstance(t, T) else ():
                    if z.op == "acc" and isinstance(z.args[1], int):
                        out.setdefault((z.args[0]), {}).setdefault(z.args[1], []).append(z)
        if not out: return {}
        # the loop's own level: inner loops have closed over theirs at deeper levels
        ints = [l for l in out if isinstance(l, int)]
        l = min(ints) if ints else max(out, key=str)
        return out[l]

    def orders(self, ix, iy, path):
        n = len(ix)
        same = [[ix[i] is iy[j] for j in range(n)] for i in range(n)]
        ps = list(itertools.permutations(range(n)))
        ps.sort(key=lambda p: (-sum(same[i][p[i]] for i in range(n)), p))
        m = sum(same[i][ps[0][i]] for i in range(n))
        return [p for p in ps if sum(same[i][p[i]] for i in range(n)) >= m]

    def entry(self, x, y, path):
        """an entry set on one side only"""
        big, small, extra = (x, y, False) if x.op == "ins" else (y, x, True)
        if big.args[0] is not small: 
            return None
        k, v = big.args[1], big.args[2]
        h = TM.atom(mk("has", small, k))
        for a, val in path:
            if a.op == "has" and a.args[0] is small and a.args[1] is k and not val:
                return self.feas(path, "%s entry" % ("extra" if extra else "missing"))
        cur = mk("mget", small, k)
        r, w = self.cmp(*((cur, v) if extra else (v, cur)), path)
        if r == "diff": return r, w
        if self.loose and small.op == "acc" and self.known(v) and not any(y is small for y in subterms(v)):
            return self.feas(path, "%s instead of the entry held" % show(v, 4))
        return "unknown", "entry"

    # ---------------------------------------------------------- uninterpreted heads
    def heads(self, x, y, path):
        for a, v in path:
            if v and a.op == "eq" and len(a.args) == 2 and x in a.args and y in a.args: return "same", None
        if not (self.known(x) and self.known(y)): return "unknown", "uninterpreted: %s" % ", ".join(sorted("%s %s" % s for s in (self.symbols(y) | self.symbols(x)) - self.voc))
        if x.op in ("hins", "hdel", "hset") or y.op in ("hins", "hdel", "hset"):
            v = self.heap(x, y, path)
            if v: return v
        if x.op == y.op and len(x.args) == len(y.args):
            if x.op == "lambda": return self.lam(x, y, path)
            if x.op in LOOPS: return self.loop(x, y, path)
            if x.op == "unfold" and len(x.args) == 3: return self.unfold(x, y, path)
            if x.op in ("sym",): return self.feas(path, "%s instead of %s" % (show(y), show(x)))
            if x.op in ("field", "payload"):
                if x.args[1:] != y.args[1:] and x.args[0] is y.args[0] and projection(x):
                    return self.feas(path, "%s instead of %s" % (show(y, 5), show(x, 5)))
                if x.args[1:] != y.args[1:] and projection(x) and projection(y):
                    return self.feas(path, "%s instead of %s" % (show(y, 5), show(x, 5)))
            if x.op in ("call", "out") and x.args[0] != y.args[0]:
                if x.args[0] in dict.fromkeys(n for o, n in self.voc) and y.args[0] in dict.fromkeys(n for o, n in self.voc):
                    return self.feas(path, "%s instead of %s" % (y.args[0], x.args[0]))
                return "unknown", "calls"
            if x.op in FAITHFUL:
                st, why = None, None
                nd = 0
                for p, q in zip(x.args, y.args):
                    if p is q or p == q: continue
                    v, w = self.arg(p, q, path)
                    if v == "diff": nd += 1; why = why or w
                    elif v == "unknown": return "unknown", w
                if nd:
                    if x.op == "varlen": return self.varlen(x, y, path, why)
                    return "diff", why
                return "same", None
        if x.op == "ins" or y.op == "ins":
            v = self.entry(x, y, path)
            if v: return v
        if part_of(y, x) or part_of(x, y):
            return self.feas(path, "%s, only a part of it, instead of %s" % (show(y, 5), show(x, 5)) if part_of(y, x) else "%s instead of only its part %s" % (show(y, 5), show(x, 5)))
        if projection(x) and projection(y):
            return self.feas(path, "%s instead of %s" % (show(y, 5), show(x, 5)))
        SH = {"sort", "rev", "dedup", "take", "drop", "slice", "leint", "vdec", "vdeclen", "index", "field", "payload", "sym", "maxof", "minof"}
        if x.op in SH and y.op in SH and x.op != y.op:
            pair = {x.op, y.op}
            if pair == {"maxof", "minof"}: return self.feas(path, "%s instead of %s" % (y.op, x.op))
            if pair <= {"leint", "vdec", "vdeclen", "index", "field", "payload", "sym"}:
                return self.feas(path, "%s instead of %s" % (show(y, 6), show(x, 6)))
            big, small = (x, y) if x.op in ("sort", "rev", "dedup", "take", "drop", "slice") else (y, x)
            if big.op in ("sort", "dedup", "rev", "drop", "take") and big.args[0] is small and not (unique_source if big.op == "dedup" else sorted_source)(small):
                return self.feas(path, "%s %s" % ("missing" if big is x else "extra", big.op))
            if pair == {"dedup", "sort"} and x.args[0].op == y.op and y.args[0].op == x.op and x.args[0].args[0] is y.args[0].args[0] and not unique_source(x.args[0]):
                return self.feas(path, "repeats are removed %s sorting" % ("before" if x.op == "dedup" else "after"))
            if pair <= {"drop", "take", "slice"}:
                bx, by = extent(x), extent(y)
                if bx[0] is by[0]: return self.args(bx[1:], by[1:], path)
                return "unknown", "slices"
        return "unknown", "%s / %s" % (x.op, y.op)

    def varlen(self, x, y, path, why): return "diff", why

    def arg(self, p, q, path):
        if isinstance(p, T) and isinstance(q, T): return self.cmp(p, q, path)
        if isinstance(p, tuple) and isinstance(q, tuple):
            if len(p) != len(q): return "unknown", "arity"
            nd, why, unk = 0, None, None
            for s, t in zip(p, q):
                if s is t: continue
                v, w = self.arg(s, t, path)
                if v == "diff": nd += 1; why = why or w
                elif v == "unknown": unk = unk or w
            if unk: return "unknown", unk
            return ("diff", why) if nd else ("same", None)
        if p == q: return "same", None
        return "diff", "%s instead of %s" % (q, p)

    # ---------------------------------------------------------- numbers
    def path(self, p):
        return " and ".join(("" if v else "not ") + show(a, 5) for a, v in p[:8])

    def feasible(self, path):
        return self.numeric_cells(num(0), num(1), path) is not None

    def numeric(self, x, y, path):
        if equal_on(path, x, y): return "same", None
        if not (self.known(x) and self.known(y)):
            return "unknown", "uninterpreted: %s" % ", ".join(sorted("%s %s" % s for s in (self.symbols(y) | self.symbols(x)) - self.voc))
        if x.op not in NUMERIC and y.op not in NUMERIC and (x.op == y.op in ("index", "field") or not (projection(x) or projection(y))):
            v = self.heads(x, y, path)
            if v[0] == "diff": return v
        w = self.numeric_cells(x, y, path)
        if w is None: return "unknown", "no cell separates %s and %s" % (show(x, 4), show(y, 4))
        env, vx, vy = w
        at = ", ".join("%s=%s" % (show(k, 4), fmt(v)) for k, v in list(env.items())[:6] if k in self.lastvars)
        return "diff", "%s instead of %s%s%s" % (show(y, 6), show(x, 6), (" (%s -> %s, expected %s)" % (at, fmt(vy), fmt(vx))) if at else "",
                                              " when %s" % self.path(path) if path else "")

    def numeric_cells(self, x, y, path):
        """a cell on which the path holds and the values of x and y are separated"""
        self.tick()
        for a, v in path:
            if not self.known(a): return None
        if self.alive and any(z.op == "acc" for a, _ in path for z in subterms(a)):
            lits = And(*[TM.atom(a) if v else Not(TM.atom(a)) for a, v in path if a.op != "ite"])
            if any(And(lits, c) is FALSE for c in self.alive): return None     # the loop would have panicked
        gen = [(a, v) for a, v in path if a.op not in ("le", "lt_")]
        for i, (a, va) in enumerate(path):
            for b, vb in path[i + 1:]:
                if a is b and va != vb: return None
        for i, (a, va) in enumerate(gen):
            for b, vb in gen[i + 1:]:
                if va != vb and a is not b and a.op == b.op:
                    if self.may(a, b, path): return None     # possibly the same test
                elif self.clash(a, va, b, vb, path): return None
        A, B = set(), set()
        nvars(x, A); nvars(y, B)
        pv = set()
        for a, v in path:
            if a.op in ("le", "lt_"): nvars(a.args[0], pv)
        allv = A | B | pv
        self.lastvars = A | B
        # leaves that might coincide share one variable
        rep = {v: v for v in allv}
        # (distinct terms of one side are independent: the reference tests nothing that is settled already)
        for q in sorted(allv, key=lambda t: t.id):
            own, other = (self.refsub, self.gotsub) if q not in self.gotsub else (self.gotsub, self.refsub)
            if q in other: continue
            for p in sorted(allv, key=lambda t: t.id):
                if p is q or p not in other or rep[q] is not q or rep[p] is not p: continue
                if p.op == q.op or not (measure(p) and measure(q)):
                    if p.op != q.op and {p.op, q.op} & {"acc", "pos"}: continue
                    if numeric(p) and numeric(q) and self.may(p, q, path): rep[q] = p
        consts = {Fraction(0), Fraction(1)}
        for a, v in path:
            if a.op in ("le", "lt_"): consts.add(Fraction(a.args[1])); nconsts(a.args[0], consts)
        nconsts(x, consts); nconsts(y, consts)
        vs = sorted({rep[v] for v in allv}, key=lambda t: t.id)
        if len(vs) > 40: return None
        cells = {}
        for v in vs:
            lo, hi = rng(v)
            isint = is_int(v)
            c = set()
            for k in consts:
                for d in (-1, 0, 1):
                    c.add(k + d)
                if not isint: c |= {k + Fraction(1, 3), k - Fraction(1, 3), k * Fraction(1, 2)}
            c |= {Fraction(2), Fraction(3), Fraction(5), Fraction(7), Fraction(11), Fraction(13), Fraction(17), Fraction(100), Fraction(258), Fraction(65537), Fraction(77777), Fraction(16909060)}
            if lo != float("-inf"): c |= {Fraction(lo), Fraction(lo) + 1}
            if hi != float("inf"): c |= {Fraction(hi), Fraction(hi) - 1}
            if isint: c = {k for k in c if k.denominator == 1}
            c = sorted(k for k in c if lo <= k <= hi)
            cells[v] = c or [Fraction(0)]
        total = 1
        for v in vs: total *= len(cells[v])
        tests = [(a, val) for a, val in path if a.op in ("le", "lt_")]
        if len(tests) > 200: return None
        prog = Program([a.args[0] for a, _ in tests] + [x, y], vs, rep)
        nt = len(tests)
        bounds_ = [(a.args[1], a.op == "le", val) for a, val in tests]
        def check(pt):
            """the values at a cell, when the path holds there and they differ"""
            out = prog.run(pt)
            for (k, le_, val), e in zip(bounds_, out):
                if e is None or (e <= k if le_ else e < k) != val: return None
            ex, ey = out[nt], out[nt + 1]
            if ex is None or ey is None or ex == ey: return None
            if isinstance(ex, float) or isinstance(ey, float):
                if abs(float(ex) - float(ey)) <= 1e-9 * max(1.0, abs(float(ex))): return None
            env = dict(zip(vs, pt))
            return {v: env[rep[v]] for v in allv}, ex, ey
        cs = [[simple(c) for c in cells[v]] for v in vs]
        if total <= 6000:
            for combo in itertools.product(*cs):
                self.budget -= prog.size
                r = check(list(combo))
                if r: return r
            return None
        # too many cells: walk them in a fixed pseudo-random order
        s = 12345
        for i in range(6000):
            if self.budget < 0: return None
            self.budget -= prog.size
            pt = []
            for c in cs:
                s = (s * 1103515245 + 12345) & 0x7fffffff
                pt.append(c[(s >> 8) % len(c)])
            r = check(pt)
            if r: return r
        return self.repair(vs, cs, tests, rep, prog, check)

    def may(self, p, q, path):
        """not known to differ where the path holds"""
        if p is q or self.cmp(p, q, ())[0] != "diff": return True
        rest = tuple((a, v) for a, v in path if not free(a, p) and not free(a, q))
        if not rest: return False
        k = (p, q, rest)
        r = self.mays.get(k)
        if r is None:
            self.mays[k] = True
            x, y = under(rest, p), under(rest, q)
            r = self.mays[k] = x is y or (x is not p or y is not q) and self.cmp(x, y, ())[0] == "same"
        return r

    def clash(self, a, va, b, vb, path):
        """two different tests of which not both may have these outcomes"""
        def may(p, q): return self.may(p, q, path)
        # (tests of one side are independent: that side tests nothing that is settled already)
        if a in self.refsub and b in self.refsub or a in self.gotsub and b in self.gotsub: may = lambda p, q: p is q
        if a.op == b.op == "is" and (a.args[1] in ("Ok", "Err")) != (b.args[1] in ("Ok", "Err")) or (a.args[1] in ("Some", "None")) != (b.args[1] in ("Some", "None")): return False
        if a.op == b.op == "is": return va == vb and a.args[1] != b.args[1] and a.args[0] is not b.args[0] and may(a.args[0], b.args[0])
        if not {a.op, b.op} <= {"eq", "less"}: return False
        (p, q), (r, t) = a.args, b.args
        if {p, q} == {r, t}:
            if a.op == b.op: return va == vb            # less one way and less the other way
            return va and vb                            # equal and less
        if not ((may(p, r) and may(q, t)) or (may(p, t) and may(q, r))): return False
        return a.op != b.op or a.op == "less"

    def repair(self, vs, cs, tests, rep, prog, check):
        """greedy search for a cell on the path: fix violated order tests one at a time"""
        s = 987
        each = []
        for a, val in tests:
            pv = set(); nvars(a.args[0], pv)
            idx = sorted({vs.index(rep[v]) for v in pv if rep.get(v) in vs})
            each.append((Program([a.args[0]], vs, rep), a.args[1], a.op == "le", val, idx))
        def holds(t, pt):
            e = t[0].run(pt)[0]
            return e is not None and (e <= t[1] if t[2] else e < t[1]) == t[3]
        for start in range(60):
            pt = []
            for c in cs:
                s = (s * 1103515245 + 12345) & 0x7fffffff
                pt.append(c[(s >> 8) % len(c)])
            for it in range(60):
                if self.budget < 0: return None
                self.budget -= prog.size
                bad = [t for t in each if not holds(t, pt)]
                if not bad:
                    r = check(pt)
                    if r: return r
                    i = (s >> 5) % len(vs) if vs else 0
                    if not vs: return None
                    s = (s * 1103515245 + 12345) & 0x7fffffff
                    pt[i] = cs[i][(s >> 8) % len(cs[i])]
                    continue
                t = bad[it % len(bad)]
                if not t[4]: break
                s = (s * 1103515245 + 12345) & 0x7fffffff
                i = t[4][(s >> 7) % len(t[4])]
                ok_ = []
                old = pt[i]
                self.budget -= t[0].size * len(cs[i])
                for c in cs[i]:
                    pt[i] = c
                    if holds(t, pt): ok_.append(c)
                pt[i] = old
                if ok_:
                    s = (s * 1103515245 + 12345) & 0x7fffffff
                    pt[i] = ok_[(s >> 8) % len(ok_)]
        return None

def flat(x, y):
    """corresponding constituents of two terms with one head"""
    if x.op == "poly":
        a, b = dict(x.args), dict(y.args)
        ka = [m for m in a if b.get(m) != a[m]]
        kb = [m for m in b if a.get(m) != b[m]]
        if len(ka) == 1 and len(kb) == 1 and a[ka[0]] == b[kb[0]] and len(ka[0]) == 1 and len(kb[0]) == 1 and ka[0][0][1] == kb[0][0][1]:
            return [(ka[0][0][0], kb[0][0][0])]
        return [(x, None)]
    out = []
    def go(p, q):
        if p is q or (not isinstance(p, T) and p == q): return
        if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
            for a, b in zip(p, q): go(a, b)
        else: out.append((p, q))
    for p, q in zip(x.args, y.args): go(p, q)
    return out

LOOPS = ("loopfix", "fold", "folds", "scanseq")

def subst_in(a, m):
    if not m: return a
    if isinstance(a, T): return substitute(a, m)
    if isinstance(a, tuple): return tuple(subst_in(z, m) for z in a)
    return a

def simple(c):
    return int(c) if isinstance(c, Fraction) and c.denominator == 1 else c

def _pw(v, p):
    if v is None or abs(p) > 6: return None
    if p >= 0: return v ** p
    if v == 0: return None
    return v ** p if isinstance(v, float) else simple(Fraction(v) ** p)
def _idiv(a, b): return None if a is None or b is None or b <= 0 or a < 0 else math.floor(Fraction(a) / b if not isinstance(a, float) else a / b)
def _imod(a, b): return None if a is None or b is None or b <= 0 else a - b * math.floor(a / b if isinstance(a, float) or isinstance(b, float) else Fraction(a) / b) if not (isinstance(a, int) and isinstance(b, int)) else a % b
def _bits(op, *xs):
    if any(x is None or x < 0 for x in xs): return None
    r = int(xs[0])
    for x in xs[1:]: r = r & int(x) if op == "band" else r | int(x) if op == "bor" else r ^ int(x)
    return r
def _fn(op, *xs):
    if any(x is None for x in xs): return None
    try:
        if op == "pow2": return 2 ** int(xs[0]) if 0 <= xs[0] < 128 and xs[0] == int(xs[0]) else None
        if op == "toint": return int(xs[0])
        if op == "ceil": return math.ceil(xs[0])
        if op == "floor": return math.floor(xs[0])
        if op == "sqrt": return math.sqrt(xs[0]) if xs[0] >= 0 else None
        if op == "abs": return abs(xs[0])
        if op == "pow": return float(xs[0]) ** float(xs[1]) if xs[0] > 0 and abs(xs[1]) < 100 else None
    except (OverflowError, ValueError, ZeroDivisionError): pass
    return None
def _wrap(v, lo, hi):
    if v is None: return None
    n = int(v) % (hi - lo + 1)
    return n if n <= hi else n - (hi - lo + 1)
def _pick(i, xs):
    return xs[int(i)] if i is not None and i == int(i) and 0 <= i < len(xs) else None

class Program:
    """numeric terms as straight-line arithmetic over their numeric leaves (None: no value there)"""
    def __init__(self, terms, vs, rep):
        self.ix = {v: i for i, v in enumerate(vs)}
        self.rep = rep
        self.ops, self.slot, self.cv = [], {}, []
        roots = [self.comp(t) for t in terms]
        self.size = len(self.ops) + 5
        src = ["def f(x):"] + ["    v%d = %s" % (i, o) for i, o in enumerate(self.ops)]
        src.append("    return (%s,)" % ", ".join(roots))
        g = {"_pw": _pw, "_idiv": _idiv, "_imod": _imod, "_bits": _bits, "_fn": _fn, "_wrap": _wrap, "_pick": _pick, "K": self.cv}
        exec("\n".join(src), g)
        self.f = g["f"]

    def run(self, pt):
        try: return self.f(pt)
        except (OverflowError, ZeroDivisionError, ValueError): return (None,) * 1000

    def emit(self, t, e):
        self.ops.append(e)
        r = "v%d" % (len(self.ops) - 1)
        self.slot[t] = r
        return r
    def const(self, c):
        c = simple(c)
        if isinstance(c, int): return "(%d)" % c
        self.cv.append(c)
        return "K[%d]" % (len(self.cv) - 1)

    def comp(self, t):
        r = self.slot.get(t)
        if r is not None: return r
        op = t.op
        if op == "num": return self.const(t.args[0])
        v = self.rep.get(t, t)
        if op != "poly" and v in self.ix: return self.emit(t, "x[%d]" % self.ix[v])
        if op == "poly":
            need, terms = [], []
            for m, c in t.args:
                fs = []
                for a, p in m:
                    r = self.comp(a)
                    if p != 1: r = self.emit(("pw", a, p), "_pw(%s, %d)" % (r, p))
                    need.append(r); fs.append(r)
                if c != 1 or not fs: fs.append(self.const(c))
                terms.append("*".join(fs))
            need = [n for n in dict.fromkeys(need) if n.startswith("v")]
            e = " + ".join(terms) or "0"
            if need: e = "None if %s else %s" % (" or ".join(n + " is None" for n in need), e)
            return self.emit(t, e)
        if op == "ite":
            a = t.args[0]
            if a.op in ("le", "lt_"):
                e = self.comp(a.args[0])
                c = "%s %s %s" % (e, "<=" if a.op == "le" else "<", self.const(a.args[1]))
                x, y = self.comp(t.args[1]), self.comp(t.args[2])
                return self.emit(t, "None if %s is None else (%s if %s else %s)" % (e, x, c, y))
            v = self.rep.get(a, a)
            c = "x[%d] %% 2" % self.ix[v] if v in self.ix else "False"
            return self.emit(t, "%s if %s else %s" % (self.comp(t.args[1]), c, self.comp(t.args[2])))
        if op == "index" and t.args[0].op == "cat" and all(p.op == "one" for p in t.args[0].args):
            i = self.comp(t.args[1])
            return self.emit(t, "_pick(%s, (%s,))" % (i, ", ".join(self.comp(p.args[0]) for p in t.args[0].args)))
        if op in ("idiv", "imod"): return self.emit(t, "_%s(%s, %s)" % (op, self.comp(t.args[0]), self.comp(t.args[1])))
        if op in ("band", "bor", "bxor"): return self.emit(t, "_bits(%r, %s)" % (op, ", ".join(self.comp(a) for a in t.args)))
        if op in ("pow2", "toint", "ceil", "floor", "sqrt", "abs", "pow"): return self.emit(t, "_fn(%r, %s)" % (op, ", ".join(self.comp(a) for a in t.args if isinstance(a, T))))
        if op == "wrap":
            lo, hi = TM.INT_RANGE[t.args[1]]
            return self.emit(t, "_wrap(%s, %d, %d)" % (self.comp(t.args[0]), lo, hi))
        return "None"

def equal_on(path, x, y):
    """x = y follows from one pair of order tests on the path (e <= c and not e <= c-1, or e <= 0 for a natural e)"""
    up, down = {}, {}
    for a, v in path:
        if a.op != "le" or not isinstance(a.args[0], T): continue
        e, k = a.args[0], a.args[1]
        if v: up[e] = min(k, up.get(e, k))
        else: down[e] = max(k + 1, down.get(e, k + 1))
    for e, k in up.items():
        lo = rng(e)[0]
        if not is_int(e) or max(down.get(e, lo), lo) != k: continue
        for s in (1, -1):
            z = TM.add(TM.sub(x, y), TM.mul(num(-s), TM.sub(e, num(k))))
            if is_num(z) and z.args[0] == 0: return True
    return False

def extent(t):
    """(base, start, end) of a piece of a sequence"""
    if t.op == "slice": return t.args
    if t.op == "drop": return (t.args[0], t.args[1], TM.length(t.args[0]))
    return (t.args[0], num(0), t.args[1])

DEBUG = False
def kids(t):
    out, st = [], list(t.args)
    while st:
        a = st.pop()
        if isinstance(a, T): out.append(a)
        elif isinstance(a, tuple): st += a
    return out

def split(x, y):
    """the lowest tests and the lowest other terms that only x has, and all terms that only x has"""
    s = set(subterms(x))
    u = s - set(subterms(y))
    tests = {z.args[0] for z in s if z.op == "ite"} & u
    low = [t for t in u if t.op != "ite" and not any(k in u for k in kids(t))]
    users = {}
    for t in u:
        for k in kids(t):
            if k in u: users.setdefault(k, []).append(t)
    def inner(t, d=3):
        """only occurs within new tests"""
        us = users.get(t, ())
        return bool(us) and t not in tests and all(z in tests or d and z.op in ("poly", "band", "field", "payload", "len", "mget", "has") and inner(z, d - 1) for z in us)
    form, work = set(), [t for t in low if inner(t)]
    while work:
        t = work.pop()
        if t in form: continue
        form.add(t)
        work += [z for z in users.get(t, ()) if z not in tests and all(k not in u or k in form for k in kids(z))]
    A = [t for t in tests if all(k not in u or k in form for k in kids(t))]
    order = lambda t: t.id
    return sorted(A, key=order), sorted((t for t in low if t not in tests and t not in form), key=order), u

def paths_to(t, leaf, path=()):
    if t is leaf: yield path
    elif t.op == "ite":
        yield from paths_to(t.args[1], leaf, path + ((t.args[0], True),))
        yield from paths_to(t.args[2], leaf, path + ((t.args[0], False),))

def cubes(r, val, path=()):
    """the ways a condition comes out as val"""
    if r.op != "ite":
        if r is (TRUE if val else FALSE): yield path
        return
    yield from cubes(r.args[1], val, path + ((r.args[0], True),))
    yield from cubes(r.args[2], val, path + ((r.args[0], False),))

_skel = {}
def skel(t, d=4):
    """what a term looks like near its root"""
    if d == 0: return t.op
    r = _skel.get((t, d))
    if r is None:
        if t.op == "poly": r = ("poly",) + tuple(sorted((str(abs(c)), sorted((str(skel(v, d - 1)), e) for v, e in mono)) .__repr__() for mono, c in t.args))
        elif t.op == "pos": r = "pos"
        elif t.op in ("le", "lt_"):
            c = t.args[1]
            r = (t.op, str(min(c, -c - 1)) if t.op == "le" and is_int(t.args[0]) else str(abs(c)), skel(t.args[0], d))
        else: r = (t.op,) + tuple(skel(a, d - 1) if isinstance(a, T) else tuple(skel(b, d - 1) if isinstance(b, T) else str(b) for b in a) if isinstance(a, tuple) else str(a) for a in t.args)
        _skel[(t, d)] = r
    return r

def like(a, b):
    """b is a with another bound: the same change made to other tests"""
    if a.op not in ("le", "lt_") or b.op not in ("le", "lt_") or a.args[0] is not b.args[0]: return None
    ca, cb, s = a.args[1], b.args[1], skel(a)
    def f(x):
        if x is a: return b
        if x.op != a.op or skel(x) != s: return None
        if x.args[1] == ca: return mk(b.op, x.args[0], cb)
        if x.op == "le" and b.op == "le" and is_int(x.args[0]) and x.args[1] == -ca - 1: return mk("le", x.args[0], -cb - 1)
        return None
    return f

def laid_out(t, s):
    """the elements of the sorted sequence s follow one another in t in their order"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x is s: return True
        if x.op in ("cat", "one", "adt", "tuple", "bytes"): st += [a for a in x.args if isinstance(a, T)]
        elif x.op == "ite": st += [x.args[1], x.args[2]]
        elif x.op == "comp":
            if any(y.op == "one" or y.op == "pos" for y in subterms(x.args[1])): st.append(x.args[0])
            st.append(x.args[1])
        elif x.op in ("fold", "folds"):
            init, step = (x.args[1], x.args[2]) if x.op == "fold" else (x.args[1][0], x.args[2][0])
            if init.op == "cat" and TM._own_acc(x) is not None and TM._grows(step, TM._own_acc(x)) == float("inf"): st += [x.args[0], init, step]
        elif x.op == "scanseq": st += [x.args[0], x.args[3]] if isinstance(x.args[3], T) else [x.args[0]]
    return False

PAIREND = [None]
def pairs(t, q, out, n, path=()):
    """minimal pairs in which two terms differ (and the tests passed on the way to them); False if they are too far apart"""
    if t is q: return True
    if PAIREND[0] and time.monotonic() > PAIREND[0]: raise Late()
    if t.op == q.op and len(t.args) == len(q.args) and (t.op not in ("ite", "poly", "num", "sym", "acc", "pos") or t.op == "pos" and loopy(t) and loopy(q)):
        for a, b in zip(t.args, q.args):
            if isinstance(a, T) and isinstance(b, T):
                if not pairs(a, b, out, n, path): return False
            elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                for c, d in zip(a, b):
                    if isinstance(c, T) and isinstance(d, T):
                        if not pairs(c, d, out, n, path): return False
                    elif c != d:
                        out[t] = q; PAIRPATH.setdefault((t, q), path)
                        return len(out) <= n
            elif a != b:
                if out.get(t, q) is not q: return False
                out[t] = q; PAIRPATH.setdefault((t, q), path)
                return len(out) <= n
        return True
    if t.op == q.op == "poly":
        for sign in (1, -1):
            a, b = dict(t.args), {k: sign * c for k, c in q.args}
            da, db = [k for k in a if a[k] != b.get(k)], [k for k in b if b[k] != a.get(k)]
            if len(da) == len(db) == 1 and a[da[0]] == b[db[0]] and len(da[0]) == len(db[0]) == 1 and da[0][0][1] == db[0][0][1]:
                return pairs(da[0][0][0], db[0][0][0], out, n, path)
        return False
    if t.op == "le" and q.op == "le": return False
    if t.op == q.op == "ite" and loopy(t) and loopy(q):
        trial = dict(out)
        if pairs_ite(t, q, trial, n, 8, path):
            out.update(trial)
            return True
    if out.get(t, q) is not q: return False
    out[t] = q; PAIRPATH.setdefault((t, q), path)
    return len(out) <= n

def loopy(a):
    """a test about the outcome of a loop"""
    r = _loopy.get(a)
    if r is None: r = _loopy[a] = any(y.op in LOOPS for y in subterms(a))
    return r
_loopy = {}

def diagram_tests(t, n=40):
    out, st, seen = [], [t], set()
    while st and len(seen) < n:
        x = st.pop()
        if x.op != "ite" or x in seen: continue
        seen.add(x)
        if x.args[0] not in out: out.append(x.args[0])
        st += [x.args[2], x.args[1]]
    return out

def pairs_ite(t, q, out, n, depth, path):
    """two diagrams over tests of which some are about loops that differ"""
    if t is q or t is BOTTOM or q is BOTTOM: return True
    if depth == 0: return False
    if t.op != "ite" or q.op != "ite" or not (loopy(t) and loopy(q)): return pairs(t, q, out, n, path)
    theirs = set(diagram_tests(q))
    both = [a for a in diagram_tests(t) if a in theirs]
    if both:
        a = both[0]
        return all(pairs_ite(TM.cof(t, a, v), TM.cof(q, a, v), out, n, depth - 1, path + ((a, v),)) for v in (True, False))
    if not (loopy(t.args[0]) and loopy(q.args[0])): return False
    return pairs(t.args[0], q.args[0], out, n, path) and all(pairs_ite(x, y, out, n, depth - 1, path) for x, y in zip(t.args[1:], q.args[1:]))
PAIRPATH = {}

def swap(t, m):
    """exchange tests (by conditions) or values"""
    if all(x in (TRUE, FALSE) or x.op == "ite" for x in m.values()):
        return exchange(t, m)
    return substitute(t, m)

def kids_of(k):
    out, st = [], [k]
    while st:
        a = st.pop()
        if isinstance(a, T): out.append(a)
        elif isinstance(a, tuple): st += a
    return out

def carried(f):
    """does a sum mention a carried value itself (not merely something found in a carried collection)?"""
    for v in ([v for mono, _ in f.args for v, _ in mono] if f.op == "poly" else [f]):
        while v.op in ("field", "payload", "len"): v = v.args[0]
        if v.op == "acc": return True
    return False

def bounds_of(t):
    """for counters: one more than the lowest bound they are held against, beyond which they may never get"""
    out = {}
    for y in subterms(t):
        if y.op == "le" and y.args[0].op == "acc" and y.args[1] >= 0: out[y.args[0]] = min(out.get(y.args[0], y.args[1] + 1), y.args[1] + 1)
    return out
def within(path, limits):
    return tuple((mk("le", a, c), True) for a, c in limits.items() if any(b.op == "le" and b.args[0] is a for b, _ in path))

def start_of(u, a, n=6):
    """what a carried value is before the first round of the outermost loop"""
    while a.op == "acc" and n:
        L = next((L for L in subterms(u) if L.op in lib.LOOPSTATE and tagged(L) and a.args[1] in L.args[-1] and lib.own_level(L) == a.args[0]), None)
        if L is None: return None
        a, n = L.args[1][L.args[-1].index(a.args[1])], n - 1
    return a

def carried_in(a):
    """carried values a test is about; what is taken out of a heap stands for any element"""
    out, st = [], [a]
    while st:
        t = st.pop()
        if t.op == "acc": out.append(t)
        elif t.op != "hget": st += kids(t)
    return out

def at_start(u, path):
    """a path taken with all carried values as they start; None if that cannot be told or the path is not such"""
    extra = []
    for a, v in path:
        accs = carried_in(a)
        if not accs: continue
        if a.op == "has" and a.args[0].op == "acc" and not carried_in(a.args[1]):
            s = start_of(u, a.args[0])
            if v or s is None or s.op not in ("mapnew", "cat", "setnew") or s.args: return None
        elif a.op == "le":
            for y in accs:
                s = start_of(u, y)
                if s is None or s.op != "num": return None
                extra += [(mk("le", y, s.args[0]), True), (mk("le", TM.mul(num(-1), y), -s.args[0]), True)]
        else: return None
    return tuple(extra)

def tagged(t): return isinstance(t.args[-1], tuple) and len(t.args[-1]) > 0 and isinstance(t.args[-1][0], str)

def prune(t):
    """state of named loops that nothing reads any more, left out"""
    uses, loops = {}, []
    for z in subterms(t):
        if z.op in ("loopout", "loopval", "loopret"): uses.setdefault(z.args[0], []).append(z)
        if z.op in lib.LOOPSTATE and tagged(z): loops.append(z)
    keep = {}
    for L in loops:
        names = L.args[-1]
        roots = []
        for x in L.args[3:-1]: roots += x if isinstance(x, tuple) else [x]
        for z in uses.get(L, ()):
            for x in z.args[1:]: roots += [y for y in x if isinstance(y, T)] if isinstance(x, tuple) else [x] if isinstance(x, T) else []
        lv = lib.own_level(L)
        def mine(x): return {z.args[1] for z in subterms(x) if z.op == "acc" and z.args[0] == lv and z.args[1] in names} if isinstance(x, T) else set()
        live = set().union(*[mine(x) for x in roots]) if roots else set()
        if L.op == "folds": live.add(names[0])
        work = list(live)
        while work:
            for n in mine(L.args[2][names.index(work.pop())]) - live: live.add(n); work.append(n)
        if len(live) < len(names): keep[L] = live
    if not keep: return t
    memo = {}
    def go(z):
        r = memo.get(z)
        if r is None:
            r = TM.rebuild(z, go)
            if z in keep:
                ix = [i for i, n in enumerate(z.args[-1]) if n in keep[z]]
                a = list(r.args)
                for k in (1, 2): a[k] = tuple(a[k][i] for i in ix)
                a[-1] = tuple(a[-1][i] for i in ix)
                if z.op == "folds" and len(ix) == 1: r = typed(mk("fold", a[0], a[1][0], a[2][0]), z.ty)
                else: r = typed(mk(z.op, *a), z.ty)
            memo[z] = r
        return r
    return go(t)

def exchange(t, m):
    """t with the tests in m replaced by other conditions"""
    memo = {}
    has = {}
    def inside(t):
        r = has.get(t)
        if r is None:
            has[t] = False
            r = t in m
            if not r: r = any(inside(k) for k in kids(t))
            has[t] = r
        return r
    def go(t):
        if not inside(t): return t
        r = memo.get(t)
        if r is None:
            if t.op == "ite":
                c = m[t.args[0]] if t.args[0] in m else TM.go_atom(t.args[0], go)
                r = TM.ite(c, go(t.args[1]), go(t.args[2]))
            else: r = TM.rebuild(t, go)
            memo[t] = r
        return r
    return go(t)

def under(path, t):
    """t where the path holds: tests the path settles are dropped, also deep inside"""
    memo = {}
    def go(t):
        if not any(isinstance(a, (T, tuple)) for a in t.args): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == "eq" or t.op == "less": return t
        while t.op == "ite":
            v = decided(path, t.args[0])
            if v is None: break
            t = t.args[1] if v else t.args[2]
        b = TM.BINDS.get(t.op, ())
        if t.op == "ite" or not b: r = rebuild(t, go)
        else:
            r = t           # the sequence iterated names the position: left as it is
        memo[t] = r
        return r
    return go(t)

def decided(path, t):
    """truth of test t where the path holds, if the path's tests settle it one by one"""
    for a, v in path:
        if a is t: return v
        if a.op in ("le", "lt_") and t.op in ("le", "lt_") and a.args[0] is t.args[0]:
            # (bound, strictness) order: a smaller bound implies a larger one
            ka, kt = (a.args[1], a.op == "le"), (t.args[1], t.op == "le")
            if v and ka <= kt: return True
            if not v and kt <= ka: return False
            continue
        if a.op == "is" and t.op == "is" and a.args[0] is t.args[0]:
            if v: return False
            continue
        if a.op == "eq" and t.op == "less" and a.args == t.args and v: return False
        if a.op == "less" and t.op == "eq" and a.args == t.args and v: return False
    return None

def follow(x, t, v):
    return (x.args[1] if v else x.args[2]) if x.op == "ite" and x.args[0] is t else TM.cof(x, t, v)

def fmt(v):
    if isinstance(v, Fraction): return str(v) if v.denominator < 1000 else "%.6g" % float(v)
    return "%.6g" % v if isinstance(v, float) else str(v)

def numericish(t):
    if t.op in NUMERIC and t.op != "ite": return True
    return numeric(t) or t.ty in TM.INT_RANGE or t.ty in ("f64", "f32")

def seqish(t): return t.op in ("cat", "one", "comp", "bytes", "varint", "sort", "rev", "dedup", "slice", "take", "drop", "range", "scanseq", "overlay", "arr")

PROJ = ("field", "payload", "index", "mget")
def chain_of(x):
    """[root, step, step...] of a piece of the input (not of a loop's state)"""
    out = []
    while x.op in PROJ:
        out.append((x.op, x.args[1:]))
        x = x.args[0]
    if x.op != "sym": return None
    return [x] + out[::-1]

def mentions(y, c, memo=None):
    """y involves the piece of input at chain c, a part of it, or something it is a part of"""
    memo = {} if memo is None else memo
    if y in memo: return memo[y]
    r = False
    d = chain_of(y) if y.op in PROJ or y.op == "sym" else None
    if d is not None:
        if d[0] is c[0] and not any(apart(p, q) for p, q in zip(d[1:], c[1:])): r = True
        else:
            z = y
            while z.op in PROJ and not r:
                r = any(mentions(a, c, memo) for a in z.args[1:] if isinstance(a, T))
                z = z.args[0]
    else:
        for a in y.args:
            if isinstance(a, T): r = mentions(a, c, memo)
            elif isinstance(a, tuple): r = any(mentions(b, c, memo) for b in flatten(a))
            if r: break
    memo[y] = r
    return r

def flatten(a):
    for b in a:
        if isinstance(b, T): yield b
        elif isinstance(b, tuple): yield from flatten(b)

def apart(p, q):
    if p[0] != q[0]: return False
    if p[0] in ("field", "payload"): return p[1][:1] != q[1][:1] if p[0] == "field" else p[1][:2] != q[1][:2]
    return False

def projection(t):
    """a piece of the input no other piece determines"""
    while t.op in ("field", "payload", "index"):
        if t.op == "index" and t.args[1].op not in ("num", "pos", "sym", "poly", "field"): return False
        t = t.args[0]
    return t.op in ("sym", "acc", "cmpA", "cmpB", "pos") or t.op == "hget" and t.args[0].op == "acc"

def measure(t):
    """a number of the input no other one determines"""
    if t.op == "len": t = t.args[0]
    while t.op == "field": t = t.args[0]
    return t.op == "lparam" or projection(t)

def parts(x):
    if x.op == "cat": return list(x.args)
    return [x]

def minlen(p):
    if p.op in ("one", "varint"): return 1
    if p.op == "bytes":
        n = p.args[2]
        n = n.args[0] if isinstance(n, T) and is_num(n) else n
        return n if isinstance(n, (int, Fraction)) else 0
    if p.op == "cat": return sum(minlen(q) for q in p.args)
    return 0

def canbe(p):
    """can be non-empty"""
    if p.op == "comp": return canbe(p.args[0]) or p.args[0].op in ("sym", "field", "range", "index", "payload")
    if p.op in ("sym", "field", "payload", "index", "mget", "acc"): return True
    if p.op in ("take", "drop", "slice"): return canbe(p.args[0])
    if p.op == "cat": return any(canbe(q) for q in p.args)
    return minlen(p) > 0

def unitlike(p): return p.op in ("one", "bytes")

def sorted_source(t):
    while t.op in ("field", "payload", "index", "comp", "mget", "call"):
        if t.ty and ("BTree" in str(t.ty)): return True
        if not t.args or not isinstance(t.args[0], T): return True
        t = t.args[0]
    return bool(t.ty and "BTree" in str(t.ty)) or t.op in ("sort",)

def unique_source(t):
    while t.op in ("sort", "rev", "dedup"): t = t.args[0]
    return bool(t.ty and any(k in str(t.ty) for k in ("BTree", "HashMap", "HashSet", "Range"))) or t.op == "range"

def part_of(q, p):
    """q tells less than p does: its length, one of its elements or fields"""
    n = 0
    if q.op == "tuple": return bool(q.args) and all(part_of(a, p) for a in q.args)
    while q is not p and q.op in ("len", "index", "wrap", "imod", "idiv") and q.args and isinstance(q.args[0], T):
        q = q.args[0]; n += 1
    return n > 0 and q is p

def expand_bytes(p):
    if p.op == "one": return [p]
    n = p.args[2]
    n = n.args[0] if isinstance(n, T) and is_num(n) else n
    if not isinstance(n, (int, Fraction)): return None
    n = int(n)
    out = [TM.one(TM.imod(TM.idiv(p.args[0], num(256 ** i)), num(256))) for i in range(n)]
    return out if p.args[1] == "le" else out[::-1]

def nvars(t, out):
    """numeric leaves"""
    if t.op == "num": return
    if t.op == "poly":
        for m, c in t.args:
            for a, p in m: nvars(a, out)
        return
    if t.op == "ite":
        a = t.args[0]
        if a.op in ("le", "lt_"): nvars(a.args[0], out)
        else: out.add(a)
        nvars(t.args[1], out); nvars(t.args[2], out)
        return
    if t.op in NUMERIC:
        for a in t.args:
            if isinstance(a, T): nvars(a, out)
        return
    if t.op == "index" and t.args[0].op == "cat" and all(p.op == "one" for p in t.args[0].args):
        for p in t.args[0].args: nvars(p.args[0], out)
        nvars(t.args[1], out)
        return
    out.add(t)

def nconsts(t, out, seen=None):
    seen = seen if seen is not None else set()
    if t in seen: return
    seen.add(t)
    if t.op == "num": out.add(t.args[0])
    elif t.op == "poly":
        for m, c in t.args:
            if not m: out.add(-c)
            for a, p in m: nconsts(a, out, seen)
    elif t.op in ("le", "lt_"):
        out.add(Fraction(t.args[1])); nconsts(t.args[0], out, seen)
    else:
        for a in t.args:
            if isinstance(a, T): nconsts(a, out, seen)

