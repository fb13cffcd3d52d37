"""The analysed crate and the reference crate side by side, and calls into either at the level of terms."""
from . import facts, ev, lib
from .terms import *
from . import terms as TM

class Missing(Exception):
    """an entry point the property is about no longer exists"""

class Gone(Missing):
    """a function that is nobody's interface has another name or shape now"""

def private(tail):
    """functions of the crate that its users cannot name"""
    if tail == "spatial::global_bbox_for_zoom": return False
    return tail.startswith(("spatial::", "store::", "builder::", "coalesce::CoalesceStep", "CoalesceStep", "stackable::Arena", "ArenaManager",
        "TreeCoalesceState", "StackableNode", "gridstore_format::", "Writer", "Reader", "FixedVec", "VarVec", "UniformVec", "PhraseRecord", "RelevScore", "Coord")) \
        or "codable::" in tail or tail in PRIVATE
PRIVATE = {"coalesce::" + n for n in ("coalesce_single", "coalesce_multi", "grid_to_coalesce_entry", "tree_coalesce_single", "penalize_multi_context", "add_to_queue")} | {
    "stackable::binned_stackable"}

class World:
    def __init__(self):
        self.spec = ev.Crate(facts.spec()); ev.declare_types(self.spec)
        self.core = ev.Crate(facts.core()); ev.declare_types(self.core)
        self.memo = {}
        self.bounds = ()         # functions of the code left uninterpreted in the current observation
        self.functions = {}      # analysed functions -> times entered
        self.calls = set()
        self.notes = []
        self.alive = set()       # loop bodies of the current observation do not panic
        self.gs = []             # conditions under which the calls of the current observation return

    def broken(self, what):
        """the entry point exists in the source but its body could not be type-checked here"""
        return any(what.split("::")[-1].split(" ")[-1] in str(x) for x in (self.core.f.get("failed") or []))

    def find(self, crate, tail):
        p = crate.by_tail.get(tail)
        if p is None: raise (Gone if private(tail) else Missing)(tail)
        return p

    def canon(self, tail, spec=False):
        """the name calls of a function are recorded under"""
        return ev.canon_path(self.find(self.spec if spec else self.core, tail))

    def alias(self, spec):
        """one name for a reference function and its counterpart when both stay uninterpreted"""
        m = self.__dict__.setdefault("aliases", {})
        if spec not in m:
            from .rules import PARTS
            m[spec], twice = {}, [P.core for P in PARTS.values()]
            for P in PARTS.values():
                if P.args or twice.count(P.core) > 1: continue
                try: m[spec][self.canon(P.spec if spec else P.core, spec)] = "=" + P.spec
                except (Gone, Missing): pass
        return m[spec]

    def sig(self, crate, path):
        return [crate.types[p["t"]] if "t" in p else None for p in crate.bodies[path]["fn"]["params"]]

    def tnames(self, crate, path, skip_self):
        out = set()
        b = crate.bodies[path]
        def go(i):
            t = crate.types[i]
            if t["k"] == "param": out.add(t["s"])
            for a in t.get("args") or []:
                if isinstance(a, int): go(a)
        for p in b["fn"]["params"]:
            if "t" in p: go(p["t"])
        if b["fn"].get("ret") is not None: go(b["fn"]["ret"])
        if skip_self:
            st = b.get("self_ty") or ""
            inner = st[st.index("<"):] if "<" in st else ""
            import re
            out -= set(re.findall(r"\b\w+\b", inner))
        return out

    def call(self, tail, args=None, elem=None, spec=False, bounds=(), skip_self=False, path=None):
        """summary of calling a function on the given argument terms (missing arguments stay symbolic)"""
        crate = self.spec if spec else self.core
        p = path or self.find(crate, tail)
        if not spec:
            bounds = tuple(bounds) + self.bounds
            if private(tail): self.private = True
            if args and private(tail) and not path:
                ps = [q for q in crate.bodies[p]["fn"]["params"]]
                if len(ps) != len(args): raise Gone(tail)
                for q, a in zip(ps, args):
                    t = ev.scalar_ty(crate, q["t"]) if "t" in q else None
                    if a is not None and a.ty and t and t != a.ty and not (t in ("Vec", "T") or len(t) == 1): raise Gone(tail)
        key = (spec, p, tuple(args or ()), elem, tuple(sorted(bounds)), skip_self, lib.BYNAME[0])
        r = self.memo.get(key)
        if r is None:
            ts = {n: (None, elem) for n in self.tnames(crate, p, skip_self)} if elem else None
            e = ev.Ev(crate, boundaries=bounds, alias=self.alias(spec))
            before = set(lib.ALIVE)
            r = e.run(p, {i: a for i, a in enumerate(args or ()) if a is not None}, ts)
            r.alive = lib.ALIVE - before
            lib.ALIVE.clear(); lib.ALIVE.update(before)
            self.memo[key] = r
            if not spec:
                self.functions[p] = self.functions.get(p, 0) + 1
                for c in e.calls: self.calls.add(c)
                self.notes += e.notes
        if not spec and r.g is not TRUE: self.gs.append(r.g)
        if not spec: self.alive |= r.alive
        return r

    def params(self, tail):
        """argument symbols of a reference function"""
        p = self.find(self.spec, tail)
        out = []
        for i, q in enumerate(self.spec.bodies[p]["fn"]["params"]):
            tag = ev.scalar_ty(self.spec, q["t"]) if "t" in q else None
            s = sym("p%d" % i, tag)
            out.append(typed(s, tag))
        return out
