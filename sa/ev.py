"""Structural abstract evaluator: THIR facts -> canonical value-flow terms.

One pass over the typed syntax tree. Branches are joined into decision diagrams, loops are summarised once per
loop (no unrolling, no path enumeration): each variable a loop changes becomes a placeholder, the body is evaluated
once, and the step is classified (append, sum, any/all, counter, first match, per-element update, otherwise `fold`).
Calls of functions of the analysed crate are inlined unless listed as boundaries; everything else is either modelled
in lib.py or stays an uninterpreted call.
"""
import re, sys, time
from .terms import *
from . import terms as TM
from . import lib
from .lib import length
sys.setrecursionlimit(20000)
DEADLINE = [float('inf')]     # evaluation gives up (undetermined) past this moment

_gen = re.compile(r"::<[^<>]*>")

def strip_generics(p):
    """remove every balanced <...> that is a generic argument list (keeps `<X as Y>::` and `<impl X>`)"""
    out, i, n = [], 0, len(p)
    while i < n:
        if p[i] == "<" and i > 0 and (p[i - 1].isalnum() or p[i - 1] == "_" or p[i - 2:i] == "::") and not p[i:].startswith("<impl ") and not p[i:].startswith("<as "):
            d, j = 0, i
            while j < n:
                if p[j] == "<": d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0: break
                j += 1
            if p[i - 2:i] == "::" and out[-2:] == [":", ":"]: out = out[:-2]
            i = j + 1
        else:
            out.append(p[i]); i += 1
    return "".join(out)

def _tail(p, n=1): return "::".join(p.split("::")[-n:])

_simple = {}
_versions = __import__("itertools").count()   # never reused, by any evaluator
def simple_name(p):
    """('Type or Trait', 'method', 'implementing type or None')"""
    r = _simple.get(p)
    if r: return r
    s = strip_generics(p)
    impl = None
    if s.startswith("<"):
        # <X as Y>::m   or <X>::m
        d, j = 0, 0
        for j, ch in enumerate(s):
            if ch == "<": d += 1
            elif ch == ">" and s[j - 1] != "-":
                d -= 1
                if d == 0: break
        inner, rest = s[1:j], s[j + 1:].lstrip(":")
        if " as " in inner:
            x, y = inner.rsplit(" as ", 1)
            impl = _tail(x.replace("&mut ", "").replace("&", "").strip()) if "::" in x and "(" not in x and "[" not in x else x.strip()
            base = _tail(y.strip())
        else:
            impl, base = inner, _tail(inner)
        m = rest
    elif "<impl " in s:
        pre, rest = s.split("<impl ", 1)
        d = 1
        for j, ch in enumerate(rest):
            if ch == "<": d += 1
            elif ch == ">" and rest[j - 1] != "-":
                d -= 1
                if d == 0: break
        inner, m = rest[:j], rest[j + 1:].lstrip(":")
        impl = inner
        if " for " in inner:
            tr, x = inner.split(" for ", 1)
            base, impl = _tail(strip_generics(tr)), x
        else:
            base = pre.rstrip(":").split("::")[-1]
            if base == "num": base = "num"
            if inner.startswith("["): base = "slice"
            if inner == "str": base = "str"
    else:
        parts = s.split("::")
        m = parts[-1]
        base = parts[-2] if len(parts) > 1 else ""
    r = (base, m, impl)
    _simple[p] = r
    return r

class Unsupported(Exception): pass

class Crate:
    def __init__(self, facts):
        self.f = facts
        self.types = facts["types"]
        self.bodies = {}
        for b in facts["bodies"]:
            p = b["path"]
            if any(s in p for s in ("_IMPL_SERIALIZE", "_IMPL_DESERIALIZE", "_DERIVE_", "_serde")): continue
            self.bodies[p] = b
        self.by_tail = {}
        for p in self.bodies:
            self.by_tail.setdefault(canon_path(p), p)
        self.traits = {}
        for p, b in self.bodies.items():
            if b.get("impl_trait"):
                self.traits[(_tail(strip_generics(b["impl_trait"])), b["name"], type_head(b["self_ty"]))] = p
        self.renames = {}

    def ty(self, i): return self.types[i]

def type_head(s):
    s = strip_generics(s).strip()
    while s.startswith("&"):
        s = s[1:].lstrip()
        s = re.sub(r"^'\w+ ", "", s)
        if s.startswith("mut "): s = s[4:]
    s = re.sub(r"<.*$", "", s)
    return _tail(s)

def canon_path(p):
    """crate-independent name of a function: last two meaningful segments"""
    base, m, impl = simple_name(p)
    if impl and p.startswith("<"): return "%s as %s::%s" % (type_head(impl), base, m)
    s = strip_generics(p)
    parts = s.split("::")
    return "::".join(parts[-2:])

def declare_types(crate):
    for path, a in adt_items(crate.f):
        name = _tail(path)
        if name in ADTS and not crate.f["crate"].startswith("carmen_core"): continue
        vs = []
        for v in a["variants"]:
            vs.append((v["name"], [f["name"] for f in v["fields"]], [str_tag(f["ty"]) for f in v["fields"]]))
        declare_adt(name, "struct" if a["kind"].lower() == "struct" else "enum", vs)

def str_tag(s):
    m = re.match(r"^Unnormalized \{ value: (.*), \.\. \}$", s)
    if m: s = m.group(1)
    s = s.strip()
    while s.startswith("&"):
        s = re.sub(r"^&('\w+ )?(mut )?", "", s)
    if s in INT_RANGE or s in ("f32", "f64", "bool", "str", "char"): return s
    if s.startswith(("[", "(")): return None
    m = re.match(r"^(?:\w+::)*(Box|Rc|Arc|OrderedFloat)<(.*)>$", s)
    if m: return str_tag(m.group(2))
    h = type_head(s)
    return h if len(h) > 1 else None

def adt_items(f):
    a = f["adts"]
    if isinstance(a, dict): return [(k, v) for k, v in a.items() if v.get("local", True)]
    return [(x["path"], x) for x in a if x.get("local", True)]

def scalar_ty(crate, ti):
    """type tag of a leaf: scalar type name, or the head name of an ADT (references and boxes transparent)"""
    t = crate.types[ti]
    k = t["k"]
    if k in ("int", "uint", "float", "bool", "str", "char"): return t["s"]
    if k == "ref": return scalar_ty(crate, t["args"][0]) if t.get("args") else None
    if k == "adt":
        h = _tail(strip_generics(t["adt"]))
        if h in ("Box", "Rc", "Arc", "OrderedFloat", "Reverse") and t.get("args"):
            if h in ("Box", "Rc", "Arc", "OrderedFloat"): return scalar_ty(crate, t["args"][0])
        return h
    return None

# place path elements: ("f",name,ty) ("i",term,ty) ("v",variant,fname,ty) ("k",key,default or None)
def mref(root, path=()): return mk("mref", root, path)

class State:
    __slots__ = ("env", "g")
    def __init__(self, env, g): self.env, self.g = env, g

class Frame:
    def __init__(self, fid, path, tsub):
        self.id, self.path, self.tsub = fid, path, tsub
        self.rets = []
        self.targets = {}

class Ev:
    def __init__(self, crate, boundaries=(), opaque=None, fuel=2000000, alias=None):
        self.c = crate
        self.boundaries = set(boundaries)
        self.alias = alias or {}     # name -> name: calls of functions that stay uninterpreted
        self.floats = {}             # variables declared as floating point
        self.env = {}
        self.wishes = []
        self.g = TRUE
        self.nframe = 0
        self.frames = []
        self.stack = []
        self.loops = []          # active loop sources
        self.closures = {}
        self.ntmp = 0
        self.fuel = fuel
        self.names = {}
        self.notes = []          # things the evaluator had to leave uninterpreted
        self.calls = []          # (callee, caller) of everything met, for evidence
        self.lib = lib

    # ------------------------------------------------------------ entry
    def run(self, path, args=None, tsub=None):
        """summary of a function: (return value, {arg index: final value of a &mut parameter})"""
        b = self.c.bodies[path]
        fn = b["fn"]
        vals = []
        self.env[("io",)] = EMPTY
        for i, p in enumerate(fn["params"]):
            t = self.c.types[p["t"]] if "t" in p else None
            tag = scalar_ty(self.c, p["t"]) if t else None
            if tsub and t:
                u = t
                while u["k"] == "ref" and u.get("args"): u = self.c.types[u["args"][0]]
                if u["k"] == "param" and u["s"] in tsub: tag = tsub[u["s"]][1]
            s = sym("p%d" % i, tag)
            s = typed(s, tag)
            if args and i in args: s = args[i]
            if t and t["k"] == "ref" and t.get("mut"):
                self.env[("arg", i)] = s
                self.names[("arg", i)] = "arg%d" % i
                vals.append(mref(("arg", i)))
            else: vals.append(s)
        r = self.inline(path, vals, tsub or {})
        outs = {k[1]: v for k, v in self.env.items() if k[0] == "arg"}
        io = self.env.get(("io",), EMPTY)
        return Summary(path, self.rv(r), outs, io, self.g, self.notes, self.calls)

    def need(self, c):
        """the straight-line code that follows runs only if c holds (an out-of-bounds slice panics)"""
        if self.loops or getattr(self, "lamdepth", 0) or c in (FALSE, TRUE) or c.op != "ite": return
        if all(isinstance(y, T) and y.op in ("ite", "bool", "le", "lt_", "len", "sym", "num", "poly", "varlen", "field", "const", "imod", "idiv", "payload", "pow2", "isvar", "vdec", "leint", "drop", "take", "slice") or y in (TRUE, FALSE) for y in subterms(c)):
            self.g = And(self.g, c)

    def tmp(self, v):
        self.ntmp += 1
        k = ("tmp", self.ntmp)
        self.env[k] = v
        return k

    def dead(self): return self.g is FALSE

    # ------------------------------------------------------------ values & places
    def rv(self, v):
        """read through mutable references"""
        n = 0
        while v.op == "mref" and n < 20:
            v = self.read(v.args[0], v.args[1]); n += 1
        if v.op == "ite" and any(l.op == "mref" for _, l in leaves(v)):
            v = lift(lambda x: self.rv(x), ("rv", self.ntmp, id(self), self._envver()), (v,))
        return v

    def _envver(self):
        return next(_versions)

    def read(self, root, path):
        v = self.env.get(root)
        if v is None: raise Unsupported("unbound %s" % (root,))
        return self.project(v, path)

    def project(self, v, path):
        for n, e in enumerate(path):
            if v.op == "mref":
                v = self.read(v.args[0], v.args[1])
            if v.op == "ite" and any(l.op == "mref" for _, l in leaves(v)): v = self.rv(v)
            if e[0] == "f": v = field(v, e[1], e[2])
            elif e[0] == "i": v = index(v, e[1], e[2])
            elif e[0] == "v": v = payload(v, e[1], e[2], e[3])
            elif e[0] == "k": v = self.lib.map_read(v, e[1], e[2])
            elif e[0] == "s": v = self.lib.slice_(v, e[1], e[2])
            elif e[0] == "h": v = self.lib._models.hget(v, e[1], e[2])
        return v

    def write(self, root, path, val):
        old = self.env.get(root)
        if old is not None and old.op == "mref" and path is not None:
            # variable holding a reference: writing through a path goes to the target
            if path: return self.write(old.args[0], old.args[1] + path, val)
        if path and old is not None and old.op == "ite" and any(l.op == "mref" for _, l in leaves(old)):
            for g, l in leaves(old):
                if l.op != "mref": raise Unsupported("write through a reference whose target is not known")
                was = self.read(l.args[0], l.args[1] + path)
                self.write(l.args[0], l.args[1] + path, ite(g, val, was))
            return
        # walk the path while crossing embedded references
        v = old
        for n, e in enumerate(path):
            if v is None: break
            if v.op == "mref": return self.write(v.args[0], v.args[1] + path[n:], val)
            if e[0] == "f": v = field(v, e[1], e[2])
            elif e[0] == "v": v = payload(v, e[1], e[2], e[3])
            else: break
        self.env[root] = self.updated(old, path, val)

    def write_ref(self, r, val):
        if r.op == "mref":
            self.write(r.args[0], r.args[1], val)
        elif r.op == "ite":
            for g, l in leaves(r):
                if l.op == "mref":
                    old = self.read(l.args[0], l.args[1])
                    self.write(l.args[0], l.args[1], ite(g, val, old))
                elif l.op != "bottom": raise Unsupported("write through a reference whose target is not known")
        else: raise Unsupported("write through a reference whose target is not known")

    def updated(self, v, path, val):
        if not path: return val
        e, rest = path[0], path[1:]
        if e[0] == "f":
            return self.set_field(v, e[1], self.updated(field(v, e[1], e[2]), rest, val))
        if e[0] == "i":
            return self.lib.seq_set(v, e[1], self.updated(index(v, e[1], e[2]), rest, val))
        if e[0] == "v":
            return self.set_payload(v, e[1], e[2], self.updated(payload(v, e[1], e[2], e[3]), rest, val))
        if e[0] == "k":
            return self.lib.map_ins(v, e[1], self.updated(self.lib.map_read(v, e[1], e[2]), rest, val))
        if e[0] == "s":
            return self.lib.overlay(v, e[1], self.updated(self.lib.slice_(v, e[1], e[2]), rest, val))
        if e[0] == "h":
            return self.lib._models.hset(v, e[1], self.updated(self.lib._models.hget(v, e[1], e[2]), rest, val))
        raise Unsupported(str(e))

    def set_field(self, v, name, val):
        def f(v, val):
            if v.op == "adt":
                d = ADTS.get(v.args[0])
                if d:
                    for vn, fs, _ in d["variants"]:
                        if vn == v.args[1] and name in fs:
                            a = list(v.args[2:]); a[fs.index(name)] = val
                            return adt(v.args[0], v.args[1], *a)
                if name.isdigit() and int(name) + 2 < len(v.args):
                    a = list(v.args[2:]); a[int(name)] = val
                    return adt(v.args[0], v.args[1], *a)
            if v.op == "tuple" and name.isdigit() and int(name) < len(v.args):
                a = list(v.args); a[int(name)] = val
                return mk("tuple", *a)
            d = ADTS.get(v.ty) if v.ty else None
            if d and d["kind"] == "struct":
                vn, fs, tys = d["variants"][0]
                if name in fs:
                    a = [field(v, n, t) for n, t in zip(fs, tys)]
                    a[fs.index(name)] = val
                    return adt(v.ty, vn, *a)
            return setfield(v, name, val)
        if v.op == "ite": return lift(lambda x, y: f(x, y), ("set_field", name), (v, val))
        return f(v, val)

    def set_payload(self, v, variant, fname, val):
        def f(v, val):
            if v.op == "adt":
                if v.args[1] != variant: return v
                i = int(fname) if fname.isdigit() else 0
                d = ADTS.get(v.args[0])
                if d:
                    for vn, fs, _ in d["variants"]:
                        if vn == variant and fname in fs: i = fs.index(fname)
                a = list(v.args[2:]); a[i] = val
                return adt(v.args[0], v.args[1], *a)
            if variant == "Some": return some(val)
            return mk("setpayload", v, variant, fname, val)
        return lift(f, ("set_payload", variant, fname), (v, val))

    def place(self, x):
        """(root, path) of a place expression, or None when it is an rvalue"""
        k = x["k"]
        if k in ("use", "never", "coerce"): return self.place(x["e"])
        if k == "var":
            key = self.varkey(x["var"])
            return (key, ())
        if k == "field":
            p = self.place(x["e"])
            if p is None: return None
            if self.transparent(x["e"]): return p
            return (p[0], p[1] + (("f", x["name"], self.tag(x)),))
        if k == "deref":
            inner = x["e"]
            p = self.place(inner)
            if p is not None:
                v = self.read(*p)
                if v.op == "mref": return (v.args[0], v.args[1])
                return p
            v = self.eval(inner)
            if self.dead(): return None
            if v.op == "mref": return (v.args[0], v.args[1])
            return (self.tmp(v), ())
        if k == "index":
            p = self.place(x["e"])
            if p is None: return None
            i = self.rv(self.eval(x["i"]))
            return (p[0], p[1] + (("i", i, self.tag(x)),))
        if k == "call":
            # Index::index / IndexMut::index_mut yields a place
            v = self.eval(x)
            if self.dead(): return None
            if v.op == "mref": return (v.args[0], v.args[1])
            return (self.tmp(v), ())
        if k == "block" and not x["stmts"] and x.get("e") is not None and x.get("lbl") is None:
            return self.place(x["e"])
        return None

    def reaches(self, x):
        """a write through this place reaches the variable it belongs to: refuse to lose it silently"""
        x = self.strip(x)
        while x["k"] in ("field", "index", "deref"):
            if x["k"] == "deref":
                inner = self.strip(x["e"])
                t = self.c.types[inner["t"]] if "t" in inner else None
                if t is not None and t["k"] == "ref" and t.get("mut") and inner["k"] in ("var", "upvar", "field"):
                    q = self.place(inner)
                    if q is not None:
                        v = self.read(*q)
                        if v.op != "mref" and not any(l.op == "mref" for _, l in leaves(v)):
                            raise Unsupported("write through a reference whose target is not known")
            x = self.strip(x["e"])

    def varkey(self, var):
        for f in reversed(self.frames):
            if (f.id, var) in self.env: return (f.id, var)
        return (self.frames[-1].id, var)

    def tag(self, x):
        if "t" not in x: return None
        t = self.c.types[x["t"]]
        if t["k"] == "param":
            r = self.frames[-1].tsub.get(t["s"]) if self.frames else None
            return r[1] if r else None
        return scalar_ty(self.c, x["t"])

    # ------------------------------------------------------------ joins
    def join(self, sel, s1, v1, s2, v2):
        """states s1 (when sel) and s2; either may be dead"""
        if s1.g is FALSE:
            self.env, self.g = s2.env, s2.g
            return v2
        if s2.g is FALSE:
            self.env, self.g = s1.env, s1.g
            return v1
        env = {}
        for k, a in s1.env.items():
            b = s2.env.get(k)
            if b is None: continue
            env[k] = a if a is b else ite(sel, a, b)
        self.env, self.g = env, Or(s1.g, s2.g)
        if v1 is v2: return v1
        return ite(sel, v1, v2)

    def join_many(self, outs):
        """outs: list of (State, value); guards are disjoint"""
        outs = [(s, v) for s, v in outs if s.g is not FALSE]
        if not outs:
            self.g = FALSE
            return BOTTOM
        s, v = outs[-1]
        for s1, v1 in reversed(outs[:-1]):
            sel = restrict(s1.g, Or(s1.g, s.g))
            v = self.join(sel, s1, v1, s, v)
            s = State(self.env, self.g)
        self.env, self.g = s.env, s.g
        return v

    def branch(self, c, f1, f2):
        c = restrict(c, self.g)
        if c is TRUE: return f1()
        if c is FALSE: return f2()
        env0, g0 = self.env, self.g
        self.env, self.g = dict(env0), And(g0, c)
        v1 = f1(); s1 = State(self.env, self.g)
        self.env, self.g = dict(env0), And(g0, Not(c))
        v2 = f2(); s2 = State(self.env, self.g)
        full = s1.g is And(g0, c) and s2.g is And(g0, Not(c))
        sel = c if full else restrict(s1.g, Or(s1.g, s2.g)) if s1.g is not FALSE and s2.g is not FALSE else c
        return self.join(sel, s1, v1, s2, v2)

    # ------------------------------------------------------------ expressions
    def eval(self, x):
        if self.g is FALSE: return BOTTOM
        self.fuel -= 1
        if self.fuel < 0: raise Unsupported("out of fuel")
        if not self.fuel & 255 and time.monotonic() > DEADLINE[0]: raise Unsupported("out of time")
        m = getattr(self, "e_" + x["k"], None)
        if m is None:
            self.notes.append("expr " + x["k"])
            return typed(mk("opaque", x["k"]), self.tag(x))
        v = m(x)
        if v is None: raise Unsupported("no value from " + x["k"])
        return v

    def val(self, x):
        v = self.eval(x)
        return v if self.g is FALSE else self.rv(v)

    def e_use(self, x): return self.eval(x["e"])
    e_never = e_use
    def e_coerce(self, x): return self.eval(x["e"])

    def e_lit(self, x):
        v = x["v"]
        return self.lit(v)

    def lit(self, v):
        t = v["t"]
        if t == "int": return num(int(v["v"]))
        if t == "float":
            s = str(v["v"]).rstrip("f")
            s = re.sub(r"_?f(32|64)$", "", s).replace("_", "")
            return num(Fraction(s))
        if t == "bool": return TRUE if v["v"] in (True, "true") else FALSE
        if t == "str": return mk("str", v["v"])
        if t in ("bytestr", "byte", "char"):
            if t == "byte": return num(int(v["v"]))
            if t == "bytestr": return self.lib.bytestr(v["v"])
            return mk("char", v["v"])
        return mk("litother", t, str(v.get("v")))

    def e_var(self, x):
        key = self.varkey(x["var"])
        v = self.env.get(key)
        if v is None: raise Unsupported("unbound var %s in %s" % (x["var"], self.frames[-1].path))
        return v

    def e_deref(self, x):
        v = self.eval(x["e"])
        if self.dead(): return BOTTOM
        return self.rv(v)

    def e_field(self, x):
        p = self.place(x)
        if self.dead(): return BOTTOM
        if p is not None: return self.read(*p)
        if self.transparent(x["e"]): return self.val(x["e"])
        return field(self.val(x["e"]), x["name"], self.tag(x))

    def newtype(self, e):
        t = self.c.types[e["t"]] if e.get("t") is not None else None
        while t and t["k"] == "ref": t = self.c.types[t["args"][0]]
        return bool(t and t["k"] == "adt" and _tail(strip_generics(t["adt"])) in ("OrderedFloat", "Wrapping"))

    def transparent(self, e):
        t = self.c.types[e["t"]] if e.get("t") is not None else None
        return bool(t and t["k"] == "adt" and _tail(strip_generics(t["adt"])) in ("OrderedFloat", "Wrapping"))

    def e_index(self, x):
        p = self.place(x)
        if self.dead(): return BOTTOM
        if p is not None:
            if p[1] and p[1][-1][0] == "i":
                t = self.c.types[x["e"]["t"]] if "t" in x["e"] else {"k": "?"}
                while t["k"] == "ref": t = self.c.types[t["args"][0]]
                self.need(lt(p[1][-1][1], num(int(t["len"])) if t["k"] == "array" and t.get("len") is not None else length(self.rv(self.read(p[0], p[1][:-1])))))
            return self.read(*p)
        return index(self.val(x["e"]), self.val(x["i"]), self.tag(x))

    def e_borrow(self, x):
        if x["mut"] and x["mut"] not in ("Not", False):
            p = self.place(x["e"])
            if self.dead(): return BOTTOM
            if p is not None:
                self.reaches(x["e"])
                v = self.env.get(p[0])
                # reborrow of a variable that holds a reference
                if not p[1] and v is not None and v.op == "mref" and self.strip(x["e"])["k"] == "deref": return v
                return mref(p[0], p[1])
            return mref(self.tmp(self.eval(x["e"])))
        v = self.eval(x["e"])
        return v
    def e_rawborrow(self, x): return self.eval(x["e"])

    def strip(self, x):
        while x["k"] in ("use", "never", "coerce"): x = x["e"]
        return x

    def e_block(self, x):
        lbl = x.get("lbl")
        if lbl is not None: self.frames[-1].targets.setdefault(lbl, []).append([])
        v = UNIT
        for s in x["stmts"]:
            if self.dead(): break
            if "p" in s:
                self.let(s)
            else:
                self.eval(s.get("e", s))
        if not self.dead():
            v = self.eval(x["e"]) if x.get("e") is not None else UNIT
        if lbl is not None:
            outs = self.frames[-1].targets[lbl].pop()
            outs.append((State(self.env, self.g), v))
            v = self.join_many(outs)
        return v

    def let(self, s):
        if s.get("init") is None:
            return
        init = s["init"]
        pl, v = self.scrut(init, s["p"])
        if self.dead(): return
        if s.get("els"):
            c = self.patcond(s["p"], v)
            def ok():
                self.bind(s["p"], v, pl); return UNIT
            self.branch(c, ok, lambda: self.eval(s["els"]))
        else:
            self.bind(s["p"], v, pl)

    def scrut(self, x, *pats):
        """value of a scrutinee, with its place when some pattern binds by mutable reference"""
        if any(has_mut_bind(p) for p in pats):
            p = self.place(x)
            if self.dead(): return None, BOTTOM
            if p is not None: return p, self.read(*p)
        return None, self.eval(x)

    # patterns -----------------------------------------------------
    def patcond(self, p, v):
        k = p["k"]
        if k in ("wild", "never", "env"): return TRUE
        if k == "bind": return self.patcond(p["sub"], v) if p.get("sub") else TRUE
        if k == "deref": return self.patcond(p["sub"], self.rv(v))
        v = self.rv(v)
        if k == "variant":
            name = _tail(strip_generics(p["adt"]))
            c = is_variant(v, name, p["variant"])
            if c is FALSE: return FALSE
            for f, sp in p["fields"]:
                c = And(c, self.patcond(sp, payload(v, p["variant"], str(f), self.ptag(sp))))
            return c
        if k == "leaf" and self.newtype(p): return And(*[self.patcond(sp, v) for _, sp in p["fields"]])
        if k == "leaf":
            c = TRUE
            for f, sp in p["fields"]: c = And(c, self.patcond(sp, field(v, str(f), self.ptag(sp))))
            return c
        if k == "const":
            return eq(v, self.lit(p["v"])) if p["v"].get("t") != "other" else atom(mk("constpat", v, str(p["v"])))
        if k == "range":
            c = TRUE
            if p.get("lo") is not None: c = And(c, le(self.lit(p["lo"]), v))
            if p.get("hi") is not None:
                h = self.lit(p["hi"])
                c = And(c, le(v, h) if p.get("incl") else lt(v, h))
            return c
        if k == "or":
            return Or(*[self.patcond(q, v) for q in (p.get("pats") or p.get("ps") or p.get("alts"))])
        if k == "slice":
            pre, mid, post = p.get("pre") or [], p.get("mid"), p.get("post") or []
            n = num(len(pre) + len(post))
            c = TRUE if self.isarr(p) else le(n, length(v)) if mid is not None else eq(length(v), n)
            for i, q in enumerate(pre): c = And(c, self.patcond(q, index(v, num(i), self.ptag(q))))
            for i, q in enumerate(post): c = And(c, self.patcond(q, index(v, sub(length(v), num(len(post) - i)), self.ptag(q))))
            return c
        raise Unsupported("pattern " + k)

    def isarr(self, p):
        return "t" in p and p["t"] is not None and self.c.types[p["t"]]["k"] == "array"

    def ptag(self, p):
        return scalar_ty(self.c, p["t"]) if "t" in p and p["t"] is not None else None

    def bind(self, p, v, pl=None):
        k = p["k"]
        if k in ("wild", "const", "range", "never", "env"): return
        if k == "bind":
            key = (self.frames[-1].id, p["var"])
            by = p.get("by")
            self.names[key] = p["name"]
            if by_mut(p) and pl is not None: self.env[key] = mref(pl[0], pl[1])
            else:
                self.env[key] = v
                if self.ptag(p) in ("f64", "f32"): self.floats[key] = self.ptag(p)
            if p.get("sub"): self.bind(p["sub"], v, pl)
            return
        if k == "deref":
            if v.op == "mref": return self.bind(p["sub"], self.rv(v), (v.args[0], v.args[1]))
            return self.bind(p["sub"], v, pl)
        if v.op == "mref":
            pl = (v.args[0], v.args[1]); v = self.rv(v)
        if k == "variant":
            for f, sp in p["fields"]:
                t = self.ptag(sp)
                self.bind(sp, payload(v, p["variant"], str(f), t), (pl[0], pl[1] + (("v", p["variant"], str(f), t),)) if pl else None)
            return
        if k == "leaf" and self.newtype(p):
            for _, sp in p["fields"]: self.bind(sp, v, pl)
            return
        if k == "leaf":
            for f, sp in p["fields"]:
                t = self.ptag(sp)
                self.bind(sp, field(v, str(f), t), (pl[0], pl[1] + (("f", str(f), t),)) if pl else None)
            return
        if k == "or":
            alts = p.get("pats") or p.get("ps") or p.get("alts")
            binds = []
            for q in alts:
                self.bind(q, v, pl)
                binds.append((self.patcond(q, v), {kk: self.env[kk] for kk in [(self.frames[-1].id, b) for b in pat_vars(q)]}))
            names = [b for b in pat_vars(alts[0])]
            # same binding names, possibly different ids per alternative: merge by id
            if names:
                for b in names:
                    key = (self.frames[-1].id, b)
                    r = None
                    for c, d in reversed(binds):
                        if key in d: r = d[key] if r is None else ite(c, d[key], r)
                    if r is not None: self.env[key] = r
            return
        if k == "slice":
            pre, mid, post = p.get("pre") or [], p.get("mid"), p.get("post") or []
            for i, q in enumerate(pre): self.bind(q, index(v, num(i), self.ptag(q)), (pl[0], pl[1] + (("i", num(i), self.ptag(q)),)) if pl else None)
            if mid: self.bind(mid, self.lib.slice_(v, num(len(pre)), sub(length(v), num(len(post)))), None)
            for i, q in enumerate(post):
                ix = sub(length(v), num(len(post) - i))
                self.bind(q, index(v, ix, self.ptag(q)), (pl[0], pl[1] + (("i", ix, self.ptag(q)),)) if pl else None)
            return
        raise Unsupported("bind " + k)

    # conditions ---------------------------------------------------
    def cond(self, x):
        """boolean diagram; `let` conditions bind their variables"""
        x = self.strip(x)
        k = x["k"]
        if k == "let":
            pl, v = self.scrut(x["e"], x["p"])
            if self.dead(): return FALSE
            c = self.patcond(x["p"], v)
            if c is not FALSE: self.bind(x["p"], v, pl)
            return c
        if k == "logic":
            a = self.cond(x["a"])
            if self.dead(): return FALSE
            isand = x["op"] == "And"
            env0, g0 = self.env, self.g
            ga = restrict(a, g0) if isand else restrict(Not(a), g0)
            if ga is FALSE: return FALSE if isand else TRUE
            gb = And(g0, ga)
            self.env, self.g = dict(env0), gb
            b = self.cond(x["b"])
            if self.dead():
                # right operand diverges: only the short circuit survives
                self.env, self.g = env0, And(g0, Not(ga))
                return FALSE if isand else TRUE
            # bindings and effects of b happen only when evaluated
            for kk, vv in self.env.items():
                o = env0.get(kk)
                if o is None or o is vv: env0 = _with(env0, kk, vv)
                else: env0 = _with(env0, kk, ite(ga, vv, o))
            self.env, self.g = env0, g0 if self.g is gb else Or(And(g0, Not(ga)), self.g)
            return And(a, b) if isand else Or(a, b)
        if k == "un" and x["op"] == "Not": return Not(self.cond(x["e"]))
        v = self.val(x)
        if self.dead(): return FALSE
        return bool_of(v)

    def e_let(self, x): return self.cond(x)
    def e_logic(self, x): return self.cond(x)

    def e_if(self, x):
        c = self.cond(x["c"])
        if self.dead(): return BOTTOM
        if c is TRUE and x.get("b") is None and self.strip(x["c"])["k"] == "lit":
            # debug_assert!: a panic of debug builds only
            env0, g0, w0 = self.env, self.g, len(self.wishes)
            r = self.eval(x["a"])
            if self.g is not g0 and not any(self.env.get(k) is not v for k, v in env0.items()):
                self.env, self.g = env0, g0
                del self.wishes[w0:]
                return UNIT
            return r
        return self.branch(c, lambda: self.eval(x["a"]), lambda: self.eval(x["b"]) if x.get("b") is not None else UNIT)

    def e_match(self, x):
        src = x.get("src")
        if src and src.startswith("ForLoop"):
            r = self.for_loop(x)
            if r is not None: return r
        arms = x["arms"]
        pl, v = self.scrut(x["e"], *[a["p"] for a in arms])
        if self.dead(): return BOTTOM
        def go(i):
            if i >= len(arms):
                self.g = FALSE
                return BOTTOM
            a = arms[i]
            c = self.patcond(a["p"], v)
            if i == len(arms) - 1 and not a.get("g"): c = TRUE
            if a.get("g"):
                # evaluate the guard with the bindings in place
                cc = restrict(c, self.g)
                if cc is FALSE: return go(i + 1)
                env0, g0 = self.env, self.g
                self.env, self.g = dict(env0), And(g0, cc)
                self.bind(a["p"], v, pl)
                gc = self.cond(a["g"])
                self.unchanged(env0)
                self.env, self.g = env0, g0
                c = And(c, gc)
            def arm():
                self.bind(a["p"], v, pl)
                if a.get("g"): self.cond(a["g"])   # re-establish if-let guard bindings
                return self.eval(a["b"])
            return self.branch(c, arm, lambda: go(i + 1))
        return go(0)

    # operators ----------------------------------------------------
    def e_bin(self, x):
        a = self.val(x["a"])
        if self.dead(): return BOTTOM
        b = self.val(x["b"])
        if self.dead(): return BOTTOM
        return self.binop(x["op"], a, b, self.tag(x["a"]), self.tag(x))

    def binop(self, op, a, b, ta=None, tr=None):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            f = {"Eq": eq, "Ne": ne, "Lt": lt, "Le": le, "Gt": gt, "Ge": ge}[op]
            return f(a, b)
        if ta == "bool" or (ta is None and (a in (TRUE, FALSE))):
            a, b = bool_of(a), bool_of(b)
            if op == "BitAnd": return And(a, b)
            if op == "BitOr": return Or(a, b)
            if op == "BitXor": return ite(a, Not(b), b)
        fl = ta in ("f32", "f64")
        r = None
        if op == "Add": r = add(a, b)
        elif op == "Sub": r = sub(a, b)
        elif op == "Mul": r = mul(a, b)
        elif op == "Div": r = fdiv(a, b) if fl else idiv(a, b)
        elif op == "Rem": r = mk("fmod", a, b) if fl else imod(a, b)
        elif op == "Shl":
            r = shl(a, b)
            w = ta
            if w in INT_RANGE and rng(r)[1] > INT_RANGE[w][1] and not any(x.op == "pow2" for x in subterms(r)):
                r = self.lib.wrap(r, w)
        elif op == "Shr": r = shr(a, b)
        elif op == "BitAnd": r = band(a, b)
        elif op == "BitOr": r = bor(a, b)
        elif op == "BitXor": r = bxor(a, b)
        if r is None: raise Unsupported("binop " + op)
        return r

    def e_un(self, x):
        if x["op"] == "Not":
            if self.tag(x) == "bool": return Not(self.cond(x["e"]))
            v = self.val(x["e"])
            t = self.tag(x)
            if t in INT_RANGE and t[0] == "u": return sub(num(INT_RANGE[t][1]), v)
            return mk("bitnot", v)
        return neg(self.val(x["e"]))

    def e_cast(self, x):
        v = self.val(x["e"])
        if self.dead(): return BOTTOM
        src, dst = self.tag(x["e"]), self.tag(x)
        return self.cast(v, src, dst)

    def cast(self, v, src, dst):
        if src == "bool" and dst in INT_RANGE: return ite(bool_of(v), num(1), num(0))
        if dst in ("f32", "f64"): return v
        if dst in INT_RANGE:
            if src in ("f32", "f64"):
                def f(v):
                    if is_num(v): return num(int(v.args[0]))
                    if v.op in ("round", "floor", "ceil") or is_int(v):
                        return typed(mk("toint", v), None) if not is_int(v) else v
                    return mk("toint", v)
                return lift(f, "toint", (v,))
            if v.op in ("adt", "ite"):
                # a fieldless enum has the value of its discriminant
                ds = self.c.__dict__.get("discr")
                if ds is None:
                    ds = self.c.discr = {}
                    for path, a in adt_items(self.c.f):
                        for q in a["variants"]:
                            if q.get("discr") is not None and not q["fields"]: ds[_tail(path), q["name"]] = int(q["discr"])
                v = lift(lambda y: num(ds[y.args[:2]]) if y.op == "adt" and y.args[:2] in ds else y, ("discr", id(self.c)), (v,))
            return self.lib.wrap(v, dst)
        return v

    def e_assign(self, x):
        v = self.eval(x["b"])
        if self.dead(): return BOTTOM
        lhs = self.strip(x["a"])
        if lhs["k"] == "var":
            key = self.varkey(lhs["var"])
            self.env[key] = v
            return UNIT
        p = self.place(x["a"])
        if self.dead(): return BOTTOM
        if p is None: raise Unsupported("assign")
        self.reaches(x["a"])
        if lhs["k"] == "deref":
            d = self.strip(lhs["e"])
            if d["k"] == "var":
                cur = self.env.get(self.varkey(d["var"]))
                if cur is not None and cur.op in ("mref", "ite") : 
                    self.write_ref(cur, self.rv(v)); return UNIT
        self.write(p[0], p[1], self.rv(v) if p[1] else v)
        return UNIT

    def e_assignop(self, x):
        b = self.val(x["b"])
        if self.dead(): return BOTTOM
        p = self.place(x["a"])
        if self.dead(): return BOTTOM
        if p is None: raise Unsupported("assign")
        self.reaches(x["a"])
        a = self.rv(self.read(*p))
        op = x["op"].replace("Assign", "")
        lhs = self.strip(x["a"])
        if lhs["k"] == "deref" and not p[1]:
            cur = self.env.get(p[0])
            if cur is not None and cur.op == "ite" and any(l.op == "mref" for _, l in leaves(cur)):
                self.write_ref(cur, self.binop(op, a, b, self.tag(x["a"]), self.tag(x["a"])))
                return UNIT
        self.write(p[0], p[1], self.binop(op, a, b, self.tag(x["a"]), self.tag(x["a"])))
        return UNIT

    def e_tuple(self, x):
        vs = [self.eval(e) for e in x.get("es") or x.get("fields") or x.get("args") or []]
        if self.dead(): return BOTTOM
        return mk("tuple", *vs)

    def e_array(self, x):
        vs = [self.val(e) for e in x.get("es") or x.get("fields") or x.get("args") or []]
        if self.dead(): return BOTTOM
        return cat(*[one(v) for v in vs])

    def e_repeat(self, x):
        v = self.val(x["e"])
        n = x.get("n")
        try: n = num(int(n))
        except Exception: n = mk("constn", str(n))
        return mk("arr", v, n)

    def e_adt(self, x):
        name = _tail(strip_generics(x["adt"]))
        vals = {}
        for f, e in x["fields"]:
            vals[str(f)] = self.eval(e)
            if self.dead(): return BOTTOM
        if x.get("base") is not None:
            b = x["base"]
            if isinstance(b, dict) and "k" in b:
                bv = self.val(b)
                if self.dead(): return BOTTOM
                for f in x["all"]:
                    if str(f) not in vals: vals[str(f)] = field(bv, str(f), self._fty(name, str(f)))
        if name in ("OrderedFloat", "Wrapping"): return self.rv(next(iter(vals.values())))
        order = [str(f) for f in x["all"]] if x.get("all") else list(vals)
        # one order of fields for both crates, whatever order each declares them in
        for vn, fs, _ in (ADTS.get(name) or {"variants": ()})["variants"]:
            if vn == (x.get("variant") or name) and set(fs) == set(order): order = list(fs)
        if name in ("RangeFull",): return mk("adt", name, name)
        if name in ("Range", "RangeFrom", "RangeTo", "RangeInclusive", "RangeToInclusive"):
            return self.lib.range_adt(name, {k: self.rv(v) for k, v in vals.items()})
        return adt(name, x.get("variant") or name, *[vals[f] for f in order if f in vals])

    def _fty(self, name, f):
        d = ADTS.get(name)
        if d:
            for vn, fs, tys in d["variants"]:
                if f in fs: return tys[fs.index(f)]
        return None

    def e_nconst(self, x):
        p = x.get("res") or x["path"]
        b = self.c.bodies.get(p)
        if b is None and x.get("path") in self.c.bodies: b = self.c.bodies[x["path"]]
        if b is None:
            # associated const of a trait on a known type
            r = self.resolve_trait(x)
            if r: b = self.c.bodies.get(r)
        if b is not None and len(self.stack) < 60:
            return self.inline(b["path"], [], {})
        base, m, impl = simple_name(p)
        v = self.lib.const_value(base, m, impl, x)
        if v is not None: return v
        st = self.self_type_name(x)
        return typed(mk("const", "%s::%s" % (base, m), st or ""), self.tag(x))

    def e_static(self, x):
        p = x.get("path")
        b = self.c.bodies.get(p)
        if b is not None: return self.inline(p, [], {})
        return mk("static", _tail(p or "?"))

    def e_zst(self, x): return mk("zst", self.c.types[x["t"]]["s"])
    def e_cparam(self, x): return mk("cparam", str(x.get("name")))
    def e_fn(self, x): return mk("fnref", self.fn_index(x))

    def fn_index(self, x):
        """intern a function item expression"""
        key = (x.get("res") or x["path"], tuple(x.get("ga") or ()))
        self.fnrefs = getattr(self, "fnrefs", {})
        self.fnrefs[key] = x
        return key

    def e_return(self, x):
        v = self.eval(x["e"]) if x.get("e") is not None else UNIT
        if self.dead(): return BOTTOM
        self.frames[-1].rets.append((State(self.env, self.g), v))
        self.env, self.g = dict(self.env), FALSE
        return BOTTOM

    def e_break(self, x):
        v = self.eval(x["e"]) if x.get("e") is not None else UNIT
        if self.dead(): return BOTTOM
        t = self.frames[-1].targets.get(x["lbl"])
        if not t: raise Unsupported("break target")
        t[-1].append((State(self.env, self.g), v))
        self.env, self.g = dict(self.env), FALSE
        return BOTTOM

    def e_continue(self, x):
        if self.dead(): return BOTTOM
        t = self.frames[-1].targets.get(("c", x["lbl"]))
        if not t: raise Unsupported("continue target")
        t[-1].append((State(self.env, self.g), UNIT))
        self.env, self.g = dict(self.env), FALSE
        return BOTTOM

    def e_closure(self, x):
        # identity of the closure: its source node in this frame
        n = len(self.closures)
        self.closures[n] = (x["fn"], self.frames[-1])
        return mk("closure", n, id(self))

    def e_unsupported(self, x):
        self.notes.append("unsupported")
        return mk("opaque", str(x.get("what", "")))

    # ------------------------------------------------------------ calls
    def e_call(self, x):
        f = self.strip(x["f"])
        if f["k"] == "fn": return self.call_fn(f, x)
        # calling a closure value
        fv = self.eval(f)
        args = [self.eval(a) for a in x["args"]]
        if self.dead(): return BOTTOM
        return self.apply(self.rv(fv), args, x)

    def apply(self, fv, args, x=None):
        """apply a closure / function value"""
        if fv.op == "closure":
            fn, fr = self.closures[fv.args[0]]
            params = [p for p in fn["params"] if p.get("k") != "env"]
            nf = Frame(fr.id, fr.path, fr.tsub)
            self.frames.append(nf)
            try:
                # a by-value captured environment shares keys with the defining frame
                ps = params
                if len(ps) != len(args) and len(args) == 1 and args[0].op == "tuple": args = list(args[0].args)
                for p, a in zip(ps, args): self.bind_param(p, a)
                v = self.eval(fn["body"])
                outs = nf.rets + [(State(self.env, self.g), v)]
                v = self.join_many(outs) if len(outs) > 1 else v
            finally:
                self.frames.pop()
            return v
        if fv.op == "fnref":
            fx = self.fnrefs[fv.args[0]]
            return self.call_fn(fx, {"args": None, "t": None}, argv=args)
        if fv.op == "lambda":
            m = {mk("lparam", fv.args[0], i): self.rv(a) for i, a in enumerate(args)}
            return substitute(fv.args[2], m)
        if fv.op == "ite":
            return lift(lambda f: self.apply(f, args, x), ("apply", tuple(args), self._envver()), (fv,))
        return typed(mk("apply", fv, *[self.rv(a) for a in args]), self.tag(x) if x and "t" in x else None)

    def bind_param(self, p, a):
        if p["k"] == "deref" and a.op != "mref": self.bind(p["sub"], a)
        else: self.bind(p, a)

    def call_fn(self, f, x, argv=None):
        path = f.get("res") or f["path"]
        if argv is None:
            argv = []
            for a in x["args"]:
                argv.append(self.eval(a))
                if self.dead(): return BOTTOM
        body = self.c.bodies.get(path)
        if body is None or body["kind"] not in ("Fn", "AssocFn"):
            if f["path"] in self.c.bodies and self.c.bodies[f["path"]]["kind"] in ("Fn", "AssocFn") and not f.get("trait"):
                path, body = f["path"], self.c.bodies[f["path"]]
            else:
                r = self.resolve_trait(f, x, argv)
                body = self.c.bodies.get(r) if r else None
                if body is not None: path = r
        name = canon_path(path)
        if f.get("local") or body is not None: self.calls.append((name, self.frames[-1].path if self.frames else ""))
        if body is not None:
            for k, fn in _intrinsics().items():
                if name == k or name.endswith("::" + k): return fn(self, argv)
        if body is not None and name not in self.boundaries and self.stack.count(path) == 0 and len(self.stack) < 40:
            return self.inline(path, argv, self.tsub_for(body, f, x))
        if f.get("ctor"): pass
        # constructor functions of tuple structs / variants
        c = self.lib.ctor(self, f, x, argv)
        if c is not None: return c
        if body is None:
            r = self.lib.call(self, f, path, argv, x)
            if r is not None: return r
        return self.opaque_call(name if body is not None else "::".join(simple_name(path)[:2]), argv, self.call_tag(x))

    def call_tag(self, x):
        if not x or x.get("t") is None: return None
        return self.tag(x)

    def opaque_call(self, name, argv, tag=None):
        """uninterpreted: pure in its arguments; &mut arguments change in an uninterpreted way"""
        vals = [self.canon_arg(a) for a in argv]
        if name in self.boundaries: name = self.alias.get(name, name)
        for i, a in enumerate(argv):
            if a.op == "mref":
                old = self.rv(a)
                self.write_ref(a, typed(mk("out", name, i, *vals), old.ty))
        return typed(mk("call", name, *vals), tag)

    def unchanged(self, env0):
        """an expression whose effects are not carried along has none"""
        for k, v in self.env.items():
            o = env0.get(k)
            if o is not None and o is not v: raise Unsupported("effect in a place where none is followed")

    def canon_arg(self, a):
        a = self.rv(a)
        if a.op in ("closure", "fnref"): return self.lam(a)
        if a.op in ("tuple", "adt") and any(isinstance(z, T) and z.op in ("mref", "closure", "fnref") for z in a.args):
            return mk(a.op, *[self.canon_arg(z) if isinstance(z, T) else z for z in a.args])
        return a

    def lam(self, fv, n=None, tags=()):
        """a closure as a term: evaluated once on placeholder parameters"""
        if fv.op == "fnref" and n is None: 
            return mk("fn", canon_path(fv.args[0][0]))
        if n is None: n = len([p for p in self.closures[fv.args[0]][0]["params"] if p.get("k") != "env"]) if fv.op == "closure" else 1
        d = self.lamdepth = getattr(self, "lamdepth", 0) + 1
        ps = [mk("lparam", d, i) for i in range(n)]
        if fv.op == "closure":
            for p, q in zip([p for p in self.closures[fv.args[0]][0]["params"] if p.get("k") != "env"], ps):
                typed(q, self.ptag(p))
        for q, t in zip(ps, tags): typed(q, t)
        env0, g0 = self.env, self.g
        self.env, self.g = dict(env0), TRUE
        try:
            v = self.rv(self.apply(fv, ps))
            self.unchanged(env0)
        finally:
            self.env, self.g = env0, g0
            self.lamdepth = d - 1
        return mk("lambda", d, n, v)

    def tsub_for(self, body, f, x):
        """bind type parameters of the callee by unifying declared parameter types with the argument types"""
        sub = {}
        if not x or x.get("args") is None: return sub
        for p, a in zip(body["fn"]["params"], x["args"]):
            if p.get("t") is not None and a.get("t") is not None: self.unify(p["t"], a["t"], sub)
        if body["fn"].get("ret") is not None and x.get("t") is not None:
            self.unify(body["fn"]["ret"], x["t"], sub)
        return sub

    def unify(self, a, b, sub):
        ta, tb = self.c.types[a], self.c.types[b]
        if ta["k"] == "param":
            if tb["k"] == "param":
                r = self.frames[-1].tsub.get(tb["s"]) if self.frames else None
                if r: sub.setdefault(ta["s"], r)
            else: sub.setdefault(ta["s"], (b, scalar_ty(self.c, b)))
            return
        if ta["k"] == tb["k"] and ta.get("adt") == tb.get("adt"):
            for x, y in zip(ta.get("args") or [], tb.get("args") or []):
                if isinstance(x, int) and isinstance(y, int): self.unify(x, y, sub)

    def self_type_name(self, f):
        for g in (f.get("ga") or [])[:1]:
            if isinstance(g, int):
                t = self.c.types[g]
                if t["k"] == "param":
                    r = self.frames[-1].tsub.get(t["s"]) if self.frames else None
                    return r[1] if r else None
                return scalar_ty(self.c, g) or type_head(t["s"])
        return None

    def resolve_trait(self, f, x=None, argv=None):
        tr = f.get("trait")
        path = f.get("res") or f["path"]
        st = self.self_type_name(f)
        if st is None: return None
        s = strip_generics(f["path"]).split("::")
        if len(s) < 2: return None
        return self.c.traits.get((s[-2], s[-1], st))

    def inline(self, path, argv, tsub):
        b = self.c.bodies[path]
        fn = b["fn"]
        self.nframe += 1
        fr = Frame(self.nframe, path, tsub)
        self.frames.append(fr)
        self.stack.append(path)
        saved_loops = None
        try:
            for p, a in zip(fn["params"], argv): self.bind_param(p, a)
            v = self.eval(fn["body"])
            outs = fr.rets + [(State(self.env, self.g), v)]
            if len(outs) > 1: v = self.join_many(outs)
        finally:
            self.frames.pop()
            self.stack.pop()
        # forget the callee's locals that nothing references
        return v

    # ------------------------------------------------------------ loops
    def for_loop(self, x):
        it = self.eval(x["e"])
        if self.dead(): return BOTTOM
        arm = x["arms"][0]
        loop = self.strip(arm["b"])
        lbl = loop.get("lbl")
        body = self.strip(loop["e"])
        while body["k"] == "block":
            if body["stmts"]:
                s = body["stmts"][0]
                body = self.strip(s.get("e", s))
            else: body = self.strip(body["e"])
        if body["k"] != "match": return None
        some_arm = [a for a in body["arms"] if a["p"]["k"] == "variant" and a["p"]["variant"] == "Some"]
        if not some_arm: return None
        sa = some_arm[0]
        pat = sa["p"]["fields"][0][1]
        def iterate(elem):
            self.bind_param(pat, elem)
            self.eval(sa["b"])
            return None
        self.iterate(it, iterate, lbl)
        return UNIT

    def iterate(self, seq, f, lbl=None):
        """run f once for the generic element of seq and summarise the effect on the environment"""
        return self.lib.iterate(self, seq, f, lbl)

    def e_loop(self, x):
        return self.lib.loop(self, x)

def _intrinsics():
    from . import models
    return models.INTRINSIC

def _with(env, k, v):
    env = dict(env); env[k] = v
    return env

def by_mut(p):
    b = p.get("by")
    return b in ("refmut", "mut", "RefMut", "ref mut", "&mut")

def has_mut_bind(p):
    if not isinstance(p, dict): return False
    if p["k"] == "bind" and by_mut(p): return True
    for k in ("sub", "mid"):
        if p.get(k) and has_mut_bind(p[k]): return True
    for k in ("pats", "ps", "alts", "pre", "post"):
        if p.get(k) and any(has_mut_bind(q) for q in p[k]): return True
    if p.get("fields"): return any(has_mut_bind(f[1]) for f in p["fields"])
    return False

def pat_vars(p):
    out = []
    if p["k"] == "bind": out.append(p["var"])
    for k in ("sub", "mid"):
        if p.get(k): out += pat_vars(p[k])
    for k in ("pats", "ps", "alts", "pre", "post"):
        for q in p.get(k) or []: out += pat_vars(q)
    for f in p.get("fields") or []: out += pat_vars(f[1])
    return out

class Summary:
    def __init__(self, path, ret, outs, io, g, notes, calls):
        self.path, self.ret, self.outs, self.io, self.g = path, ret, outs, io, g
        self.notes, self.calls = notes, calls
