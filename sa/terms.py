"""Hash-consed value-flow terms with canonicalising constructors.

Domain: Herbrand terms (value numbering) over
  * numbers       polynomials over Q whose indeterminates are opaque terms; integer division/modulo by
                  constants and bit packing are normalised with the value ranges of the leaves;
  * booleans      ordered decision diagrams over comparison atoms. Atoms of one linear form are ordered by
                  their bound and atoms of one enum value by variant, so implied tests vanish on construction;
  * values        decision diagrams whose leaves are constructors, sequences, maps, opaque calls.
No solver and no execution: two terms are equal iff they are the same object.
"""
from fractions import Fraction

class T:
    __slots__ = ("op", "args", "id", "ty", "_ord", "_rng", "_mask", "__weakref__")
    def __repr__(self):
        return show(self)

_table = {}
_list = []

# which of these occur in a term is summarised in its mask (a superset test, modulo collisions)
LEAFY = {"acc", "pos", "sym", "lamarg"}
def _tmask(x):
    m = 0
    for a in x:
        if a.__class__ is T: m |= a._mask
        elif a.__class__ is tuple: m |= _tmask(a)
    return m

def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.id, t.ty = op, args, len(_list), None
        t._ord = None
        t._rng = None
        m = 0
        for a in args:
            if a.__class__ is T: m |= a._mask
            elif a.__class__ is tuple: m |= _tmask(a)
        t._mask = m | 1 << t.id % 509 if op in LEAFY else m
        _table[key] = t
        _list.append(t)
    return t

TRUE = mk("true")
FALSE = mk("false")
UNIT = mk("tuple")
EMPTY = mk("cat")

INT_RANGE = {}
for _w in (8, 16, 32, 64, 128):
    INT_RANGE["u%d" % _w] = (0, 2 ** _w - 1)
    INT_RANGE["i%d" % _w] = (-2 ** (_w - 1), 2 ** (_w - 1) - 1)
INT_RANGE["usize"] = INT_RANGE["u64"]
INT_RANGE["isize"] = INT_RANGE["i64"]

def num(v):
    if isinstance(v, float):
        v = Fraction(repr(v))
    return mk("num", Fraction(v))

def is_num(t): return t.op == "num"

def sym(name, ty=None):
    t = mk("sym", name, ty or "")
    if ty and t.ty is None: t.ty = ty
    return t

def typed(t, ty):
    """attach a scalar type ('u8', 'f64', 'bool', ..) to an opaque leaf"""
    if ty is not None and t.ty is None and t.op not in ("num", "poly", "ite"):
        t.ty = ty
        t._rng = None
    return t

# ---------------------------------------------------------------- ranges
NEG_INF, POS_INF = float("-inf"), float("inf")

def rng(t):
    if t._rng is not None: return t._rng
    r = _rng(t)
    t._rng = r
    return r

def _mulb(a, b):
    if a == 0 or b == 0: return 0
    return a * b

def _rng(t):
    op = t.op
    if op == "num": return (t.args[0], t.args[0])
    if op == "poly":
        lo = hi = Fraction(0)
        for mono, c in t.args:
            mlo, mhi = Fraction(1), Fraction(1)
            for a, p in mono:
                if p < 0:
                    mlo, mhi = NEG_INF, POS_INF
                    break
                alo, ahi = rng(a)
                for _ in range(p):
                    cs = [_mulb(mlo, alo), _mulb(mlo, ahi), _mulb(mhi, alo), _mulb(mhi, ahi)]
                    mlo, mhi = min(cs), max(cs)
            cs = [_mulb(mlo, c), _mulb(mhi, c)]
            lo, hi = lo + min(cs), hi + max(cs)
        return (lo, hi)
    if op == "ite":
        a, b = rng(t.args[1]), rng(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == "imod":
        if is_num(t.args[1]): return (0, t.args[1].args[0] - 1)
    if op == "idiv":
        if is_num(t.args[1]) and t.args[1].args[0] > 0:
            lo, hi = rng(t.args[0])
            d = t.args[1].args[0]
            return (lo // d if lo != NEG_INF else lo, hi // d if hi != POS_INF else hi)
    if op in ("len", "varlen", "pos", "leint"):
        base = (0, INT_RANGE["u64"][1])
        if op == "varlen":
            h = rng(t.args[0])[1]
            return (1, 10 if h == POS_INF else max(1, -(-int(h).bit_length() // 7)))
        if op == "len" and t.args[0].op in ("fold", "folds"): return (minlen(t.args[0]), base[1])
        if op == "len" and dbkey(t.args[0]): return (5, base[1])
        if t.ty in INT_RANGE: return INT_RANGE[t.ty]
        return base
    if op == "pow2": return (1, POS_INF)
    if op == "sum" and rng(t.args[1])[0] >= 0: return (0, POS_INF)
    if op == "band":
        rs = [rng(a) for a in t.args]
        if all(r[0] >= 0 for r in rs): return (0, min(r[1] for r in rs))
    if op == "bor":
        rs = [rng(a) for a in t.args]
        if all(r[0] >= 0 and r[1] != POS_INF for r in rs):
            m = max(int(r[1]) for r in rs)
            return (max(r[0] for r in rs), 2 ** m.bit_length() - 1)
    if t.ty in INT_RANGE: return INT_RANGE[t.ty]
    return (NEG_INF, POS_INF)

def is_int(t):
    """integer-valued?"""
    op = t.op
    if op == "num": return t.args[0].denominator == 1
    if op == "poly":
        return all(c.denominator == 1 and all(p > 0 and is_int(a) for a, p in m) for m, c in t.args)
    if op == "ite": return is_int(t.args[1]) and is_int(t.args[2])
    if op == "sum": return is_int(t.args[1])
    if op in ("idiv", "imod", "len", "varlen", "pos", "leint", "pow2", "band", "bor", "bxor", "toint"): return True
    if t.ty in INT_RANGE: return True
    return False

# ---------------------------------------------------------------- decision diagrams
def atom_key(a):
    """order of test atoms; atoms about one quantity are adjacent and ascending"""
    if a._ord is None:
        if a.op in ("le", "lt_"):   # (p, c): p <= c / p < c
            p, c = a.args
            a._ord = (p.id, c, 0 if a.op == "lt_" else 1)
        elif a.op == "is":
            a._ord = (a.args[0].id, a.args[2], 0)
        elif a.op in ("eq", "less"):
            pr = mk("pair", a.args[0], a.args[1])
            a._ord = (pr.id, 0 if a.op == "eq" else 1, 0)
        else:
            a._ord = (a.id, 0, 0)
    return a._ord

def implied(a, val, b):
    """value of later atom b once earlier atom a has value val, or None"""
    if a is b: return val
    if a.op in ("le", "lt_") and b.op in ("le", "lt_") and a.args[0] is b.args[0]:
        if val: return True          # p<=c -> p<=c' for later (larger) bounds
        return None
    if a.op == "is" and b.op == "is" and a.args[0] is b.args[0]:
        if val: return False
        return None
    if a.op == "eq" and b.op == "less" and a.args == b.args:
        if val: return False
    return None

def top(t): return t.args[0] if t.op == "ite" else None

def _eta(a, hi, lo):
    """`if x is Some { Some(contents of x) } else { x }` is x"""
    x, v = a.args[0], a.args[1]
    if not (hi is x or hi.op == "adt" and hi.args[1] == v and len(hi.args) > 2
            and all(isinstance(p, T) and p.op == "payload" and p.args[0] is x and p.args[1] == v and p.args[2] == str(i) for i, p in enumerate(hi.args[2:]))): return False
    return lo is x or v == "Some" and lo.op == "adt" and lo.args[0] == "Option" and lo.args[1] == "None"

def _mkite(a, hi, lo):
    if a.op == "is" and hi.op in ("adt", a.args[0].op) and _eta(a, hi, lo): return a.args[0]
    # drop tests in hi/lo that a decides
    while hi.op == "ite":
        v = implied(a, True, hi.args[0])
        if v is None: break
        hi = hi.args[1] if v else hi.args[2]
    while lo.op == "ite":
        v = implied(a, False, lo.args[0])
        if v is None: break
        lo = lo.args[1] if v else lo.args[2]
    if hi is lo: return hi
    # redundant test: lo already behaves like hi when a holds (and vice versa)
    if lo.op == "ite":
        x = lo
        while x.op == "ite":
            v = implied(a, True, x.args[0])
            if v is None: break
            x = x.args[1] if v else x.args[2]
        if x is hi: return lo
    if a.op == "le" and numlike(hi) and numlike(lo) and is_int(a.args[0]):
        return _extremum(a, hi, lo)
    return mk("ite", a, hi, lo)

def numlike(t):
    for _ in range(6):
        if t.op != "ite": return t not in (TRUE, FALSE) and numeric(t)
        t = t.args[1]
    return False

def _extremum(a, hi, lo):
    """min/max written with a strict or a loose comparison of integers: one threshold for both, the one where the branches agree"""
    h, c = a.args
    z = None
    st = [(hi, lo)]
    n = 0
    while st:
        x, y = st.pop()
        if x is y: continue
        n += 1
        if n > 24: z = None; break
        tx, ty = top(x), top(y)
        if tx is not None or ty is not None:
            t = tx if ty is None or (tx is not None and atom_key(tx) <= atom_key(ty)) else ty
            if t.op == "le" and t.args[0] is h: z = None; break
            st.append((cof(x, t, True), cof(y, t, True)))
            st.append((cof(x, t, False), cof(y, t, False)))
            continue
        if not (numlike(x) and numlike(y)): z = None; break
        d = _add(x, _mul(num(-1), y))
        for s in (1, -1):
            r = _add(d, _mul(num(-s), h))
            if r.op == "num": break
        else: z = None; break
        w = -r.args[0] / s              # branches agree where h == w
        if w not in (c, c + 1) or (z is not None and z != w): z = None; break
        z = w
    if z is not None:
        x, y = rng(h)
        if y <= z: return hi
        if x >= z: return lo
        if z != c:
            b = mk("le", h, z)
            if all(top(t) is None or atom_key(top(t)) > atom_key(b) for t in (hi, lo)): return mk("ite", b, hi, lo)
    return mk("ite", a, hi, lo)

def cof(t, a, val):
    if t.op != "ite": return t
    b = t.args[0]
    if b is a: return t.args[1] if val else t.args[2]
    v = implied(a, val, b)
    if v is not None: return cof(t.args[1] if v else t.args[2], a, val)
    return t

_apply_memo = {}
class Blowup(Exception): pass

def lift(fn, name, args, budget=None):
    """apply fn to the leaves of decision-diagram arguments"""
    key = (name,) + tuple(args)
    r = _apply_memo.get(key)
    if r is not None: return r
    best = None
    for t in args:
        if isinstance(t, T) and t.op == "ite":
            if best is None or atom_key(t.args[0]) < atom_key(best): best = t.args[0]
    if best is None:
        r = fn(*args)
    else:
        hi = lift(fn, name, tuple(cof(t, best, True) if isinstance(t, T) else t for t in args))
        lo = lift(fn, name, tuple(cof(t, best, False) if isinstance(t, T) else t for t in args))
        r = ite_order(best, hi, lo)
    _apply_memo[key] = r
    return r

def ite_order(a, hi, lo):
    """ite on an atom when hi/lo may contain earlier atoms"""
    k = atom_key(a)
    h, l = top(hi), top(lo)
    if (h is None or atom_key(h) > k) and (l is None or atom_key(l) > k):
        return _mkite(a, hi, lo)
    if (h is None or h is a or atom_key(h) > k) and (l is None or l is a or atom_key(l) > k):
        return _mkite(a, cof(hi, a, True), cof(lo, a, False))
    key = ("ite_order", a, hi, lo)
    r = _apply_memo.get(key)
    if r is not None: return r
    b = None
    for x in (h, l):
        if x is not None and (b is None or atom_key(x) < atom_key(b)): b = x
    # b earlier than a
    va, vb = implied(b, True, a), implied(b, False, a)
    def side(val):
        v = implied(b, val, a)
        ch, cl = cof(hi, b, val), cof(lo, b, val)
        if v is True: return ch
        if v is False: return cl
        return ite_order(a, ch, cl)
    r = _mkite(b, side(True), side(False))
    _apply_memo[key] = r
    return r

def ite(c, a, b):
    """general if-then-else on a boolean diagram; products are merged fieldwise"""
    if c is TRUE or a is b: return a
    if c is FALSE: return b
    if a.op == b.op and a.op in ("tuple", "adt") and len(a.args) == len(b.args) and a.args[:2] == b.args[:2] and a.op == "adt":
        return adt(a.args[0], a.args[1], *[ite(c, x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return mk("tuple", *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if is_struct(a) or is_struct(b):
        # struct vs symbolic struct of the same type: expand
        s = a if is_struct(a) else b
        ea, eb = expand(a, s), expand(b, s)
        if ea is not None and eb is not None:
            return adt(s.args[0], s.args[1], *[ite(c, x, y) for x, y in zip(ea, eb)])
    return _ite(c, a, b)

def _ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    key = ("ite3", c, a, b)
    r = _apply_memo.get(key)
    if r is not None: return r
    if c.op != "ite":     # bare boolean atom
        raise AssertionError("boolean must be a diagram: %r" % c)
    best = c.args[0]
    for t in (a, b):
        if t.op == "ite" and atom_key(t.args[0]) < atom_key(best): best = t.args[0]
    hi = _ite(cof(c, best, True), cof(a, best, True), cof(b, best, True))
    lo = _ite(cof(c, best, False), cof(a, best, False), cof(b, best, False))
    r = _mkite(best, hi, lo)
    _apply_memo[key] = r
    return r

def atom(a):
    """boolean diagram of one test atom"""
    return mk("ite", a, TRUE, FALSE)

def bool_of(t):
    """a boolean-typed value as a diagram"""
    if t in (TRUE, FALSE): return t
    if t.op == "ite":
        return lift(lambda x: x if x in (TRUE, FALSE) else atom(x), "bool_of", (t,))
    return atom(t)

def Not(a): return _ite(a, FALSE, TRUE)
def And(*xs):
    r = TRUE
    for x in xs: r = _ite(r, x, FALSE)
    return r
def Or(*xs):
    r = FALSE
    for x in xs: r = _ite(r, TRUE, x)
    return r

_restrict_memo = {}
def restrict(f, care):
    """simplify diagram f using that care holds (sibling substitution)"""
    if care is TRUE or care is FALSE or f.op != "ite": return f
    key = (f, care)
    r = _restrict_memo.get(key)
    if r is not None: return r
    a, c = f.args[0], care.args[0]
    ka, kc = atom_key(a), atom_key(c)
    if kc < ka:
        h, l = cof(care, c, True), cof(care, c, False)
        if h is FALSE: r = restrict(cof(f, c, False), l)
        elif l is FALSE: r = restrict(cof(f, c, True), h)
        else:
            fh, fl = cof(f, c, True), cof(f, c, False)
            if fh is f and fl is f: r = restrict(f, Or(h, l))
            else: r = _mkite(c, restrict(fh, h), restrict(fl, l))
    else:
        h, l = cof(care, a, True), cof(care, a, False)
        if h is FALSE: r = restrict(cof(f, a, False), l)
        elif l is FALSE: r = restrict(cof(f, a, True), h)
        else: r = _mkite(a, restrict(f.args[1], h), restrict(f.args[2], l))
    _restrict_memo[key] = r
    return r

def leaves(t, g=TRUE):
    """(guard, leaf) pairs of a decision diagram"""
    out = {}
    def go(t, g):
        if t.op == "ite":
            a = atom(t.args[0])
            go(t.args[1], And(g, a)); go(t.args[2], And(g, Not(a)))
        else:
            out[t] = Or(out.get(t, FALSE), g)
    go(t, g)
    return [(g, l) for l, g in out.items() if g is not FALSE]

def nleaves(t, lim=64):
    seen, n, st = set(), 0, [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "ite": st += [x.args[1], x.args[2]]
        else: n += 1
        if len(seen) > lim: return lim
    return n

# ---------------------------------------------------------------- adts
ADTS = {}        # name -> {"kind":..., "variants":[(name,[fields],[types])]}

def declare_adt(name, kind, variants):
    ADTS[name] = {"kind": kind, "variants": variants}

def is_struct(t):
    return t.op == "adt" and ADTS.get(t.args[0], {}).get("kind") == "struct"

def expand(t, like):
    """field values of a struct value t with the shape of the adt term `like`"""
    if t.op == "adt":
        return list(t.args[2:]) if t.args[:2] == like.args[:2] else None
    if t.op in ("sym", "field", "index", "payload", "acc", "mget", "call", "deref", "ok"):
        d = ADTS[like.args[0]]["variants"][0]
        return [field(t, f, ty) for f, ty in zip(d[1], d[2])]
    return None

def adt(name, variant, *fields):
    d = ADTS.get(name)
    if d and d["kind"] == "struct" and fields:
        # eta: S{f: field(b,f), ..} = b
        fs = d["variants"][0][1]
        f0 = fields[0]
        if f0.op == "field" and len(fs) == len(fields):
            b = f0.args[0]
            if all(x.op == "field" and x.args[0] is b and x.args[1] == n for x, n in zip(fields, fs)) and len(fs) == len(fields):
                if b.ty is None or b.ty == name: return b
    elif fields and d is None or (d and d["kind"] == "enum"):
        if len(fields) == 1 and fields[0].op == "payload" and fields[0].args[1] == variant:
            pass
    return mk("adt", name, variant, *fields)

def field(t, name, ty=None):
    def f(x):
        if x.op == "adt":
            d = ADTS.get(x.args[0])
            if d:
                for vn, fs, _ in d["variants"]:
                    if vn == x.args[1] and name in fs: return x.args[2 + fs.index(name)]
            if name.isdigit() and int(name) + 2 < len(x.args): return x.args[2 + int(name)]
        if x.op == "tuple" and name.isdigit() and int(name) < len(x.args): return x.args[int(name)]
        while x.op == "setfield":
            if x.args[1] == name: return x.args[2]
            x = x.args[0]
            if x.op == "ite": return field(x, name, ty)
        return typed(mk("field", x, name), ty)
    return lift(f, ("field", name), (t,))

def setfield(v, name, val):
    """a value of unknown shape with one field replaced; fields in one order"""
    def f(v, val):
        if v.op in ("adt", "tuple") and name.isdigit():
            a, k = list(v.args), int(name) + (2 if v.op == "adt" else 0)
            if k < len(a):
                a[k] = val
                return mk("tuple", *a) if v.op == "tuple" else adt(*a)
        if v.op == "setfield":
            if v.args[1] == name: return setfield(v.args[0], name, val)
            if v.args[1] > name: return setfield(setfield(v.args[0], name, val), v.args[1], v.args[2])
        if val.op == "field" and val.args == (v, name): return v
        return mk("setfield", v, name, val)
    return lift(f, ("setfield", name), (v, val))

ENUM_ORDER = {"Option": ["None", "Some"], "Result": ["Ok", "Err"], "Ordering": ["Less", "Equal", "Greater"],
              "Entry": ["Occupied", "Vacant"], "Bound": ["Included", "Excluded", "Unbounded"],
              "ControlFlow": ["Continue", "Break"], "Cow": ["Borrowed", "Owned"]}

def variants_of(name):
    if name in ENUM_ORDER: return ENUM_ORDER[name]
    d = ADTS.get(name)
    if d: return [v[0] for v in d["variants"]]
    return None

def is_variant(t, name, variant):
    vs = variants_of(name) or [variant]
    def f(x):
        if x.op == "adt": return TRUE if x.args[1] == variant else FALSE
        if len(vs) == 1: return TRUE
        if variant == vs[-1] and len(vs) > 1 and name not in ("Option",):
            return And(*[Not(atom(mk("is", x, v, i))) for i, v in enumerate(vs[:-1])])
        if name == "Option":
            s = atom(mk("is", x, "Some", 1))
            return s if variant == "Some" else Not(s)
        return atom(mk("is", x, variant, vs.index(variant) if variant in vs else 99))
    return lift(f, ("is", name, variant), (t,))

def payload(t, variant, fname, ty=None):
    """field of an enum variant, assuming the variant"""
    def f(x):
        if x.op == "adt":
            if x.args[1] != variant: return BOTTOM
            d = ADTS.get(x.args[0])
            if d:
                for vn, fs, _ in d["variants"]:
                    if vn == variant and fname in fs: return x.args[2 + fs.index(fname)]
            i = int(fname) if str(fname).isdigit() else 0
            return x.args[2 + i] if 2 + i < len(x.args) else BOTTOM
        return typed(mk("payload", x, variant, fname), ty)
    r = lift(f, ("payload", variant, fname), (t,))
    return drop_bottom(r)

BOTTOM = mk("bottom")

def drop_bottom(t):
    """remove impossible leaves"""
    if t.op != "ite": return t
    key = ("drop_bottom", t)
    r = _apply_memo.get(key)
    if r is None:
        h, l = drop_bottom(t.args[1]), drop_bottom(t.args[2])
        r = l if h is BOTTOM else h if l is BOTTOM else _mkite(t.args[0], h, l)
        _apply_memo[key] = r
    return r

def some(x): return mk("adt", "Option", "Some", x)
NONE = mk("adt", "Option", "None")
def ok(x): return mk("adt", "Result", "Ok", x)
def err(x): return mk("adt", "Result", "Err", x)
LESS, EQUAL, GREATER = (mk("adt", "Ordering", v) for v in ("Less", "Equal", "Greater"))

# ---------------------------------------------------------------- numbers
def to_poly(t):
    if t.op == "num": return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly": return dict(t.args)
    return {((t, 1),): Fraction(1)}

def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p: return num(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == (): return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    key = lambda mc: tuple((a.id, e) for a, e in mc[0])
    return mk("poly", *sorted(p.items(), key=key))

def _add(a, b):
    p = to_poly(a)
    for m, c in to_poly(b).items(): p[m] = p.get(m, 0) + c
    return from_poly(p)

def _mul(a, b):
    p = {}
    for m1, c1 in to_poly(a).items():
        for m2, c2 in to_poly(b).items():
            d = dict(m1)
            for x, e in m2:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda xe: xe[0].id))
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)

def add(a, b): return lift(_add, "add", (a, b))
def neg(a): return mul(num(-1), a)
def sub(a, b): return add(a, neg(b))
def mul(a, b): return lift(_mul, "mul", (a, b))

def _fdiv(a, b):
    if b.op == "num":
        if b.args[0] == 0: return mk("divzero", a)
        return _mul(a, num(1 / b.args[0]))
    if b.op == "poly":
        ms = b.args
        if len(ms) == 1:
            m, c = ms[0]
            return _mul(a, from_poly({tuple((x, -e) for x, e in m): 1 / c}))
        lead = ms[0][1]
        nb = from_poly({m: c / lead for m, c in ms})
        return _mul(_mul(a, num(1 / lead)), from_poly({((nb, -1),): Fraction(1)}))
    return _mul(a, from_poly({((b, -1),): Fraction(1)}))
def fdiv(a, b): return lift(_fdiv, "fdiv", (a, b))

def _split_mod(a, d):
    """a = d*q + r with every coefficient of q integral, r the rest"""
    q, r = {}, {}
    for m, c in to_poly(a).items():
        if c.denominator == 1 and all(e > 0 and is_int(x) for x, e in m):
            k = c / d
            if m == ():
                fl = c // d
                if fl: q[m] = Fraction(fl)
                if c - fl * d: r[m] = c - fl * d
            elif k.denominator == 1: q[m] = k
            else: r[m] = c
        else: r[m] = c
    return from_poly(q), from_poly(r)

def _idiv(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return num(q if (a.args[0] >= 0) == (b.args[0] > 0) else -q)
    if is_num(b) and b.args[0] > 0:
        d = b.args[0]
        if d == 1: return a
        if rng(a)[0] >= 0 or True:
            q, r = _split_mod(a, d)
            lo, hi = rng(r)
            if lo >= 0 and hi < d and rng(a)[0] >= 0: return q
            if q.op != "num" or q.args[0] != 0:
                if rng(a)[0] >= 0 and lo >= 0: return _add(q, mk("idiv", r, b))
        if a.op == "idiv" and is_num(a.args[1]): return _idiv(a.args[0], num(a.args[1].args[0] * d))
    return mk("idiv", a, b)

def _imod(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0 and a.args[0] >= 0: return num(a.args[0] % b.args[0])
    if is_num(b) and b.args[0] > 0:
        d = b.args[0]
        if d == 1: return num(0)
        if rng(a)[0] >= 0:
            q, r = _split_mod(a, d)
            lo, hi = rng(r)
            if lo >= 0 and hi < d: return r
            if lo >= 0 and r is not a: return _imod(r, b)
        if a.op == "imod" and is_num(a.args[1]) and a.args[1].args[0] % d == 0: return _imod(a.args[0], b)
    return mk("imod", a, b)

def idiv(a, b): return lift(_idiv, "idiv", (a, b))
def imod(a, b): return lift(_imod, "imod", (a, b))

def pow2(k):
    def f(k):
        if is_num(k) and 0 <= k.args[0] < 4096: return num(2 ** int(k.args[0]))
        return mk("pow2", k)
    return lift(f, "pow2", (k,))
def shl(a, k, ty=None):
    return mul(a, pow2(k))
def shr(a, k): return idiv(a, pow2(k))

def _mask_bits(n):
    """n == 2^k - 1"""
    n = int(n)
    return n >= 0 and (n & (n + 1)) == 0

def _band(a, b):
    if is_num(a) and is_num(b): return num(int(a.args[0]) & int(b.args[0]))
    if is_num(a): a, b = b, a
    if is_num(b):
        if b.args[0] == 0: return b
        if _mask_bits(b.args[0]): return _imod(a, num(b.args[0] + 1))
        # contiguous mask shifted: (a / 2^s mod 2^w) * 2^s
        n = int(b.args[0])
        s = (n & -n).bit_length() - 1
        if _mask_bits(n >> s): return _mul(_imod(_idiv(a, num(2 ** s)), num((n >> s) + 1)), num(2 ** s))
    return _ac("band", a, b)

def _ac(op, a, b):
    xs = set()
    for t in (a, b): xs.update(t.args if t.op == op else (t,))
    xs = sorted(xs, key=lambda t: t.id)
    if len(xs) == 1: return xs[0]
    return mk(op, *xs)

def _pow2_div(t):
    """largest 2^k known to divide t (as k), capped"""
    if t.op == "num":
        n = int(t.args[0])
        return 200 if n == 0 else (n & -n).bit_length() - 1
    ks = []
    for m, c in to_poly(t).items():
        if c.denominator != 1 or not all(e > 0 and is_int(x) for x, e in m): return 0
        n = int(c)
        ks.append((n & -n).bit_length() - 1 + sum(0 if x.op != "pow2" else 0 for x, e in m))
    return min(ks) if ks else 200

def _bor(a, b):
    if is_num(a) and is_num(b): return num(int(a.args[0]) | int(b.args[0]))
    if is_num(a) and a.args[0] == 0: return b
    if is_num(b) and b.args[0] == 0: return a
    for x, y in ((a, b), (b, a)):
        k = _pow2_div(x)
        lo, hi = rng(y)
        if lo >= 0 and hi != POS_INF and int(hi) < 2 ** k and rng(x)[0] >= 0: return _add(x, y)
    return _ac("bor", a, b)

def _bxor(a, b):
    if is_num(a) and is_num(b): return num(int(a.args[0]) ^ int(b.args[0]))
    return mk("bxor", *sorted((a, b), key=lambda t: t.id))

def band(a, b): return lift(_band, "band", (a, b))
def bor(a, b): return lift(_bor, "bor", (a, b))
def bxor(a, b): return lift(_bxor, "bxor", (a, b))

# ---------------------------------------------------------------- comparisons
NUMERIC_OPS = {"num", "poly", "idiv", "imod", "len", "pos", "pow2", "varlen", "leint", "toint", "band", "bor", "bxor"}
NUM_TYS = set(INT_RANGE) | {"f32", "f64", "OrderedFloat"}

def numeric(t):
    if t.op in NUMERIC_OPS: return True
    if t.ty in NUM_TYS: return True
    if t.op in ("sum", "min", "max", "round", "floor", "ceil", "sqrt", "powf", "powi", "exp", "cos", "abs"): return True
    return False

def _le0(p, strict):
    """diagram for p <= 0 (or p < 0)"""
    if p.op == "num":
        v = p.args[0]
        return TRUE if (v < 0 or (v == 0 and not strict)) else FALSE
    d = to_poly(p)
    const = d.pop((), Fraction(0))
    h = from_poly(d)
    integral = is_int(h) and const.denominator == 1
    lead = (h.args[0][1] if h.op == "poly" else Fraction(1))
    if h.op == "poly":
        # scale: for integers divide by gcd, for reals make leading coefficient +-1
        from math import gcd
        if integral:
            g = 0
            for _, c in h.args: g = gcd(g, abs(int(c)))
            scale = Fraction(1, g)
        else: scale = 1 / abs(lead)
        h = from_poly({m: c * scale for m, c in h.args})
        const = const * scale
        lead = h.args[0][1] if h.op == "poly" else Fraction(1)
    # h + const <= 0   (or < 0)
    if integral:
        import math
        # h <= -const (strict: h <= -const-1 if const integral)
        bound = -const
        if strict: bound = math.ceil(bound) - 1
        else: bound = math.floor(bound)
        if lead > 0: return _atom_le(h, Fraction(bound))
        # -h' <= bound  ->  h' >= -bound  -> !(h' <= -bound-1)
        h2 = _mul(num(-1), h)
        return Not(_atom_le(h2, Fraction(-bound - 1)))
    bound = -const
    if lead > 0:
        return _atom_lt(h, bound) if strict else _atom_le(h, bound)
    h2 = _mul(num(-1), h)
    # -h2 <= b -> h2 >= -b -> !(h2 < -b)
    return Not(_atom_lt(h2, -bound)) if not strict else Not(_atom_le(h2, -bound))

_minlen = {}
def minlen(t):
    """lower bound of the length of a sequence: what a loop that only appends started with"""
    r = _minlen.get(t)
    if r is not None: return r
    r = 0
    if t.op == "cat": r = sum(1 if p.op == "one" else minlen(p) for p in t.args)
    elif t.op == "ite": r = min(minlen(l) for _, l in leaves(t))
    elif t.op in ("fold", "folds"):
        a = _own_acc(t)
        init, step = (t.args[1], t.args[2]) if t.op == "fold" else (t.args[1][0], t.args[2][0])
        if a is not None: r = min(minlen(init), _grows(step, a))
    _minlen[t] = r
    return r
def _own_acc(t):
    """(level, name) of the carried value a fold stands for"""
    from .lib import own_level
    l = own_level(t)
    if l == "none": return None
    return (l, t.args[3][0] if len(t.args) > 3 else 0)
def _grows(s, a):
    """the length one step leaves at least: no bound of its own (infinity) where it only appends to the carried sequence"""
    if s.op == "acc" and s.args[:2] == a: return POS_INF
    if s.op == "cat": return sum(1 if p.op == "one" else _grows(p, a) for p in s.args)
    if s.op == "ite": return min(_grows(l, a) for _, l in leaves(s))
    if s.op in ("fold", "folds"):
        b = _own_acc(s)
        if b is None or b == a: return 0
        init, step = (s.args[1], s.args[2]) if s.op == "fold" else (s.args[1][0], s.args[2][0])
        return min(_grows(init, a), _grows(step, b))
    return 0

def _atom_le(h, c):
    lo, hi = rng(h)
    if hi <= c: return TRUE
    if lo > c: return FALSE
    if h.op == "poly":
        # a position in a sequence lies before the sequence's end
        for m, k in h.args:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "pos" and abs(k) == 1 and m[0][0].args[0].op not in ("nat", "range"):
                n = length(m[0][0].args[0])
                if n.op == "ite": continue
                rest = _add(h, _mul(num(-k), m[0][0]))
                end = _add(rest, _mul(num(k), _add(n, num(-1))))
                if end.op == "num":
                    if k > 0 and end.args[0] <= c: return TRUE
                    if k < 0 and end.args[0] > c: return FALSE
    return atom(mk("le", h, c))
def _atom_lt(h, c):
    lo, hi = rng(h)
    if hi < c: return TRUE
    if lo >= c: return FALSE
    return atom(mk("lt_", h, c))

def _lt(a, b):
    if a is b: return FALSE
    if numeric(a) and numeric(b):
        return _le0(_add(a, _mul(num(-1), b)), True)
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return _lexlt(a.args, b.args)
    if a.op == "adt" and b.op == "adt":
        if a.args[0] == "Reverse": return lt(b.args[2], a.args[2])
        vs = variants_of(a.args[0])
        if vs and a.args[1] in vs and b.args[1] in vs and a.args[1] != b.args[1]:
            return TRUE if vs.index(a.args[1]) < vs.index(b.args[1]) else FALSE
        return _lexlt(a.args[2:], b.args[2:])
    if a.op in ("str",) and b.op == "str": return TRUE if a.args[0] < b.args[0] else FALSE
    if a.id < b.id: return atom(mk("less", a, b))
    return And(Not(atom(mk("eq", b, a))), Not(atom(mk("less", b, a))))

def _lexlt(xs, ys):
    r = FALSE
    for x, y in reversed(list(zip(xs, ys))):
        r = Or(lt(x, y), And(eq(x, y), r))
    return r

def _eq(a, b):
    if a is b: return TRUE
    if numeric(a) and numeric(b):
        p = _add(a, _mul(num(-1), b))
        return And(_le0(p, False), _le0(_mul(num(-1), p), False))
    if a in (TRUE, FALSE) and b in (TRUE, FALSE): return FALSE
    if a is TRUE: return bool_of(b)
    if b is TRUE: return bool_of(a)
    if a is FALSE: return Not(bool_of(b))
    if b is FALSE: return Not(bool_of(a))
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return And(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "adt" and b.op == "adt":
        if a.args[1] != b.args[1]: return FALSE
        return And(*[eq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and x.args[0] in ENUM_ORDER and y.op != "adt":
            g = is_variant(y, x.args[0], x.args[1])
            fs = [eq(f, payload(y, x.args[1], str(i), f.ty)) for i, f in enumerate(x.args[2:])]
            return And(g, *fs)
        if is_struct(x):
            ey = expand(y, x)
            if ey is not None: return And(*[eq(p, q) for p, q in zip(x.args[2:], ey)])
    if a.op == "str" and b.op == "str": return FALSE
    if a.op == "cat" and b.op == "cat" and all(x.op == "one" for x in a.args + b.args):
        if len(a.args) != len(b.args): return FALSE
        return And(*[eq(x.args[0], y.args[0]) for x, y in zip(a.args, b.args)])
    if EMPTY in (a, b):
        o = b if a is EMPTY else a
        return eq(length(o), num(0))
    if a.id > b.id: a, b = b, a
    return atom(mk("eq", a, b))

def lt(a, b): return lift(_lt, "lt", (a, b))
def eq(a, b): return lift(_eq, "eq", (a, b))
def le(a, b): return lift(lambda x, y: _le0(_add(x, _mul(num(-1), y)), False) if numeric(x) and numeric(y) else Or(_lt(x, y), _eq(x, y)), "le", (a, b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def ne(a, b): return Not(eq(a, b))

def compare(a, b):
    """Ordering value"""
    return _ite(lt(a, b), LESS, _ite(eq(a, b), EQUAL, GREATER))
def rev_ord(o):
    return lift(lambda x: {LESS: GREATER, GREATER: LESS}.get(x, x) if x.op == "adt" else mk("revord", x), "revord", (o,))
def then_ord(o, p):
    return _ite(is_variant(o, "Ordering", "Equal"), p, o)

def tmin(a, b): return ite(le(a, b), a, b)
def tmax(a, b): return ite(le(b, a), a, b)

# ---------------------------------------------------------------- sequences
def one(x): return mk("one", x)
def cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat": out += p.args
        else: out.append(p)
    if len(out) == 1 and out[0].op != "one": return out[0]
    # adjacent byte constants etc. are left alone
    return mk("cat", *out)

def seq_cat(a, b): return lift(cat, "cat", (a, b))

def dbkey(t):
    """a key the database iterator gives: type marker and phrase, four bytes, at least (every writer puts these)"""
    if t.op != "field" or t.args[1] not in ("0", 0) or t.args[0].op != "index": return False
    q = t.args[0].args[0]
    while q.op in ("until", "takewhile", "comp", "drop", "take"): q = q.args[0]
    return q.op == "call" and q.args[0] == "DB::iterator"

def length(s):
    def f(s):
        if s.op == "cat":
            r = num(0)
            for p in s.args: r = add(r, num(1) if p.op == "one" else length(p))
            return r
        if s.op == "one": return num(1)
        if s.op == "comp":
            b = s.args[1]
            n = seq_unit_len(b)
            if n is not None: return mul(length(s.args[0]), num(n))
        if s.op == "range":
            d = sub(s.args[1], s.args[0])
            return tmax(d, num(0)) if rng(d)[0] < 0 else d
        if s.op in ("rev", "sort", "enum"): return length(s.args[0])
        if s.op == "arr": return s.args[1]
        if s.op == "varint": return mk("varlen", s.args[0])
        if s.op == "bytes": return num(s.args[2])
        if s.op == "str": return num(len(s.args[0].encode()))
        if s.op == "slice": return sub(s.args[2], s.args[1])
        if s.op in ("seqset", "alt"): return length(s.args[0])
        if s.op == "overlay": return length(s.args[0])
        return typed(mk("len", s), "usize")
    return lift(f, "len", (s,))

def seq_unit_len(b):
    if b.op == "one": return 1
    if b.op == "cat" and all(p.op == "one" for p in b.args): return len(b.args)
    if b.op == "ite":
        x, y = seq_unit_len(b.args[1]), seq_unit_len(b.args[2])
        return x if x == y else None
    return None

def index(s, i, ty=None):
    def f(s, i):
        if s.op == "cat" and is_num(i) and 0 <= i.args[0]:
            k = int(i.args[0])
            for p in s.args:
                if p.op != "one": break
                if k == 0: return p.args[0]
                k -= 1
        if s.op == "arr": return s.args[0]
        if s.op == "range": return add(s.args[0], i)
        if s.op in ("slice", "drop"): return index(s.args[0], add(s.args[1], i), ty)
        if s.op in ("take", "alt"): return index(s.args[0], i, ty)
        if s.op == "zip": return mk("tuple", *[index(x, i) for x in s.args])
        if s.op == "enum": return mk("tuple", i, index(s.args[0], i))
        if s.op == "comp" and seq_unit_len(s.args[1]) == 1 and i.op == "pos" and i.args[0] is s.args[0]:
            if s.args[1].op == "one": return s.args[1].args[0]
        if s.op == "seqset":
            c = eq(s.args[1], i)
            return ite(c, s.args[2], index(s.args[0], i, ty))
        return typed(mk("index", s, i), ty)
    return lift(f, ("index", ty), (s, i))

def substitute(t, m, memo=None):
    """rebuild t with the terms in m replaced, re-canonicalising"""
    if memo is None: memo = {}
    here = {k.args[0]: k for k in m if k.op == "pos"}
    inner = {}
    ks = list({k._mask for k in m})
    if len(ks) == 1:
        k0 = ks[0]
        def away(x): return x & k0 != k0
    else:
        def away(x):
            for k in ks:
                if x & k == k: return False
            return True
    def go(t):
        if away(t._mask): return t
        if t in m: return m[t]
        r = memo.get(t)
        if r is not None: return r
        if not any(isinstance(a, (T, tuple)) for a in t.args):
            memo[t] = t
            return t
        b = here and BINDS.get(t.op)
        if b:
            src = t.args[0]
            while src.op in ("until", "loopfix"): src = src.args[0]
            if src in here:
                # a position of the same sequence is bound here: another variable of the same name
                q = inner.get(src)
                if q is None: q = inner[src] = ({k: v for k, v in m.items() if k is not here[src]}, {})
                def go2(x): return substitute(x, q[0], q[1]) if isinstance(x, T) else tuple(go2(y) for y in x) if isinstance(x, tuple) else x
                def go1(x): return go(x) if isinstance(x, T) else tuple(go1(y) for y in x) if isinstance(x, tuple) else x
                n = [go2(x) if i in b else go1(x) for i, x in enumerate(t.args)]
                r = rebuild(typed(mk(t.op, *n), t.ty), lambda x: x, True)
                memo[t] = r
                return r
        r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)

# argument places in which the position in the sequence given first is bound
BINDS = {"comp": (1,), "any": (1,), "first": (1, 2), "firstis": (1, 2), "until": (1,), "fold": (2,), "folds": (2,), "loopfix": (2, 3, 4),
         "scanseq": (2, 3), "loopout": (1, 2), "loopval": (1,)}

def rebuild(t, go, force=False):
    op, a = t.op, t.args
    if op == "poly":
        r = num(0)
        for mono, c in a:
            x = num(c)
            for v, e in mono:
                g = go(v)
                for _ in range(abs(e)): x = mul(x, g) if e > 0 else fdiv(x, g)
            r = add(r, x)
        return r
    if op == "ite":
        c = go_atom(a[0], go)
        return ite(c, go(a[1]), go(a[2]))
    n = tuple(go(x) if isinstance(x, T) else (tuple(go(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x) for x in a)
    if n == a and not force: return t
    ty = t.ty
    if op == "field": return field(n[0], n[1], ty)
    if op == "index": return index(n[0], n[1], ty)
    if op == "idiv": return idiv(*n)
    if op == "imod": return imod(*n)
    if op == "band": return _fold_ac(band, n)
    if op == "bor": return _fold_ac(bor, n)
    if op == "pow2": return pow2(*n)
    if op == "len": return length(n[0])
    if op == "payload": return payload(n[0], n[1], n[2], ty)
    if op == "cat":
        r = EMPTY
        for x in n: r = seq_cat(r, x)
        return r
    if op == "adt": return adt(*n)
    if op == "comp": return comp(n[0], n[1])
    if op in ("le", "lt_", "is", "eq", "less"):
        if op == "eq" and n[0].id > n[1].id: n = (n[1], n[0])
        return mk(op, *n)
    if op in SMART: return SMART[op](*n)
    return typed(mk(op, *n), ty)

SMART = {"setfield": lambda v, n, x: setfield(v, n, x)}
def _fold_ac(f, xs):
    r = xs[0]
    for x in xs[1:]: r = f(r, x)
    return r

def go_atom(a, go):
    if a.op == "le": return le(go(a.args[0]), num(a.args[1]))
    if a.op == "lt_": return lt(go(a.args[0]), num(a.args[1]))
    if a.op == "eq": return eq(go(a.args[0]), go(a.args[1]))
    if a.op == "less": return lt(go(a.args[0]), go(a.args[1]))
    if a.op == "is":
        x = go(a.args[0])
        def f(y):
            if y.op == "adt": return TRUE if y.args[1] == a.args[1] else FALSE
            return atom(mk("is", y, a.args[1], a.args[2]))
        return lift(f, ("is2", a.args[1], a.args[2]), (x,))
    return bool_of(go(a))

def comp(src, body):
    """concatenation over the elements of src of the sequence body(elem)"""
    if body is EMPTY: return EMPTY
    if src is EMPTY: return EMPTY
    if body.op == "cat" and len(body.args) == 1 and body.args[0].op == "one": body = body.args[0]
    if body.op == "ite":
        from .lib import length as len_
        ne = Not(le(len_(src), num(0)))
        if ne.op == "ite": body = restrict(body, ne)
        if body is EMPTY: return EMPTY
    if body.op == "one" and body.args[0].op == "index" and body.args[0].args[0] is src and body.args[0].args[1].op == "pos" and body.args[0].args[1].args[0] is src:
        return src
    if src.op == "alt" and body.op == "one" and body.args[0].op == "index" and body.args[0].args[0] is src.args[0] and body.args[0].args[1] is mk("pos", src): return src.args[0]
    return mk("comp", src, body)

def free(t, what, memo=None):
    """does term `what` occur in t"""
    if memo is None: memo = {}
    st, seen, k = [t], set(), what._mask
    while st:
        x = st.pop()
        if x is what: return True
        if x in seen or x._mask & k != k: continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T): st.append(a)
            elif isinstance(a, tuple): _push(a, st)
    return False

def _push(a, st):
    for y in a:
        if isinstance(y, T): st.append(y)
        elif isinstance(y, tuple): _push(y, st)

def subterms(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T): st.append(a)
            elif isinstance(a, tuple): _push(a, st)

# ---------------------------------------------------------------- printing
def show(t, depth=9):
    if not isinstance(t, T): return str(t)
    op, a = t.op, t.args
    s = lambda x: show(x, depth - 1)
    if depth <= 0: return "..."
    if op == "num":
        return str(a[0]) if a[0].denominator in (1,) or a[0].denominator > 10**6 else str(float(a[0]))
    if op == "poly":
        out = []
        for m, c in a:
            ms = "*".join(s(x) + ("" if e == 1 else "^%d" % e) for x, e in m)
            cs = str(c) if c.denominator < 100000 else "%g" % float(c)
            out.append(cs if not ms else ms if c == 1 else "%s*%s" % (cs, ms))
        return "(" + " + ".join(out) + ")"
    if op == "ite":
        if a[1] is TRUE and a[2] is FALSE: return s(a[0])
        if a[1] is FALSE and a[2] is TRUE: return "!" + s(a[0])
        return "if(%s, %s, %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "le": return "[%s <= %s]" % (s(a[0]), a[1])
    if op == "lt_": return "[%s < %s]" % (s(a[0]), a[1])
    if op == "eq": return "[%s == %s]" % (s(a[0]), s(a[1]))
    if op == "less": return "[%s < %s]" % (s(a[0]), s(a[1]))
    if op == "is": return "%s is %s" % (s(a[0]), a[1])
    if op == "sym": return str(a[0])
    if op == "field": return "%s.%s" % (s(a[0]), a[1])
    if op == "index": return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "payload": return "%s!%s.%s" % (s(a[0]), a[1], a[2])
    if op == "adt":
        return "%s::%s(%s)" % (a[0], a[1], ", ".join(s(x) for x in a[2:])) if len(a) > 2 else "%s::%s" % (a[0], a[1])
    if op == "tuple": return "(%s)" % ", ".join(s(x) for x in a)
    if op in ("true", "false", "bottom"): return op
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else "(" + ",".join(show(y, depth - 1) for y in x) + ")" if isinstance(x, tuple) else str(x) for x in a))
