"""Meaning of the standard-library (and a few dependency) functions the crate uses, as term constructors."""
from .terms import *
from . import terms as TM
from fractions import Fraction

def _lib():
    from . import lib
    return lib

def _ev():
    from . import ev
    return ev

H = {}        # method name -> handler(ctx) ; looked up as (base, method) first, then method
def h(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d

class Ctx:
    __slots__ = ("ev", "f", "x", "argv", "base", "m", "impl")
    def a(self, i): return self.argv[i]
    def v(self, i): return self.ev.rv(self.argv[i])
    def tag(self): return self.ev.call_tag(self.x)
    def aty(self, i):
        """type record of argument i"""
        a = (self.x or {}).get("args")
        if not a or i >= len(a): return None
        return self.ev.c.types[a[i]["t"]]
    def rty(self):
        t = (self.x or {}).get("t")
        return self.ev.c.types[t] if t is not None else None
    def seq(self, i): return _lib().to_seq(self.ev, self.argv[i])

def call(ev, f, path, argv, x):
    base, m, impl = _ev().simple_name(path)
    c = Ctx(); c.ev, c.f, c.x, c.argv, c.base, c.m, c.impl = ev, f, x, argv, base, m, impl
    fn = H.get((base, m)) or H.get(m)
    if x and x.get("t") is not None and ev.c.types[x["t"]]["k"] == "never":
        ev.env, ev.g = dict(ev.env), FALSE
        return BOTTOM
    if fn is None:
        if m in IDENT and argv: return argv[0]
        return None
    r = fn(c)
    return r

IDENT = set("""clone as_ref as_mut borrow borrow_mut deref deref_mut into_iter iter cloned copied to_owned to_vec into
 from as_slice as_mut_slice as_str new_unchecked into_boxed_slice into_inner by_ref peekable fuse par_iter into_par_iter par_bridge
 into_vec into_bytes as_bytes as_deref as_deref_mut lock write read box_new exchange_malloc write_box_via_move box_assume_init_into_vec_unsafe
 from_residual from_output must_use black_box identity into_string leak into_sorted_vec as_mut_ptr unique from_slice into_group_by
 black_box to_string into_future forget_unsized copied multi_cartesian as_ptr from_vec shrink_to_fit_ by_value transmute""".split())
del_ = [IDENT.discard(n) for n in ("shrink_to_fit_",)]

def const_value(base, m, impl, x):
    ty = impl or base
    if ty and ty.startswith("impl "): ty = ty[5:]
    if m in ("MAX", "MIN") and ty in INT_RANGE: return num(INT_RANGE[ty][1 if m == "MAX" else 0])
    if m in ("MAX", "MIN") and base in INT_RANGE: return num(INT_RANGE[base][1 if m == "MAX" else 0])
    if m == "PI": return num(3.141592653589793)
    return None

def ctor(ev, f, x, argv):
    path = _ev().strip_generics(f["path"])
    segs = path.split("::")
    n = segs[-1]
    if not n or not n[0].isupper() or f.get("trait"): return None
    if n in ("Some",): return some(argv[0])
    if n in ("Ok", "Err"): return mk("adt", "Result", n, *argv)
    if n in ("OrderedFloat", "Wrapping", "Box", "Rc"): return ev.rv(argv[0])
    if n in ("Reverse",): return mk("adt", "Reverse", "Reverse", ev.rv(argv[0]))
    if n in ("Included", "Excluded"): return mk("adt", "Bound", n, ev.rv(argv[0]))
    if len(segs) > 1 and segs[-2] in ADTS and ADTS[segs[-2]]["kind"] == "enum": return mk("adt", segs[-2], n, *argv)
    if n in ADTS: return adt(n, n, *argv)
    if len(segs) > 1 and segs[-2][:1].isupper(): return mk("adt", segs[-2], n, *argv)
    return mk("adt", n, n, *argv)

# ---------------------------------------------------------------- control / errors
def is_option_ty(t):
    return t is not None and t["k"] == "adt" and t["adt"].endswith("Option")

@h("branch")
def _branch(c):
    v = c.v(0)
    t = c.aty(0)
    if is_option_ty(t):
        return ite(is_variant(v, "Option", "Some"), mk("adt", "ControlFlow", "Continue", payload(v, "Some", "0", _arg_tag(c, t, 0))),
                   mk("adt", "ControlFlow", "Break", NONE))
    okc = is_variant(v, "Result", "Ok")
    return ite(okc, mk("adt", "ControlFlow", "Continue", payload(v, "Ok", "0", _arg_tag(c, t, 0))),
               mk("adt", "ControlFlow", "Break", err(payload(v, "Err", "0"))))

def _arg_tag(c, t, i):
    try: return _ev().scalar_ty(c.ev.c, t["args"][i])
    except Exception: return None

@h("unwrap", "expect", "unwrap_unchecked")
def _unwrap(c):
    v = c.argv[0]
    if v.op == "mref": v = c.ev.rv(v)
    t = c.aty(0)
    if is_option_ty(t):
        if c.ev.loops: c.ev.wishes.append(Or(Not(c.ev.g), is_variant(v, "Option", "Some")))
        else: c.ev.need(is_variant(v, "Option", "Some"))
        return payload(v, "Some", "0", c.tag())
    if c.base in ("Result",) or (t and t["k"] == "adt" and t["adt"].endswith("Result")): return payload(v, "Ok", "0", c.tag())
    if c.base == "Option": return payload(v, "Some", "0", c.tag())
    return payload(v, "Ok", "0", c.tag())

@h("unwrap_err", "expect_err")
def _unwrap_err(c): return payload(c.v(0), "Err", "0")

@h("try_into", "try_from")
def _try_into(c):
    v = c.v(0)
    return ok(v)

@h("panic", "panic_fmt", "begin_panic", "unreachable", "panic_display", "assert_failed", "unreachable_display", "panic_str")
def _panic(c):
    c.ev.env, c.ev.g = dict(c.ev.env), FALSE
    return BOTTOM

@h("_print", "_eprint", "drop", "flush_", "forget", "reserve", "shrink_to_fit")
def _unit(c): return UNIT

# ---------------------------------------------------------------- Option / Result
def opt_lift(c, v, on_some, on_none):
    cd = is_variant(v, "Option", "Some")
    return c.ev.branch(cd, lambda: on_some(payload(v, "Some", "0", _payload_tag(c))), on_none)

def _payload_tag(c):
    t = c.aty(0)
    while t and t["k"] == "ref": t = c.ev.c.types[t["args"][0]]
    if t and t["k"] == "adt" and t.get("args"):
        try: return _ev().scalar_ty(c.ev.c, t["args"][0])
        except Exception: return None
    return None

def res_kind(c):
    t = c.aty(0)
    while t and t["k"] == "ref": t = c.ev.c.types[t["args"][0]]
    if t and t["k"] == "adt": return "Option" if t["adt"].endswith("Option") else "Result" if t["adt"].endswith("Result") else c.base
    return c.base

@h(("Option", "map"))
def _omap(c):
    v = c.v(0); f = c.a(1)
    return opt_lift(c, v, lambda p: some(c.ev.apply(f, [p])), lambda: NONE)
@h(("Option", "and_then"))
def _oand(c):
    v = c.v(0); f = c.a(1)
    return opt_lift(c, v, lambda p: c.ev.apply(f, [p]), lambda: NONE)
@h(("Option", "filter"))
def _ofilter(c):
    v = c.v(0); f = c.a(1)
    return opt_lift(c, v, lambda p: ite(bool_of(c.ev.rv(c.ev.apply(f, [p]))), some(p), NONE), lambda: NONE)
@h(("Option", "unwrap_or"), ("Result", "unwrap_or"))
def _oor(c):
    v, d = c.v(0), c.a(1)
    if res_kind(c) == "Result": return ite(is_variant(v, "Result", "Ok"), payload(v, "Ok", "0", c.tag()), d)
    return ite(is_variant(v, "Option", "Some"), payload(v, "Some", "0", c.tag()), d)
@h(("Option", "unwrap_or_else"), ("Option", "map_or_else_"))
def _oorelse(c):
    v, f = c.v(0), c.a(1)
    return opt_lift(c, v, lambda p: p, lambda: c.ev.apply(f, []))
@h(("Result", "unwrap_or_else"))
def _rorelse(c):
    v, f = c.v(0), c.a(1)
    return c.ev.branch(is_variant(v, "Result", "Ok"), lambda: payload(v, "Ok", "0", c.tag()), lambda: c.ev.apply(f, [payload(v, "Err", "0")]))
@h(("Option", "unwrap_or_default"))
def _odef(c):
    v = c.v(0)
    return opt_lift(c, v, lambda p: p, lambda: default_of(c, c.tag()))
@h(("Option", "map_or"))
def _omapor(c):
    v, d, f = c.v(0), c.a(1), c.a(2)
    return opt_lift(c, v, lambda p: c.ev.apply(f, [p]), lambda: d)
@h(("Option", "map_or_else"))
def _omaporelse(c):
    v, d, f = c.v(0), c.a(1), c.a(2)
    return opt_lift(c, v, lambda p: c.ev.apply(f, [p]), lambda: c.ev.apply(d, []))
@h(("Option", "is_some_and"))
def _oissomeand(c):
    v, f = c.v(0), c.a(1)
    return opt_lift(c, v, lambda p: bool_of(c.ev.rv(c.ev.apply(f, [p]))), lambda: FALSE)
@h(("Option", "is_none_or"))
def _oisnoneor(c):
    v, f = c.v(0), c.a(1)
    return opt_lift(c, v, lambda p: bool_of(c.ev.rv(c.ev.apply(f, [p]))), lambda: TRUE)
@h("is_some")
def _iss(c): return is_variant(c.v(0), "Option", "Some")
@h("is_none")
def _isn(c): return is_variant(c.v(0), "Option", "None")
@h("is_ok")
def _isok(c): return is_variant(c.v(0), "Result", "Ok")
@h("is_err")
def _iserr(c): return is_variant(c.v(0), "Result", "Err")
@h(("Option", "ok_or"))
def _okor(c):
    v = c.v(0)
    return ite(is_variant(v, "Option", "Some"), ok(payload(v, "Some", "0", _payload_tag(c))), err(c.a(1)))
@h(("Option", "ok_or_else"))
def _okorelse(c):
    v = c.v(0); f = c.a(1)
    return opt_lift(c, v, lambda p: ok(p), lambda: err(c.ev.apply(f, [])))
@h(("Option", "or"))
def _oorr(c):
    v = c.v(0)
    return ite(is_variant(v, "Option", "Some"), some(payload(v, "Some", "0", _payload_tag(c))), c.v(1))
@h(("Option", "or_else"))
def _oorelse2(c):
    v = c.v(0); f = c.a(1)
    return opt_lift(c, v, lambda p: some(p), lambda: c.ev.apply(f, []))
@h(("Option", "take"))
def _otake(c):
    v = c.v(0)
    c.ev.write_ref(c.a(0), NONE)
    return v
@h(("Option", "replace"), ("mem", "replace"))
def _oreplace(c):
    v = c.v(0)
    new = c.a(1)
    c.ev.write_ref(c.a(0), some(new) if c.base == "Option" else new)
    return v
@h(("Option", "insert"))
def _oinsert(c):
    c.ev.write_ref(c.a(0), some(c.a(1)))
    return mref(c.a(0), ("v", "Some", "0", None))
@h(("Option", "get_or_insert_with"))
def _ogoiw(c):
    r = c.a(0); v = c.v(0); f = c.a(1)
    nv = opt_lift(c, v, lambda p: some(p), lambda: some(c.ev.apply(f, [])))
    c.ev.write_ref(r, nv)
    return mref(r, ("v", "Some", "0", None))
@h(("Option", "as_mut"), ("Option", "as_deref_mut"))
def _oasmut(c):
    r = c.a(0)
    if r.op != "mref": return r
    v = c.v(0)
    return ite(is_variant(v, "Option", "Some"), some(mref(r, ("v", "Some", "0", None))), NONE)
@h(("Option", "flatten"))
def _oflat(c):
    v = c.v(0)
    return ite(is_variant(v, "Option", "Some"), payload(v, "Some", "0"), NONE)
@h(("Result", "map"))
def _rmap(c):
    v = c.v(0); f = c.a(1)
    return c.ev.branch(is_variant(v, "Result", "Ok"), lambda: ok(c.ev.apply(f, [payload(v, "Ok", "0", _payload_tag(c))])), lambda: err(payload(v, "Err", "0")))
@h(("Result", "and_then"))
def _rand(c):
    v = c.v(0); f = c.a(1)
    return c.ev.branch(is_variant(v, "Result", "Ok"), lambda: c.ev.apply(f, [payload(v, "Ok", "0", _payload_tag(c))]), lambda: err(payload(v, "Err", "0")))
@h(("Result", "map_err"))
def _rmaperr(c): return c.v(0)
@h(("Result", "ok"))
def _rok(c):
    v = c.v(0)
    return ite(is_variant(v, "Result", "Ok"), some(payload(v, "Ok", "0", _payload_tag(c))), NONE)
@h(("Result", "err"))
def _rerr(c):
    v = c.v(0)
    return ite(is_variant(v, "Result", "Ok"), NONE, some(payload(v, "Err", "0")))
@h("transpose")
def _transpose(c):
    v = c.v(0)
    return mk("transpose", v)

def mref(r, el): return mk("mref", r.args[0], r.args[1] + (el,))

# ---------------------------------------------------------------- comparisons
@h("cmp")
def _cmp(c): return cmp_vals(c, c.v(0), c.v(1))
@h("partial_cmp")
def _pcmp(c): return some(cmp_vals(c, c.v(0), c.v(1)))
def cmp_vals(c, a, b): return user_cmp(c.ev, a, b)

def user_cmp(ev, a, b):
    """comparison of two values, using the crate's own Ord impl of their type"""
    for t in (a, b):
        n = t.ty if t.op != "adt" else t.args[0]
        p = ev.c.traits.get(("Ord", "cmp", n)) or ev.c.traits.get(("PartialOrd", "partial_cmp", n)) if n else None
        if p and p not in ev.stack and canon(p) not in ev.boundaries:
            r = ev.rv(ev.inline(p, [a, b], {}))
            return payload(r, "Some", "0") if "partial" in p else r
    return lift(lambda a, b: compare(a, b), "cmpv", (a, b))

def canon(p): return _ev().canon_path(p)

def user_impl(ev, a, b, trait, m):
    for t in (a, b):
        n = t.ty if t.op != "adt" else t.args[0]
        p = ev.c.traits.get((trait, m, n)) if n else None
        if p and p not in ev.stack and canon(p) not in ev.boundaries: return p
def _rel(fn, *ords):
    def g(c):
        a, b = c.v(0), c.v(1)
        # the crate's own ordering of the type
        p = user_impl(c.ev, a, b, "PartialOrd", "partial_cmp")
        if p:
            r = payload(c.ev.rv(c.ev.inline(p, [a, b], {})), "Some", "0")
            return Or(*[is_variant(r, "Ordering", o) for o in ords])
        return fn(a, b)
    return g
def _releq(fn, neg):
    def g(c):
        a, b = c.v(0), c.v(1)
        p = user_impl(c.ev, a, b, "PartialEq", "eq")
        if p:
            r = c.ev.rv(c.ev.inline(p, [a, b], {}))
            return Not(r) if neg else r
        return fn(a, b)
    return g
H["lt"] = _rel(lt, "Less"); H["le"] = _rel(le, "Less", "Equal"); H["gt"] = _rel(gt, "Greater"); H["ge"] = _rel(ge, "Greater", "Equal")
H["eq"] = _releq(eq, False); H["ne"] = _releq(ne, True)

@h(("Ordering", "then"))
def _then(c): return then_ord(c.v(0), c.v(1))
@h(("Ordering", "then_with"))
def _thenw(c):
    o = c.v(0); f = c.a(1)
    return c.ev.branch(is_variant(o, "Ordering", "Equal"), lambda: c.ev.rv(c.ev.apply(f, [])), lambda: o)
@h(("Ordering", "reverse"))
def _ordrev(c): return rev_ord(c.v(0))
for _n, _vs in (("is_eq", ["Equal"]), ("is_lt", ["Less"]), ("is_gt", ["Greater"]), ("is_le", ["Less", "Equal"]), ("is_ge", ["Greater", "Equal"])):
    def _mk(vs):
        return lambda c: Or(*[is_variant(c.v(0), "Ordering", v) for v in vs])
    H[_n] = _mk(_vs)
H["is_ne"] = lambda c: Not(is_variant(c.v(0), "Ordering", "Equal"))

@h(("Ord", "max"), ("cmp", "max"), ("num", "max"), ("f64", "max"), ("f32", "max"))
def _max(c):
    return tmax(c.v(0), c.v(1))
@h(("Ord", "min"), ("cmp", "min"), ("num", "min"), ("f64", "min"), ("f32", "min"))
def _min(c): return tmin(c.v(0), c.v(1))
@h("clamp")
def _clamp(c): return tmin(tmax(c.v(0), c.v(1)), c.v(2))
@h("total_cmp")
def _tc(c): return compare(c.v(0), c.v(1))

# operators called through traits
def _op(name):
    def g(c):
        ta = c.ev.tag(c.x["args"][0]) if c.x and c.x.get("args") else None
        a, b = c.v(0), c.v(1)
        return c.ev.binop(name, a, b, ta or a.ty, c.tag())
    return g
for _t, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem"), ("Shl", "shl"), ("Shr", "shr"),
               ("BitAnd", "bitand"), ("BitOr", "bitor"), ("BitXor", "bitxor")):
    H[(_t, _m)] = _op(_t)
def _opassign(name):
    def g(c):
        r = c.a(0)
        a, b = c.ev.rv(r), c.v(1)
        ta = c.ev.tag(c.x["args"][1]) if c.x and c.x.get("args") else None
        c.ev.write_ref(r, c.ev.binop(name, a, b, ta or a.ty, None))
        return UNIT
    return g
for _t, _m in (("Add", "add_assign"), ("Sub", "sub_assign"), ("Mul", "mul_assign"), ("Div", "div_assign"), ("BitOr", "bitor_assign"), ("BitAnd", "bitand_assign"),
               ("Shl", "shl_assign"), ("Shr", "shr_assign"), ("BitXor", "bitxor_assign"), ("Rem", "rem_assign")):
    H[(_t + "Assign", _m)] = _opassign(_t)
@h(("Neg", "neg"))
def _neg(c): return neg(c.v(0))
@h(("Not", "not"))
def _not(c): return Not(bool_of(c.v(0)))

# ---------------------------------------------------------------- numbers
def self_ty(c):
    t = c.impl
    if t in INT_RANGE: return t
    if c.x and c.x.get("args"):
        g = c.ev.tag(c.x["args"][0])
        if g: return g
    return c.tag()

@h("saturating_sub")
def _ssub(c):
    t = self_ty(c); lo = INT_RANGE.get(t, (0, 0))[0]
    return tmax(sub(c.v(0), c.v(1)), num(lo))
@h("saturating_add")
def _sadd(c):
    t = self_ty(c); hi = INT_RANGE.get(t, (0, 2 ** 64 - 1))[1]
    return tmin(add(c.v(0), c.v(1)), num(hi))
@h("saturating_mul")
def _smul(c):
    t = self_ty(c); hi = INT_RANGE.get(t, (0, 2 ** 64 - 1))[1]
    return tmin(mul(c.v(0), c.v(1)), num(hi))
def _in(t, r):
    lo, hi = INT_RANGE.get(t, (0, 2 ** 64 - 1))
    return And(le(num(lo), r), le(r, num(hi)))
for _n, _f in (("checked_sub", sub), ("checked_add", add), ("checked_mul", mul)):
    def _mk2(f):
        def g(c):
            r = f(c.v(0), c.v(1))
            return ite(_in(self_ty(c), r), some(r), NONE)
        return g
    H[_n] = _mk2(_f)
for _n, _f in (("wrapping_sub", sub), ("wrapping_add", add), ("wrapping_mul", mul)):
    def _mk3(f):
        return lambda c: _lib().wrap(f(c.v(0), c.v(1)), self_ty(c) or "u64")
    H[_n] = _mk3(_f)
@h("wrapping_shl")
def _wshl(c): return _lib().wrap(shl(c.v(0), c.v(1)), self_ty(c) or "u64")
@h("checked_shl")
def _cshl(c):
    t = self_ty(c)
    bits = INT_RANGE.get(t, (0, 2 ** 64 - 1))[1].bit_length()
    return ite(lt(c.v(1), num(bits)), some(shl(c.v(0), c.v(1))), NONE)
@h("checked_div")
def _cdiv(c):
    return ite(eq(c.v(1), num(0)), NONE, some(idiv(c.v(0), c.v(1))))
@h("abs", "unsigned_abs")
def _abs(c):
    v = c.v(0)
    if v.op == "poly" and v.args[0][1] < 0: v = neg(v)
    return tmax(v, neg(v))
@h("abs_diff")
def _absdiff(c):
    d = sub(c.v(0), c.v(1))
    if d.op == "poly" and d.args[0][1] < 0: d = neg(d)
    return tmax(d, neg(d))
@h("pow", "powi")
def _pow(c):
    b, e = c.v(0), c.v(1)
    if is_num(e) and 0 <= e.args[0] <= 8:
        r = num(1)
        for _ in range(int(e.args[0])): r = mul(r, b)
        return r
    if is_num(b) and b.args[0] == 2 and is_int(e) and rng(e)[0] >= 0: return pow2(e)
    return typed(mk("pow", b, e), c.tag())
@h("powf")
def _powf(c):
    b, e = c.v(0), c.v(1)
    if is_num(e) and e.args[0].denominator == 1 and 0 <= e.args[0] <= 8:
        r = num(1)
        for _ in range(int(e.args[0])): r = mul(r, b)
        return r
    return typed(mk("pow", b, e), c.tag())
for _n in ("sqrt", "floor", "ceil", "round", "exp", "cos", "sin", "ln", "log2", "trunc", "tan", "to_radians", "log10", "atan", "hypot", "cbrt"):
    def _mk4(n):
        def g(c):
            def f(*a):
                if n in ("floor", "ceil", "round", "trunc") and len(a) == 1:
                    if is_int(a[0]): return a[0]
                    if is_num(a[0]):
                        import math
                        x = a[0].args[0]
                        if n == "floor": return num(math.floor(x))
                        if n == "ceil": return num(math.ceil(x))
                        if n == "trunc": return num(math.trunc(x))
                        return num(int(x + Fraction(1, 2)) if x >= 0 else -int(-x + Fraction(1, 2)))
                return typed(mk(n, *a), "f64")
            return lift(f, n, tuple(c.v(i) for i in range(len(c.argv))))
        return g
    for _b in ("f64", "f32", "num", "Float"): H[(_b, _n)] = _mk4(_n)
@h(("f64", "from"), ("f32", "from"), ("u32", "from"), ("u64", "from"), ("u16", "from"), ("u8", "from"), ("usize", "from"), ("i32", "from"), ("i64", "from"), ("u128", "from"))
def _from(c): return c.v(0)
WID = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "u128": 16, "f32": 4, "f64": 8}
def _tobytes(order):
    def g(c):
        t = c.impl if c.impl in WID else self_ty(c)
        v = c.v(0)
        def f(v):
            if t == "u8": return cat(one(v))
            return mk("bytes", v, order, WID.get(t, 8))
        return lift(f, ("bytes", order, t), (v,))
    return g
H["to_le_bytes"] = _tobytes("le"); H["to_be_bytes"] = _tobytes("be"); H["to_ne_bytes"] = _tobytes("le")
def _frombytes(order):
    def g(c):
        t = c.impl if c.impl in WID else c.tag()
        return frombytes(c.v(0), order, t)
    return g
def frombytes(s, order, t):
    def f(s):
        if s.op == "bytes" and s.args[1] == order and s.args[2] == WID.get(t): return s.args[0]
        if s.op == "cat" and len(s.args) > 1 and all(p.op == "one" and p.args[0].op == "index" for p in s.args):
            # neighbouring bytes listed one by one
            b, at = s.args[0].args[0].args
            if all(p.args[0].args[0] is b and p.args[0].args[1] is add(at, num(i)) for i, p in enumerate(s.args)):
                s = _lib().slice_(b, at, add(at, num(len(s.args))))
        return typed(mk("leint", s, order, WID.get(t, 8)), t)
    return lift(f, ("frombytes", order, t), (s,))
@h("max_value", "min_value")
def _maxv(c):
    t = c.impl if c.impl in INT_RANGE else c.tag()
    return num(INT_RANGE[t][1 if c.m == "max_value" else 0]) if t in INT_RANGE else None
H["from_le_bytes"] = _frombytes("le"); H["from_be_bytes"] = _frombytes("be"); H["from_ne_bytes"] = _frombytes("le")

# varint crate
@h("encode_var")
def _encvar(c):
    v = c.v(0)
    cur = c.ev.rv(c.a(1))
    c.ev.need(le(mk("varlen", v), TM.length(cur)))
    c.ev.write_ref(c.a(1), _lib().overlay(cur, num(0), mk("varint", v)))
    return mk("varlen", v)
@h("encode_var_vec")
def _encvec(c): return mk("varint", c.v(0))
@h("required_space")
def _reqs(c): return mk("varlen", c.v(0))
@h("decode_var")
def _decvar(c):
    s = c.v(0)
    t = None
    rt = c.rty()
    if rt and rt["k"] == "tuple": t = _ev().scalar_ty(c.ev.c, rt["args"][0])
    def f(s):
        if s.op == "varint": return mk("tuple", s.args[0], mk("varlen", s.args[0]))
        if s.op == "cat" and s.args and s.args[0].op == "varint": return mk("tuple", s.args[0].args[0], mk("varlen", s.args[0].args[0]))
        return mk("tuple", typed(mk("vdec", s), t), typed(mk("vdeclen", s), "usize"))
    return lift(f, ("decvar", t), (s,))

# byteorder
for _w, _t in ((16, "u16"), (32, "u32"), (64, "u64"), (128, "u128")):
    for _b, _o in (("BigEndian", "be"), ("LittleEndian", "le"), ("ByteOrder", None)):
        def _mkr(o, t):
            def g(c):
                oo = o or ("le" if "Little" in str(c.impl) else "be")
                return frombytes(_lib().slice_(c.v(0), num(0), num(WID[t])), oo, t)
            return g
        def _mkw(o, t):
            def g(c):
                oo = o or ("le" if "Little" in str(c.impl) else "be")
                r = c.a(0)
                c.ev.write_ref(r, _lib().overlay(c.ev.rv(r), num(0), lift(lambda v: mk("bytes", v, oo, WID[t]), ("bytes", oo, t), (c.v(1),))))
                return UNIT
            return g
        H[(_b, "read_" + _t)] = _mkr(_o, _t)
        H[(_b, "write_" + _t)] = _mkw(_o, _t)
    def _mkwe(t):
        def g(c):
            ga = c.f.get("ga") or []
            names = [c.ev.c.types[i]["s"] for i in ga if isinstance(i, int)]
            o = "le" if any("LittleEndian" in n for n in names) else "be"
            r = c.a(0)
            c.ev.write_ref(r, seq_cat(c.ev.rv(r), lift(lambda v: mk("bytes", v, o, WID[t]), ("bytes", o, t), (c.v(1),))))
            return ok(UNIT)
        return g
    H[("WriteBytesExt", "write_" + _t)] = _mkwe(_t)
    def _mkre(t):
        def g(c):
            ga = c.f.get("ga") or []
            names = [c.ev.c.types[i]["s"] for i in ga if isinstance(i, int)]
            o = "le" if any("LittleEndian" in n for n in names) else "be"
            r = c.a(0)
            s = c.ev.rv(r)
            w = num(WID[t])
            n = TM.length(s)
            c.ev.write_ref(r, _lib().drop(s, w))
            return ite(le(w, n), ok(frombytes(_lib().slice_(s, num(0), w), o, t)), err(mk("str", "unexpected end")))
        return g
    H[("ReadBytesExt", "read_" + _t)] = _mkre(_t)
@h(("WriteBytesExt", "write_u8"))
def _wu8(c):
    c.ev.write_ref(c.a(0), seq_cat(c.ev.rv(c.a(0)), cat(one(c.v(1)))))
    return ok(UNIT)
@h(("ReadBytesExt", "read_u8"))
def _ru8(c):
    s = c.ev.rv(c.a(0)); n = TM.length(s)
    c.ev.write_ref(c.a(0), _lib().drop(s, num(1)))
    return ite(le(num(1), n), ok(index(s, num(0), "u8")), err(mk("str", "unexpected end")))
@h(("Write", "write_all"))
def _wall(c):
    c.ev.write_ref(c.a(0), seq_cat(c.ev.rv(c.a(0)), c.v(1)))
    return ok(UNIT)

# ---------------------------------------------------------------- mem
@h(("mem", "swap"))
def _swap(c):
    a, b = c.v(0), c.v(1)
    c.ev.write_ref(c.a(0), b); c.ev.write_ref(c.a(1), a)
    return UNIT
@h(("mem", "take"))
def _mtake(c):
    a = c.v(0)
    c.ev.write_ref(c.a(0), default_of(c, c.tag()))
    return a

def default_of(c, tag):
    if tag in INT_RANGE or tag in ("f32", "f64"): return num(0)
    if tag == "bool": return FALSE
    if tag in ("Vec", "String", "SmallVec", "VecDeque"): return EMPTY
    if tag in ("HashMap", "BTreeMap", "HashSet", "BTreeSet", "IndexMap"): return _lib().MAPNEW
    if tag == "Option": return NONE
    p = c.ev.c.traits.get(("Default", "default", tag))
    if p: return c.ev.inline(p, [], {})
    return typed(mk("default", tag or "?"), tag)

@h(("Default", "default"))
def _default(c): return default_of(c, c.tag())

# ---------------------------------------------------------------- Vec / slice
COLL = ("Vec", "SmallVec", "VecDeque", "String", "ArrayVec")
MAPS = ("HashMap", "BTreeMap", "HashSet", "BTreeSet", "IndexMap", "IndexSet")

@h("new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "new_const")
def _new(c):
    if c.base in COLL: return EMPTY
    if c.base in MAPS: return _lib().MAPNEW
    if c.base in ("Rc", "Arc", "Box", "RefCell", "Cell", "Mutex", "RwLock", "Some", "Reverse_") and c.argv: return c.argv[0]
    if c.base == "RangeInclusive": return mk("adt", "RangeInclusive", "RangeInclusive", c.v(0), c.v(1))
    return None
@h("from_elem")
def _from_elem(c): return mk("arr", c.v(0), c.v(1))
@h("push", "push_back", "push_str", "push_char")
def _push(c):
    if c.base not in COLL and c.base != "Extend": return None
    x = c.ev.canon_keep(c.a(1)) if hasattr(c.ev, "canon_keep") else c.ev.rv(c.a(1))
    if c.m == "push_str": part = x
    else: part = cat(one(x))
    c.ev.write_ref(c.a(0), seq_cat(c.ev.rv(c.a(0)), part))
    return UNIT
@h("extend", "extend_from_slice", "append")
def _extend(c):
    cur = c.ev.rv(c.a(0))
    s = _lib().to_seq(c.ev, c.a(1))
    if c.base in MAPS or (cur.op in ("mapnew", "ins")):
        return _extend_map(c, s)
    c.ev.write_ref(c.a(0), seq_cat(cur, s))
    if c.m == "append": c.ev.write_ref(c.a(1), EMPTY)
    return UNIT
def _extend_map(c, s):
    r = c.a(0)
    def f(e):
        c.ev.write_ref(r, _lib().map_ins(c.ev.rv(r), field(e, "0"), field(e, "1")))
    _lib().iterate(c.ev, s, f)
    return UNIT
@h("len")
def _len(c): return TM.length(c.v(0))
@h("is_empty")
def _isempty(c): return eq(TM.length(c.v(0)), num(0))
@h("count")
def _count(c): return TM.length(c.seq(0))
@h(("slice", "first"), ("Vec", "first"))
def _first(c):
    s = c.v(0)
    return ite(lt(num(0), TM.length(s)), some(index(s, num(0), _inner_tag(c))), NONE)
@h(("slice", "last"), ("Iterator", "last"), ("Vec", "last"))
def _last(c):
    s = c.seq(0)
    n = TM.length(s)
    return ite(lt(num(0), n), some(index(s, sub(n, num(1)), _inner_tag(c))), NONE)
def _inner_tag(c):
    """scalar tag inside the returned Option"""
    t = c.rty()
    if t and t["k"] == "adt" and t.get("args"):
        try: return _ev().scalar_ty(c.ev.c, t["args"][0])
        except Exception: return None
    return None
@h("get", "get_mut", "get_unchecked")
def _get(c):
    r = c.a(0); s = c.v(0)
    if c.m == "get_unchecked": return index(s, c.v(1), c.tag())
    if s.op in ("occ", "vac"): return _occ(c, s, c.m)
    if c.base in MAPS or c.base in ("OccupiedEntry",):
        k = c.v(1)
        has = _lib().map_has(s, k)
        if c.m == "get_mut" and r.op == "mref": return ite(has, some(mref(r, ("k", k, None))), NONE)
        return ite(has, some(_lib().map_get(s, k, _inner_tag(c))), NONE)
    if c.base in ("slice", "Vec", "SmallVec", "VecDeque", "str"):
        i = c.v(1)
        if i.op == "adt": 
            lo, hi = bounds(c, s, i)
            return ite(And(le(lo, hi), le(hi, TM.length(s))), some(_lib().slice_(s, lo, hi)), NONE)
        n = TM.length(s)
        if c.m == "get_mut" and r.op == "mref": return ite(lt(i, n), some(mref(r, ("i", i, _inner_tag(c)))), NONE)
        return ite(lt(i, n), some(index(s, i, _inner_tag(c))), NONE)
    if c.base in ("Cell",): return s
    return None
def bounds(c, s, r):
    name, a = r.args[0], r.args[2:]
    n = TM.length(s)
    if name == "Range": return a[0], a[1]
    if name == "RangeInclusive": return a[0], add(a[1], num(1))
    if name == "RangeFrom": return a[0], n
    if name == "RangeTo": return num(0), a[0]
    if name == "RangeToInclusive": return num(0), add(a[0], num(1))
    return num(0), n
@h("index", "index_mut")
def _index(c):
    r = c.a(0); s = c.v(0); i = c.v(1)
    if i.op == "adt" and i.args[0].startswith("Range"):
        lo, hi = bounds(c, s, i)
        n = TM.length(s)
        c.ev.need(And(le(lo, hi), le(hi, n)) if i.args[0] != "RangeFrom" else le(lo, n))
        if c.m == "index_mut" and r.op == "mref": return mref(r, ("s", lo, hi))
        if i.args[0] == "RangeFrom": return _lib().drop(s, lo)
        if i.args[0] == "RangeFull": return s
        return _lib().slice_(s, lo, hi)
    t = c.aty(0)
    while t and t["k"] == "ref": t = c.ev.c.types[t["args"][0]]
    ismap = t and t["k"] == "adt" and _ev().type_head(t["s"]) in MAPS
    rt = c.tag()
    if ismap:
        if c.m == "index_mut" and r.op == "mref": return mref(r, ("k", i, None))
        return _lib().map_get(s, i, rt)
    if t and t["k"] in ("array", "slice") or (t and t["k"] == "adt" and _ev().type_head(t["s"]) in COLL):
        c.ev.need(lt(i, TM.length(s)))
        if c.m == "index_mut" and r.op == "mref": return mref(r, ("i", i, rt))
        return index(s, i, rt)
    if c.m == "index_mut" and r.op == "mref": return mref(r, ("i", i, rt))
    return index(s, i, rt)
@h("pop", "pop_back")
def _pop(c):
    if c.base not in COLL: return None
    s = c.v(0)
    n = TM.length(s)
    c.ev.write_ref(c.a(0), _lib().take(s, sub(n, num(1))))
    return ite(lt(num(0), n), some(index(s, sub(n, num(1)), _inner_tag(c))), NONE)
@h("pop_front")
def _popf(c):
    s = c.v(0)
    c.ev.write_ref(c.a(0), _lib().drop(s, num(1)))
    return ite(lt(num(0), TM.length(s)), some(index(s, num(0), _inner_tag(c))), NONE)
@h("truncate")
def _trunc(c):
    s = c.v(0)
    c.ev.write_ref(c.a(0), _lib().take(s, c.v(1)))
    return UNIT
@h("clear")
def _clear(c):
    c.ev.write_ref(c.a(0), _lib().MAPNEW if c.base in MAPS else EMPTY)
    return UNIT
@h("reverse")
def _reverse(c):
    c.ev.write_ref(c.a(0), rev(c.v(0)))
    return UNIT
def rev(s):
    def f(s):
        if s.op == "rev": return s.args[0]
        if s.op == "sort": return mk("sort", s.args[0], swap_ab(s.args[1]))
        if s.op == "cat" and all(p.op == "one" for p in s.args): return cat(*reversed(s.args))
        return mk("rev", s)
    return lift(f, "rev", (s,))
def swap_ab(cmpd):
    A, B = AB(cmpd)
    t = typed(mk("cmpT", A.args[0]), A.ty)
    return substitute(substitute(substitute(cmpd, {A: t}), {B: A}), {t: B})
def AB(cmpd):
    for x in subterms(cmpd):
        if x.op == "cmpA": return x, typed(mk("cmpB", x.args[0]), x.ty)
        if x.op == "cmpB": return typed(mk("cmpA", x.args[0]), x.ty), x
    return mk("cmpA", None), mk("cmpB", None)
@h("sort", "sort_unstable", "sorted")
def _sort(c):
    A, B = ab(c)
    return _sorted(c, user_cmp(c.ev, A, B))
@h("sort_by", "sort_unstable_by", "par_sort_by", "sorted_by")
def _sortby(c):
    A, B = ab(c)
    return _sorted(c, c.ev.rv(c.ev.apply(c.a(1), [A, B])))
@h("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "sorted_by_key")
def _sortbykey(c):
    A, B = ab(c)
    ka, kb = c.ev.rv(c.ev.apply(c.a(1), [A])), c.ev.rv(c.ev.apply(c.a(1), [B]))
    return _sorted(c, user_cmp(c.ev, ka, kb))
def ab(c):
    """generic elements of the sequence being ordered"""
    t = elem_tag(c)
    A, B = typed(mk("cmpA", t), t), typed(mk("cmpB", t), t)
    et = elem_ty(c)
    if et is not None and et["k"] == "tuple":
        tags = [_ev().scalar_ty(c.ev.c, i) for i in et["args"]]
        return (mk("tuple", *[field(A, str(i), g) for i, g in enumerate(tags)]), mk("tuple", *[field(B, str(i), g) for i, g in enumerate(tags)]))
    return A, B
def elem_ty(c):
    t = c.aty(0)
    n = 0
    while t and n < 6:
        n += 1
        if t["k"] == "ref": t = c.ev.c.types[t["args"][0]]; continue
        if t["k"] in ("slice", "array"):
            e = c.ev.c.types[t["args"][0]]
            return deref_ty(c, e)
        if t["k"] == "adt":
            h_ = _ev().type_head(t["s"])
            if h_ in COLL and t.get("args"):
                e = c.ev.c.types[t["args"][0]]
                if h_ == "SmallVec" and e["k"] == "array": e = c.ev.c.types[e["args"][0]]
                return deref_ty(c, e)
        return None
    return None
def deref_ty(c, t):
    while t["k"] == "ref": t = c.ev.c.types[t["args"][0]]
    return t
def elem_tag(c):
    t = elem_ty(c)
    if t is None: return None
    for i, u in enumerate(c.ev.c.types):
        if u is t: return _ev().scalar_ty(c.ev.c, i)
    return None
def seq_tag(s):
    """type tag of the elements, read off a sequence term"""
    if s.op == "comp": s = s.args[1]
    tys = set()
    def go(b):
        if b.op == "one": tys.add(b.args[0].ty)
        elif b.op == "ite": go(b.args[1]); go(b.args[2])
        elif b.op == "cat":
            for p in b.args: go(p)
        else: tys.add(None)
    go(s)
    return tys.pop() if len(tys) == 1 else None
def _sorted(c, cmpd):
    if c.m.startswith("sorted"):
        return mksort(c.seq(0), cmpd)
    c.ev.write_ref(c.a(0), mksort(c.ev.rv(c.a(0)), cmpd))
    return UNIT
def mksort(s, cmpd):
    def f(s):
        if s.op == "sort" and s.args[1] is cmpd: return s
        if s is EMPTY: return s
        return mk("sort", s, cmpd)
    return lift(f, ("sort", cmpd), (s,))
@h("dedup", "dedup_by_key", "dedup_by")
def _dedup(c):
    A, B = ab(c)
    if c.m == "dedup":
        if A.ty is None:
            t = seq_tag(c.seq(0) if c.base not in ("Vec", "SmallVec") else c.v(0))
            if t: A, B = typed(mk("cmpA", t), t), typed(mk("cmpB", t), t)
        q = eq(A, B)
    elif c.m == "dedup_by_key":
        q = eq(c.ev.rv(c.ev.apply(c.a(1), [A])), c.ev.rv(c.ev.apply(c.a(1), [B])))
    else: q = bool_of(c.ev.rv(c.ev.apply(c.a(1), [A, B])))
    if c.base in ("Vec", "SmallVec"):
        c.ev.write_ref(c.a(0), lift(lambda s: mk("dedup", s, q), ("dedup", q), (c.v(0),)))
        return UNIT
    return mk("dedup", c.seq(0), q)
@h("retain", "retain_mut")
def _retain(c):
    s = c.v(0)
    if c.base in MAPS: return None
    f = c.a(1)
    r = _lib().seq_map(c.ev, s, lambda e: ite(bool_of(c.ev.rv(c.ev.apply(f, [e]))), cat(one(c.ev.rv(e))), EMPTY))
    c.ev.write_ref(c.a(0), r)
    return UNIT
@h("contains")
def _contains(c):
    s, k = c.v(0), c.v(1)
    if c.base in MAPS: return _lib().map_has(s, k)
    if c.base in ("Range", "RangeInclusive") or (s.op == "adt" and s.args[0].startswith("Range")):
        lo, hi = s.args[2], s.args[3]
        return And(le(lo, k), le(k, hi) if s.args[0] == "RangeInclusive" else lt(k, hi))
    if c.base in ("slice", "Vec", "SmallVec"):
        src, body = _lib().source_of(c.ev, s)
        if s.op == "cat" and all(p.op == "one" for p in s.args): return Or(*[eq(p.args[0], k) for p in s.args])
        if body.op == "one": return _lib().any_(src, eq(body.args[0], k))
    return None
@h("copy_from_slice", "clone_from_slice")
def _copyfrom(c):
    if c.a(0).op != "mref": return None
    c.ev.write_ref(c.a(0), c.v(1))
    return UNIT
@h("fill")
def _fill(c):
    s = c.v(0)
    c.ev.write_ref(c.a(0), mk("arr", c.v(1), TM.length(s)))
    return UNIT
@h(("Vec", "remove"), ("Vec", "swap_remove"), ("Vec", "insert"), ("SmallVec", "insert"), ("SmallVec", "remove"))
def _vremove(c):
    if c.m == "insert" and c.v(1) is num(0):
        c.ev.write_ref(c.a(0), seq_cat(cat(one(c.v(2))), c.v(0)))
        return UNIT
    return None
@h("swap")
def _vswap(c):
    if c.base == "mem": return _swap(c)
    s, i, j = c.v(0), c.v(1), c.v(2)
    c.ev.write_ref(c.a(0), _lib().seq_set(_lib().seq_set(s, i, index(s, j)), j, index(s, i)))
    return UNIT
@h("drain")
def _drain(c):
    s = c.v(0)
    if c.base in MAPS:
        c.ev.write_ref(c.a(0), _lib().MAPNEW)
        return s
    lo, hi = bounds(c, s, c.v(1))
    rest = seq_cat(_lib().take(s, lo), _lib().drop(s, hi)) if not (lo is num(0) and hi is TM.length(s)) else EMPTY
    c.ev.write_ref(c.a(0), rest)
    return s if rest is EMPTY else _lib().slice_(s, lo, hi)
@h("concat")
def _concat(c):
    return _lib().seq_map(c.ev, c.v(0), lambda e: _lib().to_seq(c.ev, e))
@h("split_at")
def _splitat(c):
    s = c.v(0)
    return mk("tuple", _lib().slice_(s, num(0), c.v(1)), _lib().drop(s, c.v(1)))
@h("starts_with")
def _startswith(c):
    s, p = c.v(0), c.v(1)
    return atom(mk("startswith", s, p))

# ---------------------------------------------------------------- maps
@h(("HashMap", "insert"), ("BTreeMap", "insert"), ("IndexMap", "insert"))
def _minsert(c):
    m, k = c.v(0), c.v(1)
    old = ite(_lib().map_has(m, k), some(_lib().map_get(m, k)), NONE)
    c.ev.write_ref(c.a(0), _lib().map_ins(m, k, c.ev.rv(c.a(2))))
    return old
@h(("HashSet", "insert"), ("BTreeSet", "insert"), ("IndexSet", "insert"))
def _sinsert(c):
    m, k = c.v(0), c.v(1)
    r = Not(_lib().map_has(m, k))
    c.ev.write_ref(c.a(0), _lib().map_ins(m, k, UNIT))
    return r
@h("contains_key")
def _ck(c): return _lib().map_has(c.v(0), c.v(1))
@h(("HashMap", "remove"), ("BTreeMap", "remove"), ("IndexMap", "remove"), ("HashSet", "remove"))
def _mremove(c):
    m, k = c.v(0), c.v(1)
    has = _lib().map_has(m, k)
    old = ite(has, some(_lib().map_get(m, k)), NONE) if c.base not in ("HashSet",) else has
    c.ev.write_ref(c.a(0), _lib().map_del(m, k))
    return old
@h("entry")
def _entry(c):
    r, k = c.a(0), c.v(1)
    if r.op != "mref": r = mk("mref", c.ev.tmp(r), ())
    m = c.ev.rv(r)
    has = _lib().map_has(m, k)
    return ite(has, mk("adt", "Entry", "Occupied", mk("occ", r, k)), mk("adt", "Entry", "Vacant", mk("vac", r, k)))
def _entry_parts(v):
    for _, l in leaves(v):
        o = l.args[2] if l.op == "adt" else l
        return o.args[0], o.args[1]
@h(("Entry", "or_insert"), ("Entry", "or_insert_with"), ("Entry", "or_default"), ("Entry", "or_insert_with_key"))
def _orins(c):
    r, k = _entry_parts(c.a(0))
    m = c.ev.rv(r)
    has = _lib().map_has(m, k)
    if c.m == "or_insert": d = c.ev.rv(c.a(1))
    elif c.m == "or_insert_with":
        hold = {}
        d = c.ev.branch(Not(has), lambda: c.ev.rv(c.ev.apply(c.a(1), [])), lambda: BOTTOM)
        d = drop_bottom(d)
        if d is BOTTOM: d = mk("unreached")
    else:
        t = c.rty()
        tag = None
        if t and t["k"] == "ref": tag = _ev().scalar_ty(c.ev.c, t["args"][0])
        d = default_of(c, tag)
    # the entry exists afterwards
    cur = ite(has, _lib().map_get(m, k), d)
    c.ev.write_ref(r, _lib().map_ins(m, k, cur))
    return mref(r, ("k", k, None))
@h(("Entry", "and_modify"))
def _andmod(c):
    e = c.a(0)
    r, k = _entry_parts(e)
    m = c.ev.rv(r)
    has = _lib().map_has(m, k)
    c.ev.branch(has, lambda: c.ev.apply(c.a(1), [mref(r, ("k", k, None))]), lambda: UNIT)
    return e
def _occ(c, s, m):
    r, k = s.args
    if m in ("get", "into_ref"): return _lib().map_get(c.ev.rv(r), k)
    return mref(r, ("k", k, None))
@h("into_mut")
def _intomut(c):
    v = c.a(0)
    if v.op == "mref": v = c.ev.rv(v)
    return _occ(c, v, "get_mut") if v.op == "occ" else None
@h(("OccupiedEntry", "get"), ("OccupiedEntry", "get_mut"))
def _occget(c):
    v = c.v(0)
    return _occ(c, v, c.m) if v.op == "occ" else None
@h(("VacantEntry", "insert"), ("OccupiedEntry", "insert"))
def _vacins(c):
    v = c.v(0)
    if v.op not in ("vac", "occ"): return None
    r, k = v.args
    old = _lib().map_get(c.ev.rv(r), k)
    c.ev.write_ref(r, _lib().map_ins(c.ev.rv(r), k, c.ev.rv(c.a(1))))
    return mref(r, ("k", k, None)) if v.op == "vac" else old
@h("keys", "into_keys")
def _keys(c):
    if c.base not in MAPS: return None
    t = None
    return _lib().seq_map(c.ev, c.v(0), lambda e: cat(one(field(e, "0"))))
@h("values", "into_values")
def _values(c):
    if c.base not in MAPS: return None
    return _lib().seq_map(c.ev, c.v(0), lambda e: cat(one(field(e, "1"))))
@h("iter_mut", "values_mut", "par_iter_mut")
def _itermut(c):
    if c.a(0).op != "mref": return c.a(0)
    if c.m == "values_mut": return mk("mutvals", c.a(0))
    return mk("mutiter", c.a(0))
@h(("IntoIterator", "into_iter"))
def _intoiter(c):
    a = c.a(0)
    t = c.aty(0)
    if a.op == "mref" and t and t["k"] == "ref" and t.get("mut"):
        u = c.ev.c.types[t["args"][0]]
        if u["k"] in ("slice", "array") or (u["k"] == "adt" and _ev().type_head(u["s"]) in COLL + MAPS): return mk("mutiter", a)
    return a

# ---------------------------------------------------------------- iterators
def F(c, i): return lambda *a: c.ev.rv(c.ev.apply(c.a(i), list(a)))

@h(("Iterator", "map"), ("ParallelIterator", "map"))
def _map(c):
    f = c.a(1)
    return _lib().seq_map(c.ev, c.a(0), lambda e: cat(one(c.ev.apply(f, [e]))))
@h(("Iterator", "filter"), ("ParallelIterator", "filter"))
def _filter(c):
    f = F(c, 1)
    return _lib().seq_map(c.ev, c.a(0), lambda e: ite(bool_of(f(e)), cat(one(e)), EMPTY))
@h(("Iterator", "filter_map"), ("ParallelIterator", "filter_map"))
def _filter_map(c):
    f = F(c, 1)
    t = None
    def g(e):
        o = f(e)
        return ite(is_variant(o, "Option", "Some"), cat(one(payload(o, "Some", "0", _item_tag(c)))), EMPTY)
    return _lib().seq_map(c.ev, c.a(0), g)
def _item_tag(c): return None
@h(("Iterator", "flat_map"), ("ParallelIterator", "flat_map"), ("ParallelIterator", "flat_map_iter"))
def _flat_map(c):
    f = c.a(1)
    return _lib().seq_map(c.ev, c.a(0), lambda e: _lib().to_seq(c.ev, c.ev.apply(f, [e])))
@h(("Iterator", "flatten"), ("ParallelIterator", "flatten"))
def _flatten(c): return _lib().seq_map(c.ev, c.a(0), lambda e: _lib().to_seq(c.ev, e))
@h(("Iterator", "inspect"))
def _inspect(c):
    f = c.a(1)
    def g(e):
        c.ev.apply(f, [e]); return cat(one(e))
    return _lib().seq_map(c.ev, c.a(0), g)
@h(("Iterator", "chain"), ("ParallelIterator", "chain"))
def _chain(c): return seq_cat(c.seq(0), c.seq(1))
@h(("Iterator", "enumerate"), ("IndexedParallelIterator", "enumerate"))
def _enum(c): 
    a = c.a(0)
    if a.op == "mutiter":
        return mk("mutenum", a.args[0])
    s = c.seq(0)
    return lift(lambda s: enum(c, s), ("enum", c.ev._envver()), (s,))
def enum(c, s):
    src, b = _lib().source_of(c.ev, s)
    if b.op == "one" and src.op != "until":
        return comp(src, cat(one(mk("tuple", _lib().binder(src), b.args[0]))))
    return mk("enum", s)
@h(("Iterator", "zip"), ("IndexedParallelIterator", "zip"))
def _zip(c): return lift(lambda a, b: mk("zip", a, b), "zip", (c.seq(0), c.seq(1)))
@h(("Iterator", "rev"), ("IndexedParallelIterator", "rev"))
def _rev(c):
    a = c.a(0)
    if a.op == "mutiter" and a.args[0].op == "mref":
        # exclusive access: a reversed copy, written back once it has been walked
        return mk("mutrev", a.args[0], mk("mref", c.ev.tmp(rev(_lib().to_seq(c.ev, c.ev.rv(a.args[0])))), ()))
    return rev(c.seq(0))
@h(("Iterator", "take"))
def _take(c): return _lib().take(c.seq(0), c.v(1))
@h(("Iterator", "skip"))
def _skip(c): return _lib().drop(c.seq(0), c.v(1))
@h(("Iterator", "take_while"))
def _take_while(c):
    f = F(c, 1)
    s = c.seq(0)
    def g(s):
        src, b = _lib().source_of(c.ev, s)
        out = c.ev.tmp(FALSE)
        stops = []
        def stop_of(b):
            if b is EMPTY: return FALSE
            if b.op == "one": return Not(bool_of(f(b.args[0])))
            if b.op == "ite": return ite(atom(b.args[0]), stop_of(b.args[1]), stop_of(b.args[2]))
            return None
        st = stop_of(b)
        if st is None: return mk("takewhile", s)
        if st is FALSE: return s
        return comp(mk("until", src, st), b)
    return lift(g, ("take_while", c.ev._envver()), (s,))
@h(("Iterator", "skip_while"))
def _skip_while(c):
    return mk("skipwhile", c.seq(0), c.ev.lam(c.a(1)))
@h(("Iterator", "step_by"))
def _stepby(c): return mk("stepby", c.seq(0), c.v(1))
@h(("Iterator", "collect"), ("Itertools", "collect_vec"), ("ParallelIterator", "collect"), ("FromIterator", "from_iter"))
def _collect(c):
    tag = c.tag()
    a = c.a(0)
    if tag in ("HashMap", "BTreeMap", "IndexMap"):
        out = c.ev.tmp(_lib().MAPNEW)
        def f(e):
            e = c.ev.rv(e)
            c.ev.env[out] = _lib().map_ins(c.ev.env[out], field(e, "0"), field(e, "1"))
        _lib().iterate(c.ev, a, f)
        return c.ev.env.pop(out)
    if tag in ("HashSet", "BTreeSet", "IndexSet"):
        out = c.ev.tmp(_lib().MAPNEW)
        def f(e): c.ev.env[out] = _lib().map_ins(c.ev.env[out], c.ev.rv(e), UNIT)
        _lib().iterate(c.ev, a, f)
        return c.ev.env.pop(out)
    if tag in ("Result", "Option"):
        good, bad = ("Ok", "Err") if tag == "Result" else ("Some", "None")
        s = c.seq(0)
        def g(s):
            src, b = _lib().source_of(c.ev, s)
            def isbad(b):
                if b is EMPTY: return FALSE
                if b.op == "one": return Not(is_variant(c.ev.rv(b.args[0]), tag, good))
                if b.op == "ite": return ite(atom(b.args[0]), isbad(b.args[1]), isbad(b.args[2]))
                return None
            bd = isbad(b)
            if bd is None: return typed(mk("collect", tag, s), tag)
            okseq = _lib().seq_map(c.ev, s, lambda e: cat(one(payload(c.ev.rv(e), good, "0"))))
            if bd is FALSE: return mk("adt", tag, good, okseq)
            def errv(b):
                if b.op == "one": return payload(c.ev.rv(b.args[0]), "Err", "0")
                return BOTTOM
            e = drop_bottom(_lib().map_leaves(b, lambda l: errv(l)))
            bv = err(_lib().first_(src, bd, e)) if tag == "Result" else NONE
            return ite(_lib().any_(src, bd), bv, mk("adt", tag, good, okseq))
        return lift(g, ("collect", tag, c.ev._envver()), (s,))
    return c.seq(0)
@h(("Iterator", "for_each"), ("ParallelIterator", "for_each"))
def _foreach(c):
    f = c.a(1)
    def g(e): c.ev.apply(f, [e])
    _lib().iterate(c.ev, c.a(0), g)
    return UNIT
@h(("Iterator", "fold"))
def _fold(c):
    f = c.a(2)
    k = c.ev.tmp(c.a(1))
    def g(e): c.ev.env[k] = c.ev.apply(f, [c.ev.env[k], e])
    _lib().iterate(c.ev, c.a(0), g)
    return c.ev.env.pop(k)
@h(("Iterator", "try_fold"), ("Iterator", "scan"), ("Iterator", "try_for_each"))
def _tryfold(c): return None
@h(("Iterator", "sum"), ("ParallelIterator", "sum"))
def _sum(c):
    k = c.ev.tmp(num(0))
    def g(e): c.ev.env[k] = add(c.ev.env[k], c.ev.rv(e))
    _lib().iterate(c.ev, c.a(0), g)
    return c.ev.env.pop(k)
@h(("Iterator", "any"), ("ParallelIterator", "any"))
def _any(c):
    f = F(c, 1)
    k = c.ev.tmp(FALSE)
    def g(e): c.ev.env[k] = Or(c.ev.env[k] if c.ev.env[k] in (TRUE, FALSE) else bool_of(c.ev.env[k]), bool_of(f(e)))
    _lib().iterate(c.ev, c.a(0), g)
    return bool_of(c.ev.env.pop(k))
@h(("Iterator", "all"), ("ParallelIterator", "all"))
def _all(c):
    f = F(c, 1)
    k = c.ev.tmp(TRUE)
    def g(e): c.ev.env[k] = And(c.ev.env[k] if c.ev.env[k] in (TRUE, FALSE) else bool_of(c.ev.env[k]), bool_of(f(e)))
    _lib().iterate(c.ev, c.a(0), g)
    return bool_of(c.ev.env.pop(k))
@h(("Iterator", "find"), ("Iterator", "find_map"), ("Iterator", "position"))
def _find(c):
    f = F(c, 1)
    s = c.seq(0)
    def go(s):
        src, b = _lib().source_of(c.ev, s)
        if b.op == "one" or b.op == "ite":
            def each(b):
                if b is EMPTY: return FALSE, BOTTOM
                if b.op == "one":
                    e = b.args[0]
                    r = f(e)
                    if c.m == "find_map": return is_variant(r, "Option", "Some"), payload(r, "Some", "0")
                    return bool_of(r), (_lib().binder(src) if c.m == "position" else e)
                if b.op == "ite":
                    g1, v1 = each(b.args[1]); g2, v2 = each(b.args[2])
                    a = atom(b.args[0])
                    return ite(a, g1, g2), drop_bottom(_ite2(a, v1, v2))
                return None, None
            c.ev.loops.append(src)
            try: p, v = each(b)
            finally: c.ev.loops.pop()
            if p is not None and not (c.m == "position" and b.op != "one"):
                return ite(_lib().any_(src, p), some(_lib().first_(src, p, v)), NONE)
        return mk("call", "Iterator::" + c.m, s, c.ev.lam(c.a(1)))
    return lift(go, (c.m, c.ev._envver()), (s,))
def _ite2(a, x, y):
    if x is BOTTOM: return y
    if y is BOTTOM: return x
    return ite(a, x, y)
@h(("Iterator", "max"), ("Iterator", "min"), ("ParallelIterator", "max"), ("ParallelIterator", "min"))
def _imax(c):
    q = c.seq(0)
    nm = "maxof" if c.m == "max" else "minof"
    return lift(lambda q: ite(lt(num(0), TM.length(q)), some(typed(mk(nm, q), _inner_tag(c))), NONE), (nm, _inner_tag(c)), (q,))
@h("max_by", "min_by")
def _maxby(c):
    q = c.seq(0)
    t = _inner_tag(c)
    A, B = typed(mk("cmpA", t), t), typed(mk("cmpB", t), t)
    o = c.ev.rv(c.ev.apply(c.a(1), [A, B]))
    return extremum(c, q, o, A, B, t, c.m == "max_by")
@h("max_by_key", "min_by_key")
def _maxbykey(c):
    q = c.seq(0)
    t = _inner_tag(c)
    A, B = typed(mk("cmpA", t), t), typed(mk("cmpB", t), t)
    o = user_cmp(c.ev, c.ev.rv(c.ev.apply(c.a(1), [A])), c.ev.rv(c.ev.apply(c.a(1), [B])))
    return extremum(c, q, o, A, B, t, c.m == "max_by_key")
def extremum(c, q, o, A, B, t, mx):
    if o is compare(A, B): e = typed(mk("maxof" if mx else "minof", q), t)
    elif o is compare(B, A): e = typed(mk("minof" if mx else "maxof", q), t)
    else: e = typed(mk("maxby" if mx else "minby", q, o), t)
    return ite(lt(num(0), TM.length(q)), some(e), NONE)
@h(("Iterator", "next"), ("DoubleEndedIterator", "next_back"), ("Iterator", "nth"), ("Peekable", "peek"), ("Peekable", "next_if"))
def _next(c):
    r = c.a(0)
    s = _lib().to_seq(c.ev, r)
    n = TM.length(s)
    if c.m == "peek": return ite(lt(num(0), n), some(index(s, num(0), _inner_tag(c))), NONE)
    if c.m == "next_back":
        c.ev.write_ref(r, _lib().take(s, sub(n, num(1))))
        return ite(lt(num(0), n), some(index(s, sub(n, num(1)), _inner_tag(c))), NONE)
    if c.m == "nth":
        i = c.v(1)
        c.ev.write_ref(r, _lib().drop(s, add(i, num(1))))
        return ite(lt(i, n), some(index(s, i, _inner_tag(c))), NONE)
    if c.m == "next_if": return None
    v = head(s, n, _inner_tag(c))
    c.ev.write_ref(r, _lib().drop(s, num(1)))
    return v
def head(s, n, t):
    def f(s):
        if s.op == "comp" and s.args[1].op == "ite":
            # first element of a filtered sequence
            src, b = s.args
            ls = leaves(b)
            if all(l is EMPTY or (l.op == "one") or (l.op == "cat" and len(l.args) == 1) for _, l in ls):
                p = Or(*[g for g, l in ls if l is not EMPTY])
                v = drop_bottom(_lib().map_leaves(b, lambda l: BOTTOM if l is EMPTY else l.args[0] if l.op == "one" else l.args[0].args[0]))
                return ite(_lib().any_(src, p), some(_lib().first_(src, p, v)), NONE)
        return ite(lt(num(0), TM.length(s)), some(index(s, num(0), t)), NONE)
    return lift(f, ("head", t), (s,))
@h(("Itertools", "kmerge_by"))
def _kmerge_by(c): return mk("kmerge", c.seq(0), c.ev.lam(c.a(1), 2))
@h(("Itertools", "kmerge"))
def _kmerge(c): return mk("kmerge", c.seq(0), mk("natural"))
@h(("kmerge_impl", "kmerge_by"))
def _kmf(c): return mk("kmerge", c.seq(0), c.ev.lam(c.a(1), 2))
@h(("Itertools", "unique"), ("Itertools", "unique_by"))
def _unique(c): return mk("unique", c.seq(0), c.ev.lam(c.a(1)) if len(c.argv) > 1 else mk("natural"))
@h(("Itertools", "group_by"), ("IntoChunks", "group_by"))
def _groupby(c): return runs(c.ev, c.argv[0], c.argv[1])
def runs(ev, seqv, fn):
    """maximal runs of consecutive elements with equal keys: (key, elements)"""
    L = _lib()
    pairs = L.seq_map(ev, seqv, lambda e: cat(one(mk("tuple", ev.rv(L.call1(ev, fn, e)), ev.rv(e)))))
    def f(p):
        """the elements of a run are kept as elements of the underlying source, however they were packed"""
        if p.op == "comp" and p.args[1].op == "one" and p.args[1].args[0].op == "tuple":
            src, k, e = p.args[0], *p.args[1].args[0].args
            here, hole = index(src, mk("pos", src)), mk("sym", "run-element", src)
            e1, k1 = substitute(e, {here: hole}), substitute(k, {here: hole})
            if not free(e1, mk("pos", src)) and not free(k1, mk("pos", src)):
                R = mk("runs", src, k1)
                it = index(R, mk("pos", R))
                run = field(it, 1)
                inner = comp(run, one(substitute(e1, {hole: index(run, mk("pos", run))})))
                return comp(R, one(mk("tuple", field(it, 0), inner)))
        return mk("runs", p)
    return lift(f, "runs", (pairs,))
INTRINSIC = {"common::somewhat_eager_groupby": lambda ev, argv: runs(ev, argv[0], argv[1])}
# ---------------------------------------------------------------- double-ended priority queue
def heap_len(h):
    def f(h):
        if h.op == "heapnew": return num(0)
        if h.op == "hins": return add(heap_len(h.args[0]), num(1))
        if h.op == "hset": return heap_len(h.args[0])
        if h.op == "hdel":
            n = heap_len(h.args[0])
            return ite(lt(num(0), n), sub(n, num(1)), num(0))
        return typed(mk("len", h), "usize")
    return lift(f, "heaplen", (h,))
def hget(h, end, tag=None):
    def f(h):
        if h.op == "hset" and h.args[1] == end: return h.args[2]
        return typed(mk("hget", h, end), tag)
    return lift(f, ("hget", end, tag), (h,))
def hdel(h, end):
    def f(h):
        if h.op == "hset" and h.args[1] == end: return hdel(h.args[0], end)
        return mk("hdel", h, end)
    return lift(f, ("hdel", end), (h,))
def hset(h, end, v):
    def f(h):
        if h.op == "hset" and h.args[1] == end: return hset(h.args[0], end, v)
        return mk("hset", h, end, v)
    return f(h) if h.op != "ite" else lift(lambda h, v: f(h), ("hset", end), (h, v))
TM.SMART.update({"hget": lambda h, e: hget(h, e), "hdel": hdel, "hset": hset})
HP = "MinMaxHeap"
def heap_elem(c):
    """tag of the elements of the heap argument"""
    t = c.rty()
    n = 0
    while t is not None and n < 6:
        n += 1
        if t["k"] == "adt" and _ev().type_head(t["s"]) == HP:
            return c.ev.tag({"t": t["args"][0]})
        if t["k"] not in ("ref", "adt") or not t.get("args"): return None
        nxt = c.ev.c.types[t["args"][0]]
        if t["k"] == "adt" and _ev().type_head(t["s"]) == "Option":
            while nxt["k"] == "ref": nxt = c.ev.c.types[nxt["args"][0]]
            for i, u in enumerate(c.ev.c.types):
                if u is nxt: return c.ev.tag({"t": i})
            return None
        t = nxt
    return None
@h((HP, "new"), (HP, "with_capacity"))
def _hnew(c):
    tag = heap_elem(c)
    A, B = typed(mk("cmpA", tag), tag), typed(mk("cmpB", tag), tag)
    return mk("heapnew", user_cmp(c.ev, A, B))
@h((HP, "len"))
def _hlen(c): return heap_len(c.v(0))
@h((HP, "is_empty"))
def _hempty(c): return eq(heap_len(c.v(0)), num(0))
@h((HP, "push"))
def _hpush(c):
    c.ev.write_ref(c.a(0), mk("hins", c.v(0), c.v(1)))
    return UNIT
@h((HP, "clear"))
def _hclear(c):
    h_ = c.v(0)
    c.ev.write_ref(c.a(0), mk("heapcleared", h_) if h_.op not in ("heapnew",) else h_)
    return UNIT
def _hpeek(end):
    def g(c):
        h_ = c.v(0)
        return ite(lt(num(0), heap_len(h_)), some(hget(h_, end, heap_elem(c) or _payload_tag_of(c))), NONE)
    return g
def _payload_tag_of(c):
    try: return _payload_tag(c)
    except Exception: return None
H[(HP, "peek_min")] = _hpeek("min"); H[(HP, "peek_max")] = _hpeek("max")
def _hpop(end):
    def g(c):
        h_ = c.v(0)
        some_ = lt(num(0), heap_len(h_))
        c.ev.write_ref(c.a(0), ite(some_, hdel(h_, end), h_))
        return ite(some_, some(hget(h_, end, heap_elem(c))), NONE)
    return g
H[(HP, "pop_min")] = _hpop("min"); H[(HP, "pop_max")] = _hpop("max")
def _hrepl(end):
    def g(c):
        h_, x = c.v(0), c.v(1)
        some_ = lt(num(0), heap_len(h_))
        c.ev.write_ref(c.a(0), mk("hins", ite(some_, hdel(h_, end), h_), x))
        return ite(some_, some(hget(h_, end, heap_elem(c) or x.ty)), NONE)
    return g
H[(HP, "replace_min")] = _hrepl("min"); H[(HP, "replace_max")] = _hrepl("max")
def _hpp(end):
    def g(c):
        h_, x = c.v(0), c.v(1)
        m = hget(h_, end, x.ty)
        o = user_cmp(c.ev, x, m)
        p = And(lt(num(0), heap_len(h_)), is_variant(o, "Ordering", "Greater" if end == "min" else "Less"))
        c.ev.write_ref(c.a(0), ite(p, mk("hins", hdel(h_, end), x), h_))
        return ite(p, m, x)
    return g
H[(HP, "push_pop_min")] = _hpp("min"); H[(HP, "push_pop_max")] = _hpp("max")
def _hpm(end):
    def g(c):
        h_, r = c.v(0), c.a(0)
        if r.op != "mref": return None
        return ite(lt(num(0), heap_len(h_)), some(mref(r, ("h", end, heap_elem(c)))), NONE)
    return g
H[(HP, "peek_max_mut")] = _hpm("max"); H[(HP, "peek_min_mut")] = _hpm("min")
@h(("PeekMaxMut", "pop"), ("PeekMinMut", "pop"))
def _hmpop(c):
    r = c.a(0)
    while r.op == "mref" and not (r.args[1] and r.args[1][-1][0] == "h"):
        r = c.ev.read(r.args[0], r.args[1])
    if r.op != "mref": return None
    end = r.args[1][-1][1]
    hp = mk("mref", r.args[0], r.args[1][:-1])
    v = c.ev.rv(r)
    c.ev.write_ref(hp, hdel(c.ev.rv(hp), end))
    return v
for _m, _d in (("into_vec_asc", "asc"), ("into_vec_desc", "desc"), ("drain_asc", "asc"), ("drain_desc", "desc"), ("into_vec", ""), ("iter", ""), ("drain", "")):
    def _mk(d, m):
        def g(c):
            h_ = c.v(0)
            if m.startswith("drain"): c.ev.write_ref(c.a(0), mk("heapcleared", h_))
            return mk("hseq", h_, d)
        return g
    H[(HP, _m)] = _mk(_d, _m)
@h(("DB", "put"), ("WriteBatch", "put"))
def _put(c):
    """what a database write stores is an event; whether it succeeds is up to the database"""
    ev = c.ev
    k, v = ev.rv(c.argv[1]), ev.rv(c.argv[2])
    ev.env[("io",)] = seq_cat(ev.env.get(("io",), EMPTY), cat(one(mk("tuple", k, v))))
    return typed(mk("call", "DB::put", k, v), c.tag())
@h("from_fn")
def _from_fn(c):
    """iterator driven by a closure over its own state"""
    ev = c.ev
    fv = c.a(0)
    if fv.op != "closure": return None
    env0, g0 = dict(ev.env), ev.g
    # which captured variables does it change?
    lvl = len(ev.loops)
    changed = {}
    for rnd in range(6):
        env = dict(env0)
        accs = {}
        for i, k in enumerate(sorted(changed, key=str)):
            a = mk("acc", "gen%d" % lvl, i, _lib().acc_ty(env0[k]))
            typed(a, _lib().acc_ty(env0[k]))
            accs[k] = a; env[k] = a
        ev.env, ev.g = env, TRUE
        ev.loops.append(mk("gen"))
        r = ev.rv(ev.apply(fv, []))
        ev.loops.pop()
        end = ev.env
        new = [k for k in env0 if end.get(k) is not env.get(k) and k not in changed]
        if not new: break
        for k in new: changed[k] = 1
    ks = sorted(changed, key=str)
    steps = {k: end[k] for k in ks}
    ev.env, ev.g = env0, g0
    return unfold(ev, [env0[k] for k in ks], [accs[k] for k in ks], [steps[k] for k in ks], r)
def unfold(ev, inits, accs, steps, r):
    L = _lib()
    # closed forms relative to the number of items produced so far, when the state is only relevant while producing
    nat = mk("nat")
    b = mk("pos", nat)
    g = is_variant(r, "Option", "Some")
    v = payload(r, "Some", "0")
    sub_ = {}
    stp = [L.restrict_val(s, g) for s in steps]
    progress = True
    open_ = set(range(len(accs)))
    while progress:
        progress = False
        for i in sorted(open_):
            s = substitute(stp[i], sub_) if sub_ else stp[i]
            rest = {accs[j] for j in open_}
            cform = None
            if s is accs[i]: cform = inits[i]
            elif numeric(accs[i]):
                d = sub(s, accs[i])
                if d.op != "ite" and not L.occurs_any(d, rest) and not free(d, b): cform = add(inits[i], mul(d, b))
            if cform is not None:
                sub_[accs[i]] = cform; open_.discard(i); progress = True
    g2, v2 = substitute(g, sub_), substitute(v, sub_)
    rest = {accs[j] for j in open_}
    if not open_ or not (L.occurs_any(g2, rest) or L.occurs_any(v2, rest)):
        bn = L.bound_nat(Not(g2), b)
        if bn:
            n, A = bn
            src = n.args[0] if n.op == "len" else mk("range", num(0), n)
            nb = L.binder(src)
            g3 = restrict(substitute(g2, {b: nb}), substitute(A, {b: nb}))
            v3 = substitute(v2, {b: nb})
            s = src if g3 is TRUE else mk("until", src, Not(g3))
            return comp(s, cat(one(v3)))
    # state relevant to the items
    order = [i for i in range(len(accs)) if True]
    live = [i for i in sorted(open_)]
    if g2 is not TRUE and live and not L.occurs_any(g2, rest):
        bn = L.bound_nat(Not(g2), b)
        if bn:
            n, A = bn
            src = n.args[0] if n.op == "len" else mk("range", num(0), n)
            ren = {b: L.binder(src)}
            R = lambda t: substitute(substitute(t, sub_), ren)
            return L.scan(src, [accs[i] for i in live], [inits[i] for i in live], [R(stp[i]) for i in live], cat(one(R(v2))))
    order = sorted(range(len(accs)), key=lambda i: show(inits[i], 4))
    ren = {accs[i]: typed(mk("acc", "gen", q, accs[i].args[2]), accs[i].ty) for q, i in enumerate(order)}
    return mk("unfold", tuple(inits[i] for i in order), tuple(substitute(steps[i], ren) for i in order), substitute(r, ren))
@h(("iter", "once"), "once")
def _once(c): return cat(one(c.v(0)))
@h(("iter", "empty"))
def _emptyit(c): return EMPTY
@h(("iter", "repeat"))
def _repeatit(c): return mk("repeat", c.v(0))

# vec![..]
@h("write_box_via_move")
def _wbvm(c): return c.v(1)
@h("box_assume_init_into_vec_unsafe")
def _baiv(c): return c.v(0)
# rocksdb: of the options only whether a missing database is created can be observed; the others tune
@h(("Options", "create_if_missing"))
def _create(c):
    if c.a(0).op != "mref": return None
    c.ev.write_ref(c.a(0), mk("adt", "Options", "Options", bool_of(c.v(1))))
    return UNIT
@h(("Options", "set_read_only"), ("Options", "set_allow_mmap_reads"), ("Options", "set_disable_auto_compactions"), ("Options", "set_allow_mmap_writes"), ("Options", "increase_parallelism"), ("Options", "set_max_open_files"))
def _tune(c): return UNIT
@h(("DB", "open"), ("DB", "open_default"), ("DB", "open_for_read_only"))
def _dbopen(c):
    o = c.v(0)
    made = o.args[2] if o.op == "adt" else FALSE if o.op in ("default", "call") else o
    if c.m == "open_default": return typed(mk("call", "DB::open", c.v(0), TRUE), c.tag())
    if c.m == "open_for_read_only": made = FALSE
    return typed(mk("call", "DB::open", c.v(1), made), c.tag())
