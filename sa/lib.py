"""Library models and loop summaries for the abstract evaluator."""
import hashlib
from .terms import *
from . import terms as TM
from fractions import Fraction

A_, B_ = None, None

def wrap(v, ty):
    """value of `v as ty` for integers"""
    def f(v):
        lo, hi = INT_RANGE[ty]
        a, b = rng(v)
        if a >= lo and b <= hi: return v
        if ty[0] == "u" and a >= 0: return imod(v, num(hi + 1))
        if ty[0] == "u" and a >= -(hi + 1) and b <= hi: return ite(le(num(0), v), v, add(v, num(hi + 1)))
        if is_num(v):
            n = int(v.args[0]) % (hi - lo + 1)
            return num(n if n <= hi else n - (hi - lo + 1))
        return typed(mk("wrap", v, ty), ty)
    return lift(f, ("wrap", ty), (v,))

def bytestr(s):
    if isinstance(s, list): return cat(*[one(num(b)) for b in s])
    return mk("str", s)

# ---------------------------------------------------------------- sequences
def slice_(s, lo, hi=None):
    """s[lo..hi]"""
    def f(s, lo, hi):
        if hi is None: return drop(s, lo)
        if lo is hi: return EMPTY
        if lo is num(0):
            if length(s) is hi: return s
            if s.op == "overlay" and s.args[1] is num(0) and length(s.args[2]) is hi: return s.args[2]
        if s.op == "drop": return slice_(s.args[0], add(s.args[1], lo), add(s.args[1], hi))
        if hi is length(s): return drop(s, lo)
        if s.op == "slice": return slice_(s.args[0], add(s.args[1], lo), add(s.args[1], hi))
        if s.op == "cat":
            r = cut(s, lo, hi)
            if r is not None: return r
        return mk("slice", s, lo, hi)
    return lift(f, "slice", (s, lo, hi)) if hi is not None else lift(lambda s, lo: f(s, lo, None), "slice2", (s, lo))

def cut(s, lo, hi):
    """slice of a concatenation at part boundaries"""
    pos, out, i = num(0), [], 0
    parts = list(s.args)
    while i < len(parts) and pos is not lo:
        p = parts[i]
        n = num(1) if p.op == "one" else length(p)
        nxt = add(pos, n)
        # lo strictly inside this part?
        if is_num(pos) and is_num(lo) and is_num(n) and pos.args[0] < lo.args[0] < pos.args[0] + n.args[0]: return None
        pos = nxt; i += 1
    if pos is not lo: return None
    while i < len(parts) and pos is not hi:
        p = parts[i]
        n = num(1) if p.op == "one" else length(p)
        d = sub(hi, add(pos, n))
        if is_num(d) and d.args[0] < 0:
            out.append(slice_(p, num(0), sub(hi, pos)))
            return cat(*out)
        out.append(p); pos = add(pos, n); i += 1
    if pos is not hi: return None
    return cat(*out)

def take(s, n):
    def f(s, n):
        if length(s) is n: return s
        if s.op == "overlay" and s.args[1] is num(0) and length(s.args[2]) is n: return s.args[2]
        if s.op == "take": return take(s.args[0], tmin(s.args[1], n))
        if s.op == "cat":
            r = cut(s, num(0), n)
            if r is not None: return r
        if is_num(n) and n.args[0] == 0: return EMPTY
        return mk("take", s, n)
    return lift(f, "take", (s, n))

def drop(s, n):
    def f(s, n):
        if n is num(0): return s
        if s.op == "drop": return drop(s.args[0], add(s.args[1], n))
        if s.op == "slice": return slice_(s.args[0], add(s.args[1], n), s.args[2])
        if s.op == "take": return slice_(s.args[0], n, s.args[1])
        if s.op == "cat":
            r = cut(s, n, length(s))
            if r is not None: return r
        if s.op == "range": return mk_range(add(s.args[0], n), s.args[1])
        return mk("drop", s, n)
    return lift(f, "drop", (s, n))

def overlay(s, at, new):
    """s with new written at offset `at`"""
    def f(s, at, new):
        if at is num(0) and length(s) is length(new): return new
        return mk("overlay", s, at, new)
    return lift(f, "overlay", (s, at, new))

def mk_range(a, b):
    return lift(lambda a, b: mk("range", a, b), "range", (a, b))

def seq_set(s, i, v):
    def f(s, i, v):
        if s.op == "cat" and is_num(i) and all(p.op == "one" for p in s.args) and 0 <= i.args[0] < len(s.args):
            a = list(s.args); a[int(i.args[0])] = one(v)
            return cat(*a)
        if v.op == "index" and v.args[0] is s and v.args[1] is i: return s
        if s.op == "seqset" and s.args[1] is i: return seq_set(s.args[0], i, v)
        if s.op == "arr" and is_num(s.args[1]) and s.args[1].args[0] <= 16 and is_num(i):
            return seq_set(cat(*[one(s.args[0])] * int(s.args[1].args[0])), i, v)
        return mk("seqset", s, i, v)
    return lift(f, "seqset", (s, i, v))
TM.SMART.update({"drop": drop, "take": take, "seqset": seq_set, "overlay": overlay})

_old_len = TM.length
def length(s):
    def f(s):
        if s.op == "drop": return sub(length(s.args[0]), s.args[1])
        if s.op == "take":
            n = length(s.args[0])
            if s.args[0].op in ("bytes", "overlay", "arr", "varint"): return s.args[1]
            return tmin(s.args[1], n)
        if s.op == "comp" and seq_unit_len(s.args[1]) is None: return sum_(s.args[0], body_len(s.args[1]))
        if s.op == "cat":
            r = num(0)
            for p in s.args: r = add(r, num(1) if p.op == "one" else length(p))
            return r
        if s.op == "until": return typed(mk("len", s), "usize")
        if s.op == "alt": return length(s.args[0])
        return _old_len(s)
    return lift(f, "len2", (s,))
TM.length = length

def body_len(b):
    def f(b):
        if b is EMPTY: return num(0)
        if b.op == "one": return num(1)
        return length(b)
    return lift(f, "body_len", (b,))

def sum_(src, e):
    if e is num(0): return num(0)
    if e.op == "num": return mul(e, length(src))
    return mk("sum", src, e)
TM.NUMERIC_OPS.update({"sum", "maxof", "minof"})

# maps ----------------------------------------------------------
def map_has(m, k):
    def f(m, k):
        if m.op == "ins":
            c = eq(m.args[1], k)
            return Or(c, map_has(m.args[0], k))
        if m.op == "mapnew": return FALSE
        if m.op == "mapdel": return And(Not(eq(m.args[1], k)), map_has(m.args[0], k))
        return atom(mk("has", m, k))
    return lift(f, "has", (m, k))

def map_get(m, k, ty=None):
    def f(m, k):
        if m.op == "ins":
            c = eq(m.args[1], k)
            if c is TRUE: return m.args[2]
            if c is FALSE: return map_get(m.args[0], k, ty)
            return ite(c, m.args[2], map_get(m.args[0], k, ty))
        return typed(mk("mget", m, k), ty)
    return lift(f, ("mget", ty), (m, k))

def map_read(m, k, default):
    if default is None: return map_get(m, k)
    return ite(map_has(m, k), map_get(m, k), default)

def map_ins(m, k, v):
    def f(m, k, v):
        if m.op in ("ins", "mapdel") and m.args[1] is k: return map_ins(m.args[0], k, v)
        if v.op == "mget" and v.args[0] is m and v.args[1] is k: return m
        return mk("ins", m, k, v)
    return lift(f, "ins", (m, k, v))
def map_del(m, k):
    def f(m, k):
        if m.op == "mapnew": return m
        if m.op in ("ins", "mapdel") and m.args[1] is k: return map_del(m.args[0], k)
        return mk("mapdel", m, k)
    return lift(f, "mapdel", (m, k))
TM.SMART.update({"ins": map_ins, "mget": map_get, "mapdel": map_del})

MAPNEW = mk("mapnew")

# ---------------------------------------------------------------- iteration
def any_(src, p):
    if p is FALSE: return FALSE
    if p is TRUE: return lt(num(0), length(src))
    return atom(mk("any", src, p))

def first_(src, p, v):
    """value of v at the first element of src satisfying p"""
    if v.op == "num" or v in (TRUE, FALSE, UNIT, NONE): return v
    b = binder(src)
    if not free(v, b): return v
    if v.op in ("adt", "tuple"):
        return mk(v.op, *[first_(src, p, a) if isinstance(a, T) else a for a in v.args])
    return typed(mk("first", src, p, v), v.ty)

def binder(src):
    while src.op == "until": src = src.args[0]
    return mk("pos", src)

def binder_src(src):
    while src.op == "until": src = src.args[0]
    return src

def to_seq(ev, v):
    v0 = v
    if v.op == "mref":
        r = ev.rv(v)
        return to_seq(ev, r)
    if v.op == "adt" and v.args[0] in ("Range", "RangeInclusive", "RangeFrom"):
        return range_seq(v)
    if v.op == "adt" and v.args[0] == "Option":
        return cat(one(v.args[2])) if v.args[1] == "Some" else EMPTY
    if v.op == "ite": return lift(lambda x: to_seq(ev, x), ("to_seq", ev._envver()), (v,))
    return v

def range_seq(v):
    name, a = v.args[0], v.args[2:]
    if name == "Range": return mk_range(a[0], a[1])
    if name == "RangeInclusive": return mk_range(a[0], add(a[1], num(1)))
    if name == "RangeFrom": return mk("natfrom", a[0])
    return v

def range_adt(name, vals):
    if name == "Range": return mk("adt", name, name, vals["start"], vals["end"])
    if name == "RangeInclusive": return mk("adt", name, name, vals["start"], vals["end"])
    if name == "RangeFrom": return mk("adt", name, name, vals["start"])
    if name == "RangeTo": return mk("adt", name, name, vals["end"])
    if name == "RangeToInclusive": return mk("adt", name, name, vals["end"])
    return mk("adt", name, name, *vals.values())

NAT = mk("nat")

def iterate(ev, seqv, f, lbl=None):
    """run f on the generic element of a sequence value; summarises effects"""
    mut = None
    if seqv.op == "mref":
        cur = ev.rv(seqv)
        if cur.op in ("mutiter", "mutrev"): seqv = cur
    if seqv.op == "mutrev":
        from .ev import Unsupported
        rets = [len(fr.rets) for fr in ev.frames]
        iterate(ev, mk("mutiter", seqv.args[1]), f, lbl)
        if rets != [len(fr.rets) for fr in ev.frames]: raise Unsupported("return out of a reversed walk")
        if not ev.dead(): ev.write_ref(seqv.args[0], _models.rev(ev.rv(seqv.args[1])))
        return
    if seqv.op in ("mutiter", "mutenum", "mutvals"): mut = seqv.args[0]
    if mut is not None and mut.op == "mref":
        cur = to_seq(ev, ev.rv(mut))
        if cur.op == "ite":
            pass
        else:
            src = cur
            el = mk("mref", mut.args[0], mut.args[1] + (("i", binder(src), None),))
            if seqv.op == "mutenum": el = mk("tuple", binder(src), el)
            if seqv.op == "mutvals": el = mk("mref", mut.args[0], mut.args[1] + (("i", binder(src), None), ("f", "1", None)))
            loop_over(ev, src, lambda: f(el), lbl)
            return
    seq = to_seq(ev, seqv)
    if seq.op == "ite":
        a = seq.args[0]
        ev.branch(atom(a), lambda: (iterate(ev, seq.args[1], f, lbl), UNIT)[1], lambda: (iterate(ev, seq.args[2], f, lbl), UNIT)[1])
        return
    if seq is EMPTY: return
    if seq.op == "cat" and all(p.op == "one" for p in seq.args) and len(seq.args) <= 8 and lbl is None:
        for p in seq.args:
            if ev.dead(): return
            f(p.args[0])
        return
    src, body = source_of(ev, seq)
    loop_over(ev, src, lambda: run_body(ev, body, f), lbl)

def is_iter_value(v):
    return False

def source_of(ev, seq):
    """(source, element sequence over pos(source)); a source being iterated already goes by another name, its position being taken"""
    src, body = source_of0(ev, seq)
    base = binder_src(src)
    if any(binder_src(l) is base for l in ev.loops if l.op != "gen"):
        k, root = 1, base.args[0] if base.op == "alt" else base
        act = {binder_src(l) for l in ev.loops if l.op != "gen"}
        while mk("alt", root, num(k)) in act: k += 1
        other = mk("alt", root, num(k))
        m = {mk("pos", base): mk("pos", other)}
        def un(s): return mk("until", un(s.args[0]), substitute(s.args[1], m)) if s.op == "until" else other
        return un(src), substitute(body, m)
    return src, body

def source_of0(ev, seq):
    if seq.op == "comp":
        src, body = seq.args
        return src, body
    if seq.op == "until":
        b = binder_src(seq)
        return seq, one(index(b, binder(seq)))
    if seq.op == "range":
        a, b = seq.args
        n = sub(b, a)
        src = n.args[0] if n.op == "len" else (mk("range", num(0), n) if a is not num(0) else seq)
        if src.op == "range" and is_num(n): pass
        return src, one(add(a, binder(src)))
    if seq.op == "natfrom":
        return NAT, one(add(seq.args[0], mk("pos", NAT)))
    if seq.op == "enum":
        s, b = source_of(ev, seq.args[0])
        n = unit(b)
        if n is not None: return s, one(mk("tuple", binder(s), n))
        return seq, one(mk("tuple", mk("pos", seq), index(seq.args[0], mk("pos", seq))))
    if seq.op == "zip":
        s0, b0 = source_of(ev, seq.args[0])
        n0 = unit(b0)
        return seq, one(mk("tuple", *[index(x, mk("pos", seq)) for x in seq.args]))
    if seq.op == "take" and seq.args[0].op == "natfrom":
        src = mk("range", num(0), seq.args[1])
        return src, one(add(seq.args[0].args[0], binder(src)))
    return seq, one(index(seq, mk("pos", seq)))

def unit(b):
    return b.args[0] if b.op == "one" else None

def run_body(ev, body, f):
    if ev.dead() or body is EMPTY: return
    if body.op == "one": f(body.args[0]); return
    if body.op == "cat":
        for p in body.args:
            if ev.dead(): return
            run_body(ev, p, f)
        return
    if body.op == "ite":
        a = atom(body.args[0])
        def b1():
            run_body(ev, body.args[1], f); return UNIT
        def b2():
            run_body(ev, body.args[2], f); return UNIT
        ev.branch(a, b1, b2)
        return
    iterate(ev, body, f)

class Leaf:
    __slots__ = ("key", "path", "init", "acc", "step", "final", "closed", "brk")

def explode(v, ty_hint=None):
    """field decomposition of a carried value: list of (path, leaf value)"""
    if v.op == "tuple" and v.args:
        return [((i,) + p, l) for i, a in enumerate(v.args) for p, l in explode(a)]
    if v.op == "adt" and is_struct(v) and len(v.args) > 2:
        return [((i,) + p, l) for i, a in enumerate(v.args[2:]) for p, l in explode(a)]
    d = ADTS.get(v.ty) if v.ty else None
    if d and d["kind"] == "struct" and v.op in ("sym", "field", "index", "payload", "acc") and d["variants"][0][1]:
        vn, fs, tys = d["variants"][0]
        if len(fs) <= 12:
            return [((i,) + p, l) for i, (f, t) in enumerate(zip(fs, tys)) for p, l in explode(field(v, f, t))]
    return [((), v)]

def shape(v):
    if v.op == "tuple" and v.args: return ("tuple", [shape(a) for a in v.args])
    if v.op == "adt" and is_struct(v) and len(v.args) > 2: return ("adt", v.args[0], v.args[1], [shape(a) for a in v.args[2:]])
    d = ADTS.get(v.ty) if v.ty else None
    if d and d["kind"] == "struct" and v.op in ("sym", "field", "index", "payload", "acc") and d["variants"][0][1] and len(d["variants"][0][1]) <= 12:
        vn, fs, tys = d["variants"][0]
        return ("adt", v.ty, vn, [shape(field(v, f, t)) for f, t in zip(fs, tys)])
    return None

def assemble(sh, it):
    if sh is None: return next(it)
    if sh[0] == "tuple": return mk("tuple", *[assemble(s, it) for s in sh[1]])
    return adt(sh[1], sh[2], *[assemble(s, it) for s in sh[3]])

def disassemble(sh, v):
    if sh is None: return [v]
    if sh[0] == "tuple":
        return [l for i, s in enumerate(sh[1]) for l in disassemble(s, field(v, str(i)))]
    d = ADTS[sh[1]]["variants"][0]
    return [l for n, t, s in zip(d[1], d[2], sh[3]) for l in disassemble(s, field(v, n, t))]

def leaf_tys(sh, ty=None):
    """declared types of the leaves where a literal start value does not tell (0. is a number like 0)"""
    if sh is None: return [ty if ty in ("f64", "f32") else None]
    if sh[0] == "tuple": return [t for s in sh[1] for t in leaf_tys(s)]
    return [x for t, s in zip(ADTS[sh[1]]["variants"][0][2], sh[3]) for x in leaf_tys(s, t)]

def loop_over(ev, src, run, lbl=None):
    env0, g0 = ev.env, ev.g
    fr = ev.frames[-1]
    lvl = len(ev.loops)
    ev.loops.append(src)
    changed = {}
    nret = len(fr.rets)
    if lbl is not None:
        fr.targets.setdefault(lbl, [])
        fr.targets.setdefault(("c", lbl), [])
    try:
        for rnd in range(8):
            env = dict(env0)
            leavs = []
            for k in sorted(changed, key=str):
                v0 = env0[k]
                sh = changed[k]
                ls = disassemble(sh, v0)
                tys = leaf_tys(sh, ev.floats.get(k))
                accs = []
                for n, l in enumerate(ls):
                    ty = tys[n] or acc_ty(l)
                    a = mk("acc", lvl, "%s.%d" % (k, n), ty)
                    typed(a, ty)
                    ACCNAME[a] = "%s.%d" % (ev.names.get(k, ""), n)
                    lf = Leaf(); lf.key, lf.path, lf.init, lf.acc = k, n, l, a
                    lf.closed = None
                    leavs.append(lf); accs.append(a)
                env[k] = assemble(sh, iter(accs))
            start = dict(env)
            ev.env, ev.g = env, TRUE
            wished, ev.wishes = ev.wishes, []
            if lbl is not None:
                fr.targets[lbl].append([]); fr.targets[("c", lbl)].append([])
            outer_rets = fr.rets
            fr.rets = []
            try:
                run()
            finally:
                rets, fr.rets = fr.rets, outer_rets
                wishes, ev.wishes = ev.wishes, wished
                if lbl is not None:
                    brks = fr.targets[lbl].pop(); conts = fr.targets[("c", lbl)].pop()
                else: brks, conts = [], []
            from .ev import State
            normal = [(State(ev.env, ev.g), UNIT)] + conts
            alls = [s for s, _ in normal + brks + rets if s.g is not FALSE]
            new = {}
            for s in alls:
                for k, v0 in start.items():
                    v1 = s.env.get(k)
                    if v1 is not None and v1 is not v0 and k not in changed and k in env0:
                        new[k] = shape(env0[k])
            if not new: break
            changed.update(new)
        # join the normal exits of one iteration
        alive = [n for n in normal if n[0].g is not FALSE]
        if alive:
            ev.join_many(alive)
            nenv = ev.env
        else: nenv = None
        finish_loop(ev, src, env0, g0, leavs, changed, nenv, brks, rets, fr, lvl, And(Or(*[s.g for s in alls]), *wishes))
    finally:
        ev.loops.pop()

def acc_ty(l):
    if l.ty: return l.ty
    if l.op == "ite":
        ts = {acc_ty(x) for x in (l.args[1], l.args[2])}
        if len(ts) == 1: return ts.pop()
        if ts <= {"u8", "u16", "u32", "usize"}: return "usize"
        return None
    if l.op == "num": return "usize" if l.args[0].denominator == 1 and l.args[0] >= 0 else "f64"
    if numeric(l): return "usize" if is_int(l) else "f64"
    return None

def occurs_any(t, accs):
    if not accs: return False
    st, seen = [t], set()
    ks = {a._mask for a in accs}
    one = 0
    for k in ks: one |= k
    if 0 in ks: one = -1
    while st:
        x = st.pop()
        if one != -1 and not x._mask & one or x in seen: continue
        seen.add(x)
        if x in accs: return True
        for a in x.args:
            if isinstance(a, T): st.append(a)
            elif isinstance(a, tuple): TM._push(a, st)
    return False

ALIVE = set()       # over the state of some loop: its body does not panic
_alive = [None]
def note_alive(ren):
    if _alive[0] is not None: ALIVE.add(substitute(_alive[0], ren))

def finish_loop(ev, src, env0, g0, leavs, changed, nenv, brks, rets, fr, lvl, alive):
    b = binder(src)
    # per-leaf step values
    for k, sh in changed.items():
        mine = [l for l in leavs if l.key == k]
        if nenv is not None and k in nenv:
            for l, s in zip(mine, disassemble(sh, nenv[k])): l.step = s
        else:
            for l in mine: l.step = l.acc
    brks = [(s, v) for s, v in brks if s.g is not FALSE]
    rets = merge_exits(ev, [(s, v) for s, v in rets if s.g is not FALSE])
    brks = merge_exits(ev, brks)
    for l in leavs:
        l.brk = []
        for s, v in brks + rets:
            vals = disassemble(changed[l.key], s.env.get(l.key, env0[l.key]))
            l.brk.append(vals[l.path])
    # closed forms for counters and consumed iterators
    sub_ = {}
    progress = True
    while progress:
        progress = False
        for l in leavs:
            if l.closed is not None: continue
            st = substitute(l.step, sub_) if sub_ else l.step
            accs = {m.acc for m in leavs if m.closed is None}
            c = None
            if st is l.acc: c = l.init
            else:
                if numeric(l.acc):
                    d = sub(st, l.acc)
                    if d.op != "ite" and not occurs_any(d, accs) and not free(d, b): c = add(l.init, mul(d, b))
                if c is None and st.op == "drop" and st.args[0] is l.acc and not occurs_any(st.args[1], accs) and not free(st.args[1], b):
                    c = drop(l.init, mul(st.args[1], b))
            if c is not None:
                l.closed = c
                sub_[l.acc] = c
                progress = True
    S = (lambda t: substitute(t, sub_)) if sub_ else (lambda t: t)
    accs = {l.acc for l in leavs if l.closed is None}
    alive = S(alive)
    _alive[0] = alive if alive is not TRUE and occurs_any(alive, accs) else None
    for l in leavs:
        l.step = S(l.step)
        l.brk = [S(x) for x in l.brk]
    bguards = [S(s.g) for s, _ in brks]
    rguards = [S(s.g) for s, _ in rets]
    rvals = [S(ev_rv_in(ev, v, s)) for s, v in rets]
    bstop = Or(*bguards) if bguards else FALSE
    ren = {}
    if src is NAT:
        # while-loop: find the test that bounds the counter
        r = bound_nat(bstop, b)
        if r is not None:
            n, A = r
            src = n.args[0] if n.op == "len" else mk("range", num(0), n)
            nb = binder(src)
            ren = {b: nb}
            R = lambda t: substitute(t, ren)
            A2 = R(A)
            keep = []
            nb_, ng_ = [], []
            for i, g in enumerate(bguards):
                g2 = restrict(R(g), A2)      # inside the range
                if g2 is FALSE:
                    for l in leavs: l.brk[i] = None
                ng_.append(g2)
            rguards = [restrict(R(g), A2) for g in rguards]
            rvals = [R(v) for v in rvals]
            # the loop ends at the top-of-body test: state at that point is the iteration-entry state
            for l in leavs:
                l.step = restrict_val(R(l.step), A2)
                l.brk = [R(x) if x is not None else None for x in l.brk]
                if l.closed is not None: l.closed = R(l.closed)
            bguards = ng_
            bstop = Or(*bguards)
            b = nb
            idx = [i for i, g in enumerate(bguards) if g is not FALSE]
            for l in leavs: l.brk = [l.brk[i] for i in idx] + l.brk[len(bguards):]
            bguards = [bguards[i] for i in idx]
    stop = bstop
    whole = src
    rstop = Or(*rguards) if rguards else FALSE
    def hasacc(t): return occurs_any(t, accs)
    if hasacc(stop) or hasacc(rstop):
        return generic_loop(ev, src, env0, g0, leavs, changed, bguards, rguards, rets, rvals, fr, lvl, accs)
    run_src = mk("until", src, stop) if stop is not FALSE else src
    # finals over the completed iterations
    finals = {}
    for l in leavs:
        if l.closed is not None:
            n = length(run_src)
            finals[l.acc] = l.final = substitute(l.closed, {b: n}) if free(l.closed, b) else l.closed
    openl = [l for l in leavs if l.closed is None]
    for l in openl:
        r = classify(run_src, b, l, accs, lvl)
        if r is not None: l.final = r
        else: l.final = None
    todo = [l for l in openl if l.final is None]
    if todo:
        fold_group(run_src, todo, openl, lvl)
    for l in openl: finals[l.acc] = l.final
    # breaks that change something
    def at_exit(val, guard, E):
        v = substitute(val, finals) if occurs_any(val, accs) else val
        return first_(src, E, v)
    nb_ = len(bguards)
    exits = Or(stop, rstop)
    newvals = {}
    for l in leavs:
        f = l.final
        for i in range(nb_):
            v = l.brk[i]
            if v is None or v is l.acc or (l.closed is not None and v is l.closed): 
                continue
            if l.closed is not None:
                # counter value at the break
                vv = first_(src, exits, v)
            else: vv = at_exit(v, bguards[i], exits)
            c = any_(src, bguards[i]) if nb_ == 1 and rstop is FALSE else And(any_(src, stop), first_guard(src, exits, bguards[i]))
            f = ite(c, vv, f)
        if l.closed is not None and nb_ and any(l.brk[i] is l.closed for i in range(nb_)):
            pass
        newvals[l.acc] = f
    def assembled(vals):
        env = dict(env0)
        for k, sh in changed.items():
            env[k] = assemble(sh, iter([vals[l.acc] for l in leavs if l.key == k]))
        return env
    from .ev import State
    g = g0
    for i, (s, _) in enumerate(rets):
        rg = rguards[i]
        if rg is FALSE: continue
        c = any_(src, rg) if nb_ == 0 and len(rets) == 1 else And(any_(src, exits), first_guard(src, exits, rg))
        vals = {}
        for l in leavs:
            v = l.brk[nb_ + i]
            if l.closed is not None: vals[l.acc] = first_(src, exits, v)
            else:
                v = substitute(v, finals_until(src, exits, b, openl, accs, lvl)) if occurs_any(v, accs) else v
                vals[l.acc] = first_(src, exits, v)
        fr.rets.append((State(assembled(vals), And(g0, c)), first_(src, exits, rvals[i])))
        g = And(g, Not(c))
    ev.env = assembled(newvals)
    ev.g = g
    if whole is NAT and stop is FALSE and not brks: ev.g = FALSE

def merge_exits(ev, outs):
    """one exit per kind, however many statements take it"""
    if len(outs) < 2: return outs
    from .ev import State
    e0, g0 = ev.env, ev.g
    outs = [(s, ev_rv_in(ev, v, s)) for s, v in outs]
    v = ev.join_many(outs)
    r = [(State(ev.env, ev.g), v)]
    ev.env, ev.g = e0, g0
    return r

def ev_rv_in(ev, v, s):
    if v.op == "mref" or (v.op == "ite"):
        e0, g0 = ev.env, ev.g
        ev.env, ev.g = s.env, s.g
        try: return ev.rv(v)
        finally: ev.env, ev.g = e0, g0
    return v

def restrict_val(t, care):
    try: return restrict(t, care)
    except Exception: return t

def finals_until(src, stop, b, openl, accs, lvl):
    s = mk("until", src, stop)
    out = {}
    todo = []
    saved = [(l, l.final) for l in openl]
    for l in openl:
        l.final = classify(s, b, l, accs, lvl)
        if l.final is None: todo.append(l)
    if todo: fold_group(s, todo, openl, lvl)
    for l in openl: out[l.acc] = l.final
    for l, f in saved: l.final = f
    return out

def first_guard(src, stop, g):
    if g is stop: return TRUE
    return atom(mk("firstis", src, stop, g))

def bound_nat(stop, b):
    """(n, test) when `stop` holds as soon as pos >= n; test = (pos < n)"""
    seen = set()
    st = [stop]
    cands = []
    while st:
        x = st.pop()
        if x in seen or x.op != "ite": continue
        seen.add(x)
        a = x.args[0]
        if a.op == "le": cands.append(a)
        st += [x.args[1], x.args[2]]
    for a in cands:
        h, c = a.args
        d = to_poly(h)
        k = d.get(((b, 1),))
        if k is None: continue
        if any(m != ((b, 1),) and any(v is b or free(v, b) for v, e in m) for m in d): continue
        rest = from_poly({m: v for m, v in d.items() if m != ((b, 1),)})
        if k == 1:
            A = atom(a)                      # pos + rest <= c  <=> pos < c - rest + 1
            if restrict(stop, Not(A)) is TRUE and Not(A) is not FALSE:
                return sub(num(c + 1), rest), A
        if k == -1:
            A = Not(atom(a))                 # -pos + rest > c <=> pos < rest - c
            if restrict(stop, Not(A)) is TRUE:
                return sub(rest, num(c)), A
    return None

def classify(src, b, l, accs, lvl):
    """closed summary of one carried value, or None"""
    acc, st, init = l.acc, l.step, l.init
    if st is acc: return init
    ls = leaves(st)
    others = accs
    gs_ok = all(not occurs_any(g, others) for g, _ in ls)
    # append
    def parts(x):
        if x is acc: return EMPTY
        if x.op == "cat" and x.args and x.args[0] is acc: return cat(*x.args[1:])
        return None
    if gs_ok:
        ps = [parts(x) for _, x in ls]
        if all(p is not None and not occurs_any(p, others) for p in ps):
            body = map_leaves(st, parts)
            return seq_cat(init, comp_over(src, body))
        if numeric(acc):
            ds = [_d(x, acc) for _, x in ls]
            if all(not occurs_any(d, others) for d in ds):
                return add(init, sum_(src, map_leaves(st, lambda x: _d(x, acc))))
        # per-element update
        if all(x.op == "seqset" and x.args[0] is acc and x.args[1] is b or x is acc for _, x in ls) and init is binder_src(src) and src.op != "until":
            cur = index(acc, b)
            bodyv = map_leaves(st, lambda x: x.args[2] if x.op == "seqset" else index(init, b))
            m = {}
            for y in subterms(bodyv):
                if y.op == "index" and y.args[0] is acc and y.args[1] is b: m[y] = typed(index(init, b, y.ty), y.ty)
            bodyv = substitute(bodyv, m) if m else bodyv
            if not occurs_any(bodyv, others): return comp(src, one(bodyv))
    # boolean flags
    if set(x for _, x in ls) <= {TRUE, FALSE, acc} or (st.op == "ite" and st.args[0] is not None and all(x in (TRUE, FALSE) for _, x in ls)):
        t1 = bool_cof(st, acc, True); t0 = bool_cof(st, acc, False)
        if t1 is not None and not occurs_any(t1, others) and not occurs_any(t0, others):
            if t1 is TRUE: return Or(bool_of(init), any_(src, t0))
            if t0 is FALSE: return And(bool_of(init), Not(any_(src, Not(t1))))
    if numeric(acc):
        # running maximum / minimum
        for _, x in ls:
            if x is acc or occurs_any(x, others): continue
            for nm, fn in (("maxof", tmax), ("minof", tmin)):
                if st is fn(acc, x) or st is fn(x, acc):
                    q = comp_over(src, one(x))
                    m = mk(nm, q)
                    r = fn(init, m)
                    if nm == "maxof" and is_num(init) and rng(x)[0] >= init.args[0]: r = m
                    return ite(lt(num(0), length(q)), r, init)
    if init is NONE: return opt_extremum(src, acc, st, others)
    return None

def opt_extremum(src, acc, st, others):
    """running maximum / minimum that starts as None"""
    t0 = substitute(st, {acc: NONE})
    if occurs_any(t0, others): return None
    ls = [x for _, x in leaves(t0)]
    if not all(x is NONE or is_some(x) for x in ls): return None
    xs = [x.args[2] for x in ls if is_some(x)]
    if not xs or not all(numeric(y) for x in xs for _, y in leaves(x)): return None
    ty = next((y.ty for x in xs for _, y in leaves(x) if y.ty), "usize")
    c = typed(mk("cmpA", ty), ty)
    t1 = substitute(st, {acc: some(c)})
    for nm, fn in (("maxof", tmax), ("minof", tmin)):
        for f in (lambda x: fn(c, x), lambda x: fn(x, c)):
            if map_leaves(t0, lambda x: some(c) if x is NONE else some(f(x.args[2]))) is t1:
                q = comp_over(src, map_leaves(t0, lambda x: EMPTY if x is NONE else one(x.args[2])))
                return ite(lt(num(0), length(q)), some(typed(mk(nm, q), ty)), NONE)
    return None

def is_some(t): return t.op == "adt" and t.args[0] == "Option" and t.args[1] == "Some"

def bool_cof(st, acc, val):
    a = acc
    m = {}
    t = substitute(st, {acc: TRUE if val else FALSE})
    return bool_of(t)

def _d(x, acc):
    return TM._add(x, TM._mul(num(-1), acc))

def map_leaves(t, f):
    if t.op == "ite":
        a = t.args[0]
        return TM.ite_order(a, map_leaves(t.args[1], f), map_leaves(t.args[2], f))
    return f(t)

def comp_over(src, body):
    return comp(src, body)

def fold_group(src, todo, openl, lvl):
    """uninterpreted fold of mutually dependent carried values"""
    group = list(todo)
    accs = {l.acc for l in openl}
    # include summarised leaves that the steps still mention
    need = set()
    work = list(group)
    while work:
        l = work.pop()
        for m in openl:
            if m not in group and occurs_any(l.step, {m.acc}):
                group.append(m); work.append(m)
    # connected components
    comps = []
    rest = list(group)
    dep = {l: {m for m in group if m is l or occurs_any(l.step, {m.acc})} for l in group}
    for l in todo:
        sc = scan_append(src, l, group, accs, dep)
        if sc is not None:
            l.final = sc
            continue
        # closure of dependencies
        cl, w = {l}, [l]
        while w:
            x = w.pop()
            for m in dep[x]:
                if m not in cl: cl.add(m); w.append(m)
        order = [l] + [m for m in state_order(cl, accs) if m is not l]
        names = state_names(order)
        ren = {m.acc: typed(mk("acc", lvl, names[i] if names else i, m.acc.args[2]), m.acc.ty) for i, m in enumerate(order)}
        note_alive(ren)
        inits = tuple(m.init for m in order)
        steps = tuple(substitute(m.step, ren) for m in order)
        if len(order) == 1:
            l.final = typed(mk("fold", src, inits[0], steps[0]), l.acc.ty)
            if inits[0] is NONE and all(is_some(x) for _, x in leaves(steps[0])):      # Some as soon as one step was taken
                l.final = ite(any_(src, TRUE), some(payload(l.final, "Some", "0")), NONE)
        else:
            l.final = typed(mk("folds", src, inits, steps, *state_tag(names)), l.acc.ty)

def scan_append(src, l, group, accs, dep):
    """items appended under a state that evolves on its own: init ++ scanseq(..)"""
    ls = leaves(l.step)
    def part(x):
        if x is l.acc: return EMPTY
        if x.op == "cat" and x.args and x.args[0] is l.acc and not occurs_any(cat(*x.args[1:]), {l.acc}): return cat(*x.args[1:])
        return None
    if any(part(x) is None for _, x in ls) or any(occurs_any(g, {l.acc}) for g, _ in ls): return None
    body = map_leaves(l.step, part)
    cl = {m for m in group if m is not l and occurs_any(body, {m.acc})}
    w = list(cl)
    while w:
        x = w.pop()
        for m in dep[x]:
            if m is l: return None
            if m not in cl: cl.add(m); w.append(m)
    if not cl: return None
    ms = list(cl)
    return seq_cat(l.init, scan(src, [m.acc for m in ms], [m.init for m in ms], [m.step for m in ms], body))

def gen_height(t):
    h = 0
    for y in subterms(t):
        if y.op == "acc" and isinstance(y.args[0], str) and y.args[0][0] == "g" and y.args[0][1:].isdigit(): h = max(h, int(y.args[0][1:]))
    return h

def scan(src, accs, inits, steps, body):
    """canonical stateful producer: per element of src emit body (a sequence), then advance the state"""
    h = 1 + max([gen_height(t) for t in list(steps) + [body]])
    class M: pass
    ms = []
    for i, a in enumerate(accs):
        m = M(); m.i, m.acc, m.init, m.step, m.key, m.path = i, a, inits[i], steps[i], "", (i,)
        ms.append(m)
    order = [m.i for m in state_order(ms, accs)]
    names = state_names([ms[i] for i in order])
    ren = {accs[i]: typed(mk("acc", "g%d" % h, names[q] if names else q, accs[i].args[2]), accs[i].ty) for q, i in enumerate(order)}
    R = lambda t: substitute(t, ren)
    return mk("scanseq", src, tuple(inits[i] for i in order), tuple(R(steps[i]) for i in order), R(body), *state_tag(names))

def state_order(ms, accs):
    """Order carried values by how they start and evolve: independent of names, of declaration order and of the order in which
    conditions are tested (colour refinement over order-insensitive signatures of the steps)."""
    ms = list(ms)
    if len(ms) == 1: return ms
    if BYNAME[0]: return sorted(ms, key=lambda m: (ACCNAME.get(m.acc) or str(m.acc.args[1]), str(m.key), m.path))
    blank = {a: "hole" for a in accs}
    first = {m: "%s|%s" % (m.acc.args[2], tsig(m.init, {}, {})) for m in ms}
    rank = {m: [first[m]] for m in ms}
    col = first
    for fine in (False, True):      # what a coarse look tells apart keeps its place when details change
        for rnd in range(3):
            if len(set(map(tuple, rank.values()))) == len(ms): break
            hole = dict(blank)
            for m in ms: hole[m.acc] = col[m]
            memo, new = {}, {}
            for m in ms:
                # the value itself looks like its class here; what sets it apart is where it occurs
                new[m] = _md5(col[m], tsig(m.step, hole, memo, fine))
            if len(set(new.values())) == len(set(col.values())) and rnd: break
            col = new
        for m in ms: rank[m].append(col[m])
    if DEBUG is not None: DEBUG.append([(col[m], show(m.init, 3), tsig(m.step, blank, {}), m.step) for m in sorted(ms, key=lambda m: (col[m], str(m.key), m.path))])
    return sorted(ms, key=lambda m: (rank[m], str(m.key), m.path))

def state_names(ms):
    if not BYNAME[0]: return None
    out = []
    for m in ms:
        n = ACCNAME.get(m.acc) or (str(m.acc.args[1]) if isinstance(m.acc.args[1], str) else "?")
        while n in out: n += "'"
        out.append(n)
    return out
def state_tag(names): return (tuple(names),) if names else ()

BYNAME = [False]    # order carried values by the names of the variables (to localise a difference, never to establish equality)
ACCNAME = {}
DEBUG = None
def _md5(*xs): return hashlib.md5(repr(xs).encode()).hexdigest()[:12]
LOOPSTATE = ("folds", "loopfix", "scanseq")
_levels = {}
def levels(t):
    """levels of the carried values a term mentions freely"""
    r = _levels.get(t)
    if r is not None: return r
    out = set()
    for i, x in enumerate(t.args):
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, tuple): st += y
            elif isinstance(y, T):
                if t.op in ("fold", "loopout", "loopval") + LOOPSTATE and i in TM.BINDS[t.op]: out |= levels(y) - {own_level(t if t.op not in ("loopout", "loopval") else t.args[0])}
                else: out |= levels(y)
    if t.op == "acc": out.add(t.args[0])
    r = _levels[t] = frozenset(out)
    return r
_own = {}
def own_level(loop):
    r = _own.get(loop)
    if r is not None: return r
    ls = set()
    for i in TM.BINDS[loop.op]:
        x = loop.args[i]
        for y in x if isinstance(x, tuple) else (x,): ls |= levels(y)
    if loop.op == "scanseq": c = [(int(l[1:]), l) for l in ls if isinstance(l, str) and l[0] == "g" and l[1:].isdigit()]
    else: c = [(l, l) for l in ls if isinstance(l, int)]
    r = _own[loop] = max(c)[1] if c else "none"
    return r

def tsig(t, hole, memo, fine=True):
    """signature of a term in which carried values are known by their class only and unordered parts are unordered"""
    inner = {}      # loop -> (holes, memo) with its own carried values known by how they start and evolve
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        op = t.op
        if op == "acc": r = hole.get(t) or "acc:%s" % t.args[2]
        elif op == "ite":
            ats, lvs, seen, st = set(), set(), set(), [t]
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                if x.op == "ite": ats.add(x.args[0]); st += [x.args[1], x.args[2]]
                else: lvs.add(x)
            r = _md5(op, *[sorted((go(x) for x in xs) if fine else {go(x) for x in xs}) for xs in (ats, lvs)])
        elif op == "poly": r = _md5(op, sorted((str(abs(c)), sorted((go(v), e) for v, e in mono)) for mono, c in t.args))
        elif not fine and op in ("le", "lt_"): r = _md5(op[0], go(t.args[0]))
        elif not fine and op in LOOPSTATE: r = _md5(op, *[sorted(go(y) for y in x) if isinstance(x, tuple) else go(x) for x in t.args])
        elif fine and op in ("loopout", "loopval"):
            L = t.args[0]
            g = within(L)
            r = _md5(op, go(L), g(t.args[1]), [g(y) for y in t.args[2]] if op == "loopout" else t.args[2])
        elif op in ("le", "lt_"):
            # which side is negative, and the scale, depend on the order of the terms
            p, c = t.args
            if op == "le" and is_int(p): r = _md5("l", go(p), str(min(c, -c - 1)))
            elif p.op == "poly":
                z = sum(abs(k) for _, k in p.args)
                r = _md5("l", sorted((str(abs(k) / z), sorted((go(v), e) for v, e in mono)) for mono, k in p.args), str(abs(c) / z))
            else: r = _md5("l", go(p), str(abs(c)))
        elif op in LOOPSTATE:
            st = [(go(i), go(s)) for i, s in zip(t.args[1], t.args[2])]
            r = _md5(op, go(t.args[0]), st[0] if op == "folds" else 0, sorted(st), [sorted(go(y) for y in x) if isinstance(x, tuple) else go(x) for x in t.args[3:]])
        else: r = _md5(op, *[sub(x) for x in t.args])
        memo[t] = r
        return r
    def within(L):
        q = inner.get(L)
        if q is None:
            lv, h = own_level(L), dict(hole)
            own = {}
            for x in L.args[2:]:
                for y in x if isinstance(x, tuple) else (x,):
                    for z in subterms(y):
                        if z.op == "acc" and z.args[0] == lv and isinstance(z.args[1], int) and z.args[1] < len(L.args[1]): own[z] = z.args[1]
            for z, i in own.items(): h[z] = _md5("own", go(L.args[1][i]), go(L.args[2][i]))
            q = inner[L] = (h, {})
        return lambda t: tsig(t, q[0], q[1], fine)
    def sub(x): return go(x) if isinstance(x, T) else [sub(y) for y in x] if isinstance(x, tuple) else str(x)
    return go(t)

def generic_loop(ev, src, env0, g0, leavs, changed, bguards, rguards, rets, rvals, fr, lvl, accs):
    """loop whose exit depends on carried state: one uninterpreted fixpoint term per carried value"""
    openl = [l for l in leavs if l.closed is None]
    order = state_order(openl, accs)
    names = state_names(order)
    ren = {m.acc: typed(mk("acc", lvl, names[i] if names else i, m.acc.args[2]), m.acc.ty) for i, m in enumerate(order)}
    R = lambda t: substitute(t, ren)
    note_alive(ren)
    inits = tuple(m.init for m in order)
    steps = tuple(R(m.step) for m in order)
    bg = tuple(R(g) for g in bguards)
    rg = tuple(R(g) for g in rguards)
    loop = mk("loopfix", src, inits, steps, bg, rg, *state_tag(names))
    nb = len(bguards)
    from .ev import State
    def assembled(vals):
        env = dict(env0)
        for k, sh in changed.items():
            env[k] = assemble(sh, iter([vals[l.acc] for l in leavs if l.key == k]))
        return env
    vals = {}
    for l in leavs:
        if l.closed is not None and not free(l.closed, binder(src)) and all(x is l.closed or x is None for x in l.brk[:nb]):
            vals[l.acc] = l.closed; continue
        alts = tuple(ite(bg[j], R(x), R(l.acc if l.closed is None else l.closed)) if x is not None else mk("none") for j, x in enumerate(l.brk[:nb]))
        vals[l.acc] = typed(mk("loopout", loop, R(l.acc) if l.closed is None else R(l.closed), alts), l.acc.ty)
    g = g0
    for i, (s, _) in enumerate(rets):
        c = atom(mk("loopret", loop, i))
        rv = {}
        for l in leavs:
            rv[l.acc] = typed(mk("loopout", loop, R(l.acc) if l.closed is None else R(l.closed), (ite(rg[i], R(l.brk[nb + i]), R(l.acc if l.closed is None else l.closed)),)), l.acc.ty)
        fr.rets.append((State(assembled(rv), And(g0, c)), mk("loopval", loop, R(rvals[i]), i)))
        g = And(g, Not(c))
    ev.env, ev.g = assembled(vals), g
    if src is NAT and not bguards: ev.g = FALSE

def loop(ev, x):
    """`loop`/`while`"""
    lbl = x["lbl"]
    fr = ev.frames[-1]
    # value-carrying break
    hold = {}
    def run(): ev.eval(x["e"])
    key = ev.tmp(UNIT)
    # route break values through a pseudo variable
    hasval = _break_values(x["e"], lbl)
    if hasval:
        orig = ev.e_break
        def e_break(y):
            if y["lbl"] == lbl and y.get("e") is not None:
                v = ev.rv(ev.eval(y["e"]))
                if ev.dead(): return BOTTOM
                ev.env[key] = v
                t = ev.frames[-1].targets.get(lbl)
                from .ev import State
                t[-1].append((State(ev.env, ev.g), UNIT))
                ev.env, ev.g = dict(ev.env), FALSE
                return BOTTOM
            return orig(y)
        ev.e_break = e_break
        ev.env[key] = mk("noval")
        try: loop_over(ev, NAT, run, lbl)
        finally: ev.e_break = orig
        return ev.env.get(key, UNIT) if not ev.dead() else BOTTOM
    loop_over(ev, NAT, run, lbl)
    return UNIT if not ev.dead() else BOTTOM

def _break_values(e, lbl):
    if isinstance(e, dict):
        if e.get("k") == "break" and e.get("lbl") == lbl and e.get("e") is not None: return True
        if e.get("k") == "closure": return False
        return any(_break_values(v, lbl) for v in e.values())
    if isinstance(e, list): return any(_break_values(v, lbl) for v in e)
    return False

# ---------------------------------------------------------------- lazy adaptors
def seq_map(ev, seqv, f):
    """sequence of f(elem) (f returns a sequence contribution); effects of f are summarised too"""
    out = ev.tmp(EMPTY)
    def run(e):
        r = f(e)
        if not ev.dead(): ev.env[out] = seq_cat(ev.env[out], r)
    iterate(ev, seqv, run)
    v = ev.env.pop(out)
    return v

def call1(ev, fn, *args):
    return ev.apply(ev.rv(fn) if fn.op == "mref" else fn, list(args))

def isopt(x): return x.op == "adt" and x.args[0] == "Option"

from . import models as _models
def call(ev, f, path, argv, x): return _models.call(ev, f, path, argv, x)
def ctor(ev, f, x, argv): return _models.ctor(ev, f, x, argv)
def const_value(base, m, impl, x): return _models.const_value(base, m, impl, x)
