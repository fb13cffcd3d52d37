"""Record format: layout of what the writer produces, and what the readers make of any buffer."""
from .rules import ob
from .world import *

F = "rust-src/src/gridstore/gridstore_format.rs"

def writer(W, data):
    """a writer that has already produced `data`"""
    w = W.call("Writer::new").ret
    if w.op == "adt":
        fs = [data if x is EMPTY else x for x in w.args[2:]]
        return adt(w.args[0], w.args[1], *fs)
    return w

def written(W, r): return W.call("Writer::finish", [r.outs[0]]).ret
def both(W, r): return {"ret": r.ret, "1": written(W, r), "2": written(W, r)}

# ---- element codecs
@ob("C01", "format::u32_write", ("1",), F)
def _(W, v, buf): return {"1": W.call("u32 as FixedEncodable::write_fixed_to", [v, buf]).outs[1]}
@ob("C01", "format::u32_read", ("ret",), F)
def _(W, buf, at): return W.call("u32 as FixedEncodable::read_fixed_from", [buf, at]).ret
@ob("C01", "format::record_write", ("1",), F)
def _(W, v, buf): return {"1": W.call("PhraseRecord as FixedEncodable::write_fixed_to", [v, buf]).outs[1]}
@ob("C01", "format::record_read", ("ret",), F)
def _(W, buf, at): return W.call("PhraseRecord as FixedEncodable::read_fixed_from", [buf, at]).ret
@ob("C01", "format::rs_write", ("ret", "1"), F)
def _(W, v, buf):
    r = W.call("RelevScore as VarEncodable::write_to", [v, buf])
    return {"ret": r.ret, "1": r.outs[1]}
@ob("C01", "format::rs_read", ("ret",), F)
def _(W, buf, at): return W.call("RelevScore as VarEncodable::read_from", [buf, at]).ret
@ob("C01", "format::coord_size", ("ret",), F)
def _(W, c): return W.call("Coord as UniformEncodable::get_min_size", [c]).ret
@ob("C01", "format::coord_write", ("2",), F)
def _(W, c, size, buf): return {"2": W.call("Coord as UniformEncodable::write_with_size_to", [c, size, buf]).outs[2]}
@ob("C01", "format::coord_read", ("ret",), F)
def _(W, buf, size, at): return W.call("Coord as UniformEncodable::read_with_size_from", [buf, size, at]).ret

# ---- writer
@ob("C02", "format::fixed_vec", ("ret", "1"), F)
def _(W, items, data): return both(W, W.call("Writer::write_fixed_vec", [writer(W, data), items], elem="u32"))
@ob("C02", "format::var_vec", ("ret", "1"), F)
def _(W, items, data): return both(W, W.call("Writer::write_var_vec", [writer(W, data), items], elem="RelevScore"))
@ob("C02", "format::uniform_vec", ("ret", "1"), F)
def _(W, items, data): return both(W, W.call("Writer::write_uniform_vec", [writer(W, data), items], elem="Coord"))
@ob("C03", "format::fixed_scalar", ("ret", "1"), F)
def _(W, v, data): return both(W, W.call("Writer::write_fixed_scalar", [writer(W, data), v], elem="PhraseRecord"))
@ob("C03", "format::var_scalar", ("ret", "1"), F)
def _(W, v, data): return both(W, W.call("Writer::write_var_scalar", [writer(W, data), v], elem="RelevScore"))
@ob("C03", "format::uniform_scalar", ("ret", "2"), F)
def _(W, v, size, data): return both(W, W.call("Writer::write_uniform_scalar_with_size", [writer(W, data), v, size], elem="Coord"))

# ---- views over any buffer, by every public way to make one
def view(kind, elem):
    name = {"fixed": "FixedVec", "var": "VarVec", "uniform": "UniformVec"}[kind]
    ways = [lambda W, d, at: W.call("%s::new" % name, [d, at], elem=elem).ret,
            lambda W, d, at: W.call("gridstore_format::read_%s_vec_raw" % kind, [d, at], elem=elem).ret,
            lambda W, d, at: W.call("Reader::read_%s_vec" % kind, [W.call("Reader::new", [d]).ret, at], elem=elem, skip_self=True).ret]
    for i, way in enumerate(ways):
        def add(m, spec, way=way):
            @ob("C02", spec, ("ret",), F)
            def _(W, d, at, *rest): return W.call("%s::%s" % (name, m), [way(W, d, at)] + list(rest), elem=elem).ret
        add("len", "format::%s_len" % kind)
        if kind != "var": add("get", "format::%s_get" % kind)
        add("iter", "format::%s_all" % kind)
        add("into_iter", "format::%s_all" % kind)
view("fixed", "u32")
view("var", "RelevScore")
view("uniform", "Coord")

def reader(W, d): return W.call("Reader::new", [d]).ret
@ob("C03", "format::root", ("ret",), F)
def _(W, d): return W.call("Reader::read_root", [reader(W, d)], elem="PhraseRecord", skip_self=True).ret
@ob("C03", "format::root", ("ret",), F)
def _(W, d): return W.call("gridstore_format::read_phrase_record_from", [reader(W, d)]).ret
@ob("C03", "format::record_read", ("ret",), F)
def _(W, d, at): return W.call("Reader::read_fixed_scalar", [reader(W, d), at], elem="PhraseRecord", skip_self=True).ret
@ob("C03", "format::rs_read", ("ret",), F)
def _(W, d, at): return W.call("Reader::read_var_scalar", [reader(W, d), at], elem="RelevScore", skip_self=True).ret
@ob("C03", "format::coord_read", ("ret",), F)
def _(W, d, size, at): return W.call("Reader::read_uniform_scalar", [reader(W, d), size, at], elem="Coord", skip_self=True).ret

# ---- stored pointers
for _k, _n in (("f", "FixedVecOffset"), ("v", "VarVecOffset"), ("u", "UniformVecOffset")):
    def _mk(k, n):
        @ob("C03", "format::fixed_ptr_" + k, ("ret",), F)
        def _(W, d, at): return W.call(n + "::from_fixed_pointer", [d, at]).ret
        @ob("C03", "format::var_ptr_" + k, ("ret",), F)
        def _(W, d, at): return W.call(n + "::from_var_pointer", [d, at]).ret
    _mk(_k, _n)
